import traceback
def table():
    from . import lib_checks, pk_checks, def_checks, net_checks, hostile_checks, sock_checks, loss_checks, nats_checks, project_checks
    t = {}
    for m in (lib_checks, pk_checks, def_checks, net_checks, hostile_checks, sock_checks, loss_checks, nats_checks, project_checks):
        for n in dir(m):
            if n[0] == 'p' and n[1:].isdigit():
                t[n.upper()] = getattr(m, n)
    return t

def run(pid):
    try:
        return table()[pid]()
    except Exception:
        traceback.print_exc()
        print('%s: the check could not be carried out' % pid)
        return 2
