"""Checks with peers that disappear in the middle of an exchange."""
import random, socket, struct, time
from . import common, net, pkgen, pk_checks, pkmodel, net_checks
from .common import Check
from .net_checks import Model, NET_NOTE, against, op, stream_case, stream_bytes, controllee_stream, apply_answers, read_exact, rand_commands, shrink_session

def rst(sock):
    """Ends the connection with a reset instead of in an orderly way."""
    sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
    sock.close()

def gone(p, r, what):
    return '' if r.startswith(('EXC ', 'acks ')) else '%s: %s' % (what, r)

# ------------------------------------------------------------------ the controllee loses its controller
def client(rng, s):
    """A visit: how it goes, what it sends, at which byte the peer leaves."""
    answers, items, plan = stream_case(rng, s)
    how = rng.choice(['stay', 'close', 'close', 'reset', 'half', 'unread'])
    n = len(stream_bytes(s, items)[0])
    at = rng.choice([0, n, rng.randrange(n + 1), max(0, n - 1), min(n, rng.randrange(1, 9))]) if how in ('close', 'reset', 'unread') else n
    return [how, answers, items, plan, at]

def expected(s, m, items, upto):
    """Handler calls and answers for the packets that end within the first bytes of the stream."""
    calls, want, pos = [], b'', 0
    for x in items:
        b = bytes.fromhex(x[1]) if x[0] == 'other' else s.controls[x[1]].pk.encode(pkmodel.from_json(x[2]))
        pos += len(b)
        if pos > upto:
            break
        if x[0] == 'cmd':
            c, st = s.controls[x[1]], pkmodel.from_json(x[2])
            m.st['send', x[1]] = st
            asked = c.asked(st)
            calls += [('V%d' % x[1], c, st)] if 'V' in asked else []
            calls += [('E%d' % x[1], c, st)] if 'X' in asked or 'S' in asked else []
            for t in asked:
                want += (lambda pk, a: pk.encode(a))(*m.answer(x[1], t))
    return calls, want

def seen(p, calls, least, linger=40):
    got = net_checks.log_entries(p, len(calls), linger)
    p.late = p.late + calls[len(got):]
    names = [x.split(' ')[0] for x in got]
    if names != [x[0] for x in calls[:len(got)]] or len(got) < least:
        return 'the handlers saw %s, expected %s%s' % (names, [x[0] for x in calls], '' if least == len(calls) else ' or a beginning of it')
    for x, (_, c, st) in zip(got, calls):
        e = against(c.pk, st, x.split(' ', 1)[1], 'a command')
        if e:
            return e
    return ''

def visit(p, s, m, port, first, how, answers, items, plan, at):
    sock = socket.create_connection(('127.0.0.1', port))
    sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    try:
        if p.net('accept') != 'ok':
            return 'accept failed'
        if first:
            p.net('vrtlisten')
        if how == 'stay':
            return controllee_stream(p, s, m, sock, answers, items, plan)
        apply_answers(p, s, m, answers)
        b = stream_bytes(s, items)[0]
        calls, want = expected(s, m, items, at)
        sock.sendall(b[:at])
        if how == 'half':              # no more commands, but it still reads
            sock.shutdown(socket.SHUT_WR)
            back = read_exact(sock, len(want))
            e = seen(p, calls, len(calls))
            return e or ('' if back == want else 'acknowledgements to a peer that only reads: got %s, expected %s' % (back.hex(), want.hex()))
        if how == 'unread':            # waits for the handlers and leaves the answers where they are
            e = seen(p, calls, len(calls))
            sock.close()
            return e
        if how == 'close':
            sock.close()
        else:
            rst(sock)
        return seen(p, calls, 0)
    finally:
        sock.close()

def controllee_visits(s, visits, stats=None):
    p, m, at = net.Process(s), Model(s), -1
    try:
        port = int(p.net('ee', '0'))
        p.net('eetimeout', '1')
        base = None
        for at, v in enumerate(visits):
            e = visit(p, s, m, port, at == 0, *v)
            if not e and at == 0:
                base = int(p.net('fds'))
            elif not e and int(p.net('fds')) > base:
                e = 'descriptors of connections that ended stay open'
            if e:
                p.kill()
                return at, '%s (peer %d: %s)' % (e, at, v[0])
            if stats is not None:
                stats.append((v[0], v[4], str(v[2])[:400]))
        p.net('-ee')
        p.end()
        return ''
    except (net.Died, OSError) as e:
        p.kill()
        return at, str(e)

# ------------------------------------------------------------------ the controller loses its controllee
def left(p, s, m, k, ops, seed, listener, stats):
    """A connection whose other end goes away at some point of a command; a second command follows."""
    rng = random.Random(seed)
    c = s.controls[k]
    for o in ops:
        e = op(p, s, m, ('send', k), o)
        if e:
            return e
    port = listener.getsockname()[1]
    own = p.net('er', str(port))
    if not own.isdigit():
        return 'the controller cannot connect: ' + own
    conn, _ = listener.accept()
    leave = rng.choice([lambda: conn.close(), lambda: rst(conn)])
    when = rng.choice(['before', 'command', 'part', 'part', 'first'])
    if not m.sendable(k):
        conn.close()
        return ''
    asked = c.asked(m.st['send', k])
    n = len(c.pk.encode(m.st['send', k]))
    t = time.time()
    if when == 'before':
        leave()
        r = p.net('send', k, timeout=30)
        given = 0
    else:
        p.start('0 NET send %d' % k)
        b = read_exact(conn, n, 5)
        lo = pk_checks.layout(c.pk)
        m.command(k, b[lo['mid']:lo['mid'] + 4].hex())
        out, given = [], 0
        for x in asked:
            pk, a = m.answer(k, x)
            out.append(pk.encode(a))
        try:
            if when == 'part' and out:
                i = rng.randrange(len(out))
                given = i
                conn.sendall(b''.join(out[:i]) + out[i][:rng.randrange(1, len(out[i]))])
            elif when == 'first' and out:
                given = rng.randrange(len(out) + 1)
                conn.sendall(b''.join(out[:given]))
        except OSError:
            pass
        leave()
        r = p.wait(30)
    t = time.time() - t
    stats.append((k, when, len(asked), seed))
    e = gone(p, r, 'send')
    if not e and asked and given < len(asked) and not r.startswith('EXC '):
        e = 'the peer left (%s) after %d of %d acknowledgements and the controller returned %s' % (when, given, len(asked), r[:300])
    if not e and t > 4 + 4 * len(asked):
        e = 'the call took %.0f s' % t
    for _ in range(2):                # nobody is there any more
        r = e or p.net('send', k, timeout=30)
        e = e or gone(p, r, 'a later send') or ('' if not asked or r.startswith('EXC ') else 'a command without a peer was answered: ' + r[:300])
    return e

def controller_losses(s, cmds, stats=None):
    p, m, at = net.Process(s), Model(s), -1
    srv = socket.socket()
    stats = [] if stats is None else stats
    try:
        srv.bind(('127.0.0.1', 0)); srv.listen(4)
        base = None
        for at, (k, ops, seed) in enumerate(cmds):
            e = left(p, s, m, k, ops, seed, srv, stats)
            p.net('-er')
            n = int(p.net('fds'))
            if not e and base is not None and n > base:
                e = '%d descriptors are open after the controller was destroyed, %d before it was created' % (n, base)
            base = n if base is None else base
            if e:
                p.kill()
                return at, e
        p.end()
        return ''
    except (net.Died, OSError) as e:
        p.kill()
        return at, str(e)
    finally:
        srv.close()

# ------------------------------------------------------------------ datagrams to nobody
def udp_losses(s, steps, stats=None):
    """Commands from programs that leave before the answer, between commands that are answered."""
    p, m, at = net.Process(s), Model(s), -1
    try:
        port = int(p.net('ee', '0'))
        p.net('vrtlisten')
        for at, (answers, k, st, leaves) in enumerate(steps):
            apply_answers(p, s, m, answers)
            c = s.controls[k]
            m.st['send', k] = st = pkmodel.from_json(st)
            calls, want = expected(s, m, [['cmd', k, pkmodel.to_json(st)]], 1 << 30)
            sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            sock.connect(('127.0.0.1', port))
            sock.settimeout(5)
            sock.send(c.pk.encode(st))
            if leaves:
                sock.close()
            back = b''
            try:
                while not leaves and len(back) < len(want):
                    back += sock.recv(65536)
            except OSError:
                pass
            e = seen(p, calls, len(calls), 5)
            if not e and not leaves and back != want:
                e = 'acknowledgements: got %s, expected %s' % (back.hex(), want.hex())
            sock.close()
            if e:
                p.kill()
                return at, e
            if stats is not None:
                stats.append((k, leaves, c.pk.encode(st).hex()))
        p.net('-ee')
        p.end()
        return ''
    except (net.Died, OSError) as e:
        p.kill()
        return at, str(e)

def udp_absence(s, cmds, stats=None):
    """Commands to an address nobody listens at, or where somebody listens again."""
    p, m, at = net.Process(s), Model(s), -1
    a = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    a.bind(('127.0.0.1', 0))
    port = a.getsockname()[1]
    try:
        own = int(p.net('er', str(port)))
        p.net('ertimeout', '1')
        for at, (k, ops, there) in enumerate(cmds):
            c = s.controls[k]
            for o in ops:
                e = op(p, s, m, ('send', k), o)
                if e:
                    p.kill()
                    return at, e
            if not m.sendable(k):
                continue
            if there and a is None:
                a = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
                a.bind(('127.0.0.1', port))
            elif not there and a is not None:
                a.close()
                a = None
            e = ''
            if there:
                p.start('0 NET send %d' % k)
                a.settimeout(5)
                try:
                    b = a.recv(65536)
                except OSError:
                    b = b''
                lo = pk_checks.layout(c.pk)
                st = m.command(k, b[lo['mid']:lo['mid'] + 4].hex())
                if b != c.pk.encode(st):
                    e = 'the peer that came back received %s, expected %s' % (b.hex(), c.pk.encode(st).hex())
                for t in c.asked(st):
                    pk, x = m.answer(k, t)
                    a.sendto(pk.encode(x), ('127.0.0.1', own))
                r = p.wait(30)
                e = e or ('' if r.startswith('acks ') else 'the command to the peer that came back: ' + r)
            else:
                asked = c.asked(m.st['send', k])
                r = p.net('send', k, timeout=30)
                e = gone(p, r, 'send') or ('' if not asked or r.startswith('EXC ') else 'a command without a peer was answered: ' + r[:300])
            if stats is not None:
                stats.append((k, there, at))
            if e:
                p.kill()
                return at, e
        p.net('-er')
        p.end()
        return ''
    except (net.Died, OSError, ValueError) as e:
        p.kill()
        return at, str(e)
    finally:
        if a:
            a.close()

KINDS = {'controllee_visits': controllee_visits, 'controller_losses': controller_losses, 'udp_losses': udp_losses, 'udp_absence': udp_absence}

def udp_steps(rng, s, n):
    out, m = [], Model(s)
    while len(out) < n:
        answers = net_checks.rand_answers(rng, s)
        for key, o in answers:
            m.apply(key, o)
        k = rng.randrange(len(s.controls))
        st = net_checks.rand_command(rng, s, m, k)
        if st is None:
            out.append(None)
            continue
        out.append([answers, k, pkmodel.to_json(st), rng.random() < .5])
    return [x for x in out if x]

def p46():
    c = Check('P46', 'an exchange of at least one packet whose peer left at a chosen point (connection closed or reset, address abandoned), or the exchange with its successor',
              assumptions=[NET_NOTE, pk_checks.MODEL_NOTE])
    for ss in net_checks.systems(c, 10, ['tcp', 'tcp', 'udp']):
        jobs = []
        for s in ss:
            if s.transport == 'tcp':
                jobs += [('controllee_visits', s, [client(c.rng, s) for _ in range(18)]) for _ in range(2)]
                jobs += [('controller_losses', s, rand_commands(c.rng, s, 18)) for _ in range(2)]
            else:
                jobs += [('udp_losses', s, udp_steps(c.rng, s, 30))]
                jobs += [('udp_absence', s, [[k, o, c.rng.random() < .6] for k, o, _ in rand_commands(c.rng, s, 12)])]
        def go(j):
            st = []
            return KINDS[j[0]](*j[1:], st), st
        for (kind, s, h), (out, err) in zip(jobs, common.pmap(go, jobs)):
            if err:
                raise err
            f, st = out
            for x in st:
                c.case((s.yaml(), kind, x))
            c.extra[kind] = c.extra.get(kind, 0) + len(st)
            c.sample('%s | %s' % (kind, str(st[:6])[:500]))
            if f and len(c.violations) < 3:
                r_ = shrink_session(c, KINDS[kind], s, h, *f)
                if not r_:
                    continue
                steps, why = r_
                c.violation('%s (%s)\n%s\nsteps: %s' % (why, kind, s.yaml(), str(steps)[:1500]),
                            dict(system=s.s, yaml=s.yaml(), kind=kind, steps=steps, why=why, how='vt/loss_checks.py: KINDS[kind](net.System(system), steps)'))
    return c.finish()
