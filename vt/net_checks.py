"""Checks over the generated Controller and Controllee: whole exchanges over the loopback interface."""
import copy, json, os, time
from . import common, net, natsd, pkgen, pkdrv, pkmodel, pk_checks
from .common import Check, thorough, ddmin, SEED
from .pk_checks import differ, show

NET_NOTE = 'both ends run in one process over the loopback interface; Linux, IPv4'

class Model:
    """What every object of the driver process holds, and what an exchange must produce."""
    def __init__(self, s):
        self.s = s
        self.st = {k: s.pks[s.objs[i]].initial() for k, i in s.idx.items()}
        self.cer = None
        cers = [c for c in s.controls if c.pk.cer]
        if cers:
            self.cer = bytes(4 if cers[0].pk.cer == 'word' else 16)
        self.mids = {}
    def pk(self, key):
        return self.s.pks[self.s.objs[self.s.idx[key]]]
    def apply(self, key, op):
        if op[0] not in 'DGZ':
            self.pk(key).apply(self.st[key], op)
        elif op[0] in 'DZ':
            self.st[key].pop('lag', None)
    def command(self, k, mid):
        """The state of the command object once it has been sent with this message identifier."""
        c, st = self.s.controls[k], self.st['send', k]
        c.pk.apply(st, ['S', 'message_id', mid])
        if c.pk.cer:
            c.pk.apply(st, ['S', 'controller_id', self.cer.hex()])
        return st
    def answer(self, k, t):
        """The acknowledgement the caller must receive in slot t."""
        c = self.s.controls[k]
        pk, st, cmd = c.ack(t), copy.deepcopy(self.st['answer', k, t]), self.st['send', k]
        st.pop('lag', None)
        if t in 'VX':
            pk.apply(st, ['S', 'ack_' + t.lower(), '01'])
        st['sid'], st['mid'] = cmd['sid'], cmd['mid']
        st['cee'], st['cer'] = cmd['cee'], cmd['cer']
        return pk, st
    def sendable(self, k):
        """The command and its acknowledgements are of their classes whatever was put into them."""
        c = self.s.controls[k]
        return pk_checks.accepts(c.pk, c.pk.encode(self.st['send', k])) and all(
            pk_checks.accepts(*(lambda pk, st: (pk, pk.encode(st)))(*self.answer(k, t))) for t in c.asked(self.st['send', k]))

def image(pk, st):
    return pk.getters(st), pk.encode(st).hex()

def against(pk, st, shown, what):
    g, _, d = shown.partition('|')
    want = image(pk, st)
    e = differ(want[0], g) or differ(want[1], d)
    return e and '%s: %s' % (what, e)

def connect(p, s, srv=None):
    if srv:
        for x in ('ee', 'er'):
            r = p.net(x, str(srv.port))
            if r != ('ok' if x == 'ee' else 'subject.one'):
                raise net.Died('%s: %s' % (x, r))
        if p.net('url') != 'nats://127.0.0.1:%d' % srv.port:
            raise net.Died('url() is %s' % p.net('url'))
        if not srv.wait(lambda: len(srv.subs) == 2):
            raise net.Died('subscriptions at the server: %s' % [x[1] for x in srv.subs])
        p.net('vrtlisten')
        return
    port = p.net('ee', '0')
    if not port.isdigit() or port == '0':
        raise net.Died('the controllee cannot be created: ' + port)
    own = p.net('er', port)
    if not own.isdigit():
        raise net.Died('the controller cannot be created: ' + own)
    if s.transport == 'tcp' and p.net('accept') != 'ok':
        raise net.Died('accept failed')
    if p.net('dst') != '127.0.0.1:' + port:
        raise net.Died('controllee_endpoint() is not the endpoint it was given')
    p.net('vrtlisten')

def exchange(p, s, m, k):
    """Sends command k; '' or what is wrong.  Also returns the number of acknowledgements."""
    c = s.controls[k]
    r = p.net('send', k)
    g = dict(z.split('=', 1) for z in p.ask('%d G' % s.idx['send', k]).split() if '=' in z)
    mid = g.get('message_id', '00000000')
    st = m.command(k, mid)
    if not r.startswith('acks '):
        return 'send_%s: %s' % (pkmodel.snake(c.pk.name), r), 0
    if mid in m.mids:
        return 'message identifier %s was used before' % mid, 0
    m.mids[mid] = k
    e = against(c.pk, st, p.ask('%d G' % s.idx['send', k]) + '|' + p.ask('%d D' % s.idx['send', k]), 'the command after sending')
    if e:
        return e, 0
    asked = c.asked(st)
    calls = (['V%d' % k] if 'V' in asked else []) + (['E%d' % k] if 'X' in asked or 'S' in asked else [])
    got = [x for x in p.net('log', len(calls)).split('#') if x]
    if [x.split(' ')[0] for x in got] != calls:
        return 'handlers called: %s, expected %s' % ([x.split(' ')[0] for x in got], calls), 0
    for x in got:
        n, _, sh = x.partition(' ')
        e = against(c.pk, st, sh, 'the command as %s received it' % ('validate' if n[0] == 'V' else 'execute'))
        if e:
            return e, 0
    acks = dict(x.split(' ', 1) for x in r[5:].split('#') if x)
    if sorted(acks) != sorted(c.slots):
        return 'acknowledgement slots %s, expected %s' % (sorted(acks), sorted(c.slots)), 0
    for t in c.slots:
        if (acks[t] == '-') != (t not in asked):
            return 'acknowledgement %s was %s but is %s' % (t, 'requested' if t in asked else 'not requested', 'missing' if acks[t] == '-' else 'there'), 0
        if t in asked:
            e = against(*m.answer(k, t), acks[t], 'acknowledgement %s' % t)
            if e:
                return e, 0
    return '', len(asked)

def op(p, s, m, key, o):
    i = s.idx[tuple(key) if isinstance(key, (list, tuple)) else key]
    key = tuple(key)
    if o[0] == 'N':
        m.st[key] = m.pk(key).initial()
    else:
        m.apply(key, o)
    r = p.ask(pkdrv.op_line(i, o))
    return '' if r == 'ok' or o[0] in 'DGZ' else '%s answers %s' % (show(o), r)

def sessions(s, steps, stats=None):
    """Runs one session; '' or (index of the failing step, what is wrong)."""
    p, m, at = net.Process(s), Model(s), -1
    done = 0
    srv = natsd.Natsd() if s.transport == 'nats' else None
    try:
        connect(p, s, srv)
        for at, x in enumerate(steps):
            if x[0] == 'op':
                e = op(p, s, m, x[1], x[2])
            elif x[0] == 'cid':
                p.net('cid', x[1])
                m.cer = bytes.fromhex(x[1])
                e = differ(x[1], p.net('cid?'))
            elif x[0] == 'junk':                  # a message that is no command
                srv.route('subject.one', x[2], bytes.fromhex(x[1]))
                e = ''
            elif x[0] == 'other':                 # a command from another program
                e = other_controller(p, s, m, srv, x[1], pkmodel.from_json(x[2]), x[3])
            else:
                if not m.sendable(x[1]):
                    continue
                e, n = exchange(p, s, m, x[1])
                if stats is not None:
                    stats.append((x[1], n, image(s.controls[x[1]].pk, m.st['send', x[1]])[1]))
                done += 1
            if e:
                p.kill()
                return at, e
        at = len(steps)
        extra = p.net('log', '0,20')
        if extra:
            p.kill()
            return at, 'a handler was called that nobody asked for: ' + extra[:200]
        p.net('-er'); p.net('-ee')
        p.end()
        return ''
    except net.Died as e:
        p.kill()
        return at, str(e)
    finally:
        if srv:
            srv.close()

def other_controller(p, s, m, srv, k, st, reply):
    """A command published by another program, with or without a subject for the answers."""
    c = s.controls[k]
    m.st['send', k] = st
    asked = c.asked(st)
    calls = (['V%d' % k] if 'V' in asked else []) + (['E%d' % k] if 'X' in asked or 'S' in asked else [])
    want = [(lambda pk, a: pk.encode(a))(*m.answer(k, t)) for t in asked]
    srv.route('subject.one', reply, c.pk.encode(st))
    got = [x for x in p.net('log', len(calls)).split('#') if x]
    # the object of the driver does not hold this command
    r = p.ask(pkdrv.op_line(s.idx['send', k], ['N']))
    m.st['send', k] = c.pk.initial()
    if [x.split(' ')[0] for x in got] != calls:
        return 'a command of another program: handlers called: %s, expected %s' % ([x.split(' ')[0] for x in got], calls)
    for x in got:
        e = against(c.pk, st, x.partition(' ')[2], 'the command of another program')
        if e:
            return e
    if reply:
        mine = lambda: [x for x in srv.log if x[1] == reply]
        srv.wait(lambda: len(mine()) >= len(want))
        back = [(x[1], x[3].hex()) for x in mine()]
        if back != [(reply, b.hex()) for b in want]:
            return 'answers to another program: %s, expected %s' % (back, [(reply, b.hex()) for b in want])
    return ''

def rand_session(rng, s, ncmd):
    steps = []
    cers = [c for c in s.controls if c.pk.cer]
    for _ in range(ncmd):
        k = rng.randrange(len(s.controls))
        c = s.controls[k]
        if cers and rng.random() < .3:
            steps.append(['cid', rng.randbytes(4 if cers[0].pk.cer == 'word' else 16).hex()])
        long = []
        if rng.random() < .12:             # a command and answers that take many segments or a whole datagram
            w = rng.choice([1000, 3000, 8000, 12000, 15500] + ([60000] if s.transport == 'tcp' else []))
            long = [key for key, pk in [(('send', k), c.pk)] + [(('answer', k, t), c.ack(t)) for t in c.slots]
                    if any(f.name == 'gps_ascii' and not pk.enables for f in getattr(pk, 'fields', []))]
            big = rng.getrandbits(24).to_bytes(4, 'big') + w.to_bytes(4, 'big') + bytes(rng.choice(b'$GPABC,0123456789*') for _ in range(4 * w))
            if long:
                steps.append(['op', rng.choice(long), ['S', 'gps_ascii', big.hex()]])
        if not long and rng.random() < .3:
            steps.append(['op', ('send', k), ['N']])
        for _ in range(rng.choice([0, 1, 3, 6, 12]) if not long else 0):
            steps.append(['op', ('send', k), pkgen.rand_op(rng, c.pk, ['H', 'F', 'F', 'F', 'B', 'R', 'A'])])
        for t in c.slots if not long else ():
            if rng.random() < .3:
                steps.append(['op', ('answer', k, t), ['N']])
            for _ in range(rng.choice([0, 0, 1, 3, 6])):
                steps.append(['op', ('answer', k, t), pkgen.rand_op(rng, c.ack(t), ['H', 'F', 'F', 'F', 'B', 'R'])])
        steps.append(['send', k])
        if long:
            steps.append(['op', steps[-2][1], ['N']])
    return steps

def log_entries(p, n, linger):
    """The next n handler calls; those of commands that a lost connection left behind are passed over."""
    out = []
    while True:
        got, passed = [x for x in p.net('log', '%d,%d' % (n - len(out), linger)).split('#') if x], 0
        for x in got:
            name, text = x.split(' ', 1)
            i = next((i for i, (h, c, st) in enumerate(p.late) if h == name and not against(c.pk, st, text, '')), None)
            if i is None:
                out.append(x)
            else:
                p.late, passed = p.late[i + 1:], passed + 1
        if not passed or len(out) >= n:
            return out

def shrink_session(c, run, s, steps, at, why, limit=60):
    """The shortest session found that still fails, or None where no repetition fails: what fails once only is the machine's doing."""
    t0 = time.time()
    def fails(x):
        return time.time() - t0 < limit and bool(run(s, list(x)))
    cut = steps[:at + 1]
    for x in (cut, cut, steps, steps, cut, steps):
        e = run(s, list(x))
        if e:
            steps = ddmin(x, fails)
            e = run(s, list(steps)) or e
            return steps, e[1]
    c.extra['not repeatable'] = c.extra.get('not repeatable', 0) + 1
    print('passed over, did not fail again: ' + why[:300].split('\n')[0])
    return None

def tell(steps):
    return '; '.join(' '.join(str(y) for y in x[:2]) + ' ' + (show(x[2]) if len(x) > 2 else '') for x in steps)[:1500]

def systems(c, n, transports, rounds=1, minutes=10, gen=net.gen_system, **kw):
    """Builds n systems per round and yields those that could be built."""
    until = c.t0 + minutes * 60 if thorough() else None
    r = 0
    while True:
        ss = [net.System(gen(c.rng, transports[i % len(transports)], **kw)) for i in range(n)]
        res = common.pmap(lambda s: s.build(), ss)
        good = []
        for s, (e, err) in zip(ss, res):
            if err:
                raise err
            if e:
                if len(c.violations) < 3:
                    c.violation('no working Controller and Controllee for a valid information class: %s\n%s' % (e, s.yaml()),
                                dict(system=s.s, yaml=s.yaml(), error=e, how='vt/net.py System(system).build()'))
            else:
                good.append(s)
        c.extra['systems'] = c.extra.get('systems', 0) + len(good)
        yield good
        for s in ss:
            s.clean()
        r += 1
        if c.violations or (until is None and r >= rounds) or (until is not None and time.time() > until):
            return

def judge(c, s, steps, f, run):
    at, why = f
    r = shrink_session(c, run, s, steps, at, why)
    if not r:
        return
    steps, why = r
    c.violation('%s (%s)\n%s\nsession: %s' % (why, s.transport, s.yaml(), tell(steps)),
                dict(system=s.s, yaml=s.yaml(), steps=steps, why=why, how='vt/net_checks.py: sessions(net.System(system), steps)'))

# ------------------------------------------------------------------ P40 command exchange
def p40():
    c = Check('P40', 'a command, with at least one attribute or field set, that was sent through the Controller and asked for at least one acknowledgement',
              assumptions=[NET_NOTE, pk_checks.MODEL_NOTE])
    for ss in systems(c, 12, ['udp', 'tcp']):
        jobs = [(s, [rand_session(c.rng, s, 25) for _ in range(3)]) for s in ss]
        def go(j):
            s, hs = j
            out = []
            for h in hs:
                st = []
                f = sessions(s, h, st)
                out.append((h, f, st))
                if f:
                    break
            return out
        for (s, _), (out, err) in zip(jobs, common.pmap(go, jobs)):
            if err:
                raise err
            for h, f, st in out:
                for k, n, b in st:
                    c.case((s.yaml(), k, b) if n else None)
                    c.extra['acknowledgements'] = c.extra.get('acknowledgements', 0) + n
                if f and len(c.violations) < 3:
                    judge(c, s, h, f, sessions)
            c.sample('%s | %s' % (s.yaml().replace('\n', ' / ')[:1500], tell(out[0][0])[:400]))
    return c.finish()

# ------------------------------------------------------------------ P41 the TCP stream may be cut anywhere
import random, select, socket

def rand_command(rng, s, m, k):
    """A command of class k that asks for something, not built by the code under test."""
    c = s.controls[k]
    for _ in range(50):
        st = pkgen.rand_state(rng, c.pk)
        st['mid'] = rng.getrandbits(32)
        for key, _ in net.REQS:
            if c.d['cam'].get(key) == 'optional':
                st['cambits'][key] = rng.random() < .7
        m.st['send', k] = st
        if m.sendable(k):
            return st
    return None

def cuts(rng, b, bounds):
    """Chunk sizes and pauses (ms) for a byte string; bounds are the ends of the packets in it."""
    style = rng.choice(['whole', 'random', 'random', 'edges', 'headers', 'bytes', 'packets'])
    n = len(b)
    if style == 'whole':
        at = []
    elif style == 'random':
        at = sorted(rng.sample(range(1, n), min(n - 1, rng.choice([1, 2, 5, 12]))))
    elif style == 'packets':
        at = bounds[:-1]
    elif style == 'bytes':
        at = list(range(1, min(n, 60)))
    else:
        near = (-1, 1) if style == 'edges' else (1, 2, 3)
        at = sorted({x + rng.choice(near) for x in [0] + bounds[:-1]} & set(range(1, n)))
    at = [0] + at + [n]
    return [[y - x, rng.choice([0, 1, 1, 2])] for x, y in zip(at, at[1:])]

def write_cut(sock, b, plan):
    pos = 0
    for n, ms in plan:
        sock.sendall(b[pos:pos + n])
        pos += n
        if ms:
            time.sleep(ms / 1000)
    if pos < len(b):
        sock.sendall(b[pos:])

def read_exact(sock, n, timeout=8):
    """n bytes, or what came before the timeout"""
    out, end = b'', time.time() + timeout
    while len(out) < n and time.time() < end:
        if select.select([sock], [], [], max(0, end - time.time()))[0]:
            x = sock.recv(65536)
            if not x:
                break
            out += x
    return out

def apply_answers(p, s, m, steps):
    for key, o in steps:
        e = op(p, s, m, key, o)
        if e:
            raise net.Died(e)

def rand_answers(rng, s):
    out = []
    for k, c in enumerate(s.controls):
        for t in c.slots:
            for _ in range(rng.choice([0, 2, 5])):
                out.append([('answer', k, t), pkgen.rand_op(rng, c.ack(t), ['H', 'F', 'F', 'B'])])
    return out

def foreign(rng, s):
    """A well-formed packet of a class the controllee does not know."""
    d = pkgen.gen_def(rng, 'Other', rng.choice(['context', 'control', 'data']), n={0: 2, 1: 1, 2: 0})
    d.setdefault('cls', {})
    d['cls'].update(pc=rng.choice([c.d['cls']['pc'] for c in s.controls]), oui='0A-0B-0C', ic=s.s['code'])
    pk = pkmodel.Pk(d)
    return pk.encode(pkgen.rand_state(rng, pk))

def stream_case(rng, s):
    """answers, [('cmd', k, state) | ('other', hex)], plan"""
    m = Model(s)
    answers = rand_answers(rng, s)
    for key, o in answers:
        m.apply(key, o)
    items = []
    for _ in range(rng.choice([1, 2, 3, 5, 8, 12])):
        if rng.random() < .12:
            items.append(['other', foreign(rng, s).hex()])
            continue
        k = rng.randrange(len(s.controls))
        st = rand_command(rng, s, m, k)
        if st:
            items.append(['cmd', k, pkmodel.to_json(st)])
    b, bounds = stream_bytes(s, items)
    return answers, items, cuts(rng, b, bounds) if b else []

def stream_bytes(s, items):
    b, bounds = b'', []
    for x in items:
        b += bytes.fromhex(x[1]) if x[0] == 'other' else s.controls[x[1]].pk.encode(pkmodel.from_json(x[2]))
        bounds.append(len(b))
    return b, bounds

def controllee_stream(p, s, m, sock, answers, items, plan):
    """One burst of packets to the controllee over an open connection."""
    apply_answers(p, s, m, answers)
    want, calls = b'', []
    for x in items:
        if x[0] == 'cmd':
            c, st = s.controls[x[1]], pkmodel.from_json(x[2])
            m.st['send', x[1]] = st
            asked = c.asked(st)
            calls += [('V%d' % x[1], c, st)] if 'V' in asked else []
            calls += [('E%d' % x[1], c, st)] if 'X' in asked or 'S' in asked else []
            for t in asked:
                want += (lambda pk, a: pk.encode(a))(*m.answer(x[1], t))
    b, _ = stream_bytes(s, items)
    write_cut(sock, b, plan)
    got = log_entries(p, len(calls), 10)
    names = [x.split(' ')[0] for x in got]
    if names != [x[0] for x in calls]:
        return 'of %d packets in a stream of %d bytes cut into %d pieces the handlers saw %s, expected %s' % (len(items), len(b), len(plan), names, [x[0] for x in calls])
    for x, (n, c, st) in zip(got, calls):
        e = against(c.pk, st, x.split(' ', 1)[1], 'a command out of the stream')
        if e:
            return e
    back = read_exact(sock, len(want))
    if back != want:
        return 'acknowledgements on the stream: got %s, expected %s' % (back.hex(), want.hex())
    return ''

def controllee_session(s, bursts, pause=False):
    p, m, at = net.Process(s), Model(s), -1
    sock = None
    try:
        port = p.net('ee', '0')
        if pause:
            p.net('eetimeout', '1')
        sock = socket.create_connection(('127.0.0.1', int(port)))
        sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if p.net('accept') != 'ok':
            raise net.Died('accept failed')
        p.net('vrtlisten')
        for at, (answers, items, plan) in enumerate(bursts):
            if not items:
                continue
            if pause and at == 0:
                plan = [[plan[0][0], 1300]] + plan[1:] if len(plan) > 1 else [[2, 1300]]
            e = controllee_stream(p, s, m, sock, answers, items, plan)
            if e:
                p.kill()
                return at, e
        sock.close()
        p.net('-ee')
        p.end()
        return ''
    except net.Died as e:
        p.kill()
        return at, str(e)
    finally:
        if sock:
            sock.close()

def controller_stream(p, s, m, conn, k, ops, answers, plan_seed):
    """The controller against a peer that cuts its answers as it likes."""
    rng = random.Random(plan_seed)
    c = s.controls[k]
    for o in ops:
        e = op(p, s, m, ('send', k), o)
        if e:
            return e
    if not m.sendable(k):
        return ''
    p.start('0 NET send %d' % k)
    n = len(c.pk.encode(m.st['send', k]))
    b = read_exact(conn, n, 5)
    lo = pk_checks.layout(c.pk)
    st = m.command(k, b[lo['mid']:lo['mid'] + 4].hex())
    want = c.pk.encode(st)
    if b != want:
        p.wait()
        return 'the controller wrote %s, expected %s' % (b.hex(), want.hex())
    asked, out, bounds, states = c.asked(st), b'', [], {}
    for t in asked:
        for _ in range(40):
            m.st['answer', k, t] = pkgen.rand_state(rng, c.ack(t))
            pk, a = m.answer(k, t)
            if pk_checks.accepts(pk, pk.encode(a)):
                break
        else:
            m.st['answer', k, t] = c.ack(t).initial()
            pk, a = m.answer(k, t)
        states[t] = (pk, a)
        out += pk.encode(a)
        bounds.append(len(out))
    if out:
        write_cut(conn, out, cuts(rng, out, bounds))
    r = p.wait()
    if not r.startswith('acks '):
        return 'send: %s (%d bytes of acknowledgements were written)' % (r, len(out))
    acks = dict(x.split(' ', 1) for x in r[5:].split('#') if x)
    for t in c.slots:
        if (acks.get(t, '-') == '-') != (t not in asked):
            return 'acknowledgement %s is %s' % (t, acks.get(t))
        if t in asked:
            e = against(*states[t], acks[t], 'acknowledgement %s out of the stream' % t)
            if e:
                return e
    return ''

def controller_session(s, cmds):
    p, m, at = net.Process(s), Model(s), -1
    srv = socket.socket()
    conn = None
    try:
        srv.bind(('127.0.0.1', 0)); srv.listen(1)
        p.net('er', str(srv.getsockname()[1]))
        conn, _ = srv.accept()
        conn.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        for at, (k, ops, seed) in enumerate(cmds):
            e = controller_stream(p, s, m, conn, k, ops, None, seed)
            if e:
                p.kill()
                return at, e
        p.net('-er')
        p.end()
        return ''
    except net.Died as e:
        p.kill()
        return at, str(e)
    finally:
        srv.close()
        if conn:
            conn.close()

def rand_commands(rng, s, n):
    out = []
    for _ in range(n):
        k = rng.randrange(len(s.controls))
        out.append([k, [pkgen.rand_op(rng, s.controls[k].pk, ['H', 'F', 'F', 'B', 'R']) for _ in range(rng.choice([0, 2, 6]))], rng.getrandbits(32)])
    return out

def p41():
    c = Check('P41', 'a byte stream of at least one command or acknowledgement that reached the reader in at least two pieces, or in which one piece held more than one packet',
              assumptions=[NET_NOTE, pk_checks.MODEL_NOTE, 'pieces are separate writes with TCP_NODELAY and pauses of 0 to 2 ms; the kernel may join some of them'])
    for ss in systems(c, 8, ['tcp']):
        jobs = [(s, [[stream_case(c.rng, s) for _ in range(14)] for _ in range(2)], [rand_commands(c.rng, s, 25) for _ in range(2)]) for s in ss]
        def go(j):
            s, ee, er = j
            for n, b in enumerate(ee):
                f = controllee_session(s, b, pause=n == 0)
                if f:
                    return 'ee', b, f, n == 0
            for b in er:
                f = controller_session(s, b)
                if f:
                    return 'er', b, f, False
        for (s, ee, er), (f, err) in zip(jobs, common.pmap(go, jobs)):
            if err:
                raise err
            for b in ee:
                for answers, items, plan in b:
                    c.case((s.yaml(), items, plan) if items and (len(plan) > 1 or len(items) > 1) else None)
            for b in er:
                for x in b:
                    c.case((s.yaml(), x))
            c.extra['controllee streams'] = c.extra.get('controllee streams', 0) + sum(map(len, ee))
            c.extra['controller exchanges'] = c.extra.get('controller exchanges', 0) + sum(map(len, er))
            c.sample('%s | pieces %s' % ([x[0] if x[0] == 'other' else 'cmd%d' % x[1] for x in ee[0][0][1]], ee[0][0][2][:20]))
            if f and len(c.violations) < 3:
                side, steps, (at, why), pause = f
                run_ = (lambda s_, x: controllee_session(s_, x, pause)) if side == 'ee' else controller_session
                r_ = shrink_session(c, run_, s, steps, at, why)
                if not r_:
                    continue
                steps, why = r_
                c.violation('%s (%s side)\n%s\nsteps: %s' % (why, 'controllee' if side == 'ee' else 'controller', s.yaml(), str(steps)[:1500]),
                            dict(system=s.s, yaml=s.yaml(), side=side, pause=pause, steps=steps, why=why,
                                 how='vt/net_checks.py: controllee_session / controller_session(net.System(system), steps)'))
    return c.finish()

# ------------------------------------------------------------------ P42 streaming of data and context packets
def gen_stream_system(rng, transport):
    return net.gen_system(rng, transport, ncontrol=rng.choice([0, 0, 1]), nother=rng.choice([1, 2, 3, 4]))

def junk(rng, s, m):
    """A datagram that no class of the system accepts as a packet."""
    kind = rng.choice(['foreign', 'foreign', 'cut', 'cut', 'short', 'noise'])
    if kind == 'foreign':
        d = pkgen.gen_def(rng, 'Other', rng.choice(['context', 'control', 'data', 'extcontext']), n={0: 2, 1: 1, 2: 0})
        d.setdefault('cls', {})
        d['cls'].update(pc=rng.choice([p.d['cls']['pc'] for p in s.others]), oui='0A-0B-0C', ic=s.s['code'])
        pk = pkmodel.Pk(d)
        b = pk.encode(pkgen.rand_state(rng, pk))
    else:
        j = rng.randrange(len(s.others))
        pk = s.others[j]
        b = pk.encode(pkgen.rand_state(rng, pk))
        if kind == 'cut':
            b = b[:rng.randrange(1, len(b))]
        elif kind == 'short':
            b = b[:rng.randrange(1, min(len(b), 9))]
        else:
            b = rng.randbytes(rng.choice([1, 3, 4, 8, 30, 200]))
    if any(len(b) >= 4 * int.from_bytes(b[2:4], 'big') and len(b) >= 4 and pk_checks.accepts(p, b + bytes(64)) for p in s.others):
        return b'\1'
    return b

def rand_stream(rng, s, n):
    m = Model(s)
    out = []
    for _ in range(n):
        r = rng.random()
        j = rng.randrange(len(s.others))
        if r < .45:
            out.append(['op', ('send', 'o%d' % j), ['N'] if rng.random() < .15 else pkgen.rand_op(rng, s.others[j], ['H', 'F', 'F', 'F', 'B', 'R', 'P', 'P'])])
        elif r < .72:
            burst = []
            for _ in range(rng.choice([1, 1, 2, 5, 12])):
                burst.append(['junk', junk(rng, s, m).hex()] if rng.random() < .25 else
                             ['ee', rng.randrange(len(s.others))] if rng.random() < .5 else
                             ['peer', (lambda q: [q, pkmodel.to_json(pkgen.rand_state(rng, s.others[q]))])(rng.randrange(len(s.others)))])
            out.append(['burst', burst])
        elif r < .76:
            out.append(['tx', j])
        elif r < .82 and s.others[j].kind == 'data':       # up to the longest packet a datagram holds
            n = rng.choice([1400, 1500, 9000, 16384, 32768, 40000, 65000, 65507 - 40, rng.randrange(65000)])
            out += [['op', ('send', 'o%d' % j), ['P', rng.randbytes(n).hex()]], rng.choice([['burst', [['ee', j]]], ['tx', j]]),
                    ['op', ('send', 'o%d' % j), ['P', rng.randbytes(8).hex()]]]
        elif r < .90:
            out.append([rng.choice(['reg', 'reg', 'rereg', 'unreg']), j])
        else:
            out.append(['toggle', [['ee', rng.randrange(len(s.others))] for _ in range(rng.choice([0, 1, 2]))]])
    return out

def stream_session(s, steps, stats=None):
    p, m, at = net.Process(s), Model(s), -1
    peer = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    srv = socket.socket()
    try:
        p.net('ee', '0')
        if s.controls and s.transport == 'tcp':
            srv.bind(('127.0.0.1', 0)); srv.listen(1)
            p.net('er', str(srv.getsockname()[1]))
        else:
            p.net('er', '9')
        port = p.net('src', '0')
        eeport = p.net('eesrc', '0')
        if p.net('eedst', port) != '127.0.0.1:' + port:
            raise net.Died('the destination endpoint of the controllee is not the one it was given')
        if p.net('dstdc', eeport) != '127.0.0.1:' + eeport:
            raise net.Died('the destination endpoint of the controller is not the one it was given')
        p.net('timeout', '1')
        p.net('on')
        listening = {}
        def deliver(burst):
            want = []
            for kind, x in burst:
                if kind == 'junk':
                    peer.sendto(bytes.fromhex(x), ('127.0.0.1', int(port)))
                    continue
                if kind == 'ee':
                    j, st = x, copy.deepcopy(m.st['send', 'o%d' % x])
                    pk = s.others[j]
                    b = pk.encode(st)
                    n = p.net('eetx', j)
                    m.st['send', 'o%d' % j].pop('lag', None)
                    if n != str(len(b)):
                        return 'the controllee sent %s bytes of %d' % (n, len(b)), []
                else:
                    j, st = x[0], pkmodel.from_json(x[1])
                    b = s.others[j].encode(st)
                    peer.sendto(b, ('127.0.0.1', int(port)))
                if pk_checks.accepts(s.others[j], b) and j in listening:
                    want.append((j, st))
            return '', want
        for at, x in enumerate(steps):
            e = ''
            if x[0] == 'op':
                e = op(p, s, m, x[1], x[2])
            elif x[0] == 'reg':
                p.net('reg', x[1])
                listening[x[1]] = 'L'
            elif x[0] == 'rereg':
                p.net('rereg', x[1])
                listening[x[1]] = 'M'
            elif x[0] == 'unreg':
                p.net('unreg', x[1])
                listening.pop(x[1], None)
            elif x[0] == 'tx':
                pk, st = s.others[x[1]], m.st['send', 'o%d' % x[1]]
                r = p.net('tx', x[1])
                e = r != 'ok' and 'send_%s: %s' % (pkmodel.snake(pk.name), r) or differ(pk.encode(st).hex(), p.net('eeread'))
                st.pop('lag', None)
                if stats is not None:
                    stats.append(('tx', pk.encode(st).hex()))
            elif x[0] in ('burst', 'toggle'):
                if x[0] == 'toggle':
                    p.net('off')
                    e = p.net('log', '0,5') and 'a listener was called that should not have been'
                    p.net('on')
                    if len(x[1]) == 1:
                        p.net('on')
                e2, want = deliver(x[1])
                e = e or e2
                got = [y for y in p.net('log', '%d,8' % len(want)).split('#') if y]
                if not e and [y.split(' ')[0] for y in got] != ['%s%d' % (listening[j], j) for j, _ in want]:
                    e = 'of %d datagrams the listeners saw %s, expected %s' % (len(x[1]), [y.split(' ')[0] for y in got], ['%s%d' % (listening[j], j) for j, _ in want])
                for y, (j, st) in zip(got, want):
                    e = e or against(s.others[j], st, y.split(' ', 1)[1], 'a packet as its listener received it')
                if stats is not None:
                    stats += [('rx', s.others[j].encode(st).hex()) for j, st in want]
            if e:
                p.kill()
                return at, e
        at = len(steps)
        if len(steps) % 2 == 0:
            p.net('off')
            e, want = deliver([['ee', j] for j in range(len(s.others))])
            if p.net('log', '0,30'):
                p.kill()
                return at, 'a listener was called after disable_receive'
        p.net('-er'); p.net('-ee')
        p.end()
        return ''
    except net.Died as e:
        p.kill()
        return at, str(e)
    finally:
        peer.close(); srv.close()

def p42():
    c = Check('P42', 'a packet that had a registered listener, or was sent by the Controller, with at least one field or payload byte set',
              assumptions=[NET_NOTE, pk_checks.MODEL_NOTE, 'bursts are small enough for the socket buffer'])
    for ss in systems(c, 12, ['udp', 'tcp'], gen=gen_stream_system):
        jobs = [(s, [rand_stream(c.rng, s, 60) for _ in range(3)]) for s in ss]
        def go(j):
            s, hs = j
            out = []
            for h in hs:
                st = []
                f = stream_session(s, h, st)
                out.append((h, f, st))
                if f:
                    break
            return out
        for (s, _), (out, err) in zip(jobs, common.pmap(go, jobs)):
            if err:
                raise err
            for h, f, st in out:
                for x in st:
                    c.case((s.yaml(), x))
                    c.extra[x[0]] = c.extra.get(x[0], 0) + 1
                if f and len(c.violations) < 3:
                    r_ = shrink_session(c, stream_session, s, h, *f)
                    if not r_:
                        continue
                    steps, why = r_
                    c.violation('%s\n%s\nsession: %s' % (why, s.yaml(), str(steps)[:1500]),
                                dict(system=s.s, yaml=s.yaml(), steps=steps, why=why, how='vt/net_checks.py: stream_session(net.System(system), steps)'))
            c.sample('%s | %s' % (s.yaml().replace('\n', ' / ')[:1500], str(out[0][0])[:400]))
    return c.finish()

# ------------------------------------------------------------------ P43 replies that are not the answer
def not_the_answer(rng, s, m, k, t, mid, late, stream):
    """A reply that a controller waiting for acknowledgement t of command k must pass over."""
    c = s.controls[k]
    pk = c.ack(t)
    def ack(pk, mid_):
        st = pkgen.rand_state(rng, pk)
        st.pop('lag', None)
        st['mid'] = mid_
        if pk.variant == 'VX':
            st['cambits'].update(rng.choice([dict(ack_v=True), dict(ack_x=True)]))
        return pk.encode(st)
    other = rng.choice([mid ^ (1 << rng.randrange(32)), mid - 1 & 0xFFFFFFFF, mid + 1 & 0xFFFFFFFF, 0, rng.getrandbits(32)])
    if other == mid:
        other ^= 1
    kind = rng.choice(['late', 'stale', 'stale', 'sibling', 'command', 'foreign', 'foreign'] + ([] if stream else ['cut', 'cut', 'noise', 'short']))
    if kind == 'late' and late:
        return kind, rng.choice(late)
    if kind == 'sibling':          # an earlier acknowledgement of any class of the system
        cs = [x for x in s.controls if x.slots]
        x = rng.choice(cs)
        return kind, ack(x.ack(rng.choice(x.slots)), other)
    if kind == 'command':
        return kind, c.pk.encode(m.st['send', k])
    if kind == 'foreign':
        return kind, foreign(rng, s)
    if kind == 'cut':
        b = ack(pk, mid)
        return kind, b[:rng.randrange(1, len(b))]
    if kind == 'short':
        return kind, rng.randbytes(rng.randrange(1, 8))
    if kind == 'noise':
        return kind, bytes([rng.choice([0x00, 0x80, 0xFF])]) + rng.randbytes(rng.choice([3, 11, 40, 200]))
    return 'stale', ack(pk, other)

def deceive(p, s, m, io, k, ops, seed, late, stats):
    """One command whose answer is buried in other replies, or does not come at all."""
    rng = random.Random(seed)
    c = s.controls[k]
    stream = s.transport == 'tcp'
    for o in ops:
        e = op(p, s, m, ('send', k), o)
        if e:
            return e
    if not m.sendable(k):
        return ''
    if late and rng.random() < .4:          # arrives between two commands
        for b in late[-2:]:
            io.reply(b)
    p.start('0 NET send %d' % k)
    n = len(c.pk.encode(m.st['send', k]))
    b = io.command(n)
    lo = pk_checks.layout(c.pk)
    mid = b[lo['mid']:lo['mid'] + 4]
    st = m.command(k, mid.hex())
    want = c.pk.encode(st)
    if b != want:
        p.wait()
        return 'the peer received %s instead of the command %s' % (b.hex() or 'nothing', want.hex())
    asked, states, done = c.asked(st), {}, []
    silent = rng.randrange(len(asked)) if asked and rng.random() < .12 else None
    for n, t in enumerate(asked):
        for _ in range(40):
            m.st['answer', k, t] = pkgen.rand_state(rng, c.ack(t))
            pk, a = m.answer(k, t)
            if pk_checks.accepts(pk, pk.encode(a)):
                break
        else:
            m.st['answer', k, t] = c.ack(t).initial()
            pk, a = m.answer(k, t)
        states[t] = (pk, a)
        for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
            kind, x = not_the_answer(rng, s, m, k, t, int.from_bytes(mid, 'big'), late, stream)
            done.append(kind)
            io.reply(x, rng.random() < .4)
        if n == silent:
            late += [pk_.encode(a_) for pk_, a_ in [states[t]]]
            break
        io.reply(pk.encode(a))
    r = p.wait(30)
    late += [pk.encode(a) for pk, a in states.values()]
    del late[:-4]
    stats.append((k, silent is not None, tuple(done), want.hex()))
    said = 'replies before the acknowledgements: %s' % done
    if silent is not None:
        return '' if r.startswith('EXC ') else 'acknowledgement %s was never sent (%s) and the controller returned %s' % (asked[silent], said, r[:600])
    if not r.startswith('acks '):
        return 'send: %s (%s)' % (r, said)
    acks = dict(x.split(' ', 1) for x in r[5:].split('#') if x)
    for t in c.slots:
        if (acks.get(t, '-') == '-') != (t not in asked):
            return 'acknowledgement %s is %s' % (t, acks.get(t))
        if t in asked:
            e = against(*states[t], acks[t], 'acknowledgement %s' % t)
            if e:
                return '%s (%s)' % (e, said)
    return ''

class UdpPeer:
    """The controllee's address, and a stranger's."""
    def __init__(self):
        self.a, self.b = (socket.socket(socket.AF_INET, socket.SOCK_DGRAM) for _ in '12')
        self.a.bind(('127.0.0.1', 0)); self.b.bind(('127.0.0.1', 0))
        self.port = self.a.getsockname()[1]
        self.src = None
    def connect(self, own):
        self.src = ('127.0.0.1', int(own))
    def command(self, n):
        return self.a.recv(65536) if select.select([self.a], [], [], 5)[0] else b''
    def reply(self, b, stranger=False):
        (self.b if stranger else self.a).sendto(b, self.src)
    def close(self):
        self.a.close(); self.b.close()

class TcpPeer:
    def __init__(self):
        self.srv, self.c = socket.socket(), None
        self.srv.bind(('127.0.0.1', 0)); self.srv.listen(1)
        self.port = self.srv.getsockname()[1]
    def connect(self, own):
        self.c, _ = self.srv.accept()
        self.c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    def command(self, n):
        return read_exact(self.c, n, 5)
    def reply(self, b, stranger=False):
        self.c.sendall(b)
    def close(self):
        self.srv.close()
        if self.c:
            self.c.close()

class NatsPeer:
    """A server that answers the commands itself."""
    def __init__(self):
        self.srv = natsd.Natsd()
        self.srv.hook = True
        self.port, self.n, self.inbox = self.srv.port, 0, ''
    def connect(self, own):
        if not self.srv.wait(lambda: self.srv.subs):
            raise net.Died('the controller did not subscribe')
    def command(self, n):
        if not self.srv.wait(lambda: len(self.srv.log) > self.n):
            return b''
        _, subject, self.inbox, b = self.srv.log[self.n]
        self.n += 1
        return b if subject == 'subject.one' else b'to another subject: ' + subject.encode()
    def reply(self, b, stranger=False):
        self.srv.route(self.inbox, '', b)
    def close(self):
        self.srv.close()

PEERS = dict(tcp=TcpPeer, udp=UdpPeer, nats=NatsPeer)

def deceit_session(s, cmds, stats=None):
    p, m, at = net.Process(s), Model(s), -1
    io = PEERS[s.transport]()
    late = []
    stats = [] if stats is None else stats
    try:
        own = p.net('er', str(io.port))
        io.connect(own)
        if s.transport != 'nats':
            p.net('ertimeout', '1')
        for at, (k, ops, seed) in enumerate(cmds):
            e = deceive(p, s, m, io, k, ops, seed, late, stats)
            if not e and s.transport == 'udp' and p.net('dst') != '127.0.0.1:%d' % io.port:
                e = 'controllee_endpoint() became %s' % p.net('dst')
            if e:
                p.kill()
                return at, e
        p.net('-er')
        p.end()
        return ''
    except net.Died as e:
        p.kill()
        return at, str(e)
    finally:
        io.close()

def half_answer(s):
    """An acknowledgement of which only a part has come when the wait for it ends; '' or what the next command sees."""
    k, c = next((k, c) for k, c in enumerate(s.controls) if c.slots)
    p, m, io = net.Process(s), Model(s), TcpPeer()
    lo = pk_checks.layout(c.pk)
    try:
        io.connect(p.net('er', str(io.port)))
        p.net('ertimeout', '1')
        rest = b''
        for turn in (0, 1):
            for f, t in net.REQS:
                if c.d['cam'].get(f) == 'optional':
                    op(p, s, m, ('send', k), ['S', f, '01'])
            p.start('0 NET send %d' % k)
            b = io.command(len(c.pk.encode(m.st['send', k])))
            st = m.command(k, b[lo['mid']:lo['mid'] + 4].hex())
            out = b''
            for t in c.asked(st):
                pk, a = m.answer(k, t)
                out += pk.encode(a)
            io.reply(out[:10] if turn == 0 else rest + out)
            rest = out[10:]
            r = p.wait(30)
        p.kill()
        return '' if r.startswith('acks ') else r
    except net.Died as e:
        p.kill()
        return str(e)
    finally:
        io.close()

def p43():
    c = Check('P43', 'a command that asks for at least one acknowledgement and gets at least one reply that is not it (late, of another command, of another class, cut, noise, from a stranger), or no answer at all',
              assumptions=[NET_NOTE, pk_checks.MODEL_NOTE, 'replies on the TCP stream are whole packets'])
    for ss in systems(c, 10, ['udp', 'udp', 'tcp']):
        for s in [s for s in ss if s.transport == 'tcp' and any(x.slots for x in s.controls)][:1]:
            e = half_answer(s)
            if e:
                c.violation('after an acknowledgement of which only 10 bytes came in time, the answer to the next command is not found: %s\n%s' % (e, s.yaml()),
                            dict(system=s.s, yaml=s.yaml(), how='vt/net_checks.py: half_answer(net.System(system))'), key='tcp-half-answer')
        jobs = [(s, [rand_commands(c.rng, s, 25) for _ in range(3)]) for s in ss if any(x.slots for x in s.controls)]
        def go(j):
            s, hs = j
            out = []
            for h in hs:
                st = []
                f = deceit_session(s, h, st)
                out.append((h, f, st))
                if f:
                    break
            return out
        for (s, _), (out, err) in zip(jobs, common.pmap(go, jobs)):
            if err:
                raise err
            for h, f, st in out:
                for x in st:
                    c.case((s.yaml(), x) if x[1] or x[2] else None)
                    for kind in x[2]:
                        c.extra[kind] = c.extra.get(kind, 0) + 1
                    c.extra['unanswered'] = c.extra.get('unanswered', 0) + x[1]
                if f and len(c.violations) < 3:
                    r_ = shrink_session(c, deceit_session, s, h, *f)
                    if not r_:
                        continue
                    steps, why = r_
                    c.violation('%s (%s)\n%s\ncommands: %s' % (why, s.transport, s.yaml(), str(steps)[:1500]),
                                dict(system=s.s, yaml=s.yaml(), steps=steps, why=why, how='vt/net_checks.py: deceit_session(net.System(system), steps)'))
            c.sample('%s | %s' % (s.yaml().replace('\n', ' / ')[:1200], str([x[:3] for x in out[0][2]])[:400]))
    return c.finish()
