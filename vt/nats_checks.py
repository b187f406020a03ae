"""Checks over NATS: the client library against a server of our own, and whole systems that talk over it."""
import collections, os, random, time
from . import common, natsd, net, net_checks, pkdrv, pkgen, pkmodel, pk_checks
from .common import Check, thorough, ddmin, SAN, VERIF
from .sock_checks import Driver

NATS_NOTE = 'the server is vt/natsd.py: exact subjects, queue groups, replies; no authentication, no wildcards'

class Cl:
    def __init__(self):
        self.conn = None                  # number of the connection at the server
        self.subject, self.group, self.sync, self.inbox = '', '', False, ''
        self.msgs, self.replies = collections.deque(), collections.deque()

class Clients:
    """Model of up to three clients; steps are skipped where they make no sense."""
    def __init__(self, d, srv):
        self.d, self.srv, self.c = d, srv, {}
        self.url = 'nats://127.0.0.1:%d' % srv.port
        self.conns = {}
        self.inboxes = set()
    @staticmethod
    def same(got, want):
        return '' if got == want else 'is %s, expected %s' % (got[:300], want[:300])
    def step(self, x):
        v, i, a = x[0], x[1], x[2:]
        if v in ('make', 'new'):
            if i in self.c:
                return None
            c = self.c[i] = Cl()
            if v == 'make':
                return self.same(self.d.ask('make', i), 'ok')
            e = self.same(self.d.ask('new', i, self.url), 'ok')
            return e or self.connected(i, c)
        if v == 'inject':
            return self.deliver(a[0], a[1], random.Random(a[3]).randbytes(a[2]))
        c = self.c.get(i)
        return None if c is None else getattr(self, 'do_' + v)(c, i, *a)
    def connected(self, i, c):
        n = len(self.conns)
        if not self.srv.wait(lambda: len(self.srv.conns) == n + 1):
            return 'the server has %d connections, expected %d' % (len(self.srv.conns), n + 1)
        c.conn = n
        self.conns[n] = c
        return ''
    def subs(self):
        """what the server must know"""
        return sorted([(c.conn, c.subject, c.group) for c in self.c.values() if c.subject] + [(c.conn, c.inbox, '') for c in self.c.values() if c.inbox])
    def known(self):
        want = self.subs()
        now = lambda: sorted((self.srv.conns.index(s[0]), s[1], s[2]) for s in self.srv.subs)
        self.srv.wait(lambda: now() == want)
        return '' if now() == want else 'the server has subscriptions %s, expected %s' % (now(), want)
    def deliver(self, subject, reply, b):
        for s in self.srv.route(subject, reply, b):
            self.received(s, subject, reply, b)
        return ''
    def received(self, s, subject, reply, b):
        c = self.conns[self.srv.conns.index(s[0])]
        (c.replies if subject == c.inbox else c.msgs).append((b, reply))
    # ------------------------------------------------------------------
    def do_drop(self, c, i):
        del self.c[i]
        e = self.same(self.d.ask('drop', i), 'ok')
        return e or self.known()
    def do_connect(self, c, i):
        if c.conn is not None:
            return None
        e = self.same(self.d.ask('connect', i, self.url), 'ok')
        return e or self.connected(i, c)
    def do_state(self, c, i):
        return (self.same(self.d.ask('connected', i), '1' if c.conn is not None else '0') or self.same(self.d.ask('url', i), '<%s>' % (self.url if c.conn is not None else ''))
                or self.same(self.d.ask('subject', i), '<%s>' % c.subject) or self.same(self.d.ask('inbox', i), '<%s>' % c.inbox))
    def do_sub(self, c, i, subject, sync):
        if c.conn is None or c.subject:
            return None
        c.subject, c.sync = subject, sync == 1
        return self.same(self.d.ask('sub', i, subject, sync), 'ok') or self.known()
    def do_qsub(self, c, i, subject, group, sync):
        if c.conn is None or c.subject:
            return None
        c.subject, c.group, c.sync = subject, group, sync == 1
        return self.same(self.d.ask('qsub', i, subject, group, sync), 'ok') or self.known()
    def do_sub0(self, c, i):
        return self.same(self.d.ask('sub0', i), 'refused') or self.same(self.d.ask('qsub0', i), 'refused') if c.conn is not None and not c.subject else None
    def do_newinbox(self, c, i):
        if c.conn is None:
            return None
        e = ''
        while c.replies and not e:                 # messages on their way to the old inbox may be lost with it
            e = self.take(c.replies, 'nextinbox', i, 4000)
        e = e or self.same(self.d.ask('newinbox', i), 'ok')
        c.inbox = self.d.ask('inbox', i)[1:-1]
        if not e and (c.inbox in self.inboxes or not c.inbox or c.inbox in SUBJECTS):
            e = 'inbox %s is not new' % c.inbox
        self.inboxes.add(c.inbox)
        return e or self.known()
    def do_many(self, c, i, n):
        """Inboxes do not repeat."""
        e = ''
        for _ in range(n):
            e = e or self.do_newinbox(c, i)
        return e if c.conn is not None else None
    def do_pub(self, c, i, subject, size, reply, seed):
        if c.conn is None:
            return None
        if isinstance(subject, int):               # the inbox of that client
            t = self.c.get(subject)
            if t is None or not t.inbox:
                return None
            subject = t.inbox
        if reply == 'inbox' and not c.inbox:
            return None
        b = random.Random(seed).randbytes(size)
        n = len(self.srv.log)
        routed = []
        self.srv.hook = True
        e = self.same(self.d.ask('pub', i, subject, b.hex(), reply), 'ok')
        self.srv.wait(lambda: len(self.srv.log) > n)
        want = (c.conn, subject, {'-': '', 'inbox': c.inbox}.get(reply, reply), b)
        got = self.srv.log[n:]
        if e or got != [want]:
            return e or 'the server received %s, expected %s' % (str(got)[:300], str(want)[:300])
        return self.deliver(*want[1:])
    def take(self, q, verb, i, ms):
        if not q:
            return self.same(self.d.ask(verb, i, 20), 'none')
        b, reply = q.popleft()
        return self.same(self.d.ask(verb, i, ms), '%s %s' % (b.hex(), reply or '-'))
    def do_next(self, c, i, ms):
        return self.take(c.msgs, 'next', i, ms) if c.conn is not None and c.subject or c.msgs else None
    def do_nextinbox(self, c, i, ms):
        return self.take(c.replies, 'nextinbox', i, ms)
    def do_late(self, c, i, ms, inbox, size, seed):
        """The message comes after the wait for it has begun."""
        subject, q = (c.inbox, c.replies) if inbox else (c.subject, c.msgs)
        if not subject or q or not inbox and c.group:
            return None
        b = random.Random(seed).randbytes(size)
        self.d.start('nextinbox' if inbox else 'next', i, ms)
        time.sleep(.01)
        self.deliver(subject, 'r.late', b)
        q.pop()
        return self.same(self.d.wait(), b.hex() + ' r.late')

SUBJECTS = ['a', 'a.b', 'vrt.cmd', 'X']

def rand_history(rng, n):
    out = [['new', 0], ['make', 1], ['connect', 1]]
    i = lambda: rng.randrange(3)
    size = lambda: rng.choice([1, 2, 20, 100, 255, 256, 3000, rng.randrange(1, 3000), rng.choice([1, 32768, 70000, 262140])])
    ms = lambda: rng.choice([4000, 4000, 4000, -1])
    for _ in range(n):
        v = rng.choice(['make', 'new', 'new', 'drop', 'connect', 'connect', 'state', 'state', 'sub', 'sub', 'qsub', 'qsub', 'sub0', 'newinbox', 'newinbox', 'late', 'late'] + ['pub'] * 8 + ['next', 'nextinbox'] * 5 + ['inject'] * 4)
        sync = rng.choice([-1, -1, 0, 0, 1]) if rng.random() < .6 else 0
        out.append({'sub': lambda: [v, i(), rng.choice(SUBJECTS), sync], 'qsub': lambda: [v, i(), rng.choice(SUBJECTS[:2]), rng.choice(['g', 'h']), sync],
                    'pub': lambda: [v, i(), rng.choice(SUBJECTS + [0, 1, 2, 0, 1]), size(), rng.choice(['-', '-', 'inbox', 'r.1']), rng.getrandbits(32)],
                    'inject': lambda: [v, 0, rng.choice(SUBJECTS), rng.choice(['', '', 'r.x', 'INBOX_zz']), size(), rng.getrandbits(32)],
                    'next': lambda: [v, i(), ms()], 'nextinbox': lambda: [v, i(), ms()], 'late': lambda: [v, i(), ms(), rng.random() < .5, size(), rng.getrandbits(32)]}.get(v, lambda: [v, i()])())
    if rng.random() < .2:
        out.insert(rng.randrange(1, len(out)), ['many', i(), 40])
    for k in range(3):
        out += [['next', k, 4000], ['nextinbox', k, 4000], ['next', k, 4000], ['state', k]]
    return out

def history(exe, steps, stats=None):
    srv = natsd.Natsd()
    d = Driver(exe)
    at = -1
    try:
        m = Clients(d, srv)
        for at, x in enumerate(steps):
            e = m.step(x)
            if e:
                d.kill()
                return at, '%s: %s' % (' '.join(str(y) for y in x[:4]), e)
            if stats is not None and e is not None:
                stats[x[0]] = stats.get(x[0], 0) + 1
        d.end()
        d.err.close()
        return ''
    except net.Died as e:
        d.kill()
        return at, str(e)
    finally:
        srv.close()

def rand_nats_session(rng, s, n):
    out, m = [], net_checks.Model(s)
    for x in net_checks.rand_session(rng, s, n):
        if x[0] == 'send' and rng.random() < .25:
            b = rng.choice([lambda: net_checks.foreign(rng, s), lambda: rng.randbytes(rng.choice([1, 3, 4, 8, 40, 300])), lambda: s.controls[x[1]].pk.encode(s.controls[x[1]].pk.initial())[:-1]])()
            out.append(['junk', b.hex(), rng.choice(['', 'r.y'])])
        elif x[0] == 'send' and rng.random() < .2:
            st = net_checks.rand_command(rng, s, m, x[1])
            # answers that were set in this session may not fit another command: only what the model can tell is judged
            if st:
                out.append(['other', x[1], pkmodel.to_json(st), rng.choice(['', 'r.%d' % rng.getrandbits(48)])])
        out.append(x)
    return out

def p45():
    c = Check('P45', 'a history of clients in which at least 10 steps applied and a message was received, or a command over NATS that was answered or buried in other replies',
              assumptions=[NATS_NOTE, net_checks.NET_NOTE, pk_checks.MODEL_NOTE])
    src = open(os.path.join(VERIF, 'cxx', 'natsc.cpp')).read()
    try:
        exe = common.build('natsc', src, flags=['-O1'] + SAN, link_flags=['-lnats'])
    except common.BuildError as e:
        c.violation('the NATS client cannot be used: ' + pkdrv.compile_excerpt(e.out), dict(source='cxx/natsc.cpp', how='g++ -std=c++20 -I/repo/include -lnats'))
        return c.finish()
    # half of the histories run under ThreadSanitizer, where it works
    exes = [exe]
    try:
        tsan = common.build('natsc_tsan', src, flags=['-O1', '-fsanitize=thread'], link_flags=['-lnats'])
        if history(tsan, [['new', 0], ['newinbox', 0]]) == '':
            exes.append(tsan)
    except common.BuildError:
        pass
    c.extra['data races are detected'] = len(exes) == 2
    for ss in net_checks.systems(c, 6, ['nats']):
        jobs = [('clients', exes[i % len(exes)], rand_history(c.rng, c.rng.choice([20, 60, 100]))) for i in range(70)]
        for s in ss:
            if s.controls:
                jobs += [('session', s, rand_nats_session(c.rng, s, 20)) for _ in range(2)]
            if any(x.slots for x in s.controls):
                jobs += [('deceit', s, net_checks.rand_commands(c.rng, s, 20)) for _ in range(2)]
        def go(j):
            kind, s, h = j
            if kind == 'clients':
                st = {}
                return history(s, h, st), st
            st = []
            return (net_checks.sessions if kind == 'session' else net_checks.deceit_session)(s, h, st), st
        for (kind, s, h), (out, err) in zip(jobs, common.pmap(go, jobs)):
            if err:
                raise err
            f, st = out
            if kind == 'clients':
                c.case(h if sum(st.values()) >= 10 and st.get('next', 0) + st.get('nextinbox', 0) else None)
                for k, n in st.items():
                    c.extra['step ' + k] = c.extra.get('step ' + k, 0) + n
            elif kind == 'session':
                for x in st:
                    c.case((s.yaml(), x) if x[1] else None)
                c.extra['commands answered'] = c.extra.get('commands answered', 0) + sum(1 for x in st if x[1])
            else:
                for x in st:
                    c.case((s.yaml(), x) if x[1] or x[2] else None)
                c.extra['commands among other replies'] = c.extra.get('commands among other replies', 0) + len(st)
            c.sample('%s | %s' % (kind, str(h)[:400]))
            if f and len(c.violations) < 3:
                fn = (lambda e, x: history(e, list(x))) if kind == 'clients' else net_checks.sessions if kind == 'session' else net_checks.deceit_session
                r_ = net_checks.shrink_session(c, fn, s, h, *f)
                if not r_:
                    continue
                steps, why = r_
                c.violation('%s (%s)\n%s\nsteps: %s' % (why, kind, s.yaml() if kind != 'clients' else os.path.basename(s), str(steps)[:1500]),
                            dict(kind=kind, **(dict(system=s.s, yaml=s.yaml()) if kind != 'clients' else dict(exe=os.path.basename(s))), steps=steps, why=why,
                                 how='vt/nats_checks.py: history(exe, steps) with exe from cxx/natsc.cpp (natsc_tsan: with -fsanitize=thread), or vt/net_checks.py: sessions / deceit_session(net.System(system), steps)'))
    return c.finish()
