"""Checks over the socket library: endpoints, UDP and TCP sockets of both address families on the loopback interface."""
import collections, os, queue, random, socket, struct, subprocess, threading, time
from . import common, net, pkdrv, pk_checks
from .common import Check, thorough, ddmin, SAN, RUN_ENV, VERIF

FAM = {'u4': (socket.AF_INET, socket.SOCK_DGRAM), 'u6': (socket.AF_INET6, socket.SOCK_DGRAM),
       't4': (socket.AF_INET, socket.SOCK_STREAM), 't6': (socket.AF_INET6, socket.SOCK_STREAM)}

def loopback6():
    try:
        s = socket.socket(socket.AF_INET6, socket.SOCK_DGRAM)
        s.bind(('::1', 0))
        s.close()
        return True
    except OSError:
        return False

class Driver:
    def __init__(self, exe):
        self.err = open(exe + '.err%d' % id(self), 'w+')
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, errors='replace', env=RUN_ENV)
        self.q = queue.Queue()
        threading.Thread(target=self._reader, daemon=True).start()
    def _reader(self):
        for l in self.p.stdout:
            if l.startswith('='):
                self.q.put(l[1:].rstrip('\n'))
        self.q.put(None)
    def start(self, *words):
        self.words = ' '.join(str(w) for w in words)
        try:
            self.p.stdin.write(self.words + '\n')
            self.p.stdin.flush()
        except (BrokenPipeError, ValueError):
            pass
    def wait(self, timeout=15):
        try:
            a = self.q.get(timeout=timeout)
        except queue.Empty:
            self.p.kill()
            raise net.Died('%s does not return' % self.words[:80])
        if a is None:
            self.p.wait()
            self.err.flush(); self.err.seek(0)
            raise net.Died('%s ends the program (exit %s): %s' % (self.words[:80], self.p.returncode, pk_checks.sanitizer(self.err.read())))
        return a
    def ask(self, *words):
        self.start(*words)
        return self.wait()
    def end(self):
        self.p.stdin.close()
        try:
            rc = self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.p.kill()
            raise net.Died('the program does not end')
        if rc:
            self.err.flush(); self.err.seek(0)
            raise net.Died('exit status %s at the end: %s' % (rc, pk_checks.sanitizer(self.err.read())))
    def kill(self):
        self.p.kill()
        self.p.wait()
        self.err.close()

def sockaddr(fam, addr, port):
    if fam == socket.AF_INET:
        return struct.pack('=H', fam) + struct.pack('!H', port) + addr + bytes(8)
    return struct.pack('=H', fam) + struct.pack('!HI', port, 0) + addr + bytes(4)

class End:
    """An endpoint."""
    def __init__(self, fam, addr=None, port=0):
        self.fam, self.addr, self.port = fam, addr or bytes(4 if fam == socket.AF_INET else 16), port
    def show(self):
        raw = sockaddr(self.fam, self.addr, self.port)
        return '%s:%d %d %s %s %d' % (socket.inet_ntop(self.fam, self.addr), self.port, self.port, self.addr.hex(), raw.hex(), len(raw))
    def copy(self):
        return End(self.fam, self.addr, self.port)
    def parse(self, text):
        """the address, None if it is not one"""
        if not text:
            return bytes(4 if self.fam == socket.AF_INET else 16)
        try:
            return socket.inet_pton(self.fam, text)
        except OSError:
            return None

class Sock:
    def __init__(self, fam):
        self.open, self.bound, self.peer, self.state = True, None, None, 'new'
        self.src, self.dst = End(fam), End(fam)
        self.timeout = '3.0'
        self.pending = collections.deque()      # UDP: (bytes, endpoint of the sender)
        self.inbox = b''                        # TCP: bytes to be read
        self.eof = self.reset = self.lost = False   # the peer sends no more, may have reset, is gone
        self.waiting, self.acc = [], None       # TCP: clients not yet accepted, the client accepted last
        self.filter = None
        self.sent = True

class Ports:
    """Model of one family's pool; every step is skipped where it makes no sense."""
    def __init__(self, d, f, base):
        self.d, self.f, self.base = d, f, base
        self.fam, self.type = FAM[f]
        self.lo = socket.inet_pton(self.fam, '127.0.0.1' if self.fam == socket.AF_INET else '::1')
        self.e = {}
        self.s = {}
    def ask(self, *w):
        return self.d.ask(self.f, *w)
    def name(self, i):
        r = self.ask('name', i)
        if r == 'none':
            raise net.Died('socket %d has no address: its descriptor is not a socket' % i)
        return bytes.fromhex(r)
    def count(self):
        return sum(s.open + (s.acc is not None) for s in self.s.values())
    def step(self, x):
        """'' or what is wrong; None if the step did not apply"""
        v, a = x[0], x[1:]
        if v in ('e0', 'e1', 'e2', 'addr', 'eport', 'copy', 'show'):
            return self.endpoint(v, *a)
        if v == 'make':
            self.gone(a[0])
            self.s[a[0]] = Sock(self.fam)
            return self.same(self.ask('make', a[0]), 'ok')
        s = self.s.get(a[0])
        if s is None:
            return None
        return getattr(self, 'do_' + v)(s, *a)
    @staticmethod
    def same(got, want):
        return '' if got == want else 'is %s, expected %s' % (got[:300], want[:300])
    # ------------------------------------------------------------------ endpoints
    def endpoint(self, v, i, *a):
        if v in ('addr', 'eport', 'show') and i not in self.e or v == 'copy' and a[0] not in self.e:
            return None
        if v == 'e0':
            self.e[i] = End(self.fam)
            return self.same(self.ask('e0', i), 'ok')
        if v == 'e1':
            self.e[i] = End(self.fam, port=a[0])
            return self.same(self.ask('e1', i, a[0]), 'ok')
        if v == 'e2':
            b = End(self.fam).parse(a[1])
            r = self.ask('e2', i, a[0], a[1].encode().hex())
            if b is not None:
                self.e[i] = End(self.fam, b, a[0])
            return self.same(r, 'EXC' if b is None else 'ok')
        if v == 'addr':
            self.e[i].addr = self.e[i].parse(a[0]) or End(self.fam).addr
            return self.same(self.ask('addr', i, a[0].encode().hex()), 'ok')
        if v == 'eport':
            self.e[i].port = a[0]
            return self.same(self.ask('eport', i, a[0]), 'ok')
        if v == 'copy':
            self.e[i] = self.e[a[0]].copy()
            return self.same(self.ask('copy', i, a[0]), 'ok')
        return self.same(self.ask('show', i), self.e[i].show())
    def aim(self, i, addr, port):
        self.e[i] = End(self.fam, addr, port)
        return self.ask('raw', i, sockaddr(self.fam, addr, port).hex())
    # ------------------------------------------------------------------ life
    def gone(self, i):
        s = self.s.pop(i, None)
        if s:
            self.part(s)
            s.open = False
    def part(self, s):
        """The connections of s end."""
        for t in [s.peer, s.acc] + s.waiting:
            if t:
                t.reset |= bool(s.inbox) or t in s.waiting
                t.eof = t.lost = True
                t.peer = None
        s.peer, s.acc, s.waiting = None, None, []
    def do_drop(self, s, i):
        self.gone(i)
        return self.same(self.ask('drop', i), 'ok')
    def do_close(self, s, i):
        self.part(s)
        s.open = False
        s.pending.clear(); s.inbox = b''
        return self.same(self.ask('close', i), 'ok')
    def do_open(self, s, i):
        return self.same(self.ask('open', i), '1' if s.open else '0') or (self.same(self.ask('handle', i), '1') if s.open else '')
    def do_dup(self, s, i):
        return self.same(self.ask('dup', i), 'ok')
    def do_move(self, s, i, j):
        if i == j or j in self.s:
            return None
        if self.ask('move', i, j) == 'moved':
            self.s[j] = self.s.pop(i)
        return ''
    def do_fds(self, s, i):
        n = int(self.ask('fds', i)) - self.base
        return '' if n == self.count() else '%d descriptors are open, the sockets have %d' % (n, self.count())
    # ------------------------------------------------------------------ settings
    def do_src(self, s, i, j):
        if j not in self.e:
            return None
        s.src = self.e[j].copy()
        return self.same(self.ask('src', i, j), 'ok')
    def do_dst(self, s, i, j):
        if j not in self.e:
            return None
        s.dst = self.e[j].copy()
        return self.same(self.ask('dst', i, j), 'ok')
    def do_ends(self, s, i):
        return self.same(self.ask('src?', i), s.src.show()) or self.same(self.ask('dst?', i), s.dst.show())
    def do_timeout(self, s, i, n):
        if not s.open:
            return None
        s.timeout = '%d.0' % n
        return self.same(self.ask('timeout', i, n), 'ok')
    def do_timeout_(self, s, i):
        return self.same(self.ask('timeout?', i), s.timeout) if s.open else None
    # ------------------------------------------------------------------ binding
    def do_bind(self, s, i, how, k=0):
        """to a port the system chooses, to one that is taken, or to an address of another machine"""
        if s.state not in ('new', 'listening'):           # a connection that was reset is not bound any more
            return None
        if how == 'any':
            addr, port = (bytes(4), 0) if self.fam == socket.AF_INET else (self.lo, 0)
        elif how == 'own':
            addr, port = self.lo, 0
        elif how == 'taken':
            t = self.s.get(k)
            if t is None or not t.bound or not t.open or t.state not in ('new', 'listening'):
                return None
            addr, port = t.bound
        else:
            addr, port = socket.inet_pton(self.fam, '192.0.2.77' if self.fam == socket.AF_INET else '2001:db8::77'), 0
        self.aim(4, addr, port)
        good = s.open and not s.bound and how in ('any', 'own')
        e = self.same(self.ask('bind', i, 4), '1' if good else '0')
        if e or not good:
            return e
        s.src = self.e[4].copy()
        raw = self.name(i)
        s.bound = (addr, int.from_bytes(raw[2:4], 'big'))
        return '' if raw == sockaddr(self.fam, *s.bound) and s.bound[1] else 'bound to %s' % raw.hex()
    # ------------------------------------------------------------------ datagrams
    def do_send(self, s, i, k, n, seed):
        t = self.s.get(k)
        if t is None or not t.bound or not t.open or not s.open or sum(len(b) for b, _ in t.pending) + n > 70000 or len(t.pending) > 15 or not s.sent:
            return None
        b = random.Random(seed).randbytes(n)
        self.aim(3, self.lo, t.bound[1])
        r = self.ask('send', i, 3, b.hex() or '-')
        raw = self.name(i)
        if not s.bound:
            s.bound = (raw[4:8] if self.fam == socket.AF_INET else raw[8:24], int.from_bytes(raw[2:4], 'big'))
        if t.filter is None or t.filter == (self.lo, s.bound[1]):
            t.pending.append((b, (self.lo, s.bound[1])))
        return self.same(r, str(n))
    def do_recv(self, s, i, more):
        if not s.pending or not s.open:
            return None
        b, frm = s.pending.popleft()
        n = max(1, len(b) + more)
        got = b[:n]
        e = self.same(self.ask('recv', i, 2, n), '%d:%s' % (len(got), got.hex()))
        self.e[2] = End(self.fam, *frm)
        return e or self.same(self.ask('show', 2), self.e[2].show())
    def do_silence(self, s, i):
        """Nothing arrives: reception fails when the time set is over."""
        if s.pending or not s.open or s.timeout == '0.0' or self.type != socket.SOCK_DGRAM or not s.bound:
            return None
        self.do_timeout(s, i, 1)
        t = time.time()
        e = self.same(self.ask('recv', i, 2, 100), '-1:')
        t = time.time() - t
        self.e.pop(2, None)
        return e or ('' if .8 < t < 8 else 'a timeout of 1 s took %.1f s' % t)
    # ------------------------------------------------------------------ connections
    def do_listen(self, s, i):
        if s.state != 'new' or not s.bound or self.type != socket.SOCK_STREAM or not s.open:
            return None
        s.state = 'listening'
        return self.same(self.ask('listen', i), '1')
    def do_connect(self, s, i, k):
        t = self.s.get(k)
        if t is None or t is s or not t.bound or not t.open or not s.open:
            return None
        if self.type == socket.SOCK_DGRAM:
            if s.filter is not None:
                return None
            self.aim(3, self.lo, t.bound[1])
            s.dst = self.e[3].copy()
            s.filter, s.sent = (self.lo, t.bound[1]), False
            e = self.same(self.ask('connect', i, 3), '1')
            raw = self.name(i)
            s.bound = (raw[4:8] if self.fam == socket.AF_INET else raw[8:24], int.from_bytes(raw[2:4], 'big'))
            return e or self.same(self.ask('peer', i), sockaddr(self.fam, *s.filter).hex())
        if s.state != 'new':
            return None
        self.aim(3, self.lo, t.bound[1])
        good = t.state == 'listening'
        e = self.same(self.ask('connect', i, 3), '1' if good else '0')
        if not good:
            s.state = 'refused'
            return e
        s.dst = self.e[3].copy()
        s.state = 'connected'
        t.waiting.append(s)
        raw = self.name(i)
        s.bound = (raw[4:8] if self.fam == socket.AF_INET else raw[8:24], int.from_bytes(raw[2:4], 'big'))
        return e or self.same(self.ask('peer', i), sockaddr(self.fam, self.lo, t.bound[1]).hex())
    def do_accept(self, s, i):
        while s.waiting and not s.waiting[0].open:
            return None
        if not s.waiting or not s.open:
            return None
        t = s.waiting.pop(0)
        old = s.acc
        if old:
            old.reset |= bool(s.inbox)
            old.eof, old.lost, old.peer = True, True, None
        s.acc, s.inbox, s.eof, s.reset, s.lost = t, b'', False, False, False
        t.peer = s
        s.dst = End(self.fam, self.lo, t.bound[1])
        return self.same(self.ask('accept', i), '1')
    def do_write(self, s, i, n, seed):
        t = s.acc or s.peer
        b = random.Random(seed).randbytes(n)
        if s.open and s.lost:                # to a peer that has gone: no matter how it ends, the program survives
            self.ask('write', i, b.hex())
            s.reset = True
            return '' if self.ask('open', i) == '1' else 'closed by writing'
        if not s.open or t is None or s.sent == 'fin' or len(t.inbox) + n > 60000:
            return None
        t.inbox += b
        return self.same(self.ask('write', i, b.hex()), str(n))
    def do_read(self, s, i, n):
        if not s.open or s.acc is None and s.state != 'connected':
            return None
        if not s.eof:
            n = min(n, len(s.inbox))
        if not n:
            return None
        r = self.ask('read', i, n)
        if s.reset:
            got, _, why = r.partition('/')
            ok = s.inbox.hex().startswith(got)
            s.inbox = s.inbox[len(got) // 2:]
            return '' if ok else 'is %s' % r[:300]
        want, s.inbox = s.inbox[:n], s.inbox[n:]
        return self.same(r, want.hex() + ('/0' if len(want) < n else ''))
    def do_shutdown(self, s, i):
        if s.state != 'connected' or s.peer is None or not s.open or s.sent == 'fin':
            return None
        s.sent = 'fin'
        s.peer.eof = True
        return self.same(self.ask('shutdown', i), 'ok')

# ------------------------------------------------------------------ histories
def octet(rng):
    return rng.choice([0, 1, 9, 10, 99, 100, 127, 199, 249, 255, rng.randrange(256)])

def rand_addr(rng, fam):
    r = rng.random()
    if fam == socket.AF_INET:
        if r < .65:
            return '.'.join(str(octet(rng)) for _ in range(4))
        if r < .75:
            return rng.choice(['', '0.0.0.0', '255.255.255.255', '127.0.0.1'])
        return rng.choice(['256.1.1.1', '1.2.3', '1.2.3.4.5', ' 1.2.3.4', '1.2.3.4 ', '01.2.3.4', '0x7f.0.0.1', 'localhost', '1,2,3,4', '::1', '1.2.3.', '-1.2.3.4', '1.2.3.4:80', '1' * 60])
    if r < .6:
        b = bytes(rng.choice([0, 0, 0, rng.randrange(256)]) for _ in range(16))
        return rng.choice([socket.inet_ntop(fam, b), ':'.join('%02x%02x' % (b[i], b[i + 1]) for i in range(0, 16, 2)), socket.inet_ntop(fam, b).upper()])
    if r < .75:
        return rng.choice(['', '::', '::1', '::ffff:1.2.3.4', 'fe80::1', 'ff02::1:ff00:1234', '2001:db8:ffff:ffff:ffff:ffff:ffff:ffff', '::ffff:255.255.255.255'])
    return rng.choice(['1.2.3.4', ':::', '1:2:3:4:5:6:7', '1:2:3:4:5:6:7:8:9', '12345::', 'g::1', '::1%lo', '[::1]', '::1 ', '1::2::3', '::ffff:1.2.3.256', 'x' * 80])

def rand_history(rng, fam, v6, n):
    """Steps over at most four sockets and four endpoints (4 and the ones the model aims are its own)."""
    stream = fam[0] == 't'
    live = fam[1] == '4' or v6
    out = []
    i = lambda: rng.randrange(4)
    e = lambda: rng.randrange(2)
    size = lambda: rng.choice([0, 1, 4, 100, 1500, 9000, rng.randrange(3000), rng.choice([65507, 65000, 30000])]) if not stream else rng.choice([1, 1, 4, 100, 1500, rng.randrange(1, 20000)])
    ends = ['e0', 'e1', 'e2', 'e2', 'e2', 'addr', 'addr', 'eport', 'copy', 'show', 'show', 'show']
    socks = ['make', 'make', 'drop', 'close', 'open', 'dup', 'move', 'fds', 'fds', 'src', 'dst', 'ends', 'ends', 'timeout', 'timeout_', 'bind', 'bind', 'bind', 'connect']
    socks += (['listen', 'listen', 'connect', 'connect', 'accept', 'accept', 'accept', 'shutdown'] + ['write', 'read'] * 9) if stream else ['send'] * 9 + ['recv'] * 9
    if live:
        for k in range(2):
            out += [['make', k], ['bind', k, 'own', 0]]
        if stream and rng.random() < .8:
            out += [['listen', 0], ['make', 2], ['connect', 2, 0], ['accept', 0]]
    port = lambda: rng.choice([0, 1, 80, 255, 256, 0x1234, 0x3412, 32767, 32768, 65535, rng.randrange(65536)])
    for _ in range(n):
        v = rng.choice(ends if not live or rng.random() < .3 else socks)
        out.append({'e0': lambda: [v, e()], 'e1': lambda: [v, e(), port()], 'e2': lambda: [v, e(), port(), rand_addr(rng, FAM[fam][0])],
                    'addr': lambda: [v, e(), rand_addr(rng, FAM[fam][0])], 'eport': lambda: [v, e(), port()], 'copy': lambda: [v, e(), e()], 'show': lambda: [v, e()],
                    'move': lambda: [v, i(), i()], 'src': lambda: [v, i(), e()], 'dst': lambda: [v, i(), e()], 'timeout': lambda: [v, i(), rng.choice([1, 2, 5, 60, 3600])],
                    'bind': lambda: [v, i(), rng.choice(['own', 'own', 'any', 'taken', 'taken', 'foreign']), i()], 'connect': lambda: [v, i(), rng.choice([0, 0, i()])],
                    'accept': lambda: [v, rng.choice([0, 0, i()])], 'listen': lambda: [v, rng.choice([0, 1])],
                    'send': lambda: [v, i(), i(), size(), rng.getrandbits(32)], 'recv': lambda: [v, i(), rng.choice([0, 0, 5, -1, -7, -rng.randrange(3000)])],
                    'write': lambda: [v, i(), size(), rng.getrandbits(32)], 'read': lambda: [v, i(), size()]}.get(v, lambda: [v, i()])())
    if not stream and live and rng.random() < .12:
        out.append(['silence', 0])
    for k in range(4):
        out += [['fds', k], ['ends', k]] if live else [['show', k % 2]]
    return out

def history(exe, fam, steps, stats=None):
    d = Driver(exe)
    at = -1
    try:
        m = Ports(d, fam, int(d.ask(fam, 'fds', 0)))
        for at, x in enumerate(steps):
            e = m.step(x)
            if e:
                d.kill()
                return at, '%s: %s' % (' '.join(str(y) for y in x[:3]), e)
            if stats is not None and e is not None:
                stats[x[0]] = stats.get(x[0], 0) + 1
        d.end()
        d.err.close()
        return ''
    except net.Died as e:
        d.kill()
        return at, str(e)

def p44():
    c = Check('P44', 'a history in which at least 10 steps applied, among them an endpoint that was shown or data that was received',
              assumptions=['loopback interface of this machine; Linux'] + ([] if loopback6() else ['no IPv6 loopback here: only IPv6 endpoints were checked, no IPv6 sockets']))
    v6 = loopback6()
    src, fams = open(os.path.join(VERIF, 'cxx', 'sockets.cpp')).read(), (('u4', 200), ('t4', 300), ('u6', 120), ('t6', 160))
    try:
        exe = common.build('sockets', src, flags=['-O1'] + SAN)
    except common.BuildError as e:
        c.violation('sockets and endpoints cannot be used together: ' + pkdrv.compile_excerpt(e.out), dict(source='cxx/sockets.cpp', how='g++ -std=c++20 -I/repo/include'))
        try:
            exe, fams = common.build('sockets', src, flags=['-O1', '-DONLY4'] + SAN), fams[:2]
        except common.BuildError:
            return c.finish()
    until = c.t0 + 480 if thorough() else None
    while True:
        jobs = []
        for fam, n in fams:
            jobs += [(fam, rand_history(c.rng, fam, v6, c.rng.choice([10, 40, 90]))) for _ in range(n)]
        def go(j):
            st = {}
            return history(exe, *j, st), st
        for (fam, h), (out, err) in zip(jobs, common.pmap(go, jobs)):
            if err:
                raise err
            f, st = out
            c.case((fam, h) if sum(st.values()) >= 10 and (st.get('show') or st.get('recv') or st.get('read')) else None)
            for k, n in st.items():
                c.extra['step ' + k] = c.extra.get('step ' + k, 0) + n
            if f and len(c.violations) < 3:
                steps, why = h, f[1]
                fails = lambda x: bool(history(exe, fam, list(x)))
                if fails(h[:f[0] + 1]):
                    steps = ddmin(h[:f[0] + 1], fails)
                    e = history(exe, fam, list(steps))
                    why = e[1] if e else why
                c.violation('%s: %s\nsteps: %s' % (fam, why, str(steps)[:1500]), dict(family=fam, steps=steps, why=why, how='vt/sock_checks.py: history(exe, family, steps), exe built from cxx/sockets.cpp'))
        c.sample('%s: %s' % (jobs[0][0], str(jobs[0][1])[:500]))
        c.sample('%s: %s' % (jobs[200][0], str(jobs[200][1])[:500]))
        if c.violations or until is None or time.time() > until:
            return c.finish()
