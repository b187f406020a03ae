"""A NATS server of the few commands that clients need: exact subjects, queue groups, request replies."""
import json, queue, socket, threading, time

class Natsd:
    def __init__(self):
        self.srv = socket.socket()
        self.srv.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.srv.bind(('127.0.0.1', 0))
        self.srv.listen(16)
        self.port = self.srv.getsockname()[1]
        self.lock = threading.RLock()
        self.subs = []                   # (connection, subject, queue, sid)
        self.conns = []
        self.turn = {}
        self.log = []                    # (connection number, subject, reply, payload) of every publication
        self.cv = threading.Condition(self.lock)
        self.hook = None                 # called instead of routing
        self.closed = False
        threading.Thread(target=self._accept, daemon=True).start()
    def _accept(self):
        n = 0
        while True:
            try:
                c, _ = self.srv.accept()
            except OSError:
                return
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            with self.lock:
                self.conns.append(c)
            threading.Thread(target=self._serve, args=(c, n), daemon=True).start()
            n += 1
    def _serve(self, c, n):
        info = dict(server_id='VT', server_name='vt', version='2.9.0', proto=1, go='go1.19', host='127.0.0.1', port=self.port, headers=False, max_payload=1048576, client_id=n + 1)
        try:
            c.sendall(b'INFO ' + json.dumps(info).encode() + b'\r\n')
            f = c.makefile('rb')
            while True:
                l = f.readline()
                if not l:
                    break
                w = l.decode().split()
                if not w:
                    continue
                v = w[0].upper()
                if v == 'PING':
                    with self.lock:
                        c.sendall(b'PONG\r\n')
                elif v == 'SUB':
                    with self.cv:
                        self.subs.append((c, w[1], w[2] if len(w) == 4 else '', w[-1]))
                        self.cv.notify_all()
                elif v == 'UNSUB':
                    with self.cv:
                        if len(w) == 2:
                            self.subs = [s for s in self.subs if not (s[0] is c and s[3] == w[1])]
                        self.cv.notify_all()
                elif v == 'PUB':
                    size = int(w[-1])
                    b = f.read(size + 2)[:size]
                    with self.cv:
                        self.log.append((n, w[1], w[2] if len(w) == 4 else '', b))
                        if self.hook is None:
                            self.route(w[1], w[2] if len(w) == 4 else '', b)
                        self.cv.notify_all()
        except (OSError, ValueError):
            pass
        with self.cv:
            self.subs = [s for s in self.subs if s[0] is not c]
            self.cv.notify_all()
    def route(self, subject, reply, b):
        with self.lock:
            to, groups = [], {}
            for s in self.subs:
                if s[1] == subject:
                    if s[2]:
                        groups.setdefault(s[2], []).append(s)
                    else:
                        to.append(s)
            for g, m in sorted(groups.items()):
                i = self.turn[subject, g] = self.turn.get((subject, g), -1) + 1
                to.append(m[i % len(m)])
            for c, _, _, sid in to:
                try:
                    c.sendall(('MSG %s %s %s%d\r\n' % (subject, sid, reply + ' ' if reply else '', len(b))).encode() + b + b'\r\n')
                except OSError:
                    pass
            return to
    def wait(self, cond, timeout=6):
        """Until cond() holds."""
        end = time.time() + timeout
        with self.cv:
            while not cond():
                if time.time() > end:
                    return False
                self.cv.wait(max(0.001, end - time.time()))
            return True
    def subscribed(self, subject):
        return [s for s in self.subs if s[1] == subject]
    def close(self):
        self.srv.close()
        with self.lock:
            for c in self.conns:
                try:
                    c.shutdown(socket.SHUT_RDWR)
                except OSError:
                    pass
                c.close()
