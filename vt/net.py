"""Systems: an information class, the Controller and Controllee generated from it, and a driver process
that holds both (cxx/netdrv.hpp).  Everything runs over the loopback interface of this machine."""
import copy, os, queue, shutil, subprocess, tempfile, threading
from . import common, pkgen, pkdrv, pkmodel, pk_checks
from .common import CXX, STD, INC, SAN, VERIF, RUN_ENV, run, pmap, BuildError
from .pkmodel import Pk, Ack

REQS = (('req_v', 'V'), ('req_x', 'X'), ('req_s', 'S'))

# ------------------------------------------------------------------------------ definitions
def size(rng):
    return rng.choice([{0: 2, 1: 0, 2: 0}, {0: 3, 1: 2, 2: 0}, {0: 1, 1: 1, 2: 1}, {0: 4, 1: 1, 2: 2}, {0: 0, 1: 2, 2: 1}, {0: 0, 1: 0, 2: 0}, {0: 5, 1: 3, 2: 0}])

def tidy(rng, d, code, ic):
    """Identification: every packet of a system has a class ID of its own."""
    d.setdefault('cls', {})
    d['cls']['pc'] = code
    d['cls'].setdefault('oui', 'FF-FE-FD')
    d['cls']['ic'] = ic
    return d

def gen_system(rng, transport, ncontrol=None, nother=None):
    s = dict(transport=transport, code=rng.choice([1, 0x55, 0xABCD, 0xFFFF]), controls=[], others=[])
    cer = rng.choice([None, 'word', 'uuid', 'word'])
    codes = rng.sample(range(1, 0x10000), 12)
    for i in range(rng.choice([1, 1, 2, 3]) if ncontrol is None else ncontrol):
        kind = rng.choice(['control', 'control', 'control', 'extcontrol'])
        d = pkgen.gen_def(rng, rng.choice(['Tune%d', 'Cmd%d', 'SetUp%d', 'A%d']) % i, kind, n=size(rng),
                          action=rng.choice(['execute', 'dry-run', 'execute', 'none']))
        cam = d['cam']
        am = cam.pop('action_mode')
        if am != 'none':
            asked = rng.choice([('req_v',), ('req_x',), ('req_s',), ('req_x', 'req_s'), ('req_v', 'req_x'), ('req_v', 'req_x', 'req_s'), ('req_v', 'req_s')])
            for k in ('req_v', 'req_x', 'req_s'):
                cam.pop(k, None)
                if k in asked:
                    cam[k] = rng.choice([True, 'required', 'optional', 'optional'])
            for k in ('req_w', 'req_er'):
                if 'req_v' in asked or 'req_x' in asked:
                    cam[k] = rng.choice([True, 'required', False])
                else:
                    cam.pop(k, None)
        cam['action_mode'] = am
        d.pop('cer', None)
        if cer:
            d['cer'] = cer
        if rng.random() < .4 and any(pkgen.FIELDS[f['name']].cif == 0 for f in d['fields']) and not any(f['name'] == 'gps_ascii' for f in d['fields']):
            d['fields'].append(dict(name='gps_ascii', mode='optional'))       # what long commands and answers are made of
        s['controls'].append(tidy(rng, d, codes.pop(), s['code']))
    for i in range(rng.choice([0, 1, 2, 3]) if nother is None else nother):
        d = pkgen.gen_def(rng, rng.choice(['Sig%d', 'State%d', 'Beam%d']) % i, rng.choice(['data', 'context', 'data', 'extcontext']),
                          n=size(rng))
        s['others'].append(tidy(rng, d, codes.pop(), s['code']))
    return s

class Control:
    def __init__(self, d):
        self.d, self.pk = d, Pk(d)
        cam = d['cam']
        self.slots = [t for k, t in REQS if cam.get(k)]
        mk = lambda v: Ack(dict(kind='ack', name=d['name'] + 'Ack', variant=v, ext=d['kind'] == 'extcontrol', control=d))
        self.vx = mk('VX') if 'V' in self.slots or 'X' in self.slots else None
        self.s = mk('S') if 'S' in self.slots else None
    def ack(self, slot):
        return self.s if slot == 'S' else self.vx
    def asked(self, st):
        """the acknowledgements a command in this state asks for"""
        return [t for k, t in REQS if t in self.slots and (self.d['cam'][k] in (True, 'required') or st['cambits'].get(k))]
    @property
    def executes(self):
        return 'X' in self.slots or 'S' in self.slots

class System:
    def __init__(self, s):
        self.s = s
        self.controls = [Control(d) for d in s['controls']]
        self.others = [Pk(d) for d in s['others']]
        self.transport = s['transport']
        # driver objects: (packet class, role)
        self.pks, self.objs, self.idx = [], [], {}
        def cls(pk):
            self.pks.append(pk)
            return len(self.pks) - 1
        def obj(key, c):
            self.idx[key] = len(self.objs)
            self.objs.append(c)
        for k, c in enumerate(self.controls):
            c.ci = cls(c.pk)
            obj(('send', k), c.ci)
            obj(('got', k), c.ci)
            for name, pk in (('vx', c.vx), ('s', c.s)):
                setattr(c, name + 'i', cls(pk) if pk else None)
            for t in c.slots:
                a = c.si if t == 'S' else c.vxi
                obj(('answer', k, t), a)
                obj(('result', k, t), a)
            # the handler of execute returns both when the class has both
            if 'X' in c.slots and ('answer', k, 'X') not in self.idx:
                raise AssertionError
        for j, p in enumerate(self.others):
            i = cls(p)
            obj(('send', 'o%d' % j), i)
            obj(('got', 'o%d' % j), i)

    def yaml(self):
        o = []
        names = []
        for c in self.controls:
            o.append(c.pk.yaml())
            names.append(c.pk.name)
            if c.slots:
                o.append('%sAck : %s\n  responds_to : %s\n' % (c.pk.name, '!ExtensionAck' if c.pk.kind == 'extcontrol' else '!Ack', c.pk.name))
                names.append(c.pk.name + 'Ack')
        for p in self.others:
            o.append(p.yaml())
            names.append(p.name)
        o.append('Info : !InformationClass\n  code : %d\n  packet_classes :\n%s' % (self.s['code'], ''.join('    - %s\n' % n for n in names)))
        return '\n'.join(o)

    # -------------------------------------------------------------------------- driver source
    def slot(self, i):
        return 'slot_%d(pk::all()[%d].get())' % (self.objs[i], i)
    def main_source(self):
        T = lambda i: 'ns::packets::' + self.pks[i].cls_name
        nats = self.transport == 'nats'
        o = ['#include "pkdrv.hpp"', '#include "Controller.hpp"', '#include "Controllee.hpp"', '#include "netdrv.hpp"',
             'namespace pk { std::vector<std::unique_ptr<Base>>& all() { static std::vector<std::unique_ptr<Base>> v; return v; } }']
        for i in range(len(self.pks)):
            o.append('std::unique_ptr<%s>& slot_%d(pk::Base*); pk::Base* make_%d();' % (T(i), i, i))
        o.append('struct Impl : ns::controllee::Controllee { using Controllee::Controllee;')
        for k, c in enumerate(self.controls):
            sn = pkmodel.snake(c.pk.name)
            rec = lambda h: ' net::log.add("%s%d " + net::show(*pk::all()[%d], %s, p));' % (h, k, self.idx['got', k], self.slot(self.idx['got', k]))
            lock = ' std::lock_guard<std::mutex> l(net::objects);'
            ans = lambda t: '*' + self.slot(self.idx['answer', k, t])
            if 'V' in c.slots:
                o.append(' auto validate_%s(%s& p) -> %s override {%s%s return %s; }' % (sn, T(c.ci), T(c.vxi), lock, rec('V'), ans('V')))
            if 'X' in c.slots and 'S' in c.slots:
                o.append(' auto execute_%s(%s& p) -> std::tuple<%s, %s> override {%s%s return {%s, %s}; }' % (
                    sn, T(c.ci), T(c.vxi), T(c.si), lock, rec('E'), ans('X'), ans('S')))
            elif c.executes:
                t = 'X' if 'X' in c.slots else 'S'
                o.append(' auto execute_%s(%s& p) -> %s override {%s%s return %s; }' % (sn, T(c.ci), T(c.vxi if t == 'X' else c.si), lock, rec('E'), ans(t)))
        o.append('};')
        o.append('static std::unique_ptr<Impl> ee; static std::unique_ptr<ns::Controller> er;')
        o.append('static std::string net_cmd(const std::string& a, const std::string& b) {')
        o.append(' int n = b.empty() || b.find_first_not_of("0123456789") != std::string::npos ? 0 : std::stoi(b);')
        ctl = bool(self.controls)
        if nats:
            o.append(' if (a == "ee") { ee = std::make_unique<Impl>("nats://127.0.0.1:" + b, "subject.one"); return "ok"; }')
            o.append(' if (a == "er") { er = std::make_unique<ns::Controller>("nats://127.0.0.1:" + b); er->controllee_endpoint("subject.one"); return er->controllee_endpoint(); }')
            o.append(' if (a == "url") return er->nats_client().url();')
        elif ctl:
            o.append(' if (a == "ee") { ee = std::make_unique<Impl>(vrtgen::socket::%s::v4::endpoint_type{"127.0.0.1", in_port_t(n)});%s return std::to_string(net::port_of(ee->cmd_socket().native_handle())); }' % (
                self.transport, ' if (!ee->cmd_socket().listen()) return "listen failed";' if self.transport == 'tcp' else ''))
            o.append(' if (a == "er") { er = std::make_unique<ns::Controller>(vrtgen::socket::%s::v4::endpoint_type{"127.0.0.1", 0}); er->controllee_endpoint({"127.0.0.1", in_port_t(n)}); return std::to_string(net::port_of(er->cmd_socket().native_handle())); }' % self.transport)
            o.append(' if (a == "dst") return er->controllee_endpoint().to_string();')
            o.append(' if (a == "eetimeout") { ee->cmd_socket().timeout(n); return "ok"; } if (a == "ertimeout") { er->cmd_socket().timeout(n); return "ok"; }')
            if self.transport == 'tcp':
                o.append(' if (a == "accept") return ee->cmd_socket().accept() ? "ok" : "failed";')
        else:
            o.append(' if (a == "ee") { ee = std::make_unique<Impl>(); return "ok"; }')
            o.append(' if (a == "er") { er = std::make_unique<ns::Controller>(); return "ok"; }')
        if ctl:
            o.append(' if (a == "vrtlisten") { ee->vrt_listen(); return "ok"; }')
        o.append(' if (a == "-ee") { ee.reset(); return "ok"; } if (a == "-er") { er.reset(); return "ok"; }')
        o.append(' if (a == "fds") return std::to_string(net::fds());')
        o.append(' if (a == "log") { auto c = b.find(\',\'); return net::log.take(std::stoi(b), c == std::string::npos ? 0 : std::stoi(b.substr(c + 1))); }')
        cers = [c for c in self.controls if c.pk.cer]
        if cers:
            o.append(' if (a == "cid") { er->controller_id(%s); return "ok"; }' % (
                'pk::num(pk::unhex(b))' if cers[0].pk.cer == 'word' else 'pk::mk<pk::bare<decltype(er->controller_id())>>(pk::unhex(b))'))
            o.append(' if (a == "cid?") { auto i = er->controller_id(); return %s; }' % ('pk::hexn(i, 4)' if cers[0].pk.cer == 'word' else 'pk::packs(i)'))
        for k, c in enumerate(self.controls):
            sn = pkmodel.snake(c.pk.name)
            o.append(' if (a == "send" && b == "%d") { try { auto& p = *%s;' % (k, self.slot(self.idx['send', k])))
            if not c.slots:
                o.append('  er->send_%s(p); return "acks "; }' % sn)
            else:
                o.append('  auto acks = er->send_%s(p); std::string r = "acks ";' % sn)
                for n, t in enumerate(c.slots):
                    i = self.idx['result', k, t]
                    o.append('  r += "%s "; if (auto& x = std::get<%d>(acks)) r += net::show(*pk::all()[%d], %s, *x); else r += "-"; r += "#";' % (t, n, i, self.slot(i)))
                o.append('  return r; }')
            o.append('  catch (const std::exception& e) { return std::string("EXC ") + e.what(); } }')
        if self.others:
            o.append(' if (a == "src") { er->data_ctxt_src_endpoint({"127.0.0.1", in_port_t(n)}); return std::to_string(net::port_of(er->data_ctxt_recv_socket().native_handle())); }')
            o.append(' if (a == "eesrc") { ee->data_ctxt_src_endpoint({"127.0.0.1", in_port_t(n)}); return std::to_string(net::port_of(ee->data_ctxt_recv_socket().native_handle())); }')
            o.append(' if (a == "dstdc") { er->data_ctxt_dst_endpoint({"127.0.0.1", in_port_t(n)}); return er->data_ctxt_dst_endpoint().to_string(); }')
            o.append(' if (a == "eedst") { ee->data_ctxt_dst_endpoint({"127.0.0.1", in_port_t(n)}); return ee->data_ctxt_dst_endpoint().to_string(); }')
            o.append(' if (a == "timeout") { er->data_ctxt_recv_socket().timeout(n); return "ok"; }')
            o.append(' if (a == "on") { er->enable_receive(); return "ok"; } if (a == "off") { er->disable_receive(); return "ok"; }')
            # the controllee's receive socket is the program's to read
            o.append(' if (a == "eeread") { pk::Bytes m(65536); vrtgen::socket::udp::v4::endpoint_type f; auto r = ee->data_ctxt_recv_socket().receive_from(m.data(), m.size(), f); if (r < 0) return "none"; m.resize(r); return pk::hex(m); }')
            for j, p in enumerate(self.others):
                sn = pkmodel.snake(p.name)
                g = self.idx['got', 'o%d' % j]
                o.append(' if (a == "tx" && b == "%d") { er->send_%s(*%s); return "ok"; }' % (j, sn, self.slot(self.idx['send', 'o%d' % j])))
                o.append(' if (a == "eetx" && b == "%d") { auto d = %s->data(); auto& s = ee->data_ctxt_send_socket(); return std::to_string(s.send_to(d.data(), d.size(), s.dst())); }' % (j, self.slot(self.idx['send', 'o%d' % j])))
                o.append(' if (a == "reg" && b == "%d") { er->register_%s_listener([](ns::packets::%s& p) { std::lock_guard<std::mutex> l(net::objects); net::log.add("L%d " + net::show(*pk::all()[%d], %s, p)); }); return "ok"; }' % (
                    j, sn, p.cls_name, j, g, self.slot(g)))
                o.append(' if (a == "rereg" && b == "%d") { er->register_%s_listener([](ns::packets::%s& p) { std::lock_guard<std::mutex> l(net::objects); net::log.add("M%d " + net::show(*pk::all()[%d], %s, p)); }); return "ok"; }' % (
                    j, sn, p.cls_name, j, g, self.slot(g)))
                o.append(' if (a == "unreg" && b == "%d") { er->register_%s_listener(std::function<void(ns::packets::%s&)>{}); return "ok"; }' % (j, sn, p.cls_name))
        o.append(' return "?"; }')
        o.append('int main() { pk::net = net_cmd; pk::all().resize(%d);' % max(1, len(self.objs)))
        for i, ci in enumerate(self.objs):
            o.append(' pk::all()[%d].reset(make_%d());' % (i, ci))
        o.append(' int r = pk::loop(); er.reset(); ee.reset(); std::cout << "bye\\n"; return r; }')
        return '\n'.join(o) + '\n'

    # -------------------------------------------------------------------------- build
    def build(self, flags=None):
        """Generates, compiles and links; '' or what went wrong."""
        flags = pkdrv.OPT + SAN if flags is None else flags
        self.dir = tempfile.mkdtemp(prefix='sys_', dir=common.workdir())
        rc, txt = pkdrv.generate(self.yaml(), self.dir, extra=['--cmd-socket', self.transport])
        if rc or not os.path.exists(os.path.join(self.dir, 'Controller.hpp')):
            return 'generator (exit %d): %s' % (rc, txt[-1500:])
        pchdir = pkdrv.pch(flags)
        files = {}
        for i, pk in enumerate(self.pks):
            files.setdefault(pk.file, []).append(i)
        units = [('main_', self.main_source())]
        for f, ids in files.items():
            src = ['#include "%s.hpp"' % f, '#include "%s.cpp"' % f, '#include "pkdrv.hpp"']
            for i in ids:
                src += pkdrv.driver_source(self.pks[i], i).split('\n')[3:]
                src.append('std::unique_ptr<ns::packets::%s>& slot_%d(pk::Base* b) { return static_cast<D%d*>(b)->p; }' % (self.pks[i].cls_name, i, i))
            units.append(('u_' + f, '\n'.join(src) + '\n'))
        objs = []
        def one(u):
            src = os.path.join(self.dir, u[0] + '_drv.cpp')
            with open(src, 'w') as f:
                f.write(u[1])
            cmd = [CXX, *STD, '-w', *flags, '-I' + pchdir, '-I' + self.dir, '-I' + INC, '-I' + os.path.join(VERIF, 'cxx'),
                   '-include', 'pch.hpp', '-c', src, '-o', src[:-4] + '.o']
            rc, txt = run(cmd)
            if rc:
                raise BuildError(cmd, txt)
            return src[:-4] + '.o'
        if not self.controls:              # what a program that includes nothing else sees
            alone = os.path.join(self.dir, 'alone.cpp')
            for h in ('Controllee', 'Controller'):
                with open(alone, 'w') as f:
                    f.write('#include "%s.hpp"\n' % h)
                rc, txt = run([CXX, *STD, '-w', '-fsyntax-only', '-I' + self.dir, '-I' + INC, alone])
                if rc:
                    return 'compiler: %s.hpp cannot be included on its own: %s' % (h, pkdrv.compile_excerpt(txt))
        for u in units:
            try:
                objs.append(one(u))
            except BuildError as e:
                return 'compiler: %s' % pkdrv.compile_excerpt(e.out)
        self.exe = os.path.join(self.dir, 'sys')
        rc, txt = run([CXX, *flags, *objs, '-o', self.exe, '-lpthread'] + (['-lnats'] if self.transport == 'nats' else []))
        if rc:
            return 'linker: ' + txt[-1500:]
        return ''
    def clean(self):
        if not os.environ.get('VT_KEEP'):
            shutil.rmtree(self.dir, True)

class Died(Exception):
    pass

class Process:
    """The driver process of a system, talked to line by line."""
    def __init__(self, system):
        self.sys = system
        self.late = []       # handler calls that a connection left behind
        self.err = open(os.path.join(system.dir, 'stderr_%d' % id(self)), 'w+')
        self.p = subprocess.Popen([system.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  text=True, errors='replace', env=RUN_ENV)
        self.q = queue.Queue()
        threading.Thread(target=self._reader, daemon=True).start()
    def _reader(self):
        for l in self.p.stdout:
            self.q.put(l.rstrip('\n'))
        self.q.put(None)
    def start(self, line):
        try:
            self.p.stdin.write(line + '\n')
            self.p.stdin.flush()
        except (BrokenPipeError, ValueError):
            pass
    def wait(self, timeout=20):
        """The next answer; library messages on stdout are no answers."""
        while True:
            try:
                a = self.q.get(timeout=timeout)
            except queue.Empty:
                self.p.kill()
                raise Died('no answer within %d s (the program hangs)' % timeout)
            if a is None:
                self.p.wait()
                raise Died('the program ended (exit %s): %s' % (self.p.returncode, self.diagnosis()))
            if a.startswith('Failed to '):
                continue
            return a
    def diagnosis(self):
        self.err.flush()
        self.err.seek(0)
        return pk_checks.sanitizer(self.err.read())
    def ask(self, line, timeout=20):
        self.start(line)
        return self.wait(timeout)
    def net(self, verb, arg='', timeout=20):
        return self.ask('0 NET %s %s' % (verb, arg), timeout)
    def end(self):
        """Ends the program in an orderly way; its exit status."""
        try:
            self.p.stdin.close()
        except BrokenPipeError:
            pass
        try:
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise Died('the program does not end')
        rc = self.p.returncode
        d = self.diagnosis() if rc else ''
        self.err.close()
        if rc:
            raise Died('exit status %d at the end: %s' % (rc, d))
        return rc
    def kill(self):
        self.p.kill()
        self.p.wait()
