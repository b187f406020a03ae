"""From packet definitions to running drivers: YAML, the generator of the working tree, compilation,
and the line protocol of cxx/pkdrv.hpp."""
import os, shutil, subprocess, tempfile, threading
from . import common
from .common import REPO, PY, VERIF, CXX, STD, INC, SAN, RUN_ENV, run, pmap, BuildError
from .pkmodel import Pk, Ack, snake

OPT = ['-O0']

def generate(yaml_text, outdir, stem='defs', extra=(), env=None):
    """Runs the generator; returns (rc, output)."""
    os.makedirs(outdir, exist_ok=True)
    y = os.path.join(outdir, stem + '.yaml')
    with open(y, 'w') as f:
        f.write(yaml_text)
    # --project is not used: headers and sources land in outdir
    return run([PY, '-B', '-W', 'ignore', '-m', 'vrtgen.main', 'cpp', '--dir', outdir, '--namespace', 'ns', *extra, y],
               cwd=os.path.join(REPO, 'src'), env=env or dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))

def prologue_methods(pk):
    sets, gets = {}, {}
    def plain(n, w, ty=None):
        sets[n] = 'p->%s(static_cast<pk::bare<decltype(p->%s())>>(pk::num(h)));' % (n, n)
        gets[n] = 'pk::hexn(vt::num(p->%s()), %d)' % (n, w)
    plain('packet_count', 1)
    if pk.sid is not None and not isinstance(pk.sid, list):
        plain('stream_id', 4)
    if pk.cls:
        plain('pad_bits', 1)
        if pk.shared:
            plain('information_code', 2)
        gets['class_id'] = 'pk::sget(p->class_id())'
    if 'int' in pk.ts:
        plain('integer_timestamp', 4)
        if pk.ts['int'] == 'any':
            plain('tsi', 1)
    if 'frac' in pk.ts:
        plain('fractional_timestamp', 8)
        if pk.ts['frac'] == 'any':
            plain('tsf', 1)
    if pk.ctx and pk.d.get('tsm') == 'any':
        plain('tsm', 1)
    if pk.cmd:
        gets['cam'] = 'pk::sget(p->cam())'
        gets['action_mode'] = 'pk::hexn(vt::num(p->action_mode()), 1)'
        plain('timing_control', 1)
        if isinstance(pk, Ack):
            plain('partial_action', 1)
            plain('scheduled_or_executed', 1)
        for k in ('req_v', 'req_x', 'req_s'):
            if isinstance(pk, Ack):
                if pk.variant == 'VX' and k != 'req_s' and pk.cam.get(k):
                    plain('ack' + k[3:], 1)
            elif pk.cam.get(k) == 'optional':
                plain(k, 1)
        plain('message_id', 4)
        for k, n in ((pk.cee, 'controllee_id'), (pk.cer, 'controller_id')):
            if k == 'word':
                plain(n, 4)
            elif k == 'uuid':
                sets[n] = 'p->%s(pk::mk<pk::inner<decltype(p->%s())>>(h));' % (n, n)
                gets[n] = 'pk::sget(p->%s())' % n
    if pk.has_cif0 and not pk.enables and not (isinstance(pk, Ack) and pk.variant == 'VX'):
        plain('change_indicator', 1)
    return sets, gets

def field_methods(pk):
    sets, refs, gets, resets = {}, {}, {}, {}
    for f in pk.fields:
        n = f.name
        if pk.enables:
            sets[n] = 'p->%s_enabled(pk::num(h) != 0);' % n
            gets[n] = 'pk::hexn(p->%s_enabled(), 1)' % n
            if not f.required:
                resets[n] = 'p->reset_%s();' % n
            continue
        scalar = f.scalar or (f.kind == 'io' and not f.subs)
        if scalar:
            bits = f.bits
            if f.kind == 'fx':
                r, sg = f.fd.radix, str(f.fd.signed).lower()
                sets[n] = 'p->%s(vt::fx(pk::num(h), %d, %d, %s));' % (n, bits, r, sg)
                conv = 'vt::unfx(%%s, %d, %d)' % (bits, r)
            else:
                sets[n] = 'p->%s(static_cast<pk::inner<decltype(p->%s())>>(pk::num(h)));' % (n, n)
                conv = 'vt::num(%s)'
            if f.required:
                gets[n] = 'pk::hexn(%s, %d)' % (conv % ('p->%s()' % n), bits // 8)
            else:
                gets[n] = '[&]{ auto o = p->%s(); return o ? pk::hexn(%s, %d) : std::string("-"); }()' % (n, conv % '(*o)', bits // 8)
        else:
            t = 'pk::mk<pk::inner<decltype(p->%s())>>(h)' % n
            sets[n] = 'p->%s(%s);' % (n, t)
            refs[n] = 'p->%s() = %s;' % (n, t)
            gets[n] = 'pk::sget(p->%s())' % n
        if not f.required:
            resets[n] = 'p->reset_%s();' % n
    return sets, refs, gets, resets

def driver_source(pk, i, ns='ns'):
    cls = '%s::packets::%s' % (ns, pk.cls_name)
    sets, gets = prologue_methods(pk)
    fs, refs, fg, resets = field_methods(pk)
    sets.update(fs); gets.update(fg)
    if isinstance(pk.sid, list):
        gets['stream_id'] = 'pk::sget(p->stream_id())'
        refs['stream_id'] = 'p->stream_id() = pk::mk<pk::inner<decltype(p->stream_id())>>(h);'
    if pk.trailer is not None:
        gets['trailer'] = 'pk::sget(p->trailer())'
        refs['trailer'] = 'p->trailer() = pk::mk<pk::inner<decltype(p->trailer())>>(h);'
    if pk.kind == 'data':
        gets['payload'] = '[&]{ auto s = p->payload(); if (s.size() != p->payload_size()) return std::string("size mismatch"); return pk::hex(pk::Bytes(s.begin(), s.end())); }()'
    subs = []
    for s in pk.subs:
        owner = {'stream_id': 'p->stream_id()', 'trailer': 'p->trailer()'}.get(s.owner, 'p->%s()' % s.owner)
        optional = s.owner in pk.by and not pk.by[s.owner].required
        obj = '(*%s)' % owner if optional else owner
        en = 'if (!%s) %s.emplace(); ' % (owner, owner) if optional else ''
        cast = 'static_cast<V>(v)'
        if s.labels:        # enumerated: through the names a program would use
            cast = 'std::vector<V>{%s}.at(v)' % ', '.join('V::' + x for x in s.labels)
        code = '{ %susing V = pk::inner<decltype(%s.%s())>; if (rst) %s; else %s.%s(%s); return "ok"; }' % (
            en, obj, s.name, '%s.reset_%s()' % (obj, s.name) if s.en_lsb is not None else '(void)0', obj, s.name, cast)
        subs.append('if (n == "%s") %s' % (s.path, code))
        if s.en_lsb is not None:
            g = '[&]{ auto o = %s.%s(); return o ? pk::hexn(vt::num(*o), 8) : std::string("-"); }()' % (obj, s.name)
        else:
            g = 'pk::hexn(vt::num(%s.%s()), 8)' % (obj, s.name)
        if optional:
            g = '(%s ? %s : std::string("-"))' % (owner, g)
        gets[s.path] = g
    def chain(m):
        return ' '.join('if (n == "%s") { %s return "ok"; }' % kv for kv in m.items()) + ' return "?";'
    rc = ' '.join('if (c == "%s") { p->reset_%s(); return "ok"; }' % (c, 'cif_%d' % c if isinstance(c, int) else c) for c in pk.groups)
    o = ['#include "%s.hpp"' % pk.file, '#include "%s.cpp"' % pk.file, '#include "pkdrv.hpp"',
         'struct D%d : pk::Base {' % i, ' using T = %s; std::unique_ptr<T> p = std::make_unique<T>();' % cls,
         ' void make() override { q.reset(); p = std::make_unique<T>(); }',
         ' void unpack(std::span<const uint8_t> s) override { p = std::make_unique<T>(s); }',
         ' void copy() override { p = std::make_unique<T>(*p); }',
         ' void move() override { auto q = std::make_unique<T>(std::move(*p)); p = std::move(q); }',
         ' std::unique_ptr<T> q;',
         ' std::string two(char o) override { if (o == \'K\') { q = std::make_unique<T>(*p); return "ok"; } if (!q) return "none";'
         ' if (o == \'I\') std::swap(p, q); else if (o == \'E\') *p = *q; else { *p = std::move(*q); q.reset(); } return "ok"; }',
         ' void swapcopy() override { T t; t = *p; *p = T{}; p->data(); *p = t; }',
         ' std::string set(const std::string& n, const pk::Bytes& h) override { %s }' % chain(sets),
         ' std::string ref(const std::string& n, const pk::Bytes& h) override { %s }' % chain(refs),
         ' std::string reset(const std::string& n) override { %s }' % chain(resets),
         ' std::string resetcif(const std::string& c) override { %s return "?"; }' % rc,
         ' std::string sub(const std::string& n, bool rst, vt::u64 v) override { %s return "?"; }' % '\n  '.join(subs),
         ' std::string getters() override { std::string r; %s return r; }' % '\n  '.join(
             'r += "%s="; r += %s; r += " ";' % (n, g) for n, g in gets.items()),
         ' std::string data() override { auto s = p->data(); return pk::hex(pk::Bytes(s.begin(), s.end())); }',
         ' size_t size() override { return p->size(); }',
         ' std::string name() override { return p->name(); }',
         ' std::string match(std::span<const uint8_t> s) override { auto r = T::match(s); return r ? "no " + *r : "yes"; }']
    if pk.kind == 'data':
        o.append(' std::string payload(std::span<const uint8_t> s) override { p->payload(s); return "ok"; }')
    o.append('};')
    o.append('pk::Base* make_%d() { return new D%d; }' % (i, i))
    return '\n'.join(o) + '\n'

_pch, _pch_lock = {}, threading.Lock()
def pch(flags):
    with _pch_lock:
        return _pch_of(flags)
def _pch_of(flags):
    key = ' '.join(flags)
    if key not in _pch:
        d = os.path.join(common.workdir(), 'pch%d' % len(_pch))
        os.makedirs(d)
        with open(os.path.join(d, 'pch.hpp'), 'w') as f:
            f.write('#include <vrtgen/vrtgen.hpp>\n#include <vrtgen/packing.hpp>\n#include "pkdrv.hpp"\n'
                    '#include <sstream>\n#include <unordered_map>\n#include <string>\n#include <vector>\n#include <optional>\n')
        cmd = [CXX, *STD, '-w', *flags, '-I' + INC, '-I' + os.path.join(VERIF, 'cxx'), '-x', 'c++-header',
               os.path.join(d, 'pch.hpp'), '-o', os.path.join(d, 'pch.hpp.gch')]
        rc, out = run(cmd)
        if rc:
            raise BuildError(cmd, out)
        _pch[key] = d
    return _pch[key]

class Built:
    """An executable with one driver per packet that could be generated and compiled."""
    def __init__(self, pks, flags=None, per_yaml=12, tag='b', extra=(), tail=None):
        self.pks, self.flags = pks, OPT + SAN if flags is None else flags
        self.dir = tempfile.mkdtemp(prefix=tag + '_', dir=common.workdir())
        self.errors = {}          # index -> text
        groups = [list(range(i, min(i + per_yaml, len(pks)))) for i in range(0, len(pks), per_yaml)]
        pchdir = pch(self.flags)
        def gen(gi):
            g = groups[gi]
            out = os.path.join(self.dir, 'g%d' % gi)
            rc, txt = generate('\n'.join(pks[i].yaml() for i in g) + (tail([pks[i] for i in g]) if tail else ''), out, extra=extra)
            bad = {}
            if rc or any(not os.path.exists(os.path.join(out, pks[i].file + '.cpp')) for i in g):
                for i in g:
                    if len(g) > 1:
                        rc, txt = generate(pks[i].yaml() + (tail([pks[i]]) if tail else ''), out, 'one%d' % i, extra=extra)
                    if rc or not os.path.exists(os.path.join(out, pks[i].file + '.cpp')):
                        bad[i] = 'generator (exit %d): %s' % (rc, txt[-1500:])
            return out, bad
        objs = {}
        def one(t):
            i, out = t
            src = os.path.join(out, 'drv_%d.cpp' % i)
            with open(src, 'w') as f:
                f.write(driver_source(pks[i], i))
            obj = src[:-4] + '.o'
            cmd = [CXX, *STD, '-w', *self.flags, '-I' + pchdir, '-I' + out, '-I' + INC, '-I' + os.path.join(VERIF, 'cxx'),
                   '-include', 'pch.hpp', '-c', src, '-o', obj]
            rc, txt = run(cmd)
            if rc:
                raise BuildError(cmd, txt)
            objs[i] = obj
        todo = []
        for r, e in pmap(gen, range(len(groups))):
            if e:
                raise e
            out, bad = r
            self.errors.update(bad)
            todo.append((out, bad))
        work = []
        for gi, (out, bad) in enumerate(todo):
            work += [(i, out) for i in groups[gi] if i not in bad]
        for (i, out), (r, e) in zip(work, pmap(one, work)):
            if isinstance(e, BuildError):
                self.errors[i] = 'compiler: ' + compile_excerpt(e.out)
            elif e:
                raise e
        self.ok = sorted(objs)
        main = os.path.join(self.dir, 'main.cpp')
        with open(main, 'w') as f:
            f.write('#include "pkdrv.hpp"\nnamespace pk { std::vector<std::unique_ptr<Base>>& all() { static std::vector<std::unique_ptr<Base>> v; return v; } }\n')
            for i in self.ok:
                f.write('pk::Base* make_%d();\n' % i)
            f.write('int main() { pk::all().resize(%d);\n' % max(1, len(pks)))
            for i in self.ok:
                f.write(' pk::all()[%d].reset(make_%d());\n' % (i, i))
            f.write(' return pk::loop(); }\n')
        mo = main[:-4] + '.o'
        cmd = [CXX, *STD, '-w', *self.flags, '-I' + pchdir, '-I' + INC, '-I' + os.path.join(VERIF, 'cxx'), '-include', 'pch.hpp', '-c', main, '-o', mo]
        rc, txt = run(cmd)
        if rc:
            raise BuildError(cmd, txt)
        self.exe = os.path.join(self.dir, 'drv')
        cmd = [CXX, *self.flags, mo, *[objs[i] for i in self.ok], '-o', self.exe, '-lpthread']
        rc, txt = run(cmd)
        if rc:
            raise BuildError(cmd, txt)

    def run_once(self, lines, timeout=300):
        """(answers, exit status, diagnostics)"""
        p = subprocess.run([self.exe], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors='replace', env=RUN_ENV, timeout=timeout)
        out = p.stdout.split('\n')
        if out and out[-1] == '':
            out.pop()
        return out, p.returncode, p.stderr

    def clean(self):
        if not os.environ.get('VT_KEEP'):
            shutil.rmtree(self.dir, True)

    def run(self, lines, timeout=300):
        """Answers to the lines; shorter than lines when the program died (then .stderr says why)."""
        p = subprocess.run([self.exe], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors='replace', env=RUN_ENV, timeout=timeout)
        self.rc, self.stderr = p.returncode, p.stderr
        out = p.stdout.split('\n')
        if out and out[-1] == '':
            out.pop()
        return out

def compile_excerpt(txt):
    lines = [l for l in txt.split('\n') if 'error' in l]
    return '\n'.join(lines[:6])[:1500]

def op_line(i, op):
    c = op[0]
    if c in ('S', 'A'):
        return '%d %s %s %s' % (i, c, op[1], op[2])
    if c in ('R', 'RC'):
        return '%d %s %s' % (i, c, op[1])
    if c == 'B':
        return '%d B %s %s' % (i, op[1], '-' if op[2] is None else op[2])
    if c in ('P', 'X'):
        return '%d %s %s' % (i, c, op[1] or '.')
    if c == 'U':
        return '%d U %s' % (i, op[1] or '.')
    return '%d %s' % (i, c)
