"""Turns the structure tables of libspec into a C++ driver around fields.hpp."""
def field_code(s, f):
    off = f.word * 32 + 31 - f.msb
    if f.bits == 64:
        off = f.word * 32
    T = s.cpp
    en_off = en_n = 0
    reset = 'nullptr'
    usable = '[](u64){return true;}'
    kind = f.kind
    wide = '0'
    setv = getv = None
    if kind == 'b':
        setv = 't.%s(v != 0);' % f.name
        getv = 'return u64(t.%s());' % f.name
    elif kind in ('u', 's'):
        t = 'auto' if kind == 'u' else 'int32_t'
        setv = 't.%s(static_cast<std::decay_t<decltype(t.%s())>>(v));' % (f.name, f.name)
        getv = 'return u64(t.%s())%s;' % (f.name, '' if kind == 'u' else ' & mask(%d)' % f.bits)
        if kind == 'u':
            wide = 'int(sizeof(std::decay_t<decltype(std::declval<T&>().%s())>) * 8)' % f.name
    elif kind == 'm1':
        setv = 't.%s(static_cast<std::decay_t<decltype(t.%s())>>(v + 1));' % (f.name, f.name)
        getv = 'return u64(t.%s()) - 1;' % f.name
        usable = '[](u64 v){return v != mask(16);}' if f.bits == 16 else usable
    elif kind.startswith('e:'):
        setv = 't.%s(static_cast<vrtgen::packing::%s>(v));' % (f.name, kind[2:])
        getv = 'return num(t.%s());' % f.name
    elif kind.startswith('o:'):
        parts = kind[2:].split(':')
        pos, _, n = parts[0].partition(',')
        en_n = int(n or 1)
        en_off = 31 - int(pos)
        ty = 'vrtgen::packing::' + parts[1] if len(parts) > 1 else ('bool' if f.bits == 1 else 'uint8_t')
        if ty == 'uint8_t':
            wide = '8'
        setv = 't.%s(static_cast<%s>(v));' % (f.name, ty)
        getv = 'auto o = t.%s(); if (!o) return std::nullopt; return num(*o);' % f.name
        reset = 'rst_%s<T>()' % f.name
    else:
        # fixed point; p = only values whose sign bit is clear are meaningful
        sgn = not kind.startswith('uf')
        r = int(kind.lstrip('ufp'))
        setv = 't.%s((double)fx(v, %d, %d, %s));' % (f.name, f.bits, r, str(sgn).lower())
        getv = 'return unfx(t.%s(), %d, %d);' % (f.name, f.bits, r)
        if f.bits == 64:
            usable = '[](u64 v){ return !(v >> 63) && (u64)(double)v == v && v != mask(63); }'
    return ('        {"%s", %d, %d, 0, %d, %d, [](T& t, u64 v){ %s }, [](T& t) -> std::optional<u64> { %s }, %s, %s, %s},'
            % (f.name, off, f.bits, en_off, en_n, setv, getv, reset, usable, wide))

def const_code(specs, rnd):
    """Setters applied to literal constants, which the optimiser evaluates at compile time."""
    out = ['static bool consts() { bool ok = true; long n = 0;']
    for s in specs:
        for f in s.fields:
            k = f.kind
            if not k.lstrip('u').startswith('f') or f.bits > 32:
                continue
            sgn, r = not k.startswith('uf'), int(k.lstrip('uf'))
            top = 1 << f.bits
            for raw in {0, 1, top - 1, top // 2, top // 2 - 1, rnd.randrange(top), rnd.randrange(top), rnd.randrange(top)}:
                v = raw - top if sgn and raw >= top // 2 else raw
                out.append('    { %s t; t.%s(%r); Bytes b(%d); t.pack_into(b.data()); ++n; if (rd(b, %d, %d) != %dull || (double)t.%s() != %r) { ok = false; '
                           'printf("FAIL %s: constant %r written to %s is packed as %%s\\n", hex(b).c_str()); } }' % (
                               s.cpp, f.name, v / 2.0 ** r, 4 * s.words, f.word * 32 + 31 - f.msb, f.bits, raw, f.name, v / 2.0 ** r, s.name, v / 2.0 ** r, f.name))
    out.append('    st.cases += n; return ok; }')
    return out

def driver(specs, consts=None):
    out = ['#include "fields.hpp"', 'using namespace vt;', 'static Stats st;',
           'static std::vector<Op> parse(int c, char** v) { std::vector<Op> r; for (int i=0;i<c;++i) { Op o; int k,f; unsigned long long x; char b[512]; '
           'sscanf(v[i], "%d,%d,%llu,%500s", &k, &f, &x, b); o.kind=k; o.field=f; o.value=x; if (b[0] != \'-\') for (size_t j=0;j+1<strlen(b);j+=2) '
           '{ unsigned y; sscanf(b+j, "%2x", &y); o.bytes.push_back(y);} r.push_back(o);} return r; }']
    for n in sorted({f.name for s in specs for f in s.fields if f.kind.startswith('o:')}):
        # a structure may or may not offer a way to withdraw an optional subfield
        out.append('template <class T> std::function<void(T&)> rst_%s() { if constexpr (requires(T& t) { t.reset_%s(); }) '
                   'return [](T& t){ t.reset_%s(); }; else return nullptr; }' % (n, n, n))
    for i, s in enumerate(specs):
        out.append('static bool test_%d(u64 seed, long iters, int argc, char** argv) {' % i)
        out.append('    using T = %s;' % s.cpp)
        out.append('    Runner<T> r{"%s", %d, {' % (s.name, 4 * s.words))
        out += [field_code(s, f) for f in s.fields]
        out.append('    }, Bytes{%s}, %s, ""};' % (','.join(str(b) for b in s.default), 'true'))
        out.append('    if (argc) { bool ok = r.run(parse(argc, argv)); if (!ok) printf("FAIL %s\\n", r.msg.c_str()); return ok; }')
        out.append('    return r.explore(seed + %d, iters, st);\n}' % (i * 1000003))
    if consts:
        out += const_code(specs, consts)
    out.append('int main(int argc, char** argv) {')
    out.append('    std::string which = argv[1]; u64 seed = strtoull(argv[2], 0, 10); long iters = atol(argv[3]); bool ok = true;')
    if consts:
        out.append('    if (argc == 4) ok = consts();')
    for i, s in enumerate(specs):
        out.append('    if (which == "all" || which == "%s") { st.samples.size(); if (!test_%d(seed, iters, argc - 4, argv + 4)) { printf("CLASS %s\\n"); ok = false; } }' % (s.name, i, s.name))
    out.append('    printf("STATS %ld %ld %ld\\n", st.cases, st.nontrivial, st.ops); for (auto& s : st.samples) printf("SAMPLE %s\\n", s.c_str());')
    out.append('    return ok ? 0 : 1;\n}')
    return '\n'.join(out) + '\n'

def named_driver(specs, enums):
    out = ['#include "named.hpp"', '#include <vrtgen/packing/enums.hpp>', 'using namespace vt;', 'static NStats st;', 'int main(int, char** argv) { u64 seed = strtoull(argv[1],0,10); long it = atol(argv[2]); bool ok = true;']
    used, n = set(), 0
    for s in specs:
        accs = []
        for f in s.fields:
            en_off = en_n = 0
            if f.kind.startswith('e:'):
                e, opt = f.kind[2:], False
            elif f.kind.startswith('o:') and f.kind.count(':') == 2:
                pos, e = f.kind[2:].split(':')
                pos, _, k = pos.partition(',')
                en_off, en_n, opt = 31 - int(pos), int(k or 1), True
            else:
                continue
            used.add(e)
            E = 'vrtgen::packing::' + e
            es = ', '.join('{"%s::%s", %d, [](T& t) { t.%s(%s::%s); }, [](const T& t) { return t.%s() == %s::%s; }}' % (e, k, v, f.name, E, k, f.name, E, k)
                           for k, v in enums[e].items() if v < 1 << f.bits)
            n += sum(v < 1 << f.bits for v in enums[e].values())
            accs.append('{"%s", %d, %d, %d, %d, {%s}}' % (f.name, f.word * 32 + 31 - f.msb, f.bits, en_off, en_n, es))
        if accs:
            out.append('{ using T = %s; Named<T> d{"%s", %d, Bytes{%s}, {%s}, ""}; ok &= d.explore(seed, it, st); }' % (
                s.cpp, s.name, 4 * s.words, ','.join(str(b) for b in s.default), ',\n  '.join(accs)))
    # enumerations that are used as plain values (generated packet classes, index lists)
    for e in sorted(set(enums) - used):
        for k, v in enums[e].items():
            n += 1
            out.append('++st.cases; if (num(vrtgen::packing::%s::%s) != %d) { ok = false; printf("FAIL %s::%s stands for code %%llu, the standard\'s code is %d\\n", '
                       '(unsigned long long)num(vrtgen::packing::%s::%s)); }' % (e, k, v, e, k, v, e, k))
    out.append('printf("STATS %ld %ld 0\\n", st.cases, st.nontrivial); for (auto& s : st.samples) printf("SAMPLE %s\\n", s.c_str()); return ok ? 0 : 1; }')
    return '\n'.join(out) + '\n', n
