"""Checks of the header library: P01 .. P07."""
import os, random, re
from . import common, libgen, libspec
from .common import Check, SEED, thorough

def feed(c, out, rc, replay, crash='the driver stopped abnormally'):
    """Take over the STATS / SAMPLE / FAIL lines of a driver."""
    fails = []
    lines = out.splitlines()
    for i, l in enumerate(lines):
        if l.startswith('STATS '):
            a, b, _ = map(int, l.split()[1:])
            c.evals += a
            c.nontrivial_extra += b
        elif l.startswith('SAMPLE '):
            c.sample(l[7:400])
        elif l.startswith('FAIL '):
            ops = lines[i + 1][4:] if i + 1 < len(lines) and lines[i + 1].startswith('OPS') else ''
            cls = lines[i + 2][6:] if i + 2 < len(lines) and lines[i + 2].startswith('CLASS') else ''
            fails.append((l[5:], dict(replay, case=l[5:], ops=ops, cls=cls)))
    if rc and not fails:
        m = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: .*)', out)
        fails.append(('%s: %s' % (crash, m.group(1) if m else out[-1500:]), dict(replay, output=out[-3000:])))
    for f in fails:
        c.violation(*f)

def structures(pid, specs, what):
    c = Check(pid, 'a random history of setter / withdraw / copy / pack / parse steps, distinct by its full step list, that touches at least two subfields '
              '(or the only one); the packed bytes and every subfield are compared with a bit-level model after every step',
              assumptions=['scaled and enumerated values are generated within the range of their field; of integers only the bits that fit are transmitted', 'reserved bits are zero in parsed bytes'])
    iters = 60000 if thorough() else 3000
    # split over translation units; two optimisation levels, since constant folding may differ from run-time conversion
    order = sorted(specs, key=lambda s: -len(s.fields))
    shards = [order[i::4] for i in range(4)]
    jobs = [(i, sh, fl) for i, sh in enumerate(shards) if sh for fl in (['-O0', *common.SAN], ['-O2'])]
    def go(j):
        i, sh, fl = j
        exe = common.build('%s_%d%s' % (pid, i, fl[0]), libgen.driver(sh, consts=random.Random('%s%d' % (pid, SEED)) if fl[0] == '-O2' else None), fl)
        return exe, common.run([exe, 'all', str(SEED * 31 + (fl[0] == '-O2')), str(iters)], env=common.RUN_ENV, timeout=3000)
    for j, (res, err) in zip(jobs, common.pmap(go, jobs)):
        if err:
            raise err
        feed(c, res[1][1], res[1][0], dict(structures=[s.name for s in j[1]], flags=j[2], seed=SEED, iters=iters, how='vt/lib_checks.py structures()'))
    c.extra['structures'] = len(specs)
    c.extra['subfields'] = sum(len(s.fields) for s in specs)
    return c.finish()

def simple(pid, src, iters, rule, source=None, extra=None):
    c = Check(pid, rule)
    text = source or open(os.path.join(common.VERIF, 'cxx', src)).read()
    def go(fl):
        exe = common.build(pid + fl[0], text, fl)
        return common.run([exe, str(SEED * 17 + (fl[0] == '-O2')), str(iters)], env=common.RUN_ENV, timeout=3000)
    flags = [['-O0', *common.SAN], ['-O2']]
    for fl, (res, err) in zip(flags, common.pmap(go, flags)):
        if err:
            raise err
        feed(c, res[1], res[0], dict(driver=src, flags=fl, seed=SEED, iters=iters))
    if extra:
        c.extra[extra[0]] = extra[1]
    return c.finish()

def p01(): return structures('P01', libspec.PROLOGUE, 'prologue')
def p02(): return structures('P02', libspec.FIELDS, 'fields')
def p03(): return structures('P03', libspec.INDICATORS, 'indicators')
def p04(): return simple('P04', 'fixed.cpp', 2000000 if thorough() else 100000,
    'a conversion of a non-zero code (all 65536 codes of every 16-bit format, random codes of the wider ones) there and back, or of a real number between two codes')
def p05(): return simple('P05', 'uuid.cpp', 1000000 if thorough() else 20000, 'a construct / assign / parse step whose result is compared in text and wire form')
def p06(): return simple('P06', 'varlen.cpp', 60000 if thorough() else 1500, 'a history with at least one list of two or more entries')

def p07():
    r = random.Random('P07/%d' % SEED)
    out = ['#include "packed.hpp"', 'using namespace vt;']
    main = []
    total = 0
    for w, n in (('uint8_t', 8), ('uint16_t', 16), ('uint32_t', 32), ('uint64_t', 64)):
        combos = [(p, b) for p in range(n) for b in range(1, p + 2) ]
        if n == 64 and not thorough():
            keep = [x for x in combos if x[1] == 1] + [(31, 32), (63, 32), (55, 24), (31, 16), (15, 16), (63, 8), (63, 64)]
            combos = sorted(set(keep + r.sample(combos, 300)))
        total += len(combos)
        for k in range(0, len(combos), 400):
            out.append('static std::vector<Acc<%s>> a%s_%d() { return {%s}; }' % (w, w, k, ', '.join('acc<%s,%d,%d>()' % (w, p, b) for p, b in combos[k:k + 400])))
        main.append('{ std::vector<Acc<%s>> v; %s drive<%s>("%d-bit word", v, seed, it, st); }' % (
            w, ' '.join('for (auto& a : a%s_%d()) v.push_back(a);' % (w, k) for k in range(0, len(combos), 400)), w, n))
    sw = ' '.join('swaps<%s>("%s", seed, it, st);' % (t, t) for t in 'uint8_t uint16_t uint32_t uint64_t int8_t int16_t int32_t int64_t'.split())
    out.append('int main(int, char** argv) { u64 seed = strtoull(argv[1],0,10); long it = atol(argv[2]); PS st; %s %s '
               'printf("STATS %%ld %%ld 0\\nSAMPLE %d accessors (word, position, width)\\n", st.cases, st.nontrivial); return st.ok ? 0 : 1; }' % (' '.join(main), sw, total))
    return simple('P07', '(generated)', 200000 if thorough() else 15000, 'a write into a field of a word holding other fields, followed by a comparison of the whole word '
                  'and of six other fields', '\n'.join(out) + '\n')

def p08():
    src, n = libgen.named_driver(libspec.PROLOGUE + libspec.FIELDS, libspec.ENUMS)
    return simple('P08', '(generated)', 100000 if thorough() else 4000, 'a distinct history of two or more steps that set or parse named codes; packed bytes and the '
                  'reading of every enumerator of the structure are compared with the table of the standard after every step', src, ('enumerators', n))
