"""Checks over generated packet classes: random definitions, random histories, a reference model."""
import copy, json, os, time
from . import common, pkgen, pkdrv, pkmodel
from .common import Check, thorough, ddmin, SEED
from .pkmodel import Pk, to_json, from_json

TWO = ('K', 'I', 'E', 'V')       # operations on the second object

def expect(pk, ops):
    """The answers the model gives to a history that starts with a fresh packet."""
    st, q, out = pk.initial(), None, ['ok']
    for op in ops:
        c = op[0]
        if c in 'DZ':
            st.pop('lag', None)
        if c == 'D':
            out.append(pk.encode(st).hex())
        elif c == 'Z':
            out.append(str(len(pk.encode(st))))
        elif c == 'G':
            out.append(pk.getters(st))
        elif c == 'K':
            q = copy.deepcopy(st); out.append('ok')
        elif c == 'I':
            if q is None: out.append('none')
            else: st, q = q, st; out.append('ok')
        elif c == 'E':
            if q is None: out.append('none')
            else: st = copy.deepcopy(q); out.append('ok')
        elif c == 'V':
            if q is None: out.append('none')
            else: st, q = q, None; out.append('ok')
        else:
            if c == 'N':
                q = None
            pk.apply(st, op)
            out.append('ok')
    return out

def differ(want, got):
    if isinstance(want, dict):
        g = dict(z.split('=', 1) for z in got.split() if '=' in z)
        d = ['%s is %s, expected %s' % (k, g.get(k), v) for k, v in want.items() if g.get(k) != v]
        return '; '.join(d[:6])
    return '' if want == got else 'got %s, expected %s' % (got, want)

def show(op):
    if op[0] == 'U':
        return 'U ' + op[1]
    return ' '.join(str(x) for x in op)

class Failure:
    def __init__(self, i, ops, at, why):
        self.i, self.ops, self.at, self.why = i, ops, at, why

def run_batch(built, i, hists):
    """Runs the histories of packet i in one process; first Failure or None."""
    pk, lines, where, exps = built.pks[i], [], [], []
    for h, ops in enumerate(hists):
        lines.append('%d N' % i); where.append((h, -1))
        for k, op in enumerate(ops):
            lines.append(pkdrv.op_line(i, op)); where.append((h, k))
        exps += expect(pk, ops)
    out, rc, err = built.run_once(lines)
    for (h, k), w, g in zip(where, exps, out):
        d = differ(w, g)
        if d:
            return Failure(i, hists[h], k, d)
    if len(out) < len(lines):
        h, k = where[len(out)]
        return Failure(i, hists[h], k, 'the program stopped (exit %s): %s' % (rc, sanitizer(err)))
    return None

def sanitizer(err):
    keep = [l for l in err.split('\n') if 'runtime error' in l or 'ERROR: ' in l or 'WARNING: ThreadS' in l or 'SUMMARY: ThreadS' in l or l.strip().startswith('#') and 'packets' in l or 'terminate' in l or 'what()' in l]
    return ' | '.join(keep[:5]) or err[-400:]

def report(c, built, f, extra=''):
    """Shrinks and records a failing history."""
    t0 = time.time()
    def fails(ops):
        return time.time() - t0 < 60 and run_batch(built, f.i, [list(ops)]) is not None
    ops = f.ops[:f.at + 1] if f.at >= 0 else []
    if not fails(ops):
        ops = f.ops
    g = None
    if fails(ops):
        ops = ddmin(ops, fails)
        g = run_batch(built, f.i, [list(ops)])
    pk = built.pks[f.i]
    why = g.why if g else f.why
    c.violation('%s%s\n%s\nafter: new; %s' % (extra, why, pk.yaml(), '; '.join(show(o) for o in ops)),
                dict(definition=pk.d, yaml=pk.yaml(), ops=[list(o) for o in ops], why=why,
                     how='python3 tools/replay.py <this file>'))

def build_failures(c, built):
    for i, e in sorted(built.errors.items())[:3]:
        c.violation('a valid definition cannot be generated and compiled: %s\n%s' % (e, built.pks[i].yaml()),
                    dict(definition=built.pks[i].d, yaml=built.pks[i].yaml(), error=e))

def campaign(c, defs, history, per_pk, rounds=1, nontrivial=None, flags=None, until=None):
    """defs(rng, round) -> definitions; history(rng, pk) -> ops.  Builds, runs, compares."""
    r = 0
    classes = {}
    while True:
        pks = [pkmodel.make(d) for d in defs(c.rng, r)]
        built = pkdrv.Built(pks, flags=flags)
        build_failures(c, built)
        jobs = []
        for i in built.ok:
            jobs.append((i, [history(c.rng, pks[i]) for _ in range(per_pk)]))
        for (i, hs), (f, err) in zip(jobs, common.pmap(lambda j: run_batch(built, *j), jobs)):
            if err:
                raise err
            for ops in hs:
                nt = (nontrivial or (lambda pk, o: len(o) > 2))(pks[i], ops)
                c.case((json.dumps(pks[i].d, sort_keys=True, default=str), [o[:2] + ([o[2]] if len(o) > 2 and o[0] != 'U' else []) for o in ops]) if nt else None)
                for o in ops:
                    classes[o[0]] = classes.get(o[0], 0) + 1
            if hs and pks[i].fields or i == 0:
                c.sample('%s | %s' % (pks[i].yaml().replace('\n', ' / '), '; '.join(show(o) for o in hs[0])[:500]))
            if f and len(c.violations) < 3:
                report(c, built, f)
        c.extra['packet classes'] = c.extra.get('packet classes', 0) + len(built.ok)
        c.extra['operations'] = dict(sorted(classes.items()))
        built.clean()
        r += 1
        if c.violations:
            break
        if until is None:
            if r >= rounds:
                break
        elif time.time() > until:
            break
    c.extra['rounds'] = r

MODEL_NOTE = 'the reference encoder of vt/pkmodel.py and the field tables of vt/pkspec.py are trusted (written from VITA 49.2 and docs)'
def tier_args(c, quick_rounds=1, minutes=12):
    return dict(rounds=quick_rounds, until=(c.t0 + minutes * 60) if thorough() else None)

def mixed_defs(kinds, n, prefix='Pk', **kw):
    def f(rng, r):
        return [pkgen.gen_def(rng, '%s%d' % (prefix, i), kinds[i % len(kinds)], **kw) for i in range(n)]
    return f

def random_ops(codes, lo, hi, tail=('D', 'G')):
    def f(rng, pk):
        return [pkgen.rand_op(rng, pk, list(codes)) for _ in range(rng.randint(lo, hi))] + [[t] for t in tail]
    return f

# ------------------------------------------------------------------ P11 wire image
def p11():
    c = Check('P11', 'a packet with at least one field or attribute set away from its default whose serialized bytes are compared with the reference encoding',
              assumptions=[MODEL_NOTE])
    def hist(rng, pk):
        n = rng.choice([2, 5, 9, 16, 30])
        return [pkgen.rand_op(rng, pk, ['H', 'H', 'F', 'F', 'F', 'F', 'B', 'P', 'T']) for _ in range(n)] + [['D'], ['Z'], ['D']]
    campaign(c, mixed_defs(['context', 'control', 'context', 'data', 'context', 'control', 'extcontext', 'extcontrol'], 40), hist, 60, **tier_args(c))
    return c.finish()

# ------------------------------------------------------------------ P12 parsing
def p12():
    c = Check('P12', 'parsing a reference-encoded packet with at least one field present (or a payload), compared through every getter and re-serialized',
              assumptions=[MODEL_NOTE, 'reserved bits of the parsed bytes are zero and enumerated words hold declared values'])
    def hist(rng, pk):
        o = []
        for _ in range(rng.choice([1, 1, 2])):
            o.append(pkgen.rand_op(rng, pk, ['U']))
            o += [['G'], ['D'], ['G'], ['Z']] if rng.random() < .7 else [['D'], ['Z'], ['G']]
        return o
    campaign(c, mixed_defs(['context', 'control', 'context', 'context', 'data', 'control', 'extcontext', 'extcontrol'], 40), hist, 60,
             nontrivial=lambda pk, o: any(v for v in from_json(o[0][2])['f'].values()) or len(o[0][1]) > 60, **tier_args(c))
    return c.finish()

# ------------------------------------------------------------------ P10 generation
def all_kinds(rng, n, prefix='Pk'):
    kinds = ['context', 'control', 'data', 'context', 'extcontext', 'control', 'extcontrol', 'data', 'context', 'control']
    out = []
    for i in range(n):
        d = pkgen.gen_def(rng, '%s%d' % (prefix, i), kinds[i % len(kinds)])
        if d['kind'] == 'data' and rng.random() < .5:
            d['trailer'] = pkgen.gen_subs(rng, 'trailer')
        elif d['kind'] in ('context', 'control', 'extcontext') and rng.random() < .6:
            w = rng.choice(['32', '32', '64'])
            d['fields'] = [f for f in d['fields'] if not f['name'].startswith('discrete_io')]
            d['fields'].append(dict(name='discrete_io_' + w, mode=rng.choice(['required', 'optional']), sub={'io': pkgen.gen_subs(rng, 'io' + w)}))
        if rng.random() < .3:
            d['name'] = rng.choice(['Radio%dStatus', 'RF%dControl', 'Packet%d', 'Lower%dcase', 'HTTPServer%dX', 'A%d']) % i
        out.append(d)
    return out

def slurp(d, names):
    o = {}
    for n in names:
        for ext in ('hpp', 'cpp'):
            p = os.path.join(d, '%s.%s' % (pkmodel.snake(n), ext))
            o[n, ext] = open(p).read() if os.path.exists(p) else None
    return o

def syntax(path, inc, flags=()):
    return common.run([common.CXX, *common.STD, '-w', '-fsyntax-only', *flags, '-I' + inc, '-I' + common.INC, path])

P10_LISTED = {     # constructs the generator above leaves out, because they are listed as findings
    'sector-step-scan': """Pk0: !Context
  stream_id: required
  cif_1: !CIF1
    sector_step_scan: !SectorStepScan
      subfield_cif: !SectorStepScanCIF
        f2_stop_frequency: required
""",
    'same-enumerations': """Pk0: !Context
  stream_id: required
  cif_1: !CIF1
    discrete_io_32: !DiscreteIO32
      mode: required
      level:
        - low
        - high
    discrete_io_64: !DiscreteIO64
      mode: required
      level:
        - low
        - high
"""}

def p10_listed(c):
    for key, text in sorted(P10_LISTED.items()):
        d = os.path.join(common.workdir(), 'p10_' + key)
        rc, txt = pkdrv.generate(text, d)
        if rc == 0:
            rc, txt = common.run([common.CXX, *common.STD, '-w', '-fsyntax-only', '-I' + d, '-I' + common.INC, os.path.join(d, 'pk0.cpp')])
        c.case(key)
        if rc:
            c.violation('a valid definition gives no code that compiles: %s\n%s' % (txt[-400:], text), dict(yaml=text, error=txt[:3000]), key=key)

def p10():
    c = Check('P10', 'a valid definition (any packet kind) whose classes are generated repeatedly under different conditions, compared and compiled; distinct by definition',
              assumptions=['definitions are drawn from the constructs the parser documents as valid', 'g++ (and clang++ for a part) with -std=c++20 decides whether a class compiles'])
    until = c.t0 + 600 if thorough() else None
    r = 0
    while True:
        root = os.path.join(common.workdir(), 'p10_%d' % r)
        pks = [Pk(d) for d in all_kinds(c.rng, 72)]
        groups = [pks[i:i + 9] for i in range(0, len(pks), 9)]
        c.rng.shuffle(pks)
        def variants(gi):
            g = groups[gi]
            base = os.path.join(root, 'g%d' % gi)
            names = [p.name for p in g]
            res = {}
            for tag, order, seed in (('a', g, '0'), ('b', g, '12345'), ('rev', g[::-1], '77')):
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=seed)
                rc, txt = pkdrv.generate('\n'.join(p.yaml() for p in order), os.path.join(base, tag), 'defs', env=env)
                res[tag] = (rc, txt, slurp(os.path.join(base, tag), names))
            pick = g[gi % len(g)]
            rc, txt = pkdrv.generate(pick.yaml(), os.path.join(base, 'one'), 'defs')
            res['one'] = (rc, txt, slurp(os.path.join(base, 'one'), [pick.name]))
            return res, pick
        for gi, (v, err) in enumerate(common.pmap(variants, range(len(groups)))):
            if err:
                raise err
            res, pick = v
            base = res['a'][2]
            for tag, what in (('a', 'generation'), ('b', 'a second generation of the same file'), ('rev', 'generation with the packets in the opposite order'), ('one', 'generation of one packet on its own')):
                rc, txt, files = res[tag]
                for (n, ext), t in files.items():
                    pk = next(p for p in groups[gi] if p.name == n)
                    rep = dict(definition=pk.d, yaml=pk.yaml(), group=[p.yaml() for p in groups[gi]], variant=tag, output=txt[-1500:])
                    c.case()
                    if t is None:
                        c.violation('%s: no %s file for a valid definition (exit %d): %s\n%s' % (what, ext, rc, txt[-600:], pk.yaml()), rep)
                    elif t != base.get((n, ext)):
                        c.violation('%s gives a different %s file for packet %s\n%s' % (what, ext, n, pk.yaml()), rep)
                if rc:
                    c.violation('%s fails (exit %d): %s' % (what, rc, txt[-600:]), dict(group=[p.yaml() for p in groups[gi]], output=txt[-1500:]))
            if c.violations:
                break
        if not c.violations:
            jobs = [(gi, p) for gi, g in enumerate(groups) for p in g]
            pchdir = pkdrv.pch(pkdrv.OPT)
            def comp(j):
                gi, p = j
                d = os.path.join(root, 'g%d' % gi, 'a')
                src = os.path.join(d, pkmodel.snake(p.name) + '.cpp')
                rc, txt = common.run([common.CXX, *common.STD, '-w', '-O0', '-I' + pchdir, '-include', 'pch.hpp', '-fsyntax-only', '-I' + d,
                                      '-I' + common.INC, '-I' + os.path.join(common.VERIF, 'cxx'), src])
                if rc == 0 and p is groups[gi][0]:      # on its own headers only, and with the other compiler
                    for cxx in ('g++', 'clang++'):
                        rc, txt = common.run([cxx, *common.STD, '-w', '-fsyntax-only', '-I' + d, '-I' + common.INC, src])
                        if rc:
                            txt = cxx + ': ' + txt
                            break
                return rc, txt
            for (gi, p), (v, err) in zip(jobs, common.pmap(comp, jobs)):
                if err:
                    raise err
                c.case(json.dumps(p.d, sort_keys=True, default=str))
                if gi == 0:
                    c.sample(p.yaml().replace('\n', ' / ')[:400])
                if v[0] and len(c.violations) < 3:
                    c.violation('a valid definition gives code that does not compile: %s\n%s' % (pkdrv.compile_excerpt(v[1]), p.yaml()),
                                dict(definition=p.d, yaml=p.yaml(), error=v[1][:3000]))
        r += 1
        import shutil
        shutil.rmtree(root, True)
        if c.violations or until is None or time.time() > until:
            break
    p10_listed(c)
    c.extra['rounds'] = r
    return c.finish()

# ------------------------------------------------------------------ P13 sizes
VARLEN = ['gps_ascii', 'context_association_lists', 'index_list']
def p13():
    c = Check('P13', 'a history that changes the length of the packet at least twice (fields appearing or going, lists or payload of new length) with size and header word inspected along the way',
              assumptions=[MODEL_NOTE])
    def defs(rng, r):
        out = []
        for i in range(32):
            k = ['context', 'data', 'context', 'control', 'extcontext', 'context', 'data', 'control'][i % 8]
            d = pkgen.gen_def(rng, 'Pk%d' % i, k)
            if k == 'data' or (k == 'control' and d['cam']['action_mode'] == 'none'):
                out.append(d); continue
            have = {f['name'] for f in d['fields']}
            for v in VARLEN:
                if v not in have and rng.random() < .6:
                    f = dict(name=v, mode=rng.choice(['required', 'optional']))
                    if v == 'index_list':
                        f.update(mode='required', sub={'entry_size': rng.choice([8, 16, 32])})
                    d['fields'].append(f)
            out.append(d)
        return out
    def hist(rng, pk):
        ops = []
        var = [f for f in pk.fields if f.kind == 'var' and not pk.enables]
        for _ in range(rng.choice([3, 6, 12, 20])):
            if var and rng.random() < .5:
                f = rng.choice(var)
                ops.append([rng.choice(['S', 'A']), f.name, pkmodel.rand_value(rng, f).hex()])
            else:
                ops.append(pkgen.rand_op(rng, pk, ['F', 'R', 'A', 'P', 'P', 'T', 'H', 'U', 'C', 'RC']))
            if rng.random() < .4:
                ops.append([rng.choice(['Z', 'D', 'Z', 'G'])])
                if rng.random() < .3:
                    ops.append([rng.choice(['Z', 'D'])])
        return ops + [['Z'], ['D'], ['Z'], ['G']]
    def nt(pk, ops):
        st, sizes = pk.initial(), set()
        for o in ops:
            if o[0] in 'DZGKIEVCMW':
                continue
            pk.apply(st, o); sizes.add(len(pk.encode(st)))
        return len(sizes) > 2
    campaign(c, defs, hist, 120, nontrivial=nt, **tier_args(c))
    return c.finish()

# ------------------------------------------------------------------ P14 optional fields
def p14():
    c = Check('P14', 'a history that both sets and resets optional fields, distinct by history',
              assumptions=[MODEL_NOTE])
    def defs(rng, r):
        out = []
        for i in range(40):
            k = ['context', 'control', 'extcontext', 'context'][i % 4]
            n = [{0: 4, 1: 3, 2: 2}, {0: 0, 1: 3, 2: 3}, {0: 3, 1: 0, 2: 3}, {0: 7, 1: 7, 2: 0}, {0: 2, 1: 9, 2: 6}][i % 5]
            d = pkgen.gen_def(rng, 'Pk%d' % i, k, n=n, **({'action': rng.choice(['execute', 'dry-run'])} if k == 'control' else {}))
            if i % 2:
                for f in d['fields']:
                    if f['name'] != 'index_list' and rng.random() < .8:
                        f['mode'] = 'optional'
            out.append(d)
        return out
    def hist(rng, pk):
        ops = [pkgen.rand_op(rng, pk, ['F', 'F', 'R', 'R', 'A', 'RC', 'D', 'G', 'U', 'B', 'C']) for _ in range(rng.choice([4, 8, 14, 24]))]
        return ops + [['G'], ['D'], ['G']]
    campaign(c, defs, hist, 120, nontrivial=lambda pk, o: {'S', 'R'} <= {x[0] for x in o}, **tier_args(c))
    return c.finish()

# ------------------------------------------------------------------ P16 data packets
def p16():
    c = Check('P16', 'a data packet history with at least two payloads, or a payload and a trailer', assumptions=[MODEL_NOTE])
    def hist(rng, pk):
        ops = [pkgen.rand_op(rng, pk, ['P', 'P', 'T', 'B', 'H', 'D', 'G', 'Z', 'U', 'C', 'M', 'W']) for _ in range(rng.choice([3, 6, 12, 20]))]
        if rng.random() < .05:
            ops.insert(rng.randrange(len(ops)), ['P', rng.randbytes(rng.choice([4000, 65000, 262100 - 64])).hex()])
        return ops + [['D'], ['G'], ['Z']]
    campaign(c, mixed_defs(['data'], 40), hist, 150, nontrivial=lambda pk, o: sum(x[0] in 'PUTB' for x in o) > 1, **tier_args(c))
    return c.finish()

# ------------------------------------------------------------------ P17 user-defined bit fields
def p17():
    c = Check('P17', 'a history of writes to user-defined subfields of a stream ID, trailer or discrete I/O word, with at least two different subfields written',
              assumptions=[MODEL_NOTE, 'subfields are packed from the least significant bit (stream ID, discrete I/O) or from bit 8 (trailer) in definition order'])
    def defs(rng, r):
        out = []
        for i in range(40):
            k = ['context', 'data', 'control', 'data', 'extcontext'][i % 5]
            n = {0: 1, 1: 0, 2: 0}
            d = pkgen.gen_def(rng, 'Pk%d' % i, k, n=n, **({'action': 'execute'} if k == 'control' else {}))
            if rng.random() < .7:
                d['sid'] = pkgen.gen_subs(rng, 'sid')
            if k == 'data':
                d['trailer'] = pkgen.gen_subs(rng, 'trailer')
            else:
                for w in ('32', '64'):
                    if rng.random() < .8:
                        d['fields'].append(dict(name='discrete_io_' + w, mode=rng.choice(['required', 'optional']), sub={'io': pkgen.gen_subs(rng, 'io' + w)}))
            out.append(d)
        return out
    def hist(rng, pk):
        ops = [pkgen.rand_op(rng, pk, ['B', 'B', 'B', 'B', 'A', 'T', 'R', 'D', 'G', 'U', 'C']) for _ in range(rng.choice([3, 8, 16, 30]))]
        return ops + [['G'], ['D'], ['G']]
    campaign(c, defs, hist, 150, nontrivial=lambda pk, o: len({x[1] for x in o if x[0] == 'B'}) > 1, **tier_args(c))
    return c.finish()

# ------------------------------------------------------------------ P22 value semantics
def p22():
    c = Check('P22', 'a history in which two packet objects related by copy, assignment or move are both modified and inspected', assumptions=[MODEL_NOTE])
    def hist(rng, pk):
        ops = []
        for _ in range(rng.choice([6, 12, 24])):
            x = rng.random()
            if x < .3:
                ops.append([rng.choice(['K', 'I', 'E', 'V', 'I', 'K'])])
            elif x < .45:
                ops.append([rng.choice(['D', 'G', 'C', 'M', 'W'])])
            else:
                ops.append(pkgen.rand_op(rng, pk, ['H', 'F', 'F', 'A', 'R', 'RC', 'B', 'P', 'T', 'U']))
        return ops + [['D'], ['G'], ['I'], ['D'], ['G']]
    campaign(c, mixed_defs(['context', 'control', 'data', 'extcontext', 'extcontrol'], 36), hist, 120,
             nontrivial=lambda pk, o: {'K', 'I'} <= {x[0] for x in o}, **tier_args(c))
    return c.finish()

# ------------------------------------------------------------------ P23 indicator-only control packets
def p23():
    c = Check('P23', 'a history that switches at least two field indicators of a no-action control packet', assumptions=[MODEL_NOTE])
    def hist(rng, pk):
        ops = [pkgen.rand_op(rng, pk, ['F', 'F', 'F', 'R', 'RC', 'H', 'D', 'G', 'U', 'C', 'Z']) for _ in range(rng.choice([4, 9, 18, 30]))]
        return ops + [['D'], ['G'], ['Z']]
    campaign(c, mixed_defs(['control'], 32, action='none'), hist, 150, nontrivial=lambda pk, o: len({x[1] for x in o if x[0] == 'S'}) > 1, **tier_args(c))
    return c.finish()

# ------------------------------------------------------------------ P18, P19 acknowledgements
def ack_defs(variant, n):
    def f(rng, r):
        out = []
        for i in range(n):
            size = rng.choice([{0: 3, 1: 2, 2: 2}, {0: 0, 1: 3, 2: 0}, {0: 5, 1: 0, 2: 1}, {0: 1, 1: 0, 2: 3}, {0: 7, 1: 6, 2: 4}, {0: 2, 1: 4, 2: 0}])
            out.append(pkgen.gen_ack(rng, 'Ak%d' % i, variant, rng.choice(['control', 'control', 'extcontrol']), n=size))
        return out
    return f

def p18():
    c = Check('P18', 'a history of a validation/execution acknowledgement in which at least one warning or error is recorded and one more is recorded, reset or parsed', assumptions=[MODEL_NOTE])
    def hist(rng, pk):
        ops = [pkgen.rand_op(rng, pk, ['H', 'F', 'F', 'F', 'A', 'R', 'RC', 'D', 'G', 'U', 'C', 'Z', 'M']) for _ in range(rng.choice([2, 5, 9, 18]))]
        return ops + [['D'], ['G'], ['Z']]
    campaign(c, ack_defs('VX', 36), hist, 150, nontrivial=lambda pk, o: sum(x[0] in ('S', 'A', 'U', 'R', 'RC') and (x[0] in ('U', 'RC') or x[1] in pk.by) for x in o) > 1, **tier_args(c))
    return c.finish()

def p19():
    c = Check('P19', 'a history of a state (query) acknowledgement in which at least two field or header operations and a serialization happen', assumptions=[MODEL_NOTE])
    def hist(rng, pk):
        ops = [pkgen.rand_op(rng, pk, ['H', 'F', 'F', 'A', 'R', 'RC', 'B', 'D', 'G', 'U', 'C', 'Z', 'M']) for _ in range(rng.choice([2, 5, 9, 18]))]
        return ops + [['D'], ['G'], ['Z']]
    campaign(c, ack_defs('S', 36), hist, 120, nontrivial=lambda pk, o: sum(x[0] in ('S', 'A', 'U', 'R', 'RC', 'B') for x in o) > 1, **tier_args(c))
    return c.finish()

# ------------------------------------------------------------------ P15 classification
MASK_TYPE = 0xF0000000
def header_mask(pk):
    if isinstance(pk, pkmodel.Ack):
        pk = pk.control
    m = MASK_TYPE | 1 << 27 | {'data': 7, 'context': 3, 'extcontext': 3, 'control': 5, 'extcontrol': 5}[pk.kind] << 24
    if pk.ctx and pk.d.get('tsm') == 'any':
        m &= ~(1 << 24)
    if pk.ts.get('int') != 'any':
        m |= 3 << 22
    if pk.ts.get('frac') != 'any':
        m |= 3 << 20
    return m

def layout(pk):
    """byte offsets of the prologue parts"""
    o, pos = {}, 4
    for name, there, n in (('sid', pk.sid is not None, 4), ('cls', bool(pk.cls), 8), ('int', 'int' in pk.ts, 4), ('frac', 'frac' in pk.ts, 8),
                           ('cam', pk.cmd, 4), ('mid', pk.cmd, 4), ('cee', bool(pk.cee), {'word': 4, 'uuid': 16}.get(pk.cee, 0)), ('cer', bool(pk.cer), {'word': 4, 'uuid': 16}.get(pk.cer, 0))):
        if there:
            o[name] = pos
            pos += n
    o['end'] = pos
    return o

def cam_masks(pk):
    """(bits the definition fixes, bits the definition leaves to the user)"""
    fixed, free = 3 << 23, 7 << 12
    for k, b in ((pk.cee, 31), (pk.cer, 29)):
        if k:
            fixed |= 3 << (b - 1)
    for k, b in pkmodel.CAMBIT.items():
        v = pk.cam.get(k)
        if v in (True, 'required'):
            fixed |= 1 << b
        elif v == 'optional':
            free |= 1 << b
    if isinstance(pk, pkmodel.Ack):
        fixed = fixed & ~(0x1FF << 16) | 3 << 23
        free = free & ~(0x1FF << 16) | 1 << 11 | 1 << 10
        for k in pkmodel.CAMBIT:
            if k.startswith('permit'):
                b = 1 << pkmodel.CAMBIT[k]
                free &= ~b
                fixed &= ~b
                if pk.cam.get(k) in (True, 'required'):
                    fixed |= b
        free |= 3 << 16                    # warnings and errors present
    return fixed, free

def accepts(pk, b):
    """Does the definition's identification agree with these bytes?"""
    own = pk.encode(pk.initial())
    w = lambda x, p: int.from_bytes(x[p:p + 4], 'big')
    m = header_mask(pk)
    if (w(own, 0) ^ w(b, 0)) & m:
        return False
    lo = layout(pk)
    if pk.cls:
        p = lo['cls']
        if (w(own, p) ^ w(b, p)) & 0xFFFFFF or own[p + 6:p + 8] != b[p + 6:p + 8]:
            return False
        if not pk.shared and own[p + 4:p + 6] != b[p + 4:p + 6]:
            return False
    if pk.cmd and (w(own, lo['cam']) ^ w(b, lo['cam'])) & cam_masks(pk)[0]:
        return False
    if isinstance(pk, pkmodel.Ack) and not w(b, lo['cam']) & (3 << 19 if pk.variant == 'VX' else 1 << 18):
        return False
    return True

def relatives(rng, d, n):
    """Definitions that differ from d in one identifying trait (or only in content)."""
    out = [copy.deepcopy(d)]
    for _ in range(n - 1):
        x = copy.deepcopy(rng.choice(out))
        for _ in range(rng.choice([1, 1, 2])):
            t = rng.choice(['cls', 'ic', 'pc', 'oui', 'int', 'frac', 'kind', 'act', 'cee', 'cer', 'cambit', 'sid', 'trailer', 'spec', 'tsm', 'fields'])
            if t == 'cls':
                if 'cls' in x: x.pop('cls')
                else: x['cls'] = {'oui': 'FF-FE-FD'}
            elif t in ('ic', 'pc') and 'cls' in x:
                v = pkmodel.num(x['cls'].get(t, 0))
                x['cls'][t] = rng.choice([v ^ (1 << rng.randrange(16)), rng.randrange(1, 65536)])
            elif t == 'oui' and 'cls' in x:
                v = int(str(x['cls'].get('oui', '00-00-00')).replace('-', ''), 16) ^ (1 << rng.randrange(24))
                if 0 < v <= 0xFFFFFF:
                    x['cls']['oui'] = '%02X-%02X-%02X' % (v >> 16, v >> 8 & 255, v & 255)
            elif t == 'int':
                x.setdefault('ts', {})['int'] = rng.choice(['utc', 'gps', 'other'])
            elif t == 'frac':
                x.setdefault('ts', {})['frac'] = rng.choice(['samples', 'picoseconds', 'free-running'])
            elif t == 'kind':
                x['kind'] = {'context': 'extcontext', 'extcontext': 'context'}.get(x['kind'], x['kind'])
            elif t == 'act' and x.get('cam') and x['cam']['action_mode'] != 'none':
                x['cam']['action_mode'] = {'dry-run': 'execute', 'execute': 'dry-run'}[x['cam']['action_mode']]
            elif t in ('cee', 'cer') and x.get('cam'):
                x[t] = rng.choice(['word', 'uuid'])
            elif t == 'cambit' and x.get('cam') and x['cam']['action_mode'] != 'none':
                am = x['cam'].pop('action_mode')
                x['cam'][rng.choice(list(pkmodel.CAMBIT))] = rng.choice([True, 'optional', False])
                x['cam']['action_mode'] = am
            elif t == 'sid' and x['kind'] == 'data':
                if 'sid' in x: x.pop('sid')
                else: x['sid'] = 'plain'
            elif t == 'trailer' and x['kind'] == 'data':
                x['trailer'] = rng.choice(['fixed', 'sample_frame', 'sample_frame_optional', None])
                if x['trailer'] is None: x.pop('trailer')
            elif t == 'spec' and x['kind'] == 'data':
                x['spectrum_or_time'] = rng.choice(['spectrum', 'time'])
            elif t == 'tsm' and x['kind'] in ('context', 'extcontext'):
                x['tsm'] = rng.choice(['fine', 'coarse', 'any'])
            elif t == 'fields' and x.get('fields') and x['kind'] != 'data':
                x['fields'] = x['fields'][:-1]
        out.append(x)
    return out

def match_offers(c, pks, built, r, per=40):
    """Every class is offered its own packets, these with one bit changed, and those of its neighbours."""
    def go(i):
        """offers to class i"""
        pk = pks[i]
        rng = common.random.Random('%s%d%d' % (c.pid, SEED * 1000 + r, i))
        lines, want, what = [], [], []
        lo = layout(pk)
        any_ = [k for k in ('int', 'frac') if pk.ts.get(k) == 'any']
        def offer(b, expect, w):
            lines.append('%d X %s' % (i, b.hex())); want.append(expect); what.append(w)
        def state(p):
            st = pkgen.rand_state(rng, p)
            if isinstance(p, pkmodel.Ack) and p.variant == 'VX':
                st['cambits'].update(rng.choice([dict(ack_v=True), dict(ack_x=True), dict(ack_v=True, ack_x=True)]))
            for k, n in (('int', 'tsi'), ('frac', 'tsf')):
                if p.ts.get(k) == 'any':
                    st[n] = rng.randrange(1, 4)
            return st
        for _ in range(per):
            b = pk.encode(state(pk))
            offer(b, True, 'its own packet')
            # bits that identify
            bits = [('header', k) for k in range(32) if header_mask(pk) >> k & 1]
            if pk.cls:
                bits += [('cls', k) for k in range(24)] + [('cls2', k) for k in range(32)]
            if pk.cmd:
                bits += [('cam', k) for k in range(32) if cam_masks(pk)[0] >> k & 1]
            free = [('header', k) for k in list(range(16, 20))]
            if pk.sid is not None:
                free += [('sid', k) for k in range(32)]
            if pk.cls:
                free += [('cls', k) for k in range(27, 32)]
            if 'int' in pk.ts:
                free += [('int', k) for k in range(32)]
            if 'frac' in pk.ts:
                free += [('frac', k) for k in range(32)]
            if pk.cmd:
                free += [('cam', k) for k in range(32) if cam_masks(pk)[1] >> k & 1] + [('mid', k) for k in range(32)]
            for part, k in rng.sample(bits, min(6, len(bits))) + rng.sample(free, min(6, len(free))):
                p = 0 if part == 'header' else lo['cls'] + 4 if part == 'cls2' else lo[part]
                v = int.from_bytes(b[p:p + 4], 'big') ^ (1 << k)
                m = b[:p] + v.to_bytes(4, 'big') + b[p + 4:]
                e = accepts(pk, m)
                offer(m, e, '%s bit %d flipped (%s)' % (part, k, 'identifying' if (part, k) in bits else 'free'))
        for j in range(len(pks)):
            if j == i:
                continue
            for _ in range(2):
                b = pks[j].encode(state(pks[j]))
                b += bytes(64 if len(b) < 80 else 0)
                offer(b, accepts(pk, b), 'a packet of ' + pks[j].name)
        out, rc, err = built.run_once(lines)
        bad = None
        for l, e, w, o in zip(lines, want, what, out):
            if o.startswith('yes') != e:
                bad = (l, e, w, o); break
        if bad is None and len(out) < len(lines):
            bad = (lines[len(out)], want[len(out)], what[len(out)], 'stopped: ' + sanitizer(err))
        return len(lines), sum(want), bad, [(w, e) for w, e in zip(what, want)][:40:7]
    yes = 0
    for i, (res, err) in zip(built.ok, common.pmap(go, built.ok)):
        if err:
            raise err
        n, y, bad, smp = res
        c.evals += n
        c.nontrivial_extra += n - per
        yes += y
        if i % 9 == 0:
            c.sample('%s: %s' % (pks[i].yaml().replace('\n', ' / ')[:200], smp))
        if bad and len(c.violations) < 3:
            l, e, w, o = bad
            c.violation('%s offered %s: match must %s, says: %s\n%s' % (pks[i].name, w, 'accept' if e else 'reject', o, pks[i].yaml()),
                        dict(definition=pks[i].d, yaml=pks[i].yaml(), offered=l.split()[-1], expected='accept' if e else 'reject', got=o,
                             how='python3 tools/replay.py <this file>'))
    c.extra['accepted offers'] = c.extra.get('accepted offers', 0) + yes

def p15():
    c = Check('P15', 'a packet offered to the class it was built by, to a class of a neighbouring definition, or with one identifying or free bit flipped',
              assumptions=[MODEL_NOTE, 'offered bytes are complete packets whose prologue is at least as long as the one the class expects'])
    def families():
        defs = []
        for fam in range(6):
            kind = ['context', 'control', 'data', 'extcontrol', 'control', 'extcontext'][fam]
            while True:
                d = pkgen.gen_def(c.rng, 'X', kind, **({} if kind == 'data' else dict(n={0: 2, 1: 1, 2: 0})),
                                  **({'action': c.rng.choice(['execute', 'dry-run', 'execute', 'none'])} if 'control' in kind else {}))
                if d.get('cls') or d.get('ts'):
                    break
            defs += relatives(c.rng, d, 7)
        return defs
    return classify(c, families)

def p20():
    c = Check('P20', 'an acknowledgement offered to its own class, to the class of the other acknowledgement of the same control packet, to those of neighbouring control packets, or with one bit flipped',
              assumptions=[MODEL_NOTE, 'offered bytes are complete packets whose prologue is at least as long as the one the class expects'])
    def families():
        defs = []
        for fam in range(6):
            kind = ['control', 'extcontrol', 'control'][fam % 3]
            base = pkgen.gen_ack(c.rng, 'X', 'VX', kind, n={0: 2, 1: 1, 2: 0})['control']
            for d in relatives(c.rng, base, 4):
                for variant in ('VX', 'S'):
                    x = copy.deepcopy(d)
                    cam = x['cam']
                    am = cam.pop('action_mode')
                    if variant == 'VX' and not (cam.get('req_v') or cam.get('req_x')):
                        cam['req_v'] = True
                    if not cam.get('req_s'):
                        cam['req_s'] = True
                    cam['action_mode'] = am
                    if fam % 2 == 0 or variant == 'VX':
                        defs.append(dict(kind='ack', variant=variant, ext=x['kind'] == 'extcontrol', control=x))
            defs.append(c.rng.choice(relatives(c.rng, base, 3)))          # a control packet
        return defs
    return classify(c, families)

def classify(c, families):
    until = c.t0 + 600 if thorough() else None
    r = 0
    while True:
        defs = families()
        for i, d in enumerate(defs):
            d['name'] = 'Pk%d' % i
            if d['kind'] == 'ack':
                d['control']['name'] = 'Pk%dCmd' % i
        pks = [pkmodel.make(d) for d in defs]
        built = pkdrv.Built(pks)
        build_failures(c, built)
        match_offers(c, pks, built, r)
        c.extra['packet classes'] = c.extra.get('packet classes', 0) + len(built.ok)
        built.clean()
        r += 1
        if c.violations or until is None or time.time() > until:
            break
    return c.finish()

# ------------------------------------------------------------------ P33 packets of several information classes
def tail_of(group):
    """The information classes of a file: codes in order of their first appearance."""
    codes = []
    for p in group:
        codes += [k for k in p.icodes if k not in codes]
    # a packet gets the code of the class that lists it first: keep the order every packet asks for
    o = []
    for n, k in enumerate(sorted(codes, key=lambda k: group[0].d['order'].index(k))):
        o.append('Info%d : !InformationClass\n  code : %d\n  packet_classes :' % (n, k))
        o += ['    - ' + p.name for p in group if k in p.icodes]
    return '\n' + '\n'.join(o) + '\n'

def p33():
    c = Check('P33', 'a history or an offered packet of a class that one or several information classes list',
              assumptions=[MODEL_NOTE, 'every packet of a file is listed by one of its information classes, no two of which have one code'])
    until = c.t0 + 600 if thorough() else None
    r = 0
    while True:
        defs = []
        for f in range(5):
            codes = c.rng.sample([1, 2, 7, 255, 256, 0x1234, 0xFFFE, 0xFFFF], c.rng.choice([1, 2, 2, 3, 4]))
            for i in range(6):
                d = pkgen.gen_def(c.rng, 'Pk%d' % (f * 6 + i), c.rng.choice(['context', 'context', 'data', 'extcontext', 'data', 'control']), n={0: 2, 1: 1, 2: 1})
                if c.rng.random() < .85:
                    d.setdefault('cls', {'oui': 'FF-FE-FD'})
                d['icodes'] = sorted(c.rng.sample(codes, c.rng.choice([1, len(codes), c.rng.randint(1, len(codes))])), key=codes.index)
                d['order'] = codes
                defs.append(d)
        pks = [pkmodel.make(d) for d in defs]
        built = pkdrv.Built(pks, per_yaml=6, tail=tail_of)
        build_failures(c, built)
        def hist(pk):
            o = []
            for _ in range(c.rng.choice([1, 3, 8])):
                o.append(pkgen.rand_op(c.rng, pk, ['H', 'H', 'F', 'B', 'P', 'T', 'U']))
                if pk.shared and c.rng.random() < .6:
                    o.append(['S', 'information_code', '%04x' % c.rng.choice(pk.icodes + [0, 0xFFFF])])
                if c.rng.random() < .5:
                    o.append(c.rng.choice([['D'], ['G']]))
            return o + [['D'], ['G']]
        jobs = [(i, [hist(pks[i]) for _ in range(30)]) for i in built.ok]
        for (i, hs), (f, err) in zip(jobs, common.pmap(lambda j: run_batch(built, *j), jobs)):
            if err:
                raise err
            for ops in hs:
                c.case((json.dumps(pks[i].d, sort_keys=True, default=str), [o[:2] for o in ops], str(ops)[:300]) if pks[i].cls else None)
            if f and len(c.violations) < 3:
                report(c, built, f, extra='listed by the information classes %s: ' % pks[f.i].icodes)
        if not c.violations:
            match_offers(c, pks, built, r, per=15)
        c.extra['packets of several information classes'] = c.extra.get('packets of several information classes', 0) + sum(p.shared for p in pks)
        built.clean()
        r += 1
        if c.violations or until is None or time.time() > until:
            break
    c.extra['rounds'] = r
    return c.finish()
