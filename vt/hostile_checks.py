"""P50: bytes from the network, whatever they are, are matched and parsed without touching memory
outside them."""
import json, subprocess, time
from . import common, pkgen, pkdrv, pkmodel
from .common import Check, thorough, ddmin
from .pk_checks import MODEL_NOTE, VARLEN, sanitizer, build_failures, layout

def words(b):
    """the packet with a header that announces its own length"""
    return b[:2] + (len(b) // 4 & 0xFFFF).to_bytes(2, 'big') + b[4:]

def hostile_defs(rng, n):
    out = []
    for i in range(n):
        k = ['context', 'data', 'control', 'context', 'ackVX', 'context', 'ackS', 'data', 'extcontext', 'control'][i % 10]
        if k[:3] == 'ack':
            d = pkgen.gen_ack(rng, 'Pk%d' % i, k[3:], 'control', n={0: rng.randrange(5), 1: rng.randrange(4), 2: rng.randrange(3)})
            fs = d['control'].get('fields', [])
        else:
            d = pkgen.gen_def(rng, 'Pk%d' % i, k)
            fs = d.get('fields', [])
        plainctl = k == 'control' and d['cam']['action_mode'] == 'none'
        if k not in ('data', 'extcontext', 'ackVX') and not plainctl:
            have = {f['name'] for f in fs}
            for v in VARLEN:
                if v not in have and rng.random() < .5:
                    f = dict(name=v, mode=rng.choice(['required', 'optional']))
                    if v == 'index_list':
                        f.update(mode='required', sub={'entry_size': rng.choice([8, 16, 32])})
                    fs.append(f)
        out.append(d)
    return out

def mutate(rng, pk, b, other):
    """(bytes, what was done)"""
    lo = layout(pk.control if isinstance(pk, pkmodel.Ack) else pk)
    b = bytearray(b)
    done = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(['flip', 'flip', 'bit', 'cut', 'cutfit', 'size', 'count', 'count', 'indicator', 'indicator', 'grow', 'growfit', 'splice', 'noise', 'drop', 'head'])
        if k in ('flip', 'bit') and b:
            for _ in range(1 if k == 'bit' else rng.choice([1, 2, 8])):
                p = rng.randrange(len(b)) if rng.random() < .5 else rng.randrange(min(len(b), lo['end'] + 16))
                b[p] ^= 1 << rng.randrange(8)
        elif k in ('cut', 'cutfit') and b:
            n = rng.choice([rng.randrange(len(b)), rng.randrange(len(b)), len(b) - rng.randrange(1, 5)])
            b = b[:max(0, n) // 4 * 4 if k == 'cutfit' else max(0, n)]
            if k == 'cutfit' and len(b) > 4:
                b = bytearray(words(bytes(b)))
        elif k == 'size' and len(b) >= 4:
            n = len(b) // 4
            b[2:4] = (rng.choice([0, 1, 2, n - 1, n + 1, n // 2, 0xFFFF, rng.randrange(65536), rng.randrange(n + 2)]) & 0xFFFF).to_bytes(2, 'big')
        elif k == 'count' and len(b) > lo['end'] + 8:
            p = rng.randrange(lo['end'], len(b) - 3) // 4 * 4
            b[p:p + 4] = rng.choice([b'\xff\xff\xff\xff', b'\x7f\xff\xff\xff', b'\0\0\x80\0', b'\x00\x0f\xff\xff', b'\0\0\0\x7f', b'\0\0\0\1', b'\x40\0\0\0',
                                     (len(b) // 4).to_bytes(4, 'big'), rng.randbytes(4)])
        elif k == 'indicator' and len(b) > lo['end'] + 4:
            p = lo['end'] + 4 * rng.choice([0, 0, 0, 1, 2, 3])
            v = int.from_bytes(b[p:p + 4], 'big')
            b[p:p + 4] = rng.choice([v | 0xE, v | 2, v | 4, v | 8, v ^ (1 << rng.randrange(32)), 0xFFFFFFFF, v | rng.getrandbits(32), v & ~0xE, 0]).to_bytes(4, 'big')
        elif k == 'grow':
            b += rng.randbytes(rng.choice([1, 2, 3, 4, 8, 40, 200]))
        elif k == 'growfit':
            b += rng.randbytes(4 * rng.randrange(1, 30))
            b = bytearray(words(bytes(b)))
        elif k == 'splice':
            p = rng.randrange(len(b) + 1)
            b = b[:p] + other[p:]
        elif k == 'noise':
            b = b[:lo['end']] + rng.randbytes(rng.choice([0, 3, 4, 8, 16, 64]))
        elif k == 'drop' and len(b) > 8:
            p = rng.randrange(len(b) // 4) * 4
            b = b[:p] + b[p + 4 * rng.choice([1, 1, 2, 4]):]
        elif k == 'head' and len(b) >= 4:
            b[0] = rng.randrange(256)
        done.append(k)
    return bytes(b), '+'.join(done)

AFTER = [[['G'], ['D'], ['Z']], [['D'], ['G']], [['Z'], ['C'], ['D'], ['G']], [['K'], ['I'], ['G'], ['D']]]

def offer_lines(i, case):
    b, ops = case
    return ['%d X %s' % (i, b.hex() or '.'), '%d N' % i, '%d U %s' % (i, b.hex() or '.')] + [pkdrv.op_line(i, o) for o in ops]

def announced(b):
    return 4 * int.from_bytes(b[2:4], 'big')

def judge(b, valid, ans):
    """'' or what is wrong with the answers to the offer of b"""
    m, _, u = ans[:3]
    if m != 'yes' and not m.startswith('no '):
        return 'match answers %r' % m
    if u != 'ok' and not u.startswith('EXC '):
        return 'parsing answers %r' % u
    if valid:
        if u != 'ok':
            return 'a well-formed packet is refused: ' + u
    elif (len(b) < 4 or len(b) < announced(b)) and u == 'ok':
        return 'a packet that announces %d bytes is parsed although %d were received' % (announced(b) if len(b) >= 4 else 4, len(b))
    for o in ans[3:]:
        if o.startswith('EXC '):
            return 'an operation on the %s packet fails: %s' % ('parsed' if u == 'ok' else 'fresh', o)
    return ''

def run_offers(built, i, cases, timeout=120):
    """None or (index of the case, what is wrong)"""
    lines, where = [], []
    for k, (b, what, ops) in enumerate(cases):
        l = offer_lines(i, (b, ops))
        where += [k] * len(l)
        lines += l
    try:
        out, rc, err = built.run_once(lines, timeout)
    except subprocess.TimeoutExpired:
        return 0, 'no answer within %d s' % timeout, None
    at = 0
    stats = [0, 0]
    for k, (b, what, ops) in enumerate(cases):
        n = 3 + len(ops)
        if at + n > len(out):
            return k, 'the program stopped (exit %s): %s' % (rc, sanitizer(err)), stats
        w = judge(b, what == 'valid', out[at:at + n])
        if w:
            return k, w, stats
        stats[out[at + 2] == 'ok'] += 1
        at += n
    return None, '', stats

def p50():
    c = Check('P50', 'mutated bytes (not a valid packet any more, or cut, or with lengths that disagree) offered to match and to the parsing constructor of a generated class, whose object is used further when parsing succeeds; distinct by bytes',
              assumptions=[MODEL_NOTE, 'memory accesses are judged by AddressSanitizer and UndefinedBehaviorSanitizer on heap copies of exactly the offered length'])
    until = c.t0 + 12 * 60 if thorough() else None
    r = 0
    kinds = {}
    while True:
        pks = [pkmodel.make(d) for d in hostile_defs(c.rng, 40)]
        built = pkdrv.Built(pks)
        build_failures(c, built)
        jobs = []
        seeds = {i: [pks[i].encode(pkgen.rand_state(c.rng, pks[i])) for _ in range(30)] for i in built.ok}
        for i in built.ok:
            cases = []
            rng = c.rng
            for n in range(700):
                b = rng.choice(seeds[i])
                j = rng.choice(built.ok)
                if n % 14 == 0:
                    what = 'valid'
                else:
                    b, what = mutate(rng, pks[i], b, rng.choice(seeds[rng.choice([i, j])]))
                ops = list(rng.choice(AFTER))
                if rng.random() < .5:
                    ops = [pkgen.rand_op(rng, pks[i], ['F', 'R', 'A', 'B', 'P', 'T', 'H', 'RC']) for _ in range(rng.choice([1, 3, 6]))] + ops
                cases.append((b, what, ops))
            jobs.append((i, cases))
        for (i, cases), (res, err) in zip(jobs, common.pmap(lambda j: run_offers(built, *j), jobs)):
            if err:
                raise err
            k, why, stats = res
            for b, what, ops in cases:
                c.case((i, r, b) if what != 'valid' else None)
                for x in what.split('+'):
                    kinds[x] = kinds.get(x, 0) + 1
            if stats:
                c.extra['refused'] = c.extra.get('refused', 0) + stats[0]
                c.extra['parsed'] = c.extra.get('parsed', 0) + stats[1]
            c.sample('%s | %s: %s' % (pks[i].yaml().replace('\n', ' / ')[:200], cases[1][1], cases[1][0].hex()[:160]))
            if k is None or len(c.violations) >= 3:
                continue
            b, what, ops = cases[k]
            t0 = time.time()
            def fails(os, bb):
                return time.time() - t0 < 60 and run_offers(built, i, [(bytes(bb), what, list(os))], 30)[0] is not None
            if fails(ops, b):
                ops = ddmin(ops, lambda o: fails(o, b))
                if what != 'valid':
                    seen = set()
                    for n in sorted({0, 2, 4, 8, len(b) // 2, len(b) - 4, len(b) - 1, len(b) - 8}):     # a shorter packet
                        if 0 <= n < len(b) and fails(ops, b[:n]):
                            b = b[:n]
                            break
                why = run_offers(built, i, [(b, what, ops)], 30)[1] or why
            c.violation('%s offered %s (%s): %s\n%s\nthen: %s' % (pks[i].name, b.hex(), what, why, pks[i].yaml(), '; '.join(' '.join(map(str, o)) for o in ops)),
                        dict(definition=pks[i].d, yaml=pks[i].yaml(), lines=offer_lines(0, (b, ops)), why=why, how='python3 tools/replay.py <this file>'))
        c.extra['packet classes'] = c.extra.get('packet classes', 0) + len(built.ok)
        c.extra['mutations'] = kinds
        built.clean()
        r += 1
        if c.violations or until is None or time.time() > until:
            break
    c.extra['rounds'] = r
    return c.finish()
