"""Random packet definitions and random operation histories."""
from .pkspec import FIELDS, ORDER, CIF7_ATTRS
from .pkmodel import Pk, Ack, rand_value, rand_struct, STRUCT_TRAILER, to_json

NO_TYPE = set()
USABLE = {c: [f.name for f in ORDER[c] if f.name not in ('sector_step_scan',)] for c in (0, 1, 2)}

def ident(rng, i):
    # few names: the packets of one file often define different things under the same name
    return rng.choice(['alpha', 'mode', 'level', 'lock', 'gate']) + '_%d' % i

def labels(rng, n):
    return ['%s_v%d' % (rng.choice(['red', 'low', 'open', 'idle', 'LSB', 'Fast']), k) for k in range(n)]

def gen_subs(rng, kind):
    """user-defined subfields: kind io32/io64/sid/trailer"""
    out, i = [], 0
    if kind == 'sid':
        left = 32
        while left and len(out) < 6 and (not out or rng.random() < .8):
            b = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 20, 24, 31, 32])
            b = min(b, left)
            out.append([ident(rng, i), b]); i += 1; left -= b
        return out
    if kind == 'trailer':
        left = 12
        while left and len(out) < 6 and (not out or rng.random() < .75):
            if rng.random() < .5:
                out.append([rng.choice(['user_defined_%d', 'ch_user_defined_%d']) % i, 'enable_indicator']); left -= 1
            else:
                n = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 13])
                w = max(1, (n - 1).bit_length())
                if w > left:
                    continue
                out.append(['user_defined_%d' % i, labels(rng, n)]); left -= w
            i += 1
        return out
    left, enums = 32 if kind == 'io32' else 64, 0
    while left and len(out) < 8 and (not out or rng.random() < .85):
        t = rng.choice(['bool', 'enable_indicator', 'int', 'int', 'enum'])
        if t == 'bool':
            w = 1
        elif t == 'enable_indicator':
            w = 2
        elif t == 'int':
            t = w = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 11, 15, 16, 17, 24, 31, 32] + ([33, 40, 63, 64] if kind == "io64" else []))
        else:
            n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12])
            w = (n + 1) // 2
            t = labels(rng, n)
        if w > left:
            if left < 3:
                break
            continue
        # an enumeration's name is used once in a packet: see the known finding of P10
        n = ident(rng, i + (20 if kind == 'io64' and isinstance(t, list) else 0))
        if isinstance(t, list) and not enums and rng.random() < .7:
            n = 'state' + kind[2:]
        enums += isinstance(t, list)
        out.append([n, t]); i += 1; left -= w
    return out

def gen_fields(rng, d, n, cifs=(0, 1, 2), modes=('required', 'optional'), skip=(), plain=False):
    names, fs = [], []
    for c in cifs:
        pool = [x for x in USABLE[c] if x not in skip]
        if c == 2 and d['kind'] in ('control', 'extcontrol'):
            pool = [x for x in pool if x not in ('controllee_id', 'controller_id')]
        k = n[c] if isinstance(n, dict) else n
        names += rng.sample(pool, min(len(pool), k))
    per_cif = {c: rng.choice(['mixed', 'mixed', 'optional', 'required']) for c in (0, 1, 2)}
    for x in names:
        c = FIELDS[x].cif
        m = per_cif[c] if per_cif[c] != 'mixed' else rng.choice(['required', 'optional', 'optional'])
        if m not in modes:
            m = modes[0]
        f = dict(name=x, mode=m)
        if x == 'index_list':
            f['mode'] = 'required'
            f['sub'] = {'entry_size': rng.choice([8, 16, 32])}
        elif x in ('discrete_io_32', 'discrete_io_64') and not plain and rng.random() < .6:
            f['sub'] = {'io': gen_subs(rng, 'io' + x[-2:])}
        elif x in ('reference_level', 'buffer_size') and not plain and rng.random() < .4:
            f['sub'] = {'difi': True}
        fs.append(f)
    rng.shuffle(fs)
    return fs

def gen_prologue(rng, d):
    if rng.random() < .7:
        d['cls'] = {}
        if rng.random() < .8:
            d['cls']['oui'] = rng.choice(['FF-FE-FD', '12-34-56', '00-00-01', 'A1-b2-C3', 'FF-FF-FF'])
        if rng.random() < .8:
            d['cls']['pc'] = rng.choice([1, 0x1234, 0xFFFF, 7])
        if rng.random() < .8:
            d['cls']['ic'] = rng.choice([1, 0xABCD, 0xFFFF, 9])
        if not d['cls']:
            d['cls']['oui'] = 'FF-FE-FD'
    if rng.random() < .7:
        d['ts'] = {}
        if rng.random() < .75:
            d['ts']['int'] = rng.choice(['utc', 'gps', 'other', 'any', 'utc'])
        if rng.random() < .75 or not d['ts']:
            d['ts']['frac'] = rng.choice(['samples', 'picoseconds', 'free-running', 'any', 'picoseconds'])
    if rng.random() < .25:
        d['sid'] = gen_subs(rng, 'sid')
    elif rng.random() < .35:
        d['sid'] = rng.choice([1, 0x12345678, 0xFFFFFFFF])
    elif d['kind'] != 'data' or rng.random() < .6:
        d['sid'] = 'plain'
    if rng.random() < .15 and d['kind'] != 'data':
        d.pop('sid', None)

def gen_def(rng, name, kind, n=None, **kw):
    d = dict(kind=kind, name=name)
    gen_prologue(rng, d)
    if kind == 'data':
        r = rng.random()
        if r < .25:
            d['trailer'] = 'fixed'
        elif r < .4:
            d['trailer'] = rng.choice(['sample_frame', 'sample_frame_optional'])
        elif r < .75:
            d['trailer'] = gen_subs(rng, 'trailer')
        if rng.random() < .5:
            d['spectrum_or_time'] = rng.choice(['spectrum', 'time'])
        return d
    if n is None:
        n = {0: rng.randrange(0, 8), 1: rng.choice([0, 0, 1, 2, 4, 6]), 2: rng.choice([0, 0, 1, 2, 4])}
    if kind in ('context', 'extcontext') and rng.random() < .6:
        d['tsm'] = rng.choice(['fine', 'coarse', 'any'])
    if kind in ('control', 'extcontrol'):
        cam = {}
        am = kw.pop('action', None) or rng.choice(['dry-run', 'execute', 'execute', 'none'])
        if am == 'none':
            cam['req_s'] = True
            for k in ('permit_partial', 'permit_warnings', 'permit_errors'):
                if rng.random() < .4:
                    cam[k] = rng.choice([True, 'required', 'optional', False])
        else:
            for k in ('permit_partial', 'permit_warnings', 'permit_errors', 'req_v', 'req_x', 'req_s', 'req_w', 'req_er'):
                if rng.random() < .5:
                    cam[k] = rng.choice([True, 'required', 'optional', False])
        cam['action_mode'] = am
        d['cam'] = cam
        for k in ('cee', 'cer'):
            if rng.random() < .6:
                d[k] = rng.choice(['word', 'uuid'])
        if kind == 'extcontrol':
            n = {0: 0, 1: 0, 2: 0}
    d['fields'] = gen_fields(rng, d, n, **kw)
    return d

def header_setters(pk):
    """Always-present settable attributes: (name, width in bytes, bits)"""
    o = [('packet_count', 1, 8)]
    if pk.sid is not None:
        o.append(('stream_id', 4, 32))
    if pk.cls:
        o.append(('pad_bits', 1, 8))
        if pk.shared:
            o.append(('information_code', 2, 16))
    if 'int' in pk.ts:
        o.append(('integer_timestamp', 4, 32))
        if pk.ts['int'] == 'any':
            o.append(('tsi', 1, 2))
    if 'frac' in pk.ts:
        o.append(('fractional_timestamp', 8, 64))
        if pk.ts['frac'] == 'any':
            o.append(('tsf', 1, 2))
    if pk.ctx and pk.d.get('tsm') == 'any':
        o.append(('tsm', 1, 1))
    if pk.cmd:
        o += [('timing_control', 1, 'tc'), ('message_id', 4, 32)]
        if isinstance(pk, Ack):
            o += [('partial_action', 1, 1), ('scheduled_or_executed', 1, 1)]
            o += [('ack' + k[3:], 1, 1) for k in ('req_v', 'req_x') if pk.variant == 'VX' and pk.cam.get(k)]
        else:
            o += [(k, 1, 1) for k in ('req_v', 'req_x', 'req_s') if pk.cam.get(k) == 'optional']
        if pk.cee:
            o.append(('controllee_id', 4 if pk.cee == 'word' else 16, 128))
        if pk.cer:
            o.append(('controller_id', 4 if pk.cer == 'word' else 16, 128))
    if pk.has_cif0 and not pk.enables and not (isinstance(pk, Ack) and pk.variant == 'VX'):
        o.append(('change_indicator', 1, 1))
    return o

def rand_attr(rng, n, w, bits):
    if bits == 'tc':
        v = rng.randrange(5)
    elif bits < 8 * w:
        v = rng.getrandbits(bits)
    else:
        v = rng.choice([rng.getrandbits(8 * w), rng.getrandbits(8 * w), (1 << 8 * w) - 1, 1, 0])
    return v.to_bytes(w, 'big').hex()

def sub_value(rng, s):
    if s.kind == 'enum':
        return rng.randrange(len(s.labels))
    return rng.choice([rng.getrandbits(s.bits), (1 << s.bits) - 1, 0])

def rand_payload(rng):
    return rng.randbytes(rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 12, rng.randrange(0, 40), rng.randrange(0, 300)]))

def rand_sid(rng, pk):
    return sum(sub_value(rng, s) << s.lsb for s in pk.subs if s.owner == 'stream_id').to_bytes(4, 'big')

def rand_trailer(rng, pk):
    if isinstance(pk.trailer, list):
        v = 0
        for s in pk.subs:
            if s.owner == 'trailer':
                v |= sub_value(rng, s) << s.lsb
                if rng.random() < .6:
                    v |= ((1 << s.bits) - 1) << s.en_lsb
        return v.to_bytes(4, 'big')
    return rand_struct(rng, STRUCT_TRAILER)

def rand_op(rng, pk, codes):
    """One random operation that this packet offers."""
    while True:
        c = rng.choice(codes)
        if c == 'H':
            n, w, b = rng.choice(header_setters(pk))
            if n == 'stream_id' and isinstance(pk.sid, list):
                return ['A', n, rand_sid(rng, pk).hex()]
            return ['S', n, rand_attr(rng, n, w, b)]
        if c == 'F' and pk.fields:
            f = rng.choice(pk.fields)
            if pk.enables:
                return ['S', f.name, '%02x' % rng.getrandbits(1)]
            return ['S', f.name, rand_value(rng, f).hex()]
        if c == 'A':
            fs = [f for f in pk.fields if not f.scalar and not (f.kind == 'io' and not f.subs)]
            if fs and not pk.enables:
                f = rng.choice(fs)
                return ['A', f.name, rand_value(rng, f).hex()]
            return ['D']
        if c == 'R':
            fs = [f for f in pk.fields if not f.required]
            if fs:
                return ['R', rng.choice(fs).name]
            return ['D']
        if c == 'RC':
            cs = list(pk.groups)
            return ['RC', rng.choice(cs)] if cs else ['D']
        if c == 'B':
            if pk.subs:
                s = rng.choice(pk.subs)
                if s.en_lsb is not None and rng.random() < .25:
                    return ['B', s.path, None]
                if s.kind == 'int' and s.bits > 1 and rng.random() < .2:
                    return ['B', s.path, rng.getrandbits(64)]      # only the bits that fit are transmitted
                return ['B', s.path, sub_value(rng, s)]
            return ['D']
        if c == 'P' and pk.kind == 'data':
            return ['P', rand_payload(rng).hex()]
        if c == 'T' and pk.trailer is not None:
            return ['A', 'trailer', rand_trailer(rng, pk).hex()]
        if c in ('D', 'G', 'Z', 'C', 'M', 'W'):
            return [c]
        if c == 'N' and rng.random() < .3:
            return ['N']
        if c == 'U':
            st = rand_state(rng, pk)
            return ['U', pk.encode(st).hex(), to_json(st)]
        codes = [x for x in codes if x != c] or ['D']

def rand_state(rng, pk, density=None):
    """A random legal packet content, not reached through the code under test."""
    st = pk.initial()
    for n, w, b in header_setters(pk):
        if rng.random() < .8:
            pk.apply(st, ['S', n, rand_attr(rng, n, w, b)])
    p = density if density is not None else rng.choice([0, .3, .5, .8, 1])
    for f in pk.fields:
        if pk.enables:
            st['f'][f.name] = rng.random() < p
        elif f.required or rng.random() < p:
            st['f'][f.name] = rand_value(rng, f)
    if pk.kind == 'data':
        st['payload'] = rand_payload(rng)
        if pk.trailer is not None:
            st['trailer'] = rand_trailer(rng, pk)
    if isinstance(pk.sid, list):
        st['sid'] = rand_sid(rng, pk)
    return st

def gen_ack(rng, name, variant, kind='control', n=None, **kw):
    """An acknowledgement class with its control packet."""
    d = gen_def(rng, name + 'Cmd', kind, n=n, action=kw.pop('action', None) or rng.choice(['execute', 'dry-run']), **kw)
    cam = d['cam']
    am = cam.pop('action_mode')
    if variant == 'S':
        cam['req_s'] = rng.choice([True, 'required', 'optional']) if am != 'none' else True
    else:
        for k in rng.choice([('req_v',), ('req_x',), ('req_v', 'req_x')]):
            cam[k] = rng.choice([True, 'required', 'optional'])
        for k in ('req_w', 'req_er'):
            cam[k] = rng.choice([True, True, 'required', False])
    cam['action_mode'] = am
    return dict(kind='ack', name=name, variant=variant, ext=kind == 'extcontrol', control=d)
