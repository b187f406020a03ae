"""Packet definitions as plain data, their YAML text, and the reference model of the packets the
generator must produce from them (layout, defaults, histories)."""
import json, random, re
from .pkspec import FIELDS, ORDER, STRUCTS, REF_LEVEL_DIFI, BUFFER_SIZE_DIFI, Fd, CIF7_ATTRS, CIF7_BIT

TYPE = dict(data=0, context=4, extcontext=5, control=6, extcontrol=7)
TAG = dict(data='!Data', context='!Context', extcontext='!ExtensionContext', control='!Control', extcontrol='!ExtensionControl')
TSI = {'none': 0, 'utc': 1, 'gps': 2, 'other': 3}
TSF = {'none': 0, 'samples': 1, 'picoseconds': 2, 'free-running': 3}
ACTION = {'none': 0, 'dry-run': 1, 'execute': 2}
CAMBIT = dict(permit_partial=27, permit_warnings=26, permit_errors=25, req_v=20, req_x=19, req_s=18, req_w=17, req_er=16)

def snake(name):
    """File name of a CamelCase packet name: every further capital starts a new word."""
    return name[0].lower() + ''.join('_' + ch.lower() if ch.isupper() else ch for ch in name[1:])

class Sub:
    """One user-defined subfield inside a word: bit numbers counted from the least significant."""
    def __init__(self, owner, name, lsb, bits, kind, labels=(), en_lsb=None, signed=False):
        self.owner, self.name, self.lsb, self.bits, self.kind = owner, name, lsb, bits, kind
        self.labels, self.en_lsb = labels, en_lsb
    @property
    def path(self):
        return self.owner + '.' + self.name

class Inst:
    """A field of one packet."""
    def __init__(self, name, required, sub=None):
        self.fd, self.name, self.required, self.sub = FIELDS[name], name, required, sub
        f = self.fd
        self.kind, self.bits, self.reserved, self.spec = f.kind, f.bits, f.reserved, f.spec
        self.subs = []
        if sub and sub.get('difi'):
            spec = REF_LEVEL_DIFI if name == 'reference_level' else BUFFER_SIZE_DIFI
            self.kind, self.spec, self.bits, self.reserved = 'struct', spec, spec.words * 32, 0
        elif sub and sub.get('io'):
            self.kind, self.bits = 'io', f.bits
            pos = 0
            for n, t in sub['io']:
                if t == 'bool':
                    self.subs.append(Sub(name, n, pos, 1, 'bool')); pos += 1
                elif t == 'enable_indicator':
                    self.subs.append(Sub(name, n, pos, 1, 'bool'))
                    self.subs.append(Sub(name, n + '_enable', pos + 1, 1, 'bool')); pos += 2
                elif isinstance(t, int):
                    self.subs.append(Sub(name, n, pos, t, 'int')); pos += t
                else:
                    w = (len(t) + 1) // 2
                    self.subs.append(Sub(name, n, pos, w, 'enum', t)); pos += w
            assert pos <= self.bits
    @property
    def scalar(self):
        return self.kind in ('fx', 'int', 'enum')
    @property
    def fixed_size(self):
        return self.kind != 'var'
    def wire(self, value):
        return bytes(self.reserved // 8) + value
    def default(self):
        """What a freshly constructed packet carries in this field when it is required."""
        if self.kind == 'struct':
            return self.spec.default
        if self.name == 'gps_ascii':
            return bytes(8)
        if self.name == 'context_association_lists':
            return bytes(8)
        if self.name == 'index_list':
            return bytes(8)
        return bytes(self.bits // 8)

SF = {'sample_frame': 'required', 'sample_frame_optional': 'optional'}

class Pk:
    def __init__(self, d):
        self.d = d
        self.kind, self.name = d['kind'], d['name']
        g = d.get
        self.cmd = self.kind in ('control', 'extcontrol')
        self.ctx = self.kind in ('context', 'extcontext')
        self.sid = g('sid') if g('sid') is not None else (None if self.kind == 'data' else 'plain')
        self.cls, self.ts, self.cam = g('cls'), g('ts') or {}, g('cam') or {}
        self.cee, self.cer = g('cee'), g('cer')
        self.icodes = g('icodes')       # codes of the information classes that list the packet, where there are any
        self.shared = bool(self.cls) and len(set(self.icodes or [])) > 1
        self.trailer = g('trailer')
        self.has_cif0 = self.ctx or self.kind == 'control' or bool(g('cif0'))
        self.cif7 = g('cif7') or []
        self.enables = self.cmd and self.cam.get('action_mode') == 'none'
        inst = {f['name']: Inst(f['name'], f['mode'] == 'required', f.get('sub')) for f in d.get('fields', [])}
        self.fields = [inst[f.name] for c in (0, 1, 2) for f in ORDER[c] if f.name in inst]
        self.by = inst
        self.cifs = sorted({f.fd.cif for f in self.fields} | ({0} if self.has_cif0 else set()))
        self.cif_optional = {c: not any(f.required for f in self.fields if f.fd.cif == c) for c in (1, 2)}
        self.subs = []
        if isinstance(self.sid, list):
            pos = 0
            for n, b in self.sid:
                self.subs.append(Sub('stream_id', n, pos, b, 'int')); pos += b
        if isinstance(self.trailer, list):
            pos = 8
            for n, t in self.trailer:
                if t == 'enable_indicator':
                    self.subs.append(Sub('trailer', n, pos, 1, 'bool', en_lsb=pos + 12)); pos += 1
                else:
                    w = max(1, (len(t) - 1).bit_length())
                    self.subs.append(Sub('trailer', n, pos, w, 'enum', t, en_lsb=pos + 12)); pos += w
            assert pos <= 20
        for f in self.fields:
            if not self.enables:
                self.subs += f.subs
        self.sub_by = {s.path: s for s in self.subs}
        # what one reset of a whole indicator word withdraws
        self.groups = {c: [f.name for f in self.fields if f.fd.cif == c] for c in (1, 2) if c in self.cifs and self.cif_optional[c]}

    @property
    def cls_name(self):
        return self.name
    @property
    def file(self):
        return snake(self.name)

    # ---------------------------------------------------------------- YAML
    def yaml(self):
        d, o = self.d, []
        o.append('%s : %s' % (self.name, TAG[self.kind]))
        if self.kind == 'data' and d.get('spectrum_or_time'):
            o.append('  spectrum_or_time : %s' % d['spectrum_or_time'])
        if d.get('tsm'):
            o.append('  tsm : %s' % d['tsm'])
        if d.get('sid') is not None:
            s = d['sid']
            if s == 'plain':
                o.append('  stream_id : !StreamID')
            elif isinstance(s, int):
                o.append('  stream_id : !StreamID 0x%X' % s)
            else:
                o.append('  stream_id : !StreamID')
                for n, b in s:
                    o.append('    %s : !IntegerType\n      bits : %d' % (n, b))
        if self.cls:
            o.append('  class_id : !ClassID')
            for k, kk in (('oui', 'oui'), ('pc', 'packet_code'), ('ic', 'information_code')):
                if k in self.cls:
                    v = self.cls[k]
                    o.append('    %s : %s' % (kk, v))
        if self.ts:
            o.append('  timestamp : !Timestamp')
            for k, kk in (('int', 'integer'), ('frac', 'fractional')):
                if k in self.ts:
                    o.append('    %s : %s' % (kk, self.ts[k]))
        if self.trailer is not None:
            o.append('  trailer : !Trailer')
            if isinstance(self.trailer, str) and self.trailer in SF:
                o.append('    sample_frame : ' + SF[self.trailer])
            elif isinstance(self.trailer, list):
                for n, t in self.trailer:
                    o.append('    %s : %s' % (n, t if isinstance(t, str) else '[' + ', '.join(t) + ']'))
        if self.cam:
            o.append('  cam : !ControlAcknowledgeMode')
            for k, v in self.cam.items():
                o.append('    %s : %s' % (k, str(v).lower() if isinstance(v, bool) else v))
        if self.cee:
            o.append('  controllee_id : ' + self.cee)
        if self.cer:
            o.append('  controller_id : ' + self.cer)
        for c in (0, 1, 2):
            fs = [f for f in self.d.get('fields', []) if FIELDS[f['name']].cif == c]
            if not fs and not (c == 0 and self.d.get('cif0')):
                continue
            o.append('  cif_%d : !CIF%d' % (c, c))
            for f in fs:
                o.append(self._yaml_field(f))
        if self.cif7:
            o.append('  cif_7 : !CIF7')
            for a in self.cif7:
                o.append('    %s : required' % a)
        return '\n'.join(o) + '\n'

    def _yaml_field(self, f):
        n, m, s = f['name'], f['mode'], f.get('sub') or {}
        p = '    %s : ' % n
        if s.get('difi'):
            return p + ('!DIFI1p2ReferenceLevel' if n == 'reference_level' else '!DIFI1p2BufferSize') + '\n      mode : ' + m
        if s.get('io'):
            o = [p + ('!DiscreteIO32' if n.endswith('32') else '!DiscreteIO64'), '      mode : ' + m]
            for a, t in s['io']:
                o.append('      %s : %s' % (a, '[' + ', '.join(t) + ']' if isinstance(t, list) else t))
            return '\n'.join(o)
        if n == 'index_list':
            return p + '!IndexList\n      entry_size : %s' % s['entry_size']
        return p + m

    # ---------------------------------------------------------------- state
    def initial(self):
        st = dict(count=0, sid=bytes(4), pad=0, its=0, fts=0, timing=0, cambits={}, mid=0, ci=0, payload=b'',
                  trailer=bytes(4), f={}, tsi=0, tsf=0, tsm=0,
                  icode=self.icodes[0] if self.icodes else num((self.cls or {}).get('ic', 0)))
        if isinstance(self.sid, int):
            st['sid'] = self.sid.to_bytes(4, 'big')
        for k in ('cee', 'cer'):
            v = getattr(self, k)
            st[k] = bytes({None: 0, 'word': 4, 'uuid': 16}[v])
        for f in self.fields:
            if self.enables:
                st['f'][f.name] = f.required
            else:
                st['f'][f.name] = f.default() if f.required else None
        return st

    def header_word(self, st, words):
        t = TYPE[self.kind]
        if self.kind == 'data' and self.sid is not None:
            t = 1
        w = t << 28 | (1 << 27 if self.cls else 0)
        tsi, tsf = self.ts.get('int', 'none'), self.ts.get('frac', 'none')
        w |= (st['tsi'] if tsi == 'any' else TSI[tsi]) << 22
        w |= (st['tsf'] if tsf == 'any' else TSF[tsf]) << 20
        if self.kind == 'data':
            sp = self.d.get('spectrum_or_time') == 'spectrum'
            if self.trailer is not None:
                w |= 1 << 26
            if sp or isinstance(self.trailer, str) and self.trailer in SF:
                w |= 1 << 25
            if sp:
                w |= 1 << 24
        elif self.ctx:
            if any(f.fd.cif for f in self.fields) or self.cif7:
                w |= 1 << 25
            tsm = self.d.get('tsm')
            if (st['tsm'] if tsm == 'any' else tsm == 'coarse'):
                w |= 1 << 24
        return w | (st['count'] & 15) << 16 | words

    def cam_word(self, st):
        w = 0
        for k, b in ((self.cee, 31), (self.cer, 29)):
            if k:
                w |= 1 << b | (1 << (b - 1) if k == 'uuid' else 0)
        for k, b in CAMBIT.items():
            v = self.cam.get(k)
            if v in (True, 'required') or st['cambits'].get(k):
                w |= 1 << b
        w |= ACTION[self.cam.get('action_mode', 'none')] << 23
        return w | st['timing'] << 12

    def class_id(self, st):
        ci = self.cls
        oui = int(str(ci.get('oui', '00-00-00')).replace('-', ''), 16)
        return (st['pad'] << 27 | oui).to_bytes(4, 'big') + st['icode'].to_bytes(2, 'big') + num(ci.get('pc', 0)).to_bytes(2, 'big')

    def prologue(self, st):
        o = b''
        if self.sid is not None:
            o += st['sid']
        if self.cls:
            o += self.class_id(st)
        if 'int' in self.ts:
            o += st['its'].to_bytes(4, 'big')
        if 'frac' in self.ts:
            o += st['fts'].to_bytes(8, 'big')
        if self.cmd:
            o += self.cam_word(st).to_bytes(4, 'big') + st['mid'].to_bytes(4, 'big') + st['cee'] + st['cer']
        return o

    def present(self, st, f):
        v = st['f'][f.name]
        return bool(v) if self.enables else v is not None

    def has_cif(self, st, c):
        return c in self.cifs and (not self.cif_optional[c] or any(self.present(st, f) for f in self.fields if f.fd.cif == c))

    def body(self, st):
        if not self.has_cif0:
            return b''
        c0 = st['ci'] << 31
        inc = {c: 0 for c in (1, 2)}
        for f in self.fields:
            if self.present(st, f):
                if f.fd.cif == 0:
                    c0 |= 1 << f.fd.bit
                else:
                    inc[f.fd.cif] |= 1 << f.fd.bit
        o = b''
        for c in (1, 2):
            if self.has_cif(st, c):
                c0 |= 1 << c
                o += inc[c].to_bytes(4, 'big')
        if self.cif7:
            c0 |= 1 << 7
            w = 0
            for a in self.cif7:
                w |= 1 << CIF7_BIT[a]
            o += w.to_bytes(4, 'big')
        o = c0.to_bytes(4, 'big') + o
        if not self.enables:
            for f in self.fields:
                if self.present(st, f):
                    o += f.wire(st['f'][f.name])
                    if self.cif7:
                        o += st['attr'][f.name]
        return o

    def encode(self, st):
        o = self.prologue(st)
        if self.kind == 'data':
            p = st['payload']
            o += p + bytes(-len(p) % 4)
            if self.trailer is not None:
                o += st['trailer']
        o += self.body(st)
        words = (len(o) + 4) // 4
        return self.header_word(st, words).to_bytes(4, 'big') + o

    # what every getter must report
    def getters(self, st):
        r = dict(packet_count='%02x' % st['count'])
        if self.sid is not None:
            r['stream_id'] = st['sid'].hex()
        if self.cls:
            r['class_id'] = self.class_id(st).hex()
            r['pad_bits'] = '%02x' % st['pad']
            if self.shared:
                r['information_code'] = '%04x' % st['icode']
        if 'int' in self.ts:
            r['integer_timestamp'] = '%08x' % st['its']
            if self.ts['int'] == 'any':
                r['tsi'] = '%02x' % st['tsi']
        if 'frac' in self.ts:
            r['fractional_timestamp'] = '%016x' % st['fts']
            if self.ts['frac'] == 'any':
                r['tsf'] = '%02x' % st['tsf']
        if self.ctx and self.d.get('tsm') == 'any':
            r['tsm'] = '%02x' % st['tsm']
        if self.cmd:
            r['cam'] = '%08x' % self.cam_word(st)
            r['action_mode'] = '%02x' % ACTION[self.cam.get('action_mode', 'none')]
            r['timing_control'] = '%02x' % st['timing']
            for k in ('req_v', 'req_x', 'req_s'):
                if self.cam.get(k) == 'optional':
                    r[k] = '%02x' % bool(st['cambits'].get(k))
            r['message_id'] = '%08x' % st['mid']
            if self.cee:
                r['controllee_id'] = st['cee'].hex()
            if self.cer:
                r['controller_id'] = st['cer'].hex()
        if self.has_cif0 and not self.enables:
            r['change_indicator'] = '%02x' % st['ci']
        for f in self.fields:
            v = st['f'][f.name]
            if self.enables:
                r[f.name] = '%02x' % bool(v)
            else:
                r[f.name] = '-' if v is None else v.hex()
        if self.kind == 'data':
            p = st['payload']
            r['payload'] = (p + bytes(-len(p) % 4)).hex()
            if self.trailer is not None:
                r['trailer'] = st['trailer'].hex()
        for s in self.subs:
            r[s.path] = self.sub_value(st, s)
        return r

    def word_of(self, st, owner):
        if owner == 'stream_id':
            return st['sid']
        if owner == 'trailer':
            return st['trailer']
        return st['f'][owner]

    def sub_value(self, st, s):
        w = self.word_of(st, s.owner)
        if w is None:
            return '-'
        v = int.from_bytes(w, 'big')
        if s.en_lsb is not None and (v >> s.en_lsb) & ((1 << s.bits) - 1) != (1 << s.bits) - 1:
            return '-'
        return '%016x' % ((v >> s.lsb) & ((1 << s.bits) - 1))

    def sub_set(self, st, path, value):
        """value None = reset (trailer subfields)"""
        s = self.sub_by[path]
        w = self.word_of(st, s.owner)
        if w is None:
            w = bytes(self.by[s.owner].bits // 8)
        n, m = len(w), (1 << s.bits) - 1
        v = int.from_bytes(w, 'big')
        v &= ~(m << s.lsb)
        v |= ((value or 0) & m) << s.lsb
        if s.en_lsb is not None:
            v &= ~(m << s.en_lsb)
            if value is not None:
                v |= m << s.en_lsb
        w = v.to_bytes(n, 'big')
        if s.owner == 'stream_id':
            st['sid'] = w
        elif s.owner == 'trailer':
            st['trailer'] = w
        else:
            st['f'][s.owner] = w

    # ---------------------------------------------------------------- operations on the model
    def apply(self, st, op):
        """op = [code, name, value]; returns the new state"""
        code = op[0]
        if code in ('A', 'R', 'RC') and isinstance(self, Ack) and self.variant == 'VX':
            st['lag'] = True
        if code in ('S', 'A'):
            n, v = op[1], op[2]
            b = bytes.fromhex(v)
            i = int.from_bytes(b, 'big')
            if n in ('packet_count',): st['count'] = i & 15
            elif n == 'stream_id': st['sid'] = b
            elif n == 'pad_bits': st['pad'] = i & 31
            elif n == 'information_code': st['icode'] = i & 0xFFFF
            elif n == 'integer_timestamp': st['its'] = i
            elif n == 'fractional_timestamp': st['fts'] = i
            elif n in ('tsi', 'tsf', 'tsm'): st[n] = i
            elif n == 'timing_control': st['timing'] = i
            elif n in ('req_v', 'req_x', 'req_s') + ACKSET: st['cambits'][n] = bool(i)
            elif n == 'message_id': st['mid'] = i
            elif n == 'controllee_id' and self.cmd: st['cee'] = b
            elif n == 'controller_id' and self.cmd: st['cer'] = b
            elif n == 'change_indicator': st['ci'] = i & 1
            elif n == 'trailer': st['trailer'] = b
            elif self.enables: st['f'][n] = bool(i)
            else: st['f'][n] = b
        elif code == 'R':
            st['f'][op[1]] = False if self.enables else None
        elif code == 'RC':
            for n in self.groups[op[1]]:
                st['f'][n] = False if self.enables else None
        elif code == 'P':
            st['payload'] = bytes.fromhex(op[1])
        elif code == 'B':
            self.sub_set(st, op[1], op[2])
        elif code == 'N':
            st.clear(); st.update(self.initial())
        elif code == 'U':
            new = from_json(op[2])
            p = new['payload']
            new['payload'] = p + bytes(-len(p) % 4)   # the pad bytes cannot be told apart from the payload
            st.clear(); st.update(new)
        return st

ACKSET = ('ack_v', 'ack_x', 'partial_action', 'scheduled_or_executed')
ACKBIT = dict(permit_partial=27, permit_warnings=26, permit_errors=25, ack_v=20, ack_x=19, ack_s=18, partial_action=11, scheduled_or_executed=10)

class WField:
    """Warnings or errors about one field: a 32-bit condition word announced by a WIF/EIF indicator."""
    kind, bits, reserved, required, sub, scalar, subs = 'struct', 32, 0, False, None, False, []
    def __init__(self, fd, what):
        self.fd, self.what, self.name, self.spec = fd, what, '%s_%s' % (fd.name, what), STRUCTS['WarningErrorFields']
    def default(self):
        return None
    def wire(self, v):
        return v

class Ack(Pk):
    """The acknowledgement classes derived from a control packet.
    d: kind 'ack', name, variant 'VX' or 'S', ext, control (definition of the control packet)"""
    def __init__(self, d):
        c = dict(d['control'])
        super().__init__(dict(c, name=d['name']))
        self.control, self.ack, self.variant = Pk(c), d, d['variant']
        self.d = d
        self.enables = False
        self.w = bool(self.cam.get('req_w')) and self.cam['req_w'] in (True, 'required')
        self.e = bool(self.cam.get('req_er')) and self.cam['req_er'] in (True, 'required')
        if self.variant == 'VX':
            self.src = self.fields
            self.fields = []
            if self.has_cif0:
                for on, what in ((self.w, 'warnings'), (self.e, 'errors')):
                    if on:
                        self.fields += [WField(f.fd, what) for f in self.src]
            self.by = {f.name: f for f in self.fields}
            self.cifs, self.subs = [], [s for s in self.subs if s.owner == 'stream_id']
            self.groups = {}
            for what, word in (('warnings', 'wif'), ('errors', 'eif')):
                fs = [f for f in self.fields if f.what == what]
                cs = sorted({f.fd.cif for f in fs})
                if cs:
                    self.groups[word + '_0'] = [f.name for f in fs]
                for k in cs:
                    if k:
                        self.groups['%s_%d' % (word, k)] = [f.name for f in fs if f.fd.cif == k]
        else:
            self.fields = [f for f in self.fields]
            self.by = {f.name: f for f in self.fields}
            self.subs = [s for s in self.subs if s.owner == 'stream_id'] + [s for f in self.fields for s in f.subs]
        self.sub_by = {s.path: s for s in self.subs}
    @property
    def cls_name(self):
        return self.name + self.variant
    def yaml(self):
        return self.control.yaml() + '%s : %s\n  responds_to : %s\n' % (self.name, '!ExtensionAck' if self.ack.get('ext') else '!Ack', self.control.name)
    def initial(self):
        if self.variant == 'S':
            return super().initial()
        c = self.has_cif0
        st = super().initial()
        return st
    def header_word(self, st, words):
        w = super().header_word(st, words)
        return (w & 0x0FFFFFFF) | (7 if self.ack.get('ext') else 6) << 28 | 1 << 26
    def cam_word(self, st):
        w = super().cam_word(st) & ~(0x1F << 16)
        for k in ACKSET:
            if st['cambits'].get(k):
                w |= 1 << ACKBIT[k]
        if self.variant == 'S':
            w |= 1 << ACKBIT['ack_s']
        else:
            w |= any(f.what == 'warnings' and st['f'][f.name] is not None for f in self.fields) << 17
            w |= any(f.what == 'errors' and st['f'][f.name] is not None for f in self.fields) << 16
        return w
    def body(self, st):
        if self.variant == 'S':
            return super().body(st)
        o = b''
        for what in ('warnings', 'errors'):
            inc = [0, 0, 0]
            for f in self.fields:
                if f.what == what and st['f'][f.name] is not None:
                    inc[f.fd.cif] |= 1 << f.fd.bit
            for k in (1, 2):
                if inc[k]:
                    inc[0] |= 1 << k
            for k in (0, 1, 2):
                if inc[k]:
                    o += inc[k].to_bytes(4, 'big')
        for f in self.fields:
            if st['f'][f.name] is not None:
                o += st['f'][f.name]
        return o
    def getters(self, st):
        r = super().getters(st)
        if st.get('lag'):             # the CAM follows references and resets when the packet is serialised
            r.pop('cam', None)
        for k in ('req_v', 'req_x', 'req_s'):
            r.pop(k, None)
        for k in ACKSET[2:] + (ACKSET[:2] if self.variant == 'VX' else ()):
            if k in ACKSET[2:] or self.cam.get('req' + k[3:]):
                r[k] = '%02x' % bool(st['cambits'].get(k))
        if self.variant == 'VX':
            r.pop('change_indicator', None)
        return r

def make(d):
    return Ack(d) if d['kind'] == 'ack' else Pk(d)

def to_json(st):
    return json.loads(json.dumps(st, default=lambda b: {'_b': b.hex()}))
def from_json(j):
    if isinstance(j, dict):
        if set(j) == {'_b'}:
            return bytes.fromhex(j['_b'])
        return {k: from_json(v) for k, v in j.items()}
    return j
def num(v):
    return int(v, 0) if isinstance(v, str) else v

# -------------------------------------------------------------------- value generation
def rand_struct(rng, spec):
    b = bytearray(4 * spec.words)
    v = 0
    total = 32 * spec.words
    for f in spec.fields:
        shift = total - (f.word * 32 + 31 - f.msb) - f.bits if f.bits <= 32 else total - f.word * 32 - f.bits
        r = rng.choice([rng.getrandbits(f.bits), rng.getrandbits(f.bits), 0, (1 << f.bits) - 1, 1, 1 << (f.bits - 1)])
        if f.kind.startswith('p'):
            r &= (1 << (f.bits - 1)) - 1
        if f.kind.startswith('e:') or (f.kind.startswith('o:') and f.kind.count(':') == 2):
            r &= 0 if f.bits > 1 and rng.random() < .3 else (1 << f.bits) - 1
        if f.kind.startswith('o:'):
            en, _, n = f.kind[2:].split(':')[0].partition(',')
            n = int(n or 1)
            if rng.random() < .7:
                v |= ((1 << n) - 1) << (total - 32 + int(en) - n + 1)
            else:
                r = 0
        v |= r << shift
    return v.to_bytes(4 * spec.words, 'big')

def rand_var(rng, inst):
    n = inst.name
    ln = lambda: rng.choice([0, 0, 1, 1, 2, 3, rng.randrange(0, 9)])
    if n == 'gps_ascii':
        k = ln()
        s = bytes(rng.randrange(32, 127) for _ in range(4 * k))
        if k and rng.random() < .5:
            z = rng.randrange(0, 4)
            s = s[:len(s) - z] + bytes(z)
        return rng.getrandbits(24).to_bytes(4, 'big') + k.to_bytes(4, 'big') + s
    if n == 'context_association_lists':
        s, y, v, a = ln(), ln(), ln(), ln()
        tag = rng.random() < .5
        tag = tag and a > 0
        words = s + y + v + a + (a if tag else 0)
        return ((s << 16 | y).to_bytes(4, 'big') + (v << 16 | (1 << 15 if tag else 0) | a).to_bytes(4, 'big') +
                rng.randbytes(4 * words))
    if n == 'index_list':
        e = inst.sub['entry_size'] // 8
        k = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, rng.randrange(0, 20)])
        body = rng.randbytes(e * k)
        body += bytes(-len(body) % 4)
        return rng.randbytes(4) + ((e << 28) | k).to_bytes(4, 'big') + body
    raise KeyError(n)

def rand_value(rng, inst):
    if inst.kind == 'struct':
        return rand_struct(rng, inst.spec)
    if inst.kind == 'var':
        return rand_var(rng, inst)
    if inst.kind == 'enum':
        return rng.randrange(1, 5).to_bytes(4, 'big')
    nb = inst.bits // 8
    if inst.kind == 'io':
        v = 0
        for s in inst.subs:
            x = rng.getrandbits(s.bits)
            if s.kind == 'enum':
                x = rng.randrange(len(s.labels))
            v |= x << s.lsb
        return v.to_bytes(nb, 'big')
    if inst.kind == 'uuid':
        return rng.randbytes(16)
    return rng.choice([rng.getrandbits(8 * nb), rng.getrandbits(8 * nb), rng.getrandbits(8 * nb), 0, (1 << 8 * nb) - 1, 1 << (8 * nb - 1),
                       (1 << (8 * nb - 1)) - 1, 1, 0x1122334455667788 >> (64 - 8 * nb)]).to_bytes(nb, 'big')

from .pkspec import STRUCTS
STRUCT_TRAILER = STRUCTS['Trailer']
