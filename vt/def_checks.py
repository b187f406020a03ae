"""Checks of the definition reader and the command line: spelling, refusal, assembly of files, options."""
import copy, json, os, random, shutil, subprocess, threading, time
from . import common, pkgen, pkdrv, pkmodel, ydoc
from .common import Check, thorough, REPO, PY, VERIF
from .pkmodel import Pk, make
from .ydoc import Map, Seq, Scalar

class Host:
    """A long-lived process that runs the command line of the working tree."""
    def __init__(self):
        self.p = None
    def start(self):
        self.p = subprocess.Popen([PY, '-B', '-W', 'ignore', os.path.join(VERIF, 'py', 'host.py'), os.path.join(REPO, 'src')],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    def ask(self, job, timeout=120):
        if self.p is None:
            self.start()
        t = threading.Timer(timeout, self.p.kill)
        t.start()
        try:
            self.p.stdin.write(json.dumps(job) + '\n'); self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ''
        finally:
            t.cancel()
        if not line:
            rc = self.p.wait()
            self.p = None
            return dict(status='died', code=-1, output='the process ended or did not answer (exit %s)' % rc)
        return json.loads(line)
    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None

_local = threading.local()
_hosts = []
def host():
    if not hasattr(_local, 'h'):
        _local.h = Host()
        _hosts.append(_local.h)
    return _local.h

def close_hosts():
    for h in _hosts:
        h.close()
    _hosts.clear()

_n = [0]
_lock = threading.Lock()
def fresh(tag='j'):
    with _lock:
        _n[0] += 1
        d = os.path.join(common.workdir(), '%s%d' % (tag, _n[0]))
    os.makedirs(d)
    return d

def read_tree(d):
    o = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            o[os.path.relpath(p, d)] = open(p, errors='replace').read()
    return o

def command(files, mains, opts=('--namespace', 'ns'), out='out', keep=None):
    """Writes the files, runs 'vrtpktgen cpp' on the main ones; (answer, {generated file: text})."""
    d = keep or fresh()
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(t)
    dirs = ['--dir', os.path.join(d, out)] if out is not None else []
    a = host().ask(dict(args=['cpp', *dirs, *opts, *mains], cwd=d))
    made = read_tree(os.path.join(d, out)) if out is not None else {}
    if not keep:
        shutil.rmtree(d, True)
    return a, made

def several(kinds, rng, n, prefix='Pk'):
    out = []
    for i in range(n):
        k = kinds[i % len(kinds)]
        if k.startswith('ack'):
            out.append(pkgen.gen_ack(rng, '%s%d' % (prefix, i), k[3:], rng.choice(['control', 'control', 'extcontrol'])))
        else:
            out.append(pkgen.gen_def(rng, '%s%d' % (prefix, i), k))
    return out

KINDS = ['context', 'control', 'data', 'ackVX', 'extcontext', 'control', 'extcontrol', 'data', 'ackS', 'context']

def first_difference(a, b):
    for f in sorted(set(a) | set(b)):
        if a.get(f) != b.get(f):
            if f not in a or f not in b:
                return '%s is only in the %s' % (f, 'first' if f in a else 'second')
            x, y = a[f].split('\n'), b[f].split('\n')
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    return '%s line %d: %r against %r' % (f, i + 1, p.strip(), q.strip())
            return '%s: different length' % f
    return ''

# ------------------------------------------------------------------ P30 spelling
def p30():
    c = Check('P30', 'a definition written in another way (letter case, number and boolean spelling, quoting, key order, block or flow style, comments, hidden entries with aliases or merge keys), generated and compared with the canonical spelling; distinct by text',
              assumptions=['the canonical spelling means what it should (decided by P10 to P20)', 'PyYAML reads YAML'])
    until = c.t0 + (600 if thorough() else 24)
    kinds_used = {}
    jobs = []
    rounds = 0
    try:
        while True:
            docs = []
            for d in several(KINDS, c.rng, 40, 'Pk'):
                docs.append((d, make(d).yaml(), c.rng.getrandbits(64)))
            def one(j):
                d, text, seed = j
                rng = random.Random(seed)
                doc = ydoc.parse(text)
                a, base = command({'defs.yaml': text}, ['defs.yaml'])
                res = []
                if a['code'] or not base:
                    return [('the canonical spelling is refused: ' + a['output'][-600:], text, text, set())]
                for _ in range(4):
                    v, used = ydoc.variant(doc, rng)
                    b, got = command({'defs.yaml': v}, ['defs.yaml'])
                    why = ''
                    if b['code']:
                        why = 'this spelling is refused (%s) although the canonical one is accepted' % b['output'].strip()[-400:]
                    elif got != base:
                        why = 'this spelling gives different classes: ' + first_difference(base, got)
                    res.append((why, v, text, used))
                return res
            for j, (r, e) in zip(docs, common.pmap(one, docs)):
                if e:
                    raise e
                for why, v, text, used in r:
                    c.case(v)
                    for u in used:
                        kinds_used[u] = kinds_used.get(u, 0) + 1
                    c.sample(v.replace('\n', ' / ')[:500])
                    if why and len(c.violations) < 3:
                        c.violation('%s\n%s\ncanonical:\n%s' % (why, v, text), dict(variant=v, canonical=text, why=why, how='generate both with vrtpktgen cpp and compare'))
            rounds += 1
            if c.violations or time.time() > until:
                break
    finally:
        close_hosts()
    c.extra['changes of spelling'] = kinds_used
    c.extra['rounds'] = rounds
    return c.finish()

# ------------------------------------------------------------------ P31 refusal
def nodes(n, tag):
    """Every mapping with this tag below n."""
    o = [n] if isinstance(n, Map) and n.tag == tag else []
    for _, v in (n.items if isinstance(n, Map) else [(0, x) for x in n.items] if isinstance(n, Seq) else ()):
        o += nodes(v, tag)
    return o

MODES_BAD = ['disabled', 'requried', 'yes please', 'on_demand', '1', '3', 'none', '[required]', '{ mode : required }', 'true', "''"]
FAULTS = []
def fault(*tags):
    def reg(f):
        for t in tags:
            FAULTS.append((f.__name__ + ' ' + t.strip('!') if len(tags) > 1 else f.__name__, t, f))
        return f
    return reg

def insert(m, rng, k, v):
    m.items.insert(rng.randrange(len(m.items) + 1), (k, v if not isinstance(v, str) else Scalar(v)))

PACKETS = ['!Data', '!Context', '!ExtensionContext', '!Control', '!ExtensionControl']
SECTIONS = ['!CIF0', '!CIF1', '!CIF2', '!ControlAcknowledgeMode', '!ClassID', '!Timestamp', '!DIFI1p2BufferSize', '!DIFI1p2ReferenceLevel', '!Trailer']
UNKNOWN = ['bandwith', 'unknown_field', 'Bandwidth', 'cif_9', 'sampleRate', 'x', 'modes', 'req_z', 'oui2']

@fault(*PACKETS, *SECTIONS)
def unknown_key(m, rng):
    k = rng.choice(UNKNOWN)
    if m.tag == '!Trailer':
        insert(m, rng, k, 'enable_indicator')       # user subfields of a trailer have user_defined in their names
    else:
        insert(m, rng, k, rng.choice(['required', 'optional', '1', 'true']))
    return k

@fault(*PACKETS)
def section_of_another_kind(m, rng):
    wrong = {'!Data': ['cif_0 !CIF0 bandwidth required', 'cam !ControlAcknowledgeMode req_s true', 'controllee_id - word', 'tsm - fine'],
             '!Context': ['trailer !Trailer sample_frame required', 'cam !ControlAcknowledgeMode req_s true', 'controllee_id - uuid', 'spectrum_or_time - time', 'responds_to - Pk0'],
             '!Control': ['trailer !Trailer sample_frame required', 'tsm - fine', 'spectrum_or_time - spectrum', 'wif_0 !CIF0 bandwidth required', 'responds_to - Pk0']}
    wrong['!ExtensionContext'] = wrong['!Context']; wrong['!ExtensionControl'] = wrong['!Control']
    k, t, *rest = rng.choice(wrong[m.tag]).split()
    insert(m, rng, k, Scalar(rest[0]) if t == '-' else Map([(rest[0], Scalar(rest[1]))], t))
    return k

@fault('!CIF0', '!CIF1', '!CIF2')
def mode_of_field(m, rng):
    i = [j for j, (k, v) in enumerate(m.items) if isinstance(v, Scalar) and v.text in ('required', 'optional')]
    if not i:
        return None
    j = rng.choice(i)
    bad = rng.choice(MODES_BAD)
    m.items[j] = (m.items[j][0], Scalar(bad))
    return '%s %s' % (m.items[j][0], bad)

@fault('!DIFI1p2BufferSize', '!DIFI1p2ReferenceLevel', '!DiscreteIO32', '!DiscreteIO64')
def mode_of_section(m, rng):
    bad = rng.choice(MODES_BAD)
    m.put('mode', Scalar(bad))
    return bad

@fault('!ControlAcknowledgeMode')
def mode_in_cam(m, rng):
    k = rng.choice(['req_v', 'req_x', 'req_s', 'req_w', 'req_er', 'permit_partial', 'permit_warnings', 'permit_errors'])
    bad = rng.choice(['disabled', 'maybe', '1', '0', '[true]', 'none'])
    m.put(k, Scalar(bad))
    return '%s %s' % (k, bad)

@fault('!ControlAcknowledgeMode')
def enable_in_cam(m, rng):
    k = rng.choice(['controllee_enable', 'controller_enable'])
    insert(m, rng, k, rng.choice(['true', 'required', 'false']))
    return k

@fault('!ControlAcknowledgeMode')
def format_in_cam(m, rng):
    k = rng.choice(['controllee_format', 'controller_format'])
    bad = rng.choice(['required', 'words', 'guid', '32', 'true'])
    insert(m, rng, k, bad)
    return k + ' ' + bad

@fault('!ControlAcknowledgeMode')
def action_mode_name(m, rng):
    bad = rng.choice(['dryrun', 'dry_run', 'exec', 'no_action', '1', 'true'])
    m.drop('action_mode')
    insert(m, rng, 'action_mode', bad)
    return bad

@fault('!ControlAcknowledgeMode')
def no_action_with_other_requests(m, rng):
    m.items = [(k, v) for k, v in m.items if not k.startswith('req_') and k != 'action_mode']
    entries = [('action_mode', 'none')]
    if rng.random() < .7:
        entries += [('req_s', 'true')]
        bad = rng.sample(['req_x', 'req_v', 'req_w', 'req_er'], rng.choice([1, 1, 2]))
        entries += [(b, rng.choice(['true', 'required'])) for b in bad]
    elif rng.random() < .5:
        entries += [('req_s', rng.choice(['false', 'optional']))]
    rng.shuffle(entries)
    for k, v in entries:
        m.items.append((k, Scalar(v)))
    return ' '.join('%s %s' % e for e in entries)

@fault('!ClassID')
def oui(m, rng):
    bad = rng.choice(['00-12-A2', '00-12-a2', "'00-12-A2'", '0012A2', '00-12', '00-12-34-56', '1-2-3', '0x123456', '1193046', 'GG-00-11', '00-1z-22', '00:11:22', "'00-11-22 '", '-00-11-22', 'true', '[00-11-22]'])
    m.drop('oui')
    insert(m, rng, 'oui', bad)
    return bad

@fault('!Timestamp')
def timestamp_name(m, rng):
    k, bad = rng.choice([('integer', rng.choice(['utcc', 'picoseconds', 'samples', 'tai', '1'])), ('fractional', rng.choice(['utc', 'free running', 'freerunning', 'real-time', 'nanoseconds', '2', 'sample_count']))])
    m.drop(k)
    insert(m, rng, k, bad)
    return k + ' ' + bad

@fault('!Data')
def spectrum_name(m, rng):
    bad = rng.choice(['spectral', 'frequency', 'required', '1', 'both', 'spectrum_or_time'])
    m.put('spectrum_or_time', Scalar(bad))
    return bad

@fault('!Context', '!ExtensionContext')
def tsm_name(m, rng):
    bad = rng.choice(['precise', 'required', '0', 'course', 'fine-grained'])
    m.put('tsm', Scalar(bad))
    return bad

@fault('!Control', '!ExtensionControl')
def identifier_name(m, rng):
    k = rng.choice(['controllee_id', 'controller_id'])
    bad = rng.choice(['required', 'words', 'guid', 'uuid4', 'optional', 'id'])
    m.put(k, Scalar(bad))
    return k + ' ' + bad

@fault(*PACKETS)
def stream_id_parts(m, rng):
    how = rng.choice(['wide', 'sum', 'untyped', 'number'])
    part = lambda b: Map([('bits', Scalar(str(b)))], '!IntegerType')
    if how == 'wide':
        s = Map([('a', part(rng.choice([33, 40, 64])))])
    elif how == 'sum':
        n = rng.choice([2, 3, 4])
        w = [rng.randint(1, 32) for _ in range(n)]
        w[rng.randrange(n)] += max(0, 33 - sum(w))
        s = Map([('p%d' % i, part(b)) for i, b in enumerate(w)])
    elif how == 'untyped':
        s = Map([('a', part(8)), ('b', Scalar(rng.choice(['8', 'bool', 'required'])))])
        rng.shuffle(s.items)
    else:
        s = None
    m.put('stream_id', Scalar(rng.choice(['zero', '12ab', '0xgg', '1.5']), '!StreamID') if s is None else Map(s.items, '!StreamID'))
    return how

@fault('!CIF1')
def index_list(m, rng):
    m.drop('index_list')
    how = rng.choice(['plain', 'size', 'key'])
    if how == 'plain':
        insert(m, rng, 'index_list', rng.choice(['required', 'optional']))
    elif how == 'size':
        insert(m, rng, 'index_list', Map([('entry_size', Scalar(rng.choice(['12', '64', '0', 'word', '-8', "'8 '", '128'])))], '!IndexList'))
    else:
        insert(m, rng, 'index_list', Map([('entry_size', Scalar('8')), ('size', Scalar('4'))], '!IndexList'))
    return how

@fault('!CIF1')
def sector_step_scan(m, rng):
    m.drop('sector_step_scan')
    insert(m, rng, 'sector_step_scan', rng.choice(['required', 'optional']))
    return 'plain'

@fault('!CIF1')
def discrete_io(m, rng):
    bits = rng.choice([32, 64])
    k = 'discrete_io_%d' % bits
    m.drop(k)
    how = rng.choice(['type', 'bits', 'many'])
    sub = [('mode', Scalar('required'))]
    if how == 'type':
        sub.append(('one', Scalar(rng.choice(['boolean', 'enable', 'int', '2.5', 'uint8']))))
    elif how == 'bits':
        w = [rng.randint(1, 20) for _ in range(8)]
        w[rng.randrange(8)] += max(0, bits + 1 - sum(w))
        sub += [('n%d' % i, Scalar(str(b))) for i, b in enumerate(w)]
    else:
        n = bits // 2 + 1 if rng.random() < .5 else bits + 1
        sub += [('f%d' % i, Scalar('enable_indicator' if n == bits // 2 + 1 else 'bool')) for i in range(n)]
    insert(m, rng, k, Map(sub, '!DiscreteIO%d' % bits))
    return how

@fault('!Trailer')
def trailer_enumeration(m, rng):
    n = rng.choice([17, 18, 33])
    insert(m, rng, 'user_defined_wide', Seq([Scalar('w%d' % i) for i in range(n)]))
    return '%d labels' % n

@fault('!Data')
def trailer_frame(m, rng):
    how = rng.choice(['mode', 'number', 'width'])
    t = Map([], '!Trailer')
    t.items.append(('sample_frame', Scalar(rng.choice(MODES_BAD) if how == 'mode' else rng.choice(['required', 'optional']))))
    if how == 'number':
        t.items += [('user_defined_%d' % i, Scalar('enable_indicator')) for i in range(rng.choice([3, 4]))]
        rng.shuffle(t.items)
    elif how == 'width':
        t.items.append(('user_defined_0', Seq([Scalar('w%d' % i) for i in range(rng.choice([9, 12, 16]))])))
        rng.shuffle(t.items)
    m.put('trailer', t)
    return how

TAGGED = {'stream_id': '!StreamID', 'class_id': '!ClassID', 'timestamp': '!Timestamp', 'cam': '!ControlAcknowledgeMode', 'trailer': '!Trailer', 'cif_0': '!CIF0', 'cif_1': '!CIF1', 'cif_2': '!CIF2'}
BODY = {'!ClassID': [('packet_code', '7')], '!Timestamp': [('integer', 'utc')], '!ControlAcknowledgeMode': [('req_x', 'true')], '!Trailer': [('user_defined_0', 'enable_indicator')],
        '!CIF0': [('bandwidth', 'required')], '!CIF1': [('range', 'required')], '!CIF2': [('bind', 'optional')], '!StreamID': [], '!DiscreteIO32': [('mode', 'required')], '!DIFI1p2BufferSize': [('mode', 'required')]}
@fault(*PACKETS)
def tag_of_another_section(m, rng):
    keys = ['stream_id', 'class_id', 'timestamp'] + {'!Data': ['trailer'], '!Control': ['cif_0', 'cif_1', 'cif_2', 'cam'], '!ExtensionControl': ['cif_1', 'cif_2', 'cam']}.get(m.tag, ['cif_0', 'cif_1', 'cif_2'])
    k = rng.choice(keys)
    t = rng.choice([t for t in BODY if t != TAGGED[k]])
    v = Map([(a, Scalar(b)) for a, b in BODY[t]], t) if BODY[t] else Scalar('', t)
    m.put(k, v)
    return k + ' ' + t

# faults of the file as a whole: text in, text out
def whole_file(doc, rng):
    text = ydoc.text(doc)
    names = [k for k, _ in doc.items]
    control = [k for k, v in doc.items if v.tag in ('!Control', '!ExtensionControl')]
    how = rng.choice(['responds_to', 'order', 'include', 'class', 'tag', 'broken', 'ack key', 'class_id', 'missing', 'missing', 'missing'])
    extra = lambda s: (s + '\n' + text) if rng.random() < .5 else (text + '\n' + s + '\n')
    if how == 'responds_to':
        return how, text + '\nOther : !%s\n  responds_to : %s\n' % (rng.choice(['Ack', 'ExtensionAck']), rng.choice(['Nobody', 'Other', names[0] + 'x', 'required']))
    if how == 'order':
        if not control:
            return None
        return how, 'Early : !Ack\n  responds_to : %s\n\n' % rng.choice(control) + text
    if how == 'include':
        return how, extra(rng.choice(['include : defs2.yaml', 'include : { a : b }', 'include : 7', 'include :\n  - absent.yaml', 'include : [no/such/file.yaml]']))
    if how == 'class':
        some = rng.sample(names, min(len(names), 2)) + ['Nowhere']
        rng.shuffle(some)
        return how, text + '\nInfo : !InformationClass\n  code : 3\n  packet_classes :\n' + ''.join('    - %s\n' % s for s in some)
    if how == 'tag':
        return how, extra(rng.choice(['More : !Packet\n  stream_id : !StreamID', 'More : !context', 'More : !Context\n  cif_0 : !CIF4\n    bandwidth : required', 'More : !Context\n  cif_0 : !cif0\n    bandwidth : required', 'More : !Signal']))
    if how == 'broken':
        return how, extra(rng.choice(['More : !Context\n  cif_0 : [ required', 'More : !Context\n\tcif_0 : required', 'More : "open', 'More : !Context\n   cif_0 : !CIF0\n  bad indent : 1\n x : 2', 'More : *nowhere', '  More : : :\n- x']))
    if how == 'ack key':
        if not control:
            return None
        return how, text + '\nLate : !Ack\n  responds_to : %s\n  %s : required\n' % (rng.choice(control), rng.choice(['bandwidth', 'ack', 'respond_to', 'trailer']))
    if how == 'class_id':
        return how, extra('More : !Context\n  class_id : !ClassID%s\n' % rng.choice(['', ' 00-11-22', ' required']))
    return how, None

def command_line_fault(valid, ds, rng):
    """Faults of the command line; (what, answer, files that should not be there, text)."""
    how = rng.choice(['socket type', 'no file', 'no generator', 'unknown generator', 'unknown option', 'twice'])
    ns = ['--namespace', 'ns']
    if how == 'twice':
        # the same packet of the same information class in two files
        first = '\n'.join(make(d).yaml() for d in ds[:1])
        files = {'one.yaml': first, 'two.yaml': valid}
        a, _ = command(files, rng.choice([['one.yaml', 'two.yaml'], ['two.yaml', 'one.yaml']]), ns)
        return how, a, {}, first + '\n# --- two.yaml\n' + valid
    d = fresh()
    with open(os.path.join(d, 'defs.yaml'), 'w') as f:
        f.write(valid)
    args = {'socket type': ['cpp', *rng.sample([('--cmd-socket', rng.choice(['sctp', 'TCPX', 'quic', 'tcp6'])), ('--dir', 'out')], 2), 'defs.yaml'],
            'no file': ['cpp', *ns], 'no generator': ['defs.yaml'], 'unknown generator': [rng.choice(['c', 'rust', 'python']), 'defs.yaml'],
            'unknown option': ['cpp', rng.choice(['--name-space', '--output', '--ext']), 'x', 'defs.yaml']}[how]
    flat = [y for x in args for y in (x if isinstance(x, tuple) else [x])]
    a = host().ask(dict(args=flat, cwd=d))
    left = {k: v for k, v in read_tree(d).items() if k != 'defs.yaml'}
    shutil.rmtree(d, True)
    return how, a, left, ' '.join(flat) + '\n' + valid

def p31():
    c = Check('P31', 'a definition file made of valid definitions with one fault put in at a random place, read by vrtpktgen cpp; the same file without the fault is accepted (controls); distinct by text',
              assumptions=['the faults are those the reader states it refuses, in its documentation, messages or checks'])
    until = c.t0 + (600 if thorough() else 26)
    per, controls = {}, 0
    try:
        while True:
            jobs = []
            groups = [several(KINDS, c.rng, 10) for _ in range(4 if not thorough() else 12)]
            names = list(FAULTS) + [('whole', None, None)] * 14
            for name, tag, f in names:
                for g in c.rng.sample(groups, 2):
                    jobs.append((name, tag, f, g, c.rng.getrandbits(64)))
            def one(j):
                name, tag, f, g, seed = j
                rng = random.Random(seed)
                ds = rng.sample(g, rng.randint(1, min(4, len(g))))
                if tag and not any(tag in make(d).yaml() for d in ds):
                    ds += [d for d in g if (tag + '\n') in make(d).yaml()][:1]
                valid = '\n'.join(make(d).yaml() for d in ds)
                doc = ydoc.parse(valid)
                if f is None:
                    r = whole_file(doc, rng)
                    if r is None:
                        return None
                    what, text = r
                    label = 'whole file: ' + what
                else:
                    ms = [m for m in nodes(doc, tag) if m.items]
                    if not ms:
                        return None
                    what = f(rng.choice(ms), rng)
                    if what is None:
                        return None
                    text, label = ydoc.text(doc), name
                a, made = command({'defs.yaml': text} if text is not None else {}, ['defs.yaml'])
                if label == 'whole file: missing' and rng.random() < .7:
                    what, a, made, text = command_line_fault(valid, ds, rng)
                    label = 'command line: ' + what
                why = ''
                if a['code'] == 0:
                    why = 'the faulty definition is accepted, exit status 0' + (' and %d files are written' % len(made) if made else ' (and no file is written)')
                elif made:
                    why = 'the definition is refused, but %d files are written' % len(made)
                elif not a['output'].strip():
                    why = 'the definition is refused without a message'
                ok = ''
                if rng.random() < .15:
                    b, _ = command({'defs.yaml': valid}, ['defs.yaml'])
                    ok = 'yes' if b['code'] == 0 else 'the file without the fault is refused: ' + b['output'][-500:]
                return label, what, text, why, ok, valid, a['output'].strip()[-200:]
            for j, (r, e) in zip(jobs, common.pmap(one, jobs)):
                if e:
                    raise e
                if r is None:
                    continue
                label, what, text, why, ok, valid, said = r
                c.case(text or 'missing file')
                per[label] = per.get(label, 0) + 1
                controls += ok == 'yes'
                if c.rng.random() < .1:
                    c.sample('%s (%s): %s' % (label, what, said.replace('\n', ' / ')))
                if ok not in ('', 'yes'):
                    c.violation(ok + '\n' + valid, dict(text=valid, why=ok), key='valid')
                if why:
                    c.violation('%s (%s): %s\n%s' % (label, what, why, text), dict(text=text, fault=label, detail=what, why=why, how='vrtpktgen cpp --dir out --namespace ns on the text'), key=label.replace(' ', '_') + ':' + str(what).replace(' ', '_'))
            if (c.violations and time.time() > c.t0 + 8 and not os.environ.get('VT_MAXV')) or time.time() > until:
                break
    finally:
        close_hosts()
    c.extra['faults tried'] = per
    c.extra['files without the fault, accepted'] = controls
    return c.finish()

# ------------------------------------------------------------------ P32 assembly of files
CONTROLLER = ['Controller', 'Controllee_base', 'Controllee']
class Item:
    """One definition with its control packet, when it answers one: kept together and in order."""
    def __init__(self, d):
        self.d = d
        self.pk = make(d)
        text = self.pk.yaml()
        doc = ydoc.parse(text)
        self.entries = [(k, ydoc.text(Map([(k, v)])), v) for k, v in doc.items]
        self.names = [k for k, _, _ in self.entries]
    def text(self, code=None):
        o = []
        for k, _, v in self.entries:
            v = ydoc.copy(v)
            o.append(ydoc.text(Map([(k, v)])))
        return '\n'.join(o)

def snake(name):
    return pkdrv.snake(name)

def hidden_entry(rng, n):
    return rng.choice(['.note%d : { a : 1, b : [x, y] }\n', '.shared%d : !Context\n  stream_id : !StreamID\n  cif_0 : !CIF0\n    bandwidth : required\n',
                       '.common%d : &c%d\n  bandwidth : required\n', '.text%d : "include : other.yaml"\n', '.none%d :\n', '.half%d : !Control\n']).replace('%d', str(n))

def p32_case(seed):
    """One arrangement of definitions over files; (files, mains, options, expectation, description)."""
    rng = random.Random(seed)
    items = [Item(d) for d in several(rng.sample(KINDS, len(KINDS)), rng, rng.randint(2, 7))]
    n_main = rng.choice([1, 1, 2, 3])
    mains = ['m%d.yaml' % i for i in range(n_main)]
    tree = {m: [] for m in mains}                   # file -> files it includes
    for i in range(rng.randint(0, 4)):
        f = rng.choice(['', 'sub/', 'a/b/']) + 'inc%d.yaml' % i
        tree[rng.choice(list(tree))].append(f)
        tree[f] = []
    place = {f: [] for f in tree}
    for it in items:
        place[rng.choice(list(tree))].append(it)
    # acknowledgements may answer a control packet of an included file
    split = {}
    def below(f):
        return [f] + [g for c in tree[f] for g in below(c)]
    for f in tree:
        for it in place[f]:
            down = [g for g in below(f) if g != f]
            if len(it.names) == 2 and down and rng.random() < .5:
                split[it.names[0]] = rng.choice(down)
    classed = rng.random() < .45
    cfile = rng.choice([m for m in mains]) if classed else None
    code = rng.randint(0, 65535)
    listed = None
    if classed:
        seen = [it for g in below(cfile) for it in place[g]]
        names = []
        for it in seen:
            if rng.random() < .75:
                names += it.names
        if not names and seen:
            names = list(seen[0].names)
        rng.shuffle(names)
        listed = names
        if not names:
            classed, cfile, listed = False, None, None
    files, hid = {}, 0
    for f in tree:
        parts = []
        for it in place[f]:
            for k, t, _ in it.entries:
                if split.get(k, f) == f:
                    parts.append(t)
        for g, its in place.items():
            for it in its:
                if g != f and split.get(it.names[0]) == f:
                    parts.append(it.entries[0][1])
        for _ in range(rng.choice([0, 0, 1, 2])):
            parts.insert(rng.randrange(len(parts) + 1), hidden_entry(rng, hid)); hid += 1
        if tree[f]:
            parts.insert(0, 'include :\n' + ''.join('  - %s\n' % g for g in tree[f]) if rng.random() < .7 else 'include : [' + ', '.join(tree[f]) + ']\n')
        if f == cfile:
            parts.append('TheClass : !InformationClass\n' + ''.join(rng.sample(['  code : %s\n' % (code if rng.random() < .5 else hex(code)), '  packet_classes :\n' + ''.join('    - %s\n' % n for n in listed)], 2)))
        files[f] = '\n'.join(parts) or '{}\n'
    opts, ns = [], rng.choice([None, 'ns', 'one::two', 'geon'])
    if ns:
        opts += ['--namespace', ns]
    he, se = rng.choice([('hpp', 'cpp'), ('hpp', 'cpp'), ('hh', 'cc'), ('h', 'cxx')])
    if he != 'hpp':
        opts += ['--header-ext', he, '--source-ext', se]
    sock = rng.choice([None, 'tcp', 'udp', 'nats'])
    if sock:
        opts += ['--cmd-socket', sock]
    project = rng.random() < .4
    if project:
        opts += [rng.choice(['--project', '-p'])]
    # what is generated: of the main file with the class only the listed, of the others everything visible
    wanted = {}
    for m in mains:
        for g in below(m):
            for it in place[g]:
                for k in it.names:
                    if m != cfile or k in listed:
                        wanted[k] = (it, code if m == cfile else None)
    return dict(files=files, mains=mains, opts=opts, he=he, se=se, ns=ns, sock=sock, project=project, wanted=wanted, classed=classed, cfile=cfile,
                tree=tree, listed=listed, code=code, out=rng.choice(['out', 'gen/deep/er', 'x.y']))

def with_code(it, code):
    """The definitions of the item, with the information code of the class."""
    o = []
    for k, _, v in it.entries:
        v = ydoc.copy(v)
        if code is not None and isinstance(v, Map):
            cid = v.get('class_id')
            if isinstance(cid, Map):
                cid.drop('information_code')
                cid.items.append(('information_code', Scalar(str(code))))
        o.append(ydoc.text(Map([(k, v)])))
    return '\n'.join(o)

def p32_judge(w, d=None):
    a, made = command(w['files'], w['mains'], w['opts'], w['out'])
    if a['code']:
        return 'the files are refused: ' + a['output'].strip()[-500:], made
    inc, src = ('include/', 'src/') if w['project'] else ('', '')
    pk = 'packets/' if w['project'] else ''
    want = {}
    for k in w['wanted']:
        want[inc + pk + snake(k) + '.' + w['he']] = k
        want[src + pk + snake(k) + '.' + w['se']] = k
    extra = set()
    if w['project']:
        extra |= {'CMakeLists.txt', 'src/CMakeLists.txt', 'src/bin/CMakeLists.txt', 'src/packets/CMakeLists.txt', 'src/bin/main.cpp'}
        extra |= {'yaml/' + os.path.basename(f) for f in w['files']}
    if w['classed']:
        extra |= {inc + c + '.' + w['he'] for c in CONTROLLER}
    missing, surplus = (set(want) | extra) - set(made), set(made) - set(want) - extra
    if missing or surplus:
        return 'files missing: %s; files nobody asked for: %s' % (sorted(missing), sorted(surplus)), made
    if w['project']:
        for f, t in w['files'].items():
            if made['yaml/' + os.path.basename(f)] != t:
                return 'the copy of %s in the project differs from it' % f, made
        for k in w['wanted']:
            if snake(k) + '.' + w['se'] not in made['src/packets/CMakeLists.txt'].split():
                return 'src/packets/CMakeLists.txt does not build %s' % k, made
    # every class is what its own definition alone gives
    base = w['mains'][-1]
    plain = [o for i, o in enumerate(w['opts']) if o not in ('--project', '-p')]
    for it, code in {id(v[0]): v for v in w['wanted'].values()}.values():
        b, alone = command({base: with_code(it, code)}, [base], plain, 'out')
        if b['code']:
            return 'the definition alone is refused: ' + b['output'].strip()[-400:], made
        for k in it.names:
            if k not in w['wanted']:
                continue
            for f, g in ((inc + pk + snake(k) + '.' + w['he'], snake(k) + '.' + w['he']), (src + pk + snake(k) + '.' + w['se'], snake(k) + '.' + w['se'])):
                if made[f] != alone[g]:
                    return '%s differs from what the definition of %s alone gives: %s' % (f, k, first_difference({f: alone[g]}, {f: made[f]})), made
    return '', made

def p32():
    c = Check('P32', 'definitions spread at random over files that include each other, several files on the command line, hidden entries, an information class or none, with random options; judged by the set of files and by what each definition gives alone; distinct by texts and options',
              assumptions=['what a definition alone gives is decided by P10 to P20'])
    until = c.t0 + (600 if thorough() else 24)
    shapes = {}
    compiled = 0
    try:
        while True:
            seeds = [c.rng.getrandbits(64) for _ in range(48)]
            def one(s):
                w = p32_case(s)
                why, made = p32_judge(w)
                n = 0
                if not why and random.Random(s).random() < (.08 if not thorough() else .2):
                    why = p32_compile(w, made)
                    n = 1
                return w, why, n
            for s, (r, e) in zip(seeds, common.pmap(one, seeds)):
                if e:
                    raise e
                w, why, n = r
                compiled += n
                shape = '%d file%s named, %d included%s%s' % (len(w['mains']), 's' * (len(w['mains']) > 1), len(w['files']) - len(w['mains']), ', class' * w['classed'], ', project' * w['project'])
                shapes[shape] = shapes.get(shape, 0) + 1
                c.case((sorted(w['files'].items()), w['opts']))
                c.sample('%s; vrtpktgen cpp %s %s' % (shape, ' '.join(w['opts']), ' '.join(w['mains'])))
                if why:
                    c.violation('%s\nvrtpktgen cpp %s %s\n%s' % (why, ' '.join(w['opts']), ' '.join(w['mains']), '\n'.join('--- %s\n%s' % x for x in w['files'].items())),
                                dict(files=w['files'], mains=w['mains'], options=w['opts'], out=w['out'], why=why))
            if c.violations or time.time() > until:
                break
    finally:
        close_hosts()
    c.extra['arrangements'] = dict(sorted(shapes.items(), key=lambda x: -x[1])[:40])
    c.extra['outputs also compiled'] = compiled
    return c.finish()

def p32_compile(w, made):
    """The generated files compile together with the chosen options."""
    d = fresh('c')
    for f, t in made.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(t)
    dirs = [d, os.path.join(d, 'include'), os.path.join(d, 'include/packets')]
    srcs = [f for f in made if f.endswith('.' + w['se'])]
    for f in srcs[:3]:
        rc, out = common.run([common.CXX, *common.STD, '-w', '-fsyntax-only', '-I' + common.INC, *['-I' + i for i in dirs], '-x', 'c++', os.path.join(d, f)])
        if rc:
            shutil.rmtree(d, True)
            return '%s does not compile: %s' % (f, ' / '.join(l for l in out.split('\n') if 'error' in l)[:400])
    shutil.rmtree(d, True)
    return ''
