"""Definition files as trees: parsed from the canonical text of pkmodel, written in many equivalent ways."""
class Node:
    pass

class Map(Node):
    def __init__(self, items=(), tag=''):
        self.items, self.tag = list(items), tag
    def get(self, k):
        return next((v for n, v in self.items if n == k), None)
    def index(self, k):
        return next(i for i, (n, v) in enumerate(self.items) if n == k)
    def put(self, k, v):
        self.items = [(n, v if n == k else w) for n, w in self.items] if self.get(k) is not None else self.items + [(k, v)]
    def drop(self, k):
        self.items = [(n, v) for n, v in self.items if n != k]

class Seq(Node):
    def __init__(self, items=(), tag=''):
        self.items, self.tag = list(items), tag

class Scalar(Node):
    def __init__(self, text, tag=''):
        self.text, self.tag = text, tag

def copy(n):
    if isinstance(n, Map):
        return Map([(k, copy(v)) for k, v in n.items], n.tag)
    if isinstance(n, Seq):
        return Seq([copy(v) for v in n.items], n.tag)
    return Scalar(n.text, n.tag)

def parse(text):
    """The canonical text (block mappings, flow sequences) as a Map of packets."""
    rows = [(len(l) - len(l.lstrip()), *[x.strip() for x in l.split(' : ', 1)]) for l in text.split('\n') if l.strip()]
    pos = 0
    def block(indent):
        nonlocal pos
        out = []
        while pos < len(rows) and rows[pos][0] == indent:
            _, k, v = rows[pos]; pos += 1
            tag = ''
            if v.startswith('!'):
                tag, _, v = v.partition(' ')
                v = v.strip()
            if pos < len(rows) and rows[pos][0] > indent:
                out.append((k, Map(block(rows[pos][0]), tag)))
            elif v.startswith('['):
                out.append((k, Seq([Scalar(x.strip()) for x in v[1:-1].split(',')], tag)))
            else:
                out.append((k, Scalar(v, tag)))
        return out
    return Map(block(0))

BOOLS = ('true', 'false')
def plain(n):
    return n.tag + (' ' if n.tag and n.text else '') + n.text

def flow(n):
    t = n.tag + ' ' if n.tag else ''
    if isinstance(n, Map):
        return t + '{ ' + ', '.join('%s : %s' % (k, flow(v)) for k, v in n.items) + ' }'
    if isinstance(n, Seq):
        return t + '[' + ', '.join(flow(v) for v in n.items) + ']'
    return plain(n)

def write(n, indent=0, rng=None, depth=0):
    """Block style; with rng some mappings in flow style, comments, blank lines."""
    o = []
    for k, v in n.items:
        pad = ' ' * indent
        if rng and rng.random() < .08:
            o.append(pad + rng.choice(['# a remark', '#', '', '# %s : required' % k]))
        sep = rng.choice([' : ', ': ', ':   ']) if rng else ' : '
        end = rng.choice(['', '', '', '   # remark']) if rng else ''
        if isinstance(v, Map) and not (rng and depth and rng.random() < .2):
            if not v.items:
                o.append(pad + k + sep + (v.tag or '{}') + end)
            else:
                o.append(pad + k + sep + v.tag + end)
                o += write(v, indent + (rng.choice([1, 2, 4]) if rng else 2), rng, depth + 1)
        elif isinstance(v, Seq) and rng and rng.random() < .4:
            o.append(pad + k + sep + v.tag + end)
            o += [pad + '  - ' + flow(x) for x in v.items]
        else:
            o.append(pad + k + sep + flow(v) + end)
    return o

def text(n, rng=None):
    return '\n'.join(write(n, 0, rng)) + '\n'

# ------------------------------------------------------------------ equivalent spellings
FREE = ('!Context', '!ExtensionContext', '!Data', '!Control', '!ExtensionControl', '!Ack', '!ExtensionAck', '!CIF0', '!CIF1', '!CIF2',
        '!ClassID', '!Timestamp', '!ControlAcknowledgeMode', '!DIFI1p2ReferenceLevel', '!DIFI1p2BufferSize', '!InformationClass')
WORDS = {'required', 'optional', 'utc', 'gps', 'other', 'any', 'samples', 'picoseconds', 'free-running', 'fine', 'coarse',
         'spectrum', 'time', 'none', 'dry-run', 'execute', 'word', 'uuid'}

def casing(rng, w):
    return rng.choice([w.upper(), w.capitalize(), w.title(), ''.join(rng.choice([c.upper(), c]) for c in w), w])

def number(rng, v):
    return rng.choice(['%d' % v, '0x%x' % v, '0x%X' % v, '0x%08x' % v])

def quote(rng, t):
    return rng.choice([t, t, '"%s"' % t, "'%s'" % t])

def respell(n, rng, used, key='', parent=''):
    """Another way of writing the same tree; used collects the kinds of change made."""
    if isinstance(n, Map):
        items = [(k, respell(v, rng, used, k, n.tag)) for k, v in n.items]
        if n.tag in FREE and len(items) > 1 and rng.random() < .7:
            rng.shuffle(items)
            used.add('key order')
        elif n.tag in ('!DiscreteIO32', '!DiscreteIO64') and rng.random() < .5:
            m = [x for x in items if x[0] == 'mode']
            rest = [x for x in items if x[0] != 'mode']
            i = rng.randrange(len(rest) + 1)
            items = rest[:i] + m + rest[i:]
            used.add('key order')
        return Map(items, n.tag)
    if isinstance(n, Seq):
        return Seq([Scalar(quote(rng, x.text), x.tag) for x in n.items], n.tag)
    t = n.text
    if t in BOOLS:
        used.add('boolean spelling')
        return Scalar(rng.choice({'true': ['true', 'True', 'TRUE', 'yes', 'on', 'Yes'], 'false': ['false', 'False', 'no', 'off', 'FALSE']}[t]), n.tag)
    if n.tag == '!StreamID' and t:
        used.add('number spelling')
        v = int(t, 0)
        return Scalar(rng.choice(['%d' % v, '0x%x' % v, '0x%X' % v, '0x%08X' % v, '"0x%x"' % v]), n.tag)
    if key in ('packet_code', 'information_code', 'bits'):
        used.add('number spelling')
        return Scalar(number(rng, int(t, 0)), n.tag)
    if key == 'entry_size':
        return Scalar(quote(rng, t), n.tag)
    if key == 'oui':
        used.add('letter case')
        return Scalar(quote(rng, rng.choice([t.upper(), t.lower(), t])), n.tag)
    if t in WORDS and parent not in ('!DiscreteIO32', '!DiscreteIO64', '!Trailer') or key == 'mode' and t in WORDS:
        if rng.random() < .6:
            used.add('letter case')
            t = casing(rng, t)
        return Scalar(quote(rng, t), n.tag)
    return n

def share(n, rng, used, hidden):
    """Moves mappings below hidden entries and refers to them by alias or merge key."""
    for i, (k, v) in enumerate(n.items):
        if not isinstance(v, Map) or not v.items:
            continue
        if v.tag.startswith(('!CIF', '!ClassID', '!Timestamp', '!Trailer')) and rng.random() < .35:
            a = 'h%d' % len(hidden)
            if v.tag.startswith('!CIF') and rng.random() < .5:
                cut = rng.randrange(len(v.items) + 1)
                plainfields = [x for x in v.items if isinstance(x[1], Scalar)]
                rest = [x for x in v.items if not isinstance(x[1], Scalar)]
                hidden.append(('.' + a, '&%s' % a, Map(plainfields[:cut])))
                if not plainfields[:cut]:
                    hidden.pop(); continue
                v.items = [('<<', Scalar('*' + a))] + plainfields[cut:] + rest
                used.add('merge key')
            else:
                hidden.append(('.' + a, '&' + a, v))
                n.items[i] = (k, Scalar('*' + a))
                used.add('alias')
        else:
            share(v, rng, used, hidden)

def variant(doc, rng):
    """(text, kinds of change)"""
    used = set()
    d = respell(doc, rng, used)
    hidden = []
    if rng.random() < .35:
        share(d, rng, used, hidden)
    # an anchor stands before the tag of its node
    top = []
    for name, anchor, node in hidden:
        m = Map(node.items, (anchor + ' ' + node.tag).strip())
        top.append((name, m))
    if rng.random() < .3:
        top.append(('.unused_%d' % rng.randrange(9), rng.choice([Scalar('nothing'), Map([('bandwidth', Scalar('required'))]), Seq([Scalar('a')])])))
        used.add('hidden entry')
    body = text(Map(top), rng) if top else ''
    if rng.random() < .2:
        body = '---\n' + body
    return body + text(d, rng), used
