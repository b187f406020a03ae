"""Shared plumbing: paths, seeds, tiers, compiling, evidence, verdicts."""
import atexit, hashlib, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
PY = os.environ.get('VT_PY', '/opt/vrtgen-venv/bin/python')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
JOBS = int(os.environ.get('VT_JOBS', str(os.cpu_count() or 8)))
INC = os.path.join(REPO, 'include')
CXX = 'g++'
STD = ['-std=c++20']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
RUN_ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1',
               UBSAN_OPTIONS='print_stacktrace=0:exitcode=98', TSAN_OPTIONS='report_thread_leaks=0:exitcode=66')

_tmp = None
def workdir():
    """A scratch directory of this run, removed at exit."""
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vt_')
        if not os.environ.get('VT_KEEP'):
            atexit.register(shutil.rmtree, _tmp, True)
    return _tmp

def thorough():
    return TIER == 'thorough'

class BuildError(Exception):
    def __init__(self, cmd, out):
        super().__init__('command failed: ' + ' '.join(cmd) + '\n' + out[-6000:])
        self.out = out

def run(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       text=True, errors='replace', **kw)
    return p.returncode, p.stdout

def compile_obj(src, obj, flags=(), inc=()):
    cmd = [CXX, *STD, '-w', *flags, '-I' + INC, '-I' + os.path.join(VERIF, 'cxx'),
           *['-I' + i for i in inc], '-c', src, '-o', obj]
    rc, out = run(cmd)
    if rc:
        raise BuildError(cmd, out)
    return obj

def link(objs, exe, flags=()):
    cmd = [CXX, *flags, *objs, '-o', exe, '-lpthread']
    rc, out = run(cmd)
    if rc:
        raise BuildError(cmd, out)
    return exe

def pmap(fn, items, jobs=None):
    """Parallel map that returns (result, exception) pairs in order."""
    def call(x):
        try:
            return fn(x), None
        except BaseException as e:      # noqa: the caller decides
            return None, e
    with ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(call, items))

def build(name, source, flags=(), inc=(), link_flags=()):
    """Compile one C++ source text into an executable."""
    d = workdir()
    src = os.path.join(d, name + '.cpp')
    with open(src, 'w') as f:
        f.write(source)
    exe = os.path.join(d, name)
    cmd = [CXX, *STD, '-w', *flags, '-I' + INC, '-I' + os.path.join(VERIF, 'cxx'),
           *['-I' + i for i in inc], src, '-o', exe, '-lpthread', *link_flags]
    rc, out = run(cmd)
    if rc:
        raise BuildError(cmd, out)
    return exe

def known_findings(pid):
    """{key: description} of the findings listed for this property."""
    res = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, desc = rest.partition(' ')
                res[key.replace('key=', '')] = desc
    return res

class Check:
    """Collects cases and violations of one property and delivers the verdict."""
    def __init__(self, pid, rule, level='exploration', assumptions=()):
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.nontrivial = set()
        self.nontrivial_extra = 0
        self.samples = []
        self.extra = {}
        self.violations = []       # (message, replay dict, key)
        self.known = known_findings(pid)
        self.known_hit = {}
        self.rng = random.Random('%s/%d/%s' % (pid, SEED, TIER))

    def deadline(self, quick, thorough_s):
        return self.t0 + (thorough_s if thorough() else quick)

    def case(self, key=None, n=1):
        """One evaluated case; key identifies it when it is non-trivial."""
        self.evals += n
        if key is not None:
            self.nontrivial.add(hashlib.md5(repr(key).encode()).digest()[:8])

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, msg, replay, key=None):
        if key is not None and key in self.known:
            self.known_hit[key] = msg
            return
        self.violations.append((msg, replay))

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        d = os.path.join(VERIF, 'replays')
        for key, msg in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, key, self.known[key]))
        # a listed finding that no longer shows itself is reported as information only
        for key in sorted(set(self.known) - set(self.known_hit)):
            print('note: listed finding %s of %s did not occur in this run' % (key, self.pid))
        for i, (msg, replay) in enumerate(self.violations[:int(os.environ.get("VT_MAXV", "5"))]):
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s_%d.json' % (self.pid, i))
            with open(path, 'w') as f:
                json.dump(dict(property=self.pid, message=msg, seed=SEED, tier=TIER, replay=replay), f, indent=1, default=str)
            print('  ' + msg.replace('\n', '\n  ')[:3000])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.nontrivial) + self.nontrivial_extra,
                   rule=self.rule, samples=self.samples or ['(none)'])
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED,
                  level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d cases, %d distinct non-trivial, %d violation(s), %.1f s' % (
            self.pid, self.evals, len(self.nontrivial) + self.nontrivial_extra, len(self.violations), time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0

def ddmin(items, fails):
    """Smallest sublist (1-minimal) for which fails(sublist) still holds."""
    items = list(items)
    n = 2
    while len(items) >= 2:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items):
            cand = items[:i] + items[i + size:]
            if cand != items and fails(cand):
                items = cand
                n = max(n - 1, 2)
                reduced = True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    if len(items) == 1 and fails([]):
        return []
    return items
