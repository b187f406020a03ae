"""Runs the command line of the working tree in one process, one job per line (JSON) of standard input:
{"args": [...], "cwd": directory}.  Answers one line per job: {"status", "code", "error", "output"}.
The generated files are read by the caller.  Templates are compiled once per process."""
import sys, os, io, json, contextlib, warnings
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
warnings.simplefilter('ignore')
import jinja2

class Memory(jinja2.BytecodeCache):
    def __init__(self):
        self.d = {}
    def load_bytecode(self, bucket):
        if bucket.key in self.d:
            bucket.bytecode_from_string(self.d[bucket.key])
    def dump_bytecode(self, bucket):
        self.d[bucket.key] = bucket.bytecode_to_string()
cache = Memory()
plain = jinja2.Environment.__init__
def init(self, *a, **k):
    k.setdefault('bytecode_cache', cache)
    plain(self, *a, **k)
jinja2.Environment.__init__ = init

from vrtgen import main
answers = os.fdopen(os.dup(1), 'w')
for line in sys.stdin:
    job = json.loads(line)
    os.chdir(job['cwd'])
    sys.argv = ['vrtpktgen'] + job['args']
    text = io.StringIO()
    code, status = 0, 'done'
    with contextlib.redirect_stdout(text), contextlib.redirect_stderr(text):
        import logging
        for h in list(logging.getLogger().handlers):
            logging.getLogger().removeHandler(h)
        try:
            main.main()
        except SystemExit as e:
            # what the interpreter would do with it
            status = 'exit'
            code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            if code and not isinstance(e.code, int):
                print(e.code)
        except BaseException as e:
            status, code = 'exception', 1
            print('%s: %s' % (type(e).__name__, e))
    answers.write(json.dumps(dict(status=status, code=code, output=text.getvalue()[-3000:])) + '\n')
    answers.flush()
