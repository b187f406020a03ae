#!/usr/bin/env python3
"""replay.py <replay file>: runs the recorded history of a packet check again and prints every answer."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import pkdrv, pk_checks
from vt.pkmodel import make
r = json.load(open(sys.argv[1]))
print(r['property'], r['message'])
r = r['replay']
if 'definition' not in r or not ('ops' in r or 'offered' in r or 'lines' in r):
    sys.exit(json.dumps(r, indent=1)[:8000])
pk = make(r['definition'])
b = pkdrv.Built([pk])
if b.errors:
    sys.exit(b.errors[0])
if 'offered' in r:
    lines, want = ['0 X ' + r['offered']], [r['expected']]
elif 'lines' in r:
    lines, want = r['lines'], r['lines']
else:
    lines = ['0 N'] + [pkdrv.op_line(0, o) for o in r['ops']]
    want = pk_checks.expect(pk, r['ops'])
out, rc, err = b.run_once(lines)
for l, w, o in zip(lines, want, out):
    d = '' if 'ops' not in r else pk_checks.differ(w, o)
    print(l, '\n    ->', o, ('\n    !! ' + d) if d else '')
print('exit', rc, err[-3000:])
