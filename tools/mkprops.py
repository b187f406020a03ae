#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []

def prop(id, title, statement, over, text, why, files, mech, technique, note, level='exploration'):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                       anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])),
                  dict(property=id, quick_cmd='python3 check.py %s' % id, thorough_cmd='python3 check.py %s thorough' % id,
                       technique=technique, level=level, level_note=note)))

exec(open(os.path.join(HERE, 'tools', 'props_table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _ in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='python3 tools/setup.py', hooks=dict(guard='VRTGEN_VERIF_UNUSED', enable='no hooks are needed', source_commits=[]),
           checks=[c for _, c in PROPS], not_applicable=NA)
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
