#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from analysis/props.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + '/analysis')
from props import PROPS, NA
def line(pid, p):
    return dict(id=pid, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
with open(V + '/properties.jsonl', 'w') as f:
    for pid, p in sorted(list(PROPS.items()) + list(NA.items())): f.write(json.dumps(line(pid, p)) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[dict(property=k, reason=p['reason']) for k, p in sorted(NA.items())])
for pid, p in sorted(PROPS.items()):
    assert len(p['title']) <= 80, pid
    m['checks'].append(dict(property=pid, quick_cmd=f'python3 check.py {pid}', thorough_cmd=f'python3 check.py {pid} thorough', technique=p['technique'], level=p['level'], level_note=p['level_note']))
with open(V + '/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')
