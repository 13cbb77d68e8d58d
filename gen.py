#!/usr/bin/env python3
""" Write properties.jsonl and MANIFEST.json from sa/props.py """
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa.props import PROPS  # noqa
try:
    from sa.props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}


def line(pid, p):
    a = {'files': p['files'], 'mechanism': p['mech']}
    if p.get('state'):
        a['state'] = p['state']
    return {'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'], 'anchors': a}


with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for pid, p in sorted({**PROPS, **NOT_APPLICABLE}.items()):
        assert len(p['title']) <= 80, pid
        f.write(json.dumps(line(pid, p)) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py >/dev/null 2>&1; true',
     'checks': [{'property': pid, 'quick_cmd': 'python3 check.py %s' % pid,
                 'thorough_cmd': 'python3 check.py %s --thorough' % pid, 'technique': 'static analysis: ' + p['technique'],
                 'level': 'other', 'level_note': p['note']} for pid, p in sorted(PROPS.items())],
     'not_applicable': [{'property': pid, 'reason': p['note']} for pid, p in sorted(NOT_APPLICABLE.items())]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
import subprocess  # noqa
subprocess.run([sys.executable, os.path.join(HERE, 'dev', 'design.py')], check=True)
