#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py, so that they
stay in step. Run by hand; the results are committed."""
import json, os, re, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
props, checks = [], []
for p in PROPS:
    if not os.path.exists(os.path.join(root, 'harness', p['id'].lower() + '.go')):
        print('not built yet:', p['id'])
        continue
    props.append({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['for_all']},
        'why_tests_cant': p['why'],
        'anchors': p['anchors'],
    })
    assert len(p['title']) <= 80, p['id']
    assert len(re.findall(r'[.!?](?:\s|$)', p['statement'])) <= 3, (p['id'], 'sentences')
    checks.append({
        'property': p['id'],
        'quick_cmd': './check.sh %s quick' % p['id'],
        'thorough_cmd': './check.sh %s thorough' % p['id'],
        'technique': p['technique'],
        'level': p.get('level', 'exploration'),
        'level_note': p['note'],
    })
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
manifest = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': [],
    'notes': 'All checks are one harness (harness/), built per property from /repo\'s working tree by check.sh; no hooks in /repo are needed. Exit 0 held, 1 violated, 2 no verdict.',
}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write('\n')
# known-findings.json: the known entries are kept, the fixed ones rebuilt.
kf = json.load(open(os.path.join(here, 'known.json')))
fixed = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
from props import FIX_OF
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if s.startswith('fix: '):
        fixed.append('fixed: property=%s %s %s' % (FIX_OF(s[5:]), h, s[5:]))
with open(os.path.join(root, 'known-findings.json'), 'w') as f:
    json.dump({'known': kf, 'fixed': fixed}, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(props), 'properties,', len(fixed), 'fixes')
