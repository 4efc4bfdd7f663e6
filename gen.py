#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property modules (props/*.py) and props/na.py."""
import glob, importlib, json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)


def prop(pid, M):
    assert len(M['title']) <= 80, (pid, len(M['title']))
    return {
        'id': pid, 'title': M['title'], 'statement': M['statement'],
        'quantifier': {'over': M['over'], 'text': M['qtext']},
        'why_tests_cant': M['why'],
        'anchors': {'files': M['files'], 'mechanism': [{'name': a, 'where': b} for a, b in M['mechanism']],
                    'state': [{'name': a, 'meaning': b, 'where': w} for a, b, w in M.get('state', [])],
                    'observe_at': M.get('observe', []), 'hook_needed': None},
    }


props, checks, na = [], [], []
for p in sorted(glob.glob(os.path.join(H, 'props', 'c[0-9]*.py'))):
    pid = os.path.basename(p)[:-3].upper()
    mod = importlib.import_module('props.' + pid.lower())
    props.append(prop(pid, mod.META))
    checks.append({'property': pid, 'quick_cmd': 'python3 check.py ' + pid, 'thorough_cmd': 'python3 check.py %s --thorough' % pid,
                   'technique': mod.META['technique'], 'level': 'other', 'level_note': mod.META['level_note']})
from props import na as N
for pid, M, reason in N.NA:
    props.append(prop(pid, M))
    na.append({'property': pid, 'reason': reason})
props.sort(key=lambda x: x['id'])
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for x in props:
        f.write(json.dumps(x) + '\n')
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
               'notes': 'Static analysis of /repo source: facts are extracted with a libTooling program (tool/extract.cpp) and decided by the rules in props/. See DESIGN.md.'}, f, indent=1)
    f.write('\n')
print(len(props), 'properties,', len(checks), 'claimed')

# DESIGN.md
D = [open(os.path.join(H, 'doc', 'head.md')).read(), '## Properties\n']
import re
kf = json.load(open(os.path.join(H, 'known-findings.json')))
for p in sorted(glob.glob(os.path.join(H, 'props', 'c[0-9]*.py'))):
    pid = os.path.basename(p)[:-3].upper()
    mod = importlib.import_module('props.' + pid.lower())
    M = mod.META
    src = open(p).read()
    D.append('### %s - %s\n' % (pid, M['title']))
    D.append('%s\n' % M['statement'])
    D.append('*Decided by:* %s. %s\n' % (M['technique'], mod.EXPLAIN))
    D.append('*Rules:*\n')
    for r, t in re.findall(r"c\.rule\('(R\d+\w*)', '((?:[^'\\\\]|\\\\.)*)'\)", src):
        D.append('- %s: %s' % (r, t))
    D.append('\n*Limits:* %s *Why tests cannot:* %s\n' % (M['level_note'], M['why']))
D.append('## Not applicable\n')
for pid, M, reason in N.NA:
    D.append('- %s, %s: %s' % (pid, M['title'], reason))
D.append('\n## Findings on the pinned tree\n')
D.append('Repaired (each by its own "fix:" commit in /repo, confirmed against the real code with a small driver):\n')
D += ['- ' + k['text'] for k in kf if k['status'] == 'fixed']
D.append('\nRecorded, not repaired:\n')
D += ['- %s (%s): %s' % (k['property'], k['construct'], k['text']) for k in kf if k['status'] == 'known']
D.append('\n## Planted bugs\n')
D.append('Each lies in `seeded/<id>/`; all were confirmed in a scratch copy (builds, passes the stable tests, demo fails only with the patch).\n')
D.append('| id | property | what it breaks | caught by |\n|---|---|---|---|')
caught = json.load(open(os.path.join(H, 'doc', 'caught.json')))
for d in sorted(glob.glob(os.path.join(H, 'seeded', '*'))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, 'meta.json')))
    D.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('\n', ' '), caught.get(i, 'not checked')))
tail = os.path.join(H, 'doc', 'tail.md')
if os.path.exists(tail):
    D.append('\n' + open(tail).read())
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(D) + '\n')
