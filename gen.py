#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and registry.py."""
import json, os, props, registry
V = os.path.dirname(os.path.abspath(__file__))
TECH = 'symbolic execution of the LLVM IR compiled from the sources, decided by Z3 (bounded)'
out = []; checks = []; na = []
for pid, t in sorted(props.T.items()):
    assert len(t['title']) <= 80, pid
    assert t['statement'].count('. ') <= 2, pid
    for f in t['files']: assert os.path.exists('/repo/' + f), f
    out.append({'id': pid, 'title': t['title'], 'statement': t['statement'], 'quantifier': {'over': t['over'], 'text': t['qtext']}, 'why_tests_cant': t['why'],
                'anchors': {'files': t['files'], 'mechanism': [{'name': a, 'where': b} for a, b in t['mech']]}})
    if t['na']:
        na.append({'property': pid, 'reason': t['na']})
    else:
        assert registry.PROPS[pid]['units'], pid
        checks.append({'property': pid, 'quick_cmd': 'python3 run.py check %s --tier quick' % pid, 'thorough_cmd': 'python3 run.py check %s --tier thorough' % pid,
                       'technique': t['technique'] or TECH, 'level': 'model_checking',
                       'level_note': ('Exhaustive within the bounds: ' + t['bounds'] + '. Trusts the engine, its models of the C++ runtime and the solver. ' + t['note']).strip()})
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(o) + '\n' for o in out))
json.dump({'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
import methods
d = open(os.path.join(V, 'DESIGN.md')).read().split('\n## Properties\n')[0].rstrip() + '\n\n## Properties\n(this part is written by `gen.py` from `props.py`, `registry.py` and `methods.py`)\n'
for pid, t in sorted(props.T.items()):
    us = registry.PROPS.get(pid, {}).get('units', []) if not t['na'] else []
    d += '\n### %s %s\n' % (pid, t['title'])
    if t['na']:
        d += 'Not applicable: %s\n' % t['na']; continue
    d += '- Decided by: %s\n- Bounds: %s.\n- Units: %d in %s. Why tests cannot settle it: %s\n' % (methods.M[pid], t['bounds'], len(us), ', '.join(sorted({'`harness/%s`' % u['src'] for u in us})), t['why'])
d += '\n## Planted bugs\nEach lies in `seeded/<id>/`, or, to keep a run of vcheck short, in `planted/<id>/`; all are caught by the check of the property named in their `meta.json`.\n\n| bug | caught by | needs |\n|---|---|---|\n'
for s, p in methods.SEEDS:
    f = os.path.join(V, 'seeded', s, 'meta.json')
    if not os.path.exists(f): f = os.path.join(V, 'planted', s, 'meta.json')
    if os.path.exists(f):
        m = json.load(open(f)); d += '| %s | %s | %s |\n' % (s, p, str(m['needs']).replace('|', '/')[:220])
open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
