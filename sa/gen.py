#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from sa/prop_defs.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import props

checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for pid, s in sorted(props.PROPS.items()):
        assert len(s.title) <= 80, (pid, len(s.title))
        f.write(json.dumps({
            'id': pid, 'title': s.title, 'statement': s.statement,
            'quantifier': {'over': s.over, 'text': s.quantifier},
            'why_tests_cant': s.why,
            'anchors': {'files': s.files, 'mechanism': [dict(zip(('name', 'where'), m)) for m in s.mechanism], 'hook_needed': None},
        }) + '\n')
        if s.not_applicable:
            na.append({'property': pid, 'reason': s.not_applicable})
            continue
        checks.append({
            'property': pid, 'quick_cmd': 'python3 sa/check.py ' + pid,
            'thorough_cmd': 'VERIF_TIER=thorough python3 sa/check.py ' + pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'static analysis: ' + s.technique, 'level': 'other',
            'level_note': s.note or s.explanation,
        })
m = {'version': 1, 'setup_cmd': 'bash sa/build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. The fix: commits in /repo are listed in known_findings.txt.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
