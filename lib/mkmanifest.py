#!/usr/bin/env python3
"""Regenerates MANIFEST.json from lib/props.py (python3 lib/mkmanifest.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for pid, p in sorted(props.PROPS.items()):
    tech = ('stateful property-based testing of the real collectors against a shadow-heap model, with shrinking'
            if p.get('gc') and not p.get('units') else
            'property-based testing of the real component against a reference model, with shrinking'
            if not p.get('gc') else
            'stateful property-based testing of whole collectors against a shadow-heap model, and of '
            'components against reference models, with shrinking')
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 check.py %s' % pid,
        'thorough_cmd': 'python3 check.py %s --thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': tech,
        'level': 'exploration',
        'level_note': p.get('note', 'Randomly generated histories; a case counts as non-trivial if it is ' + p['rule'] + '. '
                            'Nothing is claimed beyond the cases explored; schedules are sampled.'),
    })
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks,
     'not_applicable': [],
     'notes': 'No hooks in /repo are needed: the harness is an embedder of the public API, and unit drivers '
              'include internal headers. VERIF_REPO selects another tree, VERIF_SCALE scales run time.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
