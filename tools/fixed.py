#!/usr/bin/env python3
""" tools/fixed.py <property> <what failed>: record /repo's last commit as the repair of a defect. """
import json, os, subprocess, sys
c = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%H'], text=True).strip()
d = {'property': sys.argv[1], 'key': 'fixed-' + c[:7], 'status': 'fixed', 'commit': c,
     'what': f'fixed: property={sys.argv[1]} {c} {sys.argv[2]}'}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.jsonl'), 'a') as f:
    f.write(json.dumps(d) + '\n')
