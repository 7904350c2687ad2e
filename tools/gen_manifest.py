#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks/table.py and properties.jsonl."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from checks.table import CHECKS
props = [json.loads(l) for l in open(V / 'properties.jsonl')]
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=[], not_applicable=[],
         notes='All checks build the current /repo sources against the ROS stand-in in shim/ (see DESIGN.md). '
               'Genuine defects found are repaired by "fix:" commits in /repo and listed in known_findings.txt.')
for p in props:
    c = CHECKS.get(p['id'])
    if c is None:
        m['not_applicable'].append(dict(property=p['id'], reason='no check has been built for it yet'))
        continue
    m['checks'].append(dict(property=p['id'], quick_cmd=f'python3 run.py {p["id"]} quick',
                            thorough_cmd=f'python3 run.py {p["id"]} thorough',
                            technique=c.get('technique', 'property-based testing with a reference model'),
                            level='exploration', level_note=c.get('note', '')))
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
