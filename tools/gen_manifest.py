#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks and the list of properties."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT)); sys.dont_write_bytecode = True
from sa.checks.registry import CHECKS
from sa.checks.notes import NOTES, NA
props = [json.loads(l) for l in (ROOT / 'properties.jsonl').read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        _, level, tech = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 /verif/check.py {i} --tier quick', thorough_cmd=f'python3 /verif/check.py {i} --tier thorough',
                           technique=tech, level=level, level_note=NOTES['*'] + ' ' + NOTES.get(i, '')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check for this property has been completed yet.')))
(ROOT / 'MANIFEST.json').write_text(json.dumps(dict(
    version=1, setup_cmd='true', checks=checks, not_applicable=na,
    notes='Static analysis only: every check parses /repo/orthority/*.py on each run with the Python standard library and executes nothing of it. No hooks are needed in /repo.'),
    indent=1, ensure_ascii=False) + '\n')
print(len(checks), 'checks', len(na), 'not applicable')
