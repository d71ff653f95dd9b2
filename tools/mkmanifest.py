"""Regenerate MANIFEST.json from properties.jsonl and the property modules present."""
import json
from pathlib import Path
root = Path(__file__).resolve().parent.parent
TECH = 'property-based testing (Hypothesis): '
NOTE = {}
exec((root / 'tools' / 'notes.py').read_text())
checks, na = [], []
for line in (root / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    i = p['id']
    if (root / 'props' / f'{i.lower()}.py').exists():
        t, n = NOTE.get(i, ('generated inputs against an independent oracle', 'Search over generated inputs; no proof of absence.'))
        checks.append(dict(property=i, quick_cmd=f'bash run.sh {i} --tier quick', thorough_cmd=f'bash run.sh {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=TECH + t, level='exploration', level_note=n))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed: every check uses the public API of the working tree. See DESIGN.md and known_findings.txt.')
(root / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), len(na))
