"""Writes MANIFEST.json from rules/obligations.py, rules/about.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'rules'))
import obligations, about
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in obligations.OBL:
        checks.append(dict(property=p, quick_cmd=f'python3 check.py {p} --tier quick', thorough_cmd=f'python3 check.py {p} --tier thorough',
                           evidence_file=f'evidence/{p}.json', technique=about.TECHNIQUE.get(p, about.DEFAULT_TECHNIQUE), level='other',
                           level_note=about.NOTE.get(p, about.DEFAULT_NOTE)))
    else:
        na.append(dict(property=p, reason=about.NA.get(p, 'no rule built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='All checks are static: check.py compiles the sources of /repo to byte code and interprets it abstractly; nothing of /repo is imported or run.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
