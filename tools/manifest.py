"""writes /verif/MANIFEST.json from the plan"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'harness'))
import plan
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
MODELS = (' Besides, TLC explores small worlds exhaustively, checks the specification there against independent '
          'statements of the property, and what it explored is replayed on the code (within the time limit, a sample of it).')
checks, na = [], []
for p in props:
    i = p['id']
    if i in plan.PLAN:
        P = plan.PLAN[i]
        checks.append({
            'property': i,
            'quick_cmd': f'/opt/venv/bin/python harness/check.py {i} quick',
            'thorough_cmd': f'/opt/venv/bin/python harness/check.py {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': P.get('technique', plan.TECHNIQUE),
            'level': 'model_checking',
            'level_note': P.get('note', plan.NOTE) + (MODELS if P.get('models') else ''),
        })
    else:
        na.append({'property': i, 'reason': plan.NA.get(i, 'no check yet')})
m = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python harness/setup.py',
    'hooks': {'guard': 'none', 'enable': 'no hooks: everything is observed through the public interface', 'source_commits': []},
    'checks': checks, 'not_applicable': na,
}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
