"""Regenerates MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
CLAIM = json.load(open(os.path.join(HERE, 'claims.json')))
m = dict(version=1, setup_cmd="/opt/venv/bin/python /verif/selftest.py", checks=[], not_applicable=[], notes=CLAIM.get('notes', ''))
for p in props:
    i = p['id']
    if i in CLAIM['claimed']:
        c = CLAIM['claimed'][i]
        m['checks'].append(dict(property=i, quick_cmd=f"/opt/venv/bin/python /verif/check.py {i} --tier quick", thorough_cmd=f"/opt/venv/bin/python /verif/check.py {i} --tier thorough",
                                technique="contract-based deductive verification: sidecar contracts on the real functions, VCs by symbolic execution of the unmodified code, discharged by z3/cvc5; run-time evaluation of the same contracts as cross-check and bounded stand-in",
                                level=c['level'], level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=CLAIM['na'].get(i, 'not yet built')))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
