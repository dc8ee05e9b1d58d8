"""Writes MANIFEST.json from contracts/registry.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from contracts import registry
props = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
TECH = ('contract-based deductive verification of the real source: path-wise VC generation (pydv) from the ast of /repo against '
        'sidecar contracts, obligations discharged by z3/cvc5')
checks, na = [], []
for p in props:
    P = registry.PROPS.get(p)
    if P is None:
        na.append(dict(property=p, reason=registry.NOT_APPLICABLE.get(p, 'check under construction')))
        continue
    checks.append(dict(property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {p}',
                       evidence_file=f'evidence/{p}.json', technique=P.get('technique', TECH), level=P.get('level', 'proof'),
                       level_note=P.get('note', '') + ' Assumes: ' + '; '.join(P['trusted'] + registry.TRUSTED_COMMON)))
m = dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=na)
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
