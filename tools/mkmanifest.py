"""Writes MANIFEST.json from the plan (engine/plan.py) and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'engine'))
sys.setrecursionlimit(100000)
import plan
NA = getattr(plan, 'NOT_APPLICABLE', {})
checks, na = [], []
for l in open(os.path.join(R, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in plan.PLAN:
        s = plan.PLAN[p]
        checks.append(dict(property=p, quick_cmd='python3 engine/run.py ' + p, thorough_cmd='python3 engine/run.py %s --tier thorough' % p,
                           evidence_file='evidence/%s.json' % p,
                           technique=s.get('technique', 'abstract interpretation of compiler MIR (gated value-flow, inductive loop summaries) against an ABI specification'),
                           level=s.get('level', 'other'),
                           level_note=s.get('note', 'Static: every obligation is discharged over all inputs by canonical equality of derived value expressions or the numeric domain; refuted obligations carry a valuation. Assumes a 64-bit little-endian host, lengths below 2^62 and std behaving as modelled.')))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'No check has been built yet.')))
json.dump(dict(version=1, setup_cmd='python3 engine/build.py --setup', checks=checks, not_applicable=na),
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
