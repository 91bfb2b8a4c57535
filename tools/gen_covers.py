#!/usr/bin/env python3
"""specs/covers.json: the situations every harness reaches (from the evidence of a run of all checks on a tree where
the properties hold); a later run in which one of them cannot be reached any more is not believed to be a proof."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sorted(glob.glob(V + '/evidence/C*.json')):
    for h in json.load(open(f))['coverage'].get('harnesses', []):
        if h.get('reached'):
            res[h['name']] = sorted(set(res.get(h['name'], [])) | set(h['reached']))
json.dump(res, open(V + '/specs/covers.json', 'w'), indent=0, sort_keys=True)
print(len(res), 'harnesses', sum(map(len, res.values())), 'situations')
