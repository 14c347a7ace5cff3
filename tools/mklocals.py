#!/usr/bin/env python3
"""writes contracts/locals.json: names of parameters and locals of the functions under contract, for which the proof text is written.
Run when the proof text follows a changed tree."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts'))
import weave
from index import PROPS
os.environ['VP_NORENAME'] = '1'
res = {}
for t in sorted({t for c in PROPS.values() for t in c['theories']}):
    th = weave.load(t)
    by = dict(weave.extract_dep()['by_key'])
    by.update(weave.extract_for(th)['by_key'])
    for k in th.fns:
        if k in by and (k not in res or not th.fns[k].trusted):
            res[k] = weave.shape(by[k])
json.dump(res, open(weave.LOCALS, 'w'), indent=0, sort_keys=True)
