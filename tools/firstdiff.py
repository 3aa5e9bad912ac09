#!/usr/bin/env python3
"""Shows the routes of the violations in out/ID/violation.json and the step that differs."""
import json,sys
if True:
    v=json.load(open('out/%s/violation.json'%sys.argv[1]))
    for v in (v if isinstance(v,list) else v.get('violations',[v])):
        if 'case' not in v: continue
        print([s[:2] for s in v['case']][:12],v.get('step')); print(' exp',json.dumps(v.get('expected'))[:1500]); print(' obs',json.dumps(v.get('observed'))[:1500])
