#!/usr/bin/env python3
"""show.py WORLD PROFILE SEED [log] - run one seed and print the trace (debug helper)."""
import json,subprocess,sys,os
w,p,s=sys.argv[1:4]; env=dict(os.environ)
if len(sys.argv)>4: env['SIM_LOG']=sys.argv[4]
v=os.environ.get('SIM_VARIANT','plain')
cmd=f"{w} {p} seed {s} trace\n" if s.isdigit() else f"{w} {p} replay {s} trace\n"
r=subprocess.run([os.path.dirname(__file__)+f'/../build/{v}/sim'],input=cmd,text=True,capture_output=True,env=env,errors='replace')
for l in r.stdout.splitlines():
    d=json.loads(l); t=d.pop('trace',''); 
    print(t if isinstance(t,str) else '\n'.join(t)); d.pop('choices',0); d.pop('cov',0); print(d)
print(r.stderr)
