#!/usr/bin/env python3
"""mkplant.py SPEC.py: writes seeded/<id>/ folders from specs (list PLANTS of dicts id, property, edits=[(file,old,new)], needs, breaks, demo)."""
import sys,subprocess,os,json,runpy
PRE=open('/verif/tools/demo_prelude.mjs').read()
spec=runpy.run_path(sys.argv[1])
for p in spec['PLANTS']:
    d='/verif/seeded/'+p['id']; os.makedirs(d,exist_ok=True)
    try:
        for f,o,n in p['edits']:
            t=open('/repo/'+f).read()
            assert t.count(o)==1,(p['id'],f,t.count(o),o)
            open('/repo/'+f,'w').write(t.replace(o,n))
        diff=subprocess.check_output(['git','-C','/repo','diff']).decode()
    finally:
        subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.mjs','w').write(PRE+'\n'+p['demo'].strip()+'\nok();\n')
    open(d+'/demo.sh','w').write('#!/bin/bash\n# exit 0: behaves as promised; non-zero otherwise. Run in /repo after the build.\nexec node "$(dirname "$0")/demo.mjs"\n')
    json.dump(dict(property=p['property'],needs=p['needs'],what_it_breaks=p['breaks']),open(d+'/meta.json','w'),indent=1)
    print(p['id'])
