#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks present in harness/checks."""
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
notes=json.load(open(root+'/tools/notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if os.path.exists(f'{root}/harness/checks/{i}.ts'):
        n=notes.get(i,{})
        checks.append(dict(property=i,
          quick_cmd=f'node harness/run.mjs {i}',
          thorough_cmd=f'VERIF_TIER=thorough node harness/run.mjs {i}',
          evidence_file=f'evidence/{i}.json',
          technique=n.get('technique','property-based testing (fast-check) against a reference model'),
          level=n.get('level','exploration'),
          level_note=n.get('note','Randomised search with shrinking on the real code, deterministic in VERIF_SEED; never establishes absence. Trusts the harness fakes (virtual clock, in-memory network, in-memory exporter).')))
    else:
        na.append(dict(property=i,reason='check not built yet'))
m=dict(version=1,setup_cmd='node harness/setup.mjs',checks=checks,not_applicable=na,
 notes='Every check bundles the SDK sources of /repo\'s working tree with esbuild (no hooks in /repo are needed) and runs generated cases in a supervised child process. Replay: node harness/run.mjs <ID> --replay <file>.')
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1);open(root+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(na),'n/a')
