#!/usr/bin/env python3
# writes /verif/MANIFEST.json from the table below and properties.jsonl
import json, subprocess, os
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
claimed=json.load(open(V+'/tools/claims.json'))
log=subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines()
hooks=[l.split()[0] for l in log if 'verif hooks' in l]
checks=[];na=[]
for p in props:
    c=claimed.get(p['id'])
    if not c: na.append({'property':p['id'],'reason':'the check is still being built'}); continue
    if 'na' in c: na.append({'property':p['id'],'reason':c['na']}); continue
    checks.append({'property':p['id'],'quick_cmd':f"VERIF_TIER=quick ./check {p['id']}",'thorough_cmd':f"VERIF_TIER=thorough ./check {p['id']}",
      'technique':c['technique'],'level':c.get('level','exploration'),'level_note':c['note']})
m={'version':1,'setup_cmd':'./check build','hooks':{'guard':'Go build tags verif, verifks1 and verifks2','enable':'go build -tags "cppbtree verif" (and verifks1, verifks2 for the rabbit store with 1- and 2-byte short keys)','source_commits':hooks},
 'checks':checks,'not_applicable':na,'notes':'One script, /verif/check, rebuilds the harness from /repo and runs every check; see DESIGN.md.'}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
