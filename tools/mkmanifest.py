#!/usr/bin/env python3
"""Writes MANIFEST.json and levels.json from the table below."""
import json
T="contract-based deductive verification: VCs generated from go/ssa of /repo under /verif/contracts, discharged by z3/cvc5 (gowp)"
TB="bounded run-time assertion of the property's postconditions on the real code (stand-in while no contract decides it)"
import os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
notes=json.load(open(here+'/tools/notes.json'))
checks=[];levels={}
for p in props:
    i=p['id']; n=notes[i]
    levels[i]=n['level']
    checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
      "evidence_file":"evidence/%s.json"%i,
      "technique":T if n['level']=='proof' else n.get('technique',TB),"level":n['level'],"level_note":n['note']})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[],
 "notes":"Every check builds the verifier (gowp) and the replay driver from /verif and /repo's working tree. Contracts are keyed by function in /verif/contracts; /repo carries no hooks."},
 open(here+'/MANIFEST.json','w'),indent=1)
json.dump(levels,open(here+'/levels.json','w'),indent=1)
