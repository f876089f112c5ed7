#!/usr/bin/env python3
import json,sys
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
claimed=json.load(open('/verif/tools/claimed.json'))
NA={
'N01':"Pure function of one (variant, argument types) input: no schedule, fault, clock, history or second party can change the answer; deterministic simulation would be input generation in disguise.",
'N02':"Pure value conversions with no nondeterminism or fault surface; an exhaustive/numeric technique decides them, simulation cannot add anything.",
'N03':"Pure function from text to type: no schedule, fault or history dimension (the concurrent and history-dependent sides of parsing are claimed in C01, C02, C11).",
'N04':"Per-call validation and schema computation are pure functions of the arguments; what histories, copies and hops can break about them is claimed in C06, C09, C10.",
'N05':"Input-space (malformed message) robustness is fuzzing territory: it needs no schedule, fault sequence or history, only unusual bytes.",
}
m={'version':1,'setup_cmd':'bash setup.sh','checks':[],'not_applicable':[],
 'hooks':{'guard':'none','enable':'No hooks are committed in /repo: yield points, simulated sync primitives and the seeded runtime randomness are inserted at build time into a generated overlay (go build -overlay) outside /repo.','source_commits':[]},
 'notes':'See DESIGN.md.'}
for p in props:
    if p in claimed:
        c=claimed[p]
        m['checks'].append({'property':p,'quick_cmd':f'bash check.sh {p}','thorough_cmd':f'bash check.sh {p}',
          'evidence_file':f'evidence/{p}.json','technique':c['technique'],'level':'exploration','level_note':c['note']})
    else:
        m['not_applicable'].append({'property':p,'reason':NA.get(p,'Check under construction in this session; not claimed yet.')})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
