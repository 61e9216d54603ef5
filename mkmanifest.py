import json
props=[json.loads(l) for l in open('properties.jsonl')]
PROOF=json.load(open('levels.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i=='C21':
        na.append({'property':i,'reason':'serialization is code generated by serde derive macros (and smallvec/serde); there is no function of the repository to put under contract, and no verifier here accepts the macro output'})
        continue
    lv,note=PROOF[i]
    checks.append({'property':i,'quick_cmd':f'python3 check.py {i}','thorough_cmd':f'VERIF_TIER=thorough python3 check.py {i}',
      'technique':'contract-based deductive verification (Verus) of the functions extracted from /repo/src on every run; failing inputs searched on the real code','level':lv,'level_note':note})
json.dump({'version':1,'setup_cmd':'bash setup.sh','checks':checks,'not_applicable':na},open('MANIFEST.json','w'),indent=1)
