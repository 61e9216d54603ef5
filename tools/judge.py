#!/usr/bin/env python3
"""development: verdict of the deductive part alone, for all properties at once (run with /repo = tree to judge)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + '/check.py').read().split('# ---------------------------------------------------------------- main')[0]
ns = {'__file__': V + '/check.py'}

exec(src, ns)
w = V + '/work/judge'
os.makedirs(w, exist_ok=True)
P = ns['Proof'](w)
P.run()
base = json.load(open(V + '/baseline.json'))
if P.fatal or not P.map:
    print('FATAL', P.fatal); sys.exit()
st = ns['judge'](P, base)
bad = {i: s for i, s in st.items() if s[0] in ('failed', 'bounded')}
props = {}
for f in P.map['functions']:
    if f['id'] in bad:
        s = bad[f['id']]
        print(s[0].upper(), f['id'], f['props'], s[1][:700 if '-v' in sys.argv else 160].replace('\n', ' / '))
        if s[0] == 'failed':
            for p in f['props']: props.setdefault(p, []).append(f['id'])
for o in P.other.items(): print('OTHER', *o[:300])
if P.regained: print('regained', P.regained)
print('rounds', P.rounds, 'missing', P.map['missing'], 'drops', list(P.drops), 'ALARMS', sorted(props))
