import re,sys
t=sys.stdin.read(); N=0
src=open('/tmp/vxo/lib.rs').read().split('\n')
def fn(l):
    for i in range(l-1,0,-1):
        m=re.search(r'\bfn (\w+)',src[i-1])
        if m and '//' not in src[i-1]: return m.group(1)
for b in re.split(r'\n(?=error|warning|note: |verification)',t):
    if b.startswith('verification'): print(b.split('\n')[0]); continue
    if not b.startswith('error') and 'panicked' not in b: continue
    h=b.split('\n')[0]
    if h.startswith('error: aborting'): continue
    m=re.search(r'--> \S+:(\d+):(\d+)',b)
    l=int(m.group(1)) if m else 0
    N+=1
    if N>25: continue
    print('*',h,'|',fn(l) if l else '')
    ls=[x for x in b.split('\n') if re.match(r'\s*\d+\s+[|/]',x) or 'failed' in x or 'at this' in x or 'help' in x or 'expected' in x]
    for x in ls[:10]: print('    ',x[:220])
