import json,sys,collections
crate=sys.argv[1]
d=json.load(open('/verif/build/dump/%s.json'%crate))
F={f['id']:f for f in d['fns']}
def callees(f):
    for b in f['bbs']:
        if b is None: continue
        for s in b[0]:
            if s[0]=='=' and s[2][0] in('clo','cor'): yield ('loc',s[2][1],None)
            if s[0]=='=':
                for o in str_ops(s[2]): yield o
        t=b[1]
        if t[0]=='call':
            if t[1][0]=='k' and 'fnd' in t[1][1]:
                c=t[1][1]['fnd']
                if c.get('loc') and c['resid'] in F: yield('loc',c['resid'],None)
                else: yield('ext',c.get('res') or c['fn'],c['fn'])
            for o in t[2]:
                if o[0]=='k' and 'fnd' in o[1]:
                    c=o[1]['fnd']
                    if c.get('loc') and c['resid'] in F: yield('loc',c['resid'],None)
def str_ops(r):
    return []
roots=[f['id'] for f in d['fns'] if f.get('export')]
if not roots: roots=[f['id'] for f in d['fns'] if f['path'].endswith('::main')]
seen=set();st=list(roots);ext=collections.Counter()
while st:
    i=st.pop()
    if i in seen: continue
    seen.add(i)
    for k,a,b in callees(F[i]):
        if k=='loc': st.append(a)
        else: ext[(a,b)]+=1
print(len(seen))
for (a,b),n in sorted(ext.items(),key=lambda x:-x[1]): print(n,a, '' if a==b else '  <'+b+'>')
