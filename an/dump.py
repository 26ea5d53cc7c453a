"""dump the set of distinct labels of an exploration: dump.py crate export-substr"""
import sys
from engine import *
p=Program(sys.argv[1])
for e,f in list(p.exports.items()):
    if sys.argv[2]!=e.split('.')[-1] : continue
    en=Engine(p); g=en.explore(f)
    seen=[]
    S=set()
    # BFS order
    from collections import deque
    q=deque([0]); vis={0}
    while q:
        n=q.popleft()
        for d,labs in g.edges[n]:
            for l in labs:
                if l not in S:
                    S.add(l); seen.append((n,l))
            if d not in vis: vis.add(d); q.append(d)
    W=int(sys.argv[3]) if len(sys.argv)>3 else 220
    done=set()
    for n,l in seen:
        if "encode_one" in repr(l[1:3]) or "msg_arg" in repr(l[1:3]): continue
        if l[0]=='e' and l[1] in ('borrow','unborrow') and len(sys.argv)<5: continue
        loc=l[-1]
        def sh(x):
            if isinstance(x,V): return show(x)
            if isinstance(x,tuple): return '('+', '.join(map(sh,x))+')'
            return str(x)
        t='  '.join(sh(x) for x in l[1:-1]).replace('core_nft::state::','').replace('__STATE.Some.0.data','DATA').replace('__STATE, Some, 0, data','DATA').replace('core_nft::','')
        import re
        def cutret(t):
            while True:
                m=re.search(r'ret\[[^]]*add_transaction\]\(',t)
                if not m or l[1]=='call': return t
                d=0;i=m.end()-1
                while i<len(t):
                    d+=t[i]=='('; d-=t[i]==')'
                    i+=1
                    if d==0: break
                t=t[:m.start()]+'LOGRET'+t[i:]
        t=cutret(t)[:W]
        if (l[0],t) in done: continue
        done.add((l[0],t))
        print('%-4d %-2s %s   @%s:%s'%(n,l[0],t,loc[1].split('/')[-1] if isinstance(loc,tuple) else '',loc[2] if isinstance(loc,tuple) else loc))
