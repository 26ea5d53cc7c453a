import sys,re
from engine import *
p=Program(sys.argv[1])
kinds=set(sys.argv[2].split(','))
for e,f in p.exports.items():
    if len(sys.argv)>3 and not any(x in e for x in sys.argv[3:]): continue
    en=Engine(p); g=en.explore(f)
    S={}
    for n in range(len(g.nodes)):
        for d,labs in g.edges[n]:
            for l in labs:
                if l[0]=='e' and l[1] in kinds:
                    def sh(x):
                        if isinstance(x,V): return show(x)
                        if isinstance(x,tuple): return '('+', '.join(map(sh,x))+')'
                        return str(x)
                    t='  '.join(sh(x) for x in l[1:-1]).replace('core_nft::state::','').replace('__STATE.Some.0.data','DATA').replace('__STATE, Some, 0, data','DATA').replace('core_nft::','')
                    t=re.sub(r'.*encode_one.*','',t)
                    if t: S.setdefault((t[:200],l[-1][1].split('/')[-1] if isinstance(l[-1],tuple) else ''),l[-1][2] if isinstance(l[-1],tuple) else 0)
    if S:
        print('==',e)
        for (t,fl),ln in sorted(S.items(),key=lambda x:(x[0][1],x[1])): print('   ',t,'@%s:%s'%(fl,ln))
