import sys,time
import engine
from engine import *
p=Program(sys.argv[1])
names=sys.argv[2:]
for e,f in p.exports.items():
    if names and not any(n in e for n in names): continue
    en=Engine(p)
    t=time.time()
    try:
        g=en.explore(f)
    except Exception as ex:
        print(e,'EXC',type(ex).__name__,str(ex)[:300]); 
        if names: raise
        continue
    print('%-60s nodes %6d edges %6d trunc %s ends %s ext %d  %.2fs'%(e,len(g.nodes),sum(map(len,g.edges)),g.truncated,sorted(set(g.ends.values())),len(en.stats['ext']),time.time()-t))
    if names:
        for k,n in sorted(en.stats['ext'].items()): print('    ext',n,k)
