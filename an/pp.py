import json,sys
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%s'%(e[2] or e[1])
        elif e[0]=='d': s+=' as %s'%e[2]
        else: s+=str(e)
    return s
def op(o):
    if o[0]=='k':
        c=o[1]
        if 'fnd' in c: return 'fn:'+c['fnd'].get('res',c['fnd']['fn'])+('!' if c['fnd'].get('loc') else '')
        for k in('int','str','bstr','disp'):
            if k in c: return '%s=%r'%(k,c[k])+(('@'+c['def']) if 'def' in c else '')
        return str({k:v for k,v in c.items()})
    return ('mv ' if o[0]=='mv' else '')+pl(o[1])
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return '&%s %s'%(r[1],pl(r[2]))
    if k=='adt': return '%s::%s{%s}'%(r[1],r[3],', '.join('%s:%s'%(n,op(x)) for n,x in zip(r[4],r[5])))
    if k in('clo','cor'): return '%s %s[%s]'%(k,r[2],', '.join(op(x) for x in r[3]))
    if k in('tup','arr'): return '%s(%s)'%(k,', '.join(op(x) for x in r[1]))
    if k=='discr': return 'discr(%s)'%pl(r[1])
    if k=='bin': return '%s(%s,%s)'%(r[1],op(r[2]),op(r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(r[2]))
    if k=='cast': return 'cast(%s,%s)'%(r[1],op(r[2]))
    return str(r)
def pp(f):
    print('==',f['path'],f['file'],f['line'],'argc',f['argc'])
    print('  names',f['names'],'up',f['upvars'])
    for i,b in enumerate(f['bbs']):
        if b is None: continue
        print(' bb%d:'%i)
        for s in b[0]:
            if s[0]=='=': print('    %s = %s'%(pl(s[1]),rv(s[2])))
        t=b[1]
        if t[0]=='call': print('    %s = CALL %s(%s) -> %s   #%s'%(pl(t[3]),op(t[1]),', '.join(op(x) for x in t[2]),t[4],t[5]))
        elif t[0]=='sw': print('    switch %s %s else %s'%(op(t[1]),t[2],t[3]))
        elif t[0]=='drop': print('    drop %s -> %s (%s)'%(pl(t[1]),t[2],t[3][:60]))
        else: print('   ',t)
if __name__=='__main__':
    d=json.load(open('/verif/build/dump/%s.json'%sys.argv[1]))
    for f in d['fns']:
        if sys.argv[2] in f['path']:
            pp(f)
