import sys,time,signal,os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
class TO(Exception): pass
def _h(*a): raise TO('timeout')
signal.signal(signal.SIGALRM,_h)
t=time.time()
from interp import *
p=Prog('/tmp/dump.json'); print('load',time.time()-t)
import pickle
ok=0; bad={}
def symval(p,ty,name,I):
    t=p.types[ty]; k=t['k']
    if p.W[ty] is not None:
        return var(name,p.W[ty]) if p.W[ty] else var(name,0)
    if k=='array': return (0,tuple(symval(p,t['e'],name+'.%d'%i,I) for i in range(t['len'])))
    if k=='tuple': return (0,tuple(symval(p,f,name+'.%d'%i,I) for i,f in enumerate(t['fields'])))
    if k in('ref','ptr'):
        it=p.types[t['t']]
        if it['k']=='str': return Ref(I.alloc_cell((0,tuple(var(name+'.%d'%i,8) for i in range(8)))),(),(0,8))
        if it['k']=='slice':
            n=4; return Ref(I.alloc_cell((0,tuple(symval(p,it['e'],name+'.%d'%i,I) for i in range(n)))),(),(0,n))
        return Ref(I.alloc_cell(symval(p,t['t'],name,I)))
    if k=='adt':
        d=t['def']
        if d=='alloc::vec::Vec': return (0,tuple(symval(p,t['args'][0],name+'.%d'%i,I) for i in range(4)))
        if d.endswith('Sign'): return (2,())
        if d=='core::marker::PhantomData': return UNIT
        if t['adt']=='struct': return (0,tuple(symval(p,f[1],name+'.'+f[0],I) for f in t['variants'][0][1]))
    if k=='closure' or k=='fndef': return UNIT
    raise Unsupported('symval '+t.get('str','?'))
import collections
if __name__=='__main__':
    filt=sys.argv[1] if len(sys.argv)>1 else ''
    T0=time.time()
    errs=collections.Counter(); ex={}
    slow=[]
    for n,i in p.roots.items():
        if filt and filt not in n: continue
        I=Interp(p,budget=300000)
        b=p.body(i)
        tt=time.time()
        signal.alarm(int(os.environ.get('TL','10')))
        try:
            args=[symval(p,ty,'a%d'%k,I) for k,ty in enumerate(b.locals[1:1+b.argc])]
            v=I.go(i,args)
            errs['ok']+=1
            if len(sys.argv)>2: print(n,v,I.events)
        except Unsupported as e:
            errs['U '+str(e)[:90]]+=1; ex.setdefault('U '+str(e)[:90],n+' @ '+' < '.join(p.fns[f]['def'][-40:] for f in I.stack[-4:]))
        except Exception as e:
            import traceback
            k='E '+repr(e)[:80]
            errs[k]+=1
            if k not in ex: ex[k]=n+' '+traceback.format_exc()[-600:]
        signal.alarm(0)
        dt=time.time()-tt
        if dt>1: slow.append((dt,n,I.steps))
    print(time.time()-T0)
    for k,v in errs.most_common(60): print(v,k,'   ',ex.get(k,''))
    print(slow[:20])
