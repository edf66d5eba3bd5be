import json,sys,time
import engine
from terms import *
p=engine.Program(json.load(open(__import__('frontend').dump()[0])))
seen=set()
def pl(L,ind):
    k=(L.key,ind)
    if k in seen: print(ind+'LOOP',L.key,'(shown)'); return
    seen.add(k)
    print(ind+'LOOP',L.key,'prim=',show(L.prim)[:100] if L.prim else None)
    for q,e in L.entry.items(): print(ind+'  φ',show(q),'entry',show(e)[:200], 'SRC' if q in L.sources else '', 'CNT' if q in L.counters else '')
    for pa in L.iters:
        print(ind+'  iter',' ∧ '.join('%s=%s'%(show(k)[:150],show(v)) for k,v in pa.facts.items() if k.op!='unsigned'))
        for q,v in pa.upd.items():
            if v is not q: print(ind+'     ',show(q),':=',show(v)[:300])
        tr(pa.trace,ind+'     ')
    for pa in L.exits: print(ind+'  exit',pa.tag,pa.done,' ∧ '.join('%s=%s'%(show(k)[:150],show(v)) for k,v in pa.facts.items() if k.op!='unsigned')); tr(pa.trace,ind+'     ')
def tr(t,ind):
    for ev in t:
        if ev[0]=='loop': pl(ev[1],ind)
        else: print(ind+'EV',ev[0],ev[1],[show(x)[:120] for x in ev[2]])
def run(name,opaque=None,quiet=False):
    bs=p.find(name)
    if not bs: bs=[b for b in p.bodies.values() if name in b.path and b.j['kind']=='fn' and not b.closure]
    if not bs: print('no',name); return
    for b in bs:
        e=engine.Engine(p); 
        if opaque: e.opaque=opaque
        st=engine.State(); args=[]
        for i in range(b.nargs):
            ty=p.types[b.locals[i+1][0]]; nm=b.locals[i+1][1] or 'a%d'%i
            args.append(Sym(nm))
        import rules; args=rules.wrap_args(p,b,st,args)
        t0=time.time()
        print('=====',b.path)
        try: r=e.run_fn(st,b,args)
        except engine.Inconclusive as ex: print('  INCONCLUSIVE',ex, e.steps); continue
        print('  paths',len(r),'steps',e.steps,'%.2fs'%(time.time()-t0),'unmod',e.unmodelled, 'panics',len(e.panics))
        if quiet: continue
        for s in r:
            print('  PATH',' ∧ '.join('%s=%s'%(show(k)[:150],show(v)) for k,v in s.facts.items() if k.op!='unsigned'))
            print('     RET',show(s.val(s.ret))[:700])
            for k,v in s.mem.items():
                if k[0] in('M','S','A') and v is not k[1]: print('     MEM',k[0],str(k[1])[:40],':=',show(v)[:700])
            tr(s.trace,'     ')
        for x in e.panics: print('  ',x)
if __name__=='__main__':
    for n in sys.argv[1:]: run(n)
