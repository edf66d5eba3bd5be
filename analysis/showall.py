import show,engine,time,sys
from show import p
from terms import *
for b in sorted(p.fns(),key=lambda b:b.path):
    if b.closure or '__static_ref' in b.path: continue
    e=engine.Engine(p,budget=30000); st=engine.State()
    args=[Sym(b.locals[i+1][1] or 'a%d'%i) for i in range(b.nargs)]
    import rules; args=rules.wrap_args(p,b,st,args)
    t0=time.time()
    try: r=e.run_fn(st,b,args); msg='paths %d'%len(r)
    except engine.Inconclusive as ex: msg='INC %s'%ex
    except RecursionError as ex: msg='REC'
    except Exception as ex:
        import traceback; msg='EXC %r %s'%(ex, traceback.format_exc().splitlines()[-3:-1])
    print('%-75s %s steps %d %.1fs panics %d'%(b.path[:75],msg,e.steps,time.time()-t0,len(e.panics)),flush=True)
