"""check <property id> [quick|thorough]: decide one property on the current tree."""
import importlib, json, os, pkgutil, sys, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import frontend
PROPS = {}
def prop(pid):
    def d(f): PROPS.setdefault(pid, []).append(f); return f
    return d
sys.modules['registry'] = sys.modules[__name__] if __name__ != '__main__' else sys.modules['__main__']

def load_props():
    import props
    for m in sorted(x.name for x in pkgutil.iter_modules(props.__path__)): importlib.import_module('props.' + m)

def known(path=os.path.join(HERE, 'known_findings.json')):
    if not os.path.exists(path): return []
    return json.load(open(path))['findings']

def run(pid, tier='quick', quiet=False):
    """-> exit code"""
    t0 = time.time()
    import rules, engine
    ev = os.path.join(os.environ.get('LLAMAPUN_EVIDENCE', os.path.join(HERE, 'evidence')))
    os.makedirs(ev, exist_ok=True)
    try: path, info, log = frontend.dump()
    except frontend.BuildError as e:
        print('check error: ' + str(e), file=sys.stderr); return 3
    prog = engine.Program(json.load(open(path)))
    c = rules.Ctx(pid, prog, info)
    c.tier = tier
    if info['without_models']: print('note: reference models that do not type-check against this tree, rules that use them stay open: ' + ' '.join(info['without_models']))
    if info['part']: print('note: the crate does not type-check as a whole; only the modules that the repository itself compiles are analysed')
    if log: print(log[-1500:], file=sys.stderr)
    for f in PROPS[pid]:
        try: f(c)
        except rules.Missing as e: (c.open if info['part'] else c.bad)('anchor:' + f.__name__, 'the construct the property is anchored in exists', '', str(e))
        except Exception as e: traceback.print_exc(); c.open('internal:' + f.__name__, 'the analysis finishes', '', repr(e))
    viol = [o for o in c.obs if o['status'] == 'violated']; opn = [o for o in c.obs if o['status'] == 'open']
    oks = [o for o in c.obs if o['status'] == 'ok']
    if not c.obs: viol = [{'id': 'vacuous', 'rule': 'at least one obligation', 'where': '', 'status': 'violated', 'detail': 'no obligation was generated'}]
    kn = {(k['property'], k['obligation']): k for k in known() if k.get('status') == 'known'}
    newv = []; knv = []
    for o in viol: (knv if (pid, o['id']) in kn and matches(kn[(pid, o['id'])], o) else newv).append(o)
    rep = os.path.join(ev, '%s.violations.txt' % pid)
    if newv:
        with open(rep, 'w') as fh:
            for o in newv: fh.write('%s\n  rule: %s\n  where: %s\n  %s\n\n' % (o['id'], o['rule'], o['where'], o['detail']))
    elif os.path.exists(rep): os.remove(rep)
    wall = time.time() - t0
    srcs = sorted({f.split('::')[1] if '::' in f else f for f in c.funcs})
    d = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
         'coverage': {'explanation': 'Static analysis of the type-checked MIR of %s: %d obligations (%d hold, %d open, %d listed findings, %d violated); %d functions analysed, %d paths, %d sites, %d abstract steps.' % (
             frontend.REPO, len(c.obs), len(oks), len(opn), len(knv), len(newv), len(c.funcs), c.npaths, c.sites, c.steps),
             'obligations': len(c.obs), 'discharged': len(oks), 'open': len(opn), 'known_findings': len(knv), 'functions': sorted(c.funcs), 'paths': c.npaths, 'sites': c.sites, 'steps': c.steps,
             'details': [{'id': o['id'], 'rule': o['rule'], 'where': o['where'], 'status': o['status'], 'detail': o['detail'][:400]} for o in c.obs]},
         'assumptions': ASSUME,
         'violations': [{'id': o['id'], 'where': o['where'], 'detail': o['detail'][:1000]} for o in newv],
         'wall_s': round(wall, 2)}
    json.dump(d, open(os.path.join(ev, pid + '.json'), 'w'), indent=1, ensure_ascii=False)
    for o in opn: print('open (not decided, no alarm): %s %s: %s' % (o['id'], o['where'], o['detail'][:300]))
    for o in knv: print('KNOWN-FINDING: property=%s %s: %s' % (pid, o['id'], kn[(pid, o['id'])]['what']))
    for o in newv: print('%s: %s\n  rule: %s\n  %s' % (o['id'], o['where'], o['rule'], o['detail'][:1500]))
    if newv:
        print('VIOLATION property=%s replay=%s' % (pid, rep)); return 1
    print('%s: %d obligations hold on %d functions, %d paths, %d sites (%.1f s)' % (pid, len(oks), len(c.funcs), c.npaths, c.sites, wall))
    return 0
def matches(k, o):
    return k.get('contains', '') in o['detail'] + o['where']
ASSUME = ['library models of analysis/models.py describe std, regex and circular_queue correctly',
          'the stand-in signatures in stubs/ match the real crates',
          'arithmetic does not overflow except where a subtraction is checked']

if __name__ == '__main__':
    sys.modules['registry'] = sys.modules['__main__']
    load_props()
    a = sys.argv[1:]
    if a and a[0] == 'list': print(' '.join(sorted(PROPS))); sys.exit(0)
    if a and a[0] == 'all':
        rc = 0
        for p in sorted(PROPS): rc |= run(p, 'quick')
        sys.exit(rc)
    pid = a[0]; tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if pid not in PROPS: print('no such property'); sys.exit(3)
    sys.setrecursionlimit(50000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    def go():
        try: res.append(run(pid, tier))
        except BaseException: traceback.print_exc(); res.append(3)
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush(); os._exit(res[0])
