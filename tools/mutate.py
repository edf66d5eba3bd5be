"""Development aid: run checks on scratch copies of the repository with edits.
mutate.py --batch FILE.py [filter...]   CASES = [(name, [(file, old, new)], [checks] or None for all, 'bug'|'same')]
mutate.py --patch P [CHECK...]          apply a patch instead
mutate.py --leave FILE.py NAME          only make the copy in /tmp/mutwork/0"""
import fcntl, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('MUTROOT', '/tmp/mutwork'); N = 6
def W(k): return '%s/%d' % (ROOT, k)
def fresh(k):
    w = W(k); os.makedirs(w, exist_ok=True)
    shutil.rmtree(w + '/repo', ignore_errors=True)
    shutil.copytree('/repo', w + '/repo', ignore=shutil.ignore_patterns('.git', 'target', 'resources', 'data'))
    if not os.path.exists(w + '/build') and os.path.exists(HERE + '/build'):
        shutil.copytree(HERE + '/build', w + '/build', ignore=shutil.ignore_patterns('mir-*'))
def check(k, ps):
    env = dict(os.environ, LLAMAPUN_REPO=W(k) + '/repo', LLAMAPUN_VERIF_BUILD=W(k) + '/build', LLAMAPUN_EVIDENCE=W(k) + '/evidence')
    out = {}
    for p in ps:
        r = subprocess.run([HERE + '/check', p], env=env, capture_output=True, text=True)
        out[p] = (r.returncode, r.stdout + r.stderr)
    return out
def edit(k, f, old, new):
    p = W(k) + '/repo/src/' + f
    s = open(p).read()
    if s.count(old) < 1: return 'text not found in %s: %s' % (f, old)
    open(p, 'w').write(s.replace(old, new, 1))
NEAR = [('dnm/', 'P08 P09 P12 P13 P14 P15 P16 P17 P18 P19 P20 P22 P26'), ('patterns/', 'P06 P07 P31 P32'), ('parallel_data', 'P24 P25 P26'), ('data.rs', 'P23 P25 P26 P27'), ('tokenizer', 'P20 P21'), ('ams', 'P27 P28'),
        ('util/', 'P08 P10 P11 P28 P29 P30'), ('ngrams', 'P01 P02 P03 P04'), ('stopwords', 'P05')]
def near(files, allc):
    """the checks about these files"""
    r = {p for f in files for k, ps in NEAR if k in f for p in ps.split()} | {'P33', 'P34', 'P35', 'P36'}
    return [p for p in allc if p in r]
def all_checks(): return os.environ['CHECKS'].split(',') if 'CHECKS' in os.environ else subprocess.run([HERE + '/check', 'list'], capture_output=True, text=True).stdout.split()
if __name__ == '__main__':
    a = sys.argv[1:]
    every = '--every' in a   # all checks on the cases that change nothing
    a = [x for x in a if x != '--every']
    N = int(os.environ.get('WORKERS', N))
    os.makedirs(ROOT, exist_ok=True); LOCK = open(ROOT + '/lock', 'w'); fcntl.flock(LOCK, fcntl.LOCK_EX)   # the copies are shared
    if a[0] in ('--batch', '--leave'):
        if a[0] == '--leave': N = 1
        ns = {}; exec(open(a[1]).read(), ns)
        sel = a[2:]; allc = all_checks()
        q = queue.Queue()
        for k in range(N): q.put(k)
        def work(c):
            name, edits, checks, kind = c
            k = q.get()
            try:
                fresh(k)
                for f, o, n in edits:
                    e = edit(k, f, o, n)
                    if e: return '%-12s %-45s %s' % ('BADCASE', name, e)
                if a[0] == '--leave': return 'copy in ' + W(k)
                r = check(k, checks or allc)
            finally: q.put(k)
            caught = [p for p, (rc, o) in r.items() if rc == 1]
            err = [p for p, (rc, o) in r.items() if rc not in (0, 1)]
            opn = [p for p, (rc, o) in r.items() if rc == 0 and 'open (' in o]
            verdict = 'ERR' if err else ('ok' if (kind == 'bug') == bool(caught) else ('MISSED' if kind == 'bug' else 'FALSE ALARM'))
            t = '%-12s %-45s caught=%s open=%s' % (verdict, name, caught, opn)
            if verdict != 'ok' or sel:
                for p, (rc, o) in r.items():
                    if sel or rc or 'open (' in o: t += '\n    [%s rc=%d] %s' % (p, rc, o[:3000 if sel else 300].replace('\n', '\n      '))
            return t
        cs = [c for c in ns['CASES'] if not sel or any(s in c[0] or s == '=' + c[0] for s in sel)]
        if os.environ.get('KIND'): cs = [c for c in cs if c[3] == os.environ['KIND']]
        if os.environ.get('FAST'): cs = [(n, e, ch or near([x[0] for x in e], allc), k) for n, e, ch, k in cs]
        if every: cs = [(n, e, None, k) for n, e, _, k in cs if k == 'same']
        with ThreadPoolExecutor(N) as ex:
            for t in ex.map(work, cs): print(t, flush=True)
    else:
        fresh(0)
        subprocess.run(['git', 'apply', '--unsafe-paths', '--directory', W(0) + '/repo', os.path.abspath(a[1])], cwd='/', check=True)
        for p, (rc, o) in check(0, a[2:] or all_checks()).items(): print('== %s rc=%d\n%s' % (p, rc, o[:1500]))
