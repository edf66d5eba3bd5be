"""Obligations: what a property requires of the current source, decided from path tables.

A *path table* is the result of the abstract interpreter (engine.py) on one function: for every way
through it, the facts the path depends on, the value returned, the memory written, the events emitted.
A rule compares such a table with what the property demands:

  table(fn, cases)     every path compatible with a case must return / write / emit what the case says
  model(fn, ref)       the same, the cases being the path table of a reference model in /verif/spec
  paths(fn, pred)      a predicate over every path
  plus call-graph, effect and table rules built on the same program (props/*.py)

Verdicts: `ok`, `violated` (both sides are fully interpreted terms and differ, or a path is missing),
`open` (the analysis lost precision there: recorded in the evidence, never reported as a violation)."""
import json, os, re, sys, time, traceback
import engine, models
LIMIT = int(os.environ.get('LIMIT', '500'))
from engine import *
from terms import *

# ------------------------------------------------------------------------------ term comparison
UNINTERP = {'post', 'uninit', 'upd?', 'const', 'constitem', 'static', 'rv', 'SKIP'}
def known_apps():
    src = open(os.path.join(os.path.dirname(__file__), 'models.py')).read() + open(os.path.join(os.path.dirname(__file__), 'engine.py')).read()
    return set(re.findall(r"App\('([^']+)'", src))
KNOWN = known_apps() | {'callptr', 'Iterator::next', 'Mutex::lock', 'RwLock::read', 'RwLock::write'}
EXTERNAL_PREFIX = ('libxml::', 'gnuplot::', 'regex::', 'walkdir::', 'jwalk::', 'senna::', 'rustmorpha::', 'unidecode::', 'crypto::', 'whatlang::', 'tar::', 'std::fs::', 'std::env::', 'std::io::', '<crypto::', 'std::path::', 'std::f64::', 'core::f64::', 'std::ffi::', 'walkdir.', '<std::io::')
def app_interpreted(name, extra=()):
    base = name
    if name in KNOWN or name in extra: return True
    if name.startswith('crate::') : return True
    if name.startswith(EXTERNAL_PREFIX): return True
    if re.match(r'^<.* as libxml', name): return True
    if name.startswith(('str.', 'char.', 'f64.', 'std::f32::', 'std::f64::', 'cast:', 'op:', 'un:', 're.', 'vec.', 'opt.')): return True
    return False
def why_open(t, extra=()):
    """None when t is fully interpreted, otherwise the construct that is not"""
    for x in subterms(t):
        if x.op in UNINTERP:
            if x.op == 'post' and app_interpreted(x.args[0], extra): continue
            return show(x)[:120]
        if x.op == 'phi' and x not in extra: return 'loop-carried value ' + show(x)
        if x.op == 'app' and not app_interpreted(x.args[0], extra): return 'library function ' + x.args[0]
    return None

def looks(t):
    """options of a plot that only say how it looks"""
    if t.op in ('ref', 'one'): return looks(t.args[0])
    if t.op == 'agg' and t.args[0] == 'array' or t.op == 'seq': return all(looks(x) for x in t.args if isinstance(x, T))
    return t.op == 'agg' and str(t.args[0]).startswith('gnuplot::') and str(t.args[0]).endswith('Option')
INJ = {'agg', 'one', 'ref'}
VARIANT = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1}
def diffs(a, b, out=None, d=0, st=None):
    """minimal differing sub-values below injective constructors"""
    if out is None: out = []
    if a is b or looks(a) and looks(b): return out
    for x, y in ((a, b), (b, a)):
        # a variant put together again from the content of a value of this variant
        if x.op == 'agg' and x.args[0] in (OPT, RES) and len(x.args) == 3 and y.op != 'agg':
            inner = T('vf', y, x.args[1], 0)
            if x.args[2] is inner: return out
            if st is not None and d < 30 and st.truth(mk_eq(T('disc', y, x.args[0]), Int(VARIANT[x.args[1]]))) is True: return diffs(*((x.args[2], inner) if x is a else (inner, x.args[2])), out, d + 1, st)
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.args) == len(b.args) and d < 30:
        if a.op == 'agg' and a.args[:2] == b.args[:2] or a.op == 'one' or a.op == 'seq' and all(x.op == y.op for x, y in zip(a.args[1:], b.args[1:])) and a.args[0] == b.args[0]:
            for x, y in zip(a.args, b.args):
                if isinstance(x, T): diffs(x, y, out, d + 1, st)
            return out
    if a.op == 'upd' and b.op == 'upd' and a.args[0] is b.args[0] or a.op == 'upd' and a.args[0] is b or b.op == 'upd' and b.args[0] is a:
        ks = set(a.args[1::2] if a.op == 'upd' else ()) | set(b.args[1::2] if b.op == 'upd' else ())
        for k in sorted(ks): diffs(get_field(a, k), get_field(b, k), out, d + 1, st)
        return out
    # a structure built anew from the fields of another one
    for x, y in ((a, b), (b, a)):
        if x.op == 'agg' and y.op == 'upd' and len(x.args) > 2:
            fs = (adt_of(x.args[0]) or {}).get('variants', [{'fields': ()}])[0]['fields']
            if len(fs) == len(x.args) - 2 and set(y.args[1::2]) <= {f[0] for f in fs}:
                for f, v in zip(fs, x.args[2:]): diffs(*((v, get_field(y, f[0])) if x is a else (get_field(y, f[0]), v)), out, d + 1, st)
                return out
    out.append((a, b)); return out

NUM = ('int', 'lin', 'len', 'phi', 'app', 'fld', 'sym', 'idx', 'vf', 'at', 'item', 'blen', 'clen', 'get')
def same_number(st, a, b):
    if a.op not in NUM or b.op not in NUM or not (a.op in ('int', 'lin', 'len', 'idx') or b.op in ('int', 'lin', 'len', 'idx') or st.ineq and (st.in_ineq(a) or st.in_ineq(b))): return False
    l = sub(a, b)
    return st.le0(l) is True and st.le0(mulc(l, -1)) is True
def both_empty(st, a, b):
    for x, y in ((a, b), (b, a)):
        if y in (EMPTY_L, EMPTY_S) and (st.truth(mk_empty(x)) is True or any(k.op == 'empty' and v is TRUE and simp(st, k.args[0]) is x for k, v in st.facts.items())): return True
    return False
def compare(found, want, extra=(), st=None):
    """('eq'|'ne'|'unk', explanation)"""
    ds = diffs(found, want, st=st)
    if ds and st is not None: ds = [(a, b) for a, b in ds if not same_number(st, a, b) and not both_empty(st, a, b)]
    if not ds: return 'eq', ''
    res = 'unk'; why = ''
    for a, b in ds:
        w = why_open(a, extra) or why_open(b, extra)
        if w is None: return 'ne', 'is %s, must be %s' % (show(a)[:LIMIT], show(b)[:LIMIT])
        why = w
    return 'unk', 'not decided: ' + why

# ------------------------------------------------------------------------------ case lists (comp, lambda)
def cases_of(t):
    """[(facts, value or None)] of a comprehension or a lambda; None: contributes nothing"""
    if t.op == 'lambda':
        if len(t.args) == 1 and t.args[0].op != 'case': return [((), t.args[0])]
        return [(c.args[0].args, c.args[1]) for c in t.args]
    return [(c.args[0].args, c.args[1]) for c in t.args[1:]]
def facts_list(fs): return [(f.args[0], f.args[1]) for f in fs]
def cases_eq(a, b):
    """the two case lists give the same value for every element ('eq'), or not ('ne'), or cannot tell ('unk')"""
    A, B = cases_of(a), cases_of(b); n = 0; res = 'eq'
    def outside(st, L, k=0):
        """some state of st satisfies none of the guards of L"""
        if k == len(L): return True
        for t, v in facts_list(L[k][0]):
            s = st.copy()
            if t.op == 'neq':
                if any(outside(z, L, k + 1) for c in v.args for z in [st.copy()] if z.assume_val(t.args[0], c) and consistent(z)): return True
                continue
            ok = s.assume(t, v is FALSE) if v.op == 'bool' else s.assume_neq(t, [v])
            if ok and consistent(s) and outside(s, L, k + 1): return True
        return False
    for X, Y, first in ((A, B, True), (B, A, False)):
        for fa, va in X:
            st = State()
            if not assume_all(st, facts_list(fa)) or not consistent(st): continue
            for fb, vb in Y:
                n += 1
                if n > 400: return 'unk'
                s = st.copy()
                if not assume_all(s, facts_list(fb)) or not consistent(s): continue
                if first and simp(s, va) is not simp(s, vb) and not same_truth(s, va, vb): return 'ne'
            if outside(st, Y): return 'ne'
    return res
def same_truth(st, a, b):
    """two boolean values that agree whatever their parts are"""
    if not all(isinstance(x, T) and x.op in BOOLOPS + ('bool',) for x in (a, b)): return False
    atoms = []
    def parts(x):
        if x.op in ('and', 'or', 'not'):
            for y in x.args: parts(y)
        elif x.op == 'bool': pass
        elif x not in atoms: atoms.append(x)
    parts(a); parts(b)
    if len(atoms) > 6: return False
    def go(s, k):
        if k == len(atoms):
            p, q = s.truth(simp(s, a)), s.truth(simp(s, b))
            return p is not None and p == q or not consistent(s)
        for v in (True, False):
            z = s.copy()
            if z.assume(simp(z, atoms[k]), v) and not go(z, k + 1): return False
        return True
    return go(st, 0)
def unify(found, ref):
    """{comprehension or lambda of found: the same one as ref writes it}"""
    refs = {}
    for t in ref:
        if t.op == 'comp': refs.setdefault(('comp', t.args[0]), []).append(t)
        elif t.op == 'lambda': refs.setdefault(('lambda',), []).append(t)
    if not refs: return {}
    m = {}
    have = set(ref)
    for t in sorted(found, key=lambda x: x.id):
        if t in have: continue
        t2 = subst(t, m)
        if t2 in have: m[t] = t2; continue
        if t2.op == 'comp': key = ('comp', t2.args[0])
        elif t2.op == 'lambda': key = ('lambda',)
        else: continue
        for r in refs.get(key, ()):
            if cases_eq(t2, r) == 'eq': m[t] = r; break
    return m
def all_terms(rows):
    seen = set()
    def go_tr(tr):
        for e in tr:
            if e[0] == 'loop':
                L = e[1]
                for t in ([L.prim] if L.prim is not None else []) + list(L.entry.values()): list(subterms(t, seen))
                for pa in list(L.iters) + list(L.exits):
                    for k, v in pa.facts.items(): list(subterms(k, seen)); list(subterms(v, seen))
                    for v in pa.upd.values(): list(subterms(v, seen))
                    go_tr(pa.trace)
            else:
                for x in e[2]: list(subterms(x, seen))
    for r in rows:
        for k, v in r.facts.items(): list(subterms(k, seen)); list(subterms(v, seen))
        list(subterms(r.ret, seen))
        for v in r.mem().values(): list(subterms(v, seen))
        go_tr(r.trace)
    return seen
def rename_rows(rows, m, eng):
    if not m: return rows
    out = []; memo = {}
    for r in rows:
        n = Row.__new__(Row); s = r.st.copy()
        s.facts = {}
        for k, v in r.facts.items():
            k2 = subst(k, m, memo)
            if k2.op != 'bool': s.facts[k2] = subst(v, m, memo)
        s.mem = {k: subst(v, m, memo) for k, v in s.mem.items()}
        s.trace = eng.sub_trace(r.trace, m, memo); s.ineq = ()
        n.st = s; n.facts = s.facts; n.trace = s.trace; n.ret = subst(r.ret, m, memo)
        out.append(n)
    return out

def simp(st, t, memo=None):
    """rewrite with the facts of the path"""
    m = {}
    for k, v in st.facts.items():
        if k.op in ('unsigned', 'neq') or not is_const(v): continue
        m[k] = v
        if k.op == 'lin' and v.op == 'int':
            # a linear equation: eliminate one of its unit-coefficient terms
            c, d = lin_parts(k)
            us = [x for x, n in d.items() if n in (1, -1)]
            if us:
                x = max(us, key=lambda y: (y.op in ('fld', 'len'), y.op == 'fld', y.id))
                rest = sub(mulc(x, d[x]), sub(k, v))
                if not contains(rest, lambda y: y is x): m.setdefault(x, mulc(rest, d[x]))
    for x in list(subterms(t)) if isinstance(t, T) and contains(t, lambda z: z.op in ('last', 'init')) else ():
        # the last of one element is the first
        if x.op in ('last', 'init') and st.truth(T('le0', sub(mk_len(x.args[0]), Int(1)))) is True and st.truth(mk_empty(x.args[0])) is False:
            m[x] = T('at', x.args[0], Int(0)) if x.op == 'last' else EMPTY_L
    none = {k.args[0] for k, v in st.facts.items() if k.op == 'empty' and v is TRUE}
    if none and m: none |= {bools(st, subst(x, m)) for x in none}
    if none and isinstance(t, T) and contains(t, lambda z: z in none):
        for x in list(subterms(t)):
            # what is known to be empty adds nothing
            if x.op == 'seq' and any(y in none for y in x.args[1:]): m[x] = mk_seq(x.args[0], [y for y in x.args[1:] if y not in none])
    for _ in range(4):
        n = subst(t, m) if m else t
        n = bools(st, n)
        if n is t: break
        t = n
    return t
BOOLOPS = ('eq', 'le0', 'empty', 'and', 'or', 'not', 'any')
def bools(st, t):
    if not isinstance(t, T): return t
    memo = {}
    def go(x):
        if not isinstance(x, T): return x
        r = memo.get(x)
        if r is not None: return r
        if x.op in ('fact', 'case', 'comp', 'conj'): memo[x] = x; return x
        r = x
        if x.op == 'len' and x.args[0].op == 'store':
            tv = st.truth(map_has(x.args[0].args[0], x.args[0].args[1]))
            if tv is not None: memo[x] = go(add(mk_len(x.args[0].args[0]), Int(0 if tv else 1))); return memo[x]
        if x.op == 'at' and x.args[1].op != 'int' and st.truth(mk_eq(x.args[1], Int(0))): memo[x] = go(get_index(x.args[0], Int(0))); return memo[x]
        if x.op == 'iter' and isinstance(x.args[0], T) and x.args[0].op not in ('seq', 'range') and st.facts.get(mk_empty(x.args[0])) is TRUE: memo[x] = T('iter', EMPTY_L); return memo[x]
        if x.op == 'last' and st.truth(mk_eq(mk_len(x.args[0]), Int(1))): memo[x] = go(get_index(x.args[0], Int(0))); return memo[x]
        if x.op in BOOLOPS:
            tv = st.truth(x)
            if tv is not None: memo[x] = Bool(tv); return memo[x]
        if any(isinstance(a, T) for a in x.args):
            na = tuple(go(a) for a in x.args)
            if any(p is not q for p, q in zip(na, x.args)): r = rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)

def assume_all(st, facts):
    """add facts (dict or list of (term, value)) to st; False when contradictory"""
    items = list(facts.items()) if isinstance(facts, dict) else list(facts)
    for k, v in items:
        if k.op == 'unsigned': st.facts[k] = v
    for k, v in items:
        if k.op == 'unsigned': continue
        if k.op == 'neq':
            if not st.assume_neq(k.args[0], list(v.args)): return False
        elif isinstance(v, bool): 
            if not st.assume(k, v): return False
        elif v.op == 'bool':
            if not st.assume(k, v.args[0]): return False
        elif not st.assume_val(k, v): return False
    return True
def consistent(st):
    """facts implied false by what was learnt later"""
    for k, v in list(st.facts.items()):
        if k.op in ('unsigned', 'neq'): continue
        if v.op == 'bool':
            del st.facts[k]
            tv = st.truth(k)
            k2 = simp_fact(st, k)
            st.facts[k] = v
            if tv is not None and tv != v.args[0]: return False
            if k2.op == 'bool' and k2.args[0] != v.args[0]: return False
    return True
def simp_fact(st, k):
    m = {a: b for a, b in st.facts.items() if a.op not in ('unsigned', 'neq') and is_const(b)}
    if not m or k.op in ('any',): return k
    n = subst(k, m)
    return n
def facts_str(f):
    return ' ∧ '.join(('%s' % show(k) if v is TRUE else '¬(%s)' % show(k) if v is FALSE else '%s=%s' % (show(k), show(v))) for k, v in f.items() if k.op != 'unsigned') or 'always'

# ------------------------------------------------------------------------------ cases
class Case:
    """given: [(term, value)]; ret: term | callable | None (any); mem: {root term or (root, field): term|callable};
    frame: the other fields of the named roots are unchanged; events: list | callable | None"""
    def __init__(self, name, given=(), ret=None, mem=None, frame=True, events=None, panics=False):
        self.name = name; self.given = list(given); self.ret = ret; self.mem = mem; self.frame = frame; self.events = events; self.panics = panics

def no_message(t):
    """the error text is free"""
    return Err(UNIT) if t.op == 'agg' and t.args[:2] == (RES, 'Err') else t
SMALL_SECONDS = 60         # processor time after which no further sizes are tried
PLAIN = {'neq', 'set', 'ntype', 'agg', 'one', 'seq', 'str', 'int', 'bool', 'char', 'unit', 'fld', 'vf', 'sym', 'elem', 'lin', 'eq', 'le0', 'not', 'disc', 'empty', 'len', 'clen', 'ref', 'upd', 'vupd', 'post', 'fact', 'conj', 'case', 'at', 'unsigned', 'clos', 'and', 'or', 'fn'}
def suspended(row):
    """operations of a row that are left to be done (on lists or texts whose elements are known)"""
    out = set()
    def look(x):
        if isinstance(x, T):
            for t in subterms(x):
                if t.op in PLAIN or t.op == 'app' and t.args[0].startswith(('crate::', 'libxml::', 'senna::', 'char.')): continue
                # nothing is known of the text itself
                if t.op == 'app' and t.args[0].startswith(('str.', 're.')) and not any(isinstance(a, T) and contains(a, lambda x: x.op in ('seq', 'phi', 'comp')) for a in t.args[1:]): continue
                if t.op in ('chars', 'split_whitespace', 'split_ascii_whitespace') and t.args[0].op in ('elem', 'sym'): continue
                out.add(t)
        elif isinstance(x, (tuple, list)):
            for y in x: look(y)
    look(row.ret); look(list(row.mem().items())); look(row.trace)
    look([k for k in row.facts])
    return frozenset(out)
def one_more_key(st, p, q):
    """a table ends up with a key it did not have, on one of the rows, and is otherwise as on the other"""
    a, b = p.mem(), q.mem()
    for k in set(a) & set(b):
        for x, y in ((simp(st, a[k]), simp(st, b[k])), (simp(st, b[k]), simp(st, a[k]))):
            if x.op == 'upd' and y.op == 'upd' and len(x.args) == len(y.args):
                d = [i for i in range(len(x.args)) if x.args[i] is not y.args[i]]
                if len(d) == 1 and isinstance(x.args[d[0]], T) and isinstance(y.args[d[0]], T): x, y = x.args[d[0]], y.args[d[0]]
            if y.op == 'store' and y.args[0] is x and st.truth(map_has(x, y.args[1])) is False and not contains(y, lambda z: z.op in ('phi', 'item', 'idx', 'comp', 'at')): return True
    return False
class Row:
    """a row of an engine path table"""
    def __init__(self, st):
        self.st = st; self.facts = st.facts; self.trace = st.trace
        self.ret = st.val(st.ret) if st.ret is not None else UNIT
    def mem(self):
        r = {}
        for k, v in self.st.mem.items():
            if k[0] in ('M', 'A'):
                x = self.st.val(v) if k[0] == 'A' else v
                if x is not k[1]: r[k[1]] = x
            elif k[0] == 'S': pass
        return r

def wrap_args(prog, b, st, args):
    """a `&mut` parameter is a reference to a cell holding the symbol"""
    out = []
    for i, a in enumerate(args):
        t = prog.types[b.locals[i + 1][0]]
        if t['k'] == 'ref' and t.get('mut') and a.op == 'sym':
            st.mem[('A', a)] = a; a = T('ref', (('A', a), ()))
        out.append(a)
    return out

DBGS = os.environ.get('DBGS')
SMALL = os.environ.get('SMALL', '1') == '1'
class Missing(Exception): pass

class Ctx:
    def __init__(self, pid, prog, info=None):
        self.pid = pid; self.prog = prog; self.obs = []; self.info = info or {'without_models': [], 'part': False}
        self.funcs = set(); self.npaths = 0; self.steps = 0; self.sites = 0; self._cache = {}
    # -- obligations
    def ob(self, oid, rule, where, status, detail=''):
        self.obs.append({'id': oid, 'rule': rule, 'where': where, 'status': status, 'detail': detail})
    def ok(self, oid, rule, where, detail=''): self.ob(oid, rule, where, 'ok', detail)
    def bad(self, oid, rule, where, detail): self.ob(oid, rule, where, 'violated', detail)
    def open(self, oid, rule, where, detail): self.ob(oid, rule, where, 'open', detail)
    def check(self, oid, rule, where, cond, detail=''):
        self.ob(oid, rule, where, 'ok' if cond else 'violated', detail)
        return cond
    # -- anchors
    def fn(self, suffix, need=True, spec=False, near=None):
        bs = [b for b in self.prog.find(suffix) if ('__spec' in b.path) == spec]
        if not bs and suffix.startswith('<'): bs = [b for b in self.prog.bodies.values() if b.j['kind'] == 'fn' and not b.closure and b.path == 'crate::' + suffix]
        if len(bs) > 1:
            ex = [b for b in bs if re.sub(r"<'[^>]*>", '', b.path) in (suffix, 'crate::' + suffix)]
            bs = ex or bs
        if len(bs) > 1 and near is not None:
            home = near.path.replace('crate::', '').lstrip('<')
            bs = [b for b in bs if home.startswith(b.path.replace('crate::', '').split('__spec::')[0])] or bs
        if not bs:
            if need: raise Missing('function %s is not in the program' % suffix)
            return None
        if len(bs) > 1: raise Missing('function name %s is ambiguous: %s' % (suffix, ', '.join(b.path for b in bs)))
        return bs[0]
    def where(self, b):
        f = b.j.get('span', '')
        m = re.match(r'(.*?):\d', f)
        p = (m.group(1) if m else f)
        return '%s (%s)' % (b.path.replace('crate::', ''), re.sub(r'.*/src/', 'src/', p))
    def field(self, adt, name, pred):
        """a field by name, or failing that by type (unique)"""
        a = next((a for a in self.prog.adts.values() if a['path'].endswith('::' + adt)), None)
        if a is None: raise Missing('type %s' % adt)
        fs = a['variants'][0]['fields']
        if any(f[0] == name for f in fs): return name
        c = [f[0] for f in fs if pred(f[1])]
        if len(c) == 1: return c[0]
        raise Missing('field %s of %s' % (name, adt))
    def syms(self, b): return [Sym(b.locals[i + 1][1] or 'a%d' % i) for i in range(b.nargs)]
    # -- running the interpreter
    def run(self, b, args=None, opaque=None, budget=60000, setup=None, depth=14, tag=None, modifies=None, given=(), resplit=None, bound=None):
        if isinstance(b, str): b = self.fn(b)
        key = (b.uid, tuple(args) if args is not None else None, tag, budget, tuple(given), bound, tuple(sorted((k.id, v.id) for k, v in T._sp.items())))
        if key in self._cache: return self._cache[key]
        e = Engine(self.prog, budget=budget, inline_depth=depth)
        if opaque: e.opaque = opaque
        if modifies: e.modifies = modifies
        if resplit: e.resplit = resplit
        e.bound = bound
        e.diag = tag == 'messages'
        st = State()
        if args is None: args = self.syms(b)
        args = wrap_args(self.prog, b, st, args)
        if setup: args = setup(st, args) or args
        assume_all(st, given)
        if b.closure:
            raise Missing('closure body %s cannot be an entry point' % b.path)
        try:
            r = e.run_fn(st, b, args)
        except engine.Inconclusive as ex:
            self.steps += e.steps
            self._cache[key] = (None, e, str(ex)); return self._cache[key]
        except RecursionError:
            self._cache[key] = (None, e, 'recursion too deep'); return self._cache[key]
        self.funcs |= {self.prog.bodies[u].path for u in e.analysed}; self.npaths += len(r); self.steps += e.steps
        rows = [Row(s) for s in r]
        self._cache[key] = (rows, e, '')
        return self._cache[key]
    # -- table rule
    def same_regex(self, oid, rule, w, found, pattern):
        """the compiled expression matches the same texts"""
        import regexeq
        if found is None or not (found.op == 'app' and found.args[0] == 'Regex' and found.args[1].op == 'str'): return self.open(oid, rule, w, 'the expression is not a constant: %s' % (found and show(found)[:200]))
        try: same, text = regexeq.same_texts(found.args[1].args[0], pattern)
        except regexeq.Unsupported as x: same, text = found.args[1].args[0] == pattern or None, x
        except Exception as x: same, text = None, x
        if same is None: return self.open(oid, rule, w, 'expressions cannot be compared: %s' % text)
        if same: return self.ok(oid, rule, w, 'automata of both expressions')
        self.bad(oid, rule, w, 'the expression and the reference disagree about the text %r' % text)
    def table(self, fn, cases, args=None, opaque=None, assume=(), oid=None, rule='path table', budget=60000, panics=None, extra=(), setup=None, tag=None):
        b = self.fn(fn) if isinstance(fn, str) else fn
        oid = oid or (b.name)
        w = self.where(b)
        rows, e, why = self.run(b, args, opaque, budget, setup, tag=tag)
        if rows is None: return self.open(oid, rule, w, why)
        for c in cases:
            self.case(oid + '/' + c.name, rule, w, rows, e, c, assume, panics, extra)
    def case(self, oid, rule, w, rows, e, c, assume, panics, extra):
        hit = 0; opened = None
        for r in rows:
            st = r.st.copy()
            if not assume_all(st, assume) or not assume_all(st, c.given) or not consistent(st): continue
            hit += 1
            v, d = self.row_vs(st, r, c, extra)
            if v == 'ne': return self.bad(oid, rule, w, 'when %s: %s' % (facts_str({k: v for k, v in st.facts.items()})[:600], d))
            if v == 'unk': opened = d
        pan = self.case_panics(e, c, assume)
        if not hit and not c.panics:
            if pan: return self.bad(oid, rule, w, 'case %s never returns: %s' % (c.name, pan[0].kind + ' ' + pan[0].what[:200]))
            return self.bad(oid, rule, w, 'no path handles the case (%s)' % facts_str(dict(c.given))[:300])
        if pan and panics is not None and not c.panics:
            p = [x for x in pan if not panics(x)]
            if p: return self.bad(oid, rule, w, 'may panic (%s %s) when %s' % (p[0].kind, p[0].what[:200], facts_str(p[0].facts)[:300]))
        if opened: return self.open(oid, rule, w, opened)
        self.ok(oid, rule, w, '%d paths' % hit)
    def case_panics(self, e, c, assume):
        out = []
        for p in e.panics:
            st = State(); st.facts = dict(p.facts)
            st2 = State()
            if not assume_all(st2, p.facts): continue
            if assume_all(st2, assume) and assume_all(st2, c.given) and consistent(st2): out.append(p)
        return out
    def row_vs(self, st, r, c, extra):
        opened = None
        if c.ret is not None:
            f = simp(st, r.ret)
            v, d = c.ret(f, st) if callable(c.ret) else compare(f, simp(st, c.ret), extra, st)
            if v == 'ne': return 'ne', 'the result ' + d
            if v == 'unk': opened = 'result ' + d
        if c.mem is not None:
            got = {k: simp(st, v) for k, v in r.mem().items()}
            roots = {}
            for k, want in c.mem.items():
                root, f = k if isinstance(k, tuple) else (k, None)
                g = got.get(root, root)
                roots.setdefault(root, set()).add(f)
                if f is not None: g = simp(st, get_field(g, f))
                v, d = want(g, st) if callable(want) else compare(g, simp(st, want), extra, st)
                nm = show(root) + ('.' + f if f else '')
                if v == 'ne': return 'ne', '%s afterwards %s' % (nm, d)
                if v == 'unk': opened = '%s %s' % (nm, d)
            if c.frame:
                for root, g in got.items():
                    fs = roots.get(root, set())
                    if None in fs: continue
                    if g.op == 'upd' and g.args[0] is root:
                        for f in g.args[1::2]:
                            if f not in fs:
                                v, d = compare(get_field(g, f), T('fld', root, f), extra, st)
                                if v == 'ne': return 'ne', '%s.%s afterwards %s' % (show(root), f, d)
                                if v == 'unk': opened = '%s.%s %s' % (show(root), f, d)
                    else:
                        v, d = compare(g, root, extra, st)
                        if v == 'ne' and not fs: return 'ne', '%s afterwards %s' % (show(root), d)
                        if v == 'unk' or fs: opened = '%s %s' % (show(root), d)
        if c.events is not None:
            v, d = c.events(r.trace, st) if callable(c.events) else events_cmp(r.trace, c.events, st, extra)
            if v == 'ne': return 'ne', d
            if v == 'unk': opened = d
        return ('unk', opened) if opened else ('eq', '')
    # -- reference models
    def model(self, fn, ref, args=None, **kw):
        self.compare_model(fn, ref, args, **kw)
        if not SMALL: return
        o = self.obs[-1] if self.obs else None
        if o is None or o['status'] != 'open': return
        b = self.fn(fn, need=False) if isinstance(fn, str) else fn
        if b is None or self.prog.types is None: return
        s = self.fn(ref, spec=True, need=False, near=b)
        if s is None or s.nargs != b.nargs: return
        t0 = time.process_time()
        for n, w in ((2, 1), (1, 1), ((1, 1, 2, 1), 1), ((1, 2, 1), 1), ((2, 1), 1), (3, 1), (3, 2)):
            nums = {t: Int(w) for t in kw.get('numbers') or ()}
            if w > 1 and not nums or time.process_time() - t0 > SMALL_SECONDS: break
            d = self.small(b, s, args if args is not None else self.syms(b), n, numbers=nums, **{k: v for k, v in kw.items() if k not in ('oid', 'rule', 'panics', 'need', 'numbers')})
            if d: o['status'] = 'violated'; o['detail'] = 'with lists of %s elements%s, %s' % (n if isinstance(n, int) else ' by '.join(map(str, n)), ''.join(' and %s = %d' % (show(t), w) for t in nums), d); return
    def small(self, b, s, args, n, opaque=None, assume=(), events=True, ret=True, mem=True, budget=60000, extra=(), setup=None, modifies=None, view=None, resplit=None, numbers=None):
        """a difference that shows when lists the loops walk over have a known number of unknown elements"""
        def both(sp, bound):
            sp = {**fixed, **sp}; T._sp = sp
            try:
                r = [self.run(f, [sp.get(x, x) for x in args], opaque, budget // 2, setup, modifies=modifies, given=assume, resplit=resplit, bound=bound) for f in (b, s)]
                if DBGS: print('SMALL', n, b.name, [show(x)[-230:] for x in sp], bound, [x[0] and len(x[0]) for x in r], [x[2] for x in r])
                d = None
                if (sp or bound) and r[0][0] is not None and r[1][0] is not None: d = self.small_cmp(r[0][0], r[1][0], assume, extra, events, ret, mem, view)
                return d, r[0][1].found | r[1][1].found
            finally: T._sp = {}
        fixed = numbers or {}
        size = n if isinstance(n, tuple) else (n,)
        def nested(x):
            # how many lists an element is taken from
            d = [a for a in x.args if isinstance(a, T)] if x.op != 'elem' else [x.args[0]]
            return (x.op == 'elem') + max((nested(a) for a in d), default=0)
        def lists(xs): return {x: mk_seq('l', [One(T('elem', x, Int(k))) for k in range(size[min(nested(x), len(size) - 1)])]) for x in xs}
        try:
            _, found = both({}, None)
            first = sorted(found, key=lambda x: x.id)
            tried = []
            for bound, groups in ((None, [[x] for x in first]), (max(size) + 1, [[x] for x in first] + ([first] if len(first) > 1 else []))):
                if bound and len(size) > 1: break
                for xs in groups:
                    have = list(xs)
                    for _ in range(3):
                        d, more = both(lists(have), bound)
                        if d: return d
                        # lists of the elements
                        more = [x for x in sorted(more, key=lambda x: x.id) if x not in have and any(contains(x, lambda z: z.op == 'elem' and z.args[0] is h) for h in have)]
                        if not more or len(have) + len(more) > 12: break
                        have += more
            if not first and len(size) == 1: return both({}, n + 1)[0]
        except (Inconclusive, RecursionError): pass
        finally: T._sp = {}
        return None
    def small_cmp(self, rows, srows, assume, extra, events, ret, mem, view):
        # what a function of this crate does shows in its arguments and in its result; an idle call is none
        for r in list(rows) + list(srows):
            if any(e[0] == 'call' and e[1].startswith('crate::') for e in r.trace): r.trace = [e for e in r.trace if not (e[0] == 'call' and e[1].startswith('crate::'))]
        for q in srows:
            for p in rows:
                st = p.st.copy()
                if not assume_all(st, assume) or not assume_all(st, q.facts) or not consistent(st): continue
                if any(k.op != 'unsigned' and why_open(k, extra) for k in st.facts): continue
                v, d = self.rows_cmp(st, p, q, extra, events, ret, mem, view)
                if DBGS and v != 'eq': print('  pair', v, d[:200], [show(x)[:150] for x in suspended(p) ^ suspended(q)])
                if v == 'ne' and (not suspended(p) ^ suspended(q) or one_more_key(st, p, q)): return 'when %s: %s' % (facts_str(st.facts)[:LIMIT], d)
        return None
    def compare_model(self, fn, ref, args=None, opaque=None, oid=None, assume=(), rule='agrees with the reference model on every path', events=True, ret=True, mem=True, panics='spec', budget=60000, extra=(), setup=None, modifies=None, view=None, need=True, resplit=None, numbers=None):
        b = self.fn(fn, need=need) if isinstance(fn, str) else fn
        if b is None: return self.open(oid or fn, rule, '', 'no such helper function in this tree')
        w = self.where(b); oid = oid or b.name
        s = self.fn(ref, spec=True, need=False, near=b)
        if s is None:
            if self.info['without_models'] or self.info['part']: return self.open(oid, rule, w, 'the reference model does not type-check against this tree')
            raise Missing('reference model ' + ref)
        if args is None: args = self.syms(b)
        if s.nargs != b.nargs: return self.bad(oid, rule, w, 'signature changed')
        rows, e, why = self.run(b, args, opaque, budget, setup, modifies=modifies, given=assume, resplit=resplit)
        if rows is None: return self.open(oid, rule, w, why)
        srows, se, swhy = self.run(s, args, opaque, budget, setup, modifies=modifies, given=assume, resplit=resplit)
        if srows is None: return self.open(oid, rule, w, 'reference: ' + swhy)
        opened = None; n = 0
        rows = rename_rows(rows, unify(all_terms(rows), all_terms(srows)), e)
        weak = {}
        for q in srows:
            hit = 0
            for p in rows:
                st = p.st.copy()
                if not assume_all(st, assume) or not assume_all(st, q.facts) or not consistent(st): continue
                v, d = self.rows_cmp(st, p, q, extra, events, ret, mem, view)
                if v == 'inf': continue
                hit += 1; n += 1
                if v == 'ne' and not same_first(p.facts, q.facts): v, d = 'unk', 'which element ends the search: ' + d
                if v == 'ne': return self.bad(oid, rule, w, 'when %s: %s' % (facts_str(st.facts)[:LIMIT], d))
                if v != 'eq': opened = d
                for x in (p, q): weak.setdefault(id(x), []).append((v, d, st))
            if not hit:
                st = State()
                if assume_all(st, assume) and assume_all(st, q.facts) and consistent(st):
                    pan = self.case_panics(e, Case('', [(k, v) for k, v in q.facts.items()]), assume)
                    if pan: return self.bad(oid, rule, w, 'panics (%s %s) when %s' % (pan[0].kind, pan[0].what[:200], facts_str(q.facts)[:400]))
                    return self.bad(oid, rule, w, 'no path when %s' % facts_str(q.facts)[:500])
        # a path under conditions that are not decided: it differs from every case it may belong to
        for x in rows + srows:
            l = weak.get(id(x))
            if l and all(v == 'weak' for v, _, _ in l): return self.bad(oid, rule, w, 'when %s: %s' % (facts_str(l[0][2].facts)[:LIMIT], l[0][1]))
        if panics == 'spec':
            # a panic the model does not have
            for p in e.panics:
                for q in srows:
                    st = State()
                    if not assume_all(st, p.facts) or not assume_all(st, assume) or not assume_all(st, q.facts) or not consistent(st): continue
                    # the model panics too?
                    if any(panic_key(p) == panic_key(x) for x in se.panics): continue
                    if any(assume_all_ok(p.facts, sp.facts) for sp in se.panics): continue
                    if any(why_open(k) for k in p.facts if k.op != 'unsigned') and self.at_first(e, p, q, assume): return self.bad(oid, rule, w, 'may panic (%s %s) when %s' % (p.kind, p.what[:200], facts_str(p.facts)[:400]))
                    if any(why_open(k) for k in p.facts if k.op != 'unsigned'): opened = 'panic under an undecided condition: ' + facts_str(p.facts)[:300]; continue
                    return self.bad(oid, rule, w, 'may panic (%s %s) when %s' % (p.kind, p.what[:200], facts_str(p.facts)[:400]))
        if opened: return self.open(oid, rule, w, opened)
        self.ok(oid, rule, w, '%d paths against %d cases, %d combinations' % (len(rows), len(srows), n))
    def at_first(self, e, p, q, assume):
        """the panic happens when the loops around it are entered (or left without an iteration)"""
        s = State()
        fs = dict(p.facts)
        for _ in range(4):
            m = {x: e.first.get(x) for k in fs for x in subterms(k) if x.op == 'phi'}
            if not m: break
            if any(v is None for v in m.values()): return False
            n = {}
            for k, v in fs.items():
                k2, v2 = subst(k, m), subst(v, m)
                if is_const(k2):
                    if is_const(v2) and k2 is not v2: return False
                    continue
                if k2 in n and n[k2] is not v2: return False
                n[k2] = v2
            fs = n
        return assume_all(s, fs) and assume_all(s, assume) and assume_all(s, {k: v for k, v in q.facts.items() if not why_open(k)}) and consistent(s) and not any(why_open(k) for k in s.facts if k.op != 'unsigned')
    def model_any(self, fn, refs, oid=None, **kw):
        """the function agrees with one of several equivalent reference models.  refs: a list of families;
        it is violated when some family contradicts it with every one of its members"""
        b = self.fn(fn, need=kw.get('need', True)) if isinstance(fn, str) else fn
        if b is None: return self.open(oid or fn, kw.get('rule', ''), '', 'no such helper function in this tree')
        keep = self.obs; fams = [[r] if isinstance(r, str) else r for r in refs]; res = []; done = None
        for fam in fams:
            rs = []
            for r in fam:
                self.obs = []
                self.model(b, r, oid=oid or b.name, **kw)
                o = self.obs[-1]; o['detail'] = '%s: %s' % (r, o['detail'])
                rs.append(o)
                if o['status'] == 'ok': done = o; break
            if done: break
            res.append(rs)
        self.obs = keep
        if done: return self.obs.append(done)
        bad = next((rs for rs in res if all(o['status'] == 'violated' for o in rs) or self.calibrated(fams, rs, kw) or any(o['status'] == 'violated' and 'which otherwise agrees' in o['detail'] for o in rs)), None)
        rs = bad or [o for rs in res for o in rs if o['status'] == 'open'] or res[0]
        rs[0]['detail'] = ' | '.join(o['detail'][:LIMIT] for o in rs)
        self.obs.append(rs[0])
    def calibrated(self, fams, rs, kw):
        """a member contradicts the function, and it does not contradict in the same way the members that could not be compared"""
        fam = next(f for f in fams if any(rs[0]['detail'].startswith(r + ': ') for r in f))
        bads = [r for r, o in zip(fam, rs) if o['status'] == 'violated']; opens = [r for r, o in zip(fam, rs) if o['status'] == 'open']
        if not bads or not opens: return False
        kw = {k: v for k, v in kw.items() if k != 'need'}
        def contradicts(a, b):
            keep, self.obs = self.obs, []
            try: self.model(self.fn(b, spec=True), a, oid='calibration', **kw); return self.obs[-1]['status'] == 'violated'
            finally: self.obs = keep
        for a in bads:
            if not any(contradicts(a, b) for b in opens):
                rs.sort(key=lambda o: not o['detail'].startswith(a + ': '))
                return True
        return False
    def rows_cmp(self, st, p, q, extra, events, ret, mem, view=None):
        """'eq', 'ne', 'unk', 'inf' (not the same execution), or 'weak': different, under a condition that is not decided"""
        opened = None
        pr, qr = simp(st, p.ret), simp(st, q.ret)
        pm = {k: simp(st, v) for k, v in p.mem().items()}; qm = {k: simp(st, v) for k, v in q.mem().items()}
        ren = {}; ne = None
        if events or any(ev[0] == 'loop' for ev in p.trace + q.trace):
            uses = aligned(pr, qr, aligned_traces(p.trace, q.trace, set()))
            for k in set(pm) & set(qm): aligned(pm[k], qm[k], uses)
            v, d, ren = with_uses(uses, lambda: traces_cmp(p.trace, q.trace, st, extra))
            if v == 'inf': return v, d
            if v == 'ne' and events: ne = d
            if v != 'eq': opened = d
            else: st = restate(st, ren) or st
            if v == 'eq': extra = tuple(extra) + phis_in(ren)
            else: extra = tuple(extra) + ren.ok
        def differ(d, late=()):
            # conditions of one of the two paths only
            for X, Y in ((p.facts, q.facts), (q.facts, p.facts)):
                for k in X:
                    if k.op != 'unsigned' and k not in Y and why_open(subst(k, ren), extra) and not (late and contains(k, lambda x: x in late)): return 'weak', d
            return 'ne', d
        if ne is not None: return differ(ne, ren.late)
        if ren: pr = subst(pr, ren); pm = {subst(k, ren): subst(v, ren) for k, v in pm.items()}
        if ret:
            if view: pr, qr = view(pr), view(qr)
            v, d = compare(pr, qr, extra, st)
            if v == 'ne': return differ('the result ' + d)
            if v == 'unk': opened = 'result ' + d
        if mem:
            for k in set(pm) | set(qm):
                v, d = compare(pm.get(k, k), qm.get(k, k), extra, st)
                if v == 'ne': return differ('%s afterwards %s' % (show(k), d))
                if v == 'unk': opened = '%s %s' % (show(k), d)
        return ('unk', opened) if opened else ('eq', '')

def same_first(P, Q):
    """searches over the same sequence that end for different reasons: some element satisfies both"""
    for k, v in P.items():
        for l, u in Q.items():
            if k.op != 'first' and l.op != 'first' or k.op not in ('first', 'any') or l.op not in ('first', 'any') or k.args[0] is not l.args[0] or k is l: continue
            g = k.args[1 + v.args[0]] if k.op == 'first' else k.args[1]
            h = l.args[1 + u.args[0]] if l.op == 'first' else l.args[1]
            if k.op == 'any' and v is not TRUE or l.op == 'any' and u is not TRUE: continue
            s = State()
            if not assume_all(s, [f.args for f in g.args]) or not assume_all(s, [f.args for f in h.args]) or not consistent(s): return False
    return True
def panic_key(p): return p.kind, re.sub(r'φ\[[^\]]*\]', 'φ', p.what)
def assume_all_ok(a, b):
    st = State()
    return assume_all(st, a) and assume_all(st, b) and consistent(st)

def events_cmp(trace, want, st, extra):
    evs = [ev for ev in trace if ev[0] != 'drop']
    for ev in evs:
        if ev[0] == 'loop' and unbounded_effects(ev[1], extra) and not any(why_open(k, extra) for k in st.facts if k.op != 'unsigned'):
            return 'ne', 'effects %s, as often as the data has it; must perform %d' % (names(evs), len(want))
    if any(ev[0] == 'loop' for ev in evs): return 'unk', 'effects inside a loop'
    got = [(ev[1], tuple(simp(st, a) for a in ev[2])) for ev in evs]
    odd = next((g[0] for g in got if not app_interpreted(g[0], extra)), None)
    if odd and (len(got) != len(want) or any(g[0] != w[0] for g, w in zip(got, want))): return 'unk', 'unmodelled effect ' + odd
    if len(got) != len(want):
        return 'ne', 'performs %d effects (%s), must perform %d' % (len(got), ', '.join(g[0] for g in got)[:200], len(want))
    for (gn, ga), (wn, wa) in zip(got, want):
        if gn != wn and not gn.endswith(wn): return 'ne', 'effect %s where %s is required' % (gn, wn)
        if wa is None: continue
        for x, y in zip(ga, wa):
            if y is None: continue
            v, d = compare(x, simp(st, y), extra)
            if v != 'eq': return v, 'argument of %s %s' % (gn, d)
    return 'eq', ''

# ------------------------------------------------------------------------------ traces and open loops
def restate(st, ren):
    """the state with its loop-carried values renamed; None when its facts then contradict each other"""
    n = State()
    fs = {}
    for k, v in st.facts.items():
        k2, v2 = subst(k, ren), subst(v, ren)
        if is_const(k2):
            if is_const(v2) and k2 is not v2: return None
            continue
        if k2 in fs and fs[k2] is not v2 and is_const(fs[k2]) and is_const(v2): return None
        fs[k2] = v2
    if not assume_all(n, fs) or not consistent(n): return None
    return n
def effective(L, st, extra):
    """the loop surely runs and every iteration changes the caller's memory or has an effect"""
    if L.prim is None or st.truth(mk_empty(simp(st, L.prim))) is not False: return False
    ex = tuple(extra) + tuple(L.entry)
    for x in L.iters:
        if any(e[0] == 'call' for e in x.trace): continue
        if any(p.args[1][0] != 'L' and compare(nv, p, ex)[0] == 'ne' for p, nv in x.upd.items()): continue
        return False
    return bool(L.iters)
def unbounded_effects(L, extra):
    """every iteration has a known effect and the number of iterations depends on the data"""
    if L.prim is None or L.prim.op in ('seq', 'agg', 'int', 'str'): return False
    if any(x.op in ('slice', 'takel') for x in subterms(L.prim)): return False
    return bool(L.iters) and all(any(e[0] == 'call' and app_interpreted(e[1], extra) for e in x.trace) for x in L.iters) and all(getattr(x, 'done', False) for x in L.exits)
class Ren(dict):
    """a renaming, and which of its loop-carried values are known to correspond"""
    ok = ()
def traces_cmp(pt, qt, st, extra, ren=None):
    n0 = len(extra)
    v, d, r, ex, *at = traces_cmp_(pt, qt, st, extra, ren)
    r = Ren(r); r.ok = tuple(ex)[n0:]
    # values carried by the loops that only come after the difference; what is learnt about them does not undo it
    r.late = set()
    if v == 'ne' and at:
        for t in (pt, qt):
            for e in [e for e in t if e[0] != 'drop'][at[0]:]:
                if e[0] == 'loop': loop_phis(e[1], r.late)
    return v, d, r
def open_fact(s, extra, ren):
    late = getattr(ren, 'late', ())
    return next((why_open(k, extra) for k in s.facts if k.op != 'unsigned' and why_open(k, extra) and not (late and contains(k, lambda x: x in late))), None)
def loop_phis(L, out):
    out.update(L.entry)
    for x in list(L.iters) + list(L.exits):
        for e in x.trace:
            if e[0] == 'loop' and not set(e[1].entry) <= out: loop_phis(e[1], out)
    return out
def traces_cmp_(pt, qt, st, extra, ren=None):
    """compare event sequences; loops are matched up to renaming of their φ's. -> verdict, detail, renaming
    ('inf': the two paths cannot be taken by the same execution)"""
    ren = dict(ren or {})
    p = [e for e in pt if e[0] != 'drop']; q = [e for e in qt if e[0] != 'drop']
    opened = None
    for n in range(max(len(p), len(q))):
        if n >= len(p) or n >= len(q):
            rest = (p if n < len(p) else q)[n:]
            if opened: return 'unk', opened, ren, extra
            odd = next((e[1] for e in rest if e[0] == 'call' and not app_interpreted(e[1], extra)), None)
            if odd: return 'unk', 'unmodelled effect ' + odd, ren, extra
            known = tuple(extra) + phis_in(ren)
            w = next((why_open(k, known) for k in st.facts if k.op != 'unsigned' and why_open(k, known)), None)
            if w is None and (any(e[0] == 'call' for e in rest) or effective(rest[0][1], st, extra)):
                return 'ne', 'effects %s, required %s' % (names(p), names(q)), ren, extra
            return 'unk', 'loops differ' + (' under ' + w if w else ''), ren, extra
        x, y = p[n], q[n]
        if x[0] != y[0]:
            # any number of effects against a fixed number
            lp, other = (x, q[n:]) if x[0] == 'loop' else (y, p[n:])
            if not opened and unbounded_effects(lp[1], extra) and not any(e[0] == 'loop' for e in other) and not any(why_open(k, tuple(extra) + phis_in(ren)) for k in st.facts if k.op != 'unsigned'):
                return 'ne', 'effects %s, required %s' % (names(p), names(q)), ren, extra
            return 'unk', 'effects in a different shape', ren, extra
        if x[0] == 'loop':
            v, d, ren = loops_cmp(x[1], y[1], st, extra, ren)
            if v == 'ne': return v, d, ren, extra
            # the same loop is not both run to its end and left early
            if v == 'eq' and x[2] is not None and y[2] is not None and x[2] != y[2]: return 'inf', '', ren, extra
            if v == 'unk': opened = d
            else:
                st2 = restate(st, ren)
                if st2 is None: return 'inf', '', ren, extra
                st = st2
                extra = tuple(extra) + phis_in(ren, extra)
            continue
        if x[1] != y[1]:
            if sorted(str(e[1]) for e in p) == sorted(str(e[1]) for e in q): return 'unk', 'effects in a different order', ren, extra
            if opened: return 'unk', opened, ren, extra
            odd = next((e[1] for e in p + q if e[0] == 'call' and not app_interpreted(e[1], extra)), None)
            if odd: return 'unk', 'unmodelled effect ' + odd, ren, extra
            return 'ne', 'effects %s, required %s' % (names(p), names(q)), ren, extra, n
        for a, b in zip(x[2], y[2]):
            v, d = compare(simp(st, subst(a, ren)), simp(st, b), extra, st)
            if v == 'ne' and not opened: return 'ne', 'argument of %s %s' % (x[1], d), ren, extra, n
            if v != 'eq': opened = opened or d
        if x[3] is not None and y[3] is not None and x[3] is not y[3]: ren[x[3]] = y[3]
    return ('unk' if opened else 'eq'), opened, ren, extra
def names(t): return '[' + ', '.join(str(e[1]) if e[0] != 'loop' else 'loop' for e in t)[:300] + ']'

def phis_in(ren, known=()):
    return tuple(x for v in ren.values() if v.op in ('phi', 'lin') for x in ([v] if v.op == 'phi' else v.args[1::2]) if x.op == 'phi' and x not in known)
# loop-carried values of the two programs that end up in the same place of a result: equal when the programs are
USES = set()
def aligned(a, b, out):
    if not isinstance(a, T) or not isinstance(b, T): return out
    if a.op == 'phi' and b.op == 'phi': out.add((a, b)); return out
    if a.op == b.op and len(a.args) == len(b.args) and a.op in ('agg', 'seq', 'one', 'upd') and all(isinstance(x, T) or x == y for x, y in zip(a.args, b.args)):
        for x, y in zip(a.args, b.args): aligned(x, y, out)
    return out
def aligned_traces(p, q, out):
    p = [e for e in p if e[0] == 'call']; q = [e for e in q if e[0] == 'call']
    if [e[1] for e in p] == [e[1] for e in q]:
        for x, y in zip(p, q):
            for a, b in zip(x[2], y[2]): aligned(a, b, out)
    return out
def with_uses(found, f):
    global USES
    keep = USES; USES = USES | found
    try: return f()
    finally: USES = keep
LOOPMEMO = {}
def loops_cmp(L, M, st, extra, ren, alien=None):
    # only what is known before the loop: nothing about values carried by loops that are not matched yet
    ok = set(ren) | set(phis_in(ren)) | set(extra)
    outer = frozenset((k, v) for k, v in st.facts.items() if not contains(k, lambda x: x.op == 'phi' and x not in ok))
    uses = frozenset(u for u in USES if u[0] in L.entry and u[1] in M.entry)
    key = (id(L), id(M), frozenset(extra), frozenset(ren.items()), outer, alien, uses)
    if key not in LOOPMEMO:
        s2 = State()
        LOOPMEMO[key] = (loops_cmp_(L, M, s2 if assume_all(s2, dict(outer)) else st, extra, ren, alien), L, M)
    return LOOPMEMO[key][0]
def loops_cmp_(L, M, st, extra, ren, alien=None):
    """L's iterations simulate M's and conversely, for a bijection between their loop-carried values.
    -> verdict, detail, renaming (the matched values of M are interpreted from here on: ren['rel'])"""
    pl = [p for p in L.entry if p not in L.counters and p not in L.sources]; pm = [p for p in M.entry if p not in M.counters and p not in M.sources]
    if L.prim is not None and M.prim is not None:
        a = simp(st, subst(L.prim, ren)); b = simp(st, M.prim)
        if a is not b:
            if restricts(a, b) or restricts(b, a): return 'ne', 'the loop runs over %s, must run over %s' % (show(a)[:200], show(b)[:200]), ren
            if alien is None and why_open(a, extra) is None and why_open(b, extra) is None and a.op != 'range' and b.op != 'range':
                v, d, r = loops_cmp(L, M, st, extra, {**ren, L.prim: M.prim, a: b}, (a, b))
                if v == 'eq': return 'ne', 'the loop, which otherwise agrees, runs over %s, must run over %s' % (show(a)[:200], show(b)[:200]), ren
            if alien is None and a.op == b.op == 'range' and a.args[1] is b.args[1] and sub(a.args[0], b.args[0]).op == 'int':
                # the same numbers from another one on
                c = sub(a.args[0], b.args[0])
                v, d, r = loops_cmp(L, M, st, extra, {**ren, L.prim: M.prim, a: b, T('idx', L.prim): sub(T('idx', M.prim), c), T('idx', a): sub(T('idx', M.prim), c)}, (a, b))
                if v == 'eq': return 'ne', 'the loop, which otherwise agrees, runs over %s, must run over %s' % (show(a)[:200], show(b)[:200]), ren
            return 'unk', 'the loop runs over something else: %s instead of %s' % (show(a)[:100], show(b)[:100]), ren
    elif L.prim is not M.prim: return 'unk', 'one of the loops walks over a sequence, the other does not', ren
    # a counter that only counts (for messages) has no counterpart
    if len(pl) > len(pm): pl = drop_idle(L, pl, len(pl) - len(pm))
    elif len(pl) < len(pm): pm = drop_idle(M, pm, len(pm) - len(pl))
    if abs(len(pl) - len(pm)) == 1:
        # something is collected in one of them only
        ren = dict(ren)
        for X, ps in ((L, pl), (M, pm)):
            acc = [p for p in ps if collects(X, p, st, ren)]
            if len(ps) == 1 + min(len(pl), len(pm)) and len(acc) == 1:
                ps.remove(acc[0]); ren[acc[0]] = acc[0]; extra = tuple(extra) + (acc[0],)
    if len(pl) != len(pm): return 'unk', 'loops carry different state: %s instead of %s' % ([show(p) for p in pl], [show(p) for p in pm]), ren
    sl = [p for p in L.entry if p in L.sources]; sm = [p for p in M.entry if p in M.sources]
    base = dict(ren)
    if len(sl) == len(sm): base.update(zip(sl, sm))
    ent = lambda L, p, r: simp(st, subst(L.entry[p], r))
    nm = lambda p: p.args[1].split('.')[-1] if p.args[1][0] != 'L' else None
    def cands(p):
        c = [q for q in pm if nm(p) is not None and nm(p) == nm(q)]
        if c: return c
        c = [q for q in pm if ent(L, p, ren) is ent(M, q, {})]
        if c: return c
        c = [q for q in pm if nm(q) is None] if len([x for x in pl if nm(x) is None]) == 1 else []
        # counters started at different constants: the same up to their difference
        for q in c or [q for q in pm if nm(q) is None]:
            d = sub(ent(L, p, ren), ent(M, q, {})) if ent(L, p, ren).op in ('int', 'lin') or ent(M, q, {}).op in ('int', 'lin') else None
            if d is not None and d.op == 'int' and d.args[0]: shift[p, q] = d.args[0]
        return c or [q for q in pm if (p, q) in shift] or [q for q in pm if nm(q) is None and sig(L, p) == sig(M, q) and sig(L, p)]
    tried = []; shift = {}
    def search(i, used, m):
        if len(tried) > 24: return False
        if i == len(pl):
            v, d, r2, sc = loop_body_cmp(L, M, st, extra, {**base, **{p: add(q, Int(shift.get((p, q), 0))) for p, q in m.items()}}, m, shift)
            tried.append((v, d, r2, sc)); return v == 'eq'
        for q in sorted(cands(pl[i]), key=lambda q: 0 if sig(L, pl[i]) == sig(M, q) else 1):
            if q in used: continue
            if search(i + 1, used | {q}, {**m, pl[i]: q}): return True
        return False
    search(0, frozenset(), {})
    if not tried: return 'unk', 'loop-carried values cannot be matched', ren
    if tried[-1][0] == 'eq': return tried[-1][:3]
    # the best correspondence: the one with the greatest share of agreeing updates
    tried.sort(key=lambda t: -t[3])
    if len(tried) > 1 and tried[0][3] == tried[1][3] and tried[0][0] == 'ne' and any(t[0] != 'ne' for t in tried if t[3] == tried[0][3]): return ('unk', 'ambiguous match of loop-carried values') + tried[0][2:3]
    return tried[0][:3]
def collects(L, p, st, ren):
    """iterations only ever add to the list or text, which is empty at first, and here some iteration can"""
    if L.entry[p] not in (EMPTY_L, EMPTY_S): return False
    grows = False
    for x in L.iters:
        # (and nothing depends on what was collected so far)
        if any(contains(k, lambda z: z is p) for k in x.facts) or any(contains(v, lambda z: z is p) for q, v in x.upd.items() if q is not p): return False
        v = x.upd.get(p, p)
        if v is p: continue
        if v.op != 'seq' or len(v.args) < 3 or v.args[1] is not p: return False
        s = st.copy()
        grows = grows or assume_all(s, {subst(k, ren): subst(v, ren) for k, v in x.facts.items()}) and consistent(s)
    return grows
def drop_idle(L, ps, n):
    """without n of the loop-carried values that influence no other one; what depends on them later stays undecided"""
    # what a call leaves behind in a value that only calls see has no counterpart where the call is missing
    left = [p for p in ps if effect_only(L, p)]
    if left and len(left) <= n: ps = [p for p in ps if p not in left]; n -= len(left)
    if not n: return ps
    left = [p for p in ps if overwritten(L, p)]
    if left and len(left) <= n: ps = [p for p in ps if p not in left]; n -= len(left)
    if not n: return ps
    idle = [p for p in ps if all(sub(x.upd[p], p).op == 'int' for x in L.iters if p in x.upd) and not any(contains(v, lambda t: t is p) for x in L.iters for q, v in x.upd.items() if q is not p)]
    return [p for p in ps if p not in idle] if len(idle) == n else ps
def effect_only(L, p):
    if any(contains(k, lambda t: t is p) for x in list(L.iters) + list(L.exits) for k in x.facts): return False
    changed = False
    for x in L.iters:
        v = x.upd.get(p, p)
        if v is p: continue
        changed = True
        if v.op == 'post': continue
        if v.op != 'phi' or not any(e[0] == 'loop' and v in e[1].entry and effect_only(e[1], v) for e in x.trace): return False
    return changed
def overwritten(L, p):
    """no iteration looks at the value the one before left"""
    def uses(v): return isinstance(v, T) and contains(v, lambda t: t is p)
    def seen(tr):
        for e in tr:
            if e[0] == 'loop':
                M = e[1]
                if uses(M.prim) or any(uses(v) for v in M.entry.values()) or any(uses(k) or uses(v) for x in list(M.iters) + list(M.exits) for d in (x.facts, x.upd) for k, v in d.items()) or any(seen(x.trace) for x in list(M.iters) + list(M.exits)): return True
            elif any(uses(v) for v in e[2]): return True
        return False
    for x in list(L.iters) + list(L.exits):
        if any(uses(k) or uses(v) for k, v in x.facts.items()) or any(uses(v) for q, v in x.upd.items() if q is not p) or seen(x.trace): return False
    return all(x.upd.get(p, p) is p or not uses(x.upd[p]) for x in L.iters)
SIGMEMO = {}
def sig(L, p):
    """how a loop-carried value is updated, without the names of the values"""
    k = (id(L), p)
    if k not in SIGMEMO:
        ph = {q: T('phi', '*', '*') for x in L.iters for v in x.upd.values() for q in subterms(v) if q.op == 'phi'}
        ph[p] = T('phi', 'self', '')
        SIGMEMO[k] = (sorted(hash_str(show(subst(x.upd[p], ph))[:2000]) for x in L.iters if p in x.upd and x.upd[p] is not p), L)
    return SIGMEMO[k][0]
def restricts(a, b):
    """a walks over part of b, or over b in another order"""
    while a.op in ('slice', 'takel', 'rev', 'comp') and isinstance(a.args[0], T):
        a = a.args[0]
        if a is b: return True
    return False
def iters_joint(X, Y, ren):
    memo = {}
    for x in X:
        xf = {subst(k, ren, memo): subst(v, ren, memo) for k, v in x.facts.items()}
        for j, y in enumerate(Y):
            if any(k in xf and xf[k] is not v and is_const(v) and is_const(xf[k]) for k, v in y.facts.items()): continue
            s = State()
            if not assume_all(s, xf) or not assume_all(s, y.facts) or not consistent(s): continue
            yield x, j, y, s
def busy(L, extra):
    """the loop never ends before its sequence does, and every iteration has an effect"""
    return L.prim is not None and unbounded_effects(L, extra)
def leaves(x, L):
    """an exit that does nothing but leave; it may drop the current element, whatever comes after it"""
    if x.keeps: return True
    if not x.moves: return False
    for k in x.facts:
        if k.op == 'empty' and k.args[0] in L.sources: continue
        if any(t in L.sources for t in subterms(k)): return False
    return True
def shifts(v): return contains(v, lambda t: t.op == 'tail' and contains(t, lambda x: x.op == 'phi'))
def loop_body_cmp(L, M, st, extra, ren, pairs, shift={}):
    """-> verdict, detail, renaming, share of agreeing updates"""
    opened = None; score = 0; total = 0; why = None
    def bad(d):
        nonlocal why
        why = why or d
    # which pairs are corroborated: same place in the caller's memory, or a non-trivial update that agrees
    rel = set(q for p, q in pairs.items() if p.args[1][0] != 'L')
    init = {}
    by = lambda p, q, t: add(t, Int(shift[p, q])) if (p, q) in shift else t
    for p, q in pairs.items():
        v, d = compare(simp(st, subst(L.entry[p], ren)), by(p, q, simp(st, M.entry[q])), extra, st)
        init[p] = (v, d); total += 1
        if v == 'eq': score += 1
    combos = list(iters_joint(L.iters, M.iters, ren))
    before = {k: f for k, f in st.facts.items() if not contains(k, lambda z: z in L.entry or z in M.entry)}
    trivial = {q: True for q in pairs.values()}
    for x, j, y, s in combos:
        for p, q in pairs.items():
            a, b = simp(s, subst(x.upd[p], ren)), simp(s, by(p, q, y.upd[q]))
            if y.upd[q] is not q: trivial[q] = False
            total += 1
            if a is b: score += 1
            if a is b and y.upd[q] is not q: rel.add(q)
    for p, q in pairs.items():
        if trivial[q] or (p, q) in USES: rel.add(q)
    ex2 = tuple(extra) + tuple(rel)
    for p, q in pairs.items():
        v, d = init[p]
        if v == 'ne' and q in rel: bad('initial value of a loop-carried variable ' + d)
        elif v != 'eq': opened = 'initial value ' + d
    hits_q = set(); hits_p = set()
    for x, j, y, s in combos:
        hits_q.add(j); hits_p.add(id(x))
        inner = aligned_traces(x.trace, y.trace, set())
        for p, q in pairs.items(): aligned(simp(s, subst(x.upd[p], ren)), simp(s, y.upd[q]), inner)
        v, d, r2 = with_uses(inner, lambda: traces_cmp(x.trace, y.trace, s, ex2, ren))
        if v == 'inf': continue
        if v != 'eq':
            # not with what is known before the loop
            s2 = s.copy()
            if not assume_all(s2, {k: f for k, f in before.items() if k not in s.facts}) or not consistent(s2): continue
        ex3 = ex2 + (phis_in(r2, ex2) if v == 'eq' else r2.ok)
        w = None
        if v == 'unk':
            # what the two have in common decides whether they can coincide
            s = restate(s, {a: b for a, b in r2.items() if b in ex3})
            if s is None: continue
        w = open_fact(s, ex3, r2) if v != 'eq' else None
        if v == 'ne': bad('in an iteration when %s: %s' % (facts_str(s.facts)[:LIMIT], d))
        if v == 'unk': opened = d
        for p, q in pairs.items():
            v, d = compare(simp(s, subst(x.upd[p], r2)), by(p, q, simp(s, y.upd[q])), ex3, s)
            if v == 'ne':
                s2 = s.copy()
                if not assume_all(s2, {k: f for k, f in before.items() if k not in s.facts}) or not consistent(s2): continue
            if v == 'ne' and shifts(x.upd[p]) != shifts(y.upd[q]): v, d = 'unk', 'a list that loses its first element: ' + d
            if v == 'eq' and y.upd[q] is not q: rel.add(q)
            if v == 'ne' and w: v, d = 'unk', 'under ' + w
            if v == 'ne': bad('in an iteration when %s: the loop-carried value %s' % (facts_str(s.facts)[:LIMIT], d))
            if v == 'unk': opened = d
    if len(hits_q) != len(M.iters): opened = 'an iteration case is missing'
    hits_q = set()
    tags = set(x.tag for x in L.exits) == set(y.tag for y in M.exits)
    for x in L.exits:
        for j, y in enumerate(M.exits):
            if x.done != y.done or tags and x.tag != y.tag: continue
            for x_, _, y_, s in iters_joint([x], [y], ren):
                hits_q.add(j)
                v, d, r2 = traces_cmp(x.trace, y.trace, s, ex2, ren)
                if v == 'ne': bad('on leaving the loop when %s: %s' % (facts_str(s.facts)[:LIMIT], d))
                if v == 'unk': opened = d
    if len(hits_q) != len(M.exits): opened = 'a way out of the loop is missing'
    # one of the loops goes on where the other one ends
    first = {q: M.entry[q] for q in list(M.entry) if q in set(pairs.values()) or q in M.counters or q in M.sources}
    for X, Y, msg in ((L.iters, M.exits, 'goes on'), (L.exits, M.iters, 'ends')):
        for x, _, y, s in iters_joint(X, Y, ren):
            if getattr(x, 'done', False) or getattr(y, 'done', False): continue
            n = min(len(x.trace), len(y.trace)); same = not x.trace and not y.trace; fst = first
            if n:
                # the loops inside, as far as both run them, decide whether the two can coincide
                v, d, r2 = traces_cmp(x.trace[:n], y.trace[:n], s, ex2, ren)
                if v == 'inf': continue
                if v == 'eq':
                    s = restate(s, r2)
                    if s is None: continue
                    same = len(x.trace) == len(y.trace)
                    # the loops inside are left in their first iteration
                    fst = dict(first)
                    for ev in y.trace + x.trace:
                        if ev[0] == 'loop':
                            for q, e0 in ev[1].entry.items(): fst.setdefault(q, subst(subst(e0, ren), first))
            # certain when it happens in the very first iteration
            w = State()
            sure = assume_all(w, {k: v for k, v in st.facts.items() if not why_open(k, extra)}) and assume_all(w, {subst(k, fst): subst(v, fst) for k, v in s.facts.items()}) and consistent(w) \
                and not any(why_open(k, ex2) for k in w.facts if k.op != 'unsigned')
            if sure and all(v == 'eq' for v, _ in init.values()) and same and (leaves(x if msg == 'ends' else y, L if msg == 'ends' else M) or busy(L if msg == 'goes on' else M, extra)): bad('the loop %s when %s' % (msg, facts_str(w.facts)[:LIMIT])); rel.update(pairs.values())
            else: opened = opened or "the loops may not end together (%s): when %s" % (next((why_open(k, ex2) for k in w.facts if why_open(k, ex2)), sure), facts_str(s.facts)[:LIMIT])
    if why and all(q in rel for q in pairs.values()): return 'ne', why, ren, score / max(total, 1)
    return ('unk' if opened or why else 'eq'), why or opened, ren, score / max(total, 1)

# ------------------------------------------------------------------------------ call graph helpers
def callees(prog, b, closures=True):
    """every call terminator of a body: (callee json, block)"""
    for blk in b.blocks:
        t = blk['t']
        if t[0] == 'call' and not blk.get('cleanup'): yield t[1], t
def fn_operands(j, out):
    if isinstance(j, dict):
        if j.get('c') in ('fn', 'fnptr') and 'callee' in j: out.append(j['callee'])
        for v in j.values(): fn_operands(v, out)
    elif isinstance(j, list):
        for v in j: fn_operands(v, out)
def closures_of(prog, b):
    out = []
    def walk(j):
        if isinstance(j, list):
            if len(j) == 2 and j[0] == 'closure' and isinstance(j[1], str): out.append(j[1])
            for v in j: walk(v)
        elif isinstance(j, dict):
            for v in j.values(): walk(v)
    walk(b.blocks)
    for l in b.locals:
        t = prog.types[l[0]]
        if t['k'] == 'closure': out.append(t['uid'])
    return set(out)
def reach(prog, roots, stop=lambda p: False):
    """bodies and external callees reachable from roots: {path: (via body, site)}"""
    seen = {}; ext = {}
    work = list(roots)
    for b in work: seen[b.uid] = None
    while work:
        b = work.pop()
        nxt = []
        for f, t in callees(prog, b):
            if 'indirect' in f: continue
            nxt.append((f, t[5] if len(t) > 5 else ''))
        fo = []; fn_operands(b.blocks, fo)
        nxt += [(f, '') for f in fo]
        for u in closures_of(prog, b):
            c = prog.bodies.get(u)
            if c is not None and c.uid not in seen: seen[c.uid] = b.uid; work.append(c)
        for f, site in nxt:
            u = f.get('ruid') if f.get('local') else None
            u = u or f['uid']
            c = prog.bodies.get(u)
            if c is not None:
                if c.uid not in seen and not stop(c.path): seen[c.uid] = b.uid; work.append(c)
            else:
                ext.setdefault(f.get('rpath') or f['path'], []).append((b, site))
                # trait method on a type parameter / dyn: every local implementation
                if 'trait' in f:
                    for im in prog.impls:
                        if im['trait'] == f['trait']:
                            for n, uid in im['items']:
                                if n == f['path'].split('::')[-1]:
                                    c = prog.bodies.get(uid)
                                    if c is not None and c.uid not in seen: seen[c.uid] = b.uid; work.append(c)
    return seen, ext
