"""Path-sensitive abstract interpreter over MIR (see DESIGN.md, "The engine").

Values are Herbrand terms (terms.py).  Local functions and closures are analysed in the context of the
call (inlining), library functions through models.py, anything else is an uninterpreted function of
its argument values.  Loops are summarised: locations that change are replaced by a φ symbol until the
loop head is a fixpoint, so one generic iteration stands for all of them.  Nothing is executed and no
solver is involved: branch feasibility is decided by term equality, recorded facts and linear bounds."""
import xpath, sys, regexeq
from terms import *

sys.setrecursionlimit(20000)

class Inconclusive(Exception): pass
class Budget(Inconclusive): pass

# ------------------------------------------------------------------------------ program
class Body:
    def __init__(self, j):
        self.j = j; self.uid = j['uid']; self.path = j['path']; self.name = j['name']
        self.blocks = j['blocks']; self.locals = j['locals']; self.nargs = j['nargs']
        self.closure = j['closure']
        self._loops = None
    def succs(self, i):
        t = self.blocks[i]['t']; k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop': return [t[2]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'assert': return [t[4]]
        return []
    def loops(self):
        """header -> set of blocks (natural loops over the non-cleanup CFG)"""
        if self._loops is not None: return self._loops
        n = len(self.blocks)
        reach = []; seen = set(); st = [0]
        order = []
        def dfs(r):
            stack = [(r, iter(self.succs(r)))]; seen.add(r)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen and not self.blocks[s].get('cleanup'):
                        seen.add(s); stack.append((s, iter(self.succs(s)))); break
                else:
                    order.append(b); stack.pop()
        dfs(0); order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(b):
                if s in idx: preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps: continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while idx[x] > idx[y]: x = idom[x]
                        while idx[y] > idx[x]: y = idom[y]
                if idom.get(b) != x: idom[b] = x; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        L = {}
        for b in order:
            for s in self.succs(b):
                if s in idx and dom(s, b):
                    S = L.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in S: continue
                        S.add(x); w += preds[x]
        self._loops = L
        return L

class Program:
    def __init__(self, d):
        self.types = d['types']; self.adts = d['adts']; self.statics = d['statics']; self.impls = d['impls']
        self.bodies = {}
        for j in d['bodies']: self.bodies[j['uid']] = Body(j)
        self.by_path = {}
        for b in self.bodies.values():
            if b.j['kind'] == 'fn' and not b.closure: self.by_path.setdefault(b.path, []).append(b)
        self.adt_by_path = {}
        for u, a in self.adts.items():
            a['uid'] = u
            self.adt_by_path[a['path']] = a
        self.impl_methods = {}
        for im in d['impls']:
            for n, u in im['items']:
                self.impl_methods.setdefault((im['trait'], n), []).append((im['self'], u))
    def fns(self): return [b for b in self.bodies.values() if b.j['kind'] == 'fn']
    def find(self, suffix):
        """unique fn whose path ends with suffix (generic arguments ignored)"""
        import re
        def norm(p): return re.sub(r"::<(?:(?! as )[^<>])*>", "", re.sub(r"(::)?<'[^>]*>", "", p))
        suffix = norm(suffix)
        r = [b for b in self.bodies.values() if b.j['kind'] == 'fn' and not b.closure and (norm(b.path) == suffix or norm(b.path).endswith('::' + suffix))]
        return r
    def ty(self, i): return self.types[i]

def const_iter(v, d=0):
    if v.op in ('iter', 'seq'):
        x = v.args[0] if v.op == 'iter' else v
        if v.op == 'iter' and x.op == 'seq': return 0 < len(x.args) - 1 <= 1000 and all(p.op == 'one' for p in x.args[1:])
        if v.op == 'iter' and x.op == 'range': return all(y.op == 'int' for y in x.args) and x.args[1].args[0] - x.args[0].args[0] <= 16
        return False
    if v.op in ('imap', 'ifilter', 'ienum', 'irev', 'icopied', 'ifm', 'izip', 'ipeek', 'iflatr') and d < 6: return any(isinstance(a, T) and const_iter(a, d + 1) for a in v.args)
    if v.op == 'agg' and v.args[0] == 'std::ops::Range': return v.args[2].op == 'int' and v.args[3].op == 'int' and v.args[3].args[0] - v.args[2].args[0] <= 16
    return False
PROG = [None]
def adt_of(path):
    return PROG[0].adt_by_path.get(path)

def field_index(path, variant, name):
    a = adt_of(path)
    if a is None: return None
    for v in a['variants']:
        if variant in ('', v['name']) or len(a['variants']) == 1:
            for i, f in enumerate(v['fields']):
                if f[0] == name: return i
    return None

def get_field(v, name):
    if v.op == 'agg':
        if v.args[0] in ('tuple', 'array', 'clos'):
            i = int(name)
            return v.args[2 + i] if 2 + i < len(v.args) else T('fld', v, name)
        i = field_index(v.args[0], v.args[1], name)
        if i is not None and 2 + i < len(v.args): return v.args[2 + i]
        if name.isdigit() and 2 + int(name) < len(v.args): return v.args[2 + int(name)]
    if v.op == 'clos':
        return v.args[1 + int(name)]
    if v.op == 'upd':
        for n, x in zip(v.args[1::2], v.args[2::2]):
            if n == name: return x
        return get_field(v.args[0], name)
    return T('fld', v, name)

def set_field(v, name, x):
    if v.op == 'agg':
        if v.args[0] in ('tuple', 'array'): i = int(name)
        else:
            i = field_index(v.args[0], v.args[1], name)
            if i is None and name.isdigit(): i = int(name)
        if i is not None and 2 + i < len(v.args):
            a = list(v.args); a[2 + i] = x
            return T('agg', *a)
    if v.op == 'clos':
        a = list(v.args); a[1 + int(name)] = x
        return T('clos', *a)
    base, d = v, {}
    if v.op == 'upd':
        base = v.args[0]; d = dict(zip(v.args[1::2], v.args[2::2]))
    if get_field(base, name) is x: d.pop(name, None)
    else: d[name] = x
    if not d: return base
    fl = []
    for k in sorted(d): fl += [k, d[k]]
    return T('upd', base, *fl)

def get_vf(v, variant, i):
    if v.op == 'entry': return v
    if v.op == 'agg' and v.args[1] == variant: return v.args[2 + i] if 2 + i < len(v.args) else T('vf', v, variant, i)
    if v.op == 'vupd' and v.args[1] == variant:
        for n, x in zip(v.args[2::2], v.args[3::2]):
            if n == i: return x
        return get_vf(v.args[0], variant, i)
    return T('vf', v, variant, i)

def get_index(v, i):
    if v.op == 'store':
        if v.args[1] is i: return v.args[2]
        if i.op == 'int' and v.args[1].op == 'int': return get_index(v.args[0], i)
    if i.op == 'int':
        if v.op == 'agg' and v.args[0] == 'array' and 2 + i.args[0] < len(v.args): return v.args[2 + i.args[0]]
        if v.op == 'seq' and v.args[0] == 'l':
            k = i.args[0]
            for p in v.args[1:]:
                if p.op != 'one': break
                if k == 0: return p.args[0]
                k -= 1
    if v.op == 'slice' :
        return get_index(v.args[0], add(v.args[1], i))
    if i.op == 'idx' and v.op == 'comp' and v.args[0] is i.args[0] and len(v.args) == 2 and not v.args[1].args[0].args:
        # one element for every item, at the same place
        ps = pieces(v.args[1].args[1])
        if len(ps) == 1 and ps[0].op == 'one' and v.args[1].args[1].op == 'seq' and v.args[1].args[1].args[0] == 'l': return ps[0].args[0]
    return T('at', v, i)

# ---- boolean terms
def mk_not(x):
    if x.op == 'bool': return Bool(not x.args[0])
    if x.op == 'not': return x.args[0]
    return T('not', x)

def is_const(t): return t.op in ('int', 'bool', 'char', 'str', 'unit')

def mk_empty(x):
    if x.op == 'app' and x.args[0].endswith('::get_readonly_nodes_as_vec'): x = App(x.args[0].replace('_readonly_', '_'), *x.args[1:])
    if x.op == 'str': return Bool(not x.args[0])
    if x.op == 'seq':
        for p in x.args[1:]:
            if p.op == 'one' or (p.op == 'str' and p.args[0]): return FALSE
        ps = x.args[1:]
        if not ps: return TRUE
        if len(ps) == 1: return mk_empty(ps[0])
        return T('empty', x)
    if x.op in ('chars', 'bytes', 'char_indices', 'rev', 'enum'): return mk_empty(x.args[0])
    if x.op == 'agg' and x.args[0] == 'array': return Bool(len(x.args) == 2)
    if x.op == 'range': return mk_le0(sub(x.args[1], x.args[0]))
    if x.op == 'comp':
        cs = x.args[1:]
        if len(cs) == 1 and not cs[0].args[0].args and any(p.op == 'one' for p in pieces(cs[0].args[1])): return mk_empty(x.args[0])
    if x.op == 'map0': return TRUE
    if x.op == 'app' and x.args[0].endswith('Digest::result_str'): return FALSE
    if x.op in ('split_whitespace', 'split_ascii_whitespace') and x.args[0].op == 'str': return Bool(not x.args[0].args[0].strip())
    if x.op == 'split_whitespace': return mk_empty(App('str.trim', x.args[0]))
    if x.op == 'init': return mk_le0(sub(mk_len(x.args[0]), Int(1)))
    if x.op == 'windows': return mk_lt(mk_len(x.args[0]), x.args[1])
    if x.op in ('item', 'elem') and x.args[0].op in ('split_whitespace', 'split_ascii_whitespace'): return FALSE
    if x.op == 'store' and x.args[0].op in ('map0', 'store'): return FALSE
    return T('empty', x)

def mk_len(x):
    if x.op == 'app' and x.args[0].endswith('::get_readonly_nodes_as_vec'): x = App(x.args[0].replace('_readonly_', '_'), *x.args[1:])
    if x.op == 'str': return Int(len(x.args[0].encode()))
    if x.op == 'agg' and x.args[0] == 'array': return Int(len(x.args) - 2)
    if x.op == 'seq':
        r = Int(0)
        for p in x.args[1:]:
            if p.op == 'one': r = add(r, T('clen', p.args[0]) if x.args[0] == 's' else Int(1))
            else: r = add(r, mk_len(p))
        return r
    if x.op == 'comp':
        cs = x.args[1:]
        if len(cs) == 1 and not cs[0].args[0].args and all(p.op == 'one' for p in pieces(cs[0].args[1])):
            return mulc(mk_len(x.args[0]), len(pieces(cs[0].args[1])))
    if x.op in ('rev', 'enum', 'sorted'): return mk_len(x.args[0])
    if x.op == 'range': return T('len', x)
    if x.op == 'tail' and x.args[0].op == 'seq' and any(p.op == 'one' for p in x.args[0].args[1:]): return sub(mk_len(x.args[0]), Int(1))
    if x.op == 'slice' and x.args[2].op != 'end': return sub(x.args[2], x.args[1])
    if x.op == 'init': return sub(mk_len(x.args[0]), Int(1))
    if x.op == 'map0': return Int(0)
    return T('len', x)

def mk_le0(l):
    """l <= 0"""
    c, d = lin_parts(l)
    if not d: return Bool(c <= 0)
    if len(d) == 1:
        (k, v), = d.items()
        if k.op == 'len':
            if v == 1 and c == 0: return mk_empty(k.args[0])
            if v == -1 and c == 1: return mk_not(mk_empty(k.args[0]))
            if v == -1 and c <= 0: return TRUE
            if v == 1 and c > 0: return FALSE
    if len(d) == 2 and c <= 1:
        # the place of an item is below their number
        (x, m), (y, n) = sorted(d.items(), key=lambda kv: kv[0].op)
        if x.op == 'idx' and y.op == 'len' and m == 1 and n == -1 and y.args[0] is x.args[0]: return TRUE
    return T('le0', l)
def mk_lt(a, b): return mk_le0(add(sub(a, b), Int(1)))
def mk_le(a, b): return mk_le0(sub(a, b))

def eq_parts(x, y):
    """x == y for an enum value y: the discriminant and the payload"""
    d = variant_disc(y)
    if d is None: return None
    r = [mk_eq(T('disc', x, y.args[0]), Int(d))]
    for i, p in enumerate(y.args[2:]): r.append(mk_eq(T('vf', x, y.args[1], i), p))
    return r
def variant_disc(x):
    a = adt_of(x.args[0])
    if a:
        for v in a['variants']:
            if v['name'] == x.args[1]: return int(v['discr'])
    return {(OPT, 'None'): 0, (OPT, 'Some'): 1, (RES, 'Ok'): 0, (RES, 'Err'): 1}.get((x.args[0], x.args[1]))
def all_discs(path):
    a = adt_of(path)
    if a: return {int(v['discr']) for v in a['variants']}
    return {OPT: {0, 1}, RES: {0, 1}}.get(path)
INTCMP = set()          # comparisons of integers
def mk_eq(a, b):
    if a is b: return TRUE
    if is_const(a) and is_const(b): return Bool(a is b)
    for x, y in ((a, b), (b, a)):
        if x.op == 'disc' and x.args[0] in INTCMP and y.op == 'int':
            u, v = x.args[0].args[1:]
            return mk_lt(u, v) if y.args[0] in (255, -1) else mk_eq(u, v) if y.args[0] == 0 else mk_lt(v, u)
    if a.op in ('lin', 'int', 'len', 'idx') or b.op in ('lin', 'int', 'len', 'idx'):
        l = sub(a, b); c, d = lin_parts(l)
        if not d: return Bool(c == 0)
        k = min(d, key=lambda x: x.id)
        if d[k] < 0: l = mulc(l, -1); c, d = lin_parts(l)
        if len(d) == 1:
            (k, v), = d.items()
            if k.op == 'len' and c == 0: return mk_empty(k.args[0])
            if abs(v) == 1: return T('eq', k, Int(-c * v))
        return T('eq', l, Int(0))
    if a.op == 'bool': return b if a.args[0] else mk_not(b)
    if b.op == 'bool': return a if b.args[0] else mk_not(a)
    if a is EMPTY_S: return mk_empty(b)
    if b is EMPTY_S: return mk_empty(a)
    if a.op == 'seq' and not is_const(b) and b.op != 'seq': a, b = b, a
    for x, y in ((a, b), (b, a)):
        if x.op == 'str' and y.op == 'seq':
            # constant prefix disagreement
            p = y.args[1]
            if p.op == 'str' and not x.args[0].startswith(p.args[0]): return FALSE
            p = y.args[-1]
            if p.op == 'str' and not x.args[0].endswith(p.args[0]): return FALSE
    for x, y in ((a, b), (b, a)):
        # a payload-free variant against an unknown value: a question about its discriminant
        if x.op == 'agg' and len(x.args) == 2 and x.args[1] and y.op != 'agg':
            d = variant_disc(x)
            if d is not None: return mk_eq(T('disc', y, x.args[0]), Int(d))
    if a.op == 'agg' and b.op == 'agg':
        if a.args[0] == b.args[0] and a.args[1] != b.args[1]: return FALSE
        if a.args[:2] == b.args[:2] and len(a.args) == len(b.args):
            cs = [mk_eq(x, y) for x, y in zip(a.args[2:], b.args[2:])]
            if any(c is FALSE for c in cs): return FALSE
            cs = [c for c in cs if c is not TRUE]
            if not cs: return TRUE
            if len(cs) == 1: return cs[0]
            return T('and', *cs)
    if is_const(a) or (not is_const(b) and a.id > b.id): a, b = b, a
    return T('eq', a, b)

# ------------------------------------------------------------------------------ state
# what the character classes of the standard library have to do with one another
def char_worlds():
    import itertools
    out = []
    for asc, al, nu, up, lo, ws, ct, pu, vt in itertools.product((False, True), repeat=9):
        if (up or lo) and not al or up and lo: continue                      # upper and lower case letters
        if (al or nu) and (ws or ct or pu): continue
        if pu and (not asc or ws or ct): continue
        if ws and ct and not asc and False: continue
        if asc and (al and nu or al and not (up or lo)): continue
        if vt and not (asc and ws and ct): continue                          # white space ASCII does not count as such
        if asc and not (al or nu or ws or ct or pu): continue
        out.append(dict(asc=asc, al=al, nu=nu, up=up, lo=lo, ws=ws, ct=ct, pu=pu, vt=vt))
    return out
def char_world(c):
    import unicodedata
    asc = c.isascii(); n = unicodedata.category(c)
    return dict(asc=asc, al=c.isalpha() or n == 'Nl', nu=n in ('Nd', 'Nl', 'No'), up=c.isupper(), lo=c.islower(), ws=c.isspace() and not '\x1c' <= c <= '\x1f', ct=n == 'Cc', pu=asc and c.isprintable() and not c.isalnum() and c != ' ', vt=c == '\x0b')
CHAR_WORLDS = char_worlds()
CHAR_CLASS = {'char.' + k: f for k, f in {
    'is_alphanumeric': lambda w: w['al'] or w['nu'], 'is_alphabetic': lambda w: w['al'], 'is_numeric': lambda w: w['nu'],
    'is_uppercase': lambda w: w['up'], 'is_lowercase': lambda w: w['lo'], 'is_whitespace': lambda w: w['ws'], 'is_control': lambda w: w['ct'],
    'is_ascii': lambda w: w['asc'], 'is_ascii_alphabetic': lambda w: w['asc'] and w['al'], 'is_ascii_digit': lambda w: w['asc'] and w['nu'],
    'is_ascii_alphanumeric': lambda w: w['asc'] and (w['al'] or w['nu']), 'is_ascii_uppercase': lambda w: w['asc'] and w['up'], 'is_ascii_lowercase': lambda w: w['asc'] and w['lo'],
    'is_ascii_whitespace': lambda w: w['asc'] and w['ws'] and not w['vt'], 'is_ascii_punctuation': lambda w: w['pu'], 'is_ascii_control': lambda w: w['asc'] and w['ct'],
    'is_ascii_graphic': lambda w: w['asc'] and (w['al'] or w['nu'] or w['pu'])}.items()}

BLANKS = {T('lambda', App('char.is_ascii_whitespace', T('arg'))): 'split_ascii_whitespace', T('lambda', App('char.is_whitespace', T('arg'))): 'split_whitespace'}
class State:
    __slots__ = ('mem', 'facts', 'trace', 'ret', 'pc', 'ineq')
    def __init__(self):
        self.mem = {}; self.facts = {}; self.trace = (); self.ret = None; self.pc = 0; self.ineq = ()
    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.facts = dict(self.facts); s.trace = self.trace; s.ret = self.ret; s.pc = self.pc; s.ineq = self.ineq
        return s
    def emit(self, ev): self.trace = self.trace + (ev,)

    # -- memory
    def read_root(self, root):
        v = self.mem.get(root)
        if v is not None: return v
        if root[0] in ('M', 'A'): return root[1]
        return T('uninit', str(root))
    def read(self, loc):
        v = self.read_root(loc[0])
        return self.proj_read(v, loc[1])
    def proj_read(self, v, projs):
        i = 0
        while i < len(projs):
            p = projs[i]
            if p[0] == 'v':
                # downcast followed by field
                if i + 1 < len(projs) and projs[i + 1][0] == 'f':
                    v = get_vf(v, p[1], projs[i + 1][2]); i += 2; continue
                i += 1; continue
            if p[0] == 'f': v = get_field(v, p[1])
            elif p[0] == 'i': v = get_index(v, p[1])
            elif p[0] == 'k': v = map_get(v, p[1])
            elif p[0] == 'a': v = v.args[p[1]]
            elif p[0] == 'last': v = T('at', v, sub(mk_len(v), Int(1)))
            elif p[0] == 'ci': v = get_index(v, Int(p[1])) if not p[2] else T('at', v, sub(mk_len(v), Int(p[1])))
            elif p[0] == 'sl': v = T('slice', v, Int(p[1]), sub(mk_len(v), Int(p[2])) if p[3] else Int(p[2]))
            elif p[0] == 'slice': v = T('slice', v, p[1], p[2])
            i += 1
        return v
    def write(self, loc, x):
        root, projs = loc
        if not projs: self.mem[root] = x; return
        self.mem[root] = self.proj_write(self.read_root(root), projs, x)
    def proj_write(self, v, projs, x):
        if not projs: return x
        p = projs[0]
        if p[0] == 'v':
            if len(projs) > 1 and projs[1][0] == 'f':
                i = projs[1][2]
                nx = self.proj_write(get_vf(v, p[1], i), projs[2:], x)
                if v.op == 'agg' and v.args[1] == p[1]:
                    a = list(v.args); a[2 + i] = nx; return T('agg', *a)
                return T('vupd', v, p[1], i, nx)
            return self.proj_write(v, projs[1:], x)
        if p[0] == 'f': return set_field(v, p[1], self.proj_write(get_field(v, p[1]), projs[1:], x))
        if p[0] in ('i', 'ci', 'last'):
            i = p[1] if p[0] == 'i' else (Int(p[1]) if p[0] == 'ci' and not p[2] else sub(mk_len(v), Int(1 if p[0] == 'last' else p[1])))
            nx = self.proj_write(get_index(v, i), projs[1:], x)
            if i.op == 'int' and v.op == 'agg' and v.args[0] == 'array':
                a = list(v.args); a[2 + i.args[0]] = nx; return T('agg', *a)
            if p[0] == 'last' and v.op == 'seq' and v.args[-1].op == 'one':
                return T('seq', *(v.args[:-1] + (One(nx),)))
            if v.op == 'store' and v.args[1] is i: v = v.args[0]
            return T('store', v, i, nx)
        if p[0] == 'k': return map_set(v, p[1], self.proj_write(map_get(v, p[1]), projs[1:], x))
        if p[0] == 'a':
            a = list(v.args); a[p[1]] = self.proj_write(a[p[1]], projs[1:], x)
            return rebuild(v.op, tuple(a))
        if p[0] == 'slice':
            nx = self.proj_write(T('slice', v, p[1], p[2]), projs[1:], x)
            return T('splice', v, p[1], p[2], nx)
        return T('upd?', v, x)
    def deref(self, v):
        if v.op == 'ref': return v.args[0]
        return (('M', v), ())
    def load(self, v):
        """value behind a reference value"""
        n = 0
        while v.op == 'ref' and n < 20: v = self.read(v.args[0]); n += 1
        if v.op != 'ref' and ('M', v) in self.mem: return self.mem[('M', v)]
        return v
    def val(self, v, memo=None):
        """snapshot: references replaced by the values they denote, deeply"""
        if v.op in ('int', 'bool', 'char', 'str', 'unit', 'sym', 'phi', 'fn'): 
            return self.mem.get(('M', v), v) if v.op in ('sym', 'phi') else v
        if memo is None: memo = {}
        r = memo.get(v)
        if r is not None: return r
        memo[v] = v
        if v.op == 'ref':
            r = self.val(self.read(v.args[0]), memo)
        elif ('M', v) in self.mem:
            r = self.mem[('M', v)]
            if r is not v: r = self.val(r, memo)
        elif any(isinstance(a, T) for a in v.args) and contains(v, lambda x: x.op == 'ref' or ('M', x) in self.mem):
            r = rebuild(v.op, tuple(self.val(a, memo) if isinstance(a, T) else a for a in v.args))
        else: r = v
        memo[v] = r
        return r

    # -- facts
    def known(self, t):
        if is_const(t): return t
        return self.facts.get(t)
    def truth(self, t):
        """True / False / None"""
        if t.op == 'bool': return t.args[0]
        if t.op == 'not':
            r = self.truth(t.args[0]); return None if r is None else not r
        r = self.facts.get(t)
        if r is not None and r.op == 'bool': return r.args[0]
        if t.op == 'eq':
            a, b = t.args
            ka, kb = self.known(a), self.known(b)
            if ka is not None and kb is not None: return ka is kb
            for x, k in ((a, kb), (b, ka)):
                if k is not None:
                    ne = self.facts.get(T('neq', x))
                    if ne is not None and k in ne.args: return False
            for x, y in ((a, b), (b, a)):
                if y.op == 'agg' and y.args[1] and x.op != 'agg':
                    cs = eq_parts(x, y)
                    if cs is None: continue
                    rs = [self.truth(c) for c in cs]
                    if any(r is False for r in rs): return False
                    if all(rs): return True
            if b.op == 'int' or a.op in ('lin',) or self.ineq and (self.in_ineq(a) or self.in_ineq(b)):
                l = sub(a, b)
                u = self.le0(l); 
                if u is False: return False
                w = self.le0(mulc(l, -1))
                if w is False: return False
                if u and w: return True
        if t.op == 'le0': return self.le0(t.args[0])
        if t.op == 'app' and t.args[0] in ('str.contains', 'str.starts_with', 'str.ends_with') and len(t.args) == 3 and t.args[2].op == 'str' and t.args[2].args[0] and self.facts.get(T('empty', t.args[1])) is TRUE: return False
        if (t.op == 'app' and t.args[0] in TEXT_TESTS) or t.op == 'eq' and t.args[1].op == 'str':
            r = self.text_truth(t)
            if r is not None: return r
        if t.op == 'app' and t.args[0] in CHAR_CLASS and len(t.args) == 2:
            r = self.class_truth(t)
            if r is not None: return r
        if t.op == 'empty':
            x = t.args[0]
            if self.facts.get(T('empty', App('str.trim', x))) is FALSE: return False
            if x.op == 'app' and x.args[0] == 'str.trim' and self.facts.get(T('empty', x.args[1])) is TRUE: return True
            l = mk_len(x)
            if l.op == 'lin' or l.op == 'len':
                if self.ineq and l is not T('len', x): return self.le0(l)
                for f in self.ineq:
                    c, d = lin_parts(f)
                    if T('len', x) in d:
                        return self.le0(T('len', x))
        if t.op == 'and':
            rs = [self.truth(x) for x in t.args]
            if any(r is False for r in rs): return False
            if all(rs): return True
        if t.op == 'or':
            rs = [self.truth(x) for x in t.args]
            if any(rs): return True
            if all(r is False for r in rs): return False
        return None
    def class_truth(self, t):
        """what is known about the same character decides"""
        x = t.args[1]; q = CHAR_CLASS[t.args[0]]
        c = self.known(x)
        if c is not None and c.op == 'char':
            ws = [char_world(chr(c.args[0]))]
        else:
            ws = CHAR_WORLDS; n = 0
            for k, v in self.facts.items():
                if k.op != 'app' or k.args[0] not in CHAR_CLASS or len(k.args) != 2 or k.args[1] is not x or v.op != 'bool': continue
                f = CHAR_CLASS[k.args[0]]; n += 1
                ws = [w for w in ws if f(w) == v.args[0]]
            if not n: return None
        rs = {q(w) for w in ws}
        return rs.pop() if len(rs) == 1 else None
    def text_truth(self, t):
        """what is known about the same text decides"""
        x, q = text_test(t)
        if x is None: return None
        v = self.facts.get(x)
        if v is not None and v.op == 'str':
            r = regexeq.relation(('is', v.args[0]), q)
            return None if r is None else r == 'yes'
        for k, v in self.facts.items():
            if k.op != 'app' or k.args[0] not in TEXT_TESTS: continue
            y, p = text_test(k)
            if y is not x or y is None: continue
            if v is TRUE:
                r = regexeq.relation(p, q)
                if r is not None: return r == 'yes'
            elif v is FALSE and regexeq.relation(q, p) == 'yes': return False
        return None
    def nonneg(self, k):
        return k.op in ('len', 'idx', 'clen', 'sum', 'count') or T('unsigned', k) in self.facts
    def _triv(self, l): return self._trivp(lin_parts(l))
    def _trivp(self, l):
        c, d = l
        if c <= 0 and all(v <= 0 and self.nonneg(k) for k, v in d.items()): return True
        # clen >= 1, and a non-empty sequence has len >= 1
        c2 = c
        for k, v in d.items():
            if v > 0 or not self.nonneg(k): return False
            if k.op == 'clen': c2 += v
            elif k.op == 'len' and self.facts.get(T('empty', k.args[0])) is FALSE: c2 += v
        return c2 <= 0
    def _subst_known(self, l):
        c, d = lin_parts(l)
        ch = False; r = Int(c)
        for k, v in d.items():
            kv = self.facts.get(k)
            if kv is not None and kv.op == 'int': r = add(r, mulc(kv, v)); ch = True
            else: r = add(r, mulc(k, v))
        return r if ch else l
    def _combine(self, goal, fs, depth):
        """goal <= 0 follows from at most depth of the known inequalities (those that share a term with it)"""
        c, d = goal
        for n, (fc, fd) in enumerate(fs):
            if not any(d.get(k, 0) * v > 0 for k, v in fd.items()): continue
            d1 = dict(d)
            for k, v in fd.items():
                x = d1.get(k, 0) - v
                if x: d1[k] = x
                else: del d1[k]
            g = (c - fc, d1)
            if self._trivp(g): return True
            if depth > 1 and self._combine(g, fs, depth - 1): return True
        return False
    def le0(self, l):
        l = self._subst_known(l)
        for x, n in list(lin_parts(l)[1].items()):
            if x.op == 'len' and self.facts.get(mk_empty(x.args[0])) is TRUE: l = sub(l, mulc(x, n)); continue
            if x.op == 'len' and x.args[0].op == 'store':
                # one more entry unless the key is there
                tv = self.truth(map_has(x.args[0].args[0], x.args[0].args[1]))
                if tv is not None: l = add(sub(l, mulc(x, n)), mulc(add(mk_len(x.args[0].args[0]), Int(0 if tv else 1)), n))
        b = mk_le0(l)
        if b.op == 'bool': return b.args[0]
        if b in self.facts: return self.facts[b].args[0]
        if b.op == 'not' and b.args[0] in self.facts: return not self.facts[b.args[0]].args[0]
        if self._triv(l): return True
        neg = add(mulc(l, -1), Int(1))
        if self._triv(neg): return False
        fs = [lin_parts(f) for f in self.ineq]
        names = {k for _, d in fs for k in d} | set(lin_parts(l)[1])
        for k, v in self.facts.items():
            # equal numbers
            if k.op == 'eq' and v is TRUE and (k.args[1].op == 'int' and k.args[0].op == 'lin' and any(x in names for x in lin_parts(k.args[0])[1]) or (k.args[0] in names or k.args[1] in names) and k.args[1].op not in ('str', 'char', 'agg', 'bool', 'int')):
                e = sub(k.args[0], k.args[1]); fs += [lin_parts(e), lin_parts(mulc(e, -1))]
            elif k.op == 'lin' and v.op == 'int' and any(x in names for x in lin_parts(k)[1]):
                e = sub(k, v); fs += [lin_parts(e), lin_parts(mulc(e, -1))]
        for goal, ans in ((l, True), (neg, False)):
            if self._combine(lin_parts(goal), fs, 3 if len(fs) <= 12 else 2 if len(fs) <= 24 else 1): return ans
        for goal, ans in ((l, True), (neg, False)):
            # at most, and different
            x = add(goal, Int(-1)); c, d = lin_parts(x); e = mk_eq(x, Int(0))
            apart = self.facts.get(e) is FALSE
            if not apart and e.op == 'eq':
                ne = self.facts.get(T('neq', e.args[0])); apart = ne is not None and e.args[1] in ne.args
            if not apart and c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]: apart = self.facts.get(mk_eq(*d)) is FALSE
            if apart and (self._triv(x) or any(self._combine((c, d), [f], 1) for f in fs)): return ans
        return None
    def in_ineq(self, x): return any(x in lin_parts(f)[1] for f in self.ineq)
    def assume(self, t, v):
        """record that boolean term t has value v; False when infeasible"""
        cur = self.truth(t)
        if cur is not None: return cur == v
        if t.op == 'not': return self.assume(t.args[0], not v)
        if t.op == 'and' and v: return all(self.assume(x, True) for x in t.args)
        if t.op == 'or' and not v: return all(self.assume(x, False) for x in t.args)
        if t.op == 'eq':
            a, b = t.args
            for x, y in ((a, b), (b, a)):
                if y.op == 'agg' and y.args[1] and x.op != 'agg':
                    cs = eq_parts(x, y)
                    if cs is None: continue
                    if v: return all(self.assume(c, True) for c in cs)
                    op = [c for c in cs if self.truth(c) is not True]
                    if len(op) == 1: return self.assume(op[0], False)
            if is_const(b):
                if v:
                    self.facts[a] = b
                    self.facts.pop(T('neq', a), None)
                else:
                    ne = self.facts.get(T('neq', a))
                    s = set(ne.args) if ne is not None else set()
                    s.add(b)
                    if a.op == 'disc':
                        al = all_discs(a.args[1])
                        if al is not None:
                            left = [x for x in al if Int(x) not in s]
                            if not left: return False
                            if len(left) == 1:
                                self.facts.pop(T('neq', a), None); self.facts[a] = Int(left[0]); return True
                    self.facts[T('neq', a)] = T('set', *sorted(s, key=lambda x: x.id))
                if b.op == 'int':
                    l = sub(a, b)
                    if v: self.ineq = self.ineq + (l, mulc(l, -1))
                return True
        if t.op == 'le0':
            l = t.args[0]
            if not v: l = add(mulc(l, -1), Int(1))
            self.ineq = self.ineq + (l,)
        self.facts[t] = Bool(v)
        return True
    def assume_val(self, t, c):
        """int/char/disc valued term equals const c"""
        k = self.known(t)
        if k is not None: return k is c
        ne = self.facts.get(T('neq', t))
        if ne is not None and c in ne.args: return False
        e = mk_eq(t, c)
        if e.op == 'bool': return e.args[0]
        return self.assume(e, True)
    def assume_neq(self, t, cs):
        k = self.known(t)
        if k is not None: return k not in cs
        for c in cs:
            e = mk_eq(t, c)
            if e.op == 'bool':
                if e.args[0]: return False
                continue
            if not self.assume(e, False): return False
        return True

def map_get(m, k):
    if m.op == 'store':
        if m.args[1] is k: return m.args[2]
        if is_const(k) and is_const(m.args[1]): return map_get(m.args[0], k)
    return T('get', m, k)
def map_set(m, k, v):
    if m.op == 'store':
        if m.args[1] is k: return map_set(m.args[0], k, v)
        # writes under different constant keys commute
        if is_const(k) and is_const(m.args[1]) and str(k.args) < str(m.args[1].args): return T('store', map_set(m.args[0], k, v), m.args[1], m.args[2])
        if is_const(k) and is_const(m.args[1]): return T('store', m, k, v)
    return T('store', m, k, v)
def map_has(m, k):
    if m.op == 'map0': return FALSE
    if m.op == 'store':
        if m.args[1] is k: return TRUE
        if is_const(k) and is_const(m.args[1]): return map_has(m.args[0], k)
        if m.args[0].op != 'phi' and m.args[0].op != 'fld':
            b = map_has(m.args[0], k)
            if b is TRUE: return TRUE
            e = mk_eq(m.args[1], k)
            if b is FALSE: return e
    return T('has', m, k)

# structural iterator/collection wrappers that loop φ's may be pushed into
STRUCT = {'iter': (0,), 'icomp': (0,), 'imap': (0,), 'ifilter': (0,), 'ienum': (0, 1), 'irev': (0,), 'itakew': (0,), 'iskip': (0, 1), 'itake': (0, 1), 'ifm': (0,),
          'ipeek': (0, 1), 'izip': (0, 1), 'ichain': (0, 1), 'icopied': (0,), 'lastn': (1,), 'iflat': (0, 1), 'iskipw': (0, 2), 'iflatr': (0,)}

class LoopSummary:
    """key, phis {loc: φ}, entry {φ: entry value}, iters [Path], exits [Path], sources {φ: list term}"""
    def __init__(self, key): self.key = key; self.phis = {}; self.entry = {}; self.iters = []; self.exits = []; self.sources = {}; self.where = ''; self.counters = {}; self.bounds = {}; self.prim = None
    def __repr__(self): return 'Loop(%s)' % (self.key,)
class Path:
    """one way through (a function, or one loop iteration): facts assumed, events, updates"""
    def __init__(self, facts, trace, ret=None, upd=None, st=None):
        self.facts = facts; self.trace = trace; self.ret = ret; self.upd = upd or {}; self.st = st
    def guard(self): return {k: v for k, v in self.facts.items() if k.op not in ('unsigned',)}
    def __repr__(self):
        g = ' ∧ '.join('%s=%s' % (show(k), show(v)) for k, v in self.guard().items())
        return '[%s] ret=%s' % (g, show(self.ret) if self.ret is not None else '-')

class Panic:
    def __init__(self, kind, site, facts, fn, what=''): self.kind = kind; self.site = site; self.facts = facts; self.fn = fn; self.what = what
    def __repr__(self): return 'panic(%s %s %s)' % (self.kind, self.fn, self.what)

# ------------------------------------------------------------------------------ engine
class Engine:
    def __init__(self, prog, budget=60000, opaque=(), inline_depth=14):
        self.prog = prog; PROG[0] = prog
        self.first = {}                     # loop-carried value -> its value when the loop is entered
        self.steps = 0; self.budget = budget
        self.panics = []; self.endless = []
        self.opaque = opaque            # predicate on callee dict / body: keep opaque
        self.stack = []
        self.max_depth = inline_depth
        self.bound = None; self.dropped = False; self.found = set()     # comparison on small inputs
        self.resplit = {}               # callee name: the values an opaque call has, by case
        self.modifies = {}              # (callee name, argument): the only fields an opaque callee changes
        self.unmodelled = {}
        self.analysed = set()
        self.skip_headers = {}
        self.heapn = 0
        self.const_cache = {}
        import models
        self.models = models
    # -- places
    def place_loc(self, st, body, depth, pl):
        loc = (('L', depth, pl[0]), ())
        ty = body.locals[pl[0]][0]
        variant = None
        for e in pl[1]:
            k = e[0]
            if k == '*':
                v = st.read(loc)
                loc = st.deref(v)
            elif k == '.':
                if e[2] in ('0', 'pointer') and self._box_internal(e[3]): continue
                if e[2] == 'value' and 'MaybeUninit' in self.prog.types[e[3]]['txt'] + self._ty_txt(body, pl): 
                    continue
                loc = (loc[0], loc[1] + (('f', e[2], e[1]),))
            elif k == 'as': loc = (loc[0], loc[1] + (('v', e[2]),))
            elif k == '[]':
                i = st.read((('L', depth, e[1]), ()))
                loc = (loc[0], loc[1] + (('i', i),))
            elif k == '[c]': loc = (loc[0], loc[1] + (('ci', e[1], e[2]),))
            elif k == '[..]': loc = (loc[0], loc[1] + (('sl', e[1], e[2], e[3]),))
        return loc
    def _ty_txt(self, body, pl): return self.prog.types[body.locals[pl[0]][0]]['txt']
    def _box_internal(self, tid):
        t = self.prog.types[tid]['txt']
        return t.startswith(('std::ptr::Unique', 'std::ptr::NonNull', '*const', '*mut', 'std::boxed::BoxRaw', 'std::mem::MaybeDangling', 'std::mem::ManuallyDrop', 'std::mem::MaybeUninit'))
    def place_ty(self, body, pl):
        t = self.prog.types[body.locals[pl[0]][0]]
        for e in pl[1]:
            if e[0] == '.': t = self.prog.types[e[3]]
            elif e[0] == '*' and 't' in t: t = self.prog.types[t['t']]
            elif e[0] in ('[]', '[c]') and 't' in t: t = self.prog.types[t['t']]
        return t
    # -- operands
    def operand(self, st, body, depth, o):
        if 'P' in o:
            loc = self.place_loc(st, body, depth, o['P'])
            v = st.read(loc)
            return v
        return self.constant(st, o['K'], o.get('ty', 0))
    def optype(self, body, o):
        if 'P' in o: return self.place_ty(body, o['P'])
        return self.prog.types[o.get('ty', 0)]
    def constant(self, st, k, ty):
        c = k['c']
        if c == 'int': return Int(k['v'])
        if c == 'bool': return Bool(k['v'])
        if c == 'char': return Chr(k['v'])
        if c == 'str': return Str(xpath.canon(k['v']))
        if c == 'bytes': return T('bytestr', bytes(k['v']))
        if c == 'float': return T('float', k['v'])
        if c == 'zst':
            t = self.prog.types[ty]
            if t['k'] == 'tuple': return UNIT
            if t['k'] == 'closure': return T('clos', t['uid'])
            if t['k'] == 'adt':
                a = self.prog.adts.get(t['uid'])
                if a and a['kind'] == 'struct': return T('agg', a['path'], a['variants'][0]['name'])
            return T('zst', t['txt'])
        if c in ('fn', 'fnptr'): return self.fn_value(k['callee'])
        if c == 'variant':
            a = self.prog.adts[k['uid']]
            return T('agg', a['path'], a['variants'][k['idx']]['name'])
        if c in ('promoted', 'item'):
            uid = k['uid'] + ('#promoted%d' % k['i'] if c == 'promoted' else '')
            return self.const_body(st, uid)
        if c == 'static':
            return self.static_ref(st, k['uid'])
        if c == 'wrap': return T('wrapc', k['t'], k['v'])
        return T('const', k.get('txt', '?'))
    def const_body(self, st, uid):
        r = self.const_cache.get(uid)
        if r is None:
            b = self.prog.bodies.get(uid)
            if b is None: return T('constitem', uid)
            s0 = State()
            sts = self.run_fn(s0, b, [], pseudo=('C', uid))
            if len(sts) != 1: return T('constitem', uid)
            r = sts[0].val(sts[0].ret)
            self.const_cache[uid] = r
        return r
    def static_ref(self, st, uid):
        b = self.prog.bodies.get(uid)
        root = ('S', uid)
        if root not in st.mem:
            v = self.const_body(st, uid) if b is not None else T('static', uid)
            st.mem[root] = v
        return T('ref', (root, ()))
    def fn_value(self, callee):
        return T('fn', callee.get('ruid') or callee['uid'], callee.get('rpath') or callee['path'], FnKey(callee))
    # -- rvalues
    def rvalue(self, st, body, depth, r, dest_ty):
        k = r[0]
        if k == 'use': return self.operand(st, body, depth, r[1])
        if k in ('ref', 'rawptr'):
            loc = self.place_loc(st, body, depth, r[1])
            if loc[0][0] == 'M' and not loc[1] and ('M', loc[0][1]) not in st.mem: return loc[0][1]
            return T('ref', loc)
        if k == 'bin': 
            a = self.operand(st, body, depth, r[2]); b = self.operand(st, body, depth, r[3])
            ta = self.optype(body, r[2])['txt']
            return self.binop(st, r[1], a, b, ta)
        if k == 'un':
            a = self.operand(st, body, depth, r[2])
            if r[1] == 'Not':
                if self.optype(body, r[2])['txt'] == 'bool': return mk_not(a)
                return App('bitnot', a)
            if r[1] == 'Neg': return mulc(a, -1)
            if r[1] == 'PtrMetadata': return mk_len(st.load(a))
            return App('un:' + r[1], a)
        if k == 'discr':
            loc = self.place_loc(st, body, depth, r[1])
            v = st.read(loc)
            return self.disc(v, self.place_ty(body, r[1]))
        if k == 'agg':
            ops = [self.operand(st, body, depth, o) for o in r[2]]
            kk = r[1]
            if kk[0] == 'adt':
                a = self.prog.adts[kk[1]]
                return T('agg', a['path'], a['variants'][kk[2]]['name'] if a['kind'] == 'enum' else '', *ops)
            if kk[0] == 'closure': return T('clos', kk[1], *ops)
            if kk[0] == 'tuple': return Tup(*ops) if ops else UNIT
            if kk[0] == 'array': return T('agg', 'array', '', *ops)
            if kk[0] == 'rawptr': return ops[0]
            return App('agg', *ops)
        if k == 'cast':
            a = self.operand(st, body, depth, r[2])
            if 'IntToInt' in r[1]:
                f = self.optype(body, r[2])['txt']; t = self.prog.types[r[3]]['txt']
                if t[1:] in ('8', '16') and f[0] in 'ui' and f[1:] not in ('8', t[1:]) and not (a.op == 'int' and 0 <= a.args[0] < 128): return App('cast:' + t, a)
                if a.op in ('int', 'lin', 'len', 'idx') or (f[0] in 'ui' and t[0] in 'ui'):
                    if f[0] == 'u' : self.mark_unsigned(st, a)
                    return a
                if a.op == 'char': return Int(a.args[0])
                if a.op == 'bool': return Int(int(a.args[0]))
                return App('cast:' + t, a)
            if 'Transmute' in r[1] or 'Ptr' in r[1] or 'Reify' in r[1] or 'Coercion' in r[1] or 'Subtype' in r[1]: return a
            return App('cast:' + r[1], a)
        if k == 'repeat':
            a = self.operand(st, body, depth, r[1])
            return T('agg', 'array', '', *([a] * r[2])) if isinstance(r[2], int) and r[2] <= 64 else App('repeat', a)
        return App('rv', *[Str(str(x)) for x in r[1:]])
    def mark_unsigned(self, st, t):
        for k in lin_parts(t)[1]:
            if k.op not in ('len', 'idx', 'clen'): st.facts[T('unsigned', k)] = TRUE
    def disc(self, v, ty):
        if v.op == 'vupd': v = v.args[0]
        if v.op == 'agg':
            a = adt_of(v.args[0])
            if a:
                for x in a['variants']:
                    if x['name'] == v.args[1]: return Int(int(x['discr']))
        path = ty.get('path') or ''
        return T('disc', v, path)
    def binop(self, st, op, a, b, ta):
        isint = ta and (ta[0] in 'ui' and ta[1:2].isdigit() or ta in ('usize', 'isize'))
        if isint and ta[0] == 'u':
            self.mark_unsigned(st, a); self.mark_unsigned(st, b)
        if op in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked', 'AddWithOverflow', 'SubWithOverflow') and isint:
            r = add(a, b) if op.startswith('Add') else sub(a, b)
            if op.endswith('WithOverflow'):
                o = mk_lt(a, b) if op.startswith('Sub') and ta[0] == 'u' else FALSE
                return Tup(r, o)
            return r
        if op in ('Mul', 'MulWithOverflow') and isint:
            if a.op == 'int': r = mulc(b, a.args[0])
            elif b.op == 'int': r = mulc(a, b.args[0])
            else: r = App('mul', *sorted((a, b), key=lambda x: x.id))
            return Tup(r, FALSE) if op.endswith('Overflow') else r
        if op in ('Div', 'Rem') and isint:
            if a.op == 'int' and b.op == 'int' and b.args[0] and a.args[0] >= 0 and b.args[0] > 0:
                return Int(a.args[0] // b.args[0] if op == 'Div' else a.args[0] % b.args[0])
            if op == 'Div' and ta[0] == 'u' and b.op == 'int' and b.args[0] > 0:
                # whole multiples of the divisor come out of the quotient
                c, d = lin_parts(a); n = b.args[0]; out = Int(c // n); rest = Int(c % n)
                for k, v in d.items():
                    out = add(out, mulc(k, v // n)); rest = add(rest, mulc(k, v % n))
                if out is not Int(0):
                    if rest.op == 'int': return out
                    r = App('div', rest, b); self.mark_unsigned(st, r)
                    return add(r, out)
            r = App('div' if op == 'Div' else 'rem', a, b)
            self.mark_unsigned(st, r) if ta[0] == 'u' else None
            return r
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if isint:
                return {'Lt': lambda: mk_lt(a, b), 'Le': lambda: mk_le(a, b), 'Gt': lambda: mk_lt(b, a), 'Ge': lambda: mk_le(b, a)}[op]()
            if ta in ('char', 'bool') and is_const(a) and is_const(b):
                x, y = a.args[0], b.args[0]
                return Bool({'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op])
            if op in ('Gt', 'Ge'): a, b = b, a
            return App('lt' if op in ('Lt', 'Gt') else 'le', a, b)
        if op == 'Eq': return mk_eq(a, b)
        if op == 'Ne': return mk_not(mk_eq(a, b))
        if ta == 'bool':
            if op == 'BitAnd': return self.b_and(a, b)
            if op == 'BitOr': return mk_not(self.b_and(mk_not(a), mk_not(b)))
            if op == 'BitXor': return mk_not(mk_eq(a, b))
        return App('op:' + op, a, b)
    def b_and(self, a, b):
        if a is FALSE or b is FALSE: return FALSE
        if a is TRUE: return b
        if b is TRUE: return a
        return a if a is b else T('and', *sorted({a, b}, key=lambda x: x.id))
    # -- running
    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget: raise Budget('analysis budget exceeded in %s' % ('/'.join(b.name for b in self.stack[-4:])))
    def panic(self, st, kind, site='', what='', extra=None):
        f = dict(st.facts)
        if extra: f.update(extra)
        self.panics.append(Panic(kind, site, f, self.stack[-1].path if self.stack else '', what))
    def run_fn(self, st, body, args, pseudo=None):
        """analyse body from st with argument values; list of states with .ret"""
        depth = len(self.stack)
        if depth > self.max_depth + 12: raise Budget('inline depth')
        self.stack.append(body)
        self.analysed.add(body.uid)
        keep = st.pc
        try:
            key = pseudo or depth
            s = st.copy()
            for i, a in enumerate(args): s.mem[('L', key, i + 1)] = a
            s.pc = 0
            outs = []
            self.run_blocks([s], body, key, None, None, outs)
            res = []
            for o in outs:
                o.ret = o.mem.get(('L', key, 0), UNIT)
                # a returned reference to a dead local denotes its value
                if o.ret.op == 'ref' and o.ret.args[0][0][:2] == ('L', key): o.ret = o.val(o.ret)
                for r in [r for r in o.mem if r[0] == 'L' and r[1] == key]: del o.mem[r]
                o.pc = keep
                res.append(o)
            return self.merge(res)
        finally:
            self.stack.pop()
    def merge(self, sts):
        """join states that differ only in one complementary boolean fact (an exact join)"""
        if len(sts) < 2: return sts
        groups = {}
        for s in sts:
            k = (frozenset(s.mem.items()), s.trace, s.ret, s.pc)
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            ch = True
            while ch and len(g) > 1:
                ch = False
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        m = self.merge2(g[i], g[j])
                        if m is not None:
                            g[i] = m; del g[j]; ch = True; break
                    if ch: break
            out += g
        return out
    def merge2(self, a, b):
        fa = {k: v for k, v in a.facts.items() if k.op != 'unsigned'}
        fb = {k: v for k, v in b.facts.items() if k.op != 'unsigned'}
        if fa == fb:
            if a.ineq == b.ineq: return a
        diff = {k for k in set(fa) | set(fb) if fa.get(k) is not fb.get(k)}
        if len(diff) == 1:
            k = next(iter(diff))
            x, y = fa.get(k), fb.get(k)
            if x is not None and y is not None and x.op == 'bool' and y.op == 'bool':
                r = a.copy(); del r.facts[k]
                r.ineq = tuple(f for f in a.ineq if f in b.ineq)
                return r
            return None
        if not diff: 
            r = a.copy(); r.ineq = tuple(f for f in a.ineq if f in b.ineq); return r
        # t = c  versus  t != c
        if len(diff) == 2:
            for k in diff:
                if k.op == 'neq':
                    t = k.args[0]
                    if t in diff:
                        for p, q in ((fa, fb), (fb, fa)):
                            if p.get(t) is not None and q.get(k) is not None and p.get(k) is None and q.get(t) is None:
                                rest = [x for x in q[k].args if x is not p[t]]
                                if len(rest) == len(q[k].args) - 1:
                                    r = a.copy(); r.facts.pop(t, None); r.facts.pop(k, None)
                                    if rest: r.facts[k] = T('set', *rest)
                                    r.ineq = tuple(f for f in a.ineq if f in b.ineq)
                                    return r
        return None
    def run_blocks(self, work, body, key, region, header, outs, backs=None, exits=None):
        """run until return (outs), or for a region until back edge / exit"""
        loops = body.loops()
        first = True
        while work:
            st = work.pop()
            while True:
                b = st.pc
                if region is not None and not (first and b == header):
                    if b == header: backs.append(st); break
                    if b not in region: exits.append(st); break
                if b in loops and not (first and region is not None and b == header):
                    work.extend(self.loop(st, body, key, b, loops[b], outs))
                    first = False
                    break
                first = False
                self.tick()
                blk = body.blocks[b]
                for s in blk['s']:
                    if s[0] == '=':
                        v = self.rvalue(st, body, key, s[2], None)
                        st.write(self.place_loc(st, body, key, s[1]), v)
                    elif s[0] == 'setd':
                        loc = self.place_loc(st, body, key, s[1])
                        t = self.place_ty(body, s[1]); a = self.prog.adts.get(t.get('uid'))
                        if a: st.write(loc, T('agg', a['path'], a['variants'][s[2]]['name']))
                t = blk['t']; k = t[0]
                if k == 'goto': st.pc = t[1]; continue
                if k == 'return': outs.append(st); break
                if k == 'drop':
                    ty = self.place_ty(body, t[1])
                    if 'MutexGuard' in ty['txt'] and ty['k'] == 'adt' and 'MutexGuard' in ty['path']:
                        st.emit(('drop', 'MutexGuard', (st.val(st.read(self.place_loc(st, body, key, t[1]))),), None, ''))
                    st.pc = t[2]; continue
                if k in ('unreachable', 'resume', 'other'): break
                if k == 'switch':
                    d = self.operand(st, body, key, t[1])
                    ty = self.optype(body, t[1])['txt']
                    nxt = self.branch(st, d, ty, t[2], t[3])
                    if not nxt: break
                    for s2, tgt in nxt[1:]:
                        s2.pc = tgt; work.append(s2)
                    st, tgt = nxt[0]; st.pc = tgt; continue
                if k == 'assert':
                    c = self.operand(st, body, key, t[1]); exp = t[2]
                    tv = st.truth(c)
                    if tv is None or tv != exp:
                        bad = st.copy()
                        if tv is not None or bad.assume(c, not exp): self.panic(bad, t[3][0], t[5], what=show(c))
                        if tv is not None: break
                        if not st.assume(c, exp): break
                    st.pc = t[4]; continue
                if k == 'call':
                    rs = self.call(st, body, key, t)
                    if t[4] is None: break
                    if not rs: break
                    for s2 in rs[1:]: work.append(s2)
                    st = rs[0]; continue
                raise Inconclusive('terminator ' + k)
    def branch(self, st, d, ty, targets, other):
        if ty == 'bool':
            # targets: [[0, f]] otherwise t
            f = targets[0][1]
            tv = st.truth(d)
            if tv is True: return [(st, other)]
            if tv is False: return [(st, f)]
            a = st.copy(); r = []
            if a.assume(d, True): r.append((a, other))
            if st.assume(d, False): r.append((st, f))
            return r
        def cst(v):
            return Chr(v) if ty == 'char' else Int(v)
        kv = st.known(d)
        if kv is not None:
            for v, b in targets:
                if kv.args[0] == v: return [(st, b)]
            return [(st, other)]
        r = []
        if d.op == 'disc' and d.args[0].op == 'entry':
            # a map entry is occupied (0) exactly when the key is recorded
            ref, k = d.args[0].args
            h = map_has(st.read(ref.args[0]), k)
            for v, yes in ((0, True), (1, False)):
                s = st.copy()
                if s.assume(h, yes): r.append((s, dict((x, b) for x, b in targets).get(v, other)))
            return r
        if d.op == 'disc' and d.args[0] in INTCMP:
            left = [v for v in (255, 0, 1) if v not in [x for x, _ in targets]]
            for v, b in targets + [[v, other] for v in left]:
                s = st.copy()
                if s.assume(mk_eq(d, Int(v)), True): r.append((s, b))
            return r
        for v, b in targets:
            s = st.copy()
            if s.assume_val(d, cst(v)): r.append((s, b))
        # otherwise: all discriminants covered?
        cov = False
        if d.op == 'disc':
            a = adt_of(d.args[1])
            if a and {int(x['discr']) for x in a['variants']} <= {v for v, _ in targets}: cov = True
        if not cov:
            if st.assume_neq(d, [cst(v) for v, _ in targets]):
                if d.op == 'disc':
                    a = adt_of(d.args[1])
                    if a:
                        ne = st.facts.get(T('neq', d))
                        left = [x for x in a['variants'] if Int(int(x['discr'])) not in (ne.args if ne is not None else ())]
                        if len(left) == 1:
                            st.facts.pop(T('neq', d), None)
                            st.facts[d] = Int(int(left[0]['discr']))
                r.append((st, other))
        return r
    # -- calls
    def call(self, st, body, key, t):
        f = t[1]
        args = [self.operand(st, body, key, a) for a in t[2]]
        dest = self.place_loc(st, body, key, t[3])
        dty = self.place_ty(body, t[3])
        if 'indirect' in f:
            fv = self.operand(st, body, key, f['indirect'])
            rs = self.call_value(st, fv, args, site=t[5])
        else:
            rs = self.call_item(st, f, args, t[5], dty, [self.optype(body, a) for a in t[2]], blockkey=(body, t))
        out = []
        for s in rs:
            if s.ret is SKIP:
                s.ret = None      # the iterator moved on without producing an item: try the call again
                out.append(s); continue
            s.write(dest, s.ret if s.ret is not None else UNIT); s.ret = None
            s.pc = t[4]
            out.append(s)
        return out
    def call_value(self, st, fv, args, site='', atys=None):
        """call a function value with individual arguments"""
        n = 0
        while fv.op == 'ref' and n < 10:
            tgt = st.read(fv.args[0])
            if tgt.op == 'clos':
                return self.call_closure(st, tgt, fv, args, site)
            fv = tgt; n += 1
        if fv.op == 'clos': 
            return self.call_closure(st, fv, None, args, site)
        if fv.op == 'fn':
            return self.call_item(st, fv.args[2].callee, args, site, None, None)
        if fv.op == 'agg' and len(fv.args) == 3: return self.call_value(st, fv.args[2], args, site, atys)
        return self.opaque_call(st, 'callptr', [fv] + args, site, None, atys=atys)
    def call_closure(self, st, clos, ref, args, site):
        b = self.prog.bodies.get(clos.args[0])
        if b is None: return self.opaque_call(st, 'closure', [clos] + args, site, None)
        envt = self.prog.types[b.locals[1][0]]
        if envt['k'] == 'ref':
            if ref is None:
                self.heapn += 1
                root = ('H', 'env', len(self.stack), clos.args[0])
                st.mem[root] = clos
                ref = T('ref', (root, ()))
            env = ref
        else: env = clos
        if len(self.stack) > self.max_depth or any(x is b for x in self.stack): return self.opaque_call(st, 'closure', [clos] + args, site, None)
        if b.nargs == 2 and len(args) != 1 and False: args = [Tup(*args)]
        return self.run_fn(st, b, [env] + args)
    def local_body(self, f):
        u = f.get('ruid')
        if u and f.get('local'): return self.prog.bodies.get(u)
        if u is None or not f.get('local'):
            b = self.prog.bodies.get(f['uid'])
            if b is not None and u is None: return b if 'trait' not in f else None
        return None
    def call_item(self, st, f, args, site, dty, atys, blockkey=None):
        b = self.local_body(f)
        # a closure called by its name
        if b is not None and b.closure and f['path'].split('::')[-1] in ('call', 'call_mut', 'call_once') and 'ops::' in f['path']: return self.models.lookup({'path': 'std::ops::Fn::call', 'uid': '', 'name': 'call'})(self, st, args, Info(f, site, dty, atys))
        path = f.get('rpath') or f['path']
        if 'ctor' in f and self.models.lookup(f) is None:
            st.ret = T('agg', f['ctor'][0], f['ctor'][1], *[st.val(a) if a.op != 'ref' else a for a in args])
            return [st]
        if b is not None and not (self.opaque and self.opaque(b)):
            if any(x is b for x in self.stack) or len(self.stack) > self.max_depth:
                return self.opaque_call(st, b.path, args, site, dty, rec=True, atys=self.sig(b))
            m = self.models.lookup_local(b) or (self.models.snap if b.j.get('derived') and b.name == 'clone' else None)
            if m is not None: return m(self, st, args, Info(f, site, dty, atys))
            return self.run_fn(st, b, args)
        if b is not None:
            # an iterator of this crate whose steps are not looked into gives the elements of a list
            if b.name == 'next' and (f.get('trait') or '').endswith('iter::Iterator') and args[0].op == 'ref':
                v = st.load(args[0])
                if v.op in self.models.ITOPS or v.op == 'app':
                    if v.op == 'app': st.write(self.models.mloc(st, args[0]), self.models.iter_of(st, v))
                    return self.models.REG['std::iter::Iterator::next'](self, st, args, Info(f, site, dty, atys))
            return self.opaque_call(st, b.path, args, site, dty, rec=True, atys=self.sig(b))
        m = self.models.lookup(f)
        if m is not None:
            self.tick()
            return m(self, st, args, Info(f, site, dty, atys))
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        return self.opaque_call(st, path, args, site, dty, atys=atys)
    def sig(self, b): return [self.prog.types[b.locals[i + 1][0]] for i in range(b.nargs)]
    def opaque_call(self, st, name, args, site, dty, rec=False, atys=None, pure=False):
        if name.endswith('io::Write::write_fmt') and len(args) == 2:
            # formatted text is written as a whole
            x = st.val(args[1])
            if x.op == 'fmt': name = '<io::BufWriter<W> as io::Write>::write_all' if atys and 'BufWriter' in atys[0]['txt'] else 'std::io::Write::write_all'; args = [args[0], x.args[0]]
        vals = tuple(x.args[0] if x.op == 'iter' and isinstance(x.args[0], T) else x for x in (self.models.materialize(self, st, st.val(a)) for a in args))
        if dty is not None and dty['txt'] == '!':
            self.panic(st, 'panic', site, name); return []
        # a callee that does nothing under a condition on its arguments
        k = self.modifies.get((name.split('::')[-1], 'idle'))
        if k is not None and len(vals) >= k.__code__.co_argcount and dty is not None and dty['txt'] == '()':
            out = []
            for s, h in self.models.bfork(st, k(*vals)):
                if h: s.ret = UNIT; out.append(s)
                else: out += self.opaque_do(s, name, args, vals, site, dty, rec, atys, pure)
            return out
        return self.opaque_do(st, name, args, vals, site, dty, rec, atys, pure)
    def opaque_do(self, st, name, args, vals, site, dty, rec, atys, pure):
        r = App(name, *vals)
        if dty is not None and dty['txt'] == '()': r = UNIT
        muts = []
        for i, a in enumerate(args):
            if a.op == 'ref' and not pure and self.may_mutate(st, a, atys[i] if atys else None, rec):
                muts.append((i, a))
        for i, a in muts:
            fs = self.modifies.get((name.split('::')[-1], i))
            if fs is None: st.write(a.args[0], T('post', name, i, *vals))
            else:
                for f in fs: st.write((a.args[0][0], a.args[0][1] + (('f', f, 0),)), T('post', name + '.' + f, i, *vals))
        if rec or not self.models.is_pure(name) and not self.models.reads_only(name, st.trace):
            st.emit(('call', name, vals, r, site))
        # the plotting library's builder methods hand back the object they were called on
        if name.startswith('gnuplot') and args and atys and dty is not None and dty['k'] == 'ref' and dty['txt'] == atys[0]['txt']: r = args[0]
        sp = self.resplit.get(name.split('::')[-1])
        if sp is not None:
            c, good, bad = sp(r)
            out = []
            for s, h in self.models.bfork(st, c):
                s.ret = good if h else bad; out.append(s)
            return out
        st.ret = r
        return [st]
    def may_mutate(self, st, a, ty, rec):
        if ty is not None: return ty['k'] in ('ref', 'ptr') and ty.get('mut', False)
        return self.ref_mut.get(a, True) if hasattr(self, 'ref_mut') else True
    # -- loops
    def loop(self, st, body, key, hdr, region, outs):
        lkey = '%s#%d@%s' % (body.name if not body.closure else body.uid.split('::')[-2] + '.c', hdr, '.'.join(str(len(self.stack)) if isinstance(key, int) else 'c' for _ in (0,)))
        chain = '/'.join(b.uid[-18:] for b in self.stack[-3:])
        lkey = lkey + '~' + format(abs(hash_str(chain)) % 46656, 'x')
        def run(s):
            s = s.copy(); s.pc = hdr
            o, bk, ex = [], [], []
            self.run_blocks([s], body, key, region, hdr, o, bk, ex)
            return bk, [(e, 'exit') for e in ex] + [(e, 'ret') for e in o]
        sts = self.fixloop(st, lkey, run, body.path)
        res = []
        for s, how in sts:
            if how == 'ret': outs.append(s)
            else: res.append(s)
        return res
    def unroll(self, entry, run):
        """a loop over a constant list is executed"""
        if not any(const_iter(v) for k, v in entry.mem.items() if k[0] in 'LH'): return None
        npan = len(self.panics); steps0 = self.steps
        live = [entry]; res = []
        its = [k for k, v in entry.mem.items() if k[0] in 'LH' and const_iter(v)]
        try:
            for it in range(1010):
                nxt = []
                for s in live:
                    b, e = run(s)
                    # every iteration must take something from a constant list
                    if any(not any(x.mem.get(k) is not s.mem.get(k) for k in its) for x in b): raise Inconclusive('the loop does not walk over a constant list')
                    nxt += b; res += e
                live = self.merge(nxt) if len(nxt) > 1 else nxt
                if not live: return res
                if len(live) > (8, 40)[bool(T._sp)] or len(res) > (64, 200)[bool(T._sp)] or self.steps - steps0 > 20000: break
        except Inconclusive: pass
        del self.panics[npan:]; self.steps = steps0
        return None
    def note_sources(self, v):
        for x in subterms(v):
            if x.op == 'iter': y = x.args[0]
            elif x.op == 'at' and x.args[1].op in ('phi', 'lin', 'idx', 'int'): y = x.args[0]
            elif x.op == 'comp': y = x.args[0]
            else: continue
            if y.op in ('fld', 'vf', 'sym', 'app', 'elem', 'split_whitespace', 'split_ascii_whitespace', 'lines', 'chars', 'bytes') and not (y.op == 'app' and not y.args[0].startswith(('crate::', 'libxml::', 'senna::', 'jwalk::', 'walkdir::'))) and not contains(y, lambda z: z.op in ('phi', 'item', 'idx', 'at', 'comp', 'iter')): self.found.add(y)
    def bounded(self, entry, run):
        """a few iterations, executed"""
        live = [entry]; res = []
        for it in range(self.bound + 1):
            nxt = []
            for s in live:
                b, e = run(s)
                nxt += b; res += e
            live = self.merge(nxt) if len(nxt) > 1 else nxt
            if not live: return res
            if len(live) > 48 or len(res) > 400: raise Inconclusive('too many paths')
        self.dropped = True
        return res
    def fixloop(self, entry, lkey, run, where=''):
        """run: state -> (back states, [(exit state, tag)])"""
        r = self.unroll(entry, run)
        if r is not None: return r
        for k, v in entry.mem.items():
            if k[0] in 'LHMA': self.note_sources(entry.val(v) if v.op == 'ref' else v)
        if self.bound is not None: return self.bounded(entry, run)
        hav = {}
        npan = len(self.panics)
        trace0 = entry.trace
        invs = None
        for it in range(16):
            del self.panics[npan:]
            s = entry.copy(); s.trace = ()
            for loc in sorted(hav, key=lambda l: len(l[1])): s.write(loc, hav[loc])
            if invs: s.ineq = s.ineq + invs
            head = s.copy()
            backs, exits = run(s)
            backs = self.merge(backs)
            for b in backs:
                for k in b.facts: self.note_sources(k)
            new = set()
            for b in backs:
                self.diff_state(head, b, new)
            new = {l for l in new if l not in hav}
            # drop refinements covered by an existing coarser φ
            fresh = set()
            for l in new:
                if any(h[0] == l[0] and h[1] == l[1][:len(h[1])] for h in hav): 
                    continue
                fresh.add(l)
            # a list iterator known by its name only
            named = [l for l in fresh if entry.read(l).op in ('sym', 'fld', 'down', 'phi') and all(b.read(l).op == 'iter' or b.read(l) is head.read(l) for b in backs)]
            if named:
                entry = entry.copy()
                for l in named: entry.write(l, T('iter', entry.read(l)))
                continue
            if not fresh:
                if invs is None:
                    # once more, with what stays true of the carried numbers
                    invs = self.invariants(entry, hav, backs)
                    if invs: continue
                break
            if invs: invs = ()
            # a flag whose value is known before the loop
            flags = [(l, entry.facts.get(entry.read(l))) for l in fresh]
            flags = [(l, v) for l, v in flags if v is not None and v.op == 'bool']
            if flags:
                entry = entry.copy()
                for l, v in flags: entry.write(l, v)
                continue
            for l in fresh:
                for h in [h for h in hav if h[0] == l[0] and h[1][:len(l[1])] == l[1]]: del hav[h]
                hav[l] = T('phi', lkey, self.locname(l))
                ev = entry.read(l)
            # coarsen overlaps within fresh
            for l in list(hav):
                for h in list(hav):
                    if h != l and h in hav and l in hav and h[0] == l[0] and h[1][:len(l[1])] == l[1]: del hav[h]
        else:
            raise Inconclusive('loop did not stabilise: ' + lkey)
        L = LoopSummary(lkey); L.where = where; L.before = entry
        L.phis = dict(hav)
        L.entry = {hav[l]: entry.val(entry.read(l)) for l in hav}
        for p, v in L.entry.items(): self.first[p] = v if self.first.get(p, v) is v else None
        hf = head.facts
        for b in backs:
            L.iters.append(Path({k: v for k, v in b.facts.items() if hf.get(k) is not v}, b.trace, None, {hav[l]: b.val(b.read(l)) for l in hav}, b))
        exits = self.slide(L, exits, npan, hf)
        # ---- canonical names: items of iterated sequences, counters
        subs = []          # substitutions, applied in order
        srcs = self.sources(L, hav, backs, subs)
        def ap(t):
            for m, memo in subs: t = subst(t, m, memo)
            return t
        if srcs: self.canon_items(L, srcs, subs)
        if srcs and L.prim.op == 'split' and len(L.prim.args) == 2 and L.prim.args[1] in BLANKS:
            # the non-empty pieces between blanks are the words
            e = ap(mk_empty(T('item', L.prim))); idle = lambda pa: not pa.trace and all(v is p or p in L.sources or p in L.counters for p, v in pa.upd.items())
            seen = [{ap(k): v for k, v in pa.facts.items()}.get(e) for pa in L.iters]
            if TRUE in seen and all(f is not None and (f is FALSE or idle(pa)) for f, pa in zip(seen, L.iters)) and not L.counters:
                w = T(BLANKS[L.prim.args[1]], L.prim.args[0])
                subs.append(({T('item', L.prim): T('item', w)}, {}))
                for q in list(L.sources):
                    if L.sources[q] is L.prim: L.sources[q] = w
                srcs = [(q, w if x is L.prim else x) for q, x in srcs]
                L.prim = w
        if subs:
            live_ = []
            for pa in L.iters:
                fs = pa.facts; dead = False
                for m, memo in subs:
                    n = {}
                    for k, v in fs.items():
                        k2 = subst(k, m, memo)
                        if is_const(k2):
                            if is_const(v) and k2 is not v: dead = True
                        else: n[k2] = v
                    fs = n
                if not dead: live_.append(pa)
            L.iters = live_
            for pa in L.iters:
                for m, memo in subs:
                    pa.facts = self.sub_facts(pa.facts, m, memo)
                    pa.trace = self.sub_trace(pa.trace, m, memo)
                pa.upd = {p: ap(v) for p, v in pa.upd.items()}
        if subs:
            keep = self.panics[:npan]
            for pn in self.panics[npan:]:
                bad = False
                for m, memo in subs:
                    nf = {}
                    for k, v in pn.facts.items():
                        k2, v2 = subst(k, m, memo), subst(v, m, memo)
                        if k2.op == 'bool':
                            if v2.op == 'bool' and k2 is not v2: bad = True
                            continue
                        nf[k2] = v2
                    pn.facts = nf
                if not bad: keep.append(pn)
            self.panics[:] = keep
        # ---- exits
        phis = set(hav.values())
        live = [p for p in phis if p not in L.sources and p not in L.counters]
        pure = bool(srcs) and all(not pa.trace for pa in L.iters)
        res = []; found = []
        for e, tag in exits:
            delta = {k: v for k, v in e.facts.items() if hf.get(k) is not v}
            done = bool(srcs) and any(self.exhausted(e, L, p) for p, _ in srcs)
            g = None
            if pure and not done:
                g = []
                for k, v in delta.items():
                    k2, v2 = ap(k), ap(v)
                    if k.op == 'unsigned' or self.about_source(k, L): continue
                    if contains(k2, lambda x: x in phis): g = None; break
                    g.append(T('fact', k2, v2))
                if g is not None:
                    g = T('conj', *minimal(sorted(set(g), key=lambda x: x.id))); found.append(g)
            res.append((e, tag, delta, done, g))
        out = []
        for e, tag, delta, done, g in res:
            ms = list(subs)
            extra = {}
            if done: 
                fin = {}
                # the sequence that ends first, of those walked over together
                sec = self.together(L)
                q = next((q for q, _ in srcs if self.exhausted(e, L, q)), None)
                if q in sec and e.le0(sub(mk_len(L.prim), mk_len(sec[q]))) is True: continue
                if q in sec:
                    self.comprehend(self.along(L, sec[q]), srcs, fin)
                    put_fact(extra, mk_le0(sub(mk_len(L.prim), mk_len(sec[q]))), False)
                    fin[T('idx', L.prim)] = mk_len(sec[q])
                else:
                    self.comprehend(L, srcs, fin)
                    for sq in sec.values(): put_fact(extra, mk_le0(sub(mk_len(L.prim), mk_len(sq))), True)
                if fin: ms.append((fin, {}))
            if g is not None:
                fin = {}
                if live:
                    self.comprehend(L, srcs, fin)
                    bf = {L.prim: T('before', L.prim, g)}
                    fin = {k: subst(v, bf) for k, v in fin.items() if k.op == 'phi'}
                    if fin: ms.append((fin, {}))
                ms.append(({T('item', L.prim): T('found', L.prim, g), T('idx', L.prim): T('foundidx', L.prim, g)}, {}))
                for k in list(e.facts):
                    if k in delta: del e.facts[k]
                if g.args: put_fact(extra, mk_any(L.prim, g), True)
                hits = sorted(set(found), key=lambda x: x.id)
                if len(hits) > 1: extra[T('first', L.prim, *hits)] = Int(hits.index(g))
                else: put_fact(extra, mk_empty(L.prim), False)
            if done:
                for k in list(e.facts):
                    if k in delta and (self.about_source(k, L)): del e.facts[k]
                if pure:
                    for h in found:
                        if h.args: put_fact(extra, mk_any(L.prim, h), False)
                        elif mk_empty(L.prim).op != 'bool': extra[mk_empty(L.prim)] = TRUE
            if done:
                ms.append(({p: (NONE if sq.op == 'sibs' else EMPTY_L) for p, sq in L.sources.items() if p not in L.bounds}, {}))
            elif g is not None:
                ms.append(({p: T('after', sq, g) for p, sq in L.sources.items() if p not in L.bounds}, {}))
            if not L.iters: ms.append((dict(L.entry), {}))
            for m, memo in ms:
                for r in list(e.mem): e.mem[r] = subst(e.mem[r], m, memo)
                e.facts = self.sub_facts(e.facts, m, memo)
                e.trace = self.sub_trace(e.trace, m, memo)
                if e.ret is not None and isinstance(e.ret, T): e.ret = subst(e.ret, m, memo)
                e.ineq = tuple(subst(x, m, memo) for x in e.ineq)
            if g is not None or done:
                e.ineq = tuple(x for x in e.ineq if not contains(x, lambda y: y in phis or y.op in ('item', 'idx') and srcs and y.args[0] is L.prim))
            e.facts.update(extra)
            e.facts = {k: v for k, v in e.facts.items() if k.op != 'bool'}
            P = Path({k: v for k, v in e.facts.items() if hf.get(k) is not v}, e.trace, None, {}, e)
            P.done = done; P.tag = tag; P.keeps = self.keeps(e, hav); P.moves = self.keeps(e, {l: p for l, p in hav.items() if p not in L.sources}); L.exits.append(P)
            out.append((e, tag, done or g is not None))
        if not L.exits and L.iters: self.endless.append(L)
        needed = any(pa.trace for pa in L.iters) or any(pa.trace for pa in L.exits)
        fin = []
        mixed = len(set(d for _, _, _, d, _ in res)) > 1
        for (e, tag, closed_), (_, _, _, closed, _) in zip(out, res):
            if needed or not closed_ and L.iters or any(contains(v, lambda x: x in phis) for v in e.mem.values()) or (e.ret is not None and contains(e.ret, lambda x: x in phis)):
                e.trace = trace0 + (('loop', L, closed if mixed else None),) + e.trace
            else: e.trace = trace0 + e.trace
            fin.append((e, tag))
        res = fin
        if len(res) > 1:
            groups = {}
            for e, tag in res: groups.setdefault(tag, []).append(e)
            res = [(e, tag) for tag, g in groups.items() for e in self.merge(g)]
        return res
    def locsort(self, l): return (0 if l[0][0] == 'L' else 1, str(l[0]), str(l[1]))
    def slide(self, L, exits, npan, hf):
        """a list kept to its last n elements: the carried list becomes everything put in since the last reset"""
        for l, p in L.phis.items():
            if L.entry[p] is not EMPTY_L or len(L.iters) < 2: continue
            new = {}; kinds = {}
            for pa in L.iters:
                nv = pa.upd[p]; k = None
                if nv is p or nv is EMPTY_L: k = 'keep'
                elif nv.op == 'seq' and len(nv.args) == 3 and nv.args[2].op == 'one':
                    if nv.args[1] is p: k = 'push'
                    elif nv.args[1] is T('tail', p): k = 'shift'
                    new[nv] = nv.args[2]
                elif nv.op == 'tail' and nv.args[0].op == 'seq' and len(nv.args[0].args) == 3 and nv.args[0].args[1] is p and nv.args[0].args[2].op == 'one':
                    k = 'over'; new[nv] = nv.args[0].args[2]
                kinds[id(pa)] = k
            ks = set(kinds.values())
            if None in ks or 'push' not in ks or not ks & {'shift', 'over'}: continue
            if any(contains(x, lambda y: y is p) for x in new.values()): continue
            ln = T('len', p); phis = set(L.phis.values())
            cands = []
            for pa in L.iters:
                if kinds[id(pa)] not in ('shift', 'over'): continue
                for k, v in pa.facts.items():
                    if k.op == 'lin' and v.op == 'int': t = sub(k, v)
                    elif k.op in ('le0', 'neq'): t = k.args[0]
                    elif k.op == 'eq': t = sub(k.args[0], k.args[1])
                    else: continue
                    c, d = lin_parts(t)
                    if abs(d.get(ln, 0)) != 1: continue
                    r = mulc(sub(t, mulc(ln, d[ln])), -d[ln])
                    if contains(r, lambda y: y in phis or y is ln or y.op in ('item', 'idx')): continue
                    for x in (r, add(r, Int(1)), add(r, Int(-1))):
                        if x not in cands: cands.append(x)
            for n in cands:
                full = {}
                for pa in L.iters:
                    st = pa.st.copy(); k = kinds[id(pa)]
                    if not st.assume(mk_le(ln, n), True): full[id(pa)] = 'never'; continue
                    f = full[id(pa)] = st.truth(mk_le(n, ln))
                    if k == 'push' and f is not False or k in ('shift', 'over') and f is not True or k == 'shift' and st.truth(mk_le(Int(1), n)) is not True: full = None; break
                if full is not None: break
            else: continue
            some = all(full[id(pa)] == 'never' or pa.st.truth(mk_le(Int(1), n)) is True for pa in L.iters)
            last = T('lastof', n, p); m0 = {p: last}
            if some: m0[T('empty', p)] = T('empty', p)
            live = []
            for pa in L.iters:
                nv = pa.upd[p]; f = full[id(pa)]; m = dict(m0); memo = {}
                if f == 'never': continue
                if nv in new: m[nv] = T('lastof', n, cat_l(p, mk_seq('l', [new[nv]])))
                if f is not None: m[ln] = n if f else ln
                fs = {}; dead = False
                for k, v in pa.facts.items():
                    k2 = subst(k, m, memo)
                    if k2.op == 'not': k2 = k2.args[0]; v = Bool(not v.args[0]) if v.op == 'bool' else v
                    if k2.op == 'bool': dead |= v.op == 'bool' and k2 is not v
                    else: fs[k2] = v
                if dead: continue
                if f is not None: put_fact(fs, mk_le(n, ln), f)
                pa.facts = fs; pa.trace = self.sub_trace(pa.trace, m, memo)
                pa.upd = {q: (cat_l(p, mk_seq('l', [new[nv]])) if nv in new else nv) if q is p else subst(v, m, memo) for q, v in pa.upd.items()}
                live.append(pa)
            L.iters = live; memo = {}
            for pn in self.panics[npan:]: pn.facts = {k2: subst(v, m0, memo) for k, v in pn.facts.items() for k2 in [subst(k, m0, memo)] if k2.op != 'bool'}
            for e, tag in exits:
                for r in list(e.mem): e.mem[r] = subst(e.mem[r], m0, memo)
                e.facts = self.sub_facts(e.facts, m0, memo); e.trace = self.sub_trace(e.trace, m0, memo)
                if e.ret is not None and isinstance(e.ret, T): e.ret = subst(e.ret, m0, memo)
                e.ineq = tuple(subst(x, m0, memo) for x in e.ineq)
        return exits
    NEXT = 'libxml::readonly::RoNode::get_next_sibling'
    def invariants(self, entry, hav, backs):
        """linear bounds of the carried numbers that hold before the loop and after every iteration (terms at most 0)"""
        out = []; phis = set(hav.values())
        def one(p, u): return not any(contains(x, lambda y: y.op == 'phi' and y in phis or y.op in ('item', 'idx')) for x in lin_parts(u)[1] if x is not p)
        for l, p in hav.items():
            ent = entry.val(entry.read(l))
            if ent.op not in ('int', 'lin', 'sym', 'fld', 'len', 'phi', 'app', 'idx', 'at', 'item', 'vf'): continue
            cand = []; apart = []
            for b in backs:
                d = sub(b.val(b.read(l)), p)
                if d.op != 'int': cand = None; break
                for k, v in b.facts.items():
                    e = sub(k.args[0], k.args[1]) if k.op == 'eq' and v is FALSE else k.args[0] if k.op == 'neq' and k.args[0].op == 'lin' and v.args == (Int(0),) else None
                    if e is not None and p in lin_parts(e)[1]:
                        # not equal in any iteration that goes on: at most afterwards, if at most before
                        if one(p, e): apart += [t for t in (e, mulc(e, -1)) if t not in apart]
                    if k.op != 'le0' or p not in lin_parts(k.args[0])[1] or v.op != 'bool': continue
                    t = k.args[0] if v.args[0] else add(mulc(k.args[0], -1), Int(1))
                    if not one(p, t): continue
                    t = add(t, mulc(d, -lin_parts(t)[1][p]))
                    if t not in cand: cand.append(t)
            if cand is None: continue
            for t in apart[:8]:
                if t in cand or entry.le0(subst(t, {p: ent})) is not True: continue
                for b in backs:
                    s = b.copy()
                    if s.assume(mk_le0(t), True) and s.le0(subst(t, {p: b.val(b.read(l))})) is not True: break
                else: out.append(t)
            for t in cand[:8]:
                if entry.le0(subst(t, {p: ent})) is not True: continue
                if all(b.le0(subst(t, {p: b.val(b.read(l))})) is True for b in backs): out.append(t)
        # a number that grows by the same step whenever a list loses its first element
        for m, q in hav.items():
            tail = T('tail', q)
            if not backs or not all(b.val(b.read(m)) is tail for b in backs): continue
            first = mk_len(entry.val(entry.read(m)))
            for l, p in hav.items():
                ent = entry.val(entry.read(l))
                if p is q or ent.op not in ('int', 'lin', 'sym', 'fld', 'len', 'phi', 'app', 'idx', 'at', 'item', 'vf'): continue
                ds = {sub(b.val(b.read(l)), p) for b in backs}
                if len(ds) != 1: continue
                d = next(iter(ds))
                if d.op != 'int' or not 1 <= abs(d.args[0]) <= 4: continue
                t = sub(add(p, mulc(mk_len(q), d.args[0])), add(ent, mulc(first, d.args[0])))
                if t.op == 'lin': out += [t, mulc(t, -1)]
        return tuple(out)
    def sources(self, L, hav, backs, subs):
        """which φ's walk over a sequence, one element per iteration"""
        srcs = []; sub_ = {}
        L.counters = {}
        L.bounds = {}
        if not backs: return srcs
        phis = set(hav.values())
        for l, p in hav.items():
            if all(pa.upd[p] is T('tail', p) for pa in L.iters):
                src = L.entry[p]; L.sources[p] = src; srcs.append((p, src)); continue
            ns = App(self.NEXT, T('vf', p, 'Some', 0))
            if all(pa.upd[p] is ns for pa in L.iters):
                src = T('sibs', L.entry[p]); L.sources[p] = src; srcs.append((p, src)); continue
            if all(sub(pa.upd[p], p) is Int(1) for pa in L.iters):
                B = None
                for pa in L.iters:
                    bs = set()
                    for k, v in pa.facts.items():
                        if k.op != 'le0' or v.op != 'bool': continue
                        c, d = lin_parts(k.args[0])
                        if v.args[0] and d.get(p) == 1: b = add(mulc(sub(k.args[0], p), -1), Int(1))
                        elif not v.args[0] and d.get(p) == -1: b = add(k.args[0], p)
                        else: continue
                        if not contains(b, lambda x: x in phis or x.op == 'idx' and not self.known_before(L, x)): bs.add(b)
                    B = bs if B is None else B & bs
                if B and len(B) == 1:
                    b = next(iter(B))
                    L.bounds[p] = b
        if not srcs and L.bounds:
            for l, p in hav.items():
                if p in L.bounds:
                    src = T('range', L.entry[p], L.bounds[p]); L.sources[p] = src; srcs.append((p, src))
        srcs.sort(key=lambda x: (x[1].op == 'slice', self.locsort(next(l for l in hav if hav[l] is x[0]))))
        return srcs
    def known_before(self, L, x):
        """a running index of a loop around this one, not of one inside it"""
        e = getattr(L, 'before', None)
        return e is not None and (any(contains(k, lambda y: y is x) for k in e.facts) or any(contains(v, lambda y: y is x) for v in e.mem.values()))
    def about_source(self, k, L):
        """a fact that only says whether the iteration is over"""
        if k.op == 'empty' and k.args[0] in L.sources: return True
        if k.op == 'disc' and k.args[0] in L.sources: return True
        if k.op == 'neq' and isinstance(k.args[0], T) and k.args[0].op == 'disc' and k.args[0].args[0] in L.sources: return True
        if k.op == 'le0':
            c, d = lin_parts(k.args[0])
            for p, b in L.bounds.items():
                if p in L.sources and p in d and (k is mk_lt(p, b) or k is mk_le0(sub(b, p))): return True
        if k.op == 'eq' and k.args[0] in L.bounds and k.args[0] in L.sources: return True
        return False
    def exhausted(self, e, L, p):
        if p in L.bounds:
            return e.truth(mk_lt(p, L.bounds[p])) is False
        if L.sources[p].op == 'sibs' and e.facts.get(T('disc', p, OPT)) is Int(0): return True
        return e.facts.get(T('empty', p)) is TRUE
    def canon_items(self, L, srcs, subs):
        prim = None
        m = {}
        for p, src in srcs:
            it = T('item', src)
            if src.op == 'range':
                it = add(src.args[0], T('idx', src))
            if p in L.bounds and L.sources[p] is src: m[p] = it
            elif src.op == 'sibs' and not (T('tail', p) in [pa.upd[p] for pa in L.iters]): m[T('vf', p, 'Some', 0)] = it
            elif prim is not None and prim.op not in ('range', 'sibs') and src.op != 'range' and src is not prim:
                # walked over together with the first sequence
                m[get_index(p, Int(0))] = get_index(src, T('idx', prim))
                m[mk_empty(p)] = mk_le0(sub(mk_len(src), T('idx', prim)))
            else: m[get_index(p, Int(0))] = it
            if prim is None: prim = src
        L.prim = prim
        idx = T('idx', prim)
        for l, p in L.phis.items():
            if p in L.sources: continue
            steps = {sub(pa.upd[p], p) for pa in L.iters}
            if len(steps) == 1:
                s = next(iter(steps))
                if s.op == 'int' and s.args[0] != 0 and L.entry[p].op in ('int', 'lin', 'sym', 'fld', 'len', 'phi', 'app', 'idx', 'item'):
                    m[p] = add(L.entry[p], mulc(idx, s.args[0]))
                    L.counters[p] = m[p]
        subs.append((m, {}))
        # for i in 0..v.len() { v[i] } walks over v
        if prim.op == 'range' and prim.args[0] is Int(0) and prim.args[1].op == 'len':
            v = prim.args[1].args[0]
            if v.op in ('chars', 'bytes', 'sym', 'fld', 'comp', 'item', 'vf', 'app', 'slice', 'seq', 'at', 'lastof', 'sorted', 'rev', 'phi', 'post', 'get'):
                subs.append(({T('at', v, idx): T('item', v), idx: T('idx', v)}, {}))
                L.prim = v
                for p in list(L.sources):
                    if L.sources[p] is prim: L.sources[p] = v
    def comprehend(self, L, srcs, m2):
        """the loop ran over the whole sequence: closed forms for accumulators"""
        src = L.prim
        phis = set(L.phis.values())
        idx = T('idx', src)
        m2[idx] = mk_len(src)
        for l, p in L.phis.items():
            if p in L.sources or p in L.counters: continue
            ent = L.entry[p]
            cases = []; ok = True; kind = None; flag = None
            for pa in L.iters:
                nv = pa.upd[p]
                if nv is p: cases.append((pa, None)); continue
                if nv.op == 'bool':
                    kind = 'b' if kind in (None, 'b') and flag in (None, nv) else 'bad'; flag = nv
                    cases.append((pa, (nv,))); continue
                if nv.op == 'seq' and len(nv.args) > 1 and nv.args[1] is p and not any(x is p for y in nv.args[2:] for x in subterms(y)):
                    kind = nv.args[0] if kind in (None, nv.args[0]) else 'bad'
                    cases.append((pa, nv.args[2:])); continue
                if nv.op == 'seq' and nv.args[0] == 'l' and len(nv.args) > 1 and nv.args[-1] is p and not any(x is p for y in nv.args[1:-1] for x in subterms(y)):
                    # put in front of what is there
                    kind = 'front' if kind in (None, 'front') and all(y.op == 'one' for y in nv.args[1:-1]) else 'bad'
                    cases.append((pa, tuple(reversed(nv.args[1:-1])))); continue
                c, d = lin_parts(nv)
                if d.get(p) == 1 and (nv.op == 'lin'):
                    kind = 'i' if kind in (None, 'i') else 'bad'
                    cases.append((pa, (sub(nv, p),))); continue
                ok = False; break
            if not ok or kind in (None, 'bad'): continue
            cs = []
            for pa, segs in cases:
                # what a loop inside computes differs from iteration to iteration
                inner = {q for ev in pa.trace if ev[0] == 'loop' for q in ev[1].entry}
                if inner and any(contains(x, lambda y: y in inner) for x in tuple(segs or ()) + tuple(pa.facts)): ok = False; break
                g = []
                for k, v in pa.facts.items():
                    if k.op == 'unsigned': continue
                    if self.about_source(k, L) or self.about_item(k, v, L): continue
                    if contains(k, lambda x: x in phis): ok = False; break
                    g.append(T('fact', k, v))
                if not ok: break
                if segs is not None and any(contains(x, lambda y: y in phis) for x in segs): ok = False; break
                cs.append((g, segs))
            if not ok: continue
            # bounds that are kept in every iteration go without saying
            common = {f for f in set.intersection(*[set(g) for g, _ in cs]) if f.args[0].op == 'le0' and contains(f.args[0], lambda x: x is idx)} if kind != 'b' else ()
            cs = [(tuple(sorted(minimal([f for f in g if f not in common]), key=lambda x: x.id)), segs) for g, segs in cs]
            seen = {}
            for g, segs in cs:
                if segs is None: continue
                seen[(g, segs)] = 1
            if not seen: continue
            if kind == 'b':
                if ent.op != 'bool' or ent is flag: continue
                anys = [mk_any(src, T('conj', *g)) for g, segs in seen]
                r = anys[0] if len(anys) == 1 else T('or', *sorted(anys, key=lambda x: x.id))
                m2[p] = r if flag is TRUE else mk_not(r)
            elif kind == 'i':
                r = T('sum', src, *[T('case', T('conj', *g), segs[0]) for g, segs in sorted(seen, key=lambda c: tuple(x.id for x in c[0]))])
                if len(seen) == 1:
                    (g, segs), = seen
                    if not g and segs[0].op == 'int' and len(cs) == 1: r = mulc(mk_len(src), segs[0].args[0])
                m2[p] = add(ent, r)
            elif kind == 'front':
                r = self.models.mk_rev(mk_comp('l', src, [(g, mk_seq('l', segs)) for g, segs in seen]))
                m2[p] = mk_seq('l', [r] + list(pieces(ent)))
            else:
                r = mk_comp(kind, src, [(g, mk_seq(kind, segs)) for g, segs in seen])
                m2[p] = mk_seq(kind, pieces(ent) + [r])
    def together(self, L):
        if L.prim is None or L.prim.op in ('range', 'sibs'): return {}
        return {p: s for p, s in L.sources.items() if s is not L.prim and s.op not in ('range', 'sibs') and p not in L.bounds}
    def along(self, L, src):
        """the loop, told along another one of its sequences"""
        i = T('idx', L.prim); m = {T('item', L.prim): get_index(L.prim, T('idx', src)), i: T('idx', src), get_index(src, i): T('item', src)}
        N = LoopSummary(L.key); N.phis = L.phis; N.entry = L.entry; N.counters = L.counters; N.bounds = L.bounds; N.sources = L.sources; N.prim = src
        memo = {}
        for pa in L.iters: N.iters.append(Path(self.sub_facts(pa.facts, m, memo), self.sub_trace(pa.trace, m, memo), pa.ret, {p: subst(v, m, memo) for p, v in pa.upd.items()}, pa.st))
        return N
    def about_item(self, k, v, L):
        """bounds of the running index that are implied by running at all"""
        if k.op != 'le0' or v.op != 'bool': return False
        c, d = lin_parts(k.args[0]); i = T('idx', L.prim)
        if i not in d or not all(x.op in ('idx', 'len') for x in d) or len(d) > 2: return False
        st = State(); st.assume(mk_lt(i, mk_len(L.prim)), True)
        return st.truth(k) is v.args[0]
    def sub_facts(self, facts, m, memo):
        r = {}
        for k, v in facts.items():
            k2 = subst(k, m, memo)
            if k2.op != 'bool': r[k2] = v
        return r
    def sub_trace(self, tr, m, memo):
        out = []
        for ev in tr:
            if ev[0] == 'loop':
                L = ev[1]
                N = LoopSummary(L.key); N.where = L.where; N.phis = L.phis; N.sources = {p: subst(s, m, memo) for p, s in L.sources.items()}
                N.counters = L.counters; N.bounds = L.bounds
                if L.prim is not None: N.prim = subst(L.prim, m, memo)
                N.entry = {p: subst(v, m, memo) for p, v in L.entry.items()}
                for src, dst in ((L.iters, N.iters), (L.exits, N.exits)):
                    for pa in src:
                        q = Path(self.sub_facts(pa.facts, m, memo), self.sub_trace(pa.trace, m, memo), pa.ret, {p: subst(v, m, memo) for p, v in pa.upd.items()}, pa.st)
                        if hasattr(pa, 'done'): q.done = pa.done; q.tag = pa.tag; q.keeps = pa.keeps; q.moves = pa.moves
                        dst.append(q)
                out.append(('loop', N) + ev[2:])
            else:
                out.append((ev[0], ev[1], tuple(subst(a, m, memo) for a in ev[2]), subst(ev[3], m, memo) if ev[3] is not None else None, ev[4]))
        return tuple(out)
    def keeps(self, e, hav):
        """the loop is left with its carried values as they were at the head"""
        try: return all(e.val(e.read(l)) is p for l, p in hav.items())
        except Exception: return False
    def locname(self, l):
        r, p = l
        s = '%s%s' % (r[0], '.'.join(str(x) if not isinstance(x, T) else show(x)[:60] for x in r[1:]))
        for e in p: s += '.' + (e[1] if e[0] in ('f', 'v') else (str(e[0]) + (show(e[1])[:40] if isinstance(e[1], T) else str(e[1]))))
        return s
    def diff_state(self, a, b, out):
        for root, va in a.mem.items():
            vb = b.mem.get(root)
            if vb is None:
                continue
            if vb is not va: self.diff_val((root, ()), va, vb, out)
        for root, vb in b.mem.items():
            if root[0] == 'M' and root not in a.mem and vb is not root[1]:
                self.diff_val((root, ()), root[1], vb, out)
    def diff_val(self, loc, x, y, out):
        if x is y: return
        r, p = loc
        if x.op == 'agg' and y.op == 'agg' and x.args[:2] == y.args[:2] and len(x.args) == len(y.args):
            names = None
            if x.args[0] not in ('tuple', 'array'):
                a = adt_of(x.args[0])
                if a:
                    v = [v for v in a['variants'] if v['name'] == x.args[1] or a['kind'] != 'enum'][0]
                    names = [f[0] for f in v['fields']]
                    pre = (('v', x.args[1]),) if a['kind'] == 'enum' else ()
            else: names = [str(i) for i in range(len(x.args) - 2)]; pre = ()
            if names is not None and len(names) == len(x.args) - 2:
                for i, n in enumerate(names): self.diff_val((r, p + pre + (('f', n, i),)), x.args[2 + i], y.args[2 + i], out)
                return
        if x.op == 'upd' or y.op == 'upd':
            bx = x.args[0] if x.op == 'upd' else x
            by = y.args[0] if y.op == 'upd' else y
            if bx is by:
                ks = set(x.args[1::2] if x.op == 'upd' else ()) | set(y.args[1::2] if y.op == 'upd' else ())
                for k in ks: self.diff_val((r, p + (('f', k, 0),)), get_field(x, k), get_field(y, k), out)
                return
        if x.op == y.op and x.op in STRUCT and len(x.args) == len(y.args):
            idxs = STRUCT[x.op]
            if all(x.args[i] is y.args[i] for i in range(len(x.args)) if i not in idxs):
                if any(x.args[i].op in self.models.ITOPS and not same_shape(x.args[i], y.args[i], self.models.ITOPS) for i in idxs): out.add(loc); return
                for i in idxs: self.diff_val((r, p + (('a', i),)), x.args[i], y.args[i], out)
                return
        if x.op == 'ref' or y.op == 'ref':
            pass
        out.add(loc)

def minimal(fs):
    """the facts without those that follow from the others"""
    for f in list(fs):
        if f.args[1].op != 'bool' or f.args[0].op != 'empty': continue
        st = State(); st.facts = {g.args[0]: g.args[1] for g in fs if g is not f}
        if st.truth(f.args[0]) is f.args[1].args[0]: fs = [g for g in fs if g is not f]
    return fs
TEXT_TESTS = {'str.contains': 'has', 'str.starts_with': 'pre', 'str.ends_with': 'suf', 're.is_match': 're'}
def text_test(t):
    """(text, test) of a test with a fixed argument"""
    if t.op == 'eq': return (t.args[0], ('is', t.args[1].args[0])) if t.args[1].op == 'str' else (None, None)
    if len(t.args) != 3: return None, None
    k = TEXT_TESTS[t.args[0]]
    if k == 're':
        r = t.args[1]
        return (t.args[2], ('re', r.args[1].args[0])) if r.op == 'app' and r.args[0] == 'Regex' and r.args[1].op == 'str' else (None, None)
    return (t.args[1], (k, t.args[2].args[0])) if t.args[2].op == 'str' else (None, None)
def same_shape(x, y, ops):
    if x.op != y.op or len(x.args) != len(y.args): return False
    return all(not isinstance(a, T) or a.op not in ops or same_shape(a, b, ops) for a, b in zip(x.args, y.args))
def put_fact(d, t, v):
    if t.op == 'not': t = t.args[0]; v = not v
    if t.op != 'bool': d[t] = Bool(v)
def mk_any(src, g):
    """some element of src satisfies the conjunction g"""
    if src.op == 'comp' and len(src.args) == 2:
        ps = pieces(src.args[1].args[1])
        if len(ps) == 1 and ps[0].op == 'one':
            # about the elements it is made from
            h = {}
            for f in src.args[1].args[0].args: h[f.args[0]] = f.args[1]
            it = T('item', src)
            for f in g.args: put_fact(h, subst(f.args[0], {it: ps[0].args[0]}), f.args[1] is TRUE) if f.args[1] in (TRUE, FALSE) else h.__setitem__(subst(f.args[0], {it: ps[0].args[0]}), f.args[1])
            if not any(contains(t, lambda z: z is src) for t in h):
                return mk_any(src.args[0], T('conj', *[T('fact', k, v) for k, v in sorted(h.items(), key=lambda kv: kv[0].id)]))
    if src.op == 'chars' and len(g.args) == 1:
        k, v = g.args[0].args
        # some character is no white space: the trimmed text is not empty
        if k.op == 'app' and k.args[0] == 'char.is_whitespace' and v is FALSE and k.args[1] is T('item', src): return mk_not(mk_empty(App('str.trim', src.args[0])))
    return T('any', src, g)
def mk_comp(kind, src, cases):
    """sequence comprehension over src; identity comprehensions vanish"""
    it = T('item', src)
    if kind == 's':
        import models
        j = models.sep_in_front(src, cases)
        if j is not None: return j
    if src.op == 'chars' and len(cases) > 1:
        j = char_table(src, cases)
        if j is not None: return j
    if len(cases) == 1 and not cases[0][0]:
        seg = cases[0][1]
        ps = pieces(seg)
        if len(ps) == 1 and ps[0].op == 'one' and (ps[0].args[0] is it or (src.op == 'entries' and ps[0].args[0] is Tup(T('fld', it, '0'), T('fld', it, '1')))):
            if kind == 'l': return src
            if src.op == 'chars': return src.args[0]
    return T('comp', src, *[T('case', T('conj', *g), s) for g, s in sorted(cases, key=lambda c: (tuple(x.id for x in c[0]), c[1].id))])

def char_table(src, cases):
    """text made of the characters of another one, some of them replaced by constants"""
    it = T('item', src); table = {}; rest = None
    for g, v in cases:
        if len(g) != 1: return None
        k, b = g[0].args
        if k is it and b.op == 'char':
            ps = pieces(v)
            if len(ps) > 1 or (ps and ps[0].op != 'str'):
                if v is mk_seq('s', [One(it)]): v = Str(chr(b.args[0]))
                else: return None
            elif v.op == 'seq' and v.args[0] != 's': return None
            if b.args[0] in table: return None
            table[b.args[0]] = ps[0].args[0] if ps and ps[0].op == 'str' else (v.args[0] if v.op == 'str' else '')
        elif k.op == 'neq' and k.args[0] is it and b.op == 'set' and all(c.op == 'char' for c in b.args):
            if rest is not None or v is not mk_seq('s', [One(it)]): return None
            rest = {c.args[0] for c in b.args}
        else: return None
    if rest is None or not set(table) <= rest: return None
    for c in rest: table.setdefault(c, '')
    return chars_replaced(src.args[0], {chr(c): o for c, o in table.items()})
def chars_replaced(w, table):
    if w.op == 'str': return Str(''.join(table.get(c, c) for c in w.args[0]))
    if w.op == 'item' and w.args[0].op == 'split_whitespace': table = {c: o for c, o in table.items() if not c.isspace()}
    if w.op == 'comp' and w.args[0].op == 'chars':
        # a second replacement works on what the first one left
        src = w.args[0]; it = T('item', src); inner = {}
        for c in w.args[1:]:
            g = c.args[0].args
            if len(g) != 1: inner = None; break
            k, b = g[0].args
            if k is it and b.op == 'char' and (c.args[1].op == 'str' or c.args[1] is EMPTY_S): inner[chr(b.args[0])] = c.args[1].args[0] if c.args[1].op == 'str' else ''
            elif k.op == 'neq' and k.args[0] is it and c.args[1] is mk_seq('s', [One(it)]): pass
            else: inner = None; break
        if inner is not None:
            both = {c: ''.join(table.get(x, x) for x in o) for c, o in inner.items()}
            for c, o in table.items(): both.setdefault(c, o)
            return chars_replaced(src.args[0], both)
    table = {c: o for c, o in table.items() if c != o}
    if not table: return w
    src = T('chars', w); it = T('item', src); keys = sorted(table)
    cs = [T('case', T('conj', T('fact', it, Chr(c))), Str(table[c])) for c in keys]
    cs.append(T('case', T('conj', T('fact', T('neq', it), T('set', *sorted((Chr(c) for c in keys), key=lambda x: x.id)))), mk_seq('s', [One(it)])))
    return T('comp', src, *cs)

def hash_str(s):
    h = 0
    for c in s: h = (h * 131 + ord(c)) & 0xffffffff
    return h

class FnKey:
    _t = {}
    def __new__(cls, callee):
        k = callee.get('ruid') or callee['uid'], str(callee.get('rargs') or callee.get('args'))
        o = cls._t.get(k)
        if o is None:
            o = object.__new__(cls); o.callee = callee; cls._t[k] = o
        return o
    def __hash__(self): return id(self)
    def __repr__(self): return 'fn'

class Info:
    def __init__(self, f, site, dty, atys): self.f = f; self.site = site; self.dty = dty; self.atys = atys
class _Skip: pass
SKIP = T('SKIP')
