"""Hash-consed terms: the value domain of the abstract interpreter.

A term is an uninterpreted (Herbrand) value with a few interpreted constructors that have a normal
form: linear integer expressions, text/sequence concatenation, aggregates.  Equality of terms is
identity, so two program texts that compute the same thing get the same term."""

class T:
    __slots__ = ('op', 'args', 'id', '_s')
    _tab = {}
    _n = 0
    _sp = {}                        # values given to terms for a comparison on small inputs
    def __new__(cls, op, *args):
        k = (op,) + tuple((a.id, 0) if isinstance(a, T) else (a, type(a).__name__) for a in args)
        t = cls._tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op; t.args = args; t._s = None
            cls._n += 1; t.id = cls._n
            cls._tab[k] = t
        return cls._sp.get(t, t) if cls._sp else t
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __repr__(self): return show(self)

def show(t, d=0):
    if not isinstance(t, T): return repr(t)
    if t._s is not None: return t._s
    s = _show(t)
    if len(s) > 20000: s = s[:20000] + '…'
    t._s = s
    return s

def _show(t):
    o, a = t.op, t.args
    if o == 'int': return str(a[0])
    if o == 'bool': return 'true' if a[0] else 'false'
    if o == 'char': return repr(chr(a[0])) if a[0] < 0x110000 else '?'
    if o == 'str': return '"%s"' % a[0].replace('\n', '\\n')
    if o == 'unit': return '()'
    if o == 'sym': return str(a[0])
    if o == 'phi': return 'φ[%s|%s]' % (a[0].split('~')[0].split('/')[0], a[1] if len(a[1]) < 25 else a[1][:8] + '..' + a[1][-12:])
    if o == 'lin':
        out = []
        for x, c in zip(a[1::2], a[2::2]):
            out.append(('%s' % show(x)) if c == 1 else '%d*%s' % (c, show(x)))
        r = ' + '.join(out)
        if a[0]: r += ' %+d' % a[0]
        return '(' + r + ')'
    if o == 'agg':
        nm = a[0].split('::')[-1] + ('::' + a[1] if a[1] else '')
        if a[0] in ('tuple', 'array'): nm = a[0]
        return '%s(%s)' % (nm, ', '.join(show(x) for x in a[2:]))
    if o == 'fld': return '%s.%s' % (show(a[0]), a[1])
    if o == 'vf': return '(%s as %s).%s' % (show(a[0]), a[1], a[2])
    if o == 'app': return '%s(%s)' % (a[0].split('::')[-1] if '<' not in a[0] else a[0].replace('std::','').replace('core::',''), ', '.join(show(x) for x in a[1:]))
    return '%s(%s)' % (o, ', '.join(show(x) for x in a))

UNIT = T('unit')
TRUE = T('bool', True)
FALSE = T('bool', False)
def Int(v): return T('int', int(v))
def Bool(v): return TRUE if v else FALSE
def Str(s): return T('str', s)
def Chr(c): return T('char', c if isinstance(c, int) else ord(c))
def App(f, *a): return T('app', f, *a)
def Sym(n): return T('sym', n)

OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'
def Some(x): return T('agg', OPT, 'Some', x)
NONE = T('agg', OPT, 'None')
def Ok(x): return T('agg', RES, 'Ok', x)
def Err(x): return T('agg', RES, 'Err', x)
def Tup(*x): return T('agg', 'tuple', '', *x)

# ---------------------------------------------------------------- linear integers
def lin_parts(t):
    """(const, {term: coef}) or None"""
    if t.op == 'int': return t.args[0], {}
    if t.op == 'lin': return t.args[0], dict(zip(t.args[1::2], t.args[2::2]))
    if t.op == 'bool': return int(t.args[0]), {}
    return 0, {t: 1}

def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d: return Int(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1: return k
    fl = []
    for k in sorted(d, key=lambda x: x.id): fl += [k, d[k]]
    return T('lin', c, *fl)

def add(a, b, sa=1, sb=1):
    ca, da = lin_parts(a); cb, db = lin_parts(b)
    d = {k: v * sa for k, v in da.items()}
    for k, v in db.items(): d[k] = d.get(k, 0) + v * sb
    return mk_lin(ca * sa + cb * sb, d)
def sub(a, b): return add(a, b, 1, -1)
def mulc(a, c):
    ca, da = lin_parts(a)
    return mk_lin(ca * c, {k: v * c for k, v in da.items()})

# ---------------------------------------------------------------- sequences (strings and lists)
# A sequence is seq(kind, piece...) where a piece is one(x) [a single element], a constant string, or
# any sequence-valued term spliced in.  kind: 's' text, 'l' list.
EMPTY_S = Str('')
EMPTY_L = T('seq', 'l')

def pieces(t):
    if t.op == 'str': return [t] if t.args[0] else []
    if t.op == 'seq': return list(t.args[1:])
    return [t]

def mk_seq(kind, ps):
    out = []
    for p in ps:
        if p.op == 'one' and p.args[0].op == 'char' and kind == 's': p = Str(chr(p.args[0].args[0]))
        if p.op == 'str' and kind == 's':
            if not p.args[0]: continue
            if out and out[-1].op == 'str':
                out[-1] = Str(out[-1].args[0] + p.args[0]); continue
        if p.op == 'seq':
            for q in p.args[1:]:
                if q.op == 'str' and out and out[-1].op == 'str' and kind == 's': out[-1] = Str(out[-1].args[0] + q.args[0])
                else: out.append(q)
            continue
        out.append(p)
    if kind == 's':
        if not out: return EMPTY_S
        if len(out) == 1 and out[0].op != 'one': return out[0]
    else:
        if len(out) == 1 and out[0].op not in ('one',): return out[0]
    return T('seq', kind, *out)

def cat_s(a, b): return mk_seq('s', pieces(a) + pieces(b))
def cat_l(a, b): return mk_seq('l', pieces(a) + pieces(b))
def One(x): return T('one', x)

# ---------------------------------------------------------------- traversal
def subterms(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen: continue
        seen.add(x); yield x
        for a in x.args:
            if isinstance(a, T): st.append(a)

def contains(t, pred):
    for x in subterms(t):
        if pred(x): return True
    return False

def is_const(t): return t.op in ('int', 'bool', 'char', 'str', 'unit')
def map_walk(w, m):
    if m.op == 'map0': return T('seq', 'l')
    if w not in ('keys', 'values'): return T(w, m)
    # a walk over the keys or values is one over the entries
    src = T('entries', m)
    return T('comp', src, T('case', T('conj'), T('seq', 'l', T('one', T('fld', T('item', src), '0' if w == 'keys' else '1')))))
def mk_lastof(n, v):
    """the last n elements of a list"""
    if v.op == 'seq' and all(p.op == 'one' for p in v.args[1:]):
        if len(v.args) == 1: return v
        if n.op == 'int': return T('seq', v.args[0], *(v.args[1:][-n.args[0]:] if n.args[0] > 0 else ()))
    return T('lastof', n, v)
def rebuild(op, args):
    """Re-normalise a term after substitution."""
    if op == 'lin':
        r = Int(args[0])
        for x, c in zip(args[1::2], args[2::2]): r = add(r, mulc(x, c))
        return r
    if op == 'seq': return mk_seq(args[0], args[1:])
    if op in ('entries', 'keys', 'values', 'elems'): return map_walk(op, args[0])
    if op == 'fld':
        from engine import get_field
        return get_field(args[0], args[1])
    if op == 'vf' and isinstance(args[0], T) and args[0].op == 'agg' and args[0].args[1] == args[1]:
        return args[0].args[2 + args[2]]
    if op == 'lastof': return mk_lastof(*args)
    if op == 'len':
        from engine import mk_len
        return mk_len(args[0])
    if op == 'empty':
        from engine import mk_empty
        return mk_empty(args[0])
    if op == 'at' and args[1].op == 'idx' and args[0].op == 'comp':
        from engine import get_index
        return get_index(args[0], args[1])
    if op == 'not':
        from engine import mk_not
        return mk_not(args[0])
    if op == 'eq':
        from engine import mk_eq
        return mk_eq(args[0], args[1])
    if op == 'le0':
        from engine import mk_le0
        return mk_le0(args[0])
    if op == 'conj':
        fs = []
        for f in args:
            k, v = f.args[0], f.args[1]
            if k is v and is_const(k): continue
            fs.append(f)
        return T('conj', *fs)
    if op == 'comp':
        keep = [c for c in args[1:] if not any(f.args[0] is not f.args[1] and is_const(f.args[0]) and is_const(f.args[1]) for f in c.args[0].args)]
        if not keep and len(args) > 1 and args[1].args[1].op in ('seq', 'str'): return T('seq', 'l') if args[1].args[1].op == 'seq' and args[1].args[1].args[0] == 'l' else Str('')
        if len(keep) == 1 and not keep[0].args[0].args and keep[0].args[1].op == 'seq':
            from engine import mk_comp
            return mk_comp(keep[0].args[1].args[0], args[0], [((), keep[0].args[1])])
        if args[0].op == 'chars' and len(keep) > 1:
            from engine import char_table
            m = char_table(args[0], [(c.args[0].args, c.args[1]) for c in keep])
            if m is not None: return m
        return T('comp', args[0], *keep)
    return T(op, *args)

def subst(t, m, memo=None):
    if memo is None: memo = {}
    if not isinstance(t, T): return t
    r = m.get(t)
    if r is not None: return r
    r = memo.get(t)
    if r is not None: return r
    if not any(isinstance(a, T) for a in t.args): memo[t] = t; return t
    na = tuple(subst(a, m, memo) if isinstance(a, T) else a for a in t.args)
    r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t.op, na)
    memo[t] = r
    return r
