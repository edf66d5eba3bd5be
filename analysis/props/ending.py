"""Every walk ends: loops make progress, recursion descends.

A value is related to an earlier one in a well-founded order: a part of a value (field, element, rest of a list, an
iterator after a step), a node further on in the document, an ancestor of a node, a number towards a bound, a text with
fewer characters.  A loop ends when its iterations decrease lexicographically; a recursion ends when every cycle of
calls has an argument that decreases (size-change principle)."""
import re
from registry import prop
from rules import *
import rules as R_, engine as E
from terms import *

LT, LE = 'lt', 'le'
def join(a, b): return None if a is None or b is None else LT if LT in (a, b) else LE
def worst(rs):
    rs = list(rs)
    return None if not rs or any(r is None for r in rs) else LE if LE in rs else LT

FWD = ('get_first_child', 'get_next_sibling')
UP = ('get_parent',)
BACK = ('get_prev_sibling', 'get_parent')
KINDS = ('part', 'fwd', 'up', 'back', 'num', 'text')
LISTS = ('iter', 'icopied', 'rev', 'irev', 'sorted', 'ipeek')

class Order:
    def __init__(self, c):
        self.c = c; self.loops = {}; self.sums = {}
    def note(self, tr):
        for ev in tr:
            if ev[0] == 'loop':
                L = ev[1]
                for p in L.entry: self.loops[p] = L
                for x in list(L.iters) + list(L.exits): self.note(x.trace)
    # -- relation of a value to an earlier one
    def rel(self, kind, v, p, st=None, seen=()):
        """LT when v is below p, LE when below or the same, None when unknown"""
        if v is p: return LE
        if (v, kind) in seen or len(seen) > 60: return LE if (v, kind) in seen else None
        s2 = seen + ((v, kind),)
        go = lambda x: self.rel(kind, x, p, st, s2)
        o, a = v.op, v.args
        if o == 'phi' and v in self.loops:
            L = self.loops[v]
            r = [self.rel(kind, L.entry[v], p, st, s2)]
            if r[0] is None: return None
            for x in L.iters:
                if v in x.upd and x.upd[v] is not v and self.rel(kind, x.upd[v], v, x.st, ((v, kind),)) is None: return None
            return r[0]
        if kind == 'part': return self.part(v, p, st, s2)
        if kind in ('fwd', 'up', 'back'):
            steps = {'fwd': FWD, 'up': UP, 'back': BACK}[kind]; keep = {'fwd': (), 'up': ('get_next_sibling', 'get_prev_sibling'), 'back': ()}[kind]
            y = v
            if o == 'vf' and a[1] in ('Some', 'Ok'): y = a[0]
            elif o == 'item' or o in ('at', 'found', 'lastof', 'get'): return self.element(kind, a[0], p, st, s2)
            if y.op == 'app':
                n = y.args[0].split('::')[-1]
                if y.args[0].startswith('crate::'): return self.summary(kind, y, p, st, s2, 'ret')
                if n in steps and len(y.args) == 2: return LT if go(y.args[1]) else None
                if n in keep and len(y.args) == 2: return go(y.args[1])
                if n in ('clone', 'to_owned', 'into'): return go(y.args[-1])
            return None
        if kind == 'num' and st is not None:
            d = sub(v, p)
            if E.lin_parts(d)[1] == {}: k = E.lin_parts(d)[0]; return LT if k < 0 else LE if k == 0 else None
            if st.le0(add(d, Int(1))) is True: return LT
            return LE if st.le0(d) is True else None
        if kind == 'text': return self.text(v, p, st, s2)
        return None
    def part(self, v, p, st, seen):
        o, a = v.op, v.args
        go = lambda x: self.rel('part', x, p, st, seen)
        if o == 'upd' and len(a) == 3:
            # one field replaced by a part of it
            r = join(go(a[0]), LE)
            if r is None: return None
            f = E.get_field(a[0], a[1]) if isinstance(a[1], str) else None
            if f is None: return None
            q = self.rel('part', a[2], f, st, seen)
            return join(r, q)
        if o in ('fld', 'vf', 'at', 'item', 'found', 'lastof', 'get', 'tail', 'init', 'slice'):
            if o == 'slice': return go(a[0])
            x = a[0]
            if o in ('at', 'item', 'found', 'lastof', 'get') and x.op == 'app': return self.element('part', x, p, st, seen)
            if o == 'vf' and x.op == 'app' and x.args[0] in ('Iterator::next', 'peek') and len(x.args) == 2: x = x.args[1]
            r = go(x)
            return None if r is None else LT
        if o in LISTS: return go(a[0])
        if o == 'agg' and len(a) == 3 and a[0].startswith('alloc::boxed'): return go(a[2])
        if o == 'post':
            n = a[0]
            if n in ('Iterator::next', 'next') or n.endswith('Iterator::next') and not n.startswith('crate'):
                r = go(a[2])
                if r is None: return None
                done = st is not None and self.none(st, a[2])
                return r if done else LT
            if n.startswith('crate::'): return self.summary('part', v, p, st, seen, a[1])
        return None
    def none(self, st, x):
        """the iterator is known to have come to its end"""
        for t in (App('Iterator::next', x), App('peek', x), App('std::iter::Peekable::peek', x)):
            for k, w in st.facts.items():
                if k.op == 'disc' and k.args[0] is t and w.op == 'int': return E.all_discs(k.args[1]) is not None and w.args[0] == 0
        return st.facts.get(E.mk_empty(x)) is TRUE
    def element(self, kind, src, p, st, seen):
        """an element of a list"""
        go = lambda x: self.rel(kind, x, p, st, seen)
        if src.op == 'sibs':
            r = go(T('vf', src.args[0], 'Some', 0)) if src.args[0].op == 'app' else go(src.args[0])
            return r if kind in ('fwd', 'up') else None
        if src.op == 'vf' and src.args[1] in ('Some', 'Ok') and src.args[0].op == 'app' and src.args[0].args[0].startswith('crate::'): return self.summary(kind, src.args[0], p, st, seen, 'elem')
        if src.op in LISTS + ('tail', 'slice'): return self.element(kind, src.args[0], p, st, seen)
        if src.op == 'comp': return worst(self.element(kind, cs.args[1], p, st, seen) for cs in src.args[1:])
        if src.op == 'seq': return worst(self.element(kind, x, p, st, seen) if x.op != 'one' else go(x.args[0]) for x in src.args[1:] if isinstance(x, T))
        if src.op == 'app':
            n = src.args[0].split('::')[-1]
            if src.args[0].startswith('crate::'): return self.summary(kind, src, p, st, seen, 'elem')
            if n in ('get_child_nodes', 'get_child_elements', 'get_children', 'children') and kind in ('fwd', 'part'): return LT if go(src.args[1]) else None
        return None
    def summary(self, kind, y, p, st, seen, what):
        """what a function of the crate does with its argument"""
        path = y.args[0]; args = y.args[2:] if y.op == 'post' else y.args[1:]
        b = next((b for b in self.c.prog.bodies.values() if b.path == path and not b.closure), None)
        if b is None: return None
        ps = self.c.syms(b); best = None
        for q, a in zip(ps, args):
            r = self.rel(kind, a, p, st, seen)
            if r is None: continue
            key = (path, kind, q, what)
            if key not in self.sums:
                self.sums[key] = LE   # by induction over the calls
                self.sums[key] = self.summarise(b, kind, q, what, ps)
                if self.sums[key] is LT: self.sums[key] = self.summarise(b, kind, q, what, ps)
            s = self.sums[key]
            if s is not None:
                r = join(r, s)
                if r is LT: return LT
                best = r
        return best
    def summarise(self, b, kind, q, what, ps):
        rows, e, why = run_all(self.c, b)
        if rows is None: return None
        out = []
        for r in rows:
            self.note(r.trace)
            if what == 'ret' or what == 'elem':
                t = r.ret
                if t.op == 'agg' and t.args[1] in ('None', 'Err'): continue
                if t.op == 'agg' and t.args[1] in ('Some', 'Ok') and len(t.args) == 3: t = t.args[2]
                elif what == 'ret' and t.op == 'app': t = T('vf', t, 'Some', 0)
                out.append(self.rel(kind, t, q, r.st) if what == 'ret' else self.element(kind, t, q, r.st, ()))
            else:
                if what >= len(ps) or ps[what] is not q: return None
                m = r.mem()
                out.append(self.rel(kind, m.get(q, q), q, r.st))
        return worst(out)
    # -- texts
    def text(self, v, p, st, seen, after=False):
        """fewer characters that are no blanks, or as many and fewer blanks; LE: that or unchanged"""
        o, a = v.op, v.args
        go = lambda x: self.text(x, p, st, seen, True) if x is not p else LE
        r = None
        if o == 'app':
            n = a[0].split('.')[-1].split('::')[-1]
            if n in ('trim', 'trim_start', 'trim_end', 'strip_prefix', 'strip_suffix'): r = go(a[1])
            elif n == 'replace_all' and len(a) == 4 and self.shrinks(a[1], a[3], a[2].op == 'app' and a[2].args[0] == 'str.trim', after): r = self.rel('text', a[2], p, st, seen)
        if o in ('slice', 'tail'): r = go(a[0])
        if r is LE and st is not None and st.truth(E.mk_eq(v, p)) is False: return LT
        return r
    def shrinks(self, rx, by, trimmed, after):
        """replacing a match takes characters away, or changes nothing"""
        if by.op != 'str': return False
        pat = self.regex(rx)
        if pat is None: return False
        t = by.args[0]
        if re.fullmatch(r'(\$\d)+', t):
            g = [int(x) for x in re.findall(r'\d', t)]
            return g == list(range(1, len(g) + 1)) and flat_groups(pat) >= len(g)
        if '$' in t or t.strip(): return False
        try: forms = blank_matches(pat)
        except Exception: return False
        for n, start, end in forms:
            if n > len(t): continue
            if trimmed and n and (start or end): continue          # a trimmed text neither begins nor ends with a blank
            if trimmed and start and end and (after or not t): continue   # the empty text, trimmed again behind
            return False
        return True
    def regex(self, rx):
        for x in [rx]:
            if x.op == 'app' and x.args[0] == 'Regex' and x.args[1].op == 'str': return x.args[1].args[0]
            m = re.search(r'<([\w:]+) as std::ops::Deref>::deref', x.args[0]) if x.op == 'app' and isinstance(x.args[0], str) else None
            if m:
                b = next((b for b in self.c.prog.bodies.values() if b.path == x.args[0]), None)
                rows, e, why = self.c.run(b) if b is not None else (None, None, '')
                if rows and len(rows) == 1 and rows[0].ret is not rx: return self.regex(rows[0].ret)
        return None

def flat_groups(pat):
    """the number of groups, when they stand one after the other (no group in another, none repeated)"""
    import re._parser as sp, re._constants as sc
    try: t = sp.parse(pat)
    except Exception: return -1
    n = 0
    for op, av in t:
        if op is sc.SUBPATTERN and av[0] is not None:
            if inner_groups(av[3]): return -1
            n += 1
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and av[1] == 1 and len(av[2]) == 1 and av[2][0][0] is sc.SUBPATTERN and av[2][0][1][0] is not None and not inner_groups(av[2][0][1][3]): n += 1
        elif inner_groups([(op, av)]): return -1
    return n
def inner_groups(seq):
    import re._constants as sc
    def walk(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] is sc.SUBPATTERN and x[1][0] is not None: return True
        if isinstance(x, (tuple, list)) or hasattr(x, 'data'): return any(walk(y) for y in (x.data if hasattr(x, 'data') else x))
        return False
    return walk(seq)
def blank_matches(pat):
    """the matches without a character other than white space: (number of blanks up to 3, begins at the start, ends at the end)"""
    import re._parser as sp, re._constants as sc, regexeq
    def plus(A, B): return {(min(3, a[0] + b[0]), a[1] or b[1], a[2] or b[2]) for a in A for b in B}
    def seq(s):
        out = {(0, False, False)}
        for op, av in s: out = plus(out, item(op, av))
        return out
    def item(op, av):
        if op is sc.LITERAL: return {(1, False, False)} if chr(av).isspace() else set()
        if op is sc.IN:
            iv = regexeq.charset(av); bl = regexeq.category('CATEGORY_SPACE')
            return {(1, False, False)} if any(a <= d and c <= b for c, d in bl for a, b in iv) else set()
        if op in (sc.NOT_LITERAL, sc.ANY): return {(1, False, False)}
        if op is sc.SUBPATTERN: return seq(av[3])
        if op is sc.BRANCH: return set().union(*[seq(x) for x in av[1]])
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            one = seq(av[2]); out = set(); cur = {(0, False, False)}
            for k in range(0, min(int(av[1]), int(av[0]) + 4) + 1):
                if k >= av[0]: out |= cur
                cur = plus(cur, one)
            return out
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING): return {(0, True, False)}
            if av in (sc.AT_END, sc.AT_END_STRING): return {(0, False, True)}
            return {(0, False, False)}
        raise regexeq.Unsupported(str(op))
    return seq(sp.parse(re.sub(r'\\p\{[LN]u?l?\}', 'a', pat)))

def run_all(c, b): return c.run(b, opaque=lambda x: not x.closure, tag='ending')

def own(prog): return [b for b in sorted(prog.bodies.values(), key=lambda b: b.path) if '__spec' not in b.path and not b.closure and b.j['kind'] == 'fn']

def known_value(v, params, phis=()):
    """made of the parameters alone: parts of them, and nothing computed by a function"""
    if v in params: return True
    if v.op in ('fld', 'vf', 'at', 'item', 'tail', 'iter'): return all(known_value(x, params) for x in v.args if isinstance(x, T))
    return v.op in ('int', 'bool', 'char', 'str', 'unit') or v.op == 'agg' and all(known_value(x, params) for x in v.args if isinstance(x, T))

# -- loops
def loops_of(tr, out):
    for ev in tr:
        if ev[0] == 'loop':
            L = ev[1]; out.append(L)
            for x in list(L.iters) + list(L.exits): loops_of(x.trace, out)

def bounded(L, x, p, up):
    """a condition of the iteration keeps the number from passing a value that stays"""
    moving = {q for y in L.iters for q, v in y.upd.items() if v is not q}
    for k, v in x.facts.items():
        l = None
        if k.op == 'le0': l = k.args[0] if v is TRUE else mulc(k.args[0], -1) if v is FALSE else None
        if l is None: continue
        d = E.lin_parts(l)[1]
        if p in d and (d[p] > 0) == up and not any(contains(y, lambda z: z in moving) for y in d if y is not p): return True
    return False

def repeats(o, L, x):
    """what the round depends on is the same in the next one"""
    inner = set()
    for e in x.trace:
        if e[0] == 'loop': R_.loop_phis(e[1], inner)
    for k in x.facts:
        if k.op == 'unsigned': continue
        phis = set()
        contains(k, lambda y: y.op == 'phi' and phis.add(y))
        for p in phis:
            if p not in L.entry:
                if p in inner: return False
                continue
            v = x.upd.get(p, p)
            if v is p: continue
            if not (v.op == 'post' and v.args[0].endswith('next') and not v.args[0].startswith('crate') and v.args[2] is p and x.st is not None and o.none(x.st, p)): return False
    return True

def loop_ends(o, L):
    """(True, text) | (False, text) | (None, text)"""
    if not L.iters: return True, 'left in the first round'
    ms = []
    for p in L.entry:
        for k in ('part', 'fwd', 'up', 'back', 'text'): ms.append((p, k, lambda x, p=p, k=k: o.rel(k, x.upd.get(p, p), p, x.st)))
        def num(x, up, p=p):
            v = x.upd.get(p, p)
            if v is p: return LE
            d = sub(v, p)
            if not up: d = mulc(d, -1)
            c, ds = E.lin_parts(d)
            pos = c > 0 if not ds else x.st is not None and x.st.le0(sub(Int(1), d)) is True
            if not pos: return None
            return LT if bounded(L, x, p, up) else None
        ms.append((p, 'up to a bound', lambda x, num=num: num(x, True))); ms.append((p, 'down to a bound', lambda x, num=num: num(x, False)))
    left = list(L.iters); used = []
    while left:
        for p, k, f in ms:
            rs = [f(x) for x in left]
            if None not in rs and LT in rs:
                used.append('%s: %s' % (show(p)[:60], k)); left = [x for x, r in zip(left, rs) if r is not LT]; break
        else: break
    if not left: return True, '; '.join(used)
    extra = set(o.loops)
    for x in left:
        same = [p for p in L.entry if x.upd.get(p, p) is not p and o.rel('part', x.upd[p], p, x.st) is not LE]
        if any(why_open(k, extra) for k in x.facts if k.op != 'unsigned'): continue
        if repeats(o, L, x): return False, 'a round changes nothing it depends on, so it goes on forever: %s' % R_.facts_str(x.facts)[:300]
        if all(E.lin_parts(sub(x.upd[p], p))[1] == {} if E.lin_parts(x.upd[p])[1].get(p) == 1 else False for p in same) and len(same) == 1:
            k = E.lin_parts(sub(x.upd[same[0]], same[0]))[0]
            if bounded(L, x, same[0], k < 0): return False, 'a round moves %s away from its bound' % show(same[0])[:80]
    return None, 'no order found in which every round goes down: %s' % '; '.join('%s := %s' % (show(p)[:60], show(v)[:120]) for p, v in list(left[0].upd.items())[:4])

# -- recursion
def graph(prog):
    g = {}; top = {}
    bs = [b for b in prog.bodies.values() if '__spec' not in b.path]
    for b in bs: g[b.uid] = set()
    for b in bs:
        us = set()
        for f, t in callees(prog, b): us.add(f.get('ruid') or f.get('uid'))
        fo = []; fn_operands(b.blocks, fo)
        for f in fo: us.add(f.get('ruid') or f.get('uid'))
        g[b.uid] |= {u for u in us if u in g}
    # a closure belongs to the function that makes it
    for b in bs:
        for u in closures_of(prog, b):
            if u in g: top.setdefault(u, b.uid)
    def owner(u):
        n = 0
        while u in top and n < 20: u = top[u]; n += 1
        return u
    out = {}
    for u, s in g.items(): out.setdefault(owner(u), set()).update(owner(v) for v in s if v in g and not prog.bodies[v].closure)
    return out
def cycles(g):
    def reach(u):
        s = set(); w = list(g.get(u, ()))
        while w:
            v = w.pop()
            if v not in s: s.add(v); w += g.get(v, ())
        return s
    rs = {u: reach(u) for u in g}
    done = set(); out = []
    for u in sorted(g):
        if u in rs[u] and u not in done:
            scc = [v for v in rs[u] if u in rs.get(v, ())]
            done |= set(scc); out.append(scc)
    return out
def sites(tr, paths, out, st):
    for ev in tr:
        if ev[0] == 'loop':
            for x in list(ev[1].iters) + list(ev[1].exits): sites(x.trace, paths, out, x.st or st)
        elif ev[0] == 'call' and ev[1] in paths: out.append((ev[1], tuple(ev[2]), st))

def measures(c, b):
    ps = c.syms(b); out = []
    for i, p in enumerate(ps):
        for k in ('part', 'fwd', 'up', 'back', 'text'): out.append((k, (i,)))
    ints = [i for i, p in enumerate(ps) if c.prog.types[b.locals[i + 1][0]]['k'] in ('uint',) or 'usize' in str(c.prog.types[b.locals[i + 1][0]])]
    for i in ints: out.append(('num', (i,)))
    for i in ints:
        for j in ints:
            if i != j: out.append(('diff', (i, j)))
    return out

def gap(st, lo, hi, extra=()):
    """facts on the distance of two numbers, the first at most the second"""
    s = st.copy() if hasattr(st, 'copy') else st
    s.ineq = s.ineq + (sub(lo, hi),)
    k = 0
    while k < 4 and s.truth(E.mk_eq(hi, add(lo, Int(k)))) is False:
        k += 1; s.ineq = s.ineq + (add(sub(lo, hi), Int(k)),)
    for t in extra:
        def walk(x):
            if isinstance(x, T):
                if x.op == 'app' and x.args[0].endswith('div') or x.op == 'div':
                    n, d = x.args[-2:]
                    if d.op == 'int' and d.args[0] > 0:
                        s.ineq = s.ineq + (sub(mulc(x, d.args[0]), n), sub(n, add(mulc(x, d.args[0]), Int(d.args[0] - 1))))
                for y in x.args: walk(y)
        walk(t)
    return s

def forced(c, fb, gb, args, st, apart):
    """the function calls itself with numbers that are forced to be the same, and all else is the same"""
    if fb is not gb: return False
    ps = c.syms(fb); s = st
    for k, ij in measures(c, fb):
        if k == 'diff' and (fb.path, ij) not in apart and (fb.path, (ij[1], ij[0])) in apart: s = gap(s, ps[ij[0]], ps[ij[1]], args)
    def le(l): return any(s.le0(add(mulc(l, m), Int(1 - m))) is True for m in (1, 2))
    return all(a is p or le(sub(a, p)) and le(sub(p, a)) for a, p in zip(args, ps))
def arcs(o, c, fb, gb, args, st, apart):
    """the size-change graph of a call"""
    ps = c.syms(fb); out = {}
    for mf in measures(c, fb):
        for mg in measures(c, gb):
            if mf[0] != mg[0]: continue
            k = mf[0]
            if k == 'diff':
                if (fb.path, mf[1]) in apart or (gb.path, mg[1]) in apart: continue
                lo, hi = ps[mf[1][0]], ps[mf[1][1]]; a, b = args[mg[1][0]], args[mg[1][1]]
                s = gap(st, lo, hi, (a, b))
                d = sub(sub(b, a), sub(hi, lo))
                le = lambda l: any(s.le0(add(mulc(l, m), Int(1 - m))) is True for m in (1, 2))
                r = None if not le(sub(a, b)) else LT if le(add(d, Int(1))) else LE if le(d) else None
            else: r = o.rel(k, args[mg[1][0]], ps[mf[1][0]], st)
            if r: out[mf, mg] = r
    return out
def compose(g, h):
    out = {}
    for (a, b), r in g.items():
        for (b2, d), s in h.items():
            if b == b2:
                t = LT if LT in (r, s) else LE
                if out.get((a, d)) is not LT: out[a, d] = t
    return out

def recursion(o, c, scc):
    prog = c.prog
    bs = {prog.bodies[u].path: prog.bodies[u] for u in scc}
    out = []; gs = []; calls = []; apart = set()
    for path, b in sorted(bs.items()):
        rows, e, why = run_all(c, b)
        w = c.where(b)
        if rows is None: return [('open', b, path, why)]
        ss = []
        for r in rows:
            o.note(r.trace); sites(r.trace, bs, ss, r.st)
        want = {prog.bodies[v].path for v in graph_(c)[b.uid] if prog.bodies[v].path in bs}
        missing = want - {s[0] for s in ss}
        if missing: out.append(('open', b, path, 'a call of %s is not on an analysed path' % sorted(missing)[0]))
        calls += [(b, g, args, st) for g, args, st in ss]
    # a distance that some call is known to find negative is no measure
    for b, g, args, st in calls:
        ps = c.syms(b)
        for k, ij in measures(c, b):
            if k == 'diff' and st.le0(add(sub(ps[ij[1]], ps[ij[0]]), Int(1))) is True: apart.add((b.path, ij))
    for b, g, args, st in calls: gs.append((b.path, g, arcs(o, c, b, bs[g], args, st, apart), [(b.path, g, args, forced(c, b, bs[g], args, st, apart))]))
    c.sites += len(gs)
    # the closure under composition
    def key(x): return (x[0], x[1], frozenset(x[2].items()))
    seen = {}
    for x in gs: seen.setdefault(key(x), x)
    work = list(seen.values()); base = list(seen.values())
    while work and len(seen) < 4000:
        x = work.pop()
        for y in base:
            if x[1] != y[0]: continue
            z = (x[0], y[1], compose(x[2], y[2]), x[3] + y[3])
            if key(z) not in seen: seen[key(z)] = z; work.append(z)
    if len(seen) >= 4000: return out + [('open', bs[sorted(bs)[0]], sorted(bs)[0], 'too many kinds of cycles')]
    bad = {}
    for f, g, G, chain in seen.values():
        if f != g: continue
        if key((f, g, compose(G, G), 0)) != key((f, g, G, 0)): continue
        if any(a == b and r is LT for (a, b), r in G.items()): continue
        kn = all(same or all(known_value(a, set(c.syms(bs[p]))) for a in args) for p, q, args, same in chain)
        k = tuple((p, q, tuple(show(a) for a in args)) for p, q, args, same in chain)
        if len(chain) == 1 or not bad: bad[k] = ('bad' if kn else 'open', chain)
    for k, (s, chain) in bad.items():
        p, q, args, same = chain[0]
        text = 'called again with no argument smaller: %s' % ' → '.join('%s(%s)' % (q.split('::')[-1], ', '.join(show(a)[:70] for a in args)) for p, q, args, same in chain)
        ps = c.syms(bs[p])
        ty = lambda b, i: re.sub(r'<.*|&|mut |dyn ', '', c.prog.types[b.locals[i + 1][0]].get('txt', '')).split('::')[-1].strip() or 'value'
        src = [ty(bs[p], i) for a in args for i, x in enumerate(ps) if a is not x and contains(a, lambda y: y is x)]
        k = 'same arguments' if all(a in ps for a in args) else '%s from %s' % (' '.join(sorted({ty(bs[q], i) for i, a in enumerate(args) if a not in ps})), ' '.join(sorted(set(src))) or 'nothing')
        out.append((s, bs[p], k, text))
    if not out: out.append(('ok', bs[sorted(bs)[0]], sorted(bs)[0], '%d calls, %d kinds of cycles' % (len(gs), len(seen))))
    return out
def graph_(c):
    if not hasattr(c, '_graph'): c._graph = graph(c.prog)
    return c._graph

@prop('P33')
def ending(c):
    o = Order(c)
    rule = 'every round of a loop goes down in a well-founded order'
    n = 0
    for b in own(c.prog):
        rows, e, why = run_all(c, b)
        if rows is None:
            c.open('loops/' + b.path.replace('crate::', ''), rule, c.where(b), why); continue
        Ls = []
        for r in rows: o.note(r.trace); loops_of(r.trace, Ls)
        seen = set(); res = {}
        for L in e.endless: o.note((('loop', L, None),))
        Ls += e.endless
        for L in Ls:
            if id(L) in seen: continue
            seen.add(id(L))
            if L.prim is not None and not unbounded(L.prim): res.setdefault(True, []).append('walks over a list'); continue
            v, d = loop_ends(o, L)
            res.setdefault(v, []).append(d)
        oid = 'loops/' + b.path.replace('crate::', '')
        n += len(seen)
        if False in res: c.bad(oid, rule, c.where(b), res[False][0])
        elif None in res: c.open(oid, rule, c.where(b), res[None][0])
        elif res: c.ok(oid, rule, c.where(b), '%d loops' % len(seen))
    rule = 'every cycle of calls has an argument that gets smaller'
    for scc in cycles(graph_(c)):
        for s, b, k, d in recursion(o, c, scc):
            oid = 'recursion/' + (k if ' from ' in k else b.path.replace('crate::', '') + ('' if s == 'ok' else '/' + k.replace('crate::', '')))
            {'ok': c.ok, 'bad': c.bad, 'open': c.open}[s](oid, rule, c.where(b), d)

def unbounded(p): return contains(p, lambda x: x.op == 'app' and x.args[0].split('::')[-1] in ('repeat', 'cycle', 'repeat_with', 'from_fn', 'successors', 'RangeFrom'))
