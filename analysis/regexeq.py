"""Do two regular expressions match the same texts?  Decided on the automata of the expressions, not by trying texts.
The supported syntax is literals, classes, groups, alternatives, repetitions, `.`, `\\s \\d \\w` and anchors at the ends."""
import re
try: import re._parser as sp, re._constants as sc
except ImportError: import sre_parse as sp, sre_constants as sc
class Unsupported(Exception): pass
TOP = 0x110000
def norm(iv):
    iv = sorted(iv); out = []
    for a, b in iv:
        if a > b: continue
        if out and a <= out[-1][1] + 1: out[-1] = (out[-1][0], max(out[-1][1], b))
        else: out.append((a, b))
    return tuple(out)
def negate(iv):
    out = []; p = 0
    for a, b in norm(iv):
        if p < a: out.append((p, a - 1))
        p = b + 1
    if p < TOP: out.append((p, TOP - 1))
    return tuple(out)
_cat = {}
def category(name):
    if name not in _cat:
        f = {'SPACE': r'\s', 'DIGIT': r'\d', 'WORD': r'\w'}[name.split('_')[-1]]
        rx = re.compile(f); iv = []; start = None
        for c in range(TOP):
            ok = not 0xd800 <= c < 0xe000 and rx.match(chr(c)) is not None
            # the white space of Unicode is without the separators U+001C to U+001F
            if ok and f == r'\s' and 0x1c <= c <= 0x1f: ok = False
            if ok and start is None: start = c
            if not ok and start is not None: iv.append((start, c - 1)); start = None
        if start is not None: iv.append((start, TOP - 1))
        _cat[name] = tuple(iv)
    iv = _cat[name]
    return negate(iv) if '_NOT_' in name else iv
class NFA:
    def __init__(self): self.eps = []; self.tr = []
    def new(self): self.eps.append([]); self.tr.append([]); return len(self.eps) - 1
def charset(items):
    iv = []; neg = False
    for op, av in items:
        if op is sc.NEGATE: neg = True
        elif op is sc.LITERAL: iv.append((av, av))
        elif op is sc.RANGE: iv.append(av)
        elif op is sc.CATEGORY: iv += category(str(av))
        else: raise Unsupported(str(op))
    iv = norm(iv)
    return negate(iv) if neg else iv
def fold(iv):
    """simple case folding of a class"""
    out = list(iv)
    for a, b in iv:
        if b - a > 5000: continue
        for c in range(a, b + 1):
            for d in (chr(c).lower(), chr(c).upper()):
                if len(d) == 1: out.append((ord(d), ord(d)))
    return norm(out)
def build(n, seq, s, ic, top=False, dotall=False):
    seq = list(seq)
    for k, (op, av) in enumerate(seq):
        e = n.new()
        if op is sc.LITERAL: n.tr[s].append((fold(((av, av),)) if ic else ((av, av),), e))
        elif op is sc.NOT_LITERAL: n.tr[s].append((negate(((av, av),)), e))
        elif op is sc.ANY: n.tr[s].append((negate(((10, 10),)) if not dotall else ((0, TOP - 1),), e))
        elif op is sc.IN:
            iv = charset(av); n.tr[s].append((fold(iv) if ic else iv, e))
        elif op is sc.BRANCH:
            for alt in av[1]:
                a = n.new(); n.eps[s].append(a); z = build(n, alt, a, ic, dotall=dotall); n.eps[z].append(e)
        elif op is sc.SUBPATTERN:
            if av[1] & ~sc.SRE_FLAG_IGNORECASE or av[2]: raise Unsupported('flags')
            z = build(n, av[3], s, ic or bool(av[1] & sc.SRE_FLAG_IGNORECASE), dotall=dotall); n.eps[z].append(e)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, body = av
            if lo > 50 or hi is not sc.MAXREPEAT and hi > 50: raise Unsupported('repetition')
            cur = s
            for _ in range(lo): cur = build(n, body, cur, ic, dotall=dotall)
            if hi is sc.MAXREPEAT:
                l = n.new(); n.eps[cur].append(l); z = build(n, body, l, ic, dotall=dotall); n.eps[z].append(l); n.eps[l].append(e)
            else:
                n.eps[cur].append(e)
                for _ in range(hi - lo): cur = build(n, body, cur, ic, dotall=dotall); n.eps[cur].append(e)
        else: raise Unsupported(str(op))
        s = e
    return s
def automaton(pat, whole=False):
    """the texts in which the expression has a match (or which it matches as a whole)"""
    if re.search(r'\\[pPbBAzZ]|\[\[|&&|\(\?P?<|\(\?[a-z]*[smxUu]|~~|--', pat): raise Unsupported(pat)
    tree = sp.parse(pat)
    ic = bool(tree.state.flags & re.I)
    seq = list(tree)
    n = NFA(); s = n.new()
    anyc = ((0, TOP - 1),)
    if seq and seq[0] == (sc.AT, sc.AT_BEGINNING): seq = seq[1:]
    elif not whole: n.tr[s].append((anyc, s))
    tail = True
    if seq and seq[-1] == (sc.AT, sc.AT_END): seq = seq[:-1]; tail = False
    b = n.new(); n.eps[s].append(b)
    z = build(n, seq, b, ic)
    if tail and not whole: n.tr[z].append((anyc, z))
    return n, s, z
def closure(n, st):
    st = set(st); work = list(st)
    while work:
        for e in n.eps[work.pop()]:
            if e not in st: st.add(e); work.append(e)
    return frozenset(st)
def same_texts(p, q, whole=False):
    """-> (True, None) or (False, a text that only one of them matches)"""
    A = automaton(p, whole); B = automaton(q, whole)
    cuts = {0}
    for n, _, _ in (A, B):
        for tr in n.tr:
            for iv, _ in tr:
                for a, b in iv: cuts.add(a); cuts.add(b + 1)
    cuts = sorted(c for c in cuts if c < TOP)
    def step(M, st, c):
        n = M[0]
        return closure(n, [t for s in st for iv, t in n.tr[s] if any(a <= c <= b for a, b in iv)])
    start = (closure(A[0], [A[1]]), closure(B[0], [B[1]]))
    seen = {start}; work = [(start, '')]
    while work:
        nxt = []
        for (x, y), w in work:
            if (A[2] in x) != (B[2] in y): return False, w
            for c in cuts:
                t = (step(A, x, c), step(B, y, c))
                if t not in seen:
                    seen.add(t); nxt.append((t, w + (chr(c) if not 0xd800 <= c < 0xe000 else '?')))
                    if len(seen) > 20000: raise Unsupported('too many states')
        work = nxt
    return True, None

# ------------------------------------------------- the same expression, written differently
LIMIT = 4000
def canonical(pat):
    """the expression as ordered alternatives: groups that capture nothing, common prefixes and optional parts are written out,
    so that two expressions with the same canonical form find the same matches with the same groups"""
    if re.search(r'\\[pPbBAzZ]|\[\[|&&|\(\?P?<|\(\?[a-z]*[smxUu]|~~|--', pat): raise Unsupported(pat)
    tree = sp.parse(pat)
    return (tree.state.flags & (re.I | re.S | re.M | re.X), alternatives(list(tree)))
def alternatives(seq):
    outs = [()]
    for op, av in seq:
        if op is sc.BRANCH: opts = [a for b in av[1] for a in alternatives(list(b))]
        elif op is sc.SUBPATTERN and av[0] is None and not av[1] and not av[2]: opts = list(alternatives(list(av[3])))
        elif op is sc.SUBPATTERN: opts = [(('group', av[0], av[1], av[2], alternatives(list(av[3]))),)]
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and tuple(av[:2]) == (0, 1):
            x = alternatives(list(av[2]))
            opts = (*x, ()) if op is sc.MAX_REPEAT else ((), *x)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT): opts = [((str(op), av[0], str(av[1]), alternatives(list(av[2]))),)]
        elif op is sc.LITERAL: opts = [(('set', ((av, av),)),)]
        elif op in (sc.NOT_LITERAL, sc.IN, sc.ANY):
            s = charset([(sc.NEGATE, None), (sc.LITERAL, av)]) if op is sc.NOT_LITERAL else charset(av) if op is sc.IN else None
            if s is not None and sum(b - a + 1 for a, b in s) <= 3: opts = [(('set', ((k, k),)),) for a, b in s for k in range(a, b + 1)]
            else: opts = [(('set', s),)]
        elif op is sc.AT: opts = [(('at', str(av)),)]
        else: raise Unsupported(str(op))
        if len(outs) * len(opts) > LIMIT: raise Unsupported('too many alternatives')
        outs = [o + x for o in outs for x in opts]
    outs = list(dict.fromkeys(outs))
    # alternatives that cannot both match at the same place may be listed in any order
    if 1 < len(outs) <= 600: outs = ordered(outs)
    return tuple(outs)
def ordered(outs):
    left = [(repr(o), o) for o in outs]
    before = [[m for m in range(n) if not apart(outs[m], outs[n])] for n in range(len(outs))]
    done = set(); res = []
    while len(res) < len(outs):
        n = min((n for n in range(len(outs)) if n not in done and all(m in done for m in before[n])), key=lambda n: left[n][0])
        done.add(n); res.append(outs[n])
    return res
def apart(a, b):
    """no text begins with a match of both"""
    for x, y in zip(a, b):
        if x[0] != 'set' or y[0] != 'set': return False
        p = x[1] if x[1] is not None else ((0, 9), (11, TOP - 1)); q = y[1] if y[1] is not None else ((0, 9), (11, TOP - 1))
        if not any(s <= v and u <= t for s, t in p for u, v in q): return True
    return False

_forms = {}; _texts = []
def representative(pat):
    """the first expression seen that is the same as this one up to how it is written"""
    try: k = canonical(pat)
    except Exception: k = pat
    return _forms.setdefault(k, pat)
_texts_of = {}
def representative_texts(pat):
    """the first expression seen that matches the same texts"""
    if pat not in _texts_of:
        for q in _texts:
            try:
                if same_texts(pat, q)[0]: _texts_of[pat] = q; break
            except Exception: pass
        else: _texts.append(pat); _texts_of[pat] = pat
    return _texts_of[pat]

# ------------------------------------------------- what one test on a text says about another one
def as_regex(kind, x):
    if kind == 're': return x
    x = ''.join('\\' + c if c in r'\.+*?()|[]{}^$#&~-' else c for c in x)
    return {'is': '^%s$', 'pre': '^%s', 'suf': '%s$', 'has': '%s'}[kind] % x
_rel = {}
def relation(p, q):
    """'yes' when every text with p has q, 'no' when none has, else None; a test is (is | pre | suf | has | re, text)"""
    (a, x), (b, y) = p, q
    if a != 're' and b != 're':
        holds = {'is': lambda t: t == y, 'pre': lambda t: t.startswith(y), 'suf': lambda t: t.endswith(y), 'has': lambda t: y in t}[b]
        if a == 'is': return 'yes' if holds(x) else 'no'
        if b == 'is': return None if relation(q, p) == 'yes' else 'no'
        if b == 'has' or a == b: 
            if holds(x): return 'yes'
        if a == b == 'pre': return None if y.startswith(x) else 'no'
        if a == b == 'suf': return None if y.endswith(x) else 'no'
        return None
    k = (p, q)
    if k not in _rel:
        try: _rel[k] = automata_relation(as_regex(*p), as_regex(*q))
        except Exception: _rel[k] = None
    return _rel[k]
def automata_relation(p, q):
    A = automaton(p); B = automaton(q)
    cuts = {0}
    for n, _, _ in (A, B):
        for tr in n.tr:
            for iv, _ in tr:
                for a, b in iv: cuts.add(a); cuts.add(b + 1)
    cuts = sorted(c for c in cuts if c < TOP)
    def step(M, st, c):
        n = M[0]
        return closure(n, [t for s in st for iv, t in n.tr[s] if any(a <= c <= b for a, b in iv)])
    start = (closure(A[0], [A[1]]), closure(B[0], [B[1]]))
    seen = {start}; work = [start]; both = only = False
    while work:
        x, y = work.pop()
        if A[2] in x:
            if B[2] in y: both = True
            else: only = True
            if both and only: return None
        for c in cuts:
            t = (step(A, x, c), step(B, y, c))
            if t not in seen and t[0]:
                seen.add(t); work.append(t)
                if len(seen) > 3000: return None
    return 'yes' if both and not only else 'no' if only and not both else None
