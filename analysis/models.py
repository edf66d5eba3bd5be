"""Abstract meaning of the library functions llamapun calls.

Each model maps the abstract arguments to the possible results (a list of states, `ret` set).  A model
may fork on a condition; conditions and results are terms, so two programs that reach the same library
facts by different calls (a loop or an iterator chain, `if let` or `map_or`) get the same terms."""
import re, regexeq
from terms import *
import engine as E

REG = {}
def m(*names):
    def d(f):
        for n in names: REG[n] = f
        return f
    return d

def strip_generics(p):
    out = []; d = 0; i = 0
    while i < len(p):
        if p.startswith('::<impl ', i) and d == 0:
            # `core::str::<impl str>::x` -> `core::str::str::x`
            j = i + 8; dd = 1; k = j
            while dd:
                if p[k] == '<': dd += 1
                if p[k] == '>' and p[k - 1] != '-': dd -= 1
                k += 1
            inner = p[j:k - 1]
            out.append('::{' + inner + '}'); i = k; continue
        if p.startswith('::<', i) and d == 0:
            k = i + 3; dd = 1
            while dd:
                if p[k] == '<': dd += 1
                if p[k] == '>' and p[k - 1] != '-': dd -= 1
                k += 1
            i = k; continue
        out.append(p[i]); i += 1
    return ''.join(out)

_key_cache = {}
def keys(f):
    p = f.get('rpath') or f['path']
    tr = f.get('trait')
    kk = (p, tr, f.get('name'))
    r = _key_cache.get(kk)
    if r is None:
        r = []
        sp = strip_generics(p).replace('core::', 'std::', 1) if p.startswith('core::') else strip_generics(p)
        r.append(sp)
        if p != f['path']: r.append(strip_generics(f['path']))
        if tr: r.append(strip_generics(tr) + '::' + (f.get('name') or ''))
        _key_cache[kk] = r
    return r

def lookup(f):
    for k in keys(f):
        x = REG.get(k)
        if x is not None: return x
    return None

LOCAL = {}
def lookup_local(b):
    p = b.path
    # lazy_static: `impl Deref for NAME` is a cached constant
    return None

PURE_PREFIX = ('std::', 'core::', 'alloc::', 'libxml::', 'regex::', 'senna::', 'whatlang::', 'unidecode::', 'rustmorpha::', 'str.', 'char.', 'crypto::', 'closure', 'walkdir::', 'libc')
IMPURE = ('std::fs::File', 'std::fs::OpenOptions', 'std::fs::write', 'std::fs::remove', 'std::fs::create', 'std::fs::rename', 'std::fs::copy', 'std::fs::read', 'std::io::Write', 'std::process', 'std::io::BufWriter', 'std::sync::Mutex', 'libxml::tree::Node::', 'libxml::tree::Document::', 'gnuplot', 'std::fs::File', 'crypto::digest', 'std::io::Read', 'crypto::')
GETTER = re.compile(r'libxml::tree::(Node|Document)::(get_\w+|has_\w+|is_\w+|node_to_string|ronode_to_string|to_string\w*|findnodes|findvalues?|at_xpath|lookup_\w+|attribute|property)$')
def reads_only(name, events):
    """looking at a document is no effect while nothing has changed it"""
    return GETTER.match(name) is not None and not any(e[0] == 'call' and e[1].startswith('libxml::tree::') and not GETTER.match(e[1]) for e in events)
def is_pure(name):
    if name.startswith(IMPURE): return False
    if name.startswith('Iterator::') and name != 'Iterator::next': return True
    if 'io::Write' in name or 'Digest' in name: return False
    return name.startswith(PURE_PREFIX) or not ('::' in name)

def ret(st, v):
    st.ret = v
    return [st]

def mloc(st, a):
    loc = st.deref(a); v = st.read(loc); n = 0
    while v.op == 'ref' and n < 8: loc = v.args[0]; v = st.read(loc); n += 1
    return loc

# ------------------------------------------------------------------------- options and results
def split2(eng, st, v, path, names):
    """[(state, variant name)] for a two-variant enum value"""
    v = st.load(v) if v.op == 'ref' else v
    if v.op == 'agg': return [(st, v.args[1], v)]
    d = T('disc', v, path)
    out = []
    k = st.known(d)
    if k is not None: return [(st, names[k.args[0]], v)]
    for i, n in enumerate(names):
        s = st.copy() if i == 0 else st
        if s.assume_val(d, Int(i)): out.append((s, n, v))
    return out
def osplit(eng, st, v): return split2(eng, st, v, OPT, ('None', 'Some'))
def rsplit(eng, st, v): return split2(eng, st, v, RES, ('Ok', 'Err'))
def pay(v, variant): return E.get_vf(v, variant, 0)

def is_res(f): return 'result::Result' in (f.get('rpath') or f['path'])
def xsplit(eng, st, v, f):
    """split an Option or Result: [(state, good?, payload)]"""
    if is_res(f): return [(s, n == 'Ok', pay(w, n)) for s, n, w in rsplit(eng, st, v)]
    return [(s, n == 'Some', pay(w, 'Some') if n == 'Some' else None) for s, n, w in osplit(eng, st, v)]

O = 'std::option::Option::'; R = 'std::result::Result::'
@m(O + 'is_some', R + 'is_ok')
def _(eng, st, a, i):
    v = st.load(a[0]); res = is_res(i.f)
    if v.op == 'agg': return ret(st, Bool(v.args[1] in ('Some', 'Ok')))
    d = T('disc', v, RES if res else OPT)
    return ret(st, E.mk_eq(d, Int(0 if res else 1)) if st.known(d) is None else Bool(st.known(d).args[0] == (0 if res else 1)))
@m(O + 'is_none', R + 'is_err')
def _(eng, st, a, i):
    v = st.load(a[0]); res = is_res(i.f)
    if v.op == 'agg': return ret(st, Bool(v.args[1] in ('None', 'Err')))
    d = T('disc', v, RES if res else OPT)
    if st.known(d) is not None: return ret(st, Bool(st.known(d).args[0] == (1 if res else 0)))
    return ret(st, E.mk_not(E.mk_eq(d, Int(0 if res else 1))))
@m(O + 'unwrap', O + 'expect', R + 'unwrap', R + 'expect')
def _(eng, st, a, i):
    out = []
    for s, ok, x in xsplit(eng, st, a[0], i.f):
        if ok: s.ret = x; out.append(s)
        else: eng.panic(s, 'unwrap', i.site, show(st.load(a[0])))
    return out
@m(R + 'unwrap_err', R + 'expect_err')
def _(eng, st, a, i):
    out = []
    for s, ok, x in xsplit(eng, st, a[0], i.f):
        if not ok: s.ret = x; out.append(s)
        else: eng.panic(s, 'unwrap', i.site, show(st.load(a[0])))
    return out
@m(O + 'unwrap_or', R + 'unwrap_or')
def _(eng, st, a, i):
    out = []
    for s, ok, x in xsplit(eng, st, a[0], i.f): s.ret = x if ok else a[1]; out.append(s)
    return out
def default_of(eng, ty, st=None):
    if ty is None: return None
    t = ty['txt']
    if t in ('usize', 'u8', 'u16', 'u32', 'u64', 'i32', 'i64', 'isize', 'u128', 'i8', 'i16'): return Int(0)
    if t == 'bool': return FALSE
    if t in ('std::string::String', "&str") or t.endswith(' str'): return EMPTY_S
    p = ty.get('path', '')
    if p in ('std::vec::Vec', 'std::collections::VecDeque'): return EMPTY_L
    if p in ('std::collections::HashMap', 'std::collections::BTreeMap', 'std::collections::HashSet'): return T('map0')
    if p == OPT: return NONE
    return local_default(eng, ty, st)
def local_default(eng, ty, st):
    """the value of the crate's own `impl Default`"""
    if st is None: return None
    for t, u in eng.prog.impl_methods.get(('std::default::Default', 'default'), []):
        tt = eng.prog.types[t] if isinstance(t, int) else t
        if (tt['txt'] if isinstance(tt, dict) else tt) != ty['txt']: continue
        b = eng.prog.bodies.get(u)
        if b is None: return None
        s = st.copy(); rs = eng.run_fn(s, b, [])
        if len(rs) == 1 and rs[0].trace == st.trace: return rs[0].val(rs[0].ret)
    return None
@m(O + 'unwrap_or_default', R + 'unwrap_or_default')
def _(eng, st, a, i):
    out = []
    for s, ok, x in xsplit(eng, st, a[0], i.f):
        d = default_of(eng, i.dty, st)
        s.ret = x if ok else (d if d is not None else App('default', Str(i.dty['txt'] if i.dty else '?'))); out.append(s)
    return out
@m(O + 'unwrap_or_else', R + 'unwrap_or_else')
def _(eng, st, a, i):
    out = []
    for s, ok, x in xsplit(eng, st, a[0], i.f):
        if ok: s.ret = x; out.append(s)
        else: out += eng.call_value(s, a[1], [x] if is_res(i.f) else [], i.site)
    return out
@m(O + 'map', R + 'map')
def _(eng, st, a, i):
    out = []; res = is_res(i.f)
    for s, ok, x in xsplit(eng, st, a[0], i.f):
        if not ok: s.ret = Err(x) if res else NONE; out.append(s)
        else:
            for t in eng.call_value(s, a[1], [x], i.site): t.ret = (Ok if res else Some)(t.ret); out.append(t)
    return out
@m(R + 'map_err')
def _(eng, st, a, i):
    out = []
    for s, ok, x in xsplit(eng, st, a[0], i.f):
        if ok: s.ret = Ok(x); out.append(s)
        else:
            for t in eng.call_value(s, a[1], [x], i.site): t.ret = Err(t.ret); out.append(t)
    return out
@m(O + 'map_or', R + 'map_or')
def _(eng, st, a, i):
    out = []
    for s, ok, x in xsplit(eng, st, a[0], i.f):
        if not ok: s.ret = a[1]; out.append(s)
        else: out += eng.call_value(s, a[2], [x], i.site)
    return out
@m(O + 'map_or_else', R + 'map_or_else')
def _(eng, st, a, i):
    out = []
    for s, ok, x in xsplit(eng, st, a[0], i.f):
        if not ok: out += eng.call_value(s, a[1], [x] if is_res(i.f) else [], i.site)
        else: out += eng.call_value(s, a[2], [x], i.site)
    return out
@m(O + 'is_some_and', R + 'is_ok_and', O + 'is_none_or')
def _(eng, st, a, i):
    out = []; none_or = keys(i.f)[0].endswith('is_none_or')
    for s, ok, x in xsplit(eng, st, a[0], i.f):
        if not ok: s.ret = Bool(none_or); out.append(s)
        else: out += eng.call_value(s, a[1], [x], i.site)
    return out
@m(O + 'and_then', R + 'and_then')
def _(eng, st, a, i):
    out = []; res = is_res(i.f)
    for s, ok, x in xsplit(eng, st, a[0], i.f):
        if not ok: s.ret = Err(x) if res else NONE; out.append(s)
        else: out += eng.call_value(s, a[1], [x], i.site)
    return out
@m(O + 'filter')
def _(eng, st, a, i):
    out = []
    for s, ok, x in xsplit(eng, st, a[0], i.f):
        if not ok: s.ret = NONE; out.append(s)
        else:
            for t in eng.call_value(s, a[1], [x], i.site):
                for u, v in bfork(t, t.ret): u.ret = Some(x) if v else NONE; out.append(u)
    return out
@m(O + 'or', R + 'or')
def _(eng, st, a, i):
    out = []
    for s, ok, x in xsplit(eng, st, a[0], i.f): s.ret = (Ok(x) if is_res(i.f) else Some(x)) if ok else a[1]; out.append(s)
    return out
@m(O + 'or_else', R + 'or_else')
def _(eng, st, a, i):
    out = []
    for s, ok, x in xsplit(eng, st, a[0], i.f):
        if ok: s.ret = Ok(x) if is_res(i.f) else Some(x); out.append(s)
        else: out += eng.call_value(s, a[1], [x] if is_res(i.f) else [], i.site)
    return out
@m(O + 'ok_or')
def _(eng, st, a, i):
    out = []
    for s, ok, x in xsplit(eng, st, a[0], i.f): s.ret = Ok(x) if ok else Err(a[1]); out.append(s)
    return out
@m(O + 'ok_or_else')
def _(eng, st, a, i):
    out = []
    for s, ok, x in xsplit(eng, st, a[0], i.f):
        if ok: s.ret = Ok(x); out.append(s)
        else:
            for t in eng.call_value(s, a[1], [], i.site): t.ret = Err(t.ret); out.append(t)
    return out
@m(R + 'ok')
def _(eng, st, a, i):
    out = []
    for s, ok, x in xsplit(eng, st, a[0], i.f): s.ret = Some(x) if ok else NONE; out.append(s)
    return out
@m(R + 'err')
def _(eng, st, a, i):
    out = []
    for s, ok, x in xsplit(eng, st, a[0], i.f): s.ret = NONE if ok else Some(x); out.append(s)
    return out
@m(O + 'as_ref', O + 'as_deref', R + 'as_ref', O + 'cloned', O + 'copied', R + 'as_deref')
def _(eng, st, a, i): return ret(st, st.load(a[0]))
@m(O + 'as_mut', O + 'as_deref_mut')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); out = []
    for s, ok, x in xsplit(eng, st, st.read(loc), i.f):
        s.ret = Some(T('ref', (loc[0], loc[1] + (('v', 'Some'), ('f', '0', 0))))) if ok else NONE; out.append(s)
    return out
@m(O + 'take')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc); st.write(loc, NONE); return ret(st, v)
@m(O + 'replace', 'std::mem::replace')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc)
    st.write(loc, Some(a[1]) if keys(i.f)[0].startswith(O) else a[1]); return ret(st, v)
@m('std::mem::take')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc)
    d = default_of(eng, i.dty, st)
    st.write(loc, d if d is not None else App('default', Str(i.dty['txt'] if i.dty else '?'))); return ret(st, v)
@m('std::mem::swap')
def _(eng, st, a, i):
    l1, l2 = mloc(st, a[0]), mloc(st, a[1]); x, y = st.read(l1), st.read(l2)
    st.write(l1, y); st.write(l2, x); return ret(st, UNIT)
@m('std::ops::Try::branch')
def _(eng, st, a, i):
    out = []; res = 'Result' in keys(i.f)[0] or 'result::Result' in (i.atys[0]['txt'] if i.atys else '')
    for s, ok, x in xsplit(eng, st, a[0], {'path': 'std::result::Result' if res else 'Option'}):
        s.ret = T('agg', CF, 'Continue', x) if ok else T('agg', CF, 'Break', Err(x) if res else NONE); out.append(s)
    return out
@m('std::ops::FromResidual::from_residual')
def _(eng, st, a, i):
    v = st.load(a[0])
    return ret(st, v)
@m('std::ops::Try::from_output')
def _(eng, st, a, i): return ret(st, Ok(a[0]) if 'Result' in (i.dty or {}).get('txt', '') else Some(a[0]))

# ------------------------------------------------------------------------- identities
def ident(eng, st, a, i): return ret(st, st.load(a[0]) if a[0].op == 'ref' else a[0])
def snap(eng, st, a, i): return ret(st, st.val(a[0]))
for n in ('std::ops::Deref::deref', 'std::borrow::Borrow::borrow', 'std::convert::AsRef::as_ref', 'std::string::String::as_str', 'std::vec::Vec::as_slice', 'std::string::String::as_bytes',
          'std::borrow::ToOwned::to_owned', 'std::clone::Clone::clone', 'std::string::String::from', 'std::string::String::into_boxed_str', 'std::slice::{[T]}::to_vec', 'std::slice::{[T]}::into_vec', 'core::slice::{[T]}::to_vec', 'std::borrow::Cow::into_owned',
          'std::borrow::Cow::to_mut', 'std::string::String::into_string', 'std::str::{str}::into_string', 'std::str::{str}::as_bytes',  'std::path::Path::to_path_buf', 'std::str::{str}::as_str', 'std::slice::{[T]}::as_slice'):
    REG[n] = snap
for n in ('std::boxed::Box::new', 'std::sync::Arc::new', 'std::rc::Rc::new', 'std::hint::must_use', 'std::convert::identity', 'std::cell::RefCell::new', 'std::cell::Cell::new', 'std::sync::Mutex::new',
          'std::vec::Vec::into_boxed_slice', 'std::boxed::Box::into_inner', 'std::sync::Arc::clone', 'std::mem::ManuallyDrop::new', 'std::convert::Into::into', 'std::convert::From::from', 'std::cmp::Reverse', 'std::hint::black_box'):
    REG[n] = lambda eng, st, a, i: ret(st, a[0])
@m('std::convert::Into::into', 'std::convert::From::from')
def _(eng, st, a, i):
    v = a[0]
    if i.dty and i.atys:
        src, dst = i.atys[0]['txt'], i.dty['txt']
        if dst == 'std::string::String' and src == 'char': return ret(st, mk_seq('s', [One(v)]))
        if dst.startswith('std::collections::HashMap<') and not src.startswith('std::collections'): return ret(st, map_of(as_list(st.val(v))))
        if dst.startswith('std::collections::HashSet<') and not src.startswith('std::collections'): return ret(st, T('setof', as_list(st.val(v))))
        if 'String' in dst or dst.endswith('str'): return ret(st, st.val(v))
    return ret(st, v)
@m('std::ops::DerefMut::deref_mut', 'std::convert::AsMut::as_mut', 'std::vec::Vec::as_mut_slice', 'std::borrow::BorrowMut::borrow_mut', 'std::iter::Iterator::by_ref')
def _(eng, st, a, i):
    v = st.load(a[0])
    if v.op == 'guard': return ret(st, v.args[0])
    return ret(st, T('ref', mloc(st, a[0])))
@m('std::ops::Deref::deref')
def _(eng, st, a, i):
    v = st.load(a[0])
    if v.op == 'guard': return ret(st, v.args[0])
    return ret(st, st.val(a[0]))
@m('std::sync::Mutex::lock')
def _(eng, st, a, i):
    v = a[0]
    st.emit(('call', 'Mutex::lock', (st.val(v),), None, i.site))
    r = v
    return ret(st, Ok(T('guard', r)))
@m('std::string::ToString::to_string')
def _(eng, st, a, i):
    t = i.atys[0] if i.atys else None
    return ret(st, to_text(eng, st, a[0], t))
@m('std::boxed::Box::new_uninit')
def _(eng, st, a, i):
    root = ('H', 'box', len(eng.stack), eng.stack[-1].uid[-20:] if eng.stack else '', i.site)
    st.mem[root] = T('uninit', 'box')
    return ret(st, T('ref', (root, ())))
@m('std::boxed::box_assume_init_into_vec_unsafe')
def _(eng, st, a, i): return ret(st, as_list(st.val(a[0])))
@m('lazy_static::lazy::Lazy::get')
def _(eng, st, a, i):
    rs = eng.call_value(st, a[1], [], i.site)
    return rs
@m('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once')
def _(eng, st, a, i):
    args = list(a[1].args[2:]) if a[1].op == 'agg' else ([] if a[1] is UNIT else [a[1]])
    t = i.atys[1] if i.atys and len(i.atys) > 1 else None
    return eng.call_value(st, a[0], args, i.site, [None] + [eng.prog.types[x] for x in t['ts']] if t is not None and t['k'] == 'tuple' and len(t['ts']) == len(args) else None)
@m('std::default::Default::default')
def _(eng, st, a, i):
    d = default_of(eng, i.dty, st)
    return ret(st, d if d is not None else App('default', Str(i.dty['txt'] if i.dty else '?')))

# ------------------------------------------------------------------------- comparison
def bfork(st, c):
    tv = st.truth(c)
    if tv is not None: return [(st, tv)]
    a = st.copy(); out = []
    if a.assume(c, True): out.append((a, True))
    if st.assume(c, False): out.append((st, False))
    return out
def equality(eng, st, a, i):
    x, y = st.val(a[0]), st.val(a[1])
    os = ['OsStr' in t['txt'] for t in i.atys] if i.atys and len(i.atys) == 2 else [False, False]
    # operating-system text equals a text if it is valid and is that text
    if os[0] and not os[1]: x, y = App(OS_TEXT, x), Some(y)
    elif os[1] and not os[0]: x, y = Some(x), App(OS_TEXT, y)
    return E.mk_eq(x, y)
OS_TEXT = 'std::ffi::OsStr::to_str'
@m('std::cmp::PartialEq::eq')
def _(eng, st, a, i): return ret(st, equality(eng, st, a, i))
@m('std::cmp::PartialEq::ne')
def _(eng, st, a, i): return ret(st, E.mk_not(equality(eng, st, a, i)))
def isint(i, k=0):
    if not i.atys: return True
    t = i.atys[k]['txt'].lstrip('&')
    return t in ('usize', 'u64', 'u32', 'i32', 'i64', 'u8', 'u16', 'isize', 'u128', 'i128')
@m('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge')
def _(eng, st, a, i):
    x, y = st.val(a[0]), st.val(a[1]); n = i.f['name']
    if n in ('gt', 'ge'): x, y = y, x
    if isint(i): return ret(st, E.mk_lt(x, y) if n in ('lt', 'gt') else E.mk_le(x, y))
    return ret(st, App('lt' if n in ('lt', 'gt') else 'le', x, y))
@m('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp')
def _(eng, st, a, i):
    r = cmp_term(st.val(a[0]), st.val(a[1]))
    if r.op == 'app' and i.atys and isint(i): E.INTCMP.add(r)
    return ret(st, Some(r) if i.f['name'] == 'partial_cmp' else r)
def cmp_term(x, y):
    if x is y: return T('agg', 'std::cmp::Ordering', 'Equal')
    if x.op == 'agg' and y.op == 'agg' and x.args[0] == 'std::cmp::Reverse' and y.args[0] == 'std::cmp::Reverse': return cmp_term(y.args[2], x.args[2])
    return App('cmp', x, y)
@m('std::cmp::Ordering::reverse')
def _(eng, st, a, i):
    v = a[0]
    if v.op == 'app' and v.args[0] == 'cmp': return ret(st, App('cmp', v.args[2], v.args[1]))
    return ret(st, App('cmp.reverse', v))
@m('std::cmp::Ordering::then', 'std::cmp::Ordering::then_with')
def _(eng, st, a, i):
    if i.f['name'] == 'then': return ret(st, App('cmp.then', a[0], a[1]))
    out = []
    for s in eng.call_value(st, a[1], [], i.site): s.ret = App('cmp.then', a[0], s.ret); out.append(s)
    return out
@m('std::cmp::min', 'std::cmp::Ord::min')
def _(eng, st, a, i):
    x, y = a[0], a[1]; out = []
    for s, v in bfork(st, E.mk_le(x, y)): s.ret = x if v else y; out.append(s)
    return out
@m('std::cmp::max', 'std::cmp::Ord::max')
def _(eng, st, a, i):
    x, y = a[0], a[1]; out = []
    for s, v in bfork(st, E.mk_le(x, y)): s.ret = y if v else x; out.append(s)
    return out

# ------------------------------------------------------------------------- integers
@m('std::num::{usize}::saturating_sub')
def _(eng, st, a, i):
    out = []
    for s, v in bfork(st, E.mk_le(a[0], a[1])): s.ret = Int(0) if v else sub(a[0], a[1]); out.append(s)
    return out
@m('std::num::{usize}::checked_sub')
def _(eng, st, a, i):
    out = []
    for s, v in bfork(st, E.mk_lt(a[0], a[1])): s.ret = NONE if v else Some(sub(a[0], a[1])); out.append(s)
    return out
@m('std::num::{usize}::checked_add')
def _(eng, st, a, i): return ret(st, Some(add(a[0], a[1])))
@m('std::num::{usize}::saturating_add', 'std::num::{usize}::wrapping_add', 'std::ops::Add::add')
def _(eng, st, a, i):
    if i.f.get('name') == 'add' and i.dty and 'String' in i.dty['txt']: return ret(st, cat_s(st.val(a[0]), st.val(a[1])))
    return ret(st, add(st.val(a[0]), st.val(a[1])))
@m('std::ops::Sub::sub')
def _(eng, st, a, i): return ret(st, sub(st.val(a[0]), st.val(a[1])))
@m('std::ops::AddAssign::add_assign')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc)
    if i.atys and 'String' in i.atys[0]['txt']: st.write(loc, cat_s(v, st.val(a[1])))
    else: st.write(loc, add(v, st.val(a[1])))
    return ret(st, UNIT)
@m('std::ops::SubAssign::sub_assign')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); st.write(loc, sub(st.read(loc), st.val(a[1]))); return ret(st, UNIT)
@m('std::ops::Not::not')
def _(eng, st, a, i): return ret(st, E.mk_not(st.val(a[0])))

# ------------------------------------------------------------------------- lists and text
def as_list(v):
    if v.op == 'agg' and v.args[0] == 'array': return mk_seq('l', [One(x) for x in v.args[2:]]) if len(v.args) > 2 else EMPTY_L
    return v
V = 'std::vec::Vec::'; S = 'std::string::String::'; D = 'std::collections::VecDeque::'
for n in ('new', 'with_capacity'):
    REG[V + n] = REG[D + n] = lambda eng, st, a, i: ret(st, EMPTY_L)
    REG[S + n] = lambda eng, st, a, i: ret(st, EMPTY_S)
def noop(eng, st, a, i): return ret(st, UNIT)
for n in (V + 'reserve', S + 'reserve', V + 'shrink_to_fit', S + 'shrink_to_fit', D + 'reserve', 'std::collections::HashMap::reserve'): REG[n] = noop
@m(V + 'push', D + 'push_back')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); st.write(loc, cat_l(st.read(loc), mk_seq('l', [One(a[1])]))); return ret(st, UNIT)
@m(D + 'push_front')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); st.write(loc, cat_l(mk_seq('l', [One(a[1])]), st.read(loc))); return ret(st, UNIT)
@m(V + 'clear', D + 'clear')
def _(eng, st, a, i): st.write(mloc(st, a[0]), EMPTY_L); return ret(st, UNIT)
@m(S + 'clear')
def _(eng, st, a, i): st.write(mloc(st, a[0]), EMPTY_S); return ret(st, UNIT)
@m(S + 'push')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); st.write(loc, cat_s(st.read(loc), mk_seq('s', [One(a[1])]))); return ret(st, UNIT)
@m(S + 'push_str')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); st.write(loc, cat_s(st.read(loc), st.val(a[1]))); return ret(st, UNIT)
@m(V + 'extend_from_slice')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); st.write(loc, cat_l(st.read(loc), as_list(st.val(a[1])))); return ret(st, UNIT)
@m(V + 'append')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); l2 = mloc(st, a[1]); x = st.read(l2)
    st.write(loc, cat_l(st.read(loc), x)); st.write(l2, EMPTY_L); return ret(st, UNIT)
def m_len(eng, st, a, i): return ret(st, E.mk_len(as_list(st.val(a[0]))))
def m_empty(eng, st, a, i): return ret(st, E.mk_empty(as_list(st.val(a[0]))))
for n in (V, S, D, 'std::str::{str}::', 'std::slice::{[T]}::', 'std::collections::HashMap::', 'std::collections::HashSet::'):
    REG[n + 'len'] = m_len; REG[n + 'is_empty'] = m_empty
@m(V + 'pop', S + 'pop', D + 'pop_back')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc); out = []
    for s, e in bfork(st, E.mk_empty(v)):
        if e: s.ret = NONE
        elif v.op == 'seq' and v.args[-1].op == 'one':
            s.ret = Some(v.args[-1].args[0]); s.write(loc, mk_seq(v.args[0], list(v.args[1:-1])))
        elif v.op == 'seq' and v.args[-1].op == 'str' and v.args[-1].args[0]:
            x = v.args[-1].args[0]; s.ret = Some(Chr(x[-1])); s.write(loc, mk_seq(v.args[0], list(v.args[1:-1]) + ([Str(x[:-1])] if x[1:] else [])))
        elif v.op == 'str': s.ret = Some(Chr(v.args[0][-1])); s.write(loc, Str(v.args[0][:-1]))
        elif sep_comp(s, v) is not None:
            s.ret = Some(T('last', v)); s.write(loc, mk_seq('s', list(v.args[1:-1]) + [sep_comp(s, v)]) if v.op == 'seq' else sep_comp(s, v))
        else: s.ret = Some(T('last', v)); s.write(loc, T('sinit' if i.atys and i.atys[0]['txt'].endswith('String') else 'init', v))
        out.append(s)
    return out
def sep_comp(st, v):
    """text ending in every item of a non-empty list followed by one character: without the last character it is a join"""
    c = v.args[-1] if v.op == 'seq' and v.args[0] == 's' else v
    if c.op != 'comp' or len(c.args) != 2 or c.args[1].args[0].args: return None
    ps = pieces(c.args[1].args[1])
    if not ps or ps[-1].op != 'str' or len(ps[-1].args[0]) != 1 or st.truth(E.mk_empty(c.args[0])) is not False: return None
    return mk_join(E.mk_comp('l', c.args[0], [((), mk_seq('l', [One(mk_seq('s', ps[:-1]))]))]), ps[-1])
@m(D + 'pop_front')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc); out = []
    for s, e in bfork(st, E.mk_empty(v)):
        if e: s.ret = NONE
        else:
            h, t = head_tail(v); s.ret = Some(h); s.write(loc, t)
        out.append(s)
    return out
def head_tail(v):
    if v.op == 'seq' and v.args[0] == 'l' and len(v.args) > 1 and v.args[1].op == 'one':
        return v.args[1].args[0], mk_seq('l', list(v.args[2:]))
    return E.get_index(v, Int(0)), T('tail', v)
def first_last(which):
    def f(eng, st, a, i):
        v = as_list(st.val(a[0])); out = []
        for s, e in bfork(st, E.mk_empty(v)):
            if e: s.ret = NONE
            elif which == 'first': s.ret = Some(head_tail(v)[0] if v.op == 'seq' else E.get_index(v, Int(0)))
            else: s.ret = Some(v.args[-1].args[0] if v.op == 'seq' and v.args[-1].op == 'one' else T('last', v))
            out.append(s)
        return out
    return f
for p in (V, D, 'std::slice::{[T]}::'):
    REG[p + 'first'] = REG[p + 'front'] = first_last('first'); REG[p + 'last'] = REG[p + 'back'] = first_last('last')
@m('std::slice::{[T]}::get', D + 'get', V + 'get')
def _(eng, st, a, i):
    v = as_list(st.val(a[0])); x = a[1]
    if x.op == 'agg': return eng.opaque_call(st, 'get', a, i.site, i.dty, pure=True)
    out = []
    for s, lt in bfork(st, E.mk_lt(x, E.mk_len(v))): s.ret = Some(E.get_index(v, x)) if lt else NONE; out.append(s)
    return out
@m(V + 'remove')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc)
    out = []
    for s, lt in bfork(st, E.mk_lt(a[1], E.mk_len(v))):
        if not lt: eng.panic(s, 'index', i.site); continue
        s.ret = E.get_index(v, a[1]); s.write(loc, head_tail(v)[1] if a[1] is Int(0) else T('removed', v, a[1])); out.append(s)
    return out
@m('std::slice::{[T]}::reverse')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); st.write(loc, mk_rev(st.read(loc))); return ret(st, UNIT)
def unordered(v):
    while v.op in ('comp', 'sorted'): v = v.args[0]
    return v.op in ('entries', 'keys', 'values', 'elems')
def mk_rev(v):
    if v.op == 'rev': return v.args[0]
    if v.op == 'seq' and all(p.op == 'one' for p in v.args[1:]): return mk_seq('l', list(v.args[:0:-1]))
    if v.op == 'sorted' and unordered(v.args[0]):
        # equal elements come in no particular order anyway
        a, b = T('sortA'), T('sortB')
        return T('sorted', v.args[0], subst(v.args[1], {a: b, b: a}))
    return T('rev', v)
def order_of(eng, st, clos, i, kind):
    a, b = T('sortA'), T('sortB')
    if kind == 'cmp': rs = eng.call_value(st, clos, [a, b], i.site)
    else: rs = eng.call_value(st, clos, [a], i.site)
    if len(rs) != 1: return None
    r = rs[0].val(rs[0].ret)
    if kind == 'key':
        r = cmp_term(r, subst(r, {a: b}))
    return r
@m('std::slice::{[T]}::sort_by', 'std::slice::{[T]}::sort_unstable_by', 'std::slice::{[T]}::sort_by_key', 'std::slice::{[T]}::sort_unstable_by_key', 'std::slice::{[T]}::sort_by_cached_key',
   'std::slice::{[T]}::sort', 'std::slice::{[T]}::sort_unstable')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); n = i.f['name'] if 'name' in i.f else keys(i.f)[0].split('::')[-1]
    if len(a) == 1: o = cmp_term(T('sortA'), T('sortB'))
    else: o = order_of(eng, st.copy(), a[1], i, 'key' if 'key' in n else 'cmp')
    v = st.read(loc)
    st.write(loc, T('sorted', v, o) if o is not None else App('sorted?', v)); return ret(st, UNIT)
@m(V + 'insert', S + 'insert', S + 'insert_str')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc)
    if a[1] is Int(0):
        x = st.val(a[2])
        st.write(loc, cat_l(mk_seq('l', [One(x)]), v) if i.f['path'].startswith('std::vec') else cat_s(x if i.f['name'] == 'insert_str' else mk_seq('s', [One(x)]), v)); return ret(st, UNIT)
    return after(eng, st, a, i)
def source_of(v):
    while v.op in ('sorted', 'rev'): v = v.args[0]
    return v
@m(V + 'dedup', V + 'dedup_by_key')
def _(eng, st, a, i):
    """without the repetitions; the entries, keys and elements of a map or set are all different"""
    loc = mloc(st, a[0]); v = as_list(st.read(loc)); src = source_of(v)
    key = clos_key(eng, st, st.val(a[1])) if len(a) > 1 else None
    if v in (EMPTY_L,) or src.op in ('entries', 'keys', 'elems') and (key is None or key in (T('lambda', T('arg')), T('lambda', T('fld', T('arg'), '0')))): return ret(st, UNIT)
    if key is not None and contains(key, lambda z: z.op in ('clos', 'fn')): return after(eng, st, a, i)
    st.write(loc, App('vec.' + i.f['name'], v, *([key] if key is not None else []))); return ret(st, UNIT)
@m(V + 'dedup_by', V + 'swap_remove', V + 'resize', V + 'split_off', S + 'truncate', S + 'remove', S + 'drain', 'std::slice::{[T]}::swap')
def after(eng, st, a, i):
    loc = mloc(st, a[0]); vals = tuple(st.val(x) for x in a); n = i.f.get('name') or keys(i.f)[0].split('::')[-1]
    st.write(loc, App('after.' + n, *vals)); return ret(st, App('result.' + n, *vals))
@m(V + 'drain', D + 'drain')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = as_list(st.read(loc)); r = a[1]
    if r.op == 'agg' and r.args[0].endswith('RangeFull'):
        st.write(loc, EMPTY_L); return ret(st, iter_of(st, v))
    n = norm_range(eng, st, v, r)
    if n is not None and n[0] is Int(0) and n[1] is E.mk_len(v): st.write(loc, EMPTY_L); return ret(st, iter_of(st, v))
    return after(eng, st, a, i)
@m(V + 'truncate', D + 'truncate')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = as_list(st.read(loc))
    if v.op == 'seq' and a[1].op == 'int' and all(p.op == 'one' for p in v.args[1:]): st.write(loc, mk_seq('l', list(v.args[1:1 + a[1].args[0]])))
    elif a[1] is Int(0): st.write(loc, EMPTY_L)
    else: st.write(loc, T('takel', v, a[1]))
    return ret(st, UNIT)
@m('std::slice::{[T]}::contains', D + 'contains')
def _(eng, st, a, i):
    v = as_list(st.val(a[0])); x = st.val(a[1])
    if v.op == 'seq' and all(p.op == 'one' for p in v.args[1:]):
        r = FALSE
        for p in v.args[1:]: r = E.mk_not(eng.b_and(E.mk_not(r), E.mk_not(E.mk_eq(p.args[0], x))))
        return ret(st, r)
    return ret(st, T('any', v, T('conj', T('fact', E.mk_eq(T('item', v), x), TRUE))))
@m('std::slice::{[T]}::join', 'std::slice::{[T]}::concat', 'std::slice::Join::join')
def _(eng, st, a, i):
    v = as_list(st.val(a[0])); sep = st.val(a[1]) if len(a) > 1 else EMPTY_S
    if i.dty and 'String' not in i.dty['txt']: return ret(st, App('joinlist', v, sep))
    return ret(st, mk_join(v, sep))
def mk_join(v, sep):
    if v.op == 'seq' and all(p.op == 'one' for p in v.args[1:]):
        ps = []
        for k, p in enumerate(v.args[1:]):
            if k: ps += pieces(sep)
            ps += pieces(p.args[0])
        return mk_seq('s', ps)
    if sep is EMPTY_S and v.op == 'comp':
        return E.mk_comp('s', v.args[0], [(c.args[0].args, mk_seq('s', [q for p in pieces(c.args[1]) for q in (pieces(p.args[0]) if p.op == 'one' else [App('concat', p)])])) for c in v.args[1:]])
    if v.op == 'split' and len(v.args) == 2 and v.args[1].op == 'str' and v.args[1].args[0]: return replaced(v.args[0], v.args[1], sep)
    return T('join', v, sep)
def sep_in_front(src, cases):
    """text made of every item, each but the first with the same text in front: a join"""
    if len(cases) != 2: return None
    first = T('eq', T('idx', src), Int(0)); out = {}
    for g, v in cases:
        if len(g) != 1: return None
        k, b = g[0].args
        if k is first and b.op == 'bool': out[b.args[0]] = v
        elif k is T('idx', src) and b is Int(0): out[True] = v
        elif k.op == 'neq' and k.args[0] is T('idx', src) and b.args == (Int(0),): out[False] = v
        elif k.op == 'le0' and b.op == 'bool' and k is E.mk_lt(Int(0), T('idx', src)): out[not b.args[0]] = v
        elif k.op == 'le0' and b.op == 'bool' and k is E.mk_le(T('idx', src), Int(0)): out[b.args[0]] = v
        else: return None
    if len(out) != 2: return None
    a, b = pieces(out[True]), pieces(out[False])
    n = len(b) - len(a)
    if n <= 0 or list(b[n:]) != list(a) or any(x.op != 'str' for x in b[:n]): 
        # the separator may have run together with a constant
        return None
    body = mk_seq('s', a)
    if contains(body, lambda t: t is T('idx', src)): return None
    return mk_join(E.mk_comp('l', src, [((), mk_seq('l', [One(body)]))]), mk_seq('s', b[:n]))

# text functions
def strpat(v):
    if v.op == 'char': return Str(chr(v.args[0]))
    return v
st_ = 'std::str::{str}::'
def sfun(name, fold=None):
    def f(eng, st, a, i):
        x = [st.val(y) for y in a]
        if len(x) > 1 and x[1].op in ('clos', 'fn'): return ret(st, App('str.' + name, x[0], *[clos_key(eng, st, y) for y in x[1:]]))
        x = [x[0]] + [strpat(y) for y in x[1:]]
        if fold and all(y.op == 'str' for y in x):
            r = fold(*[y.args[0] for y in x])
            if r is not None: return ret(st, r)
        return ret(st, App('str.' + name, *x))
    return f
def clos_key(eng, st, c):
    """a closure of one argument as a term: its value on a symbolic argument"""
    try:
        rs = eng.call_value(st.copy(), c, [T('arg')], '')
        if len(rs) == 1: return T('lambda', rs[0].val(rs[0].ret))
        return T('lambda', *[T('case', T('conj', *[T('fact', k, v) for k, v in sorted(s.facts.items(), key=lambda kv: kv[0].id) if contains(k, lambda z: z.op == 'arg')]), s.val(s.ret)) for s in rs])
    except E.Inconclusive: return c
def replaced(w, pat, by):
    cs = None
    if pat.op == 'str' and len(pat.args[0]) == 1: cs = {pat.args[0]}
    elif pat.op == 'char': cs = {chr(pat.args[0])}
    elif pat.op == 'agg' and pat.args[0] == 'array' and len(pat.args) > 2 and all(x.op == 'char' for x in pat.args[2:]): cs = {chr(x.args[0]) for x in pat.args[2:]}
    elif pat.op == 'seq' and pat.args[0] == 'l' and len(pat.args) > 1 and all(x.op == 'one' and x.args[0].op == 'char' for x in pat.args[1:]): cs = {chr(x.args[0].args[0]) for x in pat.args[1:]}
    if cs is None or by.op != 'str': return App('str.replace', w, strpat(pat), by)
    return E.chars_replaced(w, {c: by.args[0] for c in cs})
@m('std::str::{str}::replace')
def _(eng, st, a, i):
    w, p, by = st.val(a[0]), st.val(a[1]), st.val(a[2])
    if p.op in ('clos', 'fn'):
        it = T('item', T('chars', w)); cases = []
        try: rs = eng.call_value(st.copy(), p, [it], '')
        except E.Inconclusive: rs = []
        for s in rs:
            new = [T('fact', k, v) for k, v in s.facts.items() if k not in st.facts or st.facts[k] is not v]
            r = s.truth(s.val(s.ret))
            if r is None: break
            cases.append((tuple(new), by if r else mk_seq('s', [One(it)])))
        else:
            t = E.char_table(T('chars', w), cases) if by.op == 'str' and len(cases) > 1 else None
            if t is not None: return ret(st, t)
        return ret(st, App('str.replace', w, clos_key(eng, st, a[1]), by))
    return ret(st, replaced(w, p, by))
REG[st_ + 'starts_with'] = sfun('starts_with', lambda a, b: Bool(a.startswith(b)))
_sw = REG[st_ + 'starts_with']
def _(eng, st, a, i):
    x = st.val(a[0]); y = st.val(a[1])
    if y.op not in ('clos', 'fn'): return _sw(eng, st, a, i)
    # the first character exists and satisfies the predicate
    out = []
    for s, e in bfork(st, E.mk_empty(T('chars', x))):
        if e: s.ret = FALSE; out.append(s); continue
        out += eng.call_value(s, y, [E.get_index(T('chars', x), Int(0))], i.site)
    return out
REG[st_ + 'starts_with'] = _
REG[st_ + 'ends_with'] = sfun('ends_with', lambda a, b: Bool(a.endswith(b)))
REG[st_ + 'contains'] = sfun('contains', lambda a, b: Bool(b in a))
REG[st_ + 'trim'] = sfun('trim', lambda a: Str(a.strip()))
for n in ('trim_end', 'trim_start', 'replacen', 'parse', 'split_once', 'rsplit_once', 'split_at', 'is_char_boundary', 'rfind', 'repeat'):
    REG[st_ + n] = sfun(n)
for n in ('to_lowercase', 'to_ascii_lowercase'): REG[st_ + n] = sfun('to_lowercase' if n == 'to_lowercase' else n, lambda a: Str(a.lower()) if a.isascii() else None)
for n in ('to_uppercase', 'to_ascii_uppercase'): REG[st_ + n] = sfun(n, lambda a: Str(a.upper()) if a.isascii() else None)
def char_search(name, found, missing):
    plain = sfun(name, (lambda a, b: Bool(b in a)) if name == 'contains' else None)
    def f(eng, st, a, i):
        t = plain(eng, st.copy(), a, i)[0].ret
        if st.val(a[1]).op not in ('clos', 'fn') and a[1].op not in ('clos', 'fn'):
            if name == 'contains': return ret(st, t)
            out = []
            for s in has(eng, st, a, i):
                h = s.ret; s.ret = None
                for u, v in bfork(s, h): u.ret = found(t) if v else missing; out.append(u)
            return out
        # some character satisfies the predicate
        return search(True, lambda x: found(t), missing)(eng, st, [T('iter', T('chars', st.val(a[0]))), a[1]], i)
    return f
has = sfun('contains', lambda a, b: Bool(b in a))
def affix(name, test):
    """what remains without a given prefix or suffix"""
    def f(eng, st, a, i):
        out = []
        for s in REG[st_ + test](eng, st, a, i):
            h = s.ret; s.ret = None
            x, y = s.val(a[0]), s.val(a[1])
            for u, v in bfork(s, h): u.ret = Some(App('str.' + name, x, clos_key(eng, u, a[1]) if y.op in ('clos', 'fn') else strpat(y))) if v else NONE; out.append(u)
        return out
    return f
REG[st_ + 'strip_prefix'] = affix('after_prefix', 'starts_with')
REG[st_ + 'strip_suffix'] = affix('before_suffix', 'ends_with')
def trims(name):
    plain = sfun('trim' + name + '_matches')
    def f(eng, st, a, i):
        rs = plain(eng, st, a, i); t = rs[0].ret
        if t.op == 'app' and len(t.args) == 3 and t.args[2] is T('lambda', App('char.is_whitespace', T('arg'))): rs[0].ret = App('str.trim' + name, t.args[1])
        return rs
    return f
for n in ('', '_start', '_end'): REG[st_ + 'trim' + n + '_matches'] = trims(n)
@m(st_ + 'eq_ignore_ascii_case')
def _(eng, st, a, i):
    lo = REG[st_ + 'to_ascii_lowercase']
    return ret(st, E.mk_eq(lo(eng, st, [a[0]], i)[0].ret, lo(eng, st, [a[1]], i)[0].ret))
REG[st_ + 'find'] = char_search('find', lambda t: Some(App('str.find_at', *t.args[1:])), NONE)
REG[st_ + 'contains'] = char_search('contains', lambda t: TRUE, FALSE)
def lst(name):
    def f(eng, st, a, i):
        x = [st.val(a[0])]
        for y in a[1:]:
            v = st.val(y)
            x.append(clos_key(eng, st, y if y.op in ('clos', 'fn') else v) if v.op in ('clos', 'fn') else strpat(v))
        return ret(st, T('iter', T(name, *x)))
    return f
for n in ('chars', 'char_indices', 'bytes', 'split_whitespace', 'split_ascii_whitespace', 'lines', 'split', 'splitn', 'split_terminator', 'rsplit', 'matches', 'match_indices', 'split_inclusive'):
    REG[st_ + n] = lst(n)
def cfun(name, fold=None):
    def f(eng, st, a, i):
        x = st.val(a[0])
        if x.op == 'char' and fold: return ret(st, fold(chr(x.args[0])))
        if name == 'len_utf8': return ret(st, T('clen', x))
        return ret(st, App('char.' + name, x, *[st.val(y) for y in a[1:]]))
    return f
ch_ = 'std::char::methods::{char}::'
for n, fo in (('is_alphanumeric', str.isalnum), ('is_alphabetic', str.isalpha), ('is_whitespace', str.isspace), ('is_uppercase', str.isupper), ('is_lowercase', str.islower), ('is_numeric', str.isnumeric),
              ('is_ascii_digit', lambda c: c in '0123456789'), ('is_ascii_uppercase', lambda c: c.isascii() and c.isupper()), ('is_ascii_lowercase', lambda c: c.isascii() and c.islower()), ('is_ascii_graphic', None), ('is_ascii_control', None), ('is_ascii', str.isascii), ('is_ascii_punctuation', None), ('is_control', None), ('is_ascii_whitespace', lambda c: c in ' \t\n\r\x0c'),
              ('is_ascii_alphabetic', lambda c: c.isascii() and c.isalpha()), ('is_ascii_alphanumeric', lambda c: c.isascii() and c.isalnum()), ('is_digit', None), ('to_lowercase', None), ('to_uppercase', None), ('to_ascii_lowercase', None), ('to_ascii_uppercase', None)):
    REG[ch_ + n] = cfun(n, (lambda fo: (lambda c: Bool(fo(c))))(fo) if fo else None)
REG[ch_ + 'len_utf8'] = cfun('len_utf8', lambda c: Int(len(c.encode())))

def norm_range(eng, st, v, r):
    """(start, end) of an index expression, or None for a plain index"""
    if r.op == 'agg' and r.args[0].startswith('std::ops::'):
        n = r.args[0].split('::')[-1]
        f = lambda k: E.get_field(r, k)
        L = E.mk_len(v)
        if n == 'Range': return r.args[2], r.args[3]
        if n == 'RangeTo': return Int(0), r.args[2]
        if n == 'RangeFrom': return r.args[2], L
        if n == 'RangeFull': return Int(0), L
        if n == 'RangeToInclusive': return Int(0), add(r.args[2], Int(1))
    return None
@m('std::ops::Index::index')
def _(eng, st, a, i):
    v = as_list(st.val(a[0])); x = st.load(a[1]) if a[1].op == 'ref' else a[1]
    st_txt = i.atys[0]['txt'] if i.atys else ''
    if 'HashMap' in st_txt.split('<')[0] or 'HashMap' in (i.f.get('rpath') or '')[:40]:
        k = st.val(a[1]); out = []
        for s, h in bfork(st, E.map_has(v, k)):
            if h: s.ret = E.map_get(v, k); out.append(s)
            else: eng.panic(s, 'index', i.site)
        return out
    if 'regex::Captures' in (i.f.get('rpath') or '')[:20] and x.op == 'int':
        out = []
        for s, good, p in xsplit(eng, st, App('re.get', v, x), {'path': OPT}):
            if good: s.ret = App('re.as_str', s.val(p)); out.append(s)
            else: eng.panic(s, 'index', i.site)
        return out
    r = norm_range(eng, st, v, x)
    if r is not None:
        out = []
        lo, hi = r
        L = E.mk_len(v)
        c = eng.b_and(E.mk_le(lo, hi), E.mk_le(hi, L))
        for s, okk in bfork(st, c):
            if okk: s.ret = mk_slice(v, lo, hi); out.append(s)
            else: eng.panic(s, 'slice', i.site)
        return out
    out = []
    for s, lt in bfork(st, E.mk_lt(x, E.mk_len(v))):
        if lt: s.ret = E.get_index(v, x); out.append(s)
        else: eng.panic(s, 'index', i.site, '%s[%s]' % (show(v), show(x)))
    return out
def mk_skip(v, n):
    if v.op == 'seq' and n.op == 'int' and all(p.op == 'one' for p in v.args[1:]): return mk_seq('l', list(v.args[1 + n.args[0]:]))
    return T('slice', v, n, T('end'))
def mk_slice(v, lo, hi):
    if v.op == 'slice' and v.args[2].op != 'end': 
        return mk_slice(v.args[0], add(v.args[1], lo), add(v.args[1], hi))
    if lo is Int(0) and hi is E.mk_len(v): return v
    if v.op == 'seq' and lo.op == 'int' and hi.op == 'int' and lo.args[0] <= hi.args[0] <= len(v.args) - 1 and all(p.op == 'one' for p in v.args[1:2 + hi.args[0]]): return mk_seq(v.args[0], list(v.args[1 + lo.args[0]:1 + hi.args[0]]))
    if lo is hi: return EMPTY_L if v.op in ('seq',) and v.args[0] == 'l' else T('slice', v, lo, hi)
    return T('slice', v, lo, hi)
@m('std::ops::IndexMut::index_mut')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc); x = a[1]
    if norm_range(eng, st, v, x) is not None:
        lo, hi = norm_range(eng, st, v, x); return ret(st, T('ref', (loc[0], loc[1] + (('slice', lo, hi),))))
    out = []
    for s, lt in bfork(st, E.mk_lt(x, E.mk_len(v))):
        if lt: s.ret = T('ref', (loc[0], loc[1] + (('i', x),))); out.append(s)
        else: eng.panic(s, 'index', i.site)
    return out

# ------------------------------------------------------------------------- maps
H = 'std::collections::HashMap::'; HS = 'std::collections::HashSet::'
for p in (H, HS, 'std::collections::BTreeMap::', 'std::collections::BTreeSet::'):
    REG[p + 'new'] = REG[p + 'with_capacity'] = lambda eng, st, a, i: ret(st, T('map0'))
    REG[p + 'clear'] = lambda eng, st, a, i: (st.write(mloc(st, a[0]), T('map0')), ret(st, UNIT))[1]
@m(H + 'insert')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc); k = st.val(a[1])
    st.write(loc, E.map_set(v, k, a[2]))
    r = NONE if E.map_has(v, k) is FALSE else (Some(E.map_get(v, k)) if E.map_has(v, k) is TRUE else App('HashMap::insert', v, k))
    return ret(st, r)
@m(HS + 'insert')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc); k = st.val(a[1])
    st.write(loc, E.map_set(v, k, UNIT)); return ret(st, E.mk_not(E.map_has(v, k)))
@m(H + 'get')
def _(eng, st, a, i):
    v = st.val(a[0]); k = st.val(a[1]); out = []
    for s, h in bfork(st, E.map_has(v, k)): s.ret = Some(E.map_get(v, k)) if h else NONE; out.append(s)
    return out
@m(H + 'get_mut')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc); k = st.val(a[1]); out = []
    for s, h in bfork(st, E.map_has(v, k)): s.ret = Some(T('ref', (loc[0], loc[1] + (('k', k),)))) if h else NONE; out.append(s)
    return out
@m(H + 'contains_key', HS + 'contains')
def _(eng, st, a, i): return ret(st, E.map_has(st.val(a[0]), st.val(a[1])))
@m(H + 'entry')
def _(eng, st, a, i): return ret(st, T('entry', T('ref', mloc(st, a[0])), st.val(a[1])))
HE = 'std::collections::hash_map::Entry::'
@m(HE + 'or_insert', HE + 'or_insert_with', HE + 'or_default')
def _(eng, st, a, i):
    e = a[0]; n = keys(i.f)[0].split('::')[-1]
    if e.op != 'entry': return eng.opaque_call(st, 'Entry::' + n, a, i.site, i.dty)
    loc = e.args[0].args[0]; k = e.args[1]; out = []
    for s, h in bfork(st, E.map_has(s_read(st, loc), k)):
        s2s = [s]
        if not h:
            if n == 'or_insert': s.ret = a[1]
            elif n == 'or_insert_with': s2s = eng.call_value(s, a[1], [], i.site)
            else:
                t = i.dty; dv = None
                if t and 't' in t: dv = default_of(eng, eng.prog.types[t['t']])
                s.ret = dv if dv is not None else App('default', Str(t['txt'] if t else '?'))
            for x in s2s: x.write(loc, E.map_set(x.read(loc), k, x.ret))
        for x in s2s: x.ret = T('ref', (loc[0], loc[1] + (('k', k),))); out.append(x)
    return out
def s_read(st, loc): return st.read(loc)
# an entry matched on: Occupied / Vacant
OE = 'std::collections::hash_map::OccupiedEntry::'; VE = 'std::collections::hash_map::VacantEntry::'
def entry_at(st, x):
    e = st.load(x) if x.op == 'ref' else x
    while e.op in ('vf',): e = e.args[0]
    return (e.args[0].args[0], e.args[1]) if e.op == 'entry' else None
def entry_op(what):
    def f(eng, st, a, i):
        x = entry_at(st, a[0])
        if x is None: return eng.opaque_call(st, what, a, i.site, i.dty)
        loc, k = x; m = st.read(loc); slot = T('ref', (loc[0], loc[1] + (('k', k),)))
        if what in ('get', 'get_mut', 'into_mut'): return ret(st, slot)
        if what == 'put': st.write(loc, E.map_set(m, k, a[1])); return ret(st, slot)
        if what == 'swap': st.write(loc, E.map_set(m, k, a[1])); return ret(st, E.map_get(m, k))
        if what == 'remove': st.write(loc, T('mapdel', m, k)); return ret(st, E.map_get(m, k))
        return ret(st, k)
    return f
for n, w in (('get', 'get'), ('get_mut', 'get_mut'), ('into_mut', 'into_mut'), ('insert', 'swap'), ('remove', 'remove'), ('key', 'key')): REG[OE + n] = entry_op(w)
for n, w in (('insert', 'put'), ('key', 'key'), ('into_key', 'key')): REG[VE + n] = entry_op(w)
REG[HE + 'key'] = entry_op('key')
@m(HE + 'and_modify')
def _(eng, st, a, i):
    e = a[0]
    if e.op != 'entry': return eng.opaque_call(st, 'Entry::and_modify', a, i.site, i.dty)
    loc = e.args[0].args[0]; k = e.args[1]; out = []
    for s, h in bfork(st, E.map_has(st.read(loc), k)):
        if not h: s.ret = e; out.append(s)
        else:
            for x in eng.call_value(s, a[1], [T('ref', (loc[0], loc[1] + (('k', k),)))], i.site): x.ret = e; out.append(x)
    return out
for n, w in (('iter', 'entries'), ('into_iter', 'entries'), ('keys', 'keys'), ('values', 'values'), ('into_keys', 'keys'), ('into_values', 'values')):
    REG[H + n] = (lambda w: lambda eng, st, a, i: ret(st, T('iter', map_walk(w, st.val(a[0])))))(w)
REG[HS + 'iter'] = lambda eng, st, a, i: ret(st, T('iter', map_walk('elems', st.val(a[0]))))
@m(H + 'remove')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc); k = st.val(a[1]); st.write(loc, T('mapdel', v, k)); return ret(st, App('HashMap::remove', v, k))

# ------------------------------------------------------------------------- CircularQueue
CQ = 'circular_queue::CircularQueue::'
# a queue is the pair (capacity, everything pushed since the last clear); it holds the last `capacity` of them
def cqf(st, a): v = st.val(a); return E.get_field(v, '0'), E.get_field(v, '1')
@m(CQ + 'with_capacity')
def _(eng, st, a, i): 
    eng.mark_unsigned(st, a[0])
    return ret(st, Tup(a[0], EMPTY_L))
@m(CQ + 'push')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc)
    l1 = (loc[0], loc[1] + (('f', '1', 1),))
    st.write(l1, cat_l(st.read(l1), mk_seq('l', [One(a[1])]))); return ret(st, UNIT)
@m(CQ + 'clear')
def _(eng, st, a, i):
    loc = mloc(st, a[0])
    st.write((loc[0], loc[1] + (('f', '1', 1),)), EMPTY_L); return ret(st, UNIT)
@m(CQ + 'len')
def _(eng, st, a, i):
    cap, al = cqf(st, a[0])
    out = []; L = E.mk_len(al)
    for s, h in bfork(st, E.mk_le(cap, L)): s.ret = cap if h else L; out.append(s)
    return out
@m(CQ + 'is_empty')
def _(eng, st, a, i):
    cap, al = cqf(st, a[0])
    return ret(st, E.mk_not(eng.b_and(E.mk_not(E.mk_empty(al)), E.mk_lt(Int(0), cap))))
@m(CQ + 'is_full')
def _(eng, st, a, i):
    cap, al = cqf(st, a[0]); return ret(st, E.mk_le(cap, E.mk_len(al)))
# the nodes a query found, counted
@m('libxml::xpath::Object::get_number_of_nodes')
def _(eng, st, a, i): return ret(st, E.mk_len(App('libxml::xpath::Object::get_nodes_as_vec', eng.models.materialize(eng, st, st.val(a[0])))))
@m(CQ + 'capacity')
def _(eng, st, a, i): return ret(st, cqf(st, a[0])[0])
@m(CQ + 'asc_iter')
def _(eng, st, a, i):
    cap, al = cqf(st, a[0]); return ret(st, T('iter', mk_lastof(cap, al)))
@m(CQ + 'iter')
def _(eng, st, a, i):
    cap, al = cqf(st, a[0]); return ret(st, T('iter', mk_rev(mk_lastof(cap, al))))

# ------------------------------------------------------------------------- iterators
def iter_of(st, v):
    v = st.load(v) if v.op == 'ref' else v
    v2 = as_list(v)
    if v2.op in ('iter', 'icomp', 'imap', 'ifilter', 'ienum', 'irev', 'itakew', 'iskip', 'itake', 'ifm', 'ipeek', 'izip', 'ichain', 'iflat', 'iskipw', 'iflatr'): return v2
    if v2.op == 'agg' and v2.args[0] == 'std::ops::Range': return T('iter', T('range', v2.args[2], v2.args[3]))
    if v2.op == 'app' and v2.args[0] == 'RangeInclusive::new': return T('iter', T('range', v2.args[1], add(v2.args[2], Int(1))))
    if v2.op == 'comp' and all(all(p.op == 'one' for p in pieces(c.args[1])) and len(pieces(c.args[1])) <= 1 for c in v2.args[1:]):
        return T('icomp', T('iter', v2.args[0]), v2)
    if v2.op == 'agg' and v2.args[0] == OPT: return T('iter', mk_seq('l', [One(v2.args[2])]) if v2.args[1] == 'Some' else EMPTY_L)
    return T('iter', v2)
@m('std::ops::RangeInclusive::new')
def _(eng, st, a, i): return ret(st, App('RangeInclusive::new', a[0], a[1]))
@m('std::iter::IntoIterator::into_iter')
def _(eng, st, a, i):
    t = (i.atys[0]['txt'] if i.atys else '')
    v = a[0]
    base = t.lstrip('&').replace('mut ', '').split('<')[0].split("'")[-1]
    if v.op == 'ref' and t.startswith('&mut'):
        w = st.load(v)
        if w.op in ITOPS: return ret(st, v)
        if plain_iter(eng, i):
            st.write(mloc(st, v), iter_of(st, w))
            return ret(st, v)
    if 'HashMap' in base or 'BTreeMap' in base: return ret(st, T('iter', map_walk('entries', st.val(v))))
    if 'HashSet' in base: return ret(st, T('iter', map_walk('elems', st.val(v))))
    return ret(st, iter_of(st, st.val(v)))
@m('std::slice::{[T]}::iter', D + 'iter', V + 'iter', O + 'iter')
def _(eng, st, a, i): return ret(st, iter_of(st, st.val(a[0])))
@m('std::slice::{[T]}::iter_mut', V + 'iter_mut')
def _(eng, st, a, i): return eng.opaque_call(st, 'iter_mut', a, i.site, i.dty)
for n, w in (('windows', 'windows'), ('chunks', 'chunks'), ('chunks_exact', 'chunks_exact')):
    REG['std::slice::{[T]}::' + n] = (lambda w: lambda eng, st, a, i: ret(st, T('iter', T(w, as_list(st.val(a[0])), a[1]))))(w)
I = 'std::iter::Iterator::'
REG[I + 'cloned'] = REG[I + 'copied'] = REG[I + 'fuse'] = lambda eng, st, a, i: ret(st, iter_of(st, a[0]))
REG[I + 'map'] = lambda eng, st, a, i: ret(st, T('imap', iter_of(st, a[0]), a[1]))
REG[I + 'filter'] = lambda eng, st, a, i: ret(st, T('ifilter', iter_of(st, a[0]), a[1]))
REG[I + 'filter_map'] = lambda eng, st, a, i: ret(st, T('ifm', iter_of(st, a[0]), a[1]))
REG[I + 'enumerate'] = lambda eng, st, a, i: ret(st, T('ienum', iter_of(st, a[0]), Int(0)))
REG[I + 'take_while'] = lambda eng, st, a, i: ret(st, T('itakew', iter_of(st, a[0]), a[1]))
REG[I + 'skip_while'] = lambda eng, st, a, i: ret(st, T('iskipw', iter_of(st, a[0]), a[1], FALSE))
REG[I + 'flat_map'] = lambda eng, st, a, i: ret(st, T('iflat', iter_of(st, a[0]), a[1]))
REG[I + 'inspect'] = lambda eng, st, a, i: ret(st, T('imap', iter_of(st, a[0]), T('inspect', a[1])))
@m(I + 'peekable')
def _(eng, st, a, i): return ret(st, T('ipeek', iter_of(st, a[0]), T('nopeek')))
@m(I + 'rev')
def _(eng, st, a, i):
    it = iter_of(st, a[0])
    if it.op == 'iter': return ret(st, T('iter', mk_rev(it.args[0])))
    return ret(st, T('irev', it))
@m(I + 'skip')
def _(eng, st, a, i):
    it = iter_of(st, a[0])
    if it.op == 'iter' : return ret(st, T('iter', mk_skip(it.args[0], a[1])) if a[1] is not Int(0) else it)
    return ret(st, T('iskip', it, a[1]))
@m(I + 'take')
def _(eng, st, a, i):
    it = iter_of(st, a[0])
    if it.op == 'iter':
        v = it.args[0]
        if v.op == 'seq' and a[1].op == 'int' and all(p.op == 'one' for p in v.args[1:]): return ret(st, T('iter', mk_seq('l', list(v.args[1:1 + a[1].args[0]]))))
        return ret(st, T('iter', T('takel', it.args[0], a[1])))
    return ret(st, T('itake', it, a[1]))
@m(I + 'chain')
def _(eng, st, a, i):
    x, y = iter_of(st, a[0]), iter_of(st, st.val(a[1]) if a[1].op == 'ref' else a[1])
    if x.op == 'iter' and y.op == 'iter': return ret(st, T('iter', cat_l(x.args[0], y.args[0])))
    return ret(st, T('ichain', x, y))
@m(I + 'zip')
def _(eng, st, a, i): return ret(st, T('izip', iter_of(st, a[0]), iter_of(st, a[1])))

def assume_fact(s, k, v):
    if k.op == 'neq': return s.assume_neq(k.args[0], list(v.args))
    if v.op == 'bool': return s.assume(k, v.args[0])
    return s.assume_val(k, v)

def step(eng, st, it):
    """advance an abstract iterator: [(state, iterator, kind, item)], kind in some/none/skip"""
    o = it.op
    if o == 'ref':
        loc = mloc(st, it); out = []
        for s, it2, k, x in step(eng, st, st.read(loc)):
            s.write(loc, it2); out.append((s, it, k, x))
        return out
    if o == 'iter':
        L = it.args[0]
        if L.op == 'range':
            out = []
            for s, e in bfork(st, E.mk_le(L.args[1], L.args[0])):
                if e: out.append((s, it, 'none', None))
                else: out.append((s, T('iter', T('range', add(L.args[0], Int(1)), L.args[1])), 'some', L.args[0]))
            return out
        out = []
        for s, e in bfork(st, E.mk_empty(L)):
            if e: out.append((s, it, 'none', None))
            else:
                h, t = head_tail(L); out.append((s, T('iter', t), 'some', h))
        return out
    if o == 'icomp':
        comp = it.args[1]; src = comp.args[0]; item = T('item', src); out = []
        for s, i2, k, x in step(eng, st, it.args[0]):
            it2 = T('icomp', i2, comp)
            if k != 'some': out.append((s, it2, k, x)); continue
            rest = [s]
            sb = {item: x}
            for c in comp.args[1:]:
                s1 = s.copy(); ok = True
                for f in c.args[0].args:
                    if not assume_fact(s1, subst(f.args[0], sb), f.args[1]): ok = False; break
                if ok:
                    ps = pieces(c.args[1])
                    if ps: out.append((s1, it2, 'some', subst(ps[0].args[0], sb)))
            # complement: single-fact guards only
            if any(c.args[0].args for c in comp.args[1:]):
                done = False
                if all(len(c.args[0].args) == 1 and c.args[0].args[0].args[1].op == 'bool' for c in comp.args[1:]) :
                    s2 = s; ok = True
                    for c in comp.args[1:]:
                        f = c.args[0].args[0]
                        if not s2.assume(subst(f.args[0], sb), not f.args[1].args[0]): ok = False; break
                    if ok: out.append((s2, it2, 'skip', None))
                else: out.append((s, it2, 'skip', None))
        return out
    if o == 'imap':
        out = []
        for s, i2, k, x in step(eng, st, it.args[0]):
            it2 = T('imap', i2, it.args[1])
            if k != 'some': out.append((s, it2, k, x)); continue
            f = it.args[1]
            if f.op == 'inspect':
                for t in eng.call_value(s, f.args[0], [x]): out.append((t, it2, 'some', x))
                continue
            for t in eng.call_value(s, f, [x]):
                r = t.ret; t.ret = None; out.append((t, it2, 'some', r))
        return out
    if o in ('ifilter', 'itakew'):
        out = []
        for s, i2, k, x in step(eng, st, it.args[0]):
            it2 = T(o, i2, it.args[1])
            if k != 'some': out.append((s, it2, k, x)); continue
            for t in eng.call_value(s, it.args[1], [x]):
                c = t.ret; t.ret = None
                for u, v in bfork(t, c):
                    if v: out.append((u, it2, 'some', x))
                    else: out.append((u, it2, 'skip' if o == 'ifilter' else 'none', None))
        return out
    if o == 'ifm':
        out = []
        for s, i2, k, x in step(eng, st, it.args[0]):
            it2 = T(o, i2, it.args[1])
            if k != 'some': out.append((s, it2, k, x)); continue
            for t in eng.call_value(s, it.args[1], [x]):
                c = t.ret; t.ret = None
                for u, n, w in osplit(eng, t, c):
                    if n == 'Some': out.append((u, it2, 'some', pay(w, 'Some')))
                    else: out.append((u, it2, 'skip', None))
        return out
    if o == 'iflatr':
        out = []; good = it.args[1].args[0]
        for s, i2, k, x in step(eng, st, it.args[0]):
            it2 = T(o, i2, it.args[1])
            if k != 'some': out.append((s, it2, k, x)); continue
            for s2, okk, w in xsplit(eng, s, x, {'path': RES if good == 'Ok' else OPT}):
                out.append((s2, it2, 'some', w) if okk else (s2, it2, 'skip', None))
        return out
    if o == 'ienum':
        out = []
        for s, i2, k, x in step(eng, st, it.args[0]):
            if k != 'some': out.append((s, T(o, i2, it.args[1]), k, x))
            else: out.append((s, T(o, i2, add(it.args[1], Int(1))), 'some', Tup(it.args[1], x)))
        return out
    if o == 'ipeek':
        pk = it.args[1]
        if pk.op == 'agg':
            return [(st, T(o, it.args[0], T('nopeek')), 'none' if pk.args[1] == 'None' else 'some', pk.args[2] if pk.args[1] == 'Some' else None)]
        return [(s, T(o, i2, T('nopeek')), k, x) for s, i2, k, x in step(eng, st, it.args[0])]
    if o == 'izip':
        out = []
        for s, i2, k, x in step(eng, st, it.args[0]):
            if k != 'some': out.append((s, T(o, i2, it.args[1]), k, None)); continue
            for s2, j2, k2, y in step(eng, s, it.args[1]):
                if k2 == 'skip': raise E.Inconclusive('zip over a filtered iterator')
                out.append((s2, T(o, i2, j2), k2, Tup(x, y) if k2 == 'some' else None))
        return out
    if o == 'iskipw':
        # the last part says that the beginning is over
        out = []; f = it.args[1]
        for s, i2, k, x in step(eng, st, it.args[0]):
            if k != 'some': out.append((s, T(o, i2, f, it.args[2]), k, x)); continue
            for s1, begun in bfork(s, it.args[2]):
                if begun: out.append((s1, T(o, i2, f, TRUE), 'some', x)); continue
                for t in eng.call_value(s1, f, [x]):
                    c = t.ret; t.ret = None
                    for u, v in bfork(t, c):
                        out.append((u, T(o, i2, f, FALSE), 'skip', None) if v else (u, T(o, i2, f, TRUE), 'some', x))
        return out
    if o == 'itake':
        out = []
        for s, over in bfork(st, E.mk_le(it.args[1], Int(0))):
            if over: out.append((s, it, 'none', None)); continue
            for s2, i2, k, x in step(eng, s, it.args[0]): out.append((s2, T(o, i2, sub(it.args[1], Int(1)) if k == 'some' else it.args[1]), k, x))
        return out
    if o == 'iskip':
        out = []
        for s, i2, k, x in step(eng, st, it.args[0]):
            if k != 'some': out.append((s, T(o, i2, it.args[1]), k, x)); continue
            for s2, over in bfork(s, E.mk_le(it.args[1], Int(0))):
                out.append((s2, T(o, i2, it.args[1]), 'some', x) if over else (s2, T(o, i2, sub(it.args[1], Int(1))), 'skip', None))
        return out
    if o == 'ichain':
        out = []
        for s, i2, k, x in step(eng, st, it.args[0]):
            if k != 'none': out.append((s, T(o, i2, it.args[1]), k, x)); continue
            for s2, j2, k2, y in step(eng, s, it.args[1]): out.append((s2, T(o, i2, j2), k2, y))
        return out
    raise E.Inconclusive('iterator ' + o)

@m(I + 'next')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc)
    if v.op not in ITOPS:
        v = iter_of(st, v) if v.op == 'agg' and v.args[0] == 'std::ops::Range' or plain_iter(eng, i) else v
    if v.op not in ITOPS:
        # an iterator known only by name: the element peeked at is the next one
        rs = eng.opaque_call(st, 'Iterator::next', a, i.site, i.dty, atys=i.atys)
        if peeks(eng, i, v):
            for s in rs: s.ret = App('peek', v)
        return rs
    out = []
    for s, it2, k, x in step(eng, st, v):
        s.write(loc, it2)
        s.ret = Some(x) if k == 'some' else NONE if k == 'none' else E.SKIP
        out.append(s)
    return out
ITOPS = ('iter', 'iflatr', 'icomp', 'imap', 'ifilter', 'ienum', 'itakew', 'ifm', 'ipeek', 'izip', 'irev', 'iskip', 'itake', 'ichain', 'iflat', 'iskipw')
def plain_iter(eng, i):
    """what is left of a list"""
    t = i.atys[0] if i.atys else None
    while t is not None and t['k'] in ('ref', 'ptr'): t = eng.prog.types[t['t']] if 't' in t else None
    return t is not None and t.get('txt', '').startswith(('std::vec::IntoIter<', 'std::slice::Iter<', 'std::boxed::Box<walkdir::IntoIter>', 'walkdir::IntoIter', 'std::boxed::Box<dyn std::iter::Iterator<'))
def peeks(eng, i, v):
    t = i.atys[0] if i.atys else None
    while t is not None and t['k'] in ('ref', 'ptr'): t = eng.prog.types[t['t']] if 't' in t else None
    return t is not None and 'Peekable<' in t.get('txt', '')
@m('std::iter::Peekable::peek')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc)
    if v.op != 'ipeek': return ret(st, App('peek', v))
    if v.args[1].op == 'agg': return ret(st, v.args[1])
    inner = v.args[0]
    if inner.op == 'iter' and inner.args[0].op != 'range':
        out = []; L = inner.args[0]
        for s, e in bfork(st, E.mk_empty(L)): s.ret = NONE if e else Some(head_tail(L)[0]); out.append(s)
        return out
    out = []
    for s, it2, k, x in step(eng, st, inner):
        if k == 'skip': raise E.Inconclusive('peek on a filtered iterator')
        r = Some(x) if k == 'some' else NONE
        s.write(loc, T('ipeek', it2, r)); s.ret = r; out.append(s)
    return out

# ---- consumers
def consume(eng, st, it, key, on_item):
    root = ('H', 'it', len(eng.stack), key)
    st.mem[root] = it
    def run(s):
        s = s.copy(); backs, exits = [], []
        for s2, it2, kind, x in step(eng, s, s.read((root, ()))):
            s2.mem[root] = it2
            if kind == 'none': exits.append((s2, 'exit'))
            elif kind == 'skip': backs.append(s2)
            else:
                for r, brk in on_item(s2, x):
                    (exits.append((r, 'brk')) if brk else backs.append(r))
        return backs, exits
    lkey = 'iter@' + (eng.stack[-1].name if eng.stack else '') + '/' + key
    res = eng.fixloop(st, lkey, run, eng.stack[-1].path if eng.stack else '')
    for s, _ in res: s.mem.pop(root, None)
    return res
def acc_loop(eng, st, it, key, init, upd, fin=lambda v: v):
    """fold with accumulator cell; upd(state, loc, item) -> [(state, brk)]"""
    root = ('H', 'acc', len(eng.stack), key); loc = (root, ())
    st.mem[root] = init
    out = []
    for s, tag in consume(eng, st, it, key, lambda s, x: upd(s, loc, x)):
        s.ret = fin(s.mem.pop(root)); out.append(s)
    return eng.merge(out)
def skey(eng, i): return '%s:%s' % (eng.stack[-1].uid[-24:] if eng.stack else '', i.site.split(' ')[0].split('/')[-1] if isinstance(i.site, str) else i.site)

def item_type(eng, t):
    """item type of an iterator type (dict) or None"""
    if t is None: return None
    ty = eng.prog.types
    p = t.get('path', '')
    A = [ty[x] if isinstance(x, int) else x for x in t.get('args', [])]
    if t['k'] == 'ref': return item_type(eng, ty[t['t']])
    n = p.split('::')[-1]
    if n == 'Chars': return {'k': 'prim', 'txt': 'char'}
    if n in ('SplitWhitespace', 'SplitAsciiWhitespace', 'Split', 'Lines', 'SplitN', 'Drain') and 'str' in p: return {'k': 'ref', 'txt': '&str'}
    if n in ('Filter', 'Rev', 'Peekable', 'Skip', 'Take', 'TakeWhile', 'SkipWhile', 'Copied', 'Cloned', 'Fuse', 'Chain', 'Inspect'): return item_type(eng, A[0])
    if n in ('Map', 'FilterMap', 'FlatMap'):
        c = A[-1]
        r = None
        if c['k'] == 'closure':
            b = eng.prog.bodies.get(c['uid']); r = ty[b.locals[0][0]] if b else None
        elif c['k'] == 'fndef':
            b = eng.prog.bodies.get(c['callee'].get('ruid') or c['callee']['uid']); r = ty[b.locals[0][0]] if b else None
            if b is None:
                q = c['callee']['path']
                if q.endswith(('to_string', 'to_owned', 'to_lowercase')) or 'String' in q: return {'k': 'adt', 'txt': 'std::string::String'}
        if r is None: return None
        if n == 'FilterMap': return ty[r['args'][0]] if r.get('args') else None
        if n == 'FlatMap': return None
        return r
    if n in ('Iter', 'IntoIter', 'IterMut') and A: return [x for x in A if x.get('k')][0]
    if n == 'Option' and A: return A[0]
    return None
def is_char(t): return t is not None and t['txt'].lstrip('&') == 'char'

def collect_kind(ty):
    t = ty['txt']
    if t.startswith('std::string::String'): return 's'
    p = ty.get('path', '')
    if p in ('std::vec::Vec', 'std::collections::VecDeque') or t.startswith('std::boxed::Box<['): return 'l'
    if p == 'std::collections::HashSet' or p == 'std::collections::BTreeSet': return 'set'
    if p == 'std::collections::HashMap' or p == 'std::collections::BTreeMap': return 'map'
    if p == OPT or p == RES: return 'try'
    return None
def piece_of(x, st, char, kind):
    x = st.val(x)
    if kind == 's' and not char: return pieces(x)
    return [One(x)]
@m(I + 'collect', 'std::iter::FromIterator::from_iter')
def _(eng, st, a, i):
    it = iter_of(st, st.val(a[0]) if a[0].op == 'ref' else a[0])
    kind = collect_kind(i.dty) if i.dty else None
    if kind in (None,): return eng.opaque_call(st, 'collect', [T('iterval', it)], i.site, i.dty)
    ch = is_char(item_type(eng, i.atys[0])) if i.atys else False
    if kind == 'try':
        inner = collect_kind(eng.prog.types[i.dty['args'][0]]) or 'l'
        opt = i.dty['path'] == OPT
        def upd(s, loc, x):
            out = []
            for s2, good, p in xsplit(eng, s, x, {'path': 'Option' if opt else 'std::result::Result'}):
                if good:
                    s2.write(loc, mk_seq('l', pieces(s2.read(loc)) + [One(s2.val(p))])); out.append((s2, False))
                else: s2.write(loc, T('fail', p if p is not None else UNIT)); out.append((s2, True))
            return out
        def fin(v):
            if v.op == 'fail': return NONE if opt else Err(v.args[0])
            return Some(v) if opt else Ok(v)
        return acc_loop(eng, st, it, skey(eng, i), EMPTY_L, upd, fin)
    k = 's' if kind == 's' else 'l'
    def upd(s, loc, x):
        v = s.read(loc); s.write(loc, mk_seq(k, pieces(v) + piece_of(x, s, ch, k))); return [(s, False)]
    fin = {'s': lambda v: v, 'l': lambda v: v, 'set': lambda v: T('setof', v), 'map': lambda v: map_of(v)}[kind]
    return acc_loop(eng, st, it, skey(eng, i), EMPTY_S if k == 's' else EMPTY_L, upd, fin)
def map_of(v):
    if v.op == 'seq' and all(p.op == 'one' and p.args[0].op == 'agg' and p.args[0].args[0] == 'tuple' for p in v.args[1:]): return map_extend(T('map0'), v, False)
    return T('mapof', v)
def map_extend(m, lst, isset):
    """the map or set m with the elements of the list added"""
    if lst.op == 'seq' and all(p.op == 'one' for p in lst.args[1:]) and (isset or all(p.args[0].op == 'agg' and p.args[0].args[0] == 'tuple' for p in lst.args[1:])):
        if isset and len(lst.args) > 100: 
            if m.op == 'map0': return T('setof', lst)
        else:
            for p in lst.args[1:]:
                x = p.args[0]
                m = E.map_set(m, x, UNIT) if isset else E.map_set(m, x.args[2], x.args[3])
            return m
    if isset:
        if m.op == 'map0': return T('setof', lst)
        if m.op == 'setof': return T('setof', cat_l(m.args[0], lst))
    return T('mapext', m, lst)
def retain(k):
    def f(eng, st, a, i):
        loc = mloc(st, a[0]); v = st.read(loc)
        it = T('ifilter', T('iter', T('chars', v) if k == 's' else as_list(v)), a[1])
        def upd(s, l, x):
            w = s.read(l); s.write(l, mk_seq(k, pieces(w) + piece_of(x, s, True, k))); return [(s, False)]
        out = acc_loop(eng, st, it, skey(eng, i), EMPTY_S if k == 's' else EMPTY_L, upd)
        for s in out: s.write(loc, s.ret); s.ret = UNIT
        return out
    return f
REG[S + 'retain'] = retain('s'); REG[V + 'retain'] = REG[D + 'retain'] = retain('l')
@m('std::iter::Extend::extend')
def _(eng, st, a, i):
    loc = mloc(st, a[0])
    it = iter_of(st, st.val(a[1]) if a[1].op == 'ref' else a[1])
    t = i.atys[0]['txt'] if i.atys else ''
    if 'HashMap' in t or 'HashSet' in t:
        lst = materialize(eng, st, it)
        lst = lst.args[0] if lst.op == 'iter' else T('iterval', lst)
        st.write(loc, map_extend(st.read(loc), lst, 'HashSet' in t)); return ret(st, UNIT)
    k = 's' if 'String' in t.split('<')[0] else 'l'
    ch = is_char(item_type(eng, i.atys[1])) if i.atys else False
    def upd(s, l, x):
        v = s.read(l); s.write(l, mk_seq(k, pieces(v) + piece_of(x, s, ch, k))); return [(s, False)]
    out = acc_loop(eng, st, it, skey(eng, i), EMPTY_S if k == 's' else EMPTY_L, upd)
    for s in out:
        s.write(loc, mk_seq(k, pieces(s.read(loc)) + pieces(s.ret))); s.ret = UNIT
    return out
@m(I + 'for_each')
def _(eng, st, a, i):
    it = iter_of(st, a[0])
    def on(s, x): return [(t, False) for t in eng.call_value(s, a[1], [x], i.site)]
    out = []
    for s, tag in consume(eng, st, it, skey(eng, i), on): s.ret = UNIT; out.append(s)
    return eng.merge(out)
@m(I + 'fold')
def _(eng, st, a, i):
    it = iter_of(st, a[0])
    def upd(s, loc, x):
        out = []
        for t in eng.call_value(s, a[2], [s.read(loc), x], i.site): t.write(loc, t.ret); out.append((t, False))
        return out
    return acc_loop(eng, st, it, skey(eng, i), a[1], upd)
@m(I + 'count')
def _(eng, st, a, i):
    def upd(s, loc, x): s.write(loc, add(s.read(loc), Int(1))); return [(s, False)]
    return acc_loop(eng, st, iter_of(st, a[0]), skey(eng, i), Int(0), upd)
@m(I + 'sum')
def _(eng, st, a, i):
    def upd(s, loc, x): s.write(loc, add(s.read(loc), s.val(x))); return [(s, False)]
    return acc_loop(eng, st, iter_of(st, a[0]), skey(eng, i), Int(0), upd)
def search(want, found, missing):
    def f(eng, st, a, i):
        it = iter_of(st, st.val(a[0]) if a[0].op == 'ref' and False else a[0])
        if it.op == 'ref' or a[0].op == 'ref':
            it = a[0]
            if st.load(it).op not in ITOPS:
                if plain_iter(eng, i):
                    loc = mloc(st, a[0]); st.write(loc, iter_of(st, st.read(loc)))
                else: it = iter_of(st, st.val(it))
        def upd(s, loc, x):
            out = []
            for t in eng.call_value(s, a[1], [x], i.site):
                c = t.ret; t.ret = None
                for u, v in bfork(t, c):
                    if v == want: u.write(loc, found(x)); out.append((u, True))
                    else: out.append((u, False))
            return out
        return acc_loop(eng, st, it, skey(eng, i), missing, upd)
    return f
REG[I + 'any'] = search(True, lambda x: TRUE, FALSE)
REG[I + 'all'] = search(False, lambda x: FALSE, TRUE)
REG[I + 'find'] = search(True, lambda x: Some(x), NONE)
@m(I + 'position')
def _(eng, st, a, i):
    it = T('ienum', iter_of(st, a[0]), Int(0))
    def upd(s, loc, x):
        out = []
        for t in eng.call_value(s, a[1], [x.args[3]], i.site):
            c = t.ret; t.ret = None
            for u, v in bfork(t, c):
                if v: u.write(loc, Some(x.args[2])); out.append((u, True))
                else: out.append((u, False))
        return out
    return acc_loop(eng, st, it, skey(eng, i), NONE, upd)
@m(I + 'last')
def _(eng, st, a, i):
    it = iter_of(st, st.val(a[0]) if a[0].op == 'ref' else a[0])
    if it.op != 'iter': return eng.opaque_call(st, 'Iterator::last', [T('iterval', it)], i.site, i.dty)
    return first_last('last')(eng, st, [it.args[0]], i)
@m(I + 'nth')
def _(eng, st, a, i):
    loc = mloc(st, a[0]); v = st.read(loc)
    if v.op == 'iter' and a[1].op == 'int':
        out = []; L = v.args[0]
        for s, lt in bfork(st, E.mk_lt(a[1], E.mk_len(L))): s.ret = Some(T('at', L, a[1])) if lt and L.op != 'seq' else (Some(E.get_index(L, a[1])) if lt else NONE); s.write(loc, T('iter', T('slice', L, add(a[1], Int(1)), T('end')))); out.append(s)
        return out
    return eng.opaque_call(st, 'Iterator::nth', a, i.site, i.dty, atys=i.atys)
for n in ('max', 'min', 'max_by_key', 'min_by_key', 'max_by', 'min_by', 'reduce', 'rposition', 'product', 'dedup', 'scan', 'step_by', 'flatten', 'eq', 'cmp'):
    REG[I + n] = (lambda n: lambda eng, st, a, i: eng.opaque_call(st, 'Iterator::' + n, [T('iterval', iter_of(st, a[0]))] + [clos_key(eng, st, y) if y.op in ('clos', 'fn') else y for y in a[1:]], i.site, i.dty, atys=None, pure=True))(n)
def step_by_known(other):
    def f(eng, st, a, i):
        it = iter_of(st, a[0])
        if it.op == 'iter' and it.args[0].op == 'seq' and a[1].op == 'int' and a[1].args[0] > 0 and all(p.op == 'one' for p in it.args[0].args[1:]): return ret(st, T('iter', mk_seq('l', list(it.args[0].args[1::a[1].args[0]]))))
        return other(eng, st, a, i)
    return f
REG[I + 'step_by'] = step_by_known(REG[I + 'step_by'])
def two_loop(eng, st, a, i, kinds, upd, mk):
    it = iter_of(st, a[0]); key = skey(eng, i)
    roots = [(('H', 'acc%d' % n, len(eng.stack), key), ()) for n in (0, 1)]
    for r, k in zip(roots, kinds): st.mem[r[0]] = EMPTY_S if k == 's' else EMPTY_L
    out = []
    for s, tag in consume(eng, st, it, key, lambda s, x: upd(s, roots, x)):
        s.ret = Tup(*[f(s.mem.pop(r[0])) for r, f in zip(roots, mk)]); out.append(s)
    return eng.merge(out)
FIN = {'s': lambda v: v, 'l': lambda v: v, 'set': lambda v: T('setof', v), 'map': lambda v: map_of(v)}
@m(I + 'unzip', I + 'partition')
def _(eng, st, a, i):
    ts = [eng.prog.types[x] for x in i.dty['args']] if i.dty and len(i.dty.get('args', ())) == 2 else [eng.prog.types[x] for x in i.dty.get('ts', ())] if i.dty else []
    ks = [collect_kind(t) for t in ts]
    if len(ks) != 2 or any(k not in FIN for k in ks): return eng.opaque_call(st, 'Iterator::' + i.f['name'], [T('iterval', iter_of(st, a[0]))] + [clos_key(eng, st, y) for y in a[1:]], i.site, i.dty, pure=True)
    part = i.f['name'] == 'partition'
    def app(s, loc, k, x):
        v = s.read(loc); s.write(loc, mk_seq('s' if k == 's' else 'l', pieces(v) + piece_of(x, s, False, k)))
    def upd(s, roots, x):
        if not part:
            for n in (0, 1): app(s, roots[n], ks[n], E.get_field(s.val(x), n))
            return [(s, False)]
        out = []
        for t in eng.call_value(s, a[1], [x], i.site):
            c = t.ret; t.ret = None
            for u, v in bfork(t, c):
                n = 0 if v else 1
                app(u, roots[n], ks[n], x); out.append((u, False))
        return out
    return two_loop(eng, st, a, i, ks, upd, [FIN[k] for k in ks])
@m(I + 'try_for_each', I + 'try_fold')
def _(eng, st, a, i):
    if not i.dty or collect_kind(i.dty) != 'try': return eng.opaque_call(st, 'Iterator::' + i.f['name'], [T('iterval', iter_of(st, st.val(a[0])))] + [clos_key(eng, st, y) for y in a[1:]], i.site, i.dty, pure=True)
    opt = i.dty['path'] == OPT; fold = i.f['name'] == 'try_fold'
    it = iter_of(st, st.val(a[0]) if a[0].op == 'ref' else a[0])
    def upd(s, loc, x):
        out = []
        for t in eng.call_value(s, a[-1], ([s.read(loc)] if fold else []) + [x], i.site):
            c = t.ret; t.ret = None
            for s2, good, p in xsplit(eng, t, c, {'path': 'Option' if opt else 'std::result::Result'}):
                if good: s2.write(loc, p if fold else UNIT); out.append((s2, False))
                else: s2.write(loc, T('fail', p if p is not None else UNIT)); out.append((s2, True))
        return out
    return acc_loop(eng, st, it, skey(eng, i), a[1] if fold else UNIT, upd, lambda v: (NONE if opt else Err(v.args[0])) if v.op == 'fail' else Some(v) if opt else Ok(v))
@m(I + 'flatten')
def _(eng, st, a, i):
    t = item_type(eng, i.atys[0]) if i.atys else None
    if t is not None and t.get('path') in (OPT, RES): return ret(st, T('iflatr', iter_of(st, a[0]), Str('Some' if t['path'] == OPT else 'Ok')))
    if walk_item(i.atys[0]['txt'] if i.atys else ''): return ret(st, T('iflatr', iter_of(st, a[0]), Str('Ok')))
    return eng.opaque_call(st, 'Iterator::flatten', [T('iterval', iter_of(st, a[0]))], i.site, i.dty, pure=True)
def walk_item(t): return t.split('<')[0] in ('walkdir::IntoIter', 'walkdir::FilterEntry', 'std::fs::ReadDir')

# ------------------------------------------------------------------------- formatting
def to_text(eng, st, x, t):
    """Display of a value of type t"""
    v = st.val(x)
    if t is not None:
        txt = t['txt']
        while txt.startswith('&'): txt = re.sub(r"^&('\w+ )?(mut )?", '', txt)
        if txt in ('str', 'std::string::String') or txt.startswith('std::borrow::Cow<'): return v
        if txt == 'char': return mk_seq('s', [One(v)])
        if v.op == 'int': return Str(str(v.args[0]))
        if t['k'] == 'param' or txt == 'T': return App('display', v)
    if v.op in ('str', 'seq'): return v
    return App('display', v)
@m('core::fmt::rt::Argument::new_display', 'std::fmt::rt::Argument::new_display')
def _(eng, st, a, i):
    t = None
    ar = i.f.get('rargs') or i.f.get('args') or []
    for x in ar:
        if isinstance(x, int): t = eng.prog.types[x]
    if t is None and i.atys: t = i.atys[0]
    return ret(st, T('fmtarg', to_text(eng, st, a[0], t)))
@m('core::fmt::rt::Argument::new_debug', 'std::fmt::rt::Argument::new_debug')
def _(eng, st, a, i): return ret(st, T('fmtarg', App('debug', st.val(a[0]))))
def decode(tpl, args):
    i = 0; n = 0; ps = []
    while i < len(tpl):
        b = tpl[i]; i += 1
        if b == 0: break
        if b < 0x80: ps.append(Str(tpl[i:i + b].decode('utf8', 'replace'))); i += b
        elif b == 0x80:
            l = tpl[i] | tpl[i + 1] << 8; i += 2
            ps.append(Str(tpl[i:i + l].decode('utf8', 'replace'))); i += l
        else:
            opts = None
            if b == 0xC0: k = n
            else:
                o = []
                if b & 1: o.append(int.from_bytes(tpl[i:i + 4], 'little')); i += 4
                if b & 2: o.append(int.from_bytes(tpl[i:i + 2], 'little')); i += 2
                if b & 4: o.append(int.from_bytes(tpl[i:i + 2], 'little')); i += 2
                k = n
                if b & 8: k = int.from_bytes(tpl[i:i + 2], 'little'); i += 2
                opts = (b & 7, tuple(o)) if b & 7 else None
            n = k + 1
            if k >= len(args): return None
            x = args[k].args[0] if args[k].op == 'fmtarg' else App('display', args[k])
            if opts: ps.append(App('padded', Str(repr(opts)), x))
            else: ps += pieces(x)
    return mk_seq('s', ps)
@m('std::fmt::Arguments::new')
def _(eng, st, a, i):
    tpl = st.val(a[0]); ar = as_list(st.val(a[1]))
    args = [p.args[0] for p in ar.args[1:]] if ar.op == 'seq' else [ar]
    if tpl.op == 'bytestr':
        r = decode(tpl.args[0], args)
        if r is not None: return ret(st, T('fmt', r))
    return ret(st, T('fmt', App('format', tpl, ar)))
@m('std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const')
def _(eng, st, a, i): return ret(st, T('fmt', st.val(a[0])))
@m('std::fmt::format')
def _(eng, st, a, i): return ret(st, a[0].args[0] if a[0].op == 'fmt' else App('format', a[0]))
@m('std::fmt::Formatter::write_fmt', 'std::fmt::Formatter::write_str', 'std::fmt::Write::write_str', 'std::fmt::Write::write_fmt', 'std::fmt::Write::write_char')
def _(eng, st, a, i):
    x = st.val(a[1]); x = x.args[0] if x.op == 'fmt' else x
    if i.f.get('name') == 'write_char': x = mk_seq('s', [One(x)])
    t = i.atys[0]['txt'] if i.atys else ''
    if 'String' in t:
        loc = mloc(st, a[0]); st.write(loc, cat_s(st.read(loc), x)); return ret(st, Ok(UNIT))
    if a[0].op == 'ref':
        loc = mloc(st, a[0]); st.write(loc, cat_s(st.read(loc), x)); return ret(st, Ok(UNIT))
    st.emit(('call', 'fmt.write', (x,), None, i.site))
    return ret(st, Ok(UNIT))
@m('std::path::Path::new')
def _(eng, st, a, i): return ret(st, a[0])
@m('std::fs::OpenOptions::new', 'std::fs::File::options')
def _(eng, st, a, i): return ret(st, App('fs.options'))
for n in ('read', 'write', 'append', 'truncate', 'create', 'create_new'):
    def _(eng, st, a, i, n=n):
        loc = mloc(st, a[0]); on = {x.args[0] for x in st.read(loc).args[1:]} if st.read(loc).op == 'app' and st.read(loc).args[0] == 'fs.options' else None
        v = st.val(a[1])
        if on is None or v.op != 'bool': st.write(loc, App('fs.options.' + n, st.read(loc), v)); return ret(st, a[0])
        on = on | {n} if v.args[0] else on - {n}
        st.write(loc, App('fs.options', *[Str(x) for x in sorted(on)])); return ret(st, a[0])
    REG['std::fs::OpenOptions::' + n] = _
@m('std::fs::OpenOptions::open')
def _(eng, st, a, i):
    o = st.val(a[0])
    if o is App('fs.options', *[Str(x) for x in ('create', 'truncate', 'write')]): return eng.opaque_call(st, 'std::fs::File::create', [a[1]], i.site, i.dty, atys=i.atys[1:] if i.atys else None)
    return eng.opaque_call(st, 'std::fs::OpenOptions::open', a, i.site, i.dty, atys=i.atys)
@m('std::io::_print', 'std::io::_eprint')
def _(eng, st, a, i):
    # messages to the terminal are not behaviour, except for the rule about warnings
    if getattr(eng, 'diag', False): x = st.val(a[0]); st.emit(('call', 'message', (x.args[0] if x.op == 'fmt' else x,), None, i.site))
    return ret(st, UNIT)
for n in ('std::rt::panic_fmt', 'std::panicking::panic_fmt', 'core::panicking::panic', 'std::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::assert_failed', 'std::rt::begin_panic', 'core::panicking::panic_explicit', 'core::panicking::unreachable_display', 'std::panicking::assert_failed', 'core::panicking::panic_display', 'std::panicking::panic_display', 'core::panicking::unimplemented_default_msg', 'core::panicking::unimplemented_display',
          'core::option::expect_failed', 'core::result::unwrap_failed', 'std::process::abort', 'std::process::exit'):
    def _(eng, st, a, i, n=n):
        eng.panic(st, 'panic', i.site, n); return []
    REG[n] = _

@m('walkdir::IntoIter::filter_entry', 'walkdir::FilterEntry::filter_entry')
def _(eng, st, a, i): return ret(st, T('iter', App('walkdir.filter_entry', st.val(a[0]), clos_key(eng, st, a[1]))))
# ------------------------------------------------------------------------- regex
@m('regex::Regex::new')
def _(eng, st, a, i):
    x = st.val(a[0])
    return ret(st, Ok(App('Regex', Str(regexeq.representative(x.args[0])) if x.op == 'str' else x)))
@m('regex::Regex::is_match')
def _(eng, st, a, i):
    r = st.val(a[0])
    if r.op == 'app' and r.args[0] == 'Regex' and r.args[1].op == 'str': r = App('Regex', Str(regexeq.representative_texts(r.args[1].args[0])))
    return ret(st, App('re.is_match', r, st.val(a[1])))
@m('regex::Captures::get')
def _(eng, st, a, i): return ret(st, App('re.get', st.val(a[0]), st.val(a[1])))
@m('regex::Match::as_str')
def _(eng, st, a, i): return ret(st, App('re.as_str', st.val(a[0])))
@m('regex::Regex::replace_all', 'regex::Regex::replace')
def _(eng, st, a, i):
    n = i.f.get('name') or keys(i.f)[0].split('::')[-1]
    rep = st.val(a[2])
    if rep.op in ('clos', 'fn'): rep = clos_key(eng, st, a[2])
    return ret(st, App('re.' + n, st.val(a[0]), st.val(a[1]), rep))

# ------------------------------------------------------------------------- DOM
@m('libxml::readonly::RoNode::get_child_nodes')
def _(eng, st, a, i):
    return ret(st, T('sibs', App('libxml::readonly::RoNode::get_first_child', st.val(a[0]))))

GT = 'libxml::readonly::RoNode::get_type'
def ntype(x): return T('ntype', x)
@m(GT, 'libxml::tree::Node::get_type')
def _(eng, st, a, i): return ret(st, Some(ntype(st.val(a[0]))))
NT = 'libxml::tree::NodeType'
def nt_is(x, name):
    return E.mk_eq(T('disc', ntype(x), NT), Int(E.variant_disc(T('agg', NT, name))))
for fn, nm in (('is_text_node', 'TextNode'), ('is_element_node', 'ElementNode')):
    REG['libxml::readonly::RoNode::' + fn] = REG['libxml::tree::Node::' + fn] = (lambda nm: lambda eng, st, a, i: ret(st, nt_is(st.val(a[0]), nm)))(nm)

def materialize(eng, st, v):
    """an iterator handed to an unknown function counts as the list it yields"""
    if v.op not in ITOPS: return v
    try:
        s = st.copy()
        def upd(s, loc, x): s.write(loc, mk_seq('l', pieces(s.read(loc)) + [One(s.val(x))])); return [(s, False)]
        n = len(eng.panics)
        rs = acc_loop(eng, s, v, 'mat', EMPTY_L, upd)
        del eng.panics[n:]
        if len(rs) == 1 and rs[0].trace == st.trace: return T('iter', rs[0].ret)
    except E.Inconclusive: pass
    return v

# ------------------------------------------------------------------------- floating point
F64 = 'std::f64::{f64}::'
@m(F64 + 'log2')
def _(eng, st, a, i): return ret(st, App('f64.log2', st.val(a[0])))
@m(F64 + 'ln', F64 + 'log10', F64 + 'max', F64 + 'min', F64 + 'abs', F64 + 'floor', F64 + 'ceil', F64 + 'round', F64 + 'trunc', F64 + 'sqrt', F64 + 'powf', F64 + 'powi', F64 + 'exp', F64 + 'exp2', F64 + 'ln_1p', F64 + 'clamp', F64 + 'mul_add')
def _(eng, st, a, i): return ret(st, App('f64.' + i.f.get('name'), *[st.val(x) for x in a]))
@m(F64 + 'log')
def _(eng, st, a, i):
    if show(a[1]) == "float('2')": return ret(st, App('f64.log2', st.val(a[0])))
    return ret(st, App('f64.log', st.val(a[0]), st.val(a[1])))
# ---------------------------------------------------------------- checked string slices and in-place case
def _strget(mut):
    def f(eng, st, a, i):
        loc = mloc(st, a[0]); v = st.val(a[0]); r = norm_range(eng, st, v, a[1])
        if r is None: raise E.Inconclusive("range of a string slice")
        lo, hi = r; out = []
        for s, ok in bfork(st, App('str.in_range', v, lo, hi)):
            if not ok: s.ret = NONE
            elif mut: s.ret = Some(T('ref', (loc[0], loc[1] + (('slice', lo, hi),))))
            else: s.ret = Some(mk_slice(v, lo, hi))
            out.append(s)
        return out
    return f
REG[st_ + 'get'] = _strget(False); REG[st_ + 'get_mut'] = _strget(True)
for n in ('upper', 'lower'):
    def _(eng, st, a, i, n=n):
        loc = mloc(st, a[0]); st.write(loc, App('str.to_ascii_%scase' % n, st.read(loc))); st.ret = E.UNIT; return [st]
    REG[st_ + 'make_ascii_%scase' % n] = _

# an Option used as an iterator is a list of at most one element
def option_items(f, k):
    def g(eng, st, a, i):
        t = i.atys[k]['txt'] if i.atys and len(i.atys) > k else ''
        if not t.replace('&', '').replace('mut ', '').strip().startswith('std::option::Option<') or a[k].op == 'ref' and t.startswith('&mut'): return f(eng, st, a, i)
        out = []
        for s, n, x in osplit(eng, st, st.val(a[k])):
            out += f(eng, s, a[:k] + [T('iter', mk_seq('l', [One(pay(x, 'Some'))] if n == 'Some' else []))] + a[k + 1:], i)
        return out
    return g
for n, k in (('std::iter::IntoIterator::into_iter', 0), ('std::iter::Extend::extend', 1), (I + 'chain', 1)): REG[n] = option_items(REG[n], k)
# ------------------------------------------------------------------------- parallel iterators
# the operations of a parallel reduction are run one after the other; that any order gives the same is
# established where the result is compared with a sum over the elements
PI = 'rayon::iter::ParallelIterator::'
REG['rayon::iter::ParallelBridge::par_bridge'] = REG['rayon::iter::IntoParallelIterator::into_par_iter'] = lambda eng, st, a, i: ret(st, iter_of(st, a[0]))
for n in ('map', 'filter', 'filter_map', 'sum', 'count', 'for_each', 'inspect', 'any', 'all', 'collect', 'flat_map', 'flat_map_iter', 'cloned', 'copied'):
    if I + n in REG or n == 'flat_map_iter': REG[PI + n] = REG[I + n.replace('flat_map_iter', 'flat_map')]
@m(PI + 'reduce')
def _(eng, st, a, i):
    out = []
    for s in eng.call_value(st, a[1], [], i.site):
        z = s.ret; s.ret = None
        out += REG[I + 'fold'](eng, s, [a[0], z, a[2]], i)
    return out
# which entries a walk yields does not depend on these settings
for n in ('num_threads', 'sort', 'preload_metadata'): REG['jwalk::WalkDir::' + n] = lambda eng, st, a, i: ret(st, a[0])
REG['rayon::current_num_threads'] = lambda eng, st, a, i: ret(st, App('rayon.threads'))
