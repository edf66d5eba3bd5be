"""Effects: what is written, what is changed, what is locked.  Call sites of every function of the crate, the values
that flow into them (definitions of locals, through the callers where a parameter is passed on), and the calls made
while a guard lives."""
import re
from registry import prop
from rules import *
import engine as E

def bodies(c):
    return [b for b in c.prog.bodies.values() if '__spec' not in b.path and '__spec' not in b.uid and b.j['kind'] == 'fn' and '/src/' in b.j.get('span', '')]
def ext(f): return f.get('rpath') or f.get('path') or ''
def bare(p): return re.sub(r'::<[^<>]*(?:<[^<>]*>[^<>]*)*>', '', p)
def src(site): return re.sub(r'.*/src/', 'src/', re.sub(r':\d+$', '', site or ''))
def name(b): return b.path.replace('crate::', '')

class Flow:
    """definitions of the locals of a body"""
    def __init__(self, prog, b):
        self.prog = prog; self.b = b; self.defs = {}; self.uses = {}
        for n, blk in enumerate(b.blocks):
            if blk.get('cleanup'): continue
            for s in blk['s']:
                if s[0] != '=': continue
                self.defs.setdefault(s[1][0], []).append(('rv', s[1][1], s[2], s[3] if len(s) > 3 else ''))
                self.use(s[2], ('rv', s[1], s[2], n))
                if s[1][1]: self.mention(s[1][1], ('rv', s[1], s[2], n))
            t = blk['t']
            if t[0] == 'call':
                self.defs.setdefault(t[3][0], []).append(('call', t[3][1], t[1], t[2], t[5] if len(t) > 5 else ''))
                for k, a in enumerate(t[2]): self.use(a, ('call', t, k, n))
                if 'indirect' in t[1]: self.use(t[1]['indirect'], ('call', t, -1, n))
            elif t[0] in ('switch', 'assert'): self.use(t[1], ('switch', t, n))
    def use(self, j, how):
        if isinstance(j, dict):
            if 'P' in j:
                self.uses.setdefault(j['P'][0], []).append(how); return
            for v in j.values(): self.use(v, how)
        elif isinstance(j, list):
            if j and j[0] in ('ref', 'rawptr', 'discr', 'len') and len(j) > 1 and isinstance(j[1], list) and j[1] and isinstance(j[1][0], int):
                self.uses.setdefault(j[1][0], []).append(how); return
            for v in j: self.use(v, how)
    def mention(self, proj, how): pass
    def ty(self, l): return self.prog.types[self.b.locals[l][0]]['txt']

class World:
    def __init__(self, c):
        self.c = c; self.prog = c.prog; self.bs = bodies(c); self.flows = {}; self.sites = {}; self.parents = {}
        for b in self.bs:
            for f, t in callees(self.prog, b):
                u = (f.get('ruid') if f.get('local') else None) or f.get('uid')
                if u in self.prog.bodies: self.sites.setdefault(u, []).append((b, t))
            for n, blk in enumerate(b.blocks):
                for s in blk['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure': self.parents.setdefault(s[2][1][1], []).append((b, s[2][2]))
    def flow(self, b):
        if b.uid not in self.flows: self.flows[b.uid] = Flow(self.prog, b)
        return self.flows[b.uid]
    def operand(self, b, o, through, seen):
        if 'P' in o: return self.origin(b, o['P'][0], o['P'][1], through, seen)
        return {('const', str(o.get('K', {}).get('v', o.get('K', {}).get('c'))))}
    def origin(self, b, l, proj, through, seen=None):
        """where a value comes from: parameters of public functions, constants, results of calls"""
        seen = set() if seen is None else seen
        if b.closure and l == 1:
            # captured by the closure
            k = next((p[1] for p in proj if isinstance(p, list) and p[0] == '.'), None)
            if (b.uid, l, k) in seen: return set()
            seen.add((b.uid, l, k)); out = set()
            for pb, ops in self.parents.get(b.uid, ()):
                if k is not None and k < len(ops): out |= self.operand(pb, ops[k], through, seen)
            return out or {('other', 'captured')}
        if (b.uid, l) in seen: return set()
        seen.add((b.uid, l)); out = set()
        if 1 <= l <= b.nargs:
            if b.closure: return {('arg', b.uid, l)}
            if b.j.get('vis') == 'pub' and not b.j.get('impl_trait'): return {('param', b.uid, l)}
            for cb, t in self.sites.get(b.uid, ()):
                if l - 1 < len(t[2]): out |= self.operand(cb, t[2][l - 1], through, seen)
            return out or {('param', b.uid, l)}
        for d in self.flow(b).defs.get(l, ()):
            if d[0] == 'rv':
                r = d[2]
                if r[0] in ('use', 'cast'):
                    o = r[1] if r[0] == 'use' else r[2]
                    out |= self.operand(b, o, through, seen)
                elif r[0] in ('ref', 'rawptr'): out |= self.origin(b, r[1][0], r[1][1], through, seen)
                elif r[0] == 'agg':
                    for o in r[2]: out |= self.operand(b, o, through, seen)
                    if not r[2]: out.add(('const', 'unit'))
                else: out.add(('other', r[0]))
            else:
                p = ext(d[2]); k = through(d[2], p)
                if k is None:
                    u = (d[2].get('ruid') if d[2].get('local') else None) or d[2].get('uid')
                    cb = self.prog.bodies.get(u)
                    if cb is not None:
                        # the result of a function of the crate
                        res = self.origin(cb, 0, [], through, seen)
                        for x in res:
                            if x[0] == 'param' and x[1] == cb.uid and x[2] - 1 < len(d[3]): out |= self.operand(b, d[3][x[2] - 1], through, seen)
                            else: out.add(x)
                    else: out.add(('call', bare(p)))
                elif k < len(d[3]): out |= self.operand(b, d[3][k], through, seen)
        return out or {('other', 'undefined')}

SAME = re.compile(r'(Deref>?::deref|DerefMut>?::deref_mut|AsRef.*::as_ref|Borrow.*::borrow|Clone>?::clone|ToString>?::to_string|ToOwned>?::to_owned|Into.*>?::into|From.*>?::from|::as_str|::as_path|::to_path_buf|::into_boxed_str|Path::new|::as_os_str|::into_string|::unwrap|::expect|Try>?::branch|::as_ref|::as_mut|::to_owned|::to_string|::into|::from|::clone|Option.*::as_deref|::into_inner|::by_ref|::borrow|::borrow_mut|::unwrap_or_else)$')
def same_value(f, p): return 0 if SAME.search(bare(p)) else None

def done(c, w, rule, n):
    c.funcs |= {b.path for b in w.bs}; c.sites += n
    c.ok('all sites', rule, 'src', '%d sites in %d functions' % (n, len(w.bs)))
def held_to(c, key, rule, where, cond, why): (c.ok if cond else c.bad)(key, rule, where, *([] if cond else [why]))

# ---------------------------------------------------------------------------------------------- outputs
WRITES = [(re.compile(x), k) for x, k in ((r'^std::fs::File::create(_new)?$', 0), (r'^std::fs::write$', 0), (r'^std::fs::(remove_file|remove_dir|remove_dir_all|create_dir|create_dir_all|set_permissions)$', 0),
    (r'^std::fs::(rename|copy|hard_link)$', 1), (r'^std::os::unix::fs::symlink$', 1), (r'^std::fs::OpenOptions::open$', 1), (r'^libxml::tree::Document::save_file$', 1),
    (r'^gnuplot::Figure::set_terminal$', 2), (r'^gnuplot::Figure::(save_to_\w+|echo_to_file)$', 1), (r'^std::fs::DirBuilder::create$', 1))]
NEVER = re.compile(r'^std::process::(exit|abort)$|^std::env::(set_var|remove_var|set_current_dir)$|^std::process::Command::|^std::net::|^std::fs::(rename|remove_\w+)$')
IO_SINK = re.compile(r'(as std::io::Write>::(write|write_all|flush|write_fmt|write_vectored)|std::io::Write::(write|write_all|flush|write_fmt|by_ref)|std::fs::(write|copy|rename|remove_\w+|create_dir\w*)|std::fs::File::(create|sync_all|sync_data|set_len|create_new)|OpenOptions::open|libxml::tree::Document::save_file|gnuplot::Figure::(show|save_to_\w+|show_and_keep_running|echo_to_file))$')
PASSED = re.compile(r'::(ok|err|is_ok|is_err|unwrap_or|unwrap_or_default|unwrap_or_else|map|map_err|and_then|or_else|and|or|is_some|is_none|as_ref|as_mut|inspect_err|inspect|map_or|clone|into|context)$')
READS = re.compile(r'::(unwrap|expect|branch|unwrap_err|expect_err|from_residual|unwrap_unchecked)$')

def handled(w, b, l, depth=0):
    """a failure kept in this local is looked at: it panics, is returned, or decides what comes next"""
    fl = w.flow(b)
    if l == 0: return True
    if depth > 12: return True
    for u in fl.uses.get(l, ()):
        if u[0] == 'switch': return True
        if u[0] == 'rv':
            if u[2][0] == 'discr': return True
            if u[1][1]: return True                      # stored in something that lives on
            if handled(w, b, u[1][0], depth + 1): return True
        else:
            p = bare(ext(u[1][1]))
            if READS.search(p): return True
            if p.endswith('mem::drop') or p.endswith('mem::forget') : continue
            if PASSED.search(p) and u[2] == 0:
                if handled(w, b, u[1][3][0], depth + 1): return True
                continue
            return True                                   # handed on
    return False

@prop('P34')
def outputs(c):
    w = World(c); rule = 'a file is written only where the caller says, and whoever writes looks at the result'
    n = 0
    for b in w.bs:
        seen = {}
        for f, t in callees(w.prog, b):
            p = bare(ext(f)); at = src(t[5] if len(t) > 5 else '')
            k = next((k for r, k in WRITES if r.search(p)), None)
            key = '%s/%s' % (name(b), p.split('::')[-1]); seen[key] = seen.get(key, 0) + 1; key += '' if seen[key] == 1 else '#%d' % seen[key]
            if NEVER.search(p):
                n += 1; c.bad(key, rule, c.where(b), 'calls %s (%s): a library function changes the process or the files around it' % (p, at)); continue
            if k is not None and k < len(t[2]):
                n += 1
                os = w.operand(b, t[2][k], same_value, set())
                alien = [o for o in os if o[0] not in ('param',)]
                if alien: c.bad(key + '/where', rule, c.where(b), '%s writes to %s (%s), not to a place its caller names' % (p, ', '.join('the constant %s' % o[1] if o[0] == 'const' else 'the result of ' + o[1] if o[0] == 'call' else str(o[1]) for o in sorted(alien, key=str)), at))
                else: c.ok(key + '/where', rule, c.where(b), 'parameter of %s' % ', '.join(sorted({o[1] for o in os})))
            if IO_SINK.search(p) and 'Result' in w.flow(b).ty(t[3][0]):
                n += 1
                held_to(c, key + '/result', rule, c.where(b), handled(w, b, t[3][0]), 'the result of %s (%s) is passed over: a failed write goes unnoticed' % (p, at))
                if p.endswith('::write'):
                    # a partial write: the number of bytes has to be looked at
                    held_to(c, key + '/partial', rule, c.where(b), counted(w, b, t[3][0]), '%s (%s) may write a part only, and how much is not looked at' % (p, at))
        for m, l, site in writers(w, b):
            n += 1
            bad = unflushed(w, b, m, l)
            held_to(c, '%s/flush' % name(b), rule, c.where(b), bad is None, 'what the buffered writer made at %s still holds when the function returns (%s) is written when it is dropped, where a failure goes unnoticed' % (src(site), bad))
    done(c, w, rule, n)
def counted(w, b, l, depth=0):
    """the number in an Ok is used"""
    for u in w.flow(b).uses.get(l, ()):
        if depth > 10: return True
        if u[0] == 'rv':
            if u[2][0] in ('bin',) or u[1][1]: return True
            if u[2][0] == 'discr': continue
            d = u[1][0]
        elif u[0] == 'switch': return depth > 0 and w.flow(b).ty(l) == 'usize'
        else:
            p = bare(ext(u[1][1])); d = u[1][3][0]
            if not (READS.search(p) or PASSED.search(p)): return True
        if d == 0 or counted(w, b, d, depth + 1): return True
    return False
def writers(w, b):
    for n, blk in enumerate(b.blocks):
        t = blk['t']
        if t[0] == 'call' and not blk.get('cleanup') and re.search(r'std::io::(BufWriter|LineWriter)::(new|with_capacity)$', bare(ext(t[1]))): yield n, t[3][0], t[5] if len(t) > 5 else ''
def unflushed(w, b, n, l):
    """a way from the making of the writer to a return, on which nothing empties it (early returns of an error excepted)"""
    holders = {l}; ch = True
    fl = w.flow(b)
    while ch:
        ch = False
        for x, ds in fl.defs.items():
            if x in holders: continue
            for d in ds:
                ops = [d[2]] if d[0] == 'rv' else [d[3]] if re.search(r'::(new|clone|deref|deref_mut|lock|unwrap|expect|borrow_mut|by_ref|as_mut|as_ref|get_mut)$', bare(ext(d[2]))) else []
                if any(h in holders for o in ops for h in places(o)): holders.add(x); ch = True; break
    if 0 in holders: return None
    def empties(t):
        p = bare(ext(t[1]))
        if re.search(r'(::flush|BufWriter::into_inner|BufWriter::into_parts)$', p): return any(h in holders for h in places(t[2]))
        if re.search(r'mem::(drop|forget)$', p): return False
        # given away by value
        if any('P' in a and a.get('m') and a['P'][0] in holders and not a['P'][1] and 'BufWriter' in fl.ty(a['P'][0]) and not fl.ty(a['P'][0]).startswith('&') for a in t[2]) and t[3][0] not in holders: return True
        return False
    def writes(t):
        p = bare(ext(t[1]))
        return re.search(r'::(write|write_all|write_fmt|write_vectored)$', p) and any(h in holders for h in places(t[2]))
    # blocks from which a return is reached without emptying
    seen = set(); work = [b.blocks[n]['t'][4]]
    dirty_calls = [blk['t'] for blk in b.blocks if not blk.get('cleanup') and blk['t'][0] == 'call' and writes(blk['t'])]
    while work:
        x = work.pop()
        if x is None or x in seen: continue
        seen.add(x); blk = b.blocks[x]; t = blk['t']
        if blk.get('cleanup'): continue
        if t[0] == 'return': return 'without a flush'
        if t[0] == 'call':
            if empties(t): continue
            if ext(t[1]).endswith('from_residual'): continue
            work.append(t[4])
        else: work += succs(t)
    # something written behind the last flush
    for i, blk in enumerate(b.blocks):
        if blk.get('cleanup') or blk['t'][0] != 'call' or not writes(blk['t']): continue
        seen = set(); work = [blk['t'][4]]
        while work:
            x = work.pop()
            if x is None or x in seen: continue
            seen.add(x); k = b.blocks[x]; t = k['t']
            if k.get('cleanup'): continue
            if t[0] == 'return': return 'after a last write'
            if t[0] == 'call':
                if empties(t) or ext(t[1]).endswith('from_residual'): continue
                work.append(t[4])
            else: work += succs(t)
    return None
def succs(t):
    if t[0] == 'goto': return [t[1]]
    if t[0] == 'switch': return [x[1] for x in t[2]] + [t[3]]
    if t[0] == 'drop': return [t[2]]
    if t[0] == 'assert': return [t[4]]
    if t[0] == 'call': return [t[4]] if t[4] is not None else []
    return []
def places(j):
    if isinstance(j, dict):
        if 'P' in j: yield j['P'][0]; return
        for v in j.values(): yield from places(v)
    elif isinstance(j, list):
        if j and j[0] in ('ref', 'rawptr', 'discr', 'len') and len(j) > 1 and isinstance(j[1], list) and j[1] and isinstance(j[1][0], int): yield j[1][0]; return
        for v in j: yield from places(v)

# ---------------------------------------------------------------------------------------------- documents
def tree_value(f, p):
    """values of the tree a value belongs to"""
    q = bare(p)
    if SAME.search(q): return 0
    if q.startswith('libxml::') and not re.search(r'::(new|new_ns|new_text|new_cdata|mock|null|default\w*|parse_\w+)$', q): return 0
    if re.search(r'(Iterator::\w+|IntoIterator::into_iter|IntoIterator>::into_iter|Iterator>::next|::iter|::iter_mut|::get|::get_mut|::first|::last|::pop|Index.*::index\w*|::next|::values\w*|::remove|::swap_remove)$', q): return 0
    return None
FRESH = re.compile(r'^libxml::tree::(Document::new|Node::(new|new_ns|new_text|new_cdata))$|^libxml::parser::Parser::parse_string\w*$')
@prop('P35')
def documents(c):
    w = World(c); rule = 'only trees the function itself has made are changed'; n = 0
    for b in w.bs:
        seen = {}
        for f, t in callees(w.prog, b):
            p = bare(ext(f))
            if not p.startswith('libxml::'): continue
            given_away = [a for a in t[2] if 'P' in a and re.match(r"&('\w+ )?mut libxml::tree::", arg_type(w, b, a) or '')]
            if not given_away: continue
            n += 1; at = src(t[5] if len(t) > 5 else '')
            key = '%s/%s' % (name(b), p.split('::')[-1]); seen[key] = seen.get(key, 0) + 1; key += '' if seen[key] == 1 else '#%d' % seen[key]
            os = set().union(*[w.operand(b, a, tree_value, set()) for a in given_away])
            alien = [o for o in os if not (o[0] == 'call' and FRESH.search(o[1])) and not (o[0] == 'const') and not given(w, o)]
            held_to(c, key, rule, c.where(b), not alien, '%s (%s) changes a tree that comes from %s' % (p, at, ', '.join(sorted('the result of ' + o[1] if o[0] == 'call' else 'a parameter of ' + o[1].split('::', 1)[-1] if o[0] == 'param' else str(o[1]) for o in alien))))
    done(c, w, rule, n)
    for s in w.prog_statics(): held_to(c, 'static ' + s['path'], 'no state outside values that can change unprotected', src(s.get('span')), not s['mut'], 'a static that can be written without protection')
def given(w, o):
    """a parameter that is asked for in order to change it"""
    if o[0] != 'param': return False
    b = w.prog.bodies.get(o[1])
    return b is not None and bool(re.match(r"&('\w+ )?mut libxml::tree::", w.flow(b).ty(o[2])))
def arg_type(w, b, a):
    l, proj = a['P']
    if not proj: return w.flow(b).ty(l)
    k = [p for p in proj if isinstance(p, list) and p[0] == '.']
    return w.prog.types[k[-1][3]]['txt'] if k and len(k[-1]) > 3 else None
World.prog_statics = lambda self: [s for s in self.prog.statics if '__spec' not in s['path'] and '__stability' not in s['path'] and '/src/' in s.get('span', '')]

# ---------------------------------------------------------------------------------------------- locks
LOCK = re.compile(r'^std::sync::(?:\w+::)*(Mutex|RwLock)::(lock|read|write)$|^std::cell::RefCell::(borrow|borrow_mut)$|^lazy_static::lazy::Lazy::get$|^std::sync::(?:Once|OnceLock|LazyLock)::(call_once|get_or_init|force)$')
GUARD = re.compile(r'MutexGuard|RwLockReadGuard|RwLockWriteGuard|std::cell::Ref<|std::cell::RefMut<')
class Locks:
    def __init__(self, w):
        self.w = w; self.acq = {}; self.direct = {}
        for b in w.bs: self.direct[b.uid] = list(self.acquired(b))
    def lock_id(self, b, t):
        """a static, a field of a type, or else a lock known by what it protects"""
        p = bare(ext(t[1])); kind = 'shared' if p.endswith(('::read', '::borrow')) else 'own'
        if 'Lazy::get' in p:
            s = re.search(r'<(.*?) as std::ops::Deref>::deref', b.path)
            return ('first use of ' + (s.group(1) if s else b.path), 'own')
        if not t[2] or 'P' not in t[2][0]: return ('a constant lock', kind)
        l, proj = t[2][0]['P']
        return (self.root(b, l, proj, 0) or 'a lock on ' + re.sub(r'&(mut )?', '', self.w.flow(b).ty(l)), kind)
    def root(self, b, l, proj, d):
        f = [p for p in proj if isinstance(p, list) and p[0] == '.' and isinstance(p[2], str)]
        if f and not (b.closure and l == 1 and len(f) == 1): return 'field ' + f[-1][2]
        if d > 12: return None
        if b.closure and l == 1 and f:
            for pb, ops in self.w.parents.get(b.uid, ()):
                if f[0][1] < len(ops) and 'P' in ops[f[0][1]]: return self.root(pb, *ops[f[0][1]]['P'], d + 1)
            return None
        for x in self.w.flow(b).defs.get(l, ()):
            if x[0] == 'rv':
                r = x[2]
                if r[0] in ('ref', 'rawptr'): return self.root(b, r[1][0], r[1][1], d + 1)
                if r[0] == 'use' and 'P' in r[1]: return self.root(b, r[1]['P'][0], r[1]['P'][1], d + 1)
                if r[0] == 'use' and 'K' in r[1] and r[1]['K'].get('c') == 'static': return 'static ' + r[1]['K']['path']
                if r[0] == 'use' and 'K' in r[1]: return None
            else:
                p = bare(ext(x[2]))
                if re.search(r'Deref>?::deref$', p) and x[2].get('local'):
                    s = re.search(r'<(.*?) as std::ops::Deref>', ext(x[2])); return 'static ' + (s.group(1) if s else ext(x[2]))
                if re.search(r'(::deref|::clone|::as_ref|::borrow)$', p) and x[3] and 'P' in x[3][0]: return self.root(b, *x[3][0]['P'], d + 1)
                if re.search(r'(Arc|Rc|Mutex|RwLock|RefCell)::new$', p): return 'local of ' + name(b) + ': ' + (b.locals[l][1] or self.w.flow(b).ty(l))
        return None
    def acquired(self, b):
        for n, blk in enumerate(b.blocks):
            t = blk['t']
            if t[0] == 'call' and not blk.get('cleanup') and LOCK.search(bare(ext(t[1]))): yield n, self.lock_id(b, t)
    def called(self, f, args, b):
        """bodies a call may run"""
        out = []
        u = (f.get('ruid') if f.get('local') else None) or f.get('uid')
        cb = self.w.prog.bodies.get(u)
        if cb is not None: out.append(cb)
        elif 'trait' in f:
            for im in self.w.prog.impls:
                if im['trait'] == f['trait']:
                    for nm, uid in im['items']:
                        if nm == f['path'].split('::')[-1] and self.fits(f, im): 
                            x = self.w.prog.bodies.get(uid)
                            if x is not None: out.append(x)
        # closures and functions given along
        fo = []; fn_operands(args, fo)
        for g in fo:
            x = self.w.prog.bodies.get((g.get('ruid') if g.get('local') else None) or g.get('uid'))
            if x is not None: out.append(x)
        for a in args:
            if 'P' in a:
                t = self.w.prog.types[b.locals[a['P'][0]][0]]
                for u in self.closures_in(t, set()):
                    x = self.w.prog.bodies.get(u)
                    if x is not None: out.append(x)
        return out
    def fits(self, f, im): return not f.get('rpath') or f['rpath'] == f['path']
    def closures_in(self, t, seen):
        if id(t) in seen: return
        seen.add(id(t))
        if t['k'] == 'closure': yield t['uid']
        for k in ('t', 'ts', 'args', 'inner', 'to'):
            v = t.get(k)
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, int): yield from self.closures_in(self.w.prog.types[x], seen)
                elif isinstance(x, dict) and 'k' in x: yield from self.closures_in(x, seen)
    def reach(self, b):
        """locks a body may take, with the calls that lead there"""
        if b.uid in self.acq: return self.acq[b.uid]
        out = {}; seen = {b.uid}; work = [(b, (name(b),))]
        while work:
            x, path = work.pop(0)
            for n, (i, k) in self.direct.get(x.uid, ()): out.setdefault((i, k), path)
            for f, t in callees(self.w.prog, x):
                if 'indirect' in f: continue
                for y in self.called(f, t[2], x):
                    if y.uid not in seen and '__spec' not in y.path: seen.add(y.uid); work.append((y, path + (name(y),)))
        self.acq[b.uid] = out
        return out
    def held(self, b):
        """(block, call, {guard local: lock}) of every call made while a guard lives"""
        fl = self.w.flow(b)
        if not self.direct.get(b.uid) : return
        state = {0: {}}; work = [0]; calls = {}
        while work:
            n = work.pop(); blk = b.blocks[n]
            if blk.get('cleanup'): continue
            h = dict(state[n])
            for s in blk['s']:
                if s[0] == '=' and s[2][0] in ('use', 'cast', 'agg'):
                    for l in list(places(s[2])):
                        if l in h and GUARD.search(fl.ty(s[1][0])):
                            h[s[1][0]] = h[l]
                            if s[2][0] == 'use' and s[2][1].get('m') and l != s[1][0]: h.pop(l, None)
                            elif s[2][0] == 'agg' and l != s[1][0]: h.pop(l, None)
            t = blk['t']
            if t[0] == 'drop' and not t[1][1]: h.pop(t[1][0], None)
            if t[0] == 'call':
                if h: calls[n] = dict(h)
                p = bare(ext(t[1])); moved = {}
                for a in t[2]:
                    if 'P' in a and a.get('m') and not a['P'][1] and a['P'][0] in h and not fl.ty(a['P'][0]).startswith('&'): moved[a['P'][0]] = h.pop(a['P'][0])
                d = t[3][0]
                if LOCK.search(p) and GUARD.search(fl.ty(d)): h[d] = self.lock_id(b, t)
                elif moved and GUARD.search(fl.ty(d)): h[d] = next(iter(moved.values()))
            for s in succs(t):
                old = state.get(s)
                new = dict(h) if old is None else {**old, **h}
                if old is None or set(new) != set(old): state[s] = new; work.append(s)
        for n, h in calls.items(): yield b.blocks[n]['t'], h

@prop('P36')
def locks(c):
    w = World(c); L = Locks(w); rule = 'while a lock, an exclusive borrow or a first initialisation lasts, nothing waits for it again'
    order = {}; n = 0
    def clash(x, y): return x[0] == y[0] and not (x[1] == 'shared' and y[1] == 'shared')
    for b in w.bs:
        k = {}
        for t, h in L.held(b):
            at = src(t[5] if len(t) > 5 else ''); n += 1
            got = []
            if LOCK.search(bare(ext(t[1]))): got.append((L.lock_id(b, t), ()))
            if 'indirect' in t[1] or callback(w, b, t):
                for i in set(h.values()):
                    c.bad('%s/callback' % name(b), rule, c.where(b), 'calls a function of its caller (%s) while it holds %s, which that function may ask for' % (at, i[0]))
            else:
                for y in L.called(t[1], t[2], b):
                    got += list(L.reach(y).items())
            for i, path in got:
                for j in set(h.values()):
                    if clash(i, j):
                        key = '%s/%s' % (name(b), i[0])
                        if key not in k:
                            k[key] = 1; c.bad(key, rule, c.where(b), 'holds %s and asks for it again (%s%s)' % (j[0], at, ', through ' + ' > '.join(path) if path else ''))
                    else: order.setdefault((j[0], i[0]), (b, at, path))
        for m, i in L.direct.get(b.uid, ()):
            c.ok('%s/takes %s' % (name(b), i[0]), rule, c.where(b), i[1])
    # a first initialisation that needs itself
    for b in w.bs:
        m = re.search(r'<(.*?) as std::ops::Deref>::deref::__static_ref_initialize$', b.path)
        if not m: continue
        n += 1; me = 'first use of ' + m.group(1); r = L.reach(b)
        bad = next((p for i, p in r.items() if i[0] == me), None)
        for i, p in r.items():
            if i[0] != me: order.setdefault((me, i[0]), (b, '', p))
        held_to(c, 'initialiser of ' + m.group(1).split('::')[-1], rule, c.where(b), bad is None, 'the initialiser needs the value it makes (%s)' % ' > '.join(bad or ()))
    # two that wait for each other
    edges = {}
    for (x, y) in order: edges.setdefault(x, set()).add(y)
    def path(x, y, seen):
        if x == y: return [x]
        seen.add(x)
        for z in sorted(edges.get(x, ())):
            if z not in seen:
                p = path(z, y, seen)
                if p: return [x] + p
        return None
    told = set()
    for (x, y), (b, at, via) in sorted(order.items(), key=lambda e: e[0]):
        p = path(y, x, set())
        if p and frozenset((x, y)) not in told:
            told.add(frozenset((x, y)))
            c.bad('order/%s/%s' % tuple(sorted((x, y))), 'locks are always taken in the same order', c.where(b), 'takes %s while it holds %s (%s), elsewhere the other way round' % (y, x, at))
    done(c, w, rule, n)
def callback(w, b, t):
    """the call runs a closure that this function was given"""
    f = t[1]; p = bare(ext(f))
    if not re.search(r'::(call|call_mut|call_once)$', p) or not t[2] or 'P' not in t[2][0]: return False
    ty = w.prog.types[b.locals[t[2][0]['P'][0]][0]]
    while ty['k'] == 'ref': ty = w.prog.types[ty['t']] if isinstance(ty.get('t'), int) else {'k': '?'}
    return ty['k'] not in ('closure', 'fndef', 'fn')
