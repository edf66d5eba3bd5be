"""Builds the MIR driver and dumps the type-checked program of the repository's current source.

The dump is keyed by a digest of everything it depends on, so checks that run one after another on the
same tree share it, and any change to a source file produces a new one."""
import fcntl, hashlib, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LLAMAPUN_REPO', '/repo')
BUILD = os.environ.get('LLAMAPUN_VERIF_BUILD', os.path.join(HERE, 'build'))

class BuildError(Exception): pass

def digest(paths):
    h = hashlib.sha256()
    for root in paths:
        fs = []
        if os.path.isfile(root): fs = [root]
        else:
            for d, ds, ff in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ('target', '.git', '__pycache__'))
                fs += [os.path.join(d, f) for f in sorted(ff) if f.endswith(('.rs', '.toml', '.lock'))]
        for f in fs:
            h.update(f.encode() + b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    return h.hexdigest()[:20]

def run(cmd, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    for k in ('RUSTC', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN'): e.pop(k, None)
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

# the modules that the repository's own build in this sandbox compiles
PART = """#[path = "SRC/stopwords.rs"] pub mod stopwords;
#[path = "SRC/ngrams.rs"] pub mod ngrams;
pub mod util { #[path = "SRC/util/plot.rs"] pub mod plot; #[path = "SRC/util/test.rs"] pub mod test; }
pub mod dnm { #[path = "SRC/dnm/node.rs"] pub mod node; #[path = "SRC/dnm/parameters.rs"] mod parameters; pub use self::parameters::{DNMParameters, RuntimeParseData, SpecialTagsOption}; }
pub mod patterns { #[path = "SRC/patterns/utils.rs"] mod utils; }
"""
def dump():
    """path of the JSON dump for the current tree, what is missing from it, build log.
    First the whole crate with all reference models; without the reference models that do not type-check against
    the tree; failing that only the modules that the repository's own build compiles."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = digest([os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'), os.path.join(HERE, 'driver'), os.path.join(HERE, 'spec'), os.path.join(HERE, 'stubs'), os.path.join(HERE, 'crate'), os.path.abspath(__file__)])
        out = os.path.join(BUILD, 'mir-%s.json' % key)
        if os.path.exists(out) and os.path.exists(out + '.info'): return out, json.load(open(out + '.info')), ''
        rc, sysroot = run(['rustc', '+nightly', '--print', 'sysroot']); sysroot = sysroot.strip().splitlines()[-1]
        dt = os.path.join(BUILD, 'driver')
        rc, log = run(['cargo', '+nightly', 'build', '--offline', '--target-dir', dt], cwd=os.path.join(HERE, 'driver'))
        if rc: raise BuildError('the MIR driver does not build:\n' + log[-3000:])
        cr = os.path.join(BUILD, 'crate'); os.makedirs(cr, exist_ok=True)
        toml = open(os.path.join(HERE, 'crate', 'Cargo.toml')).read().replace('"../stubs/', '"%s/stubs/' % HERE)
        with open(os.path.join(BUILD, 'part.rs'), 'w') as f: f.write(PART.replace('SRC', os.path.join(REPO, 'src')))
        log2 = ''; td = os.path.join(BUILD, 'target'); specs = sorted(os.listdir(os.path.join(HERE, 'spec')))
        specs = [f for f in specs if f.endswith('.rs')]
        for part in (False, True):
            lib = os.path.join(BUILD, 'part.rs') if part else os.path.join(REPO, 'src', 'lib.rs')
            for f, c in (('Cargo.toml', toml.replace('"/repo/src/lib.rs"', '"%s"' % lib)), ('Cargo.lock', open(os.path.join(HERE, 'crate', 'Cargo.lock')).read())):
                p = os.path.join(cr, f)
                if not os.path.exists(p) or open(p).read() != c: open(p, 'w').write(c)
            skip = set()
            for attempt in range(4):
                fp = os.path.join(td, 'debug', '.fingerprint')
                for base in (fp, os.path.join(td, 'debug', 'build', 'llamapun')):
                    if base == fp and os.path.isdir(fp):
                        for d in os.listdir(fp):
                            if d.startswith('llamapun-'): shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
                    elif base != fp: shutil.rmtree(base, ignore_errors=True)
                env = {'LD_LIBRARY_PATH': sysroot + '/lib', 'RUSTC_WORKSPACE_WRAPPER': os.path.join(dt, 'debug', 'mirdump'), 'MIRDUMP_OUT': out,
                       'MIRDUMP_SRC': os.path.join(REPO, 'src'), 'MIRDUMP_SPEC': os.path.join(HERE, 'spec'), 'MIRDUMP_SPEC_SKIP': ':'.join(sorted(skip))}
                rc, log = run(['cargo', '+nightly', 'check', '--offline', '--target-dir', td], env=env, cwd=cr)
                if rc == 0 and os.path.exists(out):
                    old = [f for f in os.listdir(BUILD) if f.startswith('mir-') and f.endswith('.json') and not f.startswith('mir-' + key)]
                    for f in sorted(old, key=lambda f: os.path.getmtime(os.path.join(BUILD, f)))[:-3]: os.remove(os.path.join(BUILD, f))
                    info = {'without_models': sorted(skip), 'part': part}
                    json.dump(info, open(out + '.info', 'w'))
                    return out, info, log2
                log2 += log
                if len(skip) == len(specs): break
                hit = {f for f in specs if os.path.join(HERE, 'spec', f) in errors(log)} - skip
                skip = skip | hit if hit and attempt < 2 else set(specs)
        raise BuildError('the crate does not type-check:\n' + log2[-6000:])
def errors(log):
    """the parts of the compiler's output that belong to errors"""
    out = []; on = False
    for l in log.split('\n'):
        if l.startswith('error'): on = True
        elif l.startswith(('warning', 'note')): on = False
        if on: out.append(l)
    return '\n'.join(out)

if __name__ == '__main__':
    p, s, log = dump(); print(p, s)
    if log: print(log[-3000:])
