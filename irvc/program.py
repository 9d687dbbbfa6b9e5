"""Builds the contract crate against /repo's current tree and presents the resulting LLVM IR of every
crate (one module per codegen unit) as one lazily linked program."""
import fcntl
import concurrent.futures, glob, hashlib, os, re, subprocess, sys, time
from .irparse import Module

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.environ.get('IRVC_TARGET', os.path.join(VERIF, 'target'))
HARNESS = os.path.join(VERIF, 'harness')
EAGER = ['siderust', 'vch', 'affn', 'qtty_core', 'qtty', 'keplerian', 'principia', 'optica', 'cheby', 'tempoch_core',
         'tempoch', 'siderust_archive']
STD = ['core', 'alloc', 'std', 'hashbrown']
PASSES = 'function(sroa,early-cse,simplifycfg,instsimplify)'


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='stable', RUSTC_BOOTSTRAP='1', CARGO_NET_OFFLINE='true', SIDERUST_JPL_STUB='all',
             RUSTFLAGS='-C symbol-mangling-version=v0 -Zthreads=8 --cfg siderust_vc', CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR='never')
    e.pop('RUSTC_WRAPPER', None)
    return e


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(['rustc', '+stable', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip()


def cargo(what):
    t0 = time.time()
    r = subprocess.run(['cargo', 'build', '--offline', '--release'] + what, cwd=HARNESS, env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(r.stderr[-6000:])
    return time.time() - t0


class Program:
    def __init__(self):
        self.times = {}
        self.funcs = {}      # unique name -> Func
        self.gmod = {}       # unique global name -> (module, local name)
        self.modules = []
        self.decls = {}
        self.nm = None

    def build(self):
        lock = os.path.join(TARGET, '.irvc.lock')
        os.makedirs(TARGET, exist_ok=True)
        import fcntl
        self.lock = open(lock, 'w')
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.times['cargo'] = cargo(['--lib'])
        t0 = time.time()
        self.sys = sysroot()
        self.lib = self.sys + '/lib/rustlib/x86_64-unknown-linux-gnu'
        self.bin = self.lib + '/bin/'
        dep = TARGET + '/release/deps/'
        rl = []
        for c in EAGER:
            # the newest artefact of each crate
            l = sorted(glob.glob(dep + 'lib%s-*.rlib' % c), key=os.path.getmtime)
            if l:
                rl.append(l[-1])
        for c in STD:
            rl += glob.glob(self.lib + '/lib/lib%s-*.rlib' % c)
        self.seen = set(rl)
        self.load(rl)
        fcntl.flock(self.lock, fcntl.LOCK_UN)
        self.times['ir'] = time.time() - t0

    def load(self, rlibs):
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            lls = list(ex.map(self.extract, rlibs))
            lls = [x for l in lls for x in l]
            outs = list(ex.map(self.todis, lls))
        for ll in outs:
            if ll is None:
                continue
            with open(ll) as f:
                self.add(Module(f.read(), len(self.modules)))

    def extract(self, rlib):
        st = os.stat(rlib)
        key = hashlib.sha1(('%s %d %d' % (rlib, st.st_size, st.st_mtime_ns)).encode()).hexdigest()[:16]
        d = os.path.join(TARGET, 'ir', os.path.basename(rlib)[:-5] + '-' + key)
        if not os.path.exists(d + '/.done'):
            os.makedirs(d, exist_ok=True)
            subprocess.run([self.bin + 'llvm-ar', 'x', '--output', d, rlib], check=True)
            for o in glob.glob(d + '/*.o'):
                with open(o, 'rb') as f:
                    magic = f.read(4)
                bc = o[:-2] + '.bc'
                if magic[:2] == b'BC':
                    os.rename(o, bc)
                else:
                    subprocess.run([self.bin + 'llvm-objcopy', '--dump-section', '.llvmbc=' + bc, o, '/dev/null'], capture_output=True)
                    os.unlink(o)
            open(d + '/.done', 'w').close()
        return glob.glob(d + '/*.bc')

    def todis(self, bc):
        ll = bc[:-3] + '.ll'
        if os.path.exists(ll):
            return ll
        r = subprocess.run('%sopt -passes=\'%s\' "%s" -o - | %sllvm-dis -o "%s.tmp"' % (self.bin, PASSES, bc, self.bin, ll), shell=True, capture_output=True)
        if not os.path.exists(ll + '.tmp'):
            return None
        os.rename(ll + '.tmp', ll)
        return ll

    def add(self, m):
        self.modules.append(m)
        for nm, f in m.funcs.items():
            u = m.gname(nm)
            f.name = u
            self.funcs.setdefault(u, f)
        for nm in m.gtext:
            s = m.gtext[nm]
            u = m.gname(nm)
            if s.startswith('external') or ' external ' in s[:60]:
                continue
            self.gmod.setdefault(u, (m, nm))
        self.decls.update(m.decls)

    # interface used by the executor
    def func(self, nm):
        f = self.funcs.get(nm)
        if f is None:
            if not self.more(nm):
                return None
            f = self.funcs.get(nm)
            if f is None:
                return None
        if not f.parsed:
            f.mod._parse_func(f)
        return f

    def block(self, f, lab):
        b = f.blocks[lab]
        if b and b[0].__class__ is str:
            b = [f.mod.parse_ins(s) for s in b]
            f.blocks[lab] = b
        return b

    def isfunc(self, nm):
        return nm in self.funcs or nm in self.decls

    def global_init(self, nm):
        g = self.gmod.get(nm)
        if g is None:
            if not self.more(nm):
                raise KeyError('global ' + nm)
            g = self.gmod[nm]
        m, n = g
        return m.global_init(n)

    def more(self, nm):
        """pull in the crate that defines a symbol not seen so far"""
        if nm.startswith('llvm.'):
            return False
        if self.nm is None:
            self.nm = {}
            dep = TARGET + '/release/deps/'
            l = [r for r in glob.glob(dep + '*.rlib') + glob.glob(self.lib + '/lib/*.rlib') if r not in self.seen and 'compiler_builtins' not in r]

            def scan(r):
                p = subprocess.run([self.bin + 'llvm-nm', '--defined-only', '-j', r], capture_output=True, text=True)
                return r, p.stdout.split('\n')
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                for r, names in ex.map(scan, l):
                    for x in names:
                        if x:
                            self.nm.setdefault(x, r)
        r = self.nm.get(nm)
        if r is None or r in self.seen:
            return False
        self.seen.add(r)
        with open(os.path.join(TARGET, '.ir.lock'), 'w') as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            self.load([r])
        return nm in self.funcs or nm in self.gmod

    def demangle(self):
        names = [n for n in list(self.funcs) + list(self.decls)]
        base = sorted(set(n.split('$')[0] for n in names))
        r = subprocess.run(['c++filt'], input='\n'.join(base), capture_output=True, text=True)
        out = r.stdout.split('\n')
        d = {n: re.sub(r'\[[0-9a-f]{8,}\]', '', x) for n, x in zip(base, out)}
        return Names(d)


class Names(dict):
    def get(self, k, default=None):
        k = k.split('$')[0]
        if k not in self and k.startswith(('_R', '_ZN')):
            r = subprocess.run(['c++filt'], input=k, capture_output=True, text=True)
            self[k] = re.sub(r'\[[0-9a-f]{8,}\]', '', r.stdout.strip())
        return dict.get(self, k, default if default is not None else k)


def native():
    """native build of the same contracts (for search and replay); only used when an obligation fails"""
    lock = os.path.join(TARGET, '.irvc.lock')
    import fcntl
    with open(lock, 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        cargo(['--bin', 'vchrun'])
    return os.path.join(TARGET, 'release', 'vchrun')
