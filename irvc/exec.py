"""Symbolic executor over the linked LLVM IR of the real code.

Exact-real reading of f64, mathematical integers (wrap-around is refused, never silently assumed),
concrete pointers.  One call of run() follows one path (a list of decisions); every branch on a
symbolic condition records a decision and the alternative is handed back to the driver.
"""
import math, re, struct, subprocess, sys
from fractions import Fraction as Fr
from . import ex
from .ex import N, q, ZERO, ONE
from .irparse import size_of, field_offsets, store_size, F64, F32, PTR, VOID


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind
        self.msg = msg


class Obj:
    __slots__ = ('name', 'size', 'cells', 'raw', 'fn', 'ro')

    def __init__(self, name, size, raw=None, fn=None):
        self.name = name
        self.size = size
        self.cells = {}
        self.raw = raw
        self.fn = fn
        self.ro = False

    def __repr__(self):
        return 'Obj(%s,%s)' % (self.name, self.size)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj is self.obj and o.off == self.off

    def __hash__(self):
        return hash((id(self.obj), self.off))

    def __repr__(self):
        return 'Ptr(%s+%d)' % (self.obj.name, self.off)


class FBits:
    """the bit pattern of a real-valued double"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'FBits(%r)' % self.n


class Blob:
    """several cells moved as one integer"""
    __slots__ = ('size', 'cells')

    def __init__(self, size, cells):
        self.size = size
        self.cells = cells          # list (off,size,val)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def mask(n):
    return (1 << n) - 1


def sgn(v, n):
    v &= mask(n)
    return v - (1 << n) if v >> (n - 1) else v


def f2node(v):
    """python float -> N or special float"""
    if math.isnan(v) or math.isinf(v):
        return v
    return ex.const_f64(v)


def node_float(n):
    """float value of a constant node or None"""
    if isinstance(n, float):
        return n
    if n.op == 'q':
        try:
            return float(n.a[0])
        except OverflowError:
            return math.inf if n.a[0] > 0 else -math.inf
    if not ex.free_vars([n]):
        try:
            return ex.evalf(n, {})
        except KeyError:
            return None
    return None


PANIC_RE = re.compile(r'^(core::panicking::|core::option::(unwrap|expect)_failed|core::result::unwrap_failed|'
                      r'core::slice::index::slice_.*fail|core::str::slice_error_fail|alloc::raw_vec::(handle_error|capacity_overflow)|'
                      r'alloc::alloc::handle_alloc_error|std::panicking|rust_begin_unwind|core::cell::panic|'
                      r'__rustc::rust_begin_unwind|core::num::.*panic|std::process::abort|core::intrinsics::abort|alloc::vec::Vec<.*>::.*assert_failed|'
                      r'core::slice::.*::len_mismatch_fail|core::slice::copy_from_slice_impl::len_mismatch_fail|<.*Vec.*>::(remove|insert|swap_remove|split_off|truncate)::assert_failed|core::panicking)')


class Machine:
    """immutable part shared by all paths"""

    def __init__(self, module, demangle):
        self.m = module
        self.dm = demangle            # mangled -> demangled
        self.hcache = {}
        self.stubs = []               # (regex, handler)  contracts standing in for callees
        self.gconst = {}
        self.fnobj = {}
        self.touched = {}             # demangled repo functions interpreted -> count
        self.stubbed = {}

    def handler(self, name):
        """intercept for a mangled function name"""
        h = self.hcache.get(name, 0)
        if h != 0:
            return h
        h = self._handler(name)
        self.hcache[name] = h
        return h

    def _handler(self, name):
        if name.startswith('vcrt_'):
            return getattr(Path, 'rt_' + name[5:])
        if name.startswith('llvm.'):
            return intrinsic(name)
        name = name.split('$')[0]
        d = self.dm.get(name, name)
        for rx, h in self.stubs:
            if rx.search(d):
                def w(P, I, args, h=h, d=d):
                    P.m.stubbed[d] = P.m.stubbed.get(d, 0) + 1
                    return h(P, I, args)
                return w
        h = LIBM.get(name)
        if h:
            return h
        for rx, h in NAMED:
            if rx.search(d):
                return h
        if PANIC_RE.search(d):
            def panic(P, I, args, d=d):
                raise PathEnd('panic', d)
            return panic
        return None


def redirect(program, target):
    """a callee replaced by its assumed contract, written in Rust with the same signature in the harness"""
    def h(P, I, args):
        f = P.mod.func(target)
        if f is None:
            raise Unsupported('assumed contract %s is missing' % target)
        return P.run(f, args)
    return h


def nothing(P, I, args):
    return None


class Path:
    def __init__(self, machine, decisions, prover, opts):
        self.m = machine
        self.mod = machine.m
        self.dec = list(decisions)
        self.di = 0
        self.alts = []
        self.pc = []
        self.known = {}
        self.prover = prover
        self.opts = opts
        self.globals = {}
        self.obls = []            # (label, kind, formula/(a,b,tol), len(pc))
        self.covers = []
        self.steps = 0
        self.maxsteps = opts.get('maxsteps', 3000000)
        self.depth = 0
        self.vb = {}              # node id -> (lo,hi) declared ranges
        self.vars = {}            # name -> node
        self.allow_panic = False
        self.fresh = 0
        self.events = []
        self.ivc = None
        self.uf = {}
        self.stack = []
        self.notes = set()
        self.atan2s = []

    # ---- decisions ---------------------------------------------------------
    def iv(self):
        if self.ivc is None:
            from .iv import Iv, bounds_from_pc
            self.ivc = Iv(bounds_from_pc(self.pc, self.vb))
        return self.ivc

    def assume(self, f):
        if f is ex.TRUE:
            return
        if f is ex.FALSE:
            raise PathEnd('infeasible')
        self.pc.append(f)
        self._learn(f)
        self.ivc = None

    def _learn(self, f):
        self.known[f.id] = True
        self.known[ex.bnot(f).id] = False
        if f.op == 'and':
            self._learn(f.a[0]); self._learn(f.a[1])
        if f.op == 'not' and f.a[0].op == 'or':
            self._learn(ex.bnot(f.a[0].a[0])); self._learn(ex.bnot(f.a[0].a[1]))
        if f.op == 'lt':
            self.known[ex.le(f.a[0], f.a[1]).id] = True
            self.known[ex.lt(f.a[1], f.a[0]).id] = False
            self.known[ex.eq(f.a[0], f.a[1]).id] = False
        if f.op == 'eq':
            for z in (ex.le(f.a[0], f.a[1]), ex.le(f.a[1], f.a[0])):
                self.known[z.id] = True
            for z in (ex.lt(f.a[0], f.a[1]), ex.lt(f.a[1], f.a[0])):
                self.known[z.id] = False

    def quick(self, f):
        if f is ex.TRUE:
            return True
        if f is ex.FALSE:
            return False
        r = self.known.get(f.id)
        if r is not None:
            return r
        r = self.iv().form(f)
        if r is not None:
            return r
        if f.op == 'and':
            a, b = self.quick(f.a[0]), self.quick(f.a[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
        elif f.op == 'or':
            a, b = self.quick(f.a[0]), self.quick(f.a[1])
            if a or b:
                return True
            if a is False and b is False:
                return False
        elif f.op == 'not':
            a = self.quick(f.a[0])
            return None if a is None else not a
        return None

    def branch(self, f):
        """python bool for a symbolic formula, forking if needed"""
        if isinstance(f, int):
            return bool(f)
        if f is UNDEF:
            raise Unsupported('branch on undef')
        r = self.quick(f)
        if r is not None:
            return r
        if f.op == 'not':
            return not self.branch(f.a[0])
        if f.op == 'and':
            return self.branch(f.a[0]) and self.branch(f.a[1])
        if f.op == 'or':
            return self.branch(f.a[0]) or self.branch(f.a[1])
        if self.di < len(self.dec):
            r = self.dec[self.di]
            self.di += 1
        else:
            t = self.prover.feasible(self, f)
            if not t:
                r = False
                self.dec.append(False)
            else:
                e = self.prover.feasible(self, ex.bnot(f))
                if not e:
                    r = True
                    self.dec.append(True)
                else:
                    r = True
                    self.alts.append(self.dec + [False])
                    self.dec.append(True)
            self.di += 1
            if len(self.dec) > self.opts.get('maxdec', 400):
                raise Unsupported('too many decisions on one path')
        self.assume(f if r else ex.bnot(f))
        return r

    def choose(self, k):
        """k-way nondeterministic choice (no constraint)"""
        if self.di < len(self.dec):
            r = self.dec[self.di]
        else:
            for j in range(1, k):
                self.alts.append(self.dec + [j])
            self.dec.append(0)
            r = 0
        self.di += 1
        return r

    def concretize(self, n, what='value'):
        """int for a symbolic integer"""
        if isinstance(n, int):
            return n
        if not isinstance(n, N):
            raise Unsupported('concretize %r' % (n,))
        if n.op == 'q':
            return int(n.a[0])
        if n.op == 'ite' and n.a[1].op == 'q' and n.a[2].op == 'q':
            return int((n.a[1] if self.branch(n.a[0]) else n.a[2]).a[0])
        lo, hi = self.iv().get(n)
        if not (hi - lo <= 400):
            raise Unsupported('concretize %s: range %s..%s' % (what, lo, hi))
        lo = math.ceil(lo)
        hi = math.floor(hi)
        if lo > hi:
            raise PathEnd('infeasible')
        for v in range(lo, hi):
            if self.branch(ex.eq(n, q(v))):
                return v
        self.assume(ex.eq(n, q(hi))) if lo != hi else None
        return hi

    def freshvar(self, base, lo=None, hi=None, isint=False):
        self.fresh += 1
        return self.newvar('%s!%d' % (base, self.fresh), lo, hi, isint)

    def newvar(self, name, lo=None, hi=None, isint=False):
        n = ex.var(name, isint)
        self.vars[name] = n
        if lo is not None:
            self.vb[n.id] = (lo, hi)
            self.ivc = None
        return n

    # ---- memory --------------------------------------------------------------
    def newobj(self, name, size):
        return Obj(name, size)

    def gptr(self, name):
        if self.mod.isfunc(name):
            o = self.m.fnobj.get(name)
            if o is None:
                o = Obj(name, 0, fn=name)
                self.m.fnobj[name] = o
            return Ptr(o, 0)
        o = self.globals.get(name)
        if o is None:
            o = self.m.gconst.get(name)
            if o is None:
                gi = self.mod.global_init(name)
                if gi[0] == 'alias':
                    return self.cval(gi[1])
                t, v, isc = gi
                o = Obj(name, size_of(t))
                o.ro = isc
                if isc:
                    self.m.gconst[name] = o
                self.globals[name] = o
                if v is not None:
                    self.init(o, 0, t, v)
            self.globals[name] = o
        return Ptr(o, 0)

    def init(self, o, off, t, v):
        k = v[0]
        if k == 'zero':
            self.setzero(o, off, size_of(t))
        elif k == 'cstr':
            if off == 0 and len(v[1]) == o.size:
                o.raw = v[1]
            else:
                self.putbytes(o, off, v[1])
        elif k == 'agg':
            if t[0] == 'st':
                for (ft, fv), fo in zip(v[1], field_offsets(t)):
                    self.init(o, off + fo, ft, fv)
            else:
                s = size_of(t[2])
                for i, (ft, fv) in enumerate(v[1]):
                    self.init(o, off + i * s, ft, fv)
        elif k == 'undef':
            pass
        else:
            o.cells[off] = (store_size(t), tocell(self.cval(v, t), t[0], store_size(t)))

    def putbytes(self, o, off, b):
        i = 0
        n = len(b)
        while i < n:
            s = 8 if n - i >= 8 else 4 if n - i >= 4 else 1
            o.cells[off + i] = (s, int.from_bytes(b[i:i + s], 'little'))
            i += s

    def setzero(self, o, off, n, byte=0):
        self.kill(o, off, n)
        i = 0
        while i < n:
            s = 8 if n - i >= 8 else 4 if n - i >= 4 else 1
            o.cells[off + i] = (s, int.from_bytes(bytes([byte]) * s, 'little'))
            i += s

    def overl(self, o, off, n):
        """cells overlapping [off,off+n)"""
        c = o.cells
        r = []
        if len(c) < n + 16:
            for k, (s, v) in c.items():
                if k < off + n and k + s > off:
                    r.append(k)
        else:
            for k in range(off - 15, off + n):
                e = c.get(k)
                if e is not None and k + e[0] > off:
                    r.append(k)
        return r

    def kill(self, o, off, n):
        for k in self.overl(o, off, n):
            s, v = o.cells.pop(k)
            if k < off or k + s > off + n:
                # keep remaining parts
                if isinstance(v, int):
                    b = (v & mask(8 * s)).to_bytes(s, 'little')
                    for i in range(s):
                        if not (off <= k + i < off + n):
                            o.cells[k + i] = (1, b[i])
                elif isinstance(v, Blob):
                    for (bo, bs, bv) in v.cells:
                        if k + bo + bs <= off or k + bo >= off + n:
                            o.cells[k + bo] = (bs, bv)
                        else:
                            raise Unsupported('partial blob overwrite')
                elif v is UNDEF:
                    pass
                else:
                    raise Unsupported('partial overwrite of symbolic cell')

    def store(self, p, t, v):
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        k = t[0]
        o, off = p.obj, p.off
        if k == 'st':
            for ft, fv, fo in zip(t[2], self.aggvals(v, len(t[2])), field_offsets(t)):
                self.store(Ptr(o, off + fo), ft, fv)
            return
        if k in ('arr', 'vec'):
            if k == 'vec' and t[2][0] == 'i' and t[2][1] < 8:
                raise Unsupported('store bit vector')
            s = size_of(t[2])
            for i, fv in enumerate(self.aggvals(v, t[1])):
                self.store(Ptr(o, off + i * s), t[2], fv)
            return
        if o.fn:
            raise Unsupported('store to function')
        n = store_size(t)
        if off < 0 or off + n > o.size:
            raise PathEnd('oob', 'store out of bounds of %s off %d' % (o.name, off))
        c = o.cells
        e = c.get(off)
        if e is None or e[0] != n:
            self.kill(o, off, n)
        elif False:
            pass
        if isinstance(v, Blob):
            c.pop(off, None)
            for (bo, bs, bv) in v.cells:
                c[off + bo] = (bs, bv)
            return
        if v is UNDEF:
            c.pop(off, None)
            if o.raw is not None:
                c[off] = (n, UNDEF)
            return
        if isinstance(v, N) and k == 'i' and t[1] == 1:
            v = ex.ite(v, ONE, ZERO)
        c[off] = (n, tocell(v, k, n))

    def aggvals(self, v, n):
        if v is UNDEF:
            return [UNDEF] * n
        return v

    def load(self, p, t):
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        k = t[0]
        o, off = p.obj, p.off
        if k == 'st':
            return tuple(self.load(Ptr(o, off + fo), ft) for ft, fo in zip(t[2], field_offsets(t)))
        if k in ('arr', 'vec'):
            s = size_of(t[2])
            return tuple(self.load(Ptr(o, off + i * s), t[2]) for i in range(t[1]))
        n = store_size(t)
        if off < 0 or off + n > o.size:
            raise PathEnd('oob', 'load out of bounds of %s off %d' % (o.name, off))
        e = o.cells.get(off)
        if e is not None and e[0] == n:
            return self.conv(e[1], t, n)
        ks = self.overl(o, off, n)
        if not ks:
            if o.raw is not None:
                return self.conv(int.from_bytes(o.raw[off:off + n], 'little'), t, n)
            return UNDEF
        # assemble
        b = [None] * n
        if o.raw is not None:
            b = list(o.raw[off:off + n])
        ok = True
        cells = []
        for kk in sorted(ks):
            s, v = o.cells[kk]
            if isinstance(v, N) and v.op == 'q':
                v = int(v.a[0])
            if isinstance(v, int):
                bb = (v & mask(8 * s)).to_bytes(s, 'little')
                for i in range(s):
                    if 0 <= kk + i - off < n:
                        b[kk + i - off] = bb[i]
                if kk >= off and kk + s <= off + n:
                    cells.append((kk - off, s, v))
                else:
                    for i in range(s):
                        if 0 <= kk + i - off < n:
                            cells.append((kk + i - off, 1, bb[i]))
            else:
                if kk >= off and kk + s <= off + n:
                    if v is not UNDEF:
                        cells.append((kk - off, s, v))
                    ok = False
                else:
                    # symbolic little integer inside a wider cell: low part of a symbolic int
                    if kk == off and isinstance(v, N) and v.isint and s > n and k == 'i':
                        lo, hi = self.iv().get(v)
                        if lo >= 0 and hi < (1 << (8 * n)):
                            return v
                    if isinstance(v, N) and v.isint and v.op not in FORMOPS:
                        sl = self.slices(v)
                        if sl is not None:
                            a, e = max(kk, off), min(kk + s, off + n)
                            part = self.joinbits(self.shr(self.cut(sl, mask(8 * (e - kk))), 8 * (a - kk)))
                            if isinstance(part, int):
                                for i, x in enumerate((part & mask(8 * (e - a))).to_bytes(e - a, 'little')):
                                    b[a + i - off] = x
                                    cells.append((a + i - off, 1, x))
                            else:
                                if e - a == n:
                                    return part
                                cells.append((a - off, e - a, part))
                                ok = False
                            continue
                    raise Unsupported('partial load of symbolic cell %r at %d size %d from %s off %d' % (v, kk, s, o.name, off))
        if ok and all(x is not None for x in b):
            return self.conv(int.from_bytes(bytes(b), 'little'), t, n)
        if k == 'i':
            # symbolic small cell with known zero padding?
            return Blob(n, cells)
        if k == 'f' and len(cells) == 1 and cells[0][1] == n:
            return self.conv(cells[0][2], t, n)
        return UNDEF

    def conv(self, v, t, n):
        k = t[0]
        if k == 'i':
            if isinstance(v, int):
                return v & mask(t[1])
            if isinstance(v, N) and t[1] == 1:
                return unform(tobool(v))
            return v
        if k == 'f':
            if isinstance(v, FBits):
                return v.n
            if isinstance(v, int):
                if t[1] == 64:
                    return f2node(struct.unpack('<d', v.to_bytes(8, 'little'))[0])
                if t[1] == 32:
                    return f2node(struct.unpack('<f', v.to_bytes(4, 'little'))[0])
                raise Unsupported('float width')
            if v is UNDEF:
                return v
            raise Unsupported('load float from %r' % (v,))
        if k == 'ptr':
            return v
        raise Unsupported('load type')

    # ---- values ----------------------------------------------------------------
    def cval(self, v, t=None):
        k = v[0]
        if k == 'i':
            return v[1]
        if k == 'f':
            return f2node(v[1])
        if k == 'g':
            return self.gptr(v[1])
        if k == 'null':
            return 0
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(t)
        if k == 'agg':
            return tuple(self.cval(x, ft) for ft, x in v[1])
        if k == 'splat':
            return tuple([self.cval(v[2], v[1])] * t[1])
        if k == 'cstr':
            return tuple(v[1])
        if k == 'cgep':
            base = self.cval(v[2], PTR)
            off = self.gepoff(v[1], [(it, self.cval(iv_, it)) for it, iv_ in v[3]])
            if isinstance(base, int):
                return base + off
            return Ptr(base.obj, base.off + off)
        if k == 'ccast':
            return self.cval(v[3], v[2])
        if k == 'cbin':
            a = self.cval(v[3], v[2])
            b = self.cval(v[4], v[2])
            return self.ibin(v[1], v[2][1], a, b)
        if k == 'md':
            return None
        raise Unsupported('const %r' % (v,))

    def zero(self, t):
        k = t[0]
        if k == 'i' or k == 'ptr':
            return 0
        if k == 'f':
            return ZERO
        if k == 'st':
            return tuple(self.zero(x) for x in t[2])
        return tuple(self.zero(t[2]) for _ in range(t[1]))

    def gepoff(self, bt, idx):
        off = 0
        t = bt
        for i, (it, iv_) in enumerate(idx):
            if not isinstance(iv_, int):
                if iv_ is UNDEF or isinstance(iv_, Ptr):
                    raise Unsupported('gep index')
                iv_ = self.concretize(iv_, 'index')
            iv_ = sgn(iv_, it[1])
            if i == 0:
                off += iv_ * size_of(t)
            elif t[0] == 'st':
                off += field_offsets(t)[iv_]
                t = t[2][iv_]
            else:
                t = t[2]
                off += iv_ * size_of(t)
        return off

    # integer arithmetic -----------------------------------------------------------
    def ibin(self, op, n, a, b):
        if a is UNDEF or b is UNDEF:
            if op == 'or' and n >= 32:
                # a field left undefined joined to the others of a packed value
                return b if a is UNDEF else a
            return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            m = mask(n)
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < n else 0
            if op == 'lshr':
                return a >> b if b < n else 0
            if op == 'ashr':
                return (sgn(a, n) >> b) & m
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            if op in ('sdiv', 'srem'):
                x, y = sgn(a, n), sgn(b, n)
                d = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    d = -d
                return d & m if op == 'sdiv' else (x - d * y) & m
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj is b.obj:
                    return (a.off - b.off) & mask(n)
                raise Unsupported('pointer difference')
            if op == 'add' and isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.obj, a.off + sgn(b, n))
            if op == 'add' and isinstance(b, Ptr) and isinstance(a, int):
                return Ptr(b.obj, b.off + sgn(a, n))
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.obj, a.off - sgn(b, n))
            if op == 'and' and isinstance(b, int) and b < 4096:
                return a.off & b
            if op == 'and' and isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.obj, a.off & sgn(b, n))
            raise Unsupported('pointer arithmetic ' + op)
        if isinstance(a, Blob) or isinstance(b, Blob):
            if op == 'and' and isinstance(b, int):
                return self.blobmask(a, b, n)
            if op == 'or':
                return self.blobor(a, b, n)
            if op == 'lshr' and isinstance(b, int) and b % 8 == 0:
                k = b // 8
                return self.blobnorm(Blob(n // 8, [(o - k, s, v) for o, s, v in a.cells if o >= k]), n)
            if op == 'shl' and isinstance(b, int) and b % 8 == 0:
                k = b // 8
                return Blob(n // 8, [(o + k, s, v) for o, s, v in a.cells if o + s + k <= n // 8])
            raise Unsupported('blob arithmetic ' + op)
        if isinstance(a, FBits) or isinstance(b, FBits):
            return self.fbits(op, n, a, b)
        if n == 1:
            a, b = bform(a), bform(b)
            if op == 'and':
                return unform(ex.band(a, b))
            if op == 'or':
                return unform(ex.bor(a, b))
            if op in ('xor', 'add', 'sub'):
                if b is ex.TRUE:
                    return unform(ex.bnot(a))
                if a is ex.TRUE:
                    return unform(ex.bnot(b))
                if b is ex.FALSE:
                    return unform(a)
                if a is ex.FALSE:
                    return unform(b)
                return ex.bor(ex.band(a, ex.bnot(b)), ex.band(ex.bnot(a), b))
            raise Unsupported('i1 ' + op)
        # symbolic boolean-valued integers
        ea, eb = self.inode(a, n), self.inode(b, n)
        if op in ('and', 'or', 'xor', 'shl', 'lshr'):
            r = self.bitfields(op, n, a, b, ea, eb)
            if r is not None:
                return r
        if op == 'add':
            return self.wrapchk(ex.add(ea, eb), n)
        if op == 'sub':
            return self.wrapchk(ex.sub(ea, eb), n)
        if op == 'mul':
            return self.wrapchk(ex.mul(ea, eb), n)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, N) and x.op == 'ite' and op in ('and', 'or', 'xor') and isinstance(y, int) and x.a[1].op == 'q' and x.a[2].op == 'q':
                u = self.ibin(op, n, int(x.a[1].a[0]) & mask(n), y)
                w = self.ibin(op, n, int(x.a[2].a[0]) & mask(n), y)
                return ex.ite(x.a[0], q(u), q(w))
        if op == 'shl' and isinstance(b, int):
            return self.wrapchk(ex.mul(ea, q(1 << b)), n)
        if op in ('lshr', 'ashr') and isinstance(b, int):
            lo, hi = self.irange(ea) or self.iv().get(ea)
            if lo >= 0 or op == 'ashr':
                return ex.floor(ex.mul(ea, q(Fr(1, 1 << b))))
        if op == 'and' and isinstance(b, int) and (b & (b + 1)) == 0:
            # low bits: x mod 2^k (holds for two's complement as well)
            lo, hi = self.irange(ea) or self.iv().get(ea)
            if lo >= 0 and hi <= b:
                return ea
            return ex.sub(ea, ex.mul(q(b + 1), ex.floor(ex.mul(ea, q(Fr(1, b + 1))))))
        if op in ('udiv', 'urem', 'sdiv', 'srem') and isinstance(b, int):
            d = sgn(b, n) if op[0] == 's' else b
            lo, hi = self.iv().get(ea)
            if lo < 0 and op[0] == 'u':
                if self.branch(ex.lt(ea, ZERO)):
                    raise Unsupported('unsigned division of negative')
                lo = 0
            if d > 0:
                if lo >= 0 or not self.branch(ex.lt(ea, ZERO)):
                    fl = ex.floor(ex.mul(ea, q(Fr(1, d))))
                else:
                    fl = ex.neg(ex.floor(ex.mul(ex.neg(ea), q(Fr(1, d)))))
                return fl if op[1:] == 'div' else ex.sub(ea, ex.mul(q(d), fl))
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            cb = self.concretize(b, 'divisor')
            return self.ibin(op, n, a, cb & mask(n))
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            ca = self.concretize(a, 'bit operand') & mask(n)
            cb = self.concretize(b, 'bit operand') & mask(n)
            return self.ibin(op, n, ca, cb)
        raise Unsupported('symbolic int op %s %r %r' % (op, a, b))

    # bit fields: a value as disjoint runs (position, width, x, first bit of x); x is an int or an integer term >= 0
    def irange(self, e):
        lo, hi = self.iv().get(e)
        if not (lo > -1e18 and hi < 1e18):
            return None
        return math.ceil(lo - 1e-6 * (abs(lo) < 1e6) - abs(lo) * 1e-12), math.floor(hi + 1e-6 * (abs(hi) < 1e6) + abs(hi) * 1e-12)

    def slices(self, e):
        c = self.__dict__.setdefault('_slices', {})
        if e.id in c:
            return c[e.id]
        r = self.slices0(e)
        if r is None and e.isint:
            b = self.irange(e)
            if b is not None and b[0] >= 0 and b[1] - b[0] > 64:
                r = [(0, b[1].bit_length(), e, 0)]
        c[e.id] = r
        return r

    def slices0(self, e):
        if e.op == 'floor':
            x = e.a[0]
            t, k0 = self.terms(x)
            d = max([c.denominator for c, _ in t] + [k0.denominator])
            if d & (d - 1) or d == 1:
                return None
            s = self.slices(ex.mul(q(d), x)) if d > 1 else None
            return None if s is None else self.shr(s, d.bit_length() - 1)
        t, k = self.terms(e)
        if k.denominator != 1 or k < 0:
            return None
        out = []
        if k:
            out = [(0, int(k).bit_length(), int(k), 0)]
            out = self.constbits(int(k))
        for c, x in t:
            if c.denominator != 1 or c <= 0 or not x.isint:
                return None
            c = int(c)
            if x.op == 'ite' and x.a[1].op == 'q' and x.a[2].op == 'q' and x.a[2].a[0] == 0 and x.a[1].a[0] > 0:
                c *= int(x.a[1].a[0])
                x = ex.ite(x.a[0], ONE, ZERO)
            if c & (c - 1):
                return None
            p = c.bit_length() - 1
            if x is not e and x.id in self._slices and self._slices[x.id] is not None:
                out += [(p + a, w, y, l) for a, w, y, l in self._slices[x.id]]
                continue
            if x.op == 'floor' and x is not e:
                s = self.slices(x)
                if s is not None:
                    out += [(p + a, w, y, l) for a, w, y, l in s]
                    continue
            r = self.irange(x)
            if r is None or r[0] < 0:
                return None
            out.append((p, max(1, r[1].bit_length()), x, 0))
        out.sort(key=lambda s: s[0])
        for s, u in zip(out, out[1:]):
            if s[0] + s[1] > u[0]:
                return None
        return out

    @staticmethod
    def constbits(k):
        out, p = [], 0
        while k:
            z = (k & -k).bit_length() - 1
            k >>= z
            p += z
            w = ((k + 1) & ~k).bit_length() - 1
            out.append((p, w, (1 << w) - 1, 0))
            k >>= w
            p += w
        return out

    def floor(self, a):
        """floor, constant if the range of the (linear form of the) argument holds no integer step"""
        if a.op == 'q' or a.isint:
            return ex.floor(a)
        t, k = self.terms(a)
        m = {}
        for c, x in t:
            m[x] = m.get(x, 0) + c
        lo = hi = k
        for x, c in m.items():
            if c == 0:
                continue
            r = self.iv().get(x)
            if not (r[0] > -1e15 and r[1] < 1e15):
                return ex.floor(a)
            u, v = c * Fr(r[0]), c * Fr(r[1])
            lo, hi = lo + min(u, v), hi + max(u, v)
        if math.floor(lo) == math.floor(hi):
            return q(math.floor(lo))
        return ex.floor(a)

    def terms(self, e):
        out, k, todo = [], Fr(0), [(Fr(1), e)]
        while todo:
            c, x = todo.pop()
            if x.op == '+':
                todo += [(c, x.a[0]), (c, x.a[1])]
            elif x.op == '*' and x.a[0].op == 'q':
                todo.append((c * x.a[0].a[0], x.a[1]))
            elif x.op == '*' and x.a[1].op == 'q':
                todo.append((c * x.a[1].a[0], x.a[0]))
            elif x.op == 'q':
                k += c * x.a[0]
            else:
                out.append((c, x))
        return out, k

    @staticmethod
    def shr(s, k):
        out = []
        for p, w, x, l in s:
            if p >= k:
                out.append((p - k, w, x, l))
            elif p + w > k:
                out.append((0, w - (k - p), x, l + k - p))
        return out

    @staticmethod
    def cut(s, m):
        """the bits of s under the mask m"""
        out = []
        for p, w, x, l in s:
            b = p
            while b < p + w:
                if not (m >> b) & 1:
                    b += 1
                    continue
                t = b
                while t < p + w and (m >> t) & 1:
                    t += 1
                out.append((b, t - b, x, l + b - p))
                b = t
        return out

    def joinbits(self, s):
        # runs of one term that continue each other
        s = sorted(s, key=lambda t: t[0])
        out = []
        for p, w, x, l in s:
            if isinstance(x, int):
                x = (x >> l) & ((1 << w) - 1)
                l = 0
            if out:
                p0, w0, x0, l0 = out[-1]
                if p0 + w0 == p and not isinstance(x, int) and x0 is x and l0 + w0 == l:
                    out[-1] = (p0, w0 + w, x, l0)
                    continue
            out.append((p, w, x, l))
        e, k = ZERO, 0
        for p, w, x, l in out:
            if isinstance(x, int):
                k += x << p
                continue
            r = self.irange(x)
            full = max(1, r[1].bit_length()) if r else 10**6
            y = ex.floor(ex.mul(x, q(Fr(1, 1 << l)))) if l else x
            if l + w < full:
                y = ex.sub(y, ex.mul(q(1 << w), ex.floor(ex.mul(x, q(Fr(1, 1 << (l + w)))))))
            e = ex.add(e, ex.mul(q(1 << p), y))
        e = ex.add(e, q(k))
        if e.op == 'q':
            return int(e.a[0])
        self.__dict__.setdefault('_slices', {})[e.id] = out
        return e

    def bitfields(self, op, n, a, b, ea, eb):
        if op in ('shl', 'lshr'):
            if not isinstance(b, int):
                return None
            s = self.slices(ea) if not isinstance(a, int) else None
            if s is None:
                return None
            if op == 'lshr':
                return self.joinbits(self.shr(s, b))
            return self.joinbits(self.cut([(p + b, w, x, l) for p, w, x, l in s], mask(n)))
        sa = self.constbits(a) if isinstance(a, int) else self.slices(ea)
        if sa is None:
            return None
        sb = self.constbits(b) if isinstance(b, int) else self.slices(eb)
        if sb is None:
            return None
        ma = sum(((1 << w) - 1) << p for p, w, _, _ in sa)
        mb = sum(((1 << w) - 1) << p for p, w, _, _ in sb)
        if op == 'and':
            if isinstance(b, int):
                return self.joinbits(self.cut(sa, b))
            if isinstance(a, int):
                return self.joinbits(self.cut(sb, a))
            return 0 if not ma & mb else None
        if not ma & mb:
            return self.joinbits(sa + sb)
        if op == 'or' and (isinstance(a, int) or isinstance(b, int)):
            k, s = (a, sb) if isinstance(a, int) else (b, sa)
            return self.joinbits(self.cut(s, ~k & mask(n)) + self.constbits(k))
        return None

    def blobnorm(self, b, n):
        if len(b.cells) == 1:
            o, s, v = b.cells[0]
            if o == 0 and s * 8 == n:
                return v
        return b

    def blobmask(self, a, m, n):
        keep = []
        if isinstance(a, int):
            return a & m
        if not isinstance(a, Blob):
            raise Unsupported('blob mask')
        for o, s, v in a.cells:
            mm = (m >> (8 * o)) & mask(8 * s)
            if mm == mask(8 * s):
                keep.append((o, s, v))
            elif mm == 0:
                continue
            elif isinstance(v, int):
                keep.append((o, s, v & mm))
            elif isinstance(v, N) and v.isint:
                keep.append((o, s, self.ibin('and', 8 * s, v, mm)))
            else:
                raise Unsupported('blob mask')
        if len(keep) == 1 and keep[0][0] == 0:
            v = keep[0][2]
            if isinstance(v, int) or (isinstance(v, N) and v.isint):
                return v
        return Blob(n // 8, keep)

    def blobor(self, a, b, n):
        def cells(x):
            if isinstance(x, Blob):
                return x.cells
            if isinstance(x, int):
                return [] if x == 0 else [(i, 1, (x >> (8 * i)) & 255) for i in range(n // 8)]
            return [(0, n // 8, x)]
        ca, cb = cells(a), cells(b)
        used = set()
        out = []
        for o, s, v in ca:
            out.append((o, s, v))
            used.update(range(o, o + s))
        for o, s, v in cb:
            if any(i in used for i in range(o, o + s)):
                if v == 0:
                    continue
                raise Unsupported('blob or')
            out.append((o, s, v))
        return Blob(n // 8, sorted(out, key=lambda x: x[0]))

    def fbits(self, op, n, a, b):
        if isinstance(a, FBits) and isinstance(b, int):
            c = node_float(a.n) if a.n.op in ('q', 'pi') else None
            if c is not None:
                return self.ibin(op, n, struct.unpack('<Q', struct.pack('<d', c))[0], b)
            if op == 'and' and b == mask(63):
                return FBits(ex.absv(a.n))
            if op == 'and' and b == 1 << 63:
                return ex.ite(ex.lt(a.n, ZERO), q(1 << 63), ZERO)
            if op == 'xor' and b == 1 << 63:
                return FBits(ex.neg(a.n))
            if op == 'lshr' and b == 63:
                return ex.ite(ex.lt(a.n, ZERO), ONE, ZERO)
        if isinstance(b, FBits) and isinstance(a, int) and op in ('and', 'or', 'xor'):
            return self.fbits(op, n, b, a)
        raise Unsupported('float bit op %s %r %r' % (op, a, b))

    def inode(self, v, n):
        if isinstance(v, int):
            return q(sgn(v, n)) if v >> (n - 1) and n >= 32 else q(v)
        if isinstance(v, N):
            if v.op in FORMOPS:
                return ex.ite(v, ONE, ZERO)
            return v
        raise Unsupported('int value %r' % (v,))

    def wrapchk(self, e, n):
        if e.op == 'q':
            return int(e.a[0]) & mask(n)
        lo, hi = self.iv().get(e)
        if lo >= -(1 << (n - 1)) and hi < (1 << n):
            return e
        self.notes.add('integer arithmetic without wrap-around assumed')
        return e

    def icmp(self, pred, t, a, b):
        n = t[1] if t[0] == 'i' else 64
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                a, b = sgn(a, n), sgn(b, n)
            p = pred[1:]
            return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj is b.obj:
                    return self.icmp(pred, ('i', 64), a.off & mask(64), b.off & mask(64)) if pred in ('eq', 'ne') else self.icmp('s' + pred[1:], ('i', 64), a.off & mask(64), b.off & mask(64))
                if pred in ('eq', 'ne'):
                    return int(pred == 'ne')
                raise Unsupported('pointer order')
            if pred in ('eq', 'ne'):
                o = b if isinstance(a, Ptr) else a
                if isinstance(o, int):
                    return int(pred == 'ne')
            other = b if isinstance(a, Ptr) else a
            if isinstance(other, int) and other < 4096:
                # address compared with small constant: addresses are large
                big = isinstance(a, Ptr)
                if pred in ('ugt', 'uge'):
                    return int(big)
                if pred in ('ult', 'ule'):
                    return int(not big)
            raise Unsupported('pointer compare %r %r' % (a, b))
        if isinstance(a, (Blob,)) or isinstance(b, Blob):
            if pred in ('eq', 'ne'):
                return self.blobeq(pred, a, b, n)
            raise Unsupported('blob compare')
        if isinstance(a, FBits) or isinstance(b, FBits):
            if isinstance(a, FBits) and isinstance(b, FBits) and pred in ('eq', 'ne'):
                f = ex.eq(a.n, b.n)
                return unform(f if pred == 'eq' else ex.bnot(f))
            if isinstance(a, FBits) and isinstance(b, int):
                if pred == 'slt' and b == 0:
                    return unform(ex.lt(a.n, ZERO))
                if pred == 'sgt' and b == mask(64):
                    return unform(ex.le(ZERO, a.n))
                if pred == 'sge' and b == 0:
                    return unform(ex.le(ZERO, a.n))
                fb = f2node(struct.unpack('<d', b.to_bytes(8, 'little'))[0])
                if pred in ('eq', 'ne'):
                    if isinstance(fb, float):
                        return int(pred == 'ne')
                    f = ex.eq(a.n, fb)
                    return unform(f if pred == 'eq' else ex.bnot(f))
                # ordering of non-negative patterns equals ordering of values
                if isinstance(fb, float):
                    if math.isinf(fb) or math.isnan(fb):
                        if fb != -math.inf and a.n.op == 'abs' or self.iv().get(a.n)[0] >= 0:
                            return int(pred in ('ult', 'ule', 'slt', 'sle'))
                c = node_float(a.n) if a.n.op in ('q', 'pi') else None
                if c is not None:
                    return self.icmp(pred, t, struct.unpack('<Q', struct.pack('<d', c))[0], b)
            raise Unsupported('float bits compare %s %r %r' % (pred, a, b))
        if n == 1:
            a, b = bform(a), bform(b)
            iff = None
            if b is ex.TRUE:
                iff = a
            elif b is ex.FALSE:
                iff = ex.bnot(a)
            elif a is ex.TRUE:
                iff = b
            elif a is ex.FALSE:
                iff = ex.bnot(b)
            else:
                iff = ex.bor(ex.band(a, b), ex.band(ex.bnot(a), ex.bnot(b)))
            if pred == 'eq':
                return unform(iff)
            if pred == 'ne':
                return unform(ex.bnot(iff))
            raise Unsupported('i1 order')
        # ite shortcuts
        for x, y in ((a, b), (b, a)):
            if isinstance(x, N) and x.op == 'ite' and isinstance(y, int) and x.a[1].op == 'q' and x.a[2].op == 'q':
                u = int(x.a[1].a[0]) & mask(n)
                w = int(x.a[2].a[0]) & mask(n)
                cu = self.icmp(pred, t, u, y) if x is a else self.icmp(pred, t, y, u)
                cw = self.icmp(pred, t, w, y) if x is a else self.icmp(pred, t, y, w)
                if cu == cw:
                    return cu
                return unform(x.a[0] if cu else ex.bnot(x.a[0]))
        ea, eb = self.inode(a, n), self.inode(b, n)
        if pred[0] == 'u':
            la, lb = self.iv().get(ea)[0], self.iv().get(eb)[0]
            if la < 0 or lb < 0:
                na = la < 0 and self.branch(ex.lt(ea, ZERO))
                nb = lb < 0 and self.branch(ex.lt(eb, ZERO))
                if na and not nb:
                    return int(pred in ('ugt', 'uge'))
                if nb and not na:
                    return int(pred in ('ult', 'ule'))
        elif pred[0] == 's':
            ea = q(sgn(a, n)) if isinstance(a, int) else ea
            eb = q(sgn(b, n)) if isinstance(b, int) else eb
            for x, e in ((a, ea), (b, eb)):
                if isinstance(x, N) and self.iv().get(e)[1] >= (1 << (n - 1)) and n >= 8:
                    if self.branch(ex.le(q(1 << (n - 1)), e)):
                        raise Unsupported('signed compare of large unsigned')
        if pred == 'eq':
            return unform(ex.eq(ea, eb))
        if pred == 'ne':
            return unform(ex.bnot(ex.eq(ea, eb)))
        p = pred[1:]
        return unform({'lt': ex.lt(ea, eb), 'le': ex.le(ea, eb), 'gt': ex.lt(eb, ea), 'ge': ex.le(eb, ea)}[p])

    def blobeq(self, pred, a, b, n):
        def cells(x):
            if isinstance(x, Blob):
                return {o: (s, v) for o, s, v in x.cells}
            return None
        ca, cb = cells(a), cells(b)
        f = ex.TRUE
        if ca is not None and cb is not None and set(ca) == set(cb):
            for o in ca:
                if ca[o][0] != cb[o][0]:
                    raise Unsupported('blob compare')
                x = self.icmp('eq', ('i', 8 * ca[o][0]), ca[o][1], cb[o][1])
                f = ex.band(f, bform(x))
            return unform(f if pred == 'eq' else ex.bnot(f))
        if ca is not None and isinstance(b, int):
            for o, (s, v) in ca.items():
                x = self.icmp('eq', ('i', 8 * s), v, (b >> (8 * o)) & mask(8 * s))
                f = ex.band(f, bform(x))
            return unform(f if pred == 'eq' else ex.bnot(f))
        raise Unsupported('blob compare')

    def fcmp(self, pred, a, b):
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        if a is UNDEF or b is UNDEF:
            return UNDEF
        fa, fb = isinstance(a, float), isinstance(b, float)
        if fa or fb:
            nan = (fa and math.isnan(a)) or (fb and math.isnan(b))
            if pred == 'ord':
                return int(not nan)
            if pred == 'uno':
                return int(nan)
            if nan:
                return int(pred[0] == 'u')
            p = pred[1:]
            if fa and fb:
                return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
            if p == 'eq':
                return 0
            if p == 'ne':
                return 1
            less = (a < 0) if fa else (b > 0)
            return int(less if p in ('lt', 'le') else not less)
        if pred == 'ord':
            return 1
        if pred == 'uno':
            return 0
        p = pred[1:]
        if p == 'eq':
            return unform(ex.eq(a, b))
        if p == 'ne':
            return unform(ex.bnot(ex.eq(a, b)))
        return unform({'lt': ex.lt(a, b), 'le': ex.le(a, b), 'gt': ex.lt(b, a), 'ge': ex.le(b, a)}[p])

    def sign(self, x):
        """-1/0/1, forking"""
        if isinstance(x, float):
            return (x > 0) - (x < 0)
        if self.branch(ex.lt(ZERO, x)):
            return 1
        if self.branch(ex.lt(x, ZERO)):
            return -1
        return 0

    def fbin(self, op, a, b):
        if isinstance(a, tuple):
            return tuple(self.fbin(op, x, y) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, float) or isinstance(b, float):
            fa = a if isinstance(a, float) else None
            fb = b if isinstance(b, float) else None
            if (fa is not None and math.isnan(fa)) or (fb is not None and math.isnan(fb)):
                return math.nan
            if op in ('fadd', 'fsub'):
                if fb is not None and op == 'fsub':
                    fb = -fb
                if fa is not None and fb is not None:
                    return fa + fb
                return fa if fa is not None else fb
            if op == 'fmul':
                s = self.sign(a) * self.sign(b)
                return math.nan if s == 0 else s * math.inf
            if op == 'fdiv':
                if fb is not None:
                    return math.nan if fa is not None else ZERO
                s = self.sign(a) * (self.sign(b) or 1)
                return s * math.inf
            if op == 'frem':
                return math.nan if fa is not None else a
        if op == 'fadd':
            return ex.add(a, b)
        if op == 'fsub':
            return ex.sub(a, b)
        if op == 'fmul':
            return ex.mul(a, b)
        if op == 'fdiv':
            if b.op == 'q' and b.a[0] == 0:
                s = self.sign(a)
                return math.nan if s == 0 else s * math.inf
            return ex.div(a, b)
        if op == 'frem':
            lo, hi = self.iv().get(a)
            lb, hb = self.iv().get(b)
            if lb <= 0 <= hb and not (b.op in ('pi', 'exp')) and self.branch(ex.eq(b, ZERO)):
                return math.nan
            y = b if lb >= 0 else ex.absv(b)
            if lo >= 0 or not self.branch(ex.lt(a, ZERO)):
                return ex.sub(a, ex.mul(y, self.floor(ex.div(a, y))))
            return ex.add(a, ex.mul(y, self.floor(ex.div(ex.neg(a), y))))
        raise Unsupported(op)

    # ---- running ---------------------------------------------------------------
    def call(self, name, args, I=None):
        h = self.m.handler(name)
        if h is not None:
            return h(self, I, args)
        f = self.mod.func(name)
        if f is None:
            raise Unsupported('external function ' + self.m.dm.get(name, name))
        return self.run(f, args)

    def run(self, f, args):
        self.depth += 1
        if self.depth > 2000:
            raise Unsupported('call depth')
        t = self.m.touched
        t[f.name] = t.get(f.name, 0) + 1
        self.stack.append(f.name)
        regs = {}
        for (nm, ty, byval), v in zip(f.params, args):
            if byval is not None and isinstance(v, Ptr):
                o = self.newobj('byval', size_of(byval))
                self.memcpy(Ptr(o, 0), v, size_of(byval))
                v = Ptr(o, 0)
            regs[nm] = v
        lab = f.entry
        prev = None
        mod = self.mod
        loopk = self.opts.get('loopmax', 200000)
        visits = {}
        D = DISPATCH
        while True:
            blk = mod.block(f, lab)
            self.steps += len(blk)
            if self.steps > self.maxsteps:
                raise Unsupported('step budget exhausted in ' + self.m.dm.get(f.name, f.name))
            i = 0
            n = len(blk)
            # phis in parallel
            if blk[0].op == 'phi':
                vals = []
                while i < n and blk[i].op == 'phi':
                    I = blk[i]
                    for v, l in I.a:
                        if l == prev:
                            vals.append((I.res, regs[v[1]] if v[0] == 'l' else self.cval(v, I.ty)))
                            break
                    else:
                        raise Unsupported('phi')
                    i += 1
                for r, v in vals:
                    regs[r] = v
            nxt = None
            while i < n:
                I = blk[i]
                i += 1
                op = I.op
                if op == 'br':
                    if I.a is None:
                        nxt = I.b
                    else:
                        c = I.a
                        c = regs[c[1]] if c[0] == 'l' else self.cval(c)
                        if not isinstance(c, int):
                            c = self.branch(c)
                        nxt = I.b if c else I.c
                    break
                if op == 'ret':
                    self.depth -= 1
                    self.stack.pop()
                    if I.a is None:
                        return None
                    v = I.a
                    return regs[v[1]] if v[0] == 'l' else self.cval(v, I.ty)
                if op == 'call' or op == 'invoke':
                    r = self.do_call(I, regs)
                    if I.res is not None:
                        regs[I.res] = r
                    if op == 'invoke':
                        nxt = I.x[0]
                        break
                    continue
                if op == 'switch':
                    nxt = self.do_switch(I, regs)
                    break
                h = D.get(op)
                if h is None:
                    if op == 'unreachable':
                        raise PathEnd('unreachable', self.m.dm.get(f.name, f.name))
                    raise Unsupported('instruction ' + op)
                r = h(self, I, regs)
                if I.res is not None:
                    regs[I.res] = r
            prev = lab
            lab = nxt

    def val(self, v, t, regs):
        if v[0] == 'l':
            return regs[v[1]]
        return self.cval(v, t)

    def do_switch(self, I, regs):
        v = self.val(I.a, I.ty, regs)
        if isinstance(v, int):
            v &= mask(I.ty[1])
            for cv, l in I.c:
                if cv & mask(I.ty[1]) == v:
                    return l
            return I.b
        if v is UNDEF:
            raise Unsupported('switch on undef')
        for cv, l in I.c:
            c = self.icmp('eq', I.ty, v, cv & mask(I.ty[1]))
            if c if isinstance(c, int) else self.branch(c):
                return l
        return I.b

    def do_call(self, I, regs):
        c = I.a
        if c[0] == 'asm':
            return None
        if c[0] == 'l':
            p = regs[c[1]]
            if not isinstance(p, Ptr) or p.obj.fn is None:
                raise Unsupported('indirect call through %r' % (p,))
            name = p.obj.fn
        elif c[0] == 'g':
            name = c[1]
        else:
            raise Unsupported('call target')
        args = []
        for t, v in I.b:
            if v[0] == 'l':
                args.append(regs[v[1]])
            elif v[0] == 'md':
                args.append(None)
            else:
                args.append(self.cval(v, t))
        return self.call(name, args, I)

    # ---- memory intrinsics --------------------------------------------------------
    def memcpy(self, d, s, n):
        n = n if isinstance(n, int) else self.concretize(n, 'memcpy length')
        if n == 0:
            return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            raise Unsupported('memcpy %r %r' % (d, s))
        so, do = s.obj, d.obj
        if s.off < 0 or s.off + n > so.size or d.off < 0 or d.off + n > do.size:
            raise PathEnd('oob', 'memcpy out of bounds %r %r %d' % (s, d, n))
        items = []
        covered = 0
        for k in self.overl(so, s.off, n):
            sz, v = so.cells[k]
            if k < s.off or k + sz > s.off + n:
                if isinstance(v, int):
                    b = (v & mask(8 * sz)).to_bytes(sz, 'little')
                    for i in range(sz):
                        if s.off <= k + i < s.off + n:
                            items.append((k + i - s.off, 1, b[i]))
                elif isinstance(v, N) and v.isint and k == s.off and self.iv().get(v)[0] >= 0 and self.iv().get(v)[1] < (1 << (8 * n)):
                    items.append((0, n, v))
                elif v is UNDEF:
                    continue
                else:
                    raise Unsupported('partial memcpy')
            else:
                items.append((k - s.off, sz, v))
        rawseg = so.raw[s.off:s.off + n] if so.raw is not None else None
        self.kill(do, d.off, n)
        if rawseg is not None:
            if do.raw is None and d.off == 0 and do.size == n and not items:
                do.raw = bytes(rawseg)
                return
            self.putbytes2(do, d.off, rawseg, items)
        elif do.raw is not None:
            # uninitialised source bytes over raw: mark undef
            for i in range(n):
                do.cells[d.off + i] = (1, UNDEF)
        for o, sz, v in items:
            if rawseg is not None or do.raw is not None:
                self.kill(do, d.off + o, sz)
            do.cells[d.off + o] = (sz, v)

    def putbytes2(self, o, off, b, items):
        self.putbytes(o, off, b)

    def memset(self, d, byte, n):
        n = n if isinstance(n, int) else self.concretize(n, 'memset length')
        if n == 0:
            return
        if d.off < 0 or d.off + n > d.obj.size:
            raise PathEnd('oob', 'memset')
        if byte is UNDEF:
            self.kill(d.obj, d.off, n)
            return
        byte = self.concretize(byte, 'memset byte') & 255
        self.setzero(d.obj, d.off, n, byte)

    def alloc(self, size, zero=False):
        size = size if isinstance(size, int) else self.concretize(size, 'allocation size')
        o = self.newobj('heap', size)
        if zero:
            self.setzero(o, 0, size)
        return Ptr(o, 0)

    def getstr(self, p, n):
        n = n if isinstance(n, int) else self.concretize(n)
        out = bytearray()
        for i in range(n):
            out.append(self.load(Ptr(p.obj, p.off + i), ('i', 8)))
        return out.decode('utf8', 'replace')

    # ---- min / max / abs ------------------------------------------------------------
    def fminmax(self, a, b, mx):
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, float) and math.isnan(a):
                return b
            if isinstance(b, float) and math.isnan(b):
                return a
            if isinstance(a, float):
                return a if (a > 0) == mx else b
            return b if (b > 0) == mx else a
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if a is b:
            return a
        f = ex.le(a, b)
        r = self.quick(f)
        if r is None:
            if self.opts.get('minmax') == 'node':
                return ex.fmax(a, b) if mx else ex.fmin(a, b)
            # equal operands: either side will do, so a constant is chosen only when it differs from the other
            if isinstance(a, N) and isinstance(b, N) and (a.op == 'q') != (b.op == 'q'):
                k, o = (a, b) if a.op == 'q' else (b, a)
                return k if self.branch(ex.lt(o, k) if mx else ex.lt(k, o)) else o
            r = self.branch(f)
        if r:
            return b if mx else a
        return a if mx else b

    def fabs(self, a):
        if isinstance(a, float):
            return abs(a)
        if a is UNDEF:
            return a
        lo, hi = self.iv().get(a)
        if lo >= 0:
            return a
        if hi <= 0:
            return ex.neg(a)
        k = self.known.get(ex.lt(a, ZERO).id)
        if k is not None:
            return ex.neg(a) if k else a
        k = self.known.get(ex.le(ZERO, a).id)
        if k is not None:
            return a if k else ex.neg(a)
        k = self.known.get(ex.lt(ZERO, a).id)
        if k is not None:
            return a if k else ex.neg(a)
        if self.opts.get('abs') == 'fork':
            return ex.neg(a) if self.branch(ex.lt(a, ZERO)) else a
        return ex.absv(a)

    def round_half_away(self, a):
        half = q(Fr(1, 2))
        if isinstance(a, float):
            return a
        if self.branch(ex.lt(a, ZERO)):
            return ex.neg(ex.floor(ex.add(ex.neg(a), half)))
        return ex.floor(ex.add(a, half))

    def ftrunc(self, a):
        if isinstance(a, float):
            return a
        if a.isint:
            return a
        if self.branch(ex.lt(a, ZERO)):
            return ex.neg(ex.floor(ex.neg(a)))
        return ex.floor(a)

    # ---- runtime interface (vcrt_*) --------------------------------------------------
    def rt_f64(self, I, args):
        name = self.getstr(args[0], args[1])
        lo, hi = args[2], args[3]
        n = self.newvar(name)
        for b, low in ((lo, True), (hi, False)):
            if isinstance(b, float):
                continue
            self.assume(ex.le(b, n) if low else ex.le(n, b))
        return n

    def rt_int(self, I, args):
        name = self.getstr(args[0], args[1])
        lo, hi = sgn(args[2], 64), sgn(args[3], 64)
        if hi - lo <= self.opts.get('int_enum', 0):
            k = self.choose(hi - lo + 1)
            self.vars[name] = q(lo + k)
            return (lo + k) & mask(64)
        n = self.newvar(name, float(lo), float(hi), True)
        return n

    def rt_enum(self, I, args):
        name = self.getstr(args[0], args[1])
        lo, hi = sgn(args[2], 64), sgn(args[3], 64)
        k = self.choose(hi - lo + 1)
        self.vars[name] = q(lo + k)
        return (lo + k) & mask(64)

    def rt_bool(self, I, args):
        name = self.getstr(args[0], args[1])
        k = self.choose(2)
        self.vars[name] = q(k)
        return k

    def rt_assume(self, I, args):
        c = args[0]
        if isinstance(c, N):
            c = tobool(c) if c.op not in FORMOPS else c
            r = self.quick(c)
            if r is True:
                return None
            if r is False:
                raise PathEnd('infeasible')
            self.assume(c)
            return None
        if isinstance(c, int):
            if not c & 1:
                raise PathEnd('infeasible')
            return None
        raise Unsupported('assume %r' % (c,))

    def rt_ensure(self, I, args):
        label = self.getstr(args[0], args[1])
        c = args[2]
        if isinstance(c, N):
            c = tobool(c) if c.op not in FORMOPS else c
        elif isinstance(c, int):
            c = ex.TRUE if c & 1 else ex.FALSE
        else:
            raise Unsupported('ensure %r' % (c,))
        self.obls.append((label, 'form', c, len(self.pc)))

    def rt_ensure_eq(self, I, args):
        label = self.getstr(args[0], args[1])
        a, b, tol = args[2], args[3], args[4]
        if isinstance(a, float) or isinstance(b, float):
            same = isinstance(a, float) and isinstance(b, float) and (a == b or (math.isnan(a) and math.isnan(b)))
            self.obls.append((label, 'form', ex.TRUE if same else ex.FALSE, len(self.pc)))
            return
        if a is UNDEF or b is UNDEF:
            raise Unsupported('ensure_eq on undef: ' + label)
        self.obls.append((label, 'eq', (a, b, tol), len(self.pc)))

    def rt_reach(self, I, args):
        self.covers.append(self.getstr(args[0], args[1]))

    def rt_allow_panic(self, I, args):
        self.allow_panic = True

    def rt_option(self, I, args):
        k = self.getstr(args[0], args[1])
        v = self.getstr(args[2], args[3])
        self.opts = dict(self.opts)
        self.opts[k] = int(v) if v.lstrip('-').isdigit() else v
        if k == 'maxsteps':
            self.maxsteps = int(v)

    def rt_fn(self, I, args):
        """uninterpreted real function name(x)"""
        name = self.getstr(args[0], args[1])
        x = args[2]
        if isinstance(x, float):
            raise Unsupported('uninterpreted function at nan/inf')
        n = ex.mk('uf', name, x)
        return n

    def rt_is_symbolic(self, I, args):
        return 1


def tocell(v, k, n):
    if k == 'f':
        if isinstance(v, N):
            return FBits(v)
        if isinstance(v, float):
            return struct.unpack('<Q', struct.pack('<d', v))[0] if n == 8 else struct.unpack('<I', struct.pack('<f', v))[0]
        return v
    if isinstance(v, int):
        return v & mask(8 * n)
    return v


FORMOPS = {'lt', 'le', 'eq', 'not', 'and', 'or', 'true', 'false'}


def bform(v):
    if isinstance(v, int):
        return ex.TRUE if v & 1 else ex.FALSE
    if isinstance(v, N):
        return v if v.op in FORMOPS else tobool(v)
    raise Unsupported('bool %r' % (v,))


def unform(f):
    if f is ex.TRUE:
        return 1
    if f is ex.FALSE:
        return 0
    return f


def tobool(n):
    """integer 0/1 node -> formula"""
    if n.op == 'ite':
        if n.a[1].op == 'q' and n.a[2].op == 'q':
            u, w = int(n.a[1].a[0]) & 1, int(n.a[2].a[0]) & 1
            if u == w:
                return ex.TRUE if u else ex.FALSE
            return n.a[0] if u else ex.bnot(n.a[0])
    if n.op == 'q':
        return ex.TRUE if int(n.a[0]) & 1 else ex.FALSE
    if n.op in FORMOPS:
        return n
    return ex.eq(n, ONE)


# ---- instruction handlers -------------------------------------------------------
def i_bin(P, I, regs):
    a, b = P.val(I.a, I.ty, regs), P.val(I.b, I.ty, regs)
    t = I.ty
    if I.op[0] == 'f':
        return P.fbin(I.op, a, b)
    if t[0] == 'vec':
        return tuple(P.ibin(I.op, t[2][1], x, y) for x, y in zip(P.aggvals(a, t[1]), P.aggvals(b, t[1])))
    return P.ibin(I.op, t[1], a, b)


def i_fneg(P, I, regs):
    a = P.val(I.a, I.ty, regs)
    if isinstance(a, float):
        return -a
    if a is UNDEF:
        return a
    return ex.neg(a)


def i_alloca(P, I, regs):
    n = 1
    if I.a is not None:
        n = P.val(I.a[1], I.a[0], regs)
    return Ptr(Obj('alloca', size_of(I.ty) * n), 0)


def i_load(P, I, regs):
    return P.load(P.val(I.a, PTR, regs), I.ty)


def i_store(P, I, regs):
    P.store(P.val(I.b, PTR, regs), I.ty, P.val(I.a, I.ty, regs))


def i_gep(P, I, regs):
    base = P.val(I.a, PTR, regs)
    off = P.gepoff(I.ty, [(t, P.val(v, t, regs)) for t, v in I.b])
    if isinstance(base, Ptr):
        return Ptr(base.obj, base.off + off)
    if isinstance(base, int):
        return (base + off) & mask(64)
    if base is UNDEF:
        return UNDEF
    raise Unsupported('gep on %r' % (base,))


def i_icmp(P, I, regs):
    a, b = P.val(I.a, I.ty, regs), P.val(I.b, I.ty, regs)
    t = I.ty
    if t[0] == 'vec':
        return tuple(P.icmp(I.c, t[2], x, y) for x, y in zip(P.aggvals(a, t[1]), P.aggvals(b, t[1])))
    return P.icmp(I.c, t, a, b)


def i_fcmp(P, I, regs):
    a, b = P.val(I.a, I.ty, regs), P.val(I.b, I.ty, regs)
    if isinstance(a, tuple):
        return tuple(P.fcmp(I.c, x, y) for x, y in zip(a, b))
    return P.fcmp(I.c, a, b)


def i_select(P, I, regs):
    c = P.val(I.a, I.x, regs)
    a = P.val(I.b, I.ty, regs)
    b = P.val(I.c, I.ty, regs)
    if isinstance(c, tuple):
        return tuple(x if P.branch(k) else y for k, x, y in zip(c, a, b))
    if isinstance(c, int):
        return a if c & 1 else b
    if c is UNDEF:
        return UNDEF
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    if I.ty == ('i', 1):
        r = P.quick(c)
        if r is not None:
            return a if r else b
        if a is not UNDEF and b is not UNDEF:
            fa, fb = bform(a), bform(b)
            return unform(ex.bor(ex.band(c, fa), ex.band(ex.bnot(c), fb)))
    if I.ty[0] == 'i' and isinstance(a, int) and isinstance(b, int):
        r = P.quick(c)
        if r is not None:
            return a if r else b
        n = I.ty[1]
        return ex.ite(c, P.inode(a, n), P.inode(b, n))
    # select on a comparison of its own operands: both sides agree at equality, so the constant side is taken strictly
    if isinstance(c, N):
        g, flip = c, False
        while g.op == 'not':
            g, flip = g.a[0], not flip
        if g.op == 'le' and len(g.a) == 2 and isinstance(a, N) and isinstance(b, N) and {a.id, b.id} == {g.a[0].id, g.a[1].id}:
            k = b if flip else a          # value chosen when g holds
            o = a if flip else b
            if k.op == 'q' and o.op != 'q':
                return k if P.branch(ex.lt(*g.a)) else o
        elif g.op == 'lt' and len(g.a) == 2 and isinstance(a, N) and isinstance(b, N) and {a.id, b.id} == {g.a[0].id, g.a[1].id}:
            k = a if flip else b          # value chosen when g fails
            o = b if flip else a
            if k.op == 'q' and o.op != 'q':
                return k if P.branch(ex.lt(g.a[1], g.a[0])) else o
    return a if P.branch(c) else b


def i_cast(P, I, regs):
    a = P.val(I.a, I.b, regs)
    op = I.op
    st, dt = I.b, I.ty
    if st[0] == 'vec' and dt[0] == 'vec' and op != 'bitcast':
        return tuple(castone(P, op, x, st[2], dt[2]) for x in P.aggvals(a, st[1]))
    return castone(P, op, a, st, dt)


def castone(P, op, a, st, dt):
    if a is UNDEF:
        return UNDEF
    if op == 'trunc':
        n = dt[1]
        if isinstance(a, int):
            return a & mask(n)
        if isinstance(a, N):
            if n == 1:
                return unform(tobool(a)) if a.op not in FORMOPS else a
            if a.op in FORMOPS:
                return a
            lo, hi = P.irange(a) or P.iv().get(a)
            if a.op == 'ite' or (lo >= -(1 << (n - 1)) and hi < (1 << n)):
                return a
            if lo >= 0:
                s = P.slices(a)
                if s is not None:
                    return P.joinbits(P.cut(s, mask(n)))
                return ex.sub(a, ex.mul(q(1 << n), ex.floor(ex.mul(a, q(Fr(1, 1 << n))))))
            P.notes.add('integer truncation without loss assumed')
            return a
        if isinstance(a, Blob):
            if n < 8:
                for o, s, v in a.cells:
                    if o == 0:
                        return castone(P, 'trunc', v, ('i', 8 * s), dt)
            k = n // 8
            cells = []
            for o, s, v in a.cells:
                if o + s <= k:
                    cells.append((o, s, v))
                elif o < k:
                    if isinstance(v, int):
                        for i in range(k - o):
                            cells.append((o + i, 1, (v >> (8 * i)) & 255))
                    elif isinstance(v, N) and v.isint and o == 0:
                        cells.append((0, k, castone(P, 'trunc', v, ('i', 8 * s), ('i', n))))
                    else:
                        raise Unsupported('trunc of blob')
            if len(cells) == 1 and cells[0][0] == 0 and cells[0][1] == k:
                v = cells[0][2]
                return v
            if n == 1:
                for o, s, v in a.cells:
                    if o == 0:
                        return castone(P, 'trunc', v, ('i', 8 * s), dt)
            return Blob(k, cells)
        if isinstance(a, Ptr):
            return a.off & mask(n)
        raise Unsupported('trunc %r' % (a,))
    if op == 'zext':
        if isinstance(a, int):
            return a
        if isinstance(a, N):
            if st[1] == 1:
                return ex.ite(bform(a), ONE, ZERO)
            lo, hi = P.iv().get(a)
            if lo < 0:
                if P.branch(ex.lt(a, ZERO)):
                    return ex.add(a, q(1 << st[1]))
            return a
        if isinstance(a, Blob):
            return Blob(dt[1] // 8, a.cells)
        return a
    if op == 'sext':
        if isinstance(a, int):
            return sgn(a, st[1]) & mask(dt[1])
        if isinstance(a, N):
            if st[1] == 1:
                return ex.ite(bform(a), q(mask(dt[1])), ZERO)
            lo, hi = P.iv().get(a)
            if hi >= (1 << (st[1] - 1)) and lo >= 0:
                if P.branch(ex.le(q(1 << (st[1] - 1)), a)):
                    return ex.sub(a, q(1 << st[1]))
            return a
        return a
    if op == 'fpext' or op == 'fptrunc':
        return a
    if op in ('sitofp', 'uitofp'):
        if isinstance(a, int):
            return q(sgn(a, st[1]) if op == 'sitofp' else a)
        if isinstance(a, N):
            if a.op in FORMOPS:
                a = ex.ite(a, ONE, ZERO)
            if a.op == 'ite':
                return a.a[1] if P.branch(a.a[0]) else a.a[2]
            return a
        raise Unsupported('int to float of %r' % (a,))
    if op in ('fptosi', 'fptoui'):
        return ftoi(P, a, dt[1], op == 'fptosi')
    if op in ('ptrtoint', 'inttoptr', 'addrspacecast', 'ptrtoaddr'):
        if op == 'inttoptr' and isinstance(a, Blob):
            if len(a.cells) == 1:
                return a.cells[0][2]
        return a
    if op == 'bitcast':
        if st[0] == 'f' and dt[0] == 'i':
            if isinstance(a, float):
                return struct.unpack('<Q', struct.pack('<d', a))[0]
            if a.op == 'q':
                f = node_float(a)
                if st[1] == 64:
                    return struct.unpack('<Q', struct.pack('<d', f))[0]
                return struct.unpack('<I', struct.pack('<f', f))[0]
            return FBits(a)
        if st[0] == 'i' and dt[0] == 'f':
            if isinstance(a, int):
                return P.conv(a, dt, dt[1] // 8)
            if isinstance(a, FBits):
                return a.n
            if isinstance(a, N) and a.op == 'ite':
                return P.conv(int(P.concretize(a)) & mask(st[1]), dt, dt[1] // 8)
            raise Unsupported('bitcast %r' % (a,))
        if st == dt:
            return a
        if st[0] == 'vec' and st[2] == ('i', 1) and dt[0] == 'i':
            v = 0
            for k, x in enumerate(a):
                if not isinstance(x, int):
                    x = int(P.branch(x))
                v |= (x & 1) << k
            return v
        # generic through memory
        o = Obj('cast', max(size_of(st), size_of(dt)))
        P.store(Ptr(o, 0), st, a)
        return P.load(Ptr(o, 0), dt)
    raise Unsupported('cast ' + op)


def ftoi(P, a, n, signed, sat=False):
    if isinstance(a, float):
        if math.isnan(a):
            return 0
        if signed:
            return (mask(n - 1) if a > 0 else (1 << (n - 1)))
        return mask(n) if a > 0 else 0
    lo_, hi_ = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, mask(n))
    lo, hi = P.iv().get(a)
    if sat and n <= 64:
        if hi >= hi_ and P.branch(ex.le(q(hi_), a)):
            return hi_ & mask(n)
        if lo <= lo_ and P.branch(ex.le(a, q(lo_))):
            return lo_ & mask(n)
    r = P.ftrunc(a)
    if r.op == 'q':
        return int(r.a[0]) & mask(n)
    return r


def i_extractvalue(P, I, regs):
    v = P.val(I.a, I.ty, regs)
    for k in I.b:
        if v is UNDEF:
            return UNDEF
        v = v[k]
    return v


def i_insertvalue(P, I, regs):
    v = P.val(I.a, I.ty, regs)
    e = P.val(I.b, I.x, regs)

    def ins(v, t, idx):
        if not idx:
            return e
        k = idx[0]
        n = len(t[2]) if t[0] == 'st' else t[1]
        l = list(v) if v is not UNDEF else [UNDEF] * n
        l[k] = ins(l[k], t[2][k] if t[0] == 'st' else t[2], idx[1:])
        return tuple(l)
    return ins(v, I.ty, I.c)


def i_extractelement(P, I, regs):
    v = P.val(I.a, I.ty, regs)
    i = P.val(I.b, ('i', 64), regs)
    if v is UNDEF:
        return v
    return v[P.concretize(i)]


def i_insertelement(P, I, regs):
    v = P.val(I.a, I.ty, regs)
    e = P.val(I.b, I.ty[2], regs)
    i = P.concretize(P.val(I.c, ('i', 64), regs))
    l = list(P.aggvals(v, I.ty[1]))
    l[i] = e
    return tuple(l)


def i_shuffle(P, I, regs):
    v = P.aggvals(P.val(I.a, I.ty, regs), I.ty[1])
    w = P.aggvals(P.val(I.b, I.ty, regs), I.ty[1])
    m = P.val(I.c, I.x, regs)
    allv = list(v) + list(w)
    return tuple(allv[k] if isinstance(k, int) else UNDEF for k in P.aggvals(m, I.x[1]))


def i_freeze(P, I, regs):
    v = P.val(I.a, I.ty, regs)
    if v is UNDEF:
        return P.zero(I.ty)
    return v


def i_nop(P, I, regs):
    return None


def i_rmw(P, I, regs):
    p = P.val(I.a, PTR, regs)
    v = P.val(I.b, I.ty, regs)
    old = P.load(p, I.ty)
    n = I.ty[1] if I.ty[0] == 'i' else 64
    if I.c == 'xchg':
        new = v
    elif I.c in ('add', 'sub', 'and', 'or', 'xor'):
        new = P.ibin(I.c, n, old, v)
    else:
        raise Unsupported('atomicrmw ' + I.c)
    P.store(p, I.ty, new)
    return old


def i_cmpxchg(P, I, regs):
    p = P.val(I.a, PTR, regs)
    c = P.val(I.b, I.ty, regs)
    nv = P.val(I.c, I.ty, regs)
    old = P.load(p, I.ty)
    e = P.icmp('eq', I.ty, old, c)
    if not isinstance(e, int):
        e = int(P.branch(e))
    if e:
        P.store(p, I.ty, nv)
    return (old, e)


def i_landing(P, I, regs):
    raise Unsupported('landingpad')


DISPATCH = {}
for _o in 'add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split():
    DISPATCH[_o] = i_bin
for _o in 'trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast ptrtoaddr'.split():
    DISPATCH[_o] = i_cast
DISPATCH.update({'fneg': i_fneg, 'alloca': i_alloca, 'load': i_load, 'store': i_store, 'getelementptr': i_gep,
                 'icmp': i_icmp, 'fcmp': i_fcmp, 'select': i_select, 'extractvalue': i_extractvalue,
                 'insertvalue': i_insertvalue, 'extractelement': i_extractelement, 'insertelement': i_insertelement,
                 'shufflevector': i_shuffle, 'freeze': i_freeze, 'fence': i_nop, 'atomicrmw': i_rmw,
                 'cmpxchg': i_cmpxchg, 'landingpad': i_landing, 'resume': i_landing})


# ---- functions -----------------------------------------------------------------
def un(op):
    def h(P, I, args):
        a = args[0]
        if a is UNDEF:
            return a
        if isinstance(a, tuple):
            return tuple(h(P, I, [x]) for x in a)
        if isinstance(a, float):
            if math.isnan(a):
                return a
            if op == 'exp':
                return math.inf if a > 0 else ZERO
            if op == 'atan':
                return ex.div(ex.PI, q(2 if a > 0 else -2))
            if op in ('sqrt', 'log') and a > 0:
                return a
            return math.nan
        if op == 'sqrt' and a.op == 'q' and a.a[0] < 0:
            return math.nan
        if op == 'sqrt':
            k = P.quick(ex.lt(a, ZERO))
            if k:
                return math.nan
        return ex.fn1(op, a)
    return h


def f_fabs(P, I, args):
    return P.fabs(args[0])


def f_floor(P, I, args):
    a = args[0]
    return a if isinstance(a, float) else P.floor(a)


def f_ceil(P, I, args):
    a = args[0]
    return a if isinstance(a, float) else ex.neg(ex.floor(ex.neg(a)))


def f_trunc(P, I, args):
    return P.ftrunc(args[0])


def f_round(P, I, args):
    return P.round_half_away(args[0])


def f_rint(P, I, args):
    P.notes.add('round-half-even read as floor(x+1/2)')
    a = args[0]
    return a if isinstance(a, float) else ex.floor(ex.add(a, q(Fr(1, 2))))


def f_fma(P, I, args):
    return P.fbin('fadd', P.fbin('fmul', args[0], args[1]), args[2])


def f_min(P, I, args):
    return P.fminmax(args[0], args[1], False)


def f_max(P, I, args):
    return P.fminmax(args[0], args[1], True)


def f_copysign(P, I, args):
    a, b = args
    m = P.fabs(a)
    if isinstance(b, float):
        neg = b < 0
    else:
        neg = P.branch(ex.lt(b, ZERO))
    return P.fbin('fsub', ZERO, m) if neg else m


def f_powi(P, I, args):
    a, k = args
    k = sgn(P.concretize(k), 32)
    if isinstance(a, float):
        return a ** k
    return ex.powi(a, k)


def f_pow(P, I, args):
    a, b = args
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, N) and math.isinf(a) and a > 0:
            s = P.sign(b)
            return math.inf if s > 0 else (ZERO if s < 0 else ONE)
        raise Unsupported('pow of special')
    if b.op == 'q' and b.a[0].denominator == 1 and abs(b.a[0]) <= 12:
        return ex.powi(a, int(b.a[0]))
    if b.op == 'q' and b.a[0] == Fr(1, 2):
        return ex.sqrt(a)
    if a is ONE:
        return ONE
    return ex.mk('pow', a, b)


def f_atan2(P, I, args):
    y, x = args
    if isinstance(y, float) or isinstance(x, float):
        raise Unsupported('atan2 of special')
    if y.op == 'q' and y.a[0] == 0:
        if x.op == 'q':
            return ZERO if x.a[0] >= 0 else ex.PI
        r = P.quick(ex.lt(x, ZERO))
        if r is False:
            return ZERO
        if r:
            return ex.PI
    P.atan2s.append((y, x))
    return ex.mk('atan2', y, x)


def f_hypot(P, I, args):
    a, b = args
    return un('sqrt')(P, I, [P.fbin('fadd', P.fbin('fmul', a, a), P.fbin('fmul', b, b))])


def f_sincos(P, I, args):
    return (un('sin')(P, I, args), un('cos')(P, I, args))


def f_fmod(P, I, args):
    return P.fbin('frem', args[0], args[1])


def f_exp2(P, I, args):
    return ex.mk('pow', q(2), args[0])


def f_log10(P, I, args):
    return un('log10')(P, I, args)


LIBM = {'sin': un('sin'), 'cos': un('cos'), 'tan': un('tan'), 'asin': un('asin'), 'acos': un('acos'), 'atan': un('atan'),
        'exp': un('exp'), 'log': un('log'), 'log10': un('log10'), 'log2': un('log2'), 'sinh': un('sinh'), 'cosh': un('cosh'),
        'tanh': un('tanh'), 'asinh': un('asinh'), 'acosh': un('acosh'), 'atanh': un('atanh'), 'cbrt': un('cbrt'),
        'expm1': un('expm1'), 'log1p': un('ln1p'), 'atan2': f_atan2, 'pow': f_pow, 'hypot': f_hypot, 'fmod': f_fmod,
        'floor': f_floor, 'ceil': f_ceil, 'trunc': f_trunc, 'round': f_round, 'rint': f_rint, 'fabs': f_fabs,
        'sqrt': un('sqrt'), 'fma': f_fma, 'exp2': f_exp2, 'copysign': f_copysign, 'fmin': f_min, 'fmax': f_max}


def f_memcpy(P, I, args):
    P.memcpy(args[0], args[1], args[2])
    return args[0]


def f_memset(P, I, args):
    P.memset(args[0], args[1], args[2])
    return args[0]


def f_memcmp(P, I, args):
    a, b, n = args
    n = P.concretize(n)
    for i in range(n):
        x = P.load(Ptr(a.obj, a.off + i), ('i', 8))
        y = P.load(Ptr(b.obj, b.off + i), ('i', 8))
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return (1 if x > y else -1) & mask(32)
            continue
        e = P.icmp('eq', ('i', 8), x, y)
        if e if isinstance(e, int) else P.branch(e):
            continue
        l = P.icmp('ult', ('i', 8), x, y)
        return mask(32) if (l if isinstance(l, int) else P.branch(l)) else 1
    return 0


LIBM.update({'memcpy': f_memcpy, 'memmove': f_memcpy, 'memset': f_memset, 'memcmp': f_memcmp, 'bcmp': f_memcmp})


def imm(P, v, n):
    return v


def with_overflow(kind):
    def h(P, I, args):
        a, b = args
        n = int(kind.split('.i')[-1])
        op = kind.split('.')[0]   # sadd uadd ssub usub smul umul
        sg = op[0] == 's'
        o = op[1:]
        if isinstance(a, int) and isinstance(b, int):
            x, y = (sgn(a, n), sgn(b, n)) if sg else (a, b)
            r = x + y if o == 'add' else x - y if o == 'sub' else x * y
            ov = not (-(1 << (n - 1)) <= r < (1 << (n - 1))) if sg else not (0 <= r <= mask(n))
            return (r & mask(n), int(ov))
        ea, eb = P.inode(a, n), P.inode(b, n)
        if isinstance(b, int) and not sg:
            eb = q(b)
        r = ex.add(ea, eb) if o == 'add' else ex.sub(ea, eb) if o == 'sub' else ex.mul(ea, eb)
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, mask(n))
        ov = ex.bor(ex.lt(r, q(lo)), ex.lt(q(hi), r))
        k = P.quick(ov)
        if k is None:
            k = P.branch(ov)
        return (r if r.op != 'q' else int(r.a[0]) & mask(n), int(k))
    return h


def saturating(op):
    # uadd usub sadd ssub
    def h(P, I, args):
        a, b = args
        n = I.ty[1]
        sg = op[0] == 's'
        o = op[1:4]
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, mask(n))
        if isinstance(a, int) and isinstance(b, int):
            x, y = (sgn(a, n), sgn(b, n)) if sg else (a, b)
            r = x + y if o == 'add' else x - y
            return max(lo, min(hi, r)) & mask(n)
        ea, eb = P.inode(a, n), P.inode(b, n)
        if isinstance(b, int) and not sg:
            eb = q(b)
        if isinstance(a, int) and not sg:
            ea = q(a)
        r = ex.add(ea, eb) if o == 'add' else ex.sub(ea, eb)
        if P.branch(ex.lt(r, q(lo))):
            return lo & mask(n)
        if P.branch(ex.lt(q(hi), r)):
            return hi & mask(n)
        return r if r.op != 'q' else int(r.a[0]) & mask(n)
    return h


def intminmax(op):
    def h(P, I, args):
        a, b = args
        c = P.icmp(('s' if op[0] == 's' else 'u') + 'le', I.ty, a, b)
        c = c if isinstance(c, int) else P.branch(c)
        if op[1:] == 'min':
            return a if c else b
        return b if c else a
    return h


def concints(fn):
    def h(P, I, args):
        n = I.ty[1]
        return fn(n, *[P.concretize(a) & mask(n) if not isinstance(a, int) else a for a in args]) & mask(n)
    return h


def intrinsic(name):
    p = name[5:]
    b = p.split('.')[0]
    if b in ('memcpy', 'memmove'):
        return f_memcpy
    if b == 'memset':
        return f_memset
    if b in ('lifetime', 'dbg', 'assume', 'experimental', 'donothing', 'prefetch', 'invariant', 'var', 'va_start'):
        return lambda P, I, a: None
    tab = {'fabs': f_fabs, 'floor': f_floor, 'ceil': f_ceil, 'trunc': f_trunc, 'round': f_round, 'roundeven': f_rint,
           'rint': f_rint, 'nearbyint': f_rint, 'fma': f_fma, 'fmuladd': f_fma, 'minnum': f_min, 'maxnum': f_max,
           'minimum': f_min, 'maximum': f_max, 'minimumnum': f_min, 'maximumnum': f_max,
           'copysign': f_copysign, 'powi': f_powi, 'pow': f_pow, 'atan2': f_atan2, 'sincos': f_sincos,
           'exp2': f_exp2}
    if b in tab:
        return tab[b]
    if b in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'log10', 'log2', 'sinh', 'cosh', 'tanh', 'sqrt'):
        return un(b)
    if b in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul'):
        if '.with.overflow' in p:
            return with_overflow(b + '.' + p.split('.')[-1])
        if '.sat.' in p:
            return saturating(b)
    if b in ('smin', 'smax', 'umin', 'umax'):
        return intminmax(b)
    if b == 'abs':
        def iabs(P, I, a):
            x = a[0]
            n = I.ty[1]
            if isinstance(x, int):
                return abs(sgn(x, n)) & mask(n)
            return ex.neg(x) if P.branch(ex.lt(x, ZERO)) else x
        return iabs
    if b == 'expect':
        return lambda P, I, a: a[0]
    if b == 'is' and 'fpclass' in p:
        def fpc(P, I, a):
            x, m = a
            if isinstance(x, float):
                if math.isnan(x):
                    return int(bool(m & 3))
                return int(bool(m & (0x200 if x > 0 else 4)))
            m &= 0x1f8
            if m == 0x1f8 or m == 0x1f8 & ~0x90:
                return 1
            if m == 0:
                return 0
            if m == 0x108:
                return unform(ex.bnot(ex.eq(x, ZERO)))
            # masks: 4 -inf, 8 -normal,0x10 -sub,0x20 -0,0x40 +0,0x80 +sub,0x100 +normal,0x200 +inf
            f = ex.FALSE
            if m & 0x18:
                f = ex.bor(f, ex.lt(x, ZERO))
            if m & 0x60:
                f = ex.bor(f, ex.eq(x, ZERO))
            if m & 0x180:
                f = ex.bor(f, ex.lt(ZERO, x))
            return unform(f)
        return fpc
    if b in ('fptosi', 'fptoui'):
        return lambda P, I, a: ftoi(P, a[0], I.ty[1], b == 'fptosi', sat=True)
    if b == 'trap' or b == 'ubsantrap':
        def trap(P, I, a):
            raise PathEnd('panic', 'trap')
        return trap
    if b == 'ctpop':
        return concints(lambda n, a: bin(a).count('1'))
    if b == 'ctlz':
        return concints(lambda n, a, z=0: n - a.bit_length())
    if b == 'cttz':
        return concints(lambda n, a, z=0: n if a == 0 else (a & -a).bit_length() - 1)
    if b == 'bswap':
        return concints(lambda n, a: int.from_bytes(a.to_bytes(n // 8, 'little'), 'big'))
    if b == 'bitreverse':
        return concints(lambda n, a: int(bin(a)[2:].rjust(n, '0')[::-1], 2))
    if b == 'fshl':
        return concints(lambda n, a, c, s: ((a << (s % n)) | (c >> (n - s % n))) if s % n else a)
    if b == 'fshr':
        return concints(lambda n, a, c, s: ((c >> (s % n)) | (a << (n - s % n))) if s % n else c)
    if b in ('ucmp', 'scmp'):
        def cmp3(P, I, a):
            t = I.b[0][0]
            s = b[0]
            r = P.icmp(s + 'lt', t, a[0], a[1])
            if r if isinstance(r, int) else P.branch(r):
                return mask(I.ty[1])
            r = P.icmp('eq', t, a[0], a[1])
            return 0 if (r if isinstance(r, int) else P.branch(r)) else 1
        return cmp3
    if b == 'threadlocal':
        return lambda P, I, a: a[0]
    if b == 'vector' and 'reduce' in p:
        op = p.split('.')[2]

        def red(P, I, a):
            t = I.b[-1][0]
            xs = list(a[-1])
            acc = a[0] if op in ('fadd', 'fmul') else xs.pop(0)
            for x in xs:
                acc = P.fbin(op, acc, x) if op[0] == 'f' else P.ibin(op, t[2][1], acc, x)
            return acc
        return red

    def bad(P, I, a):
        raise Unsupported('intrinsic ' + name)
    return bad


def n_alloc(P, I, args):
    return P.alloc(args[0])


def n_alloc_zeroed(P, I, args):
    return P.alloc(args[0], True)


def n_realloc(P, I, args):
    p, old, align, new = args
    r = P.alloc(new)
    P.memcpy(r, p, min(old, r.obj.size))
    return r


def n_nop(P, I, args):
    return None


def n_format(P, I, args):
    # String returned through sret
    p = args[0]
    P.store(Ptr(p.obj, p.off), ('i', 64), 0)
    P.store(Ptr(p.obj, p.off + 8), ('i', 64), 1)
    P.store(Ptr(p.obj, p.off + 16), ('i', 64), 0)
    return None


def n_rem_euclid(P, I, args):
    a, b = args
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float):
            return math.nan
        raise Unsupported('rem_euclid by special')
    if b.op == 'q' and b.a[0] == 0:
        return math.nan
    lo, hi = P.iv().get(b)
    m = b if lo >= 0 else P.fabs(b)
    if hi > 0 and lo > 0:
        la, ha = P.iv().get(a)
        if la >= 0 and ha < lo:
            return a
    return ex.sub(a, ex.mul(m, ex.floor(ex.div(a, m))))


def n_div_euclid(P, I, args):
    a, b = args
    lo, hi = P.iv().get(b)
    if lo > 0:
        return ex.floor(ex.div(a, b))
    raise Unsupported('div_euclid')


def n_signum(P, I, args):
    a = args[0]
    if isinstance(a, float):
        return a if math.isnan(a) else q(1 if a > 0 else -1)
    return q(-1) if P.branch(ex.lt(a, ZERO)) else ONE


def n_clamp(P, I, args):
    x, lo, hi = args
    if isinstance(x, float) and math.isnan(x):
        return x
    return P.fminmax(P.fminmax(x, lo, True), hi, False)


def n_total_cmp(P, I, args):
    a, b = args
    if isinstance(a, Ptr):
        a = P.load(a, F64)
        b = P.load(b, F64)
    if isinstance(a, float) or isinstance(b, float):
        fa, fb = node_float(a) if isinstance(a, float) else None, node_float(b) if isinstance(b, float) else None

        def rank(x):
            return 2 if math.isnan(x) else (1 if x > 0 else -1)
        if fa is not None and fb is not None:
            d = rank(fa) - rank(fb)
        else:
            d = rank(fa) if fa is not None else -rank(fb)
        return mask(8) if d < 0 else (1 if d > 0 else 0)
    if P.branch(ex.lt(a, b)):
        return mask(8)
    return 0 if P.branch(ex.eq(a, b)) else 1


def n_fmt_ok(P, I, args):
    return 0


NAMED = [(re.compile(rx), h) for rx, h in [
    (r'^__rustc::__rust_alloc$|^__rust_alloc$|::__rust_alloc$', n_alloc),
    (r'__rust_alloc_zeroed$', n_alloc_zeroed),
    (r'__rust_realloc$', n_realloc),
    (r'__rust_dealloc$', n_nop),
    (r'__rust_no_alloc_shim_is_unstable', n_nop),
    (r'^alloc::fmt::format::format_inner$', n_format),
    (r'^core::fmt::write$|^core::fmt::Formatter|^<core::fmt::Formatter', n_fmt_ok),
    (r'^(<f64>|std::num::f64::<impl f64>|core::num::f64::<impl f64>|std::f64::<impl f64>|core::f64::<impl f64>)::rem_euclid$', n_rem_euclid),
    (r'^(<f64>|.*<impl f64>)::div_euclid$', n_div_euclid),
    (r'^(<f64>|.*<impl f64>)::signum$', n_signum),
    (r'^(<f64>|.*<impl f64>)::clamp$', n_clamp),
    (r'^(<f64>|.*<impl f64>)::total_cmp$', n_total_cmp),
    (r'^(<f64>|.*<impl f64>)::min$', f_min),
    (r'^(<f64>|.*<impl f64>)::max$', f_max),
    (r'^(<f64>|.*<impl f64>)::asinh$', un('asinh')),
    (r'^(<f64>|.*<impl f64>)::acosh$', un('acosh')),
    (r'^(<f64>|.*<impl f64>)::atanh$', un('atanh')),
    (r'^(<f64>|.*<impl f64>)::round_ties_even$', f_rint),
    (r'^(<f64>|.*<impl f64>)::to_degrees$', lambda P, I, a: P.fbin('fmul', a[0], ex.div(q(180), ex.PI))),
    (r'^(<f64>|.*<impl f64>)::to_radians$', lambda P, I, a: P.fbin('fmul', a[0], ex.mul(q(Fr(1, 180)), ex.PI))),
]]


def demangle_all(names, tool='c++filt'):
    import shutil
    r = subprocess.run([tool, '--no-strip-underscore'] if tool == 'c++filt' else [tool], input='\n'.join(names), capture_output=True, text=True)
    out = r.stdout.split('\n')
    return {n: re.sub(r'\[[0-9a-f]{10,}\]', '', d) for n, d in zip(names, out)}
