"""Discharging obligations: normal form, intervals, SMT (z3, cvc5), interval branch and bound."""
import math, os, re, signal, subprocess, tempfile, time, random
from fractions import Fraction as Fr
from . import ex, nf
from .ex import N, q, ZERO, ONE
from .iv import up, Iv, bounds_from_pc, FORM

Z3 = os.environ.get('IRVC_Z3') or ('z3-new')
CVC5 = 'cvc5'


class Timeout(Exception):
    pass


class alarm:
    """python-level time limit (nests: inner one restores the outer)"""

    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        self.t0 = time.time()
        self.oldh = signal.getsignal(signal.SIGALRM)

        def h(s, f):
            raise Timeout()
        signal.signal(signal.SIGALRM, h)
        self.left = signal.setitimer(signal.ITIMER_REAL, self.secs)[0]
        if self.left and self.left < self.secs:
            signal.setitimer(signal.ITIMER_REAL, self.left)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.oldh)
        if self.left:
            signal.setitimer(signal.ITIMER_REAL, max(0.001, self.left - (time.time() - self.t0)))
        return False


def flat(pc):
    out = []
    st = list(pc)[::-1]
    while st:
        f = st.pop()
        if f.op == 'and':
            st.append(f.a[1])
            st.append(f.a[0])
        elif f.op == 'not' and f.a[0].op == 'or':
            st.append(ex.bnot(f.a[0].a[1]))
            st.append(ex.bnot(f.a[0].a[0]))
        elif f is not ex.TRUE:
            out.append(f)
    return out


def make_ctx(pc, vb, maxterms=20000):
    pc = flat(pc)
    iv = Iv(bounds_from_pc(pc, vb))
    c = nf.Ctx(iv, maxterms)
    # equalities with a variable/opaque side become substitutions
    sub = {}
    for f in pc:
        if f.op == 'eq':
            a, b = f.a
            for x, y in ((a, b), (b, a)):
                if y.op == 'q' and x.op not in ('q', '+', '*', '/') and x.id not in sub:
                    sub[x.id] = y
                    break
            else:
                for x, y in ((a, b), (b, a)):
                    if x.op == 'v' and x.id not in sub and x not in ex.free_vars([y]):
                        if not _cyc(sub, x, y):
                            sub[x.id] = y
                        break
    c.subst = sub
    st = [ex.sub(*f.a) for f in pc if f.op == 'eq']
    while st:
        z = st.pop()
        while z.op == '*' and z.a[0].op == 'q' and z.a[0].a[0] != 0:
            z = z.a[1]
        if z.op == 'sqrt':
            st.append(z.a[0])
            continue
        if z.op == '*' and z.a[0] is z.a[1]:
            st.append(z.a[0])
            continue
        c.zero_nodes.append(z)
        if z.op == '+':
            l, w = [], [z]
            while w:
                x = w.pop()
                if x.op == '+':
                    w.extend(x.a)
                else:
                    l.append(x)
            if all(x.op == '*' and x.a[0] is x.a[1] for x in l):
                st.extend(x.a[0] for x in l)
    return c, iv, pc


def _cyc(sub, x, y):
    # would y, after substitution, mention x?
    seen = set()
    st = [y]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n is x:
            return True
        if n.id in sub:
            st.append(sub[n.id])
        for z in n.a:
            if isinstance(z, N):
                st.append(z)
    return False


# ---- SMT encoding ----------------------------------------------------------
def fr(v):
    v = Fr(v)
    if v < 0:
        return '(- %s)' % fr(-v)
    if v.denominator == 1:
        return '%d.0' % v.numerator
    return '(/ %d.0 %d.0)' % (v.numerator, v.denominator)


def flit(x):
    return fr(Fr(x))


class Enc:
    def __init__(self, ctx, iv, use_nf=True):
        self.ctx = ctx
        self.iv = iv
        self.use_nf = use_nf
        self.decl = []
        self.asserts = []
        self.names = {}           # node id -> smt term
        self.done = set()
        self.varname = {}
        self.fams = {}
        self.nonlin = False
        self.queue = []
        self.cnt = 0

    def fresh(self, p, sort='Real'):
        self.cnt += 1
        n = '%s_%d' % (p, self.cnt)
        self.decl.append('(declare-const %s %s)' % (n, sort))
        return n

    # encode a DAG node as an SMT real term
    def term(self, n):
        r = self.names.get(n.id)
        if r is not None:
            return r
        st = [n]
        while st:
            x = st[-1]
            if x.id in self.names:
                st.pop()
                continue
            pend = []
            if x.op in ('+', '*', '/'):
                pend = [y for y in x.a if y.id not in self.names]
            if pend:
                st.extend(pend)
                continue
            st.pop()
            self.names[x.id] = self._term(x)
        return self.names[n.id]

    def define(self, e):
        if len(e) < 40:
            return e
        self.cnt += 1
        nm = 't_%d' % self.cnt
        self.decl.append('(define-fun %s () Real %s)' % (nm, e))
        return nm

    def _term(self, n):
        op = n.op
        if op == 'q':
            return fr(n.a[0])
        if op == '+':
            return self.define('(+ %s %s)' % (self.names[n.a[0].id], self.names[n.a[1].id]))
        if op == '*':
            if n.a[0].op != 'q':
                self.nonlin = True
            return self.define('(* %s %s)' % (self.names[n.a[0].id], self.names[n.a[1].id]))
        if op == '/':
            self.nonlin = True
            d = self.names[n.a[1].id]
            w = self.fresh('dv')
            self.asserts.append('(=> (not (= %s 0.0)) (= (* %s %s) %s))' % (d, w, d, self.names[n.a[0].id]))
            return w
        return self.atom(n)

    def atom(self, n):
        op = n.op
        isint = n.isint
        if op == 'v':
            nm = self.fresh('v', 'Int' if isint else 'Real')
            t = '(to_real %s)' % nm if isint else nm
            self.varname[n.a[0]] = t
            self.bounds(n, t)
            return t
        nm = self.fresh(op, 'Int' if op == 'floor' else 'Real')
        t = '(to_real %s)' % nm if op == 'floor' else nm
        self.names[n.id] = t
        self.bounds(n, t)
        A = self.asserts.append
        if op == 'pi':
            A('(and (< 3.14159265358979323846264338 %s) (< %s 3.14159265358979323846264339))' % (nm, nm))
            return t
        if op in ('lt', 'le', 'eq'):
            raise KeyError('formula as term')
        if op == 'ite':
            c = self.form(n.a[0])
            a, b = self.term(n.a[1]), self.term(n.a[2])
            A('(= %s (ite %s %s %s))' % (t, c, a, b))
            return t
        args = []
        for x in n.a:
            args.append(self.term(x) if isinstance(x, N) else x)
        x = args[0]
        if op == 'sqrt':
            self.nonlin = True
            A('(and (>= %s 0.0) (= (* %s %s) %s))' % (t, t, t, x))
        elif op == 'abs':
            A('(= %s (ite (>= %s 0.0) %s (- %s)))' % (t, x, x, x))
        elif op == 'floor':
            A('(and (<= %s %s) (< %s (+ %s 1.0)))' % (t, x, x, t))
            self.fam('floor', x, t)
        elif op == 'min':
            A('(= %s (ite (<= %s %s) %s %s))' % (t, x, args[1], x, args[1]))
        elif op == 'max':
            A('(= %s (ite (<= %s %s) %s %s))' % (t, x, args[1], args[1], x))
        elif op in ('sin', 'cos'):
            other = ex.mk('cos' if op == 'sin' else 'sin', n.a[0])
            if other.id in self.names:
                o = self.names[other.id]
                self.nonlin = True
                A('(= (+ (* %s %s) (* %s %s)) 1.0)' % (t, t, o, o))
            pi = self.term(ex.PI)
            if op == 'sin':
                A('(=> (and (<= 0.0 %s) (<= %s %s)) (>= %s 0.0))' % (x, x, pi, t))
                A('(=> (and (<= (- %s) %s) (<= %s 0.0)) (<= %s 0.0))' % (pi, x, x, t))
                A('(=> (>= %s 0.0) (<= %s %s))' % (x, t, x))
                A('(=> (<= %s 0.0) (>= %s %s))' % (x, t, x))
            else:
                A('(=> (and (<= (- (/ %s 2.0)) %s) (<= %s (/ %s 2.0))) (>= %s 0.0))' % (pi, x, x, pi, t))
                A('(=> (and (<= (/ %s 2.0) %s) (<= %s (* 1.5 %s))) (<= %s 0.0))' % (pi, x, x, pi, t))
        elif op == 'atan2':
            y, xx = args
            pi = self.term(ex.PI)
            A('(and (< (- %s) %s) (<= %s %s))' % (pi, t, t, pi))
            A('(=> (> %s 0.0) (and (> %s 0.0) (< %s %s)))' % (y, t, t, pi))
            A('(=> (< %s 0.0) (< %s 0.0))' % (y, t))
            A('(=> (and (= %s 0.0) (>= %s 0.0)) (= %s 0.0))' % (y, xx, t))
            A('(=> (and (= %s 0.0) (< %s 0.0)) (= %s %s))' % (y, xx, t, pi))
            A('(=> (> %s 0.0) (and (< (- (/ %s 2.0)) %s) (< %s (/ %s 2.0))))' % (xx, pi, t, t, pi))
            A('(=> (and (< %s 0.0) (>= %s 0.0)) (> %s (/ %s 2.0)))' % (xx, y, t, pi))
            A('(=> (and (< %s 0.0) (< %s 0.0)) (< %s (- (/ %s 2.0))))' % (xx, y, t, pi))
        elif op in ('asin', 'acos', 'atan'):
            pi = self.term(ex.PI)
            if op == 'asin':
                A('(and (<= (- (/ %s 2.0)) %s) (<= %s (/ %s 2.0)))' % (pi, t, t, pi))
                self.signax(x, t)
            elif op == 'atan':
                A('(and (< (- (/ %s 2.0)) %s) (< %s (/ %s 2.0)))' % (pi, t, t, pi))
                self.signax(x, t)
            else:
                A('(and (<= 0.0 %s) (<= %s %s))' % (t, t, pi))
                A('(=> (= %s 1.0) (= %s 0.0))' % (x, t))
                A('(=> (= %s (- 1.0)) (= %s %s))' % (x, t, pi))
                A('(=> (>= %s 0.0) (<= %s (/ %s 2.0)))' % (x, t, pi))
                A('(=> (<= %s 0.0) (>= %s (/ %s 2.0)))' % (x, t, pi))
            self.fam(op, x, t)
        elif op == 'exp':
            A('(> %s 0.0)' % t)
            A('(>= %s (+ 1.0 %s))' % (t, x))
            A('(=> (<= %s 0.0) (<= %s 1.0))' % (x, t))
            A('(=> (< %s 0.0) (< %s 1.0))' % (x, t))
            self.fam(op, x, t)
        elif op in ('log', 'log10', 'log2'):
            A('(=> (= %s 1.0) (= %s 0.0))' % (x, t))
            A('(=> (> %s 1.0) (> %s 0.0))' % (x, t))
            A('(=> (and (> %s 0.0) (< %s 1.0)) (< %s 0.0))' % (x, x, t))
            if op == 'log':
                A('(=> (> %s 0.0) (<= %s (- %s 1.0)))' % (x, t, x))
            self.fam(op, x, t)
        elif op == 'pow':
            b, p = args
            A('(=> (> %s 0.0) (> %s 0.0))' % (b, t))
            A('(=> (= %s 1.0) (= %s 1.0))' % (b, t))
            A('(=> (= %s 0.0) (= %s 1.0))' % (p, t))
            A('(=> (and (> %s 0.0) (<= %s 1.0) (>= %s 0.0)) (<= %s 1.0))' % (b, b, p, t))
            A('(=> (and (>= %s 1.0) (>= %s 0.0)) (>= %s 1.0))' % (b, p, t))
            A('(=> (and (> %s 0.0) (< %s 1.0) (> %s 0.0)) (< %s 1.0))' % (b, b, p, t))
            A('(=> (and (> %s 1.0) (> %s 0.0)) (> %s 1.0))' % (b, p, t))
            A('(=> (and (>= %s 1.0) (<= %s 0.0)) (<= %s 1.0))' % (b, p, t))
            if n.a[1].op == 'q' and n.a[1].a[0] > 0:
                self.fam('pow' + str(n.a[1].a[0]), b, t, pos=True)
            if n.a[0].op == 'q' and n.a[0].a[0] > 1:
                self.fam('powb' + str(n.a[0].a[0]), p, t)
            self.fam2('pow', (b, p), t)
        elif op == 'uf':
            key = n.a[0]
            self.fam2('uf' + key, tuple(args[1:]), t)
        elif op in ('tanh', 'sinh', 'asinh', 'cbrt', 'expm1'):
            self.signax(x, t)
            if op == 'tanh':
                A('(and (< (- 1.0) %s) (< %s 1.0))' % (t, t))
            self.fam(op, x, t)
        elif op == 'cosh':
            A('(>= %s 1.0)' % t)
            other = ex.mk('sinh', n.a[0])
            if other.id in self.names:
                o = self.names[other.id]
                A('(= (* %s %s) (+ 1.0 (* %s %s)))' % (t, t, o, o))
        return t

    def signax(self, x, t):
        A = self.asserts.append
        A('(=> (> %s 0.0) (> %s 0.0))' % (x, t))
        A('(=> (< %s 0.0) (< %s 0.0))' % (x, t))
        A('(=> (= %s 0.0) (= %s 0.0))' % (x, t))

    def fam(self, op, x, t, pos=False):
        """monotone function: add pairwise axioms"""
        l = self.fams.setdefault(op, [])
        strict = op not in ('floor',)
        if len(l) < 12:
            for (y, u) in l:
                g = '(and (> %s 0.0) (> %s 0.0))' % (x, y) if pos else None
                if op in ('acos',):
                    b = '(and (=> (< %s %s) (> %s %s)) (=> (> %s %s) (< %s %s)) (=> (= %s %s) (= %s %s)))' % (x, y, t, u, x, y, t, u, x, y, t, u)
                elif strict:
                    b = '(and (=> (< %s %s) (< %s %s)) (=> (> %s %s) (> %s %s)) (=> (= %s %s) (= %s %s)))' % (x, y, t, u, x, y, t, u, x, y, t, u)
                else:
                    b = '(and (=> (<= %s %s) (<= %s %s)) (=> (>= %s %s) (>= %s %s)))' % (x, y, t, u, x, y, t, u)
                self.asserts.append(b if g is None else '(=> %s %s)' % (g, b))
        l.append((x, t))

    def fam2(self, key, args, t):
        l = self.fams.setdefault('#' + key, [])
        if len(l) < 16:
            for (ar, u) in l:
                c = ' '.join('(= %s %s)' % (a, b) for a, b in zip(args, ar))
                self.asserts.append('(=> (and %s) (= %s %s))' % (c, t, u))
        l.append((args, t))

    def bounds(self, n, t):
        lo, hi = self.iv.get(n)
        if lo > -math.inf:
            self.asserts.append('(>= %s %s)' % (t, flit(lo)))
        if hi < math.inf:
            self.asserts.append('(<= %s %s)' % (t, flit(hi)))

    def cmp(self, op, a, b):
        if self.use_nf:
            ctx = self.ctx
            try:
                r = ctx.nf(ex.sub(a, b))
            except (nf.TooBig, ZeroDivisionError, RecursionError):
                r = None
            if r is not None:
                num, den = r
                if not num:
                    return 'true' if op in ('le', 'eq') else 'false'
                c = ctx.is_const(r)
                if c is not None:
                    ok = c < 0 if op == 'lt' else c <= 0 if op == 'le' else c == 0
                    return 'true' if ok else 'false'
                if not den or all(self._fpos(f, e) for f, e in den.items()):
                    t = self.term(ctx.poly_node(num))
                else:
                    t = self.term(ctx.node(r))
                return '(%s %s 0.0)' % ({'lt': '<', 'le': '<=', 'eq': '='}[op], t)
        return '(%s %s %s)' % ({'lt': '<', 'le': '<=', 'eq': '='}[op], self.term(a), self.term(b))

    def _fpos(self, f, e):
        if e % 2 == 0:
            return True
        return self.ctx.sign((self.ctx.denp[f], {})) > 0

    def form(self, f):
        op = f.op
        if op == 'true':
            return 'true'
        if op == 'false':
            return 'false'
        if op in ('lt', 'le', 'eq'):
            return self.cmp(op, f.a[0], f.a[1])
        if op == 'not':
            return '(not %s)' % self.form(f.a[0])
        if op in ('and', 'or'):
            return '(%s %s %s)' % (op, self.form(f.a[0]), self.form(f.a[1]))
        raise KeyError('form ' + op)

    def close_trig(self):
        """make sure both members of every sin/cos pair exist when one does (needed for s^2+c^2=1)"""
        for nid in list(self.names):
            pass

    def text(self, fs, logic=None):
        body = [self.form(f) for f in fs]
        out = ['(set-option :produce-models true)']
        if logic:
            out.append('(set-logic %s)' % logic)
        out += self.decl
        out += ['(assert %s)' % a for a in self.asserts]
        out += ['(assert %s)' % b for b in body if b != 'true']
        out.append('(check-sat)')
        if self.varname:
            out.append('(get-value (%s))' % ' '.join(v for v in self.varname.values()))
        return '\n'.join(out)


def run_solvers(text, timeout, cvc=True):
    """race z3 and cvc5; returns (answer, output, solver)"""
    fd, path = tempfile.mkstemp(suffix='.smt2', prefix='irvc')
    with os.fdopen(fd, 'w') as f:
        f.write(text)
    procs = []
    try:
        procs.append(('z3', subprocess.Popen([Z3, '-T:%d' % max(1, math.ceil(timeout)), '-memory:3000', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        if cvc:
            t2 = text if '(set-logic' in text else text.replace('(set-option :produce-models true)', '(set-option :produce-models true)\n(set-logic ALL)', 1)
            p2 = path + 'c'
            with open(p2, 'w') as f:
                f.write(t2)
            procs.append(('cvc5', subprocess.Popen([CVC5, '--tlimit=%d' % int(timeout * 1000), '--nl-ext-tplanes', p2], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        end = time.time() + timeout + 1
        best = ('unknown', '', '')
        live = list(procs)
        delay = 0.005
        while live and time.time() < end:
            for nm, p in list(live):
                if p.poll() is not None:
                    out = p.stdout.read()
                    live.remove((nm, p))
                    a = out.split('\n', 1)[0].strip()
                    if a == 'unsat':
                        return ('unsat', out, nm)
                    if a == 'sat':
                        return ('sat', out, nm)
            time.sleep(delay)
            delay = min(0.05, delay * 1.5)
        return best
    finally:
        for nm, p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdout.close()
        for x in (path, path + 'c'):
            try:
                os.unlink(x)
            except OSError:
                pass


def parse_model(out, varname):
    """values of the declared variables"""
    inv = {v: k for k, v in varname.items()}
    i = out.find('\n')
    s = out[i + 1:]
    toks = re.findall(r'\(|\)|[^\s()]+', s)
    pos = [0]

    def parse():
        t = toks[pos[0]]
        pos[0] += 1
        if t == '(':
            l = []
            while toks[pos[0]] != ')':
                l.append(parse())
            pos[0] += 1
            return l
        return t

    def ev(x):
        if isinstance(x, str):
            return Fr(x.rstrip('?'))
        if x[0] == '-':
            return -ev(x[1]) if len(x) == 2 else ev(x[1]) - ev(x[2])
        if x[0] == '/':
            return ev(x[1]) / ev(x[2])
        raise ValueError
    res = {}
    try:
        l = parse()
        for pr in l:
            k = pr[0]
            nm = k if isinstance(k, str) else '(' + ' '.join(k) + ')'
            try:
                res[inv[nm]] = ev(pr[1])
            except (ValueError, KeyError, ZeroDivisionError):
                pass
    except (IndexError, ValueError):
        pass
    return res


def relevant(pc, goal):
    """path conditions connected (through shared variables) to the goal"""
    fv = [(f, {v.id for v in ex.free_vars([f])}) for f in pc]
    vs = {v.id for v in ex.free_vars([goal])}
    inn = [False] * len(fv)
    ch = True
    while ch:
        ch = False
        for i, (f, s) in enumerate(fv):
            if not inn[i] and (s & vs or not s):
                inn[i] = True
                if s - vs:
                    vs |= s
                    ch = True
    return [f for (f, s), k in zip(fv, inn) if k]


def has_trig(f, limit=3000):
    seen, st = set(), [f]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op in ('sin', 'cos'):
            return True
        if len(seen) > limit:
            return False
        st.extend(x for x in n.a if isinstance(x, N))
    return False


class Prover:
    def __init__(self, opts=None):
        self.opts = dict(feas=2.0, smt=20.0, nf=60.0)
        self.opts.update(opts or {})
        self.stats = {}
        self.fcache = {}

    def feasible(self, path, f):
        """False only when pc and f are contradictory"""
        t0 = time.time()
        try:
            r = self._feasible(path, f)
        except Timeout:
            r = True
        self.stats['feas'] = self.stats.get('feas', 0) + 1
        self.stats['feas_time'] = self.stats.get('feas_time', 0.0) + time.time() - t0
        return r

    def _feasible(self, path, f):
        pc = relevant(flat(path.pc), f) + [f]
        pc = flat(pc)
        key = frozenset(x.id for x in pc)
        if key in self.fcache:
            return self.fcache[key]
        fast = path.opts.get('feas', self.opts['feas'])
        r = True
        if fast:
            try:
                with alarm(fast * 4 + 1):
                    iv = Iv(bounds_from_pc(pc, path.vb))
                    if any(iv.form(x) is False for x in pc):
                        r = False
                    elif self.trig_refutes(f, pc, path.vb, path.atan2s):
                        r = False
                    else:
                        e = self.encode(pc, path.vb)
                        if e is None or e == 'false':
                            r = e is None
                        else:
                            a, out, s = run_solvers(e[0], fast, cvc=False)
                            r = a != 'unsat'
            except (Timeout, nf.TooBig, RecursionError):
                r = True
        self.fcache[key] = r
        return r

    def trig_refutes(self, f, pc, vb, pairs=()):
        """the comparison f contradicts the exact range of a trigonometric polynomial, or the length of a unit vector
        whose other two components were given to atan2 on this path"""
        neg = f.op == 'not'
        g = f.a[0] if neg else f
        if g.op not in ('lt', 'le') or not has_trig(g):
            return False
        a, b = g.a
        if neg:
            a, b = b, a
        strict = (g.op == 'lt') != neg
        d = ex.sub(a, b)                  # f says d < 0 (or d <= 0)
        try:
            ctx, iv, _ = make_ctx([x for x in pc if x is not f], vb, 2000)
            ctx.subst = {}
            if not nf.build_angle_basis(ctx, [d]):
                return False
            r = ctx.nf(d)
            m = None if r[1] or len(r[0]) > 16 else ctx.tmax(ctx.pneg(r[0]))
        except (nf.TooBig, ZeroDivisionError, RecursionError):
            m = None
        if m is not None and (m <= 0 if strict else m < 0):
            return True
        if not strict:
            return False
        p = ex.sub(ONE, d)                # f says p > 1; refuted by p^2 + x^2 + y^2 = 1
        for y, x in pairs:
            try:
                ctx, iv, _ = make_ctx([c for c in pc if c is not f], vb, 4000)
                ctx.subst = {}
                g = ex.sub(ex.add(ex.add(ex.mul(p, p), ex.mul(x, x)), ex.mul(y, y)), ONE)
                if nf.build_angle_basis(ctx, [g]) and not ctx.nf(g)[0]:
                    return True
            except (nf.TooBig, ZeroDivisionError, RecursionError):
                pass
        return False

    def encode(self, fs, vb, use_nf=True, logic=None, maxterms=3000):
        ctx, iv, _ = make_ctx(fs[:-1], vb, maxterms)
        ctx.subst = {}
        if use_nf:
            nodes = [x for f in fs for x in f.a if isinstance(x, N)]
            try:
                nf.collect_bases(ctx, nodes)
            except nf.TooBig:
                pass
            ctx.cache.clear()
        e = Enc(ctx, iv, use_nf)
        # register trig pairs first
        txt = e.text(fs, logic)
        # second pass for trig partner relations
        miss = []
        for nid, t in list(e.names.items()):
            pass
        return txt, e.varname

    # ---- obligations -----------------------------------------------------------
    def prove(self, kind, payload, pc, vb, opts):
        """-> (status, backend, detail, model)"""
        t0 = time.time()
        try:
            with alarm(opts.get('obl_time', 240)):
                if kind == 'eq':
                    r = self.prove_eq(payload, pc, vb, opts)
                else:
                    r = self.prove_form(payload, pc, vb, opts)
        except Timeout:
            r = ('unknown', 'timeout', '', None)
        except (nf.TooBig, RecursionError, MemoryError) as e_:
            r = ('unknown', 'resource', repr(e_), None)
        return r + (time.time() - t0,)

    def prove_eq(self, payload, pc, vb, opts):
        a, b, tol = payload
        t = Fr(tol.a[0]) if isinstance(tol, N) and tol.op == 'q' else None
        if a is b:
            return ('proved', 'syntactic', '', None)
        d = ex.sub(a, b)
        ctx, iv, fpc = make_ctx(pc, vb, opts.get('maxterms', 60000))
        if t is not None:
            lo, hi = iv.get(d)
            if lo >= -t and hi <= t:
                return ('proved', 'interval', '', None)
        res = None
        try:
            with alarm(opts.get('nf_time', self.opts['nf'])):
                c2, iv2, _ = make_ctx(pc, vb, opts.get('maxterms', 60000))
                if nf.build_angle_basis(c2, [d] + c2.zero_nodes):
                    self.zeros(c2)
                    res = c2.nf(d)
                    if res[0] and c2.zeros():
                        res = (c2.zreduce(res[0]), res[1])
                    if not res[0]:
                        return ('proved', 'normal-form', '', None)
                    if t is not None:
                        m = self.small(c2, iv2, res)
                        if m is not None and m <= t:
                            return ('proved', 'normal-form+interval', 'residual<=%g' % float(m), None)
        except (Timeout, nf.TooBig, ZeroDivisionError):
            pass
        res = None
        try:
            with alarm(opts.get('nf_time', self.opts['nf'])):
                res = ctx.nf(d)
                if res[0]:
                    if nf.collect_bases(ctx, [d]):
                        ctx.cache.clear()
                        ctx.sc.clear()
                        res = ctx.nf(d)
                    if res[0] and ctx.zero_nodes:
                        self.zeros(ctx)
                        res = ctx.nf(d)
                        res = (ctx.zreduce(res[0]), res[1])
            if not res[0]:
                return ('proved', 'normal-form', '', None)
        except (Timeout, nf.TooBig, ZeroDivisionError):
            res = None
        if res is not None and t is not None:
            m = self.small(ctx, iv, res)
            if m is not None and m <= t:
                return ('proved', 'normal-form+interval', 'residual<=%g' % float(m), None)
        # infeasible path?
        if t is None:
            f = ex.le(ex.absv(d), tol)
        elif t == 0:
            f = ex.eq(a, b)
        else:
            f = ex.band(ex.le(d, q(t)), ex.le(q(-t), d))
        return self.prove_form(f, pc, vb, opts)

    def zeros(self, ctx):
        if ctx.zero_nodes:
            sub, ctx.subst = ctx.subst, {}
            ctx.cache.clear()
            ctx.zeros()
            ctx.subst = sub
            ctx.cache.clear()

    def small(self, ctx, iv, res):
        num, den = res
        tot = 0.0
        mag = {}
        for a in {a for m in num for a, e in m}:
            lo, hi = iv.get(ctx.atom_node(a))
            mag[a] = max(abs(lo), abs(hi))
            # atoms confined to a neighbourhood of 1 (cosines of small angles) are re-expanded about 1
            if 0.5 < lo <= hi < 1.5 and len(num) < 4000:
                mag[a] = None
                mag[-1 - a] = max(up(hi - 1.0), up(1.0 - lo), 0.0)
        near = [a for a in mag if a >= 0 and mag[a] is None]
        for a in near:
            out = {}
            for m, c in num.items():
                e = dict(m).get(a, 0)
                rest = tuple(x for x in m if x[0] != a)
                for k in range(e + 1):
                    m2 = rest + ((-1 - a, k),) if k else rest
                    out[m2] = out.get(m2, 0) + c * math.comb(e, k)
            num = {m: c for m, c in out.items() if c != 0}
            if len(num) > 40000:
                return None
        for m, c in num.items():
            v = abs(float(c)) if abs(c) < Fr(10) ** 300 else math.inf
            for a, e in m:
                v *= mag[a] ** e
            tot += v * (1 + 1e-12)
            if not tot < math.inf:
                return None
        for f, e in den.items():
            lo, hi = iv.get(ctx.poly_node(ctx.denp[f]))
            if lo > 0:
                tot /= lo ** e * (1 - 1e-12)
            elif hi < 0:
                tot /= (-hi) ** e * (1 - 1e-12)
            else:
                return None
        return Fr(tot) if tot < math.inf else None

    def prove_form(self, f, pc, vb, opts):
        if f is ex.TRUE:
            return ('proved', 'syntactic', '', None)
        pcf = flat(pc)
        iv = Iv(bounds_from_pc(pcf, vb))
        if f is not ex.FALSE and iv.form(f) is True:
            return ('proved', 'interval', '', None)
        if f.op == 'and':
            r = self.prove_form(f.a[0], pc, vb, opts)
            if r[0] != 'proved':
                return r
            r2 = self.prove_form(f.a[1], pc, vb, opts)
            if r2[0] != 'proved':
                return r2
            return ('proved', r[1] if r[1] == r2[1] else r[1] + ',' + r2[1], '', None)
        g = ex.bnot(f)
        tmo = opts.get('smt', self.opts['smt'])
        model = None
        smts = []
        rel = relevant(pcf, f) if f is not ex.FALSE else pcf
        fs = flat(rel + [g])
        for use_nf, tm in ((True, tmo), (False, tmo)):
            try:
                with alarm(60 + tmo):
                    txt, vn = self.encode(fs, vb, use_nf)
                    if 'dump' in opts:
                        open('/tmp/dump_%d_%d.smt2' % (f.id, use_nf), 'w').write(txt)
                    a, out, s = run_solvers(txt, tm)
            except (Timeout, nf.TooBig, ZeroDivisionError, RecursionError) as e_:
                smts.append(repr(e_))
                continue
            if a == 'unsat':
                return ('proved', s, '', None)
            smts.append(a)
            if a == 'sat':
                m = parse_model(out, vn)
                if model is None:
                    model = m
        # branch and bound
        if opts.get('bb', 1):
            try:
                with alarm(opts.get('bb_time', 30)):
                    if self.bandb(f, fs[:-1] if fs and fs[-1] is g else rel, vb, opts):
                        return ('proved', 'interval-branch-and-bound', '', None)
            except Timeout:
                smts.append('bb-timeout')
        if model is not None:
            return ('failed', 'smt', 'counterexample candidate ' + ' '.join(smts), {k: float(v) for k, v in model.items()})
        return ('unknown', 'smt', ' '.join(smts), None)

    def bandb(self, f, pc, vb, opts):
        vs = sorted(ex.free_vars([f] + list(pc)), key=lambda v: v.id)
        if len(vs) > opts.get('bb_vars', 5):
            return False
        base = bounds_from_pc(pc, vb)
        box = {}
        for v in vs:
            b = base.get(v.id)
            if b is None or not (b[1] - b[0] < math.inf):
                return False
            box[v.id] = b
        other = {k: b for k, b in base.items() if k not in box}
        work = [box]
        n = 0
        maxn = opts.get('bb_boxes', 20000)
        while work:
            b = work.pop()
            n += 1
            if n > maxn:
                return False
            vb2 = dict(other)
            vb2.update(b)
            iv = Iv(vb2)
            try:
                if iv.form(f) is True or any(iv.form(c) is False for c in pc):
                    continue
            except (OverflowError, ValueError):
                pass
            if not b:
                return False
            # split widest relative to original
            k = max(b, key=lambda i: (b[i][1] - b[i][0]) / ((box[i][1] - box[i][0]) or 1.0))
            lo, hi = b[k]
            mid = (lo + hi) / 2
            if not (lo < mid < hi) or (hi - lo) < 1e-9 * max(1.0, abs(box[k][1] - box[k][0])):
                return False
            for r in ((lo, mid), (mid, hi)):
                c = dict(b)
                c[k] = r
                work.append(c)
        return True
