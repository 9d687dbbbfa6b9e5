"""Canonical rational normal form of DAG terms modulo
   cos^2 = 1 - sin^2, cosh^2 = 1 + sinh^2, sqrt(e)^2 = e, |e|^2 = e^2,
   angle addition / multiple angles, cos/sin of atan2/asin/acos/atan, exp(a+b)=exp a exp b.
"""
from fractions import Fraction as Fr
import math
from . import ex
from .ex import N


class TooBig(Exception):
    pass


def c_norm(c):
    if isinstance(c, Fr) and c.denominator == 1:
        return c.numerator
    return c


MAXTERMS = 60000


class Ctx:
    def __init__(self, iv=None, maxterms=MAXTERMS):
        self.atoms = []           # idx -> (kind, data, node)
        self.akey = {}            # key -> idx
        self.rule = {}            # idx -> (2, poly) : atom^2 -> poly
        self.cache = {}           # node id -> Rat
        self.dens = {}            # denfactor key -> id
        self.denp = []            # id -> poly
        self.iv = iv
        self.base = {}            # angle monomial key -> base coefficient (Fraction)
        self.pi = self.atom('pi', (), ex.PI)
        self.maxterms = maxterms
        self.sideconds = []       # nodes assumed nonneg / nonzero
        self.sc = {}
        self.subst = {}
        self.abasis = None        # basis of the angles of one obligation
        self.zero_nodes = []      # terms the path condition makes zero
        self._zeros = None

    # -- atoms ------------------------------------------------------------
    def atom(self, kind, key, node):
        k = (kind, key)
        i = self.akey.get(k)
        if i is None:
            i = len(self.atoms)
            self.akey[k] = i
            self.atoms.append((kind, key, node))
        return i

    def zeros(self):
        """polynomials that vanish under the path condition"""
        if self._zeros is None:
            self._zeros = []
            for z in self.zero_nodes:
                try:
                    n = self.nf(z)[0]
                except (TooBig, ZeroDivisionError):
                    continue
                if n and len(n) < 200 and self.is_const((n, {})) is None:
                    self._zeros.append((self._lead(n), n))
            # a known zero rewrites its leading monomial
        return self._zeros

    def zreduce(self, p, limit=400):
        for _ in range(limit):
            hit = None
            for lead, z in self.zeros():
                for m in p:
                    qm = self._mdiv(m, lead)
                    if qm is not None:
                        hit = (m, qm, lead, z)
                        break
                if hit:
                    break
            if hit is None:
                return p
            m, qm, lead, z = hit
            k = Fr(p[m]) / Fr(z[lead])
            p = self.padd(p, self.pscale(self.pmul(z, {qm: 1}), c_norm(-k)))
            if len(p) > 4000:
                return p
        return p

    # -- polynomials ------------------------------------------------------
    def padd(self, a, b):
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = c_norm(v)
        return r

    def pscale(self, a, c):
        if c == 0:
            return {}
        if c == 1:
            return a
        return {m: c_norm(v * c) for m, v in a.items()}

    def pneg(self, a):
        return {m: -v for m, v in a.items()}

    def mmul(self, m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        return tuple(sorted(d.items()))

    def reducible(self, m):
        for a, e in m:
            if e >= 2 and a in self.rule:
                return (a, e)
        return None

    def pmul(self, a, b):
        if not a or not b:
            return {}
        if len(a) * len(b) > self.maxterms * 40:
            raise TooBig()
        r = {}
        red = None
        rule = self.rule
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                c = c1 * c2
                v = r.get(m)
                if v is None:
                    r[m] = c
                else:
                    r[m] = v + c
            if len(r) > self.maxterms:
                raise TooBig()
        out = {}
        todo = []
        for m, c in r.items():
            if c == 0:
                continue
            c = c_norm(c)
            if self.reducible(m):
                todo.append((m, c))
            else:
                out[m] = c
        for m, c in todo:
            p = self.mreduce(m)
            for mm, cc in p.items():
                v = out.get(mm, 0) + cc * c
                if v == 0:
                    out.pop(mm, None)
                else:
                    out[mm] = c_norm(v)
        if len(out) > self.maxterms:
            raise TooBig()
        return out

    def mreduce(self, m):
        """fully reduce a monomial -> poly"""
        r = self.reducible(m)
        if r is None:
            return {m: 1}
        k = ('mr', m)
        h = self.sc.get(k)
        if h is not None:
            return h
        a, e = r
        rest = tuple((x, y) for x, y in m if x != a)
        if e % 2:
            rest = self.mmul(rest, ((a, 1),))
        p = {rest: 1} if self.reducible(rest) is None else self.mreduce(rest)
        rp = self.rule[a]
        for _ in range(e // 2):
            p = self.pmul(p, rp)
        self.sc[k] = p
        return p

    def ppow(self, a, k):
        r = {(): 1}
        for _ in range(k):
            r = self.pmul(r, a)
        return r

    @staticmethod
    def pkey(p):
        return frozenset(p.items())

    # -- rationals: (num poly, den {factor id: exp}) -----------------------
    def den_factor(self, p):
        """p nonconstant poly -> (id, coefficient)"""
        m0 = min(p)
        c = p[m0]
        if c != 1:
            inv = Fr(1) / c
            p = self.pscale(p, inv)
        k = self.pkey(p)
        i = self.dens.get(k)
        if i is None:
            i = len(self.denp)
            self.dens[k] = i
            self.denp.append(p)
        return i, c

    def radd(self, x, y):
        n1, d1 = x
        n2, d2 = y
        if not n1:
            return y
        if not n2:
            return x
        if d1 == d2:
            return self.rcancel(self.padd(n1, n2), d1)
        l = dict(d1)
        for f, e in d2.items():
            if l.get(f, 0) < e:
                l[f] = e
        for f, e in l.items():
            k = e - d1.get(f, 0)
            if k:
                n1 = self.pmul(n1, self.ppow(self.denp[f], k))
            k = e - d2.get(f, 0)
            if k:
                n2 = self.pmul(n2, self.ppow(self.denp[f], k))
        return self.rcancel(self.padd(n1, n2), l)

    def rcancel(self, n, d):
        if not n:
            return ({}, {})
        if not d:
            return (n, d)
        d = dict(d)
        ch = True
        while ch and d:
            ch = False
            for f in list(d):
                p = self.denp[f]
                if len(p) == 1:
                    (m, c), = p.items()
                    # single atom (or monomial) factor
                    if len(m) == 1 and all(any(a == m[0][0] and e >= m[0][1] for a, e in mm) for mm in n):
                        nn = {}
                        for mm, cc in n.items():
                            dd = dict(mm)
                            dd[m[0][0]] -= m[0][1]
                            if dd[m[0][0]] == 0:
                                del dd[m[0][0]]
                            nn[tuple(sorted(dd.items()))] = cc
                        n = nn
                        d[f] -= 1
                        if not d[f]:
                            del d[f]
                        ch = True
                elif len(p) == len(n) or (len(n) > len(p) and len(n) < 400):
                    qn = self.pdiv(n, p)
                    if qn is not None:
                        n = qn
                        d[f] -= 1
                        if not d[f]:
                            del d[f]
                        ch = True
                if not n:
                    return ({}, {})
        return (n, d)

    def pdiv(self, n, p):
        """exact division n/p (lex order), None if not exact.  Only a simplification."""
        if len(n) == len(p):
            m0 = min(p)
            m1 = min(n)
            if m0 == m1:
                c = Fr(n[m1]) / p[m0]
                if all(n.get(m) == c * v for m, v in p.items()):
                    return {(): c_norm(c)}
        # multivariate lex division
        key = lambda m: m
        lp = self._lead(p)
        r = dict(n)
        qd = {}
        it = 0
        while r:
            it += 1
            if it > 200:
                return None
            lr = self._lead(r)
            dm = self._mdiv(lr, lp)
            if dm is None:
                return None
            c = c_norm(Fr(r[lr]) / p[lp])
            if dm in qd:
                return None
            qd[dm] = c
            for m, v in p.items():
                mm = self.mmul(m, dm)
                w = r.get(mm, 0) - v * c
                if w == 0:
                    r.pop(mm, None)
                else:
                    r[mm] = c_norm(w)
            if len(r) > 4 * len(n) + 20:
                return None
        # products with reducible atoms would not be exact; verify
        if any(self.reducible(m) for m in qd):
            return None
        chk = self.pmul(qd, p)
        if chk != n and self.padd(chk, self.pneg(n)):
            return None
        return qd

    def _lead(self, p):
        # graded-lex
        return max(p, key=lambda m: (sum(e for _, e in m), tuple((-a, e) for a, e in m)))

    def _mdiv(self, m, k):
        d = dict(m)
        for a, e in k:
            if d.get(a, 0) < e:
                return None
            d[a] -= e
            if d[a] == 0:
                del d[a]
        return tuple(sorted(d.items()))

    def rmul(self, x, y):
        n = self.pmul(x[0], y[0])
        if not n:
            return ({}, {})
        if not x[1] and not y[1]:
            return (n, {})
        d = dict(x[1])
        for f, e in y[1].items():
            d[f] = d.get(f, 0) + e
        return self.rcancel(n, d)

    def rinv(self, x):
        n, d = x
        if not n:
            raise ZeroDivisionError()
        num = {(): 1}
        for f, e in d.items():
            num = self.pmul(num, self.ppow(self.denp[f], e))
        if len(n) == 1:
            (m, c), = n.items()
            den = {}
            for a, e in m:
                i, _ = self.den_factor({((a, 1),): 1})
                den[i] = den.get(i, 0) + e
            return self.rcancel(self.pscale(num, c_norm(Fr(1) / c)), den)
        # common monomial content
        cm = self._content(n)
        den = {}
        if cm:
            nn = {self._mdiv(m, cm): c for m, c in n.items()}
            for a, e in cm:
                i, _ = self.den_factor({((a, 1),): 1})
                den[i] = den.get(i, 0) + e
            n = nn
        i, c = self.den_factor(n)
        den[i] = den.get(i, 0) + 1
        return self.rcancel(self.pscale(num, c_norm(Fr(1) / c)), den)

    def _content(self, p):
        it = iter(p)
        m = dict(next(it))
        for x in it:
            if not m:
                return ()
            d = dict(x)
            m = {a: min(e, d[a]) for a, e in m.items() if a in d}
        return tuple(sorted(m.items()))

    def rconst(self, c):
        c = c_norm(c)
        return ({(): c}, {}) if c != 0 else ({}, {})

    def ratom(self, i):
        return ({((i, 1),): 1}, {})

    def rkey(self, r):
        return (self.pkey(r[0]), frozenset(r[1].items()))

    # -- back to nodes ------------------------------------------------------
    def atom_node(self, i):
        return self.atoms[i][2]

    def poly_node(self, p):
        r = ex.ZERO
        for m in sorted(p):
            t = ex.q(Fr(p[m]))
            for a, e in m:
                t = ex.mul(t, ex.powi(self.atom_node(a), e))
            r = ex.add(r, t)
        return r

    def node(self, r):
        n = self.poly_node(r[0])
        for f, e in sorted(r[1].items()):
            n = ex.div(n, ex.powi(self.poly_node(self.denp[f]), e))
        return n

    # -- main ----------------------------------------------------------------
    def nf(self, n):
        c = self.cache
        r = c.get(n.id)
        if r is not None:
            return r
        st = [n]
        while st:
            x = st[-1]
            if x.id in c:
                st.pop()
                continue
            s = self.subst.get(x.id)
            if s is not None:
                if s.id in c:
                    c[x.id] = c[s.id]
                    st.pop()
                else:
                    st.append(s)
                continue
            pend = [y for y in x.a if isinstance(y, N) and y.id not in c and y.op not in ('lt', 'le', 'eq', 'not', 'and', 'or', 'true', 'false')]
            if pend:
                st.extend(pend)
                continue
            st.pop()
            r = c[x.id] = self._nf(x)
            if self.iv is not None and x.op not in ('q', 'v', '+', '*', 'pi') and x.id in self.iv.vb:
                self.carry(r, self.iv.vb[x.id])
        return c[n.id]

    def carry(self, r, b):
        """bounds known for an opaque term also hold for the atom that stands for it"""
        if r[1] or len(r[0]) != 1:
            return
        (m, k), = r[0].items()
        if len(m) == 1 and m[0][1] == 1 and k == 1:
            iv = self.iv
            a = self.atom_node(m[0][0])
            o = iv.vb.get(a.id, (-math.inf, math.inf))
            nb = (max(o[0], b[0]), min(o[1], b[1]))
            if nb != o and nb[0] <= nb[1]:
                iv.vb[a.id] = nb
                iv.c.clear()

    def _nf(self, n):
        op = n.op
        if op == 'q':
            return self.rconst(n.a[0])
        if op == 'pi':
            return self.ratom(self.pi)
        if op == 'v':
            return self.ratom(self.atom('v', n.a[0], n))
        c = self.cache
        if op == '+':
            return self.radd(c[n.a[0].id], c[n.a[1].id])
        if op == '*':
            return self.rmul(c[n.a[0].id], c[n.a[1].id])
        if op == '/':
            try:
                return self.rmul(c[n.a[0].id], self.rinv(c[n.a[1].id]))
            except ZeroDivisionError:
                return self.ratom(self.atom('div0', n.id, n))
        if op == 'sqrt':
            return self.rsqrt(c[n.a[0].id])
        if op == 'abs':
            return self.rabs(c[n.a[0].id])
        if op in ('sin', 'cos'):
            return self.rtrig(op, c[n.a[0].id])
        if op == 'tan':
            return self.rmul(self.rtrig('sin', c[n.a[0].id]), self.rinv(self.rtrig('cos', c[n.a[0].id])))
        if op == 'sinh' or op == 'cosh' or op == 'tanh':
            return self.rhyp(op, c[n.a[0].id])
        if op == 'exp':
            return self.rexp(c[n.a[0].id])
        if op in ('min', 'max'):
            return self.rminmax(op, c[n.a[0].id], c[n.a[1].id])
        if op == 'floor':
            return self.rfloor(c[n.a[0].id])
        if op == 'atan2':
            return self.ratan2(c[n.a[0].id], c[n.a[1].id])
        if op == 'pow':
            return self.rpow(c[n.a[0].id], c[n.a[1].id])
        if op == 'ite':
            return self.ratom(self.atom('ite', n.id, n))
        # generic unary/n-ary function of normalised args
        rs = [c[y.id] if isinstance(y, N) else y for y in n.a]
        key = tuple(self.rkey(r) if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], dict) else r for r in rs)
        k = (op, key)
        if k not in self.akey:
            args = [self.node(r) if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], dict) else r for r in rs]
            node = ex.mk(op, *args)
        else:
            node = None
        # odd functions
        if op in ('asin', 'atan', 'asinh', 'atanh', 'cbrt') and self.lead_neg(rs[0]):
            return self.rscale(self._fn(op, self.rscale(rs[0], -1)), -1)
        return self._fn(op, *rs)

    def _fn(self, op, *rs):
        isr = lambda r: isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], dict)
        key = tuple(self.rkey(r) if isr(r) else r for r in rs)
        k = (op, key)
        if k in self.akey:
            return self.ratom(self.akey[k])
        if op in ('acos', 'asin') and self.iv is not None and not rs[0][1] and len(rs[0][0]) == 1:
            # inverse of a sine/cosine whose angle lies in the principal range
            (m, cf), = rs[0][0].items()
            if cf == 1 and len(m) == 1 and m[0][1] == 1:
                a = self.atoms[m[0][0]]
                if a[0] == ('cos' if op == 'acos' else 'sin') and isinstance(a[2], N) and a[2].op == a[0]:
                    lo, hi = self.iv.get(a[2].a[0])
                    if lo >= (0 if op == 'acos' else -1.570796) and hi <= (3.141592 if op == 'acos' else 1.570796):
                        return self.nf(a[2].a[0])
        args = [self.node(r) if isr(r) else r for r in rs]
        if op in ('asin', 'acos', 'atan', 'log'):
            node = ex.fn1(op, args[0])
            if node.op != op:
                return self.nf(node)
        else:
            node = ex.mk(op, *args)
        return self.ratom(self.atom(op, key, node))

    def rscale(self, r, k):
        return (self.pscale(r[0], k), r[1])

    def lead_neg(self, r):
        if not r[0]:
            return False
        return r[0][min(r[0])] < 0

    def is_const(self, r):
        if not r[0]:
            return Fr(0)
        if not r[1] and len(r[0]) == 1 and () in r[0]:
            return Fr(r[0][()])
        return None

    # sign knowledge
    def sign(self, r):
        """+1 if surely >=0, -1 if surely <=0, 0 unknown"""
        if self.iv is None:
            return 0
        nd = self.node(r)
        lo, hi = self.iv.get(nd)
        if lo >= 0:
            return 1
        if hi <= 0:
            return -1
        if self.sos_like(r[0]) and all(self.sos_like(self.denp[f]) or e % 2 == 0 for f, e in r[1].items()):
            return 1
        if not r[1] and 1 < len(r[0]) <= 16:
            m = self.tmax(self.pneg(r[0]))
            if m is not None and m <= 0:
                return 1
            m = self.tmax(r[0])
            if m is not None and m <= 0:
                return -1
        return 0

    def tmax(self, p, depth=6):
        """upper bound of a polynomial that is linear in the sine and cosine of each of its angles (exact maximisation
        over one angle after the other); None when there is no angle to eliminate"""
        c = self.is_const((p, {}))
        if c is not None:
            return c
        if depth == 0 or len(p) > 40:
            return None
        ats = {a for m in p for a, e in m}
        for a in ats:                       # |x| = x or -x
            if self.atoms[a][0] == 'abs' and all(dict(m).get(a, 0) <= 1 for m in p):
                x = dict(self.atoms[a][1])
                best = None
                for s in (1, -1):
                    out = {}
                    for m, k in p.items():
                        if any(b == a for b, e in m):
                            rest = tuple(y for y in m if y[0] != a)
                            out = self.padd(out, self.pscale(self.pmul({rest: 1}, x), k * s))
                        else:
                            out = self.padd(out, {m: k})
                    b = self.tmax(out, depth - 1)
                    if b is None:
                        return None
                    best = b if best is None else max(best, b)
                return best
        best = None
        for ci, rl in list(self.rule.items()):
            if self.atoms[ci][0] != 'cos' or len(rl) != 2:
                continue
            si = next(m for m in rl if m)[0][0]
            if si not in ats and ci not in ats:
                continue
            A, B, C = {}, {}, {}
            ok = True
            for m, k in p.items():
                d = dict(m)
                es, ec = d.get(si, 0), d.get(ci, 0)
                if es + ec > 1:
                    ok = False
                    break
                rest = tuple(x for x in m if x[0] not in (si, ci))
                (A if es else B if ec else C)[rest] = k
            if not ok:
                continue
            n0 = len(self.atoms)
            try:
                R = self.rsqrt((self.padd(self.pmul(A, A), self.pmul(B, B)), {}))
            except (TooBig, ZeroDivisionError):
                continue
            if R[1] or any(self.atoms[a][0] == 'sqrt' and a >= n0 for m in R[0] for a, e in m):
                continue
            b = self.tmax(self.padd(C, R[0]), depth - 1)
            if b is not None and (best is None or b < best):
                best = b
                if best <= 0:
                    return best
        return best

    def sos_like(self, p):
        """all coefficients >0 and every monomial a product of even powers / nonneg atoms"""
        for m, c in p.items():
            if c < 0:
                return False
            for a, e in m:
                if e % 2 and not self.atom_nonneg(a):
                    return False
        return True

    def atom_nonneg(self, a):
        kind, key, node = self.atoms[a]
        if kind in ('sqrt', 'abs', 'pi', 'exp', 'cosh', 'acos'):
            return True
        if self.iv is not None and node is not None:
            return self.iv.get(node)[0] >= 0
        return False

    def rsqrt(self, r):
        if not r[0]:
            return r
        n, d = r
        if d and len(n) > 1:
            # n = c * d after reduction: a constant
            try:
                D = {(): 1}
                for f, e in d.items():
                    for _ in range(e):
                        D = self.pmul(D, self.denp[f])
                        if len(D) > 20000:
                            raise TooBig('sqrt den')
                if D and set(D) == set(n):
                    m = next(iter(D))
                    q = Fr(n[m]) / Fr(D[m])
                    s = ex.isqrt_exact(q) if q > 0 else None
                    if s is not None and not self.padd(n, self.pscale(D, c_norm(-q))):
                        return self.rconst(s)
            except TooBig:
                pass
        # sqrt(n/d) = sqrt(n*d')/|d''| : move odd den factors up
        out_num = {(): 1}
        out_den = {}
        outer = self.rconst(1)
        for f, e in d.items():
            h = e // 2
            dp = (self.denp[f], {})
            if e % 2:
                n = self.pmul(n, self.denp[f])
                h += 1
            ad = self.rabs(dp)
            for _ in range(h):
                outer = self.rmul(outer, self.rinv(ad))
        # rational content
        n2, mult = self._sq_content(n)
        outer = self.rmul(outer, mult)
        cst = self.is_const((n2, {}))
        if cst is not None and cst >= 0:
            s = ex.isqrt_exact(cst)
            if s is not None:
                return self.rmul(outer, self.rconst(s))
        # perfect square of a polynomial? (small cases)
        ps = self._poly_sqrt(n2)
        if ps is not None:
            return self.rmul(outer, self.rabs((ps, {})))
        if self._zeros:
            for lead, z in self._zeros:
                if lead in n2:
                    n3 = self.padd(n2, self.pscale(z, c_norm(-Fr(n2[lead]) / Fr(z[lead]))))
                    if len(n3) < len(n2):
                        return self.rmul(outer, self.rsqrt((n3, {})))
        for ci, rl in list(self.rule.items()):
            if self.atoms[ci][0] != 'cos' or len(rl) != 2:
                continue
            si = next(m for m in rl if m)[0][0]
            qt = self._div_cos2(n2, si)
            if qt is not None:
                # sqrt((1 - s^2) q) = |c| sqrt(q)
                return self.rmul(self.rmul(outer, self.rabs(self.ratom(ci))), self.rsqrt((qt, {})))
        key = self.pkey(n2)
        k = ('sqrt', key)
        i = self.akey.get(k)
        if i is None:
            # a square multiple of a radicand seen before
            m0 = min(n2)
            c0 = Fr(n2[m0])
            mk = (c0 > 0, self.pkey(self.pscale(n2, c_norm(1 / abs(c0)))))
            old = self.__dict__.setdefault('sqmon', {}).get(mk)
            if old is not None:
                s = ex.isqrt_exact(abs(c0) / old[0])
                if s is not None:
                    return self.rmul(outer, self.rscale(self.ratom(old[1]), s))
            else:
                self.sqmon[mk] = (abs(c0), len(self.atoms))
            i = self.atom('sqrt', key, ex.mk('sqrt', self.poly_node(n2)))
            self.rule[i] = n2
        return self.rmul(outer, self.ratom(i))

    def _div_cos2(self, p, si):
        """p / (1 - s^2) for the atom s, None when it does not divide"""
        by = {}
        for m, c in p.items():
            e = 0
            for a, k in m:
                if a == si:
                    e = k
            by.setdefault(e, {})[tuple(x for x in m if x[0] != si)] = c
        if max(by) < 2:
            return None
        # ascending division: q_k = p_k + q_{k-2}
        qs = {}
        for e in range(max(by) + 1):
            q = dict(by.get(e, {}))
            for m, c in qs.get(e - 2, {}).items():
                q[m] = q.get(m, 0) + c
            qs[e] = {m: c_norm(c) for m, c in q.items() if c != 0}
        if qs[max(by)] or qs[max(by) - 1]:
            return None
        out = {}
        for e, q in qs.items():
            for m, c in q.items():
                out[self.mmul(m, ((si, e),)) if e else m] = c
        return out

    def _sq_content(self, n):
        """n = c^2 * mono^2 * n2 ; returns (n2, rat c*|mono|)"""
        mult = self.rconst(1)
        # numeric content: make leading coefficient's square part out
        g = None
        for v in n.values():
            v = Fr(v)
            if g is None:
                g = abs(v)
            else:
                g = Fr(math.gcd(g.numerator * v.denominator, abs(v.numerator) * g.denominator), g.denominator * v.denominator)
        if g is not None and g != 1 and g.numerator.bit_length() < 400 and g.denominator.bit_length() < 400:
            s = ex.isqrt_exact(g)
            if s is not None:
                n = self.pscale(n, 1 / g)
                mult = self.rmul(mult, self.rconst(s))
            else:
                # normalise integer content away as sqrt(g)*sqrt(n/g) only when n/g is 1-coefficient
                pass
        cm = self._content(n)
        sqm = tuple((a, e - e % 2) for a, e in cm if e >= 2)
        if sqm:
            n = {self._mdiv(m, sqm): c for m, c in n.items()}
            for a, e in sqm:
                aa = self.rabs(self.ratom(a))
                for _ in range(e // 2):
                    mult = self.rmul(mult, aa)
        return n, mult

    def _poly_sqrt(self, p):
        """polynomial square root when p is a perfect square without using the reduction rules"""
        if len(p) > 10 or not p:
            return None
        # leading-term based square root (graded lex)
        lead = self._lead(p)
        c = ex.isqrt_exact(Fr(p[lead]))
        if c is None or any(e % 2 for _, e in lead):
            return None
        m = tuple((a, e // 2) for a, e in lead)
        root = {m: c_norm(c)}
        for _ in range(6):
            sq = self._rawmul(root, root)
            rem = self.padd(p, self.pneg(sq))
            if not rem:
                return root
            l = self._lead(rem)
            dm = self._mdiv(l, m)
            if dm is None:
                return None
            cc = c_norm(Fr(rem[l]) / (2 * c))
            if dm in root:
                return None
            root[dm] = cc
        return None

    def _rawmul(self, a, b):
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        return {m: c_norm(c) for m, c in r.items() if c != 0}

    def rabs(self, r):
        c = self.is_const(r)
        if c is not None:
            return self.rconst(abs(c))
        s = self.sign(r)
        if s > 0:
            return r
        if s < 0:
            return self.rscale(r, -1)
        n, d = r
        # |n/d| = |n| / |d|
        out = self.rconst(1)
        if d:
            for f, e in d.items():
                if e % 2:
                    out = self.rmul(out, self.rinv(self.rabs((self.denp[f], {}))))
                else:
                    out = self.rmul(out, self.rinv((self.ppow(self.denp[f], e), {})))
        if len(n) == 1:
            (m, c), = n.items()
            out = self.rmul(out, self.rconst(abs(c)))
            for a, e in m:
                if e % 2 == 0 or self.atom_nonneg(a):
                    out = self.rmul(out, ({((a, e),): 1}, {}))
                else:
                    ab = self.abs_atom({((a, 1),): 1})
                    if e > 1:
                        out = self.rmul(out, ({((a, e - 1),): 1}, {}))
                    out = self.rmul(out, ab)
            return out
        # normalise sign and scale
        m0 = min(n)
        c0 = n[m0]
        n = self.pscale(n, c_norm(Fr(1) / c0))
        return self.rmul(self.rmul(out, self.rconst(abs(c0))), self.abs_atom(n))

    def abs_atom(self, p):
        key = self.pkey(p)
        k = ('abs', key)
        i = self.akey.get(k)
        if i is None:
            i = self.atom('abs', key, ex.mk('abs', self.poly_node(p)))
            self.rule[i] = self.pmul(p, p)
        return self.ratom(i)

    def rminmax(self, op, a, b):
        dlt = self.radd(a, self.rscale(b, -1))
        s = self.sign(dlt) if dlt[0] else 1
        if s > 0:
            return b if op == 'min' else a
        if s < 0:
            return a if op == 'min' else b
        ka, kb = self.rkey(a), self.rkey(b)
        if hash(ka) > hash(kb):
            a, b, ka, kb = b, a, kb, ka
        k = (op, frozenset((ka, kb)))
        i = self.akey.get(k)
        if i is None:
            i = self.atom(op, k[1], ex.mk(op, self.node(a), self.node(b)))
        return self.ratom(i)

    def int_part(self, r):
        """split off integer-valued terms with integer coefficients"""
        if r[1]:
            return {}, r
        ip, rest = {}, {}
        for m, c in r[0].items():
            if Fr(c).denominator == 1 and all(self.atoms[a][2].isint for a, e in m):
                ip[m] = c
            else:
                rest[m] = c
        return ip, (rest, {})

    def rfloor(self, r):
        ip, rest = self.int_part(r)
        c = self.is_const(rest)
        if c is not None:
            return (self.padd(ip, self.rconst(math.floor(c))[0]), {})
        # constant shift
        k = 0
        if not rest[1] and () in rest[0]:
            k = math.floor(Fr(rest[0][()]))
            if k:
                rest = (self.padd(rest[0], {(): -k}), {})
        key = self.rkey(rest)
        kk = ('floor', key)
        i = self.akey.get(kk)
        if i is None:
            node = ex.floor(self.node(rest))
            i = self.atom('floor', key, node)
        return (self.padd(self.padd(ip, self.rconst(k)[0]), {((i, 1),): 1}), {})

    # -- angles --------------------------------------------------------------
    def terms_of_angle(self, r):
        """r = sum c_i * key_i ; yields (key, coefficient, ratio-without-coefficient)"""
        out = []
        parts = self.split_angle(r)
        if len(parts) > 1:
            return [t for p in parts for t in self.terms_of_angle(p)]
        if r[1]:
            # common denominator: treat whole fraction terms with canonical coefficient
            n, d = r
            m0 = min(n)
            c0 = Fr(n[m0])
            unit = (self.pscale(n, c_norm(1 / c0)), d)
            if len(n) == 1:
                return [(('r', self.rkey(unit)), c0, unit)]
            # split termwise
            for m, c in n.items():
                u = self.rcancel({m: 1}, d)
                out.append((('r', self.rkey(u)), Fr(c), u))
            return out
        for m, c in r[0].items():
            out.append((('m', m), Fr(c), ({m: 1}, {})))
        return out

    def split_angle(self, r):
        """the terms a one-monomial denominator divides, and the others"""
        n, d = r
        if not d or len(n) < 2 or any(len(self.denp[f]) != 1 for f in d):
            return [r]
        dm, dc = (), Fr(1)
        for f, e in d.items():
            (m, c), = self.denp[f].items()
            for _ in range(e):
                dm, dc = self.mmul(dm, m), dc * Fr(c)
        poly, rest = {}, {}
        for m, c in n.items():
            q = self._mdiv(m, dm)
            if q is None:
                rest[m] = c
            else:
                poly[q] = c_norm(Fr(c) / dc)
        if not poly or not rest:
            return [r]
        return [(poly, {}), self.rcancel(rest, d)]

    def angle_opaque(self, key, c):
        """monomials of an angle without a known sine/cosine of their own"""
        if key[0] != 'm':
            return True
        m = key[1]
        if m == ((self.pi, 1),):
            return False
        if len(m) >= 2 and any(a == self.pi and e == 1 for a, e in m) \
                and all(a == self.pi or self.atoms[a][2].isint for a, e in m) and Fr(c).denominator == 1 and Fr(c).numerator % 2 == 0:
            return False
        if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] in ('atan2', 'asin', 'acos', 'atan') and Fr(c).denominator == 1:
            return False
        return True

    def angle_rest(self, r):
        """{(monomial, denominator): coefficient} of the opaque part"""
        parts = self.split_angle(r)
        if len(parts) > 1:
            return {k: c for p in parts for k, c in self.angle_rest(p).items()}
        dk = frozenset(r[1].items())
        out = {}
        for m, c in r[0].items():
            if dk or self.angle_opaque(('m', m), c):
                out[(m, dk)] = Fr(c)
        return out

    def rtrig(self, op, r):
        s, c = self.sincos(r)
        return s if op == 'sin' else c

    def sincos(self, r):
        if not r[0]:
            return self.rconst(0), self.rconst(1)
        k = ('sc', self.rkey(r))
        h = self.sc.get(k)
        if h is not None:
            return h
        res = (self.rconst(0), self.rconst(1))
        pim = ((self.pi, 1),)
        const_pi = Fr(0)
        ab = None
        if self.abasis is not None:
            rest = self.angle_rest(r)
            if len(rest) > 1 or self.abasis.rows:
                ab = self.abasis.solve(rest)
            if ab is not None:
                for j, k_ in ab:
                    sc = self.sincos1(('ab', self.abasis.uid[j]), Fr(k_), self.abasis.unit[j])
                    res = self.compose(res, sc)
        for key, c, unit in self.terms_of_angle(r):
            if ab is not None and self.angle_opaque(key, c):
                continue
            if key == ('m', pim):
                const_pi += c
                continue
            if key[0] == 'm' and len(key[1]) >= 2 and any(a == self.pi and e == 1 for a, e in key[1]) \
                    and all(a == self.pi or self.atoms[a][2].isint for a, e in key[1]) and c.denominator == 1 and c.numerator % 2 == 0:
                continue    # 2*pi*integer
            sc = self.sincos1(key, c, unit)
            res = self.compose(res, sc)
        if const_pi:
            const_pi = const_pi % 2
            sc = self.sincos_pi(const_pi)
            res = self.compose(res, sc)
        self.sc[k] = res
        return res

    def compose(self, a, b):
        s = self.radd(self.rmul(a[0], b[1]), self.rmul(a[1], b[0]))
        c = self.radd(self.rmul(a[1], b[1]), self.rscale(self.rmul(a[0], b[0]), -1))
        return s, c

    def sincos_pi(self, f):
        """sin, cos of f*pi, 0<=f<2"""
        R = self.rconst
        h = {Fr(0): (0, 1), Fr(1, 2): (1, 0), Fr(1): (0, -1), Fr(3, 2): (-1, 0)}
        if f in h:
            return R(h[f][0]), R(h[f][1])
        # reduce to first quadrant offsets
        qd = math.floor(f * 2)
        rem = f - Fr(qd, 2)
        q0 = h[Fr(qd, 2)]
        s3 = self.rscale(self.rsqrt(R(3)), Fr(1, 2)) if rem in (Fr(1, 6), Fr(1, 3)) else None
        if rem == Fr(1, 6):
            b = (R(Fr(1, 2)), s3)
        elif rem == Fr(1, 3):
            b = (s3, R(Fr(1, 2)))
        elif rem == Fr(1, 4):
            s2 = self.rscale(self.rsqrt(R(2)), Fr(1, 2))
            b = (s2, s2)
        else:
            co = rem > Fr(1, 4)        # complementary angle: f and -f share their atoms
            r0 = Fr(1, 2) - rem if co else rem
            ang = ex.mul(ex.q(r0), ex.PI)
            si = self.atom('sin', ('pi', r0), ex.mk('sin', ang))
            ci = self.atom('cos', ('pi', r0), ex.mk('cos', ang))
            self.rule[ci] = {(): 1, ((si, 2),): -1}
            b = (self.ratom(ci), self.ratom(si)) if co else (self.ratom(si), self.ratom(ci))
        return self.compose((R(q0[0]), R(q0[1])), b)

    def sincos1(self, key, c, unit):
        """sin/cos of c*unit"""
        if c < 0:
            s, co = self.sincos1(key, -c, unit)
            return self.rscale(s, -1), co
        b = self.base.get(key)
        k = 1
        if b is not None and b != 0:
            t = c / b
            if t.denominator == 1 and 1 <= t.numerator <= 24:
                k = t.numerator
                c = b
        if k > 1:
            s1 = self.sincos1(key, c, unit)
            res = s1
            for _ in range(k - 1):
                res = self.compose(res, s1)
            return res
        # inverse trig atoms
        if key[0] == 'm' and len(key[1]) == 1 and key[1][0][1] == 1 and c.denominator == 1:
            i = key[1][0][0]
            kind = self.atoms[i][0]
            if kind in ('atan2', 'asin', 'acos', 'atan') and c <= 12:
                s1 = self.inv_sincos(i)
                if s1 is not None:
                    res = s1
                    for _ in range(int(c) - 1):
                        res = self.compose(res, s1)
                    return res
        akey = (key, c)
        u = self.rscale(unit, c_norm(c))
        node = self.node(u)
        si = self.atom('sin', akey, ex.mk('sin', node))
        ci = self.atom('cos', akey, ex.mk('cos', node))
        if ci not in self.rule:
            self.rule[ci] = {(): 1, ((si, 2),): -1}
        return self.ratom(si), self.ratom(ci)

    def inv_sincos(self, i):
        kind, key, node = self.atoms[i]
        if kind == 'asin':
            u = self.nf(node.a[0])
            return u, self.rsqrt(self.radd(self.rconst(1), self.rscale(self.rmul(u, u), -1)))
        if kind == 'acos':
            u = self.nf(node.a[0])
            return self.rsqrt(self.radd(self.rconst(1), self.rscale(self.rmul(u, u), -1))), u
        if kind == 'atan':
            u = self.nf(node.a[0])
            h = self.rinv(self.rsqrt(self.radd(self.rconst(1), self.rmul(u, u))))
            return self.rmul(u, h), h
        if kind == 'atan2':
            y = self.nf(node.a[0])
            x = self.nf(node.a[1])
            rho = self.rsqrt(self.radd(self.rmul(x, x), self.rmul(y, y)))
            if not rho[0]:
                return self.rconst(0), self.rconst(1)
            self.sideconds.append(('atan2-nonzero', self.node(rho)))
            h = self.rinv(rho)
            return self.rmul(y, h), self.rmul(x, h)
        return None

    def ratan2(self, y, x):
        # atan2(0, positive) = 0 ; scale-invariance by positive constants is not used
        cx, cy = self.is_const(x), self.is_const(y)
        if cy is not None and cy == 0 and cx is not None:
            return self.rconst(0) if cx >= 0 else self.ratom(self.pi)
        if cx is not None and cx == 0 and cy is not None:
            return self.rscale(self.ratom(self.pi), Fr(1, 2) if cy > 0 else Fr(-1, 2))
        # positive common factor removal: divide by |common denominators|: atan2(y/d, x/d)=atan2(y,x) for d>0
        if y[1] and y[1] == x[1]:
            d = {(): 1}
            for f, e in y[1].items():
                d = self.pmul(d, self.ppow(self.denp[f], e))
            if self.sign((d, {})) > 0:
                y, x = (y[0], {}), (x[0], {})
        if y[0] and x[0] and not y[1] and not x[1]:
            cm = dict(self._content(y[0]))
            cx2 = dict(self._content(x[0]))
            com = [(a, min(e, cx2[a])) for a, e in cm.items() if a in cx2]
            com = [(a, e if self.atom_nonneg(a) else e - e % 2) for a, e in com]
            com = tuple(sorted((a, e) for a, e in com if e))
            if com:
                y = ({self._mdiv(m, com): c for m, c in y[0].items()}, {})
                x = ({self._mdiv(m, com): c for m, c in x[0].items()}, {})
            # rational content
            m0 = min(x[0])
            c0 = abs(Fr(x[0][m0]))
            if c0 != 1:
                y = self.rscale(y, c_norm(1 / c0))
                x = self.rscale(x, c_norm(1 / c0))
            # polar angle of (cos t, +-sin t), t within (-pi, pi)
            if self.iv is not None and not y[1] and not x[1] and len(y[0]) == 1 and len(x[0]) == 1:
                (my, cy), = y[0].items()
                (mx, cx), = x[0].items()
                if cx == 1 and abs(cy) == 1 and len(my) == 1 == len(mx) and my[0][1] == 1 == mx[0][1]:
                    a, b = self.atoms[my[0][0]], self.atoms[mx[0][0]]
                    if a[0] == 'sin' and b[0] == 'cos' and a[1] == b[1] and isinstance(a[2], N) and a[2].op == 'sin':
                        t = a[2].a[0]
                        lo, hi = self.iv.get(t)
                        if lo >= -3.141592 and hi <= 3.141592:
                            return self.rscale(self.nf(t), cy)
        return self._fn('atan2', y, x)

    def rhyp(self, op, r):
        if not r[0]:
            return self.rconst(1) if op == 'cosh' else self.rconst(0)
        sg = 1
        if self.lead_neg(r):
            r = self.rscale(r, -1)
            sg = -1
        if not r[1] and all(isinstance(c, int) or Fr(c).denominator == 1 for c in r[0].values()) and all(int(c) % 2 == 0 for c in r[0].values()):
            h = self.rscale(r, Fr(1, 2))
            s1, c1 = self.rhyp('sinh', h), self.rhyp('cosh', h)
            c2 = self.radd(self.rconst(1), self.rscale(self.rmul(s1, s1), 2))
            s2 = self.rscale(self.rmul(s1, c1), 2 * sg)
            return c2 if op == 'cosh' else s2 if op == 'sinh' else self.rmul(s2, self.rinv(c2))
        key = self.rkey(r)
        node = self.node(r)
        si = self.atom('sinh', key, ex.mk('sinh', node))
        ci = self.atom('cosh', key, ex.mk('cosh', node))
        if ci not in self.rule:
            self.rule[ci] = {(): 1, ((si, 2),): 1}
        if op == 'cosh':
            return self.ratom(ci)
        if op == 'sinh':
            return self.rscale(self.ratom(si), sg)
        return self.rscale(self.rmul(self.ratom(si), self.rinv(self.ratom(ci))), sg)

    def rexp(self, r):
        if not r[0]:
            return self.rconst(1)
        res = self.rconst(1)
        for key, c, unit in self.terms_of_angle(r):
            # exp(log(x)*c)
            if key[0] == 'm' and len(key[1]) == 1 and key[1][0][1] == 1 and self.atoms[key[1][0][0]][0] == 'log' \
                    and c.denominator == 1 and abs(c) <= 12:
                u = self.nf(self.atoms[key[1][0][0]][2].a[0])
                if c < 0:
                    u = self.rinv(u)
                for _ in range(abs(int(c))):
                    res = self.rmul(res, u)
                continue
            k = 1
            sgn = c < 0
            c = abs(c)
            b = self.base.get(('exp', key))
            if b:
                t = c / b
                if t.denominator == 1 and 1 <= t.numerator <= 24:
                    k = t.numerator
                    c = b
            u = self.rscale(unit, c_norm(c))
            i = self.atom('exp', (key, c), ex.mk('exp', self.node(u)))
            a = self.ratom(i)
            if sgn:
                a = self.rinv(a)
            for _ in range(k):
                res = self.rmul(res, a)
        return res

    def rpow(self, x, p):
        c = self.is_const(p)
        if c is not None:
            if c.denominator == 1 and abs(c) <= 16:
                r = self.rconst(1)
                b = x if c >= 0 else self.rinv(x)
                for _ in range(abs(int(c))):
                    r = self.rmul(r, b)
                return r
            if c.denominator == 2 and abs(c) <= 16:
                s = self.rsqrt(x)
                b = s if c >= 0 else self.rinv(s)
                r = self.rconst(1)
                for _ in range(abs(int(c * 2))):
                    r = self.rmul(r, b)
                return r
            if c < 0:
                return self.rinv(self.rpow(x, self.rscale(p, -1)))
        return self._fn('pow', x, p)


class AngleBasis:
    """independent angles; every angle of the obligation is a small integer combination of them"""

    def __init__(self):
        self.rows = []       # reduced echelon rows: (pivot, vector, combination over the basis)
        self.unit = []       # basis angle as a ratio
        self.uid = []
        self.vec = {}        # basis angle -> its vector
        self.tiny = {}       # the angles that are rounding differences

    def _reduce(self, v):
        v = dict(v)
        comb = {}
        for piv, row, rc in self.rows:
            c = v.get(piv)
            if not c:
                continue
            for k, x in row.items():
                y = v.get(k, 0) - c * x
                if y:
                    v[k] = y
                else:
                    v.pop(k, None)
            for j, x in rc.items():
                comb[j] = comb.get(j, 0) + c * x
        return v, comb

    def solve(self, v):
        if not v:
            return []
        rem, comb = self._reduce(v)
        if not rem and all(k.denominator == 1 and abs(k) <= 24 for k in comb.values()):
            return [(j, int(k)) for j, k in sorted(comb.items()) if k]
        n = self.near(v)
        if n and n[3] is not None:
            return [(n[0], n[1]), n[3]]
        return None

    def add(self, v, ctx):
        """v is not an integer combination: a new basis angle (if independent)"""
        rem, comb = self._reduce(v)
        near = self.near(v)
        if not rem and not near:
            return False
        if near:
            v = near[2]
            if near[3] is not None:
                return False
            if not self._reduce(v)[0]:
                j = self.new_unit(v, ctx)
                self.tiny[j] = v
                self.vec[j] = v
                return True
            rem, comb = self._reduce(v)
        j = self.new_unit(v, ctx)
        if near:
            self.tiny[j] = v
        self.vec[j] = v
        piv = min(rem, key=lambda k: (len(k[0]), str(k)))
        c = rem[piv]
        row = {k: x / c for k, x in rem.items()}
        rc = {i: -x / c for i, x in comb.items()}
        rc[j] = rc.get(j, 0) + 1 / c
        self.rows.append((piv, row, rc))
        return True

    def near(self, v):
        """v a rounding away from an integer multiple k of a basis angle j: (j, k, difference, (tiny angle, +-1) or None)"""
        for j, w in self.vec.items():
            if j in self.tiny:
                continue
            lead = max(w, key=lambda k: abs(w[k]))
            k = round(v.get(lead, 0) / w[lead])
            if not 1 <= abs(k) <= 24:
                continue
            d = {m: v.get(m, 0) - k * w.get(m, 0) for m in set(v) | set(w)}
            d = {m: c for m, c in d.items() if c}
            if d and all(abs(c) <= Fr(1, 10 ** 12) * abs(v.get(m, 0)) for m, c in d.items()):
                for t, x in self.tiny.items():
                    if d == x:
                        return j, k, d, (t, 1)
                    if d == {m: -c for m, c in x.items()}:
                        return j, k, d, (t, -1)
                return j, k, d, None
        return None

    def new_unit(self, v, ctx):
        j = len(self.unit)
        unit = ({}, {})
        for dk in sorted({k[1] for k in v}, key=str):
            unit = ctx.radd(unit, ({m: c_norm(c) for (m, k), c in v.items() if k == dk}, dict(dk)))
        self.unit.append(unit)
        ids = ctx.__dict__.setdefault('abids', {})
        i = ids.setdefault(ctx.rkey(unit), len(ids) + 1)
        self.uid.append(i)
        ctx.base[('ab', i)] = Fr(1)
        return j


def build_angle_basis(ctx, nodes):
    """-> number of independent angles; makes ctx.abasis"""
    seen = set()
    st = list(nodes)
    order = []
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op in ('sin', 'cos', 'tan'):
            order.append(n)
        for x in n.a:
            if isinstance(x, N):
                st.append(x)
    order.sort(key=lambda n: n.depth)
    prev = None
    for rnd in range(3):
        vs = []
        for n in order:
            r = ctx.nf(n.a[0])
            v = ctx.angle_rest(r)
            if v:
                # orient
                k0 = min(v, key=lambda k: (len(k[0]), str(k)))
                if v[k0] < 0:
                    v = {k: -c for k, c in v.items()}
                vs.append(v)
        key = [sorted(map(str, v.items())) for v in vs]
        if key == prev:
            break
        prev = key
        vs.sort(key=lambda v: (len(v), max(abs(c) for c in v.values())))
        B = AngleBasis()
        for v in vs:
            if B.solve(v) is None:
                B.add(v, ctx)
        ctx.abasis = B
        ctx.cache.clear()
        ctx.sc.clear()
    return len(ctx.abasis.unit) if ctx.abasis else 0


def collect_bases(ctx, nodes):
    """choose base coefficients so that commensurable multiples of one angle share atoms"""
    seen = set()
    st = list(nodes)
    coefs = {}
    order = []
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op in ('sin', 'cos', 'tan', 'exp'):
            order.append(n)
        for x in n.a:
            if isinstance(x, N):
                st.append(x)
    order.sort(key=lambda n: n.depth)
    for n in order:
        tmp = Ctx(ctx.iv)
        tmp.base = ctx.base
        tmp.subst = ctx.subst
        try:
            r = ctx.nf(n.a[0]) if n.depth < 12 else ctx.nf(n.a[0])
        except TooBig:
            continue
        pre = 'exp' if n.op == 'exp' else None
        for key, c, unit in ctx.terms_of_angle(r):
            k = key if pre is None else ('exp', key)
            coefs.setdefault(k, set()).add(abs(c))
    changed = False
    for k, cs in coefs.items():
        cs = [c for c in cs if c]
        if len(cs) < 2:
            continue
        g = cs[0]
        for c in cs[1:]:
            g = Fr(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator)
        if all((c / g) <= 24 for c in cs):
            ctx.base[k] = g
            changed = True
        else:
            m = min(cs)
            if any((c / m).denominator == 1 for c in cs if c != m):
                ctx.base[k] = m
                changed = True
    return changed
