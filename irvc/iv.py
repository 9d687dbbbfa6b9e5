"""Outward-rounded interval evaluation of the DAG (floats, inflated by a few ulps)."""
import math
from .ex import N

INF = math.inf


def dn(x, k=2):
    for _ in range(k):
        x = math.nextafter(x, -INF)
    return x


def up(x, k=2):
    for _ in range(k):
        x = math.nextafter(x, INF)
    return x


def mulp(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def imul(x, y):
    ps = (mulp(x[0], y[0]), mulp(x[0], y[1]), mulp(x[1], y[0]), mulp(x[1], y[1]))
    lo, hi = min(ps), max(ps)
    if lo == 0 == hi:
        return (0.0, 0.0)
    return (dn(lo, 1) if lo != 0 else 0.0, up(hi, 1) if hi != 0 else 0.0)


def isq_(x):
    lo, hi = x
    if lo >= 0:
        return (max(0.0, dn(lo * lo, 1)), up(hi * hi, 1))
    if hi <= 0:
        return (max(0.0, dn(hi * hi, 1)), up(lo * lo, 1))
    m = max(-lo, hi)
    return (0.0, up(m * m, 1))


def icos(x):
    lo, hi = x
    if not (abs(lo) < 1e8 and abs(hi) < 1e8) or hi - lo >= 6.2832:
        return (-1.0, 1.0)
    # does the interval contain k*2pi / pi+k*2pi
    tp = 2 * math.pi
    k = math.ceil((lo - 1e-7) / tp)
    cmax = k * tp <= hi + 1e-7
    k = math.ceil((lo - math.pi - 1e-7) / tp)
    cmin = k * tp + math.pi <= hi + 1e-7
    a, b = math.cos(lo), math.cos(hi)
    eps = 4e-16 * max(1.0, abs(lo), abs(hi))
    return (-1.0 if cmin else max(-1.0, min(a, b) - eps), 1.0 if cmax else min(1.0, max(a, b) + eps))


def isin(x):
    r = icos((x[0] - math.pi / 2, x[1] - math.pi / 2))
    eps = 4e-16
    return (max(-1.0, r[0] - eps), min(1.0, r[1] + eps))


class Iv:
    """interval context: bounds for variables and (optionally) for arbitrary nodes"""

    def __init__(self, vb):
        self.vb = dict(vb)          # node id -> (lo,hi)
        self.c = {}

    def get(self, n):
        c = self.c
        r = c.get(n.id)
        if r is not None:
            return r
        st = [n]
        while st:
            x = st[-1]
            if x.id in c:
                st.pop()
                continue
            pend = [y for y in x.a if isinstance(y, N) and y.id not in c and y.op not in FORM]
            if pend:
                st.extend(pend)
                continue
            st.pop()
            try:
                r = self._ev(x)
            except OverflowError:
                r = (-INF, INF)
            if math.isnan(r[0]) or math.isnan(r[1]):
                r = (-INF, INF)
            if x.isint and -1e9 < r[0] and r[1] < 1e9:
                r = (float(math.ceil(r[0] - 1e-6)), float(math.floor(r[1] + 1e-6)))
            b = self.vb.get(x.id)
            if b is not None:
                r = (max(r[0], b[0]), min(r[1], b[1]))
                if r[0] > r[1]:
                    r = (b[0], b[1])
            c[x.id] = r
        return c[n.id]

    def _ev(self, n):
        op = n.op
        c = self.c
        if op == 'q':
            v = n.a[0]
            try:
                f = float(v)
            except OverflowError:
                return (1.7e308, INF) if v > 0 else (-INF, -1.7e308)
            if f == v:
                return (f, f)
            return (dn(f, 1), up(f, 1))
        if op == 'v':
            return (-INF, INF)
        if op == 'pi':
            return (3.141592653589793, 3.1415926535897936)
        if op == '+':
            x, y = c[n.a[0].id], c[n.a[1].id]
            return (dn(x[0] + y[0], 1), up(x[1] + y[1], 1))
        if op == '*':
            if n.a[0] is n.a[1]:
                return isq_(c[n.a[0].id])
            return imul(c[n.a[0].id], c[n.a[1].id])
        if op == '/':
            x, y = c[n.a[0].id], c[n.a[1].id]
            if y[0] <= 0 <= y[1]:
                if y[0] == 0 and y[1] > 0 and x[0] >= 0:
                    return (dn(x[0] / y[1], 1) if y[1] < INF else 0.0, INF)
                return (-INF, INF)
            a, b = 1 / y[1] if abs(y[1]) < INF else 0.0, 1 / y[0] if abs(y[0]) < INF else 0.0
            return imul(x, (dn(a, 1), up(b, 1)))
        if op == 'ite':
            x, y = c[n.a[1].id], c[n.a[2].id]
            return (min(x[0], y[0]), max(x[1], y[1]))
        if op == 'min':
            x, y = c[n.a[0].id], c[n.a[1].id]
            return (min(x[0], y[0]), min(x[1], y[1]))
        if op == 'max':
            x, y = c[n.a[0].id], c[n.a[1].id]
            return (max(x[0], y[0]), max(x[1], y[1]))
        if op == 'uf':
            return (-INF, INF)
        if op == 'atan2':
            y, x = c[n.a[0].id], c[n.a[1].id]
            lo, hi = -3.1415926535897936, 3.1415926535897936
            if y[0] >= 0:
                lo = 0.0
            if y[1] < 0:
                hi = 0.0
            if x[0] > 0:
                lo, hi = max(lo, -1.5707963267948968), min(hi, 1.5707963267948968)
            if (x[0] > 0 or y[0] > 0 or y[1] < 0) and max(map(abs, x + y)) < INF:
                # away from the cut the extremes are at the corners
                cs = [math.atan2(p, q) for p in y for q in x]
                lo, hi = max(lo, dn(min(cs), 4)), min(hi, up(max(cs), 4))
            return (lo, hi)
        if op == 'pow':
            x, y = c[n.a[0].id], c[n.a[1].id]
            if x[0] > 0:
                vals = []
                for p in x:
                    for e in y:
                        try:
                            vals.append(math.pow(p, e))
                        except OverflowError:
                            vals.append(INF)
                return (max(0.0, dn(min(vals), 8)), up(max(vals), 8))
            if x[0] >= 0:
                return (0.0, INF) if not (y[0] > 0 and x[1] < INF and y[1] < INF) else (0.0, up(max(math.pow(x[1], y[0]), math.pow(x[1], y[1])), 8))
            return (-INF, INF)
        x = c[n.a[0].id]
        if op == 'sqrt':
            lo = max(0.0, x[0])
            hi = max(0.0, x[1])
            return (max(0.0, dn(math.sqrt(lo), 1)) if lo < INF else INF, up(math.sqrt(hi), 1) if hi < INF else INF)
        if op == 'abs':
            if x[0] >= 0:
                return x
            if x[1] <= 0:
                return (-x[1], -x[0])
            return (0.0, max(-x[0], x[1]))
        if op == 'floor':
            return (math.floor(x[0]) if abs(x[0]) < 1e300 else x[0], math.floor(x[1]) if abs(x[1]) < 1e300 else x[1])
        if op == 'cos':
            return icos(x)
        if op == 'sin':
            return isin(x)
        if op in ('asin', 'acos'):
            lo, hi = max(-1.0, min(1.0, x[0])), max(-1.0, min(1.0, x[1]))
            if op == 'asin':
                return (dn(math.asin(lo), 3), up(math.asin(hi), 3))
            return (max(0.0, dn(math.acos(hi), 3)), up(math.acos(lo), 3))
        if op == 'atan':
            return (dn(math.atan(x[0]), 3), up(math.atan(x[1]), 3))
        if op == 'exp':
            def e(v):
                try:
                    return math.exp(v)
                except OverflowError:
                    return INF
            return (max(0.0, dn(e(x[0]), 4)), up(e(x[1]), 4))
        if op in ('log', 'log10', 'log2'):
            f = getattr(math, op)
            lo = dn(f(x[0]), 4) if 0 < x[0] < INF else (-INF if x[0] <= 0 else INF)
            hi = up(f(x[1]), 4) if 0 < x[1] < INF else (INF if x[1] >= INF else -INF)
            return (lo, hi)
        if op in ('sinh', 'tanh', 'asinh', 'cbrt', 'expm1'):
            f = getattr(math, op)

            def g(v):
                try:
                    return f(v)
                except OverflowError:
                    return INF if v > 0 else -INF
            return (dn(g(x[0]), 6), up(g(x[1]), 6))
        if op == 'cosh':
            m = max(abs(x[0]), abs(x[1]))
            lo = 0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1]))
            try:
                hi = up(math.cosh(m), 6)
            except OverflowError:
                hi = INF
            try:
                l = dn(math.cosh(lo), 6)
            except OverflowError:
                l = 1e300
            return (max(1.0, l), hi)
        if op == 'tan':
            if x[0] > -1.57 and x[1] < 1.57:
                return (dn(math.tan(x[0]), 6), up(math.tan(x[1]), 6))
            return (-INF, INF)
        return (-INF, INF)

    def form(self, f):
        """True / False / None"""
        op = f.op
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'lt':
            a, b = self.get(f.a[0]), self.get(f.a[1])
            if a[1] < b[0]:
                return True
            if a[0] >= b[1]:
                return False
            return None
        if op == 'le':
            a, b = self.get(f.a[0]), self.get(f.a[1])
            if a[1] <= b[0]:
                return True
            if a[0] > b[1]:
                return False
            return None
        if op == 'eq':
            a, b = self.get(f.a[0]), self.get(f.a[1])
            if a[1] < b[0] or b[1] < a[0]:
                return False
            if a[0] == a[1] == b[0] == b[1]:
                return True
            return None
        if op == 'not':
            r = self.form(f.a[0])
            return None if r is None else not r
        if op == 'and':
            r = self.form(f.a[0]); s = self.form(f.a[1])
            if r is False or s is False:
                return False
            if r and s:
                return True
            return None
        if op == 'or':
            r = self.form(f.a[0]); s = self.form(f.a[1])
            if r or s:
                return True
            if r is False and s is False:
                return False
            return None
        return None


FORM = {'lt', 'le', 'eq', 'not', 'and', 'or', 'true', 'false'}


def bounds_from_pc(pc, base):
    """tighten variable/node bounds from atomic path conditions node<=const"""
    b = dict(base)

    def upd(n, lo, hi):
        o = b.get(n.id, (-INF, INF))
        b[n.id] = (max(o[0], lo), min(o[1], hi))

    def cval(n):
        if n.op == 'q':
            try:
                v = float(n.a[0])
            except OverflowError:
                return None
            return (dn(v, 1), up(v, 1)) if v != n.a[0] else (v, v)
        if n.op == '*' and n.a[0].op == 'q' and n.a[1].op == 'pi' or n.op == 'pi' or (n.op == '*' and n.a[0].op == 'pi' and n.a[1].op == 'q'):
            return Iv({}).get(n)
        return None

    def rec(f):
        if f.op == 'and':
            rec(f.a[0]); rec(f.a[1])
        elif f.op in ('lt', 'le'):
            x, y = f.a
            cy = cval(y)
            if cy is not None:
                upd(x, -INF, cy[1])
                if x.op == 'abs':
                    upd(x.a[0], -cy[1], cy[1])
            cx = cval(x)
            if cx is not None:
                upd(y, cx[0], INF)
        elif f.op == 'eq':
            x, y = f.a
            for s, t in ((x, y), (y, x)):
                ct = cval(t)
                if ct is not None:
                    upd(s, ct[0], ct[1])
    for f in pc:
        rec(f)
    return b
