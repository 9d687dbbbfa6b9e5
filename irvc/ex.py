"""Hash-consed expression DAG over the mathematical reals (plus formulas)."""
from fractions import Fraction as Fr
import math

_tab = {}
_cnt = [0]


class N:
    __slots__ = ('op', 'a', 'id', 'isint', 'depth')

    def __repr__(self):
        return show(self, 6)


def mk(op, *a):
    k = (op,) + tuple(x.id if isinstance(x, N) else ('#', x) for x in a)
    n = _tab.get(k)
    if n is None:
        n = N()
        n.op = op
        n.a = a
        n.id = _cnt[0]
        _cnt[0] += 1
        n.isint = False
        d = 0
        for x in a:
            if isinstance(x, N) and x.depth > d:
                d = x.depth
        n.depth = d + 1
        _tab[k] = n
    return n


def show(n, d=5):
    if not isinstance(n, N):
        return str(n)
    if n.op == 'q':
        v = n.a[0]
        if v.denominator == 1 and abs(v.numerator) < 10**9:
            return str(v.numerator)
        return repr(float(v)) if abs(v) < Fr(10)**300 else str(v)
    if n.op == 'v':
        return n.a[0]
    if n.op == 'pi':
        return 'pi'
    if d == 0:
        return '..'
    if n.op in ('+', '*', '/', 'lt', 'le', 'eq', 'and', 'or'):
        return '(' + (' ' + {'lt': '<', 'le': '<=', 'eq': '=='}.get(n.op, n.op) + ' ').join(show(x, d - 1) for x in n.a) + ')'
    return n.op + '(' + ', '.join(show(x, d - 1) for x in n.a) + ')'


MAXBITS = 900


def q(v):
    if not isinstance(v, Fr):
        v = Fr(v)
    if v.denominator.bit_length() > MAXBITS or v.numerator.bit_length() > MAXBITS:
        # keep ~400 significant bits (recorded as part of the real-arithmetic abstraction)
        nb = v.numerator.bit_length() - v.denominator.bit_length()
        s = 400 - nb
        v = Fr(round(v * (Fr(2) ** s))) / (Fr(2) ** s)
    n = mk('q', v)
    n.isint = v.denominator == 1
    return n


ZERO = q(0)
ONE = q(1)
TWO = q(2)
NEG1 = q(-1)
PI = mk('pi')


def var(name, isint=False):
    n = mk('v', name)
    if isint:
        n.isint = True
    return n


def isq(n):
    return n.op == 'q'


def add(a, b):
    if a.op == 'q':
        if b.op == 'q':
            return q(a.a[0] + b.a[0])
        if a.a[0] == 0:
            return b
    elif b.op == 'q' and b.a[0] == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    n = mk('+', a, b)
    n.isint = a.isint and b.isint
    return n


def mul(a, b):
    if a.op == 'q':
        if b.op == 'q':
            return q(a.a[0] * b.a[0])
        if a.a[0] == 1:
            return b
        if a.a[0] == 0:
            return ZERO
    elif b.op == 'q':
        if b.a[0] == 1:
            return a
        if b.a[0] == 0:
            return ZERO
    if a.id > b.id:
        a, b = b, a
    # (q * x) with q * y merge constants
    if a.op == 'q' and b.op == '*' and b.a[0].op == 'q':
        return mul(q(a.a[0] * b.a[0].a[0]), b.a[1])
    n = mk('*', a, b)
    n.isint = a.isint and b.isint
    return n


def neg(a):
    return mul(NEG1, a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def div(a, b):
    if b.op == 'q' and b.a[0] != 0:
        return mul(a, q(1 / b.a[0]))
    if a.op == 'q' and a.a[0] == 0:
        return ZERO
    if a is b:
        return ONE
    return mk('/', a, b)


def powi(a, k):
    if k == 0:
        return ONE
    if k < 0:
        return div(ONE, powi(a, -k))
    r = a
    for _ in range(k - 1):
        r = mul(r, a)
    return r


def isqrt_exact(v):
    if v < 0:
        return None
    a = math.isqrt(v.numerator)
    b = math.isqrt(v.denominator)
    if a * a == v.numerator and b * b == v.denominator:
        return Fr(a, b)
    return None


def sqrt(a):
    if a.op == 'q':
        r = isqrt_exact(a.a[0])
        if r is not None:
            return q(r)
    return mk('sqrt', a)


def absv(a):
    if a.op == 'q':
        return q(abs(a.a[0]))
    if a.op in ('abs', 'sqrt', 'pi', 'exp'):
        return a
    if a.op == '*' and a.a[0].op == 'q':
        return mul(q(abs(a.a[0].a[0])), absv(a.a[1]))
    if a.op == '*' and a.a[0] is a.a[1]:
        return a
    n = mk('abs', a)
    n.isint = a.isint
    return n


def floor(a):
    if a.isint:
        return a
    if a.op == 'q':
        return q(math.floor(a.a[0]))
    n = mk('floor', a)
    n.isint = True
    return n


def fn1(op, a):
    if a.op == 'q':
        v = a.a[0]
        if v == 0:
            if op in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'expm1', 'ln1p', 'asinh', 'cbrt'):
                return ZERO
            if op in ('cos', 'exp', 'cosh'):
                return ONE
            if op == 'acos':
                return div(PI, TWO)
        if v == 1 and op == 'log':
            return ZERO
        if v == 1 and op == 'asin':
            return div(PI, TWO)
        if v == -1 and op == 'asin':
            return neg(div(PI, TWO))
        if v == 1 and op == 'acos':
            return ZERO
        if v == -1 and op == 'acos':
            return PI
    if op == 'sqrt':
        return sqrt(a)
    return mk(op, a)


def fmin(a, b):
    if a is b:
        return a
    if a.op == 'q' and b.op == 'q':
        return a if a.a[0] <= b.a[0] else b
    if a.id > b.id:
        a, b = b, a
    n = mk('min', a, b)
    n.isint = a.isint and b.isint
    return n


def fmax(a, b):
    if a is b:
        return a
    if a.op == 'q' and b.op == 'q':
        return a if a.a[0] >= b.a[0] else b
    if a.id > b.id:
        a, b = b, a
    n = mk('max', a, b)
    n.isint = a.isint and b.isint
    return n


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    n = mk('ite', c, a, b)
    n.isint = a.isint and b.isint
    return n


# formulas
TRUE = mk('true')
FALSE = mk('false')


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == 'q' and b.op == 'q':
        return TRUE if a.a[0] < b.a[0] else FALSE
    return mk('lt', a, b)


def le(a, b):
    if a is b:
        return TRUE
    if a.op == 'q' and b.op == 'q':
        return TRUE if a.a[0] <= b.a[0] else FALSE
    return mk('le', a, b)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'q' and b.op == 'q':
        return TRUE if a.a[0] == b.a[0] else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


def bnot(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == 'not':
        return f.a[0]
    if f.op == 'lt':
        return mk('le', f.a[1], f.a[0])
    if f.op == 'le':
        return mk('lt', f.a[1], f.a[0])
    return mk('not', f)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return mk('and', a, b)


def bor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    return mk('or', a, b)


# ---- constants: doubles -> exact reading ------------------------------
_PI_N = Fr(314159265358979323846264338327950288419716939937510582097494459230781640628620899,
           10**80)
_const_cache = {}


def _best_rational(x, maxden):
    # Stern-Brocot via continued fraction: list convergents
    a = x
    p0, q0, p1, q1 = 0, 1, 1, 0
    while True:
        n = a.numerator // a.denominator
        p0, q0, p1, q1 = p1, q1, n * p1 + p0, n * q1 + q0
        if q1 > maxden:
            return
        yield Fr(p1, q1)
        f = a - n
        if f == 0:
            return
        a = 1 / f


def const_f64(x):
    """Reading of a double literal as a real: q*pi or q/pi when it is (nearest double to) one
    with a small rational q, otherwise its shortest decimal."""
    r = _const_cache.get(x)
    if r is not None:
        return r
    if x == 0:
        return ZERO
    s = abs(x)
    res = None
    fx = Fr(s)
    if not (s == int(s) if s < 1e15 else True):
        dec = Fr(repr(s))
        # short decimals are never pi multiples
        nd = len(repr(s).replace('.', '').replace('-', '').split('e')[0].strip('0'))
        if nd >= 14:
            for inv in (0, 1):
                t = fx / _PI_N if not inv else fx * _PI_N
                for c in _best_rational(t, 10**7):
                    if c == 0:
                        continue
                    if c.numerator * c.denominator > 3 * 10**9:
                        break
                    rel = abs(t / c - 1)
                    if rel < Fr(1, 2**51):
                        res = mul(q(c), PI) if not inv else div(q(c), PI)
                        break
                if res is not None:
                    break
        if res is None:
            res = q(dec)
    else:
        res = q(fx)
    if x < 0:
        res = neg(res)
    _const_cache[x] = res
    return res


def children(n):
    return [x for x in n.a if isinstance(x, N)]


def free_vars(ns):
    seen = set()
    out = set()
    st = list(ns)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'v':
            out.add(n)
        for x in n.a:
            if isinstance(x, N):
                st.append(x)
    return out


# ---- numeric evaluation (for concretisation / sanity) ------------------
def evalf(n, env, cache=None):
    if cache is None:
        cache = {}
    st = [n]
    while st:
        x = st[-1]
        if x.id in cache:
            st.pop()
            continue
        pend = [c for c in x.a if isinstance(c, N) and c.id not in cache]
        if pend:
            st.extend(pend)
            continue
        st.pop()
        cache[x.id] = _ev(x, [cache[c.id] if isinstance(c, N) else c for c in x.a], env)
    return cache[n.id]


def _ev(n, a, env):
    op = n.op
    if op == 'q':
        try:
            return float(a[0])
        except OverflowError:
            return math.inf if a[0] > 0 else -math.inf
    if op == 'pi':
        return math.pi
    if op == 'v':
        return env[n.a[0]]
    try:
        if op == '+':
            return a[0] + a[1]
        if op == '*':
            return a[0] * a[1]
        if op == '/':
            return a[0] / a[1]
        if op == 'ite':
            return a[1] if a[0] else a[2]
        if op in ('sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'sinh', 'cosh', 'tanh',
                  'atan2', 'floor', 'asinh', 'acosh', 'atanh', 'expm1', 'log10', 'log2', 'cbrt'):
            return float(getattr(math, op)(*a))
        if op == 'ln1p':
            return math.log1p(a[0])
        if op == 'abs':
            return abs(a[0])
        if op == 'min':
            return min(a)
        if op == 'max':
            return max(a)
        if op == 'pow':
            return a[0] ** a[1]
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'lt':
            return a[0] < a[1]
        if op == 'le':
            return a[0] <= a[1]
        if op == 'eq':
            return a[0] == a[1]
        if op == 'not':
            return not a[0]
        if op == 'and':
            return a[0] and a[1]
        if op == 'or':
            return a[0] or a[1]
    except (ValueError, ZeroDivisionError, OverflowError):
        return math.nan
    raise KeyError('evalf ' + op)
