"""Real interval domain: enclosures of exact real values over boxes of inputs.

A value is an enclosure [lo, hi] in the extended reals (160-bit endpoints, widened after
every inexact operation), an exact rational when it is known, and a NaN flag
(0 never, 1 possibly, 2 surely).
"""
from fractions import Fraction
import mpmath
from mpmath import mp, mpf

mp.prec = 160
EPS = mpf(2) ** -148
INF = mpf('inf')
MAXBITS = 3000


class Undecided(Exception):
    pass


class V:
    __slots__ = ('lo', 'hi', 'q', 'nan', 'l')

    def __init__(self, lo, hi=None, q=None, nan=0):
        self.lo, self.hi, self.q, self.nan = lo, (lo if hi is None else hi), q, nan
        self.l = None                 # a rational whose logarithm the value is

    def __repr__(self):
        if self.nan == 2:
            return 'NaN'
        if self.q is not None:
            return str(self.q) if self.q.denominator < 10**6 else mpmath.nstr(mpf(self.q.numerator) / self.q.denominator, 17)
        m = (self.lo + self.hi) / 2 if mpmath.isfinite(self.lo) and mpmath.isfinite(self.hi) else None
        if m is not None and self.hi - self.lo <= abs(m) * mpf(10)**-12:
            return mpmath.nstr(m, 15)
        return '[%s, %s]%s' % (mpmath.nstr(self.lo, 10), mpmath.nstr(self.hi, 10), '?' if self.nan else '')

    # arithmetic
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return neg(self)
    def __pow__(self, k): return powi(self, k)
    # decided comparisons
    def __lt__(self, o): return decide(lt(self, lift(o)))
    def __le__(self, o): return decide(le(self, lift(o)))
    def __gt__(self, o): return decide(lt(lift(o), self))
    def __ge__(self, o): return decide(le(lift(o), self))
    def eq(self, o): return decide(eq(self, lift(o)))


def decide(b):
    if b is None:
        raise Undecided()
    return b


def exact(x):
    if isinstance(x, Fraction):
        q = x
    elif isinstance(x, float):
        if x != x:
            return V(-INF, INF, None, 2)
        if x in (float('inf'), float('-inf')):
            return V(mpf(x))
        q = Fraction(x)
    else:
        q = Fraction(x)
    if q.numerator.bit_length() + q.denominator.bit_length() > MAXBITS:
        m = mpf(q.numerator) / mpf(q.denominator)
        return widen(m, m)
    if q.denominator & (q.denominator - 1) == 0 and q.numerator.bit_length() <= 150:
        m = mpf(q.numerator) / mpf(q.denominator)
        return V(m, m, q)
    m = mpf(q.numerator) / mpf(q.denominator)
    v = widen(m, m)
    v.q = q
    return v


def lift(x):
    if isinstance(x, V):
        return x
    if isinstance(x, mpf):
        return widen(x, x)
    return exact(x)


NAN = V(-INF, INF, None, 2)
ZERO = exact(0)
ONE = exact(1)


def box(lo, hi):
    lo, hi = lift(lo), lift(hi)
    if lo.q is not None and lo.q == hi.q:
        return lo
    return V(lo.lo, hi.hi)


def around(q, rel=Fraction(1, 10**30)):
    """a box of positive width around a rational"""
    q = Fraction(q)
    d = abs(q) * rel if q else Fraction(1, 10**60)
    a, b = exact(q - d), exact(q + d)
    return V(a.lo, b.hi)


def widen(lo, hi, nan=0):
    if lo != 0 and mpmath.isfinite(lo):
        lo = lo - abs(lo) * EPS
    if hi != 0 and mpmath.isfinite(hi):
        hi = hi + abs(hi) * EPS
    return V(lo, hi, None, nan)


def nanj(*vs):
    return max([0] + [v.nan for v in vs])


def bad(v):
    return v.nan == 2


def log_of(v, r):
    if r is not None and not v.nan and v.q is None and r.numerator.bit_length() + r.denominator.bit_length() <= MAXBITS:
        v.l = r
    return v


def neg(a):
    if bad(a):
        return NAN
    return log_of(V(-a.hi, -a.lo, None if a.q is None else -a.q, a.nan), None if a.l is None else 1 / a.l)


def add(a, b):
    if bad(a) or bad(b):
        return NAN
    if a.q is not None and b.q is not None:
        return exact(a.q + b.q)
    n = nanj(a, b)
    if (a.lo == INF and b.hi == -INF) or (a.hi == -INF and b.lo == INF):
        return NAN
    if (a.hi == INF and b.lo == -INF) or (a.lo == -INF and b.hi == INF):
        n = max(n, 1)
        lo = a.lo + b.lo if not (a.lo == INF or b.lo == INF) else -INF
        hi = a.hi + b.hi if not (a.hi == -INF or b.hi == -INF) else INF
        lo = -INF if lo != lo else lo
        hi = INF if hi != hi else hi
        return V(lo, hi, None, n)
    if a.q == 0:
        return log_of(V(b.lo, b.hi, b.q, n), b.l)
    if b.q == 0:
        return log_of(V(a.lo, a.hi, a.q, n), a.l)
    if a.l is not None and b.l is not None:
        r = a.l * b.l
        return ZERO if r == 1 else log_of(widen(a.lo + b.lo, a.hi + b.hi, n), r)
    return widen(a.lo + b.lo, a.hi + b.hi, n)


def sub(a, b):
    return add(a, neg(b))


def _m(x, y):
    if x == 0 or y == 0:
        return mpf(0)
    return x * y


def mul(a, b):
    if bad(a) or bad(b):
        return NAN
    if a.q is not None and b.q is not None:
        return exact(a.q * b.q)
    n = nanj(a, b)
    for x, y in ((a, b), (b, a)):
        if x.q == 0:
            if abs(y.lo) == INF and y.lo == y.hi:
                return NAN
            if y.lo == -INF or y.hi == INF:
                return V(mpf(0), mpf(0), Fraction(0), max(n, 1))
            return V(mpf(0), mpf(0), Fraction(0), n)
        if x.lo <= 0 <= x.hi and (y.lo == -INF or y.hi == INF):
            n = max(n, 1)
    ps = [_m(a.lo, b.lo), _m(a.lo, b.hi), _m(a.hi, b.lo), _m(a.hi, b.hi)]
    v = widen(min(ps), max(ps), n)
    for x, y in ((a, b), (b, a)):
        if x.l is not None and y.q is not None and y.q.denominator == 1 and abs(y.q) * (x.l.numerator.bit_length() + x.l.denominator.bit_length()) <= 2 * MAXBITS:
            return log_of(v, x.l ** int(y.q))
    return v


def div(a, b):
    if bad(a) or bad(b):
        return NAN
    n = nanj(a, b)
    if b.q is not None and b.q == 0:
        # IEEE: the zeros that occur are positive unless they were negated (see DESIGN)
        if a.q is not None and a.q == 0:
            return NAN
        if a.lo > 0:
            return V(INF, INF, None, n)
        if a.hi < 0:
            return V(-INF, -INF, None, n)
        return V(-INF, INF, None, 1)
    if a.q is not None and b.q is not None:
        return exact(a.q / b.q)
    if b.lo <= 0 <= b.hi:
        return V(-INF, INF, None, 1)
    if (a.hi == INF or a.lo == -INF) and (b.hi == INF or b.lo == -INF):
        if abs(a.lo) == INF and a.lo == a.hi and abs(b.lo) == INF and b.lo == b.hi:
            return NAN
        return V(-INF, INF, None, 1)

    def d(x, y):
        if abs(y) == INF:
            return mpf(0)
        return x / y
    if a.q is not None and a.q == 0:
        return V(mpf(0), mpf(0), Fraction(0), n)
    ps = [d(a.lo, b.lo), d(a.lo, b.hi), d(a.hi, b.lo), d(a.hi, b.hi)]
    return widen(min(ps), max(ps), n)


def hull(a, b):
    if bad(a) and bad(b):
        return NAN
    if bad(a):
        return V(b.lo, b.hi, None, 1)
    if bad(b):
        return V(a.lo, a.hi, None, 1)
    if a.q is not None and a.q == b.q:
        return a
    return V(min(a.lo, b.lo), max(a.hi, b.hi), None, nanj(a, b))


def lt(a, b):
    if bad(a) or bad(b):
        return False
    if a.q is not None and b.q is not None:
        return a.q < b.q
    if a.hi < b.lo:
        return None if nanj(a, b) else True
    if a.lo >= b.hi:
        return False
    return None


def le(a, b):
    if bad(a) or bad(b):
        return False
    if a.q is not None and b.q is not None:
        return a.q <= b.q
    if a.hi <= b.lo:
        return None if nanj(a, b) else True
    if a.lo > b.hi:
        return False
    return None


def eq(a, b):
    if bad(a) or bad(b):
        return False
    if a.q is not None and b.q is not None:
        return a.q == b.q
    if a.hi < b.lo or b.hi < a.lo:
        return False
    if a.lo == a.hi == b.lo == b.hi and abs(a.lo) == INF:
        return None if nanj(a, b) else True
    return None


def mono(f, a, nan=0):
    return widen(f(a.lo), f(a.hi), max(nan, a.nan))


def exp(a):
    if bad(a):
        return NAN
    if a.q == 0:
        return ONE
    if a.l is not None:
        return exact(a.l)
    lo = mpf(0) if a.lo == -INF else mp.exp(a.lo)
    hi = mpf(0) if a.hi == -INF else mp.exp(a.hi)
    return widen(lo, hi, a.nan)


def expm1(a):
    if bad(a):
        return NAN
    if a.q == 0:
        return ZERO
    if a.l is not None:
        return exact(a.l - 1)
    f = lambda t: mpf(-1) if t == -INF else (t if t == INF else mp.expm1(t))
    return mono(f, a)


def _ln(t):
    if t == 0:
        return -INF
    if t == INF:
        return INF
    return mp.log(t)


def ln(a):
    if bad(a):
        return NAN
    if a.q == 1:
        return ZERO
    if a.hi < 0:
        return NAN
    n = a.nan
    lo = a.lo
    if lo < 0:
        lo, n = mpf(0), 1
    return log_of(widen(_ln(lo), _ln(a.hi), n), a.q if a.q is not None and a.q > 0 else None)


def ln1p(a):
    if bad(a):
        return NAN
    if a.q == 0:
        return ZERO
    if a.hi < -1:
        return NAN
    n = a.nan
    lo = a.lo
    if lo < -1:
        lo, n = mpf(-1), 1
    f = lambda t: -INF if t == -1 else (INF if t == INF else mp.log1p(t))
    return log_of(widen(f(lo), f(a.hi), n), 1 + a.q if a.q is not None and a.q > -1 else None)


def sqrt(a):
    if bad(a) or a.hi < 0:
        return NAN
    if a.q is not None and a.q >= 0:
        import math
        n, d = math.isqrt(a.q.numerator), math.isqrt(a.q.denominator)
        if n * n == a.q.numerator and d * d == a.q.denominator:
            return exact(Fraction(n, d))
    n = a.nan
    lo = a.lo
    if lo < 0:
        lo, n = mpf(0), 1
    return widen(mp.sqrt(lo), mp.sqrt(a.hi), n)


def absv(a):
    if bad(a):
        return NAN
    if a.q is not None:
        return exact(abs(a.q))
    if a.lo >= 0:
        return a
    if a.hi <= 0:
        return neg(a)
    return V(mpf(0), max(-a.lo, a.hi), None, a.nan)


def powi(a, k):
    if bad(a):
        return NAN
    if k == 0:
        return ONE
    if k < 0:
        return div(ONE, powi(a, -k))
    if a.q is not None:
        return exact(a.q ** k)
    if k % 2:
        return widen(a.lo ** k, a.hi ** k, a.nan)
    b = absv(a)
    return widen(b.lo ** k, b.hi ** k, a.nan)


def powf(a, b):
    if bad(a) or bad(b):
        return NAN
    if b.q is not None and b.q.denominator == 1 and abs(b.q) < 10**6:
        return powi(a, int(b.q))
    if b.q == 0:
        return ONE
    if b.q == Fraction(1, 2):
        return sqrt(a)
    if a.q is not None and a.q == 0:
        if b.lo > 0:
            return ZERO
        if b.hi < 0:
            return V(INF)
        return V(mpf(0), INF, None, 1)
    if a.hi < 0:
        return NAN
    if a.lo == 0 and a.hi > 0 and b.lo > 0:
        h = exp(mul(b, ln(V(a.hi))))
        return V(mpf(0), h.hi, None, nanj(a, b))
    return exp(mul(b, ln(a)))


def minv(a, b):
    if bad(a):
        return b
    if bad(b):
        return a
    if a.q is not None and b.q is not None:
        return a if a.q <= b.q else b
    return V(min(a.lo, b.lo), min(a.hi, b.hi), None, nanj(a, b))


def maxv(a, b):
    return neg(minv(neg(a), neg(b)))


def to32(q):
    """the single-precision number nearest to a rational"""
    if q == 0:
        return q
    e = 0
    a = abs(Fraction(q))
    e = a.numerator.bit_length() - a.denominator.bit_length() - 1
    while Fraction(2) ** (e + 1) <= a:
        e += 1
    s = Fraction(2) ** (max(e, -126) - 23)
    r = round(a / s) * s
    return r if q > 0 else -r


def _int(t, kind):
    if abs(t) == INF:
        return t
    if kind == 'f32':
        s, m, e, _ = t._mpf_
        r = to32(Fraction(-m if s else m) * Fraction(2) ** e)
        return mpf(r.numerator) / mpf(r.denominator)
    if kind == 'floor':
        return mp.floor(t)
    if kind == 'ceil':
        return mp.ceil(t)
    if kind == 'trunc':
        return mp.floor(t) if t >= 0 else mp.ceil(t)
    return mp.floor(abs(t) + mpf(1) / 2) * (1 if t >= 0 else -1)      # round half away from zero


def rounding(a, kind):
    if bad(a):
        return NAN
    if a.q is not None:
        import math
        q = a.q
        if kind == 'floor':
            return exact(math.floor(q))
        if kind == 'ceil':
            return exact(math.ceil(q))
        if kind == 'trunc':
            return exact(math.trunc(q))
        if kind == 'f32':
            return exact(to32(q))
        return exact(math.floor(abs(q) + Fraction(1, 2)) * (1 if q >= 0 else -1))
    lo, hi = _int(a.lo, kind), _int(a.hi, kind)
    if lo == hi and abs(lo) != INF and a.nan == 0 and kind != 'f32':
        return exact(int(lo))
    return V(lo, hi, None, a.nan)


def atan(a):
    if bad(a):
        return NAN
    if a.q == 0:
        return ZERO
    return mono(mp.atan, a)


def tan(a):
    if bad(a):
        return NAN
    if a.q == 0:
        return ZERO
    h = mp.pi / 2
    if a.lo <= -h or a.hi >= h:
        k = mp.floor((a.lo + h) / mp.pi)
        if a.lo - k * mp.pi > -h and a.hi - k * mp.pi < h:
            return mono(mp.tan, a)
        return V(-INF, INF, None, a.nan)
    return mono(mp.tan, a)


def sin(a):
    if bad(a):
        return NAN
    if a.hi - a.lo > 1:
        return V(mpf(-1), mpf(1), None, a.nan)
    w = a.hi - a.lo
    s = [mp.sin(a.lo), mp.sin(a.hi)]
    return V(max(mpf(-1), min(s) - w - EPS), min(mpf(1), max(s) + w + EPS), None, a.nan)


def cos(a):
    return sin(add(a, pi() / 2))


def pi():
    p = +mp.pi
    return widen(p, p)


def e_():
    p = mp.e + 0
    return widen(p, p)


def erf(a):
    if bad(a):
        return NAN
    if a.q == 0:
        return ZERO
    f = lambda t: mpf(1) if t == INF else (mpf(-1) if t == -INF else mp.erf(t))
    return mono(f, a)


def digamma(a):
    if bad(a) or a.hi <= 0:
        return NAN
    if a.lo <= 0:
        return V(-INF, INF, None, 1)
    if a.hi == INF:
        return V(mp.digamma(a.lo), INF, None, a.nan)
    return mono(mp.digamma, a)


LGMIN = mpf('1.46163214496836234126265954233')


def lngamma(a):
    if bad(a) or a.hi <= 0:
        return NAN
    if a.lo <= 0:
        return V(-INF, INF, None, 1)
    if a.q is not None and a.q in (1, 2):
        return ZERO
    f = lambda t: INF if t == INF else mp.loggamma(t)
    x, y = f(a.lo), f(a.hi)
    lo, hi = min(x, y), max(x, y)
    if a.lo <= LGMIN <= a.hi:
        lo = min(lo, mpf('-0.1214862905358496080956'))
    d = mpf(2) ** -120
    return V(lo - d, hi + d, None, a.nan)


def lnbeta(a, b):
    if bad(a) or bad(b) or a.hi <= 0 or b.hi <= 0:
        return NAN
    if a.lo <= 0 or b.lo <= 0:
        return V(-INF, INF, None, 1)

    def f(x, y):
        if x == INF or y == INF:
            return -INF
        big, small = max(x, y), min(x, y)
        # loggamma loses digits for huge arguments; use extra precision
        with mp.workprec(mp.prec + max(0, int(mp.log(big + 2, 2)) * 2)):
            return mp.loggamma(x) + mp.loggamma(y) - mp.loggamma(x + y)
    lo, hi = f(a.hi, b.hi), f(a.lo, b.lo)
    d = mpf(2) ** -110
    return V(lo - d, hi + d, None, nanj(a, b))


_cache = {}


def _betainc(a, b, x):
    if x <= 0:
        return mpf(0)
    if x >= 1:
        return mpf(1)
    k = (a, b, x)
    r = _cache.get(k)
    if r is None:
        with mp.workprec(130):
            if max(a, b) > 3000:
                raise Undecided()
            try:
                # the smaller tail, to keep full relative accuracy
                if x * (a + b) <= a:
                    r = mp.betainc(a, b, 0, x, regularized=True)
                else:
                    r = 1 - mp.betainc(b, a, 0, 1 - x, regularized=True)
            except (ValueError, mpmath.NoConvergence):
                raise Undecided()
        r = +r
        _cache[k] = r
    return r


def incbeta(x, a, b):
    if bad(x) or bad(a) or bad(b):
        return NAN
    if x.hi < 0 or x.lo > 1 or a.hi <= 0 or b.hi <= 0:
        return NAN
    if x.q == 0:
        return ZERO
    if x.q == 1:
        return ONE
    n = nanj(x, a, b)
    if a.lo <= 0 or b.lo <= 0:
        return V(mpf(0), mpf(1), None, 1)
    if x.lo < 0 or x.hi > 1:
        n = max(n, 1)
    lo = _betainc(a.hi, b.lo, x.lo)
    hi = _betainc(a.lo, b.hi, x.hi)
    d = mpf(2) ** -100
    return V(lo * (1 - d), hi * (1 + d), None, n)


def invincbeta(p, a, b):
    if bad(p) or bad(a) or bad(b) or p.hi < 0 or p.lo > 1:
        return NAN
    if p.q == 0:
        return ZERO
    if p.q == 1:
        return ONE

    def f(pp, aa, bb):
        if pp <= 0:
            return mpf(0)
        if pp >= 1:
            return mpf(1)
        k = ('inv', pp, aa, bb)
        if k in _cache:
            return _cache[k]
        lo, hi = mpf(0), mpf(1)
        with mp.workprec(100):
            # bisection on the logarithmic scale near the ends, then Newton
            x = aa / (aa + bb)
            for i in range(400):
                c = _betainc(aa, bb, x) - pp
                if c > 0:
                    hi = x
                else:
                    lo = x
                d = mp.exp((aa - 1) * mp.log(x) + (bb - 1) * mp.log(1 - x) - mp.log(mp.beta(aa, bb)))
                nx = x - c / d if d else lo
                if not (lo < nx < hi):
                    nx = (lo + hi) / 2
                    if lo == 0 and i > 5:
                        nx = hi * mpf(2) ** -(i)
                if abs(nx - x) <= abs(x) * mpf(2) ** -80:
                    x = nx
                    break
                x = nx
            else:
                raise Undecided()
        _cache[k] = x
        return x
    d = mpf(2) ** -70
    lo, hi = f(p.lo, a.lo, b.hi), f(p.hi, a.hi, b.lo)
    return V(lo * (1 - d), min(mpf(1), hi * (1 + d)), None, nanj(p, a, b))


def incgamma(x, p):
    if bad(x) or bad(p) or x.hi < 0 or p.hi <= 0:
        return NAN
    if x.q == 0:
        return ZERO
    n = nanj(x, p)
    if p.lo <= 0 or x.lo < 0:
        return V(mpf(0), mpf(1), None, 1)

    def f(xx, pp):
        if xx == INF:
            return mpf(1)
        if xx == 0:
            return mpf(0)
        if pp > 3000 or xx > 1e7:
            raise Undecided()
        k = ('g', xx, pp)
        if k not in _cache:
            with mp.workprec(130):
                try:
                    _cache[k] = mp.gammainc(pp, 0, xx, regularized=True)
                except (ValueError, mpmath.NoConvergence):
                    raise Undecided()
        return _cache[k]
    d = mpf(2) ** -100
    return V(f(x.lo, p.hi) * (1 - d), f(x.hi, p.lo) * (1 + d), None, n)


def normquantile(p):
    """the standard Gaussian quantile"""
    if bad(p) or p.hi < 0 or p.lo > 1:
        return NAN
    if p.q == 0:
        return V(-INF)
    if p.q == 1:
        return V(INF)
    if p.q == Fraction(1, 2):
        return ZERO

    def f(t):
        if t <= 0:
            return -INF
        if t >= 1:
            return INF
        k = ('nq', t)
        if k in _cache:
            return _cache[k]
        with mp.workprec(220):
            if t > mpf(1) / 2:
                s, tt = -1, 1 - t
            else:
                s, tt = 1, +t
            # solve Phi(z) = tt with z <= 0 by Newton on ln Phi
            L = mp.log(tt)
            z = -mp.sqrt(-2 * L) if tt < mpf('0.1') else (tt - mpf(1) / 2) * mp.sqrt(2 * mp.pi)
            for _ in range(200):
                P = mp.erfc(-z / mp.sqrt(2)) / 2
                d = (mp.log(P) - L) * P / (mp.exp(-z * z / 2) / mp.sqrt(2 * mp.pi))
                z -= d
                if abs(d) < mpf(2) ** -170:
                    break
            r = s * z
        _cache[k] = r
        return r
    d = mpf(2) ** -140
    a, b = f(p.lo), f(p.hi)
    return V(a - abs(a) * d if mpmath.isfinite(a) else a, b + abs(b) * d if mpmath.isfinite(b) else b, None, p.nan)


def distance(a, b):
    """lower and upper bounds of |a - b|; infinities of the same sign are at distance 0"""
    if bad(a) and bad(b):
        return mpf(0), mpf(0)
    if bad(a) or bad(b):
        return INF, INF
    if abs(a.lo) == INF and a.lo == a.hi == b.lo == b.hi:
        return mpf(0), mpf(0)
    d = sub(a, b)
    d = absv(d)
    if bad(d):
        return mpf(0), INF
    return d.lo, d.hi


def compare(a, b, rel=mpf(10) ** -9, tiny=mpf(10) ** -300):
    """'eq' surely within tolerance, 'ne' surely outside, 'unk' otherwise"""
    if a.nan == 2 and b.nan == 2:
        return 'eq'
    if a.nan == 2 or b.nan == 2:
        return 'unk' if (a.nan == 1 or b.nan == 1) else 'ne'
    if nanj(a, b):
        return 'unk'
    dl, dh = distance(a, b)
    mags = [abs(x) for x in (a.lo, a.hi, b.lo, b.hi)]
    mh = max(mags)
    ml = max(min(abs(b.lo), abs(b.hi)) if b.lo * b.hi > 0 else mpf(0), mpf(0))
    if dh <= rel * ml + tiny:
        return 'eq'
    if mh == INF:
        if dl == INF:
            return 'ne'
        if dl > 0 and (abs(a.lo) == INF and a.lo == a.hi or abs(b.lo) == INF and b.lo == b.hi):
            return 'ne'
        return 'unk'
    if dl > rel * mh + tiny:
        return 'ne'
    return 'unk'
