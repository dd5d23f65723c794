"""Reference definitions of the laws (textbook formulas), over the algebra of alg.py."""
from fractions import Fraction as Fr
import math
from . import ra
from .ra import Undecided
from .alg import *
from .alg import floor as ifloor

THIRD = Fr(1, 3)


class Skip(Exception):
    """no claim at this point (e.g. the derivative does not exist there)"""


def gauss_cdf(z):
    return (1 + erf(z / sqrt(lift(2)))) / 2


class Law:
    discrete = False

    def deviation(self):
        return sqrt(self.variance())

    def support(self):
        return self.lo, self.hi


class Bernoulli(Law):
    discrete = True
    ints = 'u8'

    def __init__(s, p, q=None):
        s.p, s.q = p, (1 - p if q is None else q)
        s.lo, s.hi = ZERO, ONE

    @classmethod
    def with_failure(c, q):
        return c(1 - q, q)

    def mass(s, k):
        return s.q if k == 0 else s.p if k == 1 else ZERO

    def cdf(s, x):
        if x < 0:
            return ZERO
        return s.q if x < 1 else ONE

    def inverse(s, p):
        return 0 if p <= s.q else 1

    def entropy(s):
        return -s.q * ln(s.q) - s.p * ln(s.p)

    def mean(s): return s.p
    def variance(s): return s.p * s.q
    def skewness(s): return (1 - 2 * s.p) / sqrt(s.p * s.q)
    def kurtosis(s): return (1 - 6 * s.p * s.q) / (s.p * s.q)

    def median(s):
        if s.p < s.q:
            return ZERO
        return ONE if s.q < s.p else HALF

    def modes(s):
        if s.p < s.q:
            return [0]
        return [1] if s.q < s.p else [0, 1]


class BetaBase(Law):
    def z(s, x):
        return (x - s.lo) / (s.hi - s.lo)

    def cdf(s, x):
        if x <= s.lo:
            return ZERO
        if x >= s.hi:
            return ONE
        return incbeta(s.z(x), s.al, s.be)

    def density(s, x):
        if x < s.lo or x > s.hi:
            return ZERO
        if x.eq(s.lo):
            if s.al > 1:
                return ZERO
            raise Skip()
        if x.eq(s.hi):
            if s.be > 1:
                return ZERO
            raise Skip()
        z = s.z(x)
        return exp((s.al - 1) * ln(z) + (s.be - 1) * ln(1 - z) - lnbeta(s.al, s.be)) / (s.hi - s.lo)

    def inverse(s, p):
        if p.eq(0):
            return s.lo
        if p.eq(1):
            return s.hi
        return s.lo + (s.hi - s.lo) * invincbeta(p, s.al, s.be)

    def entropy(s):
        t = s.al + s.be
        return (ln(s.hi - s.lo) + lnbeta(s.al, s.be) - (s.al - 1) * digamma(s.al) - (s.be - 1) * digamma(s.be)
                + (t - 2) * digamma(t))

    def mean(s):
        return s.lo + (s.hi - s.lo) * s.al / (s.al + s.be)

    def variance(s):
        t = s.al + s.be
        return (s.hi - s.lo) ** 2 * s.al * s.be / (t ** 2 * (t + 1))

    def skewness(s):
        t = s.al + s.be
        return 2 * (s.be - s.al) * sqrt(t + 1) / ((t + 2) * sqrt(s.al * s.be))

    def kurtosis(s):
        a, b = s.al, s.be
        t = a + b
        return 6 * ((a - b) ** 2 * (t + 1) - a * b * (t + 2)) / (a * b * (t + 2) * (t + 3))


class Beta(BetaBase):
    def __init__(s, al, be, a, b):
        s.al, s.be, s.lo, s.hi = al, be, a, b

    def median(s):
        if s.al.eq(s.be):
            return (s.lo + s.hi) / 2
        if s.al > 1 and s.be > 1:
            return s.lo + (s.hi - s.lo) * (s.al - THIRD) / (s.al + s.be - 2 * THIRD)
        return s.inverse(HALF)

    def modes(s):
        a1, b1 = s.al.eq(1), s.be.eq(1)
        if a1 and b1:
            return []
        if s.al > 1 and s.be > 1:
            return [s.lo + (s.hi - s.lo) * (s.al - 1) / (s.al + s.be - 2)]
        if s.al < 1 and s.be < 1:
            return [s.lo, s.hi]
        return [s.lo] if s.al < s.be else [s.hi]


class Pert(BetaBase):
    def __init__(s, a, b, c):
        s.lo, s.hi, s.m = a, c, b
        s.al = 1 + 4 * (b - a) / (c - a)
        s.be = 1 + 4 * (c - b) / (c - a)

    def median(s): return s.inverse(HALF)
    def modes(s): return [s.m]
    def mean(s): return (s.lo + 4 * s.m + s.hi) / 6


class Binomial(Law):
    discrete = True
    ints = 'usize'

    def __init__(s, n, p, q=None):
        s.n, s.p, s.q = int(n.v.q), p, (1 - p if q is None else q)
        s.N = n
        s.lo, s.hi = ZERO, lift(s.n)

    @classmethod
    def with_failure(c, n, q):
        return c(n, 1 - q, q)

    def mass(s, k):
        if k < 0 or k > s.n:
            return ZERO
        if s.n <= 400:
            return math.comb(s.n, k) * s.p ** k * s.q ** (s.n - k)
        n1, k1 = lift(s.n + 1), lift(k + 1)
        if s.n < 2 ** 60:
            c = lngamma(n1) - lngamma(k1) - lngamma(lift(s.n - k + 1))
            return exp(c + k * ln(s.p) + (s.n - k) * ln(s.q))
        raise Undecided()

    def cdfk(s, k):
        if k < 0:
            return ZERO
        if k >= s.n:
            return ONE
        if k == 0:
            return s.q ** s.n if s.n < 5000 else exp(s.n * ln(s.q))
        if s.n <= 64:
            t = ZERO
            for i in range(k + 1):
                t = t + s.mass(i)
            return t
        return incbeta(X(s.q.v), lift(s.n - k), lift(k + 1))

    def cdf(s, x):
        if x < 0:
            return ZERO
        if x >= s.n:
            return ONE
        return s.cdfk(ifloor(x))

    def inverse(s, p):
        if p.eq(0):
            return 0
        if p.eq(1):
            return s.n
        lo, hi = 0, s.n
        while lo < hi:
            m = (lo + hi) // 2
            if p <= s.cdfk(m):
                hi = m
            else:
                lo = m + 1
        return lo

    def entropy(s):
        t = ZERO
        for k in range(s.n + 1):
            m = s.mass(k)
            t = t - m * ln(m)
        return t

    def mean(s): return s.N * s.p
    def variance(s): return s.N * s.p * s.q
    def skewness(s): return (1 - 2 * s.p) / sqrt(s.N * s.p * s.q)
    def kurtosis(s): return (1 - 6 * s.p * s.q) / (s.N * s.p * s.q)

    def median(s):
        if s.p.eq(HALF) and s.n % 2:
            return lift(Fr(s.n, 2))
        m = s.mean()
        k = ra.rounding(m.v, 'floor')
        if k.q is None:
            raise Undecided()
        k = int(k.q)
        for j in (k - 1, k, k + 1):
            if j >= 0 and HALF <= s.cdfk(j):
                return lift(j)
        return lift(k + 2)

    def modes(s):
        r = X((lift(s.n + 1) * s.p).v)
        k = ra.rounding(r.v, 'floor')
        if k.q is None:
            raise Undecided()
        k = int(k.q)
        if r.eq(k):
            return [k - 1, k]
        return [k]


class Categorical(Law):
    discrete = True
    ints = 'usize'

    def __init__(s, p):
        s.w = list(p)
        s.k = len(s.w)
        s.pos = [i for i in range(s.k) if not s.w[i].v.q == 0]
        s.lo, s.hi = lift(s.pos[0]), lift(s.pos[-1])

    def mass(s, k):
        if k >= s.k:
            raise Skip()          # no category: outside of the precondition of the mass
        return s.w[k]

    def cdfk(s, k):
        if k < 0:
            return ZERO
        if k >= s.pos[-1]:
            return ONE
        t = ZERO
        for i in range(k + 1):
            t = t + s.w[i]
        return t

    def cdf(s, x):
        if x < 0:
            return ZERO
        if x >= s.k:
            return ONE
        return s.cdfk(ifloor(x))

    def inverse(s, p):
        for k in s.pos:
            if p <= s.cdfk(k):
                return k
        return s.pos[-1]

    def entropy(s):
        t = ZERO
        for i in s.pos:
            t = t - s.w[i] * ln(s.w[i])
        return t

    def mean(s):
        t = ZERO
        for i in range(s.k):
            t = t + i * s.w[i]
        return t

    def central(s, r):
        m = s.mean()
        t = ZERO
        for i in range(s.k):
            t = t + (i - m) ** r * s.w[i]
        return t

    def variance(s): return s.central(2)
    def skewness(s): return s.central(3) / (s.variance() * sqrt(s.variance()))
    def kurtosis(s): return s.central(4) / s.variance() ** 2 - 3

    def median(s):
        for j, k in enumerate(s.pos):
            c = s.cdfk(k)
            if c.eq(HALF):
                return lift(Fr(k + s.pos[j + 1], 2))
            if HALF < c:
                return lift(k)

    def modes(s):
        best = [s.pos[0]]
        for i in s.pos[1:]:
            if s.w[i].v is s.w[best[0]].v or s.w[i].eq(s.w[best[0]]):
                best.append(i)
            elif s.w[i] > s.w[best[0]]:
                best = [i]
        return best


class Cauchy(Law):
    lo, hi = NINF, INF

    def __init__(s, x0, g): s.m, s.g = x0, g
    def cdf(s, x): return HALF + atan((x - s.m) / s.g) / PI
    def density(s, x): return 1 / (PI * s.g * (1 + ((x - s.m) / s.g) ** 2))

    def inverse(s, p):
        if p.eq(0):
            return NINF
        if p.eq(1):
            return INF
        return s.m + s.g * tan(PI * (p - HALF))

    def entropy(s): return ln(4 * PI * s.g)
    def median(s): return s.m
    def modes(s): return [s.m]


class Exponential(Law):
    lo, hi = ZERO, INF

    def __init__(s, l): s.l = l

    def cdf(s, x):
        if x <= 0:
            return ZERO
        return -expm1(-s.l * x)

    def density(s, x):
        if x.eq(0):
            raise Skip()
        if x < 0:
            return ZERO
        return s.l * exp(-s.l * x)

    def inverse(s, p):
        if p.eq(0):
            return ZERO
        if p.eq(1):
            return INF
        return -ln1p(-p) / s.l

    def entropy(s): return 1 - ln(s.l)
    def mean(s): return 1 / s.l
    def variance(s): return 1 / s.l ** 2
    def deviation(s): return 1 / s.l
    def skewness(s): return lift(2)
    def kurtosis(s): return lift(6)
    def median(s): return LN2 / s.l
    def modes(s): return [ZERO]


class Gamma(Law):
    lo, hi = ZERO, INF

    def __init__(s, k, t): s.k, s.t = k, t

    def cdf(s, x):
        if x <= 0:
            return ZERO
        return incgamma(x / s.t, s.k)

    def density(s, x):
        if x.eq(0):
            if s.k > 1:
                return ZERO
            raise Skip()
        if x < 0:
            return ZERO
        return exp((s.k - 1) * ln(x) - x / s.t - lngamma(s.k) - s.k * ln(s.t))

    def entropy(s): return s.k + ln(s.t) + lngamma(s.k) + (1 - s.k) * digamma(s.k)
    def mean(s): return s.k * s.t
    def variance(s): return s.k * s.t ** 2
    def skewness(s): return 2 / sqrt(s.k)
    def kurtosis(s): return 6 / s.k

    def modes(s):
        if s.k >= 1:
            return [(s.k - 1) * s.t]
        return []


class Gaussian(Law):
    lo, hi = NINF, INF

    def __init__(s, m, d): s.m, s.d = m, d
    def cdf(s, x): return gauss_cdf((x - s.m) / s.d)
    def density(s, x): return exp(-((x - s.m) / s.d) ** 2 / 2) / (s.d * sqrt(2 * PI))

    def inverse(s, p):
        if p.eq(0):
            return NINF
        if p.eq(1):
            return INF
        return s.m + s.d * normquantile(p)

    def entropy(s): return (ln(2 * PI) + 1) / 2 + ln(s.d)
    def mean(s): return s.m
    def variance(s): return s.d ** 2
    def deviation(s): return s.d
    def skewness(s): return ZERO
    def kurtosis(s): return ZERO
    def median(s): return s.m
    def modes(s): return [s.m]


class Laplace(Law):
    lo, hi = NINF, INF

    def __init__(s, m, b): s.m, s.b = m, b

    def cdf(s, x):
        if x <= s.m:
            return exp((x - s.m) / s.b) / 2
        return 1 - exp(-(x - s.m) / s.b) / 2

    def density(s, x):
        if x.eq(s.m):
            return 1 / (2 * s.b)
        if x < s.m:
            return exp((x - s.m) / s.b) / (2 * s.b)
        return exp((s.m - x) / s.b) / (2 * s.b)

    def inverse(s, p):
        if p.eq(0):
            return NINF
        if p.eq(1):
            return INF
        if p <= HALF:
            return s.m + s.b * ln(2 * p)
        return s.m - s.b * ln(2 * (1 - p))

    def entropy(s): return 1 + ln(2 * s.b)
    def mean(s): return s.m
    def variance(s): return 2 * s.b ** 2
    def deviation(s): return sqrt(lift(2)) * s.b
    def skewness(s): return ZERO
    def kurtosis(s): return lift(3)
    def median(s): return s.m
    def modes(s): return [s.m]


class Logistic(Law):
    lo, hi = NINF, INF

    def __init__(s, m, b): s.m, s.s = m, b
    def cdf(s, x): return 1 / (1 + exp(-(x - s.m) / s.s))

    def density(s, x):
        # symmetric, so that the enclosure does not overflow
        if x < s.m:
            e = exp((x - s.m) / s.s)
        else:
            e = exp(-(x - s.m) / s.s)
        return e / (s.s * (1 + e) ** 2)

    def inverse(s, p):
        if p.eq(0):
            return NINF
        if p.eq(1):
            return INF
        return s.m + s.s * (ln(p) - ln(1 - p))

    def entropy(s): return ln(s.s) + 2
    def mean(s): return s.m
    def variance(s): return s.s ** 2 * PI ** 2 / 3
    def skewness(s): return ZERO
    def kurtosis(s): return lift(Fr(6, 5))
    def median(s): return s.m
    def modes(s): return [s.m]


class Lognormal(Law):
    lo, hi = ZERO, INF

    def __init__(s, m, d): s.m, s.d = m, d

    def cdf(s, x):
        if x <= 0:
            return ZERO
        return gauss_cdf((ln(x) - s.m) / s.d)

    def density(s, x):
        if x <= 0:
            return ZERO
        return exp(-((ln(x) - s.m) / s.d) ** 2 / 2) / (x * s.d * sqrt(2 * PI))

    def inverse(s, p):
        if p.eq(0):
            return ZERO
        if p.eq(1):
            return INF
        return exp(s.m + s.d * normquantile(p))

    def entropy(s): return s.m + HALF + ln(s.d) + ln(2 * PI) / 2
    def mean(s): return exp(s.m + s.d ** 2 / 2)
    def variance(s): return expm1(s.d ** 2) * exp(2 * s.m + s.d ** 2)
    def skewness(s): return (exp(s.d ** 2) + 2) * sqrt(expm1(s.d ** 2))
    def kurtosis(s): return exp(4 * s.d ** 2) + 2 * exp(3 * s.d ** 2) + 3 * exp(2 * s.d ** 2) - 6
    def median(s): return exp(s.m)
    def modes(s): return [exp(s.m - s.d ** 2)]


class Triangular(Law):
    def __init__(s, a, b, c):
        s.lo, s.hi, s.c = a, b, c

    def density(s, x):
        a, b, c = s.lo, s.hi, s.c
        if x < a or x > b:
            return ZERO
        if x.eq(a):
            if a < c:
                return ZERO
            raise Skip()
        if x.eq(b):
            if c < b:
                return ZERO
            raise Skip()
        if x < c:
            return 2 * (x - a) / ((b - a) * (c - a))
        if x > c:
            return 2 * (b - x) / ((b - a) * (b - c))
        return 2 / (b - a)

    def cdf(s, x):
        a, b, c = s.lo, s.hi, s.c
        if x <= a:
            return ZERO
        if x >= b:
            return ONE
        if x <= c:
            return (x - a) ** 2 / ((b - a) * (c - a))
        return 1 - (b - x) ** 2 / ((b - a) * (b - c))

    def inverse(s, p):
        a, b, c = s.lo, s.hi, s.c
        if p.eq(0):
            return a
        if p.eq(1):
            return b
        p0 = (c - a) / (b - a)
        if p <= p0:
            return a + sqrt(p * (b - a) * (c - a))
        return b - sqrt((1 - p) * (b - a) * (b - c))

    def entropy(s): return HALF + ln((s.hi - s.lo) / 2)
    def mean(s): return (s.lo + s.hi + s.c) / 3

    def variance(s):
        a, b, c = s.lo, s.hi, s.c
        return ((b - a) ** 2 + (c - a) ** 2 + (b - c) ** 2) / 36

    def skewness(s):
        a, b, c = s.lo, s.hi, s.c
        # sqrt(2) (a+b-2c) (2a-b-c) (a-2b+c) / (5 (a²+b²+c²-ab-ac-bc)^(3/2)), translation-invariant
        w = ((b - a) ** 2 + (c - a) ** 2 + (b - c) ** 2) / 2
        n = ((b - c) - (c - a)) * (-((b - a) + (c - a))) * (-((b - a) + (b - c)))
        return sqrt(lift(2)) * n / (5 * w * sqrt(w))

    def kurtosis(s): return lift(Fr(-3, 5))

    def median(s):
        a, b, c = s.lo, s.hi, s.c
        if c >= (a + b) / 2:
            return a + sqrt((b - a) * (c - a) / 2)
        return b - sqrt((b - a) * (b - c) / 2)

    def modes(s): return [s.c]


class Uniform(Law):
    def __init__(s, a, b): s.lo, s.hi = a, b

    def cdf(s, x):
        if x <= s.lo:
            return ZERO
        if x >= s.hi:
            return ONE
        return (x - s.lo) / (s.hi - s.lo)

    def density(s, x):
        if x.eq(s.lo) or x.eq(s.hi):
            raise Skip()
        if x < s.lo or x > s.hi:
            return ZERO
        return 1 / (s.hi - s.lo)

    def inverse(s, p): return s.lo + (s.hi - s.lo) * p
    def entropy(s): return ln(s.hi - s.lo)
    def mean(s): return (s.lo + s.hi) / 2
    def variance(s): return (s.hi - s.lo) ** 2 / 12
    def skewness(s): return ZERO
    def kurtosis(s): return lift(Fr(-6, 5))
    def median(s): return (s.lo + s.hi) / 2


LAWS = {
    'bernoulli::Bernoulli': Bernoulli, 'beta::Beta': Beta, 'binomial::Binomial': Binomial,
    'categorical::Categorical': Categorical, 'cauchy::Cauchy': Cauchy, 'exponential::Exponential': Exponential,
    'gamma::Gamma': Gamma, 'gaussian::Gaussian': Gaussian, 'laplace::Laplace': Laplace,
    'logistic::Logistic': Logistic, 'lognormal::Lognormal': Lognormal, 'pert::Pert': Pert,
    'triangular::Triangular': Triangular, 'uniform::Uniform': Uniform,
}
