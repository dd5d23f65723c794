"""Reference algebra: a textbook formula written once yields both an enclosure over a box (V) and,
where it has one, a symbolic expression over the same symbols (N) for the normal-form prover."""
from fractions import Fraction
import math
from . import ra
from .ra import V, Undecided
from .graph import *
from .graph import call as fcall


def q2n(x):
    q = Fraction(x)
    if q.denominator == 1:
        return F(float(q)) if abs(q) < 2 ** 53 else None
    return fop('div', F(float(q.numerator)), F(float(q.denominator)))


class X:
    __slots__ = ('v', 'n')

    def __init__(self, v, n=None):
        self.v, self.n = v, n

    def __repr__(self):
        return repr(self.v)

    def __add__(self, o): return op2(ra.add, 'add', self, o)
    def __radd__(self, o): return op2(ra.add, 'add', lift(o), self)
    def __sub__(self, o): return op2(ra.sub, 'sub', self, o)
    def __rsub__(self, o): return op2(ra.sub, 'sub', lift(o), self)
    def __mul__(self, o): return op2(ra.mul, 'mul', self, o)
    def __rmul__(self, o): return op2(ra.mul, 'mul', lift(o), self)
    def __truediv__(self, o): return op2(ra.div, 'div', self, o)
    def __rtruediv__(self, o): return op2(ra.div, 'div', lift(o), self)
    def __neg__(self): return X(ra.neg(self.v), None if self.n is None else fneg(self.n))
    def __pow__(self, k): return X(ra.powi(self.v, k), None if self.n is None else fcall('powi', self.n, I(k, 'i32')))
    def __lt__(self, o): return cell('lt', ra.lt, self, lift(o))
    def __le__(self, o): return cell('le', ra.le, self, lift(o))
    def __gt__(self, o): return cell('lt', ra.lt, lift(o), self)
    def __ge__(self, o): return cell('le', ra.le, lift(o), self)
    def eq(self, o): return cell('eq', ra.eq, self, lift(o))


guards = []        # (node, outcome) of comparisons the reference made (the cell of the reference)


def cell(op, f, a, b):
    r = f(a.v, b.v)
    if r is None:
        raise Undecided()
    if a.n is not None and b.n is not None:
        g = cmp_(op, a.n, b.n)
        if not isc(g):
            guards.append((g, r))
    return r


def lift(x):
    if isinstance(x, X):
        return x
    if isinstance(x, V):
        return X(x, None)
    if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
        return X(ra.exact(x), F(x))
    return X(ra.exact(Fraction(x)), q2n(x))


def op2(f, nm, a, b):
    a, b = lift(a), lift(b)
    if nm == 'sub' and a.n is not None and a.n is b.n and not a.v.nan and abs(a.v.lo) != ra.INF and abs(a.v.hi) != ra.INF:
        return lift(0)
    n = None if a.n is None or b.n is None else fop(nm, a.n, b.n)
    return X(f(a.v, b.v), n)


def f1(name, vf):
    def g(a):
        a = lift(a)
        return X(vf(a.v), None if a.n is None else fcall(name, a.n))
    return g


exp = f1('exp', ra.exp)
ln = f1('ln', ra.ln)
ln1p = f1('ln_1p', ra.ln1p)
expm1 = f1('exp_m1', ra.expm1)
sqrt = f1('sqrt', ra.sqrt)
absx = f1('abs', ra.absv)
atan = f1('atan', ra.atan)
tan = f1('tan', ra.tan)
erf = f1('erf', ra.erf)
digamma = f1('digamma', ra.digamma)
lngamma = f1('ln_gamma', ra.lngamma)
normquantile = f1('normquantile', ra.normquantile)


def lnbeta(a, b):
    a, b = lift(a), lift(b)
    return X(ra.lnbeta(a.v, b.v), None if a.n is None or b.n is None else fcall('ln_beta', a.n, b.n))


def incbeta(x, a, b):
    x, a, b = lift(x), lift(a), lift(b)
    n = None
    if None not in (x.n, a.n, b.n):
        n = fcall('inc_beta', x.n, a.n, b.n, fcall('ln_beta', a.n, b.n))
    return X(ra.incbeta(x.v, a.v, b.v), n)


def invincbeta(x, a, b):
    x, a, b = lift(x), lift(a), lift(b)
    n = None
    if None not in (x.n, a.n, b.n):
        n = fcall('inv_inc_beta', x.n, a.n, b.n, fcall('ln_beta', a.n, b.n))
    return X(ra.invincbeta(x.v, a.v, b.v), n)


def incgamma(x, p):
    x, p = lift(x), lift(p)
    return X(ra.incgamma(x.v, p.v), None if x.n is None or p.n is None else fcall('inc_gamma', x.n, p.n))


def powf(a, b):
    a, b = lift(a), lift(b)
    return X(ra.powf(a.v, b.v), None if a.n is None or b.n is None else fcall('powf', a.n, b.n))


def minx(a, b):
    a, b = lift(a), lift(b)
    return a if a <= b else b


PI = X(ra.pi(), sym('PI'))
LN2 = X(ra.ln(ra.exact(2)), sym('LN2'))
INF = X(ra.exact(float('inf')), F(float('inf')))
NINF = X(ra.exact(float('-inf')), F(float('-inf')))
ZERO, ONE = lift(0), lift(1)
HALF = lift(Fraction(1, 2))


def floor(x):
    """integer part as a Python int (decided)"""
    r = ra.rounding(x.v, 'floor')
    if r.q is None:
        raise Undecided()
    return int(r.q)
