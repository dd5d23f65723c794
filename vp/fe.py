"""Floating-point interval domain: what IEEE double arithmetic (round to nearest) may produce over a box.

A value is [lo, hi] of doubles (infinities included) with a NaN flag (0 never, 1 possibly, 2 surely).
The four operations and the square root are correctly rounded and monotone, so rounding the end
points the same way is exact; functions of the mathematical library are widened by two units in the
last place; special functions of the dependencies by a relative 1e-12 (C25 is not claimed).
Integers are intervals of Python integers.
"""
import math, struct
from fractions import Fraction as Fr
import mpmath
from . import ra
from .graph import *
from .evalr import Eval, Unknown, FN
from .ra import Undecided

INF = math.inf


class FV:
    __slots__ = ('lo', 'hi', 'nan', 'rel')

    def __init__(self, lo, hi=None, nan=0):
        self.lo, self.hi, self.nan = lo, (lo if hi is None else hi), nan

    @property
    def q(self):
        if self.nan or self.lo != self.hi or abs(self.lo) == INF:
            return None
        return Fr(self.lo)

    def point(self):
        return not self.nan and self.lo == self.hi

    def __repr__(self):
        if self.nan == 2:
            return 'NaN'
        s = repr(self.lo) if self.lo == self.hi else '[%r, %r]' % (self.lo, self.hi)
        return s + ('?' if self.nan else '')


NAN = FV(-INF, INF, 2)
ULPS = 2


def down(x, k=ULPS):
    for _ in range(k):
        x = math.nextafter(x, -INF)
    return x


def up(x, k=ULPS):
    for _ in range(k):
        x = math.nextafter(x, INF)
    return x


def fv(x):
    if isinstance(x, FV):
        return x
    if isinstance(x, int):
        return FV(x)
    if isinstance(x, Fr):
        if x.denominator == 1 and False:
            return FV(int(x))
        return FV(tofloat(x))
    return FV(float(x)) if x == x else NAN


def tofloat(q):
    try:
        return float(q)
    except OverflowError:
        return INF if q > 0 else -INF


def hull(a, b):
    if a.nan == 2 and b.nan == 2:
        return NAN
    if a.nan == 2:
        return FV(b.lo, b.hi, 1)
    if b.nan == 2:
        return FV(a.lo, a.hi, 1)
    return FV(min(a.lo, b.lo), max(a.hi, b.hi), 1 if a.nan or b.nan else 0)


def neg(a):
    return FV(-a.hi, -a.lo, a.nan)


def add(a, b):
    if a.nan == 2 or b.nan == 2:
        return NAN
    nan = 1 if a.nan or b.nan else 0
    if (a.hi == INF and b.lo == -INF) or (a.lo == -INF and b.hi == INF):
        nan = 1
        if a.lo == a.hi and b.lo == b.hi and not (a.nan or b.nan):
            return NAN
    lo = -INF if (a.lo == -INF or b.lo == -INF) else a.lo + b.lo
    hi = INF if (a.hi == INF or b.hi == INF) else a.hi + b.hi
    return FV(lo, hi, nan)


def sub(a, b):
    return add(a, neg(b)) if not b.nan == 2 else NAN


def _mul(x, y):
    r = x * y
    return 0.0 if r != r else r


def has0(a):
    return a.lo <= 0 <= a.hi


def hasinf(a):
    return abs(a.lo) == INF or abs(a.hi) == INF


def mul(a, b):
    if a.nan == 2 or b.nan == 2:
        return NAN
    nan = 1 if a.nan or b.nan else 0
    if (has0(a) and hasinf(b)) or (has0(b) and hasinf(a)):
        nan = 1
        if a.lo == a.hi and b.lo == b.hi and not (a.nan or b.nan):
            return NAN
    c = [_mul(a.lo, b.lo), _mul(a.lo, b.hi), _mul(a.hi, b.lo), _mul(a.hi, b.hi)]
    if a.lo == a.hi and b.lo == b.hi:
        return FV(c[0], c[0], nan)
    return FV(min(c), max(c), nan)


def _div(x, y):
    if y == 0:
        if x == 0 or x != x:
            return 0.0
        return math.copysign(INF, x) * math.copysign(1.0, y)
    r = x / y
    return 0.0 if r != r else r


def div(a, b):
    if a.nan == 2 or b.nan == 2:
        return NAN
    nan = 1 if a.nan or b.nan else 0
    if has0(b):
        if b.lo == b.hi:
            if a.lo == a.hi == 0:
                return NAN
            if a.lo > 0 or a.hi < 0:
                x = _div(a.lo, b.lo)
                return FV(x, x, nan)
            return FV(-INF, INF, 1)
        if has0(a):
            nan = 1
        if b.lo < 0 < b.hi or has0(a):
            lo, hi = -INF, INF
            if a.lo >= 0 and b.lo >= 0 and not math.copysign(1, b.lo) < 0:
                lo = 0.0
            return FV(lo, hi, nan)
        # one-sided
        if b.lo == 0:
            b = FV(0.0, b.hi)
        else:
            b = FV(b.lo, -0.0)
    if hasinf(a) and hasinf(b):
        nan = 1
        if a.lo == a.hi and b.lo == b.hi:
            return NAN
    c = [_div(a.lo, b.lo), _div(a.lo, b.hi), _div(a.hi, b.lo), _div(a.hi, b.hi)]
    if a.lo == a.hi and b.lo == b.hi:
        return FV(c[0], c[0], nan)
    return FV(min(c), max(c), nan)


def mono(f, a, lo=-INF, hi=INF, dec=False, exact=()):
    if a.nan == 2:
        return NAN
    x, y = (a.hi, a.lo) if dec else (a.lo, a.hi)
    p, q = f(x), f(y)
    if x not in exact and abs(p) != INF:
        p = max(lo, down(p))
    if y not in exact and abs(q) != INF:
        q = min(hi, up(q))
    return FV(p, q, a.nan)


def _exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def exp(a):
    return mono(_exp, a, 0.0, INF, exact=(0.0, -INF, INF))


def _em1(x):
    try:
        return math.expm1(x)
    except OverflowError:
        return INF


def expm1(a):
    return mono(_em1, a, -1.0, INF, exact=(0.0, -INF, INF))


def ln(a):
    if a.nan == 2 or a.hi < 0:
        return NAN
    nan = a.nan or (1 if a.lo < 0 else 0)
    f = lambda x: -INF if x == 0 else x if x == INF else math.log(x)
    return mono(f, FV(max(a.lo, 0.0), max(a.hi, 0.0), nan), exact=(0.0, 1.0, INF))


def ln1p(a):
    if a.nan == 2 or a.hi < -1:
        return NAN
    nan = a.nan or (1 if a.lo < -1 else 0)
    f = lambda x: -INF if x == -1 else x if x == INF else math.log1p(x)
    return mono(f, FV(max(a.lo, -1.0), max(a.hi, -1.0), nan), exact=(0.0, -1.0, INF))


def sqrt(a):
    if a.nan == 2 or a.hi < 0:
        return NAN
    nan = a.nan or (1 if a.lo < 0 else 0)
    return FV(math.sqrt(max(a.lo, 0.0)), math.sqrt(max(a.hi, 0.0)), nan)


def absv(a):
    if a.nan == 2:
        return NAN
    if a.lo >= 0:
        return FV(abs(a.lo), abs(a.hi), a.nan)
    if a.hi <= 0:
        return FV(abs(a.hi), abs(a.lo), a.nan)
    return FV(0.0, max(-a.lo, a.hi), a.nan)


def to32(x):
    if abs(x) >= 3.4028235677973366e38 and x == x:
        return math.copysign(INF, x)
    return struct.unpack('<f', struct.pack('<f', x))[0]


def rnd(f):
    def g(a):
        if a.nan == 2:
            return NAN
        h = lambda x: x if abs(x) == INF or abs(x) > 2 ** 53 else float(f(x))
        return FV(h(a.lo), h(a.hi), a.nan)
    return g


def minv(a, b):
    # NaN is ignored
    if a.nan == 2:
        return b
    if b.nan == 2:
        return a
    if a.nan or b.nan:
        lo, hi = min(a.lo, b.lo), max(a.hi if b.nan else -INF, b.hi if a.nan else -INF, min(a.hi, b.hi))
        return FV(lo, hi, 1 if a.nan and b.nan else 0)
    return FV(min(a.lo, b.lo), min(a.hi, b.hi))


def maxv(a, b):
    if a.nan == 2:
        return b
    if b.nan == 2:
        return a
    return neg(minv(neg(a), neg(b)))


def square(a):
    b = absv(a)
    if b.nan == 2:
        return NAN
    return FV(b.lo * b.lo, b.hi * b.hi, b.nan)


def _powi(x, k):
    if k < 0:
        r = _powi(x, -k)
        return _div(1.0, r)
    try:
        return float(x) ** k
    except OverflowError:
        return INF if x > 0 or k % 2 == 0 else -INF


def powi(a, k):
    if a.nan == 2:
        return NAN
    if k == 0:
        return FV(1.0)
    if k == 1:
        return a
    if k == 2:
        return square(a)
    if k < 0:
        return div(FV(1.0), powi(a, -k))
    s = absv(a) if k % 2 == 0 else a

    def f(x, d):
        r = _powi(x, k)
        if abs(r) == INF or x == 0 or abs(x) == 1:
            return r
        if abs(x) < 2 ** 53 and x == int(x) and abs(int(x) ** k) < 2 ** 53:
            return r
        n = min(k, 8)
        return down(r, n) if d else up(r, n)
    lo, hi = f(s.lo, True), f(s.hi, False)
    if k % 2 == 0:
        lo = max(lo, 0.0)
    return FV(lo, hi, a.nan)


def _pow(x, y):
    try:
        if x == 0 and y < 0:
            return INF
        return math.pow(x, y)
    except OverflowError:
        return INF
    except ValueError:
        return math.nan


def powf(a, b):
    if b.nan == 0 and b.lo == b.hi == 0:
        return FV(1.0)
    if a.nan == 0 and a.lo == a.hi == 1:
        return FV(1.0)
    if a.nan == 2 or b.nan == 2:
        return NAN
    if a.hi < 0:
        if b.lo == b.hi and b.lo == int(b.lo) and abs(b.lo) < 2 ** 31:
            return powi(a, int(b.lo))
        if b.lo == b.hi and abs(b.lo) != INF:
            return NAN
        raise Undecided()
    if a.lo < 0:
        if b.lo == b.hi and b.lo == int(b.lo) and abs(b.lo) < 2 ** 31:
            return powi(a, int(b.lo))
        raise Undecided()
    nan = 1 if a.nan or b.nan else 0
    c = [_pow(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
    if b.lo <= 0 <= b.hi or a.lo <= 1 <= a.hi:
        c.append(1.0)
    lo, hi = min(c), max(c)
    sure = (a.lo == a.hi and b.lo == b.hi) and (a.lo in (0.0, 1.0, INF) or b.lo in (1.0, INF, -INF))
    if not sure:
        lo = max(0.0, down(lo)) if lo != INF else INF
        hi = up(hi)
    return FV(lo, hi, nan)


def toR(a):
    """enclosure in the real domain"""
    if a.nan == 2:
        return ra.NAN
    v = ra.V(ra.mpf(a.lo), ra.mpf(a.hi), Fr(a.lo) if a.lo == a.hi and abs(a.lo) != INF else None, a.nan)
    return v


def fromR(v, rel=1e-12):
    if v.nan == 2:
        return NAN
    lo, hi = v.lo, v.hi
    if v.q is None or v.q not in (0, 1):
        lo, hi = lo - abs(lo) * rel, hi + abs(hi) * rel
    return FV(down(float(lo), 1) if v.q is None else float(lo), up(float(hi), 1) if v.q is None else float(hi), v.nan)


def special(f, clip=None, rel=1e-12, limit=1e8):
    def g(*a):
        if any(x.nan == 2 for x in a):
            return NAN
        if any(abs(x.lo) > limit or abs(x.hi) > limit for x in a if abs(x.lo) != INF or True):
            raise Unknown('special function at extreme argument')
        r = fromR(f(*[toR(x) for x in a]), rel)
        if clip and r.nan != 2:
            r = FV(min(max(r.lo, clip[0]), clip[1]), max(min(r.hi, clip[1]), clip[0]), r.nan)
        return r
    return g


def trig(name):
    f = getattr(math, name)
    lim = 1e15

    def g(a):
        if a.nan == 2:
            return NAN
        if a.lo == a.hi:
            if abs(a.lo) == INF:
                return NAN
            if a.lo == 0:
                return FV(1.0 if name == 'cos' else a.lo)
            r = f(a.lo)
            return FV(down(r), up(r), a.nan)
        r = FN[name](toR(a))
        if r.nan == 2:
            return NAN
        return fromR(r, 1e-15)
    return g


def atan(a):
    return mono(math.atan, a, -math.pi / 2, math.pi / 2, exact=(0.0,))


def lngamma(a):
    if a.nan == 2:
        return NAN
    if a.lo == a.hi and a.lo == INF:
        return FV(INF)
    if a.lo == a.hi == 0:
        return FV(INF)
    if a.lo > 1e6 or (0 < a.hi < 1e-6):
        f = lambda x: INF if x == INF else lg(x)
        lo, hi = (f(a.lo), f(a.hi)) if a.lo > 1e6 else (f(a.hi), f(a.lo) if a.lo > 0 else INF)
        return FV(lo - abs(lo) * 1e-12, hi + abs(hi) * 1e-12 if hi != INF else INF, a.nan)
    return fromR(FN['ln_gamma'](toR(a)))


def lg(x):
    try:
        return math.lgamma(x)
    except OverflowError:
        return INF


def lnbeta(a, b):
    if a.nan == 2 or b.nan == 2:
        return NAN
    big = lambda v: v.lo <= 0 or v.hi > 1e6 or v.lo < 1e-6
    if big(a) or big(b):
        return sub(add(lngamma(a), lngamma(b)), lngamma(add(a, b)))
    return fromR(FN['ln_beta'](toR(a), toR(b)))


def tame(f, lo, hi, clip=None):
    """special function on ordinary shape arguments only"""
    def g(x, *p):
        if any(v.nan == 2 for v in (x,) + p):
            return NAN
        for v in p[:2]:
            if v.lo < lo or v.hi > hi:
                if clip:
                    return FV(clip[0], clip[1], 0)
                raise Unknown('special function at extreme argument')
        return f(x, *p)
    return g


def f_incbeta(x, a, b, lb):
    if x.nan == 2:
        return NAN
    if x.hi <= 0:
        return FV(0.0)
    if x.lo == x.hi == 1:
        return FV(1.0)
    xx = toR(FV(max(x.lo, 0.0), min(x.hi, 1.0), x.nan))
    # the normaliser is checked under C02/C16; here only the range matters
    if x.lo < 0 or x.hi > 1:
        return FV(0.0, 1.0, 0)
    r = fromR(ra.incbeta(xx, toR(a), toR(b)))
    return FV(max(r.lo, 0.0), min(r.hi, 1.0), r.nan)


def f_invincbeta(x, a, b, lb):
    if x.nan == 2:
        return NAN
    r = fromR(ra.invincbeta(toR(x), toR(a), toR(b)))
    return FV(max(r.lo, 0.0), min(r.hi, 1.0), r.nan)


FF = {
    'exp': exp, 'ln': ln, 'ln_1p': ln1p, 'exp_m1': expm1, 'sqrt': sqrt, 'abs': absv,
    'floor': rnd(math.floor), 'ceil': rnd(math.ceil), 'trunc': rnd(math.trunc), 'round': rnd(lambda x: math.floor(x + 0.5) if x >= 0 else math.ceil(x - 0.5)),
    'min': minv, 'max': maxv, 'powf': powf, 'atan': atan, 'tan': trig('tan'), 'sin': trig('sin'), 'cos': trig('cos'),
    'f32': lambda a: a if a.nan == 2 else FV(to32(a.lo), to32(a.hi), a.nan),
    'tanh': lambda a: mono(math.tanh, a, -1.0, 1.0, exact=(0.0,)),
    'sinh': lambda a: mono(lambda x: math.copysign(INF, x) if abs(x) > 711 else math.sinh(x), a, exact=(0.0,)),
    'cosh': lambda a: mono(lambda x: INF if abs(x) > 711 else math.cosh(x), absv(a), 1.0, exact=(0.0,)),
    'asinh': lambda a: mono(lambda x: x if abs(x) == INF else math.asinh(x), a, exact=(0.0,)),
    'atanh': lambda a: mono(lambda x: math.copysign(INF, x) if abs(x) == 1 else math.atanh(x), a, exact=(0.0,)) if a.nan != 2 and -1 <= a.lo and a.hi <= 1 else NAN if a.nan == 2 or a.lo > 1 or a.hi < -1 else FV(-INF, INF, 1),
    'cbrt': lambda a: mono(lambda x: math.copysign(abs(x) ** (1 / 3), x), a, exact=(0.0,)),
    'exp2': lambda a: powf(FV(2.0), a),
    'log2': lambda a: div(ln(a), FV(math.log(2))), 'log10': lambda a: div(ln(a), FV(math.log(10))), 'log': lambda a, b: div(ln(a), ln(b)),
    'fract': lambda a: sub(a, rnd(math.trunc)(a)),
    'hypot': lambda a, b: mono(lambda x: x, sqrt(add(square(a), square(b)))),
    'erf': lambda a: mono(math.erf, a, -1.0, 1.0, exact=(0.0,)),
    'erfc': lambda a: mono(math.erfc, a, 0.0, 2.0, dec=True, exact=(0.0,)),
    'digamma': special(FN['digamma']), 'ln_gamma': lngamma, 'ln_beta': lnbeta,
    'inc_beta': tame(f_incbeta, 1e-6, 1e6, (0.0, 1.0)), 'inv_inc_beta': tame(f_invincbeta, 1e-3, 1e4, (0.0, 1.0)),
    'inc_gamma': lambda x, p: f_incgamma(x, p),
}


def f_incgamma(x, p):
    if x.nan == 2 or p.nan == 2:
        return NAN
    if x.lo == x.hi == INF:
        return FV(1.0)
    if x.hi < 0:
        return NAN
    if p.lo < 1e-6 or p.hi > 1e5 or x.hi > 1e6:
        return FV(0.0, 1.0, 0)
    r = fromR(FN['inc_gamma'](toR(x), toR(p)))
    return FV(max(0.0, r.lo), min(1.0, r.hi), r.nan)


class FEval(Eval):
    """env: {symbol name: FV}"""

    def _val(self, n):
        op, a = n.op, n.args
        if n in self.env:
            return self.env[n]
        if op == 'c':
            v = a[0]
            if n.ty == 'bool':
                return v
            return fv(v)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = self.val(a[0]), self.val(a[1])
            if a[0] is a[1]:
                if op == 'fmul':
                    return square(x)
                if op == 'fsub' and not hasinf(x) and not x.nan:
                    return FV(0.0)
                if op == 'fdiv' and not hasinf(x) and not x.nan and not has0(x):
                    return FV(1.0)
            return {'fadd': add, 'fsub': sub, 'fmul': mul, 'fdiv': div}[op](x, y)
        if op == 'fneg':
            return neg(self.val(a[0]))
        if op == 'frem':
            x, y = self.val(a[0]), self.val(a[1])
            if x.point() and y.point() and y.lo:
                return FV(math.fmod(x.lo, y.lo))
            raise Unknown('frem')
        if op == 'ite':
            c = self.val(a[0])
            if c is True:
                return self.val(a[1])
            if c is False:
                return self.val(a[2])
            self.undecided = True
            x, y = self.val(a[1]), self.val(a[2])
            if n.ty == 'bool':
                return x if x == y else None
            return hull(x, y)
        if op in ('lt', 'le', 'eq'):
            x, y = self.val(a[0]), self.val(a[1])
            if a[0].ty == 'bool':
                r = None if x is None or y is None else x == y
            elif x.nan == 2 or y.nan == 2:
                r = False
            else:
                if op == 'lt':
                    r = True if x.hi < y.lo else False if x.lo >= y.hi else None
                elif op == 'le':
                    r = True if x.hi <= y.lo else False if x.lo > y.hi else None
                else:
                    r = True if x.lo == x.hi == y.lo == y.hi else False if x.hi < y.lo or x.lo > y.hi else None
                if r is True and (x.nan or y.nan):
                    r = None
            self.guards[n] = r
            return r
        if op == 'isnan':
            x = self.val(a[0])
            return True if x.nan == 2 else (None if x.nan else False)
        if op == 'isfinite':
            x = self.val(a[0])
            if x.nan == 2 or x.lo == INF or x.hi == -INF:
                return False
            if not x.nan and abs(x.lo) != INF and abs(x.hi) != INF:
                return True
            return None
        if op == 'i2f':
            x = self.val(a[0])
            return FV(float(x.lo), float(x.hi), x.nan)
        if op == 'i2i':
            x = self.val(a[0])
            lo, hi = int_range(n.ty)
            if x.lo < lo or x.hi > hi:
                if x.lo == x.hi:
                    return FV(wrap(int(x.lo), n.ty))
                raise Undecided()
            return x
        if op == 'f2i':
            x = self.val(a[0])
            if x.nan == 2:
                return FV(0)
            lo, hi = int_range(n.ty)
            f = lambda t: hi if t >= hi else lo if t <= lo else int(t)
            l, h = f(x.lo), f(x.hi)
            if x.nan:
                l, h = min(l, 0), max(h, 0)
            return FV(l, h)
        if op in ('iadd', 'isub', 'imul'):
            x, y = self.val(a[0]), self.val(a[1])
            lo, hi = int_range(n.ty)
            c = {'iadd': lambda: (x.lo + y.lo, x.hi + y.hi), 'isub': lambda: (x.lo - y.hi, x.hi - y.lo),
                 'imul': lambda: (min(x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi), max(x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi))}[op]()
            return FV(c[0], c[1])
        if op in ('idiv', 'irem', 'iand', 'ior', 'ixor', 'ishl', 'ishr', 'inot') or op.startswith('wrapping_'):
            vs = [self.val(x) for x in a]
            if any(v.lo != v.hi for v in vs):
                raise Undecided()
            i = [int(v.lo) for v in vs]
            if op == 'inot':
                return FV(wrap(~i[0], n.ty))
            if op.startswith('wrapping_'):
                x, y = i
                return FV(wrap({'add': x + y, 'sub': x - y, 'mul': x * y}[op[9:]], n.ty))
            r = iop(op[1:], I(i[0], n.ty), I(i[1], a[1].ty), n.ty)
            if not isc(r):
                raise Undecided()
            return FV(cv(r))
        if op.startswith('ovf_'):
            x, y = self.val(a[0]), self.val(a[1])
            lo, hi = int_range(a[0].ty)
            c = {'ovf_add': lambda: (x.lo + y.lo, x.hi + y.hi), 'ovf_sub': lambda: (x.lo - y.hi, x.hi - y.lo), 'ovf_mul': lambda: (x.lo * y.lo, x.hi * y.hi)}[op]()
            if c[0] > hi or c[1] < lo:
                return True
            if c[0] >= lo and c[1] <= hi:
                return False
            return None
        if op == 'tab':
            i = self.val(a[1])
            lo, hi = max(0, int(i.lo)), min(len(a[0]) - 1, int(i.hi))
            vals = a[0][lo:hi + 1]
            if not vals:
                raise Unknown('table index out of range')
            return FV(min(vals), max(vals))
        if op == 'fn:powi':
            k = self.val(a[1])
            if k.lo != k.hi:
                raise Undecided()
            return powi(self.val(a[0]), int(k.lo))
        if op == 'fn:sgn_gamma':
            return FV(1)
        if op == 'fn:copysign':
            x, y = self.val(a[0]), self.val(a[1])
            if y.lo > 0:
                return absv(x)
            if y.hi < 0:
                return neg(absv(x))
            if y.lo == y.hi == 0:
                return absv(x) if math.copysign(1, y.lo) > 0 else neg(absv(x))
            t = absv(x)
            return hull(t, neg(t))
        if op == 'fn:signum':
            x = self.val(a[0])
            if x.lo > 0:
                return FV(1.0)
            if x.hi < 0:
                return FV(-1.0)
            if x.lo == x.hi == 0:
                return FV(math.copysign(1.0, x.lo))
            return FV(-1.0, 1.0, x.nan)
        if op in ('is_sign_negative', 'is_sign_positive'):
            x = self.val(a[0])
            ng = op.endswith('negative')
            if x.nan == 0 and (x.hi < 0 or (x.lo == x.hi == 0 and math.copysign(1, x.lo) < 0)):
                return ng
            if x.nan == 0 and (x.lo > 0 or (x.lo == x.hi == 0 and math.copysign(1, x.lo) > 0)):
                return not ng
            return None
        if op.startswith('fn:'):
            f = FF.get(op[3:])
            if f is None:
                raise Unknown(op)
            try:
                return f(*[self.val(x) for x in a])
            except (OverflowError, ZeroDivisionError, ValueError) as e:
                raise Unknown('%s: %s' % (op, e))
        return Eval._val(self, n)


class FDrawEval(FEval):
    draws = ()

    def _val(self, n):
        if n.op == 'draw' and n not in self.env:
            d, t = 0, n.args[0]
            while t.op == 'adv':
                t = t.args[0]
                d += 1
            if t.op == 'sym' and d < len(self.draws):
                return self.draws[d]
            raise Unknown('no more draws')
        if n.op in ('sym', 'mu') and n.ty == 'rng':
            raise Unknown('token')
        return FEval._val(self, n)
