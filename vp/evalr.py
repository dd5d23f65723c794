"""Evaluation of value graphs over boxes in the real interval domain (abstract interpretation
of the extracted program over a box of parameters), with three-valued guards."""
from fractions import Fraction
from .graph import *
from .interp import Agg, Enum, Choice, Slice, Ref, Opaque, Unsupported
from . import ra
from .ra import V, Undecided


class Unknown(Exception):
    """the analysis cannot evaluate this value (not a verdict)"""


def F2(a):
    return ra.exact(Fraction(a))


FN = {
    'exp': ra.exp, 'ln': ra.ln, 'ln_1p': ra.ln1p, 'exp_m1': ra.expm1, 'sqrt': ra.sqrt, 'abs': ra.absv,
    'f32': lambda a: ra.rounding(a, 'f32'), 'floor': lambda a: ra.rounding(a, 'floor'), 'ceil': lambda a: ra.rounding(a, 'ceil'),
    'trunc': lambda a: ra.rounding(a, 'trunc'), 'round': lambda a: ra.rounding(a, 'round'),
    'atan': ra.atan, 'tan': ra.tan, 'sin': ra.sin, 'cos': ra.cos, 'min': ra.minv, 'max': ra.maxv,
    'erf': ra.erf, 'erfc': lambda a: ra.sub(ra.ONE, ra.erf(a)), 'digamma': ra.digamma, 'ln_gamma': ra.lngamma,
    'powf': ra.powf,
    'tanh': lambda a: ra.sub(ra.ONE, ra.div(ra.exact(2), ra.add(ra.exp(ra.mul(ra.exact(2), a)), ra.ONE))),
    'sinh': lambda a: ra.div(ra.sub(ra.exp(a), ra.exp(ra.neg(a))), ra.exact(2)),
    'cosh': lambda a: ra.div(ra.add(ra.exp(a), ra.exp(ra.neg(a))), ra.exact(2)),
    'exp2': lambda a: ra.exp(ra.mul(a, ra.ln(ra.exact(2)))),
    'log2': lambda a: ra.div(ra.ln(a), ra.ln(ra.exact(2))), 'log10': lambda a: ra.div(ra.ln(a), ra.ln(ra.exact(10))),
    'log': lambda a, b: ra.div(ra.ln(a), ra.ln(b)),
    'cbrt': lambda a: ra.powf(a, ra.exact(Fraction(1, 3))),
    'fract': lambda a: ra.sub(a, ra.rounding(a, 'trunc')),
    'hypot': lambda a, b: ra.sqrt(ra.add(ra.powi(a, 2), ra.powi(b, 2))),
    'atanh': lambda a: ra.mul(ra.exact(Fraction(1, 2)), ra.sub(ra.ln1p(a), ra.ln1p(ra.neg(a)))),
    'asinh': lambda a: ra.ln(ra.add(a, ra.sqrt(ra.add(ra.powi(a, 2), ra.ONE)))),
}


def lnbeta_check(x, a, b, lb):
    t = ra.lnbeta(a, b)
    dl, dh = ra.distance(t, lb)
    m = max(abs(lb.lo), abs(lb.hi), 1) if not ra.bad(lb) else 1
    if dl > ra.mpf(10) ** -9 * m:
        return False            # the normaliser handed over is not the one of these shapes
    if dh > ra.mpf(10) ** -9 * m:
        return None
    return True


def f_incbeta(x, a, b, lb):
    c = lnbeta_check(x, a, b, lb)
    if c is None:
        raise Undecided()
    if c is False:
        return ra.NAN
    return ra.incbeta(x, a, b)


def f_invincbeta(x, a, b, lb):
    c = lnbeta_check(x, a, b, lb)
    if c is None:
        raise Undecided()
    if c is False:
        return ra.NAN
    return ra.invincbeta(x, a, b)


FN['inc_beta'] = f_incbeta
FN['inv_inc_beta'] = f_invincbeta
FN['ln_beta'] = ra.lnbeta
FN['inc_gamma'] = ra.incgamma


def known_constants():
    """doubles that are the nearest to a well-known irrational number stand for that number"""
    import mpmath
    pi, ln2, s2 = mpmath.pi(), mpmath.log(2), mpmath.sqrt(2)
    base = {'pi': pi, 'ln2': ln2, 'ln10': mpmath.log(10), 'e': mpmath.e(), 's2': s2, 'spi': mpmath.sqrt(pi), 's2pi': mpmath.sqrt(2 * pi),
            'lnpi': mpmath.log(pi), 'ln2pi': mpmath.log(2 * pi), 'ln2pie': mpmath.log(2 * pi) + 1, 's3': mpmath.sqrt(3), 'ln3': mpmath.log(3), 's5': mpmath.sqrt(5),
            'pi2': pi * pi, 's2opi': mpmath.sqrt(2 / pi), 'ln4pi': mpmath.log(4 * pi), 's6': mpmath.sqrt(6), 'lns2': ln2 / 2}
    out = {}
    for v in base.values():
        for w in (v, 1 / v):
            for k in (1, 2, 3, 4, 6, 8, 12):
                for x in (w * k, w / k):
                    for y in (x, -x):
                        out.setdefault(float(y), ra.widen(y, y))
    return out


CONSTS = known_constants()


class Eval:
    """env: {node or symbol name: V}.  loops: list of LoopInfo of the interpreter that built the graph."""

    def __init__(self, env, loops=(), parent=None, maxiter=3000):
        self.env = env
        self.loops = loops
        self.parent = parent
        self.cache = {}
        self.lcache = {}
        self.guards = {}
        self.undecided = False
        self.maxiter = maxiter
        self.series = parent is not None

    def val(self, n):
        """V of a float/int node, True/False/None for a boolean one"""
        if n in self.cache:
            return self.cache[n]
        if self.parent is not None and not (n.mus & self.mine):
            r = self.parent.val(n)
        else:
            r = self._val(n)
        self.cache[n] = r
        return r

    mine = frozenset()

    def _val(self, n):
        op, a = n.op, n.args
        if n in self.env:
            return self.env[n]
        if op == 'c':
            v = a[0]
            if n.ty == 'bool':
                return v
            k = CONSTS.get(v)
            if k is not None:
                return k
            return ra.exact(v)
        if op in ('sym', 'mu'):
            r = self.env.get(a[0])
            if r is None:
                raise Unknown('no value for ' + str(a[0]))
            return r
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = self.val(a[0]), self.val(a[1])
            if op == 'fsub' and a[0] is a[1] and not x.nan and abs(x.lo) != ra.INF and abs(x.hi) != ra.INF:
                return ra.ZERO
            if op == 'fmul' and a[0] is a[1]:
                return ra.powi(x, 2)
            return {'fadd': ra.add, 'fsub': ra.sub, 'fmul': ra.mul, 'fdiv': ra.div}[op](x, y)
        if op == 'fneg':
            return ra.neg(self.val(a[0]))
        if op == 'frem':
            x, y = self.val(a[0]), self.val(a[1])
            if x.q is not None and y.q is not None and y.q:
                import math
                return ra.exact(x.q - y.q * math.trunc(x.q / y.q))
            raise Unknown('frem')
        if op == 'ite':
            c = self.val(a[0])
            if c is True:
                return self.val(a[1])
            if c is False:
                return self.val(a[2])
            self.undecided = True
            x, y = self.val(a[1]), self.val(a[2])
            if n.ty == 'bool':
                return x if x == y else None
            return ra.hull(x, y)
        if op == 'not':
            c = self.val(a[0])
            return None if c is None else not c
        if op == 'and':
            c = self.val(a[0])
            if c is False:
                return False
            d = self.val(a[1])
            if d is False:
                return False
            return True if c and d else None
        if op in ('lt', 'le', 'eq'):
            if a[0].ty == 'bool':
                x, y = self.val(a[0]), self.val(a[1])
                r = None if x is None or y is None else x == y
            else:
                x, y = self.val(a[0]), self.val(a[1])
                r = {'lt': ra.lt, 'le': ra.le, 'eq': ra.eq}[op](x, y)
                if r is None and op == 'eq' and self.series:
                    r = self.converged(a[0], a[1], x, y)
            self.guards[n] = r
            return r
        if op == 'isnan':
            x = self.val(a[0])
            return True if x.nan == 2 else (None if x.nan else False)
        if op == 'isfinite':
            x = self.val(a[0])
            if x.nan == 2 or x.lo == ra.INF or x.hi == -ra.INF:
                return False
            if x.nan == 0 and abs(x.lo) != ra.INF and abs(x.hi) != ra.INF:
                return True
            return None
        if op in ('i2f', 'i2i'):
            x = self.val(a[0])
            if op == 'i2i' and x.q is not None:
                return ra.exact(wrap(int(x.q), n.ty))
            if op == 'i2i':
                lo, hi = int_range(n.ty)
                if x.lo < lo or x.hi > hi:
                    raise Undecided()
            return x
        if op == 'f2i':
            x = self.val(a[0])
            if x.nan == 2:
                return ra.ZERO
            r = ra.rounding(x, 'trunc')
            lo, hi = int_range(n.ty)
            return ra.minv(ra.maxv(r, ra.exact(lo)), ra.exact(hi))
        if op in ('iadd', 'isub', 'imul'):
            x, y = self.val(a[0]), self.val(a[1])
            return {'iadd': ra.add, 'isub': ra.sub, 'imul': ra.mul}[op](x, y)
        if op in ('idiv', 'irem', 'iand', 'ior', 'ixor', 'ishl', 'ishr', 'inot') or op.startswith('wrapping_'):
            vs = [self.val(x) for x in a]
            if any(v.q is None for v in vs):
                raise Undecided()
            i = [int(v.q) for v in vs]
            if op == 'inot':
                return ra.exact(wrap(~i[0], n.ty))
            if op.startswith('wrapping_'):
                x, y = i
                return ra.exact(wrap({'add': x + y, 'sub': x - y, 'mul': x * y}[op[9:]], n.ty))
            r = iop(op[1:], I(i[0], n.ty), I(i[1], a[1].ty), n.ty)
            if not isc(r):
                return ra.NAN
            return ra.exact(cv(r))
        if op.startswith('ovf_'):
            x, y = self.val(a[0]), self.val(a[1])
            r = {'ovf_add': ra.add, 'ovf_mul': ra.mul, 'ovf_sub': ra.sub}[op](x, y)
            lo, hi = int_range(a[0].ty)
            if r.lo > hi or r.hi < lo:
                return True
            if r.lo >= lo and r.hi <= hi:
                return False
            return None
        if op == 'tab':
            i = self.val(a[1])
            if i.q is not None:
                k = int(i.q)
                if not 0 <= k < len(a[0]):
                    raise Unknown('table index out of range')
                return ra.exact(a[0][k])
            lo, hi = max(0, int(ra._int(i.lo, 'floor'))), min(len(a[0]) - 1, int(ra._int(i.hi, 'ceil')))
            vals = a[0][lo:hi + 1]
            return V(ra.mpf(min(vals)), ra.mpf(max(vals)))
        if op == 'fn:powi':
            k = self.val(a[1])
            if k.q is None:
                raise Undecided()
            return ra.powi(self.val(a[0]), int(k.q))
        if op == 'fn:sgn_gamma':
            return ra.ONE
        if op == 'fn:copysign':
            x, y = self.val(a[0]), self.val(a[1])
            if y.lo > 0:
                return ra.absv(x)
            if y.hi < 0:
                return ra.neg(ra.absv(x))
            raise Undecided()
        if op == 'fn:signum':
            x = self.val(a[0])
            if x.lo > 0:
                return ra.ONE
            if x.hi < 0:
                return ra.exact(-1)
            raise Undecided()
        if op in ('is_sign_negative', 'is_sign_positive'):
            x = self.val(a[0])
            neg_ = op.endswith('negative')
            if x.nan == 0 and x.hi < 0:
                return neg_
            if x.nan == 0 and x.lo > 0:
                return not neg_
            return None
        if op.startswith('fn:'):
            f = FN.get(op[3:])
            if f is None:
                raise Unknown(op)
            return f(*[self.val(x) for x in a])
        if op == 'lx':
            return self.loop(a[0])[1].val(a[1])
        if op == 'lxsel':
            return self.loop(a[0])[0] == a[1]
        raise Unknown(op)

    def converged(self, a, b, x, y):
        """is adding the last term of a series lost to rounding?  (floating-point reading of s + t == s)"""
        for p, q, qv in ((a, b, y), (b, a, x)):
            if p.op in ('fadd', 'fsub') and (p.args[0] is q or (p.op == 'fadd' and p.args[1] is q)):
                t = ra.absv(self.val(p.args[1] if p.args[0] is q else p.args[0]))
                s = ra.absv(qv)
                if not ra.bad(t) and not ra.bad(s):
                    return bool(t.hi <= s.lo * ra.mpf(2) ** -60 or t.hi <= ra.mpf(10) ** -40)
        dl, dh = ra.distance(x, y)
        m = max(abs(x.lo), abs(x.hi), abs(y.lo), abs(y.hi))
        return True if dh <= m * ra.mpf(2) ** -60 else None

    # ---------------------------------------------------------------- loops
    def loop(self, idx):
        root = self
        info = self.loops[idx]
        key = idx
        if key in self.lcache:
            r = self.lcache[key]
            if isinstance(r, Exception):
                raise r
            return r
        # does the loop's entry depend on our own mus?  then it must be evaluated here; otherwise in the parent
        deps = frozenset()
        for _, _, m, init, nxt in info.mus:
            for l in leaf_nodes(init):
                deps |= l.mus
        own = frozenset()
        for _, _, m, init, nxt in info.mus:
            for l in leaf_nodes(m):
                own |= l.mus
        alld = frozenset()
        for _, _, m, init, nxt in info.mus:
            for l in leaf_nodes(nxt):
                alld |= l.mus
        for c, s in info.exits.values():
            alld |= c.mus
        if self.parent is not None and not ((deps | (alld - own)) & self.mine):
            r = self.parent.loop(idx)
            self.lcache[key] = r
            return r
        self.lcache[key] = Unknown('loop state needs its own result')
        try:
            r = self.run_loop(info)
        except (Unknown, Undecided) as e:
            self.lcache[key] = e
            raise
        self.lcache[key] = r
        return r

    def run_loop(self, info):
        pairs = []
        for _, _, m, init, nxt in info.mus:
            if not align(m, init, nxt, pairs):
                raise Unknown('loop state of unsupported shape')
        cur = {}
        for m, i, _ in pairs:
            if m.ty == 'rng':
                raise Unknown('random loop')
            cur[m] = self.val(i) if i is not None else None
        mine = frozenset(m for m, _, _ in pairs)
        for it in range(self.maxiter):
            sub = type(self)({k: v for k, v in cur.items() if v is not None}, self.loops, self)
            sub.mine = mine
            sub.parent = self
            chosen = None
            for tgt, (c, s) in info.exits.items():
                d = sub.val(c)
                if d is True:
                    chosen = tgt
                    break
                if d is None:
                    raise Undecided()
            if chosen is not None:
                return str(chosen), sub
            b = sub.val(info.back)
            if b is not True:
                raise Undecided()
            cur = {m: (sub.val(x) if x is not None else None) for m, _, x in pairs}
        raise Unknown('loop does not settle')


def leaf_nodes(v):
    if v is None:
        return
    if isinstance(v, N):
        yield v
    elif isinstance(v, Agg):
        for x in v.f:
            yield from leaf_nodes(x)
    elif isinstance(v, Enum):
        yield v.d
        for t in v.v.values():
            for x in t:
                yield from leaf_nodes(x)
    elif isinstance(v, Choice):
        yield v.c
        yield from leaf_nodes(v.a)
        yield from leaf_nodes(v.b)
    elif isinstance(v, Opaque):
        yield v.node


def align(m, i, x, out):
    if m is None:
        return True
    if isinstance(m, N):
        if not (i is None or isinstance(i, N)) or not (x is None or isinstance(x, N)):
            return False
        out.append((m, i, x))
        return True
    if isinstance(m, Opaque):
        return True
    if isinstance(m, Agg):
        for k in range(len(m.f)):
            ii = i.f[k] if isinstance(i, Agg) and k < len(i.f) else None
            xx = x.f[k] if isinstance(x, Agg) and k < len(x.f) else None
            if (i is not None and not isinstance(i, Agg)) or (x is not None and not isinstance(x, Agg)):
                return False
            if not align(m.f[k], ii, xx, out):
                return False
        return True
    if isinstance(m, Enum):
        if (i is not None and not isinstance(i, Enum)) or (x is not None and not isinstance(x, Enum)):
            return False
        out.append((m.d, i.d if i else None, x.d if x else None))
        for k, t in m.v.items():
            for j in range(len(t)):
                ii = i.v.get(k) if i else None
                xx = x.v.get(k) if x else None
                if not align(t[j], ii[j] if ii and j < len(ii) else None, xx[j] if xx and j < len(xx) else None, out):
                    return False
        return True
    return False


def pick(ev, v):
    """resolve choices of a non-scalar value"""
    while isinstance(v, Choice):
        c = ev.val(v.c)
        if c is None:
            raise Undecided()
        v = v.a if c else v.b
    return v


def close(ev, n, memo=None):
    """the gate-free expression selected on the box (valid on the whole cell in which the guards keep their values)"""
    if memo is None:
        memo = {}
    if n in memo:
        return memo[n]
    if n.op == 'ite':
        c = ev.val(n.args[0])
        if c is None:
            raise Undecided()
        r = close(ev, n.args[1] if c else n.args[2], memo)
    elif n.op in ('c', 'sym', 'mu') or not n.args:
        r = n
    elif n.op in ('tab',):
        i = close(ev, n.args[1], memo)
        r = mk('c', (n.args[0][cv(i)],), n.ty) if isc(i) else mk('tab', (n.args[0], i), n.ty)
    else:
        r = rebuild(n.op, tuple(close(ev, x, memo) if isinstance(x, N) else x for x in n.args), n.ty)
    memo[n] = r
    return r
