"""Normal-form prover: the gate-free expression the code computes on a cell equals the textbook expression,
for all real values of the symbols for which the cell's guards (and the signs of the factors under logarithms
and roots) are as on the witness box."""
from fractions import Fraction as Fr
import signal
import sympy as sp
from .graph import *

_names = {'PI': sp.pi, 'LN2': sp.log(2)}
lg, lnb, dig, IB, IIB, IG = (sp.Function(n) for n in ('lngamma', 'lnbeta', 'psi0', 'IB', 'IIB', 'IG'))


class NoForm(Exception):
    pass


def number(v):
    if v != v or v in (float('inf'), float('-inf')):
        return {'inf': sp.oo, '-inf': -sp.oo}.get(str(v), sp.nan)
    import math
    for k, s in ((math.pi, sp.pi), (math.log(2), sp.log(2)), (math.sqrt(2), sp.sqrt(2)), (math.e, sp.E), (math.log(math.pi), sp.log(sp.pi)), (math.log(2 * math.pi), sp.log(2 * sp.pi)), (1 / math.sqrt(2), 1 / sp.sqrt(2)), (1 / math.pi, 1 / sp.pi), (math.sqrt(2 * math.pi), sp.sqrt(2 * sp.pi)), (math.sqrt(math.pi), sp.sqrt(sp.pi))):
        for m in (1, 2, 4, Fr(1, 2), Fr(1, 4), 3, Fr(1, 3)):
            if v == k * float(m):
                return s * sp.Rational(Fr(m).numerator, Fr(m).denominator)
            if v == -k * float(m):
                return -s * sp.Rational(Fr(m).numerator, Fr(m).denominator)
    q = Fr(v)
    for d in (1, 2, 3, 5, 6, 7, 9, 10, 12, 1000, 10 ** 6):
        r = q.limit_denominator(d)
        if float(r) == v:
            q = r
            break
    return sp.Rational(q.numerator, q.denominator)


def to_sympy(n, memo, pos):
    if n in memo:
        return memo[n]
    a = n.args

    def t(x):
        return to_sympy(x, memo, pos)
    op = n.op
    if op == 'c':
        if n.ty == 'bool':
            raise NoForm('boolean')
        r = number(a[0]) if n.ty == 'f64' else sp.Integer(a[0])
    elif op == 'sym':
        r = _names.get(a[0]) or sp.Symbol(a[0], real=True, positive=True if a[0] in pos else None)
    elif op == 'fadd' or op == 'iadd':
        r = t(a[0]) + t(a[1])
    elif op == 'fsub' or op == 'isub':
        r = t(a[0]) - t(a[1])
    elif op == 'fmul' or op == 'imul':
        r = t(a[0]) * t(a[1])
    elif op == 'fdiv':
        r = t(a[0]) / t(a[1])
    elif op == 'fneg':
        r = -t(a[0])
    elif op == 'i2f' or op == 'i2i':
        r = t(a[0])
    elif op == 'fn:powi':
        r = t(a[0]) ** t(a[1])
    elif op == 'fn:powf':
        r = t(a[0]) ** t(a[1])
    elif op == 'fn:exp':
        r = sp.exp(t(a[0]))
    elif op == 'fn:exp_m1':
        r = sp.exp(t(a[0])) - 1
    elif op == 'fn:ln':
        r = sp.log(t(a[0]))
    elif op == 'fn:ln_1p':
        r = sp.log(1 + t(a[0]))
    elif op == 'fn:sqrt':
        r = sp.sqrt(t(a[0]))
    elif op == 'fn:abs':
        r = sp.Abs(t(a[0]))
    elif op in ('fn:tan', 'fn:atan', 'fn:erf', 'fn:sin', 'fn:cos', 'fn:tanh', 'fn:cosh', 'fn:sinh', 'fn:erfc'):
        r = getattr(sp, op[3:])(t(a[0]))
    elif op == 'fn:ln_gamma':
        r = lg(sp.expand(t(a[0])))
    elif op == 'fn:digamma':
        r = dig(canon(t(a[0])))
    elif op == 'fn:ln_beta':
        x, y = canon(t(a[0])), canon(t(a[1]))
        r = lg(x) + lg(y) - lg(canon(x + y))
    elif op in ('fn:inc_beta', 'fn:inv_inc_beta'):
        f = IB if op == 'fn:inc_beta' else IIB
        r = f(*[canon(t(x)) for x in a])
    elif op == 'fn:inc_gamma':
        r = IG(canon(t(a[0])), canon(t(a[1])))
    else:
        raise NoForm(op)
    memo[n] = r
    return r


def canon(e):
    return sp.cancel(sp.together(e)) if not e.has(sp.Function) else sp.expand(e)


def logs(e):
    """log of quotients and products as sums of logs of factors (absolute values understood)"""
    def f(arg):
        arg = sp.factor(sp.together(arg))
        return sp.expand_log(sp.log(arg), force=True)
    return e.replace(lambda x: isinstance(x, sp.log), lambda x: f(x.args[0]))


def signfix(e, sub):
    """resolve absolute values by the sign on the witness box"""
    def f(arg):
        v = arg.subs(sub).evalf(30)
        if v.is_real and v > 0:
            return arg
        if v.is_real and v < 0:
            return -arg
        raise NoForm('sign')
    return e.replace(lambda x: isinstance(x, sp.Abs), lambda x: f(x.args[0]))


def oriented(e, sub):
    """write factors of logarithms and roots so that they are positive on the witness box"""
    def pos(arg):
        c, fs = sp.factor_list(sp.factor(sp.together(arg)))[:2] if False else (None, None)
        num, den = sp.fraction(sp.factor(sp.together(arg)))
        s, out = 1, sp.Integer(1)
        for part, sg in ((num, 1), (den, -1)):
            for f in sp.Mul.make_args(part):
                b, k = f.as_base_exp()
                if b.is_number:
                    out *= f ** sg
                    continue
                v = b.subs(sub).evalf(30)
                if not v.is_real:
                    raise NoForm('sign')
                if v < 0:
                    b, k0 = sp.expand(-b), k
                    if not k.is_integer:
                        raise NoForm('root of a negative factor')
                    if k % 2:
                        s = -s
                out *= b ** (k * sg)
        if s < 0:
            out = -out
        return out
    e = e.replace(lambda x: isinstance(x, sp.log), lambda x: sp.expand_log(sp.log(pos(x.args[0])), force=True))
    e = e.replace(lambda x: isinstance(x, sp.Pow) and x.exp.is_Rational and not x.exp.is_Integer and not x.base.is_number,
                  lambda x: sp.expand_power_base(pos(x.base) ** x.exp, force=True))
    return e


class Limit(Exception):
    pass


def prove(code, ref, sub, pos=(), secs=6):
    """True when shown equal, a string (reason) otherwise"""
    def alarm(*_):
        raise Limit()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        memo = {}
        c, r = to_sympy(code, memo, pos), to_sympy(ref, memo, pos)
        if c == r:
            return True
        sub = {sp.Symbol(k, real=True, positive=True if k in pos else None): sp.Rational(Fr(v).numerator, Fr(v).denominator) for k, v in sub.items()}
        for step in (lambda x: x, lambda x: oriented(signfix(x, sub), sub)):
            c1, r1 = step(c), step(r)
            d = sp.expand(c1 - r1)
            if d == 0:
                return True
            if sp.simplify(sp.together(d)) == 0:
                return True
        q = sp.powsimp(sp.expand_log(sp.log(sp.powdenest(c1, force=True)), force=True) - sp.expand_log(sp.log(sp.powdenest(r1, force=True)), force=True), force=True)
        if sp.simplify(sp.expand(q)) == 0:
            return True
        return 'not reduced to the same form'
    except NoForm as e:
        return 'no normal form for ' + str(e)
    except Limit:
        return 'time limit'
    except (TypeError, ValueError, AttributeError, RecursionError, ZeroDivisionError, NotImplementedError) as e:
        return '%s' % type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
