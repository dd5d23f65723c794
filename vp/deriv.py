"""Symbolic derivative of a gate-free value graph with respect to one symbol."""
import math
from .graph import *
from . import ra


class NoDerivative(Exception):
    pass


ZERO_, ONE_ = F(0.0), F(1.0)


def a(x, y): return y if x is ZERO_ else x if y is ZERO_ else mk('fadd', (x, y), 'f64')
def s(x, y): return x if y is ZERO_ else mk('fsub', (x, y), 'f64')
def m(x, y): return ZERO_ if x is ZERO_ or y is ZERO_ else y if x is ONE_ else x if y is ONE_ else mk('fmul', (x, y), 'f64')
def d(x, y): return ZERO_ if x is ZERO_ else mk('fdiv', (x, y), 'f64')
def f(n, *x): return mk('fn:' + n, tuple(x), 'f64')


def deriv(n, v, memo):
    if n in memo:
        return memo[n]
    r = _deriv(n, v, memo)
    memo[n] = r
    return r


def _deriv(n, v, memo):
    op, g = n.op, n.args
    D = lambda x: deriv(x, v, memo)
    if op == 'sym':
        return ONE_ if g[0] == v else ZERO_
    if op == 'c':
        return ZERO_
    if op == 'fadd':
        return a(D(g[0]), D(g[1]))
    if op == 'fsub':
        return s(D(g[0]), D(g[1]))
    if op == 'fmul':
        if g[0] is g[1]:
            return m(F(2.0), m(g[0], D(g[0])))
        return a(m(D(g[0]), g[1]), m(g[0], D(g[1])))
    if op == 'fdiv':
        p, q = D(g[0]), D(g[1])
        if q is ZERO_:
            return d(p, g[1])
        if p is ZERO_:
            return m(F(-1.0), d(m(g[0], q), m(g[1], g[1])))
        return d(s(m(p, g[1]), m(g[0], q)), m(g[1], g[1]))
    if op == 'fneg':
        x = D(g[0])
        return ZERO_ if x is ZERO_ else m(F(-1.0), x)
    if op in ('i2f', 'i2i', 'f2i', 'fn:floor', 'fn:ceil', 'fn:trunc', 'fn:round'):
        return ZERO_         # piecewise constant: boxes on which it jumps are not decided
    if op == 'fn:exp':
        return m(n, D(g[0]))
    if op == 'fn:exp_m1':
        return m(f('exp', g[0]), D(g[0]))
    if op == 'fn:ln':
        return d(D(g[0]), g[0])
    if op == 'fn:ln_1p':
        return d(D(g[0]), a(ONE_, g[0]))
    if op == 'fn:sqrt':
        return d(D(g[0]), m(F(2.0), n))
    if op == 'fn:erf':
        return m(m(F(2 / math.sqrt(math.pi)), f('exp', m(F(-1.0), m(g[0], g[0])))), D(g[0]))
    if op == 'fn:erfc':
        return m(m(F(-2 / math.sqrt(math.pi)), f('exp', m(F(-1.0), m(g[0], g[0])))), D(g[0]))
    if op == 'fn:atan':
        return d(D(g[0]), a(ONE_, m(g[0], g[0])))
    if op == 'fn:tan':
        return m(a(ONE_, m(n, n)), D(g[0]))
    if op == 'fn:tanh':
        return m(s(ONE_, m(n, n)), D(g[0]))
    if op == 'fn:powi':
        k = g[1]
        if k.op == 'c':
            return m(m(F(float(k.args[0])), f('powi', g[0], mk('c', (k.args[0] - 1,), k.ty))), D(g[0]))
    if op == 'fn:powf':
        if D(g[1]) is ZERO_:
            return m(m(g[1], f('powf', g[0], s(g[1], ONE_))), D(g[0]))
    if op == 'fn:inc_beta':
        if all(D(x) is ZERO_ for x in g[1:]):
            k = f('exp', s(a(m(s(g[1], ONE_), f('ln', g[0])), m(s(g[2], ONE_), f('ln_1p', m(F(-1.0), g[0])))), g[3]))
            return m(k, D(g[0]))
    if op == 'fn:inv_inc_beta':
        if all(D(x) is ZERO_ for x in g[1:]):
            k = f('exp', s(a(m(s(g[1], ONE_), f('ln', n)), m(s(g[2], ONE_), f('ln_1p', m(F(-1.0), n)))), g[3]))
            return d(D(g[0]), k)
    if op == 'fn:inc_gamma':
        if D(g[1]) is ZERO_:
            return m(f('exp', s(s(m(s(g[1], ONE_), f('ln', g[0])), g[0]), f('ln_gamma', g[1]))), D(g[0]))
    if op == 'fn:abs':
        x = D(g[0])
        return ZERO_ if x is ZERO_ else m(f('signum', g[0]), x)
    if not any(x.op == 'sym' and x.args[0] == v for x in leaves(n, {})):
        return ZERO_
    raise NoDerivative(op)


def leaves(n, seen):
    if n in seen:
        return
    seen[n] = 1
    if n.op == 'sym':
        yield n
    for x in n.args:
        if isinstance(x, N):
            yield from leaves(x, seen)
