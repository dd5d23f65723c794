"""C09: the standard Gaussian quantile."""
import math
from fractions import Fraction as Fr
from .. import ra, fe, laws
from ..run import *

TYPE = 'gaussian::Gaussian'
TOL = 3e-15


def grid(thorough):
    ps = []
    # dyadic p, so that p and 1 - p are both exactly representable
    for e in range(2, 53):
        for m in ((1,) if e > 20 else (1, 3)):
            ps.append(Fr(m, 2 ** e))
    n = 400 if thorough else 120
    for i in range(1, n):
        ps.append(Fr(int(2 ** 40 * i / n), 2 ** 40))
    for c in (0.075, 0.425, 0.5, 0.925, math.exp(-25), 0.5 - 0.425):
        for d in (-1e-6, -1e-9, 0, 1e-9, 1e-6):
            p = c * (1 + d)
            ps.append(Fr(p))
    # tails
    for e in list(range(3, 308, 5)) + [308, 310, 320, 323]:
        for m in (1.0, 3.7):
            ps.append(Fr(m * 10.0 ** -e))
    for e in range(2, 17):
        ps.append(Fr(1 - 10.0 ** -e))
    for p in list(ps):
        if p.denominator <= 2 ** 53:
            ps.append(1 - p)
    return sorted({p for p in ps if 0 < p < 1})


def run(c, prog):
    thorough = c.tier == 'thorough'
    try:
        op = Op(prog, TYPE, 'inverse')
        ip, v, st = graph(op)
    except Missing as e:
        c.violation('missing', 'missing: %s' % e)
        c.coverage = {'explanation': 'missing'}
        return
    except Unsupported as e:
        c.notes.append('not analysed: %s' % e)
        c.coverage = {'explanation': 'the quantile could not be interpreted: %s' % e}
        return
    worst = (0, None)
    n = {'accurate': 0, 'odd': 0, 'undecided': 0, 'float': 0, 'ends': 0}
    cells = {}
    vals = {}
    for p in grid(thorough):
        pv = ra.exact(p)
        truth = ra.normquantile(pv)
        try:
            r = evaluate(op, [ra.ZERO, ra.ONE], [pv])
            got = r.value
        except Panic as e:
            c.violation('panic', 'the standard quantile panics at p = %.17g: %s' % (float(p), e), at=op.fn['sp'])
            continue
        except (Unknown, Undecided) as e:
            n['undecided'] += 1
            continue
        vals[p] = got
        try:
            key = frozenset((g.id, b) for g, b in r.ev.guards.items())
            cells[key] = cells.get(key, 0) + 1
        except AttributeError:
            pass
        if p == Fr(1, 2):
            if got.nan or abs(got.lo) > 1e-30 or abs(got.hi) > 1e-30:
                c.violation('accuracy', 'the standard quantile at 1/2 is %r' % got, at=op.fn['sp'])
            continue
        d = ra.compare(got, truth, rel=ra.mpf(TOL), tiny=ra.mpf(1e-300))
        if d == 'ne':
            c.violation('accuracy', 'the standard quantile at p = %.17g is %r, but the true value is %r (relative error above %g)' % (float(p), got, truth, TOL), at=op.fn['sp'], p=float(p))
        elif d == 'eq':
            n['accurate'] += 1
            err = max(abs(got.lo - truth.hi), abs(got.hi - truth.lo)) / abs(truth.lo)
            if err > worst[0]:
                worst = (float(err), float(p))
        else:
            n['undecided'] += 1
        # in floating point
        try:
            f = evaluate(op, [0.0, 1.0], [float(p)], cls=fe.FDrawEval, lift=fe.fv).value
            t = float(truth.lo)
            s = 4e-15
            if f.nan == 2 or f.hi < t - abs(t) * s or f.lo > t + abs(t) * s:
                c.violation('rounding', 'evaluated in double precision, the standard quantile at p = %.17g lies in %r, but the true value is %r' % (float(p), f, t), at=op.fn['sp'], p=float(p))
            else:
                n['float'] += 1
        except (Panic, Unknown, Undecided):
            n['undecided'] += 1
    for p, a in vals.items():
        b = vals.get(1 - p)
        if b is None or p >= Fr(1, 2):
            continue
        if ra.compare(a, ra.neg(b), rel=ra.mpf(1e-16), tiny=ra.mpf(1e-300)) == 'ne':
            c.violation('odd', 'the standard quantile is not odd about 1/2: %r at %.17g and %r at %.17g' % (a, float(p), b, float(1 - p)), at=op.fn['sp'], p=float(p))
        else:
            n['odd'] += 1
    for p, w in ((Fr(0), -ra.INF), (Fr(1), ra.INF)):
        try:
            got = evaluate(op, [ra.ZERO, ra.ONE], [ra.exact(p)]).value
            f = evaluate(op, [0.0, 1.0], [float(p)], cls=fe.FDrawEval, lift=fe.fv).value
        except Panic as e:
            c.violation('ends', 'the standard quantile panics at %d' % p, at=op.fn['sp'])
            continue
        except (Unknown, Undecided):
            n['undecided'] += 1
            continue
        if got.nan == 2 or (not got.nan and (got.lo != w or got.hi != w)) or f.nan == 2 or (not f.nan and f.lo == f.hi and f.lo != float(w)):
            c.violation('ends', 'the standard quantile at %d is %r instead of %s infinity' % (p, got, 'plus' if p else 'minus'), at=op.fn['sp'])
        else:
            n['ends'] += 1
    # the Gaussian and log-normal quantiles rest on it
    for ty, f in (('gaussian::Gaussian', lambda z: ra.add(ra.exact(Fr(3, 2)), ra.mul(ra.exact(Fr(5, 2)), z))), ('lognormal::Lognormal', lambda z: ra.exp(ra.add(ra.exact(Fr(3, 2)), ra.mul(ra.exact(Fr(5, 2)), z))))):
        try:
            o2 = Op(prog, ty, 'inverse')
        except Missing:
            continue
        for p in (Fr(1, 2 ** 30), Fr(1, 64), Fr(1, 8), Fr(5, 16), Fr(9, 16), Fr(15, 16), 1 - Fr(1, 2 ** 20)):
            try:
                got = evaluate(o2, [ra.exact(Fr(3, 2)), ra.exact(Fr(5, 2))], [ra.exact(p)]).value
            except (Panic, Unknown, Undecided):
                continue
            want = f(ra.normquantile(ra.exact(p)))
            if ra.compare(got, want, rel=ra.mpf(1e-13), tiny=ra.mpf(1e-300)) == 'ne':
                c.violation('%s' % ty, '%s(1.5, 2.5).inverse(%g) is %r instead of %r' % (ty.split('::')[1], float(p), got, want), at=o2.fn['sp'])
            else:
                n['accurate'] += 1
    c.coverage = {
        'explanation': 'The quantile is interpreted over the reals (160 bits) at every point of a grid that covers the central and both tail branches, their joints and the whole exponent range, and compared with the true quantile '
                       'found by bisection on erfc; the same points are evaluated in the floating-point interval domain; oddness is compared as exact real values at dyadic p.',
        'points': len(vals), 'counts': n, 'branches_met': len(cells), 'worst_relative_error_of_approximation': worst[0], 'at_p': worst[1], 'tolerance': TOL,
        'samples': ['p = %.17g: %r' % (float(p), v) for p, v in list(vals.items())[::max(1, len(vals) // 8)]],
    }
    c.assumptions = ['between the points of the grid the approximation error varies slowly (rational functions of degree seven)']


CHECKS = {'C09': run}
