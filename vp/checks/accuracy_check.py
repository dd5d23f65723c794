"""C17: no loss of accuracy by cancellation in the known delicate regimes."""
import math, time
from fractions import Fraction as Fr
import mpmath
from .. import ra, fe, laws, spec
from ..run import *

HALF = mpmath.mpf(2) ** -26
SMALL = [1e-300, 1e-200, 1e-100, 1e-40, 1e-20, 3e-16, 1e-14, 1e-12, 1e-9, 3e-7, 1e-5, 1e-3, 0.1]
SC = [1e-100, 1e-50, 1e-12, 1e-3, 1.0, 7.0, 1e5, 1e12, 1e50, 1e100]
FAR = [0.0, 1e3, 1e6, -1e6, 1e9, -1e12, 2.0 ** 40]


def table():
    """(regime, type, method, parameters, arguments)"""
    for s in (1.0, 1e-5, 1e5, 1e-100, 1e100):
        for x in SMALL:
            yield 'exponential CDF at small arguments', 'exponential::Exponential', 'distribution', (s,), (x / s,)
        for p in SMALL:
            yield 'exponential quantile at small probabilities', 'exponential::Exponential', 'inverse', (s,), (p,)
    for ty in ('laplace::Laplace', 'logistic::Logistic'):
        for m, s in ((0.0, 1.0), (3.0, 2.0), (-1e5, 0.5), (0.0, 1e-100), (0.0, 1e100)):
            for z in (1.0, 5.0, 20.0, 36.0, 40.0, 100.0, 500.0, 700.0):
                yield 'lower tail', ty, 'distribution', (m, s), (m - s * z,)
                yield 'density in the tails', ty, 'density', (m, s), (m - s * z,)
                yield 'density in the tails', ty, 'density', (m, s), (m + s * z,)
    for m, s in ((0.0, 1.0), (0.0, 2.0), (0.0, 1e-100), (0.0, 1e100)):
        for e in (1, 2, 5, 10, 20, 27, 30, 40, 50, 52, 53):
            yield 'quantile near one', 'logistic::Logistic', 'inverse', (m, s), (1 - 2.0 ** -e,)
            yield 'quantile near one', 'laplace::Laplace', 'inverse', (m, s), (1 - 2.0 ** -e,)
        for p in SMALL:
            yield 'quantile near zero', 'logistic::Logistic', 'inverse', (m, s), (p,)
            yield 'quantile near zero', 'laplace::Laplace', 'inverse', (m, s), (p,)
            yield 'quantile near zero', 'gaussian::Gaussian', 'inverse', (m, s), (p,)
    for s in (1e-100, 1e-50, 1e-12, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 1.0, 2.0):
        for mu in (0.0, 1.5, -2.0):
            for m in ('mean', 'variance', 'deviation', 'skewness', 'kurtosis'):
                if m == 'variance' and s < 1e-100:
                    continue
                yield 'log-normal moments for small sigma', 'lognormal::Lognormal', m, (mu, s), ()
    for o in FAR:
        for w in (1.0, 4.0, 1000.0):
            for f in (0.25, 0.5, 0.875):
                a, b, c = o, o + w, o + w * f
                for m in ('variance', 'deviation', 'skewness', 'kurtosis', 'entropy', 'mean'):
                    if f == 0.5 and m == 'skewness':
                        continue
                    yield 'triangular moments far from the origin', 'triangular::Triangular', m, (a, b, c), ()
                    yield 'PERT shapes and moments far from the origin', 'pert::Pert', m, (a, c, b), ()
                yield 'PERT shapes and moments far from the origin', 'pert::Pert', 'alpha', (a, c, b), ()
                yield 'PERT shapes and moments far from the origin', 'pert::Pert', 'beta', (a, c, b), ()
                for z in (0.125, 0.375, 0.75):
                    yield 'triangular functions far from the origin', 'triangular::Triangular', 'density', (a, b, c), (a + w * z,)
                    yield 'triangular functions far from the origin', 'triangular::Triangular', 'distribution', (a, b, c), (a + w * z,)
                    yield 'PERT functions far from the origin', 'pert::Pert', 'density', (a, c, b), (a + w * z,)
                    yield 'PERT functions far from the origin', 'pert::Pert', 'distribution', (a, c, b), (a + w * z,)
            for m in ('variance', 'deviation', 'entropy', 'kurtosis', 'mean'):
                yield 'uniform far from the origin', 'uniform::Uniform', m, (o, o + w), ()
            for m in ('variance', 'deviation', 'skewness', 'kurtosis', 'entropy'):
                yield 'beta far from the origin', 'beta::Beta', m, (2.0, 3.5, o, o + w), ()
    mom = ('mean', 'variance', 'deviation', 'skewness', 'kurtosis', 'entropy', 'median')
    for s in SC:
        for m in mom:
            for ty in ('gaussian::Gaussian', 'laplace::Laplace', 'logistic::Logistic', 'cauchy::Cauchy'):
                if ty == 'cauchy::Cauchy' and m in ('mean', 'variance', 'deviation', 'skewness', 'kurtosis'):
                    continue
                yield 'moments and entropy at extreme scales', ty, m, (0.0, s), ()
            yield 'moments and entropy at extreme scales', 'exponential::Exponential', m, (s,), ()
            if m != 'median':
                for k in (0.5, 1.0, 3.0, 40.0):
                    yield 'moments and entropy at extreme scales', 'gamma::Gamma', m, (k, s), ()
            yield 'moments and entropy at extreme scales', 'uniform::Uniform', m, (0.0, s), ()
            yield 'moments and entropy at extreme scales', 'uniform::Uniform', m, (-s, s), ()
    for p in (1e-100, 1e-30, 1e-17, 1e-10, 1e-5, 0.01, 0.3):
        for m in ('mean', 'variance', 'deviation', 'skewness', 'kurtosis'):
            yield 'moments for small probabilities', 'bernoulli::Bernoulli', m, (p,), ()
            yield 'moments for small probabilities', 'binomial::Binomial', m, (50, p), ()
            yield 'moments for small failure probabilities', 'bernoulli::Bernoulli', m, (p,), (), 'with_failure'
            yield 'moments for small failure probabilities', 'binomial::Binomial', m, (50, p), (), 'with_failure'
            yield 'moments for small failure probabilities', 'binomial::Binomial', m, (2000, p), (), 'with_failure'
        for ctor, word in (('new', 'success'), ('with_failure', 'failure')):
            reg = 'masses for small %s probabilities' % word
            for n in (20, 60, 2000):
                for j in (0, 1, 2, 3):
                    yield reg, 'binomial::Binomial', 'mass', (n, p), (j if ctor == 'new' else n - j,), ctor
                    if j:
                        yield reg, 'binomial::Binomial', 'distribution', (n, p), (float(j if ctor == 'new' else n - j),), ctor
            for j in (0, 1):
                yield reg, 'bernoulli::Bernoulli', 'mass', (p,), (j,), ctor
            yield reg, 'bernoulli::Bernoulli', 'distribution', (p,), (0.0,), ctor
            yield reg, 'bernoulli::Bernoulli', 'entropy', (p,), (), ctor


def run(c, prog):
    t0 = time.time()
    ops = {}
    n = {}
    und = {}
    worst = {}
    seen = set()
    for regime, ty, m, prm, args, *ctor in table():
        ctor = ctor[0] if ctor else 'new'
        if ty not in laws.LAWS:
            continue
        if (ty, m, ctor) not in ops:
            try:
                ops[ty, m, ctor] = Op(prog, ty, m, ctor=ctor)
            except Missing as e:
                ops[ty, m, ctor] = None
                c.violation('%s::%s/missing' % (ty.split('::')[1], m), 'the operation %s does not exist any more' % e)
        op = ops[ty, m, ctor]
        if op is None:
            continue
        name = '%s::%s' % (ty.split('::')[1], m)
        call = '%s%s(%s).%s(%s)' % (ty.split('::')[1], '' if ctor == 'new' else '::' + ctor, ', '.join(map(repr, prm)), m, ', '.join(map(repr, args)))
        try:
            pv = [ra.exact(x) for x in prm]
            law = spec.law_of(ty, ctor, op.cfn['inputs'], pv)
            if m in ('alpha', 'beta'):
                truth = {'alpha': law.al, 'beta': law.be}[m].v
            else:
                truth = spec.reference(law, m, [ra.exact(x) for x in args], op.fn['inputs'][1:]).v
        except (Undecided, laws.Skip, AttributeError) as e:
            und['reference: ' + name] = und.get('reference: ' + name, 0) + 1
            continue
        t = (truth.lo + truth.hi) / 2
        if truth.hi - truth.lo > abs(t) * mpmath.mpf(2) ** -45:
            # the working precision does not carry the reference
            und['reference: ' + name] = und.get('reference: ' + name, 0) + 1
            continue
        try:
            v = evaluate(op, list(prm), list(args), cls=fe.FDrawEval, lift=fe.fv).value
        except Panic as e:
            c.violation(name + '/panic', '%s panics: %s' % (call, e), at=op.fn['sp'])
            continue
        except (Unknown, Undecided) as e:
            k = '%s: %s' % (name, str(e)[:60])
            und[k] = und.get(k, 0) + 1
            continue
        if not isinstance(v, fe.FV):
            continue
        if abs(t) < 2.3e-308:
            # below the normal range (or zero): absolute
            ok = not v.nan and abs(v.lo) < 1e-300 and abs(v.hi) < 1e-300 or (t == 0 and abs(v.lo) <= 1e-13 * max(abs(float(x)) for x in prm) and abs(v.hi) <= 1e-13 * max(abs(float(x)) for x in prm))
            err = mpmath.mpf(0) if ok else mpmath.mpf(1)
        elif abs(t) > 1.7e308:
            continue
        elif v.nan or abs(v.lo) == math.inf or abs(v.hi) == math.inf:
            err = mpmath.mpf(1)
        else:
            err = max(abs(mpmath.mpf(v.lo) - t), abs(mpmath.mpf(v.hi) - t)) / abs(t)
        n[regime] = n.get(regime, 0) + 1
        if err > worst.get(regime, (0, ''))[0]:
            worst[regime] = (float(err), call)
        if err > HALF:
            key = '%s/%s' % (name, regime)
            if key not in seen:
                seen.add(key)
                c.violation(key, '%s: in double precision %s lies in %r while its true value is %s: the error is not bounded by half of the digits (relative bound %s)' % (
                    regime, call, v, mpmath.nstr(t, 12), mpmath.nstr(err, 3)), at=op.fn['sp'])
    c.coverage = {
        'explanation': 'Forward rounding-error analysis: each operation is evaluated in the floating-point interval domain (every rounding enclosed, library functions to two units in the last place) at points of the delicate regimes; the '
                       'largest distance of the enclosure from the exact value must stay below a relative 2^-26.',
        'points': sum(n.values()), 'per_regime': n, 'worst_bound': worst, 'undecided': und, 'samples': ['%s: %.3g at %s' % (k, w[0], w[1]) for k, w in worst.items()],
    }
    c.assumptions = ['special functions of the dependencies return their value to 1e-12 (C25 not claimed)', 'libm functions are accurate to two units in the last place']


CHECKS = {'C17': run}
