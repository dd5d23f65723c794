"""Parameter and argument boxes: for every law a table of points chosen for diversity, completed with
points on and on either side of the boundaries of every comparison found in the code under analysis."""
from fractions import Fraction as Fr
import itertools, math

R = lambda s: Fr(s)


def frs(*xs):
    return [Fr(x) if not isinstance(x, tuple) else tuple(Fr(y) for y in x) for x in xs]


PROB = frs('1/10', '1/4', '1/2', '3/4', '9/10', '1/1000', '999/1000', '1/3', '2/3', '1/1000000', '999999/1000000', '0.49', '0.51')
LOC = frs(0, 3, -7, '1/1000', 100000, '-12345.678')
SCL = frs(1, '1/2', 2, 10, '1/1000', 12345, '1/10000000')
LOCSCL = [(m, s) for m, s in [(0, 1), (3, 2), (-7, Fr(1, 2)), (Fr('0.001'), Fr('0.001')), (100000, 10), (0, 12345), (Fr('-12.5'), Fr('1e-7')), (2, 3)]]
LOCSCL = [(Fr(a), Fr(b)) for a, b in LOCSCL]
SHAPE = frs('1/2', 1, '3/2', 2, 3, '1/10', 10, '7/3', '0.9', '1.1', 40, '0.02')
ENDS = [(Fr(a), Fr(b)) for a, b in [(0, 1), (-1, 2), (-3, -1), (Fr('0.5'), 7), (100, 101), (-1000, 3000), (5000, 5001), (Fr('0.25'), Fr('0.250001'))]]
TRI = [tuple(Fr(x) for x in t) for t in [
    # lower, upper, mode
    (0, 1, Fr(1, 2)), (0, 1, Fr(1, 4)), (0, 1, Fr(3, 4)), (0, 1, 0), (0, 1, 1), (-1, 3, 2), (-5, -1, -4), (10, 20, 11),
    (-2, 2, Fr(-1, 10)), (100, 101, Fr('100.9')), (1000, 1001, Fr('1000.3')), (-4000, -3990, -3997), (Fr('0.5'), Fr('0.500001'), Fr('0.5000004')), (-2, 4, 1), (-2, 4, Fr('0.999')), (-2, 4, Fr('1.001'))]]
BETA = [tuple(Fr(x) for x in t) for t in [
    (2, 3, 0, 1), (3, 2, -1, 2), (Fr(1, 2), Fr(1, 2), 0, 1), (Fr(1, 2), 2, -1, 2), (2, Fr(1, 2), -1, 2), (1, 1, 3, 5), (1, 2, 0, 1), (2, 1, 0, 1),
    (Fr(1, 2), 1, 0, 2), (1, Fr(1, 2), 0, 2), (2, 2, -3, 5), (Fr(3, 10), Fr(7, 10), 0, 1), (Fr(7, 10), Fr(3, 10), 0, 1), (10, 30, -2, -1), (40, Fr(3, 2), 0, 10), (Fr('1.5'), Fr('4.5'), 2, 3),
    (Fr('0.9'), Fr('0.9'), 1, 2), (1, 1, 0, 1), (5, 5, 0, 1), (1, 3, -1, 4), (3, 1, -1, 4), (Fr(1, 2), Fr(3, 2), -1, 1), (Fr(3, 2), Fr(1, 2), -1, 1),
    (Fr(1, 4), Fr(1, 2), 0, 1), (Fr(1, 8), Fr(1, 4), -1, 3), (Fr('0.2'), Fr('0.1'), 0, 1), (150, 700, 0, 1)]]
BINOM = [(n, Fr(p)) for n, p in [
    (1, '1/2'), (1, '1/4'), (2, '1/2'), (3, '1/2'), (3, '3/4'), (5, '1/3'), (7, '7/10'), (10, '1/4'), (12, '9/10'), (15, '2/5'), (16, '1/2'), (17, '6/10'), (20, '1/20'),
    (24, '0.3'), (33, '0.7'), (40, '1/8'), (60, '0.45'), (100, '0.02'), (100, '0.97'), (200, '0.35'), (500, '0.5'), (700, '0.001'), (999, '0.3'), (1000, '0.3'), (1500, '0.6'),
    (2500, '0.1'), (5000, '0.97'), (2000, '0.01'), (4000, '0.995'), (100000, '0.25'), (1000000, '0.00001')]]
CAT = [tuple(Fr(x) for x in t.split()) for t in [
    '1/4 1/2 1/4', '1/2 1/2', '1/4 1/4 1/2', '1/10 1/5 3/10 2/5', '2/5 3/10 1/5 1/10', '1', '0 1/2 1/2', '1/2 0 1/2', '1/2 1/2 0', '0 0 1', '1 0 0', '1/8 0 3/8 0 1/2', '0 1/4 0 3/4 0',
    '1/3 1/3 1/3', '1/4 1/4 1/4 1/4', '3/16 5/16 1/2', '1/16 15/16', '1/8 3/8 3/8 1/8', '0.3 0.05 0.3 0.35', '1/32 1/32 15/16',
    ' '.join('%d/153' % (i + 1) for i in range(17)), ' '.join('%d/128' % (0 if i % 8 == 3 else 2 if i == 39 else 3) for i in range(49)), ' '.join('%d/300' % (i % 2 * 2) for i in range(300))]]

PARAMS = {
    ('bernoulli::Bernoulli', 'new'): [(p,) for p in PROB],
    ('bernoulli::Bernoulli', 'with_failure'): [(p,) for p in PROB],
    ('beta::Beta', 'new'): BETA,
    ('binomial::Binomial', 'new'): BINOM,
    ('binomial::Binomial', 'with_failure'): [(n, 1 - p) for n, p in BINOM],
    ('categorical::Categorical', 'new'): [(t,) for t in CAT],
    ('cauchy::Cauchy', 'new'): LOCSCL,
    ('exponential::Exponential', 'new'): [(s,) for s in SCL],
    ('gamma::Gamma', 'new'): [(k, t) for k, t in itertools.product(SHAPE, frs(1, '1/2', 3))] + frs((2, 1000), ('1/3', '0.001'), (100, 2)),
    ('gaussian::Gaussian', 'new'): LOCSCL,
    ('laplace::Laplace', 'new'): LOCSCL,
    ('logistic::Logistic', 'new'): LOCSCL,
    ('lognormal::Lognormal', 'new'): frs((0, 1), (3, 2), (-7, '1/2'), ('0.001', '0.001'), (10, 1), (0, 3), ('-2.5', '1e-7'), ('0.5', '0.25')),
    ('pert::Pert', 'new'): [(a, c, b) for a, b, c in TRI if a < c < b],
    ('triangular::Triangular', 'new'): TRI,
    ('uniform::Uniform', 'new'): ENDS,
}

QP = frs(0, '1e-12', '1e-5', '0.003', '0.02', '0.0751', '0.2', '0.4', '0.4249', '1/2', '0.5751', '0.6', '0.8', '0.925', '0.96', '0.9993', '0.999999999', 1)
ZS = frs(-40, -8, '-2.5', '-0.7', '-0.01', 0, '0.01', '0.7', '2.5', 8, 40)
PZ = frs('1e-7', '0.01', '0.1', '1/3', '1/2', 1, '1.5', 3, 8, 30)
UZ = frs('1e-6', '0.02', '0.1', '1/4', '0.4', '1/2', '0.6', '3/4', '0.9', '0.97', '0.999999')


def valid(ty, ctor, prm):
    t = ty.split('::')[0]
    if t == 'bernoulli':
        return 0 < prm[0] < 1
    if t == 'beta':
        return prm[0] > 0 and prm[1] > 0 and prm[2] < prm[3]
    if t == 'binomial':
        return prm[0] >= 1 and prm[0].denominator == 1 and 0 < prm[1] < 1
    if t == 'categorical':
        return len(prm[0]) >= 1 and all(0 <= x <= 1 for x in prm[0]) and sum(prm[0]) == 1
    if t in ('cauchy', 'gaussian', 'laplace', 'logistic', 'lognormal'):
        return prm[1] > 0
    if t == 'exponential':
        return prm[0] > 0
    if t == 'gamma':
        return prm[0] > 0 and prm[1] > 0
    if t == 'pert':
        return prm[0] < prm[1] < prm[2]
    if t == 'triangular':
        return prm[0] < prm[1] and prm[0] <= prm[2] <= prm[1]
    if t == 'uniform':
        return prm[0] < prm[1]
    return False


def fpt(x):
    """a nearby double, as a rational"""
    return Fr(float(x))


def xs(ty, prm):
    """arguments of the distribution function and of the density"""
    t = ty.split('::')[0]
    if t in ('cauchy', 'gaussian', 'laplace', 'logistic'):
        return [prm[0] + prm[1] * z for z in ZS]
    if t == 'lognormal':
        r = [Fr(-1), Fr(0)]
        for z in ZS[1:-1]:
            r.append(fpt(math.exp(float(prm[0] + prm[1] * z))))
        return r
    if t == 'exponential':
        return [Fr(-1), Fr(0)] + [z / prm[0] for z in PZ]
    if t == 'gamma':
        m = prm[0] * prm[1]
        return [Fr(-1), Fr(0)] + [m * z for z in PZ if not (z == 30 and prm[0] > 20)]
    lo, hi, extra = {'beta': lambda: (prm[2], prm[3], []), 'pert': lambda: (prm[0], prm[2], [prm[1]]),
                     'triangular': lambda: (prm[0], prm[1], [prm[2]]), 'uniform': lambda: (prm[0], prm[1], [])}[t]()
    w = hi - lo
    for e in list(extra):
        if e > lo:
            extra.append(e - w / 1000)
        if e < hi:
            extra.append(e + w / 1000)
    return [lo - w, lo - w / 10**6, lo] + [lo + z * w for z in UZ] + [hi, hi + w / 10**6, hi + w] + extra


def dxs(ty, prm):
    """arguments of the distribution function of a discrete law"""
    t = ty.split('::')[0]
    n = {'bernoulli': lambda: 1, 'binomial': lambda: int(prm[0]), 'categorical': lambda: len(prm[0]) - 1}[t]()
    ks = set(range(min(n, 6) + 1)) | {n - 1, n}
    if t == 'binomial':
        m = int(n * (prm[1]))
        d = int(math.sqrt(float(n * prm[1] * (1 - prm[1])))) + 1
        ks |= {m - 2 * d, m - d, m, m + 1, m + d, m + 2 * d, n - m, n - m + d}
        if n > 15:
            ks |= {15, 16, n - 15, n - 16}
    r = [Fr(-1), Fr(-1, 2), Fr('-1e-9'), Fr(n) + Fr(1, 2), Fr(n + 1), Fr(n) + 1000]
    # beyond the width of narrower integers
    r += [Fr(-(2**40)), Fr(-256), Fr(10)**25] + [Fr(2**e) + (n // 2 if e < 50 else 0) for e in (8, 16, 31, 32, 53, 63, 64) if 2**e > n]
    for k in sorted(ks):
        if 0 <= k <= n:
            r += [Fr(k), Fr(k) + Fr('0.4'), Fr(k) + Fr('0.999999')]
    return r


def dks(ty, prm):
    t = ty.split('::')[0]
    if t == 'bernoulli':
        return [0, 1, 2, 3, 128, 255]
    if t == 'categorical':
        return list(range(len(prm[0])))
    n = int(prm[0])
    ks = {0, 1, 2, 3, 14, 15, 16, 17, n // 2, n - 17, n - 16, n - 15, n - 14, n - 2, n - 1, n, n + 1, n + 5, 2 * n + 7}
    ks |= {2**e + n // 2 for e in (8, 16, 31, 32) if 2**e > n} | {2**53 + 2, 2**64 - 1}
    for p in (prm[1], 1 - prm[1]):
        m = int(n * p)
        d = int(math.sqrt(float(n * p * (1 - p)))) + 1
        ks |= {m - 3 * d, m - d, m - 1, m, m + 1, m + d, m + 3 * d}
    return sorted(k for k in ks if k >= 0)
