"""C10: results are well defined in floating point."""
import math, multiprocessing, time
from concurrent.futures import ProcessPoolExecutor
from fractions import Fraction as Fr
from .. import ra, fe, laws, cases, spec
from ..run import *

_prog = None
MAX = 1.7976931348623157e308
MAG = [1e-100, 1e-60, 1e-17, 1e-3, 1.0, 2.5, 1e5, 1e17, 1e60, 1e100]
LOCS = [0.0, 1.0, -3.5, 1e-100, 1e8, -1e16, 1e100, -1e100]
SHAPES = [1e-100, 1e-20, 1e-5, 0.1, 0.5, 1.0, 1.5, 2.0, 3.0, 50.0, 1e5, 1e17, 1e60, 1e100]
PROBS = [1e-100, 1e-17, 1e-5, 0.1, 0.25, 0.5, 0.75, 0.9, 1 - 1e-5, 1 - 2.0 ** -53]
ENDS = [(0.0, 1.0), (-1.0, 2.0), (1e-100, 1e100), (-1e100, 1e100), (0.0, 1e-100), (-1e-100, 1e-100), (1.0, 1 + 2.0 ** -52), (1e100, 1e100 * (1 + 2.0 ** -52)), (-1e100, 0.0), (1e16, 1e16 + 2)]
PS = [0.0, 5e-324, 1e-300, 1e-100, 1e-17, 1e-5, 0.1, 0.25, 0.5, 0.75, 0.9, 1 - 1e-5, 1 - 2.0 ** -53, 1.0]
ZF = [0.0, 1e-300, 1e-20, 1e-8, 0.3, 1.0, 5.0, 30.0, 800.0, 1e10, 1e150]
METHODS = ['density', 'mass', 'distribution', 'inverse', 'median', 'modes', 'mean', 'variance', 'deviation', 'skewness', 'kurtosis', 'entropy']


WIDEN = {'cauchy::Cauchy': (1,), 'gaussian::Gaussian': (1,), 'laplace::Laplace': (1,), 'logistic::Logistic': (1,), 'lognormal::Lognormal': (1,), 'exponential::Exponential': (0,), 'gamma::Gamma': (0, 1), 'beta::Beta': (0, 1)}


def params(ty, thorough):
    t = ty.split('::')[0]
    if t == 'bernoulli':
        return [(p,) for p in PROBS]
    if t == 'beta':
        sh = SHAPES if thorough else SHAPES[::2] + [1.0, 1e100]
        r = [(a, b, 0.0, 1.0) for a in sh for b in sh]
        r += [(a, b) + e for e in ENDS[1:] for a, b in ((0.5, 2.0), (2.0, 3.0), (1.0, 1.0), (1e-5, 1e5), (0.5, 0.5))]
        return r
    if t == 'binomial':
        ns = [1, 2, 15, 16, 40, 501, 999, 1000, 12345, 10 ** 6, 2 ** 31, 2 ** 53]
        return [(n, p) for n in ns for p in PROBS]
    if t == 'categorical':
        return [((1.0,),), ((0.0, 1.0),), ((1.0, 0.0),), ((0.1,) * 10,), ((0.25, 0.5, 0.25),), ((1e-100, 1.0),), ((1.0, 1e-100),), ((0.0, 0.0, 1.0),), ((1e-17, 0.5, 0.5),), ((0.3, 0.7),), ((1 / 3,) * 3,), ((1e-300, 1.0, 0.0),)]
    if t in ('cauchy', 'gaussian', 'laplace', 'logistic'):
        return [(m, s) for m in LOCS for s in MAG]
    if t == 'lognormal':
        return [(m, s) for m in (0.0, 1.0, -3.5, 100.0, -100.0, 1e5, -1e5, 1e100, -1e100) for s in MAG]
    if t == 'exponential':
        return [(s,) for s in MAG]
    if t == 'gamma':
        return [(k, s) for k in SHAPES for s in (MAG if thorough else MAG[::3] + [1e100])]
    if t == 'uniform':
        return list(ENDS)
    r = []
    for a, b in ENDS:
        ms = {a, b, a + (b - a) / 2, a + (b - a) * 1e-10, a + (b - a) * 0.9, b - (b - a) * 1e-14}
        for m in sorted(ms):
            if t == 'triangular' and a <= m <= b:
                r.append((a, b, m))
            if t == 'pert' and a < m < b:
                r.append((a, m, b))
    return r


def args(ty, prm, m, integer):
    t = ty.split('::')[0]
    if m == 'inverse':
        return PS
    if m == 'mass':
        n = {'bernoulli': lambda: 1, 'categorical': lambda: len(prm[0]) - 1, 'binomial': lambda: prm[0]}[t]()
        ks = {0, 1, n, n - 1, n // 2, 2, n // 3}
        if t == 'binomial':
            ks |= {n + 1, int(n * prm[1]), 2 ** 53 + 1, 10 ** 15}
        if t == 'bernoulli':
            ks |= {2, 255}
        return sorted(k for k in ks if 0 <= k and (t != 'categorical' or k <= n))
    r = {0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 1e-300, -1e-300, 1e100, -1e100, 1e300, -1e300, MAX, -MAX}
    if t in ('cauchy', 'gaussian', 'laplace', 'logistic', 'lognormal'):
        for z in ZF:
            for s in (1, -1):
                x = prm[0] + s * z * prm[1]
                if t == 'lognormal':
                    x = math.exp(x) if x < 700 else MAX
                r.add(x)
    elif t in ('exponential', 'gamma'):
        sc = 1 / prm[0] if t == 'exponential' else prm[1]
        r |= {z * sc for z in ZF}
        if t == 'gamma':
            r |= {prm[0] * sc, prm[0] * sc * 0.5, prm[0] * sc * 2}
    elif t == 'binomial':
        n = prm[0]
        r |= {float(n), n + 0.5, n - 0.5, float(n - 1), n * prm[1], n / 2, 0.5}
    elif t == 'categorical':
        r |= {float(k) for k in range(len(prm[0]) + 1)}
    elif t != 'bernoulli':
        lo, hi = {'beta': (2, 3), 'pert': (0, 2), 'triangular': (0, 1), 'uniform': (0, 1)}[t]
        a, b = prm[lo], prm[hi]
        r |= {a, b, a + (b - a) / 2, a + (b - a) * 1e-10, b - (b - a) * 1e-10, math.nextafter(a, b), math.nextafter(b, a), math.nextafter(a, -math.inf), math.nextafter(b, math.inf)}
        if t == 'triangular':
            r.add(prm[2])
        if t == 'pert':
            r.add(prm[1])
    return sorted({x for x in r if abs(x) <= MAX} | {math.inf, -math.inf})


def judge(m, v):
    """a definite fault, or None"""
    if isinstance(v, (list, tuple)):
        for x in v:
            f = judge('mode', x)
            if f:
                return f
        return None
    if not isinstance(v, fe.FV):
        return None
    if v.nan == 2:
        return 'not a number'
    if v.nan:
        return None
    if m in ('density', 'mass', 'variance', 'deviation') and v.hi < 0:
        return 'negative'
    if m == 'distribution' and (v.hi < 0 or v.lo > 1):
        return 'outside [0, 1]'
    return None


def maybe(v):
    return any(maybe(x) for x in v) if isinstance(v, (list, tuple)) else isinstance(v, fe.FV) and bool(v.nan)


def job(arg):
    ty, m, thorough, part = arg
    t0 = time.time()
    budget = 600 if thorough else 150
    out = {'ty': ty, 'm': m, 'ok': 0, 'und': {}, 'viol': [], 'missing': None, 'boxes': 0, 'boxes_proved': 0, 'sample': None}
    ops = {}

    def op(prm):
        k = next((len(x) for x in prm if isinstance(x, tuple)), None)
        if k not in ops:
            ops[k] = Op(_prog, ty, m, k=k)
        return ops[k]
    try:
        o = op(tuple(Fr(x) if not isinstance(x, tuple) else x for x in params(ty, False)[0]))
    except Missing as e:
        return out
    out['at'] = '%s (%s)' % (o.fn['path'], o.fn.get('sp'))

    def und(s):
        s = s[:80]
        out['und'][s] = out['und'].get(s, 0) + 1

    def ask(prm, a, secs=4):
        oo = op(prm)
        try:
            return spec.limited(evaluate, secs, oo, [list(x) if isinstance(x, tuple) else x for x in prm], list(a), fe.FDrawEval, fe.fv, 1500).value
        except spec.Timeout:
            und('time limit')
        except Panic as e:
            return e
        except (Unknown, Undecided) as e:
            und(str(e) or 'undecided')
        except (OverflowError, ValueError, ZeroDivisionError, TypeError) as e:
            und('internal %s' % type(e).__name__)
        return None

    for prm in params(ty, thorough):
        if time.time() - t0 > budget:
            und('budget')
            continue
        oo = op(prm)
        if len(oo.fn['inputs']) > 1:
            al = [(x,) for x in args(ty, prm, m, oo.fn['inputs'][1] in INT_BITS)]
        else:
            al = [()]
        for a in al:
            v = ask(prm, a)
            if v is None:
                continue
            if isinstance(v, Panic):
                f, v = 'panic: %s' % v, None
            else:
                f = judge(m, v)
            if f:
                if m in ('skewness', 'kurtosis') and ty == 'categorical::Categorical' and max(prm[0]) == 1 and sum(x > 0 for x in prm[0]) == 1:
                    continue          # a one-point law has none
                out['viol'].append((ty, m, prm, a, f, repr(v)))
            elif maybe(v):
                und('possibly not a number')
            else:
                out['ok'] += 1
                if out['sample'] is None:
                    out['sample'] = '%s in %r' % (show(ty, m, prm, a), v)
    # boxes of positive width: no fault anywhere in them
    if not laws.LAWS[ty].discrete:
        lim = time.time() + (100 if thorough else 20)
        for prm in params(ty, False):
            if time.time() > lim:
                break
            oo = op(prm)
            pb = [fe.FV(*sorted((x, x * 1.25 + (0.25 if x == 0 else 0)))) if i in WIDEN.get(ty, ()) else fe.FV(x) for i, x in enumerate(prm)]
            if len(oo.fn['inputs']) > 1:
                al = args(ty, prm, m, False)
                al = [x for x in al if abs(x) <= MAX]
                ab = [[fe.FV(x, y)] for x, y in zip(al, al[1:])]
            else:
                ab = [[]]
            for a in ab:
                out['boxes'] += 1
                try:
                    v = spec.limited(run_graph, 2, oo, pb, a, fe.FDrawEval, fe.fv).value
                except (spec.Timeout, Panic, Unknown, Undecided, Unsupported, OverflowError, ValueError, ZeroDivisionError, TypeError):
                    continue
                if isinstance(v, fe.FV) and not v.nan and (m not in ('density', 'variance', 'deviation') or v.lo >= 0) and (m != 'distribution' or (v.lo >= 0 and v.hi <= 1 + 1e-11)):
                    out['boxes_proved'] += 1
    out['wall'] = round(time.time() - t0, 1)
    return out


def show(ty, m, prm, a):
    s = lambda x: '[%s]' % ', '.join(map(repr, x)) if isinstance(x, (tuple, list)) else repr(x)
    return '%s(%s).%s(%s)' % (ty.split('::')[1], ', '.join(s(x) for x in prm), m, ', '.join(s(x) for x in a))


def run(c, prog):
    global _prog
    _prog = prog
    thorough = c.tier == 'thorough'
    jobs = [(t, m, thorough, 0) for t in laws.LAWS for m in METHODS]
    jobs.sort(key=lambda j: (j[0] not in ('binomial::Binomial', 'beta::Beta', 'gamma::Gamma', 'pert::Pert'), j[1] not in ('density', 'distribution', 'inverse', 'mass')))
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context('fork')) as ex:
        res = c.gather(ex, job, jobs)
    ok, per, und, samples = 0, {}, {}, []
    boxes = proved = 0
    for r in res:
        if 'at' not in r:
            continue
        name = '%s::%s' % (r['ty'].split('::')[1], r['m'])
        ok += r['ok']
        boxes += r['boxes']
        proved += r['boxes_proved']
        per[name] = {'points': r['ok'], 'wall_s': r.get('wall')}
        for k, v in r['und'].items():
            und['%s: %s' % (name, k)] = v
        if r['sample']:
            samples.append(r['sample'])
        seen = {}
        for ty, m, prm, a, f, v in r['viol']:
            key = '%s/%s' % (name, f.split(':')[0])
            seen[key] = seen.get(key, 0) + 1
            if seen[key] == 1:
                c.violation(key, '%s is %s%s [%s]' % (show(ty, m, prm, a), f, '' if v == 'None' else ' (%s)' % v, r['at']), at=r['at'])
    c.coverage = {
        'explanation': 'Floating-point interval evaluation (IEEE double arithmetic with overflow, underflow and NaN; library functions with an error bound) of every operation at parameters and arguments that combine all magnitudes from '
                       '1e-100 to 1e100, the ends and joints of the supports and their floating-point neighbours. Only a result that is surely NaN, negative, or outside [0, 1] counts.',
        'points_decided': ok, 'boxes': boxes, 'boxes_proved_free_of_faults': proved, 'per_operation': per, 'undecided': und, 'samples': samples[:12],
    }
    c.assumptions = ['special functions of the dependencies return their value to 1e-12 (C25 not claimed)', 'libm functions are accurate to two units in the last place']


CHECKS = {'C10': run}
