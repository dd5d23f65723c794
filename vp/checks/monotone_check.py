"""C20: distribution functions and quantiles are monotone."""
import math, multiprocessing, time
from concurrent.futures import ProcessPoolExecutor
from fractions import Fraction as Fr
from .. import ra, fe, laws, cases, spec
from ..run import *
from ..graph import *
from ..deriv import deriv, NoDerivative
from ..alg import X

_prog = None
HAVE_INV = set(laws.LAWS) - {'gamma::Gamma'}
REL = ra.mpf(10) ** -11


def fine(ty, prm):
    """a denser set of arguments"""
    t = ty.split('::')[0]
    r = set(cases.dxs(ty, prm) if laws.LAWS[ty].discrete else cases.xs(ty, prm))
    if t in ('cauchy', 'gaussian', 'laplace', 'logistic'):
        r |= {prm[0] + prm[1] * Fr(z) / 8 for z in range(-64, 65, 3)}
        r |= {prm[0] + prm[1] * s * Fr(1, 10 ** e) for e in (6, 9, 12) for s in (1, -1)}
    elif t in ('exponential', 'gamma'):
        m = 1 / prm[0] if t == 'exponential' else prm[0] * prm[1]
        r |= {m * Fr(z) / 8 for z in range(1, 60, 3)} | {m / 10 ** 9, m / 10 ** 12}
    elif t == 'lognormal':
        r |= {Fr(float(math.exp(float(prm[0]) + float(prm[1]) * z / 4))) for z in range(-20, 21)}
    elif t in ('beta', 'pert', 'triangular', 'uniform'):
        lo, hi = {'beta': (2, 3), 'pert': (0, 2), 'triangular': (0, 1), 'uniform': (0, 1)}[t]
        lo, hi = prm[lo], prm[hi]
        r |= {lo + (hi - lo) * Fr(i, 40) for i in range(-2, 43)} | {lo + (hi - lo) * Fr(1, 10 ** e) for e in (9, 12)} | {hi - (hi - lo) * Fr(1, 10 ** e) for e in (9, 12)}
    elif t == 'binomial':
        n = int(prm[0])
        sd = math.sqrt(float(n * prm[1] * (1 - prm[1]))) + 1
        c = int(n * prm[1])
        r |= {Fr(c + int(sd * z / 3)) for z in range(-18, 19)} | {Fr(n + 1), Fr(n) + Fr(1, 2), Fr(n) - Fr(1, 2)}
    return sorted(r)


PS = sorted({Fr(0), Fr(1)} | {Fr(i, 48) for i in range(1, 48)} | {Fr(1, 2 ** e) for e in (6, 8, 12, 20, 30, 40, 60, 100, 200)} | {1 - Fr(1, 2 ** e) for e in (6, 8, 12, 20, 30, 40, 50)}
            | {Fr(1, 2) + s * Fr(1, 2 ** e) for e in (8, 16, 24, 32) for s in (1, -1)})
FPS = [0.0, 1e-300, 1e-100, 1e-50, 1e-20, 1e-10, 1e-5, 0.01, 0.1, 0.25, 0.4, 0.5 - 2.0 ** -54, 0.5, 0.5 + 2.0 ** -53, 0.6, 0.75, 0.9, 0.99, 1 - 1e-5, 1 - 1e-10, 1 - 2.0 ** -52, 1 - 2.0 ** -53, 1.0]


def job(arg):
    ty, m, thorough = arg
    t0 = time.time()
    budget = 400 if thorough else 100
    name = '%s::%s' % (ty.split('::')[1], m)
    out = {'name': name, 'viol': [], 'und': {}, 'pairs': 0, 'fpairs': 0, 'ends': 0, 'boxes_proved': 0, 'boxes': 0, 'points': 0, 'missing': None, 'samples': []}
    disc = laws.LAWS[ty].discrete
    ops = {}

    def op(prm):
        k = next((len(x) for x in prm if isinstance(x, tuple)), None)
        if k not in ops:
            ops[k] = Op(_prog, ty, m, k=k)
        return ops[k]

    def und(s):
        out['und'][s[:90]] = out['und'].get(s[:90], 0) + 1

    def viol(text):
        if len(out['viol']) < 10:
            out['viol'].append((name, text + ' [%s]' % out['at']))
    try:
        o = op(cases.PARAMS[ty, 'new'][0])
    except Missing as e:
        out['missing'] = str(e)
        return out
    out['at'] = '%s (%s)' % (o.fn['path'], o.fn.get('sp'))

    def real(prm, x):
        oo = op(prm)
        argt = oo.fn['inputs'][1:]
        try:
            return evaluate(oo, [spec.xbox(y, t) for y, t in zip(prm, oo.cfn['inputs'])], [spec.xbox(x, argt[0])])
        except Panic as e:
            viol('%s panics: %s' % (spec.describe(oo, prm, (x,)), e))
        except (Unknown, Undecided) as e:
            und(str(e) or 'undecided')
        return None

    def flt(prm, x):
        oo = op(prm)
        pv = [int(y) if t in INT_BITS else [float(z) for z in y] if isinstance(y, tuple) else float(y) for y, t in zip(prm, oo.cfn['inputs'])]
        try:
            return evaluate(oo, pv, [x], cls=fe.FDrawEval, lift=fe.fv).value
        except Panic as e:
            return None
        except (Unknown, Undecided) as e:
            und('float: ' + (str(e) or 'undecided'))
        return None

    def seq(prm, pts, mined=False):
        """consecutive values must not decrease"""
        best = None
        oo = op(prm)
        res = []
        for x in pts:
            if time.time() - t0 > budget:
                und('budget')
                break
            r = real(prm, x)
            if r is None or not isinstance(r.value, V) or r.value.nan:
                if r is not None and isinstance(r.value, V) and r.value.nan == 2:
                    viol('%s is not a number' % spec.describe(oo, prm, (x,)))
                continue
            out['points'] += 1
            v = r.value
            res.append((x, r))
            tol = max(abs(v.hi), abs(best[1].lo) if best else 0) * REL + ra.mpf(10) ** -300 if abs(v.hi) != ra.INF else 0
            if best is not None:
                if best[1].lo > v.hi + tol:
                    viol('%s is %s, but %s is only %s' % (spec.describe(oo, prm, (best[0],)), best[1], spec.describe(oo, prm, (x,)), v))
                else:
                    out['pairs'] += 1
            if best is None or v.lo > best[1].lo:
                best = (x, v)
        return res

    def slopes(prm, res):
        """sign of the derivative on whole boxes"""
        oo = op(prm)
        if disc or not all(isinstance(r.node, N) for _, r in res):
            return
        pv = [spec.vbox(y, t, None) for y, t in zip(prm, oo.cfn['inputs'])]
        for (x0, r0), (x1, r1) in zip(res, res[1:]):
            if time.time() - t0 > budget or x1 - x0 == 0:
                break
            out['boxes'] += 1
            try:
                ip, v, st = graph(oo)
                ev = DrawEval(env_of(oo, pv, [ra.box(x0, x1)]), ip.loops)
                c = close(ev, pick(ev, v))
                memo = slopes.memo.setdefault(c, {})
                dn = deriv(c, 'x0', memo)
                dv = ev.val(dn)
            except (Unknown, Undecided, Unsupported, NoDerivative, AttributeError, KeyError, TypeError):
                continue
            if dv.nan:
                continue
            if dv.lo >= -ra.mpf(10) ** -30:
                out['boxes_proved'] += 1
            elif dv.hi < -ra.mpf(10) ** -12 * max(1, abs(dv.lo)) and x1 - x0 > 0:
                viol('%s decreases throughout [%s, %s]: its slope lies in %s' % (spec.describe(oo, prm, ()), float(x0), float(x1), dv))
    slopes.memo = {}

    def flts(prm, xs):
        best = None
        oo = op(prm)
        for x in xs:
            v = flt(prm, x)
            if v is None or v.nan:
                if v is not None and v.nan == 2:
                    viol('in floating point, %s is not a number' % spec.describe(oo, prm, (x,)) if abs(x) != math.inf else 'in floating point, %s is not a number at %r' % (spec.describe(oo, prm, ()), x))
                continue
            if best is not None:
                if best[1].lo > v.hi + (max(abs(best[1].lo), abs(v.hi)) if abs(v.hi) != math.inf else 0) * 1e-11 + 1e-300:
                    viol('in floating point, %s is %s, but at %r it is only %s' % (spec.describe(oo, prm, (best[0],)), best[1], x, v))
                else:
                    out['fpairs'] += 1
            if best is None or v.lo > best[1].lo:
                best = (x, v)

    nodes = {}
    plist = cases.PARAMS[ty, 'new']
    bases = []
    for prm in plist:
        if time.time() - t0 > budget:
            und('budget')
            break
        oo = op(prm)
        pv = [spec.vbox(x, tt, None) for x, tt in zip(prm, oo.cfn['inputs'])]
        law = spec.law_of(ty, 'new', oo.cfn['inputs'], pv)
        if m == 'distribution':
            pts = fine(ty, prm)
        else:
            pts = PS if not disc else sorted(set(spec.dqs(oo, prm, prm)) | set(PS[::3] if ty != 'binomial::Binomial' or prm[0] < 200 else []))
        res = seq(prm, pts)
        for x, r in res:
            for g in spec.atoms(list(r.ev.guards) + (spec.roots_of(r.node) if r.mode == 'graph' else [])):
                nodes.setdefault(g, None)
        bases += [(prm, (x,)) for x, _ in res[len(res) // 2:len(res) // 2 + 1]]
        if len(out['samples']) < 2 and res:
            out['samples'].append('%s at %d points, from %s to %s' % (spec.describe(oo, prm, ()), len(res), res[0][1].value, res[-1][1].value))
        slopes(prm, res)
        # limits and support, in floating point
        if m == 'distribution':
            xs = [-math.inf, -1e300] + [float(x) for x in pts[::2 if not thorough else 1]] + [1e300, math.inf]
            flts(prm, sorted(set(xs)))
            for x, w in ((-math.inf, 0), (-1e300, 0), (1e300, 1), (math.inf, 1)):
                v = flt(prm, x)
                if v is None or v.nan:
                    continue
                if (w == 0 and v.lo > 1e-9) or (w == 1 and v.hi < 1 - 1e-9):
                    viol('the distribution function of %s is %s at %r instead of tending to %d' % (spec.describe(oo, prm, ()), v, x, w))
                else:
                    out['ends'] += 1
        else:
            flts(prm, FPS if not disc else FPS[::2])
            lo, hi = law.support()
            lo, hi = (float(x.v.lo) if isinstance(x, X) else float(x) for x in (lo, hi))
            tol = 1e-12 * max([abs(x) for x in (lo, hi) if abs(x) != math.inf] + [1e-300])
            for p in FPS if not disc or ty != 'binomial::Binomial' else FPS[::3]:
                v = flt(prm, p)
                if v is None or v.nan:
                    continue
                if v.hi < lo - tol or v.lo > hi + tol:
                    viol('%s is %s, outside the closed support [%r, %r]' % (spec.describe(oo, prm, (p,)), v, lo, hi))
                else:
                    out['ends'] += 1
    # the joints of the pieces
    if ty != 'categorical::Categorical' and bases and time.time() - t0 < budget:
        oo = op(bases[0][0])
        if not hasattr(oo, 'asyms'):
            oo.asyms = [sym('x0', oo.fn['inputs'][1])]
        gs = [g for g in nodes if 'x0' in spec.syms_of(g)][:40]
        try:
            new = spec.mine(oo, bases[:14], gs, oo.cfn['inputs'], deadline=time.time() + budget / 4, maxnew=150)
        except (Unknown, Undecided, Unsupported):
            new = []
        by = {}
        for prm, args in new:
            by.setdefault(prm, set()).add(args[0])
        for prm, s in by.items():
            if len(s) > 1 and time.time() - t0 < budget * 1.5:
                seq(prm, sorted(s))
    out['guards'] = len(nodes)
    out['wall'] = round(time.time() - t0, 1)
    return out


def run(c, prog):
    global _prog
    _prog = prog
    thorough = c.tier == 'thorough'
    jobs = [(t, 'distribution', thorough) for t in laws.LAWS] + [(t, 'inverse', thorough) for t in laws.LAWS if t in HAVE_INV]
    jobs.sort(key=lambda j: j[0] not in ('binomial::Binomial', 'beta::Beta', 'pert::Pert', 'gamma::Gamma'))
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context('fork')) as ex:
        res = c.gather(ex, job, jobs)
    per, und, samples = {}, {}, []
    tot = {k: 0 for k in ('points', 'pairs', 'fpairs', 'ends', 'boxes', 'boxes_proved')}
    for r in res:
        if r['missing']:
            c.violation(r['name'] + '/missing', 'the operation %s does not exist any more' % r['missing'])
            continue
        for k in tot:
            tot[k] += r[k]
        per[r['name']] = {k: r[k] for k in ('points', 'pairs', 'fpairs', 'ends', 'boxes', 'boxes_proved', 'wall')}
        for k, v in r['und'].items():
            und['%s: %s' % (r['name'], k)] = v
        samples += r['samples'][:1]
        for i, (key, text) in enumerate(r['viol'][:3]):
            c.violation('%s/%d' % (key, i), text)
    c.coverage = {
        'explanation': 'For each law the abstract values of the distribution function (quantile) on an ascending sequence of arguments, which includes both sides of every boundary found in the comparisons of the code, must be consistent with a '
                       'non-decreasing function: a lower bound at one point above an upper bound at a later one refutes it. On the boxes between neighbours the derivative of the gate-free expression is enclosed; a non-negative enclosure proves '
                       'monotonicity on the whole box. The limits, and the quantile within the closed support, are decided in the floating-point interval domain.',
        'counts': tot, 'per_operation': per, 'undecided': und, 'samples': samples,
    }
    c.assumptions = ['special functions of the dependencies are exact and monotone (C25)', 'ripples within a relative 1e-11 are rounding']


CHECKS = {'C20': run}
