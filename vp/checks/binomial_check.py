"""C21: expansions used by the binomial law for many trials."""
import math, multiprocessing, time
from concurrent.futures import ProcessPoolExecutor
from fractions import Fraction as Fr
import mpmath
from .. import ra, laws, spec, cornish, alg
from ..alg import X
from ..run import *

TYPE = 'binomial::Binomial'
_prog = None
DELTA = mpmath.mpf(10) ** -9


def rat(x):
    return Fr(int(mpmath.floor(x * mpmath.mpf(2) ** 150)), 2 ** 150)


def quantile_job(arg):
    n, p, lo, hi, thorough = arg
    op = Op(_prog, TYPE, 'inverse')
    out = {'ok': 0, 'unk': {}, 'bad': [], 'panic': []}
    pv = [ra.exact(n), ra.exact(p)]
    pm = mpmath.mpf(p.numerator) / p.denominator
    sd = mpmath.sqrt(n * pm * (1 - pm))
    ms = range(int(n * pm + lo * sd), int(n * pm + hi * sd) + 1)
    step = max(1, len(ms) // (240 if thorough else 45))
    for m in ms[::step]:
        for d in (-DELTA, DELTA):
            w = cornish.solve(n, p, m + d)
            if not -6 < w < 6:
                continue
            u = rat(cornish.phi(w))
            want = m if d > 0 else m - 1
            try:
                v = run_cell(op, pv, [ra.exact(u)], unroll=60).value
            except Panic as e:
                out['panic'].append((float(u), str(e)))
                continue
            except (Unknown, Undecided, Unsupported) as e:
                k = str(e)[:60] or 'guards undecided'
                out['unk'][k] = out['unk'].get(k, 0) + 1
                continue
            if not isinstance(v, V) or v.q is None:
                if isinstance(v, V) and (v.hi < want or v.lo > want):
                    out['bad'].append((float(u), want, repr(v), float(w)))
                else:
                    out['unk']['enclosure'] = out['unk'].get('enclosure', 0) + 1
            elif v.q != want:
                out['bad'].append((float(u), want, repr(v), float(w)))
            else:
                out['ok'] += 1
    return arg, out


def exact_job(arg):
    """below the switch: next to a step of the distribution function the quantile is the exact one"""
    n, p, ks = arg
    op = Op(_prog, TYPE, 'inverse')
    out = {'ok': 0, 'known': 0, 'unk': {}, 'bad': [], 'panic': []}
    law = laws.Binomial(X(ra.exact(n)), X(ra.exact(p)))
    for k in ks:
        try:
            F = law.cdfk(k).v
        except Undecided:
            continue
        mid = (F.lo + F.hi) / 2
        for d, want in ((-1, k), (1, k + 1)):
            u = rat(mid + d * mid * (1 - mid) * mpmath.mpf(10) ** -7)
            if not 0 < u < 1:
                continue
            try:
                v = run_cell(op, [ra.exact(n), ra.exact(p)], [ra.exact(u)], unroll=3000).value
            except Panic as e:
                out['panic'].append((float(u), str(e)))
                continue
            except (Unknown, Undecided, Unsupported) as e:
                s = str(e)[:60] or 'guards undecided'
                out['unk'][s] = out['unk'].get(s, 0) + 1
                continue
            if not isinstance(v, V) or v.q is None:
                out['unk']['enclosure'] = out['unk'].get('enclosure', 0) + 1
            elif v.q == want:
                out['ok'] += 1
            elif v.q < want and spec.newton_exit(law, n, p, v, u):
                out['known'] += 1
            else:
                out['bad'].append((float(u), want, repr(v), None))
    return arg, out


MASS_N = [(16, '0.3'), (17, '0.5'), (18, '0.25'), (20, '0.6'), (24, '0.5'), (30, '0.5'), (31, '0.1'), (35, '0.4'), (36, '0.4'), (37, '0.7'), (40, '0.2'), (52, '0.5'), (71, '0.5'), (72, '0.45'),
          (79, '0.6'), (80, '0.5'), (81, '0.5'), (82, '0.3'), (100, '0.9'), (116, '0.5'), (161, '0.5'), (163, '0.35'), (240, '0.5'), (300, '0.25'), (499, '0.5'), (500, '0.5'), (501, '0.5'), (502, '0.6'),
          (581, '0.14'), (700, '0.05'), (1000, '0.5'), (1001, '0.5'), (1003, '0.7'), (2000, '0.25'), (10000, '0.01'), (123456, '0.0005'), (5, '0.5'), (8, '0.3'), (13, '0.5'), (15, '0.25')]


def mass_job(arg):
    n, p, thorough = arg
    op = Op(_prog, TYPE, 'mass')
    out = {'ok': 0, 'known': 0, 'unk': {}, 'bad': [], 'panic': [], 'worst': 0.0}
    pv = [ra.exact(n), ra.exact(p)]
    law = laws.Binomial(X(pv[0]), X(pv[1]))
    tl = spec.TableBinomial(X(pv[0]), X(pv[1]))
    xs = set(range(1, 18)) | {34, 35, 36, 37, 80, 81, 82, 500, 501, 502} | {n // 2, n // 3, int(n * p), int(n * p) + 1}
    xs |= {n - x for x in xs}
    xs = sorted(x for x in xs if 0 < x < n)
    if thorough:
        xs = sorted(set(xs) | set(range(1, n, max(1, n // 400))))
    for x in xs:
        try:
            v = run_cell(op, pv, [ra.exact(x)], unroll=4000).value
            ref = law.mass(x).v
        except Panic as e:
            out['panic'].append((x, str(e)))
            continue
        except (Unknown, Undecided, Unsupported) as e:
            s = str(e)[:60] or 'guards undecided'
            out['unk'][s] = out['unk'].get(s, 0) + 1
            continue
        if not isinstance(v, V) or v.nan == 1:
            out['unk']['enclosure'] = out['unk'].get('enclosure', 0) + 1
            continue
        tol = ra.mpf(10) ** -15 * 2
        c = ra.compare(v, ref, rel=tol, tiny=ra.mpf(10) ** -10000000)
        if c == 'eq':
            out['ok'] += 1
            out['worst'] = max(out['worst'], float(max(abs(v.lo - ref.hi), abs(v.hi - ref.lo)) / ref.lo))
        elif c == 'unk':
            out['unk']['enclosure'] = out['unk'].get('enclosure', 0) + 1
        else:
            try:
                known = ra.compare(v, tl.mass(x).v, rel=tol, tiny=ra.mpf(10) ** -10000000) == 'eq'
            except Undecided:
                known = False
            if known:
                out['known'] += 1
                out['text'] = 'Binomial(%d, %g).mass(%d) = %r, exact %r' % (n, float(p), x, v, ref)
            else:
                out['bad'].append((x, repr(ref), mpmath.nstr((v.lo + v.hi) / 2, 20), float((v.lo - ref.lo) / ref.lo) if not v.nan else None))
    return arg, out


def entropy_regime(c, prog, n_out):
    """only above 10000 trials and a variance above 80 may the normal approximation stand for the entropy"""
    op = Op(prog, TYPE, 'entropy')
    at = op.fn['sp']
    for n, p in ((10000, Fr(1, 2)), (9999, Fr(1, 4)), (1000, Fr(1, 2)), (5000, Fr(3, 8)), (30000, Fr(79, 30000)), (20000, 1 - Fr(1, 1024)), (100000, Fr(1, 2048)), (15000, Fr(1, 256))):
        v = n * p * (1 - p)
        approx = (mpmath.log(2 * mpmath.pi * mpmath.mpf(v.numerator) / v.denominator) + 1) / 2
        try:
            r = run_cell(op, [ra.exact(n), ra.exact(p)], [], unroll=12).value
        except Panic as e:
            c.violation('Binomial::entropy/panic', 'Binomial(%d, %g).entropy panics: %s' % (n, float(p), e), at=at)
            continue
        except (Unknown, Undecided, Unsupported) as e:
            n_out['entropy_summed'] += 1
            continue
        if isinstance(r, V) and not r.nan and r.hi - r.lo < 1e-12:
            e = entropy_exact(n, p)
            if abs(r.lo - e) > 1e-9 * abs(e):
                c.violation('Binomial::entropy/regime', 'Binomial(%d, %g).entropy is %r without summing up the terms; the exact value is %s and the normal approximation (%s) is not allowed here' % (
                    n, float(p), r, mpmath.nstr(e, 12), mpmath.nstr(approx, 12)), at=at)
    for n, p in ((10001, Fr(1, 2)), (20000, Fr(1, 4)), (40000, Fr(1, 256)), (10 ** 6, Fr(255, 256)), (10 ** 9, Fr(1, 3))):
        v = n * p * (1 - p)
        e = (mpmath.log(2 * mpmath.pi * mpmath.mpf(v.numerator) / v.denominator) + 1) / 2
        try:
            r = run_cell(op, [ra.exact(n), ra.exact(p)], [], unroll=12).value
        except Panic as ex:
            c.violation('Binomial::entropy/panic', 'Binomial(%d, %g).entropy panics: %s' % (n, float(p), ex), at=at)
            continue
        except (Unknown, Undecided, Unsupported):
            n_out['entropy_summed'] += 1
            continue
        if isinstance(r, V) and (r.nan == 2 or r.hi < e - 1 / float(v) or r.lo > e + 1 / float(v)):
            c.violation('Binomial::entropy/normal', 'Binomial(%d, %g).entropy is %r, more than one over the variance away from the normal approximation %s' % (n, float(p), r, mpmath.nstr(e, 12)), at=at)
        else:
            n_out['entropy_normal'] += 1


def entropy_exact(n, p):
    """by summation around the mode (the rest is below 1e-25)"""
    pm, q = mpmath.mpf(p.numerator) / p.denominator, 1 - mpmath.mpf(p.numerator) / p.denominator
    k0 = int(n * pm)
    m0 = mpmath.exp(mpmath.loggamma(n + 1) - mpmath.loggamma(k0 + 1) - mpmath.loggamma(n - k0 + 1) + k0 * mpmath.log(pm) + (n - k0) * mpmath.log(q))
    s = mpmath.mpf(0)
    for d in (1, -1):
        m, k = m0, k0
        if d == -1:
            m, k = m * k * q / ((n - k + 1) * pm), k - 1
        while 0 <= k <= n and m > mpmath.mpf(10) ** -30:
            s -= m * mpmath.log(m)
            if d == 1:
                m, k = m * (n - k) * pm / ((k + 1) * q), k + 1
            else:
                m, k = m * k * q / ((n - k + 1) * pm), k - 1
    return s


def run(c, prog):
    global _prog
    _prog = prog
    thorough = c.tier == 'thorough'
    n = {'quantile_expansion': 0, 'quantile_exact': 0, 'quantile_known': 0, 'mass': 0, 'mass_known': 0, 'entropy_summed': 0, 'entropy_normal': 0}
    und = {}
    miss = False
    for m in ('inverse', 'mass', 'entropy'):
        try:
            op = Op(prog, TYPE, m)
        except Missing as e:
            c.violation(m + '/missing', 'the operation %s does not exist any more' % e)
            miss = True
    if miss:
        c.coverage = {'explanation': 'operations are missing'}
        return
    ati, atm = Op(prog, TYPE, 'inverse').fn['sp'], Op(prog, TYPE, 'mass').fn['sp']
    F_ = Fr
    qj = [(1000, F_(1, 10), -4, 4, thorough), (1000, F_(9, 10), -4, 4, thorough), (1000, F_(3, 32), -4, 4, thorough), (1000, F_(1, 2), -4, 4, thorough), (1200, F_(1, 4), -5, 5, thorough), (1500, F_(7, 10), -5, 5, thorough),
          (5000, F_(1, 3), -5, 5, thorough), (100000, F_(1, 1000), -5, 5, thorough), (10 ** 6, F_(5, 8), -5, 5, thorough), (8200, F_(1, 100), -4, 4, thorough), (2000, F_(19, 20), -4, 4, thorough)]
    ej = []
    for nn, p in ((1000, F_(1, 20)), (1000, F_(1, 64)), (2000, F_(1, 25)), (1100, F_(15, 16)), (5000, F_(1, 64)), (100000, F_(3, 4096)), (999, F_(1, 8)), (900, F_(1, 2)), (500, F_(3, 8)), (300, F_(4, 5)), (150, F_(1, 2)), (100, F_(1, 4))):
        sd = math.sqrt(float(nn * p * (1 - p)))
        m = float(nn * p)
        ks = sorted({int(m + sd * z / 4) for z in range(-10, 11, 1 if thorough else 3)})
        ej.append((nn, p, [k for k in ks if 0 <= k < nn]))
    mj = [(a, F_(b) if '/' in b else F_(b), thorough) for a, b in MASS_N]
    worst = 0.0
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context('fork')) as ex:
        f1 = [ex.submit(exact_job, j) for j in ej]
        f2 = [ex.submit(quantile_job, j) for j in qj]
        f3 = [ex.submit(mass_job, j) for j in mj]
        for f in c.done(f2):
            (nn, p, *_), o = f.result()
            n['quantile_expansion'] += o['ok']
            for k, v in o['unk'].items():
                und['inverse: ' + k] = und.get('inverse: ' + k, 0) + v
            for u, e in o['panic'][:1]:
                c.violation('Binomial::inverse/panic', 'Binomial(%d, %g).inverse(%.17g) panics: %s' % (nn, float(p), u, e), at=ati)
            for u, want, got, w in o['bad'][:1]:
                c.violation('Binomial::inverse/expansion/%d' % nn, 'Binomial(%d, %g).inverse(%.17g) is %s, but the fourth-order Cornish-Fisher expansion at the normal quantile %.6f gives %d (%d of %d arguments next to integer values of the expansion differ)' % (
                    nn, float(p), u, got, w, want, len(o['bad']), len(o['bad']) + o['ok']), at=ati)
        for f in c.done(f1):
            (nn, p, _), o = f.result()
            n['quantile_exact'] += o['ok']
            n['quantile_known'] += o['known']
            for k, v in o['unk'].items():
                und['exact: ' + k] = und.get('exact: ' + k, 0) + v
            for u, e in o['panic'][:1]:
                c.violation('Binomial::inverse/panic', 'Binomial(%d, %g).inverse(%.17g) panics: %s' % (nn, float(p), u, e), at=ati)
            for u, want, got, w in o['bad'][:1]:
                c.violation('Binomial::inverse/exact/%d' % nn, 'Binomial(%d, %g).inverse(%.17g) is %s, but the exact quantile is %d and an approximation is only allowed for 1000 trials or more and a variance above 80' % (nn, float(p), u, got, want), at=ati)
            if o['known']:
                c.finding('Binomial::inverse/newton-exit-truncates', 'the Newton iteration stops below the exact quantile, e.g. for Binomial(%d, %g)' % (nn, float(p)), at=ati)
        for f in c.done(f3):
            (nn, p, _), o = f.result()
            n['mass'] += o['ok']
            n['mass_known'] += o['known']
            worst = max(worst, o['worst'])
            for k, v in o['unk'].items():
                und['mass: ' + k] = und.get('mass: ' + k, 0) + v
            for x, e in o['panic'][:1]:
                c.violation('Binomial::mass/panic', 'Binomial(%d, %g).mass(%d) panics: %s' % (nn, float(p), x, e), at=atm)
            for x, ref, got, rel in o['bad'][:1]:
                c.violation('Binomial::mass/%d' % nn, 'Binomial(%d, %g).mass(%d) is %s, exact %s (relative deviation %s): beyond the truncation error of the Stirling series to its stated order (%d values of %d)' % (
                    nn, float(p), x, got, ref, rel, len(o['bad']), len(o['bad']) + o['ok']), at=atm)
            if o['known']:
                c.finding('Binomial::mass/stirling-error-table-entry-11', o['text'], at=atm)
    c.part(entropy_regime, c, prog, n)
    c.coverage = {
        'explanation': 'The mass is interpreted over the reals at points that use every entry of the Stirling-error table and both sides of every switch between truncation orders, and must agree with the exact mass to 2e-15, which a '
                       'wrong coefficient or a switch at a smaller argument exceeds. The large-variance quantile is interpreted at arguments for which the independently derived fourth-order Cornish-Fisher expansion is 1e-9 '
                       'above or below an integer: the integer part decides every coefficient. Below the switch it must be the exact quantile next to the steps of the CDF.',
        'counts': n, 'worst_relative_deviation_of_the_mass': worst, 'undecided': und,
        'samples': ['expansion: n=%d p=%s w in [%d, %d]' % j[:4] for j in qj] + ['mass: n=%d p=%s' % j[:2] for j in mj[:6]],
    }
    c.assumptions = ['real arithmetic; the accuracy of the normal quantile is decided by C09', 'the expansion was derived from the binomial cumulants by tools/cornish_fisher.py']


CHECKS = {'C21': run}
