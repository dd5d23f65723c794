"""C08: the ziggurat of the standard Gaussian generator."""
import math
from fractions import Fraction as Fr
import mpmath
from .. import ra
from ..run import *

TYPE = 'gaussian::Gaussian'
N_LAYERS, BITS = 128, 24


def depth(tok):
    d = 0
    while isinstance(tok, N) and tok.op == 'adv':
        tok = tok.args[0]
        d += 1
    return d if isinstance(tok, N) and tok.op == 'sym' else None


class Tables:
    """equal-area layers below exp(-x^2 / 2), found from the condition that they close at the top"""

    def __init__(self):
        mp = mpmath.mp
        f = lambda x: mpmath.exp(-x * x / 2)
        finv = lambda y: mpmath.sqrt(-2 * mpmath.log(y))

        # a rejected point of the tail starts over, hence the base counts with the area below the exponential majorant of the tail
        area = lambda R: f(R) * (R + 1 / R)
        lo, hi = mpmath.mpf('3.4'), mpmath.mpf('3.5')
        # the last y must be exactly one: bisection on the gap of the top layer
        def gap(R):
            v = area(R)
            x = R
            for k in range(N_LAYERS - 1):
                y = f(x) + v / x
                if k == N_LAYERS - 2:
                    return y - 1
                if y >= 1:
                    return mpmath.mpf(1)
                x = finv(y)
        for _ in range(90):
            mid = (lo + hi) / 2
            if gap(mid) > 0:
                lo = mid
            else:
                hi = mid
        self.R = R = (lo + hi) / 2
        self.v = area(R)
        x = [None] * N_LAYERS
        x[N_LAYERS - 1] = R
        for i in range(N_LAYERS - 2, 0, -1):
            x[i] = finv(f(x[i + 1]) + self.v / x[i + 1])
        x[0] = mpmath.mpf(0)
        self.x = x
        self.f = f
        # width of layer i per unit of the magnitude, and the part of it that lies under the curve
        self.width = [x[i + 1] for i in range(N_LAYERS - 1)] + [self.v / f(R)]
        self.inner = [x[i] for i in range(N_LAYERS)]


def run(c, prog):
    thorough = c.tier == 'thorough'
    c.coverage = {'explanation': 'not analysed'}
    try:
        op = Op(prog, TYPE, 'sample')
    except Missing as e:
        c.violation('missing', 'missing: %s' % e)
        return
    T = Tables()
    at = op.fn['sp']
    h = prog.fns.get('probability::distribution::gaussian::sample')
    if h is not None:
        at = h['sp']
    n = {'fast': 0, 'fast_limits': 0, 'wedge_accept': 0, 'wedge_reject': 0, 'tail_accept': 0, 'tail_reject': 0, 'restarts': 0, 'spare_bits': 0, 'undecided': 0}
    und = []
    M = 1 << BITS

    def word(i, s, j, spare=0):
        return i | (128 if s > 0 else 0) | (j << 8) | (spare << 32)

    def ask(*draws):
        """(value, number of draws)"""
        try:
            r = run_cell(op, [ra.ZERO, ra.ONE], (), draws=[ra.exact(d) if not isinstance(d, V) else d for d in draws])
            return r.value, depth(r.state.mem['rng'])
        except Panic as e:
            c.violation('panic', 'the generator panics on draws %s: %s' % ([float(d) for d in draws], e), at=at)
        except (Unknown, Undecided, Unsupported) as e:
            if 'no more draws' in str(e):
                return None, len(draws) + 1
            n['undecided'] += 1
            if len(und) < 12:
                und.append('%s: %s' % ([str(d) for d in draws], e))
        return None, None

    def close(v, x, rel=1e-9):
        return isinstance(v, V) and not v.nan and abs(v.lo - x) <= abs(x) * rel + 1e-25 and abs(v.hi - x) <= abs(x) * rel + 1e-25

    # a word that is surely accepted on the fast path
    I0, J0 = 64, 5000000
    restart = word(I0, 1, J0)
    xr = J0 * T.width[I0] / M
    v0, d0 = ask(restart, Fr(1, 2), Fr(1, 2), restart)
    if d0 is None:
        c.notes.append('the generator could not be interpreted: %s' % und[:2])
        c.coverage = {'explanation': 'not analysed: %s' % und[:2]}
        return
    samples = []
    for i in range(N_LAYERS):
        K = T.inner[i] / T.width[i] * M
        name = 'layer %d' % i
        # the fast path: value, sign, one draw
        js = [j for j in (1, 1000, int(K) // 2, int(K) - 2) if 0 < j < int(K) - 1]
        for s in (1, -1):
            for j in js:
                v, d = ask(word(i, s, j), Fr(1, 2), Fr(1, 2), restart)
                if d is None:
                    continue
                want = s * j * T.width[i] / M
                if v is None or not close(v, want):
                    c.violation('fast/%d' % i, '%s: the draw with magnitude %d and sign %+d yields %r, but a point of the layer at %s is called for' % (name, j, s, v, mpmath.nstr(want, 12)), at=at, layer=i)
                elif d != 1:
                    c.violation('fast-limit/%d' % i, '%s: the magnitude %d lies where the whole layer is under the curve (limit %s), but it is not accepted at once' % (name, j, mpmath.nstr(K, 10)), at=at, layer=i)
                else:
                    n['fast'] += 1
        # just beyond the limit a second draw is needed
        j = int(K) + 3
        if j < M:
            v, d = ask(word(i, 1, j), Fr(0), Fr(0), restart)
            if d == 1:
                c.violation('fast-limit/%d' % i, '%s: the magnitude %d is accepted at once although the layer reaches above the curve there (limit %s)' % (name, j, mpmath.nstr(K, 10)), at=at, layer=i)
            elif d is not None:
                n['fast_limits'] += 1
        # spare bits do not matter, and the three parts are independent
        if js:
            a, da = ask(word(i, 1, js[-1], 0xFFFFFFFF), Fr(1, 2), Fr(1, 2), restart)
            b, db = ask(word(i, 1, js[-1], 0), Fr(1, 2), Fr(1, 2), restart)
            if da is not None and db is not None and (a is None or b is None or not close(a, b.lo, 1e-15)):
                c.violation('bits', '%s: bits beyond index, sign and magnitude change the outcome' % name, at=at)
            else:
                n['spare_bits'] += 1
        if i < N_LAYERS - 1:
            ylo, yhi = T.f(T.x[i + 1]), T.f(T.x[i])
            fr = (0.1, 0.5, 0.9) if not thorough else (0.02, 0.1, 0.25, 0.5, 0.75, 0.9, 0.98)
            for q in fr:
                j = int(K + (M - K) * mpmath.mpf(q))
                if j <= K + 2 or j >= M - 2:
                    continue
                x = j * T.width[i] / M
                t = (T.f(x) - ylo) / (yhi - ylo)
                for s in (1, -1):
                    for dt, acc in ((-mpmath.mpf(10) ** -7, True), (mpmath.mpf(10) ** -7, False)):
                        tt = t + dt
                        if not 0 < tt < 1:
                            continue
                        tq = Fr(int(tt * 2 ** 80), 2 ** 80)
                        v, d = ask(word(i, s, j), tq, restart, Fr(1, 2))
                        if d is None:
                            continue
                        want, wd = (s * x, 2) if acc else (xr, 3)
                        if v is None or not close(v, want) or d != wd:
                            what = 'accepted' if acc else 'rejected, with a new attempt from a new draw'
                            c.violation('wedge/%d' % i, '%s, magnitude %d, height %s of the layer: the point at %s is %s the curve and must be %s; the generator returns %r after %s draws' % (
                                name, j, mpmath.nstr(tt, 12), mpmath.nstr(x, 12), 'under' if acc else 'above', what, v, d), at=at, layer=i)
                        else:
                            n['wedge_accept' if acc else 'wedge_reject'] += 1
        else:
            tail_way = {0, 1}
            for q in (0.1, 0.6, 0.95):
                j = int(K + (M - K) * mpmath.mpf(q))
                for u1 in (Fr(1, 1024), Fr(1, 4), Fr(5, 8), Fr(31, 32), Fr(0), Fr(1, 2 ** 24), Fr(1, 2 ** 40), Fr(1, 2 ** 52), 1 - Fr(1, 2 ** 24), 1 - Fr(1, 2 ** 40), 1 - Fr(1, 2 ** 52)):
                    for s in (1, -1):
                        # the excess over R is exponential with rate R, from u or 1 - u
                        cands = []
                        for w in sorted(tail_way, reverse=True):
                            w = 1 - u1 if w else u1
                            if w > 0:
                                cands.append(T.R - mpmath.log(mpmath.mpf(w.numerator) / w.denominator) / T.R)
                        v, d = ask(word(i, s, j), u1, Fr(0), restart)
                        if d is None:
                            continue
                        x = next((x for x in cands if v is not None and close(v, s * x)), None)
                        if x is None or d != 3:
                            if u1 == 0 and v is None:
                                continue
                            c.violation('tail', 'tail: the draw %s must yield %s; the generator returns %r after %s draws' % (u1, ' or '.join(mpmath.nstr(s * z, 12) for z in cands), v, d), at=at)
                            continue
                        if len(cands) == 2:
                            # the same way throughout
                            tail_way = {w for w in tail_way if close(v, s * (T.R - mpmath.log(mpmath.mpf(((1 - u1) if w else u1).numerator) / u1.denominator) / T.R))}
                        t = mpmath.exp(-(x - T.R) ** 2 / 2)
                        for dt, acc in ((-mpmath.mpf(10) ** -7, True), (mpmath.mpf(10) ** -7, False)):
                            tt = t + dt
                            if not 0 < tt < 1:
                                continue
                            tq = Fr(int(tt * 2 ** 80), 2 ** 80)
                            v, d = ask(word(i, s, j), u1, tq, restart, Fr(1, 2))
                            if d is None:
                                continue
                            want, wd = (s * x, 3) if acc else (xr, 4)
                            if v is None or not close(v, want) or d != wd:
                                c.violation('tail', 'tail, point %s, acceptance draw %s: it must be %s (acceptance probability %s); the generator returns %r after %s draws' % (
                                    mpmath.nstr(x, 12), mpmath.nstr(tt, 12), 'accepted' if acc else 'rejected', mpmath.nstr(t, 12), v, d), at=at)
                            else:
                                n['tail_accept' if acc else 'tail_reject'] += 1
        if i % 16 == 5:
            samples.append('%s: width %s, under the curve up to magnitude %s' % (name, mpmath.nstr(T.width[i], 10), mpmath.nstr(K, 10)))
    # rejected attempts carry nothing over
    a, da = ask(word(0, -1, M - 10), 1 - Fr(1, 2 ** 30), restart)
    b, db = ask(word(126, 1, M - 10), 1 - Fr(1, 2 ** 30), word(0, -1, M - 10), 1 - Fr(1, 2 ** 30), restart)
    for v, d, w in ((a, da, 3), (b, db, 5)):
        if d is None:
            continue
        if v is None or not close(v, xr) or d != w:
            c.violation('restart', 'after rejected attempts the next one must start over with new draws; the generator returns %r after %s draws instead of %s after %d' % (v, d, mpmath.nstr(xr, 12), w), at=at)
        else:
            n['restarts'] += 1
    c.coverage = {
        'explanation': 'The generator is interpreted abstractly with its draws given as exact values, for every layer, both signs and magnitudes on either side of every limit; the layers, their limits and acceptance heights are recomputed '
                       'independently from the condition that 128 layers have equal area and close at the top of the curve. Each outcome (value, number of draws consumed, restart) must be the one of the exact ziggurat.',
        'layers': N_LAYERS, 'recomputed_R': mpmath.nstr(T.R, 15), 'recomputed_area': mpmath.nstr(T.v, 15), 'counts': n, 'undecided': und, 'samples': samples,
    }
    c.assumptions = ['heights and widths are stored with 13 significant digits: acceptance heights are decided to 1e-7, values to 1e-9',
                     'the magnitude has 24 bits: samples are multiples of a layer dependent step']


CHECKS = {'C08': run}
