"""C22: the cumulative table of the categorical law."""
import math, time
from fractions import Fraction as Fr
from .. import ra, cases, spec, fe
from ..run import *

VECS = [
    (1.0,), (0.5, 0.5), (0.25, 0.75), (0.0, 1.0), (1.0, 0.0), (0.0, 0.75, 0.25, 0.0), (0.1,) * 10, (1 / 3,) * 3, (1 / 6,) * 6, (1 / 7,) * 7, (0.7, 0.1, 0.2), (0.2, 0.1, 0.7),
    (0.1, 0.2, 0.3, 0.4), (0.4, 0.3, 0.2, 0.1), (0.0, 0.0, 1.0, 0.0, 0.0), (0.5, 0.0, 0.5), (0.0, 0.1, 0.0, 0.2, 0.0, 0.7, 0.0), (0.1, 0.1, 0.8, 0.0, 0.0), (1e-17, 1.0), (1.0, 1e-17), (0.5, 0.5, 1e-17),
    (1e-300, 0.5, 0.5), (0.3, 0.6, 0.1), (0.6, 0.3, 0.1), (0.05,) * 20, (0.9, 0.05, 0.05), (0.1,) * 9 + (0.1, 0.0), (0.0,) + (0.1,) * 10, (0.7 + 1e-13, 0.1, 0.2), (0.7 - 1e-13, 0.1, 0.2), (0.33, 0.33, 0.34),
    (0.7 + 5e-13, 0.1, 0.2), (0.25, 0.25, 0.25, 0.25 + 4e-13, 1e-14, 0.0), (0.01,) * 100, tuple(2.0 ** -i for i in range(1, 30)) + (2.0 ** -29,),
    (0.5, 0.5 - 2.0 ** -34, 2.0 ** -34), (0.25, 0.75 - 2.0 ** -24, 0.0, 2.0 ** -24, 0.0), (2.0 ** -30, 1 - 2.0 ** -30), (1 - 2.0 ** -37, 2.0 ** -37), (0.0, 2.0 ** -36, 0.5, 0.5 - 2.0 ** -36), (1 / 512,) * 512,
    (0.5, 0.5 - 2.0 ** -44, 2.0 ** -44), (0.25, 0.5, 0.25 - 2.0 ** -41, 2.0 ** -41, 0.0), (2.0 ** -44, 0.5, 0.5 - 2.0 ** -44), (0.0, 2.0 ** -50, 1 - 2.0 ** -50), (1 - 2.0 ** -48, 0.0, 2.0 ** -48),
    (0.5, 2.0 ** -46, 0.5 - 2.0 ** -46), (0.0,) * 270 + (0.25, 0.5, 0.25) + (0.0,) * 30,
]
TYPE = 'categorical::Categorical'


def mined(prog, lim):
    """vectors on and around the boundaries of the comparisons met in the code"""
    out = []
    for w in ('1/4 1/2 1/4', '0 1/8 3/8 1/2 0', '1/16 15/16'):
        prm = (tuple(Fr(x) for x in w.split()),)
        for m, args in (('distribution', (Fr(0),)), ('distribution', (Fr(1),)), ('inverse', (Fr(1, 5),)), ('mass', (Fr(1),))):
            if time.time() > lim:
                return out
            try:
                op = Op(prog, TYPE, m, k=len(prm[0]))
                o = spec.limited(spec.probe, 10, op, prm, args, op.fn['inputs'][1:])
                if o is None or o.res is None:
                    continue
                gs = sorted(spec.atoms(list(o.res.ev.guards)), key=lambda g: (len(spec.syms_of(g)), g.id))
                gs = [g for g in gs if any(s.startswith('c') for s in spec.syms_of(g))][:12]
                op.asyms = [sym('x0', op.fn['inputs'][1])]
                for p, _ in spec.mine(op, [(prm, args)], gs, op.cfn['inputs'], maxnew=300, deadline=time.time() + 5):
                    v = tuple(float(x) for x in p[0])
                    if v not in out and all(Fr(x) == y for x, y in zip(v, p[0])):
                        out.append(v)
            except (Missing, Unsupported, Unknown, Undecided, Panic, spec.Timeout, TypeError, KeyError, AttributeError, ValueError, ZeroDivisionError):
                continue
    return out


def tab(v):
    return '[%s]' % (', '.join(repr(x) for x in v) if len(v) <= 8 else '%r, ... (%d)' % (v[0], len(v)))


def run(c, prog):
    thorough = c.tier == 'thorough'
    n = {'tables': 0, 'entries': 0, 'monotone': 0, 'ones': 0, 'grows': 0, 'inverse': 0, 'sampled': 0, 'masses': 0, 'undecided': 0}
    und, samples = [], []
    vecs = list(VECS)
    more = [v for v in mined(prog, time.time() + 60) if v not in vecs]
    vecs += more[::max(1, len(more) // (400 if thorough else 80))]
    until = time.time() + (3000 if thorough else 400)
    if thorough:
        import random
        r = random.Random(22)
        for _ in range(60):
            k = r.randint(2, 30)
            w = [r.choice([0.0, r.random(), r.random() ** 8]) for _ in range(k)]
            if sum(w) == 0:
                continue
            s = sum(w)
            vecs.append(tuple(x / s for x in w))
    at = {}
    for vec in vecs:
        if time.time() > until:
            c.notes.append('time limit: not all vectors were analysed')
            break
        k = len(vec)
        ops = {}
        try:
            for m in ('distribution', 'inverse', 'mass', 'sample'):
                ops[m] = Op(prog, TYPE, m, k=k)
                at[m] = ops[m].fn['sp']
        except Missing as e:
            c.violation('missing', 'missing: %s' % e)
            continue

        def ask(m, *args, draws=None):
            try:
                if draws is not None:
                    return run_cell(ops[m], (list(vec),), (), draws=draws, cls=fe.FDrawEval, lift=fe.fv).value
                return run_cell(ops[m], (list(vec),), args, cls=fe.FDrawEval, lift=fe.fv).value
            except Panic as e:
                c.violation('%s/panic' % m, '%s(%s) of %s panics: %s' % (m, ', '.join(map(repr, args or draws or ())), tab(vec), e), at=at[m])
            except (Unsupported, Unknown, Undecided, TypeError, KeyError, AttributeError) as e:
                n['undecided'] += 1
                if len(und) < 20:
                    und.append('%s %s: %s' % (m, tab(vec), e))
            return None
        n['tables'] += 1
        last = max(i for i, p in enumerate(vec) if p > 0)
        first = min(i for i, p in enumerate(vec) if p > 0)
        F = []
        # where every partial sum is a double, no rounding can hide a category
        fine = min(p for p in vec if p > 0) / 2 if all((p * 2.0 ** 52).is_integer() for p in vec) and sum(map(Fr, vec)) == 1 else 0
        idx = range(k) if k <= 40 else sorted({0, 1, 2, 3, 10, 50, k - 3, k - 2, k - 1, first, last, k // 2} | {i for i in (255, 256, 257, 271) if i < k})
        prev = None
        for i in idx:
            f = ask('distribution', float(i))
            F.append(f)
            if f is None:
                prev = None
                continue
            n['entries'] += 1
            w = 'cumulative table of %s' % tab(vec)
            exact = math.fsum(vec[:i + 1])
            if f.nan == 2 or f.hi < 0 or f.lo > 1:
                c.violation('range', '%s: entry %d is %r, outside [0, 1]' % (w, i, f), at=at['distribution'])
            if i >= last:
                if f.point() and f.lo == 1:
                    n['ones'] += 1
                elif f.nan == 2 or f.hi < 1 or f.lo > 1:
                    c.violation('one', '%s: entry %d is %r, not one, although no later category is possible' % (w, i, f), at=at['distribution'])
            elif fine and (f.nan == 2 or f.lo > exact + fine or f.hi < exact - fine):
                c.violation('sum', '%s: entry %d is %r instead of %r, which is exact in floating point' % (w, i, f, exact), at=at['distribution'])
            elif f.lo > exact + 1e-11 or f.hi < exact - 1e-11:
                c.violation('sum', '%s: entry %d is %r instead of %r' % (w, i, f, exact), at=at['distribution'])
            if prev is not None and prev[0] == i - 1:
                g = prev[1]
                if f.hi < g.lo:
                    c.violation('monotone', '%s decreases from %r to %r at entry %d' % (w, g, f, i), at=at['distribution'])
                elif f.lo >= g.hi:
                    n['monotone'] += 1
                if i <= last and vec[i] > 1e-12 and f.hi <= g.lo and g.lo < 1:
                    c.violation('grows', '%s does not grow at entry %d although its probability is %r' % (w, i, vec[i]), at=at['distribution'])
                elif vec[i] == 0 and f.lo > g.hi:
                    c.violation('grows', '%s grows from %r to %r at entry %d although its probability is zero' % (w, g, f, i), at=at['distribution'])
                else:
                    n['grows'] += 1
            prev = (i, f)
        for i in idx:
            m = ask('mass', i)
            if m is None:
                continue
            if m.hi < vec[i] * (1 - 1e-12) or m.lo > vec[i] * (1 + 1e-12):
                c.violation('mass', 'mass(%d) of %s is %r' % (i, tab(vec), m), at=at['mass'])
            else:
                n['masses'] += 1
        for x, w in ((-1.0, 0), (-0.5, 0), (k + 0.0, 1), (k + 7.5, 1), (1e300, 1)):
            f = ask('distribution', x)
            if f is not None and (f.hi < w or f.lo > w):
                c.violation('outside', 'distribution(%r) of %s is %r instead of %d' % (x, tab(vec), f, w), at=at['distribution'])
        # the table and the quantile agree (as doubles)
        if k <= 40 and all(f is not None and f.point() for f in F):
            vals = [f.lo for f in F]
            ps = {0.0, 1.0, 0.5}
            for v in (vals if k <= 12 else vals[:3] + vals[-3:]):
                ps |= {v, math.nextafter(v, 0.0), min(1.0, math.nextafter(v, 2.0))}
            for p in sorted(ps):
                if not 0 <= p <= 1:
                    continue
                want = next((i for i in range(k) if vals[i] >= p and vals[i] > 0), None)
                got = ask('inverse', p)
                if got is None or want is None:
                    continue
                if got.lo == got.hi and (int(got.lo) != want):
                    g = int(got.lo)
                    if 0 <= g < k and vec[g] > 0 and abs(vals[g] - p) < 1e-11 or (g > 0 and 0 < g < k and vec[g] > 0 and abs(vals[g - 1] - p) < 1e-11):
                        n['inverse'] += 1      # within rounding of a step
                        continue
                    c.violation('inverse', 'inverse(%r) of %s is %d, but %d is the smallest possible category whose cumulative probability reaches it' % (p, tab(vec), g, want), at=at['inverse'])
                elif got.lo == got.hi:
                    n['inverse'] += 1
            for u in sorted(ps | {math.nextafter(1.0, 0.0), 2.0 ** -64, 0.3, 0.9}):
                got = ask('sample', draws=[u] * 4)
                if got is None or got.lo != got.hi:
                    continue
                g = int(got.lo)
                if not 0 <= g < k or vec[g] <= 0:
                    c.violation('sample', 'the draw %r yields the impossible category %d of %s' % (u, g, tab(vec)), at=at['sample'])
                n['sampled'] += 1
        if len(samples) < 8:
            samples.append('%s: %s' % (tab(vec), ', '.join(repr(f) for f in F[:6])))
    c.coverage = {
        'explanation': 'The constructor and the operations are interpreted abstractly in the floating-point interval domain on probability vectors that provoke rounding, vanishing and last-place effects; every entry of the cumulative '
                       'table (as observed through the CDF) is checked for range, monotonicity, growth exactly at possible categories and being exactly one from the last possible one on, and quantile and sampling for agreement with the table.',
        'counts': n, 'undecided': und, 'samples': samples,
    }
    c.assumptions = ['vectors of at most 512 categories']


CHECKS = {'C22': run}
