"""C07: samples follow the law, from fresh and independent randomness."""
import math, time
from fractions import Fraction as Fr
import itertools
from .. import ra, fe, laws, cases, alg, spec
from ..alg import X
from ..run import *
from ..run import env_of, DrawEval
from .ziggurat_check import Tables, BITS

M = 1 << BITS
INVERSION = ['bernoulli::Bernoulli', 'binomial::Binomial', 'categorical::Categorical', 'exponential::Exponential', 'laplace::Laplace', 'logistic::Logistic', 'triangular::Triangular', 'uniform::Uniform']


def kinds(tok):
    """types of the draws taken, in order"""
    r = []
    while tok.op == 'adv':
        r.append(tok.args[1])
        tok = tok.args[0]
    return r[::-1] if tok.op == 'sym' else None


def typed(base, words, us, lift):
    words, us = [lift(w) for w in words], [lift(u) for u in us]

    class E(base):
        def _val(self, n):
            if n.op == 'draw' and n not in self.env:
                k, t = 0, n.args[0]
                while t.op == 'adv':
                    if t.args[1] == n.ty:
                        k += 1
                    t = t.args[0]
                q = us if n.ty == 'f64' else words if n.ty == 'u64' else ()
                if t.op == 'sym' and k < len(q):
                    return q[k]
                raise Unknown('no more draws')
            return base._val(self, n)
    return E


class Asker:
    def __init__(self, c, prog):
        self.c, self.prog = c, prog
        self.und = {}
        self.n = 0
        self.until = time.time() + 600
        self.ops = {}

    def op(self, ty, prm):
        k = next((len(x) for x in prm if isinstance(x, tuple)), None)
        if (ty, k) not in self.ops:
            self.ops[ty, k] = Op(self.prog, ty, 'sample', k=k)
        return self.ops[ty, k]

    def __call__(self, ty, prm, words=(), us=(), flt=False):
        """(value, kinds of draws) or (None, reason)"""
        op = self.op(ty, prm)
        before = len(N.table)
        try:
            return self.once(op, ty, prm, words, us, flt)
        finally:
            # nothing but the value outlives the evaluation: forget its nodes
            while len(N.table) > before:
                N.table.popitem()

    def once(self, op, ty, prm, words, us, flt):
        self.n += 1
        secs = min(10, self.until - time.time())
        if secs <= 0:
            self.und['time limit of the check'] = self.und.get('time limit of the check', 0) + 1
            return None, 'unknown'
        try:
            if flt:
                lift = fe.fv
                pv = [int(x) if t in INT_BITS else [float(y) for y in x] if isinstance(x, tuple) else float(x) for x, t in zip(prm, op.cfn['inputs'])]
                r = spec.limited(lambda: run_cell(op, pv, (), cls=typed(fe.FDrawEval, words, us, lift), lift=lift), secs)
            else:
                lift = ra.lift
                pv = [[ra.exact(y) for y in x] if isinstance(x, tuple) else ra.exact(x) for x in prm]
                r = spec.limited(lambda: run_cell(op, pv, (), cls=typed(DrawEval, words, us, lift)), secs)
            kk = kinds(r.state.mem['rng'])
            if kk is None:
                s = '%s: draws not followed' % name(ty)
                self.und[s] = self.und.get(s, 0) + 1
                return None, 'unknown'
            return r.value, kk
        except Panic as e:
            self.c.violation('%s/panic' % name(ty), '%s(%s).sample panics for the draws %s: %s' % (name(ty), show_prm(prm), show_draws(words, us), e), at=op.fn['sp'])
            return None, 'panic'
        except spec.Timeout:
            s = '%s: time limit of one evaluation' % name(ty)
            self.und[s] = self.und.get(s, 0) + 1
            return None, 'unknown'
        except (Unknown, Undecided, Unsupported) as e:
            s = str(e)
            if 'no more draws' in s or 'random loop' in s:
                return None, 'more'
            s = '%s: %s' % (name(ty), s[:120] or 'guards undecided')
            self.und[s] = self.und.get(s, 0) + 1
            return None, 'unknown'
        except (TypeError, AttributeError, KeyError, IndexError, RecursionError) as e:
            s = '%s: internal %s' % (name(ty), e)
            self.und[s] = self.und.get(s, 0) + 1
            return None, 'unknown'


def name(ty):
    return ty.split('::')[1]


def show_prm(prm):
    return ', '.join('[%s]' % ', '.join('%g' % float(y) for y in x) if isinstance(x, tuple) else '%g' % float(x) for x in prm)


def show_draws(words, us):
    return '%s%s' % ([float(u) for u in us] if us else '', [hex(int(w)) for w in words] if words else '')


def near(v, x, rel=1e-9, abs_=1e-25):
    if not isinstance(v, V) or v.nan:
        return False
    x = x if isinstance(x, V) else ra.lift(x)
    t = max(abs(x.lo), abs(x.hi)) * rel + abs_
    return v.lo - x.hi <= t and x.lo - v.hi <= t and v.hi - v.lo <= 10 * t


# ------------------------------------------------------------------------------------ inversion
US = [Fr(x) for x in ('1/1048576', '1/1024', '3/128', '5/64', '1/8', '3/16', '2/7', '5/16', '27/64', '15/32', '17/32', '5/9', '37/64', '11/16', '13/16', '7/8', '59/64', '125/128', '1023/1024', '1048575/1048576')]


def subst_draw(n, memo):
    if n in memo:
        return memo[n]
    if n.op == 'draw':
        r = sym('x0')
    else:
        args = tuple(subst_draw(a, memo) if isinstance(a, N) else tuple(subst_draw(b, memo) if isinstance(b, N) else b for b in a) if isinstance(a, tuple) else a for a in n.args)
        r = n if all(p is q for p, q in zip(args, n.args)) else mk(n.op, args, n.ty)
    memo[n] = r
    return r


def more(ask, ty, known, n):
    """parameters on either side of the comparisons that the sampler makes between parameters"""
    r = [p for p in mined(ask, ty)[0] if p not in known][:8]
    n['mined'] = n.get('mined', 0) + len(r)
    return r


class Shim:
    def __init__(self, op, method):
        self.ty, self.ctor, self.cfn, self.fn, self.method, self.asyms, self.k = op.ty, op.ctor, op.cfn, op.fn, method, [], op.k


def mined(ask, ty):
    """(parameters, first uniform draws, pairs of both) on either side of the comparisons of a sampler"""
    prms, us, pairs = [], [], {}
    try:
        base = [p for p in cases.PARAMS[ty, 'new'] if not isinstance(p[0], tuple) or len(p[0]) < 6]
        op = ask.op(ty, base[0])
        base = [p for p in base if not isinstance(p[0], tuple) or len(p[0]) == len(base[0][0])]
        try:
            g, v, st = graph(op)
            todo = leaves_of(v) + [o.cond for o in getattr(g, 'obl', []) if isinstance(o.cond, N)]
        except Unsupported:
            todo = []
            for prm in base[:3]:
                for u in (Fr(1, 7), Fr(5, 7)):
                    pv = [[ra.exact(y) for y in x] if isinstance(x, tuple) else ra.exact(x) for x in prm]
                    r = spec.limited(lambda: run_cell(op, pv, (), cls=typed(DrawEval, [0x12345678] * 8, [ra.lift(u)] * 8, ra.lift)), 10)
                    todo += [x for x in r.ev.guards if isinstance(x, N)]
        plain_op, draw_op = Shim(op, 'sample'), Shim(op, 'inverse')
        memo, plain, drawn, both = {}, [], [], []
        for a in spec.atoms(todo):
            ds = draws_of(a)
            cs = spec.syms_of(a) - {'rng'}
            if not ds:
                plain += [a] if cs else []
            elif all(d.ty == 'f64' for d in ds) and len(ds) == 1:
                (both if cs else drawn).append(subst_draw(a, memo))
        for prm, _ in spec.mine(plain_op, [(p, ()) for p in base[:5]], plain, op.cfn['inputs'], maxnew=16, deadline=time.time() + 10):
            if prm not in prms and prm not in base and cases.valid(ty, 'new', prm):
                prms.append(prm)
        roots = []
        for b in drawn[:12]:
            sg = [(t, sign_at(b, t)) for t in GRID]
            sg = [(t, s) for t, s in sg if s is not None]
            for (t0, s0), (t1, s1) in zip(sg, sg[1:]):
                if s0 != s1:
                    r = bisect(b, t0, t1, s0)
                    if r:
                        roots.append(r)
        roots.sort()
        for r in roots:
            us += r
        us += [(a[1] + b[0]) / 2 for a, b in zip(roots, roots[1:]) if a[1] < b[0]]
        if roots:
            us += [GRID[0], roots[0][0] / 2, (1 + roots[-1][1]) / 2, GRID[-1]]
        us = [u for u in us if GRID[0] <= u <= GRID[-1]]
        for prm, (u,) in spec.mine(draw_op, [(p, (Fr(5, 16),)) for p in base[:3]], both[:12], op.cfn['inputs'], maxnew=40, deadline=time.time() + 10):
            if 0 < u < 1 and cases.valid(ty, 'new', prm):
                pairs.setdefault(prm, []).append(u)
    except (Unsupported, Missing, Unknown, Undecided, TypeError, AttributeError, KeyError, ValueError, IndexError, RecursionError, Panic, spec.Timeout) as e:
        s = 'guards of %s::sample: %s' % (name(ty), str(e)[:80])
        ask.und[s] = ask.und.get(s, 0) + 1
    us = sorted(set(us))
    return prms[:12], us if len(us) <= 30 else us[:10] + us[10:-10:max(1, len(us) // 10)][:10] + us[-10:], dict(list(pairs.items())[:12])


def leaves_of(v):
    from ..evalr import leaf_nodes
    return list(leaf_nodes(v)) if not isinstance(v, N) else [v]


_drawmemo = {}


def draws_of(n):
    """the draws a node depends on"""
    if n not in _drawmemo:
        r = frozenset([n]) if n.op == 'draw' else frozenset()
        _drawmemo[n] = r
        for a in n.args:
            for b in (a if isinstance(a, tuple) else (a,)):
                if isinstance(b, N):
                    r |= draws_of(b)
        _drawmemo[n] = r
    return _drawmemo[n]


def has_draw(n):
    return bool(draws_of(n))


# draws outside of this range have a probability that no use of the law notices
GRID = [Fr(1, 2 ** e) for e in range(44, 1, -1)] + [Fr(i, 37) for i in range(10, 28)] + [Fr(1, 2) + s * Fr(1, 2 ** e) for e in (12, 22, 34, 44) for s in (-1, 1)] + [1 - Fr(1, 2 ** e) for e in range(2, 45)]
GRID.sort()


def bisect(g, a, b, sa):
    for _ in range(60):
        if b - a <= Fr(1, 2 ** 50) * min(b, 1):
            break
        m = (a + b) / 2
        m = Fr(int(m * 2 ** 120), 2 ** 120)
        s = sign_at(g, m)
        if s is None:
            break
        a, b = (m, b) if s == sa else (a, m)
    return a, b


def sign_at(g, t):
    try:
        ev = spec.Eval({'x0': ra.exact(t)})
        return ev.val(g.args[0]) < ev.val(g.args[1])
    except (Unknown, Undecided, TypeError, ValueError):
        return None


def inversion(c, ask, ty, n, samples):
    t = name(ty)
    disc = laws.LAWS[ty].discrete
    at = ask.op(ty, cases.PARAMS[ty, 'new'][0]).fn['sp']
    # the same term as the quantile at the draw?
    try:
        if ty != 'categorical::Categorical':
            _, v, st = graph(Op(ask.prog, ty, 'sample'))
            _, w, _ = graph(Op(ask.prog, ty, 'inverse'))
            if isinstance(v, N) and kinds(st.mem['rng']) == ['f64'] and subst_draw(v, {}) is w:
                n['identical_to_quantile'].append(t)
    except (Unsupported, Missing, TypeError):
        pass
    extra, mined_all, pairs = mined(ask, ty)
    n['mined'] = n.get('mined', 0) + len(extra) + len(mined_all) + sum(len(x) for x in pairs.values())
    plist = list(cases.PARAMS[ty, 'new'])
    for prm in plist + [p for p in list(extra) + list(pairs) if p not in plist]:
        mined_us = mined_all + pairs.get(prm, [])
        op = ask.op(ty, prm)
        pv = [spec.vbox(x, tt, None) for x, tt in zip(prm, op.cfn['inputs'])]
        law = spec.law_of(ty, 'new', op.cfn['inputs'], pv)
        if disc:
            us = [u for u in spec.dqs(op, prm, prm) if 0 < u < 1]
            if ty == 'binomial::Binomial' and prm[0] <= 12:
                # a tie of the draw with a step has no weight: either side will do
                steps = list(itertools.accumulate(math.comb(int(prm[0]), i) * prm[1] ** i * (1 - prm[1]) ** (int(prm[0]) - i) for i in range(int(prm[0]) + 1)))
                us = [u for u in us if u not in steps and 1 - u not in steps]
            us = us[:40] + [u for u in mined_us if u not in us]
        else:
            us = US + [u for u in mined_us if u not in US]
        fits = {'u': True, '1-u': True}
        bad = {}
        known = {}
        for u in us:
            v, k = ask(ty, prm, us=[u, Fr(1, 3), Fr(2, 5), Fr(1, 7)], words=[int(u * (M - 1))] + [0x12345678] * 2)
            if v is None:
                if k == 'more':
                    c.violation(t + '/draws', '%s(%s).sample reads more than a few draws for the first draw %s' % (t, show_prm(prm), u), at=at)
                continue
            if k == ['u64'] and BITS == 64:
                # the source maps its words to the unit interval in the same way
                u = Fr(int(u * (M - 1)), M - 1)
            elif k != ['f64']:
                fits = None
                bad['draws'] = 'the sample takes the draws %s' % k
                break
            for o, w in (('u', u), ('1-u', 1 - u)):
                if not fits[o]:
                    continue
                try:
                    if disc:
                        ok = exact_step(law, ty, v, w)
                        if ok is None and ty == 'binomial::Binomial':
                            ok = True
                        if ok is False and ty == 'binomial::Binomial':
                            N_, p_ = prm
                            q = law.inverse(X(ra.exact(w)))
                            if v.q is not None and v.q < q and spec.newton_exit(law, N_, p_, v, w):
                                known.setdefault(o, 'Binomial(%s).sample at the draw %.17g yields %s, but the smallest value with the CDF at or above it is %s' % (show_prm(prm), float(u), v, q))
                                ok = True
                    else:
                        f = law.cdf(X(v)).v
                        rel, tiny = ra.mpf(10) ** -8, ra.mpf(10) ** -30
                        ok = ra.compare(f, ra.exact(w), rel=rel, tiny=tiny) if w <= Fr(1, 2) else ra.compare(ra.sub(ra.ONE, f), ra.exact(1 - w), rel=rel, tiny=tiny)
                        ok = {'eq': True, 'ne': False, 'unk': None}[ok]
                except (Undecided, laws.Skip):
                    ok = None
                if ok is False:
                    fits[o] = False
                    bad[o] = 'at the draw u = %.10g it yields %s, which has the CDF %s' % (float(u), v, cdf_at(law, ty, v))
                elif ok:
                    n['points'] += 1
        for o in known:
            if fits and fits[o]:
                c.finding('Binomial::sample/newton-exit-truncates', known[o], at=at)
        if fits is None or not any(fits.values()):
            if disc and ty != 'binomial::Binomial' and fits is not None and measure_fits(ask, ty, prm, law):
                n['measured'] += 1
                continue
            c.violation(t + '/law', '%s(%s).sample is no inversion of the distribution function: %s' % (t, show_prm(prm), '; '.join(bad.values())), at=at)
        elif len(samples) < 20:
            samples.append('%s(%s): CDF(sample(u)) = %s at %d draws' % (t, show_prm(prm), [o for o in fits if fits[o]][0], len(us)))


def cdf_at(law, ty, v):
    try:
        return repr(law.cdf(X(v)))
    except Exception:
        return '?'


def exact_step(law, ty, v, w):
    """is v the smallest value whose CDF is at least w?"""
    if not isinstance(v, V) or v.q is None:
        return None
    x = X(ra.exact(w))
    try:
        r = law.inverse(x)
    except Undecided:
        # a tie of the draw with a step: either side
        return None
    if isinstance(r, X):
        r = int(r.v.q)
    return v.q == r


def measure_fits(ask, ty, prm, law):
    """measure of the draws that yield each value, by an adaptive partition of the unit interval"""
    k = 2 if ty == 'bernoulli::Bernoulli' else len(prm[0])
    op = ask.op(ty, prm)
    pv = [[ra.exact(y) for y in x] if isinstance(x, tuple) else ra.exact(x) for x in prm]
    got = {}
    todo = [(Fr(i, 32), Fr(i + 1, 32)) for i in range(32)]
    left = Fr(0)
    while todo:
        a, b = todo.pop()
        try:
            v = run_cell(op, pv, (), cls=typed(DrawEval, [], [ra.box(a, b)], ra.lift)).value
            q = v.q
        except (Unknown, Undecided, Unsupported, Panic):
            q = None
        if q is not None:
            got[int(q)] = got.get(int(q), Fr(0)) + b - a
        elif b - a > Fr(1, 2 ** 46):
            todo += [(a, (a + b) / 2), ((a + b) / 2, b)]
        else:
            left += b - a
    for i in range(k):
        m = law.mass(i).v
        if m.lo > ra.lift(got.get(i, Fr(0)) + left).hi * (1 + 1e-9) + 1e-13 or m.hi < ra.lift(got.get(i, Fr(0))).lo * (1 - 1e-9) - 1e-13:
            return False
    return all(0 <= i < k for i in got)


# ------------------------------------------------------------------------------------ normal draws
class Normals:
    """words of the source for which the standard Gaussian sample is known and takes a single draw"""

    def __init__(self, ask):
        T = Tables()
        self.ask = ask
        self.table = []
        self.ok = True
        self.slow = []
        self.T = T
        self.near = {}
        for x in (-3.3, -2.9, -2.5, -2.1, -1.7, -1.3, -0.9, -0.5, -0.2, -0.04, 0.03, 0.25, 0.6, 1.0, 1.4, 1.8, 2.2, 2.6, 3.0, 3.4):
            p = self.at(x)
            if p:
                self.table.append(p)
        self.table.sort(key=lambda t: t[1].lo)

    def at(self, x):
        """a word that yields a deviate next to x at once, and the deviate"""
        x = round(x, 6)
        if x not in self.near:
            T = self.T
            i = next((i for i in range(1, 128) if T.inner[i] > abs(x) * 1.001), None)
            if i is None:
                return None
            j = int(abs(x) / T.width[i] * M)
            w = i | (128 if x > 0 else 0) | (j << 8)
            v, k = self.ask('gaussian::Gaussian', (Fr(0), Fr(1)), words=[w], us=[])
            self.near[x] = (w, v) if v is not None and k == ['u64'] and not v.nan and v.hi - v.lo < 1e-12 else None
        return self.near[x]

    def around(self, k):
        """deviates on either side of the one where the candidate of shape k vanishes"""
        z = -3 * math.sqrt(float(k) - 1 / 3)
        r = [self.at(z * (1 - q)) for q in (-0.02, -0.003, 0.003, 0.02, 0.06, 0.12, 0.2) if abs(z * (1 - q)) < 3.4]
        return [p for p in r if p]

    def get(self, x):
        return min(self.table, key=lambda t: abs(t[1].lo - x))


def gaussian_family(c, ask, Z, n):
    slow = []
    T = Tables()
    # a draw that falls into the wedge and is accepted there, one rejected, one in the tail
    for i, q in ((40, 0.5), (90, 0.3), (127, 0.6)):
        K = T.inner[i] / T.width[i] * M
        j = int(K + (M - K) * q)
        for s in (0, 128):
            slow.append(([i | s | (j << 8), Z.get(0.6)[0], Z.get(-1)[0]], [Fr(1, 1000), Fr(1, 500), Fr(1, 3)]))
            slow.append(([i | s | (j << 8), Z.get(0.6)[0], Z.get(-1)[0]], [Fr(999, 1000), Fr(1, 500), Fr(1, 3)]))
    seqs = [([w], []) for w, _ in Z.table] + slow
    std = {}
    for k, (ws, us) in enumerate(seqs):
        std[k] = ask('gaussian::Gaussian', (Fr(0), Fr(1)), words=ws, us=us)
    Z.slow = [(ws[:1], us, z[0], z[1]) for (ws, us), z in zip(seqs, std.values()) if z[0] is not None and z[1] != ['u64'] and z[1].count('u64') == 1]
    for ty in ('gaussian::Gaussian', 'lognormal::Lognormal'):
        at = ask.op(ty, (Fr(0), Fr(1))).fn['sp']
        for prm in cases.PARAMS[ty, 'new'] + more(ask, ty, cases.PARAMS[ty, 'new'], n):
            ori = {1: True, -1: True}
            why = ''
            for k, (ws, us) in enumerate(seqs):
                z, kz = std[k]
                if z is None:
                    continue
                v, kv = ask(ty, prm, words=ws, us=us)
                if v is None:
                    if kv == 'more':
                        ori = {1: False, -1: False}
                        why = 'it takes more draws than a standard Gaussian sample does'
                    continue
                if kv != kz:
                    ori = {1: False, -1: False}
                    why = 'it takes the draws %s where a standard Gaussian sample takes %s' % (kv, kz)
                    break
                for s in (1, -1):
                    want = ra.add(ra.exact(prm[0]), ra.mul(ra.exact(s * prm[1]), z))
                    if ty == 'lognormal::Lognormal':
                        want = ra.exp(want)
                    if not near(v, want, abs_=1e-30):
                        ori[s] = False
                        if s == 1:
                            why = 'where the standard Gaussian sample is %s it yields %s instead of %s' % (z, v, want)
                    elif s == 1:
                        n['gaussian_family'] += 1
            if not any(ori.values()):
                c.violation(name(ty) + '/law', '%s(%s).sample does not transform a standard Gaussian sample into its law: %s' % (name(ty), show_prm(prm), why), at=at)


def cauchy(c, ask, Z, n):
    ty = 'cauchy::Cauchy'
    at = ask.op(ty, (Fr(0), Fr(1))).fn['sp']
    pats = {'a/b': lambda a, b: a / b, 'a/|b|': lambda a, b: a / abs(b), '|a|/b': lambda a, b: abs(a) / b}
    few = [Z.get(x) for x in (-3.3, -1.2, -0.5, 0.25, 0.9, 2.2)]
    for ip, prm in enumerate(cases.PARAMS[ty, 'new'] + more(ask, ty, cases.PARAMS[ty, 'new'], n)):
        zs = few if ip else Z.table
        alive = {(p, r, s) for p in pats for r in (0, 1) for s in (1, -1)}
        why = ''
        single = False
        for (w1, a), (w2, b) in itertools.permutations(zs, 2):
            v, k = ask(ty, prm, words=[w1, w2, w1, w1], us=[Fr(3, 16), Fr(1, 3)])
            if v is None:
                if k == 'more':
                    alive, why = set(), 'it takes more than four draws'
                    break
                continue
            if k == ['f64']:
                single = True
                break
            if k != ['u64', 'u64']:
                alive, why = set(), 'the ratio of two independent Gaussian samples takes two draws, but the sample takes %s' % k
                break
            am, bm = (a.lo + a.hi) / 2, (b.lo + b.hi) / 2
            x0, g = ra.exact(prm[0]).lo, ra.exact(prm[1]).lo
            for (p, r, s) in sorted(alive):
                q = s * pats[p](*((bm, am) if r else (am, bm)))
                if not near(v, ra.widen(x0 + g * q, x0 + g * q), rel=1e-9, abs_=abs(g * q) * 1e-9):
                    alive.discard((p, r, s))
                else:
                    n['cauchy'] += 1
            if not alive:
                why = 'for the standard Gaussian samples %s and %s it yields %s' % (a, b, v)
                break
        # deviates from the wedges and the tail, which take more draws
        for (ws, us, a, ka) in Z.slow if alive and not single else ():
            w2, b = Z.get(0.9)
            for first in (0, 1):
                v, k = ask(ty, prm, words=ws + [w2] if first == 0 else [w2] + ws, us=us)
                if v is None:
                    continue
                want = ka + ['u64'] if first == 0 else ['u64'] + ka
                am, bm = (a.lo + a.hi) / 2, (b.lo + b.hi) / 2
                if first:
                    am, bm = bm, am
                x0, g = ra.exact(prm[0]).lo, ra.exact(prm[1]).lo
                if k != want or not any(near(v, ra.widen(x0 + g * q, x0 + g * q), rel=1e-9, abs_=abs(g * q) * 1e-9) for (p, r, s) in alive for q in [s * pats[p](*((bm, am) if r else (am, bm)))]):
                    alive, why = set(), 'for the standard Gaussian samples %s and %s it yields %s from the draws %s' % (am, bm, v, k)
                    break
                n['cauchy'] += 1
            if not alive:
                break
        if single:
            inversion(c, ask, ty, n, [])
            return
        if not alive:
            c.violation('Cauchy/law', 'Cauchy(%s).sample is not the location plus the scale times the ratio of two fresh Gaussian samples: %s' % (show_prm(prm), why), at=at)


# ------------------------------------------------------------------------------------ gamma
def mt(k, z):
    """Marsaglia and Tsang: candidate and probability of its acceptance"""
    import mpmath
    d = ra.lift(k - Fr(1, 3)).lo
    cc = 1 / (3 * mpmath.sqrt(d))
    x = (z.lo + z.hi) / 2
    v = (1 + cc * x) ** 3
    if v <= 0:
        return None, 0
    return d * v, mpmath.exp(x * x / 2 + d - d * v + d * mpmath.log(v))


def fq(x):
    """a dyadic rational next to the number"""
    return Fr(int(x * 2 ** 80), 2 ** 80)


EPS = EPSILON = Fr(1, 10 ** 7)


def gamma_rounds(ask, ty, prm, k, Z, flip, scale, tail_words=(), tail_us=(), wrap=None):
    """(ok, number of outcomes confirmed, text of the first mismatch) for the first gamma variate of a sampler"""
    n = 0
    U = (lambda u: 1 - u) if flip else (lambda u: u)
    w0, z0 = Z.get(0.25)
    w1, z1 = Z.get(-0.5)
    g0, A0 = mt(k, z0)
    g1, A1 = mt(k, z1)
    small = Fr(1, 64)
    for w, z in Z.table + Z.around(k):
        g, A = mt(k, z)
        EPS = EPSILON if A > 1e-4 else max(fq(A) / 1000, Fr(1, 2 ** 70))
        plans = []
        if g is None:
            plans.append(('v <= 0', [w, w0], [small], 0, g0))
        else:
            for f in (Fr(1, 100), Fr(1, 2)):
                plans.append(('well below the acceptance probability', [w, w0], [fq(A * (f.numerator / f.denominator))], 1, g))
            if A < 1 - 1e-5:
                plans.append(('just below the acceptance probability', [w, w0], [fq(A) - EPS], 1, g))
                plans.append(('just above the acceptance probability', [w, w0], [fq(A) + EPS], 0, g0))
                plans.append(('close to one', [w, w0], [1 - EPSILON], 0, g0) if A < 1 - 1e-5 else None)
                if A0 < 1 - 1e-6 or A1 < 1 - 1e-6:
                    # rejected twice
                    wa, ga, Aa = (w, g, A)
                    plans.append(('just above the acceptance probability, twice', [w, w, w1], [fq(A) + EPS, 1 - EPSILON / 2], 0, g1))
        for p in plans:
            if p is None:
                continue
            what, ws, us, acc, want = p
            us2 = [U(u) for u in us] + [U(small)] * (2 if not acc else 0)
            nw = 1 if acc else len(ws)
            nu = 1 if acc else len(us) + (0 if what == 'v <= 0' else 1)
            v, kk = ask(ty, prm, words=(ws[:nw] + list(tail_words) + [w0] * 3), us=us2[:nu] + list(tail_us) + [U(small)] * 3)
            if v is None:
                if kk == 'more':
                    return False, n, 'for the normal %s and the draw %s it asks for ever more draws' % (z, us)
                continue
            target = wrap(want) if wrap else want * scale
            cnt = ['u64', 'f64'] * 0
            expw = nw + len(tail_words)
            expu = nu + len(tail_us)
            if not near(v, ra.widen(target, target)) or kk.count('u64') != expw or kk.count('f64') != expu:
                import mpmath
                return False, n, 'for the normal deviate %s and the uniform draw %s (%s, %s) the sample must be %s from %d+%d draws (%s); it is %s from the draws %s' % (
                    z, ', '.join(mpmath.nstr(ra.lift(u).lo, 12) for u in us), what, mpmath.nstr(A, 10), mpmath.nstr(target, 10), expw, expu, 'accepted' if acc else 'rejected and started over', v, kk)
            n += 1
    return True, n, ''


def gamma_generic(ask, prm, k, Z):
    """does the measured acceptance probability turn the proposal into the gamma law, whatever the algorithm?"""
    import mpmath
    th = float(prm[1])
    cand, never = [], []

    def val(w, u):
        v, kk = ask('gamma::Gamma', prm, words=[w], us=[u])
        return v if v is not None and kk and kk.count('u64') == 1 and kk.count('f64') <= 1 else None
    for w, z in sorted(Z.table + Z.around(k), key=lambda t: t[1].lo):
        v = val(w, Fr(1, 10 ** 6)) or val(w, Fr(1, 2 ** 60))
        x = float((z.lo + z.hi) / 2)
        if v is None:
            never.append(x)
        else:
            cand.append((w, x, float((v.lo + v.hi) / 2) / th))
    if len(cand) < 8:
        return False
    # a candidate that is never accepted would have to lie outside of the support
    (_, x0, g0), (_, x1, g1) = cand[:2]
    if not (0 < g0 < g1 and x0 < x1):
        return False
    if any(g0 ** (1 / 3) + (g1 ** (1 / 3) - g0 ** (1 / 3)) / (x1 - x0) * (x - x0) > 1e-3 for x in never):
        return False
    pts = []
    for w, x, g in cand:
        lo, hi = Fr(0), Fr(1)
        if val(w, Fr(10 ** 9 - 1, 10 ** 9)) is not None:
            A = 1.0
        else:
            for _ in range(60):
                m = (lo + hi) / 2
                if val(w, m) is not None:
                    lo = m
                else:
                    hi = m
                if hi - lo < hi * Fr(1, 2 ** 18):
                    break
            A = float((lo + hi) / 2)
        pts.append((x, g, A))
        if A < 1 - 1e-5:
            # a rejection must start over with a new deviate and a new uniform
            w0, _ = Z.get(0.25)
            a, _ = ask('gamma::Gamma', prm, words=[w, w0], us=[fq(A) + EPS, Fr(1, 64)])
            b, _ = ask('gamma::Gamma', prm, words=[w0], us=[Fr(1, 64)])
            if a is not None and b is not None and not near(a, b):
                return False
    # log of phi(x) A(x) - log of the gamma density times the derivative of the transformation, up to a constant
    r = []
    for (x0, g0, A0), (x1, g1, A1), (x2, g2, A2) in zip(pts, pts[1:], pts[2:]):
        if not (0 < g0 < g1 < g2):
            return False
        d = (g2 ** (1 / 3) - g0 ** (1 / 3)) / (x2 - x0) * 3 * g1 ** (2 / 3)
        r.append(-x1 * x1 / 2 + math.log(A1) - (float(k) - 1) * math.log(g1) + g1 - math.log(d))
    return max(r) - min(r) < 1e-4


def gamma(c, ask, Z, n):
    ty = 'gamma::Gamma'
    at = ask.prog.fns.get('probability::distribution::gamma::sample', ask.op(ty, (Fr(2), Fr(1))).fn)['sp']
    extra = more(ask, ty, [], n)
    for prm in ([(Fr(k), Fr(t)) for k, t in (('1', '1'), ('1.5', '2'), ('2', '1/2'), ('10', '3'), ('1000', '1'), ('1.0625', '100'))] + [p for p in extra if p[0] >= 1]):
        k = prm[0]
        ok, m, why = gamma_rounds(ask, ty, prm, k, Z, False, ra.lift(prm[1]).lo)
        if not ok:
            ok2, m2, _ = gamma_rounds(ask, ty, prm, k, Z, True, ra.lift(prm[1]).lo)
            if not ok2 and not gamma_generic(ask, prm, k, Z):
                c.violation('Gamma/law', 'Gamma(%s).sample: %s' % (show_prm(prm), why), at=at)
                break
            m = max(m, m2)
        n['gamma'] += m
    import mpmath
    for prm in [(Fr(k), Fr(t)) for k, t in (('1/2', '1'), ('1/4', '3'), ('0.75', '1/2'), ('1/16', '1'))] + [p for p in extra if p[0] < 1]:
        k = prm[0]
        for x, u1, u2 in [(x, Fr(1, 8), Fr(5, 16)) for x in (-1.3, -0.5, 0.25, 1.4)] + [(0.25, a, b) for e in (12, 24, 40, 52) for q in (Fr(1, 2 ** e),) for a, b in ((Fr(1, 8), q), (q, Fr(1, 8)), (Fr(1, 8), 1 - q))]:
            w, z = Z.get(x)
            g, A = mt(1 + k, z)
            v, kk = ask(ty, prm, words=[w, w], us=[u1, u2, Fr(1, 3)])
            if v is None:
                if kk == 'more':
                    c.violation('Gamma/boost', 'Gamma(%s).sample takes too many draws' % show_prm(prm), at=at)
                continue
            cands = [prm[1] * 1 and ra.lift(prm[1]).lo * g * ra.lift(u).lo ** (1 / ra.lift(k).lo) for u in (u1, u2, 1 - u1, 1 - u2)]
            if sorted(kk) != ['f64', 'f64', 'u64'] or not any(near(v, ra.widen(t, t)) for t in cands):
                c.violation('Gamma/boost', 'Gamma(%s).sample with a shape below one must be a sample with the shape increased by one (%s) times a fresh uniform to the power of one over the shape; it is %s from the draws %s' % (
                    show_prm(prm), mpmath.nstr(g, 10), v, kk), at=at)
            else:
                n['gamma_boost'] += 1
        # rejection inside the boosted variate: the uniform of the power is not the one that was tested
        w, z = Z.get(2.2)
        w0, z0 = Z.get(0.25)
        g, A = mt(1 + k, z)
        g0, _ = mt(1 + k, z0)
        if A < 1 - 1e-5:
            for us in ([1 - EPS, Fr(1, 8), Fr(5, 16)], [Fr(5, 16), 1 - EPS, Fr(1, 8)]):
                v, kk = ask(ty, prm, words=[w, w0, w0], us=us + [Fr(1, 3)])
                if v is None:
                    continue
                cands = [ra.lift(prm[1]).lo * q * ra.lift(u).lo ** (1 / ra.lift(k).lo) for q in (g0, g) for u in us if u < Fr(1, 2) or q is g]
                if not any(near(v, ra.widen(t, t)) for t in cands):
                    c.violation('Gamma/boost', 'Gamma(%s).sample after a rejection yields %s from the draws %s' % (show_prm(prm), v, kk), at=at)
                else:
                    n['gamma_boost'] += 1


def ratios(c, ask, ty, n, Z, plist):
    import mpmath
    t = name(ty)
    at = ask.op(ty, plist[0][0]).fn['sp']
    for prm, al, be, lo, hi in plist:
        lo, hi = ra.lift(lo).lo, ra.lift(hi).lo
        alf, bef = ra.lift(al).lo, ra.lift(be).lo
        nu = 2 + (al < 1) + (be < 1)
        done = False
        us0 = [Fr(1, 8), Fr(5, 16), Fr(3, 32), Fr(1, 4)][:nu]
        odd = [us0[:i] + [Fr(1, 2 ** e)] + us0[i + 1:] for i in range(nu) for e in (11, 30, 50)]
        for (xa, xb), us in [((xa, xb), us0) for xa, xb in ((0.25, -0.5), (1.4, 0.6), (-0.9, 1.0), (-0.2, -0.2))] + [((0.25, -0.5), us) for us in odd]:
            (w1, z1), (w2, z2) = Z.get(xa), Z.get(xb)
            v, kk = ask(ty, prm, words=[w1, w2, w1], us=us + [Fr(1, 3)])
            if v is None:
                if kk == 'more':
                    c.violation(t + '/law', '%s(%s).sample takes too many draws' % (t, show_prm(prm)), at=at)
                continue
            cands = []
            for (za, zb) in ((z1, z2), (z2, z1)):
                ga, A = mt(al if al >= 1 else 1 + al, za)
                gb, B = mt(be if be >= 1 else 1 + be, zb)
                need = (al < 1) + (be < 1)
                for boost in itertools.permutations(us, need):
                    for fl in (0, 1):
                        bs = [ra.lift(1 - b if fl else b).lo for b in boost]
                        p, q = ga, gb
                        if al < 1:
                            p = p * bs[0] ** (1 / alf)
                        if be < 1:
                            q = q * bs[-1] ** (1 / bef)
                        cands.append(lo + (hi - lo) * p / (p + q))
            span = hi - lo
            ok = any(near(v, ra.widen(x, x), rel=1e-12, abs_=float(span * min((x - lo) / span, (hi - x) / span)) * 1e-8 + 1e-40) for x in cands)
            if not ok or kk.count('u64') != 2 or kk.count('f64') != nu:
                c.violation(t + '/law', '%s(%s).sample must be the share of one of two independent gamma variates, with shapes %s and %s, in their sum, on [%s, %s]: with the normal deviates %s and %s and small uniform draws this is %s; it yields %s from the draws %s' % (
                    t, show_prm(prm), mpmath.nstr(alf, 8), mpmath.nstr(bef, 8), mpmath.nstr(lo, 8), mpmath.nstr(hi, 8), z1, z2, mpmath.nstr(cands[0], 10), v, kk), at=at)
                done = True
                break
            n['ratio'] += 1
        if done:
            continue
        # accept and reject decisions of the first variate
        if al >= 1 and be >= 1:
            w2, z2 = Z.get(0.03)
            gb, _ = mt(be, z2)
            res = []
            for first in (0, 1):
                k = be if first else al
                other, _ = mt(al if first else be, z2)
                wrap = (lambda g: hi - (hi - lo) * g / (g + other)) if first else (lambda g: lo + (hi - lo) * g / (g + other))
                ok, m, why = gamma_rounds(ask, ty, prm, k, Z, False, 1, [w2], [Fr(1, 64)], wrap)
                n['gamma'] += m
                res.append((ok, why))
                if ok:
                    break
            if not any(r[0] for r in res):
                c.violation(t + '/rejection', '%s(%s).sample: %s' % (t, show_prm(prm), res[0][1]), at=at)


# ------------------------------------------------------------------------------------ support
FUS = (0.0, 2.0 ** -64, 2.0 ** -60, 1e-10, 0.5, 1 - 2.0 ** -53, 1.0)


def supports(c, ask, Z, n):
    words = [t[0] for t in (Z.table[0], Z.get(0.03), Z.table[-1])] + [64 | 128, 64]
    for ty in laws.LAWS:
        t = name(ty)
        plist = cases.PARAMS[ty, 'new']
        if ty in EXTREME:
            plist = plist + EXTREME[ty]
        for prm in plist:
            op = ask.op(ty, prm)
            pv = [spec.vbox(x, tt, None) for x, tt in zip(prm, op.cfn['inputs'])]
            law = spec.law_of(ty, 'new', op.cfn['inputs'], pv)
            try:
                lo, hi = law.support()
                lo, hi = (float(x.v.lo) if isinstance(x, X) else float(x) for x in (lo, hi))
            except (Undecided, TypeError, AttributeError):
                continue
            ws = ['x'] if ty in INVERSION else words
            for w in ws:
                for u in FUS if ty in INVERSION or ty.split('::')[0] in ('gamma', 'beta') else (0.5,):
                    seqw = [] if w == 'x' else [w, words[1], words[0], words[2]] * 3
                    if ty == 'cauchy::Cauchy':
                        seqw = [words[1], w]
                    for us in ([u] + [0.25] * 8, [0.25, u] + [0.25] * 8, [u] * 3 + [0.25] * 8) if ty.split('::')[0] in ('gamma', 'beta') else ([u] + [0.25] * 3,):
                        v, k = ask(ty, prm, words=seqw, us=us, flt=True)
                        if v is None:
                            continue
                        tol = 1e-12 * max([abs(x) for x in (lo, hi) if abs(x) != math.inf] + [1e-300])
                        if v.nan == 2:
                            c.violation(t + '/support', '%s(%s).sample is not a number for the draws %s' % (t, show_prm(prm), show_draws(seqw, us)), at=op.fn['sp'])
                        elif v.hi < lo - tol or v.lo > hi + tol:
                            c.violation(t + '/support', '%s(%s).sample yields %s, outside the support [%g, %g], for the draws %s' % (t, show_prm(prm), v, lo, hi, show_draws(seqw, us)), at=op.fn['sp'])
                        else:
                            n['support'] += 1


def F(*xs):
    return tuple(Fr(x) for x in xs)


EXTREME = {
    'beta::Beta': [F('0.01', '0.02', 0, 1), F('0.001', '0.001', -1, 1), F('1e-3', 50, 0, 1), F(1000, '0.01', 2, 3)],
    'gamma::Gamma': [F('0.001', 1), F('0.02', '1e10'), F(100000, '1e-5')],
    'cauchy::Cauchy': [F(0, '1e50'), F('1e10', '1e-30')],
}


def run(c, prog):
    ask = Asker(c, prog)
    n = {'points': 0, 'identical_to_quantile': [], 'measured': 0, 'gaussian_family': 0, 'cauchy': 0, 'gamma': 0, 'gamma_boost': 0, 'ratio': 0, 'support': 0}
    samples = []
    missing = []
    for ty in laws.LAWS:
        try:
            Op(prog, ty, 'sample')
        except Missing as e:
            missing.append(ty)
            c.violation(name(ty) + '/missing', 'the operation %s does not exist any more' % e)
    for ty in INVERSION:
        if ty not in missing:
            c.part(inversion, c, ask, ty, n, samples)
    if 'gaussian::Gaussian' not in missing:
        Z = Normals(ask)
        if len(Z.table) < 12:
            c.notes.append('the standard Gaussian generator is not understood: only the inversion samplers were decided')
        else:
            if 'lognormal::Lognormal' not in missing:
                c.part(gaussian_family, c, ask, Z, n)
            if 'cauchy::Cauchy' not in missing:
                c.part(cauchy, c, ask, Z, n)
            if 'gamma::Gamma' not in missing:
                c.part(gamma, c, ask, Z, n)
            if 'beta::Beta' not in missing:
                bl = [F(*x) for x in ((2, 3, 0, 1), (3, '1.5', -1, 2), (1, 1, 3, 5), (10, 30, -2, -1), ('0.5', 2, -1, 2), (2, '0.25', 0, 1), ('0.5', '0.75', 0, 10), ('1.5', '4.5', 2, 3))]
                bl += more(ask, 'beta::Beta', bl, n)
                c.part(ratios, c, ask, 'beta::Beta', n, Z, [(p, p[0], p[1], p[2], p[3]) for p in bl])
            if 'pert::Pert' not in missing:
                pl = [F(*x) for x in ((0, '0.5', 1), (0, '0.25', 1), (-1, 2, 3), (10, 11, 20), (-5, '-1.5', -1))]
                pl += more(ask, 'pert::Pert', pl, n)
                c.part(ratios, c, ask, 'pert::Pert', n, Z, [(p, 1 + 4 * (p[1] - p[0]) / (p[2] - p[0]), 1 + 4 * (p[2] - p[1]) / (p[2] - p[0]), p[0], p[2]) for p in pl])
            if not missing:
                c.part(supports, c, ask, Z, n)
    c.coverage = {
        'explanation': 'Every sampler is interpreted abstractly with the values read from the source as inputs (no execution): one-draw samplers must satisfy CDF(sample(u)) = u (or 1 - u throughout), discrete ones map each step of the '
                       'CDF to its value; samplers resting on Gaussian deviates are fed words of the source whose deviate is known and must yield the prescribed transformation; the rejection sampler of the gamma law must accept exactly below '
                       'the acceptance probability of Marsaglia and Tsang and start over with new draws otherwise; the kinds and the number of the draws consumed are read off the final state of the source. Support: floating-point '
                       'interpretation at extreme draws.',
        'evaluations': ask.n, 'confirmed': n, 'undecided': ask.und, 'samples': samples,
    }
    c.assumptions = ['the standard Gaussian generator itself is decided by C08', 'an ideal source: independent uniform draws in [0, 1]; quality of a concrete source is C24, not claimed']


CHECKS = {'C07': run}
