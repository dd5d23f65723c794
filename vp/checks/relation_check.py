"""C16: location, scale and reflection, as relations between two evaluations of the code itself."""
import math, multiprocessing, time
from concurrent.futures import ProcessPoolExecutor
from fractions import Fraction as Fr
from .. import ra, laws, cases, spec, prove
from ..run import *
from ..graph import *

# per type: how the parameters change under x -> a x + b, and under the reflection
LS = lambda p, a, b: (a * p[0] + b, a * p[1])
MOVE = {
    'cauchy::Cauchy': LS, 'gaussian::Gaussian': LS, 'laplace::Laplace': LS, 'logistic::Logistic': LS,
    'uniform::Uniform': lambda p, a, b: tuple(a * x + b for x in p),
    'triangular::Triangular': lambda p, a, b: tuple(a * x + b for x in p),
    'pert::Pert': lambda p, a, b: tuple(a * x + b for x in p),
    'beta::Beta': lambda p, a, b: (p[0], p[1], a * p[2] + b, a * p[3] + b),
    'exponential::Exponential': lambda p, a, b: (p[0] / a,),
    'gamma::Gamma': lambda p, a, b: (p[0], a * p[1]),
}
SCALE_ONLY = {'exponential::Exponential', 'gamma::Gamma'}
REFLECT = {
    'cauchy::Cauchy': lambda p: (-p[0], p[1]), 'gaussian::Gaussian': lambda p: (-p[0], p[1]), 'laplace::Laplace': lambda p: (-p[0], p[1]), 'logistic::Logistic': lambda p: (-p[0], p[1]),
    'uniform::Uniform': lambda p: (-p[1], -p[0]), 'triangular::Triangular': lambda p: (-p[1], -p[0], -p[2]), 'pert::Pert': lambda p: (-p[2], -p[1], -p[0]),
    'beta::Beta': lambda p: (p[1], p[0], -p[3], -p[2]),
}
MIRROR = {'bernoulli::Bernoulli': lambda p: (1 - p[0],), 'binomial::Binomial': lambda p: (p[0], 1 - p[1]), 'categorical::Categorical': lambda p: (tuple(reversed(p[0])),)}
MOVES = [(Fr(2), Fr(0)), (Fr(1), Fr(3)), (Fr(1), Fr(-11, 2)), (Fr(1, 8), Fr(5, 4)), (Fr(1000), Fr(-20)), (Fr(1, 1024), Fr(0))]
METHODS = ['distribution', 'density', 'mass', 'inverse', 'median', 'modes', 'mean', 'variance', 'deviation', 'skewness', 'kurtosis', 'entropy']


# arithmetic over both values and nodes
def ln_(x):
    return mk('fn:ln', (x,), 'f64') if isinstance(x, N) else ra.ln(x)


def A(x, y):
    return mk('fadd', (nl(x), nl(y)), 'f64') if isinstance(x, N) or isinstance(y, N) else ra.add(ra.lift(x), ra.lift(y))


def S(x, y):
    return mk('fsub', (nl(x), nl(y)), 'f64') if isinstance(x, N) or isinstance(y, N) else ra.sub(ra.lift(x), ra.lift(y))


def Mu(x, y):
    return mk('fmul', (nl(x), nl(y)), 'f64') if isinstance(x, N) or isinstance(y, N) else ra.mul(ra.lift(x), ra.lift(y))


def D(x, y):
    return mk('fdiv', (nl(x), nl(y)), 'f64') if isinstance(x, N) or isinstance(y, N) else ra.div(ra.lift(x), ra.lift(y))


def nl(x):
    if isinstance(x, N):
        return x
    if isinstance(x, (int, Fr)):
        return F(float(x))
    raise TypeError


def moved(m, v, a, b):
    """the value that the relation demands after x -> a x + b, from the value before"""
    if m in ('distribution', 'skewness', 'kurtosis'):
        return v
    if m == 'density':
        return D(v, a)
    if m in ('inverse', 'median', 'mean'):
        return A(Mu(v, a), b)
    if m == 'deviation':
        return Mu(v, a)
    if m == 'variance':
        return Mu(Mu(v, a), a)
    if m == 'entropy':
        return A(v, ln_(a if isinstance(a, N) else ra.lift(a)))
    if m == 'modes':
        return [A(Mu(x, a), b) for x in v]
    raise KeyError(m)


def mirrored(m, v, s):
    """after x -> s - x"""
    if m in ('density', 'mass', 'variance', 'deviation', 'kurtosis', 'entropy'):
        return v
    if m == 'distribution':
        return S(Fr(1), v)
    if m in ('inverse', 'median', 'mean'):
        return S(s, v)
    if m == 'skewness':
        return S(Fr(0), v)
    if m == 'modes':
        return [S(s, x) for x in reversed(v)]
    raise KeyError(m)


TINY = {'distribution': 1e-13, 'mass': 1e-200}


def same(m, got, want, scale=0):
    if isinstance(want, list) or isinstance(got, (list, tuple)):
        if not isinstance(want, list) or not isinstance(got, (list, tuple)):
            return 'unk'
        if len(want) != len(got):
            return 'ne'
        r = [same('mode', x, y, scale) for x, y in zip(got, want)]
        return 'ne' if 'ne' in r else 'unk' if 'unk' in r else 'eq'
    if not isinstance(got, V) or not isinstance(want, V):
        return 'unk'
    if m == 'kurtosis' or m == 'skewness':
        # differences of large terms
        rel = ra.mpf(10) ** -8
        return ra.compare(got, want, rel=rel, tiny=ra.mpf(1e-12))
    return ra.compare(got, want, rel=ra.mpf(10) ** -9, tiny=ra.mpf(TINY.get(m, 1e-290)) if not scale else ra.mpf(float(scale)) * ra.mpf(10) ** -13)


_prog = None


def subst(n, env, memo):
    if n in memo:
        return memo[n]
    if n.op == 'sym' and n.args[0] in env:
        r = env[n.args[0]]
    else:
        args = tuple(subst(x, env, memo) if isinstance(x, N) else x for x in n.args)
        r = n if all(p is q for p, q in zip(args, n.args)) else mk(n.op, args, n.ty)
    memo[n] = r
    return r


def job(arg):
    ty, thorough = arg
    t0 = time.time()
    budget = 500 if thorough else 110
    out = {'ty': ty, 'n': {'eq': 0, 'unk': 0, 'ne': 0}, 'viol': [], 'und': {}, 'ops': {}, 'proved': 0, 'unproved': 0, 'samples': []}
    disc = laws.LAWS[ty].discrete
    name = ty.split('::')[1]
    ops = {}

    def op(m, prm):
        k = next((len(x) for x in prm if isinstance(x, tuple)), None)
        if (m, k) not in ops:
            try:
                ops[m, k] = Op(_prog, ty, m, k=k)
            except Missing:
                ops[m, k] = None
        return ops[m, k]

    cache = {}

    def ev(o, prm, args):
        """the value on exact inputs where they are binary fractions, else on a narrow box around them"""
        key = (o.method, prm, args)
        if key not in cache:
            try:
                argt = o.fn['inputs'][1:]
                r = None
                cache[key] = evaluate(o, [spec.xbox(x, t) for x, t in zip(prm, o.cfn['inputs'])], [spec.xbox(x, t) for x, t in zip(args, argt)])
            except Panic as e:
                cache[key] = e
            except (Unknown, Undecided) as e:
                s = '%s::%s: %s' % (name, o.method, str(e)[:80])
                out['und'][s] = out['und'].get(s, 0) + 1
                cache[key] = None
        return cache[key]

    tried = set()

    def relate(m, what, prm1, args1, prm2, args2, f, scale=0, sym_env=None, sym_want=None, witness=None, pos=()):
        o = op(m, prm1)
        if time.time() - t0 > budget * 1.3:
            out['und']['budget'] = out['und'].get('budget', 0) + 1
            return
        r1, r2 = ev(o, prm1, args1), ev(o, prm2, args2)
        if r1 is None or r2 is None:
            out['n']['unk'] += 1
            return
        d1, d2 = spec.describe(o, prm1, args1), spec.describe(o, prm2, args2)
        if isinstance(r1, Panic) or isinstance(r2, Panic):
            if isinstance(r1, Panic) != isinstance(r2, Panic):
                out['viol'].append(('%s::%s' % (name, m), '%s panics while %s does not' % ((d1, d2) if isinstance(r1, Panic) else (d2, d1)), o.fn['sp']))
            return
        try:
            want = f(r1.value)
        except (TypeError, Undecided):
            out['n']['unk'] += 1
            return
        s = same(m, r2.value, want, scale)
        out['n'][s] += 1
        if s == 'ne':
            if len(out['viol']) < 12:
                out['viol'].append(('%s::%s' % (name, m), '%s: %s is %s, hence %s must be %s; it is %s' % (what, d1, r1.value, d2, want, r2.value), o.fn['sp']))
        elif s == 'eq':
            out['ops'][m] = out['ops'].get(m, 0) + 1
            if len(out['samples']) < 3:
                out['samples'].append('%s: %s = %s and %s = %s' % (what, d1, r1.value, d2, r2.value))
            # whole cell, symbolically
            if sym_env is not None and r1.mode == 'graph' and r2.mode == 'graph' and time.time() - t0 < budget * 0.7:
                try:
                    c1, c2 = pick(r1.ev, r1.node), pick(r2.ev, r2.node)
                    if not (isinstance(c1, N) and isinstance(c2, N)):
                        return
                    c1, c2 = close(r1.ev, c1), close(r2.ev, c2)
                    key = (m, what.split(' ')[0], c1.id, c2.id)
                    if key in tried:
                        return
                    tried.add(key)
                    p = prove.prove(subst(c2, sym_env, {}), sym_want(c1), witness, pos, 15 if thorough else 4)
                    out['proved' if p is True else 'unproved'] += 1
                except (Unknown, Undecided):
                    pass

    def base(prm):
        for m in METHODS:
            o = op(m, prm)
            if o is None:
                continue
            argt = o.fn['inputs'][1:]
            if m == 'distribution':
                al = [(x,) for x in (cases.dxs if disc else cases.xs)(ty, prm)]
            elif m == 'density':
                al = [(x,) for x in cases.xs(ty, prm)]
            elif m == 'mass':
                al = [(Fr(k),) for k in cases.dks(ty, prm)]
            elif m == 'inverse':
                al = [(Fr(p),) for p in ([Fr(i, 64) for i in (1, 5, 14, 27, 32, 40, 51, 60, 63)] + [Fr(1, 2 ** 20), 1 - Fr(1, 2 ** 20)] if not disc else spec.dqs(o, prm, prm))]
            else:
                al = [()]
            for a in al:
                yield m, o, a

    plist = cases.PARAMS[ty, 'new']
    plist = sorted(plist, key=lambda p: max([len(x) for x in p if isinstance(x, tuple)], default=0))
    if ty == 'binomial::Binomial':
        plist = [p for p in plist if p[0] <= 2500] + [(40000, Fr(1, 4))]
    for prm in plist:
        if time.time() - t0 > budget:
            out['und']['budget'] = out['und'].get('budget', 0) + 1
            continue
        csym = [sym('c%d' % i) for i in range(len(prm))] if not disc else None
        if ty in MOVE:
            for a, b in MOVES:
                if ty in SCALE_ONLY and b:
                    if a == 1:
                        continue
                    b = Fr(0)
                prm2 = MOVE[ty](prm, a, b)
                sc = max(abs(x) for x in prm2) if ty not in SCALE_ONLY else 0
                for m, o, args in base(prm):
                    args2 = tuple(a * x + b for x in args) if m in ('distribution', 'density') else args
                    ta, tb = sym('ta'), sym('tb') if ty not in SCALE_ONLY else F(0.0)
                    env = {'c%d' % i: v for i, v in enumerate(MOVE[ty]([SymX(s) for s in csym], SymX(ta), SymX(tb)))}
                    env = {k: v.n if isinstance(v, SymX) else v for k, v in env.items()}
                    if m in ('distribution', 'density'):
                        env['x0'] = A(Mu(sym('x0'), ta), tb)
                    w = spec.witness(prm, args)
                    w['ta'], w['tb'] = a, b
                    relate(m, 'x -> %s x + %s' % (a, b), prm, args, prm2, args2, lambda v: moved(m, v, a, b), sc if m in ('inverse', 'median', 'mean', 'modes') else 0,
                           env, lambda n: moved(m, n, ta, tb), w, spec.positives(ty) + ('ta',))
        if ty == 'lognormal::Lognormal':
            for b in (Fr(1), Fr(-3), Fr(1, 4)):
                e = ra.exp(ra.exact(b))
                prm2 = (prm[0] + b, prm[1])
                for m, o, args in base(prm):
                    if m in ('distribution', 'density'):
                        continue
                    relate(m, 'scaling by exp(%s)' % b, prm, args, prm2, args,
                           lambda v: A(v, b) if m == 'entropy' else moved(m, v, e, ra.ZERO))
        if ty in REFLECT or ty in MIRROR:
            prm2 = REFLECT[ty](prm) if ty in REFLECT else MIRROR[ty](prm)
            s = Fr(0)
            if disc:
                s = {'bernoulli': lambda: Fr(1), 'binomial': lambda: Fr(prm[0]), 'categorical': lambda: Fr(len(prm[0]) - 1)}[ty.split('::')[0]]()
            newton = ty == 'binomial::Binomial' and prm[0] >= 1000 and prm[0] * prm[1] * (1 - prm[1]) <= 80
            for m, o, args in base(prm):
                if m == 'distribution':
                    args2 = (s - args[0],)
                    if disc:
                        x = args[0]
                        k = math.floor(x)
                        if x == k:
                            args2 = (s - k - 1,)
                elif m == 'density':
                    args2 = (-args[0],)
                elif m == 'mass':
                    if args[0] > s:
                        continue
                    args2 = (s - args[0],)
                elif m == 'inverse':
                    args2 = (1 - args[0],)
                    if disc and (newton or not interior(ty, prm, args[0])):
                        continue
                else:
                    args2 = ()
                if ty == 'categorical::Categorical' and m == 'median' and cat_tie(prm[0]):
                    continue
                if m == 'median' and newton:
                    continue
                if ty == 'binomial::Binomial' and m == 'median' and not interior(ty, prm, Fr(1, 2)):
                    continue
                if ty == 'binomial::Binomial' and m == 'entropy' and prm[0] > 300:
                    continue
                relate(m, 'reflection', prm, args, prm2, args2, lambda v: mirrored(m, v, s), max([abs(Fr(x)) for x in spec.flat(prm)]) if m in ('inverse', 'median', 'mean', 'modes', 'skewness') else 0)
    out['wall'] = round(time.time() - t0, 1)
    return out


def cat_tie(w):
    c = Fr(0)
    for x in w:
        c += x
        if c == Fr(1, 2):
            return True
    return False


def interior(ty, prm, p):
    """p lies clearly inside a step of the distribution function"""
    if ty == 'bernoulli::Bernoulli':
        return abs(p - (1 - prm[0])) > Fr(1, 10 ** 9) and 0 < p < 1
    if ty == 'categorical::Categorical':
        c = Fr(0)
        for x in prm[0]:
            if abs(p - c) < Fr(1, 10 ** 9):
                return False
            c += x
        return 0 < p < 1
    n, q = int(prm[0]), prm[1]
    if not 0 < p < 1:
        return False
    law = laws.Binomial(alg_x(prm[0]), alg_x(prm[1]))
    try:
        k = law.inverse(alg_x(p))
        a, b = law.cdfk(k - 1), law.cdfk(k)
        return bool((a.v.hi < float(p) - 1e-9 * float(p)) and b.v.lo > float(p) + 1e-9 * (1 - float(p)))
    except Undecided:
        return False


def alg_x(q):
    from ..alg import X
    return X(ra.exact(q))


class SymX:
    """operators on nodes, to reuse the parameter maps symbolically"""

    def __init__(s, n):
        s.n = n

    def __mul__(s, o): return SymX(Mu(s.n, sx(o)))
    __rmul__ = __mul__

    def __add__(s, o): return SymX(A(s.n, sx(o)))
    __radd__ = __add__

    def __truediv__(s, o): return SymX(D(s.n, sx(o)))


def sx(o):
    return o.n if isinstance(o, SymX) else nl(o)


def run(c, prog):
    global _prog
    _prog = prog
    thorough = c.tier == 'thorough'
    tys = sorted(set(MOVE) | set(REFLECT) | set(MIRROR) | {'lognormal::Lognormal'}, key=lambda t: t not in ('binomial::Binomial', 'beta::Beta', 'pert::Pert'))
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context('fork')) as ex:
        res = c.gather(ex, job, [(t, thorough) for t in tys])
    tot = {'eq': 0, 'unk': 0, 'ne': 0}
    per, und, samples = {}, {}, []
    proved = unproved = 0
    for r in res:
        for k in tot:
            tot[k] += r['n'][k]
        per[r['ty']] = {'relations': r['ops'], 'wall_s': r['wall']}
        und.update(r['und'])
        samples += r['samples'][:2]
        proved += r['proved']
        unproved += r['unproved']
        for key, text, at in r['viol']:
            c.violation(key, text, at=at)
    c.coverage = {
        'explanation': 'Two abstract evaluations of the same operation, before and after moving, scaling or reflecting the parameters (and arguments), must be related as the property says; no reference law is involved. Equality is '
                       'decided on enclosures over the reals; for each pair of guard cells met, the relation is also settled for all values of the symbols by normal form where possible.',
        'relations_decided': tot['eq'], 'undecided': tot['unk'], 'cells_proved_symbolically': proved, 'cells_not_proved': unproved, 'per_type': per, 'undecided_reasons': und, 'samples': samples,
    }
    c.assumptions = ['real arithmetic', 'special functions of the dependencies are exact']


CHECKS = {'C16': run}
