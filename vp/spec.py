"""Agreement of the operations of the crate with the textbook laws (C01-C06).

For every operation the abstract interpreter computes an enclosure of everything the operation can
return on a box of parameters and arguments; the reference law is evaluated over the same box.
Disjoint enclosures (beyond a tolerance for rounded constants) refute the property for *every* input
of the box; coinciding ones confirm it for the box, and the cell of guards the box lies in is handed
to the normal-form prover (prove.py).
"""
import math, multiprocessing, os, signal, time
from fractions import Fraction as Fr
from . import ra, cases, laws
from .alg import X
from . import alg
from .run import *
from .ra import V, Undecided

WIDE = Fr(1, 10 ** 12)
NARROW = Fr(1, 10 ** 30)
TIMEOUT = 20


class Timeout(Exception):
    pass


def dyadic(q):
    return isinstance(q, int) or (q.denominator & (q.denominator - 1) == 0 and q.numerator.bit_length() <= 53)


def flat(prm):
    for p in prm:
        if isinstance(p, tuple):
            yield from p
        else:
            yield p


def vbox(x, t, width):
    if isinstance(x, tuple):
        return [vbox(y, t, width) for y in x]
    if t in INT_BITS or width is None:
        return ra.exact(x)
    if '[f64]' in t and x == 0:
        return ra.ZERO
    return ra.around(x, width) if x else V(ra.mpf(-1) * float(width) * 1e-6, ra.mpf(1) * float(width) * 1e-6)


def xbox(x, t):
    """exact where the number is a binary fraction, else a narrow box around it"""
    if isinstance(x, tuple):
        return [xbox(y, t) for y in x]
    return vbox(x, t, None if dyadic(x) else NARROW)


def law_of(ty, ctor, inputs, pv):
    c = laws.LAWS[ty]
    xs = []
    for i, v in enumerate(pv):
        if isinstance(v, list):
            xs.append([X(w, sym('c%d_%d' % (i, j))) for j, w in enumerate(v)])
        else:
            xs.append(X(v, sym('c%d' % i, inputs[i])))
    return c(*xs) if ctor == 'new' else c.with_failure(*xs)


REFNAME = {'distribution': 'cdf'}


def reference(law, method, args, argt):
    xs = []
    for i, (v, t) in enumerate(zip(args, argt)):
        if t in INT_BITS:
            xs.append(int(v.q))
        else:
            xs.append(X(v, sym('x%d' % i, t)))
    return getattr(law, REFNAME.get(method, method))(*xs)


TINY = {'distribution': Fr(1, 10 ** 13), 'mass': Fr(1, 10 ** 200)}
REL = {'median': Fr(1, 10 ** 9)}


def cmp_scalar(c, r, method):
    if isinstance(r, int):
        if isinstance(c, V) and c.q is not None:
            return 'agree' if c.q == r else 'differ'
        if isinstance(c, V) and (c.hi < r or c.lo > r):
            return 'differ'
        return 'unk'
    if isinstance(r, Fr):
        r = alg.lift(r)
    if not isinstance(c, V):
        return 'unk'
    return {'eq': 'agree', 'ne': 'differ', 'unk': 'unk'}[
        ra.compare(c, r.v, rel=ra.mpf(10) ** -12, tiny=ra.mpf(float(TINY.get(method, Fr(1, 10 ** 290)))))]


def compare(c, r, method):
    if isinstance(r, list):
        if not isinstance(c, (list, tuple)):
            return 'unk'
        if len(c) != len(r):
            return 'differ'
        s = [cmp_scalar(a, b, method) for a, b in zip(c, r)]
        return 'differ' if 'differ' in s else 'unk' if 'unk' in s else 'agree'
    return cmp_scalar(c, r, method)


class Outcome:
    __slots__ = ('status', 'code', 'ref', 'res', 'refx', 'why', 'width', 'refguards')


def probe(op, prm, args, argt, widths=(WIDE, NARROW, None)):
    """status of one case: agree / differ / panic / skip / unknown"""
    out = None
    for w in widths:
        o = Outcome()
        o.code = o.ref = o.res = o.refx = o.why = None
        o.width = w
        if w is None and out is not None and not all(dyadic(x) for x in list(flat(prm)) + list(args)):
            out.why = (out.why or '') + ' (tie between inputs that are not representable)'
            return out
        pv = [vbox(x, t, w) for x, t in zip(prm, op.cfn['inputs'])]
        av = [vbox(x, t, w) for x, t in zip(args, argt)]
        try:
            del alg.guards[:]
            law = law_of(op.ty, op.ctor, op.cfn['inputs'], pv)
            ref = reference(law, op.method, av, argt)
            o.refguards = list(alg.guards)
        except laws.Skip:
            o.status, o.why = 'skip', 'no claim at this point'
            return o
        except Undecided:
            o.status, o.why = 'unknown', 'reference undecided'
            out = o
            continue
        o.refx = ref
        o.ref = repr(ref)
        try:
            r = evaluate(op, pv, av)
        except Panic as e:
            o.status, o.why, o.code = 'panic', str(e), 'panic'
            return o
        except (Unknown, Undecided) as e:
            o.status, o.why = 'unknown', str(e)[:200]
            out = o
            continue
        o.res = r
        o.code = repr(r.value)
        o.status = compare(r.value, ref, op.method)
        if o.status == 'unk':
            o.status, o.why = 'unknown', 'enclosure too wide'
            out = o
            continue
        return o
    return out


def describe(op, prm, args):
    def s(x):
        if isinstance(x, tuple):
            return '[%s]' % ', '.join(s(y) for y in x)
        return '%.17g' % float(x)
    return '%s::%s(%s).%s(%s)' % (op.ty.split('::')[1], op.ctor, ', '.join(s(x) for x in prm), op.method, ', '.join(s(x) for x in args))


# ---------------------------------------------------------------- mining the guards of the code
STEPS = {'f2i': (1, 2), 'fn:floor': (1, 2), 'fn:trunc': (1, 2), 'fn:ceil': (1, 2), 'fn:round': (Fr(1, 2), Fr(3, 2))}


source = {}      # comparison standing for a node -> the node


def atoms(roots, limit=400):
    seen, out, todo, steps = set(), [], [n for n in roots if isinstance(n, N)], []
    while todo and len(out) < limit:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.op in ('lt', 'le', 'eq') and n.args[0].ty != 'bool' and not n.mus:
            out.append(n)
        elif n.op in ('fn:min', 'fn:max') and len(n.args) == 2 and not n.mus:
            # a choice between the two: a guard in disguise
            g = cmp_('lt', *n.args)
            if g.op == 'lt':
                out.append(g)
                source[g] = n
        elif n.op in ('fn:abs', 'fn:signum', 'fn:copysign') and not n.mus:
            a = n.args[-1]
            g = cmp_('lt', a, F(0) if a.ty == 'f64' else I(0, a.ty))
            if g.op == 'lt':
                out.append(g)
                source[g] = n
        elif n.op in STEPS and not n.mus and n.args[0].ty == 'f64' and len(steps) < 12:
            # a jump at every integer
            for k in STEPS[n.op]:
                g = cmp_('lt', n.args[0], F(k))
                if g.op == 'lt':
                    steps.append(g)
                    source[g] = n
        elif n.op == 'i2i' and not n.mus and n.args[0].ty in INT_BITS and n.ty in INT_BITS:
            # a jump where the narrower type wraps around
            for k in (int_range(n.ty)[1] + 1, 2 * int_range(n.ty)[1] + 2):
                if k <= int_range(n.args[0].ty)[1]:
                    g = cmp_('lt', n.args[0], I(k, n.args[0].ty))
                    if g.op == 'lt':
                        steps.append(g)
                        source[g] = n
        for a in n.args:
            if isinstance(a, N):
                todo.append(a)
            elif isinstance(a, tuple):
                todo += [y for y in a if isinstance(y, N)]
    return out + steps


_symcache = {}


def syms_of(n):
    r = _symcache.get(n)
    if r is None:
        if n.op == 'sym':
            r = frozenset([n.args[0]])
        else:
            r = frozenset()
            for a in n.args:
                if isinstance(a, N):
                    r |= syms_of(a)
        _symcache[n] = r
    return r


def roots_of(v):
    from .evalr import leaf_nodes
    return list(leaf_nodes(v))


FAR = (306, 100, 30, 17, 12, 10)
GRID_ANY = [s * Fr(m) * Fr(10) ** e for e in (-6, -3, -1, 0, 1, 3, 5) for m in (1, 2, 5) for s in (-1, 1)] + [s * Fr(10) ** (e * u) for e in FAR for u in (-1, 1) for s in (-1, 1)]
GRID_POS = [Fr(m) * Fr(10) ** e for e in (-8, -5, -3, -2, -1, 0, 1, 2, 3, 5, 7) for m in (1, 2, 5)] + [Fr(10) ** (e * u) for e in FAR for u in (-1, 1)]
GRID_PROB = sorted([Fr(10) ** -e * m for e in (8, 5, 3, 2) for m in (1, 3)] + [1 - Fr(10) ** -e * m for e in (8, 5, 3, 2) for m in (1, 3)] + [Fr(i, 20) for i in range(2, 19)])
GRID_INT = [0, 1, 2, 3, 5, 8, 12, 20, 30, 50, 80, 150, 300, 700, 1200, 3000, 8000, 20000, 10 ** 5, 10 ** 6, 10 ** 8, 10 ** 10, 10 ** 13]


def grid_for(op, s):
    t = op.ty.split('::')[0]
    if s[0] == 'c':
        i = int(s[1:].split('_')[0])
        if op.cfn['inputs'][i] in INT_BITS:
            return GRID_INT, True
        if t in ('bernoulli', 'categorical') or (t == 'binomial' and i == 1):
            return GRID_PROB, False
        if t in ('exponential', 'gamma') or (t == 'beta' and i < 2) or (t in ('cauchy', 'gaussian', 'laplace', 'logistic', 'lognormal') and i == 1):
            return GRID_POS, False
        return GRID_ANY, False
    if op.method == 'inverse':
        return GRID_PROB, False
    if op.asyms and any(a.args[0] == s and a.ty in INT_BITS for a in op.asyms):
        return GRID_INT, True
    return GRID_ANY, False


def mine(op, base, nodes, inputs, maxnew=60, deadline=None, home={}):
    """cases on and next to the boundaries of the comparisons met in the code, moving one input of a base case"""
    groups, seen, envs = {}, set(), []
    at = {}
    homes = list(dict.fromkeys(h for g in nodes for h in (home.get(g),) if h is not None and h not in base))
    for prm, args in list(base) + homes:
        env = {}
        at[prm, args] = len(envs)
        envs.append(env)
        for i, x in enumerate(prm):
            if isinstance(x, tuple):
                for j, y in enumerate(x):
                    env['c%d_%d' % (i, j)] = Fr(y)
            else:
                env['c%d' % i] = Fr(x)
        for i, x in enumerate(args):
            env['x%d' % i] = Fr(x)
    total_new = 0
    # every guard on one case each before any on a second
    for k in range(-1, len(base)):
        for ig, g in enumerate(nodes):
            if k < 0:
                # first on a case whose evaluation has met it
                if home.get(g) is None:
                    continue
                prm, args = home[g]
                ib = at[prm, args]
            else:
                ib = (ig + k) % len(base)
                prm, args = base[ib]
            env = envs[ib]
            if not all(s in env for s in syms_of(g)):
                continue
            for s in sorted(syms_of(g)):
                if s not in env or (deadline and time.time() > deadline) or total_new > maxnew:
                    continue
                if '_' in s:
                    # another category gives or takes the difference
                    rest = [k for k in env if k != s and k.split('_')[0] == s.split('_')[0]]
                    if not rest:
                        continue
                    big = max(rest, key=lambda k: env[k])
                    total = env[s] + env[big]
                else:
                    big = None
                alone = all(z[0] == 'x' for z in syms_of(g))

                def put(t):
                    e = dict(env)
                    e[s] = t
                    if big:
                        e[big] = total - t
                    return e

                def h(t):
                    e = put(t)
                    ev = Eval({k: ra.exact(v) for k, v in e.items()})
                    a, b = ev.val(g.args[0]), ev.val(g.args[1])
                    d = ra.sub(a, b)
                    if d.nan or d.lo == -ra.INF or d.hi == ra.INF:
                        return None
                    if d.q is not None:
                        return d.q
                    return (d.lo + d.hi) / 2 if d.lo * d.hi > 0 or d.hi == d.lo else ra.mpf(0)
                grid, isint = grid_for(op, s)
                new = groups.setdefault((g, s), [])
                before = len(new)
                lim = sorted({t for t in set(grid) | {env[s]} if 0 <= t <= total} | {Fr(0), total / 2, total} | {total * Fr(10) ** -x for x in (20, 14, 11, 7)} if big else set(grid) | {env[s]})
                pts = []
                for t in lim:
                    try:
                        v = h(t)
                    except (Unknown, Undecided, ZeroDivisionError, OverflowError, ValueError, TypeError):
                        v = None
                    if v is not None:
                        pts.append((t, v))
                for (t0, v0), (t1, v1) in zip(pts, pts[1:]):
                    roots = []
                    if v0 == 0:
                        roots = [t0]
                    elif v1 == 0:
                        roots = [t1]
                    elif (v0 < 0) != (v1 < 0):
                        a, b, va = t0, t1, v0
                        try:
                            for _ in range(200):
                                if isint and b - a <= 1:
                                    break
                                if not isint and b - a <= abs(b) * Fr(1, 2 ** 54):
                                    break
                                if not isint and a * b > 0 and not Fr(1, 4) < a / b < 4:
                                    m = fp(math.copysign(math.sqrt(abs(float(a))) * math.sqrt(abs(float(b))), a))
                                else:
                                    m = Fr(int(a + b) // 2) if isint else fp((a + b) / 2)
                                if m <= a or m >= b:
                                    break
                                vm = h(m)
                                if vm is None:
                                    break
                                if vm == 0:
                                    a = b = m
                                    break
                                if (vm < 0) == (va < 0):
                                    a = m
                                else:
                                    b = m
                            roots = [a, b] if isint else list(dict.fromkeys([nice(a, b), a, b]))
                        except (Unknown, Undecided, OverflowError, ValueError, TypeError):
                            roots = []
                    for ir, t in enumerate(roots):
                        if isint:
                            cand = [t - 1, t, t + 1]
                        elif ir:
                            cand = [t]
                        else:
                            u = abs(t) if t else Fr(1)
                            cand = [t, t - u / 10 ** 9, t + u / 10 ** 9, t - u / 500, t + u / 500]
                        if big and dyadic(total):
                            # keep the sum exact in floating point
                            cand = sorted({Fr(math.floor(x * 2 ** 52) + y, 2 ** 52) for x in cand for y in (0, 1)})
                        for c in cand:
                            e = put(c)
                            np_ = tuple(e['c%d' % i] if not isinstance(x, tuple) else tuple(e['c%d_%d' % (i, j)] for j in range(len(x))) for i, x in enumerate(prm))
                            na = tuple(e['x%d' % i] for i in range(len(args)))
                            if not cases.valid(op.ty, op.ctor, np_):
                                continue
                            if op.method == 'inverse' and not 0 <= na[0] <= 1:
                                continue
                            if any(a.ty in INT_BITS and not 0 <= v <= int_range(a.ty)[1] for a, v in zip(op.asyms, na)):
                                continue
                            # an argument that equals the parameter moves along with it
                            along = [tuple(c if x == env[s] else x for x in na)] if s[0] == 'c' and not big and op.method in ('distribution', 'density', 'mass') and env[s] in na and env[s] != c else []
                            for a in [na] + along + ([] if s[0] == 'x' else respread(op, np_, na)):
                                if (np_, a) not in seen:
                                    seen.add((np_, a))
                                    new.append((np_, a))
                            if alone and not ir:
                                for q in recentre(op, c):
                                    if (q, na) not in seen and cases.valid(op.ty, op.ctor, q):
                                        seen.add((q, na))
                                        new.append((q, na))
                total_new += len(new) - before
    # in turn, so that a later cut drops no guard altogether
    out = []
    ls = [l for l in groups.values() if l]
    for i in range(max(map(len, ls), default=0)):
        out += [l[i] for l in ls if i < len(l)]
    return out


def recentre(op, t):
    """parameters that make an argument a typical one"""
    y = op.ty.split('::')[0]
    if op.method not in ('distribution', 'density'):
        return []
    a = abs(t) or Fr(1)
    try:
        if y in ('cauchy', 'gaussian', 'laplace', 'logistic'):
            return [(fp(t - a / 8), fp(a / 4)), (fp(t + a / 1024), fp(a / 1024))]
        if y == 'lognormal':
            return [(fp(math.log(t) + 0.25), Fr(1, 2))] if t > 0 else []
        if y == 'exponential':
            return [(fp(1 / t),)] if t > 0 else []
        if y == 'gamma':
            return [(Fr(2), fp(t / 2)), (Fr(1, 2), fp(t))] if t > 0 else []
        lo, hi = fp(t - a / 2), fp(t + a / 2)
        if y == 'uniform':
            return [(lo, hi)]
        if y == 'triangular':
            return [(lo, hi, fp(t - a / 4)), (lo, hi, fp(t + a / 4))]
        if y == 'beta':
            return [(Fr(2), Fr(3), lo, hi), (Fr(1, 2), Fr(1, 2), lo, hi)]
        if y == 'pert':
            return [(lo, fp(t + a / 4), hi)]
        if y == 'binomial' and 8 < t < 10 ** 9 and op.ctor == 'new':
            return [(Fr(int(2 * t)), Fr(1, 2))]
    except (OverflowError, ValueError, ZeroDivisionError):
        pass
    return []


def respread(op, prm, args):
    """arguments that are typical of the law after one of its parameters has been moved"""
    if not args or op.method not in ('distribution', 'density', 'mass', 'inverse'):
        return []
    view = prm[:-1] + (1 - prm[-1],) if op.ctor == 'with_failure' else prm
    if op.method == 'inverse':
        return [(Fr(1, 5),), (Fr(7, 10),)] + ([(Fr(1, 2 ** 20),), (1 - Fr(1, 2 ** 20),)] if op.ty not in ('categorical::Categorical', 'binomial::Binomial') else [])
    try:
        if op.method == 'mass':
            al = [Fr(k) for k in cases.dks(op.ty, view)]
        elif laws.LAWS[op.ty].discrete:
            al = cases.dxs(op.ty, view)
            if isinstance(view[0], tuple):
                return [(Fr(i),) for i in sorted({0, len(view[0]) // 2, len(view[0]) - 2, len(view[0]) - 1}) if i >= 0]
        else:
            al = cases.xs(op.ty, view)
    except (OverflowError, ValueError):
        return []
    n = len(al)
    return [(al[i],) for i in sorted({n // 3, n // 2, 2 * n // 3})]


def fp(x):
    return Fr(float(x))


def nice(a, b):
    m = (a + b) / 2
    for d in (1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 20, 32, 50, 64, 100, 1000, 4096, 10000, 10 ** 6):
        r = m.limit_denominator(d)
        if abs(r - m) <= abs(m) * Fr(1, 2 ** 45):
            return r
    return m


# ---------------------------------------------------------------- the cases of one operation
def base_cases(op, argt):
    prms = cases.PARAMS[(op.ty, op.ctor)]
    m = op.method
    disc = laws.LAWS[op.ty].discrete
    out = []
    for prm in prms:
        if op.ty == 'binomial::Binomial':
            if m == 'entropy' and prm[0] > 300:
                continue
        view = prm
        if op.ctor == 'with_failure':
            view = prm[:-1] + (1 - prm[-1],)
        if m == 'distribution':
            al = [(x,) for x in (cases.dxs if disc else cases.xs)(op.ty, view)]
        elif m == 'density':
            al = [(x,) for x in cases.xs(op.ty, view)]
        elif m == 'mass':
            al = [(Fr(k),) for k in cases.dks(op.ty, view)]
        elif m == 'inverse':
            al = [(p,) for p in (cases.QP if not disc else dqs(op, prm, view))]
        elif argt:
            raise Unsupported('arguments of ' + m)
        else:
            al = [()]
        out.append((prm, al))
    return out


def dqs(op, prm, view):
    """probabilities in the interior of the steps of a discrete distribution function, and on ties"""
    t = op.ty.split('::')[0]
    r = [Fr(0), Fr(1)]
    pv = [vbox(x, ty, None) for x, ty in zip(prm, op.cfn['inputs'])]
    law = law_of(op.ty, op.ctor, op.cfn['inputs'], pv)
    if t == 'bernoulli':
        q = 1 - view[0]
        return r + [q, q / 2, q * Fr('0.999999'), q - Fr(1, 2 ** 30), q + Fr(1, 2 ** 30), q - Fr(1, 2 ** 45), q + Fr(1, 2 ** 45), 1 - view[0] / 2, 1 - view[0] * Fr('0.999999'), Fr(1, 2), Fr(1, 10 ** 9)]
    if t == 'categorical':
        c, ks = Fr(0), list(range(len(view[0])))
        for k in ks:
            n = c + view[0][k]
            if n > c:
                r += [(c + n) / 2, n, c + (n - c) * Fr('0.01'), c + (n - c) * Fr('0.99'), n - Fr(1, 2 ** 30), n + Fr(1, 2 ** 30), n - Fr(1, 2 ** 45), n + Fr(1, 2 ** 45)]
            c = n
        r = sorted({x for x in r if 0 <= x <= 1})
        return r if len(r) <= 400 else r[:20] + r[20:-20:7] + r[-20:]
    n = int(view[0])
    ks = {0, 1, 2, 3, n - 2, n - 1, n}
    d = math.sqrt(float(n * view[1] * (1 - view[1])))
    for z in (-5, -3, -1, 0, 1, 3, 5):
        ks.add(int(float(n * view[1]) + z * d))
    if n <= 12 and isinstance(law.mass(0).v.q, Fr):
        # ties, where the probability is the exact value of the distribution function
        t = Fr(0)
        for k in range(n):
            t += law.mass(k).v.q
            if Fr(float(t)) == t < 1:
                r.append(t)
    for k in sorted(ks):
        if not 0 <= k <= n:
            continue
        try:
            a, b = law.cdfk(k - 1), law.cdfk(k)
        except Undecided:
            continue
        a, b = (a.v.lo + a.v.hi) / 2, (b.v.lo + b.v.hi) / 2
        if b - a < ra.mpf(10) ** -12:
            continue
        for f in ((0.5,) if n >= 1000 else (1e-5, 0.03, 0.5, 0.97, 1 - 1e-5)):
            p = fp(a + (b - a) * ra.mpf(f))
            if 0 < p < 1:
                r.append(p)
    return r


def alarm(sig, frm):
    raise Timeout()


def limited(f, secs, *a):
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return f(*a)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


DELTA11 = Fr('7.757367548795184079e-03') - Fr('7.573675487951840795e-03')


class TableBinomial(laws.Binomial):
    """the law as given by the saddle-point form with the entry for 11 of the Stirling-error table as found"""

    def mass(s, k):
        m = laws.Binomial.mass(s, k)
        e = (s.n == 11) - (k == 11) - (s.n - k == 11)
        if 0 < k < s.n and e:
            m = m * alg.exp(alg.lift(e * DELTA11))
        return m


def newton_exit(law, n, p, v, u):
    """is v where the Newton iteration stops too early: the next step would be shorter than one half (damped by no more than a tenth)?"""
    if not (n >= 1000 and n * p * (1 - p) <= 80 and isinstance(v, V) and v.q is not None and 0 <= v.q < n):
        return False
    k = int(v.q)
    try:
        d = (X(ra.exact(u)) - law.cdfk(k)) / law.mass(k)
        return bool(d > 0) and bool(d < Fr(5, 9))
    except (Undecided, Unknown):
        return False


def known_key(op, prm, args, o):
    """key of the known finding that a deviation is an instance of (None: it is none)"""
    if o.status != 'differ':
        return None
    v = o.res.value
    pv = [vbox(x, t, o.width) for x, t in zip(prm, op.cfn['inputs'])]
    try:
        if op.ty == 'binomial::Binomial' and op.method in ('mass', 'entropy'):
            xs = [X(w, sym('c%d' % i)) for i, w in enumerate(pv)]
            law = TableBinomial(*xs) if op.ctor == 'new' else TableBinomial.with_failure(*xs)
            ref = law.entropy() if op.method == 'entropy' else law.mass(int(args[0]))
            if compare(v, ref, op.method) != 'differ':
                return 'Binomial::%s/stirling-error-table-entry-11' % op.method
        if op.ty == 'binomial::Binomial' and op.method == 'inverse':
            n, p = prm
            if op.ctor == 'with_failure':
                law = laws.Binomial.with_failure(X(pv[0]), X(pv[1]))
                p = 1 - p
            else:
                law = laws.Binomial(X(pv[0]), X(pv[1]))
            if newton_exit(law, n, p, v, args[0]):
                return 'Binomial::inverse/newton-exit-truncates'
        if op.ty == 'categorical::Categorical' and op.method == 'median':
            w, c = prm[0], Fr(0)
            for i, x in enumerate(w):
                c += x
                if c == Fr(1, 2):
                    if isinstance(v, V) and v.q == (Fr(1, 2) if i == 0 else i - Fr(1, 2)):
                        return 'Categorical::median/tie'
                    break
    except (Undecided, Unknown):
        pass
    return None


class Report:
    """outcome of all cases of one operation"""

    def __init__(self, name):
        self.name = name
        self.n = {'agree': 0, 'differ': 0, 'panic': 0, 'skip': 0, 'unknown': 0}
        self.mined = 0
        self.guards = 0
        self.cells = {}
        self.violations = []
        self.unknown = {}
        self.samples = []
        self.wall = 0
        self.modes = {'graph': 0, 'cell': 0}
        self.where = None
        self.proved = []
        self.unproved = []


def cell_of(o):
    ev = o.res.ev
    gs = [(g, r) for g, r in ev.guards.items() if r is not None and not g.mus]
    return frozenset((g.id, r) for g, r in gs)


def check_op(prog, ty, method, ctor='new', budget=60, mining=True, shard=(0, 1)):
    t0 = time.time()
    rep = Report('%s::%s' % (ty.split('::')[1], method) + ('' if ctor == 'new' else ' [%s]' % ctor))
    op = Op(prog, ty, method, ctor=ctor)
    rep.where = '%s (%s)' % (op.fn['path'], op.fn.get('sp') or '')
    argt = [t for i, t in enumerate(op.fn['inputs']) if not (i == 0)]
    ops = {}

    def opk(prm):
        k = len(prm[0]) if isinstance(prm[0], tuple) else None
        if k not in ops:
            ops[k] = Op(prog, ty, method, ctor=ctor, k=k)
        return ops[k]
    todo = [(prm, a) for prm, al in base_cases(op, argt)[shard[0]::shard[1]] for a in al]
    # interleave, so that a budget cut does not drop whole parameter choices
    todo = [x for i in range(7) for x in todo[i::7]]
    nodes = {}

    def do(prm, args, mined=False):
        o_ = opk(prm)
        try:
            o = limited(probe, TIMEOUT, o_, prm, args, argt)
        except Timeout:
            rep.n['unknown'] += 1
            rep.unknown['time limit'] = rep.unknown.get('time limit', 0) + 1
            return None
        rep.n[o.status] += 1
        if o.status == 'unknown':
            rep.unknown[o.why] = rep.unknown.get(o.why, 0) + 1
        if o.res is not None:
            rep.modes[o.res.mode] += 1
            for g in atoms(list(o.res.ev.guards) + (roots_of(o.res.node) if o.res.mode == 'graph' else [])):
                if nodes.get(g) is None:
                    nodes[g] = (prm, args) if o.status == 'agree' and source.get(g, g) in o.res.ev.cache else None
        if o.status in ('differ', 'panic'):
            rep.violations.append((describe(o_, prm, args), o.code, o.ref, o.why, prm, args, known_key(o_, prm, args, o)))
        if o.status == 'agree':
            c = cell_of(o)
            rep.cells.setdefault(c, []).append((prm, args))
            if len(rep.samples) < 3:
                rep.samples.append('%s in %s, law: %s' % (describe(o_, prm, args), o.code, o.ref))
        return o
    for prm, args in todo:
        if time.time() - t0 > budget:
            rep.unknown['budget'] = rep.unknown.get('budget', 0) + 1
            continue
        do(prm, args)
    old = set(todo)
    begun = set()
    for rnd in (1, 2) if mining else ():
        base = bases_of(rep.cells, begun, 12)
        if rnd == 2:
            # from the cells that only the first round has reached: guards behind guards
            base = [x for x in base if x not in todo]
        if not base:
            continue
        begun |= set(rep.cells)
        lim = time.time() + max(2, budget / (3 if rnd == 1 else 6))
        o_ = opk(base[0][0])
        if not hasattr(o_, 'asyms'):
            o_.asyms = [sym('x%d' % i, t) for i, t in enumerate(argt)]
        gs, most = list(nodes)[:80], 1200 if rnd == 1 else 600
        if (ty, method) == ('binomial::Binomial', 'entropy'):
            most //= 4
        if any('_' in s for g in gs for s in syms_of(g)):
            # many categories, many guards: the simple ones first, on few categories
            gs = sorted(nodes, key=lambda g: (len(syms_of(g)), g.id))
            few = {}
            for g in gs:
                few.setdefault(tuple(sorted(syms_of(g))), []).append(g)
            gs, most = [g for l in few.values() for g in l[:6]][:60], 500
        new = mine(o_, base, gs, op.cfn['inputs'], deadline=lim, maxnew=most, home=nodes)
        for prm, args in new:
            if (prm, args) in old:
                continue
            old.add((prm, args))
            if op.ty == 'binomial::Binomial' and method == 'entropy' and prm[0] > 10000 and prm[0] * prm[1] * (1 - prm[1]) > 80:
                continue          # here the normal approximation may stand for it: decided with its own bound
            if time.time() - t0 > budget * (2 if rnd == 1 else 2.3):
                break
            rep.mined += 1
            do(prm, args, True)
    rep.guards = len(nodes)
    rep.wall = time.time() - t0
    return rep


def bases_of(cells, begun, most):
    """cases of the cells not begun yet: first one of each with simple parameters, then others with different ones, in turn"""
    r, rest, seen = [], [], set()
    for c, l in cells.items():
        if c in begun:
            continue
        l = sorted(l, key=lambda x: not all(dyadic(y) for y in flat(x[0])))
        r.append(l[0])
        seen.add((c, l[0][0]))
        rest.append((c, sorted(l[1:], key=lambda x: (str(x[0][0]), str(x)))))
    r = r[:most]
    while len(r) < most and rest:
        left = []
        for c, l in rest:
            # the middle one of those whose parameters have not been taken
            l = [x for x in l if (c, x[0]) not in seen]
            if not l or len(r) >= most:
                continue
            x = l[len(l) // 2 if len(seen) % 2 else 0]
            seen.add((c, x[0]))
            r.append(x)
            left.append((c, l))
        rest = left
    return r


POSITIVE = {'bernoulli': ('c0',), 'beta': ('c0', 'c1'), 'binomial': ('c0', 'c1'), 'exponential': ('c0',), 'gamma': ('c0', 'c1')}


def positives(ty, k=None):
    t = ty.split('::')[0]
    if t in ('cauchy', 'gaussian', 'laplace', 'logistic', 'lognormal'):
        return ('c1',)
    return POSITIVE.get(t, ())


def witness(prm, args):
    d = {}
    for i, x in enumerate(prm):
        if isinstance(x, tuple):
            for j, y in enumerate(x):
                d['c%d_%d' % (i, j)] = y
        else:
            d['c%d' % i] = x
    for i, x in enumerate(args):
        d['x%d' % i] = x
    return d


def prove_case(op, prm, args, o, secs=6):
    """normal-form proof for the cell of an agreeing case: True or the reason why not"""
    from . import prove
    v, r = o.res.node, o.refx
    ev = o.res.ev
    try:
        if isinstance(r, list):
            return None          # sequences: decided per box
        if isinstance(r, int):
            return None
        c = close(ev, pick(ev, v))
        if not isinstance(c, N) or r.n is None:
            return 'no symbolic form'
        return prove.prove(c, r.n, witness(prm, args), positives(op.ty), secs)
    except (Undecided, Unknown):
        return 'undecided gate'
