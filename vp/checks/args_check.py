"""C12: argument checks of constructors and quantile functions reject exactly the documented invalid inputs."""
import itertools
from fractions import Fraction as Fr
from .. import ra, cases, laws, spec
from ..run import *

POS = lambda i: (lambda v: v[i] > 0)

# documented domains (read from the documentation of the constructors); None: left open by the documentation
DOMAIN = {
    ('bernoulli::Bernoulli', 'new'): lambda p: 0 < p < 1,
    ('bernoulli::Bernoulli', 'with_failure'): lambda q: 0 < q < 1,
    ('beta::Beta', 'new'): lambda al, be, a, b: al > 0 and be > 0 and a < b,
    ('binomial::Binomial', 'new'): lambda n, p: None if p in (0, 1) else 0 < p < 1,
    ('binomial::Binomial', 'with_failure'): lambda n, q: None if q in (0, 1) else 0 < q < 1,
    ('cauchy::Cauchy', 'new'): lambda x, g: g > 0,
    ('exponential::Exponential', 'new'): lambda l: l > 0,
    ('gamma::Gamma', 'new'): lambda k, t: k > 0 and t > 0,
    ('gaussian::Gaussian', 'new'): lambda m, s: s > 0,
    ('laplace::Laplace', 'new'): lambda m, b: b > 0,
    ('logistic::Logistic', 'new'): lambda m, s: s > 0,
    ('lognormal::Lognormal', 'new'): lambda m, s: s > 0,
    ('pert::Pert', 'new'): lambda a, b, c: a < b < c,
    ('triangular::Triangular', 'new'): lambda a, b, c: a < b and a <= c <= b,
    ('uniform::Uniform', 'new'): lambda a, b: a < b,
}
VALID_FOR_INVERSE = {
    'bernoulli::Bernoulli': [(Fr(1, 4),), (Fr(1, 2),)], 'beta::Beta': [(Fr(2), Fr(3), Fr(-1), Fr(2)), (Fr(1, 2), Fr(1, 2), Fr(0), Fr(1)), (Fr(1), Fr(1), Fr(0), Fr(1))],
    'binomial::Binomial': [(Fr(10), Fr(1, 4)), (Fr(1), Fr(1, 2)), (Fr(5000), Fr(1, 2)), (Fr(1000), Fr('0.25'))],
    'categorical::Categorical': [((Fr(1, 4), Fr(3, 4)),), ((Fr(0), Fr(1)),), ((Fr(1),),)],
    'cauchy::Cauchy': [(Fr(0), Fr(1))], 'exponential::Exponential': [(Fr(2),)], 'gaussian::Gaussian': [(Fr(1), Fr(2))], 'laplace::Laplace': [(Fr(1), Fr(2))],
    'logistic::Logistic': [(Fr(1), Fr(2))], 'lognormal::Lognormal': [(Fr(1), Fr(1, 2))], 'pert::Pert': [(Fr(-1), Fr(0), Fr(2))],
    'triangular::Triangular': [(Fr(-1), Fr(2), Fr(0)), (Fr(0), Fr(1), Fr(0)), (Fr(0), Fr(1), Fr(1))], 'uniform::Uniform': [(Fr(-1), Fr(2))],
}
NAN = 'NaN'


def lift(x):
    if x == NAN:
        return ra.NAN
    if isinstance(x, tuple):
        return [lift(y) for y in x]
    return ra.exact(x)


def verdict_obl(obl, ev):
    """'reject' / 'accept' / 'unknown', and the obligation that decides"""
    unk = None
    for o in obl:
        r = True
        for f in tuple(o.facts) + (o.cond,):
            try:
                b = ev.val(f)
            except (Unknown, Undecided):
                b = None
            if b is False:
                r = False
                break
            if b is None:
                r = None
        if r is True:
            return 'reject', o
        if r is None:
            unk = o
    return ('unknown', unk) if unk is not None else ('accept', None)


def verdict(op, params, args=()):
    pv, av = [lift(x) for x in params], [lift(x) for x in args]
    try:
        ip, v, st = graph(op)
        ev = DrawEval(env_of(op, pv, av), ip.loops)
        r = verdict_obl(ip.obl, ev)
        if r[0] != 'unknown':
            return r
    except Unsupported:
        pass
    try:
        r = run_cell(op, pv, av)
        return 'accept', None
    except Panic as e:
        return 'reject', e.o
    except (Unknown, Undecided, Unsupported) as e:
        # the constructor or the check may have been decided even if the result is not
        return 'unknown', None
    except (TypeError, AttributeError, KeyError, IndexError, RecursionError):
        return 'unknown', None


def orders(names, consts):
    """one representative assignment for every ordering of the names among themselves and the constants"""
    cs = sorted(consts)
    slots = []
    lo, hi = (cs[0], cs[-1]) if cs else (Fr(0), Fr(0))
    m = len(names)
    # values available: every constant, and m values in each open gap
    vals = [lo - 1 - i for i in range(m)][::-1]
    for i, c in enumerate(cs):
        vals.append(c)
        nxt = cs[i + 1] if i + 1 < len(cs) else None
        if nxt is None:
            vals += [c + 1 + j for j in range(m)]
        else:
            vals += [c + (nxt - c) * Fr(j + 1, m + 1) for j in range(m)]
    return itertools.product(vals, repeat=m)


def pure(obl, nsyms):
    """are all conditions comparisons of inputs and constants only?"""
    todo, seen = [], set()
    for o in obl:
        todo += list(o.facts) + [o.cond]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.op in ('and', 'not', 'ite'):
            todo += list(n.args)
        elif n.op in ('lt', 'le', 'eq', 'isnan'):
            for a in n.args:
                if a.op not in ('sym', 'c'):
                    return False
        elif n.op != 'c':
            return False
    return True


def consts_of(obl):
    out, todo, seen = set(), [], set()
    for o in obl:
        todo += list(o.facts) + [o.cond]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.op == 'c' and n.ty == 'f64' and abs(n.args[0]) < 1e300:
            out.add(Fr(n.args[0]))
        todo += [a for a in n.args if isinstance(a, N)]
    return out


def run(c, prog):
    d = prog.d
    if not d.get('debug_assertions', True):
        c.notes.append('extracted without debug assertions')
    checked = {'constructors': {}, 'quantiles': {}}
    tot = {'accept': 0, 'reject': 0, 'unknown': 0, 'open': 0}
    samples = []
    exhaustive = 0

    def judge(name, desc, want, got):
        tot[got[0] if want is not None else 'open'] += 1
        if want is None or got[0] == 'unknown':
            return
        if want and got[0] == 'reject':
            c.violation(name, '%s is valid but the check at %s in %s rejects it' % (desc, got[1].sp, got[1].fn), case=desc)
        if not want and got[0] == 'accept':
            c.violation(name, '%s is ruled out by the documentation but no check rejects it (debug build)' % desc, case=desc)
        if len(samples) < 10 and tot[got[0]] % 37 == 1:
            samples.append('%s: %sed as documented' % (desc, got[0]))

    def show(v):
        return ', '.join('[%s]' % show(x) if isinstance(x, tuple) else x if x == NAN else '%g' % float(x) for x in v)
    def constructor(ty, ctor, dom):
        exhaustive = 0
        op = Op(prog, ty, None, ctor=ctor) if prog.method('distribution::' + ty, ctor) else None
        name = '%s::%s' % (ty.split('::')[1], ctor)
        if op is None:
            c.violation(name + '/missing', 'the constructor does not exist any more')
            return exhaustive
        ins = op.cfn['inputs']
        fl = [i for i, t in enumerate(ins) if t == 'f64']
        try:
            ip, _, _ = graph(op)
            ks, isp = consts_of(ip.obl), pure(ip.obl, fl)
        except Unsupported as e:
            ks, isp = set(), False
            c.notes.append('%s: %s' % (name, e))
        ks |= {Fr(0), Fr(1)}
        if len(ks) > 6:
            ks = {Fr(0), Fr(1)}
            isp = False
        n0 = dict(tot)
        if len(fl) >= 4:
            ks = {k for k in ks if k == 0} | {k for k in ks if k not in (0, 1)}
        cnt = 0
        for vals in orders(fl, ks):
            for ints in ([0, 1, 7] if len(fl) < len(ins) else [None]):
                v = list(vals)
                full = [ints if t != 'f64' else v.pop(0) for t in ins]
                full = tuple(Fr(x) for x in full)
                judge(name, '%s(%s)' % (name, show(full)), dom(*full), verdict(op, full))
                cnt += 1
        # NaN in one or more places, the others being valid
        good = cases.PARAMS[(ty, ctor)][:3]
        for g in good:
            for r in range(1, len(fl) + 1):
                for S in itertools.combinations(fl, r):
                    full = tuple(NAN if i in S else x for i, x in enumerate(g))
                    want = False if constrained(ty, ctor, S) else None
                    judge(name, '%s(%s)' % (name, show(full)), want, verdict(op, full))
                    cnt += 1
        # magnitudes
        for g in cases.PARAMS[(ty, ctor)]:
            judge(name, '%s(%s)' % (name, show(g)), True, verdict(op, g))
            cnt += 1
        exhaustive += bool(isp)
        checked['constructors'][name] = {'cases': cnt, 'checks_compare_inputs_and_constants_only': isp}
        return exhaustive
    for (ty, ctor), dom in sorted(DOMAIN.items()):
        exhaustive += c.part(constructor, ty, ctor, dom) or 0
    # categorical vectors
    ty = 'categorical::Categorical'
    name = 'Categorical::new'
    cat = [(v, True) for (v,) in cases.PARAMS[(ty, 'new')]]
    h, q, e = Fr(1, 2), Fr(1, 4), Fr(1, 1000)
    cat += [((h, h + e), False), ((h, h - e), False), ((q, q), False), ((Fr(3, 4), h), False), ((h, h, h), False), ((Fr(5, 4), -q), False), ((-q, Fr(5, 4)), False),
            ((q, q, q), False), ((Fr(0), Fr(0)), False), ((Fr(2),), False), ((Fr(0),), False), ((Fr(-1), Fr(1), Fr(1)), False), ((Fr(1), Fr(-1), Fr(1)), False), ((Fr(1), Fr(1), Fr(-1)), False),
            ((Fr(1, 100), Fr(99, 100) - e * 2), False), ((h, h + Fr(1, 2 ** 53)), True), ((h, h - Fr(1, 2 ** 53)), True), ((NAN, h), False), ((h, NAN), False), ((NAN,), False), ((h, h, NAN), False), ((h, NAN, h), False),
            ((Fr(3, 2), -h, Fr(0)), False), ((Fr(0), Fr(3, 2), -h), False), ((q, Fr(3, 2), -Fr(3, 4)), False), (tuple([Fr(1, 8)] * 8), True), (tuple([Fr(1, 8)] * 7), False), (tuple([Fr(1, 8)] * 9), False)]
    # sums that are off by more, or by no more, than rounding can explain
    for d in (Fr(1, 10 ** 8), Fr(1, 10 ** 6)):
        cat += [((h, h + d), False), ((h - d, h), False), ((q, q, q, q + d), False), ((1 - d,), False), ((Fr(0), 1 - d, Fr(0)), False)]
    cat += [(tuple([spec.fp(1 / Fr(10))] * 10), True), (tuple([spec.fp(1 / Fr(49))] * 49), True), (tuple([Fr(1, 128)] * 127 + [Fr(1, 128) + Fr(5, 10 ** 15)]), True),
            (tuple([Fr(1, 128)] * 127 + [Fr(1, 128) - Fr(5, 10 ** 15)]), True)]
    cnt = 0
    for v, want in cat:
        try:
            op = Op(prog, ty, None, k=len(v))
        except Missing:
            c.violation(name + '/missing', 'the constructor does not exist any more')
            break
        judge(name, '%s([%s])' % (name, show(v)), want, verdict(op, (v,)))
        cnt += 1
    checked['constructors'][name] = {'cases': cnt}
    # quantile functions
    def quantile(ty, goods):
        name = ty.split('::')[1] + '::inverse'
        cnt = 0
        for g in goods:
            k = len(g[0]) if isinstance(g[0], tuple) else None
            try:
                op = Op(prog, ty, 'inverse', k=k)
            except Missing:
                c.violation(name + '/missing', 'the quantile function does not exist any more')
                break
            ks = {Fr(0), Fr(1)}
            try:
                ip, _, _ = graph(op)
                ks |= {x for x in consts_of([o for o in ip.obl if o.kind.startswith('panic')]) if abs(x) < 10}
            except Unsupported:
                pass
            ps = set()
            for x in ks:
                ps |= {x, x - Fr(1, 10 ** 9), x + Fr(1, 10 ** 9), x - Fr(1, 2 ** 52), x + Fr(1, 2 ** 52)}
            ps |= {Fr(-3), Fr(-1, 2), Fr(3, 2), Fr(100), Fr(1, 10), Fr(1, 4), h, Fr(3, 4), Fr(9, 10)}
            for p in sorted(ps) + [NAN]:
                want = p != NAN and 0 <= p <= 1
                try:
                    got = spec.limited(verdict, 10, op, g, (p,))
                except spec.Timeout:
                    got = ('unknown', None)
                judge(name, '%s(%s).inverse(%s)' % (ty.split('::')[1], show(g), show((p,))), want, got)
                cnt += 1
        checked['quantiles'][name] = {'cases': cnt}
    for ty, goods in sorted(VALID_FOR_INVERSE.items()):
        c.part(quantile, ty, goods)
    # the standard quantile is a public function too
    f = prog.fns.get('probability::distribution::gaussian::inverse')
    if f is not None:
        ip = Interp(prog)
        try:
            x = sym('x0')
            ip.enter(f, [x], State(), {})
            for p in [Fr(-1), Fr(-1, 10 ** 9), Fr(0), Fr(1, 10 ** 9), h, 1 - Fr(1, 10 ** 9), Fr(1), 1 + Fr(1, 10 ** 9), Fr(2), NAN]:
                ev = DrawEval({'x0': lift(p)}, ip.loops)
                judge('gaussian::inverse', 'gaussian::inverse(%s)' % show((p,)), p != NAN and 0 <= p <= 1, verdict_obl([o for o in ip.obl], ev))
        except (Unsupported, TypeError, KeyError, AttributeError) as e:
            c.notes.append('gaussian::inverse: %s' % e)
    c.coverage = {
        'explanation': 'Every assertion reachable in a constructor or quantile function is an obligation (path facts, condition) of the abstract interpretation of its MIR '
                       '(built with debug assertions). Its verdict is computed for one representative of every ordering of the inputs among themselves and the constants the checks '
                       'compare with, plus NaN in every place, and compared with the documented domain. Where the checks only compare inputs and constants, the orderings exhaust the input space.',
        'constructors': len(checked['constructors']), 'quantile_functions': len(checked['quantiles']), 'input_classes': sum(tot.values()), 'accepted': tot['accept'], 'rejected': tot['reject'],
        'undecided': tot['unknown'], 'left_open_by_documentation': tot['open'], 'constructors_exhausted': exhaustive, 'per_function': checked, 'samples': samples,
    }
    c.assumptions = ['p = 0 and p = 1 of a binomial law: the documentation allows them, the code has always rejected them; treated as left open',
                     'infinite parameters are left open']


def constrained(ty, ctor, S):
    """does the documentation constrain (by a comparison) one of the arguments in S?"""
    free = {('cauchy::Cauchy', 'new'): {0}, ('gaussian::Gaussian', 'new'): {0}, ('laplace::Laplace', 'new'): {0}, ('logistic::Logistic', 'new'): {0}, ('lognormal::Lognormal', 'new'): {0}}
    return bool(set(S) - free.get((ty, ctor), set()))


CHECKS = {'C12': run}
