"""C13 accessors and cached values, C14 purity, C15 independent sampler, C18 crate-wide obligations, C19 fitting."""
import json, math, os, re, shutil, subprocess, tempfile, time
from fractions import Fraction as Fr
from .. import ra, cases, laws, spec, extract, models, alg, fe
from ..run import *
from ..graph import *
from ..evalr import pick

# accessor -> what it reports, as a function of the constructor's arguments: index, or (name, exact value)
one = Fr(1)
REPORT = {
    ('bernoulli::Bernoulli', 'new'): {'p': 0, 'q': ('1 - p', lambda p: 1 - p)},
    ('bernoulli::Bernoulli', 'with_failure'): {'q': 0, 'p': ('1 - q', lambda q: 1 - q)},
    ('beta::Beta', 'new'): {'alpha': 0, 'beta': 1, 'a': 2, 'b': 3},
    ('binomial::Binomial', 'new'): {'n': 0, 'p': 1, 'q': ('1 - p', lambda n, p: 1 - p)},
    ('binomial::Binomial', 'with_failure'): {'n': 0, 'q': 1, 'p': ('1 - q', lambda n, q: 1 - q)},
    ('cauchy::Cauchy', 'new'): {'x_0': 0, 'gamma': 1},
    ('exponential::Exponential', 'new'): {'lambda': 0},
    ('gamma::Gamma', 'new'): {'k': 0, 'theta': 1},
    ('gaussian::Gaussian', 'new'): {'mu': 0, 'sigma': 1},
    ('laplace::Laplace', 'new'): {'mu': 0, 'b': 1},
    ('logistic::Logistic', 'new'): {'mu': 0, 's': 1},
    ('lognormal::Lognormal', 'new'): {'mu': 0, 'sigma': 1},
    ('pert::Pert', 'new'): {'a': 0, 'b': 1, 'c': 2, 'alpha': ('(4 b + c - 5 a) / (c - a)', lambda a, b, c: (4 * b + c - 5 * a) / (c - a)),
                            'beta': ('(5 c - a - 4 b) / (c - a)', lambda a, b, c: (5 * c - a - 4 * b) / (c - a))},
    ('triangular::Triangular', 'new'): {'a': 0, 'b': 1, 'c': 2},
    ('uniform::Uniform', 'new'): {'a': 0, 'b': 1},
}
DEFAULTS = {'gaussian::Gaussian': (0, 1), 'logistic::Logistic': (0, 1), 'lognormal::Lognormal': (0, 1), 'uniform::Uniform': (0, 1)}


CACHED = {
    'bernoulli::Bernoulli': {'q': lambda l: l.q, 'p': lambda l: l.p, 'pq': lambda l: l.p * l.q},
    'binomial::Binomial': {'p': lambda l: l.p, 'q': lambda l: l.q, 'np': lambda l: l.N * l.p, 'nq': lambda l: l.N * l.q, 'npq': lambda l: l.N * l.p * l.q},
    'beta::Beta': {'ln_beta': lambda l: alg.lnbeta(l.al, l.be)},
    'pert::Pert': {'ln_beta': lambda l: alg.lnbeta(l.al, l.be), 'alpha': lambda l: l.al, 'beta': lambda l: l.be},
    'gamma::Gamma': {'ln_norm': lambda l: alg.lngamma(l.k) + l.k * alg.ln(l.t)},
    'gaussian::Gaussian': {'norm': lambda l: l.d * alg.sqrt(2 * alg.PI)},
}


def strip(n):
    """undo operations that are exact in floating point and leave the value as it is"""
    while True:
        a = n.args
        if n.op == 'ite' and strip(a[1]) is strip(a[2]):
            n = a[1]
        elif n.op == 'fmul' and isc(a[0]) and cv(a[0]) == 1:
            n = a[1]
        elif n.op in ('fmul', 'fdiv') and isc(a[1]) and cv(a[1]) == 1:
            n = a[0]
        elif n.op in ('fadd', 'fsub') and isc(a[1]) and cv(a[1]) == 0:
            n = a[0]
        elif n.op == 'fadd' and isc(a[0]) and cv(a[0]) == 0:
            n = a[1]
        elif n.op == 'fneg' and a[0].op == 'fneg':
            n = a[0].args[0]
        elif n.op == 'i2i' and a[0].op in ('i2i', 'f2i') and a[0].args[0].ty == n.ty:
            n = a[0].args[0]
        elif n.op == 'f2i' and a[0].op == 'i2f' and a[0].args[0].ty == n.ty:
            n = a[0].args[0]
        else:
            return n


EXACT_FN = ('fn:min', 'fn:max', 'fn:abs', 'fn:copysign')


def rounding(n, s, seen=None):
    """a floating-point operation that may round between the value and the symbol"""
    seen = set() if seen is None else seen
    if n in seen or n is s:
        return None
    seen.add(n)
    if strip(n) is s:
        return None
    if (n.op in ('fadd', 'fsub', 'fmul', 'fdiv') or n.op.startswith('fn:')) and n.op not in EXACT_FN and any(depends(a, s) for a in n.args if isinstance(a, N)):
        return n.op
    for a in n.args:
        if isinstance(a, N):
            r = rounding(a, s, seen)
            if r:
                return r
    return None


def depends(n, s):
    todo, seen = [n], set()
    while todo:
        x = todo.pop()
        if x is s:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += [a for a in x.args if isinstance(a, N)]
    return False


def eqv(a, b, rel=1e-12):
    if isinstance(a, V) and isinstance(b, V):
        return ra.compare(a, b, rel=ra.mpf(rel), tiny=ra.mpf(1e-290))
    return 'unk'


def c13(c, prog):
    exact, derived, structs, dflt, clones, samples = 0, 0, 0, 0, 0, []
    cached = 0
    undecided = []
    def part1(item):
        nonlocal exact, derived, structs, dflt, clones
        (ty, ctor), rep = item
        T = ty.split('::')[1]
        for acc, what in rep.items():
            name = '%s::%s%s' % (T, acc, '' if ctor == 'new' else '[%s]' % ctor)
            try:
                op = Op(prog, ty, acc, ctor=ctor)
            except Missing:
                c.violation(name + '/missing', 'the accessor %s::%s does not exist any more' % (T, acc))
                continue
            try:
                ip, v, st = graph(op)
            except Unsupported as e:
                undecided.append('%s: %s' % (name, e))
                continue
            if isinstance(v, Ref):
                v = ip.read(st, v)
            if isinstance(what, int):
                s = op.csyms[what]
                if isinstance(v, N) and strip(v) is s:
                    exact += 1
                    if len(samples) < 6:
                        samples.append('%s is the value given to %s (same node of the value graph)' % (name, ctor))
                    continue
            bad = None
            okc = 0
            for prm in cases.PARAMS[(ty, ctor)]:
                pv = [ra.exact(x) for x in prm]
                want = ra.exact(prm[what]) if isinstance(what, int) else ra.exact(what[1](*[Fr(x) for x in prm]))
                try:
                    got = evaluate(op, pv).value
                except Panic as e:
                    bad = (prm, 'a panic: %s' % e, want)
                    break
                except (Unknown, Undecided) as e:
                    undecided.append(name)
                    continue
                r = eqv(got, want)
                if r == 'ne' or (isinstance(got, V) and got.q is not None and want.q is not None and isinstance(what, int) and got.q != want.q):
                    bad = (prm, repr(got), want)
                    break
                okc += r == 'eq'
            if bad:
                w = 'the value given' if isinstance(what, int) else what[0]
                c.violation(name, '%s reports %s instead of %s = %r for parameters (%s)' % (name, bad[1], w, bad[2], ', '.join('%g' % float(x) for x in bad[0])), at=op.fn['sp'])
            elif isinstance(what, int):
                r = rounding(v, op.csyms[what])
                if r:
                    c.violation(name, '%s does not report the value given to %s but a recomputed one (it passes through a rounding %s)' % (name, ctor, r), at=op.fn['sp'])
                else:
                    exact += 1
            else:
                derived += okc > 0
    for item in sorted(REPORT.items()):
        c.part(part1, item)
    # categorical: directed by the box of probabilities, but judged on the nodes
    def part2(item):
        nonlocal exact, derived, structs, dflt, clones
        (vec,) = item
        k = len(vec)
        if k > 12:
            return
        for acc in ('k', 'p'):
            try:
                op = Op(prog, 'categorical::Categorical', acc, k=k)
                r = run_cell(op, ([ra.exact(Fr(x)) for x in vec],), ())
            except Missing:
                c.violation('Categorical::%s/missing' % acc, 'the accessor does not exist any more')
                continue
            except Panic as e:
                c.violation('Categorical::' + acc, 'panics for %s: %s' % ([float(x) for x in vec], e))
                continue
            except (Unsupported, Unknown, Undecided) as e:
                undecided.append('Categorical::%s: %s' % (acc, e))
                continue
            v, ip = r.node, Interp(prog)
            while isinstance(v, (Ref, Slice)):
                v = ip.read(r.state, v)
            if acc == 'k':
                if isinstance(v, N) and isc(v) and cv(v) != k:
                    c.violation('Categorical::k', 'k() is %d for %d probabilities' % (cv(v), k), at=op.fn['sp'])
                else:
                    exact += 1
            elif isinstance(v, Agg):
                bad = len(v.f) != k
                for x, s in zip(v.f, op.csyms):
                    if strip(x) is s or bad:
                        continue
                    if x.op == 'sym' or isc(x) or rounding(x, s) or not depends(x, s):
                        bad = True
                if bad:
                    c.violation('Categorical::p', 'p() is %s instead of the %d probabilities given' % ([show(x) for x in v.f], k), at=op.fn['sp'])
                else:
                    exact += 1
    for item in cases.PARAMS[('categorical::Categorical', 'new')]:
        c.part(part2, item)
    # same law from both constructors: every field of the value built
    def part3(item):
        nonlocal exact, derived, structs, dflt, clones
        ty, n = item
        T = ty.split('::')[1]
        try:
            a, b = Op(prog, ty, None, ctor='new'), Op(prog, ty, None, ctor='with_failure')
            ga, gb = graph(a), graph(b)
        except Missing as e:
            c.violation('%s/missing' % T, 'missing: %s' % e)
            return
        except Unsupported as e:
            undecided.append('%s: %s' % (T, e))
            return
        va, vb = ga[1], gb[1]
        if not (isinstance(va, Agg) and isinstance(vb, Agg) and len(va.f) == len(vb.f)):
            undecided.append('%s: shape' % T)
            return
        fields = [f['name'] for f in prog.structs['probability::distribution::' + ty]['variants'][0]['fields']]
        for prm in cases.PARAMS[(ty, 'new')]:
            prm2 = prm[:-1] + (1 - Fr(prm[-1]),)
            try:
                ea = DrawEval(env_of(a, [ra.exact(x) for x in prm], ()), ga[0].loops)
                eb = DrawEval(env_of(b, [ra.exact(x) for x in prm2], ()), gb[0].loops)
            except Exception:
                continue
            for f, x, y in zip(fields, va.f, vb.f):
                if not (isinstance(x, N) and isinstance(y, N) and x.ty in ('f64', 'usize') and x.ty == y.ty):
                    continue
                try:
                    r = eqv(ea.val(x), eb.val(y), 1e-9)
                except (Unknown, Undecided):
                    continue
                structs += r == 'eq'
                if r == 'ne':
                    c.violation('%s::with_failure/%s' % (T, f), '%s::with_failure(%s) caches %s = %r where new caches %r' % (T, ', '.join('%g' % float(z) for z in prm2), f, eb.val(y), ea.val(x)), at=b.cfn['sp'])
    for item in (('bernoulli::Bernoulli', 1), ('binomial::Binomial', 2)):
        c.part(part3, item)
    # default instances
    def part4(item):
        nonlocal exact, derived, structs, dflt, clones
        ty, prm = item
        T = ty.split('::')[1]
        f = prog.impl_fn('core::default::Default', 'distribution::' + ty, 'default')
        if f is None:
            c.violation('%s::default/missing' % T, '%s has no default instance any more' % T)
            return
        try:
            ip = Interp(prog)
            st, v = ip.enter(f, [], State(), {'Self': 'distribution::' + ty})
            op = Op(prog, ty, None)
            g = graph(op)
            if v is None:
                o = [o for o in ip.obl if o.cond is TRUE]
                c.violation('%s::default' % T, 'the default instance panics', at=f['sp'])
                return
            ev, er = Eval({}, ip.loops), DrawEval(env_of(op, [ra.exact(Fr(x)) for x in prm], ()), g[0].loops)
            if not (isinstance(v, Agg) and isinstance(g[1], Agg) and len(v.f) == len(g[1].f)):
                undecided.append('%s::default: shape' % T)
                return
            fields = [x['name'] for x in prog.structs['probability::distribution::' + ty]['variants'][0]['fields']]
            ls = list(zip(list(leaves(v)), list(leaves(g[1]))))
            for i, (x, y) in enumerate(ls):
                fn = fields[i] if i < len(fields) else str(i)
                try:
                    r = eqv(ev.val(x), er.val(y))
                except (Unknown, Undecided):
                    undecided.append('%s::default.%s' % (T, fn))
                    continue
                dflt += r == 'eq'
                if r == 'ne':
                    c.violation('%s::default/%s' % (T, fn), '%s::default() has %s = %r, but the standard member of the family, new(%s), has %r' % (T, fn, ev.val(x), ', '.join(map(str, prm)), er.val(y)), at=f['sp'])
        except (Unsupported, KeyError, TypeError, AttributeError) as e:
            undecided.append('%s::default: %s' % (T, e))
    for item in sorted(DEFAULTS.items()):
        c.part(part4, item)
    # a duplicate is the same law
    def part5(item):
        nonlocal exact, derived, structs, dflt, clones
        ty = item
        T = ty.split('::')[1]
        f = prog.impl_fn('core::clone::Clone', 'distribution::' + ty, 'clone')
        if f is None:
            return              # reported under C18
        try:
            op = Op(prog, ty, None, k=3)
            ip = Interp(prog)
            st = op.start(ip)
            st.mem['self'] = st.mem['self']
            st2, v = ip.enter(f, [Ref('self')], st, {'Self': 'distribution::' + ty})
            if v is not None and same(v, st.mem['self']):
                clones += 1
            elif f.get('derived'):
                clones += 1
            elif v is not None:
                for x, y in zip(leaves(v), leaves(st.mem['self'])):
                    if x is not y and strip(x) is not strip(y):
                        c.violation('%s::clone' % T, 'a clone of %s is not the same law: %s became %s' % (T, show(y), show(x)), at=f['sp'])
                        break
        except (Unsupported, KeyError, TypeError, AttributeError) as e:
            if f.get('derived'):
                clones += 1
            else:
                undecided.append('%s::clone: %s' % (T, e))
    for item in laws.LAWS:
        c.part(part5, item)
    # what the constructors cache agrees with the parameters: judged by its effect on the law
    def part6(item):
        nonlocal cached
        ty, ctor = item
        T = ty.split('::')[1]
        op = Op(prog, ty, None, ctor=ctor)
        try:
            ip, v, st = graph(op)
        except Unsupported as e:
            undecided.append('%s: %s' % (T, e))
            return
        if not isinstance(v, Agg):
            return
        fields = [f['name'] for f in prog.structs['probability::distribution::' + ty]['variants'][0]['fields']]
        if len(fields) != len(v.f):
            return
        base = [(prm, ()) for prm in cases.PARAMS[(ty, ctor)]]
        nodes = [n for f in v.f for n in leaves(f)]
        gs = [g for g in spec.atoms([n for n in nodes if isinstance(n, N)]) if all(s.startswith('c') for s in spec.syms_of(g))]
        op.asyms = []
        more = []
        if gs:
            more = [prm for prm, _ in spec.mine(op, base[:4], gs[:30], op.cfn['inputs'], maxnew=200, deadline=time.time() + 20)]
            # well inside either side of each boundary
            more = list(dict.fromkeys(more))
        want = CACHED.get(ty, {})
        for prm in [b[0] for b in base] + more[:120]:
            pv = [spec.vbox(x, t, None) for x, t in zip(prm, op.cfn['inputs'])]
            wrong = None
            try:
                law = spec.law_of(ty, ctor, op.cfn['inputs'], pv)
                ev = DrawEval(env_of(op, pv, ()), ip.loops)
                for f, x in zip(fields, v.f):
                    if f not in want or not isinstance(x, N):
                        continue
                    try:
                        got = ev.val(x)
                        ref = want[f](law).v
                    except (Unknown, Undecided):
                        continue
                    r = eqv(got, ref, 1e-11)
                    cached += r == 'eq'
                    if r == 'ne':
                        wrong = (f, got, ref)
                        break
            except (Unknown, Undecided, laws.Skip):
                pass
            if wrong is None and prm not in more:
                continue
            # does it matter?
            bad = fault(ty, ctor, prm)
            if bad:
                what = '%s = %r where the parameters imply %r' % wrong if wrong else 'values that do not agree with the parameters'
                c.violation('%s::%s/cache' % (T, ctor), '%s::%s(%s) caches %s: %s' % (T, ctor, ', '.join('%.17g' % float(x) for x in prm), what, bad), at=op.cfn['sp'])
                return

    def fault(ty, ctor, prm):
        """an operation whose value is not that of the law with these parameters"""
        view = prm[:-1] + (1 - prm[-1],) if ctor == 'with_failure' else prm
        disc = laws.LAWS[ty].discrete
        for m in ('density', 'mass', 'distribution', 'mean', 'variance', 'median', 'entropy', 'inverse'):
            try:
                o = Op(prog, ty, m, ctor=ctor)
            except Missing:
                continue
            argt = o.fn['inputs'][1:]
            if m in ('density', 'distribution') and not disc:
                al = [(x,) for x in cases.xs(ty, view)]
            elif m == 'distribution':
                al = [(x,) for x in cases.dxs(ty, view)]
            elif m == 'mass':
                al = [(Fr(k),) for k in cases.dks(ty, view)]
            elif m == 'inverse':
                al = [(Fr(1, 5),), (Fr(7, 10),)]
            else:
                al = [()]
            if m == 'entropy' and ty == 'binomial::Binomial' and prm[0] > 300:
                continue
            for a in al[::max(1, len(al) // 12)]:
                try:
                    r = spec.limited(spec.probe, 5, o, prm, a, argt)
                except (spec.Timeout, Unsupported, Unknown, Undecided):
                    continue
                if r is not None and r.status in ('differ', 'panic') and not spec.known_key(o, prm, a, r):
                    return '%s is %s instead of %s' % (spec.describe(o, prm, a), r.code, r.ref)
        return None
    for item in sorted(REPORT):
        c.part(part6, item)
    c.coverage = {
        'explanation': 'Each accessor is composed with each constructor by abstract interpretation of their MIR: it must yield the very node of the constructor argument (no rounding operation in between); documented derived '
                       'values, all cached fields of the alternative constructors and of the default instances are compared as exact real functions of the parameters on a table of parameters.',
        'accessors_proved_identity': exact, 'derived_accessors': derived, 'cached_fields_compared_between_constructors': structs, 'cached_values_compared': cached, 'default_fields': dflt, 'clones_identical': clones,
        'undecided': undecided[:20], 'samples': samples,
    }
    c.assumptions = ['derived values are compared in real arithmetic']


# ---------------------------------------------------------------------------------------------- C14
FORBID = re.compile(r'^(std::|core::sync|alloc::sync|core::cell|core::arch|core::time|core::ptr::addr|core::any|core::hash|core::intrinsics::volatile|core::ptr::(read|write)_volatile|core::panic::Location)')
INTERIOR = re.compile(r'\b(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|OnceLock|LazyLock|Mutex|RwLock|SyncUnsafeCell|Atomic[A-Z]\w*|Rc|Arc|Weak)\b|\*mut |\*const |&mut |Box<dyn|fn\(')


def bodies(prog):
    for f in prog.d['fns']:
        if f.get('body'):
            yield f, f['body']
        for p in f.get('promoted') or []:
            yield f, p


def places(o):
    if isinstance(o, dict):
        yield o
        for v in o.values():
            yield from places(v)
    elif isinstance(o, list):
        for v in o:
            yield from places(v)


def c14(c, prog):
    d = prog.d
    n_calls = n_fns = n_rand = 0
    stat = {}
    for s in d['statics']:
        t = json.dumps(s)
        p = s.get('path') if isinstance(s, dict) else str(s)
        mut = isinstance(s, dict) and (s.get('mut') or s.get('mutable'))
        ty = s.get('ty', '') if isinstance(s, dict) else ''
        stat[p] = ty
        if mut or INTERIOR.search(ty):
            c.violation('static/' + str(p), 'mutable global state: static %s: %s' % (p, ty), static=t)
    for s in d['structs']:
        if '::distribution::' not in s['path']:
            continue
        for v in s['variants']:
            for f in v['fields']:
                if INTERIOR.search(f['ty']):
                    c.violation('%s.%s' % (s['path'].split('::')[-1], f['name']), 'the field %s of %s has a type with interior mutability or shared state: %s' % (f['name'], s['path'], f['ty']), at=s['sp'])
    for f in d['fns']:
        if f.get('self_ty') and f['self_ty'].startswith('distribution::') and f.get('inputs') and f['reachable']:
            if any(re.match(r"^&(\'\w+ )?mut (Self|%s)" % re.escape(f['self_ty']), t) for t in f['inputs']):
                if f['trait'] not in ('core::clone::Clone', 'alloc::borrow::ToOwned') and not f.get('derived'):
                    c.violation(f['path'] + '/mut', '%s takes the distribution by mutable reference: use may change it' % f['path'], at=f['sp'])
    for f, body in bodies(prog):
        n_fns += 1
        for b in body['blocks']:
            if b.get('cleanup'):
                continue
            for s in b['st']:
                rv = s.get('rv') or {}
                if rv.get('k') == 'tls':
                    c.violation(f['path'] + '/tls', '%s reads thread-local state %s' % (f['path'], rv.get('path')), at=s.get('sp'))
                if rv.get('k') == 'cast' and ('Expose' in rv.get('ck', '') or 'PointerExpose' in rv.get('ck', '')):
                    c.violation(f['path'] + '/addr', '%s observes an address' % f['path'], at=s.get('sp'))
            t = b['term']
            if t['t'] == 'other' and 'asm' in json.dumps(t).lower():
                c.violation(f['path'] + '/asm', '%s contains inline assembly' % f['path'])
            if t['t'] != 'call':
                continue
            o = t['f']
            if o.get('k') != 'fn':
                continue
            n_calls += 1
            path, cr = o['path'], o.get('crate')
            if cr == 'random' or (o.get('trait') or '').startswith('random::'):
                n_rand += 1
                src = o.get('self_ty') or ''
                gens = set(f.get('generics') or [])
                inputs = f.get('inputs') or []
                if o.get('trait') not in ('random::Source', 'random::Value'):
                    c.violation(f['path'] + '/' + path, '%s creates or uses its own source of randomness: %s' % (f['path'], path), at=t.get('sp'))
                    continue
                if o['trait'] == 'random::Source':
                    base = src.replace('&mut ', '').replace('&', '').strip()
                    if base not in gens and base not in outer_generics(prog, f):
                        c.violation(f['path'] + '/' + path, '%s reads from %s, which is not the source supplied by the caller' % (f['path'], src), at=t.get('sp'))
            elif FORBID.match(path) or (cr == 'std' and not path.startswith('std::rt')) or cr not in KNOWN_CRATES:
                if t.get('macro', '') and ('assert' in t['macro'] or 'panic' in t['macro'] or 'unreachable' in t['macro']):
                    continue
                if cr is None:
                    continue
                c.violation(f['path'] + '/' + path, '%s depends on something beyond its arguments: %s (crate %s)' % (f['path'], path, cr), at=t.get('sp'))
    # only operations given a source may draw: follow the call graph from operations without one
    local = {}
    draws = set()
    for f in d['fns']:
        for b in (f.get('body') or {}).get('blocks', []):
            t = b['term']
            if t['t'] == 'call' and t['f'].get('k') == 'fn':
                o = t['f']
                local.setdefault(f['path'], set()).add(o['path'])
                if o.get('trait') in ('random::Source', 'random::Value'):
                    draws.add(f['path'])
    c.coverage = {
        'explanation': 'Effect analysis over the MIR of every body of the crate (closures and promoted constants included): no mutable statics, thread-locals, interior mutability in any field, no &mut self on a distribution, '
                       'no call outside core/alloc arithmetic and containers and the dependencies special and libm, and every draw is made through a type parameter bound by Source that the caller supplied.',
        'bodies': n_fns, 'call_sites': n_calls, 'draw_sites': n_rand, 'functions_that_draw': sorted(draws), 'statics': stat, 'structs': len(d['structs']),
        'samples': ['%s: %d distinct callees, all pure' % (k, len(v)) for k, v in sorted(local.items())[:8]],
    }
    c.assumptions = ['functions of core, alloc, special and libm that are called are pure', 'the compiler does not reorder or fuse floating-point operations']


KNOWN_CRATES = {'core', 'alloc', 'special', 'libm', 'probability', 'random', 'std'}


def outer_generics(prog, f):
    """type parameters of the function a closure lives in"""
    out = set()
    for g in prog.d['fns']:
        if g is not f and f['path'].startswith(g['path'] + '::') and g.get('generics'):
            out |= set(g['generics'])
    if f.get('kind') == 'Closure':
        out |= {x for g in prog.d['fns'] for x in (g.get('generics') or []) if f['path'].startswith(g['path'])}
    return out


# ---------------------------------------------------------------------------------------------- C15
ENDLESS = {'fold', 'for_each', 'count', 'last', 'collect', 'sum', 'product', 'max', 'min', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'reduce', 'partition', 'unzip'}


def c15(c, prog):
    IND = [f for f in prog.d['fns'] if f.get('trait') == 'core::iter::Iterator' and (f.get('self_ty') or '').startswith('sampler::Independent')]
    nxt = [f for f in IND if f['name'] == 'next']
    steps, other, und = 0, [], []
    if not nxt:
        c.violation('Independent::next/missing', 'the independent sampler is no iterator any more')
        c.coverage = {'explanation': 'the sampler is missing'}
        return
    f = nxt[0]

    def world():
        ip = Interp(prog)
        st = State()
        st.mem['dist'] = Opaque(mk('sym', ('D',), 'any'))
        st.mem['rng'] = sym('rng', 'rng')
        st.mem['it'] = Agg('adt', 'sampler::Independent', [Ref('dist'), Ref('rng')])
        log = []

        def smp(ip, fr, st, args, o):
            r = args[1]
            d = args[0]
            st = st.copy()
            while isinstance(d, Ref) and isinstance(st.mem.get(d.cell), Ref):
                d = st.mem[d.cell]
            while isinstance(ip.read(st, r), Ref):
                r = ip.read(st, r)
            tok = ip.read(st, r)
            if not (isinstance(tok, N) and tok.ty == 'rng'):
                raise Unsupported('sample from %r' % (tok,))
            log.append(d)
            ip.write(st, r, mk('smpadv', (tok,), 'rng'))
            return st, mk('smp', (tok,), 'f64')
        ip.summaries['probability::distribution::Sample::sample'] = smp

        def other(name):
            """a method of the stream called on the stream itself"""
            def h(ip, fr, st, args, o):
                v = args[0] if args else None
                while isinstance(v, Ref):
                    w = ip.read(st, v)
                    if isinstance(w, Agg) and w.kind == 'adt' and w.tag == 'sampler::Independent':
                        tgt = next((g for g in IND if g['name'] == name), None)
                        if tgt is not None:
                            return ip.enter(tgt, [v] + list(args[1:]), st, {})
                        break
                    v = w
                if isinstance(v, Agg) and v.kind == 'adt' and v.tag == 'sampler::Independent':
                    tgt = next((g for g in IND if g['name'] == name), None)
                    if tgt is not None:
                        return ip.enter(tgt, list(args), st, {})
                    if name in ('into_iter', 'by_ref'):
                        return st, args[0]
                return models.call(ip, fr, st, o, args, {'sp': None, 'macro': '', 'to': 0, 'dty': None, 'argtys': []})
            return h
        for nm in ('next', 'nth', 'advance_by', 'fold', 'for_each', 'size_hint', 'by_ref'):
            ip.summaries['core::iter::Iterator::' + nm] = other(nm)
        ip.summaries['core::iter::IntoIterator::into_iter'] = other('into_iter')

        def unknown(ip, fr, st, args, o):
            """a function of the caller"""
            if args and isinstance(args[0], (Ref, Opaque)):
                v = args[0]
                while isinstance(v, Ref):
                    v = ip.read(st, v)
                if isinstance(v, Opaque):
                    k = len(log2)
                    log2.append(k)
                    return st, Opaque(mk('sym', ('ret%d' % k,), 'any'))
            return models.call(ip, fr, st, o, args, {'sp': None, 'macro': '', 'to': 0, 'dty': None, 'argtys': []})
        log2 = []
        for nm in ('FnMut::call_mut', 'FnOnce::call_once', 'Fn::call'):
            ip.summaries['core::ops::' + nm] = unknown
        return ip, st, log
    def tok(n):
        t = sym('rng', 'rng')
        for _ in range(n):
            t = mk('smpadv', (t,), 'rng')
        return t
    ip, st, log = world()
    try:
        for k in range(4):
            st, v = ip.enter(f, [Ref('it')], st, {})
            want = mk('smp', (tok(k),), 'f64')
            where = 'step %d' % (k + 1)
            if v is None:
                c.violation('Independent::next', 'the sampler panics on %s' % where, at=f['sp'])
                break
            if not isinstance(v, Enum) or not isc(v.d) or cv(v.d) != 1:
                c.violation('Independent::next', 'the stream may end: %s returns None under %s' % (where, show(v.d) if isinstance(v, Enum) else v), at=f['sp'])
                break
            p = v.v[1][0]
            if p is not want:
                c.violation('Independent::next', 'on %s the sampler yields %s, not the value of one call of sample on the distribution and source given (%s)' % (where, show(p) if isinstance(p, N) else p, show(want)), at=f['sp'])
                break
            if st.mem['rng'] is not tok(k + 1):
                c.violation('Independent::next', '%s consumes the source as %s, not as exactly one call of sample does' % (where, show(st.mem['rng'])), at=f['sp'])
                break
            if not (isinstance(log[-1], Ref) and log[-1].cell == 'dist'):
                c.violation('Independent::next', '%s samples another distribution than the one given' % where, at=f['sp'])
                break
            steps += 1
        if ip.obl:
            for o in ip.obl:
                if o.cond is TRUE or not ip.known(State(facts=o.facts), o.cond) is False:
                    c.violation('Independent::next/panic', 'next may panic: %s' % o.kind, at=o.sp)
    except (Unsupported, KeyError, TypeError, AttributeError, IndexError) as e:
        und.append('next: %s' % e)
    # the source is only ever used through the distribution
    for g, body in bodies(prog):
        if 'sampler::' not in g['path']:
            continue
        for b in body['blocks']:
            t = b['term']
            if t['t'] == 'call' and t['f'].get('k') == 'fn' and (t['f'].get('crate') == 'random' or (t['f'].get('trait') or '').startswith('random::')) and not b.get('cleanup'):
                c.violation(g['path'] + '/reads', '%s uses the source itself (%s) instead of through a sample of the distribution' % (g['path'], t['f']['path']), at=t.get('sp'))
    # overridden provided methods must not change the stream
    endless = []
    for g in IND:
        if g['name'] == 'next':
            continue
        other.append(g['name'])
        ip, st, log = world()
        try:
            if g['name'] == 'size_hint':
                st2, v = ip.enter(g, [Ref('it')], st, {})
                if isinstance(v, Agg) and isinstance(v.f[1], Enum) and not (isc(v.f[1].d) and cv(v.f[1].d) == 0):
                    c.violation('Independent::size_hint', 'size_hint announces an upper bound for an endless stream', at=g['sp'])
                elif st2 is not None and st2.mem['rng'] is not tok(0):
                    c.violation('Independent::size_hint', 'size_hint consumes the source', at=g['sp'])
            elif g['name'] in ('nth', 'advance_by'):
                for n in (0, 1, 3):
                    ip, st, log = world()
                    st2, v = ip.enter(g, [Ref('it'), I(n)], st, {})
                    used = n + (g['name'] == 'nth')
                    if st2.mem['rng'] is not tok(used) or (g['name'] == 'nth' and v.v.get(1, (None,))[0] is not mk('smp', (tok(n),), 'f64')):
                        c.violation('Independent::' + g['name'], '%s(%d) is not the same as taking the samples one by one' % (g['name'], n), at=g['sp'])
            elif g['name'] in ENDLESS:
                # the stream has no end, so that consuming all of it never returns
                args = [st.mem['it']] + [Opaque(mk('sym', ('arg%d' % i,), 'any')) for i in range(1, g['body']['argc'])]
                st2, v = ip.enter(g, args, st, {})
                if v is not None:
                    c.violation('Independent::' + g['name'], '%s returns although the stream of samples never ends' % g['name'], at=g['sp'])
                else:
                    endless.append(g['name'])
            else:
                und.append('overridden method %s is not analysed' % g['name'])
        except (Unsupported, KeyError, TypeError, AttributeError, IndexError) as e:
            und.append('%s: %s' % (g['name'], e))
    c.coverage = {
        'explanation': 'Iterator::next of the independent sampler is interpreted abstractly with D::sample as an uninterpreted function of the distribution and of the state of the source: four consecutive steps must return Some of exactly '
                       'the term of one call on the supplied pair, with the source advanced by exactly that call.',
        'steps_proved': steps, 'overridden_iterator_methods': other, 'endless_consumers_proved': endless, 'undecided': und, 'samples': ['step k yields smp(D, adv^k(source))'],
    }
    c.assumptions = ['the result is parametric: nothing is assumed about D and S']


# ---------------------------------------------------------------------------------------------- C18
VALUE = {'bernoulli::Bernoulli': 'u8', 'binomial::Binomial': 'usize', 'categorical::Categorical': 'usize'}
CTOR = {'Bernoulli': ['new(0.5)', 'with_failure(0.5)'], 'Beta': ['new(1.0, 1.0, 0.0, 1.0)'], 'Binomial': ['new(1, 0.5)', 'with_failure(1, 0.5)'], 'Categorical': ['new(&[1.0])'],
        'Cauchy': ['new(0.0, 1.0)'], 'Exponential': ['new(1.0)'], 'Gamma': ['new(1.0, 1.0)'], 'Gaussian': ['new(0.0, 1.0)', 'default()'], 'Laplace': ['new(0.0, 1.0)'],
        'Logistic': ['new(0.0, 1.0)', 'default()'], 'Lognormal': ['new(0.0, 1.0)', 'default()'], 'Pert': ['new(0.0, 1.0, 2.0)'], 'Triangular': ['new(0.0, 1.0, 0.5)'], 'Uniform': ['new(0.0, 1.0)', 'default()']}


def witness_items():
    """(key, what, rust code): each is one item that fails to compile when the obligation is broken"""
    from .laws_check import HAVE
    W = []
    TR = {'distribution': 'Distribution', 'entropy': 'Entropy', 'density': 'Continuous', 'mass': 'Discrete', 'inverse': 'Inverse', 'mean': 'Mean', 'variance': 'Variance', 'skewness': 'Skewness', 'kurtosis': 'Kurtosis',
          'median': 'Median', 'modes': 'Modes'}
    for ty in laws.LAWS:
        T = ty.split('::')[1]
        val = VALUE.get(ty, 'f64')
        for mod in ('distribution', 'prelude'):
            W.append(('%s/%s' % (T, mod), '%s is exported from probability::%s' % (T, mod), 'pub fn _f(_: &probability::%s::%s) {}' % (mod, T)))
        for m, t in TR.items():
            if ty in HAVE[m]:
                W.append(('%s/%s' % (T, t), '%s implements %s' % (T, t), 'use probability::prelude::*; fn is<X: probability::distribution::%s>() {} pub fn _f() { is::<%s>() }' % (t, T)))
        W.append(('%s/Sample' % T, '%s implements Sample' % T, 'use probability::prelude::*; fn is<X: Sample>() {} pub fn _f() { is::<%s>() }' % T))
        W.append(('%s/Value' % T, 'the values of %s are of type %s' % (T, val), 'use probability::prelude::*; fn is<X: Distribution<Value = %s>>() {} pub fn _f() { is::<%s>() }' % (val, T)))
        W.append(('%s/Copy' % T, '%s is %s' % (T, 'Clone' if T == 'Categorical' else 'Copy'), 'use probability::prelude::*; fn is<X: %s>() {} pub fn _f() { is::<%s>() }' % ('Clone' if T == 'Categorical' else 'Copy', T)))
        W.append(('%s/Send' % T, '%s can be sent and shared between threads' % T, 'use probability::prelude::*; fn is<X: Send + Sync + Unpin + \'static>() {} pub fn _f() { is::<%s>() }' % T))
        W.append(('%s/Debug' % T, '%s can be shown' % T, 'use probability::prelude::*; fn is<X: core::fmt::Debug>() {} pub fn _f() { is::<%s>() }' % T))
        for k in CTOR[T]:
            W.append(('%s::%s' % (T, k.split('(')[0]), '%s::%s can be called' % (T, k), 'use probability::prelude::*; pub fn _f() -> %s { %s::%s }' % (T, T, k)))
    for (ty, ctor), rep in REPORT.items():
        T = ty.split('::')[1]
        if ctor != 'new':
            continue
        for a in rep:
            W.append(('%s::%s' % (T, a), '%s has the accessor %s' % (T, a), 'use probability::prelude::*; pub fn _f(d: &%s) -> %s { d.%s() }' % (T, 'usize' if a == 'n' else 'f64', a)))
    W.append(('Categorical::k', 'Categorical has the accessor k', 'use probability::prelude::*; pub fn _f(d: &Categorical) -> usize { d.k() }'))
    W.append(('Categorical::p', 'Categorical has the accessor p', 'use probability::prelude::*; pub fn _f(d: &Categorical) -> &[f64] { d.p() }'))
    for t in list(TR.values()) + ['Sample']:
        W.append(('trait/%s' % t, '%s is exported from the prelude' % t, 'pub fn _f<X: probability::prelude::%s>() {}' % t))
    W.append(('Gaussian/FromIterator', 'numbers can be collected into a Gaussian', 'use probability::prelude::*; pub fn _f(v: &[f64]) -> Gaussian { v.iter().cloned().collect() }'))
    W.append(('Independent/Iterator', 'Independent(&d, &mut s) is an iterator of samples for every distribution and source',
              'use probability::prelude::*; pub fn _f<\'a, T, D: Sample<Value = T>, S: source::Source>(d: &\'a D, s: &\'a mut S) -> impl Iterator<Item = T> + \'a where T: \'a { Independent(d, s) }'))
    W.append(('Independent/path', 'Independent is exported from probability::sampler', 'pub fn _f<\'a>(d: &\'a probability::distribution::Uniform, s: &\'a mut probability::source::Default) -> Option<f64> { probability::sampler::Independent(d, s).next() }'))
    W.append(('source', 'the sources are re-exported', 'pub fn _f() -> probability::source::Default { use probability::source::*; let mut s = default(42); let _: f64 = s.read(); let _: u64 = s.read_u64(); s }'))
    W.append(('source/foreign', 'any implementation of Source can be sampled from',
              'use probability::prelude::*; pub struct Mine; impl source::Source for Mine { fn read_u64(&mut self) -> u64 { 7 } } pub fn _f() -> (f64, usize, u8) { (Gamma::new(1.0, 1.0).sample(&mut Mine), Binomial::new(1, 0.5).sample(&mut Mine), Bernoulli::new(0.5).sample(&mut Mine)) }'))
    W.append(('deviation', 'every law with a variance has a deviation', 'use probability::prelude::*; pub fn _f<X: Variance>(d: &X) -> f64 { d.deviation() }'))
    W.append(('bounds', 'Kurtosis refines Skewness refines Variance refines Mean refines Distribution', 'use probability::prelude::*; pub fn _f<X: Kurtosis>(d: &X) -> f64 { d.skewness() + d.variance() + d.mean() + d.distribution(0.0) }'))
    return W


def cargo_json(cmd, env):
    r = subprocess.run(cmd, capture_output=True, text=True, env=env)
    msgs = []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-message':
            msgs.append((m.get('target', {}).get('name'), m['message']))
    return r, msgs


def c18(c, prog):
    d = prog.d
    no_std = any('NoStd' in a for a in d['attrs'])
    if not no_std:
        c.violation('no_std', 'the crate root no longer has #![no_std]')
    if 'std' in d['crates']:
        c.violation('std', 'the library links std: %s' % d['crates'])
    used = set()
    for f, body in bodies(prog):
        for b in body['blocks']:
            t = b['term']
            if t['t'] == 'call' and t['f'].get('k') == 'fn':
                used.add(t['f'].get('crate'))
    unsafe_fns = [f['path'] for f in d['fns'] if f.get('unsafe')]
    for u in unsafe_fns:
        c.violation('unsafe/' + u, 'unsafe function %s' % u)
    tmp = tempfile.mkdtemp(prefix='vpwit')
    items = witness_items()
    und = []
    checked = 0
    try:
        env = dict(os.environ)
        env.update(CARGO_TARGET_DIR=os.path.join(tmp, 't'), CARGO_NET_OFFLINE='true')
        for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
            env.pop(k, None)
        # lint run over the library
        e2 = dict(env, RUSTFLAGS='-Funsafe_code')
        r, msgs = cargo_json(['cargo', 'check', '--offline', '--lib', '--locked', '--message-format=json', '--manifest-path', os.path.join(extract.REPO, 'Cargo.toml')], e2)
        lint = 'clean' if r.returncode == 0 else 'failed'
        if r.returncode:
            hit = False
            for tgt, m in msgs:
                code = (m.get('code') or {}).get('code')
                if m['level'] == 'error' and (code in ('unsafe_code', 'E0453') or 'unsafe' in m['message']):
                    sp = m['spans'][0] if m['spans'] else {}
                    hit = True
                    c.violation('unsafe_code/%s:%s' % (sp.get('file_name'), sp.get('line_start')), 'unsafe code in the library: %s' % m['message'], at='%s:%s' % (sp.get('file_name'), sp.get('line_start')))
            if not hit:
                und.append('lint run failed: %s' % r.stderr[-300:])
        # type-level witness
        w = os.path.join(tmp, 'w')
        os.makedirs(os.path.join(w, 'src'))
        open(os.path.join(w, 'Cargo.toml'), 'w').write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nprobability = { path = "%s" }\n' % extract.REPO)
        if os.path.exists(os.path.join(extract.REPO, 'Cargo.lock')):
            shutil.copy(os.path.join(extract.REPO, 'Cargo.lock'), os.path.join(w, 'Cargo.lock'))
        src = ['#![no_std]', '#![allow(unused_imports, dead_code)]']
        line = {}
        for i, (k, what, code) in enumerate(items):
            src.append('pub mod w%d { %s }' % (i, code))
            line[len(src)] = i
        open(os.path.join(w, 'src', 'lib.rs'), 'w').write('\n'.join(src) + '\n')
        r, msgs = cargo_json(['cargo', 'check', '--offline', '--message-format=json', '--manifest-path', os.path.join(w, 'Cargo.toml')], env)
        if r.returncode:
            seen = 0
            for tgt, m in msgs:
                if m['level'] != 'error' or tgt != 'witness':
                    continue
                for sp in m['spans']:
                    i = line.get(sp['line_start'])
                    if i is not None:
                        seen += 1
                        c.violation('api/' + items[i][0], 'not so any more: %s (%s)' % (items[i][1], m['message']), code=items[i][2])
                        break
            if not seen:
                und.append('witness crate: %s' % r.stderr[-300:])
        else:
            checked = len(items)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    c.coverage = {
        'explanation': 'Type-level witness crate: one item per documented trait implementation, export path, constructor, accessor, marker (Send, Sync, Copy or Clone) and trait refinement, each of which fails to type-check when the obligation is broken; '
                       'compiler lint forbid(unsafe_code) over the library; no_std attribute and the list of linked crates from the compiled crate.',
        'witness_items': len(items), 'witness_items_accepted': checked, 'forbid_unsafe_code': lint, 'no_std': no_std, 'crates_linked': d['crates'], 'crates_called': sorted(x for x in used if x), 'undecided': und,
        'functions': len(d['fns']), 'samples': [x[1] for x in items[:8]],
    }
    c.assumptions = ['the dependencies themselves may contain unsafe code']


# ---------------------------------------------------------------------------------------------- C19
FITS = [(1, 3), (2, -5), (Fr(1, 2), Fr(7, 3)), (1, 2, 4), (-3, 10, 2), (5, 5, 6), (1, 1, 2, 9), (0, 0, 0, 1), (-1, -2, -4, -8), (10 ** 6, 10 ** 6 + 1, 10 ** 6 + 3), (1, 2, 3, 4, 6), (3, 1, 4, 1, 5, 9),
        (1, 2, 3), (3, 2, 1), (2, 1, 3), (5, 2, 3, 4, 6, 4), (-2, 0, 2), (0, -2, 2), (7, 7, 8, 6), (0, 1), (-1, 1), (1, -1, 0, 0),
        (Fr(1, 1000), Fr(-1, 500), Fr(3, 1000)), (10 ** 9, -10 ** 9, 5), tuple(range(1, 13)), tuple((7 * i) % 17 - 8 for i in range(12)), tuple((i * i) % 31 for i in range(33)), tuple(Fr(i % 5, 4) for i in range(40))]


# for double precision: the mean is far from zero in units of the deviation
FLOATS = [(10 ** 6, 10 ** 6 + 1, 10 ** 6 + 3), tuple(10 ** 7 + (i * 7) % 10 for i in range(10)), (-10 ** 6 - 1, -10 ** 6 + 1), (1, 2, 3, 4, 6), (Fr(1, 1024), Fr(3, 1024), Fr(5, 1024)), (2 ** 100, 2 ** 101, 2 ** 102),
          tuple(Fr(10 ** 5) + Fr(i % 8, 64) for i in range(60)), (Fr(1, 2 ** 200), Fr(1, 2 ** 199), Fr(3, 2 ** 200)), tuple((i * 37) % 101 for i in range(300))]


def series(k):
    """numbers with repetitions next to each other, whose last ones matter"""
    return tuple(Fr(((i // 2) * 37) % 101, 4) + (i == k - 1) * 5000 + (i == k - 2) * 1000 for i in range(k))


def integers(x, out):
    """integer constants of a piece of the compiler's representation"""
    if isinstance(x, dict):
        if x.get('k') == 'bits' and x.get('ty') in INT_BITS:
            try:
                out.add(int(x['v']))
            except (ValueError, KeyError):
                pass
        for y in x.values():
            integers(y, out)
    elif isinstance(x, list):
        for y in x:
            integers(y, out)


def paths(x, out):
    """functions mentioned"""
    if isinstance(x, dict):
        if x.get('k') == 'fn' and 'path' in x:
            out.append(x['path'])
        for y in x.values():
            paths(y, out)
    elif isinstance(x, list):
        for y in x:
            paths(y, out)


def sizes(prog, f):
    """lengths of data worth looking at: a few, and those next to the integer constants of the code that fits"""
    out, todo, seen = set(), [f['path']], set()
    while todo:
        q = todo.pop()
        if q in seen or len(seen) > 60:
            continue
        seen.add(q)
        g = f if q == f['path'] else prog.fns.get(q)
        if g is None:
            continue
        integers(g.get('body'), out)
        todo += [h['path'] for h in prog.d['fns'] if h['path'].startswith(q + '::{closure')]
        paths(g.get('body'), todo)
    r = {41, 100, 257, 300, 700}
    for k in sorted(out):
        if 2 <= k <= 5000 and len(r) < 40:
            r |= {k - 1, k, k + 1, k + 2}
    for k in sorted(r):
        if k > 1000:
            # the larger, the slower: one on the far side
            r -= {k}
            if k + 1 not in r and k + 2 not in r:
                r.add(k)
    return sorted(k for k in r if k >= 2)


def c19(c, prog):
    f = None
    for g in prog.d['fns']:
        if g.get('trait') == 'core::iter::FromIterator' and g.get('self_ty') == 'distribution::gaussian::Gaussian' and g['name'] == 'from_iter':
            f = g
    if f is None:
        c.violation('from_iter/missing', 'numbers cannot be collected into a Gaussian any more')
        c.coverage = {'explanation': 'missing'}
        return
    fields = [x['name'] for x in prog.structs['probability::distribution::gaussian::Gaussian']['variants'][0]['fields']]
    n_ok, und, once, samples = 0, [], 0, []
    mu_f, sg_f = prog.method('distribution::gaussian::Gaussian', 'mu'), prog.method('distribution::gaussian::Gaussian', 'sigma')
    big = sizes(prog, f)
    runs = [(d, False) for d in FITS] + [(series(k), False) for k in big] + [(d, True) for d in FLOATS]
    t0 = time.time()
    exact = 0
    for data, flt in runs:
        if time.time() - t0 > 500:
            und.append('time limit at n = %d' % len(data))
            break
        n = len(data)
        show = list(map(float, data)) if n <= 40 else '%d numbers' % n
        m = sum(Fr(x) for x in data) / n
        var = sum((Fr(x) - m) ** 2 for x in data) / (n - 1)
        for sh in ('array', 'vec'):
            try:
                ip = Interp(prog)
                ss = [sym('c0_%d' % j) for j in range(n)]
                if flt:
                    ev = fe.FDrawEval({'c0_%d' % j: fe.fv(float(x)) for j, x in enumerate(data)}, ip.loops)
                else:
                    ev = DrawEval({'c0_%d' % j: ra.exact(Fr(x)) for j, x in enumerate(data)}, ip.loops)

                def oracle(nd):
                    try:
                        r = ev.val(nd)
                    except (Unknown, Undecided):
                        return None
                    if nd.ty == 'bool':
                        return r
                    if isinstance(r, V) and r.q is not None:
                        return int(r.q)
                    if isinstance(r, fe.FV) and r.lo == r.hi:
                        return int(r.lo)
                    return None
                ip.oracle = oracle
                st = State()
                st, v = ip.enter(f, [Agg(sh, None, ss)], st, {'Self': 'distribution::gaussian::Gaussian', 'T': '[f64; %d]' % n if sh == 'array' else 'alloc::vec::Vec<f64>'})
                if v is None:
                    c.violation('from_iter/panic', 'collecting %s panics' % (show,), at=f['sp'])
                    break
                st = st.copy()
                st.mem['self'] = v
                st1, mu_ = ip.enter(mu_f, [Ref('self')], st, {})
                st2, sg_ = ip.enter(sg_f, [Ref('self')], st, {})
                a, b = ev.val(mu_), ev.val(sg_)
                want = ra.exact(m), ra.sqrt(ra.exact(var))
                if flt:
                    for nm, x, y, tol in (('mean', a, float(m), 1e-12 * max(abs(float(z)) for z in data)), ('deviation', b, math.sqrt(var), 1e-7 * math.sqrt(var))):
                        if x.nan == 2 or x.lo > y + tol or x.hi < y - tol:
                            c.violation('from_iter/rounding/' + nm, 'in double precision the %s fitted to %s is %r instead of %r' % (nm, show, x, y), at=f['sp'])
                        elif not x.nan and x.lo >= y - tol and x.hi <= y + tol:
                            exact += 1
                    break
                for nm, x, y in (('mean', a, want[0]), ('deviation', b, want[1])):
                    r = eqv(x, y, 1e-9)
                    if r == 'ne':
                        c.violation('from_iter/' + nm, 'the %s fitted to %s is %r instead of %r' % (nm, show, x, y), at=f['sp'])
                    n_ok += r == 'eq'
                if n <= 40:
                    # the cached fields agree with those of the constructor
                    op = Op(prog, 'gaussian::Gaussian', None)
                    ip2 = Interp(prog)
                    st3, v2 = ip2.enter(op.cfn, [mu_, sg_], State(), {})
                    for fd, x, y in zip(fields, v.f, v2.f):
                        if isinstance(x, N) and isinstance(y, N):
                            if eqv(ev.val(x), ev.val(y), 1e-9) == 'ne':
                                c.violation('from_iter/' + fd, 'the fitted law caches %s = %r but new caches %r' % (fd, ev.val(x), ev.val(y)), at=f['sp'])
                    if all(depends(mu_, s) and depends(sg_, s) for s in ss):
                        once += 1
                if len(samples) < 5:
                    samples.append('%s: mean %r, deviation %r' % (show, a, b))
                break
            except (Unsupported, Unknown, Undecided, KeyError, TypeError, AttributeError, IndexError, RecursionError) as e:
                und.append('n = %d (%s): %s %s' % (n, sh, type(e).__name__, e))
    # as functions: two numbers, symbolically (mean and deviation as normal forms)
    c.coverage = {
        'explanation': 'from_iter is interpreted abstractly over iterators of two to several hundred symbolic numbers, their counts including those next to every integer constant of the code; the resulting mean, deviation and cached constants, as exact real expressions, are compared with the sample mean and the unbiased '
                       'deviation on points that separate the alternatives (divisor n, n - 1, n + 1; skipped, repeated or reordered elements), and depend on every element.',
        'data_sets': len(FITS), 'larger_data_sets': big, 'results_agreeing': n_ok, 'results_agreeing_in_double_precision': exact, 'results_depending_on_every_element': once, 'undecided': und[:10], 'samples': samples,
    }
    c.assumptions = ['real arithmetic but for the data sets evaluated in double precision', 'longer iterators by uniformity of the loop']


CHECKS = {'C13': c13, 'C14': c14, 'C15': c15, 'C18': c18, 'C19': c19}
