"""C11: no panic and no endless loop on valid input."""
import math, multiprocessing, time
from concurrent.futures import ProcessPoolExecutor
from fractions import Fraction as Fr
from .. import ra, fe, laws, spec
from ..run import *
from ..run import env_of, DrawEval
from ..evalr import align
from ..interp import Cfg
from . import float_check as fc

_prog = None
STUCK = 1500
UMAX = (1 << 64) - 1
METHODS = fc.METHODS


class Endless(Exception):
    def __init__(self, info, why):
        Exception.__init__(self, 'the loop at %s in %s %s' % (info.sp, info.fn, why))
        self.info, self.why = info, why


class TotEval(fe.FDrawEval):
    """evaluation that follows the obligations and the progress of every loop it executes"""
    obl = ()

    def run_loop(self, info):
        pairs = []
        for _, _, m, init, nxt in info.mus:
            if not align(m, init, nxt, pairs):
                raise Unknown('loop state of unsupported shape')
        cur = {}
        for m, i, _ in pairs:
            if m.ty == 'rng':
                raise Unknown('random loop')
            cur[m] = self.val(i) if i is not None else None
        mine = frozenset(m for m, _, _ in pairs)
        inside = [o for o in self.obl if (o.cond.mus & mine) or any(f.mus & mine for f in o.facts)]
        nans = 0
        for it in range(6000):
            sub = type(self)({k: v for k, v in cur.items() if v is not None}, self.loops, self)
            sub.mine = mine
            sub.parent = self
            for o in inside:
                try:
                    if all(sub.val(f) is True for f in o.facts) and sub.val(o.cond) is True:
                        raise Panic(o)
                except (Unknown, Undecided):
                    pass
            chosen = None
            for tgt, (c, s) in info.exits.items():
                d = sub.val(c)
                if d is True:
                    chosen = tgt
                    break
                if d is None:
                    raise Undecided()
            if chosen is not None:
                return str(chosen), sub
            if sub.val(info.back) is not True:
                raise Undecided()
            nxt = {m: (sub.val(x) if x is not None else None) for m, _, x in pairs}
            if all(still(cur[m], nxt[m]) for m in cur):
                raise Endless(info, 'repeats an iteration that changes nothing (%s)' % ', '.join('%r = %r' % (m.args[0], v) for m, v in cur.items()))
            nans = nans + 1 if any(isinstance(nxt[m], fe.FV) and nxt[m].nan == 2 for m in nxt) else 0
            if nans >= STUCK:
                raise Endless(info, 'goes on for %d iterations with a variable that is not a number (%s)' % (nans, ', '.join('%r = %r' % (m.args[0], v) for m, v in nxt.items())))
            cur = nxt
        raise Unknown('loop does not settle')


def still(a, b):
    if isinstance(a, fe.FV) and isinstance(b, fe.FV):
        if a.nan == 2 and b.nan == 2:
            return True
        return not a.nan and not b.nan and a.lo == a.hi == b.lo == b.hi
    return a is b or (isinstance(a, bool) and a == b)


def cls_for(obl, words=None, us=None):
    base = TotEval
    if words is not None:
        from .sampling_check import typed
        base = typed(TotEval, words, us, fe.fv)
    return type('T', (base,), {'obl': obl})


def ask(op, prm, a):
    """value, or raises Panic / Endless / Unknown"""
    err = None
    try:
        ip, v, st = graph(op)
        ev = cls_for(ip.obl)(env_of(op, prm, a, fe.fv), ip.loops)
        o = panics(ip, ev)
        if o is not None:
            raise Panic(o)
        return materialise(ev, v, st, ip)
    except (Unsupported, Unknown, Undecided) as e:
        err = e
    try:
        return run_cell(op, prm, a, cls=TotEval, lift=fe.fv, unroll=1500).value
    except Undecided:
        raise Unknown('guards undecided')
    except Unsupported as e:
        raise Unknown('%s / %s' % (err, e))
    except (TypeError, AttributeError, KeyError, IndexError, RecursionError) as e:
        raise Unknown('internal: %s %s' % (type(e).__name__, e))


def params(ty, thorough):
    r = list(fc.params(ty, thorough))
    t = ty.split('::')[0]
    if t == 'binomial':
        r += [(n, p) for n in (UMAX, UMAX - 1, 1 << 63, (1 << 53) + 1, 3, 10, 11, 17, 500, 1001, 2000, 10000, 10001) for p in (0.5, 1e-17, 0.3, 1 - 2.0 ** -53, 0.01, 0.999)]
        for n in (1000, 1500, 10000, 1000000):
            for v in (75.0, 20.0, 3.0, 0.8, 0.3, 0.05, 1e-6):
                r += [(n, v / n), (n, 1 - v / n)]
    if t == 'categorical':
        for k in (2, 3, 6, 7, 11, 13, 23, 49):
            r.append(((1.0 / k,) * k,))
        r += [((0.5, 0.5),), ((0.5, 0.0, 0.5),), ((0.0, 0.5, 0.5, 0.0),), ((0.2, 0.3, 0.5),), ((0.7, 0.1, 0.1, 0.1),), ((0.1, 0.2, 0.3, 0.4),), ((1 / 3, 1 / 3, 1 - 2 / 3),), ((0.25,) * 4,), ((0.0, 0.0, 0.0, 1.0, 0.0),),
              ((0.6 - 5e-13, 0.4),), ((0.6 + 5e-13, 0.4),), ((0.1,) * 9 + (0.1 - 5e-13,),), ((0.1,) * 9 + (0.1 + 5e-13, 0.0),)]
    if t == 'beta':
        r += [(1.0, b, 0.0, 1.0) for b in (0.5, 1.0, 2.0)] + [(a, 1.0, -1.0, 2.0) for a in (0.5, 1.0, 2.0)]
    return r


def args(ty, prm, m, integer):
    t = ty.split('::')[0]
    r = list(fc.args(ty, prm, m, integer))
    if m == 'inverse':
        if t == 'bernoulli':
            r += [1 - prm[0], math.nextafter(1 - prm[0], 0), math.nextafter(1 - prm[0], 1)]
        if t == 'categorical':
            s = 0.0
            for p in prm[0]:
                s += p
                r += [min(1.0, max(0.0, x)) for x in (s, math.nextafter(s, 0), math.nextafter(s, 2))]
        if t == 'binomial':
            r += [0.3, 0.49, 0.501, 0.999, 1e-9]
    elif m == 'mass':
        if t == 'bernoulli':
            r = list(range(256))
        if t == 'binomial':
            n = prm[0]
            r += [x for x in (3, 11, 14, 15, 16, 17, n - 2, n - 15, n - 16, n - 17, 2 * n, n + 2, UMAX, UMAX - 1) if 0 <= x <= UMAX]
    else:
        r += [math.inf, -math.inf]
    return sorted(set(r))


def job(arg):
    ty, m, thorough = arg
    t0 = time.time()
    lim = 500 if thorough else 110
    out = {'ty': ty, 'm': m, 'ok': 0, 'und': {}, 'viol': [], 'obl': [], 'boxes': 0, 'proved': 0, 'loops': [], 'mode': None, 'open': {}}
    ops = {}

    def op(prm):
        k = next((len(x) for x in prm if isinstance(x, tuple)), None)
        if k not in ops:
            ops[k] = Op(_prog, ty, m, k=k)
        return ops[k]
    try:
        o = op(params(ty, False)[0])
    except Missing:
        return None
    out['at'] = '%s (%s)' % (o.fn['path'], o.fn.get('sp'))

    def und(s):
        s = s[:90]
        out['und'][s] = out['und'].get(s, 0) + 1

    for prm in params(ty, thorough):
        if time.time() - t0 > lim:
            und('budget')
            break
        oo = op(prm)
        p2 = [list(x) if isinstance(x, tuple) else x for x in prm]
        al = [(x,) for x in args(ty, prm, m, oo.fn['inputs'][1] in INT_BITS)] if len(oo.fn['inputs']) > 1 else [()]
        for a in al:
            try:
                spec.limited(ask, 4, oo, p2, list(a))
                out['ok'] += 1
            except spec.Timeout:
                und('time limit')
            except (Panic, Endless) as e:
                out['viol'].append((prm, a, 'panic' if isinstance(e, Panic) else 'endless', str(e)))
                if len(out['viol']) > 30:
                    break
            except (Unknown, Undecided) as e:
                und(str(e) or 'undecided')
            except (OverflowError, ValueError, ZeroDivisionError, TypeError, RecursionError) as e:
                und('internal %s' % type(e).__name__)
    # the panic sites that remain in the graph valid for all inputs: discharged on boxes
    try:
        ip, v, st = graph(op(params(ty, False)[0]))
    except Unsupported:
        return out
    sites = [o for o in ip.obl if not (o.fn.endswith('::' + oo.ctor) and o.kind.startswith('panic'))]
    out['obl'] = sorted({'%s at %s' % (o.kind, o.sp) for o in sites})
    out['loops'] = sorted({'%s in %s: %s' % (l.sp, l.fn, 'draws' if l.draws else 'carries ' + ', '.join(str(x[2].args[0]) if isinstance(x[2], N) else '?' for x in l.mus)) for l in ip.loops})
    if not sites:
        out['mode'] = 'no panic site'
        return out
    lim = time.time() + (60 if thorough else 12)
    for pb, ab in boxes(ty, m, op):
        if time.time() > lim:
            break
        out['boxes'] += 1
        ev = fe.FDrawEval(env_of(op(params(ty, False)[0]), pb, ab, fe.fv), ip.loops)
        left = [o for o in sites if not off(ev, o)]
        if not left:
            out['proved'] += 1
        for o in left:
            k = '%s at %s' % (o.kind, o.sp)
            out['open'][k] = out['open'].get(k, 0) + 1
    return out


class TopEval(fe.FDrawEval):
    """loop-carried values may be anything of their type"""
    def _val(self, n):
        if n not in self.env:
            if n.op == 'mu' or n.op == 'lx':
                if is_int(n.ty):
                    return fe.FV(*int_range(n.ty))
                if n.ty == 'f64':
                    return fe.FV(-math.inf, math.inf, 1)
                if n.ty == 'bool':
                    return None
            if n.op == 'isub':
                # the subtraction that was reached did not overflow
                r = fe.FDrawEval._val(self, n)
                lo, hi = int_range(n.ty)
                if r.lo < lo <= r.hi or r.lo <= hi < r.hi:
                    return fe.FV(max(r.lo, lo), min(r.hi, hi))
                return r
        return fe.FDrawEval._val(self, n)


BAD = (Unknown, Undecided, OverflowError, ValueError, ZeroDivisionError, TypeError, RecursionError, AttributeError)


def atoms(f, pos=True):
    """(op, a, b) comparisons implied by the fact"""
    if f.op == 'not':
        yield from atoms(f.args[0], not pos)
    elif f.op == 'and' and pos:
        for x in f.args:
            yield from atoms(x, True)
    elif f.op in ('lt', 'le', 'eq'):
        a, b = f.args
        if pos:
            yield f.op, a, b
        elif f.op == 'eq':
            yield 'ne', a, b
        elif is_int(a.ty):
            # the negation of an order on floats also admits NaN: used for integers only
            yield ('le' if f.op == 'lt' else 'lt'), b, a


def off(ev, o):
    """the obligation cannot fail on the box"""
    for f in (o.cond,) + tuple(reversed(o.facts)):
        try:
            if ev.val(f) is False:
                return True
        except BAD:
            pass
    at = [t for f in o.facts for t in atoms(f)]
    # relational: a - b with b <= a known
    c = o.cond
    if c.op == 'ovf_sub':
        a, b = c.args
        if any(op in ('lt', 'le', 'eq') and x is b and y is a or op == 'eq' and x is a and y is b for op, x, y in at):
            return True
    if c.op == 'lt' and is_int(c.args[0].ty):
        a, b = c.args
        if any(x is b and y is a and op in ('lt', 'le') or op == 'eq' and {x, y} == {a, b} for op, x, y in at):
            return True
    # t - trunc(t) == 0: t is integral
    whole = {x.args[0] for op, x, y in at if op == 'eq' and x.op == 'fsub' and y.op == 'c' and y.args[0] == 0 and x.args[1].op == 'fn:trunc' and x.args[1].args[0] is x.args[0]}
    env = dict(ev.env)
    for _ in range(3):
        e2 = TopEval(env, ev.loops)
        e2.draws = ev.draws
        new = dict(env)
        for n in whole:
            try:
                v = e2.val(n)
                if not v.nan and abs(v.lo) < 1e15:
                    l, h = float(math.ceil(v.lo)), v.hi if abs(v.hi) > 1e15 else float(math.floor(v.hi))
                    if l > h:
                        return True
                    if (l, h) != (v.lo, v.hi):
                        new[n] = fe.FV(l, h)
            except BAD:
                pass
        for op, x, y in at:
            if x.ty == 'bool':
                continue
            try:
                vx, vy = e2.val(x), e2.val(y)
            except BAD:
                continue
            if op == 'ne':
                for n, v, w in ((x, vx, vy), (y, vy, vx)):
                    if n.op == 'c' or v.nan or w.nan or w.lo != w.hi:
                        continue
                    if is_int(n.ty) or n in whole and w.lo == int(w.lo):
                        l = v.lo if v.lo > w.lo or v.lo <= w.lo - 1 else w.lo + 1
                        h = v.hi if v.hi < w.lo or v.hi >= w.lo + 1 else w.lo - 1
                        if l > h:
                            return True
                        if (l, h) != (v.lo, v.hi):
                            new[n] = fe.FV(l, h)
                continue
            ox, oy = vx, vy
            if op == 'lt' and not is_int(x.ty):
                if not vy.nan and abs(vy.hi) != math.inf:
                    vy = fe.FV(min(vy.lo, math.nextafter(vy.hi, -math.inf)), math.nextafter(vy.hi, -math.inf))
                if not vx.nan and abs(vx.lo) != math.inf:
                    vx = fe.FV(math.nextafter(vx.lo, math.inf), max(vx.hi, math.nextafter(vx.lo, math.inf)))
            step = 1 if op == 'lt' and is_int(x.ty) else 0
            for n, v, lo, hi in ((x, ox, None if op != 'eq' else vy.lo, vy.hi - step if not vy.nan else None), (y, oy, vx.lo + step if not vx.nan else None, None if op != 'eq' else vx.hi)):
                if n.op == 'c' or v.nan == 2:
                    continue
                l = v.lo if lo is None else max(v.lo, lo)
                h = v.hi if hi is None else min(v.hi, hi)
                if l > h:
                    return True          # the facts contradict each other on the box
                if (l, h) != (v.lo, v.hi) or v.nan:
                    new[n] = fe.FV(l, h)
        if new == env:
            break
        env = new
    e2 = TopEval(env, ev.loops)
    try:
        return e2.val(o.cond) is False
    except BAD:
        return False


def boxes(ty, m, op):
    t = ty.split('::')[0]
    F = fe.FV
    o = op(params(ty, False)[0])
    has = len(o.fn['inputs']) > 1 and m != 'sample'
    if t == 'categorical':
        return
    if t == 'bernoulli':
        ps = [5e-324, 1e-300, 1e-100, 1e-17, 0.1, 0.25, 0.49, 0.5, 0.51, 0.75, 0.9, 1 - 2.0 ** -53]
        al = [None] if not has else [F(x, y) for x, y in zip(fc.PS, fc.PS[1:])] if m == 'inverse' else [F(i) for i in range(4)] + [F(4, 255)] if m == 'mass' else [F(-fc.MAX, -1e-300), F(0.0), F(0.0, 0.5), F(0.5, 1.0), F(1.0), F(1.0, fc.MAX)]
        for x, y in zip(ps, ps[1:]):
            for a in al:
                yield [F(x, y)], [] if a is None else [a]
        return
    if t == 'binomial':
        ns = [1, 2, 8, 15, 16, 17, 100, 500, 999, 1000, 10000, 1 << 20, 1 << 40, 1 << 53, UMAX - 1]
        ps = [1e-300, 1e-17, 1e-3, 0.1, 0.5, 0.9, 0.999, 1 - 2.0 ** -53]
        for n0, n1 in list(zip(ns, ns[1:])) + [(n, n) for n in ns]:
            for p0, p1 in zip(ps, ps[1:]):
                if not has:
                    yield [F(n0, n1), F(p0, p1)], []
                elif m == 'mass':
                    xs = sorted({0, 1, n0 // 2, n0, n1, UMAX})
                    for a, b in zip(xs, xs[1:]):
                        yield [F(n0, n1), F(p0, p1)], [F(a, b)]
                    for a in xs:
                        yield [F(n0, n1), F(p0, p1)], [F(a)]
                elif m == 'inverse':
                    for x, y in zip(fc.PS, fc.PS[1:]):
                        yield [F(n0, n1), F(p0, p1)], [F(x, y)]
                else:
                    xs = [-fc.MAX, -1e-300, 0.0, 1.0, n0 / 2, float(n0), float(n1), fc.MAX]
                    for x, y in zip(xs, xs[1:]):
                        if x <= y:
                            yield [F(n0, n1), F(p0, p1)], [F(x, y)]
        return
    for prm in fc.params(ty, False):
        pb = [F(*sorted((x, x * 1.25 + (0.25 if x == 0 else 0)))) if i in fc.WIDEN.get(ty, ()) else F(x) for i, x in enumerate(prm)]
        if has:
            al = fc.args(ty, prm, m, False)
            for x, y in zip(al, al[1:]):
                yield pb, [F(x, y)]
        else:
            yield pb, []


# ------------------------------------------------------------------ loops in the MIR
def uses_defs(b):
    """locals read before written, locals written in the block (whole or part)"""
    use, dfn = set(), set()

    def rd(o):
        if isinstance(o, dict):
            if 'l' in o and 'pr' in o:
                if o['l'] not in dfn:
                    use.add(o['l'])
                for p in o['pr']:
                    rd(p)
                return
            for v in o.values():
                rd(v)
        elif isinstance(o, list):
            for v in o:
                rd(v)

    def wr(pl):
        if pl['pr']:
            if pl['l'] not in dfn:
                use.add(pl['l'])
            for p in pl['pr']:
                if isinstance(p, dict) and 'l' in p and p['l'] not in dfn:
                    use.add(p['l'])
        else:
            dfn.add(pl['l'])
    for s in b['st']:
        if s['s'] == 'assign':
            rd(s['rv'])
            wr(s['pl'])
    t = b['term']
    rd({k: v for k, v in t.items() if k != 'dst'})
    if t.get('dst'):
        wr(t['dst'])
    return use, dfn


def written(b):
    w, deref = set(), False
    for pl in [s['pl'] for s in b['st'] if s['s'] == 'assign'] + ([b['term']['dst']] if b['term'].get('dst') else []):
        w.add(pl['l'])
        if any(isinstance(p, dict) and p.get('p') == 'deref' for p in pl['pr']):
            deref = True
    return w, deref


def idle_cycles(f, body):
    """loops with a way around that writes nothing which outlives the iteration: (headers, list of (sp, blocks))"""
    g = Cfg(body)
    ud = {x: uses_defs(body['blocks'][x]) for x in g.reach}
    live = {x: set() for x in g.reach}
    ch = True
    while ch:
        ch = False
        for x in g.reach:
            o = set()
            for y in g.succ[x]:
                o |= live[y]
            n = ud[x][0] | (o - ud[x][1])
            if n != live[x]:
                live[x] = n
                ch = True
    refs = set()
    for x in g.reach:
        for s in body['blocks'][x]['st']:
            if s['s'] == 'assign' and s['rv'].get('k') in ('ref', 'addr') and s['rv'].get('mut'):
                refs.add(s['rv']['pl']['l'])
    bad = []
    for h in sorted(g.headers):
        bodyset = g.loop_body[h]
        prog = set()
        for x in bodyset:
            b = body['blocks'][x]
            w, deref = written(b)
            t = b['term']
            if deref or w & live[h] or w & refs:
                prog.add(x)
            if t['t'] == 'call' and any('mut' in a for a in t.get('argtys', [])):
                prog.add(x)
            if t['t'] == 'call' and t['f'].get('k') != 'fn':
                prog.add(x)       # a closure may change what it captures
            if t['t'] == 'drop':
                pass
        if h in prog:
            continue
        par, todo, hit = {}, [h], None
        while todo and hit is None:
            x = todo.pop()
            t = body['blocks'][x]['term']
            for y in g.succ[x]:
                if y == h:
                    hit = x
                    break
                if y in bodyset and y not in prog and y not in par:
                    par[y] = x
                    todo.append(y)
        if hit is not None:
            path = [hit]
            while path[-1] != h:
                path.append(par[path[-1]])
            bad.append((h, path[::-1]))
    return g.headers, bad


def where(body, path):
    r = []
    for x in path:
        b = body['blocks'][x]
        for s in [y.get('sp') for y in b['st'] if y.get('s') == 'assign'] + [b['term'].get('sp')]:
            if s and s not in r:
                r.append(s)
    return ' -> '.join(r[:6])


def run(c, prog):
    global _prog
    _prog = prog
    thorough = c.tier == 'thorough'
    n_fn = n_loops = 0
    for f in prog.d['fns']:
        b = f.get('body')
        if not b or '::tests' in f['path']:
            continue
        n_fn += 1
        hs, bad = idle_cycles(f, b)
        n_loops += len(hs)
        for h, path in bad:
            c.violation('%s/idle-cycle' % f['path'].replace('probability::', ''), 'in %s the way around the loop through %s draws nothing and changes nothing that outlives the iteration: once taken it is taken for ever' % (
                f['path'], where(b, path)), at=f['sp'], path=path)
    # recursion: the arguments or the source must differ
    rec = recursion(prog)
    for path, why in rec['bad']:
        c.violation('%s/recursion' % path.replace('probability::', ''), '%s calls itself %s' % (path, why))
    jobs = [(t, m, thorough) for t in laws.LAWS for m in METHODS] + [(t, 'sample', thorough) for t in laws.LAWS]
    jobs.sort(key=lambda j: (j[0] not in ('binomial::Binomial', 'beta::Beta', 'gamma::Gamma', 'pert::Pert'), j[1] not in ('density', 'distribution', 'inverse', 'mass', 'entropy')))
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context('fork')) as ex:
        res = [r for r in c.gather(ex, dispatch, jobs) if r]
    per, und, tot, sites, loops = {}, {}, 0, {}, {}
    bx = pv = 0
    for r in res:
        name = '%s::%s' % (r['ty'].split('::')[1], r['m'])
        tot += r['ok']
        bx += r['boxes']
        pv += r['proved']
        per[name] = {'points_without_panic': r['ok'], 'panic_sites': len(r['obl']), 'boxes': r['boxes'], 'boxes_proved': r['proved'], 'not_shown': r['open']}
        for s in r['obl']:
            sites[s] = sites.get(s, 0) + 1
        for s in r['loops']:
            loops[s] = loops.get(s, 0) + 1
        for k, v in r['und'].items():
            und['%s: %s' % (name, k)] = v
        for prm, a, kind, why in r['viol']:
            c.violation('%s/%s' % (name, kind), '%s: %s [%s]' % (fc.show(r['ty'], r['m'], prm, a), why if kind == 'endless' else 'panics: ' + why, r['at']), at=r['at'])
    c.coverage = {
        'explanation': 'Panic sites (asserts of the debug MIR: bounds, arithmetic overflow, unwrap, unreachable!, panic!) reachable from each public operation are collected by symbolic evaluation and judged by floating-point interval '
                       'evaluation: none may surely fail at a valid point (magnitudes up to the extremes of the types), and boxes on which none can fail are counted. Loops: no way around a loop may leave everything that outlives the '
                       'iteration unchanged (liveness over the MIR control-flow graph); data-dependent loops are executed abstractly at the points and must not repeat a state or iterate on NaN; recursion must change its arguments or draw.',
        'functions': n_fn, 'loops': n_loops, 'recursive': rec['seen'], 'points': tot, 'boxes': bx, 'boxes_proved_free_of_panics': pv,
        'panic_sites': sites, 'summarised_loops': loops, 'per_operation': per, 'undecided': und,
    }
    c.assumptions = ['functions of the dependencies terminate and do not panic for arguments in their domain (C25 not claimed)', 'the source of randomness is not constant (rejection loops end with probability one)']


def dispatch(j):
    try:
        return sjob(j) if j[1] == 'sample' else job(j)
    except Exception as e:
        return {'ty': j[0], 'm': j[1], 'ok': 0, 'und': {'internal: %s %s' % (type(e).__name__, str(e)[:80]): 1}, 'viol': [], 'obl': [], 'boxes': 0, 'proved': 0, 'loops': [], 'at': '', 'open': {}}


WORDS = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1ff, UMAX, UMAX - 1, 1 << 63, (1 << 63) - 1, 0x8000000000000080, 0xffffffffffffff00, 0x123456789abcdef0]
US = [0.0, 2.0 ** -53, 0.25, 0.5, 0.75, 1 - 2.0 ** -53]


def sjob(arg):
    """samplers at the extremes of the draws"""
    from .sampling_check import typed
    ty, m, thorough = arg
    out = {'ty': ty, 'm': m, 'ok': 0, 'und': {}, 'viol': [], 'obl': [], 'boxes': 0, 'proved': 0, 'loops': [], 'mode': None, 'open': {}}
    t0 = time.time()
    ops = {}
    try:
        Op(_prog, ty, 'sample', k=2)
    except Missing:
        return None

    def und(s):
        s = s[:90]
        out['und'][s] = out['und'].get(s, 0) + 1
    for prm in params(ty, False):
        if time.time() - t0 > (300 if thorough else 60):
            und('budget')
            break
        k = next((len(x) for x in prm if isinstance(x, tuple)), None)
        if k not in ops:
            ops[k] = Op(_prog, ty, 'sample', k=k)
        op = ops[k]
        out['at'] = '%s (%s)' % (op.fn['path'], op.fn.get('sp'))
        p2 = [list(x) if isinstance(x, tuple) else x for x in prm]
        for i, u in enumerate(US + [1e-9, 0.501, 0.999]):
            for w in WORDS[i % 3::3]:
                us = [u, 0.5, u, 0.25, 0.125, 0.5, 0.25]
                ws = [w, 0x4000000000000010, w, 0x3000000000000020, 0x2000000000000011, 0x4000000000000011]
                try:
                    spec.limited(run_cell, 4, op, p2, (), (), 1500, typed(TotEval, ws, us, fe.fv), fe.fv)
                    out['ok'] += 1
                except spec.Timeout:
                    und('time limit')
                except (Panic, Endless) as e:
                    out['viol'].append((prm, ('draws', u, w), 'panic' if isinstance(e, Panic) else 'endless', str(e)))
                except (Unknown, Undecided, Unsupported) as e:
                    und(str(e) or 'undecided')
                except (OverflowError, ValueError, ZeroDivisionError, TypeError, AttributeError, KeyError, IndexError, RecursionError) as e:
                    und('internal %s' % type(e).__name__)
                if op.ty.split('::')[0] in ('binomial', 'bernoulli', 'categorical', 'exponential', 'laplace', 'logistic', 'triangular', 'uniform'):
                    break
    return out


def recursion(prog):
    """calls of a function to itself with every argument handed on unchanged and no draw before"""
    seen, bad = [], []
    for f in prog.d['fns']:
        b = f.get('body')
        if not b or '::tests' in f['path']:
            continue
        for x, blk in enumerate(b['blocks']):
            t = blk['term']
            if t['t'] == 'call' and t['f'].get('k') == 'fn' and t['f'].get('path') == f['path'] and not blk.get('cleanup'):
                seen.append('%s at %s' % (f['path'], t.get('sp')))
                if unchanged(b, x, t) and not drawn_before(b, x):
                    bad.append((f['path'], 'at %s with every argument unchanged and nothing drawn before' % t.get('sp')))
    return {'seen': seen, 'bad': bad}


def unchanged(b, x, t):
    """every argument of the call is a copy or reborrow of the parameter in the same position, never reassigned"""
    src = {}
    multi = set()
    for blk in b['blocks']:
        for s in blk['st']:
            if s['s'] == 'assign' and not s['pl']['pr']:
                l = s['pl']['l']
                if l in src:
                    multi.add(l)
                src[l] = s['rv']
        d = blk['term'].get('dst')
        if d and not d['pr']:
            if d['l'] in src:
                multi.add(d['l'])
            src[d['l']] = {'k': 'call'}

    def origin(l, n=0):
        if 1 <= l <= b['argc']:
            return l if l not in src else None
        if l in multi or l not in src or n > 10:
            return None
        rv = src[l]
        if rv.get('k') == 'use' and rv['o'].get('pl') and not rv['o']['pl']['pr']:
            return origin(rv['o']['pl']['l'], n + 1)
        if rv.get('k') == 'ref' and [p.get('p') for p in rv['pl']['pr']] == ['deref']:
            return origin(rv['pl']['l'], n + 1)
        return None
    for i, a in enumerate(t['args']):
        pl = a.get('pl')
        if not pl or pl['pr'] or origin(pl['l']) != i + 1:
            return False
    return True


def drawn_before(b, x):
    """is there a way to the block on which something was called with a mutable reference?"""
    g = Cfg(b)
    back, todo = set(), [x]
    while todo:
        y = todo.pop()
        for z in g.pred.get(y, []):
            if z not in back:
                back.add(z)
                todo.append(z)
    return any(b['blocks'][y]['term']['t'] == 'call' and any('mut' in a for a in b['blocks'][y]['term'].get('argtys', [])) for y in back)


CHECKS = {'C11': run}
