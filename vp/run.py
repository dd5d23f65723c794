"""Evaluation of crate operations over boxes of parameters and arguments.

Two precisions of the same abstract interpretation are used: a value graph valid for all
inputs (guards kept as gates), evaluated over the box; or, where the graph cannot be built
(vectors of symbolic length, recursion, data-dependent loops), an analysis directed by the box,
in which the guards that the box decides are resolved on the way.
"""
import sys
from fractions import Fraction as Fr
from . import ra
from .graph import *
from .interp import *
from .evalr import Eval, Unknown, close, pick
from .ra import V, Undecided
from .extract import program

sys.setrecursionlimit(200000)


class Panic(Exception):
    def __init__(self, o):
        Exception.__init__(self, '%s at %s in %s' % (o.kind, o.sp, o.fn))
        self.o = o


class CtorArg:
    """argument list of a constructor: ('n','usize') / ('p','f64') or ('p', k) for a slice of k symbols"""


def ctor_args(fn, k=None):
    names = []
    body = fn['body']
    dbg = {}
    for nm, pl in body.get('names', []):
        if not pl['pr'] and 1 <= pl['l'] <= body['argc']:
            dbg[pl['l']] = nm
    return [(i, t) for i, t in enumerate(fn['inputs'])]


class Op:
    """one public operation of a type: how to call it"""

    def __init__(self, prog, ty, method, ctor='new', k=None):
        self.p = prog
        self.ty = ty
        self.method = method
        self.ctor = ctor
        self.k = k
        self.full = 'distribution::' + ty
        self.cfn = prog.method(self.full, ctor)
        self.self_ty = None
        if method is None:
            self.fn = None
        else:
            self.fn = prog.method(self.full, method)
            if self.fn is None and method == 'deviation' and prog.has_impl('probability::distribution::Variance', self.full):
                self.fn = prog.fns.get('probability::distribution::Variance::deviation')
        if self.cfn is None:
            raise Missing('%s::%s' % (ty, ctor))
        if method is not None and self.fn is None:
            raise Missing('%s::%s' % (ty, method))

    def start(self, ip):
        st = State()
        args = []
        ci = self.cfn['inputs']
        self.csyms = []
        for i, t in enumerate(ci):
            if t == 'f64' or t in INT_BITS:
                s = sym('c%d' % i, t)
                args.append(s)
                self.csyms.append(s)
            elif '[f64]' in t:
                ss = [sym('c%d_%d' % (i, j)) for j in range(self.k)]
                st.mem['slice%d' % i] = Agg('array', None, ss)
                args.append(Ref('slice%d' % i))
                self.csyms += ss
            else:
                raise Unsupported('constructor argument of type ' + t)
        st, v = ip.enter(self.cfn, args, st, {'Self': self.full})
        if st is None:
            return None
        st.mem['self'] = v
        return st

    def go(self, ip, st):
        if self.fn is None:
            return st, st.mem['self']
        args = []
        self.asyms = []
        for i, t in enumerate(self.fn['inputs']):
            if i == 0 and (self.fn['self_ty'] or 'Self' in t):
                if t.startswith('&'):
                    args.append(Ref('self'))
                else:
                    args.append(st.mem['self'])
            elif t == 'f64' or t in INT_BITS:
                s = sym('x%d' % (i - 1), t)
                args.append(s)
                self.asyms.append(s)
            elif t.startswith('&mut'):
                st.mem['rng'] = sym('rng', 'rng')
                args.append(Ref('rng'))
            else:
                raise Unsupported('argument of type ' + t)
        return ip.enter(self.fn, args, st, {'Self': self.full})


class Missing(Exception):
    pass


_graphs = {}


def graph(op):
    """value graph valid for all inputs: (interp, value, state)"""
    key = (op.ty, op.method, op.ctor, op.k)
    if key not in _graphs:
        ip = Interp(op.p)
        try:
            st = op.start(ip)
            if st is None:
                raise Unsupported('constructor never returns')
            st, v = op.go(ip, st)
            if v is None:
                raise Unsupported('never returns')
            _graphs[key] = (ip, v, st)
        except (Unsupported, KeyError, TypeError, AttributeError, IndexError, RecursionError) as e:
            _graphs[key] = e
    g = _graphs[key]
    if isinstance(g, Exception):
        raise Unsupported('%s: %s' % (type(g).__name__, g))
    return g


class Result:
    __slots__ = ('value', 'node', 'ev', 'mode', 'state')


def materialise(ev, v, st=None, ip=None):
    """abstract value -> V / bool / list / tuple / ('variant', d, fields)"""
    v = pick(ev, v)
    if isinstance(v, N):
        return ev.val(v)
    if isinstance(v, Agg):
        return [materialise(ev, x, st, ip) for x in v.f if x is not None]
    if isinstance(v, Enum):
        d = ev.val(v.d)
        if d is None or not hasattr(d, 'q') or d.q is None:
            raise Undecided()
        k = int(d.q)
        return ('variant', k, [materialise(ev, x, st, ip) for x in v.v.get(k, ())])
    if isinstance(v, (Ref, Slice)) and st is not None:
        return materialise(ev, ip.read(st, v), st, ip)
    raise Unknown('value %r' % (v,))


class DrawEval(Eval):
    draws = ()

    def _val(self, n):
        if n.op == 'draw' and n not in self.env:
            d, t = 0, n.args[0]
            while t.op == 'adv':
                t = t.args[0]
                d += 1
            if t.op == 'sym' and d < len(self.draws):
                return self.draws[d]
            raise Unknown('no more draws')
        if n.op in ('sym', 'mu') and n.ty == 'rng':
            raise Unknown('token')
        return Eval._val(self, n)


def env_of(op, params, args, lift=None):
    env = {}
    lift = lift or ra.lift
    for i, (t, v) in enumerate(zip(op.cfn['inputs'], params)):
        if isinstance(v, (list, tuple)):
            for j, x in enumerate(v):
                env['c%d_%d' % (i, j)] = lift(x)
        else:
            env['c%d' % i] = lift(v)
    for i, v in enumerate(args):
        env['x%d' % i] = lift(v)
    return env


def panics(ip, ev):
    """the first obligation that surely fails on the box"""
    for o in ip.obl:
        try:
            ok = all(ev.val(f) is True for f in o.facts) and ev.val(o.cond) is True
        except (Unknown, Undecided):
            continue
        if ok:
            return o
    return None


def run_graph(op, params, args, cls=None, lift=None):
    ip, v, st = graph(op)
    ev = (cls or DrawEval)(env_of(op, params, args, lift), ip.loops)
    o = panics(ip, ev)
    if o is not None:
        raise Panic(o)
    r = Result()
    r.ev, r.node, r.mode, r.state = ev, v, 'graph', st
    r.value = materialise(ev, v, st, ip)
    return r


def run_cell(op, params, args, draws=(), unroll=3000, cls=None, lift=None):
    ip = Interp(op.p, unroll=unroll)
    ev = (cls or DrawEval)(env_of(op, params, args, lift), ip.loops)
    ev.series = True
    ev.draws = [(lift or ra.lift)(d) for d in draws]

    def oracle(n):
        try:
            r = ev.val(n)
        except (Unknown, Undecided):
            return None
        if n.ty == 'bool':
            return r
        if hasattr(r, 'q') and r.q is not None:
            return int(r.q)
        return None
    ip.oracle = oracle
    st = op.start(ip)
    sure = [o for o in ip.obl if o.cond is TRUE]
    if st is None:
        if sure:
            raise Panic(sure[0])
        raise Unsupported('constructor does not return')
    st, v = op.go(ip, st)
    if v is None:
        sure = [o for o in ip.obl if o.cond is TRUE]
        if sure:
            raise Panic(sure[-1])
        raise Unsupported('does not return')
    r = Result()
    r.ev, r.node, r.mode, r.state = ev, v, 'cell', st
    r.value = materialise(ev, v, st, ip)
    return r


stats = {'graph': 0, 'cell': 0, 'unknown': 0}


def evaluate(op, params, args=(), cls=None, lift=None, unroll=3000):
    """Result over the box, or raises Panic / Unknown"""
    err = None
    small = 'n/a'
    try:
        r = run_graph(op, params, args, cls, lift)
        stats['graph'] += 1
        return r
    except (Unsupported, Unknown, Undecided) as e:
        err = e
    try:
        r = run_cell(op, params, args, cls=cls, lift=lift, unroll=unroll)
        stats['cell'] += 1
        return r
    except Undecided as e:
        stats['unknown'] += 1
        raise Unknown('guards undecided on the box')
    except Unsupported as e:
        stats['unknown'] += 1
        raise Unknown('%s / %s' % (err, e))
    except (TypeError, AttributeError, KeyError, IndexError, RecursionError) as e:
        stats['unknown'] += 1
        raise Unknown('internal: %s %s' % (type(e).__name__, e))
