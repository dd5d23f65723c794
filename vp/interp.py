"""Flow-sensitive, gate-merging abstract interpretation of MIR into value graphs.

Every control-flow join merges the abstract states with gates (gated SSA); local calls are
analysed in place; loops with statically bounded trip counts are peeled, other loops are
summarised (mu symbols for everything the body changes); randomness is an explicit token
that every draw advances.
"""
import struct
from .graph import *


class Unsupported(Exception):
    pass


class Agg:
    """tuple / struct / array / vec / closure with known shape"""
    __slots__ = ('kind', 'tag', 'f')

    def __init__(self, kind, tag, f):
        self.kind, self.tag, self.f = kind, tag, tuple(f)

    def __repr__(self):
        return '%s%s' % (self.tag or self.kind, list(self.f))


class Enum:
    __slots__ = ('tag', 'd', 'v')

    def __init__(self, tag, d, v):
        self.tag, self.d, self.v = tag, d, v      # d: node (discriminant), v: {variant: tuple}

    def __repr__(self):
        return '%s<%r %r>' % (self.tag, self.d, self.v)


class Ref:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return '&%s%s' % (self.cell, list(self.path))


class Slice:
    """reference to a contiguous part [lo, hi) of the array-like at ref"""
    __slots__ = ('ref', 'lo', 'hi')

    def __init__(self, ref, lo, hi):
        self.ref, self.lo, self.hi = ref, lo, hi


class Choice:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Choice(%r, %r, %r)' % (self.c, self.a, self.b)


class FnV:
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o


class Opaque:
    """a non-scalar value about which nothing is known"""
    __slots__ = ('node',)

    def __init__(self, node):
        self.node = node

    def __repr__(self):
        return 'Opaque(%r)' % (self.node,)


UNIT = Agg('tuple', None, ())


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, N):
        return a is b
    if isinstance(a, Agg):
        return a.kind == b.kind and a.tag == b.tag and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Enum):
        return a.d is b.d and a.v.keys() == b.v.keys() and all(
            len(a.v[k]) == len(b.v[k]) and all(same(x, y) for x, y in zip(a.v[k], b.v[k])) for k in a.v)
    if isinstance(a, Ref):
        return a.cell == b.cell and a.path == b.path
    if isinstance(a, Slice):
        return same(a.ref, b.ref) and a.lo is b.lo and a.hi is b.hi
    if isinstance(a, Choice):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, FnV):
        return a.o.get('id') == b.o.get('id')
    if isinstance(a, Opaque):
        return a.node is b.node
    return False


def merge(c, a, b):
    """value that is a when c holds and b otherwise"""
    if a is None:
        return b
    if b is None:
        return a
    if same(a, b):
        return a
    if isc(c):
        return a if cv(c) else b
    if isinstance(a, N) and isinstance(b, N):
        if a.ty != b.ty:
            raise Unsupported('merge of %s and %s' % (a.ty, b.ty))
        return ite(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and a.tag == b.tag and len(a.f) == len(b.f):
        return Agg(a.kind, a.tag, [merge(c, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Enum) and isinstance(b, Enum):
        v = {}
        for k in set(a.v) | set(b.v):
            if k in a.v and k in b.v:
                v[k] = tuple(merge(c, x, y) for x, y in zip(a.v[k], b.v[k]))
            else:
                v[k] = a.v.get(k) or b.v.get(k) or ()
        return Enum(a.tag or b.tag, ite(c, a.d, b.d), v)
    if isinstance(a, Slice) and isinstance(b, Slice) and same(a.ref, b.ref):
        return Slice(a.ref, ite(c, a.lo, b.lo), ite(c, a.hi, b.hi))
    return Choice(c, a, b)


def subst_val(v, m, cache=None):
    if cache is None:
        cache = {}
    if isinstance(v, N):
        return subst(v, m, cache)
    if isinstance(v, Agg):
        return Agg(v.kind, v.tag, [subst_val(x, m, cache) for x in v.f])
    if isinstance(v, Enum):
        return Enum(v.tag, subst(v.d, m, cache), {k: tuple(subst_val(x, m, cache) for x in t) for k, t in v.v.items()})
    if isinstance(v, Choice):
        return merge(subst(v.c, m, cache), subst_val(v.a, m, cache), subst_val(v.b, m, cache))
    if isinstance(v, Slice):
        return Slice(v.ref, subst(v.lo, m, cache), subst(v.hi, m, cache))
    return v


def leaves(v):
    if isinstance(v, N):
        yield v
    elif isinstance(v, Agg):
        for x in v.f:
            yield from leaves(x)
    elif isinstance(v, Enum):
        yield v.d
        for t in v.v.values():
            for x in t:
                yield from leaves(x)
    elif isinstance(v, Choice):
        yield v.c
        yield from leaves(v.a)
        yield from leaves(v.b)
    elif isinstance(v, Slice):
        yield v.lo
        yield v.hi
    elif isinstance(v, Opaque):
        yield v.node


class State:
    __slots__ = ('mem', 'facts')

    def __init__(self, mem=None, facts=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts          # tuple of boolean nodes known to hold here

    def copy(self):
        return State(dict(self.mem), self.facts)

    def assume(self, c):
        if isc(c):
            return self
        new = [x for x in conjuncts(c) if x not in self.facts]
        s = State(self.mem, self.facts + tuple(new))
        return s


def merge_state(c, a, b):
    if a is None:
        return b
    if b is None:
        return a
    mem = {}
    for k in a.mem.keys() | b.mem.keys():
        x, y = a.mem.get(k), b.mem.get(k)
        mem[k] = x if x is y else merge(c, x, y)
    n = 0
    fa, fb = a.facts, b.facts
    while n < len(fa) and n < len(fb) and fa[n] is fb[n]:
        n += 1
    keep = fa[:n]
    sb = set(fb)
    keep += tuple(f for f in fa[n:] if f in sb)
    return State(mem, keep)


class Obligation:
    __slots__ = ('kind', 'facts', 'cond', 'fn', 'sp', 'macro', 'ops', 'stack')

    def __init__(self, kind, facts, cond, fn, sp, macro='', ops=(), stack=()):
        # cond: node that must be FALSE (panic condition) under facts
        self.kind, self.facts, self.cond, self.fn, self.sp, self.macro, self.ops, self.stack = kind, facts, cond, fn, sp, macro, ops, stack


class LoopInfo:
    def __init__(self):
        self.mus = []          # (cell, path, mu, init, next)
        self.back = None       # condition of taking the back edge
        self.exits = {}        # target -> (cond, state)
        self.fn = None
        self.sp = None
        self.header = None
        self.entry = None      # state on entry (before havoc)
        self.bodystate = None  # state at the back edge
        self.draws = False
        self.facts = ()


PROMO = '#promo'


class Interp:
    def __init__(self, prog, unroll=40, inline_filter=None, budget=400000):
        self.p = prog
        self.unroll = unroll
        self.obl = []
        self.loops = []
        self.notes = []           # reasons for imprecision (unsupported library calls etc.)
        self.calls = []           # (caller, callee path) all resolved calls
        self.depth = 0
        self.frame_no = 0
        self.stack = []
        self.summaries = {}       # fn path -> handler(interp, state, args, fnconst) -> (value, state)
        self.exits = {}           # exit-select nodes
        self.budget = budget
        self.steps = 0
        self.quiet = 0
        self.oracle = None        # node -> True/False/None/int: decides guards and integers over a box of inputs

    # ------------------------------------------------------------------ cell-directed analysis
    def known(self, st, c):
        """is the boolean node decided here?"""
        if isc(c):
            return cv(c)
        r = implied(set(st.facts), c)
        if r is None and self.oracle is not None:
            r = self.oracle(c)
        return r

    def settle(self, v):
        """replace guards and integers that the box of inputs decides by constants"""
        if self.oracle is None or v is None:
            return v
        if isinstance(v, N):
            if isc(v) or not (v.ty == 'bool' or is_int(v.ty)):
                return v
            r = self.oracle(v)
            if r is None:
                return v
            return B(r) if v.ty == 'bool' else I(r, v.ty)
        if isinstance(v, Agg):
            if v.kind in ('str', 'closure'):
                return v
            f = tuple(self.settle(x) for x in v.f)
            return v if all(x is y for x, y in zip(f, v.f)) else Agg(v.kind, v.tag, f)
        if isinstance(v, Enum):
            return Enum(v.tag, self.settle(v.d), {k: tuple(self.settle(x) for x in t) for k, t in v.v.items()})
        if isinstance(v, Choice):
            c = self.settle(v.c)
            if isc(c):
                return self.settle(v.a if cv(c) else v.b)
            return v
        if isinstance(v, Slice):
            return Slice(v.ref, self.settle(v.lo), self.settle(v.hi))
        return v

    # ------------------------------------------------------------------ memory
    def read(self, st, ref):
        if isinstance(ref, Choice):
            return merge(ref.c, self.read(st, ref.a), self.read(st, ref.b))
        if isinstance(ref, Slice):
            whole = self.read(st, ref.ref)
            return self.slice_value(st, whole, ref.lo, ref.hi)
        if not isinstance(ref, Ref):
            raise Unsupported('deref of %r' % (ref,))
        v = st.mem.get(ref.cell)
        if v is None:
            raise Unsupported('read of uninitialised %r' % (ref.cell,))
        return self.project(v, ref.path)

    def slice_value(self, st, whole, lo, hi):
        if isinstance(whole, Agg) and isc(lo) and isc(hi):
            return Agg('array', None, whole.f[cv(lo):cv(hi)])
        raise Unsupported('symbolic subslice')

    def project(self, v, path):
        for k in range(len(path)):
            e = path[k]
            if isinstance(v, Choice):
                return merge(v.c, self.project(v.a, path[k:]), self.project(v.b, path[k:]))
            if isinstance(v, Opaque):
                raise Unsupported('projection of opaque value')
            if e[0] == 'f':
                if isinstance(v, Agg):
                    v = v.f[e[1]]
                else:
                    raise Unsupported('field of %r' % (v,))
            elif e[0] == 'd':
                if not isinstance(v, Enum):
                    raise Unsupported('downcast of %r' % (v,))
                t = v.v.get(e[1])
                if t is None:
                    raise Unsupported('downcast to missing variant')
                v = Agg('variant', None, t)
            elif e[0] == 'i':
                v = self.index(v, e[1])
        return v

    def index(self, v, i):
        if isinstance(v, Agg):
            n = len(v.f)
            if isc(i):
                if 0 <= cv(i) < n:
                    return v.f[cv(i)]
                raise Unsupported('index out of range')
            if n == 0:
                raise Unsupported('index into empty')
            if n > 64 or (i.op != 'ite' and all(isinstance(x, N) for x in v.f) and n > 8):
                if all(isc(x) for x in v.f):
                    return mk('tab', (tuple(cv(x) for x in v.f), i), v.f[0].ty)
            if i.op == 'ite':
                return merge(i.args[0], self.index(v, i.args[1]), self.index(v, i.args[2]))
            r = v.f[n - 1]
            for j in range(n - 2, -1, -1):
                r = merge(cmp('eq', i, I(j)), v.f[j], r)
            return r
        raise Unsupported('index of %r' % (v,))

    def write(self, st, ref, val):
        """in-place on st (which must be owned)"""
        if isinstance(ref, Choice):
            old_a, old_b = self.read(st, ref.a), self.read(st, ref.b)
            self.write(st, ref.a, merge(ref.c, val, old_a))
            self.write(st, ref.b, merge(ref.c, old_b, val))
            return
        if not isinstance(ref, Ref):
            raise Unsupported('write through %r' % (ref,))
        if not ref.path:
            st.mem[ref.cell] = val
        else:
            st.mem[ref.cell] = self.update(st.mem.get(ref.cell), ref.path, val)

    def update(self, v, path, val):
        if not path:
            return val
        e = path[0]
        if isinstance(v, Choice):
            return merge(v.c, self.update(v.a, path, val), self.update(v.b, path, val))
        if e[0] == 'f':
            i = e[1]
            f = list(v.f) if isinstance(v, Agg) else []
            while len(f) <= i:
                f.append(None)
            f[i] = self.update(f[i], path[1:], val)
            return Agg(v.kind if isinstance(v, Agg) else 'tuple', v.tag if isinstance(v, Agg) else None, f)
        if e[0] == 'd':
            if not isinstance(v, Enum):
                raise Unsupported('downcast write')
            inner = self.update(Agg('variant', None, v.v.get(e[1], ())), path[1:], val)
            nv = dict(v.v)
            nv[e[1]] = inner.f
            return Enum(v.tag, v.d, nv)
        if e[0] == 'i':
            i = e[1]
            if isinstance(v, Agg):
                f = list(v.f)
                if isc(i):
                    if not 0 <= cv(i) < len(f):
                        raise Unsupported('index out of range')
                    f[cv(i)] = self.update(f[cv(i)], path[1:], val)
                else:
                    for j in range(len(f)):
                        f[j] = merge(cmp('eq', i, I(j)), self.update(f[j], path[1:], val), f[j])
                return Agg(v.kind, v.tag, f)
        raise Unsupported('update %r' % (e,))

    def new_cell(self, st, val, hint='tmp'):
        self.frame_no += 1
        c = '%s#%d' % (hint, self.frame_no)
        st.mem[c] = val
        return Ref(c)

    # ------------------------------------------------------------------ places and operands
    def place_ref(self, fr, st, pl):
        """address of a place as Ref/Slice/Choice"""
        ref = Ref((fr.no, pl['l']))
        for e in pl['pr']:
            k = e['p']
            if k == 'deref':
                ref = self.read(st, ref)
                if isinstance(ref, Agg) and ref.kind == 'box':
                    ref = ref.f[0]
                if not isinstance(ref, (Ref, Choice, Slice)):
                    raise Unsupported('deref of %r' % (ref,))
            elif k == 'field':
                ref = self.ext(ref, ('f', e['i']))
            elif k == 'downcast':
                ref = self.ext(ref, ('d', e['v']))
            elif k == 'index':
                i = self.read(st, Ref((fr.no, e['l'])))
                ref = self.elem(ref, i)
            elif k == 'cindex':
                if e['end']:
                    n = self.length(st, ref)
                    ref = self.elem(ref, iop('sub', n, I(e['o']), 'usize'))
                else:
                    ref = self.elem(ref, I(e['o']))
            elif k == 'subslice':
                n = self.length(st, ref)
                hi = iop('sub', n, I(e['to']), 'usize') if e['end'] else I(e['to'])
                ref = self.subslice(ref, I(e['from']), hi)
            else:
                raise Unsupported('place elem ' + k)
        return ref

    def ext(self, ref, e):
        if isinstance(ref, Choice):
            return Choice(ref.c, self.ext(ref.a, e), self.ext(ref.b, e))
        if isinstance(ref, Slice):
            raise Unsupported('field of slice')
        return Ref(ref.cell, ref.path + (e,))

    def elem(self, ref, i):
        if isinstance(ref, Choice):
            return Choice(ref.c, self.elem(ref.a, i), self.elem(ref.b, i))
        if isinstance(ref, Slice):
            return self.elem(ref.ref, iop('add', ref.lo, i, 'usize'))
        return Ref(ref.cell, ref.path + (('i', i),))

    def subslice(self, ref, lo, hi):
        if isinstance(ref, Choice):
            return Choice(ref.c, self.subslice(ref.a, lo, hi), self.subslice(ref.b, lo, hi))
        if isinstance(ref, Slice):
            return Slice(ref.ref, iop('add', ref.lo, lo, 'usize'), iop('add', ref.lo, hi, 'usize'))
        return Slice(ref, lo, hi)

    def length(self, st, ref):
        """length of the array-like a reference points at"""
        if isinstance(ref, Choice):
            return ite(ref.c, self.length(st, ref.a), self.length(st, ref.b))
        if isinstance(ref, Slice):
            return iop('sub', ref.hi, ref.lo, 'usize')
        return self.vlen(self.read(st, ref))

    def vlen(self, v):
        if isinstance(v, Choice):
            return ite(v.c, self.vlen(v.a), self.vlen(v.b))
        if isinstance(v, Agg):
            return I(len(v.f))
        raise Unsupported('length of %r' % (v,))

    def get(self, fr, st, pl):
        if not pl['pr']:
            v = st.mem.get((fr.no, pl['l']))
            if v is None:
                raise Unsupported('read of uninitialised local _%d in %s' % (pl['l'], fr.fn['path']))
            return v
        return self.read(st, self.place_ref(fr, st, pl))

    def const(self, st, v, ty=None):
        k = v['k']
        if k == 'bits':
            t = v['ty']
            b = int(v['v'])
            if t == 'f64':
                return F(struct.unpack('>d', struct.pack('>Q', b))[0])
            if t == 'f32':
                return F(struct.unpack('>f', struct.pack('>I', b))[0])
            if t == 'bool':
                return B(b)
            if t in INT_BITS:
                return I(wrap(b, t), t)
            raise Unsupported('const of type ' + t)
        if k == 'array':
            return Agg('array', None, [self.const(st, x) for x in v['v']])
        if k in ('tuple', 'struct'):
            return Agg('tuple' if k == 'tuple' else 'adt', None, [self.const(st, x) for x in v['v']])
        if k == 'ref':
            c = 'const:%s' % hash(repr(v))
            if c not in st.mem:
                st.mem[c] = self.const(st, v['v'])
            return Ref(c)
        if k == 'str':
            return Agg('str', v['v'], ())
        if k == 'zst':
            t = ty or v.get('ty', '')
            return UNIT
        raise Unsupported('const ' + k)

    def operand(self, fr, st, o):
        k = o['k']
        if k in ('copy', 'move'):
            return self.get(fr, st, o['pl'])
        if k == 'const':
            return self.const(st, o['val'], o['ty'])
        if k == 'fn':
            return FnV(o)
        if k == 'promoted':
            return self.promoted(fr, st, o)
        if k == 'rtcheck':
            return TRUE
        raise Unsupported('operand ' + k)

    def promoted(self, fr, st, o):
        f = self.p.by_id[o['id']]
        body = f['promoted'][o['idx']]
        key = 'promo:%s:%d' % (o['id'], o['idx'])
        if key not in st.mem:
            self.frame_no += 1
            no = self.frame_no
            pf = Frame(no, f, body, {})
            s2 = self.region(pf, 0, st, frozenset())['ret'][1]
            val = s2.mem[(no, 0)]
            st.mem.update({k: v for k, v in s2.mem.items() if k not in st.mem})
            st.mem[key] = val
        return st.mem[key]

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, rv, sp):
        k = rv['k']
        if k == 'use':
            return self.operand(fr, st, rv['o'])
        if k in ('ref', 'rawptr'):
            r = self.place_ref(fr, st, rv['pl'])
            return r
        if k == 'bin':
            a, b = self.operand(fr, st, rv['a']), self.operand(fr, st, rv['b'])
            return self.binop(fr, st, rv['op'], a, b, rv['ty'])
        if k == 'un':
            a = self.operand(fr, st, rv['a'])
            op = rv['op']
            if op == 'Neg':
                if a.ty == 'f64':
                    return fneg(a)
                return iop('sub', I(0, a.ty), a, a.ty)
            if op == 'Not':
                if a.ty == 'bool':
                    return not_(a)
                if isc(a):
                    return I(wrap(~cv(a), a.ty), a.ty)
                return mk('inot', (a,), a.ty)
            if op == 'PtrMetadata':
                return self.length(st, a)
            raise Unsupported('un ' + op)
        if k == 'cast':
            return self.cast(fr, st, rv)
        if k == 'discr':
            v = self.get(fr, st, rv['pl'])
            return self.discr(v)
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in rv['ops']]
            ak = rv['ak']
            if ak == 'tuple':
                return Agg('tuple', None, ops)
            if ak == 'array':
                return Agg('array', None, ops)
            if ak == 'closure':
                return Agg('closure', rv['id'], ops)
            if ak == 'adt':
                if rv['enum']:
                    d = int(rv['discr'])
                    if rv['path'] == 'core::cmp::Ordering':
                        d = wrap(d, 'i8')
                    return Enum(rv['path'], I(wrap(d, 'i64'), 'isize'), {rv['variant']: tuple(ops)})
                return Agg('adt', rv['path'], ops)
            raise Unsupported('aggregate ' + ak)
        if k == 'repeat':
            n = rv['n']
            if n is None or int(n) > 100000:
                raise Unsupported('repeat')
            return Agg('array', None, [self.operand(fr, st, rv['o'])] * int(n))
        if k == 'len':
            return self.length(st, self.place_ref(fr, st, rv['pl']))
        if k == 'tls':
            self.notes.append('thread-local ' + rv['path'])
            raise Unsupported('thread local')
        raise Unsupported('rvalue ' + k)

    def discr(self, v):
        if isinstance(v, Choice):
            return ite(v.c, self.discr(v.a), self.discr(v.b))
        if isinstance(v, Enum):
            return v.d
        raise Unsupported('discriminant of %r' % (v,))

    def binop(self, fr, st, op, a, b, ty):
        if isinstance(a, Ref) and isinstance(b, Ref) and op in ('Eq', 'Ne'):
            raise Unsupported('pointer comparison')
        if not (isinstance(a, N) and isinstance(b, N)):
            raise Unsupported('binop on %r' % (a,))
        if ty == 'f64':
            m = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem'}
            if op in m:
                return fop(m[op], a, b)
        low = {'Lt': 'lt', 'Le': 'le', 'Gt': 'gt', 'Ge': 'ge', 'Eq': 'eq', 'Ne': 'ne'}
        if op in low:
            return cmp(low[op], a, b)
        m = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'BitAnd': 'and', 'BitOr': 'or',
             'BitXor': 'xor', 'Shl': 'shl', 'Shr': 'shr', 'AddUnchecked': 'add', 'SubUnchecked': 'sub', 'MulUnchecked': 'mul',
             'ShlUnchecked': 'shl', 'ShrUnchecked': 'shr'}
        if op.endswith('WithOverflow'):
            base = op[:-len('WithOverflow')]
            v = iop(m[base], a, b, ty)
            ov = self.overflow(m[base], a, b, ty)
            return Agg('tuple', None, [v, ov])
        if op in m:
            return iop(m[op], a, b, ty)
        raise Unsupported('binop ' + op)

    def overflow(self, op, a, b, ty):
        if isc(a) and isc(b):
            x, y = cv(a), cv(b)
            v = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            lo, hi = int_range(ty)
            return B(not lo <= v <= hi)
        if op == 'sub' and ty[0] == 'u':
            return cmp('lt', a, b)
        return mk('ovf_' + op, (a, b), 'bool')

    def cast(self, fr, st, rv):
        a = self.operand(fr, st, rv['o'])
        ck, ty, fro = rv['ck'], rv['ty'], rv['from']
        return self.cast_val(st, a, ck, ty, fro)

    def cast_val(self, st, a, ck, ty, fro):
        if ck.startswith('IntToInt'):
            if fro == 'bool':
                return ite(a, I(1, ty), I(0, ty))
            return self.i2i(a, ty)
        if ck.startswith('IntToFloat'):
            r = F(float(cv(a))) if isc(a) else mk('i2f', (a,), 'f64')
            return single(r) if ty == 'f32' else r
        if ck.startswith('FloatToInt'):
            if isc(a):
                x = cv(a)
                lo, hi = int_range(ty)
                if x != x:
                    return I(0, ty)
                if x >= hi:
                    return I(hi, ty)
                if x <= lo:
                    return I(lo, ty)
                return I(int(x), ty)
            return mk('f2i', (a,), ty)
        if ck.startswith('FloatToFloat'):
            return single(a) if ty == 'f32' and fro != 'f32' else a
        if ck.startswith('PointerCoercion'):
            if 'ReifyFnPointer' in ck or 'ClosureFnPointer' in ck:
                return a
            return a      # Unsize: arrays keep their value; references unchanged
        if ck.startswith(('BoxDerefTransmute',)):
            if isinstance(a, Ref):
                return a
            if isinstance(a, Agg) and a.kind == 'box':
                return a.f[0]
            return a
        if ck.startswith(('PtrToPtr', 'Transmute', 'Subtype')):
            return a
        raise Unsupported('cast ' + ck)

    def i2i(self, a, ty):
        if isc(a):
            return I(wrap(cv(a), ty), ty)
        if a.ty == ty:
            return a
        lo, hi = int_range(ty)
        slo, shi = self.irange(a)
        if lo <= slo and shi <= hi:
            return mk('i2i', (a,), ty)
        return mk('i2i', (a,), ty)

    def irange(self, n):
        return int_range(n.ty)

    # ------------------------------------------------------------------ control flow
    def run_fn(self, path, args, st=None, subst_=None):
        """analyse function `path` with abstract arguments; returns (state, value) with value None when it cannot return"""
        f = self.p.fns[path]
        st = st.copy() if st is not None else State()
        return self.enter(f, args, st, subst_ or {})

    def enter(self, f, args, st, substs):
        if self.depth > 40:
            raise Unsupported('recursion too deep')
        for a in self.stack:
            if a == f['path'] and self.stack.count(a) >= 2:
                raise Unsupported('recursion in ' + a)
        self.frame_no += 1
        fr = Frame(self.frame_no, f, f['body'], substs)
        st = st.copy()
        if len(args) != f['body']['argc']:
            raise Unsupported('arity of ' + f['path'])
        for i, a in enumerate(args):
            st.mem[(fr.no, i + 1)] = a
        self.depth += 1
        self.stack.append(f['path'])
        try:
            return self.run_body(fr, st)
        finally:
            self.depth -= 1
            self.stack.pop()

    def run_body(self, fr, st):
        base_facts = len(st.facts)
        outs = self.region(fr, 0, st, frozenset())
        if 'ret' not in outs:
            return None, None
        c, s = outs['ret']
        val = s.mem.get((fr.no, 0), UNIT)
        # drop the frame
        s2 = State({k: v for k, v in s.mem.items() if not (isinstance(k, tuple) and k[0] == fr.no and k[1] != 0)}, s.facts)
        s2.mem.pop((fr.no, 0), None)
        # locals whose address escaped (closures capturing by ref are gone by then)
        if not isc(c) or not cv(c):
            s2 = s2 if isc(c) else s2
        return s2, val

    def region(self, fr, b, st, stops, first=False):
        """analyse from block b; returns {target: (cond, state)} for targets in stops and 'ret'"""
        while True:
            self.steps += 1
            if self.steps > self.budget:
                raise Unsupported('analysis budget exhausted')
            if b in stops and not first:
                return {b: (TRUE, st)}
            if not first and b in fr.cfg.headers and b not in fr.active:
                return self.loop(fr, b, st, stops)
            first = False
            blk = fr.body['blocks'][b]
            st = st.copy()
            for s in blk['st']:
                if s['s'] == 'assign':
                    v = self.rvalue(fr, st, s['rv'], s.get('sp'))
                    self.assign(fr, st, s['pl'], v)
                elif s['s'] == 'setdiscr':
                    raise Unsupported('SetDiscriminant')
            t = blk['term']
            k = t['t']
            if k == 'goto':
                b = t['to']
            elif k == 'return':
                return {'ret': (TRUE, st)}
            elif k == 'drop':
                b = t['to']
            elif k in ('unreachable', 'unwind', 'other'):
                return {}
            elif k == 'assert':
                c = self.operand(fr, st, t['o'])
                bad = not_(c) if t['exp'] else c
                ops = [self.operand(fr, st, o) for o in t['mops']]
                if bad is not FALSE:
                    v = self.known(st, bad)
                    if v is True:
                        bad = TRUE
                    if v is not False:
                        self.obligation(t['msg'], st, bad, fr, t.get('sp'), '', ops)
                        if bad is TRUE:
                            return {}
                        st = st.assume(not_(bad))
                b = t['to']
            elif k == 'call':
                r = self.do_call(fr, st, t, b)
                if r is None:
                    return {}
                st = r
                b = t['to']
                if b is None:
                    return {}
            elif k == 'switch':
                v = self.operand(fr, st, t['o'])
                return self.switch(fr, b, v, t, st, stops)
            else:
                raise Unsupported('terminator ' + k)

    def assign(self, fr, st, pl, v):
        if self.oracle is not None:
            v = self.settle(v)
        if not pl['pr']:
            st.mem[(fr.no, pl['l'])] = v
        else:
            self.write(st, self.place_ref(fr, st, pl), v)

    def obligation(self, kind, st, cond, fr, sp, macro='', ops=()):
        if self.quiet:
            return
        self.obl.append(Obligation(kind, st.facts, cond, fr.fn['path'], sp, macro, ops, tuple(self.stack)))

    def switch(self, fr, b, v, t, st, stops):
        if not isinstance(v, N):
            raise Unsupported('switch on %r' % (v,))
        arms = []
        rest = TRUE
        for val, tgt in t['cases']:
            val = int(val)
            if v.ty == 'bool':
                c = v if val else not_(v)
            else:
                c = cmp('eq', v, I(wrap(val, v.ty), v.ty))
            arms.append((c, tgt))
        arms.append((TRUE, t['else']))
        facts = set(st.facts)
        live = []
        for c, tgt in arms:
            d = self.known(st, c)
            if d is False:
                continue
            if fr.cfg.dead(tgt):
                # unreachable block: the arm contributes nothing, but panics are real arms
                if fr.cfg.truly_unreachable(tgt):
                    continue
            live.append((TRUE if d is True else c, tgt))
            if d is True:
                break
        if not live:
            return {}
        if len(live) == 1:
            return self.region(fr, live[0][1], st, stops)
        j = fr.cfg.ipdom.get(b)
        if j is not None and j in stops:
            j = None
        if j is not None and fr.active and not fr.cfg.same_loop(b, j, fr.active):
            j = None
        sub = stops | {j} if j is not None else stops
        outs = self.arms(fr, live, 0, st, sub)
        if j is None or j not in outs:
            return outs
        cj, sj = outs.pop(j)
        res = self.region(fr, j, sj, stops)
        final = dict(outs)
        for tgt, (c2, s2) in res.items():
            c2 = and_(cj, c2)
            if tgt in final:
                c1, s1 = final[tgt]
                final[tgt] = (or_(c1, c2), merge_state(c1, s1, s2))
            else:
                final[tgt] = (c2, s2)
        return final

    def arms(self, fr, live, k, st, stops):
        c, tgt = live[k]
        if k == len(live) - 1 or c is TRUE:
            s = st
            return self.region(fr, tgt, s, stops)
        a = self.region(fr, tgt, st.assume(c), stops)
        b = self.arms(fr, live, k + 1, st.assume(not_(c)), stops)
        out = {}
        for t2 in a.keys() | b.keys():
            x, y = a.get(t2), b.get(t2)
            if x is None:
                out[t2] = (and_(not_(c), y[0]), y[1])
            elif y is None:
                out[t2] = (and_(c, x[0]), x[1])
            else:
                out[t2] = (ite(c, x[0], y[0]), merge_state(c, x[1], y[1]))
        return out

    # ------------------------------------------------------------------ loops
    def loop(self, fr, h, st, stops):
        body = fr.cfg.loop_body[h]
        exits = fr.cfg.loop_exits[h]
        inner_stops = frozenset(exits) | {h} | stops
        if self.oracle is not None or not self.loop_draws(fr, h):
            r = self.peel(fr, h, st, inner_stops, stops)
            if r is not None:
                return r
        return self.summarise(fr, h, st, inner_stops, stops)

    def loop_draws(self, fr, h):
        """does the loop body (syntactically) call into something taking the source of randomness?"""
        for b in fr.cfg.loop_body[h]:
            t = fr.body['blocks'][b]['term']
            if t['t'] == 'call' and any('&mut' in a and ('S' in a.replace('&mut', '').split('::')[-1][:3]) for a in t.get('argtys', [])):
                f = t['f']
                if f.get('k') == 'fn' and (f.get('crate') == 'random' or f['path'].startswith('probability::')):
                    return True
        return False

    def peel(self, fr, h, st, inner_stops, stops):
        saved = (len(self.obl), len(self.loops), len(self.notes), self.steps, len(self.calls))
        acc = {}
        reach = TRUE
        cur = st
        fr.active.add(h)
        vague = 0
        try:
            for it in range(self.unroll):
                if vague > 8:
                    raise Unsupported('loop does not unroll')
                outs = self.region(fr, h, cur, inner_stops, first=True)
                back = outs.pop(h, None)
                for tgt, (c, s) in outs.items():
                    c = and_(reach, c)
                    if tgt in acc:
                        c0, s0 = acc[tgt]
                        acc[tgt] = (or_(c0, c), merge_state(c0, s0, s))
                    else:
                        acc[tgt] = (c, s)
                if back is None:
                    break
                if back[0] is not TRUE:
                    vague += 1
                reach = and_(reach, back[0])
                cur = back[1].assume(back[0])
            else:
                del self.obl[saved[0]:], self.loops[saved[1]:], self.notes[saved[2]:], self.calls[saved[4]:]
                return None
        except Unsupported as e:
            if 'budget' in str(e):
                raise
            del self.obl[saved[0]:], self.loops[saved[1]:], self.notes[saved[2]:], self.calls[saved[4]:]
            return None
        finally:
            fr.active.discard(h)
        return self.continue_from(fr, acc, stops)

    def continue_from(self, fr, acc, stops):
        final = {}
        for tgt in sorted(acc, key=lambda x: (isinstance(x, str), str(x))):
            c, s = acc[tgt]
            res = {tgt: (TRUE, s)} if (tgt == 'ret' or tgt in stops) else self.region(fr, tgt, s, stops)
            for t2, (c2, s2) in res.items():
                c2 = and_(c, c2)
                if t2 in final:
                    c0, s0 = final[t2]
                    final[t2] = (or_(c0, c2), merge_state(c0, s0, s2))
                else:
                    final[t2] = (c2, s2)
        return final

    def diff(self, a, b, path=()):
        """leaf paths at which two values differ"""
        if same(a, b):
            return
        if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and a.tag == b.tag and len(a.f) == len(b.f):
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                yield from self.diff(x, y, path + (('i', I(i)) if a.kind in ('array', 'vec') else ('f', i),))
            return
        yield path, a, b

    def havoc_value(self, v, hint):
        if isinstance(v, N):
            return mu(v.ty, hint)
        if isinstance(v, Enum):
            return Enum(v.tag, mu('isize', hint + 'd'), {k: tuple(self.havoc_value(x, hint) for x in t) for k, t in v.v.items()})
        if isinstance(v, Agg) and v.kind in ('tuple', 'adt', 'closure', 'array'):
            return Agg(v.kind, v.tag, [self.havoc_value(x, hint) for x in v.f])
        return Opaque(mu('any', hint))

    def summarise(self, fr, h, st, inner_stops, stops):
        names = fr.names
        info = LoopInfo()
        info.fn, info.header, info.entry = fr.fn['path'], h, st
        info.sp = fr.body['blocks'][h]['term'].get('sp') or fr.fn['sp']
        info.facts = st.facts
        havoced = {}       # (cell, path) -> value
        fr.active.add(h)
        try:
            for _ in range(12):
                saved = (len(self.obl), len(self.loops), len(self.notes), len(self.calls))
                cur = st.copy()
                cur.facts = tuple(f for f in st.facts)
                for (cell, path), v in havoced.items():
                    if path:
                        cur.mem[cell] = self.update(cur.mem[cell], path, v)
                    else:
                        cur.mem[cell] = v
                outs = self.region(fr, h, cur, inner_stops, first=True)
                back = outs.pop(h, None)
                if back is None:
                    break
                bs = back[1]
                new = {}
                for cell in st.mem:
                    if isinstance(cell, str) and cell.startswith(('const:', 'promo:')):
                        continue
                    x, y = cur.mem.get(cell), bs.mem.get(cell)
                    if y is None or same(x, y):
                        continue
                    for path, p, q in self.diff(x, y):
                        key = (cell, path)
                        if key in havoced or any(kc == cell and path[:len(kp)] == kp for kc, kp in havoced):
                            continue
                        hint = names.get(cell[1], 'v') if isinstance(cell, tuple) and cell[0] == fr.no else 'v'
                        new[key] = self.havoc_value(p, hint + "'")
                if not new:
                    break
                havoced.update(new)
                del self.obl[saved[0]:], self.loops[saved[1]:], self.notes[saved[2]:], self.calls[saved[3]:]
            else:
                raise Unsupported('loop summary does not converge')
        finally:
            fr.active.discard(h)
        info.back = back[0] if back else FALSE
        info.bodystate = back[1] if back else None
        for (cell, path), v in havoced.items():
            init = self.project(st.mem[cell], path)
            nxt = self.project(back[1].mem[cell], path)
            info.mus.append((cell, path, v, init, nxt))
            if isinstance(v, N) and v.ty == 'rng':
                info.draws = True
        info.exits = dict(outs)
        self.loops.append(info)
        idx = len(self.loops) - 1
        # values after the loop: wrap everything that depends on mu symbols
        acc = {}
        single = len(outs) == 1
        for tgt, (c, s) in outs.items():
            s2 = State({k: self.wrap_exit(v, idx, info) for k, v in s.mem.items()}, st.facts)
            acc[tgt] = (TRUE if single else mk('lxsel', (idx, str(tgt), c), 'bool'), s2)
        return self.continue_from(fr, acc, stops)

    def wrap_exit(self, v, idx, info):
        ms = set()
        for _, _, m, _, _ in info.mus:
            for l in leaves(m):
                ms.add(l)
        return self._wrap(v, idx, ms)

    def _wrap(self, v, idx, ms):
        if isinstance(v, N):
            if v.ty == 'any':
                return v
            if v.mus & ms:
                return mk('lx', (idx, v), v.ty)
            if v.ty == 'rng' or any(x.op == 'draw' for x in (v,)):
                return v
            return v
        if isinstance(v, Agg):
            return Agg(v.kind, v.tag, [self._wrap(x, idx, ms) if x is not None else None for x in v.f])
        if isinstance(v, Enum):
            return Enum(v.tag, self._wrap(v.d, idx, ms), {k: tuple(self._wrap(x, idx, ms) for x in t) for k, t in v.v.items()})
        if isinstance(v, Choice):
            return Choice(self._wrap(v.c, idx, ms), self._wrap(v.a, idx, ms), self._wrap(v.b, idx, ms))
        if isinstance(v, Slice):
            return Slice(v.ref, self._wrap(v.lo, idx, ms), self._wrap(v.hi, idx, ms))
        return v

    # ------------------------------------------------------------------ calls
    def do_call(self, fr, st, t, b):
        """returns the state after the call, or None when it diverges"""
        f = self.operand(fr, st, t['f'])
        args = [self.operand(fr, st, a) for a in t['args']]
        if isinstance(f, FnV):
            o = f.o
            r = self.call_fn(fr, st, o, args, t)
        else:
            r = self.call_value(fr, st, f, args, t)
        if r is None:
            return None
        st2, val = r
        if st2 is None:
            return None
        if val is None:
            return None
        st2 = st2.copy()
        self.assign(fr, st2, t['dst'], val)
        return st2

    def resolve_ty(self, fr, ty):
        if ty is None:
            return None
        return fr.substs.get(ty, ty)

    def call_fn(self, fr, st, o, args, t):
        from . import models
        path = o['path']
        self.calls.append((fr.fn['path'], path, t.get('sp')))
        if path.startswith('core::panicking') or path.startswith('std::rt') or path.endswith(('::unwrap_failed', '::expect_failed')) or (t.get('to') is None and o.get('crate') in ('core', 'alloc', 'std')):
            self.obligation('panic:' + (t.get('macro') or path), st, TRUE, fr, t.get('sp'), t.get('macro') or '')
            return None
        tgt = self.resolve(fr, st, o, args)
        if tgt is not None and tgt['path'] in self.summaries:
            return self.summaries[tgt['path']](self, fr, st, args, o)
        if path in self.summaries:
            return self.summaries[path](self, fr, st, args, o)
        if tgt is not None:
            substs = {}
            st_self = self.resolve_ty(fr, o.get('self_ty'))
            if tgt.get('self_ty') is None and st_self:
                substs['Self'] = st_self
            for g, a in zip([g for g in tgt.get('generics', []) if not g.startswith("'")], [a for a in o.get('args', []) if not a.startswith("'")]):
                substs[g] = self.resolve_ty(fr, a)
            if o.get('trait') and st_self:
                substs['Self'] = st_self
            return self.enter(tgt, args, st, substs)
        return models.call(self, fr, st, o, args, t)

    def resolve(self, fr, st, o, args):
        """the local function a call refers to, if any"""
        path = o['path']
        if o.get('trait'):
            sty = self.resolve_ty(fr, o.get('self_ty'))
            f = self.p.impl_fn(o['trait'], sty, o['name'])
            if f is not None:
                return f
            if path in self.p.fns and self.p.has_impl(o['trait'], sty):
                return self.p.fns[path]     # provided method
            return None
        if o.get('crate') == 'probability':
            f = self.p.by_id.get(o['id']) or self.p.fns.get(path)
            return f
        return None

    def call_value(self, fr, st, f, args, t):
        raise Unsupported('call through a function value')

    def call_closure(self, fr, st, clo, args):
        """clo: closure Agg, reference to one, or FnV; args: list of values; returns (state, value)"""
        v = clo
        ref = None
        while isinstance(v, (Ref,)):
            ref = v
            v = self.read(st, v)
        if isinstance(v, FnV):
            r = self.call_fn(fr, st, v.o, list(args), {'sp': None, 'macro': '', 'to': 0, 'dty': None, 'argtys': []})
            return r
        if isinstance(v, Agg) and v.kind == 'closure':
            f = self.p.by_id[v.tag]
            lty = f['body']['locals'][1] if f['body']['argc'] >= 1 else ''
            st = st.copy()
            if lty.startswith('&'):
                env = ref if ref is not None else self.new_cell(st, v, 'clo')
            else:
                env = v
            self.calls.append((fr.fn['path'], f['path'], None))
            return self.enter(f, [env] + list(args), st, fr.substs)
        raise Unsupported('call of %r' % (v,))


class Frame:
    def __init__(self, no, fn, body, substs):
        self.no, self.fn, self.body, self.substs = no, fn, body, substs
        self.cfg = cfg_of(body)
        self.active = set()
        self.names = {}
        for nm, pl in body.get('names', []):
            if not pl['pr']:
                self.names[pl['l']] = nm


_cfgs = {}


def cfg_of(body):
    k = id(body)
    if k not in _cfgs:
        _cfgs[k] = (Cfg(body), body)
    return _cfgs[k][0]


class Cfg:
    def __init__(self, body):
        bl = body['blocks']
        n = len(bl)
        self.succ = {}
        for i, b in enumerate(bl):
            self.succ[i] = [] if b.get('cleanup') else succs(b['term'])
        self.blocks = bl
        reach = set()
        st = [0]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            st += self.succ[x]
        self.reach = reach
        # dominators
        order = []
        seen = set()

        def dfs(x):
            stack = [(x, iter(self.succ[x]))]
            seen.add(x)
            while stack:
                y, it = stack[-1]
                for z in it:
                    if z not in seen:
                        seen.add(z)
                        stack.append((z, iter(self.succ[z])))
                        break
                else:
                    order.append(y)
                    stack.pop()
        dfs(0)
        rpo = order[::-1]
        pred = {x: [] for x in reach}
        for x in reach:
            for y in self.succ[x]:
                pred[y].append(x)
        self.pred = pred
        dom = {x: set(reach) for x in reach}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for x in rpo:
                if x == 0:
                    continue
                ps = [dom[p] for p in pred[x]]
                nd = set.intersection(*ps) | {x} if ps else {x}
                if nd != dom[x]:
                    dom[x] = nd
                    ch = True
        self.dom = dom
        self.headers = set()
        self.loop_body = {}
        for x in reach:
            for y in self.succ[x]:
                if y in dom[x]:
                    self.headers.add(y)
                    body_ = self.loop_body.setdefault(y, {y})
                    st = [x]
                    while st:
                        z = st.pop()
                        if z in body_:
                            continue
                        body_.add(z)
                        st += pred[z]
        self.loop_exits = {}
        # blocks from which the function can return
        canret = set(i for i in reach if bl[i]['term']['t'] == 'return')
        work = list(canret)
        while work:
            x = work.pop()
            for p in pred[x]:
                if p not in canret:
                    canret.add(p)
                    work.append(p)
        self.canret = canret
        # a loop without any way out still runs; treat its blocks as live
        for h, lb in self.loop_body.items():
            self.loop_exits[h] = {y for x in lb for y in self.succ[x] if y not in lb}
        # post-dominators over blocks that can return (virtual exit: 'ret')
        EX = 'ret'
        nodes_ = [x for x in rpo if x in canret]
        pd = {x: set(nodes_) | {EX} for x in nodes_}
        pd[EX] = {EX}
        ch = True
        while ch:
            ch = False
            for x in reversed(nodes_):
                ss = [s for s in self.succ[x] if s in canret]
                if bl[x]['term']['t'] == 'return':
                    ss = [EX]
                sets = [pd[s] for s in ss]
                nd = (set.intersection(*sets) if sets else set()) | {x}
                if nd != pd[x]:
                    pd[x] = nd
                    ch = True
        self.pd = pd
        self.ipdom = {}
        for x in nodes_:
            cands = pd[x] - {x}
            best = None
            for c in cands:
                if all(c2 == c or c2 in pd[c] for c2 in cands):
                    best = c
            self.ipdom[x] = None if best == EX else best

    def dead(self, b):
        return b not in self.canret

    def truly_unreachable(self, b):
        return self.blocks[b]['term']['t'] == 'unreachable' and not self.blocks[b]['st']

    def same_loop(self, b, j, active):
        return all((j in self.loop_body[h]) for h in active if b in self.loop_body.get(h, ()))


def succs(t):
    k = t['t']
    if k in ('goto', 'drop', 'assert'):
        return [t['to']]
    if k == 'call':
        return [t['to']] if t.get('to') is not None else []
    if k == 'switch':
        return [x[1] for x in t['cases']] + [t['else']]
    return []
