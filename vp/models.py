"""Abstract semantics of the library functions (core, alloc, special, random) that the crate calls."""
from .graph import *
from .interp import *
from .graph import call as fcall

MATH1 = {'exp', 'ln', 'ln_1p', 'exp_m1', 'sqrt', 'abs', 'floor', 'trunc', 'round', 'ceil', 'atan', 'tan', 'sin', 'cos', 'asin', 'acos',
         'sinh', 'cosh', 'tanh', 'exp2', 'log2', 'log10', 'cbrt', 'fract', 'signum', 'asinh', 'acosh', 'atanh', 'to_degrees', 'to_radians'}
MATH2 = {'powf', 'powi', 'min', 'max', 'atan2', 'hypot', 'copysign', 'log', 'rem_euclid', 'div_euclid', 'minimum', 'maximum'}
OPT = 'core::option::Option'
ORD = 'core::cmp::Ordering'


def some(v):
    return Enum(OPT, I(1, 'isize'), {0: (), 1: (v,)})


def none():
    return Enum(OPT, I(0, 'isize'), {0: (), 1: (None,)})


def opt(c, v):
    return Enum(OPT, ite(c, I(1, 'isize'), I(0, 'isize')), {0: (), 1: (v,)})


def it(items):
    return Agg('iter', None, [Agg('tuple', None, x) for x in items])


def items_of(v):
    return [(x.f[0], x.f[1]) for x in v.f]


def lift(v, f):
    """apply f below choices"""
    if isinstance(v, Choice):
        return merge(v.c, lift(v.a, f), lift(v.b, f))
    return f(v)


def deep(ip, st, v):
    while isinstance(v, (Ref,)) or (isinstance(v, Choice) and isinstance(v.a, (Ref, Choice))):
        v = ip.read(st, v)
    return v


def scalar(ip, st, v):
    v = deep(ip, st, v)
    if not isinstance(v, N):
        raise Unsupported('scalar expected, got %r' % (v,))
    return v


def mathf(name, a):
    if name == 'recip':
        return fop('div', F(1.0), a[0])
    if name == 'abs' and isc(a[0]):
        return F(abs(cv(a[0])))
    if name == 'to_bits':
        return fcall('to_bits', *a, ty='u64')
    if name == 'mul_add':
        return fop('add', fop('mul', a[0], a[1]), a[2])
    if name in ('is_nan',):
        return mk('isnan', (a[0],), 'bool')
    if name == 'is_finite':
        return mk('isfinite', (a[0],), 'bool')
    if name == 'is_infinite':
        return and_(not_(mk('isfinite', (a[0],), 'bool')), not_(mk('isnan', (a[0],), 'bool')))
    if name in ('is_sign_negative', 'is_sign_positive'):
        return mk(name, (a[0],), 'bool')
    if name == 'clamp':
        return fcall('max', a[1], fcall('min', a[0], a[2]))
    if name == 'sin_cos':
        return Agg('tuple', None, (fcall('sin', a[0]), fcall('cos', a[0])))
    if name == 'total_cmp':
        raise Unsupported('total_cmp')
    if name in MATH1:
        return fcall(name, a[0])
    if name in MATH2:
        return fcall(name, a[0], a[1])
    raise Unsupported('float function ' + name)


def intf(ip, fr, st, name, a, sp):
    x = a[0]
    ty = x.ty
    if name in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        v = iop(name[9:], a[0], a[1], ty)
        return v if isc(v) else mk(name, tuple(a), ty)
    if name in ('saturating_sub',):
        return ite(cmp('lt', a[0], a[1]), I(0, ty), iop('sub', a[0], a[1], ty))
    if name in ('saturating_add',):
        return iop('add', a[0], a[1], ty)
    if name in ('checked_sub',):
        return opt(not_(cmp('lt', a[0], a[1])), iop('sub', a[0], a[1], ty))
    if name == 'checked_add':
        return opt(TRUE, iop('add', a[0], a[1], ty))
    if name == 'min':
        return ite(cmp('lt', a[1], a[0]), a[1], a[0])
    if name == 'max':
        return ite(cmp('lt', a[1], a[0]), a[0], a[1])
    if name == 'is_multiple_of':
        return cmp('eq', iop('rem', a[0], a[1], ty), I(0, ty))
    if name == 'pow' and isc(a[1]):
        r = I(1, ty)
        for _ in range(cv(a[1])):
            r = iop('mul', r, a[0], ty)
        return r
    if name in ('wrapping_shr', 'wrapping_shl'):
        return iop('shr' if name.endswith('r') else 'shl', a[0], a[1], ty)
    if name in ('abs_diff',):
        return ite(cmp('lt', a[0], a[1]), iop('sub', a[1], a[0], ty), iop('sub', a[0], a[1], ty))
    if name in ('trailing_zeros', 'leading_zeros', 'count_ones', 'swap_bytes', 'rotate_left', 'rotate_right', 'to_le', 'to_be', 'reverse_bits'):
        return mk('fn:' + name, tuple(a), 'u32' if 'zeros' in name or 'ones' in name else ty)
    raise Unsupported('integer function ' + name)


def eq_val(ip, st, a, b):
    a, b = deep(ip, st, a), deep(ip, st, b)
    if isinstance(a, N) and isinstance(b, N):
        return cmp('eq', a, b)
    if isinstance(a, Choice):
        return ite(a.c, eq_val(ip, st, a.a, b), eq_val(ip, st, a.b, b))
    if isinstance(b, Choice):
        return ite(b.c, eq_val(ip, st, a, b.a), eq_val(ip, st, a, b.b))
    if isinstance(a, Enum) and isinstance(b, Enum):
        r = cmp('eq', a.d, b.d)
        for k in set(a.v) & set(b.v):
            for x, y in zip(a.v[k], b.v[k]):
                if x is not None and y is not None:
                    r = and_(r, or_(not_(cmp('eq', a.d, I(k, a.d.ty))), eq_val(ip, st, x, y)))
        return r
    if isinstance(a, Agg) and isinstance(b, Agg):
        if len(a.f) != len(b.f):
            return FALSE
        r = TRUE
        for x, y in zip(a.f, b.f):
            r = and_(r, eq_val(ip, st, x, y))
        return r
    raise Unsupported('equality of %r' % (a,))


def to_items(ip, fr, st, v):
    """the items an iterable value yields: list of (condition, value)"""
    if isinstance(v, Agg) and v.kind == 'iter':
        return items_of(v)
    if isinstance(v, Agg) and v.kind == 'adt' and v.tag == 'core::ops::Range':
        lo, hi = v.f[0], v.f[1]
        if isc(lo) and isc(hi) and cv(hi) - cv(lo) <= 4096:
            return [(TRUE, I(i, lo.ty)) for i in range(cv(lo), cv(hi))]
        raise Unsupported('iteration over a symbolic range')
    if isinstance(v, Agg) and v.kind == 'adt' and v.tag == 'core::ops::RangeInclusive':
        lo, hi = v.f[0], v.f[1]
        if isc(lo) and isc(hi) and cv(hi) - cv(lo) <= 4096:
            return [(TRUE, I(i, lo.ty)) for i in range(cv(lo), cv(hi) + 1)]
        raise Unsupported('iteration over a symbolic range')
    if isinstance(v, Agg) and v.kind in ('vec', 'array'):
        return [(TRUE, x) for x in v.f]
    if isinstance(v, Enum) and v.tag == OPT:
        return [(cmp('eq', v.d, I(1, 'isize')), v.v[1][0])]
    if isinstance(v, (Ref, Slice)):
        if isinstance(v, Ref):
            tgt = ip.read(st, v)
            if isinstance(tgt, Agg) and tgt.kind in ('iter', 'adt'):
                return to_items(ip, fr, st, tgt)
            if isinstance(tgt, (Ref, Slice)):
                return to_items(ip, fr, st, tgt)
        n = ip.length(st, v)
        if isc(n):
            return [(TRUE, ip.elem(v, I(i))) for i in range(cv(n))]
        raise Unsupported('iteration over a slice of symbolic length')
    raise Unsupported('iteration over %r' % (v,))


def run_closure(ip, fr, st, clo, args, cond=TRUE):
    """call under a condition; returns (state, value); the state is merged with the one where the call does not happen"""
    s = st.assume(cond)
    s2, v = ip.call_closure(fr, s, clo, args)
    if s2 is None or v is None:
        return None, None
    v = ip.settle(v)
    if isc(cond) and cv(cond):
        return s2, v
    return merge_state(cond, s2, st), v


def consume(ip, fr, st, name, src, args):
    """terminal iterator operations"""
    its = to_items(ip, fr, st, src)
    if name == 'fold':
        acc, clo = args[0], args[1]
        for c, x in its:
            if c is FALSE:
                continue
            st, v = run_closure(ip, fr, st, clo, [acc, x], c)
            acc = merge(c, v, acc)
        return st, acc
    if name in ('sum', 'product'):
        acc = None
        for c, x in its:
            x = scalar(ip, st, x)
            if acc is None:
                zero = (F(-0.0 if name == 'sum' else 1.0) if x.ty == 'f64' else I(0 if name == 'sum' else 1, x.ty))
                acc = zero if c is not TRUE else None
            if acc is None:
                acc = x
                continue
            op = 'add' if name == 'sum' else 'mul'
            v = fop(op, acc, x) if x.ty == 'f64' else iop(op, acc, x, x.ty)
            acc = merge(c, v, acc)
        return st, acc if acc is not None else F(0.0)
    if name in ('all', 'any'):
        clo = args[0]
        r = FALSE if name == 'any' else TRUE
        live = TRUE
        for c, x in its:
            cond = and_(live, c)
            if cond is FALSE:
                continue
            st, v = run_closure(ip, fr, st, clo, [x], cond)
            if name == 'any':
                r = or_(r, and_(cond, v))
                live = and_(live, not_(and_(c, v)))
            else:
                r = and_(r, or_(not_(c), v))
                live = and_(live, or_(not_(c), v))
        return st, r
    if name in ('position', 'rposition', 'find', 'find_map'):
        clo = args[0]
        seq = list(enumerate(its))
        if name == 'rposition':
            seq.reverse()
        live = TRUE
        found = []
        cnt = I(0)
        for i, (c, x) in seq:
            cond = and_(live, c)
            if cond is FALSE:
                continue
            arg = x
            if name == 'find':
                arg = ip.new_cell(st, x)
            st, v = run_closure(ip, fr, st, clo, [arg], cond)
            if name == 'find_map':
                hit = cmp('eq', v.d, I(1, 'isize'))
                found.append((and_(cond, hit), v.v[1][0]))
                live = and_(live, not_(and_(c, hit)))
                continue
            if name == 'find':
                found.append((and_(cond, v), x))
            elif name == 'rposition':
                if any(cc is not TRUE for cc, _ in its):
                    raise Unsupported('rposition over a filtered iterator')
                found.append((and_(cond, v), I(i)))
            else:
                found.append((and_(cond, v), cnt))
            cnt = ite(c, iop('add', cnt, I(1), 'usize'), cnt)
            live = and_(live, not_(and_(c, v)))
        val = None
        d = FALSE
        for c, x in reversed(found):
            val = x if val is None else merge(c, x, val)
            d = or_(c, d)
        if val is None:
            return st, none()
        return st, opt(d, val)
    if name == 'count':
        n = I(0)
        for c, x in its:
            n = iop('add', n, ite(c, I(1), I(0)), 'usize')
        return st, n
    if name == 'last':
        val, d = None, FALSE
        for c, x in its:
            val = x if val is None else merge(c, x, val)
            d = or_(d, c)
        return st, (none() if val is None else opt(d, val))
    if name == 'for_each':
        for c, x in its:
            if c is FALSE:
                continue
            st, v = run_closure(ip, fr, st, args[0], [x], c)
        return st, UNIT
    if name in ('max_by', 'min_by'):
        val, d = None, FALSE
        for c, x in its:
            if c is not TRUE:
                raise Unsupported(name)
            if val is None:
                val, d = x, TRUE
                continue
            ra, rb = ip.new_cell(st, val), ip.new_cell(st, x)
            st, o = run_closure(ip, fr, st, args[0], [ra, rb])
            gt = cmp('eq', o.d, I(1, o.d.ty))
            lt_ = cmp('eq', o.d, I(-1, o.d.ty))
            val = merge(gt, val, x) if name == 'max_by' else merge(gt, x, val)
        return st, (none() if val is None else opt(d, val))
    if name in ('max', 'min'):
        val = None
        for c, x in its:
            if c is not TRUE:
                raise Unsupported(name)
            x = scalar(ip, st, x)
            if val is None:
                val = x
            elif name == 'max':
                val = ite(cmp('lt', x, val), val, x)
            else:
                val = ite(cmp('lt', x, val), x, val)
        return st, (none() if val is None else some(val))
    raise Unsupported('iterator method ' + name)


def adapt(ip, fr, st, name, src, args):
    its = to_items(ip, fr, st, src)
    if name == 'map':
        out = []
        for c, x in its:
            if c is FALSE:
                continue
            st, v = run_closure(ip, fr, st, args[0], [x], c)
            out.append((c, v))
        return st, it(out)
    if name == 'filter':
        out = []
        for c, x in its:
            st = st.copy()
            r = ip.new_cell(st, x)
            st, v = run_closure(ip, fr, st, args[0], [r], c)
            out.append((and_(c, v), x))
        return st, it([x for x in out if x[0] is not FALSE])
    if name in ('take_while', 'skip_while', 'map_while'):
        out = []
        live = TRUE
        for c, x in its:
            st = st.copy()
            r = ip.new_cell(st, x)
            st, v = run_closure(ip, fr, st, args[0], [r], and_(live, c))
            if name == 'take_while':
                live = and_(live, or_(not_(c), v))
                out.append((and_(c, live), x))
            elif name == 'skip_while':
                live = and_(live, or_(not_(c), v))
                out.append((and_(c, not_(live)), x))
            else:
                raise Unsupported('map_while')
        return st, it(out)
    if name == 'enumerate':
        out, n = [], I(0)
        for c, x in its:
            out.append((c, Agg('tuple', None, (n, x))))
            n = iop('add', n, ite(c, I(1), I(0)), 'usize')
        return st, it(out)
    if name == 'rev':
        return st, it(list(reversed(its)))
    if name in ('cloned', 'copied'):
        return st, it([(c, ip.read(st, x)) for c, x in its])
    if name in ('skip', 'take', 'step_by'):
        if any(c is not TRUE for c, _ in its) or not isc(args[0]):
            raise Unsupported(name)
        k = cv(args[0])
        return st, it(its[k:] if name == 'skip' else its[:k] if name == 'take' else its[::k])
    if name == 'zip':
        b = to_items(ip, fr, st, args[0])
        if any(c is not TRUE for c, _ in its + b):
            raise Unsupported('zip of filtered iterators')
        return st, it([(TRUE, Agg('tuple', None, (x[1], y[1]))) for x, y in zip(its, b)])
    if name == 'chain':
        return st, it(its + to_items(ip, fr, st, args[0]))
    if name == 'scan':
        out = []
        st = st.copy()
        cell = ip.new_cell(st, args[0])
        live = TRUE
        for c, x in its:
            st, v = run_closure(ip, fr, st, args[1], [cell, x], and_(live, c))
            hit = cmp('eq', v.d, I(1, 'isize'))
            out.append((and_(and_(live, c), hit), v.v[1][0]))
            live = and_(live, or_(not_(c), hit))
        return st, it([o for o in out if o[0] is not FALSE])
    if name in ('by_ref', 'fuse', 'peekable', 'into_iter'):
        return st, it(its)
    if name in ('filter_map',):
        out = []
        for c, x in its:
            st, v = run_closure(ip, fr, st, args[0], [x], c)
            out.append((and_(c, cmp('eq', v.d, I(1, 'isize'))), v.v[1][0]))
        return st, it([o for o in out if o[0] is not FALSE])
    if name in ('inspect',):
        return st, it(its)
    raise Unsupported('iterator adaptor ' + name)


CONSUME = {'fold', 'sum', 'product', 'all', 'any', 'position', 'rposition', 'find', 'find_map', 'count', 'last', 'for_each', 'max_by', 'min_by', 'max', 'min'}
ADAPT = {'map', 'filter', 'take_while', 'skip_while', 'enumerate', 'rev', 'cloned', 'copied', 'skip', 'take', 'step_by', 'zip', 'chain', 'scan',
         'by_ref', 'fuse', 'filter_map', 'inspect', 'peekable'}


def collect(its):
    vals = []
    def rec(k, acc):
        if k == len(its):
            return Agg('vec', None, acc)
        c, x = its[k]
        if c is TRUE:
            return rec(k + 1, acc + [x])
        if c is FALSE:
            return rec(k + 1, acc)
        return merge(c, rec(k + 1, acc + [x]), rec(k + 1, acc))
    return rec(0, [])


def range_bounds(v, n):
    if v.kind == 'adt':
        t = (v.tag or '').split('::')[-1]
        if t == 'Range':
            return v.f[0], v.f[1]
        if t == 'RangeFrom':
            return v.f[0], n
        if t == 'RangeTo':
            return I(0), v.f[0]
        if t == 'RangeInclusive':
            return v.f[0], iop('add', v.f[1], I(1), 'usize')
        if t == 'RangeToInclusive':
            return I(0), iop('add', v.f[0], I(1), 'usize')
        if t == 'RangeFull':
            return I(0), n
    raise Unsupported('range index %r' % (v,))


def index(ip, fr, st, base, idx, sp):
    if isinstance(base, Ref):
        t = ip.read(st, base)
        if isinstance(t, (Ref, Slice)):
            base = t
    n = ip.length(st, base)
    if isinstance(idx, N):
        bad = not_(cmp('lt', idx, n))
        if ip.known(st, bad) is True:
            bad = TRUE
        if bad is not FALSE and ip.known(st, bad) is not False:
            ip.obligation('BoundsCheck', st, bad, fr, sp, '', [n, idx])
            if bad is TRUE:
                return None
        return ip.elem(base, idx)
    lo, hi = range_bounds(idx, n)
    bad = or_(cmp('lt', hi, lo), cmp('lt', n, hi))
    if ip.known(st, bad) is True:
        bad = TRUE
    if bad is not FALSE and ip.known(st, bad) is not False:
        ip.obligation('BoundsCheck', st, bad, fr, sp, '', [n, lo, hi])
        if bad is TRUE:
            return None
    return ip.subslice(base, lo, hi)


def next_item(ip, fr, st, ref, back=False):
    v = ip.read(st, ref)

    def step(v):
        """-> (new iterator value, Option)"""
        if isinstance(v, Choice):
            a, b = step(v.a), step(v.b)
            return merge(v.c, a[0], b[0]), merge(v.c, a[1], b[1])
        if isinstance(v, Ref):
            raise Unsupported('next on reference')
        if isinstance(v, Agg) and v.kind == 'adt' and v.tag in ('core::ops::Range',):
            lo, hi = v.f
            c = cmp('lt', lo, hi)
            if back:
                h2 = iop('sub', hi, I(1, hi.ty), hi.ty)
                return Agg('adt', v.tag, (lo, ite(c, h2, hi))), opt(c, h2)
            return Agg('adt', v.tag, (ite(c, iop('add', lo, I(1, lo.ty), lo.ty), lo), hi)), opt(c, lo)
        if isinstance(v, Agg) and v.kind == 'adt' and v.tag in ('core::ops::RangeInclusive',):
            lo, hi, ex = v.f
            c = and_(not_(ex), not_(cmp('lt', hi, lo)))
            last = cmp('eq', lo, hi)
            if back:
                nh = ite(and_(c, not_(last)), iop('sub', hi, I(1, hi.ty), hi.ty), hi)
                return Agg('adt', v.tag, (lo, nh, or_(ex, and_(c, last)))), opt(c, hi)
            nl = ite(and_(c, not_(last)), iop('add', lo, I(1, lo.ty), lo.ty), lo)
            return Agg('adt', v.tag, (nl, hi, or_(ex, and_(c, last)))), opt(c, lo)
        if isinstance(v, Agg) and v.kind == 'iter':
            its = items_of(v)
            if not its:
                return v, none()
            if all(c is TRUE for c, _ in its):
                if back:
                    return it(its[:-1]), some(its[-1][1])
                return it(its[1:]), some(its[0][1])
            if back:
                raise Unsupported('next_back of a filtered iterator')
            c, x = its[0]
            rv, ro = step(it(its[1:]))
            if c is TRUE:
                return it(its[1:]), some(x)
            return merge(c, it(its[1:]), rv), merge(c, some(x), ro)
        if isinstance(v, Agg) and v.kind in ('array', 'vec'):
            raise Unsupported('next on array')
        raise Unsupported('next on %r' % (v,))
    if isinstance(v, Ref):
        return next_item(ip, fr, st, v, back)
    nv, o = step(v)
    ip.write(st, ref, nv)
    return o


def draw(ip, st, ref, ty):
    while True:
        v = ip.read(st, ref)
        if isinstance(v, Ref):
            ref = v
        else:
            break
    tok = v
    if not (isinstance(tok, N) and tok.ty == 'rng'):
        raise Unsupported('reading from %r' % (tok,))
    st = st.copy()
    ip.write(st, ref, mk('adv', (tok, ty), 'rng'))
    return st, mk('draw', (tok,), ty)


def call(ip, fr, st, o, args, t):
    path, name = o['path'], o['name']
    tr = o.get('trait')
    sp = t.get('sp')
    st = st.copy()
    # ---- randomness
    if tr in ('random::Source', 'random::Value') or path.startswith('random::'):
        if name == 'read':
            ty = [a for a in o.get('args', []) if not a.startswith("'")][-1]
            ty = ip.resolve_ty(fr, ty)
            if path == 'random::Value::read' or tr == 'random::Value':
                ty = ip.resolve_ty(fr, o.get('self_ty'))
            if ty == 'f32':
                st, d = draw(ip, st, args[0], 'f64')
                return st, single(d)
            if ty == 'f64' or is_int(ty) or ty == 'bool':
                return draw(ip, st, args[0], ty)
        if name == 'read_u64':
            return draw(ip, st, args[0], 'u64')
        if name == 'read_f64':
            return draw(ip, st, args[0], 'f64')
        raise Unsupported(path)
    # ---- special functions and float primitives
    if tr == 'special::Primitive' or path.startswith('core::f64::<impl f64>') or path.startswith('std::f64::<impl f64>') or path.startswith('core::num::<impl f64>'):
        return st, mathf(name, [scalar(ip, st, a) if not isinstance(a, N) else a for a in args])
    if tr in ('special::Beta', 'special::Gamma', 'special::Error'):
        a = [scalar(ip, st, x) for x in args]
        nm = {'error': 'erf', 'compl_error': 'erfc', 'inv_error': 'inv_erf'}.get(name, name)
        if nm == 'ln_gamma':
            return st, Agg('tuple', None, (mk('fn:ln_gamma', tuple(a), 'f64'), mk('fn:sgn_gamma', tuple(a), 'i32')))
        return st, mk('fn:' + nm, tuple(a), 'f64')
    # ---- operators on scalars and references
    if tr and tr.startswith('core::ops::') and len(args) in (1, 2):
        op = tr.split('::')[-1]
        m = {'Add': 'Add', 'Sub': 'Sub', 'Mul': 'Mul', 'Div': 'Div', 'Rem': 'Rem', 'BitAnd': 'BitAnd', 'BitOr': 'BitOr', 'BitXor': 'BitXor', 'Shl': 'Shl', 'Shr': 'Shr'}
        if op in m:
            a, b = scalar(ip, st, args[0]), scalar(ip, st, args[1])
            return st, ip.binop(fr, st, m[op], a, b, a.ty)
        if op.endswith('Assign') and op[:-6] in m:
            a, b = scalar(ip, st, args[0]), scalar(ip, st, args[1])
            ip.write(st, args[0], ip.binop(fr, st, m[op[:-6]], a, b, a.ty))
            return st, UNIT
        if op == 'Neg':
            a = scalar(ip, st, args[0])
            return st, fneg(a) if a.ty == 'f64' else iop('sub', I(0, a.ty), a, a.ty)
        if op == 'Not':
            return st, not_(scalar(ip, st, args[0]))
        if op in ('Fn', 'FnMut', 'FnOnce'):
            r = ip.call_closure(fr, st, args[0], list(args[1].f))
            return r if r[0] is not None else None
        if op in ('Index', 'IndexMut'):
            r = index(ip, fr, st, args[0], args[1], sp)
            return None if r is None else (st, r)
        if op in ('Deref', 'DerefMut'):
            return st, args[0]
    if tr == 'core::cmp::PartialOrd' or tr == 'core::cmp::PartialEq' or tr == 'core::cmp::Ord':
        if name in ('eq', 'ne'):
            r = eq_val(ip, st, args[0], args[1])
            return st, r if name == 'eq' else not_(r)
        a, b = scalar(ip, st, args[0]), scalar(ip, st, args[1])
        if name in ('lt', 'le', 'gt', 'ge'):
            return st, cmp(name, a, b)
        lt_, eq_ = cmp('lt', a, b), cmp('eq', a, b)
        d = ite(lt_, I(-1, 'i8'), ite(eq_, I(0, 'i8'), I(1, 'i8')))
        ordv = Enum(ORD, d, {-1: (), 0: (), 1: ()})
        if name == 'partial_cmp':
            if a.ty == 'f64':
                bad = or_(mk('isnan', (a,), 'bool'), mk('isnan', (b,), 'bool'))
                return st, opt(not_(bad), ordv)
            return st, some(ordv)
        if name == 'cmp':
            return st, ordv
        if name in ('min', 'max') and a.ty != 'f64':
            return st, intf(ip, fr, st, name, [a, b], sp)
    if path.startswith('core::cmp::') and name in ('min', 'max') and len(args) == 2:
        return st, intf(ip, fr, st, name, [scalar(ip, st, a) for a in args], sp)
    if path.startswith('core::num::<impl ') or (path.startswith('core::') and '<impl u' in path):
        return st, intf(ip, fr, st, name, [scalar(ip, st, a) for a in args], sp)
    # ---- ranges
    if name == 'new' and 'RangeInclusive' in path:
        return st, Agg('adt', 'core::ops::RangeInclusive', (args[0], args[1], FALSE))
    if name == 'contains' and 'Range' in path:
        r = deep(ip, st, args[0])
        x = scalar(ip, st, args[1])
        tg = (r.tag or '').split('::')[-1]
        f = [scalar(ip, st, v) if i < 2 else v for i, v in enumerate(r.f)]
        if tg == 'RangeInclusive':
            return st, and_(cmp('le', f[0], x), cmp('le', x, f[1]))
        if tg == 'Range':
            return st, and_(cmp('le', f[0], x), cmp('lt', x, f[1]))
        if tg == 'RangeFrom':
            return st, cmp('le', f[0], x)
        if tg == 'RangeTo':
            return st, cmp('lt', x, f[0])
        if tg == 'RangeToInclusive':
            return st, cmp('le', x, f[0])
    if name == 'contains' and ('slice' in path or '[T]' in path):
        its = to_items(ip, fr, st, args[0])
        r = FALSE
        for c, x in its:
            r = or_(r, eq_val(ip, st, x, args[1]))
        return st, r
    # ---- boxes and vectors
    if 'Box' in path and name == 'new_uninit':
        r = ip.new_cell(st, Agg('tuple', None, (None, Agg('tuple', None, (None,)))), 'box')
        return st, Agg('box', None, (r,))
    if name == 'box_assume_init_into_vec_unsafe':
        v = ip.read(st, args[0].f[0])
        return st, Agg('vec', None, v.f[1].f[0].f)
    if name == 'into_vec':
        v = ip.read(st, args[0].f[0]) if isinstance(args[0], Agg) and args[0].kind == 'box' else ip.read(st, args[0])
        return st, Agg('vec', None, v.f)
    if 'vec::Vec' in path or 'slice::<impl [T]>' in path or path.startswith('alloc::vec') or 'core::array' in path or 'slice::' in path:
        if name in ('new', 'with_capacity'):
            return st, Agg('vec', None, ())
        if name == 'from_elem':
            n = scalar(ip, st, args[1])
            if isc(n) and cv(n) <= 256:
                return st, Agg('vec', None, [args[0]] * cv(n))
            raise Unsupported('vec![_; n]')
        if name in ('len',):
            return st, ip.length(st, args[0])
        if name == 'is_empty':
            return st, cmp('eq', ip.length(st, args[0]), I(0))
        if name == 'push':
            v = ip.read(st, args[0])
            ip.write(st, args[0], lift(v, lambda a: Agg('vec', None, a.f + (args[1],))))
            return st, UNIT
        if name == 'pop':
            v = ip.read(st, args[0])
            if isinstance(v, Agg):
                if not v.f:
                    return st, none()
                ip.write(st, args[0], Agg('vec', None, v.f[:-1]))
                return st, some(v.f[-1])
        if name == 'clear':
            ip.write(st, args[0], Agg('vec', None, ()))
            return st, UNIT
        if name in ('truncate',) and isc(args[1]):
            v = ip.read(st, args[0])
            ip.write(st, args[0], lift(v, lambda a: Agg('vec', None, a.f[:cv(args[1])])))
            return st, UNIT
        if name == 'dedup':
            v = ip.read(st, args[0])
            if isinstance(v, Agg):
                out = []
                for x in v.f:
                    e = eq_val(ip, st, out[-1], x) if out else FALSE
                    if e is not TRUE and e is not FALSE:
                        e = {True: TRUE, False: FALSE}.get(ip.oracle(e) if getattr(ip, 'oracle', None) else None)
                        if e is None:
                            raise Unsupported('dedup')
                    if e is FALSE:
                        out.append(x)
                ip.write(st, args[0], Agg('vec', None, out))
                return st, UNIT
        if name in ('reverse',):
            v = ip.read(st, args[0])
            ip.write(st, args[0], lift(v, lambda a: Agg(a.kind, None, tuple(reversed(a.f)))))
            return st, UNIT
        if name in ('reserve', 'shrink_to_fit'):
            return st, UNIT
        if name in ('to_vec', 'into_vec', 'to_owned'):
            v = ip.read(st, args[0])
            return st, lift(v, lambda a: Agg('vec', None, a.f))
        if name in ('as_slice', 'as_mut_slice', 'as_ref', 'as_mut'):
            return st, args[0]
        if name in ('iter', 'iter_mut'):
            return st, it(to_items(ip, fr, st, args[0]))
        if name in ('extend_from_slice',):
            v = ip.read(st, args[0])
            w = [ip.read(st, x) for _, x in to_items(ip, fr, st, args[1])]
            ip.write(st, args[0], lift(v, lambda a: Agg('vec', None, a.f + tuple(w))))
            return st, UNIT
        if name in ('first', 'last'):
            n = ip.length(st, args[0])
            if isc(n):
                return st, (none() if cv(n) == 0 else some(ip.elem(args[0], I(0 if name == 'first' else cv(n) - 1))))
        if name in ('get', 'get_mut') and isinstance(args[1], N):
            n = ip.length(st, args[0])
            ok = cmp('lt', args[1], n)
            if ok is FALSE:
                return st, none()
            return st, opt(ok, ip.elem(args[0], args[1]))
        if name == 'swap' and isc(args[1]) and isc(args[2]):
            a, b = ip.elem(args[0], args[1]), ip.elem(args[0], args[2])
            x, y = ip.read(st, a), ip.read(st, b)
            ip.write(st, a, y)
            ip.write(st, b, x)
            return st, UNIT
        if name == 'fill':
            for _, x in to_items(ip, fr, st, args[0]):
                ip.write(st, x, args[1])
            return st, UNIT
        if name in ('copy_from_slice', 'clone_from_slice'):
            for (_, x), (_, y) in zip(to_items(ip, fr, st, args[0]), to_items(ip, fr, st, args[1])):
                ip.write(st, x, ip.read(st, y))
            return st, UNIT
        if name == 'windows' and isc(args[1]):
            n = ip.length(st, args[0])
            if isc(n):
                return st, it([(TRUE, ip.subslice(args[0], I(i), I(i + cv(args[1])))) for i in range(0, cv(n) - cv(args[1]) + 1)])
        if name in ('split_at', 'split_at_mut'):
            n = ip.length(st, args[0])
            return st, Agg('tuple', None, (ip.subslice(args[0], I(0), args[1]), ip.subslice(args[0], args[1], n)))
        if name in ('split_first', 'split_last'):
            n = ip.length(st, args[0])
            if isc(n) and cv(n) > 0:
                if name == 'split_first':
                    return st, some(Agg('tuple', None, (ip.elem(args[0], I(0)), ip.subslice(args[0], I(1), n))))
                return st, some(Agg('tuple', None, (ip.elem(args[0], I(cv(n) - 1)), ip.subslice(args[0], I(0), I(cv(n) - 1)))))
        if name == 'partition_point':
            its = to_items(ip, fr, st, args[0])
            n = I(0)
            live = TRUE
            for c, x in its:
                st, v = run_closure(ip, fr, st, args[1], [x], live)
                live = and_(live, v)
                n = ite(live, iop('add', n, I(1), 'usize'), n)
            return st, n
    if tr == 'core::clone::Clone' and name == 'clone':
        v = ip.read(st, args[0])
        return st, v
    if tr in ('core::borrow::Borrow', 'core::convert::AsRef', 'core::convert::AsMut', 'core::borrow::BorrowMut') and name in ('borrow', 'as_ref', 'as_mut', 'borrow_mut'):
        return st, args[0]
    if tr in ('core::convert::From', 'core::convert::Into'):
        if name in ('from', 'into'):
            v = args[0]
            dty = ip.resolve_ty(fr, t.get('dty'))
            if isinstance(v, N) and dty == 'f64':
                return st, ip.cast_val(st, v, 'IntToFloat', 'f64', v.ty) if is_int(v.ty) else v
            if isinstance(v, N) and is_int(dty or ''):
                return st, ip.cast_val(st, v, 'IntToInt', dty, v.ty)
            if isinstance(v, Ref) or (isinstance(v, Agg) and v.kind in ('array', 'vec')):
                w = ip.read(st, v) if isinstance(v, Ref) else v
                if isinstance(w, Agg) and w.kind in ('array', 'vec'):
                    return st, Agg('vec', None, w.f)
            return st, v
    if tr == 'core::default::Default':
        dty = ip.resolve_ty(fr, t.get('dty')) or ''
        if dty == 'f64':
            return st, F(0.0)
        if is_int(dty):
            return st, I(0, dty)
        if dty.startswith('alloc::vec::Vec'):
            return st, Agg('vec', None, ())
    # ---- iterators
    if tr == 'core::iter::IntoIterator' and name == 'into_iter':
        v = args[0]
        if isinstance(v, Agg) and (v.kind == 'iter' or v.tag in ('core::ops::Range', 'core::ops::RangeInclusive')):
            return st, v
        if isinstance(v, Ref):
            tgt = ip.read(st, v)
            if isinstance(tgt, Agg) and (tgt.kind == 'iter' or tgt.tag in ('core::ops::Range', 'core::ops::RangeInclusive')):
                return st, v
        return st, it(to_items(ip, fr, st, v))
    if tr in ('core::iter::Iterator', 'core::iter::DoubleEndedIterator', 'core::iter::ExactSizeIterator'):
        if name in ('next', 'next_back'):
            return st, next_item(ip, fr, st, args[0], name == 'next_back')
        src = args[0]
        if isinstance(src, Ref):
            tgt = ip.read(st, src)
            if name == 'nth' and isc(args[1]):
                r = None
                for _ in range(cv(args[1]) + 1):
                    r = next_item(ip, fr, st, src)
                return st, r
            if name in CONSUME:
                st, v = consume(ip, fr, st, name, tgt, args[1:])
                if name in ('all', 'any', 'position', 'find') :
                    # the iterator is advanced; its rest is rarely used afterwards
                    st = st.copy()
                    ip.write(st, src, Opaque(mk('sym', ('iter-rest',), 'any')))
                return st, v
            if name in ADAPT:
                if name == 'by_ref':
                    return st, src
                return adapt(ip, fr, st, name, tgt, args[1:])
            if name == 'len':
                return st, I(len(to_items(ip, fr, st, tgt)))
        if name in CONSUME:
            return consume(ip, fr, st, name, src, args[1:])
        if name in ADAPT:
            return adapt(ip, fr, st, name, src, args[1:])
        if name == 'collect':
            return st, collect(to_items(ip, fr, st, src))
    if path.startswith('core::iter::'):
        if name == 'once':
            return st, it([(TRUE, args[0])])
        if name == 'empty':
            return st, it([])
    # ---- options
    if 'option::Option' in path:
        v = args[0]
        is_ref = isinstance(v, Ref)
        if is_ref:
            v = ip.read(st, v)
        if isinstance(v, Enum):
            has = cmp('eq', v.d, I(1, 'isize'))
            x = v.v.get(1, (None,))[0]
            if name in ('unwrap', 'expect'):
                bad = not_(has)
                if ip.known(st, bad) is True:
                    bad = TRUE
                if bad is not FALSE and ip.known(st, bad) is not False:
                    ip.obligation('unwrap', st, bad, fr, sp, t.get('macro') or '')
                    if bad is TRUE:
                        return None
                    st = st.assume(has)
                return st, x
            if name == 'unwrap_or':
                return st, merge(has, x, args[1]) if x is not None else args[1]
            if name in ('unwrap_or_else', 'map_or_else', 'map_or', 'map', 'and_then', 'or_else', 'is_some_and', 'unwrap_or_default', 'filter', 'is_none_or'):
                if name == 'unwrap_or_else':
                    if has is TRUE:
                        return st, x
                    s2, w = ip.call_closure(fr, st.assume(not_(has)), args[1], [])
                    if w is None or s2 is None:
                        return st.assume(has), x
                    if has is FALSE or x is None:
                        return s2, w
                    return merge_state(has, st, s2), merge(has, x, w)
                if name == 'map_or':
                    if has is FALSE or x is None:
                        return st, args[1]
                    s2, w = run_closure(ip, fr, st, args[2], [x], has)
                    return s2, merge(has, w, args[1])
                if name == 'map':
                    if has is FALSE or x is None:
                        return st, none()
                    s2, w = run_closure(ip, fr, st, args[1], [x], has)
                    return s2, Enum(OPT, v.d, {0: (), 1: (w,)})
                if name == 'and_then':
                    if has is FALSE or x is None:
                        return st, none()
                    s2, w = run_closure(ip, fr, st, args[1], [x], has)
                    return s2, merge(has, w, none())
                if name in ('is_some_and', 'is_none_or'):
                    if x is None:
                        return st, B(name == 'is_none_or')
                    s2, w = run_closure(ip, fr, st, args[1], [x], has)
                    return s2, and_(has, w) if name == 'is_some_and' else or_(not_(has), w)
                if name == 'map_or_else':
                    s1, w1 = run_closure(ip, fr, st, args[1], [], not_(has))
                    s2, w2 = run_closure(ip, fr, s1, args[2], [x], has)
                    return s2, merge(has, w2, w1)
            if name == 'is_some':
                return st, has
            if name == 'is_none':
                return st, not_(has)
            if name in ('copied', 'cloned'):
                return st, (v if x is None else Enum(OPT, v.d, {0: (), 1: (ip.read(st, x),)}))
            if name in ('as_ref',) and is_ref:
                return st, Enum(OPT, v.d, {0: (), 1: (ip.ext(ip.ext(args[0], ('d', 1)), ('f', 0)),)})
    if path == 'core::cmp::Ordering::is_lt':
        pass
    if path.startswith('core::cmp::Ordering::'):
        v = deep(ip, st, args[0])
        z = I(0, v.d.ty)
        m = {'is_lt': cmp('lt', v.d, z), 'is_le': cmp('le', v.d, z), 'is_gt': cmp('gt', v.d, z), 'is_ge': cmp('ge', v.d, z), 'is_eq': cmp('eq', v.d, z), 'is_ne': cmp('ne', v.d, z)}
        if name in m:
            return st, m[name]
        if name == 'reverse':
            return st, Enum(ORD, iop('sub', I(0, v.d.ty), v.d, v.d.ty), {-1: (), 0: (), 1: ()})
    if path in ('core::mem::swap', 'core::mem::replace', 'core::mem::take'):
        if name == 'swap':
            x, y = ip.read(st, args[0]), ip.read(st, args[1])
            ip.write(st, args[0], y)
            ip.write(st, args[1], x)
            return st, UNIT
        if name == 'replace':
            x = ip.read(st, args[0])
            ip.write(st, args[0], args[1])
            return st, x
    if path in ('core::hint::black_box', 'core::convert::identity'):
        return st, args[0]
    if path in ('core::hint::must_use',):
        return st, args[0]
    if path in ('core::mem::size_of', 'core::mem::align_of', 'core::mem::needs_drop'):
        # fixed for a type, but known here for the primitive ones only
        t = (o.get('args') or ['?'])[0]
        if name == 'needs_drop':
            return st, mk('sym', ('needs_drop:' + t,), 'bool')
        n = {'f64': 8, 'u64': 8, 'i64': 8, 'usize': 8, 'isize': 8, 'f32': 4, 'u32': 4, 'i32': 4, 'u16': 2, 'i16': 2, 'u8': 1, 'i8': 1, 'bool': 1, 'char': 4, 'u128': 16, 'i128': 16, '()': 0}.get(t)
        if n is not None:
            return st, I(n if name == 'size_of' or n in (1, 2, 4, 8, 16) else 1, 'usize')
        return st, mk('sym', (name + ':' + t,), 'usize')
    raise Unsupported('call of ' + path)
