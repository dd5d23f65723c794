"""Hash-consed value graph: the abstract values computed by the dataflow analysis over MIR.

A scalar is a node `N(op, args, ty)`.  Aggregates, references and sequences are Python
objects whose leaves are nodes.  Gates (`ite`) come from control-flow joins.
"""
import math, struct
from fractions import Fraction

INT_BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128,
            'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128, 'char': 32}


def is_int(ty):
    return ty in INT_BITS


def int_range(ty):
    b = INT_BITS[ty]
    if ty[0] == 'i':
        return -(1 << (b - 1)), (1 << (b - 1)) - 1
    return 0, (1 << b) - 1


class N:
    __slots__ = ('op', 'args', 'ty', 'id', 'mus', 'size')
    table = {}
    count = 0

    def __repr__(self):
        return show(self)


def fkey(v):
    return struct.pack('>d', v)


def mk(op, args, ty):
    if op == 'c' and ty == 'f64':
        key = (op, fkey(args[0]), ty)
    elif op == 'c':
        key = (op, args, ty)
    else:
        key = (op, tuple(a.id if isinstance(a, N) else ('#', a) for a in args), ty)
    n = N.table.get(key)
    if n is None:
        n = N()
        n.op, n.args, n.ty = op, args, ty
        N.count += 1
        n.id = N.count
        s = frozenset()
        if op == 'mu':
            s = frozenset([n])
        for a in args:
            if isinstance(a, N) and a.mus:
                s = s | a.mus
        if op in BINDERS:
            s = s - frozenset(a for a in args[0] if isinstance(a, N)) if isinstance(args[0], tuple) else s - frozenset([args[0]])
        n.mus = s
        n.size = 1 + sum(a.size for a in args if isinstance(a, N))
        N.table[key] = n
    return n


BINDERS = {'sum', 'first', 'exists', 'fold', 'forall'}   # args[0] is the bound variable (a mu node)


def F(x):
    return mk('c', (float(x),), 'f64')


def I(x, ty='usize'):
    return mk('c', (int(x),), ty)


def B(x):
    return mk('c', (bool(x),), 'bool')


TRUE, FALSE = B(True), B(False)


def sym(name, ty='f64'):
    return mk('sym', (name,), ty)


_mu = [0]


def mu(ty, hint=''):
    _mu[0] += 1
    return mk('mu', ('%s%d' % (hint, _mu[0]),), ty)


def isc(n):
    return isinstance(n, N) and n.op == 'c'


def cv(n):
    return n.args[0]


def not_(a):
    if isc(a):
        return B(not cv(a))
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'bool')


def and_(a, b):
    if isc(a):
        return b if cv(a) else FALSE
    if isc(b):
        return a if cv(b) else FALSE
    if a is b:
        return a
    if not_(a) is b:
        return FALSE
    return mk('and', (a, b), 'bool')


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


def ite(c, a, b):
    if isc(c):
        return a if cv(c) else b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.ty == 'bool':
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        if c is a:
            return or_(c, b)
        if c is b:
            return and_(c, a)
    # nested gates on the same condition
    if a.op == 'ite' and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == 'ite' and b.args[0] is c:
        return ite(c, a, b.args[2])
    return mk('ite', (c, a, b), a.ty)


def conjuncts(c):
    if c.op == 'and':
        return conjuncts(c.args[0]) + conjuncts(c.args[1])
    return [c]


def implied(facts, c):
    """c decided by a set of literal facts (nodes known to be true)?  True/False/None"""
    if c in facts:
        return True
    n = not_(c)
    if n in facts:
        return False
    if c.op == 'and':
        x, y = implied(facts, c.args[0]), implied(facts, c.args[1])
        if x is False or y is False:
            return False
        if x and y:
            return True
    if c.op == 'not':
        x = implied(facts, c.args[0])
        return None if x is None else (not x)
    if c.op in ('lt', 'le', 'eq') and not (c.args[0].ty == 'f64'):
        # integers: negations of strict orders
        a, b = c.args
        if c.op == 'eq' and isc(b):
            for f in facts:
                if f.op == 'eq' and f.args[0] is a and isc(f.args[1]) and cv(f.args[1]) != cv(b):
                    return False
    if c.op == 'eq' and isc(c.args[1]):
        a, b = c.args
        for f in facts:
            if f.op == 'eq' and f.args[0] is a and isc(f.args[1]) and cv(f.args[1]) != cv(b):
                return False
    return None


def wrap(v, ty):
    b = INT_BITS[ty]
    v &= (1 << b) - 1
    if ty[0] == 'i' and v >> (b - 1):
        v -= 1 << b
    return v


def cmp_(op, a, b):
    """op in lt le eq"""
    if isc(a) and isc(b):
        x, y = cv(a), cv(b)
        return B({'lt': x < y, 'le': x <= y, 'eq': x == y}[op])
    if a is b and a.ty != 'f64':
        return B(op != 'lt')
    if op == 'eq':
        if a.ty == 'bool':
            if isc(b):
                return a if cv(b) else not_(a)
            if isc(a):
                return b if cv(a) else not_(b)
        if isc(a) or (not isc(b) and a.id > b.id):
            a, b = b, a
        if a.ty == 'bool':
            pass
        # eq over a gate of constants (discriminants)
        if a.op == 'ite' and isc(b) and (isc(a.args[1]) or isc(a.args[2]) or a.args[1].op == 'ite' or a.args[2].op == 'ite') and a.ty != 'f64':
            return ite(a.args[0], cmp_('eq', a.args[1], b), cmp_('eq', a.args[2], b))
    if is_int(a.ty):
        lo, hi = int_range(a.ty)
        if op == 'lt':
            if isc(b) and cv(b) == lo:
                return FALSE
            if isc(a) and cv(a) == hi:
                return FALSE
            # canonical: integers use le only against constants:  x < c  ==  x <= c-1
        if op == 'le':
            if isc(a) and cv(a) == lo:
                return TRUE
            if isc(b) and cv(b) == hi:
                return TRUE
            return not_(cmp_('lt', b, a))
    return mk(op, (a, b), 'bool')


def cmp(op, a, b):
    if op == 'gt':
        return cmp_('lt', b, a)
    if op == 'ge':
        return cmp_('le', b, a)
    if op == 'ne':
        return not_(cmp_('eq', a, b))
    return cmp_(op, a, b)


def iop(op, a, b, ty):
    """wrapping-free mathematical integer operation (overflow is a separate obligation)"""
    if isc(a) and isc(b):
        x, y = cv(a), cv(b)
        if ty == 'bool':
            return B({'and': x and y, 'or': x or y, 'xor': x != y}[op])
        try:
            v = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y,
                 'div': lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1),
                 'rem': lambda: math.fmod(x, y) if False else (abs(x) % abs(y)) * (1 if x >= 0 else -1),
                 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                 'shl': lambda: x << y, 'shr': lambda: x >> y}[op]()
            return I(wrap(v, ty), ty)
        except ZeroDivisionError:
            pass
    if ty == 'bool':
        if op == 'and':
            return and_(a, b)
        if op == 'or':
            return or_(a, b)
        if op == 'xor':
            return ite(a, not_(b), b)
    if op in ('add', 'sub') and isc(b) and cv(b) == 0:
        return a
    if op == 'add' and isc(a):
        a, b = b, a
    if op == 'add' and isc(b) and cv(b) == 0:
        return a
    if op == 'mul' and isc(a):
        a, b = b, a
    if op == 'mul' and isc(b) and cv(b) == 1:
        return a
    # fold x + c1 + c2
    if op in ('add', 'sub') and isc(b) and a.op in ('iadd', 'isub') and isc(a.args[1]):
        c = (cv(b) if op == 'add' else -cv(b)) + (cv(a.args[1]) if a.op == 'iadd' else -cv(a.args[1]))
        if c >= 0:
            return iop('add', a.args[0], I(c, ty), ty)
        return iop('sub', a.args[0], I(-c, ty), ty)
    if op == 'sub' and a is b:
        return I(0, ty)
    if op in ('and', 'or', 'xor', 'add', 'mul') and not isc(b) and a.id > b.id:
        a, b = b, a
    return mk('i' + op, (a, b), ty)


def fop(op, a, b):
    return mk('f' + op, (a, b), 'f64')


def fneg(a):
    if isc(a):
        return F(-cv(a))
    if a.op == 'fneg':
        return a.args[0]
    return mk('fneg', (a,), 'f64')


def call(name, *args, ty='f64'):
    return mk('fn:' + name, tuple(args), ty)


def single(a):
    """rounded to single precision"""
    if isc(a):
        return F(struct.unpack('<f', struct.pack('<f', cv(a)))[0]) if abs(cv(a)) < 3e38 else a
    return a if a.op == 'fn:f32' else mk('fn:f32', (a,), 'f64')


def subst(n, m, cache=None):
    """replace nodes (dict node -> node) bottom-up through the smart constructors"""
    if cache is None:
        cache = {}
    r = cache.get(n)
    if r is not None:
        return r
    if n in m:
        r = m[n]
    elif n.op in ('c', 'sym', 'mu') or not n.args:
        r = n
    else:
        if n.op in BINDERS:
            args = (n.args[0],) + tuple(subst(a, m, cache) if isinstance(a, N) else a for a in n.args[1:])
        else:
            args = tuple(subst(a, m, cache) if isinstance(a, N) else a for a in n.args)
        r = n if args == n.args else rebuild(n.op, args, n.ty)
    cache[n] = r
    return r


def rebuild(op, args, ty):
    if op == 'not':
        return not_(*args)
    if op == 'and':
        return and_(*args)
    if op == 'ite':
        return ite(*args)
    if op in ('lt', 'le', 'eq'):
        return cmp_(op, *args)
    if op in ('iadd', 'isub', 'imul', 'idiv', 'irem', 'iand', 'ior', 'ixor', 'ishl', 'ishr'):
        return iop(op[1:], args[0], args[1], ty)
    if op == 'fneg':
        return fneg(args[0])
    if op == 'sel':
        return args[0].select(args[1]) if hasattr(args[0], 'select') else mk(op, args, ty)
    return mk(op, args, ty)


def nodes(roots):
    seen, order = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            order.append(n)
            continue
        if n in seen:
            continue
        seen.add(n)
        stack.append((n, True))
        for a in n.args:
            if isinstance(a, N) and a not in seen:
                stack.append((a, False))
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, N) and b not in seen:
                        stack.append((b, False))
    return order


INFIX = {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/', 'iadd': '+', 'isub': '-', 'imul': '*', 'idiv': 'div', 'irem': '%',
         'lt': '<', 'le': '<=', 'eq': '==', 'and': '&&', 'iand': '&', 'ior': '|', 'ixor': '^', 'ishr': '>>', 'ishl': '<<'}


def show(n, depth=12):
    if not isinstance(n, N):
        return repr(n)
    if depth == 0:
        return '…'
    if n.op == 'c':
        v = n.args[0]
        return repr(v) if n.ty in ('f64', 'bool') else str(v)
    if n.op in ('sym', 'mu'):
        return str(n.args[0])
    a = [show(x, depth - 1) for x in n.args]
    if n.op in INFIX:
        return '(%s %s %s)' % (a[0], INFIX[n.op], a[1])
    if n.op == 'fneg':
        return '-%s' % a[0]
    if n.op == 'not':
        return '!%s' % a[0]
    if n.op == 'ite':
        return 'if %s {%s} else {%s}' % tuple(a)
    if n.op.startswith('fn:'):
        return '%s(%s)' % (n.op[3:], ', '.join(a))
    return '%s(%s)' % (n.op, ', '.join(a))
