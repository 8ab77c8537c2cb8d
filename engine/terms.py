"""Terms of the path verifier (report layer): hash-consed, translated to z3.

Types: 'bool' 'int' 'float' 'str' 'bytes' 'elem' 'obj' 'any', ('seq', t),
('tuple', (t, ...)), ('maybe', t): t or None.
"""
import z3

TABLE = {}


class T:
    __slots__ = ('op', 'args', 'ty', 'n', 'z')

    def __repr__(self):
        s = '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))
        return s if len(s) < 300 else s[:300] + '...'


def key(a):
    if isinstance(a, T):
        return a.n
    if isinstance(a, tuple):
        return ('t',) + tuple(key(x) for x in a)
    return (type(a).__name__, a if not isinstance(a, float) else repr(a))


def mk(op, args, ty):
    args = tuple(args)
    k = (op, tuple(key(a) for a in args), ty)
    t = TABLE.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.ty, t.n, t.z = op, args, ty, len(TABLE), None
        TABLE[k] = t
    return t


def maybe(ty):
    return isinstance(ty, tuple) and ty[0] == 'maybe'


def base(ty):
    return ty[1] if maybe(ty) else ty


U = z3.DeclareSort('U')
S = z3.DeclareSort('Str')
SORTS = {'bool': z3.BoolSort(), 'int': z3.IntSort(), 'str': S}
STRINGS = {}


def sort(ty):
    ty = base(ty)
    return SORTS.get(ty, U) if isinstance(ty, str) else U


FUNCS = {}


def func(name, doms, rng):
    k = (name, tuple(str(d) for d in doms), str(rng))
    f = FUNCS.get(k)
    if f is None:
        f = FUNCS[k] = z3.Function(name + '#' + str(len(FUNCS)), *doms, rng) if doms else z3.Const(name + '#' + str(len(FUNCS)), rng)
    return f


def string(s):
    """Texts are opaque; different constants are different."""
    c = STRINGS.get(s)
    if c is None:
        c = STRINGS[s] = z3.Const('text%d' % len(STRINGS), S)
    return c


NUMBER = z3.Function('number', S, z3.IntSort())


def distinct(start=0):
    """Different constants have different numbers (those from `start` on)."""
    return [NUMBER(c) == i for i, c in enumerate(STRINGS.values()) if i >= start]


def zconst(a):
    if isinstance(a, bool):
        return z3.BoolVal(a)
    if isinstance(a, int):
        return z3.IntVal(a)
    if isinstance(a, str):
        return string(a)
    return func('const ' + repr(a), [], U)


def z(a):
    if not isinstance(a, T):
        if isinstance(a, tuple):
            xs = [z(x) for x in a]
            return func('tuple', [x.sort() for x in xs], U)(*xs) if xs else func('()', [], U)
        return zconst(a)
    if a.z is not None:
        return a.z
    op, xs = a.op, None
    if op == 'not':
        r = z3.Not(z(a.args[0]))
    elif op == 'and':
        r = z3.And([z(x) for x in a.args])
    elif op == 'or':
        r = z3.Or([z(x) for x in a.args])
    elif op == '=':
        x, y = z(a.args[0]), z(a.args[1])
        r = x == y if x.sort() == y.sort() else func('eq', [x.sort(), y.sort()], z3.BoolSort())(x, y)
    elif op == '<':
        r = z(a.args[0]) < z(a.args[1])
    elif op == '<=':
        r = z(a.args[0]) <= z(a.args[1])
    elif op in ('+', '-', '*') and a.ty == 'int':
        x, y = z(a.args[0]), z(a.args[1])
        r = x + y if op == '+' else x - y if op == '-' else x * y
    elif op == 'ite':
        r = z3.If(z(a.args[0]), z(a.args[1]), z(a.args[2]))
    else:
        xs = [z(x) for x in a.args]
        f = func(op, [x.sort() for x in xs], sort(a.ty))
        r = f(*xs) if xs else f
    a.z = r
    return r


def Not(t):
    if isinstance(t, bool):
        return not t
    if t.op == 'not':
        return t.args[0]
    return mk('not', (t,), 'bool')


def And(*ts):
    out = []
    for t in ts:
        if t is False:
            return False
        if t is not True and t not in out:
            out.append(t)
    return True if not out else out[0] if len(out) == 1 else mk('and', out, 'bool')


def Or(*ts):
    return Not(And(*[Not(t) for t in ts]))


def ops(t, out=None):
    """All operation names in a term."""
    out = set() if out is None else out
    if isinstance(t, T):
        out.add(t.op)
        for a in t.args:
            ops(a, out)
    elif isinstance(t, tuple):
        for a in t:
            ops(a, out)
    return out
