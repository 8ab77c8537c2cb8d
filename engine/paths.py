"""Path verifier for the report layer.

Runs functions of /repo (parsed from their current source) and their contracts
on the same symbolic arguments, path by path.  Functions of the outside world
are uninterpreted; loops over sequences of unknown length become `For` segments
of the lists they append to (body checked once for a generic element); callees
with a contract are replaced by it.  At the end of every feasible path the two
results must be equal: each comparison is an obligation, decided by z3.
"""
import ast
import builtins
import time
import types
import xml.etree.ElementTree as StdET

import z3

from .terms import T, mk, z, Not, And, Or, maybe, base, ops, distinct, STRINGS
from .interp import Source, assigned
from .vals import Unsupported


class Dead(Exception):
    pass


class Raise(Exception):
    def __init__(self, exc):
        self.exc = exc


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class Poison:
    def __repr__(self):
        return 'value left over from a loop'


POISON = Poison()


class Obj:
    """Heap object."""
    __slots__ = ('born',)


class HL(Obj):
    """List: segments are ('v', value) or For."""
    __slots__ = ('segs', 'name')

    def __init__(self, segs=(), name=None):
        self.segs = list(segs)
        self.name = name


class HD(Obj):
    __slots__ = ('d', 'name')

    def __init__(self, d=(), name=None):
        self.d = dict(d)
        self.name = name


class HElem(Obj):
    __slots__ = ('cls', 'tag', 'text', 'attrib', 'kids')


class HObj(Obj):
    __slots__ = ('cls', 'd')

    def __init__(self, cls, d=()):
        self.cls, self.d = cls, dict(d)


class HMod(Obj):
    """What has been assigned in a module."""
    __slots__ = ('mod', 'd')

    def __init__(self, mod):
        self.mod, self.d = mod, {}


class Exc:
    """An exception: its class is one of `classes`."""
    def __init__(self, classes, args=(), name=None):
        self.classes = frozenset(classes)
        self.args = args
        self.name = name

    def __repr__(self):
        return '/'.join(sorted(c.__name__ for c in self.classes))[:80] + repr(self.args)


class For:
    __slots__ = ('seq', 'var', 'alts')

    def __init__(self, seq, var, alts):
        self.seq, self.var, self.alts = seq, var, alts


class Closure:
    def __init__(self, node, frame, glob, name):
        self.node, self.frame, self.glob, self.name = node, frame, glob, name


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class BoundFn:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Frame:
    def __init__(self, vars, glob, parent=None, locals_=()):
        self.vars, self.glob, self.parent, self.locals, self.globals = vars, glob, parent, locals_, set()


class Other(Exception):
    """Any exception class that is not built in."""


ERRORS = frozenset([c for c in vars(builtins).values() if isinstance(c, type) and issubclass(c, Exception)
                    and not issubclass(c, Warning)] + [Other])

SCALAR = (str, int, float, bytes, bool, type(None))


def const(v):
    return isinstance(v, SCALAR) or isinstance(v, tuple) and all(const(x) for x in v)


def typeof(v):
    if isinstance(v, T):
        return v.ty
    if isinstance(v, bool):
        return 'bool'
    for c, n in ((int, 'int'), (float, 'float'), (str, 'str'), (bytes, 'bytes')):
        if isinstance(v, c):
            return n
    return None


PYTYPE = {'bool': bool, 'int': int, 'float': float, 'str': str, 'bytes': bytes, 'elem': StdET.Element}
NUM = ('bool', 'int', 'float')


class Obligation:
    __slots__ = ('name', 'status', 'firm', 'detail')

    def __init__(self, name, status, firm=False, detail=''):
        self.name, self.status, self.firm, self.detail = name, status, firm, detail


class Paths:
    WEAK = frozenset()

    def __init__(self, world, timeout=4000):
        self.world = world            # models of external functions
        world.p = self
        self.src = Source()
        self.timeout = timeout
        self.pc, self.vec, self.pos, self.pend = [], [], 0, []
        self.facts, self.factset = [], set()
        self.clock = 0
        self.journal = []
        self.loops = []
        self.active = []
        self.mods = {}
        self.globals_ = {}
        self.obs = {}
        self.assumptions = set()
        self.paths = 0
        self.checks = 0
        self.solver = 0.0
        self.cache = {}
        self.depth = 0
        self.steps = 0
        self.spec = False
        self.joins = {}
        self.fmemo, self.filters = {}, []
        self.sv, self.nlits = None, 0
        self.tries = 0
        self.reached = set()
        self.until = time.time() + 300

    # ------------------------------------------------------------ solver

    def fact(self, t):
        """A fact about the outside world that holds on every path."""
        if t is not True and t not in self.factset:
            self.factset.add(t)
            self.facts.append(t)

    def sat(self, extra=()):
        lits = [t for t in list(self.pc) + list(extra) if t is not True]
        if any(t is False for t in lits):
            return False
        s = set(lits)
        if any(Not(t) in s for t in lits):
            return False
        k = (frozenset(t.n for t in lits), len(self.facts))
        if k in self.cache:
            return self.cache[k]
        if time.time() > self.until:
            raise Unsupported('time limit')
        t0 = time.time()
        r = self.ask(lits)
        self.checks += 1
        self.solver += time.time() - t0
        r = True if r == z3.sat else False if r == z3.unsat else None
        self.cache[k] = r
        return r

    def ask(self, lits):
        """One solver for all questions: every literal is guarded by a name of its own."""
        if self.sv is None or self.nlits > 4000:
            self.sv = z3.Solver()
            self.sv.set('timeout', self.timeout)
            self.names, self.nfacts, self.nstr, self.nlits = {}, 0, 0, 0
        sv, names = self.sv, []
        for f in self.facts[self.nfacts:]:
            sv.add(z(f))
        self.nfacts = len(self.facts)
        for t in lits:
            n = self.names.get(t.n)
            if n is None:
                n = self.names[t.n] = z3.Bool('lit%d' % t.n)
                self.nlits += 1
                sv.add(z3.Implies(n, z(t)))
            names.append(n)
        for d in distinct(self.nstr):
            sv.add(d)
        self.nstr = len(STRINGS)
        return sv.check(*names)

    def entails(self, t):
        if isinstance(t, bool):
            return t
        return self.sat((Not(t),)) is False

    def assume(self, t):
        if t is False or (t is not True and self.sat((t,)) is False):
            raise Dead()
        if t is not True:
            self.pc.append(t)

    def decide(self, t):
        if isinstance(t, bool):
            return t
        if self.pos < len(self.vec):
            c = self.vec[self.pos]
            self.pos += 1
        else:
            a, b = self.sat((t,)), self.sat((Not(t),))
            if a is False and b is False:
                raise Dead()
            c = a is not False
            if c and b is not False:
                self.pend.append(self.vec + [False])
            self.vec.append(c)
            self.pos += 1
        self.pc.append(t if c else Not(t))
        return c

    def pick(self, n):
        if n == 1:
            return 0
        if self.pos < len(self.vec):
            c = self.vec[self.pos]
        else:
            c = 0
            for i in range(1, n):
                self.pend.append(self.vec + [i])
            self.vec.append(0)
        self.pos += 1
        return c

    def explore(self, fn, limit=6000):
        """Every path of fn: [(added path condition, result)]; its changes to older objects are undone."""
        saved = (self.vec, self.pos, self.pend, self.active, self.loops, self.depth, self.spec)
        pend = [[]]
        out = []
        mark, pcm, jm = self.clock, len(self.pc), len(self.journal)
        n = 0
        while pend:
            self.vec, self.pos, self.pend = pend.pop(), 0, pend
            self.active, self.loops, self.depth, self.spec = list(saved[3]), list(saved[4]), saved[5], saved[6]
            try:
                r = fn()
                out.append((tuple(self.pc[pcm:]), r))
                n += 1
                if n > limit:
                    raise Unsupported('too many paths')
            except Dead:
                pass
            finally:
                for o, undo in reversed(self.journal[jm:]):
                    if o.born <= mark:
                        undo()
                del self.journal[jm:]
                del self.pc[pcm:]
        self.vec, self.pos, self.pend, self.active, self.loops, self.depth, self.spec = saved
        return out

    # ------------------------------------------------------------ heap

    def new(self, o):
        self.clock += 1
        o.born = self.clock
        return o

    def lst(self, vals=()):
        return self.new(HL([('v', v) for v in vals]))

    def elem(self, tag, cls=StdET.Element):
        e = HElem()
        e.cls, e.tag, e.text = cls, tag, None
        e.attrib = self.new(HD())
        e.kids = self.new(HL())
        return self.new(e)

    def change(self, o, undo, seg=None):
        if self.loops:
            c = self.loops[-1]
            if o.born <= c['mark']:
                if seg is None or not isinstance(o, HL):
                    raise Unsupported('effect of a loop over a sequence of unknown length')
                c['effects'].setdefault(o, []).append(seg)
        self.journal.append((o, undo))

    def push(self, l, seg):
        if l.name == 'frozen':
            raise Unsupported('change of a list of the outside world')
        segs = l.segs
        l.segs = segs + [seg]

        def undo():
            l.segs = segs
        self.change(l, undo, seg)

    def append(self, l, v):
        self.push(l, ('v', v))

    def setsegs(self, l, segs):
        old = l.segs

        def undo():
            l.segs = old
        l.segs = list(segs)
        self.change(l, undo)

    def setattr(self, o, name, v):
        old = getattr(o, name)

        def undo():
            setattr(o, name, old)
        setattr(o, name, v)
        self.change(o, undo)

    def setkey(self, o, k, v):
        d = o.d
        had = k in d
        old = d.get(k)

        def undo():
            if had:
                d[k] = old
            else:
                d.pop(k, None)
        d[k] = v
        self.change(o, undo)

    def read(self, l):
        """The segments of a list, which must not be one that the current loop extends."""
        for c in self.loops:
            if l.born <= c['mark']:
                c['reads'].add(l)
        return l.segs

    # ------------------------------------------------------------ values

    def isnone(self, v):
        if v is None:
            return True
        if isinstance(v, T) and maybe(v.ty):
            return mk('isnone', (v,), 'bool')
        return False

    def need(self, v, err=TypeError):
        """v, which is used where None is an error."""
        if v is POISON:
            raise Unsupported(repr(v))
        if v is None:
            self.throw(err)
        if isinstance(v, T) and maybe(v.ty):
            if self.decide(self.isnone(v)):
                self.throw(err)
        return v

    def ty(self, v):
        return base(typeof(v)) if isinstance(v, T) else typeof(v)

    def throw(self, cls, *args):
        raise Raise(Exc([cls], args))

    def truth(self, v):
        """Term for bool(v)."""
        if v is POISON:
            raise Unsupported(repr(v))
        if isinstance(v, T):
            n = Not(self.isnone(v))
            t = base(v.ty)
            if t == 'bool':
                r = v if not maybe(v.ty) else mk('truth', (v,), 'bool')
            elif t == 'int':
                r = Not(mk('=', (v, 0), 'bool'))
            elif t == 'str':
                r = Not(mk('=', (v, ''), 'bool'))
            elif t == 'bytes' or isinstance(t, tuple) and t[0] == 'seq':
                r = Not(mk('=', (self.length(v), 0), 'bool'))
            elif t == 'elem':
                r = Not(mk('=', (self.world.nkids(v), 0), 'bool'))
            elif t in ('match', 'obj'):
                r = True
            else:
                raise Unsupported('truth of ' + repr(v))
            return And(n, r)
        if isinstance(v, HL):
            return self.nonempty(self.read(v))
        if isinstance(v, HD):
            return bool(v.d)
        if isinstance(v, HElem):
            return self.nonempty(self.read(v.kids))
        if isinstance(v, (HObj, Closure, Bound, BoundFn, Exc)):
            return True
        return bool(v)

    def nonempty(self, segs):
        alts = []
        for s in segs:
            if not isinstance(s, For):
                return True
            if all(not g and x and not isinstance(x[0], For) for g, x in s.alts):
                alts.append(Not(mk('=', (self.length(s.seq), 0), 'bool')))
            else:
                alts.append(None)
        if None in alts:
            raise Unsupported('emptiness of a filtered list')
        return Or(*alts) if alts else False

    def test(self, v):
        return self.decide(self.truth(v))

    def length(self, v):
        if isinstance(v, HL):
            n = 0
            for s in self.read(v):
                if isinstance(s, For):
                    if len(s.alts) == 1 and not s.alts[0][0] and not any(isinstance(x, For) for x in s.alts[0][1]):
                        n = self.add(n, self.mul(self.length(s.seq), len(s.alts[0][1])))
                    else:
                        raise Unsupported('length of a filtered list')
                else:
                    n = self.add(n, 1)
            return n
        if isinstance(v, HElem):
            return self.length(v.kids)
        if isinstance(v, HD):
            return len(v.d)
        if isinstance(v, T):
            t = mk('len', (v,), 'int')
            self.fact(mk('<=', (0, t), 'bool'))
            self.world.lenfacts(v, t)
            return t
        return len(v)

    def add(self, a, b):
        if not isinstance(a, T) and not isinstance(b, T):
            return a + b
        if a == 0:
            return b
        if b == 0:
            return a
        return mk('+', (a, b), 'int')

    def mul(self, a, b):
        if not isinstance(a, T) and not isinstance(b, T):
            return a * b
        if b == 1:
            return a
        if a == 1:
            return b
        return mk('*', (a, b), 'int')

    def cat(self, parts):
        out = []
        for p in parts:
            ps = p.args if isinstance(p, T) and p.op == 'cat' else (p,)
            for x in ps:
                if x == '' and not isinstance(x, T):
                    continue
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                else:
                    out.append(x)
        if not out:
            return ''
        return out[0] if len(out) == 1 else mk('cat', out, 'str')

    def eq(self, a, b):
        """Term for a == b (Python equality of scalars)."""
        if a is POISON or b is POISON:
            raise Unsupported(repr(POISON))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return False if len(a) != len(b) else And(*[self.eq(x, y) for x, y in zip(a, b)])
        if not isinstance(a, T) and not isinstance(b, T):
            if isinstance(a, (HL, HD, HElem, HObj)) or isinstance(b, (HL, HD, HElem, HObj)):
                if a is b:
                    return True
                if isinstance(a, HL) and isinstance(b, HL):
                    x, y = self.read(a), self.read(b)
                    if not any(isinstance(s, For) for s in x + y):
                        return False if len(x) != len(y) else And(*[self.eq(p[1], q[1]) for p, q in zip(x, y)])
                    if not y:
                        return Not(self.nonempty(x))
                    if not x:
                        return Not(self.nonempty(y))
                    raise Unsupported('equality of lists')
                if isinstance(a, (HElem, HObj)) or isinstance(b, (HElem, HObj)) or type(a) is not type(b):
                    return False
                raise Unsupported('equality of objects')
            return a == b
        if a is b:
            # nan != nan
            return True if self.ty(a) != 'float' else mk('feq', (a, b), 'bool')
        if not isinstance(a, T):
            a, b = b, a
        # a is a term
        if b is None:
            return self.isnone(a)
        ta, tb = base(a.ty), self.ty(b)
        na, nb = self.isnone(a), self.isnone(b)
        if ta == tb and isinstance(ta, str) and ta in ('bool', 'int', 'str'):
            e = mk('=', tuple(sorted((a, b), key=lambda x: x.n if isinstance(x, T) else -1)), 'bool')
        elif ta in NUM and tb in NUM:
            if 'float' in (ta, tb):
                e = mk('feq', (a, b) if isinstance(b, T) and b.n > a.n or not isinstance(b, T) else (b, a), 'bool')
            elif ta == 'bool':
                if isinstance(b, T):
                    e = mk('=', (mk('ite', (a, 1, 0), 'int'), b), 'bool')
                else:
                    e = a if b == 1 else Not(a) if b == 0 else False
            else:
                e = self.eq(b, a) if isinstance(b, T) else mk('=', (a, int(b)), 'bool')
        elif ta == 'bytes' and tb == 'bytes':
            e = mk('=', (a, b), 'bool')
            if not isinstance(b, T):
                self.fact(Or(Not(e), mk('=', (self.length(a), len(b)), 'bool')))
        elif ta == 'any' or tb == 'any':
            e = mk('=', (a, b), 'bool') if const(b) or isinstance(b, T) else mk('eqany', (a,), 'bool')
        elif isinstance(ta, str) and isinstance(tb, str) and ta in PYTYPE and tb in PYTYPE:
            e = False
        elif ta == tb:
            e = mk('=', (a, b), 'bool')
        elif ta == 'data':
            e = self.world.dataeq(a, b)
        elif tb == 'data':
            e = self.world.dataeq(b, a)
        else:
            raise Unsupported('equality of %r and %r' % (a, b))
        if na is False and nb is False:
            return e
        return Or(And(na, nb), And(Not(na), Not(nb), e))

    # ------------------------------------------------------------ calls

    def fn(self, f, args, kw):
        """Call of an interpreted function."""
        node = self.src.node(f)
        a = node.args
        if a.posonlyargs:
            raise Unsupported('parameters of ' + f.__name__)
        vars_ = {}
        names = [x.arg for x in a.args]
        if len(args) > len(names):
            if not a.vararg:
                self.throw(TypeError)
            vars_[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg:
            vars_[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vars_[n] = v
        extra = {}
        for n, v in kw.items():
            if n in names + [x.arg for x in a.kwonlyargs] and n not in vars_:
                vars_[n] = v
            elif a.kwarg:
                extra[n] = v
            else:
                self.throw(TypeError)
        if a.kwarg:
            vars_[a.kwarg.arg] = self.new(HD(extra))
        d = f.__defaults__ or ()
        for n, v in zip(names[len(names) - len(d):], d):
            if n not in vars_:
                vars_[n] = self.default(v)
        for x in a.kwonlyargs:
            if x.arg not in vars_:
                if x.arg not in (f.__kwdefaults__ or {}):
                    self.throw(TypeError)
                vars_[x.arg] = self.default(f.__kwdefaults__[x.arg])
        if any(n not in vars_ for n in names):
            self.throw(TypeError)
        if f.__closure__:
            raise Unsupported('closure')
        return self.block(node, Frame(vars_, f.__globals__, None, self.locals(node)))

    def default(self, v):
        if not const(v) and not callable(v) and v is not None:
            raise Unsupported('mutable default')
        return v

    def locals(self, node):
        names = {x.arg for x in node.args.args + node.args.kwonlyargs}
        for x in (node.args.vararg, node.args.kwarg):
            if x:
                names.add(x.arg)
        g = set()
        for s in ast.walk(node):
            if isinstance(s, ast.Global):
                g |= set(s.names)
        return (names | assigned(node.body)) - g

    def block(self, node, fr):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion')
        try:
            self.stmts(node.body, fr)
            return None
        except ReturnX as r:
            return r.v
        finally:
            self.depth -= 1

    def call(self, f, args, kw):
        if isinstance(f, BoundFn):
            return self.call(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, Bound):
            return self.method(f.obj, f.name, list(args), kw)
        if isinstance(f, Closure):
            return self.closure(f, args, kw)
        if getattr(f, 'external', False) is True:
            return f.f(*args, **kw)
        try:
            m = self.world.table.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(*args, **kw)
        if isinstance(f, types.FunctionType):
            if self.world.inside(f):
                c = self.world.contracts.get(f.__module__.split('.')[-1] + '.' + f.__qualname__)
                if c is not None and not self.spec:
                    return c(*args, **kw)
                return self.fn(f, args, kw)
        if isinstance(f, type):
            r = self.world.construct(f, args, kw)
            if r is not None:
                return r
            if issubclass(f, BaseException):
                return Exc([f], tuple(args))
            if self.world.inside(f):
                o = self.new(HObj(f))
                i = self.lookup(f, '__init__')
                if i is not None:
                    self.call(i, [o] + list(args), kw)
                return o
        if all(const(a) for a in args) and all(const(a) for a in kw.values()) and self.world.pure(f):
            return self.real(lambda: f(*args, **kw))
        raise Unsupported('call of %s' % getattr(f, '__qualname__', repr(f)))

    def real(self, f):
        try:
            r = f()
        except Exception as e:
            raise Raise(Exc([type(e)], e.args))
        return self.lift(r)

    def lift(self, r):
        if isinstance(r, list):
            return self.lst([self.lift(x) for x in r])
        if isinstance(r, tuple):
            return tuple(self.lift(x) for x in r)
        if isinstance(r, dict):
            return self.new(HD({k: self.lift(v) for k, v in r.items()}))
        if isinstance(r, SCALAR) or isinstance(r, (type, types.FunctionType, types.ModuleType, types.BuiltinFunctionType)):
            return r
        raise Unsupported('value of type %s' % type(r).__name__)

    def closure(self, f, args, kw):
        n = f.node
        names = [x.arg for x in n.args.args]
        if kw or len(args) != len(names) or n.args.vararg or n.args.kwarg:
            raise Unsupported('call of a nested function')
        if isinstance(n, ast.Lambda):
            return self.expr(n.body, Frame(dict(zip(names, args)), f.glob, f.frame, set(names)))
        return self.block(n, Frame(dict(zip(names, args)), f.glob, f.frame, self.locals(n)))

    def lookup(self, cls, name):
        """Attribute of a class of the code, as a plain value."""
        for c in cls.__mro__:
            if name in vars(c):
                v = vars(c)[name]
                if self.world.inside(c):
                    return v
                return None
        return None

    def bind(self, obj, v):
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, classmethod):
            return BoundFn(v.__func__, type(obj) if not hasattr(obj, 'cls') else obj.cls)
        if isinstance(v, types.FunctionType):
            return BoundFn(v, obj)
        if isinstance(v, property):
            return self.call(v.fget, [obj], {})
        return v

    def attr(self, o, name):
        if o is POISON:
            raise Unsupported(repr(o))
        if isinstance(o, types.ModuleType):
            return self.modattr(o, name)
        if isinstance(o, HElem):
            if name in ('tag', 'text', 'attrib', 'kids'):
                return getattr(o, name)
            v = self.lookup(o.cls, name)
            if v is not None:
                return self.bind(o, v)
            return Bound(o, name)
        if isinstance(o, HObj):
            if name in o.d:
                return o.d[name]
            v = self.lookup(o.cls, name)
            if v is not None:
                return self.bind(o, v)
            r = self.world.attr(o, name)
            return r[0] if r is not None else self.throw(AttributeError)
        if isinstance(o, type):
            v = self.lookup(o, name)
            if v is not None:
                if isinstance(v, (staticmethod, classmethod)):
                    return v.__func__ if isinstance(v, staticmethod) else BoundFn(v.__func__, o)
                return v
            return getattr(o, name)
        if isinstance(o, T):
            self.need(o, AttributeError)
            r = self.world.attr(o, name)
            if r is not None:
                return r[0]
            return Bound(o, name)
        if isinstance(o, Exc) and name == 'args':
            return tuple(o.args)
        if o is None:
            self.throw(AttributeError)
        r = self.world.attr(o, name)
        if r is not None:
            return r[0]
        return Bound(o, name)

    def modattr(self, m, name):
        key = (m.__name__, name)
        h = self.mods.get(m.__name__)
        if h is not None and name in h.d:
            return h.d[name]
        if key in self.world.values:
            return self.world.values[key]
        if not hasattr(m, name):
            self.throw(AttributeError)
        return self.glob(m.__dict__, m.__name__, name)

    def glob(self, d, mod, name):
        v = d[name]
        k = (mod, name)
        if k in self.world.values:
            return self.world.values[k]
        if isinstance(v, (list, dict)) and self.world.insidename(mod):
            if k not in self.globals_:
                o = self.lift(v)
                o.name = name
                o.born = 0
                self.globals_[k] = o
            return self.globals_[k]
        return v

    def setmod(self, m, name, v):
        h = self.mods.get(m.__name__)
        if h is None:
            h = self.mods[m.__name__] = HMod(m)
            h.born = 0
        self.setkey(h, name, v)

    # ------------------------------------------------------------ statements

    def stmts(self, ss, fr):
        for s in ss:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        if not self.spec:
            self.reached.add(getattr(s, 'where', None))
        self.steps += 1
        if self.steps > 3000000 or time.time() > self.until:
            raise Unsupported('time limit')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        if not isinstance(s.value, ast.Constant):
            self.expr(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        fr.globals |= set(s.names)

    def s_Import(self, s, fr):
        import importlib
        for a in s.names:
            if a.name.split('.')[0] == 'jpylyzer':
                raise Unsupported('import')
            m = importlib.import_module(a.name)
            self.store(fr, a.asname or a.name.split('.')[0], m if a.asname else importlib.import_module(a.name.split('.')[0]))

    def s_Assert(self, s, fr):
        if not self.test(self.expr(s.test, fr)):
            self.throw(AssertionError)

    def s_Return(self, s, fr):
        raise ReturnX(None if s.value is None else self.expr(s.value, fr))

    def s_Break(self, s, fr):
        raise BreakX()

    def s_Continue(self, s, fr):
        raise ContinueX()

    def s_FunctionDef(self, s, fr):
        if s.decorator_list or s.args.defaults:
            raise Unsupported('nested function')
        self.store(fr, s.name, Closure(s, fr, fr.glob, s.name))

    def s_If(self, s, fr):
        self.stmts(s.body if self.test(self.expr(s.test, fr)) else s.orelse, fr)

    def s_Raise(self, s, fr):
        if s.exc is None:
            if not fr.vars.get(' exc'):
                raise Unsupported('raise')
            raise Raise(fr.vars[' exc'])
        e = self.expr(s.exc, fr)
        if isinstance(e, type):
            e = Exc([e])
        raise Raise(e)

    def s_Assign(self, s, fr):
        v = self.expr(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, fr)
            new = self.expr(s.value, fr)
            if isinstance(old, HL) and isinstance(s.op, ast.Add):
                self.extend(old, new)
            else:
                self.store(fr, t.id, self.binop(s.op, old, new))
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, fr)
            old = self.attr(o, t.attr)
            new = self.expr(s.value, fr)
            if isinstance(old, HL) and isinstance(s.op, ast.Add):
                self.extend(old, new)
            else:
                self.assign_attr(o, t.attr, self.binop(s.op, old, new))
        else:
            raise Unsupported('augmented assignment')

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.assign_attr(self.expr(t.value, fr), t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, fr)
            k = self.expr(t.slice, fr)
            if isinstance(o, HD) and const(k):
                self.setkey(o, k, v)
            elif isinstance(o, HL) and isinstance(k, int) and not any(isinstance(x, For) for x in o.segs) and -len(o.segs) <= k < len(o.segs):
                segs = list(o.segs)
                segs[k] = ('v', v)
                self.setsegs(o, segs)
            else:
                raise Unsupported('item assignment')
        else:
            raise Unsupported('assignment')

    def unpack(self, v, n):
        if isinstance(v, HL) and not any(isinstance(s, For) for s in v.segs):
            v = tuple(s[1] for s in self.read(v))
        if isinstance(v, T) and isinstance(v.ty, tuple) and v.ty[0] == 'tuple':
            v = self.world.parts(v)
        if not isinstance(v, tuple):
            raise Unsupported('unpacking')
        if len(v) != n:
            self.throw(ValueError)
        return v

    def assign_attr(self, o, name, v):
        if isinstance(o, HElem):
            if name not in ('tag', 'text', 'attrib', 'kids'):
                if name == 'tail':
                    raise Unsupported('tail')
                self.throw(AttributeError)
            if name == 'kids' and isinstance(v, HL):
                return self.setattr(o, name, v)
            return self.setattr(o, name, v)
        if isinstance(o, HObj):
            return self.setkey(o, name, v)
        if isinstance(o, types.ModuleType):
            return self.setmod(o, name, v)
        if o is None:
            self.throw(AttributeError)
        raise Unsupported('attribute assignment')

    def store(self, fr, name, v):
        if name in fr.globals:
            return self.setmod(self.module(fr), name, v)
        fr.vars[name] = v

    def module(self, fr):
        import sys
        return sys.modules[fr.glob['__name__']]

    def name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.vars and n not in f.globals:
                v = f.vars[n]
                if v is POISON:
                    raise Unsupported('%s: %s' % (n, v))
                return v
            if n in f.locals:
                self.throw(UnboundLocalError)
            f = f.parent
        mod = fr.glob.get('__name__')
        h = self.mods.get(mod)
        if h is not None and n in h.d:
            return h.d[n]
        if n in fr.glob:
            return self.glob(fr.glob, mod, n)
        if hasattr(builtins, n):
            return getattr(builtins, n)
        self.throw(NameError)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
                continue
            if not isinstance(t, ast.Subscript):
                raise Unsupported('del')
            o = self.expr(t.value, fr)
            k = self.expr(t.slice, fr)
            if isinstance(o, HL):
                self.method(o, 'pop', [k], {})
            elif isinstance(o, HD) and const(k):
                if k not in o.d:
                    self.throw(KeyError)
                raise Unsupported('del')
            else:
                raise Unsupported('del')

    def s_With(self, s, fr):
        for i in s.items:
            v = self.expr(i.context_expr, fr)
            v = self.world.enter(v)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, fr)
        self.stmts(s.body, fr)

    def matches(self, exc, cls):
        """Decides isinstance(exc, cls); narrows the classes of exc."""
        if isinstance(cls, tuple):
            return any(self.matches(exc, c) for c in cls)
        if not isinstance(cls, type):
            raise Unsupported('exception class')
        yes = frozenset(c for c in exc.classes if issubclass(c, cls))
        no = exc.classes - yes
        if not yes or not no:
            return bool(yes)
        r = self.decide(mk('isa', (exc.name or 'exc', ','.join(sorted(c.__name__ for c in yes))), 'bool'))
        exc.classes = yes if r else no
        return r

    def s_Try(self, s, fr):
        try:
            try:
                self.tries += 1
                try:
                    self.stmts(s.body, fr)
                finally:
                    self.tries -= 1
            except Raise as r:
                for h in s.handlers:
                    if h.type is None or self.matches(r.exc, self.expr(h.type, fr)):
                        if h.name:
                            fr.vars[h.name] = r.exc
                        old = fr.vars.get(' exc')
                        fr.vars[' exc'] = r.exc
                        self.stmts(h.body, fr)
                        fr.vars[' exc'] = old
                        if h.name:
                            fr.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.stmts(s.orelse, fr)
        except (Raise, ReturnX, BreakX, ContinueX):
            self.stmts(s.finalbody, fr)
            raise
        else:
            self.stmts(s.finalbody, fr)

    # ------------------------------------------------------------ loops

    def segs(self, v):
        """Segments that iteration over v goes through."""
        v = self.need(v)
        if isinstance(v, HL):
            return self.read(v)
        if isinstance(v, HElem):
            return self.read(v.kids)
        if isinstance(v, HD):
            return [('v', k) for k in v.d]
        if isinstance(v, (tuple, str, bytes, range, list, set, frozenset)):
            return [('v', x) for x in v]
        if isinstance(v, T):
            t = base(v.ty)
            if isinstance(t, tuple) and t[0] == 'seq':
                return self.generic(v, t[1])
            if t == 'elem':
                return self.segs(self.world.kids(v))
            if t == 'str':
                return self.generic(mk('chars', (v,), ('seq', 'str')), 'str')
        raise Unsupported('iteration over ' + repr(v)[:100])

    def generic(self, seq, ty):
        n = sum(1 for a in self.active if a is seq)
        g = mk('gen', (seq, n), ty)
        self.world.elemfacts(seq, g)
        return [For(seq, g, [((), [('v', g)])])]

    def s_For(self, s, fr):
        segs = self.segs(self.expr(s.iter, fr))
        if not any(isinstance(x, For) for x in segs):
            for x in segs:
                self.assign(s.target, x[1], fr)
                try:
                    self.stmts(s.body, fr)
                except ContinueX:
                    continue
                except BreakX:
                    return
            self.stmts(s.orelse, fr)
            return
        if any(isinstance(x, ast.Break) for x in walk_loop(s.body)):
            raise Unsupported('break in a loop over a sequence of unknown length')
        names = assigned(s.body) | assigned([s.target])

        def body(v):
            self.assign(s.target, v, fr)
            try:
                self.stmts(s.body, fr)
            except ContinueX:
                pass
        self.each(segs, body, fr, names)
        self.stmts(s.orelse, fr)

    def each(self, segs, body, fr, names):
        """body for every item; names: variables of the frame that the body sets."""
        def poison():
            for n in names:
                if n in fr.locals and n not in fr.globals:
                    fr.vars[n] = POISON
        for x in segs:
            if not isinstance(x, For):
                poison()
                body(x[1])
                continue
            keep = dict(fr.vars)

            def run():
                fr.vars.clear()
                fr.vars.update(keep)
                poison()
                c = {'mark': mark, 'effects': {}, 'reads': set()}
                self.loops.append(c)
                self.active.append(x.seq)
                # the loop runs only if there is an element
                self.assume(Not(mk('=', (self.length(x.seq), 0), 'bool')))
                i = self.pick(len(x.alts))
                g, items = x.alts[i]
                for t in g:
                    self.assume(t)
                try:
                    self.each(items, body, fr, names)
                except Raise as e:
                    if self.spec or self.tries:
                        raise Unsupported('a loop over a sequence of unknown length is left (%r)' % e.exc)
                    # nobody handles it
                    self.differ('no error ends a loop', repr(e.exc))
                    raise Dead()
                except (ReturnX, BreakX) as e:
                    raise Unsupported('a loop over a sequence of unknown length is left (%s)' % type(e).__name__)
                return c
            mark = self.clock
            outs = self.explore(run)
            fr.vars.clear()
            fr.vars.update(keep)
            poison()
            objs = []
            for _, c in outs:
                for o in c['effects']:
                    if o not in objs:
                        objs.append(o)
            for _, c in outs:
                if any(o in c['reads'] for o in objs):
                    raise Unsupported('a loop reads what it changes')
            for o in objs:
                alts = []
                for g, c in outs:
                    s = c['effects'].get(o, [])
                    alts.append((tuple(g), list(s)))
                self.push(o, For(x.seq, x.var, alts))
        poison()

    def s_While(self, s, fr):
        n = 0
        while True:
            t = self.truth(self.expr(s.test, fr))
            if isinstance(t, T):
                raise Unsupported('while loop')
            if not t:
                break
            n += 1
            if n > 2000:
                raise Unsupported('while loop')
            try:
                self.stmts(s.body, fr)
            except ContinueX:
                continue
            except BreakX:
                return
        self.stmts(s.orelse, fr)

    def comp(self, n, fr, add):
        """Runs add(frame) for every combination of a comprehension."""
        f = Frame({}, fr.glob, fr, assigned([g.target for g in n.generators]))

        def level(i):
            if i == len(n.generators):
                return add(f)
            g = n.generators[i]
            segs = self.segs(self.expr(g.iter, f if i else fr))

            def body(v):
                self.assign(g.target, v, f)
                for c in g.ifs:
                    if not self.test(self.expr(c, f)):
                        return
                level(i + 1)
            if not any(isinstance(x, For) for x in segs):
                for x in segs:
                    body(x[1])
            else:
                self.each(segs, body, f, f.locals)
        level(0)

    def e_ListComp(self, n, fr):
        r = self.charfilter(n, fr)
        if r is not None:
            return r
        out = self.lst()
        self.comp(n, fr, lambda f: self.append(out, self.expr(n.elt, f)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, fr):
        out = self.lst()
        self.comp(n, fr, lambda f: self.append(out, self.expr(n.elt, f)))
        if any(isinstance(s, For) or not const(s[1]) for s in out.segs):
            raise Unsupported('set')
        return frozenset(s[1] for s in out.segs)

    def e_DictComp(self, n, fr):
        out = self.new(HD())

        def add(f):
            k = self.expr(n.key, f)
            if not const(k):
                raise Unsupported('dictionary key')
            self.setkey(out, k, self.expr(n.value, f))
        self.comp(n, fr, add)
        return out

    def charfilter(self, n, fr):
        """[c for c in text if P(c)]: P is evaluated on all characters."""
        if len(n.generators) != 1:
            return None
        g = n.generators[0]
        if not (isinstance(g.target, ast.Name) and isinstance(n.elt, ast.Name) and n.elt.id == g.target.id):
            return None
        v = self.expr(g.iter, fr)
        if not (isinstance(v, T) and base(v.ty) == 'str'):
            return None
        self.need(v)
        env = {}
        for x in {x.id for c in g.ifs for x in ast.walk(c) if isinstance(x, ast.Name)} - {g.target.id}:
            try:
                w = self.name(x, fr)
            except Raise:
                raise Unsupported('filter condition')
            if isinstance(w, HL) and all(not isinstance(s, For) and const(s[1]) for s in w.segs):
                w = [s[1] for s in self.read(w)]
            elif not const(w) and not isinstance(w, (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type)):
                raise Unsupported('filter condition')
            env[x] = w
        k = (tuple(ast.dump(c) for c in g.ifs), g.target.id, tuple(sorted((a, repr(b)) for a, b in env.items())))
        if k not in self.fmemo:
            body = ' and '.join('(%s)' % ast.unparse(c) for c in g.ifs) or 'True'
            fn = eval('lambda %s: bool(%s)' % (g.target.id, body), env)
            try:
                tab = bytes(bytearray(fn(chr(i)) for i in range(0x110000)))
            except Exception as e:
                raise Unsupported('filter condition raises %r' % e)
            if tab not in self.filters:
                self.filters.append(tab)
            self.fmemo[k] = self.filters.index(tab)
        i = self.fmemo[k]
        plain = {'str_i': '-0123456789', 'isoformat': '-0123456789:.T'}.get(v.op)
        if plain and all(self.filters[i][ord(c)] for c in plain):
            return self.new(HL(self.generic(mk('chars', (v,), ('seq', 'str')), 'str')))
        t = v if self.filters[i].count(b'\x01') == 0x110000 else mk('filter', (v, i), 'str')
        return self.new(HL(self.generic(mk('chars', (t,), ('seq', 'str')), 'str')))

    # ------------------------------------------------------------ expressions

    def expr(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.name(n.id, fr)

    def e_Attribute(self, n, fr):
        return self.attr(self.expr(n.value, fr), n.attr)

    def e_Tuple(self, n, fr):
        return tuple(self.items(n.elts, fr))

    def items(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                for s in self.segs(self.expr(x.value, fr)):
                    if isinstance(s, For):
                        raise Unsupported('*')
                    out.append(s[1])
            else:
                out.append(self.expr(x, fr))
        return out

    def e_List(self, n, fr):
        return self.lst(self.items(n.elts, fr))

    def e_Set(self, n, fr):
        vs = self.items(n.elts, fr)
        if not all(const(v) or isinstance(v, type) for v in vs):
            raise Unsupported('set')
        return frozenset(vs)

    def e_Dict(self, n, fr):
        d = self.new(HD())
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.expr(v, fr)
                if not isinstance(o, HD):
                    raise Unsupported('**')
                d.d.update(o.d)
                continue
            k = self.expr(k, fr)
            if not const(k):
                raise Unsupported('dictionary key')
            d.d[k] = self.expr(v, fr)
        return d

    def e_Lambda(self, n, fr):
        return Closure(n, fr, fr.glob, 'lambda')

    def e_IfExp(self, n, fr):
        return self.expr(n.body if self.test(self.expr(n.test, fr)) else n.orelse, fr)

    def e_BoolOp(self, n, fr):
        for x in n.values[:-1]:
            v = self.expr(x, fr)
            if self.test(v) != isinstance(n.op, ast.And):
                return v
        return self.expr(n.values[-1], fr)

    def e_UnaryOp(self, n, fr):
        v = self.expr(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return Not(self.truth(v))
        if not isinstance(v, T):
            return -v if isinstance(n.op, ast.USub) else +v if isinstance(n.op, ast.UAdd) else ~v
        if isinstance(n.op, ast.USub) and base(v.ty) == 'int':
            return mk('-', (0, self.need(v)), 'int')
        raise Unsupported('operator')

    def e_BinOp(self, n, fr):
        return self.binop(n.op, self.expr(n.left, fr), self.expr(n.right, fr))

    def binop(self, op, a, b):
        a, b = self.need(a), self.need(b)
        o = type(op).__name__
        if not isinstance(a, T) and not isinstance(b, T):
            if isinstance(a, HL) or isinstance(b, HL):
                if o == 'Add' and isinstance(a, HL) and isinstance(b, HL):
                    return self.new(HL(list(self.read(a)) + list(self.read(b))))
                if o == 'Mult' and isinstance(b, int) and isinstance(a, HL):
                    return self.new(HL(list(self.read(a)) * b))
                if o == 'Mod' and isinstance(a, str):
                    raise Unsupported('%')
                self.throw(TypeError)
            if o == 'Mod' and isinstance(a, str) and not const(b):
                return self.percent(a, b)
            import operator
            f = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv,
                 'Mod': operator.mod, 'Pow': operator.pow, 'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor,
                 'LShift': operator.lshift, 'RShift': operator.rshift}[o]
            if not (const(a) and const(b)) and not (isinstance(a, tuple) and isinstance(b, tuple) and o == 'Add'):
                raise Unsupported('operator')
            return self.real(lambda: f(a, b)) if const(a) and const(b) else a + b
        ta, tb = self.ty(a), self.ty(b)
        if o == 'Add' and ta == tb == 'str':
            return self.cat((a, b))
        if o == 'Mod' and ta == 'str' and isinstance(a, str):
            return self.percent(a, b)
        if ta in NUM and tb in NUM:
            if 'float' not in (ta, tb) and o in ('Add', 'Sub', 'Mult') and ta == tb == 'int':
                s = {'Add': '+', 'Sub': '-', 'Mult': '*'}[o]
                if s == '*' and isinstance(a, T) and isinstance(b, T):
                    return mk('mul', (a, b), 'int')
                return mk(s, (a, b), 'int')
            if o in ('Add', 'Mult') and not isinstance(a, T):
                a, b = b, a
            return mk('num' + o, (a, b), 'float' if 'float' in (ta, tb) or o == 'Div' else 'int')
        if o == 'Add' and (ta == 'str') != (tb == 'str') and ta in PYTYPE and tb in PYTYPE:
            self.throw(TypeError)
        if 'str' in (ta, tb) and ta in PYTYPE and tb in PYTYPE and o in ('Sub', 'Div', 'FloorDiv', 'Pow', 'BitAnd', 'BitOr', 'LShift', 'RShift'):
            self.throw(TypeError)
        raise Unsupported('%s of %s and %s' % (o, ta, tb))

    def percent(self, f, v):
        vs = list(v) if isinstance(v, tuple) else [v]
        import re
        parts = re.split('(%s|%d|%%)', f)
        out = []
        for p in parts:
            if p == '%%':
                out.append('%')
            elif p in ('%s', '%d'):
                if not vs:
                    self.throw(TypeError)
                x = vs.pop(0)
                if p == '%d' and self.ty(x) != 'int':
                    raise Unsupported('%d')
                out.append(self.world.str_(x))
            elif '%' in p:
                raise Unsupported('%')
            else:
                out.append(p)
        if vs:
            self.throw(TypeError)
        return self.cat(out)

    def e_JoinedStr(self, n, fr):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    raise Unsupported('format')
                out.append(self.world.str_(self.expr(v.value, fr)))
        return self.cat(out)

    def e_Compare(self, n, fr):
        a = self.expr(n.left, fr)
        out = []
        for op, r in zip(n.ops, n.comparators):
            b = self.expr(r, fr)
            out.append(self.compare(op, a, b))
            a = b
            if len(n.ops) > 1 and not self.test(out[-1]):
                return False
        return And(*out)

    def same(self, a, b):
        if a is None or b is None:
            return self.isnone(b if a is None else a)
        if isinstance(a, bool) or isinstance(b, bool):
            if self.ty(a) != 'bool' or self.ty(b) != 'bool':
                return False
            return self.eq(a, b)
        if isinstance(a, (Obj, type)) or isinstance(b, (Obj, type)):
            return a is b
        raise Unsupported('is')

    def compare(self, op, a, b):
        o = type(op).__name__
        if a is POISON or b is POISON:
            raise Unsupported(repr(POISON))
        if o in ('Is', 'IsNot'):
            r = self.same(a, b)
            return r if o == 'Is' else Not(r)
        if o in ('Eq', 'NotEq'):
            r = self.eq(a, b)
            return r if o == 'Eq' else Not(r)
        if o in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if o == 'In' else Not(r)
        a, b = self.need(a), self.need(b)
        if o in ('Gt', 'GtE'):
            a, b, o = b, a, 'Lt' if o == 'Gt' else 'LtE'
        if const(a) and const(b):
            return self.real(lambda: a < b if o == 'Lt' else a <= b)
        ta, tb = self.ty(a), self.ty(b)
        if ta == tb == 'int':
            return mk('<' if o == 'Lt' else '<=', (a, b), 'bool')
        if ta in NUM and tb in NUM or ta == tb == 'str':
            return mk('cmp' + o, (a, b), 'bool')
        raise Unsupported('order of %s and %s' % (ta, tb))

    def contains(self, c, x):
        c = self.need(c)
        if isinstance(c, HD):
            return Or(*[self.eq(x, k) for k in c.d])
        if isinstance(c, (tuple, frozenset)):
            return Or(*[self.eq(x, k) for k in c])
        if isinstance(c, HL):
            out = []
            for s in self.read(c):
                if isinstance(s, For):
                    raise Unsupported('membership')
                out.append(self.eq(x, s[1]))
            return Or(*out)
        if self.ty(c) == 'str':
            x = self.need(x)
            if self.ty(x) != 'str':
                self.throw(TypeError)
            return self.within(x, c)
        if const(c) and const(x):
            return self.real(lambda: x in c)
        raise Unsupported('membership')

    def within(self, x, c):
        """Text x occurs in text c."""
        if not isinstance(c, T) and not isinstance(x, T):
            return x in c
        if x == '' or x is c:
            return True
        t = mk('contains', (c, x), 'bool')
        if isinstance(c, T) and c.op == 'cat':
            parts = Or(*[self.within(x, a) for a in c.args])
            self.fact(Or(Not(parts), t))
            if isinstance(x, str) and len(x) == 1:
                self.fact(Or(parts, Not(t)))
        return t

    def e_Subscript(self, n, fr):
        o = self.need(self.expr(n.value, fr))
        if isinstance(n.slice, ast.Slice):
            b = [None if x is None else self.expr(x, fr) for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            return self.slice(o, *b)
        return self.index(o, self.expr(n.slice, fr))

    def index(self, o, k):
        if isinstance(o, HD):
            return self.get(o, k, lambda: self.throw(KeyError, k))
        if isinstance(o, HElem):
            o = o.kids
        if isinstance(o, HL):
            segs = self.read(o)
            if not isinstance(k, int):
                raise Unsupported('index')
            if not any(isinstance(s, For) for s in segs):
                if not -len(segs) <= k < len(segs):
                    self.throw(IndexError)
                return segs[k][1]
            if 0 <= k < len(segs) and not any(isinstance(s, For) for s in segs[:k + 1]):
                return segs[k][1]
            if len(segs) == 1 and self.plain(segs[0]) is not None:
                return self.index(self.plain(segs[0]), k)
            raise Unsupported('index')
        if isinstance(o, tuple):
            if not isinstance(k, int):
                raise Unsupported('index')
            if not -len(o) <= k < len(o):
                self.throw(IndexError)
            return o[k]
        if const(o) and const(k):
            return self.real(lambda: o[k])
        if isinstance(o, T):
            t = base(o.ty)
            if isinstance(t, tuple) and t[0] == 'tuple' and isinstance(k, int):
                return self.index(self.world.parts(o), k)
            if isinstance(t, tuple) and t[0] == 'seq' and isinstance(k, int):
                n = self.length(o)
                if not self.decide(mk('<', (k, n), 'bool') if k >= 0 else mk('<=', (-k, n), 'bool')):
                    self.throw(IndexError)
                r = mk('item', (o, k), t[1])
                self.world.elemfacts(o, r)
                return r
            if t == 'bytes' and isinstance(k, int) and k >= 0:
                if not self.decide(mk('<', (k, self.length(o)), 'bool')):
                    self.throw(IndexError)
                r = mk('byte', (o, k), 'int')
                self.fact(And(mk('<=', (0, r), 'bool'), mk('<=', (r, 255), 'bool')))
                return r
            if t == 'str' and isinstance(k, int):
                return mk('char', (o, k), 'str')
            if t == 'match':
                return self.method(o, 'group', [k], {})
        raise Unsupported('index of ' + repr(o)[:60])

    def plain(self, s):
        """The sequence, if the segment runs through it as it is."""
        if isinstance(s, For) and len(s.alts) == 1 and not s.alts[0][0] and s.alts[0][1] == [('v', s.var)]:
            return s.seq
        return None

    def get(self, o, k, default):
        """o[k] of a dictionary with constant keys."""
        if k is POISON:
            raise Unsupported(repr(k))
        if const(k):
            return o.d[k] if k in o.d else default()
        if not isinstance(k, T):
            raise Unsupported('dictionary key')
        for c, v in o.d.items():
            if self.decide(self.eq(k, c)):
                return v
        return default()

    def slice(self, o, a, b, c):
        if const(o) and const(a) and const(b) and const(c):
            return o[a:b:c]
        if isinstance(o, tuple) and const(a) and const(b) and const(c):
            return o[a:b:c]
        if isinstance(o, HL):
            segs = self.read(o)
            if not any(isinstance(s, For) for s in segs) and const((a, b, c)):
                return self.new(HL(segs[a:b:c]))
            if isinstance(a, int) and a >= 0 and b is None and c is None and not any(isinstance(x, For) for x in segs[:a]) and len(segs) >= a:
                return self.new(HL(segs[a:]))
            if len(segs) == 1 and self.plain(segs[0]) is not None:
                return self.slice(self.plain(segs[0]), a, b, c)
        if isinstance(o, T) and c is None and const(a) and const(b):
            t = base(o.ty)
            if isinstance(t, tuple) and t[0] == 'seq':
                if a in (None, 0) and b is None:
                    return o
                if not (a is None or isinstance(a, int) and a >= 0) or not (b is None or isinstance(b, int) and b >= 0):
                    raise Unsupported('slice')
                n = self.length(o)
                r = mk('slice', (o, a or 0, b), o.ty)
                m = self.length(r)
                # length of the slice
                end = n if b is None else mk('ite', (mk('<', (n, b), 'bool'), n, b), 'int')
                d = mk('-', (end, a or 0), 'int')
                self.fact(mk('=', (m, mk('ite', (mk('<', (d, 0), 'bool'), 0, d), 'int')), 'bool'))
                return r
            if t == 'str' and o.op == 'pretty' and b is None and a == self.world.restat():
                return self.world.afterfirst(o)
            if t in ('str', 'bytes'):
                return mk('slice', (o, a or 0, b), t)
        raise Unsupported('slice')

    def e_Call(self, n, fr):
        f = self.expr(n.func, fr)
        if f is builtins.locals and not n.args and not n.keywords:
            return self.new(HD({k: v for k, v in fr.vars.items() if v is not POISON and not k.startswith(' ')}))
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                args += self.items([x], fr)
            else:
                args.append(self.expr(x, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.expr(k.value, fr)
                if not isinstance(d, HD):
                    raise Unsupported('**')
                kw.update(d.d)
            else:
                kw[k.arg] = self.expr(k.value, fr)
        if any(a is POISON for a in args) or any(a is POISON for a in kw.values()):
            raise Unsupported(repr(POISON))
        return self.call(f, args, kw)

    def extend(self, l, v):
        for s in list(self.segs(v)):
            self.push(l, s)

    def method(self, o, name, args, kw):
        if isinstance(o, HL):
            return self.listmethod(o, name, args, kw)
        if isinstance(o, HD):
            return self.dictmethod(o, name, args, kw)
        r = self.world.method(o, name, args, kw)
        if r is not None:
            return r[0]
        if const(o) and all(const(a) for a in args) and all(const(a) for a in kw.values()):
            if not hasattr(o, name):
                self.throw(AttributeError)
            return self.real(lambda: getattr(o, name)(*args, **kw))
        raise Unsupported('method %s of %s' % (name, type(o).__name__ if not isinstance(o, T) else o.ty))

    def listmethod(self, o, name, args, kw):
        if kw and name != 'sort':
            raise Unsupported('list method')
        if name == 'append':
            return self.append(o, args[0])
        if name == 'extend':
            return self.extend(o, args[0])
        segs = self.read(o)
        fixed = not any(isinstance(s, For) for s in segs)
        if name == 'insert' and isinstance(args[0], int) and fixed:
            s = list(segs)
            s.insert(args[0], ('v', args[1]))
            return self.setsegs(o, s)
        if name == 'copy':
            return self.new(HL(segs))
        if name == 'clear':
            return self.setsegs(o, [])
        if name == 'pop':
            k = args[0] if args else -1
            if fixed and isinstance(k, int):
                if not -len(segs) <= k < len(segs):
                    self.throw(IndexError)
                s = list(segs)
                v = s.pop(k)
                self.setsegs(o, s)
                return v[1]
            if k == 0 and segs and not isinstance(segs[0], For):
                self.setsegs(o, segs[1:])
                return segs[0][1]
            if k == 0 and len(segs) == 1 and self.plain(segs[0]) is not None:
                q = self.plain(segs[0])
                v = self.index(q, 0)
                self.setsegs(o, self.generic(self.slice(q, 1, None, None), base(q.ty)[1]))
                return v
        if name == 'index' and fixed:
            for i, s in enumerate(segs):
                if self.decide(self.eq(s[1], args[0])):
                    return i
            self.throw(ValueError)
        if name == 'sort' and not kw and fixed and all(const(s[1]) for s in segs):
            return self.setsegs(o, [('v', v) for v in sorted(s[1] for s in segs)])
        raise Unsupported('list method ' + name)

    def dictmethod(self, o, name, args, kw):
        if name == 'get':
            return self.get(o, args[0], lambda: args[1] if len(args) > 1 else None)
        if name == 'items':
            return self.lst([(k, v) for k, v in o.d.items()])
        if name == 'keys':
            return self.lst(list(o.d))
        if name == 'values':
            return self.lst(list(o.d.values()))
        if name == 'copy':
            return self.new(HD(o.d))
        if name == 'update' and len(args) <= 1:
            if args and not isinstance(args[0], HD):
                raise Unsupported('update')
            for k, v in list(args[0].d.items() if args else []) + list(kw.items()):
                self.setkey(o, k, v)
            return None
        if name == 'setdefault' and const(args[0]):
            if args[0] not in o.d:
                self.setkey(o, args[0], args[1] if len(args) > 1 else None)
            return o.d[args[0]]
        raise Unsupported('dictionary method ' + name)

    # ------------------------------------------------------------ substitution

    def subst(self, v, a, b):
        if v is a:
            return b
        if isinstance(v, T):
            args = tuple(self.subst(x, a, b) for x in v.args)
            if all(x is y for x, y in zip(args, v.args)):
                return v
            r = mk(v.op, args, v.ty)
            if v in self.joins:
                self.joins[r] = [self.subst(s, a, b) for s in self.joins[v]]
            return r
        if isinstance(v, tuple):
            return tuple(self.subst(x, a, b) for x in v)
        if isinstance(v, For):
            return For(self.subst(v.seq, a, b), self.subst(v.var, a, b),
                       [(tuple(self.subst(t, a, b) for t in g), [self.subst(s, a, b) for s in ss]) for g, ss in v.alts])
        if isinstance(v, HElem):
            e = self.elem(self.subst(v.tag, a, b), v.cls)
            e.text = self.subst(v.text, a, b)
            e.attrib.d = {k: self.subst(x, a, b) for k, x in v.attrib.d.items()}
            e.kids.segs = [self.subst(s, a, b) for s in v.kids.segs]
            return e
        if isinstance(v, HL):
            return self.new(HL([self.subst(s, a, b) for s in v.segs]))
        return v

    # ------------------------------------------------------------ comparison

    def ob(self, name, ok, firm=False, detail=''):
        o = self.obs.get(name)
        if o is None:
            o = self.obs[name] = Obligation(name, True)
            o.detail = 0
        if isinstance(o.detail, int):
            o.detail += 1
        if not ok:
            o.status = False
            if not o.firm:
                o.firm, o.detail = firm, detail

    def firmly(self, *terms):
        """The path exists and rests on nothing that is merely uninterpreted."""
        if self.sat() is not True:
            return False
        used = set()
        for t in list(self.pc) + [x for x in terms if isinstance(x, (T, tuple))]:
            if t.op in self.USUAL if isinstance(t, T) else False:
                continue
            ops(t, used)
        return not used & (self.WEAK - self.strong)

    # conditions that usually hold
    USUAL = ('stampable', 'encodable')
    # operations that a job takes to be known well enough
    strong = frozenset()

    def differ(self, name, what, *terms):
        if self.sat() is False:
            raise Dead()
        self.ob(name, False, self.firmly(*terms), what + '  [path: %s]' % ', '.join(map(repr, self.pc))[:1500])

    def value(self, a, b, name):
        """Obligation: code value a equals contract value b."""
        if isinstance(a, T) and a.op == 'join' or isinstance(b, T) and b.op == 'join':
            if isinstance(a, T) and isinstance(b, T) and a.op == b.op == 'join' and a.args[0] == b.args[0]:
                if a is b:
                    return self.ob(name, True)
                return self.align(self.joins[a], self.joins[b], name)
        if isinstance(a, HElem) or isinstance(b, HElem):
            if not (isinstance(a, HElem) and isinstance(b, HElem)):
                return self.differ(name, '%r instead of %r' % (show(a), show(b)))
            return self.elems(a, b, name)
        if isinstance(a, HL) and isinstance(b, HL):
            return self.align(a.segs, b.segs, name)
        if isinstance(a, HD) and isinstance(b, HD):
            return self.dicts(a.d, b.d, name)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and not (const(a) and const(b)):
            for i, (x, y) in enumerate(zip(a, b)):
                self.value(x, y, '%s[%d]' % (name, i))
            return
        if a is b:
            return self.ob(name, True)
        ta, tb = self.ty(a), self.ty(b)
        if const(a) and const(b):
            ok = type(a) is type(b) and (a == b or a != a and b != b)
            return self.ob(name, True) if ok else self.differ(name, '%r instead of %r' % (a, b))
        if a is None or b is None or ta == tb:
            try:
                e = self.eq(a, b)
            except Unsupported:
                e = False
            if self.entails(e):
                return self.ob(name, True)
            return self.differ(name, '%s instead of %s' % (show(a), show(b)), a, b)
        return self.differ(name, '%s instead of %s' % (show(a), show(b)), a, b)

    def dicts(self, a, b, name):
        if set(a) != set(b):
            return self.differ(name, 'keys %s instead of %s' % (sorted(map(str, set(a) - set(b))), sorted(map(str, set(b) - set(a)))))
        for k in b:
            self.value(a[k], b[k], '%s.%s' % (name, k))

    def elems(self, a, b, name):
        t = b.tag if isinstance(b.tag, str) else '?'
        if a.tag != b.tag:
            return self.differ(name, 'element %s instead of %s' % (show(a.tag), show(b.tag)), a.tag, b.tag)
        self.ob(name + '/' + t, True)
        self.value(a.text, b.text, '%s/%s text' % (name, t))
        if a.attrib.d or b.attrib.d:
            self.dicts(a.attrib.d, b.attrib.d, '%s/%s attributes' % (name, t))
        self.align(a.kids.segs, b.kids.segs, name + '/' + t)

    def norm(self, segs):
        """Segments with those loops expanded whose number of rounds is 0 or 1."""
        out = []
        for s in segs:
            if isinstance(s, For):
                n = self.length(s.seq)
                if self.entails(mk('=', (n, 0), 'bool') if isinstance(n, T) else n == 0):
                    continue
                if self.entails(mk('=', (n, 1), 'bool') if isinstance(n, T) else n == 1):
                    out += self.norm(self.expand(s))
                    continue
                if all(not x for _, x in s.alts):
                    continue
            out.append(s)
        return out

    def expand(self, s):
        one = self.index(s.seq, 0)
        i = self.pick(len(s.alts))
        g, items = s.alts[i]
        for t in g:
            self.assume(self.subst(t, s.var, one))
        return [self.subst(x, s.var, one) for x in items]

    def align(self, a, b, name):
        outer = self
        a, b = self.norm(a), self.norm(b)
        i = j = 0
        while i < len(a) or j < len(b):
            x = a[i] if i < len(a) else None
            y = b[j] if j < len(b) else None
            if x is not None and y is not None and not isinstance(x, For) and not isinstance(y, For):
                self.value(x[1], y[1], name)
                i, j = i + 1, j + 1
                continue
            if isinstance(x, For) and isinstance(y, For) and x.seq is y.seq:
                self.bodies(x, y, name)
                i, j = i + 1, j + 1
                continue
            s = x if isinstance(x, For) else y if isinstance(y, For) else None
            if s is None:
                return self.differ(name, ('%s is missing' % show(y[1])) if x is None else ('%s should not be there' % show(x[1])))
            n = self.length(s.seq)
            k = self.decide(self.eq(n, 0))
            if not k and self.decide(self.eq(n, 1)):
                k = True
            if k:
                return self.align(a[i:], b[j:], name)
            # at least two rounds
            what = 'loop over %s against %s' % (show(s.seq), show((y if s is x else x)))
            if isinstance(x, For) and isinstance(y, For) and self.stripped(x.seq) is self.stripped(y.seq):
                self.unequal(x, y, name, what)
            return self.differ(name, what, s.seq)
        self.ob(name, True)

    def stripped(self, q):
        while q.op in ('sorted', 'reversed', 'slice') and isinstance(q.args[0], T):
            q = q.args[0]
        return q

    def unequal(self, x, y, name, what):
        """Two loops with the same bodies over arrangements of one sequence; firm if they differ in their number of rounds."""
        a, b = self.length(x.seq), self.length(y.seq)
        g = mk('gen', (self.stripped(x.seq), 0), x.var.ty)
        if self.show_alts(self.subst(x, x.var, g), g) != self.show_alts(self.subst(y, y.var, g), g):
            return
        if self.sat((Not(self.eq(a, b)),)) is not True:
            return
        old = self.strong
        self.strong = old | {'sorted', 'reversed', 'slice'}
        firm = self.firmly()
        self.strong = old
        self.ob(name, False, firm, what + '  [path: %s]' % ', '.join(map(repr, self.pc))[:1500])

    def show_alts(self, f, v):
        return sorted((sorted(repr(t) for t in g if self.subst(t, v, None) is not t), [repr(s) for s in ss]) for g, ss in f.alts)

    def bodies(self, x, y, name):
        """Both bodies give the same for a generic element."""
        if y.var is not x.var:
            y = self.subst(y, y.var, x.var)

        def run():
            self.active.append(x.seq)
            self.assume(Not(mk('=', (self.length(x.seq), 0), 'bool')))
            ga, sa = x.alts[self.pick(len(x.alts))]
            for t in ga:
                self.assume(t)
            gb, sb = y.alts[self.pick(len(y.alts))]
            for t in gb:
                self.assume(t)
            self.align(sa, sb, name + '[*]')
        self.explore(run)

    # ------------------------------------------------------------ entry

    def prove(self, product):
        """Runs product() on every path; it raises obligations."""
        def run():
            self.mods.clear()
            self.globals_.clear()
            self.paths += 1
            product()
        self.explore(run, 20000)


def show(v):
    if isinstance(v, HElem):
        return '<%s>' % (v.tag,)
    if isinstance(v, For):
        return 'items of %s' % show(v.seq)
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'v':
        return show(v[1])
    return repr(v)[:300]


def walk_loop(body):
    """Statements of a loop body, without those of inner loops."""
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            if isinstance(n, (ast.For, ast.While)):
                todo.extend(n.orelse)
            continue
        todo.extend(ast.iter_child_nodes(n))
