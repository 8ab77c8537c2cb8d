"""Symbolic values, the solver context, equality of values."""
import time
import z3

I = z3.IntSort()
z3.set_param('smt.random_seed', 7)


class Unsupported(Exception):
    """Source outside the verified subset: the obligation stays undecided."""


class Dead(Exception):
    """No execution continues past this point."""


class _Unbound:
    def __repr__(self):
        return 'UNBOUND'


UNBOUND = _Unbound()


class Poison:
    """Value a loop leaves unconstrained; reading it is outside the subset."""

    def __init__(self, why):
        self.why = why


class Byt:
    """View of n bytes from offset off of the byte sequence `base`, cut at its end."""
    __slots__ = ('base', 'off', 'n')

    def __init__(self, base, off, n):
        self.base, self.off, self.n = base, off, n

    def __repr__(self):
        return 'Byt(%s,%s,%s)' % (self.base.name, self.off, self.n)


class Base:
    """An arbitrary byte sequence."""

    def __init__(self, cx, name):
        self.name = name
        self.L = z3.Int('len_' + name)
        self.B = z3.Function('byte_' + name, I, I)
        cx.axiom(self.L >= 0)
        cx.nonneg_ids[self.L.get_id()] = self.L


class Small:
    """Up to eight symbolic bytes (elems) of which the first ln count."""
    __slots__ = ('elems', 'ln')

    def __init__(self, elems, ln):
        self.elems, self.ln = tuple(elems), ln


class Rat:
    """Quotient num/den that Python computes as a float (den != 0)."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        self.num, self.den = num, den


class Num:
    """Float-valued operation kept symbolic: equal operations on equal operands agree."""
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op, self.args = op, args


class SStr:
    """Text: literal pieces and formatted values."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)


class App:
    """Result of a library operation kept symbolic."""
    __slots__ = ('op', 'args', 'typ')

    def __init__(self, op, args, typ):
        self.op, self.args, self.typ = op, tuple(args), typ

    def __repr__(self):
        return '%s%r' % (self.op, self.args)


class Union:
    """One of several values, by exclusive and exhaustive guards."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return 'Union%r' % (self.alts,)


class Ref:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'Ref%d' % self.oid


# heap records (immutable)

class HElem:
    __slots__ = ('cls', 'tag', 'text', 'attrib', 'kids')

    def __init__(self, cls, tag, text=None, attrib=(), kids=()):
        self.cls, self.tag, self.text, self.attrib, self.kids = cls, tag, text, attrib, kids

    def but(self, **kw):
        return HElem(kw.get('cls', self.cls), kw.get('tag', self.tag), kw.get('text', self.text),
                     kw.get('attrib', self.attrib), kw.get('kids', self.kids))


class HList:
    __slots__ = ('items', 'frozen')

    def __init__(self, items):
        self.items = tuple(items)

    def but(self, items):
        return HList(items)


class HInst:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class HDict:
    """Dictionary with concrete keys: key -> (guard, value)."""
    __slots__ = ('map',)

    def __init__(self, m):
        self.map = m


class HArr:
    """Dictionary with integer keys: arrays `has` and `val` (0 where absent)."""
    __slots__ = ('has', 'val')

    def __init__(self, has, val):
        self.has, self.val = has, val


# entries of lists and of children of elements

class E:
    __slots__ = ('g', 'v')

    def __init__(self, g, v):
        self.g, self.v = g, v

    def __repr__(self):
        return 'E(%s,%r)' % (self.g, self.v)


class ForE:
    """The entries, for k = 0 .. n-1 in turn."""
    __slots__ = ('g', 'n', 'k', 'es')

    def __init__(self, g, n, k, es):
        self.g, self.n, self.k, self.es = g, n, k, tuple(es)

    def __repr__(self):
        return 'ForE(%s,%r)' % (self.n, self.es)


class SeqE:
    """What the completed iterations of a loop have added, kept symbolic."""
    __slots__ = ('g', 'sym', 'loop')

    def __init__(self, g, sym, loop=None):
        self.g, self.sym, self.loop = g, sym, loop

    def __repr__(self):
        return 'SeqE(%s)' % (self.sym,)


class KidsE:
    """The children of a part of a symbolic result."""
    __slots__ = ('g', 'app', 'proj')

    def __init__(self, g, app, proj):
        self.g, self.app, self.proj = g, app, proj


class HoleE:
    """What earlier iterations of the loop being analysed have added: unreadable."""
    g = True

    def __init__(self, tok):
        self.tok = tok


def reguard(e, g):
    g = And(g, e.g)
    if isinstance(e, E):
        return E(g, e.v)
    if isinstance(e, ForE):
        return ForE(g, e.n, e.k, e.es)
    if isinstance(e, SeqE):
        return SeqE(g, e.sym, e.loop)
    if isinstance(e, KidsE):
        return KidsE(g, e.app, e.proj)
    raise Unsupported('conditional change of a list inside a loop')


# ---------------------------------------------------------------- formulas

def And(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(x):
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return Not(b)
    if b is False:
        return Not(a)
    if a.eq(b):
        return True
    return a == b


def isint(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, z3.ArithRef))


def isbool(v):
    return isinstance(v, (bool, z3.BoolRef))


def conc(v):
    """Python value of a constant term, else the term."""
    if isinstance(v, z3.ExprRef):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


def simp(v):
    if isinstance(v, z3.ExprRef):
        return conc(z3.simplify(v))
    return v


def If(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
        return a
    if not isinstance(a, z3.ExprRef) and not isinstance(b, z3.ExprRef):
        if type(a) is type(b) and a == b:
            return a
    if isbool(a) and isbool(b):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return Not(c)
        if a is True:
            return Or(c, b)
        if a is False:
            return And(Not(c), b)
        if b is True:
            return Or(Not(c), a)
        if b is False:
            return And(c, a)
        return z3.If(c, a, b)
    return z3.If(c, z3.IntVal(a) if isinstance(a, int) else a, z3.IntVal(b) if isinstance(b, int) else b)


def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
        return True
    return simp(a == b)


def ile(a, b):
    return simp(a <= b)


def ilt(a, b):
    return simp(a < b)


class FnKey:
    """Stable identity of terms (keeps them alive)."""


def key(v):
    """Structural key of a value; raises Unsupported for values without one."""
    if isinstance(v, z3.ExprRef):
        return ('z', v.get_id())
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return (type(v).__name__, v)
    if isinstance(v, Byt):
        return ('byt', v.base.name, key(v.off), key(v.n))
    if isinstance(v, Small):
        return ('small',) + tuple(key(x) for x in v.elems) + (key(v.ln),)
    if isinstance(v, Rat):
        return ('rat', key(v.num), key(v.den))
    if isinstance(v, Num):
        return ('num', v.op) + tuple(key(x) for x in v.args)
    if isinstance(v, App):
        return ('app', v.op, v.typ) + tuple(key(x) for x in v.args)
    if isinstance(v, SStr):
        return ('str',) + tuple(key(x) for x in v.parts)
    if isinstance(v, tuple):
        return ('tup',) + tuple(key(x) for x in v)
    if isinstance(v, Union):
        return ('union',) + tuple((key(g), key(x)) for g, x in v.alts)
    if isinstance(v, E):
        return ('E', key(v.g), key(v.v))
    if isinstance(v, ForE):
        return ('F', key(v.g), key(v.n), key(v.k)) + tuple(key(e) for e in v.es)
    if isinstance(v, SeqE):
        return ('S', key(v.g), key(v.sym))
    if isinstance(v, KidsE):
        return ('K', key(v.g), key(v.app), v.proj)
    if isinstance(v, Ref):
        return ('ref', v.oid)
    if isinstance(v, type):
        return ('type', v.__name__)
    raise Unsupported('no key for %r' % (type(v),))


class NeedProof(Exception):
    pass


class Cond:
    """Member of a path condition: a branch taken (cond) or a fact that follows."""
    __slots__ = ('x', 'cond')

    def __init__(self, x, cond):
        self.x, self.cond = x, cond


class Level:
    """What one level of the solver asserts."""

    def __init__(self, cond, done):
        self.cond, self.done = cond, done
        self.ids, self.ax = [], []


class Ctx:
    """Solver, axioms, fresh names, symbolic library operations."""

    def __init__(self, timeout=4000):
        self.solver = z3.Solver()
        self.timeout = timeout
        self.solver.set('timeout', min(timeout, 700))
        self.axioms = []
        self.levels = [Level(None, 0)]
        self.trig, self.trigby, self.late, self.special = [], {}, [], {}
        self.present, self.used, self.occ = set(), set(), {}
        self.nonneg_ids = {}
        self.count = 0
        self.keep = []
        self.acks = {}         # key -> const
        self.ackops = {}       # op -> [(args, const)]
        self.ackdef = {}       # const id -> (op, args)
        self.bytes_seen = set()
        self.gheap = {}        # records of expansions
        self.nref = 0
        self.fsmemo = {}
        self.checks = 0
        self.retries = 0
        self.time = 0.0
        self.queries = {}
        self.assumptions = set()

    def fresh(self, hint):
        self.count += 1
        return '%s!%d' % (hint, self.count)

    def int(self, hint):
        return z3.Int(self.fresh(hint))

    def bool(self, hint):
        return z3.Bool(self.fresh(hint))

    def axiom(self, x, on=()):
        """A fact; with `on` it is a fact about these terms, used only where they all occur."""
        if x is True:
            return
        if x is False:
            x = z3.BoolVal(False)
        if on:
            n = len(self.trig)
            self.trig.append((x, tuple(t.get_id() for t in on)))
            self.keep.append(on)
            for t in on:
                self.special[t.get_id()] = t
                self.trigby.setdefault(t.get_id(), []).append(n)
            self.late.append(n)
        else:
            self.axioms.append(x)

    def newref(self):
        self.nref += 1
        return Ref(self.nref)

    # -- solver

    def occurring(self, v):
        """Ids of bytes and named values that occur in a formula."""
        r = self.occ.get(v.get_id())
        if r is not None:
            return r
        todo = [v]
        while todo:
            x = todo[-1]
            i = x.get_id()
            if i in self.occ:
                todo.pop()
                continue
            cs = x.children()
            miss = [c for c in cs if c.get_id() not in self.occ]
            if miss:
                todo.extend(miss)
                continue
            sets = [self.occ[c.get_id()] for c in cs]
            sets = [q for q in sets if q]
            own = z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (not cs or x.decl().name().startswith('byte_'))
            if own:
                sets.append(frozenset((i,)))
            if not sets:
                out = frozenset()
            elif all(q is sets[0] for q in sets):
                out = sets[0]
            else:
                out = frozenset().union(*sets)
            self.occ[i] = out
            self.keep.append(x)
            todo.pop()
        return self.occ[v.get_id()]

    def put(self, f, lv):
        """Assert a formula and the facts about what occurs in it, at the current level."""
        todo = [f]
        pres = self.present
        while todo:
            x = todo.pop()
            self.solver.add(x)
            for i in self.occurring(x):
                if i in pres:
                    continue
                pres.add(i)
                lv.ids.append(i)
                for n in self.trigby.get(i, ()):
                    if n not in self.used and all(j in pres for j in self.trig[n][1]):
                        self.used.add(n)
                        lv.ax.append(n)
                        todo.append(self.trig[n][0])

    def drop(self, lv):
        for i in lv.ids:
            self.present.discard(i)
        for n in lv.ax:
            self.used.discard(n)
            self.late.append(n)

    def settle(self, lv):
        """Facts not yet asserted though all they are about occurs."""
        if lv.done < len(self.axioms):
            for a in self.axioms[lv.done:]:
                self.put(a, lv)
            lv.done = len(self.axioms)
        while self.late:
            todo, self.late = self.late, []
            for n in todo:
                if n not in self.used and all(j in self.present for j in self.trig[n][1]):
                    self.used.add(n)
                    lv.ax.append(n)
                    self.put(self.trig[n][0], lv)

    def sync(self, pc):
        lv = self.levels
        k = 0
        while k < len(lv) - 1 and k < len(pc) and lv[k + 1].cond is pc[k]:
            k += 1
        if len(lv) - 1 > k:
            self.solver.pop(len(lv) - 1 - k)
            for l in lv[k + 1:]:
                self.drop(l)
            del lv[k + 1:]
        self.settle(lv[-1])
        for c in pc[k:]:
            self.solver.push()
            l = Level(c, lv[-1].done)
            lv.append(l)
            self.put(c.x, l)
        self.settle(lv[-1])

    def check(self, pc, x, model=False, timeout=None):
        """Satisfiability of x with the path condition."""
        if x is False:
            return (z3.unsat, None) if model else z3.unsat
        self.checks += 1
        t0 = time.time()
        self.sync(pc)
        self.solver.push()
        lv = Level(None, self.levels[-1].done)
        try:
            if x is not True:
                self.put(x, lv)
            sv = self.solver
            r = sv.check()
            if r == z3.unknown:
                # another solver, from scratch
                sv = z3.SimpleSolver()
                sv.set('timeout', timeout or self.timeout)
                sv.set('relevancy', 0)
                sv.add(self.solver.assertions())
                r = sv.check()
                self.retries += 1
            if model:
                return r, (sv.model() if r == z3.sat else None)
            return r
        finally:
            self.solver.pop()
            self.drop(lv)
            self.time += time.time() - t0

    def feasible(self, pc, x):
        if isinstance(x, bool):
            return x
        return self.check(pc, x) != z3.unsat

    def proved(self, pc, x):
        if isinstance(x, bool):
            return x
        k = (tuple(map(id, pc)), x.get_id(), len(self.axioms), len(self.trig))
        r = self.queries.get(k)
        if r is None:
            r = self.check(pc, Not(x)) == z3.unsat
            self.queries[k] = r
            self.keep.append((x, pc))
        return r

    def proved_hard(self, pc, x, ms=30000):
        """As proved, with a fresh solver and more time when the quick attempt gives up."""
        if isinstance(x, bool):
            return x, None
        r, m = self.check(pc, Not(x), model=True, timeout=ms)
        if r == z3.unsat:
            return True, None
        if r == z3.sat:
            return False, m
        return None, None

    def nonneg(self, pc, t):
        if isinstance(t, int):
            return t >= 0
        if self._nn(t):
            return True
        return self.proved(pc, t >= 0)

    def _nn(self, t, d=0):
        if z3.is_int_value(t):
            return t.as_long() >= 0
        if t.get_id() in self.nonneg_ids:
            return True
        if d > 12:
            return False
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_MUL:
            return all(self._nn(c, d + 1) for c in t.children())
        if k == z3.Z3_OP_MOD:
            return True
        if k == z3.Z3_OP_IDIV:
            c = t.children()
            return self._nn(c[0], d + 1) and self._nn(c[1], d + 1)
        if k == z3.Z3_OP_ITE:
            c = t.children()
            return self._nn(c[1], d + 1) and self._nn(c[2], d + 1)
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and t.decl().name().startswith('byte_'):
            return True
        return False

    # -- bytes

    def byte(self, base, at):
        t = base.B(z3.IntVal(at) if isinstance(at, int) else at)
        i = t.get_id()
        if i not in self.bytes_seen:
            self.bytes_seen.add(i)
            self.keep.append(t)
            self.axiom(z3.And(t >= 0, t <= 255), (t,))
        return t

    def blen(self, v):
        if isinstance(v, bytes):
            return len(v)
        if isinstance(v, Small):
            return v.ln
        if isinstance(v, Byt):
            L, off, n = v.base.L, v.off, v.n
            if isinstance(off, int) and off == 0 and isinstance(n, z3.ExprRef) and n.eq(L):
                return L
            if isinstance(n, int) and n <= 0:
                return 0
            a = simp(off + n <= L)
            return simp(If(a, n, If(simp(off <= L), simp(L - off), 0)))
        raise Unsupported('length of %r' % (v,))

    def bget(self, v, i):
        """Byte i (0 <= i < len assumed)."""
        if isinstance(v, bytes):
            return v[i]
        if isinstance(v, Small):
            return v.elems[i]
        return self.byte(v.base, simp(v.off + i))

    # -- symbolic operations as constants with congruence

    def ack(self, op, args, sort, pc=None, pos=False):
        """The value of op on args; equal arguments give equal values."""
        args = tuple(args)
        k = (op, str(sort)) + tuple(key(a) for a in args)
        c = self.acks.get(k)
        if c is not None:
            return c
        group = self.ackops.setdefault((op, str(sort)), [])
        c = z3.Const(self.fresh(op), sort)
        for args2, c2 in group:
            h = And(*[same(self, a, b, hyp=True) for a, b in zip(args, args2)]) if len(args) == len(args2) else False
            if op == 'mul' and h is not True:
                h = Or(h, And(ieq(args[0], args2[1]), ieq(args[1], args2[0])))
            if h is False:
                continue
            if h is True:
                self.acks[k] = c2
                return c2
            self.axiom(Implies(h, c == c2), (c, c2))
        self.acks[k] = c
        self.keep.append(args)
        group.append((args, c))
        self.ackdef[c.get_id()] = (op, args, sort)
        self.keep.append(c)
        if pos:
            self.axiom(c >= 0, (c,))
            self.nonneg_ids[c.get_id()] = c
        return c

    def symbols(self, v):
        """Ids of the uninterpreted constants a value depends on."""
        if isinstance(v, z3.ExprRef):
            i = v.get_id()
            r = self.fsmemo.get(i)
            if r is not None:
                return r
            self.keep.append(v)
            out = set()
            if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(i)
                d = self.ackdef.get(i)
                if d:
                    for a in d[1]:
                        out |= self.symbols(a)
            else:
                for c in v.children():
                    out |= self.symbols(c)
            self.fsmemo[i] = frozenset(out)
            return self.fsmemo[i]
        if isinstance(v, Byt):
            return self.symbols(v.off) | self.symbols(v.n)
        if isinstance(v, Small):
            return frozenset().union(*[self.symbols(x) for x in v.elems + (v.ln,)])
        if isinstance(v, Rat):
            return self.symbols(v.num) | self.symbols(v.den)
        if isinstance(v, (Num, App)):
            return frozenset().union(*[self.symbols(x) for x in v.args])
        if isinstance(v, SStr):
            return frozenset().union(*[self.symbols(x) for x in v.parts])
        if isinstance(v, tuple):
            return frozenset().union(*[self.symbols(x) for x in v])
        if isinstance(v, Union):
            return frozenset().union(*[self.symbols(g) | self.symbols(x) for g, x in v.alts])
        if isinstance(v, E):
            return self.symbols(v.g) | self.symbols(v.v)
        if isinstance(v, ForE):
            return self.symbols(v.g) | self.symbols(v.n) | (frozenset().union(*[self.symbols(e) for e in v.es]) - {v.k.get_id()})
        if isinstance(v, SeqE):
            return self.symbols(v.g) | self.symbols(v.sym)
        if isinstance(v, KidsE):
            return self.symbols(v.g) | self.symbols(v.app)
        return frozenset()

    def subst(self, v, k, t):
        """v with symbol k replaced by t."""
        if isinstance(v, z3.ExprRef):
            if k.get_id() not in self.symbols(v):
                return v
            reps = [(k, z3.IntVal(t) if isinstance(t, int) else t)]
            for c in self._acks_in(v, k):
                op, args, sort = self.ackdef[c.get_id()]
                reps.append((c, self.ack(op, [self.subst(a, k, t) for a in args], sort)))
                if c.get_id() in self.nonneg_ids:
                    n = reps[-1][1]
                    if n.get_id() not in self.nonneg_ids:
                        self.nonneg_ids[n.get_id()] = n
                        self.axiom(n >= 0, (n,))
            r = simp(z3.substitute(v, *reps))
            self._note_bytes(r)
            return r
        if isinstance(v, Byt):
            return Byt(v.base, self.subst(v.off, k, t), self.subst(v.n, k, t))
        if isinstance(v, Small):
            return Small([self.subst(x, k, t) for x in v.elems], self.subst(v.ln, k, t))
        if isinstance(v, Rat):
            return Rat(self.subst(v.num, k, t), self.subst(v.den, k, t))
        if isinstance(v, Num):
            return Num(v.op, *[self.subst(x, k, t) for x in v.args])
        if isinstance(v, App):
            return App(v.op, [self.subst(x, k, t) for x in v.args], v.typ)
        if isinstance(v, SStr):
            return SStr([self.subst(x, k, t) for x in v.parts])
        if isinstance(v, tuple):
            return tuple(self.subst(x, k, t) for x in v)
        if isinstance(v, Union):
            return Union([(self.subst(g, k, t), self.subst(x, k, t)) for g, x in v.alts])
        if isinstance(v, E):
            return E(self.subst(v.g, k, t), self.subst(v.v, k, t))
        if isinstance(v, ForE):
            if v.k.eq(k):
                return ForE(self.subst(v.g, k, t), self.subst(v.n, k, t), v.k, v.es)
            if isinstance(t, z3.ExprRef) and v.k.get_id() in self.symbols(t):
                raise Unsupported('capture in substitution')
            return ForE(self.subst(v.g, k, t), self.subst(v.n, k, t), v.k, [self.subst(e, k, t) for e in v.es])
        if isinstance(v, (SeqE, KidsE)):
            if k.get_id() in self.symbols(v):
                if isinstance(v, KidsE):
                    return KidsE(self.subst(v.g, k, t), self.subst(v.app, k, t), v.proj)
                raise Unsupported('loop result inside a loop')
            return v
        return v

    def _subterms(self, v):
        """All distinct subterms of v."""
        seen = {}
        todo = [v]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen[i] = x
            todo.extend(x.children())
        return seen.values()

    def _acks_in(self, v, k):
        ki = k.get_id()
        return [c for c in self._subterms(v)
                if c.get_id() in self.ackdef and z3.is_const(c) and ki in self.symbols(c)]

    def _note_bytes(self, v):
        if not isinstance(v, z3.ExprRef):
            return
        for x in self._subterms(v):
            if x.get_id() not in self.bytes_seen and z3.is_app(x) and x.num_args() == 1 and \
                    x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('byte_'):
                self.bytes_seen.add(x.get_id())
                self.keep.append(x)
                self.axiom(z3.And(x >= 0, x <= 255), (x,))


# ---------------------------------------------------------------- equality

USES_CSIZ = (b'\xff\x53', b'\xff\x5d', b'\xff\x5e', b'\xff\x5f', b'\xff\x63', b'\xff\x90')
USES_START = (b'\xff\x90',)


def isbytes(v):
    return isinstance(v, (bytes, Byt, Small)) or (isinstance(v, App) and v.typ == 'bytes')


def isstr(v):
    return isinstance(v, (str, SStr)) or (isinstance(v, App) and v.typ == 'str')


def kind_in(cx, kind, names):
    if isinstance(kind, str):
        return False
    return Or(*[byteq(cx, kind, n) for n in names])


def same(cx, a, b, hyp=False):
    """Formula that implies that a and b are the same value (of the same type).

    With hyp it is exact or stronger and free of skolem symbols, so it may be
    assumed as well as proved."""
    if a is b:
        return True
    if isinstance(a, Union) or isinstance(b, Union):
        aa = a.alts if isinstance(a, Union) else ((True, a),)
        bb = b.alts if isinstance(b, Union) else ((True, b),)
        out = []
        for g, x in aa:
            for h, y in bb:
                out.append(Implies(And(g, h), same(cx, x, y, hyp)))
        return And(*out)
    if isint(a) and isint(b):
        return ieq(a, b)
    if isbool(a) and isbool(b):
        return Iff(a, b)
    if isinstance(a, (z3.ArrayRef, z3.QuantifierRef)) and isinstance(b, (z3.ArrayRef, z3.QuantifierRef)):
        return True if a.eq(b) else a == b
    if isbytes(a) and isbytes(b):
        return byteq(cx, a, b, suff=True)
    if isstr(a) and isstr(b):
        return streq(cx, a, b, hyp, suff=True)
    if isinstance(a, Rat) or isinstance(b, Rat):
        if isinstance(a, Rat) and isinstance(b, Rat):
            return And(ieq(a.num, b.num), ieq(a.den, b.den))
        if isinstance(a, Rat):
            a = Num('div', a.num, a.den)
        if isinstance(b, Rat):
            b = Num('div', b.num, b.den)
    if isinstance(a, Num) and isinstance(b, Num):
        if a.op != b.op or len(a.args) != len(b.args):
            return False
        r = And(*[same(cx, x, y, hyp) for x, y in zip(a.args, b.args)])
        if a.op == 'mul' and r is not True:
            r = Or(r, And(same(cx, a.args[0], b.args[1], hyp), same(cx, a.args[1], b.args[0], hyp)))
        return r
    if isinstance(a, App) and isinstance(b, App):
        return appsame(cx, a, b, hyp)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[same(cx, x, y, hyp) for x, y in zip(a, b)])
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.oid == b.oid
    if isinstance(a, (E, ForE, SeqE, KidsE)) and type(a) is type(b):
        if isinstance(a, SeqE):
            return And(Iff(a.g, b.g), same(cx, a.sym, b.sym))
        if isinstance(a, KidsE):
            return And(Iff(a.g, b.g), a.proj == b.proj, same(cx, a.app, b.app, hyp))
        if isinstance(a, E):
            return And(Iff(a.g, b.g), same(cx, a.v, b.v, hyp))
        if hyp and key(a) != key(b):
            return False
        if key(a) == key(b):
            return True
        raise NeedProof()
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return False
    if type(a) is type(b) and not isinstance(a, (Byt, Small, Num, Rat, App, SStr, Ref, E, ForE, SeqE, KidsE)):
        try:
            return bool(a == b) or (a != a and b != b)
        except Exception:
            return False
    return False


def appsame(cx, a, b, hyp):
    if a.op != b.op or a.typ != b.typ or len(a.args) != len(b.args):
        return False
    if a.op == 'sub':
        return subsame(cx, a, b, hyp)
    return And(*[same(cx, x, y, hyp) for x, y in zip(a.args, b.args)])


TAGS = {}      # name -> types of the structures called so


def tagis(cx, kind, step):
    """The element of a part of this type is called `step`."""
    if step == 'unknownBox':
        return Not(Or(*[byteq(cx, kind, k) for ks in TAGS.values() for k in ks]))
    return Or(*[byteq(cx, kind, k) for k in TAGS.get(step, ())])


def subsame(cx, a, b, hyp):
    """Same contract applied to the same arguments (those the contract reads)."""
    k1, c1, s1, st1 = a.args[:4]
    k2, c2, s2, st2 = b.args[:4]
    r = And(same(cx, k1, k2, hyp), same(cx, c1, c2, hyp))
    if r is False:
        return False
    uses = kind_in(cx, k1, USES_CSIZ)
    r = And(r, Implies(uses, same(cx, s1, s2, hyp)))
    starts = kind_in(cx, k1, USES_START)
    r = And(r, Implies(starts, same(cx, st1, st2, hyp)))
    for x, y in zip(a.args[4:], b.args[4:]):
        r = And(r, same(cx, x, y, hyp))
    return r


def byteq(cx, a, b, suff=False):
    """a == b for byte strings.  With suff a sufficient condition will do."""
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a == b
    if isinstance(a, App) or isinstance(b, App):
        if isinstance(a, App) and isinstance(b, App):
            if a.op == b.op and len(a.args) == len(b.args):
                r = And(*[same(cx, x, y, True) for x, y in zip(a.args, b.args)])
                if r is True or suff:
                    return r
        elif suff:
            return False
        if key(a) > key(b):
            a, b = b, a
        return cx.ack('bytes_eq', [a, b], z3.BoolSort())
    if isinstance(a, bytes):
        a, b = b, a
    if isinstance(b, bytes):
        r = [ieq(cx.blen(a), len(b))]
        if isinstance(a, Small) and len(a.elems) < len(b):
            return False
        if isinstance(a, Byt) and isinstance(a.n, int) and a.n < len(b):
            return False
        for i in range(len(b)):
            r.append(ieq(cx.bget(a, i), b[i]))
        return And(*r)
    if isinstance(a, Byt) and isinstance(b, Byt):
        if a.base is b.base:
            if key(a) == key(b):
                return True
            la, lb = cx.blen(a), cx.blen(b)
            sufficient = Or(And(ieq(a.off, b.off), ieq(la, lb)), And(ieq(la, 0), ieq(lb, 0)))
            if suff:
                return sufficient
        if isinstance(a.n, int) and isinstance(b.n, int) and a.n <= 16 and b.n <= 16:
            la, lb = cx.blen(a), cx.blen(b)
            r = [ieq(la, lb)]
            for i in range(min(a.n, b.n)):
                r.append(Or(ile(la, i), ieq(cx.bget(a, i), cx.bget(b, i))))
            return And(*r)
        if suff:
            return False
        return cx.ack('bytes_eq', [a, b], z3.BoolSort())
    if isinstance(a, Small) or isinstance(b, Small):
        if isinstance(a, Byt):
            a, b = b, a
        # a is Small
        la, lb = cx.blen(a), cx.blen(b)
        m = len(a.elems)
        r = [ieq(la, lb)]
        for i in range(m):
            if isinstance(b, Small) and i >= len(b.elems):
                r.append(ile(la, i))
            else:
                r.append(Or(ile(la, i), ieq(cx.bget(a, i), cx.bget(b, i))))
        return And(*r)
    raise Unsupported('comparing %r with %r' % (a, b))


def parts(v):
    return v.parts if isinstance(v, SStr) else (v,) if v != '' else ()


def streq(cx, a, b, hyp=False, suff=False):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, App) and x.op == 'uuidtext' and isinstance(y, str):
            import uuid
            try:
                u = uuid.UUID(y)
            except ValueError:
                return False
            return byteq(cx, x.args[0], u.bytes) if str(u) == y else False
        if isinstance(x, App) and x.op == 'tagof' and isinstance(y, str):
            return tagis(cx, x.args[0], y)
    pa, pb = parts(a), parts(b)
    if len(pa) == len(pb):
        out = []
        for x, y in zip(pa, pb):
            if isinstance(x, str) and isinstance(y, str):
                out.append(x == y)
            elif isinstance(x, App) and isinstance(y, App):
                out.append(appsame(cx, x, y, hyp))
            elif isinstance(x, tuple) and isinstance(y, tuple):
                out.append(same(cx, x, y, hyp))
            else:
                out.append(False)
        r = And(*out)
        if r is True or suff:
            return r
    elif suff:
        return False
    # both pieces of literal text and one formatted integer: decide exactly if a literal
    if isinstance(a, str) and a == '' or isinstance(b, str) and b == '':
        other = pb if a == '' else pa
        if any(isinstance(p, str) or (isinstance(p, tuple) and p[0] in ('fmt', 'hexpad')) for p in other):
            return False
    if key(a) > key(b) if type(key(a)) is type(key(b)) and str(key(a)) else False:
        a, b = b, a
    return cx.ack('text_eq', [a, b], z3.BoolSort())


def eqv(cx, a, b):
    """a == b as Python decides it (exact); no exceptions for these values."""
    if isinstance(a, Union) or isinstance(b, Union):
        aa = a.alts if isinstance(a, Union) else ((True, a),)
        bb = b.alts if isinstance(b, Union) else ((True, b),)
        return Or(*[And(g, h, eqv(cx, x, y)) for g, x in aa for h, y in bb])
    if isbool(a) and isbool(b):
        return Iff(a, b)
    if isbool(a) and isint(b):
        return eqv(cx, If(a, 1, 0), b)
    if isbool(b) and isint(a):
        return eqv(cx, a, If(b, 1, 0))
    if isint(a) and isint(b):
        return ieq(a, b)
    if isinstance(a, Rat) and isint(b):
        return ieq(a.num, simp(a.den * b)) if isinstance(a.den, int) or isinstance(b, int) else _undecided(a, b)
    if isinstance(b, Rat) and isint(a):
        return eqv(cx, b, a)
    if isinstance(a, Rat) and isinstance(b, Rat) and isinstance(a.den, int) and isinstance(b.den, int):
        return ieq(simp(a.num * b.den), simp(b.num * a.den))
    if isbytes(a) and isbytes(b):
        return byteq(cx, a, b)
    if isstr(a) and isstr(b):
        return streq(cx, a, b)
    if isinstance(a, (Num, Rat)) or isinstance(b, (Num, Rat)):
        other = b if isinstance(a, (Num, Rat)) else a
        if isinstance(other, (Num, Rat, float)) or isint(other):
            return cx.ack('float_eq', [a, b], z3.BoolSort())
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[eqv(cx, x, y) for x, y in zip(a, b)])
    if isinstance(a, App) and isinstance(b, App) and a.op == b.op:
        return same(cx, a, b, True)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.oid == b.oid
    sym = (z3.ExprRef, Byt, Small, Num, Rat, App, SStr, Ref)
    if isinstance(a, sym) or isinstance(b, sym):
        return False
    return bool(a == b)


def _undecided(a, b):
    raise Unsupported('comparing %r with %r' % (a, b))
