"""Merging symbolic interpreter for the Python source of /repo and of the contracts.

One interpreter gives meaning to both: functions are fetched as syntax trees
from the source files of the modules that are really imported, and executed on
symbolic values; joins of control flow merge states instead of forking them.
"""
import ast
import builtins
import types
import z3

from .vals import (Unsupported, Dead, UNBOUND, Poison, Byt, Base, Small, Rat, Num, SStr, App,
                   Union, Ref, HElem, HList, HInst, HDict, HArr, E, ForE, SeqE, KidsE, HoleE,
                   reguard, And, Or, Not, Implies, Iff, If, simp, conc, ieq, ile, ilt, isint,
                   isbool, isbytes, isstr, key, Cond, same, byteq, streq, eqv)


class Frame:
    __slots__ = ('vars', 'glob', 'ret', 'loops', 'fn', 'closure')

    def __init__(self, vars_, glob, ret, fn, closure=None):
        self.vars, self.glob, self.ret, self.fn = vars_, glob, ret, fn
        self.loops = ()
        self.closure = closure

    def clone(self):
        f = Frame(dict(self.vars), self.glob, self.ret, self.fn, self.closure)
        f.loops = self.loops
        return f


class Exit:
    """Collects the states that leave through one kind of exit."""

    def __init__(self, depth):
        self.depth = depth
        self.items = []


class State:
    def __init__(self):
        self.pc = ()
        self.heap = {}
        self.frames = []
        self.handlers = ()

    def clone(self):
        s = State()
        s.pc = self.pc
        s.heap = dict(self.heap)
        s.frames = [f.clone() for f in self.frames]
        s.handlers = self.handlers
        return s

    def become(self, o):
        self.pc, self.heap, self.frames, self.handlers = o.pc, o.heap, o.frames, o.handlers

    def assume(self, x, cond=True):
        if x is True:
            return
        if x is False:
            raise Dead()
        self.pc = self.pc + (Cond(x, cond),)


class Bound:
    """A function of the verified program bound to an object."""
    __slots__ = ('fn', 'obj')

    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Native:
    """A modelled method bound to its object."""
    __slots__ = ('name', 'obj')

    def __init__(self, name, obj):
        self.name, self.obj = name, obj


class Closure:
    __slots__ = ('node', 'env', 'glob')

    def __init__(self, node, env, glob):
        self.node, self.env, self.glob = node, env, glob


class Rng:
    """range(lo, hi, step)"""
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Raised(Exception):
    pass


def kcanon(d):
    return z3.Int('K%d' % d)


SYM = (z3.ExprRef, Byt, Small, Rat, Num, SStr, App, Union, Ref, Poison, Rng, Bound, Native, Closure)


def concrete(v):
    if isinstance(v, tuple):
        return all(concrete(x) for x in v)
    return not isinstance(v, SYM) and v is not UNBOUND


class Source:
    """Syntax trees of the functions of imported modules."""

    def __init__(self):
        self.files = {}
        self.nodes = {}
        self.used = {}

    def node(self, fn):
        code = fn.__code__
        fname = code.co_filename
        if fname not in self.files:
            with open(fname, 'rb') as f:
                tree = ast.parse(f.read())
            m = {}
            short = fname.rsplit('/', 1)[-1]
            for n in ast.walk(tree):
                if isinstance(n, ast.stmt):
                    n.where = (short, n.lineno)
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    line = n.decorator_list[0].lineno if n.decorator_list else n.lineno
                    m[(n.name, line)] = n
            self.files[fname] = m
        n = self.files[fname].get((code.co_name, code.co_firstlineno))
        if n is None:
            raise Unsupported('source of %s' % code.co_name)
        self.used[fname.rsplit('/', 1)[-1] + ':' + fn.__qualname__] = n
        return n


def assigned(nodes):
    """Names bound by the statements."""
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])

        visit_ImportFrom = visit_Import
    for n in nodes:
        V().visit(n)
    return out


class Interp:
    def __init__(self, cx, models):
        self.cx = cx
        self.src = Source()
        self.m = models
        self.m.it = self
        self.depth = 0
        self.fordepth = 0
        self.loops = []           # records of while loops
        self.taint = set()
        self.reached = set()
        self.frame_writes = []
        self.spec_phase = True
        self.notes = []
        self.loopmode = None

    # ------------------------------------------------------------ basics

    def rec(self, st, ref):
        r = st.heap.get(ref.oid)
        if r is None:
            r = self.cx.gheap[ref.oid]
        return r

    def new(self, st, rec):
        r = self.cx.newref()
        st.heap[r.oid] = rec
        return r

    def newlist(self, st, items):
        return self.new(st, HList([E(True, x) for x in items]))

    def exit(self, st, ex, payload):
        s = st.clone()
        del s.frames[ex.depth:]
        ex.items.append((s, payload))
        raise Dead()

    def raise_(self, st, exc):
        if not st.handlers:
            raise Unsupported('exception %r outside any function' % exc)
        self.exit(st, st.handlers[-1], exc)

    def raise_if(self, st, c, exc):
        c = simp(c)
        if c is False:
            return
        if c is not True and not self.cx.feasible(st.pc, c):
            return
        if not st.handlers:
            raise Unsupported('exception %r outside any function' % exc)
        s = st.clone()
        ex = st.handlers[-1]
        del s.frames[ex.depth:]
        if c is not True:
            s.assume(c)
        ex.items.append((s, exc))
        if c is True:
            raise Dead()
        self.assume(st, Not(c))

    def assume(self, st, c, cond=True):
        c = simp(c)
        if c is True:
            return
        if c is False or not self.cx.feasible(st.pc, c):
            raise Dead()
        st.assume(c, cond)

    def branch(self, st, c, f1, f2):
        """Run f1 where c holds and f2 elsewhere, on st; merge."""
        c = simp(c)
        if c is True:
            return f1(st)
        if c is False:
            return f2(st)
        t = self.cx.feasible(st.pc, c)
        f = self.cx.feasible(st.pc, Not(c))
        if t and not f:
            return f1(st)
        if f and not t:
            return f2(st)
        if not t:
            raise Dead()
        n0 = len(st.pc)
        s1, s2 = st.clone(), st.clone()
        s1.assume(c)
        s2.assume(Not(c))
        ok1 = ok2 = True
        v1 = v2 = None
        try:
            v1 = f1(s1)
        except Dead:
            ok1 = False
        try:
            v2 = f2(s2)
        except Dead:
            ok2 = False
        if not ok1 and not ok2:
            raise Dead()
        if not ok2:
            st.become(s1)
            return v1
        if not ok1:
            st.become(s2)
            return v2
        pc = st.pc
        for k in s1.pc[n0 + 1:]:
            pc = pc + (Cond(Implies(c, k.x), k.cond),)
        for k in s2.pc[n0 + 1:]:
            pc = pc + (Cond(Or(c, k.x), k.cond),)
        self.merge2(st, c, s1, s2)
        st.pc = pc
        return self.mval(c, v1, v2)

    def join(self, st, n0, items):
        """st becomes the merge of the states of items; returns the merged value."""
        if not items:
            raise Dead()
        if len(items) == 1:
            h = st.handlers
            st.become(items[0][0])
            st.handlers = h
            return items[0][1]
        handlers = st.handlers
        base = items[0][0].pc[:n0]
        gs = []
        pc = base
        for s, _ in items:
            gs.append(And(*[k.x for k in s.pc[n0:] if k.cond]))
        for (s, _), g in zip(items, gs):
            for k in s.pc[n0:]:
                if not k.cond:
                    pc = pc + (Cond(Implies(g, k.x), False),)
        tot = Or(*gs)
        if tot is not True and not self.cx.proved(base, tot):
            pc = pc + (Cond(tot, True),)
        acc, val = items[-1]
        for i in range(len(items) - 2, -1, -1):
            s, v = items[i]
            t = State()
            self.merge2(t, gs[i], s, acc)
            val = self.mval(gs[i], v, val)
            acc = t
        st.heap, st.frames = acc.heap, acc.frames
        st.pc = pc
        st.handlers = handlers
        return val

    # ------------------------------------------------------------ merging

    def merge2(self, st, c, s1, s2):
        frames = []
        if len(s1.frames) != len(s2.frames):
            raise Unsupported('frames differ at join')
        for a, b in zip(s1.frames, s2.frames):
            f = Frame({}, a.glob, a.ret, a.fn, a.closure)
            f.loops = a.loops
            for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                x, y = a.vars.get(k, UNBOUND), b.vars.get(k, UNBOUND)
                f.vars[k] = x if x is y else self.mval(c, x, y)
            frames.append(f)
        heap = {}
        for k, x in s1.heap.items():
            y = s2.heap.get(k)
            heap[k] = x if (y is None or x is y) else self.mrec(c, x, y, s1, s2)
        for k, y in s2.heap.items():
            if k not in heap:
                heap[k] = y
        st.frames, st.heap = frames, heap

    def mval(self, c, a, b):
        if a is b:
            return a
        if isint(a) and isint(b):
            if isinstance(b, z3.ExprRef) and isinstance(a, z3.ExprRef):
                d = simp(a - b)
                if isinstance(d, int):
                    return a if d == 0 else simp(b + If(c, d, 0))
            return If(c, a, b)
        if isbool(a) and isbool(b):
            return If(c, a, b)
        try:
            if key(a) == key(b):
                return a
        except Unsupported:
            pass
        w = self.msmall(c, a, b)
        if w is not None:
            return w
        if isinstance(a, Byt) and isinstance(b, Byt) and a.base is b.base:
            return Byt(a.base, If(c, a.off, b.off), If(c, a.n, b.n))
        if isinstance(a, Byt) and b == b'':
            return Byt(a.base, a.off, If(c, a.n, 0))
        if isinstance(b, Byt) and isinstance(a, bytes) and a == b'':
            return Byt(b.base, b.off, If(c, 0, b.n))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mval(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Rng) and isinstance(b, Rng):
            return Rng(self.mval(c, a.lo, b.lo), self.mval(c, a.hi, b.hi), self.mval(c, a.step, b.step))
        if isinstance(a, Bound) and isinstance(b, Bound) and a.fn is b.fn and key(a.obj) == key(b.obj):
            return a
        alts = []
        for g, v in (a.alts if isinstance(a, Union) else ((True, a),)):
            self._alt(alts, And(c, g), v)
        for g, v in (b.alts if isinstance(b, Union) else ((True, b),)):
            self._alt(alts, And(Not(c), g), v)
        if len(alts) == 1:
            return alts[0][1]
        return Union(alts)

    def msmall(self, c, a, b):
        """Short byte strings of different origin as one."""
        def short(v):
            if isinstance(v, bytes):
                return len(v) <= 8
            if isinstance(v, Small):
                return True
            return isinstance(v, Byt) and isinstance(v.n, int) and 0 <= v.n <= 8
        if not (short(a) and short(b)) or (isinstance(a, bytes) and isinstance(b, bytes)):
            return None
        if isinstance(a, Byt) and isinstance(b, Byt) and a.base is b.base and a.n == b.n:
            return None
        cx = self.cx

        def elems(v):
            if isinstance(v, bytes):
                return list(v)
            if isinstance(v, Small):
                return list(v.elems)
            return [cx.bget(v, i) for i in range(v.n)]
        x, y = elems(a), elems(b)
        n = max(len(x), len(y))
        x += [0] * (n - len(x))
        y += [0] * (n - len(y))
        return Small([If(c, p, q) for p, q in zip(x, y)], If(c, cx.blen(a), cx.blen(b)))

    def _alt(self, alts, g, v):
        if g is False:
            return
        for i, (h, w) in enumerate(alts):
            if (isint(v) and isint(w)) or (isbool(v) and isbool(w)):
                alts[i] = (Or(h, g), If(h, w, v))
                return
            if isinstance(v, Byt) and isinstance(w, Byt) and v.base is w.base:
                alts[i] = (Or(h, g), Byt(v.base, If(h, w.off, v.off), If(h, w.n, v.n)))
                return
            if v is w:
                alts[i] = (Or(h, g), w)
                return
            try:
                if type(v) is type(w) and key(v) == key(w):
                    alts[i] = (Or(h, g), w)
                    return
            except Unsupported:
                pass
        alts.append((g, v))

    def mrec(self, c, x, y, s1, s2):
        if type(x) is not type(y):
            if isinstance(x, HDict) and isinstance(y, HArr):
                x = self.m.asarr(x)
            elif isinstance(x, HArr) and isinstance(y, HDict):
                y = self.m.asarr(y)
            if type(x) is not type(y):
                raise Unsupported('object kinds differ at join')
        if isinstance(x, HElem):
            if x.cls is not y.cls:
                raise Unsupported('element classes differ at join')
            tag = x.tag if x.tag is y.tag else self.mval(c, x.tag, y.tag)
            attrib = x.attrib if x.attrib == y.attrib else self.mattr(c, x.attrib, y.attrib)
            return HElem(x.cls, tag, x.text if x.text is y.text else self.mval(c, x.text, y.text), attrib,
                         x.kids if x.kids is y.kids else self.mseq(c, x.kids, y.kids, s1, s2))
        if isinstance(x, HList):
            return x.but(x.items if x.items is y.items else self.mseq(c, x.items, y.items, s1, s2))
        if isinstance(x, HInst):
            attrs = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                p, q = x.attrs.get(k, UNBOUND), y.attrs.get(k, UNBOUND)
                attrs[k] = p if p is q else self.mval(c, p, q)
            return HInst(x.cls, attrs)
        if isinstance(x, HDict):
            m = {}
            for k in list(x.map) + [k for k in y.map if k not in x.map]:
                p, q = x.map.get(k), y.map.get(k)
                if p is q:
                    m[k] = p
                elif p is None:
                    m[k] = (And(Not(c), q[0]), q[1])
                elif q is None:
                    m[k] = (And(c, p[0]), p[1])
                else:
                    m[k] = (If(c, p[0], q[0]), self.mval(c, p[1], q[1]))
            return HDict(m)
        if isinstance(x, HArr):
            if not self.basesame(x.has, y.has):
                raise Unsupported('dictionaries differ at join')
            n = 0
            while n < len(x.val) and n < len(y.val) and (x.val[n] is y.val[n] or key(x.val[n]) == key(y.val[n])):
                n += 1
            w = list(x.val[:n])
            w += [(And(c, g), k, v) for g, k, v in x.val[n:]]
            w += [(And(Not(c), g), k, v) for g, k, v in y.val[n:]]
            return HArr(x.has, tuple(w))
        raise Unsupported('join of %r' % type(x))

    def basesame(self, a, b):
        return a is b or key(a) == key(b)

    def mattr(self, c, a, b):
        raise Unsupported('attributes differ at join')

    def tagkey(self, st, e):
        """Merging class of an entry."""
        if not isinstance(e, E):
            try:
                return ('x', key(e))
            except Unsupported:
                return ('o', id(e))
        v = e.v
        if isinstance(v, Union):
            ks = {self.tagkey(st, E(True, w)) for _, w in v.alts}
            return ks.pop() if len(ks) == 1 else ('u',)
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if isinstance(r, HElem):
                return ('tag', r.tag) if isinstance(r.tag, str) else ('symtag',)
            return ('ref', type(r).__name__)
        return ('val',)

    def mseq(self, c, a, b, s1, s2):
        n = 0
        while n < len(a) and n < len(b) and (a[n] is b[n] or self.ekey(a[n]) == self.ekey(b[n])):
            n += 1
        out = list(a[:n])
        ra, rb = a[n:], b[n:]
        if not ra or not rb:
            return tuple(out + [reguard(e, c) for e in ra] + [reguard(e, Not(c)) for e in rb])
        ka = [self.tagkey(s1, e) for e in ra]
        kb = [self.tagkey(s2, e) for e in rb]
        na, nb = len(ra), len(rb)
        T = [[0] * (nb + 1) for _ in range(na + 1)]
        for i in range(na - 1, -1, -1):
            for j in range(nb - 1, -1, -1):
                T[i][j] = T[i + 1][j + 1] + 1 if ka[i] == kb[j] and isinstance(ra[i], E) else max(T[i + 1][j], T[i][j + 1])
        i = j = 0
        while i < na or j < nb:
            if i < na and j < nb and ka[i] == kb[j] and isinstance(ra[i], E) and T[i][j] == T[i + 1][j + 1] + 1:
                out.append(E(If(c, ra[i].g, rb[j].g), self.mval(c, ra[i].v, rb[j].v)))
                i += 1
                j += 1
            elif j >= nb or (i < na and T[i + 1][j] >= T[i][j + 1]):
                out.append(reguard(ra[i], c))
                i += 1
            else:
                out.append(reguard(rb[j], Not(c)))
                j += 1
        return tuple(out)

    def ekey(self, e):
        try:
            return key(e)
        except Unsupported:
            return ('id', id(e))

    # ------------------------------------------------------------ unions

    def over(self, st, v, f):
        """f on every alternative of v, merged."""
        if not isinstance(v, Union):
            return f(st, v)
        return self._over(st, list(v.alts), f)

    def _over(self, st, alts, f):
        if len(alts) == 1:
            return f(st, alts[0][1])
        g, v = alts[0]
        return self.branch(st, g, lambda s: f(s, v), lambda s: self._over(s, alts[1:], f))

    def over2(self, st, a, b, f):
        return self.over(st, a, lambda s, x: self.over(s, b, lambda t, y: f(t, x, y)))

    # ------------------------------------------------------------ calls

    def call(self, st, fn, args, kw):
        if isinstance(fn, Union):
            return self.over(st, fn, lambda s, f: self.call(s, f, args, kw))
        if isinstance(fn, Bound):
            return self.call(st, fn.fn, [fn.obj] + list(args), kw)
        if isinstance(fn, Native):
            return self.m.method(st, fn.obj, fn.name, list(args), kw)
        if isinstance(fn, Closure):
            return self.call_node(st, fn.node, fn.glob, args, kw, fn.node, (), {}, fn.env)
        mod = self.m.function(st, fn, args, kw)
        if mod is not NotImplemented:
            return mod
        if isinstance(fn, types.FunctionType):
            node = self.src.node(fn)
            if node.decorator_list and not all(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod')
                                               for d in node.decorator_list):
                raise Unsupported('decorated function %s' % fn.__name__)
            return self.call_node(st, node, fn.__globals__, args, kw, fn,
                                  fn.__defaults__ or (), fn.__kwdefaults__ or {}, None)
        if isinstance(fn, types.MethodType):
            return self.call(st, fn.__func__, [fn.__self__] + list(args), kw)
        if isinstance(fn, type):
            return self.m.instantiate(st, fn, args, kw)
        return self.m.builtin(st, fn, args, kw)

    def call_node(self, st, node, glob, args, kw, fn, defaults, kwdefaults, env):
        if self.depth > 40:
            raise Unsupported('recursion')
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(node)):
            raise Unsupported('generator function')
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names) and not a.vararg:
            self.raise_(st, TypeError)
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg:
            vals[a.vararg.arg] = tuple(args[len(names):])
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwo:
                if k in vals:
                    self.raise_(st, TypeError)
                vals[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_(st, TypeError)
        if a.kwarg:
            raise Unsupported('keyword parameters')
        if isinstance(node, ast.Lambda) or env is not None:
            dv = [self.ev(st, d) for d in a.defaults]
        else:
            dv = list(defaults)
        for n, v in zip(names[len(names) - len(dv):], dv):
            if n not in vals:
                vals[n] = self.m.raw(v)
        for n in kwo:
            if n not in vals and n in kwdefaults:
                vals[n] = self.m.raw(kwdefaults[n])
        for n in names + kwo:
            if n not in vals:
                self.raise_(st, TypeError)
        ret = Exit(len(st.frames))
        f = Frame(vals, glob, ret, fn, env)
        if isinstance(node, ast.Lambda):
            loc = set(vals)
        else:
            loc = getattr(node, '_locals', None)
            if loc is None:
                loc = assigned(node.body)
                for n in ast.walk(node):
                    if isinstance(n, ast.Global):
                        loc = loc - set(n.names)
                    if isinstance(n, ast.Nonlocal):
                        raise Unsupported('nonlocal')
                node._locals = loc
        for n in loc:
            if n not in vals:
                vals[n] = UNBOUND
        n0 = len(st.pc)
        st.frames.append(f)
        self.depth += 1
        handlers = st.handlers
        try:
            try:
                if isinstance(node, ast.Lambda):
                    v = self.ev(st, node.body)
                    self.exit(st, ret, v)
                self.block(st, node.body)
                self.exit(st, ret, None)
            except Dead:
                pass
        finally:
            self.depth -= 1
        st.handlers = handlers
        return self.join(st, n0, ret.items)

    # ------------------------------------------------------------ statements

    def block(self, st, stmts):
        for s in stmts:
            self.stmt(st, s)

    def stmt(self, st, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %d' % (type(s).__name__, s.lineno))
        self.reached.add(getattr(s, 'where', None))
        return m(st, s)

    def s_Expr(self, st, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(st, s.value)

    def s_Pass(self, st, s):
        pass

    def s_Global(self, st, s):
        pass

    def s_Import(self, st, s):
        for a in s.names:
            mod = __import__(a.name)
            if a.asname:
                for part in a.name.split('.')[1:]:
                    mod = getattr(mod, part)
            self.setname(st, (a.asname or a.name).split('.')[0], mod)

    def s_ImportFrom(self, st, s):
        g = st.frames[-1].glob
        mod = __import__(s.module or '', g, None, [a.name for a in s.names], s.level)
        for a in s.names:
            self.setname(st, a.asname or a.name, getattr(mod, a.name))

    def s_FunctionDef(self, st, s):
        if s.decorator_list:
            raise Unsupported('decorated local function')
        self.setname(st, s.name, Closure(s, len(st.frames) - 1, st.frames[-1].glob))

    def s_Assert(self, st, s):
        c = self.truth(st, self.ev(st, s.test))
        self.raise_if(st, Not(c), AssertionError)

    def s_Return(self, st, s):
        v = self.ev(st, s.value) if s.value else None
        self.exit(st, st.frames[-1].ret, v)

    def s_Break(self, st, s):
        self.exit(st, st.frames[-1].loops[-1][0], None)

    def s_Continue(self, st, s):
        self.exit(st, st.frames[-1].loops[-1][1], None)

    def s_Raise(self, st, s):
        if s.exc is None:
            raise Unsupported('re-raise')
        e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        v = self.ev(st, e)
        if not (isinstance(v, type) and issubclass(v, BaseException)):
            raise Unsupported('raise of %r' % (v,))
        self.raise_(st, v)

    def s_Delete(self, st, s):
        raise Unsupported('del')

    def s_If(self, st, s):
        c = self.truth(st, self.ev(st, s.test))
        self.branch(st, c, lambda t: self.block(t, s.body), lambda t: self.block(t, s.orelse))

    def s_Assign(self, st, s):
        v = self.ev(st, s.value)
        for t in s.targets:
            self.assign(st, t, v)

    def s_AnnAssign(self, st, s):
        if s.value is not None:
            self.assign(st, s.target, self.ev(st, s.value))

    def s_AugAssign(self, st, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.getname(st, t.id)
            v = self.ev(st, s.value)
            self.setname(st, t.id, self.inplace(st, s.op, old, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(st, t.value)
            old = self.getattr(st, o, t.attr)
            v = self.ev(st, s.value)
            self.setattr(st, o, t.attr, self.inplace(st, s.op, old, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(st, t.value)
            k = self.ev(st, t.slice)
            old = self.getitem(st, o, k)
            v = self.ev(st, s.value)
            self.setitem(st, o, k, self.inplace(st, s.op, old, v))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, st, op, old, v):
        if isinstance(op, ast.Add) and isinstance(old, Ref) and isinstance(self.rec(st, old), HList):
            self.m.method(st, old, 'extend', [v], {})
            return old
        return self.binop(st, op, old, v)

    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            self.setname(st, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred assignment')
            if isinstance(v, Union):
                v = self.over(st, v, lambda s, x: self.unpack(s, x, len(t.elts)))
            else:
                v = self.unpack(st, v, len(t.elts))
            for x, y in zip(t.elts, v):
                self.assign(st, x, y)
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.ev(st, t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(st, t.value)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            self.setitem(st, o, self.ev(st, t.slice), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, st, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                self.raise_(st, ValueError)
            return v
        if isinstance(v, Ref):
            r = self.rec(st, v)
            if isinstance(r, HList) and all(isinstance(e, E) and e.g is True for e in r.items):
                if len(r.items) != n:
                    self.raise_(st, ValueError)
                return tuple(e.v for e in r.items)
        if v is None or isint(v) or isbool(v):
            self.raise_(st, TypeError)
        raise Unsupported('unpacking %r' % (v,))

    def s_Try(self, st, s):
        if s.finalbody:
            raise Unsupported('finally')
        n0 = len(st.pc)
        ex = Exit(len(st.frames))
        saved = st.handlers
        ends = []
        st.handlers = saved + (ex,)
        try:
            self.block(st, s.body)
            st.handlers = saved
            if s.orelse:
                self.block(st, s.orelse)
            ends.append((st.clone(), None))
        except Dead:
            pass
        groups = {}
        for snap, exc in ex.items:
            for i, h in enumerate(s.handlers):
                if h.type is None:
                    ok = True
                else:
                    snap2 = snap
                    ht = self.ev(snap2, h.type)
                    hts = ht if isinstance(ht, tuple) else (ht,)
                    ok = any(isinstance(x, type) and issubclass(exc, x) for x in hts)
                if ok:
                    groups.setdefault(i, []).append((snap, exc))
                    break
            else:
                # not handled here: goes on to the enclosing handler
                snap.handlers = saved
                if not saved:
                    raise Unsupported('exception %r outside any function' % exc)
                t = snap.clone()
                del t.frames[saved[-1].depth:]
                saved[-1].items.append((t, exc))
        for i, items in groups.items():
            t = State()
            t.handlers = saved
            for sn, _ in items:
                sn.handlers = saved
            try:
                excs = {e for _, e in items}
                self.join(t, n0, [(sn, None) for sn, _ in items])
                t.handlers = saved
                if s.handlers[i].name:
                    self.setname(t, s.handlers[i].name, App('exception', [sorted(e.__name__ for e in excs)[0], t.pc and id(t.pc[-1]) or 0], 'exc'))
                self.block(t, s.handlers[i].body)
                if s.handlers[i].name:
                    self.setname(t, s.handlers[i].name, UNBOUND)
                ends.append((t, None))
            except Dead:
                pass
        st.handlers = saved
        self.join(st, n0, ends)
        st.handlers = saved

    def s_With(self, st, s):
        raise Unsupported('with')

    # ------------------------------------------------------------ names

    def getname(self, st, n):
        f = st.frames[-1]
        if n in f.vars:
            return self.bound(st, f.vars[n])
        c = f.closure
        while c is not None:
            g = st.frames[c]
            if n in g.vars:
                return self.bound(st, g.vars[n])
            c = g.closure
        if n in f.glob:
            return self.m.raw(f.glob[n])
        if hasattr(builtins, n):
            return getattr(builtins, n)
        self.raise_(st, NameError)

    def bound(self, st, v):
        if v is UNBOUND:
            self.raise_(st, NameError)
        if isinstance(v, Union) and any(x is UNBOUND for _, x in v.alts):
            self.raise_if(st, Or(*[g for g, x in v.alts if x is UNBOUND]), NameError)
            rest = [(g, x) for g, x in v.alts if x is not UNBOUND]
            return rest[0][1] if len(rest) == 1 else Union(rest)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def setname(self, st, n, v):
        f = st.frames[-1]
        if n not in f.vars and not (f.fn is None):
            self.frame_writes.append(('global %s' % n, st.pc, f.glob.get(n) not in (None, [], {}, set())))
            raise Unsupported('assignment to global %s' % n)
        f.vars[n] = v

    # ------------------------------------------------------------ expressions

    def ev(self, st, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %d' % (type(n).__name__, n.lineno))
        return m(st, n)

    def e_Constant(self, st, n):
        return n.value

    def e_Name(self, st, n):
        return self.getname(st, n.id)

    def e_Tuple(self, st, n):
        return tuple(self.evseq(st, n.elts))

    def evseq(self, st, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(st, x.value)
                if isinstance(v, tuple):
                    out.extend(v)
                    continue
                raise Unsupported('starred expression')
            out.append(self.ev(st, x))
        return out

    def e_List(self, st, n):
        return self.newlist(st, self.evseq(st, n.elts))

    def e_Set(self, st, n):
        return self.m.mkset(st, self.evseq(st, n.elts))

    def e_Dict(self, st, n):
        m = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported('dict unpacking')
            kk = self.ev(st, k)
            if not concrete(kk):
                raise Unsupported('dict display with symbolic key')
            m[kk] = (True, self.ev(st, v))
        return self.new(st, HDict(m))

    def e_Attribute(self, st, n):
        return self.getattr(st, self.ev(st, n.value), n.attr)

    def e_Subscript(self, st, n):
        o = self.ev(st, n.value)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(st, n.slice.lower) if n.slice.lower else None
            hi = self.ev(st, n.slice.upper) if n.slice.upper else None
            step = self.ev(st, n.slice.step) if n.slice.step else None
            if step is not None and not (isinstance(step, int) and step == 1):
                return self.over(st, o, lambda s, x: self.m.stepslice(s, x, lo, hi, step))
            return self.over(st, o, lambda s, x: self.over2(
                s, lo, hi, lambda t, p, q: self.m.slice(t, x, p, q)))
        return self.getitem(st, o, self.ev(st, n.slice))

    def getitem(self, st, o, k):
        return self.over2(st, o, k, lambda s, x, y: self.m.getitem(s, x, y))

    def setitem(self, st, o, k, v):
        return self.over2(st, o, k, lambda s, x, y: self.m.setitem(s, x, y, v))

    def getattr(self, st, o, name):
        return self.over(st, o, lambda s, x: self.m.getattr(s, x, name))

    def setattr(self, st, o, name, v):
        return self.over(st, o, lambda s, x: self.m.setattr(s, x, name, v))

    def e_UnaryOp(self, st, n):
        v = self.ev(st, n.operand)
        if isinstance(n.op, ast.Not):
            return simp(Not(self.truth(st, v)))
        return self.over(st, v, lambda s, x: self.m.unary(s, n.op, x))

    def e_BinOp(self, st, n):
        a = self.ev(st, n.left)
        b = self.ev(st, n.right)
        return self.binop(st, n.op, a, b)

    def binop(self, st, op, a, b):
        return self.over2(st, a, b, lambda s, x, y: self.m.binop(s, op, x, y))

    def e_BoolOp(self, st, n):
        return self._boolop(st, n.op, n.values)

    def _boolop(self, st, op, vals):
        v = self.ev(st, vals[0])
        if len(vals) == 1:
            return v
        c = self.truth(st, v)
        if isinstance(op, ast.And):
            if isbool(v):
                return self.branch(st, c, lambda s: self._boolop(s, op, vals[1:]), lambda s: False)
            return self.branch(st, c, lambda s: self._boolop(s, op, vals[1:]), lambda s: v)
        if isbool(v):
            return self.branch(st, c, lambda s: True, lambda s: self._boolop(s, op, vals[1:]))
        return self.branch(st, c, lambda s: v, lambda s: self._boolop(s, op, vals[1:]))

    def e_IfExp(self, st, n):
        c = self.truth(st, self.ev(st, n.test))
        return self.branch(st, c, lambda s: self.ev(s, n.body), lambda s: self.ev(s, n.orelse))

    def e_Compare(self, st, n):
        a = self.ev(st, n.left)
        return self._compare(st, a, n.ops, n.comparators)

    def _compare(self, st, a, ops, comps):
        b = self.ev(st, comps[0])
        c = self.compare(st, ops[0], a, b)
        if len(ops) == 1:
            return c
        return self.branch(st, self.truth(st, c), lambda s: self._compare(s, b, ops[1:], comps[1:]), lambda s: False)

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(a, Union) or isinstance(b, Union):
                r = self.over2(st, a, b, lambda s, x, y: self.m.eq(s, x, y))
            else:
                r = self.m.eq(st, a, b)
            return simp(Not(r)) if isinstance(op, ast.NotEq) else simp(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.over2(st, a, b, lambda s, x, y: self.m.is_(s, x, y))
            return simp(Not(r)) if isinstance(op, ast.IsNot) else simp(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.over2(st, a, b, lambda s, x, y: self.m.contains(s, y, x))
            return simp(Not(r)) if isinstance(op, ast.NotIn) else simp(r)
        return simp(self.over2(st, a, b, lambda s, x, y: self.m.order(s, op, x, y)))

    def truth(self, st, v):
        if isbool(v):
            return v
        if isint(v):
            return simp(Not(ieq(v, 0)))
        return simp(self.over(st, v, self.m.truth))

    def e_Call(self, st, n):
        fn = self.ev(st, n.func)
        args = self.evargs(st, n)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                raise Unsupported('keyword unpacking')
            kw[k.arg] = self.ev(st, k.value)
        return self.call(st, fn, args, kw)

    def evargs(self, st, n):
        if len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
            return [self.m.genexp(st, n.args[0])]
        return self.evseq(st, n.args)

    def e_Lambda(self, st, n):
        return Closure(n, len(st.frames) - 1, st.frames[-1].glob)

    def e_JoinedStr(self, st, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(st, v.value)
                spec = ''
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(st, v.format_spec)
                if v.conversion not in (-1, 115):
                    raise Unsupported('conversion in format')
                parts.append((x, spec))
        return self.m.fstring(st, parts)

    def e_ListComp(self, st, n):
        return self.m.comprehension(st, n)

    def e_GeneratorExp(self, st, n):
        return self.m.comprehension(st, n)

    def e_SetComp(self, st, n):
        return self.m.setof(st, self.m.comprehension(st, n))

    def e_DictComp(self, st, n):
        return self.m.comprehension(st, n)

    def e_NamedExpr(self, st, n):
        v = self.ev(st, n.value)
        self.setname(st, n.target.id, v)
        return v
