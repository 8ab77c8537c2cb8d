"""Loops: counted loops by closed forms, while loops by (relational) invariants."""
import ast
import z3

from .vals import (Unsupported, Dead, UNBOUND, Poison, Byt, Small, Rat, Num, SStr, App, Union, Ref,
                   HElem, HList, HInst, HDict, HArr, E, ForE, SeqE, KidsE, HoleE, And, Or, Not,
                   Implies, Iff, If, simp, ieq, isint, isbool, key, Cond, same)
from .interp import Exit, State, Rng, assigned, kcanon, concrete

UNROLL = 70


def sbound(d):
    return z3.Int('S%d' % d)


def breaks_first(s):
    """while C: if D: break; ...   is   while C and not D: ..."""
    c = getattr(s, '_norm', None)
    if c is not None:
        return c
    test, body = s.test, list(s.body)
    n = 0
    while body:
        b = body[0]
        if isinstance(b, ast.Pass) or (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant)):
            body = body[1:]
            continue
        if not (isinstance(b, ast.If) and len(b.body) == 1 and isinstance(b.body[0], ast.Break)):
            break
        no = ast.copy_location(ast.UnaryOp(ast.Not(), b.test), b.test)
        if isinstance(test, ast.Constant) and test.value:
            test = no
        else:
            test = ast.copy_location(ast.BoolOp(ast.And(), [test, no]), s.test)
        body = b.orelse + body[1:]
        n += 1
    if not n or not body:
        s._norm = s
        return s
    w = ast.copy_location(ast.While(test, body, []), s)
    w._norm = w
    s._norm = w
    return w


def pure(e):
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.Attribute):
        return pure(e.value)
    if isinstance(e, ast.BinOp):
        return pure(e.left) and pure(e.right)
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('len', 'int') and len(e.args) == 1 \
        and not e.keywords and pure(e.args[0])


def own(body):
    """Statements of a loop body that are not in inner loops or functions."""
    for b in body:
        yield b
        for f in ('body', 'orelse', 'finalbody', 'handlers'):
            if isinstance(b, (ast.For, ast.While, ast.FunctionDef)) and f != 'orelse':
                continue
            for x in getattr(b, f, None) or []:
                yield from own([x]) if isinstance(x, ast.stmt) else own(x.body)


def counter(s):
    """(variable, step, for loop) of a counting while loop"""
    if hasattr(s, '_count'):
        return s._count
    s._count = None
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and len(s.body) > 1):
        return None
    a, b, op = t.left, t.comparators[0], t.ops[0]
    if isinstance(op, (ast.Gt, ast.GtE)):
        a, b, op = b, a, ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
    if not (isinstance(op, (ast.Lt, ast.LtE)) and isinstance(a, ast.Name) and pure(b)):
        return None
    name, bound = a.id, b
    if isinstance(op, ast.LtE):
        bound = ast.copy_location(ast.BinOp(b, ast.Add(), ast.copy_location(ast.Constant(1), s)), s)
    at, c = None, None
    for j, b in enumerate(s.body):
        if isinstance(b, ast.AugAssign) and isinstance(b.op, ast.Add) and isinstance(b.target, ast.Name) and b.target.id == name:
            v = b.value
        elif (isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and b.targets[0].id == name
              and isinstance(b.value, ast.BinOp) and isinstance(b.value.op, ast.Add) and isinstance(b.value.left, ast.Name) and b.value.left.id == name):
            v = b.value.right
        else:
            continue
        if at is not None:
            return None
        at, c = j, v
    if at is None or not (isinstance(c, ast.Constant) and type(c.value) is int and c.value > 0):
        return None
    rest = s.body[:at] + s.body[at + 1:]
    names = assigned(rest)
    if name in names or any(isinstance(x, ast.Name) and x.id in names | {name} for x in ast.walk(bound)):
        return None
    if any(isinstance(x, (ast.Continue, ast.Global, ast.Nonlocal)) for x in own(rest)):
        return None
    if any(isinstance(x, ast.Break) for x in own(rest)):
        return None
    load = ast.copy_location(ast.Name(name, ast.Load()), s)
    it = ast.copy_location(ast.Call(ast.copy_location(ast.Name('range', ast.Load()), s), [load, bound, c], []), s)
    var = name
    if at != len(s.body) - 1:
        var = '__k%d' % s.lineno
        rest = [ast.copy_location(ast.Assign([ast.Name(name, ast.Store())], ast.Name(var, ast.Load())), s)] + s.body
    f = ast.copy_location(ast.For(ast.copy_location(ast.Name(var, ast.Store()), s), it, rest, []), s)
    ast.fix_missing_locations(f)
    s._count = (name, c.value, f)
    return s._count


class Side:
    """Result of running a loop body once from symbolic heads."""
    pass


class WRec:
    pass


class LoopMixin:

    # ------------------------------------------------------------ for

    def s_For(self, st, s):
        if s.orelse:
            raise Unsupported('for ... else')
        for n in sorted({x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}):
            v = st.frames[-1].vars.get(n)
            if isinstance(v, Union) and sum(isinstance(x, Ref) and isinstance(self.rec(st, x), HList) for _, x in v.alts) > 1:
                # several lists: one case for each
                def case(t, x):
                    t.frames[-1].vars[n] = x
                    self.s_For(t, s)
                self.over(st, v, case)
                return
        it = self.ev(st, s.iter)
        self.over(st, it, lambda t, x: self.for_over(t, s, x))

    def for_over(self, st, s, x):
        segs = self.m.iterate(st, x, s)
        n0 = len(st.pc)
        brk = Exit(len(st.frames))
        f = st.frames[-1]
        saved = f.loops
        handlers = st.handlers
        ends = []
        try:
            for seg in segs:
                self.segment(st, s, seg, brk)
            st.frames[-1].loops = saved
            ends.append((st.clone(), None))
        except Dead:
            pass
        items = ends + brk.items
        for t, _ in items:
            t.frames[-1].loops = saved
            t.handlers = handlers
        self.join(st, n0, items)
        st.handlers = handlers
        st.frames[-1].loops = saved

    def skip(self, st, g):
        """The entry is not in the list unless g: no iteration for it."""
        self.branch(st, g, lambda t: None, lambda t: self.exit(t, t.frames[-1].loops[-1][1], None))

    def once(self, st, s, v, brk, g=True):
        """One iteration with element v, in place."""
        n0 = len(st.pc)
        cont = Exit(len(st.frames))
        f = st.frames[-1]
        saved = f.loops
        handlers = st.handlers
        f.loops = saved + ((brk, cont),)
        ends = []
        try:
            if g is not True:
                self.skip(st, g)
            self.assign(st, s.target, v)
            self.block(st, s.body)
            ends.append((st.clone(), None))
        except Dead:
            pass
        items = ends + cont.items
        for t, _ in items:
            t.frames[-1].loops = saved
            t.handlers = handlers
        self.join(st, n0, items)

    def segment(self, st, s, seg, brk):
        if seg[0] == 'one':
            g, v = seg[1], seg[2]
            if g is True:
                self.once(st, s, v, brk)
            else:
                self.branch(st, g, lambda t: self.once(t, s, v, brk), lambda t: None)
        elif seg[0] in ('for', 'list'):
            self.counted(st, s, seg[1], seg[2], brk, seg[0] == 'list', seg[3] if len(seg) > 3 else None)
        elif seg[0] == 'iter':
            self.any_iter(st, s, seg[1], brk)
        else:
            raise Unsupported('iteration')

    def counted(self, st, s, n, elem, brk, finite=False, guard=None):
        """for target in elem(0), ..., elem(n-1)"""
        n = simp(n)
        if not isinstance(n, int):
            if not self.cx.nonneg(st.pc, n):
                n = simp(If(simp(n > 0), n, 0))
        elif n < 0:
            n = 0
        if not finite:
            self.m.count_bound(st, n, s)
        if self.unroll and not (isinstance(n, int) and n <= UNROLL):
            self.assume(st, simp(n <= self.unroll))
            for i in range(self.unroll):
                self.branch(st, simp(n > i), lambda t: self.once(t, s, elem(t, i), brk, True if guard is None else guard(t, i)), lambda t: None)
            return
        if isinstance(n, int) and n <= UNROLL:
            for i in range(n):
                self.once(st, s, elem(st, i), brk, True if guard is None else guard(st, i))
            return
        if not self.cx.feasible(st.pc, simp(n > 0) if not isinstance(n, int) else n > 0):
            return
        d = self.fordepth
        K = kcanon(d)
        names = sorted((assigned(s.body) | assigned([s.target])) & set(st.frames[-1].vars))
        tgt = assigned([s.target])
        comps = [('v', x) for x in names if x not in tgt]
        heads = {}
        closed = {}
        fns = {}
        holes = {}
        for c in comps:
            heads[c] = self.opaque(st, c)
        for rnd in range(14):
            side = self.for_side(st, s, n, elem, K, heads, holes, guard)
            again = False
            # objects changed in the body
            for oid, kind in side.changed.items():
                if kind == 'cont' and oid not in holes:
                    holes[oid] = True
                    again = True
                elif kind == 'arr' and oid not in holes:
                    holes[oid] = 'arr'
                    again = True
                elif isinstance(kind, set):
                    for a in kind:
                        c = ('a', oid, a)
                        if c not in heads:
                            comps.append(c)
                            heads[c] = self.opaque(st, c)
                            again = True
            if again:
                continue
            hs = {}
            for c in comps:
                if c not in closed and isinstance(heads[c], z3.ExprRef):
                    hs[heads[c].get_id()] = c
            progress = False
            for c in comps:
                if c in closed:
                    continue
                init, nxt = self.get(st, c), self.get(side.end, c) if side.end is not None else self.get(st, c)
                r = self.classify(st, c, init, nxt, heads[c], K, n, hs, d)
                if r is not None:
                    closed[c] = r
                    h = r[0](K)
                    if not (isinstance(h, z3.ExprRef) and isinstance(heads[c], z3.ExprRef) and h.eq(heads[c])) and h is not heads[c]:
                        progress = True
                    heads[c] = h
            if progress:
                continue
            rest = [c for c in comps if c not in closed]
            if rest:
                if not self.fold(st, s, n, elem, K, heads, holes, rest, closed, d, guard):
                    raise Unsupported('loop variable %s at line %d' % (rest[0][1], s.lineno))
                continue
            break
        else:
            raise Unsupported('loop at line %d does not stabilise' % s.lineno)
        hn = side.hole_entries
        # how many iterations complete
        m = n
        stop = Or(*side.stops)
        if side.stops:
            m = self.first(st, stop, n, K, d)
        base_st = st.clone()
        # state after m complete iterations
        for oid, rec in side.newrecs.items():
            st.heap[oid] = rec
        for oid, h in holes.items():
            old = self.rec(st, Ref(oid))
            es = hn.get(oid)
            if h == 'arr':
                st.heap[oid] = self.arr_after(old, es, m, K)
                continue
            if not es:
                continue
            fe = self.norm_for(st, ForE(True, m, K, es))
            if isinstance(old, HElem):
                st.heap[oid] = old.but(kids=old.kids + fe)
            else:
                st.heap[oid] = old.but(old.items + fe)
        for c in comps:
            if isinstance(heads[c], Poison) and side.end is not None:
                # in terms of the closed forms of the other variables
                closed[c] = self.classify(st, c, self.get(base_st, c), self.get(side.end, c), heads[c], K, n, {}, d) or closed[c]
            self.put(st, c, closed[c][1](m))
        for x in tgt & set(st.frames[-1].vars):
            self.put(st, ('v', x), Poison('loop target %s after the loop' % x))
        if guard is None:
            self.set_targets_after(st, s, m, elem, base_st)
        if side.stops:
            # the last, incomplete iteration
            def last(t):
                t2 = t.clone()
                try:
                    for c in comps:
                        self.put(t, c, closed[c][0](m))
                    self.once(t, s, elem(t, m), brk, True if guard is None else guard(t, m))
                except Dead:
                    raise
                raise Dead()
            self.branch(st, simp(m < n), last, lambda t: None)

    def set_targets_after(self, st, s, m, elem, base):
        if isinstance(s.target, ast.Name) and s.target.id in st.frames[-1].vars:
            name = s.target.id
            init = base.frames[-1].vars.get(name, UNBOUND)
            try:
                v = elem(base, simp(m - 1))
            except (Unsupported, Dead):
                return
            if isint(v) and (init is UNBOUND or isint(init)):
                st.frames[-1].vars[name] = self.mval(simp(m > 0), v, init)

    def norm_for(self, st, f):
        """ForE whose entries need K == t collapses to the entry for t."""
        out = []
        if len(f.es) == 1 and isinstance(f.es[0], E):
            e = f.es[0]
            t = self.pins(e.g, f.k)
            if t is not None:
                e2 = self.subst_entry(st, e, f.k, t)
                return (E(And(f.g, simp(t >= 0), simp(t < f.n), e2.g), e2.v),)
        return (f,)

    def pins(self, g, k):
        if g is True or not isinstance(g, z3.ExprRef):
            return None
        cs = g.children() if z3.is_and(g) else [g]
        for c in cs:
            if z3.is_and(c):
                t = self.pins(c, k)
                if t is not None:
                    return t
            if z3.is_eq(c):
                a, b = c.children()
                if not z3.is_int(a):
                    continue
                # a - b == 0 linear in k with coefficient +-1
                diff = simp(a - b)
                if not isinstance(diff, z3.ExprRef):
                    continue
                r0 = simp(z3.substitute(diff, (k, z3.IntVal(0))))
                r1 = simp(z3.substitute(diff, (k, z3.IntVal(1))))
                co = simp(r1 - r0)
                if co in (1, -1) and simp(diff - (co * k + r0)) == 0 and k.get_id() not in self.cx.symbols(r0):
                    return simp(-r0 * co)
        return None

    def subst_entry(self, st, e, k, t):
        memo = {}
        return self.subst_deep(st, e, k, t, memo)

    def subst_deep(self, st, v, k, t, memo):
        """v with k := t, copying the records that depend on k."""
        cx = self.cx
        if isinstance(v, Ref):
            if v.oid in memo:
                return memo[v.oid]
            r = self.rec(st, v)
            if isinstance(r, HElem):
                memo[v.oid] = v
                parts = (r.tag, r.text) + tuple(r.kids)
                new = [self.subst_deep(st, x, k, t, memo) for x in parts]
                if all(a is b for a, b in zip(parts, new)):
                    return v
                n = self.new(st, HElem(r.cls, new[0], new[1], r.attrib, tuple(new[2:])))
                memo[v.oid] = n
                return n
            if isinstance(r, HList):
                new = [self.subst_deep(st, x, k, t, memo) for x in r.items]
                if all(a is b for a, b in zip(r.items, new)):
                    return v
                n = self.new(st, HList(new))
                memo[v.oid] = n
                return n
            return v
        if isinstance(v, E):
            g, x = cx.subst(v.g, k, t), self.subst_deep(st, v.v, k, t, memo)
            return v if g is v.g and x is v.v else E(g, x)
        if isinstance(v, ForE):
            if v.k.eq(k):
                return cx.subst(v, k, t)
            if isinstance(t, z3.ExprRef) and v.k.get_id() in cx.symbols(t):
                # rename the bound variable
                nk = z3.Int('K9%d' % self.cx.count)
                self.cx.count += 1
                v = ForE(v.g, v.n, nk, [self.subst_deep(st, e, v.k, nk, {}) for e in v.es])
            return ForE(cx.subst(v.g, k, t), cx.subst(v.n, k, t), v.k,
                        [self.subst_deep(st, e, k, t, {}) for e in v.es])
        if isinstance(v, Union):
            new = [(cx.subst(g, k, t), self.subst_deep(st, x, k, t, memo)) for g, x in v.alts]
            if all(a[0] is b[0] and a[1] is b[1] for a, b in zip(v.alts, new)):
                return v
            return self.m.mkunion(new)
        if isinstance(v, tuple):
            return tuple(self.subst_deep(st, x, k, t, memo) for x in v)
        if isinstance(v, (z3.ExprRef, Byt, Small, Rat, Num, App, SStr, KidsE, SeqE)):
            if k.get_id() not in cx.symbols(v):
                return v
            return cx.subst(v, k, t)
        return v

    def opaque(self, st, c):
        v = self.get(st, c)
        if isint(v):
            return self.cx.int('h_' + str(c[-1]))
        if isbool(v):
            return self.cx.bool('h_' + str(c[-1]))
        return Poison('loop variable %s' % (c[-1],))

    def get(self, st, c):
        if c[0] == 'v':
            return st.frames[-1].vars.get(c[1], UNBOUND)
        return self.rec(st, Ref(c[1])).attrs.get(c[2], UNBOUND)

    def put(self, st, c, v):
        if c[0] == 'v':
            st.frames[-1].vars[c[1]] = v
        else:
            r = self.rec(st, Ref(c[1]))
            a = dict(r.attrs)
            a[c[2]] = v
            st.heap[c[1]] = HInst(r.cls, a)

    def holed(self, st, holes):
        for oid, h in holes.items():
            r = self.rec(st, Ref(oid))
            if h == 'arr':
                st.heap[oid] = HArr(('hole',), ())
            elif isinstance(r, HElem):
                st.heap[oid] = r.but(kids=(HoleE(oid),))
            else:
                st.heap[oid] = r.but((HoleE(oid),))

    def changes(self, st0, end, holes, skip=()):
        """Objects that existed before and differ after."""
        out = {}
        for oid, r in end.heap.items():
            o = st0.heap.get(oid)
            if o is None:
                if oid in self.cx.gheap:
                    if r is not self.cx.gheap[oid]:
                        raise Unsupported('change of a summarised result')
                continue
            if o is r:
                continue
            if isinstance(r, HElem):
                if r.text is not o.text or r.tag is not o.tag or r.attrib is not o.attrib:
                    if key(r.text) != key(o.text) or key(r.tag) != key(o.tag):
                        raise Unsupported('element changed in a loop')
                if r.kids is not o.kids:
                    out[oid] = 'cont'
            elif isinstance(r, HList):
                if r.items is not o.items:
                    out[oid] = 'cont'
            elif isinstance(r, HInst):
                s = {a for a in set(r.attrs) | set(o.attrs) if r.attrs.get(a, UNBOUND) is not o.attrs.get(a, UNBOUND)}
                if s:
                    out[oid] = s
            elif isinstance(r, (HDict, HArr)):
                out[oid] = 'arr'
            else:
                raise Unsupported('object changed in a loop')
        return out

    def appended(self, old, new):
        """Entries that new has after those of old."""
        if len(new) < len(old) or any(a is not b and self.ekey(a) != self.ekey(b) for a, b in zip(old, new)):
            raise Unsupported('loop changes a list other than by appending')
        return tuple(new[len(old):])

    def for_side(self, st, s, n, elem, K, heads, holes, guard=None):
        t = st.clone()
        n0 = len(t.pc)
        hyp = And(K >= 0, K < n)
        t.pc = t.pc + (Cond(hyp, False),)
        for c, v in heads.items():
            self.put(t, c, v)
        self.holed(t, holes)
        start = t.clone()
        def prep(u):
            if guard is not None:
                self.skip(u, guard(u, K))
            self.assign(u, s.target, elem(u, K))
        r, side = self.run_body(t, s, prep, True)
        side.start = start
        side.n0 = n0 + 1
        side.changed = {}
        side.newrecs = {}
        side.hole_entries = {}
        live = [side.end] if side.end is not None else []
        for e in live + [x for x, _ in side.exits]:
            for oid, kind in self.changes(start, e, holes).items():
                if isinstance(kind, set):
                    side.changed.setdefault(oid, set()).update(kind)
                else:
                    side.changed[oid] = kind
        if side.end is not None:
            for oid, rec in side.end.heap.items():
                if oid not in start.heap:
                    side.newrecs[oid] = rec
            for oid, h in holes.items():
                a, b = start.heap[oid], side.end.heap[oid]
                if h == 'arr':
                    side.hole_entries[oid] = b
                elif isinstance(a, HElem):
                    side.hole_entries[oid] = self.appended(a.kids, b.kids)
                else:
                    side.hole_entries[oid] = self.appended(a.items, b.items)
        side.stops = []
        for e, _ in side.exits:
            side.stops.append(And(*[k.x for k in e.pc[n0 + 1:] if k.cond]))
        # facts of the completed iteration, generic in K: usable for any K in range
        return side

    def run_body(self, t, s, prep, isfor):
        """Run the body on t with its own exits."""
        side = Side()
        f = t.frames[-1]
        brk, cont, ret, exc = (Exit(len(t.frames)) for _ in range(4))
        f.loops = f.loops + ((brk, cont),)
        f.ret = ret
        t.handlers = (exc,)
        n0 = len(t.pc)
        ends = []
        if isfor:
            self.fordepth += 1
        try:
            prep(t)
            self.block(t, s.body)
            ends.append((t.clone(), None))
        except Dead:
            pass
        finally:
            if isfor:
                self.fordepth -= 1
        side.end = None
        items = ends + cont.items
        if items:
            e = State()
            try:
                self.join(e, n0, items)
                side.end = e
            except Dead:
                pass
        side.exits = [(e, ('break', None)) for e, _ in brk.items] + \
                     [(e, ('return', v)) for e, v in ret.items] + \
                     [(e, ('raise', v)) for e, v in exc.items]
        return t, side

    # -- closed forms of loop variables

    def classify(self, st, c, init, nxt, head, K, n, hs, d):
        """(value at iteration k, value after m iterations) as functions, or None."""
        cx = self.cx

        def mentions(v):
            try:
                return any(i in hs for i in cx.symbols(v))
            except Unsupported:
                return True
        if nxt is head or (isinstance(nxt, z3.ExprRef) and isinstance(head, z3.ExprRef) and nxt.eq(head)):
            return (lambda k: init), (lambda m: init)
        if isinstance(head, Poison) and isinstance(nxt, Poison):
            return (lambda k: head), (lambda m: nxt)
        if isint(nxt) and isint(init):
            if not mentions(nxt):
                def at(k, nxt=nxt, init=init):
                    return simp(If(simp(k == 0), init, cx.subst(nxt, K, simp(k - 1))))
                return at, at
            diff = simp(nxt - head)
            if not mentions(diff):
                if isinstance(diff, int) or K.get_id() not in cx.symbols(diff):
                    def at(k, diff=diff, init=init):
                        return simp(init + self.m.mul(st, k, diff))
                    return at, at

                def at(k, diff=diff, init=init):
                    return simp(init + self.sum_(st, diff, K, k, d))
                return at, at
            return None
        if isbool(nxt) and isbool(init):
            if not mentions(nxt):
                def at(k, nxt=nxt, init=init):
                    return simp(If(simp(k == 0), init, cx.subst(nxt, K, simp(k - 1))))
                return at, at
            return None
        # other kinds of values: not carried from one iteration to the next
        if isinstance(head, Poison):
            if isinstance(nxt, Union) and any(x is head for _, x in nxt.alts):
                p = Poison('loop variable %s' % (c[-1],))
                return (lambda k: head), (lambda m: p)

            def after(m, nxt=nxt, init=init):
                if mentions(nxt):
                    return Poison('loop variable %s' % (c[-1],))
                try:
                    v = self.subst_deep(st, nxt, K, simp(m - 1), {})
                except (Unsupported, KeyError):
                    return Poison('loop variable %s' % (c[-1],))
                return self.mval(simp(m > 0), v, init)
            return (lambda k: head), after
        return None

    def sum_(self, st, elem, K, n, d):
        """Sum of elem for K = 0 .. n-1."""
        cx = self.cx
        S = sbound(d)
        e = cx.subst(elem, K, S)
        e = e if isinstance(e, z3.ExprRef) else z3.IntVal(e)
        ent = None
        for e2, d2 in self.sums:
            if d2 == d and e2.eq(e):
                ent = e2
                break
        if ent is None:
            for e2, d2 in self.sums:
                if d2 == d and cx.proved(st.pc + (Cond(S >= 0, False),), e == e2):
                    ent = e2
                    break
        if ent is None:
            ent = e
            self.sums.append((e, d))
        if isinstance(n, int) and n <= 0:
            return 0
        c = cx.ack('sum%d' % [i for i, (x, _) in enumerate(self.sums) if x.eq(ent)][0], [n], z3.IntSort())
        if not isinstance(n, int):
            cx.axiom(Implies(n <= 0, c == 0), (c,))
        if cx._nn(ent) and c.get_id() not in cx.nonneg_ids:
            cx.nonneg_ids[c.get_id()] = c
            cx.axiom(c >= 0, (c,))
        return c

    def first(self, st, stop, n, K, d):
        """The first iteration at which the loop is left (n if none)."""
        cx = self.cx
        S = sbound(d)
        e = cx.subst(stop, K, S) if isinstance(stop, z3.ExprRef) else z3.BoolVal(bool(stop))
        idx = None
        for i, (e2, n2, d2) in enumerate(self.firsts):
            if d2 == d and (e2.eq(e) or cx.proved(st.pc + (Cond(And(S >= 0, S < n), False),), e == e2)) and \
                    cx.proved(st.pc, ieq(n, n2)):
                idx = i
                break
        if idx is None:
            idx = len(self.firsts)
            self.firsts.append((e, n, d))
        m = cx.ack('first%d' % idx, [0], z3.IntSort(), pos=True)
        pc = st.pc
        facts = And(m <= n, Implies(m < n, cx.subst(stop, K, m)), Implies(m > 0, Not(cx.subst(stop, K, simp(m - 1)))))
        st.pc = st.pc + (Cond(facts, False),)
        return m

    def fold(self, st, s, n, elem, K, heads, holes, rest, closed, d, guard=None):
        """Variables defined by iteration only: matched with an equal iteration seen before."""
        cx = self.cx
        cand = {c: [i for i, f in enumerate(self.folds) if f['d'] == d and type(f['init']) is type(self.get(st, c)) or
                    (isint(f['init']) and isint(self.get(st, c)))] for c in rest}
        choice = {}
        for c in rest:
            init = self.get(st, c)
            if not (isint(init) or isbool(init)):
                return False
            cand[c] = [i for i in cand[c] if isint(self.folds[i]['init']) == isint(init) and
                       cx.proved(st.pc, ieq(init, self.folds[i]['init']) if isint(init) else Iff(init, self.folds[i]['init']))]
        for attempt in range(12):
            for c in rest:
                if cand[c]:
                    choice[c] = cand[c][0]
                else:
                    f = {'init': self.get(st, c), 'd': d, 'next': None, 'id': len(self.folds)}
                    self.folds.append(f)
                    choice[c] = f['id']
                    cand[c] = [f['id']]
            for c in rest:
                heads[c] = self.foldat(choice[c], K)
            side = self.for_side(st, s, n, elem, K, heads, holes, guard)
            bad = False
            for c in rest:
                f = self.folds[choice[c]]
                nxt = self.get(side.end, c) if side.end is not None else self.foldat(choice[c], K)
                if f['next'] is None:
                    if not (isint(nxt) and isint(f['init']) or isbool(nxt) and isbool(f['init'])):
                        return False
                    f['next'] = nxt
                else:
                    eq = ieq(nxt, f['next']) if isint(nxt) and isint(f['next']) else (
                        Iff(nxt, f['next']) if isbool(nxt) and isbool(f['next']) else False)
                    pc = side.end.pc if side.end is not None else st.pc
                    if not cx.proved(pc, eq):
                        cand[c] = [i for i in cand[c] if i != choice[c]]
                        bad = True
            if not bad:
                for c in rest:
                    i = choice[c]
                    if not self.spec_phase and self.folds[i].get('code', True) and i >= self.spec_folds:
                        self.taint.add(i)
                    closed[c] = ((lambda k, i=i: self.foldat(i, k)), (lambda m, i=i: self.foldat(i, m)))
                return True
            for c in rest:
                f = self.folds[choice[c]]
                if f['id'] == len(self.folds) - 1 and False:
                    f['next'] = None
        return False

    def foldat(self, i, k):
        f = self.folds[i]
        k = simp(k)
        if isinstance(k, int) and k == 0:
            return f['init']
        isi = isint(f['init'])
        c = self.cx.ack('fold%d' % i, [k], z3.IntSort() if isi else z3.BoolSort())
        if isinstance(k, z3.ExprRef) and ('f', i, k.get_id()) not in self.foldax:
            self.foldax.add(('f', i, k.get_id()))
            self.cx.keep.append(k)
            if isi or isbool(f['init']):
                self.cx.axiom(Implies(k == 0, c == (f['init'] if not isinstance(f['init'], int) or isinstance(f['init'], bool) else z3.IntVal(f['init']))), (c,))
        return c

    def arr_after(self, old, rec, m, K):
        """Dictionary after `for K in range(m): d[K] = const`."""
        if isinstance(old, HDict) and not old.map:
            old = HArr(('empty',), ())
        if not isinstance(old, HArr) or not isinstance(rec, HArr) or rec.has != ('hole',) or old.has != ('empty',) or old.val:
            raise Unsupported('dictionary filled in a loop')
        if len(rec.val) != 1:
            raise Unsupported('dictionary filled in a loop')
        g, k, v = rec.val[0]
        if g is not True or not (isinstance(k, z3.ExprRef) and k.eq(K)) or not isinstance(v, int):
            raise Unsupported('dictionary filled in a loop')
        return HArr(('range', m, v), ())

    # ------------------------------------------------------------ while

    def s_While(self, st, s):
        if s.orelse:
            raise Unsupported('while ... else')
        if isinstance(s.test, ast.Constant) and s.test.value is False:
            return
        if self.unroll:
            self.unrolled(st, s)
            return
        s = breaks_first(s)
        if not self.spec_phase and self.counting(st, s):
            return
        if self.spec_phase:
            rec = self.while_own(st, s)
            self.wrecs.append(rec)
            self.after_while(st, s, rec)
            return
        for r in reversed(self.wrecs):
            if r.scope != self.scope:
                continue
            c = self.couple(st, s, r)
            if c is not None:
                self.after_while(st, s, c)
                return
        self.notes.append('loop at line %d matches no loop of the contract' % s.lineno)
        rec = self.while_own(st, s)
        for x in rec.syms:
            self.taint.add(x)
        self.after_while(st, s, rec)

    def unrolled(self, st, s):
        """Only executions with a few iterations (search for counterexamples)."""
        n0 = len(st.pc)
        f = st.frames[-1]
        saved, handlers = f.loops, st.handlers
        brk = Exit(len(st.frames))
        ends = []
        try:
            for i in range(self.unroll + 1):
                c = simp(self.truth(st, self.ev(st, s.test)))
                if c is not True and self.cx.feasible(st.pc, Not(c)):
                    e = st.clone()
                    e.assume(Not(c))
                    ends.append((e, None))
                if i == self.unroll:
                    break
                self.assume(st, c)
                cont = Exit(len(st.frames))
                st.frames[-1].loops = saved + ((brk, cont),)
                m0 = len(st.pc)
                done = []
                try:
                    self.block(st, s.body)
                    done.append((st.clone(), None))
                except Dead:
                    pass
                done += cont.items
                for t, _ in done:
                    t.frames[-1].loops = saved
                    t.handlers = handlers
                self.join(st, m0, done)
        except Dead:
            pass
        items = ends + brk.items
        for t, _ in items:
            t.frames[-1].loops = saved
            t.handlers = handlers
        self.join(st, n0, items)
        st.handlers = handlers
        st.frames[-1].loops = saved

    def counting(self, st, s):
        """while i < n: ...; i += c   with n unchanged is a loop over a range."""
        f = counter(s)
        if f is None:
            return False
        name, step, loop = f
        bound = loop.iter.args[1]
        fr = st.frames[-1]
        i = fr.vars.get(name)
        if not isint(i):
            return False
        n = self.ev(st, bound)
        if not isint(n):
            return False
        fr.vars.setdefault(loop.target.id, UNBOUND)
        self.s_For(st, loop)
        m = self.ev(st, bound)
        if not (n.eq(m) if isinstance(n, z3.ExprRef) and isinstance(m, z3.ExprRef) else not isinstance(m, z3.ExprRef) and n == m):
            raise Unsupported('bound of the loop at line %d' % s.lineno)
        k = self.m.rngcount(st, Rng(i, n, step))
        st.frames[-1].vars[name] = simp(i + k * step)
        return True

    def components(self, st, s):
        names = sorted(assigned(s.body + [ast.Expr(s.test)]) & set(st.frames[-1].vars))
        return [('v', x) for x in names]

    def head_of(self, st, c, tag):
        """Symbolic value of a loop variable at the start of some iteration: (value, symbols)."""
        v = self.get(st, c)
        cx = self.cx
        if isint(v):
            x = cx.int('w_%s' % c[-1])
            return x, {'': x}
        if isbool(v):
            x = cx.bool('w_%s' % c[-1])
            return x, {'': x}
        if isinstance(v, Byt):
            o, n = cx.int('w_%s_off' % c[-1]), cx.int('w_%s_n' % c[-1])
            return Byt(v.base, o, n), {'off': o, 'n': n}
        if isinstance(v, (str, SStr)):
            x = cx.int('w_%s_seq' % c[-1])
            base = v.parts if isinstance(v, SStr) else ((v,) if v else ())
            return SStr(base + (('seq', x),)), {'seq': x}
        return Poison('loop variable %s' % (c[-1],)), {}

    def parts_of(self, v):
        """Components of a loop variable's value, as in head_of."""
        if isint(v) or isbool(v):
            return {'': v}
        if isinstance(v, Byt):
            return {'off': v.off, 'n': v.n}
        if isinstance(v, (str, SStr)):
            return {'seq': v}
        return {}

    def while_side(self, st, s, heads, conts, invs, extra=()):
        """One iteration from the given heads; conts: oid -> sequence symbol."""
        t = st.clone()
        for c, v in heads.items():
            self.put(t, c, v)
        for oid, sym in conts.items():
            r = self.rec(t, Ref(oid))
            if isinstance(r, HElem):
                t.heap[oid] = r.but(kids=r.kids + (SeqE(True, sym),))
            elif isinstance(r, HList):
                t.heap[oid] = r.but(r.items + (SeqE(True, sym),))
            else:
                t.heap[oid] = HArr(('sym', sym), ())
        for x in invs:
            if x is not True:
                t.pc = t.pc + (Cond(x, False),)
        start = t.clone()
        n0 = len(t.pc)
        go = []

        def prep(u):
            for k in extra:
                self.assume(u, k.x)
            m0 = len(u.pc)
            c = self.truth(u, self.ev(u, s.test))
            go.append((u.clone(), c, m0))
            self.assume(u, c)
        t, side = self.run_body(t, s, prep, False)
        side.start = start
        side.n0 = n0
        if go:
            gs, gc, m0 = go[0]
            # condition under which the loop goes on, with what evaluating it assumed
            side.go = And(*([k.x for k in gs.pc[m0:] if k.cond] + [gc]))
        else:
            side.go = False
        side.changed = {}
        for e in ([side.end] if side.end is not None else []) + [x for x, _ in side.exits]:
            for oid, kind in self.changes(start, e, conts).items():
                if isinstance(kind, set):
                    side.changed.setdefault(oid, set()).update(kind)
                else:
                    side.changed[oid] = kind
        side.stops = [And(*[k.x for k in e.pc[n0:] if k.cond]) for e, _ in side.exits]
        side.stop = Or(Not(side.go), *side.stops)
        side.emis = {}
        side.parts = {}
        if side.end is not None:
            for oid in conts:
                a, b = start.heap[oid], side.end.heap[oid]
                if isinstance(a, HElem):
                    side.emis[oid] = self.appended(a.kids, b.kids)
                elif isinstance(a, HList):
                    side.emis[oid] = self.appended(a.items, b.items)
                else:
                    if b.has != a.has:
                        raise Unsupported('dictionary replaced in a loop')
                    side.emis[oid] = b.val
            for c in heads:
                v = self.get(side.end, c)
                side.parts[c] = self.parts_of(v)
        return side

    def stable(self, st, s, comps, heads, conts, invs):
        """Run the body until all the objects it changes are known."""
        for _ in range(8):
            side = self.while_side(st, s, heads, conts, invs)
            again = False
            for oid, kind in side.changed.items():
                if isinstance(kind, set):
                    for a in kind:
                        c = ('a', oid, a)
                        if c not in heads:
                            comps.append(c)
                            heads[c] = self.head_of(st, c, 'w')[0]
                            again = True
                elif oid not in conts:
                    conts[oid] = self.cx.int('seq')
                    again = True
            if not again:
                return side
        raise Unsupported('loop does not stabilise')

    def while_own(self, st, s):
        cx = self.cx
        comps = self.components(st, s)
        rec = WRec()
        rec.line = s.lineno
        rec.scope = self.scope
        heads, syms = {}, {}
        for c in comps:
            heads[c], syms[c] = self.head_of(st, c, 'w')
        conts = {}
        side = self.stable(st, s, comps, heads, conts, [x for x, _ in self.candidates(st, s, comps, syms)])
        for c in comps:
            if c not in syms:
                syms[c] = self.parts_of(heads[c]) if not isinstance(heads[c], Poison) else {}
        # values that stay as they are, values no iteration reads
        for rnd in range(6):
            again = False
            for c in comps:
                v = heads[c]
                for p, x in list(syms[c].items()):
                    init = self.parts_of(self.get(st, c)).get(p)
                    nxt = side.parts.get(c, {}).get(p) if side.end is not None else x
                    if p == 'seq' or nxt is None:
                        continue
                    same_ = isinstance(nxt, z3.ExprRef) and nxt.eq(x)
                    if not same_ and isint(init) and isint(nxt) and not isinstance(nxt, bool):
                        same_ = p == 'n' and isinstance(init, int) and isinstance(nxt, int) and init == nxt
                    if same_:
                        del syms[c][p]
                        if p == '':
                            heads[c] = init
                        elif p == 'n':
                            heads[c] = Byt(v.base, heads[c].off, init)
                        else:
                            heads[c] = Byt(v.base, init, heads[c].n)
                        again = True
                    elif isinstance(v, Byt) and (p not in side.parts.get(c, {}) or not self.samebase(self.get(side.end, c), v)):
                        heads[c] = Poison('loop variable %s' % (c[-1],))
                        syms[c] = {}
                        again = True
                        break
                if side.end is not None and not isinstance(heads[c], Poison) and set(syms[c]) - set(side.parts.get(c, {})):
                    heads[c] = Poison('loop variable %s' % (c[-1],))
                    syms[c] = {}
                    again = True
            if not again:
                break
            side = self.stable(st, s, comps, heads, conts, [x for x, _ in self.candidates(st, s, comps, syms)])
        # invariants (largest inductive set of the candidates)
        invs = self.candidates(st, s, comps, syms)
        while True:
            side = self.while_side(st, s, heads, conts, [x for x, _ in invs])
            if side.end is None:
                break
            keep = []
            for x, f in invs:
                nx = f(lambda c, p: side.parts[c][p])
                if nx is True or cx.proved(side.end.pc, nx):
                    keep.append((x, f))
            if len(keep) == len(invs):
                break
            invs = keep
        rec.comps, rec.heads, rec.psyms, rec.conts = comps, heads, syms, conts
        rec.invs = [x for x, _ in invs]
        rec.side = side
        rec.inits = {c: self.get(st, c) for c in comps}
        rec.start_recs = {o: self.rec(st, Ref(o)) for o in conts}
        rec.start = st.clone()
        rec.live = set()
        rec.go = None
        for x in conts.values():
            self.seqloops[x.get_id()] = rec
        rec.syms = [x.get_id() for c in comps for x in syms[c].values()] + [x.get_id() for x in conts.values()]
        rec.entry = st.pc
        self.m.termination(st, s, rec)
        return rec

    def samebase(self, v, w):
        return isinstance(v, Byt) and isinstance(w, Byt) and v.base is w.base

    def from_test(self, st, s, comps, syms):
        """a <= b for every a < b in the condition of the loop: builders, as in candidates."""
        out = []
        tests = s.test.values if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) else [s.test]
        flat = [(c, p, x) for c in comps for p, x in syms.get(c, {}).items() if p != 'seq' and isinstance(x, z3.ExprRef)]
        if not flat:
            return out
        for t in tests:
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.Gt))):
                continue
            u = st.clone()
            u.handlers = (Exit(len(u.frames)),)
            try:
                for c in comps:
                    v = self.get(st, c)
                    if '' in syms.get(c, {}):
                        self.put(u, c, syms[c][''])
                    elif isinstance(v, Byt) and syms.get(c):
                        self.put(u, c, Byt(v.base, syms[c].get('off', v.off), syms[c].get('n', v.n)))
                a, b = self.ev(u, t.left), self.ev(u, t.comparators[0])
                if u.handlers[0].items or not isint(a) or not isint(b):
                    continue
                f = simp(a <= b) if isinstance(t.ops[0], ast.Lt) else simp(a >= b)
            except (Dead, Unsupported):
                continue
            if isinstance(f, z3.ExprRef):
                out.append(lambda get, f=f: simp(z3.substitute(f, *[(x, self.zv(get(c, p))) for c, p, x in flat])))
        return out

    def candidates(self, st, s, comps, syms):
        """Candidate invariants that hold at the start: (formula over heads, builder)."""
        out = []
        ints = [(c, p, x) for c in comps for p, x in syms.get(c, {}).items() if z3.is_int(x) and p != 'seq']
        cands = []
        for c, p, x in ints:
            init = self.parts_of(self.get(st, c))[p]
            cands.append(lambda get, c=c, p=p: simp(get(c, p) >= 0))
            cands.append(lambda get, c=c, p=p, i=init: simp(get(c, p) >= i))
            cands.append(lambda get, c=c, p=p: Or(simp(get(c, p) >= 0), ieq(get(c, p), -9999)))
            for c2, p2, x2 in ints:
                if (c, p) != (c2, p2):
                    cands.append(lambda get, c=c, p=p, c2=c2, p2=p2: Or(simp(get(c, p) >= 0), ieq(get(c2, p2), -9999)))
                    cands.append(lambda get, c=c, p=p, c2=c2, p2=p2: ieq(get(c, p), get(c2, p2)))
        cands += self.from_test(st, s, comps, syms)
        for f in cands:
            try:
                g0 = f(lambda c, p: self.parts_of(self.get(st, c))[p])
            except KeyError:
                continue
            if g0 is True or self.cx.proved(st.pc, g0):
                out.append((f(lambda c, p: syms[c].get(p, self.parts_of(self.get(st, c))[p])), f))
        return out

    def after_while(self, st, s, rec):
        """State after the loop: heads of the iteration in which it ends."""
        n0 = len(st.pc)
        for c in rec.comps:
            self.put(st, c, rec.heads[c])
        for oid, sym in rec.conts.items():
            r = self.rec(st, Ref(oid))
            if isinstance(r, HElem):
                st.heap[oid] = r.but(kids=r.kids + (SeqE(True, sym, rec),))
            elif isinstance(r, HList):
                st.heap[oid] = r.but(r.items + (SeqE(True, sym, rec),))
            else:
                st.heap[oid] = HArr(('sym', sym), ())
        for x in rec.invs:
            if x is not True:
                st.pc = st.pc + (Cond(x, False),)
        handlers = st.handlers
        saved = st.frames[-1].loops
        items = []
        if rec.go is not None:
            # in step with the contract's loop: same condition
            c = rec.go
            if rec.live:
                c2 = None
            else:
                c2 = self.test_on(st, s)
        else:
            c = c2 = self.truth(st, self.ev(st, s.test))

        def ended(t):
            if c2 is not None:
                f = simp(Not(c2))
                if f is False:
                    raise Dead()
                if f is not True:
                    t.pc = t.pc + (Cond(f, False),)
            for x in rec.live:
                self.put(t, x, Poison('loop variable %s' % (x[-1],)))
        if not rec.side.exits:
            c = simp(Not(c))
            if c is False or (c is not True and not self.cx.feasible(st.pc, c)):
                raise Dead()
            if c is not True:
                st.pc = st.pc + (Cond(c, False),)
            ended(st)
            return
        n1 = len(st.pc)
        a = st.clone()
        try:
            self.assume(a, Not(c))
            ended(a)
            items.append((a, None))
        except Dead:
            pass
        b = st.clone()
        brk, cont = Exit(len(st.frames)), Exit(len(st.frames))
        try:
            self.assume(b, c)
            if rec.go is not None:
                self.assume(b, self.truth(b, self.ev(b, s.test)))
            b.frames[-1].loops = saved + ((brk, cont),)
            self.block(b, s.body)
        except Dead:
            pass
        items += brk.items
        for t, _ in items:
            t.frames[-1].loops = saved
            t.handlers = handlers
        self.join(st, n1, items)
        st.frames[-1].loops = saved
        st.handlers = handlers

    tracing = False

    def trace(self, m):
        if self.tracing:
            print(m)

    def known(self, st, k):
        return any(k is q for q in st.pc) or self.cx.proved(st.pc, k.x)

    def test_on(self, st, s):
        """Condition of the loop evaluated on (a copy of) a state; None if that may fail."""
        u = st.clone()
        ex = Exit(len(u.frames))
        u.handlers = (ex,)
        n = len(u.pc)
        try:
            c = self.truth(u, self.ev(u, s.test))
        except (Dead, Unsupported):
            return None
        if ex.items:
            return None
        return And(c, *[k.x for k in u.pc[n:] if k.cond])

    def first_go(self, rec):
        """Condition under which the loop is entered at all."""
        f = rec.side.go
        if not isinstance(f, z3.ExprRef):
            return True
        sub = []
        for c in rec.comps:
            ini = self.parts_of(rec.inits[c])
            for p, x in rec.psyms[c].items():
                v = ini.get(p)
                if not isinstance(x, z3.ExprRef):
                    continue
                if p == 'seq' or not (isint(v) or isbool(v)):
                    if x.get_id() in self.cx.symbols(f):
                        return True
                    continue
                sub.append((x, self.zv(v)))
        return simp(z3.substitute(f, *sub))

    def zv(self, i):
        if isinstance(i, bool):
            return z3.BoolVal(i)
        return z3.IntVal(i) if isinstance(i, int) else i

    def couple(self, st, s, r):
        """Match the loop with a loop of the contract; None if they do not move in step."""
        cx = self.cx
        if not all(self.known(st, k) for k in r.entry):
            self.trace('line %d: loop of the contract not entered here' % s.lineno)
            return None
        comps = self.components(st, s)
        pool = [(c, p, x) for c in r.comps for p, x in r.psyms[c].items()]
        go_s = r.side.go
        inits = {}
        for c, p, x in pool:
            if p != 'seq':
                inits[x.get_id()] = (x, self.parts_of(r.inits[c])[p])

        def spec_at(f, vals):
            if not isinstance(f, z3.ExprRef):
                return f
            return simp(z3.substitute(f, *[(x, self.zv(v)) for x, v in vals.values() if isint(v) or isbool(v)]))
        g0 = self.test_on(st, s)
        if g0 is None or not cx.proved(st.pc, Iff(g0, spec_at(go_s, inits))):
            self.trace('line %d: starts differ: %s // %s' % (s.lineno, g0, spec_at(go_s, inits)))
            return None
        cand, heads, psyms, own = {}, {}, {}, {}
        flat = [(c, p, x) for c, p, x in pool if p != 'seq']
        xinit = {x.get_id(): self.parts_of(r.inits[c])[p] for c, p, x in flat}
        # variables of both loops that are equal at the start of every iteration: classes, refined below;
        # a node is ('s', symbol id) or ('c', component, part)
        classes = []
        xof = {('s', x.get_id()): x for _, _, x in flat}

        def init_of(n):
            return xinit[n[1]] if n[0] == 's' else self.parts_of(self.get(st, n[1]))[n[2]]

        def equal(q, u, v):
            if isint(u) and isint(v):
                return cx.proved(q, ieq(u, v))
            return isbool(u) and isbool(v) and cx.proved(q, Iff(u, v))

        def place(n):
            for k in classes:
                if equal(st.pc, init_of(k[0]), init_of(n)):
                    k.append(n)
                    return
            classes.append([n])

        def symbol(n):
            """Symbol of the contract's loop that stands for a node, or None."""
            for k in classes:
                if n in k:
                    if n in chosen and ('s', chosen[n]) in k:
                        return xof[('s', chosen[n])]
                    for m in k:
                        if m[0] == 's':
                            return xof[m]
            return None
        chosen = {}
        for _, _, x in flat:
            place(('s', x.get_id()))

        def options(c):
            for p, part in self.parts_of(self.get(st, c)).items():
                if p == 'seq':
                    cand[(c, p)] = [x2 for c2, p2, x2 in pool if p2 == 'seq' and
                                    self.m.proved_same(st, part, self.parts_of(r.inits[c2])[p2])]
                else:
                    place(('c', c, p))
        for c in comps:
            options(c)
        poisoned, fixed = set(), set()

        def build(c):
            v = self.get(st, c)
            parts = self.parts_of(v)
            if not parts or c in poisoned:
                heads[c] = Poison('loop variable %s' % (c[-1],))
                psyms[c] = {}
                return
            vals = {}
            for p in parts:
                x = None
                if p == 'seq':
                    x = cand[(c, p)][0] if cand[(c, p)] else None
                elif (c, p) not in fixed:
                    x = symbol(('c', c, p))
                if (c, p) in fixed:
                    vals[p] = parts[p]
                elif x is not None:
                    vals[p] = x
                else:
                    if (c, p) not in own:
                        own[(c, p)] = cx.bool('v_' + str(c[-1])) if isbool(parts[p]) else cx.int('v_' + str(c[-1]))
                    vals[p] = own[(c, p)]
            psyms[c] = vals
            if '' in vals:
                heads[c] = vals['']
            elif 'seq' in vals:
                base = v.parts if isinstance(v, SStr) else ((v,) if v else ())
                heads[c] = SStr(base + (('seq', vals['seq']),))
            else:
                heads[c] = Byt(v.base, vals['off'], vals['n'])

        def mine(c, p):
            return (c, p) in own and psyms[c].get(p) is own[(c, p)]

        def merged():
            """Equalities among the symbols of the contract's loop."""
            out = []
            for k in classes:
                xs = [xof[n] for n in k if n[0] == 's']
                out += [Cond(y == xs[0], False) for y in xs[1:]]
            return tuple(out)
        # the symbols of the contract's loop stand for some iteration here, not for the last one
        rsyms = {x.get_id() for _, _, x in pool} | {x.get_id() for x in r.conts.values()}
        generic = tuple(k for k in st.pc if not (cx.symbols(k.x) & rsyms))
        gen_facts = r.side.start.pc[len(r.entry):]
        side_facts = r.side.end.pc[len(r.side.start.pc):] if r.side.end is not None else ()
        go_fact = (Cond(go_s, True),) if isinstance(go_s, z3.ExprRef) else ()
        rn = {}
        if r.side.end is not None:
            for c2, p2, x2 in pool:
                rn[x2.get_id()] = (x2, r.side.parts[c2].get(p2))
        gsn = spec_at(go_s, {i: v for i, v in rn.items() if not isinstance(v[1], (str, SStr))}) if rn else False
        conts, contmap, ccand = {}, {}, {}
        lasting = []
        dropped = set()       # invariants of own variables that are not inductive
        live_only = set()
        for rnd in range(60):
            for c in comps:
                build(c)
            osyms = {c: {p: x for p, x in psyms[c].items() if mine(c, p)} for c in comps}
            own_invs = [(i, x, f) for i, (x, f) in enumerate(self.candidates(st, s, comps, osyms)) if (i, str(x)) not in dropped]
            t = st.clone()
            t.pc = generic + gen_facts + merged()
            side = self.while_side(t, s, heads, conts, [x for _, x, _ in own_invs], go_fact)
            again = False
            for oid, kind in side.changed.items():
                if isinstance(kind, set):
                    for a in kind:
                        c = ('a', oid, a)
                        if c not in comps:
                            comps.append(c)
                            options(c)
                            again = True
                elif oid not in conts:
                    self.pick_cont(st, oid, r, contmap, ccand)
                    conts[oid] = r.conts[contmap[oid]] if oid in contmap else cx.int('seq')
                    again = True
            if again:
                continue
            # leaving the loop from within its body
            pcs = side.start.pc + go_fact
            if isinstance(side.go, z3.ExprRef):
                pcs = pcs + (Cond(side.go, True),)
            if not cx.proved(pcs, Iff(simp(Or(*side.stops)), simp(Or(*r.side.stops)))):
                self.trace('line %d: exits differ: %s /// %s; %s %s' % (s.lineno, simp(Or(*side.stops)), simp(Or(*r.side.stops)), conts, contmap))
                return None
            if side.end is None:
                break
            for c in comps:
                if c in poisoned:
                    continue
                nxt = side.parts.get(c, {})
                for p in list(psyms[c]):
                    if (c, p) in fixed:
                        continue
                    if p not in nxt or (isinstance(heads[c], Byt) and not self.samebase(self.get(side.end, c), heads[c])):
                        poisoned.add(c)
                        again = True
                        break
                    if mine(c, p) and p != 'seq':
                        x = psyms[c][p]
                        i = self.parts_of(self.get(st, c))[p]
                        if (isinstance(nxt[p], z3.ExprRef) and nxt[p].eq(x)) or (isinstance(nxt[p], int) and isinstance(i, int) and nxt[p] == i):
                            fixed.add((c, p))
                            again = True
            if again:
                continue
            # the variables agree again whenever both loops go on
            pc = side.end.pc + tuple(side_facts)
            feas = r.side.end is not None and cx.check(pc, True) != z3.unsat
            if feas:
                pcg = pc + ((Cond(gsn, True),) if isinstance(gsn, z3.ExprRef) else ())
                bad = False
                live_only = set()
                for c in comps:
                    x = psyms[c].get('seq')
                    if x is not None and cand[(c, 'seq')] and not self.m.proved_same(pc, side.parts[c]['seq'], rn[x.get_id()][1]):
                        cand[(c, 'seq')] = cand[(c, 'seq')][1:]
                        bad = True

                def next_of(n):
                    return rn[n[1]][1] if n[0] == 's' else side.parts[n[1]][n[2]]
                for k in list(classes):
                    ns = [n for n in k if n[0] == 's' or (n[1] not in poisoned and (n[1], n[2]) not in fixed)]
                    if not any(n[0] == 's' for n in ns):
                        # no counterpart in the contract's loop
                        if len(k) > 1:
                            classes.remove(k)
                            classes.extend([n] for n in k)
                        continue
                    parts = []
                    for n in sorted(ns, key=lambda n: n[0] == 'c'):
                        for q in parts:
                            if gsn is False or equal(pcg, next_of(q[0]), next_of(n)):
                                q.append(n)
                                break
                        else:
                            parts.append([n])
                    if len(parts) > 1 or len(ns) < len(k):
                        classes.remove(k)
                        classes.extend(parts)
                        classes.extend([n] for n in k if n not in ns)
                        if len(parts) > 1:
                            self.trace('line %d: %s' % (s.lineno, [[str(xof[n]) if n[0] == 's' else n[1][-1] + n[2] for n in q] for q in parts]))
                            bad = True
                if bad:
                    continue
                # equalities that hold after the last iteration too
                for k in classes:
                    xs = [n for n in k if n[0] == 's']
                    for n in k:
                        if n[0] != 'c' or n[1] in poisoned or (n[1], n[2]) in fixed or not xs:
                            continue
                        for m in xs:
                            if equal(pc, next_of(m), next_of(n)):
                                if not psyms[n[1]][n[2]].eq(xof[m]):
                                    chosen[n] = m[1]
                                    bad = True
                                break
                        else:
                            live_only.add(n[1])
                if bad:
                    continue
                lasting = []
                for k in classes:
                    xs = [n for n in k if n[0] == 's']
                    lasting += [xof[n] == xof[xs[0]] for n in xs[1:] if equal(pc, next_of(n), next_of(xs[0]))]
                for i, x, f in own_invs:
                    nx = f(lambda c, p: side.parts[c][p])
                    if not (nx is True or cx.proved(pc, nx)):
                        dropped.add((i, str(x)))
                        bad = True
                if bad:
                    continue
                g1 = self.test_on(side.end, s)
                if g1 is None or not cx.proved(pc, Iff(g1, gsn)):
                    self.trace('line %d: one loop ends before the other: %s // %s' % (s.lineno, g1, gsn))
                    return None
                # lists and dictionaries other than the results
                for oid in conts:
                    if oid in ccand and oid in contmap:
                        if not self.m.emissions_equal(pc, side, side.emis[oid], r.side, r.side.emis[contmap[oid]], None, r.conts[contmap[oid]]):
                            ccand[oid] = ccand[oid][1:]
                            self.take(oid, contmap, ccand)
                            conts[oid] = r.conts[contmap[oid]] if oid in contmap else cx.int('seq')
                            bad = True
                            break
                if bad:
                    continue
            break
        else:
            self.trace('line %d: no stable relation' % s.lineno)
            return None
        rec = WRec()
        rec.line = s.lineno
        rec.scope = r.scope
        for oid, sym in conts.items():
            if oid not in contmap:
                self.taint.add(sym.get_id())
                continue
            if side.end is not None and r.side.end is not None and feas:
                self.m.emissions_equal(pc, side, side.emis[oid], r.side, r.side.emis[contmap[oid]], (oid, s), r.conts[contmap[oid]])
        rec.comps, rec.heads, rec.psyms, rec.conts = comps, heads, psyms, conts
        rec.live = live_only
        rec.go = go_s
        rec.invs = [k.x for k in gen_facts] + [x for _, x, _ in own_invs] + lasting
        rec.side = side
        rec.inits = {c: self.get(st, c) for c in comps}
        rec.entry = st.pc
        rec.syms = [x.get_id() for x in own.values()]
        for x in rec.syms:
            self.taint.add(x)
        self.m.termination(st, s, rec)
        return rec

    def pick_cont(self, st, oid, r, contmap, ccand):
        """Which list of the contract's loop corresponds to oid?"""
        o2 = self.m.partner(oid)
        if o2 is not None and o2 in r.conts:
            contmap[oid] = o2
            return
        mine = self.rec(st, Ref(oid))
        out = []
        for o2 in r.conts:
            if o2 in contmap.values() and o2 in self.m.partners.values():
                continue
            if o2 in self.m.partners.values():
                continue
            other = r.start_recs.get(o2)
            if other is None or type(other) is not type(mine):
                if not (isinstance(mine, (HDict, HArr)) and isinstance(other, (HDict, HArr))):
                    continue
            if isinstance(mine, HList) and not self.m.start_equal(st, mine.items, other.items, r):
                continue
            if isinstance(mine, HElem) and not (self.m.proved_same(st, mine.tag, other.tag) and
                                                self.m.proved_same(st, mine.text, other.text) and
                                                self.m.start_equal(st, mine.kids, other.kids, r)):
                continue
            if isinstance(mine, (HDict, HArr)) and not self.m.dict_start_equal(st, mine, other):
                continue
            out.append(o2)
        ccand[oid] = out
        self.take(oid, contmap, ccand)

    def take(self, oid, contmap, ccand):
        contmap.pop(oid, None)
        free = [o for o in ccand[oid] if o not in contmap.values()]
        if free:
            ccand[oid] = free[:1] + [o for o in ccand[oid] if o != free[0]]
        if ccand[oid]:
            contmap[oid] = ccand[oid][0]

    # ------------------------------------------------------------ iteration over a whole tree

    def any_iter(self, st, s, tree, brk):
        """for elt in tree.iter(): a search for elements by their text."""
        hits = []
        for text in (None, True, False):
            t = st.clone()
            e = self.new(t, HElem(object, App('sometag', [0], 'str'), text, (), ()))
            base = t.clone()
            t, side = self.run_body(t, s, lambda u: self.assign(u, s.target, e), False)
            if side.exits and side.end is not None:
                raise Unsupported('search loop with further conditions')
            if side.end is not None:
                if any(oid != e.oid for oid in self.changes(base, side.end, {})):
                    raise Unsupported('loop over all elements changes something')
                for k, v in side.end.frames[-1].vars.items():
                    if k not in assigned([s.target]) and base.frames[-1].vars.get(k) is not v:
                        raise Unsupported('loop over all elements computes something')
            if side.exits:
                hits.append(text)
        for x in assigned([s.target]):
            if x in st.frames[-1].vars:
                st.frames[-1].vars[x] = Poison('loop target')
        if not hits:
            return
        if None in hits:
            c = True
        else:
            c = self.m.anyin(st, tree, tuple(hits))

        def last(t):
            e = self.new(t, HElem(object, App('sometag', [0], 'str'), hits[0] if len(hits) == 1 else None, (), ()))
            self.once(t, s, e, brk)
            raise Dead()
        self.branch(st, c, last, lambda t: None)
