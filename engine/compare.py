"""Equality of what the code and the contract have produced.

Turns two sequences of report entries into proof obligations: one for the
presence and one for the value of every element."""
import z3

from .vals import (Unsupported, Byt, Small, Rat, Num, SStr, App, Union, Ref, HElem, HList, HInst, E, ForE,
                   SeqE, KidsE, HoleE, And, Or, Not, Implies, Iff, simp, ieq, ile, isint, isbool,
                   key, Cond, same, NeedProof)


def exactval(v):
    """`same` is an exact equality on this value."""
    if v is None or isint(v) or isbool(v) or isinstance(v, (str, bytes)):
        return True
    if isinstance(v, Byt):
        return isinstance(v.n, int) and v.n <= 16
    if isinstance(v, Small):
        return True
    if isinstance(v, Union):
        return all(exactval(x) for _, x in v.alts)
    if isinstance(v, SStr):
        return False
    return False


class Obligation:
    __slots__ = ('name', 'channel', 'path', 'tag', 'status', 'exact', 'ask')

    def __init__(self, name, channel, path, tag, status, exact=True, ask=None):
        self.name, self.channel, self.path, self.tag = name, channel, path, tag
        self.status, self.exact, self.ask = status, exact, ask


class Compare:
    def __init__(self, it, pc, scode, sspec):
        self.it, self.pc, self.a, self.b = it, pc, scode, sspec
        self.cx = it.cx
        self.out = None
        self.channel = None
        self.ok = True

    # -- entry points

    def quiet(self, es, fs):
        self.out = None
        self.ok = True
        try:
            self.seqs(self.pc, tuple(es), tuple(fs), ())
        except (Unsupported, NeedProof):
            return False
        return self.ok

    def named(self, es, fs, sink, channel, path=()):
        self.out = sink
        self.channel = channel
        self.ok = True
        self.seqs(self.pc, tuple(es), tuple(fs), path)
        return self.ok

    def value(self, a, b, sink, channel, tag):
        self.out, self.channel = sink, channel
        self.ok = True
        self.val(self.pc, a, b, (), tag)
        return self.ok

    # -- obligations

    def need(self, pc, f, name, path, tag, exact=True):
        if not self.ok and self.out is None:
            return
        if self.out is None:
            if not (f if isinstance(f, bool) else self.cx.proved(pc, f)):
                self.ok = False
            return
        if f is True:
            st, m = True, None
        elif f is False:
            r, m = self.cx.check(pc, True, model=True)
            st = True if r == z3.unsat else (False if r == z3.sat else None)
        else:
            st, m = self.cx.proved_hard(pc, f)
        if st is not True:
            self.ok = False
        self.out(Obligation(name, self.channel, path, tag, st, exact, None if st is True else (pc, f)))

    def tryprove(self, pc, f):
        return f if isinstance(f, bool) else self.cx.proved(pc, f)

    def with_(self, pc, g):
        if g is True:
            return pc
        return pc + (Cond(g, True),)

    # -- sequences

    def clean(self, pc, es):
        out = []
        for e in es:
            if e.g is False:
                continue
            out.append(e)
        return out

    def kf(self, st, e):
        if isinstance(e, E):
            return self.it.tagkey(st, e)
        return (type(e).__name__,)

    def seqs(self, pc, es, fs, path):
        if es is fs:
            return
        es, fs = self.clean(pc, es), self.clean(pc, fs)
        n = 0
        while n < len(es) and n < len(fs) and self.it.ekey(es[n]) == self.it.ekey(fs[n]):
            n += 1
        es, fs = es[n:], fs[n:]
        if not es and not fs:
            return
        ka = [self.kf(self.a, e) for e in es]
        kb = [self.kf(self.b, e) for e in fs]
        na, nb = len(es), len(fs)
        T = [[0] * (nb + 1) for _ in range(na + 1)]
        for i in range(na - 1, -1, -1):
            for j in range(nb - 1, -1, -1):
                T[i][j] = T[i + 1][j + 1] + 1 if ka[i] == kb[j] else max(T[i + 1][j], T[i][j + 1])
        pairs = []
        i = j = 0
        while i < na or j < nb:
            if i < na and j < nb and ka[i] == kb[j] and T[i][j] == T[i + 1][j + 1] + 1:
                pairs.append((es[i], fs[j]))
                i += 1
                j += 1
            elif j >= nb or (i < na and T[i + 1][j] >= T[i][j + 1]):
                pairs.append((es[i], None))
                i += 1
            else:
                pairs.append((None, fs[j]))
                j += 1
        # stretches of plain entries whose presence does not line up one to one
        # are compared as guarded sequences
        k = 0
        while k < len(pairs):
            x, y = pairs[k]
            if not self.plain(x) or not self.plain(y):
                self.pair(pc, x, y, path)
                k += 1
                continue
            m = k
            while m < len(pairs) and self.plain(pairs[m][0]) and self.plain(pairs[m][1]):
                m += 1
            self.stretch(pc, pairs[k:m], path)
            k = m

    def plain(self, e):
        return e is None or isinstance(e, E)

    def stretch(self, pc, ps, path):
        good = []
        for x, y in ps:
            gx = x.g if x is not None else False
            gy = y.g if y is not None else False
            f = Iff(gx, gy)
            good.append(self.tryprove(pc, simp(f)))
        if all(good):
            for x, y in ps:
                self.pair(pc, x, y, path, True)
            return
        # entries that line up on both ends stay one to one
        lo, hi = 0, len(ps)
        while lo < hi and good[lo]:
            self.pair(pc, ps[lo][0], ps[lo][1], path, True)
            lo += 1
        tail = []
        while hi > lo and good[hi - 1]:
            tail.append(ps[hi - 1])
            hi -= 1
        mid = ps[lo:hi]
        self.general(pc, [x for x, _ in mid if x is not None], [y for _, y in mid if y is not None], mid, path)
        for x, y in reversed(tail):
            self.pair(pc, x, y, path, True)

    def general(self, pc, xs, ys, ps, path):
        """Guarded sequences equal: exact formula over all alignments."""
        memo = {}
        leafok = True

        def eq(i, j):
            k = (i, j)
            if k in memo:
                return memo[k]
            if i == len(xs) and j == len(ys):
                r = True
            elif i == len(xs):
                r = And(*[Not(y.g) for y in ys[j:]])
            elif j == len(ys):
                r = And(*[Not(x.g) for x in xs[i:]])
            else:
                x, y = xs[i], ys[j]
                m = self.flat(x.v, y.v)
                both = And(m, eq(i + 1, j + 1)) if m is not False else False
                r = Or(And(Not(x.g), eq(i + 1, j)), And(x.g, Not(y.g), eq(i, j + 1)), And(x.g, y.g, both))
            memo[k] = r
            return r
        try:
            if len(xs) * len(ys) <= 4000:
                f = eq(0, 0)
                if self.out is None:
                    if self.ok and not self.tryprove(pc, f):
                        self.ok = False
                    return
                if self.tryprove(pc, f):
                    for x, y in ps:
                        self.out(Obligation('presence and value', self.channel, path, self.tagname(x, y), True))
                    return
        except (Unsupported, NeedProof):
            leafok = False
            if self.out is None:
                self.ok = False
                return
        for x, y in ps:
            self.pair(pc, x, y, path)

    def flat(self, v, w):
        """Formula: leaf elements v and w are the same."""
        vv = v.alts if isinstance(v, Union) else ((True, v),)
        ww = w.alts if isinstance(w, Union) else ((True, w),)
        out = []
        for g, p in vv:
            for h, q in ww:
                if isinstance(p, Ref) and isinstance(q, Ref):
                    if p.oid == q.oid:
                        continue
                    r, t = self.it.rec(self.a, p), self.it.rec(self.b, q)
                    if not isinstance(r, HElem) or not isinstance(t, HElem):
                        raise NeedProof()
                    if r.kids or t.kids:
                        if isinstance(r.tag, str) and isinstance(t.tag, str) and r.tag != t.tag:
                            f = False
                        else:
                            raise NeedProof()
                    else:
                        f = And(same(self.cx, r.tag, t.tag), same(self.cx, r.text, t.text)) if self.attrs(r, t) else False
                elif isinstance(p, Ref) or isinstance(q, Ref):
                    f = False
                else:
                    f = same(self.cx, p, q)
                out.append(Implies(And(g, h), f))
        return And(*out)

    def tagname(self, x, y):
        for e, st in ((y, self.b), (x, self.a)):
            if isinstance(e, E):
                v = e.v
                while isinstance(v, Union):
                    v = v.alts[0][1]
                if isinstance(v, Ref):
                    r = self.it.rec(st, v)
                    if isinstance(r, HElem):
                        return r.tag if isinstance(r.tag, str) else '*'
                return 'value'
            if isinstance(e, ForE) and e.es:
                return self.tagname(*((None, e.es[0]) if st is self.b else (e.es[0], None)))
            if isinstance(e, (SeqE, KidsE)):
                return '*'
        return '*'

    def alltags(self, e, st, out):
        if isinstance(e, ForE):
            for x in e.es:
                self.alltags(x, st, out)
        else:
            out.append(self.tagname(None, e) if st is self.b else self.tagname(e, None))
        return out

    def pair(self, pc, x, y, path, present=False):
        if not self.ok and self.out is None:
            return
        tag = self.tagname(x, y)
        if x is None or y is None:
            e = x if y is None else y
            self.need(pc, simp(Not(e.g)), 'no %s element' % ('unexpected' if y is None else 'missing'), path, tag)
            return
        if type(x) is not type(y):
            self.need(pc, False, 'same shape', path, tag, False)
            return
        if present:
            self.need(pc, True, 'presence', path, tag)
        else:
            self.need(pc, simp(Iff(x.g, y.g)), 'presence', path, tag)
            if not self.ok and self.out is None:
                return
        g = simp(And(x.g, y.g))
        if g is False:
            return
        p2 = self.with_(pc, g)
        if isinstance(x, E):
            self.val(p2, x.v, y.v, path, tag)
        elif isinstance(x, SeqE):
            self.need(p2, same(self.cx, x.sym, y.sym), 'iterations', path, tag, False)
        elif isinstance(x, KidsE):
            if x.proj != y.proj:
                self.need(p2, False, 'part', path, tag)
            else:
                self.need(p2, same(self.cx, x.app, y.app), 'part', path, tag)
        elif isinstance(x, ForE):
            n = simp(Or(ieq(x.n, y.n), And(ile(x.n, 0), ile(y.n, 0))))
            self.need(p2, n, 'number of repetitions', path, tag)
            if not self.ok and self.out is None:
                return
            ys = y.es
            if not x.k.eq(y.k):
                ys = [self.cx.subst(e, y.k, x.k) for e in ys]
            p3 = p2 + (Cond(And(x.k >= 0, x.k < x.n, x.k < y.n), True),)
            self.seqs(p3, tuple(x.es), tuple(ys), path)
        elif isinstance(x, HoleE):
            self.need(p2, x.tok is y.tok, 'earlier iterations', path, tag)
        else:
            raise Unsupported('comparison of entries')

    def val(self, pc, v, w, path, tag):
        if not self.ok and self.out is None:
            return
        vv = v.alts if isinstance(v, Union) else ((True, v),)
        ww = w.alts if isinstance(w, Union) else ((True, w),)
        try:
            f = self.flat(v, w)
        except NeedProof:
            f = None
        if f is not None:
            ex = all(self.exact(x, self.a) for _, x in vv) and all(self.exact(x, self.b) for _, x in ww)
            self.need(pc, f if isinstance(f, bool) else simp(f), 'value', path, tag, ex)
            return
        for g, p in vv:
            for h, q in ww:
                gh = simp(And(g, h))
                if gh is False:
                    continue
                p2 = self.with_(pc, gh)
                if gh is not True and not self.cx.feasible(pc, gh):
                    continue
                self.elem(p2, p, q, path, tag)

    def attrs(self, r, t):
        return r.attrib == t.attrib or [key(x) for x in r.attrib] == [key(x) for x in t.attrib]

    def exact(self, x, st):
        if isinstance(x, Ref):
            r = self.it.rec(st, x)
            return isinstance(r, HElem) and exactval(r.text) and isinstance(r.tag, str)
        return exactval(x)

    def elem(self, pc, p, q, path, tag):
        if isinstance(p, Ref) and isinstance(q, Ref):
            if p.oid == q.oid:
                return
            r, t = self.it.rec(self.a, p), self.it.rec(self.b, q)
            if isinstance(r, HElem) and isinstance(t, HElem):
                if not self.attrs(r, t):
                    self.need(pc, False, 'attributes', path, tag, False)
                f = And(same(self.cx, r.tag, t.tag), same(self.cx, r.text, t.text))
                self.need(pc, f if isinstance(f, bool) else simp(f), 'value', path, tag,
                          exactval(r.text) and exactval(t.text) and isinstance(r.tag, str) and isinstance(t.tag, str))
                self.seqs(pc, r.kids, t.kids, path + (tag,))
                return
            if isinstance(r, HList) and isinstance(t, HList):
                self.seqs(pc, r.items, t.items, path + (tag,))
                return
            raise Unsupported('comparison of objects')
        if isinstance(p, Ref) or isinstance(q, Ref):
            self.need(pc, False, 'value', path, tag)
            return
        f = same(self.cx, p, q)
        self.need(pc, f if isinstance(f, bool) else simp(f), 'value', path, tag, exactval(p) and exactval(q))


class Related(Compare):
    """What two runs of the code produce that differ in one option only: `a` with
    the option, `b` without it.

    Strict comparison: equal.  Weak comparison, by option: v - the entries of b
    are those of a that are not passed tests; n - equal but for what is below XML
    and UUID boxes; p - b is a without some elements of packet-level segments."""

    def __init__(self, it, pc, a, b, weak):
        Compare.__init__(self, it, pc, a, b)
        self.weak = weak
        self.rel = it.m.rel

    def sameapp(self, x, y):
        m = self.it.m
        return same(self.cx, m.canon(x), m.canon(y))

    def stretch(self, pc, ps, path):
        if not self.weak or self.rel == 'n':
            return Compare.stretch(self, pc, ps, path)
        for x, y in ps:
            self.pair(pc, x, y, path)

    def pair(self, pc, x, y, path, present=False):
        if not self.ok and self.out is None:
            return
        tag = self.tagname(x, y)
        if x is not None and y is not None and type(x) is type(y):
            if isinstance(x, SeqE):
                g = simp(And(x.g, y.g))
                self.need(pc, simp(Iff(x.g, y.g)), 'presence', path, tag)
                f = same(self.cx, x.sym, y.sym)
                if not self.weak and y.sym.get_id() in self.it.m.weaksyms:
                    f = False
                self.need(self.with_(pc, g), f, 'iterations', path, tag, False)
                return
            if isinstance(x, KidsE) and self.weak:
                self.need(pc, simp(Iff(x.g, y.g)), 'presence', path, tag)
                f = self.sameapp(x.app, y.app) if x.proj == y.proj else False
                self.need(self.with_(pc, simp(And(x.g, y.g))), f, 'part', path, tag)
                return
        if not self.weak or self.rel == 'n' or not self.plain(x) or not self.plain(y):
            return Compare.pair(self, pc, x, y, path, present)
        gx, gy = x.g if x is not None else False, y.g if y is not None else False
        if self.rel == 'v':
            return self.verbose(pc, x, y, gx, gy, path, tag)
        pk = self.packet(x if x is not None else y, self.a if x is not None else self.b)
        self.need(pc, simp(Or(pk, Iff(gx, gy))), 'presence', path, tag)
        self.need(pc, simp(Implies(gy, gx)), 'nothing left out', path, tag)
        if x is not None and y is not None:
            self.val(self.with_(pc, simp(And(gx, gy))), x.v, y.v, path, tag)

    def packet(self, e, st):
        """The element is one of a packet-level marker segment."""
        from .models import PACKETTAGS
        out = []
        for g, v in (e.v.alts if isinstance(e.v, Union) else ((True, e.v),)):
            if not isinstance(v, Ref):
                out.append(Not(g))
                continue
            out.append(Implies(g, Or(*[self.it.m.tageq(st, v, t) for t in PACKETTAGS])))
        return And(*out)

    def alts(self, e, st):
        return e.v.alts if isinstance(e.v, Union) else ((True, e.v),)

    def verbose(self, pc, x, y, gx, gy, path, tag):
        def leaf(e, st):
            return all(isinstance(v, Ref) and isinstance(self.it.rec(st, v), HElem) and isbool(self.it.rec(st, v).text) and
                       not self.it.rec(st, v).kids for _, v in self.alts(e, st))

        def passed(e, st):
            return And(*[Implies(g, self.it.rec(st, v).text) for g, v in self.alts(e, st)])
        if (x is None or leaf(x, self.a)) and (y is None or leaf(y, self.b)):
            px = passed(x, self.a) if x is not None else True
            self.need(pc, simp(Iff(gy, And(gx, Not(px)))), 'failed tests the same', path, tag)
            if x is not None and y is not None:
                # names; and only failed tests in the default report
                self.need(self.with_(pc, simp(gy)), simp(Not(passed(y, self.b))), 'no passed test', path, tag)
                for g, v in self.alts(x, self.a):
                    for h, w in self.alts(y, self.b):
                        f = same(self.cx, self.it.rec(self.a, v).tag, self.it.rec(self.b, w).tag)
                        if f is not True:
                            self.need(self.with_(pc, simp(And(gx, gy, g, h))), f, 'name', path, tag)
            return
        if x is None or y is None:
            return Compare.pair(self, pc, x, y, path)
        # an element with tests below: it may be absent where it would be empty
        full = True
        for e, st in ((x, self.a), (y, self.b)):
            for g, v in self.alts(e, st):
                n = self.it.m.count(st, self.it.rec(st, v).kids) if isinstance(v, Ref) and isinstance(self.it.rec(st, v), HElem) else 1
                full = And(full, Implies(g, simp(n > 0) if not isinstance(n, int) else n > 0))
        self.need(pc, simp(Implies(full, Iff(gx, gy))), 'presence', path, tag)
        self.val(self.with_(pc, simp(And(gx, gy))), x.v, y.v, path, tag)
