"""Proof of one structure: BoxValidator(options, kind, contents).validate()
against the contract of that kind, for all contents and options."""
import os
import sys
import time
import traceback
import z3

from .vals import (Unsupported, Dead, Byt, Base, Small, Union, Ref, HElem, HInst, HDict, Ctx, And, Or, Not,
                   simp, isint, UNBOUND, NeedProof, byteq)
from .interp import Interp, State, Frame, Exit
from .loops import LoopMixin
from .models import Models, AFFECTS, PACKETTAGS
from .compare import Compare, Obligation


class Engine(LoopMixin, Interp):
    def __init__(self, cx, models):
        Interp.__init__(self, cx, models)
        self.sums, self.firsts, self.folds = [], [], []
        self.foldax = set()
        self.spec_folds = 0
        self.wrecs = []
        self.scope = 'root'
        self.seqloops = {}
        self.unroll = 0
        self.symcache = {}


WEAK = ('mul!', 'fdiv!', 'list_eq!', 'text_eq!', 'bytes_eq!', 'float_eq!')


class Run:
    """One proof: kind of structure, validation format."""

    def __init__(self, mods, kind, fmt):
        self.spec, self.prim, self.code = mods
        self.kind, self.fmt = kind, fmt
        self.obs = []
        self.error = None
        self.cx = Ctx()
        self.m = Models(self.spec, self.prim, self.code)
        self.it = Engine(self.cx, self.m)

    def setup(self):
        cx, it, m = self.cx, self.it, self.m
        m.fmt = self.fmt
        m.rootkind = self.kind
        st = State()
        root = Exit(0)
        st.handlers = (root,)
        st.frames = [Frame({}, self.spec.__dict__, Exit(0), None)]
        self.base = Base(cx, 'data')
        m.bases = [self.base]
        cx.axiom(self.base.L <= 2 ** 50)
        cx.assumptions.add('the data are at most 2**50 bytes long')
        self.content = Byt(self.base, 0, self.base.L)
        self.verbose, self.nullxml, self.packets = z3.Bool('verbose'), z3.Bool('nullxml'), z3.Bool('packets')
        m.optnow = (self.fmt, self.verbose, self.nullxml, self.packets)
        self.csiz = z3.Int('csiz')
        cx.axiom(z3.And(self.csiz >= -9999, self.csiz <= 65535))
        self.start = z3.Int('startOffset')
        self.opts = it.new(st, HDict({
            'validationFormat': (True, self.fmt), 'verboseFlag': (True, self.verbose),
            'nullxmlFlag': (True, self.nullxml), 'packetmarkersFlag': (True, self.packets),
            'extractNullTerminatedXMLFlag': (True, self.nullxml)}))
        self.cxr = it.new(st, HInst(self.spec.Cx, {'fmt': self.fmt, 'verbose': self.verbose,
                                                   'nullxml': self.nullxml, 'packets': self.packets}))
        k = self.kind
        if k == 'unknown':
            bs = [z3.Int('type%d' % i) for i in range(4)]
            for b in bs:
                cx.axiom(z3.And(b >= 0, b <= 255))
            self.bytekind = Small(bs, 4)
            for n in self.spec.NAMES:
                if isinstance(n, bytes) and len(n) == 4:
                    cx.axiom(Not(byteq(cx, self.bytekind, n)))
        else:
            self.bytekind = k
        return st, root

    def specphase(self, st):
        it, spec = self.it, self.spec
        it.spec_phase = True
        k = self.kind
        if k == 'unknown':
            res = it.call(st, spec.Res, ['unknownBox'] * 3, {})
            it.call(st, spec.spec_unknownBox, [self.cxr, self.content, res, self.bytekind], {})
        else:
            res = it.call(st, spec.new_result, [k], {})
            name = spec.NAMES.get(k, k)
            it.call(st, getattr(spec, 'spec_' + name), [self.cxr, self.content, res, self.csiz, self.start], {})
        return res

    def codephase(self, st):
        it, m = self.it, self.m
        it.spec_phase = False
        it.spec_folds = len(it.folds)
        bv = self.code['boxvalidator'].BoxValidator
        m.rootobj = None
        obj = it.call(st, bv, [self.opts, self.bytekind, self.content, self.start, self.csiz], {})
        m.rootobj = obj
        a = it.rec(st, obj).attrs
        s = self.sspec
        ra = it.rec(s, self.res).attrs
        for n, p in (('tests', 'tests'), ('characteristics', 'props'), ('warnings', 'warns')):
            if isinstance(a.get(n), Ref):
                m.partners[a[n].oid] = ra[p].oid
                m.channels[a[n].oid] = p
        fn = it.getattr(st, obj, 'validate')
        ret = it.call(st, fn, [], {})
        return obj, ret

    def add(self, o):
        self.obs.append(o)

    def obl(self, kind, name, status):
        self.obs.append(Obligation(name, kind, (), kind, status, False))

    def run(self):
        t0 = time.time()
        try:
            self._run()
        except (Unsupported, NeedProof, RecursionError, z3.Z3Exception) as e:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.error = '%s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
        except Dead:
            self.error = 'no execution ends'
        for what, pc, known in self.it.frame_writes:
            # exact: what changes is a table or setting that was there before; filling an empty one may be a cache
            r = self.cx.check(pc, True)
            if r != z3.unsat:
                self.obs.append(Obligation(what, 'frame', (), what, False if r == z3.sat else None, known, (pc, False)))
        self.wall = time.time() - t0
        return self

    def _run(self):
        st, root = self.setup()
        it = self.it
        s = st.clone()
        self.res = self.specphase(s)
        self.sspec = s
        if root.items:
            raise Unsupported('the contract raises %r' % ([e for _, e in root.items],))
        s2 = st.clone()
        s2.pc = s.pc
        for o, r in s.heap.items():
            if o not in s2.heap:
                self.cx.gheap[o] = r
        self.m.obl = self.obl
        self.m.sink = self.add
        ended = True
        try:
            obj, ret = self.codephase(s2)
        except Dead:
            ended = False
        seen = 0
        for t, exc in root.items:
            r, mod = self.cx.check(t.pc, True, model=True)
            if r == z3.unsat:
                continue
            seen += 1
            self.obs.append(Obligation('no %s' % exc.__name__, 'exception', (), exc.__name__,
                                       False if r == z3.sat else None, True, (t.pc, False)))
        if not seen:
            self.obs.append(Obligation('no exception leaves the analysis', 'exception', (), '', True))
        if not ended:
            if not seen:
                raise Unsupported('no execution ends')
            return
        self.scode = s2
        if self.cx.check(s2.pc, True) == z3.unsat:
            # everything would hold: the assumptions contradict each other, or the code always raises
            if not seen:
                raise Unsupported('no execution ends')
            return
        a, ra = it.rec(s2, obj).attrs, it.rec(s, self.res).attrs
        pc = s2.pc
        for n, p in (('tests', 'tests'), ('characteristics', 'props'), ('warnings', 'warns')):
            v = a.get(n)
            if not isinstance(v, Ref):
                raise Unsupported('%s is not an element' % n)
            x, y = it.rec(s2, v), it.rec(s, ra[p])
            c = Compare(it, pc, s2, s)
            if x.cls is not self.m.elcls:
                self.obs.append(Obligation('class of ' + n, p, (), '*', False, True))
            c.value(x.tag, y.tag, self.add, p, '*')
            c.value(x.text, y.text, self.add, p, '*')
            Compare(it, pc, s2, s).named(x.kids, y.kids, self.add, p)
        for n, p in (('isValid', 'valid'), ('returnOffset', 'next'), ('tilePartLength', 'psot')):
            Compare(it, pc, s2, s).value(a.get(n, UNBOUND), ra[p], self.add, p, p)
        Compare(it, pc, s2, s).value(ret.oid if isinstance(ret, Ref) else ret, obj.oid, self.add, 'result', 'result')
        self.obs.append(Obligation('no change of shared state', 'frame', (), '', True))


class OptionRun(Run):
    """The code with an option against the code without it."""

    def __init__(self, mods, kind, fmt, option):
        Run.__init__(self, mods, kind, fmt)
        self.option = option
        self.m.rel = option

    def phase(self, st, on):
        it, m = self.it, self.m
        flags = [on if self.option == o else v for o, v in zip('vnp', (self.verbose, self.nullxml, self.packets))]
        names = ('verboseFlag', 'nullxmlFlag', 'packetmarkersFlag')
        opts = it.new(st, HDict(dict({'validationFormat': (True, self.fmt), 'extractNullTerminatedXMLFlag': (True, flags[1])},
                                     **{n: (True, v) for n, v in zip(names, flags)})))
        m.optnow = (self.fmt,) + tuple(False if self.option == o else v for o, v in zip('vnp', flags))
        m.rootobj = None
        obj = it.call(st, self.code['boxvalidator'].BoxValidator, [opts, self.bytekind, self.content, self.start, self.csiz], {})
        m.rootobj = obj
        return obj

    def _run(self):
        st, root = self.setup()
        it, m = self.it, self.m
        s = st.clone()
        it.spec_phase = True
        base = self.phase(s, False)
        try:
            it.call(s, it.getattr(s, base, 'validate'), [], {})
        except Dead:
            return
        s2 = st.clone()
        s2.pc = s.pc
        for o, r in s.heap.items():
            if o not in s2.heap:
                self.cx.gheap[o] = r
        m.obl = lambda *a: None
        m.sink = self.add
        it.spec_phase = False
        it.spec_folds = len(it.folds)
        ra = it.rec(s, base).attrs
        obj = self.phase(s2, True)
        a = it.rec(s2, obj).attrs
        for n in ('tests', 'characteristics', 'warnings'):
            if isinstance(a.get(n), Ref) and isinstance(ra.get(n), Ref):
                m.partners[a[n].oid] = ra[n].oid
        try:
            it.call(s2, it.getattr(s2, obj, 'validate'), [], {})
        except Dead:
            return
        a = it.rec(s2, obj).attrs
        pc = s2.pc
        name = self.spec.NAMES.get(self.kind, self.kind)
        for n, p in (('tests', 'tests'), ('characteristics', 'props'), ('warnings', 'warns')):
            v, w = a.get(n), ra.get(n)
            if not isinstance(v, Ref) or not isinstance(w, Ref):
                raise Unsupported('%s is not an element' % n)
            if p == 'props' and (self.option == 'n' and name in ('xmlBox', 'uuidBox') or self.option == 'p' and name in PACKETTAGS):
                continue
            x, y = it.rec(s2, v), it.rec(s, w)
            c = m.comparer(pc, s2, s, p == AFFECTS[self.option])
            c.value(x.tag, y.tag, self.add, 'option', n)
            c.value(x.text, y.text, self.add, 'option', n)
            c.named(x.kids, y.kids, self.add, 'option', (n,))
        for n in ('isValid', 'returnOffset', 'tilePartLength'):
            m.comparer(pc, s2, s).value(a.get(n, UNBOUND), ra.get(n, UNBOUND), self.add, 'option', n)


def load():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    from harness import real
    real.load()
    from spec import jp2, prim
    import jpylyzer.boxvalidator as bv
    import jpylyzer.etpatch as et
    return jp2, prim, {'boxvalidator': bv, 'etpatch': et}


def kinds(spec):
    return list(spec.NAMES) + ['JP2', 'contiguousCodestreamBox', 'unknown']


def show(r, verbose=False):
    n = len(r.obs)
    ok = sum(o.status is True for o in r.obs)
    bad = [o for o in r.obs if o.status is not True]
    print('%-28s %-4s %4d/%-4d %6.1fs checks %d solver %.1fs %s' % (
        r.kind if isinstance(r.kind, str) else r.spec.NAMES[r.kind], r.fmt, ok, n, r.wall, r.cx.checks, r.cx.time, r.error or ''))
    for o in bad[:40]:
        print('    ', o.status, o.channel, '/'.join(map(str, o.path)), o.tag, o.name, 'exact' if o.exact else 'inexact')


if __name__ == '__main__':
    mods = load()
    spec = mods[0]
    names = {v: k for k, v in spec.NAMES.items()}
    names["contiguousCodestreamBox"] = "contiguousCodestreamBox"; names["sot"] = "startOfTile"
    sys.setrecursionlimit(20000)
    for a in sys.argv[1:]:
        n, _, f = a.partition(':')
        k = names.get(n, n)
        opt = os.environ.get('OPTION')
        r = (OptionRun(mods, k, f or 'jp2', opt) if opt else Run(mods, k, f or 'jp2')).run()
        show(r)
        if r.error and os.environ.get('TB'):
            r = OptionRun(mods, k, f or 'jp2', opt) if opt else Run(mods, k, f or 'jp2')
            r._run()
