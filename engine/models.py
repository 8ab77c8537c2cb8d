"""Meaning of the operations of Python and of the libraries on symbolic values.

Everything here is part of the trusted base: it states what the interpreter
assumes of bytes, integers, lists, dictionaries, elements of ElementTree,
struct, binascii, uuid, math and of the primitives of the contracts.
"""
import ast
import binascii
import builtins
import inspect
import math
import struct
import sys
import types
import unicodedata
import uuid
import xml.etree.ElementTree as XET
import z3

from .vals import (Unsupported, Dead, UNBOUND, Poison, Byt, Base, Small, Rat, Num, SStr, App,
                   Union, Ref, HElem, HList, HInst, HDict, HArr, E, ForE, SeqE, KidsE, HoleE,
                   reguard, And, Or, Not, Implies, Iff, If, simp, conc, ieq, ile, ilt, isint,
                   isbool, isbytes, isstr, key, Cond, same, byteq, streq, eqv, parts, tagis, TAGS,
                   kind_in, USES_CSIZ, USES_START)
from .interp import (Frame, Exit, State, Bound, Native, Closure, Rng, concrete, kcanon, assigned)

B = z3.BoolSort()
I = z3.IntSort()
EXACT = 2 ** 52
AFFECTS = {'v': 'tests', 'n': 'props', 'p': 'props'}
PACKETTAGS = ('plm', 'ppm', 'plt', 'ppt')


FROMKEYS = ast.parse('{__key: __same for __key in __keys}', mode='eval').body


class GenStr:
    """Characters of a text, filtered."""

    def __init__(self, node, value, env, glob):
        self.node, self.value, self.env, self.glob = node, value, env, glob


class Enum:
    def __init__(self, v, start):
        self.v, self.start = v, start


class Zip:
    def __init__(self, vs):
        self.vs = vs


class Rev:
    def __init__(self, v):
        self.v = v


class Tree:
    """elem.iter()"""

    def __init__(self, ref):
        self.ref = ref


class SetV:
    def __init__(self, ref):
        self.ref = ref


def kdepth(k):
    return int(k.decl().name()[1:])


def unwrap(v):
    return v


class Models:
    def __init__(self, spec, prim, code):
        """spec, prim: modules of the contracts; code: dict of the modules under verification."""
        self.spec, self.prim, self.code = spec, prim, code
        self.cls = code['boxvalidator'].BoxValidator
        self.elcls = code['etpatch'].Element
        self.it = None
        self.memo = {}
        self.lens = []        # lengths of lists that exist
        self.fmemo = {}
        self.filters = []
        self.options = None      # symbolic options of the analysis
        self.fmt = None
        self.partners = {}
        self.rootobj = None
        self.rel = None             # option under comparison: v(erbose), n(ullxml), p(acketmarkers)
        self.weaksyms = set()
        self.rootkind = None
        self.validsnap = {}
        self.obl = None          # sink for obligations (kind, name, status)
        self.sink = None         # sink for Obligation objects
        self.channels = {}       # oid -> part of the outcome
        self.paths = {}
        self.bases = []
        self.prims = {getattr(prim, n): getattr(self, 'p_' + n) for n in
                      ('leaf', 'adopt', 'is_empty', 'find', 'find_all', 'text_of', 'texts_of', 'any_false',
                       'uint', 'sint8', 'anyint', 'hextext', 'uuidtext', 'strip_nulls', 'latin',
                       'is_utf8', 'xml_ok', 'xml_tree', 'pad4', 'ratio', 'ceildiv',
                       'power', 'shifted', 'hexfield', 'position', 'distinct')}
        self.prims[spec.sub] = self.p_sub
        TAGS.clear()
        for k, n in spec.NAMES.items():
            if isinstance(k, bytes):
                TAGS.setdefault(n, []).append(k)

    @property
    def cx(self):
        return self.it.cx

    # ------------------------------------------------------------ raw values

    def raw(self, v):
        return v

    def mkunion(self, alts):
        out = []
        for g, v in alts:
            if g is False:
                continue
            self.it._alt(out, g, v)
        if not out:
            raise Dead()
        return out[0][1] if len(out) == 1 else Union(out)

    def entries(self, st, v):
        r = self.it.rec(st, v)
        return r.kids if isinstance(r, HElem) else r.items

    # ------------------------------------------------------------ functions

    def function(self, st, fn, args, kw):
        it = self.it
        try:
            p = self.prims.get(fn)
        except TypeError:
            p = None
        if p is not None:
            return p(st, *args, **kw)
        if fn is struct.unpack:
            return it.over2(st, args[0], args[1], lambda s, f, b: self.unpack(s, f, b))
        if fn is binascii.hexlify or fn is binascii.b2a_hex:
            return it.over(st, args[0], lambda s, b: self.hexlify(s, b))
        if fn is XET.fromstring or fn is XET.XML:
            return it.over(st, args[0], lambda s, b: self.fromstring(s, b))
        if fn is XET.SubElement:
            tag = args[1]
            e = it.new(st, HElem(XET.Element, tag))
            self.append_kid(st, args[0], e)
            return e
        if fn is math.ceil:
            return it.over(st, args[0], lambda s, x: self.ceil(s, x))
        if fn is math.floor:
            return it.over(st, args[0], lambda s, x: self.floor(s, x))
        if fn is math.trunc:
            return it.over(st, args[0], lambda s, x: self.toint(s, x))
        if isinstance(fn, types.BuiltinFunctionType) and getattr(fn, '__self__', None) is int and fn.__name__ == 'from_bytes':
            order = args[1] if len(args) > 1 else kw.get('byteorder', 'big')
            if order != 'big' or kw.get('signed'):
                raise Unsupported('int.from_bytes')
            return it.over(st, args[0], lambda s, b: self.bigval(s, b))
        if isinstance(fn, types.BuiltinFunctionType) and getattr(fn, '__self__', None) is bytes and fn.__name__ == 'fromhex':
            if concrete(args[0]):
                return bytes.fromhex(args[0])
            raise Unsupported('bytes.fromhex')
        if fn is struct.calcsize and concrete(args[0]):
            return struct.calcsize(args[0])
        if isinstance(fn, type) and issubclass(fn, BaseException):
            return fn
        return NotImplemented

    def unpack(self, st, fmt, b):
        if not isinstance(fmt, str):
            raise Unsupported('struct format')
        if not isbytes(b):
            self.it.raise_(st, TypeError)
        try:
            size = struct.calcsize(fmt)
        except struct.error:
            self.it.raise_(st, struct.error)
        if concrete(b):
            try:
                return struct.unpack(fmt, b)
            except struct.error:
                self.it.raise_(st, struct.error)
        order, codes = (fmt[0], fmt[1:]) if fmt and fmt[0] in '<>!=@' else ('@', fmt)
        if order in '=@' and any(c not in 'bBc' for c in codes):
            raise Unsupported('native byte order')
        self.it.raise_if(st, Not(ieq(self.cx.blen(b), size)), struct.error)
        out, at = [], 0
        for c in codes:
            if c not in 'bBhHiIlLqQ':
                raise Unsupported('struct format %s' % fmt)
            n = {'b': 1, 'h': 2, 'i': 4, 'l': 4, 'q': 8}[c.lower()]
            bs = [self.cx.bget(b, at + i) for i in range(n)]
            if order == '<':
                bs.reverse()
            v = 0
            for x in bs:
                v = v * 256 + x
            v = simp(v)
            if c.islower():
                v = simp(If(simp(v >= 2 ** (8 * n - 1)), v - 2 ** (8 * n), v))
            else:
                self.mark(v)
            out.append(v)
            at += n
        return tuple(out)

    def mark(self, v):
        """v is not negative."""
        if isinstance(v, z3.ExprRef) and v.get_id() not in self.cx.nonneg_ids:
            self.cx.nonneg_ids[v.get_id()] = v

    def maxlen(self, b):
        if isinstance(b, bytes):
            return len(b)
        if isinstance(b, Small):
            return len(b.elems)
        if isinstance(b, Byt) and isinstance(b.n, int):
            return max(b.n, 0)
        return None

    def bigval(self, st, b):
        """Big-endian value of all the bytes of b (0 if there are none)."""
        cx = self.cx
        if concrete(b):
            return int.from_bytes(b, 'big')
        n = self.maxlen(b)
        ln = cx.blen(b)
        if n is None and cx.proved(st.pc, ln <= 8):
            n = 8
        if isinstance(ln, int):
            n = ln
        if n is not None and n <= 8:
            r, v = 0, 0
            for i in range(n):
                v = v * 256 + cx.bget(b, i)
                r = If(ieq(ln, i + 1), v, r)
            r = simp(r)
            self.mark(r)
            return r
        return cx.ack('bigval', [b], I, pos=True)

    def hexlify(self, st, b):
        if concrete(b):
            return binascii.hexlify(b)
        if not isbytes(b):
            self.it.raise_(st, TypeError)
        return App('hex', [b], 'bytes')

    def fromstring(self, st, b):
        if not isbytes(b):
            raise Unsupported('parsing of text')
        self.it.raise_if(st, Not(self.p_xml_ok(st, b)), XET.ParseError)
        return self.xmltree(st, b, XET.Element)

    def xmltree(self, st, b, cls):
        app = App('xml', [b], 'tree')
        return self.it.new(st, HElem(cls, App('xmltag', [b], 'str'), App('xmltext', [b], 'xml'),
                                     (('attrib', app),), (KidsE(True, app, 'kids'),)))

    def exact(self, st, r):
        """The float quotient compares, truncates and rounds up like the exact one."""
        n, d = r.num, r.den
        c = And(simp(n <= EXACT), simp(n >= -EXACT)) if not isinstance(n, int) else abs(n) <= EXACT
        return self.cx.proved(st.pc, c) and (self.positive(st, d) or self.cx.proved(st.pc, simp(d > 0)))

    def ites(self, t, n=12):
        """The leaves of a tree of conditionals, or None."""
        out = []
        todo = [t]
        while todo:
            x = todo.pop()
            if isinstance(x, z3.ExprRef) and z3.is_app_of(x, z3.Z3_OP_ITE):
                todo += x.children()[1:]
            else:
                out.append(x)
            if len(out) > n:
                return None
        return out

    def casetree(self, t, depth=3):
        """t as a tree of conditionals over constants, if it has few cases; else None."""
        if isinstance(t, int) or z3.is_int_value(t):
            return t
        if depth == 0:
            return None
        todo, c, n = [t], None, 0
        while todo:
            x = todo.pop()
            n += 1
            if n > 60:
                return None
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                c = x.arg(0)
                break
            if z3.is_app_of(x, z3.Z3_OP_ADD) or z3.is_app_of(x, z3.Z3_OP_MUL) or z3.is_app_of(x, z3.Z3_OP_SUB):
                todo += x.children()
            elif not z3.is_int_value(x):
                return None
        if c is None:
            return None
        a = self.casetree(z3.simplify(z3.substitute(t, (c, z3.BoolVal(True)))), depth - 1)
        if a is None:
            return None
        b = self.casetree(z3.simplify(z3.substitute(t, (c, z3.BoolVal(False)))), depth - 1)
        if b is None:
            return None
        return If(c, conc(a), conc(b))

    def overites(self, t, f):
        if isinstance(t, z3.ExprRef) and z3.is_app_of(t, z3.Z3_OP_ITE):
            c, x, y = t.children()
            return simp(If(c, self.overites(x, f), self.overites(y, f)))
        return f(conc(t))

    def positive(self, st, b):
        """b != 0 is known: is every case of b of known sign?"""
        ls = self.ites(b) if isinstance(b, z3.ExprRef) else [b]
        if ls is None:
            return False
        return all(isinstance(x, int) or z3.is_int_value(x) or self.cx._nn(x) for x in ls)

    def fdiv(self, st, a, b):
        """a // b for b != 0; symbolic cases of b are positive"""
        if isinstance(a, int) and isinstance(b, int):
            return a // b if b else 0
        if isinstance(b, z3.ExprRef) and z3.is_app_of(b, z3.Z3_OP_ITE) and self.ites(b):
            return self.overites(b, lambda x: self.fdiv(st, a, x))
        if isinstance(b, int):
            if b == 0:
                return 0
            if b < 0:
                return self.fdiv(st, simp(-a), -b)
            if b == 1:
                return a
            r = simp(a / b)
            if isinstance(r, z3.ExprRef) and self.cx.nonneg(st.pc, a):
                self.mark(r)
            return r
        q = self.cx.ack('fdiv', [a, b], I)
        k = ('fdivax', q.get_id())
        if k not in self.memo:
            self.memo[k] = q
            a_ = z3.IntVal(a) if isinstance(a, int) else a
            self.cx.axiom(Implies(b > 0, And(Implies(a_ >= 0, q >= 0), Implies(a_ < 0, q < 0), Implies(a_ >= 0, q <= a_))), (q,))
        return q

    def ceil(self, st, x):
        if isint(x):
            return x
        if concrete(x):
            return math.ceil(x)
        if isinstance(x, Rat) and self.exact(st, x):
            return simp(-self.fdiv(st, simp(-x.num), x.den))
        raise Unsupported('ceil')

    def floor(self, st, x):
        if isint(x):
            return x
        if concrete(x):
            return math.floor(x)
        if isinstance(x, Rat) and self.exact(st, x):
            return self.fdiv(st, x.num, x.den)
        raise Unsupported('floor')

    def toint(self, st, x):
        if isint(x):
            return x
        if isbool(x):
            return If(x, 1, 0)
        if isinstance(x, Rat) and self.exact(st, x):
            if not (isinstance(x.den, int) and x.den > 0) and not self.cx.proved(st.pc, x.den > 0):
                raise Unsupported('int of a quotient of unknown sign')
            if self.cx.nonneg(st.pc, x.num):
                return self.fdiv(st, x.num, x.den)
            up = simp(-self.fdiv(st, simp(-x.num), x.den))
            return simp(If(simp(x.num >= 0), self.fdiv(st, x.num, x.den), up))
        if isinstance(x, float):
            return int(x)
        if x is None:
            self.it.raise_(st, TypeError)
        raise Unsupported('int of %r' % (x,))

    # ------------------------------------------------------------ classes

    def instantiate(self, st, cls, args, kw):
        it = self.it
        if cls is self.prim.Node:
            return it.new(st, HElem(cls, args[0]))
        if isinstance(cls, type) and issubclass(cls, XET.Element):
            if len(args) != 1 or kw:
                raise Unsupported('element with attributes')
            if cls is not XET.Element and '__init__' in cls.__dict__:
                raise Unsupported('element class with constructor')
            return it.new(st, HElem(cls, args[0]))
        if cls is self.cls and self.rootobj is not None:
            return self.new_part(st, args, kw)
        if cls is uuid.UUID:
            b = kw.get('bytes')
            if b is None or len(kw) != 1 or args:
                raise Unsupported('UUID')
            return it.over(st, b, lambda s, x: self.mkuuid(s, x))
        if cls is int:
            return it.over(st, args[0] if args else 0, lambda s, x: self.mkint(s, x, args[1:]))
        if cls is str:
            return it.over(st, args[0] if args else '', lambda s, x: self.tostr(s, x))
        if cls is bool:
            return it.truth(st, args[0] if args else False)
        if cls is float:
            return it.over(st, args[0], lambda s, x: self.mkfloat(s, x))
        if cls is list:
            return self.tolist(st, args[0]) if args else it.newlist(st, [])
        if cls is tuple:
            if not args:
                return ()
            r = self.tolist(st, args[0])
            es = self.entries(st, r)
            if all(isinstance(e, E) and e.g is True for e in es):
                return tuple(e.v for e in es)
            return r
        if cls in (set, frozenset):
            return self.setof(st, args[0]) if args else self.mkset(st, [])
        if cls is dict:
            if args or kw:
                raise Unsupported('dict()')
            return it.new(st, HDict({}))
        if cls is range:
            return self.mkrange(st, args)
        if cls is enumerate:
            return Enum(args[0], args[1] if len(args) > 1 else kw.get('start', 0))
        if cls is zip:
            return Zip(args)
        if cls is reversed:
            return Rev(args[0])
        if cls is type and len(args) == 1:
            return it.over(st, args[0], lambda s, x: self.typeof(s, x))
        if cls is bytes and args and isbytes(args[0]):
            return args[0]
        if cls is object:
            return it.new(st, HInst(object, {}))
        if isinstance(cls, type) and cls.__module__ in (self.cls.__module__, self.spec.__name__, self.prim.__name__) \
                and cls.__bases__ == (object,):
            o = it.new(st, HInst(cls, {}))
            init = cls.__dict__.get('__init__')
            if init is not None:
                it.call(st, init, [o] + list(args), kw)
            elif args or kw:
                it.raise_(st, TypeError)
            return o
        raise Unsupported('class %s' % cls.__name__)

    def mkrange(self, st, args):
        for a in args:
            if not isint(a) and not isinstance(a, Union):
                if isinstance(a, (Rat, Num, float)) or a is None or isstr(a):
                    self.it.raise_(st, TypeError)
                raise Unsupported('range of %r' % (a,))
        lo, step = 0, 1
        if len(args) == 1:
            hi = args[0]
        else:
            lo, hi = args[0], args[1]
            if len(args) > 2:
                step = args[2]

        def mk(s, a):
            def mk2(t, b):
                for x in (a, b):
                    if not isint(x):
                        if x is None or isinstance(x, (Rat, Num, float)):
                            self.it.raise_(t, TypeError)
                        raise Unsupported('range of %r' % (x,))
                return Rng(a, b, step)
            return self.it.over(s, hi, mk2)
        return self.it.over(st, lo, mk)

    def mkuuid(self, st, b):
        if not isbytes(b):
            self.it.raise_(st, TypeError)
        self.it.raise_if(st, Not(ieq(self.cx.blen(b), 16)), ValueError)
        return App('uuid', [b], 'uuid')

    def mkint(self, st, x, rest):
        if rest:
            if rest[0] == 16 and isinstance(x, App) and x.op == 'hex':
                b = x.args[0]
                self.it.raise_if(st, ieq(self.cx.blen(b), 0), ValueError)
                return self.bigval(st, b)
            if concrete(x) and concrete(rest[0]):
                try:
                    return int(x, rest[0])
                except (ValueError, TypeError) as e:
                    self.it.raise_(st, type(e))
            raise Unsupported('int with base')
        if isinstance(x, (str, bytes)):
            try:
                return int(x)
            except ValueError:
                self.it.raise_(st, ValueError)
        return self.toint(st, x)

    def mkfloat(self, st, x):
        if concrete(x) and not isinstance(x, bool):
            return float(x)
        if isinstance(x, (Rat,)) or (isinstance(x, Num) and x.op in ('div',)):
            return x
        if isint(x):
            return Rat(x, 1)
        raise Unsupported('float')

    def typeof(self, st, x):
        if isint(x):
            return int
        if isbool(x):
            return bool
        if isbytes(x):
            return bytes
        if isstr(x):
            return str
        if isinstance(x, (Rat, Num)):
            if isinstance(x, Num) and x.op == 'pow':
                raise Unsupported('type of a power')
            return float
        if isinstance(x, Ref):
            r = self.it.rec(st, x)
            if isinstance(r, HList):
                return list
            if isinstance(r, (HDict, HArr)):
                return dict
            return r.cls
        if concrete(x):
            return type(x)
        raise Unsupported('type of %r' % (x,))

    def tostr(self, st, x):
        if concrete(x) and not isinstance(x, (types.FunctionType, type, types.ModuleType)):
            return str(x)
        if isbool(x):
            return Union([(x, 'True'), (Not(x), 'False')])
        if isint(x):
            return SStr([('fmt', 'd', x)])
        if isstr(x):
            return x
        if isinstance(x, App) and x.op == 'uuid':
            return App('uuidtext', [x.args[0]], 'str')
        if isinstance(x, (Rat, Num)):
            return App('floattext', [x], 'str')
        if isinstance(x, App) and x.typ == 'exc':
            return App('exctext', [self.cx.int('exc')], 'str')
        raise Unsupported('str of %r' % (x,))

    # ------------------------------------------------------------ builtins

    def builtin(self, st, fn, args, kw):
        it = self.it
        if fn is len:
            return it.over(st, args[0], lambda s, x: self.length(s, x))
        if fn in (min, max):
            return self.minmax(st, fn, args, kw)
        if fn is abs:
            return it.over(st, args[0], lambda s, x: simp(If(simp(x >= 0), x, -x)) if isint(x) else self.nope('abs'))
        if fn is round:
            nd = args[1] if len(args) > 1 else kw.get('ndigits')
            return it.over(st, args[0], lambda s, x: self.round(s, x, nd))
        if fn is isinstance:
            return it.over(st, args[0], lambda s, x: self.isinst(s, x, args[1]))
        if fn is getattr:
            return self.bgetattr(st, args)
        if fn is hasattr:
            return it.over(st, args[0], lambda s, x: self.hasattr_(s, x, args[1]))
        if fn is setattr:
            it.setattr(st, args[0], args[1], args[2])
            return None
        if fn is sum:
            return it.over(st, args[0], lambda s, x: self.bsum(s, x, args[1] if len(args) > 1 else 0))
        if fn is any:
            return simp(self.exists(st, self.entries(st, self.tolist(st, args[0])), lambda s, v: it.truth(s, v)))
        if fn is all:
            return simp(Not(self.exists(st, self.entries(st, self.tolist(st, args[0])), lambda s, v: Not(it.truth(s, v)))))
        if fn is divmod:
            return (it.binop(st, ast.FloorDiv(), args[0], args[1]), it.binop(st, ast.Mod(), args[0], args[1]))
        if fn is pow and len(args) == 2:
            return it.binop(st, ast.Pow(), args[0], args[1])
        if fn is ord:
            return it.over(st, args[0], lambda s, x: self.bord(s, x))
        if fn is print:
            if 'file' in kw and kw['file'] is sys.stderr:
                return None
            raise Unsupported('output')
        if fn is chr and concrete(args[0]):
            return chr(args[0])
        if fn in (sorted,):
            raise Unsupported('sorted')
        if fn is id:
            raise Unsupported('id')
        if all(concrete(a) for a in args) and fn in (repr, hex, bin, oct, unicodedata.category):
            return fn(*args)
        if fn is format:
            return self.fstring(st, [(args[0], args[1] if len(args) > 1 else '')])
        if fn == dict.fromkeys and 1 <= len(args) <= 2 and not kw:
            vs = st.frames[-1].vars
            vs['__keys'], vs['__same'] = args[0], args[1] if len(args) == 2 else None
            return it.ev(st, FROMKEYS)
        raise Unsupported('function %s' % getattr(fn, '__name__', fn))

    def nope(self, why):
        raise Unsupported(why)

    def bord(self, st, x):
        if concrete(x):
            try:
                return ord(x)
            except TypeError:
                self.it.raise_(st, TypeError)
        if isbytes(x):
            self.it.raise_if(st, Not(ieq(self.cx.blen(x), 1)), TypeError)
            return self.cx.bget(x, 0)
        raise Unsupported('ord')

    def bgetattr(self, st, args):
        if not isinstance(args[1], str):
            raise Unsupported('getattr with computed name')
        if len(args) == 3:
            h = self.hasattr_(st, args[0], args[1])
            if h is True:
                return self.it.getattr(st, args[0], args[1])
            if h is False:
                return args[2]
            raise Unsupported('getattr default')
        return self.it.getattr(st, args[0], args[1])

    def hasattr_(self, st, x, name):
        if isinstance(x, Ref):
            r = self.it.rec(st, x)
            if isinstance(r, HInst):
                if name in r.attrs:
                    return r.attrs[name] is not UNBOUND
                return hasattr(r.cls, name)
        if concrete(x):
            return hasattr(x, name)
        raise Unsupported('hasattr')

    def isinst(self, st, x, cls):
        if isinstance(cls, tuple):
            return Or(*[self.isinst(st, x, c) for c in cls])
        if not isinstance(cls, type):
            raise Unsupported('isinstance')
        t = self.typeof(st, x)
        return issubclass(t, cls)

    def length(self, st, x):
        if isinstance(x, SetV):
            es = self.entries(st, x.ref)
            return self.distinctcount(st, es) if es else 0
        if concrete(x):
            try:
                return len(x)
            except TypeError:
                self.it.raise_(st, TypeError)
        if isinstance(x, (Byt, Small)):
            return self.cx.blen(x)
        if isinstance(x, App) and x.typ == 'bytes':
            if x.op == 'hex':
                return simp(2 * self.cx.blen(x.args[0]))
            n = self.cx.ack('blen', [x], I, pos=True)
            if x.op == 'rstrip0':
                k = ('rs', n.get_id())
                if k not in self.memo:
                    self.memo[k] = n
                    self.cx.axiom(n <= self.cx.blen(x.args[0]), (n,))
            return n
        if isstr(x):
            return self.cx.ack('textlen', [x], I, pos=True)
        if isinstance(x, Ref):
            r = self.it.rec(st, x)
            if isinstance(r, (HElem, HList)):
                n = self.count(st, r.kids if isinstance(r, HElem) else r.items)
                if isinstance(n, z3.ExprRef) and not any(n.eq(x) for x in self.lens):
                    self.lens.append(n)
                return n
            if isinstance(r, HDict):
                return simp(sum([If(g, 1, 0) for g, _ in r.map.values()], 0)) if r.map else 0
            if isinstance(r, HArr):
                if r.has == ('empty',) and not r.val:
                    return 0
                return self.cx.ack('dictlen', [self.arrval(r)], I, pos=True)
            self.it.raise_(st, TypeError)
        if isinstance(x, Rng):
            return self.rngcount(st, x)
        if x is None or isint(x) or isbool(x):
            self.it.raise_(st, TypeError)
        raise Unsupported('len of %r' % (x,))

    def distinctcount(self, st, es):
        n = self.cx.ack('distinctcount', [tuple(self.lit(st, e) for e in es)], I, pos=True)
        k = ('dc', n.get_id())
        if k not in self.memo:
            self.memo[k] = n
            c = self.count(st, es)
            self.cx.axiom(And(n <= c, Implies(c > 0, n > 0)) if isinstance(c, z3.ExprRef) else n <= c, (n,))
        return n

    def lit(self, st, e):
        """Entry with element references replaced by what they hold, for use as an argument."""
        if isinstance(e, E) and isinstance(e.v, Ref):
            raise Unsupported('list of objects')
        if isinstance(e, ForE):
            return ForE(e.g, e.n, e.k, [self.lit(st, x) for x in e.es])
        return e

    def count(self, st, es):
        """Number of entries."""
        n = 0
        for e in es:
            if isinstance(e, E):
                n = n + If(e.g, 1, 0)
            elif isinstance(e, ForE):
                if all(isinstance(x, E) and (x.g is True) for x in e.es):
                    m = simp(e.n * len(e.es))
                else:
                    m = self.forcount(st, e)
                n = n + If(e.g, m, 0)
            elif isinstance(e, SeqE):
                n = n + If(e.g, self.cx.ack('nseq', [e.sym], I, pos=True), 0)
            elif isinstance(e, KidsE):
                n = n + If(e.g, self.cx.ack('nkids', [e.app, e.proj], I, pos=True), 0)
            elif isinstance(e, HoleE):
                raise Unsupported('length of a list the loop extends')
            else:
                raise Unsupported('length')
        n = simp(n)
        if isinstance(n, z3.ExprRef):
            self.mark(n) if self.cx._nn(n) else None
        return n

    def forcount(self, st, f):
        """Number of entries of a conditional repetition: a sum."""
        body = 0
        for x in f.es:
            if isinstance(x, E):
                body = body + If(x.g, 1, 0)
            elif isinstance(x, ForE):
                body = body + If(x.g, self.count(st, [ForE(True, x.n, x.k, x.es)]), 0)
            else:
                raise Unsupported('length of a nested repetition')
        body = simp(body)
        if isinstance(body, int) or f.k.get_id() not in self.cx.symbols(body):
            return simp(self.mul(st, f.n, body))
        return self.it.sum_(st, body, f.k, f.n, kdepth(f.k))

    def minmax(self, st, fn, args, kw):
        if kw or len(args) < 2:
            raise Unsupported('min/max')
        it = self.it

        def f(s, a, b):
            if isint(a) and isint(b):
                return simp(If(simp(a <= b), a, b) if fn is min else If(simp(a >= b), a, b))
            if a is None or b is None:
                it.raise_(s, TypeError)
            if concrete(a) and concrete(b):
                return fn(a, b)
            raise Unsupported('min/max of %r' % (a,))
        r = args[0]
        for x in args[1:]:
            r = it.over2(st, r, x, f)
        return r

    def round(self, st, x, nd):
        if concrete(x) and concrete(nd):
            return round(x, nd) if nd is not None else round(x)
        if isint(x) and isinstance(nd, int) and nd >= 0:
            return x
        if isinstance(x, (Rat, Num)):
            return Num('round', x, nd)
        if x is None:
            self.it.raise_(st, TypeError)
        raise Unsupported('round of %r' % (x,))

    def bsum(self, st, x, start):
        r = self.tolist(st, x)
        tot = start
        for e in self.entries(st, r):
            if isinstance(e, E):
                if not isint(e.v):
                    raise Unsupported('sum of %r' % (e.v,))
                tot = simp(tot + If(e.g, e.v, 0))
            elif isinstance(e, ForE) and all(isinstance(y, E) and isint(y.v) for y in e.es):
                body = simp(sum([If(y.g, y.v, 0) for y in e.es], 0))
                d = kdepth(e.k)
                if isinstance(body, int) or e.k.get_id() not in self.cx.symbols(body):
                    s = self.mul(st, e.n, body)
                else:
                    s = self.it.sum_(st, body, e.k, e.n, d)
                tot = simp(tot + If(e.g, s, 0))
            else:
                raise Unsupported('sum')
        return tot

    # ------------------------------------------------------------ lists

    def tolist(self, st, x):
        it = self.it
        if isinstance(x, Ref):
            r = it.rec(st, x)
            if isinstance(r, HList):
                return x
            if isinstance(r, HElem):
                return it.new(st, HList(r.kids))
        if isinstance(x, (tuple, list)):
            return it.newlist(st, list(x))
        if isinstance(x, SetV):
            return x.ref
        if isinstance(x, Rng):
            n = self.rngcount(st, x)
            if isinstance(n, int) and n <= 70:
                return it.newlist(st, [simp(x.lo + i * x.step) for i in range(n)])
            k = kcanon(it.fordepth)
            return it.new(st, HList([ForE(True, n, k, [E(True, simp(x.lo + k * x.step))])]))
        if isinstance(x, (set, frozenset, dict)):
            return it.newlist(st, list(x))
        raise Unsupported('list of %r' % (x,))

    def rngcount(self, st, r):
        if isinstance(r.step, int) and r.step != 0:
            if r.step == 1:
                n = simp(r.hi - r.lo)
            elif r.step > 0:
                n = simp((r.hi - r.lo + (r.step - 1)) / r.step) if not (isinstance(r.hi, int) and isinstance(r.lo, int)) else -((r.lo - r.hi) // r.step)
            else:
                s = -r.step
                n = simp((r.lo - r.hi + (s - 1)) / s) if not (isinstance(r.hi, int) and isinstance(r.lo, int)) else -((r.hi - r.lo) // s)
            if isinstance(n, int):
                return max(n, 0)
            if self.cx.nonneg(st.pc, n):
                return n
            return simp(If(simp(n > 0), n, 0))
        raise Unsupported('range step')

    def iterate(self, st, x, s):
        it = self.it
        if isinstance(x, (tuple, list)):
            return [('one', True, v) for v in x]
        if isinstance(x, bytes):
            return [('one', True, v) for v in x]
        if isinstance(x, str):
            return [('one', True, v) for v in x]
        if isinstance(x, (dict, set, frozenset)):
            return [('one', True, v) for v in x]
        if isinstance(x, Rng):
            n = self.rngcount(st, x)
            return [('for', n, lambda t, k: simp(x.lo + k * x.step))]
        if isinstance(x, (Byt, Small)):
            return [('for', self.cx.blen(x), lambda t, k: self.byteat(t, x, k))]
        if isinstance(x, SetV):
            raise Unsupported('iteration over a set')
        if isinstance(x, Tree):
            return [('iter', x.ref)]
        if isinstance(x, Ref):
            r = it.rec(st, x)
            if isinstance(r, (HElem, HList)):
                return self.segments(st, r.kids if isinstance(r, HElem) else r.items)
            if isinstance(r, HDict):
                return [('one', g, k) for k, (g, _) in r.map.items()]
        if isinstance(x, Enum):
            segs = self.iterate(st, x.v, s)
            out = []
            at = x.start
            for g in segs:
                if g[0] == 'one':
                    out.append(('one', g[1], (at, g[2])))
                    at = simp(at + If(g[1], 1, 0))
                elif g[0] in ('for', 'list') and len(g) == 3:
                    out.append((g[0], g[1], lambda t, k, g=g, at=at: (simp(at + k), g[2](t, k))))
                    at = simp(at + g[1])
                else:
                    raise Unsupported('enumerate')
            return out
        if isinstance(x, Zip):
            ls = [self.iterate(st, v, s) for v in x.vs]
            if all(g[0] == 'one' and g[1] is True for l in ls for g in l):
                return [('one', True, tuple(g[2] for g in gs)) for gs in zip(*ls)]
            if all(len(l) == 1 and l[0][0] in ('for', 'list') and len(l[0]) == 3 for l in ls):
                n = ls[0][0][1]
                for l in ls[1:]:
                    n = simp(If(simp(n <= l[0][1]), n, l[0][1]))
                return [('list' if any(l[0][0] == 'list' for l in ls) else 'for', n, lambda t, k: tuple(l[0][2](t, k) for l in ls))]
            raise Unsupported('zip')
        if isinstance(x, Rev):
            segs = self.iterate(st, x.v, s)
            if all(g[0] == 'one' for g in segs):
                return segs[::-1]
            if len(segs) == 1 and segs[0][0] in ('for', 'list') and len(segs[0]) == 3:
                n, f = segs[0][1], segs[0][2]
                return [(segs[0][0], n, lambda t, k: f(t, simp(n - 1 - k)))]
            raise Unsupported('reversed')
        if x is None or isint(x) or isbool(x) or isinstance(x, (Rat, Num)):
            it.raise_(st, TypeError)
        raise Unsupported('iteration over %r' % (x,))

    def segments(self, st, es):
        out = []
        for e in es:
            if isinstance(e, E):
                out.append(('one', e.g, e.v))
            elif isinstance(e, ForE) and len(e.es) == 1 and isinstance(e.es[0], E):
                x = e.es[0]
                n = e.n if e.g is True else simp(If(e.g, e.n, 0))
                seg = ('list', n, lambda t, k, e=e, x=x: self.it.subst_deep(t, x.v, e.k, k, {}))
                if x.g is not True:
                    seg += (lambda t, k, e=e, x=x: self.cx.subst(x.g, e.k, k),)
                out.append(seg)
            elif isinstance(e, (SeqE, ForE)) and e.g is True and self.itemtype(st, e) is not None:
                out.append(('list', self.count(st, [e]), lambda t, k, e=e: self.item(t, (e,), k)))
            else:
                raise Unsupported('iteration over the result of a loop')
        return out

    def byteat(self, st, b, k):
        if isinstance(k, int):
            return self.cx.bget(b, k)
        if isinstance(b, Byt):
            return self.cx.bget(b, k)
        raise Unsupported('index into short bytes')

    def exists(self, st, es, pred):
        out = []
        for e in es:
            if isinstance(e, E):
                out.append(And(e.g, pred(st, e.v)))
            elif isinstance(e, ForE):
                k = e.k
                d = kdepth(k)
                t = st.clone()
                t.pc = t.pc + (Cond(And(k >= 0, k < e.n), False),)
                it = self.it
                old = it.fordepth
                it.fordepth = max(it.fordepth, d + 1)
                try:
                    p = simp(self.exists(t, e.es, pred))
                finally:
                    it.fordepth = old
                if p is False:
                    continue
                m = self.it.first(st, p, e.n, k, d)
                out.append(And(e.g, simp(m < e.n)))
            else:
                raise Unsupported('search in the result of a loop')
        return Or(*out)

    def contains(self, st, c, x):
        it = self.it
        if isinstance(c, (tuple, list, set, frozenset)):
            if concrete(x) and all(concrete(y) for y in c):
                return x in c
            return Or(*[self.eq(st, x, y) for y in c])
        if isinstance(c, dict):
            if concrete(x):
                try:
                    return x in c
                except TypeError:
                    it.raise_(st, TypeError)
            return Or(*[self.eq(st, x, y) for y in c])
        if isinstance(c, Ref):
            r = it.rec(st, c)
            if isinstance(r, HList):
                return self.listhas(st, r.items, x)
            if isinstance(r, HDict):
                if concrete(x):
                    return r.map[x][0] if x in r.map else False
                return Or(*[And(g, self.eq(st, x, k)) for k, (g, _) in r.map.items()])
            if isinstance(r, HArr):
                return self.arrget(st, r, x)[0]
            it.raise_(st, TypeError)
        if isinstance(c, SetV):
            return self.listhas(st, self.entries(st, c.ref), x)
        if isinstance(c, Rng):
            if isint(x) and c.step == 1:
                return And(simp(x >= c.lo), simp(x < c.hi))
            raise Unsupported('in range')
        if isinstance(c, (str, bytes)) and concrete(x):
            try:
                return x in c
            except TypeError:
                it.raise_(st, TypeError)
        if isbytes(c) and isinstance(x, (bytes, Byt, Small, App)):
            return self.cx.ack('bytes_in', [x, c], B)
        if isstr(c) and isstr(x):
            return self.cx.ack('text_in', [x, c], B)
        if c is None or isint(c):
            it.raise_(st, TypeError)
        raise Unsupported('in %r' % (c,))

    def listhas(self, st, es, x):
        out = []
        for e in es:
            if isinstance(e, (E, ForE)):
                out.append(self.exists(st, [e], lambda s, v: self.eqany(s, v, x)))
            elif isinstance(e, SeqE):
                out.append(And(e.g, self.cx.ack('has', [e.sym, x], B)))
            else:
                raise Unsupported('in')
        return Or(*out)

    def eqany(self, st, a, b):
        return self.it.over2(st, a, b, lambda s, x, y: self.eq(s, x, y))

    def item(self, st, es, i):
        """Entry number i (0 <= i < length)."""
        if not es:
            raise Unsupported('item of an empty list')
        e = es[0]
        rest = es[1:]
        it = self.it
        if isinstance(e, E):
            if e.g is True:
                if isinstance(i, int):
                    if i == 0:
                        return e.v
                    return self.item(st, rest, i - 1)
                if not rest:
                    return e.v
                return it.branch(st, ieq(i, 0), lambda s: e.v, lambda s: self.item(s, rest, simp(i - 1)))
            return it.branch(st, e.g, lambda s: self.item(s, (E(True, e.v),) + tuple(rest), i),
                             lambda s: self.item(s, rest, i))
        if isinstance(e, ForE) and len(e.es) == 1 and isinstance(e.es[0], E) and e.es[0].g is True:
            n = simp(If(e.g, e.n, 0))

            def inside(s):
                return it.subst_deep(s, e.es[0].v, e.k, i, {})
            if not rest:
                return inside(st)
            return it.branch(st, simp(i < n), inside, lambda s: self.item(s, rest, simp(i - n)))
        if isinstance(e, (SeqE, ForE)) and not rest:
            # opaque
            typ = self.itemtype(st, e)
            if typ == 'int':
                return self.cx.ack('itemint', [self.lit(st, e), i], I)
            if typ == 'bytes':
                return App('item', [self.lit(st, e), i], 'bytes')
        raise Unsupported('item of a list')

    def itemtype(self, st, e):
        if isinstance(e, ForE):
            vs = [x.v for x in e.es if isinstance(x, E)]
            if len(vs) == len(e.es) and all(isint(v) for v in vs):
                return 'int'
            return None
        rec = e.loop
        if rec is None or rec.side.end is None:
            return None
        for oid, sym in rec.conts.items():
            if sym.eq(e.sym):
                es = rec.side.emis[oid]
                if es and all(isinstance(x, E) and isbytes(x.v) for x in es):
                    return 'bytes'
                if es and all(isinstance(x, E) and isint(x.v) for x in es):
                    return 'int'
        return None

    def index(self, st, es, x):
        """(found, position of the first entry equal to x)"""
        if not es:
            return False, 0
        e, rest = es[0], es[1:]
        if isinstance(e, E):
            h = simp(And(e.g, self.eqany(st, e.v, x)))
            f, p = self.index(st, rest, x)
            return Or(h, f), simp(If(h, 0, p + If(e.g, 1, 0)))
        if isinstance(e, ForE) and len(e.es) == 1 and isinstance(e.es[0], E) and e.es[0].g is True and e.g is True:
            k, d = e.k, kdepth(e.k)
            t = st.clone()
            t.pc = t.pc + (Cond(And(k >= 0, k < e.n), False),)
            p = simp(self.eqany(t, e.es[0].v, x))
            if p is False:
                m = e.n
            else:
                m = self.it.first(st, p, e.n, k, d)
            f, q = self.index(st, rest, x)
            h = simp(m < e.n)
            return Or(h, f), simp(If(h, m, q + e.n))
        if isinstance(e, SeqE) and e.g is True:
            h = self.cx.ack('has', [e.sym, x], B)
            p = self.cx.ack('pos', [e.sym, x], I, pos=True)
            f, q = self.index(st, rest, x)
            return Or(h, f), simp(If(h, p, q + self.cx.ack('nseq', [e.sym], I, pos=True)))
        raise Unsupported('index')

    def mkset(self, st, vals):
        return SetV(self.it.newlist(st, vals))

    def setof(self, st, x):
        if isinstance(x, SetV):
            return x
        return SetV(self.it.new(st, HList(self.entries(st, self.tolist(st, x)))))

    # ------------------------------------------------------------ comprehensions

    def genexp(self, st, n):
        return self.comprehension(st, n)

    def comprehension(self, st, n):
        it = self.it
        table = isinstance(n, ast.DictComp)
        if len(n.generators) == 1:
            g = n.generators[0]
            v = it.ev(st, g.iter)
            if table:
                pass
            elif isstr(v) and not isinstance(v, str):
                return GenStr(n, v, len(st.frames) - 1, st.frames[-1].glob)
        cached = getattr(n, '_for', None)
        if cached is None:
            if table:
                body = [ast.Assign([ast.Subscript(ast.Name('__acc', ast.Load()), n.key, ast.Store())], n.value)]
            else:
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name('__acc', ast.Load()), 'append', ast.Load()), [n.elt], []))]
            for g in reversed(n.generators):
                if g.is_async:
                    raise Unsupported('async')
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                itn = ast.Name('__it', ast.Load()) if g is n.generators[0] else g.iter
                body = [ast.For(g.target, itn, body, [])]
            cached = body[0]
            ast.copy_location(cached, n)
            ast.fix_missing_locations(cached)
            n._for = cached
        if len(n.generators) != 1:
            v = it.ev(st, n.generators[0].iter)
        acc = it.new(st, HDict({})) if table else it.newlist(st, [])
        names = set()
        for g in n.generators:
            names |= assigned([ast.Expr(g.target)]) | {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        f = Frame({x: UNBOUND for x in names}, st.frames[-1].glob, None, n, len(st.frames) - 1)
        f.vars['__acc'] = acc
        f.vars['__it'] = v
        f.ret = st.frames[-1].ret
        st.frames.append(f)
        try:
            it.stmt(st, cached)
        finally:
            pass
        st.frames.pop()
        return acc

    def filterid(self, st, g):
        """Identity of the predicate of a filter over characters, by its value on all characters."""
        n = g.node
        gen = n.generators[0]
        if not (isinstance(n.elt, ast.Name) and isinstance(gen.target, ast.Name) and n.elt.id == gen.target.id):
            raise Unsupported('text built from characters')
        env = {}
        names = {x.id for c in gen.ifs for x in ast.walk(c) if isinstance(x, ast.Name)} - {gen.target.id}
        for x in names:
            f = st.frames[g.env]
            if x in f.vars:
                v = f.vars[x]
                if isinstance(v, Ref):
                    r = self.it.rec(st, v)
                    if not (isinstance(r, HList) and all(isinstance(e, E) and e.g is True and concrete(e.v) for e in r.items)):
                        raise Unsupported('filter condition')
                    v = [e.v for e in r.items]
                elif not concrete(v):
                    raise Unsupported('filter condition')
                env[x] = v
            elif x in g.glob:
                env[x] = g.glob[x]
        mk = (tuple(ast.dump(c) for c in gen.ifs), gen.target.id, tuple(sorted((k, repr(v)) for k, v in env.items())))
        if mk in self.fmemo:
            return self.fmemo[mk]
        body = ' and '.join('(%s)' % ast.unparse(c) for c in gen.ifs) or 'True'
        fn = eval('lambda %s: bool(%s)' % (gen.target.id, body), dict(env))
        try:
            tab = bytes(bytearray(fn(chr(i)) for i in range(0x110000)))
        except Exception as e:
            raise Unsupported('filter condition raises %r' % e)
        for i, t in enumerate(self.filters):
            if t == tab:
                self.fmemo[mk] = i
                return i
        self.filters.append(tab)
        self.fmemo[mk] = len(self.filters) - 1
        return len(self.filters) - 1

    # ------------------------------------------------------------ methods

    def method(self, st, o, name, args, kw):
        it = self.it
        if isinstance(o, Union):
            return it.over(st, o, lambda s, x: self.method(s, x, name, args, kw))
        if o is sys.stderr and name in ('write', 'flush'):
            return None
        if isinstance(o, Ref):
            r = it.rec(st, o)
            if isinstance(r, HList):
                return self.m_list(st, o, r, name, args, kw)
            if isinstance(r, HElem):
                return self.m_elem(st, o, r, name, args, kw)
            if isinstance(r, (HDict, HArr)):
                return self.m_dict(st, o, r, name, args, kw)
            if isinstance(r, HInst) and '_part' in r.attrs and name == 'validate':
                if args or kw:
                    it.raise_(st, TypeError)
                return self.do_validate(st, o)
            raise Unsupported('method %s' % name)
        if isbytes(o):
            return self.m_bytes(st, o, name, args, kw)
        if isstr(o):
            return self.m_str(st, o, name, args, kw)
        if isint(o) and not isinstance(o, int):
            raise Unsupported('method %s of an integer' % name)
        if isinstance(o, (list, dict, set)):
            if name in ('index', 'count', 'get', 'keys', 'values', 'items', 'copy'):
                return self.m_raw(st, o, name, args, kw)
            it.frame_writes.append(('%s of a module-level %s' % (name, type(o).__name__), st.pc, bool(o)))
            raise Unsupported('change of a global object')
        if concrete(o) and all(concrete(a) for a in args) and not kw and isinstance(o, (str, bytes, int, float, tuple)):
            try:
                return getattr(o, name)(*args)
            except Exception as e:
                it.raise_(st, type(e))
        raise Unsupported('method %s of %r' % (name, o))

    def m_raw(self, st, o, name, args, kw):
        it = self.it
        if name == 'keys':
            return tuple(o.keys())
        if name == 'values':
            return tuple(o.values())
        if name == 'items':
            return tuple(o.items())
        if name == 'get':
            d = args[1] if len(args) > 1 else None
            c = self.contains(st, o, args[0])
            return it.branch(st, c, lambda s: it.getitem(s, o, args[0]), lambda s: d)
        if name == 'count':
            return simp(sum([If(self.eq(st, x, args[0]), 1, 0) for x in o], 0))
        return self.m_list(st, it.newlist(st, list(o)), None, name, args, kw)

    def m_list(self, st, o, r, name, args, kw):
        it = self.it
        r = it.rec(st, o)
        if name == 'append':
            st.heap[o.oid] = r.but(r.items + (E(True, args[0]),))
            return None
        if name == 'extend':
            src = self.tolist(st, args[0])
            st.heap[o.oid] = r.but(r.items + tuple(self.entries(st, src)))
            return None
        if name == 'index':
            f, p = self.index(st, r.items, args[0])
            it.raise_if(st, Not(f), ValueError)
            return p
        if name == 'count':
            return self.countof(st, r.items, args[0])
        if name == 'copy':
            return it.new(st, r)
        raise Unsupported('list method %s' % name)

    def countof(self, st, es, x):
        n = 0
        for e in es:
            if isinstance(e, E):
                n = n + If(simp(And(e.g, self.eqany(st, e.v, x))), 1, 0)
            elif isinstance(e, SeqE):
                c = self.cx.ack('count', [e.sym, x], I, pos=True)
                k = ('cnt', c.get_id())
                if k not in self.memo:
                    self.memo[k] = c
                    h = self.cx.ack('has', [e.sym, x], B)
                    self.cx.axiom(Iff(h, c > 0), (h, c))
                n = n + If(e.g, c, 0)
            elif isinstance(e, ForE) and all(isinstance(y, E) for y in e.es):
                t = st.clone()
                t.pc = t.pc + (Cond(And(e.k >= 0, e.k < e.n), False),)
                body = simp(sum([If(simp(And(y.g, self.eqany(t, y.v, x))), 1, 0) for y in e.es], 0))
                if isinstance(body, int) or e.k.get_id() not in self.cx.symbols(body):
                    m = self.mul(st, e.n, body)
                else:
                    m = it.sum_(st, body, e.k, e.n, kdepth(e.k)) if False else self.it.sum_(st, body, e.k, e.n, kdepth(e.k))
                n = n + If(e.g, m, 0)
            else:
                raise Unsupported('count')
        return simp(n)

    def append_kid(self, st, parent, kid):
        it = self.it
        if isinstance(parent, Union):
            return it.over(st, parent, lambda s, x: self.append_kid(s, x, kid))
        if not isinstance(parent, Ref):
            it.raise_(st, TypeError if parent is not None else TypeError)
        r = it.rec(st, parent)
        if not isinstance(r, HElem):
            it.raise_(st, TypeError)
        if isinstance(kid, Union):
            for _, x in kid.alts:
                if not isinstance(x, Ref):
                    raise Unsupported('append of %r' % (x,))
        elif not isinstance(kid, Ref):
            it.raise_(st, TypeError)
        st.heap[parent.oid] = r.but(kids=r.kids + (E(True, kid),))

    def m_elem(self, st, o, r, name, args, kw):
        it = self.it
        if name == 'append':
            self.append_kid(st, o, args[0])
            return None
        if name == 'extend':
            src = self.tolist(st, args[0])
            st.heap[o.oid] = r.but(kids=r.kids + tuple(self.entries(st, src)))
            return None
        if name == 'find':
            return self.p_find(st, o, args[0])
        if name == 'findall':
            return self.p_find_all(st, o, args[0])
        if name == 'iter' and not args:
            return Tree(o)
        raise Unsupported('element method %s' % name)

    def m_dict(self, st, o, r, name, args, kw):
        it = self.it
        if name == 'get':
            d = args[1] if len(args) > 1 else None
            c = it.over(st, args[0], lambda s, x: self.contains(s, o, x))
            return it.branch(st, c, lambda s: it.getitem(s, o, args[0]), lambda s: d)
        if name == 'setdefault':
            d = args[1] if len(args) > 1 else None
            c = self.contains(st, o, args[0])
            it.branch(st, c, lambda s: None, lambda s: self.setitem(s, o, args[0], d))
            return it.getitem(st, o, args[0])
        if isinstance(r, HDict) and name in ('keys', 'values', 'items') and all(g is True for g, _ in r.map.values()):
            if name == 'keys':
                return tuple(r.map)
            if name == 'values':
                return tuple(v for _, v in r.map.values())
            return tuple((k, v) for k, (_, v) in r.map.items())
        raise Unsupported('dict method %s' % name)

    def m_bytes(self, st, o, name, args, kw):
        it = self.it
        cx = self.cx
        if concrete(o) and all(concrete(a) for a in args) and all(concrete(a) for a in kw.values()):
            try:
                return getattr(o, name)(*args, **kw)
            except Exception as e:
                it.raise_(st, type(e))
        if name == 'ljust' and len(args) == 2 and isinstance(args[0], int) and isinstance(args[1], bytes) and len(args[1]) == 1:
            w = args[0]
            n = self.maxlen(o)
            ln = cx.blen(o)
            if n is None and w <= 8 and cx.proved(st.pc, ln <= w):
                n = w
            if n is None or n > 8 or w > 8:
                raise Unsupported('ljust')
            el = []
            for i in range(max(n, w)):
                el.append(If(simp(ln > i), cx.bget(o, i), args[1][0]) if i < n else args[1][0])
            return Small([simp(x) for x in el], simp(If(simp(ln >= w), ln, w)) if n > w else w)
        if name == 'rstrip' and args == [b'\x00']:
            return App('rstrip0', [o], 'bytes')
        if name in ('endswith', 'startswith') and len(args) == 1:
            pats = args[0] if isinstance(args[0], tuple) else (args[0],)
            out = []
            for p in pats:
                if not isinstance(p, bytes):
                    raise Unsupported(name)
                n = len(p)
                if isinstance(o, App):
                    raise Unsupported(name)
                ln = cx.blen(o)
                c = [simp(ln >= n)]
                for i in range(n):
                    at = i if name == 'startswith' else simp(ln - n + i)
                    if isinstance(o, Small) and not isinstance(at, int):
                        raise Unsupported(name)
                    c.append(ieq(cx.bget(o, at), p[i]))
                out.append(And(*c))
            return simp(Or(*out))
        if name == 'decode':
            enc = args[0] if args else kw.get('encoding', 'utf-8')
            err = args[1] if len(args) > 1 else kw.get('errors', 'strict')
            if not isinstance(enc, str) or err != 'strict':
                raise Unsupported('decode')
            e = enc.lower().replace('_', '-')
            if e in ('utf-8', 'utf8'):
                if isinstance(o, App) and o.op == 'hex':
                    return App('hextext', [o.args[0]], 'str')
                it.raise_if(st, Not(self.p_is_utf8(st, o)), UnicodeDecodeError)
                return App('utf8', [o], 'str')
            if e in ('iso-8859-15', 'iso8859-15', 'latin-9', 'latin9', 'l9'):
                return App('latin15', [o], 'str')
            if e in ('iso-8859-1', 'latin-1', 'latin1', 'l1'):
                return App('latin1', [o], 'str')
            if e == 'ascii':
                it.raise_if(st, Not(cx.ack('is_ascii', [o], B)), UnicodeDecodeError)
                return App('utf8', [o], 'str')
            raise Unsupported('encoding %s' % enc)
        if name == 'hex' and not args:
            return App('hextext', [o], 'str')
        if name == 'count' and len(args) == 1:
            return cx.ack('bytescount', [o, args[0]], I, pos=True)
        if name == 'find' and len(args) == 1:
            return cx.ack('bytesfind', [o, args[0]], I)
        if not hasattr(bytes, name):
            it.raise_(st, AttributeError)
        raise Unsupported('bytes method %s' % name)

    def m_str(self, st, o, name, args, kw):
        it = self.it
        if name == 'join':
            if o != '':
                raise Unsupported('join')
            g = args[0]
            if isinstance(g, GenStr):
                return App('filter', [self.filterid(st, g), g.value], 'str')
            if isinstance(g, Ref):
                es = self.entries(st, g)
                if all(isinstance(e, E) and e.g is True and isstr(e.v) for e in es):
                    return SStr([p for e in es for p in parts(e.v)])
            raise Unsupported('join')
        if name == 'format':
            return self.strformat(st, o, args, kw)
        if concrete(o) and all(concrete(a) for a in args) and not kw:
            try:
                return getattr(o, name)(*args)
            except Exception as e:
                it.raise_(st, type(e))
        if not hasattr(str, name):
            it.raise_(st, AttributeError)
        if name == 'rstrip' and len(args) == 1 and isinstance(args[0], str):
            return App('rstrip', [o, args[0]], 'str')
        raise Unsupported('text method %s' % name)

    # ------------------------------------------------------------ formatting

    def fmtval(self, st, v, spec):
        """Pieces of format(v, spec)."""
        if isinstance(v, Union):
            raise Unsupported('format of alternatives')
        if isinstance(spec, SStr):
            ps = spec.parts
            if len(ps) == 3 and ps[0] == '0' and isinstance(ps[1], tuple) and ps[1][:2] == ('fmt', 'd') and ps[2] == 'X' and isint(v):
                return [('hexpad', ps[1][2], v)]
            raise Unsupported('computed format')
        if concrete(v):
            return [format(v, spec)]
        if spec in ('', 's'):
            return list(parts(self.tostr(st, v)))
        if isint(v):
            if spec == 'd':
                return [('fmt', 'd', v)]
            if spec.endswith('X') and spec[:1] == '0' and spec[1:-1].isdigit():
                return [('hexpad', int(spec[1:-1]), v)]
            return [('fmt', spec, v)]
        raise Unsupported('format %s' % spec)

    def fstring(self, st, ps):
        out = []
        for p in ps:
            if isinstance(p, str):
                out.append(p)
            else:
                v, spec = p
                if isinstance(v, Union):
                    return self.over_parts(st, ps)
                out.extend(self.fmtval(st, v, spec))
        r = SStr(out)
        return self.plain(r)

    def over_parts(self, st, ps):
        for i, p in enumerate(ps):
            if not isinstance(p, str) and isinstance(p[0], Union):
                return self.it.over(st, p[0], lambda s, x: self.fstring(s, ps[:i] + [(x, p[1])] + ps[i + 1:]))
        return self.fstring(st, ps)

    def plain(self, r):
        if isinstance(r, SStr):
            if not r.parts:
                return ''
            if len(r.parts) == 1 and isinstance(r.parts[0], (str, App)):
                return r.parts[0]
        return r

    def strformat(self, st, o, args, kw):
        if kw:
            raise Unsupported('format with names')
        if isinstance(o, SStr):
            ps = o.parts
            if len(ps) == 3 and ps[0] == '{:0' and isinstance(ps[1], tuple) and ps[1][:2] == ('fmt', 'd') \
                    and isinstance(ps[2], str) and ps[2].startswith('X}') and '{' not in ps[2] and '}' not in ps[2][2:]:
                if isint(args[0]):
                    return SStr([('hexpad', ps[1][2], args[0]), ps[2][2:]])
            raise Unsupported('computed format')
        if not isinstance(o, str):
            raise Unsupported('format')
        import string as _s
        out, auto = [], 0
        for lit, field, spec, conv in _s.Formatter().parse(o):
            out.append(lit)
            if field is None:
                continue
            if conv not in (None, 's'):
                raise Unsupported('conversion')
            if field == '':
                i = auto
                auto += 1
            elif field.isdigit():
                i = int(field)
            else:
                raise Unsupported('format field')
            if i >= len(args):
                self.it.raise_(st, IndexError)
            if '{' in spec:
                # nested widths such as {:0{}X}
                if spec == '0{}X':
                    w = args[auto]
                    auto += 1
                    out.append((args[i], SStr(['0', ('fmt', 'd', w), 'X'])))
                    continue
                raise Unsupported('nested format')
            out.append((args[i], spec))
        return self.fstring(st, [x for x in out if x != ''])

    def percent(self, st, o, v):
        if not isinstance(o, str):
            raise Unsupported('format operator')
        vals = list(v) if isinstance(v, tuple) else [v]
        out, i = [], 0
        import re
        pos = 0
        for m in re.finditer(r'%(%|(0?)(\*|\d*)([dsXxi]))', o):
            out.append(o[pos:m.start()])
            pos = m.end()
            if m.group(1) == '%':
                out.append('%')
                continue
            w = m.group(3)
            if w == '*':
                w = vals[i]
                i += 1
            if i >= len(vals):
                self.it.raise_(st, TypeError)
            x = vals[i]
            i += 1
            c = m.group(4)
            if c == 's':
                if w != '':
                    raise Unsupported('%s width')
                out.append((x, ''))
            elif c in 'di':
                if not isint(x):
                    if concrete(x):
                        out.append(('%' + m.group(2) + str(w) + 'd') % x)
                        continue
                    raise Unsupported('%%d of %r' % (x,))
                out.append((x, (m.group(2) + w + 'd')))
            elif c == 'X' and m.group(2) == '0':
                if isinstance(w, str):
                    w = int(w) if w else 1
                out.append((x, SStr(['0', ('fmt', 'd', w), 'X'])) if not isinstance(w, int) else (x, '0%dX' % w))
            else:
                raise Unsupported('format %s' % m.group(0))
        if '%' in o[pos:]:
            raise Unsupported('format %s' % o)
        out.append(o[pos:])
        if i != len(vals):
            self.it.raise_(st, TypeError)
        return self.fstring(st, [x for x in out if x != ''])

    # ------------------------------------------------------------ attributes

    def getattr(self, st, o, name):
        it = self.it
        if isinstance(o, Ref):
            r = it.rec(st, o)
            if isinstance(r, HInst):
                if name in r.attrs:
                    v = r.attrs[name]
                    if v is UNBOUND:
                        it.raise_(st, AttributeError)
                    if isinstance(v, Union) and any(x is UNBOUND for _, x in v.alts):
                        it.raise_if(st, Or(*[g for g, x in v.alts if x is UNBOUND]), AttributeError)
                        rest = [(g, x) for g, x in v.alts if x is not UNBOUND]
                        return rest[0][1] if len(rest) == 1 else Union(rest)
                    if isinstance(v, Poison):
                        raise Unsupported(v.why)
                    return v
                if '_part' in r.attrs:
                    return self.part_attr(st, o, r, name)
                if '_sub' in r.attrs:
                    return self.sub_attr(st, r, name)
                return self.clsattr(st, o, r.cls, name)
            if isinstance(r, HElem):
                if name == 'text':
                    if isinstance(r.text, Poison):
                        raise Unsupported('text')
                    return r.text
                if name == 'tag':
                    return r.tag
                if name == 'attrib':
                    raise Unsupported('attributes')
                f = None
                for c in r.cls.__mro__ if isinstance(r.cls, type) else ():
                    if name in c.__dict__:
                        f = c.__dict__[name]
                        break
                if isinstance(f, types.FunctionType):
                    return Bound(f, o)
                if f is None and name not in ('find', 'findall', 'append', 'iter', 'extend'):
                    it.raise_(st, AttributeError)
                return Native(name, o)
            if isinstance(r, HList):
                if not hasattr(list, name):
                    it.raise_(st, AttributeError)
                return Native(name, o)
            if isinstance(r, (HDict, HArr)):
                if not hasattr(dict, name):
                    it.raise_(st, AttributeError)
                return Native(name, o)
        if o is None:
            if not hasattr(None, name):
                it.raise_(st, AttributeError)
        if isinstance(o, types.ModuleType):
            try:
                return self.raw(getattr(o, name))
            except AttributeError:
                it.raise_(st, AttributeError)
        if isinstance(o, type):
            v = inspect.getattr_static(o, name, UNBOUND)
            if v is UNBOUND:
                it.raise_(st, AttributeError)
            if isinstance(v, (staticmethod, classmethod)):
                return v.__func__ if isinstance(v, staticmethod) else Bound(v.__func__, o)
            if o in (int, bytes, str, dict):
                return getattr(o, name)
            return v
        if isbytes(o) or isstr(o):
            if not hasattr(bytes if isbytes(o) else str, name):
                it.raise_(st, AttributeError)
            return Native(name, o)
        if isint(o) or isbool(o):
            if not hasattr(int, name):
                it.raise_(st, AttributeError)
            return Native(name, o)
        if isinstance(o, SetV):
            return Native(name, o)
        if isinstance(o, (list, dict, tuple, set, float)) or o is sys.stderr or o is sys.stdout:
            return Native(name, o)
        if isinstance(o, (Rat, Num)):
            if not hasattr(float, name):
                it.raise_(st, AttributeError)
        raise Unsupported('attribute %s of %r' % (name, o))

    def clsattr(self, st, o, cls, name):
        v = inspect.getattr_static(cls, name, UNBOUND)
        if v is UNBOUND:
            self.it.raise_(st, AttributeError)
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, classmethod):
            return Bound(v.__func__, cls)
        if isinstance(v, types.FunctionType):
            return Bound(v, o)
        if isinstance(v, property):
            return self.it.call(st, v.fget, [o], {})
        return self.raw(v)

    def setattr(self, st, o, name, v):
        it = self.it
        if isinstance(o, Ref):
            r = it.rec(st, o)
            if isinstance(r, HInst):
                if '_part' in r.attrs or '_sub' in r.attrs:
                    raise Unsupported('change of a part')
                a = dict(r.attrs)
                a[name] = v
                st.heap[o.oid] = HInst(r.cls, a)
                return
            if isinstance(r, HElem):
                if name == 'text':
                    st.heap[o.oid] = r.but(text=v)
                    if v is None:
                        st.heap[o.oid] = HElem(r.cls, r.tag, None, r.attrib, r.kids)
                    return
                if name == 'tag':
                    st.heap[o.oid] = r.but(tag=v)
                    return
        if isinstance(o, (type, types.ModuleType)):
            it.frame_writes.append(('attribute %s of %s' % (name, o.__name__), st.pc, name in vars(o)))
            raise Unsupported('change of a global object')
        if o is None or isint(o) or isbytes(o) or isstr(o):
            it.raise_(st, AttributeError)
        raise Unsupported('attribute assignment')

    # ------------------------------------------------------------ items

    def getitem(self, st, o, k):
        it = self.it
        if isinstance(o, tuple) or isinstance(o, list):
            if isint(k):
                if isinstance(k, int):
                    try:
                        return o[k]
                    except IndexError:
                        it.raise_(st, IndexError)
                n = len(o)
                it.raise_if(st, Not(And(simp(k >= -n), simp(k < n))), IndexError)
                return self.mkunion([(Or(ieq(k, i), ieq(k, i - n)), o[i]) for i in range(n)])
            it.raise_(st, TypeError)
        if isinstance(o, dict):
            if concrete(k):
                try:
                    return self.raw(o[k])
                except KeyError:
                    it.raise_(st, KeyError)
                except TypeError:
                    it.raise_(st, TypeError)
            alts = [(simp(self.eq(st, k, x)), v) for x, v in o.items()]
            it.raise_if(st, Not(Or(*[g for g, _ in alts])), KeyError)
            return self.mkunion(alts)
        if isinstance(o, (Byt, Small, bytes)):
            if not isint(k):
                it.raise_(st, TypeError)
            if isinstance(o, bytes) and isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    it.raise_(st, IndexError)
            ln = self.cx.blen(o)
            if isinstance(k, int):
                it.raise_if(st, simp(ln <= k) if k >= 0 else simp(ln < -k), IndexError)
                at = k if k >= 0 else simp(ln + k)
            else:
                it.raise_if(st, Not(And(simp(k < ln), simp(k >= -ln))), IndexError)
                at = k if self.cx.nonneg(st.pc, k) else simp(If(simp(k >= 0), k, k + ln))
            if not isinstance(o, Byt) and not isinstance(at, int):
                raise Unsupported('index into short bytes')
            return self.cx.bget(o, at)
        if isstr(o):
            if concrete(o) and concrete(k):
                try:
                    return o[k]
                except IndexError:
                    it.raise_(st, IndexError)
            raise Unsupported('character of a text')
        if isinstance(o, Ref):
            r = it.rec(st, o)
            if isinstance(r, (HList, HElem)):
                es = r.items if isinstance(r, HList) else r.kids
                if not isint(k):
                    it.raise_(st, TypeError)
                n = self.count(st, es)
                if isinstance(k, int) and k >= 0:
                    it.raise_if(st, simp(n <= k), IndexError)
                    at = k
                elif isinstance(k, int):
                    it.raise_if(st, simp(n < -k), IndexError)
                    at = simp(n + k)
                else:
                    it.raise_if(st, Not(And(simp(k < n), simp(k >= -n))), IndexError)
                    at = k if self.cx.nonneg(st.pc, k) else simp(If(simp(k >= 0), k, k + n))
                return self.item(st, es, at)
            if isinstance(r, HDict):
                if concrete(k):
                    if k not in r.map:
                        it.raise_(st, KeyError)
                    g, v = r.map[k]
                    it.raise_if(st, Not(g), KeyError)
                    return v
                alts = [(simp(And(g, self.eq(st, k, x))), v) for x, (g, v) in r.map.items()]
                it.raise_if(st, Not(Or(*[g for g, _ in alts])), KeyError)
                return self.mkunion(alts)
            if isinstance(r, HArr):
                h, v = self.arrget(st, r, k)
                it.raise_if(st, Not(h), KeyError)
                return v
        if o is None or isint(o) or isbool(o):
            it.raise_(st, TypeError)
        if isinstance(o, App) and o.typ == 'bytes':
            raise Unsupported('byte of %r' % (o,))
        raise Unsupported('item of %r' % (o,))

    def arrval(self, r):
        return (r.has if isinstance(r.has, tuple) else ('x',),) + tuple(r.val)

    def arrget(self, st, r, k):
        if not isint(k):
            if k is None:
                return False, 0
            raise Unsupported('dictionary key %r' % (k,))
        b = r.has
        if b[0] == 'empty':
            h, v = False, 0
        elif b[0] == 'range':
            h, v = And(simp(k >= 0), simp(k < b[1])), b[2]
        elif b[0] == 'sym':
            start = b[2] if len(b) > 2 else None
            h = self.cx.ack('dhas', [b[1], k], B)
            v = self.cx.ack('dval', [b[1], k], I)
        else:
            raise Unsupported('dictionary read in a loop')
        for g, kk, vv in r.val:
            c = simp(And(g, ieq(kk, k)))
            h = Or(c, h)
            v = simp(If(c, vv, v))
        return simp(h), v

    def setitem(self, st, o, k, v):
        it = self.it
        if isinstance(o, Ref):
            r = it.rec(st, o)
            if isinstance(r, HDict):
                if concrete(k) and not (isint(k) and not r.map):
                    m = dict(r.map)
                    m[k] = (True, v)
                    st.heap[o.oid] = HDict(m)
                    return
                if isint(k) and not r.map:
                    r = HArr(('empty',), ())
                else:
                    raise Unsupported('dictionary with computed keys')
            if isinstance(r, HArr):
                if not isint(k) or not isint(v):
                    raise Unsupported('dictionary with computed keys')
                st.heap[o.oid] = HArr(r.has, r.val + ((True, k, v),))
                return
            if isinstance(r, HList) and isinstance(k, int) and all(isinstance(e, E) and e.g is True for e in r.items):
                if not -len(r.items) <= k < len(r.items):
                    it.raise_(st, IndexError)
                l = list(r.items)
                l[k] = E(True, v)
                st.heap[o.oid] = HList(l)
                return
            raise Unsupported('item assignment')
        if isinstance(o, (list, dict)):
            it.frame_writes.append(('item of a module-level %s' % type(o).__name__, st.pc, bool(o)))
            raise Unsupported('change of a global object')
        it.raise_(st, TypeError)

    def slice(self, st, o, lo, hi):
        it = self.it
        cx = self.cx
        for x in (lo, hi):
            if x is not None and not isint(x):
                if isinstance(x, (Rat, Num, float)) or isstr(x) or isbytes(x):
                    it.raise_(st, TypeError)
                raise Unsupported('slice bound %r' % (x,))
        if concrete(o) and concrete(lo) and concrete(hi):
            try:
                return o[lo:hi]
            except TypeError:
                it.raise_(st, TypeError)
        if isinstance(o, (Byt, Small)) or isinstance(o, bytes):
            if isinstance(o, (Small, bytes)):
                return self.smallslice(st, o, lo, hi)
            n = o.n
            full = isinstance(o.off, int) and o.off == 0 and isinstance(n, z3.ExprRef) and n.eq(o.base.L)
            ln = cx.blen(o)

            def norm(x):
                """Start or end index relative to the view, negative ones resolved."""
                if isinstance(x, int):
                    if x >= 0:
                        return x
                    return simp(If(simp(ln + x >= 0), ln + x, 0))
                if cx.nonneg(st.pc, x):
                    return x
                return simp(If(simp(x >= 0), x, If(simp(ln + x >= 0), ln + x, 0)))
            a = 0 if lo is None else norm(lo)
            if hi is None:
                m = simp(ln - a)
            else:
                b = norm(hi)
                m = simp(b - a)
            if not isinstance(m, int) and not cx.nonneg(st.pc, m):
                m = simp(If(simp(m > 0), m, 0))
            elif isinstance(m, int):
                m = max(m, 0)
            off = simp(o.off + a)
            if not full:
                # do not reach beyond the view
                if not (isinstance(n, int) and isinstance(a, int) and isinstance(m, int) and a + m <= n):
                    lim = simp(n - a)
                    if isinstance(lim, int) and isinstance(m, int):
                        m = max(0, min(m, lim))
                    elif not cx.proved(st.pc, simp(m <= lim)):
                        lim2 = simp(If(simp(lim > 0), lim, 0)) if not (isinstance(lim, int)) else max(lim, 0)
                        m = simp(If(simp(m <= lim2), m, lim2))
            if isinstance(off, z3.ExprRef) and cx._nn(off) is False and cx.nonneg(st.pc, off):
                pass
            return Byt(o.base, off, m)
        if isstr(o):
            return App('slice', [o, lo, hi], 'str')
        if isinstance(o, App) and o.typ == 'bytes':
            return App('bslice', [o, lo, hi], 'bytes')
        if isinstance(o, Ref):
            r = it.rec(st, o)
            if isinstance(r, HList) and all(isinstance(e, E) and e.g is True for e in r.items) and concrete(lo) and concrete(hi):
                return it.new(st, HList(r.items[lo:hi]))
        if o is None or isint(o):
            it.raise_(st, TypeError)
        raise Unsupported('slice of %r' % (o,))

    def smallslice(self, st, o, lo, hi):
        if isinstance(o, Small) and concrete(lo) and concrete(hi):
            lo = lo or 0
            m = len(o.elems)
            hi = m if hi is None else hi
            if lo >= 0 and hi >= 0:
                hi = min(hi, m)
                n = max(hi - lo, 0)
                ln = simp(o.ln - lo)
                if isinstance(ln, int):
                    ln = max(0, min(ln, n))
                else:
                    ln = simp(If(simp(ln <= 0), 0, If(simp(ln <= n), ln, n)))
                return Small(o.elems[lo:lo + n], ln)
        raise Unsupported('slice of short bytes')

    def stepslice(self, st, o, lo, hi, step):
        if concrete(o) and concrete(lo) and concrete(hi) and concrete(step):
            return o[lo:hi:step]
        raise Unsupported('slice with step')

    # ------------------------------------------------------------ operators

    def truth(self, st, v):
        if isbool(v):
            return v
        if isint(v):
            return Not(ieq(v, 0))
        if concrete(v):
            return bool(v)
        if isinstance(v, (Byt, Small)):
            return simp(self.cx.blen(v) > 0)
        if isinstance(v, App) and v.typ == 'bytes':
            n = self.length(st, v)
            return simp(n > 0)
        if isstr(v):
            return Not(streq(self.cx, v, ''))
        if isinstance(v, Ref):
            r = self.it.rec(st, v)
            if isinstance(r, (HElem, HList)):
                return simp(self.count(st, r.kids if isinstance(r, HElem) else r.items) > 0) if not isinstance(
                    self.count(st, r.kids if isinstance(r, HElem) else r.items), int) else \
                    self.count(st, r.kids if isinstance(r, HElem) else r.items) > 0
            if isinstance(r, (HDict, HArr)):
                n = self.length(st, v)
                return n > 0 if isinstance(n, int) else simp(n > 0)
            return True
        if isinstance(v, (SetV, Rng)):
            n = self.length(st, v)
            return n > 0 if isinstance(n, int) else simp(n > 0)
        if isinstance(v, (Rat,)):
            return Not(ieq(v.num, 0))
        raise Unsupported('truth of %r' % (v,))

    def eq(self, st, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, Ref) or isinstance(b, (list, tuple)) and isinstance(a, Ref):
            x, y = (a, b) if isinstance(b, Ref) else (b, a)
            r = self.it.rec(st, y)
            if isinstance(x, tuple) or not isinstance(r, HList):
                return False
            return self.listeq(st, tuple(E(True, z) for z in x), r.items)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid == b.oid:
                return True
            p, q = self.it.rec(st, a), self.it.rec(st, b)
            if isinstance(p, HList) and isinstance(q, HList):
                return self.listeq(st, p.items, q.items)
            if isinstance(p, (HDict, HArr)) and isinstance(q, (HDict, HArr)):
                return self.dicteq(st, p, q)
            if isinstance(p, (HElem, HInst)) or isinstance(q, (HElem, HInst)):
                return False
            raise Unsupported('comparing objects')
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.eqany(st, x, y) for x, y in zip(a, b)])
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('loop value')
        if isinstance(a, Rat) or isinstance(b, Rat):
            x, y = (a, b) if isinstance(a, Rat) else (b, a)
            if isint(y) or isinstance(y, Rat):
                for z in (x, y):
                    if isinstance(z, Rat) and not self.exact(st, z):
                        return self.cx.ack('float_eq', [a, b], B)
                if isint(y) and isinstance(x.den, int):
                    return ieq(x.num, simp(y * x.den))
        return eqv(self.cx, a, b)

    def listeq(self, st, a, b):
        if all(isinstance(e, E) and e.g is True for e in a) and all(isinstance(e, E) and e.g is True for e in b):
            if len(a) != len(b):
                return False
            return And(*[self.eqany(st, x.v, y.v) for x, y in zip(a, b)])
        a2, b2 = tuple(self.lit(st, e) for e in a), tuple(self.lit(st, e) for e in b)
        if len(a2) == 1 and len(b2) == 1 and all(
                isinstance(x, ForE) and x.g is True and len(x.es) == 1 and isinstance(x.es[0], E) and x.es[0].g is True
                for x in (a2[0], b2[0])):
            # equal lengths, and no place where they differ
            x, y = a2[0], b2[0]
            k = kcanon(self.it.fordepth)
            p = self.cx.subst(x.es[0].v, x.k, k)
            q = self.cx.subst(y.es[0].v, y.k, k)
            t = st.clone()
            n = simp(If(simp(x.n <= y.n), x.n, y.n))
            t.pc = t.pc + (Cond(And(k >= 0, k < n), False),)
            diff = simp(Not(self.eqany(t, p, q)))
            if diff is False:
                return ieq(x.n, y.n)
            m = self.it.first(st, diff, n, k, self.it.fordepth)
            return And(ieq(x.n, y.n), simp(m >= n))
        return self.cx.ack('list_eq', [a2, b2], B)

    def asarr(self, d):
        if d.map:
            raise Unsupported('dictionary kinds')
        return HArr(('empty',), ())

    def dicteq(self, st, p, q):
        if isinstance(p, HDict) and not p.map:
            p = HArr(('empty',), ())
        if isinstance(q, HDict) and not q.map:
            q = HArr(('empty',), ())
        if isinstance(p, HArr) and isinstance(q, HArr):
            return self.cx.ack('dict_eq', [self.arrval(p), self.arrval(q)], B)
        raise Unsupported('comparing dictionaries')

    def is_(self, st, a, b):
        if a is None or b is None:
            return a is None and b is None
        if isbool(a) and isbool(b):
            return Iff(a, b)
        if isbool(a) or isbool(b):
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.oid == b.oid
        if isinstance(a, type) or isinstance(b, type):
            return a is b
        raise Unsupported('is')

    def order(self, st, op, a, b):
        if isbool(a):
            a = If(a, 1, 0)
        if isbool(b):
            b = If(b, 1, 0)
        if isint(a) and isint(b):
            if isinstance(op, ast.Lt):
                return simp(a < b)
            if isinstance(op, ast.LtE):
                return simp(a <= b)
            if isinstance(op, ast.Gt):
                return simp(a > b)
            return simp(a >= b)
        num = (Rat, Num, float)
        if (isint(a) or isinstance(a, num)) and (isint(b) or isinstance(b, num)):
            if isinstance(a, Rat) and isint(b) and isinstance(a.den, int) and a.den > 0 and self.exact(st, a):
                return self.order(st, op, a.num, simp(b * a.den))
            if isinstance(b, Rat) and isint(a) and isinstance(b.den, int) and b.den > 0 and self.exact(st, b):
                return self.order(st, op, simp(a * b.den), b.num)
            if isinstance(a, Num) and a.op == 'pow' and a.args[0] == 2 and isinstance(b, int):
                return self.poworder(st, op, a, b)
            return self.cx.ack('float_' + type(op).__name__, [a, b], B)
        if concrete(a) and concrete(b):
            try:
                return {ast.Lt: a.__lt__, ast.LtE: a.__le__, ast.Gt: a.__gt__, ast.GtE: a.__ge__}[type(op)](b) is True
            except (TypeError, AttributeError):
                self.it.raise_(st, TypeError)
        if a is None or b is None or (isint(a) != isint(b) and not isinstance(a, Ref) and not isinstance(b, Ref)):
            self.it.raise_(st, TypeError)
        raise Unsupported('ordering %r and %r' % (a, b))

    def poworder(self, st, op, a, b):
        """2**e against the integer b"""
        e = a.args[1]
        if b <= 0:
            return isinstance(op, (ast.Gt, ast.GtE)) if not (b == 0) else isinstance(op, (ast.Gt, ast.GtE)) and \
                self.nope('power against zero')
        # 2**e <= b  iff  e <= floor(log2 b)  (monotone, exact for integers e)
        f = b.bit_length() - 1
        exactpow = (1 << f) == b
        if isinstance(op, ast.LtE):
            return simp(e <= f)
        if isinstance(op, ast.Gt):
            return simp(e > f)
        if isinstance(op, ast.Lt):
            return simp(e < f) if exactpow else simp(e <= f)
        return simp(e >= f) if exactpow else simp(e > f)

    def unary(self, st, op, x):
        if isbool(x):
            x = If(x, 1, 0)
        if isint(x):
            if isinstance(op, ast.USub):
                return simp(-x)
            if isinstance(op, ast.UAdd):
                return x
            if isinstance(op, ast.Invert):
                return simp(-x - 1)
        if concrete(x):
            try:
                return -x if isinstance(op, ast.USub) else +x if isinstance(op, ast.UAdd) else ~x
            except TypeError:
                self.it.raise_(st, TypeError)
        if isinstance(x, Rat) and isinstance(op, ast.USub):
            return Rat(simp(-x.num), x.den)
        raise Unsupported('unary operator')

    def mul(self, st, a, b):
        if isinstance(a, int) or isinstance(b, int):
            return simp(a * b)
        a, b = simp(a), simp(b)
        if isinstance(a, int) or isinstance(b, int):
            return simp(a * b)
        for x, y in ((a, b), (b, a)):
            x = self.casetree(x)
            if x is not None:
                return self.overites(x, lambda l: simp(y * l))
        if a.get_id() > b.get_id():
            a, b = b, a
        c = self.cx.ack('mul', [a, b], I)
        k = ('mulax', c.get_id())
        if k not in self.memo:
            self.memo[k] = c
            self.cx.axiom(And(Implies(And(a >= 0, b >= 0), c >= 0), Implies(Or(a == 0, b == 0), c == 0),
                              Implies(b == 1, c == a), Implies(a == 1, c == b)), (c,))
        return c

    def runs(self, mask):
        out, i = [], 0
        while mask >> i:
            if (mask >> i) & 1:
                j = i
                while (mask >> j) & 1:
                    j += 1
                out.append((i, j - i))
                i = j
            else:
                i += 1
        return out

    def band(self, st, x, mask):
        if mask < 0:
            raise Unsupported('negative mask')
        r = 0
        for lo, w in self.runs(mask):
            t = x if lo == 0 else x / (2 ** lo)
            r = r + (t % (2 ** w)) * (2 ** lo)
        r = simp(r)
        self.mark(r)
        return r

    def binop(self, st, op, a, b):
        it = self.it
        if isbool(a) and not isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            a = If(a, 1, 0)
        if isbool(b) and not isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            b = If(b, 1, 0)
        if isbool(a) and isbool(b):
            if isinstance(op, ast.BitAnd):
                return simp(And(a, b))
            if isinstance(op, ast.BitOr):
                return simp(Or(a, b))
            if isinstance(op, ast.BitXor):
                return simp(Not(Iff(a, b)))
        if isbool(a):
            a = If(a, 1, 0)
        if isbool(b):
            b = If(b, 1, 0)
        if isint(a) and isint(b):
            return self.intop(st, op, a, b)
        if isinstance(op, ast.Mod) and isstr(a):
            return self.percent(st, a, b)
        if isinstance(a, (list, dict, set)) or isinstance(b, (list, dict, set)):
            if isinstance(a, list) and isinstance(b, list) and isinstance(op, ast.Add):
                return it.newlist(st, a + b)
            if isinstance(a, list):
                a = it.newlist(st, list(a))
            if isinstance(b, list):
                b = it.newlist(st, list(b))
        if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)) and (isinstance(a, SetV) or isinstance(b, SetV)):
            raise Unsupported('set algebra')
        if concrete(a) and concrete(b):
            try:
                return self.pyop(op, a, b)
            except (TypeError, ZeroDivisionError, ValueError, OverflowError) as e:
                it.raise_(st, type(e))
        if isinstance(op, ast.Add):
            if isstr(a) and isstr(b):
                return self.plain(SStr(list(parts(a)) + list(parts(b))))
            if isbytes(a) and isbytes(b):
                return self.bconcat(st, a, b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, Ref) and isinstance(b, Ref):
                p, q = it.rec(st, a), it.rec(st, b)
                if isinstance(p, HList) and isinstance(q, HList):
                    return it.new(st, HList(p.items + q.items))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and isint(y):
                    r = it.rec(st, x)
                    if isinstance(r, HList) and all(isinstance(e, E) and e.g is True for e in r.items):
                        if isinstance(y, int):
                            return it.new(st, HList(r.items * y))
                        if len(r.items) == 1:
                            k = kcanon(it.fordepth)
                            n = y if self.cx.nonneg(st.pc, y) else simp(If(simp(y > 0), y, 0))
                            return it.new(st, HList([ForE(True, n, k, r.items)]))
        fl = (Rat, Num, float)
        if (isinstance(a, fl) or isint(a)) and (isinstance(b, fl) or isint(b)):
            return self.floatop(st, op, a, b)
        if a is None or b is None or (isbytes(a) and isstr(b)) or (isstr(a) and isbytes(b)) or \
                (isint(a) and (isstr(b) or isbytes(b)) and not isinstance(op, ast.Mult)) or \
                (isint(b) and (isstr(a) or isbytes(a)) and not isinstance(op, ast.Mult)):
            it.raise_(st, TypeError)
        raise Unsupported('operator %s on %r and %r' % (type(op).__name__, a, b))

    def bconcat(self, st, a, b):
        if a == b'' and isinstance(a, bytes):
            return b
        if b == b'' and isinstance(b, bytes):
            return a
        return App('cat', [a, b], 'bytes')

    def pyop(self, op, a, b):
        import operator as o
        f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv,
             ast.Mod: o.mod, ast.Pow: o.pow, ast.LShift: o.lshift, ast.RShift: o.rshift, ast.BitAnd: o.and_,
             ast.BitOr: o.or_, ast.BitXor: o.xor}.get(type(op))
        if f is None:
            raise Unsupported('operator')
        return f(a, b)

    def intop(self, st, op, a, b):
        it = self.it
        cx = self.cx
        if isinstance(a, int) and isinstance(b, int):
            if isinstance(op, ast.Pow) and abs(b) > 100000:
                raise Unsupported('huge power')
            try:
                return self.pyop(op, a, b)
            except (ZeroDivisionError, ValueError, OverflowError) as e:
                it.raise_(st, type(e))
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int) and z3.is_app_of(y, z3.Z3_OP_ITE):
                    ls = self.ites(y)
                    if ls and all(z3.is_int_value(l) for l in ls):
                        f = {ast.Add: lambda p, q: p + q, ast.Sub: lambda p, q: p - q, ast.Mult: lambda p, q: p * q}[type(op)]
                        return self.overites(y, (lambda l: f(x, l)) if x is a else (lambda l: f(l, x)))
        if isinstance(op, ast.Add):
            return simp(a + b)
        if isinstance(op, ast.Sub):
            return simp(a - b)
        if isinstance(op, ast.Mult):
            return self.mul(st, a, b)
        if isinstance(op, (ast.FloorDiv, ast.Mod, ast.Div)):
            it.raise_if(st, ieq(b, 0), ZeroDivisionError)
        if isinstance(op, ast.Div):
            return Rat(a, b)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if isinstance(b, int) and b < 0:
                q = self.fdiv(st, simp(-a), -b)
            elif isinstance(b, int) or self.positive(st, b) or cx.proved(st.pc, b > 0):
                q = self.fdiv(st, a, b)
            else:
                raise Unsupported('division by a possibly negative number')
            if isinstance(op, ast.FloorDiv):
                return q
            if isinstance(b, int) and b > 0:
                r = simp(a % b)
                self.mark(r)
                return r
            return simp(a - self.mul(st, q, b))
        if isinstance(op, ast.Pow):
            return self.power(st, a, b)
        if isinstance(op, ast.LShift):
            if isinstance(b, int):
                if b < 0:
                    it.raise_(st, ValueError)
                if b > 4096:
                    raise Unsupported('huge shift')
                return simp(a * (1 << b))
            it.raise_if(st, simp(b < 0), ValueError)
            c = cx.ack('shl', [a, b], I)
            k = ('shlax', c.get_id())
            if k not in self.memo:
                self.memo[k] = c
                cx.axiom(And(Implies(b == 0, c == a), Iff(c > 0, a > 0) if isinstance(a, z3.ExprRef) else True,
                             Iff(c < 0, a < 0) if isinstance(a, z3.ExprRef) else True), (c,))
            return c
        if isinstance(op, ast.RShift):
            if isinstance(b, int):
                if b < 0:
                    it.raise_(st, ValueError)
                return self.fdiv(st, a, 1 << b)
            it.raise_if(st, simp(b < 0), ValueError)
            vals = self.smallvals(st, b, 0, 64)
            if vals is None:
                raise Unsupported('shift')
            r = None
            for v in vals:
                x = self.fdiv(st, a, 1 << v)
                r = x if r is None else If(ieq(b, v), x, r)
            return simp(r)
        if isinstance(op, ast.BitAnd):
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                return self.band(st, a, b)
            raise Unsupported('bit operation')
        if isinstance(op, ast.BitOr):
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b >= 0:
                # set the bits of b that a does not have
                return simp(a + b - self.band(st, a, b)) if b else a
            for x, y in ((a, b), (b, a)):
                for w in (1, 2, 3, 4, 5, 6, 7, 8, 16, 32):
                    if cx.proved(st.pc, And(simp(x % (1 << w) == 0), simp(y >= 0), simp(y < (1 << w)))):
                        return simp(x + y)
            raise Unsupported('bit operation')
        if isinstance(op, ast.BitXor):
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b >= 0:
                return simp(a + b - 2 * self.band(st, a, b)) if b else a
        raise Unsupported('integer operator')

    def smallvals(self, st, x, lo, hi):
        if not self.cx.proved(st.pc, And(simp(x >= lo), simp(x <= hi))):
            return None
        return [v for v in range(lo, hi + 1) if self.cx.feasible(st.pc, ieq(x, v))]

    def power(self, st, a, e):
        if isinstance(a, int) and not isinstance(e, int):
            if not self.cx.proved(st.pc, And(simp(e >= -20000), simp(e <= 300))):
                raise Unsupported('power')
            if self.cx.proved(st.pc, And(simp(e >= 0), simp(e <= 16))):
                r = a ** 16
                for i in range(15, -1, -1):
                    r = If(ieq(e, i), a ** i, r)
                r = simp(r)
                self.mark(r)
                return r
            if a == 0:
                raise Unsupported('power of zero')
            return Num('pow', a, e)
        if isinstance(e, int) and 0 <= e <= 4:
            r = 1
            for _ in range(e):
                r = self.mul(st, r, a)
            return r
        raise Unsupported('power')

    def floatop(self, st, op, a, b):
        it = self.it
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            z = Not(self.truth(st, b)) if not isinstance(b, Num) else (False if b.op == 'pow' else None)
            if z is None:
                z = self.cx.ack('float_zero', [b], B)
            it.raise_if(st, z, ZeroDivisionError)
        name = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div'}.get(type(op))
        if name is None:
            raise Unsupported('float operator')
        return Num(name, a, b)

    # ------------------------------------------------------------ primitives of the contracts

    def p_leaf(self, st, parent, tag, text):
        e = self.it.new(st, HElem(self.prim.Node, tag, text))
        self.append_kid(st, parent, e)

    def p_adopt(self, st, parent, child):
        self.append_kid(st, parent, child)

    def p_is_empty(self, st, node):
        n = self.it.over(st, node, lambda s, x: self.length(s, x))
        return ieq(n, 0)

    def p_uint(self, st, s, n):
        def f(t, b, k):
            if isinstance(k, z3.ExprRef) and z3.is_app_of(k, z3.Z3_OP_ITE) and self.ites(k):
                c, x, y = k.children()
                return self.it.branch(t, c, lambda u: f(u, b, conc(x)), lambda u: f(u, b, conc(y)))
            ln = self.cx.blen(b)
            return self.it.branch(t, ieq(ln, k), lambda u: self.bigfix(u, b, k), lambda u: -9999)
        return self.it.over2(st, s, n, f)

    def bigfix(self, st, b, n):
        if concrete(b):
            return int.from_bytes(b, 'big')
        if isinstance(n, int):
            v = 0
            for i in range(n):
                v = v * 256 + self.cx.bget(b, i)
            v = simp(v)
            self.mark(v)
            return v
        return self.bigval(st, b)

    def p_sint8(self, st, s):
        def f(t, b):
            x = None
            return self.it.branch(t, ieq(self.cx.blen(b), 1),
                                  lambda u: simp(If(simp(self.cx.bget(b, 0) > 127), self.cx.bget(b, 0) - 256, self.cx.bget(b, 0))),
                                  lambda u: -9999)
        return self.it.over(st, s, f)

    def p_anyint(self, st, s):
        return self.it.over(st, s, lambda t, b: self.it.branch(
            t, ieq(self.cx.blen(b), 0), lambda u: -9999, lambda u: self.bigval(u, b)))

    def p_hextext(self, st, s):
        return self.it.over(st, s, lambda t, b: self.hexlify(t, b))

    def p_uuidtext(self, st, s):
        return App('uuidtext', [s], 'str')

    def p_strip_nulls(self, st, s):
        return App('rstrip0', [s], 'bytes')

    def p_latin(self, st, s):
        return App('latin15', [s], 'str')

    def p_is_utf8(self, st, s):
        if concrete(s):
            return self.prim.is_utf8(s)
        return self.cx.ack('is_utf8', [s], B)

    def p_xml_ok(self, st, s):
        if concrete(s):
            return self.prim.xml_ok(s)
        return self.cx.ack('xml_ok', [s], B)

    def p_xml_tree(self, st, s):
        return self.xmltree(st, s, self.prim.Node)

    def p_pad4(self, st, s):
        return self.m_bytes(st, s, 'ljust', [4, b'\x00'], {})

    def p_ratio(self, st, a, b):
        return self.it.binop(st, ast.Div(), a, b)

    def p_ceildiv(self, st, a, b):
        return simp(-self.it.binop(st, ast.FloorDiv(), simp(-a), b))

    def p_power(self, st, b, e):
        return self.it.binop(st, ast.Pow(), b, e)

    def p_shifted(self, st, v, n):
        return self.it.binop(st, ast.LShift(), v, n)

    def p_hexfield(self, st, n, v):
        return SStr([('hexpad', n, v)])

    def p_position(self, st, lst, v):
        f, p = self.index(st, self.entries(st, lst), v)
        return simp(If(f, p, -1))

    def p_distinct(self, st, lst):
        es = self.entries(st, lst)
        if not es:
            return True
        return ieq(self.distinctcount(st, es), self.count(st, es))

    def p_any_false(self, st, node):
        return self.anyin(st, node, (False,))

    def anyin(self, st, tree, hits):
        """Some element below `tree` has one of the texts `hits` (by identity)."""
        it = self.it
        r = it.rec(st, tree)
        snaps = self.validsnap.setdefault(hits, [])
        if not it.spec_phase:
            for kids, snap, sym in snaps:
                if self.comparer(st.pc, st, snap, self.rel == 'v').quiet(r.kids, kids):
                    return sym
        sym = self.cx.bool('anyin')
        if not it.spec_phase:
            it.taint.add(sym.get_id())
        else:
            snaps.append((r.kids, st.clone(), sym))
        return sym

    # ------------------------------------------------------------ parts (callees by contract)

    def optvals(self, st, o):
        """(verbose, nullxml, packets) of an options value."""
        r = self.it.rec(st, o)
        if isinstance(r, HDict):
            g = r.map
            return (g['validationFormat'][1], g['verboseFlag'][1], g['nullxmlFlag'][1], g['packetmarkersFlag'][1])
        if isinstance(r, HInst):
            a = r.attrs
            return (a['fmt'], a['verbose'], a['nullxml'], a['packets'])
        raise Unsupported('options')

    def subapp(self, st, opts, kind, content, csiz, start):
        return App('sub', (kind, content, 0 if csiz is None else csiz, 0 if start is None else start) + opts, 'sub')

    def p_sub(self, st, cx, kind, content, csiz=None, start=None):
        app = self.subapp(st, self.optvals(st, cx), kind, content, csiz, start)
        return self.it.new(st, HInst(self.spec.Res, dict(self.sub_elems(st, app, self.prim.Node, ('tests', 'props', 'warns')), _sub=app)))

    def sub_elems(self, st, app, cls, names):
        tag = self.subtag(st, app.args[0])
        out = {}
        for n, proj in zip(names, ('tests', 'props', 'warns')):
            a = app if self.rel is None or proj == AFFECTS[self.rel] else self.canon(app)
            out[n] = self.it.new(st, HElem(cls, tag, None, (), (KidsE(True, a, proj),)))
        return out

    def canon(self, app):
        """The part as analysed without the option that is being compared: by
        induction what is asked of it does not depend on that option."""
        if self.rel is None or app.op != 'sub':
            return app
        i = 5 + 'vnp'.index(self.rel)
        return App('sub', app.args[:i] + (False,) + app.args[i + 1:], 'sub')

    def comparer(self, pc, a, b, weak=False):
        from .compare import Compare, Related
        if self.rel is None:
            return Compare(self.it, pc, a, b)
        return Related(self.it, pc, a, b, weak)

    def subtag(self, st, kind):
        if concrete(kind):
            if kind in ('JP2', 'contiguousCodestreamBox'):
                raise Unsupported('nested analysis of a file')
            return self.spec.NAMES.get(kind, 'unknownBox')
        if isinstance(kind, Union):
            raise Unsupported('type of a part')
        return App('tagof', [kind], 'str')

    def sub_attr(self, st, r, name):
        app = r.attrs['_sub']
        if name in ('valid', 'next', 'psot'):
            return self.expand(st, self.canon(app))[name]
        self.it.raise_(st, AttributeError)

    def new_part(self, st, args, kw):
        """BoxValidator(...) inside the code: the part is known by its contract."""
        sig = inspect.signature(self.cls.__init__)
        try:
            ba = sig.bind(None, *args, **kw)
        except TypeError:
            self.it.raise_(st, TypeError)
        ba.apply_defaults()
        a = ba.arguments
        names = ('options', 'bType', 'boxContents', 'startOffset', 'components')
        if set(a) != set(names) | {'self'}:
            raise Unsupported('parameters of BoxValidator')
        return self.it.new(st, HInst(self.cls, {'_part': tuple(a[n] for n in names), '_done': False}))

    def part_attr(self, st, o, r, name):
        if name == 'validate':
            return Native('validate', o)
        if not r.attrs['_done']:
            raise Unsupported('attribute of a part before its analysis')
        names = {'tests': 'tests', 'characteristics': 'props', 'warnings': 'warns', 'isValid': 'valid',
                 'returnOffset': 'next', 'tilePartLength': 'psot'}
        if name in ('isValid', 'returnOffset', 'tilePartLength'):
            return self.expand(st, self.canon(r.attrs['_app']))[names[name]]
        raise Unsupported('attribute %s of a part' % name)

    def do_validate(self, st, o):
        r = self.it.rec(st, o)
        if r.attrs.get('_done'):
            raise Unsupported('second analysis of a part')
        opts, kind, content, start, csiz = r.attrs['_part']
        if isinstance(kind, Union) or isinstance(content, Union) or isinstance(opts, Union):
            raise Unsupported('part with alternatives')
        if not isbytes(content):
            raise Unsupported('contents of a part')
        for v in (csiz, start):
            if v is not None and not isint(v):
                raise Unsupported('argument of a part')
        self.precondition(st, kind, content, csiz, start)
        app = self.subapp(st, self.optvals(st, opts), kind, content, csiz, start)
        el = self.sub_elems(st, app, self.elcls, ('tests', 'characteristics', 'warnings'))
        st.heap[o.oid] = HInst(r.cls, dict(el, _part=r.attrs['_part'], _app=app, _done=True))
        return o

    def precondition(self, st, kind, content, csiz, start):
        """What the contract of a part asks of its caller; and that analyses nest finitely."""
        if self.obl is None or self.it.spec_phase:
            return
        cx = self.cx

        def holds(f):
            return True if (f if isinstance(f, bool) else cx.proved(st.pc, f)) else None
        uses = kind_in(cx, kind, USES_CSIZ)
        if csiz is None:
            self.obl('pre', 'number of components given', holds(simp(Not(uses))))
        elif uses is not False:
            self.obl('pre', 'number of components in range', holds(Or(Not(uses), And(simp(csiz >= -9999), simp(csiz <= 65535)))))
        if start is None:
            self.obl('pre', 'start offset given', holds(simp(Not(kind_in(cx, kind, USES_START)))))
        n = cx.blen(content)
        smaller = Or(*[simp(n < b.L) for b in self.bases])
        if isinstance(kind, str) and kind == 'startOfTile':     # has no parts
            smaller = True
        elif self.rootkind in ('contiguousCodestreamBox', b'jp2c'):
            smaller = Or(smaller, kind_in(cx, kind, USES_START))
        self.obl('loop', 'a part is smaller than the whole', holds(smaller))

    def concretekind(self, st, kind):
        if concrete(kind):
            return kind
        for k in self.spec.NAMES:
            if isinstance(k, bytes) and self.cx.proved(st.pc, byteq(self.cx, kind, k)):
                return k
        return None

    def expand(self, st, app):
        """What the contract says about a part."""
        kind = self.concretekind(st, app.args[0])
        if kind is None:
            raise Unsupported('part of unknown type')
        k = ('exp', key((kind,) + app.args[1:]))
        if k in self.memo:
            return self.memo[k]
        it = self.it
        _, content, csiz, start, fmt, verbose, nullxml, packets = app.args
        s = State()
        s.handlers = (Exit(0),)
        s.frames = [Frame({}, self.spec.__dict__, Exit(0), None)]
        cxr = it.new(s, HInst(self.spec.Cx, {'fmt': fmt, 'verbose': verbose, 'nullxml': nullxml, 'packets': packets}))
        old = (it.spec_phase, it.scope, it.loopmode)
        it.spec_phase = True
        it.scope = ('exp', len(self.memo))
        nrecs = len(it.wrecs)
        try:
            res = it.call(s, self.spec.new_result, [kind], {})
            fn = getattr(self.spec, 'spec_' + self.spec.NAMES[kind])
            it.call(s, fn, [cxr, content, res, csiz, start], {})
        finally:
            it.spec_phase, it.scope, it.loopmode = old
        if s.handlers[0].items:
            raise Unsupported('contract raises')
        # what holds after a loop holds of the last iteration's symbols only: not an axiom
        loopsyms = set()
        for w in it.wrecs[nrecs:]:
            loopsyms |= {x.get_id() for c in w.comps for x in w.psyms[c].values() if isinstance(x, z3.ExprRef)}
            loopsyms |= {x.get_id() for x in w.conts.values()} | set(w.syms)
        for c in s.pc:
            if not self.cx.symbols(c.x) & loopsyms:
                self.cx.axiom(c.x)
        for oid, r in s.heap.items():
            self.cx.gheap[oid] = r
        a = it.rec(s, res).attrs
        out = {n: it.rec(s, a[n]).kids for n in ('tests', 'props', 'warns')}
        for n in ('valid', 'next', 'psot'):
            out[n] = a[n]
        self.memo[k] = out
        return out

    # ------------------------------------------------------------ searching elements

    def p_find(self, st, node, path):
        def f(s, o):
            steps = self.steps(s, o, path)
            if steps is None:
                raise Unsupported('path %r' % (path,))
            return self.findfirst(s, self.entries(s, o), steps)
        return self.it.over(st, node, f)

    def steps(self, st, o, path):
        if not isinstance(o, Ref) or not isinstance(self.it.rec(st, o), HElem):
            if o is None:
                self.it.raise_(st, AttributeError)
            raise Unsupported('find in %r' % (o,))
        if not isinstance(path, str):
            raise Unsupported('computed path')
        if path.startswith('./'):
            path = path[2:]
        ss = path.split('/')
        if any(not x.isidentifier() for x in ss):
            return None
        if self.rel == 'n' and set(ss) & {'xmlBox', 'uuidBox'} or self.rel == 'p' and set(ss) & set(PACKETTAGS):
            raise Unsupported('search for what depends on the option')
        return ss

    def kids_of(self, st, v):
        return self.entries(st, v)

    def open_(self, st, e):
        """KidsE of a known part, opened."""
        if isinstance(e, KidsE):
            if e.app.op != 'sub':
                return None
            try:
                app = e.app if self.rel == 'v' and e.proj == 'tests' else self.canon(e.app)
                return [reguard(x, e.g) for x in self.expand(st, app)[e.proj]]
            except Unsupported:
                return None
        return None

    def tageq(self, st, v, step):
        r = self.it.rec(st, v)
        if isinstance(r.tag, App) and r.tag.op == 'tagof':
            return tagis(self.cx, r.tag.args[0], step)
        return streq(self.cx, r.tag, step) if not isinstance(r.tag, str) else r.tag == step

    def findfirst(self, st, es, steps):
        """First match, or None."""
        it = self.it
        if not es:
            return None
        e, rest = es[0], es[1:]
        if isinstance(e, KidsE):
            o = self.open_(st, e)
            if o is None:
                raise Unsupported('search in a part of unknown type')
            return self.findfirst(st, tuple(o) + tuple(rest), steps)
        if isinstance(e, E):
            if isinstance(e.v, Union):
                alts = e.v.alts

                def go(s, i):
                    if i == len(alts) - 1:
                        return self.findfirst(s, (E(True, alts[i][1]),) + tuple(rest), steps)
                    return it.branch(s, alts[i][0],
                                     lambda t: self.findfirst(t, (E(True, alts[i][1]),) + tuple(rest), steps),
                                     lambda t: go(t, i + 1))
                # skip when no alternative can match
                if not any(self.cx.feasible(st.pc, simp(And(e.g, g, self.tageq(st, v, steps[0])))) for g, v in alts):
                    return self.findfirst(st, rest, steps)
                return it.branch(st, e.g, lambda s: go(s, 0), lambda s: self.findfirst(s, rest, steps))
            c = simp(And(e.g, self.tageq(st, e.v, steps[0])))
            if c is False or (c is not True and not self.cx.feasible(st.pc, c)):
                return self.findfirst(st, rest, steps)

            def hit(s):
                if len(steps) == 1:
                    return e.v
                sub = self.findfirst(s, self.entries(s, e.v), steps[1:])
                return it.over(s, sub, lambda t, x: self.findfirst(t, rest, steps) if x is None else x)
            return it.branch(st, c, hit, lambda s: self.findfirst(s, rest, steps))
        if isinstance(e, ForE):
            if len(steps) > 1:
                if all(isinstance(x, E) and isinstance(x.v, Ref) and not self.cx.feasible(
                        st.pc + (Cond(And(e.k >= 0, e.k < e.n), False),), simp(And(x.g, self.tageq(st, x.v, steps[0])))) for x in e.es):
                    return self.findfirst(st, rest, steps)
                raise Unsupported('path through a repetition')
            hits = []
            for x in e.es:
                if isinstance(x, ForE):
                    if any(self.maymatch(st, y, steps[0]) for y in x.es):
                        raise Unsupported('search in a nested repetition')
                    continue
                if isinstance(x, E) and self.maymatch(st, x, steps[0]):
                    hits.append(x)
            if not hits:
                return self.findfirst(st, rest, steps)
            if len(hits) == 1 and hits[0].g is True and self.tageq(st, hits[0].v, steps[0]) is True:
                x = hits[0]
                c = simp(And(e.g, simp(e.n > 0)))
                return it.branch(st, c, lambda s: it.subst_deep(s, x.v, e.k, 0, {}),
                                 lambda s: self.findfirst(s, rest, steps))
            raise Unsupported('search in a repetition')
        if isinstance(e, SeqE):
            t = self.opaque_type(st, e, steps)
            if t is None:
                return self.findfirst(st, rest, steps)
            name = '/'.join(steps)
            nf = self.cx.ack('found', [e.sym, name], I, pos=True)
            ex = simp(nf > 0)
            ran = self.it.first_go(e.loop if e.loop is not None else self.it.seqloops.get(e.sym.get_id()))
            if ran is not True:
                self.cx.axiom(Implies(ex, ran), (nf,))
            return it.branch(st, simp(And(e.g, ex)), lambda s: self.opaque_elem(s, e, steps, t, 0),
                             lambda s: self.findfirst(s, rest, steps))
        raise Unsupported('search')

    def maymatch(self, st, e, step):
        if isinstance(e, E):
            if isinstance(e.v, Union):
                return any(self.maymatch(st, E(And(e.g, g), v), step) for g, v in e.v.alts)
            c = self.tageq(st, e.v, step)
            return c is True or (c is not False and self.cx.feasible(st.pc, simp(And(e.g, c))))
        return True

    def opaque_type(self, st, e, steps):
        """What the elements found along steps in the entries of a loop are:
        None (there are none), ('leaf', 'int'), ('sub', kind)."""
        rec = e.loop
        if rec is None:
            rec = self.it.seqloops.get(e.sym.get_id())
        if rec is None:
            raise Unsupported('search in the entries of a loop being analysed')
        if rec.side.end is None:
            return None
        for oid, sym in rec.conts.items():
            if sym.eq(e.sym):
                ents = rec.side.emis[oid]
                break
        else:
            raise Unsupported('loop entries')
        return self.type_in(rec.side.end, ents, steps)

    def type_in(self, st, ents, steps):
        res = None

        def note(t):
            nonlocal res
            if t is None:
                return
            if res is None:
                res = t
            elif res != t:
                raise Unsupported('elements of different kinds')

        for x in ents:
            if isinstance(x, ForE):
                note(self.type_in(st, x.es, steps))
                continue
            if isinstance(x, SeqE):
                note(self.opaque_type(st, x, steps))
                continue
            if isinstance(x, KidsE):
                o = self.open_(st, x)
                if o is None:
                    raise Unsupported('part of unknown type')
                note(self.type_in(st, o, steps))
                continue
            alts = x.v.alts if isinstance(x.v, Union) else ((True, x.v),)
            for g, v in alts:
                r = self.it.rec(st, v)
                c = self.tageq(st, v, steps[0])
                if c is False or (c is not True and not self.cx.feasible(st.pc, simp(And(x.g, g, c)))):
                    continue
                if isinstance(r.tag, App):
                    ks = [k for k, n in self.spec.NAMES.items() if n == steps[0] and isinstance(k, bytes)]
                    if len(ks) != 1:
                        raise Unsupported('elements named %s' % steps[0])
                    if len(steps) == 1:
                        note(('sub', ks[0]))
                        continue
                    gen = self.generic(ks[0])
                    note(self.type_in(self.scratch(), self.expand(self.scratch(), gen)['props'], steps[1:]))
                elif len(steps) == 1:
                    if r.kids:
                        if isinstance(r.kids[0], KidsE) and len(r.kids) == 1:
                            note(('sub', r.kids[0].app.args[0]))
                            continue
                        raise Unsupported('inner element %s' % steps[0])
                    note(('leaf', 'int') if isint(r.text) else ('leaf', type(r.text).__name__))
                else:
                    note(self.type_in(st, self.entries(st, v), steps[1:]))
        return res

    def scratch(self):
        s = State()
        s.handlers = (Exit(0),)
        s.frames = [Frame({}, self.spec.__dict__, Exit(0), None)]
        return s

    def generic(self, kind):
        k = ('gen', kind)
        if k not in self.memo:
            b = Base(self.cx, 'any' + self.spec.NAMES[kind])
            c = self.cx.int('anycsiz')
            self.cx.axiom(And(c >= -9999, c <= 65535), (c,))
            o = tuple(self.optnow)
            self.memo[k] = App('sub', (kind, Byt(b, 0, b.L), c, 0) + o, 'sub')
        return self.memo[k]

    def opaque_elem(self, st, e, steps, t, i):
        name = '/'.join(steps)
        it = self.it
        if t[0] == 'leaf':
            if t[1] != 'int':
                raise Unsupported('value of %s' % name)
            v = self.cx.ack('leaf', [e.sym, name, i], I)
            lo = self.leafrange(steps)
            return it.new(st, HElem(XET.Element if not it.spec_phase or self.rel is not None else self.prim.Node, steps[-1], v))
        # the element of a part: its contents are some bytes
        k = ('found', e.sym.get_id(), name, key(i))
        if k not in self.memo:
            if not isinstance(i, int):
                self.memo[k] = App('some', [e.sym, name, i], 'sub')
            else:
                b = Base(self.cx, 'found%d' % len(self.memo))
                c = self.cx.int('foundcsiz')
                self.cx.axiom(And(c >= -9999, c <= 65535), (c,))
                self.memo[k] = App('sub', (t[1], Byt(b, 0, b.L), c, 0) + tuple(self.optnow), 'sub')
        app = self.memo[k]
        return it.new(st, HElem(self.elcls if not it.spec_phase or self.rel is not None else self.prim.Node, steps[-1], None, (), (KidsE(True, app, 'props'),)))

    def leafrange(self, steps):
        return None

    def p_find_all(self, st, node, path):
        def f(s, o):
            steps = self.steps(s, o, path)
            if steps is None:
                raise Unsupported('path %r' % (path,))
            return self.it.new(s, HList(self.findlist(s, self.entries(s, o), steps)))
        return self.it.over(st, node, f)

    def findlist(self, st, es, steps):
        it = self.it
        out = []
        for e in es:
            if isinstance(e, KidsE):
                o = self.open_(st, e)
                if o is None:
                    raise Unsupported('search in a part of unknown type')
                out.extend(self.findlist(st, o, steps))
            elif isinstance(e, E):
                for g, v in (e.v.alts if isinstance(e.v, Union) else ((True, e.v),)):
                    c = simp(And(e.g, g, self.tageq(st, v, steps[0])))
                    if c is False or (c is not True and not self.cx.feasible(st.pc, c)):
                        continue
                    if c is not True and self.cx.proved(st.pc, c):
                        c = True
                    if len(steps) == 1:
                        out.append(E(c, v))
                    else:
                        s2 = st.clone()
                        if c is not True:
                            s2.assume(c)
                        out.extend(reguard(x, c) for x in self.findlist(s2, self.entries(st, v), steps[1:]))
                        for oid, r in s2.heap.items():
                            st.heap.setdefault(oid, r)
            elif isinstance(e, ForE):
                t = st.clone()
                t.pc = t.pc + (Cond(And(e.k >= 0, e.k < e.n), False),)
                sub = self.findlist(t, e.es, steps)
                if sub:
                    out.append(ForE(e.g, e.n, e.k, sub))
            elif isinstance(e, SeqE):
                t = self.opaque_type(st, e, steps)
                if t is None:
                    continue
                n = self.cx.ack('found', [e.sym, '/'.join(steps)], I, pos=True)
                k = kcanon(it.fordepth)
                out.append(ForE(e.g, n, k, [E(True, self.opaque_elem(st, e, steps, t, k))]))
            else:
                raise Unsupported('search')
        return tuple(out)

    def p_text_of(self, st, node, path):
        e = self.p_find(st, node, path)
        return self.it.over(st, e, lambda s, x: None if x is None else self.getattr(s, x, 'text'))

    def p_texts_of(self, st, node, path):
        l = self.p_find_all(st, node, path)

        def conv(s, x):
            out = []
            for e in self.entries(s, x):
                out.append(self.totext(s, e))
            return self.it.new(s, HList(out))
        return self.it.over(st, l, conv)

    def totext(self, st, e):
        if isinstance(e, E):
            if isinstance(e.v, Union):
                return E(e.g, self.mkunion([(g, self.it.rec(st, v).text) for g, v in e.v.alts]))
            return E(e.g, self.it.rec(st, e.v).text)
        if isinstance(e, ForE):
            return ForE(e.g, e.n, e.k, [self.totext(st, x) for x in e.es])
        raise Unsupported('texts')

    # ------------------------------------------------------------ loops

    def count_bound(self, st, n, s):
        it = self.it
        if it.spec_phase or self.obl is None:
            return
        if isinstance(n, int):
            ok = n <= 70000
        else:
            ok = self.cx.proved(st.pc, Or(simp(n <= 70000), *[simp(n <= b.L) for b in self.bases])) or any(
                self.cx.proved(st.pc, simp(n <= x)) for x in self.lens[-12:])
        self.obl('loop', 'bounded loop at line %d' % s.lineno, True if ok else None)

    def termination(self, st, s, rec):
        it = self.it
        if it.spec_phase or self.obl is None:
            return
        self.obl('loop', 'terminating loop at line %d' % s.lineno, self.variant(s, rec))

    def variant(self, s, rec):
        """Some variable grows in every iteration and is bounded by the data."""
        it = self.it
        side = rec.side
        if side.end is None:
            return True
        u = side.end.clone()
        try:
            go = it.truth(u, it.ev(u, s.test))
            if go is not True:
                it.assume(u, go)
        except Dead:
            return True
        pc = u.pc
        for c in rec.comps:
            for p, x in rec.psyms[c].items():
                y = side.parts.get(c, {}).get(p)
                if p == 'seq' or not isint(x) or not isint(y) or (isinstance(x, int) and isinstance(y, int)):
                    continue
                if not self.cx.proved(pc, simp(y > x)):
                    continue
                for b in self.bases:
                    if self.cx.proved(pc, simp(x < b.L + 16)):
                        return True
        return None

    # -- relations with the contract's loops

    def partner(self, oid):
        return self.partners.get(oid)

    def start_equal(self, st, mine, other, r):
        return self.comparer(st.pc, st, r.start, True).quiet(mine, other)

    def dict_start_equal(self, st, mine, other):
        if isinstance(mine, HDict):
            mine = self.asarr(mine)
        if isinstance(other, HDict):
            other = self.asarr(other)
        if len(mine.has) != len(other.has) or mine.has[0] != other.has[0] or len(mine.val) != len(other.val):
            return False
        if not all(self.proved_same(st, x, y) for x, y in zip(mine.has[1:], other.has[1:])):
            return False
        return all(self.proved_same(st, x, y) for x, y in zip(mine.val, other.val))

    def proved_same(self, st, a, b, heap=None):
        pc = st if isinstance(st, tuple) else st.pc
        f = same(self.cx, a, b)
        return f if isinstance(f, bool) else self.cx.proved(pc, f)

    def emissions_equal(self, pc, side, es, rside, res, name, sym=None):
        if es and isinstance(es[0], tuple) or res and isinstance(res[0], tuple):
            if len(es) != len(res):
                return False
            return all(self.proved_same(pc, x, y) for x, y in zip(es, res))
        weak = False
        if self.rel is not None and sym is not None:
            # what depends on the option is related, not equal
            weak = not self.comparer(pc, side.end, rside.end).quiet(es, res)
            (self.weaksyms.add if weak else self.weaksyms.discard)(sym.get_id())
        c = self.comparer(pc, side.end, rside.end, weak)
        if name is None or self.sink is None:
            return c.quiet(es, res)
        ch = self.channels.get(name[0], 'state') if self.rel is None else 'option'
        return c.named(es, res, self.sink, ch, self.paths.get(name[0], ()))
