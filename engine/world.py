"""What the path verifier assumes about the outside world: the file system, the
operating system, ElementTree, argparse, re, struct and text conversion are
uninterpreted functions with the facts stated here; callees that have contracts
of their own are replaced by them."""
import argparse
import binascii
import builtins
import codecs
import datetime
import decimal
import glob
import mmap
import os
import re
import struct
import sys
import types
import unicodedata
import xml.etree.ElementTree as StdET
from xml.dom import minidom

from .terms import T, mk, Not, And, Or, maybe, base
from .paths import (Paths, HL, HD, HElem, HObj, For, Exc, Raise, Closure, BoundFn, POISON, ERRORS, const, PYTYPE, NUM, Obj)
from .vals import Unsupported

# operations about which only congruence is known: a difference that rests on
# them is not firm
WEAK = frozenset((
    'filter', 'utf8', 'encoded', 'str_f', 'str_d', 'Decimal', 'feq', 'cmpLt', 'cmpLtE', 'char', 'slice', 'join', 'restlines', 'xml', 'pretty',
    'isoformat', 'search', 'group', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'startswith', 'endswith', 'split',
    'splitext', 'fsplit', 'parsefloat', 'parseint', 'round', 'trunc', 'numAdd', 'numSub', 'numMult', 'numDiv', 'numFloorDiv', 'numMod',
    'numPow', 'mul', 'abs', 'sorted', 'reversed', 'encodable', 'stampable', 'eqany', 'truth', 'unstable'))
Paths.WEAK = WEAK
DECLARATION = '<?xml version="1.0" ?>'


def steps(path):
    """Steps of an ElementPath."""
    out, cur, depth = [], '', 0
    for c in path:
        if c == '{':
            depth += 1
        elif c == '}':
            depth -= 1
        if c == '/' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur]


class File:
    """An open file."""
    def __init__(self, path):
        self.path = path


class Writer:
    """A stream whose output is kept as a list of texts."""
    def __init__(self, trace):
        self.trace = trace


class Buffer:
    def __init__(self, which):
        self.which = which


class World:
    def __init__(self, mods, faults=False):
        self.mods = mods              # the modules of the code and of the contracts
        self.faults = faults
        self.values = {}
        self.contracts = {}
        self.table = {}
        self.excs = {}
        self.out = self.err = None
        self.declared = []
        self.arguments = None
        self.files = tuple(getattr(m, '__file__', '') or '' for m in mods.values())
        self.fill()

    # ------------------------------------------------------------ set up

    def insidename(self, name):
        return name is not None and (name.split('.')[0] in ('jpylyzer', 'spec'))

    def inside(self, f):
        return self.insidename(getattr(f, '__module__', None))

    def start(self):
        """Before each path."""
        self.excs = {}
        self.out, self.err = self.p.lst(), self.p.lst()
        self.declared = []

    def fill(self):
        t = self.table
        m = self.mods
        fs = {'isfile': 'bool', 'isdir': 'bool', 'isabs': 'bool', 'abspath': 'str', 'basename': 'str', 'exists': 'bool', 'dirname': 'str',
              'normpath': 'str', 'realpath': 'str'}
        for n, ty in fs.items():
            t[getattr(os.path, n)] = self.path(n, ty)
        t[os.path.getsize] = self.size
        t[os.path.getmtime] = self.mtime
        t[os.path.join] = self.pjoin
        t[os.path.split] = self.psplit
        t[os.path.splitext] = self.psplitext
        t[os.walk] = self.walk
        t[glob.glob] = self.glob
        t[builtins.open] = self.open
        t[mmap.mmap] = self.mmap
        t[datetime.datetime.fromtimestamp] = self.fromtimestamp
        t[StdET.Element] = self.element
        t[StdET.SubElement] = self.subelement
        t[StdET.tostring] = self.tostring
        t[minidom.parseString] = self.parsestring
        t[codecs.getwriter] = self.getwriter
        t[sys.exit] = self.exit
        t[builtins.print] = self.print
        t[struct.unpack] = self.unpack
        t[binascii.hexlify] = self.hexlify
        t[re.search] = self.search
        t[decimal.Decimal] = self.decimal
        for n in ('len', 'str', 'int', 'float', 'bool', 'round', 'isinstance', 'type', 'list', 'tuple', 'dict', 'map', 'filter', 'sorted', 'reversed',
                  'any', 'all', 'range', 'enumerate', 'zip', 'iter', 'callable', 'getattr', 'hasattr', 'abs', 'frozenset', 'set'):
            t[getattr(builtins, n)] = getattr(self, 'b_' + n)
        t[int.from_bytes] = self.frombytes
        w = m['world']
        for n in ('isfile', 'isdir', 'isabs', 'abspath', 'basename'):
            t[getattr(w, n)] = t[getattr(os.path, n)]
        t[w.size], t[w.mtime], t[w.join], t[w.split] = self.size, self.mtime, self.pjoin, self.psplit
        t[w.glob], t[w.walk] = self.glob, self.walk
        t[w.opened] = lambda p: self.open(p, 'rb')
        t[w.mapped] = lambda f: self.mmap(('fileno', f), 0)
        t[w.analysed] = self.analysed
        t[w.readable] = self.readable
        t[w.mix_tree] = self.mix_tree
        t[w.selected] = self.selected
        t[w.report] = self.report
        t[w.xml] = lambda e: self.tostring(e, 'unicode', 'xml')
        t[w.pretty_xml] = lambda x: self.pretty(x, '    ')
        pr = m['prim']
        t[pr.find], t[pr.find_all] = self.find, self.findall
        t[pr.is_empty] = lambda e: Not(self.p.truth(e))
        t[pr.strip_nulls] = lambda b: self.method(b, 'rstrip', [b'\x00'], {})[0]
        rp = m['report']
        t[rp.find_ns] = lambda e, tags: self.find(e, '/'.join(tags))

    def use(self, *names):
        """Replaces functions of the code by their contracts."""
        all_ = {'etpatch.Element.makeHumanReadable': self.makeHumanReadable,
                'mix.Mix.generateMix': lambda o, props: self.mix_tree(props, o.d['mixFlag']),
                'jpylyzer.findFiles': self.findFiles,
                'jpylyzer.checkOneFile': self.checkOneFile,
                'jpylyzer.checkFiles': self.checkFiles,
                'jpylyzer.generatePropertiesRemapTable': lambda: self.p.lift(self.mods['report'].TABLE),
                'boxvalidator.BoxValidator': True,
                'boxvalidator.BoxValidator.validate': self.validate}
        for n in names:
            self.contracts[n] = all_[n]

    def pure(self, f):
        """May be called on constants."""
        return getattr(f, '__module__', None) in ('builtins', 'posixpath', 'unicodedata', 're', 'math', '_struct', 'binascii', 'genericpath') \
            and f not in (builtins.open, builtins.print, builtins.eval, builtins.exec, builtins.input, builtins.__import__, builtins.globals)

    # ------------------------------------------------------------ files

    def path(self, name, ty):
        def f(p):
            p = self.p.need(p)
            r = mk(name, (p,), ty)
            if name in ('isfile', 'isdir'):
                self.p.fact(Or(Not(mk('isfile', (p,), 'bool')), Not(mk('isdir', (p,), 'bool'))))
            if name == 'abspath':
                self.p.fact(mk('isabs', (r,), 'bool'))
            return r
        return f

    def size(self, p):
        r = mk('getsize', (self.p.need(p),), 'int')
        self.p.fact(mk('<=', (0, r), 'bool'))
        self.p.fact(Not(mk('longint', (r,), 'bool')))
        return r

    def mtime(self, p):
        return mk('getmtime', (self.p.need(p),), 'float')

    def pjoin(self, a, *bs):
        r = self.p.need(a)
        for b in bs:
            r = mk('pjoin', (r, self.p.need(b)), 'str')
        return r

    def psplit(self, p):
        p = self.p.need(p)
        a, b = mk('head', (p,), 'str'), mk('tail', (p,), 'str')
        star = lambda x: self.p.within('*', x)   # noqa: E731
        # no character of the name is lost
        self.p.fact(Or(Not(star(p)), star(a), star(b)))
        self.p.fact(Or(star(p), And(Not(star(a)), Not(star(b)))))
        return (a, b)

    def psplitext(self, p):
        p = self.p.need(p)
        if const(p):
            return os.path.splitext(p)
        a, b = mk('stem', (p,), 'str'), mk('ext', (p,), 'str')
        whole = mk('cat', (a, b), 'str')
        self.p.within('*', whole)
        self.p.fact(mk('=', (p, whole), 'bool'))
        for x in (a, b):
            self.p.fact(Or(Not(mk('=', (x, '*'), 'bool')), self.p.within('*', x)))
        return (a, b)

    def walk(self, p, **kw):
        if kw:
            raise Unsupported('os.walk options')
        p = self.p.need(p)
        r = mk('walk', (p,), ('seq', ('tuple', ('str', ('seq', 'str'), ('seq', 'str')))))
        # only a directory has contents
        self.p.fact(Or(mk('isdir', (p,), 'bool'), mk('=', (self.p.length(r), 0), 'bool')))
        return r

    def glob(self, p, **kw):
        if kw:
            raise Unsupported('glob options')
        return self.fresh(mk('glob', (self.p.need(p),), ('seq', 'str')))

    def fresh(self, seq):
        """A new list with these items."""
        return self.p.new(HL(self.p.generic(seq, base(seq.ty)[1])))

    def fault(self, point):
        """Where faults are considered: any error at this point."""
        if self.faults and self.p.decide(mk('fails', (point,), 'bool')):
            if point not in self.excs:
                self.excs[point] = Exc(ERRORS, (mk('message', (point,), 'str'),), point)
            raise Raise(self.excs[point])

    def open(self, p, mode='r', **kw):
        if mode != 'rb' or kw:
            raise Unsupported('open')
        self.fault('open')
        return File(self.p.need(p))

    def mmap(self, no, length, *a, **kw):
        if not (isinstance(no, tuple) and no[0] == 'fileno' and isinstance(no[1], File)) or length != 0:
            raise Unsupported('mmap')
        self.fault('mmap')
        return mk('contents', (no[1].path,), 'data')

    def dataeq(self, a, b):
        return False if isinstance(b, (str, bytes)) else mk('=', (a, b), 'bool')

    def fromtimestamp(self, t, *a):
        if a:
            raise Unsupported('fromtimestamp')
        if not const(t) and not self.p.decide(mk('stampable', (t,), 'bool')):
            if 'stamp' not in self.excs:
                self.excs['stamp'] = Exc((ValueError, OverflowError, OSError), (), 'stamp')
            raise Raise(self.excs['stamp'])
        return mk('datetime', (t,), 'obj')

    # ------------------------------------------------------------ elements

    def element(self, tag, attrib=None, **kw):
        return self.construct(StdET.Element, [tag] + ([attrib] if attrib is not None else []), kw)

    def subelement(self, parent, tag, attrib=None, **kw):
        e = self.element(tag, attrib, **kw)
        self.p.append(self.p.need(parent).kids, e)
        return e

    def construct(self, cls, args, kw):
        if issubclass(cls, StdET.Element) or cls is self.mods['prim'].Node:
            e = self.p.elem(args[0], cls)
            for d in args[1:]:
                if not isinstance(d, HD):
                    raise Unsupported('attributes')
                e.attrib.d.update(d.d)
            e.attrib.d.update(kw)
            return e
        if cls is self.mods['boxvalidator'].BoxValidator and 'boxvalidator.BoxValidator' in self.contracts:
            if kw or len(args) != 3 or not isinstance(args[0], HD):
                raise Unsupported('BoxValidator arguments')
            return self.p.new(HObj(cls, {'options': args[0], 'kind': args[1], 'data': args[2]}))
        if cls in (list, tuple, dict, str, int, float, bool, bytes, set, frozenset):
            return None
        return None

    def opaque(self, tag, term, cls=StdET.Element):
        """An element with known name and unknown contents."""
        e = self.p.elem(tag, cls)
        e.kids.segs = self.p.generic(mk('kids', (term,), ('seq', 'elem')), 'elem')
        return e

    def analysed(self, fmt, verbose, nullxml, packets, kind, data):
        """Contract of BoxValidator.validate (C01-C16)."""
        self.fault('analysis')
        k = (fmt, verbose, nullxml, packets, kind, data)
        cls = self.mods['etpatch'].Element
        o = self.p.new(HObj(self.mods['jp2'].Cx))
        o.d = {'isValid': mk('valid', k, 'bool')}
        o.d['valid'] = o.d['isValid']
        for n, c, tag in (('tests', 'tests', 'tests'), ('props', 'characteristics', 'properties'), ('warns', 'warnings', 'warnings')):
            o.d[n] = o.d[c] = self.opaque(tag, mk(n, k, 'elem'), cls)
        return o

    def validate(self, o):
        d = o.d['options'].d
        want = {'validationFormat', 'verboseFlag', 'nullxmlFlag', 'packetmarkersFlag'}
        if set(d) - want:
            raise Unsupported('options %s' % sorted(d))
        if set(d) != want:
            self.p.throw(KeyError)
        return self.analysed(d['validationFormat'], d['verboseFlag'], d['nullxmlFlag'], d['packetmarkersFlag'], o.d['kind'], o.d['data'])

    def tablekey(self, table):
        if table is None:
            return ()
        if not isinstance(table, HD):
            raise Unsupported('table')
        out = []
        for k, v in table.d.items():
            if not isinstance(v, HD) or not all(const(x) for x in v.d.values()):
                raise Unsupported('table')
            out.append((k, tuple(sorted(v.d.items(), key=repr))))
        return tuple(sorted(out, key=repr))

    def readable_(self, e, table, key):
        r = self.p.elem(e.tag, e.cls)
        r.text = self.spec_call(self.mods['report'].readable_value, [e.tag, e.text, table])
        r.attrib.d = dict(e.attrib.d)
        segs = []
        for s in self.p.read(e.kids):
            if isinstance(s, For):
                q = self.p.plain(s)
                if q is None or q.op != 'kids':
                    raise Unsupported('conversion of a list of elements')
                segs += self.p.generic(mk('kids', (mk('readable', (q.args[0], key), 'elem'),), q.ty), 'elem')
            elif isinstance(s[1], HElem):
                segs.append(('v', self.readable_(s[1], table, key)))
            else:
                raise Unsupported('conversion of an element')
        r.kids.segs = segs
        return r

    def spec_call(self, f, args):
        old, self.p.spec = self.p.spec, True
        try:
            return self.p.call(f, args, {})
        finally:
            self.p.spec = old

    def readable(self, e, table=None):
        """Contract of makeHumanReadable (C17): the converted tree."""
        if e.tag in ('tests', 'properties', 'warnings'):
            self.fault('conversion of ' + e.tag)
        if table is None:
            table = self.p.new(HD())
        return self.readable_(e, table, self.tablekey(table))

    def makeHumanReadable(self, e, remapTable=None):
        if not isinstance(e, HElem):
            raise Unsupported('conversion')
        r = self.readable(e, remapTable)
        self.p.setattr(e, 'text', r.text)
        self.p.setsegs(e.kids, r.kids.segs)

    def canon(self, v):
        """An object as an argument of an uninterpreted function."""
        if isinstance(v, HElem):
            return ('elem', self.canon(v.tag), self.canon(v.text), tuple(sorted((k, self.canon(x)) for k, x in v.attrib.d.items())),
                    self.canon(v.kids))
        if isinstance(v, HL):
            return tuple(self.canon(s) for s in v.segs)
        if isinstance(v, For):
            return ('for', v.seq, v.var, tuple((tuple(g), tuple(self.canon(s) for s in ss)) for g, ss in v.alts))
        if isinstance(v, tuple):
            return tuple(self.canon(x) for x in v)
        if isinstance(v, T) or const(v):
            return v
        raise Unsupported('argument')

    def mix_tree(self, props, version):
        """Contract of generateMix (C22)."""
        return self.opaque('mix:mix', mk('mix', (self.canon(props), version), 'elem'))

    def selected(self, recurse, paths):
        """Contract of findFiles (C20)."""
        return self.fresh(mk('selected', (recurse, paths), ('seq', 'str')))

    def findFiles(self, recurse, paths):
        l = self.p.modattr(self.mods['jpylyzer'], 'EXISTING_FILES')
        self.p.extend(l, self.selected(recurse, paths))

    def report(self, path, fmt, verbose, packets, nullxml, mix):
        """Contract of checkOneFile (C18)."""
        return self.opaque('file', mk('report', (path, fmt, verbose, packets, nullxml, mix), 'elem'))

    def checkOneFile(self, path, validationFormat=None, verboseFlag=None, packetmarkersFlag=None, nullxmlFlag=None, mixFlag=None):
        if None in (validationFormat, verboseFlag, packetmarkersFlag, nullxmlFlag, mixFlag):
            raise Unsupported('settings by default')
        return self.report(path, validationFormat, verboseFlag, packetmarkersFlag, nullxmlFlag, mixFlag)

    def checkFiles(self, recurse, paths):
        """Contract of checkFiles (C19): uses the settings of config as they are now."""
        c = self.mods['config']
        g = lambda n: self.p.modattr(c, n)   # noqa: E731
        self.checked.append({'recurse': recurse, 'paths': paths, 'fmt': g('VALIDATION_FORMAT'), 'mix': g('MIX_FLAG'), 'nopretty': g('NO_PRETTY_XML_FLAG'),
                             'nullxml': g('EXTRACT_NULL_TERMINATED_XML_FLAG'), 'packets': g('OUTPUT_PACKET_MARKERS_FLAG'),
                             'verbose': g('OUTPUT_VERBOSE_FLAG')})

    def nkids(self, e):
        r = mk('nkids', (e,), 'int')
        self.p.fact(mk('<=', (0, r), 'bool'))
        return r

    def kids(self, e):
        return mk('kids', (e,), ('seq', 'elem'))

    def find(self, e, path):
        e = self.p.need(e, AttributeError)
        if isinstance(e, HElem):
            l = self.findall(e, path)
            segs = self.p.read(l)
            if segs and isinstance(segs[0], For):
                raise Unsupported('find')
            return segs[0][1] if segs else None
        if not (isinstance(e, T) and base(e.ty) == 'elem' and isinstance(path, str)):
            raise Unsupported('find')
        return self.findterm(e, path)

    def findtext(self, e, path, default=None):
        x = self.find(e, path)
        if x is None or isinstance(x, T) and self.p.decide(mk('isnone', (x,), 'bool')):
            return default
        t = mk('text', (x,), ('maybe', 'str')) if isinstance(x, T) else x.text
        if t is None or isinstance(t, T) and isinstance(t.ty, tuple) and t.ty[0] == 'maybe' and self.p.decide(mk('isnone', (t,), 'bool')):
            return ''
        return t

    def findterm(self, e, path, again=True):
        t = mk('find', (e, path), ('maybe', 'elem'))
        st = steps(path)
        if '.' in st or '..' in st or '' in st or '*' in path or '[' in path:
            raise Unsupported('path ' + path)
        none = lambda x: mk('isnone', (x,), 'bool')   # noqa: E731
        self.p.fact(Or(none(t), mk('=', (self.tag(t), st[-1]), 'bool')))
        for i in range(1, len(st)):
            a = mk('find', (e, '/'.join(st[:i])), ('maybe', 'elem'))
            b = mk('find', (a, '/'.join(st[i:])), ('maybe', 'elem'))
            # first match along a path; it is below the first match of a part of the path if there is one there
            self.p.fact(Or(none(t), Not(none(a))))
            self.p.fact(Or(none(a), none(b), mk('=', tuple(sorted((t, b), key=lambda x: x.n)), 'bool')))
            self.p.fact(Or(none(t), Not(mk('=', (self.nkids(a), 0), 'bool'))))
        self.p.fact(Or(none(t), Not(mk('=', (self.nkids(e), 0), 'bool'))))
        if again and isinstance(e, T) and e.op == 'find':
            self.findterm(e.args[0], e.args[1] + '/' + path, False)
        return t

    def tag(self, e):
        return mk('tag', (e,), 'str')

    def findall(self, e, path):
        e = self.p.need(e, AttributeError)
        if isinstance(e, HElem):
            return self.p.new(HL(self.search_tree(e, path)))
        if not (isinstance(e, T) and base(e.ty) == 'elem' and isinstance(path, str)):
            raise Unsupported('findall')
        self.findterm(e, path)
        return self.fresh(mk('findall', (e, path), ('seq', 'elem')))

    def search_tree(self, e, path):
        if path.startswith('.//'):
            tag = path[3:]
            if '/' in tag or '*' in tag or '[' in tag:
                raise Unsupported('path')
            out = []

            def go(x):
                for s in self.p.read(x.kids):
                    if isinstance(s, For) or not isinstance(s[1], HElem) or not isinstance(s[1].tag, str):
                        raise Unsupported('search below unknown elements')
                    if s[1].tag == tag:
                        out.append(s)
                    go(s[1])
            go(e)
            return out
        cur = [('v', e)]
        for st in steps(path):
            if st in ('', '.', '..', '*') or '[' in st:
                raise Unsupported('path')
            nxt = []
            for s in cur:
                for k in self.p.read(s[1].kids):
                    if isinstance(k, For) or not isinstance(k[1], HElem) or not isinstance(k[1].tag, str):
                        raise Unsupported('search below unknown elements')
                    if k[1].tag == st:
                        nxt.append(k)
            cur = nxt
        return cur

    def tostring(self, e, encoding=None, method='xml', **kw):
        if encoding != 'unicode' or method != 'xml' or kw:
            raise Unsupported('tostring')
        return mk('xml', (self.canon(e),), 'str')

    def parsestring(self, x, *a):
        if a:
            raise Unsupported('parseString')
        return mk('dom', (x,), 'obj')

    def pretty(self, x, indent):
        return mk('pretty', (x, indent), 'str')

    # ------------------------------------------------------------ streams, program end

    def exit(self, code=None):
        raise Raise(Exc([SystemExit], (code,)))

    def getwriter(self, enc):
        if not isinstance(enc, str) or codecs.lookup(enc).name != 'utf-8':
            raise Unsupported('encoding')
        return lambda_(lambda b: Writer(self.out) if isinstance(b, Buffer) and b.which == 'stdout' else unsup('stream'))

    def print(self, *args, **kw):
        f = kw.pop('file', None)
        if kw:
            raise Unsupported('print')
        dest = self.err if f is sys.stderr else self.out
        parts = []
        for i, a in enumerate(args):
            parts += ([' '] if i else []) + [self.str_(a)]
        self.p.append(dest, self.p.cat(parts + ['\n']))

    def enter(self, v):
        if isinstance(v, File):
            return v
        raise Unsupported('with')

    # ------------------------------------------------------------ facts on sequences

    def lenfacts(self, v, n):
        one = lambda c: mk('=', (n, c), 'bool')   # noqa: E731
        if v.op == 'findall':
            f = mk('isnone', (mk('find', v.args, ('maybe', 'elem')),), 'bool')
            self.p.fact(Or(And(f, one(0)), And(Not(f), Not(one(0)))))
        elif v.op == 'split':
            self.p.fact(Not(one(0)))
        elif v.op == 'sorted' or v.op == 'reversed':
            self.p.fact(mk('=', (n, mk('len', (v.args[0],), 'int')), 'bool'))
        elif v.op == 'kids':
            self.p.fact(mk('=', (n, self.nkids(v.args[0])), 'bool'))

    def elemfacts(self, seq, g):
        if seq.op == 'findall':
            self.p.fact(mk('=', (self.tag(g), steps(seq.args[1])[-1]), 'bool'))
            if g.op == 'item' and g.args[1] == 0:
                f = mk('find', seq.args, ('maybe', 'elem'))
                self.p.fact(Or(mk('isnone', (f,), 'bool'), mk('=', (f, g), 'bool')))

    def parts(self, v):
        return tuple(mk('part', (v, i), ty) for i, ty in enumerate(base(v.ty)[1]))

    # ------------------------------------------------------------ attributes and methods

    def attr(self, o, name):
        p = self.p
        if isinstance(o, T):
            t = base(o.ty)
            if t == 'elem':
                if name == 'text':
                    return (mk('text', (o,), ('maybe', 'str')),)
                if name == 'tag':
                    return (self.tag(o),)
                if name == 'attrib':
                    return (mk('attrib', (o,), 'attrib'),)
                if name == 'kids':
                    return (self.kids(o),)
            return None
        if isinstance(o, HObj):
            return None
        if o is sys.stdout and name == 'buffer':
            return (Buffer('stdout'),)
        if isinstance(o, argparse.ArgumentParser):
            return None
        return None

    def method(self, o, name, args, kw):
        p = self.p
        if isinstance(o, HElem):
            return self.elemmethod(o, name, args, kw)
        if isinstance(o, File):
            if name == 'fileno':
                return (('fileno', o),)
            if name == 'read' and not args:
                self.fault('read')
                return (mk('bytesof', (o.path,), 'bytes'),)
            if name == 'close':
                return (None,)
            raise Unsupported('file')
        if isinstance(o, Writer):
            if name == 'write':
                p.append(o.trace, p.need(args[0]))
                return (None,)
            if name == 'flush':
                return (None,)
        if o is sys.stderr and name in ('write', 'flush'):
            if name == 'write':
                p.append(self.err, p.need(args[0]))
            return (None,)
        if isinstance(o, argparse.ArgumentParser):
            return self.parser(name, args, kw)
        if isinstance(o, HObj):
            return None
        if isinstance(o, str) and name == 'join':
            return (self.join(o, args[0]),)
        if isinstance(o, str) and name == 'format' and not kw:
            return (self.format(o, args),)
        if isinstance(o, T):
            return self.termmethod(p.need(o, AttributeError), name, args, kw)
        if const(o) and isinstance(o, str) and any(isinstance(a, T) for a in args):
            return self.termmethod(o, name, args, kw)
        return None

    def format(self, f, args):
        parts = f.split('{}')
        if '{' in ''.join(parts) or '}' in ''.join(parts) or len(parts) != len(args) + 1:
            raise Unsupported('format')
        out = [parts[0]]
        for a, s in zip(args, parts[1:]):
            out += [self.str_(a), s]
        return self.p.cat(out)

    def elemmethod(self, o, name, args, kw):
        p = self.p
        if name == 'append':
            c = p.need(args[0])
            if not (isinstance(c, HElem) or isinstance(c, T) and base(c.ty) == 'elem'):
                p.throw(TypeError)
            p.append(o.kids, c)
            return (None,)
        if name == 'extend':
            p.extend(o.kids, args[0])
            return (None,)
        if name == 'insert' and isinstance(args[0], int):
            return (p.listmethod(o.kids, 'insert', args, kw),)
        if name == 'set':
            p.setkey(o.attrib, args[0], args[1])
            return (None,)
        if name == 'get':
            return (p.dictmethod(o.attrib, 'get', args, kw),)
        if name == 'find' and not kw and len(args) == 1:
            return (self.find(o, args[0]),)
        if name == 'findall' and not kw and len(args) == 1:
            return (self.findall(o, args[0]),)
        if name == 'iter' and not args and not kw:
            return (self.iterate(o),)
        if name == 'findtext' and not kw and len(args) in (1, 2):
            return (self.findtext(o, *args),)
        if name in dir(StdET.Element):
            raise Unsupported('Element.' + name)
        p.throw(AttributeError)

    def iterate(self, o):
        raise Unsupported('iter')

    def termmethod(self, o, name, args, kw):
        p = self.p
        t = base(o.ty) if isinstance(o, T) else 'str'
        if t == 'elem':
            if name == 'find' and len(args) == 1 and not kw:
                return (self.find(o, args[0]),)
            if name == 'findall' and len(args) == 1 and not kw:
                return (self.findall(o, args[0]),)
            if name == 'findtext' and len(args) in (1, 2) and not kw:
                return (self.findtext(o, *args),)
            if name == 'get':
                return (self.attribute(o, args),)
            raise Unsupported('Element.' + name)
        if t == 'attrib':
            if name == 'get':
                return (self.attribute(o.args[0], args),)
            raise Unsupported('attributes')
        if t == 'data':
            if name == 'close':
                return (None,)
            raise Unsupported('contents')
        if t == 'str':
            return (self.strmethod(o, name, args, kw),)
        if t == 'bytes':
            if name == 'decode':
                return (self.decode(o, *args, **kw),)
            if name == 'rstrip' and args == [b'\x00'] and not kw:
                return (mk('strip0', (o,), 'bytes'),)
            if name == 'hex' and not args:
                return (mk('hextext', (o,), 'str'),)
            raise Unsupported('bytes.' + name)
        if t == 'match':
            if name == 'group' and len(args) == 1:
                return (mk('group', (o, args[0]), 'str'),)
            if name == 'groups' and not args:
                n = re.compile(o.args[0]).groups
                return (tuple(mk('group', (o, i + 1), 'str') for i in range(n)),)
        if t == 'obj' and o.op == 'dom' and name == 'toprettyxml':
            a = list(args)
            if 'indent' in kw:
                a.append(kw.pop('indent'))
            if kw or len(a) != 1 or not isinstance(a[0], str):
                raise Unsupported('toprettyxml')
            return (self.pretty(o.args[0], a[0]),)
        if t == 'obj' and o.op == 'datetime' and name == 'isoformat' and not args:
            return (mk('isoformat', o.args, 'str'),)
        if isinstance(t, tuple) and t[0] == 'seq':
            return (p.listmethod(p.new(HL(p.generic(o, t[1]), 'frozen')), name, args, kw),)
        raise Unsupported('method %s of %s' % (name, t))

    def attribute(self, e, args):
        r = mk('attr', (e, args[0]), ('maybe', 'str'))
        if len(args) > 1 and args[1] is not None:
            return args[1] if self.p.decide(self.p.isnone(r)) else r
        return r

    def strmethod(self, o, name, args, kw):
        p = self.p
        if name == 'encode':
            return self.encode(o, *args, **kw)
        if kw:
            raise Unsupported('str.' + name)
        args = [p.need(a) for a in args]
        if name == 'join':
            raise Unsupported('join')
        if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'casefold', 'title', 'expandtabs', 'zfill'):
            if not all(const(a) for a in args):
                raise Unsupported('str.' + name)
            if name == 'strip' and not args and isinstance(o, T) and o.op == 'strip' and len(o.args) == 1:
                return o
            return mk(name, (o,) + tuple(args), 'str')
        if name in ('startswith', 'endswith') and len(args) == 1:
            return mk(name, (o, args[0]), 'bool')
        if name == 'split' and args == ['\n'] and isinstance(o, T) and o.op == 'pretty':
            return self.p.new(HL([('v', DECLARATION)] + self.p.generic(self.restlines(o), 'str')))
        if name == 'split' and len(args) == 1:
            return self.fresh(mk('split', (o, args[0]), ('seq', 'str')))
        if name == 'split' and len(args) == 2 and args[1] == 1 and args[0] == '\n':
            return self.lines(o)
        if name in ('index', 'find') and args == ['\n'] and isinstance(o, T) and o.op == 'pretty':
            self.restlines(o)
            return len(DECLARATION)
        if name == 'partition' and args == ['\n'] and isinstance(o, T) and o.op == 'pretty':
            return (DECLARATION, '\n', self.afterfirst(o))
        if name in ('splitlines', 'split'):
            return self.fresh(mk(name, (o,) + tuple(args), ('seq', 'str')))
        if name in ('isdigit', 'isalpha', 'isspace', 'isupper', 'islower', 'isnumeric', 'isdecimal', 'isprintable'):
            return mk(name, (o,), 'bool')
        raise Unsupported('str.' + name)

    def restat(self):
        return len(DECLARATION) + 1

    def afterfirst(self, s):
        return self.join('\n', self.p.new(HL(self.p.generic(self.restlines(s), 'str'))))

    def restlines(self, s):
        """Lines of a pretty-printed document after its first line, the declaration."""
        self.p.assumptions.add('minidom.toprettyxml: the first line is the XML declaration')
        return mk('restlines', (s,), ('seq', 'str'))

    def lines(self, s):
        if not (isinstance(s, T) and s.op == 'pretty'):
            raise Unsupported('split')
        # there is more than one line
        return self.p.lst([DECLARATION, self.afterfirst(s)])

    def encode(self, o, encoding='utf-8', errors='strict'):
        if not (isinstance(encoding, str) and codecs.lookup(encoding).name == 'utf-8'):
            raise Unsupported('encoding')
        if errors == 'strict':
            if not self.p.decide(mk('encodable', (o,), 'bool')):
                self.p.throw(UnicodeEncodeError)
            return mk('encoded', (o, 'strict'), 'bytes')
        return mk('encoded', (o, errors), 'bytes')

    def decode(self, o, encoding='utf-8', errors='strict'):
        if not (isinstance(encoding, str) and isinstance(errors, str)):
            raise Unsupported('encoding')
        e = codecs.lookup(encoding).name
        if errors == 'strict':
            if not self.p.decide(mk('decodable', (o, e), 'bool')):
                self.p.throw(UnicodeDecodeError)
        if isinstance(o, T) and o.op == 'encoded' and o.args[1] == 'strict' and e == 'utf-8':
            return o.args[0]
        return mk('utf8', (o, e, errors), 'str')

    def join(self, sep, v):
        p = self.p
        segs = p.segs(v)
        if not any(isinstance(s, For) for s in segs):
            out = []
            for i, s in enumerate(segs):
                if i:
                    out.append(sep)
                x = p.need(s[1])
                if p.ty(x) != 'str':
                    p.throw(TypeError)
                out.append(x)
            return p.cat(out)
        if len(segs) == 1:
            q = p.plain(segs[0])
            if q is not None and q.op == 'chars' and sep == '':
                return q.args[0]
        t = mk('join', (sep, tuple(self.canon(s) for s in segs)), 'str')
        p.joins[t] = segs
        return t

    # ------------------------------------------------------------ built-in functions

    def b_len(self, v):
        v = self.p.need(v)
        if isinstance(v, T) and base(v.ty) == 'elem':
            return self.nkids(v)
        if isinstance(v, T) and base(v.ty) in ('bool', 'int', 'float'):
            self.p.throw(TypeError)
        return self.p.length(v)

    def str_(self, v):
        return self.b_str(v)

    def b_str(self, v='', *a):
        p = self.p
        if a:
            raise Unsupported('str')
        if v is POISON:
            raise Unsupported(repr(v))
        if isinstance(v, T):
            if maybe(v.ty):
                if p.decide(p.isnone(v)):
                    return 'None'
            t = base(v.ty)
            if t == 'bool':
                return 'True' if p.decide(v) else 'False'
            if t == 'str':
                return v
            if t == 'int':
                # the interpreter refuses to convert integers with too many digits
                if v.op != 'trunc' and p.decide(mk('longint', (v,), 'bool')):
                    p.throw(ValueError)
                return mk('str_i', (v,), 'str')
            if t == 'float':
                return mk('str_f', (v,), 'str')
            if t == 'decimal':
                return mk('str_d', (v,), 'str')
            raise Unsupported('str of %s' % (t,))
        if isinstance(v, Exc):
            if len(v.args) == 1:
                return self.b_str(v.args[0])
            raise Unsupported('str of an exception')
        if const(v):
            return p.real(lambda: str(v))
        raise Unsupported('str')

    def b_int(self, v=0, *a):
        p = self.p
        v = p.need(v)
        if a:
            if isinstance(v, T) and v.op in ('hexlify', 'hextext') and a == (16,):
                return self.unhex(v.args[0])
            if const(v) and const(a):
                return p.real(lambda: int(v, *a))
            raise Unsupported('int')
        if isinstance(v, T):
            t = base(v.ty)
            if t == 'int':
                return v
            if t == 'bool':
                return mk('ite', (v, 1, 0), 'int')
            if t == 'float':
                return mk('trunc', (v,), 'int')
            if t == 'str':
                if not p.decide(mk('isint', (v,), 'bool')):
                    p.throw(ValueError)
                return mk('parseint', (v,), 'int')
            raise Unsupported('int')
        return p.real(lambda: int(v))

    def unhex(self, b):
        """int(hexlify(b), 16)"""
        if not self.p.decide(Not(mk('=', (self.p.length(b), 0), 'bool'))):
            self.p.throw(ValueError)
        return self.frombytes(b, 'big')

    def frombytes(self, b, order='big', signed=False):
        if order != 'big' or signed is not False:
            raise Unsupported('from_bytes')
        if const(b):
            return int.from_bytes(b, 'big')
        return mk('be', (b,), 'int')

    def hexlify(self, b, *a):
        if a or not isinstance(b, T):
            raise Unsupported('hexlify')
        return mk('hexlify', (b,), 'bytes')

    def unpack(self, f, b):
        p = self.p
        if const(f) and const(b):
            return p.real(lambda: struct.unpack(f, b))
        if not isinstance(f, str) or p.ty(b) != 'bytes':
            raise Unsupported('unpack')
        if f[:1] not in ('>', '!') or len(f) != 2 or f[1] not in 'QIHBLbhiqlx':
            raise Unsupported('unpack')
        n = struct.calcsize(f)
        if not p.decide(mk('=', (p.length(b), n), 'bool')):
            p.throw(struct.error)
        if f[1] in 'QIHBL':
            return (self.frombytes(b, 'big'),)
        if f[1] == 'b':
            x = p.index(b, 0)
            return (mk('-', (x, 256), 'int') if p.decide(mk('<', (127, x), 'bool')) else x,)
        raise Unsupported('unpack')

    def b_float(self, v=0.0):
        p = self.p
        v = p.need(v)
        if isinstance(v, T):
            t = base(v.ty)
            if t == 'float':
                return v
            if t == 'str':
                if not p.decide(mk('isfloat', (v,), 'bool')):
                    p.throw(ValueError)
                return mk('parsefloat', (v,), 'float')
            raise Unsupported('float')
        return p.real(lambda: float(v))

    def b_bool(self, v=False):
        return self.p.truth(v)

    def b_round(self, v, n=None):
        v = self.p.need(v)
        if isinstance(v, T):
            if base(v.ty) == 'int':
                return v
            # no digits: the same value, as an integer or as a float
            r = mk('round', (v, n or 0), 'float')
            return r if n is not None else mk('trunc', (r,), 'int')
        return self.p.real(lambda: round(v, n))

    def b_abs(self, v):
        if isinstance(v, T):
            return mk('abs', (v,), base(v.ty))
        return abs(v)

    def b_isinstance(self, v, c):
        p = self.p
        if isinstance(c, tuple):
            return Or(*[self.b_isinstance(v, x) for x in c])
        if not isinstance(c, type):
            raise Unsupported('isinstance')
        if isinstance(v, Exc):
            return p.matches(v, c)
        if isinstance(v, T):
            t = base(v.ty)
            if t not in PYTYPE:
                raise Unsupported('isinstance')
            return And(Not(p.isnone(v)), issubclass(PYTYPE[t], c))
        for k, h in ((list, HL), (dict, HD)):
            if isinstance(v, h):
                return issubclass(k, c)
        if isinstance(v, (HElem, HObj)):
            return issubclass(v.cls, c)
        if const(v):
            return isinstance(v, c)
        raise Unsupported('isinstance')

    def b_type(self, v):
        p = self.p
        if isinstance(v, T):
            if maybe(v.ty) and p.decide(p.isnone(v)):
                return type(None)
            t = base(v.ty)
            if t not in PYTYPE:
                raise Unsupported('type')
            return PYTYPE[t]
        if isinstance(v, (HElem, HObj)):
            return v.cls
        if isinstance(v, HL):
            return list
        if isinstance(v, HD):
            return dict
        if const(v):
            return type(v)
        raise Unsupported('type')

    def b_list(self, v=()):
        return self.p.new(HL(self.p.segs(v)))

    def b_tuple(self, v=()):
        segs = self.p.segs(v)
        if any(isinstance(s, For) for s in segs):
            return self.p.new(HL(segs))
        return tuple(s[1] for s in segs)

    def b_iter(self, v):
        return v

    def b_set(self, v=()):
        segs = self.p.segs(v)
        if any(isinstance(s, For) or not const(s[1]) for s in segs):
            raise Unsupported('set')
        return frozenset(s[1] for s in segs)

    b_frozenset = b_set

    def b_dict(self, *a, **kw):
        d = self.p.new(HD())
        if a:
            if isinstance(a[0], HD):
                d.d.update(a[0].d)
            else:
                for s in self.p.segs(a[0]):
                    if isinstance(s, For):
                        raise Unsupported('dict')
                    k, v = self.p.unpack(s[1], 2)
                    if not const(k):
                        raise Unsupported('dict')
                    d.d[k] = v
        d.d.update(kw)
        return d

    def loop(self, segs, f):
        """New list: f(item, result list) for every item."""
        from .paths import Frame
        out = self.p.lst()
        fr = Frame({}, {}, None, ())
        self.p.each(segs, lambda v: f(v, out), fr, ())
        return out

    def b_map(self, f, *vs):
        if len(vs) != 1:
            raise Unsupported('map')
        return self.loop(self.p.segs(vs[0]), lambda v, out: self.p.append(out, self.p.call(f, [v], {})))

    def b_filter(self, f, v):
        def one(x, out):
            if self.p.test(x if f is None else self.p.call(f, [x], {})):
                self.p.append(out, x)
        return self.loop(self.p.segs(v), one)

    def b_sorted(self, v, **kw):
        segs = self.p.segs(v)
        if not kw and not any(isinstance(s, For) for s in segs) and all(const(s[1]) for s in segs):
            return self.p.lst(sorted(s[1] for s in segs))
        if not kw and len(segs) == 1 and self.p.plain(segs[0]) is not None:
            q = self.p.plain(segs[0])
            return self.fresh(mk('sorted', (q,), q.ty))
        raise Unsupported('sorted')

    def b_reversed(self, v):
        segs = self.p.segs(v)
        if not any(isinstance(s, For) for s in segs):
            return self.p.new(HL(segs[::-1]))
        if len(segs) == 1 and self.p.plain(segs[0]) is not None:
            q = self.p.plain(segs[0])
            return self.fresh(mk('reversed', (q,), q.ty))
        raise Unsupported('reversed')

    def b_any(self, v):
        segs = self.p.segs(v)
        if any(isinstance(s, For) for s in segs):
            raise Unsupported('any')
        return Or(*[self.p.truth(s[1]) for s in segs])

    def b_all(self, v):
        segs = self.p.segs(v)
        if any(isinstance(s, For) for s in segs):
            raise Unsupported('all')
        return And(*[self.p.truth(s[1]) for s in segs])

    def b_range(self, *a):
        if not all(isinstance(x, int) for x in a):
            raise Unsupported('range')
        return range(*a)

    def b_enumerate(self, v, start=0):
        segs = self.p.segs(v)
        if any(isinstance(s, For) for s in segs):
            raise Unsupported('enumerate')
        return self.p.lst([(i, s[1]) for i, s in enumerate(segs, start)])

    def b_zip(self, *vs):
        ss = [self.p.segs(v) for v in vs]
        if any(isinstance(s, For) for x in ss for s in x):
            raise Unsupported('zip')
        return self.p.lst([tuple(s[1] for s in t) for t in zip(*ss)])

    def b_callable(self, v):
        return callable(v)

    def b_getattr(self, o, name, *d):
        if not isinstance(name, str):
            raise Unsupported('getattr')
        if d:
            raise Unsupported('getattr')
        return self.p.attr(o, name)

    def b_hasattr(self, o, name):
        raise Unsupported('hasattr')

    def decimal(self, v):
        if isinstance(v, T) and base(v.ty) in ('int', 'bool', 'float'):
            return mk('Decimal', (v,), 'decimal')
        raise Unsupported('Decimal')

    def search(self, pat, s, *a):
        p = self.p
        s = p.need(s)
        if a or not isinstance(pat, str):
            raise Unsupported('re.search')
        if const(s):
            raise Unsupported('re.search')
        if p.decide(mk('isnone', (mk('search', (pat, s), ('maybe', 'match')),), 'bool')):
            return None
        return mk('search', (pat, s), 'match')

    # ------------------------------------------------------------ argparse

    def parser(self, name, args, kw):
        if name == 'add_argument':
            if not all(isinstance(a, str) for a in args):
                raise Unsupported('add_argument')
            self.declared.append((tuple(args), kw))
            return (None,)
        if name == 'parse_args' and not args and not kw:
            if self.arguments is None:
                raise Unsupported('parse_args')
            return (self.arguments(self.declared),)
        if name in ('print_help', 'print_usage'):
            self.p.append(self.out, mk('help', (), 'str'))
            return (None,)
        if name == 'error':
            self.p.append(self.err, self.p.cat(['error: ', args[0]]))
            self.exit(2)
        raise Unsupported('argparse')


class lambda_:
    """A function of the outside world as a value."""
    def __init__(self, f):
        self.f = f
        self.external = True

    def __call__(self, *a, **k):
        return self.f(*a, **k)


def unsup(why):
    raise Unsupported(why)
