"""Proofs of the report layer (C17-C22): one job per function and setting."""
import multiprocessing as mp
import os
import sys
import time
import traceback
import types
from multiprocessing.connection import wait

from . import prove
from .paths import Paths, Raise, HL, HD, HElem, HObj, For, Exc, POISON, show, Frame, assigned, const
from .terms import T, mk, Not, Or, And
from .vals import Unsupported
from .world import World

TYPES = ('none', 'bool', 'int', 'float', 'str', 'bytes')
BYTES = (('bytesToULongLong', 'uint', 8), ('bytesToUInt', 'uint', 4), ('bytesToUShortInt', 'uint', 2), ('bytesToUnsignedChar', 'uint', 1),
         ('bytesToSignedChar', 'sint8', None), ('bytesToInteger', 'anyint', None), ('bytesToText', 'utf8clean', None),
         ('removeNullTerminator', 'strip_nulls', None))


def modules():
    from harness import judge
    judge.mods()
    prove.load()
    import spec.prim
    import spec.jp2
    import spec.report
    import spec.cli
    import spec.world
    out = {n: sys.modules['jpylyzer.' + n] for n in ('jpylyzer', 'etpatch', 'byteconv', 'mix', 'config', 'shared', 'boxvalidator')}
    out.update(prim=spec.prim, jp2=spec.jp2, report=spec.report, cli=spec.cli, world=spec.world)
    return out


MIX = [('mix', v, x) for v in (1, 2) for x in ('whole', 'object', 'image', 'capture', 'assessment', 'value')]


def jobs(prop):
    if prop == 'C17':
        return [('table',), ('removeControlCharacters',)] + [('bytes', b[0]) for b in BYTES] + \
            [('readable', t, r) for t in TYPES for r in (True, False)]
    if prop == 'C18':
        return [('report', f) for f in ('jp2', 'jph', 'j2c', 'jhc')] + [('surrogates',)]
    if prop == 'C19':
        return [('batch',)]
    if prop == 'C20':
        return [('select',)]
    if prop == 'C21':
        return [('options',), ('main',), ('batch',)]
    if prop == 'C22':
        return MIX
    if prop == 'C14':
        return [('report', f) for f in ('jp2', 'jph', 'j2c', 'jhc')] + [('surrogates',)] + MIX + [('readable', t, True) for t in TYPES] + \
            [('bytes', b[0]) for b in BYTES] + [('removeControlCharacters',), ('table',)]
    if prop == 'C16':
        return [('report', f) for f in ('jp2', 'jph', 'j2c', 'jhc')]
    if prop == 'C23':
        return [('table',)] + MIX + [('report', f) for f in ('jp2', 'jph', 'j2c', 'jhc')] + [('readable', t, True) for t in TYPES]
    return []


class Generic:
    pass


class OneWorld(World):
    """iter() of the tree under conversion gives one generic element."""
    def iterate(self, o):
        return self.all if o is self.root else World.iterate(self, o)


class OnePaths(Paths):
    """A loop over all elements of a tree: one round for a generic element."""
    def s_For(self, s, fr):
        it = self.expr(s.iter, fr)
        if it is not self.world.all:
            return self.loop_over(s, fr, it)
        names = assigned(s.body) | assigned([s.target])

        def poison():
            for n in names:
                if n in fr.locals:
                    fr.vars[n] = POISON
        poison()
        self.rounds += 1
        self.assign(s.target, self.world.element_, fr)
        from .paths import ContinueX, BreakX, ReturnX
        try:
            self.stmts(s.body, fr)
        except ContinueX:
            pass
        except (BreakX, ReturnX):
            raise Unsupported('the loop over all elements is left')
        poison()

    def loop_over(self, s, fr, it):
        import ast
        # the iterable has been evaluated already
        fr.vars[' it'] = it
        n = ast.For(target=s.target, iter=ast.Name(id=' it', ctx=ast.Load()), body=s.body, orelse=s.orelse)
        Paths.s_For(self, n, fr)


class Job:
    def __init__(self, mods, job, seconds=120):
        self.m, self.job = mods, job
        self.error = None
        self.seconds = seconds

    def make(self, world, cls=Paths):
        self.w = world
        self.p = cls(world)
        self.p.until = time.time() + self.seconds
        return world, self.p

    def code(self, f, args, name):
        """Result of a function of the code; an exception is a failed obligation."""
        self.p.spec = False
        try:
            r = self.p.call(f, args, {})
            self.p.ob(name + ' does not raise', True)
            return r
        except Raise as e:
            if e.exc.classes == {SystemExit}:
                raise
            self.p.differ(name + ' does not raise', repr(e.exc))
            raise Stop()

    def contract(self, f, args):
        self.p.spec = True
        try:
            return self.p.call(f, args, {})
        finally:
            self.p.spec = False

    def frame(self, name, allowed=()):
        """No state of the modules has changed."""
        p = self.p
        bad = ['%s.%s' % (m, k) for m, h in p.mods.items() for k in h.d]
        for (m, n), o in p.globals_.items():
            if n in allowed or not m.startswith('jpylyzer'):
                continue
            v = sys.modules[m].__dict__[n]
            if not self.unchanged(o, v):
                bad.append(m + '.' + n)
        p.ob(name + ' changes no state of the program', not bad, True, 'changed: ' + ', '.join(bad))

    def unchanged(self, o, v):
        if isinstance(o, HL):
            return isinstance(v, list) and len(o.segs) == len(v) and all(not isinstance(s, For) and self.unchanged(s[1], x) for s, x in zip(o.segs, v))
        if isinstance(o, HD):
            return isinstance(v, dict) and set(o.d) == set(v) and all(self.unchanged(o.d[k], v[k]) for k in v)
        return o is v or o == v

    def run(self):
        t0 = time.time()
        self.p = None
        try:
            getattr(self, 'j_' + self.job[0])(*self.job[1:])
        except Unsupported as e:
            self.error = 'outside the verifier: %s' % e
        except RecursionError:
            self.error = 'recursion'
        self.wall = time.time() - t0
        return self

    # ------------------------------------------------------------ C17

    def j_table(self):
        w, p = self.make(World(self.m))

        def product():
            w.start()
            a = self.code(self.m['jpylyzer'].generatePropertiesRemapTable, [], 'generatePropertiesRemapTable')
            p.value(a, p.lift(self.m['report'].TABLE), 'generatePropertiesRemapTable')
            self.frame('generatePropertiesRemapTable')
        self.prove(product)

    def prove(self, product):
        def run():
            try:
                product()
            except Stop:
                pass
        self.p.prove(run)

    def j_bytes(self, name):
        w, p = self.make(World(self.m))
        prim, n = [b[1:] for b in BYTES if b[0] == name][0]
        f = getattr(self.m['byteconv'], name, None)
        if f is None:
            raise Unsupported('no function ' + name)

        def product():
            w.start()
            b = mk('bytes', (), 'bytes')
            a = self.code(f, [b], name)
            s = self.contract(getattr(self.m['prim'], prim), [b] + ([n] if n else []))
            p.value(a, s, name)
        self.prove(product)

    def j_removeControlCharacters(self):
        w, p = self.make(World(self.m))
        f = self.m['byteconv'].removeControlCharacters

        def product():
            w.start()
            s = mk('text', (), 'str')
            p.value(self.code(f, [s], 'removeControlCharacters'), self.contract(self.m['prim'].clean, [s]), 'removeControlCharacters')
        self.prove(product)

    def j_readable(self, ty, remap):
        w, p = self.make(OneWorld(self.m), OnePaths)
        el = self.m['etpatch'].Element
        tags = list(self.m['report'].TABLE) + ['']

        def product():
            w.start()
            p.rounds = 0
            tag = tags[p.pick(len(tags))] if remap else ''
            if tag == '':
                # any other name
                tag = mk('name', (), 'str')
                for t in tags[:-1]:
                    p.assume(Not(mk('=', (tag, t), 'bool')))
            v = None if ty == 'none' else mk('value', (), ty)
            e = w.element_ = p.elem(tag)
            e.text = v
            e.attrib.d['a'] = mk('attribute', (), 'str')
            kid = p.elem('kid')
            e.kids.segs = [('v', kid)]
            root = w.root = p.elem('properties', el)
            w.all = Generic()
            table = p.lift(self.m['report'].TABLE) if remap else None
            f = p.attr(root, 'makeHumanReadable')
            self.code(f, [table] if remap else [], 'makeHumanReadable')
            name = 'makeHumanReadable of %s' % ty
            p.ob(name + ': all elements are converted', p.rounds == 1, True, '%d rounds' % p.rounds)
            t2 = p.lift(self.m['report'].TABLE if remap else {})
            want = self.contract(self.m['report'].readable_value, [tag, v, t2])
            p.value(e.text, want, name)
            p.ob(name + ': nothing else changes', e.tag is tag and list(e.attrib.d) == ['a'] and e.attrib.d['a'] is mk('attribute', (), 'str')
                 and e.kids.segs == [('v', kid)] and kid.text is None and not kid.kids.segs and not root.kids.segs and root.text is None
                 and root.tag == 'properties', True, 'another part of the tree changes')
            if remap:
                p.value(table, p.lift(self.m['report'].TABLE), name + ': table')
            self.frame(name)
        self.prove(product)

    # ------------------------------------------------------------ C18

    def j_surrogates(self):
        w, p = self.make(World(self.m))
        f = getattr(self.m['jpylyzer'], 'stripSurrogatePairs', None)

        def product():
            if f is None:
                return p.ob('stripSurrogatePairs is checked within checkOneFile', True)
            w.start()
            s = mk('name', (), 'str')
            p.value(self.code(f, [s], 'stripSurrogatePairs'), self.contract(self.m['report'].no_surrogates, [s]), 'stripSurrogatePairs')
            self.frame('stripSurrogatePairs')
        self.prove(product)

    def j_report(self, fmt):
        try:
            return self.report(fmt, True)
        except Unsupported:
            return self.report(fmt, False)

    def report(self, fmt, split):
        w, p = self.make(World(self.m, faults=True))
        w.met = set()
        w.use('etpatch.Element.makeHumanReadable', 'mix.Mix.generateMix', 'boxvalidator.BoxValidator', 'boxvalidator.BoxValidator.validate',
              'jpylyzer.generatePropertiesRemapTable')
        if split:
            if not hasattr(self.m['jpylyzer'], 'stripSurrogatePairs'):
                raise Unsupported('no function stripSurrogatePairs')

            def clean(s):
                return mk('encodable part', (p.need(s),), 'str')

            def code(s):
                w.met.add('surrogates')
                return clean(s)
            w.contracts['jpylyzer.stripSurrogatePairs'] = code
            w.table[self.m['report'].no_surrogates] = clean

        def product():
            w.start()
            w.met.clear()
            path = mk('path', (), 'str')
            v, k, n = (mk(x, (), 'bool') for x in ('verbose', 'packets', 'nullxml'))
            mix = mk('mixflag', (), 'int')
            p.assume(Or(*[mk('=', (mix, i), 'bool') for i in (0, 1, 2)]))
            a = self.code(self.m['jpylyzer'].checkOneFile, [path, fmt, v, k, n, mix], 'checkOneFile')
            if split and not w.met:
                raise Unsupported('stripSurrogatePairs is not used')
            s = self.contract(self.m['cli'].file_report, [path, fmt, v, k, n, mix])
            p.value(a, s, 'report')
            self.frame('checkOneFile')
        self.prove(product)

    # ------------------------------------------------------------ C20

    def j_select(self):
        w, p = self.make(World(self.m))

        def product():
            w.start()
            paths = mk('paths', (), ('seq', 'str'))
            rec = mk('recurse', (), 'bool')
            jp = self.m['jpylyzer']
            self.code(jp.findFiles, [rec, paths], 'findFiles')
            files = p.modattr(jp, 'EXISTING_FILES')
            out, err = p.lst(), p.lst()
            self.contract(self.m['cli'].select, [rec, paths, out, err])
            p.align(files.segs, out.segs, 'files selected')
            p.align(w.err.segs, err.segs, 'warnings')
            self.frame('findFiles', ('EXISTING_FILES',))
        self.prove(product)

    # ------------------------------------------------------------ C19

    def settings(self):
        p = self.p
        c = self.m['config'].__name__
        s = {'fmt': mk('fmt', (), 'str'), 'verbose': mk('verbose', (), 'bool'), 'packets': mk('packets', (), 'bool'), 'nullxml': mk('nullxml', (), 'bool'),
             'mix': mk('mixflag', (), 'int'), 'nopretty': mk('nopretty', (), 'bool')}
        for n, k in (('VALIDATION_FORMAT', 'fmt'), ('OUTPUT_VERBOSE_FLAG', 'verbose'), ('OUTPUT_PACKET_MARKERS_FLAG', 'packets'),
                     ('EXTRACT_NULL_TERMINATED_XML_FLAG', 'nullxml'), ('MIX_FLAG', 'mix'), ('NO_PRETTY_XML_FLAG', 'nopretty')):
            self.w.values[(c, n)] = s[k]
        return s

    def merge(self, segs):
        """Output with adjacent texts joined."""
        out = []
        for s in segs:
            if not isinstance(s, For) and out and not isinstance(out[-1], For):
                out[-1] = ('v', self.p.cat((out[-1][1], s[1])))
            elif isinstance(s, For):
                out.append(For(s.seq, s.var, [(g, self.merge(x)) for g, x in s.alts]))
            else:
                out.append(s)
        return out

    def j_batch(self):
        w, p = self.make(World(self.m))
        w.use('jpylyzer.findFiles', 'jpylyzer.checkOneFile')
        s = self.settings()
        jp = self.m['jpylyzer']
        tool, version = mk('tool', (), 'str'), jp.__version__
        w.values[(jp.__name__, 'SCRIPT_NAME')] = tool
        w.values[(self.m['world'].__name__, 'TOOL')] = tool
        w.values[(self.m['world'].__name__, 'VERSION')] = version

        def product():
            w.start()
            paths = mk('paths', (), ('seq', 'str'))
            rec = mk('recurse', (), 'bool')
            end = want = ('returns',)
            try:
                self.code(jp.checkFiles, [rec, paths], 'checkFiles')
            except Raise as e:
                end = ('exit',) + tuple(e.exc.args)
            o = p.new(HObj(self.m['jp2'].Cx, dict(s, pretty=Not(s['nopretty']))))
            out = p.lst()
            try:
                self.contract(self.m['cli'].batch, [rec, paths, o, out])
            except Raise as e:
                want = ('exit',) + tuple(e.exc.args)
            p.value(end, want, 'end of the program')
            p.align(self.merge(w.out.segs), self.merge(out.segs), 'output')
            self.frame('checkFiles', ('EXISTING_FILES',))
        self.prove(product)

    # ------------------------------------------------------------ C21

    def option(self, flags, kw):
        """Normal form of one declaration of an option: (setting, kind, default, values)."""
        kw = dict(kw)
        for k in ('help', 'metavar'):
            kw.pop(k, None)
        action = kw.pop('action', 'store')
        ty = kw.pop('type', str)
        nargs = kw.pop('nargs', None)
        long_ = [f for f in flags if f.startswith('--')]
        dest = kw.pop('dest', (long_ or list(flags))[0].lstrip('-').replace('-', '_'))
        default = kw.pop('default', False if action == 'store_true' else None)
        choices = kw.pop('choices', None)
        if isinstance(choices, HL):
            choices = tuple(s[1] for s in choices.segs)
        if action == 'version':
            kw.pop('version', None)
            kind, default = 'version', None
        elif action == 'store_true' and nargs is None:
            kind = 'flag'
        elif action == 'store' and nargs == '+' and ty is str:
            kind = '+'
        elif action == 'store' and nargs is None and ty in (str, int):
            kind = 'store' if ty is str else 'int'
        else:
            raise Unsupported('option %s' % (flags,))
        if kw:
            raise Unsupported('option %s' % (flags,))
        return dest, kind, default, choices

    def arguments(self, declared):
        """parse_args(): each setting has the value that the options give it."""
        o = self.p.new(HObj(self.m['jp2'].Cx))
        self.given = {}
        ty = {'store': 'str', 'int': 'int', 'flag': 'bool', '+': ('seq', 'str')}
        for flags, kw in declared:
            dest, kind, default, choices = self.option(flags, kw)
            if kind == 'version':
                continue
            flags = tuple(sorted(flags, key=lambda f: (not f.startswith('--'), f)))
            v = mk('option', (flags[0],), ty[kind])
            if choices:
                self.p.assume(Or(*[mk('=', (v, c), 'bool') for c in choices + (default,)]))
            if kind == '+':
                self.p.assume(Not(mk('=', (self.p.length(v), 0), 'bool')))
            o.d[dest] = v
            self.given[flags[0]] = v
        return o

    def j_options(self):
        w, p = self.make(World(self.m))
        w.arguments = self.arguments

        def product():
            w.start()
            self.code(self.m['jpylyzer'].parseCommandLine, [], 'parseCommandLine')
            got = {}
            for flags, kw in w.declared:
                got[tuple(sorted(flags))] = self.option(flags, kw)
            want = {tuple(sorted(k)): v for k, v in self.m['cli'].OPTIONS.items()}
            for k in sorted(set(got) | set(want)):
                name = 'option ' + ' '.join(k)
                if k not in want or k not in got:
                    p.ob(name, False, k not in got and not any(set(k) & set(g) for g in got), 'not declared' if k not in got else 'not documented')
                else:
                    # the name of the setting is internal
                    p.ob(name, got[k][1:] == want[k][1:], True, '%r instead of %r' % (got[k], want[k]))
        self.prove(product)

    def j_main(self):
        w, p = self.make(World(self.m))
        w.arguments = self.arguments
        w.use('jpylyzer.checkFiles')
        p.strong = frozenset(('lower',))
        jp = self.m['jpylyzer']

        def product():
            w.start()
            w.checked = []
            end = want = ('returns',)
            try:
                self.code(jp.main, [], 'main')
            except Raise as e:
                end = ('exit',)
            if end == ('exit',) and w.checked:
                return p.differ('main', 'files are checked before the program ends with an error')
            given = p.new(HD(self.given))
            err = p.lst()
            settings = None
            try:
                settings = self.contract(self.m['cli'].run, [given, err])
            except Raise:
                want = ('exit',)
            p.value(end, want, 'end of the program')
            p.align(w.err.segs, err.segs, 'error message')
            p.align(w.out.segs, [], 'output')
            if settings is not None and end == want:
                p.ob('main: files are checked once', len(w.checked) == 1, True, '%d times' % len(w.checked))
                for c in w.checked[:1]:
                    p.dicts(c, settings.d, 'settings')
        self.prove(product)

    # ------------------------------------------------------------ C22

    MUST = ('contiguousCodestreamBox/cod/transformation', 'compressionRatio', 'jp2HeaderBox/imageHeaderBox/width',
            'jp2HeaderBox/imageHeaderBox/height', 'contiguousCodestreamBox/siz/xTsiz', 'contiguousCodestreamBox/siz/yTsiz',
            'contiguousCodestreamBox/cod/layers', 'contiguousCodestreamBox/cod/levels')
    FLOATS = ('compressionRatio',)
    ICC = 'jp2HeaderBox/colourSpecificationBox/icc'

    PARTS = {'object': ('generateMixBasicDigitalObjectInformation', 'mix:BasicDigitalObjectInformation'),
             'image': ('generateMixBasicImageInformation', 'mix:BasicImageInformation'),
             'capture': ('generateMixImageCaptureMetadata', 'mix:ImageCaptureMetadata'),
             'assessment': ('generateMixImageAssessmentMetadata', 'mix:ImageAssessmentMetadata')}
    RDF_NAMES = ('{http://ns.adobe.com/xap/1.0/}CreateDate', '{http://ns.adobe.com/tiff/1.0/}Artist', '{http://ns.adobe.com/tiff/1.0/}Make',
                 '{http://ns.adobe.com/tiff/1.0/}Model', '{http://ns.adobe.com/exif/1.0/aux/}SerialNumber',
                 '{http://ns.adobe.com/xap/1.0/}CreatorTool')

    def valid_properties(self):
        """Properties of a valid file: what the contracts of the validators give."""
        w, p = self.w, self.p
        none = lambda x: mk('isnone', (x,), 'bool')   # noqa: E731
        text = lambda x: mk('text', (x,), ('maybe', 'str'))   # noqa: E731

        def has(x):
            """x exists and carries text"""
            return And(Not(none(x)), Not(none(text(x))))
        props = mk('properties', (), 'elem')
        for path in self.MUST:
            f = w.findterm(props, path)
            p.assume(has(f))
            if path in self.FLOATS:
                p.assume(mk('isfloat', (text(f),), 'bool'))
        siz = w.findterm(props, 'contiguousCodestreamBox/siz')
        p.assume(Not(none(siz)))
        p.assume(has(w.findterm(siz, 'csiz')))
        depths = mk('findall', (siz, 'ssizDepth'), ('seq', 'elem'))
        p.length(depths)
        g = p.generic(depths, 'elem')[0].var
        p.assume(Not(none(text(g))))
        for path in ('fileTypeBox/br', 'jp2HeaderBox/colourSpecificationBox/enumCS', 'contiguousCodestreamBox/com/comment'):
            f = w.findterm(props, path)
            p.assume(Or(none(f), Not(none(text(f)))))
        icc = w.findterm(props, self.ICC)
        for k in ('colourSpace', 'description'):
            p.assume(Or(none(icc), has(w.findterm(icc, k))))
        for box, x in (('captureResolutionBox', 'c'), ('displayResolutionBox', 'd')):
            b = w.findterm(props, 'jp2HeaderBox/resolutionBox/' + box)
            for d in 'hv':
                f = w.findterm(b, '%sRes%sInPixelsPerMeter' % (d, x))
                p.assume(Or(none(b), And(has(f), mk('isfloat', (text(f),), 'bool'))))
        p.assumptions.add('the properties of a valid file contain image size, colour, compression, tile and component entries with '
                          'text, resolutions and the compression ratio as numbers (follows from the contracts of the validators)')
        return props

    def parts(self):
        """Replaces the functions for the sections and for the RDF values by their contracts, in code and contract."""
        w, p, rp = self.w, self.p, self.m['report']
        cls = self.m['mix'].Mix
        w.met = set()

        def section(part, props, version):
            if not isinstance(props, T) or props.op != 'properties':
                raise Unsupported('argument of a section')
            t = mk('mix ' + part, (props, version), 'elem')
            if part == 'capture' and not p.decide(mk('captured', (props,), 'bool')):
                return None
            e = w.opaque(self.PARTS[part][1], t)
            p.fact(Not(mk('=', (p.length(mk('kids', (t,), ('seq', 'elem'))), 0), 'bool')))
            return e

        def code(part):
            def f(o, props):
                w.met.add(part)
                return section(part, props, o.d['mixFlag'] if part != 'capture' else 0)
            return f

        def contract(part):
            def f(root, props, version=0):
                e = section(part, props, version)
                if e is not None:
                    p.append(root.kids, e)
            return f
        for part, (name, _) in self.PARTS.items():
            if not isinstance(vars(cls).get(name), types.FunctionType):
                raise Unsupported('no function ' + name)
            w.contracts['mix.Mix.' + name] = code(part)
            w.table[getattr(rp, 'mix_' + part)] = contract(part)

    def values(self):
        w, rp = self.w, self.m['report']
        if not isinstance(vars(self.m['mix'].Mix).get('findValueInRDF'), staticmethod):
            raise Unsupported('no function findValueInRDF')

        def value(e, name):
            self.p.need(e, AttributeError)
            return mk('rdf', (e, rp.DESCRIPTION, name), ('maybe', 'str'))

        def code(e, prefix, ns, tag):
            if not const((prefix, ns, tag)):
                raise Unsupported('argument of findValueInRDF')
            self.p.need(e, AttributeError)
            w.met.add('value')
            return mk('rdf', (e, prefix, ns + tag), ('maybe', 'str'))
        w.contracts['mix.Mix.findValueInRDF'] = code
        w.table[rp.rdf_value] = value

    def j_mix(self, version, part):
        if part == 'whole':
            # the sections by their contracts, if the code has functions for them
            try:
                return self.mix(version, part, True)
            except Unsupported:
                return self.mix(version, part, False)
        return self.mix(version, part, True)

    def mix(self, version, part, split):
        w, p = self.make(World(self.m))
        w.met = set()
        if split and part == 'whole':
            self.parts()
        if split and part == 'capture':
            self.values()

        def product():
            w.start()
            w.met.clear()
            mix = p.call(self.m['mix'].Mix, [version], {})
            if part == 'value':
                f = vars(self.m['mix'].Mix).get('findValueInRDF')
                if not isinstance(f, staticmethod):
                    raise Unsupported('no function findValueInRDF')
                for name in self.RDF_NAMES[p.pick(6)],:
                    ns, tag = name[:name.index('}') + 1], name[name.index('}') + 1:]
                    e = mk('rdf box', (), 'elem')
                    a = self.code(f.__func__, [e, self.m['report'].DESCRIPTION, ns, tag], 'findValueInRDF')
                    p.value(a, self.contract(self.m['report'].rdf_value, [e, name]), 'findValueInRDF ' + tag)
                return self.frame('findValueInRDF')
            props = self.valid_properties()
            if part == 'whole':
                name = 'generateMix'
                a = self.code(p.attr(mix, name), [props], name)
                s = self.contract(self.m['report'].mix_tree, [props, version])
                if split and not {'object', 'image', 'capture', 'assessment'} <= w.met:
                    raise Unsupported('a function for a section is not used')
                p.value(a, s, 'MIX %d' % version)
            else:
                name, tag = self.PARTS[part]
                if not isinstance(vars(self.m['mix'].Mix).get(name), types.FunctionType):
                    # the section is checked as a part of the whole
                    return p.ob(name + ' is checked within generateMix', True)
                a = self.code(p.attr(mix, name), [props], name)
                root = p.elem('mix:mix')
                self.contract(getattr(self.m['report'], 'mix_' + part), [root, props] + ([version] if part != 'capture' else []))
                p.align([('v', a)] if a is not None else [], root.kids.segs, 'MIX %d' % version)
                if part == 'capture' and a is not None and 'value' not in w.met and root.kids.segs:
                    raise Unsupported('findValueInRDF is not used')
            self.frame(name)
        self.prove(product)


class Stop(Exception):
    pass


def child(job, seconds, con):
    try:
        sys.setrecursionlimit(20000)
        j = Job(MODS, job, seconds).run()
        p = j.p
        con.send({'obs': [(o.name, o.status, o.firm, o.detail if o.status is not True else o.detail) for o in p.obs.values()] if p else [],
                  'error': j.error, 'wall': j.wall, 'paths': p.paths if p else 0, 'checks': p.checks if p else 0, 'solver': p.solver if p else 0,
                  'functions': sorted(p.src.used) if p else [], 'assumptions': sorted(p.assumptions) if p else []})
    except BaseException:
        con.send({'obs': [], 'error': 'internal: ' + traceback.format_exc()[-1500:], 'wall': 0, 'paths': 0, 'checks': 0, 'solver': 0,
                  'functions': [], 'assumptions': []})
    finally:
        con.close()
        os._exit(0)


MODS = None


def run(prop, seconds=120, procs=8):
    global MODS
    MODS = modules()
    ctx = mp.get_context('fork')
    todo, active, results = list(jobs(prop)), {}, {}
    while todo or active:
        while todo and len(active) < procs:
            j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(j, seconds, b), daemon=True)
            p.start()
            b.close()
            active[a] = (j, p, time.time())
        for a in wait(list(active), timeout=1):
            j, p, t = active.pop(a)
            try:
                results[j] = a.recv()
            except (EOFError, OSError):
                results[j] = {'obs': [], 'error': 'the proof ended abruptly', 'wall': 0, 'paths': 0, 'checks': 0, 'solver': 0, 'functions': [], 'assumptions': []}
            a.close()
            p.join(5)
            if p.is_alive():
                p.kill()
        for a, (j, p, t) in list(active.items()):
            if time.time() - t > seconds + 30:
                p.kill()
                p.join()
                a.close()
                del active[a]
                results[j] = {'obs': [], 'error': 'time limit', 'wall': seconds, 'paths': 0, 'checks': 0, 'solver': 0, 'functions': [], 'assumptions': []}
    return results


def main():
    for prop in sys.argv[1:]:
        if '/' in prop:
            j = Job(modules(), tuple(int(x) if x.isdigit() else {'True': True, 'False': False}.get(x, x) for x in prop.split('/')[1:]), 600).run()
            print(j.error, '%.1f s' % j.wall, j.p.paths, 'paths')
            for o in j.p.obs.values():
                print('  ', o.status, o.firm, o.name, o.detail)
            continue
        t0 = time.time()
        r = run(prop)
        n = ok = 0
        for j, x in r.items():
            bad = [o for o in x['obs'] if o[1] is not True]
            n += len(x['obs'])
            ok += len(x['obs']) - len(bad)
            print(j, x['error'], len(x['obs']), x['paths'], 'paths', '%.1f s' % x['wall'])
            for o in bad[:10]:
                print('   FAILED', 'firm' if o[2] else 'weak', o[0], str(o[3])[:1500])
        print('%s: %d/%d obligations, %d jobs, %.1f s' % (prop, ok, n, len(r), time.time() - t0))


if __name__ == '__main__':
    main()
