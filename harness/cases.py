"""Inputs on which a property is tried: random structured ones and systematic
sweeps of single fields of valid contents."""
import random
import struct
import time
from xml.sax.saxutils import escape

from . import gen
from .judge import (dec, analysis_case, report_case, cli_case, sequence_case, tovalue, enc, FAULTS, BOXFIELDS, SEG07, SEG08, META, name_of)
from spec import jp2 as S, report as R

CODE = {v: k for k, v in S.NAMES.items()}
COMPONENT = ('coc', 'qcc', 'rgn', 'poc', 'crg')
KINDS = {
    'C01': ('JP2', 'jp2HeaderBox', 'resolutionBox', 'uuidInfoBox', 'unknownBox'),
    'C02': ('contiguousCodestreamBox',),
    'C03': ('contiguousCodestreamBox', 'tilePart', 'sot'),
    'C04': ('JP2', 'contiguousCodestreamBox', 'jp2HeaderBox', 'tilePart', 'resolutionBox', 'uuidInfoBox'),
    'C05': BOXFIELDS,
    'C06': ('JP2', 'jp2HeaderBox', 'resolutionBox', 'uuidInfoBox'),
    'C07': SEG07,
    'C08': SEG08,
    'C09': ('JP2', 'contiguousCodestreamBox'),
    'C10': BOXFIELDS,
    'C11': SEG07 + SEG08 + ('plm', 'plt'),
    'C12': ('icc', 'colourSpecificationBox'),
    'C13': META,
}
ALL = tuple(sorted(set(S.NAMES.values()) - {'tilePart'})) + ('tilePart', 'JP2', 'unknownBox', 'contiguousCodestreamBox', 'JP2')
KINDS['C14'] = KINDS['C15'] = ALL
KINDS['C16'] = ('JP2', 'contiguousCodestreamBox', 'jp2HeaderBox', 'tilePart', 'xmlBox', 'uuidBox', 'JP2', 'cod', 'siz')


class Maker:
    def __init__(self, rnd, repo, wild=0.25):
        self.r = rnd
        self.g = gen.Gen(rnd, repo, wild)

    def flags(self):
        r = self.r
        return r.random() < .6, r.random() < .5, r.random() < .5

    def analysis(self, name):
        """A random case for the structure `name`."""
        r, g = self.r, self.g
        fmt = r.choice(gen.FORMATS)
        v, n, p = self.flags()
        csiz = start = None
        if name == 'JP2':
            fmt = r.choice(('jp2', 'jph'))
            return analysis_case('JP2', g.file(fmt), fmt, v, n, p)
        if name == 'contiguousCodestreamBox':
            if r.random() < .5:
                fmt = r.choice(('j2c', 'jhc'))
            c = g.file(fmt) if fmt in ('j2c', 'jhc') else g.content(name, fmt)
            return analysis_case(r.choice((CODE[name], name)) if name in CODE else name, c, fmt, v, n, p)
        if name == 'unknownBox':
            k = r.choice((b'abcd', b'zzzz', b'\xe2\x82\xac\n', b'\xff\xff\xff\xff', b'\0\0\0\0', b'jP \0', bytes(r.randrange(256) for _ in range(4))))
            if k in S.NAMES:
                k = b'abcd'
            return analysis_case(k, g.blob(r.choice((0, 3, 9))), fmt, v, n, p)
        if name == 'tilePart':
            b = g.content('contiguousCodestreamBox', fmt)
            at = [i for i in range(len(b)) if b[i:i + 2] == b'\xff\x90'] or [0]
            return analysis_case(CODE['tilePart'], b, fmt, v, n, p, r.choice((1, 3, 256, 257, -9999)), r.choice(at))
        if name in COMPONENT:
            csiz = r.choice((1, 3, 255, 256, 257, 258, 16384, -9999))
            c = g.damage(getattr(g, 'c_' + name)(fmt, csiz))
        else:
            c = g.content(name, fmt)
        return analysis_case(CODE[name], c, fmt, v, n, p, csiz, start)

    def sweep(self, name):
        """Systematic: every value of every single byte of the start of valid
        contents, every truncation, and edge values of 2/4-byte fields."""
        g = self.g
        w = g.wild
        seeds = []
        for fmt in gen.FORMATS:
            for csiz in ((3, 257) if name in COMPONENT else (None,)):
                for _ in range(2):
                    g.wild = 0.0
                    try:
                        c = getattr(g, 'c_' + name)(fmt, csiz) if name in COMPONENT else getattr(g, 'c_' + name)(fmt)
                    finally:
                        g.wild = w
                    seeds.append((fmt, csiz, c))
        edge = sorted(set(gen.EDGE) | set(g.ints))
        self.r.shuffle(seeds)
        for fmt, csiz, c in seeds:
            for i in range(min(len(c), 40) + 1):
                yield analysis_case(CODE[name], c[:i], fmt, True, False, True, csiz)
        for fmt, csiz, c in seeds[:6]:
            jobs = []
            for i in range(min(len(c), 48)):
                for x in range(256):
                    if c[i] != x:
                        jobs.append(c[:i] + bytes([x]) + c[i + 1:])
            for wd in (2, 4):
                for i in range(max(0, min(len(c), 44) - wd + 1)):
                    for x in edge:
                        if x < 256 ** wd and x > 255:
                            jobs.append(c[:i] + x.to_bytes(wd, 'big') + c[i + wd:])
            self.r.shuffle(jobs)
            for j in jobs:
                yield analysis_case(CODE[name], j, fmt, True, False, True, csiz)

    # ---- reports
    NAMES = ('image.jp2', 'a b.jp2', 'é.jp2', 'x&<y>.jp2', 'ctl\x01\x1f.jp2', 'tab\tname', 'sur\udce9.jp2', '.jp2', '-x', 'new\nline', '\u200e\u202e.jp2', '\x7f')

    def name(self):
        r, g = self.r, self.g
        if g.newbytes and r.random() < .4:
            n = g.word().decode('utf-8', 'replace').replace('/', '').replace('\0', '')[:60]
            if n not in ('', '.', '..'):
                return n
        return r.choice(self.NAMES)

    def report(self, prop):
        r, g = self.r, self.g
        fmt = r.choice(gen.FORMATS)
        v, n, p = self.flags()
        mix = r.choice((0, 1, 2))
        name, mtime, fault = 'image.jp2', None, None
        if prop == 'C22':
            fmt = r.choice(('jp2', 'jph'))
            mix = r.choice((1, 2))
            data = self.valid_file(fmt) if r.random() < .93 else g.file(fmt)
        elif prop in ('C16', 'C04') and r.random() < .6:
            data = self.valid_file(fmt)
        else:
            data = g.file(fmt)
        if prop == 'C18':
            k = r.random()
            if k < .3:
                fault = [r.choice(('validate', 'open', 'mmap', 'late', 'validate', 'readable')), r.choice(sorted(FAULTS))]
            elif k < .45:
                data = b''
            if r.random() < .5:
                name = self.name()
            if g.newints and r.random() < .25:
                data = data[:max(0, r.choice(g.newints) + r.choice((-1, 0, 1)))]
            if r.random() < .4:
                mtime = r.choice((0, 1, 1e9, 1234567890.5, -1, 2 ** 31, 2 ** 33, 1e11, 3e11, 1e15, -1e10, 951782400, 4102444800, 1e17, -1e17, 9e18))
        return report_case(data, fmt, v, n, p, mix, name, mtime, fault)

    def valid_file(self, fmt):
        """A file that passes all tests in most cases."""
        r, g = self.r, self.g
        w = g.wild
        g.wild = 0.0
        try:
            hb, cs = g.valid_pair(fmt)
            if fmt in ('j2c', 'jhc'):
                return cs
            # a valid colour specification
            ftyp = b'jp2 \0\0\0\0jp2 ' if fmt == 'jp2' else b'jph \0\0\0\0jph '
            out = g.box('signatureBox', b'\r\n\x87\n', False) + g.box('fileTypeBox', ftyp, False)
            hb = self.fix_colour(hb, fmt)
            ipr = hb[8 + 13] == 1
            extra = []
            if ipr:
                extra.append(g.box('intellectualPropertyBox', b'abc', False))
            if r.random() < .5:
                extra.append(g.box('xmlBox', r.choice(self.xmls()), False))
            if r.random() < .4:
                extra.append(g.box('uuidBox', bytes.fromhex('be7acfcb97a942e89c71999491e3afac') + r.choice(self.xmls()), False))
            r.shuffle(extra)
            cs = self.fix_segments(cs, fmt)
            head = g.box('jp2HeaderBox', hb, False)
            if r.random() < .15:
                # other boxes may come before the header and after the codestream
                cut = r.randrange(len(extra) + 1)
                return out + b''.join(extra[:cut]) + head + g.box('contiguousCodestreamBox', cs, False) + b''.join(extra[cut:])
            return out + head + b''.join(extra) + g.box('contiguousCodestreamBox', cs, False)
        finally:
            g.wild = w

    def fix_segments(self, cs, fmt):
        return cs

    def fix_colour(self, hb, fmt):
        """Replace the colour specification by a valid one."""
        r, g = self.r, self.g
        out, at = b'', 0
        while at + 8 <= len(hb):
            n = struct.unpack('>I', hb[at:at + 4])[0]
            box = hb[at:at + n]
            if box[4:8] == b'colr':
                k = r.random()
                if k < .45:
                    box = g.box('colourSpecificationBox', b'\1\0\0' + struct.pack('>I', r.choice((16, 17, 18))), False)
                elif k < .9 or fmt == 'jp2':
                    icc = self.valid_icc()
                    box = g.box('colourSpecificationBox', bytes([2 if fmt == 'jp2' else r.choice((2, 3))]) + b'\0\0' + icc, False)
                else:
                    box = g.box('colourSpecificationBox', b'\5\0\0' + struct.pack('>HHHB', 1, 1, 1, 128), False)
                if r.random() < .15:
                    # only the first one counts
                    box += g.box('colourSpecificationBox', r.choice((b'\1\0\0\0\0\0\x11', b'\2\0\0' + self.valid_icc())), False)
            elif box[4:8] in (b'pclr', b'cmap', b'cdef'):
                box = b''
            elif box[4:8] == b'res ' and r.random() < .8:
                box = g.box('resolutionBox', b''.join(
                    g.box(x, struct.pack('>HHHHbb', r.choice((300, 11811, 1, 65535, 333)), r.choice((1, 254, 7)), r.choice((300, 59055)),
                                         r.choice((1, 3, 254)), r.choice((0, 1, 2, -2)), r.choice((0, 2))), False)
                    for x in r.choice((['captureResolutionBox'], ['displayResolutionBox'], ['displayResolutionBox', 'captureResolutionBox']))), False)
            out += box
            at += n
        return out

    def valid_icc(self):
        r = self.r
        text = r.choice((b'sRGB IEC61966-2.1', b'x', b'', b'Adobe RGB (1998)', b'caf\xc3\xa9')) + b'\0'
        tag = b'desc' + bytes(4) + struct.pack('>I', len(text)) + text
        head = bytearray(128)
        body = struct.pack('>I', 1) + b'desc' + struct.pack('>II', 144, len(tag)) + tag
        head[0:4] = struct.pack('>I', 128 + len(body))
        head[4:8] = b'lcms'
        head[8:12] = b'\2\x10\0\0'
        head[12:16] = r.choice((b'mntr', b'scnr'))
        head[16:20] = r.choice((b'RGB ', b'GRAY'))
        return bytes(head) + body

    def xmls(self):
        rdf = ('<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">%s</rdf:RDF></x:xmpmeta>')
        ns = ' xmlns:tiff="http://ns.adobe.com/tiff/1.0/" xmlns:xap="http://ns.adobe.com/xap/1.0/" xmlns:aux="http://ns.adobe.com/exif/1.0/aux/"'
        r = self.r
        names = ('tiff:Make', 'tiff:Model', 'tiff:Artist', 'xap:CreateDate', 'xap:CreatorTool', 'aux:SerialNumber')
        vals = ('Acme', ' x ', '', 'Soft 1.0', 'Soft', '2001-01-01', 'A B 2.0.1', 'tool ')
        vals += tuple(escape(w.decode('utf-8', 'replace'), {'"': '&quot;'}) for w in self.g.newbytes[:8] if min(w) > 31)
        attrs = elts = ''
        for n in names:
            k = r.random()
            if k < .45:
                attrs += ' %s="%s"' % (n, r.choice(vals))
            if k < .7 and not .1 < k < .45:
                elts += '<%s>%s</%s>' % (n, r.choice(vals), n)
        full = rdf % ('<rdf:Description%s%s>%s</rdf:Description>' % (ns, attrs, elts))
        # names of the report's own elements at other places
        own = ('<r><compressionRatio>7</compressionRatio><width>7</width><height>7</height><enumCS>x</enumCS><siz><xTsiz>7</xTsiz><yTsiz>7</yTsiz>'
               '<ssizDepth>7</ssizDepth><csiz>7</csiz></siz><cod><layers>7</layers><levels>7</levels><transformation>x</transformation></cod>'
               '<com><comment>d-v9</comment></com><icc><colourSpace>x</colourSpace><description>x</description></icc><fileTypeBox><br>x</br></fileTypeBox>'
               '<captureResolutionBox><hRescInPixelsPerMeter>7</hRescInPixelsPerMeter><vRescInPixelsPerMeter>7</vRescInPixelsPerMeter>'
               '</captureResolutionBox>%s</r>' % (full if r.random() < .5 else ''))
        return [x.encode() for x in (full, full, full, full, own, rdf % '', '<a/>', '<x:xmpmeta xmlns:x="adobe:ns:meta/"/>')]

    # ---- single values
    def values(self):
        r, g = self.r, self.g
        if r.random() < .5:
            return {'type': 'values', 'what': 'bytes', 'content': enc(bytes(r.choice((0, 1, 127, 128, 255, 10, 65, 0xc3, 0xa9, r.randrange(256))) for _ in range(r.choice((0, 1, 1, 2, 2, 3, 4, 4, 5, 7, 8, 8, 9)))))}
        tags = sorted(R.TABLE) + ['height', 'cL', 'warning', 'br', 'other', 'comment', 'C', 'Order']
        tag = r.choice(tags)
        pool = [0, 1, 2, 3, 4, 5, 7, 16, 17, 18, 65535, 32768, 49152, -9999, -1, 2 ** 64, 10 ** 30, 1 << 20000, True, False, 0.5, 1.25, 1 / 3, 2 / 7, 1e-7, 123456.789012345678, 5e-324, 1e16, 1e300, float('inf'), -0.0, 1e22, None,
                b'', b'scnr', b'mntr', b'prtr', b'link', b'spac', b'abst', b'nmcl', b'APPL', b'MSFT', b'SGI', b'SGI ', b'SUNW', b'\xff', b'a\0b', 'é'.encode(), b'\xed\xa0\x80', b'\t\n\r\x0b',
                'text', 'a\x00b\x1fc', '\x7f\x80\x9f\xa0', '\u200b\ufeff\ud800', '', 'tab\tnl\ncr\r', 'no', 'e\u0301\U0001F600\U000E0001']
        for w in g.newbytes:
            pool += [w, w.decode('utf-8', 'replace'), g.word(), g.word().decode('utf-8', 'replace')]
        for i in g.newints:
            pool += [i, i - 1, i + 1, str(i), 'a' * min(i, 5000), b'a' * min(i + 1, 5000)]
        v = r.choice(pool)
        if r.random() < .2:
            v = r.choice((g.r.randrange(0, 70000), bytes(g.r.randrange(256) for _ in range(4)), ''.join(chr(g.r.choice((g.r.randrange(0, 300), g.r.randrange(0, 0x3000), g.r.randrange(0, 0x110000)))) for _ in range(5))))
        return {'type': 'values', 'what': 'value', 'tag': tag, 'value': tovalue(v), 'remap': r.random() < .75}

    def values_sweep(self):
        """Every documented table entry, and its neighbours, under every tag."""
        vals = set()
        for t in R.TABLE.values():
            vals |= set(t)
        vals |= {0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 19, 16384, 65534, -9999, b'SGI ', b'', b'x'}
        for tag in sorted(R.TABLE) + ['height', 'Colour', 'orders']:
            for v in sorted(vals, key=repr):
                for remap in (True, False):
                    yield {'type': 'values', 'what': 'value', 'tag': tag, 'value': tovalue(v), 'remap': remap}
        for c in list(range(0, 0x300)) + [0x2028, 0x200b, 0xfeff, 0xd800, 0xe000, 0x378, 0x1f600, 0xe0001, 0x10ffff, 0xfffe]:
            yield {'type': 'values', 'what': 'value', 'tag': 'comment', 'value': tovalue('a' + chr(c) + 'b'), 'remap': True}
            if c < 0xd800:
                yield {'type': 'values', 'what': 'value', 'tag': 'cL', 'value': tovalue(('a' + chr(c) + 'b').encode()), 'remap': True}
        for n in range(0, 10):
            for b in (0, 1, 127, 128, 255):
                yield {'type': 'values', 'what': 'bytes', 'content': enc(bytes([b] * n))}
                yield {'type': 'values', 'what': 'bytes', 'content': enc(bytes(range(b, b + n)) if b + n < 256 else bytes([b]) * n)}

    # ---- command line
    def tree(self, small):
        r = self.r
        files = {}
        names = ('a.jp2', 'b.jp2', 'c.jpx', 'noext', 'sub/a.jp2', 'sub/d.jp2', 'sub/deep/e.jp2', 'sub2/f.jp2', 'sub2/g.txt', 'é.jp2', 'x*y.jp2', 'empty.jp2',
                 'sp ace/h.jp2', 'd.jp2/i.jp2', 'sub/deep/deeper/a.jp2', '.hidden.jp2', 'ctl\x02.jp2', 'amp&.jp2', 'A.JP2', 'sub/b[1].jp2', '.h/x.jp2', 'x~/y.jp2', 'sub/q?.jp2')
        for n in names:
            if r.random() < .4:
                if n == 'empty.jp2':
                    files[n] = enc(b'')
                else:
                    files[n] = enc(small())
        if r.random() < .3:
            files['nothing'] = None
        for n, to in (('link.jp2', 'a.jp2'), ('sub/link.jp2', '../b.jp2'), ('sub/broken.jp2', 'gone'), ('broken.jp2', 'gone.jp2'), ('linkdir', 'sub'), ('sub2/up', '../sub/deep')):
            if r.random() < .12:
                files[n] = '->' + to
        if r.random() < .06:
            files[r.choice(('pipe.jp2', 'sub/pipe'))] = '|'
        return files

    ARGS = ('a.jp2', 'b.jp2', '*.jp2', '*', 'sub', 'sub/*.jp2', 'sub*', '*/a.jp2', 'su*/a*', 'nothere', '.', 'sub2', 'nothing', 'noext', 'd.jp2', 'c*', 'x*y.jp2', 'sub/deep', '*/*', 'sub/d*', 'n*g', 'zz*',
            'sp ace', 'sub/nothere.jp2', '*/deep/*', 'link*', 'linkdir', 'link.jp2', 'broken.jp2', '*n*', '././a.jp2', 'sub/../b.jp2', 'sub/', '*.JP2', '[ab]*.jp2', 'sub/b[1]*', '?.jp2', 'sub/*?.jp2', '.h', '*.j*', '**', '**/*.jp2')

    def many(self, n):
        """n files, under one argument."""
        r = self.r
        d = r.choice(('', 'd/', 'd/e/'))
        files = {'%sf%04d.jp2' % (d, i): enc(b'x') for i in range(n)}
        arg = r.choice(('*' if not d else d + '*', d + '*.jp2', 'd' if d else '.', d + 'f*'))
        return cli_case(files, [arg], r.choice(([], ['-r'])) + ['--nopretty'])

    def words(self):
        """A small file with strings of the source in its texts."""
        r, g = self.r, self.g
        x = b''
        for _ in range(r.choice((1, 2, 3, 20))):
            k = r.choice(('xmlBox', 'xmlBox', 'urlBox', 'com'))
            if k == 'xmlBox':
                w = escape(''.join(c for c in g.word().decode('utf-8', 'replace') if c >= ' ' or c == '\n'), {'"': '&quot;'})
                x += g.box('xmlBox', ('<a>%s<b>x\n%s\n</b></a>' % (w, w)).encode(), False)
            elif k == 'com':
                t = b'\0\1' + g.word().decode('utf-8', 'replace').encode('latin-1', 'replace')
                c = b'\xff\x4f\xff\x51' + struct.pack('>HHIIIIIIIIHBBB', 41, 0, 1, 1, 0, 0, 1, 1, 0, 0, 1, 7, 1, 1) + b'\xff\x64' + struct.pack('>H', 2 + len(t)) + t + b'\xff\xd9'
                x += g.box('contiguousCodestreamBox', c, False)
            else:
                x += g.box('uuidInfoBox', g.box('urlBox', bytes(4) + g.word() + b'\0', False), False)
        return g.box('signatureBox', b'\r\n\x87\n', False) + x

    def cli(self, prop):
        r, g = self.r, self.g
        data = []

        def small():
            if prop == 'C20':
                return b'x'
            if not data or r.random() < .5:
                fmt = r.choice(gen.FORMATS)
                data.append(self.valid_file(fmt) if r.random() < .6 else g.file(fmt))
            return data[-1][:20000]
        files = self.tree(small)
        many = [i for i in g.newints if 1 < i < 1200]
        if many and prop in ('C19', 'C20') and r.random() < .3:
            return self.many(r.choice(many) + r.choice((-1, 0, 1, 1, 2)))
        if prop in ('C19', 'C20') and r.random() < .3:
            n = self.name()
            if n.encode('utf-8', 'surrogateescape').decode('utf-8', 'replace') == n:
                n = r.choice((n, n, n + '.jp2', 'x' + n, n + '/k.jp2', 'sub/x' + n + '/k.jp2', 'sub/' + n))
                if not any(x == n or x.startswith(n + '/') or n.startswith(x + '/') for x in files):
                    files[n] = enc(small())
                if prop == 'C20' and r.random() < .5:
                    return cli_case(files, [r.choice(('.', '*', 'sub', n, '*.jp2', '*/*'))], r.choice(([], ['-r'], ['-r'])) + ['--nopretty'])
        if prop == 'C20':
            files = files or {'a.jp2': enc(b'x')}
            args = [r.choice(self.ARGS) for _ in range(r.choice((1, 1, 2, 3)))]
            return cli_case(files, args, r.choice(([], ['-r'], ['--recurse'], ['-r'])) + ['--nopretty'])
        if prop == 'C19':
            files['words.jp2'] = enc(self.words())
            if r.random() < .4:
                return cli_case(files, ['words.jp2'], r.choice(([], [], ['--nopretty'])))
            args = r.choice((['*.jp2'], ['*'], ['a.jp2', 'b.jp2', 'empty.jp2'], ['a.jp2', 'b.jp2', 'a.jp2'], ['a.jp2'] * 2, ['.', '*'], ['.'], [x for x in files if files[x] is not None and x[0] != '-'][:4] or ['nothere'], ['nothere']))
            return cli_case(files, args, r.choice(([], ['--nopretty'])) + r.choice(([], ['-r'])) + r.choice(([], ['--mix', '1'], ['--verbose'], ['--format', 'jph'])))
        fmt = r.choice(gen.FORMATS)
        files = {'one.jp2': enc(self.rich(fmt)), 'dir/two.jp2': enc(self.rich(fmt))}
        flags = []
        if fmt != 'jp2' or r.random() < .3:
            f = r.choice((fmt, fmt.upper(), fmt.capitalize(), fmt[0].upper() + fmt[1:].upper()))
            flags += r.choice((['--format', f], ['-f', f], ['--format=' + f]))
        if r.random() < .06:
            flags = r.choice((['--mix', '0'], ['--mix', '3'], ['--mix=-1'], ['--format', 'jpx'], ['-f', 'jp'], ['-f', 'JP2 '], ['-f', 'j2']))
        opts = [(['--mix', '1'], ['--mix', '2'], ['--mix=2']), (['--nopretty'],), (['--nullxml'],), (['--recurse'], ['-r']), (['--packetmarkers'], ['-p']), (['--verbose'],)]
        r.shuffle(opts)
        k = r.choice((0, 1, 1, 2, 3, 6))
        for o in opts[:k]:
            flags += r.choice(o)
        return cli_case(files, ['one.jp2'] + (['dir'] if r.random() < .6 else []), flags)

    def rich(self, fmt):
        """A file whose report shows the effect of every option."""
        r, g = self.r, self.g
        for _ in range(40):
            f = self.valid_file(fmt)
            if b'\xff\x58' in f or b'\xff\x57' in f:
                break
        if fmt in ('jp2', 'jph'):
            x = b'<a>null</a>\0'
            box = struct.pack('>I', 8 + len(x)) + b'xml ' + x
            if r.random() < .5:
                at = f.index(b'jp2c') - 4
                f = f[:at] + box + f[at:]
        return f

    def variant(self, data):
        """The data with a few bytes changed, usually of the same length."""
        r = self.r
        b = bytearray(data)
        for _ in range(r.choice((1, 1, 2, 4))):
            if not b:
                break
            i = r.randrange(len(b))
            k = r.random()
            if k < .6:
                b[i] = r.choice((0, 1, 255, b[i] ^ 1, b[i] ^ 128, r.randrange(256)))
            elif k < .7:
                del b[i:i + r.choice((1, 4))]
            elif k < .8:
                b[i:i] = b[i:i + 4]
            elif k < .9:
                b = b[:i]
            else:
                j = r.randrange(len(b))
                b[i], b[j] = b[j], b[i]
        return bytes(b)

    def sequence(self):
        r, g = self.r, self.g
        items = []
        few = [i for i in g.newints if 3 < i < 400]
        if few and r.random() < .2:
            # one file often
            a, b = self.report('C22'), self.report('C22')
            return sequence_case([a] * (r.choice(few) + r.choice((-1, 0, 1))) + [b])
        k = r.random()
        if k < .04:
            # many different files
            return sequence_case([self.report(r.choice(('C14', 'C16', 'C22'))) for _ in range(r.choice((20, 60, 130)))])
        if k < .35:
            # variants of one file, with the same or other options, under one path or several
            base = self.report(r.choice(('C14', 'C16', 'C22')))
            for _ in range(r.choice((2, 3, 4))):
                c = dict(base)
                if r.random() < .7:
                    c['content'] = enc(self.variant(dec(base['content'])))
                for o, vs in (('verbose', (False, True)), ('nullxml', (False, True)), ('packets', (False, True)), ('mix', (0, 1, 2)),
                              ('fmt', gen.FORMATS)):
                    if r.random() < .2:
                        c[o] = r.choice(vs)
                items.append(c)
            return sequence_case(items, r.random() < .5)
        for _ in range(r.choice((2, 3, 4))):
            c = self.report('C16' if r.random() < .5 else 'C22')
            items.append(c)
        if r.random() < .4:
            items.append(dict(items[0]))
        return sequence_case(items)


def stream(prop, rnd, repo, part=0, parts=1, focus=()):
    """Endless cases for a property; sweeps are dealt out over `parts` workers."""
    m = Maker(rnd, repo)
    if prop in ('C20', 'C19', 'C21'):
        while True:
            yield m.cli(prop)
    if prop == 'C23':
        while True:
            yield m.sequence()
    if prop == 'C22':
        while True:
            yield m.report(prop)
    if prop == 'C18':
        while True:
            yield m.report(prop)
    if prop == 'C17':
        for i, c in enumerate(m.values_sweep()):
            if i % parts == part:
                yield c
        while True:
            for _ in range(20):
                yield m.values()
            yield m.report(prop)
    kinds = [k for k in KINDS[prop] if k in CODE or k in ('JP2', 'unknownBox', 'contiguousCodestreamBox', 'tilePart')]
    kinds = [k for k in kinds if k in focus] or kinds
    plain = [k for k in dict.fromkeys(kinds) if k in CODE and k not in ('tilePart', 'contiguousCodestreamBox', 'JP2', 'jp2HeaderBox')]
    sweeps = {}
    if prop in ('C05', 'C07', 'C08', 'C10', 'C11', 'C12', 'C13', 'C14'):
        # one generator per kind, shared seed over workers so that parts are disjoint
        for k in plain:
            sweeps[k] = enumerate(Maker(random.Random('%s%s' % (k, 0)), repo).sweep(k))
    n = 0
    while True:
        for k in kinds:
            yield m.analysis(k)
            s = sweeps.get(k)
            if s is not None:
                # half of the time for sweeps, half for random cases
                got, t = 0, time.time()
                for i, c in s:
                    if i % parts == part:
                        yield c
                        got += 1
                        if got == 12 or time.time() - t > .25:
                            break
                else:
                    del sweeps[k]
                t = time.time() - t
                u = time.time()
                for _ in range(24):
                    if time.time() - u > t:
                        break
                    yield m.analysis(k)
        n += 1
        if prop in ('C04', 'C14', 'C15', 'C16'):
            yield m.report(prop)
