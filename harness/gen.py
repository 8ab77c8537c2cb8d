"""Structured generator of box contents, marker segments and whole files.

Every content is built from the layout of its structure; fields take valid,
boundary and arbitrary values, and constants that occur in the current source
of /repo (so that a value singled out there is tried).  Everything is drawn from
the random.Random passed in.
"""
import ast
import json
import os
import struct
from xml.sax.saxutils import escape

FORMATS = ('jp2', 'jph', 'j2c', 'jhc')
BOX = {
    'intellectualPropertyBox': b'jp2i', 'xmlBox': b'xml ', 'uuidBox': b'uuid', 'uuidInfoBox': b'uinf',
    'signatureBox': b'jP  ', 'fileTypeBox': b'ftyp', 'jp2HeaderBox': b'jp2h', 'imageHeaderBox': b'ihdr',
    'bitsPerComponentBox': b'bpcc', 'colourSpecificationBox': b'colr', 'paletteBox': b'pclr',
    'componentMappingBox': b'cmap', 'channelDefinitionBox': b'cdef', 'resolutionBox': b'res ',
    'contiguousCodestreamBox': b'jp2c', 'captureResolutionBox': b'resc', 'displayResolutionBox': b'resd',
    'uuidListBox': b'ulst', 'urlBox': b'url ',
}
SEG = {'cap': 0x50, 'siz': 0x51, 'prf': 0x56, 'cod': 0x52, 'qcd': 0x5c, 'com': 0x64, 'coc': 0x53,
       'rgn': 0x5e, 'qcc': 0x5d, 'poc': 0x5f, 'tlm': 0x55, 'plm': 0x57, 'plt': 0x58, 'cpf': 0x59,
       'ppm': 0x60, 'ppt': 0x61, 'crg': 0x63}
EDGE = [0, 1, 2, 3, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 31, 32, 33, 37, 38, 39, 64, 127, 128, 254, 255, 256,
        257, 1023, 1024, 1025, 16383, 16384, 16385, 32767, 32768, 65534, 65535, 4294967293, 4294967294, 4294967295]


def counts(repo):
    """Constants in the package's source, with their number of occurrences: integers, and strings as bytes."""
    ints, byts = {}, {}
    d = os.path.join(repo, 'jpylyzer')
    for top, _, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            try:
                t = ast.parse(open(os.path.join(top, f), 'rb').read())
            except SyntaxError:
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant):
                    v = n.value
                    if type(v) is int and 0 <= v < 2 ** 64:
                        ints[v] = ints.get(v, 0) + 1
                    elif type(v) is bytes and 0 < len(v) <= 64:
                        byts[v] = byts.get(v, 0) + 1
                    elif type(v) is str and 0 < len(v) <= 64:
                        v = v.encode('utf-8', 'surrogatepass')
                        byts[v] = byts.get(v, 0) + 1
    return ints, byts


KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'constants.json')


def mine(repo):
    """(integers, byte strings, integers more frequent than in the tree this was written for, byte strings likewise)"""
    ints, byts = counts(repo)
    with open(KNOWN) as f:
        k = json.load(f)
    ki = {int(a): b for a, b in k['ints'].items()}
    kb = {bytes.fromhex(a): b for a, b in k['bytes'].items()}
    return (sorted(ints), sorted(byts), sorted(v for v, n in ints.items() if n > ki.get(v, 0)), sorted(v for v, n in byts.items() if n > kb.get(v, 0)))


def note(repo):
    """Rewrite the list of known constants."""
    ints, byts = counts(repo)
    with open(KNOWN, 'w') as f:
        json.dump({'ints': {str(a): ints[a] for a in sorted(ints)}, 'bytes': {a.hex(): byts[a] for a in sorted(byts)}}, f, indent=0)
        f.write('\n')


class Gen:
    def __init__(self, rnd, repo='/repo', wild=0.25):
        self.r = rnd
        self.ints, self.bytes_, self.newints, self.newbytes = mine(repo)
        self.ints += self.newints * 8
        self.bytes_ += self.newbytes * 12
        self.wild = wild

    # ---- values
    def odd(self):
        """Whether to leave the valid range here."""
        return self.r.random() < self.wild

    def num(self, width, good):
        """A value of `width` bytes: one of `good` (list or callable), or odd."""
        top = 256 ** width - 1
        if not self.odd():
            v = good() if callable(good) else self.r.choice(good)
        else:
            k = self.r.random()
            if k < .3 and self.newints:
                v = self.r.choice(self.newints) + self.r.choice((-1, 0, 0, 1))
            elif k < .35:
                v = self.r.choice(EDGE)
            elif k < .65 and self.ints:
                v = self.r.choice(self.ints) + self.r.choice((-1, 0, 0, 0, 1))
            elif k < .8:
                v = self.r.randrange(0, min(top, 40) + 1)
            else:
                v = self.r.randrange(0, top + 1)
        return max(0, min(v, top)).to_bytes(width, 'big')

    def blob(self, n):
        if n not in (2, 4, 16) and self.newints and self.r.random() < .1:
            n = max(0, min(5000, self.r.choice(self.newints) + self.r.choice((-1, 0, 1))))
        if n and self.odd() and self.bytes_:
            b = self.r.choice(self.newbytes if self.newbytes and self.r.random() < .5 else self.bytes_)
            return (b + bytes(n))[:n]
        return bytes(self.r.randrange(256) for _ in range(n))

    def word(self):
        """Text around a string of the source, on a line of its own in some."""
        w = self.r.choice(self.newbytes if self.newbytes and self.r.random() < .7 else self.bytes_)
        return self.r.choice((w, b'a\n' + w + b'\nb', b'a\n  ' + w + b' \n', b'x' + w, w + b'x', b'x ' + w + b' y', w + w, w.upper(), w.lower()))

    def damage(self, b, p=0.12):
        """Occasionally truncate, extend or overwrite."""
        r = self.r
        if r.random() >= p:
            return b
        k = r.random()
        if k < .45:
            return b[:r.randrange(len(b) + 1)]
        if k < .6:
            return b + self.blob(r.choice((1, 2, 3, 4, 6, 16)))
        if k < .7:
            return b''
        b = bytearray(b)
        if b and k > .92:
            i = r.randrange(len(b))
            n = r.choice((1, 2, 3, 4, 6, 12))
            if r.random() < .5:
                b[i:i + n] = b[i:i + n].swapcase()
            else:
                b[i:i] = b[i:i + n]
            return bytes(b)
        for _ in range(r.choice((1, 1, 2, 4))):
            if b:
                b[r.randrange(len(b))] = r.choice((0, 1, 2, 7, 127, 128, 255, r.randrange(256)))
        return bytes(b)

    # ---- boxes
    def box(self, kind, content, ext=None):
        t = BOX.get(kind, kind) if isinstance(kind, str) else kind
        k = self.r.random()
        if k < .9 or ext is False:
            return struct.pack('>I', (8 + len(content)) & 0xffffffff) + t + content
        if k < .96:
            n = 16 + len(content)
            if self.r.random() < .35:
                n = self.r.choice((0, 1, 8, 15, 16, n + 1, n - 1, n - 8, 2 ** 32 + n, 2 ** 63, 2 ** 64 - 1))
            b = b'\0\0\0\1' + t + struct.pack('>Q', n) + content
            return b if self.r.random() < .85 else b[:self.r.randrange(17)]
        if k < .98:
            return b'\0\0\0\0' + t + content
        return struct.pack('>I', self.r.choice((2, 7, 8, 9, 8 + len(content) + 3, max(0, 8 + len(content) - 2), 2 ** 31))) + t + content

    def content(self, name, fmt='jp2'):
        return self.damage(getattr(self, 'c_' + name)(fmt))

    def c_signatureBox(self, fmt):
        return b'\r\n\x87\n' if not self.odd() else self.blob(4)

    def c_fileTypeBox(self, fmt):
        brand = {'jp2': b'jp2 ', 'jph': b'jph '}.get(fmt, b'jp2 ')
        pick = lambda: brand if not self.odd() else self.r.choice((b'jp2 ', b'jph ', b'jpx ', self.blob(4)))
        return pick() + self.num(4, [0]) + b''.join(pick() for _ in range(self.r.choice((0, 1, 1, 1, 2, 3))))

    def c_imageHeaderBox(self, fmt):
        return (self.num(4, [1, 4, 5, 300, 65536]) + self.num(4, [1, 4, 7, 300]) + self.num(2, [1, 3, 4, 2]) +
                self.num(1, [7, 7, 135, 255, 0, 37]) + self.num(1, [7]) + self.num(1, [0, 1]) + self.num(1, [0, 0, 1]))

    def c_bitsPerComponentBox(self, fmt):
        return b''.join(self.num(1, [7, 135, 0, 37, 255]) for _ in range(self.r.choice((1, 3, 4, 0, 2))))

    def c_colourSpecificationBox(self, fmt):
        m = self.num(1, [1, 1, 2, 2, 3, 5] if fmt == 'jph' else [1, 1, 2, 3, 5])
        head = m + self.num(1, [0]) + self.num(1, [0])
        if m == b'\1':
            return head + self.num(4, [16, 17, 18])
        if m in (b'\2', b'\3'):
            return head + self.content('icc')
        if m == b'\5':
            return (head + self.num(2, [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22]) + self.num(2, list(range(1, 19))) +
                    self.num(2, list(range(15))) + self.num(1, [0, 128, 255]))
        return head + self.blob(self.r.choice((0, 4, 7)))

    def c_icc(self, fmt=None):
        r = self.r
        n = r.choice((0, 1, 2, 3, 5))
        tags = []
        data = b''
        base = 132 + 12 * n
        for i in range(n):
            sig = r.choice((b'desc', b'desc', b'DESC', b'A2B0', b'A2B1', b'rXYZ', b'wtpt', b'cprt', self.blob(4)))
            text = b'profile ' + str(i).encode() + b'\0'
            d = b'desc' + bytes(4) + self.num(4, [len(text)]) + text
            tags.append(sig + self.num(4, [base + len(data)]) + self.num(4, [len(d)]))
            data += d
        body = (r.choice((b'lcms', b'appl', self.blob(4))) + self.num(1, [2, 4]) + self.num(1, [0, 16, 32, 0x43]) + self.blob(2) +
                r.choice((b'scnr', b'mntr', b'prtr', b'link', b'spac', b'abst', b'nmcl', self.blob(4))) +
                r.choice((b'RGB ', b'GRAY', self.blob(4))) + r.choice((b'XYZ ', b'Lab ', self.blob(4))) +
                self.num(2, [1999, 2011]) + self.num(2, [1, 12]) + self.num(2, [1, 28]) + self.num(2, [0, 23]) +
                self.num(2, [0, 59]) + self.num(2, [0, 9, 59]) + r.choice((b'acsp', self.blob(4))) +
                r.choice((b'APPL', b'MSFT', b'SUNW', b'SGI ', b'SGI', self.blob(4)))[:4].ljust(4) + self.num(4, [0, 1, 2, 3]) + self.blob(4) + self.blob(4) +
                self.num(8, [0, 1, 2, 3, 4, 8, 15]) + self.num(4, [0, 1, 2, 3]) + self.num(4, [63190]) + self.num(4, [65536]) +
                self.num(4, [54061]) + self.blob(4) + self.blob(16) + bytes(28) + self.num(4, [n]) + b''.join(tags) + data)
        return self.num(4, [len(body) + 4]) + body

    def c_paletteBox(self, fmt):
        r = self.r
        nPC = r.choice((1, 3, 2, 0, 4))
        nE = r.choice((1, 2, 4, 0, 256 if nPC < 3 else 8))
        depth = [self.num(1, [7, 7, 8, 15, 135, 37, 9, 0])[0] for _ in range(nPC)]
        body = b''
        for _ in range(nE):
            for d in depth:
                body += self.blob(((d & 127) + 8) // 8)
        if self.odd():
            nE = r.choice((nE + 1, 0, 1023, 1024, 1025))
        if r.random() < .1:
            nPC = r.choice((nPC + 1, 0, 20))
        return struct.pack('>HB', nE, nPC) + bytes(depth) + body

    def c_componentMappingBox(self, fmt):
        return b''.join(self.num(2, [0, 1, 2, 16384]) + self.num(1, [0, 1]) + self.num(1, [0, 0, 1, 2])
                        for _ in range(self.r.choice((1, 3, 4, 0))))

    def c_channelDefinitionBox(self, fmt):
        n = self.r.choice((1, 3, 4, 4, 0))
        kind, to = self.r.choice((([0, 0, 1, 2, 3, 65535], [0, 1, 2, 3, 65535]), ([1, 2], [0, 1]), ([0, 1], [0, 1, 2, 3])))
        return self.num(2, [n]) + b''.join(self.num(2, [0, 1, 2, 3]) + self.num(2, kind) + self.num(2, to) for _ in range(n))

    def c_captureResolutionBox(self, fmt):
        return b''.join(self.num(2, [1, 300, 11811, 65535, 10000, 254]) for _ in range(4)) + self.num(1, [0, 1, 2, 254, 127, 128]) + self.num(1, [0, 1, 2, 254])

    c_displayResolutionBox = c_captureResolutionBox

    def boxes(self, names, fmt):
        out = [self.box(n, self.content(n, fmt)) if n in BOX else self.box(n, self.blob(self.r.choice((0, 3, 9)))) for n in names]
        if out and self.r.random() < .05:
            out.insert(self.r.randrange(len(out) + 1), self.r.choice(out))
        return b''.join(out)

    def shuffle(self, names):
        r = self.r
        names = list(names)
        while r.random() < .35:
            k = r.random()
            if k < .3 and names:
                del names[r.randrange(len(names))]
            elif k < .55 and names:
                names.insert(r.randrange(len(names) + 1), r.choice(names))
            elif k < .75 and len(names) > 1:
                i, j = r.randrange(len(names)), r.randrange(len(names))
                names[i], names[j] = names[j], names[i]
            elif k < .85:
                names.insert(r.randrange(len(names) + 1), r.choice(sorted(BOX)))
            else:
                names.insert(r.randrange(len(names) + 1), r.choice((b'abcd', b'asoc', b'\xff\x52\0\0', b'\0\0\0\0', b'rreq', b'\xe2\x82\xac\n', b'jpch')))
        return names

    def c_resolutionBox(self, fmt):
        return self.boxes(self.shuffle(self.r.choice((['captureResolutionBox'], ['displayResolutionBox'], ['captureResolutionBox', 'displayResolutionBox']))), fmt)

    def c_jp2HeaderBox(self, fmt):
        r = self.r
        names = ['imageHeaderBox']
        if r.random() < .3:
            names.append('bitsPerComponentBox')
        names += ['colourSpecificationBox'] * r.choice((1, 1, 1, 2, 0))
        if r.random() < .3:
            names += ['paletteBox', 'componentMappingBox']
        if r.random() < .3:
            names.append('channelDefinitionBox')
        if r.random() < .3:
            names.append('resolutionBox')
        return self.boxes(self.shuffle(names), fmt)

    XMLS = (b'<a/>', b'<a>t</a>', b'<?xml version="1.0"?><x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">'
            b'<rdf:Description xmlns:tiff="http://ns.adobe.com/tiff/1.0/" xmlns:xap="http://ns.adobe.com/xap/1.0/" tiff:Make="Acme" tiff:Model="M1" xap:CreatorTool="Soft 1.0">'
            b'<xap:CreateDate>2001</xap:CreateDate><tiff:Artist> me </tiff:Artist></rdf:Description></rdf:RDF></x:xmpmeta>', b'<a><b c="d">e</b>f</a>', b'<a>', b'', b'no xml',
            b'<a>\xff</a>', '<?xml version="1.0" encoding="UTF-8"?><a>é</a>'.encode(), b'<siz><rsiz>1</rsiz></siz>')

    def c_xmlBox(self, fmt):
        x = self.r.choice(self.XMLS)
        if self.r.random() < .15:
            w = escape(self.word().decode('utf-8', 'replace'), {'"': '&quot;'})
            x = self.r.choice(('<a>%s</a>', '<a b="%s"/>', '<a>x\n<b>\n%s\n</b>\n%s</a>')).replace('%s', w).encode('utf-8', 'replace')
        k = self.r.random()
        if k < .12:
            x = self.r.choice((b'\xef\xbb\xbf', b' ', b'\n', b'\0', b'\xef\xbb\xbf\n', b'<!-- c -->', b'<?p q?>', b'\xff\xfe', b'<!DOCTYPE a>',
                               b'<!DOCTYPE a [<!ENTITY e "v">]>', b'<?xml version="1.0" encoding="latin-1"?>')) + x
        elif k < .2:
            x = self.r.choice((lambda: x.decode('latin-1').encode('utf-16'), lambda: x + x, lambda: x.replace(b'<a>', b'<a><![CDATA[<&]]>'), lambda: x.replace(b'<a', b'<a xmlns="u:v"'),
                               lambda: x.upper(), lambda: x + b'<!-- end -->', lambda: x[1:], lambda: x[:-1]))()
        return x + b'\0' * self.r.choice((0, 0, 0, 1, 2)) + self.r.choice((b'', b'', b'', b'\n', b' x'))

    def c_uuidBox(self, fmt):
        if self.r.random() < .6:
            return bytes.fromhex('be7acfcb97a942e89c71999491e3afac') + self.c_xmlBox(fmt)
        return self.blob(16) + self.blob(self.r.choice((0, 1, 5)))

    def c_uuidListBox(self, fmt):
        n = self.r.choice((0, 1, 2, 3))
        return self.num(2, [n]) + self.blob(16 * n)

    def c_urlBox(self, fmt):
        return self.num(1, [0]) + self.num(3, [0]) + self.r.choice((b'http://x.y/z', 'http://é'.encode(), b'\xff\xfe', b'', b'a\0b', b'a\x01', self.word())) + b'\0' * self.r.choice((1, 1, 0, 2))

    def c_uuidInfoBox(self, fmt):
        return self.boxes(self.shuffle(['uuidListBox', 'urlBox']), fmt)

    def c_intellectualPropertyBox(self, fmt):
        return self.blob(self.r.choice((0, 4)))

    # ---- marker segments: content from the length field on
    def lseg(self, body):
        return self.num(2, [len(body) + 2]) + body

    def c_siz(self, fmt, nc=None, grid=None):
        r = self.r
        nc = r.choice((1, 3, 4, 1, 257, 300)) if nc is None else nc
        rs = [0, 1, 2, 3, 7, 8, 0x103, 0x212, 0x34b, 0x456, 0x5ff, 0x612, 0x700, 0x811, 0x900, 0xa00, 0xfff] if fmt in ('jp2', 'j2c') else [0x4000, 0x4001, 0xc000, 0x5000]
        x, y, xt, yt = grid or r.choice(((4, 4, 4, 4), (8, 4, 4, 4), (9, 5, 4, 4), (300, 200, 300, 200), (8, 8, 4, 4)))
        b = (self.num(2, rs) + self.num(4, [x]) + self.num(4, [y]) + self.num(4, [0, 0, 1]) + self.num(4, [0, 0, 2]) +
             self.num(4, [xt]) + self.num(4, [yt]) + self.num(4, [0, 0, 1]) + self.num(4, [0, 0, 1]) + (struct.pack('>H', nc) if r.random() < .9 else self.num(2, [nc, 0, 1, 2, 5])))
        b += b''.join(self.num(1, [7, 7, 135, 0, 37]) + self.num(1, [1, 2]) + self.num(1, [1, 2]) for _ in range(nc))
        return self.lseg(b)

    def blocks(self, levels, precincts):
        b = self.num(1, [0, 2, 3, 4, 8]) + self.num(1, [0, 2, 3, 4, 6]) + self.num(1, [0, 1, 2, 4, 8, 16, 32, 64, 127, 192]) + self.num(1, [0, 1])
        if precincts:
            b += b''.join(self.num(1, [0x88, 0x77, 0x11, 0xff]) for _ in range(levels + 1))
        return b

    def c_cod(self, fmt):
        s = self.num(1, [0, 1, 2, 3, 6, 7])
        levels = self.r.choice((0, 1, 2, 5, 32))
        return self.lseg(s + self.num(1, [0, 1, 2, 3, 4]) + self.num(2, [1, 2, 10, 65535]) + self.num(1, [0, 1]) + self.num(1, [levels]) + self.blocks(levels, s[0] & 1))

    def comp(self, csiz):
        return self.num(1, [0, 1, 2]) if csiz < 257 else self.num(2, [0, 1, 2, 260])

    def c_coc(self, fmt, csiz=3):
        s = self.num(1, [0, 1])
        levels = self.r.choice((0, 1, 2, 5, 32))
        return self.lseg(self.comp(csiz) + s + self.num(1, [levels]) + self.blocks(levels, s[0] & 1))

    def c_rgn(self, fmt, csiz=3):
        return self.lseg(self.comp(csiz) + self.num(1, [0]) + self.num(1, [0, 5, 37, 255]))

    def quant(self):
        s = self.num(1, [0x20, 0x41, 0x62, 0x40, 0xe2])
        levels = self.r.choice((0, 1, 2, 5, 32))
        n = {0: 1 + 3 * levels, 1: 2, 2: 2 + 6 * levels}.get(s[0] & 31, 1)
        return s + self.blob(n)

    def c_qcd(self, fmt):
        return self.lseg(self.quant())

    def c_qcc(self, fmt, csiz=3):
        return self.lseg(self.comp(csiz) + self.quant())

    def c_poc(self, fmt, csiz=3):
        return self.lseg(b''.join(self.num(1, [0, 1, 32]) + self.comp(csiz) + self.num(2, [1, 2]) + self.num(1, [1, 2, 33]) +
                                  (self.num(1, [1, 2, 3, 255, 0]) if csiz < 257 else self.num(2, [1, 2, 3, 300, 0, 16384])) + self.num(1, [0, 1, 2, 3, 4])
                                  for _ in range(self.r.choice((1, 2, 3)))))

    def c_crg(self, fmt, csiz=3):
        return self.lseg(b''.join(self.num(2, [0, 100, 65535]) for _ in range(2 * min(csiz, 400))))

    def c_com(self, fmt):
        k = self.num(2, [1, 1, 1, 0])
        return self.lseg(k + self.r.choice((b'Kakadu-v5.2.1', b'hello', b'caf\xe9 \xa4', b'', b'tab\there', b'ctl\x07', b'\x7f', b'\x80', b'\xad', self.blob(6), self.word(), self.word())))

    def c_cap(self, fmt):
        p = self.r.choice((0x20000, 0x20000, 0x20000, 0x60000, 0x80020000, 0, 0x80000000, 1, 0xffffffff)) if not self.odd() else self.r.getrandbits(32)
        n = bin(p).count('1')
        return self.lseg(struct.pack('>I', p) + b''.join(self.num(2, [0, 8, 19, 20, 30, 31, 0x8000, 0xc000, 0x4000, 0x3800, 0x20, 0xffff]) for _ in range(n)))

    def c_prf(self, fmt):
        return self.lseg(b''.join(self.num(2, [0, 1, 2, 65535]) for _ in range(self.r.choice((1, 1, 2, 3, 0)))))

    c_cpf = c_prf

    def c_tlm(self, fmt):
        return self.lseg(self.blob(6))

    c_ppm = c_ppt = c_tlm

    def lens(self):
        out = b''
        for _ in range(self.r.choice((0, 1, 2, 4))):
            out += b''.join(bytes([128 | self.r.randrange(128)]) for _ in range(self.r.choice((0, 0, 1, 1, 2, 4)))) + bytes([self.r.randrange(128)])
        return out

    def c_plm(self, fmt):
        return self.lseg(self.num(1, [0, 1]) + self.num(1, [1, 3]) + self.lens())

    def c_plt(self, fmt):
        return self.lseg(self.num(1, [0, 1]) + self.lens())

    def c_sot(self, fmt):
        return self.num(2, [10]) + self.num(2, [0, 1, 2, 3]) + self.num(4, [14, 20, 0]) + self.num(1, [0, 1]) + self.num(1, [0, 1, 2])

    def seg(self, name, fmt, csiz):
        if name in SEG:
            f = getattr(self, 'c_' + name)
            c = f(fmt, csiz) if name in ('coc', 'rgn', 'qcc', 'poc', 'crg') else f(fmt)
            return bytes([255, SEG[name]]) + self.damage(c, 0.03)
        return name + self.lseg(self.blob(3))

    def segs(self, names, fmt, csiz):
        out = [self.seg(n, fmt, csiz) for n in names]
        if out and self.r.random() < .1:
            # one of them twice
            out.insert(self.r.randrange(len(out) + 1), self.r.choice(out))
        return b''.join(out)

    def tile(self, fmt, csiz, index, part, parts, last):
        r = self.r
        names = []
        while r.random() < .4:
            names.append(r.choice(('cod', 'coc', 'qcd', 'qcc', 'rgn', 'poc', 'com', 'plt', 'ppt', 'plt', b'\xff\x30', 'tlm')))
        head = self.segs(names, fmt, csiz)
        body = head + (b'\xff\x93' if r.random() < .96 else b'') + self.blob(r.choice((0, 2, 5)))
        psot = 12 + len(body)
        if last and r.random() < .15:
            psot = 0
        return (b'\xff\x90' + self.num(2, [10]) + (struct.pack('>H', index) if r.random() < .95 else self.num(2, [0, 1])) +
                (struct.pack('>I', psot) if r.random() < .95 else self.num(4, [psot, 0, 13, 14])) +
                (bytes([part]) if r.random() < .95 else self.num(1, [0, 1])) +
                (bytes([parts]) if r.random() < .9 else self.num(1, [0, 1, 2])) + body)

    def c_contiguousCodestreamBox(self, fmt, grid=None, nc=None):
        r = self.r
        nc = nc or r.choice((1, 3, 3, 4, 257) if r.random() < .3 else (1, 3, 3, 4))
        grid = grid or r.choice(((4, 4, 4, 4), (8, 4, 4, 4), (9, 5, 4, 4), (8, 8, 4, 4)))
        siz = self.damage(self.c_siz(fmt, nc, grid), 0.02)
        names = ['cod', 'qcd']
        if fmt in ('jph', 'jhc') or r.random() < .1:
            names.insert(0, 'cap')
        while r.random() < .5:
            names.append(r.choice(('coc', 'qcc', 'rgn', 'poc', 'crg', 'com', 'prf', 'cpf', 'tlm', 'plm', 'ppm', 'cap', 'cod', 'qcd', b'\xff\x30', b'\xff\x70', 'siz')))
        if r.random() < .1 and names:
            del names[r.randrange(len(names))]
        if r.random() < .3:
            r.shuffle(names)
        nt = max(1, -(-grid[0] // grid[2]) * -(-grid[1] // grid[3]))
        order = []
        for t in range(nt):
            k = r.choice((1, 1, 1, 2, 3))
            order += [(t, p, k if r.random() < .8 else 0) for p in range(k)]
        if r.random() < .2:
            r.shuffle(order)
        if r.random() < .08 and order:
            del order[r.randrange(len(order))]
        if r.random() < .08 and order:
            order.insert(r.randrange(len(order) + 1), r.choice(order))
        tiles = b''.join(self.tile(fmt, nc, t, p, k, i == len(order) - 1) for i, (t, p, k) in enumerate(order))
        return ((b'\xff\x4f' if r.random() < .97 else self.blob(2)) + (b'\xff\x51' if r.random() < .97 else self.blob(2)) + siz +
                self.segs(names, fmt, nc) + tiles + (b'\xff\xd9' if r.random() < .93 else b''))

    # ---- whole files
    def valid_pair(self, fmt):
        """Header box contents and a codestream that agree."""
        r = self.r
        nc = r.choice((1, 3, 4, 2))
        bpc = r.choice((7, 7, 135, 15, 255))
        depths = [r.choice((7, 135, 9, 0)) for _ in range(nc)] if bpc == 255 else [bpc] * nc
        grid = r.choice(((4, 4, 4, 4), (8, 4, 4, 4), (9, 5, 4, 4), (8, 8, 4, 4)))
        w = self.wild
        self.wild = 0.0
        try:
            xo, yo = r.choice(((0, 0), (1, 0), (0, 2), (1, 2)))
            ihdr = struct.pack('>IIHBBBB', grid[1] - yo, grid[0] - xo, nc, bpc, 7, r.choice((0, 0, 1)), r.choice((0, 0, 0, 1)))
            hb = self.box('imageHeaderBox', ihdr, False)
            if bpc == 255:
                hb += self.box('bitsPerComponentBox', bytes(depths), False)
            hb += self.box('colourSpecificationBox', self.c_colourSpecificationBox(fmt), False)
            if r.random() < .2:
                hb += self.box('paletteBox', self.c_paletteBox(fmt), False) + self.box('componentMappingBox', self.c_componentMappingBox(fmt), False)
            if r.random() < .3:
                hb += self.box('channelDefinitionBox', self.c_channelDefinitionBox(fmt), False)
            if r.random() < .4:
                hb += self.box('resolutionBox', b''.join(self.box(x, self.c_captureResolutionBox(fmt), False) for x in r.choice((['captureResolutionBox'], ['displayResolutionBox'], ['captureResolutionBox', 'displayResolutionBox']))), False)
            rs = r.choice((0, 1, 2)) if fmt in ('jp2', 'j2c') else 0x4000
            siz = struct.pack('>HHIIIIIIIIH', 38 + 3 * nc, rs, grid[0], grid[1], xo, yo, grid[2], grid[3], 0, 0, nc) + b''.join(bytes((d, 1, 1)) for d in depths)
            cs = b'\xff\x4f\xff\x51' + siz
            if fmt in ('jph', 'jhc'):
                cs += b'\xff\x50' + struct.pack('>HIH', 8, 0x20000, r.choice((0, 5, 20, 0x8000, 0x20)))
            cs += self.segs(['cod', 'qcd'] + (['com'] if r.random() < .5 else []) + (['coc'] if r.random() < .2 else []) + (['plm'] if r.random() < .2 else []), fmt, nc)
            nt = -(-grid[0] // grid[2]) * -(-grid[1] // grid[3])
            for t in range(nt):
                k = r.choice((1, 1, 2))
                for p in range(k):
                    body = b'\xff\x93' + self.blob(3)
                    if r.random() < .3:
                        # a comment in the header of a tile-part, too
                        body = self.segs(r.choice((['plt'], ['com'], ['com', 'plt'])) if p or r.random() < .5 else r.choice((['cod'], ['com', 'qcd'])), fmt, nc) + body
                    cs += b'\xff\x90' + struct.pack('>HHIBB', 10, t, 12 + len(body), p, k) + body
            cs += b'\xff\xd9'
        finally:
            self.wild = w
        return hb, cs

    def file(self, fmt):
        r = self.r
        if fmt in ('j2c', 'jhc'):
            if r.random() < .4:
                return self.damage(self.valid_pair(fmt)[1], .3)
            return self.damage(self.content('contiguousCodestreamBox', fmt), .1)
        if r.random() < .5:
            hb, cs = self.valid_pair(fmt)
            mid = [self.box(n, self.content(n, fmt)) for n in ('xmlBox', 'uuidBox', 'uuidInfoBox', 'intellectualPropertyBox') if r.random() < .2]
            w = self.wild
            self.wild = 0.0
            f = (self.box('signatureBox', b'\r\n\x87\n', False) + self.box('fileTypeBox', (b'jp2 \0\0\0\0jp2 ' if fmt == 'jp2' else b'jph \0\0\0\0jph '), False) +
                 self.box('jp2HeaderBox', hb, False) + b''.join(mid) + self.box('contiguousCodestreamBox', cs, False))
            self.wild = w
            return self.damage(f, .3)
        names = ['signatureBox', 'fileTypeBox', 'jp2HeaderBox'] + [n for n in ('xmlBox', 'uuidBox', 'uuidInfoBox', 'intellectualPropertyBox') if r.random() < .2] + ['contiguousCodestreamBox']
        return self.damage(self.boxes(self.shuffle(names), fmt), .1)
