"""Contracts of the analysis: what the tests, properties and warnings of every
JP2/JPH box and codestream marker segment are, as a function of the bytes.

Written from the user manual's tables and ISO/IEC 15444-1 / -15, ICC.1.  One
function per box or marker segment; `sub` stands for the contract of the
structure it names (callers are checked against that contract, not its body).
"""
from .prim import (Node, leaf, adopt, is_empty, find, find_all, text_of, texts_of,
                   any_false, uint, sint8, anyint, hextext, uuidtext, strip_nulls,
                   clean, latin, is_utf8, utf8clean, xml_ok, xml_tree, pad4, ratio,
                   round2, round4, ceildiv, power, shifted, hexfield, position, distinct)


class Cx:
    """Options of an analysis."""

    def __init__(self, fmt, verbose, nullxml, packets):
        self.fmt = fmt
        self.verbose = verbose
        self.nullxml = nullxml
        self.packets = packets


class Res:
    """Outcome of analysing one structure."""

    def __init__(self, ttag, ptag, wtag):
        self.tests = Node(ttag)
        self.props = Node(ptag)
        self.warns = Node(wtag)
        self.valid = None
        self.next = None
        self.psot = None


NAMES = {
    b'jp2i': 'intellectualPropertyBox', b'xml ': 'xmlBox', b'uuid': 'uuidBox',
    b'uinf': 'uuidInfoBox', b'jP  ': 'signatureBox', b'ftyp': 'fileTypeBox',
    b'jp2h': 'jp2HeaderBox', b'ihdr': 'imageHeaderBox', b'bpcc': 'bitsPerComponentBox',
    b'colr': 'colourSpecificationBox', b'pclr': 'paletteBox', b'cmap': 'componentMappingBox',
    b'cdef': 'channelDefinitionBox', b'res ': 'resolutionBox', b'jp2c': 'contiguousCodestreamBox',
    b'resc': 'captureResolutionBox', b'resd': 'displayResolutionBox', b'ulst': 'uuidListBox',
    b'url ': 'urlBox',
    b'\xff\x50': 'cap', b'\xff\x51': 'siz', b'\xff\x56': 'prf', b'\xff\x52': 'cod',
    b'\xff\x5c': 'qcd', b'\xff\x64': 'com', b'\xff\x53': 'coc', b'\xff\x5e': 'rgn',
    b'\xff\x5d': 'qcc', b'\xff\x5f': 'poc', b'\xff\x55': 'tlm', b'\xff\x57': 'plm',
    b'\xff\x58': 'plt', b'\xff\x59': 'cpf', b'\xff\x60': 'ppm', b'\xff\x61': 'ppt',
    b'\xff\x63': 'crg', b'\xff\x90': 'tilePart', 'icc': 'icc', 'startOfTile': 'sot',
}

MISSING = -9999


def check(cx, r, name, ok):
    """Failed tests are always listed, passed ones only in verbose reports."""
    if cx.verbose or not ok:
        leaf(r.tests, name, ok)


def prop(r, name, value):
    leaf(r.props, name, value)


def attach(r, s):
    """Add the outcome of a part to the outcome of the whole."""
    if not is_empty(s.tests):
        adopt(r.tests, s.tests)
    adopt(r.props, s.props)
    if not is_empty(s.warns):
        adopt(r.warns, s.warns)


def bit(v, k):
    """Bit k of v (0 = least significant)."""
    return (v // 2 ** k) % 2


# ---------------------------------------------------------------- framing

def box_at(b, at, end):
    """(length or MISSING, type, offset of next box, contents) of the box at `at`."""
    length = uint(b[at:at + 4], 4)
    header = 8
    if length == 1:
        length = uint(b[at + 8:at + 16], 8)
        header = 16
    if length == 0:
        length = end - at
    kind = pad4(b[at + 4:at + 8])
    if length == MISSING:
        return length, kind, end, b''
    return length, kind, at + length, b[at + header:at + length]


def walk_boxes(cx, b, r):
    """Analyse all boxes in b; return the list of their types."""
    kinds = []
    at = 0
    end = len(b)
    more = True
    while at < end and more:
        length, kind, at2, content = box_at(b, at, end)
        attach(r, sub(cx, kind, content))
        kinds.append(kind)
        more = length != MISSING
        at = at2
    return kinds


def segment_at(b, at):
    """(marker, contents, offset of next segment or MISSING) of the segment at `at`."""
    marker = b[at:at + 2]
    if marker in (b'\xff\x4f', b'\xff\x93', b'\xff\xd9', b'\xff\x92'):
        return marker, b'', at + 2
    length = uint(b[at + 2:at + 4], 2)
    if length == MISSING:
        return marker, b'', MISSING
    return marker, b[at + 2:at + 2 + length], at + 2 + length


# ---------------------------------------------------------------- file level

def spec_JP2(cx, b, r, csiz, start):
    kinds = walk_boxes(cx, b, r)
    check(cx, r, 'containsSignatureBox', b'jP  ' in kinds)
    check(cx, r, 'containsFileTypeBox', b'ftyp' in kinds)
    check(cx, r, 'containsJP2HeaderBox', b'jp2h' in kinds)
    check(cx, r, 'containsContiguousCodestreamBox', b'jp2c' in kinds)
    if text_of(r.props, 'jp2HeaderBox/imageHeaderBox/iPR') == 1:
        check(cx, r, 'containsIntellectualPropertyBox', b'jp2i' in kinds)
    check(cx, r, 'firstBoxIsSignatureBox', len(kinds) > 0 and kinds[0] == b'jP  ')
    check(cx, r, 'secondBoxIsFileTypeBox', len(kinds) > 1 and kinds[1] == b'ftyp')
    head = position(kinds, b'jp2h')
    code = position(kinds, b'jp2c')
    check(cx, r, 'locationJP2HeaderBoxIsValid', head > 1 and code > head)
    check(cx, r, 'noMoreThanOneSignatureBox', kinds.count(b'jP  ') <= 1)
    check(cx, r, 'noMoreThanOneFileTypeBox', kinds.count(b'ftyp') <= 1)
    check(cx, r, 'noMoreThanOneJP2HeaderBox', kinds.count(b'jp2h') <= 1)

    ihdr = find(r.props, 'jp2HeaderBox/imageHeaderBox')
    siz = find(r.props, 'contiguousCodestreamBox/siz')
    if ihdr is not None and siz is not None:
        height = text_of(ihdr, 'height')
        width = text_of(ihdr, 'width')
        nC = text_of(ihdr, 'nC')
        sign = text_of(ihdr, 'bPCSign')
        depth = text_of(ihdr, 'bPCDepth')
        check(cx, r, 'heightConsistentWithSIZ', height == text_of(siz, 'ysiz') - text_of(siz, 'yOsiz'))
        check(cx, r, 'widthConsistentWithSIZ', width == text_of(siz, 'xsiz') - text_of(siz, 'xOsiz'))
        check(cx, r, 'nCConsistentWithSIZ', nC == text_of(siz, 'csiz'))
        if sign == 1 and depth == 128:
            bpcc = find(r.props, 'jp2HeaderBox/bitsPerComponentBox')
            if bpcc is None:
                signs = []
                depths = []
            else:
                signs = texts_of(bpcc, 'bPCSign')
                depths = texts_of(bpcc, 'bPCDepth')
        else:
            signs = [sign for _ in range(nC)]
            depths = [depth for _ in range(nC)]
        check(cx, r, 'bPCSignConsistentWithSIZ', signs == texts_of(siz, 'ssizSign'))
        check(cx, r, 'bPCDepthConsistentWithSIZ', depths == texts_of(siz, 'ssizDepth'))
        prop(r, 'compressionRatio', compression(depths, height, width, len(b)))
    r.valid = not any_false(r.tests)


def compression(depths, height, width, size):
    """Uncompressed size in bytes over compressed size, two decimals."""
    return round2(ratio(ratio(sum(depths), 8) * height * width, size))


def spec_unknownBox(cx, b, r, kind):
    prop(r, 'boxType', kind)
    leaf(r.warns, 'warning', "ignoring unknown box '" + utf8clean(kind) + "'")


def spec_intellectualPropertyBox(cx, b, r, csiz, start):
    pass


def spec_signatureBox(cx, b, r, csiz, start):
    check(cx, r, 'boxLengthIsValid', len(b) == 4)
    check(cx, r, 'signatureIsValid', b[0:4] == b'\x0d\x0a\x87\x0a')


def spec_fileTypeBox(cx, b, r, csiz, start):
    check(cx, r, 'boxLengthIsValid', (len(b) - 8) % 4 == 0)
    prop(r, 'br', b[0:4])
    brand = b'jp2 '
    if cx.fmt == 'jph':
        brand = b'jph '
    if cx.fmt in ('jp2', 'jph'):
        check(cx, r, 'brandIsValid', b[0:4] == brand)
    minV = uint(b[4:8], 4)
    prop(r, 'minV', minV)
    check(cx, r, 'minorVersionIsValid', minV == 0)
    listed = []
    for k in range((len(b) - 8) // 4):
        entry = b[8 + 4 * k:12 + 4 * k]
        prop(r, 'cL', entry)
        listed.append(entry)
    if cx.fmt in ('jp2', 'jph'):
        check(cx, r, 'compatibilityListIsValid', brand in listed)


def contiguous(lst, v):
    """All occurrences of v are next to each other."""
    at = [i for i in range(len(lst)) if lst[i] == v]
    for k in range(len(at) - 1):
        if at[k + 1] - at[k] != 1:
            return False
    return True


def spec_jp2HeaderBox(cx, b, r, csiz, start):
    kinds = walk_boxes(cx, b, r)
    check(cx, r, 'containsImageHeaderBox', b'ihdr' in kinds)
    if cx.fmt == 'jp2':
        check(cx, r, 'containsColourSpecificationBox', b'colr' in kinds)
    elif cx.fmt == 'jph':
        if text_of(r.props, 'imageHeaderBox/unkC') == 0:
            check(cx, r, 'containsColourSpecificationBox', b'colr' in kinds)
        if b'colr' not in kinds:
            check(cx, r, 'noZeroCTypesIfNoColourBox',
                  0 not in texts_of(r.props, 'channelDefinitionBox/cTyp'))
    if text_of(r.props, 'imageHeaderBox/bPCSign') == 1 and \
            text_of(r.props, 'imageHeaderBox/bPCDepth') == 128:
        check(cx, r, 'containsBitsPerComponentBox', b'bpcc' in kinds)
    check(cx, r, 'firstJP2HeaderBoxIsImageHeaderBox', len(kinds) > 0 and kinds[0] == b'ihdr')
    check(cx, r, 'noMoreThanOneImageHeaderBox', kinds.count(b'ihdr') <= 1)
    check(cx, r, 'noMoreThanOneBitsPerComponentBox', kinds.count(b'bpcc') <= 1)
    check(cx, r, 'noMoreThanOnePaletteBox', kinds.count(b'pclr') <= 1)
    check(cx, r, 'noMoreThanOneComponentMappingBox', kinds.count(b'cmap') <= 1)
    check(cx, r, 'noMoreThanOneChannelDefinitionBox', kinds.count(b'cdef') <= 1)
    check(cx, r, 'noMoreThanOneResolutionBox', kinds.count(b'res ') <= 1)
    check(cx, r, 'colourSpecificationBoxesAreContiguous', contiguous(kinds, b'colr'))
    check(cx, r, 'paletteAndComponentMappingBoxesOnlyTogether',
          (b'pclr' in kinds) == (b'cmap' in kinds))


# ---------------------------------------------------------------- JP2 header boxes

def spec_imageHeaderBox(cx, b, r, csiz, start):
    check(cx, r, 'boxLengthIsValid', len(b) == 14)
    height = uint(b[0:4], 4)
    width = uint(b[4:8], 4)
    nC = uint(b[8:10], 2)
    bPC = uint(b[10:11], 1)
    c = uint(b[11:12], 1)
    unkC = uint(b[12:13], 1)
    iPR = uint(b[13:14], 1)
    prop(r, 'height', height)
    prop(r, 'width', width)
    prop(r, 'nC', nC)
    prop(r, 'bPCSign', bit(bPC, 7))
    prop(r, 'bPCDepth', bPC % 128 + 1)
    prop(r, 'c', c)
    prop(r, 'unkC', unkC)
    prop(r, 'iPR', iPR)
    check(cx, r, 'heightIsValid', height >= 1)
    check(cx, r, 'widthIsValid', width >= 1)
    check(cx, r, 'nCIsValid', 1 <= nC <= 16384)
    check(cx, r, 'bPCIsValid', bPC % 128 + 1 <= 38 or bPC == 255)
    check(cx, r, 'cIsValid', c == 7)
    check(cx, r, 'unkCIsValid', unkC == 0 or unkC == 1)
    check(cx, r, 'iPRIsValid', iPR == 0 or iPR == 1)


def spec_bitsPerComponentBox(cx, b, r, csiz, start):
    for k in range(len(b)):
        bPC = uint(b[k:k + 1], 1)
        prop(r, 'bPCSign', bit(bPC, 7))
        prop(r, 'bPCDepth', bPC % 128 + 1)
        check(cx, r, 'bPCIsValid', bPC % 128 + 1 <= 38)


def spec_colourSpecificationBox(cx, b, r, csiz, start):
    meth = uint(b[0:1], 1)
    prec = uint(b[1:2], 1)
    approx = uint(b[2:3], 1)
    prop(r, 'meth', meth)
    prop(r, 'prec', prec)
    prop(r, 'approx', approx)
    if cx.fmt == 'jp2':
        check(cx, r, 'methIsValid', meth in (1, 2))
    elif cx.fmt == 'jph':
        check(cx, r, 'methIsValid', meth in (1, 2, 3, 5))
    check(cx, r, 'precIsValid', prec == 0)
    check(cx, r, 'approxIsValid', approx == 0)
    rest = b[3:]
    if meth == 1:
        enumCS = uint(rest, 4)
        prop(r, 'enumCS', enumCS)
        check(cx, r, 'enumCSIsValid', enumCS in (16, 17, 18))
    elif meth == 2 or meth == 3:
        icc = sub(cx, 'icc', rest)
        adopt(r.props, icc.props)
        if not is_empty(icc.warns):
            adopt(r.warns, icc.warns)
        if meth == 2:
            check(cx, r, 'iccSizeIsValid', text_of(icc.props, 'profileSize') == len(rest))
            check(cx, r, 'iccPermittedProfileClass',
                  text_of(icc.props, 'profileClass') in (b'scnr', b'mntr'))
            check(cx, r, 'iccNoLUTBasedProfile', b'A2B0' not in texts_of(icc.props, 'tag'))
    elif meth == 5:
        colPrims = uint(b[3:5], 2)
        transfC = uint(b[5:7], 2)
        matCoeffs = uint(b[7:9], 2)
        prop(r, 'colPrims', colPrims)
        prop(r, 'transfC', transfC)
        prop(r, 'matCoeffs', matCoeffs)
        prop(r, 'vidFRng', bit(uint(b[9:10], 1), 7))
        if cx.fmt == 'jph':
            check(cx, r, 'colPrimsIsValid', colPrims in (1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22))
            check(cx, r, 'transfCIsValid', transfC in (1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12,
                                                       13, 14, 15, 16, 17, 18))
            check(cx, r, 'matCoeffsIsValid', matCoeffs in (0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11,
                                                           12, 13, 14))


def spec_icc(cx, b, r, csiz, start):
    prop(r, 'profileSize', uint(b[0:4], 4))
    prop(r, 'preferredCMMType', b[4:8])
    major = uint(b[8:9], 1)
    minor = uint(b[9:10], 1)
    prop(r, 'profileVersion', str(major) + '.' + str(minor // 16) + '.' + str(minor % 16))
    prop(r, 'profileClass', b[12:16])
    prop(r, 'colourSpace', b[16:20])
    prop(r, 'profileConnectionSpace', b[20:24])
    year = uint(b[24:26], 2)
    prop(r, 'dateTimeString', '%d/%02d/%02d, %02d:%02d:%02d' % (
        year, uint(b[27:28], 1), uint(b[29:30], 1), uint(b[31:32], 1),
        uint(b[33:34], 1), uint(b[35:36], 1)))
    prop(r, 'profileSignature', b[36:40])
    prop(r, 'primaryPlatform', b[40:44])
    flags = uint(b[47:48], 1)
    prop(r, 'embeddedProfile', bit(flags, 0))
    prop(r, 'profileCannotBeUsedIndependently', bit(flags, 1))
    prop(r, 'deviceManufacturer', b[48:52])
    prop(r, 'deviceModel', b[52:56])
    attributes = uint(b[63:64], 1)
    prop(r, 'transparency', bit(attributes, 0))
    prop(r, 'glossiness', bit(attributes, 1))
    prop(r, 'polarity', bit(attributes, 2))
    prop(r, 'colour', bit(attributes, 3))
    prop(r, 'renderingIntent', uint(b[66:68], 2))
    prop(r, 'connectionSpaceIlluminantX', round4(ratio(uint(b[68:72], 4), 65536)))
    prop(r, 'connectionSpaceIlluminantY', round4(ratio(uint(b[72:76], 4), 65536)))
    prop(r, 'connectionSpaceIlluminantZ', round4(ratio(uint(b[76:80], 4), 65536)))
    prop(r, 'profileCreator', b[80:84])
    prop(r, 'profileID', hextext(b[84:100]))
    count = min(uint(b[128:132], 4), 4096)
    tags = []
    for k in range(count):
        tag = b[132 + 12 * k:136 + 12 * k]
        prop(r, 'tag', tag)
        tags.append(tag)
    d = position(tags, b'desc')
    if d >= 0:
        at = uint(b[136 + 12 * d:140 + 12 * d], 4)
        size = uint(b[140 + 12 * d:144 + 12 * d], 4)
        desc = b[at:at + size]
        length = uint(desc[8:12], 4)
        prop(r, 'description', desc[12:11 + length])
    else:
        prop(r, 'description', '')


def padded_bytes(depth_byte):
    """Bytes used by a palette value of the depth that a depth byte encodes."""
    return (depth_byte % 128 + 8) // 8


def spec_paletteBox(cx, b, r, csiz, start):
    nE = uint(b[0:2], 2)
    nPC = uint(b[2:3], 1)
    prop(r, 'nE', nE)
    prop(r, 'nPC', nPC)
    check(cx, r, 'nEIsValid', 1 <= nE <= 1024)
    check(cx, r, 'nPCIsValid', 1 <= nPC <= 255)
    entry = 0
    for i in range(nPC):
        entry += padded_bytes(uint(b[3 + i:4 + i], 1))
    column = 3 + nPC
    for i in range(nPC):
        depth = uint(b[3 + i:4 + i], 1)
        prop(r, 'bSign', bit(depth, 7))
        prop(r, 'bDepth', depth % 128 + 1)
        check(cx, r, 'bDepthIsValid', depth % 128 + 1 <= 38)
        for j in range(nE):
            at = column + j * entry
            prop(r, 'cP', anyint(b[at:at + padded_bytes(depth)]))
        column += padded_bytes(depth)


def spec_componentMappingBox(cx, b, r, csiz, start):
    for k in range(len(b) // 4):
        cMP = uint(b[4 * k:4 * k + 2], 2)
        mTyp = uint(b[4 * k + 2:4 * k + 3], 1)
        pCol = uint(b[4 * k + 3:4 * k + 4], 1)
        prop(r, 'cMP', cMP)
        prop(r, 'mTyp', mTyp)
        prop(r, 'pCol', pCol)
        check(cx, r, 'cMPIsValid', 0 <= cMP <= 16384)
        check(cx, r, 'mTypIsValid', mTyp == 0 or mTyp == 1)
        check(cx, r, 'pColIsValid', mTyp != 0 or pCol == 0)


def spec_channelDefinitionBox(cx, b, r, csiz, start):
    n = uint(b[0:2], 2)
    prop(r, 'n', n)
    check(cx, r, 'nIsValid', 1 <= n <= 65535)
    check(cx, r, 'boxLengthIsValid', len(b) == 2 + 6 * n)
    alpha = []
    for k in range(n):
        at = 2 + 6 * k
        cN = uint(b[at:at + 2], 2)
        cTyp = uint(b[at + 2:at + 4], 2)
        cAssoc = uint(b[at + 4:at + 6], 2)
        prop(r, 'cN', cN)
        prop(r, 'cTyp', cTyp)
        prop(r, 'cAssoc', cAssoc)
        check(cx, r, 'cNIsValid', cN >= 0)
        if cx.fmt == 'jp2':
            check(cx, r, 'cTypIsValid', cTyp in (0, 1, 2, 65535))
        elif cx.fmt == 'jph':
            check(cx, r, 'cTypIsValid', cTyp in (0, 1, 2, 3, 65535))
        check(cx, r, 'cAssocIsValid', cAssoc >= 0)
        if cTyp == 1 or cTyp == 2:
            alpha.append(cAssoc)
    if cx.fmt == 'jph':
        check(cx, r, 'noMoreThanOneAlphaChannel', len(alpha) <= 1)
        for assoc in alpha:
            check(cx, r, 'cAssocAlphaChannelIsZero', assoc == 0)


def spec_resolutionBox(cx, b, r, csiz, start):
    kinds = walk_boxes(cx, b, r)
    check(cx, r, 'containsCaptureOrDisplayResolutionBox', b'resc' in kinds or b'resd' in kinds)
    check(cx, r, 'noMoreThanOneCaptureResolutionBox', kinds.count(b'resc') <= 1)
    check(cx, r, 'noMoreThanOneDisplayResolutionBox', kinds.count(b'resd') <= 1)


def spec_captureResolutionBox(cx, b, r, csiz, start):
    resolution(cx, b, r, 'c')


def spec_displayResolutionBox(cx, b, r, csiz, start):
    resolution(cx, b, r, 'd')


def per_metre(num, den, exp):
    if den == 0:
        return -9999
    return ratio(num, den) * power(10, exp)


def resolution(cx, b, r, x):
    check(cx, r, 'boxLengthIsValid', len(b) == 10)
    vN = uint(b[0:2], 2)
    vD = uint(b[2:4], 2)
    hN = uint(b[4:6], 2)
    hD = uint(b[6:8], 2)
    vE = sint8(b[8:9])
    hE = sint8(b[9:10])
    prop(r, 'vR' + x + 'N', vN)
    prop(r, 'vR' + x + 'D', vD)
    prop(r, 'hR' + x + 'N', hN)
    prop(r, 'hR' + x + 'D', hD)
    prop(r, 'vR' + x + 'E', vE)
    prop(r, 'hR' + x + 'E', hE)
    check(cx, r, 'vR' + x + 'NIsValid', vN >= 1)
    check(cx, r, 'vR' + x + 'DIsValid', vD >= 1)
    check(cx, r, 'hR' + x + 'NIsValid', hN >= 1)
    check(cx, r, 'hR' + x + 'DIsValid', hD >= 1)
    check(cx, r, 'vR' + x + 'EIsValid', vE >= -128)
    check(cx, r, 'hR' + x + 'EIsValid', hE >= -128)
    v = per_metre(vN, vD, vE)
    h = per_metre(hN, hD, hE)
    prop(r, 'vRes' + x + 'InPixelsPerMeter', round2(v))
    prop(r, 'hRes' + x + 'InPixelsPerMeter', round2(h))
    prop(r, 'vRes' + x + 'InPixelsPerInch', round2(v * 0.0254))
    prop(r, 'hRes' + x + 'InPixelsPerInch', round2(h * 0.0254))


# ---------------------------------------------------------------- codestream

COMPONENT = (b'\xff\x53', b'\xff\x5d', b'\xff\x5e', b'\xff\x5f', b'\xff\x63')
PLAIN = (b'\xff\x52', b'\xff\x5c', b'\xff\x64', b'\xff\x50', b'\xff\x56', b'\xff\x59', b'\xff\x55')
PACKET = (b'\xff\x57', b'\xff\x60')


def attach_packet(cx, r, s):
    if not is_empty(s.tests):
        adopt(r.tests, s.tests)
    if cx.packets:
        adopt(r.props, s.props)
    if not is_empty(s.warns):
        adopt(r.warns, s.warns)


def spec_contiguousCodestreamBox(cx, b, r, csiz0, start0):
    marker, content, at = segment_at(b, 0)
    check(cx, r, 'codestreamStartsWithSOCMarker', marker == b'\xff\x4f')
    marker, content, at = segment_at(b, at)
    check(cx, r, 'foundSIZMarker', marker == b'\xff\x51')
    if marker == b'\xff\x51':
        siz = sub(cx, marker, content)
        attach(r, siz)
        csiz = text_of(siz.props, 'csiz')
        cod = False
        qcd = False
        cap = False
        plm = 0
        ppm = 0
        here = at
        while marker != b'\xff\x90' and at != MISSING:
            marker, content, at = segment_at(b, here)
            if marker in PLAIN:
                attach(r, sub(cx, marker, content))
            elif marker in COMPONENT:
                attach(r, sub(cx, marker, content, csiz))
            elif marker in PACKET:
                attach_packet(cx, r, sub(cx, marker, content))
            if marker == b'\xff\x52':
                cod = True
            if marker == b'\xff\x5c':
                qcd = True
            if marker == b'\xff\x50':
                cap = True
            if marker == b'\xff\x57':
                plm += 1
            if marker == b'\xff\x60':
                ppm += 1
            if marker != b'\xff\x90':
                here = at
        prop(r, 'ppmCount', ppm)
        prop(r, 'plmCount', plm)
        check(cx, r, 'foundCODMarker', cod)
        check(cx, r, 'foundQCDMarker', qcd)
        if (text_of(siz.props, 'rsiz') // 16384) % 16 == 1:
            check(cx, r, 'foundCAPMarker', cap)

        expected = min(text_of(siz.props, 'numberOfTiles'), 65535)
        met = []
        announced = {}
        found = {}
        for i in range(expected):
            found[i] = 0
        parts = Res('tileParts', 'tileParts', 'tileParts')
        while marker == b'\xff\x90':
            marker = b[here:here + 2]
            if marker == b'\xff\x90':
                part = sub(cx, marker, b, csiz, here)
                attach(parts, part)
                index = text_of(part.props, 'sot/isot')
                total = text_of(part.props, 'sot/tnsot')
                if index not in met:
                    met.append(index)
                if total != 0:
                    announced[index] = total
                if index not in found:
                    break
                found[index] = found[index] + 1
                if part.next <= here:
                    break
                here = part.next
        check(cx, r, 'foundExpectedNumberOfTiles', len(met) == expected)
        if len(announced) > 0:
            check(cx, r, 'foundExpectedNumberOfTileParts', announced == found)
        attach(r, parts)
        ccoc = texts_of(r.props, 'coc/ccoc')
        if len(ccoc) > 0:
            check(cx, r, 'maxOneCcocPerComponentMain', distinct(ccoc))
        cqcc = texts_of(r.props, 'qcc/cqcc')
        if len(cqcc) > 0:
            check(cx, r, 'maxOneCqccPerComponentMain', distinct(cqcc))
        size = len(b)
        check(cx, r, 'foundEOCMarker', b[size - 2:size] == b'\xff\xd9')
        if cx.fmt in ('j2c', 'jhc'):
            prop(r, 'compressionRatio', compression(
                texts_of(siz.props, 'ssizDepth'),
                text_of(siz.props, 'ysiz') - text_of(siz.props, 'yOsiz'),
                text_of(siz.props, 'xsiz') - text_of(siz.props, 'xOsiz'), size))
    r.valid = not any_false(r.tests)


TILEPLAIN = (b'\xff\x52', b'\xff\x5c', b'\xff\x64')
TILECOMPONENT = (b'\xff\x53', b'\xff\x5d', b'\xff\x5e', b'\xff\x5f')
TILEPACKET = (b'\xff\x58', b'\xff\x61')


def spec_tilePart(cx, b, r, csiz, start):
    marker, content, at = segment_at(b, start)
    sot = sub(cx, 'startOfTile', content)
    attach(r, sot)
    plt = 0
    ppt = 0
    while marker != b'\xff\x93' and at != MISSING:
        marker, content, at = segment_at(b, at)
        if marker in TILEPLAIN:
            attach(r, sub(cx, marker, content))
        elif marker in TILECOMPONENT:
            attach(r, sub(cx, marker, content, csiz))
        elif marker in TILEPACKET:
            attach_packet(cx, r, sub(cx, marker, content))
        if marker == b'\xff\x58':
            plt += 1
        if marker == b'\xff\x61':
            ppt += 1
    check(cx, r, 'foundSODMarker', marker == b'\xff\x93')
    prop(r, 'pltCount', plt)
    prop(r, 'pptCount', ppt)
    first = text_of(sot.props, 'tpsot') == 0
    if len(find_all(r.props, 'cod')) > 0:
        check(cx, r, 'CODAllowed', first)
    if len(find_all(r.props, 'coc')) > 0:
        check(cx, r, 'COCAllowed', first)
    if len(find_all(r.props, 'qcd')) > 0:
        check(cx, r, 'QCDAllowed', first)
    if len(find_all(r.props, 'qcc')) > 0:
        check(cx, r, 'QCCAllowed', first)
    if len(find_all(r.props, 'rgn')) > 0:
        check(cx, r, 'RGNAllowed', first)
    ccoc = texts_of(r.props, 'coc/ccoc')
    if len(ccoc) > 0:
        check(cx, r, 'maxOneCcocPerComponentTP', distinct(ccoc))
    cqcc = texts_of(r.props, 'qcc/cqcc')
    if len(cqcc) > 0:
        check(cx, r, 'maxOneCqccPerComponentTP', distinct(cqcc))
    psot = sot.psot
    if psot != 0:
        check(cx, r, 'foundNextTilePartOrEOC',
              psot > 0 and b[start + psot:start + psot + 2] in (b'\xff\x90', b'\xff\xd9'))
    r.next = start + psot


# ---------------------------------------------------------------- marker segments

CAPABILITY_0 = ('ISO/IEC 15444-1', 'Profile 0', 'Profile 1', '2K digital cinema profile',
                '4K digital cinema profile', 'Scalable 2K digital cinema profile',
                'Scalable 4K digital cinema profile', 'Long-term storage profile')
CAPABILITY_BC = ('Broadcast Contribution Single Tile Profile',
                 'Broadcast Contribution Multi-tile Profile',
                 'Broadcast Contribution Multi-tile Reversible Profile')
CAPABILITY_IMF = ('2k IMF Single Tile Lossy Profile', '4k IMF Single Tile Lossy Profile',
                  '8k IMF Single Tile Lossy Profile',
                  '2k IMF Single/Multi Tile Reversible Profile',
                  '4k IMF Single/Multi Tile Reversible Profile',
                  '8k IMF Single/Multi Tile Reversible Profile')


def capability(rsiz):
    ext = (rsiz // 16384) % 16
    profile = (rsiz // 256) % 16
    sublevel = (rsiz // 16) % 16
    main = rsiz % 16
    if ext == 1:
        return 'CAP'
    if ext == 2:
        return 'ISO/IEC 15444-2'
    if ext == 3:
        return 'ISO/IEC 15444-2 + CAP'
    if profile == 0:
        for k in range(8):
            if main == k:
                return CAPABILITY_0[k]
    for k in range(3):
        if profile == k + 1:
            return CAPABILITY_BC[k] + ', Mainlevel ' + str(main)
    for k in range(6):
        if profile == k + 4:
            return CAPABILITY_IMF[k] + ', Mainlevel ' + str(main) + '; Sublevel ' + str(sublevel)
    if profile == 15 and sublevel == 15 and main == 15:
        return 'Profile signalled in Profile Marker'
    return 'Unknown (value not defined in ISO/IEC 15444-1)'


def spec_siz(cx, b, r, csiz0, start):
    lsiz = uint(b[0:2], 2)
    prop(r, 'lsiz', lsiz)
    check(cx, r, 'lsizIsValid', 41 <= lsiz <= 49190)
    rsiz = uint(b[2:4], 2)
    prop(r, 'rsiz', rsiz)
    if cx.fmt in ('jp2', 'j2c'):
        check(cx, r, 'rsizIsValid', (rsiz // 4096) % 16 == 0)
    else:
        check(cx, r, 'rsizIsValid', bit(rsiz, 14) == 1)
    prop(r, 'capability', capability(rsiz))
    xsiz = uint(b[4:8], 4)
    ysiz = uint(b[8:12], 4)
    xOsiz = uint(b[12:16], 4)
    yOsiz = uint(b[16:20], 4)
    xTsiz = uint(b[20:24], 4)
    yTsiz = uint(b[24:28], 4)
    xTOsiz = uint(b[28:32], 4)
    yTOsiz = uint(b[32:36], 4)
    prop(r, 'xsiz', xsiz)
    prop(r, 'ysiz', ysiz)
    prop(r, 'xOsiz', xOsiz)
    prop(r, 'yOsiz', yOsiz)
    prop(r, 'xTsiz', xTsiz)
    prop(r, 'yTsiz', yTsiz)
    prop(r, 'xTOsiz', xTOsiz)
    prop(r, 'yTOsiz', yTOsiz)
    check(cx, r, 'xsizIsValid', xsiz >= 1)
    check(cx, r, 'ysizIsValid', ysiz >= 1)
    check(cx, r, 'xOsizIsValid', 0 <= xOsiz <= 4294967294)
    check(cx, r, 'yOsizIsValid', 0 <= yOsiz <= 4294967294)
    check(cx, r, 'xTsizIsValid', xTsiz >= 1)
    check(cx, r, 'yTsizIsValid', yTsiz >= 1)
    check(cx, r, 'xTOsizIsValid', 0 <= xTOsiz <= 4294967294)
    check(cx, r, 'yTOsizIsValid', 0 <= yTOsiz <= 4294967294)
    if xTsiz != 0 and yTsiz != 0:
        prop(r, 'numberOfTiles', ceildiv(xsiz - xTOsiz, xTsiz) * ceildiv(ysiz - yTOsiz, yTsiz))
    else:
        prop(r, 'numberOfTiles', 0)
    csiz = uint(b[36:38], 2)
    prop(r, 'csiz', csiz)
    check(cx, r, 'csizIsValid', 1 <= csiz <= 16384)
    check(cx, r, 'lsizConsistentWithCsiz', lsiz == 38 + 3 * csiz)
    for k in range(csiz):
        ssiz = uint(b[38 + 3 * k:39 + 3 * k], 1)
        xR = uint(b[39 + 3 * k:40 + 3 * k], 1)
        yR = uint(b[40 + 3 * k:41 + 3 * k], 1)
        prop(r, 'ssizSign', bit(ssiz, 7))
        prop(r, 'ssizDepth', ssiz % 128 + 1)
        prop(r, 'xRsiz', xR)
        prop(r, 'yRsiz', yR)
        check(cx, r, 'ssizIsValid', ssiz % 128 + 1 <= 38)
        check(cx, r, 'xRsizIsValid', xR >= 1)
        check(cx, r, 'yRsizIsValid', yR >= 1)


def blocks(cx, b, r, at):
    """Code block fields and transformation, which COD and COC share, from offset at."""
    we = uint(b[at:at + 1], 1) + 2
    he = uint(b[at + 1:at + 2], 1) + 2
    prop(r, 'codeBlockWidth', power(2, we))
    prop(r, 'codeBlockHeight', power(2, he))
    check(cx, r, 'codeBlockWidthExponentIsValid', 2 <= we <= 10)
    check(cx, r, 'codeBlockHeightExponentIsValid', 2 <= he <= 10)
    check(cx, r, 'sumHeightWidthExponentIsValid', we + he <= 12)
    style = uint(b[at + 2:at + 3], 1)
    onlyht = cx.fmt in ('jph', 'jhc') and bit(style, 7) == 0 and bit(style, 6) == 1
    prop(r, 'codingBypass', bit(style, 0))
    if not onlyht:
        prop(r, 'resetOnBoundaries', bit(style, 1))
    prop(r, 'termOnEachPass', bit(style, 2))
    prop(r, 'vertCausalContext', bit(style, 3))
    if not onlyht:
        prop(r, 'predTermination', bit(style, 4))
        prop(r, 'segmentationSymbols', bit(style, 5))
    transformation = uint(b[at + 3:at + 4], 1)
    prop(r, 'transformation', transformation)
    check(cx, r, 'transformationIsValid', transformation == 0 or transformation == 1)


def precinct_sizes(cx, b, r, at, precincts, levels):
    """Precinct sizes for all resolution levels, from offset at if user-defined."""
    if precincts == 1:
        for i in range(levels + 1):
            v = uint(b[at + i:at + i + 1], 1)
            prop(r, 'precinctSizeX', power(2, v % 16))
            prop(r, 'precinctSizeY', power(2, (v // 16) % 16))
            check(cx, r, 'precinctSizeXIsValid', i == 0 or v % 16 >= 1)
            check(cx, r, 'precinctSizeYIsValid', i == 0 or (v // 16) % 16 >= 1)
    else:
        for i in range(levels + 1):
            prop(r, 'precinctSizeX', 32768)
            prop(r, 'precinctSizeY', 32768)


def spec_cod(cx, b, r, csiz, start):
    lcod = uint(b[0:2], 2)
    prop(r, 'lcod', lcod)
    check(cx, r, 'lcodIsValid', 12 <= lcod <= 45)
    scod = uint(b[2:3], 1)
    precincts = bit(scod, 0)
    prop(r, 'precincts', precincts)
    prop(r, 'sop', bit(scod, 1))
    prop(r, 'eph', bit(scod, 2))
    order = uint(b[3:4], 1)
    layers = uint(b[4:6], 2)
    mct = uint(b[6:7], 1)
    levels = uint(b[7:8], 1)
    prop(r, 'order', order)
    prop(r, 'layers', layers)
    prop(r, 'multipleComponentTransformation', mct)
    prop(r, 'levels', levels)
    check(cx, r, 'orderIsValid', 0 <= order <= 4)
    check(cx, r, 'layersIsValid', layers >= 1)
    check(cx, r, 'multipleComponentTransformationIsValid', mct == 0 or mct == 1)
    check(cx, r, 'levelsIsValid', 0 <= levels <= 32)
    if precincts == 1:
        check(cx, r, 'lcodConsistencyCheck', lcod == 13 + levels)
    else:
        check(cx, r, 'lcodConsistencyCheck', lcod == 12)
    blocks(cx, b, r, 8)
    precinct_sizes(cx, b, r, 12, precincts, levels)


def component_index(b, csiz):
    """(component index at offset 2, offset after it): 1 byte below 257 components."""
    if csiz < 257:
        return uint(b[2:3], 1), 3
    return uint(b[2:4], 2), 4


def spec_coc(cx, b, r, csiz, start):
    lcoc = uint(b[0:2], 2)
    prop(r, 'lcoc', lcoc)
    check(cx, r, 'lcocIsValid', 9 <= lcoc <= 43)
    ccoc, at = component_index(b, csiz)
    prop(r, 'ccoc', ccoc)
    check(cx, r, 'ccocIsValid', 0 <= ccoc <= 16383)
    precincts = bit(uint(b[at:at + 1], 1), 0)
    levels = uint(b[at + 1:at + 2], 1)
    prop(r, 'precincts', precincts)
    prop(r, 'levels', levels)
    check(cx, r, 'levelsIsValid', 0 <= levels <= 32)
    if precincts == 1:
        check(cx, r, 'lcocConsistencyCheck', lcoc == at + 7 + levels)
    else:
        check(cx, r, 'lcocConsistencyCheck', lcoc == at + 6)
    blocks(cx, b, r, at + 2)
    precinct_sizes(cx, b, r, at + 6, precincts, levels)


def spec_rgn(cx, b, r, csiz, start):
    lrgn = uint(b[0:2], 2)
    prop(r, 'lrgn', lrgn)
    check(cx, r, 'lrgnIsValid', lrgn == 5 or lrgn == 6)
    crgn, at = component_index(b, csiz)
    prop(r, 'crgn', crgn)
    check(cx, r, 'crgnIsValid', 0 <= crgn <= 16383)
    style = uint(b[at:at + 1], 1)
    shift = uint(b[at + 1:at + 2], 1)
    prop(r, 'roiStyle', style)
    prop(r, 'roiShift', shift)
    check(cx, r, 'roiStyleIsValid', style == 0)
    if cx.fmt in ('jph', 'jhc'):
        check(cx, r, 'roiShiftIsValid', 0 <= shift <= 37)
    else:
        check(cx, r, 'roiShiftIsValid', shift >= 0)


def quantization(cx, b, r, at, style, length):
    """Step sizes from offset at; `length` is the length up to and including at."""
    if style == 0:
        for k in range((length - 1) // 3):
            prop(r, 'epsilon', (uint(b[at + k:at + k + 1], 1) // 8) % 32)
    elif style == 1:
        v = uint(b[at:at + 2], 2)
        prop(r, 'mu', v % 2048)
        prop(r, 'epsilon', (v // 2048) % 32)
    elif style == 2:
        for k in range((length - 2) // 6):
            v = uint(b[at + 2 * k:at + 2 * k + 2], 2)
            prop(r, 'mu', v % 2048)
            prop(r, 'epsilon', (v // 2048) % 32)


def spec_qcd(cx, b, r, csiz, start):
    lqcd = uint(b[0:2], 2)
    prop(r, 'lqcd', lqcd)
    check(cx, r, 'lqcdIsValid', 4 <= lqcd <= 197)
    sqcd = uint(b[2:3], 1)
    style = sqcd % 32
    prop(r, 'qStyle', style)
    prop(r, 'guardBits', (sqcd // 32) % 8)
    check(cx, r, 'qStyleIsValid', 0 <= style <= 2)
    quantization(cx, b, r, 3, style, lqcd - 3)


def spec_qcc(cx, b, r, csiz, start):
    lqcc = uint(b[0:2], 2)
    prop(r, 'lqcc', lqcc)
    check(cx, r, 'lqccIsValid', 5 <= lqcc <= 199)
    cqcc, at = component_index(b, csiz)
    prop(r, 'cqcc', cqcc)
    sqcc = uint(b[at:at + 1], 1)
    style = sqcc % 32
    prop(r, 'qStyle', style)
    prop(r, 'guardBits', (sqcc // 32) % 8)
    check(cx, r, 'qStyleIsValid', 0 <= style <= 2)
    quantization(cx, b, r, at + 1, style, lqcc - at - 1)


def spec_poc(cx, b, r, csiz, start):
    lpoc = uint(b[0:2], 2)
    prop(r, 'lpoc', lpoc)
    check(cx, r, 'lpocIsValid', 9 <= lpoc <= 65535)
    if csiz < 257:
        w = 1
        top = 255
    else:
        w = 2
        top = 16384
    step = 5 + 2 * w
    for k in range((lpoc - 2) // step):
        at = 2 + step * k
        rspoc = uint(b[at:at + 1], 1)
        cspoc = uint(b[at + 1:at + 1 + w], w)
        lyepoc = uint(b[at + 1 + w:at + 3 + w], 2)
        repoc = uint(b[at + 3 + w:at + 4 + w], 1)
        cepoc = uint(b[at + 4 + w:at + 4 + 2 * w], w)
        order = uint(b[at + 4 + 2 * w:at + 5 + 2 * w], 1)
        prop(r, 'rspoc', rspoc)
        prop(r, 'cspoc', cspoc)
        prop(r, 'lyepoc', lyepoc)
        prop(r, 'repoc', repoc)
        prop(r, 'cepoc', cepoc)
        prop(r, 'order', order)
        check(cx, r, 'rspocIsValid', 0 <= rspoc <= 32)
        check(cx, r, 'cspocIsValid', 0 <= cspoc <= 16383)
        check(cx, r, 'lyepocIsValid', lyepoc >= 1)
        check(cx, r, 'repocIsValid', rspoc + 1 <= repoc <= 33)
        check(cx, r, 'cepocIsValid', cspoc + 1 <= cepoc <= top or cepoc == 0)
        check(cx, r, 'orderIsValid', 0 <= order <= 4)


def spec_crg(cx, b, r, csiz, start):
    lcrg = uint(b[0:2], 2)
    prop(r, 'lcrg', lcrg)
    check(cx, r, 'lcrgIsValid', 6 <= lcrg <= 65534)
    for k in range(csiz):
        x = uint(b[2 + 4 * k:4 + 4 * k], 2)
        y = uint(b[4 + 4 * k:6 + 4 * k], 2)
        prop(r, 'xcrg', x)
        prop(r, 'ycrg', y)
        check(cx, r, 'xcrgIsValid', x >= 0)
        check(cx, r, 'ycrgIsValid', y >= 0)


def spec_com(cx, b, r, csiz, start):
    lcom = uint(b[0:2], 2)
    rcom = uint(b[2:4], 2)
    prop(r, 'lcom', lcom)
    prop(r, 'rcom', rcom)
    check(cx, r, 'lcomIsValid', 5 <= lcom <= 65535)
    check(cx, r, 'rcomIsValid', rcom == 0 or rcom == 1)
    comment = b[4:lcom]
    if rcom == 0:
        check(cx, r, 'commentIsValid', True)
        prop(r, 'comment', hextext(comment))
    elif rcom == 1:
        text = latin(comment)
        ok = clean(text) == text
        check(cx, r, 'commentIsValid', ok)
        if ok:
            prop(r, 'comment', text)
    else:
        check(cx, r, 'commentIsValid', False)


def spec_cap(cx, b, r, csiz, start):
    lcap = uint(b[0:2], 2)
    prop(r, 'lcap', lcap)
    pcap = uint(b[2:6], 4)
    count = 0
    before15 = 0
    for part in range(1, 33):
        if bit(pcap, 32 - part) == 1:
            prop(r, 'pcapPart', part)
            count += 1
            if part < 15:
                before15 += 1
    check(cx, r, 'lcapIsValid', lcap == 6 + 2 * count)
    if cx.fmt in ('jph', 'jhc'):
        present = bit(pcap, 17) == 1
        check(cx, r, 'pcap15IsValid', present)
        if present:
            ccap = uint(b[6 + 2 * before15:8 + 2 * before15], 2)
            prop(r, 'htCodeBlocks', bit(ccap, 15) * 32768 + bit(ccap, 14) * 16384)
            prop(r, 'htSets', bit(ccap, 13))
            prop(r, 'htRegion', bit(ccap, 12))
            prop(r, 'htHomogeneous', bit(ccap, 11))
            prop(r, 'htReversible', bit(ccap, 5))
            p = ccap % 32
            if p == 0:
                htB = 8
            elif p < 20:
                htB = p + 8
            elif p < 31:
                htB = 4 * (p - 19) + 27
            else:
                htB = 74
            prop(r, 'htB', htB)


def profile_number(b, n, base):
    """base plus the n 16-bit digits from offset 2, least significant digit first."""
    num = base
    for i in range(n):
        num += shifted(uint(b[2 + 2 * i:4 + 2 * i], 2), 16 * i)
    return num


def spec_prf(cx, b, r, csiz, start):
    lprf = uint(b[0:2], 2)
    prop(r, 'lprf', lprf)
    check(cx, r, 'lprfIsValid', 4 <= lprf <= 65534)
    n = (lprf - 2) // 2
    if n >= 1:
        check(cx, r, 'pprfIsValid', uint(b[2 * n:2 * n + 2], 2) != 0)
    number = profile_number(b, n, 4095)
    check(cx, r, 'PRFnumIsValid', number > 4095)
    prop(r, 'PRFnum', number)


def spec_cpf(cx, b, r, csiz, start):
    lcpf = uint(b[0:2], 2)
    prop(r, 'lcpf', lcpf)
    ht = cx.fmt in ('jph', 'jhc')
    if ht:
        check(cx, r, 'lcpfIsValid', 4 <= lcpf <= 65534)
    n = (lcpf - 2) // 2
    if ht and n >= 1:
        check(cx, r, 'pcpfIsValid', uint(b[2 * n:2 * n + 2], 2) != 0)
    prop(r, 'CPFnum', profile_number(b, n, -1))


def spec_sot(cx, b, r, csiz, start):
    lsot = uint(b[0:2], 2)
    isot = uint(b[2:4], 2)
    psot = uint(b[4:8], 4)
    tpsot = uint(b[8:9], 1)
    tnsot = uint(b[9:10], 1)
    prop(r, 'lsot', lsot)
    prop(r, 'isot', isot)
    prop(r, 'psot', psot)
    prop(r, 'tpsot', tpsot)
    prop(r, 'tnsot', tnsot)
    check(cx, r, 'lsotIsValid', lsot == 10)
    check(cx, r, 'isotIsValid', 0 <= isot <= 65534)
    check(cx, r, 'psotIsValid', psot < 1 or psot > 13)
    check(cx, r, 'tpsotIsValid', 0 <= tpsot <= 254)
    r.psot = psot


def spec_tlm(cx, b, r, csiz, start):
    pass


def spec_ppm(cx, b, r, csiz, start):
    pass


def spec_ppt(cx, b, r, csiz, start):
    pass


def packet_lengths(b, limit, at):
    """Comma-separated packet lengths from offset at: 7 bits per byte, most
    significant first, the top bit of a byte set if more bytes follow."""
    out = ''
    i = at
    while i < limit and i < len(b):
        n = 1
        while i + n < len(b) and uint(b[i + n - 1:i + n], 1) >= 128:
            n += 1
        v = 0
        for k in range(n):
            v = v * 128 + uint(b[i + k:i + k + 1], 1) % 128
        i += n
        out += hexfield(2 * n, v) + ','
    return out[:-1]


def spec_plm(cx, b, r, csiz, start):
    lplm = uint(b[0:2], 2)
    prop(r, 'lplm', lplm)
    prop(r, 'zplm', uint(b[2:3], 1))
    prop(r, 'nplm', uint(b[3:4], 1))
    prop(r, 'iplm', packet_lengths(b, lplm, 4))


def spec_plt(cx, b, r, csiz, start):
    lplt = uint(b[0:2], 2)
    prop(r, 'lplt', lplt)
    prop(r, 'zplt', uint(b[2:3], 1))
    prop(r, 'iplt', packet_lengths(b, lplt, 3))


# ---------------------------------------------------------------- metadata boxes

def spec_xmlBox(cx, b, r, csiz, start):
    ok = xml_ok(b)
    xml_content(cx, b, r, ok)
    check(cx, r, 'containsWellformedXML', ok)


def xml_content(cx, data, r, ok):
    if ok:
        adopt(r.props, xml_tree(data))
    elif cx.nullxml and xml_ok(strip_nulls(data)):
        adopt(r.props, xml_tree(strip_nulls(data)))


XMP = b'\xbe\x7a\xcf\xcb\x97\xa9\x42\xe8\x9c\x71\x99\x94\x91\xe3\xaf\xac'


def spec_uuidBox(cx, b, r, csiz, start):
    check(cx, r, 'boxLengthIsValid', len(b) > 16)
    if b[0:16] == XMP:
        data = b[16:]
        ok = xml_ok(data)
        xml_content(cx, data, r, ok)
        check(cx, r, 'containsWellformedXML', ok)
    elif len(b) >= 16:
        prop(r, 'uuid', uuidtext(b[0:16]))
    else:
        prop(r, 'uuid', '')


def spec_uuidInfoBox(cx, b, r, csiz, start):
    kinds = walk_boxes(cx, b, r)
    check(cx, r, 'containsOneListBox', kinds.count(b'ulst') == 1)
    check(cx, r, 'containsOneURLBox', kinds.count(b'url ') == 1)


def spec_uuidListBox(cx, b, r, csiz, start):
    nU = uint(b[0:2], 2)
    prop(r, 'nU', nU)
    check(cx, r, 'boxLengthIsValid', len(b) == 2 + 16 * nU)
    for k in range(min(nU, (len(b) - 2) // 16)):
        prop(r, 'uuid', uuidtext(b[2 + 16 * k:18 + 16 * k]))


def spec_urlBox(cx, b, r, csiz, start):
    version = uint(b[0:1], 1)
    prop(r, 'version', version)
    check(cx, r, 'versionIsValid', version == 0)
    check(cx, r, 'flagIsValid', b[1:4] == b'\x00\x00\x00')
    loc = b[4:]
    check(cx, r, 'locHasNullTerminator', len(loc) > 0 and loc[-1:] == b'\x00')
    text = strip_nulls(loc)
    check(cx, r, 'locIsUTF8', is_utf8(text))
    prop(r, 'loc', text)


# ---------------------------------------------------------------- dispatch (concrete)

def new_result(kind):
    if kind == 'JP2' or kind == 'contiguousCodestreamBox':
        return Res('tests', 'properties', 'warnings')
    name = NAMES.get(kind, 'unknownBox')
    return Res(name, name, name)


def sub(cx, kind, content, csiz=None, start=None):
    """Contract of the structure named by `kind` applied to its contents."""
    r = new_result(kind)
    if kind == 'JP2':
        spec_JP2(cx, content, r, csiz, start)
    elif kind == 'contiguousCodestreamBox':
        spec_contiguousCodestreamBox(cx, content, r, csiz, start)
    elif kind in NAMES:
        globals()['spec_' + NAMES[kind]](cx, content, r, csiz, start)
    else:
        spec_unknownBox(cx, content, r, kind)
    return r
