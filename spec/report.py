"""Contracts of the report layer: readable values, file report, MIX, file
selection.  Written from the user manual; same language as jp2.py."""
import datetime
import decimal
import re

from .prim import Node, leaf, adopt, is_empty, find, find_all, text_of, texts_of, utf8clean, clean
from . import jp2

YESNO = {0: 'no', 1: 'yes'}
SIGN = {0: 'unsigned', 1: 'signed'}

# The manual's tables of enumerated property values
TABLE = {
    'unkC': YESNO, 'iPR': YESNO, 'embeddedProfile': YESNO, 'vidFRng': YESNO,
    'profileCannotBeUsedIndependently': YESNO, 'sop': YESNO, 'eph': YESNO,
    'multipleComponentTransformation': YESNO, 'codingBypass': YESNO, 'resetOnBoundaries': YESNO,
    'termOnEachPass': YESNO, 'vertCausalContext': YESNO, 'predTermination': YESNO,
    'segmentationSymbols': YESNO,
    'bSign': SIGN, 'bPCSign': SIGN, 'ssizSign': SIGN,
    'c': {7: 'jpeg2000'},
    'meth': {1: 'Enumerated', 2: 'Restricted ICC', 3: 'Any ICC', 4: 'Vendor Colour',
             5: 'Parameterized Colourspace'},
    'enumCS': {16: 'sRGB', 17: 'greyscale', 18: 'sYCC'},
    'profileClass': {b'scnr': 'Input Device Profile', b'mntr': 'Display Device Profile',
                     b'prtr': 'Output Device Profile', b'link': 'DeviceLink Profile',
                     b'spac': 'ColorSpace Conversion Profile', b'abst': 'Abstract Profile',
                     b'nmcl': 'Named Colour Profile'},
    'primaryPlatform': {b'APPL': 'Apple Computer, Inc.', b'MSFT': 'Microsoft Corporation',
                        b'SGI': 'Silicon Graphics, Inc.', b'SUNW': 'Sun Microsystems, Inc.'},
    'transparency': {0: 'Reflective', 1: 'Transparent'},
    'glossiness': {0: 'Glossy', 1: 'Matte'},
    'polarity': {0: 'Positive', 1: 'Negative'},
    'colour': {0: 'Colour', 1: 'Black and white'},
    'renderingIntent': {0: 'Perceptual', 1: 'Media-Relative Colorimetric', 2: 'Saturation',
                        3: 'ICC-Absolute Colorimetric'},
    'mTyp': {0: 'direct use', 1: 'palette mapping'},
    'cTyp': {0: 'colour', 1: 'opacity', 2: 'premultiplied opacity', 3: 'application-defined',
             65535: 'not specified'},
    'cAssoc': {0: 'all colours', 65535: 'no colours'},
    'precincts': {0: 'default', 1: 'user defined'},
    'order': {0: 'LRCP', 1: 'RLCP', 2: 'RPCL', 3: 'PCRL', 4: 'CPRL'},
    'transformation': {0: '9-7 irreversible', 1: '5-3 reversible'},
    'roiStyle': {0: 'Implicit ROI (maximum shift)'},
    'qStyle': {0: 'no quantization', 1: 'scalar derived', 2: 'scalar expounded'},
    'rcom': {0: 'binary', 1: 'ISO/IEC 8859-15 (Latin)'},
    'htCodeBlocks': {0: 'HTONLY', 32768: 'HTDECLARED', 49152: 'MIXED'},
    'htSets': {0: 'SINGLEHT', 1: 'MULTIHT'},
    'htRegion': {0: 'RGNFREE', 1: 'RGN'},
    'htHomogeneous': {0: 'HOMOGENEOUS', 1: 'HETEROGENEOUS'},
    'htReversible': {0: 'HTREV', 1: 'HTIRV'},
}


def digits(n):
    try:
        return str(n)
    except ValueError:
        return str(decimal.Decimal(n))


def readable_value(tag, value, table):
    """Text that the report shows for a property or test value."""
    if tag in table and value in table[tag]:
        return table[tag][value]
    if value is None:
        return None
    if isinstance(value, bytes):
        return utf8clean(value)
    if isinstance(value, (bool, int, float)):
        return digits(value)
    return clean(value)


def readable(node, table):
    n = Node(node.tag)
    n.text = readable_value(node.tag, node.text, table)
    n.attrib = dict(node.attrib)
    n.kids = [readable(k, table) for k in node.kids]
    return n


def with_text(tag, text):
    n = Node(tag)
    n.text = text
    return n


def stamp(mtime):
    try:
        return datetime.datetime.fromtimestamp(mtime).isoformat()
    except (ValueError, OverflowError, OSError):
        return datetime.datetime.fromtimestamp(0).isoformat()


def no_surrogates(s):
    try:
        s.encode('utf-8')
    except UnicodeEncodeError:
        s = s.encode('utf-8', 'replace').decode('utf-8', 'ignore')
    return s


def encodable(s):
    """s as it can be written to XML: no surrogates, no control characters."""
    return clean(no_surrogates(s))


def file_report(name, path, given, size, mtime, data, fmt, verbose, packets, nullxml, mix):
    """Report on a file with contents `data` (None: it cannot be analysed)."""
    root = Node('file')
    info = Node('fileInfo')
    leaf(info, 'fileName', encodable(name))
    leaf(info, 'filePath', encodable(path))
    leaf(info, 'fileSizeInBytes', str(size))
    leaf(info, 'fileLastModified', stamp(mtime))
    adopt(root, info)
    r = jp2.sub(jp2.Cx(fmt, verbose, nullxml, packets),
                'JP2' if fmt in ('jp2', 'jph') else 'contiguousCodestreamBox', data)
    if len(data) == 0:
        leaf(r.warns, 'warning', 'empty file ' + given)
    status = Node('statusInfo')
    leaf(status, 'success', 'True')
    adopt(root, status)
    verdict = with_text('isValid', str(r.valid))
    verdict.attrib['format'] = fmt
    adopt(root, verdict)
    adopt(root, readable(r.tests, {}))
    props = readable(r.props, TABLE)
    adopt(root, props)
    if mix != 0:
        ext = Node('propertiesExtension')
        if fmt in ('jp2', 'jph') and r.valid:
            adopt(ext, mix_tree(props, mix))
        adopt(root, ext)
    adopt(root, readable(r.warns, {}))
    return root


# ---------------------------------------------------------------- MIX

RDF = '{http://www.w3.org/1999/02/22-rdf-syntax-ns#}'
DESCRIPTION = RDF + 'Description'
XAP = '{http://ns.adobe.com/xap/1.0/}'
TIFF = '{http://ns.adobe.com/tiff/1.0/}'
AUX = '{http://ns.adobe.com/exif/1.0/aux/}'
XMPMETA = '{adobe:ns:meta/}xmpmeta'


def section(parent, tag):
    n = Node(tag)
    adopt(parent, n)
    return n


def hundredths(text):
    return str(int(round(float(text) * 100, 0)))


def find_ns(node, tags):
    """First element reached by child tags (which may contain slashes)."""
    cur = [node]
    for t in tags:
        cur = [k for n in cur for k in n.kids if k.tag == t]
    return cur[0] if cur else None


def mix_tree(props, version):
    root = Node('mix:mix')
    if version == 1:
        root.attrib['xmlns:mix'] = 'http://www.loc.gov/mix/v10'
        root.attrib['xsi:schemaLocation'] = 'http://www.loc.gov/mix/v10 http://www.loc.gov/standards/mix/mix10/mix10.xsd'
    else:
        root.attrib['xmlns:mix'] = 'http://www.loc.gov/mix/v20'
        root.attrib['xsi:schemaLocation'] = 'http://www.loc.gov/mix/v20 http://www.loc.gov/standards/mix/mix.xsd'
    root.attrib['xmlns:xsi'] = 'http://www.w3.org/2001/XMLSchema-instance'
    mix_object(root, props, version)
    mix_image(root, props, version)
    mix_capture(root, props)
    mix_assessment(root, props, version)
    return root


def mix_object(root, props, version):
    s = section(root, 'mix:BasicDigitalObjectInformation')
    d = section(s, 'mix:FormatDesignation')
    brand = find(props, 'fileTypeBox/br')
    leaf(d, 'mix:formatName', 'image/jp2' if brand is None else 'image/' + brand.text.strip())
    leaf(s, 'mix:byteOrder', 'big_endian' if version == 1 else 'big endian')
    c = section(s, 'mix:Compression')
    lossless = text_of(props, 'contiguousCodestreamBox/cod/transformation') == '5-3 reversible'
    leaf(c, 'mix:compressionScheme', 'JPEG 2000 Lossless' if lossless else 'JPEG 2000 Lossy')
    ratio = text_of(props, 'compressionRatio')
    if version == 1:
        leaf(c, 'mix:compressionRatio', str(int(round(float(ratio), 0))))
    else:
        q = section(c, 'mix:compressionRatio')
        leaf(q, 'mix:numerator', hundredths(ratio))
        leaf(q, 'mix:denominator', '100')


def mix_image(root, props, version):
    s = section(root, 'mix:BasicImageInformation')
    c = section(s, 'mix:BasicImageCharacteristics')
    leaf(c, 'mix:imageWidth', text_of(props, 'jp2HeaderBox/imageHeaderBox/width'))
    leaf(c, 'mix:imageHeight', text_of(props, 'jp2HeaderBox/imageHeaderBox/height'))
    icc = find(props, 'jp2HeaderBox/colourSpecificationBox/icc')
    enum = find(props, 'jp2HeaderBox/colourSpecificationBox/enumCS')
    if icc is not None:
        p = section(c, 'mix:PhotometricInterpretation')
        leaf(p, 'mix:colorSpace', text_of(icc, 'colourSpace').strip())
        q = section(section(p, 'mix:ColorProfile'), 'mix:IccProfile')
        leaf(q, 'mix:iccProfileName', text_of(icc, 'description'))
    elif enum is not None:
        p = section(c, 'mix:PhotometricInterpretation')
        leaf(p, 'mix:colorSpace', enum.text.strip())
    j = section(section(s, 'mix:SpecialFormatCharacteristics'), 'mix:JPEG2000')
    comment = find(props, 'contiguousCodestreamBox/com/comment')
    if comment is not None:
        m = re.search(r'(.*)-v([0-9\.]*)', comment.text)
        if m:
            q = section(j, 'mix:CodecCompliance')
            leaf(q, 'mix:codec', m.group(1))
            leaf(q, 'mix:codecVersion', m.group(2))
    o = section(j, 'mix:EncodingOptions')
    x = text_of(props, 'contiguousCodestreamBox/siz/xTsiz')
    y = text_of(props, 'contiguousCodestreamBox/siz/yTsiz')
    if version == 1:
        leaf(o, 'mix:tiles', x + 'x' + y)
    else:
        t = section(o, 'mix:Tiles')
        leaf(t, 'mix:tileWidth', x)
        leaf(t, 'mix:tileHeight', y)
    layers = text_of(props, 'contiguousCodestreamBox/cod/layers')
    if layers != '0':
        leaf(o, 'mix:qualityLayers', layers)
    levels = text_of(props, 'contiguousCodestreamBox/cod/levels')
    if levels != '0':
        leaf(o, 'mix:resolutionLevels', levels)


def rdf_value(rdf, name):
    """Value of a property of the first description: element, else attribute."""
    e = find_ns(rdf, (DESCRIPTION, name))
    if e is not None:
        return e.text
    d = find_ns(rdf, (DESCRIPTION,))
    if d is None:
        return None
    return d.attrib.get(name) or None


def rdf_leaf(parent, tag, rdf, name):
    v = rdf_value(rdf, name)
    if v is not None:
        leaf(parent, tag, v.strip())


def mix_capture(root, props):
    rdf = find_ns(props, ('xmlBox', XMPMETA, RDF + 'RDF'))
    if rdf is None or is_empty(rdf):
        rdf = find_ns(props, ('uuidBox', XMPMETA, RDF + 'RDF'))
    if rdf is None or is_empty(rdf):
        return
    s = section(root, 'mix:ImageCaptureMetadata')
    g = section(s, 'mix:GeneralCaptureInformation')
    rdf_leaf(g, 'mix:dateTimeCreated', rdf, XAP + 'CreateDate')
    rdf_leaf(g, 'mix:imageProducer', rdf, TIFF + 'Artist')
    sc = Node('mix:ScannerCapture')
    rdf_leaf(sc, 'mix:scannerManufacturer', rdf, TIFF + 'Make')
    sm = Node('mix:ScannerModel')
    rdf_leaf(sm, 'mix:scannerModelName', rdf, TIFF + 'Model')
    rdf_leaf(sm, 'mix:scannerModelSerialNo', rdf, AUX + 'SerialNumber')
    if not is_empty(sm):
        adopt(sc, sm)
    tool = rdf_value(rdf, XAP + 'CreatorTool')
    if tool is not None:
        q = section(sc, 'mix:ScanningSystemSoftware')
        m = re.search(r'^(.*) ([0-9\.]*)$', tool)
        if m:
            leaf(q, 'mix:scanningSoftwareName', m.group(1))
            leaf(q, 'mix:scanningSoftwareVersionNo', m.group(2))
        else:
            leaf(q, 'mix:scanningSoftwareName', tool)
    if not is_empty(sc):
        adopt(s, sc)


def mix_assessment(root, props, version):
    s = section(root, 'mix:ImageAssessmentMetadata')
    res = find(props, 'jp2HeaderBox/resolutionBox/captureResolutionBox')
    x = 'c'
    if res is None:
        res = find(props, 'jp2HeaderBox/resolutionBox/displayResolutionBox')
        x = 'd'
    if res is not None:
        m = section(s, 'mix:SpatialMetrics')
        leaf(m, 'mix:samplingFrequencyUnit', '3' if version == 1 else 'cm')
        h = section(m, 'mix:xSamplingFrequency')
        leaf(h, 'mix:numerator', hundredths(text_of(res, 'hRes' + x + 'InPixelsPerMeter')))
        leaf(h, 'mix:denominator', '10000')
        v = section(m, 'mix:ySamplingFrequency')
        leaf(v, 'mix:numerator', hundredths(text_of(res, 'vRes' + x + 'InPixelsPerMeter')))
        leaf(v, 'mix:denominator', '10000')
    siz = find(props, 'contiguousCodestreamBox/siz')
    depths = texts_of(siz, 'ssizDepth')
    e = section(s, 'mix:ImageColorEncoding')
    if version == 1:
        q = section(e, 'mix:bitsPerSample')
        leaf(q, 'mix:bitsPerSampleValue', ','.join(depths))
    else:
        q = section(e, 'mix:BitsPerSample')
        for d in depths:
            leaf(q, 'mix:bitsPerSampleValue', d)
    leaf(q, 'mix:bitsPerSampleUnit', 'integer')
    leaf(e, 'mix:samplesPerPixel', text_of(siz, 'csiz'))
