BV = 'jpylyzer/boxvalidator.py'
JP = 'jpylyzer/jpylyzer.py'
SEEDS = [
 dict(id='b01-xl-box-content', property='C01',
  edits=[(BV, "            boxLengthValue = bc.bytesToULongLong(\n                self.boxContents[byteStart + 8:byteStart + 16])\n            contentsStartOffset = 16",
   "            boxLengthValue = bc.bytesToULongLong(\n                self.boxContents[byteStart + 8:byteStart + 16])\n            contentsStartOffset = 16 if boxLengthValue > 24 else 8")],
  needs='a box with an extended (8 byte) length field and at most 8 bytes of contents',
  breaks='the contents analysed for such a box start inside its header',
  demo="""
inner = b'\\0\\0\\0\\x01uinf' + struct.pack('>Q', 16)
r = validate('JP2', b'\\0\\0\\0\\x01jP  ' + struct.pack('>Q', 20) + b'\\x0d\\x0a\\x87\\x0a' + FTYP)
assert 'signatureIsValid' not in failed(r), failed(r)
"""),
 dict(id='b02-ppm-count', property='C02',
  edits=[(BV, "                    ppmCount += 1\n", "                    ppmCount = max(ppmCount, 1 + len(self.characteristics.findall('ppm')))\n")],
  needs='two or more PPM segments while packet markers are not reported',
  breaks='the reported number of PPM segments',
  demo="""
ppm = seg(0x60, b'\\0\\1\\2')
r = validate('contiguousCodestreamBox', stream(extra=ppm * 3), validationFormat='j2c')
assert texts(r, 'ppmCount') == [3], texts(r, 'ppmCount')
"""),
 dict(id='b03-tilepart-announced', property='C03',
  edits=[(BV, "                    if tilePartsOfTile != 0:\n                        tilePartsPerTileExpected[tileIndex] = tilePartsOfTile",
   "                    if tilePartsOfTile != 0:\n                        tilePartsPerTileExpected.setdefault(tileIndex, tilePartsOfTile)")],
  needs='a tile whose tile-parts announce different numbers of tile-parts',
  breaks='the expected number of tile-parts is taken from the first instead of the last announcement',
  demo="""
p = part(0, tn=3) + part(0, tp=1, tn=2)
r = validate('contiguousCodestreamBox', stream(parts=p), validationFormat='j2c')
assert 'foundExpectedNumberOfTileParts' not in failed(r), failed(r)
"""),
 dict(id='b04-verdict-depth', property='C04',
  edits=[(BV, "        for elt in self.tests.iter():\n            if elt.text is False:", "        for elt in self.tests.findall('*') + self.tests.findall('*/*') + self.tests.findall('*/*/*'):\n            if elt.text is False:")],
  needs='a failed test nested four levels deep (a marker segment in a tile-part header of a JP2)',
  breaks='the verdict ignores failed tests in tile-part marker segments',
  demo="""
bad = seg(0x64, b'\\0\\x05abc')
r = validate('JP2', jp2(cs=stream(parts=part(head=bad))))
assert failed(r) and r.isValid is False, (failed(r), r.isValid)
"""),
 dict(id='b05-cmap-pcol', property='C05',
  edits=[(BV, "            if mTyp == 0:\n                pColIsValid = pCol == 0\n            else:\n                pColIsValid = True\n",
   "            pColIsValid = mTyp != 0 or pCol in (0, -9999)\n"),
   (BV, "        numberOfChannels = int(len(self.boxContents) / 4)\n", "        numberOfChannels = math.ceil(len(self.boxContents) / 4)\n")],
  needs='a component mapping box whose size is not a multiple of 4',
  breaks='an incomplete channel is tested and reported',
  demo="""
r = validate(b'cmap', b'\\0\\0\\0\\0\\0\\1', verboseFlag=True)
assert len(tests(r)) == 3, tests(r)
"""),
 dict(id='b06-colr-contiguous', property='C06',
  edits=[('jpylyzer/shared.py', "    for i in range(1, len(lst)):\n", "    for i in range(1, len(lst) - 1):\n")],
  needs='colour specification boxes that are contiguous except for the last one',
  breaks='colourSpecificationBoxesAreContiguous',
  demo="""
bpcc = box(b'bpcc', b'\\x07')
r = validate(b'jp2h', ihdr() + COLR + bpcc + COLR)
assert 'colourSpecificationBoxesAreContiguous' in failed(r), failed(r)
"""),
 dict(id='b07-coc-257', property='C07',
  edits=[(BV, "        elif precincts == 1 and self.csiz >= 257:\n            lcocExpected = 11 + levels", "        elif precincts == 1 and self.csiz > 257:\n            lcocExpected = 11 + levels")],
  needs='a COC segment with user-defined precincts in a codestream of exactly 257 components',
  breaks='lcocConsistencyCheck',
  demo="""
c = struct.pack('>HHBBBBBB', 13, 3, 1, 2, 4, 4, 0, 1) + b'\\x11' * 3
r = validate(b'\\xff\\x53', c, components=257)
assert 'lcocConsistencyCheck' not in failed(r), failed(r)
"""),
 dict(id='b08-prf-num', property='C08',
  edits=[(BV, "        self.testFor(\"PRFnumIsValid\", PRFnum > 4095)", "        self.testFor(\"PRFnumIsValid\", PRFnum >= 4095)")],
  needs='a PRF segment whose profile number is exactly 4095 (all entries zero)',
  breaks='PRFnumIsValid',
  demo="""
r = validate(b'\\xff\\x56', b'\\0\\x04\\0\\0')
assert 'PRFnumIsValid' in failed(r), failed(r)
"""),
 dict(id='b09-ratio-signed', property='C09',
  edits=[(BV, "            if bPCSign == 1 and bPCDepth == 128:\n                # Actual", "            if bPCDepth == 128:\n                # Actual")],
  needs='an image header with an unsigned depth of 128 bits',
  breaks='depth and sign consistency tests and compression ratio use the bits per component box',
  demo="""
r = validate('JP2', jp2(head=ihdr(bpc=127) + COLR, cs=stream(siz=sizc(ssiz=127))))
assert 'bPCDepthConsistentWithSIZ' not in failed(r), failed(r)
"""),
 dict(id='b11-poc-wide', property='C11',
  edits=[(BV, "            progOrderChanges = int((lpoc - 2) / 9)", "            progOrderChanges = int((lpoc - 2) / 10)")],
  needs='a POC segment with one to nine changes in a codestream of more than 256 components',
  breaks='the last progression order change is not reported',
  demo="""
c = struct.pack('>H', 20) + struct.pack('>BHHBHB', 0, 1, 2, 3, 4, 0) * 2
r = validate(b'\\xff\\x5f', c, components=300)
assert len(texts(r, 'rspoc')) == 2, texts(r, 'rspoc')
"""),
 dict(id='b12-icc-tags', property='C12',
  edits=[(BV, "            i = tagSignatures.index(b'desc')", "            i = len(tagSignatures) - 1 - tagSignatures[::-1].index(b'desc')")],
  needs='an ICC profile with two desc tags',
  breaks='the description is taken from the last instead of the first desc tag',
  demo="""
def tag(s, o, n): return s + struct.pack('>II', o, n)
head = bytes(128) + struct.pack('>I', 2) + tag(b'desc', 156, 16) + tag(b'desc', 172, 16)
d = lambda s: b'desc' + bytes(4) + struct.pack('>I', 4) + s + b'\\0'
r = validate('icc', head + d(b'abc') + d(b'xyz'))
assert texts(r, 'description') == [b'abc'], texts(r, 'description')
"""),
 dict(id='b13-uuidlist', property='C13',
  edits=[(BV, "        self.testFor(\"boxLengthIsValid\", len(self.boxContents) == nU * 16 + 2)", "        self.testFor(\"boxLengthIsValid\", (len(self.boxContents) - 2) // 16 == nU)")],
  needs='a UUID list box with up to 15 bytes after its last UUID',
  breaks='boxLengthIsValid',
  demo="""
r = validate(b'ulst', b'\\0\\1' + bytes(range(20)))
assert 'boxLengthIsValid' in failed(r), failed(r)
"""),
 dict(id='b14-tile-none', property='C14',
  edits=[(BV, "            if noBytes != 0:\n", "            if True:\n") if False else (BV, "        if xTsiz != 0 and yTsiz != 0:", "        if xTsiz != 0 or yTsiz != 0:")],
  needs='a SIZ segment where exactly one of the tile dimensions is zero',
  breaks='division by zero, reported as unknown error',
  demo="""
e = onefile(stream(siz=sizc(th=0)), 'j2c')
assert e.find('statusInfo/success').text == 'True', e.find('statusInfo/failureMessage').text
"""),
 dict(id='b15-superbox-loop', property='C15',
  edits=[(BV, "        while byteStart < noBytes and boxLengthValue not in [0, -9999]:\n            boxLengthValue, boxType", "        while byteStart < noBytes and boxLengthValue != 0:\n            boxLengthValue, boxType")],
  needs='a JP2 header box that ends within the length field of a sub-box',
  breaks='endless loop over the sub-boxes',
  demo="""
import signal
signal.signal(signal.SIGALRM, lambda *a: os._exit(3)); signal.alarm(10)
import resource; resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
r = validate(b'jp2h', ihdr() + b'\\0\\0\\1')
"""),
 dict(id='b16-verbose-null', property='C16',
  edits=[(BV, "                    data = bc.removeNullTerminator(data)\n                    dataAsElement = ET.fromstring(data)\n                    self.characteristics.append(dataAsElement)\n                except Exception:",
   "                    data = bc.removeNullTerminator(data)\n                    dataAsElement = ET.fromstring(data)\n                    self.characteristics.append(dataAsElement)\n                    containsWellformedXML = True\n                except Exception:")],
  needs='an XML box with a null terminator and the null-terminated-XML option',
  breaks='the option changes the outcome of a test',
  demo="""
x = b'<a>b</a>\\0'
assert failed(validate(b'xml ', x)) == failed(validate(b'xml ', x, nullxmlFlag=True))
"""),
 dict(id='b17-remap-float', property='C17',
  edits=[('jpylyzer/etpatch.py', "                    remappedValue = parameterMap[textIn]", "                    remappedValue = parameterMap[abs(textIn) if isinstance(textIn, int) and textIn > -2 else textIn]")],
  needs='a value of -1 in an enumerated property',
  breaks='a value that is no member of the enumeration gets a description',
  demo="""
e = ET.Element('properties'); e.appendChildTagWithText('meth', -1)
e.makeHumanReadable(J.generatePropertiesRemapTable())
assert e[0].text == '-1', e[0].text
"""),
 dict(id='b18-partial-results', property='C18',
  edits=[(JP, "        tests = ET.Element(\"tests\")\n        characteristics = ET.Element(\"properties\")\n        warnings = ET.Element(\"warnings\")\n",
   "        tests = ET.Element(\"tests\")\n        if 'characteristics' not in locals():\n            characteristics = ET.Element(\"properties\")\n        warnings = ET.Element(\"warnings\")\n")],
  needs='an error after the analysis proper, while the results are made readable',
  breaks='partial properties are shown although the analysis failed',
  demo="""
orig = J.generatePropertiesRemapTable
def boom(): raise ValueError('x')
J.generatePropertiesRemapTable = boom
e = onefile(jp2())
assert e.find('statusInfo/success').text == 'False' and len(e.find('properties')) == 0
"""),
 dict(id='b19-pretty', property='C19',
  edits=[(JP, "        xmlAsList = xmlPretty.split(\"\\n\")\n        # Remove first item (xml declaration)\n        del xmlAsList[0]\n", "        xmlAsList = [line.rstrip() for line in xmlPretty.split(\"\\n\") if line.strip()]\n        # Remove first item (xml declaration)\n        del xmlAsList[0]\n") if False else
   (JP, "        xmlAsList = xmlPretty.split(\"\\n\")\n", "        xmlAsList = [s for s in xmlPretty.split(\"\\n\") if s.strip() != ';']\n")],
  needs='a comment of which one line is a single semicolon, with pretty-printing on',
  breaks='that line is missing from the pretty-printed document',
  demo="""
d = tempfile.mkdtemp(); p = os.path.join(d, 'a.jp2')
open(p, 'wb').write(jp2(cs=stream(extra=seg(0x64, b'\\0\\1a\\n;\\nb'))))
try:
    a = run([p]).stdout.decode(); b = run(['--nopretty', p]).stdout.decode()
finally:
    os.remove(p); os.rmdir(d)
import xml.etree.ElementTree as X
f = lambda t: [''.join((e.text or '').split()) for e in X.fromstring(t).iter()]
assert f(a) == f(b)
"""),
 dict(id='b20-wild-single-dir', property='C20',
  edits=[(JP, "            if len(filesList) > 1:\n                for f in filesList:\n                    if os.path.isfile(f):", "            if len(filesList) > 1:\n                for f in sorted(filesList)[:256]:\n                    if os.path.isfile(f):")],
  needs='a wildcard expression that matches more than 256 entries',
  breaks='files are silently left out',
  demo="""
import shutil
d = tempfile.mkdtemp()
try:
    for i in range(300): open(os.path.join(d, '%03d.x' % i), 'w').close()
    del J.EXISTING_FILES[:]
    J.findFiles(False, [os.path.join(d, '*.x')])
    assert len(J.EXISTING_FILES) == 300, len(J.EXISTING_FILES)
finally:
    shutil.rmtree(d)
"""),
 dict(id='b21-fmt-case', property='C21',
  edits=[(JP, "    if config.VALIDATION_FORMAT in ['j2c', 'jhc']:\n        config.MIX_FLAG = 0", "    if args.fmt in ['j2c', 'jhc']:\n        config.MIX_FLAG = 0")],
  needs='a bare codestream format given in upper case together with --mix',
  breaks='MIX output is not suppressed',
  demo="""
d = tempfile.mkdtemp(); p = os.path.join(d, 'a.j2c')
open(p, 'wb').write(stream())
try:
    a = run(['-f', 'J2C', '--mix', '1', p]).stdout.decode()
finally:
    os.remove(p); os.rmdir(d)
assert 'propertiesExtension' not in a
"""),
 dict(id='b23-state', property='C23',
  edits=[(BV, "        if not self.verboseFlag:\n            # Non-verbose", "        if testType == \"foundCAPMarker\":\n            self.typeMap.setdefault(b'\\xff\\x5b', \"tlm\")\n        if not self.verboseFlag:\n            # Non-verbose")],
  needs='analysing a file that calls for a CAP segment, and after it one with an unknown box of type ff5b',
  breaks='a shared table is changed by analysing a file',
  demo="""
before = dict(bv.BoxValidator.typeMap)
validate('contiguousCodestreamBox', stream(siz=sizc(rsiz=0x4000)), validationFormat='jhc')
assert before == bv.BoxValidator.typeMap
"""),

 dict(id='b22-rdf-attribute', property='C22',
  edits=[('jpylyzer/mix.py', "        value = prop.find(path)\n        if value is not None:\n            return value.text\n", "        value = prop.find(path)\n        if value is not None and (value.text or prop.find(prefixPath).get(ns + tag) is None):\n            return value.text\n")],
  needs='XMP in which a property is an empty element and an attribute at the same time',
  breaks='the attribute is used although there is an element',
  demo="""
X = '<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description xmlns:xap="http://ns.adobe.com/xap/1.0/" xap:CreatorTool="Tool 1.0"><xap:CreatorTool> </xap:CreatorTool></rdf:Description></rdf:RDF></x:xmpmeta>'
from jpylyzer import mix
def soft(x):
    r = ET.fromstring('<properties><xmlBox>%s</xmlBox></properties>' % x)
    m = mix.Mix(1).generateMixImageCaptureMetadata(r)
    return [e.text for e in m.iter('mix:scanningSoftwareName')]
a = soft(X)
b = soft(X.replace('<xap:CreatorTool> <', '<xap:CreatorTool>Other<').replace('Tool 1.0', 'X'))
try:
    c = soft(X.replace('<xap:CreatorTool> </xap:CreatorTool>', '<xap:CreatorTool/>'))
except Exception:
    c = []
assert b == ['Other'] and c == [], (a, b, c)
"""),
 dict(id='b24-resolution-unsigned', property='C10',
  edits=[(BV, "        hRdE = bc.bytesToSignedChar(self.boxContents[9:10])\n", "        hRdE = bc.bytesToSignedChar(self.boxContents[9:10]) if vRdE >= 0 else -abs(bc.bytesToSignedChar(self.boxContents[9:10]))\n")],
  needs='a display resolution box with a negative vertical and a positive horizontal exponent',
  breaks='the sign of the horizontal exponent',
  demo="""
r = validate(b'resd', bytes([0, 3, 0, 1, 0, 3, 0, 1, 0xff, 2]))
assert texts(r, 'hRdE') == [2], texts(r, 'hRdE')
"""),
 dict(id='b25-alpha-duplicates', property='C05',
  edits=[(BV, "            if cTyp in [1, 2]:\n                alphaChannels.append([cTyp, cAssoc])", "            if cTyp in [1, 2] and [cTyp, cAssoc] not in alphaChannels:\n                alphaChannels.append([cTyp, cAssoc])")],
  needs='a channel definition box with two opacity channels of the same type and association',
  breaks='noMoreThanOneAlphaChannel',
  demo="""
r = validate(b'cdef', struct.pack('>7H', 2, 0, 1, 0, 1, 1, 0), validationFormat='jph')
assert 'noMoreThanOneAlphaChannel' in failed(r), failed(r)
"""),
 dict(id='b26-qcc-component-zero', property='C02',
  edits=[(BV, "                        set(cqccValuesMain)) == len(cqccValuesMain))", "                        set(cqccValuesMain) - {0}) + cqccValuesMain.count(0) == len(cqccValuesMain))")],
  needs='two QCC segments for component 0 in the main header',
  breaks='maxOneCqccPerComponentMain',
  demo="""
q = seg(0x5d, bytes([0, 0x40]) + bytes([0x48] * 4))
r = validate('contiguousCodestreamBox', stream(extra=q + q), validationFormat='j2c')
assert 'maxOneCqccPerComponentMain' in failed(r), failed(r)
"""),
 dict(id='b27-batch-end', property='C19',
  edits=[(JP, "    out.write(\"</jpylyzer>\\n\")", "    if EXISTING_FILES[-1:] != EXISTING_FILES[:1] or len(EXISTING_FILES) == 1:\n        out.write(\"</jpylyzer>\\n\")")],
  needs='the same file as first and last argument',
  breaks='the document is not closed',
  demo="""
d = tempfile.mkdtemp(); p = os.path.join(d, 'a.jp2')
open(p, 'wb').write(b'x')
try:
    a = run([p, p]).stdout.decode()
finally:
    os.remove(p); os.rmdir(d)
import xml.etree.ElementTree as X
assert len(X.fromstring(a)) == 3
"""),
 dict(id='b28-walk-hidden', property='C20',
  edits=[(JP, "    for dirname, dirnames, filenames in os.walk(rootDir):\n        # Suppress directory names\n        for subdirname in dirnames:\n            # pylint", "    for dirname, dirnames, filenames in os.walk(rootDir):\n        dirnames[:] = [d for d in dirnames if not d.endswith('~')]\n        # Suppress directory names\n        for subdirname in dirnames:\n            # pylint")],
  needs='a recursive run on a tree with a directory whose name ends in a tilde',
  breaks='the files below that directory are silently left out',
  demo="""
import shutil
d = tempfile.mkdtemp()
try:
    os.makedirs(os.path.join(d, 'old~', 'x'))
    for n in ('a', 'old~/b', 'old~/x/c'): open(os.path.join(d, n), 'w').close()
    del J.EXISTING_FILES[:]
    J.findFiles(True, [d])
    assert len(J.EXISTING_FILES) == 3, J.EXISTING_FILES
finally:
    shutil.rmtree(d)
"""),
 dict(id='b29-xml-blank', property='C13',
  edits=[(BV, "        data = self.boxContents\n\n        # Data must be well-formed XML. Try to parse data to Element\n        # instance.\n\n        try:\n            dataAsElement = ET.fromstring(data)", "        data = self.boxContents\n\n        # Data must be well-formed XML. Try to parse data to Element\n        # instance.\n\n        try:\n            dataAsElement = ET.fromstring(data.lstrip(b'\\xef\\xbb\\xbf \\r\\n'))")],
  needs='XML with white space before its declaration',
  breaks='ill-formed XML passes',
  demo="""
r = validate(b'xml ', b'\\n<?xml version="1.0"?><a/>')
assert 'containsWellformedXML' in failed(r), failed(r)
"""),
 dict(id='b30-float-digits', property='C17',
  edits=[('jpylyzer/etpatch.py', "                        textOut = str(remappedValue)\n", "                        textOut = str(remappedValue) if textType != float else str(round(remappedValue, 12))\n")],
  needs='a property with more than 12 decimals',
  breaks='digits are lost',
  demo="""
e = ET.Element('a'); e.appendChildTagWithText('b', 1 / 3); e.makeHumanReadable()
assert float(e[0].text) == 1 / 3, e[0].text
"""),
]
