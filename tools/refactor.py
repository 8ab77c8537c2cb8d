"""Edits that keep the behaviour: the checks have to stay quiet on each.

python3-vt tools/refactor.py [ids]     (scratch copies only)
Runs the proof of the listed property on each edited tree and prints what is not
proved; obligations that fail firmly there would be false alarms.
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BV = 'jpylyzer/boxvalidator.py'
BC = 'jpylyzer/byteconv.py'


def sub(f, old, new, count=1):
    return ('sub', f, old, new, count)


def rx(f, pat, new, count=0):
    return ('rx', f, pat, new, count)


R = {}

# helper extracted for the sub-box validation
R['helper_add'] = ('C01', [
    rx(BV, r"(            testsBox = resultsBox.tests\n            characteristicsBox = resultsBox.characteristics\n            warningsBox = resultsBox.warnings\n\n            byteStart = byteEnd\n\n            # Add to list of box types\n            subBoxTypes.append\(boxType\)\n\n            # Add test results, characteristics and warnings to their\n            # respective trees\n)            self.tests.appendIfNotEmpty\(testsBox\)\n            self.characteristics.append\(characteristicsBox\)\n            self.warnings.appendIfNotEmpty\(warningsBox\)\n",
       r"            byteStart = byteEnd\n            subBoxTypes.append(boxType)\n            self._addResults(resultsBox)\n"),
    sub(BV, "    def testFor(self,", '''    def _addResults(self, results):
        """Add results of a sub-structure."""
        self.tests.appendIfNotEmpty(results.tests)
        self.characteristics.append(results.characteristics)
        self.warnings.appendIfNotEmpty(results.warnings)

    def testFor(self,''')])

# table instead of if chain in the main header: one branch for several segments
R['segment_helper'] = ('C02', [
    rx(BV, r"                    results(QCD|QCC|RGN|POC|CRG|COM) = BoxValidator\(\n                        self.options,\n                        marker,\n                        segContents(,\n                        components=csiz)?\).validate\(\)\n                    tests\1 = results\1.tests\n                    characteristics\1 = results\1.characteristics\n                    warnings\1 = results\1.warnings\n                    self.tests.appendIfNotEmpty\(tests\1\)\n                    self.characteristics.append\(characteristics\1\)\n                    self.warnings.appendIfNotEmpty\(warnings\1\)\n",
       lambda m: "                    self._segment(marker, segContents%s)\n" % (', csiz' if m.group(2) else '')),
    sub(BV, "    def testFor(self,", '''    def _segment(self, marker, contents, components=None):
        """Validate a marker segment and add its results."""
        results = BoxValidator(self.options, marker, contents, components=components).validate()
        self.tests.appendIfNotEmpty(results.tests)
        self.characteristics.append(results.characteristics)
        self.warnings.appendIfNotEmpty(results.warnings)

    def testFor(self,''')])

R['ftyp_comprehension'] = ('C10', [
    sub(BV, '''        cLList = []
        offset = 8

        for _ in range(int(numberOfCompatibilityFields)):
            cL = self.boxContents[offset:offset + 4]
            self.addCharacteristic("cL", cL)
            cLList.append(cL)
            offset += 4
''', '''        noFields = int(numberOfCompatibilityFields)
        cLList = [self.boxContents[8 + 4 * i:12 + 4 * i] for i in range(noFields)]
        for cL in cLList:
            self.addCharacteristic("cL", cL)
''')])

R['ftyp_while'] = ('C05', [
    sub(BV, '''        for _ in range(int(numberOfCompatibilityFields)):
            cL = self.boxContents[offset:offset + 4]
            self.addCharacteristic("cL", cL)
            cLList.append(cL)
            offset += 4
''', '''        i = 0
        while i < int(numberOfCompatibilityFields):
            cL = self.boxContents[offset:offset + 4]
            self.addCharacteristic("cL", cL)
            cLList.append(cL)
            offset = offset + 4
            i += 1
''')])

R['ftyp_step'] = ('C05', [
    sub(BV, '''        for _ in range(int(numberOfCompatibilityFields)):
            cL = self.boxContents[offset:offset + 4]
            self.addCharacteristic("cL", cL)
            cLList.append(cL)
            offset += 4
''', '''        for offset in range(8, 8 + 4 * int(numberOfCompatibilityFields), 4):
            cL = self.boxContents[offset:offset + 4]
            self.addCharacteristic("cL", cL)
            cLList.append(cL)
''')])

R['ftyp_divmod'] = ('C05', [
    sub(BV, '''        numberOfCompatibilityFields = (len(self.boxContents) - 8) / 4
''', '''        lengthOfList = len(self.boxContents) - 8
        numberOfCompatibilityFields = max(lengthOfList // 4, 0)
'''), sub(BV, '''        self.testFor("boxLengthIsValid", numberOfCompatibilityFields == int(
            numberOfCompatibilityFields))

        # Brand value
''', '''        self.testFor("boxLengthIsValid", lengthOfList % 4 == 0)

        # Brand value
''')])

R['ratio_sum'] = ('C09', [
    sub(BV, '''        bitsPerPixel = 0

        for i in range(len(bPCDepthValues)):
            bitsPerPixel += bPCDepthValues[i]
''', '''        bitsPerPixel = sum(bPCDepthValues)
'''), sub(BV, '''        if noBytes != 0:
            compressionRatio = sizeUncompressed / noBytes
        else:
            # Obviously something going wrong here ...
            compressionRatio = -9999

        return compressionRatio
''', '''        if noBytes == 0:
            # Obviously something going wrong here ...
            return -9999
        return sizeUncompressed / noBytes
''')])

R['ratio_for'] = ('C09', [
    sub(BV, '''        for i in range(len(bPCDepthValues)):
            bitsPerPixel += bPCDepthValues[i]
''', '''        for depth in bPCDepthValues:
            bitsPerPixel += depth
''')])

R['bitvalue'] = ('C11', [
    sub(BV, '''        shift = wordLength - p

        return (n >> shift) & 1
''', '''        return 1 if n & (1 << (wordLength - p)) else 0
''')])

R['bitvalue2'] = ('C11', [
    sub(BV, '''        shift = wordLength - p

        return (n >> shift) & 1
''', '''        return (n // 2 ** (wordLength - p)) % 2
''')])

R['doconv'] = ('C10', [
    sub(BC, '''    try:
        result = struct.unpack(formatStr, bytestr)[0]
    except BaseException:
        result = -9999
    return result
''', '''    if len(bytestr) != struct.calcsize(formatStr):
        return -9999
    return struct.unpack(formatStr, bytestr)[0]
''')])

R['frombytes'] = ('C10', [
    sub(BC, '''    return _doConv(bytestring, ">", "I")
''', '''    if len(bytestring) != 4:
        return -9999
    return int.from_bytes(bytestring, 'big')
''')])

R['testfor'] = ('C04', [
    sub(BV, '''        if not self.verboseFlag:
            # Non-verbose output: only add results of tests that failed
            if testResult is False:
                self.tests.appendChildTagWithText(testType, testResult)

        else:
            # Verbose output, add results of all tests
            self.tests.appendChildTagWithText(testType, testResult)
''', '''        if self.verboseFlag or testResult is False:
            self.tests.appendChildTagWithText(testType, testResult)
''')])

R['unique_comprehension'] = ('C02', [
    sub(BV, '''            ccocElementsMain = self.characteristics.findall('coc/ccoc')
            # List with all ccoc values
            ccocValuesMain = []
            for elt in ccocElementsMain:
                ccocValuesMain.append(elt.text)
''', '''            ccocValuesMain = [elt.text for elt in self.characteristics.findall('coc/ccoc')]
'''), sub(BV, '''            cqccElementsMain = self.characteristics.findall('qcc/cqcc')
            # List with all cqcc values
            cqccValuesMain = []
            for elt in cqccElementsMain:
                cqccValuesMain.append(elt.text)
''', '''            cqccValuesMain = self.characteristics.findAllText('qcc/cqcc')
''')])

R['qcd_enumerate'] = ('C11', [
    sub(BV, '''        if qStyle == 0:
            for _ in range(levels):
                spqcd = bc.bytesToUnsignedChar(
                    self.boxContents[offset:offset + 1])

                # 5 most significant bits -> exponent epsilon in Eq E-5
                epsilon = (spqcd >> 3) & 31
                self.addCharacteristic("epsilon", epsilon)

                offset += 1

        elif qStyle == 1:
            spqcd = bc''', '''        if qStyle == 0:
            for i in range(levels):
                self.addCharacteristic("epsilon", self._epsilon(offset + i))

        elif qStyle == 1:
            spqcd = bc'''),
    sub(BV, "    def testFor(self,", '''    def _epsilon(self, offset):
        """Exponent."""
        value = bc.bytesToUnsignedChar(self.boxContents[offset:offset + 1])
        return (value >> 3) & 31

    def testFor(self,''')])

R['getbox'] = ('C01', [
    sub(BV, '''        contentsStartOffset = 8

        # Read extended box length if box length value equals 1
        # In that case contentsStartOffset must also be 16 (not 8!)
        # (See ISO/IEC 15444-1 Section I.4)
        if boxLengthValue == 1:
            boxLengthValue = bc.bytesToULongLong(
                self.boxContents[byteStart + 8:byteStart + 16])
            contentsStartOffset = 16

        # For the very last box in a file boxLengthValue may equal 0, so we need
        # to calculate actual value
        if boxLengthValue == 0:
            boxLengthValue = noBytes - byteStart

        # End byte for current box
        byteEnd = byteStart + boxLengthValue
''', '''        extended = boxLengthValue == 1
        if extended:
            boxLengthValue = bc.bytesToULongLong(
                self.boxContents[byteStart + 8:byteStart + 16])
        contentsStartOffset = 16 if extended else 8
        # to end of data if 0
        boxLengthValue = boxLengthValue or noBytes - byteStart
        byteEnd = boxLengthValue + byteStart
''')])

R['getmarker'] = ('C03', [
    sub(BV, '''        if marker in [b'\\xff\\x4f', b'\\xff\\x93', b'\\xff\\xd9', b'\\xff\\x92']:
            # Zero-length markers: SOC, SOD, EOC, EPH
            length = 0
        else:
            # Not a delimiting marker, so remainder contains some data
            length = bc.bytesToUShortInt(
                self.boxContents[offset + 2:offset + 4])
''', '''        delimiting = (b'\\xff\\x4f', b'\\xff\\x93', b'\\xff\\xd9', b'\\xff\\x92')
        length = 0
        if marker not in delimiting:
            length = bc.bytesToUShortInt(
                self.boxContents[offset + 2:offset + 4])
'''), sub(BV, '''        if length == -9999:
            # If length couldn't be determined because of decode error,
            # return bogus value for offsetNext (calling function should
            # handle this further!)
            offsetNext = -9999

        else:
            # Offset value start of next marker segment
            offsetNext = offset + length + 2

        return (marker, length, contents, offsetNext)
''', '''        if length == -9999:
            return marker, length, contents, -9999
        return marker, length, contents, offset + 2 + length
''')])

R['getmarker_dict'] = ('C02', [
    sub(BV, '''        if marker in [b'\\xff\\x4f', b'\\xff\\x93', b'\\xff\\xd9', b'\\xff\\x92']:
''', '''        if marker in {b'\\xff\\x4f', b'\\xff\\x93', b'\\xff\\xd9', b'\\xff\\x92'}:
''')])

R['jp2h_walk'] = ('C06', [
    rx(BV, r"while byteStart < noBytes and boxLengthValue not in \[0, -9999\]:", "while not (byteStart >= noBytes or boxLengthValue == 0 or boxLengthValue == -9999):")])

R['jp2h_break'] = ('C06', [
    rx(BV, r"(        while byteStart < noBytes) and boxLengthValue not in \[0, -9999\]:\n", r"\1:\n            if boxLengthValue in (0, -9999):\n                break\n")])

R['jp2h_true'] = ('C01', [
    rx(BV, r"        while byteStart < noBytes and boxLengthValue not in \[0, -9999\]:\n", r"        while True:\n            if byteStart >= noBytes:\n                break\n            if boxLengthValue == 0 or boxLengthValue == -9999:\n                break\n")])

R['palette_together'] = ('C06', [
    sub(BV, '''        if ((self.boxTagMap['paletteBox'] in subBoxTypes and self.boxTagMap['componentMappingBox']
             not in subBoxTypes) or (self.boxTagMap['componentMappingBox'] in subBoxTypes and
                                     self.boxTagMap['paletteBox'] not in subBoxTypes)):
            paletteAndComponentMappingBoxesOnlyTogether = False
        else:
            paletteAndComponentMappingBoxesOnlyTogether = True
''', '''        hasPalette = self.boxTagMap['paletteBox'] in subBoxTypes
        hasMapping = self.boxTagMap['componentMappingBox'] in subBoxTypes
        paletteAndComponentMappingBoxesOnlyTogether = hasPalette == hasMapping
''')])

R['isvalid'] = ('C04', [
    ('show', BV, 130, 137)])

R['unique_loop'] = ('C06', [
    rx(BV, r'        self.testFor\("noMoreThanOneImageHeaderBox".*?resolutionBox\'\]\) <= 1\)\n', '''        for name in ('imageHeaderBox', 'bitsPerComponentBox', 'paletteBox', 'componentMappingBox',
                     'channelDefinitionBox', 'resolutionBox'):
            self.testFor("noMoreThanOne" + name[0].upper() + name[1:],
                         subBoxTypes.count(self.boxTagMap[name]) <= 1)
''', 0)])

R['consecutive'] = ('C06', [
    sub('jpylyzer/shared.py', '''    for i in range(1, len(lst)):
        if lst[i] - lst[i - 1] != 1:
            return False
    return True
''', '''    return all(b - a == 1 for a, b in zip(lst, lst[1:]))
''')])

R['consecutive2'] = ('C06', [
    sub('jpylyzer/shared.py', '''    indices_of_value = [i for i in range(len(lst)) if lst[i] == value]
''', '''    indices_of_value = [i for i, item in enumerate(lst) if item == value]
''')])

R['consecutive3'] = ('C06', [
    sub('jpylyzer/shared.py', '''    for i in range(1, len(lst)):
        if lst[i] - lst[i - 1] != 1:
            return False
    return True
''', '''    i = 1
    while i < len(lst):
        if lst[i] != lst[i - 1] + 1:
            return False
        i += 1
    return True
''')])

R['ctrl_any'] = ('C08', [
    sub(BC, '''    for i in range(len(bytestring)):
        if isctrl(bytestring[i:i + 1]):
            return True
    return False
''', '''    return any(isctrl(bytestring[i:i + 1]) for i in range(len(bytestring)))
''')])

R['ctrl_iter'] = ('C08', [
    sub(BC, '''    for i in range(len(bytestring)):
        if isctrl(bytestring[i:i + 1]):
            return True
    return False
''', '''    for value in bytestring:
        if value < 32 or value == 127:
            return True
    return False
''')])

R['ipl'] = ('C11', [
    sub(BV, '''            iplt_i = 0
            for ipl_index in range(ipl_i_len):
                iplt_i = (iplt_i << 7) | (bc.bytesToUnsignedChar(
                    self.boxContents[i + ipl_index:i + ipl_index + 1]) & 0x7F)

            i += ipl_i_len
            iplt +=''', '''            iplt_i = 0
            for ipl_index in range(i, i + ipl_i_len):
                iplt_i = iplt_i * 128 + (bc.bytesToUnsignedChar(
                    self.boxContents[ipl_index:ipl_index + 1]) & 0x7F)

            i += ipl_i_len
            iplt +=''')])

R['ipl_join'] = ('C11', [
    sub(BV, '''        iplt = ''
        i = offset
''', '''        values = []
        i = offset
'''), sub(BV, '''            iplt += ('{:0' + str(2 * ipl_i_len) + 'X},').format(iplt_i)
        return iplt[:-1]
''', '''            values.append(('{:0' + str(2 * ipl_i_len) + 'X}').format(iplt_i))
        return ','.join(values)
''')])


JP = 'jpylyzer/jpylyzer.py'
MX = 'jpylyzer/mix.py'
EP = 'jpylyzer/etpatch.py'
SH = 'jpylyzer/shared.py'

# ---- report layer

R['remap_literal'] = ('C17', [
    rx(JP, r"    yesNoMap = \{\}\n    yesNoMap\[0\] = \"no\"\n    yesNoMap\[1\] = \"yes\"\n", "    yesNoMap = {0: \"no\", 1: \"yes\"}\n"),
    rx(JP, r"    signMap = \{\}\n    signMap\[0\] = \"unsigned\"\n    signMap\[1\] = \"signed\"\n", "    signMap = dict(enumerate((\"unsigned\", \"signed\")))\n")])

R['readable_get'] = ('C17', [
    rx(EP, r"            try:\n                # If tag is in enumerationsMap.*?remappedValue = textIn\n            except KeyError:.*?remappedValue = textIn\n",
       "            remappedValue = remapTable.get(tag, {}).get(textIn, textIn)\n")])

R['readable_helper'] = ('C17', [
    rx(EP, r"                # Data type\n                textType = type.*?                # Update output tree\n                elt.text = textOut\n",
       "                elt.text = self._asText(remappedValue)\n"),
    sub(EP, "    def makeHumanReadable(self", '''    @staticmethod
    def _asText(value):
        """Text of a value."""
        if isinstance(value, bytes):
            return bc.bytesToText(value)
        if isinstance(value, (int, float)):
            try:
                return str(value)
            except ValueError:
                return str(decimal.Decimal(value))
        return bc.removeControlCharacters(value)

    def makeHumanReadable(self''')])

R['readable_continue'] = ('C17', [
    sub(EP, "            if remappedValue is not None:\n", "            if remappedValue is None:\n                continue\n            if True:\n")])

R['subelement'] = ('C18', [
    sub(EP, "        el = ET.SubElement(self, tag)\n        el.text = text\n", "        el = ET.Element(tag)\n        el.text = text\n        self.append(el)\n")])

R['failure_helper'] = ('C18', [
    rx(JP, r"        if isinstance\(ex, MemoryError\):\n.*?        tests = ET.Element\(\"tests\"\)", "        failureMessage = failureText(ex)\n\n        tests = ET.Element(\"tests\")"),
    sub(JP, "def checkOneFile(", '''def failureText(ex):
    """Message for an error."""
    report = ("please report to developers by creating "
              "an issue at https://github.com/openpreserve/jpylyzer/issues")
    if isinstance(ex, MemoryError):
        return "memory error (file size too large)"
    if isinstance(ex, OSError):
        return "I/O error (cannot open file)"
    if isinstance(ex, RuntimeError):
        return "runtime error, " + report
    return "unknown error, " + report


def checkOneFile(''')])

R['failure_handlers'] = ('C18', [
    rx(JP, r"        if isinstance\(ex, MemoryError\):\n            failureMessage = \"memory error \(file size too large\)\"\n        elif isinstance\(ex, IOError\):\n            failureMessage = \"I/O error \(cannot open file\)\"\n        elif isinstance\(ex, RuntimeError\):\n            failureMessage = \"runtime error, ",
       "        failureMessage = {True: \"memory error (file size too large)\"}.get(isinstance(ex, MemoryError))\n        if failureMessage is not None:\n            pass\n        elif isinstance(ex, IOError):\n            failureMessage = \"I/O error (cannot open file)\"\n        elif isinstance(ex, RuntimeError):\n            failureMessage = \"runtime error, ")])

R['format_attr'] = ('C18', [
    sub(JP, "    root.appendChildTagWithText(\"isValid\", str(fileIsValid))\n", "    verdict = ET.SubElement(root, \"isValid\")\n    verdict.text = str(fileIsValid)\n    verdict.set(\"format\", validationFormat)\n"),
    rx(JP, r"    # Set 'format' attribute of isValid element\n    root.findall\(.*?\n", "")])

R['options_literal'] = ('C18', [
    rx(JP, r"        bvOptions = \{\}\n.*?= packetmarkersFlag\n", "        bvOptions = {'packetmarkersFlag': packetmarkersFlag, 'nullxmlFlag': nullxmlFlag,\n                     'verboseFlag': verboseFlag, 'validationFormat': validationFormat}\n")])

R['mix_late'] = ('C18', [
    rx(JP, r"    if mixFlag != 0 and validationFormat in \['jp2', 'jph'\] and fileIsValid:\n        mixProperties = .*?\n\n", ""),
    sub(JP, "            extension.append(mixProperties)\n", "            extension.append(mix.Mix(mixFlag).generateMix(characteristics))\n")])

R['else_success'] = ('C18', [
    sub(JP, "    # Initialise success flag\n    success = True\n", "    failureMessage = None\n"),
    sub(JP, "        success = False\n\n        if isinstance", "        if isinstance"),
    sub(JP, "    statusInfo.appendChildTagWithText(\"success\", str(success))\n    if not success:\n", "    statusInfo.appendChildTagWithText(\"success\", str(failureMessage is None))\n    if failureMessage is not None:\n")])

R['write_partition'] = ('C19', [
    rx(JP, r"        xmlAsList = xmlPretty.split\(\"\\n\"\)\n.*?xmlOut = .*?\n", "        xmlOut = xmlPretty.split(\"\\\\n\", 1)[1]\n")])

R['write_slice'] = ('C19', [
    rx(JP, r"        xmlAsList = xmlPretty.split\(\"\\n\"\)\n.*?xmlOut = .*?\n", "        xmlOut = \"\\\\n\".join(xmlPretty.split(\"\\\\n\")[1:])\n")])

R['write_index'] = ('C19', [
    rx(JP, r"        xmlAsList = xmlPretty.split\(\"\\n\"\)\n.*?xmlOut = .*?\n", "        xmlOut = xmlPretty[xmlPretty.index(\"\\\\n\") + 1:]\n")])

R['head_format'] = ('C19', [
    rx(JP, r"    xmlHead = \"<\?xml.*?    out.write\(xmlHead\)\n", '''    xmlHead = (
        "<?xml version='1.0' encoding='UTF-8'?>\\\\n"
        f'<jpylyzer xmlns="{nsString}" xmlns:xsi="{XSI_NS_STRING}" xsi:schemaLocation="{locSchemaString}">\\\\n')
    out.write(xmlHead)
''')])

R['head_percent'] = ('C19', [
    rx(JP, r"    xmlHead = \"<\?xml.*?    out.write\(xmlHead\)\n", '''    out.write("<?xml version='1.0' encoding='UTF-8'?>\\\\n")
    out.write('<jpylyzer xmlns="%s" xmlns:xsi="%s" xsi:schemaLocation="%s">\\\\n' % (nsString, XSI_NS_STRING, locSchemaString))
''')])

R['batch_helper'] = ('C19', [
    rx(JP, r"        # Analyse file\n        xmlElement = checkOneFile\(path,.*?        writeElement\(xmlElement, out\)\n", "        writeElement(analyse(path), out)\n"),
    sub(JP, "def checkFiles(", '''def analyse(path):
    """Report of one file with the current settings."""
    return checkOneFile(path, validationFormat=config.VALIDATION_FORMAT, mixFlag=config.MIX_FLAG,
                        verboseFlag=config.OUTPUT_VERBOSE_FLAG, packetmarkersFlag=config.OUTPUT_PACKET_MARKERS_FLAG,
                        nullxmlFlag=config.EXTRACT_NULL_TERMINATED_XML_FLAG)


def checkFiles(''')])

R['select_unify'] = ('C20', [
    rx(JP, r"            if len\(filesList\) == 1 and os.path.isfile\(filesList\[0\]\):\n                EXISTING_FILES.append\(filesList\[0\]\)\n\n            if len\(filesList\) > 1:\n                for f in filesList:\n                    if os.path.isfile\(f\):\n                        EXISTING_FILES.append\(f\)\n",
       "            EXISTING_FILES.extend(f for f in filesList if os.path.isfile(f))\n")])

R['select_comp'] = ('C20', [
    sub(JP, "    results = glob.glob(searchpattern)\n    for f in results:\n        if os.path.isfile(f):\n            EXISTING_FILES.append(f)\n",
        "    EXISTING_FILES.extend([f for f in glob.glob(searchpattern) if os.path.isfile(f)])\n")])

R['select_filter'] = ('C20', [
    sub(JP, "    results = glob.glob(searchpattern)\n    for f in results:\n        if os.path.isfile(f):\n            EXISTING_FILES.append(f)\n",
        "    EXISTING_FILES.extend(filter(os.path.isfile, glob.glob(searchpattern)))\n")])

R['select_helper'] = ('C20', [
    sub(JP, "                if not os.path.isabs(root):\n                    root = os.path.abspath(root)\n".replace('                ', '            ', 1).replace('                    ', '                '), "            root = absolute(root)\n", 2),
    sub(JP, "def findFiles(", '''def absolute(path):
    """Absolute form of a path."""
    return path if os.path.isabs(path) else os.path.abspath(path)


def findFiles(''')])

R['select_tree'] = ('C20', [
    rx(JP, r"        # Suppress directory names\n        for subdirname in dirnames:\n            # pylint.*?\n            thisDirectory = .*?\n\n        for filename in filenames:\n            thisFile = .*?EXISTING_FILES.append\(thisFile\)\n",
       "        found = [os.path.join(dirname, filename) for filename in filenames]\n        EXISTING_FILES.extend(f for f in found if os.path.isfile(f))\n")])

R['select_tree2'] = ('C20', [
    rx(JP, r"    for dirname, dirnames, filenames in os.walk\(rootDir\):\n        # Suppress directory names\n        for subdirname in dirnames:\n            # pylint.*?\n            thisDirectory = .*?\n\n        for filename in filenames:\n            thisFile = .*?EXISTING_FILES.append\(thisFile\)\n",
       "    for dirname, _, filenames in os.walk(rootDir):\n        for filename in filenames:\n            thisFile = os.path.join(dirname, filename)\n            if not os.path.isfile(thisFile):\n                continue\n            EXISTING_FILES.append(thisFile)\n")])

R['select_onematch'] = ('C20', [
    rx(JP, r"            if len\(filesList\) == 1 and os.path.isfile\(filesList\[0\]\):\n                EXISTING_FILES.append\(filesList\[0\]\)\n\n            if len\(filesList\) > 1:\n                for f in filesList:\n                    if os.path.isfile\(f\):\n                        EXISTING_FILES.append\(f\)\n",
       "            for f in filesList:\n                if os.path.isfile(f):\n                    EXISTING_FILES.append(f)\n")])

R['select_names'] = ('C20', [
    rx(JP, r"if len\(filesList\) == 1 and os.path.isdir\(filesList\[0\]\):\n                # set[^\n]*\n                root = filesList\[0\]\n", "if len(filesList) == 1:\n                match = filesList[0]\n                if os.path.isdir(match):\n                    root = match\n")])

R['select_continue'] = ('C20', [
    sub(JP, "        if recurse:\n            # get absolute", "        if not recurse:\n            continue\n        if True:\n            # get absolute")])

R['select_split'] = ('C20', [
    rx(JP, r"                pathAndFilePattern = os.path.split\(root\)\n                path = pathAndFilePattern\[0\]\n                filePattern = pathAndFilePattern\[1\]\n", "                path, filePattern = os.path.split(root)\n")])

R['select_sorted'] = ('C20', [
    sub(JP, "            filesList = glob.glob(root)\n", "            filesList = sorted(glob.glob(root))\n")])

R['main_setattr'] = ('C21', [
    sub(JP, "    config.VALIDATION_FORMAT = args.fmt.lower()\n    config.MIX_FLAG = args.mixFlag\n", "    validationFormat = args.fmt.lower()\n    config.VALIDATION_FORMAT = validationFormat\n    config.MIX_FLAG = 0 if validationFormat in ('j2c', 'jhc') else args.mixFlag\n"),
    rx(JP, r"    # Reset value of mixFlag.*?config.MIX_FLAG = 0\n", "")])

R['main_fstring'] = ('C21', [
    sub(JP, "        msg = \"'\" + config.VALIDATION_FORMAT + \"'  is not a supported value for --format\"\n", "        msg = f\"'{config.VALIDATION_FORMAT}'  is not a supported value for --format\"\n")])

R['options_reorder'] = ('C21', [
    rx(JP, r"(    PARSER.add_argument\('--mix',.*?\"\)\n)(    PARSER.add_argument\('--nopretty',.*?\"\)\n)", r"\2\1")])

R['options_short'] = ('C21', [
    sub(JP, "    PARSER.add_argument('--format', '-f',\n                        action=\"store\",\n                        type=str,\n", "    PARSER.add_argument('-f', '--format',\n")])

R['main_choices'] = ('C21', [
    sub(JP, "    if config.VALIDATION_FORMAT not in ['jp2', 'jph', 'j2c', 'jhc']:\n", "    if not any(config.VALIDATION_FORMAT == f for f in ('jp2', 'jph', 'j2c', 'jhc')):\n")])

R['mix_helper'] = ('C22', [
    rx(MX, r"            numX = int\(\n                round\(\n                    float\(\n                        resolutionBox.find\('hRescInPixelsPerMeter'\).text\) \*\n                    100,\n                    0\)\)\n", "            numX = self._hundredths(resolutionBox, 'hRescInPixelsPerMeter')\n"),
    sub(MX, "    def generateMixImageAssessmentMetadata(", '''    @staticmethod
    def _hundredths(box, tag):
        """Value of an element in hundredths."""
        value = float(box.find(tag).text)
        return int(round(value * 100, 0))

    def generateMixImageAssessmentMetadata(''')])

R['mix_swap'] = ('C22', [
    rx(MX, r"float\(\n                        resolutionBox.find\('hRescInPixelsPerMeter'\).text\) \*\n                    100", "100 * float(\n                        resolutionBox.find('hRescInPixelsPerMeter').text)")])

R['mix_round'] = ('C22', [
    rx(MX, r"int\(\n                round\(\n                    float\(\n                        resolutionBox.find\('hRescInPixelsPerMeter'\).text\) \*\n                    100,\n                    0\)\)", "round(float(resolutionBox.find('hRescInPixelsPerMeter').text) * 100)")])

R['mix_version'] = ('C22', [
    sub(MX, "        if self.mixFlag == 1:\n            mixBdoi.appendChildTagWithText('mix:byteOrder', 'big_endian')\n        else:\n            mixBdoi.appendChildTagWithText('mix:byteOrder', 'big endian')\n", "        mixBdoi.appendChildTagWithText('mix:byteOrder', 'big_endian' if self.mixFlag == 1 else 'big endian')\n")])

R['mix_depths'] = ('C22', [
    sub(MX, "','.join(map(lambda e: e.text, values))", "','.join([e.text for e in values])"),
    sub(MX, "            mixBPS.appendChildTagWithText('mix:bitsPerSampleUnit', 'integer')\n        else:\n", "        else:\n"),
    sub(MX, "                mixBPS.appendChildTagWithText('mix:bitsPerSampleValue', e.text)\n            mixBPS", "                mixBPS.appendChildTagWithText('mix:bitsPerSampleValue', e.text)\n        mixBPS")])

R['mix_rdf'] = ('C22', [
    rx(MX, r"        value = prefixElement.attrib.get\(ns \+ tag, None\)\n        if value and value is not None:\n            return value\n        return None\n", "        return prefixElement.attrib.get(ns + tag) or None\n")])

R['mix_rdf_const'] = ('C22', [
    rx(MX, r"'\{http://www.w3.org/1999/02/22-rdf-syntax-ns#\}Description'", "RDF_DESCRIPTION"),
    sub(MX, "class Mix:", "RDF_DESCRIPTION = '{http://www.w3.org/1999/02/22-rdf-syntax-ns#}Description'\n\n\nclass Mix:")])

R['mix_findtext'] = ('C22', [
    rx(MX, r"        layers = properties.find\('contiguousCodestreamBox/cod/layers'\).text\n        if str\(layers\) != \"0\":\n", "        layers = properties.findtext('contiguousCodestreamBox/cod/layers')\n        if layers != \"0\":\n")])

R['mix_order'] = ('C22', [
    sub(MX, "        mixBdoi = self.generateMixBasicDigitalObjectInformation(properties)\n        mixRoot.append(mixBdoi)\n        mixBio = self.generateMixBasicImageInformation(properties)\n        mixRoot.append(mixBio)\n",
        "        for generate in (self.generateMixBasicDigitalObjectInformation, self.generateMixBasicImageInformation):\n            mixRoot.append(generate(properties))\n")])

R['printwarning'] = ('C20', [
    sub(SH, '    msgString = ("User warning: " + msg + "\\n")\n    sys.stderr.write(msgString)\n', '    print("User warning: " + msg, file=sys.stderr)\n')])

# --- second batch: validators rewritten in other styles
R['tiles_notin'] = ('C03', [
    rx(BV, r"                    try:\n                        tilePartsPerTileFound\[\n                            tileIndex\] = tilePartsPerTileFound\[tileIndex\] \+ 1\n                    except KeyError:\n(                        #[^\n]*\n)+                        break\n",
       "                    if tileIndex not in tilePartsPerTileFound:\n                        break\n                    tilePartsPerTileFound[tileIndex] += 1\n")])

R['tiles_dictcomp'] = ('C03', [
    sub(BV, "            tilePartsPerTileFound = {}\n\n            # Create entry for each tile part and initialise value at 0\n            for i in range(numberOfTilesExpected):\n                tilePartsPerTileFound[i] = 0\n",
        "            tilePartsPerTileFound = {i: 0 for i in range(numberOfTilesExpected)}\n")])

R['tiles_fromkeys'] = ('C03', [
    sub(BV, "            tilePartsPerTileFound = {}\n\n            # Create entry for each tile part and initialise value at 0\n            for i in range(numberOfTilesExpected):\n                tilePartsPerTileFound[i] = 0\n",
        "            tilePartsPerTileFound = dict.fromkeys(range(numberOfTilesExpected), 0)\n")])

R['tiles_if'] = ('C03', [
    sub(BV, "            numberOfTilesExpected = min(numberOfTilesExpected, 65535)\n",
        "            if numberOfTilesExpected > 65535:\n                numberOfTilesExpected = 65535\n"),
    sub(BV, "            if not numberOfTilesExpected:\n                numberOfTilesExpected = 0\n", "            numberOfTilesExpected = numberOfTilesExpected or 0\n")])

R['tiles_walk'] = ('C03', [
    rx(BV, r"            while marker == b'\\xff\\x90':\n                marker = self.boxContents\[offset:offset \+ 2\]\n\n                if marker == b'\\xff\\x90':\n(.*?)\n            # Length of tileIndices",
       lambda m: "            while marker == b'\\xff\\x90' and self.boxContents[offset:offset + 2] == b'\\xff\\x90':\n" + m.group(1).replace('\n    ', '\n')[4:] + "\n            # Length of tileIndices")])

R['tiles_guard'] = ('C03', [
    rx(BV, r"                if marker == b'\\xff\\x90':\n                    resultsTilePart = (.*?)\n            # Length of tileIndices",
       lambda m: "                if marker != b'\\xff\\x90':\n                    break\n                resultsTilePart = " + m.group(1).replace('\n    ', '\n') + "\n            # Length of tileIndices")])

R['unique_alltext'] = ('C02', [
    rx(BV, r"            (c.cc)ElementsMain = self.characteristics.findall\('(...)/c.cc'\)\n            # List[^\n]*\n            c.ccValuesMain = \[\]\n            for elt in c.ccElementsMain:\n                c.ccValuesMain.append\(elt.text\)\n",
       r"            \1ValuesMain = self.characteristics.findAllText('\2/\1')\n")])

R['unique_iter'] = ('C02', [
    sub(BV, "            if ccocValuesMain:\n                self.testFor(\n                    \"maxOneCcocPerComponentMain\", len(\n                        set(ccocValuesMain)) == len(ccocValuesMain))\n",
        "            if len(ccocValuesMain) > 0:\n                isUnique = len(ccocValuesMain) == len(set(ccocValuesMain))\n                self.testFor(\"maxOneCcocPerComponentMain\", isUnique)\n")])

R['markers_in'] = ('C02', [
    rx(BV, r"                elif marker == b'\\xff\\x55':\n                    # TLM marker\n.*?offset = offsetNext\n\n", ""),
    rx(BV, r"                elif marker == b'\\xff\\x64':\n                    # COM \(codestream comment\) marker segment\n                    # Validate COM segment\n",
       r"                elif marker in (b'\\xff\\x64', b'\\xff\\x55'):\n", 1)])

R['poc_width'] = ('C11', [
    sub(BV, "        if self.csiz < 257:\n            progOrderChanges = int((lpoc - 2) / 7)\n        else:\n            progOrderChanges = int((lpoc - 2) / 9)\n",
        "        width = 1 if self.csiz < 257 else 2\n        progOrderChanges = int((lpoc - 2) / (5 + 2 * width))\n")])

R['poc_floor'] = ('C11', [
    sub(BV, "        if self.csiz < 257:\n            progOrderChanges = int((lpoc - 2) / 7)\n        else:\n            progOrderChanges = int((lpoc - 2) / 9)\n",
        "        entrySize = 7 if self.csiz < 257 else 9\n        progOrderChanges = (lpoc - 2) // entrySize if lpoc >= 2 else 0\n")])

R['poc_helper'] = ('C11', [
    sub(BV, "                cspoc = bc.bytesToUnsignedChar(\n                    self.boxContents[offset:offset + 1])\n", "                cspoc = self._index(offset)\n"),
    sub(BV, "                cspoc = bc.bytesToUShortInt(\n                    self.boxContents[offset:offset + 2])\n", "                cspoc = self._index(offset)\n"),
    sub(BV, "                cepoc = bc.bytesToUnsignedChar(\n                    self.boxContents[offset:offset + 1])\n", "                cepoc = self._index(offset)\n"),
    sub(BV, "                cepoc = bc.bytesToUShortInt(\n                    self.boxContents[offset:offset + 2])\n", "                cepoc = self._index(offset)\n"),
    sub(BV, "    def validate_poc(self):", '''    def _index(self, offset):
        """Component index: one or two bytes."""
        if self.csiz < 257:
            return bc.bytesToUnsignedChar(self.boxContents[offset:offset + 1])
        return bc.bytesToUShortInt(self.boxContents[offset:offset + 2])

    def validate_poc(self):''')])

R['crg_while'] = ('C11', [
    sub(BV, "        for _ in range(self.csiz):\n            # Horizontal", "        component = 0\n        while component < self.csiz:\n            component += 1\n            # Horizontal")])

R['crg_offset'] = ('C11', [
    rx(BV, r"        offset = 2\n\n        for _ in range\(self.csiz\):\n(            # Horizontal.*?)            offset \+= 2\n(.*?)            offset \+= 2\n",
       lambda m: "        for i in range(self.csiz):\n            offset = 2 + 4 * i\n" + m.group(1) + m.group(2).replace('offset:offset + 2', 'offset + 2:offset + 4'), 1)])

R['crg_range'] = ('C11', [
    rx(BV, r"        offset = 2\n\n        for _ in range\(self.csiz\):\n(            # Horizontal.*?)            offset \+= 2\n(.*?)            offset \+= 2\n",
       lambda m: "        for offset in range(2, 2 + 4 * self.csiz, 4):\n" + m.group(1) + m.group(2).replace('offset:offset + 2', 'offset + 2:offset + 4'), 1)])

R['com_flag'] = ('C08', [
    sub(BV, "            if bc.removeControlCharacters(comment) == comment:\n                commentIsValid = True\n            else:\n                commentIsValid = False\n",
        "            commentIsValid = comment == bc.removeControlCharacters(comment)\n")])

R['com_order'] = ('C08', [
    rx(BV, r"        if rcom == 0:\n            # no validation.*?        elif rcom == 1:\n", "        commentIsValid = rcom == 0\n\n        if rcom == 0:\n            comment = bc.bytesToHex(comment)\n        elif rcom == 1:\n"),
    rx(BV, r"        else:\n\n            # Value of rcom value that is nor defined by the standard\n            commentIsValid = False\n\n", "")])

R['cap_loop'] = ('C11', [
    rx(BV, r"        numBits = 32\n        pcapBits = .*?        for i, bit in enumerate\(pcapBits\):\n            if bit == 1:\n                pcapPart = i \+ 1\n",
       "        pcapParts = []\n\n        for pcapPart in range(1, 33):\n            if (pcap >> (32 - pcapPart)) & 1:\n")])

R['cap_bitvalue'] = ('C11', [
    sub(BV, "        pcapBits = [(pcap >> bit) & 1 for bit in range(numBits - 1, -1, -1)]\n", "        pcapBits = [self._getBitValue(pcap, p, wordLength=numBits) for p in range(1, numBits + 1)]\n")])

R['cap_ccaps'] = ('C11', [
    rx(BV, r"        ccaps = \[\]\n\n        offset = 6\n\n        for _ in range\(noccaps\):\n.*?offset \+= 2\n", "        ccaps = [bc.bytesToUShortInt(self.boxContents[6 + 2 * i:8 + 2 * i]) for i in range(noccaps)]\n")])

R['cap_direct'] = ('C11', [
    rx(BV, r"        ccaps = \[\]\n\n        offset = 6\n\n        for _ in range\(noccaps\):\n.*?offset \+= 2\n", ""),
    sub(BV, "                ccap = ccaps[ccapIndex]\n", "                start = 6 + 2 * ccapIndex\n                ccap = bc.bytesToUShortInt(self.boxContents[start:start + 2])\n")])

R['cap_htb'] = ('C11', [
    rx(BV, r"                if p == 0:\n                    htB = 8\n                elif p < 20:\n                    htB = p \+ 8\n                elif 20 <= p < 31:\n                    htB = 4 \* \(p - 19\) \+ 27\n                else:\n                    htB = 74\n",
       "                if p < 20:\n                    htB = p + 8\n                elif p == 31:\n                    htB = 74\n                else:\n                    htB = 4 * p - 49\n")])

R['cap_lcap'] = ('C08', [
    sub(BV, "noccaps == (lcap - 6) / 2)", "lcap == 6 + 2 * noccaps)")])

R['prf_while'] = ('C08', [
    rx(BV, r"        for i in range\(nopprfs\):\n            pprf = (.*?)\n            PRFnum \+= pprf << \(16 \* i\)\n            if i == nopprfs - 1:\n                # last[^\n]*\n                self.testFor\(\"pprfIsValid\", pprf != 0\)\n            offset \+= 2\n",
       "        i = 0\n        while i < nopprfs:\n            pprf = \\1\n            PRFnum += pprf << (16 * i)\n            offset += 2\n            i += 1\n            if i == nopprfs:\n                self.testFor(\"pprfIsValid\", pprf != 0)\n")])

R['prf_after'] = ('C08', [
    rx(BV, r"            if i == nopprfs - 1:\n                # last[^\n]*\n                self.testFor\(\"pprfIsValid\", pprf != 0\)\n            offset \+= 2\n",
       "            offset += 2\n\n        if nopprfs > 0:\n            self.testFor(\"pprfIsValid\", pprf != 0)\n", 1)])

R['prf_mul'] = ('C11', [
    sub(BV, "PRFnum += pprf << (16 * i)", "PRFnum += pprf * 65536 ** i")])

R['prf_sum'] = ('C11', [
    rx(BV, r"        PRFnum = 4095\n        offset = 2\n\n        for i in range\(nopprfs\):\n.*?            offset \+= 2\n",
       "        pprfs = [bc.bytesToUShortInt(self.boxContents[2 + 2 * i:4 + 2 * i]) for i in range(nopprfs)]\n        PRFnum = 4095 + sum(pprf << (16 * i) for i, pprf in enumerate(pprfs))\n        if pprfs:\n            self.testFor(\"pprfIsValid\", pprfs[-1] != 0)\n", 1)])

R['sot_psot'] = ('C08', [
    sub(BV, "        psotIsValid = not 1 <= psot <= 13\n", "        psotIsValid = psot < 1 or psot > 13\n")])

R['sot_next'] = ('C03', [
    rx(BV, r"            foundNextTilePartOrEOC = tilePartLength > 0 and markerNextTilePart in \[\n                b'\\xff\\x90', b'\\xff\\xd9'\]\n",
       r"            foundNextTilePartOrEOC = tilePartLength >= 1 and (\n                markerNextTilePart == b'\\xff\\x90' or markerNextTilePart == b'\\xff\\xd9')\n")])

R['allowed_loop'] = ('C03', [
    rx(BV, r"        if self.characteristics.findall\('cod'\):\n            self.testFor\(\"CODAllowed\".*?RGNAllowed\", tpsot == 0\)\n",
       "        for name in ('cod', 'coc', 'qcd', 'qcc', 'rgn'):\n            if self.characteristics.findall(name):\n                self.testFor(name.upper() + \"Allowed\", tpsot == 0)\n")])

R['allowed_find'] = ('C03', [
    rx(BV, r"        if self.characteristics.findall\('(...)'\):\n", r"        if self.characteristics.find('\1') is not None:\n")])

R['unique_helper'] = ('C03', [
    rx(BV, r"        (c.cc)ElementsTP = self.characteristics.findall\('(...)/c.cc'\)\n.*?        if c.ccValuesTP:\n            self.testFor\(\n                \"(\w+)\", len\(\n                    set\(\w+\)\) == len\(\w+\)\)\n",
       r"        self._testUnique('\2/\1', '\3')\n"),
    sub(BV, "    def validate_tilePart(self):", '''    def _testUnique(self, path, name):
        """Test that values of elements are unique, if there are any."""
        values = [elt.text for elt in self.characteristics.findall(path)]
        if values:
            self.testFor(name, len(set(values)) == len(values))

    def validate_tilePart(self):''')])

R['icc_date'] = ('C12', [
    rx(BV, r"        dateString = \"%d/%02d/%02d\".*?        dateTimeString = [^\n]*\n", "        dateTimeString = \"%d/%02d/%02d, %02d:%02d:%02d\" % (\n            year, month, day, hour, minute, second)\n")])

R['icc_fstring'] = ('C12', [
    rx(BV, r"        profileVersion = \"%s.%s.%s\" % \(\n            profileMajorRevision, profileMinorRevision, profileBugFixRevision\)\n", "        profileVersion = f\"{profileMajorRevision}.{profileMinorRevision}.{profileBugFixRevision}\"\n")])

R['icc_tags'] = ('C12', [
    rx(BV, r"        tagStart = 132\n        for i in range\(tagCount\):\n", "        for i in range(tagCount):\n            tagStart = 132 + 12 * i\n"),
    rx(BV, r"            # Start offset of next tag\n            tagStart \+= 12\n", "")])

R['icc_in'] = ('C12', [
    rx(BV, r"        try:\n            i = tagSignatures.index\(b'desc'\)\n(.*?)        except Exception:\n            description = \"\"\n",
       r"        description = ''\n        try:\n            i = tagSignatures.index(b'desc')\n\1        except Exception:\n            pass\n")])

R['icc_first'] = ('C12', [
    rx(BV, r"            i = tagSignatures.index\(b'desc'\)\n            descStartOffset = tagOffsets\[i\]\n            descSize = tagSizes\[i\]\n",
       "            descStartOffset, descSize = tags[b'desc']\n"),
    rx(BV, r"            tagSignatures.append\(tagSignature\)\n            tagOffsets.append\(tagOffset\)\n            tagSizes.append\(tagSize\)\n",
       "            if tagSignature not in tags:\n                tags[tagSignature] = (tagOffset, tagSize)\n"),
    sub(BV, "        tagSignatures = []\n        tagOffsets = []\n        tagSizes = []\n", "        tags = {}\n")])

R['icc_tuple'] = ('C12', [
    rx(BV, r"            i = tagSignatures.index\(b'desc'\)\n            descStartOffset = tagOffsets\[i\]\n            descSize = tagSizes\[i\]\n",
       "            descStartOffset, descSize = next((o, n) for s, o, n in tags if s == b'desc')\n"),
    rx(BV, r"            tagSignatures.append\(tagSignature\)\n            tagOffsets.append\(tagOffset\)\n            tagSizes.append\(tagSize\)\n",
       "            tags.append((tagSignature, tagOffset, tagSize))\n"),
    sub(BV, "        tagSignatures = []\n        tagOffsets = []\n        tagSizes = []\n", "        tags = []\n")])

R['icc_illuminant'] = ('C12', [
    rx(BV, r"        connectionSpaceIlluminantX = round\(.*?\"connectionSpaceIlluminantZ\", connectionSpaceIlluminantZ\)\n",
       "        for i, axis in enumerate('XYZ'):\n            start = 68 + 4 * i\n            value = bc.bytesToUInt(self.boxContents[start:start + 4]) / 65536\n            self.addCharacteristic('connectionSpaceIlluminant' + axis, round(value, 4))\n")])

R['pal_sum'] = ('C10', [
    rx(BV, r"        entryBytes = 0\n        for i in range\(nPC\):\n            b = [^\n]*\n            entryBytes \+= [^\n]*\n",
       "        entryBytes = sum(math.ceil(((bc.bytesToUnsignedChar(self.boxContents[3 + i:4 + i]) & 127) + 1) / 8) for i in range(nPC))\n")])

R['pal_floor'] = ('C10', [
    sub(BV, "            entryBytes += math.ceil(((b & 127) + 1) / 8)\n", "            entryBytes += ((b & 127) + 8) // 8\n"),
    sub(BV, "            bDepthPadded = math.ceil(bDepth / 8) * 8\n            bytesPadded = int(bDepthPadded / 8)\n", "            bytesPadded = (bDepth + 7) // 8\n")])

R['pal_index'] = ('C10', [
    rx(BV, r"            offset = columnStart\n\n            for _ in range\(nE\):\n", "            for entry in range(nE):\n                offset = columnStart + entry * entryBytes\n"),
    rx(BV, r"\n                # Values of all columns are grouped together for each entry\n                offset \+= entryBytes\n", "")])

R['cmap_pcol'] = ('C05', [
    sub(BV, "            if mTyp == 0:\n                pColIsValid = pCol == 0\n            else:\n                pColIsValid = True\n", "            pColIsValid = mTyp != 0 or pCol == 0\n")])

R['cmap_range'] = ('C05', [
    rx(BV, r"        numberOfChannels = int\(len\(self.boxContents\) / 4\)\n\n        offset = 0\n\n        # Loop[^\n]*\n        for _ in range\(numberOfChannels\):\n(.*?)            offset \+= 4\n",
       r"        for offset in range(0, len(self.boxContents) - 3, 4):\n\1", 1)])

R['cdef_alpha'] = ('C05', [
    sub(BV, "                alphaChannels.append([cTyp, cAssoc])\n", "                alphaChannels.append(cAssoc)\n"),
    sub(BV, "            for channel in alphaChannels:\n                self.testFor(\"cAssocAlphaChannelIsZero\", channel[1] == 0)\n", "            for assoc in alphaChannels:\n                self.testFor(\"cAssocAlphaChannelIsZero\", assoc == 0)\n")])

R['cdef_table'] = ('C05', [
    rx(BV, r"            if self.format == 'jp2':\n                # Only values from Table I.16[^\n]*\n                self.testFor\(\"cTypIsValid\", cTyp in \[0, 1, 2, 65535\]\)\n            elif self.format == 'jph':\n                # JPH[^\n]*\n                self.testFor\(\"cTypIsValid\", cTyp in \[0, 1, 2, 3, 65535\]\)\n",
       "            allowed = {'jp2': [0, 1, 2, 65535], 'jph': [0, 1, 2, 3, 65535]}.get(self.format)\n            if allowed is not None:\n                self.testFor(\"cTypIsValid\", cTyp in allowed)\n")])

R['res_helper'] = ('C10', [
    rx(BV, r"        if (.)R(.)D != 0:\n            .Res.InPixelsPerMeter = \(.R.N / .R.D\) \* \(10 \*\* \(.R.E\)\)\n        else:\n            # Den[^\n]*\n            .Res.InPixelsPerMeter = -9999\n",
       r"        \1Res\2InPixelsPerMeter = self._perMeter(\1R\2N, \1R\2D, \1R\2E)\n"),
    sub(BV, "    def validate_captureResolutionBox(self):", '''    @staticmethod
    def _perMeter(numerator, denominator, exponent):
        """Resolution in pixels per meter, -9999 if not defined."""
        if denominator == 0:
            return -9999
        return (numerator / denominator) * (10 ** exponent)

    def validate_captureResolutionBox(self):''')])

R['res_shared'] = ('C10', [
    rx(BV, r"    def validate_displayResolutionBox\(self\):.*?\n(?=    def validate_contiguousCodestreamBox)",
       lambda m: '''    def validate_displayResolutionBox(self):
        """Default Display  Resolution Box (ISO/IEC 15444-1 Section I.5.3.7.2)."""
        self._resolution('d')

'''),
    rx(BV, r"    def validate_captureResolutionBox\(self\):.*?\n(?=    def validate_displayResolutionBox)",
       lambda m: '''    def validate_captureResolutionBox(self):
        """Capture  Resolution Box (ISO/IEC 15444-1 Section I.5.3.7.1)."""
        self._resolution('c')

    def _resolution(self, kind):
        """Fields of a resolution box."""
        self.testFor("boxLengthIsValid", len(self.boxContents) == 10)
        values = {}
        for name, start in (('vR%sN', 0), ('vR%sD', 2), ('hR%sN', 4), ('hR%sD', 6)):
            value = bc.bytesToUShortInt(self.boxContents[start:start + 2])
            values[name] = value
            self.addCharacteristic(name % kind, value)
            self.testFor(name % kind + "IsValid", 1 <= value <= 65535)
        for name, start in (('vR%sE', 8), ('hR%sE', 9)):
            value = bc.bytesToSignedChar(self.boxContents[start:start + 1])
            values[name] = value
            self.addCharacteristic(name % kind, value)
            self.testFor(name % kind + "IsValid", -128 <= value <= 127)
        perMeter = {}
        for axis in 'vh':
            if values[axis + 'R%sD'] != 0:
                perMeter[axis] = (values[axis + 'R%sN'] / values[axis + 'R%sD']) * (10 ** values[axis + 'R%sE'])
            else:
                perMeter[axis] = -9999
            self.addCharacteristic(axis + "Res" + kind + "InPixelsPerMeter", round(perMeter[axis], 2))
        for axis in 'vh':
            self.addCharacteristic(axis + "Res" + kind + "InPixelsPerInch", round(perMeter[axis] * 25.4e-3, 2))

''')])

R['res_any'] = ('C06', [
    sub(BV, "                     tagCaptureResolutionBox in subBoxTypes or\n                     tagDisplayResolutionBox in subBoxTypes)\n", "                     any(tag in subBoxTypes for tag in (tagCaptureResolutionBox, tagDisplayResolutionBox)))\n")])

R['res_dictcount'] = ('C06', [
    rx(BV, r"        self.testFor\(\"noMoreThanOneCaptureResolutionBox\",\n                     subBoxTypes.count\(tagCaptureResolutionBox\) <= 1\)\n", "        self.testFor(\"noMoreThanOneCaptureResolutionBox\",\n                     len([t for t in subBoxTypes if t == tagCaptureResolutionBox]) < 2)\n")])

R['one_fileinfo'] = ('C18', [
    rx(JP, r"    fileNameCleaned = stripSurrogatePairs\(fileName\)\n    filePathCleaned = stripSurrogatePairs\(filePath\)\n", ""),
    sub(JP, '"fileName", fileNameCleaned)', '"fileName", stripSurrogatePairs(fileName))'),
    sub(JP, '"filePath", filePathCleaned)', '"filePath", stripSurrogatePairs(filePath))')])

R['one_helper'] = ('C18', [
    rx(JP, r"    # Create elements for file and status meta info\n    fileInfo = ET.Element\('fileInfo'\)\n", ""),
    rx(JP, r"    # File name and path\n    fileName = os.path.basename\(path\)\n(.*?)    fileInfo.makeHumanReadable\(\)\n",
       "    fileInfo = getFileInfo(path)\n"),
    rx(JP, r"def checkOneFile\(path,", '''def getFileInfo(path):
    """Return element with file name, path, size and date."""
    fileInfo = ET.Element('fileInfo')
    fileInfo.appendChildTagWithText("fileName", stripSurrogatePairs(os.path.basename(path)))
    fileInfo.appendChildTagWithText("filePath", stripSurrogatePairs(os.path.abspath(path)))
    fileInfo.appendChildTagWithText("fileSizeInBytes", str(os.path.getsize(path)))
    try:
        stamp = datetime.datetime.fromtimestamp(os.path.getmtime(path))
    except (ValueError, OverflowError, OSError):
        stamp = datetime.datetime.fromtimestamp(0)
    fileInfo.appendChildTagWithText("fileLastModified", stamp.isoformat())
    fileInfo.makeHumanReadable()
    return fileInfo


def checkOneFile(path,''', 1)])

R['one_kind'] = ('C18', [
    rx(JP, r"        if validationFormat in \['jp2', 'jph'\]:\n            boxType = 'JP2'\n        elif validationFormat in \['j2c', 'jhc'\]:\n            boxType = 'contiguousCodestreamBox'\n",
       "        boxType = {'jp2': 'JP2', 'jph': 'JP2',\n                   'j2c': 'contiguousCodestreamBox', 'jhc': 'contiguousCodestreamBox'}[validationFormat]\n")])

R['one_mix'] = ('C18', [
    rx(JP, r"    if mixFlag != 0 and validationFormat in \['jp2', 'jph'\] and fileIsValid:\n        mixProperties = [^\n]*\n", "    mixProperties = None\n    if mixFlag and fileIsValid and validationFormat in ('jp2', 'jph'):\n        mixProperties = mix.Mix(mixFlag).generateMix(characteristics)\n"),
    rx(JP, r"        if validationFormat in \['jp2', 'jph'\] and fileIsValid:\n            extension.append\(mixProperties\)\n", "        if mixProperties is not None:\n            extension.append(mixProperties)\n")])

R['one_order'] = ('C18', [
    rx(JP, r"    # Append all results to root\n    root.append\(fileInfo\)\n    root.append\(statusInfo\)\n\n", "    for element in (fileInfo, statusInfo):\n        root.append(element)\n\n")])

R['one_message'] = ('C18', [
    rx(JP, r"        if isinstance\(ex, MemoryError\):.*?https://github.com/openpreserve/jpylyzer/issues\"\n\n        tests =",
       '''        report = "please report to developers by creating an issue at https://github.com/openpreserve/jpylyzer/issues"
        messages = ((MemoryError, "memory error (file size too large)"),
                    (IOError, "I/O error (cannot open file)"),
                    (RuntimeError, "runtime error, " + report))
        failureMessage = "unknown error, " + report
        for kind, message in messages:
            if isinstance(ex, kind):
                failureMessage = message
                break

        tests =''')])

R['one_close'] = ('C18', [
    rx(JP, r"        fileIsValid = resultsJP2.isValid\n(.*?)\n\n        if not NO_MMAP_LIB", r"        fileIsValid, tests = resultsJP2.isValid, resultsJP2.tests\n        characteristics, warnings = resultsJP2.characteristics, resultsJP2.warnings\n\n        if not NO_MMAP_LIB")])

R['batch_args'] = ('C19', [
    rx(JP, r"        xmlElement = checkOneFile\(path,\n.*?config.MIX_FLAG\)\n", "        xmlElement = checkOneFile(\n            path,\n            validationFormat=config.VALIDATION_FORMAT,\n            verboseFlag=config.OUTPUT_VERBOSE_FLAG,\n            nullxmlFlag=config.EXTRACT_NULL_TERMINATED_XML_FLAG,\n            packetmarkersFlag=config.OUTPUT_PACKET_MARKERS_FLAG,\n            mixFlag=config.MIX_FLAG)\n")])

R['batch_star'] = ('C19', [
    rx(JP, r"        xmlElement = checkOneFile\(path,\n.*?config.MIX_FLAG\)\n\n        # Write output to stdout\n        writeElement\(xmlElement, out\)\n", "        writeElement(checkOneFile(path, *settings), out)\n"),
    sub(JP, "    # Process the input files\n", "    settings = (config.VALIDATION_FORMAT, config.OUTPUT_VERBOSE_FLAG,\n                config.OUTPUT_PACKET_MARKERS_FLAG,\n                config.EXTRACT_NULL_TERMINATED_XML_FLAG, config.MIX_FLAG)\n\n    # Process the input files\n")])

R['batch_tool'] = ('C19', [
    rx(JP, r"    toolInfo = ET.Element\('toolInfo'\)\n.*?    writeElement\(toolInfo, out\)\n", "    writeElement(getToolInfo(), out)\n"),
    sub(JP, "def checkFiles(recurse, paths):", '''def getToolInfo():
    """Return element with name and version of this tool."""
    toolInfo = ET.Element('toolInfo')
    for tag, text in (("toolName", SCRIPT_NAME), ("toolVersion", __version__)):
        toolInfo.appendChildTagWithText(tag, text)
    return toolInfo


def checkFiles(recurse, paths):''')])

R['batch_two_writes'] = ('C19', [
    rx(JP, r"    xmlHead = \"<\?xml[^\n]*\n    xmlHead \+= \"<jpylyzer", "    out.write(\"<?xml version='1.0' encoding='UTF-8'?>\\\\n\")\n    xmlHead = \"<jpylyzer")])

R['write_early'] = ('C19', [
    rx(JP, r"    if not config.NO_PRETTY_XML_FLAG:\n        # Make xml pretty\n.*?        codec.write\(xmlOut\)\n    else:\n        codec.write\(xmlOut\)\n",
       "    if config.NO_PRETTY_XML_FLAG:\n        codec.write(xmlOut)\n        return\n\n    lines = minidom.parseString(xmlOut).toprettyxml('    ').split(\"\\\\n\")\n    codec.write(\"\\\\n\".join(lines[1:]))\n")])

R['write_pop'] = ('C19', [
    sub(JP, "        del xmlAsList[0]\n", "        xmlAsList.pop(0)\n")])

R['siz_ceil'] = ('C11', [
    sub(BV, "            numberOfTilesX = math.ceil((xsiz - xTOsiz) / xTsiz)\n            numberOfTilesY = math.ceil((ysiz - yTOsiz) / yTsiz)\n            numberOfTiles = int(numberOfTilesX * numberOfTilesY)\n",
        "            numberOfTiles = int(math.ceil((xsiz - xTOsiz) / xTsiz) * math.ceil((ysiz - yTOsiz) / yTsiz))\n")])

R['siz_loop'] = ('C11', [
    rx(BV, r"        # Width of reference grid\n        xsiz = .*?self.testFor\(\"yTOsizIsValid\", [^\n]*\n",
       '''        grid = {}
        for i, (name, low, high) in enumerate((("xsiz", 1, 1), ("ysiz", 1, 1), ("xOsiz", 0, 2), ("yOsiz", 0, 2),
                                               ("xTsiz", 1, 1), ("yTsiz", 1, 1), ("xTOsiz", 0, 2), ("yTOsiz", 0, 2))):
            value = bc.bytesToUInt(self.boxContents[4 + 4 * i:8 + 4 * i])
            grid[name] = value
            self.addCharacteristic(name, value)
            self.testFor(name + "IsValid", low <= value <= 2 ** 32 - high)
        xsiz, ysiz, xTsiz, yTsiz = grid["xsiz"], grid["ysiz"], grid["xTsiz"], grid["yTsiz"]
        xTOsiz, yTOsiz = grid["xTOsiz"], grid["yTOsiz"]
''')])

R['siz_capability'] = ('C11', [
    rx(BV, r"        elif profile == 4:\n            capability = \"2k IMF Single Tile Lossy.*?        elif profile == 15 and",
       '''        elif 4 <= profile <= 9:
            size = (2, 4, 8)[(profile - 4) % 3]
            kind = "Single Tile Lossy" if profile < 7 else "Single/Multi Tile Reversible"
            capability = "%dk IMF %s Profile, Mainlevel %d; Sublevel %d" % (size, kind, mainLevel, subLevel)
        elif profile == 15 and''')])

R['siz_names'] = ('C11', [
    rx(BV, r"        elif profile == 1:\n            capability = \"Broadcast.*?        elif profile == 4:\n",
       '''        elif profile in (1, 2, 3):
            names = {1: "Single Tile", 2: "Multi-tile", 3: "Multi-tile Reversible"}
            capability = "Broadcast Contribution " + names[profile] + " Profile, Mainlevel " + str(mainLevel)
        elif profile == 4:
''')])


R['cod_precincts'] = ('C07', [
    rx(BV, r"                if i != 0:\n                    precinctSize(.)IsValid = precinctSize. >= 2\n                else:\n                    precinctSize.IsValid = True\n", r"                precinctSize\1IsValid = i == 0 or precinctSize\1 >= 2\n")])


R['cod_expected'] = ('C07', [
    rx(BV, r"        if precincts == 1:\n            lcodExpected = 13 \+ levels\n        else:\n            lcodExpected = 12\n", "        lcodExpected = 12 + precincts * (levels + 1)\n")])

R['cod_expected2'] = ('C07', [
    rx(BV, r"        if precincts == 1:\n            lcodExpected = 13 \+ levels\n        else:\n            lcodExpected = 12\n", "        lcodExpected = 13 + levels if precincts == 1 else 12\n")])

R['cod_style'] = ('C11', [
    rx(BV, r"        codingBypass = self._getBitValue\(codeBlockStyle, 8\)\n        self.addCharacteristic\(\"codingBypass\", codingBypass\)\n.*?        # Wavelet transformation",
       '''        for bit, name in ((8, "codingBypass"), (7, "resetOnBoundaries"), (6, "termOnEachPass"),
                          (5, "vertCausalContext"), (4, "predTermination"), (3, "segmentationSymbols")):
            if onlyHT and bit in (7, 4, 3):
                continue
            self.addCharacteristic(name, self._getBitValue(codeBlockStyle, bit))

        # Wavelet transformation''', 1)])

R['cod_ht'] = ('C11', [
    rx(BV, r"        if self.format in \['jph', 'jhc'\]:\n            # resetOn.*?        else:\n            onlyHT = False\n", "        onlyHT = self.format in ('jph', 'jhc') and codeBlockStyle >> 6 == 1\n", 1)])

R['colr_icc'] = ('C12', [
    rx(BV, r"            tagSignatureElements = iccCharacteristics.findall\(\"tag\"\)\n.*?            # Step 3:[^\n]*\n            self.testFor\(\"iccNoLUTBasedProfile\", b'A2B0' not in tagSignatures\)\n",
       "            self.testFor(\"iccNoLUTBasedProfile\", b'A2B0' not in iccCharacteristics.findAllText('tag'))\n")])

R['colr_icc2'] = ('C12', [
    rx(BV, r"            for i in range\(len\(tagSignatureElements\)\):\n                tagSignatures.append\(tagSignatureElements\[i\].text\)\n", "            for element in tagSignatureElements:\n                tagSignatures.append(element.text)\n")])

R['colr_any'] = ('C12', [
    rx(BV, r"            # Step 1: create.*?            # Step 3:[^\n]*\n            self.testFor\(\"iccNoLUTBasedProfile\", b'A2B0' not in tagSignatures\)\n",
       "            self.testFor(\"iccNoLUTBasedProfile\", not any(tag.text == b'A2B0' for tag in iccCharacteristics.findall('tag')))\n")])

R['colr_shared'] = ('C10', [
    rx(BV, r"        elif meth == 2:\n            # Restricted ICC profile\n(.*?)            self.warnings.appendIfNotEmpty\(iccWarnings\)\n\n            # Profile size(.*?)        elif meth == 3:\n.*?self.warnings.appendIfNotEmpty\(iccWarnings\)\n\n        elif meth == 5:",
       lambda m: "        elif meth in (2, 3):\n" + m.group(1) + "            self.warnings.appendIfNotEmpty(iccWarnings)\n\n            if meth == 2:\n                # Profile size" + m.group(2).replace('\n    ', '\n        ') + "        elif meth == 5:")])

R['colr_slice'] = ('C10', [
    sub(BV, "            enumCS = bc.bytesToUInt(self.boxContents[3:length])\n", "            enumCS = bc.bytesToUInt(self.boxContents[3:])\n")])

R['xml_helper'] = ('C13', [
    rx(BV, r"        data = self.boxContents\n\n        # Data must be well-formed XML. Try to parse data to Element\n        # instance.\n\n        try:\n.*?                except Exception:\n                    pass\n\n        self.testFor\(\"containsWellformedXML\", containsWellformedXML\)\n",
       "        self._addXML(self.boxContents)\n", 1),
    rx(BV, r"            data = self.boxContents\[16:boxLength\]\n.*?            self.testFor\(\"containsWellformedXML\", containsWellformedXML\)\n", "            self._addXML(self.boxContents[16:])\n"),
    sub(BV, "    def validate_xmlBox(self):", '''    def _addXML(self, data):
        """Parse XML, add it to characteristics and test if it is well-formed."""
        wellformed = True
        try:
            self.characteristics.append(ET.fromstring(data))
        except Exception:
            wellformed = False
            if self.nullxmlFlag:
                try:
                    self.characteristics.append(ET.fromstring(bc.removeNullTerminator(data)))
                except Exception:
                    pass
        self.testFor("containsWellformedXML", wellformed)

    def validate_xmlBox(self):''')])

R['uuid_ternary'] = ('C13', [
    rx(BV, r"        if boxLength >= 16:\n            boxUUID = str\(uuid.UUID\(bytes=self.boxContents\[0:16\]\)\)\n        else:\n            boxUUID = \"\"\n", "        boxUUID = \"\" if boxLength < 16 else str(uuid.UUID(bytes=self.boxContents[:16]))\n")])

R['ulist_min'] = ('C13', [
    rx(BV, r"        for _ in range\(nU\):\n            # Stop at end.*?                break\n", "        for _ in range(min(nU, (len(self.boxContents) - 2) // 16)):\n")])

R['ulist_while'] = ('C13', [
    rx(BV, r"        offset = 2\n        for _ in range\(nU\):\n            # Stop at end.*?                break\n", "        offset = 2\n        while offset + 16 <= len(self.boxContents) and offset < 2 + 16 * nU:\n")])

R['url_flag'] = ('C13', [
    rx(BV, r"        try:\n            loc.decode\(\"utf-8\", \"strict\"\)\n            self.testFor\(\"locIsUTF8\", True\)\n        except UnicodeDecodeError:\n            self.testFor\(\"locIsUTF8\", False\)\n",
       "        locIsUTF8 = True\n        try:\n            loc.decode(\"utf-8\")\n        except UnicodeDecodeError:\n            locIsUTF8 = False\n        self.testFor(\"locIsUTF8\", locIsUTF8)\n")])

R['url_last'] = ('C13', [
    sub(BV, "loc.endswith(b'\\x00'))", "loc[-1:] == b'\\x00')"),
    sub(BV, "        loc = self.boxContents[4:len(self.boxContents)]\n", "        loc = self.boxContents[4:]\n")])

R['jp2_first'] = ('C06', [
    rx(BV, r"        try:\n            firstBoxIsSignatureBox = boxTypes\[0\] == tagSignatureBox\n        except Exception:\n            firstBoxIsSignatureBox = False\n", "        firstBoxIsSignatureBox = bool(boxTypes) and boxTypes[0] == tagSignatureBox\n"),
    rx(BV, r"        try:\n            secondBoxIsFileTypeBox = boxTypes\[1\] == tagFileTypeBox\n        except Exception:\n            secondBoxIsFileTypeBox = False\n", "        secondBoxIsFileTypeBox = len(boxTypes) > 1 and boxTypes[1] == tagFileTypeBox\n")])

R['jp2_slice'] = ('C06', [
    rx(BV, r"        try:\n            firstBoxIsSignatureBox = boxTypes\[0\] == tagSignatureBox\n        except Exception:\n            firstBoxIsSignatureBox = False\n", "        firstBoxIsSignatureBox = boxTypes[:1] == [tagSignatureBox]\n")])

R['jp2_location'] = ('C06', [
    rx(BV, r"        try:\n            positionJP2HeaderBox = .*?            locationJP2HeaderBoxIsValid = False\n\n        self.testFor\(\"firstBox",
       '''        locationJP2HeaderBoxIsValid = False
        if containsJP2HeaderBox and containsContiguousCodestreamBox:
            positionJP2HeaderBox = boxTypes.index(tagJP2HeaderBox)
            locationJP2HeaderBoxIsValid = 1 < positionJP2HeaderBox < boxTypes.index(tagContiguousCodestreamBox)

        self.testFor("firstBox''')])

R['jp2_testloop'] = ('C06', [
    rx(BV, r"        noMoreThanOneSignatureBox = boxTypes.*?self.testFor\(\"noMoreThanOneJP2HeaderBox\", noMoreThanOneJP2HeaderBox\)\n",
       "        for name, tag in ((\"SignatureBox\", tagSignatureBox), (\"FileTypeBox\", tagFileTypeBox), (\"JP2HeaderBox\", tagJP2HeaderBox)):\n            self.testFor(\"noMoreThanOne\" + name, boxTypes.count(tag) <= 1)\n")])

R['jp2_mult'] = ('C09', [
    rx(BV, r"                bPCSignValues = \[\]\n\n                for _ in range\(nC\):\n                    bPCSignValues.append\(bPCSign\)\n", "                bPCSignValues = [bPCSign] * nC\n"),
    rx(BV, r"                bPCDepthValues = \[\]\n\n                for _ in range\(nC\):\n                    bPCDepthValues.append\(bPCDepth\)\n", "                bPCDepthValues = [bPCDepth for _ in range(nC)]\n")])

R['jp2_bpcnone'] = ('C09', [
    rx(BV, r"                try:\n                    bPC(\w+)Values = bpcBox.findAllText\('bPC\w+'\)\n                except AttributeError:\n                    bPC\w+Values = \[\]\n", r"                bPC\1Values = [] if bpcBox is None else bpcBox.findAllText('bPC\1')\n")])

R['jp2_dims'] = ('C09', [
    rx(BV, r"            heightConsistentWithSIZ = height == \(ysiz - yOsiz\)\n            self.testFor\(\"heightConsistentWithSIZ\", heightConsistentWithSIZ\)\n", "            self.testFor(\"heightConsistentWithSIZ\", height + yOsiz == ysiz)\n")])


def edit(root, edits):
    for e in edits:
        if e[0] == 'show':
            continue
        p = os.path.join(root, e[1])
        s = open(p, encoding='utf-8').read()
        if e[0] == 'sub':
            if e[2] not in s:
                raise SystemExit('no match: ' + e[2][:60])
            s = s.replace(e[2], e[3], e[4])
        else:
            s, n = re.subn(e[2], e[3], s, count=e[4], flags=re.S)
            if not n:
                raise SystemExit('no match: ' + e[2][:60])
        open(p, 'w', encoding='utf-8').write(s)


def main():
    ids = sys.argv[1:] or list(R)
    for i in ids:
        prop, edits = R[i]
        d = tempfile.mkdtemp(prefix='refac')
        try:
            subprocess.run('git -C /repo archive HEAD | tar x -C ' + d, shell=True, check=True)
            edit(d, edits)
            env = dict(os.environ, JPV_REPO=d, PYTHONDONTWRITEBYTECODE='1')
            if os.environ.get('CHECK'):
                out = subprocess.run(['python3-vt', 'check.py', prop, 'quick'], cwd=HERE, env=env, capture_output=True, text=True)
            else:
                out = subprocess.run(['python3-vt', '-m', 'engine.layer' if prop in ('C17', 'C18', 'C19', 'C20', 'C21', 'C22') else 'engine.suite', prop], cwd=HERE, env=env, capture_output=True, text=True)
            lines = (out.stdout + out.stderr).strip().split('\n')
            print('==', i, prop, flush=True)
            for l in lines[-int(os.environ.get('LINES', '9')):]:
                print('   ', l[:260], flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    main()
