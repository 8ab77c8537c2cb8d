import json
BV="jpylyzer/boxvalidator.py"; BC="jpylyzer/byteconv.py"; EP="jpylyzer/etpatch.py"; SH="jpylyzer/shared.py"; JP="jpylyzer/jpylyzer.py"; MX="jpylyzer/mix.py"
NOJ="The stable tests never analyse a single JPEG 2000 byte sequence (their inputs are the repository's own top-level text files), and any test could only sample a few files out of unboundedly many."
P=[]
def p(id,title,st,over,text,why,files,mech,obs=("checkOneFile report",),state=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))

p("C01","Boxes are walked exactly as the length fields say",
"For every byte sequence given as a JP2 or JPH file, the top-level boxes, and the sub-boxes of every superbox (JP2 header, resolution, UUID info), are visited once each and in order, each one starting where the previous one ends: a 4-byte length, the 8-byte extended length when that field is 1, or 'to the end of the enclosing data' when it is 0. Exactly the bytes of a box after its header are analysed, as the kind of box its 4-byte type names, and the results appear in the report in box order. A box of unknown type is listed with its type and a warning, never fails a test of its own, and does not hide any box that follows it.",
["inputs"],"all byte sequences, all box lengths (normal, extended, zero, truncated), all nesting levels",NOJ,[BV],
[("_getBox",BV),("validate_JP2 / validate_jp2HeaderBox / validate_resolutionBox / validate_uuidInfoBox box loops",BV),("typeMap dispatch in __init__ / validate",BV),("validate_unknownBox",BV)])
p("C02","Main codestream header is walked segment by segment",
"For every byte sequence of a codestream, analysis starts at its first byte, requires the SOC marker and then a SIZ segment, and then visits each following marker segment exactly once and in order, each starting where the length field of the previous one says, until the first tile-part or the point where no length can be read. Every COD, COC, QCD, QCC, RGN, POC, CRG, COM, CAP, PRF, CPF and TLM segment (and PLM and PPM when packet markers are requested) is validated and reported from exactly its own bytes and with the component count of the SIZ segment; unknown segments are skipped and never end the walk. The reported numbers of PLM and PPM segments and the tests for the start marker, the SIZ, COD and QCD segments, the CAP segment when the capability bits call for it, at most one COC and one QCC per component, and the end marker as the last two bytes, agree with the bytes.",
["inputs"],"all codestream byte sequences and all four validation formats",NOJ,[BV],
[("_getMarkerSegment",BV),("validate_contiguousCodestreamBox main header loop",BV)])
p("C03","Tile-parts are followed and counted correctly",
"For every codestream, the tile-parts are visited from the first one on, each next one starting at the start of the current one plus its length field (a zero length ends the sequence), and every marker segment of a tile-part header up to the start-of-data marker is validated and reported from its own bytes. 'Found the expected number of tiles' passes exactly when the number of distinct tile indices met equals the number of tiles (at most 65535) that follows from the SIZ segment, and 'found the expected number of tile-parts' passes exactly when, for every tile, the number of tile-parts met equals the number announced. A tile-part that is not followed by another tile-part or the end marker, lacks its start-of-data marker, repeats a component's COC or QCC, or carries COD, COC, QCD, QCC or RGN segments while not being the first of its tile, fails the corresponding test.",
["inputs","histories"],"all sequences of tile-parts of any number and length, in all formats",NOJ,[BV],
[("validate_tilePart",BV),("validate_contiguousCodestreamBox tile-part loop",BV),("validate_sot",BV)],
state=[("tilePartsPerTileFound","tile-parts met so far per tile index",BV),("tilePartsPerTileExpected","announced tile-parts per tile index",BV)])
p("C04","Verdict is valid exactly when every test passed",
"For every file the verdict is 'valid' if and only if no test failed anywhere in the analysis, at any level of nesting, in any box, marker segment or tile-part. Every failed test is listed in the report under the element of the structure it belongs to, and the default report lists only failed tests. No failed test is lost, overwritten, or turned into a pass when results of a nested structure are added to its parent.",
["inputs","configurations"],"all trees of test outcomes that an analysis can produce; verbose and default reporting",NOJ,[BV,EP],
[("_isValid",BV),("testFor",BV),("appendIfNotEmpty / appendChildTagWithText",EP)],state=[("tests","tree of test outcomes",BV)])
p("C05","JP2 and JPH box fields are tested against the standard's limits",
"For every content of a signature, file type, image header, bits per component, colour specification, palette, component mapping, channel definition, capture resolution or display resolution box, each test the manual lists for that box and format is performed once per occurrence of its field and passes exactly when the field satisfies the stated condition (fixed value, enumeration, inclusive range, box length, dependency on another field). A field whose bytes are missing counts as -9999. No other test is reported for that box.",
["inputs","configurations"],"all byte contents and lengths of each box, in each format, including every boundary value and any number of repeated fields",NOJ,[BV,BC],
[("validate_signatureBox ... validate_displayResolutionBox",BV),("bytesTo* conversions",BC)])
p("C06","Required boxes, their order and their number are enforced",
"For every sequence of boxes, the file-level tests pass exactly when the signature, file type, JP2 header and codestream boxes are present, the signature box is first, the file type box second, the JP2 header box after these and before the first codestream box, none of the first three occurs twice, and an intellectual property box is present if the image header calls for one. Within the JP2 header box the tests pass exactly when the image header box is present, first and unique, a colour specification box is present (in JPH only when the colourspace is not flagged unknown, and else no channel may be a colour channel), colour specification boxes are contiguous, the bits per component box is present when needed, palette and component mapping boxes occur only together, and no other box that must be unique occurs twice. Likewise a resolution box must hold at least one and at most one of each kind of resolution box, and a UUID info box exactly one list and one URL box.",
["inputs","configurations"],"all sequences of box types of any length, in any order and multiplicity",NOJ,[BV,SH],
[("tests at the end of validate_JP2, validate_jp2HeaderBox, validate_resolutionBox, validate_uuidInfoBox",BV),("listOccurrencesAreContiguous / consecutive",SH)])
p("C07","SIZ, COD, COC, QCD and QCC fields are tested against the standard",
"For every content of an image-and-size, coding style (default or component) or quantization (default or component) marker segment, each test the manual lists is performed once per occurrence of its field and passes exactly when the stated condition holds for the field's value in the chosen format, including segment length limits, consistency of the length with the number of components, decomposition levels and precincts, and the widths of component fields that depend on whether there are more than 256 components. A field whose bytes are missing counts as -9999. No other test is reported for that segment.",
["inputs","configurations"],"all byte contents and lengths of each segment, all component counts, all formats",NOJ,[BV,BC],
[("validate_siz, validate_cod, validate_coc, validate_qcd, validate_qcc",BV)])
p("C08","Other marker segments' fields are tested against the standard",
"For every content of a start-of-tile-part, region of interest, progression order change, component registration, comment, capabilities, profile or corresponding profile marker segment, each test the manual lists is performed once per occurrence of its field and passes exactly when the stated condition holds for the field's value in the chosen format. This covers every entry of repeated fields, the last profile entry being non-zero, the entry count of the capabilities segment matching its length, and control characters in Latin comments. No other test is reported for that segment.",
["inputs","configurations"],"all byte contents and lengths of each segment, all component counts, all formats",NOJ,[BV,BC],
[("validate_sot, validate_rgn, validate_poc, validate_crg, validate_com, validate_cap, validate_prf, validate_cpf",BV)])
p("C09","Image header agrees with codestream; compression ratio is right",
"Whenever a file has both an image header and a codestream size segment, the tests on height, width, number of components, and the sign and bit depth of every component pass exactly when the two agree, using the bits per component box when the image header says the depth varies. The reported compression ratio is the uncompressed size (sum of component bit depths, times height, times width, in bytes) divided by the size of the whole file or codestream, rounded to two decimals. For a bare codestream, image height and width are the differences between the extent and the offset of the same axis.",
["inputs"],"all image headers, component lists of any length, size segments and file sizes",NOJ,[BV],
[("consistency tests in validate_JP2",BV),("_calculateCompressionRatio",BV),("codestream compression ratio in validate_contiguousCodestreamBox",BV)])
p("C10","Reported box properties are the values in the file's bytes",
"For every content of an image header, file type, bits per component, colour specification, palette, component mapping, channel definition or resolution box, every property the manual lists is reported, in order and once per occurrence, with the value encoded at that field's position: unsigned big-endian integers, signed exponents, sign and depth bits, derived resolutions per metre and inch. A field whose bytes are missing is reported as -9999 (or derived from it), never as a plausible value. No property that does not belong to the box is reported.",
["inputs","configurations"],"all byte contents and lengths of each box, any number of repeated fields",NOJ,[BV,BC],
[("addCharacteristic calls of the box validators",BV),("_getBitValue",BV),("bytesTo* conversions",BC)])
p("C11","Reported codestream properties are the values in the file's bytes",
"For every content of a SIZ, COD, COC, RGN, QCD, QCC, POC, CRG, COM, CAP, PRF, CPF, SOT, PLM or PLT marker segment, every property the manual lists is reported, in order and once per occurrence, with the value encoded at that field's position, including values derived from bit fields (capability text, precinct sizes, exponents and mantissas, HT capabilities, profile numbers) and packet lengths of any number of bytes. The number of tiles reported is the number implied by image extent, tile size and tile offset. A field whose bytes are missing is reported as -9999 or derived from it.",
["inputs","configurations"],"all byte contents and lengths of each segment, all component counts, packet lengths of any size",NOJ,[BV,BC],
[("validate_siz ... validate_plt",BV),("_parse_ipl",BV),("_getBitValue",BV)])
p("C12","ICC profile properties and restrictions are reported correctly",
"For every embedded ICC profile of any length and content, the header properties, the tag list (at most 4096 tags) and the description are reported from the positions that the ICC header and its tag table define, and a damaged profile never stops the analysis. For a restricted ICC profile the size test passes exactly when the stored size equals the actual size, the class test exactly for input and display profiles, and the LUT test exactly when no A2B0 tag is listed. These tests are made for the restricted method only.",
["inputs"],"all profile byte sequences, tag counts, tag offsets and sizes",NOJ,[BV,BC],
[("validate_icc",BV),("validate_colourSpecificationBox",BV)])
p("C13","XML, UUID and URL boxes are read and judged correctly",
"For every content, an XML box, and a UUID box that carries the XMP identifier, passes its well-formedness test exactly when its data is a well-formed XML document as it stands, and then (or, if null-terminated XML is requested, after dropping trailing null bytes) the document is included in the report. Other UUID boxes report their identifier; a UUID list reports every identifier and passes its length test exactly when its length fits the count; a URL box reports its location without the trailing null and passes its tests exactly for version 0, flag 0, a terminating null and valid UTF-8. Requesting null-terminated XML changes neither a test nor the verdict.",
["inputs","configurations"],"all byte contents of these boxes, with and without the null-terminated XML option",NOJ,[BV,BC],
[("validate_xmlBox, validate_uuidBox, validate_uuidListBox, validate_urlBox",BV),("removeNullTerminator",BC)])
p("C14","Any byte sequence yields a complete report, never an internal error",
"For every byte sequence whatsoever, of any length including zero, and every combination of options, analysing it as any of the four formats ends with success, a verdict and a full report instead of an internal error. In particular truncation at any byte, missing or repeated structures, undefined field values, zero denominators and nonsensical lengths and counts are reported as failed tests. The only exemptions are exhausted memory and box nesting deeper than the interpreter's stack.",
["inputs","configurations"],"all byte sequences, all truncation points, all formats and options",NOJ,[BV,BC,EP,SH],
[("all validators",BV),("conversion functions that return -9999 instead of raising",BC),("try/except in checkOneFile as the last resort",JP)])
p("C15","Analysis of any byte sequence terminates",
"For every byte sequence, analysis ends: every pass over boxes, marker segments, tile-parts and packet lengths moves forward through the data on each step, whatever lengths the data claims. Counts taken from the data never make it loop without bound.",
["inputs"],"all byte sequences, including crafted lengths that point backwards or nowhere",NOJ+" A non-terminating run is not even observable by a finite test.",[BV],
[("box loops",BV),("main header and tile-part loops",BV),("_parse_ipl",BV)])
p("C16","Reporting options never change the verdict or the results",
"For every file, turning the verbose, packet-markers, null-terminated-XML or MIX option on or off leaves the verdict and the set of failed tests unchanged. The verbose option only adds the tests that passed; the packet-markers option only adds properties of packet-level marker segments; the null-terminated-XML option only adds the content of XML and UUID boxes; MIX only adds its extension element. Everything else in the report stays the same.",
["inputs","configurations"],"all files and all combinations of options, compared pairwise",NOJ,[BV,JP],
[("testFor",BV),("packetmarkersFlag, nullxmlFlag conditions",BV),("mixFlag handling in checkOneFile",JP)])
p("C17","Report values are converted to readable text without loss or damage",
"For every value that analysis can produce, the report shows it as text: enumerated values of the properties the manual lists are replaced by their documented descriptions, all other numbers and booleans by their plain decimal or True/False form, byte strings by their UTF-8 text (empty when it is not UTF-8), and control characters other than tab, newline and carriage return never reach the output. No other element, tag or position changes, and enumerations never apply to a property of a different name. Byte fields decode as big-endian unsigned (or signed, where stated) integers, and a wrong number of bytes gives -9999.",
["inputs"],"all values of all types, all property names, all byte strings and Unicode strings",NOJ,[EP,BC,JP],
[("makeHumanReadable",EP),("generatePropertiesRemapTable",JP),("bytesToText, removeControlCharacters, _doConv",BC)])
p("C18","Each file report has its fixed structure, even when analysis fails",
"For every file and option set, the report has file name, absolute path, size and modification date, a success status, the verdict with the format used, tests, properties, the MIX extension only if requested, and warnings, in that order. If opening, reading or analysing the file's contents raises any error, the report says so: success is False, a failure message and warning are given, the verdict is False and no partial results are shown. An empty file gives a warning and a normal, negative verdict.",
["inputs","configurations","fault_sequences"],"all files, options, and all errors that reading or analysis can raise at any point","The stable tests only reach readable text files and never an analysis error, a memory error or a valid image.",[JP,EP],
[("checkOneFile",JP),("fileToMemoryMap / fileToBytes",JP),("stripSurrogatePairs",JP)])
p("C19","Batch output is one document with one report per file, in order",
"For every list of files found, the output is a single well-formed XML document with one root element in the jpylyzer name space, the tool information, and exactly one report per file in the order found, whatever any file contains and whether or not its analysis failed. With pretty-printing switched off or on the document carries the same elements, attributes and texts (up to white space). When there is no file at all the program exits with its documented error code and writes no report.",
["inputs","histories","configurations"],"all lists of files and all reports","Tests check single text files, never lists with failing or valid images.",[JP,EP],
[("checkFiles",JP),("writeElement",JP),("checkNoInput",JP)],obs=("standard output","exit code"))
p("C20","File arguments select exactly the files they denote",
"For every list of path arguments, the files analysed are, in order, each argument that is an existing file, the existing files that a wildcard expression matches, and, only when recursion is requested, every file below a directory argument or every file below its subdirectories that matches the wildcard. An argument that denotes nothing gives a warning and does not stop the others. Directories themselves are never analysed.",
["inputs","configurations"],"all argument lists and all directory trees","Tests cover a few fixed paths of the repository; trees, wildcards and recursion vary without bound.",[JP],
[("findFiles",JP),("getFiles, getFilesWithPatternFromTree, getFilesFromTree",JP)],obs=("list of files analysed",),state=[("EXISTING_FILES","files to be analysed",JP)])
p("C21","Command-line options take effect as documented",
"Each documented option, alone or combined, in long or short form and with any letter case of the format name, switches exactly its own behaviour for every file analysed, and options not given have their documented defaults. An unknown format name ends the program with an error message before any file is analysed. MIX output is suppressed for bare codestream formats.",
["configurations"],"all combinations of options and format names","Tests drive the functions with a handful of fixed settings.",[JP,"jpylyzer/config.py"],
[("parseCommandLine",JP),("main",JP)],obs=("settings used for each file",))
p("C22","MIX output restates the report's properties faithfully",
"For every valid JP2 or JPH file and MIX version 1 or 2, the MIX extension carries the image's size, colour space, ICC profile name, compression (lossless exactly for the reversible transform), compression ratio, tile size, quality layers, resolution levels, sampling frequencies, bits per sample for every component and samples per pixel, each equal to the corresponding reported property in that version's notation. Codec and capture information appear exactly when the comment or XMP metadata provides them. MIX is produced only for valid files, and producing it never makes the analysis fail.",
["inputs","configurations"],"all property trees of valid images, both MIX versions, all XMP contents","The tests' inputs are never valid images, so MIX generation is never executed.",[MX,JP],
[("Mix.generateMix and its parts",MX),("findValueInRDF / addIfExist",MX)])
p("C23","A file's report depends only on its bytes and the options",
"For every sequence of files analysed in one run or one process, each file's verdict, tests, properties and warnings are the same as when that file is analysed alone. Analysis changes no state that outlives it: no shared tables, settings or defaults are modified by analysing a file or generating its report.",
["histories","inputs"],"all sequences of files, of any length and order, in one process","Tests compare no file analysed alone with the same file analysed after others.",[BV,BC,EP,SH,JP,MX],
[("all state of an analysis is created per call",BV),("typeMap, boxTagMap and remap table are never written",BV)])
with open('properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
