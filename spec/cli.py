"""Contracts of the file report, the batch output, the selection of files and
the command line (C18-C21), in the language of jp2.py / report.py.

The functions of `world` stand for the outside world and for callees that have
contracts of their own: same arguments, same results."""
from . import world as w
from .prim import Node, leaf, adopt
from .report import TABLE, encodable, stamp, with_text

ISSUE = 'please report to developers by creating an issue at https://github.com/openpreserve/jpylyzer/issues'
NO_IMAGES = -7
FORMATS = ('jp2', 'jph', 'j2c', 'jhc')
NAMESPACE = 'http://openpreservation.org/ns/jpylyzer/v2/'
XSI = 'http://www.w3.org/2001/XMLSchema-instance'
SCHEMA = 'http://openpreservation.org/ns/jpylyzer/v2/ http://jpylyzer.openpreservation.org/jpylyzer-v-2-2.xsd'


# ---------------------------------------------------------------- file report

def failure(e):
    if isinstance(e, MemoryError):
        return 'memory error (file size too large)'
    if isinstance(e, OSError):
        return 'I/O error (cannot open file)'
    if isinstance(e, RuntimeError):
        return 'runtime error, ' + ISSUE
    return 'unknown error, ' + ISSUE


def contents(path):
    """Contents of a file and the warnings about it."""
    f = w.opened(path)
    try:
        return w.mapped(f), []
    except ValueError as e:
        size = w.size(path)
        if size > w.MAXSIZE:
            return '', ['file ' + path + ' too large to open (' + str(round(size / 1024**3, 1)) + ' GB). Try using 64-bit Python.']
        if str(e) == 'cannot mmap an empty file':
            return '', ['empty file ' + path]
        raise


def file_report(path, fmt, verbose, packets, nullxml, mix):
    root = Node('file')
    info = Node('fileInfo')
    leaf(info, 'fileName', encodable(w.basename(path)))
    leaf(info, 'filePath', encodable(w.abspath(path)))
    leaf(info, 'fileSizeInBytes', str(w.size(path)))
    leaf(info, 'fileLastModified', stamp(w.mtime(path)))
    adopt(root, info)
    status = Node('statusInfo')
    ext = Node('propertiesExtension')
    try:
        data, notes = contents(path)
        r = w.analysed(fmt, verbose, nullxml, packets, 'JP2' if fmt in ('jp2', 'jph') else 'contiguousCodestreamBox', data)
        valid = r.valid
        warns = r.warns
        for n in notes:
            leaf(warns, 'warning', n)
        tests = w.readable(r.tests, {})
        props = w.readable(r.props, TABLE)
        warns = w.readable(warns, {})
        leaf(status, 'success', 'True')
        if mix != 0 and fmt in ('jp2', 'jph') and valid:
            adopt(ext, w.mix_tree(props, mix))
    except Exception as e:
        # no partial results
        valid = False
        tests = Node('tests')
        props = Node('properties')
        warns = Node('warnings')
        leaf(warns, 'warning', failure(e))
        leaf(status, 'success', 'False')
        leaf(status, 'failureMessage', failure(e))
    adopt(root, status)
    verdict = with_text('isValid', str(valid))
    verdict.attrib['format'] = fmt
    adopt(root, verdict)
    adopt(root, tests)
    adopt(root, props)
    if mix != 0:
        adopt(root, ext)
    adopt(root, warns)
    return root


# ---------------------------------------------------------------- selection of files

def below(top, out):
    """Every file below a directory."""
    for d, _, files in w.walk(top):
        for f in files:
            if w.isfile(w.join(d, f)):
                out.append(w.join(d, f))


def deeper(top, pattern, out):
    """Files that match a pattern in the directories below `top`."""
    for d, dirs, _ in w.walk(top):
        for s in dirs:
            for f in w.glob(w.join(w.join(d, s), pattern)):
                if w.isfile(f):
                    out.append(f)


def absolute(p):
    return p if w.isabs(p) else w.abspath(p)


def select_one(p, recurse, out, err):
    """Files that one argument stands for."""
    root = p
    if w.isfile(p):
        out.append(p)
    elif '*' in p:
        root = absolute(p)
        hits = w.glob(root)
        for f in hits:
            if w.isfile(f):
                out.append(f)
        if len(hits) == 1 and w.isdir(hits[0]):
            root = hits[0]
    elif not w.isdir(p):
        err.append('User warning: ' + p + ' does not exist\n')
    if recurse:
        root = absolute(root)
        if '*' in root:
            head, tail = w.split(root)
            for d in (w.glob(head) if '*' in head else [head]):
                if w.isdir(d):
                    deeper(d, tail, out)
        elif w.isdir(root):
            below(root, out)


def select(recurse, paths, out, err):
    for p in paths:
        select_one(p, recurse, out, err)


# ---------------------------------------------------------------- batch output

def written(element, pretty):
    """Text of an element in the output."""
    x = w.xml(element)
    if pretty:
        return '\n'.join(w.pretty_xml(x).split('\n')[1:])
    return x


def batch(recurse, paths, s, out):
    """s: settings.  Writes the document; ends with NO_IMAGES if there is no file."""
    files = w.selected(recurse, paths)
    if not files:
        raise SystemExit(NO_IMAGES)
    out.append("<?xml version='1.0' encoding='UTF-8'?>\n<jpylyzer xmlns=\"" + NAMESPACE + '" xmlns:xsi="' + XSI
               + '" xsi:schemaLocation="' + SCHEMA + '">\n')
    tool = Node('toolInfo')
    leaf(tool, 'toolName', w.TOOL)
    leaf(tool, 'toolVersion', w.VERSION)
    out.append(written(tool, s.pretty))
    for f in files:
        out.append(written(w.report(f, s.fmt, s.verbose, s.packets, s.nullxml, s.mix), s.pretty))
    out.append('</jpylyzer>\n')


# ---------------------------------------------------------------- command line

# flags: (name of the setting, kind, default, allowed values)
OPTIONS = {
    ('--format', '-f'): ('fmt', 'store', 'jp2', None),
    ('--mix',): ('mixFlag', 'int', 0, (1, 2)),
    ('--nopretty',): ('noPrettyXMLFlag', 'flag', False, None),
    ('--nullxml',): ('extractNullTerminatedXMLFlag', 'flag', False, None),
    ('--recurse', '-r'): ('inputRecursiveFlag', 'flag', False, None),
    ('--packetmarkers', '-p'): ('reportPacketMarkersFlag', 'flag', False, None),
    ('--verbose',): ('outputVerboseFlag', 'flag', False, None),
    ('--version', '-v'): ('version', 'version', None, None),
    ('jp2In',): ('jp2In', '+', None, None),
}


def run(args, err):
    """args: values given on the command line, by option.  Settings with which the files are checked."""
    fmt = args['--format'].lower()
    if fmt not in FORMATS:
        err.append("Error: '" + fmt + "'  is not a supported value for --format\n")
        raise SystemExit(None)
    mix = args['--mix']
    if fmt in ('j2c', 'jhc'):
        mix = 0
    return {'recurse': args['--recurse'], 'paths': args['jp2In'], 'fmt': fmt, 'mix': mix, 'nopretty': args['--nopretty'],
            'nullxml': args['--nullxml'], 'packets': args['--packetmarkers'], 'verbose': args['--verbose']}
