"""Decides, for one concrete input, whether the real code keeps a property.

A case is a JSON-able dict; judge(prop, case) returns a list of descriptions of
what is wrong (empty: the property holds on this input).  All judgements compare
what the real code does with the contracts in /verif/spec, or, for relational
properties, with what the real code does under other options or in another
process.  Attribution is semantic: a difference counts for the property whose
statement it contradicts.
"""
import base64
import contextlib
import io
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback
import xml.etree.ElementTree as StdET

from . import real
from spec import jp2 as S, report as R

BOXFIELDS = ('signatureBox', 'fileTypeBox', 'imageHeaderBox', 'bitsPerComponentBox', 'colourSpecificationBox',
             'paletteBox', 'componentMappingBox', 'channelDefinitionBox', 'captureResolutionBox', 'displayResolutionBox')
SUPER = ('JP2', 'jp2HeaderBox', 'resolutionBox', 'uuidInfoBox')
SEG07 = ('siz', 'cod', 'coc', 'qcd', 'qcc')
SEG08 = ('sot', 'rgn', 'poc', 'crg', 'com', 'cap', 'prf', 'cpf')
SEG11 = SEG07 + SEG08 + ('plm', 'plt', 'tlm', 'ppm', 'ppt')
META = ('xmlBox', 'uuidBox', 'uuidListBox', 'urlBox')
STRUCT = set(S.NAMES.values()) | {'JP2', 'unknownBox', 'tileParts'}
SLOW = 12.0
CONFIRM = 90.0


def enc(b):
    return None if b is None else base64.b64encode(b).decode()


def dec(s):
    return None if s is None else base64.b64decode(s)


def analysis_case(kind, content, fmt, verbose, nullxml, packets, csiz=None, start=None):
    k = {'s': kind} if isinstance(kind, str) else {'b': enc(kind)}
    return {'type': 'analysis', 'kind': k, 'content': enc(content), 'fmt': fmt, 'verbose': bool(verbose),
            'nullxml': bool(nullxml), 'packets': bool(packets), 'csiz': csiz, 'start': start}


def kind_of(case):
    k = case['kind']
    return k['s'] if 's' in k else dec(k['b'])


def name_of(kind):
    if kind in ('JP2', 'contiguousCodestreamBox'):
        return kind
    return S.NAMES.get(kind, 'unknownBox')


def options(case, **over):
    o = {'validationFormat': case['fmt'], 'verboseFlag': case['verbose'], 'nullxmlFlag': case['nullxml'],
         'packetmarkersFlag': case['packets']}
    o.update(over)
    return o


_mods = []


def mods():
    if not _mods:
        _mods.extend(real.load())
    return _mods


def run_real(case, seconds=SLOW, **over):
    jp, bv = mods()
    o = real.run_validator(bv, options(case, **over), kind_of(case), dec(case['content']), case['csiz'], case['start'], seconds)
    if o.exc and o.exc.startswith('no end') and seconds < CONFIRM:
        # never take a loaded machine for an endless loop
        o = real.run_validator(bv, options(case, **over), kind_of(case), dec(case['content']), case['csiz'], case['start'], CONFIRM)
    return o


# ---------------------------------------------------------------- differences

def diffs(want, got, path=()):
    """All attributable differences between two trees: (path, leaf tag, description)."""
    if want == got and real.same_deep(want, got):
        return []
    out = []
    here = path + (want[0],)
    if want[0] != got[0]:
        return [(path, want[0], 'element %s instead of %s' % (got[0], want[0]))]
    if not real.same_value(want[1], got[1]):
        out.append((path, want[0], 'value %.200r instead of %.200r' % (got[1], want[1])))
    if want[2] != got[2]:
        out.append((path, want[0], 'attributes %r instead of %r' % (got[2], want[2])))
    a, b = want[3], got[3]
    i = 0
    while i < len(a) and i < len(b) and a[i][0] == b[i][0]:
        out += diffs(a[i], b[i], here)
        i += 1
    if i < len(a) or i < len(b):
        j = 0
        while j < len(a) - i and j < len(b) - i and a[-1 - j][0] == b[-1 - j][0] and real.same_deep(a[-1 - j], b[-1 - j]):
            j += 1
        ma, mb = a[i:len(a) - j], b[i:len(b) - j]
        names = []
        for k in ma:
            if not any(real.same_deep(k, x) for x in mb):
                names.append((k[0], 'missing or misplaced element %s = %.100r' % (k[0], k[1])))
        for k in mb:
            if not any(real.same_deep(k, x) for x in ma):
                names.append((k[0], 'unexpected element %s = %.100r' % (k[0], k[1])))
        if not names:
            names = [((ma or mb)[0][0], 'elements in a different order or number')]
        for t, d in names[:8]:
            out.append((here, t, d))
    return out


def structure(path, kind):
    """Name of the structure an element belongs to."""
    for p in reversed(path):
        if p in STRUCT:
            return p
    return name_of(kind)


def owners(channel, path, tag, kind):
    p = structure(path, kind)
    if channel == 'tests':
        if p in BOXFIELDS:
            return ('C12',) if tag.startswith('icc') else ('C05',)
        if p in SUPER:
            if tag in STRUCT:
                return ('C01', 'C04')
            if 'ConsistentWith' in tag:
                return ('C09',)
            return ('C06',)
        if p == 'contiguousCodestreamBox':
            if tag == 'tileParts':
                return ('C03', 'C04')
            if tag in STRUCT:
                return ('C02', 'C04')
            return ('C03',) if tag.startswith('foundExpected') else ('C02',)
        if p in ('tileParts', 'tilePart'):
            return ('C03', 'C04') if tag in STRUCT else ('C03',)
        if p in SEG07:
            return ('C07',)
        if p in SEG08:
            return ('C08',)
        if p in META:
            return ('C13',)
        if p == 'icc':
            return ('C12',)
        if p == 'unknownBox':
            return ('C01',)
        return ('C08',)
    if channel == 'props':
        if p == 'icc' or tag == 'icc':
            return ('C12',)
        if tag == 'compressionRatio':
            return ('C09',)
        if p in BOXFIELDS:
            return ('C10',)
        if p in SUPER:
            return ('C01',)
        if p == 'contiguousCodestreamBox':
            return ('C03',) if tag == 'tileParts' else ('C02',)
        if p in ('tileParts', 'tilePart'):
            return ('C03',)
        if p in SEG11:
            return ('C11',)
        if p in META:
            return ('C13',)
        return ('C01',)
    return ('C01',)


KIND_OWNERS = {}
for _k in BOXFIELDS:
    KIND_OWNERS[_k] = ('C05', 'C10')
KIND_OWNERS['colourSpecificationBox'] = ('C05', 'C10', 'C12')
for _k in SUPER:
    KIND_OWNERS[_k] = ('C01', 'C06')
KIND_OWNERS['JP2'] = ('C01', 'C06', 'C09')
KIND_OWNERS['contiguousCodestreamBox'] = ('C02', 'C03', 'C09')
KIND_OWNERS['tilePart'] = ('C03',)
for _k in SEG07:
    KIND_OWNERS[_k] = ('C07', 'C11')
for _k in SEG08:
    KIND_OWNERS[_k] = ('C08', 'C11')
for _k in ('plm', 'plt'):
    KIND_OWNERS[_k] = ('C11',)
for _k in META:
    KIND_OWNERS[_k] = ('C13',)
KIND_OWNERS['icc'] = ('C12',)
KIND_OWNERS['unknownBox'] = ('C01',)


def any_false(t):
    return t[1] is False or any(any_false(k) for k in t[3])


def failed(t, path=()):
    here = path + (t[0],)
    out = [here] if t[1] is False else []
    for k in t[3]:
        out += failed(k, here)
    return out


def passed(t, path=()):
    here = path + (t[0],)
    out = [here] if t[1] is True else []
    for k in t[3]:
        out += passed(k, here)
    return out


def only_failed(t):
    """Tree of tests with passed leaves, and elements left without any, removed."""
    kids = []
    for k in t[3]:
        if k[1] is True:
            continue
        if k[1] is None:
            k = only_failed(k)
            if not k[3]:
                continue
        kids.append(k)
    return (t[0], t[1], t[2], tuple(kids))


def drop(t, tags):
    return (t[0], t[1], t[2], tuple(drop(k, tags) for k in t[3] if k[0] not in tags))


def empty_kids(t, tags):
    return (t[0], t[1], t[2], () if t[0] in tags else tuple(empty_kids(k, tags) for k in t[3]))


def judge_analysis(prop, case):
    kind = kind_of(case)
    if prop == 'C16':
        return judge_options(case)
    got = run_real(case)
    if got.exc == 'recursion':
        return []
    if prop == 'C15':
        # (a large palette, say, may simply take its time)
        return [got.exc] if got.exc and got.exc.startswith('no end') and not \
            real.run_spec(S, options(case), kind, dec(case['content']), case['csiz'], case['start'], CONFIRM).exc else []
    if prop == 'C14':
        return [got.exc] if got.exc and not got.exc.startswith('no end') else []
    if got.exc:
        return [got.exc] if prop in KIND_OWNERS.get(name_of(kind), ()) and not got.exc.startswith('no end') else []
    out = []
    if prop == 'C04':
        if kind in ('JP2', 'contiguousCodestreamBox') and got.valid is not (not any_false(got.tests)):
            out.append('verdict %r although failed tests are %r' % (got.valid, failed(got.tests)[:3]))
        if not case['verbose'] and passed(got.tests):
            out.append('passed test %s listed in default report' % '/'.join(passed(got.tests)[0]))
        other = run_real(case, verboseFlag=not case['verbose'])
        if not other.exc and failed(other.tests) != failed(got.tests):
            out.append('failed tests listed differ between verbose and default report: %r / %r' % (failed(got.tests)[:4], failed(other.tests)[:4]))
    want = real.run_spec(S, options(case), kind, dec(case['content']), case['csiz'], case['start'])
    if want.exc:
        return out
    for ch in ('tests', 'props', 'warns'):
        for path, tag, d in diffs(getattr(want, ch), getattr(got, ch)):
            if prop in owners(ch, path, tag, kind):
                if prop == 'C04' and not ('missing' in d or 'order or number' in d):
                    continue
                out.append('%s %s: %s' % (ch, '/'.join(path + (tag,)), d))
    if prop == 'C03' and kind in (b'\xff\x90', 'startOfTile'):
        for ch in ('next', 'psot'):
            if not real.same_value(getattr(want, ch), getattr(got, ch)):
                out.append('%s: %r instead of %r' % (ch, getattr(got, ch), getattr(want, ch)))
    return out[:5]


PACKETTAGS = ('plm', 'ppm', 'plt', 'ppt')


def judge_options(case):
    """C16 on the real code alone: option pairs."""
    base = run_real(case, verboseFlag=False, nullxmlFlag=False, packetmarkersFlag=False)
    if base.exc:
        return []
    out = []
    v = run_real(case, verboseFlag=True, nullxmlFlag=False, packetmarkersFlag=False)
    n = run_real(case, verboseFlag=False, nullxmlFlag=True, packetmarkersFlag=False)
    p = run_real(case, verboseFlag=False, nullxmlFlag=False, packetmarkersFlag=True)
    a = run_real(case, verboseFlag=True, nullxmlFlag=True, packetmarkersFlag=True)
    kind = kind_of(case)
    root = name_of(kind)
    for label, o in (('verbose', v), ('nullxml', n), ('packetmarkers', p), ('all', a)):
        if o.exc:
            out.append('%s: %s' % (label, o.exc))
            continue
        if o.valid != base.valid:
            out.append('%s: verdict %r instead of %r' % (label, o.valid, base.valid))
        t = only_failed(o.tests) if label in ('verbose', 'all') else o.tests
        for path, tag, d in diffs(base.tests, t)[:1]:
            out.append('%s changes test results: %s %s' % (label, '/'.join(path + (tag,)), d))
        for path, tag, d in diffs(base.warns, o.warns)[:1]:
            out.append('%s changes warnings: %s %s' % (label, '/'.join(path + (tag,)), d))
        x, y = base.props, o.props
        if label in ('packetmarkers', 'all'):
            x, y = drop(x, PACKETTAGS), drop(y, PACKETTAGS)
            if diffs_only_added(base.props, o.props) and label == 'packetmarkers':
                out.append('packetmarkers removes properties')
        if label in ('nullxml', 'all'):
            x, y = empty_kids(x, ('xmlBox', 'uuidBox')), empty_kids(y, ('xmlBox', 'uuidBox'))
        if root not in PACKETTAGS or label not in ('packetmarkers', 'all'):
            for path, tag, d in diffs(x, y)[:1]:
                out.append('%s changes properties: %s %s' % (label, '/'.join(path + (tag,)), d))
    return out[:5]


def diffs_only_added(base, more):
    """True unless base's packet elements all occur, in order, in more."""
    def flat(t, path=()):
        here = path + (t[0],)
        out = []
        for k in t[3]:
            if k[0] in PACKETTAGS:
                out.append(here + (repr(k),))
            else:
                out += flat(k, here)
        return out
    a, b = flat(base), flat(more)
    it = iter(b)
    return not all(x in it for x in a)


# ---------------------------------------------------------------- file reports

@contextlib.contextmanager
def scratch(mtime=None):
    # dates far off need a file system that can represent them
    far = mtime is not None and abs(mtime) > 1e9 and os.access('/dev/shm', os.W_OK)
    d = tempfile.mkdtemp(prefix='jpv-', dir='/dev/shm' if far else None)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Quiet:
    """stdout/stderr stand-in with a byte buffer."""
    encoding = 'utf-8'
    errors = 'backslashreplace'

    def __init__(self):
        self.buffer = io.BytesIO()

    def write(self, s):
        self.buffer.write(s.encode('utf-8', 'backslashreplace'))

    def flush(self):
        pass


def report_case(data, fmt, verbose, nullxml, packets, mix, name='image.jp2', mtime=None, fault=None):
    return {'type': 'report', 'content': enc(data), 'fmt': fmt, 'verbose': bool(verbose), 'nullxml': bool(nullxml),
            'packets': bool(packets), 'mix': mix, 'name': name, 'mtime': mtime, 'fault': fault}


FAULTS = {'MemoryError': MemoryError, 'OSError': OSError, 'PermissionError': PermissionError, 'RuntimeError': RuntimeError,
          'ValueError': ValueError, 'KeyError': KeyError, 'RecursionError': RecursionError, 'ZeroDivisionError': ZeroDivisionError,
          'FileNotFoundError': FileNotFoundError, 'UnicodeDecodeError': lambda: UnicodeDecodeError('utf-8', b'x', 0, 1, 'y')}
MESSAGES = {'MemoryError': 'memory error (file size too large)', 'OSError': 'I/O error (cannot open file)',
            'PermissionError': 'I/O error (cannot open file)', 'FileNotFoundError': 'I/O error (cannot open file)'}
REPORTISSUE = 'please report to developers by creating an issue at https://github.com/openpreserve/jpylyzer/issues'


def real_report(case, path, seconds=SLOW * 2):
    """(tree, injected) of checkOneFile on path, or an exception text."""
    jp, bv = mods()
    fault = case.get('fault')
    hits = []
    err = io.StringIO()
    saved = []
    import builtins
    import mmap

    def boom(*a, **k):
        hits.append(1)
        raise FAULTS[fault[1]]()
    try:
        if fault:
            where = fault[0]
            if where == 'validate':
                saved.append((bv.BoxValidator, 'validate', bv.BoxValidator.validate))
                bv.BoxValidator.validate = boom
            elif where == 'open':
                orig = builtins.open
                saved.append((builtins, 'open', orig))
                builtins.open = lambda f, *a, **k: boom() if f == path else orig(f, *a, **k)
            elif where == 'mmap':
                saved.append((mmap, 'mmap', mmap.mmap))
                mmap.mmap = boom
            elif where == 'readable':
                # fails once when the properties are made readable
                cls = type(jp.ET.Element('x'))
                orig = cls.makeHumanReadable

                def later(self, *a, **k):
                    if self.tag == 'properties' and not hits:
                        boom()
                    return orig(self, *a, **k)
                saved.append((cls, 'makeHumanReadable', orig))
                cls.makeHumanReadable = later
            elif where == 'late':
                # fails after part of the contents has been analysed
                n = [0]
                orig = bv.BoxValidator.validate

                def later(self):
                    n[0] += 1
                    if n[0] > 2:
                        boom()
                    return orig(self)
                saved.append((bv.BoxValidator, 'validate', orig))
                bv.BoxValidator.validate = later
        with real.limit(seconds), contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            t = jp.checkOneFile(path, case['fmt'], case['verbose'], case['packets'], case['nullxml'], case['mix'])
            return real.tree_real(t), bool(hits)
    except real.TooLong:
        return 'no end within %gs' % seconds, bool(hits)
    except RecursionError:
        return 'recursion', bool(hits)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e), bool(hits)
    finally:
        for o, n, v in saved:
            setattr(o, n, v)


def write_case(d, case):
    path = os.path.join(d, case.get('name') or 'image.jp2')
    with open(path, 'wb') as f:
        f.write(dec(case['content']))
    if case.get('mtime') is not None:
        try:
            os.utime(path, (case['mtime'], case['mtime']))
        except (OverflowError, OSError):
            pass
    return path


def want_report(case, path):
    data = dec(case['content'])
    try:
        with real.limit(60):
            return real.tree_spec(R.file_report(os.path.basename(path), os.path.abspath(path), path, len(data),
                                                os.path.getmtime(path), data, case['fmt'], case['verbose'], case['packets'],
                                                case['nullxml'], case['mix']))
    except (real.TooLong, RecursionError):
        return None


def child(t, tag):
    for k in t[3]:
        if k[0] == tag:
            return k
    return None


ORDER = ['fileInfo', 'statusInfo', 'isValid', 'tests', 'properties', 'propertiesExtension', 'warnings']


def judge_report(prop, case):
    with scratch(case.get('mtime')) as d:
        path = write_case(d, case)
        got, hit = real_report(case, path)
        if got == 'recursion':
            return []
        want = want_report(case, path)
        if want is None:
            return []
        if case.get('fault'):
            return judge_fault(case, path, got, hit, want) if prop == 'C18' and hit else []
        if isinstance(got, str):
            if prop == 'C15':
                return [got] if got.startswith('no end') else []
            if got.startswith('no end'):
                return []
            if prop == 'C22':
                return [got] if case['mix'] and child(want, 'isValid')[1] == 'True' else []
            if prop in ('C14', 'C18'):
                return [got]
            return []
        if prop == 'C14':
            s = child(got, 'statusInfo')
            if s is None or child(s, 'success') is None or child(s, 'success')[1] != 'True':
                return ['report says that analysis failed: %r' % (s,)]
            return []
        if prop == 'C18':
            names = [k[0] for k in got[3]]
            wantn = [k[0] for k in want[3]]
            if names != wantn:
                return ['report consists of %s instead of %s' % (names, wantn)]
            out = []
            for tag in ('fileInfo', 'statusInfo'):
                out += ['%s: %s' % ('/'.join(p + (t,)), x) for p, t, x in diffs(child(want, tag), child(got, tag))]
            w, g = child(want, 'isValid'), child(got, 'isValid')
            if g[2] != w[2] or g[1] not in ('True', 'False'):
                out.append('isValid is %r with attributes %r' % (g[1], g[2]))
            if len(dec(case['content'])) == 0:
                out += ['%s: %s' % ('/'.join(p + (t,)), x) for p, t, x in diffs(child(want, 'warnings'), child(got, 'warnings'))]
                if g[1] != 'False':
                    out.append('verdict %r on an empty file' % g[1])
            return out[:4]
        if prop == 'C17':
            # raw values come from the real analysis; only their conversion is judged
            raw = run_real({'type': 'analysis', 'kind': {'s': 'JP2' if case['fmt'] in ('jp2', 'jph') else 'contiguousCodestreamBox'},
                            'content': case['content'], 'fmt': case['fmt'], 'verbose': case['verbose'], 'nullxml': case['nullxml'],
                            'packets': case['packets'], 'csiz': None, 'start': None})
            if raw.exc:
                return []
            out = []
            for tag, t, table in (('tests', raw.tests, {}), ('properties', raw.props, R.TABLE)):
                w = readable_tree(t, table)
                g = child(got, tag)
                if g is None:
                    continue
                out += ['%s: %s' % ('/'.join(p + (x,)), m) for p, x, m in diffs(w, g)]
            g = child(got, 'warnings')
            w = readable_tree(raw.warns, {})
            if g is not None:
                w = (w[0], w[1], w[2], w[3] + g[3][len(w[3]):])
                out += ['%s: %s' % ('/'.join(p + (x,)), m) for p, x, m in diffs(w, g)]
            return out[:4]
        if prop == 'C22':
            w, g = child(want, 'propertiesExtension'), child(got, 'propertiesExtension')
            if (w is None) != (g is None):
                return ['MIX extension %s' % ('missing' if g is None else 'present although not requested')]
            if w is None:
                return []
            real_valid = child(got, 'isValid')[1] == 'True'
            if (len(g[3]) > 0) != (real_valid and case['fmt'] in ('jp2', 'jph')):
                return ['MIX output with %d elements for a file with verdict %r' % (len(g[3]), real_valid)]
            if not real_valid or not g[3]:
                return []
            # restates the properties that the real report shows
            props = to_node(child(got, 'properties'))
            try:
                w = real.tree_spec(R.mix_tree(props, case['mix']))
            except Exception:
                return []
            return ['%s: %s' % ('/'.join(p + (t,)), x) for p, t, x in diffs(w, g[3][0])][:4]
        if prop == 'C16':
            out = []
            other = dict(case, mix=0 if case['mix'] else 1)
            g2, _ = real_report(other, path)
            if isinstance(g2, str):
                return ['with mix=%d: %s' % (other['mix'], g2)]
            for p, t, x in diffs(drop_top(got), drop_top(g2))[:2]:
                out.append('mix changes %s: %s' % ('/'.join(p + (t,)), x))
            return out
        if prop == 'C04':
            g = child(got, 'isValid')[1] == 'True'
            lost = [k for k in texts(child(got, 'tests')) if k[1] == 'False']
            if g == bool(lost):
                return ['verdict %s although failed tests are %r' % (g, lost[:3])]
            return []
        return []


def drop_top(t):
    return (t[0], t[1], t[2], tuple(k for k in t[3] if k[0] != 'propertiesExtension'))


def texts(t):
    out = [(t[0], t[1])]
    for k in t[3]:
        out += texts(k)
    return out


def readable_tree(t, table):
    return (t[0], R.readable_value(t[0], t[1], table), t[2], tuple(readable_tree(k, table) for k in t[3]))


def to_node(t):
    n = S.Node(t[0])
    n.text = t[1]
    n.attrib = dict(t[2])
    n.kids = [to_node(k) for k in t[3]]
    return n


def judge_fault(case, path, got, hit, want):
    name = case['fault'][1]
    if isinstance(got, str):
        if case['fault'][0] == 'readable':
            return []
        return ['an error while reading or analysing the file escapes: %s' % got]
    names = [k[0] for k in got[3]]
    wantn = [k for k in ORDER if k != 'propertiesExtension' or case['mix']]
    out = []
    if names != wantn:
        return ['report consists of %s instead of %s' % (names, wantn)]
    st = child(got, 'statusInfo')
    if child(st, 'success') is None or child(st, 'success')[1] != 'False':
        out.append('success is %r although %s was raised' % (child(st, 'success'), name))
    msg = child(st, 'failureMessage')
    if msg is None or not msg[1]:
        out.append('no failure message')
    else:
        if name in MESSAGES and msg[1] != MESSAGES[name]:
            out.append('failure message %r for %s' % (msg[1], name))
        w = child(got, 'warnings')
        if [k[1] for k in w[3]] != [msg[1]]:
            out.append('warnings %r instead of the failure message' % ([k[1] for k in w[3]],))
    if child(got, 'isValid')[1] != 'False' or child(got, 'isValid')[2] != (('format', case['fmt']),):
        out.append('verdict %r' % (child(got, 'isValid')[1:3],))
    for tag in ('tests', 'properties', 'propertiesExtension'):
        c = child(got, tag)
        if c is not None and (c[3] or c[1]):
            out.append('partial results in %s' % tag)
    for p, t, x in diffs(child(want, 'fileInfo'), child(got, 'fileInfo')):
        out.append('%s: %s' % (t, x))
    return out[:4]


# ---------------------------------------------------------------- values (C17)

def judge_values(prop, case):
    """Conversion functions and makeHumanReadable on single values."""
    jp, bv = mods()
    out = []
    if case['what'] == 'bytes':
        b = dec(case['content'])
        bc = sys.modules['jpylyzer.byteconv']
        from spec import prim as P
        table = (('bytesToULongLong', lambda x: P.uint(x, 8)), ('bytesToUInt', lambda x: P.uint(x, 4)),
                 ('bytesToUShortInt', lambda x: P.uint(x, 2)), ('bytesToUnsignedChar', lambda x: P.uint(x, 1)),
                 ('bytesToSignedChar', P.sint8), ('bytesToInteger', P.anyint), ('bytesToText', P.utf8clean),
                 ('removeNullTerminator', P.strip_nulls))
        for name, f in table:
            g = getattr(bc, name, None)
            if g is None:
                continue
            try:
                v = g(b)
            except Exception as e:
                v = e
            if not real.same_value(v, f(b)):
                out.append('%s(%r) = %r instead of %r' % (name, b[:40], v, f(b)))
        return out
    tag, value = case['tag'], unvalue(case['value'])
    et = sys.modules['jpylyzer.etpatch']
    root = et.Element('properties')
    root.appendChildTagWithText(tag, value)
    try:
        root.makeHumanReadable(jp.generatePropertiesRemapTable() if case['remap'] else None)
        v = root[0].text
        if root[0].tag != tag or len(root) != 1 or root.text is not None:
            out.append('tree changed')
    except Exception as e:
        v = e
    w = R.readable_value(tag, value, R.TABLE if case['remap'] else {})
    if not real.same_value(v, w):
        out.append('%s = %r is shown as %r instead of %r' % (tag, value, v, w))
    return out


def tovalue(v):
    if isinstance(v, bytes):
        return ['b', enc(v)]
    if isinstance(v, bool):
        return ['t', v]
    if isinstance(v, int):
        return ['i', hex(v)]
    if isinstance(v, float):
        return ['f', v.hex()]
    if v is None:
        return ['n', None]
    return ['s', enc(v.encode('utf-8', 'surrogatepass'))]


def unvalue(p):
    k, v = p
    if k == 'b':
        return dec(v)
    if k == 'i':
        return int(v, 16)
    if k == 'f':
        return float.fromhex(v)
    if k == 's':
        return dec(v).decode('utf-8', 'surrogatepass')
    return v


# ---------------------------------------------------------------- command line

NS = '{http://openpreservation.org/ns/jpylyzer/v2/}'
CLI = 'import sys; sys.dont_write_bytecode = True; sys.path.insert(0, %r); sys.argv[0] = "jpylyzer"; import jpylyzer.jpylyzer as j; j.main()'


def run_cli(args, cwd, seconds=60):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')
    env.pop('PYTHONPATH', None)
    return subprocess.run([sys.executable, '-c', CLI % real.REPO] + list(args), cwd=cwd, env=env, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, timeout=seconds)


class Done:
    pass


def fork_cli(args, cwd, seconds=60):
    """The same in a forked copy of this process, whose modules are as freshly imported."""
    jp, _ = mods()
    with tempfile.TemporaryFile() as o, tempfile.TemporaryFile() as e:
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(int(seconds))
                os.chdir(cwd)
                os.dup2(o.fileno(), 1)
                os.dup2(e.fileno(), 2)
                sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False), encoding='utf-8')
                sys.stderr = io.TextIOWrapper(io.FileIO(2, 'w', closefd=False), encoding='utf-8', errors='backslashreplace', write_through=True)
                sys.argv = ['jpylyzer'] + list(args)
                try:
                    jp.main()
                except SystemExit as x:
                    code = x.code if isinstance(x.code, int) else 0 if x.code is None else 1
                except BaseException:
                    traceback.print_exc()
                    code = 1
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code & 255)
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status):
            raise subprocess.TimeoutExpired('fork', seconds)
        r = Done()
        r.returncode = os.WEXITSTATUS(status)
        o.seek(0)
        e.seek(0)
        r.stdout, r.stderr = o.read(), e.read()
        return r


def build_tree(d, files):
    """files: {relative path: base64 contents, None for a directory, '->x' for a link to x, '|' for a named pipe}"""
    for rel, c in files.items():
        p = os.path.join(d, rel)
        if c is None:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if c.startswith('->'):
                os.symlink(c[2:], p)
                continue
            if c == '|':
                os.mkfifo(p)
                continue
            with open(p, 'wb') as f:
                f.write(dec(c))


def below(p):
    out = []
    for x, _, fs in os.walk(p):
        out += [os.path.join(x, f) for f in fs if os.path.isfile(os.path.join(x, f))]
    return out


def subdirs(p):
    out = []
    for x, ds, _ in os.walk(p):
        out += [os.path.join(x, y) for y in ds]
    return out


def select(args, recurse, cwd):
    """Files denoted by each argument (list of multisets), and arguments that denote nothing."""
    import glob
    groups, nothing = [], []
    for a in args:
        p = os.path.join(cwd, a)
        if os.path.isfile(p):
            groups.append([p])
            if recurse and '*' in a:
                path, pat = os.path.split(p)
                groups[-1] += deeper(path, pat)
            continue
        if '*' in a:
            hits = glob.glob(p)
            g = [x for x in hits if os.path.isfile(x)]
            if recurse:
                if len(hits) == 1 and os.path.isdir(hits[0]):
                    g += below(hits[0])
                else:
                    path, pat = os.path.split(p)
                    g += deeper(path, pat)
            groups.append(g)
        elif os.path.isdir(p):
            groups.append(below(p) if recurse else [])
        else:
            groups.append([])
            nothing.append(a)
    return groups, nothing


def deeper(path, pat):
    import glob
    roots = glob.glob(path) if '*' in path else [path]
    out = []
    for r in roots:
        for s in subdirs(r):
            out += [x for x in glob.glob(os.path.join(s, pat)) if os.path.isfile(x)]
    return out


def cli_case(files, args, flags):
    return {'type': 'cli', 'files': files, 'args': args, 'flags': flags}


def parse_flags(flags):
    """Settings that a list of option words stands for (the manual's table)."""
    s = dict(fmt='jp2', mix=0, pretty=True, nullxml=False, recurse=False, packets=False, verbose=False)
    i = 0
    while i < len(flags):
        f = flags[i]
        v = None
        if '=' in f:
            f, v = f.split('=', 1)
        if f in ('--format', '-f', '--mix'):
            if v is None:
                i += 1
                v = flags[i]
            if f == '--mix':
                s['mix'] = int(v)
            else:
                s['fmt'] = v.lower()
        elif f == '--nopretty':
            s['pretty'] = False
        elif f == '--nullxml':
            s['nullxml'] = True
        elif f in ('--recurse', '-r'):
            s['recurse'] = True
        elif f in ('--packetmarkers', '-p'):
            s['packets'] = True
        elif f == '--verbose':
            s['verbose'] = True
        i += 1
    if s['fmt'] in ('j2c', 'jhc'):
        s['mix'] = 0
    return s


def squeeze(t):
    """Text up to white space."""
    return ' '.join((t or '').split())


def out_tree(e):
    def name(tag):
        if tag.startswith(NS):
            return tag[len(NS):]
        for v in ('v10', 'v20'):
            if tag.startswith('{http://www.loc.gov/mix/%s}' % v):
                return 'mix:' + tag.split('}')[1]
        return tag
    return (name(e.tag), squeeze(e.text), tuple(sorted((k, squeeze(v)) for k, v in e.attrib.items())), tuple(out_tree(k) for k in e))


def as_written(t):
    """A report tree after a round trip through XML, in out_tree's form."""
    def build(x):
        e = StdET.Element(x[0], dict(x[2]))
        e.text = x[1]
        for k in x[3]:
            e.append(build(k))
        return e
    s = StdET.tostring(build(t), 'unicode')
    return out_tree(StdET.fromstring('<jpylyzer xmlns="http://openpreservation.org/ns/jpylyzer/v2/" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">%s</jpylyzer>' % s)[0])


def judge_cli(prop, case):
    d = judge_run(prop, case, fork_cli)
    # nothing is reported that a fresh process does not show
    return judge_run(prop, case, run_cli) if d else []


def judge_run(prop, case, run_cli):
    with scratch() as d:
        build_tree(d, case['files'])
        args, flags = case['args'], case['flags']
        s = parse_flags(flags)
        try:
            r = run_cli(list(flags) + list(args), d)
        except subprocess.TimeoutExpired:
            return []
        err = r.stderr.decode('utf-8', 'replace')
        words = ' '.join(flags).replace('=', ' ').split()
        if any(a == '--mix' and b not in ('1', '2') for a, b in zip(words, words[1:])):
            if prop == 'C21' and (r.returncode != 2 or r.stdout):
                return ['an undefined MIX version is accepted']
            return []
        if s['fmt'] not in ('jp2', 'jph', 'j2c', 'jhc'):
            if prop != 'C21':
                return []
            out = []
            if r.stdout:
                out.append('output although the format %r is unknown' % s['fmt'])
            if s['fmt'] not in err or 'Error' not in err:
                out.append('no error message on unknown format: %r' % err[:200])
            return out
        groups, nothing = select(args, s['recurse'], d)
        files = [f for g in groups for f in g]
        if not files:
            if prop in ('C19', 'C20'):
                out = []
                if r.returncode != 249:
                    out.append('exit code %d when there is no file' % r.returncode)
                if r.stdout:
                    out.append('report written although there is no file')
                return out
            return []
        try:
            root = StdET.fromstring(r.stdout.decode('utf-8'))
        except (StdET.ParseError, UnicodeDecodeError) as e:
            if prop == 'C19':
                return ['output is not a well-formed XML document: %s; stderr %s' % (e, err[-300:])]
            if prop in ('C20', 'C21'):
                return ['output is not a well-formed XML document: %s; stderr %s' % (e, err[-300:])] if 'Traceback' in err else []
            return []
        kids = [out_tree(k) for k in root]
        reports = [k for k in kids if k[0] == 'file']
        got_paths = [child(child(k, 'fileInfo'), 'filePath')[1] for k in reports]
        out = []
        if prop == 'C20':
            i = 0
            for a, g in zip(args, groups):
                part = got_paths[i:i + len(g)]
                if sorted(part) != sorted(squeeze(R.encodable(os.path.abspath(x))) for x in g):
                    out.append('argument %r stands for %r, analysed %r' % (a, sorted(os.path.relpath(x, d) for x in g), [os.path.relpath(x, d) for x in got_paths[i:]]))
                    break
                i += len(g)
            else:
                if i != len(got_paths):
                    out.append('files analysed that no argument denotes: %r' % got_paths[i:])
            for a in nothing:
                if a not in err:
                    out.append('no warning about %r' % a)
            return out
        if prop == 'C19':
            if r.returncode != 0:
                out.append('exit code %d; stderr %s' % (r.returncode, err[-300:]))
            if root.tag != NS + 'jpylyzer':
                out.append('root element %s' % root.tag)
            if not kids or kids[0][0] != 'toolInfo' or [k[0] for k in kids[1:]] != ['file'] * (len(kids) - 1):
                out.append('elements %r instead of toolInfo and one report per file' % [k[0] for k in kids][:10])
            else:
                t = kids[0]
                if [k[0] for k in t[3]] != ['toolName', 'toolVersion'] or not all(k[1] for k in t[3]):
                    out.append('tool information %r' % (t,))
            if len(reports) != len(got_paths) or sorted(got_paths) != sorted(squeeze(R.encodable(os.path.abspath(f))) for f in files):
                out.append('%d reports for %d files' % (len(reports), len(files)))
            for p, k in zip(got_paths, reports):
                f = [x for x in files if squeeze(R.encodable(os.path.abspath(x))) == p]
                ds = [compare_report(x, k, s, d, case, True) for x in f]
                if ds and all(ds):
                    out += ds[0]
            return out[:4]
        if prop == 'C21':
            if r.returncode != 0:
                out.append('exit code %d; stderr %s' % (r.returncode, err[-300:]))
            for p, k in zip(got_paths, reports):
                f = [x for x in files if squeeze(R.encodable(os.path.abspath(x))) == p]
                ds = [compare_report(x, k, s, d, case, False) for x in f]
                if ds and all(ds):
                    out += ds[0]
            if len(reports) != len(files):
                out.append('%d files analysed instead of %d' % (len(reports), len(files)))
            pretty = r.stdout.count(b'\n') > 6 + len(files) * 8
            if pretty != s['pretty']:
                out.append('output is %spretty-printed' % ('' if pretty else 'not '))
            return out[:4]
        return out


def compare_report(path, got, s, d, case, text):
    """The report in the output is the one that checkOneFile gives for these settings."""
    c = {'fmt': s['fmt'], 'verbose': s['verbose'], 'packets': s['packets'], 'nullxml': s['nullxml'], 'mix': s['mix']}
    g, _ = real_report(c, path)
    if isinstance(g, str):
        return []
    try:
        w = as_written(g)
    except (StdET.ParseError, ValueError):
        return ['report of %r cannot be written as XML' % os.path.basename(path)] if text else []
    w, got = neutral(w), neutral(got)
    return ['%s: %s: %s' % (os.path.basename(path), '/'.join(p + (t,)), x) for p, t, x in diffs(w, got)][:2]


def neutral(t):
    """The warning on an empty file names it as it was given on the command line."""
    text = t[1]
    if t[0] == 'warning' and text and text.startswith('empty file '):
        text = 'empty file'
    return (t[0], text, t[2], tuple(neutral(k) for k in t[3]))


# ---------------------------------------------------------------- sequences (C23)

def sequence_case(items, same=False):
    """items: list of report cases analysed one after the other; same: under one path, overwritten each time"""
    return {'type': 'sequence', 'items': items, 'same': same}


def containers():
    """Non-empty tables and settings of the package's modules and classes."""
    import types
    out = {}
    for name, m in sorted(sys.modules.items()):
        if m is None or not (name == 'jpylyzer' or name.startswith('jpylyzer.')):
            continue
        for k, v in sorted(vars(m).items()):
            if k.startswith('__'):
                continue
            put(out, name + '.' + k, v)
            if isinstance(v, type) and v.__module__ == name:
                for a, w in sorted(vars(v).items()):
                    if not a.startswith('__'):
                        put(out, '%s.%s.%s' % (name, k, a), w)
                    f = getattr(w, '__func__', w)
                    if isinstance(f, types.FunctionType):
                        put(out, '%s.%s.%s defaults' % (name, k, a), f.__defaults__)
            elif isinstance(v, types.FunctionType):
                put(out, name + '.' + k + ' defaults', v.__defaults__)
    return out


def put(out, key, v):
    if isinstance(v, (bool, int, float, str, bytes)) or (isinstance(v, (dict, list, set, tuple)) and len(v) > 0):
        try:
            out[key] = repr(v)
        except Exception:
            pass


def judge_sequence(prop, case):
    with scratch() as d:
        paths = []
        for i, c in enumerate(case['items']):
            sub = os.path.join(d, '0' if case.get('same') else str(i))
            os.makedirs(sub, exist_ok=True)
            paths.append(write_case(sub, c))
        pid_results = []
        for order in (range(len(paths)), None):
            # all in one child process; then each in a child of its own
            if order is not None:
                pid_results.append(in_child(lambda: run_sequence([(case['items'][i], paths[i]) for i in order])))
            else:
                alone = []
                for c, p in zip(case['items'], paths):
                    r = in_child(lambda: run_sequence([(c, p)]))
                    alone.append(r[0][0] if r else None)
                pid_results.append(alone)
        first, alone = pid_results
        if first is None:
            return []
        trees, changed = first
        out = []
        for i, (a, b) in enumerate(zip(trees, alone)):
            if b is not None and a != b:
                x = '%s / %s' % (str(a)[:150], str(b)[:150])
                if isinstance(a, tuple) and isinstance(b, tuple):
                    x = '; '.join('%s: %s' % ('/'.join(p + (t,)), m) for p, t, m in diffs(b, a)[:2]) or x
                out.append('file %d of the sequence: report differs from that of the file alone: %s' % (i + 1, x))
        for k, a, b in changed:
            out.append('analysis changes %s from %.150s to %.150s' % (k, a, b))
        return out[:4]


def run_sequence(items):
    before = containers()
    trees = []
    for c, p in items:
        write_case(os.path.dirname(p), c)
        if c.get('mtime') is None:
            os.utime(p, (1e9, 1e9))
        trees.append(real_report(c, p)[0])
    after = containers()
    changed = [(k, before[k], after.get(k, 'nothing')) for k in before if after.get(k) != before[k]]
    return trees, changed


def in_child(f):
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(f())
            with os.fdopen(w, 'wb') as o:
                o.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as i:
        data = i.read()
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return None


def judge(prop, case):
    t = case['type']
    if t == 'analysis':
        return judge_analysis(prop, case)
    if t == 'report':
        return judge_report(prop, case)
    if t == 'values':
        return judge_values(prop, case)
    if t == 'cli':
        return judge_cli(prop, case)
    if t == 'sequence':
        return judge_sequence(prop, case)
    raise ValueError(t)
