"""Running the real code of /repo, and comparing its outcome with a contract's."""
import contextlib
import importlib
import io
import os
import signal
import sys
import time

REPO = os.environ.get('JPV_REPO', '/repo')
sys.dont_write_bytecode = True


def load():
    """Import the current jpylyzer package from REPO."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    argv = sys.argv
    sys.argv = ['jpylyzer']
    try:
        import jpylyzer.jpylyzer as jp
        import jpylyzer.boxvalidator as bv
    finally:
        sys.argv = argv
    return jp, bv


class TooLong(BaseException):
    pass


MEMORY = 5 << 29     # bytes a single run may take in addition


def resident():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * os.sysconf('SC_PAGE_SIZE')


@contextlib.contextmanager
def limit(seconds):
    """Raise TooLong after the given time, or when an endless loop collects more and more."""
    end, most = time.monotonic() + seconds, resident() + MEMORY

    def alarm(*a):
        if time.monotonic() >= end or resident() > most:
            raise TooLong()
    old = signal.signal(signal.SIGALRM, alarm)
    step = min(seconds, 0.5)
    signal.setitimer(signal.ITIMER_REAL, step, step)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Outcome:
    """tests / props / warns as nested tuples, valid, next, psot; or exc."""
    exc = None

    def __init__(self):
        self.tests = self.props = self.warns = None
        self.valid = self.next = self.psot = None


def tree_real(e):
    return (e.tag, e.text, tuple(sorted(e.attrib.items())), tuple(tree_real(k) for k in e))


def tree_spec(n):
    return (n.tag, n.text, tuple(sorted(n.attrib.items())), tuple(tree_spec(k) for k in n.kids))


def run_validator(bv, options, kind, content, csiz=None, start=None, seconds=10):
    o = Outcome()
    err = io.StringIO()
    try:
        with limit(seconds), contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            v = bv.BoxValidator(options, kind, content, startOffset=start, components=csiz).validate()
            o.tests, o.props, o.warns = tree_real(v.tests), tree_real(v.characteristics), tree_real(v.warnings)
            o.valid, o.next, o.psot = v.isValid, v.returnOffset, v.tilePartLength
    except TooLong:
        o.exc = 'no end within %gs' % seconds
    except RecursionError:
        o.exc = 'recursion'
    except BaseException as e:
        o.exc = '%s: %s' % (type(e).__name__, e)
    return o


def run_spec(spec, options, kind, content, csiz=None, start=None, seconds=30):
    o = Outcome()
    cx = spec.Cx(options['validationFormat'], options['verboseFlag'], options['nullxmlFlag'],
                 options['packetmarkersFlag'])
    try:
        with limit(seconds):
            r = spec.sub(cx, kind, content, csiz, start)
            o.tests, o.props, o.warns = tree_spec(r.tests), tree_spec(r.props), tree_spec(r.warns)
            o.valid, o.next, o.psot = r.valid, r.next, r.psot
    except TooLong:
        o.exc = 'spec: no end within %gs' % seconds
    except RecursionError:
        o.exc = 'recursion'
    return o


def same_value(a, b):
    if type(a) is not type(b):
        return False
    return a == b or (a != a and b != b)


def diff_tree(want, got, path=()):
    """First difference between two trees: (path of tags, description) or None."""
    if want[0] != got[0]:
        return path, 'element %s instead of %s' % (got[0], want[0])
    here = path + (want[0],)
    if not same_value(want[1], got[1]):
        return here, 'value %.200r instead of %.200r' % (got[1], want[1])
    if want[2] != got[2]:
        return here, 'attributes %r instead of %r' % (got[2], want[2])
    for a, b in zip(want[3], got[3]):
        if a != b or not same_deep(a, b):
            d = diff_tree(a, b, here)
            if d:
                return d
    if len(want[3]) != len(got[3]):
        n = min(len(want[3]), len(got[3]))
        if len(want[3]) > n:
            return here + (want[3][n][0],), 'missing element %s = %.100r' % want[3][n][:2]
        return here + (got[3][n][0],), 'additional element %s = %.100r' % got[3][n][:2]
    return None


def same_deep(a, b):
    return (a[0] == b[0] and same_value(a[1], b[1]) and a[2] == b[2] and len(a[3]) == len(b[3])
            and all(same_deep(x, y) for x, y in zip(a[3], b[3])))


def compare(want, got):
    """List of (channel, path, description)."""
    if want.exc == 'recursion' or got.exc == 'recursion':
        return []
    if got.exc:
        return [('exception', (), got.exc)]
    out = []
    for ch in ('tests', 'props', 'warns'):
        d = diff_tree(getattr(want, ch), getattr(got, ch))
        if d:
            out.append((ch,) + d)
    for ch in ('valid', 'next', 'psot'):
        if not same_value(getattr(want, ch), getattr(got, ch)):
            out.append((ch, (), '%r instead of %r' % (getattr(got, ch), getattr(want, ch))))
    return out
