"""Primitives of the specification language (concrete meaning).

The specification in jp2.py / report.py is ordinary Python over these
primitives.  The verifier gives each primitive its symbolic meaning
(engine/specprims.py); this module gives the concrete meaning that is used when
a counterexample is replayed against the real code.
"""
import binascii
import unicodedata
import uuid as _uuid
import xml.etree.ElementTree as _ET


class Node:
    """A report element: tag, text, attributes, children."""
    __slots__ = ('tag', 'text', 'attrib', 'kids')

    def __init__(self, tag):
        self.tag = tag
        self.text = None
        self.attrib = {}
        self.kids = []


def leaf(parent, tag, text):
    n = Node(tag)
    n.text = text
    parent.kids.append(n)


def adopt(parent, child):
    parent.kids.append(child)


def is_empty(node):
    return len(node.kids) == 0


def find(node, path):
    """First element reached by a path of child tags, or None (document order)."""
    r = find_all(node, path)
    return r[0] if r else None


def find_all(node, path):
    cur = [node]
    for step in path.split('/'):
        cur = [k for n in cur for k in n.kids if k.tag == step]
    return cur


def text_of(node, path):
    n = find(node, path)
    return None if n is None else n.text


def texts_of(node, path):
    return [n.text for n in find_all(node, path)]


def any_false(node):
    """True if some element at any depth carries the value False."""
    if node.text is False:
        return True
    for k in node.kids:
        if any_false(k):
            return True
    return False


def uint(s, n):
    """Big-endian unsigned value of s if s has exactly n bytes, else -9999."""
    if len(s) != n:
        return -9999
    return int.from_bytes(s, 'big')


def sint8(s):
    if len(s) != 1:
        return -9999
    return s[0] - 256 if s[0] > 127 else s[0]


def anyint(s):
    """Big-endian unsigned value of one or more bytes, else -9999."""
    if len(s) == 0:
        return -9999
    return int.from_bytes(s, 'big')


def hextext(s):
    return binascii.hexlify(s)


def uuidtext(s):
    h = binascii.hexlify(s).decode('ascii')
    return h[0:8] + '-' + h[8:12] + '-' + h[12:16] + '-' + h[16:20] + '-' + h[20:32]


def strip_nulls(s):
    n = len(s)
    while n > 0 and s[n - 1] == 0:
        n -= 1
    return s[0:n]


def clean(t):
    """t without control, format, surrogate, private and unassigned characters."""
    return ''.join(c for c in t if c in '\t\n\r' or unicodedata.category(c)[0] != 'C')


def latin(s):
    return s.decode('iso-8859-15')


def is_utf8(s):
    try:
        s.decode('utf-8')
        return True
    except UnicodeDecodeError:
        return False


def utf8clean(s):
    """UTF-8 text of s without control characters; empty if s is not UTF-8."""
    return clean(s.decode('utf-8')) if is_utf8(s) else ''


def _fromET(e):
    n = Node(e.tag)
    n.text = e.text
    n.attrib = dict(e.attrib)
    n.kids = [_fromET(k) for k in e]
    return n


def xml_ok(s):
    try:
        _ET.fromstring(s)
        return True
    except Exception:
        return False


def xml_tree(s):
    return _fromET(_ET.fromstring(s))


def pad4(s):
    """A box type that was cut short, completed with zero bytes."""
    return s + b'\x00' * (4 - len(s)) if len(s) < 4 else s


def ratio(a, b):
    return a / b


def round2(x):
    return round(x, 2)


def round4(x):
    return round(x, 4)


def ceildiv(a, b):
    """Smallest integer not below a/b."""
    return -((-a) // b)


def power(b, e):
    return b ** e


def shifted(v, n):
    """v times two to the power n."""
    return v << n


def hexfield(n, v):
    """v as upper-case hexadecimal, zero-padded to n digits."""
    return '%0*X' % (n, v)


def position(lst, v):
    """Index of the first occurrence of v, -1 if there is none."""
    for i in range(len(lst)):
        if lst[i] == v:
            return i
    return -1


def distinct(lst):
    return len(set(lst)) == len(lst)
