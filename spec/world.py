"""The outside world in the contracts of cli.py: names only.  The verifier gives
both these names and the functions that the code calls the same symbolic meaning
(engine/world.py)."""
import sys

MAXSIZE = sys.maxsize
TOOL = VERSION = None


def _outside(*args):
    raise NotImplementedError


def opened(path): _outside()            # noqa: E704  open(path, 'rb')
def mapped(f): _outside()               # noqa: E704  its contents, memory-mapped
def size(path): _outside()              # noqa: E704
def mtime(path): _outside()             # noqa: E704
def basename(path): _outside()          # noqa: E704
def abspath(path): _outside()           # noqa: E704
def isabs(path): _outside()             # noqa: E704
def isfile(path): _outside()            # noqa: E704
def isdir(path): _outside()             # noqa: E704
def join(a, b): _outside()              # noqa: E704
def split(path): _outside()             # noqa: E704
def glob(pattern): _outside()           # noqa: E704
def walk(top): _outside()               # noqa: E704
def analysed(fmt, verbose, nullxml, packets, kind, data): _outside()   # noqa: E704  contract of the validator
def readable(node, table): _outside()   # noqa: E704  contract of makeHumanReadable
def mix_tree(props, version): _outside()   # noqa: E704  contract of generateMix
def selected(recurse, paths): _outside()   # noqa: E704  contract of findFiles
def report(path, fmt, verbose, packets, nullxml, mix): _outside()      # noqa: E704  contract of checkOneFile
def xml(node): _outside()               # noqa: E704  ElementTree.tostring
def pretty_xml(text): _outside()        # noqa: E704  minidom
