"""Helper of the demonstrations: builds small JP2 files, runs the code in the current directory."""
import os, struct, sys, tempfile, io, contextlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from jpylyzer import jpylyzer as J, config, boxvalidator as bv, etpatch as ET
J.config.INPUT_WRAPPER_FLAG = False
OPT = dict(validationFormat='jp2', verboseFlag=False, nullxmlFlag=False, packetmarkersFlag=False)

def validate(kind, data, **kw):
    o = dict(OPT); comps = kw.pop('components', None); start = kw.pop('startOffset', None); o.update(kw)
    with contextlib.redirect_stderr(io.StringIO()):
        return bv.BoxValidator(o, kind, data, startOffset=start, components=comps).validate()

def tests(r):
    return [(e.tag, e.text) for e in r.tests.iter() if len(e) == 0 and e is not r.tests]

def failed(r):
    return [t for t, v in tests(r) if v is False]

def texts(r, tag):
    return [e.text for e in r.characteristics.iter(tag)]

def box(t, c):
    return struct.pack('>I', len(c) + 8) + t + c

def seg(m, c):
    return b'\xff' + bytes([m]) + struct.pack('>H', len(c) + 2) + c

def sizc(w=16, h=16, tw=16, th=16, n=1, rsiz=0, xo=0, yo=0, txo=0, tyo=0, ssiz=7):
    return struct.pack('>HIIIIIIIIH', rsiz, w, h, xo, yo, tw, th, txo, tyo, n) + bytes([ssiz, 1, 1]) * n

def cod(levels=1, tr=1):
    return seg(0x52, bytes([0, 0, 0, 1, 0, levels, 4, 4, 0, tr]))

def qcd(levels=1):
    return seg(0x5c, bytes([0x40]) + bytes([0x48] * (3 * levels + 1)))

def part(i=0, body=b'\x00\x01', tp=0, tn=1, head=b'', psot=None):
    rest = head + b'\xff\x93' + body
    return seg(0x90, struct.pack('>HIBB', i, 12 + len(rest) if psot is None else psot, tp, tn)) + rest

def stream(siz=None, extra=b'', parts=None, eoc=b'\xff\xd9'):
    return b'\xff\x4f' + seg(0x51, siz or sizc()) + cod() + qcd() + extra + (parts if parts is not None else part()) + eoc

SIG = box(b'jP  ', b'\x0d\x0a\x87\x0a')
FTYP = box(b'ftyp', b'jp2 \0\0\0\0jp2 ')
def ihdr(w=16, h=16, n=1, bpc=7, unk=0, ipr=0):
    return box(b'ihdr', struct.pack('>IIHBBBB', h, w, n, bpc, 7, unk, ipr))
COLR = box(b'colr', b'\x01\0\0' + struct.pack('>I', 17))
def jp2(head=None, extra=b'', cs=None, after=b''):
    return SIG + FTYP + box(b'jp2h', head or ihdr() + COLR) + extra + box(b'jp2c', cs or stream()) + after

def onefile(data, fmt='jp2', name='x.jp2', **flags):
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, name)
        with open(p, 'wb') as f:
            f.write(data)
        saved = {k: getattr(config, k) for k in flags}
        for k, v in flags.items():
            setattr(config, k, v)
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                return J.checkOneFile(p, fmt)
        finally:
            for k, v in saved.items():
                setattr(config, k, v)
    finally:
        os.remove(p); os.rmdir(d)

def run(args, cwd=None):
    import subprocess
    env = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1')
    return subprocess.run([sys.executable, '-m', 'jpylyzer'] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
