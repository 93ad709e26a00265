"""The file format code on symbolic bytes: kdbx.py, kdbx3.py, kdbx4.py and common.py of /repo executed together with the installed
construct library itself (its source is instrumented like the package's, no contract of it is assumed), over streams of symbolic bytes."""
import os, types, z3, io as _io, binascii as _binascii, itertools as _it
import construct as _construct
from lxml import etree as real_etree
from . import libs, cryptomods, kpmod, xmlseq, runs
from .core import eng, Unsupported, mk_bool, SymBool, axiom, BoundHit
from .values import *
from .values import _ieq
from .hooks import Shadow

class BytesIO:
    """io.BytesIO / a binary file opened for reading and writing: content and position."""
    vc_stream = True
    def __init__(self, initial=b''):
        self.buf, self.pos, self.closed = SymBytes.of(initial), 0, False
        self.marks = []
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def close(self): self.closed = True
    def readable(self): return True
    def writable(self): return True
    def seekable(self): return True
    def flush(self): pass
    def read(self, n=-1):
        size = self.buf.vc_len()
        rest = size - self.pos
        if n is None or isinstance(n, int) and n < 0: n = rest
        elif isinstance(n, SymInt) and not prov(n >= 0) and bool(n < 0): n = rest
        if not prov(mk_bool(zint(rest) >= 0)) and bool(mk_bool(zint(rest) < 0)): return b''
        if not (_ieq(n, rest) or prov(mk_bool(zint(n) <= zint(rest)))) and not bool(mk_bool(zint(n) <= zint(rest))): n = rest
        r = self.buf[self.pos:self.pos + n]
        self.pos = self.pos + n
        return r
    def read1(self, n=-1): return self.read(n)
    def write(self, data):
        if not isinstance(data, (bytes, bytearray, SymBytes)): raise TypeError('a bytes-like object is required')
        data = SymBytes.of(data)
        n, size = data.vc_len(), self.buf.vc_len()
        if _ieq(self.pos, size): self.buf = self.buf + data
        else:
            if not prov(mk_bool(zint(self.pos) <= zint(size))): raise Unsupported('write beyond the end')
            if _ieq(self.pos + n, size): tail = SymBytes([])
            elif bool(mk_bool(zint(self.pos) + zint(n) < zint(size))): tail = SymBytes.of(self.buf[self.pos + n:])
            else: tail = SymBytes([])
            self.buf = SymBytes.of(self.buf[:self.pos]) + data + tail
        self.pos = self.pos + n
        return n
    def seek(self, off, whence=0):
        if whence == 0:
            if isinstance(off, int) and off < 0: raise ValueError('negative seek value')
            self.pos = off
        elif whence == 1: self.pos = self.pos + off
        else: self.pos = self.buf.vc_len() + off
        return self.pos
    def tell(self): return self.pos
    def getvalue(self): return self.buf.norm()
    def truncate(self, n=None):
        self.buf = SymBytes.of(self.buf[:self.pos if n is None else n])
        return self.pos
    def getbuffer(self): return self.getvalue()

class _NoIO:
    def __init__(self, *a, **k): raise Unsupported('io class')
io_mod = libs.module('io', **{k: getattr(_io, k) for k in dir(_io) if not k.startswith('__')})
io_mod.BytesIO = BytesIO
io_mod.BufferedReader = _NoIO

def hexlify(b, *a):
    if isinstance(b, SymBytes): return b'(symbolic)'
    return _binascii.hexlify(b, *a)
binascii_mod = libs.module('binascii', hexlify=hexlify, Error=_binascii.Error, unhexlify=_binascii.unhexlify, crc32=_binascii.crc32, b2a_hex=hexlify, a2b_hex=_binascii.unhexlify,
                           b2a_base64=_binascii.b2a_base64, a2b_base64=_binascii.a2b_base64)

for _k, _v in vars(kpmod.etree_mod).items():
    if not hasattr(xmlseq.etree_mod, _k): setattr(xmlseq.etree_mod, _k, _v)
lxml_mod = libs.module('lxml', etree=xmlseq.etree_mod, builder=kpmod.builder_mod, objectify=kpmod.objectify_mod)

def vdeepcopy(x, memo=None):
    if hasattr(x, 'vc_deepcopy'): return x.vc_deepcopy()
    return kpmod.vdeepcopy(x, memo)
def vcopy(x):
    if hasattr(x, 'vc_copy'): return x.vc_copy()
    import copy
    return copy.copy(x)
copy_mod = libs.module('copy', deepcopy=vdeepcopy, copy=vcopy)

CONSTRUCT = os.path.dirname(_construct.__file__)
_lib = {}
def shadow(extra=None, builtins=None, bare=('pykeepass', 'pykeepass.kdbx_parsing')):
    mods = dict(cryptomods.MODS)
    mods.update({'io': io_mod, 'binascii': binascii_mod, 'lxml': lxml_mod, 'lxml.etree': xmlseq.etree_mod, 're': xmlseq.re_mod, 'logging': kpmod.logging_mod, 'itertools': runs.itertools_mod, 'copy': copy_mod})
    mods.update(extra or {})
    sh = Shadow(mods, builtins, bare=bare)
    sh.roots['construct'] = CONSTRUCT
    key = tuple(sorted((extra or {}).keys())), tuple(sorted((builtins or {}).keys()))
    # the library's modules keep no state between runs: they are loaded once per process and configuration
    if key not in _lib:
        sh.load('construct')
        _lib[key] = {k: v for k, v in sh.mods.items() if k.split('.')[0] == 'construct'}
    else: sh.mods.update(_lib[key])
    return sh

def stack(extra=None):
    """The whole package (PyKeePass and the format code) over symbolic files and streams."""
    from . import fsmod, dtmod
    mods = {'datetime': dtmod.datetime_mod, 'uuid': dtmod.uuid_mod, 'lxml.builder': kpmod.builder_mod, 'lxml.objectify': kpmod.objectify_mod}
    mods.update(fsmod.MODS)
    mods.update(extra or {})
    sh = shadow(mods, {'open': fsmod.vopen, 'next': kpmod.vnext}, bare=('pykeepass',))
    return sh
