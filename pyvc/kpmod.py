"""A PyKeePass object of the instrumented package over an arbitrary symbolic document."""
import types, z3, logging as _logging
from lxml import etree as real_etree
from . import libs, dom, dtmod, cryptomods
from .core import eng, Unsupported, mk_bool, SymBool, axiom
from .values import *
from .hooks import Shadow
from .dom import World, SNode, SymStr

class NullLogger:
    def _n(self, *a, **k): pass
    debug = info = warning = error = exception = setLevel = _n
    def isEnabledFor(self, *a): return False
logging_mod = libs.module('logging', getLogger=lambda *a: NullLogger(), DEBUG=10, INFO=20, basicConfig=lambda **k: None)

etree_mod = libs.module('etree', Element=dom.Element, SubElement=dom.SubElement, _Element=dom.ElementType, _ElementTree=dom.STree, tostring=None,
                        XPathEvalError=real_etree.XPathEvalError, XPathError=real_etree.XPathError, XMLSyntaxError=real_etree.XMLSyntaxError, LxmlError=real_etree.LxmlError)
builder_mod = libs.module('builder', E=dom.E, ElementMaker=None)
objectify_mod = libs.module('objectify', ObjectifiedElement=type('ObjectifiedElement', (), {}))
lxml_mod = libs.module('lxml', etree=etree_mod, builder=builder_mod, objectify=objectify_mod)

def vdeepcopy(x, memo=None):
    if isinstance(x, SNode): return dom.deepcopy_node(x)
    import copy
    return copy.deepcopy(x)
copy_mod = libs.module('copy', deepcopy=vdeepcopy, copy=vdeepcopy)

class Holder:
    def __init__(self, **k): self.__dict__.update(k)
    def __getitem__(self, k): return self.__dict__[k]
    def get(self, k, d=None): return self.__dict__.get(k, d)

class Container(Holder): pass

KDF_UUIDS = {'argon2': b'\xefcm\xdf\x8c)DK\x91\xf7\xa9\xa4\x03\xe3\n\x0c', 'argon2id': b'\x9e)\x8b\x19V\xdbGs\xb2=\xfc>\xc6\xf0\xa1\xe6', 'aeskdf': b'\xc9\xd9\xf3\x9ab\x8aD`\xbft\r\x08\xc1\x8aO\xea'}

def shadow(extra_mods=None, kdbx=None, builtins=None):
    mods = dict(cryptomods.MODS)
    mods.update({'lxml': lxml_mod, 'lxml.etree': etree_mod, 'lxml.builder': builder_mod, 'lxml.objectify': objectify_mod, 'copy': copy_mod,
                 'datetime': dtmod.datetime_mod, 'uuid': dtmod.uuid_mod, 'logging': logging_mod})
    import construct
    c = libs.module('construct', **{k: getattr(construct, k) for k in dir(construct) if not k.startswith('__')})
    c.Container = Container
    mods['construct'] = c
    mods.update(extra_mods or {})
    b = {'next': vnext}
    b.update(builtins or {})
    sh = Shadow(mods, b, bare=('pykeepass', 'pykeepass.kdbx_parsing'))
    sh.load('pykeepass')
    kp = sh.load('pykeepass.kdbx_parsing')
    kp.KDBX = kdbx
    kp.kdf_uuids = KDF_UUIDS
    return sh

def vnext(it, *d):
    try: return it.__next__() if hasattr(it, '__next__') else next(it)
    except StopIteration:
        if d: return d[0]
        raise

class Env:
    """One path: the document, the instrumented modules and the database object."""
    def __init__(self, version=None, **k):
        e = eng()
        if version is None: version = (4, 3)[e.choose(2, 'KDBX 4 or 3')]
        self.version = version
        self.w = World(version)
        self.sh = shadow(**k)
        self.m = self.sh.load('pykeepass.pykeepass')
        self.me = self.sh.load('pykeepass.entry')
        self.mg = self.sh.load('pykeepass.group')
        self.ma = self.sh.load('pykeepass.attachment')
        kp = self.kp = object.__new__(self.m.PyKeePass)
        self.inner = Holder(binary=[])
        self.payload = Holder(xml=self.w.tree, inner_header=self.inner)
        kp.kdbx = Holder(header=Holder(value=Holder(major_version=version, minor_version=0 if version == 4 else 1)), body=Holder(payload=self.payload))
        kp._password, kp._keyfile, kp.filename = 'pw', None, 'file'
    def Entry(self, n): return self.me.Entry(element=n, kp=self.kp)
    def History(self, n): return self.me.HistoryEntry(element=n, kp=self.kp)
    def Group(self, n): return self.mg.Group(element=n, kp=self.kp)
    def Attachment(self, n): return self.ma.Attachment(element=n, kp=self.kp)

def run(f, *a, **k):
    """(result, None) or (None, exception)."""
    try: return f(*a, **k), None
    except Exception as ex:
        engine_fault(ex)
        return None, ex

_names = None
def mentions(ex):
    """A TypeError or AttributeError about one of the machinery's own classes."""
    global _names
    import re, sys
    if not isinstance(ex, (TypeError, AttributeError)) or not all(type(a) is str for a in ex.args): return
    if _names is None or len(sys.modules) != _names[0]:
        s = {c.__name__ for m in list(sys.modules.values()) if getattr(m, '__name__', '').startswith('pyvc') for c in list(vars(m).values()) if isinstance(c, type) and c.__module__.startswith('pyvc')}
        _names = (len(sys.modules), s)
    for w in re.findall(r"'(?:type )?([A-Za-z_.]+)'|\b([A-Z]\w+|v[a-z]+)\b", str(ex)):
        w = (w[0] or w[1]).split('.')[-1]
        if w in _names[1] and w not in ('Entry', 'Group', 'Attachment', 'Element', 'Match', 'Pattern'): raise Unsupported('%s: %s' % (type(ex).__name__, ex))
ENGINE = ('dom.py', 'dtmod.py', 'seqs.py', 'xpathsym.py', 'heaploops.py', 'loops.py', 'values.py', 'libs.py', 'words.py', 'core.py', 'cryptomods.py')
def engine_fault(ex):
    """An exception of the machinery itself is never taken for one of the code."""
    if isinstance(ex, TypeError): return mentions(ex)
    if not isinstance(ex, (AttributeError, NameError, AssertionError, RecursionError, z3.Z3Exception, NotImplementedError)): return
    mentions(ex)
    tb = ex.__traceback__
    if tb is None: return
    while tb.tb_next is not None: tb = tb.tb_next
    import os
    fn = tb.tb_frame.f_code.co_filename
    if os.path.dirname(fn) == os.path.dirname(__file__) and os.path.basename(fn) in ENGINE or isinstance(ex, (z3.Z3Exception, RecursionError)):
        raise Unsupported('engine: %s: %s' % (type(ex).__name__, ex))

def text_valid(s):
    """Assumption: s is valid XML text."""
    eng().assume(dom.F_xmlok(s.e))
    return s
