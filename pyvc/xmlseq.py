"""A document of unknown size seen through one arbitrary element X of it: what the code does to X in every position it can have is
what it does to all elements.  Loops over the elements an expression selects run their body on X, with every key stream that exists
before the loop at the position X's predecessors in document order leave it at (induction over the document order)."""
import z3, re as _re
from . import libs, cryptomods, xpathsym, dom
from .core import eng, Unsupported, mk_bool, SymBool, axiom, PathEnd
from .values import *
from .values import _ieq
from lxml import etree as real_etree

S = z3.StringSort()
POS = z3.Int('keystream_position_of_X')

def text_of(v):
    """The text lxml stores when v is assigned."""
    if v is None or isinstance(v, (str, SymStr)):
        if isinstance(v, SymStr) and not (v.origin and v.origin[0] == 'b64'):
            if not bool(SymBool(dom.F_xmlok(v.e), 'text is valid XML text')): raise ValueError('All strings must be XML compatible')
        return v
    if isinstance(v, (bytes, SymBytes)):
        try: return libs.text_decode(v, 'ascii') if isinstance(v, SymBytes) else v.decode('ascii')
        except UnicodeDecodeError: raise ValueError('All strings must be XML compatible: Unicode or ASCII, no NULL bytes or control characters')
    raise TypeError('Argument must be bytes or unicode, got %r' % type(v).__name__)

class PS(xpathsym.P): star = True

class El:
    """The arbitrary element."""
    vc_node = True
    def __init__(self, doc, text): self.doc, self._t, self.writes = doc, text, []
    @property
    def text(self): return self._t
    @text.setter
    def text(self, v):
        self._t = text_of(v)
        self.writes.append('text')
    @property
    def tag(self): return self.doc.tag
    tail = None
    def get(self, k, d=None): return self.attrib.get(k, d)
    def set(self, k, v): self.writes.append('attribute ' + str(k))
    @property
    def attrib(self): return Attrib(self)
    def getparent(self): return Anc(self.doc, 1)
    def getroottree(self): return self.doc
    def xpath(self, *a, **k): raise Unsupported('search below an arbitrary element')
    find = findall = findtext = iter = remove = append = insert = xpath
    def vc_len(self): raise Unsupported('children of an arbitrary element')
    def clone(self, doc):
        return El(doc, self._t)

class Anc:
    vc_node = True
    def __init__(self, doc, k): self.doc, self.k = doc, k
    @property
    def tag(self): return SymStr(self.doc.anctag(self.k))
    def getparent(self): return Anc(self.doc, self.k + 1)
    def __getattr__(self, n):
        if n.startswith('vc_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('ancestor of an arbitrary element: ' + n)

class Attrib:
    def __init__(self, el): self.el = el
    def get(self, k, d=None):
        p, v = self.el.doc.attr(k)
        return SymStr(v) if bool(SymBool(p, 'attribute %s' % k)) else d
    def __getitem__(self, k):
        p, v = self.el.doc.attr(k)
        if not bool(SymBool(p)): raise KeyError(k)
        return SymStr(v)
    def __setitem__(self, k, v): self.el.set(k, v)
    def pop(self, k, *d): self.el.set(k, None); return self.get(k, *d)
    def vc_contains(self, k): return SymBool(self.el.doc.attr(k)[0])
    def __getattr__(self, n):
        if n.startswith('vc_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('attrib.' + n)

class VTree:
    """A parsed document (an lxml element tree)."""
    vc_tree = vc_node = True
    def __init__(self, base, text):
        self.base, self.x = base, El(self, text)
        self.tag = SymStr(z3.String('tag_of_X'))
    def anctag(self, k): return z3.String('tag_of_ancestor%d_of_X' % k)
    def attr(self, k):
        if not isinstance(k, str): raise Unsupported('attribute name')
        return z3.Bool('X_has_%s' % k), z3.String('X_attribute_%s' % k)
    def protected(self):
        p, v = self.attr('Protected')
        return z3.And(self.tag.e == z3.StringVal('Value'), p, v == z3.StringVal('True'))
    def vc_deepcopy(self):
        t = VTree(self.base, self.x._t)
        return t
    def vc_copy(self):
        t = VTree(self.base, None)
        t.x = self.x
        return t
    def getroot(self): return Root(self)
    def getpath(self, el): return '/path'
    def getelementpath(self, el): return 'path'
    # selections
    def xpath(self, expr, **k):
        if k: raise Unsupported('xpath arguments')
        if not isinstance(expr, str): raise Unsupported('xpath expression')
        return Sel(self, self.match(expr))
    def iter(self, *tags):
        if not tags: return Sel(self, z3.BoolVal(True))
        if not all(isinstance(t, str) for t in tags): raise Unsupported('iter')
        return Sel(self, z3.Or([z3.BoolVal(True) if t == '*' else self.tag.e == z3.StringVal(t) for t in tags]))
    def getiterator(self, *t): return self.iter(*t)
    def findall(self, path, namespaces=None):
        if not path.startswith('.//') and not path.startswith('//'): raise Unsupported('findall path')
        return Sel(self, self.match(path))
    iterfind = findall
    def find(self, *a): raise Unsupported('find')
    findtext = find
    def match(self, expr):
        try: kind, p, *preds = PS(xpathsym.tokens(expr)).top()
        except xpathsym.XPathError as ex: raise real_etree.XPathEvalError('Invalid expression')
        if preds and preds[0]: raise Unsupported('positional selection')
        absolute, steps = p
        return z3.simplify(self._steps(list(steps), absolute, 0))
    def _steps(self, steps, absolute, k):
        """Does the k-th ancestor-or-self of X match the location path?"""
        axis, tag, preds = steps[-1]
        rest = steps[:-1]
        if axis == 'self' and tag is None and not rest and not preds: return z3.Bool('X_ancestor%d_is_root' % k)
        conj = []
        if axis not in ('child', 'desc'): raise Unsupported('location path')
        me = self.tag.e if k == 0 else self.anctag(k)
        if tag not in (None, '*'): conj.append(me == z3.StringVal(tag))
        for q in preds: conj.append(self._pred(q, k))
        if not rest:
            if axis == 'child': conj.append(z3.Bool('X_ancestor%d_is_root' % k))
        elif axis == 'child': conj.append(self._steps(rest, absolute, k + 1))
        elif len(rest) == 1 and rest[0][0] == 'self' and rest[0][1] is None and not rest[0][2]: pass
        else: conj.append(z3.Bool('X_has_ancestor_matching_%s_above%d' % (rest, k)))
        return z3.And(conj) if conj else z3.BoolVal(True)
    def _pred(self, q, k):
        if q[0] in ('and', 'or'): return (z3.And if q[0] == 'and' else z3.Or)(self._pred(q[1], k), self._pred(q[2], k))
        if q[0] == 'call' and q[1] == 'not' and len(q[2]) == 1: return z3.Not(self._pred(q[2][0], k))
        if k: raise Unsupported('predicate on an ancestor')
        def attr(a):
            if a[0] == 'path' and not a[1][0] and len(a[1][1]) == 1 and a[1][1][0][0] == 'attr': return self.attr(a[1][1][0][1])
        def istext(a): return a[0] == 'path' and not a[1][0] and len(a[1][1]) == 1 and a[1][1][0][0] == 'text'
        if attr(q): return attr(q)[0]
        if istext(q):
            t = self.x._t
            return z3.BoolVal(False) if t is None else z3.BoolVal(True) if isinstance(t, str) and t else z3.Length(zs(t)) > 0
        if q[0] in ('=', '!='):
            a, b = q[1], q[2]
            if a[0] == 'lit': a, b = b, a
            if attr(a) and b[0] == 'lit':
                p, v = attr(a)
                return z3.And(p, v == zs(b[1]) if q[0] == '=' else v != zs(b[1]))
        raise Unsupported('predicate')

class Root:
    vc_node = True
    tag = 'KeePassFile'
    def __init__(self, doc): self.doc = doc
    def getroottree(self): return self.doc
    def getparent(self): return None
    def vc_deepcopy(self): return Root(self.doc.vc_deepcopy())
    def __getattr__(self, n):
        if n in ('xpath', 'iter', 'findall', 'iterfind', 'getiterator', 'iterdescendants'): return getattr(self.doc, 'iter' if n == 'iterdescendants' else n)
        if n.startswith('vc_') or n.startswith('__'): raise AttributeError(n)
        raise Unsupported('root element: ' + n)

class Sel:
    """The elements satisfying a condition, in document order."""
    vc_is_list = vc_plain = True
    def __init__(self, doc, cond, order='document', wrap=None): self.doc, self.cond, self.order, self.wrap = doc, cond, order, wrap or (lambda x: x)
    def vc_begin(self, loop): loop.val = {}
    def vc_tolist(self): return self
    def __reversed__(self): return Sel(self.doc, self.cond, 'reverse' if self.order == 'document' else 'document', self.wrap)
    def vc_enumerate(self, start=0): return Sel(self.doc, self.cond, self.order, lambda x: (int_var('position_in_selection', start), self.wrap(x)))
    def vc_sorted(self, **k): raise Unsupported('sorted elements')
    def vc_len(self): raise Unsupported('number of elements')
    def _u(self, *a): raise Unsupported('a list of an unknown number of elements is used as a whole')
    __iter__ = __getitem__ = __eq__ = __add__ = _u
    __hash__ = None
    def __bool__(self):
        if eng().choose(2, 'elements selected'):
            eng().assume_or_end(mk_bool(z3.Not(self.cond)))
            return False
        return True
    def vc_comp(self, f, kind):
        out = []
        for c, v in dom.subexplore(lambda: f(self.wrap(self.doc.x)), [self.cond]):
            if len(v) > 1 or v and v[0] is not self.doc.x: raise Unsupported('comprehension over elements')
            if v: out.append(c)
        return Sel(self.doc, z3.simplify(z3.And(self.cond, z3.Or(out))), self.order)
    def vc_nodeloop(self, loop):
        e, doc, x = eng(), self.doc, self.doc.x
        used = {}
        streams = [s for s in cryptomods.KeyStream.made]
        start = SymInt(POS)
        axiom(POS >= 0)
        if self.order != 'document': start = int_var('position_in_another_order', 0)
        for s in streams:
            used[id(s)] = s.used
            if not s.used: s.pos = start
        sel = bool(SymBool(self.cond, 'X is selected'))
        if sel:
            done = False
            try:
                yield self.wrap(x)
                done = True
            finally:
                if not done and not doc.leaving: e.imprecise = e.imprecise or 'a loop over unknown elements may be left early'
        for s in streams:
            moved = s.used != used[id(s)]
            if used[id(s)]:
                if moved: raise Unsupported('key stream used before the loop')
                continue
            if moved: e.check(mk_bool(zint(s.pos) == POS + doc.consumes()), 'the key stream advances by exactly the bytes of the value, so that the next protected value continues it')
            s.pos = int_var('position_after_the_loop', 0)
        if [s for s in streams if not used[id(s)]] and not sel: e.check(mk_bool(doc.consumes() == 0) if not isinstance(doc.consumes(), int) else doc.consumes() == 0, 'every protected value is reached by the key stream')
        doc.loops.append((self.order, sel))
    leaving = False

VTree.leaving = False
VTree.plain = None          # the plain text of X (set by the task)
def consumes(self):
    """Number of key stream bytes X's value takes."""
    p = self.plain
    if p is None: return z3.IntVal(0)
    n = zint(SymBytes.of(libs.text_encode(p)).vc_len())
    return z3.If(self.protected(), n, 0)
VTree.consumes = consumes
_init = VTree.__init__
def __init__(self, base, text):
    _init(self, base, text)
    self.loops = []
VTree.__init__ = __init__
_copy = VTree.vc_deepcopy
def vc_deepcopy(self):
    t = _copy(self)
    t.plain = self.plain
    return t
VTree.vc_deepcopy = vc_deepcopy

# ---- the lxml module --------------------------------------------------------------------------------------
class XMLParser:
    OK = {'remove_blank_text', 'huge_tree', 'resolve_entities', 'no_network', 'encoding', 'strip_cdata', 'collect_ids'}
    def __init__(self, **k):
        if set(k) - self.OK or k.get('encoding') not in (None, 'utf-8', 'UTF-8'): raise Unsupported('XML parser options')
def parse(src, parser=None, **k):
    libs.assumed('lxml: etree.parse(etree.tostring(tree)) is the same document (elements, attributes and texts, an empty text being none); XMLSyntaxError on ill-formed input')
    data = src.read() if hasattr(src, 'read') else src
    if isinstance(data, bytes) and not data: raise real_etree.XMLSyntaxError('empty', 1, 1, 1, '')
    a = libs.uf_args(data, 'xml_bytes')
    if a:
        base, has, t = a
        if not has: t = None
        elif bool(mk_bool(z3.Length(zs(t)) == 0)): t = None
        r = VTree(base, t)
        r.plain = PLAIN.get(str(base.parts[0].z))
        return r
    if not bool(ufp('xml_wellformed', [data])): raise real_etree.XMLSyntaxError('symbolic', 1, 1, 1, '<string>')
    if NO_TEXT: return VTree(uf('xml_doc', [data]), None)
    t = ufs('xml_text_of_X', [data])
    return VTree(uf('xml_doc', [data]), t)
PLAIN = {}
NO_TEXT = False      # arbitrary documents are seen through an element without text (protected values are the subject of C17)
def tostring(tree, **k):
    if set(k) - {'encoding', 'xml_declaration', 'standalone'} or k.get('encoding') not in (None, 'utf-8', 'UTF-8', 'us-ascii', 'ASCII', 'ascii'): raise Unsupported('tostring options')
    if isinstance(tree, Root): tree = tree.doc
    t = tree.x._t
    r = uf('xml_bytes', [tree.base, t is not None, '' if t is None else t])
    axiom(blen(r.parts[0].z) > 0)
    return r
def fromstring(data, parser=None):
    from .grammar import BytesIO
    return Root(parse(BytesIO(data), parser))
class ElementTree:
    def __new__(cls, root=None, **k):
        if not isinstance(root, Root): raise Unsupported('ElementTree')
        return root.doc
etree_mod = libs.module('etree', parse=parse, tostring=tostring, XMLParser=XMLParser, fromstring=fromstring, XMLSyntaxError=real_etree.XMLSyntaxError, XPathEvalError=real_etree.XPathEvalError,
                        LxmlError=real_etree.LxmlError, _Element=dom.ElementType, _ElementTree=VTree, XML=fromstring, ParseError=real_etree.ParseError, ElementTree=ElementTree)

# ---- re: removal of characters ------------------------------------------------------------------------------
VALID = None
_cache = {}
def harmless(pattern, flags=0):
    """The pattern is built from sets of characters only and matches no text of valid XML characters."""
    global VALID
    k = (pattern, flags)
    if k not in _cache:
        import re._parser as sp
        def ok(items):
            for op, av in items:
                n = str(op)
                if n in ('IN', 'LITERAL', 'NOT_LITERAL'): continue
                if n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT') and av[0] >= 1 and len(av[2]) == 1 and ok(av[2]): continue
                if n == 'SUBPATTERN' and len(av[3]) == 1 and ok(av[3]): continue
                return False
            return True
        t = sp.parse(pattern, flags)
        if len(t) != 1 or not ok(t): _cache[k] = None
        else:
            if VALID is None:
                VALID = '\t\n\r' + ''.join(map(chr, range(0x20, 0xD800))) + ''.join(map(chr, range(0xE000, 0xFFFE))) + ''.join(map(chr, range(0x10000, 0x110000)))
            _cache[k] = _re.search(pattern, VALID, flags) is None
    return _cache[k]
class Pattern:
    def __init__(self, p, flags=0): self.pattern, self.flags = p, flags
    def sub(self, r, s, *a): return re_sub(self.pattern, r, s, *a, flags=self.flags)
    def __getattr__(self, n): return getattr(_re.compile(self.pattern, self.flags), n)
def re_sub(p, repl, s, count=0, flags=0):
    if isinstance(p, Pattern): p, flags = p.pattern, p.flags
    if not isinstance(s, SymStr): return _re.sub(p, repl, s, count, flags)
    h = harmless(p, flags)
    if h is None: raise Unsupported('substitution')
    libs.assumed('re.sub of a set of characters changes exactly the texts that contain one')
    if h and prov(mk_bool(dom.F_xmlok(s.e))): return s
    if not h: return ufs('re_sub_%s' % abs(hash((p, repl))), [s])
    r = ufs('strip_invalid', [s])
    axiom(dom.F_xmlok(r.e))
    return r
re_mod = libs.module('re', **{k: getattr(_re, k) for k in dir(_re) if not k.startswith('_')})
re_mod.sub, re_mod.compile = re_sub, Pattern
