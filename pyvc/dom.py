"""Symbolic XML trees: the assumed contract of lxml, for an arbitrary well-formed KeePass document.

The initial document is arbitrary.  Its content is described by uninterpreted functions over node identities
(text, attributes, children by tag, string fields by key, parent); a node of the document becomes an `SNode` object
when the code reaches it.  The children of an initial node are one opaque segment `Seg` (an unknown sequence, in
unknown order) of which single members can be reached, changed, taken out or replaced; whatever is not reached keeps its
content and order by construction.  Nodes created by the code are concrete objects.

Well-formedness assumed of the initial document (KDBX schema): the child tags listed under `ONCE` occur exactly once, those
under `MAYBE` at most once, no two String fields of an entry have the same key, String and Binary consist of Key and Value."""
import z3, re as _re
from .core import BoundHit, eng, SymBool, mk_bool, Unsupported, PathEnd, axiom, VCAbort
from .values import blen, B, SymStr, SymInt, SymBytes, zs, zi, zint, mk_str, mk_int, prov, int_var, zstr_to_py, ufp
from . import libs

S, I, BL = z3.StringSort(), z3.IntSort(), z3.BoolSort()
Node = z3.DeclareSort('Node')
F_tnone = z3.Function('text_absent', Node, BL)
F_tval = z3.Function('text', Node, S)
F_parent = z3.Function('parent', Node, Node)
F_hist = z3.Function('in_history', Node, BL)
F_shas = z3.Function('has_string', Node, S, BL)
F_sfind = z3.Function('string_of', Node, S, Node)
F_below = z3.Function('below', Node, Node, BL)
F_depth = z3.Function('depth', Node, I)
F_order = z3.Function('document_position', Node, I)
F_xmlok = z3.Function('xml_text_valid', S, BL)
F_retest = z3.Function('regex_matches', S, S, S, BL)
def F_ahas(n): return z3.Function('has_attr_' + n, Node, BL)
def F_aval(n): return z3.Function('attr_' + n, Node, S)
def F_chas(t): return z3.Function('has_child_' + t, Node, BL)
def F_child(t): return z3.Function('child_' + t, Node, Node)

ONCE = {'KeePassFile': ('Meta', 'Root'), 'Root': ('Group',), 'Entry': ('UUID', 'Times', 'AutoType'), 'Group': ('UUID', 'Times'),
        'Times': ('CreationTime', 'LastModificationTime', 'LastAccessTime', 'ExpiryTime', 'Expires', 'UsageCount', 'LocationChanged'),
        'AutoType': ('Enabled', 'DefaultSequence', 'DataTransferObfuscation'), 'Association': ('Window', 'KeystrokeSequence'),
        'Meta': ('DatabaseName', 'DatabaseDescription', 'DefaultUserName', 'MasterKeyChanged', 'MasterKeyChangeRec', 'MasterKeyChangeForce', 'RecycleBinUUID', 'Binaries'),
        'String': ('Key', 'Value'), 'Binary': ('Key', 'Value')}
MANY = {'Entry': ('String', 'Binary'), 'Group': ('Entry', 'Group'), 'History': ('Entry',), 'Binaries': ('Binary',)}
INNER = ('KeePassFile', 'Root', 'Entry', 'Group', 'Times', 'AutoType', 'Association', 'Meta', 'History', 'Binaries')
FIXED = {'String': ('Key', 'Value'), 'Binary': ('Key', 'Value')}
PARENT = {'String': ('Entry',), 'Binary': ('Entry',), 'Entry': ('Group', 'History'), 'Group': ('Group', 'Root'), 'History': ('Entry',)}

LAZY = object()
INIT = object()

def uuid_text(t):
    """Schema: the text of a UUID element is the base64 of 16 bytes."""
    libs.assumed('the text of a UUID element is the base64 text of 16 bytes')
    z = libs.unb64text(t)
    axiom(libs.b64valid(t)); axiom(blen(z) == 16)
    axiom(z3.Function('b64text', B, S)(z) == t)
def xml_ok(s):
    """Is this str accepted by lxml as text?"""
    for c in s:
        o = ord(c)
        if not (o in (9, 10, 13) or 0x20 <= o <= 0xd7ff or 0xe000 <= o <= 0xfffd or 0x10000 <= o <= 0x10ffff): return False
    return True
VALID_ORIGIN = ('b64', 'int', 'hex', 'iso', 'isotext', 'tree', 'ok', 'opaque')
def check_text(v):
    """lxml's check of a text value: raises like lxml does."""
    if isinstance(v, str):
        if not xml_ok(v): raise ValueError('All strings must be XML compatible')
        return
    if isinstance(v, SymStr):
        if v.origin and v.origin[0] in VALID_ORIGIN: return
        libs.assumed('lxml: a text is accepted or refused (ValueError) by a predicate of the text')
        if not bool(SymBool(F_xmlok(v.e), 'text is valid XML text')): raise ValueError('All strings must be XML compatible')
        return
    if isinstance(v, (bytes, SymBytes)): raise Unsupported('bytes as XML text')
    raise TypeError("Argument must be bytes or unicode, got '%s'" % type(v).__name__)

class Seg:
    """The children an initial node had."""
    def __init__(self, owner):
        self.owner = owner
        self.slots = {}        # tag -> SNode
        self.strings = []      # (key value, SNode)
        self.members = []      # other known members (Entry, Group, Binary, String by search)
        self.memo = {}

class SegRef:
    """A segment as it stands in a child list: without the members taken out."""
    def __init__(self, seg, out=(), repl=(), some=(), all=(), copy=None):
        self.seg, self.out, self.repl, self.some, self.all = seg, list(out), list(repl), set(some), set(all)
    def pristine(self): return not self.out and not self.some and not self.all and not self.repl
    def has(self, n): return not any(n is o for o in self.out) and n.tag not in self.all
    def clone(self): return SegRef(self.seg, self.out, self.repl, self.some, self.all)

class SNode:
    """An element."""
    vc_node = True
    def __init__(self, w, tag, z=None, init=False, ghost=False, parent=None):
        self.w, self.tag, self.init, self.ghost = w, tag, init, ghost
        self.z = z if z is not None else z3.Const(eng().fresh('new_' + tag), Node)
        self._t = INIT if init else None
        self._a = {}
        self._p = parent
        self.kids = []
        self.glog = []
        self.home = None            # the Seg this node was a member of initially
        self.seg = None
        self.prefix = None          # nsmap etc. not modelled
        self.nsmap = {}
        if init:
            if tag in FIXED and not (tag == 'Binary' and parent is not None and parent is not LAZY and parent.tag == 'Binaries'):
                for t in FIXED[tag]:
                    k = SNode(w, t, F_child(t)(self.z), True, ghost, self)
                    self.kids.append(k)
                    if not ghost: w.nodes.append(k)
                self.kids0 = list(self.kids)
            elif tag in INNER:
                self.seg = Seg(self)
                self.kids = [SegRef(self.seg)]
            if not ghost: w.nodes.append(self)
        else: w.created.append(self)
    def __repr__(self): return '<%s %s%s>' % (self.tag, self.z, '' if self.init else ' (new)')
    def vc_type(self): return ElementType
    def vc_isinstance(self, t): return True if t is ElementType else None
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __deepcopy__(self, memo): return deepcopy_node(self)
    def __copy__(self): return deepcopy_node(self)
    def __bool__(self):
        n = len(self.items())
        if any(isinstance(i, SegRef) for i in self.kids): raise Unsupported('truth value of an element')
        return n > 0
    def _mut(self):
        if self.ghost:
            r = self
            while r is not None and r is not LAZY:
                if any(r is g for g in self.w.generic): r.glog.append(self); return
                r = r._p
            raise Unsupported('a generic node is modified')
        self.w.touched = True
        self.w.heapver += 1

    # ---- text and attributes
    def tform(self):
        """(absent, value) as formulas."""
        if self._t is INIT: return F_tnone(self.z), F_tval(self.z)
        if self._t is None: return z3.BoolVal(True), z3.StringVal('')
        return z3.BoolVal(False), zs(self._t)
    @property
    def text(self):
        if self._t is INIT:
            if self.tag in INNER: return None          # white space between children is not content
            if bool(mk_bool(F_tnone(self.z))): return None
            axiom(F_xmlok(F_tval(self.z)))
            if self.tag == 'UUID' or self.tag == 'RecycleBinUUID': uuid_text(F_tval(self.z))
            v = mk_str(F_tval(self.z))
            if isinstance(v, SymStr): v.origin = ('tree',)
            return v
        return self._t
    @text.setter
    def text(self, v):
        self._mut()
        if v is None: self._t = None; return
        self._t = None                  # lxml clears the text before it looks at the value
        check_text(v)
        self._t = v
    tail = None
    def aform(self, n):
        if n in self._a:
            v = self._a[n]
            return (z3.BoolVal(False), z3.StringVal('')) if v is None else (z3.BoolVal(True), zs(v))
        if not self.init: return z3.BoolVal(False), z3.StringVal('')
        return F_ahas(n)(self.z), F_aval(n)(self.z)
    @property
    def attrib(self): return SAttrib(self)
    def get(self, k, d=None): return self.attrib.get(k, d)
    def set(self, k, v): self.attrib[k] = v
    def keys(self): raise Unsupported('attribute names')

    # ---- children
    def items(self): return self.kids
    def slot(self, tag):
        """(present formula, node) of the unique initial child with this tag."""
        seg = self.seg
        if tag in seg.slots: n = seg.slots[tag]
        else:
            n = SNode(self.w, tag, F_child(tag)(self.z), True, self.ghost, self)
            n.home = seg
            seg.slots[tag] = n
        once = tag in ONCE.get(self.tag, ())
        if self.tag == 'Meta' and tag == 'Binaries' and self.w.version == 4: return z3.BoolVal(False), n
        return (z3.BoolVal(True) if once else F_chas(tag)(self.z)), n
    def string(self, key):
        """(present formula, node) of the initial String with this key."""
        seg = self.seg
        has = F_shas(self.z, zs(key))
        def hit(n):
            kn = n.kids0[0]
            axiom(z3.Implies(has, z3.And(F_tval(kn.z) == zs(key), z3.Not(F_tnone(kn.z)))))
            return has, n
        for k, n in seg.strings:
            if isinstance(k, str) and isinstance(key, str):
                if k == key: return hit(n)
                continue
            if self.ghost:
                if zs(k).eq(zs(key)): return hit(n)
                continue
            if bool(mk_bool(zs(k) == zs(key))): return hit(n)
        n = SNode(self.w, 'String', F_sfind(self.z, zs(key)), True, self.ghost, self)
        n.home = seg
        seg.strings.append((key, n))
        return hit(n)
    def many(self, tag): return tag in MANY.get(self.tag, ())
    def child(self, tag):
        """The first child with this tag, or None."""
        for it in list(self.kids):
            if isinstance(it, SNode):
                if it.tag == tag: return it
            elif isinstance(it, SegRef):
                for r in it.repl:
                    if r.tag == tag: return r
                if self.many(tag):
                    n = self.w.first(NodeSet(self.w, tag, ('child', self, it), []))
                    if n is not None: return n
                    continue
                if tag in it.all: continue
                pres, n = it.seg.owner.slot(tag) if not isinstance(it.seg, CopySeg) else it.seg.slot(tag)
                if not it.has(n): continue
                if bool(mk_bool(pres)): return n
            else:
                r = it.vc_first(tag)
                if r is not None: return r
        return None
    def find(self, path, namespaces=None):
        if isinstance(path, SymStr): raise Unsupported('find with a symbolic path')
        if path.startswith('./') and not path.startswith('.//'): path = path[2:]
        if not all(_re.fullmatch(r'\w+', p) for p in path.split('/')):
            r = self.xpath(path)
            return self.w.first(r) if isinstance(r, NodeSet) else (r[0] if r else None)
        n = self
        for p in path.split('/'):
            n = n.child(p)
            if n is None: return None
        return n
    def findtext(self, path, default=None, namespaces=None):
        n = self.find(path)
        if n is None: return default
        t = n.text
        return '' if t is None else t
    def findall(self, path, namespaces=None):
        return self.xpath(path)
    iterfind = findall
    def iterchildren(self, tag=None, **k):
        if k: raise Unsupported('iterchildren options')
        if isinstance(tag, str): return self.xpath(tag)
        return self.getchildren()
    def getchildren(self):
        if all(isinstance(i, SNode) for i in self.kids): return list(self.kids)
        return Children(self)
    def __iter__(self):
        c = self.getchildren()
        if isinstance(c, list): return iter(c)
        raise Unsupported('iteration over unknown children')
    def vc_len(self):
        c = self.getchildren()
        if isinstance(c, list): return len(c)
        if any(isinstance(i, SegRef) for i in self.kids): return SetLen(SomeKids(self))
        return c.vc_len()
    def __len__(self):
        c = self.getchildren()
        if isinstance(c, list): return len(c)
        raise Unsupported('number of unknown children')
    def __getitem__(self, i):
        c = self.getchildren()
        return c[i]
    def vc_tolist(self): return self.getchildren()
    def _unknown(self):
        c = self.getchildren()
        if isinstance(c, list): raise AttributeError('known children')
        return c
    @property
    def vc_nodeloop(self): return self._unknown().vc_nodeloop
    @property
    def vc_enumerate(self): return self._unknown().vc_enumerate
    @property
    def vc_comp(self): return self._unknown().vc_comp
    def index(self, n, *a): return self.getchildren().index(n)
    def iter(self, *tags):
        if len(tags) != 1 or not isinstance(tags[0], str): raise Unsupported('iter()')
        return self.xpath('.//' + tags[0])
    iterdescendants = iter
    def iterancestors(self, *tags):
        p = self.getparent()
        while p is not None:
            if not tags or p.tag in tags: yield p
            p = p.getparent()
    def getroottree(self): return self.w.tree
    def getparent(self):
        if self.ghost and self._p is LAZY: return GhostParent(self)
        if self._p is LAZY: self.w.resolve_parent(self)
        return self._p
    def getnext(self): raise Unsupported('sibling access')
    getprevious = itersiblings = getnext
    def _detach(self):
        p = self.getparent()
        if p is None: return
        p._take(self)
    def _take(self, n):
        self._mut()
        for i, it in enumerate(self.kids):
            if it is n:
                del self.kids[i]; n._p = None; return
            if isinstance(it, SegRef):
                if any(n is r for r in it.repl):
                    it.repl = [r for r in it.repl if r is not n]; n._p = None; return
                if n.home is it.seg and it.has(n):
                    it.out.append(n); n._p = None; return
            elif not isinstance(it, SNode):
                r = it.vc_take(n)
                if r is not None:
                    self.kids[i:i + 1] = r; n._p = None; return
        raise Unsupported('the element is not found among its parent\'s children')
    def remove(self, n):
        if not isinstance(n, SNode): raise TypeError("Argument 'element' has incorrect type")
        if n.ghost and n._p is LAZY and not self.ghost:
            if not prov(mk_bool(F_parent(n.z) == self.z)): raise Unsupported('removal of a generic node')
            n._mut(); n.glog.append('removed'); return
        if n.getparent() is not self: raise ValueError('Element is not a child of this node.')
        self._take(n)
    def _cycle(self, n):
        """Would n become its own descendant?"""
        if n is self: return True
        p = self
        while p is not None and p is not n:
            if p._p is LAZY:
                if n.tag != 'Group' or not n.init: return False     # only groups contain groups and entries
                return bool(mk_bool(F_below(self.z, n.z)))
            p = p._p
        return p is n
    def append(self, n):
        if not isinstance(n, SNode): raise TypeError("Argument 'element' has incorrect type")
        if self._cycle(n): raise ValueError('cannot append parent to itself')
        self._mut()
        n._detach()
        self.kids.append(n)
        n._p = self
    def extend(self, ns):
        for n in ns: self.append(n)
    def insert(self, i, n):
        self._mut()
        if all(isinstance(k, SNode) for k in self.kids):
            if not isinstance(i, int): raise Unsupported('symbolic position')
            n._detach(); self.kids.insert(i, n); n._p = self
            return
        if i == 0 and isinstance(i, int):
            n._detach(); self.kids.insert(0, n); n._p = self; return
        if any(hasattr(k, 'vc_run') for k in self.kids):
            n._detach()
            self.kids = insert_at(self.kids, i, n); n._p = self
            return
        raise Unsupported('insertion at a position among unknown children')
    def replace(self, old, new):
        self._mut()
        if old.getparent() is not self: raise ValueError('Element is not a child of this node.')
        new._detach()
        for i, it in enumerate(self.kids):
            if it is old: self.kids[i] = new; break
            if isinstance(it, SegRef) and any(old is r for r in it.repl):
                it.repl = [new if r is old else r for r in it.repl]; break
            if isinstance(it, SegRef) and old.home is it.seg and it.has(old):
                it.out.append(old); it.repl.append(new); break
        else: raise Unsupported('replace')
        old._p = None; new._p = self
    def addnext(self, n): raise Unsupported('addnext')
    addprevious = clear = addnext
    def makeelement(self, tag, attrib=None): return Element(tag, attrib)
    def xpath(self, expr, namespaces=None, **kw):
        from .xpathsym import evaluate
        return evaluate(self.w, self, expr)
    def same_state(self):
        """Formula: nothing of this (initial) node itself has changed; and a text naming a structural change."""
        if not self.init: return z3.BoolVal(True), ''
        fs = []
        if self._t is not INIT:
            none, val = self.tform()
            fs.append(z3.And(none == F_tnone(self.z), z3.Or(none, val == F_tval(self.z))))
        for n in self._a:
            h, v = self.aform(n)
            fs.append(z3.And(h == F_ahas(n)(self.z), z3.Implies(h, v == F_aval(n)(self.z))))
        why = ''
        if self.seg is not None:
            ok = len(self.kids) == 1 and isinstance(self.kids[0], SegRef) and self.kids[0].seg is self.seg and self.kids[0].pristine()
        elif self.tag in FIXED and hasattr(self, 'kids0'): ok = len(self.kids) == len(self.kids0) and all(a is b for a, b in zip(self.kids, self.kids0))
        elif hasattr(self, 'runs0'): ok = runs_equal(self.kids, self.runs0)
        else: ok = not self.kids
        if not ok:
            fs.append(z3.BoolVal(False)); why = '%s: children changed to %r' % (self, self.kids)
        return (z3.And(fs) if fs else z3.BoolVal(True)), why

class GhostParent:
    """The parent of a generic node: only the generic node itself can be taken out of it."""
    def __init__(self, n):
        self.n, self.w = n, n.w
        t = PARENT.get(n.tag, ())
        self.tags = t
    @property
    def tag(self):
        if len(self.tags) == 1: return self.tags[0]
        if self.n.tag == 'Entry': return 'History' if bool(mk_bool(F_hist(self.n.z))) else 'Group'
        raise Unsupported('parent of a generic node')
    def remove(self, x):
        if x is not self.n: raise Unsupported('change of the parent of a generic node')
        x._mut()
        x.glog.append('removed')
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        raise Unsupported('parent of a generic node: ' + a)

class SAttrib:
    def __init__(self, n): self.n = n
    def __getitem__(self, k):
        if not isinstance(k, str): raise Unsupported('attribute name')
        n = self.n
        if k in n._a or not n.init:
            if n._a.get(k) is None: raise KeyError(k)
            return n._a[k]
        if not bool(mk_bool(F_ahas(k)(n.z))): raise KeyError(k)
        v = mk_str(F_aval(k)(n.z))
        if isinstance(v, SymStr): v.origin = ('tree',)
        return v
    def get(self, k, d=None):
        try: return self[k]
        except KeyError: return d
    def vc_contains(self, k): return mk_bool(self.n.aform(k)[0])
    def __contains__(self, k): return bool(self.vc_contains(k))
    def __setitem__(self, k, v):
        self.n._mut()
        if not isinstance(v, (str, SymStr)): raise TypeError('Argument must be bytes or unicode')
        check_text(v)
        self.n._a[k] = v
    def __delitem__(self, k):
        self.n._mut()
        if k not in self: raise KeyError(k)
        self.n._a[k] = None
    def pop(self, k, *d):
        try: v = self[k]
        except KeyError:
            if d: return d[0]
            raise
        del self[k]
        return v
    def setdefault(self, k, d=None):
        try: return self[k]
        except KeyError: self[k] = d; return d
    def update(self, m=(), **k):
        for a, b in list(dict(m).items()) + list(k.items()): self[a] = b
    def __iter__(self): raise Unsupported('attribute names')
    keys = items = values = __iter__

class ElementType: pass

class Children:
    """The children of a node that are not all known: an ordered sequence of runs, segments and nodes."""
    vc_is_list = True
    def __init__(self, n): self.n = n
    def _runs(self):
        if any(isinstance(i, SegRef) for i in self.n.kids): raise Unsupported('positions among unknown children')
        return self.n.kids
    def vc_len(self):
        t = 0
        for it in self._runs(): t = t + (1 if isinstance(it, SNode) else it.vc_len())
        return t
    def __len__(self):
        n = self.vc_len()
        if isinstance(n, int): return n
        raise Unsupported('number of unknown children')
    def index(self, x, *a):
        t = 0
        for it in self.n.kids:
            if it is x: return t
            if isinstance(it, SNode): t = t + 1
            elif isinstance(it, SegRef): raise Unsupported('position among unknown children')
            else:
                i = it.vc_index(x)
                if i is not None: return t + i
                t = t + it.vc_len()
        raise ValueError('not in list')
    def __getitem__(self, i):
        if isinstance(i, slice): raise Unsupported('slice of children')
        if self.n.tag == 'History' and i in (0, -1) and any(isinstance(k, SegRef) for k in self.n.kids):
            if i == -1 and isinstance(self.n.kids[-1], SNode): return self.n.kids[-1]
            return self.n.xpath('Entry')[i]
        t = 0
        n = self.vc_len()
        if bool(mk_bool(zint(i) < 0)): i = n + i
        if not bool(mk_bool(z3.And(zint(i) >= 0, zint(i) < zint(n)))): raise IndexError('list index out of range')
        for it in self._runs():
            ln = 1 if isinstance(it, SNode) else it.vc_len()
            if bool(mk_bool(zint(i) < zint(t + ln))): return it if isinstance(it, SNode) else it.vc_at(i - t)
            t = t + ln
        raise Unsupported('index')
    def vc_enumerate(self, start=0): return EnumChildren(self, start)
    def vc_tolist(self): return self
    def vc_nodeloop(self, loop): return childloop(loop, self.n, lambda i, x: x)
    def vc_comp(self, f, kind): return FilterChildren(self, f, kind)
    def __iter__(self): raise Unsupported('iteration over unknown children')

class FilterChildren:
    """A comprehension over unknown children; only its first element can be asked for."""
    def __init__(self, c, f, kind): self.c, self.f, self.kind = c, f, kind
    def _first(self):
        for it in self.c.n.kids:
            if isinstance(it, SNode):
                r = list(self.f(it))
                if r: return True, r[0]
            elif hasattr(it, 'vc_run'):
                # a run holds elements of one kind: they all pass or none does
                if bool(mk_bool(zint(it.vc_len()) == 0)): continue
                g = it.vc_at(0)
                r = list(self.f(g))
                if r: return True, r[0]
            else: raise Unsupported('search among unknown children')
        return False, None
    def __iter__(self): return self
    def __next__(self):
        ok, r = self._first()
        if not ok: raise StopIteration
        return r
    def __getitem__(self, i):
        if i != 0: raise Unsupported('index')
        ok, r = self._first()
        if not ok: raise IndexError('list index out of range')
        return r
    def __bool__(self): return self._first()[0]
    def vc_len(self): raise Unsupported('number of matching children')

def childloop(loop, n, wrap):
    from .seqs import seqloop
    runs = [it for it in n.kids if not isinstance(it, SNode)]
    if any(isinstance(it, SegRef) for it in runs): raise Unsupported('iteration over unknown children')
    kids = list(n.kids)
    def length(it): return 1 if isinstance(it, SNode) else it.vc_len()
    total = 0
    for it in kids: total = total + length(it)
    def generic(i):
        # an arbitrary position in one of the runs (the known nodes are executed individually)
        e = eng()
        live = [r for r in runs if not prov(mk_bool(zint(r.vc_len()) == 0))]
        if not live: return None
        r = live[e.choose(len(live), 'which run')]
        t = 0
        for it in kids:
            if it is r: break
            t = t + length(it)
        e.assume(z3.And(zint(i) >= zint(t), zint(i) < zint(t + r.vc_len())))
        if not e.feasible(z3.BoolVal(True)): return None
        return r.ghost(r.lo + (i - t))
    def known():
        t = 0
        for it in kids:
            if isinstance(it, SNode): yield t, it
            else:
                for j, x in list(it.table):
                    if bool(mk_bool(z3.And(zint(it.lo) <= zint(j), zint(j) < zint(it.hi)))): yield t + (j - it.lo), x
            t = t + length(it)
    def effect(i, writes):
        pieces, t = [], 0
        for it in kids:
            if not isinstance(it, SNode): pieces.append((it.name, it.lo, it.hi, t))
            t = t + length(it)
        done = []
        for r in runs:
            if not any(r.effects is d for d in done):
                r.effects.append((pieces, i, writes)); done.append(r.effects)
    return seqloop(loop, n.w, total, generic, known, wrap, effect)

def at_position(v, i, pos):
    """The value v written in iteration i, for iteration pos."""
    if isinstance(v, str): return v
    if isinstance(v, SymStr) and v.origin and v.origin[0] == 'int': return libs.int_to_text(mk_int(z3.substitute(zint(v.origin[1]), (i.e, zint(pos)))))
    raise Unsupported('value written by a loop over a sequence')

class EnumChildren:
    def __init__(self, c, start): self.c, self.start = c, start
    def vc_nodeloop(self, loop): return childloop(loop, self.c.n, lambda i, x: (i + self.start, x))
    def __iter__(self): raise Unsupported('iteration over unknown children')

class Run:
    """Consecutive initial children lo..hi (exclusive) of one tag of a node, in order."""
    vc_run = True
    def __init__(self, w, name, tag, lo, hi, owner, table=None, facts=None, effects=None):
        self.facts = facts
        self.effects = [] if effects is None else effects
        self.w, self.name, self.tag, self.lo, self.hi, self.owner = w, name, tag, lo, hi, owner
        self.table = table if table is not None else []       # known (index, node)
        self.f = z3.Function('member_' + name, I, Node)
    def sub(self, lo, hi): return Run(self.w, self.name, self.tag, lo, hi, self.owner, self.table, self.facts, self.effects)
    def vc_len(self): return self.hi - self.lo
    def vc_at(self, i): return self.node(self.lo + i)
    def node(self, k):
        for j, n in self.table:
            if bool(mk_bool(zint(j) == zint(k))): return n
        n = SNode(self.w, self.tag, self.f(zint(k)), True, False, self.owner)
        n.runpos = k
        self.schema(n, k)
        self.table.append((k, n))
        return n
    def ghost(self, k):
        n = SNode(self.w, self.tag, self.f(zint(k)), True, True, self.owner)
        self.schema(n, k)
        for pieces, i, writes in self.effects:
            for name, lo, hi, t in pieces:
                if name == self.name and prov(mk_bool(z3.And(zint(lo) <= zint(k), zint(k) < zint(hi)))):
                    pos = t + (k - lo)
                    for a, v in writes.items(): n._a[a] = at_position(v, i, pos)
                    break
            else: raise Unsupported('state of an arbitrary element after a loop')
        return n
    def schema(self, n, k):
        if self.facts: self.facts(n, k)
    def vc_index(self, x):
        for j, n in self.table:
            if n is x and bool(mk_bool(z3.And(zint(self.lo) <= zint(j), zint(j) < zint(self.hi)))): return j - self.lo
        return None
    def vc_first(self, tag):
        if tag != self.tag or bool(mk_bool(zint(self.vc_len()) == 0)): return None
        return self.vc_at(0)
    def vc_take(self, x):
        i = self.vc_index(x)
        if i is None: return None
        return [self.sub(self.lo, self.lo + i), self.sub(self.lo + i + 1, self.hi)]
    def __repr__(self): return '%s[%s:%s]' % (self.name, zint(self.lo), zint(self.hi))

def insert_at(kids, pos, n):
    """Insert n so that `pos` elements are before it."""
    out = list(kids)
    if bool(mk_bool(zint(pos) < 0)): raise Unsupported('negative position')
    t = 0
    for i, it in enumerate(out):
        if isinstance(it, SegRef):
            if bool(mk_bool(zint(pos) == zint(t))): return out[:i] + [n] + out[i:]
            raise Unsupported('insertion among unknown children')
        ln = 1 if isinstance(it, SNode) else it.vc_len()
        if bool(mk_bool(zint(pos) <= zint(t))): return out[:i] + [n] + out[i:]
        if bool(mk_bool(zint(pos) < zint(t + ln))):
            k = pos - t
            return out[:i] + [it.sub(it.lo, it.lo + k), n, it.sub(it.lo + k, it.hi)] + out[i + 1:]
        t = t + ln
    return out + [n]

def norm_runs(kids):
    """Merge adjacent runs, drop empty ones."""
    out = []
    for it in kids:
        if hasattr(it, 'vc_run'):
            if prov(mk_bool(zint(it.lo) == zint(it.hi))): continue
            if out and hasattr(out[-1], 'vc_run') and out[-1].name == it.name and prov(mk_bool(zint(out[-1].hi) == zint(it.lo))):
                out[-1] = it.sub(out[-1].lo, it.hi); continue
        out.append(it)
    return out
def runs_equal(a, b):
    a, b = norm_runs(a), norm_runs(b)
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if x is y: continue
        if hasattr(x, 'vc_run') and hasattr(y, 'vc_run') and x.name == y.name and prov(mk_bool(zint(x.lo) == zint(y.lo))) and prov(mk_bool(zint(x.hi) == zint(y.hi))): continue
        if isinstance(x, SegRef) and isinstance(y, SegRef) and x.seg is y.seg and x.pristine() and y.pristine(): continue
        return False
    return True

# ---- sets of nodes ---------------------------------------------------------------------------------------
CLIMB = 6
class NodeSet:
    """The nodes of one tag in a domain that satisfy some predicates, in document order (a node list of lxml)."""
    vc_is_list = True
    def __init__(self, w, tag, domain, preds, chain=None):
        self.w, self.tag, self.domain, self.preds = w, tag, domain, preds
        self.chain = chain           # for paths through several levels: NodeSet (or node) of the parents
        self.version = w.version_of_heap()
    def dform(self, n):
        """n is in the domain (current tree)."""
        d = self.domain
        if d[0] == 'all': return z3.BoolVal(n.ghost or self.w.in_tree(n))
        if d[0] == 'child':
            N = d[1]
            if n._p is LAZY or n.ghost:
                if len(d) == 2 and self.disturbed(): raise Unsupported('membership in a child list after changes')
                return F_parent(n.z) == N.z
            ok = n._p is N
            if ok and len(d) > 2 and d[2] is not None: ok = n.home is d[2].seg and d[2].has(n)
            return z3.BoolVal(ok)
        if d[0] == 'desc':
            N = d[1]
            return F_below(n.z, N.z) if n.ghost else self.w.below(n, N)
        if d[0] == 'chain':
            # the parent is in the set self.chain
            p = self.w.parent_ghost(n, d[1].tag)
            if p is None or p.tag != d[1].tag: return z3.BoolVal(False)
            up = p.z == d[1].z if isinstance(d[1], SNode) else d[1].holds(p)
            if n.tag == 'Entry' and p.tag == 'Group': up = z3.And(z3.Not(F_hist(n.z)), up) if n.ghost or n._p is LAZY else up
            return up
        if d[0] == 'names': return d[1].seq.at(n.z)
        raise Unsupported('domain')
    def holds(self, n):
        from .xpathsym import pred_formula
        return z3.And([self.dform(n)] + [pred_formula(self.w, n, p) for p in self.preds])
    def generic(self):
        """A generic (ghost) element of the initial document with the tag of the set."""
        return SNode(self.w, self.tag, z3.Const(eng().fresh('any_' + self.tag), Node), True, True, LAZY)
    def specials(self):
        """Known nodes that need individual treatment: created ones and changed ones."""
        out = [n for n in self.w.created if n.tag == self.tag and self.w.in_tree(n)]
        for n in self.w.nodes:
            if n.tag == self.tag and not n.ghost and self.w.dirty(n): out.append(n)
        return out
    def disturbed(self):
        """Have children of this kind been added or removed?"""
        d = self.domain
        if d[0] != 'child' or not isinstance(d[1], SNode): return False
        return any(it.tag == self.tag for it in d[1].kids if isinstance(it, SNode)) and d[1].seg is not None or \
            any(self.tag in it.some or self.tag in it.all or any(o.tag == self.tag for o in it.out + it.repl) for it in d[1].kids if isinstance(it, SegRef))
    def fresh(self):
        if self.version != self.w.heapver: raise Unsupported('a list of nodes is used after the document was changed')
    def first(self): self.fresh(); return self.w.first(self)
    def __bool__(self): return self.first() is not None
    def vc_len(self): return SetLen(self) if not self._seq() else Children(self.domain[1]).vc_len()
    def __len__(self): raise Unsupported('number of found nodes')
    def __getitem__(self, i):
        if self._seq(): return Children(self.domain[1])[i]
        if isinstance(i, int) and i == 0:
            n = self.first()
            if n is None: raise IndexError('list index out of range')
            return n
        if isinstance(i, int) and i == -1:
            self.fresh()
            n = self.w.last(self)
            if n is None: raise IndexError('list index out of range')
            return n
        raise Unsupported('index into found nodes')
    def __iter__(self): raise Unsupported('iteration over unknown nodes')
    def vc_tolist(self): return self
    def vc_comp(self, f, kind): return comp(self, f, kind)
    def vc_same_template(self, g): return g
    def template(self, n): return [(z3.BoolVal(True), n)]
    def vc_nodeloop(self, loop):
        if self.domain[0] == 'child' and not self.preds and all(isinstance(k, SNode) and k.tag == self.tag or hasattr(k, 'vc_run') and k.tag == self.tag for k in self.domain[1].kids):
            return childloop(loop, self.domain[1], lambda i, x: x)
        return nodeloop(loop, self, lambda n: [(z3.BoolVal(True), n)])
    def _seq(self):
        d = self.domain
        return d[0] == 'child' and not self.preds and len(d) == 2 and all(isinstance(k, SNode) and k.tag == self.tag or hasattr(k, 'vc_run') and k.tag == self.tag for k in d[1].kids)
    def __eq__(self, o): raise Unsupported('comparison of node lists')
    __hash__ = None

def nodeloop(loop, src, inst):
    """The loop rule for `for x in <set of nodes>`: the body is executed on a generic member, to find what it collects and to
    check that it changes nothing but that member; then on every designated witness that belongs to the set."""
    w = src.w
    e = eng()
    src.fresh()
    g = src.generic()
    heap0 = w.snapshot()
    known0 = set(map(id, w.nodes))
    pos0 = e.pos
    e.solver.push()
    ax0 = dict(e._axseen)
    npc = len(e.pc)
    e.solver.add(src.holds(g))
    inst_g = inst(g)
    if len(inst_g) != 1: raise Unsupported('loop over a filtered list')
    if not z3.is_true(inst_g[0][0]): e.solver.add(inst_g[0][0])
    w.generic.append(g)
    done = False
    try:
        yield inst_g[0][1]
        done = True
    finally:
        w.generic.pop()
        if not done: e.imprecise = e.imprecise or 'a loop over unknown nodes is left early'
    branched = any(isinstance(m, int) for k, m, _ in e.trail[pos0:e.pos])
    e.solver.pop()
    del e.pc[npc:]
    e._axseen = ax0
    if branched: raise Unsupported('the body of a loop over unknown nodes branches on them: %s' % [w for k, m, w in e.trail[pos0:e.pos] if isinstance(m, int)])
    changed = w.changed_since(heap0)
    if changed: raise Unsupported('the body of a loop over unknown nodes changes %s' % (changed[:3],))
    mutates = bool(g.glog)
    for c in loop.collected():
        if c.new:
            if mutates: raise Unsupported('a loop both collects and changes nodes')
            c.map = MapList(src, g, [(z3.BoolVal(True), v) for v in c.new[:1]])
            if len(c.new) > 1: raise Unsupported('several values are collected per node')
            c.new = []
    if mutates and g.glog[-1] == 'removed' and src.domain[0] == 'child' and len(src.domain) == 2 and not src.preds and isinstance(src.domain[1], SNode) and not src.domain[1].ghost:
        N = src.domain[1]
        if any(isinstance(k, SNode) and k.tag == src.tag or hasattr(k, 'vc_run') for k in N.kids): raise Unsupported('removal of all children of a kind')
        w.touched = True; w.heapver += 1
        for it in N.kids:
            if isinstance(it, SegRef):
                if any(r.tag == src.tag for r in it.repl): raise Unsupported('removal of all children of a kind')
                it.some.discard(src.tag); it.all.add(src.tag)
                it.out = [o for o in it.out if o.tag != src.tag]
                for x in it.seg.members:
                    if x.tag == src.tag and x._p is N and x.home is it.seg: x._p = None
        e.decided(True, 'loop over the children of a node: an arbitrary iteration removes its element and changes nothing else', backend='symbolic execution')
    elif mutates:
        w.blurred.add(src.tag)
        for n in list(w.witnesses):
            if n.tag != src.tag: continue
            if not bool(mk_bool(src.holds(n))): continue
            for c, v in inst(n):
                if not bool(mk_bool(c)): continue
                yield v
    elif not any(c.map is not None for c in loop.collected()): pass

class SetLen:
    """len() of a set of nodes: whether it is zero is known; beyond that it is an arbitrary number (one per document state)."""
    def __init__(self, s): self.s = s
    def _count(self):
        e = eng()
        w = cur()
        m = w.__dict__.setdefault('counts', [])
        for s, ver, c in m:
            if ver == w.heapver and (s is self.s or same_set(s, self.s)): return c
        if m: e.imprecise = e.imprecise or 'several numbers of nodes are compared'
        c = int_var('number_of_nodes', 0)
        axiom((c.e > 0) == z3.BoolVal(bool(self.s)))
        m.append((self.s, w.heapver, c))
        return c
    def _cmp(self, k, f):
        if isinstance(k, int): return bool(mk_bool(f(self._count().e, z3.IntVal(k))))
        if isinstance(k, SymInt): return bool(mk_bool(f(self._count().e, zint(k))))
        raise Unsupported('number of found nodes')
    def __bool__(self): return bool(self.s)
    def __gt__(self, k): return bool(self.s) if isinstance(k, int) and k == 0 else self._cmp(k, lambda c, k: c > k)
    def __ge__(self, k): return bool(self.s) if isinstance(k, int) and k == 1 else self._cmp(k, lambda c, k: c >= k)
    def __eq__(self, k):
        if isinstance(k, int) and k == 0: return not bool(self.s)
        return self._cmp(k, lambda c, k: c == k)
    def __ne__(self, k): return not self.__eq__(k)
    def __lt__(self, k): return not self.__ge__(k)
    def __le__(self, k): return not self.__gt__(k)
    __hash__ = None
def same_set(a, b):
    if isinstance(a, SomeKids) and isinstance(b, SomeKids): return a.n is b.n
    if isinstance(a, MapList) and isinstance(b, MapList): return a.plain() and b.plain() and same_set(a.src, b.src)
    if isinstance(a, NodeSet) and isinstance(b, NodeSet): return a.tag == b.tag and not a.preds and not b.preds and len(a.domain) == len(b.domain) and all(x is y for x, y in zip(a.domain, b.domain))
    return False

class SomeKids:
    """Has the element children?"""
    def __init__(self, n): self.n = n
    def __bool__(self):
        n = self.n
        if any(not isinstance(i, SegRef) or i.repl for i in n.kids): return True
        for it in n.kids:
            o = it.seg
            while isinstance(o, CopySeg): o = o.orig
            o = o.owner
            if ONCE.get(o.tag): return True
            if it.some or it.all or it.out: raise Unsupported('number of remaining children')
            if any(it.has(m) for m in it.seg.members): return True
            if bool(SymBool(z3.Function('has_children', Node, BL)(o.z), 'the %s has children' % o.tag)): return True
        return False

class MapList:
    """[value(n) for n in nodes if cond(n)], given by its cases on a generic node g."""
    vc_is_list = True
    def __init__(self, src, g, cases): self.src, self.g, self.cases = src, g, cases
    def at(self, n):
        """[(condition, value)] for the node n."""
        return [(z3.substitute(c, (self.g.z, n.z)) if n is not self.g else c, subst(v, self.g, n)) for c, v in self.cases]
    def plain(self): return len(self.cases) == 1 and z3.is_true(self.cases[0][0])
    def first(self):
        if not self.plain(): raise Unsupported('first of a filtered list')
        n = self.src.first()
        if n is None: return None, False
        return self.at(n)[0][1], True
    def __bool__(self): return self.first()[1]
    def vc_len(self): return SetLen(self)
    def __len__(self): raise Unsupported('number of found nodes')
    def __getitem__(self, i):
        if isinstance(i, int) and i == 0:
            v, ok = self.first()
            if not ok: raise IndexError('list index out of range')
            return v
        if isinstance(i, int) and i == -1 and self.plain() and isinstance(self.src, NodeSet):
            self.src.fresh()
            n = self.src.w.last(self.src)
            if n is None: raise IndexError('list index out of range')
            return self.at(n)[0][1]
        raise Unsupported('index into a list of unknown length')
    def __add__(self, o):
        if isinstance(o, MapList): return MapLists([self, o])
        raise Unsupported('lists of unknown length are joined')
    def __iter__(self): raise Unsupported('iteration over unknown nodes')
    def __next__(self):
        if getattr(self, 'used', False): raise Unsupported('second element of a generator')
        self.used = True
        v, ok = self.first()
        if not ok: raise StopIteration
        return v
    def vc_tolist(self): return self
    def vc_nodeloop(self, loop):
        s = self.src
        return nodeloop(loop, s, self.at)
    def vc_comp(self, f, kind):
        out = []
        for c, v in self.cases:
            for c2, v2 in subexplore(lambda: f(v), [c]):
                if len(v2) > 1: raise Unsupported('comprehension')
                if v2: out.append((z3.simplify(z3.And(c, c2)), v2[0]))
        return MapList(self.src, self.g, out)
    def vc_dictcomp(self, f):
        s = self.src
        if not (s.tag == 'String' and s.domain[0] == 'child' and len(s.domain) == 2 and not s.preds and all(isinstance(k, SegRef) and k.pristine() for k in s.domain[1].kids)): raise Unsupported('dict over unknown nodes')
        m = self.vc_comp(f, 'list')
        return MapDict(s.domain[1], m.g, m.cases)
    def vc_contains(self, x):
        """Exists a node whose value equals x."""
        s = self.src
        while isinstance(s, MapList): s = s.src
        if not (s.tag == 'String' and s.domain[0] == 'child'): raise Unsupported('membership in a list of unknown length')
        if not isinstance(x, (str, SymStr)): raise Unsupported('membership')
        owner = s.domain[1]
        fs = []
        for it in owner.kids:
            if isinstance(it, SegRef):
                pres, n = owner.string(x)
                cand = [(z3.And(pres, z3.BoolVal(it.has(n))), n)] + [(z3.BoolVal(True), r) for r in it.repl if r.tag == 'String']
            elif it.tag == 'String': cand = [(z3.BoolVal(True), it)]
            else: continue
            for pres, n in cand:
                for c, v in self.at_node(n):
                    # the value of the list at n must be its key text for the keyed lookup to be complete
                    if isinstance(v, KeyText): fs.append(z3.And(pres, c, v.form == zs(x)))
                    else: raise Unsupported('membership in a list of values other than keys')
        return mk_bool(z3.Or(fs)) if fs else False
    def at_node(self, n):
        out = []
        kz = self.g.kids[0].z
        for c, v in self.cases:
            if v is None: continue
            if not (isinstance(v, SymStr) and v.e.eq(F_tval(kz))): raise Unsupported('list values')
            kn = [k for k in n.kids if k.tag == 'Key'][0]
            none, val = kn.tform()
            c2 = z3.substitute(c, (F_tval(kz), val), (F_tnone(kz), none))
            out.append((c2, KeyText(val)))
        return out
    __hash__ = None
    def __eq__(self, o): raise Unsupported('comparison of lists of unknown length')

class MapLists:
    """Several lists of unknown length one after the other; one loop over it is a loop over each of them."""
    vc_is_list = True
    def __init__(self, ls): self.ls = ls
    def __add__(self, o):
        if isinstance(o, (MapList, MapLists)): return MapLists(self.ls + (o.ls if isinstance(o, MapLists) else [o]))
        raise Unsupported('lists of unknown length are joined')
    def vc_tolist(self): return self
    def vc_nodeloop(self, loop):
        for l in self.ls:
            # the lists were made before the loop; what its earlier part changes does not concern the members of this one
            if isinstance(l.src, NodeSet) and l.src.version != l.src.w.heapver:
                s = l.src
                if not (s.domain[0] == 'child' and len(s.domain) == 2 and not s.preds and all(isinstance(k, SegRef) and s.tag not in k.some and s.tag not in k.all and not k.repl and not [o for o in k.out if o.tag == s.tag] for k in s.domain[1].kids)): s.fresh()
                else: s.version = s.w.heapver
            yield from l.vc_nodeloop(loop)
    def _u(self, *a, **k): raise Unsupported('a list of unknown length is inspected')
    __iter__ = __len__ = __bool__ = __getitem__ = vc_contains = __eq__ = __ne__ = _u
    __hash__ = None

class MapDict:
    """{key: value for the Strings of an element}, keyed by the key texts (of which no two are equal), given by its cases on a generic String g."""
    def __init__(self, owner, g, cases): self.owner, self.g, self.cases = owner, g, cases
    def at(self, key):
        """[(condition, value)] under this key."""
        kz = self.g.kids[0].z
        f = lambda t: z3.substitute(t, (F_tval(kz), zs(key)), (F_tnone(kz), z3.BoolVal(False)))
        out = []
        for c, (k, v) in self.cases:
            if k is None and prov(mk_bool(z3.Implies(c, F_tnone(kz)))): continue      # a String without a key text
            if not (isinstance(k, SymStr) and k.e.eq(F_tval(kz))): raise Unsupported('dict with other keys than the key texts')
            if v is not None and not isinstance(v, (str, SymStr)): raise Unsupported('dict values')
            out.append((z3.And(F_shas(self.owner.z, zs(key)), f(c)), v if v is None or isinstance(v, str) else mk_str(f(v.e))))
        return out
    def __iter__(self): raise Unsupported('iteration over a dict of unknown size')
    def _u(self, *a, **k): raise Unsupported('a dict of unknown size is inspected')
    __len__ = __bool__ = __contains__ = __getitem__ = __setitem__ = get = items = keys = values = update = pop = setdefault = __eq__ = __ne__ = _u
    __hash__ = None

class KeyText:
    def __init__(self, form): self.form = form

def subst(v, g, n):
    """The value v computed for the generic node g, for the node n."""
    if v is g: return n
    if isinstance(v, SNode): raise Unsupported('list of derived nodes')
    if hasattr(v, '__dict__') and type(v).__module__.startswith('pykeepass'):
        r = object.__new__(type(v))
        for k, x in v.__dict__.items(): r.__dict__[k] = subst(x, g, n) if isinstance(x, SNode) else x
        return r
    if isinstance(v, tuple): return tuple(subst(x, g, n) for x in v)
    return v

def comp(src, f, kind):
    """A comprehension over a node set: all paths of its body on a generic node."""
    src.fresh()
    shaky = src.tag in src.w.blurred or src.w.dirty_any(src.tag)
    g = src.generic()
    cases = []
    if shaky and src.domain[0] == 'child' and not src.preds and len(src.domain) == 2 and src.tag not in src.w.blurred:
        # only whether it is empty and its first element can be asked for afterwards
        r = subexplore(lambda: list(f(g)), [])
        if len(r) == 1 and len(r[0][1]) == 1 and z3.is_true(r[0][0]): return MapList(src, g, [(z3.BoolVal(True), r[0][1][0])])
    if shaky:
        # the nodes themselves (or objects around them), whatever their contents
        r = subexplore(lambda: list(f(g)), [src.holds(g)])
        if len(r) == 1 and len(r[0][1]) == 1 and z3.is_true(r[0][0]) and (r[0][1][0] is g or type(r[0][1][0]).__module__.startswith('pykeepass')): return MapList(src, g, [(z3.BoolVal(True), r[0][1][0])])
    if shaky: raise Unsupported('comprehension over nodes after changes to nodes of that kind')
    for c, r in subexplore(lambda: list(f(g)), [src.holds(g)]):
        if len(r) > 1: raise Unsupported('comprehension')
        if r: cases.append((c, r[0]))
    return MapList(src, g, cases)

def subexplore(f, assume):
    """All paths of a side-effect free computation on generic data: [(path condition, result)]."""
    e = eng()
    saved = (e.trail, e.pos, e.pc, dict(e._axseen), dict(e.names))
    out = []
    trail = []
    for _ in range(200):
        e.trail, e.pos, e.pc = trail, 0, []
        e.names = dict(saved[4])
        e._axseen = dict(saved[3])
        e.solver.push()
        touched = e.world_touch = False
        try:
            for a in assume: e.solver.add(a)
            r = f()
            out.append((z3.simplify(z3.And(e.pc)) if e.pc else z3.BoolVal(True), r))
        except PathEnd: pass
        finally:
            e.solver.pop()
        t = e.trail[:e.pos]
        while t:
            k, m, w = t[-1]
            if isinstance(m, int) and k + 1 < m:
                t[-1] = (k + 1, m, w); break
            t.pop()
        if not t: break
        trail = t
    else: raise Unsupported('too many paths in a comprehension')
    names = dict(e.names)
    e.trail, e.pos, e.pc, e._axseen = saved[0], saved[1], saved[2], saved[3]
    e.names = {k: max(names.get(k, 0), saved[4].get(k, 0)) for k in set(names) | set(saved[4])}
    return out

# ---- copies --------------------------------------------------------------------------------------------
class CopySeg:
    """The copy of an opaque segment."""
    def __init__(self, w, orig, owner, ref):
        self.w, self.orig, self.owner = w, orig, owner
        self.slots, self.strings, self.members = {}, [], []
        self.eager = {}
        o = orig.owner
        for tag, n in orig.slots.items():
            c = deepcopy_node(n); c.home = self; c._p = owner
            c.copy_of = n
            self.slots[tag] = c
        for k, n in orig.strings:
            c = deepcopy_node(n); c.home = self; c._p = owner; c.copy_of = n
            self.strings.append((k, c))
        if orig.members: raise Unsupported('copy of a node with individually known children')
        self.out0 = list(ref.out)
    def slot(self, tag):
        if tag not in self.slots:
            pres, n = self.orig.owner.slot(tag) if isinstance(self.orig, Seg) else self.orig.slot(tag)
            c = deepcopy_node(n, pristine=True); c.home = self; c._p = self.owner; c.copy_of = n
            self.slots[tag] = c
            return pres, c
        pres, _ = self.orig.owner.slot(tag) if isinstance(self.orig, Seg) else self.orig.slot(tag)
        return pres, self.slots[tag]

def deepcopy_node(n, pristine=False):
    """copy.deepcopy of an element: same tag, text, attributes and children; no parent."""
    libs.assumed('copy.deepcopy of an element: an equal element sharing nothing with the original, without parent')
    w = n.w
    c = SNode(w, n.tag)
    c.copy_of = n
    if n._t is INIT or (pristine and n.init):
        c._tc = n
        c._t = CopyText(n)
    else: c._t = n._t
    if pristine: c._a = CopyAttr(n, {})
    else: c._a = CopyAttr(n, dict(n._a))
    for it in ([SegRef(n.seg)] if pristine and n.seg is not None else getattr(n, 'kids0', []) if pristine else n.kids):
        if isinstance(it, SNode):
            k = deepcopy_node(it, pristine); c.kids.append(k); k._p = c
        elif isinstance(it, SegRef):
            cs = CopySeg(w, it.seg, c, it)
            r = SegRef(cs)
            for o in it.out:
                for x in list(cs.slots.values()) + [s for _, s in cs.strings]:
                    if x.copy_of is o: r.out.append(x)
            r.repl = []
            for x in it.repl:
                k = deepcopy_node(x); k._p = c; r.repl.append(k)
            r.some, r.all = set(it.some), set(it.all)
            c.kids.append(r)
        else: raise Unsupported('copy of a node with runs')
    return c

class CopyText:
    """The (immutable) initial text of a node, in a copy."""
    def __init__(self, n): self.n = n

class CopyAttr(dict):
    def __init__(self, n, d): dict.__init__(self, d); self.n = n

_tform0, _aform0, _text0 = SNode.tform, SNode.aform, SNode.text
def _tform(self):
    if isinstance(self._t, CopyText): return F_tnone(self._t.n.z), F_tval(self._t.n.z)
    return _tform0(self)
SNode.tform = _tform
def _gettext(self):
    if isinstance(self._t, CopyText):
        n = self._t.n
        if bool(mk_bool(F_tnone(n.z))): return None
        v = SymStr(F_tval(n.z), origin=('tree',))
        return v
    return _text0.fget(self)
SNode.text = property(_gettext, _text0.fset)
def _aform(self, k):
    if isinstance(self._a, CopyAttr) and k not in self._a:
        n = self._a.n
        return n.aform(k) if not n.init else (F_ahas(k)(n.z), F_aval(k)(n.z))
    return _aform0(self, k)
SNode.aform = _aform
def _attr_get(self, k):
    n = self.n
    if isinstance(n._a, CopyAttr) and k not in n._a:
        h, v = n.aform(k)
        if not bool(mk_bool(h)): raise KeyError(k)
        v = mk_str(v)
        if isinstance(v, SymStr): v.origin = ('tree',)
        return v
    return _attr0(self, k)
_attr0 = SAttrib.__getitem__
SAttrib.__getitem__ = _attr_get

def same_copy(c, n, skip=()):
    """c is a copy of n as n is now, without the children of n whose tag is in skip: (formula, reason)."""
    fs = []
    if c is n: return z3.BoolVal(False), 'the same element, not a copy'
    if c.tag != n.tag: return z3.BoolVal(False), 'tag'
    (a, b), (a2, b2) = c.tform(), n.tform()
    fs.append(z3.And(a == a2, z3.Or(a, b == b2)))
    names = set(c._a) | set(n._a) | {'Protected', 'Ref'}
    for k in names:
        (h, v), (h2, v2) = c.aform(k), n.aform(k)
        fs.append(z3.And(h == h2, z3.Implies(h, v == v2)))
    ck = [k for k in c.kids if not (isinstance(k, SNode) and k.tag in skip)]
    nk = [k for k in n.kids if not (isinstance(k, SNode) and k.tag in skip)]
    if len(ck) != len(nk): return z3.BoolVal(False), '%s: %d children instead of %d' % (n.tag, len(ck), len(nk))
    for x, y in zip(ck, nk):
        if isinstance(x, SNode) and isinstance(y, SNode):
            f, why = same_copy(x, y)
            if why: return f, why
            fs.append(f)
        elif isinstance(x, SegRef) and isinstance(y, SegRef):
            if not (isinstance(x.seg, CopySeg) and x.seg.orig is y.seg): return z3.BoolVal(False), 'children of another element'
            ox = {id(o.copy_of) for o in x.out if o.tag not in skip}
            oy = {id(o) for o in y.out if o.tag not in skip}
            if ox != oy or x.some != y.some or (x.all - set(skip)) != (y.all - set(skip)): return z3.BoolVal(False), 'other children are missing'
            rx, ry = [r for r in x.repl if r.tag not in skip], [r for r in y.repl if r.tag not in skip]
            if len(rx) != len(ry): return z3.BoolVal(False), 'replaced children'
            for p, q in zip(rx, ry):
                f, why = same_copy(p, q)
                if why: return f, why
                fs.append(f)
            for t in skip:
                pres, cn = x.seg.slot(t)
                if x.has(cn): fs.append(z3.Not(pres))
            for cc in list(x.seg.slots.values()) + [s for _, s in x.seg.strings]:
                if cc.tag in skip or not x.has(cc): continue
                f, why = same_copy(cc, cc.copy_of)
                if why: return f, why
                fs.append(f)
        else: return z3.BoolVal(False), 'children differ in kind'
    return z3.And(fs), ''

# ---- building -------------------------------------------------------------------------------------------------
def Element(tag, attrib=None, nsmap=None, **extra):
    n = SNode(cur(), tag)
    for k, v in list((attrib or {}).items()) + list(extra.items()): n.attrib[k] = v
    return n
def SubElement(parent, tag, attrib=None, nsmap=None, **extra):
    n = Element(tag, attrib, **extra)
    parent.append(n)
    return n
class EMaker:
    """lxml.builder.E"""
    def __getattr__(self, tag):
        if tag.startswith('__'): raise AttributeError(tag)
        return lambda *a, **k: self(tag, *a, **k)
    def __call__(self, tag, *args, **attrib):
        libs.assumed('lxml.builder.E: E.tag(children, texts, attributes) builds that element; other types raise TypeError, invalid texts ValueError')
        n = SNode(cur(), tag)
        n._a = {}
        for k, v in attrib.items():
            if not isinstance(v, (str, SymStr)): raise KeyError(type(v))
            check_text(v)
            n._a[k] = v
        for a in args:
            if callable(a) and not isinstance(a, SNode): a = a()
            if isinstance(a, SNode): n.append(a)
            elif isinstance(a, (str, SymStr)):
                if n.kids: raise Unsupported('tail text')
                check_text(a)
                n._t = a if n._t is None else n._t + a
            elif isinstance(a, dict):
                for k, v in a.items(): n.attrib[k] = v
            else: raise TypeError('bad argument type: %s' % type(a).__name__)
        return n
E = EMaker()

class STree:
    """lxml ElementTree of the database."""
    def __init__(self, w): self.w = w
    def getroot(self): return self.w.root
    def xpath(self, expr, namespaces=None, **k):
        from .xpathsym import evaluate
        return evaluate(self.w, None, expr)
    def find(self, path, namespaces=None): return self.w.root.find(path)
    def findall(self, path, namespaces=None): return self.w.root.findall(path)
    def iter(self, *t): return self.w.root.iter(*t)
    def getpath(self, n): return SymStr(z3.String(eng().fresh('xmlpath')))

_cur = None
def cur():
    if _cur is None: raise Unsupported('no document')
    return _cur

class World:
    """The document on the current path."""
    def __init__(self, version=4):
        global _cur
        _cur = self
        self.version = version
        self.nodes, self.created = [], []
        self.touched = False
        self.heapver = 0
        self.generic, self.blurred = [], set()
        self.memo = {}
        self.firsts = []
        self.facts = []            # callables: further schema facts about a node of the initial document
        self.root = SNode(self, 'KeePassFile', z3.Const('KeePassFile', Node), True)
        self.root._p = None
        self.tree = STree(self)
        self.meta = self.root.slot('Meta')[1]
        self.rootel = self.root.slot('Root')[1]
        self.rootgroup = self.rootel.slot('Group')[1]
        axiom(z3.Not(F_hist(self.rootgroup.z)))
        axiom(F_depth(self.rootgroup.z) == 2); axiom(F_parent(self.rootgroup.z) == self.rootel.z)
        self.witnesses = []
    def version_of_heap(self): return self.heapver
    def unique_uuids(self):
        """Assume that all groups and current entries have distinct UUIDs, none of them one that will be generated."""
        libs.assumed('no two groups or current entries of a database have the same UUID')
        by = z3.Function('element_with_uuid', S, Node)
        def fact(n):
            if n.tag not in ('Group', 'Entry') or not n.init: return
            u = n.slot('UUID')[1]
            t = F_tval(u.z)
            uuid_text(t)
            axiom(z3.Not(F_tnone(u.z)))
            axiom(z3.Not(z3.Function('is_fresh_uuid', B, BL)(libs.unb64text(t))))
            f = by(t) == n.z
            axiom(f if n.tag == 'Group' else z3.Or(F_hist(n.z), f))
            kind = z3.Function('is_group', Node, BL)(n.z)
            axiom(kind if n.tag == 'Group' else z3.Not(kind))
        self.facts.append(fact)
        for n in self.nodes:
            if n.tag in ('Group', 'Entry'): fact(n)
    # ---- known nodes
    def any(self, tag, name, parent=LAZY):
        """An arbitrary node of the initial document (distinct from the known ones of its kind unless identified by a fork)."""
        z = z3.Const(eng().fresh(name), Node)
        return self.known(tag, z, parent)
    def known(self, tag, z, parent=LAZY, alias=True):
        if parent is not LAZY and parent is not None:
            axiom(F_parent(z) == parent.z)
            axiom(F_depth(z) == F_depth(parent.z) + 1)
            if tag == 'Entry': axiom(F_hist(z) == z3.BoolVal(parent.tag == 'History'))
        if alias:
            for k in [n for n in self.nodes if n.tag == tag and n.init and n.seg_member_kind() == kind_of(tag, parent)]:
                if bool(mk_bool(k.z == z)):
                    if parent is not LAZY and parent is not None and k._p is LAZY:
                        k._p = parent; k.home = parent.seg
                        if parent.seg is not None: parent.seg.members.append(k)
                    return k
        n = SNode(self, tag, z, True, False, parent)
        if parent is not LAZY and parent is not None:
            n.home = parent.seg
            axiom(F_parent(z) == parent.z)
            axiom(F_depth(z) == F_depth(parent.z) + 1)
            if parent.seg is not None: parent.seg.members.append(n)
            if tag == 'Entry': axiom(F_hist(z) == z3.BoolVal(parent.tag == 'History'))
        if tag == 'Group': axiom(z3.Not(F_hist(z))); axiom(z3.Or(z == self.rootgroup.z, F_depth(z) >= 3))
        for f in self.facts: f(n)
        if tag == 'String' and parent is not LAZY and parent is not None:
            kn = n.kids[0]
            axiom(F_shas(parent.z, F_tval(kn.z))); axiom(F_sfind(parent.z, F_tval(kn.z)) == z)
        return n
    def resolve_parent(self, n):
        tags = PARENT.get(n.tag)
        if not tags: raise Unsupported('parent of %s' % n.tag)
        if n.tag == 'Group':
            t = 'Group' if n is not self.rootgroup else 'Root'
        elif n.tag == 'Entry':
            t = 'History' if bool(mk_bool(F_hist(n.z))) else 'Group'
        else: t = tags[0]
        z = F_parent(n.z)
        if t == 'Root': p = self.rootel
        elif t == 'History':
            # the History of some entry
            ez = F_parent(z)
            axiom(F_depth(z) == F_depth(ez) + 1); axiom(F_depth(n.z) == F_depth(z) + 1)
            axiom(z3.Not(F_hist(ez)))        # schema: no history within a history
            e = self.known('Entry', ez)
            axiom(z == F_child('History')(e.z)); axiom(F_chas('History')(e.z))
            axiom(F_depth(z) == F_depth(e.z) + 1)
            axiom(F_depth(n.z) == F_depth(z) + 1)
            p = e.slot('History')[1]
        else:
            axiom(F_depth(n.z) == F_depth(z) + 1)
            p = self.known(t, z)
            if t == 'Group' and p is not self.rootgroup:
                p.climbed = getattr(n, 'climbed', 0) + 1
                if p.climbed > CLIMB: raise BoundHit('%d groups above one another' % CLIMB)
        n._p = p
        n.home = p.seg
        if p.seg is not None and n not in p.seg.members: p.seg.members.append(n)
        axiom(F_below(n.z, p.z))
        axiom(F_depth(n.z) == F_depth(p.z) + 1)
    def dirty(self, n):
        """Has this initial node (or a known node below it, its strings, slots...) changed?"""
        if not n.init: return True
        if n._t is not INIT or n._a: return True
        if n.seg is not None:
            if not (len(n.kids) == 1 and isinstance(n.kids[0], SegRef) and n.kids[0].seg is n.seg and n.kids[0].pristine()): return True
            if n._p is not LAZY and n.home is not None and not self._at_home(n): return True
            for c in list(n.seg.slots.values()) + [s for _, s in n.seg.strings]:
                if c.tag in ('Entry', 'Group', 'History'): continue
                if self.dirty(c): return True
            return False
        if n._p is not LAZY and n.home is not None and not self._at_home(n): return True
        return any(self.dirty(c) for c in n.kids if isinstance(c, SNode))
    def _at_home(self, n):
        o = n.home.owner
        return n._p is o
    def dirty_any(self, tag): return any(n.tag == tag and self.in_tree(n) for n in self.created) or any(n.tag == tag and not n.ghost and self.dirty(n) for n in self.nodes)
    def in_tree(self, n):
        p = n
        while True:
            if p is self.root: return True
            if p._p is LAZY: return True
            if p._p is None: return False
            p = p._p
    def below(self, n, N):
        """Formula: n is below N in the present tree."""
        if n is N: return z3.BoolVal(False)
        p = n
        while p._p is not None and p._p is not LAZY:
            p = p._p
            if p is N: return z3.BoolVal(True)
        if p._p is None: return z3.BoolVal(False)
        if any(x.tag == 'Group' and not x.ghost and x._p is not LAZY and x.home is not None and not self._at_home(x) for x in self.nodes): raise Unsupported('position of a node after groups were moved')
        return F_below(p.z, N.z)
    def parent_ghost(self, n, tag):
        if not n.ghost and n._p is not LAZY:
            return n._p
        axiom(F_depth(n.z) == F_depth(F_parent(n.z)) + 1)
        return SNode(self, tag, F_parent(n.z), True, True, LAZY)
    def ghost(self, tag, z): return SNode(self, tag, z, True, True, LAZY)

    # ---- first element of a set
    def first(self, s):
        """The first node of the set in document order, or None (assumed contract of XPath; the same set gives the same node)."""
        from .xpathsym import setkey
        e = eng()
        if s.tag in self.blurred: raise Unsupported('search among nodes changed by a loop')
        sp = s.specials()
        if s.domain[0] == 'child' and len(s.domain) > 2 and s.tag in s.domain[2].all: return None
        if s.domain[0] == 'child' and len(s.domain) > 2 and s.tag in s.domain[2].some: return self.first_left(s)
        if s.domain[0] == 'child' and len(s.domain) > 2:
            sp = [n for n in sp if n.home is s.domain[2].seg]
        elif s.domain[0] == 'child':
            # decompose over the items of the child list
            for it in s.domain[1].kids:
                if isinstance(it, SNode):
                    if it.tag == s.tag and bool(mk_bool(s.holds(it))): return it
                elif isinstance(it, SegRef):
                    for r in it.repl:
                        if r.tag == s.tag: raise Unsupported('order of replaced nodes')
                    n = self.first(NodeSet(self, s.tag, ('child', s.domain[1], it), s.preds))
                    if n is not None: return n
                elif it.tag == s.tag:
                    if s.preds: raise Unsupported('first child among runs')
                    r = it.vc_first(s.tag)
                    if r is not None: return r
            return None
        key = setkey(s, sp)
        if key in self.memo: return self.memo[key]
        sp_in = [n for n in sp if bool(mk_bool(s.holds(n)))]
        if len(sp_in) == 1 and not bool(SymBool(z3.Bool(e.fresh('another_first')), 'another node comes first')):
            r = sp_in[0]
        elif len(sp_in) > 1: raise Unsupported('order of several changed nodes')
        else:
            # some unchanged initial node, or none
            g = s.generic()
            known = [n for n in self.nodes if n.tag == s.tag and not n.ghost and not self.dirty(n) and kind_of(n.tag, n._p) == set_kind(s)]
            some = False
            for k in known:
                if prov(mk_bool(s.holds(k))): some = True; break
            if sp_in: some = True          # the branch where another one comes first
            if not some: some = bool(SymBool(z3.Bool(e.fresh('exists_' + s.tag)), 'a matching %s exists' % s.tag))
            if not some:
                for k in known: e.assume(z3.Not(s.holds(k)))
                r = None
                if sp_in: raise Unsupported('order')
            else:
                z = z3.Const(e.fresh('first_' + s.tag), Node)
                gz = self.ghost(s.tag, z)
                for f in self.facts: f(gz)
                if s.domain[0] == 'child': axiom(F_parent(z) == s.domain[1].z)
                e.assume(s.holds(gz))
                for n in sp: e.assume(n.z != z)
                r = self.known(s.tag, z, s.domain[1] if s.domain[0] == 'child' else LAZY)
        self.memo[key] = r
        self.firsts.append((s, r))
        return r
    def last(self, s):
        """Some child of this kind, nothing else is said about it (the last one is such a child), or None if there is none."""
        e = eng()
        d = s.domain
        if d[0] != 'child' or len(d) != 2 or s.preds or not isinstance(d[1], SNode) or d[1].ghost or len(d[1].kids) != 1 or not isinstance(d[1].kids[0], SegRef) or d[1].kids[0].repl: raise Unsupported('last of the found nodes')
        N, it = d[1], d[1].kids[0]
        if self.first(s) is None: return None
        z = z3.Const(e.fresh('last_' + s.tag), Node)
        gz = self.ghost(s.tag, z)
        for f in self.facts: f(gz)
        axiom(F_parent(z) == N.z)
        for o in it.out + [x for x in it.seg.members if x._p is not N]: e.assume(o.z != z)
        e.imprecise = e.imprecise or 'the last of the found nodes is taken'
        return self.known(s.tag, z, N)
    def first_left(self, s):
        """The first of the children of one kind that are left after an unknown number of them was removed."""
        e = eng()
        if s.preds: raise Unsupported('search among the remaining children')
        N, it = s.domain[1], s.domain[2]
        from .xpathsym import setkey
        key = setkey(s, []) + ('left',)
        if key in self.memo: return self.memo[key]
        if bool(SymBool(z3.Bool(e.fresh('left_' + s.tag)), 'a %s is left' % s.tag)):
            z = z3.Const(e.fresh('next_' + s.tag), Node)
            axiom(F_parent(z) == N.z)
            for o in it.out + [x for x in it.seg.members if x._p is not N]: e.assume(o.z != z)
            r = self.known(s.tag, z, N)
        else:
            r = None
            it.some.discard(s.tag); it.all.add(s.tag)
            it.out = [o for o in it.out if o.tag != s.tag]
            for m in it.seg.members:
                if m.tag == s.tag and m._p is N and m.home is it.seg: m._p = None
            return None
        self.memo[key] = r
        return r
    def order_facts(self, g):
        """What the searches for a first element say about the (generic) node g."""
        if self.touched: raise Unsupported('order after changes')
        for s, r in self.firsts:
            if s.tag != g.tag: continue
            h = s.holds(g)
            axiom(z3.Not(h) if r is None else z3.Implies(h, F_order(r.z) <= F_order(g.z)))

    # ---- heap snapshots
    def snapshot(self):
        def k(it): return (id(it.seg), tuple(map(id, it.out)), tuple(map(id, it.repl)), tuple(sorted(it.some)), tuple(sorted(it.all))) if isinstance(it, SegRef) else \
            (it.name, str(zint(it.lo)), str(zint(it.hi))) if hasattr(it, 'vc_run') else id(it)
        self._hold = getattr(self, '_hold', []); 
        r = {}
        for n in self.nodes + self.created:
            if n.ghost: continue
            self._hold.append((n._t, list(n.kids)))
            r[id(n)] = (n, id(n._t), tuple((a, id(v)) for a, v in sorted(n._a.items())), tuple(k(i) for i in n.kids), None if n._p is None else 'lazy' if n._p is LAZY else id(n._p))
        return r
    def changed_since(self, h):
        h2 = self.snapshot()
        out = []
        for i, (n, t, a, k, p) in h.items():
            _, t2, a2, k2, p2 = h2[i]
            if t != t2 or a != a2 or k != k2 or (p != p2 and p != 'lazy'): out.append(n)
        for i, v in h2.items():
            # nodes that became known since: changed at all?
            n = v[0]
            if i not in h and n.init and (n._t is not INIT or n._a or n.same_state()[1]): out.append(n)
        return out

    # ---- frame
    def frame(self, label, allow=(), allow_text=()):
        """Every known initial node except `allow` is as it was (own text, attributes and child list)."""
        e = eng()
        fs, whys = [], []
        for n in self.nodes:
            if n.ghost or any(n is a for a in allow): continue
            f, why = n.same_state()
            if why: whys.append(why)
            fs.append(f)
        e.check(z3.And(fs) if fs else True, label, '; '.join(whys)[:400])

def kind_of(tag, parent):
    if tag == 'Binary': return 'meta' if parent is not None and parent is not LAZY and getattr(parent, 'tag', '') == 'Binaries' else 'entry'
    return tag
def set_kind(s):
    if s.tag == 'Binary': return 'meta' if s.domain[0] == 'child' and s.domain[1].tag == 'Binaries' else 'entry'
    return s.tag
SNode.seg_member_kind = lambda n: kind_of(n.tag, n._p)

def _copy_string(self, key):
    """(present, node) of the String with this key in a copied segment."""
    o = self.orig.owner
    for k, n in self.strings:
        if isinstance(k, str) and isinstance(key, str):
            if k == key: return F_shas(o.z, zs(key)), n
            continue
        if bool(mk_bool(zs(k) == zs(key))): return F_shas(o.z, zs(key)), n
    if not isinstance(self.orig, Seg): raise Unsupported('copy of a copy')
    pres, n = o.string(key)
    c = deepcopy_node(n, pristine=True); c.home = self; c._p = self.owner; c.copy_of = n
    self.strings.append((key, c))
    return pres, c
CopySeg.string = _copy_string
