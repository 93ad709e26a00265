"""A list of names of unknown length, and the XPath text a loop builds from it.

`for name in names: text += piece(name)` yields text + Repeat(piece): the piece once per name.  In an XPath expression a Repeat of child
steps denotes the nodes reached from the base by one step per name; the contract gives the meaning of one step, and the equivalence of the
piece with it for an arbitrary name is an obligation (induction over the list)."""
import z3
from .core import eng, Unsupported, mk_bool
from .values import SymStr, SymInt, str_var, int_var, zs
from .loops import Poison

class NameSeq:
    """A list of one or more names; `step(w, g, name)` is the meaning of one step, `at(z)`: reached by all names but the last."""
    vc_is_list = True
    def __init__(self, step, node_sort):
        e = eng()
        self.step, self.last = step, str_var('last_name')
        e.assume(z3.Length(self.last.e) > 0)
        self.at = z3.Function(e.fresh('reached_by_names'), node_sort, z3.BoolSort())
        self.n = int_var('names', 1)
    def vc_len(self): return self.n
    def __bool__(self): return True
    def _u(self, *a, **k): raise Unsupported('a list of names of unknown length is inspected')
    def __getitem__(self, i):
        if isinstance(i, int) and i == -1: return self.last
        if isinstance(i, slice) and (i.start, i.stop, i.step) in ((None, -1, None), (0, -1, None)): return AllButLast(self)
        if isinstance(i, slice) and (i.start, i.stop, i.step) == (None, None, None): return self
        self._u()
    def vc_tolist(self): return self
    def vc_star(self, before, after):
        if (before, after) != (0, 1): self._u()
        return AllButLast(self), self.last
    __iter__ = __len__ = index = pop = vc_contains = _u

class AllButLast:
    vc_is_list = True
    def __init__(self, s): self.seq = s
    def vc_len(self): return self.seq.n - 1
    def __bool__(self): return bool(mk_bool(self.seq.n.e > 1))
    def vc_tolist(self): return self
    def vc_begin(self, loop):
        for v in loop.hav:
            o = loop.locs.get(v)
            if isinstance(o, (str, SymStr, Text)): loop.val[('v', v)] = StrAcc(o)
    def vc_nodeloop(self, loop):
        e = eng()
        x = str_var('some_name')
        e.assume(z3.Length(x.e) > 0)
        loop.repeat = (self, x)
        pos0 = e.pos
        yield x
        if any(isinstance(m, int) for k, m, _ in e.trail[pos0:e.pos]): raise Unsupported('the body of a loop over names branches on them')
    def _u(self, *a, **k): raise Unsupported('a list of names of unknown length is inspected')
    __iter__ = __len__ = __getitem__ = _u

class StrAcc:
    """A text to which a loop appends."""
    def __init__(self, orig, new=()): self.orig, self.new = orig, tuple(new)
    def __add__(self, o):
        if not isinstance(o, (str, SymStr)): raise Unsupported('a text is joined with %s' % type(o).__name__)
        return StrAcc(self.orig, self.new + (o,))
    def _u(self, *a, **k): raise Unsupported('a text is inspected while a loop extends it')
    __radd__ = __eq__ = __bool__ = __len__ = __getitem__ = __iter__ = vc_len = vc_contains = __str__ = _u
    __hash__ = None
    def vc_final(self, loop):
        s, x = loop.repeat
        if not self.new: return self.orig
        return Text((self.orig.items if isinstance(self.orig, Text) else [self.orig]) + [Repeat(s.seq, x, list(self.new))])

class Repeat:
    def __init__(self, seq, var, pieces): self.seq, self.var, self.pieces = seq, var, pieces

class Text:
    """A text with repeated parts."""
    def __init__(self, items): self.items = list(items)
    def __add__(self, o):
        if isinstance(o, Text): return Text(self.items + o.items)
        if isinstance(o, (str, SymStr)): return Text(self.items + [o])
        return NotImplemented
    def __radd__(self, o):
        if isinstance(o, (str, SymStr)): return Text([o] + self.items)
        return NotImplemented
    def __bool__(self): return True
    def _u(self, *a, **k): raise Unsupported('a text with repeated parts is inspected')
    __eq__ = __len__ = __getitem__ = __iter__ = vc_len = vc_contains = _u
    __hash__ = None
