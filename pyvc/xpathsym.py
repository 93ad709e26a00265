"""The XPath subset pykeepass uses, evaluated on symbolic trees (assumed contract of lxml's XPath engine).

An expression is a text whose constant parts are known; symbolic parts may occur only inside string literals, and are assumed
not to contain the closing quote.  Location paths are brought to the form `steps with predicates` ("A/B[p]/.." is "A[B[p]]")."""
import z3, re
from .core import eng, SymBool, mk_bool, Unsupported, axiom
from .values import SymStr, SymInt, zs, zint, mk_str, zstr_to_py
from . import libs, dom
from .paths import Repeat, Text
from .dom import SNode, SegRef, NodeSet, CopySeg, LAZY, F_hist, F_retest, F_parent

def pieces(x):
    """[str or SymStr] of a text."""
    if isinstance(x, str): return [x] if x else []
    if isinstance(x, Repeat): return [x]
    if isinstance(x, (Text, list)): return [p for i in (x.items if isinstance(x, Text) else x) for p in pieces(i)]
    out = []
    def walk(t):
        if z3.is_string_value(t): out.append(zstr_to_py(t))
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for i in range(t.num_args()): walk(t.arg(i))
        else: out.append(SymStr(t))
    walk(x.e)
    return out

TOK = re.compile(r'\s*(//|/|\.\.|\.|::|\[|\]|\(|\)|@|,|!=|<=|>=|=|<|>|\*|\||-?\d+(?:\.\d+)?|[A-Za-z_][\w\-]*(?::(?!:)[A-Za-z_][\w\-]*)?)')
def tokens(x):
    out = []
    quote, lit = None, ''
    for p in pieces(x):
        if isinstance(p, Repeat):
            if quote: raise Unsupported('a repeated part within a literal')
            out.append(('rep', p))
            continue
        if isinstance(p, SymStr):
            if quote is None and z3.is_app(p.e) and p.e.decl().name() == 'intstr':
                out.append(('symnum', p)); continue
            if quote is None: raise Unsupported('symbolic text outside a literal in an XPath expression')
            libs.assumed('XPath criteria contain no double quote (see known findings)')
            eng().assume(z3.Not(z3.Contains(p.e, z3.StringVal(quote))))
            lit = lit + p if not (isinstance(lit, str) and lit == '') else p
            continue
        i = 0
        while i < len(p):
            if quote:
                j = p.find(quote, i)
                if j < 0: lit = lit + p[i:]; i = len(p)
                else:
                    lit = lit + p[i:j]
                    out.append(('lit', lit)); quote, lit = None, ''; i = j + 1
                continue
            if p[i].isspace(): i += 1; continue
            if p[i] in '"\'': quote = p[i]; lit = ''; i += 1; continue
            m = TOK.match(p, i)
            if not m: raise XPathError(p[i:])
            out.append(('t', m.group(1))); i = m.end()
    if quote: raise XPathError('unterminated literal')
    return out

class XPathError(Exception): pass

class P:
    star = False
    def __init__(self, toks): self.t, self.i = toks, 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)
    def at(self, v, k=0): return self.peek(k) == ('t', v)
    def eat(self, v):
        if not self.at(v): raise XPathError('expected %s at %r' % (v, self.t[self.i:self.i + 4]))
        self.i += 1
    def opt(self, v):
        if self.at(v): self.i += 1; return True
        return False

    def top(self):
        if self.opt('('):
            p = self.path(); self.eat(')')
            preds = []
            while self.at('['): preds.append(self.pred())
            r = ('paren', p, preds)
        else: r = ('path', self.path())
        if self.i != len(self.t): raise XPathError('trailing %r' % (self.t[self.i:],))
        return r

    def path(self):
        """(absolute, [steps])"""
        steps, absolute = [], False
        if self.opt('//'): absolute = True; steps.append(self.step('desc'))
        elif self.opt('/'):
            absolute = True
            steps.append(self.step('child'))
        else: steps.append(self.step('child'))
        while True:
            if self.opt('//'): steps.append(self.step('desc'))
            elif self.opt('/'): steps.append(self.step('child'))
            elif self.peek()[0] == 'rep': steps.append(('rep', self.peek()[1], [])); self.i += 1
            else: break
        return absolute, steps

    def step(self, axis):
        if self.opt('..'): s = ('parent', None, [])
        elif self.opt('.'): s = ('self', None, [])
        elif self.opt('@'):
            k, n = self.peek(); self.i += 1
            return ('attr', n, [])
        else:
            k, n = self.peek()
            if k != 't' or not (re.match(r'[A-Za-z_]', n or '') or n == '*'): raise XPathError('step at %r' % (self.t[self.i:self.i + 4],))
            self.i += 1
            if self.opt('::'):
                ax = n
                k, n = self.peek(); self.i += 1
                if ax == 'descendant-or-self': raise Unsupported('axis ' + ax)
                axis = {'child': 'child', 'ancestor': 'ancestor', 'parent': 'parent', 'descendant': 'desc', 'self': 'self'}.get(ax)
                if axis is None: raise Unsupported('XPath axis ' + ax)
            if self.at('(') and n in ('text', 'node'):
                self.eat('('); self.eat(')')
                if n == 'text': return ('text', None, [])
                n = None
                if axis == 'child': raise Unsupported('node()')
            elif n == '*': 
                if axis != 'parent' and axis != 'self' and not self.star: raise Unsupported('*')
                n = None
            s = (axis, n, [])
        while self.at('['): s[2].append(self.pred())
        return s

    def pred(self):
        self.eat('['); e = self.expr(); self.eat(']')
        return e
    def expr(self):
        l = self.andx()
        while self.opt('or'): l = ('or', l, self.andx())
        return l
    def andx(self):
        l = self.cmp()
        while self.opt('and'): l = ('and', l, self.cmp())
        return l
    def cmp(self):
        l = self.prim()
        for op in ('=', '!=', '<=', '>=', '<', '>'):
            if self.opt(op): return (op, l, self.prim())
        return l
    def prim(self):
        k, v = self.peek()
        if k == 'lit': self.i += 1; return ('lit', v)
        if k == 'symnum': self.i += 1; return ('symnum', v)
        if k is None: raise XPathError('unexpected end')
        if re.fullmatch(r'-?\d+(\.\d+)?', v): self.i += 1; return ('num', v)
        if v == '(':
            self.eat('('); e = self.expr(); self.eat(')'); return e
        if re.match(r'[A-Za-z_]', v) and self.at('(', 1) and v not in ('text', 'node'):
            self.i += 1; self.eat('(')
            args = []
            if not self.at(')'):
                args.append(self.expr())
                while self.opt(','): args.append(self.expr())
            self.eat(')')
            return ('call', v, args)
        return ('path', self.path())

_cache = {}
def parse(expr):
    return P(tokens(expr)).top()

def normal(steps):
    """Remove `..` steps that lead back over a child step."""
    st = []
    for axis, tag, preds in steps:
        preds = [npred(p) for p in preds]
        if axis == 'parent' and tag is None and st and st[-1][0] == 'child':
            c = st.pop()
            ex = ('exists', [c])
            if not st: st.append(('self', None, []))
            st[-1] = (st[-1][0], st[-1][1], st[-1][2] + [ex] + preds)
        elif axis == 'self' and tag is None and st: st[-1] = (st[-1][0], st[-1][1], st[-1][2] + preds)
        elif axis == 'self' and tag is None and not preds: st.append(('self', None, []))
        else: st.append((axis, tag, preds))
    return st
def npred(p):
    if p[0] == 'path':
        a, s = p[1]
        if a: raise Unsupported('absolute path in a predicate')
        s = normal(s)
        if len(s) == 1 and s[0][0] in ('text', 'attr', 'self'): return (s[0][0], s[0][1])
        return ('exists', s)
    if p[0] in ('and', 'or', '=', '!=', '<', '>', '<=', '>='): return (p[0], npred(p[1]), npred(p[2]))
    if p[0] == 'call': return ('call', p[1], [npred(a) for a in p[2]])
    return p

# ---- predicates as formulas -----------------------------------------------------------------------------
def candidates(w, n, tag, preds):
    """[(present, child)] of the children of n with this tag that could satisfy the predicates."""
    out = []
    for it in n.kids:
        if isinstance(it, SNode):
            if it.tag == tag: out.append((z3.BoolVal(True), it))
        elif isinstance(it, SegRef):
            out += [(z3.BoolVal(True), r) for r in it.repl if r.tag == tag]
            owner = n
            if dom.MANY.get(n.tag) and tag in dom.MANY[n.tag]:
                if tag != 'String': raise Unsupported('existence of a %s child' % tag)
                key = key_of(preds)
                if key is None: raise Unsupported('String without a key')
                if tag in it.all: continue
                if it.some & {tag}: raise Unsupported('removed strings')
                pres, c = ref_string(n, it, key)
                if it.has(c): out.append((pres, c))
            else:
                if tag in it.all: continue
                pres, c = it.seg.slot(tag) if isinstance(it.seg, CopySeg) else n.slot(tag)
                if it.has(c): out.append((pres, c))
        else: raise Unsupported('children in runs')
    return out

def ref_string(n, it, key):
    if isinstance(it.seg, CopySeg): return it.seg.string(key)
    return n.string(key)

def key_of(preds):
    for p in preds:
        if p[0] == 'and':
            k = key_of([p[1], p[2]])
            if k is not None: return k
        if p[0] == 'exists' and p[1][0][:2] == ('child', 'Key') and len(p[1]) == 1:
            for q in p[1][0][2]:
                k = lit_eq(q)
                if k is not None: return k
        if p[0] == '=':
            for a, b in ((p[1], p[2]), (p[2], p[1])):
                if a[0] == 'exists' and a[1][0][:2] == ('child', 'Key') and b[0] == 'lit' and not a[1][0][2]:
                    if len(a[1]) == 1 or (len(a[1]) == 2 and a[1][1][0] == 'text'): return b[1]
    return None
def lit_eq(q):
    if q[0] == '=':
        for a, b in ((q[1], q[2]), (q[2], q[1])):
            if a[0] in ('text', 'self') and b[0] == 'lit': return b[1]
    if q[0] == 'and':
        return lit_eq(q[1]) if lit_eq(q[1]) is not None else lit_eq(q[2])
    return None

def exists(w, n, steps, final=None):
    """Formula: some node reached from n by the steps satisfies final (a function of the last node)."""
    if not steps: return final(n) if final else z3.BoolVal(True)
    axis, tag, preds = steps[0]
    if axis == 'text':
        none, val = n.tform()
        return z3.And(z3.Not(none), final(n) if final else z3.BoolVal(True))
    if axis == 'attr':
        h, v = n.aform(tag)
        return h
    if axis == 'self':
        return z3.And([pred_formula(w, n, p) for p in preds] + [exists(w, n, steps[1:], final)])
    if axis == 'child':
        fs = []
        for pres, c in candidates(w, n, tag, preds):
            fs.append(z3.And([pres] + [pred_formula(w, c, p) for p in preds] + [exists(w, c, steps[1:], final)]))
        return z3.Or(fs) if fs else z3.BoolVal(False)
    if axis == 'ancestor' and len(steps) == 1 and not preds and tag == 'History': return in_history(w, n)
    if axis == 'parent':
        if tag is None: raise Unsupported('parent::node() in a predicate')
        return z3.And([parent_is(w, n, tag)] + [pred_formula(w, w.parent_ghost(n, tag), p) for p in preds] + [exists(w, w.parent_ghost(n, tag), steps[1:], final)])
    raise Unsupported('XPath step %s::%s in a predicate' % (axis, tag))

def parent_is(w, n, tag):
    if n.ghost or n._p is LAZY:
        ts = dom.PARENT.get(n.tag, ())
        if ts == (tag,): return z3.BoolVal(True)
        if n.tag == 'Entry' and tag == 'History': return F_hist(n.z)
        if n.tag == 'Entry' and tag == 'Group': return z3.Not(F_hist(n.z))
        if tag not in ts: return z3.BoolVal(False)
        if n.tag == 'Group': return (n.z == w.rootgroup.z) if tag == 'Root' else (n.z != w.rootgroup.z)
        raise Unsupported('parent::' + tag)
    return z3.BoolVal(n._p is not None and n._p.tag == tag)

def in_history(w, n):
    p = n
    while True:
        if p.ghost or p._p is LAZY:
            if p.tag in ('Binary', 'String', 'History'):
                q = F_parent(p.z)
                if p.tag != 'History': axiom(F_hist(p.z) == F_hist(q))
            if p.tag == 'Group': return z3.BoolVal(False)
            return F_hist(p.z)
        p = p._p
        if p is None: return z3.BoolVal(False)
        if p.tag == 'History': return z3.BoolVal(True)

def string_of(w, n, a):
    """String value of an operand (text of the first node, or '')."""
    if a[0] == 'lit': return zs(a[1])
    if a[0] in ('text', 'self'):
        none, val = n.tform()
        return z3.If(none, z3.StringVal(''), val)
    if a[0] == 'attr':
        h, v = n.aform(a[1])
        return z3.If(h, v, z3.StringVal(''))
    if a[0] == 'num': return z3.StringVal(a[1])
    raise Unsupported('operand %r' % (a[0],))

def number_of(w, n, a):
    """(is a number, value)"""
    if a[0] == 'num' and '.' not in a[1]: return z3.BoolVal(True), z3.IntVal(int(a[1]))
    if a[0] == 'symnum': return z3.BoolVal(True), libs.unistr(a[1].e)
    if a[0] == 'lit':
        if isinstance(a[1], str):
            try: return z3.BoolVal(True), z3.IntVal(int(a[1]))
            except ValueError: return z3.BoolVal(False), z3.IntVal(0)
        return libs.isintstr(a[1].e), libs.unistr(a[1].e)
    if a[0] == 'call' and a[1] == 'number' and len(a[2]) == 1: return number_of(w, n, a[2][0])
    v = string_of(w, n, a)
    axiom(z3.Not(libs.isintstr(z3.StringVal(''))))
    return libs.isintstr(v), libs.unistr(v)

def rel(k, a, b): return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[k]
def pred_formula(w, n, p):
    k = p[0]
    if k == 'and': return z3.And(pred_formula(w, n, p[1]), pred_formula(w, n, p[2]))
    if k == 'or': return z3.Or(pred_formula(w, n, p[1]), pred_formula(w, n, p[2]))
    if k == 'exists': return exists(w, n, p[1])
    if k == 'text': return z3.Not(n.tform()[0])
    if k == 'attr': return n.aform(p[1])[0]
    if k in ('=', '!='):
        a, b = p[1], p[2]
        if b[0] != 'lit' and a[0] == 'lit': a, b = b, a
        if b[0] in ('num', 'symnum') or a[0] in ('num', 'symnum'):
            if 'exists' in (a[0], b[0]): raise Unsupported('numeric comparison of a path')
            (o1, v1), (o2, v2) = number_of(w, n, a), number_of(w, n, b)
            r = z3.And(o1, o2, v1 == v2)
            if k == '!=': raise Unsupported('numeric !=')
            return r
        if b[0] != 'lit': raise Unsupported('comparison of two node sets')
        lit = zs(b[1])
        cmpf = (lambda v: v == lit) if k == '=' else (lambda v: v != lit)
        if a[0] == 'text':
            none, val = n.tform()
            return z3.And(z3.Not(none), cmpf(val))
        if a[0] == 'self': return cmpf(string_of(w, n, a))
        if a[0] == 'attr':
            h, v = n.aform(a[1])
            return z3.And(h, cmpf(v))
        if a[0] == 'exists':
            def fin(c):
                none, val = c.tform()
                return cmpf(z3.If(none, z3.StringVal(''), val))
            last = a[1][-1]
            if last[0] == 'attr':
                return exists(w, n, a[1][:-1], lambda c: z3.And(c.aform(last[1])[0], cmpf(c.aform(last[1])[1])))
            return exists(w, n, a[1], fin)
        if a[0] == 'call' and a[1] in ('string',): return cmpf(string_of(w, n, a[2][0] if a[2] else ('self', None)))
        raise Unsupported('comparison with %s' % a[0])
    if k in ('<', '>', '<=', '>=') and (p[1][0] == 'exists') != (p[2][0] == 'exists'):
        i = 1 if p[1][0] == 'exists' else 2
        steps = p[i][1]
        def fin(c, a):
            x, y = number_of(w, c, a), number_of(w, n, p[3 - i])
            if i == 2: x, y = y, x
            libs.assumed('XPath relational operators compare the numbers the texts denote, and are false when one is not a number')
            return z3.And(x[0], y[0], rel(k, x[1], y[1]))
        if steps[-1][0] == 'attr': return exists(w, n, steps[:-1], lambda c: z3.And(c.aform(steps[-1][1])[0], fin(c, ('attr', steps[-1][1]))))
        return exists(w, n, steps, lambda c: fin(c, ('self', None)))
    if k in ('<', '>', '<=', '>='):
        (o1, v1), (o2, v2) = number_of(w, n, p[1]), number_of(w, n, p[2])
        f = rel(k, v1, v2)
        libs.assumed('XPath relational operators compare the numbers the texts denote, and are false when one is not a number')
        return z3.And(o1, o2, f)
    if k == 'call':
        name, args = p[1], p[2]
        if name == 'not' and len(args) == 1: return z3.Not(pred_formula(w, n, args[0]))
        if name == 'contains': return z3.Contains(string_of(w, n, args[0]), string_of(w, n, args[1]))
        if name == 'starts-with': return z3.PrefixOf(string_of(w, n, args[1]), string_of(w, n, args[0]))
        if name == 're:test':
            libs.assumed('re:test(text, pattern, flags): a predicate of its three arguments; an absent node counts as empty text')
            return F_retest(string_of(w, n, args[0]), string_of(w, n, args[1]), string_of(w, n, args[2]) if len(args) > 2 else z3.StringVal(''))
        if name == 'boolean': return pred_formula(w, n, args[0])
        if name == 'true': return z3.BoolVal(True)
        if name == 'false': return z3.BoolVal(False)
        raise Unsupported('XPath function ' + name)
    if k == 'lit': return z3.Length(zs(p[1])) > 0
    raise Unsupported('XPath predicate %s' % (k,))

# ---- evaluation -------------------------------------------------------------------------------------------
def evaluate(w, ctx, expr):
    libs.assumed('lxml XPath: returns the nodes the expression denotes, each once, in document order')
    try: kind, *r = parse(expr)
    except XPathError as ex:
        raise_xpath_error(ex, expr)
    if kind == 'paren':
        (absolute, steps), preds = r
        steps = normal(steps)
        if len(preds) == 1 and preds[0] in (('call', 'last', []),) and len(steps) == 1 and steps[0][0] == 'ancestor' and not steps[0][2]:
            return nearest(ctx, steps[0][1])
        if len(preds) == 1 and preds[0] == ('num', '1'):
            s = run(w, ctx, absolute, steps)
            n = w.first(s) if isinstance(s, NodeSet) else (s[0] if s else None)
            return [] if n is None else [n]
        if preds: raise Unsupported('position predicate')
        return run(w, ctx, absolute, steps)
    absolute, steps = r[0]
    if len(steps) == 1 and steps[0][0] == 'ancestor' and steps[0][2] == [('num', '1')]: return nearest(ctx, steps[0][1])
    r = run(w, ctx, absolute, normal(steps))
    if isinstance(r, NodeSet) and r.tag == 'Binary' and r.domain[0] == 'all' and w.version == 3 and not any(attachment_only(p) for p in r.preds):
        raise Unsupported('a search that mixes attachments and binaries')
    return r

def attachment_only(p):
    """Does this predicate exclude the binaries of the KDBX 3 Meta section?"""
    if p[0] == 'exists': return p[1][0][:2] in (('child', 'Key'), ('child', 'Value')) or p[1][0][:2] == ('parent', 'Entry')
    if p[0] == 'and': return attachment_only(p[1]) or attachment_only(p[2])
    if p[0] in ('=', '<', '>', '<=', '>='): return attachment_only(p[1]) or attachment_only(p[2])
    return False

def raise_xpath_error(ex, expr):
    from lxml import etree
    text = ''.join(p if isinstance(p, str) else 'x' for p in pieces(expr))
    try: etree.XPath(text, namespaces={'re': 'http://exslt.org/regular-expressions'})
    except etree.XPathSyntaxError: pass
    else: raise Unsupported('XPath expression ' + text)
    raise etree.XPathEvalError('Invalid expression')

def nearest(n, tag):
    p = n.getparent()
    while p is not None and p.tag != tag: p = p.getparent()
    return [] if p is None else [p]

def run(w, ctx, absolute, steps):
    cur = [ctx] if not absolute else ['doc']
    if ctx is None and not absolute: cur = [w.root]
    for axis, tag, preds in steps:
        if any(p[0] == 'num' for p in preds): raise Unsupported('position predicate')
        if isinstance(cur, NodeSet):
            if axis == 'child': cur = NodeSet(w, tag, ('chain', cur), preds)
            else: raise Unsupported('XPath step %s after a set of nodes' % axis)
            continue
        if len(cur) > 1: raise Unsupported('XPath step from several nodes')
        if not cur: return []
        n = cur[0]
        if axis == 'desc':
            if n == 'doc' or n is w.root: cur = NodeSet(w, tag, ('all',), preds)
            else: cur = NodeSet(w, tag, ('desc', n), preds)
            continue
        if n == 'doc':
            if axis == 'child' and tag == 'KeePassFile': cur = keep(w, [w.root], preds); continue
            if axis == 'child': return []
            raise Unsupported('XPath step from the document')
        if axis == 'rep':
            cur = repeat(w, n, tag)
            continue
        if axis == 'self': cur = keep(w, [n], preds); continue
        if axis == 'parent':
            p = n.getparent()
            cur = keep(w, [p] if p is not None and (tag is None or p.tag == tag) else [], preds); continue
        if axis == 'child':
            if n.many(tag) and n.init or (n.many(tag) and any(isinstance(k, SegRef) for k in n.kids)):
                if tag == 'String' and key_of(preds) is not None:
                    cur = [c for pres, c in candidates(w, n, tag, preds) if bool(mk_bool(z3.And([pres] + [pred_formula(w, c, p) for p in preds])))]
                    if len(cur) > 1: return_many(cur)
                    continue
                cur = NodeSet(w, tag, ('child', n), preds)
                continue
            cur = [c for pres, c in candidates(w, n, tag, preds) if bool(mk_bool(z3.And([pres] + [pred_formula(w, c, p) for p in preds])))]
            continue
        raise Unsupported('XPath axis %s' % axis)
    return cur

def repeat(w, base, rep):
    """The nodes reached from the base by one step per name."""
    t = P([('t', '.')] + tokens(rep.pieces))
    a, steps = t.path()
    if t.i != len(t.t) or a: raise Unsupported('repeated part of an XPath expression')
    steps = normal(steps)
    if steps and steps[0] == ('self', None, []): steps = steps[1:]
    if len(steps) != 1 or steps[0][:2] != ('child', 'Group'): raise Unsupported('repeated steps of another kind')
    e = eng()
    g = w.ghost('Group', z3.Const(e.fresh('any_Group'), dom.Node))
    e.decided(base is w.rootgroup, 'a path starts at the root group', repr(base))
    e.check(z3.And([pred_formula(w, g, p) for p in steps[0][2]] + [z3.BoolVal(True)]) == rep.seq.step(w, g, rep.var), 'every name of a path leads to the groups with this name directly below')
    axiom(z3.Not(rep.seq.at(w.rootel.z)))       # only groups are reached
    return NodeSet(w, 'Group', ('names', rep), [])

def return_many(cur): pass

def keep(w, ns, preds):
    return [n for n in ns if bool(mk_bool(z3.And([z3.BoolVal(True)] + [pred_formula(w, n, p) for p in preds])))]

def setkey(s, specials):
    """Identity of a set in the present state of the tree."""
    g = s.w.ghost(s.tag, z3.Const('any', dom.Node))
    d = s.domain
    if d[0] == 'chain': dk = ('chain', setkey(d[1], []) if isinstance(d[1], NodeSet) else d[1].z.get_id())
    else: dk = (d[0],) + tuple(id(x) for x in d[1:2])
    if d[0] == 'child' and len(d) > 2: dk += (tuple(sorted(id(o) for o in d[2].out if o.tag == s.tag)), s.tag in d[2].some, s.tag in d[2].all)
    f = z3.simplify(z3.And([pred_formula(s.w, g, p) for p in s.preds])) if s.preds else z3.BoolVal(True)
    s.w.keep = getattr(s.w, 'keep', []); s.w.keep.append(f)
    sp = tuple(sorted(id(n) for n in specials))
    return (s.tag, dk, f.get_id(), sp)
