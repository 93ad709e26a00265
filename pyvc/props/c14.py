"""C14: contracts of Entry.ref and PyKeePass.deref."""
import z3
from ..core import eng, mk_bool, SymBool, Unsupported, axiom, BoundHit
from ..values import *
from .. import dom, libs, dtmod, rtext
from ..dom import SNode, LAZY, F_tval, F_tnone, F_order, F_hist
from ..rtext import RText, Piece
from ..kpmod import Env, run
from ..verify import Task
from ..bounded.c14 import *
from .c09 import exact, string, slots, any_uuid
LEVEL = 'proof'
LEVEL_NOTE = ('Contracts of Entry.ref and PyKeePass.deref (with find_entries and the field getters executed below them) on arbitrary documents: a text with any number of references (induction: an arbitrary one of them before or after an arbitrary other '
              'one), with one reference of every one of the 36 kinds and arbitrary text around it, with two and three references completely, and with none. The regular expression is compared with the specified one as a regular language by z3. '
              'Nested calls of deref follow its own contract (induction over chains of references). lxml, re and uuid are assumed contracts.')
ASSUMPTIONS = ['documents follow the KDBX schema (dom.py)', 'chains of references end (a cyclic reference raises RecursionError)', 'free text and searched values hold no braces and no double quote; a UUID is referred to by 32 hex digits',
               'resolving a reference inside a value earlier or later gives the same text', 'UUIDs of groups and current entries are distinct']
ATTRS = {'T': 'title', 'U': 'username', 'P': 'password', 'A': 'url', 'N': 'notes', 'I': 'uuid'}
KEYS = {'T': 'Title', 'U': 'UserName', 'P': 'Password', 'A': 'URL', 'N': 'Notes'}
rtext.SPEC = r'\{REF:([TUPANI])@([TUPANI]):([^}]+)\}'
S = z3.StringSort()
F_D, F_Dnone = z3.Function('resolved', S, S), z3.Function('resolves_to_none', S, z3.BoolSort())

def no_refs(v):
    eng().assume(z3.And(z3.Not(F_Dnone(zs(v))), F_D(zs(v)) == zs(v)))
rtext.NOREFS = no_refs

def plain(v):
    """Is this a text that cannot hold references?"""
    if isinstance(v, str): return '{' not in v
    return bool(v.origin and v.origin[0] in ('hex', 'hexup'))

class Ref:
    """A reference, and the entry it denotes (None: there is none)."""
    def __init__(self, env, want, by, exists, val=None, lower=False):
        e = eng(); w = env.w
        self.env, self.want, self.by, self.done = env, want, by, set()
        self.val = val
        if val is None:
            if by == 'I':
                self.u = any_uuid()
                h = self.u.hex
                self.val = h if lower and e.choose(2, 'case of the digits') else h.upper()
            else:
                self.val = str_var('searched')
                for c in '{}"': e.assume(z3.Not(z3.Contains(self.val.e, z3.StringVal(c))))
                e.assume(z3.Length(self.val.e) > 0)
        self.E = w.any('Entry', 'target') if exists else None
        if exists:
            e.assume(z3.Not(F_hist(self.E.z))); e.assume(self.matches(self.E))
            if want == 'I': self.value = run(lambda: env.Entry(self.E).uuid.hex.upper())[0]
            else:
                pres, s = self.E.string(KEYS[want])
                none, v = s.kids[1].tform()
                self.value = SymStr(z3.If(z3.And(pres, z3.Not(none)), v, z3.StringVal('')))
        self.parts = ['{REF:%s@%s:' % (want, by), self.val, '}']
        self.piece = Piece('ref', self.parts[0] + self.val + '}', self.parts)
        rtext.seen().append(self.piece)
    def matches(self, x):
        if self.by == 'I': return slots(x, ['UUID'], exact(libs.b64encode(self.u.bytes).decode()))
        return string(x, KEYS[self.by], exact(self.val))
    def first(self):
        """The entry is the first one that matches, or none does: instantiated for every entry in sight."""
        e = eng(); w = self.env.w
        if self.E is not None: w.order_facts(self.E)
        for n in [x for x in w.nodes if x.tag == 'Entry' and x.init]:
            if n.ghost or (n, len(w.firsts)) in self.done: continue
            self.done.add((n, len(w.firsts)))
            m = z3.And(z3.Not(F_hist(n.z)), self.matches(n))
            w.order_facts(n)
            if self.E is None: e.assume(z3.Not(m))
            else:
                axiom(z3.Implies(F_order(self.E.z) == F_order(n.z), self.E.z == n.z))
                e.assume(z3.Implies(m, F_order(self.E.z) <= F_order(n.z)))

def spec(pieces, refs, done=False):
    """(formula: the result is None, text) by the definition of resolution."""
    none, out = [], []
    if any(p.kind == 'many' for p in pieces): none += [z3.BoolVal(True) if r.E is None else F_Dnone(zs(r.value)) for r in refs if r.E is None or not plain(r.value)]
    for p in pieces:
        if p.kind == 'ref':
            r = [x for x in refs if x.piece is p][0]
            if r.E is None: none.append(z3.BoolVal(True)); continue
            v = r.value
        elif p.kind == 'text' or p.kind == 'many' and done: out.append(zs(p.s)); continue
        else: v = p.s
        if plain(v): out.append(zs(v)); continue
        axiom(F_D(z3.StringVal('')) == z3.StringVal('')); axiom(z3.Not(F_Dnone(z3.StringVal(''))))
        none.append(F_Dnone(zs(v))); out.append(F_D(zs(v)))
    return z3.Or(none) if none else z3.BoolVal(False), (z3.StringVal('') if not out else out[0] if len(out) == 1 else z3.Concat(*out))

def nested(env, refs, total=1):
    """Calls of deref by deref follow its contract."""
    real = env.kp.deref
    depth = [0]
    def deref(value):
        if depth[0]:
            if value is None or isinstance(value, str) and plain(value): return value
            if isinstance(value, SymStr):
                ps = value.pieces if isinstance(value, RText) else [Piece('value', value)]
                for r in refs: r.first()
                if any(p.kind == 'ref' for p in ps): e = eng(); e.decided(len([p for p in ps if p.kind == 'ref']) < total, 'resolution makes progress: a text is not resolved by resolving it again')
                none, t = spec(ps, refs)
                if bool(mk_bool(none)): return None
                return mk_str(t)
            raise Unsupported('deref of %s' % type(value).__name__)
        depth[0] += 1
        try: return real(value)
        finally: depth[0] -= 1
    env.kp.__dict__['deref'] = deref
    return deref

def text(nm):
    v = str_var(nm)
    for c in '{}': eng().assume(z3.Not(z3.Contains(v.e, z3.StringVal(c))))
    return Piece('text', v)

def judge(env, got, exc, pieces, refs, what):
    e = eng()
    if not e.decided(exc is None, what + ' succeeds', repr(exc)): return
    for r in refs: r.first()
    if not e.feasible(z3.BoolVal(True)): return
    none, t = spec(pieces, refs)
    if got is None: e.check(none, what + ': None only if a referenced entry does not exist')
    elif e.decided(isinstance(got, (str, SymStr)), what + ' gives a text', repr(type(got))):
        good = z3.And(z3.Not(none), zs(got) == t)
        if any(p.kind == 'many' for p in pieces):
            # the other references are either resolved in the end or by the loop itself, one by one
            n2, t2 = spec(pieces, refs, True)
            good, none = z3.Or(good, z3.And(z3.Not(n2), zs(got) == t2)), z3.And(none, n2)
        e.check(z3.Not(none), what + ': None if a referenced entry does not exist')
        e.check(z3.Or(none, good), what + ': every reference is replaced by the field it denotes, other text is unchanged')

def env_(version):
    return Env(version, extra_mods={'re': rtext.re_mod}, builtins={'set': rtext.vset})

def one(version, by):
    def f():
        e = eng()
        env = env_(version); w = env.w
        w.unique_uuids()
        want = 'TUPANI'[e.choose(6, 'wanted field')]
        ex = bool(e.choose(2, 'the entry exists'))
        r = Ref(env, want, by, ex, lower=True)
        pieces = [text('before'), r.piece, text('after')]
        deref = nested(env, [r])
        got, exc = run(deref, RText(pieces))
        judge(env, got, exc, pieces, [r], 'resolving a text')
        w.frame('resolving changes nothing')
    return f

COMBOS = [('U', 'I'), ('T', 'U'), ('I', 'T')]
def several(version, n, k=0):
    def f():
        e = eng()
        env = env_(version); w = env.w
        w.unique_uuids()
        refs, pieces = [], [text('text')]
        miss = e.choose(n + 1, 'the entry that does not exist') - 1 if n == 2 else -1
        for i in range(n):
            if i == n - 1 and n > 2: pieces += [refs[0].piece, text('text')]; continue
            want, by = COMBOS[(i + k) % len(COMBOS)]
            r = Ref(env, want, by, miss != i)
            refs.append(r); pieces += [r.piece, text('text')]
        deref = nested(env, refs, n)
        got, exc = run(deref, RText(pieces))
        judge(env, got, exc, pieces, refs, 'resolving a text with %d references' % n)
        w.frame('resolving changes nothing')
    return f

def many(version, want, by, want2, by2):
    """A text with any number of references: what becomes of one of them."""
    def f():
        e = eng()
        env = env_(version); w = env.w
        w.unique_uuids()
        ex = bool(e.choose(2, 'the entry exists'))
        r = Ref(env, want, by, ex)
        refs = [r]
        def other():
            o = Ref(env, want2, by2, bool(e.choose(2, 'the other entry exists')))
            e.assume(zs(o.piece.s) != zs(r.piece.s))
            refs.append(o)
            return o.piece
        pieces = [Piece('many', str_var('before'), other), r.piece, Piece('many', str_var('after'), other)]
        deref = nested(env, refs)
        got, exc = run(deref, RText(pieces))
        judge(env, got, exc, pieces, refs, 'resolving a text with any number of references')
        w.frame('resolving changes nothing')
    return f

def none(version):
    def f():
        e = eng()
        env = env_(version); w = env.w
        k = e.choose(3, 'nothing, empty, text without references')
        if k == 0:
            got, exc = run(env.kp.deref, None)
            e.decided(exc is None and got is None, 'nothing resolves to nothing', repr((got, exc)))
        elif k == 1:
            got, exc = run(env.kp.deref, '')
            e.decided(exc is None and got == '', 'the empty text resolves to itself', repr((got, exc)))
        else:
            p = text('text')
            got, exc = run(env.kp.deref, RText([p]))
            if e.decided(exc is None and isinstance(got, (str, SymStr)), 'a text without references can be resolved', repr(exc)): e.check(zs(got) == zs(p.s), 'a text without references is returned as it is')
        w.frame('resolving changes nothing')
    return f

def ref(version):
    def f():
        e = eng()
        env = env_(version); w = env.w
        w.unique_uuids()
        n = w.any('Entry', 'entry')
        e.assume(z3.Not(F_hist(n.z)))
        want = 'TUPANI'[e.choose(6, 'field')]
        u, exc = run(lambda: env.Entry(n).uuid)
        if exc is not None: return e.decided(True, 'the entry has no UUID')
        got, exc = run(env.Entry(n).ref, ATTRS[want])
        if not e.decided(exc is None and isinstance(got, SymStr), 'a reference can be made', repr((got, exc))): return
        low, up = u.hex, u.hex.upper()
        pre = z3.StringVal('{REF:%s@I:' % want)
        e.check(z3.Or([got.e == z3.Concat(pre, zs(h), z3.StringVal('}')) for h in (low, up)]), 'a reference names the field wanted and the UUID of the entry')
        w.frame('making a reference changes nothing')
        # resolving it gives the field
        r = Ref.__new__(Ref)
        r.done = set()
        r.env, r.want, r.by, r.u, r.val, r.E = env, want, 'I', u, up, n
        if want == 'I': r.value = up
        else:
            pres, s = n.string(KEYS[want]); nn, v = s.kids[1].tform()
            r.value = SymStr(z3.If(z3.And(pres, z3.Not(nn)), v, z3.StringVal('')))
        r.piece = Piece('ref', '{REF:%s@I:' % want + up + '}', ['{REF:%s@I:' % want, up, '}'])
        rtext.seen().append(r.piece)
        d = env.Entry(n).deref
        deref = nested(env, [r])
        res, exc = run(deref, RText([r.piece]))
        judge(env, res, exc, [r.piece], [r], 'resolving a reference made from a field')
    return f

def tasks(thorough):
    out = []
    for v in (4, 3):
        t = ' (KDBX %d)' % v
        if v == 4 or thorough:
            out += [Task('deref: one reference by %s%s' % (ATTRS[by], t), one(v, by)) for by in 'TUPANI']
            out += [Task('deref: two references (kinds %d)%s' % (k, t), several(v, 2, k)) for k in range(3)] + [Task('deref: three references' + t, several(v, 3))]
            out += [Task('deref: any number of references, one of them %s by %s%s' % (ATTRS[a], ATTRS[b], t), many(v, a, b, c, d)) for a, b, c, d in (('P', 'I', 'T', 'U'), ('A', 'U', 'U', 'I'), ('N', 'T', 'N', 'T'), ('I', 'N', 'A', 'P'), ('U', 'P', 'U', 'I'))]
        out += [Task('deref: no references' + t, none(v)), Task('ref' + t, ref(v))]
    return out
