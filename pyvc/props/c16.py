"""C16: contracts of identity, equality and hashing."""
import z3
from ..core import eng, mk_bool, SymBool, Unsupported, as_z3, axiom
from ..values import *
from .. import dom, libs, dtmod
from ..dtmod import SymDT, SymUUID, any_dt
from ..dom import F_tval, F_tnone
from ..kpmod import Env, run
from ..verify import Task
from ..bounded.c16 import *
from .c06 import element, check_parts
LEVEL = 'proof'
LEVEL_NOTE = ('Contracts of __eq__, __ne__, __hash__ and the uuid property discharged for arbitrary pairs of elements of an arbitrary document; uuid, base64, hash and lxml are assumed contracts. '
              'The same contracts are evaluated on the unmodified code.')
ASSUMPTIONS = ['documents follow the KDBX schema (dom.py): the UUID element holds the base64 of 16 bytes', 'hash() of equal tuples is equal and of different tuples arbitrary']

def uuid_node(n):
    x = n.slot('UUID')[1]
    axiom(z3.Not(F_tnone(x.z))); dom.uuid_text(F_tval(x.z))
    return x

def B_(x):
    """Formula of a truth value."""
    r = as_z3(x)
    return z3.BoolVal(r) if isinstance(r, bool) else r

def truth(x): return isinstance(x, (bool, SymBool))

def pair(kind, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        (n, a), (m, b) = element(env, kind), element(env, kind)
        same = F_tval(uuid_node(n).z) == F_tval(uuid_node(m).z)
        allow = []
        if kind == 'history':
            ta, tb = any_dt('ta'), any_dt('tb')
            a.mtime = ta
            if m is not n: b.mtime = tb
            ia, ib = a.mtime.instant, b.mtime.instant
            same = z3.And(same, zint(ia) == zint(ib))
            allow = [x.slot('Times')[1].slot('LastModificationTime')[1] for x in (n, m)]
        got, exc = run(lambda: a == b)
        if not e.decided(exc is None and truth(got), 'elements can be compared', repr((got, exc))): return
        e.check(B_(got) == same, 'elements are equal exactly when their %s the same' % ('UUIDs and modification times are' if kind == 'history' else 'UUIDs are'))
        got2, exc = run(lambda: a != b)
        e.decided(exc is None and truth(got2), 'elements can be compared for inequality', repr(exc))
        if exc is None: e.check(B_(got2) == z3.Not(same), 'inequality is the opposite of equality')
        ha, ea = run(a.__hash__); hb, eb = run(b.__hash__)
        if e.decided(ea is None and eb is None, 'elements can be hashed', repr((ea, eb))):
            r = ha == hb
            e.check(z3.Implies(same, B_(r)), 'equal elements hash alike')
        w.frame('comparing changes nothing', allow)
    return f

def current_history(version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        (n, a), (m, b) = element(env, 'entry'), element(env, 'history')
        uuid_node(n); uuid_node(m)
        b.mtime = any_dt('t')
        if n is not m: e.assume(z3.Not(dom.F_hist(n.z)))
        for x, y in ((a, b), (b, a)):
            got, exc = run(lambda: x == y)
            if e.decided(exc is None and truth(got), 'an entry and a history item can be compared', repr(exc)):
                e.check(z3.Not(B_(got)), 'a history item never equals a current entry')
    return f

def foreign(kind, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, a = element(env, kind)
        u = uuid_node(n)
        if kind == 'history': a.mtime = any_dt('t')
        others = [('None', None), ('number', 3), ('text', 'x'), ('uuid', a.uuid), ('element', a._element), ('object', object()), ('tuple', (a.uuid,)), ('list', []),
                  ('attachment', env.Attachment(None))]
        nm, x = others[e.choose(len(others), 'other object')]
        got, exc = run(lambda: a == x)
        e.decided(exc is None and (got is False or (isinstance(got, SymBool) and prov(~got))), 'comparison with a %s is False' % nm, repr((got, exc)))
        got, exc = run(lambda: a != x)
        e.decided(exc is None and (got is True or (isinstance(got, SymBool) and prov(got))), 'inequality with a %s is True' % nm, repr((got, exc)))
    return f

def uuid_rw(kind, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, a = element(env, kind)
        x = uuid_node(n)
        got, exc = run(lambda: a.uuid)
        if e.decided(exc is None and isinstance(got, SymUUID), 'uuid reads a UUID', repr((got, exc))):
            e.check(bterm(got.bytes) == libs.unb64text(F_tval(x.z)), 'uuid reads the stored bytes')
        w.frame('reading the uuid changes nothing')
        u = SymUUID(bytes_var('u', 16))
        _, exc = run(setattr, a, 'uuid', u)
        if not e.decided(exc is None, 'uuid can be set', repr(exc)): return
        fld = check_parts('uuid', n, None, x, None)
        if fld is None: return
        e.decided(fld.tag == 'UUID' and not fld._a and not fld.kids, 'uuid: stored in its element', repr(fld))
        w.frame('setting the uuid changes nothing else', [n] + ([x] if fld is x else []))
        got, exc = run(lambda: a.uuid)
        if e.decided(exc is None and isinstance(got, SymUUID), 'uuid reads a UUID after setting it', repr((got, exc))):
            e.check(got == u, 'uuid reads back what was written')
    return f

def tasks(thorough):
    out = []
    for v in (4, 3):
        for k in ('entry', 'history', 'group'):
            t = ' (%s, KDBX %d)' % (k, v)
            out += [Task('equality' + t, pair(k, v)), Task('other objects' + t, foreign(k, v)), Task('uuid' + t, uuid_rw(k, v))]
        out.append(Task('current and history (KDBX %d)' % v, current_history(v)))
    return out
