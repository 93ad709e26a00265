"""C12: contracts of the time functions."""
import z3
from ..core import eng, mk_bool, SymBool, Unsupported, as_z3
from ..values import *
from .. import dom, libs, dtmod
from ..dtmod import SymDT, any_dt, US, DAY, MAXWALL, iso_text, clocks
from ..kpmod import Env, run
from ..verify import Task
from ..bounded.c12 import *
from .c06 import element
LEVEL = 'proof'
LEVEL_NOTE = ('Contracts of the time getters and setters, _encode_time, _decode_time, expires, expired and touch discharged for every instant, UTC offset, document and clock reading, in both formats; '
              'datetime, struct, base64 and lxml are assumed contracts. The same contracts are evaluated on the unmodified code.')
ASSUMPTIONS = ['instants at least one day inside the range of datetime', 'documents follow the KDBX schema (dom.py)', 'datetime.total_seconds() is exact (its float rounding apart)']

def is_utc(d): return isinstance(d, SymDT) and d.tzinfo is not None and prov(mk_bool(zint(d.tzinfo.off) == 0))

def check_instant(label, got, inst, version):
    e = eng()
    if not e.decided(isinstance(got, SymDT) and is_utc(got), label + ' reads as a UTC time', repr(got)): return
    d = zint(got.instant) - zint(inst)
    if version == 4: e.check(z3.And(d > -US, d < US, zint(got.instant) % US == 0), label + ' reads the same instant, to whole seconds')
    else: e.check(d == 0, label + ' reads the same instant')

def times_node(n, tag): return n.slot('Times')[1].slot(tag)[1]

def setter(kind, attr, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = element(env, kind)
        x = times_node(n, PROPS[attr])
        t = any_dt('t')
        _, exc = run(setattr, obj, attr, t)
        if not e.decided(exc is None, attr + ' can be set', repr(exc)): return
        w.frame(attr + ': nothing else changes', [x])
        e.decided(not x.kids and not x._a, attr + ': only the text changes')
        got, exc = run(getattr, obj, attr)
        if e.decided(exc is None, attr + ' can be read', repr(exc)): check_instant(attr, got, t.instant, version)
        w.frame(attr + ': nothing else changes by reading', [x])
    return f

def cred(version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        x = w.meta.slot('MasterKeyChanged')[1]
        t = any_dt('t')
        _, exc = run(setattr, env.kp, 'credchange_date', t)
        if not e.decided(exc is None, 'credchange_date can be set', repr(exc)): return
        w.frame('credchange_date: nothing else changes', [x])
        got, exc = run(getattr, env.kp, 'credchange_date')
        if e.decided(exc is None, 'credchange_date can be read', repr(exc)): check_instant('credchange_date', got, t.instant, version)
    return f

def plain(version, where):
    """Texts of other programs."""
    def f():
        e = eng()
        env = Env(version); w = env.w
        if where == 'cred': x, get = w.meta.slot('MasterKeyChanged')[1], lambda: env.kp.credchange_date
        else:
            n, obj = element(env, where[0])
            x, get = times_node(n, PROPS[where[1]]), lambda: getattr(obj, where[1])
        wall = int_var('wall', 2 * DAY, MAXWALL - 2 * DAY)
        k = e.choose(3, 'no offset, Z, offset')
        off = int_var('offset', -DAY + 1, DAY - 1)
        x._t = iso_text(wall, ('', 'Z', off)[k])
        inst = wall if k < 2 else wall - off
        got, exc = run(get)
        if not e.decided(exc is None, 'plaintext time can be read', repr(exc)): return
        if e.decided(isinstance(got, SymDT) and is_utc(got), 'plaintext time reads as a UTC time', repr(got)):
            e.check(zint(got.instant) == zint(inst), 'plaintext time (%s) reads as the instant it denotes' % ('no offset', 'Z', 'offset')[k])
        w.frame('reading a time changes nothing', [x])
    return f

def absent(kind, attr, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = element(env, kind)
        x = times_node(n, PROPS[attr]); x._t = None
        got, exc = run(getattr, obj, attr)
        e.decided(exc is None and got is None, 'an absent time reads as None', repr((got, exc)))
    return f

def expiry(kind, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = element(env, kind)
        x = times_node(n, 'ExpiryTime'); ex = times_node(n, 'Expires')
        plainform = e.choose(2, 'expiry written by us, or plaintext')
        if plainform:
            wall = int_var('wall', 2 * DAY, MAXWALL - 2 * DAY)
            x._t = iso_text(wall, 'Z'); inst = wall
        else:
            t = any_dt('t', lo=2 * DAY, hi=MAXWALL - 2 * DAY)
            obj.expiry_time = t
            inst = t.instant
            if version == 4: inst = obj.expiry_time.instant
        none, val = ex.tform()
        marked = z3.And(z3.Not(none), val == z3.StringVal('True'))
        before = len(clocks())
        got, exc = run(getattr, obj, 'expired')
        if not e.decided(exc is None, 'expired can be read', repr(exc)): return
        cl = clocks()[before:]
        g = as_z3(got) if isinstance(got, (bool, SymBool)) else None
        if g is None:
            if not e.decided(got is None, 'expired is a truth value', repr(got)): return
            g = False
        if isinstance(g, bool): g = z3.BoolVal(g)
        if not cl:
            e.check(z3.Not(g) == z3.Not(z3.And(marked, z3.BoolVal(False))), 'expired is False unless marked as expiring, or the clock is read')
            e.check(z3.Not(marked), 'an element marked as expiring is compared with the clock')
            return
        e.check(z3.Implies(g, z3.And(marked, zint(cl[-1]) >= zint(inst))), 'expired only when marked and the expiry instant has passed')
        e.check(z3.Implies(z3.And(marked, zint(cl[0]) > zint(inst)), g), 'expired whenever marked and the expiry instant has passed')
        w.frame('reading expired changes nothing', [x])
    return f

def expires(kind, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = element(env, kind)
        x = times_node(n, 'Expires')
        none, val = x.tform()
        got = obj.expires
        e.check(none if got is None else (as_z3(got) if not isinstance(got, bool) else z3.BoolVal(got)) == z3.And(z3.Not(none), val == z3.StringVal('True')), 'expires reads the mark')
        v = bool(e.choose(2, 'expires'))
        obj.expires = v
        got = obj.expires
        e.check(got if isinstance(got, bool) and v else mk_bool((as_z3(got) if not isinstance(got, bool) else z3.BoolVal(got)) == z3.BoolVal(v)), 'expires reads back what was written')
        w.frame('expires: nothing else changes', [x])
    return f

def touch(kind, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        n, obj = element(env, kind)
        mod = bool(e.choose(2, 'modify'))
        k = len(clocks())
        _, exc = run(obj.touch, modify=True) if mod else run(obj.touch)
        if not e.decided(exc is None, 'touch succeeds', repr(exc)): return
        cl = clocks()[k:]
        if not e.decided(bool(cl), 'touch reads the clock'): return
        at, mt = times_node(n, 'LastAccessTime'), times_node(n, 'LastModificationTime')
        w.frame('touch sets only the access time%s' % (' and the modification time' if mod else ''), [at] + ([mt] if mod else []))
        for a in ['atime'] + (['mtime'] if mod else []):
            got, exc = run(getattr, obj, a)
            if not e.decided(exc is None and isinstance(got, SymDT), a + ' can be read', repr(exc)): continue
            lo = zint(cl[0]) if version == 3 else (zint(cl[0]) / US) * US
            e.check(z3.And(zint(got.instant) >= lo, zint(got.instant) <= zint(cl[-1])), 'touch sets %s to now' % a)
    return f

def tasks(thorough):
    out = []
    for v in (4, 3):
        for kind in ('entry', 'history', 'group'):
            t = ' (%s, KDBX %d)' % (kind, v)
            for a in PROPS:
                out.append(Task(a + t, setter(kind, a, v)))
                out.append(Task('plaintext ' + a + t, plain(v, (kind, a))))
                out.append(Task('absent ' + a + t, absent(kind, a, v)))
            out += [Task('expired' + t, expiry(kind, v)), Task('expires' + t, expires(kind, v)), Task('touch' + t, touch(kind, v))]
        out += [Task('credchange_date (KDBX %d)' % v, cred(v)), Task('plaintext credchange_date (KDBX %d)' % v, plain(v, 'cred'))]
    return out
