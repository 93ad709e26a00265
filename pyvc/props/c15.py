"""C15: contracts of the database settings and of credential ageing."""
import z3
from ..core import eng, mk_bool, SymBool, Unsupported, as_z3
from ..values import *
from .. import dom, libs, dtmod
from ..dtmod import SymDT, any_dt, US, DAY, MAXWALL, clocks
from ..kpmod import Env, run, Holder
from ..verify import Task
from .c12 import cred
from ..bounded.c15 import *
from .c06 import reads, rejected, is_text
from .c12 import check_instant
LEVEL = 'proof'
LEVEL_NOTE = ('Contracts of the database settings, the credential setters, the ageing predicates and the credentials handed to the writer by save() discharged for all values, dates, periods and clock readings; '
              'lxml, datetime and construct are assumed contracts. The same contracts are evaluated on the unmodified code, with saved files read by an independent reader.')
ASSUMPTIONS = ['documents follow the KDBX schema (dom.py)', 'instants at least two days inside the range of datetime']

def setting(attr, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        x = w.meta.slot(SET[attr])[1]
        none, val = x.tform()
        got = getattr(env.kp, attr)
        e.check(none if got is None else z3.And(z3.Not(none), zs(got) == val), attr + ' reads the stored value')
        w.frame(attr + ': reading changes nothing')
        v = str_var('value')
        _, exc = run(setattr, env.kp, attr, v)
        if exc is not None:
            e.check(z3.Not(dom.F_xmlok(v.e)), attr + ': a valid text is accepted', repr(exc))
            return
        e.check(reads(getattr(env.kp, attr), v), attr + ' reads back what was written')
        w.frame(attr + ': nothing else changes', [x])
        e.decided(not x.kids and not x._a, attr + ': only the text changes')
        creds(env, attr)
    return f

def creds(env, label):
    e = eng()
    e.decided(env.kp._password == 'pw' and env.kp._keyfile is None and env.kp.filename == 'file', label + ': credentials and file name are unchanged')

def days(attr, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        x = w.meta.slot(DAYS[attr])[1]
        d = int_var('days')
        _, exc = run(setattr, env.kp, attr, d)
        if not e.decided(exc is None, attr + ' can be set', repr(exc)): return
        got, exc = run(getattr, env.kp, attr)
        if e.decided(exc is None and isinstance(got, (int, SymInt)), attr + ' can be read', repr((got, exc))):
            e.check(zint(got) == zint(d), attr + ' reads back what was written')
        w.frame(attr + ': nothing else changes', [x])
        creds(env, attr)
    return f

def credentials(attr, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        x = w.meta.slot('MasterKeyChanged')[1]
        v = (str_var('new'), None)[e.choose(2, 'text or None')]
        k = len(clocks())
        _, exc = run(setattr, env.kp, attr, v)
        if not e.decided(exc is None, attr + ' can be set', repr(exc)): return
        cl = clocks()[k:]
        got = getattr(env.kp, attr)
        e.check(got is None if v is None else mk_bool(zs(got) == v.e) if isinstance(got, (str, SymStr)) else False, attr + ' reads back what was written')
        other = env.kp.keyfile if attr == 'password' else env.kp.password
        e.decided(other == (None if attr == 'password' else 'pw'), 'setting the %s leaves the other credential' % attr, repr(other))
        w.frame(attr + ': nothing but the change date changes', [x])
        if e.decided(bool(cl), 'changing the %s reads the clock' % attr):
            d, exc = run(getattr, env.kp, 'credchange_date')
            if e.decided(exc is None and isinstance(d, SymDT), 'credchange_date can be read', repr(exc)):
                lo = zint(cl[0]) if version == 3 else (zint(cl[0]) / US) * US
                e.check(z3.And(zint(d.instant) >= lo, zint(d.instant) <= zint(cl[-1])), 'changing the %s records the current time' % attr)
        # the next save uses the new credentials
        calls = []
        class K:
            @staticmethod
            def build_stream(obj, stream, **k): calls.append((obj, stream, k))
            @staticmethod
            def build_file(obj, path, **k): raise Unsupported('build_file')
            @staticmethod
            def build(obj, **k): calls.append((obj, None, k)); return b''
        env.m.KDBX = K
        stream = Holder(write=lambda b: None)
        _, exc = run(env.kp.save, stream)
        if not calls:
            if exc is not None: e.decided(False, 'save after a credential change succeeds', repr(exc))
            raise Unsupported('save does not call KDBX.build_stream')
        e.decided(exc is None, 'save after a credential change succeeds', repr(exc))
        for obj, s, k in calls:
            e.decided(obj is env.kp.kdbx, 'the database itself is saved')
            pw, kf = k.get('password'), k.get('keyfile')
            wpw, wkf = (v, None) if attr == 'password' else ('pw', v)
            for got, want, nm in ((pw, wpw, 'password'), (kf, wkf, 'keyfile')):
                e.check(got is None if want is None else (mk_bool(zs(got) == zs(want)) if isinstance(got, (str, SymStr)) else False), 'save uses the current ' + nm)
            e.decided(k.get('transformed_key') is None, 'save derives the key from the credentials')
    return f

def ageing(attr, dattr, version):
    def f():
        e = eng()
        env = Env(version); w = env.w
        x = w.meta.slot('MasterKeyChanged')[1]
        t = any_dt('changed', lo=2 * DAY, hi=MAXWALL - 2 * DAY)
        env.kp.credchange_date = t
        inst = env.kp.credchange_date.instant
        d = int_var('days', -1, 10 ** 7)
        setattr(env.kp, dattr, d)
        h = w.snapshot()
        k = len(clocks())
        got, exc = run(getattr, env.kp, attr)
        if not e.decided(exc is None and isinstance(got, (bool, SymBool)), attr + ' is a truth value', repr((got, exc))): return
        g = as_z3(got)
        g = z3.BoolVal(g) if isinstance(g, bool) else g
        cl = clocks()[k:]
        off = zint(d) == -1
        if not cl:
            e.check(z3.And(off, z3.Not(g)), attr + ' is false without looking at the clock only when the period is disabled')
            return
        age = lambda now: (zint(now) - zint(inst)) / DAY
        e.check(z3.Implies(g, z3.And(z3.Not(off), age(cl[-1]) > zint(d))), attr + ' only when more than the period has passed and it is not disabled')
        e.check(z3.Implies(z3.And(z3.Not(off), age(cl[0]) > zint(d)), g), attr + ' whenever more than the period has passed and it is not disabled')
        e.decided(not w.changed_since(h), attr + ': reading changes nothing')
    return f

def unset(attr, dattr, version, tag):
    """A database that does not have the setting: no credential change is called for."""
    def f():
        e = eng()
        env = Env(version); w = env.w
        if tag == 'MasterKeyChanged': setattr(env.kp, dattr, int_var('days', -1, 10 ** 7))
        else: env.kp.credchange_date = any_dt('changed', lo=2 * DAY, hi=MAXWALL - 2 * DAY)
        w.meta.remove(w.meta.slot(tag)[1])
        h = w.snapshot()
        if tag != 'MasterKeyChanged':
            got, exc = run(getattr, env.kp, dattr)
            e.decided(exc is None and got is None, dattr + ' is None without the setting', repr((got, exc)))
        got, exc = run(getattr, env.kp, attr)
        if not e.decided(exc is None and isinstance(got, (bool, SymBool)), attr + ' is a truth value without ' + tag, repr((got, exc))): return
        e.check(z3.Not(as_z3(got)) if isinstance(got, SymBool) else not got, attr + ' is false without ' + tag)
        e.decided(not w.changed_since(h), attr + ': reading changes nothing')
    return f

def tasks(thorough):
    out = []
    for v in (4, 3):
        t = ' (KDBX %d)' % v
        for a in SET: out.append(Task(a + t, setting(a, v)))
        out.append(Task('credchange_date' + t, cred(v)))
        for a in DAYS: out.append(Task(a + t, days(a, v)))
        for a in ('password', 'keyfile'): out.append(Task(a + t, credentials(a, v)))
        for a, d in (('credchange_required', 'credchange_required_days'), ('credchange_recommended', 'credchange_recommended_days')): 
            out.append(Task(a + t, ageing(a, d, v)))
            for tag in ('MasterKeyChangeForce' if 'req' in a else 'MasterKeyChangeRec', 'MasterKeyChanged'): out.append(Task(a + ' without ' + tag + t, unset(a, d, v, tag)))
    return out
