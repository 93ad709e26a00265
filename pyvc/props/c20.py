"""C20: creating and reloading databases."""
import z3
from .. import libs, grammar, xmlseq, fmt, fsmod, kpmod, dtmod, dom, hooks
from ..core import eng, Unsupported, mk_bool, SymBool, axiom
from ..values import *
from ..verify import Task
from ..bounded.c20 import *
from ..kpmod import Holder

LEVEL = 'proof'
LEVEL_NOTE = 'create_database, read, reload, save and the credential setters are executed; the file format enters by its contract (C01 to C04); the template of new databases is one constant file and is evaluated as such.'
ASSUMPTIONS = [
    'file format contract (decided by C01 to C04): what KDBX.build writes under (password, key file, transformed key) is parsed back by KDBX.parse with the same credentials and refused with others',
    'different credentials give different keys (C03; SHA-256 collisions and the documented equality of key files with equal key material are left out)',
    'the target is not the template file of the installed package; file system contract as in C05',
    'reload is specified for a database whose credentials in memory are those it was last saved under',
]

def same_value(a, b):
    if a is b: return True
    if a is None or b is None: return False
    if isinstance(a, fsmod.Path) or isinstance(b, fsmod.Path):
        try: a, b = fsmod.name_of(a), fsmod.name_of(b)
        except TypeError: return False
    if type(a) is not type(b) and not (isinstance(a, (bytes, SymBytes)) and isinstance(b, (bytes, SymBytes))) and not (isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr))): return False
    r = a == b
    return r if isinstance(r, bool) else prov(r) if isinstance(r, SymBool) else False

class Rec:
    """One file the grammar has written: content and credentials."""
    def __init__(self, i, content, cred): self.token, self.content, self.cred = bytes_var('file%d' % i), content, cred

def setup(con):
    """The file format by its contract."""
    class Format(con.Construct):
        def __init__(self):
            super().__init__()
            self.recs, self.opened = [], []
            self.snap = lambda obj: obj
            self.fresh = lambda rec: rec.content
        def rec(self, content, cred):
            r = Rec(len(self.recs), content, cred)
            self.recs.append(r)
            return r
        def cred(self, context): return {k: context.get(k) for k in ('password', 'keyfile', 'transformed_key')}
        def _build(self, obj, stream, context, path):
            if context.get('decrypt') is not True: raise Unsupported('saving without encryption')
            r = self.rec(self.snap(obj), self.cred(context))
            r.obj = obj
            stream.write(r.token)
            return obj
        def _parse(self, stream, context, path):
            data = SymBytes.of(stream.read())
            for r in self.recs:
                if len(data.parts) == len(r.token.parts) and fsmod_same(data, r.token):
                    c = self.cred(context)
                    ok = same_value(c['transformed_key'], r.cred['transformed_key']) if c['transformed_key'] is not None or r.cred['transformed_key'] is not None else \
                        same_value(c['password'], r.cred['password']) and same_value(c['keyfile'], r.cred['keyfile'])
                    if not ok: raise con.ChecksumError('wrong checksum', path='(parsing) -> body -> cred_check')
                    o = self.fresh(r)
                    self.opened.append((r, c, o))
                    return o
            raise con.StreamError('not a database', path='(parsing)')
    return Format()
def fsmod_same(a, b):
    r = a == b
    return r if isinstance(r, bool) else prov(r)

def load(mods):
    m = {'datetime': dtmod.datetime_mod, 'uuid': dtmod.uuid_mod}
    m.update(mods)
    m.update(fsmod.MODS)
    sh = grammar.shadow(m, {'open': fsmod.vopen, 'next': kpmod.vnext})
    con = sh.load('construct')
    f = setup(con)
    sh.load('pykeepass')
    k = sh.load('pykeepass.kdbx_parsing')
    k.KDBX, k.kdf_uuids = f, kpmod.KDF_UUIDS
    return sh, con, f, sh.load('pykeepass.pykeepass')

DOM = {'lxml': kpmod.lxml_mod, 'lxml.etree': kpmod.etree_mod, 'lxml.builder': kpmod.builder_mod, 'lxml.objectify': kpmod.objectify_mod, 'copy': kpmod.copy_mod}
VIEW = {'lxml.builder': kpmod.builder_mod, 'lxml.objectify': kpmod.objectify_mod}

def check_cred(what, got, want):
    e = eng()
    for k in want: e.decided(same_value(got[k], want[k]), '%s: under the given %s' % (what, k.replace('_', ' ')), repr((got[k], want[k])))

def credentials(kind):
    c = dict(password=None, keyfile=None, transformed_key=None)
    if 'password' in kind: c['password'] = str_var('password')
    if 'keyfile' in kind: c['keyfile'] = (str_var('keyfile_path'), fsmod.Path(str_var('keyfile_path')), grammar.BytesIO(bytes_var('keyfile_bytes')))[eng().choose(3, 'kind of key file')]
    if 'transformed' in kind: c['transformed_key'] = bytes_var('transformed_key', 32)
    return c

def create(kind, where):
    """The real create_database: content, place and credentials of what it writes and of what it returns."""
    def fn():
        e = eng()
        w = dom.World(4)
        sh, con, f, m = load(DOM)
        fs = fsmod.FS()
        obj = con.Container(header=con.Container(value=con.Container(major_version=4, minor_version=0)), body=con.Container(payload=con.Container(xml=w.tree, inner_header=con.Container(binary=con.ListContainer([])))))
        blank = f.rec(obj, dict(password='password', keyfile=None, transformed_key=None))
        loc, pw = m.BLANK_DATABASE_LOCATION, m.BLANK_DATABASE_PASSWORD
        if not isinstance(loc, str): loc = fsmod.name_of(loc)
        blank.cred['password'] = pw
        fs.put(loc, blank.token)
        f.snap = lambda o: w.snapshot()
        cred = credentials(kind)
        old = None
        if where == 'stream': target = place = grammar.BytesIO()
        else:
            place = str_var('path')
            e.assume(mk_bool(z3.And(z3.Length(place.e) > 0, place.e != z3.StringVal(loc), place.e + z3.StringVal('.tmp') != z3.StringVal(loc))))
            target = fsmod.Path(place) if where == 'Path' else place
            if e.choose(2, 'a file exists') == 1: fs.put(place, bytes_var('previous_content'))
        kw = {k: v for k, v in cred.items() if v is not None}
        if not kw or e.choose(2, 'all arguments') == 1: kw = cred
        kp, exc = fmt.call(m.create_database, target, **kw)
        if not e.decided(exc is None, 'a database can be created', exc and fmt.describe(exc)): return
        data = target.getvalue() if where == 'stream' else fs.content(place)
        made = [r for r in f.recs[1:] if data is not None and fsmod_same(SymBytes.of(data), r.token)]
        if not e.decided(len(made) == 1, 'the place given holds a complete database'): return
        r = made[0]
        if not e.decided(r.obj is obj, 'the database written is the empty template'): return
        check_cred('the new database is written', r.cred, cred)
        e.check(fs.content(loc) is not None and SymBytes.of(fs.content(loc)) == blank.token, 'the template of new databases is not touched')
        names = [x[0] for x in fs.ents if not (x[0] == loc if isinstance(x[0], str) else fsmod.eqname(x[0], place) if where != 'stream' else False)]
        e.decided(not names, 'no other file is created', repr(names))
        e.decided(isinstance(kp, m.PyKeePass), 'the database is returned')
        w.frame('the content is the template\'s, apart from the date of the last credential change', [w.meta.slot('MasterKeyChanged')[1]])
        e.decided(kp.kdbx is obj and kp.kdbx.body.payload.xml is w.tree and kp.kdbx.header.value.major_version == 4 and not list(kp.kdbx.body.payload.inner_header.binary), 'the returned object is the database created')
        e.decided(not w.changed_since(r.content), 'the returned object has the content that was written')
        e.decided(same_value(kp.password, cred['password']) and same_value(kp.keyfile, cred['keyfile']), 'the returned object has the given password and key file')
        e.decided(kp.filename is target or where != 'stream' and same_value(fsmod.name_of(kp.filename), place), 'the returned object saves to the same place')
        # the next save
        if where == 'stream': target.seek(0); target.truncate()
        _, exc = fmt.call(kp.save)
        if not e.decided(exc is None, 'the returned object can be saved', exc and fmt.describe(exc)): return
        data = target.getvalue() if where == 'stream' else fs.content(place)
        again = [x for x in f.recs[1:] if x is not r and data is not None and fsmod_same(SymBytes.of(data), x.token)]
        if e.decided(len(again) == 1, 'the returned object saves to the same place'):
            check_cred('the returned object is saved', again[0].cred, dict(cred, transformed_key=None))
        # opening it
        if where == 'stream': target.seek(0)
        k2, exc = fmt.call(m.PyKeePass, target, **{k: v for k, v in cred.items() if k != 'transformed_key'})
        e.decided(exc is None, 'the saved database opens with its credentials', exc and fmt.describe(exc))
    return fn

def template():
    """The template is one constant file: evaluated with an independent reader of the format."""
    import os
    e = eng()
    sh, con, f, m = load(DOM)
    loc, pw = m.BLANK_DATABASE_LOCATION, m.BLANK_DATABASE_PASSWORD
    libs.assumed('the template of new databases is evaluated by an independent reader of the format (pyvc/ref_kdbx.py, real hash and cipher libraries)')
    try:
        with open(str(loc), 'rb') as fh: data = fh.read()
        db = R.read(data, pw, None)
    except Exception as ex:
        e.decided(False, 'the template opens with its password', '%s %s' % (type(ex).__name__, ex)); return
    e.decided(True, 'the template opens with its password')
    e.decided(db.version == 4, 'the template is a KDBX 4 file')
    root = cx.mirror(db.root)
    e.decided(not [n for n in root.iter() if n.tag == 'Entry'] and not db.binaries, 'the template holds no entry and no attachment')
    e.decided(len([n for n in root.find('Root').iter() if n.tag == 'Group']) == 1, 'the template holds no group but the root')

def reaches(x, bad, depth=5, seen=None):
    """Does x refer to one of the discarded objects?"""
    seen = set() if seen is None else seen
    if any(x is b for b in bad): return True
    if depth == 0 or id(x) in seen or isinstance(x, (str, bytes, int, bool, type(None), SymStr, SymBytes, SymInt)): return False
    seen.add(id(x))
    if isinstance(x, dict): return any(reaches(v, bad, depth - 1, seen) for v in x.values())
    if isinstance(x, (list, tuple, set)): return any(reaches(v, bad, depth - 1, seen) for v in x)
    d = getattr(x, '__dict__', None)
    return bool(d) and any(reaches(v, bad, depth - 1, seen) for v in d.values())

def reload_task(kind, path_kind, steps):
    """read, save, a change in memory, reload: the content last saved."""
    def fn():
        e = eng()
        sh, con, f, m = load(VIEW)
        fs = fsmod.FS()
        xmlseq.PLAIN.clear()
        n = [0]
        def doc(base):
            n[0] += 1
            t = xmlseq.VTree(base, str_var('text%d' % n[0]))
            return t
        def database(base, text):
            t = xmlseq.VTree(base, text)
            return con.Container(header=con.Container(value=con.Container(major_version=4, minor_version=0)), body=con.Container(payload=con.Container(xml=t, inner_header=con.Container(binary=con.ListContainer([])))))
        f.snap = lambda o: (o.body.payload.xml.base, o.body.payload.xml.x._t)
        f.fresh = lambda r: database(*r.content)
        cred = credentials(kind)
        base = bytes_var('document')
        t0, t1, t2 = (str_var('text%d' % i) for i in range(3))
        for t in (t0, t1, t2): e.assume(dom.F_xmlok(t.e))
        first = f.rec((base, t0), dict(cred))
        p = str_var('path')
        e.assume(mk_bool(z3.Length(p.e) > 0))
        fs.put(p, first.token)
        kp, exc = fmt.call(m.PyKeePass, fsmod.Path(p) if path_kind == 'Path' else p, **{k: v for k, v in cred.items() if v is not None})
        if not e.decided(exc is None, 'the database opens with its credentials', exc and fmt.describe(exc)): return
        want = t0
        old = [kp.kdbx, kp.kdbx.body, kp.kdbx.body.payload, kp.kdbx.body.payload.xml]
        e.decided(kp.tree is old[3], 'the document is the one read')
        if 'save' in steps:
            old[3].x._t = t1
            _, exc = fmt.call(kp.save)
            if not e.decided(exc is None, 'the database can be saved', exc and fmt.describe(exc)): return
            want = t1
        if 'elsewhere' in steps:
            old[3].x._t = t2
            q = str_var('other_path')
            e.assume(mk_bool(z3.And(z3.Length(q.e) > 0, q.e != p.e, q.e + z3.StringVal('.tmp') != p.e, p.e + z3.StringVal('.tmp') != q.e)))
            _, exc = fmt.call(kp.save, q)
            if not e.decided(exc is None, 'the database can be saved elsewhere', exc and fmt.describe(exc)): return
        if 'newcred' in steps:
            kp._password = cred['password'] = str_var('new_password')
            old[3].x._t = t1
            _, exc = fmt.call(kp.save)
            if not e.decided(exc is None, 'the database can be saved', exc and fmt.describe(exc)): return
            want = t1
        old[3].x._t = str_var('later')
        for _ in (0, 1):
            _, exc = fmt.call(kp.reload)
            if not e.decided(exc is None, 'the database can be reloaded', exc and fmt.describe(exc)): return
            t = kp.tree
            e.decided(isinstance(t, xmlseq.VTree) and t is not old[3] and kp.kdbx is not old[0] and kp.kdbx.body.payload.xml is t, 'later changes are discarded')
            e.check(t.x._t == want, 'the content is the one last saved there')
            e.decided(not reaches(vars(kp), old), 'nothing of the discarded content is kept')
            e.decided(same_value(kp.password, cred['password']) and same_value(kp.keyfile, cred['keyfile']), 'the credentials stay')
            e.decided(same_value(fsmod.name_of(kp.filename), p), 'the path stays')
            e.decided(f.opened[-1][2] is kp.kdbx, 'the content is read from the file')
            old += [kp.kdbx, kp.kdbx.body, kp.kdbx.body.payload, t]
            t.x._t = str_var('later2')
        e.check(SymBytes.of(fs.content(p)) == [r for r in f.recs if fsmod_same(SymBytes.of(fs.content(p)), r.token)][0].token, 'reloading leaves the file')
    return fn

KINDS = ['none', 'password', 'keyfile', 'password+keyfile', 'transformed', 'password+transformed', 'password+keyfile+transformed']

def tasks(thorough):
    out = [Task('template of new databases', template)]
    for k in KINDS:
        for w in ('path', 'Path', 'stream'): out.append(Task('create: %s, credentials: %s' % (w, k), create(k, w)))
    for k in ('password', 'keyfile', 'password+keyfile'):
        for pk in ('path', 'Path'):
            for s in ((), ('save',), ('save', 'elsewhere'), ('newcred',)): out.append(Task('reload: %s, credentials: %s, after %s' % (pk, k, ' and '.join(s) or 'opening'), reload_task(k, pk, s)))
    return out
