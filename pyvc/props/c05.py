"""C05: saving to a path is all or nothing."""
import z3
from .. import libs, grammar, xmlseq, runs, fmt, fsmod
from ..core import eng, Unsupported, mk_bool, SymBool, axiom, PathEnd
from ..values import *
from ..verify import Task
from ..bounded.c05 import *
from .c01 import value_eq

LEVEL = 'proof'
LEVEL_NOTE = 'Every file-system event of the real save(), with a failure or the death of the process at each of them; the target, its previous content, the other file and the written content are arbitrary.'
ASSUMPTIONS = [
    'file system contract: opening for writing truncates or creates, a write changes only the file written to, remove and rename (shutil.move to a name that is not a directory, on the same device) are atomic; names are in normal form, so that equal files have equal names',
    'a failing file operation has no effect of its own; at most one operation fails during one save, and removing a file does not fail',
    'contract tasks: building the content is any sequence of writes to the stream it is given, ending normally or with any exception (the real grammar is executed in the tasks named "real grammar", with the content of one arbitrary database per version)',
    'exceptions outside Exception (KeyboardInterrupt, SystemExit) count as the process dying: the target is intact, the temporary file may stay',
]

class Injected(Exception):
    """Any exception that is not an OSError."""

class Volume:
    """A file system with the target, an arbitrary other file, and at most one failure."""
    def __init__(self, target, exists, failing=True):
        e = eng()
        self.fs = fsmod.FS()
        self.target, self.exists = target, exists
        self.old = bytes_var('previous_content') if exists else None
        if exists: self.fs.put(target, self.old)
        self.other = str_var('other_path')
        self.other_content = bytes_var('other_content')
        e.assume(mk_bool(self.other.e != zs(target)))
        self.fs.put(self.other, self.other_content)
        self.failure = None
        self.failing = failing
        self.count = {}
        self.own = None             # the save's own temporary file
        self.fs.on_before, self.fs.on_after = self.before, self.after
        self.new = None             # complete new content, once known
    def is_target(self, n): return fsmod.eqname(n, self.target)
    def before(self, kind, name):
        e = eng()
        self.count[kind] = self.count.get(kind, 0) + 1
        if kind != 'remove' and self.failing and (self.failing == True or (kind, self.count[kind]) in self.failing) and self.failure is None and e.choose(2, 'fails') == 1:
            self.failure = OSError(28, 'no space left on device') if kind != 'open' else PermissionError(13, 'denied')
            raise self.failure
        if not self.is_target(name) and self.own is None: self.own = name
    def is_own(self, n): return self.own is not None and fsmod.eqname(n, self.own)
    def complete(self, c):
        n = self.new and self.new()
        return n is not None and c is not None and fsmod_eq(c, n)
    def after(self, kind, name):
        """What a process that dies here leaves behind."""
        e = eng()
        what = 'if the process dies after %s: ' % kind
        c = self.fs.content(self.target)
        if not self.complete(c):
            if self.exists: e.check(c is not None and same_bytes(c, self.old), what + 'the target holds its previous bytes or the complete new database')
            else: e.decided(c is None, what + 'the target does not exist or holds the complete new database')
        self.others(what)
    def others(self, what):
        e = eng()
        if not self.is_own(self.other):
            c = self.fs.content(self.other)
            e.check(c is not None and same_bytes(c, self.other_content), what + 'every other file holds its previous bytes')
    def finish(self, exc, new):
        e = eng()
        if self.failure is not None:
            chain, x = [], exc
            while x is not None and len(chain) < 8: chain.append(x); x = x.__cause__ or x.__context__
            e.decided(self.failure in chain, 'the failure reaches the caller', repr(exc))
        else: e.decided(exc is None, 'a save in which nothing fails succeeds', exc and fmt.describe(exc))
        c = self.fs.content(self.target)
        if exc is None: e.check(c is not None and same_bytes(c, new()), 'after a successful save the path holds the complete new database')
        elif self.exists: e.check(c is not None and same_bytes(c, self.old), 'after a failed save the path holds its previous bytes')
        else: e.decided(c is None, 'after a failed save there is no file at the path')
        self.others('after the save ')
        left = [x[0] for x in self.fs.ents if not (x[0] is self.other or self.is_target(x[0]) or x[0] is self.other)]
        e.decided(not left, 'no temporary file is left behind', repr(left))

def fsmod_eq(a, b):
    r = same_bytes(a, b)
    return r if isinstance(r, bool) else prov(r)
def same_bytes(a, b):
    if a is b: return True
    if isinstance(a, bytes) and isinstance(b, bytes): return a == b
    return SymBytes.of(a) == SymBytes.of(b)

def snapshot(x):
    """The in-memory content."""
    if isinstance(x, dict): return dict((k, snapshot(v)) for k, v in x.items() if k not in ('_io', '_subcons', '_index'))
    if isinstance(x, list): return [snapshot(v) for v in x]
    if isinstance(x, xmlseq.VTree): return ('tree', x, x.x._t, list(x.x.writes))
    return x
def unchanged(a, b, path=''):
    """None, or where two snapshots differ."""
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b): return path + ': other keys'
        for k in a:
            d = unchanged(a[k], b[k], path + '/' + str(k))
            if d: return d
        return None
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b): return path + ': other length'
        for i, (x, y) in enumerate(zip(a, b)):
            d = unchanged(x, y, path + '[%d]' % i)
            if d: return d
        return None
    if isinstance(a, tuple): return None if isinstance(b, tuple) and a[1] is b[1] and a[3] == b[3] and (a[2] is b[2] or fmt_same(a[2], b[2])) else path + ': the document'
    if a is b: return None
    if type(a) is not type(b) and not (isinstance(a, (bytes, SymBytes)) and isinstance(b, (bytes, SymBytes))): return path
    try: r = value_eq(a, b)
    except (Unsupported, TypeError): return path
    if isinstance(r, bool): return None if r else path
    return None if prov(r) else path
def fmt_same(a, b):
    if a is None or b is None: return False
    r = a == b
    return r if isinstance(r, bool) else prov(r)

KINDS = ['own path', 'own path (Path)', 'other path', 'other path (Path)']

class Credential:
    """A value the save has to leave alone."""

def contract_save(kind, exists):
    """The real save() and construct's build_file/build_stream; the grammar by its contract."""
    def fn():
        e = eng()
        sh, m = fmt.stack()
        con = sh.load('construct')
        chunks = [bytes_var('content%d' % i) for i in range(2)]
        state = {}
        class Content(con.Construct):
            def _build(self, obj, stream, context, path):
                state['stream'] = True
                if vol.failing and vol.failure is None and e.choose(2, 'building fails at once') == 1: self.stop()
                for c in chunks:
                    stream.write(c)
                    if vol.failing and vol.failure is None and e.choose(2, 'building fails') == 1: self.stop()
                state['args'] = (obj, context)
                return obj
            def stop(self):
                vol.failure = Injected('building fails')
                raise vol.failure
        new = lambda: SymBytes.of(chunks[0]) + chunks[1]
        m.KDBX = Content()
        kp, target, arg = target_of(m, kind)
        kp.kdbx = obj = con.Container(header=con.Container(value=1))
        vol = Volume(target, exists)
        vol.new = new
        run_save(kp, vol, arg, new, state)
        if 'args' in state:
            o, c = state['args']
            e.decided(o is obj and c.get('password') is kp._password and c.get('keyfile') is kp._keyfile and c.get('decrypt') is True, 'the database in memory is what is written, under its credentials')
    return fn

def target_of(m, kind):
    e = eng()
    kp = object.__new__(m.PyKeePass)
    kp._password, kp._keyfile = str_var('password'), None
    p1 = str_var('path1')
    e.assume(mk_bool(z3.Length(p1.e) > 0))
    arg = None
    target = p1
    if kind.startswith('other'):
        target = arg = str_var('path2')
        e.assume(mk_bool(z3.Length(arg.e) > 0))
    kp.filename = p1
    if kind.endswith('(Path)'):
        if arg is None: kp.filename = fsmod.Path(p1)
        else: arg = fsmod.Path(arg)
    return kp, target, arg

def run_save(kp, vol, arg, new, state):
    e = eng()
    name, kd, creds = kp.filename, kp.kdbx, (kp._password, kp._keyfile)
    snap = snapshot(kd)
    _, exc = fmt.call(kp.save, *([] if arg is None else [arg]))
    vol.finish(exc, new)
    e.decided(kp.filename is name, 'the name under which the database will be saved next is unchanged')
    e.decided((kp._password, kp._keyfile) == creds if False else kp._password is creds[0] and kp._keyfile is creds[1], 'the credentials are unchanged')
    d = 'another object' if kp.kdbx is not kd else unchanged(snap, snapshot(kd))
    e.decided(d is None, 'saving does not change the content in memory', d)

def contract_stream(own):
    """Saving to a stream: the content, no file touched."""
    def fn():
        e = eng()
        sh, m = fmt.stack()
        con = sh.load('construct')
        chunks = [bytes_var('content%d' % i) for i in range(2)]
        fail = {}
        class Content(con.Construct):
            def _build(self, obj, stream, context, path):
                for c in chunks:
                    stream.write(c)
                    if e.choose(2, 'building fails') == 1:
                        fail['x'] = Injected('building fails')
                        raise fail['x']
                return obj
        m.KDBX = Content()
        kp = object.__new__(m.PyKeePass)
        kp._password, kp._keyfile = str_var('password'), None
        st = grammar.BytesIO()
        p1 = str_var('path1')
        e.assume(mk_bool(z3.Length(p1.e) > 0))
        kp.filename = st if own else p1
        kp.kdbx = obj = con.Container(header=con.Container(value=1))
        fs = fsmod.FS()
        old = bytes_var('previous_content')
        fs.put(p1, old)
        name = kp.filename
        snap = snapshot(obj)
        _, exc = fmt.call(kp.save, *([] if own else [st]))
        if fail: e.decided(exc is fail['x'], 'the failure reaches the caller', repr(exc))
        else:
            e.decided(exc is None, 'a save in which nothing fails succeeds', exc and fmt.describe(exc))
            e.check(same_bytes(st.getvalue(), SymBytes.of(chunks[0]) + chunks[1]), 'the stream holds the complete database')
        e.decided(not fs.events, 'saving to a stream touches no file')
        e.decided(kp.filename is name and kp.kdbx is obj and unchanged(snap, snapshot(obj)) is None, 'saving changes neither the content in memory nor the name')
    return fn

def real_save(version, failing, binaries=True):
    """The real save() and the real grammar."""
    def fn():
        e = eng()
        sh, m = fmt.stack()
        fmt.stub_kdf(sh)
        db = fmt.DB(sh, version, 'aes256', version == 4, 'argon2' if version == 4 else 'aeskdf', 'chacha20', binaries=binaries, text=str_text() )
        kp, target, arg = target_of(m, 'own path')
        kp.kdbx = db.obj
        vol = Volume(target, True, failing=failing)
        done = {}
        kd, build = m.KDBX, m.KDBX._build
        def _build(obj, stream, context, path):
            r = build(obj, stream, context, path)
            done['content'] = stream.getvalue()
            return r
        kd._build = _build
        vol.new = lambda: done.get('content')
        run_save(kp, vol, arg, vol.new, done)
    return fn

def str_text():
    from .. import dom
    t = str_var('text_of_X')
    eng().assume(dom.F_xmlok(t.e))
    return t

def tasks(thorough):
    out = []
    for k in KINDS:
        for ex in (True, False):
            out.append(Task('save by contract of the grammar: %s, %s' % (k, 'file exists' if ex else 'no file'), contract_save(k, ex)))
    out.append(Task('save to the stream it was opened from', contract_stream(True)))
    out.append(Task('save to another stream', contract_stream(False)))
    rules = {'pykeepass.kdbx_parsing.*': fmt.SPLIT}
    for v in (4, 3):
        out.append(Task('save with the real grammar: KDBX%d' % v, real_save(v, False), rules=rules))
        out.append(Task('save with the real grammar and a failing operation: KDBX%d' % v, real_save(v, {('open', 1), ('write', 1), ('write', 30), ('close', 1), ('rename', 1)}), rules=rules))
    return out
