"""C05 on the unmodified code: faults while saving, in a scratch directory, in a child process."""
import io, os, sys, signal, resource, shutil, tempfile, json
from pathlib import Path
from . import cx
from .. import ref_kdbx as R
from .cx import must, same
BUDGET = (30, 300)
RULE = 'saves in a scratch directory interrupted by write errors, process death at every file-system event or byte limit, unusable credentials, or not at all; all files compared before and after'
KINDS = ['ok', 'ok', 'fsize-exc', 'fsize-exc', 'fsize-kill', 'fsize-kill', 'event-kill', 'event-kill', 'nokeyfile', 'badstream', 'badkdf', 'keyfileexc', 'nodir']
NAMES = ['db.kdbx', 'db', 'db.tmp', '.kdbx', 'a.b.c', 'db.kdbx.tmp', 'ü 中.kdbx', 'db.', 'x.TMP']
def cases(rng, i, thorough):
    return {'seed': rng.getrandbits(48), 'v': rng.choice([3, 4]), 'kind': KINDS[(i // 8 + i) % len(KINDS)], 'name': rng.choice(NAMES), 'other': rng.random() < .4, 'asPath': rng.random() < .3}

def listing(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out

class BadRead:
    def __init__(self): self.ok = True
    def read(self, *a):
        if self.ok: return b'k' * 32
        raise RuntimeError('injected')
    def seek(self, *a): pass
    def seekable(self): return True

@cx.guarded
def check(case):
    from pykeepass import PyKeePass
    rng = cx.rng_of(case)
    d = tempfile.mkdtemp(dir=os.getcwd())
    try: _check(case, rng, d)
    finally: shutil.rmtree(d, ignore_errors=True)

def _check(case, rng, d):
    from pykeepass import PyKeePass
    kind = case['kind']
    wd = os.path.join(d, 'w.d'); os.mkdir(wd)
    db, tree, blobs, g = cx.make(rng, case['v'], small=True, compressed=rng.random() < .5, keyfile=b'k' * 32 if kind in ('nokeyfile', 'keyfileexc') else None)
    name = case['name']
    target = os.path.join(wd, name)
    old = R.write(db)
    with open(target, 'wb') as f: f.write(old)
    for b in ('db.tmp', 'db.kdbx.bak', 'db', 'tmp', 'db.kdbx~', 'notes.txt'):
        p = os.path.join(wd, b)
        if not os.path.exists(p) and rng.random() < .6:
            with open(p, 'wb') as f: f.write(b'bystander ' + b.encode())
    dest = target
    if case['other']:
        dest = os.path.join(wd, 'copy of ' + name)
        if rng.random() < .5:
            with open(dest, 'wb') as f: f.write(b'previous copy')
    if kind == 'nodir': dest = os.path.join(wd, 'nowhere', name); case = dict(case, other=True)
    own = {os.path.relpath(dest, wd) + '.tmp'}
    before = listing(wd)
    kf = None
    if kind == 'nokeyfile':
        kf = os.path.join(d, 'key')
        with open(kf, 'wb') as f: f.write(b'k' * 32)
    if kind == 'keyfileexc': kf = BadRead()
    limit = rng.randrange(0, len(old) + 200) if rng.random() < .8 else rng.choice([0, 1, len(old) - 1])
    nth = rng.randrange(0, 5)
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        res = {}
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            src = Path(target) if case['asPath'] else target
            kp = PyKeePass(src, password=db.password, keyfile=kf)
            kp.add_entry(kp.root_group, 'new entry', 'u', 'p' * rng.choice([1, 500]), force_creation=True)
            if rng.random() < .3: kp.delete_group(kp.root_group.subgroups[0])
            mem = cx.snap(kp); fn = kp.filename
            if kind == 'nokeyfile': os.remove(kf)
            if kind == 'keyfileexc': kf.ok = False
            if kind == 'badstream':
                h = kp.payload.inner_header if case['v'] == 4 else kp.kdbx.header.value.dynamic_header
                h['protected_stream_id']['data'] = 'arcfourvariant'
            if kind == 'badkdf':
                h = kp.kdbx.header.value.dynamic_header
                if case['v'] == 4: h.kdf_parameters.data.dict['$UUID'].value = b'x' * 16
                else: h.encryption_iv.data = b'short'
            out = os.path.join(d, 'expect')
            with open(out, 'wb') as f: f.write(json.dumps(mem).encode())
            if kind == 'fsize-exc':
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            elif kind == 'fsize-kill':
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            elif kind == 'event-kill':
                cnt = [0]
                def hook(ev, args):
                    if ev in ('open', 'os.rename', 'os.remove', 'os.link', 'os.truncate', 'shutil.move', 'shutil.copyfile', 'os.chmod', 'shutil.copymode', 'shutil.copystat', 'tempfile.mkstemp', 'os.symlink'):
                        if ev == 'open' and not any(str(args[0]).startswith(wd) for _ in (1,)): return
                        cnt[0] += 1
                        if cnt[0] > nth: os._exit(77)
                sys.addaudithook(hook)
            exc = None
            try:
                if case['other']: kp.save(Path(dest) if case['asPath'] else dest)
                else: kp.save()
            except Exception as e: exc = type(e).__name__ + ': ' + str(e)
            res = dict(exc=exc, mem=cx.snap(kp) == mem, fn=kp.filename == fn)
        except BaseException as e:
            res = dict(err=repr(e))
        os.write(w, json.dumps(res).encode())
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f: data = f.read()
    _, st = os.waitpid(pid, 0)
    res = json.loads(data) if data else None
    after = listing(wd)
    rel = os.path.relpath(dest, wd)
    def complete(b):
        try: t = cx.mirror(R.read(b, db.password, db.keyfile).root).t()
        except Exception: return False
        return json.loads(json.dumps(t)) == json.load(open(os.path.join(d, 'expect')))
    must(not (res and 'err' in res), 'harness: %s', res and res.get('err'))
    what = '%s%s' % (kind, '' if res is None or not res['exc'] else ' (raised %s)' % res['exc'])
    # bystanders
    for f, b in before.items():
        if f == rel or f in own: continue
        must(after.get(f) == b, '%s: file %s changed or vanished while saving %s', what, f, rel)
    if res is None:      # the process died
        b = after.get(rel)
        must(b == before.get(rel) or (b is not None and complete(b)), '%s: after the process died the file holds %s', what, 'nothing' if b is None else '%d bytes that are neither the old nor the complete new database' % len(b))
        return
    if res['exc'] is not None:
        must(kind != 'ok', 'save failed: %s', res['exc'])
        must(after.get(rel) == before.get(rel), '%s: the save failed but the file changed', what)
        left = set(after) - set(before)
        must(not left, '%s: the failed save left %s', what, sorted(left))
    else:
        must(kind in ('ok', 'fsize-exc', 'fsize-kill', 'event-kill'), '%s: the save reported success', what)
        must(rel in after and complete(after[rel]), '%s: after a successful save the file is not the complete new database', what)
        left = set(after) - set(before) - {rel}
        must(not left, '%s: the save left %s', what, sorted(left))
    must(res['mem'], '%s: saving changed the content in memory', what)
    must(res['fn'], '%s: saving changed the file name of the database', what)
