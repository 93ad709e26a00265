"""Writes /verif/seeded/<id>/ from the table below, after confirming each in a scratch copy of /repo:
   the demo passes unchanged, fails with the change, and the test suite still passes with it.
   usage: mkseeds.py [id ...]"""
import sys, os, subprocess, json, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
PY = '/opt/venv/bin/python'
HEAD = '''import sys, os, io, tempfile, shutil
sys.path.insert(0, os.getcwd())
from datetime import datetime, timedelta, timezone
from pykeepass import PyKeePass, create_database
TESTS = os.path.join(os.getcwd(), 'tests')
TMP = tempfile.mkdtemp(prefix='demo')
import atexit; atexit.register(shutil.rmtree, TMP, True)
def v4(): return PyKeePass(os.path.join(TESTS, 'test4.kdbx'), 'password', os.path.join(TESTS, 'test4.key'))
def v3(): return PyKeePass(os.path.join(TESTS, 'test3.kdbx'), 'password', os.path.join(TESTS, 'test3.key'))
def fast(kp):
    "cheap key derivation so that saving is quick"
    return kp
def new(password='pw'):
    return create_database(os.path.join(TMP, 'new.kdbx'), password=password)
def reopened(kp, **kw):
    b = io.BytesIO(); kp.save(b); b.seek(0)
    return PyKeePass(b, kp.password, kp.keyfile)
'''
S = []
def seed(id, prop, file, old, new, demo, needs, breaks, extra=()):
    S.append(dict(id=id, property=prop, edits=[(file, old, new)] + list(extra), demo=demo, needs=needs, what_it_breaks=breaks))
exec(open(os.path.join(HERE, 'seedtable.py')).read())

def run(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    env.update(kw)
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=280)
def main():
    want = sys.argv[1:]
    for s in S:
        if want and s['id'] not in want: continue
        d = tempfile.mkdtemp(prefix='seedwt')
        try:
            wt = os.path.join(d, 'repo'); shutil.copytree('/repo', wt, symlinks=True)
            out = os.path.join(d, 'out'); os.makedirs(out)
            open(os.path.join(out, 'demo.py'), 'w').write(HEAD + s['demo'].strip('\n') + '\n')
            open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            r = run(['bash', os.path.join(out, 'demo.sh')], wt)
            if r.returncode: print(s['id'], 'REJECT: demo fails on unchanged tree', r.stdout[-500:], r.stderr[-800:]); continue
            for f, o, n in s['edits']:
                p = os.path.join(wt, f); t = open(p).read()
                assert t.count(o) == 1, (s['id'], f, t.count(o), o)
                open(p, 'w').write(t.replace(o, n))
            r = run(['bash', os.path.join(out, 'demo.sh')], wt)
            if not r.returncode: print(s['id'], 'REJECT: demo passes with the change'); continue
            why = (r.stderr.strip().splitlines() or ['?'])[-1][:150]
            t = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-o', 'python_files=test*.py', 'tests'], wt, PYTHONPATH=wt)
            if t.returncode: print(s['id'], 'REJECT: tests fail', t.stdout[-600:]); continue
            run(['git', 'checkout', '--', 'tests'], wt)
            open(os.path.join(out, 'patch.diff'), 'w').write(run(['git', 'diff', '--', 'pykeepass'], wt).stdout)
            shutil.rmtree(os.path.join(SEEDED, s['id']), True)
            shutil.copytree(out, os.path.join(SEEDED, s['id']))
            print(s['id'], 'ok:', why, flush=True)
        finally:
            shutil.rmtree(d, True)
main()
