"""Behaviour-preserving rewrites of the code (and wrong ones) tried against the checks, in scratch copies.
usage: /opt/venv/bin/python tools/variants.py [id ...] ; VMODE: options of pyvc.run (default --quick --proof-only)"""
import sys, os, re, subprocess, tempfile, shutil, json
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from variantlist import V
from vl_format import V as V2
from vl_crypto import V as V3
from vl_doc import V as V4
V = V + V2 + V3 + V4
PY = '/opt/venv/bin/python'
def one(v):
    name, prop, quiet, edits = v
    d = tempfile.mkdtemp(prefix='var.')
    try:
        shutil.copytree('/repo/pykeepass', d + '/repo/pykeepass')
        for f, old, new in edits:
            p = d + '/repo/pykeepass/' + f
            s = open(p).read()
            if s.count(old) < 1: return name, prop, 'EDIT DOES NOT APPLY', ''
            open(p, 'w').write(s.replace(old, new))
        out = []
        for c in prop.split():
            r = subprocess.run([PY, '-m', 'pyvc.run', c] + os.environ.get('VMODE', '--quick --proof-only').split(), capture_output=True, text=True, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                               env=dict(os.environ, PYVC_REPO=d + '/repo', PYVC_OUT=d + '/out'))
            good = r.returncode == (0 if quiet else 1)
            summ = [l for l in r.stdout.split('\n') if l.startswith(c + ' [')]
            info = [l for l in r.stdout.split('\n') if l.startswith('  ') or l.startswith('VIOL')]
            out.append((name, c, ('ok' if good else 'WRONG') + (' (quiet)' if quiet else ' (alarm)') + ' rc=%d' % r.returncode, '\n      '.join((summ + info[:5] if not good else summ + [l for l in info if 'undecided' in l or 'bounded' in l or 'unsupported' in l][:3]) or [r.stderr[-300:]])))
        return out
    finally: shutil.rmtree(d)
if __name__ == '__main__':
    want = sys.argv[1:]
    vs = [v for v in V if not want or any(w == v[0] or w in v[1].split() or v[0].startswith(w) for w in want)]
    with ThreadPoolExecutor(int(os.environ.get('VJOBS', '2'))) as ex:
        for r in ex.map(one, vs):
            if isinstance(r, tuple): r = [r]
            for x in r: print('%-34s %s %s\n      %s' % (x[0], x[1], x[2], x[3][:900]), flush=True)
