"""The bounded check: the same contracts evaluated on the unmodified code in CPython, on generated inputs.

A property module provides
   cases(rng, i, thorough) -> a JSON-able case (i counts up; the first ones may be directed)
   check(case)             -> None, or a text describing how the contract was violated
Every case runs in a child process with a time limit, so that a crash or an endless loop in changed code is caught."""
import os, sys, json, time, random, signal, traceback, pickle, tempfile, shutil

class Result:
    def __init__(self):
        self.failures, self.errors, self.samples, self.known = [], [], [], []
        self.evaluations = 0
        self.seen = set()

class CaseTimeout(BaseException): pass

def _alarm(*a): raise CaseTimeout()

def known_findings(pid):
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % pid): out.append(l.split(' ', 2)[2])
    return out

def run_one(mod, case, limit=60):
    """None if the contract held, otherwise a description."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return mod.check(case)
    except CaseTimeout:
        return 'no result within %d s' % limit
    except Exception as e:
        return 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)

def worker(mod, pid, seed, k, n, deadline, thorough, w):
    rng = random.Random('%s-%s-%s' % (pid, seed, k))
    res = dict(failures=[], n=0, seen=[], samples=[], errors=[])
    tmp = tempfile.mkdtemp(prefix='pyvc-%s-' % pid)
    os.chdir(tmp)
    tempfile.tempdir = tmp
    try:
        i = k
        seen = set()
        while True:
            case = mod.cases(rng, i, thorough)
            if case is None: break
            r = run_one(mod, case)
            res['n'] += 1
            h = hash(json.dumps(case, sort_keys=True, default=repr))
            if h not in seen and mod_nontrivial(mod, case): seen.add(h)
            if len(res['samples']) < 2: res['samples'].append(trunc(case))
            if r is not None:
                res['failures'].append(dict(case=case, violation=r))
                break
            i += n
            if time.time() > deadline and i >= getattr(mod, 'MIN_CASES', 0): break
        res['seen'] = list(seen)
    except BaseException as e:
        res['errors'].append('harness: %s' % traceback.format_exc()[-1200:])
    finally:
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)
    with os.fdopen(w, 'wb') as f: f.write(pickle.dumps(res))

def mod_nontrivial(mod, case):
    f = getattr(mod, 'nontrivial', None)
    return f(case) if f else True

def trunc(x, n=600):
    s = json.dumps(x, default=repr)
    return s if len(s) <= n else s[:n] + '...'

def run(mod, pid, seed, budget, thorough, failed):
    res = Result()
    if not hasattr(mod, 'check'): return res
    jobs = 8
    deadline = time.time() + budget
    procs = []
    for k in range(jobs):
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            try: worker(mod, pid, seed, k, jobs, deadline, thorough, w)
            except BaseException: traceback.print_exc()
            os._exit(0)
        os.close(w)
        procs.append((p, r))
    for p, r in procs:
        with os.fdopen(r, 'rb') as f: data = f.read()
        os.waitpid(p, 0)
        try: d = pickle.loads(data)
        except Exception:
            res.errors.append('a worker process died'); continue
        res.evaluations += d['n']
        res.seen |= set(d['seen'])
        res.samples += d['samples']
        res.failures += d['failures']
        res.errors += d['errors']
    res.known = []
    kf = getattr(mod, 'KNOWN', [])
    listed = known_findings(pid)
    for text, fn in kf:
        try: bad = fn()
        except Exception as e: bad = repr(e)
        if bad:
            if text in listed: res.known.append(text)
            else: res.failures.append(dict(case=text, violation=str(bad)))
    return res

def replay(mod, path):
    d = json.load(open(path))
    if 'case' not in d:
        print('no failing input in this replay file; failed obligations:')
        for o in d.get('failed_obligations', []): print(' ', o['obligation'], o.get('detail'))
        return 1
    tmp = tempfile.mkdtemp(prefix='pyvc-replay-')
    os.chdir(tmp)
    try: r = run_one(mod, d['case'])
    finally:
        os.chdir('/'); shutil.rmtree(tmp, ignore_errors=True)
    print('contract held' if r is None else 'VIOLATED: ' + r)
    return 0 if r is None else 1
