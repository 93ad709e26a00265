"""Running verification tasks: Houdini restarts, fall-back to bounded unrolling, one process per task."""
import os, sys, time, pickle, signal, traceback
from . import core, loops, words
from .core import Engine, Report, Obligation, Unsupported

class Task:
    """One contract: `fn` drives the real code on symbolic inputs and emits obligations.
    rules: loop rules by function name.  functions: what it claims to verify (for the record)."""
    def __init__(self, name, fn, rules=None, timeout=240, max_paths=3000, bounded=None, solver_ms=20000, functions=()):
        self.name, self.fn, self.rules = name, fn, rules or {}
        self.timeout, self.max_paths, self.bounded, self.solver_ms = timeout, max_paths, bounded, solver_ms
        self.functions = functions

def _run(task, thorough=False):
    rep = Report()
    st = loops.State(task.rules)
    loops.state = st
    t0 = time.time()
    first = None
    unroll = loops.UNROLL
    for attempt in range(60):
        rep = Report()
        words.reset()
        e = Engine(rep, timeout_ms=task.solver_ms * (3 if thorough else 1), max_paths=task.max_paths,
                   deadline=t0 + task.timeout * (3 if thorough else 1))
        if thorough: e.cross = cross_cvc5
        e.max_failed = 6
        try:
            e.explore(task.name, task.fn)
        except loops.Restart:
            if time.time() > e.deadline:
                rep.unsupported.append((task.name, 'time limit while inferring invariants')); break
            continue
        bad = [u for u in rep.unsupported if any(x in u[1] for x in ('has no invariant', 'Poison', 'does not repeat its first', 'list of unknown length'))]
        if bad and st.used - st.off:
            st.off |= st.used
            continue
        if core.debug and rep.failed(): print("FIRST", [(o.label,o.path,o.model) for o in rep.failed()])
        if rep.failed() and st.used - st.off and first is None:
            # the invariants found may be too weak: a failure counts only if it shows without the loop rule
            first = rep
            st.off |= st.used
            loops.UNROLL = 1      # a genuine failure mostly shows in the first iterations
            continue
        if first is not None and not rep.failed() and loops.UNROLL < unroll:
            loops.UNROLL = unroll
            continue
        break
    else:
        rep.unsupported.append((task.name, 'invariant inference did not converge'))
    if first is not None and not rep.failed():
        for o in first.obligations:
            if o.status == 'failed': o.status, o.detail = 'unknown', o.detail + ' (not confirmed without the loop rule: the invariant may be too weak)'
        rep.obligations += [o for o in first.obligations if o.status == 'unknown']
    if st.off:
        rep.bounded.append((task.name, 'loop(s) %s unrolled up to %d iterations: no inductive invariant matched' %
                            (sorted(k[0] for k in st.off), loops.UNROLL)))
    if task.bounded:
        rep.bounded.append((task.name, task.bounded))
    return rep

def cross_cvc5(e, goal, label):
    """Second opinion on a discharged obligation (thorough tier): cvc5 on the SMT-LIB text."""
    import subprocess, z3
    s = z3.Solver()
    s.add(e.solver.assertions()); s.add(goal)
    txt = s.to_smt2()
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--strings-exp', '--tlimit=10000'], input='(set-logic ALL)\n' + txt,
                           capture_output=True, text=True, timeout=20)
        out = r.stdout.strip().split('\n')[0] if r.stdout else 'error'
    except Exception as ex:
        out = 'error'
    c = e.report.__dict__.setdefault('cross', {'unsat': 0, 'unknown': 0, 'error': 0, 'sat': 0})
    c[out if out in c else 'error'] += 1
    if out == 'sat':
        e.report.unsupported.append((e.task, 'solver disagreement on ' + label))

def run_tasks(tasks, thorough=False, jobs=None):
    """Run every task in its own process; returns a merged report."""
    jobs = jobs or min(8, os.cpu_count() or 1)
    pending = list(enumerate(tasks))
    running = {}
    results = {}
    start, refuted = time.time(), 0
    while pending or running:
        if refuted and time.time() - start > (600 if thorough else 100):
            # a refuted obligation is established: what is left would not change the verdict
            for i, t in pending:
                results[i] = Report()
                results[i].unsupported.append((t.name, 'not run: an obligation had failed already'))
                results[i].wall = 0
            pending = []
            for r, (i, t, pid, t0, buf) in list(running.items()):
                if time.time() - start > (700 if thorough else 130): os.kill(pid, signal.SIGKILL)
        if not thorough and time.time() - start > 420:
            # keep within the time limit of a check: what is left stays undecided
            for i, t in pending:
                results[i] = Report()
                results[i].unsupported.append((t.name, 'not run: time limit of the check'))
                results[i].wall = 0
            pending = []
            for r, (i, t, pid, t0, buf) in list(running.items()):
                if time.time() - start > 450: os.kill(pid, signal.SIGKILL)
        while pending and len(running) < jobs:
            i, t = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    sys.setrecursionlimit(5000)
                    rep = _run(t, thorough)
                    for o in rep.obligations: o.loc = None
                    data = pickle.dumps(rep)
                except BaseException as ex:
                    rep = Report()
                    rep.unsupported.append((t.name, 'engine: %s: %s' % (type(ex).__name__, ex)))
                    rep.crashes.append((t.name, traceback.format_exc()))
                    data = pickle.dumps(rep)
                with os.fdopen(w, 'wb') as f: f.write(data)
                os._exit(0)
            os.close(w)
            running[r] = (i, t, pid, time.time(), bytearray())
        import select
        rl, _, _ = select.select(list(running), [], [], 1.0)
        for r in list(running):
            i, t, pid, t0, buf = running[r]
            done = False
            if r in rl:
                d = os.read(r, 1 << 20)
                if d: buf += d
                else: done = True
            elif time.time() - t0 > t.timeout * (3 if thorough else 1) + 60:
                os.kill(pid, signal.SIGKILL)
                done = True
            if done:
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                try:
                    results[i] = pickle.loads(bytes(buf))
                except Exception:
                    rep = Report()
                    rep.unsupported.append((t.name, 'task process died or timed out'))
                    results[i] = rep
                results[i].wall = time.time() - t0
                refuted += bool(results[i].failed())
    total = Report()
    total.cross = {}
    total.per_task = {}
    for i, t in enumerate(tasks):
        rep = results[i]
        if not rep.obligations and not rep.unsupported: rep.unsupported.append((t.name, 'vacuous: no obligation was generated'))
        total.merge(rep)
        total.per_task[t.name] = dict(
            obligations=len(rep.obligations), discharged=sum(o.status == 'discharged' for o in rep.obligations),
            failed=sum(o.status == 'failed' for o in rep.obligations), unknown=sum(o.status == 'unknown' for o in rep.obligations),
            paths=rep.paths, bounded=[b[1] for b in rep.bounded], unsupported=sorted({u[1] for u in rep.unsupported})[:5], wall_s=round(rep.wall, 2))
        for k, v in getattr(rep, 'cross', {}).items(): total.cross[k] = total.cross.get(k, 0) + v
    return total
