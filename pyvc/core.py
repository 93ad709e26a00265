"""Path exploration, obligations and the solver interface."""
import sys, time, traceback
import z3

class VCAbort(BaseException):
    """Control exceptions of the engine; never caught by the code under verification."""

class PathEnd(VCAbort):
    """The current path is finished (infeasible, or a loop-body path whose invariant was checked)."""

class Unsupported(VCAbort):
    """The code does something the engine has no contract for.  Never a violation."""

class BoundHit(VCAbort):
    """An unrolling bound was reached; the result is labelled bounded."""


class Obligation:
    __slots__ = ('label', 'status', 'detail', 'path', 'solver_s', 'backend', 'model', 'loc')
    def __init__(self, label, status, detail='', path=(), solver_s=0.0, backend='z3', model=None):
        self.label, self.status, self.detail, self.path = label, status, detail, tuple(path)
        self.solver_s, self.backend, self.model = solver_s, backend, model


class Report:
    """What one verification run did: obligations, functions executed under contract, problems."""
    def __init__(self):
        self.obligations = []
        self.functions = set()      # functions of /repo executed symbolically
        self.assumed = set()        # library contracts used
        self.unsupported = []       # (task, reason)
        self.bounded = []           # (task, what)
        self.paths = 0
        self.tasks = []
        self.solver_s = 0.0
        self.feasibility_queries = 0
        self.crashes = []

    def failed(self):
        return [o for o in self.obligations if o.status == 'failed']

    def merge(self, o):
        self.obligations += o.obligations; self.functions |= o.functions; self.assumed |= o.assumed
        self.unsupported += o.unsupported; self.bounded += o.bounded; self.paths += o.paths
        self.tasks += o.tasks; self.solver_s += o.solver_s; self.feasibility_queries += o.feasibility_queries
        self.crashes += o.crashes


class Engine:
    """Depth-first exploration by re-execution.  Every symbolic branch is a recorded decision."""
    current = None

    def __init__(self, report=None, timeout_ms=20000, max_paths=4000, deadline=None):
        self.report = report or Report()
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.trail = []
        self.pos = 0
        self.task = ''
        self.solver = None
        self.names = {}
        self.path_hooks = []        # callables run at start of each path (reset state)
        self.background = []        # extra formulas asserted on every path (axioms)
        self.cross = None           # second solver (thorough tier)
        self.pc = []

    # ---- naming -------------------------------------------------------------------------------
    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    # ---- solver ---------------------------------------------------------------------------------
    def _check(self, *extra, want=False):
        t = time.time()
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        model = self.solver.model() if want and r == z3.sat else None
        if r == z3.unknown:
            # second attempt with a fresh solver (no incremental state)
            s2 = z3.Solver(); s2.set('timeout', self.timeout_ms)
            s2.add(self.solver.assertions())
            r = s2.check()
            model = s2.model() if want and r == z3.sat else None
        self.solver.pop()
        self.report.solver_s += time.time() - t
        return r, model

    def assume(self, cond):
        cond = as_z3(cond)
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        self.pc.append(cond)
        self.solver.add(cond)

    def assume_or_end(self, cond):
        self.assume(cond)
        r, _ = self._check()
        if r == z3.unsat:
            raise PathEnd()

    def feasible(self, cond):
        self.report.feasibility_queries += 1
        r, _ = self._check(cond)
        return r != z3.unsat

    def entails(self, cond):
        cond = as_z3(cond)
        if cond is True: return True
        if cond is False: return not self.feasible(z3.BoolVal(True))
        self.report.feasibility_queries += 1
        r, _ = self._check(z3.Not(cond))
        return r == z3.unsat

    def choose(self, n, why=''):
        """Unconditional n-way choice."""
        if n == 1:
            return 0
        if self.pos < len(self.trail):
            k, m, _ = self.trail[self.pos]
            assert m == n, 'nondeterministic re-execution at %s (%d/%d)' % (why, m, n)
        else:
            k = 0
            self.trail.append((0, n, why))
        self.pos += 1
        return k

    def fork(self, cond, why=''):
        cond = as_z3(cond)
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.pos < len(self.trail):
            k, m, _ = self.trail[self.pos]
            self.pos += 1
            val = (k == 0) if m != 'F' else False
            if m == 'T': val = True
            self.pc.append(cond if val else z3.Not(cond))
            self.solver.add(self.pc[-1])
            return val
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond))
        if t and f:
            self.trail.append((0, 2, why or str(cond)[:80])); val = True
        elif t:
            self.trail.append((0, 'T', why)); val = True
        elif f:
            self.trail.append((0, 'F', why)); val = False
        else:
            raise PathEnd()
        self.pos += 1
        self.pc.append(cond if val else z3.Not(cond))
        self.solver.add(self.pc[-1])
        return val

    # ---- obligations --------------------------------------------------------------------------
    def check(self, cond, label, detail=''):
        cond = as_z3(cond)
        t = time.time()
        if cond is True:
            st, model = 'discharged', None
        elif cond is False:
            r, model = self._check(want=True)
            st = 'discharged' if r == z3.unsat else ('failed' if r == z3.sat else 'unknown')
        else:
            r, model = self._check(z3.Not(cond), want=True)
            st = 'discharged' if r == z3.unsat else ('failed' if r == z3.sat else 'unknown')
            if st == 'discharged' and self.cross:
                self.cross(self, z3.Not(cond), label)
        if self.imprecise and st == 'failed':
            st, detail = 'unknown', (detail + ' imprecise: ' + self.imprecise)
        o = Obligation(self.task + ': ' + label, st, detail, [w for _, _, w in self.trail[:self.pos]], time.time() - t, 'z3', None)
        if st == 'failed':
            o.model = self.render(model) if model is not None else None
        self.report.obligations.append(o)
        return st == 'discharged'

    def decided(self, ok, label, detail='', backend='evaluation'):
        """An obligation settled without the SMT solver (evaluation of closed terms, normal forms)."""
        if not ok and self._check()[0] == z3.unsat: raise PathEnd()
        st = 'discharged' if ok else ('unknown' if self.imprecise else 'failed')
        self.report.obligations.append(Obligation(self.task + ': ' + label, st, detail,
                                       [w for _, _, w in self.trail[:self.pos]], 0.0, backend))
        return ok

    def render(self, model):
        try:
            return '; '.join('%s=%s' % (d.name(), model[d]) for d in model.decls() if d.arity() == 0)[:4000]
        except Exception as e:
            return repr(e)

    # ---- exploration --------------------------------------------------------------------------
    max_failed = 0     # stop exploring once so many obligations have failed (0: never)
    def explore(self, task, fn, bounded=None):
        """Run fn on every feasible path.  Returns True when every path was decided."""
        self.task = task
        self.report.tasks.append(task)
        self.trail = []
        self.once = {}
        ok = True
        npaths = 0
        nob = len(self.report.obligations)
        while True:
            self.pos = 0
            self.pc = []
            self.names = {}
            self.imprecise = ''
            self.solver = z3.Solver()
            self.solver.set('timeout', self.timeout_ms)
            for a in self.background:
                self.solver.add(a)
            reset_axioms(self)
            prev, Engine.current = Engine.current, self
            try:
                for h in self.path_hooks:
                    h()
                fn()
            except PathEnd:
                pass
            except BoundHit as e:
                self.report.bounded.append((task, str(e)))
            except Unsupported as e:
                self.report.unsupported.append((task, str(e)))
                ok = False
                if debug: traceback.print_exc()
            except RecursionError as e:
                self.report.unsupported.append((task, 'recursion limit: ' + repr(e)))
                ok = False
            except Exception as e:
                # an exception that escaped from the task driver itself: the contract did not foresee it
                self.report.unsupported.append((task, 'driver: %s: %s' % (type(e).__name__, safe_text(e))))
                self.report.crashes.append((task, ''.join(traceback.format_tb(e.__traceback__))))
                ok = False
                if debug: traceback.print_tb(e.__traceback__)
            finally:
                Engine.current = prev
            npaths += 1
            self.report.paths += 1
            # next trail
            t = self.trail[:self.pos] if self.pos < len(self.trail) else self.trail
            while t:
                k, m, w = t[-1]
                if isinstance(m, int) and k + 1 < m:
                    t[-1] = (k + 1, m, w)
                    break
                t.pop()
            if not t:
                break
            self.trail = t
            if self.max_failed and sum(o.status == 'failed' for o in self.report.obligations) >= self.max_failed: break
            if npaths >= self.max_paths:
                self.report.unsupported.append((task, 'path limit %d' % self.max_paths)); ok = False
                break
            if self.deadline and time.time() > self.deadline:
                self.report.unsupported.append((task, 'time limit')); ok = False
                break
        if len(self.report.obligations) == nob and ok and bounded is None:
            self.report.unsupported.append((task, 'vacuous: no obligation was generated')); ok = False
        return ok

def safe_text(x):
    try: return str(x)
    except VCAbort: return '(symbolic)'

debug = False
Engine.imprecise = ''

def eng():
    e = Engine.current
    if e is None:
        raise Unsupported('symbolic value used outside an exploration')
    return e

def as_z3(c):
    if isinstance(c, bool):
        return c
    if isinstance(c, SymBool):
        return c.e
    if isinstance(c, z3.BoolRef):
        return c
    raise Unsupported('not a condition: %r' % (type(c),))

# ---- axioms: formulas asserted because a term was created (instances of assumed library contracts) ----
def reset_axioms(e):
    e._axseen = {}

def axiom(f):
    """Assert an instance of an assumed contract on the current path."""
    e = eng()
    if isinstance(f, bool):
        if not f: raise PathEnd()
        return
    k = f.get_id()
    if k not in e._axseen:
        e._axseen[k] = f          # keeps the term alive, so ids are not reused
        e.solver.add(f)


class SymBool:
    __slots__ = ('e', 'why')
    def __init__(self, e, why=''):
        self.e = e
        self.why = why
    def __bool__(self):
        return eng().fork(self.e, self.why)
    def __eq__(self, o):
        if isinstance(o, SymBool): return SymBool(self.e == o.e)
        if isinstance(o, bool): return SymBool(self.e if o else z3.Not(self.e))
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r
    __hash__ = None
    def __and__(self, o): return mk_bool(z3.And(self.e, as_z3(o)))
    def __or__(self, o): return mk_bool(z3.Or(self.e, as_z3(o)))
    __rand__ = __and__; __ror__ = __or__
    def __invert__(self): return mk_bool(z3.Not(self.e))
    def __repr__(self): return 'SymBool(%s)' % self.e

def mk_bool(e):
    if isinstance(e, bool): return e
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SymBool(e)
