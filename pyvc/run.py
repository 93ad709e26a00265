"""Entry point of every check:  python -m pyvc.run <property> [--replay FILE]

Decision:
  * an obligation of a contract fails, or the bounded concrete check fails  -> exit 1, VIOLATION line
  * otherwise                                                              -> exit 0
Anything the engine could not decide (unsupported construct, solver unknown, time-out) is never a violation:
it is recorded, and the bounded concrete check of the same contract on the unmodified code stands in."""
import sys, os, json, time, importlib, traceback, random, signal, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVC_REPO', '/repo')
OUT = os.environ.get('PYVC_OUT', ROOT)

def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv: tier = 'thorough'
    if '--quick' in argv: tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    os.environ['TZ'] = os.environ.get('PYVC_TZ', 'Etc/GMT-3')
    time.tzset()
    from . import conc
    mod = importlib.import_module('pyvc.props.' + pid.lower())
    if '--replay' in argv:
        return conc.replay(mod, argv[argv.index('--replay') + 1])
    t0 = time.time()
    thorough = tier == 'thorough'
    from . import verify
    # ---- deductive part
    verify.core.debug = '--debug' in argv
    try:
        tasks = mod.tasks(thorough)
        err = None
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt): raise
        tasks, err = [], '%s: %s' % (type(e).__name__, e)
        if '--debug' in argv: traceback.print_exc()
    if '--only' in argv:
        tasks = [t for t in tasks if argv[argv.index('--only') + 1] in t.name]
    rep = verify.run_tasks(tasks, thorough, jobs=1 if '--debug' in argv else None)
    if err: rep.unsupported.append(('setup', 'the source could not be loaded into the engine: ' + err))
    failed = rep.failed()
    # ---- bounded part (replay oracle, stand-in, cross-check of the assumed contracts)
    t1 = time.time()
    budget = getattr(mod, 'BUDGET', (40, 400))[1 if thorough else 0]
    undecided = bool(rep.unsupported or rep.bounded or any(o.status == 'unknown' for o in rep.obligations))
    if failed: budget *= 3
    elif undecided: budget *= 1.5
    cr = conc.run(mod, pid, seed, budget, thorough, failed) if '--proof-only' not in argv else conc.Result()
    violations = []
    rdir = os.path.join(OUT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    def write(name, data):
        p = os.path.join(rdir, name)
        with open(p, 'w') as f: json.dump(data, f, indent=1, default=repr)
        return p
    fo = [dict(obligation=o.label, status=o.status, detail=o.detail, path=list(o.path)[-12:], backend=o.backend, model=o.model) for o in failed]
    if cr.failures:
        for i, f in enumerate(cr.failures[:3]):
            p = write('%s-%d.json' % (pid, i), dict(property=pid, kind='failing input', how='cd /verif && /opt/venv/bin/python -m pyvc.run %s --replay <this file>' % pid,
                      failed_obligations=fo[:20], **f))
            violations.append('VIOLATION property=%s replay=%s' % (pid, p))
    elif failed:
        p = write('%s-obligation.json' % pid, dict(property=pid, kind='failed obligation', failed_obligations=fo[:50],
                  note='the verifier refuted this obligation; the bounded search on the real code found no failing input'))
        violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
    # ---- report
    disc = sum(o.status == 'discharged' for o in rep.obligations)
    backends = {}
    for o in rep.obligations: backends[o.backend] = backends.get(o.backend, 0) + 1
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'),
        coverage=dict(obligations=len(rep.obligations), discharged=disc,
            failed=len(failed), undecided=sum(o.status == 'unknown' for o in rep.obligations),
            backends=backends, solver_s=round(rep.solver_s, 2), paths=rep.paths,
            distinct_obligations=len({o.label for o in rep.obligations}),
            samples=sorted({o.label for o in rep.obligations})[:12] or cr.samples[:4],
            functions_under_contract=sorted(rep.functions),
            tasks=rep.per_task, bounded_tasks=sorted({'%s: %s' % b for b in rep.bounded}),
            not_decided_by_proof=sorted({'%s: %s' % (a, b[:300]) for a, b in rep.unsupported})[:40],
            cross_checked_by_cvc5=rep.cross,
            checker_cmd='cd /verif && VERIF_TIER=%s /opt/venv/bin/python -m pyvc.run %s --proof-only' % (tier, pid),
            trusted_base=sorted(rep.assumed) + ['z3 %s' % _z3v(), 'the pyvc engine and its instrumentation (cross-checked against CPython by the bounded check)'],
            evaluations=cr.evaluations, distinct_nontrivial=len(cr.seen), rule=getattr(mod, 'RULE', ''),
            bounded_samples=cr.samples[:4], bounded_seconds=round(time.time() - t1, 1), bounded_errors=cr.errors[:5]),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + sorted(rep.assumed),
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    print('%s [%s] %d obligations, %d discharged, %d failed, %d undecided; %d functions under contract, %d paths, solver %.1f s; bounded check: %d cases; %.1f s' %
          (pid, tier, len(rep.obligations), disc, len(failed), ev['coverage']['undecided'], len(rep.functions), rep.paths, rep.solver_s, cr.evaluations, ev['wall_s']))
    for b in ev['coverage']['bounded_tasks']: print('  bounded: ' + b[:200])
    for b in ev['coverage']['not_decided_by_proof']: print('  undecided: ' + b[:300])
    for o in failed[:10]: print('  failed: %s %s' % (o.label, (o.detail or '')[:300]), '| path:', list(o.path)[-6:] if '-v' in argv or '--debug' in argv else '')
    for e in cr.errors[:5]: print('  note: ' + e[:300])
    if '--debug' in argv:
        for t, tb in rep.crashes[:5]: print(t, tb)
    for k in cr.known: print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for v in violations: print(v)
    if not rep.obligations and not violations and '--proof-only' not in argv and not cr.evaluations:
        print('nothing was checked'); return 2
    return 1 if violations else 0

def _z3v():
    import z3
    return z3.get_version_string()

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
