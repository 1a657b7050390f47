"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
 'N01': 'pure function of an in-memory array: no scheduling, time, I/O or second party for a simulator to control',
 'N02': 'pure numerical function of an in-memory array (FFT); nothing nondeterministic or faultable to simulate',
 'N03': 'pure numerical estimators; nothing nondeterministic or faultable to simulate',
 'N04': 'pure filters on an in-memory array; nothing nondeterministic or faultable to simulate',
 'N05': 'pure conversions; nothing nondeterministic or faultable to simulate (time conversions inside reads are covered by C10 and C15)',
 'N06': 'pure numerical transform; nothing nondeterministic or faultable to simulate',
}
NOTE = json.load(open(V + '/tools/level_notes.json'))
checks, na = [], []
for p in P:
    i = p['id']
    if os.path.exists(V + '/dst/checks/%s.py' % i.lower()):
        checks.append(dict(property=i,
            quick_cmd='/opt/venv/bin/python run_check.py %s --tier quick' % i,
            thorough_cmd='/opt/venv/bin/python run_check.py %s --tier thorough' % i,
            technique='deterministic simulation with fault injection (seeded search)',
            level='exploration', level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import dst.core"', checks=checks, not_applicable=na),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
