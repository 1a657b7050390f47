"""Authoring helper for /verif/seeded (not used by any check).

plant.py SPEC.py : SPEC defines ID, PROPERTY, EDITS [(file, old, new)], NEEDS,
BREAKS, DEMO (python source), MODULES (names under dst copied beside the demo).
Confirms: patch applies, changes original lines, stable tests pass, the demo
passes without and fails with it; then runs the check and says whether it is
caught.
"""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def tests_ok():
    sh('bash /opt/vp/build.sh', cwd=R)
    out = '/tmp/plant_t.json'
    sh('bash /opt/vp/test.sh ' + out)
    base = json.load(open('/opt/vp/BASELINE.json'))
    need = base.get('stable') or base.get('passed') or base.get('tests') or base
    got = json.load(open(out))['passed']
    need = [x if isinstance(x, str) else x.get('id') for x in need] if isinstance(need, list) else list(need)
    return set(need) <= set(got), len(got)


def main(spec):
    s = runpy.run_path(spec)
    d = '%s/seeded/%s' % (V, s['ID'])
    os.makedirs(d, exist_ok=True)
    base = sh('git -C %s rev-list --max-parents=0 HEAD' % R).stdout.strip()[:7]
    assert not sh('git -C %s status --porcelain -uno' % R).stdout.strip(), 'repo dirty'
    for f, a, b in s['EDITS']:
        p = R + '/' + f
        t = open(p).read()
        assert t.count(a) == 1, (f, t.count(a), a)
        # is a removed line original?
        open(p, 'w').write(t.replace(a, b))
    diff = sh('git -C %s diff' % R).stdout
    sh('git -C %s checkout -- .' % R)
    open(d + '/patch.diff', 'w').write(diff)
    # originality of removed lines
    orig = 0
    for f in {e[0] for e in s['EDITS']}:
        bl = sh('git -C %s blame -s %s' % (R, f)).stdout.splitlines()
        mine = [x for x in diff.splitlines() if x.startswith('-') and not x.startswith('---')]
        for x in mine:
            for y in bl:
                if y.split(') ', 1)[-1] == x[1:] and base in y[:10]:
                    orig += 1
                    break
    mod = d + '/simdev'
    shutil.rmtree(mod, ignore_errors=True)
    os.makedirs(mod)
    open(mod + '/__init__.py', 'w').close()
    for m in s.get('MODULES', ()):
        shutil.copy('%s/dst/%s.py' % (V, m), mod)
    open(d + '/demo.py', 'w').write(s['DEMO'].lstrip())
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: the repository.  Everything is written to a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1 SCRATCH="$scratch"
/opt/venv/bin/python -W ignore "$here/demo.py"
''')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)
    r0 = sh('bash %s/demo.sh' % d, cwd=R)
    print('demo clean rc', r0.returncode, r0.stdout[-200:], r0.stderr[-400:] if r0.returncode else '')
    a = sh('git -C %s apply %s/patch.diff' % (R, d))
    assert a.returncode == 0, a.stderr
    try:
        r1 = sh('bash %s/demo.sh' % d, cwd=R)
        print('demo patched rc', r1.returncode, (r1.stdout + r1.stderr)[-300:])
        t = tests_ok()
        pids = s['PROPERTY'] if not s.get('CHECKS') else s['CHECKS']
        res = {}
        for pid in pids.split():
            if os.path.exists('%s/dst/checks/%s.py' % (V, pid.lower())):
                c = sh('./run_check.py %s' % pid, cwd=V)
                res[pid] = (c.returncode, [l for l in c.stdout.splitlines() if l.startswith(('violation', 'VIOL', 'HARN'))])
    finally:
        sh('git -C %s checkout -- .' % R)
    print('orig lines', orig, 'tests', t, 'checks', res)
    print('KEEP' if orig and t[0] and r0.returncode == 0 and r1.returncode else '**** REJECT', 
          {k: 'caught' if v[0] == 1 else 'MISSED' for k, v in res.items()})


main(sys.argv[1])
