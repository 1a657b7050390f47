"""C12: declinations are absolute, whatever happened before."""
import json

from .. import framehist as Q
from .. import frames as F
from ..core import call, exc_str, legal_candidates, violated
from . import c11

ID = 'C12'
RUNS = {'quick': 600, 'thorough': 30000}
RULE = ('a run = one simulated recording of a drawn instrument, read with and without a declination in the userdata '
        'file, then a drawn history of declination settings, frame changes, principal headings and head rotations (in '
        'place and as copies), every state compared with a double precision model that sets the last declination once; '
        'non-trivial = at least two declinations were set and values compared; distinct = distinct scenario')
STATES = 'distinct (kind of instrument, recorded frame, present frame, operation, declination before) tuples'
REAL = c11.REAL + ['userdata files']
STUB = c11.STUB
KEEP = c11.KEEP
ASSUME = c11.ASSUME + ['a principal heading is relative to the earth frame in force when it is set',
                       'headings are compared modulo 360 degrees']
OPS = ('rot', 'dec', 'P', 'head', 'bad')


def generate(rng, tier, i):
    s = c11.generate(rng, tier, i, allow=OPS, lo=2, hi=16)
    s['ud'] = rng.weighted([(None, 1), (rng.pick([0, 7.5, -31.25, 180, 12]), 2)])
    s['udrot'] = rng.weighted([(None, 3), (rng.randrange(4), 1)])
    return s


def legal(s):
    return c11.legal(s)


def candidates(scn):
    return legal_candidates(scn, KEEP, lambda c: c['rec']['fam'] and all(
        isinstance(o, list) and o for o in c['ops']) and legal(c))


def userdata(scn, st, d, dolfyn):
    """Reading with a declination in the userdata file is reading, then
    setting it."""
    w, r, a = F.prepare(scn, d, dolfyn, call, userdata=False)
    if r == 'exc' or not a:
        return
    vec = w.fam == 'nk' and w.c['inst'] == 'VEC'
    u = {'note': 'x'}
    if scn['ud'] is not None:
        u['declination'] = scn['ud']
    if scn['udrot'] is not None and vec:
        u['inst2head_rotmat'] = Q.rotmat(scn['udrot']).tolist()
    with open(d + '/rec.userdata.json', 'w') as f:
        json.dump(u, f)
    w, r, b = F.prepare(scn, d, dolfyn, call)
    if r == 'exc':
        violated('userdata', 'reading with userdata %s failed: %s' % (u, exc_str(b)))
    st.fault('userdata_declination', scn['ud'] is not None)
    for x, y in zip(a, b):
        x.attrs['note'] = 'x'
        if 'inst2head_rotmat' in u:
            call(dolfyn.set_inst2head_rotmat, x, Q.rotmat(scn['udrot']))
        if 'declination' in u:
            r, e = call(dolfyn.set_declination, x, u['declination'])
            if r == 'exc':
                if 'orientmat' in x:
                    violated('failed', 'set_declination failed: %s' % exc_str(e))
                return
        df = Q.differs(Q.snapshot(x), y)
        if df:
            violated('userdata', 'userdata %s and setting the same afterwards differ: %s' % (u, df))
        st.probe('userdata_equals_setting')
    import os
    os.unlink(d + '/rec.userdata.json')


def execute(scn, st, d):
    import dolfyn
    if not legal(scn):
        return
    if scn['ud'] is not None or scn['udrot'] is not None:
        userdata(scn, st, d, dolfyn)
    w, ds = c11.start(scn, st, d, dolfyn)
    if ds is None:
        return
    h = Q.History(w, ds, st, dolfyn)
    n = 0
    for i, op in enumerate(scn['ops']):
        f, D, old = h.frame, h.D, h.ds
        before = Q.snapshot(h.ds) if op[0] == 'dec' and not op[2] else None
        h.do(op)
        if before:
            df = Q.differs(before, old)
            if df:
                violated('copy', 'operation %d, %s as a copy, changed the original: %s' % (i, op, df))
        h.check('after operation %d, %s' % (i, op))
        n += op[0] == 'dec'
        st.state(h.m.kind, h.m.frame0, f, h.frame, op[0], D is None, D == h.D, h.H is not None)
    st.nontrivial = n >= 2 and h.compared > 0
    st.probe('values_compared', h.compared)
