"""C11: frames of reference do not depend on the way they were reached."""
from .. import framehist as Q
from .. import frames as F
from ..core import call, exc_str, legal_candidates, violated

ID = 'C11'
RUNS = {'quick': 700, 'thorough': 30000}
RULE = ('a run = one simulated recording of a drawn instrument, read by the real reader, and a drawn history of frame '
        'changes on it (in place and as copies, impossible requests in between, missing samples), every state compared '
        'with a double precision model that goes directly from the recorded frame; non-trivial = at least two frame '
        'changes were executed and values compared; distinct = distinct scenario')
STATES = 'distinct (kind of instrument, recorded frame, frame before, request, copy or in place) tuples'
REAL = ['dolfyn.rotate', 'dolfyn.velocity (accessors)', 'dolfyn.read and the readers', 'xarray', 'numpy']
STUB = ['the instruments (independent encoders)', 'orientation sensors (drawn rotations)', 'user (drawn history)']
KEEP = F.KEEP + ('oseed',)
ASSUME = ['orientation matrices of sensors that deliver matrices are rotations, and transformation matrices realistic',
          'samples that pass the earth frame without a known orientation are lost',
          'three-component IMU vectors of three-beam instruments follow the beam frame, as in the reference data of '
          'the existing tests',
          'data recorded in the ship frame can be rotated to the earth frame, and not back']
OPS = ('rot', 'P', 'calcP', 'bad', 'head')


def gen_op(rng, allow):
    k = rng.weighted([(o, {'rot': 10, 'P': 2, 'calcP': 1, 'bad': 1, 'head': .7, 'dec': 6}[o]) for o in allow])
    if k == 'rot':
        return ['rot', rng.weighted([('beam', 3), ('inst', 3), ('earth', 3), ('principal', 2)]), int(rng.flip(.7)),
                int(rng.flip(.6))]
    if k == 'P':
        return ['P', rng.pick([0., 90., -45.5, 123.4, 271.25])]
    if k == 'calcP':
        return ['calcP', rng.randrange(2)]
    if k == 'bad':
        return ['bad', rng.randrange(6), rng.randrange(2)]
    if k == 'head':
        return ['head', rng.randrange(4), int(rng.flip(.7)), int(rng.flip(.6))]
    return ['dec', rng.weighted([(0., 2), (0, .5), (rng.pick([15.5, -12.25, 3, 179.5, -180., 7.125]), 5)]),
            int(rng.flip(.7)), int(rng.flip(.6))]


def generate(rng, tier, i, allow=OPS, lo=2, hi=14):
    s = F.gen_ds(rng, tier)
    s['ops'] = [gen_op(rng, allow) for _ in range(rng.randrange(lo, hi))]
    s['pick'] = rng.randrange(2)
    return s


def legal(s):
    n = {'rot': 4, 'dec': 4, 'head': 4, 'P': 2, 'calcP': 2, 'bad': 3}
    return F.legal_ds(s) and all(o and len(o) == n.get(o[0]) for o in s['ops'])


def candidates(scn):
    return legal_candidates(scn, KEEP, lambda c: c['rec']['fam'] and all(
        isinstance(o, list) and o for o in c['ops']) and legal(c))


def start(scn, st, d, dolfyn):
    w, r, dss = F.prepare(scn, d, dolfyn, call)
    st.simtime += w.seconds()
    if r == 'exc' or not dss:
        st.event('unread', exc_str(dss) if r == 'exc' else '')
        return None, None
    ds = F.realistic(w, dss[scn['pick'] % len(dss)], scn)
    if any(v not in ds for v in ds.attrs['rotate_vars']):
        violated('rotate_vars', 'rotate_vars lists %s, which are not in the dataset' % sorted(
            v for v in ds.attrs['rotate_vars'] if v not in ds))
    return w, ds


def execute(scn, st, d):
    import dolfyn
    if not legal(scn):
        return
    w, ds = start(scn, st, d, dolfyn)
    if ds is None:
        return
    h = Q.History(w, ds, st, dolfyn)
    h.check('as read')
    n = 0
    for i, op in enumerate(scn['ops']):
        if h.m.kind != 'rdi' and h.frame == 'ship':
            break
        f = h.frame
        before = Q.snapshot(h.ds) if op[0] in ('rot', 'dec', 'head') and not op[2] else None
        old = h.ds
        h.do(op)
        if before:
            df = Q.differs(before, old)
            if df:
                violated('copy', 'operation %d, %s as a copy, changed the original: %s' % (i, op, df))
        h.check('after operation %d, %s' % (i, op))
        n += op[0] in ('rot', 'dec')
        st.state(h.m.kind, h.m.frame0, f, h.frame, op[0], bool(before), h.H is not None, h.P is not None)
    st.nontrivial = n >= 2 and h.compared > 0
    if h.frame == h.m.frame0 and len(h.path) > 2:
        st.probe('back_in_the_recorded_frame')
    st.probe('values_compared', h.compared)
