"""C14: what is asked for as a copy, or only calculated, leaves the dataset alone."""
import numpy as np
import xarray as xr

from .. import faultpoint as P
from .. import framehist as Q
from ..core import Hang, exc_str, legal_candidates, quiet, violated
from ..rng import Rng
from ..sched import Sched
from . import c11

ID = 'C14'
RUNS = {'quick': 220, 'thorough': 9000}
RULE = ('a run = one simulated recording of a drawn instrument, read by the real reader, brought to a drawn frame, and '
        'one to four threads sharing the dataset that change frames, declinations and head rotations as copies and '
        'calculate principal headings and derived velocities, switched at drawn source lines; some requests are '
        'impossible and some threads are interrupted; every result is compared with that of the same thread alone and '
        'the dataset with what it was, bit for bit; non-trivial = at least two threads that were switched between; '
        'distinct = distinct scenario')
STATES = 'distinct (kind of instrument, frame, pair of operations neighbouring in the schedule) tuples'
REAL = c11.REAL + ['dolfyn.velocity (derived velocities)']
STUB = ['the instruments (independent encoders)', 'orientation sensors (drawn rotations)',
        'the thread scheduler (cooperative, switch points at source lines of the library)']
KEEP = c11.KEEP
ASSUME = ['threads switch at source lines of the library, not inside numpy or xarray',
          'turbulence vectors in the dataset are drawn numbers']
PROPS = ['u', 'v', 'w', 'U', 'U_mag', 'U_dir', 'tke', 'upvp_', 'upwp_', 'vpwp_', 'upup_', 'vpvp_', 'wpwp_', 'E_coh',
         'I_tke', 'I', 'variables', 'repr', 'attrs']


def gen_op(rng):
    k = rng.weighted([('rot', 4), ('dec', 3), ('head', 1), ('calcP', 2), ('prop', 5), ('bad', 1), ('then', 2)])
    if k == 'rot':
        return ['rot', rng.weighted([('beam', 3), ('inst', 3), ('earth', 3), ('principal', 2)]), 0, int(rng.flip(.6))]
    if k == 'dec':
        return ['dec', rng.pick([0., 15.5, -12.25, 179.5]), 0, int(rng.flip(.6))]
    if k == 'head':
        return ['head', rng.randrange(4), 0, int(rng.flip(.6))]
    if k == 'calcP':
        return ['calcP', rng.randrange(2), rng.randrange(3)]
    if k == 'bad':
        return ['bad', rng.randrange(6), 0]
    if k == 'then':
        return ['then', rng.weighted([('beam', 1), ('inst', 1), ('earth', 1)]), rng.pick(['beam', 'inst', 'earth']),
                rng.pick([0., 10.5])]
    return ['prop', rng.pick(PROPS)]


def generate(rng, tier, i):
    s = c11.generate(rng, tier, i, allow=('rot', 'dec', 'P', 'head'), lo=0, hi=4)
    s['th'] = [[gen_op(rng) for _ in range(rng.randrange(1, 5))]
               for _ in range(rng.weighted([(1, 1), (2, 4), (3, 3), (4, 1)]))]
    s['lines'] = rng.pick([1, 3, 10, 40])
    s['sseed'] = rng.randrange(2 ** 31)
    s['kill'] = [[rng.randrange(4), rng.randrange(2, 300), rng.pick(sorted(P.EXCS))]
                 for _ in range(rng.weighted([(0, 3), (1, 2), (2, 1)]))]
    s['turb'] = rng.randrange(2)
    return s


def legal(s):
    n = {'rot': 4, 'dec': 4, 'head': 4, 'calcP': 3, 'bad': 3, 'then': 4, 'prop': 2}
    return (c11.legal(s) and s['th'] and all(t and all(o and len(o) == n.get(o[0]) for o in t) for t in s['th']) and
            s['lines'] > 0 and all(len(k) == 3 and k[2] in P.EXCS for k in s['kill']))


def candidates(scn):
    return legal_candidates(scn, KEEP + ('sseed',), legal)


def apply(dolfyn, ds, op):
    k = op[0]
    if k == 'calcP':
        v = ds['vel']
        if 'range' in v.dims or 'range_avg' in v.dims:
            v = v.mean([x for x in v.dims if x.startswith('range')][0])
        v = [v, v.values, v[:2]][op[2] % 3]
        return dolfyn.calc_principal_heading(v, tidal_mode=bool(op[1]))
    if k == 'prop':
        if op[1] == 'repr':
            return repr(ds.velds)
        return getattr(ds.velds, op[1])
    if k == 'then':
        o = dolfyn.rotate2(ds, op[1], inplace=False)
        o.velds.set_declination(op[3])
        o.velds.rotate2(op[2])
        return o
    if k == 'bad':
        return Q.BAD[op[1] % len(Q.BAD)](dolfyn, ds, False)()
    from .c13 import apply as ap
    return ap(dolfyn, ds, op)


def record(o):
    if isinstance(o, xr.DataArray):
        o = o.to_dataset(name='__it')
    if isinstance(o, xr.Dataset):
        return Q.snapshot(o)
    if isinstance(o, (np.ndarray, np.generic)):
        return np.array(o)
    return o


def same(a, b):
    if isinstance(a, dict) and 'vars' in a and isinstance(b, dict) and 'vars' in b:
        return Q.differs(a, b)
    return None if Q.attr_eq(a, b) else '%.100r / %.100r' % (a, b)


def program(dolfyn, ds, ops, log):
    def go():
        for i, op in enumerate(ops):
            try:
                log.append((i, 'ok', record(apply(dolfyn, ds, op))))
            except (Hang, KeyboardInterrupt, MemoryError):
                raise
            except Exception as e:
                log.append((i, 'exc', type(e).__name__))
    return go


def execute(scn, st, d):
    import dolfyn
    if not legal(scn):
        return
    w, ds = c11.start(scn, st, d, dolfyn)
    if ds is None:
        return
    h = Q.History(w, ds, st, dolfyn)
    for op in scn['ops']:
        if op[0] in ('rot', 'dec', 'head', 'P') and not (h.m.kind != 'rdi' and h.frame == 'ship'):
            h.do(op)
    ds = h.ds
    if scn['turb'] and 'vel' in ds:
        g = np.random.RandomState(scn['oseed'] % 2 ** 31)
        sh = ds['vel'].shape[1:]
        for nm, dim, lab in (('tke_vec', 'tke', ['upup_', 'vpvp_', 'wpwp_']), ('stress_vec', 'tau', ['upvp_', 'upwp_', 'vpwp_'])):
            ds[nm] = xr.DataArray(g.uniform(-.1, 1, (3,) + sh).astype('float32'), dims=(dim,) + ds['vel'].dims[1:],
                                  coords={dim: lab}, attrs={'units': 'm2 s-2'})
    before = Q.snapshot(ds)
    th = scn['th']
    solo = []
    for ops in th:
        log = []
        c = ds.copy(deep=True)
        with quiet():
            program(dolfyn, c, ops, log)()
        df = Q.differs(before, c)
        if df:
            violated('changed', 'the operations %s on %s data in the %s frame, as copies, changed the dataset: %s' % (
                ops, h.m.kind, h.frame, df))
        solo.append(log)
    kill = {k[0] % len(th): (k[1], P.EXCS[k[2]]) for k in scn['kill']}
    sc = Sched(Rng('sched', scn['sseed']), lines=scn['lines'], kill=kill)
    logs = [[] for _ in th]
    with quiet():
        res = sc.run([program(dolfyn, ds, ops, log) for ops, log in zip(th, logs)])
    what = '%d threads on %s data in the %s frame' % (len(th), h.m.kind, h.frame)
    df = Q.differs(before, ds)
    if df:
        violated('changed', '%s, as copies, changed the dataset: %s; threads: %s' % (what, df, th))
    n = 0
    for k, (log, want, r) in enumerate(zip(logs, solo, res)):
        if k in sc.killed:
            st.fault('thread_interrupted')
        elif r[0] != 'ok' or len(log) != len(want):
            violated('failed', '%s: thread %d %s ended with %s' % (what, k, th[k], exc_str(r[1])))
        for a, b in zip(log, want):
            if a[1] != b[1]:
                violated('failed', '%s: %s of thread %d: %s, alone: %s' % (what, th[k][a[0]], k, a[1:], b[1:]))
            df = same(b[2], a[2])
            if df:
                violated('result', '%s: %s of thread %d gives another result than alone: %s' % (what, th[k][a[0]], k, df))
            n += 1
            if a[1] == 'exc':
                st.fault('impossible_request')
    st.probe('results_compared', n)
    st.probe('thread_switches', sc.switches)
    st.event(tuple(sc.trace[:200]), sc.switches)
    for a in th:
        for b in th:
            if a is not b:
                for x in a:
                    for y in b:
                        st.state(h.m.kind, h.frame, min(x[0], y[0]), max(x[0], y[0]),
                                 x[1] if x[0] in ('rot', 'prop') else '', y[1] if y[0] in ('rot', 'prop') else '')
    st.nontrivial = len(th) > 1 and sc.switches > 1
