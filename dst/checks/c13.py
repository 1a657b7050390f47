"""C13: a failed frame, declination or head rotation change did not happen."""
import numpy as np

from .. import faultpoint as P
from .. import framehist as Q
from .. import frames as F
from ..core import call, exc_str, legal_candidates, violated
from . import c11

ID = 'C13'
RUNS = {'quick': 250, 'thorough': 12000}
RULE = ('a run = one simulated recording of a drawn instrument, read by the real reader, and a drawn history of frame, '
        'declination and head rotation changes; before each one the same call fails at drawn points (interrupt by the '
        'user or failing allocation at the n-th source line, instruction, Python or C function call), or is requested '
        'of a dataset it is impossible for, and then it is repeated; non-trivial = at least two failures were '
        'delivered inside calls and the states compared; distinct = distinct scenario')
STATES = 'distinct (kind of instrument, frame, operation, fault kind and exception, place in the code it was delivered at) tuples'
REAL = c11.REAL
STUB = ['the instruments (independent encoders)', 'orientation sensors (drawn rotations)', 'user (drawn history)',
        'delivery of interrupts and failing allocations (tracing hooks of the interpreter)']
KEEP = c11.KEEP
ASSUME = ['one failure per call: no second failure while the first one is being handled',
          'an interrupt that arrives when the change is complete may leave it complete',
          'failures inside numpy and xarray arrive at function calls']
SPOILS = ['orientmat', 'variable', 'singular', 'heading', 'model', 'rank', 'pheading', 'decl', 'omatshape', 'decltype']


def generate(rng, tier, i):
    s = c11.generate(rng, tier, i, allow=('rot', 'dec', 'P', 'head', 'bad'), lo=1, hi=6)
    s['flt'] = []
    for _ in s['ops']:
        fs = [[rng.weighted([(m, w) for m, w in zip(P.MODES, (4, 2, 2, 3))]), rng.randrange(10 ** 6),
               rng.pick(sorted(P.EXCS))] for _ in range(rng.weighted([(0, 1), (1, 3), (2, 2), (4, 1)]))]
        s['flt'].append({'at': fs, 'spoil': rng.weighted([(None, 2), (rng.pick(SPOILS), 2)])})
    return s


def legal(s):
    return c11.legal(s) and len(s['flt']) == len(s['ops']) and all(
        f['spoil'] in SPOILS + [None] and all(len(a) == 3 and a[0] in P.MODES and a[2] in P.EXCS for a in f['at'])
        for f in s['flt'])


def candidates(scn):
    for i in range(len(scn['ops'])):
        if len(scn['ops']) > 1:
            yield dict(scn, ops=scn['ops'][:i] + scn['ops'][i + 1:], flt=scn['flt'][:i] + scn['flt'][i + 1:])
    for c in legal_candidates(scn, KEEP + ('at',), legal):
        yield c
    for i, f in enumerate(scn['flt']):
        for j in range(len(f['at'])):
            g = dict(f, at=f['at'][:j] + f['at'][j + 1:])
            yield dict(scn, flt=scn['flt'][:i] + [g] + scn['flt'][i + 1:])


def spoil(ds, kind):
    """A dataset the operation may be impossible for."""
    a = ds.attrs
    if kind == 'orientmat':
        return ds.drop_vars('orientmat', errors='ignore')
    if kind == 'variable':
        a['rotate_vars'] = list(a['rotate_vars']) + ['no_such_velocity']
    elif kind == 'singular':
        ds['beam2inst_orientmat'].values = np.zeros_like(ds['beam2inst_orientmat'].values)
    elif kind == 'heading':
        if 'heading' in ds:
            ds['heading'] = ('time', np.array(['n/a'] * ds.sizes['time'], dtype=object))
    elif kind == 'model':
        a['inst_model'] = 'something else'
        a['inst_make'] = 'unknown'
    elif kind == 'rank':
        a['rotate_vars'] = list(a['rotate_vars']) + ['temp' if 'temp' in ds else 'time']
    elif kind == 'pheading':
        a['principal_heading'] = 'north'
    elif kind == 'decl':
        a['declination'] = 'west'
    elif kind == 'omatshape':
        if 'orientmat' in ds:
            v = ds['orientmat']
            ds = ds.drop_vars('orientmat')
            ds['orientmat'] = v[:, :2]
    elif kind == 'decltype':
        a['declination'] = None
    return ds


def apply(dolfyn, ds, op):
    """-> the dataset with the result"""
    k = op[0]
    if k == 'P':
        if ds.coord_sys != 'principal':
            ds.attrs['principal_heading'] = op[1]
        return ds
    if k == 'bad':
        Q.BAD[op[1] % len(Q.BAD)](dolfyn, ds, bool(op[2]))()
        return ds
    ins, how = op[2], op[3]
    if k == 'rot':
        o = dolfyn.rotate2(ds, op[1], inplace=ins) if how else ds.velds.rotate2(op[1], inplace=ins)
    elif k == 'dec':
        o = dolfyn.set_declination(ds, op[1], inplace=ins) if how else ds.velds.set_declination(op[1], inplace=ins)
    else:
        H = Q.rotmat(op[1])
        o = dolfyn.set_inst2head_rotmat(ds, H, inplace=ins) if how else ds.velds.set_inst2head_rotmat(H, inplace=ins)
    return ds if ins else o


def execute(scn, st, d):
    import dolfyn
    if not legal(scn):
        return
    w, ds = c11.start(scn, st, d, dolfyn)
    if ds is None:
        return
    m = F.Model(w, ds)
    delivered = 0
    for i, (op, fl) in enumerate(zip(scn['ops'], scn['flt'])):
        if op[0] == 'P':
            apply(dolfyn, ds, op)
            continue
        frame = ds.coord_sys
        before = Q.snapshot(ds)
        what = 'operation %d, %s of %s data in the %s frame' % (i, op, m.kind, frame)
        # what it does to a dataset it cannot be done to
        if fl['spoil']:
            b = spoil(ds.copy(deep=True), fl['spoil'])
            sb = Q.snapshot(b)
            r, o = call(apply, dolfyn, b, op)
            if r == 'exc':
                df = Q.differs(sb, b)
                if df:
                    violated('half_done', '%s (dataset with %s spoiled) failed and changed it: %s; %s' % (
                        what, fl['spoil'], df, exc_str(o)))
                st.fault('impossible_' + fl['spoil'])
                delivered += 1
        # what it does without a failure
        ref = ds.copy(deep=True)
        r0, o = call(apply, dolfyn, ref, op)
        if r0 == 'exc':
            df = Q.differs(before, ref)
            if df:
                violated('half_done', '%s failed and changed the dataset: %s; %s' % (what, df, exc_str(o)))
            st.fault('impossible_request')
            delivered += 1
            continue        # a second failure while the first one is handled: not assumed
        else:
            after = Q.snapshot(o)
        done = False
        for mode, n, exc in fl['at']:
            c = P.Point(mode)
            b = ds.copy(deep=True)
            P.run(lambda: apply(dolfyn, b, op), c)
            if not c.count:
                continue
            p = P.Point(mode, n % c.count, exc)
            r, o = P.run(lambda: apply(dolfyn, ds, op), p)
            if not p.fired:
                st.probe('not_delivered')
            st.event(op[0], mode, exc, r, p.fired or '')
            at = '%s with %s at %s %d of %d (%s)' % (what, exc, mode, n % c.count, c.count, p.fired)
            df = Q.differs(before, ds)
            if r == 'exc':
                if df and op[0] in ('rot', 'dec', 'head') and op[2] and not Q.differs(after, ds):
                    st.probe('complete_when_interrupted')
                    done = True
                elif df:
                    violated('half_done', '%s failed, and changed the dataset: %s' % (at, df))
                if p.fired:
                    st.fault(exc + '_at_' + mode)
                    delivered += 1
                    st.state(m.kind, frame, op[0], mode, exc, p.fired)
            else:
                done = op[0] in ('rot', 'dec', 'head') and op[2]
                df = Q.differs(after, o if op[0] != 'bad' else ds)
                if df:
                    violated('wrong_result', '%s returned, with a result unlike that of the same call alone: %s' % (at, df))
            if done:
                break
        if not done:
            r, o = call(apply, dolfyn, ds, op)
            if r == 'exc':
                violated('not_repeatable', '%s failed when repeated after a failure: %s' % (what, exc_str(o)))
            df = Q.differs(after, o)
            if df:
                violated('not_repeatable', '%s gives another result when repeated after a failure: %s' % (what, df))
            st.probe('repeated')
            ds = o
    st.nontrivial = delivered >= 2
