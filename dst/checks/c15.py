"""C15: netCDF files give back what was saved, through any cycles."""
import os

import numpy as np

from .. import framehist as Q
from .. import recordings as W
from .. import stored as T
from ..core import call, exc_str, legal_candidates, violated

ID = 'C15'
RUNS = {'quick': 260, 'thorough': 12000}
HANG_S = 40
RULE = ('a run = one simulated recording, read by the real reader, and a drawn history of changes by the user (frames, '
        'declination, attributes, complex values, flags, missing values, subsets), saves with drawn options and loads; '
        'every file is loaded, compared with the dataset saved and with a second file saved from it, the dataset in memory '
        'with what it was, and the last one with a copy that was never stored; non-trivial = at least two saves with a '
        'load in between; distinct = distinct scenario')
STATES = 'distinct (instrument, sets of dimensions, previous operation, compression, options, number of earlier cycles) tuples'
REAL = ['dolfyn.save, dolfyn.load', 'dolfyn.read and the readers', 'dolfyn.rotate', 'xarray', 'netCDF4 and HDF5 libraries']
STUB = ['the instruments (independent encoders)', 'user (drawn history)']
KEEP = W.KEEP
ASSUME = ['containers of attributes are not preserved by the format: lists, arrays and tuples are the same, as are a value and '
          'a list of it, and booleans and numbers; the units of time stamps are part of their encoding',
          'time stamps are kept to 0.5 microseconds']
NAMES = ['out.nc', 'out2', 'a.b-1s.20200101.000000.nc', 'sub.d/x.nc']
ENC = [None, None, None, {'vel': {'zlib': True, 'complevel': 4}}, {'vel': {'dtype': 'float64'}}, {}]


def gen_op(rng):
    k = rng.weighted([('save', 5), ('change', 5), ('load', 3)])
    if k == 'save':
        return [k, int(rng.flip(.4)), rng.randrange(len(NAMES)), rng.randrange(len(ENC))]
    if k == 'load':
        return [k, rng.randrange(4)]
    return T.gen_change(rng)


def generate(rng, tier, i):
    s = {'rec': W.gen(rng, tier, maxn=rng.pick([1, 2, 5, 20]), cut=.1), 'dual': int(rng.flip(.3)), 'pick': rng.randrange(2)}
    s['ops'] = [gen_op(rng) for _ in range(rng.randrange(2, 10))] + [['save', 0, 0, 0]]
    return s


def legal(s):
    return W.legal(s['rec']) and all(o and len(o) == {'save': 4, 'load': 2}.get(o[0], 3) for o in s['ops'])


def candidates(scn):
    return legal_candidates(scn, KEEP, legal)


def start(scn, st, d, dolfyn):
    w = W.Recording(scn['rec'])
    p = d + '/rec.' + w.ext
    with open(p, 'wb') as f:
        f.write(w.b)
    k = {'dual_profile': True} if w.fam == 'sg' and scn['dual'] else {}
    r, ds = call(dolfyn.read, p, **k)
    st.simtime += w.seconds()
    if r == 'exc':
        st.event('unread', exc_str(ds))
        return w, None
    if isinstance(ds, tuple):
        ds = ds[scn['pick'] % 2]
    os.unlink(p)
    return w, ds


def execute(scn, st, d):
    import dolfyn
    if not legal(scn):
        return
    w, ds = start(scn, st, d, dolfyn)
    if ds is None:
        return
    os.mkdir(d + '/sub.d')
    os.chdir(d)
    ref = ds.copy(deep=True)
    saved = {}
    cycles = loads = nrot = 0
    prev = 'read'
    for q, op in enumerate(scn['ops']):
        k = op[0]
        what = 'operation %d, %s' % (q, op)
        if k == 'save':
            _, comp, name, enc = op
            kw = {'compression': bool(comp)}
            e = ENC[enc % len(ENC)]
            if e is not None and all(x in ds for x in e):
                kw['encoding'] = {x: dict(y) for x, y in e.items()}
            before = Q.snapshot(ds)
            p = NAMES[name % len(NAMES)]
            r, v = call(dolfyn.save, ds, d + '/' + p, **kw)
            st.event('save', r, sorted(before['vars']))
            if r == 'exc':
                violated('save_failed', '%s failed: %s' % (what, exc_str(v)))
            df = Q.differs(before, ds, encoding=False)
            if df:
                violated('changed', '%s changed the dataset in memory: %s' % (what, df))
            if kw.get('encoding') is not None and kw['encoding'] != {x: dict(y) for x, y in e.items()}:
                violated('changed', '%s changed the encoding it was given' % what)
            r, v = call(dolfyn.load, d + '/' + p)
            if r == 'exc':
                violated('load_failed', 'what %s saved cannot be loaded: %s' % (what, exc_str(v)))
            got = Q.snapshot(v)
            df = T.lost(before, got, 500)
            if df:
                violated('differs', '%s (%d earlier cycles): (first: saved, second: loaded) %s' % (what, cycles, df))
            r, v2 = call(dolfyn.save, ds, d + '/again.nc', **kw)
            if r == 'exc':
                violated('save_failed', '%s failed the second time: %s' % (what, exc_str(v2)))
            r, v2 = call(dolfyn.load, d + '/again.nc')
            if r == 'exc':
                violated('load_failed', 'what %s saved the second time cannot be loaded: %s' % (what, exc_str(v2)))
            df = Q.differs(got, v2, encoding=False)
            if df:
                violated('twice', '%s, done twice, gives files that load differently: %s' % (what, df))
            st.state(w.fam, T.coarse(ds), prev, comp, enc, min(loads, 3))
            saved[p] = (before, ref.copy(deep=True), nrot)
            last = p
            cycles += 1
        elif k == 'load':
            if not saved:
                continue
            p = last if op[1] else sorted(saved)[0]
            r, v = call(dolfyn.load, d + '/' + p)
            if r == 'exc':
                violated('load_failed', '%s: %s cannot be loaded: %s' % (what, p, exc_str(v)))
            df = T.lost(saved[p][0], Q.snapshot(v), 500)
            if df:
                violated('differs', '%s: %s: (first: saved, second: loaded) %s' % (what, p, df))
            ds, ref, nrot = v, saved[p][1].copy(deep=True), saved[p][2]
            loads += 1
        else:
            a = T.change(ds, op, dolfyn)
            b = T.change(ref, op, dolfyn)
            if (a is None) != (b is None):
                violated('differs', '%s is %s for the stored dataset and %s for one that was never stored' % (
                    what, *('impossible' if x is None else 'possible' for x in (a, b))))
            if a is None:
                continue
            ds, ref = a, b
            nrot += k in ('rot', 'dec')
            st.fault('user_' + k)
        prev = k
    with np.errstate(all='ignore'):
        df = T.lost(Q.snapshot(ref), Q.snapshot(ds), 500, tol=1e-5 * (1 + nrot))
    if df:
        violated('differs', 'at the end, after %d cycles: (first: never stored, second: stored) %s' % (loads, df))
    st.probe('cycles', cycles)
    st.nontrivial = cycles >= 2 and loads >= 1
