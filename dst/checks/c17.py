"""C17: MATLAB files give back what was saved, through any cycles."""
import os
import time

import numpy as np

from .. import framehist as Q
from .. import recordings as W
from .. import stored as T
from ..core import call, exc_str, legal_candidates, violated
from . import c15
from .c10 import TZS

ID = 'C17'
RUNS = {'quick': 420, 'thorough': 12000}
HANG_S = 40
RULE = ('a run = one simulated recording, read by the real reader, and a drawn history of changes by the user (frames, '
        'declination, attributes, missing values, subsets), saves in one of the two time formats and loads, in drawn time '
        'zones; every file is loaded and compared with the dataset saved, the dataset in memory with what it was, and '
        'the last one with a copy that was never stored; non-trivial = at least two saves with a load in between; '
        'distinct = distinct scenario')
STATES = 'distinct (instrument, sets of dimensions, previous operation, time format, time zone, number of earlier cycles) tuples'
REAL = ['dolfyn.save_mat, dolfyn.load_mat', 'dolfyn.time', 'dolfyn.read and the readers', 'dolfyn.rotate', 'xarray', 'scipy.io']
STUB = ['the instruments (independent encoders)', 'user (drawn history)']
KEEP = W.KEEP
ASSUME = ['containers of attributes are not preserved by the format: lists, arrays and tuples are the same, as are a value and '
          'a list of it, and booleans and numbers',
          'names of attributes are valid MATLAB names of less than 32 characters (else saving fails or they are skipped with a '
          'warning); texts in vectors are padded to the same length with spaces',
          'time stamps are kept to 0.1 ms in the datenum format (as documented) and 2 microseconds in the epoch format']
NAMES = ['out.mat', 'out2', 'a.b-1s.20200101.000000.mat', 'sub.d/x.mat']
TNS = [2000, 100000]


def gen_op(rng):
    k = rng.weighted([('save', 5), ('change', 5), ('load', 3), ('tz', 1)])
    if k == 'save':
        return [k, int(rng.flip(.6)), rng.randrange(len(NAMES))]
    if k == 'load':
        return [k, rng.randrange(4)]
    if k == 'tz':
        return [k, rng.randrange(len(TZS))]
    while True:
        op = T.gen_change(rng)
        if op[0] != 'attr' or valid(T.ATTRS[op[1] % len(T.ATTRS)]):
            return ['user'] + op


def valid(a):
    return ' ' not in a[0] and a[0][0] != '_' and len(a[0]) < 32 and not (
        isinstance(a[1], list) and any(str(x).endswith(' ') for x in a[1]))


def generate(rng, tier, i):
    s = {'rec': W.gen(rng, tier, maxn=rng.pick([1, 2, 5, 20]), cut=.1), 'dual': int(rng.flip(.3)), 'pick': rng.randrange(2)}
    s['ops'] = [gen_op(rng) for _ in range(rng.randrange(2, 10))] + [['save', int(rng.flip(.5)), 0]]
    return s


LEN = {'save': 3, 'load': 2, 'tz': 2, 'user': 4}


def legal(s):
    return W.legal(s['rec']) and all(o and len(o) == LEN[o[0]] for o in s['ops']) and all(
        o[1] != 'attr' or valid(T.ATTRS[o[2] % len(T.ATTRS)])
        for o in s['ops'] if o[0] == 'user')


def candidates(scn):
    return legal_candidates(scn, KEEP, legal)


def execute(scn, st, d):
    if not legal(scn):
        return
    try:
        inside(scn, st, d)
    finally:
        os.environ['TZ'] = 'UTC'
        time.tzset()


def inside(scn, st, d):
    import dolfyn
    w, ds = c15.start(scn, st, d, dolfyn)
    if ds is None:
        return
    os.mkdir(d + '/sub.d')
    ref = ds.copy(deep=True)
    saved = {}
    cycles = loads = nrot = 0
    prev = 'read'
    tns = 0
    for q, op in enumerate(scn['ops']):
        k = op[0]
        what = 'operation %d, %s (TZ %s)' % (q, op, os.environ.get('TZ'))
        if k == 'tz':
            os.environ['TZ'] = TZS[op[1] % len(TZS)]
            time.tzset()
            st.fault('time_zone_change')
        elif k == 'save':
            _, dn, name = op
            before = Q.snapshot(ds)
            p = NAMES[name % len(NAMES)]
            r, v = call(dolfyn.save_mat, ds, d + '/' + p, datenum=bool(dn))
            st.event('save', r, sorted(before['vars']))
            if r == 'exc':
                violated('save_failed', '%s failed: %s' % (what, exc_str(v)))
            df = Q.differs(before, ds)
            if df:
                violated('changed', '%s changed the dataset in memory: %s' % (what, df))
            r, v = call(dolfyn.load_mat, d + '/' + p, datenum=bool(dn))
            if r == 'exc':
                violated('load_failed', 'what %s saved cannot be loaded: %s' % (what, exc_str(v)))
            df = T.lost(before, Q.snapshot(v), TNS[dn])
            if df:
                violated('differs', '%s (%d earlier cycles): (first: saved, second: loaded) %s' % (what, cycles, df))
            st.state(w.fam, T.coarse(ds), prev, dn, os.environ.get('TZ'), min(loads, 3))
            saved[p] = (before, ref.copy(deep=True), nrot, dn, max(tns, TNS[dn]))
            last = p
            cycles += 1
        elif k == 'load':
            if not saved:
                continue
            p = last if op[1] else sorted(saved)[0]
            r, v = call(dolfyn.load_mat, d + '/' + p, datenum=bool(saved[p][3]))
            if r == 'exc':
                violated('load_failed', '%s: %s cannot be loaded: %s' % (what, p, exc_str(v)))
            df = T.lost(saved[p][0], Q.snapshot(v), TNS[saved[p][3]])
            if df:
                violated('differs', '%s: %s: (first: saved, second: loaded) %s' % (what, p, df))
            ds, ref, nrot, tns = v, saved[p][1].copy(deep=True), saved[p][2], saved[p][4]
            loads += 1
        else:
            a = T.change(ds, op[1:], dolfyn)
            b = T.change(ref, op[1:], dolfyn)
            if (a is None) != (b is None):
                violated('differs', '%s is %s for the stored dataset and %s for one that was never stored' % (
                    what, *('impossible' if x is None else 'possible' for x in (a, b))))
            if a is None:
                continue
            ds, ref = a, b
            nrot += op[1] in ('rot', 'dec')
            st.fault('user_' + op[1])
        prev = k
    with np.errstate(all='ignore'):
        df = T.lost(Q.snapshot(ref), Q.snapshot(ds), tns * 1.5, tol=1e-5 * (1 + nrot))
    if df:
        violated('differs', 'at the end, after %d cycles: (first: never stored, second: stored) %s' % (loads, df))
    st.probe('cycles', cycles)
    st.nontrivial = cycles >= 2 and loads >= 1
