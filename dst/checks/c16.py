"""C16: failed and interrupted saves."""
import errno
import gc
import os
import shutil

import numpy as np

from .. import disk
from .. import faultpoint as P
from .. import framehist as Q
from .. import recordings as W
from .. import stored as T
from ..core import call, exc_str, legal_candidates, violated
from ..rng import Rng
from . import c15

ID = 'C16'
RUNS = {'quick': 170, 'thorough': 6000}
HANG_S = 120
RULE = ('a run = simulated recordings, read by the real readers, and a drawn history of saves (two datasets, two file '
        'formats, new files and files saved before) on a disk that fills up, fails, writes less than asked for or fails to '
        'sync, close or rename at drawn operations, interrupts and failing allocations within save, and attributes and '
        'places that cannot be saved; after every save the file is loaded in a pristine process, failed saves are done '
        'again, and the disk is reconstructed as it is after a crash or a loss of power at drawn points and loaded as well; '
        'non-trivial = a save failed by a fault, or the state after a crash differs from the states before and after; '
        'distinct = distinct scenario')
STATES = ('distinct (format, something saved there before, kind of fault, operation that failed or the crash point falls on, '
          'outcome of save, what the file then loads as) tuples')
REAL = ['dolfyn.save, dolfyn.load, dolfyn.save_mat, dolfyn.load_mat', 'dolfyn.read and the readers', 'xarray',
        'netCDF4 and HDF5 libraries', 'scipy.io']
STUB = ['the instruments (independent encoders)', 'failing disk (interposed C library calls)',
        'crash and loss of power (the disk is reconstructed from the record of all operations)', 'user (drawn history)']
KEEP = W.KEEP
ASSUME = ['a sync of a file makes its contents durable, a sync of a directory its entries; unsynced contents arrive in sectors '
          'of 512 bytes, each or not; unsynced changes of directories are lost from some point on',
          'time stamps are kept to the resolution of the formats (see C15 and C17)',
          'the resources of netCDF files of which closing failed may stay in use until the process ends']
ERR = ['ENOSPC', 'EIO', 'EDQUOT', 'EACCES', 'EFBIG']
FILES = ['out', 'sub.d/x-1s.2020']
EXT = ['.nc', '.mat']


def gen_fault(rng):
    k = rng.weighted([('none', 3), ('err', 4), ('short', 1), ('cap', 2), ('point', 2)])
    at = rng.randrange(rng.pick([3, 12, 40, 120, 600]))
    if k == 'err':
        return [k, at, rng.pick([1, 1, 2, 10000]), rng.pick(ERR)]
    if k == 'short':
        return [k, at, rng.pick([1, 3, 10000]), rng.pick([0, 1, 500, 999])]
    if k == 'cap':
        return [k, rng.pick([0, 1, 47, 48, 2048, 4096, 10000, rng.randrange(60000)])]
    if k == 'point':
        m = rng.pick(['line', 'op', 'pycall', 'pycall'])
        return [k, m, rng.randrange({'line': 60, 'op': 600, 'pycall': rng.pick([100, 3000])}[m]), rng.pick(['interrupt', 'memory'])]
    return [k]


def gen_crash(rng):
    return {'at': rng.randrange(1001), 'tail': int(rng.flip(.4)), 'power': int(rng.flip(.5)), 'part': rng.pick([0, 1, 500, 999, 1000]),
            'keep': rng.pick([0, 100, 500, 900, 1000]), 'seed': rng.randrange(2 ** 31), 'again': int(rng.flip(.1))}


def gen_op(rng):
    k = rng.weighted([('save', 8), ('change', 3), ('bad', 1), ('place', 1)])
    if k == 'save':
        return [k, rng.randrange(2), int(rng.flip(.4)), rng.randrange(len(FILES)), int(rng.flip(.3)),
                gen_fault(rng), [gen_crash(rng) for _ in range(rng.weighted([(0, 1), (4, 3), (8, 1)]))]]
    if k == 'bad':
        return [k, rng.randrange(2), int(rng.flip(.4)), rng.randrange(len(FILES)), rng.randrange(4)]
    if k == 'place':
        return [k, rng.randrange(2), int(rng.flip(.4)), rng.randrange(3)]
    while True:
        op = T.gen_change(rng)
        if op[0] != 'attr' or valid(T.ATTRS[op[1] % len(T.ATTRS)]):
            return ['user', rng.randrange(2), op]


def valid(a):
    from . import c17
    return c17.valid(a)


def generate(rng, tier, i):
    return {'recs': [W.gen(rng, tier, maxn=rng.pick([1, 2, 5]), cut=0) for _ in range(2)],
            'ops': [gen_op(rng) for _ in range(rng.randrange(1, 6))]}


LEN = {'save': 7, 'bad': 5, 'place': 4, 'user': 3}


def legal(s):
    return (len(s['recs']) == 2 and all(W.legal(r) for r in s['recs']) and all(
        o and len(o) == LEN[o[0]] and (o[0] != 'user' or len(o[2]) == 3) and
        (o[0] != 'save' or o[5] and len(o[5]) == {'none': 1, 'err': 4, 'short': 4, 'cap': 2, 'point': 4}[o[5][0]])
        for o in s['ops']) and
        all(o[2][0] != 'attr' or valid(T.ATTRS[o[2][1] % len(T.ATTRS)]) for o in s['ops'] if o[0] == 'user'))


def candidates(scn):
    return legal_candidates(scn, KEEP, legal)


# ---------------------------------------------------------------- the server
_s = {}


def setup():
    import atexit
    _s['so'] = disk.build()
    atexit.register(shutil.rmtree, os.path.dirname(_s['so']), True)


def server():
    if _s.get('pid') != os.getpid():
        _s['pid'] = os.getpid()
        _s['it'] = disk.Server(_s['so'])
    return _s['it']


def execute(scn, st, d):
    if not legal(scn):
        return
    server().run('dst.checks.c16', scn, st, d)


# -------------------------------------------------------------------- a run
TNS = [500, 2000]


def storers(dolfyn, fmt, comp):
    if fmt:
        return (lambda ds, p: dolfyn.save_mat(ds, p, datenum=False)), (lambda p: dolfyn.load_mat(p, datenum=False))
    return (lambda ds, p: dolfyn.save(ds, p, compression=bool(comp))), dolfyn.load


class Loads(object):
    """Loads files in forks of this process (which never saves)."""

    def __init__(self, dolfyn):
        self.dolfyn = dolfyn

    def __call__(self, jobs, cands):
        """jobs: [(fmt, path)] -> for each: 'error: ...' | 'died' | index into cands | 'differs: ...'"""
        def work():
            out = []
            for (fmt, p), cs in zip(jobs, cands):
                r, v = call(storers(self.dolfyn, fmt, 0)[1], p)
                if r == 'exc':
                    out.append('error: ' + exc_str(v)[:150])
                    continue
                g = Q.snapshot(v)
                df = [T.lost(c, g, TNS[fmt]) if c is not None else '(nothing)' for c in cs]
                out.append(df.index(None) if None in df else 'differs: ' + ' / '.join(df)[:300])
            return out
        r, v = disk.in_fork(work)
        return v if r == 'ok' else ['died: %s %s' % (r, v)] * len(jobs)


def inside(scn, st, d):
    import dolfyn
    sets = []
    for r in scn['recs']:
        w, ds = c15.start({'rec': r, 'dual': 0, 'pick': 0}, st, d, dolfyn)
        if ds is None:
            return
        sets.append(ds)
    shim = disk.Shim()
    root = d + '/disk'
    for x in (root, root + '/sub.d'):
        os.mkdir(x)
    load = Loads(dolfyn)
    prev = {}
    failed = mixed = 0
    for q, op in enumerate(scn['ops']):
        what = 'operation %d, %s' % (q, op[:6])
        k = op[0]
        ds = sets[op[1] % 2]
        if k == 'user':
            a = T.change(ds, op[2], dolfyn)
            if a is not None:
                sets[op[1] % 2] = a
                st.fault('user_' + op[2][0])
            continue
        fmt = op[2] % 2
        save = storers(dolfyn, fmt, op[4] if k == 'save' else 0)[0]
        before = Q.snapshot(ds)
        if k == 'place':
            failed += place(op, root, ds, save, before, what, st)
            continue
        name = FILES[op[3] % len(FILES)] + EXT[fmt]
        p = root + '/' + name
        old = prev.get(name)
        if k == 'bad':
            failed += bad(op, p, ds, save, before, old, prev, name, fmt, load, what, st)
            continue
        fault, crashes = op[5], op[6]
        img = disk.image(root)
        fs, cap, point = plan(fault)
        gc.collect()    # files a failed save left open are closed now, not at some time
        shim.arm(root, fs, cap)
        if point:
            r, v = P.run(lambda: save(ds, p), point)
        else:
            r, v = call(save, ds, p)
        n, fired, ops = shim.disarm()
        fired += bool(point and point.fired)
        where = 'none'
        if fired:
            st.fault('%s_%s' % (fault[0], fault[3] if fault[0] in ('err', 'point') else ''))
            bad_ops = [o for o in ops if o[1]]
            where = point.fired.split(':')[0] if point else disk.NAMES[bad_ops[0][0]] if bad_ops else fault[0]
        st.event('save', r, n, fired, where, [(o[0], o[1], len(o[5])) for o in ops])
        df = Q.differs(before, ds)
        if df:
            violated('changed', '%s (%s) changed the dataset in memory: %s' % (what, r, df))
        if r == 'exc' and not fired:
            violated('save_failed', '%s failed without a fault: %s' % (what, exc_str(v)))
        got = load([(fmt, p)], [[before, old]])[0]
        outcome(got, r == 'ok', old, what + (': saving raised %s' % exc_str(v) if r == 'exc' else ''))
        st.state(fmt, old is not None, fault[0], where, r, str(got)[:5])
        failed += r == 'exc'
        # the disk after a crash or a loss of power in the middle
        jobs, cands, info = [], [], []
        for c, cr in enumerate(crashes):
            at = max(0, len(ops) - cr['at'] % 6) if cr['tail'] else cr['at'] * (len(ops) + 1) // 1001
            if cr['power']:
                im = disk.power(img, ops, at, Rng(cr['seed']), cr['keep'] / 1000.)
                st.fault('power_loss')
            else:
                im = disk.crash(img, ops, at, cr['part'])
                st.fault('process_crash')
            to = '%s/crash%d' % (d, c)
            disk.materialise(im, root, to)
            os.makedirs(to + '/sub.d', exist_ok=True)
            jobs.append((fmt, to + '/' + name))
            cands.append([before, old])
            info.append((at, cr, to))
        for (at, cr, to), g, j in zip(info, load(jobs, cands) if jobs else [], jobs):
            w = '%s, then %s after %d of %d disk operations (%s)' % (
                what, 'a loss of power' if cr['power'] else 'a crash', at, len(ops), disk.NAMES[ops[at][0]] if at < len(ops) else 'end')
            outcome(g, r == 'ok' and at == len(ops), old, w)
            st.state(fmt, old is not None, 'power' if cr['power'] else 'crash', disk.NAMES[ops[at][0]] if at < len(ops) else 'end',
                     r, str(g)[:5])
            mixed += 0 < at < len(ops)
            if cr['again']:
                def again():
                    save(ds, j[1])
                a = disk.in_fork(again)
                if a[0] != 'ok':
                    violated('not_repeatable', '%s: saving again after the crash: %s' % (w, a))
                outcome(load([j], [[before]])[0], True, None, w + ', saved again')
                st.probe('saved_again_after_crash')
        for _, _, to in info:
            shutil.rmtree(to)
        if r == 'exc':
            r, v = call(save, ds, p)
            if r == 'exc':
                violated('not_repeatable', '%s: saving again, without faults: %s' % (what, exc_str(v)))
            outcome(load([(fmt, p)], [[before]])[0], True, None, what + ', saved again')
            df = Q.differs(before, ds)
            if df:
                violated('changed', '%s, saved again, changed the dataset in memory: %s' % (what, df))
        prev[name] = before
        st.probe('saves')
    st.nontrivial = bool(failed or mixed)


def outcome(g, ok, old, what):
    if g == 0 or (not ok and (isinstance(g, str) and g.startswith('error') or g == 1 and old is not None)):
        return
    if ok:
        violated('acknowledged', '%s: saved without an error, but the file loads as: %s' % (
            what, 'what was there before' if g == 1 else g))
    violated('corrupt', '%s: the file loads without an error as something that was never saved: %s' % (what, g))


def plan(f):
    """-> shim faults, capacity, Point"""
    if f[0] == 'err':
        return [(f[1], f[2], getattr(errno, f[3]), 0)], -1, None
    if f[0] == 'short':
        return [(f[1], f[2], 0, f[3])], -1, None
    if f[0] == 'cap':
        return [], f[1], None
    if f[0] == 'point':
        return [], -1, P.Point(f[1], f[2], f[3])
    return [], -1, None


BADATTR = [{'a': {'b': None}}, len, None, {1, 2}]


def bad(op, p, ds, save, before, old, prev, name, fmt, load, what, st):
    """An attribute that cannot be stored."""
    ds.attrs['bad'] = BADATTR[op[4] % len(BADATTR)]
    full = Q.snapshot(ds)
    r, v = call(save, ds, p)
    df = Q.differs(full, ds)
    if df:
        violated('changed', '%s (%s) changed the dataset in memory: %s' % (what, r, df))
    del ds.attrs['bad']
    if r == 'exc':
        st.fault('unstorable_attribute')
        outcome(load([(fmt, p)], [[before, old]])[0], False, old, what + ': saving raised %s' % exc_str(v))
    r2, v = call(save, ds, p)
    if r2 == 'exc':
        violated('not_repeatable', '%s: saving without the attribute: %s' % (what, exc_str(v)))
    outcome(load([(fmt, p)], [[before]])[0], True, None, what + ', without the attribute')
    prev[name] = before
    return r == 'exc'


def place(op, root, ds, save, before, what, st):
    """A place where nothing can be saved."""
    ext = EXT[op[2] % 2]
    p = root + ['/missing/x' + ext, '/isdir' + ext, '/x.wrong'][op[3] % 3]
    if op[3] % 3 == 1:
        os.makedirs(p, exist_ok=True)
    r, v = call(save, ds, p)
    if r == 'ok':
        violated('acknowledged', '%s: saving to %s returned without an error' % (what, p[len(root):]))
    df = Q.differs(before, ds)
    if df:
        violated('changed', '%s changed the dataset in memory: %s' % (what, df))
    st.fault('impossible_place')
    return True
