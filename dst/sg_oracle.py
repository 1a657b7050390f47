"""What a reader may return for a given Signature byte stream."""
import json
import numpy as np

from . import sg_enc as S
from .compare import values_equal, time_s, attrs_diff, short
from .core import violated

MEAN = ('c_sound', 'temp', 'pressure', 'temp_press', 'temp_clock', 'batt')
IDLE = tuple('proc_idle_less_%spct' % q for q in (3, 6, 12))
ANGLE = ('heading', 'pitch', 'roll')


def names(c, id, ids):
    """variable -> key in the record, for stream id."""
    t = S.TAG[id]
    out = {}
    q = S.rec(c, id, 0, 0, 1, c['t0'], 0).v
    for k in q:
        if k == 'time':
            continue
        if id == 26:
            m = {'samp': 'samp_altraw', 'dsamp': 'dsamp_altraw', 'le_dist_alt': 'le_dist_altraw',
                 'le_quality_alt': 'le_quality_altraw', 'ast_dist_alt': 'ast_dist_altraw',
                 'ast_quality_alt': 'ast_quality_altraw', 'ast_offset_time_alt': 'ast_offset_time_altraw',
                 'pressure_alt': 'pressure_altraw'}
            if k in m:
                out[m[k]] = k
            continue
        if id == 28 and k == 'echo':
            out['echo'] = k
        elif id == 22 and k == 'orientmat' and 21 not in ids:
            out['orientmat'] = k
        elif id == 24 and (k in MEAN or k in ANGLE):
            continue
        elif id == 21 and k == 'status_alt' and 26 in ids:
            continue
        else:
            out[k + t] = k
    return out


def combine(k, a, b):
    """Sensor value of the ensemble from burst (a) and fifth beam (b)."""
    if a is None or b is None:
        return b if a is None else a
    if k in MEAN:
        return (a + b) / 2
    z = np.exp(1j * np.deg2rad(a)) + np.exp(1j * np.deg2rad(b))
    if abs(z) < 0.05:
        return None             # (nearly) opposite directions: no mean, or an ill-conditioned one
    return np.rad2deg(np.angle(z))


def angle_equal(g, e):
    return abs((float(g) - float(e) + 180) % 360 - 180) < 2e-3


def is_missing(a):
    a = np.asarray(a)
    if a.dtype.kind == 'f':
        return bool((np.isnan(a) | (a == 0)).all())
    return not a.any()


def no_record_ok(k, got, c):
    """A stream that recorded nothing in this ensemble reads as missing: 0 or
    NaN, up to the constant offset of the scaling."""
    g = np.asarray(got, dtype=float)
    if k.startswith('temp_press'):
        return bool((np.isnan(g) | (g == 0) | (np.abs(g + 4) < 1e-5)).all())
    return is_missing(got)


def row_diff(ds, c, i, recs, ids, skip=()):
    """First difference between row i and the records of one ensemble
    ({id: Rec}); ids: streams of the dataset.  skip: ids whose record in this
    ensemble is damaged (any value is possible there)."""
    for id in ids:
        if id == 26 or id in skip:
            continue
        r = recs.get(id)
        both = 21 in ids and 24 in ids
        for nm, k in sorted(names(c, id, ids).items()):
            if both and id == 21 and (k in MEAN or k in ANGLE):
                continue
            if nm not in ds:
                return '%s is missing from the dataset' % nm
            g = ds[nm].values[..., i]
            if r is None:
                if not no_record_ok(nm, g, c):
                    return '%s: %s reported, nothing was recorded' % (nm, short(g))
            else:
                e = np.asarray(r.v[k])
                if id == 24 and e.ndim == 2 and np.ndim(g) == 1:
                    e = e[0]
                if not values_equal(g, e, atol=2e-6):
                    return '%s: got %s, instrument recorded %s' % (nm, short(g), short(e))
        if r is not None and r.v['time'] is not None:
            tn = 'time' + S.TAG[id]
            if tn not in ds.coords and ids == [22]:
                tn = 'time'
            t = time_s(ds[tn].values[i:i + 1])[0]
            if not abs(t - r.v['time']) < 2e-4:
                return '%s is %r, instrument clock says %r' % (tn, t, r.v['time'])
    first = [q for q in (21, 22, 24, 28) if q in ids][0]
    if first not in skip:
        x = recs[first].v['status'] if first in recs else 0
        for nm, j in (('low_volt_skip', 17), ('active_config', 16), ('telemetry_data', 11), ('boost_running', 10)):
            if nm not in ds:
                if ids != [22] or c['ids'] == [22]:
                    return '%s is missing from the dataset' % nm
            elif ds[nm].values[i] != x >> j & 1:
                return '%s is %s, status is %#x' % (nm, ds[nm].values[i], x)
    if 21 in ids and 24 in ids and not ({21, 24} & set(skip)):
        a, b = recs.get(21), recs.get(24)
        if a is None and b is None:
            return None
        for k in MEAN + ANGLE:
            if k not in ds:
                return '%s is missing from the dataset' % k
            e = combine(k, a and a.v[k], b and b.v[k])
            g = ds[k].values[i]
            if e is None:
                continue
            if not (angle_equal(g, e) if k in ANGLE else values_equal(g, e, rtol=3e-6, atol=1e-5)):
                return '%s: got %s, mean of burst and fifth beam records is %s' % (k, g, e)
    return None


def check_ensemble_numbers(ds, c, ids, first=0):
    for id in ids:
        if id == 26:
            continue
        nm = 'ensemble' + S.TAG[id]
        e = ds[nm].values.astype('int64')
        if not (e == np.arange(len(e)) + 1 + first).all():
            violated('numbering', '%s is %s' % (nm, short(e)))


def check_settings(ds, c, ids, omit=(), more={}):
    e = dict(S.expect_attrs(c, ids), **more)
    e = {k: v for k, v in e.items() if k not in omit}
    for k in sorted(e):
        if k.startswith('burst_config') and k in ds.attrs:
            if json.loads(ds.attrs[k]) != e[k]:
                violated('settings', '%s is %s, instrument says %s' % (k, ds.attrs[k], json.dumps(e[k])))
            del e[k]
    d = attrs_diff(ds.attrs, e)
    if d:
        violated('settings', d)
    # (the second profile of two does not repeat them)
    e = S.expect_filehead(c)
    h = json.loads(ds.attrs['filehead_config']) if 21 in ids or 22 not in ids or 21 not in c['ids'] else e
    if h != e:
        k = [k for k in sorted(set(h) | set(e)) if h.get(k) != e.get(k)][0]
        violated('settings', 'configuration line %s is %r, instrument says %r' % (k, h.get(k), e.get(k)))
    if not values_equal(ds['beam2inst_orientmat'].values, S.expect_mat(c)):
        violated('settings', 'beam2inst_orientmat %s' % short(ds['beam2inst_orientmat'].values, 16))
    for id in ids:
        if id in (23, 26):
            continue
        nm = 'range' + S.TAG[id]
        if not values_equal(ds[nm].values, S.expect_range(c, id), atol=1e-4):
            violated('settings', '%s %s, expected %s' % (nm, short(ds[nm].values), short(S.expect_range(c, id))))


def check_altraw(ds, c, raw, skip=()):
    """raw: the altimeter-raw records expected, in order."""
    if not raw:
        return
    k = int(ds['time_altraw'].size)
    if k != len(raw):
        violated('count', '%d raw altimeter records returned, %d expected' % (k, len(raw)))
    for i, r in enumerate(raw):
        for nm, key in sorted(names(c, 26, []).items()):
            g = ds[nm].values[..., i]
            if not values_equal(g, r.v[key], atol=2e-6):
                violated('value ' + nm, 'raw altimeter record %d: %s: got %s, instrument recorded %s' % (
                    i, nm, short(g), short(r.v[key])))
        t = time_s(ds['time_altraw'].values[i:i + 1])[0]
        if r.v['time'] is not None and not abs(t - r.v['time']) < 2e-4:
            violated('value time_altraw', 'record %d: %s, instrument clock says %s' % (i, t, r.v['time']))
