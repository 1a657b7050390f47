"""What a reader may return for a given classic Nortek byte stream."""
import numpy as np

from . import nk_enc as N
from .compare import values_equal, time_s, attrs_diff, short
from .core import violated

INTERP = ('batt', 'c_sound', 'heading', 'pitch', 'roll', 'temp')
SAMPLE = {'VEC': ('vel', 'amp', 'corr', 'pressure'),
          'WPR': ('vel', 'amp', 'pressure', 'error', 'batt', 'c_sound', 'heading',
                  'pitch', 'roll', 'status', 'temp'),
          'VNO': ('vel', 'amp', 'corr', 'status')}
IMU = ('accel', 'angrt', 'mag', 'orientmat')
TOL = 5e-3


def value(ds, nm, i):
    return ds[nm].values[..., i]


def sample_diff(ds, c, i, s, imu=None, time=True):
    """First difference between time step i and sample record s, or None."""
    for nm in SAMPLE[c['inst']]:
        if nm not in ds:
            return '%s is missing from the dataset' % nm
        if not values_equal(value(ds, nm, i), s.v[nm], atol=2e-6):
            return '%s: got %s, instrument recorded %s' % (nm, short(value(ds, nm, i)), short(s.v[nm]))
    if imu is not None:
        for nm in IMU:
            if nm not in imu.v:
                continue
            if nm not in ds:
                return '%s is missing from the dataset' % nm
            if not values_equal(value(ds, nm, i), imu.v[nm], rtol=2e-6, atol=1e-5):
                return '%s: got %s, IMU recorded %s' % (nm, short(value(ds, nm, i)), short(imu.v[nm]))
    if time and c['inst'] == 'WPR' and s.v['time'] is not None:
        t = time_s(ds['time'].values[i:i + 1])[0]
        if not abs(t - s.v['time']) < 2e-3:
            return 'time is %s, instrument clock says %s' % (t, s.v['time'])
    return None


def check_settings(ds, c):
    d = attrs_diff(ds.attrs, N.expect_attrs(c))
    if d:
        violated('settings', d)
    if not values_equal(ds['beam2inst_orientmat'].values, N.expect_mat(c)):
        violated('settings', 'beam2inst_orientmat %s, instrument says %s' % (
            short(ds['beam2inst_orientmat'].values, 16), short(N.expect_mat(c), 16)))
    if c['inst'] == 'WPR':
        rg, cs, bd = N.expect_range(c)
        if not values_equal(ds['range'].values, rg, atol=1e-4):
            violated('settings', 'range %s, expected %s' % (short(ds['range'].values), short(rg)))
        d = attrs_diff(ds.attrs, {'cell_size': cs, 'blank_dist': bd})
        if d:
            violated('settings', d)


def check_times(ds, c, samples):
    t = time_s(ds['time'].values)
    key = '_t' if c['inst'] == 'VEC' else 'time'
    for i in range(t.size):
        e = samples[i].v[key]
        if not abs(t[i] - e) < TOL:
            violated('time', 'sample %d of %d has time %s, recorded %s' % (i, t.size, t[i], e))


def check_sys(ds, sysr, n):
    """sysr: system records in order; n: samples returned."""
    at = {s.idx: s for s in sysr}
    idx = sorted(at)         # one may belong to a sample left out
    if not idx:
        return
    for nm in INTERP + ('error', 'status'):
        if nm not in ds:
            violated('sys_value', '%s is missing from the dataset' % nm)
        x = ds[nm].values.astype('float64')
        for i in [q for q in idx if q < n]:
            if not values_equal(x[i], at[i].v[nm]):
                violated('sys_value', '%s at sample %d is %s, system record says %s' % (nm, i, x[i], at[i].v[nm]))
        if nm not in INTERP:
            continue
        for a, b in zip(idx[:-1], idx[1:]):
            lo, hi = sorted((at[a].v[nm], at[b].v[nm]))
            seg = x[a:b + 1]
            if nm == 'heading':
                # the short way round; none is shorter than half a turn
                if abs(hi - lo) > 179.95:
                    if not ((seg >= -1e-3) & (seg <= 360.1) | np.isnan(seg)).all():
                        violated('sys_value', 'heading %s' % short(seg))
                    if abs(hi - lo) < 180.05:
                        continue
                    seg = np.where(seg < 180, seg + 360, seg)
                    lo, hi = hi, lo + 360
            ok = (seg >= lo - 1e-3) & (seg <= hi + 1e-3)
            if b >= n:
                ok |= np.isnan(seg)
            if not ok.all():
                violated('sys_value', '%s between samples %d and %d is %s, records there say %s and %s' % (
                    nm, a, b, short(seg), at[a].v[nm], at[b].v[nm]))
        for q, v in ((x[idx[-1]:], at[idx[-1]].v[nm]), (x[:idx[0] + 1], at[idx[0]].v[nm])):
            if not (np.isnan(q) | (np.abs(q - v) < 1e-3)).all():
                violated('sys_value', '%s beyond the outer system records is %s, the record says %s' % (nm, short(q), v))
    if 'orientation_down' not in ds:
        violated('sys_value', 'orientation_down is missing')
