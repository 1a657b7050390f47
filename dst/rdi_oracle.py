"""What a reader may return for a given TRDI byte stream."""
import numpy as np

from . import rdi_enc as R
from .compare import values_equal, time_s, attrs_diff, short
from .core import violated

PROFILE = {'vel', 'corr', 'amp', 'prcnt_gd', 'status'}
SL = {'vel_sl', 'corr_sl', 'amp_sl', 'prcnt_gd_sl', 'status_sl'}
# every variable the encoder can produce
KNOWN = PROFILE | SL | {
    'number', 'builtin_test_fail', 'c_sound', 'depth', 'heading', 'pitch',
    'roll', 'salinity', 'temp', 'min_preping_wait', 'heading_std', 'pitch_std',
    'roll_std', 'pressure', 'pressure_std', 'dist_bt', 'vel_bt', 'corr_bt',
    'amp_bt', 'prcnt_gd_bt', 'alt_dist', 'alt_rssi', 'alt_eval', 'alt_status',
    'clock_offset_UTC_gps', 'latitude_gps', 'longitude_gps', 'avg_speed_gps',
    'avg_dir_gps', 'speed_made_good_gps', 'dir_made_good_gps', 'flags_gps',
    'fix_gps', 'n_sat_gps', 'hdop_gps', 'elevation_gps', 'rtk_age_gps',
    'speed_over_grnd_gps', 'dir_over_grnd_gps', 'heading_gps', 'pitch_gps',
    'roll_gps', 'dist_nmea'}
NOT_ROW = {'time', 'time_gps', 'n_cells'}


def is_gps(k):
    return k.endswith('_gps') and k != 'time_gps'


def missing(a):
    """True where a value is reported as missing (NaN, or 0 in integers)."""
    a = np.asarray(a)
    if a.dtype.kind == 'f':
        return np.isnan(a) | (a == 0) if a.dtype.itemsize > 4 else np.isnan(a)
    return a == 0


def row_diff(k, got, exp):
    """got: the time slice returned; exp: model value (or None if the block
    was not recorded in that ensemble)."""
    got = np.asarray(got)
    if exp is None:
        return None if (np.isnan(got).all() if got.dtype.kind == 'f'
                        else not got.any()) or missing(got).all() else \
            '%s: %s reported, nothing was recorded' % (k, short(got))
    exp = np.asarray(exp)
    if exp.ndim == 2 and got.ndim == 2:
        nc = exp.shape[1]
        if got.shape[0] != exp.shape[0] or got.shape[1] < nc:
            return '%s: %s cells returned, %s recorded' % (k, got.shape, exp.shape)
        if not values_equal(got[:, :nc], exp):
            return '%s: got %s, instrument recorded %s' % (k, short(got[:, :nc]), short(exp))
        if not missing(got[:, nc:]).all():
            return '%s: cells beyond the %d recorded ones report %s' % (
                k, nc, short(got[:, nc:]))
        return None
    if not values_equal(got, exp, atol=2e-5):
        return '%s: got %s, instrument recorded %s' % (k, short(got), short(exp))
    return None


def row_matches(ds, r, ens, names, skip=()):
    """First difference between time step r and ensemble ens, or None."""
    for k in names:
        if k in NOT_ROW or k in skip:
            continue
        if is_gps(k):
            # positions without a clock of their own: one per time step (that
            # the program in use is WinRiver shows in the first ensemble only
            # after the position)
            if k not in ('latitude_gps', 'longitude_gps') or 'time_gps' in names or (
                    not r and (k not in ds or np.isnan(ds[k].values[..., 0]))) or (
                    k not in ds and k not in ens.v):
                continue
        if k not in ds:
            return '%s is missing from the dataset' % k
        d = row_diff(k, ds[k].values[..., r], ens.v.get(k))
        if d:
            return d
    t = time_s(ds['time'].values[r:r + 1])[0]
    e = ens.v['time']
    if e is None:
        pass          # broken clock: judged elsewhere
    elif not abs(t - e) < 2e-3:
        return 'time is %s, instrument clock says %s' % (t, e)
    return None


def numbers(ds):
    return ds['number'].values.astype('int64')


def check_settings(ds, cfg, ncmax, slices=True):
    d = attrs_diff(ds.attrs, R.expect_attrs(cfg))
    if d:
        violated('settings', d)
    if int(ds.attrs.get('n_cells', -1)) < ncmax:
        violated('settings', 'n_cells attribute %r, %d cells recorded' % (
            ds.attrs.get('n_cells'), ncmax))
    rg = ds['range'].values
    exp = cfg['bin1_cm'] * .01 + np.arange(rg.size) * cfg['cell_cm'] * .01
    if not values_equal(rg, exp):
        violated('settings', 'range coordinate %s, expected %s' % (short(rg), short(exp)))
    if cfg['sl'] and 'range_sl' in ds:
        exp = .61 + np.arange(cfg['sl']) * .25
        if not values_equal(ds['range_sl'].values, exp):
            violated('settings', 'range_sl coordinate %s, expected %s' % (
                short(ds['range_sl'].values), short(exp)))


def check_gps(ds, rows, skip=()):
    """rows: ensembles in the dataset, in order.  Every fix must be there
    under its own time, with its own values."""
    if 'time_gps' not in ds.coords:
        return
    tg = time_s(ds['time_gps'].values)
    if np.isnan(tg).any():
        violated('gps', 'missing time stamp left in time_gps')
    if (np.diff(tg) <= 0).any():
        violated('gps', 'time_gps is not strictly increasing')
    for e in rows:
        if e is None or e.v.get('time_gps') is None or e.idx in skip:
            continue
        k = np.where(np.abs(tg - e.v['time_gps']) < 2e-3)[0]
        if k.size != 1:
            violated('gps_lost', 'position fix of ensemble %d (t=%r) appears %d times' % (
                e.idx, e.v['time_gps'], k.size))
        for nm in sorted(e.v):
            if is_gps(nm):
                if nm not in ds:
                    violated('gps', '%s is missing' % nm)
                d = row_diff(nm, ds[nm].values[..., k[0]], e.v[nm])
                if d:
                    violated('gps_value', 'fix of ensemble %d: %s' % (e.idx, d))
        if 'hdwtime_gps' in ds and e.v['time'] is not None:
            h = time_s(ds['hdwtime_gps'].values)[k[0]]
            if not abs(h - e.v['time']) < 2e-3:
                violated('gps_value', 'hdwtime_gps of ensemble %d is %s, expected %s' % (
                    e.idx, h, e.v['time']))


def var_names(ens):
    out = set()
    for e in ens:
        out |= set(e.v)
    return sorted(out)


def check_no_invention(ds, names):
    for nm in KNOWN:
        if nm in ds and nm not in names and not missing(ds[nm].values).all():
            violated('invented_variable', '%s is returned, the instrument never recorded it' % nm)
