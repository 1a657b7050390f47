"""How a reader presents what it read: dimensions, units, the list of vectors
to rotate, and the orientation derived from heading, pitch and roll."""
import numpy as np

from .compare import short
from .core import violated

TAGS = ('_avg', '_b5', '_echo', '_bt', '_gps', '_altraw', '_sl')
UNITS = {'vel': 'm s-1', 'amp': '1', 'heading': 'degree', 'pitch': 'degree', 'roll': 'degree',
         'heading_std': 'degree', 'pitch_std': 'degree', 'roll_std': 'degree', 'pressure': 'dbar',
         'press_std': 'dbar', 'pressure_std': 'dbar', 'temp': 'degree_C', 'temp_clock': 'degree_C',
         'temp_press': 'degree_C', 'c_sound': 'm s-1', 'batt': 'V', 'accel': 'm s-2', 'angrt': 'rad s-1',
         'orientmat': '1', 'beam2inst_orientmat': '1', 'dist': 'm', 'depth': 'm', 'salinity': 'psu',
         'alt_dist': 'm', 'dist_nmea': 'm', 'range': 'm', 'prcnt_gd': '%', 'latitude': 'degrees_north',
         'longitude': 'degrees_east', 'le_dist_alt': 'm', 'ast_dist_alt': 'm', 'speed_over_grnd': 'm s-1',
         'dir_over_grnd': 'degree', 'avg_speed': 'm s-1', 'avg_dir': 'degree', 'elevation': 'm',
         'speed_made_good': 'm s-1', 'dir_made_good': 'degree', 'min_preping_wait': 's', 'echo': 'dB'}
VECTOR = ('accel', 'angrt', 'mag')


def split(nm):
    for t in TAGS:
        if nm.endswith(t):
            return nm[:-len(t)], t
    return nm, ''


def dims(ds, nm):
    """The dimensions of a data variable, or None if not judged."""
    stem, tag = split(nm)
    time = 'time' + tag if 'time' + tag in ds.dims else 'time'
    if time not in ds.dims and 'time_avg' in ds.dims:
        time = 'time_avg'                         # (the only profile there)
    rg = 'range' + tag if 'range' + tag in ds.coords else 'range'
    nd = ds[nm].ndim
    if nm == 'beam2inst_orientmat':
        return ('x1', 'x2')
    if nd == 1:
        return (time,)
    if stem == 'orientmat':
        return ('earth', 'inst', time)
    if stem == 'quaternions':
        return ('q', time)
    if stem == 'samp':
        return ('n' + tag, time)
    if nm == 'echo':
        return ('range_echo', 'time_echo')
    if stem in VECTOR and nd == 2:
        return ('dirIMU' if 'dirIMU' in ds[nm].dims else 'dir', time)
    if tag == '_b5' and nd == 2:
        return (rg, time)
    if stem in ('vel', 'amp', 'corr', 'prcnt_gd', 'dist', 'status') and nd <= 3:
        d = 'dir' if stem == 'vel' else 'beam'
        return (d, rg, time) if nd == 3 else (d, time)
    return None


def check(ds):
    for nm in sorted(ds.data_vars):
        e = dims(ds, nm)
        if e and ds[nm].dims != e:
            violated('layout', '%s has dimensions %s, should be %s' % (nm, ds[nm].dims, e))
    for nm in sorted(ds.variables):
        stem, tag = split(nm)
        u = UNITS.get(stem)
        if u and tag != '_altraw' and ds[nm].attrs.get('units') != u:
            violated('layout', '%s has units %r, should be %r' % (nm, ds[nm].attrs.get('units'), u))
    for k in sorted(ds.dims, key=str):
        if k in ds.coords:
            # rows and columns of rotation matrices are numbered as the beams
            if k in ('x1', 'x2', 'beam') and list(ds[k].values) != list(range(1, ds.sizes[k] + 1)):
                violated('layout', 'coordinate %s is %s' % (k, list(ds[k].values)))
        elif not k.startswith('n_') and k != 'time_gps':
            violated('layout', 'dimension %s has no coordinate' % k)
    a, b = (ds[v].attrs.get('long_name') if v in ds else None for v in ('vel', 'vel_bt'))
    if a and a == b:
        violated('layout', 'vel and vel_bt are both labelled %r' % a)
    e = sorted(v for v in ds.data_vars if split(v)[0] in ('vel',) + VECTOR and v != 'vel_b5')
    g = ds.attrs.get('rotate_vars')
    if sorted([g] if isinstance(g, str) else list(g)) != e:
        violated('layout', 'rotate_vars %s, vectors in the dataset %s' % (list(g), e))
    for k in ('dir', 'dirIMU'):
        if k in ds.coords and ds.attrs.get('coord_sys') in ('inst', 'ship', 'earth'):
            x = [str(v)[0] for v in ds[k].values[:3]]
            if x != list('ENU' if ds.attrs['coord_sys'] == 'earth' else 'XYZ'):
                violated('layout', 'coordinate %s is %s in frame %s' % (k, list(ds[k].values), ds.attrs['coord_sys']))


def rx(a):
    c, s, o, z = np.cos(a), np.sin(a), np.ones_like(a), np.zeros_like(a)
    return np.moveaxis(np.array([[o, z, z], [z, c, -s], [z, s, c]]), 2, 0)


def ry(a):
    c, s, o, z = np.cos(a), np.sin(a), np.ones_like(a), np.zeros_like(a)
    return np.moveaxis(np.array([[c, z, s], [z, o, z], [-s, z, c]]), 2, 0)


def rz(a):
    c, s, o, z = np.cos(a), np.sin(a), np.ones_like(a), np.zeros_like(a)
    return np.moveaxis(np.array([[c, -s, z], [s, c, z], [z, z, o]]), 2, 0)


def orientation(ds, fam):
    """Unit vectors of the instrument axes in earth coordinates (..., 3, 3),
    from heading, pitch and roll, after the manuals of the makers."""
    t = '' if 'heading' in ds else '_avg'
    h, p, r = (np.deg2rad(ds[q + t].values.astype('float64')) for q in ('heading', 'pitch', 'roll'))
    if fam == 'rdi':
        p = np.arctan(np.tan(p) * np.cos(r))      # gimballed pitch
        if ds.attrs['orientation'] == 'up':
            r = r + np.pi
        if ds.attrs['coord_sys'] == 'ship' and ds.attrs['use_pitchroll'] == 'yes':
            p, r = p * 0, r * 0
        return rz(-h) @ rx(p) @ ry(r)             # y along the heading
    if 'orientation_down' in ds:
        ok = ~np.isnan(h + p + r)
        if ok.any() and np.isnan(h[-1]) and np.isnan(p[-1]) and np.isnan(r[-1]):
            k = np.nonzero(ok)[0][-1]             # the last one recorded holds on
            for x in (h, p, r):
                x[k:] = x[k]
        r = r + np.pi * ds['orientation_down'].values.astype(bool)
    return rz(np.pi / 2 - h) @ ry(-p) @ rx(r)     # x along the heading


def check_orientation(ds, fam):
    """Only where the matrix was not recorded."""
    if 'orientmat' not in ds:
        violated('orientation', 'orientmat is missing')
    e = np.swapaxes(orientation(ds, fam), 1, 2)   # earth -> instrument
    g = ds['orientmat'].values
    for i in range(g.shape[-1]):
        a, b = g[..., i], e[i]
        bad = np.isnan(a) != np.isnan(b)
        if bad.any() or (np.abs(a - b) > 2e-5).any():
            q = [float(ds[x + ('' if x in ds else '_avg')].values[i]) for x in ('heading', 'pitch', 'roll')]
            violated('orientation', 'orientmat at time step %d is %s, heading, pitch and roll %s give %s' % (
                i, short(a, 9), q, short(b, 9)))
