"""Datasets before and after storage: what must be the same, and what users do
to datasets in between (C15, C16, C17)."""
import numpy as np
import xarray as xr

from . import framehist as Q
from .core import call
from .rng import Rng

EPS = np.float32(2 ** -23)


def plain(x):
    """An attribute without its container: storage formats have vectors only."""
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        x = [plain(q) for q in x]
        return x[0] if len(x) == 1 else x
    if isinstance(x, (bool, int)):
        return float(x)
    return x


def same_attr(a, b):
    a, b = plain(a), plain(b)
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same_attr(a[k], b[k]) for k in a))
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same_attr(p, q) for p, q in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return type(a) == type(b) and a == b


def strings(v):
    return v.dtype.kind in 'UO'


def lost(want, got, tns, tol=0., vattrs=None, novattr=()):
    """First thing of the snapshot `want` that the snapshot `got` has not (or
    the other way round).  tns: resolution of time stamps in ns; tol: relative
    to the largest value of a variable, 0 for single precision."""
    w, g = want['vars'], got['vars']
    for nm in w:
        if nm not in g:
            return '%s is gone' % nm
        a, b = w[nm], g[nm]
        if a[0] != b[0]:
            return 'dimensions of %s: %s -> %s' % (nm, a[0], b[0])
        x, y = a[1], b[1]
        if x.shape != y.shape:
            return 'shape of %s: %s -> %s' % (nm, x.shape, y.shape)
        d = values(x, y, tns, tol)
        if d:
            return '%s: %s' % (nm, d)
        p, q = dict(a[2]), dict(b[2])
        if x.dtype.kind == 'M':
            p.pop('units', None)
            q.pop('units', None)
        for k in list(p) + list(q):
            if k in novattr or (vattrs is not None and k not in vattrs):
                p.pop(k, None)
                q.pop(k, None)
        for k in p:
            if k not in q:
                return 'attribute %s of %s is gone' % (k, nm)
            if not same_attr(p[k], q[k]):
                return 'attribute %s of %s: %r -> %r' % (k, nm, p[k], q[k])
        for k in q:
            if k not in p:
                return 'attribute %s of %s is new: %r' % (k, nm, q[k])
    if set(g) - set(w):
        return '%s are new' % sorted(set(g) - set(w))
    if want['coords'] != got['coords']:
        return 'coordinates: %s' % sorted(want['coords'] ^ got['coords'])
    p, q = want['attrs'], got['attrs']
    for k in p:
        if k not in q:
            return 'attribute %s is gone' % k
        if not same_attr(p[k], q[k]):
            return 'attribute %s: %r -> %r' % (k, p[k], q[k])
    if set(q) - set(p):
        return 'attributes %s are new' % sorted(set(q) - set(p))
    return None


def values(x, y, tns, tol):
    if strings(x) or strings(y):
        if not (strings(x) and strings(y)) or [str(p) for p in x.ravel()] != [str(p) for p in y.ravel()]:
            return 'values %s -> %s' % (x.ravel()[:4].tolist(), y.ravel()[:4].tolist())
        return
    if x.dtype.kind == 'M' or y.dtype.kind == 'M':
        if x.dtype.kind != y.dtype.kind:
            return 'type %s -> %s' % (x.dtype, y.dtype)
        n, m = np.isnat(x), np.isnat(y)
        if (n != m).any():
            return 'a missing time stamp became a time, or the other way round'
        e = np.abs((x.astype('M8[ns]').astype('i8') - y.astype('M8[ns]').astype('i8')))[~n]
        if e.size and e.max() > tns:
            i = np.abs(np.where(n, 0, x.astype('M8[ns]').astype('i8') - y.astype('M8[ns]').astype('i8'))).argmax()
            return 'time stamp %s -> %s' % (x.ravel()[i], y.ravel()[i])
        return
    kind = {'i': 'i', 'u': 'i'}
    if kind.get(x.dtype.kind, x.dtype.kind) != kind.get(y.dtype.kind, y.dtype.kind):
        return 'type %s -> %s' % (x.dtype, y.dtype)
    if x.dtype.kind in 'iub':
        if (x != y).any():
            i = (x != y).ravel().argmax()
            return 'value %s -> %s' % (x.ravel()[i], y.ravel()[i])
        return
    if x.dtype.kind == 'c':
        return (values(np.ascontiguousarray(x.real), np.ascontiguousarray(y.real), tns, tol) or
                values(np.ascontiguousarray(x.imag), np.ascontiguousarray(y.imag), tns, tol))
    with np.errstate(all='ignore'):
        x4, y4 = x.astype('f8'), y.astype('f8')
        fin = np.isfinite(x4)
        m = np.abs(x4[fin]).max() if fin.any() else 0.
        e = tol * m + 1e-45 if tol else np.abs(x4) * float(EPS) + 1e-45
        ok = (np.abs(x4 - y4) <= e) | (np.isnan(x4) & np.isnan(y4)) | (x4 == y4)
        ok |= (np.abs(x4) > 3.4e38) & (x4 == x4) & (np.abs(y4) > 3.4e38) & (np.sign(x4) == np.sign(y4))
    if not ok.all():
        i = (~ok).ravel().argmax()
        return 'value %r -> %r' % (x.ravel()[i], y.ravel()[i])


# ------------------------------------------------------- what users do to them
ATTRS = [('note', ''), ('note', 'x'), ('note', 'caf\u00e9 \u00b0C'), ('note', ' two\nlines '), ('n', 0), ('n', -3), ('n', 12345678901),
         ('f', 1.5), ('f', float('nan')), ('f', -0.), ('l', [1, 2, 3]), ('l', [1.5]), ('l', ['a']), ('l', ['a', 'bc', '']),
         ('l', [1.25, 2.5]), ('arr', np.array([1., 2., 3.])), ('arr', np.array([7])), ('u8', np.uint8(200)), ('f4', np.float32(.1)),
         ('with space', 'v'), ('latitude', 44.6), ('principal_heading', 12.5), ('inst2head_vec', [0.1, 0, -1.]),
         ('a_rather_long_attribute_name_of_a_user', 'w'), ('_hidden', 3), ('units', 'none'), ('names', ['vel']),
         ('history', 'read; saved'), ('x', ['ab ', ' cd']),
         ('x', ['ab', ' c'])]
CNAMES = ['c', 'cpx', 'vel_hat', 'z']


def gen_change(rng):
    k = rng.weighted([('attr', 4), ('complex', 2), ('flag', 1), ('nan', 2), ('isel', 2), ('rot', 3), ('dec', 1.5), ('f8', 1),
                      ('vattr', 1)])
    return [k, rng.randrange(2 ** 16), rng.randrange(2 ** 16)]


def change(ds, op, dolfyn):
    """-> dataset after the change, or None if it cannot be done"""
    k, a, b = op
    if k == 'attr':
        nm, v = ATTRS[a % len(ATTRS)]
        ds.attrs[nm] = v.copy() if isinstance(v, (list, np.ndarray)) else v
    elif k == 'complex':
        nm = CNAMES[a % len(CNAMES)]
        dims = ('time',) if b % 2 or 'vel' not in ds else ds['vel'].dims
        if any(x not in ds.sizes for x in dims):
            return None
        g = np.random.RandomState(b)
        sh = tuple(ds.sizes[x] for x in dims)
        z = (g.standard_normal(sh) + 1j * g.standard_normal(sh)).astype(['complex64', 'complex128'][b // 2 % 2])
        if z.size and b % 3 == 0:
            z.ravel()[0] = complex(np.nan, 1.)
            z.ravel()[-1] = complex(2., np.nan)
        ds[nm] = xr.DataArray(z, dims=dims, attrs={'units': 'm s-1', 'long_name': 'Complex'} if b % 5 else {})
    elif k == 'flag':
        if 'time' not in ds.sizes:
            return None
        ds['flagged'] = xr.DataArray(np.random.RandomState(b).randint(0, 2, ds.sizes['time']).astype(bool), dims=('time',),
                                     attrs={'units': '1', 'long_name': 'Flag'})
    elif k == 'nan':
        fl = sorted(x for x in ds.data_vars if ds[x].dtype.kind == 'f' and ds[x].size)
        if not fl:
            return None
        x = ds[fl[a % len(fl)]]
        v = x.values.copy()
        v[np.unravel_index(b % v.size, v.shape)] = [np.nan, np.inf, -np.inf, 0., 1e-42, 3e38][(a + b) % 6]
        x.values = v
    elif k == 'f8':
        fl = sorted(x for x in ds.data_vars if ds[x].dtype.kind == 'f')
        if not fl:
            return None
        nm = fl[a % len(fl)]
        ds[nm] = ds[nm].astype('float64') * 1.00000001 if b % 2 else ds[nm].astype('float64')
    elif k == 'isel':
        d = sorted(x for x in ds.sizes if x.startswith(('time', 'range')) and ds.sizes[x] > 1)
        if not d:
            return None
        x = d[a % len(d)]
        n = ds.sizes[x]
        lo = b % n
        return ds.isel({x: slice(lo, lo + 1 + (b // 7) % n, 1 + b % 2)})
    elif k == 'rot':
        f = ['beam', 'inst', 'earth', 'principal'][a % 4]
        r, e = call(dolfyn.rotate2, ds, f)
        return ds if r == 'ok' else None
    elif k == 'dec':
        r, e = call(dolfyn.set_declination, ds, [0., 12.5, -7.25][a % 3])
        return ds if r == 'ok' else None
    elif k == 'vattr':
        nm = sorted(ds.variables)[a % len(ds.variables)]
        if ds[nm].dtype.kind == 'M':
            return None
        ds[nm].attrs[['comment', 'valid_min', 'long_name', 'units'][b % 4]] = ['text', 'u\u00e9', 'm', 'x y'][a % 4]
    return ds


def coarse(ds):
    return tuple(sorted(x for x in ds.sizes))
