"""Comparison of a dataset returned by the code with the reference model."""
import numpy as np

RTOL = 3e-6


def values_equal(got, exp, rtol=RTOL, atol=1e-6):
    """elementwise; NaN == NaN"""
    got = np.asarray(got)
    exp = np.asarray(exp)
    if got.shape != exp.shape:
        return False
    if got.dtype.kind in 'US' or exp.dtype.kind in 'US':
        return bool((got == exp).all())
    g = got.astype('float64')
    e = exp.astype('float64')
    with np.errstate(all='ignore'):
        ok = np.abs(g - e) <= atol + rtol * np.abs(e)
    ok |= np.isnan(g) & np.isnan(e)
    ok |= (g == e)
    return bool(ok.all())


def time_s(da):
    """datetime64 array -> float epoch seconds, NaT -> nan"""
    x = np.asarray(da).astype('datetime64[ns]')
    out = x.astype('int64') / 1e9
    out[np.isnat(x)] = np.nan
    return out


def short(x, n=6):
    x = np.asarray(x).ravel()
    s = ', '.join('%s' % (q,) for q in x[:n].tolist())
    return '[' + s + (', ...' if x.size > n else '') + ']'


def attrs_diff(attrs, exp):
    for k in sorted(exp):
        if k not in attrs:
            return 'attribute %r is missing (instrument says %r)' % (k, exp[k])
        g, e = attrs[k], exp[k]
        if isinstance(e, str) or isinstance(g, str):
            if str(g) != str(e):
                return 'attribute %r is %r, instrument says %r' % (k, g, e)
        elif not values_equal(g, e, rtol=1e-5):
            return 'attribute %r is %r, instrument says %r' % (k, g, e)
    return None


def dataset_sig(ds):
    """Deterministic digest of a Dataset (names, dims, values, attrs)."""
    import hashlib
    h = hashlib.sha256()
    for nm in sorted(ds.variables):
        v = ds.variables[nm]
        h.update(repr((nm, v.dims, str(v.dtype), v.shape)).encode())
        a = v.values
        if a.dtype.kind == 'O':
            h.update(repr(a.tolist()).encode())
        else:
            h.update(np.ascontiguousarray(a).tobytes())
        h.update(repr(sorted((k, norm(x)) for k, x in v.attrs.items())).encode())
    h.update(repr(sorted((k, norm(x)) for k, x in ds.attrs.items())).encode())
    return h.hexdigest()


def norm(x):
    if isinstance(x, np.ndarray):
        return ('arr', norm(x.tolist()))
    if isinstance(x, (list, tuple)):
        return [norm(q) for q in x]
    if isinstance(x, dict):
        return sorted((k, norm(v)) for k, v in x.items())
    if isinstance(x, np.generic):
        return norm(x.item())
    if isinstance(x, float):
        return repr(x)
    return repr(x)


def dataset_diff(a, b):
    """First difference between two datasets, bit for bit; None if the same."""
    va, vb = set(a.variables), set(b.variables)
    if va != vb:
        return 'variables differ: only in first %s, only in second %s' % (
            sorted(va - vb), sorted(vb - va))
    for nm in sorted(va):
        x, y = a.variables[nm], b.variables[nm]
        if x.dims != y.dims or x.shape != y.shape:
            return '%s: dims/shape %s%s vs %s%s' % (nm, x.dims, x.shape,
                                                    y.dims, y.shape)
        if x.dtype != y.dtype:
            return '%s: dtype %s vs %s' % (nm, x.dtype, y.dtype)
        p, q = x.values, y.values
        if p.dtype.kind == 'O':
            same = p.tolist() == q.tolist()
        elif p.dtype.kind in 'fc':
            same = np.array_equal(p, q, equal_nan=True)
        else:
            same = np.array_equal(p, q) or (
                p.dtype.kind in 'mM' and
                np.array_equal(p.astype('i8'), q.astype('i8')))
        if not same:
            return '%s: values differ %s vs %s' % (nm, short(p), short(q))
    for k in sorted(set(a.attrs) | set(b.attrs)):
        if k not in a.attrs or k not in b.attrs:
            return 'attribute %r only in one dataset' % k
        if norm(a.attrs[k]) != norm(b.attrs[k]):
            return 'attribute %r: %r vs %r' % (k, a.attrs[k], b.attrs[k])
    return None
