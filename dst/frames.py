"""Frames of reference: datasets to rotate, and what they should become.

The model works in double precision from the definitions (instrument manuals),
from the dataset as it was read; it never looks at later states."""
import numpy as np

from . import recordings as W

FRAMES = ['beam', 'inst', 'earth', 'principal']
KEEP = W.KEEP


def gen_ds(rng, tier, maxn=24, vno=0.):
    """Scenario of a dataset: a recording, sensor values for the orientation,
    and missing samples."""
    while True:
        rec = W.gen(rng, tier, maxn=maxn, cut=0, skip=False)
        if rec['fam'] == 'nk' and rec['cfg']['inst'] == 'VNO' and not rng.flip(vno):
            continue
        if rec['fam'] == 'sg' and rec['cfg']['nburst']:
            rec['cfg']['nburst'] = 0
        if rec['n'] < 2:
            continue
        break
    miss = [[rng.randrange(8), rng.randrange(8), rng.randrange(50), rng.randrange(200)]
            for _ in range(rng.weighted([(0, 2), (1, 2), (rng.randrange(2, 12), 1)]))]
    return {'rec': rec, 'oseed': rng.randrange(2 ** 31), 'tilt': rng.weighted([(5, 2), (40, 2), (80, 1), (180, 1)]),
            'miss': miss}


def legal_ds(s):
    return W.legal(s['rec']) and s['rec']['n'] >= 2 and all(len(m) == 4 for m in s['miss']) and s['tilt'] > 0


def euler(h, p, r):
    """True-heading style orientation matrices [3, 3, T] (earth -> inst)."""
    h, p, r = np.deg2rad(h), np.deg2rad(p), np.deg2rad(r)
    z, o = np.zeros_like(h), np.ones_like(h)
    H = np.array([[np.cos(h), np.sin(h), z], [-np.sin(h), np.cos(h), z], [z, z, o]])
    P = np.array([[np.cos(p), z, -np.sin(p)], [z, o, z], [np.sin(p), z, np.cos(p)]])
    R = np.array([[o, z, z], [z, np.cos(r), np.sin(r)], [z, -np.sin(r), np.cos(r)]])
    return np.einsum('ijt,jkt,klt->ilt', R, P, H)


def beam_matrix(n, rng):
    """A realistic transformation matrix (as printed on the instrument's
    calibration sheet, a little off the ideal one)."""
    th = np.deg2rad(rng.pick([20, 25, 30]))
    if n == 3:
        ph = np.deg2rad([90, 210, 330])
        inv = np.array([[np.sin(th) * np.sin(a), np.sin(th) * np.cos(a), np.cos(th)] for a in ph])
        m = np.linalg.inv(inv)
    else:
        a, b = 1 / (2 * np.sin(th)), 1 / (2 * np.cos(th))
        m = np.array([[a, 0, -a, 0], [0, -a, 0, a], [b, 0, b, 0], [0, b, 0, b]])
    return np.array([[x * (1 + (rng.randrange(2001) - 1000) * 1e-5) for x in q] for q in m])


def prepare(s, d, dolfyn, call, name='rec', userdata=None):
    """-> list of datasets (float values as an instrument would give them)"""
    from .rng import Rng
    w = W.Recording(s['rec'])
    p = '%s/%s.%s' % (d, name, w.ext)
    with open(p, 'wb') as f:
        f.write(w.b)
    k = {} if userdata is None else {'userdata': userdata}
    r, ds = call(dolfyn.read, p, **k)
    if r == 'exc':
        return w, r, ds
    out = []
    for q in (ds if isinstance(ds, tuple) else [ds]):
        if q.sizes.get('time', 0) == 0 or 'beam2inst_orientmat' not in q:
            continue
        out.append(q)
    return w, r, out


def realistic(w, ds, s, decl=None):
    """Replace the arbitrary numbers of the encoders where an instrument only
    ever gives rotations; then lose some samples."""
    from .rng import Rng
    rng = Rng('frames', s['oseed'])
    nb = ds['beam2inst_orientmat'].shape[0]
    if w.fam != 'rdi':
        ds['beam2inst_orientmat'].values = beam_matrix(nb, rng).astype(ds['beam2inst_orientmat'].dtype)
    if 'orientmat' in ds:
        T = ds['orientmat'].shape[-1]
        g = np.random.RandomState(s['oseed'] % 2 ** 31)
        tl = s['tilt']
        m = euler(g.uniform(0, 360, T), g.uniform(-min(tl, 85), min(tl, 85), T), g.uniform(-tl, tl, T))
        ds['orientmat'].values = m.astype(ds['orientmat'].dtype)
    for v, c, z, t in s['miss']:
        names = [x for x in ds.attrs['rotate_vars'] if x in ds]
        if v == 7 and 'orientmat' in ds:
            a = ds['orientmat'].values.copy()
            a[..., t % a.shape[-1]] = np.nan
            ds['orientmat'].values = a
            continue
        if not names:
            continue
        x = ds[names[v % len(names)]]
        a = x.values.copy()
        if not a.size or a.dtype.kind != 'f':
            continue
        ix = (c % a.shape[0],) if c < 4 else (slice(None),)
        if a.ndim == 3:
            ix += (z % a.shape[1],)
        a[ix + (t % a.shape[-1],)] = np.nan
        x.values = a
    return ds


class Model(object):
    """What the velocity-like variables are in any frame."""

    def __init__(self, w, ds):
        self.fam = w.fam
        self.kind = ('rdi' if w.fam == 'rdi' else 'sig' if w.fam == 'sg' else 'vec' if w.c['inst'] == 'VEC' else 'awac')
        self.frame0 = 'inst' if ds.coord_sys == 'ship' else ds.coord_sys
        self.names = [v for v in ds.attrs['rotate_vars']]
        self.v0 = {v: np.array(ds[v].values, dtype=np.float64) for v in self.names}
        self.B = np.array(ds['beam2inst_orientmat'].values, dtype=np.float64)
        self.M = np.array(ds['orientmat'].values, dtype=np.float64) if 'orientmat' in ds else None
        self.head0 = np.array(ds['heading'].values, dtype=np.float64) if 'heading' in ds else None
        self.D0 = ds.attrs.get('declination', 0.)
        self.down = ds.attrs.get('orientation') == 'down'
        self.cb = float(np.linalg.cond(self.B))
        self.ce = np.ones(self.M.shape[-1]) if self.M is not None else np.ones(1)
        if self.kind == 'sig':
            E = np.moveaxis(self.E4(), -1, 0)
            self.ce = np.array([np.linalg.cond(e) if np.isfinite(e).all() else 1. for e in E])

    # -- inst -> earth for 4-row vectors of a Signature: rows 0, 1 are u, v,
    # rows 2, 3 two estimates of w
    def E4(self):
        R = np.swapaxes(self.M, 0, 1)
        E = np.zeros((4, 4, R.shape[-1]))
        E[:2, :2] = R[:2, :2]
        E[:2, 2] = E[:2, 3] = R[:2, 2] / 2
        E[2, :2] = E[3, :2] = R[2, :2]
        E[2, 2] = E[3, 3] = R[2, 2]
        return E

    def decl(self, x, D):
        """earth vectors (magnetic or whatever they were) -> declination D"""
        a = np.deg2rad(D - self.D0)
        y = x.copy()
        if a:
            y[0] = np.cos(a) * x[0] + np.sin(a) * x[1]
            y[1] = -np.sin(a) * x[0] + np.cos(a) * x[1]
        return y

    def sign(self, n):
        if self.kind == 'sig' and self.down:
            return np.array([1, -1, -1, -1][:n], dtype=float)
        return np.ones(n)

    def step(self, nm, x, a, b, H):
        """one link of the chain beam - inst - earth (declination as read)"""
        n = x.shape[0]
        with np.errstate(all='ignore'):
            if (a, b) == ('beam', 'inst'):
                if n == self.B.shape[0]:
                    x = np.einsum('ij,j...->i...', self.B, x)
                if H is not None and nm == 'vel':
                    x = np.einsum('ij,j...->i...', H, x)
                return x
            if (a, b) == ('inst', 'beam'):
                if H is not None and nm == 'vel':
                    x = np.einsum('ji,j...->i...', H, x)
                if n == self.B.shape[0]:
                    x = np.einsum('ij,j...->i...', np.linalg.inv(self.B), x)
                return x
            R = np.swapaxes(self.M, 0, 1)
            if self.kind == 'rdi':
                y = x.copy()
                y[:3] = np.einsum('ijk,j...k->i...k' if b == 'earth' else 'jik,j...k->i...k', R, x[:3])
                return y
            s = self.sign(n).reshape((-1,) + (1,) * (x.ndim - 1))
            if self.kind == 'sig' and n == 4:
                E = self.E4()
                if b == 'earth':
                    return np.einsum('ijk,j...k->i...k', E, s * x)
                ok = np.isfinite(E).all(axis=(0, 1))
                inv = np.full(E.shape, np.nan)
                if ok.any():
                    inv[..., ok] = np.moveaxis(np.linalg.inv(np.moveaxis(E[..., ok], -1, 0)), 0, -1)
                return s * np.einsum('ijk,j...k->i...k', inv, x)
            if b == 'earth':
                return np.einsum('ijk,j...k->i...k', R, s * x)
            return s * np.einsum('jik,j...k->i...k', R, x)

    def chain(self, nm, x, a, b, H):
        i, j = FRAMES.index(a), FRAMES.index(b)
        while i != j:
            k = i + (1 if j > i else -1)
            x = self.step(nm, x, FRAMES[i], FRAMES[k], H)
            i = k
        return x

    def value(self, nm, frame, D=None, P=None, H=None):
        """P: principal heading relative to the earth frame of declination D"""
        x = self.v0[nm]
        D = self.D0 if D is None else D
        a = self.frame0
        if H is not None and nm == 'vel' and a != 'beam':
            # the recording is in the head's frame, whatever it is called
            x = self.chain(nm, x, a, 'inst', None)
            x = np.einsum('ij,j...->i...', H, x)
            a = 'inst'
        b = 'earth' if frame == 'principal' else frame
        x = self.chain(nm, x, a, b, H)
        if b == 'earth':
            x = self.decl(x, D)
        if frame == 'principal':
            t = np.deg2rad(90 - P)
            y = x.copy()
            y[0] = np.cos(t) * x[0] + np.sin(t) * x[1]
            y[1] = -np.sin(t) * x[0] + np.cos(t) * x[1]
            x = y
        return x

    def omat(self, D):
        """[inst axis, earth axis, t]: every row is a vector in the earth frame"""
        y = self.M.copy()
        x = self.decl(np.swapaxes(self.M, 0, 1), D)
        return np.swapaxes(x, 0, 1) if x.shape == y.shape else None

    def scale(self, nm, H=None):
        """the largest component of every sample in any frame"""
        out = None
        for f in FRAMES[:3]:
            with np.errstate(all='ignore'):
                x = np.nan_to_num(np.abs(self.value(nm, f, H=H)).max(axis=0), nan=0, posinf=0)
            out = x if out is None else np.maximum(out, x)
        return out

    def tol(self, nm, steps, H=None):
        ce = self.ce if self.v0[nm].shape[0] == 4 else np.ones_like(self.ce)
        return 3e-7 * (steps + 3) * self.cb * ce * self.scale(nm, H) + 1e-12


def lost(model, nm, visited):
    """Samples without an orientation cannot come back from the earth frame."""
    T = model.v0[nm].shape[-1]
    if model.M is None or 'earth' not in visited:
        return np.zeros(T, dtype=bool)
    return ~np.isfinite(model.M).all(axis=(0, 1))
