"""Histories of frame changes, declinations and head rotations, run on the
real code and on the model at the same time (C11, C12)."""
import copy

import numpy as np

from . import frames as F
from .core import call, exc_str, violated


class History(object):
    def __init__(self, w, ds, st, dolfyn):
        self.dolfyn, self.st, self.w = dolfyn, st, w
        self.ds = ds
        self.m = F.Model(w, ds)
        self.frame = ds.coord_sys
        self.D = ds.attrs.get('declination')
        self.P = None               # relative to the earth frame as read
        self.H = None
        self.steps = 0
        self.visited = {self.frame}
        self.path = [self.frame]
        self.compared = 0

    # ------------------------------------------------------------ operations
    def do(self, op):
        ds = self.ds
        k = op[0]
        ins = True
        if k == 'rot':
            _, frame, ins, how = op
            if frame == 'principal' and self.P is None:
                return self.must_fail(op, lambda: self.rotate(frame, ins, how))
            if self.frame == 'ship' and frame in ('beam', 'inst'):
                return self.must_fail(op, lambda: self.rotate(frame, ins, how))
            out = self.run(op, lambda: self.rotate(frame, ins, how))
            self.track(frame)
            self.frame = frame
        elif k == 'dec':
            _, val, ins, how = op
            if self.frame == 'earth':
                self.track('inst')
                self.track('earth')
            f = self.dolfyn.set_declination if how else None
            out = self.run(op, lambda: f(ds, val, inplace=ins) if f else ds.velds.set_declination(val, inplace=ins))
            self.D = val
            self.steps += 1
        elif k == 'head':
            _, i, ins, how = op
            H = rotmat(i)
            if self.m.kind != 'vec' or self.H is not None:
                return self.must_fail(op, lambda: self.dolfyn.set_inst2head_rotmat(ds, H, inplace=ins))
            if self.frame == 'ship':
                return
            back = self.frame
            if back not in ('inst', 'beam'):
                self.track('inst')
            f = self.dolfyn.set_inst2head_rotmat if how else None
            out = self.run(op, lambda: f(ds, H, inplace=ins) if f else ds.velds.set_inst2head_rotmat(H, inplace=ins))
            self.H = H
            if back not in ('inst', 'beam'):
                self.track(back)
        elif k == 'P':
            if self.frame in ('principal', 'ship') or self.m.M is None:
                return
            ds.attrs['principal_heading'] = op[1]
            self.P = op[1] - ((self.D or 0) - (self.m.D0 or 0))
            return
        elif k == 'calcP':
            if self.frame != 'earth' or 'vel' not in ds:
                return
            v = ds['vel']
            v = v.mean('range') if 'range' in v.dims else v
            if 'range_avg' in v.dims:
                v = v.mean('range_avg')
            r, p = call(self.dolfyn.calc_principal_heading, v, tidal_mode=bool(op[1]))
            if r == 'exc' or not np.isfinite(p):
                return
            ds.attrs['principal_heading'] = float(p)
            self.P = float(p) - ((self.D or 0) - (self.m.D0 or 0))
            return
        elif k == 'bad':
            if BAD[op[1] % len(BAD)] in BAD[4:] and self.m.kind == 'vec' and self.H is None and self.frame == 'beam':
                return          # noticed at the next change of frame
            return self.must_fail(op, BAD[op[1] % len(BAD)](self.dolfyn, ds, bool(op[2])))
        else:
            return
        if not ins:
            if out is None or out is ds:
                violated('copy', '%s gave %s instead of a changed copy' % (op, 'nothing' if out is None else 'the original'))
            self.ds = out
        elif out is not None and out is not ds:
            violated('inplace', '%s returned another object' % (op,))

    def rotate(self, frame, ins, how):
        if how:
            return self.dolfyn.rotate2(self.ds, frame, inplace=ins)
        return self.ds.velds.rotate2(frame, inplace=ins)

    def track(self, frame):
        """frames passed on the way"""
        a = 'inst' if self.path[-1] == 'ship' else self.path[-1]
        i, j = F.FRAMES.index(a), F.FRAMES.index(frame)
        while i != j:
            i += 1 if j > i else -1
            self.path.append(F.FRAMES[i])
            self.visited.add(F.FRAMES[i])
            self.steps += 1
        if self.path[-1] == 'ship' and frame == 'inst':
            self.path.append('inst')

    def run(self, op, fn):
        r, out = call(fn)
        self.st.event(op[0], r)
        if r == 'exc':
            violated('failed', '%s in the %s frame failed: %s' % (op, self.frame, exc_str(out)))
        return out

    def must_fail(self, op, fn):
        """Impossible requests: an error, and everything as before."""
        before = snapshot(self.ds)
        r, out = call(fn)
        self.st.event('bad', r)
        self.st.fault('impossible_request')
        d = differs(before, self.ds)
        if d:
            violated('half_done', '%s in the %s frame %s, and changed the dataset: %s' % (
                op, self.frame, 'failed' if r == 'exc' else 'returned', d))
        if r != 'exc':
            violated('accepted', '%s in the %s frame returned' % (op, self.frame))

    # ------------------------------------------------------------ comparison
    def check(self, when):
        ds, m = self.ds, self.m
        if ds.coord_sys != self.frame:
            violated('frame', '%s: the recorded frame is %r, %r was requested last' % (when, ds.coord_sys, self.frame))
        if ds['dir'].attrs.get('ref_frame') != self.frame:
            violated('frame', '%s: the axes are of frame %r, %r was requested last' % (
                when, ds['dir'].attrs.get('ref_frame'), self.frame))
        for k in ('dir', 'dirIMU'):
            if k in ds.coords and self.steps:
                axes_named(ds[k].values, self.frame, k, when)
        if self.D is not None and not ds.attrs.get('declination_in_orientmat'):
            violated('declination', '%s: the declination is not recorded as part of the orientation' % when)
        if self.D is not None and ds.attrs.get('declination') != self.D:
            violated('declination', '%s: the recorded declination is %r, %r was set last' % (
                when, ds.attrs.get('declination'), self.D))
        fr = 'inst' if self.frame == 'ship' else self.frame
        D = m.D0 if self.D is None else self.D
        P = None if self.P is None else self.P + D - m.D0
        if P is not None and not near(ds.attrs['principal_heading'], P, 1e-6):
            violated('principal heading', '%s: the principal heading is %r, should be %r' % (
                when, ds.attrs['principal_heading'], P))
        for nm in m.names:
            with np.errstate(all='ignore'):
                want = m.value(nm, fr, D, P, self.H)
            got = np.asarray(ds[nm].values)
            if got.shape != want.shape:
                violated('shape', '%s: %s has shape %s' % (when, nm, got.shape))
            if not want.size:
                continue
            tol = m.tol(nm, self.steps, self.H)
            lo = np.broadcast_to(F.lost(m, nm, self.visited), want.shape)
            nanw = np.isnan(want)
            bad = nanw & ~np.isnan(got)
            if bad.any():
                violated('invented', '%s: %s has values where there are none (%s)' % (when, nm, where(bad)))
            ok = ~nanw & ~lo & passed(m, nm, self)
            with np.errstate(all='ignore'):
                bad = ok & ~(np.abs(got - want) <= tol)
            if bad.any():
                i = np.unravel_index(bad.argmax(), bad.shape)
                violated('wrong ' + ('vel' if nm.startswith('vel') else nm),
                         '%s: %s%s is %r, should be %r (+- %.2g); frames passed: %s' % (
                             when, nm, [int(q) for q in i], float(got[i]), float(want[i]),
                             float(np.broadcast_to(tol, want.shape)[i]), '-'.join(self.path[-12:])))
            self.compared += int(ok.sum())
        if m.M is not None:
            got, want = ds['orientmat'].values, m.omat(D)
            with np.errstate(all='ignore'):
                bad = ~np.isnan(want) & ~(np.abs(got - want) <= 3e-6)
            if bad.any():
                i = np.unravel_index(bad.argmax(), bad.shape)
                violated('wrong orientmat', '%s: orientmat%s is %r, should be %r' % (
                    when, [int(q) for q in i], float(got[i]), float(want[i])))
        if m.head0 is not None:
            got = np.asarray(ds['heading'].values, dtype=float)
            want = m.head0 + (D - m.D0)
            e = np.abs((got - want + 180) % 360 - 180)
            if (e > 1e-3 * (1 + self.steps / 20.)).any():
                i = int(np.nanargmax(e))
                violated('wrong heading', '%s: heading[%d] is %r, should be %r' % (when, i, float(got[i]), float(want[i])))


def passed(m, nm, h):
    """A missing component takes its sample with it, and what it takes depends
    on the frames passed: compare samples without missing components only."""
    x = m.v0[nm]
    return np.broadcast_to(~np.isnan(x).any(axis=0), x.shape)


AXES = {'inst': 'XYZ', 'ship': 'XYZ', 'earth': 'ENU'}


def axes_named(v, frame, k, when):
    v = [str(q) for q in v[:3]]
    if frame in AXES:
        ok = [q[:1] for q in v] == list(AXES[frame])
    elif frame == 'principal':
        ok = v[:2] == ['streamwise', 'x-stream']
    else:
        ok = k == 'dirIMU' or v == ['1', '2', '3']
    if not ok:
        violated('frame', '%s: coordinate %s names the axes %s in the %s frame' % (when, k, v, frame))


def near(a, b, tol):
    return abs(a - b) <= tol


def where(b):
    return 'first at %s, %d in all' % ([int(q) for q in np.unravel_index(b.argmax(), b.shape)], int(b.sum()))


def rotmat(i):
    """head rotations users set"""
    ms = [np.eye(3), [[1, 0, 0], [0, -1, 0], [0, 0, -1]], [[0, 1, 0], [-1, 0, 0], [0, 0, 1]],
          F.euler(np.array([33.]), np.array([12.]), np.array([-140.]))[..., 0]]
    return np.array(ms[i % len(ms)], dtype=float)


BAD = [lambda d, ds, ins: lambda: d.rotate2(ds, 'nowhere', inplace=ins),
       lambda d, ds, ins: lambda: d.rotate2(ds, None, inplace=ins),
       lambda d, ds, ins: lambda: d.set_declination(ds, 'west', inplace=ins),
       lambda d, ds, ins: lambda: d.set_declination(ds, None, inplace=ins),
       lambda d, ds, ins: lambda: d.set_inst2head_rotmat(ds, 2 * np.eye(3), inplace=ins),
       lambda d, ds, ins: lambda: d.set_inst2head_rotmat(ds, np.eye(4), inplace=ins)]


# ----------------------------------------------------------------- snapshots
def snapshot(ds):
    """Everything in a dataset, by value."""
    v = {}
    for nm in ds.variables:
        x = ds.variables[nm]
        v[nm] = (x.dims, np.array(x.values), copy.deepcopy(dict(x.attrs)), dict(x.encoding))
    return {'vars': v, 'attrs': copy.deepcopy(dict(ds.attrs)), 'coords': set(ds.coords), 'order': list(ds.variables)}


def differs(a, ds, encoding=True):
    """First difference between a snapshot and a dataset (or snapshot), bit for bit."""
    b = ds if isinstance(ds, dict) else snapshot(ds)
    for nm in a['vars']:
        if nm not in b['vars']:
            return '%s is gone' % nm
        p, q = a['vars'][nm], b['vars'][nm]
        if p[0] != q[0]:
            return 'dimensions of %s: %s -> %s' % (nm, p[0], q[0])
        if p[1].dtype != q[1].dtype:
            return 'type of %s: %s -> %s' % (nm, p[1].dtype, q[1].dtype)
        if p[1].shape != q[1].shape:
            return 'shape of %s: %s -> %s' % (nm, p[1].shape, q[1].shape)
        if p[1].dtype.kind == 'O':
            same = list(p[1].ravel()) == list(q[1].ravel())
        else:
            same = bits(p[1]) == bits(q[1])
        if not same:
            return 'values of %s' % nm
        if not attr_eq(p[2], q[2]):
            return 'attributes of %s: %r -> %r' % (nm, p[2], q[2])
        if encoding and not attr_eq(p[3], q[3]):
            return 'encoding of %s: %r -> %r' % (nm, p[3], q[3])
    if set(b['vars']) - set(a['vars']):
        return '%s are new' % sorted(set(b['vars']) - set(a['vars']))
    if a['coords'] != b['coords']:
        return 'coordinates: %s' % sorted(a['coords'] ^ b['coords'])
    for k in a['attrs']:
        if k not in b['attrs']:
            return 'attribute %s is gone' % k
        if not attr_eq(a['attrs'][k], b['attrs'][k]):
            return 'attribute %s: %r -> %r' % (k, a['attrs'][k], b['attrs'][k])
    if set(b['attrs']) - set(a['attrs']):
        return 'attributes %s are new' % sorted(set(b['attrs']) - set(a['attrs']))
    return None


def bits(a):
    """bytes, one kind of NaN"""
    if a.dtype.kind in 'fc' and np.isnan(a).any():
        a = a.copy()
        a[np.isnan(a)] = np.nan
    return a.tobytes()


def attr_eq(x, y):
    if isinstance(x, dict):
        return isinstance(y, dict) and set(x) == set(y) and all(attr_eq(x[k], y[k]) for k in x)
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        x, y = np.asarray(x), np.asarray(y)
        return x.shape == y.shape and x.dtype == y.dtype and bits(x) == bits(y)
    if isinstance(x, (list, tuple)):
        return type(x) == type(y) and len(x) == len(y) and all(attr_eq(p, q) for p, q in zip(x, y))
    if isinstance(x, float) and isinstance(y, float) and x != x:
        return y != y
    return type(x) == type(y) and x == y
