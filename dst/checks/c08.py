"""C08: reading part of a recording."""
import numpy as np

from .. import channel
from .. import recordings as W
from ..compare import norm, short
from ..core import call, exc_str, legal_candidates, violated

ID = 'C08'
RUNS = {'quick': 700, 'thorough': 30000}
RULE = ('a run = one simulated recording (TRDI, Nortek, Signature; possibly ended by a power loss or sent through a '
        'faulty link), read completely and then in parts (counts and ranges) in a drawn order; every part is compared '
        'with the corresponding slice of the complete read; non-trivial = at least one part with data was compared; '
        'distinct = distinct scenario')
STATES = 'distinct (kind of recording, kind of request, position, size, outcome) tuples'
REAL = ['dolfyn.read', 'dolfyn.io (rdi, nortek, nortek2)', 'dolfyn.rotate (orientation set-up)', 'xarray', 'numpy']
STUB = ['the instruments (independent encoders)', 'power supply, link and storage (fault injection)']
KEEP = W.KEEP
ASSUME = ['the TRDI reader takes counts only (it refuses a range)',
          'Vector sensor values and times after the last system record within the requested range are not compared: '
          'the full read interpolates them from a record that is not in the range',
          'times interpolated because a clock is damaged are not compared',
          'times of Signature ensembles without a record of that type are interpolated: not compared',
          'damaged Signature recordings are not part of this property (C06)']


def generate(rng, tier, i):
    rec = W.gen(rng, tier, maxn=150, cut=.35)
    n = rec['n']
    req = []
    for _ in range(rng.randrange(1, 6)):
        a = rng.weighted([(0, 1), (rng.randrange(n + 1), 3), (n + rng.randrange(5), .3)])
        b = rng.weighted([(a + 1, 1), (a + 1 + rng.randrange(n + 1), 4), (n, 1), (n - 1, 1), (n + rng.randrange(1, 50), 1),
                          (10 * n + 1000, .5)])
        if rec['fam'] == 'rdi' or rng.flip(.45):
            req.append(['count', 0, max(b, 1)])
        else:
            req.append([rng.pick(['list', 'tuple', 'open' if rec['fam'] == 'sg' else 'list']), a, max(b, a + 1)])
    f = []
    if rec['fam'] != 'sg' and rng.flip(.3):
        first = W.FIRST[rec['fam']]
        f = channel.gen_faults(rng, max(rec['n'], first + 2), first, maxlen=2000, sync=W.SYNC[rec['fam']])
        rec['cut'] = None
    return {'rec': rec, 'faults': f, 'req': req}


def legal(scn):
    return W.legal(scn['rec']) and all(len(r) == 3 and r[2] > r[1] >= 0 for r in scn['req'])


def candidates(scn):
    return legal_candidates(scn, KEEP, lambda c: all(len(r) == 3 for r in c['req']) and c['rec']['fam'] and legal(c))


SYSVARS = ('time', 'batt', 'c_sound', 'heading', 'pitch', 'roll', 'temp', 'error', 'status', 'orientation_down')


def rows_of(w, ds, k, a, b, dual=0):
    """time dimension -> indices of the full read that belong to the range"""
    if w.fam != 'sg':
        return {'time': np.arange(a, b)}
    ens = w.ens
    out = {}
    raw = [j for j, e in enumerate(e for e in ens) if 26 in e]
    out['time_altraw'] = np.array([i for i, j in enumerate(raw) if a <= j < b], dtype=int)
    if k is None:               # dual profiles: rows of the ensembles with a record
        bi = [j for j, e in enumerate(ens) if e and 22 not in e]
        av = [j for j, e in enumerate(ens) if 22 in e]
        rb = np.array([i for i, j in enumerate(bi) if a <= j < b], dtype=int)
        ra = np.array([i for i, j in enumerate(av) if a <= j < b], dtype=int)
        out['avg'], out[''] = ra, rb
    else:
        out[''] = np.arange(a, b)
    return out


def compare(w, full, part, a, b, damaged, profile=''):
    """Returns the first difference; full has all, part the range [a, b)."""
    rows = rows_of(w, full, None if profile else full.sizes['time'], a, b)
    dual = {'burst': '', 'avg': 'avg', '': ''}[profile]
    last_sys = None
    if w.fam == 'nk' and w.c['inst'] == 'VEC':
        sysr = [r.idx for r in w.recs if r.kind == 'sys' and r.idx < b]
        last_sys = max(sysr) if sysr else -1
    for v in sorted(full.variables):
        x = full.variables[v]
        tdim = [d for d in x.dims if d.startswith('time')]
        if v not in part.variables:
            if tdim and tdim[0] == 'time_altraw' and not rows['time_altraw'].size:
                continue
            if not tdim and 'altraw' in v and w.fam == 'sg' and not rows['time_altraw'].size:
                continue
            if v == 'time_gps' or v == 'hdwtime_gps':
                continue
            if w.fam == 'rdi' and tdim:
                # nothing of this block was recorded in the range
                q = x.isel({tdim[0]: slice(0, b)}).values if tdim[0] == 'time' else None
                if q is None or empty(q):
                    continue
            if w.fam == 'nk' and v in ('accel', 'angrt', 'mag') and empty(x.values[..., a:b]):
                continue
            if x.dims == (v,) and not any(v in part.variables[q].dims for q in part.variables):
                continue
            return '%s is missing' % v
        y = part.variables[v]
        p, q = x.values, y.values
        if w.fam == 'rdi' and 'time_gps' in x.dims and 'time_gps' not in y.dims:
            continue            # no position fix within the range: not on its own time base
        if x.dims != y.dims:
            return '%s has dimensions %s, in the full read %s' % (v, y.dims, x.dims)
        if tdim:
            d = tdim[0]
            if d == 'time_gps':
                if 'hdwtime_gps' not in part or np.isnat(full.time.values).any():
                    continue
                ix = np.nonzero(np.isin(full.hdwtime_gps.values, full.time.values[a:b]))[0]
            else:
                ix = rows.get(d, rows.get(dual))
                if ix is None:
                    ix = np.arange(a, b)
            ix = ix[ix < x.sizes[d]]
            p = np.take(p, ix, axis=x.dims.index(d))
            if p.shape[x.dims.index(d)] != y.sizes[d]:
                return '%s: %d rows, the range of the full read has %d' % (v, y.sizes[d], p.shape[x.dims.index(d)])
            if last_sys is not None and v in SYSVARS + (() if w.c['imu'] in (195, 204) else ('orientmat',)):
                keep = max(0, last_sys + 1 - a)
                if last_sys < 0 or not any(r.kind == 'sys' and r.idx >= b for r in w.recs) and last_sys >= a:
                    keep = b - a if last_sys >= 0 else 0
                if damaged:
                    # The samples shift against the system records: values and
                    # times come from a fit to all of them.
                    keep = 0
                p, q = p[..., :keep], q[..., :keep]
        if w.fam == 'nk' and v == 'time' and damaged:
            continue            # a broken clock is interpolated from those of the range
        if w.fam == 'sg' and v.startswith('time') and v != 'time_altraw' and p.shape == q.shape:
            id = {'time' + t: i for i, t in W.S.TAG.items()}.get(v)
            if profile == 'burst':
                es = [e for e in w.ens[a:b] if e and 22 not in e]
            elif profile == 'avg':
                es = [e for e in w.ens[a:b] if 22 in e]
            else:
                es = w.ens[a:b]
            if w.c['ids'] == [22] and v == 'time':
                id = 22
            keep = np.array([id in e for e in es], dtype=bool)
            if keep.size == p.size:
                p, q = p[keep], q[keep]         # (others are interpolated)
        if w.fam == 'rdi' and p.shape != q.shape:
            # cells that no ensemble of the range has
            dims = [i for i, d in enumerate(x.dims) if d.startswith('range')]
            if dims and q.shape[dims[0]] < p.shape[dims[0]]:
                i = dims[0]
                more = np.take(p, np.arange(q.shape[i], p.shape[i]), axis=i)
                if x.dims != (v,) and not empty(more):
                    return '%s: %d cells, the range of the full read has values in more' % (v, q.shape[i])
                p = np.take(p, np.arange(q.shape[i]), axis=i)
        if p.shape != q.shape:
            return '%s has shape %s, the range of the full read %s' % (v, q.shape, p.shape)
        if not same(p, q, bool(last_sys is not None and v in SYSVARS + ('orientmat',)), w.fam == 'rdi'):
            return '%s is %s, in the full read %s' % (v, short(q[~eq(p, q)]), short(p[~eq(p, q)]))
        if norm(dict(x.attrs)) != norm(dict(y.attrs)):
            return 'attributes of %s are %s, in the full read %s' % (v, y.attrs, x.attrs)
    more = set(part.variables) - set(full.variables)
    if w.fam == 'sg' and not rows['time_altraw'].size:
        more = {v for v in more if not v.startswith('status_alt')}    # (see skip_attr)
    if more:
        return '%s are only in the part' % sorted(more)
    for k in sorted(set(full.attrs) | set(part.attrs)):
        if k not in part.attrs or k not in full.attrs:
            if skip_attr(w, k, full, part, damaged):
                continue
            return 'attribute %s is only in the %s' % (k, 'full read' if k in full.attrs else 'part')
        if norm(full.attrs[k]) != norm(part.attrs[k]) and not skip_attr(w, k, full, part, damaged):
            return 'attribute %s is %r, in the full read %r' % (k, part.attrs[k], full.attrs[k])
    return None


def no_imu(ds, rows=slice(None)):
    if 'angrt' not in ds:
        return True
    return bool(np.any([np.isnan(ds[v].values[-1, rows]) for v in ('accel', 'angrt', 'mag') if v in ds], axis=0).all())


def skip_attr(w, k, full, part, damaged):
    if w.fam == 'rdi' and k == 'n_cells' and (w.s['cells'] or damaged):
        return True             # the largest number in the data read
    # (the altimeter is described by the raw altimeter records, where there are some)
    if w.fam == 'sg' and ('altraw' in k or k.endswith('_alt') or k.startswith('tilt_over')):
        return True
    if k == 'rotate_vars':
        return set(full.attrs[k]) >= set(part.attrs[k]) and all(
            v in part for v in part.attrs[k]) and not any(
            v in part for v in set(full.attrs[k]) - set(part.attrs[k]))
    return False


def empty(q):
    q = np.asarray(q)
    if q.dtype.kind == 'f':
        return bool((np.isnan(q) | (q == 0)).all())
    if q.dtype.kind == 'M':
        return bool(np.isnat(q).all())
    return q.dtype.kind in 'OUS' or not q.any()


def eq(p, q):
    if p.dtype.kind == 'M':
        return (p == q) | (np.isnat(p) & np.isnat(q))
    if p.dtype.kind in 'fc':
        return (p == q) | (np.isnan(p) & np.isnan(q))
    return np.asarray(p == q)


def same(p, q, near=False, anytype=False):
    if near and p.dtype.kind == q.dtype.kind == 'M':
        # (interpolated: the rounding depends on the records around)
        return bool((eq(p, q) | (np.abs((p - q).astype('int64')) < 200000)).all())
    if near and p.dtype == q.dtype and p.dtype.kind == 'f':
        return bool((eq(p, q) | (np.abs(p - q) <= 1e-4 + 1e-5 * np.abs(p))).all())
    # (counts that an ensemble lacks make the whole variable floating point)
    return (anytype or p.dtype == q.dtype) and bool(eq(p, q).all())


def execute(scn, st, d):
    import dolfyn
    if not legal(scn):
        return
    w = W.Recording(scn['rec'])
    b = w.damaged(scn['faults'], st) if scn['faults'] else w.b
    if w.cut and not scn['faults']:
        st.fault(w.cut)
    st.simtime += w.seconds()
    p = d + '/rec.' + w.ext
    with open(p, 'wb') as f:
        f.write(b)
    r, full = call(dolfyn.read, p)
    st.event('file', len(b), r, exc_str(full) if r == 'exc' else '')
    if r == 'exc':
        return
    dual = isinstance(full, tuple)
    if w.fam == 'sg' and not dual and w.c['ids'] in W.S.DUAL:
        return
    n = w.n if dual else int(full.time.size)
    for q, (kind, a, e) in enumerate(scn['req']):
        if kind == 'count':
            arg, a = e, 0
        else:
            arg = {'list': [a, e], 'tuple': (a, e), 'open': [a, None]}[kind]
        if kind == 'open':
            e = n
        e = min(e, n)
        nm = 'request %d: nens=%r of %d' % (q, arg, n)
        r, part = call(dolfyn.read, p, nens=arg)
        if scn['faults'] and r == 'ok':
            st.event(kind, r, int(part.time.size))
        else:
            st.event(kind, r, exc_str(part) if r == 'exc' else '')
        st.state(w.sort(), kind, a == 0, e == n, min(e - a, 3), r)
        if a >= e:
            if r == 'ok' and not isinstance(part, tuple) and part.time.size and not (
                    w.fam == 'nk' and w.c['imu'] and no_imu(part)):
                violated('count', nm + ' returned %d time steps' % part.time.size)
            continue
        if w.fam == 'rdi' and kind != 'count':
            continue
        if dual:
            av = [j for j in range(a, e) if 22 in w.ens[j]]
            bi = [j for j in range(a, e) if w.ens[j] and 22 not in w.ens[j]]
            if not (av and bi) or e == n:
                continue        # just one profile in the range, or the last ensemble, which may be left out
        if w.fam == 'sg' and not any(22 in x or 21 in x for x in w.ens[a:e]):
            pass
        if r == 'exc':
            violated('failed', '%s failed: %s' % (nm, exc_str(part)))
        if isinstance(part, tuple) != dual:
            violated('count', nm + ': number of datasets differs')
        if dual:
            df = (compare(w, full[0], part[0], a, e, bool(scn['faults']), 'burst') or
                  compare(w, full[1], part[1], a, e, bool(scn['faults']), 'avg'))
        else:
            m = int(part.time.size)
            if scn['faults'] and w.fam == 'nk' and w.c['imu'] and a < a + m < e and \
                    no_imu(full, slice(a + m, e)):
                e = a + m       # trailing samples without IMU data are dropped
            if m != e - a:
                violated('count', '%s returned %d time steps, there are %d in the range' % (nm, part.time.size, e - a))
            df = compare(w, full, part, a, e, bool(scn['faults']))
        if df:
            violated('differs ' + df.split(' ')[0], '%s: %s' % (nm, df))
        st.nontrivial = True
        st.probe('part_equals_slice')
