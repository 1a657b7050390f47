"""C06: damage to Signature recordings is reported or confined."""
import numpy as np

from .. import channel
from .. import sg_enc as S
from .. import sg_oracle as O
from ..core import call, exc_str, violated
from . import c05

ID = 'C06'
RUNS = {'quick': 900, 'thorough': 30000}
RULE = ('a run = one simulated Signature deployment sent through a faulty link / medium (bytes lost, '
        'duplicated, overwritten, inserted; whole records lost, repeated, swapped), then read back; '
        'non-trivial = a fault fired and the read returned data that were compared; distinct = distinct scenario')
STATES = 'distinct (streams, fault kinds, outcome) tuples'
REAL = c05.REAL
STUB = ['the instrument (independent encoder)', 'link and storage medium (fault injection)']
KEEP = ('t0', 'dseed', 'mat', 'model', 'serial', 's')
ASSUME = c05.ASSUME + ['whole records are lost beyond the first two ensembles only; a missing record reads as 0 or NaN '
                       '(with status 0)']
VAR = {21: 'vel', 22: 'vel_avg', 23: 'vel_bt', 24: 'vel_b5', 28: 'echo'}
KINDS = [('ovw', 9), ('cut', 1.5), ('dup', 1), ('ins', 1.5), ('junk', 1), ('lose', 8), ('rep', 2), ('swap', 2)]


def generate(rng, tier, i):
    c = S.gen_cfg(rng, [p for p in S.PLANS if p[0] not in [list(q) for q in S.DUAL]])
    c.update(nc=max(2, c['nc']), nc5=max(4, c['nc5']), nce=max(6, c['nce']))
    c['vsvar'] = 0
    if c['vscale'] == -4:
        c['vscale'] = -3
    n = rng.weighted([(rng.randrange(3, 8), 1), (rng.randrange(8, 40), 6)])
    nrec = 1 + n * len(c['ids'])
    whole = rng.flip(.35)
    f = channel.gen_faults(rng, nrec, 1 + 2 * len(c['ids']) if whole else rng.pick([0, 1, 1 + 2 * len(c['ids'])]),
                           maxlen=3000, sync=b'\xa5\x0a',
                           kinds=[('lose', 5), ('rep', 1), ('swap', 1)] if whole else KINDS)
    return {'cfg': c, 'n': n, 'dseed': rng.randrange(2 ** 31), 'faults': f}


def legal(scn):
    return S.legal(scn['cfg']) and scn['cfg']['ids'] not in [list(q) for q in S.DUAL] and scn['n'] >= 1 and \
        scn['cfg']['nc'] >= 2 and scn['cfg']['nc5'] >= 4 and scn['cfg']['nce'] >= 6 and scn['cfg']['vscale'] >= -3 and not scn['cfg'].get('vsvar')


def ambiguous(segs):
    return _ambiguous(segs) or _ambiguous([s for s in segs if s.ok])


def _ambiguous(segs):
    """Consecutive records of different ensembles with the same counter (short
    bursts) and without a repeated type: only their times tell them apart."""
    last = None
    for s in segs:
        if s.rec is None or s.rec.e is None:
            continue
        o = 84 if s.rec.id == 23 else 82
        b = s.b if len(s.b) >= o + 4 else s.rec.b
        hw = int.from_bytes(b[o:o + 4], 'little')
        if last is None or last[1] != hw or s.rec.id in last[2]:
            last = (s.rec.e, hw, set())
        elif last[0] != s.rec.e:
            return True
        last[2].add(s.rec.id)
    return False


def key(id, x, c):
    x = np.asarray(x, dtype='float64')
    x = x / .01 if id == 28 else x / 10. ** c['vscale']
    return np.rint(x).astype('int64').tobytes()


def execute(scn, st, d):
    import dolfyn
    c = scn['cfg']
    if not legal(scn):
        return
    recs = S.deployment(c, scn['n'], scn['dseed'])
    segs = channel.apply([(r.b, r) for r in recs], scn['faults'], st, lambda r: 10 if r else 0, sync=b'\xa5\x0a')
    if not segs:
        return
    blob = b''.join(s.b for s in segs)
    st.simtime += scn['n'] * S.dt(c)
    with open(d + '/rec.ad2cp', 'wb') as f:
        f.write(blob)
    r, ds = call(dolfyn.read, d + '/rec.ad2cp')
    intact = all(s.ok for s in segs)
    kinds = {f['k'] for f in scn['faults']}
    st.event('file', len(blob), r, exc_str(ds) if r == 'exc' else '')
    st.state(tuple(c['ids']), tuple(sorted(kinds)), r if r == 'ok' else exc_str(ds)[:40])
    first2 = {q for q in recs if q.e is None or q.e < 2}
    lead = [s.rec for s in segs[:1 + 2 * len(c['ids'])]]
    head_ok = intact and set(lead) >= {q for q in first2 if q.e is not None} and segs[0].rec is recs[0]
    if r == 'exc':
        if head_ok and kinds <= {'lose'} and scn['n'] > 4 and len({s.rec.e for s in segs}) > 3 and 26 not in c['ids']:
            violated('read_failed', 'only whole records were lost, yet the read failed: ' + exc_str(ds))
        st.probe('reported')
        return
    if ambiguous(segs):
        st.probe('ambiguous_counters_not_judged')
        return
    if isinstance(ds, tuple):
        # a damaged byte turned a record into one of another profile
        ds = ds[1] if c['ids'] == [22] else ds[0]
        st.probe('damaged_to_dual_profile')
    ids = [i for i in c['ids'] if i != 26]
    good = {}                   # (id, value) -> record
    bad_recs = set()
    for s in segs:
        if s.rec is not None and s.rec.v is not None:
            if s.ok:
                if s.rec.id in VAR:
                    good[(s.rec.id, key(s.rec.id, s.rec.v['vel' if s.rec.id != 28 else 'echo'], c))] = s.rec
            else:
                bad_recs.add(s.rec)
    nbad = sum(max(1, s.b.count(b'\xa5\x0a')) for s in segs if not s.ok)
    present = {s.rec.id for s in segs if s.rec is not None and s.rec.v is not None}
    ids = [i for i in ids if i in present and VAR[i] in ds]
    n = int(ds.time.size)
    rows, used = [], {}
    invented = 0
    for q in range(n):
        row = {}
        skip = set()
        for id in ids:
            g = ds[VAR[id]].values[..., q]
            if id == 24 and g.ndim == 1:
                g = g[None]
            h = good.get((id, key(id, g, c)))
            if h is None:
                if not O.is_missing(g):
                    skip.add(id)
                    invented += 1
            else:
                row[id] = h
                used.setdefault(h, []).append(q)
        rows.append((row, skip))
    if invented > nbad:
        violated('invented', '%d values do not belong to an undamaged record, %d pieces of the file are damaged' % (
            invented, nbad))
    for q, (row, skip) in enumerate(rows):
        es = {x.e for x in row.values()}
        if len(es) > 1:
            violated('mixed', 'row %d has records of different ensembles: %s' % (
                q, sorted((i, x.e) for i, x in row.items())))
        if not row:
            continue
        # a damaged record whose velocities survived
        sk = skip | {i for i in ids if i not in row}
        for b in bad_recs:
            if b.e in es:
                sk.add(b.id)
        if nbad:
            sk |= {i for i in ids if i not in row}
        df = O.row_diff(ds, c, q, row, ids + [26] * ('samp_altraw' in ds), sk if nbad else ())
        if df:
            violated('value ' + df.split(':')[0].split(' ')[0], 'row %d (ensemble %s): %s' % (q, sorted(es), df))
    # every undamaged record, once, in order
    lst = [s for s in segs if s.rec is not None and s.rec.e is not None]
    if not lst:
        return
    # the ensemble under way where the intact part of the file ends
    end = max((i for i, s in enumerate(segs) if s.ok and s.rec is not None and s.rec.e is not None), default=0)
    tail = {s.rec.e for s in segs[end:] if s.rec is not None}
    count = {}
    for s in segs:
        if s.ok and s.rec.v is not None:
            count[s.rec] = count.get(s.rec, 0) + 1
    for id in ids:
        # a damaged record may read as if it were not (spare bytes)
        seq = [s.rec for s in segs if s.rec is not None and s.rec.id == id]
        got = [r_[id] for r_, _ in rows if id in r_]
        must = [x for x in count if x.id == id and x.e not in tail and x not in bad_recs]
        j = 0
        for x in got:
            # in the order of the file
            while j < len(seq) and seq[j] is not x:
                j += 1
            if j == len(seq):
                violated('order', '%s: records returned in the order %s, in the file %s' % (
                    S.NAME[id], [y.e for y in got][:40], [y.e for y in seq][:40]))
            j += 1
        for x in must:
            k = len(used.get(x, ()))
            if k != count[x]:
                violated('lost' if k < count[x] else 'repeated',
                         '%s record of ensemble %d is %d times in the file (undamaged) and %d times in the result' % (
                             S.NAME[id], x.e, count[x], k))
    # records of one ensemble that were stored together stay together
    for e in {x.e for x in used}:
        pos = [i for i, s in enumerate(segs) if s.rec is not None and s.rec.e == e]
        if pos[-1] - pos[0] + 1 != len(pos) or not all(segs[i].ok for i in pos) or e in tail or \
                any(count.get(segs[i].rec, 0) != 1 for i in pos):
            continue
        if any(segs[i].rec.e is None or not segs[i].ok for i in (pos[0] - 1, pos[-1] + 1) if 0 <= i < len(segs)) and nbad:
            continue
        at = {q for x in used if x.e == e for q in used[x]}
        if len(at) > 1:
            violated('split', 'the records of ensemble %d, stored together, are spread over rows %s' % (e, sorted(at)))
        st.probe('ensembles_whole')
    if 26 in c['ids'] and not any(b.id == 26 for b in bad_recs) and 'samp_altraw' in ds:
        seq = [s.rec for s in segs if s.rec is not None and s.rec.id == 26]
        k = int(ds['time_altraw'].size)
        if not len(seq) - 1 <= k <= len(seq) and intact:
            violated('count', '%d raw altimeter records returned, %d in the file' % (k, len(seq)))
        if k <= len(seq):
            O.check_altraw(ds, c, seq[:k])
    if segs[0].rec is recs[0] and segs[0].ok and all(
            (n - len({x.e for x in used if x.id == id})) * 3 < n for id in ids) and \
            set(ids) == set(c['ids']) - {26} and (intact or present == set(c['ids'])) and \
            not (set(VAR.values()) & set(ds.data_vars)) - {VAR[i] for i in ids}:
        O.check_settings(ds, c, ids if 26 not in c['ids'] else ids)
        st.probe('settings_checked')
    st.nontrivial = bool(st.faults)
    st.probe('compared', len(used))
