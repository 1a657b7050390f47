"""C05: Signature recordings, every end-of-file position."""
from .. import layout as L
from .. import sg_enc as S
from .. import sg_oracle as O
from ..core import call, exc_str, violated

ID = 'C05'
RUNS = {'quick': 900, 'thorough': 30000}
RULE = ('a run = one simulated Signature deployment (streams, cell counts, frame, IMU, altimeter, burst '
        'mode, skipped pings drawn per seed) whose recording is ended by a power loss at a drawn byte '
        '(or not), then read back; non-trivial = at least two complete ensembles were recorded and the '
        'reader was executed; distinct = distinct scenario')
STATES = 'distinct (streams, frame, burst mode, IMU, altimeter, skip kind, cut class) tuples'
REAL = ['dolfyn.read', 'dolfyn.io.nortek2', 'dolfyn.io.nortek2_lib', 'dolfyn.io.nortek2_defs', 'dolfyn.io.base',
        'dolfyn.time', 'dolfyn.rotate (orientation set-up)', 'xarray', 'numpy']
STUB = ['the instrument (independent encoder)', 'the logger and its power supply (cut point)']
KEEP = ('t0', 'dseed', 'mat', 'model', 'serial')
ASSUME = ['two consecutive recorded ensembles with the same burst counter start with a record type that is in the former, too',
          'bit 1 of the status word (blanking distance in cm) is set, as in current firmware; '
          'all streams of an ensemble carry the same ensemble counter']


def gen_skip(rng, c, n):
    """Pings the instrument skipped (never the first ensembles)."""
    out = []
    if n > 6 and c['nburst'] != 1 and len(c['ids']) > 1 and rng.flip(.25):
        for _ in range(rng.randrange(1, 3)):
            id = rng.pick(c['ids'])
            a = rng.randrange(2, n)
            out.append([id, a, min(a + rng.weighted([(1, 4), (rng.randrange(2, 5), 2), (rng.randrange(5, 30), .5)]), n)])
    return out


def generate(rng, tier, i):
    c = S.gen_cfg(rng)
    n = rng.weighted([(rng.randrange(1, 6), 2), (rng.randrange(6, 30), 6), (rng.randrange(30, 120), 1)])
    cut = None
    if rng.flip(.7):
        cut = [rng.weighted([(rng.randrange(0, 6), 4), (rng.randrange(40), 2)]),
               rng.weighted([(rng.randrange(0, 100), 3), (rng.randrange(3000), 1), (0, 1), (-1, .5)])]
    return {'cfg': c, 'n': n, 'dseed': rng.randrange(2 ** 31), 'skip': gen_skip(rng, c, n), 'cut': cut}


def legal(scn):
    sk = [s for s in scn['skip'] if len(s) == 3]
    return S.legal(scn['cfg']) and scn['n'] >= 1 and all(s[1] >= 2 for s in sk) and \
\
        not (sk and scn['cfg']['nburst'] == 1) and not ambiguous(scn['cfg'], scn['n'], sk)


def ambiguous(c, n, skip):
    """Burst counters restart: after pings were skipped, two consecutive
    recorded ensembles can carry the same counter and different records, and
    then nothing but their times tells them apart."""
    if not c['nburst'] or not skip:
        return False
    sk = {(s[0], k) for s in skip if len(s) == 3 for k in range(s[1], s[2])}
    last = None
    for k in range(n):
        q = [id for id in c['ids'] if (id, k) not in sk and not (id == 26 and k % c['raw_every'])]
        if c['other']:
            q.append(30)
        if not q:
            continue
        h = k % c['nburst']
        if last is not None and last[0] == h and q[0] not in last[1]:
            return True
        last = (h, q)
    return False


def ensembles(recs):
    out = []
    for r in recs:
        if r.e is None:
            continue
        if not out or out[-1][0] != r.e:
            out.append((r.e, {}))
        if r.v is not None:         # altimeter records are counted, not read
            out[-1][1][r.id] = r
    return [q[1] for q in out]


def presentation(ds):
    L.check(ds)
    if not any(q in ds for q in ('quaternions', 'quaternions_avg')):
        L.check_orientation(ds, 'sg')


def check_dual(ds, ds2, c, ens, k):
    """Two datasets, one of each profile."""
    have = set().union(*ens)
    bi = [i for i in c['ids'] if i != 22 and i in have]
    rows = ([e for e in ens[:k] if e and 22 not in e], [e for e in ens[:k] if 22 in e])
    for nm, d, ids, rr in (('burst', ds, bi, rows[0]), ('average', ds2, [22], rows[1])):
        for i, e in enumerate(rr):
            df = O.row_diff(d, c, i, e, ids)
            if df:
                violated('value ' + df.split(':')[0].split(' ')[0], '%s ensemble %d of %d: %s' % (nm, i, len(rr), df))
    O.check_settings(ds, c, bi)
    O.check_settings(ds2, c, [22], omit=('wakeup_state', 'bandwidth') + O.IDLE, more={'fs': c['avgint']})
    for x in (ds, ds2):
        presentation(x)


def check_full(ds, c, ens, k, first=0, skip_ids=()):
    have = set().union(*ens)
    ids = [i for i in c['ids'] if i in have]
    for i in range(k):
        df = O.row_diff(ds, c, i, ens[i], ids)
        if df:
            violated('value ' + df.split(':')[0].split(' ')[0], 'ensemble %d of %d: %s' % (i, k, df))
    O.check_altraw(ds, c, [e[26] for e in ens[:k] if 26 in e] if 26 in ids else [])
    O.check_ensemble_numbers(ds, c, ids, first)
    O.check_settings(ds, c, ids)
    for k in O.IDLE:
        if not c['idle'] and k in ds.attrs:
            violated('settings', '%s is %r, the idle state was not in use' % (k, ds.attrs[k]))
    presentation(ds)


def execute(scn, st, d):
    import dolfyn
    c = scn['cfg']
    if not legal(scn):
        return
    recs = S.deployment(c, scn['n'], scn['dseed'], scn['skip'])
    tail = b''
    if scn['cut']:
        e = max(1, len(recs) - 1 - scn['cut'][0])
        by = scn['cut'][1] % len(recs[e].b) if scn['cut'][1] >= 0 else len(recs[e].b) - 1
        tail = recs[e].b[:by]
        recs = recs[:e]
        st.fault('power_loss_mid_record' if by else 'power_loss_between_records')
    for s in scn['skip']:
        st.fault('skipped_ping')
    ens = ensembles(recs)
    m = len(ens)
    st.simtime += m * S.dt(c)
    p = d + '/rec.ad2cp'
    with open(p, 'wb') as f:
        f.write(b''.join(r.b for r in recs) + tail)
    st.event('file', sum(len(r.b) for r in recs), m, len(tail))
    st.state(tuple(c['ids']), c['cy'], c['nburst'], c['imu'], c['le'], c['ast'], len(scn['skip']), c['raw_every'],
             0 if not scn['cut'] else min(len(tail), 8))
    r, ds = call(dolfyn.read, p)
    judge(r, ds, c, ens, len(tail), st)
    if scn['skip']:
        st.probe('with_skipped_pings')


def judge(r, ds, c, ens, tail, st):
    """What a read returned, against the ensembles in the file.  Returns the
    number of ensembles returned."""
    m = len(ens)
    have = set().union(*ens) if ens else set()
    ds2 = None
    if r != 'exc' and isinstance(ds, tuple):
        ds, ds2 = ds
    st.event(r, exc_str(ds) if r == 'exc' else (int(ds.time.size), ds2 is not None and int(ds2.time_avg.size)))
    if r == 'exc':
        # (a recording without any burst or average profile is not supported)
        if m >= 2 and any({21, 22} & set(q) for q in ens[:-1]) and any(26 in q for q in ens[:-1]) >= (26 in c['ids']) and \
                (c['ids'] not in S.DUAL or {21, 22} <= set().union(*ens[:-1])):
            violated('read_failed', '%d ensembles in the file, the read failed: %s' % (m, exc_str(ds)))
        return
    st.nontrivial = m >= 2
    dual = c['ids'] in S.DUAL and 22 in have and len(have) > 1
    if dual and 21 not in have:
        return                  # nothing tells that there are two profiles
    if (ds2 is not None) != dual:
        violated('count', '%d dataset(s) returned, the file has records of %s' % (1 + (ds2 is not None), sorted(have)))
    if dual:
        nb, na = int(ds.time.size), int(ds2.time_avg.size)
        ens = [e for e in ens if e]       # dual profiles: rows without a record are left out
        full = (sum(22 not in e for e in ens), sum(22 in e for e in ens))
        less = (full[0] - (22 not in ens[-1]), full[1] - (22 in ens[-1]))
        if (nb, na) not in (full, less):
            violated('count', '%d burst and %d average ensembles returned, %d and %d in the file (tail of %d bytes)' % (
                (nb, na) + full + (tail,)))
        if nb and na:
            check_dual(ds, ds2, c, ens, nb + na)
            st.probe('dual_profile_full_match')
        return
    if c['ids'] in S.DUAL:
        return                  # just one of the profiles was recorded before the end
    k = int(ds.time.size)
    if not m - 1 <= k <= m:
        violated('count', '%d ensembles returned, %d in the file (tail of %d bytes)' % (k, m, tail))
    if k == m and k and len(ens[-1]) < len([i for i in c['ids'] if i != 26]):
        st.probe('incomplete_last_ensemble_returned')
    if not k or 26 in c['ids'] and not any(26 in q for q in ens[:k]):
        return
    check_full(ds, c, ens, k)
    st.probe('full_match')
