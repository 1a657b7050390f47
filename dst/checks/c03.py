"""C03: classic Nortek recordings, every end-of-file position."""
import numpy as np

from .. import layout as L
from .. import nk_enc as N
from .. import nk_oracle as O
from ..core import call, exc_str, violated

ID = 'C03'
RUNS = {'quick': 2400, 'thorough': 60000}
RULE = ('a run = one simulated Vector, AWAC or Vectrino deployment (settings, burst mode, IMU type, '
        'diagnostic and wave records drawn per seed) whose recording is ended by a power loss at a '
        'drawn byte (or not), then read back; non-trivial = at least two complete samples were '
        'recorded and the reader was executed; distinct = distinct scenario')
STATES = 'distinct (instrument, frame, burst mode, IMU, diagnostic records, cut class) tuples'
REAL = ['dolfyn.read', 'dolfyn.io.nortek', 'dolfyn.io.nortek_defs', 'dolfyn.io.base', 'dolfyn.time',
        'dolfyn.tools.misc (gap interpolation)', 'dolfyn.rotate (orientation set-up)', 'xarray', 'numpy']
STUB = ['the instrument (independent encoder)', 'the logger and its power supply (cut point)']
KEEP = ('t0', 'dseed', 'freq', 'mat', 'inst')
ASSUME = ['AWAC profiles have an even number of cells; wave records are skipped by the reader']


def ext(c):
    return {'VEC': 'vec', 'WPR': 'wpr', 'VNO': 'vno'}[c['inst']]


def generate(rng, tier, i):
    c = N.gen_cfg(rng)
    n = rng.weighted([(rng.randrange(2, 6), 2), (rng.randrange(6, 60), 6),
                      (rng.randrange(60, 400), 1.2)])
    cut = None
    if rng.flip(.75):
        cut = [rng.weighted([(rng.randrange(1, 8), 4), (rng.randrange(40), 2), (rng.randrange(100000), 2)]),
               rng.randrange(0, 140)]
    return {'cfg': c, 'n': n, 'dseed': rng.randrange(2 ** 31), 'cut': cut}


def cut_point(recs, cut, first):
    """cut = [records from the end, byte in that record]"""
    e = len(recs) - 1 - cut[0] % max(1, len(recs) - first)
    return e, cut[1] % max(1, len(recs[e].b))


def legal(scn):
    c = scn['cfg']
    if scn['n'] < 1 or (c['inst'] == 'WPR' and (c['n_bins'] < 2 or c['n_bins'] % 2)) or \
            not (c.get('avg', 1) and c.get('rate', 1)):
        return False
    if c['nburst'] and (c['nburst'] < c['rate'] or c['burst_int'] < c['nburst'] / c['rate'] + 1):
        return False
    return not (c['inst'] == 'VEC' and 512 % c['rate'] or c['inst'] == 'VNO' and 50000 % c['rate'] or
                c['serial'] > 9999 or c['chk'] > 5000 or c['sw'] < 10000 or not 100 <= c['fw'] <= 999 or
                c['imu'] not in (0, 195, 204, 211))


def execute(scn, st, d):
    import dolfyn
    c = scn['cfg']
    if not legal(scn):
        return
    recs = N.deployment(c, scn['n'], scn['dseed'])
    first = 3 + (c['inst'] == 'VNO')
    tail = 0
    if scn['cut']:
        e, by = cut_point(recs, scn['cut'], first)
        tail = by
        st.fault('power_loss_mid_record' if by else 'power_loss_between_records')
        part, recs = recs[e], recs[:e]
    blob = b''.join(r.b for r in recs)
    if tail:
        blob += part.b[:tail]
    samples = [r for r in recs if r.kind == 'sample']
    sysr = [r for r in recs if r.kind == 'sys']
    imus = {r.idx: r for r in recs if r.kind == 'imu'}
    m = len(samples)
    st.simtime += m / N.fs(c)
    p = d + '/rec.' + ext(c)
    with open(p, 'wb') as f:
        f.write(blob)
    st.event('file', len(blob), m, tail)
    st.state(c['inst'], c['frame'], bool(c['nburst']), c['imu'], bool(c['chk']), bool(c.get('waves')),
             c['vscale'], 0 if not scn['cut'] else min(tail, 5))
    r, ds = call(dolfyn.read, p)
    st.event(r, exc_str(ds) if r == 'exc' else int(ds.time.size))
    if r == 'exc':
        if m >= 2:
            violated('read_failed', '%d complete samples in the file, the read failed: %s' % (m, exc_str(ds)))
        return
    st.nontrivial = m >= 2
    k = int(ds.time.size)
    if not m - 1 <= k <= m:
        violated('count', '%d samples returned, %d complete ones in the file (tail of %d bytes)' % (k, m, tail))
    if k == 0:
        return
    for i in range(k):
        df = O.sample_diff(ds, c, i, samples[i], imus.get(i))
        if df:
            violated('value ' + df.split(':')[0].split(' ')[0], 'sample %d of %d: %s' % (i, k, df))
        if c['imu'] and i not in imus and 'accel' in ds and not np.isnan(ds['accel'].values[:, i]).all():
            violated('invented_imu', 'sample %d has IMU data %s, none were recorded' % (
                i, ds['accel'].values[:, i]))
    cc = c if not c['imu'] or imus else dict(c, imu=0)
    O.check_settings(ds, cc)
    L.check(ds)
    if c['inst'] != 'VNO' and 'heading' in ds and not (imus and any('orientmat' in q.v for q in imus.values())):
        L.check_orientation(ds, 'nk')
    if c['inst'] != 'VEC' or sysr:
        O.check_times(ds, c, samples[:k])
    if c['inst'] == 'VEC':
        O.check_sys(ds, sysr, k)
        if sysr and (ds['orientation_down'].values.astype(bool) == bool(c['up'])).any():
            violated('sys_value', 'orientation_down %s, system records say %s' % (
                ds['orientation_down'].values[:5], not c['up']))
    st.probe('full_match')
    if c['nburst'] and m > c['nburst']:
        st.probe('several_bursts')
    if m > 200:
        st.probe('more_than_200_samples')
