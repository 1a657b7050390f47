"""C01: TRDI recordings, every end-of-file position."""
from .. import layout as L
from .. import rdi_enc as R
from .. import rdi_oracle as O
from ..core import call, exc_str, violated
from ..rng import Rng

ID = 'C01'
RUNS = {'quick': 1500, 'thorough': 60000}
RULE = ('a run = one simulated TRDI deployment (firmware family, block set, block order, '
        'cell-count schedule, navigation source drawn per seed) whose recording is ended by a power '
        'loss at a drawn byte (or not), then read back; non-trivial = at least two complete '
        'ensembles were recorded and the reader was executed; distinct = distinct scenario')
STATES = 'distinct (firmware, block set, nav source, cell schedule kind, cut class) tuples'
REAL = ['dolfyn.read', 'dolfyn.io.rdi', 'dolfyn.io.rdi_lib', 'dolfyn.io.base', 'dolfyn.rotate (orientation set-up)', 'xarray', 'numpy']
STUB = ['the instrument (independent PD0 encoder)', 'the logger and its power supply (cut point)']
KEEP = ('fw', 't0', 'dt_ms', 'tpp', 'wl', 'dseed', 'num0')
ASSUME = ['surface-layer profile has no more cells than the main profile']


def generate(rng, tier, i):
    cfg = R.gen_cfg(rng)
    n = rng.weighted([(rng.randrange(2, 6), 2), (rng.randrange(6, 25), 6),
                      (rng.randrange(25, 140), 1.2)])
    cells = []
    if cfg['vary_cells']:
        nc = cfg['n_cells']
        lo = max(1, cfg['sl'])
        mode = rng.pick(['up', 'down', 'walk'])
        for _ in range(n):
            if rng.flip(.4):
                nc += {'up': rng.randrange(0, 4), 'down': -rng.randrange(0, 4),
                       'walk': rng.randrange(-4, 5)}[mode]
            nc = min(max(lo, nc), 60)
            cells.append(nc)
    miss = []
    if rng.flip(.25):   # optional blocks switched on and off during the deployment
        for nm in ('bt', 'alt', 'pg', 'amp', 'corr', 'status'):
            if nm in cfg['has'] and rng.flip(.5):
                a = rng.randrange(n)
                miss.append([nm, a, a + rng.randrange(1, n + 1)])
    if cfg['src_prog'] == 'wr2' and rng.flip(.3):
        for nm in ('gga', 'vtg', 'dbt', 'hdt'):
            if rng.flip(.5):
                a = rng.randrange(n)
                miss.append([nm, a, a + rng.randrange(1, n + 1)])
    cut = None
    if rng.flip(.75):
        e = rng.weighted([(n - 1, 3), (rng.randrange(n), 4), (min(n - 1, 2), 1)])
        by = rng.weighted([(rng.randrange(1, 4), 2), (rng.randrange(4, 60), 2),
                           (rng.randrange(1, 1200), 3), (-rng.randrange(1, 6), 2), (0, 1)])
        cut = [e, by]
    return {'cfg': cfg, 'n': n, 'dseed': rng.randrange(2 ** 31), 'cells': cells,
            'miss': miss, 'cut': cut}


def record(scn):
    cfg, n = scn['cfg'], scn['n']
    out = []
    for i in range(n):
        nc = scn['cells'][i] if i < len(scn['cells']) else None
        if nc is not None and nc < max(1, cfg['sl']):
            nc = max(1, cfg['sl'])
        drop = tuple(m[0] for m in scn['miss'] if m[1] <= i < m[2])
        out.append(R.build(cfg, i, scn['dseed'], n_cells=nc, drop=drop))
    return out


def execute(scn, st, d):
    import dolfyn
    cfg = scn['cfg']
    if not cfg['n_cells'] or not scn['n']:
        return
    ens = record(scn)
    size = sum(len(e.b) for e in ens)
    full = b''.join(e.b for e in ens)
    tail = 0
    m = len(ens)
    if scn['cut']:
        e, by = scn['cut']
        e = min(max(e, 0), len(ens) - 1)
        by = by % len(ens[e].b)
        pos = sum(len(x.b) for x in ens[:e]) + by
        full = full[:pos]
        m, tail = e, by
        st.fault('power_loss_mid_record' if by else 'power_loss_between_records')
    done = ens[:m]
    st.simtime += m * cfg['dt_ms'] / 1000.
    p = d + '/rec.' + {'vmdas': 'ENR', 'wr2': 'PD0'}.get(cfg['src_prog'], '000')
    with open(p, 'wb') as f:
        f.write(full)
    st.event('file', len(full), m, tail)
    st.state(tuple(cfg['fw']), tuple(cfg['has']), cfg['src_prog'], bool(scn['cells']),
             bool(cfg['sl']), bool(cfg['bb']), bool(scn['miss']), 0 if not scn['cut'] else min(tail, 5))
    if len(full) < 2:
        return
    need = m if tail >= 4 else m - 1
    r, ds = call(dolfyn.read, p)
    st.event(r, exc_str(ds) if r == 'exc' else int(ds.time.size))
    if r == 'exc':
        if need >= 1:
            violated('read_failed', '%d complete ensembles in the file, the read failed: %s' % (
                m, exc_str(ds)))
        return
    st.nontrivial = m >= 2
    k = int(ds.time.size)
    if not need <= k <= m:
        violated('count', '%d time steps returned, %d complete ensembles in the file (tail of %d bytes)' % (
            k, m, tail))
    if k == 0:
        return
    rows = done[:k]
    names = O.var_names(rows)
    # block-level variables: what was recorded in at least one returned ensemble
    for q in range(k):
        df = O.row_matches(ds, q, rows[q], names)
        if df:
            violated('value ' + df.split(':')[0].split(' ')[0], 'time step %d of %d: %s' % (q, k, df))
    O.check_settings(ds, cfg, max(e.n_cells for e in rows))
    L.check(ds)
    L.check_orientation(ds, 'rdi')
    O.check_gps(ds, rows)
    if 'time_gps' in ds.coords:
        nf = len({e.v['time_gps'] for e in rows if e.v.get('time_gps') is not None})
        if ds.time_gps.size != nf:
            violated('gps', '%d position fixes returned, %d recorded' % (ds.time_gps.size, nf))
    O.check_no_invention(ds, set(O.var_names(ens[:m + 1])))
    st.probe('full_match')
    if scn['cells']:
        st.probe('cell_count_changed')
    if k > 50:
        st.probe('more_than_50_ensembles')
