"""C02: TRDI recordings, damage stays where it is."""
from .. import channel
from .. import rdi_enc as R
from .. import rdi_oracle as O
from ..core import call, exc_str, violated
from ..align import align
from . import c01

ID = 'C02'
RUNS = {'quick': 900, 'thorough': 60000}
RULE = ('a run = one simulated TRDI deployment whose byte stream passes a link/storage simulator that '
        'loses, duplicates, overwrites, inserts or reorders at drawn positions, replaces navigation '
        'text and breaks clocks, then is read back; non-trivial = at least one fault changed the '
        'stream and at least one undamaged ensemble was checked; distinct = distinct scenario')
STATES = 'distinct (fault kinds, firmware family, nav source, resynchronisation outcome) tuples'
REAL = c01.REAL
STUB = ['the instrument (independent PD0 encoder)', 'the link / storage medium (fault injector)']
KEEP = c01.KEEP
ASSUME = ['the first two ensembles are undamaged (they carry the settings)',
          'inserted junk is shorter than the documented search distance of 30000 bytes']


def generate(rng, tier, i):
    scn = c01.generate(rng, tier, i)
    if len(scn['miss']):
        scn['miss'] = []
    scn['cut'] = None
    n = scn['n'] = max(scn['n'], 4)
    scn['cells'] = (scn['cells'] + [scn['cells'][-1]] * n)[:n] if scn['cells'] else []
    scn['faults'] = channel.gen_faults(rng, n, 2, maxlen=9000)
    scn['clock'] = []
    scn['nmea'] = []
    scn['unk'] = []
    if rng.flip(.25):
        for _ in range(rng.randrange(1, 4)):
            scn['clock'].append([rng.randrange(n), rng.pick(
                [[0, 0, 0, 0, 0, 0, 0], [21, 13, 1, 0, 0, 0, 0], [21, 2, 30, 1, 1, 1, 1],
                 [21, 5, 5, 25, 0, 0, 0], [21, 5, 5, 5, 61, 0, 0], [255] * 7])])
    if scn['cfg']['src_prog'] == 'wr2' and rng.flip(.5):
        for _ in range(rng.randrange(1, 4)):
            scn['nmea'].append([rng.randrange(1, n), rng.randrange(4)])
    if rng.flip(.15):
        for _ in range(rng.randrange(1, 3)):
            scn['unk'].append([rng.randrange(n), rng.randrange(2 ** 31)])
    scn['tail'] = rng.weighted([(0, 6), (rng.randrange(1, 4000), 2)])
    return scn


def record(scn):
    cfg = scn['cfg']
    clk = {c[0]: c[1] for c in scn['clock'] if len(c) == 2 and len(c[1]) == 7}
    nm = {c[0]: c[1] for c in scn['nmea'] if len(c) == 2}
    out = []
    for i in range(scn['n']):
        nc = scn['cells'][i] if i < len(scn['cells']) else None
        if nc is not None and nc < max(1, cfg['sl']):
            nc = max(1, cfg['sl'])
        e = R.build(cfg, i, scn['dseed'], n_cells=nc, clock=clk.get(i), bad_nmea=nm.get(i),
                    unknown=[u[1] for u in scn['unk'] if u[0] == i])
        out.append(e)
    return out


def execute(scn, st, d):
    import dolfyn
    cfg = scn['cfg']
    if not cfg['n_cells'] or scn['n'] < 3:
        return
    ens = record(scn)
    segs = channel.apply([(e.b, e) for e in ens], scn['faults'], st,
                         lambda e: 0 if e is None else e.hdr_len, first=2)
    if scn['tail']:
        segs.append(channel.Seg(bytes(scn['tail']), None, False, False))
        st.fault('zero_filled_tail')
    blob = b''.join(s.b for s in segs)
    st.simtime += len(ens) * cfg['dt_ms'] / 1000.
    p = d + '/rec.' + {'vmdas': 'ENR', 'wr2': 'PD0'}.get(cfg['src_prog'], '000')
    with open(p, 'wb') as f:
        f.write(blob)
    required = []        # (segment index, ensemble)
    for i, s in enumerate(segs):
        if s.ok and s.rec is not None and not s.rec.nmea_bad and \
                i + 1 < len(segs) and segs[i + 1].head_ok and segs[i + 1].b:
            required.append((i, s.rec))
    for c in scn['clock']:
        st.fault('invalid_clock')
    for c in scn['nmea']:
        if any(e.nmea_bad and e.idx == c[0] for e in ens):
            st.fault('garbled_nmea')
    for u in scn['unk']:
        st.fault('unknown_block')
    r, ds = call(dolfyn.read, p)
    st.event(len(blob), r, exc_str(ds) if r == 'exc' else int(ds.time.size))
    if r == 'exc':
        violated('read_failed', '%d undamaged ensembles in the file (%d in all), the read failed: %s' % (
            len(required), len(ens), exc_str(ds)))
    st.nontrivial = bool(required) and bool(st.faults)
    names = O.var_names(ens)
    skip = set()
    if any(f['k'] == 'ovw' for f in scn['faults']):
        skip |= O.SL
    k = int(ds.time.size)
    broken = {c[0] for c in scn['clock']}
    num = O.numbers(ds)
    must = {id(segs[i]) for i, _ in required}
    pieces = [('must' if id(s) in must else
               'may' if s.ok and s.rec is not None and not s.rec.nmea_bad else 'bad', s.rec)
              for s in segs]

    def diff(q, e):
        sk = skip | {'dist_nmea'} if e.idx in broken else skip
        return O.row_matches(ds, q, e, names, sk)
    bad = align(pieces, k, lambda q, e: num[q] == e.v['number'] and diff(q, e) is None)
    if bad and bad[0] == 'lost':
        e = pieces[bad[1]][1]
        for q in bad[2]:
            if q < k and num[q] == e.v['number']:
                violated('damaged_neighbour', 'undamaged ensemble %d is returned (time step %d) with a wrong value: %s' % (
                    e.idx, q, diff(q, e)))
        violated('lost', 'undamaged ensemble %d (number %d) is not returned; %d time steps, candidates at %s' % (
            e.idx, e.v['number'], k, bad[2][:5]))
    if bad:
        violated('extra', '%d time steps returned, the recorded stream accounts for %d' % (k, bad[1]))
    if all(p[0] != 'bad' for p in pieces) and k:
        O.check_settings(ds, cfg, max(e.n_cells for _, e in required) if required else 0)
    O.check_gps(ds, [e for _, e in required], 
                skip=(broken if cfg['src_prog'] == 'wr2' else set()) |
                {s.rec.idx for s in segs if not s.ok and s.rec is not None})
    st.state(tuple(sorted({f['k'] for f in scn['faults']})), R.kind(cfg), cfg['src_prog'],
             min(len(required), 3), k - len(required))
    st.probe('undamaged_checked', len(required))
    if k > len(required):
        st.probe('damaged_ensemble_returned')

