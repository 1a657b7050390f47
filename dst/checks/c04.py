"""C04: classic Nortek recordings, damage stays where it is."""
import numpy as np

from .. import channel
from .. import nk_enc as N
from .. import nk_oracle as O
from ..align import align
from ..compare import dataset_diff
from ..core import call, exc_str, violated
from . import c03

ID = 'C04'
RUNS = {'quick': 1300, 'thorough': 60000}
RULE = ('a run = one simulated Vector, AWAC or Vectrino deployment whose byte stream passes a '
        'link/storage simulator that loses, duplicates, overwrites, inserts or reorders at drawn '
        'positions, then is read back plainly and with checksum verification; non-trivial = a fault '
        'changed the stream and an undamaged sample was checked, or an undamaged file was read both '
        'ways; distinct = distinct scenario')
STATES = 'distinct (instrument, fault kinds, IMU, plain outcome, verified outcome) tuples'
REAL = c03.REAL
STUB = ['the instrument (independent encoder)', 'the link / storage medium (fault injector)']
KEEP = c03.KEEP
ASSUME = ['the configuration headers (and the Vectrino start event) are undamaged',
          'no damaged stretch happens to contain a block with a correct checksum']
SYNC = {'VEC': b'\xa5\x10', 'WPR': b'\xa5\x20', 'VNO': b'\xa5\x51'}


def generate(rng, tier, i):
    scn = c03.generate(rng, tier, i)
    scn['cut'] = None
    scn['n'] = max(scn['n'], 4)
    scn['tail'] = 0
    c = scn['cfg']
    per = 1 + bool(c['imu']) + 1. / c.get('rate', 1e9)
    nrec = int(scn['n'] * per)
    first = 3 + (c['inst'] == 'VNO')
    scn['faults'] = [] if rng.flip(.1) else \
        channel.gen_faults(rng, nrec, first, maxlen=3000)
    if rng.flip(.3) and c['inst'] == 'VEC':
        # clustered damage
        e = rng.randrange(first, max(first + 1, nrec))
        for _ in range(rng.randrange(1, 5)):
            f = channel.gen_faults(rng, nrec, first, maxlen=1600)[0]
            f['e'] = min(e + rng.randrange(0, 4), nrec)
            scn['faults'].append(f)
    scn['tail'] = rng.weighted([(0, 6), (rng.randrange(1, 3000), 2)])
    return scn


def accidental(blob, c, known):
    """Does the stream contain a block with a correct checksum that was never
    recorded (a one in 65536 chance per look-alike)?"""
    fixed = {('VEC', 0x10): 24, ('VNO', 0x51): 22}
    p = blob.find(b'\xa5')
    while p >= 0 and p + 6 <= len(blob):
        n = fixed.get((c['inst'], blob[p + 1]), 2 * (blob[p + 2] | blob[p + 3] << 8))
        if 6 <= n <= len(blob) - p and n < 20000:
            b = blob[p:p + n]
            if b not in known and N.cksum(b[:-2]) == b[-2] | b[-1] << 8:
                return True
        p = blob.find(b'\xa5', p + 1)
    return False


def execute(scn, st, d):
    import dolfyn
    c = scn['cfg']
    if not c03.legal(scn):
        return
    recs = N.deployment(c, scn['n'], scn['dseed'])
    first = 3 + (c['inst'] == 'VNO')
    segs = channel.apply([(r.b, r) for r in recs], scn['faults'], st, lambda r: 4 if r else 0,
                         sync=SYNC[c['inst']], first=first)
    if scn['tail']:
        segs.append(channel.Seg(bytes(scn['tail']), None, False, False))
        st.fault('zero_filled_tail')
    damaged = any(not s.ok for s in segs)
    blob = b''.join(s.b for s in segs)
    st.simtime += scn['n'] / N.fs(c)
    p = d + '/rec.' + c03.ext(c)
    with open(p, 'wb') as f:
        f.write(blob)
    if accidental(blob, c, {r.b for r in recs}):
        st.probe('accidental_checksum_run_not_judged')
        return
    # the last sample whose IMU record certainly is its own
    last = len(segs)
    imu_of = {}
    if c['imu']:
        last = -1
        for i in range(len(segs) - 1):
            a, b = segs[i], segs[i + 1]
            if a.ok and b.ok and a.rec.kind == 'sample' and b.rec.kind == 'imu':
                last = i
                if a.rec.idx == b.rec.idx:
                    imu_of[i] = b.rec
        if not any(s.rec is not None and s.rec.kind == 'imu' for s in segs):
            last = len(segs)
    # lost trailing bytes that equal the first ones of the next record: the
    # two records overlap, either reading of the stream is right
    overlap = set()
    for i in range(len(segs) - 1):
        s = segs[i]
        if not s.ok and s.rec is not None and len(s.b) < len(s.rec.b) and \
                (s.b + segs[i + 1].b)[:len(s.rec.b)] == s.rec.b:
            overlap.add(i + 1)
    pieces, where = [], []
    for i, s in enumerate(segs):
        if not s.ok:
            pieces.append(('bad', None))
        elif s.rec.kind == 'sample':
            pieces.append(('must' if i <= last and i not in overlap else 'may', s.rec))
        else:
            continue
        where.append(i)
    need = sum(q[0] == 'must' for q in pieces)
    st.event('file', len(blob), len(pieces), need)

    def whole(w):
        # copies of the record that survived inside the damaged piece
        s = segs[w]
        data = s.b + (segs[w + 1].b[:8] if w + 1 < len(segs) else b'')
        return [('may', s.rec)] * (data.count(s.rec.b) if s.rec is not None and s.rec.kind == 'sample' else 0)
    strict = []
    for q, w in zip(pieces, where):
        strict += whole(w) if q[0] == 'bad' else [q]

    def check(ds, what, slack, pieces=pieces):
        k = int(ds.time.size)

        def diff(q, e):
            return O.sample_diff(ds, c, q, e)
        bad = align(pieces, k, lambda q, e: diff(q, e) is None, slack)
        if bad and bad[0] == 'lost':
            e = pieces[bad[1]][1]
            violated('lost', '%s: undamaged sample %d is not returned where it belongs; %d samples '
                     'returned; at %s: %s' % (what, e.idx, k, bad[2][:4],
                                              [diff(q, e) for q in bad[2][:2] if q < k]))
        if bad:
            violated('extra', '%s: %d samples returned, the recorded stream accounts for %d' % (what, k, bad[1]))
        return k

    r, ds = call(dolfyn.read, p)
    st.event(r, exc_str(ds) if r == 'exc' else int(ds.time.size))
    if r == 'exc':
        if need:
            violated('read_failed', '%d undamaged samples in the file, the read failed: %s' % (need, exc_str(ds)))
    else:
        k = check(ds, 'plain read', 3)
        if k:
            cc = dict(c, imu=c['imu'] if 'accel' in ds else 0)
            if imu_of and 'accel' not in ds:
                violated('lost', 'no IMU data returned, %d samples have intact IMU records' % len(imu_of))
            O.check_settings(ds, cc)
        # IMU data: every sample with its own intact IMU record right behind it
        if imu_of and not any(f['k'] in ('rep', 'swap') for f in scn['faults']):
            rows = {}
            for q in range(k):
                rows.setdefault(ds['vel'].values[:, q].tobytes(), []).append(q)
            for w, b in imu_of.items():
                s = segs[w].rec
                hit = [q for q in range(k) if O.sample_diff(ds, c, q, s) is None] if k < 80 else \
                    [q for q in rows.get(s.v['vel'].astype('float32').tobytes(), [])]
                if len(hit) == 1:
                    dd = O.sample_diff(ds, c, hit[0], s, b)
                    if dd:
                        violated('imu_value', 'sample %d: %s' % (s.idx, dd))
                    st.probe('imu_checked')
            for w in range(len(segs) - 1):
                a, b = segs[w], segs[w + 1]
                if not (a.ok and b.ok and a.rec.kind == b.rec.kind == 'sample'):
                    continue
                hit = rows.get(a.rec.v['vel'].astype('float32').tobytes(), [])
                if len(hit) == 1 and 'accel' in ds and not np.isnan(ds['accel'].values[:, hit[0]]).all():
                    violated('imu_value', 'the IMU record of sample %d was lost, yet it has accel %s' % (
                        a.rec.idx, ds['accel'].values[:, hit[0]]))
    st.probe('undamaged_checked', need)
    st.nontrivial = bool(st.faults) and need > 0
    r2, ds2 = call(dolfyn.read, p, do_checksum=True)
    st.event(r2, exc_str(ds2) if r2 == 'exc' else int(ds2.time.size))
    if not damaged:
        if r2 != r:
            violated('checksum', 'undamaged file: plain read %s, with checksum verification %s' % (
                r, exc_str(ds2) if r2 == 'exc' else r2))
        if r == 'ok':
            df = dataset_diff(ds, ds2)
            if df:
                violated('checksum', 'undamaged file reads differently with checksum verification: ' + df)
        st.probe('undamaged_file_verified')
        st.nontrivial = need > 0
    elif r2 == 'ok':
        check(ds2, 'verified read', 0, strict)
        st.probe('verified_read_returned')
    else:
        st.probe('verified_read_raised')
    st.state(c['inst'], tuple(sorted({f['k'] for f in scn['faults']})), c['imu'], r, r2)
