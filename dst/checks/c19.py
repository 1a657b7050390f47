"""C19: faults of the instrument's clock."""
import datetime as _dt

import numpy as np

from .. import nk_enc as N
from .. import nk_oracle as NO
from .. import rdi_enc as R
from .. import rdi_oracle as RO
from .. import recordings as W
from .. import sg_enc as S
from .. import sg_oracle as SO
from ..compare import short, time_s
from ..core import call, exc_str, legal_candidates, violated
from . import c03, c05

ID = 'C19'
RUNS = {'quick': 1200, 'thorough': 40000}
RULE = ('a run = one simulated recording of an instrument whose clock fails in drawn ways (impossible dates, zeros, single '
        'wrong bits, stopped, jumps backwards and forwards, resets to a fixed date, fast or slow) while it records, read by '
        'the real reader and compared with the same recording made with a right clock and with what the clock said for every '
        'record; non-trivial = at least one record was written with a wrong clock; distinct = distinct scenario')
STATES = 'distinct (instrument, kinds of clock faults, first/last record affected, share of impossible readings) tuples'
REAL = ['dolfyn.read and the readers', 'dolfyn.time']
STUB = ['the instruments (independent encoders)', "the instruments' clocks (simulated, with faults)"]
KEEP = W.KEEP
ASSUME = ['a clock that is all zero (or says 1970-01-01 00:00:00) is one that was never set: its time may be reported missing',
          'two-digit years of TRDI are 2000 to 2099, of classic Nortek 1990 to 2089',
          'samples of a Vector get their times from one line through the clock readings of their burst: a wrong but possible '
          'reading may move the times of that burst, not those of others',
          'position fixes of TRDI recordings that have no time or the time of another fix are left out']
BASE = _dt.datetime(1970, 1, 1)


def gen_fault(rng, n):
    k = rng.weighted([('impossible', 5), ('zero', 2), ('ones', 1), ('bit', 3), ('stop', 2), ('jump', 4), ('reset', 2),
                      ('rate', 1)])
    a = rng.weighted([(0, 3), (rng.randrange(n), 6), (n - 1, 2)])
    ln = rng.weighted([(1, 5), (rng.randrange(1, 5), 3), (n, 2)])
    if k == 'jump':
        v = rng.pick([-1, 1]) * rng.pick([1, 2, 3600, 86400, 400 * 86400])
    elif k == 'reset':
        v = rng.randrange(3)
    elif k == 'rate':
        v = rng.pick([2, 3, 50])
    else:
        v = rng.randrange(2 ** 16)
    return [k, a, ln, v]


def generate(rng, tier, i):
    s = {'rec': W.gen(rng, tier, maxn=rng.pick([2, 3, 6, 40]), cut=0, skip=False)}
    n = s['rec']['n']
    s['faults'] = [gen_fault(rng, n) for _ in range(rng.randrange(1, 4))]
    s['cent'] = rng.weighted([([], 6), ([rng.randrange(n), rng.pick([0, 1, 16, 18, 20, 21, 25, 84, 148, 255])], 2)])
    s['nav'] = [[rng.randrange(n), rng.randrange(6), rng.pick([0, 13, 32, 99, 255])] for _ in range(rng.weighted([(0, 3), (1, 3), (3, 1)]))]
    s['start'] = [[rng.randrange(4), rng.randrange(2 ** 16)] for _ in range(rng.weighted([(0, 3), (1, 2), (2, 1)]))]
    s['dual'] = int(rng.flip(.3))
    s['ids'] = rng.weighted([(0, 4), (rng.randrange(1, 64), 2)])
    return s


def legal(s):
    return W.legal(s['rec']) and not s['rec']['cut'] and s['rec']['n'] >= 1 and all(len(f) == 4 for f in s['faults']) \
        and len(s['cent']) in (0, 2) and all(len(q) == 3 for q in s['nav']) and all(len(q) == 2 for q in s['start'])


def candidates(scn):
    return legal_candidates(scn, KEEP, legal)


RESETS = [_dt.datetime(2000, 1, 1), _dt.datetime(2010, 1, 1, 0, 0, 0), _dt.datetime(2001, 12, 31, 23, 59, 58)]
NASTY = [(200, 'y'), (100, 'y'), (0, 'mo'), (13, 'mo'), (15, 'mo'), (0, 'd'), (32, 'd'), (24, 'h'), (60, 'mi'), (60, 's'), (99, 's'), (31, 'feb')]


def reading(fam, t, faults, k, t0, st):
    """What the clock says at the k-th reading, at the (right) time t: None when it
    is right, else [year, month, day, hour, minute, second, fraction/1e-6] and
    ('field', value) marks that are not a date."""
    kinds = []
    x = t
    field = None
    for kd, a, ln, v in faults:
        if not a <= k < a + ln:
            continue
        kinds.append(kd)
        if kd == 'stop':
            x = t0(a)
        elif kd == 'jump':
            x = x + _dt.timedelta(seconds=v)
        elif kd == 'reset':
            x = RESETS[v % 3] + (x - t0(a))
        elif kd == 'rate':
            x = t0(a) + (x - t0(a)) * v
        else:
            field = (kd, v)
    return kinds, x, field


def fields(fam, x):
    if fam == 'rdi':
        return [x.year % 100, x.month, x.day, x.hour, x.minute, x.second, x.microsecond // 10000]
    if fam == 'nk':
        return [N.bcd(q) for q in (x.minute, x.second, x.day, x.hour, x.year % 100, x.month)]
    return [x.year - 1900, x.month - 1, x.day, x.hour, x.minute, x.second, x.microsecond // 100]


POS = {'rdi': dict(y=0, mo=1, d=2, h=3, mi=4, s=5), 'nk': dict(mi=0, s=1, d=2, h=3, y=4, mo=5),
       'sg': dict(y=0, mo=1, d=2, h=3, mi=4, s=5)}


def spoil(fam, b, field):
    kd, v = field
    b = list(b)
    p = POS[fam]
    if kd == 'zero':
        return [0] * len(b)
    if kd == 'ones':
        return [255] * 6 + [65535 if fam == 'sg' else 255] * (len(b) - 6)
    if kd == 'bit':
        q = v % (8 * 6)
        b[q // 8] ^= 1 << q % 8
        return b
    val, f = NASTY[v % len(NASTY)]
    enc = N.bcd if fam == 'nk' else int
    if f == 'y':
        if fam != 'sg':
            b[p['y']] = val if fam == 'rdi' else 0x9a + val % 50
    elif f == 'feb':
        b[p['mo']] = enc(2 - (fam == 'sg'))
        b[p['d']] = enc(val)
    elif f == 'mo':
        b[p['mo']] = enc(val) if fam != 'sg' else (val - 1) % 256
    else:
        b[p[f]] = enc(val)
    return b


def says(fam, b, cent=20):
    """Epoch seconds the clock bytes mean, or None when they are no date."""
    if not any(b) or fam == 'sg' and not any(b[1:]):
        return None
    if fam == 'nk':
        return N.clock_valid(b)
    try:
        if fam == 'rdi':
            if b[0] > 99:
                return None
            if not 19 <= (cent or 20) <= 21:
                return None
            x = _dt.datetime((cent or 20) * 100 + b[0], b[1], b[2], b[3], b[4], b[5], b[6] * 10000)
        else:
            x = _dt.datetime(1900 + b[0], b[1] + 1, b[2], b[3], b[4], b[5], b[6] * 100)
    except ValueError:
        return None
    return (x - BASE) / _dt.timedelta(seconds=1)


class Clock(object):
    """The readings of a faulty clock, in the order they are taken."""

    def __init__(self, fam, faults, st):
        self.fam, self.faults, self.st = fam, faults, st
        self.right = {}
        self.wrong = 0
        self.kinds = set()

    def __call__(self, k, t):
        """bytes of the k-th reading when the clock is wrong, else None"""
        self.right[k] = t
        kinds, x, field = reading(self.fam, t, self.faults, k, lambda a: self.right.get(a, t), self.st)
        if not kinds:
            return None
        lo, hi = (2000, 2089) if self.fam != 'sg' else (1970, 2100)
        if not lo <= x.year <= hi:
            return None
        b = fields(self.fam, x)
        if field:
            b = spoil(self.fam, b, field)
        if b == fields(self.fam, t):
            return None
        for q in kinds:
            self.st.fault('clock_' + q)
        self.kinds |= set(kinds)
        self.wrong += 1
        return b


def dt_of(sec):
    return BASE + _dt.timedelta(microseconds=int(round(sec * 1e6)))


def other(a, b, skip=()):
    """First difference that is not a time."""
    va = {v for v in a.variables if 'time' not in v}
    vb = {v for v in b.variables if 'time' not in v}
    if va != vb:
        return 'variables differ: %s only with a right clock, %s only with a wrong one' % (sorted(va - vb), sorted(vb - va))
    if dict(a.sizes) != dict(b.sizes):
        return 'sizes %s with a right clock, %s with a wrong one' % (dict(a.sizes), dict(b.sizes))
    for v in sorted(va - set(skip)):
        x, y = a[v].values, b[v].values
        if x.dtype != y.dtype or a[v].dims != b[v].dims or \
                not np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc'):
            i = np.nonzero(np.ravel(~((x == y) | ((x != x) & (y != y)))))[0][:3] if x.shape == y.shape else []
            return '%s: %s with a right clock, %s with a wrong one (at %s)' % (v, short(np.ravel(x)[i]), short(np.ravel(y)[i]), list(i))
    for k in sorted(set(a.attrs) | set(b.attrs)):
        if k not in a.attrs or k not in b.attrs:
            return 'attribute %r is there only with a %s clock' % (k, 'right' if k in a.attrs else 'wrong')
        if k in skip:
            continue
        if repr(a.attrs[k]) != repr(b.attrs[k]):
            return 'attribute %r is %s with a right clock, %s with a wrong one' % (
                k, repr(a.attrs[k])[:200], repr(b.attrs[k])[:200])
    return None


def check_times(got, said, step, what, tol=2e-4):
    """got: times returned; said: what the clock said (None: no date)"""
    t = time_s(got)
    if t.size != len(said):
        violated('count', '%s: %d times, %d records' % (what, t.size, len(said)))
    good = [i for i, e in enumerate(said) if e is not None]
    for i, e in enumerate(said):
        if e is not None:
            if not abs(t[i] - e) < tol and not (e == 0 and np.isnan(t[i])):
                violated('time', '%s: record %d of %d has time %r, its clock said %r' % (what, i, t.size, t[i], e))
            continue
        if np.isnan(t[i]):
            continue
        lo = [q for q in good if q < i]
        hi = [q for q in good if q > i]
        if lo and hi:
            x, y = sorted((said[lo[-1]], said[hi[0]]))
        elif lo:
            x = said[lo[-1]]
            y = x + 1.5 * step * (i - lo[-1])
        elif hi:
            y = said[hi[0]]
            x = y - 1.5 * step * (hi[0] - i)
        else:
            violated('invented_time', '%s: record %d has time %r, no clock reading was a date' % (what, i, t[i]))
        if not x - tol <= t[i] <= y + tol:
            violated('invented_time', '%s: record %d, whose clock said no date, has time %r, its neighbours %r and %r' % (
                what, i, t[i], x, y))
        # (not the time of another record)
        n = (hi[0] if hi else i + 1) - (lo[-1] if lo else i - 1)
        if y - x > n * 1e-5 and not x + 1e-6 < t[i] < y - 1e-6:
            violated('repeated_time', '%s: record %d, whose clock said no date, has time %r, that of a neighbour (%r and %r)' % (
                what, i, t[i], x, y))


def run_rdi(scn, st, clk, read):
    s = scn['rec']
    c = s['cfg']

    pv = R.prog_ver(c)
    has_cent = pv >= 5.55 if R.kind(c) == 'bb' else R.kind(c) != 'os' and pv >= 16.05

    def make(faulty):
        out = []
        for i in range(s['n']):
            nc = s['cells'][i] if i < len(s['cells']) else None
            if nc is not None and nc < max(1, c['sl']):
                nc = max(1, c['sl'])
            drop = tuple(m[0] for m in s['miss'] if m[1] <= i < m[2])
            t = R.EPOCH + _dt.timedelta(milliseconds=c['t0'] * 1000 + c['dt_ms'] * i)
            b = clk(i, t) if faulty else None
            x, nav = None, None
            if faulty and has_cent and scn['cent'] and scn['cent'][0] == i:
                x = scn['cent'][1]
                if x != 20:
                    st.fault('clock_century')
                    clk.wrong += 1
                    clk.kinds.add('century')
            if faulty and c['src_prog'] == 'vmdas':
                for q, k, v in scn['nav']:
                    if q == i:
                        nav = nav or [None] * 6
                        nav[k] = v
                        st.fault('navigation_clock')
                        clk.wrong += 1
                        clk.kinds.add('nav')
            e = R.build(c, i, s['dseed'], n_cells=nc, drop=drop, clock=b, cent=x, nav=nav)
            if b is None:
                b = [t.year % 100, t.month, t.day, t.hour, t.minute, t.second, t.microsecond // 10000]
            e.v['_said'] = e.v['time'] = says('rdi', b, 20 if x is None else x)
            e.v['_day'] = None if not any(b) else says('rdi', list(b[:3]) + [0] * 4, 20 if x is None else x)
            if nav is not None and 'time_gps' in e.v:
                g = [q if q is not None else w for q, w in zip(nav, dt_of(e.v['time_gps']).timetuple()[2::-1])]
                try:
                    e.v['time_gps'] = e.v['time_gps'] % 86400 + (_dt.datetime(g[2], g[1], g[0]) - BASE).total_seconds()
                    if not 1680 < g[2] < 2260:
                        e.v['time_gps'] = None
                except ValueError:
                    e.v['time_gps'] = None
            out.append(e)
        return out
    good, bad = make(False), make(True)
    ext = {'vmdas': 'ENR', 'wr2': 'PD0'}.get(c['src_prog'], '000')
    a, b = read(good, ext), read(bad, ext)
    if a is None:
        return
    k = int(a.time.size)
    if int(b.time.size) != k:
        violated('count', '%d time steps with a right clock, %d with a wrong one' % (k, int(b.time.size)))
    gps = [v for v in a.variables if 'gps' in v]
    df = other(a.drop_vars(gps), b.drop_vars([v for v in b.variables if 'gps' in v]), skip=())
    if df:
        violated('data', df)
    said = [e.v['_said'] for e in bad[:k]]
    check_times(b.time.values, said, c['dt_ms'] / 1000., 'time', tol=2e-3)
    # position fixes
    if not gps or not k:
        return
    rows = []
    for e, g in zip(bad[:k], good):
        if e.v.get('time_gps') is None:
            continue
        if c['src_prog'] == 'wr2':
            # the time of day comes with the sentence, the day from the clock
            day = e.v['_day']
            if day is None:
                e.v['time_gps'] = None
                continue
            day = day // 86400 * 86400
            e.v['time_gps'] = day + g.v['time_gps'] % 86400
        if any(abs(q.v['time_gps'] - e.v['time_gps']) < 2e-3 for q in rows):
            st.probe('fix_of_same_time_left_out')
            continue
        rows.append(e)
    if 'time_gps' in b.coords:
        tg = time_s(b.time_gps.values)
        if tg.size != len(rows):
            violated('gps', '%d position fixes returned, %d with a time of their own were recorded' % (tg.size, len(rows)))
        RO.check_gps(b, rows)
    elif rows:
        violated('gps', 'no position fixes returned, %d were recorded' % len(rows))


def run_nk(scn, st, clk, read):
    s = scn['rec']
    c = s['cfg']
    good = N.deployment(c, s['n'], s['dseed'])
    stamped = [r for r in good if r.kind == ('sample' if c['inst'] == 'WPR' else 'sys')]
    clocks = {}
    for i, r in enumerate(stamped):
        b = clk(i, dt_of(r.v['time']))
        if b is not None:
            clocks[i] = b
    for i, v in scn['start']:
        kd = ('impossible', 'zero', 'ones', 'bit')[i]
        key = ('vno', 0) if c['inst'] == 'VNO' else ('hdr', (v % 3) * (c['nburst'] or 0))
        if c['inst'] != 'WPR':
            clocks[key] = spoil('nk', fields('nk', dt_of(c['t0'])), (kd, v))
            st.fault('clock_of_header')
            clk.wrong += 1
            clk.kinds.add('header')
    bad = N.deployment(c, s['n'], s['dseed'], clocks)
    ext = c03.ext(c)
    a, b = read(good, ext), read(bad, ext)
    if a is None:
        return
    k = int(a.time.size)
    if int(b.time.size) != k:
        violated('count', '%d samples with a right clock, %d with a wrong one' % (k, int(b.time.size)))
    interp = [v for v in NO.INTERP + ('orientmat',) if c['inst'] == 'VEC']
    df = other(a, b, skip=interp)
    if df:
        violated('data', df)
    if c['inst'] == 'VNO':
        q = clocks.get(('vno', 0))
        t0 = c['t0'] if q is None else N.clock_valid(q) if any(q) else None
        check_times(b.time.values, [None if t0 is None else r.v['time'] - c['t0'] + t0 for r in good if r.kind == 'sample'][:k],
                    1 / N.fs(c), 'time', NO.TOL)
        return
    if c['inst'] == 'WPR':
        said = [r.v['time'] for r in bad if r.kind == 'sample'][:k]
        said = [None if e is not None and b and not any(b) else e for e, b in zip(said, [clocks.get(i) for i in range(k)])]
        check_times(b.time.values, said, c['avg'], 'time', tol=2e-3)
        return
    sysr = [r for r in bad if r.kind == 'sys']
    NO.check_sys(b, sysr, k)
    imus = {r.idx: r for r in good if r.kind == 'imu'}
    for i, r in enumerate([q for q in good if q.kind == 'sample'][:k]):
        df = NO.sample_diff(b, c, i, r, imus.get(i), time=False)
        if df:
            violated('data', 'sample %d of %d: %s' % (i, k, df))
    if sysr and not ({i: r for i, r in imus.items() if 'orientmat' in r.v}):
        at = [r.idx for r in sysr if r.idx < k]
        x, y = a['orientmat'].values[..., at], b['orientmat'].values[..., at]
        if not np.allclose(x, y, atol=1e-4, equal_nan=True):
            violated('data', 'orientmat at the system records differs: %s with a right clock, %s with a wrong one' % (
                short(x), short(y)))
    # times: bursts whose readings agree are exact, each on its own
    nb = c['nburst'] or 10 ** 9
    t = time_s(b.time.values)
    samples = [r for r in good if r.kind == 'sample'][:k]
    right = {r.idx: r.v['time'] for r in good if r.kind == 'sys'}
    for j in range(0, k, nb):
        rd = [r for r in sysr if j <= r.idx < min(j + nb, k)]
        ok = [r for r in rd if r.v['time'] is not None]
        if not ok:
            st.probe('burst_without_any_time')
            continue
        off = {r.v['time'] - right[r.idx] for r in ok}
        if len(off) > 1:
            st.probe('burst_with_readings_that_disagree')
            if np.isnan(t[j:j + nb]).any():
                violated('time', 'samples of the burst at %d have no time, its readings say %s' % (j, [r.v['time'] for r in rd]))
            continue
        off = off.pop()
        st.probe('burst_on_a_line')
        for i in range(j, min(j + nb, k)):
            e = samples[i].v['_t'] + off
            if not abs(t[i] - e) < NO.TOL:
                violated('time', 'sample %d (burst of %d at %d) has time %r, the readings of its burst say %r' % (
                    i, min(nb, k), j, t[i], e))


def run_sg(scn, st, clk, read):
    s = scn['rec']
    c = s['cfg']
    good = S.deployment(c, s['n'], s['dseed'], s['skip'])
    # which of the streams the faults hit (each record reads the clock itself)
    ids = sorted({r.id for r in good if r.v is not None})
    hit = [i for q, i in enumerate(ids) if not scn['ids'] or scn['ids'] >> q & 1] or ids
    clocks = {}
    count = {}
    for r in good:
        if r.v is None or r.id not in hit:
            continue
        q = count.get(r.id, 0)
        count[r.id] = q + 1
        b = clk(q, dt_of(r.v['time']))
        if b is not None:
            b = [min(x, 255) for x in b[:6]] + [min(b[6], 65535)]
            clocks[(r.id, r.k)] = b
    bad = S.deployment(c, s['n'], s['dseed'], s['skip'], clocks)
    for r in bad:
        if r.v is not None:
            q = clocks.get((r.id, r.k))
            if q is not None:
                r.v['time'] = says('sg', q)
    ga, gb = read(good, 'ad2cp'), read(bad, 'ad2cp')
    if ga is None:
        return
    ga = ga if isinstance(ga, tuple) else (ga,)
    gb = gb if isinstance(gb, tuple) else (gb,)
    if len(ga) != len(gb):
        violated('count', '%d datasets with a right clock, %d with a wrong one' % (len(ga), len(gb)))
    ens = c05.ensembles(bad)
    dual = len(ga) == 2
    for q, (a, b) in enumerate(zip(ga, gb)):
        tn = 'time' if q == 0 else 'time_avg'
        k = int(a[tn].size)
        if int(b[tn].size) != k:
            violated('count', '%d ensembles with a right clock, %d with a wrong one' % (k, int(b[tn].size)))
        df = other(a, b)
        if df:
            violated('data', df)
        rr = [e for e in ens if e and (not dual or (22 in e) == (q == 1))][:k]
        have = set().union(*rr) if rr else set()
        for id in sorted(have):
            if id == 26:
                nm = 'time_altraw'
                said = [e[26].v['time'] for e in rr if 26 in e]
            else:
                nm = 'time' + S.TAG[id]
                if nm not in b.coords:
                    nm = 'time'
                said = [e[id].v['time'] if id in e else None for e in rr]
            step = c['avgint'] if dual and q == 1 else S.dt(c)
            if c['nburst']:
                step = step + 31
            check_times(b[nm].values, said, step, nm)


def execute(scn, st, d):
    import dolfyn
    if not legal(scn):
        return
    fam = scn['rec']['fam']
    clk = Clock(fam, scn['faults'], st)
    res = []

    def read(recs, ext):
        p = '%s/rec%d.%s' % (d, len(res), ext)
        with open(p, 'wb') as f:
            f.write(b''.join(r.b for r in recs))
        r, v = call(dolfyn.read, p, **(dict(dual_profile=True) if fam == 'sg' and scn['dual'] else {}))
        res.append(r)
        sz = None if r == 'exc' else [sorted(q.sizes.items()) for q in (v if isinstance(v, tuple) else (v,))]
        st.event(r, exc_str(v) if r == 'exc' else sz)
        if r == 'exc':
            if len(res) == 1:
                return None
            if res[0] != 'exc':
                violated('read_failed', 'the recording reads with a right clock, with a wrong one the read failed: %s' % exc_str(v))
            return None
        return v
    w = W.Recording(scn['rec'])
    st.simtime += 2 * w.seconds()
    {'rdi': run_rdi, 'nk': run_nk, 'sg': run_sg}[fam](scn, st, clk, read)
    st.nontrivial = clk.wrong > 0
    st.state(w.sort(), tuple(sorted(clk.kinds)), min(clk.wrong, 4))
