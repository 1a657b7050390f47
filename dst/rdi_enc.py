"""Simulated Teledyne RDI instrument: writes PD0 ensembles, and the reference
model of what a reader has to return for them.

Written from the PD0 layout, independently of dolfyn's parser: block builders
with explicit byte positions; every physical value is stated once here in
engineering units together with its raw encoding.
"""
import datetime as _dt
import struct
import numpy as np

from .rng import Rng

MODEL_NAME = {5: 'Broadband', 14: 'Ocean Surveyor', 23: 'Ocean Surveyor',
              16: 'Workhorse', 50: 'Workhorse', 51: 'Workhorse',
              10: 'Rio Grande', 34: 'Explorer', 44: 'RiverRay',
              47: 'SentinelV', 28: 'ChannelMaster', 31: 'StreamPro',
              56: 'RiverPro', 6: 'Navigator', 77: 'Workhorse',
              4: 'Broadband', 11: 'H-ADCP', 19: 'Navigator', 37: 'Navigator',
              41: 'DVS', 43: 'Workhorse', 52: 'Workhorse', 53: 'Navigator',
              55: 'DVS', 59: 'Meridian', 61: 'Pinnacle', 66: 'SentinelV',
              67: 'Pathfinder', 73: 'Pioneer', 74: 'Tasman', 76: 'WayFinder',
              78: 'Workhorse'}

FW = [(16, 28), (16, 5), (16, 19), (50, 40), (51, 41), (10, 16), (5, 55),
      (5, 20), (14, 10), (23, 17), (44, 8), (47, 20), (56, 2), (6, 5),
      (31, 12), (34, 1), (28, 30), (77, 0), (16, 30), (56, 12)]
FW_RARE = [4, 11, 19, 37, 41, 43, 52, 53, 55, 59, 61, 66, 67, 73, 74, 76, 78]

DROPS = {'bt': ['dist_bt', 'vel_bt', 'corr_bt', 'amp_bt', 'prcnt_gd_bt'],
         'alt': ['alt_dist', 'alt_rssi', 'alt_eval', 'alt_status'],
         'pg': ['prcnt_gd'], 'amp': ['amp'], 'corr': ['corr'],
         'status': ['status'],
         'gga': ['time_gps', 'latitude_gps', 'longitude_gps', 'fix_gps',
                 'n_sat_gps', 'hdop_gps', 'elevation_gps', 'rtk_age_gps'],
         'vtg': ['speed_over_grnd_gps', 'dir_over_grnd_gps'],
         'dbt': ['dist_nmea'], 'hdt': ['heading_gps']}

EPOCH = _dt.datetime(1970, 1, 1)


def epoch(d):
    return (d - EPOCH).total_seconds()


def gen_cfg(rng, small=False):
    fw = rng.pick(FW)
    if rng.flip(.35):
        fw = (16, 28)
    elif rng.flip(.2):
        fw = (rng.pick(FW_RARE), rng.randrange(1, 60))
    c = {
        'fw': list(fw),
        'freq_i': rng.randrange(7), 'convex': int(rng.flip(.7)),
        'up': int(rng.flip(.5)), 'angle_i': rng.randrange(3),
        'sim': int(rng.flip(.1)), 'beam5': int(rng.flip(.1)),
        'n_cells': rng.weighted([(1, 1), (rng.randrange(2, 9), 6),
                                 (rng.randrange(9, 33), 3)]),
        'ppe': rng.randrange(1, 200), 'cell_cm': rng.randrange(10, 1600),
        'blank_cm': rng.randrange(0, 1500), 'mode': rng.randrange(1, 13),
        'mincorr': rng.randrange(256), 'reps': rng.randrange(1, 30),
        'minpg': rng.randrange(101), 'maxerr': rng.randrange(5001),
        'tpp': [rng.randrange(3), rng.randrange(60), rng.randrange(1, 100)],
        'frame': rng.randrange(4), 'ex_low': rng.randrange(8),
        'misalign': rng.randrange(-17999, 18000),
        'magvar': rng.pick([0, 0, rng.randrange(-17999, 18000)]),
        'src': rng.randrange(128), 'avail': rng.randrange(128),
        'bin1_cm': rng.randrange(50, 5000), 'xmit_cm': rng.randrange(1, 2000),
        'wl': [1, 5], 'fta': rng.randrange(256), 'lag_cm': rng.randrange(500),
        'bw': rng.randrange(2), 'power': rng.randrange(256),
        'serial': rng.randrange(1, 2 ** 31), 'angle_b': rng.pick([20, 25, 30]),
        'num0': rng.pick([1, 1, rng.randrange(1, 60000), 65520]),
        't0': rng.randrange(0, 700_000_000) + 946_684_800,  # 2000..2022
        'dt_ms': rng.pick([50, 250, 500, 1000, 1000, 2000, 60000, 600000]) * 10,
        'has': sorted(set(['vel'] +
                          [b for b, p in (('corr', .9), ('amp', .9), ('pg', .9),
                                          ('status', .2), ('bt', .4),
                                          ('alt', .15), ('xtra', .35))
                           if rng.flip(p)])),
        'src_prog': rng.weighted([('', 6), ('vmdas', 2), ('wr2', 3), ('wr1', 1)]),
        'sl': 0, 'bb': 0, 'vary_cells': 0, 'shuffle': int(rng.flip(.3)),
        'pad': int(rng.flip(.25)), 'gap': int(rng.flip(.1)),
    }
    if fw[0] in (31, 56) and rng.flip(.6):
        c['sl'] = rng.randrange(1, c['n_cells'] + 1)
    if c['src_prog'] == 'vmdas' and rng.flip(.4):
        c['bb'] = rng.randrange(1, 7)
    if c['src_prog'] == 'wr2' and rng.flip(.6):
        c['vary_cells'] = 1
    if c['src_prog'] == 'wr1' and 'bt' not in c['has'] and rng.flip(.8):
        c['has'] = sorted(c['has'] + ['bt'])
    return c


def prog_ver(cfg):
    return cfg['fw'][0] + cfg['fw'][1] / 100.


def kind(cfg):
    n = MODEL_NAME.get(cfg['fw'][0], '?')
    return {'Broadband': 'bb', 'Ocean Surveyor': 'os'}.get(n, 'wh')


def fixed_leader(cfg, n_cells, idn=0):
    pv = prog_ver(cfg)
    s = cfg
    lsb = s['freq_i'] | (8 if s['convex'] else 0) | (128 if s['up'] else 0)
    msb = s['angle_i'] | (16 if s['beam5'] else 0) | 64
    b = struct.pack('<HBBBBBBBB', idn, s['fw'][0], s['fw'][1], lsb, msb,
                    s['sim'], 13, 4, n_cells)
    b += struct.pack('<HHH', s['ppe'], s['cell_cm'], s['blank_cm'])
    b += struct.pack('<BBBBH', s['mode'], s['mincorr'], s['reps'], s['minpg'],
                     s['maxerr'])
    b += bytes(s['tpp']) + bytes([s['frame'] << 3 | s['ex_low']])
    b += struct.pack('<hh', s['misalign'], s['magvar'])
    b += bytes([s['src'], s['avail']])
    b += struct.pack('<HH', s['bin1_cm'], s['xmit_cm'])
    b += bytes(s['wl']) + bytes([s['fta'], 0])
    b += struct.pack('<H', s['lag_cm'])
    assert len(b) == 42
    if pv >= 8.14:
        b += bytes(range(8))
    if pv >= 8.24:
        b += struct.pack('<H', s['bw'])
    if pv >= 16.05:
        b += bytes([s['power']])
    if pv >= 16.27:
        b += struct.pack('<BIB', 0, s['serial'], s['angle_b'])
    return b


def expect_attrs(cfg):
    pv = prog_ver(cfg)
    e = {
        'inst_make': 'TRDI', 'inst_type': 'ADCP', 'prog_ver': pv,
        'inst_model': MODEL_NAME.get(cfg['fw'][0]),
        'freq': [75, 150, 300, 600, 1200, 2400, 38][cfg['freq_i']],
        'beam_pattern': 'convex' if cfg['convex'] else 'concave',
        'orientation': 'up' if cfg['up'] else 'down',
        'n_beams': 4 + cfg['beam5'],
        'pings_per_ensemble': cfg['ppe'],
        'cell_size': cfg['cell_cm'] * .01, 'blank_dist': cfg['blank_cm'] * .01,
        'profiling_mode': cfg['mode'], 'min_corr_threshold': cfg['mincorr'],
        'n_code_reps': cfg['reps'], 'min_prcnt_gd': cfg['minpg'],
        'max_error_vel': cfg['maxerr'] / 1000.,
        'sec_between_ping_groups': cfg['tpp'][0] * 60 + cfg['tpp'][1] +
        cfg['tpp'][2] * .01,
        'coord_sys': ['beam', 'inst', 'ship', 'earth'][cfg['frame']],
        'use_pitchroll': 'yes' if cfg['ex_low'] & 4 else 'no',
        'use_3beam': 'yes' if cfg['ex_low'] & 2 else 'no',
        'bin_mapping': 'yes' if cfg['ex_low'] & 1 else 'no',
        'heading_misalign_deg': cfg['misalign'] * .01,
        'magnetic_var_deg': cfg['magvar'] * .01,
        'sensors_src': format(cfg['src'], '08b'),
        'sensors_avail': format(cfg['avail'], '08b'),
        'bin1_dist_m': cfg['bin1_cm'] * .01,
        'transmit_pulse_m': cfg['xmit_cm'] * .01,
        'false_target_threshold': cfg['fta'],
        'transmit_lag_m': cfg['lag_cm'] * .01,
        'beam_angle': [15, 20, 30][cfg['angle_i']],
        'has_imu': 0,
    }
    if pv >= 8.24:
        e['bandwidth'] = cfg['bw']
    if pv >= 16.05:
        e['power_level'] = cfg['power']
    if pv >= 16.27:
        e['serialnum'] = cfg['serial']
        e['beam_angle'] = cfg['angle_b']
    if cfg['src_prog'] == '':
        e['fs'] = 1. / (e['sec_between_ping_groups'] * cfg['ppe'])
    return e


class Ens(object):
    """One ensemble: bytes + what it says."""
    __slots__ = ('b', 'v', 'n_cells', 'hdr_len', 'idx', 'blocks', 'nmea_bad')


def build(cfg, i, dseed, n_cells=None, clock=None, bad_nmea=None, drop=(),
          unknown=(), cent=None, nav=None):
    """Build ensemble number i (0-based) of the deployment.

    clock: override of the 7 clock bytes (a broken clock)
    cent: override of the century byte
    nav: day, month, year, and year, day, month of the navigation block (VMDAS)
    bad_nmea: index of the NMEA block whose text got mangled
    drop: names of data blocks missing from this ensemble
    """
    r = Rng('rdi', dseed, i)
    pv = prog_ver(cfg)
    kd = kind(cfg)
    nc = cfg['n_cells'] if n_cells is None else n_cells
    v = {}
    ens_no = cfg['num0'] + i
    t = EPOCH + _dt.timedelta(milliseconds=cfg['t0'] * 1000 + cfg['dt_ms'] * i)
    cb = [t.year % 100, t.month, t.day, t.hour, t.minute, t.second,
          t.microsecond // 10000]
    cent = t.year // 100 if cent is None else cent
    if clock is not None:
        cb = list(clock)
        v['time'] = None
    else:
        v['time'] = epoch(t)
    v['number'] = ens_no
    blocks = [('fixed', fixed_leader(cfg, nc))]
    # --- variable leader
    raw = dict(bit=r.pick([0, 0, 0, r.randrange(1, 65536)]),
               c=r.randrange(1400, 1600), depth=r.randrange(0, 10000),
               heading=r.randrange(36000), pitch=r.randrange(-2000, 2001),
               roll=r.randrange(-2000, 2001), sal=r.randrange(41),
               temp=r.randrange(-500, 4001),
               mpt=[r.randrange(60), r.randrange(60), r.randrange(100)],
               hs=r.randrange(181), ps=r.randrange(201), rs=r.randrange(201))
    b = struct.pack('<HH', 128, ens_no % 65536) + bytes(cb)
    b += bytes([ens_no // 65536])
    b += struct.pack('<HHHHhhHh', raw['bit'], raw['c'], raw['depth'],
                     raw['heading'], raw['pitch'], raw['roll'], raw['sal'],
                     raw['temp'])
    b += bytes(raw['mpt']) + bytes([raw['hs'], raw['ps'], raw['rs']])
    b += bytes(r.randrange(256) for _ in range(8))
    assert len(b) == 42
    v.update(builtin_test_fail=bool(raw['bit']), c_sound=float(raw['c']),
             depth=raw['depth'] * .1, heading=raw['heading'] * .01,
             pitch=raw['pitch'] * .01, roll=raw['roll'] * .01,
             salinity=float(raw['sal']), temp=raw['temp'] * .01,
             min_preping_wait=raw['mpt'][0] * 60 + raw['mpt'][1] +
             raw['mpt'][2] * .01,
             heading_std=float(raw['hs']), pitch_std=raw['ps'] * .1,
             roll_std=raw['rs'] * .1)
    if kd == 'bb':
        if pv >= 5.55:
            b += bytes(15) + bytes([cent]) + bytes(cb)
    elif kd == 'os':
        b += bytes(16)
        if pv > 23:
            b += bytes(2)
    else:
        b += struct.pack('<I', r.randrange(2 ** 16))
        if pv >= 8.13:
            p, ps = r.randrange(0, 6_000_000), r.randrange(0, 4000)
            b += struct.pack('<HII', 0, p, ps)
            v['pressure'] = p / 1000.
            v['pressure_std'] = ps / 1000.
        if pv >= 8.24:
            b += bytes(1)
        if pv >= 16.05:
            b += bytes([cent]) + bytes(cb)
        if pv >= 56:
            b += bytes(1)
    blocks.append(('var', b))

    def prof(idn, fmt, n, hi, scale=None, miss=False, lo=0):
        x = np.array([[r.randrange(lo, hi) for _ in range(4)]
                      for _ in range(n)], dtype=np.int64)
        bad = np.zeros(x.shape, bool)
        if miss:
            for _ in range(r.pick([0, 0, 1, 3])):
                a, c_ = r.randrange(n), r.randrange(4)
                bad[a, c_] = True
            x[bad] = -32768
        by = struct.pack('<H', idn) + struct.pack(
            '<%d%s' % (4 * n, fmt), *[int(q) for q in x.ravel()])
        if scale is not None:
            x = x * scale
            x[bad] = np.nan
        return by, x.T       # (4, n)

    body = []

    def add(name, idn, *a, **k):
        by, x = prof(idn, *a, **k)
        body.append((name, by))
        return x
    has = cfg['has']
    v['vel'] = add('vel', 256, 'h', nc, 6000, .001, True, -6000)
    if 'corr' in has:
        v['corr'] = add('corr', 512, 'B', nc, 256)
    if 'amp' in has:
        v['amp'] = add('amp', 768, 'B', nc, 256)
    if 'pg' in has:
        v['prcnt_gd'] = add('pg', 1024, 'B', nc, 101)
    if 'status' in has:
        v['status'] = add('status', 1280, 'B', nc, 2).astype(float)
    if cfg['sl']:
        sl = cfg['sl']
        blocks.append(('fixed_sl', struct.pack('<HBHH', 16, sl, 25, 61)))
        v['vel_sl'] = add('vel_sl', 272, 'h', sl, 3000, .001, False, -3000)
        v['corr_sl'] = add('corr_sl', 528, 'B', sl, 256)
        v['amp_sl'] = add('amp_sl', 784, 'B', sl, 256)
        v['prcnt_gd_sl'] = add('pg_sl', 1040, 'B', sl, 101)
    if cfg['bb']:
        nb = cfg['bb']
        blocks.append(('fixed_bb', fixed_leader(cfg, nb, 1)))
        # second variable leader: same clock, same sensors
        vb = bytearray(blocks[1][1])
        vb[0:2] = struct.pack('<H', 129)
        blocks.append(('var_bb', bytes(vb)))
        for nm, idn, f, lo, hi in (('vel_bb', 257, 'h', -6000, 6000),
                                   ('corr_bb', 513, 'B', 0, 256),
                                   ('amp_bb', 769, 'B', 0, 256)):
            by, _ = prof(idn, f, nb, hi, lo=lo)
            body.append((nm, by))
    if 'bt' in has:
        rg = [r.randrange(0, 65536) for _ in range(4)]
        msb = [r.pick([0, 0, 1, 2]) for _ in range(4)]
        vel = [r.randrange(-9000, 9001) for _ in range(4)]
        cor = [r.randrange(256) for _ in range(4)]
        am = [r.randrange(256) for _ in range(4)]
        pg = [r.randrange(101) for _ in range(4)]
        fill, ref = bytes(14), bytes(26)
        if cfg['src_prog'] == 'wr1':
            # WinRiver writes its position into this block
            la, lo_ = r.randrange(-2 ** 30, 2 ** 30), r.randrange(2 ** 32)
            q = r.pick([0, 1, 1, 1, 2])
            fill = struct.pack('<HH6xi', r.randrange(65536), lo_ % 65536, la)
            ref = bytes(2) + struct.pack('<H', lo_ // 65536) + bytes(
                r.randrange(256) for _ in range(16)) + bytes([q]) + bytes(
                r.randrange(256) for _ in range(5))
            cf = 180. / 2 ** 31
            lo_ = lo_ * cf
            if q and 'bt' not in drop:
                v.update(latitude_gps=la * cf or np.nan,
                         longitude_gps=(lo_ - 360 if lo_ > 180 else lo_) or np.nan)
        b = struct.pack('<H', 1536) + fill
        b += struct.pack('<4H4h', *(rg + vel)) + bytes(cor) + bytes(am) + bytes(pg)
        b += ref
        assert len(b) == 70
        dist = np.array(rg) * .01
        if pv >= 5.3:
            b += bytes(7) + bytes(msb)
            dist = dist + np.array(msb) * 655.36
        if pv >= 16.2:
            b += bytes(4)
        if pv >= 56.1:
            b += bytes(4)
        body.append(('bt', b))
        v.update(dist_bt=dist, vel_bt=np.array(vel) * .001,
                 corr_bt=np.array(cor), amp_bt=np.array(am),
                 prcnt_gd_bt=np.array(pg))
    if 'alt' in has:
        ev, rs, ds, st = (r.randrange(256), r.randrange(256),
                          r.randrange(0, 400000), r.randrange(256))
        body.append(('alt', struct.pack('<HBBIB', 16640, ev, rs, ds, st)))
        v.update(alt_eval=ev, alt_rssi=rs, alt_dist=ds / 1000., alt_status=st)
    if 'xtra' in has:
        # block types the reader documents as skipped
        k = r.__class__('xtra', dseed).randrange(4)
        idn, ln = [(12800, 32), (22786, 105), (28673, 14), (17408, 28)][k]
        body.append(('xtra', struct.pack('<H', idn) +
                     bytes(r.randrange(256) for _ in range(ln))))
    if cfg['shuffle']:
        sr = Rng('shuf', dseed)
        order = list(range(len(body)))
        sr.shuffle(order)
        body = [body[k] for k in order]
    if cfg['src_prog'] == 'vmdas':
        # position fix: a bit before the ensemble time
        tg = t - _dt.timedelta(milliseconds=r.randrange(0, 40))
        day0 = _dt.datetime(tg.year, tg.month, tg.day)
        ms = int((tg - day0).total_seconds() * 1000)
        tg = day0 + _dt.timedelta(milliseconds=ms)
        lat, lon = r.randrange(-2 ** 30, 2 ** 30), r.randrange(-2 ** 31, 2 ** 31)
        off = r.randrange(-100000, 100000)
        sp, sd, mg, md = (r.randrange(15000), r.randrange(65536),
                          r.randrange(15000), r.randrange(65536))
        fl = r.randrange(256)
        ph = [r.randrange(65536) for _ in range(3)]
        dates = [tg.day, tg.month, tg.year, t.year, t.day, t.month]
        dates = dates if nav is None else [q if q is not None else w for q, w in zip(nav, dates)]
        b = struct.pack('<HBBH', 8192, *dates[:3])
        b += struct.pack('<IiiiIii', max(ms - 50, 0) * 10, off, lat, lon,
                         ms * 10 + r.randrange(10), lat, lon)
        b += struct.pack('<HHHHHHH', sp, sd, 0, mg, md, 0, fl)
        b += bytes(6)
        b += struct.pack('<HBB', *dates[3:])
        b += struct.pack('<I', 0) + struct.pack('<HHH', *ph) + bytes(10)
        assert len(b) == 78
        cf = 180. / 2 ** 31
        v.update(time_gps=epoch(tg), clock_offset_UTC_gps=off / 1000.,
                 latitude_gps=lat * cf, longitude_gps=lon * cf,
                 avg_speed_gps=sp / 1000., avg_dir_gps=sd * 180. / 2 ** 15,
                 speed_made_good_gps=mg / 1000.,
                 dir_made_good_gps=md * 180. / 2 ** 15,
                 flags_gps=float(int(bin(fl)[2:])),
                 pitch_gps=ph[0] * 180. / 2 ** 15,
                 roll_gps=ph[1] * 180. / 2 ** 15,
                 heading_gps=ph[2] * 180. / 2 ** 15)
        body.append(('vmdas', b))
    if cfg['src_prog'] == 'wr1':
        # the navigation sentences themselves, as text
        for idn, ln, tx in ((8448, 38, '$SDDBT,%.1f,f,%.1f,M,,F'), (8449, 97, '$GPGGA,%.2f,%.4f,N'),
                            (8450, 45, '$GPVTG,%.1f,T,%.1f,M'), (8452, 38, '$GPHDT,%.1f,T')):
            tx = tx % ((r.uniform(1, 99),) * tx.count('%')) + '\r\n'
            body.append(('text', struct.pack('<H', idn) + tx.encode().ljust(ln, b'\0')))
    nm = []
    if cfg['src_prog'] == 'wr2':
        hh, mm, ss, cs = t.hour, t.minute, t.second, t.microsecond // 10000
        lat, lon = r.uniform(1, 89), r.uniform(1, 179)
        ns, ew = r.pick('NS'), r.pick('EW')
        fix, ns_ = r.randrange(1, 6), r.randrange(4, 20)
        hd, al, gd, ag = (r.uniform(.5, 5), r.uniform(-20, 90),
                          r.uniform(-30, 30), r.uniform(0, 9))
        b = (b'$GPGGA\x00' + ('%02d%02d%02d.%02d' % (hh, mm, ss, cs)).encode() +
             b'\x00' + struct.pack('<d', lat) + ns.encode() +
             struct.pack('<d', lon) + ew.encode() + bytes([fix, ns_]) +
             struct.pack('<ff', hd, al) + b'M' + struct.pack('<f', gd) + b'M' +
             struct.pack('<fH', ag, 7))
        nm.append(('gga', 104, b))
        v.update(time_gps=epoch(t.replace(microsecond=cs * 10000)),
                 latitude_gps=lat * (1 if ns == 'N' else -1),
                 longitude_gps=lon * (1 if ew == 'E' else -1),
                 fix_gps=fix, n_sat_gps=ns_, hdop_gps=hd, elevation_gps=al,
                 rtk_age_gps=ag)
        tr, kn = r.uniform(0, 360), r.uniform(0, 12)
        b = (b'$GPVTG\x00' + struct.pack('<f', tr) + b'T' +
             struct.pack('<f', tr) + b'M' + struct.pack('<f', kn) + b'N' +
             struct.pack('<f', kn * 1.852) + b'K' + b'A')
        nm.append(('vtg', 105, b))
        v.update(speed_over_grnd_gps=kn / 1.944, dir_over_grnd_gps=tr)
        dm = r.uniform(1, 80)
        b = (b'$SDDBT\x00' + struct.pack('<f', dm * 3.28) + b'f' +
             struct.pack('<f', dm) + b'M' + struct.pack('<f', dm / 1.83) + b'F')
        nm.append(('dbt', 106, b))
        v['dist_nmea'] = dm
        he = r.uniform(0, 360)
        nm.append(('hdt', 107, b'$GPHDT\x00' + struct.pack('<d', he) + b'T'))
        v['heading_gps'] = he
        nr = Rng('nofix', dseed)
        rate = nr.pick([0, 0, .1, .5])
        nr = Rng('nofix', dseed, i)
        for q, (name, spid, b) in enumerate(nm):
            if nr.flip(rate):
                # the receiver had nothing to say: the sentence as it came
                b = b'$GP%s' % name.upper().encode() + b',' * 12
                b = b.ljust({'gga': 43, 'vtg': 22, 'dbt': 20, 'hdt': 14}[name])[
                    :{'gga': 43, 'vtg': 22, 'dbt': 20, 'hdt': 14}[name] - nr.randrange(3)]
                for k_ in DROPS[name]:
                    v.pop(k_, None)
            if bad_nmea is not None and bad_nmea % len(nm) == q:
                b = b'\xff\xfe\xfd\xfc\xfb\xfa' + b[6:]
            body.append((name, struct.pack('<HHHd', 8226, spid, len(b),
                                           r.random()) + b))
    for u in unknown:
        # a block type of newer firmware, anywhere after the leaders
        ur = Rng('unk', u)
        by = struct.pack('<H', ur.pick([0x3040, 0x30a0, 0x30e0, 0x4242, 0x0fff,
                                        0x5801, 0x6000, 0x0040])) + \
            bytes(ur.randrange(256) for _ in range(ur.randrange(0, 60)))
        body.insert(ur.randrange(len(body) + 1), ('unknown', by))
    blocks = [bl for bl in blocks + body if bl[0] not in drop]
    for nm_ in drop:
        for k_ in DROPS.get(nm_, ()):
            v.pop(k_, None)
    # --- assemble
    nd = len(blocks)
    off = 6 + 2 * nd
    offs, out = [], b''
    for k, (name, by) in enumerate(blocks):
        offs.append(off)
        # firmware pads some blocks; the offset table stays right
        pd = bytes(2) if (cfg['pad'] and k % 3 == 0) else b''
        out += by + pd
        off += len(by) + len(pd)
    nbyte = off + 2            # + reserved bytes
    head = struct.pack('<BBHBB', 0x7f, 0x7f, nbyte, 0, nd)
    head += struct.pack('<%dH' % nd, *offs)
    body_b = head + out + bytes(2)
    assert len(body_b) == nbyte
    cs = sum(body_b) & 0xffff
    e = Ens()
    e.b = body_b + struct.pack('<H', cs)
    e.v = v
    e.n_cells = nc
    e.hdr_len = len(head)
    e.idx = i
    e.blocks = [(n, o, len(by)) for (n, by), o in zip(blocks, offs)]
    e.nmea_bad = bad_nmea is not None and bool(nm)
    return e
