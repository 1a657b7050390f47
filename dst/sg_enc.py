"""Simulated Nortek Signature (AD2CP): writes records, and the reference model
of what a reader has to return for them.  Written from the AD2CP layout with
explicit byte packing, independently of dolfyn's record definitions.
"""
import datetime as _dt
import struct
import numpy as np

from .rng import Rng

EPOCH = _dt.datetime(1970, 1, 1)
TAG = {21: '', 22: '_avg', 23: '_bt', 24: '_b5', 26: 'raw', 28: '_echo'}
NAME = {21: 'burst', 22: 'average', 23: 'bottom track', 24: 'fifth beam',
        26: 'raw altimeter', 28: 'echosounder', 30: 'altimeter (not read)'}
PLANS = [([21], 5), ([21, 24], 5), ([21, 28], 2), ([21, 24, 28], 3), ([21, 23], 3),
         ([21, 28, 23], 2), ([22], 4), ([21, 26], 1.5), ([21, 24, 26], 1.5),
         ([21, 22], 1), ([21, 24, 22], 1.5)]
DUAL = ([21, 22], [21, 24, 22])       # two profiles, each with its own counter
G = 9.81


def cksum(b, cs=0xb58c):
    if len(b) % 2:
        b = b + b'\0'
        # the odd last byte counts as the high byte
        b = b[:-2] + b'\0' + b[-2:-1]
    return (cs + sum(struct.unpack('<%dH' % (len(b) // 2), b))) & 0xffff


class Rec(object):
    __slots__ = ('b', 'id', 'v', 'e', 'k')

    def __init__(self, b, id, v=None, e=None, k=None):
        self.b, self.id, self.v, self.e, self.k = b, id, v, e, k


def frame(id, payload):
    h = struct.pack('<BBBBHH', 0xa5, 10, id, 0x10, len(payload), cksum(payload))
    return h + struct.pack('<H', cksum(h)) + payload


# texts an operator can type in, and lines that not every instrument has
TEXTS = ['', 'bay', 'site 3, mooring A', 'z0=2.5', 'N, E=3, 12', ',', '=', 'SR=4,NC=2']
MORE = [('GETECHO', [('NBINS', 100, '100'), ('BD', .5, '0.50'), ('PULSECOMP1', 0, '0')]),
        ('GETTMBURST', [('EN', 0, '0'), ('FN', '"meanfile.ad2cp"', '"meanfile.ad2cp"')]),
        ('GETTMAVG', [('EN', 0, '0'), ('CD', 1, '1')]),
        ('GETCLOCKSTR', [('TIME', '"2020-08-15 13:44:00"', '"2020-08-15 13:44:00"')]),
        ('GETUSER', [('POFF', 9.5, '9.50'), ('DECL', -1.25, '-1.25')]),
        ('GETEN', [('MODE', '"AUTO"', '"AUTO"')]),
        ('GETBT', [('RANGE', 30., '30.00'), ('WT', '"OFF"', '"OFF"')])]


def gen_cfg(rng, plans=PLANS):
    ids = list(rng.weighted(plans))
    c = {'ids': ids, 'model': rng.pick(['Signature1000', 'Signature500', 'Signature250']),
         'serial': rng.randrange(100000, 999999), 'theta': rng.pick([20, 25]),
         'rate': rng.pick([1, 2, 4, 8, 16]), 'avgint': rng.pick([10, 60, 600]),
         'ai': rng.randrange(1, 60), 'bw': rng.pick(['"BROAD"', '"NARROW"']),
         'cell_mm': rng.randrange(100, 4000), 'blank_cm': rng.randrange(0, 500),
         'nc': rng.weighted([(1, .5), (rng.randrange(2, 9), 5), (rng.randrange(9, 30), 2)]),
         'nc5': rng.randrange(1, 12), 'nce': rng.randrange(1, 20), 'nsamp': rng.randrange(1, 30),
         'cy': rng.randrange(3), 'vscale': rng.pick([-3, -3, -4, -2]), 'imu': int(rng.flip(.35)),
         'amp': int(rng.flip(.9)), 'corr': int(rng.flip(.9)), 'le': int(rng.flip(.2)),
         'ast': int(rng.flip(.2)), 'std': int(rng.flip(.2)), 'orient': rng.pick([4, 5, 7, 0]), 'autoo': rng.pick([0, 1, 3]),
         'wake': rng.randrange(4), 'idle': int(rng.flip(.3)),
         'raw_every': rng.pick([1, 1, 2, 5]), 'nburst': rng.pick([0, 0, 0, 1, rng.randrange(2, 12)]),
         'hw0': rng.pick([1, 1, rng.randrange(2, 60000)]),
         'mat': [rng.randrange(-20000, 20001) for _ in range(16)],
         't0': rng.randrange(0, 600_000_000) + 1_262_304_000, 'strings': int(rng.flip(.2)),
         'other': rng.weighted([(0, 9), (1, 1), (rng.pick([2000, 32690, 32700, 65000]), .3)]),
         'vsvar': int(rng.flip(.3)), 'imu5': int(rng.flip(.15)), 'imue': int(rng.flip(.15)),
         'imubt': int(rng.flip(.2)), 'pgd': int(rng.flip(.1)), 'nomcorr': rng.randrange(0, 101),
         'ambig': rng.randrange(1, 30000), 'pl': rng.randrange(-20, 1), 'idleb': rng.randrange(8), 'stvar': int(rng.flip(.7)),
         'altb': rng.randrange(512), 'text': rng.weighted([(0, 5)] + [(k, 1) for k in range(1, len(TEXTS))]),
         'more': rng.randrange(1 << len(MORE)) if rng.flip(.5) else 0}
    if c['nburst']:
        c['hw0'] = 1
    if ids in DUAL:
        c.update(every=rng.randrange(1, 8), phase=rng.randrange(0, 4), hwa=rng.randrange(1, 5000),
                 nca=rng.pick([c['nc'], rng.randrange(1, 20)]), cya=rng.pick([c['cy'], rng.randrange(3)]))
    if 26 in c['ids']:
        c['le'] = c['ast'] = 1
    if c['nburst'] == 1:
        c['ids'] = [i for i in ids if i != 26] or [21]
    return c


def legal(c):
    return (c['ids'] in [p[0] for p in PLANS] and 1 <= c['nc'] < 1000 and 1 <= c['nc5'] < 1000 and 1 <= c['nce'] and c['nsamp'] >= 1 and
            c['rate'] >= 1 and c['avgint'] >= 1 and c['raw_every'] >= 1 and c['hw0'] >= 1 and (c['ids'] not in [list(q) for q in DUAL] or c['every'] >= 1 and c['hwa'] >= 1 and c['nca'] >= 1) and c['theta'] >= 10 and
            not (26 in c['ids'] and (c['nburst'] == 1 or not c['le'] or not c['ast'])) and (c['ids'][0] in (21, 22)))


def dt(c):
    return float(c['avgint']) if c['ids'][0] == 22 else 1. / c['rate']


def filehead(c):
    m = c['mat']
    nm = 'AVG' if c['ids'][0] == 22 else 'BURST'
    xf = ','.join(['ROWS=4', 'COLS=4'] + ['M%d%d=%.4f' % (i + 1, j + 1, m[4 * i + j] / 1e4)
                                          for i in range(4) for j in range(4)])
    ln = ['ID,STR="%s",SN=%d' % (c['model'], c['serial']),
          'GETPLAN,MIAVG=%d,AVG=1,BURST=1,SA=35.0,BD=0,FREQ=1000,SOUNDVEL=0,STR="%s"' % (c['avgint'], TEXTS[c.get('text', 0)]),
          'GETAVG,NC=%d,CS=1.00,BD=0.50,CY="ENU",PL=0.0,AI=%d,BW=%s,NB=4' % (c['nc'], c['ai'], c['bw']),
          'GETBURST,NC=%d,NB=4,CS=0.5,BD=0.5,CY="BEAM",PL=0.0,SR=%d,NS=1024' % (c['nc'], c['rate']),
          'GETXFAVG,' + xf, 'GETXFBURST,' + xf]
    for b in range(1, 5):
        ln.append('BEAMCFGLIST,BEAM=%d,THETA=%.2f,PHI=%.2f,FREQ=1000' % (b, c['theta'], (b - 1) * 90.))
    for j, (nm, items) in enumerate(MORE):
        if c.get('more', 0) >> j & 1:
            ln.append(nm + ',' + ','.join('%s=%s' % (k, t) for k, v, t in items))
    return ('\r\n'.join(ln)).encode()


def expect_filehead(c):
    """The settings of the configuration record, by line and name."""
    m = {'M%d%d' % (i + 1, j + 1): float('%.4f' % (c['mat'][4 * i + j] / 1e4)) for i in range(4) for j in range(4)}
    e = {'ID': 'STR="%s",SN=%d' % (c['model'], c['serial']),
         'PLAN': {'MIAVG': c['avgint'], 'AVG': 1, 'BURST': 1, 'SA': 35., 'BD': 0, 'FREQ': 1000, 'SOUNDVEL': 0,
                  'STR': '"%s"' % TEXTS[c.get('text', 0)]},
         'AVG': {'NC': c['nc'], 'CS': 1., 'BD': .5, 'CY': '"ENU"', 'PL': 0., 'AI': c['ai'], 'BW': c['bw'], 'NB': 4},
         'BURST': {'NC': c['nc'], 'NB': 4, 'CS': .5, 'BD': .5, 'CY': '"BEAM"', 'PL': 0., 'SR': c['rate'], 'NS': 1024},
         'XFAVG': dict(m, ROWS=4, COLS=4), 'XFBURST': dict(m, ROWS=4, COLS=4),
         'BEAMCFGLIST': ['BEAM=%d,THETA=%.2f,PHI=%.2f,FREQ=1000' % (b, c['theta'], (b - 1) * 90.) for b in range(1, 5)]}
    for j, (nm, items) in enumerate(MORE):
        if c.get('more', 0) >> j & 1:
            e[nm[3:]] = {k: v for k, v, t in items}
    return e


def ahrs(c, id):
    return {21: c['imu'], 22: c['imu'], 23: c.get('imubt', 0), 24: c.get('imu5', 0), 28: c.get('imue', 0)}.get(id, 0)


def config_bits(c, id):
    b = 0b1111
    if id == 23:
        return b | 1 << 5 | 1 << 8 | 1 << 9 | c.get('imubt', 0) << 10
    if id == 28:
        return b | 1 << 11 | c.get('imue', 0) << 12
    if id == 26:
        return b | 1 << 8 | 1 << 9 | 1 << 10
    b |= 1 << 5 | c['amp'] << 6 | c['corr'] << 7
    b |= ahrs(c, id) << 12
    if id in (21, 22):
        b |= c.get('pgd', 0) << 13 | c['std'] << 14
    if id == 21:
        b |= c['le'] << 8 | c['ast'] << 10
    return b


def nb(id):
    return 1 if id in (24, 26) else 4


def beams(c, id):
    if id == 28:
        return c['nce']
    if id == 26:
        return c['nsamp'] & 1023
    n = {21: c['nc'], 22: c.get('nca', c['nc']), 23: 0, 24: c['nc5']}[id]
    cy = {24: 2, 22: c.get('cya', c['cy'])}.get(id, c['cy'])
    return n | cy << 10 | nb(id) << 12


def status(c, id, k, dseed):
    x = 0
    if c.get('stvar'):
        r = Rng('status', dseed, k)
        x = r.randrange(16) << 18 | r.randrange(4) << 16 | r.randrange(16) << 12 | r.randrange(4) << 10 | r.randrange(32) << 5
    return (c['wake'] << 28 | c['orient'] << 25 | c['autoo'] << 22 | x | (0 if id == 28 else 2))


def rec(c, id, k, e, hw, t, dseed, clock=None):
    """k: ensemble index in the recording; hw: ensemble counter."""
    r = Rng('sg', dseed, id, k)
    if clock is None:
        d = EPOCH + _dt.timedelta(microseconds=int(round(t * 1e4)) * 100)
        cb = (d.year - 1900, d.month - 1, d.day, d.hour, d.minute, d.second, d.microsecond // 100)
        tv = (d - EPOCH).total_seconds()
    else:
        cb, tv = tuple(clock), None
    v = {'time': tv}
    q = dict(c_sound=r.randrange(14000, 16000), temp=r.randrange(-200, 4000), pressure=r.randrange(0, 6000000),
             heading=r.randrange(36000), pitch=r.randrange(-9000, 9000), roll=r.randrange(-18000, 18000),
             tp=r.randrange(0, 256), batt=r.randrange(60, 260))
    mag = [r.randrange(-32768, 32768) for _ in range(3)]
    acc = [r.randrange(-32768, 32768) for _ in range(3)]
    tclk = r.randrange(-500, 4000)
    err = r.pick([0, 0, r.randrange(65536)])
    xmit = r.randrange(65536)
    b = struct.pack('<BBHI6BH', 1 if id == 23 else 3, 78 if id == 23 else 76, config_bits(c, id), c['serial'], *cb)
    b += struct.pack('<HhIHhh', q['c_sound'], q['temp'], q['pressure'], q['heading'], q['pitch'], q['roll'])
    b += struct.pack('<HHHBBH', beams(c, id), c['cell_mm'], c['blank_cm'] * (10 if id == 28 else 1), c.get('nomcorr', 50), q['tp'], q['batt'])
    b += struct.pack('<3h3h', *(mag + acc))
    if id == 23:
        b += struct.pack('<I', c.get('ambig', 2000))
    else:
        b += struct.pack('<h', c.get('ambig', 2000))
    vs = c['vscale'] + (Rng('vs', dseed, id, k).pick([0, 0, 1, -1]) if c.get('vsvar') else 0)
    b += struct.pack('<HHbbhh', 0, xmit, vs, c.get('pl', -3), r.randrange(2000), tclk)
    if id == 23:
        b += struct.pack('<I', err)
    else:
        b += struct.pack('<HH', err, (1 << 15 if c['idle'] else 0) | c.get('idleb', 0))
    b += struct.pack('<II', status(c, id, k, dseed), hw)
    assert len(b) == (78 if id == 23 else 76)
    v.update(c_sound=q['c_sound'] * .1, temp=q['temp'] * .01, pressure=q['pressure'] * .001,
             heading=q['heading'] * .01, pitch=q['pitch'] * .01, roll=q['roll'] * .01, batt=q['batt'] * .1,
             accel=np.array(acc) / 16384. * G, temp_clock=tclk * .01, error=err,
             status=status(c, id, k, dseed))
    if id != 23:
        v['mag'] = np.array(mag) * .1
        v['temp_press'] = q['tp'] / 5. - 4
        v['xmit_energy'] = xmit
    nc = {21: c['nc'], 22: c.get('nca', c['nc']), 24: c['nc5']}.get(id)
    n = nb(id)
    if id in (21, 22, 24):
        x = [r.randrange(-32768, 32768) for _ in range(n * nc)]
        b += struct.pack('<%dh' % len(x), *x)
        v['vel'] = (np.array(x) * 10. ** vs).reshape(n, nc)
        if c['amp']:
            x = [r.randrange(256) for _ in range(n * nc)]
            b += bytes(x)
            v['amp'] = np.array(x).reshape(n, nc) * .5
        if c['corr']:
            x = [r.randrange(101) for _ in range(n * nc)]
            b += bytes(x)
            v['corr'] = np.array(x).reshape(n, nc)
    if id == 21 and c['le'] or id == 26:
        f, ql = float(np.float32(r.randrange(1, 100000) / 1000)), r.randrange(65536)
        al = (c.get('altb', 0) if 26 in c['ids'] else r.randrange(512) if 'altb' in c else 0)
        b += struct.pack('<fHH', f, ql, al)
        v.update(status_alt=al, le_dist_alt=f, le_quality_alt=ql * .01)
    if id == 21 and c['ast'] or id == 26:
        f, ql, o, p = (float(np.float32(r.randrange(1, 100000) / 1000)), r.randrange(65536), r.randrange(-3000, 3000),
                       float(np.float32(r.randrange(1, 100000) / 1000)))
        b += struct.pack('<fHhf8x', f, ql, o, p)
        v.update(ast_dist_alt=f, ast_quality_alt=ql * .01, ast_offset_time_alt=o * 1e-4, pressure_alt=p)
    if id == 23:
        x = [r.randrange(-2 ** 20, 2 ** 20) for _ in range(4)]
        y = [r.randrange(0, 2 ** 20) for _ in range(4)]
        z = [r.randrange(65536) for _ in range(4)]
        b += struct.pack('<4i4i4H', *(x + y + z))
        v.update(vel=np.array(x) * 10. ** vs, dist=np.array(y) * .001, fom=np.array(z))
    if id == 28:
        x = [r.randrange(65536) for _ in range(c['nce'])]
        b += struct.pack('<%dH' % len(x), *x)
        v['echo'] = np.array(x) * .01
    if id == 26:
        x = [r.randrange(-32768, 32768) for _ in range(c['nsamp'])]
        ds = r.randrange(1, 65536)
        b += struct.pack('<IH%dh' % len(x), len(x), ds, *x)
        v['samp'] = np.array(x) / 256.
        v['dsamp'] = ds * 1e-4
    if ahrs(c, id):
        m = [float(np.float32(r.randrange(-10000, 10001) / 10000)) for _ in range(9)]
        qq = [float(np.float32(r.randrange(-10000, 10001) / 10000)) for _ in range(4)]
        a = [float(np.float32(r.randrange(-100000, 100001) / 1000)) for _ in range(3)]
        b += struct.pack('<9f4f3f', *(m + qq + a))
        # (only those of the profiles are turned to earth -> inst)
        v['orientmat'] = np.array(m).reshape(3, 3).T if id in (21, 22) else np.array(m).reshape(3, 3)
        v['quaternions'] = np.array(qq)
        v['angrt'] = np.array(a) * np.pi / 180
    if id in (21, 22) and c.get('pgd'):
        b += bytes(r.randrange(101) for _ in range(nc))     # (not returned by the reader)
    if id in (21, 22) and c['std']:
        s = [r.randrange(0, 3000) for _ in range(4)]
        b += struct.pack('<4h24x', *s)
        v.update(pitch_std=s[0] * .01, roll_std=s[1] * .01, heading_std=s[2] * .01, press_std=s[3] * .1)
    if len(b) % 2:
        b += b''         # odd payloads are legal
    return Rec(frame(id, b), id, v, e, k)


def other(c, k, hw, t, r):
    """An altimeter record: indexed, not read."""
    b = rec(c, 28, k, k, hw, t, 1).b[10:86]
    return Rec(frame(30, b + bytes(20)), 30, None, k, k)


def other_big(c, k, hw, t, r, size):
    """A raw echosounder record (35): indexed, not read, and large."""
    b = rec(c, 28, k, k, hw, t, 1).b[10:86]
    return Rec(frame(35, b + bytes(size)), 35, None, k, k)


def string(txt, sid=16):
    return Rec(frame(160, bytes([sid]) + txt + b'\0'), 160)


def deployment(c, n, dseed, skip=(), clocks=None):
    """n ensembles -> list of records, the configuration record first.
    skip: [[id, k0, k1]] stream `id` records nothing in ensembles k0..k1-1."""
    out = [string(filehead(c))]
    clocks = clocks or {}
    sk = {(s[0], k) for s in skip if len(s) == 3 for k in range(s[1], s[2])}
    for k in range(n):
        if c['nburst']:
            hw = 1 + k % c['nburst']
            t = c['t0'] + (k // c['nburst']) * (c['nburst'] * dt(c) + 30) + (k % c['nburst']) * dt(c)
        else:
            hw = c['hw0'] + k
            t = c['t0'] + k * dt(c)
        if c['strings'] and k and k % 7 == 0:
            out.append(string(b'note %d' % k, 17))
        if c['ids'] in DUAL and k % c['every'] == c['phase'] % c['every']:
            ka = k // c['every']
            if (22, k) not in sk:
                out.append(rec(c, 22, ka, -1 - ka, c['hwa'] + ka, c['t0'] + ka * float(c['avgint']), dseed,
                               clocks.get((22, ka))))
        for id in c['ids']:
            if c['ids'] in DUAL and id == 22:
                continue
            if (id, k) in sk or id == 26 and k % c['raw_every']:
                continue
            out.append(rec(c, id, k, k, hw, t, dseed, clocks.get((id, k))))
        if c['other']:
            out.append(other(c, k, hw, t, None) if c['other'] == 1 else
                       other_big(c, k, hw, t, None, min(c['other'], 65000)))
    return out


BITS = list(zip((0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14),
                ('press_valid', 'temp_valid', 'compass_valid', 'tilt_valid', 'vel', 'amp', 'corr', 'le', 'altraw', 'ast',
                 'echo', 'ahrs', 'p_gd', 'std')))
BTBITS = BITS[:5] + [(8, 'dist'), (9, 'fom'), (10, 'ahrs')]


def expect_attrs(c, ids=None):
    ids = ids or c['ids']
    a = {'inst_make': 'Nortek', 'inst_type': 'ADCP', 'inst_model': c['model'], 'beam_angle': c['theta'],
         'has_imu': c['imu'], 'coord_sys': ['earth', 'inst', 'beam'][c.get('cya', c['cy']) if ids == [22] else c['cy']],
         'orientation': {0: 'horizontal', 4: 'up', 5: 'down', 7: 'AHRS'}[c['orient']],
         'orient_status': {0: 'fixed', 1: 'auto_UD', 3: 'AHRS-3D'}[c['autoo']],
         'wakeup_state': ['bad power', 'power on', 'break', 'clock'][c['wake']]}
    if 22 in ids:
        a['avg_interval_sec'] = c['ai']
        a['bandwidth'] = c['bw']
    else:
        a['fs'] = c['rate']
    if c['idle']:
        for j, nm in enumerate(('3', '6', '12')):
            a['proc_idle_less_%spct' % nm] = c.get('idleb', 0) >> j & 1
    if 26 in ids:
        x = c.get('altb', 0)
        a.update(tilt_over_5deg=x & 1, tilt_over_10deg=x >> 1 & 1, multibeam_alt=x >> 2 & 1,
                 power_level_alt=['high', 'med-high', 'med-low', 'low'][x >> 7])
    for id in ids:
        t = TAG.get(id)
        if t is None or id == 26:
            continue
        a['SerialNum' + t] = c['serial']
        a['cell_size' + t] = c['cell_mm'] * .001
        a['blank_dist' + t] = c['blank_cm'] * .01
        a['power_level_dB' + t] = c.get('pl', -3)
        a['nominal_corr' + t] = c.get('nomcorr', 50)
        a['ambig_vel' + t] = c.get('ambig', 2000) * .001
        a['burst_config' + t] = {nm: bool(config_bits(c, id) >> j & 1) for j, nm in (BTBITS if id == 23 else BITS)}
        if id in (21, 22, 24):
            a['n_cells' + t] = {21: c['nc'], 22: c.get('nca', c['nc']), 24: c['nc5']}[id]
            a['n_beams' + t] = nb(id)
            if id != 21:
                a['coord_sys_axes' + t] = ['ENU', 'XYZ', 'beam'][{24: 2, 22: c.get('cya', c['cy'])}.get(id, c['cy'])]
    return a


def expect_mat(c):
    return np.array([float('%.4f' % (x / 1e4)) for x in c['mat']]).reshape(4, 4)


def expect_range(c, id):
    n = {21: c['nc'], 22: c.get('nca', c['nc']), 24: c['nc5'], 28: c['nce']}[id]
    return (np.arange(n) + 1) * c['cell_mm'] * .001 + c['blank_cm'] * .01
