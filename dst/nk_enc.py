"""Simulated classic Nortek instruments (Vector, AWAC, Vectrino): the binary
records they write, and the reference model of what a reader has to return.

Written from Nortek's system integrator record layouts, independently of
dolfyn's parser.
"""
import datetime as _dt
import struct

import numpy as np

from .rng import Rng

EPOCH = _dt.datetime(1970, 1, 1)
FREQ_COEF = {2000: 0.0239, 1000: 0.0478, 600: 0.0797, 400: 0.1195}


def cksum(b):
    assert len(b) % 2 == 0
    return (0xb58c + sum(struct.unpack('<%dH' % (len(b) // 2), b))) & 0xffff


def close(b):
    b = bytes(b)
    return b + struct.pack('<H', cksum(b))


def bcd(n):
    return (n // 10) * 16 + n % 10


def clock(t):
    """6 bytes of BCD time: min sec day hour year month"""
    if isinstance(t, (list, tuple)):      # raw bytes (a clock fault)
        return bytes(t)
    d = EPOCH + _dt.timedelta(seconds=int(t))
    return bytes(bcd(x) for x in (d.minute, d.second, d.day, d.hour, d.year % 100, d.month))


def clock_valid(t):
    """Epoch seconds of 6 clock bytes, None when it is not a date."""
    if not isinstance(t, (list, tuple)):
        return float(int(t))

    def un(c):
        return (c >> 4) * 10 + (c & 15) if c <= 153 else 99
    mi, se, da, ho, ye, mo = [un(c) for c in t]
    if ye > 99:
        return None
    try:
        d = _dt.datetime(ye + (2000 if ye < 90 else 1900), mo, da, ho, mi, se)
    except ValueError:
        return None
    return (d - EPOCH).total_seconds()


class Rec(object):
    """One record of the stream.  kind: cfg, sample, imu, sys, other."""
    __slots__ = ('b', 'kind', 'v', 'idx', 'hdr_len')

    def __init__(self, b, kind, v=None, idx=None):
        self.b = b
        self.kind = kind
        self.v = v
        self.idx = idx
        self.hdr_len = 4


def gen_cfg(rng, inst=None):
    inst = inst or rng.weighted([('VEC', 6), ('WPR', 5), ('VNO', 2)])
    c = {'inst': inst, 'serial': rng.randrange(10000), 'fw': rng.randrange(100, 999),
         'pic': rng.randrange(1000), 'hwrev': rng.randrange(50), 'rec': rng.randrange(2000),
         'range_hi': int(rng.flip(.3)), 'head': rng.randrange(8),
         'freq': rng.pick([2000, 1000, 600, 400]) if inst == 'WPR' else rng.pick([6000, 10000]),
         'mat': [rng.randrange(-32768, 32768) for _ in range(16)],
         'frame': rng.randrange(3), 'timctrl': rng.randrange(1024),
         'cmpupd': rng.randrange(1, 100), 'npings': rng.randrange(1, 65536),
         'name': rng.pick(['', 'A', 'DEP1', 'WIN2E']), 'wrap': rng.randrange(2),
         'mode0': rng.randrange(512) & ~16, 'vscale': 0, 'anain': rng.randrange(5),
         'sw': rng.randrange(10000, 14000), 'sal': rng.randrange(450),
         'comment': rng.pick(['', 'test deployment', 'x' * 79]),
         'wproc': rng.randrange(5), 'mode1': rng.randrange(8), 'dyn': rng.randrange(32768),
         'wcell': rng.randrange(100), 'wsamp': rng.pick([512, 1024, 2048]),
         'corrth': rng.randrange(100), 'binlen': rng.randrange(50, 4000),
         'blank': rng.randrange(10, 2000), 'n_bins': 0, 'nburst': 0, 'burst_int': 0,
         'imu': 0, 'chk': 0, 'hdr': 1, 'sysphase': 0, 'up': int(rng.flip(.5)),
         't0': 946_684_800 + rng.randrange(1, 600_000_000)}
    if inst == 'VEC':
        c['rate'] = rng.pick([1, 2, 4, 8, 8, 16, 32])
        c['vscale'] = int(rng.flip(.4))
        c['imu'] = rng.pick([0, 0, 0, 195, 204, 211])
        c['chk'] = rng.pick([0, rng.randrange(1, 40), rng.randrange(40, 300)])
        if rng.flip(.3):
            c['nburst'] = c['rate'] * rng.randrange(1, 6)
            c['burst_int'] = rng.randrange(60, 3600)
    elif inst == 'VNO':
        c['rate'] = rng.pick([1, 5, 10, 25, 50])
        c['chk'] = rng.pick([0, 0, rng.randrange(20, 200)])
    else:
        c['avg'] = rng.pick([1, 2, 30, 60, 600])
        c['n_bins'] = rng.pick([2, 4, 6, 10, 20, 34])
        c['waves'] = int(rng.flip(.2))
    return c


def fs(c):
    if c['inst'] == 'WPR':
        return 1. / c['avg']
    return float(c['rate'])


def avg_interval(c):
    return {'VEC': lambda: 512 // c['rate'], 'VNO': lambda: 50000 // c['rate'],
            'WPR': lambda: c['avg']}[c['inst']]()


def nbeams(c):
    return 4 if c['inst'] == 'VNO' else 3


def headers(c):
    hw = bytearray(46)
    hw[0:4] = b'\xa5\x05\x18\x00'
    hw[4:12] = ('%s %04d' % (c['inst'], c['serial'])).encode()
    hw[12] = 7
    hw[14:18] = b'1.34'
    struct.pack_into('<6H', hw, 18, 1, 2, c['pic'], c['hwrev'], c['rec'], c['range_hi'])
    hw[42:46] = ('%d.%02d' % (c['fw'] // 100, c['fw'] % 100)).encode()
    head = bytearray(222)
    head[0:4] = b'\xa5\x04\x70\x00'
    struct.pack_into('<3H', head, 4, c['head'], c['freq'], 1)
    head[10:22] = ('%s %d' % (c['inst'], c['serial'])).encode().ljust(12, b'\0')
    n = nbeams(c)
    struct.pack_into('<%dh' % (n * n), head, 22 + 8, *c['mat'][:n * n])
    struct.pack_into('<H', head, 220, n)
    u = bytearray(510)
    u[0:4] = b'\xa5\x00\x00\x01'

    def H(off, *v):
        struct.pack_into('<%dH' % len(v), u, off, *v)
    H(4, 10, c['blank'], 12, 13, 14, c['npings'], avg_interval(c), n, c['timctrl'],
      0, 1, 2, 3, c['cmpupd'], c['frame'], c['n_bins'], c['binlen'], c['burst_int'])
    u[40:46] = c['name'].encode().ljust(6, b'\0')
    H(46, c['wrap'])
    u[48:54] = clock(c['t0'])
    struct.pack_into('<I', u, 54, 3600)
    H(58, c['mode0'] | (16 if c['vscale'] else 0), 0, 1, 1, 1, 0, c['anain'], c['sw'], c['sal'])
    H(76, *range(90))
    u[256:336] = c['comment'].encode().ljust(80, b'\0')
    H(384, c['wproc'])
    H(436, c['mode1'], c['dyn'], 20, 21, c['wcell'], c['wsamp'])
    H(452, c['nburst'])
    H(456, 100, c['corrth'])
    H(462, 5)
    H(494, *range(8))
    return [Rec(close(hw), 'cfg'), Rec(close(head), 'cfg'), Rec(close(u), 'cfg')]


def bit(v, n):
    return bool(v >> n & 1)


def expect_attrs(c):
    t, m0, m1 = c['timctrl'], c['mode0'], c['mode1']
    n = nbeams(c)
    a = {'inst_make': 'Nortek',
         'inst_model': {'VEC': 'Vector', 'WPR': 'AWAC', 'VNO': 'Vectrino'}[c['inst']],
         'inst_type': 'ADCP' if c['inst'] == 'WPR' else 'ADV',
         'serial_number': '%s %04d' % (c['inst'], c['serial']),
         'firmware_version': '%d.%02d' % (c['fw'] // 100, c['fw'] % 100),
         'ProLogFWver': '1.34',
         'PIC_version': c['pic'], 'hardware_rev': c['hwrev'],
         'recorder_size_bytes': c['rec'] * 65536,
         'vel_range': 'high' if c['range_hi'] else 'normal',
         'pressure_sensor': 'yes' if bit(c['head'], 0) else 'no',
         'compass': 'yes' if bit(c['head'], 1) else 'no',
         'tilt_sensor': 'yes' if bit(c['head'], 2) else 'no',
         'carrier_freq_kHz': c['freq'], 'n_beams': n,
         'profile_mode': 'continuous' if bit(t, 1) else 'single',
         'power_level': 1 + bit(t, 5) + 2 * bit(t, 6),
         'burst_mode': str(not bit(t, 2)),
         'sync_out_pos': 'end' if bit(t, 7) else 'middle',
         'sample_on_sync': str(bit(t, 8)), 'start_on_sync': str(bit(t, 9)),
         'compass_update_rate': c['cmpupd'], 'n_bins': c['n_bins'],
         'deployment_name': c['name'], 'wrap_mode': str(bool(c['wrap'])),
         'analog_in': c['anain'], 'salinity': c['sal'] / 10.,
         'software_version': '%d.%02d.%02d' % (c['sw'] // 10000, c['sw'] // 100 % 100, c['sw'] % 100),
         'comments': c['comment'],
         'user_specified_sound_speed': str(bit(m0, 0)),
         'analog_output': str(bit(m0, 2)), 'output_format': 'ADV' if bit(m0, 3) else 'Vector',
         'serial_output': str(bit(m0, 5)), 'power_output_analog': str(bit(m0, 8)),
         'fs': fs(c), 'coord_sys': ['earth', 'inst', 'beam'][c['frame']],
         'has_imu': int(bool(c['imu']))}
    if c['inst'] == 'WPR':
        a.update({'avg_interval': c['avg'],
                  'wave_processing_method': ['PUV', 'SUV', 'MLM', 'MLMST', 'None'][c['wproc']],
                  'prc_dyn_wave_cell_pos': int(c['dyn'] / 32767 * 100),
                  'wave_cell_size': c['wcell'], 'n_samples_wave': c['wsamp'],
                  'wave_mode': 'Enabled' if bit(m0, 1) else 'Disabled',
                  'wave_fs': '2 Hz' if bit(m1, 0) else '1 Hz',
                  'wave_cell_position': 'dynamic' if bit(m1, 1) else 'fixed',
                  'type_wave_cell_pos': 'pct_of_min_re' if bit(m1, 2) else 'pct_of_mean_pressure'})
    else:
        a['n_pings_per_burst'] = c['npings']
    if c['nburst']:
        a['duty_cycle_n_burst'] = c['nburst']
        a['duty_cycle_interval'] = c['burst_int']
    return a


def expect_mat(c):
    n = nbeams(c)
    return np.array(c['mat'][:n * n]).reshape(n, n) / 4096.


def expect_range(c):
    ang = np.cos(25 * np.pi / 180)
    cs = round(c['binlen'] / 256. * FREQ_COEF[c['freq']] * ang, 2)
    bd = round(c['blank'] * .0229 * ang - cs, 2)
    return (np.arange(c['n_bins']) + 1) * cs + bd, cs, bd


# ------------------------------------------------------------------ records
def vec_data(c, i, r):
    vel = [r.randrange(-32768, 32768) for _ in range(3)]
    amp = [r.randrange(256) for _ in range(3)]
    cor = [r.randrange(101) for _ in range(3)]
    pr = r.pick([r.randrange(1, 65536), r.randrange(65536, 2 ** 24)])
    b = struct.pack('<BB4B2H3h6B', 0xa5, 0x10, r.randrange(256), i & 255, pr >> 16,
                    r.randrange(256), pr & 0xffff, r.randrange(65536), *(vel + amp + cor))
    v = {'vel': np.array(vel) * (1e-4 if c['vscale'] else 1e-3), 'amp': np.array(amp),
         'corr': np.array(cor), 'pressure': pr / 1000.}
    return Rec(close(b), 'sample', v, i)


def imu(c, i, r):
    f = [struct.unpack('<f', struct.pack('<f', r.uniform(-2, 2)))[0] for _ in range(18)]
    k = c['imu']
    rate = fs(c)

    def adv(x):           # microstrain axes -> ADV axes
        return np.array([-x[2], x[1], x[0]])

    def omat(x):
        m = np.array(x).reshape(3, 3)
        m = np.array([-m[2], m[1], m[0]])
        return np.stack([m[:, 1], m[:, 0], -m[:, 2]], axis=1)
    v = {}
    if k == 195:
        b = struct.pack('<15fI', *f[:15], 1000 + i)
        v['angrt'], v['accel'] = adv(f[0:3]) * rate, adv(f[3:6]) * rate * 9.80665
        v['orientmat'] = omat(f[6:15])
    elif k == 204:
        b = struct.pack('<18fIH', *f, 1000 + i, 77)
        v['accel'], v['angrt'] = adv(f[0:3]) * 9.80665, adv(f[3:6])
        v['mag'] = adv(f[6:9])
        v['orientmat'] = omat(f[9:18])
    else:
        b = struct.pack('<9fIH', *f[:9], 1000 + i, 77)
        v['angrt'], v['accel'] = adv(f[0:3]) * rate, adv(f[3:6]) * rate * 9.80665
        v['mag'] = adv(f[6:9])
    n = (6 + len(b) + 2) // 2
    return Rec(close(struct.pack('<BBHBB', 0xa5, 0x71, n, i & 255, k) + b), 'imu', v, i)


class Walk(object):
    """Slowly changing sensors."""

    def __init__(self, r):
        self.r = r
        self.h = r.randrange(3600)
        self.turn = r.pick([40, 40, 400, 1700])
        self.p = r.randrange(-300, 300)
        self.ro = r.randrange(-300, 300)
        self.te = r.randrange(100, 3000)

    def step(self):
        r = self.r
        self.h = (self.h + r.randrange(-self.turn, self.turn + 1)) % 3600
        self.p = min(max(self.p + r.randrange(-20, 21), -800), 800)
        self.ro = min(max(self.ro + r.randrange(-20, 21), -800), 800)
        self.te = min(max(self.te + r.randrange(-5, 6), -200), 3500)
        return r.randrange(100, 200), r.randrange(14000, 16000), self.h, self.p, self.ro, self.te


def vec_sys(c, i, t, w, r):
    ba, cs, h, p, ro, te = w.step()
    err, stt = r.randrange(256), r.randrange(128) * 2 + (0 if c['up'] else 1)
    b = b'\xa5\x11\x0e\x00' + clock(t) + struct.pack('<2H4h2BH', ba, cs, h, p, ro, te, err, stt, 9)
    v = {'time': clock_valid(t), 'batt': ba * .1, 'c_sound': cs * .1, 'heading': h * .1,
         'pitch': p * .1, 'roll': ro * .1, 'temp': te * .01, 'error': err, 'status': stt}
    return Rec(close(b), 'sys', v, i)


def vec_hdr(c, t, n, r):
    b = b'\xa5\x12\x15\x00' + clock(t) + struct.pack('<H', n) + \
        bytes(r.randrange(256) for _ in range(7)) + bytes(r.randrange(256) for _ in range(21))
    return Rec(close(b), 'other')


def checkdata(c, r):
    n = c['chk']
    nb = nbeams(c)
    pre = struct.pack('<2H', n, 1)
    if c['inst'] == 'VNO':
        pre = struct.pack('<5H', n, 1, 0, 0, 0)
    body = pre + bytes(r.randrange(256) for _ in range(nb * n))
    if len(body) % 2:
        return None          # such a record would need a fill byte
    size = (4 + len(body) + 2) // 2
    return Rec(close(b'\xa5\x07' + struct.pack('<H', size) + body), 'other')


def awac(c, i, t, w, r):
    ba, cs, h, p, ro, te = w.step()
    nb = c['n_bins']
    err, ana, stt = r.randrange(65536), r.randrange(65536), r.randrange(256)
    pr = r.pick([r.randrange(65536), r.randrange(65536, 2 ** 20)])
    vel = [[r.randrange(-32768, 32768) for _ in range(nb)] for _ in range(3)]
    amp = [[r.randrange(256) for _ in range(nb)] for _ in range(3)]
    b = bytearray(118 + 9 * nb)
    b[0:2] = b'\xa5\x20'
    struct.pack_into('<H', b, 2, (120 + 9 * nb) // 2)
    b[4:10] = clock(t)
    struct.pack_into('<4H3hBBHh', b, 10, err, ana, ba, cs, h, p, ro,
                     pr >> 16, stt, pr & 0xffff, te)
    for k in range(3):
        struct.pack_into('<%dh' % nb, b, 118 + 2 * nb * k, *vel[k])
        b[118 + 6 * nb + nb * k:118 + 6 * nb + nb * (k + 1)] = bytes(amp[k])
    v = {'time': clock_valid(t), 'error': err, 'batt': ba * .1, 'c_sound': cs * .1,
         'heading': h * .1, 'pitch': p * .1, 'roll': ro * .1, 'pressure': pr * .001,
         'status': stt, 'temp': te * .01, 'vel': np.array(vel) * .001, 'amp': np.array(amp)}
    return Rec(close(b), 'sample', v, i)


def waves(c, t, r):
    """A short wave burst as the AWAC interleaves it: header, then samples."""
    b = b'\xa5\x31\x1e\x00' + clock(t) + struct.pack('<H', 4)
    out = [Rec(close(b.ljust(58, b'\0')), 'other')]
    for _ in range(4):
        out.append(Rec(close(b'\xa5\x30\x0c\x00' + bytes(r.randrange(256) for _ in range(18))), 'other'))
    return out


def vno_event(c, t):
    return Rec(close(b'\xa5\x0f\x0d\x00' + clock(t) + bytes(14)), 'other')


def vno_hdr(c, r):
    return Rec(close(b'\xa5\x50\x15\x00' + bytes(r.randrange(256) for _ in range(36))), 'other')


def vno_data(c, i, r):
    vel = [r.randrange(-32768, 32768) for _ in range(4)]
    amp = [r.randrange(256) for _ in range(4)]
    cor = [r.randrange(101) for _ in range(4)]
    stt = r.randrange(256)
    b = struct.pack('<BB2B4h8B', 0xa5, 0x51, stt, i & 255, *(vel + amp + cor))
    v = {'vel': np.array(vel) * (1e-4 if c['vscale'] else 1e-3), 'amp': np.array(amp), 'corr': np.array(cor),
         'status': stt, 'time': clock_valid(c['t0']) + i / fs(c)}
    return Rec(close(b), 'sample', v, i)


def deployment(c, n, dseed, clocks=None):
    """n samples -> list of records, headers first.  clocks: {k: clock bytes}
    replaces the clock of the k-th time-stamped record (system data, profile)."""
    clocks = clocks or {}
    r = Rng('nk', dseed)
    w = Walk(Rng('nkw', dseed))
    out = headers(c)
    k = [0]

    def t_(t):
        q = clocks.get(k[0], t)
        k[0] += 1
        return q
    if c['inst'] == 'WPR':
        for i in range(n):
            t = c['t0'] + i * c['avg']
            if c.get('waves') and i and i % 3 == 0:
                out += waves(c, t, r)
            out.append(awac(c, i, t_(t), w, Rng('nkd', dseed, i)))
        return out
    if c['inst'] == 'VNO':
        out.append(vno_event(c, clocks.get(('vno', 0), c['t0'])))
        if c['chk']:
            out += [q for q in [checkdata(c, r)] if q]
        out.append(vno_hdr(c, r))
        for i in range(n):
            out.append(vno_data(c, i, Rng('nkd', dseed, i)))
        return out
    rate = c['rate']
    nb = c['nburst'] or 10 ** 9
    for i in range(n):
        j = i % nb
        t = c['t0'] + (i // nb) * c['burst_int'] + j // rate
        if j == 0:
            if c['chk']:
                out += [q for q in [checkdata(c, r)] if q]
            out.append(vec_hdr(c, clocks.get(('hdr', i), t), min(c['nburst'], 65535), r))
        if j % rate == 0:
            out.append(vec_sys(c, i, t_(t), w, r))
        s = vec_data(c, i, Rng('nkd', dseed, i))
        s.v['_t'] = c['t0'] + (i // nb) * c['burst_int'] + j / rate
        out.append(s)
        if c['imu']:
            out.append(imu(c, i, Rng('nki', dseed, i)))
    return out
