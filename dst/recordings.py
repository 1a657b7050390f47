"""A recording of any instrument family: scenario, bytes, and what is in it."""
from . import channel
from . import nk_enc as N
from . import rdi_enc as R
from . import sg_enc as S

FAMS = (('rdi', 4), ('nk', 4), ('sg', 4))
KEEP = ('t0', 'dseed', 'mat', 'model', 'serial', 's', 'fw', 'dt_ms', 'tpp', 'wl', 'num0', 'fam')
SYNC = {'rdi': b'\x7f\x7f', 'nk': b'\xa5', 'sg': b'\xa5\x0a'}
FIRST = {'rdi': 2, 'nk': 8, 'sg': 2}     # records that carry the settings
HEAD = {'rdi': 8, 'nk': 4, 'sg': 10}


def gen(rng, tier='quick', fam=None, maxn=60, cut=.5, skip=True):
    from .checks import c01, c03, c05
    fam = fam or rng.weighted(FAMS)
    s = {'rdi': c01, 'nk': c03, 'sg': c05}[fam].generate(rng, tier, 0)
    if s['n'] > maxn:
        s['n'] = maxn
    if not rng.flip(cut):
        s['cut'] = None
    if fam == 'rdi':
        s['cells'] = s['cells'][:s['n']]
    if fam == 'sg' and not skip:
        s['skip'] = []
    s['fam'] = fam
    return s


def legal(s):
    from .checks import c03, c05
    if s.get('fam') == 'rdi':
        return bool(s['cfg']['n_cells'] and s['n'] and all(len(m) == 3 for m in s['miss']) and
                    (not s['cut'] or len(s['cut']) == 2))
    if s.get('fam') == 'nk':
        return c03.legal(s) and (not s['cut'] or len(s['cut']) == 2)
    return s.get('fam') == 'sg' and c05.legal(s) and (not s['cut'] or len(s['cut']) == 2)


class Recording(object):
    """b: bytes; recs: the records written completely; n: complete time steps;
    tail: bytes of an incomplete record at the end"""

    def __init__(self, s):
        from .checks import c01, c03, c05
        self.s, self.fam, self.c = s, s['fam'], s['cfg']
        self.tail = b''
        if self.fam == 'rdi':
            recs = c01.record(s)
            self.ext = {'vmdas': 'ENR', 'wr2': 'PD0'}.get(self.c['src_prog'], '000')
            if s['cut']:
                e = min(max(s['cut'][0], 0), len(recs) - 1)
                self.tail = recs[e].b[:s['cut'][1] % len(recs[e].b)]
                recs = recs[:e]
            self.n = len(recs)
        elif self.fam == 'nk':
            recs = N.deployment(self.c, s['n'], s['dseed'])
            self.ext = c03.ext(self.c)
            if s['cut']:
                e, by = c03.cut_point(recs, s['cut'], 3 + (self.c['inst'] == 'VNO'))
                self.tail = recs[e].b[:by]
                recs = recs[:e]
            self.n = sum(r.kind == 'sample' for r in recs)
        else:
            recs = S.deployment(self.c, s['n'], s['dseed'], s['skip'])
            self.ext = 'ad2cp'
            if s['cut']:
                e = max(1, len(recs) - 1 - s['cut'][0])
                by = s['cut'][1] % len(recs[e].b) if s['cut'][1] >= 0 else len(recs[e].b) - 1
                self.tail = recs[e].b[:by]
                recs = recs[:e]
            self.ens = c05.ensembles(recs)
            self.n = len(self.ens)
        self.recs = recs
        self.b = b''.join(r.b for r in recs) + self.tail
        self.cut = s['cut'] and ('power_loss_mid_record' if self.tail else 'power_loss_between_records')

    def damaged(self, faults, st):
        """bytes after the link / storage faults"""
        segs = channel.apply([(r.b, r) for r in self.recs], faults, st, lambda r: HEAD[self.fam] if r else 0,
                             sync=SYNC[self.fam], first=FIRST[self.fam])
        return b''.join(x.b for x in segs) + self.tail

    def seconds(self):
        if self.fam == 'rdi':
            return self.n * self.c['dt_ms'] / 1000.
        if self.fam == 'nk':
            return self.n / N.fs(self.c)
        return self.n * S.dt(self.c)

    def sort(self):
        """A coarse description of the recording, for the state measure."""
        c = self.c
        if self.fam == 'rdi':
            return ('rdi', c['src_prog'], bool(c['bb']), bool(c['sl']), bool(self.s['cells']))
        if self.fam == 'nk':
            return ('nk', c['inst'], c['imu'], c['frame'])
        return ('sg', tuple(c['ids']), c['cy'], bool(c['nburst']))
