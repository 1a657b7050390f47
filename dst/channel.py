"""Faults of the link and the storage medium between instrument and reader.

A recording is a list of records (bytes + identity).  Faults act on it; what
comes out is the byte stream plus, for every piece of it, whether it is an
intact record.  Used for all instrument families.
"""
from .rng import Rng


class Seg(object):
    __slots__ = ('b', 'rec', 'ok', 'head_ok')

    def __init__(self, b, rec, ok=True, head_ok=True):
        self.b = b
        self.rec = rec        # the record (None: junk)
        self.ok = ok
        self.head_ok = head_ok


KINDS = [('ovw', 6), ('cut', 4), ('dup', 2), ('ins', 4), ('junk', 4),
         ('lose', 3), ('rep', 2), ('swap', 1)]


def gen_faults(rng, n, first, maxlen=4000, kinds=KINDS, sync=b'\x7f\x7f'):
    """n records, records below `first` are left alone."""
    out = []
    for _ in range(rng.weighted([(1, 4), (2, 3), (3, 2), (rng.randrange(4, 8), 1)])):
        k = rng.weighted(kinds)
        e = rng.randrange(first, n) if n > first else first
        f = {'k': k, 'e': e, 's': rng.randrange(2 ** 31)}
        if k in ('ovw', 'cut', 'dup'):
            f['a'] = rng.weighted([(rng.randrange(0, 12), 2), (rng.randrange(3000), 4),
                                   (-rng.randrange(1, 6), 1)])
            f['l'] = rng.weighted([(1, 3), (2, 2), (rng.randrange(3, 40), 3),
                                   (rng.randrange(40, 700), 2)])
            if k == 'ovw':
                f['m'] = rng.pick(['rand', 'zero', 'ff', 'flip', 'sync'])
        elif k in ('ins', 'junk'):
            f['a'] = rng.randrange(3000)
            f['l'] = rng.weighted([(1, 3), (2, 2), (rng.randrange(3, 60), 4),
                                   (rng.randrange(60, 1500), 3), (rng.randrange(1500, maxlen), 1)])
            f['m'] = rng.pick(['rand', 'zero', 'ff', 'sync'])
        elif k in ('lose', 'rep'):
            f['l'] = rng.weighted([(1, 3), (2, 2), (rng.randrange(3, 8), 1)])
        out.append(f)
    return out


def filler(f, n, sync):
    r = Rng('fill', f['s'])
    m = f.get('m', 'rand')
    if m == 'zero':
        return bytes(n)
    if m == 'ff':
        return b'\xff' * n
    b = bytearray(r.randrange(256) for _ in range(n))
    if m == 'sync':        # bytes that look like the start of a record
        for _ in range(1 + n // 40):
            p = r.randrange(n)
            b[p:p + len(sync)] = sync[:max(0, n - p)]
        b = b[:n]
    return bytes(b)


def apply(records, faults, st, head_len, sync=b'\x7f\x7f', first=0):
    """records: list of (bytes, rec).  -> list of Seg"""
    segs = [Seg(b, rec) for b, rec in records]
    ident = [s for s in segs]

    def pos(e):
        # segment of record number e, wherever it is now (None: lost)
        s = ident[e]
        for i, q in enumerate(segs):
            if q is s:
                return i
        return None

    for f in faults:
        e = f['e']
        if not first <= e < len(ident):
            continue
        i = pos(e)
        if i is None:
            continue
        s = segs[i]
        k = f['k']
        n = len(s.b)
        if n == 0:
            continue
        if k == 'ovw':
            a = f['a'] % n
            l = min(f['l'], n - a)
            if l < 1:
                continue
            new = (bytes(x ^ 0xff if j == 0 else x for j, x in enumerate(s.b[a:a + l]))
                   if f['m'] == 'flip' else filler(f, l, sync))
            if new == s.b[a:a + l]:
                continue
            s.b = s.b[:a] + new + s.b[a + l:]
            s.ok = False
            if a < head_len(s.rec):
                s.head_ok = False
        elif k == 'cut':
            a = f['a'] % n
            l = min(f['l'], n - a)
            if l < 1:
                continue
            s.b = s.b[:a] + s.b[a + l:]
            s.ok = False
            if a < head_len(s.rec):
                s.head_ok = False
        elif k == 'dup':
            a = f['a'] % n
            l = min(f['l'], n - a)
            if l < 1:
                continue
            s.b = s.b[:a + l] + s.b[a:a + l] + s.b[a + l:]
            s.ok = False
            if a + l < head_len(s.rec):
                s.head_ok = False
        elif k == 'ins':
            a = f['a'] % n
            if f['l'] < 1:
                continue
            s.b = s.b[:a] + filler(f, f['l'], sync) + s.b[a:]
            s.ok = False
            if a < head_len(s.rec):
                s.head_ok = False
        elif k == 'junk':
            if f['l'] < 1:
                continue
            segs.insert(i, Seg(filler(f, f['l'], sync), None, False, False))
        elif k == 'lose':
            del segs[i:i + f['l']]
        elif k == 'rep':
            for q in reversed(segs[i:i + f['l']]):
                segs.insert(i + f['l'], Seg(q.b, q.rec, q.ok, q.head_ok))
        elif k == 'swap':
            if i + 1 < len(segs) and segs[i + 1].rec is not None:
                segs[i], segs[i + 1] = segs[i + 1], segs[i]
        st.fault('link_' + k)
    return segs
