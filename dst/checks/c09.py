"""C09: any bytes: bounded work, bounded memory, nothing left behind."""
import errno
import gc
import json
import os
import resource
import sys
import weakref

from .. import faultpoint as P
from .. import recordings as W
from ..core import Hang, legal_candidates, quiet, violated
from ..rng import Rng
from ..simio import Crash, SimFS, StepBudget

ID = 'C09'
RUNS = {'quick': 500, 'thorough': 40000}
HANG_S = 25
RULE = ('a run = one file of drawn bytes (damaged recordings, pieces of several, repeated patterns, noise behind a valid '
        'beginning) read one to three times with drawn options and faults (I/O errors, short reads, missing permissions, '
        'full disk, interrupts); every read must end within a number of executed source lines, file operations and '
        'bytes of memory bounded by a multiple of the file size, leave no file open and no other file touched; '
        'non-trivial = at least one byte of a recording was damaged or one fault was delivered; distinct = distinct scenario')
STATES = 'distinct (instrument, form of the file, options, fault, kind of result) tuples'
REAL = ['dolfyn.read, read_rdi, read_nortek, read_signature and the readers', 'index cache', 'debug logging', 'xarray', 'numpy']
STUB = ['the instruments (independent encoders)', 'file system errors (SimFS over a scratch directory)',
        'delivery of interrupts (tracing hook of the interpreter)']
KEEP = W.KEEP
ASSUME = ['proportional: at most 300 thousand source lines and 80 per byte (640 in files filled with record marks), 96 MB and 6 kB per byte',
          'a reader that was interrupted may keep its file open until its frames are gone, and one that was '
          'interrupted while cleaning up may leave the log configured']
LINES = (300_000, 80)
MEM = (96 << 20, 6000)
OPS = (20_000, 8)
FORMS = [('mut', 8), ('cat', 2), ('head', 2), ('noise', 2), ('pattern', 2), ('tile', 2), ('plain', 1)]
MAGIC = [b'\x7f\x7f', b'\x7f\x79', b'\xa5\x0a', b'\xa5\x05', b'']
ERR = {'EIO': errno.EIO, 'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE, 'EINTR': errno.EINTR, 'ENOSPC': errno.ENOSPC}


def gen_mut(rng):
    k = rng.weighted([('u8', 4), ('u16', 4), ('u32', 2), ('del', 2), ('rep', 1), ('ins', 2), ('fill', 2), ('end', 1)])
    v = rng.weighted([(0, 2), (255, 1), (65535, 2), (0xffffffff, 1), (0x7fffffff, 1), (1, 1), (rng.randrange(2 ** 32), 4)])
    where = rng.weighted([('start', 4), ('rec', 5), ('any', 3)])
    return [k, where, rng.randrange(2 ** 31), rng.randrange(120), v, rng.weighted([(1, 3), (rng.randrange(1, 30), 3),
                                                                                (rng.randrange(1, 2000), 1)])]


def generate(rng, tier, i):
    s = {'form': rng.weighted(FORMS), 'rec': W.gen(rng, tier, maxn=rng.pick([6, 25]), cut=.3)}
    s['rec2'] = W.gen(rng, tier, maxn=6, cut=.3) if s['form'] == 'cat' else None
    s['muts'] = [gen_mut(rng) for _ in range(0 if s['form'] == 'plain' else rng.weighted(
        [(1, 4), (2, 3), (3, 2), (rng.randrange(4, 20), 2)]))]
    s['magic'] = rng.randrange(4)
    s['len'] = rng.weighted([(rng.randrange(0, 12), 2), (rng.randrange(3000), 3), (rng.randrange(200000), 1)])
    s['seed'] = rng.randrange(2 ** 31)
    s['reads'] = []
    for _ in range(rng.weighted([(1, 3), (2, 2), (3, 1)])):
        o = {'fn': rng.weighted([('read', 4), ('own', 2)]), 'nens': rng.weighted([
            (None, 6), (rng.randrange(30), 1), ([rng.randrange(8), rng.randrange(40)], 1), (10 ** 6, .3)]),
            'debug': int(rng.flip(.2)), 'check': int(rng.flip(.2)), 'rebuild': int(rng.flip(.2)),
            'dual': int(rng.flip(.1)), 'user': rng.weighted([(None, 4), ('{"a": 1}', 1), ('{"a": 1', 1), ('[]', 1),
                                                            ('\xff', .5)])}
        f = {'kind': rng.weighted([(None, 5), ('fail', 3), ('short', 1.5), ('nocreate', .7), ('full', .7), ('intr', 1)]),
             'n': rng.weighted([(rng.randrange(1, 12), 2), (rng.randrange(1, 400), 2)]),
             'e': rng.pick(sorted(ERR)), 'frac': rng.randrange(10 ** 6)}
        s['reads'].append({'opt': o, 'flt': f})
    return s


def legal(s):
    return (W.legal(s['rec']) and (s['form'] != 'cat' or s['rec2'] and W.legal(s['rec2'])) and s['reads'] and
            s['form'] in dict(FORMS) and all(len(m) == 6 and m[5] > 0 for m in s['muts']) and s['len'] >= 0 and
            all(r['flt']['e'] in ERR and r['flt']['n'] > 0 for r in s['reads']))


def candidates(scn):
    return legal_candidates(scn, KEEP + ('seed',), legal)


def mutate(b, recs, muts, st):
    b = bytearray(b)
    starts = [0]
    for r in recs:
        starts.append(starts[-1] + len(r.b))
    for k, where, s, off, v, n in muts:
        if not b:
            break
        if where == 'start':
            p = s % min(len(b), 700)
        elif where == 'rec':
            p = starts[s % len(starts)] + off
        else:
            p = s % len(b)
        p = min(p, len(b) - 1)
        if k in ('u8', 'u16', 'u32'):
            w = int(k[1:]) // 8
            b[p:p + w] = (v % (1 << 8 * w)).to_bytes(w, 'little')
        elif k == 'del':
            del b[p:p + n]
        elif k == 'rep':
            b[p:p] = b[p:p + n]
        elif k == 'ins':
            b[p:p] = bytes(Rng('ins', s).randrange(256) for _ in range(n))
        elif k == 'fill':
            b[p:p + n] = bytes([v % 256]) * len(b[p:p + n])
        elif k == 'end':
            del b[p:]
        st.fault('damage_' + k)
    return bytes(b)


def build(s, st):
    w = W.Recording(s['rec'])
    f = s['form']
    r = Rng('bytes', s['seed'])
    ext = w.ext
    if f == 'plain':
        return w.b, ext, w.fam
    if f == 'cat':
        x = W.Recording(s['rec2'])
        return mutate(w.b + x.b, w.recs + x.recs, s['muts'], st), ext, w.fam
    if f == 'head':
        return w.b[:s['len']], ext, w.fam
    if f == 'noise':
        n = min(s['len'], 20000)
        k = r.randrange(3)
        h = MAGIC[s['magic']] if k else w.b[:sum(len(x.b) for x in w.recs[:2])]
        return h + bytes(r.randrange(256) for _ in range(n)), ext, w.fam
    if f == 'pattern':
        k = r.randrange(3)
        h = MAGIC[s['magic']] if k == 0 else w.b[:sum(len(x.b) for x in w.recs[:2 + r.randrange(6)])]
        pat = [MAGIC[s['magic']], b'\0', b'\xff', w.b[:16], bytes(r.randrange(256) for _ in range(1 + r.randrange(40))),
               b'\x7f\x7f\x06\x00\x00\x00', b'\xa5\x0a\x0a\x15\x00\x00'][r.randrange(7)] or b'\0'
        return h + (pat * (s['len'] // len(pat) + 1))[:s['len']], ext, w.fam
    if f == 'tile':
        n = max(1, min(12, 150000 // max(1, len(w.b))))
        return mutate(w.b * n, w.recs * n, s['muts'], st), ext, w.fam
    return mutate(w.b, w.recs, s['muts'], st), ext, w.fam


class Lines(object):
    """Bound on the executed lines of the library (and the interrupt)."""

    def __init__(self, limit, at=None):
        self.n, self.limit, self.at, self.fired = 0, limit, at, None
        self.unwinding = False

    def glob(self, frame, ev, arg):
        return self.local if '/dolfyn/' in frame.f_code.co_filename else None

    def local(self, frame, ev, arg):
        if ev == 'exception':
            self.unwinding = True
        if ev == 'line':
            self.n += 1
            free, self.unwinding = not self.unwinding, False
            if self.at and self.n >= self.at and not self.fired and free and sys.exc_info()[1] is None:
                self.fired = '%s:%d' % (frame.f_code.co_filename.split('/')[-1], frame.f_lineno)
                raise KeyboardInterrupt('injected')
            if self.n > self.limit:
                raise StepBudget('%d source lines' % self.n)
        return self.local


def call(fn, tr, fs, mem):
    """The process may only grow by so much meanwhile."""
    with open('/proc/self/statm') as f:
        vm = int(f.read().split()[0]) * resource.getpagesize()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    with quiet(), fs:
        resource.setrlimit(resource.RLIMIT_AS, (vm + mem, hard))
        sys.settrace(tr.glob)
        try:
            return 'ok', fn()
        except (Hang, StepBudget, Crash):
            raise
        except BaseException as e:
            return 'exc', e
        finally:
            sys.settrace(None)
            resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


def listing(d):
    out = {}
    for nm in sorted(os.listdir(d)):
        with open(d + '/' + nm, 'rb') as f:
            out[nm] = f.read()
    return out


def fds():
    out = []
    for x in os.listdir('/proc/self/fd'):
        try:
            out.append(os.readlink('/proc/self/fd/' + x))
        except OSError:
            pass
    return out


def go(dolfyn, p, fam, o, handle=None):
    k = {'nens': tuple(o['nens']) if isinstance(o['nens'], list) else o['nens']}
    if fam == 'rdi':
        if isinstance(k['nens'], tuple):
            k['nens'] = k['nens'][1]
        if o['debug']:
            k['debug_level'] = 1 + o['check']
        own = dolfyn.io.rdi.read_rdi
    elif fam == 'nk':
        k.update(debug=bool(o['debug']), do_checksum=bool(o['check']))
        own = dolfyn.io.nortek.read_nortek
    else:
        k.update(debug=bool(o['debug']), rebuild_index=bool(o['rebuild']), dual_profile=bool(o['dual']))
        own = dolfyn.io.nortek2.read_signature
    return (own if o['fn'] == 'own' else dolfyn.read)(p, **k)


def execute(scn, st, d):
    import logging
    import dolfyn
    if not legal(scn):
        return
    b, ext, fam = build(scn, st)
    p = d + '/rec.' + ext
    with open(p, 'wb') as f:
        f.write(b)
    with open(d + '/other.' + ext, 'wb') as f:
        f.write(b[:100])
    with open(d + '/rec.index', 'wb') as f:
        f.write(b'precious')
    if b:
        fam = {b'\xa5\x0a': 'sg', b'\xa5\x05': 'nk', b'\x7f\x7f': 'rdi', b'\x7f\x79': 'rdi'}.get(b[:2], fam)
    for q, rd in enumerate(scn['reads']):
        o, fl = rd['opt'], rd['flt']
        u = d + '/rec.userdata.json'
        if o['user'] is not None:
            with open(u, 'w', encoding='latin-1') as f:
                f.write(o['user'])
        elif os.path.exists(u):
            os.unlink(u)
        before = listing(d)
        lim = LINES[0] + LINES[1] * len(b) * (8 if scn['form'] == 'pattern' else 1)
        mem = MEM[0] + MEM[1] * len(b)
        plan = {'budget': OPS[0] + OPS[1] * len(b) * (8 if scn['form'] == 'pattern' else 1)}
        k = fl['kind']
        if k == 'fail':
            plan['fail'] = {fl['n']: ERR[fl['e']]}
        elif k == 'short':
            plan['short'] = fl['frac']
        elif k == 'nocreate':
            plan['nocreate'] = True
        elif k == 'full':
            plan['capacity'] = fl['n']
        at = None
        if k == 'intr':
            t = Lines(lim)
            e = call(lambda: go(dolfyn, p, fam, o), t, SimFS(d), mem)
            del e
            gc.collect()
            at = 1 + fl['frac'] % max(1, t.n)
            for nm in sorted(set(listing(d)) - set(before)):
                os.unlink(d + '/' + nm)
        fs = SimFS(d, plan, st)
        tr = Lines(lim, at)
        f0 = sorted(fds())
        h0 = list(logging.root.handlers)
        what = 'read %d (%s, %s, %d bytes, options %s, fault %s)' % (q, fam, scn['form'], len(b), json.dumps(o), fl if k else None)
        try:
            r, v = call(lambda: go(dolfyn, p, fam, o), tr, fs, mem)
        except StepBudget as e:
            violated('unbounded_work', '%s is not finished after %s' % (what, e))
        st.event('read', r, type(v).__name__, tr.n, fs.n, k and (tr.fired or ''))
        if tr.fired:
            st.fault('interrupt')
        err = type(v).__name__ if r == 'exc' else 'ok'
        if err in ('MemoryError', '_ArrayMemoryError'):
            violated('unbounded_memory', '%s needs more than %d MB' % (what, mem >> 20))
        if r == 'ok' and not (isinstance(v, tuple) or hasattr(v, 'data_vars')):
            violated('result', '%s returned a %s' % (what, type(v).__name__))
        lk = fs.leaked()
        if tr.fired:
            logging.root.handlers[:] = h0       # (interrupted while cleaning up)
            refs = [weakref.ref(x) for x in fs.opens if not x.closed]
            fs.opens = v = None
            gc.collect()
            lk = [x().simpath for x in refs if x() is not None]
        if lk:
            violated('open_file', '%s left %s open (%s)' % (what, sorted(set(x[len(d) + 1:] for x in lk)), err))
        f1 = sorted(fds())
        if f1 != f0 and not tr.fired:
            violated('open_file', '%s left files open: %s (%s)' % (what, sorted(set(f1) - set(f0)), err))
        if fs.log:
            violated('other_file', '%s tried to write elsewhere: %s' % (what, fs.log[0]))
        after = listing(d)
        free = {'rec.dolfyn.log'} if o['debug'] else set()
        if fam == 'sg':
            free |= {x for x in set(after) | set(before) if x.startswith('rec.' + ext + '.index')}
        for nm in sorted((set(after) | set(before)) - free):
            if after.get(nm) != before.get(nm):
                violated('other_file', '%s %s %s' % (what, 'created' if nm not in before else 'removed' if nm not in after
                                                     else 'changed', nm))
        hs = [h for h in logging.root.handlers if h not in h0 and type(h) is not logging.StreamHandler]
        if hs:
            violated('open_file', '%s left the handlers of the log changed: %s (%s)' % (what, logging.root.handlers, err))
        st.state(fam, scn['form'], o['fn'], bool(o['debug']), o['nens'] is None, k, fl['e'] if k == 'fail' else '', err)
        st.probe('lines_per_byte_max_%d' % min(9, tr.n // (40 * max(len(b), 100))))
        st.probe('ended_' + ('dataset' if r == 'ok' else 'exception'))
        v = None
        logging.root.handlers[:] = h0
    st.nontrivial = bool(scn['muts'] or any(x['flt']['kind'] for x in scn['reads']))
