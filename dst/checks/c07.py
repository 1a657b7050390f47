"""C07: the Signature index cache never changes what a read returns."""
import os
import shutil

from .. import sg_enc as S
from ..compare import dataset_diff
from ..core import call, exc_str, quiet, violated
from ..rng import Rng
from ..sched import Sched
from ..simio import SimFS, Procs, Crash
from . import c05

ID = 'C07'
RUNS = {'quick': 700, 'thorough': 16000}
RULE = ('a run = one history of a Signature recording and its index file (reads with the cache, crashes and '
        'write faults inside the cache update, growth, truncation, replacement, foreign or damaged index '
        'files, clock steps, a second reader or the recorder running between any two file operations); every '
        'read is compared with a read of the same bytes elsewhere without any cache; non-trivial = at least '
        'two reads were compared; distinct = distinct scenario')
STATES = 'distinct (previous step, step, index present, fault fired) tuples'
REAL = c05.REAL
STUB = ['the instrument (independent encoder)', 'file operations (fault injection, scheduling)',
        'modification times of the recording (simulated clock)', 'the second process (a thread scheduled '
        'between file operations)']
KEEP = ('t0', 'dseed', 'mat', 'model', 'serial', 'seed')
ASSUME = ['a recording replaced by another one of exactly the same size gets a different modification time']


def generate(rng, tier, i):
    cfgs = []
    for _ in range(rng.pick([1, 1, 2])):
        c = S.gen_cfg(rng)
        c.update(nc=min(c['nc'], 6), nburst=0 if rng.flip(.7) else c['nburst'])
        cfgs.append(c)
    steps = []
    for _ in range(rng.randrange(2, 9)):
        k = rng.weighted([('read', 8), ('fault', 7), ('append', 5), ('trunc', 2), ('replace', 2),
                          ('index', 3), ('pair', 3), ('grow_read', 2)])
        if k == 'read':
            steps.append([k, int(rng.flip(.1)), rng.pick([0, 0, 0, 1])])
        elif k == 'fault':
            steps.append([k, rng.pick(['crash', 'crash', 'eio', 'nospace', 'nocreate', 'short']),
                          rng.weighted([(rng.randrange(1, 4), 4), (rng.randrange(4, 9), 1)]), rng.randrange(3000)])
        elif k == 'append':
            steps.append([k, rng.randrange(0, 12), rng.weighted([(0, 2), (rng.randrange(400), 2)]), rng.randrange(4)])
        elif k == 'trunc':
            steps.append([k, rng.randrange(0, 12), rng.randrange(400), rng.randrange(4)])
        elif k == 'replace':
            steps.append([k, rng.randrange(len(cfgs)), rng.randrange(1, 30), rng.randrange(2 ** 31), int(rng.flip(.4)),
                          rng.randrange(4)])
        elif k == 'index':
            steps.append([k, rng.pick(['empty', 'prefix', 'garbage', 'v1', 'old', 'swap', 'bitflip', 'foreign']),
                          rng.randrange(2 ** 31)])
        elif k == 'pair':
            steps.append([k, rng.randrange(2 ** 31), rng.pick(['', '', 'crash', 'nospace']), rng.randrange(1, 8),
                          rng.randrange(3000)])
        else:
            steps.append([k, rng.randrange(1, 8), rng.randrange(0, 300), rng.randrange(40)])
    steps.append(['read', 0, 0])
    return {'cfgs': cfgs, 'n': rng.randrange(2, 25), 'dseed': rng.randrange(2 ** 31), 'steps': steps}


LEN = {'read': 3, 'fault': 4, 'append': 4, 'trunc': 4, 'replace': 6, 'index': 3, 'pair': 5, 'grow_read': 4}


def legal(scn):
    return scn['cfgs'] and all(S.legal(c) for c in scn['cfgs']) and scn['n'] >= 1 and scn['steps'] and all(
        s and s[0] in LEN and len(s) == LEN[s[0]] for s in scn['steps'])


def candidates(scn):
    from ..core import candidates as gen
    for c in gen(scn, KEEP):
        if all(s and s[0] in LEN and len(s) == LEN[s[0]] for s in c['steps']):
            yield c


class World(object):
    def __init__(self, scn, st, d):
        self.st = st
        self.d = d + '/data'
        self.cold = d + '/cold'
        os.mkdir(self.d)
        self.p = self.d + '/rec.ad2cp'
        self.clock = 1_600_000_000_000_000_000
        self.cfg = scn['cfgs'][0]
        self.dseed = scn['dseed']
        self.tail = b''
        self.recs = self.make(scn['n'])
        self.ref = {}
        self.nread = 0
        self.write(0)

    def make(self, n):
        return S.deployment(self.cfg, n, self.dseed)

    def bytes(self):
        return b''.join(r.b for r in self.recs) + self.tail

    def write(self, step):
        """Store the present content; the clock of the machine that writes may
        stand still, run or step back."""
        b = self.bytes()
        same = os.path.exists(self.p) and os.path.getsize(self.p) == len(b)
        self.clock += [1_000_000_000, 0, 1, -86400_000_000_000][step]
        if step == 3:
            self.st.fault('clock_step_back')
        if step == 1:
            if same:
                self.clock += 1000
            else:
                self.st.fault('clock_too_coarse')
        with open(self.p, 'wb') as f:
            f.write(b)
        os.utime(self.p, ns=(self.clock, self.clock))

    def reference(self):
        import dolfyn
        b = self.bytes()
        key = hash(b)
        if key not in self.ref:
            shutil.rmtree(self.cold, ignore_errors=True)
            os.mkdir(self.cold)
            p = self.cold + '/rec.ad2cp'
            with open(p, 'wb') as f:
                f.write(b)
            self.ref[key] = call(dolfyn.read, p)
        return self.ref[key]

    def compare(self, got, what, may_fail=False):
        r, ref = self.reference()
        g, ds = got
        self.st.event(what, g, exc_str(ds) if g == 'exc' else sizes(ds))
        if g == 'exc':
            if r == 'ok' and not may_fail:
                violated('read_failed', '%s failed (%s), a read of the same content without an index succeeds' % (
                    what, exc_str(ds)))
            return
        self.nread += 1
        if r == 'exc':
            violated('differs', '%s returned a dataset, a read of the same content without an index fails: %s' % (
                what, exc_str(ref)))
        df = diff(ref, ds)
        if df:
            violated('differs', '%s: (first: without index, second: this read) %s' % (what, df))


def sizes(ds):
    return [int(d.sizes[k]) for d in (ds if isinstance(ds, tuple) else (ds,)) for k in sorted(d.sizes)]


def diff(a, b):
    if isinstance(a, tuple) != isinstance(b, tuple):
        return 'one dataset and two datasets'
    if isinstance(a, tuple):
        return dataset_diff(a[0], b[0]) or dataset_diff(a[1], b[1])
    return dataset_diff(a, b)


def execute(scn, st, d):
    import dolfyn
    if not legal(scn):
        return
    w = World(scn, st, d)
    ix = w.p + '.index'
    prev = ''
    for n, s in enumerate(scn['steps']):
        k = s[0]
        st.state(prev, k, s[1] if k in ('fault', 'index') else '', os.path.exists(ix))
        prev = k
        nm = 'step %d (%s)' % (n, k)
        if k == 'read':
            kw = {'rebuild_index': True} if s[1] else {}
            if s[2]:                # another spelling of the same path
                cwd = os.getcwd()
                os.chdir(w.d)
                try:
                    got = call(dolfyn.read, 'rec.ad2cp', **kw)
                finally:
                    os.chdir(cwd)
            else:
                got = call(dolfyn.read, w.p, **kw)
            w.compare(got, nm)
        elif k == 'fault':
            kind = s[1]
            plan = {'crash': {'crash_at': s[2], 'torn': s[3]}, 'eio': {'fail': {str(s[2] + s[3] % 40): 5}},
                    'nospace': {'capacity': s[3]}, 'nocreate': {'nocreate': True}, 'short': {'short': s[3]}}[kind]
            fs = SimFS(w.d, plan, st)
            died = False
            try:
                with fs:
                    got = call(dolfyn.read, w.p)
            except Crash:
                died = True
            fs.close_all()
            if kind == 'short':
                st.fault('short_reads')
            if not died:
                w.compare(got, nm + ' ' + kind, may_fail=kind == 'eio')
            else:
                st.event(nm, 'died')
        elif k == 'append':
            m = max((r.e for r in w.recs if r.e is not None), default=0) + 1
            w.recs = S.deployment(w.cfg, m + s[1], w.dseed)
            w.tail = w.recs.pop().b[:s[2]] if s[2] and len(w.recs) > 2 else b''
            st.fault('recording_grew')
            w.write(s[3])
        elif k == 'trunc':
            w.recs = w.recs[:max(1, len(w.recs) - 1 - s[1])]
            r = S.deployment(w.cfg, 60, w.dseed)
            if s[2] and len(r) > len(w.recs):
                w.tail = r[len(w.recs)].b[:s[2] % len(r[len(w.recs)].b)]
            else:
                w.tail = b''
            st.fault('recording_truncated')
            w.write(s[3])
        elif k == 'replace':
            if s[4]:                # same layout and size, other data
                w.dseed = s[3]
                m = len(w.recs)
                w.recs = w.make(max(m, 1))[:m]
            else:
                w.cfg = scn['cfgs'][s[1] % len(scn['cfgs'])]
                w.dseed = s[3]
                w.recs = w.make(s[2])
                w.tail = b''
            st.fault('recording_replaced')
            w.write(s[5])
        elif k == 'index':
            plant(w, ix, s[1], Rng('index', s[2]), scn)
            st.fault('index_' + s[1])
        elif k == 'pair':
            rng = Rng('pair', s[1])
            plan = {'': {}, 'crash': {'crash_at': s[3], 'torn': s[4]}, 'nospace': {'capacity': s[4]}}[s[2]]
            sch = Sched(rng)
            fs1 = SimFS(w.d, {}, st, on_op=sch.point)
            fs2 = SimFS(w.d, plan, st, on_op=sch.point)
            pr = Procs(fs1)

            def second():
                pr.bind(fs2)
                return dolfyn.read(w.p)

            with quiet(), pr:
                res = sch.run([lambda: dolfyn.read(w.p), second])
            fs1.close_all()
            fs2.close_all()
            st.fault('second_reader')
            st.state('pair', tuple(sch.trace[:40]))
            for i, r in enumerate(res):
                if r[0] == 'died' and not isinstance(r[1], Crash):
                    raise r[1]
                if r[0] != 'died':
                    w.compare(r, nm + ' reader %d' % (i + 1))
        elif k == 'grow_read':
            grow_read(w, s, st, nm)
    st.nontrivial = w.nread >= 2
    st.simtime += len(w.recs) * S.dt(w.cfg)


def grow_read(w, s, st, nm):
    """The recorder appends while the file is being read: what is returned is
    a beginning of what is there in the end."""
    import dolfyn
    if w.tail or w.cfg['ids'] in S.DUAL:
        return
    old = c05.ensembles(w.recs)
    m = max((r.e for r in w.recs if r.e is not None), default=-1) + 1
    full = S.deployment(w.cfg, m + s[1], w.dseed)
    if len(full) < len(w.recs):
        return
    more = b''.join(r.b for r in full[len(w.recs):])
    left = [s[3]]

    def on_op(what):
        left[0] -= 1
        if left[0] == 0:
            with open_(w.p, 'ab') as f:
                f.write(more)
            w.clock += 1
            os.utime(w.p, ns=(w.clock, w.clock))
            w.recs = full
            w.tail = b''
            st.fault('recording_grew_while_read')
    from ..simio import _real_open as open_
    fs = SimFS(w.d, {}, st, on_op=on_op)
    with fs:
        got = call(dolfyn.read, w.p)
    fs.close_all()
    ens = c05.ensembles(w.recs)
    if left[0] > 0:
        return w.compare(got, nm)
    g, ds = got
    st.event(nm, g, exc_str(ds) if g == 'exc' else sizes(ds))
    if g == 'exc':
        if len(old) >= 2 and w.reference()[0] == 'ok':
            violated('read_failed', '%s failed: %s' % (nm, exc_str(ds)))
        return
    k = int(ds.time.size)
    if not len(old) - 1 <= k <= len(ens):
        violated('count', '%s: %d ensembles returned, %d were in the file before and %d after' % (
            nm, k, len(old), len(ens)))
    have = set().union(*ens[:k]) if k else set()
    if k and have >= {i for i in w.cfg['ids'] if i != 26} and not (26 in w.cfg['ids'] and 26 not in have):
        c05.check_full(ds, w.cfg, ens[:max(k, len(old))], k)


def plant(w, ix, kind, rng, scn):
    b = b''
    if os.path.exists(ix):
        with open(ix, 'rb') as f:
            b = f.read()
    if kind == 'empty':
        b = b''
    elif kind == 'prefix':
        b = b[:rng.randrange(len(b) + 1)]
    elif kind == 'garbage':
        b = bytes(rng.randrange(256) for _ in range(rng.randrange(200)))
        if rng.flip(.5):
            b = b'Index Ver:' + b
    elif kind == 'bitflip' and b:
        q = bytearray(b)
        q[rng.randrange(len(q))] ^= 1 << rng.randrange(8)
        b = bytes(q)
    elif kind == 'swap' and len(b) > 90:
        p = rng.randrange(30, len(b) - 50)
        b = b[:p] + b[p + 8:p + 16] + b[p:p + 8] + b[p + 16:]
    elif kind == 'v1' and len(b) > 10:
        # the layout of an earlier release
        import struct
        b = b'Index Ver:' + struct.pack('<H', 1) + b[12:]
    elif kind == 'old' and len(b) > 12:
        b = b[12:]
    elif kind == 'foreign':
        import dolfyn
        w2 = w.cold + '_f'
        shutil.rmtree(w2, ignore_errors=True)
        os.mkdir(w2)
        p = w2 + '/rec.ad2cp'
        with open(p, 'wb') as f:
            f.write(b''.join(r.b for r in S.deployment(scn['cfgs'][-1], rng.randrange(1, 20), 5)))
        call(dolfyn.read, p)
        if os.path.exists(p + '.index'):
            with open(p + '.index', 'rb') as f:
                b = f.read()
    with open(ix, 'wb') as f:
        f.write(b)
