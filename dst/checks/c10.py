"""C10: what is read depends on the file only, not on environment or history."""
import errno
import json
import os
import pickle
import shutil
import signal
import sys
import time

from .. import framehist as Q
from .. import recordings as W
from .. import zygote
from ..core import Stats, Violation, legal_candidates, quiet, violated
from ..rng import Rng
from ..sched import Sched
from ..simio import Crash, Procs, SimFS
from . import c09

ID = 'C10'
RUNS = {'quick': 260, 'thorough': 12000}
HANG_S = 40
RULE = ('a run = one to three recordings (some damaged, some with settings files) and a history in one process: reads with '
        'drawn ways of writing the path, time zones, directories, debug settings, short low-level reads and buffers; '
        'reads that fail or are interrupted; changes of returned datasets; threads reading at the same time; every '
        'completed read is compared bit for bit with that of a pristine process with another hash seed, clock, time '
        'zone, directory and other contents of fresh memory; non-trivial = at least two reads compared, at least one '
        'after another step; distinct = distinct scenario')
STATES = 'distinct (instrument, form of the path, time zone, kind of low-level reads, debug, previous step, result) tuples'
REAL = ['dolfyn.read and the readers', 'index cache', 'settings files', 'debug logging', 'xarray', 'numpy', 'C library time zones']
STUB = ['the instruments (independent encoders)', 'low-level reads (SimFS)', 'the real-time clock of the reference process '
        '(interposed clock_gettime)', 'the thread scheduler (cooperative)', 'delivery of interrupts (tracing hook)']
KEEP = W.KEEP + ('seed',)
ASSUME = ['Linux path names', 'a reading thread switches at file operations and source lines of the library']
TZS = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Kiritimati', 'XYZ+11:59', 'Europe/London', 'AAA-14', 'EST5EDT,M3.2.0,M11.1.0']
CLOCKS = [0, 86400 * 365 * 3, -86400 * 365 * 30, 86400 * 365 * 60, 12345, -7777777]
FORMS = ['abs', 'cwd', 'dot', 'home', 'up', 'link', 'double']
NAMES = ['rec', 'my.rec.v1', 'R 1', 'x.000', '\u00e9t\u00e9']
USER = [None, None, '{"declination": 12.5, "who": "me"}', '{"lat": 44.5, "note": "caf\u00e9", "L": [1, 2, [3]], "D": {"a": 1}}',
        '{"inst2head_rotmat": [[1,0,0],[0,0,1],[0,-1,0]], "inst2head_vec": [0, 0, 1]}', '{"a": ']


def gen_opt(rng):
    return {'nens': rng.weighted([(None, 6), (rng.randrange(1, 30), 2), ([rng.randrange(5), rng.randrange(5, 30)], 1)]),
            'userdata': rng.weighted([(True, 5), (False, 1)]), 'check': int(rng.flip(.15)), 'dual': int(rng.flip(.15))}


def gen_env(rng):
    return {'form': rng.pick(FORMS), 'debug': rng.weighted([(0, 3), (1, 1), (2, 1)]),
            'io': rng.weighted([('plain', 3), ('short', 2), ('tiny', 1)]), 's': rng.randrange(10 ** 6), 'index': rng.randrange(2)}


def generate(rng, tier, i):
    fs = []
    for _ in range(rng.weighted([(1, 2), (2, 3), (3, 2)])):
        fs.append({'rec': W.gen(rng, tier, maxn=rng.pick([3, 5, 20]), cut=.3),
                   'muts': [c09.gen_mut(rng) for _ in range(rng.weighted([(0, 3), (1, 1), (3, 1)]))],
                   'user': rng.randrange(len(USER)), 'name': rng.randrange(len(NAMES)), 'noext': int(rng.flip(.15)),
                   'sub': rng.randrange(3)})
    steps = []
    for _ in range(rng.randrange(2, 9)):
        k = rng.weighted([('read', 8), ('fail', 3), ('intr', 1), ('tz', 2), ('cwd', 1), ('threads', 2), ('scribble', 2)])
        if k == 'read':
            steps.append([k, rng.randrange(3), gen_opt(rng), gen_env(rng)])
        elif k == 'fail':
            steps.append([k, rng.randrange(3), gen_opt(rng), gen_env(rng),
                          rng.weighted([(rng.randrange(1, 12), 2), (rng.randrange(1, 400), 2)]), rng.pick(sorted(c09.ERR))])
        elif k == 'intr':
            steps.append([k, rng.randrange(3), gen_opt(rng), gen_env(rng), rng.randrange(1, 5000)])
        elif k == 'tz':
            steps.append([k, rng.randrange(len(TZS))])
        elif k == 'cwd':
            steps.append([k, rng.randrange(4)])
        elif k == 'scribble':
            steps.append([k, rng.randrange(8), rng.randrange(10 ** 6)])
        else:
            steps.append([k, [[rng.randrange(3), gen_opt(rng), gen_env(rng)] for _ in range(rng.randrange(2, 4))],
                          rng.pick([0, 0, 20, 100, 400]), rng.randrange(2 ** 31)])
    steps.append(['read', 0, gen_opt(rng), gen_env(rng)])
    return {'files': fs, 'steps': steps, 'tz': rng.randrange(len(TZS)), 'rtz': rng.randrange(len(TZS)),
            'clock': rng.randrange(len(CLOCKS))}


LEN = {'read': 4, 'fail': 6, 'intr': 5, 'tz': 2, 'cwd': 2, 'threads': 4, 'scribble': 3}


def legal(s):
    return (s['files'] and s['steps'] and all(W.legal(f['rec']) and all(len(m) == 6 and m[5] > 0 for m in f['muts'])
                                              for f in s['files']) and
            all(x and LEN.get(x[0]) == len(x) for x in s['steps']) and
            all(x[1] and all(len(y) == 3 for y in x[1]) for x in s['steps'] if x[0] == 'threads'))


def candidates(scn):
    return legal_candidates(scn, KEEP, legal)


# ------------------------------------------------------------ the reference
_ref = {}


def setup():
    import gc
    import dolfyn       # noqa: F401
    gc.collect()
    gc.freeze()
    _ref['shim'] = zygote.build_shim()
    import atexit
    if _ref['shim']:
        atexit.register(shutil.rmtree, os.path.dirname(_ref['shim']), True)


def reference():
    if _ref.get('pid') != os.getpid():
        _ref['pid'] = os.getpid()
        _ref['it'] = zygote.Reference(_ref.get('shim'), 4242)
    return _ref['it']


def extra_evidence():
    return {'reference_clock': 'shifted by an interposed C library' if _ref.get('shim') else 'not shifted (no compiler)'}


def isolated(fn, st):
    """Runs fn(st) in a fork of this process: what one run leaves behind in
    memory never reaches another one."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        v = ('err', '?')
        try:
            try:
                fn(st)
                v = ('ok', None)
            except Violation as e:
                v = ('viol', (e.kind, e.detail))
            except (KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
                import traceback
                fr = traceback.extract_tb(e.__traceback__)[-1]
                v = ('viol', ('unusable_result', '%s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], fr.filename, fr.lineno)))
            except BaseException:
                import traceback
                v = ('err', traceback.format_exc())
            b = pickle.dumps((v, st))
            with os.fdopen(w, 'wb') as f:
                f.write(b)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            b = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    v, s = pickle.loads(b)
    st.__dict__.update(s.__dict__)
    if v[0] == 'viol':
        violated(*v[1])
    if v[0] == 'err':
        raise RuntimeError(v[1])


# ------------------------------------------------------------------ the run
class World(object):
    def __init__(self, scn, st, d):
        self.scn, self.st, self.d = scn, st, d
        self.files = []
        os.mkdir(d + '/home')
        for i, f in enumerate(scn['files']):
            w = W.Recording(f['rec'])
            b = c09.mutate(w.b, w.recs, f['muts'], st)
            sub = ['', 'home', 'a.b/c'][f['sub'] % 3]
            os.makedirs(d + '/' + sub, exist_ok=True)
            nm = '%d%s' % (i, NAMES[f['name'] % len(NAMES)])
            p = (d + '/' + sub + '/' if sub else d + '/') + nm + ('' if f['noext'] else '.' + w.ext)
            with open(p, 'wb') as q:
                q.write(b)
            if USER[f['user'] % len(USER)]:
                with open((p if f['noext'] else p[:-1 - len(w.ext)]) + '.userdata.json', 'w', encoding='utf-8') as q:
                    q.write(USER[f['user'] % len(USER)])
            fam = {b'\xa5\x0a': 'sg', b'\xa5\x05': 'nk', b'\x7f\x7f': 'rdi', b'\x7f\x79': 'rdi'}.get(b[:2], w.fam)
            self.files.append((p, fam, w))
            st.simtime += w.seconds()
        # settings files nobody asked for
        for x in ('', 'home', 'a.b', 'a'):
            if os.path.isdir(d + '/' + x):
                with open(os.path.join(d, x, '.userdata.json'), 'w') as q:
                    q.write('{"stray": 1}')
        for x in ('a', '.', ''):
            with open(d + '/' + x + '.userdata.json', 'w') as q:
                q.write('{"stray": 1}')
        self.refdir = d + '.ref'
        shutil.rmtree(self.refdir, ignore_errors=True)
        shutil.copytree(d, self.refdir)
        self.cache = {}
        self.kept = []
        self.cwd = d
        self.prev = 'start'
        self.n = 0

    def kw(self, i, o):
        """documented options that change the result"""
        fam = self.files[i][1]
        k = {'userdata': o['userdata'], 'nens': tuple(o['nens']) if isinstance(o['nens'], list) else o['nens']}
        if fam == 'rdi' and isinstance(k['nens'], tuple):
            k['nens'] = k['nens'][1]
        if fam == 'nk' and o['check']:
            k['do_checksum'] = True
        if fam == 'sg' and o['dual']:
            k['dual_profile'] = True
        return k

    def reference(self, i, o):
        k = self.kw(i, o)
        key = json.dumps([i, sorted(k.items(), key=str)], default=str)
        if key not in self.cache:
            p = self.refdir + self.files[i][0][len(self.d):]
            self.cache[key] = _ref['it'].ask({
                'path': os.fsencode(p), 'kw': k, 'tz': TZS[self.scn['rtz'] % len(TZS)],
                'offset': CLOCKS[self.scn['clock'] % len(CLOCKS)], 'cwd': '/'})
            if self.cache[key][0] in ('harness', 'died'):
                raise RuntimeError('reference: %s' % (self.cache[key],))
            if os.path.exists(p + '.index'):
                os.unlink(p + '.index')
        return self.cache[key]

    def path(self, i, form):
        p = self.files[i][0]
        if form == 'cwd':
            return os.path.relpath(p, self.cwd)
        if form == 'dot':
            return './' + os.path.relpath(p, self.cwd)
        if form == 'home':
            return '~/' + os.path.relpath(p, self.d + '/home')
        if form == 'up':
            return os.path.dirname(p) + '/../' + os.path.relpath(p, os.path.dirname(os.path.dirname(p)))
        if form == 'link':
            if not os.path.exists(self.d + '/l.n'):
                os.symlink(self.d, self.d + '/l.n')
            return self.d + '/l.n' + p[len(self.d):]
        if form == 'double':
            return os.path.dirname(p) + '//./' + os.path.basename(p)
        return p

    def reader(self, i, o, e):
        import dolfyn
        k = self.kw(i, o)
        p = self.path(i, e['form'])
        fam = self.files[i][1]
        if e['debug']:
            if fam == 'rdi':
                k['debug_level'] = e['debug']
            else:
                k['debug'] = True
        if fam == 'sg' and e['index']:
            k['rebuild_index'] = True
        return lambda: dolfyn.read(p, **k)

    def plan(self, e):
        if e['io'] == 'short':
            return {'short': e['s']}
        if e['io'] == 'tiny':
            return {'short': e['s'], 'bufsize': 1 + e['s'] % 64}
        return {}

    def check(self, what, i, o, e, got, keep):
        r, want = self.reference(i, o)
        g, v = got
        fam = self.files[i][1]
        self.n += 1
        self.st.event(what, g, v if g == 'exc' else [sorted(x['vars']) for x in v])
        self.st.state(fam, e['form'], os.environ.get('TZ'), e['io'], e['debug'], self.prev, g)
        self.st.probe('result_' + g)
        desc = '%s of file %d (%s) as %r, options %s, %s, TZ %s, in %s' % (
            what, i, fam, self.path(i, e['form']), o, e, os.environ.get('TZ'), self.cwd)
        if (g, r) == ('exc', 'exc'):
            if v != want:
                violated('differs', '%s fails with %s, in a pristine process with %s' % (desc, v, want))
            return
        if g != r:
            violated('differs', '%s %s, in a pristine process it %s' % (
                desc, 'fails with %s' % v if g == 'exc' else 'succeeds', 'succeeds' if g == 'exc' else 'fails with %s' % want))
        if len(v) != len(want):
            violated('differs', '%s returns %d datasets, in a pristine process %d' % (desc, len(v), len(want)))
        for a, b in zip(want, v):
            df = Q.differs(a, b)
            if df:
                violated('differs', '%s: (first: pristine process, second: this read) %s' % (desc, df))
        if keep is not None:
            ds = keep if isinstance(keep, tuple) else (keep,)
            self.kept.append([desc, ds, v])

    def outcome(self, fn):
        box = []

        def f():
            r = fn()
            box.append(r)
            return r
        return zygote.outcome(f), box[0] if box else None


def scribble(ds, rng):
    """Whatever a user may do with what was returned."""
    for x in ds:
        for nm in list(x.variables):
            v = x.variables[nm]
            try:
                a = v.values
                if a.dtype.kind in 'fiu' and a.size and a.flags.writeable:
                    a[...] = rng.randrange(100)
            except (ValueError, TypeError):
                pass
            v.attrs['scribble'] = 1
            v.attrs.pop('units', None)
            v.encoding['scribble'] = 1
        wreck(x.attrs)


def wreck(a):
    for k in list(a):
        if isinstance(a[k], dict):
            wreck(a[k])
        elif isinstance(a[k], list):
            a[k].append('scribble')
        elif hasattr(a[k], 'fill'):
            try:
                a[k].fill(7)
            except (ValueError, TypeError):
                pass
    a['scribble'] = 1


def execute(scn, st, d):
    if not legal(scn):
        return
    reference()
    try:
        isolated(lambda s: inside(scn, s, d), st)
    finally:
        shutil.rmtree(d + '.ref', ignore_errors=True)
        time.tzset()


def inside(scn, st, d):
    import dolfyn       # noqa: F401
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(HANG_S)
    d = os.path.realpath(d)
    w = World(scn, st, d)
    os.environ['HOME'] = d + '/home'
    os.chdir(d)
    settz(scn['tz'])
    nf = len(w.files)
    for q, s in enumerate(scn['steps']):
        k = s[0]
        if k == 'tz':
            settz(s[1])
            st.fault('time_zone_change')
        elif k == 'cwd':
            w.cwd = [d, d + '/home', '/', os.path.dirname(w.files[0][0])][s[1] % 4]
            os.chdir(w.cwd)
            st.fault('directory_change')
        elif k == 'scribble':
            if w.kept:
                x = w.kept.pop(s[1] % len(w.kept))
                scribble(x[1], Rng('scribble', s[2]))
                st.fault('dataset_overwritten')
        elif k == 'read':
            i = s[1] % nf
            with quiet(), SimFS(d, w.plan(s[3]), st):
                got, ds = w.outcome(w.reader(i, s[2], s[3]))
            w.check('step %d: read' % q, i, s[2], s[3], got, ds)
        elif k == 'fail':
            i = s[1] % nf
            with quiet(), SimFS(d, {'fail': {s[4]: c09.ERR[s[5]]}}, st):
                got, ds = w.outcome(w.reader(i, s[2], s[3]))
            st.event('fail', got[0], got[1] if got[0] == 'exc' else '')
        elif k == 'intr':
            i = s[1] % nf
            tr = c09.Lines(10 ** 9, s[4])
            with quiet(), SimFS(d, {}, st):
                sys.settrace(tr.glob)
                try:
                    w.reader(i, s[2], s[3])()
                except (KeyboardInterrupt, Exception):
                    pass
                finally:
                    sys.settrace(None)
            if tr.fired:
                st.fault('interrupt')
            st.event('intr', tr.fired)
        else:
            jobs = [(x[0] % nf, x[1], x[2]) for x in s[1]]
            sc = Sched(Rng('sched', s[3]), lines=s[2])
            srng = Rng('ops', s[3])
            rate = srng.pick([.003, .02, .2])

            def point(what):
                if what.startswith('open') or srng.flip(rate):
                    sc.point()
            pr = Procs(SimFS(d, {}, st))
            outs = [None] * len(jobs)

            def task(n, i, o, e):
                def go():
                    pr.bind(SimFS(d, w.plan(e), st, on_op=point))
                    outs[n] = w.outcome(w.reader(i, o, e))
                return go
            with quiet(), pr:
                res = sc.run([task(n, *j) for n, j in enumerate(jobs)])
            for n, (i, o, e) in enumerate(jobs):
                if res[n][0] != 'ok':
                    raise RuntimeError('thread %d: %r' % (n, res[n]))
                w.check('step %d: read of thread %d of %d' % (q, n, len(jobs)), i, o, e, *outs[n])
            st.probe('thread_switches', sc.switches)
            st.event('switches', sc.switches, tuple(sc.trace[:100]))
        w.prev = k
    for desc, ds, v in w.kept:
        for x, y in zip(ds, v):
            df = Q.differs(y, x)
            if df:
                violated('changed_later', 'the dataset of %s was changed by what followed: %s' % (desc, df))
    st.nontrivial = w.n > 1


def settz(i):
    os.environ['TZ'] = TZS[i % len(TZS)]
    time.tzset()
