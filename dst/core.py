"""Seed search, minimisation, replay and evidence for all checks."""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import logging
import os
import resource
import shutil
import signal
import sys
import tempfile
import time as _time
import traceback
import warnings

from .rng import Rng, derive

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WALL_CAP = {'quick': 420.0, 'thorough': 3000.0}
HANG_S = 25


class Hang(BaseException):
    pass


class Stats(object):
    """What a run did: counters only ever added, so merging commutes."""

    def __init__(self):
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.simtime = 0.0
        self.states = set()
        self.events = []
        self.nontrivial = False

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *parts):
        h = hashlib.blake2b(repr(parts).encode(), digest_size=6).hexdigest()
        self.states.add(h)

    def event(self, *parts):
        self.events.append(parts)

    def digest(self):
        return hashlib.sha256(repr(self.events).encode()).hexdigest()[:16]


class Violation(Exception):
    def __init__(self, kind, detail):
        Exception.__init__(self, kind, detail)
        self.kind = kind
        self.detail = detail


def violated(kind, detail):
    raise Violation(kind, detail)


@contextlib.contextmanager
def quiet():
    """dolfyn prints progress and warns; neither is under test."""
    so = sys.stdout
    sys.stdout = io.StringIO()
    logging.disable(logging.CRITICAL)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        sys.stdout = so
        logging.disable(logging.NOTSET)


def call(fn, *a, **k):
    """('ok', value) or ('exc', exception): never mixes the code's own errors
    with the harness's."""
    from .simio import Crash, StepBudget
    try:
        with quiet():
            return 'ok', fn(*a, **k)
    except (Hang, KeyboardInterrupt):
        raise
    except StepBudget as e:
        raise Violation('unbounded_work', str(e))
    except Crash:
        raise
    except BaseException as e:
        return 'exc', e


def exc_str(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = ''
    for fr in tb:
        if '/dolfyn/' in fr.filename:
            loc = '%s:%s' % (fr.filename.split('/repo/')[-1], fr.name)
    msg = str(e) if _SCRATCH is None else str(e).replace(_SCRATCH, '$SCRATCH')
    return '%s(%s) in %s' % (type(e).__name__, msg[:120], loc)


_SCRATCH = None


def scratch():
    """A fresh empty directory for one run."""
    global _SCRATCH
    if _SCRATCH is None or not os.path.isdir(_SCRATCH):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _SCRATCH = tempfile.mkdtemp(prefix='dst', dir=base)
    return _SCRATCH


def clean_scratch():
    d = scratch()
    for nm in os.listdir(d):
        p = d + '/' + nm
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)
    return d


def drop_scratch():
    global _SCRATCH
    if _SCRATCH:
        shutil.rmtree(_SCRATCH, ignore_errors=True)
        _SCRATCH = None


def _alarm(sig, frm):
    raise Hang()


def run_one(check, scn):
    """-> (violation dict or None, Stats).  Harness errors propagate."""
    st = Stats()
    cwd = os.getcwd()
    d = clean_scratch()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(check, 'HANG_S', HANG_S))
    v = None
    try:
        try:
            check.execute(scn, st, d)
        except Violation as e:
            v = {'kind': e.kind, 'detail': e.detail}
        except MemoryError:
            v = {'kind': 'unbounded_memory', 'detail': 'the address space limit was reached'}
        except Hang:
            v = {'kind': 'hang', 'detail': 'no result'}
        except (KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            # The oracle could not even evaluate what the code returned
            # (variable missing, wrong shape or type).
            fr = traceback.extract_tb(e.__traceback__)[-1]
            v = {'kind': 'unusable_result',
                 'detail': '%s: %s (%s:%s)' % (type(e).__name__, str(e)[:200], os.path.basename(fr.filename), fr.lineno)}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
    return v, st


def confirm_hang(check, scn, lines=40_000_000):
    """Decide a suspected hang by counting interpreted lines, not seconds."""
    cnt = [0]

    class Budget(BaseException):
        pass

    def tr(frame, ev, arg):
        if '/dolfyn/' not in frame.f_code.co_filename:
            return None
        return tl

    def tl(frame, ev, arg):
        cnt[0] += 1
        if cnt[0] > lines:
            raise Budget()
        return tl
    st = Stats()
    d = clean_scratch()
    sys.settrace(tr)
    try:
        check.execute(scn, st, d)
    except Violation as e:
        return {'kind': e.kind, 'detail': e.detail}
    except Budget:
        return {'kind': 'unbounded_work',
                'detail': 'more than %d source lines executed without a result' % lines}
    finally:
        sys.settrace(None)
    return None


def scn_key(scn):
    return hashlib.sha256(json.dumps(scn, sort_keys=True, default=str).encode()).hexdigest()[:16]


def load_check(pid):
    return importlib.import_module('dst.checks.%s' % pid.lower())


def tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return derive(os.environ['VERIF_SEED']) & 0x7fffffff


# ------------------------------------------------------------------ known
def known_findings(pid):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: property=%s ' % pid):
                rest = ln.split(' ', 2)[2]
                sig, _, txt = rest.partition(' | ')
                out.append((sig.strip(), txt.strip()))
    return out


def match_known(v, known):
    for sig, txt in known:
        if v['kind'] == sig or (v['kind'] + ':' + str(v['detail'])).startswith(sig):
            return txt
    return None


# ------------------------------------------------------------------ shrink
def _paths(x, pre=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from _paths(x[k], pre + (k,))
        yield pre, x
    elif isinstance(x, list):
        for i, q in enumerate(x):
            yield from _paths(q, pre + (i,))
        yield pre, x
    else:
        yield pre, x


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _put(scn, path, val):
    c = json.loads(json.dumps(scn))
    if not path:
        return val
    q = c
    for p in path[:-1]:
        q = q[p]
    q[path[-1]] = val
    return c


def candidates(scn, keep=()):
    """Simpler scenarios: fewer list elements, smaller numbers, switched off
    options."""
    lists = [(p, v) for p, v in _paths(scn) if isinstance(v, list) and v and
             p and not any(q in keep for q in p)]
    lists.sort(key=lambda t: -len(t[1]))
    for p, v in lists:
        n = len(v)
        step = n
        while step >= 1:
            for a in range(0, n, step):
                w = v[:a] + v[a + step:]
                if len(w) < n:
                    yield _put(scn, p, w)
            step //= 2
    for p, v in _paths(scn):
        if any(q in keep for q in p):
            continue
        if isinstance(v, bool):
            if v:
                yield _put(scn, p, False)
        elif isinstance(v, int) and v != 0:
            for w in (0, 1, v // 2, v - 1 if v > 0 else v + 1):
                if w != v and abs(w) <= abs(v):
                    yield _put(scn, p, w)


def legal_candidates(scn, keep, legal):
    for c in candidates(scn, keep):
        try:
            if legal(c):
                yield c
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, ZeroDivisionError):
            continue


def shrink(check, scn, kind, secs=40.0):
    t0 = _time.monotonic()
    tried = 0
    keep = getattr(check, 'KEEP', ())
    gen = getattr(check, 'candidates', None)
    progress = True
    cur = scn
    seen = set()
    while progress and _time.monotonic() - t0 < secs:
        progress = False
        for c in (gen(cur) if gen else candidates(cur, keep)):
            if _time.monotonic() - t0 > secs:
                break
            k = scn_key(c)
            if k in seen:
                continue
            seen.add(k)
            tried += 1
            try:
                v, _ = run_one(check, c)
            except Exception:
                continue       # not a legal scenario any more
            if v is not None and v['kind'] == kind:
                cur = c
                progress = True
                break
    return cur, tried


# ------------------------------------------------------------------ workers
def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        lim = 12 * 2 ** 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    try:
        sys.stderr.flush()
    except Exception:
        pass


def _one(check, tr, sd, i):
    rng = Rng(check.ID, sd, i)
    scn = check.generate(rng, tr, i)
    scn = json.loads(json.dumps(scn))
    v, st = run_one(check, scn)
    return scn, v, st


def _worker(pid, tr, sd, w, nw, nruns, deadline, wfd):
    _worker_init()
    check = load_check(pid)
    out = dict(runs=0, faults=collections.Counter(), probes=collections.Counter(),
               simtime=0.0, states=set(), scn=set(), nontriv=set(), viol=[],
               err=None, samples=[], digests=[])
    known = known_findings(pid)
    try:
        for i in range(w, nruns, nw):
            if _time.monotonic() > deadline:
                out['capped'] = True
                break
            try:
                scn, v, st = _one(check, tr, sd, i)
            except BaseException:
                out['err'] = 'run %d: %s' % (i, traceback.format_exc())
                break
            out['runs'] += 1
            out['faults'].update(st.faults)
            out['probes'].update(st.probes)
            out['simtime'] += st.simtime
            out['states'] |= st.states
            k = scn_key(scn)
            out['scn'].add(k)
            if st.nontrivial:
                out['nontriv'].add(k)
            out['digests'].append((i, st.digest()))
            if len(out['samples']) < 1 and st.nontrivial:
                out['samples'].append({'run': i, 'scenario': scn})
            if v is not None:
                kf = match_known(v, known)
                out['viol'].append((i, scn, v, kf))
                if kf is None and len([x for x in out['viol'] if x[3] is None]) >= 3:
                    break
    finally:
        drop_scratch()
    import pickle
    with os.fdopen(wfd, 'wb') as f:
        pickle.dump(out, f)
    os._exit(0)


def search(pid, tr, sd, nruns, nw):
    """Runs 0..nruns-1 spread over nw processes; each run depends on its
    number and the seed only."""
    import pickle
    deadline = _time.monotonic() + WALL_CAP[tr]
    procs = []
    import gc
    gc.collect()
    gc.freeze()         # (collections would copy every page shared with the workers)
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nw):
        r, wr = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            os.close(r)
            try:
                _worker(pid, tr, sd, w, nw, nruns, deadline, wr)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        os.close(wr)
        procs.append((pid_, r))
    outs = []
    err = None
    for p_, r in procs:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, status = os.waitpid(p_, 0)
        if not data:
            err = 'worker died with status %d' % status
            continue
        outs.append(pickle.loads(data))
    return outs, err


def merge(outs):
    m = dict(runs=0, faults=collections.Counter(), probes=collections.Counter(),
             simtime=0.0, states=set(), scn=set(), nontriv=set(), viol=[],
             samples=[], digests=[], capped=False)
    for o in outs:
        m['runs'] += o['runs']
        m['faults'].update(o['faults'])
        m['probes'].update(o['probes'])
        m['simtime'] += o['simtime']
        for k in ('states', 'scn', 'nontriv'):
            m[k] |= o[k]
        m['viol'] += o['viol']
        m['samples'] += o['samples']
        m['digests'] += o['digests']
        m['capped'] = m['capped'] or bool(o.get('capped'))
    m['viol'].sort(key=lambda t: t[0])
    m['digests'].sort()
    return m


def evidence(pid, check, tr, sd, m, wall, nviol, extra=None):
    cov = {
        'evaluations': m['runs'],
        'distinct_nontrivial': len(m['nontriv']),
        'rule': check.RULE,
        'samples': [s for s in m['samples'][:3]] or [{'note': 'no nontrivial run'}],
        'simulated_runs': m['runs'],
        'distinct_scenarios': len(m['scn']),
        'seeds_per_hour': int(m['runs'] / max(wall, 1e-3) * 3600),
        'simulated_time_s': round(m['simtime'], 1),
        'faults_fired': dict(sorted(m['faults'].items())),
        'probes_hit': dict(sorted(m['probes'].items())),
        'distinct_states': len(m['states']),
        'state_measure': check.STATES,
        'real_components': check.REAL,
        'stub_components': check.STUB,
        'event_log_digest': hashlib.sha256(repr(m['digests']).encode()).hexdigest()[:16],
        'stopped_at_wall_cap': m['capped'],
    }
    if extra:
        cov.update(extra)
    ev = {'property': pid, 'tier': tr, 'seed': sd, 'level': 'exploration',
          'coverage': cov, 'assumptions': list(getattr(check, 'ASSUME', ())),
          'wall_s': round(wall, 2), 'violations': nviol}
    d = VERIF + '/evidence'
    os.makedirs(d, exist_ok=True)
    tmp = d + '/.%s.tmp' % pid
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    os.replace(tmp, d + '/%s.json' % pid)


def main(pid, argv):
    t0 = _time.monotonic()
    tr, sd = tier(), seed()
    nruns = None
    nw = int(os.environ.get('DST_WORKERS') or min(8, os.cpu_count() or 1))
    replay = None
    only = None
    digest_out = None
    a = list(argv)
    while a:
        x = a.pop(0)
        if x == '--replay':
            replay = a.pop(0)
        elif x == '--runs':
            nruns = int(a.pop(0))
        elif x == '--run':
            only = int(a.pop(0))
        elif x == '--tier':
            tr = a.pop(0)
        elif x == '--seed':
            sd = int(a.pop(0))
        elif x == '--workers':
            nw = int(a.pop(0))
        elif x == '--digests':
            digest_out = a.pop(0)
    print('dst: property=%s tier=%s VERIF_SEED=%d workers=%d' % (pid, tr, sd, nw), flush=True)
    check = load_check(pid)
    if hasattr(check, 'setup'):
        check.setup()
    if replay:
        with open(replay) as f:
            rp = json.load(f)
        v, st = run_one(check, rp['scenario'])
        if v is not None and v['kind'] == 'hang':
            v = confirm_hang(check, rp['scenario'])
        drop_scratch()
        if v is None:
            print('replay: no violation')
            return 0
        print('replay: %s: %s' % (v['kind'], v['detail']))
        print('event log digest: %s' % st.digest())
        print('VIOLATION property=%s replay=%s' % (pid, os.path.abspath(replay)))
        return 1
    if only is not None:
        scn, v, st = _one(check, tr, sd, only)
        drop_scratch()
        print(json.dumps(scn))
        print('events:', *st.events[-20:], sep='\n  ')
        print(dict(st.faults), dict(st.probes))
        print(v)
        return 0 if v is None else 1
    if nruns is None:
        nruns = check.RUNS[tr]
    outs, err = search(pid, tr, sd, nruns, nw)
    for o in outs:
        if o['err']:
            err = o['err']
    m = merge(outs)
    real = []
    knowns = collections.OrderedDict()
    for i, scn, v, kf in m['viol']:
        if kf is not None:
            knowns.setdefault(kf, i)
            continue
        if v['kind'] == 'hang':
            v = confirm_hang(check, scn)
            if v is None:
                continue
        real.append((i, scn, v))
    for txt, i in knowns.items():
        print('KNOWN-FINDING: property=%s %s (e.g. run %d)' % (pid, txt, i))
    path = None
    if real:
        i, scn, v = real[0]
        tried = 0
        small = scn
        if v['kind'] not in ('hang', 'unbounded_work', 'unbounded_memory'):
            small, tried = shrink(check, scn, v['kind'])
            v2, st = run_one(check, small)
            if v2 is None or v2['kind'] != v['kind']:
                small, v2 = scn, v
            v = v2
        d = VERIF + '/evidence/replay'
        os.makedirs(d, exist_ok=True)
        path = d + '/%s-%d-%d.json' % (pid, sd, i)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'seed': sd, 'run': i, 'tier': tr,
                       'violation': v, 'scenario': small,
                       'original_scenario': scn,
                       'shrink_attempts': tried}, f, indent=1, default=str)
    drop_scratch()
    wall = _time.monotonic() - t0
    extra = check.extra_evidence() if hasattr(check, 'extra_evidence') else None
    evidence(pid, check, tr, sd, m, wall, len(real), extra)
    if digest_out:
        with open(digest_out, 'w') as f:
            json.dump(m['digests'], f)
    print('runs=%d distinct=%d nontrivial=%d states=%d faults=%s probes=%s wall=%.1fs' % (
        m['runs'], len(m['scn']), len(m['nontriv']), len(m['states']),
        dict(sorted(m['faults'].items())), dict(sorted(m['probes'].items())), wall))
    if real:
        print('violation in run %d (seed %d): %s: %s' % (i, sd, v['kind'], v['detail']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if err:
        print('HARNESS-ERROR\n' + err)
        return 2
    return 0
