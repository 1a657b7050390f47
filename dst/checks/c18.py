"""C18: cropping a Signature recording."""
import os

from .. import sg_enc as S
from ..core import call, exc_str, quiet, violated
from ..simio import SimFS, Crash
from . import c05

ID = 'C18'
RUNS = {'quick': 600, 'thorough': 16000}
RULE = ('a run = one Signature recording (skipped pings, power loss at a drawn byte) and a history of crops of it and '
        'of its crops, of growth of the recording, and of crashes, full disks and I/O errors while cropping; every '
        'file is read back and compared with what the instrument recorded in that range; non-trivial = at least one '
        'crop was read back and compared; distinct = distinct scenario')
STATES = 'distinct (streams, range class, fault, previous output, index, outcome) tuples'
REAL = ['dolfyn.io.nortek2_lib.crop_ensembles'] + c05.REAL
STUB = ['the instrument (independent encoder)', 'file operations of the crop (fault injection)']
KEEP = ('t0', 'dseed', 'mat', 'model', 'serial')
ASSUME = c05.ASSUME + ['the range is a start and an end ensemble (not included), counted from 0 as in a read of the file; an '
                       'end beyond the last ensemble means the end of the recording']


def generate(rng, tier, i):
    c = S.gen_cfg(rng)
    c['nc'] = min(c['nc'], 8)
    n = rng.weighted([(rng.randrange(2, 8), 1), (rng.randrange(8, 40), 4)])
    steps = []
    for _ in range(rng.randrange(1, 6)):
        if rng.flip(.12):
            steps.append(['grow', rng.randrange(1, 10)])
            continue
        a = rng.weighted([(0, 2), (rng.randrange(n), 6), (n + rng.randrange(3), .4)])
        b = rng.weighted([(a + 1 + rng.randrange(n), 8), (n, 1), (n + rng.randrange(1, 5), 1), (a, .2)])
        kind = rng.weighted([('', 6), ('crash', 4), ('nospace', 2), ('eio', 2), ('short', 1), ('nocreate', .5)])
        steps.append(['crop', rng.weighted([(0, 2), (rng.randrange(4), 3)]), a, b, kind,
                      rng.weighted([(rng.randrange(1, 4), 4), (rng.randrange(4, 30), 2)]), rng.randrange(4000),
                      rng.pick([0, 0, 1, 2, 3]), rng.pick([0, 0, 1])])
    return {'cfg': c, 'n': n, 'dseed': rng.randrange(2 ** 31), 'skip': c05.gen_skip(rng, c, n),
            'tail': rng.weighted([(0, 2), (rng.randrange(400), 1)]), 'steps': steps}


def legal(scn):
    sk = [s for s in scn['skip'] if len(s) == 3]
    return S.legal(scn['cfg']) and scn['n'] >= 1 and all(s[1] >= 2 for s in sk) and \
        not (sk and scn['cfg']['nburst'] == 1) and not c05.ambiguous(scn['cfg'], scn['n'] + 100, sk) and \
        all(s and (s[0] == 'crop' and len(s) == 9 or s[0] == 'grow' and len(s) == 2) for s in scn['steps'])


def candidates(scn):
    from ..core import candidates as gen
    for c in gen(scn, KEEP):
        if all(s and len(s) == {'crop': 9, 'grow': 2}.get(s[0]) for s in c['steps']):
            yield c


def content(p):
    if not os.path.exists(p):
        return None
    with open(p, 'rb') as f:
        return f.read()


def beginning(ens):
    """Every beginning of a range is fine after a failure."""
    return ens


def execute(scn, st, d):
    import dolfyn
    from dolfyn.io.nortek2_lib import crop_ensembles
    if not legal(scn):
        return
    c = scn['cfg']
    total = S.deployment(c, scn['n'], scn['dseed'], scn['skip'])
    files = [(d + '/rec0.ad2cp', None)]

    def record():
        recs = total
        tail = b''
        if scn['tail'] and len(total) > 2:
            tail = total[-1].b[:scn['tail'] % len(total[-1].b)]
            recs = total[:-1]
        with open(files[0][0], 'wb') as f:
            f.write(b''.join(r.b for r in recs) + tail)
        files[0] = (files[0][0], c05.ensembles(recs))
    record()
    if scn['tail']:
        st.fault('power_loss_mid_record')
    done = 0
    for q, s in enumerate(scn['steps']):
        if s[0] == 'grow':
            m = max((r.e for r in total if r.e is not None), default=0) + 1
            total = S.deployment(c, m + s[1], scn['dseed'], scn['skip'])
            record()
            st.fault('recording_grew')
            continue
        _, src, a, b, kind, op, arg, pre, ix = s
        src, ens = files[src % len(files)]
        out = d + '/out%d.ad2cp' % q
        before = content(src)
        if pre == 1:                # an earlier crop is there
            call(crop_ensembles, files[0][0], out, [0, 2])
        elif pre == 2:
            with open(out, 'wb') as f:
                f.write(b'not a recording')
        elif pre == 3 and arg % 3 == 0:
            out = src
        if ix and os.path.exists(src + '.index'):
            os.remove(src + '.index')
        old = content(out)
        plan = {'': {}, 'crash': {'crash_at': op, 'torn': arg}, 'eio': {'fail': {str(op): 5}},
                'nospace': {'capacity': arg * (1 + op % 4)}, 'nocreate': {'nocreate': True}, 'short': {'short': arg}}[kind]
        fs = SimFS(d, plan, st)
        died = False
        try:
            with fs:
                r, e = call(crop_ensembles, src, out, (a, b) if arg % 2 else [a, b])
        except Crash:
            died, r, e = True, 'died', None
        fs.close_all()
        if kind == 'nocreate':
            st.fault('nocreate')
        want = ens[a:b]
        nm = 'step %d: crop %s of %d ensembles to [%d, %d)%s' % (
            q, os.path.basename(src), len(ens), a, b, ' with ' + kind if kind else '')
        st.event(q, kind, r, exc_str(e) if r == 'exc' else '')
        st.state(tuple(c['ids']), a == 0, b >= len(ens), b - a == 1, kind, pre, ix, r, out == src)
        if content(src) != before:
            violated('original', nm + ' altered the original')
        if out == src:
            if r == 'ok':
                violated('accepted', nm + ' onto itself was accepted')
            continue
        got = content(out)
        if r == 'ok' and want:
            k = read_back(c, out, want, st, nm, True)
            files.append((out, want))
            done += 1
        elif r == 'ok':
            if got is not None and got != old:
                g, ds = call(dolfyn.read, out)
                if g == 'ok':
                    violated('differs', '%s: there is nothing in this range, yet the file reads as %s' % (nm, sizes(ds)))
        else:
            if not kind and want:
                violated('failed', '%s failed: %s' % (nm, exc_str(e)))
            if got is not None and got != old:
                read_back(c, out, want, st, nm, False)
            if not want or died and arg % 2:
                continue
            # once more, with nothing in the way
            r, e = call(crop_ensembles, src, out, [a, b])
            if r == 'exc':
                violated('failed', '%s: repeated without a fault, it failed: %s' % (nm, exc_str(e)))
            read_back(c, out, want, st, nm + ', repeated', True)
            files.append((out, want))
            st.probe('repeated_after_failure')
            done += 1
        for f in os.listdir(d):
            if f.endswith('.ad2cp') and not any(os.path.join(d, f) == x[0] for x in files):
                os.remove(os.path.join(d, f))
    st.nontrivial = done > 0
    st.simtime += scn['n'] * S.dt(c)


def sizes(ds):
    return [dict(x.sizes) for x in (ds if isinstance(ds, tuple) else (ds,))]


def read_back(c, p, want, st, nm, complete):
    import dolfyn
    g, ds = call(dolfyn.read, p)
    if complete:
        try:
            c05.judge(g, ds, c, want, 0, st)
        except Exception as e:
            if hasattr(e, 'detail'):
                violated(e.kind, '%s: %s' % (nm, e.detail))
            raise
        st.probe('read_back')
        return
    # a failed crop: a beginning of the range, or nothing
    if g == 'exc':
        return
    st.probe('beginning_left')
    for k in range(len(want), 0, -1):
        try:
            c05.judge(g, ds, c, want[:k], 0, st)
            return
        except Exception as e:
            if not hasattr(e, 'detail'):
                raise
    violated('differs', '%s: the file that is left reads as %s, not as a beginning of the range' % (nm, sizes(ds)))
