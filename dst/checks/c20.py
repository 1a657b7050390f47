"""C20: settings files (userdata)."""
import errno
import json
import os
import pathlib

import numpy as np

from .. import framehist as Q
from .. import recordings as W
from .. import stored as T
from ..core import call, exc_str, legal_candidates, violated
from ..simio import SimFS
from .c10 import isolated

ID = 'C20'
RUNS = {'quick': 180, 'thorough': 14000}
HANG_S = 40
RULE = ('a run = one to three recordings of any families with drawn settings files beside them, elsewhere and near them, and a '
        'drawn history: reads with every way of asking for settings (default, true, false, path, file object; also '
        'from other directories and through the low-level readers), edits, damage and removal of settings files, changes of returned '
        'datasets, and I/O errors, disappearance and short reads of a settings file; the result is compared with a read '
        'without settings to which the settings are applied with the public functions; non-trivial = at least two reads '
        'that applied settings; distinct = distinct scenario')
STATES = 'distinct (instrument, way of asking, kinds of settings, condition of the file, fault, result) tuples'
REAL = ['dolfyn.read, read_rdi, read_nortek, read_signature', 'settings lookup and parsing', 'dolfyn.rotate']
STUB = ['the instruments (independent encoders)', 'reads of settings files (SimFS)', 'user (drawn history)']
KEEP = W.KEEP
ASSUME = ['settings files do not redefine what the reader derives from the recording (coord_sys, n_beams, fs, ...)',
          'inst2head_rotmat is for Vectors: on other instruments it is an error or a plain attribute',
          'with both <base>.userdata.json and <file name>.userdata.json either is used, not a mixture',
          'applying a declination or a head rotation (C12) is not checked here again']
ROT = [[1, 0, 0], [0, 0, 1], [0, -1, 0]]
ITEMS = [('declination', 12.5), ('declination', -7), ('declination', 0), ('latlon', [39.9402, -105.2283]), ('who', 'me'), ('note', 'caf\u00e9 \u6d77'),
         ('motion accel_filtfreq Hz', .03), ('deck_height', 3.5), ('decimation', 4), ('config_note', 'moored'), ('my_config', {'a': [1, {'b': None}]}),
         ('rotmat_source', 'survey'), ('L', [1, 2.5, 'x', [3]]), ('flag', True), ('off', False), ('empty', ''), ('D', {'a': 1}), ('big', 12345678901234567890),
         ('inst2head_vec', [0.1, 0, -1]), ('body2head_vec', [1, 2, 3]), ('nothing', None), ('time_zone', 'UTC'), ('vel_offset', .1),
         ('mag_declination_source', 'model'), ('description', 'd'), ('', 1), ('dec', 1), ('tiny', 1e-300)]
VEC = [('inst2head_rotmat', ROT), ('inst2head_rotmat', 'identity'), ('inst2head_rotmat', 1), ('body2head_rotmat', 'eye'), ('inst2head_rotmat', [[1, 0, 0], [0, 1, 0], [0, 0, 2]]),
       ('inst2head_rotmat', [1, 2]), ('body2head_rotmat', ROT)]
BAD = ['', '[]', '{}', '"x"', '3', 'null', '[{"a": 1}]', '{"a": 1', '{"a": 1}}', "{'a': 1}", '{"declination": "x"}', '\ufeff{"a": 1}', '{"a": NaN}', '[["a", 1]]', '""']
HOWS = ['default', 'true', 'false', 'none', 'abs', 'rel', 'home', 'pathlib', 'file', 'low']
SLOTS = ['base', 'full', 'else1', 'else2']


def gen_doc(rng, nk=False):
    k = rng.weighted([('items', 6), ('vec', 8 if nk else 1), ('raw', 1.2), ('damaged', 1.8)])
    if k == 'raw':
        return {'raw': rng.randrange(len(BAD))}
    items = [rng.randrange(len(ITEMS)) for _ in range(rng.randrange(0, 6))]
    return {'items': items, 'vec': rng.randrange(len(VEC)) if k == 'vec' else None, 'form': rng.randrange(4),
            'cut': rng.randrange(1000) if k == 'damaged' and rng.flip(.5) else None,
            'flip': [rng.randrange(1000), rng.randrange(1, 256)] if k == 'damaged' and rng.flip(.6) else None}


def gen_step(rng):
    k = rng.weighted([('read', 8), ('put', 2), ('remove', 1), ('mess', 1), ('cwd', 1)])
    if k == 'read':
        return [k, rng.randrange(3), rng.pick(HOWS), 2 + rng.randrange(2), rng.weighted([(None, 6), ([rng.randrange(6), rng.pick(['EIO', 'EACCES', 'ENOENT', 'EMFILE'])], 2)]),
                int(rng.flip(.3)), int(rng.flip(.3))]
    if k == 'put':
        return [k, rng.randrange(3), rng.randrange(4), gen_doc(rng)]
    if k == 'remove':
        return [k, rng.randrange(3), rng.randrange(4)]
    return [k, rng.randrange(4)]


def generate(rng, tier, i):
    recs = []
    for _ in range(rng.weighted([(1, 2), (2, 3), (3, 1)])):
        r = W.gen(rng, tier, maxn=rng.pick([1, 3, 10]), cut=.1)
        recs.append({'rec': r, 'noext': int(rng.flip(.15)),
                     'docs': [gen_doc(rng, r['fam'] == 'nk') if rng.flip(p) else None for p in (.6, .3, .85, .85)]})
    return {'recs': recs, 'steps': [gen_step(rng) for _ in range(rng.randrange(3, 12))]}


LEN = {'read': 7, 'put': 4, 'remove': 3, 'mess': 2, 'cwd': 2}


def legal_doc(x):
    return x is None or 'raw' in x or (isinstance(x.get('items'), list) and 'form' in x and 'vec' in x and 'cut' in x and
                                       (not x.get('flip') or len(x['flip']) == 2 and x['flip'][1] > 0))


def legal(s):
    return (s['recs'] and all(W.legal(r['rec']) and len(r['docs']) == 4 and all(map(legal_doc, r['docs'])) for r in s['recs']) and
            all(x and len(x) == LEN[x[0]] and (x[0] != 'put' or legal_doc(x[3])) and
                (x[0] != 'read' or x[4] is None or len(x[4]) == 2) for x in s['steps']))


def candidates(scn):
    return legal_candidates(scn, KEEP, legal)


def content(doc):
    if 'raw' in doc:
        return BAD[doc['raw'] % len(BAD)].encode()
    o = {}
    for i in doc['items']:
        k, v = ITEMS[i % len(ITEMS)]
        o[k] = v
    if doc['vec'] is not None:
        k, v = VEC[doc['vec'] % len(VEC)]
        o[k] = v
    f = doc['form'] % 4
    b = json.dumps(o, indent=[None, 1, '\t', None][f], ensure_ascii=f < 2, separators=(',', ':') if f == 3 else None)
    if f == 2:
        b = '\r\n' + b.replace('\n', '\r\n') + '\r\n'
    b = b.encode()
    if doc['cut'] is not None:
        b = b[:doc['cut'] * len(b) // 1000]
    if doc['flip'] and b:
        i = doc['flip'][0] * len(b) // 1000
        b = b[:i] + bytes([b[i] ^ doc['flip'][1] & 255]) + b[i + 1:]
    return b


def parse(b):
    """the settings, or None if the file is broken"""
    try:
        o = json.loads(b.decode('utf-8'))
    except ValueError:
        return None
    return o if isinstance(o, dict) else None


class Failing(SimFS):
    """I/O errors and short reads, only of settings files."""
    at = None
    hits = touched = 0

    def op(self, what, path, write=False, size=0):
        if str(path).endswith('.json'):
            self.touched += 1
            if self.at is not None and self.touched == self.at[0] + 1:
                self.hits += 1
                self.fired('settings_' + self.at[1])
                e = getattr(errno, self.at[1])
                raise OSError(e, os.strerror(e), str(path))
        return super().op(what, path, write, size)


def execute(scn, st, d):
    if not legal(scn):
        return
    isolated(lambda s: inside(scn, s, d), st)


def inside(scn, st, d):
    import dolfyn
    os.environ['HOME'] = d + '/h'
    dirs = [d + '/' + x for x in ('h', 'a.b', 'w', 'plain', 'h/sub')]
    for x in dirs:
        os.makedirs(x, exist_ok=True)
    recs = []
    for i, r in enumerate(scn['recs']):
        w = W.Recording(r['rec'])
        nm = 'r%d.x' % i
        folder = d + '/a.b'
        p = folder + '/' + nm + ('' if r['noext'] else '.' + w.ext)
        q = d + '/plain/' + os.path.basename(p)
        for x in (p, q):
            with open(x, 'wb') as f:
                f.write(w.b)
        st.simtime += w.seconds()
        slots = [os.path.splitext(p)[0] + '.userdata.json', p + '.userdata.json', d + '/h/sub/%d.json' % i, d + '/h/\u00e9 %d.json' % i]
        base = {}
        for dual in (0, 1):
            k = {'dual_profile': True} if dual and w.fam == 'sg' else {}
            r0, v = call(dolfyn.read, q, userdata=False, **k)
            base[dual] = (r0, [x.copy(deep=True) for x in (v if isinstance(v, tuple) else (v,))] if r0 == 'ok' else v)
        recs.append({'p': p, 'w': w, 'slots': slots, 'base': base, 'doc': {}})
        for j, doc in enumerate(r['docs']):
            if doc:
                put(recs[-1], j, doc)
    for x in ('', 'x', 'r.userdata', 'userdata'):       # settings of nobody
        for y in ('a.b', 'w'):
            with open(d + '/' + y + '/' + x + '.userdata.json', 'w') as f:
                f.write('{"stray": 1}')
    with open(d + '/a.userdata.json', 'w') as f:
        f.write('{"stray": 2}')
    cwd = d + '/w'
    os.chdir(cwd)
    kept = []
    applied = 0
    for q, s in enumerate(scn['steps']):
        k = s[0]
        what = 'step %d, %s' % (q, s)
        r = recs[s[1] % len(recs)]
        if k == 'put':
            put(r, s[2] % 4, s[3])
            st.fault('settings_edited')
        elif k == 'remove':
            if s[2] % 4 in r['doc']:
                del r['doc'][s[2] % 4]
                os.unlink(r['slots'][s[2] % 4])
                st.fault('settings_removed')
        elif k == 'cwd':
            cwd = dirs[s[1] % len(dirs)]
            os.chdir(cwd)
        elif k == 'mess':
            for x in kept:
                for nm in list(x.attrs):
                    if isinstance(x.attrs[nm], list):
                        x.attrs[nm].append('mess')
                    elif isinstance(x.attrs[nm], dict):
                        x.attrs[nm]['mess'] = 1
                    else:
                        x.attrs[nm] = 'mess'
            st.fault('returned_dataset_changed')
        else:
            applied += read(r, s, what, d, cwd, kept, st, dolfyn)
    st.nontrivial = applied >= 2


def put(r, j, doc):
    b = content(doc)
    with open(r['slots'][j], 'wb') as f:
        f.write(b)
    os.utime(r['slots'][j], (1e9, 1e9))
    r['doc'][j] = b


def read(r, s, what, d, cwd, kept, st, dolfyn):
    _, _, how, slot, fault, short, dual = s
    fam = r['w'].fam
    kw = {'dual_profile': True} if dual and fam == 'sg' else {}
    b0, base = r['base'][dual]
    if b0 == 'exc':
        return 0
    p = r['p']
    fn = dolfyn.read
    sp = r['slots'][slot]
    given = [r['doc'].get(j) for j in (0, 1) if j in r['doc']]
    close = None
    explicit = how in ('abs', 'rel', 'home', 'pathlib', 'file')
    if how == 'true':
        kw['userdata'] = True
    elif how in ('false', 'none'):
        kw['userdata'] = {'false': False, 'none': None}[how]
        given = []
    elif how == 'low':
        fn = {'rdi': dolfyn.io.api.read_rdi, 'nk': dolfyn.io.api.read_nortek, 'sg': dolfyn.io.api.read_signature}[fam]
    elif explicit:
        if how == 'file':
            if slot not in r['doc']:
                return 0
            kw['userdata'] = close = open(sp, encoding='utf-8')
            fault = None
        else:
            kw['userdata'] = {'abs': sp, 'rel': os.path.relpath(sp, cwd), 'home': '~/' + os.path.relpath(sp, d + '/h'),
                              'pathlib': pathlib.Path(sp)}[how]
        given = [r['doc'].get(slot)]
    fs = Failing(d, {'short': s[3]} if short else {}, st)
    fs.at = fault
    with fs:
        g, v = call(fn, p, **kw)
    if close:
        close.close()
    for rr in [r]:
        for j, b in rr['doc'].items():
            with open(rr['slots'][j], 'rb') as f:
                if f.read() != b or os.stat(rr['slots'][j]).st_mtime != 1e9:
                    violated('modified', '%s modified the settings file %s' % (what, os.path.basename(rr['slots'][j])))
    docs = [None if b is None else parse(b) for b in given]
    kinds = tuple(sorted({cls(k) for x in docs if x for k in x}))
    cond = tuple('gone' if b is None else 'broken' if x is None else 'ok' for b, x in zip(given, docs))
    st.event('read', g, exc_str(v)[:60] if g == 'exc' else [sorted(x.attrs) for x in (v if isinstance(v, tuple) else (v,))])
    st.state(fam, how, kinds, cond, fault[1] if fs.hits else None, short, g)
    st.probe('read_' + g)
    desc = '%s (%s, %s): ' % (what, fam, [x for x in given])
    if fs.hits:
        if g == 'ok':
            violated('ignored', desc + 'the settings file could not be read (%s), but the read succeeded' % fault[1])
        return 0
    if how in ('false', 'none') and fs.touched:
        violated('asked_not_to', desc + 'a settings file was opened')
    if g == 'ok' and docs and all(x is None for x in docs):
        violated('ignored', desc + 'the settings file is broken or missing, but the read succeeded')
    vector = base[0].attrs.get('inst_model', '').lower() == 'vector'
    why = []
    for x in docs or [{}]:
        if x is None:
            if g == 'exc':
                return 0
            continue
        x = rename(x)
        if x is not None and 'inst2head_rotmat' in x and not vector:
            return 0
        out = [apply(b.copy(deep=True), x, dolfyn) for b in base]
        if any(o[0] == 'exc' for o in out):
            if g == 'exc':
                return 0
            why.append('cannot be applied: %s' % [o[1] for o in out if o[0] == 'exc'][0])
            continue
        if g == 'exc':
            why.append('failed: %s' % exc_str(v))
            continue
        got = list(v) if isinstance(v, tuple) else [v]
        df = same([o[1] for o in out], got, x)
        if df is None:
            kept.extend(got)
            return bool(x)
        why.append(df)
    if explicit or how in ('false', 'none') or fs.touched or not given:
        violated('differs', desc + '(first: settings applied to the recording, second: this read) %s' % '; '.join(map(str, why)))
    violated('differs', desc + 'the settings were not read: %s' % '; '.join(map(str, why)))


def cls(k):
    return k if k in ('declination', 'inst2head_rotmat', 'inst2head_vec', 'body2head_rotmat', 'body2head_vec') else \
        'looks_special' if any(x in k for x in ('dec', 'rotmat', 'config', 'time', 'vel')) else 'plain'


def rename(x):
    x = dict(x)
    for nm in ('rotmat', 'vec'):
        if 'body2head_' + nm in x:
            x['inst2head_' + nm] = x.pop('body2head_' + nm)
    return x


def apply(ds, x, dolfyn):
    rot = x.get('inst2head_rotmat')
    for k, v in x.items():
        if k == 'inst2head_vec':
            r, v = call(lambda: v if type(v) == list else list(v))
            if r == 'exc':
                return r, exc_str(v)
        if k not in ('declination', 'inst2head_rotmat'):
            ds.attrs[k] = v
    if rot is not None:
        if not isinstance(rot, list):
            if rot not in ('identity', 'eye', 1):
                return 'exc', 'not a matrix'
            rot = np.eye(3)
        a, e = call(lambda: np.array(rot, dtype='f8'))
        if a == 'exc' or e.shape != (3, 3) or not np.allclose(np.linalg.det(e), 1, atol=1e-3):
            return 'exc', 'not a rotation matrix'
        r, e = call(dolfyn.set_inst2head_rotmat, ds, rot)
        if r == 'exc':
            return r, exc_str(e)
    if x.get('declination') is not None:
        r, e = call(dolfyn.set_declination, ds, x['declination'])
        if r == 'exc':
            return r, exc_str(e)
    return 'ok', ds


def same(want, got, x):
    if len(want) != len(got):
        return '%d datasets, %d without settings' % (len(got), len(want))
    for a, b in zip(want, got):
        df = T.lost(Q.snapshot(a), Q.snapshot(b), 0, tol=1e-6)
        if df:
            return df
        for k in x:
            if k not in ('declination', 'inst2head_rotmat') and k in b.attrs and type(b.attrs[k]) is not type(a.attrs[k]):
                return 'type of attribute %s: %s -> %s' % (k, type(a.attrs[k]), type(b.attrs[k]))
    return None
