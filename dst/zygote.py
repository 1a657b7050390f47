"""A pristine process that reads files on request: every request is served by
a fresh fork of an interpreter that has imported the library and done nothing
else, with another hash seed, other uninitialised memory, and its own time
zone, clock, directory and home.

Client: Reference().ask({...}).  Server: python -m dst.zygote
"""
import ctypes
import os
import pickle
import struct
import subprocess
import sys
import tempfile

SHIM = r'''
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
long long dst_offset = 0;
int clock_gettime(clockid_t c, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, c, t);
    if (!r && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += dst_offset;
    return r;
}
time_t time(time_t *p) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(struct timeval *v, void *z) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000;
    return 0;
}
'''


def build_shim():
    """-> path of the shared object in a directory of its own, or None"""
    d = tempfile.mkdtemp(prefix='dstshim')
    with open(d + '/shim.c', 'w') as f:
        f.write(SHIM)
    try:
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', d + '/shim.so', d + '/shim.c'], check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return d + '/shim.so'
    except (OSError, subprocess.CalledProcessError):
        return None


class Reference(object):
    def __init__(self, shim, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), MALLOC_PERTURB_='165', PYTHONPATH=os.pathsep.join(sys.path),
                   LC_ALL='C', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0')
        if shim:
            env['LD_PRELOAD'] = shim
            env['DST_SHIM'] = shim
        self.p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'dst.zygote'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                  cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

    def ask(self, req):
        b = pickle.dumps(req)
        self.p.stdin.write(struct.pack('<Q', len(b)) + b)
        self.p.stdin.flush()
        n = struct.unpack('<Q', _exact(self.p.stdout, 8))[0]
        return pickle.loads(_exact(self.p.stdout, n))


def _exact(f, n):
    b = f.read(n)
    if len(b) != n:
        raise RuntimeError('the reference process ended')
    return b


def outcome(fn):
    """What a read did, by value."""
    from .framehist import snapshot
    try:
        r = fn()
    except Exception as e:
        return 'exc', type(e).__name__
    return 'ok', [snapshot(x) for x in (r if isinstance(r, tuple) else (r,))]


def serve(req):
    import time
    import dolfyn
    from .core import quiet
    if req.get('offset') and os.environ.get('DST_SHIM'):
        ctypes.c_longlong.in_dll(ctypes.CDLL(os.environ['DST_SHIM']), 'dst_offset').value = int(req['offset'])
    os.environ['TZ'] = req.get('tz') or 'UTC'
    time.tzset()
    os.chdir(req.get('cwd') or '/')
    with quiet():
        return outcome(lambda: dolfyn.read(os.fsdecode(req['path']), **req['kw']))


def main():
    import dolfyn            # noqa
    from . import framehist  # noqa
    inp, out = os.fdopen(os.dup(0), 'rb'), os.fdopen(os.dup(1), 'wb')
    dn = os.open('/dev/null', os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(2, 1)
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        req = pickle.loads(_exact(inp, struct.unpack('<Q', h)[0]))
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            b = b''
            try:
                b = pickle.dumps(serve(req))
            except BaseException as e:
                b = pickle.dumps(('harness', repr(e)))
            finally:
                with os.fdopen(w, 'wb') as f:
                    f.write(b)
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            b = f.read()
        os.waitpid(pid, 0)
        if not b:
            b = pickle.dumps(('died', ''))
        out.write(struct.pack('<Q', len(b)) + b)
        out.flush()


if __name__ == '__main__':
    main()
