"""A disk that fails: every change the library (and the C libraries below it)
makes to files of a scratch directory goes through a shim that counts it,
records it and fails it according to a plan.  From the record, the contents of
the disk after a crash of the process or a loss of power at any point are
reconstructed.

Client (in a worker): Disk().run(fn_module, scn, st, dir): a fork of a server
process with the shim executes the run.  Server: python -m dst.disk
"""
import ctypes
import os
import pickle
import shutil
import signal
import struct
import subprocess
import sys
import tempfile

SHIM = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN = 1, WRITE, TRUNC, FSYNC, CLOSE, RENAME, UNLINK, LINK };
struct fault { long long at, n; int err, part; };   /* err 0: short write of part/1000 */

char dst_root[4096] = "";
int dst_armed = 0;
long long dst_ops = 0, dst_cap = -1;
struct fault dst_faults[8];
int dst_nfaults = 0, dst_fired = 0;
char *dst_log = 0;
long long dst_len = 0, dst_size = 0;

static void put(const void *p, size_t n) {
    if (dst_len + (long long)n > dst_size) {
        dst_size = 2 * (dst_len + n) + 65536;
        dst_log = realloc(dst_log, dst_size);
    }
    memcpy(dst_log + dst_len, p, n);
    dst_len += n;
}
/* kind, result errno, inode, a, b, length of data, data */
static void rec(int kind, int err, unsigned long long ino, long long a, long long b, const void *d, long long n) {
    long long h[6] = { kind, err, (long long)ino, a, b, n };
    put(h, sizeof h);
    if (n) put(d, n);
}
static int under(const char *p) {
    size_t n = strlen(dst_root);
    return n && !strncmp(p, dst_root, n) && (p[n] == '/' || !p[n]);
}
static int abspath(int dir, const char *p, char *out, size_t n) {
    char base[4096];
    ssize_t k;
    if (!dst_armed || !p) return 0;
    if (p[0] == '/') snprintf(out, n, "%s", p);
    else {
        if (dir == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
        else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dir);
            k = readlink(l, base, sizeof base - 1);
            if (k < 0) return 0;
            base[k] = 0;
        }
        snprintf(out, n, "%s/%s", base, p);
    }
    return under(out);
}
static int fdpath(int fd, char *out, size_t n) {
    char l[64];
    ssize_t k;
    if (!dst_armed || fd < 3) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    k = readlink(l, out, n - 1);
    if (k < 0) return 0;
    out[k] = 0;
    return under(out);
}
/* -> the fault of this operation, if any */
static struct fault *hit(void) {
    long long i = dst_ops++;
    for (int k = 0; k < dst_nfaults; k++)
        if (i >= dst_faults[k].at && i < dst_faults[k].at + dst_faults[k].n) return &dst_faults[k];
    return 0;
}
static int fails(int writing) {
    struct fault *f = hit();
    if (f && f->err) { dst_fired++; errno = f->err; return 1; }
    return 0;
}
#define REAL(r, name, ...) static r (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)

static int do_open(int dir, const char *p, int flags, mode_t mode, int (*real)(int, const char *, int, ...)) {
    char full[8192];
    struct stat s;
    int new = 0, r, e;
    if (!(flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) || !abspath(dir, p, full, sizeof full))
        return real(dir, p, flags, mode);
    if (fails(0)) { rec(OPEN, errno, 0, flags, 0, full, strlen(full)); return -1; }
    new = stat(full, &s) != 0;
    if (!new && (flags & O_TRUNC) && dst_cap >= 0) dst_cap += s.st_size;
    r = real(dir, p, flags, mode);
    e = errno;
    if (r >= 0) {
        char q[8192];
        if (!fstat(r, &s) && S_ISREG(s.st_mode) && fdpath(r, q, sizeof q)) rec(OPEN, 0, s.st_ino, flags, new, q, strlen(q));
    }
    errno = e;
    return r;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, flags); m = va_arg(v, mode_t); va_end(v); }
static int r_openat(int d, const char *p, int f, ...) {
    REAL(int, openat64, int, const char *, int, ...);
    mode_t m; va_list v; va_start(v, f); m = va_arg(v, mode_t); va_end(v);
    return real(d, p, f, m);
}
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m, r_openat); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m, r_openat); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m, r_openat); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m, r_openat); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m, r_openat); }
int creat64(const char *p, mode_t m) { return creat(p, m); }
int __open_2(const char *p, int f) { return do_open(AT_FDCWD, p, f, 0, r_openat); }
int __open64_2(const char *p, int f) { return do_open(AT_FDCWD, p, f, 0, r_openat); }
int __openat_2(int d, const char *p, int f) { return do_open(d, p, f, 0, r_openat); }
int __openat64_2(int d, const char *p, int f) { return do_open(d, p, f, 0, r_openat); }

/* how much of a write of n bytes at off succeeds; -1 and errno if nothing */
static ssize_t room(struct stat *s, off_t off, size_t n) {
    struct fault *f = hit();
    if (f && f->err) { dst_fired++; errno = f->err; return -1; }
    if (f && n > 1) { dst_fired++; n = n * f->part / 1000; if (!n) n = 1; }
    if (dst_cap >= 0) {
        long long grow = (long long)off + (long long)n - s->st_size;
        if (grow > dst_cap) {
            long long can = (long long)n - (grow - dst_cap);
            dst_fired++;
            if (can <= 0) { errno = ENOSPC; return -1; }
            n = can;
            grow = dst_cap;
        }
        if (grow > 0) dst_cap -= grow;
    }
    return n;
}
static ssize_t r_pwrite(int fd, const void *b, size_t n, off_t off) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
    return real(fd, b, n, off);
}
static ssize_t r_write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    return real(fd, b, n);
}
static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int at) {
    char q[8192];
    struct stat s;
    ssize_t r, k;
    if (!fdpath(fd, q, sizeof q) || fstat(fd, &s) || !S_ISREG(s.st_mode)) return at ? r_pwrite(fd, b, n, off) : r_write(fd, b, n);
    if (!at) {
        off = lseek(fd, 0, SEEK_CUR);
        if (fcntl(fd, F_GETFL) & O_APPEND) off = s.st_size;
    }
    k = room(&s, off, n);
    if (k < 0) { int e = errno; rec(WRITE, e, s.st_ino, off, n, 0, 0); errno = e; return -1; }
    r = at ? r_pwrite(fd, b, k, off) : r_write(fd, b, k);
    if (r > 0) { int e = errno; rec(WRITE, 0, s.st_ino, off, n, b, r); errno = e; }
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    char q[8192];
    ssize_t t = 0;
    if (!fdpath(fd, q, sizeof q)) return real(fd, v, c);
    for (int i = 0; i < c; i++) {
        ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t sendfile(int o, int i, off_t *p, size_t n) {
    REAL(ssize_t, sendfile, int, int, off_t *, size_t);
    char q[8192];
    if (fdpath(o, q, sizeof q)) { errno = ENOSYS; return -1; }
    return real(o, i, p, n);
}
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { return sendfile(o, i, (off_t *)p, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    char q[8192];
    if (fdpath(o, q, sizeof q)) { errno = ENOSYS; return -1; }
    return real(i, a, o, b, n, f);
}
int ftruncate(int fd, off_t n) {
    REAL(int, ftruncate64, int, off_t);
    char q[8192];
    struct stat s;
    int r;
    if (!fdpath(fd, q, sizeof q) || fstat(fd, &s)) return real(fd, n);
    if (fails(1)) { int e = errno; rec(TRUNC, e, s.st_ino, n, 0, 0, 0); errno = e; return -1; }
    if (dst_cap >= 0 && n > s.st_size) {
        if (n - s.st_size > dst_cap) { dst_fired++; errno = ENOSPC; return -1; }
        dst_cap -= n - s.st_size;
    }
    r = real(fd, n);
    if (!r) rec(TRUNC, 0, s.st_ino, n, 0, 0, 0);
    return r;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int posix_fallocate(int fd, off_t o, off_t n) { return EOPNOTSUPP; }
int posix_fallocate64(int fd, off64_t o, off64_t n) { return EOPNOTSUPP; }
int fallocate(int fd, int m, off_t o, off_t n) { errno = EOPNOTSUPP; return -1; }
int fallocate64(int fd, int m, off64_t o, off64_t n) { errno = EOPNOTSUPP; return -1; }
static int sync_(int fd, int (*f)(int)) {
    char q[8192];
    struct stat s;
    int r;
    if (!fdpath(fd, q, sizeof q) || fstat(fd, &s)) return f(fd);
    if (fails(1)) { int e = errno; rec(FSYNC, e, s.st_ino, 0, 0, 0, 0); errno = e; return -1; }
    rec(FSYNC, 0, s.st_ino, S_ISDIR(s.st_mode), 0, 0, 0);
    return 0;
}
int fsync(int fd) { REAL(int, fsync, int); return sync_(fd, real); }
int fdatasync(int fd) { REAL(int, fdatasync, int); return sync_(fd, real); }
int close(int fd) {
    REAL(int, close, int);
    char q[8192];
    struct stat s;
    int e;
    if (!fdpath(fd, q, sizeof q) || fstat(fd, &s) || !S_ISREG(s.st_mode) || (fcntl(fd, F_GETFL) & O_ACCMODE) == O_RDONLY) return real(fd);
    if (fails(1)) { e = errno; rec(CLOSE, e, s.st_ino, 0, 0, 0, 0); real(fd); errno = e; return -1; }
    rec(CLOSE, 0, s.st_ino, 0, 0, 0, 0);
    return real(fd);
}
static int r_rename(int a, const char *p, int b, const char *q, unsigned f) {
    REAL(int, renameat2, int, const char *, int, const char *, unsigned);
    return real(a, p, b, q, f);
}
static int r_link(int a, const char *p, int b, const char *q, int f) {
    REAL(int, linkat, int, const char *, int, const char *, int);
    return real(a, p, b, q, f);
}
static int two(int kind, int d1, const char *a, int d2, const char *b, unsigned fl) {
    char p[8192], q[8192], both[16500];
    struct stat s;
    int r, m;
    m = abspath(d1, a, p, sizeof p) & abspath(d2, b, q, sizeof q);
    if (!m) return kind == RENAME ? r_rename(d1, a, d2, b, fl) : r_link(d1, a, d2, b, fl);
    snprintf(both, sizeof both, "%s%c%s", p, 1, q);
    if (fails(1)) { int e = errno; rec(kind, e, 0, 0, 0, both, strlen(both)); errno = e; return -1; }
    if (kind == RENAME && dst_cap >= 0 && !stat(q, &s) && S_ISREG(s.st_mode) && s.st_nlink == 1) dst_cap += s.st_size;
    r = kind == RENAME ? r_rename(d1, a, d2, b, fl) : r_link(d1, a, d2, b, fl);
    if (!r) rec(kind, 0, 0, 0, 0, both, strlen(both));
    return r;
}
int rename(const char *a, const char *b) { return two(RENAME, AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int c, const char *a, int d, const char *b) { return two(RENAME, c, a, d, b, 0); }
int renameat2(int c, const char *a, int d, const char *b, unsigned f) { return two(RENAME, c, a, d, b, f); }
int link(const char *a, const char *b) { return two(LINK, AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int c, const char *a, int d, const char *b, int f) { return two(LINK, c, a, d, b, f); }
static int r_unlink(int d, const char *p, int f) {
    REAL(int, unlinkat, int, const char *, int);
    return real(d, p, f);
}
static int rm(int d, const char *p, int f) {
    char q[8192];
    struct stat s;
    int r, reg;
    if ((f & AT_REMOVEDIR) || !abspath(d, p, q, sizeof q)) return r_unlink(d, p, f);
    if (fails(1)) { int e = errno; rec(UNLINK, e, 0, 0, 0, q, strlen(q)); errno = e; return -1; }
    reg = !lstat(q, &s) && S_ISREG(s.st_mode) && s.st_nlink == 1;
    r = r_unlink(d, p, f);
    if (!r) { if (reg && dst_cap >= 0) dst_cap += s.st_size; rec(UNLINK, 0, 0, 0, 0, q, strlen(q)); }
    return r;
}
int unlink(const char *p) { return rm(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { return rm(d, p, f); }
int remove(const char *p) { return rm(AT_FDCWD, p, 0); }
'''
OPEN, WRITE, TRUNC, FSYNC, CLOSE, RENAME, UNLINK, LINK = range(1, 9)
NAMES = ['', 'open', 'write', 'truncate', 'fsync', 'close', 'rename', 'unlink', 'link']
O_TRUNC = os.O_TRUNC


class _Fault(ctypes.Structure):
    _fields_ = [('at', ctypes.c_longlong), ('n', ctypes.c_longlong), ('err', ctypes.c_int), ('part', ctypes.c_int)]


class Shim(object):
    """In a process with the shim: arm, disarm."""

    def __init__(self):
        self.c = ctypes.CDLL(os.environ['DST_DISK'])

    def _v(self, t, nm):
        return t.in_dll(self.c, nm)

    def arm(self, root, faults=(), cap=-1):
        r = os.fsencode(os.path.realpath(root))
        self._v(ctypes.c_char * 4096, 'dst_root').value = r
        fs = self._v(_Fault * 8, 'dst_faults')
        for i, (at, n, err, part) in enumerate(faults[:8]):
            fs[i] = _Fault(at, n, err, part)
        self._v(ctypes.c_int, 'dst_nfaults').value = len(faults[:8])
        self._v(ctypes.c_int, 'dst_fired').value = 0
        self._v(ctypes.c_longlong, 'dst_ops').value = 0
        self._v(ctypes.c_longlong, 'dst_len').value = 0
        self._v(ctypes.c_longlong, 'dst_cap').value = cap
        self._v(ctypes.c_int, 'dst_armed').value = 1

    def disarm(self):
        """-> number of operations, number that failed, the record"""
        self._v(ctypes.c_int, 'dst_armed').value = 0
        n = self._v(ctypes.c_longlong, 'dst_len').value
        p = self._v(ctypes.c_void_p, 'dst_log').value
        b = ctypes.string_at(p, n) if n else b''
        return self._v(ctypes.c_longlong, 'dst_ops').value, self._v(ctypes.c_int, 'dst_fired').value, parse(b)


def parse(b):
    out, p = [], 0
    ids = {}        # inode numbers are used again
    while p < len(b):
        kind, err, ino, x, y, n = struct.unpack_from('<6q', b, p)
        p += 48
        if kind == OPEN and y and not err:
            ids[ino] = ('new', len(out))
        ino = ids.get(ino, ino)
        out.append((kind, err, ino, x, y, b[p:p + n]))
        p += n
    return out


def image(d):
    """-> {path: inode}, {inode: contents} of the files below directory d"""
    names, data = {}, {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(os.path.realpath(r), f)
            if os.path.isfile(p) and not os.path.islink(p):
                names[os.fsencode(p)] = os.stat(p).st_ino
                with open(p, 'rb') as h:
                    data[os.stat(p).st_ino] = h.read()
    return names, data


def _write(b, off, d):
    if len(b) < off:
        b = b + bytes(off - len(b))
    return b[:off] + d + b[off + len(d):]


def _meta(names, o):
    """Applies an operation on names"""
    kind, err, ino, x, y, d = o
    if kind == OPEN:
        names[d] = ino
    elif kind == UNLINK:
        names.pop(d, None)
    elif kind in (RENAME, LINK):
        a, b = d.split(b'\1')
        if a in names:
            names[b] = names[a]
            if kind == RENAME:
                del names[a]


def crash(img, ops, k, part):
    """The disk if the process dies after k operations and part/1000 of the next."""
    names, data = dict(img[0]), dict(img[1])
    for i, o in enumerate(ops[:k + 1]):
        kind, err, ino, x, y, d = o
        if err:
            continue
        if i == k:
            if kind != WRITE:
                break
            d = d[:len(d) * part // 1000]
        if kind == OPEN:
            if y or ino not in data:
                _meta(names, o)
                data[ino] = b''
            elif x & O_TRUNC:
                data[ino] = b''
        elif kind == WRITE:
            data[ino] = _write(data.get(ino, b''), x, d)
        elif kind == TRUNC:
            data[ino] = (data.get(ino, b'') + bytes(max(0, x - len(data.get(ino, b'')))))[:x]
        elif kind in (UNLINK, RENAME, LINK):
            _meta(names, o)
    return names, data


def power(img, ops, k, rng, keep):
    """The disk if the power fails after k operations: what was not synced is
    there or not, in pieces of a sector; changes of names not yet followed by
    a sync of a directory are lost from some point on.  keep: chance of an
    unsynced piece to have arrived."""
    names, data = dict(img[0]), dict(img[1])
    ops = [o for o in ops[:k] if not o[1]]
    last = {}
    dirs = 0
    for i, o in enumerate(ops):
        if o[0] == FSYNC:
            if o[3]:
                dirs = i
            else:
                last[o[2]] = i
    meta = [i for i, o in enumerate(ops) if o[0] in (UNLINK, RENAME, LINK) or (o[0] == OPEN and o[4])]
    cut = rng.randrange(sum(i < dirs for i in meta), len(meta) + 1) if meta else 0
    for n, i in enumerate(meta):
        if n < cut:
            _meta(names, ops[i])
    for i, o in enumerate(ops):
        kind, err, ino, x, y, d = o
        if kind == OPEN and (y or ino not in data):
            data[ino] = b''
        synced = i < last.get(ino, -1)
        if kind == OPEN and x & O_TRUNC and (synced or rng.flip(keep)):
            data[ino] = b''
        elif kind == TRUNC and (synced or rng.flip(keep)):
            data[ino] = (data.get(ino, b'') + bytes(max(0, x - len(data.get(ino, b'')))))[:x]
        elif kind == WRITE:
            if synced:
                data[ino] = _write(data.get(ino, b''), x, d)
            else:
                p = 0
                while p < len(d):
                    n = 512 - (x + p) % 512
                    if rng.flip(keep):
                        data[ino] = _write(data.get(ino, b''), x + p, d[p:p + n])
                    p += n
    return names, data


def materialise(img, root, to):
    """Writes an image of the directory `root` to the directory `to`"""
    root = os.fsencode(os.path.realpath(root))
    shutil.rmtree(to, ignore_errors=True)
    os.makedirs(to)
    for p, ino in img[0].items():
        q = os.path.join(os.fsencode(to), os.path.relpath(p, root))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'wb') as f:
            f.write(img[1].get(ino, b''))


def in_fork(fn, timeout=60):
    """('ok', value) | ('exc', text) | ('died', signal)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.alarm(timeout)
        b = b''
        try:
            b = pickle.dumps(('ok', fn()))
        except BaseException as e:
            b = pickle.dumps(('exc', '%s: %s' % (type(e).__name__, str(e)[:200])))
        finally:
            if b:
                with os.fdopen(w, 'wb') as f:
                    f.write(b)
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    s = os.waitpid(pid, 0)[1]
    return pickle.loads(b) if b else ('died', s)


# ---------------------------------------------------------------- the server
def build():
    d = tempfile.mkdtemp(prefix='dstdisk')
    with open(d + '/disk.c', 'w') as f:
        f.write(SHIM)
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-U_FORTIFY_SOURCE', '-o', d + '/disk.so', d + '/disk.c', '-ldl'], check=True)
    return d + '/disk.so'


class Server(object):
    """Runs check modules' `inside(scn, st, dir)` under the shim."""

    def __init__(self, so):
        env = dict(os.environ, LD_PRELOAD=so, DST_DISK=so, PYTHONPATH=os.pathsep.join(sys.path), HDF5_USE_FILE_LOCKING='BEST_EFFORT')
        self.p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'dst.disk'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                  cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

    def run(self, module, scn, st, d):
        from .core import violated
        b = pickle.dumps((module, scn, st, d))
        self.p.stdin.write(struct.pack('<Q', len(b)) + b)
        self.p.stdin.flush()
        n = struct.unpack('<Q', _exact(self.p.stdout, 8))[0]
        v, s = pickle.loads(_exact(self.p.stdout, n))
        if s is not None:
            st.__dict__.update(s.__dict__)
        if v[0] == 'viol':
            violated(*v[1])
        if v[0] == 'err':
            raise RuntimeError(v[1])


def _exact(f, n):
    b = f.read(n)
    if len(b) != n:
        raise RuntimeError('the server ended')
    return b


def main():
    import gc
    import importlib
    import dolfyn            # noqa
    import netCDF4           # noqa
    from .checks.c10 import isolated
    from .core import Violation
    inp, out = os.fdopen(os.dup(0), 'rb'), os.fdopen(os.dup(1), 'wb')
    dn = os.open('/dev/null', os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(2, 1)
    gc.freeze()
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        module, scn, st, d = pickle.loads(_exact(inp, struct.unpack('<Q', h)[0]))
        m = importlib.import_module(module)
        v = ('ok', None)
        try:
            isolated(lambda s: m.inside(scn, s, d), st)
        except Violation as e:
            v = ('viol', (e.kind, e.detail))
        except BaseException as e:
            v = ('err', '%s: %s' % (type(e).__name__, e))
        b = pickle.dumps((v, st))
        out.write(struct.pack('<Q', len(b)) + b)
        out.flush()


if __name__ == '__main__':
    main()
