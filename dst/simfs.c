/* Disk seam: preloaded before libc.  Every operation that changes files below the
 * active root directory is counted, logged into shared memory (which survives the
 * process) and, at the armed operation, failed, shortened, torn or turned into the
 * death of the process. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

enum { T_MARK = 1, T_OPEN, T_WRITE, T_FSYNC, T_CLOSE, T_RENAME, T_UNLINK, T_TRUNC, T_MKDIR, T_RMDIR, T_LINK, T_SYMLINK, T_DIRSYNC };
enum { K_NONE, K_ERR, K_SHORT, K_BEFORE, K_AFTER, K_TORN, K_SHORTERR };
#define CRASH 77
#define NFD 1024

struct hdr { uint32_t magic, type; uint64_t idx, ino, off; int64_t ret; uint32_t err, p1, p2, flags; uint64_t dlen; };
static char *shm; static uint64_t cap;
#define LEN (*(volatile uint64_t *)shm)
static char root[4096]; static size_t rootlen;
static int on, kind, eno, persist; static long at, count, fired; static double frac;
static struct { char used, wr, app, dir; uint64_t ino; } fds[NFD];

#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); \
    static void init_##name(void) { if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name); }
REAL(int, openat, int, const char *, int, ...)
REAL(int, close, int)
REAL(ssize_t, write, int, const void *, size_t)
REAL(ssize_t, pwrite, int, const void *, size_t, off_t)
REAL(ssize_t, writev, int, const struct iovec *, int)
REAL(int, fsync, int)
REAL(int, fdatasync, int)
REAL(int, renameat, int, const char *, int, const char *)
REAL(int, unlinkat, int, const char *, int)
REAL(int, ftruncate, int, off_t)
REAL(int, mkdir, const char *, mode_t)
REAL(int, link, const char *, const char *)
REAL(int, symlink, const char *, const char *)
REAL(ssize_t, sendfile, int, int, off_t *, size_t)
REAL(ssize_t, copy_file_range, int, off_t *, int, off_t *, size_t, unsigned)

static void norm(char *p)
{
    char buf[8192]; char *seg[512]; int n = 0; char *save = NULL;
    snprintf(buf, sizeof buf, "%s", p);
    for (char *s = strtok_r(buf, "/", &save); s; s = strtok_r(NULL, "/", &save)) {
        if (!strcmp(s, ".")) continue;
        if (!strcmp(s, "..")) { if (n) n--; continue; }
        if (n < 512) seg[n++] = s;
    }
    char *o = p; *o = 0;
    for (int i = 0; i < n; i++) { *o++ = '/'; size_t l = strlen(seg[i]); memcpy(o, seg[i], l); o += l; *o = 0; }
    if (!n) strcpy(p, "/");
}

/* absolute path below the root, or 0 */
static int inroot(int dfd, const char *path, char *out)
{
    if (!on || !path) return 0;
    if (path[0] == '/') snprintf(out, 8192, "%s", path);
    else {
        char d[4096];
        if (dfd == AT_FDCWD) { if (!getcwd(d, sizeof d)) return 0; }
        else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dfd); ssize_t n = readlink(l, d, sizeof d - 1); if (n < 0) return 0; d[n] = 0; }
        snprintf(out, 8192, "%s/%s", d, path);
    }
    norm(out);
    return !strncmp(out, root, rootlen) && (out[rootlen] == '/' || !out[rootlen]);
}
static const char *rel(const char *p) { p += rootlen; return *p == '/' ? p + 1 : p; }

static void rec(int type, uint64_t ino, uint64_t off, int64_t ret, int err, int flags, const char *p1, const char *p2, const void *data, uint64_t dlen)
{
    if (!shm) return;
    struct hdr h = { 0x51f5, (uint32_t)type, (uint64_t)count, ino, off, ret, (uint32_t)err, p1 ? strlen(p1) : 0, p2 ? strlen(p2) : 0, (uint32_t)flags, dlen };
    uint64_t need = sizeof h + h.p1 + h.p2 + dlen;
    uint64_t l = LEN;
    if (8 + l + need > cap) { LEN = UINT64_MAX; _exit(78); }
    char *q = shm + 8 + l;
    memcpy(q, &h, sizeof h); q += sizeof h;
    if (p1) { memcpy(q, p1, h.p1); q += h.p1; }
    if (p2) { memcpy(q, p2, h.p2); q += h.p2; }
    if (dlen) memcpy(q, data, dlen);
    LEN = l + need;
}

/* 0 = proceed normally, else the fault kind for this operation */
static int hit(int type)
{
    count++;
    if (!kind || !at) return 0;
    if (kind == K_SHORTERR && count > at && (type == T_WRITE || type == T_OPEN || type == T_MKDIR)) { fired++; return K_ERR; }
    if (count == at || (kind == K_ERR && persist && count > at && type != T_UNLINK && type != T_CLOSE)) { fired++; return kind; }
    return 0;
}
static void die(void) { _exit(CRASH); }
#define PRE(type) int k_ = hit(type); if (k_ == K_BEFORE || (k_ == K_TORN && type != T_WRITE)) die(); \
    int fail_ = k_ == K_ERR
#define POST() do { if (k_ == K_AFTER) die(); } while (0)

static uint64_t inode(int fd) { struct stat s; return fstat(fd, &s) ? 0 : s.st_ino; }
static uint64_t pinode(const char *p) { struct stat s; return lstat(p, &s) ? 0 : s.st_ino; }

static int do_open(int dfd, const char *path, int flags, mode_t mode)
{
    char p[8192];
    init_openat();
    if (!inroot(dfd, path, p)) return real_openat(dfd, path, flags, mode);
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!wr || (flags & O_TMPFILE) == O_TMPFILE) {
        int fd = real_openat(dfd, path, flags, mode);
        if (fd >= 0 && fd < NFD) {
            struct stat s; fds[fd].used = 1; fds[fd].wr = 0; fds[fd].dir = !fstat(fd, &s) && S_ISDIR(s.st_mode); fds[fd].ino = s.st_ino;
            if (wr) { fds[fd].wr = 1; fds[fd].dir = 0; }
        }
        return fd;
    }
    PRE(T_OPEN);
    if (fail_) { rec(T_OPEN, 0, 0, -1, eno, flags, rel(p), NULL, NULL, 0); errno = eno; return -1; }
    uint64_t old = pinode(p);
    struct stat st; int64_t oldsize = old && !stat(p, &st) ? st.st_size : -1;
    int fd = real_openat(dfd, path, flags, mode);
    int e = errno;
    if (fd >= 0 && fd < NFD) {
        fds[fd].used = fds[fd].wr = 1; fds[fd].app = !!(flags & O_APPEND); fds[fd].dir = 0; fds[fd].ino = inode(fd);
    }
    rec(T_OPEN, fd >= 0 ? inode(fd) : 0, (uint64_t)(oldsize + 1), fd, fd < 0 ? e : 0, flags, rel(p), NULL, NULL, 0);
    POST();
    errno = e;
    return fd;
}
#define OPENARGS mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { OPENARGS return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { OPENARGS return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m); }
int openat(int d, const char *p, int flags, ...) { OPENARGS return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { OPENARGS return do_open(d, p, flags | O_LARGEFILE, m); }
int __open_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __open64_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __openat_2(int d, const char *p, int flags) { return do_open(d, p, flags, 0); }
int __openat64_2(int d, const char *p, int flags) { return do_open(d, p, flags, 0); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int tracked(int fd) { return on && fd >= 0 && fd < NFD && fds[fd].used; }

int close(int fd)
{
    init_close();
    if (!tracked(fd)) { if (fd >= 0 && fd < NFD) fds[fd].used = 0; return real_close(fd); }
    int wr = fds[fd].wr; uint64_t ino = fds[fd].ino;
    fds[fd].used = 0;
    if (!wr) return real_close(fd);
    PRE(T_CLOSE);
    int r = real_close(fd), e = errno;
    if (fail_) { r = -1; e = eno; }
    rec(T_CLOSE, ino, 0, r, r < 0 ? e : 0, 0, NULL, NULL, NULL, 0);
    POST();
    errno = e;
    return r;
}

static ssize_t wr_at(int fd, const void *b, size_t n, int64_t off)
{
    init_write(); init_pwrite();
    int64_t pos = off;
    if (off < 0) {
        struct stat s;
        pos = fds[fd].app && !fstat(fd, &s) ? s.st_size : lseek(fd, 0, SEEK_CUR);
    }
    PRE(T_WRITE);
    if (fail_) { rec(T_WRITE, fds[fd].ino, pos, -1, eno, 0, NULL, NULL, NULL, 0); errno = eno; return -1; }
    size_t m = n;
    if (k_ == K_SHORT || k_ == K_TORN || k_ == K_SHORTERR) { m = (size_t)(frac * n); if (k_ != K_TORN && !m && n) m = 1; }
    ssize_t r = m == 0 && n ? 0 : off < 0 ? real_write(fd, b, m) : real_pwrite(fd, b, m, off);
    int e = errno;
    rec(T_WRITE, fds[fd].ino, pos, r, r < 0 ? e : 0, (int)0, NULL, NULL, b, r > 0 ? (uint64_t)r : 0);
    if (k_ == K_TORN) die();
    POST();
    errno = e;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { if (tracked(fd) && fds[fd].wr) return wr_at(fd, b, n, -1); init_write(); return real_write(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (tracked(fd) && fds[fd].wr) return wr_at(fd, b, n, o); init_pwrite(); return real_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (tracked(fd) && fds[fd].wr) {
        ssize_t t = 0;
        for (int i = 0; i < c; i++) {
            if (!v[i].iov_len) continue;
            ssize_t r = wr_at(fd, v[i].iov_base, v[i].iov_len, -1);
            if (r < 0) return t ? t : -1;
            t += r;
            if ((size_t)r < v[i].iov_len) break;
        }
        return t;
    }
    init_writev();
    return real_writev(fd, v, c);
}
/* no kernel copies into the simulated disk: callers fall back to read/write */
ssize_t sendfile(int o, int i, off_t *off, size_t n) { if (tracked(o) && fds[o].wr) { errno = ENOTSOCK; return -1; } init_sendfile(); return real_sendfile(o, i, off, n); }
ssize_t sendfile64(int o, int i, off_t *off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int i, off_t *io, int o, off_t *oo, size_t n, unsigned f) { if (tracked(o) && fds[o].wr) { errno = EXDEV; return -1; } init_copy_file_range(); return real_copy_file_range(i, io, o, oo, n, f); }

static int sync_(int fd, int (*f)(int))
{
    int type = fds[fd].dir ? T_DIRSYNC : T_FSYNC;
    PRE(type);
    if (fail_) { rec(type, fds[fd].ino, 0, -1, eno, 0, NULL, NULL, NULL, 0); errno = eno; return -1; }
    int r = 0;              /* durability is modelled, the host disk need not be bothered */
    (void)f;
    rec(type, fds[fd].ino, 0, r, 0, 0, NULL, NULL, NULL, 0);
    POST();
    return r;
}
int fsync(int fd) { init_fsync(); return tracked(fd) ? sync_(fd, real_fsync) : real_fsync(fd); }
int fdatasync(int fd) { init_fdatasync(); return tracked(fd) ? sync_(fd, real_fdatasync) : real_fdatasync(fd); }

int renameat(int da, const char *a, int db, const char *b)
{
    char p[8192], q[8192];
    init_renameat();
    int ia = inroot(da, a, p), ib = inroot(db, b, q);
    if (!ia && !ib) return real_renameat(da, a, db, b);
    PRE(T_RENAME);
    const char *ra = ia ? rel(p) : "", *rb = ib ? rel(q) : "";
    if (fail_) { rec(T_RENAME, 0, 0, -1, eno, 0, ra, rb, NULL, 0); errno = eno; return -1; }
    uint64_t ino = ia ? pinode(p) : 0;
    int r = real_renameat(da, a, db, b), e = errno;
    rec(T_RENAME, ino, 0, r, r < 0 ? e : 0, 0, ra, rb, NULL, 0);
    POST();
    errno = e;
    return r;
}
int rename(const char *a, const char *b) { return renameat(AT_FDCWD, a, AT_FDCWD, b); }

int unlinkat(int d, const char *a, int fl)
{
    char p[8192];
    init_unlinkat();
    if (!inroot(d, a, p)) return real_unlinkat(d, a, fl);
    int type = (fl & AT_REMOVEDIR) ? T_RMDIR : T_UNLINK;
    PRE(type);
    if (fail_) { rec(type, 0, 0, -1, eno, 0, rel(p), NULL, NULL, 0); errno = eno; return -1; }
    int r = real_unlinkat(d, a, fl), e = errno;
    rec(type, 0, 0, r, r < 0 ? e : 0, 0, rel(p), NULL, NULL, 0);
    POST();
    errno = e;
    return r;
}
int unlink(const char *a) { return unlinkat(AT_FDCWD, a, 0); }
int rmdir(const char *a) { return unlinkat(AT_FDCWD, a, AT_REMOVEDIR); }
int remove(const char *a) { struct stat s; if (!lstat(a, &s) && S_ISDIR(s.st_mode)) return rmdir(a); return unlink(a); }

int ftruncate(int fd, off_t n)
{
    init_ftruncate();
    if (!tracked(fd)) return real_ftruncate(fd, n);
    PRE(T_TRUNC);
    if (fail_) { rec(T_TRUNC, fds[fd].ino, n, -1, eno, 0, NULL, NULL, NULL, 0); errno = eno; return -1; }
    int r = real_ftruncate(fd, n), e = errno;
    rec(T_TRUNC, fds[fd].ino, n, r, r < 0 ? e : 0, 0, NULL, NULL, NULL, 0);
    POST();
    errno = e;
    return r;
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }

int mkdir(const char *a, mode_t m)
{
    char p[8192];
    init_mkdir();
    if (!inroot(AT_FDCWD, a, p)) return real_mkdir(a, m);
    PRE(T_MKDIR);
    if (fail_) { rec(T_MKDIR, 0, 0, -1, eno, 0, rel(p), NULL, NULL, 0); errno = eno; return -1; }
    int r = real_mkdir(a, m), e = errno;
    rec(T_MKDIR, 0, 0, r, r < 0 ? e : 0, 0, rel(p), NULL, NULL, 0);
    POST();
    errno = e;
    return r;
}
int link(const char *a, const char *b)
{
    char p[8192], q[8192];
    init_link();
    int ia = inroot(AT_FDCWD, a, p), ib = inroot(AT_FDCWD, b, q);
    if (!ib) return real_link(a, b);
    PRE(T_LINK);
    if (fail_) { rec(T_LINK, 0, 0, -1, eno, 0, ia ? rel(p) : "", rel(q), NULL, 0); errno = eno; return -1; }
    int r = real_link(a, b), e = errno;
    rec(T_LINK, pinode(q), 0, r, r < 0 ? e : 0, 0, ia ? rel(p) : "", rel(q), NULL, 0);
    POST();
    errno = e;
    return r;
}
int symlink(const char *a, const char *b)
{
    char q[8192];
    init_symlink();
    if (!inroot(AT_FDCWD, b, q)) return real_symlink(a, b);
    PRE(T_SYMLINK);
    if (fail_) { rec(T_SYMLINK, 0, 0, -1, eno, 0, a, rel(q), NULL, 0); errno = eno; return -1; }
    int r = real_symlink(a, b), e = errno;
    rec(T_SYMLINK, 0, 0, r, r < 0 ? e : 0, 0, a, rel(q), NULL, 0);
    POST();
    errno = e;
    return r;
}

/* -- control ------------------------------------------------------------- */
void *simfs_shared(uint64_t n)
{
    if (!shm) {
        char *m = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) return NULL;
        shm = m; cap = n;
    }
    return shm;
}
void simfs_reset(void) { if (shm) LEN = 0; }
void simfs_root(const char *r) { memset(fds, 0, sizeof fds); if (r) { snprintf(root, sizeof root, "%s", r); rootlen = strlen(root); on = 1; } else on = 0; }
void simfs_arm(long a, int k, int e, int p, double f) { at = a; kind = k; eno = e; persist = p; frac = f; count = 0; fired = 0; }
long simfs_count(void) { return count; }
long simfs_fired(void) { return fired; }
void simfs_mark(const char *s, uint64_t n) { rec(T_MARK, 0, 0, 0, 0, 0, NULL, NULL, s, n); }
void simfs_die(void) { _exit(CRASH); }
