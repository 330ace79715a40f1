/* Seam between at-asm and the operating system: every call that touches files is announced
 * to the simulator, which answers what is to happen. Without ATSIM_FD it does nothing. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <termios.h>
#include <asm/ioctls.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#undef fstat64
#undef stat64
#undef lstat64

struct req { int32_t op, fd; int64_t len, prev; int32_t perr, flags; char path[1024], path2[1024]; };
struct rsp { int32_t verdict, err; int64_t n; };
/* verdicts */
enum { GO = 0, CLIP = 1, FAIL = 2, KILL_BEFORE = 3, KILL_AFTER = 4, CLIP_KILL = 5, ZERO = 6, GIFT = 7 };
/* operations */
enum { START = 1, OPEN, READ, WRITE, CLOSE, STAT, FSTAT, LSTAT, UNLINK, RENAME, TRUNC, SYNC, SEEK, LINK, SYMLINK,
       MKDIR, RMDIR, CHMOD, DUP, COPY, READLINK, ACCESS, OTHER, NOMEM, CLOCK, ENTROPY };

static int chan = -1;
static char root[512];
static int64_t prev_ret; static int32_t prev_err;
static uint64_t entropy = 1, ticks = 0; static int64_t clock_base = 1700000000, clock_step = 1; static long fake_pid = 1000;
static uint64_t asked_env; static char *decoy; extern char **environ;
static int inode_world = 0, cpus = 0;
static long oom_at = -1, oom_n = 0, oom_min = 0; static int oom_sticky = 0, heap_fill = 0;
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static ssize_t raw_send(const void *p, size_t n) { ssize_t r; do r = syscall(SYS_sendto, chan, p, n, MSG_NOSIGNAL, 0, 0); while (r < 0 && errno == EINTR); return r; }
static ssize_t raw_recv(void *p, size_t n) { ssize_t r; do r = syscall(SYS_recvfrom, chan, p, n, 0, 0, 0); while (r < 0 && errno == EINTR); return r; }
static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) syscall(SYS_pause); }

static struct rsp ask(int op, int fd, int64_t len, int flags, const char *p, const char *p2) {
    struct req q; struct rsp a = {0};
    int e = errno;
    memset(&q, 0, sizeof q);
    q.op = op; q.fd = fd; q.len = len; q.prev = prev_ret; q.perr = prev_err; q.flags = flags;
    if (p) strncpy(q.path, p, sizeof q.path - 1);
    if (p2) strncpy(q.path2, p2, sizeof q.path2 - 1);
    ticks++;
    pthread_mutex_lock(&mu);
    if (raw_send(&q, sizeof q) < 0 || raw_recv(&a, sizeof a) != sizeof a) die();
    pthread_mutex_unlock(&mu);
    if (a.verdict == KILL_BEFORE) die();
    errno = e;
    return a;
}
static long done(struct rsp a, long r) {
    prev_ret = r; prev_err = r < 0 ? errno : 0;
    if (a.verdict == KILL_AFTER || a.verdict == CLIP_KILL) die();
    return r;
}
static long refuse(struct rsp a) { errno = a.err; prev_ret = -1; prev_err = a.err; return -1; }

/* absolute form of a path given relative to a directory fd; "" if unknown */
static void absolute(int dfd, const char *p, char *out) {
    char base[PATH_MAX];
    out[0] = 0;
    if (!p) return;
    if (p[0] == '/') { snprintf(out, 1024, "%s", p); return; }
    if (dfd == AT_FDCWD) { if (syscall(SYS_getcwd, base, sizeof base) < 0) return; }
    else {
        char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
        long n = syscall(SYS_readlinkat, AT_FDCWD, l, base, sizeof base - 1);
        if (n < 0) return;
        base[n] = 0;
    }
    if (!p[0]) snprintf(out, 1024, "%.1000s", base); else snprintf(out, 1024, "%.500s/%.500s", base, p);
}
/* Does changing this path stay inside the scratch directory? */
static int inside(const char *abs) {
    char dir[1100], real[PATH_MAX];
    if (!abs[0]) return 0;
    snprintf(dir, sizeof dir, "%s", abs);
    char *s = strrchr(dir, '/');
    if (!s) return 0;
    if (s == dir) s[1] = 0; else *s = 0;
    long fd = syscall(SYS_openat, AT_FDCWD, abs, O_PATH | O_CLOEXEC);
    if (fd < 0) fd = syscall(SYS_openat, AT_FDCWD, dir, O_PATH | O_CLOEXEC);
    if (fd < 0) return 1; /* neither file nor directory exists: the call cannot change anything */
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%ld", fd);
    long n = syscall(SYS_readlinkat, AT_FDCWD, l, real, sizeof real - 1);
    syscall(SYS_close, fd);
    if (n < 0) return 0;
    real[n] = 0;
    size_t k = strlen(root);
    return strncmp(real, root, k) == 0 && (real[k] == 0 || real[k] == '/');
}
static int contained(int dfd, const char *p) {
    char a[1024];
    absolute(dfd, p, a);
    if (!strcmp(a, "/dev/null")) return 1;
    return inside(a);
}

__attribute__((constructor)) static void init(void) {
    const char *f = getenv("ATSIM_FD");
    if (!f) return;
    chan = atoi(f);
    const char *r = getenv("ATSIM_ROOT");
    snprintf(root, sizeof root, "%s", r ? r : "/nonexistent");
    const char *s = getenv("ATSIM_SEED");
    if (s) entropy = strtoull(s, 0, 10);
    const char *p = getenv("ATSIM_PID");
    if (p) fake_pid = atol(p);
    const char *c = getenv("ATSIM_CLOCK");
    if (c) sscanf(c, "%ld:%ld", &clock_base, &clock_step);
    ask(START, -1, 0, 0, 0, 0);
    long shift = 0;
    const char *h = getenv("ATSIM_HEAP");
    if (h) sscanf(h, "%ld:%d", &shift, &heap_fill);
    if (shift) { volatile char *v = __libc_malloc(shift * 48); (void)v; }
    const char *o = getenv("ATSIM_OOM");
    if (o) sscanf(o, "%ld:%d:%ld", &oom_at, &oom_sticky, &oom_min);
    const char *in = getenv("ATSIM_INO");
    if (in) inode_world = atoi(in);
    unsetenv("ATSIM_INO");
    const char *e = getenv("ATSIM_ENV");
    uint64_t ae = e ? strtoull(e, 0, 10) : 0;
    const char *dc = getenv("ATSIM_DECOY");
    char *dd = dc ? strdup(dc) : 0;
    unsetenv("ATSIM_DECOY");
    unsetenv("ATSIM_ENV"); unsetenv("ATSIM_FD"); unsetenv("ATSIM_ROOT"); unsetenv("ATSIM_SEED"); unsetenv("ATSIM_PID"); unsetenv("ATSIM_CLOCK"); unsetenv("ATSIM_HEAP"); unsetenv("ATSIM_OOM");
    asked_env = ae; decoy = dd; cpus = ae ? 1 + ae % 300 : 0;
}

/* environment: a variable the program asks for by name is there or not as the seed says, whatever its name */
char *getenv(const char *name) {
    static const char *const values[] = { "", "0", "1", "2", "true", "no", "10.15", "/nonexistent", "debug", "255", "C" };
    size_t k = strlen(name);
    if (!k || strchr(name, '=')) return 0;
    for (char **e = environ; e && *e; e++) if (!strncmp(*e, name, k) && (*e)[k] == '=') return *e + k + 1;
    if (!asked_env || !strncmp(name, "RUST_", 5) || !strncmp(name, "LD_", 3) || !strncmp(name, "ATSIM_", 6)) return 0;
    uint64_t h = asked_env;
    for (size_t i = 0; i < k; i++) h = (h ^ (uint8_t)name[i]) * 1099511628211ull;
    h ^= h >> 29; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 32;
    if (decoy && (h >> 40) % 3 == 0) return decoy;
    return h & 1 ? 0 : (char *)values[(h >> 8) % (sizeof values / sizeof *values)];
}
char *secure_getenv(const char *name) { return getenv(name); }

/* memory: an allocation the simulator refuses, and heap contents and addresses that vary with the seed */
static int no_memory(size_t n) {
    if (chan < 0 || oom_at < 0 || n < (size_t)oom_min) return 0;
    long k = oom_n++;
    if (k != oom_at && !(oom_sticky && k > oom_at)) return 0;
    ask(NOMEM, -1, n, 0, 0, 0);
    errno = ENOMEM;
    return 1;
}
void *malloc(size_t n) {
    if (no_memory(n)) return 0;
    void *p = __libc_malloc(n);
    if (p && heap_fill) memset(p, heap_fill, n);
    return p;
}
void *calloc(size_t a, size_t b) { return b && a > SIZE_MAX / b ? (errno = ENOMEM, (void *)0) : no_memory(a * b) ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return no_memory(n) ? 0 : __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { return no_memory(n) ? 0 : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }

#define MINE(fd) (chan >= 0 && (fd) != chan)

/* a file the program looks for and does not find is there after all, with unforeseen contents */
static const char *gift(struct rsp v, char *out) { snprintf(out, 600, "%s/gift%d", root, (int)v.n); return out; }

static int do_open(int dfd, const char *p, int flags, mode_t mode) {
    if (chan < 0) return syscall(SYS_openat, dfd, p, flags, mode);
    char a[1024]; absolute(dfd, p, a);
    if (!strncmp(a, "/proc/", 6) || !strncmp(a, "/sys/", 5) || !strncmp(a, "/etc/", 5) || !strncmp(a, "/lib", 4) || !strncmp(a, "/usr/", 5)) {
        if ((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC))) return syscall(SYS_openat, dfd, p, flags, mode);
    }
    struct rsp v = ask(OPEN, dfd, mode, flags, a, 0);
    if (v.verdict == FAIL) return refuse(v);
    if (v.verdict == GIFT) { char g[600]; return done(v, syscall(SYS_openat, AT_FDCWD, gift(v, g), O_RDONLY | O_CLOEXEC)); }
    int changes = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (changes && !contained(dfd, p)) { errno = EACCES; return done(v, -1); }
    return done(v, syscall(SYS_openat, dfd, p, flags, mode));
}
#define VAMODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { VAMODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { VAMODE return do_open(AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int d, const char *p, int fl, ...) { VAMODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { VAMODE return do_open(d, p, fl | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }

/* data transfer on vectors; `how`: 0 read, 1 write; off < 0: current position */
static ssize_t xfer(int how, int fd, const struct iovec *iov, int n, off64_t off) {
    size_t total = 0;
    for (int i = 0; i < n; i++) total += iov[i].iov_len;
    size_t lim = total; struct rsp v = {0};
    if (MINE(fd)) {
        v = ask(how ? WRITE : READ, fd, total, off >= 0, 0, 0);
        if (v.verdict == FAIL) return refuse(v);
        if (v.verdict == ZERO) return done(v, 0);
        if ((v.verdict == CLIP || v.verdict == CLIP_KILL) && (size_t)v.n < lim) lim = v.n;
    }
    struct iovec c[64]; int k = 0; size_t left = lim;
    for (int i = 0; i < n && i < 64 && (left || !lim); i++) {
        c[k] = iov[i];
        if (c[k].iov_len > left) c[k].iov_len = left;
        left -= c[k].iov_len; k++;
        if (!left) break;
    }
    ssize_t r;
    if (lim == 0 && total > 0) r = 0;
    else if (off >= 0) r = syscall(how ? SYS_pwritev : SYS_preadv, fd, c, k, (long)off, 0L);
    else r = syscall(how ? SYS_writev : SYS_readv, fd, c, k);
    return MINE(fd) ? done(v, r) : r;
}
ssize_t read(int fd, void *b, size_t n) { struct iovec v = {b, n}; return xfer(0, fd, &v, 1, -1); }
ssize_t write(int fd, const void *b, size_t n) { struct iovec v = {(void *)b, n}; return xfer(1, fd, &v, 1, -1); }
ssize_t readv(int fd, const struct iovec *v, int n) { return xfer(0, fd, v, n, -1); }
ssize_t writev(int fd, const struct iovec *v, int n) { return xfer(1, fd, v, n, -1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { struct iovec v = {b, n}; return xfer(0, fd, &v, 1, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { struct iovec v = {b, n}; return xfer(0, fd, &v, 1, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { struct iovec v = {(void *)b, n}; return xfer(1, fd, &v, 1, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { struct iovec v = {(void *)b, n}; return xfer(1, fd, &v, 1, o); }

int close(int fd) {
    if (!MINE(fd)) { if (chan >= 0 && fd == chan) return 0; return syscall(SYS_close, fd); }
    struct rsp v = ask(CLOSE, fd, 0, 0, 0, 0);
    long r = syscall(SYS_close, fd);
    if (v.verdict == FAIL) return refuse(v);
    return done(v, r);
}

#define SIMPLE(op, fd, len, fl, p1, p2, change, call) \
    struct rsp v = {0}; \
    if (chan >= 0) { v = ask(op, fd, len, fl, p1, p2); if (v.verdict == FAIL) return refuse(v); if (!(change)) { errno = EACCES; return done(v, -1); } } \
    long r = (call); return chan >= 0 ? done(v, r) : r;
#define ABS1(d, p) char a1[1024] = ""; if (chan >= 0) absolute(d, p, a1);
#define ABS2(d, p) char a2[1024] = ""; if (chan >= 0) absolute(d, p, a2);

/* file identities as other file systems give them: 1 equal inode numbers on different devices,
 * 2 inode numbers that differ in their upper half only */
static void identity(uint64_t ino, uint64_t dev, uint64_t *nino, uint64_t *ndev) {
    *nino = ino; *ndev = dev;
    if (inode_world == 1) { *nino = 7; *ndev = ino ^ dev << 40; }
    if (inode_world == 2) *nino = ino << 32 | 7;
}
static long did_stat(long r, struct stat *s) {
    uint64_t i, d;
    if (r == 0 && chan >= 0) { identity(s->st_ino, s->st_dev, &i, &d); s->st_ino = i; s->st_dev = d; }
    return r;
}
static long did_statx(long r, struct statx *s) {
    uint64_t i, d;
    if (r == 0 && chan >= 0 && inode_world) {
        identity(s->stx_ino, (uint64_t)s->stx_dev_major << 20 | s->stx_dev_minor, &i, &d);
        s->stx_ino = i;
        if (inode_world == 1) { s->stx_dev_major = d >> 32; s->stx_dev_minor = d; }
    }
    return r;
}
#define STATS(op, fd, fl, path, call, after) \
    struct rsp v = {0}; char g[600]; int z = 0; \
    if (chan >= 0) { v = ask(op, fd, 0, fl, path, 0); if (v.verdict == FAIL) return refuse(v); z = v.verdict == GIFT; if (z) gift(v, g); } \
    (void)z; (void)g; \
    long r = after((call), s); return chan >= 0 ? done(v, r) : r;

int statx(int d, const char *restrict p, int fl, unsigned m, struct statx *restrict s) {
    ABS1(d, p)
    STATS((fl & AT_EMPTY_PATH) && p && !p[0] ? FSTAT : (fl & AT_SYMLINK_NOFOLLOW) ? LSTAT : STAT, d, 0, a1, syscall(SYS_statx, d, z ? g : p, fl, m, s), did_statx)
}
int fstat(int fd, struct stat *s) { STATS(FSTAT, fd, 0, 0, syscall(SYS_fstat, fd, s), did_stat) }
int fstat64(int fd, struct stat64 *s) { return fstat(fd, (struct stat *)s); }
int stat(const char *restrict p, struct stat *restrict s) { ABS1(AT_FDCWD, p) STATS(STAT, -1, 0, a1, syscall(SYS_newfstatat, AT_FDCWD, z ? g : p, s, 0), did_stat) }
int stat64(const char *restrict p, struct stat64 *restrict s) { return stat(p, (struct stat *)s); }
int lstat(const char *restrict p, struct stat *restrict s) { ABS1(AT_FDCWD, p) STATS(LSTAT, -1, 0, a1, syscall(SYS_newfstatat, AT_FDCWD, z ? g : p, s, AT_SYMLINK_NOFOLLOW), did_stat) }
int lstat64(const char *restrict p, struct stat64 *restrict s) { return lstat(p, (struct stat *)s); }
int fstatat(int d, const char *restrict p, struct stat *restrict s, int fl) { ABS1(d, p) STATS(STAT, d, fl, a1, syscall(SYS_newfstatat, d, z ? g : p, s, fl), did_stat) }
int fstatat64(int d, const char *restrict p, struct stat64 *restrict s, int fl) { return fstatat(d, p, (struct stat *)s, fl); }
int access(const char *p, int m) { ABS1(AT_FDCWD, p) SIMPLE(ACCESS, -1, m, 0, a1, 0, 1, syscall(SYS_access, p, m)) }
int faccessat(int d, const char *p, int m, int fl) { ABS1(d, p) SIMPLE(ACCESS, d, m, fl, a1, 0, 1, syscall(SYS_faccessat, d, p, m)) }
ssize_t readlink(const char *restrict p, char *restrict b, size_t n) { ABS1(AT_FDCWD, p) SIMPLE(READLINK, -1, 0, 0, a1, 0, 1, syscall(SYS_readlink, p, b, n)) }
int unlink(const char *p) { ABS1(AT_FDCWD, p) SIMPLE(UNLINK, -1, 0, 0, a1, 0, contained(AT_FDCWD, p), syscall(SYS_unlink, p)) }
int unlinkat(int d, const char *p, int fl) { ABS1(d, p) SIMPLE((fl & AT_REMOVEDIR) ? RMDIR : UNLINK, d, 0, fl, a1, 0, contained(d, p), syscall(SYS_unlinkat, d, p, fl)) }
int remove(const char *p) { return unlink(p); }
int rename(const char *p, const char *q) { ABS1(AT_FDCWD, p) ABS2(AT_FDCWD, q) SIMPLE(RENAME, -1, 0, 0, a1, a2, contained(AT_FDCWD, p) && contained(AT_FDCWD, q), syscall(SYS_rename, p, q)) }
int renameat(int d, const char *p, int e, const char *q) { ABS1(d, p) ABS2(e, q) SIMPLE(RENAME, -1, 0, 0, a1, a2, contained(d, p) && contained(e, q), syscall(SYS_renameat, d, p, e, q)) }
int renameat2(int d, const char *p, int e, const char *q, unsigned fl) { ABS1(d, p) ABS2(e, q) SIMPLE(RENAME, -1, 0, fl, a1, a2, contained(d, p) && contained(e, q), syscall(SYS_renameat2, d, p, e, q, fl)) }
int link(const char *p, const char *q) { ABS1(AT_FDCWD, p) ABS2(AT_FDCWD, q) SIMPLE(LINK, -1, 0, 0, a1, a2, contained(AT_FDCWD, q), syscall(SYS_link, p, q)) }
int linkat(int d, const char *p, int e, const char *q, int fl) { ABS1(d, p) ABS2(e, q) SIMPLE(LINK, -1, 0, 0, a1, a2, contained(e, q), syscall(SYS_linkat, d, p, e, q, fl)) }
int symlink(const char *p, const char *q) { ABS2(AT_FDCWD, q) SIMPLE(SYMLINK, -1, 0, 0, p, a2, contained(AT_FDCWD, q), syscall(SYS_symlink, p, q)) }
int symlinkat(const char *p, int e, const char *q) { ABS2(e, q) SIMPLE(SYMLINK, -1, 0, 0, p, a2, contained(e, q), syscall(SYS_symlinkat, p, e, q)) }
int mkdir(const char *p, mode_t m) { ABS1(AT_FDCWD, p) SIMPLE(MKDIR, -1, m, 0, a1, 0, contained(AT_FDCWD, p), syscall(SYS_mkdir, p, m)) }
int mkdirat(int d, const char *p, mode_t m) { ABS1(d, p) SIMPLE(MKDIR, -1, m, 0, a1, 0, contained(d, p), syscall(SYS_mkdirat, d, p, m)) }
int rmdir(const char *p) { ABS1(AT_FDCWD, p) SIMPLE(RMDIR, -1, 0, 0, a1, 0, contained(AT_FDCWD, p), syscall(SYS_rmdir, p)) }
int truncate(const char *p, off_t n) { ABS1(AT_FDCWD, p) SIMPLE(TRUNC, -1, n, 0, a1, 0, contained(AT_FDCWD, p), syscall(SYS_truncate, p, n)) }
int truncate64(const char *p, off64_t n) { return truncate(p, n); }
int ftruncate(int fd, off_t n) { SIMPLE(TRUNC, fd, n, 0, 0, 0, 1, syscall(SYS_ftruncate, fd, n)) }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fallocate(int fd, int m, off_t o, off_t n) { SIMPLE(TRUNC, fd, n, m, 0, 0, 1, syscall(SYS_fallocate, fd, m, o, n)) }
int fallocate64(int fd, int m, off64_t o, off64_t n) { return fallocate(fd, m, o, n); }
int posix_fallocate(int fd, off_t o, off_t n) { int r = fallocate(fd, 0, o, n); return r < 0 ? errno : 0; }
int posix_fallocate64(int fd, off64_t o, off64_t n) { return posix_fallocate(fd, o, n); }
int fsync(int fd) { SIMPLE(SYNC, fd, 0, 0, 0, 0, 1, syscall(SYS_fsync, fd)) }
int fdatasync(int fd) { SIMPLE(SYNC, fd, 0, 0, 0, 0, 1, syscall(SYS_fdatasync, fd)) }
int syncfs(int fd) { SIMPLE(SYNC, fd, 0, 0, 0, 0, 1, syscall(SYS_fsync, fd)) }
void sync(void) {}
off_t lseek(int fd, off_t o, int w) { SIMPLE(SEEK, fd, o, w, 0, 0, 1, syscall(SYS_lseek, fd, o, w)) }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int chmod(const char *p, mode_t m) { ABS1(AT_FDCWD, p) SIMPLE(CHMOD, -1, m, 0, a1, 0, contained(AT_FDCWD, p), syscall(SYS_chmod, p, m)) }
int fchmod(int fd, mode_t m) { SIMPLE(CHMOD, fd, m, 0, 0, 0, 1, syscall(SYS_fchmod, fd, m)) }
int fchmodat(int d, const char *p, mode_t m, int fl) { (void)fl; ABS1(d, p) SIMPLE(CHMOD, -1, m, 0, a1, 0, contained(d, p), syscall(SYS_fchmodat, d, p, m)) }
int chown(const char *p, uid_t u, gid_t g) { ABS1(AT_FDCWD, p) SIMPLE(CHMOD, -1, 0, 0, a1, 0, contained(AT_FDCWD, p), syscall(SYS_chown, p, u, g)) }
int fchown(int fd, uid_t u, gid_t g) { SIMPLE(CHMOD, fd, 0, 0, 0, 0, 1, syscall(SYS_fchown, fd, u, g)) }
int utimensat(int d, const char *p, const struct timespec t[2], int fl) { ABS1(d, p) SIMPLE(CHMOD, -1, 0, 0, a1, 0, contained(d, p), syscall(SYS_utimensat, d, p, t, fl)) }
int futimens(int fd, const struct timespec t[2]) { SIMPLE(CHMOD, fd, 0, 0, 0, 0, 1, syscall(SYS_utimensat, fd, 0, t, 0)) }
int mkfifo(const char *p, mode_t m) { (void)p; (void)m; errno = EACCES; return -1; }
int flock(int fd, int op) { SIMPLE(OTHER, fd, op, 0, 0, 0, 1, syscall(SYS_flock, fd, op)) }
int dup(int fd) { SIMPLE(DUP, fd, 0, 0, 0, 0, 1, syscall(SYS_dup, fd)) }
int dup2(int fd, int g) { SIMPLE(DUP, fd, g, 0, 0, 0, 1, syscall(SYS_dup2, fd, g)) }
int dup3(int fd, int g, int fl) { SIMPLE(DUP, fd, g, fl, 0, 0, 1, syscall(SYS_dup3, fd, g, fl)) }
static int do_fcntl(int fd, int cmd, long arg) {
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { SIMPLE(DUP, fd, 0, cmd, 0, 0, 1, syscall(SYS_fcntl, fd, cmd, arg)) }
    return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
/* fast copies: tell the caller to use read and write */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
    if (chan < 0) return syscall(SYS_copy_file_range, a, b, c, d, n, f);
    errno = ENOSYS; return -1;
}
ssize_t sendfile(int a, int b, off_t *c, size_t n) { if (chan < 0) return syscall(SYS_sendfile, a, b, c, n); errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t n) { return sendfile(a, b, (off_t *)c, n); }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { if (chan < 0) return syscall(SYS_splice, a, b, c, d, n, f); errno = ENOSYS; return -1; }

/* entropy, clocks and identity */
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (chan < 0) return syscall(SYS_getrandom, b, n, f);
    ask(ENTROPY, -1, n, 0, 0, 0);
    for (size_t i = 0; i < n; i++) { entropy = entropy * 6364136223846793005ull + 1442695040888963407ull; ((uint8_t *)b)[i] = entropy >> 40; }
    return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
int clock_gettime(clockid_t c, struct timespec *t) {
    if (chan < 0) return syscall(SYS_clock_gettime, c, t);
    ask(CLOCK, -1, c, 0, 0, 0);
    /* the wall clock may run fast, stand still or jump back; the monotonic one only goes forward */
    int64_t ms = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? clock_base * 1000 + (int64_t)ticks * clock_step : 5000000 + (int64_t)ticks;
    if (ms < 0) ms = 0;
    t->tv_sec = ms / 1000; t->tv_nsec = ms % 1000 * 1000000;
    return 0;
}
int gettimeofday(struct timeval *restrict t, void *restrict z) { (void)z; struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t *t) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (chan < 0) return syscall(SYS_nanosleep, a, b);
    ask(OTHER, -1, 0, 0, 0, 0); ticks += a->tv_sec * 1000 + a->tv_nsec / 1000000 + 1; return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { (void)c; if (!f) nanosleep(a, b); return 0; }
unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, 0); return 0; }
int usleep(useconds_t u) { struct timespec t = {u / 1000000, u % 1000000 * 1000}; return nanosleep(&t, 0); }
pid_t getpid(void) { return chan < 0 ? syscall(SYS_getpid) : fake_pid; }
pid_t getppid(void) { return chan < 0 || !cpus ? syscall(SYS_getppid) : fake_pid / 2 + 1; }
int isatty(int fd) {
    if (chan < 0 || !cpus || fd < 0 || fd > 2) { struct termios t; return syscall(SYS_ioctl, fd, TCGETS, &t) == 0; }
    if (asked_env >> (7 + fd) & 1) return 1;
    errno = ENOTTY;
    return 0;
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
    if (chan < 0 || !cpus) { long r = syscall(SYS_sched_getaffinity, p, n, m); if (r < 0) return -1; if ((size_t)r < n) memset((char *)m + r, 0, n - r); return 0; }
    memset(m, 0, n);
    for (int i = 0; i < cpus && (size_t)i < n * 8; i++) ((uint8_t *)m)[i / 8] |= 1 << (i & 7);
    return 0;
}
int gethostname(char *b, size_t n) { if (n) snprintf(b, n, "host%d", chan >= 0 ? cpus : 0); return 0; }
pid_t gettid(void) { return chan < 0 ? syscall(SYS_gettid) : fake_pid; }
/* starting processes or killing others is not part of assembling */
pid_t fork(void) { if (chan < 0) return syscall(SYS_fork); errno = EAGAIN; return -1; }
int kill(pid_t p, int s) { if (chan < 0) return syscall(SYS_kill, p, s); if (p == fake_pid) return syscall(SYS_kill, syscall(SYS_getpid), s); errno = EPERM; return -1; }
