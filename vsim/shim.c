/* vsim file-system seam.
 *
 * LD_PRELOADed into every simulated process.  Inactive until vsim_attach() is
 * called (forked ranks) or VSIM_SOCK is in the environment (programs a rank
 * executes, e.g. `sh -c "rm ..."`).  When active, every file-system operation on
 * a path below the prefix asks the simulator over a SEQPACKET socket and does
 * what the reply says: proceed, fail with an errno, be short, or tear and die.
 * Mutations outside the prefix are refused and reported (containment).
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

enum { OP_HELLO = 1, OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_FSYNC, OP_TRUNC, OP_UNLINK,
       OP_RENAME, OP_MKDIR, OP_RMDIR, OP_OPENDIR, OP_STAT, OP_LINK, OP_DENY, OP_CHMOD };
enum { ACT_GO = 0, ACT_ERR = 1, ACT_SHORT = 2, ACT_TEAR = 3, ACT_KILL = 4, ACT_AFTER = 5 };

struct req { uint32_t op, actor, pid; int32_t fd; int64_t a, b; uint32_t l1, l2; };
struct rep { int32_t act, err; int64_t n; };

static int g_sock = -1;
static pid_t g_pid = 0;
static uint32_t g_actor = 0;
static char g_prefix[PATH_MAX];
static size_t g_plen = 0;
static pthread_mutex_t g_mu = PTHREAD_MUTEX_INITIALIZER;
static __thread int g_in = 0;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__) = NULL; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static ssize_t raw_readlink(const char *p, char *b, size_t n) { return syscall(SYS_readlink, p, b, n); }

static int active(void) { return g_sock >= 0 && !g_in && g_pid == (pid_t)syscall(SYS_getpid); }

static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }

static int rpc(uint32_t op, int fd, int64_t a, int64_t b, const char *p1, const char *p2, struct rep *rp) {
    char buf[sizeof(struct req) + 2 * PATH_MAX];
    struct req *r = (struct req *)buf;
    int e = errno;
    memset(r, 0, sizeof *r);
    r->op = op; r->actor = g_actor; r->pid = (uint32_t)g_pid; r->fd = fd; r->a = a; r->b = b;
    r->l1 = p1 ? strlen(p1) : 0; r->l2 = p2 ? strlen(p2) : 0;
    if (r->l1 > PATH_MAX - 1) r->l1 = PATH_MAX - 1;
    if (r->l2 > PATH_MAX - 1) r->l2 = PATH_MAX - 1;
    if (p1) memcpy(buf + sizeof *r, p1, r->l1);
    if (p2) memcpy(buf + sizeof *r + r->l1, p2, r->l2);
    pthread_mutex_lock(&g_mu);
    g_in = 1;
    ssize_t k;
    do k = send(g_sock, buf, sizeof *r + r->l1 + r->l2, MSG_NOSIGNAL); while (k < 0 && errno == EINTR);
    if (k > 0) do k = recv(g_sock, rp, sizeof *rp, 0); while (k < 0 && errno == EINTR);
    g_in = 0;
    pthread_mutex_unlock(&g_mu);
    if (k != (ssize_t)sizeof *rp) { die(); }
    if (rp->act == ACT_KILL) die();
    errno = e;
    return rp->act;
}

/* absolute, lexically normalised path */
static int norm(int dirfd, const char *path, char *out) {
    char tmp[2 * PATH_MAX];
    if (!path) return 0;
    if (path[0] == '/') { snprintf(tmp, sizeof tmp, "%s", path); }
    else {
        char base[PATH_MAX]; ssize_t n;
        if (dirfd == AT_FDCWD) n = raw_readlink("/proc/self/cwd", base, sizeof base - 1);
        else { char lk[64]; snprintf(lk, sizeof lk, "/proc/self/fd/%d", dirfd); n = raw_readlink(lk, base, sizeof base - 1); }
        if (n < 0) return 0;
        base[n] = 0;
        snprintf(tmp, sizeof tmp, "%s/%s", base, path);
    }
    char *o = out; *o = 0;
    for (char *s = tmp; *s;) {
        while (*s == '/') s++;
        if (!*s) break;
        char *e = s; while (*e && *e != '/') e++;
        size_t n = e - s;
        if (n == 1 && s[0] == '.') {}
        else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o > out && *--o != '/') {} *o = 0; }
        else { if ((o - out) + n + 2 > PATH_MAX) return 0; *o++ = '/'; memcpy(o, s, n); o += n; *o = 0; }
        s = e;
    }
    if (o == out) { out[0] = '/'; out[1] = 0; }
    return 1;
}
static int inside(const char *p) { return g_plen && !strncmp(p, g_prefix, g_plen) && (p[g_plen] == '/' || !p[g_plen]); }
static int fdpath(int fd, char *out) {
    char lk[64]; snprintf(lk, sizeof lk, "/proc/self/fd/%d", fd);
    ssize_t n = raw_readlink(lk, out, PATH_MAX - 1);
    if (n <= 0 || out[0] != '/') return 0;
    out[n] = 0;
    if (n > 10 && !strcmp(out + n - 10, " (deleted)")) out[n - 10] = 0;
    return inside(out);
}
static int harmless(const char *p) {
    return !strcmp(p, "/dev/null") || !strcmp(p, "/dev/tty") || !strncmp(p, "/dev/fd/", 8) || !strcmp(p, "/dev/stdout") ||
           !strcmp(p, "/dev/stderr") || !strncmp(p, "/proc/", 6) || !strncmp(p, "/dev/shm/sem.", 13) || !strncmp(p, "/dev/pts/", 9);
}
/* returns 1 if the mutation at p must be refused */
static int deny(const char *p, uint32_t op) {
    struct rep rp;
    if (inside(p) || harmless(p)) return 0;
    rpc(OP_DENY, -1, op, 0, p, NULL, &rp);
    errno = EACCES;
    return 1;
}

__attribute__((visibility("default")))
int vsim_attach(const char *sockpath, const char *prefix, int actor) {
    struct sockaddr_un sa; struct rep rp;
    int s = socket(AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0);
    if (s < 0) return -1;
    int hi = fcntl(s, F_DUPFD_CLOEXEC, 700);
    if (hi >= 0) { syscall(SYS_close, s); s = hi; }
    memset(&sa, 0, sizeof sa); sa.sun_family = AF_UNIX;
    snprintf(sa.sun_path, sizeof sa.sun_path, "%s", sockpath);
    if (connect(s, (struct sockaddr *)&sa, sizeof sa)) { syscall(SYS_close, s); return -2; }
    snprintf(g_prefix, sizeof g_prefix, "%s", prefix); g_plen = strlen(g_prefix);
    g_actor = actor; g_pid = syscall(SYS_getpid); g_sock = s;
    return rpc(OP_HELLO, -1, 0, 0, program_invocation_short_name, NULL, &rp);
}
__attribute__((visibility("default")))
void vsim_detach(void) { if (g_sock >= 0) syscall(SYS_close, g_sock); g_sock = -1; }

__attribute__((constructor)) static void ctor(void) {
    const char *s = getenv("VSIM_SOCK"), *p = getenv("VSIM_PREFIX"), *a = getenv("VSIM_ACTOR");
    if (s && p && a) { if (vsim_attach(s, p, atoi(a)) < 0) die(); }
}

/* ---------------------------------------------------------------- open */
static int is_mut(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char p[PATH_MAX]; struct rep rp; int act = ACT_GO;
    if (active() && norm(dirfd, path, p)) {
        if (inside(p)) {
            if (!(flags & O_DIRECTORY)) {
                act = rpc(OP_OPEN, -1, flags, mode, p, NULL, &rp);
                if (act == ACT_ERR) { errno = rp.err; return -1; }
            }
        } else if (is_mut(flags) && !(flags & O_PATH) && deny(p, OP_OPEN)) return -1;
    }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (act == ACT_AFTER || act == ACT_TEAR) die();
    return fd;
}
#define MODE_ARG mode_t mode = 0; if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { MODE_ARG return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE_ARG return do_open(d, path, flags | O_LARGEFILE, mode); }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags | O_LARGEFILE, 0); }
int __openat_2(int d, const char *path, int flags) { return do_open(d, path, flags, 0); }
int __openat64_2(int d, const char *path, int flags) { return do_open(d, path, flags | O_LARGEFILE, 0); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static int fopen_gate(const char *path, const char *m) {
    char p[PATH_MAX]; struct rep rp;
    if (!active() || !norm(AT_FDCWD, path, p)) return 0;
    int mut = strpbrk(m, "wa+") != NULL;
    if (inside(p)) {
        int act = rpc(OP_OPEN, -1, mut ? (O_WRONLY | O_CREAT | (*m == 'w' ? O_TRUNC : 0)) : 0, 0666, p, NULL, &rp);
        if (act == ACT_ERR) { errno = rp.err; return -1; }
    } else if (mut && deny(p, OP_OPEN)) return -1;
    return 0;
}
FILE *fopen(const char *path, const char *m) {
    REAL(FILE *, fopen, const char *, const char *);
    if (fopen_gate(path, m)) return NULL;
    return real_fopen(path, m);
}
FILE *fopen64(const char *path, const char *m) {
    REAL(FILE *, fopen64, const char *, const char *);
    if (fopen_gate(path, m)) return NULL;
    return real_fopen64(path, m);
}

/* ---------------------------------------------------------------- read */
static int64_t fdoff(int fd, int64_t off) { return off >= 0 ? off : (int64_t)syscall(SYS_lseek, fd, 0, SEEK_CUR); }
#define GATE_R(fd, cnt, off) \
    char p_[PATH_MAX]; struct rep rp_; int act_ = ACT_GO; \
    if (active() && fdpath(fd, p_)) { \
        act_ = rpc(OP_READ, fd, cnt, fdoff(fd, off), p_, NULL, &rp_); \
        if (act_ == ACT_ERR) { errno = rp_.err; return -1; } \
        if (act_ == ACT_SHORT && rp_.n >= 0 && (size_t)rp_.n < (size_t)(cnt)) cnt = rp_.n; \
    }
ssize_t read(int fd, void *b, size_t n) { GATE_R(fd, n, -1); return syscall(SYS_read, fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t l) { (void)l; GATE_R(fd, n, -1); return syscall(SYS_read, fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { GATE_R(fd, n, o); return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { GATE_R(fd, n, o); return syscall(SYS_pread64, fd, b, n, o); }
ssize_t __pread_chk(int fd, void *b, size_t n, off_t o, size_t l) { (void)l; GATE_R(fd, n, o); return syscall(SYS_pread64, fd, b, n, o); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off_t o, size_t l) { (void)l; GATE_R(fd, n, o); return syscall(SYS_pread64, fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    size_t want = n; GATE_R(fd, n, -1);
    if (n < want && c > 0) return syscall(SYS_read, fd, v[0].iov_base, n < v[0].iov_len ? n : v[0].iov_len);
    return syscall(SYS_readv, fd, v, c);
}

/* ---------------------------------------------------------------- write */
#define GATE_W(fd, cnt, off, DO) \
    char p_[PATH_MAX]; struct rep rp_; int act_ = ACT_GO; \
    if (active() && fdpath(fd, p_)) { \
        act_ = rpc(OP_WRITE, fd, cnt, fdoff(fd, off), p_, NULL, &rp_); \
        if (act_ == ACT_ERR) { errno = rp_.err; return -1; } \
        if ((act_ == ACT_SHORT || act_ == ACT_TEAR) && rp_.n >= 0 && (size_t)rp_.n < (size_t)(cnt)) cnt = rp_.n; \
    } \
    ssize_t r_ = (act_ == ACT_TEAR && cnt == 0) ? 0 : (DO); \
    if (act_ == ACT_TEAR || act_ == ACT_AFTER) die(); \
    return r_;
ssize_t write(int fd, const void *b, size_t n) { GATE_W(fd, n, -1, syscall(SYS_write, fd, b, n)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { GATE_W(fd, n, o, syscall(SYS_pwrite64, fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { GATE_W(fd, n, o, syscall(SYS_pwrite64, fd, b, n, o)) }
ssize_t writev(int fd, const struct iovec *v, int c) {
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    size_t want = n;
    GATE_W(fd, n, -1, (n < want && c > 0) ? syscall(SYS_write, fd, v[0].iov_base, n < v[0].iov_len ? n : v[0].iov_len) : syscall(SYS_writev, fd, v, c))
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { GATE_W(out, n, -1, syscall(SYS_sendfile, out, in, o, n)) }
ssize_t sendfile64(int out, int in, off_t *o, size_t n) { GATE_W(out, n, -1, syscall(SYS_sendfile, out, in, o, n)) }
ssize_t copy_file_range(int fi, off_t *oi, int fo, off_t *oo, size_t n, unsigned fl) { GATE_W(fo, n, -1, syscall(SYS_copy_file_range, fi, oi, fo, oo, n, fl)) }

#define GATE_S(op, fd, a, DO) \
    char p_[PATH_MAX]; struct rep rp_; int act_ = ACT_GO; \
    if (active() && fdpath(fd, p_)) { \
        act_ = rpc(op, fd, a, 0, p_, NULL, &rp_); \
        if (act_ == ACT_ERR) { if (op == OP_CLOSE) { DO; } errno = rp_.err; return -1; } \
    } \
    int r_ = (DO); if (act_ == ACT_AFTER || act_ == ACT_TEAR) die(); return r_;
int ftruncate(int fd, off_t n) { GATE_S(OP_TRUNC, fd, n, syscall(SYS_ftruncate, fd, n)) }
int ftruncate64(int fd, off_t n) { GATE_S(OP_TRUNC, fd, n, syscall(SYS_ftruncate, fd, n)) }
int fsync(int fd) { GATE_S(OP_FSYNC, fd, 0, syscall(SYS_fsync, fd)) }
int fdatasync(int fd) { GATE_S(OP_FSYNC, fd, 0, syscall(SYS_fdatasync, fd)) }
int close(int fd) {
    if (fd == g_sock && g_sock >= 0 && g_pid == (pid_t)syscall(SYS_getpid)) return 0;
    int m = 0;
    if (active()) { m = syscall(SYS_fcntl, fd, F_GETFL); struct stat st; if (m < 0 || (m & O_PATH) || fstat(fd, &st) || !S_ISREG(st.st_mode)) return syscall(SYS_close, fd); }
    GATE_S(OP_CLOSE, fd, m, syscall(SYS_close, fd))
}

/* ---------------------------------------------------------------- names */
#define GATE_P(op, d, path, a, DO) \
    char p_[PATH_MAX]; struct rep rp_; int act_ = ACT_GO; \
    if (active() && norm(d, path, p_)) { \
        if (inside(p_)) { act_ = rpc(op, -1, a, 0, p_, NULL, &rp_); if (act_ == ACT_ERR) { errno = rp_.err; return -1; } } \
        else if (deny(p_, op)) return -1; \
    } \
    int r_ = (DO); if (act_ == ACT_AFTER || act_ == ACT_TEAR) die(); return r_;
int unlink(const char *p) { GATE_P(OP_UNLINK, AT_FDCWD, p, 0, syscall(SYS_unlink, p)) }
int unlinkat(int d, const char *p, int fl) { GATE_P((fl & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, d, p, fl, syscall(SYS_unlinkat, d, p, fl)) }
int remove(const char *p) { struct stat st; if (!lstat(p, &st) && S_ISDIR(st.st_mode)) return rmdir(p); return unlink(p); }
int rmdir(const char *p) { GATE_P(OP_RMDIR, AT_FDCWD, p, 0, syscall(SYS_rmdir, p)) }
int mkdir(const char *p, mode_t m) { GATE_P(OP_MKDIR, AT_FDCWD, p, m, syscall(SYS_mkdir, p, m)) }
int mkdirat(int d, const char *p, mode_t m) { GATE_P(OP_MKDIR, d, p, m, syscall(SYS_mkdirat, d, p, m)) }
int truncate(const char *p, off_t n) { GATE_P(OP_TRUNC, AT_FDCWD, p, n, syscall(SYS_truncate, p, n)) }
int truncate64(const char *p, off_t n) { GATE_P(OP_TRUNC, AT_FDCWD, p, n, syscall(SYS_truncate, p, n)) }
int chmod(const char *p, mode_t m) { GATE_P(OP_CHMOD, AT_FDCWD, p, m, syscall(SYS_chmod, p, m)) }
int fchmodat(int d, const char *p, mode_t m, int fl) { GATE_P(OP_CHMOD, d, p, m, syscall(SYS_fchmodat, d, p, m, fl)) }
int chown(const char *p, uid_t u, gid_t g) { GATE_P(OP_CHMOD, AT_FDCWD, p, u, syscall(SYS_chown, p, u, g)) }
static int two(int op, int d1, const char *a, int d2, const char *b, unsigned fl) {
    char p[PATH_MAX], q[PATH_MAX]; struct rep rp; int act = ACT_GO;
    if (active() && norm(d1, a, p) && norm(d2, b, q)) {
        if (!inside(p) && op == OP_RENAME && deny(p, op)) return -1;
        if (!inside(q) && deny(q, op)) return -1;
        act = rpc(op, -1, fl, 0, p, q, &rp);
        if (act == ACT_ERR) { errno = rp.err; return -1; }
    }
    int r = op == OP_RENAME ? syscall(SYS_renameat2, d1, a, d2, b, fl) : syscall(SYS_linkat, d1, a, d2, b, fl);
    if (act == ACT_AFTER || act == ACT_TEAR) die();
    return r;
}
int rename(const char *a, const char *b) { return two(OP_RENAME, AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return two(OP_RENAME, d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return two(OP_RENAME, d1, a, d2, b, f); }
int link(const char *a, const char *b) { return two(OP_LINK, AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { return two(OP_LINK, d1, a, d2, b, f); }
int symlink(const char *t, const char *b) { GATE_P(OP_LINK, AT_FDCWD, b, 0, syscall(SYS_symlink, t, b)) }
int symlinkat(const char *t, int d, const char *b) { GATE_P(OP_LINK, d, b, 0, syscall(SYS_symlinkat, t, d, b)) }

/* ---------------------------------------------------------------- stat: a scheduling point, never a fault */
static void stat_point(int d, const char *path) {
    char p[PATH_MAX]; struct rep rp;
    if (path && *path && active() && norm(d, path, p) && inside(p)) rpc(OP_STAT, -1, 0, 0, p, NULL, &rp);
}
int stat(const char *p, struct stat *s) { REAL(int, stat, const char *, struct stat *); stat_point(AT_FDCWD, p); return real_stat(p, s); }
int stat64(const char *p, struct stat64 *s) { REAL(int, stat64, const char *, struct stat64 *); stat_point(AT_FDCWD, p); return real_stat64(p, s); }
int lstat(const char *p, struct stat *s) { REAL(int, lstat, const char *, struct stat *); stat_point(AT_FDCWD, p); return real_lstat(p, s); }
int lstat64(const char *p, struct stat64 *s) { REAL(int, lstat64, const char *, struct stat64 *); stat_point(AT_FDCWD, p); return real_lstat64(p, s); }
int access(const char *p, int m) { stat_point(AT_FDCWD, p); return syscall(SYS_access, p, m); }

/* ---------------------------------------------------------------- directories */
struct dl { DIR *d; int n, i; struct dirent **e; struct dl *next; };
static struct dl *g_dirs = NULL;
static int cmp_ent(const void *a, const void *b) { return strcmp((*(struct dirent *const *)a)->d_name, (*(struct dirent *const *)b)->d_name); }
static uint64_t rnd(uint64_t *s) { uint64_t z = (*s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static DIR *dir_wrap(DIR *d, const char *p, int *failed) {
    struct rep rp; *failed = 0;
    int act = rpc(OP_OPENDIR, -1, 0, 0, p, NULL, &rp);
    if (act == ACT_ERR) { *failed = rp.err; return NULL; }
    REAL(struct dirent *, readdir, DIR *);
    struct dl *l = calloc(1, sizeof *l); int cap = 0; struct dirent *e;
    l->d = d;
    while ((e = real_readdir(d))) {
        if (l->n == cap) { cap = cap ? 2 * cap : 32; l->e = realloc(l->e, cap * sizeof *l->e); }
        struct dirent *c = malloc(sizeof *c); memcpy(c, e, e->d_reclen < sizeof *c ? e->d_reclen : sizeof *c); l->e[l->n++] = c;
    }
    qsort(l->e, l->n, sizeof *l->e, cmp_ent);
    uint64_t s = (uint64_t)rp.n;
    if (s) for (int i = l->n - 1; i > 0; i--) { int j = rnd(&s) % (i + 1); struct dirent *t = l->e[i]; l->e[i] = l->e[j]; l->e[j] = t; }
    l->next = g_dirs; g_dirs = l;
    return d;
}
DIR *opendir(const char *path) {
    REAL(DIR *, opendir, const char *); char p[PATH_MAX];
    DIR *d = real_opendir(path);
    if (d && active() && norm(AT_FDCWD, path, p) && inside(p)) { int f; if (!dir_wrap(d, p, &f)) { g_in = 1; REAL(int, closedir, DIR *); real_closedir(d); g_in = 0; errno = f; return NULL; } }
    return d;
}
DIR *fdopendir(int fd) {
    REAL(DIR *, fdopendir, int); char p[PATH_MAX];
    DIR *d = real_fdopendir(fd);
    if (d && active() && fdpath(fd, p)) { int f; if (!dir_wrap(d, p, &f)) { errno = f; return NULL; } }
    return d;
}
static struct dl *find(DIR *d) { for (struct dl *l = g_dirs; l; l = l->next) if (l->d == d) return l; return NULL; }
struct dirent *readdir(DIR *d) { REAL(struct dirent *, readdir, DIR *); struct dl *l = find(d); if (!l) return real_readdir(d); return l->i < l->n ? l->e[l->i++] : NULL; }
struct dirent64 *readdir64(DIR *d) { REAL(struct dirent64 *, readdir64, DIR *); struct dl *l = find(d); if (!l) return real_readdir64(d); return (struct dirent64 *)(l->i < l->n ? l->e[l->i++] : NULL); }
void rewinddir(DIR *d) { REAL(void, rewinddir, DIR *); struct dl *l = find(d); if (l) l->i = 0; real_rewinddir(d); }
int closedir(DIR *d) {
    REAL(int, closedir, DIR *);
    for (struct dl **q = &g_dirs; *q; q = &(*q)->next) if ((*q)->d == d) { struct dl *l = *q; *q = l->next; for (int i = 0; i < l->n; i++) free(l->e[i]); free(l->e); free(l); break; }
    return real_closedir(d);
}
