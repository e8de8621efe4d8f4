/* Preloaded into the worker simulator's interpreter. Once armed (in the child that is the worker) it numbers every system call on the
 * watched paths and strikes the chosen ones: an error instead of the call or after it, a short transfer, an interruption by a signal,
 * or the death of the process before, during or after the call. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE, ERR, ERR_AFTER, SHORT, INTR, INT, KILL_BEFORE, KILL_AFTER, KILL_PART, STICKY };
struct strike { long n; int kind; long arg; };
static struct strike plan[32];
static int nplan, armed, logfd = -1;
static long count, limit = 100000, sticky_from = -1, sticky_errno;
static char prefix[2][PATH_MAX];
static int npre;
static unsigned char watched[4096];

#define REAL(name) ((__typeof__(&name))real(#name))
static void *real(const char *name) { return dlsym(RTLD_NEXT, name); }

static void note(const char *what, long n, const char *how, const char *path) {
    char b[1024];
    int k = snprintf(b, sizeof b, "[\"io\", \"%s\", %ld, \"%s\", \"%s\"]\n", what, n, how, path ? strrchr(path, '/') ? strrchr(path, '/') + 1 : path : "");
    if (logfd >= 0 && k > 0) syscall(SYS_write, logfd, b, (size_t)k);
}

/* spec: "n kind arg;..." */
void pysim_arm(const char *p0, const char *p1, const char *spec, int fd) {
    npre = 0;
    for (int i = 0; i < 2; i++) {
        const char *p = i ? p1 : p0;
        if (p && *p) strncpy(prefix[npre++], p, PATH_MAX - 1);
    }
    nplan = 0;
    while (spec && *spec && nplan < 32) {
        struct strike s;
        int used = 0;
        if (sscanf(spec, "%ld %d %ld;%n", &s.n, &s.kind, &s.arg, &used) < 3 || !used) break;
        plan[nplan++] = s;
        spec += used;
    }
    logfd = fd;
    count = 0;
    sticky_from = -1;
    memset(watched, 0, sizeof watched);
    armed = 1;
}
long pysim_disarm(void) { armed = 0; return count; }

static int mine(const char *path) {
    if (!armed || !path) return 0;
    for (int i = 0; i < npre; i++) {
        size_t k = strlen(prefix[i]);
        if (!strncmp(path, prefix[i], k) && (path[k] == '/' || !path[k])) return 1;
    }
    return 0;
}
static int minefd(int fd) { return armed && fd >= 0 && fd < (int)sizeof watched && watched[fd]; }

static void die(void) { syscall(SYS_kill, (long)syscall(SYS_getpid), (long)SIGKILL); for (;;) pause(); }

/* What is to happen at this call. */
static struct strike at(const char *what, const char *path, int writes) {
    struct strike none = {0, NONE, 0};
    long n = ++count;
    const char *how = "";
    if (n > limit) die();
    for (int i = 0; i < nplan; i++)
        if (plan[i].n == n) {
            struct strike s = plan[i];
            if (s.kind == STICKY) { sticky_from = n; sticky_errno = s.arg; break; }
            if (!writes && (s.kind == SHORT || s.kind == KILL_PART)) s.kind = s.kind == SHORT ? NONE : KILL_BEFORE;
            static const char *names[] = {"", "error", "error after", "short", "interrupted", "SIGINT", "killed before", "killed after", "killed during", ""};
            how = names[s.kind];
            note(what, n, how, path);
            if (s.kind == KILL_BEFORE) die();
            return s;
        }
    if (sticky_from >= 0 && writes) {
        struct strike s = {n, ERR, sticky_errno};
        note(what, n, "error from now on", path);
        return s;
    }
    note(what, n, how, path);
    return none;
}

#define GUARD(s, call, bad)                                             \
    do {                                                                \
        if (s.kind == ERR) { errno = (int)s.arg; return bad; }          \
        if (s.kind == INTR) { errno = EINTR; return bad; }              \
        if (s.kind == INT) { raise(SIGINT); errno = EINTR; return bad; } \
        __typeof__(call) r_ = (call);                                   \
        if (s.kind == KILL_AFTER) die();                                \
        if (s.kind == ERR_AFTER) { errno = (int)s.arg; return bad; }    \
        return r_;                                                      \
    } while (0)

static int opened(const char *what, const char *path, int fd) {
    if (fd >= 0 && fd < (int)sizeof watched) watched[fd] = 1;
    return fd;
}
static int do_open(int dir, const char *path, int flags, int mode) {
    if (!mine(path)) {
        int fd = (int)syscall(SYS_openat, dir, path, flags, mode);
        if (fd >= 0 && fd < (int)sizeof watched) watched[fd] = 0;
        return fd;
    }
    struct strike s = at("open", path, 0);
    if (s.kind == ERR_AFTER) s.kind = ERR;
    GUARD(s, opened("open", path, (int)syscall(SYS_openat, dir, path, flags | O_LARGEFILE, mode)), -1);
}
#define MODE(flags, mode) int mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { MODE(flags, mode) return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags, mode) return do_open(AT_FDCWD, path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE(flags, mode) return do_open(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE(flags, mode) return do_open(dir, path, flags, mode); }

static ssize_t do_write(int fd, const void *b, size_t n, off_t at_, int pos) {
#define RAW(k) (pos ? syscall(SYS_pwrite64, fd, b, (size_t)(k), at_) : syscall(SYS_write, fd, b, (size_t)(k)))
    if (!minefd(fd)) return RAW(n);
    struct strike s = at("write", NULL, 1);
    if ((s.kind == SHORT || s.kind == KILL_PART) && n > 1) {
        size_t k = (size_t)(s.arg < 1 ? 1 : (unsigned long)s.arg % n);
        if (!k) k = 1;
        ssize_t r = RAW(k);
        if (s.kind == KILL_PART) die();
        return r;
    }
    if (s.kind == ERR_AFTER) s.kind = ERR;
    GUARD(s, (ssize_t)RAW(n), -1);
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!minefd(fd) || n < 1) return syscall(SYS_writev, fd, v, n);
    return do_write(fd, v[0].iov_base, v[0].iov_len, 0, 0);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) {
    if (!minefd(out)) return syscall(SYS_sendfile, out, in, o, n);
    struct strike s = at("sendfile", NULL, 1);
    if (s.kind == SHORT && n > 1) return syscall(SYS_sendfile, out, in, o, (size_t)s.arg % n + 1);
    GUARD(s, (ssize_t)syscall(SYS_sendfile, out, in, o, n), -1);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { return sendfile(out, in, (off_t *)o, n); }
int fsync(int fd) { if (!minefd(fd)) return (int)syscall(SYS_fsync, fd); struct strike s = at("fsync", NULL, 0); GUARD(s, (int)syscall(SYS_fsync, fd), -1); }
int fdatasync(int fd) { if (!minefd(fd)) return (int)syscall(SYS_fdatasync, fd); struct strike s = at("fdatasync", NULL, 0); GUARD(s, (int)syscall(SYS_fdatasync, fd), -1); }
int ftruncate(int fd, off_t n) { if (!minefd(fd)) return (int)syscall(SYS_ftruncate, fd, n); struct strike s = at("ftruncate", NULL, 0); GUARD(s, (int)syscall(SYS_ftruncate, fd, n), -1); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
off_t lseek(int fd, off_t o, int w) { if (!minefd(fd)) return syscall(SYS_lseek, fd, o, w); struct strike s = at("lseek", NULL, 0); GUARD(s, (off_t)syscall(SYS_lseek, fd, o, w), -1); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int close(int fd) {
    if (!minefd(fd)) return (int)syscall(SYS_close, fd);
    struct strike s = at("close", NULL, 0);
    watched[fd] = 0;
    /* the descriptor is gone whatever close says */
    int r = (int)syscall(SYS_close, fd);
    if (s.kind == ERR || s.kind == ERR_AFTER) { errno = (int)s.arg; return -1; }
    if (s.kind == INTR) { errno = EINTR; return -1; }
    if (s.kind == INT) { raise(SIGINT); errno = EINTR; return -1; }
    if (s.kind == KILL_AFTER) die();
    return r;
}
int fstat64(int fd, struct stat64 *b) { if (!minefd(fd)) return (int)syscall(SYS_fstat, fd, b); struct strike s = at("fstat", NULL, 0); GUARD(s, (int)syscall(SYS_fstat, fd, b), -1); }
int dup(int fd) { int r = (int)syscall(SYS_dup, fd); if (r >= 0 && r < (int)sizeof watched) watched[r] = minefd(fd); return r; }
int rename(const char *a, const char *b) {
    if (!mine(a) && !mine(b)) return (int)syscall(SYS_rename, a, b);
    struct strike s = at("rename", b, 0);
    if (s.kind == ERR_AFTER) s.kind = ERR;
    GUARD(s, (int)syscall(SYS_rename, a, b), -1);
}
int renameat(int da, const char *a, int db, const char *b) {
    if (!mine(a) && !mine(b)) return (int)syscall(SYS_renameat, da, a, db, b);
    struct strike s = at("rename", b, 0);
    if (s.kind == ERR_AFTER) s.kind = ERR;
    GUARD(s, (int)syscall(SYS_renameat, da, a, db, b), -1);
}
int link(const char *a, const char *b) {
    if (!mine(a) && !mine(b)) return (int)syscall(SYS_link, a, b);
    struct strike s = at("link", b, 0);
    GUARD(s, (int)syscall(SYS_link, a, b), -1);
}
int unlink(const char *a) {
    if (!mine(a)) return (int)syscall(SYS_unlink, a);
    struct strike s = at("unlink", a, 0);
    if (s.kind == ERR_AFTER) s.kind = ERR;
    GUARD(s, (int)syscall(SYS_unlink, a), -1);
}
int mkdir(const char *a, mode_t m) {
    if (!mine(a)) return (int)syscall(SYS_mkdir, a, m);
    struct strike s = at("mkdir", a, 0);
    if (s.kind == ERR_AFTER) s.kind = ERR;
    GUARD(s, (int)syscall(SYS_mkdir, a, m), -1);
}
