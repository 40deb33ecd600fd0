// LD_PRELOAD shim: every file operation of a tool process below one directory is numbered and its fate decided by a plan.
// Operations outside that directory that could change anything are refused.  Reports through a file descriptor opened at
// start, with raw system calls only.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { KILL_BEFORE = 1, KILL_AFTER, TORN_KILL, SHORT, ERR, FULL, EINTR1, POWER };
static struct { long at; int kind; long arg; } plan[64];
static int nplan, logfd = -1, armed, full;
static long ops;
static char root[PATH_MAX]; static size_t rootlen;
static uint64_t dirseed;
static char *fdpath[4096];

static long sysw(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static void note(const char *what, const char *path, const char *path2, long arg) {
    char b[2 * PATH_MAX + 200];
    int n = snprintf(b, sizeof b, "%ld\t%s\t%ld\t%s\t%s\n", ops, what, arg, path ? path : "", path2 ? path2 : "");
    if (logfd >= 0) sysw(logfd, b, n);
}
__attribute__((constructor)) static void init(void) {
    const char *r = getenv("TS_ROOT"), *l = getenv("TS_LOG"), *p = getenv("TS_PLAN"), *d = getenv("TS_DIRSEED");
    if (!r || !l) return;
    snprintf(root, sizeof root, "%s", r); rootlen = strlen(root);
    int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    if (fd >= 0) { logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 3500); syscall(SYS_close, fd); }
    if (d) dirseed = strtoull(d, 0, 10);
    while (p && *p && nplan < 64) {
        long a, k, g; int used = 0;
        if (sscanf(p, "%ld:%ld:%ld%n", &a, &k, &g, &used) != 3) break;
        plan[nplan].at = a; plan[nplan].kind = k; plan[nplan].arg = g; nplan++;
        p += used; if (*p == ',') p++;
    }
    armed = 1;
}
static void die(const char *why) { note(why, 0, 0, 0); syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) ; }
static int absolute(int dirfd, const char *path, char *out) {
    char t[PATH_MAX];
    if (path[0] == '/') snprintf(t, sizeof t, "%s", path);
    else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, base, sizeof base) < 0) return 0; }
        else if (dirfd >= 0 && dirfd < 4096 && fdpath[dirfd]) snprintf(base, sizeof base, "%s", fdpath[dirfd]);
        else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); long n = syscall(SYS_readlinkat, AT_FDCWD, l, base, sizeof base - 1); if (n < 0) return 0; base[n] = 0; }
        if (snprintf(t, sizeof t, "%s/%s", base, path) >= (int)sizeof t) return 0;
    }
    // lexical clean up
    char *w = out; const char *s = t;
    while (*s) {
        while (*s == '/') s++;
        if (!*s) break;
        const char *e = strchrnul(s, '/'); size_t n = e - s;
        if (n == 1 && s[0] == '.') {}
        else if (n == 2 && s[0] == '.' && s[1] == '.') { while (w > out && *--w != '/') ; }
        else { *w++ = '/'; memcpy(w, s, n); w += n; }
        s = e;
    }
    if (w == out) *w++ = '/';
    *w = 0;
    return 1;
}
static int inside(const char *p) { return armed && !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]); }
static int pin(int dirfd, const char *path, char *abs) { return armed && path && absolute(dirfd, path, abs) && inside(abs); }

// fate of one operation: 0 proceed; -1 fail with errno set; >0 number of bytes allowed; *after: die once done
static long fate(const char *what, const char *path, const char *path2, size_t len, int *after) {
    *after = 0; ops++;
    note(what, path, path2, (long)len);
    int mut = what[0] >= 'A' && what[0] <= 'Z';
    for (int i = 0; i < nplan; i++) if (plan[i].at == ops) switch (plan[i].kind) {
        case KILL_BEFORE: die("killed-before"); break;
        case POWER: die("power-loss"); break;
        case KILL_AFTER: *after = 1; break;
        case TORN_KILL: if (len > 1 && what[0] == 'W') { *after = 1; long n = 1 + (plan[i].arg % (long)(len - 1)); note("torn", path, 0, n); return n; } *after = 1; break;
        case SHORT: if (len > 1) { long n = 1 + (plan[i].arg % (long)(len - 1)); note("short", path, 0, n); return n; } break;
        case ERR: note("error", path, 0, plan[i].arg); errno = plan[i].arg; return -1;
        case EINTR1: note("error", path, 0, EINTR); errno = EINTR; return -1;
        case FULL: full = 1; note("full", path, 0, 0); break;
    }
    if (full && mut && (what[0] == 'W' || what[0] == 'O')) { note("error", path, 0, ENOSPC); errno = ENOSPC; return -1; }
    return 0;
}
static int refuse(const char *path) { note("refused", path, 0, 0); errno = EPERM; return -1; }
static int harmless(const char *p) { return !strcmp(p, "/dev/null") || !strcmp(p, "/dev/tty"); }

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char a[PATH_MAX]; int after;
    int writes = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
    if (!armed || !path) goto real;
    if (!absolute(dirfd, path, a)) goto real;
    if (!inside(a)) { if (writes && !harmless(a)) return refuse(a); goto real; }
    if (fate(writes ? "OPEN" : "open", a, flags & O_TRUNC ? "trunc" : "", 0, &after) < 0) return -1;
    {
        long r = syscall(SYS_openat, dirfd, path, flags | O_LARGEFILE, mode);
        if (r >= 0 && r < 4096) { free(fdpath[r]); fdpath[r] = strdup(a); }
        if (after) die("killed-after");
        return r;
    }
real:
    return syscall(SYS_openat, dirfd, path, flags | O_LARGEFILE, mode);
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list v; va_start(v, fl); m = va_arg(v, mode_t); va_end(v); }
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, m); }
static const char *fp(int fd) { return armed && fd >= 0 && fd < 4096 ? fdpath[fd] : 0; }
ssize_t write(int fd, const void *b, size_t n) {
    const char *p = fp(fd); int after = 0;
    if (!p) return sysw(fd, b, n);
    long f = fate("WRITE", p, 0, n, &after);
    if (f < 0) return -1;
    ssize_t r = sysw(fd, b, f > 0 ? (size_t)f : n);
    if (after) die("killed-after");
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { const char *p = fp(fd); int after = 0; long f = 0; if (p && (f = fate("WRITE", p, 0, n, &after)) < 0) return -1; ssize_t r = syscall(SYS_pwrite64, fd, b, f > 0 ? (size_t)f : n, o); if (after) die("killed-after"); return r; }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) { const char *p = fp(fd); int after = 0; size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; long f = 0; if (p && (f = fate("WRITE", p, 0, n, &after)) < 0) return -1; ssize_t r = f > 0 && c ? sysw(fd, v[0].iov_base, (size_t)f < v[0].iov_len ? (size_t)f : v[0].iov_len) : syscall(SYS_writev, fd, v, c); if (after) die("killed-after"); return r; }
ssize_t read(int fd, void *b, size_t n) {
    const char *p = fp(fd); int after = 0;
    if (!p) return syscall(SYS_read, fd, b, n);
    long f = fate("read", p, 0, n, &after);
    if (f < 0) return -1;
    ssize_t r = syscall(SYS_read, fd, b, f > 0 ? (size_t)f : n);
    if (after) die("killed-after");
    return r;
}
static ssize_t copy(const char *what, long nr, int out, int in, void *o1, void *o2, size_t n, unsigned fl) {
    const char *p = fp(out); int after = 0; long f = 0;
    if (p && (f = fate(what, p, fp(in), n, &after)) < 0) return -1;
    size_t k = f > 0 ? (size_t)f : n;
    ssize_t r = nr == SYS_sendfile ? syscall(nr, out, in, o1, k) : syscall(nr, in, o1, out, o2, k, fl);
    if (after) die("killed-after");
    return r;
}
ssize_t sendfile(int o, int i, off_t *f, size_t n) { return copy("WRITE", SYS_sendfile, o, i, f, 0, n, 0); }
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) { return copy("WRITE", SYS_sendfile, o, i, f, 0, n, 0); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned fl) { return copy("WRITE", SYS_copy_file_range, o, i, a, b, n, fl); }
int close(int fd) {
    const char *p = fp(fd); int after = 0; long f = 0;
    if (p) { char t[PATH_MAX]; snprintf(t, sizeof t, "%s", p); free(fdpath[fd]); fdpath[fd] = 0; f = fate("close", t, 0, 0, &after); }
    if (fd == logfd) return 0;
    int e = errno; int r = syscall(SYS_close, fd);
    if (after) die("killed-after");
    if (f < 0) { errno = e; return -1; }
    return r;
}
static int one(const char *what, int d, const char *p, long (*act)(int, const char *, long, long), long x, long y) {
    char a[PATH_MAX]; int after = 0;
    if (armed && p && absolute(d, p, a)) { if (!inside(a)) return refuse(a); if (fate(what, a, 0, 0, &after) < 0) return -1; }
    int r = act(d, p, x, y);
    if (after) die("killed-after");
    return r;
}
static long a_unlink(int d, const char *p, long x, long y) { return syscall(SYS_unlinkat, d, p, x); }
static long a_mkdir(int d, const char *p, long x, long y) { return syscall(SYS_mkdirat, d, p, x); }
static long a_chmod(int d, const char *p, long x, long y) { return syscall(SYS_fchmodat, d, p, x); }
static long a_trunc(int d, const char *p, long x, long y) { return syscall(SYS_truncate, p, x); }
static long a_utime(int d, const char *p, long x, long y) { return syscall(SYS_utimensat, d, p, x, y); }
int unlink(const char *p) { return one("UNLINK", AT_FDCWD, p, a_unlink, 0, 0); }
int unlinkat(int d, const char *p, int fl) { return one("UNLINK", d, p, a_unlink, fl, 0); }
int rmdir(const char *p) { return one("RMDIR", AT_FDCWD, p, a_unlink, AT_REMOVEDIR, 0); }
int mkdir(const char *p, mode_t m) { return one("MKDIR", AT_FDCWD, p, a_mkdir, m, 0); }
int mkdirat(int d, const char *p, mode_t m) { return one("MKDIR", d, p, a_mkdir, m, 0); }
int chmod(const char *p, mode_t m) { return one("CHMOD", AT_FDCWD, p, a_chmod, m, 0); }
int fchmodat(int d, const char *p, mode_t m, int fl) { return one("CHMOD", d, p, a_chmod, m, 0); }
int truncate(const char *p, off_t n) { return one("TRUNC", AT_FDCWD, p, a_trunc, n, 0); }
int truncate64(const char *p, off64_t n) { return one("TRUNC", AT_FDCWD, p, a_trunc, n, 0); }
int utimensat(int d, const char *p, const struct timespec t[2], int fl) { if (!p) return syscall(SYS_utimensat, d, p, t, fl); return one("UTIME", d, p, a_utime, (long)t, fl); }
#define FDOP(name, what, call, ...) int name(int fd __VA_ARGS__) { const char *p = fp(fd); int after = 0; if (p && fate(what, p, 0, 0, &after) < 0) return -1; int r = call; if (after) die("killed-after"); return r; }
#define COMMA ,
FDOP(ftruncate, "TRUNC", syscall(SYS_ftruncate, fd, n), , off_t n)
FDOP(ftruncate64, "TRUNC", syscall(SYS_ftruncate, fd, n), , off64_t n)
FDOP(fsync, "SYNC", syscall(SYS_fsync, fd) * 0)
FDOP(fdatasync, "SYNC", syscall(SYS_fdatasync, fd) * 0)
FDOP(fchmod, "CHMOD", syscall(SYS_fchmod, fd, m), , mode_t m)
static int two(const char *what, int d1, const char *p1, int d2, const char *p2, int kind, unsigned fl) {
    char a[PATH_MAX], b[PATH_MAX]; int after = 0;
    if (armed && absolute(d1, p1, a) && absolute(d2, p2, b)) { if (!inside(a) || !inside(b)) return refuse(a); if (fate(what, a, b, 0, &after) < 0) return -1; }
    int r = kind == 0 ? syscall(SYS_renameat2, d1, p1, d2, p2, fl) : kind == 1 ? syscall(SYS_linkat, d1, p1, d2, p2, fl) : syscall(SYS_symlinkat, p1, d2, p2);
    if (after) die("killed-after");
    return r;
}
int rename(const char *a, const char *b) { return two("RENAME", AT_FDCWD, a, AT_FDCWD, b, 0, 0); }
int renameat(int x, const char *a, int y, const char *b) { return two("RENAME", x, a, y, b, 0, 0); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { return two("RENAME", x, a, y, b, 0, f); }
int link(const char *a, const char *b) { return two("LINK", AT_FDCWD, a, AT_FDCWD, b, 1, 0); }
int linkat(int x, const char *a, int y, const char *b, int f) { return two("LINK", x, a, y, b, 1, f); }
int symlink(const char *a, const char *b) { char t[PATH_MAX]; int after = 0; if (armed && absolute(AT_FDCWD, b, t)) { if (!inside(t)) return refuse(t); if (fate("SYMLINK", t, 0, 0, &after) < 0) return -1; } int r = syscall(SYS_symlinkat, a, AT_FDCWD, b); if (after) die("killed-after"); return r; }

// directory listings: collected, sorted, then put in the order the seed says
static uint64_t rnd(uint64_t *s) { uint64_t z = (*s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static struct listing { DIR *d; struct dirent64 **e; int n, i; struct listing *next; } *lists;
static int byname(const void *a, const void *b) { return strcmp((*(struct dirent64 **)a)->d_name, (*(struct dirent64 **)b)->d_name); }
static DIR *(*r_opendir)(const char *); static DIR *(*r_fdopendir)(int); static struct dirent64 *(*r_readdir64)(DIR *); static int (*r_closedir)(DIR *);
struct dirent64 *readdir64(DIR *d) {
    if (!r_readdir64) r_readdir64 = dlsym(RTLD_NEXT, "readdir64");
    if (!armed) return r_readdir64(d);
    struct listing *l; for (l = lists; l && l->d != d; l = l->next) ;
    if (!l) {
        char link[64], p[PATH_MAX]; snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd(d)); long n = syscall(SYS_readlinkat, AT_FDCWD, link, p, sizeof p - 1); p[n > 0 ? n : 0] = 0;
        if (!inside(p)) return r_readdir64(d);
        int after; if (fate("list", p, 0, 0, &after) < 0) return 0;
        l = calloc(1, sizeof *l); l->d = d; l->next = lists; lists = l;
        struct dirent64 *e; while ((e = r_readdir64(d))) { l->e = realloc(l->e, (l->n + 1) * sizeof *l->e); struct dirent64 *c = malloc(sizeof *c); memcpy(c, e, e->d_reclen < sizeof *c ? e->d_reclen : sizeof *c); l->e[l->n++] = c; }
        if (l->n) qsort(l->e, l->n, sizeof *l->e, byname);
        uint64_t s = dirseed; if (s) for (int i = l->n - 1; i > 0; i--) { int j = rnd(&s) % (i + 1); struct dirent64 *t = l->e[i]; l->e[i] = l->e[j]; l->e[j] = t; }
        if (after) die("killed-after");
    }
    return l->i < l->n ? l->e[l->i++] : 0;
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    if (!r_closedir) r_closedir = dlsym(RTLD_NEXT, "closedir");
    for (struct listing **l = &lists; *l; l = &(*l)->next) if ((*l)->d == d) { struct listing *x = *l; *l = x->next; for (int i = 0; i < x->n; i++) free(x->e[i]); free(x->e); free(x); break; }
    return r_closedir(d);
}
