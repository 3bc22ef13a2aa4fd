/* LD_PRELOAD shim: counts the file system operations that concern paths
 * below a prefix, and at a chosen one ends the process, tears a write or
 * returns an error.  Nothing happens until vf_arm() is called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/sendfile.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE, KILL_BEFORE, KILL_AFTER, KILL_TORN1, KILL_TORNHALF, FAIL, SHORT,
       INTERRUPT, PAUSE };

static int armed, at, action, err, count, at2, action2, err2;
static char prefix[PATH_MAX];
static unsigned char mine[4096];
static char oplog[1 << 16];
static size_t loglen;
/* names that were created, renamed or removed */
static char names[1 << 16];
static size_t nameslen;

#define REAL(name) \
    static __typeof__(name) *real; \
    if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

void vf_arm(const char *p, int k, int act, int e, int k2, int act2, int e2)
{
    snprintf(prefix, sizeof prefix, "%s", p);
    at = k; action = act; err = e; count = 0;
    at2 = k2; action2 = act2; err2 = e2; loglen = 0; oplog[0] = 0;
    nameslen = 0; names[0] = 0;
    memset(mine, 0, sizeof mine);
    armed = 1;
}
void vf_disarm(void) { armed = 0; }
int vf_count(void) { return count; }
const char *vf_log(void) { return oplog; }
const char *vf_names(void) { return names; }
static void named(const char *p)
{
    if (p && nameslen + strlen(p) + 2 < sizeof names)
        nameslen += sprintf(names + nameslen, "%s\n", p);
}

static int ours(const char *p)
{
    char buf[PATH_MAX];
    if (!armed || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(buf, sizeof buf - 1)) return 0;
        strcat(buf, "/");
        return !strncmp(buf, prefix, strlen(prefix));
    }
    return !strncmp(p, prefix, strlen(prefix));
}
static int fdours(int fd) { return armed && fd >= 0 && fd < 4096 && mine[fd]; }

/* returns 1: fail with err; 2: shortened; 0: go on.  n: bytes of a write */
static int step(const char *name, int changes)
{
    int k = count++;
    if (loglen < sizeof oplog - 40)
        loglen += snprintf(oplog + loglen, 39, "%s%s ", name,
                           changes ? "!" : "");
    if (k == at2) { at = at2; action = action2; err = err2; }
    if (k != at) return 0;
    if (action == KILL_BEFORE) _exit(77);
    if (action == FAIL) { errno = err; return 1; }
    if (action == INTERRUPT) raise(SIGINT);
    if (action == PAUSE) { raise(SIGSTOP); return 0; }
    return 2;
}
static void after(int s)
{
    if (s == 2 && action == KILL_AFTER) _exit(77);
}

static int do_open(const char *name, int (*real)(const char *, int, ...),
                   const char *p, int fl, mode_t m)
{
    int s, fd, o = ours(p);
    if (!o) return real(p, fl, m);
    if (fl & O_CREAT) named(p);
    s = step(name, (fl & (O_CREAT | O_TRUNC)) != 0);
    if (s == 1) return -1;
    fd = real(p, fl, m);
    if (fd >= 0 && fd < 4096) mine[fd] = 1;
    after(s);
    return fd;
}
#define OPEN(name) \
int name(const char *p, int fl, ...) { \
    mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { \
        va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    REAL(name); \
    return do_open("open", (int (*)(const char *, int, ...))real, p, fl, m); \
}
OPEN(open)
OPEN(open64)

static int do_openat(int (*real)(int, const char *, int, ...), int d,
                     const char *p, int fl, mode_t m)
{
    int s, fd, o = p[0] == '/' || d == AT_FDCWD ? ours(p) : fdours(d);
    if (!o) return real(d, p, fl, m);
    if (fl & O_CREAT) named(p);
    s = step("open", (fl & (O_CREAT | O_TRUNC)) != 0);
    if (s == 1) return -1;
    fd = real(d, p, fl, m);
    if (fd >= 0 && fd < 4096) mine[fd] = 1;
    after(s);
    return fd;
}
#define OPENAT(name) \
int name(int d, const char *p, int fl, ...) { \
    mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { \
        va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } \
    REAL(name); \
    return do_openat((int (*)(int, const char *, int, ...))real, d, p, fl, m); \
}
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *b, size_t n)
{
    int s; ssize_t r;
    REAL(write);
    if (!fdours(fd)) return real(fd, b, n);
    s = step("write", 1);
    if (s == 1) return -1;
    if (s == 2 && action == KILL_TORN1) { r = real(fd, b, n ? 1 : 0); _exit(77); }
    if (s == 2 && action == KILL_TORNHALF) { r = real(fd, b, n / 2); _exit(77); }
    if (s == 2 && action == SHORT && n > 1) return real(fd, b, n / 2);
    r = real(fd, b, n);
    after(s);
    return r;
}
ssize_t read(int fd, void *b, size_t n)
{
    int s; ssize_t r;
    REAL(read);
    if (!fdours(fd)) return real(fd, b, n);
    s = step("read", 0);
    if (s == 1) return -1;
    if (s == 2 && action == SHORT && n > 3) n = 3;
    r = real(fd, b, n);
    after(s);
    return r;
}
int close(int fd)
{
    int s, r;
    REAL(close);
    if (!fdours(fd)) return real(fd);
    mine[fd] = 0;
    s = step("close", 0);
    r = real(fd);
    if (s == 1) { errno = err; return -1; }
    after(s);
    return r;
}

#define OP(decl, name, cond, call, tag) \
decl { \
    int s; long r; \
    REAL(name); \
    if (!(cond)) return real call; \
    s = step(tag, 1); \
    if (s == 1) return -1; \
    r = real call; \
    after(s); \
    return r; \
}
static int xdev(const char *a, const char *b)
{
    if (armed && ours(b) && !ours(a)) { errno = EXDEV; return 1; }
    return 0;
}
int rename(const char *a, const char *b)
{
    int s, r;
    REAL(rename);
    if (!ours(a) && !ours(b)) return real(a, b);
    named(a); named(b);
    s = step("rename", 1);
    if (s == 1 || xdev(a, b)) return -1;
    r = real(a, b);
    after(s);
    return r;
}
int renameat(int da, const char *a, int db, const char *b)
{
    int s, r;
    REAL(renameat);
    if (!ours(a) && !ours(b)) return real(da, a, db, b);
    named(a); named(b);
    s = step("rename", 1);
    if (s == 1 || xdev(a, b)) return -1;
    r = real(da, a, db, b);
    after(s);
    return r;
}
OP(int unlink(const char *p), unlink, ours(p), (p), "unlink")
OP(int unlinkat(int d, const char *p, int f), unlinkat, ours(p), (d, p, f), "unlink")
OP(int chmod(const char *p, mode_t m), chmod, ours(p), (p, m), "chmod")
OP(int fchmod(int f, mode_t m), fchmod, fdours(f), (f, m), "chmod")
OP(int fchmodat(int d, const char *p, mode_t m, int f), fchmodat, ours(p), (d, p, m, f), "chmod")
OP(int ftruncate(int f, off_t n), ftruncate, fdours(f), (f, n), "truncate")
OP(int ftruncate64(int f, off64_t n), ftruncate64, fdours(f), (f, n), "truncate")
OP(int truncate(const char *p, off_t n), truncate, ours(p), (p, n), "truncate")
OP(int truncate64(const char *p, off64_t n), truncate64, ours(p), (p, n), "truncate")
OP(int link(const char *a, const char *b), link, ours(b), (a, b), "link")
OP(int symlink(const char *a, const char *b), symlink, ours(b), (a, b), "symlink")
OP(int fsync(int f), fsync, fdours(f), (f), "fsync")
OP(int fdatasync(int f), fdatasync, fdours(f), (f), "fsync")
OP(ssize_t sendfile(int o, int i, off_t *p, size_t n), sendfile, fdours(o), (o, i, p, n), "sendfile")
OP(ssize_t sendfile64(int o, int i, off64_t *p, size_t n), sendfile64, fdours(o), (o, i, p, n), "sendfile")
OP(ssize_t writev(int f, const struct iovec *v, int n), writev, fdours(f), (f, v, n), "writev")
OP(ssize_t pwrite(int f, const void *b, size_t n, off_t o), pwrite, fdours(f), (f, b, n, o), "write")
OP(ssize_t pwrite64(int f, const void *b, size_t n, off64_t o), pwrite64, fdours(f), (f, b, n, o), "write")
OP(ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f), copy_file_range, fdours(o), (i, a, o, b, n, f), "copy")
