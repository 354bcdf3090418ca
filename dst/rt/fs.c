// A simulated disk: interposes the file calls of the process (LD_PRELOAD) for paths under watched directories.
// Faults are rules: "at the n-th call of this kind do that".  Off until dstfs_arm(1).
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define PATH 1024
enum { OPEN, READ, STAT, DIR_, READDIR, FSTAT, NOPS, ANY = NOPS };
enum { FAIL, SHORT, RENAME, UNLINK };

typedef struct { int op, nth, act, err; long arg; char a[PATH], b[PATH]; int fired; } Rule;
static Rule rules[64];
static int nrules, armed, counts[NOPS + 1], fired[NOPS + 1][4];
static char watched[8][PATH];
static int nwatched;
static char redir[2][PATH];
static unsigned char fds[65536];
static int nopen;
static unsigned long long dseed;

typedef struct { DIR *d; struct dirent64 *e; int n, i; } Dir;
static Dir dirs[64];

#define API __attribute__((visibility("default")))
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__); if (!r) r = dlsym(RTLD_NEXT, #name)

API void dstfs_reset(void) { armed = 0; nrules = nwatched = 0; redir[0][0] = 0; memset(counts, 0, sizeof counts); memset(fired, 0, sizeof fired); }
API void dstfs_arm(int on) { armed = on; }
API void dstfs_begin(unsigned long long seed) { nrules = 0; memset(counts, 0, sizeof counts); memset(fired, 0, sizeof fired); dseed = seed; }
API void dstfs_watch(const char *p) { snprintf(watched[nwatched++ & 7], PATH, "%s", p); }
API void dstfs_redirect(const char *a, const char *b) { snprintf(redir[0], PATH, "%s", a); snprintf(redir[1], PATH, "%s", b); }
API void dstfs_rule(int op, int nth, int act, int err, long arg, const char *a, const char *b)
{
    if (nrules >= 64) return;
    Rule *q = &rules[nrules++];
    q->op = op; q->nth = nth; q->act = act; q->err = err; q->arg = arg; q->fired = 0;
    snprintf(q->a, PATH, "%s", a ? a : "");
    snprintf(q->b, PATH, "%s", b ? b : "");
}
API int dstfs_count(int op) { return counts[op]; }
API int dstfs_fired(int op, int act) { return fired[op][act]; }
API int dstfs_rule_fired(int i) { return rules[i].fired; }
API int dstfs_nopen(void) { return nopen; }

static int under(const char *p, const char *w)
{
    size_t n = strlen(w);
    return !strncmp(p, w, n) && (p[n] == 0 || p[n] == '/');
}

// absolute, lexically normalised, redirected; 0 if not watched
static int resolve(int dirfd, const char *p, char *out)
{
    if (!armed || !p) return 0;
    char t[2 * PATH];
    if (p[0] == '/') snprintf(t, sizeof t, "%s", p);
    else {
        char c[PATH];
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, c, (long)PATH) < 0) return 0;
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            long n = syscall(SYS_readlink, l, c, (long)PATH - 1);
            if (n < 0) return 0;
            c[n] = 0;
        }
        snprintf(t, sizeof t, "%s/%s", c, p);
    }
    int n = 0;
    for (char *q = t; *q;) {
        while (*q == '/') q++;
        char *e = q;
        while (*e && *e != '/') e++;
        int l = e - q;
        if (l == 0 || (l == 1 && q[0] == '.')) ;
        else if (l == 2 && q[0] == '.' && q[1] == '.') { while (n && out[--n] != '/') ; }
        else { if (n + l + 2 > PATH) return 0; out[n++] = '/'; memcpy(out + n, q, l); n += l; }
        q = e;
    }
    if (!n) out[n++] = '/';
    size_t pl = strlen(p);
    if (pl && p[pl - 1] == '/' && n < PATH - 1 && out[n - 1] != '/') out[n++] = '/';
    out[n] = 0;
    if (redir[0][0] && under(out, redir[0])) {
        char u[2 * PATH];
        snprintf(u, sizeof u, "%s%s", redir[1], out + strlen(redir[0]));
        snprintf(out, PATH, "%s", u);
        return 1;
    }
    for (int i = 0; i < nwatched; i++) if (under(out, watched[i])) return 1;
    return 0;
}

// runs the rules due at this call; returns the errno to fail with, or 0; *len may shrink
static int due(int op, size_t *len, const char *path)
{
    int k = counts[op]++, any = counts[ANY]++, err = 0;
    for (int i = 0; i < nrules; i++) {
        Rule *q = &rules[i];
        if (q->nth == -1 ? q->op != ANY && q->op != op : !(q->op == op && q->nth == k) && !(q->op == ANY && q->nth == any)) continue;
        if (q->act == FAIL && q->a[0] && !(path && under(path, q->a))) continue;
        if (q->act == SHORT && (op != READ || !len)) continue;
        q->fired++; fired[op][q->act]++;
        if (q->act == FAIL) err = q->err;
        else if (q->act == SHORT) { if (*len > (size_t)q->arg && q->arg > 0) *len = q->arg; }
        else if (q->act == RENAME) syscall(SYS_renameat2, AT_FDCWD, q->a, AT_FDCWD, q->b, 0);
        else if (q->act == UNLINK) syscall(SYS_unlink, q->a);
    }
    return err;
}

static int opened(int fd)
{
    if (fd >= 0 && fd < 65536) { fds[fd] = 1; nopen++; }
    return fd;
}

static int do_open(int dirfd, const char *p, int flags, mode_t mode)
{
    char t[PATH];
    if (!resolve(dirfd, p, t)) {
        long r = syscall(SYS_openat, dirfd, p, flags, mode);
        return r;
    }
    int e = due(OPEN, 0, t);
    if (e) { errno = e; return -1; }
    return opened(syscall(SYS_openat, AT_FDCWD, t, flags, mode));
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
API int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
API int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m); }
API int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }
API int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m); }

static FILE *do_fopen(const char *p, const char *mode, FILE *(*r)(const char *, const char *))
{
    char t[PATH];
    if (!resolve(AT_FDCWD, p, t)) return r(p, mode);
    int e = due(OPEN, 0, t);
    if (e) { errno = e; return 0; }
    return r(t, mode);
}
API FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); return do_fopen(p, m, r); }
API FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); return do_fopen(p, m, r); }

static int mine(int fd) { return armed && fd >= 0 && fd < 65536 && fds[fd]; }

API int close(int fd)
{
    REAL(int, close, int);
    if (fd >= 0 && fd < 65536 && fds[fd]) { fds[fd] = 0; nopen--; }
    return r(fd);
}
API ssize_t read(int fd, void *b, size_t n)
{
    REAL(ssize_t, read, int, void *, size_t);
    if (mine(fd)) { int e = due(READ, &n, 0); if (e) { errno = e; return -1; } }
    return r(fd, b, n);
}
API ssize_t pread64(int fd, void *b, size_t n, off64_t o)
{
    REAL(ssize_t, pread64, int, void *, size_t, off64_t);
    if (mine(fd)) { int e = due(READ, &n, 0); if (e) { errno = e; return -1; } }
    return r(fd, b, n, o);
}
API ssize_t readv(int fd, const struct iovec *v, int c)
{
    REAL(ssize_t, readv, int, const struct iovec *, int);
    if (mine(fd)) { int e = due(READ, 0, 0); if (e) { errno = e; return -1; } }
    return r(fd, v, c);
}

static int do_stat(int dirfd, const char *p, struct stat *s, int flags)
{
    char t[PATH];
    if ((flags & AT_EMPTY_PATH) && p && !*p) return syscall(SYS_newfstatat, dirfd, p, s, flags);
    if (!resolve(dirfd, p, t)) return syscall(SYS_newfstatat, dirfd, p, s, flags);
    int e = due(STAT, 0, t);
    if (e) { errno = e; return -1; }
    return syscall(SYS_newfstatat, AT_FDCWD, t, s, flags);
}
API int stat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, 0); }
API int stat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, (struct stat *)s, 0); }
API int lstat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
API int lstat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, (struct stat *)s, AT_SYMLINK_NOFOLLOW); }
API int fstatat(int d, const char *p, struct stat *s, int f) { return do_stat(d, p, s, f); }
API int fstatat64(int d, const char *p, struct stat64 *s, int f) { return do_stat(d, p, (struct stat *)s, f); }
API int fstat(int fd, struct stat *s)
{
    if (mine(fd)) { int e = due(FSTAT, 0, 0); if (e) { errno = e; return -1; } }
    return syscall(SYS_fstat, fd, s);
}
API int fstat64(int fd, struct stat64 *s) { return fstat(fd, (struct stat *)s); }
API int faccessat(int d, const char *p, int m, int f)
{
    REAL(int, faccessat, int, const char *, int, int);
    char t[PATH];
    if (!resolve(d, p, t)) return r(d, p, m, f);
    int e = due(STAT, 0, t);
    if (e) { errno = e; return -1; }
    return r(AT_FDCWD, t, m, f);
}
API int access(const char *p, int m)
{
    REAL(int, access, const char *, int);
    char t[PATH];
    if (!resolve(AT_FDCWD, p, t)) return r(p, m);
    int e = due(STAT, 0, t);
    if (e) { errno = e; return -1; }
    return r(t, m);
}
API ssize_t readlink(const char *p, char *b, size_t n)
{
    char t[PATH];
    if (!resolve(AT_FDCWD, p, t)) return syscall(SYS_readlink, p, b, n);
    int e = due(STAT, 0, t);
    if (e) { errno = e; return -1; }
    return syscall(SYS_readlink, t, b, n);
}

static DIR *listing(DIR *d)
{
    static struct dirent64 *(*rd)(DIR *);
    if (!rd) rd = dlsym(RTLD_NEXT, "readdir64");
    if (!d) return d;
    for (int i = 0; i < 64; i++) if (!dirs[i].d) {
        Dir *q = &dirs[i];
        q->d = d; q->n = q->i = 0; q->e = 0;
        struct dirent64 *e;
        while ((e = rd(d))) {
            q->e = realloc(q->e, sizeof(*e) * (q->n + 1));
            memcpy(&q->e[q->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
            q->n++;
        }
        // first a fixed order, then one of our choice
        for (int a = 1; a < q->n; a++) for (int b = a; b && strcmp(q->e[b].d_name, q->e[b - 1].d_name) < 0; b--) { struct dirent64 x = q->e[b]; q->e[b] = q->e[b - 1]; q->e[b - 1] = x; }
        unsigned long long s = dseed * 6364136223846793005ULL + 1442695040888963407ULL;
        if (dseed) for (int a = q->n - 1; a > 0; a--) {
            s = s * 6364136223846793005ULL + 1442695040888963407ULL;
            int b = (s >> 33) % (a + 1);
            struct dirent64 x = q->e[a]; q->e[a] = q->e[b]; q->e[b] = x;
        }
        return d;
    }
    return d;
}
API DIR *opendir(const char *p)
{
    REAL(DIR *, opendir, const char *);
    char t[PATH];
    if (!resolve(AT_FDCWD, p, t)) return r(p);
    int e = due(DIR_, 0, t);
    if (e) { errno = e; return 0; }
    return listing(r(t));
}
API DIR *fdopendir(int fd)
{
    REAL(DIR *, fdopendir, int);
    if (!mine(fd)) return r(fd);
    int e = due(DIR_, 0, 0);
    if (e) { errno = e; return 0; }
    return listing(r(fd));
}
static Dir *find(DIR *d) { for (int i = 0; i < 64; i++) if (dirs[i].d == d) return &dirs[i]; return 0; }
API struct dirent64 *readdir64(DIR *d)
{
    REAL(struct dirent64 *, readdir64, DIR *);
    Dir *q = find(d);
    if (!q) return r(d);
    int e = armed ? due(READDIR, 0, 0) : 0;
    if (e) { errno = e; return 0; }
    return q->i < q->n ? &q->e[q->i++] : 0;
}
API struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
API void rewinddir(DIR *d)
{
    REAL(void, rewinddir, DIR *);
    Dir *q = find(d);
    if (q) q->i = 0; else r(d);
}
API int closedir(DIR *d)
{
    REAL(int, closedir, DIR *);
    Dir *q = find(d);
    if (q) {
        int fd = dirfd(d);
        if (fd >= 0 && fd < 65536 && fds[fd]) { fds[fd] = 0; nopen--; }
        free(q->e); q->d = 0; q->e = 0;
    }
    return r(d);
}
API int dstfs_ndirs(void) { int n = 0; for (int i = 0; i < 64; i++) n += !!dirs[i].d; return n; }
