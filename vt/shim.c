// LD_PRELOAD shim: counts, traces and disturbs the file-system calls that bup
// and the git commands it runs make below given directories.
//
// VT_CTL   file mapped shared by all processes of a run (struct ctl below)
// VT_ROOTS colon-separated absolute directories to watch
// VT_SNAP  directory for trace and durability snapshots (optional)
//
// A process becomes active in its constructor (if VT_CTL is set) or when it
// calls vt_shim_init() (forked bup commands).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

enum { A_NONE, A_KILL, A_KILLAFTER, A_PARTKILL, A_FAIL, A_FAILALL, A_SHORT, A_PAUSE };
enum { C_MUT = 1, C_SYNC = 2, C_OPENR = 4, C_READ = 8, C_STAT = 16 };

struct ctl {
    uint32_t count;      // operations of the chosen classes so far
    uint32_t target;     // 1-based operation to act on
    uint32_t action;
    uint32_t err;
    uint32_t classes;
    uint32_t fired;
    uint32_t seq;        // trace sequence
    char what[200];      // description of the operation acted on
    char sock[100];      // A_PAUSE: unix socket to report to
    char only[200];      // act only on paths containing this
};

static struct ctl *ctl;
static char roots[4][512];
static int nroots, logfd = -1, busy;
static char snapdir[512];

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, #name);

static int real_open(const char *p, int fl, int mode)
{
    return syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}

__attribute__((visibility("default")))
void vt_shim_init(void)
{
    const char *c = getenv("VT_CTL"), *r = getenv("VT_ROOTS"), *s = getenv("VT_SNAP");
    if (!c || !*c || !r) return;
    int fd = real_open(c, O_RDWR | O_CLOEXEC, 0);
    if (fd < 0) return;
    void *m = mmap(NULL, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (m == MAP_FAILED) return;
    nroots = 0;
    while (*r && nroots < 4) {
        size_t n = strcspn(r, ":");
        if (n && n < 511) {
            memcpy(roots[nroots], r, n);
            roots[nroots++][n] = 0;
        }
        r += n;
        if (*r) r++;
    }
    if (s && *s && strlen(s) < 400) {
        char b[600];
        strcpy(snapdir, s);
        snprintf(b, sizeof b, "%s/log", s);
        int l = real_open(b, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
        if (l >= 0) {
            logfd = syscall(SYS_fcntl, l, F_DUPFD_CLOEXEC, 700);
            syscall(SYS_close, l);
        }
    }
    ctl = m;
}

__attribute__((constructor)) static void ctor(void) { vt_shim_init(); }

static int watched(const char *p)
{
    for (int i = 0; i < nroots; i++) {
        size_t n = strlen(roots[i]);
        if (!strncmp(p, roots[i], n) && (p[n] == '/' || !p[n]))
            return 1;
    }
    return 0;
}

static int abspath(int dirfd, const char *p, char *out)
{
    if (!p) return -1;
    if (p[0] == '/') {
        if (strlen(p) >= PATH_MAX) return -1;
        strcpy(out, p);
        return 0;
    }
    ssize_t n;
    if (dirfd == AT_FDCWD) {
        if (syscall(SYS_getcwd, out, PATH_MAX) < 0) return -1;
        n = strlen(out);
    } else {
        char l[64];
        snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
        n = syscall(SYS_readlinkat, AT_FDCWD, l, out, PATH_MAX - 1);
        if (n < 0) return -1;
        out[n] = 0;
    }
    if (n + strlen(p) + 2 > PATH_MAX) return -1;
    if (*p) { out[n] = '/'; strcpy(out + n + 1, p); }
    return 0;
}

static int fdpath(int fd, char *out)
{
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, out, PATH_MAX - 1);
    if (n < 0) return -1;
    out[n] = 0;
    return out[0] == '/' ? 0 : -1;
}

static void die(void)
{
    kill(0, SIGKILL);
    kill(getpid(), SIGKILL);
    for (;;) pause();
}

static void pause_here(void)
{
    int s = socket(AF_UNIX, SOCK_STREAM, 0);
    struct sockaddr_un a = { .sun_family = AF_UNIX };
    strncpy(a.sun_path, ctl->sock, sizeof a.sun_path - 1);
    if (s < 0) return;
    if (!connect(s, (struct sockaddr *)&a, sizeof a)) {
        char b;
        while (syscall(SYS_read, s, &b, 1) < 0 && errno == EINTR) ;
    }
    syscall(SYS_close, s);
}

// Returns the action to perform for this operation (A_NONE normally).
static int step(int cls, const char *op, const char *p, const char *p2)
{
    if (!(ctl->classes & cls)) return A_NONE;
    if (ctl->only[0] && !strstr(p, ctl->only)) return A_NONE;
    uint32_t n = __sync_add_and_fetch(&ctl->count, 1);
    int hit = n == ctl->target || (ctl->action == A_FAILALL && ctl->target && n >= ctl->target);
    if (!hit) return A_NONE;
    if (!__sync_fetch_and_add(&ctl->fired, 1)) {
        const char *b = p;
        for (int i = 0; i < nroots; i++)
            if (watched(p)) { size_t k = strlen(roots[i]); if (!strncmp(p, roots[i], k)) { b = p + k; break; } }
        snprintf(ctl->what, sizeof ctl->what, "%s %.150s%s%.30s", op, b, p2 ? " -> " : "", p2 ? p2 + (strlen(p2) > 29 ? strlen(p2) - 29 : 0) : "");
    }
    int a = ctl->action;
    if (a == A_KILL) die();
    if (a == A_PAUSE) { pause_here(); return A_NONE; }
    if (a == A_FAILALL) return A_FAIL;
    return a;
}

static void hexout(char **o, const char *p)
{
    for (; *p; p++) {
        *o += sprintf(*o, "%02x", (unsigned char)*p);
    }
}

static uint32_t logline(const char *op, unsigned long ino, const char *p, const char *p2)
{
    uint32_t n = __sync_add_and_fetch(&ctl->seq, 1);
    if (logfd < 0) return n;
    char *b = malloc(4 * PATH_MAX + 200), *o = b;
    if (!b) return n;
    o += sprintf(o, "%u %s %lu ", n, op, ino);
    if (p) hexout(&o, p);
    *o++ = ' ';
    if (p2) hexout(&o, p2); else *o++ = '-';
    *o++ = '\n';
    syscall(SYS_write, logfd, b, o - b);
    free(b);
    return n;
}

// Record what an fsync makes durable.
static void snapshot(int fd, const char *p)
{
    if (logfd < 0) return;
    struct stat st;
    if (fstat(fd, &st)) return;
    char b[600];
    static __thread char buf[65536];
    uint32_t n;
    if (S_ISDIR(st.st_mode)) {
        n = logline("syncdir", st.st_ino, p, NULL);
        snprintf(b, sizeof b, "%s/%u", snapdir, n);
        int o = real_open(b, O_WRONLY | O_CREAT | O_CLOEXEC, 0600);
        int d = syscall(SYS_openat, fd, ".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
        DIR *dir = d >= 0 ? fdopendir(d) : NULL;
        struct dirent *e;
        while (dir && (e = readdir(dir))) {
            int k = snprintf(buf, sizeof buf, "%s/%lu", e->d_name, (unsigned long)e->d_ino);
            syscall(SYS_write, o, buf, k + 1);
        }
        if (dir) closedir(dir);
        syscall(SYS_close, o);
    } else if (S_ISREG(st.st_mode)) {
        n = logline("syncfile", st.st_ino, p, NULL);
        snprintf(b, sizeof b, "%s/%u", snapdir, n);
        int o = real_open(b, O_WRONLY | O_CREAT | O_CLOEXEC, 0600);
        char l[64];
        snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
        int i = real_open(l, O_RDONLY | O_CLOEXEC, 0);
        ssize_t k;
        while (i >= 0 && (k = syscall(SYS_read, i, buf, sizeof buf)) > 0)
            syscall(SYS_write, o, buf, k);
        if (i >= 0) syscall(SYS_close, i);
        syscall(SYS_close, o);
    }
}

#define ACTIVE (ctl && !busy)
#define FAILED(a) ((a) == A_FAIL ? (errno = ctl->err, 1) : 0)
#define AFTER(a) do { if ((a) == A_KILLAFTER || (a) == A_PARTKILL) die(); } while (0)

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    if (ACTIVE) {
        char p[PATH_MAX];
        if (!abspath(dirfd, path, p) && watched(p)) {
            int mut = flags & (O_CREAT | O_TRUNC);
            int a = step(mut ? C_MUT : C_OPENR, mut ? "create" : "open", p, NULL);
            if (FAILED(a)) return -1;
            int r = syscall(SYS_openat, dirfd, path, flags, mode);
            if (mut && r >= 0) logline("create", 0, p, NULL);
            AFTER(a);
            return r;
        }
    }
    return syscall(SYS_openat, dirfd, path, flags, mode);
}

#define OPEN_MODE mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *path, int flags, ...) { OPEN_MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { OPEN_MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { OPEN_MODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { OPEN_MODE return do_open(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_TRUNC | O_WRONLY, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_TRUNC | O_WRONLY | O_LARGEFILE, mode); }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags | O_LARGEFILE, 0); }

static FILE *do_fopen(FILE *(*real)(const char *, const char *), const char *path, const char *m)
{
    if (ACTIVE) {
        char p[PATH_MAX];
        if (!abspath(AT_FDCWD, path, p) && watched(p)) {
            int mut = m[0] != 'r';
            int a = step(mut ? C_MUT : C_OPENR, mut ? "create" : "open", p, NULL);
            if (FAILED(a)) return NULL;
            FILE *f = real(path, m);
            if (mut && f) logline("create", 0, p, NULL);
            AFTER(a);
            return f;
        }
    }
    return real(path, m);
}
FILE *fopen(const char *path, const char *m) { REAL(FILE *, fopen, const char *, const char *) return do_fopen(real, path, m); }
FILE *fopen64(const char *path, const char *m) { REAL(FILE *, fopen64, const char *, const char *) return do_fopen(real, path, m); }

static int fdwatched(int fd, char *p)
{
    return ACTIVE && !fdpath(fd, p) && watched(p);
}

ssize_t write(int fd, const void *buf, size_t n)
{
    char p[PATH_MAX];
    if (fd > 2 && fdwatched(fd, p)) {
        int a = step(C_MUT, "write", p, NULL);
        if (FAILED(a)) return -1;
        size_t k = n;
        if ((a == A_PARTKILL || a == A_SHORT) && n > 1) k = n / 2;
        ssize_t r = syscall(SYS_write, fd, buf, k);
        AFTER(a);
        return r;
    }
    return syscall(SYS_write, fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *v, int c)
{
    char p[PATH_MAX];
    if (fd > 2 && fdwatched(fd, p)) {
        int a = step(C_MUT, "writev", p, NULL);
        if (FAILED(a)) return -1;
        ssize_t r;
        if ((a == A_PARTKILL || a == A_SHORT) && c > 0)
            r = syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len > 1 ? v[0].iov_len / 2 : v[0].iov_len);
        else
            r = syscall(SYS_writev, fd, v, c);
        AFTER(a);
        return r;
    }
    return syscall(SYS_writev, fd, v, c);
}

static ssize_t do_pwrite(int fd, const void *buf, size_t n, off_t o)
{
    char p[PATH_MAX];
    if (fdwatched(fd, p)) {
        int a = step(C_MUT, "pwrite", p, NULL);
        if (FAILED(a)) return -1;
        size_t k = n;
        if ((a == A_PARTKILL || a == A_SHORT) && n > 1) k = n / 2;
        ssize_t r = syscall(SYS_pwrite64, fd, buf, k, o);
        AFTER(a);
        return r;
    }
    return syscall(SYS_pwrite64, fd, buf, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }

ssize_t read(int fd, void *buf, size_t n)
{
    if (ctl && (ctl->classes & C_READ)) {
        char p[PATH_MAX];
        if (fd > 2 && fdwatched(fd, p)) {
            int a = step(C_READ, "read", p, NULL);
            if (FAILED(a)) return -1;
            if (a == A_SHORT && n > 1) n = (n + 1) / 2;
        }
    }
    return syscall(SYS_read, fd, buf, n);
}

ssize_t pread(int fd, void *buf, size_t n, off_t o)
{
    if (ctl && (ctl->classes & C_READ)) {
        char p[PATH_MAX];
        if (fdwatched(fd, p)) {
            int a = step(C_READ, "pread", p, NULL);
            if (FAILED(a)) return -1;
        }
    }
    return syscall(SYS_pread64, fd, buf, n, o);
}
ssize_t pread64(int fd, void *buf, size_t n, off_t o) { return pread(fd, buf, n, o); }

static int two(const char *op, int d1, const char *p1, int d2, const char *p2, int nr, unsigned fl)
{
    char a1[PATH_MAX], a2[PATH_MAX];
    if (ACTIVE && !abspath(d1, p1, a1) && !abspath(d2, p2, a2) && (watched(a1) || watched(a2))) {
        int a = step(C_MUT, op, a1, a2);
        if (FAILED(a)) return -1;
        int r = nr == SYS_linkat ? syscall(nr, d1, p1, d2, p2, fl) : syscall(SYS_renameat2, d1, p1, d2, p2, fl);
        if (!r) logline(op, 0, a1, a2);
        AFTER(a);
        return r;
    }
    return nr == SYS_linkat ? syscall(nr, d1, p1, d2, p2, fl) : syscall(SYS_renameat2, d1, p1, d2, p2, fl);
}
int rename(const char *a, const char *b) { return two("rename", AT_FDCWD, a, AT_FDCWD, b, SYS_renameat2, 0); }
int renameat(int x, const char *a, int y, const char *b) { return two("rename", x, a, y, b, SYS_renameat2, 0); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { return two("rename", x, a, y, b, SYS_renameat2, f); }
int link(const char *a, const char *b) { return two("link", AT_FDCWD, a, AT_FDCWD, b, SYS_linkat, 0); }
int linkat(int x, const char *a, int y, const char *b, int f) { return two("link", x, a, y, b, SYS_linkat, f); }

#define ONE(op, d, path, call) \
    char p[PATH_MAX]; \
    if (ACTIVE && !abspath(d, path, p) && watched(p)) { \
        int a = step(C_MUT, op, p, NULL); \
        if (FAILED(a)) return -1; \
        int r = call; \
        if (!r) logline(op, 0, p, NULL); \
        AFTER(a); \
        return r; \
    } \
    return call;

int unlink(const char *path) { ONE("unlink", AT_FDCWD, path, syscall(SYS_unlinkat, AT_FDCWD, path, 0)) }
int unlinkat(int d, const char *path, int f) { ONE(f & AT_REMOVEDIR ? "rmdir" : "unlink", d, path, syscall(SYS_unlinkat, d, path, f)) }
int rmdir(const char *path) { ONE("rmdir", AT_FDCWD, path, syscall(SYS_unlinkat, AT_FDCWD, path, AT_REMOVEDIR)) }
int remove(const char *path)
{
    struct stat st;
    int f = !lstat(path, &st) && S_ISDIR(st.st_mode) ? AT_REMOVEDIR : 0;
    ONE(f ? "rmdir" : "unlink", AT_FDCWD, path, syscall(SYS_unlinkat, AT_FDCWD, path, f))
}
int mkdir(const char *path, mode_t m) { ONE("mkdir", AT_FDCWD, path, syscall(SYS_mkdirat, AT_FDCWD, path, m)) }
int mkdirat(int d, const char *path, mode_t m) { ONE("mkdir", d, path, syscall(SYS_mkdirat, d, path, m)) }
int symlink(const char *t, const char *path) { ONE("symlink", AT_FDCWD, path, syscall(SYS_symlinkat, t, AT_FDCWD, path)) }
int symlinkat(const char *t, int d, const char *path) { ONE("symlink", d, path, syscall(SYS_symlinkat, t, d, path)) }
int truncate(const char *path, off_t n) { ONE("truncate", AT_FDCWD, path, syscall(SYS_truncate, path, n)) }
int truncate64(const char *path, off_t n) { ONE("truncate", AT_FDCWD, path, syscall(SYS_truncate, path, n)) }

static int do_ftruncate(int fd, off_t n)
{
    char p[PATH_MAX];
    if (fdwatched(fd, p)) {
        int a = step(C_MUT, "ftruncate", p, NULL);
        if (FAILED(a)) return -1;
        int r = syscall(SYS_ftruncate, fd, n);
        AFTER(a);
        return r;
    }
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }
int ftruncate64(int fd, off_t n) { return do_ftruncate(fd, n); }

static int do_fsync(int fd, const char *op)
{
    char p[PATH_MAX];
    if (fdwatched(fd, p)) {
        int a = step(C_SYNC, op, p, NULL);
        if (FAILED(a)) return -1;
        snapshot(fd, p);
        AFTER(a);
        return 0;
    }
    return 0;   // scratch files need no real flushing
}
int fsync(int fd) { return do_fsync(fd, "fsync"); }
int fdatasync(int fd) { return do_fsync(fd, "fdatasync"); }

int vt_trace(const char *op, const char *p) { if (ctl) logline(op, 0, p, NULL); return 0; }

// ---------------------------------------------------------------- stat
// VT_STAT=coarse: timestamps have whole seconds only.
// VT_STAT=mnt: directories named mnt* below a watched root (VT_ROOTS) are
// other file systems.
static int coarse, mnt;

__attribute__((visibility("default")))
void vt_stat_init(void)
{
    const char *s = getenv("VT_STAT");
    coarse = s && strstr(s, "coarse");
    mnt = s && strstr(s, "mnt");
}

__attribute__((constructor)) static void stat_ctor(void) { vt_stat_init(); }

static void bend(struct stat *st, int have, const char *p)
{
    if (coarse) {
        st->st_atim.tv_nsec = st->st_mtim.tv_nsec = st->st_ctim.tv_nsec = 0;
    }
    if (mnt && have) {
        const char *q = p;
        while ((q = strstr(q, "/mnt"))) {
            const char *e = strchrnul(q + 1, '/');
            if (*e || S_ISDIR(st->st_mode)) st->st_dev += 1000;
            q = e;
        }
    }
}

static int do_stat(int d, const char *path, struct stat *st, int flags)
{
    int r = syscall(SYS_newfstatat, d, path, st, flags);
    if (!r && (coarse || mnt)) {
        int e = errno;
        char p[PATH_MAX];
        int have = 0;
        if (mnt) have = !(*path ? abspath(d, path, p) : fdpath(d, p));
        bend(st, have, p);
        errno = e;
    }
    return r;
}

int stat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, 0); }
int lstat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstat(int fd, struct stat *st) { return do_stat(fd, "", st, AT_EMPTY_PATH); }
int fstatat(int d, const char *p, struct stat *st, int f) { return do_stat(d, p, st, f); }
int stat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *) st, 0); }
int lstat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *) st, AT_SYMLINK_NOFOLLOW); }
int fstat64(int fd, struct stat64 *st) { return do_stat(fd, "", (struct stat *) st, AT_EMPTY_PATH); }
int fstatat64(int d, const char *p, struct stat64 *st, int f) { return do_stat(d, p, (struct stat *) st, f); }
