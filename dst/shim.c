/* simdisk: an LD_PRELOAD shim that turns every file-system call the process makes on files in scope into a
 * step of the simulator.  Off by default: nothing is intercepted until simdisk_on() is called (only the
 * redirections of SIMDISK_REDIRECT are always live).  When it is on, each call on a file in scope (below the
 * scratch directory, one of the registered data files, or fd 1 if asked for) is first announced on a request
 * pipe, and the process waits for the simulator's verdict: go on, fail with an errno, transfer fewer bytes,
 * or die on the spot.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXRED 16
static int on = 0;
static int req_fd = -1, resp_fd = -1;
static char scratch[PATH_MAX] = "";
static size_t scratch_len = 0;
static char *fdpath[MAXFD];
static int watch_stdout = 0;
static struct { char from[512]; char to[512]; } red[MAXRED];
static int nred = -1;
static char watch[MAXRED][512];
static int nwatch = 0;

#define REAL(name) ({ static __typeof__(&name) p_; if (!p_) p_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); p_; })

static void init_red(void) {
    if (nred >= 0) return;
    nred = 0;
    const char *s = getenv("SIMDISK_REDIRECT");
    while (s && *s && nred < MAXRED) {
        const char *eq = strchr(s, '='), *end = strchr(s, ';');
        if (!end) end = s + strlen(s);
        if (!eq || eq > end) break;
        snprintf(red[nred].from, sizeof red[nred].from, "%.*s", (int)(eq - s), s);
        snprintf(red[nred].to, sizeof red[nred].to, "%.*s", (int)(end - eq - 1), eq + 1);
        nred++;
        s = *end ? end + 1 : end;
    }
}

/* absolute, lexically normalised form of a path */
static void absolute(const char *p, char *out) {
    char tmp[PATH_MAX * 2];
    if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
    else {
        char cwd[PATH_MAX];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) cwd[0] = 0;
        snprintf(tmp, sizeof tmp, "%s/%s", cwd, p);
    }
    size_t n = 0; out[0] = 0;
    char *save = NULL;
    for (char *part = strtok_r(tmp, "/", &save); part; part = strtok_r(NULL, "/", &save)) {
        if (!strcmp(part, ".")) continue;
        if (!strcmp(part, "..")) { while (n && out[--n] != '/') ; out[n] = 0; continue; }
        n += snprintf(out + n, PATH_MAX - n, "/%s", part);
        if (n >= PATH_MAX) { n = PATH_MAX - 1; break; }
    }
    if (!n) strcpy(out, "/");
}

static const char *redirect(const char *abs) {
    init_red();
    for (int i = 0; i < nred; i++) if (!strcmp(abs, red[i].from)) return red[i].to;
    return NULL;
}

static int in_scope(const char *abs) {
    if (!on) return 0;
    if (scratch_len && !strncmp(abs, scratch, scratch_len) && (abs[scratch_len] == '/' || !abs[scratch_len])) return 1;
    for (int i = 0; i < nwatch; i++) if (!strcmp(abs, watch[i])) return 1;
    return 0;
}

struct verdict { int action; int value; };  /* 0 go on, 1 errno, 2 short, 3 die */

static struct verdict ask(const char *op, int fd, const char *path, const char *path2, long len, long off, int flags) {
    struct verdict v = {0, 0};
    char buf[PATH_MAX * 2 + 256];
    int n = snprintf(buf, sizeof buf, "%s\t%d\t%ld\t%ld\t%d\t%s\t%s\n", op, fd, len, off, flags, path ? path : "", path2 ? path2 : "");
    int e = errno;
    const char *p = buf;
    while (n > 0) {
        long w = syscall(SYS_write, req_fd, p, n);
        if (w < 0) { if (errno == EINTR) continue; syscall(SYS_exit_group, 99); }
        p += w; n -= w;
    }
    char *q = (char *)&v; size_t need = sizeof v;
    while (need) {
        long r = syscall(SYS_read, resp_fd, q, need);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) syscall(SYS_exit_group, 98);
        q += r; need -= r;
    }
    if (v.action == 3) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) syscall(SYS_pause); }
    errno = e;
    return v;
}

void simdisk_on(int req, int resp, const char *dir, int watch_out) {
    req_fd = req; resp_fd = resp;
    snprintf(scratch, sizeof scratch, "%s", dir ? dir : "");
    scratch_len = strlen(scratch);
    watch_stdout = watch_out;
    on = 1;
}
void simdisk_watch(const char *path) { if (nwatch < MAXRED) snprintf(watch[nwatch++], sizeof watch[0], "%s", path); }
void simdisk_off(void) { on = 0; }
int simdisk_present(void) { return 1; }

static void track(int fd, const char *abs) {
    if (fd < 0 || fd >= MAXFD) return;
    free(fdpath[fd]); fdpath[fd] = abs ? strdup(abs) : NULL;
}
static const char *fdname(int fd) {
    if (!on || fd < 0 || fd >= MAXFD) return NULL;
    if (fd == 1 && watch_stdout) return "<stdout>";
    return fdpath[fd];
}

static int do_open(const char *path, int flags, mode_t mode, int dirfd) {
    char abs[PATH_MAX];
    const char *use = path;
    if (path && (path[0] == '/' || dirfd == AT_FDCWD)) {
        absolute(path, abs);
        const char *r = redirect(abs);
        if (r) use = r;
        if (in_scope(abs)) {
            struct verdict v = ask("open", -1, abs, NULL, 0, 0, flags);
            if (v.action == 1) { errno = v.value; return -1; }
            int fd = syscall(SYS_openat, AT_FDCWD, use, flags, mode);
            if (fd >= 0) track(fd, abs);
            return fd;
        }
    }
    int fd = syscall(SYS_openat, dirfd, use, flags, mode);
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) track(fd, NULL);
    return fd;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open(path, flags, mode, AT_FDCWD); }
int open64(const char *path, int flags, ...) { MODE return do_open(path, flags | O_LARGEFILE, mode, AT_FDCWD); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(path, flags, mode, d); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(path, flags | O_LARGEFILE, mode, d); }
int creat(const char *path, mode_t mode) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode, AT_FDCWD); }
int creat64(const char *path, mode_t mode) { return creat(path, mode); }

FILE *fopen64(const char *path, const char *m);
static const char *fopen_use(const char *path, char *abs) {
    absolute(path, abs);
    const char *r = redirect(abs);
    return r ? r : path;
}
FILE *fopen(const char *path, const char *m) {
    char abs[PATH_MAX]; const char *use = fopen_use(path, abs);
    if (in_scope(abs)) { struct verdict v = ask("open", -1, abs, NULL, 0, 0, m[0] == 'r' ? 0 : O_CREAT | O_WRONLY); if (v.action == 1) { errno = v.value; return NULL; } }
    FILE *f = REAL(fopen)(use, m);
    if (f && in_scope(abs)) track(fileno(f), abs);
    return f;
}
FILE *fopen64(const char *path, const char *m) { return fopen(path, m); }

#define XFER(opname, fd, len, off, realcall) \
    const char *nm_ = fdname(fd); \
    if (nm_) { \
        struct verdict v = ask(opname, fd, nm_, NULL, (long)(len), (long)(off), 0); \
        if (v.action == 1) { errno = v.value; return -1; } \
        if (v.action == 2 && (size_t)v.value < (size_t)(len)) len = v.value; \
    } \
    return realcall;

ssize_t read(int fd, void *b, size_t n) { XFER("read", fd, n, -1, syscall(SYS_read, fd, b, n)) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { XFER("read", fd, n, o, syscall(SYS_pread64, fd, b, n, o)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { XFER("read", fd, n, o, syscall(SYS_pread64, fd, b, n, o)) }
ssize_t write(int fd, const void *b, size_t n) { XFER("write", fd, n, -1, syscall(SYS_write, fd, b, n)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { XFER("write", fd, n, o, syscall(SYS_pwrite64, fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { XFER("write", fd, n, o, syscall(SYS_pwrite64, fd, b, n, o)) }
ssize_t readv(int fd, const struct iovec *v_, int c) { long n = 0; for (int i = 0; i < c; i++) n += v_[i].iov_len; long len = n; 
    const char *nm = fdname(fd); if (nm) { struct verdict v = ask("read", fd, nm, NULL, len, -1, 0); if (v.action == 1) { errno = v.value; return -1; } }
    return syscall(SYS_readv, fd, v_, c); }
ssize_t writev(int fd, const struct iovec *v_, int c) { long n = 0; for (int i = 0; i < c; i++) n += v_[i].iov_len;
    const char *nm = fdname(fd); if (nm) { struct verdict v = ask("write", fd, nm, NULL, n, -1, 0); if (v.action == 1) { errno = v.value; return -1; } }
    return syscall(SYS_writev, fd, v_, c); }
ssize_t sendfile(int out, int in, off_t *o, size_t n) { XFER("write", out, n, -1, syscall(SYS_sendfile, out, in, o, n)) }
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { XFER("write", out, n, -1, syscall(SYS_sendfile, out, in, o, n)) }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) { XFER("write", out, n, -1, syscall(SYS_copy_file_range, in, oi, out, oo, n, fl)) }

/* stdio reads (numpy's fromfile) do not go through read() as seen from here, so they are a step of their own */
size_t fread(void *b, size_t size, size_t n, FILE *f) {
    const char *nm = on ? fdname(fileno(f)) : NULL;
    if (nm) {
        struct verdict v = ask("read", fileno(f), nm, NULL, (long)(size * n), -1, 0);
        if (v.action == 1) { errno = v.value; return 0; }
    }
    return REAL(fread)(b, size, n, f);
}

#define SIMPLE_FD(opname, fd, len, realcall) \
    const char *nm_ = fdname(fd); \
    if (nm_) { struct verdict v = ask(opname, fd, nm_, NULL, (long)(len), 0, 0); if (v.action == 1) { errno = v.value; return -1; } } \
    return realcall;
int ftruncate(int fd, off_t l) { SIMPLE_FD("truncate", fd, l, syscall(SYS_ftruncate, fd, l)) }
int ftruncate64(int fd, off64_t l) { SIMPLE_FD("truncate", fd, l, syscall(SYS_ftruncate, fd, l)) }
int fsync(int fd) { SIMPLE_FD("fsync", fd, 0, syscall(SYS_fsync, fd)) }
int fdatasync(int fd) { SIMPLE_FD("fsync", fd, 0, syscall(SYS_fdatasync, fd)) }
int flock(int fd, int op) { SIMPLE_FD("flock", fd, op, syscall(SYS_flock, fd, op)) }
int fallocate(int fd, int m, off_t o, off_t l) { SIMPLE_FD("truncate", fd, l, syscall(SYS_fallocate, fd, m, o, l)) }

int close(int fd) {
    const char *nm = fdname(fd);
    if (nm && fd != 1) {
        struct verdict v = ask("close", fd, nm, NULL, 0, 0, 0);
        track(fd, NULL);
        int r = syscall(SYS_close, fd);             /* Linux releases the descriptor even when close fails */
        if (v.action == 1) { errno = v.value; return -1; }
        return r;
    }
    if (fd >= 0 && fd < MAXFD && fdpath[fd]) track(fd, NULL);
    return syscall(SYS_close, fd);
}
int dup(int fd) { int r = syscall(SYS_dup, fd); if (r >= 0 && r < MAXFD) track(r, fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL); return r; }
int dup2(int a, int b) { int r = a == b ? b : syscall(SYS_dup3, a, b, 0); if (r >= 0 && r < MAXFD && a != b) track(r, a >= 0 && a < MAXFD ? fdpath[a] : NULL); return r; }
int dup3(int a, int b, int f) { int r = syscall(SYS_dup3, a, b, f); if (r >= 0 && r < MAXFD) track(r, a >= 0 && a < MAXFD ? fdpath[a] : NULL); return r; }

#define SIMPLE_PATH(opname, p, p2, realcall) \
    char abs_[PATH_MAX], abs2_[PATH_MAX]; abs2_[0] = 0; absolute(p, abs_); const char *q2_ = p2; if (q2_) absolute(q2_, abs2_); \
    if (in_scope(abs_) || (q2_ && in_scope(abs2_))) { struct verdict v = ask(opname, -1, abs_, abs2_, 0, 0, 0); if (v.action == 1) { errno = v.value; return -1; } } \
    return realcall;
int rename(const char *a, const char *b) { SIMPLE_PATH("rename", a, b, syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0)) }
int renameat(int d, const char *a, int e, const char *b) { SIMPLE_PATH("rename", a, b, syscall(SYS_renameat2, d, a, e, b, 0)) }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { SIMPLE_PATH("rename", a, b, syscall(SYS_renameat2, d, a, e, b, f)) }
int link(const char *a, const char *b) { SIMPLE_PATH("link", a, b, syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0)) }
int linkat(int d, const char *a, int e, const char *b, int f) { SIMPLE_PATH("link", a, b, syscall(SYS_linkat, d, a, e, b, f)) }
int symlink(const char *a, const char *b) { SIMPLE_PATH("symlink", b, NULL, syscall(SYS_symlinkat, a, AT_FDCWD, b)) }
int unlink(const char *a) { SIMPLE_PATH("unlink", a, NULL, syscall(SYS_unlinkat, AT_FDCWD, a, 0)) }
int unlinkat(int d, const char *a, int f) { SIMPLE_PATH("unlink", a, NULL, syscall(SYS_unlinkat, d, a, f)) }
int truncate(const char *a, off_t l) { SIMPLE_PATH("truncate", a, NULL, syscall(SYS_truncate, a, l)) }
int truncate64(const char *a, off64_t l) { SIMPLE_PATH("truncate", a, NULL, syscall(SYS_truncate, a, l)) }
int mkdir(const char *a, mode_t m) { SIMPLE_PATH("mkdir", a, NULL, syscall(SYS_mkdirat, AT_FDCWD, a, m)) }
int chmod(const char *a, mode_t m) { SIMPLE_PATH("chmod", a, NULL, syscall(SYS_fchmodat, AT_FDCWD, a, m)) }

#define STATTING(p, realcall_with_use) \
    char abs_[PATH_MAX]; absolute(p, abs_); const char *use = redirect(abs_); if (!use) use = p; \
    if (in_scope(abs_)) { struct verdict v = ask("stat", -1, abs_, NULL, 0, 0, 0); if (v.action == 1) { errno = v.value; return -1; } } \
    return realcall_with_use;
int stat(const char *p, struct stat *s) { STATTING(p, syscall(SYS_newfstatat, AT_FDCWD, use, s, 0)) }
int stat64(const char *p, struct stat64 *s) { STATTING(p, syscall(SYS_newfstatat, AT_FDCWD, use, s, 0)) }
int lstat(const char *p, struct stat *s) { STATTING(p, syscall(SYS_newfstatat, AT_FDCWD, use, s, AT_SYMLINK_NOFOLLOW)) }
int lstat64(const char *p, struct stat64 *s) { STATTING(p, syscall(SYS_newfstatat, AT_FDCWD, use, s, AT_SYMLINK_NOFOLLOW)) }
static int do_fstatat(int d, const char *p, void *s, int f) {
    if (!p || !*p || (p[0] != '/' && d != AT_FDCWD)) return syscall(SYS_newfstatat, d, p, s, f);
    STATTING(p, syscall(SYS_newfstatat, d, use, s, f))
}
int fstatat(int d, const char *p, struct stat *s, int f) { return do_fstatat(d, p, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { return do_fstatat(d, p, s, f); }
int access(const char *p, int m) { STATTING(p, syscall(SYS_faccessat, AT_FDCWD, use, m)) }
