/* LD_PRELOAD seam: every libc call through which the unmodified c8s binary can
 * meet the outside world is turned into a request to the simulator, which owns
 * the file system, the standard streams, entropy, the clock, the environment
 * and the identity of the process, and decides every outcome.
 *
 * The library also turns the binary into a fork server: the interposed
 * __libc_start_main parks before main() and forks one child per simulated
 * process, so that each child starts from the same pristine image. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <malloc.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <dirent.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include "shim.h"

#define EXPORT __attribute__((visibility("default")))

static struct c8sim_region *R;      /* mapped region; NULL when not simulated */
static volatile int in_main;        /* main() has started in the child */

/* ---- raw system calls: the shim's own traffic never recurses into itself --- */

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

static void set_state(uint32_t v) {
  __atomic_store_n(&R->state, v, __ATOMIC_SEQ_CST);
  raw6(SYS_futex, (long)&R->state, FUTEX_WAKE, INT_MAX, 0, 0, 0);
}

static uint32_t wait_while(uint32_t v1, uint32_t v2) {
  for (;;) {
    uint32_t s = __atomic_load_n(&R->state, __ATOMIC_SEQ_CST);
    if (s != v1 && s != v2) return s;
    raw6(SYS_futex, (long)&R->state, FUTEX_WAIT, s, 0, 0, 0);
  }
}

static volatile uint32_t rpc_lock;

static void switch_point(void);

static void lock_rpc(void) {
  switch_point();
  while (__atomic_exchange_n(&rpc_lock, 1, __ATOMIC_ACQUIRE))
    raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
static void unlock_rpc(void) { __atomic_store_n(&rpc_lock, 0, __ATOMIC_RELEASE); }

/* Issues the request already laid out in R (lock held). */
static long call(uint32_t op) {
  R->op = op;
  set_state(ST_REQ);
  wait_while(ST_REQ, ST_REQ);
  if (R->die) {
    long pid = raw6(SYS_getpid, 0, 0, 0, 0, 0, 0);
    raw6(SYS_kill, pid, SIGKILL, 0, 0, 0, 0);
    for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
  }
  long ret = R->ret;
  if (ret < 0) errno = R->err;
  return ret;
}

static void set_path(char *dst, uint32_t *len, const char *s) {
  size_t n = s ? strlen(s) : 0;
  if (n >= C8SIM_PATH_MAX) n = C8SIM_PATH_MAX - 1;
  memcpy(dst, s ? s : "", n);
  dst[n] = 0;
  *len = (uint32_t)n;
}

#define P1(s) set_path(R->path1, &R->path1_len, (s))
#define P2(s) set_path(R->path2, &R->path2_len, (s))
static void args0(void) { memset((void *)R->a, 0, sizeof R->a); R->path1_len = R->path2_len = R->data_len = 0; }

static long simple(uint32_t op, const char *p1, const char *p2, long a0, long a1, long a2) {
  lock_rpc();
  args0();
  P1(p1); P2(p2);
  R->a[0] = a0; R->a[1] = a1; R->a[2] = a2;
  long r = call(op);
  unlock_rpc();
  return r;
}

static long refused(const char *what, int err) {
  simple(OP_REFUSED, what, "", 0, 0, 0);
  errno = err;
  return -1;
}

/* ---- files ---------------------------------------------------------------- */

static int sim_open(const char *path, int flags, int mode) {
  if (!path) { errno = EFAULT; return -1; }
  return (int)simple(OP_OPEN, path, "", flags, mode, 0);
}
#define OPEN_MODE(flags) \
  int mode = 0; \
  if ((flags) & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }

EXPORT int open(const char *p, int flags, ...) { OPEN_MODE(flags) return sim_open(p, flags, mode); }
EXPORT int open64(const char *p, int flags, ...) { OPEN_MODE(flags) return sim_open(p, flags, mode); }
EXPORT int openat(int d, const char *p, int flags, ...) { (void)d; OPEN_MODE(flags) return sim_open(p, flags, mode); }
EXPORT int openat64(int d, const char *p, int flags, ...) { (void)d; OPEN_MODE(flags) return sim_open(p, flags, mode); }
EXPORT int creat(const char *p, mode_t m) { return sim_open(p, O_WRONLY | O_CREAT | O_TRUNC, (int)m); }
EXPORT int creat64(const char *p, mode_t m) { return sim_open(p, O_WRONLY | O_CREAT | O_TRUNC, (int)m); }

EXPORT int close(int fd) { return (int)simple(OP_CLOSE, "", "", fd, 0, 0); }

static ssize_t sim_read(int fd, void *buf, size_t n, int64_t off, int positional) {
  if (n > C8SIM_DATA_MAX) n = C8SIM_DATA_MAX;
  lock_rpc();
  args0();
  R->a[0] = fd; R->a[1] = (int64_t)n; R->a[2] = off;
  long r = call(positional ? OP_PREAD : OP_READ);
  if (r > 0) memcpy(buf, R->data, (size_t)r);
  unlock_rpc();
  return r;
}
static ssize_t sim_write(int fd, const void *buf, size_t n, int64_t off, int positional) {
  if (n > C8SIM_DATA_MAX) n = C8SIM_DATA_MAX;
  lock_rpc();
  args0();
  R->a[0] = fd; R->a[1] = (int64_t)n; R->a[2] = off;
  memcpy(R->data, buf, n);
  R->data_len = (uint32_t)n;
  long r = call(positional ? OP_PWRITE : OP_WRITE);
  unlock_rpc();
  return r;
}
EXPORT ssize_t read(int fd, void *b, size_t n) { return sim_read(fd, b, n, 0, 0); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return sim_read(fd, b, n, o, 1); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return sim_read(fd, b, n, o, 1); }
EXPORT ssize_t write(int fd, const void *b, size_t n) { return sim_write(fd, b, n, 0, 0); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return sim_write(fd, b, n, o, 1); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return sim_write(fd, b, n, o, 1); }

EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return read(fd, NULL, 0);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  /* Gathered into one simulated write, as the kernel would do it. */
  lock_rpc();
  args0();
  size_t n = 0;
  for (int i = 0; i < c && n < C8SIM_DATA_MAX; i++) {
    size_t k = v[i].iov_len;
    if (k > C8SIM_DATA_MAX - n) k = C8SIM_DATA_MAX - n;
    memcpy(R->data + n, v[i].iov_base, k);
    n += k;
  }
  R->a[0] = fd; R->a[1] = (int64_t)n;
  R->data_len = (uint32_t)n;
  long r = call(OP_WRITE);
  unlock_rpc();
  return r;
}
EXPORT off_t lseek(int fd, off_t o, int w) { return simple(OP_LSEEK, "", "", fd, o, w); }
EXPORT off64_t lseek64(int fd, off64_t o, int w) { return simple(OP_LSEEK, "", "", fd, o, w); }
EXPORT int ftruncate(int fd, off_t n) { return (int)simple(OP_FTRUNCATE, "", "", fd, n, 0); }
EXPORT int ftruncate64(int fd, off64_t n) { return (int)simple(OP_FTRUNCATE, "", "", fd, n, 0); }
EXPORT int truncate(const char *p, off_t n) { return (int)simple(OP_TRUNCATE, p, "", n, 0, 0); }
EXPORT int truncate64(const char *p, off64_t n) { return (int)simple(OP_TRUNCATE, p, "", n, 0, 0); }
EXPORT int fsync(int fd) { return (int)simple(OP_FSYNC, "", "", fd, 0, 0); }
EXPORT int fdatasync(int fd) { return (int)simple(OP_FSYNC, "", "", fd, 1, 0); }
EXPORT int syncfs(int fd) { return (int)simple(OP_FSYNC, "", "", fd, 2, 0); }
EXPORT void sync(void) { simple(OP_FSYNC, "", "", -1, 3, 0); }
EXPORT int fallocate(int fd, int m, off_t o, off_t l) { (void)fd; (void)m; (void)o; (void)l; errno = EOPNOTSUPP; return -1; }
EXPORT int fallocate64(int fd, int m, off64_t o, off64_t l) { (void)fd; (void)m; (void)o; (void)l; errno = EOPNOTSUPP; return -1; }
EXPORT int posix_fallocate(int fd, off_t o, off_t l) { (void)fd; (void)o; (void)l; return EOPNOTSUPP; }
EXPORT int posix_fallocate64(int fd, off64_t o, off64_t l) { (void)fd; (void)o; (void)l; return EOPNOTSUPP; }
EXPORT int posix_fadvise(int fd, off_t o, off_t l, int a) { (void)fd; (void)o; (void)l; (void)a; return 0; }
EXPORT int posix_fadvise64(int fd, off64_t o, off64_t l, int a) { (void)fd; (void)o; (void)l; (void)a; return 0; }

static void fill_stat(struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_size = R->r[0]; st->st_mode = (mode_t)R->r[1]; st->st_ino = (ino_t)R->r[2];
  st->st_nlink = (nlink_t)R->r[3]; st->st_mtim.tv_sec = R->r[4]; st->st_mtim.tv_nsec = R->r[5];
  st->st_ctim = st->st_mtim; st->st_atim = st->st_mtim;
  st->st_dev = 1; st->st_blksize = 4096; st->st_blocks = (R->r[0] + 511) / 512;
}
static int do_stat(uint32_t op, const char *p, int fd, struct stat *st) {
  lock_rpc();
  args0();
  P1(p); R->a[0] = fd; R->a[1] = 0;
  long r = call(op);
  if (r == 0) fill_stat(st);
  unlock_rpc();
  return (int)r;
}
EXPORT int fstat(int fd, struct stat *st) { return do_stat(OP_FSTAT, "", fd, st); }
EXPORT int fstat64(int fd, struct stat64 *st) { return do_stat(OP_FSTAT, "", fd, (struct stat *)st); }
EXPORT int stat(const char *p, struct stat *st) { return do_stat(OP_STAT, p, -1, st); }
EXPORT int stat64(const char *p, struct stat64 *st) { return do_stat(OP_STAT, p, -1, (struct stat *)st); }
EXPORT int lstat(const char *p, struct stat *st) { return do_stat(OP_LSTAT, p, -1, st); }
EXPORT int lstat64(const char *p, struct stat64 *st) { return do_stat(OP_LSTAT, p, -1, (struct stat *)st); }
EXPORT int fstatat(int d, const char *p, struct stat *st, int f) {
  if (p[0] == 0 && (f & AT_EMPTY_PATH)) return do_stat(OP_FSTAT, "", d, st);
  return do_stat((f & AT_SYMLINK_NOFOLLOW) ? OP_LSTAT : OP_STAT, p, -1, st);
}
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int f) { return fstatat(d, p, (struct stat *)st, f); }
EXPORT int statx(int d, const char *p, int f, unsigned mask, struct statx *sx) {
  (void)mask;
  /* The declaration says nonnull, so the compiler would drop a plain test; std probes with nulls. */
  const char *volatile vp = p; struct statx *volatile vs = sx;
  if (vp == 0 || vs == 0) { errno = EFAULT; return -1; }
  lock_rpc();
  args0();
  R->a[1] = 1; /* came in through statx: the simulator may answer ENOSYS */
  long r;
  if (p[0] == 0 && (f & AT_EMPTY_PATH)) { R->a[0] = d; r = call(OP_FSTAT); }
  else { P1(p); R->a[0] = -1; r = call((f & AT_SYMLINK_NOFOLLOW) ? OP_LSTAT : OP_STAT); }
  if (r == 0) {
    struct stat st;
    fill_stat(&st);
    memset(sx, 0, sizeof *sx);
    sx->stx_mask = STATX_BASIC_STATS; sx->stx_size = (uint64_t)st.st_size;
    sx->stx_mode = (uint16_t)st.st_mode; sx->stx_ino = st.st_ino; sx->stx_nlink = (uint32_t)st.st_nlink;
    sx->stx_blksize = 4096; sx->stx_blocks = (uint64_t)st.st_blocks;
    sx->stx_mtime.tv_sec = st.st_mtim.tv_sec; sx->stx_mtime.tv_nsec = (uint32_t)st.st_mtim.tv_nsec;
    sx->stx_atime = sx->stx_mtime; sx->stx_ctime = sx->stx_mtime;
  }
  unlock_rpc();
  return (int)r;
}
EXPORT int access(const char *p, int m) { return (int)simple(OP_ACCESS, p, "", m, 0, 0); }
EXPORT int faccessat(int d, const char *p, int m, int f) { (void)d; (void)f; return (int)simple(OP_ACCESS, p, "", m, 0, 0); }
EXPORT int rename(const char *a, const char *b) { return (int)simple(OP_RENAME, a, b, 0, 0, 0); }
EXPORT int renameat(int x, const char *a, int y, const char *b) { (void)x; (void)y; return (int)simple(OP_RENAME, a, b, 0, 0, 0); }
EXPORT int renameat2(int x, const char *a, int y, const char *b, unsigned f) { (void)x; (void)y; return (int)simple(OP_RENAME, a, b, f, 0, 0); }
EXPORT int unlink(const char *p) { return (int)simple(OP_UNLINK, p, "", 0, 0, 0); }
EXPORT int unlinkat(int d, const char *p, int f) { (void)d; return (int)simple((f & AT_REMOVEDIR) ? OP_RMDIR : OP_UNLINK, p, "", 0, 0, 0); }
EXPORT int remove(const char *p) { return (int)simple(OP_UNLINK, p, "", 0, 0, 0); }
EXPORT int rmdir(const char *p) { return (int)simple(OP_RMDIR, p, "", 0, 0, 0); }
EXPORT int mkdir(const char *p, mode_t m) { return (int)simple(OP_MKDIR, p, "", m, 0, 0); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { (void)d; return (int)simple(OP_MKDIR, p, "", m, 0, 0); }
EXPORT int link(const char *a, const char *b) { return (int)simple(OP_LINK, a, b, 0, 0, 0); }
EXPORT int linkat(int x, const char *a, int y, const char *b, int f) { (void)x; (void)y; (void)f; return (int)simple(OP_LINK, a, b, 0, 0, 0); }
EXPORT int symlink(const char *a, const char *b) { return (int)simple(OP_SYMLINK, a, b, 0, 0, 0); }
EXPORT int symlinkat(const char *a, int d, const char *b) { (void)d; return (int)simple(OP_SYMLINK, a, b, 0, 0, 0); }
EXPORT ssize_t readlink(const char *p, char *b, size_t n) {
  lock_rpc(); args0(); P1(p);
  long r = call(OP_READLINK);
  if (r > 0) { if ((size_t)r > n) r = (long)n; memcpy(b, R->data, (size_t)r); }
  unlock_rpc();
  return r;
}
EXPORT ssize_t readlinkat(int d, const char *p, char *b, size_t n) { (void)d; return readlink(p, b, n); }
EXPORT char *realpath(const char *p, char *out) {
  lock_rpc(); args0(); P1(p);
  long r = call(OP_REALPATH);
  if (r < 0) { unlock_rpc(); return NULL; }
  if (!out) out = malloc(PATH_MAX);
  if (out) { memcpy(out, R->data, (size_t)r); out[r] = 0; }
  unlock_rpc();
  return out;
}
EXPORT int chmod(const char *p, mode_t m) { return (int)simple(OP_CHMOD, p, "", m, -1, 0); }
EXPORT int fchmod(int fd, mode_t m) { return (int)simple(OP_CHMOD, "", "", m, fd, 0); }
EXPORT int fchmodat(int d, const char *p, mode_t m, int f) { (void)d; (void)f; return (int)simple(OP_CHMOD, p, "", m, -1, 0); }
EXPORT int fchown(int fd, uid_t u, gid_t g) { (void)u; (void)g; return (int)simple(OP_TOUCH, "", "", fd, 0, 0); }
EXPORT int chown(const char *p, uid_t u, gid_t g) { (void)u; (void)g; return (int)simple(OP_TOUCH, p, "", -1, 0, 0); }
static long stamp_of(const struct timespec t[2]) {
  if (!t || t[1].tv_nsec == UTIME_NOW || t[1].tv_nsec == UTIME_OMIT) return 0;
  return t[1].tv_sec * 1000000000L + t[1].tv_nsec;
}
EXPORT int futimens(int fd, const struct timespec t[2]) { return (int)simple(OP_TOUCH, "", "", fd, stamp_of(t), 0); }
EXPORT int utimensat(int d, const char *p, const struct timespec t[2], int f) { (void)d; (void)f; return (int)simple(OP_TOUCH, p, "", -1, stamp_of(t), 0); }
EXPORT int flock(int fd, int op) { return (int)simple(OP_FLOCK, "", "", fd, op, 0); }
EXPORT mode_t umask(mode_t m) { return (mode_t)simple(OP_UMASK, "", "", m, 0, 0); }

static int do_fcntl(int fd, int cmd, long arg) {
  switch (cmd) {
    case F_GETFD: return FD_CLOEXEC;
    case F_SETFD: return 0;
    case F_GETFL: return O_RDWR;
    case F_SETFL: return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: return (int)simple(OP_DUP, "", "", fd, arg, 0);
    case F_SETLK: case F_SETLKW: return 0;
    default: errno = EINVAL; return -1;
  }
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int ioctl(int fd, unsigned long r, ...) { (void)fd; (void)r; errno = ENOTTY; return -1; }
EXPORT int isatty(int fd) { return simple(OP_ISATTY, "", "", fd, 0, 0) > 0; }
EXPORT int dup(int fd) { return (int)simple(OP_DUP, "", "", fd, 0, 0); }
EXPORT int dup2(int a, int b) { return (int)simple(OP_DUP2, "", "", a, b, 0); }
EXPORT int dup3(int a, int b, int f) { (void)f; return (int)simple(OP_DUP2, "", "", a, b, 0); }
EXPORT int poll(struct pollfd *f, nfds_t n, int t) { (void)t; for (nfds_t i = 0; i < n; i++) f[i].revents = 0; return 0; }
EXPORT char *getcwd(char *b, size_t n) {
  lock_rpc(); args0();
  long r = call(OP_GETCWD);
  if (r < 0) { unlock_rpc(); return NULL; }
  if (!b) { b = malloc((size_t)r + 1 > n ? (size_t)r + 1 : n); }
  else if ((size_t)r + 1 > n) { unlock_rpc(); errno = ERANGE; return NULL; }
  if (b) { memcpy(b, R->data, (size_t)r); b[r] = 0; }
  unlock_rpc();
  return b;
}
EXPORT int chdir(const char *p) { return (int)simple(OP_CHDIR, p, "", 0, 0, 0); }
EXPORT ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = EXDEV; return -1; }
EXPORT ssize_t sendfile(int a, int b, off_t *c, size_t d) { (void)a; (void)b; (void)c; (void)d; errno = EINVAL; return -1; }
EXPORT ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { (void)a; (void)b; (void)c; (void)d; errno = EINVAL; return -1; }
EXPORT ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = EINVAL; return -1; }

/* Directory listing: the order is the simulator's choice. */
struct simdir { int h; long pos; struct dirent64 ent; };
EXPORT DIR *opendir(const char *p) {
  long h = simple(OP_OPENDIR, p, "", 0, 0, 0);
  if (h < 0) return NULL;
  struct simdir *d = calloc(1, sizeof *d);
  d->h = (int)h;
  return (DIR *)d;
}
EXPORT struct dirent64 *readdir64(DIR *dp) {
  struct simdir *d = (struct simdir *)dp;
  lock_rpc(); args0(); R->a[0] = d->h; R->a[1] = d->pos++;
  long r = call(OP_READDIR);
  if (r <= 0) { unlock_rpc(); return NULL; }
  if (r > 255) r = 255;
  memcpy(d->ent.d_name, R->data, (size_t)r); d->ent.d_name[r] = 0;
  d->ent.d_ino = 1; d->ent.d_type = DT_UNKNOWN; d->ent.d_reclen = sizeof d->ent;
  unlock_rpc();
  return &d->ent;
}
EXPORT struct dirent *readdir(DIR *dp) { return (struct dirent *)readdir64(dp); }
EXPORT int closedir(DIR *dp) { free(dp); return 0; }
EXPORT int dirfd(DIR *dp) { (void)dp; errno = ENOTSUP; return -1; }
EXPORT DIR *fdopendir(int fd) { (void)fd; errno = ENOTSUP; return NULL; }

/* ---- entropy, clocks, identity, environment -------------------------------- */

EXPORT ssize_t getrandom(void *b, size_t n, unsigned flags) {
  if (n > 4096) n = 4096;
  lock_rpc(); args0(); R->a[0] = (int64_t)n; R->a[1] = flags;
  long r = call(OP_GETRANDOM);
  if (r > 0) memcpy(b, R->data, (size_t)r);
  unlock_rpc();
  return r;
}
EXPORT int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
static int64_t sim_clock(int id) {
  lock_rpc(); args0(); R->a[0] = id;
  call(OP_CLOCK);
  int64_t t = R->r[0];
  unlock_rpc();
  return t;
}
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
  int64_t t = sim_clock((int)id);
  ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
  return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  int64_t t = sim_clock(0);
  tv->tv_sec = t / 1000000000; tv->tv_usec = (t % 1000000000) / 1000;
  return 0;
}
EXPORT time_t time(time_t *p) { time_t t = (time_t)(sim_clock(0) / 1000000000); if (p) *p = t; return t; }
static int sim_sleep(int64_t ns) { return (int)simple(OP_SLEEP, "", "", ns, 0, 0); }
EXPORT int nanosleep(const struct timespec *a, struct timespec *b) { (void)b; return sim_sleep(a->tv_sec * 1000000000L + a->tv_nsec); }
EXPORT int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { (void)c; (void)f; (void)b; sim_sleep(a->tv_sec * 1000000000L + a->tv_nsec); return 0; }
EXPORT int usleep(useconds_t u) { return sim_sleep((int64_t)u * 1000); }
EXPORT unsigned sleep(unsigned s) { sim_sleep((int64_t)s * 1000000000L); return 0; }
EXPORT int sched_yield(void) { simple(OP_YIELD, "", "", 0, 0, 0); return 0; }

/* ---- threads ---------------------------------------------------------------
 * One thread of a simulated process runs at a time.  It hands the baton over
 * at every call into the simulator, every futex operation, every start and end
 * of a thread, and after as many allocations as the simulator allots; who gets
 * it is the simulator's choice. */

#define MAXT 1024
enum { T_FREE = 0, T_RUN, T_FUTEX, T_JOIN, T_DONE };
static struct {
  volatile uint32_t go;
  int state, timed, timed_out, detached, joinee;
  const uint32_t *addr;
  uint32_t bits;
  unsigned long seq;
  pthread_t id;
  void *(*fn)(void *);
  void *arg;
} th[MAXT];
static int nth = 1;                 /* slots in use */
static int nlive = 1;               /* threads not yet ended */
static int fuel;                    /* allocations until the next switch point */
static int no_switch;
static unsigned long wait_seq;
static __thread int self_ __attribute__((tls_model("initial-exec")));
static __thread int ended_ __attribute__((tls_model("initial-exec")));
static pthread_key_t end_key;
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static int (*real_pthread_detach)(pthread_t);
static long (*real_sysconf)(int);

static void pass_to(int t) {
  __atomic_store_n(&th[t].go, 1, __ATOMIC_SEQ_CST);
  raw6(SYS_futex, (long)&th[t].go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void await_baton(int t) {
  while (!__atomic_load_n(&th[t].go, __ATOMIC_SEQ_CST))
    raw6(SYS_futex, (long)&th[t].go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  __atomic_store_n(&th[t].go, 0, __ATOMIC_SEQ_CST);
}

static void reschedule(int ending) {
  int me = self_, cand[MAXT], n = 0, timed = 0;
  if (th[me].state == T_RUN) cand[n++] = me;
  for (int i = 0; i < nth; i++) if (i != me && th[i].state == T_RUN) cand[n++] = i;
  int runnable = n;
  for (int i = 0; i < nth; i++) if (th[i].state == T_FUTEX && th[i].timed) { cand[n++] = i; timed++; }
  int c = 0;
  if (n != 1 || timed) {
    int e = errno;
    while (__atomic_exchange_n(&rpc_lock, 1, __ATOMIC_ACQUIRE)) ;
    args0();
    R->a[0] = runnable; R->a[1] = timed; R->a[2] = th[me].state == T_RUN;
    for (int i = 0; i < n; i++) { R->data[2 * i] = (uint8_t)cand[i]; R->data[2 * i + 1] = (uint8_t)(cand[i] >> 8); }
    R->data_len = (uint32_t)n * 2;
    c = (int)call(OP_SCHED);
    fuel = (int)R->r[0];
    unlock_rpc();
    errno = e;
  }
  int next = cand[c];
  if (c >= runnable) { th[next].state = T_RUN; th[next].timed_out = 1; }
  if (next == me) return;
  pass_to(next);
  if (!ending) await_baton(me);
}

static void switch_point(void) {
  if (nlive > 1 && in_main && !no_switch && !ended_) reschedule(0);
}

static void thread_end(void *v) {
  /* Let everything else that ends with the thread go first. */
  if (v == (void *)2) { pthread_setspecific(end_key, (void *)1); return; }
  int me = self_;
  th[me].state = th[me].detached ? T_FREE : T_DONE;
  for (int i = 0; i < nth; i++) if (th[i].state == T_JOIN && th[i].joinee == me) th[i].state = T_RUN;
  nlive--;
  ended_ = 1;
  reschedule(1);
}

static void *thread_start(void *p) {
  int me = (int)(long)p;
  self_ = me;
  await_baton(me);
  pthread_setspecific(end_key, (void *)2);
  return th[me].fn(th[me].arg);
}

EXPORT int pthread_create(pthread_t *id, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  int t = 1;
  while (t < nth && th[t].state != T_FREE) t++;
  if (t >= MAXT) { refused("pthread_create", EAGAIN); return EAGAIN; }
  if (t == nth) nth++;
  memset(&th[t], 0, sizeof th[t]);
  th[t].fn = fn; th[t].arg = arg;
  int detached = 0;
  if (at && pthread_attr_getdetachstate(at, &detached) == 0) th[t].detached = detached == PTHREAD_CREATE_DETACHED;
  no_switch++;
  int r = real_pthread_create(id, at, thread_start, (void *)(long)t);
  no_switch--;
  if (r) return r;
  th[t].id = *id;
  th[t].state = T_RUN;
  nlive++;
  switch_point();
  return 0;
}
static int thread_of(pthread_t id) {
  for (int i = 1; i < nth; i++) if (th[i].state != T_FREE && !th[i].detached && pthread_equal(th[i].id, id)) return i;
  return 0;
}
EXPORT int pthread_join(pthread_t id, void **ret) {
  int t = thread_of(id);
  while (t && th[t].state != T_DONE) {
    th[self_].state = T_JOIN;
    th[self_].joinee = t;
    reschedule(0);
  }
  int r = real_pthread_join(id, ret);
  if (t) th[t].state = T_FREE;
  return r;
}
EXPORT int pthread_detach(pthread_t id) {
  int t = thread_of(id);
  if (t) { if (th[t].state == T_DONE) th[t].state = T_FREE; else th[t].detached = 1; }
  return real_pthread_detach(id);
}

static long sim_futex(uint32_t *addr, int op, uint32_t val, const void *timeout, uint32_t bits) {
  int what = op & FUTEX_CMD_MASK;
  if (what != FUTEX_WAIT_BITSET && what != FUTEX_WAKE_BITSET) bits = ~0u;
  switch (what) {
    case FUTEX_WAIT: case FUTEX_WAIT_BITSET:
      switch_point();
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
      th[self_].state = T_FUTEX;
      th[self_].addr = addr;
      th[self_].bits = bits;
      th[self_].timed = timeout != NULL;
      th[self_].timed_out = 0;
      th[self_].seq = ++wait_seq;
      reschedule(0);
      if (th[self_].timed_out) { errno = ETIMEDOUT; return -1; }
      return 0;
    case FUTEX_WAKE: case FUTEX_WAKE_BITSET: {
      uint32_t n = 0;
      while (n < val) {
        int best = -1;
        for (int i = 0; i < nth; i++)
          if (th[i].state == T_FUTEX && th[i].addr == addr && (th[i].bits & bits) && (best < 0 || th[i].seq < th[best].seq)) best = i;
        if (best < 0) break;
        th[best].state = T_RUN;
        n++;
      }
      switch_point();
      return n;
    }
    default: return refused("futex", ENOSYS);
  }
}

EXPORT int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) {
  (void)pid;
  memset(set, 0, n);
  for (uint32_t i = 0; i < R->cpus && i < 8 * n; i++) ((uint8_t *)set)[i / 8] |= (uint8_t)(1u << (i % 8));
  return 0;
}
EXPORT long sysconf(int name) {
  if (R && in_main && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return R->cpus;
  if (!real_sysconf) real_sysconf = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
  return real_sysconf(name);
}

EXPORT pid_t getpid(void);
EXPORT pid_t gettid(void) { return getpid() + self_; }
EXPORT pid_t getpid(void) {
  if (!R || !in_main) return (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0);
  return (pid_t)simple(OP_GETPID, "", "", 0, 0, 0);
}
EXPORT pid_t getppid(void) { return (pid_t)simple(OP_GETPID, "", "", 1, 0, 0); }
EXPORT uid_t getuid(void) { return (uid_t)simple(OP_UID, "", "", 0, 0, 0); }
EXPORT uid_t geteuid(void) { return (uid_t)simple(OP_UID, "", "", 1, 0, 0); }
EXPORT int gethostname(char *b, size_t n) {
  lock_rpc(); args0();
  long r = call(OP_HOSTNAME);
  if (r >= 0) { if ((size_t)r >= n) r = (long)n - 1; memcpy(b, R->data, (size_t)r); b[r] = 0; }
  unlock_rpc();
  return 0;
}

extern char **environ;
static char env_values[16][256];
static unsigned env_next;
EXPORT char *getenv(const char *name) {
  size_t n = strlen(name);
  /* The runtime's own knobs are not part of the simulated environment. */
  if (!R || !in_main || !strncmp(name, "RUST_", 5) || !strncmp(name, "LD_", 3) || !strncmp(name, "MALLOC_", 7) || !strncmp(name, "GLIBC_", 6))
    return NULL;
  lock_rpc(); args0(); P1(name);
  (void)n;
  long r = call(OP_GETENV);
  char *out = NULL;
  if (r >= 0) {
    out = env_values[env_next++ % 16];
    if (r > 255) r = 255;
    memcpy(out, R->data, (size_t)r); out[r] = 0;
  }
  unlock_rpc();
  return out;
}
EXPORT char *secure_getenv(const char *name) { return getenv(name); }

/* ---- memory ---------------------------------------------------------------- */

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);

static int alloc_fails(void) {
  if (!in_main || !R) return 0;
  if (nlive > 1 && !rpc_lock && --fuel <= 0) switch_point();
  uint32_t k = ++R->alloc_count;
  uint32_t at = R->alloc_fail_at;
  if (!at || k < at) return 0;
  uint32_t len = R->alloc_fail_len ? R->alloc_fail_len : 1;
  if (k - at >= len) return 0;
  R->alloc_fired++;
  errno = ENOMEM;
  return 1;
}
EXPORT void *malloc(size_t n) { return alloc_fails() ? NULL : __libc_malloc(n); }
EXPORT void *calloc(size_t a, size_t b) { return alloc_fails() ? NULL : __libc_calloc(a, b); }
EXPORT void *realloc(void *p, size_t n) { return alloc_fails() ? NULL : __libc_realloc(p, n); }
EXPORT void *memalign(size_t a, size_t n) { return alloc_fails() ? NULL : __libc_memalign(a, n); }
EXPORT void *aligned_alloc(size_t a, size_t n) { return alloc_fails() ? NULL : __libc_memalign(a, n); }
EXPORT int posix_memalign(void **p, size_t a, size_t n) {
  if (alloc_fails()) return ENOMEM;
  void *q = __libc_memalign(a, n);
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}

/* ---- things a simulated process may not do ---------------------------------- */

EXPORT void *mmap(void *a, size_t l, int p, int f, int fd, off_t o) {
  if (fd >= 0 && !(f & MAP_ANONYMOUS)) { errno = ENODEV; return MAP_FAILED; }
  long r = raw6(SYS_mmap, (long)a, (long)l, p, f, fd, o);
  if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; }
  return (void *)r;
}
EXPORT void *mmap64(void *a, size_t l, int p, int f, int fd, off64_t o) { return mmap(a, l, p, f, fd, o); }
EXPORT pid_t fork(void) { return (pid_t)refused("fork", EAGAIN); }
EXPORT pid_t vfork(void) { return (pid_t)refused("vfork", EAGAIN); }
EXPORT int posix_spawn(pid_t *a, const char *b, const void *c, const void *d, char *const e[], char *const f[]) { (void)a; (void)c; (void)d; (void)e; (void)f; refused(b, EAGAIN); return EAGAIN; }
EXPORT int posix_spawnp(pid_t *a, const char *b, const void *c, const void *d, char *const e[], char *const f[]) { (void)a; (void)c; (void)d; (void)e; (void)f; refused(b, EAGAIN); return EAGAIN; }
EXPORT int execve(const char *p, char *const a[], char *const e[]) { (void)a; (void)e; return (int)refused(p, EACCES); }
EXPORT int execvp(const char *p, char *const a[]) { (void)a; return (int)refused(p, EACCES); }
EXPORT int socket(int a, int b, int c) { (void)a; (void)b; (void)c; return (int)refused("socket", EACCES); }
EXPORT int pipe(int f[2]) { (void)f; return (int)refused("pipe", EMFILE); }
EXPORT int pipe2(int f[2], int g) { (void)f; (void)g; return (int)refused("pipe", EMFILE); }

EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
  long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  switch (n) {
    case SYS_read: return read((int)a, (void *)b, (size_t)c);
    case SYS_write: return write((int)a, (const void *)b, (size_t)c);
    case SYS_open: return sim_open((const char *)a, (int)b, (int)c);
    case SYS_openat: return sim_open((const char *)b, (int)c, (int)d);
    case SYS_close: return close((int)a);
    case SYS_getrandom: return getrandom((void *)a, (size_t)b, (unsigned)c);
    case SYS_statx: return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
    case SYS_copy_file_range: errno = EXDEV; return -1;
    case SYS_gettid: return gettid();
    case SYS_futex: return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const void *)d, (uint32_t)f);
    case SYS_sched_getaffinity: return sched_getaffinity((pid_t)a, (size_t)b, (cpu_set_t *)c);
    case SYS_exit_group: case SYS_exit:
    case SYS_membarrier: case SYS_rseq: case SYS_mmap: case SYS_munmap: case SYS_mprotect: case SYS_madvise: {
      long r = raw6(n, a, b, c, d, e, f);
      if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
      return r;
    }
    default: return refused("syscall", ENOSYS);
  }
}

/* ---- fork server ------------------------------------------------------------ */

typedef int (*main_fn)(int, char **, char **);
typedef int (*start_fn)(main_fn, int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
static main_fn real_main;

static int main_wrapper(int argc, char **argv, char **envp) {
  in_main = 1;
  return real_main(argc, argv, envp);
}

static void raw_rlimit(int what, uint64_t v) {
  uint64_t lim[2] = { v, v };
  raw6(SYS_prlimit64, 0, what, (long)lim, 0, 0, 0);
}

EXPORT int __libc_start_main(main_fn m, int argc, char **argv, void (*init)(void), void (*fini)(void), void (*rtld_fini)(void), void *stack_end) {
  start_fn real = (start_fn)dlsym(RTLD_NEXT, "__libc_start_main");
  real_pthread_create = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
  real_pthread_join = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join");
  real_pthread_detach = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
  real_sysconf = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
  pthread_key_create(&end_key, thread_end);
  mallopt(M_ARENA_MAX, 1); /* only one thread runs at a time */
  th[0].state = T_RUN;
  const char *fdstr = NULL;
  for (char **e = environ; *e; e++) if (!strncmp(*e, "C8SIM_SHM_FD=", 13)) fdstr = *e + 13;
  if (!fdstr) raw6(SYS_exit_group, 90, 0, 0, 0, 0, 0);
  int fd = 0;
  for (const char *q = fdstr; *q >= '0' && *q <= '9'; q++) fd = fd * 10 + (*q - '0');
  long mp = raw6(SYS_mmap, 0, sizeof(struct c8sim_region), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (mp < 0 && mp > -4096) raw6(SYS_exit_group, 91, 0, 0, 0, 0, 0);
  raw6(SYS_close, fd, 0, 0, 0, 0, 0);
  R = (struct c8sim_region *)mp;
  raw6(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0, 0);
  raw_rlimit(RLIMIT_CORE, 0);
  real_main = m;
  set_state(ST_READY);
  for (;;) {
    while (wait_while(ST_READY, ST_EXIT) != ST_START) ;
    set_state(ST_RUN);
    long pid = raw6(SYS_fork, 0, 0, 0, 0, 0, 0);
    if (pid == 0) {
      raw6(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0, 0);
      if (R->cpu_limit) raw_rlimit(RLIMIT_CPU, R->cpu_limit);
      if (R->stack_kb) { uint64_t lim[2] = { (uint64_t)R->stack_kb * 1024, (uint64_t)R->stack_kb * 1024 }; raw6(SYS_prlimit64, 0, RLIMIT_STACK, (long)lim, 0, 0, 0); }
      raw_rlimit(RLIMIT_AS, 4ull << 30);
      /* argv and envp, laid out contiguously as the kernel would. */
      static char strings[C8SIM_ARGS_MAX];
      static char *vec[512];
      memcpy(strings, R->args, R->args_len);
      unsigned k = 0, total = R->argc + R->envc;
      char *p = strings;
      for (unsigned i = 0; i < total && k < 500; i++) {
        if (i == R->argc) vec[k++] = NULL;
        vec[k++] = p;
        p += strlen(p) + 1;
      }
      if (R->envc == 0) vec[k++] = NULL;
      vec[k++] = NULL;
      environ = &vec[R->argc + 1];
      if (R->heap_shift) { volatile char *leak = __libc_malloc(R->heap_shift); if (leak) leak[0] = 1; }
      exit(real(main_wrapper, (int)R->argc, vec, init, fini, rtld_fini, stack_end));
    }
    R->pid = (uint32_t)pid;
    int status = 0;
    for (;;) {
      long r = raw6(SYS_wait4, pid, (long)&status, 0, 0, 0, 0);
      if (r == pid) break;
    }
    R->wstatus = status;
    set_state(ST_EXIT);
  }
  (void)argc; (void)argv;
  return 0;
}
