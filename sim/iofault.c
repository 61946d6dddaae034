/* Simulated-disk seam: LD_PRELOAD interposer for file operations under one scratch root.
 *
 * Off until sim_io_arm() is called in-process. While armed, every intercepted operation on a path under the
 * root gets a sequence number; the plan names at most one fault (sequence number, kind, argument). Operations
 * are appended, with their payload, to a log file so that the harness can rebuild what a power failure would
 * have left behind. Nothing here reads a clock or a random source.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_WRITE, OP_FSYNC, OP_RENAME, OP_UNLINK, OP_TRUNC, OP_CLOSE, OP_READ, OP_MKDIR, OP_LINK };
enum { F_NONE = 0, F_ERR, F_SHORT, F_STICKY, F_CRASH_BEFORE, F_CRASH_AFTER, F_CRASH_TORN, F_EINTR };

#define MAXFD 4096
static char *fdpath[MAXFD];
static int armed = 0, logfd = -1;
static char root[PATH_MAX];
static size_t rootlen = 0;
static unsigned opmask = 0;         /* which op classes are counted and may fault */
static long seq = 0;                /* counted ops so far */
static long fault_at = -1;
static int fault_kind = F_NONE, fault_err = 0;
static double fault_frac = 0.5;
static int sticky = 0, sticky_err = 0;
static long fired = 0;
static long read_chunk = 0;         /* if > 0: every read returns at most this many bytes */

#define REAL(name) ({ static __typeof__(&name) p; if (!p) p = (__typeof__(&name))dlsym(RTLD_NEXT, #name); p; })

static int under(const char *p) { return rootlen && p && strncmp(p, root, rootlen) == 0; }

static const char *absolute(int dirfd, const char *p, char *buf) {
	if (!p) return NULL;
	if (p[0] == '/') return p;
	char base[PATH_MAX];
	if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return p; }
	else {
		char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
		ssize_t n = readlink(l, base, sizeof base - 1);
		if (n < 0) return p;
		base[n] = 0;
	}
	if (strlen(base) + strlen(p) + 2 > PATH_MAX) return p;
	strcpy(buf, base); strcat(buf, "/"); strcat(buf, p);
	return buf;
}

static void rawall(const void *b, size_t n) {
	const char *c = b;
	while (n) { ssize_t r = syscall(SYS_write, logfd, c, n); if (r <= 0) return; c += r; n -= r; }
}
static void logop(int op, int fd, int64_t off, int64_t res, const char *path, const char *path2, const void *data, int64_t len) {
	if (logfd < 0) return;
	struct { uint32_t op; int32_t fd; int64_t off, res; uint32_t plen, p2len; int64_t len; } __attribute__((packed)) h;
	memset(&h, 0, sizeof h);
	h.op = op; h.fd = fd; h.off = off; h.res = res;
	h.plen = path ? strlen(path) : 0; h.p2len = path2 ? strlen(path2) : 0; h.len = data ? len : 0;
	rawall(&h, sizeof h);
	if (h.plen) rawall(path, h.plen);
	if (h.p2len) rawall(path2, h.p2len);
	if (h.len) rawall(data, h.len);
}

/* Returns the fault to apply to this operation. */
static int step(int op) {
	if (!armed || !(opmask & (1u << op))) return F_NONE;
	long me = seq++;
	if (sticky && op == OP_WRITE) { fired++; return F_STICKY; }
	if (me != fault_at) return F_NONE;
	fired++;
	return fault_kind;
}
static void die(void) { syscall(SYS_exit_group, 77); }

void sim_io_arm(const char *r, const char *logpath, unsigned mask, long at, int kind, int err, double frac, long chunk) {
	snprintf(root, sizeof root, "%s", r); rootlen = strlen(root);
	if (logpath && *logpath) logfd = syscall(SYS_openat, AT_FDCWD, logpath, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
	opmask = mask; seq = 0; fault_at = at; fault_kind = kind; fault_err = err; fault_frac = frac;
	sticky = 0; fired = 0; read_chunk = chunk; armed = 1;
}
void sim_io_disarm(void) { armed = 0; if (logfd >= 0) { syscall(SYS_close, logfd); logfd = -1; } sticky = 0; read_chunk = 0; }
long sim_io_seq(void) { return seq; }
long sim_io_fired(void) { return fired; }

/* simple (non-payload) operation preamble: 1 = fail with errno set */
static int pre(int f) {
	if (f == F_CRASH_BEFORE || f == F_CRASH_TORN) die();
	if (f == F_STICKY) sticky = 1, sticky_err = fault_err;
	if (f == F_ERR || f == F_STICKY) { errno = fault_err; return 1; }
	return 0;
}
static int pre_intr(int f) { if (f == F_EINTR) { errno = EINTR; return 1; } return pre(f); }
static void post(int f) { if (f == F_CRASH_AFTER) die(); }

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
	char buf[PATH_MAX];
	const char *p = armed ? absolute(dirfd, path, buf) : NULL;
	int mine = armed && under(p), f = F_NONE;
	if (mine) {
		f = (flags & (O_WRONLY | O_RDWR | O_CREAT)) ? step(OP_OPEN) : F_NONE;
		if (pre_intr(f)) return -1;
	}
	struct stat st; int existed = mine ? (syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0) == 0) : 0;
	int fd = syscall(SYS_openat, dirfd, path, flags, mode);
	if (mine && fd >= 0 && fd < MAXFD) {
		free(fdpath[fd]); fdpath[fd] = strdup(p);
		if (flags & (O_WRONLY | O_RDWR | O_CREAT))
			logop(OP_OPEN, fd, ((flags & O_TRUNC) ? 1 : 0) | (existed ? 0 : 2), fd, p, NULL, NULL, 0);
	}
	if (mine) { int e = errno; post(f); errno = e; }
	return fd;
}
#define MODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static FILE *do_fopen(FILE *(*real)(const char *, const char *), const char *p, const char *m) {
	char buf[PATH_MAX];
	const char *a = armed ? absolute(AT_FDCWD, p, buf) : NULL;
	int mine = armed && under(a), f = F_NONE;
	if (mine) { f = strpbrk(m, "wa+") ? step(OP_OPEN) : F_NONE; if (pre(f)) return NULL; }
	FILE *fp = real(p, m);
	if (mine && fp) { int fd = fileno(fp); if (fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(a); if (strpbrk(m, "wa+")) logop(OP_OPEN, fd, (strchr(m, 'w') ? 1 : 0) | 2, fd, a, NULL, NULL, 0); } }
	if (mine) post(f);
	return fp;
}
FILE *fopen(const char *p, const char *m) { return do_fopen(REAL(fopen), p, m); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(REAL(fopen64), p, m); }

static int tracked(int fd) { return armed && fd >= 0 && fd < MAXFD && fdpath[fd]; }

static ssize_t do_write(int fd, const void *b, size_t n, int64_t at) {
	if (!tracked(fd)) return at < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, at);
	int f = step(OP_WRITE);
	if (f == F_CRASH_BEFORE) die();
	if (f == F_ERR) { errno = fault_err; return -1; }
	if (f == F_EINTR) { errno = EINTR; return -1; }
	size_t want = n;
	if (f == F_SHORT || f == F_CRASH_TORN) want = (size_t)(n * fault_frac);
	if (f == F_STICKY) {
		if (!sticky) { sticky = 1; sticky_err = fault_err; want = (size_t)(n * fault_frac); if (!want) { errno = sticky_err; return -1; } }
		else { errno = sticky_err; return -1; }
	}
	if (f == F_SHORT && want == 0) want = n ? 1 : 0;
	int64_t off = at;
	if (off < 0) { int fl = syscall(SYS_fcntl, fd, F_GETFL); if (fl & O_APPEND) { struct stat st; syscall(SYS_fstat, fd, &st); off = st.st_size; } else off = syscall(SYS_lseek, fd, 0, SEEK_CUR); }
	ssize_t r = at < 0 ? syscall(SYS_write, fd, b, want) : syscall(SYS_pwrite64, fd, b, want, at);
	if (r > 0) logop(OP_WRITE, fd, off, r, fdpath[fd], NULL, b, r);
	if (f == F_CRASH_AFTER || f == F_CRASH_TORN) die();
	return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
	if (!tracked(fd)) return syscall(SYS_writev, fd, v, c);
	for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, -1);
	return 0;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { if (tracked(o) || tracked(i)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { if (tracked(o) || tracked(i)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned fl) {
	if (tracked(o) || tracked(i)) { errno = EXDEV; return -1; }
	return syscall(SYS_copy_file_range, i, oi, o, oo, n, fl);
}

ssize_t read(int fd, void *b, size_t n) {
	if (!tracked(fd)) return syscall(SYS_read, fd, b, n);
	int f = step(OP_READ);
	if (f == F_CRASH_BEFORE || f == F_CRASH_TORN) die();
	if (f == F_ERR || f == F_STICKY) { errno = fault_err; return -1; }
	if (f == F_EINTR) { errno = EINTR; return -1; }
	if (f == F_SHORT && n > 1) { n = (size_t)(n * fault_frac); if (!n) n = 1; }
	if (read_chunk > 0 && n > (size_t)read_chunk) n = read_chunk;
	ssize_t r = syscall(SYS_read, fd, b, n);
	if (f == F_CRASH_AFTER) die();
	return r;
}

int fsync(int fd) {
	if (!tracked(fd)) return syscall(SYS_fsync, fd);
	int f = step(OP_FSYNC); if (pre_intr(f)) return -1;
	logop(OP_FSYNC, fd, 0, 0, fdpath[fd], NULL, NULL, 0);
	post(f); return 0;
}
int fdatasync(int fd) { if (!tracked(fd)) return syscall(SYS_fdatasync, fd); return fsync(fd); }
void sync(void) { if (armed) logop(OP_FSYNC, -1, 0, 0, "*", NULL, NULL, 0); }

int ftruncate(int fd, off_t n) {
	if (!tracked(fd)) return syscall(SYS_ftruncate, fd, n);
	int f = step(OP_TRUNC); if (pre(f)) return -1;
	int r = syscall(SYS_ftruncate, fd, n);
	if (r == 0) logop(OP_TRUNC, fd, n, 0, fdpath[fd], NULL, NULL, 0);
	post(f); return r;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }

static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
	char x[PATH_MAX], y[PATH_MAX];
	const char *pa = armed ? absolute(d1, a, x) : NULL, *pb = armed ? absolute(d2, b, y) : NULL;
	int mine = armed && (under(pa) || under(pb)), f = F_NONE;
	if (mine) { f = step(OP_RENAME); if (pre(f)) return -1; }
	int r = syscall(SYS_renameat2, d1, a, d2, b, fl);
	if (mine && r == 0) logop(OP_RENAME, -1, 0, 0, pa, pb, NULL, 0);
	if (mine) { int e = errno; post(f); errno = e; }
	return r;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { return do_rename(d1, a, d2, b, fl); }

int linkat(int d1, const char *a, int d2, const char *b, int fl) {
	char x[PATH_MAX], y[PATH_MAX];
	const char *pa = armed ? absolute(d1, a, x) : NULL, *pb = armed ? absolute(d2, b, y) : NULL;
	int mine = armed && (under(pa) || under(pb)), f = F_NONE;
	if (mine) { f = step(OP_LINK); if (pre(f)) return -1; }
	int r = syscall(SYS_linkat, d1, a, d2, b, fl);
	if (mine && r == 0) logop(OP_LINK, -1, 0, 0, pa, pb, NULL, 0);
	if (mine) { int e = errno; post(f); errno = e; }
	return r;
}
int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }

static int do_unlink(int d, const char *p, int fl) {
	char x[PATH_MAX];
	const char *a = armed ? absolute(d, p, x) : NULL;
	int mine = armed && under(a), f = F_NONE;
	if (mine) { f = step(OP_UNLINK); if (pre(f)) return -1; }
	int r = syscall(SYS_unlinkat, d, p, fl);
	if (mine && r == 0) logop(OP_UNLINK, -1, 0, 0, a, NULL, NULL, 0);
	if (mine) { int e = errno; post(f); errno = e; }
	return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { return do_unlink(d, p, fl); }

int close(int fd) {
	if (!tracked(fd)) { if (fd >= 0 && fd < MAXFD && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = NULL; } return syscall(SYS_close, fd); }
	int f = step(OP_CLOSE);
	if (f == F_CRASH_BEFORE || f == F_CRASH_TORN) die();
	free(fdpath[fd]); fdpath[fd] = NULL;
	int r = syscall(SYS_close, fd);   /* the descriptor is released even when close reports an error */
	if (f == F_ERR || f == F_STICKY) { errno = fault_err; return -1; }
	post(f); return r;
}
