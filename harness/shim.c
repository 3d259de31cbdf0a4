/* Fork server and fault-injecting environment that is linked (via ld --wrap)
 * around the unmodified sources of the program under test.
 *
 * The program's main() is compiled as app_main().  The parent process reads
 * requests from fd 0, forks one child per request, the child applies the plan
 * file of the request (faults, fake HTTP, fake kernel crypto, ...) and calls
 * app_main().  Everything is a pure function of the request.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <linux/if_alg.h>
#include <linux/fs.h>
#define CURL_DISABLE_TYPECHECK
#include <curl/curl.h>
#undef curl_easy_setopt
#undef curl_easy_getinfo
#include <openssl/sha.h>

#ifndef MIN
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#endif
int app_main(int argc, char **argv);

/* the program's own allocations can be made to fail; the ones in here never do */
void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void *__real_realloc(void *p, size_t n);
char *__real_strdup(const char *s);
#define malloc __real_malloc
#define calloc __real_calloc
#define realloc __real_realloc
#undef strdup
#define strdup __real_strdup

/* ------------------------------------------------------------- plan state */

enum { OP_OPEN, OP_READ, OP_PREAD, OP_WRITE, OP_PWRITE, OP_FSYNC, OP_FSTAT, OP_LSEEK,
       OP_SEND, OP_RECV, OP_SOCKET, OP_BIND, OP_ACCEPT, OP_IOCTL, N_OPS };
static const char *op_names[N_OPS] = { "open", "read", "pread", "write", "pwrite", "fsync",
	"fstat", "lseek", "send", "recv", "socket", "bind", "accept", "ioctl" };

#define MAX_ROLES 128
#define ROLE_ALG 127
struct role {
	char name[32];
	char path[8192];
	char canon[8192];
	dev_t dev;
	ino_t ino;
	bool have_ino;
	bool blk;
	bool sparsezero;
	unsigned long count[N_OPS];
};
static struct role roles[MAX_ROLES];
static int n_roles;

enum { F_ERRNO, F_SHORT, F_CRASH, F_EOF, F_CRASHAFTER };
struct fault {
	int op, role;
	unsigned long nth;      /* 1-based; 0 = every */
	int kind;
	long arg;
};
#define MAX_FAULTS 4096
static struct fault faults[MAX_FAULTS];
static int n_faults;

struct mutate {
	int op, role;
	unsigned long nth;
	char path[512];
	long off;
	char file[512];
};
static struct mutate mutates[64];
static int n_mutates;

static bool rand_on;
static uint64_t rand_state;
static unsigned rand_eintr, rand_short, rand_maxshort;

static char appear_canon[8192], appear_file[512];
static int log_fd = -1;
static unsigned long n_events, max_events = 3000000;
static bool plan_meter;
static bool plan_tty, plan_kcapi, plan_http, plan_lowspeed;
static long lowspeed_time;
static bool nosleep = true;

#define MAX_FD 4096
static signed char fd_role[MAX_FD];
static unsigned char fd_alg[MAX_FD]; /* 1 = listening alg socket, 2 = op socket */

static void xlog(const char *fmt, ...)
{
	if (++n_events > max_events) {
		static const char msg[] = "RUNAWAY\n";
		if (log_fd >= 0)
			(void)!syscall(SYS_write, log_fd, msg, sizeof(msg) - 1);
		_exit(98);
	}
	if (log_fd < 0)
		return;
	int saved = errno;
	char buf[32768];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	if (n >= (int)sizeof(buf)) {
		n = sizeof(buf) - 1;
		buf[n - 1] = '\n';
	}
	(void)!syscall(SYS_write, log_fd, buf, n);
	errno = saved;
}

static uint64_t rnd(void)
{
	/* splitmix64 */
	uint64_t z = (rand_state += UINT64_C(0x9e3779b97f4a7c15));
	z = (z ^ (z >> 30)) * UINT64_C(0xbf58476d1ce4e5b9);
	z = (z ^ (z >> 27)) * UINT64_C(0x94d049bb133111eb);
	return z ^ (z >> 31);
}

static int role_of(int fd)
{
	if (fd < 0 || fd >= MAX_FD)
		return -1;
	return fd_role[fd];
}

int __real_open(const char *path, int flags, ...);
ssize_t __real_read(int fd, void *buf, size_t n);
ssize_t __real_pread(int fd, void *buf, size_t n, off_t off);
ssize_t __real_write(int fd, const void *buf, size_t n);
ssize_t __real_pwrite(int fd, const void *buf, size_t n, off_t off);
int __real_close(int fd);
int __real_fsync(int fd);
int __real_fstat(int fd, struct stat *st);
off_t __real_lseek(int fd, off_t off, int whence);
int __real_ioctl(int fd, unsigned long req, ...);
int __real_isatty(int fd);
ssize_t __real_send(int fd, const void *buf, size_t n, int flags);
ssize_t __real_recv(int fd, void *buf, size_t n, int flags);
int __real_socket(int d, int t, int p);
int __real_bind(int fd, const struct sockaddr *a, socklen_t l);
int __real_accept(int fd, struct sockaddr *a, socklen_t *l);
int __real_usleep(useconds_t us);
int __real_nanosleep(const struct timespec *a, struct timespec *b);
unsigned __real_sleep(unsigned s);
int __real_clock_nanosleep(clockid_t c, int flags, const struct timespec *a, struct timespec *b);
int __real_openat(int at, const char *path, int flags, ...);

/* Applies mutations and faults.  Returns 0 to go on (with *n possibly reduced),
 * 1 if the call shall fail with errno set, 2 if it shall report end of file. */
static int inject(int op, int role, size_t *n, int *crash)
{
	*crash = 0;
	if (role < 0)
		return 0;

	unsigned long c = ++roles[role].count[op];

	for (int i = 0; i < n_mutates; i++) {
		struct mutate *m = &mutates[i];
		if (m->op != op || m->role != role || m->nth != c)
			continue;
		int in = syscall(SYS_open, m->file, O_RDONLY);
		int out = syscall(SYS_open, m->path, O_WRONLY);
		char buf[65536];
		long off = m->off;
		ssize_t r;
		while (in >= 0 && out >= 0 && (r = syscall(SYS_read, in, buf, sizeof(buf))) > 0) {
			(void)!syscall(SYS_pwrite64, out, buf, r, off);
			off += r;
		}
		if (in >= 0) syscall(SYS_close, in);
		if (out >= 0) syscall(SYS_close, out);
		xlog("M %s\n", m->path);
	}

	for (int i = 0; i < n_faults; i++) {
		struct fault *f = &faults[i];
		if (f->op != op || f->role != role || (f->nth != 0 && f->nth != c))
			continue;
		xlog("F %s %s %d %lu %ld\n", op_names[op], roles[role].name, f->kind, c, f->arg);
		switch (f->kind) {
		case F_ERRNO:
			errno = f->arg;
			return 1;
		case F_SHORT:
			if (n && *n > (size_t)f->arg && f->arg > 0)
				*n = f->arg;
			break;
		case F_CRASH:
			if (n && *n > (size_t)f->arg)
				*n = f->arg;
			*crash = 1;
			break;
		case F_CRASHAFTER:
			*crash = 1;
			break;
		case F_EOF:
			return 2;
		}
	}

	if (rand_on && op != OP_FSTAT && op != OP_IOCTL && op != OP_LSEEK && op != OP_OPEN &&
	    op != OP_SOCKET && op != OP_BIND && op != OP_ACCEPT && op != OP_FSYNC) {
		if (rnd() % 1000 < rand_eintr) {
			errno = EINTR;
			return 1;
		}
		if (n && *n > 1 && rnd() % 1000 < rand_short) {
			size_t k = 1 + rnd() % MIN(*n - 1, (size_t)rand_maxshort);
			if (k < *n)
				*n = k;
		}
	}
	return 0;
}

static void die_now(void)
{
	xlog("CRASH\n");
	_exit(77);
}

/* --------------------------------------------------------------- file ops */

/* a transfer that runs out of mapped memory is one that overran its buffer (which the sanitizer
 * does not notice for variables it leaves without a red zone, such as strongly aligned ones) */
static void io_check(ssize_t ret)
{
	static const char msg[] = "ERROR: AddressSanitizer: file transfer beyond a buffer (EFAULT)\n";

	if (ret < 0 && errno == EFAULT) {
		(void)!syscall(SYS_write, 2, msg, sizeof(msg) - 1);
		_exit(99);
	}
}

static void note_fd(int fd, const char *path, int flags)
{
	if (fd < 0 || fd >= MAX_FD)
		return;
	fd_role[fd] = -1;
	fd_alg[fd] = 0;
	struct stat st;
	if (syscall(SYS_fstat, fd, &st) < 0)
		return;
	for (int i = 0; i < n_roles; i++) {
		if (roles[i].have_ino && roles[i].dev == st.st_dev && roles[i].ino == st.st_ino) {
			fd_role[fd] = i;
			break;
		}
	}
}

/* the path with its directory resolved, or the path itself */
static void canonical(char *out, size_t len, const char *path)
{
	int saved = errno;
	char dir[8192], res[8192];
	const char *base = strrchr(path, '/');
	size_t dl = base ? (size_t)(base - path) + 1 : 0;

	base = base ? base + 1 : path;
	if (dl >= sizeof(dir) - 1) {
		out[0] = 0;
		return;
	}
	memcpy(dir, path, dl);
	dir[dl] = 0;
	if (realpath(dl ? dir : ".", res))
		snprintf(out, len, "%s/%s", res, base);
	else
		snprintf(out, len, "%s", path);
	errno = saved;
}

/* a file that somebody else creates just before the program does */
static void appear_now(const char *path)
{
	char c[8192];
	canonical(c, sizeof(c), path);
	if (!c[0] || strcmp(c, appear_canon))
		return;
	int saved = errno;
	int in = syscall(SYS_openat, AT_FDCWD, appear_file, O_RDONLY, 0);
	int out = syscall(SYS_openat, AT_FDCWD, appear_canon, O_WRONLY | O_CREAT | O_EXCL, 0644);
	char buf[4096];
	ssize_t r;
	xlog("V %d\n", out >= 0);
	while (in >= 0 && out >= 0 && (r = syscall(SYS_read, in, buf, sizeof(buf))) > 0)
		(void)!syscall(SYS_write, out, buf, r);
	if (in >= 0) syscall(SYS_close, in);
	if (out >= 0) syscall(SYS_close, out);
	appear_canon[0] = 0;
	errno = saved;
}

static int do_open(const char *path, int flags, mode_t mode)
{
	if (appear_canon[0] && (flags & O_CREAT))
		appear_now(path);
	int role = -1, crash;
	for (int i = 0; i < n_roles; i++)
		if (strcmp(roles[i].path, path) == 0)
			role = i;
	if (role < 0 && n_roles) {
		char c[8192];
		canonical(c, sizeof(c), path);
		for (int i = 0; i < n_roles; i++)
			if (c[0] && strcmp(roles[i].canon, c) == 0)
				role = i;
	}
	int r = inject(OP_OPEN, role, NULL, &crash);
	if (crash)
		die_now();
	if (r) {
		xlog("O %s %d -1\n", role >= 0 ? roles[role].name : "?", flags);
		return -1;
	}
	int fd = __real_open(path, flags, mode);
	note_fd(fd, path, flags);
	if (fd >= 0 && fd < MAX_FD && fd_role[fd] < 0 && role >= 0)
		fd_role[fd] = role; /* created just now */
	int rr = role_of(fd);
	xlog("O %s %d %d\n", rr >= 0 ? roles[rr].name : (role >= 0 ? roles[role].name : "?"), flags, fd < 0 ? -1 : 0);
	return fd;
}

int __wrap_open(const char *path, int flags, ...)
{
	mode_t mode = 0;
	if (flags & O_CREAT) {
		va_list ap;
		va_start(ap, flags);
		mode = va_arg(ap, int);
		va_end(ap);
	}
	return do_open(path, flags, mode);
}
int __wrap_open64(const char *path, int flags, ...)
{
	mode_t mode = 0;
	if (flags & O_CREAT) {
		va_list ap;
		va_start(ap, flags);
		mode = va_arg(ap, int);
		va_end(ap);
	}
	return do_open(path, flags, mode);
}

int __wrap_openat(int at, const char *path, int flags, ...)
{
	mode_t mode = 0;
	if (flags & O_CREAT) {
		va_list ap;
		va_start(ap, flags);
		mode = va_arg(ap, int);
		va_end(ap);
	}
	if (at == AT_FDCWD || path[0] == '/')
		return do_open(path, flags, mode);
	return __real_openat(at, path, flags, mode);
}
int __wrap_creat(const char *path, mode_t mode)
{
	return do_open(path, O_WRONLY | O_CREAT | O_TRUNC, mode);
}

int __wrap_close(int fd)
{
	if (fd >= 0 && fd < MAX_FD) {
		fd_role[fd] = -1;
		fd_alg[fd] = 0;
	}
	return __real_close(fd);
}

static ssize_t alg_send(int fd, const void *buf, size_t n, int flags);
static ssize_t alg_recv(int fd, void *buf, size_t n);

ssize_t __wrap_read(int fd, void *buf, size_t n)
{
	if (fd >= 0 && fd < MAX_FD && fd_alg[fd] == 2)
		return alg_recv(fd, buf, n);
	int role = role_of(fd), crash;
	size_t m = n;
	int r = inject(OP_READ, role, &m, &crash);
	if (r == 1 || crash) {
		if (crash) die_now();
		if (role >= 0) xlog("r %s %zu -%d\n", roles[role].name, n, errno);
		return -1;
	}
	if (r == 2) {
		if (role >= 0) xlog("r %s %zu 0\n", roles[role].name, n);
		return 0;
	}
	ssize_t ret = __real_read(fd, buf, m);
	io_check(ret);
	if (role >= 0)
		xlog("r %s %zu %zd\n", roles[role].name, n, ret);
	return ret;
}

static ssize_t do_pread(int fd, void *buf, size_t n, off_t off)
{
	int role = role_of(fd), crash;
	size_t m = n;
	int r = inject(OP_PREAD, role, &m, &crash);
	if (r == 1 || crash) {
		if (crash) die_now();
		if (role >= 0) xlog("R %s %lld %zu -%d\n", roles[role].name, (long long)off, n, errno);
		return -1;
	}
	if (r == 2) {
		if (role >= 0) xlog("R %s %lld %zu 0\n", roles[role].name, (long long)off, n);
		return 0;
	}
	ssize_t ret = __real_pread(fd, buf, m, off);
	io_check(ret);
	if (role >= 0)
		xlog("R %s %lld %zu %zd\n", roles[role].name, (long long)off, n, ret);
	return ret;
}
ssize_t __wrap_pread(int fd, void *buf, size_t n, off_t off) { return do_pread(fd, buf, n, off); }
ssize_t __wrap_pread64(int fd, void *buf, size_t n, off_t off) { return do_pread(fd, buf, n, off); }

static ssize_t do_pwrite(int fd, const void *buf, size_t n, off_t off);

ssize_t __wrap_write(int fd, const void *buf, size_t n)
{
	if (fd >= 0 && fd < MAX_FD && fd_alg[fd] == 2)
		return alg_send(fd, buf, n, 0);
	int role = role_of(fd), crash;
	if (role >= 0 && (roles[role].sparsezero || strcmp(roles[role].name, "target") == 0 || strcmp(roles[role].name, "dst") == 0)) {
		/* the same thing as a pwrite at the current offset */
		off_t at = __real_lseek(fd, 0, SEEK_CUR);
		ssize_t ret = do_pwrite(fd, buf, n, at);
		if (ret > 0)
			__real_lseek(fd, at + ret, SEEK_SET);
		return ret;
	}
	size_t m = n;
	int r = inject(OP_WRITE, role, &m, &crash);
	if (r == 1) {
		if (role >= 0) xlog("w %s %zu -%d\n", roles[role].name, n, errno);
		return -1;
	}
	ssize_t ret = m || !crash ? __real_write(fd, buf, m) : 0;
	io_check(ret);
	if (role >= 0)
		xlog("w %s %zu %zd\n", roles[role].name, n, ret);
	if (crash)
		die_now();
	return ret;
}

static bool all_zero(const uint8_t *p, size_t n)
{
	return n == 0 || (p[0] == 0 && memcmp(p, p + 1, n - 1) == 0);
}

static ssize_t do_pwrite(int fd, const void *buf, size_t n, off_t off)
{
	int role = role_of(fd), crash;
	size_t m = n;
	int r = inject(OP_PWRITE, role, &m, &crash);
	if (r == 1) {
		if (role >= 0) xlog("W %s %lld %zu -%d\n", roles[role].name, (long long)off, n, errno);
		return -1;
	}
	ssize_t ret;
	if (role >= 0 && roles[role].sparsezero && all_zero(buf, m)) {
		/* the region is known to be a hole: writing zeros there changes nothing but the size */
		ret = m;
		struct stat st;
		if (syscall(SYS_fstat, fd, &st) == 0 && st.st_size < off + (off_t)m)
			(void)!ftruncate(fd, off + m);
	} else {
		ret = m || !crash ? __real_pwrite(fd, buf, m, off) : 0;
		io_check(ret);
	}
	if (role >= 0)
		xlog("W %s %lld %zu %zd\n", roles[role].name, (long long)off, n, ret);
	if (crash)
		die_now();
	return ret;
}
ssize_t __wrap_pwrite(int fd, const void *buf, size_t n, off_t off) { return do_pwrite(fd, buf, n, off); }
ssize_t __wrap_pwrite64(int fd, const void *buf, size_t n, off_t off) { return do_pwrite(fd, buf, n, off); }

/* vectors: as the transfer of the first element that is not empty */
static const struct iovec *first(const struct iovec *v, int n)
{
	while (n > 1 && v->iov_len == 0) {
		v++;
		n--;
	}
	return v;
}
ssize_t __wrap_readv(int fd, const struct iovec *v, int n) { v = first(v, n); return __wrap_read(fd, v->iov_base, v->iov_len); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) { v = first(v, n); return __wrap_write(fd, v->iov_base, v->iov_len); }
ssize_t __wrap_preadv(int fd, const struct iovec *v, int n, off_t off) { v = first(v, n); return do_pread(fd, v->iov_base, v->iov_len, off); }
ssize_t __wrap_pwritev(int fd, const struct iovec *v, int n, off_t off) { v = first(v, n); return do_pwrite(fd, v->iov_base, v->iov_len, off); }

int __wrap_fsync(int fd)
{
	int role = role_of(fd), crash;
	int r = inject(OP_FSYNC, role, NULL, &crash);
	if (crash) die_now();
	if (role >= 0)
		xlog("Y %s %d\n", roles[role].name, r ? -1 : 0);
	return r ? -1 : __real_fsync(fd);
}
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }

static int do_fstat(int fd, struct stat *st)
{
	int role = role_of(fd), crash;
	int r = inject(OP_FSTAT, role, NULL, &crash);
	if (r)
		return -1;
	int ret = __real_fstat(fd, st);
	if (ret == 0 && role >= 0 && roles[role].blk) {
		st->st_mode = (st->st_mode & ~S_IFMT) | S_IFBLK;
		st->st_size = 0;
	}
	return ret;
}
int __wrap_fstat(int fd, struct stat *st) { return do_fstat(fd, st); }
int __wrap_fstat64(int fd, struct stat *st) { return do_fstat(fd, st); }

off_t __wrap_lseek(int fd, off_t off, int whence)
{
	int role = role_of(fd), crash;
	int r = inject(OP_LSEEK, role, NULL, &crash);
	if (r)
		return -1;
	return __real_lseek(fd, off, whence);
}
off_t __wrap_lseek64(int fd, off_t off, int whence) { return __wrap_lseek(fd, off, whence); }

int __wrap_ioctl(int fd, unsigned long req, ...)
{
	va_list ap;
	va_start(ap, req);
	void *arg = va_arg(ap, void*);
	va_end(ap);
	int role = role_of(fd), crash;
	if (role >= 0 && roles[role].blk) {
		if (inject(OP_IOCTL, role, NULL, &crash))
			return -1;
		struct stat st;
		if (syscall(SYS_fstat, fd, &st) < 0)
			return -1;
		switch (req) {
		case BLKGETSIZE64: *(uint64_t*)arg = st.st_size; return 0;
		case BLKGETSIZE: *(unsigned long*)arg = st.st_size / 512; return 0;
		case BLKSSZGET: *(int*)arg = 512; return 0;
		case BLKBSZGET: *(int*)arg = 4096; return 0;
		}
		errno = ENOTTY;
		return -1;
	}
	return __real_ioctl(fd, req, arg);
}

int __wrap_isatty(int fd)
{
	if (plan_tty && (fd == 1 || fd == 2))
		return 1;
	return __real_isatty(fd);
}

int __wrap_usleep(useconds_t us)
{
	xlog("S %lu\n", (unsigned long)us);
	return nosleep ? 0 : __real_usleep(us);
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *b)
{
	xlog("S %lu\n", (unsigned long)(a->tv_sec * 1000000 + a->tv_nsec / 1000));
	return nosleep ? 0 : __real_nanosleep(a, b);
}
int __wrap_clock_nanosleep(clockid_t c, int flags, const struct timespec *a, struct timespec *b)
{
	if (nosleep) { n_events++; return 0; }
	return __real_clock_nanosleep(c, flags, a, b);
}
unsigned __wrap_sleep(unsigned s)
{
	xlog("S %lu\n", (unsigned long)s * 1000000);
	return nosleep ? 0 : __real_sleep(s);
}

/* ----------------------------------------------------- fake kernel crypto */

static SHA256_CTX alg_ctx;
static bool alg_more, alg_result_ready;
static uint8_t alg_result[32];

int __wrap_socket(int d, int t, int p)
{
	int crash;
	if (d != AF_ALG || !plan_kcapi)
		return __real_socket(d, t, p);
	if (inject(OP_SOCKET, ROLE_ALG, NULL, &crash)) {
		xlog("K socket -1\n");
		return -1;
	}
	int fd = syscall(SYS_open, "/dev/null", O_RDWR);
	if (fd >= 0 && fd < MAX_FD) {
		fd_alg[fd] = 1;
		fd_role[fd] = -1;
	}
	xlog("K socket 0\n");
	return fd;
}

int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l)
{
	int crash;
	if (fd < 0 || fd >= MAX_FD || fd_alg[fd] != 1)
		return __real_bind(fd, a, l);
	const struct sockaddr_alg *sa = (const struct sockaddr_alg*)a;
	if (inject(OP_BIND, ROLE_ALG, NULL, &crash))
		return -1;
	if (sa->salg_family != AF_ALG || strcmp((const char*)sa->salg_type, "hash") != 0 ||
	    (strcmp((const char*)sa->salg_name, "sha256") != 0 &&
	     strcmp((const char*)sa->salg_name, "sha256-generic") != 0)) {
		errno = ENOENT;
		return -1;
	}
	return 0;
}

int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l)
{
	int crash;
	if (fd < 0 || fd >= MAX_FD || fd_alg[fd] != 1)
		return __real_accept(fd, a, l);
	if (inject(OP_ACCEPT, ROLE_ALG, NULL, &crash))
		return -1;
	int nfd = syscall(SYS_open, "/dev/null", O_RDWR);
	if (nfd >= 0 && nfd < MAX_FD) {
		fd_alg[nfd] = 2;
		fd_role[nfd] = -1;
	}
	alg_more = false;
	alg_result_ready = false;
	return nfd;
}

static ssize_t alg_send(int fd, const void *buf, size_t n, int flags)
{
	int crash;
	size_t m = n;
	(void)fd;
	if (m > 65536)
		m = 65536; /* the kernel takes at most a bounded number of pages per call */
	if (inject(OP_SEND, ROLE_ALG, &m, &crash)) {
		xlog("K send -%d\n", errno);
		return -1;
	}
	if (!alg_more) {
		SHA256_Init(&alg_ctx);
		alg_result_ready = false;
	}
	SHA256_Update(&alg_ctx, buf, m);
	alg_more = true;
	if (!(flags & MSG_MORE)) {
		SHA256_Final(alg_result, &alg_ctx);
		alg_more = false;
		alg_result_ready = true;
	}
	xlog("K send %zu %zu\n", n, m);
	return m;
}

static ssize_t alg_recv(int fd, void *buf, size_t n)
{
	int crash;
	size_t m = n > 32 ? 32 : n;
	(void)fd;
	int r = inject(OP_RECV, ROLE_ALG, &m, &crash);
	if (r == 1) {
		xlog("K recv -%d\n", errno);
		return -1;
	}
	if (!alg_result_ready) {
		if (!alg_more)
			SHA256_Init(&alg_ctx);
		SHA256_Final(alg_result, &alg_ctx);
		alg_more = false;
	}
	alg_result_ready = false;
	if (r == 2)
		m = 0;
	memcpy(buf, alg_result, m);
	xlog("K recv %zu\n", m);
	return m;
}

ssize_t __wrap_send(int fd, const void *buf, size_t n, int flags)
{
	if (fd < 0 || fd >= MAX_FD || fd_alg[fd] != 2)
		return __real_send(fd, buf, n, flags);
	return alg_send(fd, buf, n, flags);
}
ssize_t __wrap_recv(int fd, void *buf, size_t n, int flags)
{
	if (fd < 0 || fd >= MAX_FD || fd_alg[fd] != 2)
		return __real_recv(fd, buf, n, flags);
	return alg_recv(fd, buf, n);
}

/* -------------------------------------------------------------- fake HTTP */

struct resp {
	int status;
	int code;            /* CURLcode of this attempt */
	uint8_t *body;
	size_t len;
	long deliver;        /* bytes delivered before the transfer ends with code; -1 = all */
	int n_segs;
	unsigned segs[64];
};
struct url {
	char *url;
	int n, cap, next;
	struct resp *r;
};
static struct url *urls;
static int n_urls, cap_urls;
static long default_status = 404;
struct prefix_rule { char *prefix; int status, code; };
static struct prefix_rule prefixes[16];
static int n_prefixes;

struct handle {
	void *curl;
	char *url;
	size_t (*wf)(char *, size_t, size_t, void *);
	void *wd;
	char *eb;
	long status;
};
static struct handle handles[16];
static int n_handles;

CURLcode __real_curl_easy_setopt(CURL *c, CURLoption o, ...);
CURLcode __real_curl_easy_getinfo(CURL *c, CURLINFO i, ...);
CURLcode __real_curl_easy_perform(CURL *c);
void __real_curl_easy_cleanup(CURL *c);

static struct handle *get_handle(void *c)
{
	for (int i = 0; i < n_handles; i++)
		if (handles[i].curl == c)
			return &handles[i];
	if (n_handles == 16)
		abort();
	memset(&handles[n_handles], 0, sizeof(handles[0]));
	handles[n_handles].curl = c;
	return &handles[n_handles++];
}

static bool option_allocates(CURLoption o);

CURLcode __wrap_curl_easy_setopt(CURL *c, CURLoption o, ...)
{
	va_list ap;
	va_start(ap, o);
	void *arg = va_arg(ap, void*);
	va_end(ap);
	if (plan_lowspeed && o == CURLOPT_LOW_SPEED_TIME && (long)arg > 0)
		arg = (void*)lowspeed_time;
	if (option_allocates(o))
		return CURLE_OUT_OF_MEMORY;
	if (plan_http) {
		struct handle *h = get_handle(c);
		switch (o) {
		case CURLOPT_URL:
			free(h->url);
			h->url = arg ? strdup(arg) : NULL;
			break;
		case CURLOPT_WRITEFUNCTION: h->wf = arg; break;
		case CURLOPT_WRITEDATA: h->wd = arg; break;
		case CURLOPT_ERRORBUFFER: h->eb = arg; break;
		default: break;
		}
	}
	return __real_curl_easy_setopt(c, o, arg);
}

CURLcode __wrap_curl_easy_getinfo(CURL *c, CURLINFO i, ...)
{
	va_list ap;
	va_start(ap, i);
	void *arg = va_arg(ap, void*);
	va_end(ap);
	if (plan_http && i == CURLINFO_RESPONSE_CODE) {
		*(long*)arg = get_handle(c)->status;
		return CURLE_OK;
	}
	return __real_curl_easy_getinfo(c, i, arg);
}

void __wrap_curl_easy_cleanup(CURL *c)
{
	if (plan_http)
		for (int i = 0; i < n_handles; i++)
			if (handles[i].curl == c)
				handles[i].curl = NULL;
	__real_curl_easy_cleanup(c);
}

static CURLcode fake_perform(struct handle *h)
{
	h->status = 0;
	if (h->eb)
		h->eb[0] = 0;
	if (!h->url || !h->wf) {
		xlog("H ? nourl\n");
		return CURLE_URL_MALFORMAT;
	}
	struct url *u = NULL;
	for (int i = 0; i < n_urls; i++)
		if (strcmp(urls[i].url, h->url) == 0)
			u = &urls[i];
	struct resp dflt = { .status = default_status, .code = 0, .deliver = -1 };
	struct resp *r = &dflt;
	if (u && u->n) {
		r = &u->r[u->next];
		if (u->next < u->n - 1)
			u->next++;
	} else {
		for (int i = 0; i < n_prefixes; i++)
			if (strncmp(h->url, prefixes[i].prefix, strlen(prefixes[i].prefix)) == 0) {
				dflt.status = prefixes[i].status;
				dflt.code = prefixes[i].code;
			}
	}
	xlog("H %s %d %d\n", h->url, r->status, r->code);

	if (r->status == 0) {
		if (h->eb)
			snprintf(h->eb, CURL_ERROR_SIZE, "simulated transport failure %d", r->code);
		return r->code;
	}
	h->status = r->status;
	size_t total = r->len;
	if (r->deliver >= 0 && (size_t)r->deliver < total)
		total = r->deliver;
	size_t off = 0;
	int s = 0;
	while (off < total) {
		size_t n = r->n_segs ? r->segs[s < r->n_segs ? s : r->n_segs - 1] : CURL_MAX_WRITE_SIZE;
		s++;
		if (r->n_segs > 1 && s >= r->n_segs)
			s = 0;
		if (n == 0)
			n = 1;
		if (n > CURL_MAX_WRITE_SIZE)
			n = CURL_MAX_WRITE_SIZE;
		if (n > total - off)
			n = total - off;
		/* exact-size copy so that the sanitizer sees overreads, and writes do not persist */
		char *copy = malloc(n);
		memcpy(copy, r->body + off, n);
		size_t ret = h->wf(copy, 1, n, h->wd);
		free(copy);
		if (ret != n) {
			if (h->eb)
				snprintf(h->eb, CURL_ERROR_SIZE, "Failure writing output to destination");
			return CURLE_WRITE_ERROR;
		}
		off += n;
	}
	if (r->code && h->eb)
		snprintf(h->eb, CURL_ERROR_SIZE, "simulated transport failure %d", r->code);
	return r->code;
}

CURLcode __wrap_curl_easy_perform(CURL *c)
{
	if (!plan_http) {
		xlog("H real\n");
		return __real_curl_easy_perform(c);
	}
	return fake_perform(get_handle(c));
}

/* ------------------------------------------------------------------ memory */

static bool plan_alloc;
static struct { unsigned long first, last, seen; char what[16]; } afails[64];
static int n_afails;

static bool no_memory(const char *what, size_t n)
{
	if (!plan_alloc)
		return false;
	bool fail = false;
	for (int i = 0; i < n_afails; i++) {
		if (afails[i].what[0] && strcmp(afails[i].what, what) != 0)
			continue;
		unsigned long k = ++afails[i].seen;
		if (k >= afails[i].first && k <= afails[i].last)
			fail = true;
	}
	xlog("A %s %zu %d\n", what, n, fail);
	if (fail)
		errno = ENOMEM;
	return fail;
}

void *__wrap_malloc(size_t n)
{
	return no_memory("malloc", n) ? NULL : __real_malloc(n);
}

void *__wrap_calloc(size_t n, size_t m)
{
	return no_memory("calloc", n * m) ? NULL : __real_calloc(n, m);
}

void *__wrap_realloc(void *p, size_t n)
{
	return n && no_memory("realloc", n) ? NULL : __real_realloc(p, n);
}

void *__wrap_reallocarray(void *p, size_t n, size_t m)
{
	size_t t;
	if (__builtin_mul_overflow(n, m, &t)) {
		errno = ENOMEM;
		return NULL;
	}
	return __wrap_realloc(p, t);
}

char *__wrap_strdup(const char *s)
{
	return no_memory("strdup", 0) ? NULL : __real_strdup(s);
}

char *__real_strndup(const char *s, size_t n);
char *__wrap_strndup(const char *s, size_t n)
{
	return no_memory("strndup", 0) ? NULL : __real_strndup(s, n);
}

int __wrap_vasprintf(char **out, const char *fmt, va_list ap)
{
	if (no_memory("asprintf", 0)) {
		*out = NULL;
		return -1;
	}
	return vasprintf(out, fmt, ap);
}

int __wrap_asprintf(char **out, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = __wrap_vasprintf(out, fmt, ap);
	va_end(ap);
	return r;
}

CURL *__real_curl_easy_init(void);
CURL *__wrap_curl_easy_init(void)
{
	return no_memory("curl", 0) ? NULL : __real_curl_easy_init();
}

void *__real_ZSTD_createDStream(void);
void *__wrap_ZSTD_createDStream(void)
{
	return no_memory("zstd", 0) ? NULL : __real_ZSTD_createDStream();
}

void *__real_ZSTD_createDCtx(void);
void *__wrap_ZSTD_createDCtx(void)
{
	return no_memory("zstd", 0) ? NULL : __real_ZSTD_createDCtx();
}

size_t __real_ZSTD_decompressStream(void *z, void *out, void *in);
size_t __wrap_ZSTD_decompressStream(void *z, void *out, void *in)
{
	/* (its windows and tables) */
	return no_memory("decompress", 0) ? (size_t)-64 : __real_ZSTD_decompressStream(z, out, in);
}

void *__real_EVP_CIPHER_CTX_new(void);
void *__wrap_EVP_CIPHER_CTX_new(void)
{
	return no_memory("evp", 0) ? NULL : __real_EVP_CIPHER_CTX_new();
}

int __real_EVP_CipherInit(void *c, const void *t, const unsigned char *k, const unsigned char *iv, int enc);
int __wrap_EVP_CipherInit(void *c, const void *t, const unsigned char *k, const unsigned char *iv, int enc)
{
	return no_memory("evpinit", 0) ? 0 : __real_EVP_CipherInit(c, t, k, iv, enc);
}

static bool option_allocates(CURLoption o)
{
	const struct curl_easyoption *e = plan_alloc ? curl_easy_option_by_id(o) : NULL;
	return e && e->type == CURLOT_STRING && no_memory("setopt", o);
}

/* ------------------------------------------------------------ plan parser */

static void bad_plan(const char *line)
{
	dprintf(2, "bad plan line: %s\n", line);
	_exit(97);
}

static int parse_op(const char *s)
{
	for (int i = 0; i < N_OPS; i++)
		if (strcmp(op_names[i], s) == 0)
			return i;
	bad_plan(s);
	return -1;
}

static int parse_role(const char *s)
{
	if (strcmp(s, "alg") == 0)
		return ROLE_ALG;
	for (int i = 0; i < n_roles; i++)
		if (strcmp(roles[i].name, s) == 0)
			return i;
	bad_plan(s);
	return -1;
}

static uint8_t *load_body(const char *spec, size_t *len)
{
	/* PATH@OFF+LEN */
	char path[600];
	long off, l;
	const char *at = strrchr(spec, '@');
	if (!at || sscanf(at, "@%ld+%ld", &off, &l) != 2)
		bad_plan(spec);
	memcpy(path, spec, at - spec);
	path[at - spec] = 0;
	uint8_t *b = malloc(l ? l : 1);
	int fd = syscall(SYS_open, path, O_RDONLY);
	if (fd < 0)
		bad_plan(spec);
	long got = 0;
	while (got < l) {
		ssize_t r = syscall(SYS_pread64, fd, b + got, l - got, off + got);
		if (r <= 0)
			bad_plan(spec);
		got += r;
	}
	syscall(SYS_close, fd);
	*len = l;
	return b;
}

static int plan_closefd;

static void load_plan(const char *path)
{
	FILE *f = fopen(path, "r");
	if (!f)
		bad_plan(path);
	static char line[65536];
	while (fgets(line, sizeof(line), f)) {
		size_t l = strlen(line);
		while (l && (line[l-1] == '\n'))
			line[--l] = 0;
		if (!l)
			continue;
		char *tok[80];
		int n = 0;
		for (char *p = strtok(line, "\t"); p && n < 80; p = strtok(NULL, "\t"))
			tok[n++] = p;
		if (strcmp(tok[0], "role") == 0 && n == 3) {
			struct role *r = &roles[n_roles++];
			if (n_roles >= ROLE_ALG)
				bad_plan("too many roles");
			snprintf(r->name, sizeof(r->name), "%s", tok[1]);
			snprintf(r->path, sizeof(r->path), "%s", tok[2]);
			canonical(r->canon, sizeof(r->canon), tok[2]);
			struct stat st;
			if (stat(tok[2], &st) == 0) {
				r->dev = st.st_dev;
				r->ino = st.st_ino;
				r->have_ino = true;
			}
		} else if (strcmp(tok[0], "blk") == 0 && n == 2) {
			roles[parse_role(tok[1])].blk = true;
		} else if (strcmp(tok[0], "sparsezero") == 0 && n == 2) {
			roles[parse_role(tok[1])].sparsezero = true;
		} else if (strcmp(tok[0], "fault") == 0 && n == 6) {
			if (n_faults == MAX_FAULTS)
				bad_plan("too many faults");
			struct fault *x = &faults[n_faults++];
			x->op = parse_op(tok[1]);
			x->role = parse_role(tok[2]);
			x->nth = strtoul(tok[3], NULL, 10);
			x->arg = strtol(tok[5], NULL, 10);
			if (strcmp(tok[4], "errno") == 0) x->kind = F_ERRNO;
			else if (strcmp(tok[4], "short") == 0) x->kind = F_SHORT;
			else if (strcmp(tok[4], "crash") == 0) x->kind = F_CRASH;
			else if (strcmp(tok[4], "crashafter") == 0) x->kind = F_CRASHAFTER;
			else if (strcmp(tok[4], "eof") == 0) x->kind = F_EOF;
			else bad_plan(tok[4]);
		} else if (strcmp(tok[0], "mutate") == 0 && n == 7) {
			struct mutate *x = &mutates[n_mutates++];
			if (n_mutates >= 64)
				bad_plan("too many mutations");
			x->op = parse_op(tok[1]);
			x->role = parse_role(tok[2]);
			x->nth = strtoul(tok[3], NULL, 10);
			snprintf(x->path, sizeof(x->path), "%s", tok[4]);
			x->off = strtol(tok[5], NULL, 10);
			snprintf(x->file, sizeof(x->file), "%s", tok[6]);
		} else if (strcmp(tok[0], "rand") == 0 && n == 5) {
			rand_on = true;
			rand_state = strtoull(tok[1], NULL, 10);
			rand_eintr = strtoul(tok[2], NULL, 10);
			rand_short = strtoul(tok[3], NULL, 10);
			rand_maxshort = strtoul(tok[4], NULL, 10);
			if (!rand_maxshort)
				rand_maxshort = 1;
		} else if (strcmp(tok[0], "maxevents") == 0 && n == 2) {
			max_events = strtoul(tok[1], NULL, 10);
		} else if (strcmp(tok[0], "alloc") == 0 && n == 1) {
			plan_alloc = true;
		} else if (strcmp(tok[0], "alloc") == 0 && (n == 3 || n == 4) && n_afails < 64) {
			/* the nth (of that kind) and some more (0: all) */
			if (n == 4)
				snprintf(afails[n_afails].what, sizeof(afails[0].what), "%s", tok[3]);
			plan_alloc = true;
			afails[n_afails].first = strtoul(tok[1], NULL, 10);
			afails[n_afails].last = atoi(tok[2]) ? afails[n_afails].first + atoi(tok[2]) - 1 : -1UL;
			n_afails++;
		} else if (strcmp(tok[0], "appear") == 0 && n == 3) {
			canonical(appear_canon, sizeof(appear_canon), tok[1]);
			snprintf(appear_file, sizeof(appear_file), "%s", tok[2]);
		} else if (strcmp(tok[0], "closefd") == 0 && n == 2) {
			plan_closefd |= 1 << atoi(tok[1]);
		} else if (strcmp(tok[0], "tty") == 0) {
			plan_tty = true;
		} else if (strcmp(tok[0], "meter") == 0) {
			plan_meter = true;
		} else if (strcmp(tok[0], "kcapi") == 0) {
			plan_kcapi = true;
		} else if (strcmp(tok[0], "lowspeed") == 0 && n == 2) {
			plan_lowspeed = true;
			lowspeed_time = strtol(tok[1], NULL, 10);
		} else if (strcmp(tok[0], "http") == 0) {
			plan_http = true;
		} else if (strcmp(tok[0], "httpdefault") == 0 && n == 2) {
			default_status = strtol(tok[1], NULL, 10);
		} else if (strcmp(tok[0], "httpprefix") == 0 && n == 4) {
			if (n_prefixes == 16)
				bad_plan("too many prefixes");
			prefixes[n_prefixes].prefix = strdup(tok[1]);
			prefixes[n_prefixes].status = atoi(tok[2]);
			prefixes[n_prefixes++].code = atoi(tok[3]);
		} else if (strcmp(tok[0], "url") == 0 && n == 2) {
			if (n_urls == cap_urls) {
				cap_urls = cap_urls ? cap_urls * 2 : 64;
				urls = realloc(urls, cap_urls * sizeof(*urls));
			}
			memset(&urls[n_urls], 0, sizeof(*urls));
			urls[n_urls++].url = strdup(tok[1]);
		} else if (strcmp(tok[0], "resp") == 0 && n == 6 && n_urls) {
			/* resp STATUS CODE BODY|- DELIVER SEGS|- */
			struct url *u = &urls[n_urls - 1];
			if (u->n == u->cap) {
				u->cap = u->cap ? u->cap * 2 : 2;
				u->r = realloc(u->r, u->cap * sizeof(*u->r));
			}
			struct resp *r = &u->r[u->n++];
			memset(r, 0, sizeof(*r));
			r->status = atoi(tok[1]);
			r->code = atoi(tok[2]);
			if (strcmp(tok[3], "-") != 0)
				r->body = load_body(tok[3], &r->len);
			r->deliver = strtol(tok[4], NULL, 10);
			if (strcmp(tok[5], "-") != 0) {
				char *save;
				for (char *p = strtok_r(tok[5], ",", &save); p && r->n_segs < 64; p = strtok_r(NULL, ",", &save))
					r->segs[r->n_segs++] = strtoul(p, NULL, 10);
			}
		} else {
			bad_plan(tok[0]);
		}
	}
	fclose(f);
}

/* ------------------------------------------------------- resource metering */

int __sanitizer_install_malloc_and_free_hooks(void (*malloc_hook)(const volatile void *, size_t),
                                              void (*free_hook)(const volatile void *));
size_t __sanitizer_get_allocated_size(const volatile void *p);
int __sanitizer_get_ownership(const volatile void *p);

static long meter_live, meter_peak, meter_count;

static void meter_malloc(const volatile void *p, size_t n)
{
	(void)p;
	meter_live += n;
	meter_count++;
	if (meter_live > meter_peak)
		meter_peak = meter_live;
}

static void meter_free(const volatile void *p)
{
	if (p && __sanitizer_get_ownership(p)) {
		meter_live -= __sanitizer_get_allocated_size(p);
		meter_count--;
	}
}

static void meter_report(void)
{
	int fds = 0;
	for (int i = 0; i < 900; i++)
		if (fcntl(i, F_GETFD) >= 0)
			fds++;
	xlog("Z %ld %ld %ld %d\n", meter_live, meter_peak, meter_count, fds);
}

/* ------------------------------------------------------------ fork server */

static bool read_full(int fd, void *buf, size_t n)
{
	uint8_t *p = buf;
	while (n) {
		ssize_t r = syscall(SYS_read, fd, p, n);
		if (r < 0 && errno == EINTR)
			continue;
		if (r <= 0)
			return false;
		p += r;
		n -= r;
	}
	return true;
}

static void redirect(int to, const char *path, int flags)
{
	int fd = syscall(SYS_open, *path ? path : "/dev/null", flags, 0666);
	if (fd < 0)
		_exit(96);
	if (fd != to) {
		dup2(fd, to);
		syscall(SYS_close, fd);
	}
}

#define RUNAWAY_OUTPUT (128ll << 20)
#define RUNAWAY_PAGES ((3ll << 30) / 4096)

static void tick(int sig)
{
	(void)sig;
}

/* output or memory without bounds must not take the machine down before the CPU limit ends the run */
static bool runaway(pid_t pid, char *payload)
{
	struct stat st;
	char *p = payload;

	for (int i = 0; i < 6; i++, p += strlen(p) + 1)
		if ((i == 2 || i == 3 || i == 5) && *p && syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0) == 0 && (long long)st.st_blocks * 512 > RUNAWAY_OUTPUT)
			return true;

	char buf[128], name[64];
	snprintf(name, sizeof(name), "/proc/%d/statm", pid);
	int fd = syscall(SYS_open, name, O_RDONLY);
	if (fd < 0)
		return false;
	ssize_t n = syscall(SYS_read, fd, buf, sizeof(buf) - 1);
	syscall(SYS_close, fd);
	long long size, rss, shared;
	if (n <= 0)
		return false;
	buf[n] = 0;
	return sscanf(buf, "%lld %lld %lld", &size, &rss, &shared) == 3 && rss - shared > RUNAWAY_PAGES;
}

static void child(char *payload)
{
	signal(SIGALRM, SIG_DFL);
	char *p = payload;
#define NEXT() ({ char *_r = p; p += strlen(p) + 1; _r; })
	char *cwd = NEXT();
	char *sin = NEXT();
	char *sout = NEXT();
	char *serr = NEXT();
	char *plan = NEXT();
	char *log = NEXT();
	int cpu = atoi(NEXT());
	int wall = atoi(NEXT());
	int nenv = atoi(NEXT());
	char **env = calloc(nenv + 1, sizeof(char*));
	for (int i = 0; i < nenv; i++)
		env[i] = NEXT();
	int argc = atoi(NEXT());
	char **argv = calloc(argc + 1, sizeof(char*));
	for (int i = 0; i < argc; i++)
		argv[i] = strdup(NEXT());
#undef NEXT
	if (chdir(cwd) < 0)
		_exit(96);
	redirect(0, sin, O_RDONLY);
	redirect(1, sout, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND);
	redirect(2, serr, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND);
	struct rlimit rl = { cpu, cpu + 2 };
	setrlimit(RLIMIT_CPU, &rl);
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
	alarm(wall);
	clearenv();
	for (int i = 0; i < nenv; i++)
		putenv(env[i]);
	memset(fd_role, -1, sizeof(fd_role));
	snprintf(roles[ROLE_ALG].name, sizeof(roles[0].name), "alg");
	if (*log) {
		int fd = syscall(SYS_open, log, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0666);
		if (fd < 0)
			_exit(96);
		log_fd = fcntl(fd, F_DUPFD, 1000);
		if (log_fd < 0)
			log_fd = fd;
		else
			syscall(SYS_close, fd);
	}
	if (*plan)
		load_plan(plan);
	for (int i = 0; i < 3; i++)
		if (plan_closefd >> i & 1)
			syscall(SYS_close, i);
	note_fd(1, NULL, 0); /* standard output may have a role, too */
	if (plan_meter) {
		atexit(meter_report);
		__sanitizer_install_malloc_and_free_hooks(meter_malloc, meter_free);
	}
	int ret = app_main(argc, argv);
	exit(ret);
}

int main(int argc, char **argv)
{
	(void)argc; (void)argv;
	signal(SIGPIPE, SIG_DFL);
	struct sigaction sa = { .sa_handler = tick };
	sigaction(SIGALRM, &sa, NULL); /* without SA_RESTART */
	int in = fcntl(0, F_DUPFD_CLOEXEC, 900), out = fcntl(1, F_DUPFD_CLOEXEC, 900);
	redirect(0, "", O_RDONLY);
	redirect(1, "", O_WRONLY);
	uint32_t len;
	while (read_full(in, &len, 4)) {
		char *payload = malloc(len + 1);
		if (!payload || !read_full(in, payload, len))
			break;
		payload[len] = 0;
		pid_t pid = fork();
		if (pid == 0) {
			syscall(SYS_close, in);
			syscall(SYS_close, out);
			child(payload);
		}
		int st = -1;
		if (pid > 0) {
			struct itimerval it = {{0, 200000}, {0, 200000}};
			setitimer(ITIMER_REAL, &it, NULL);
			while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
				if (runaway(pid, payload))
					kill(pid, SIGXFSZ);
			memset(&it, 0, sizeof(it));
			setitimer(ITIMER_REAL, &it, NULL);
		}
		free(payload);
		if (syscall(SYS_write, out, &st, 4) != 4)
			break;
	}
	_exit(0);
}
