/* lisim: LD_PRELOAD environment for the real, unmodified lighttpd2-worker.
 *
 * It closes the system under test: every source of nondeterminism the worker
 * can see (clock, listening sockets, accepted connections, backend
 * connections, readiness, short reads/writes, I/O errors) is answered from a
 * script which the explorer sends over a control socket.  Script operations
 * are executed only when the event loop of the main thread would block
 * (nothing readable/writable, timeout != 0), i.e. at quiescence, so that one
 * script is exactly one execution.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <pthread.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXSLOT 64       /* client slots 0..63, backend slots 64..127 */
#define NSLOTS 128

static int ctl_fd = -1;
static int active = 0;
static pid_t main_tid = 0;

static double vt_mono = 1000.0, vt_real = 1700000000.0;

enum { K_NONE = 0, K_LISTEN, K_CLIENT, K_BACKEND };

typedef struct { unsigned char kind; int idx; } fdinfo;
static fdinfo fdtab[MAXFD + 64];

typedef struct { int32_t *v; int n, pos; } plan;

typedef struct {
	int used;
	int ours;            /* our end, -1 if closed */
	int srv_fd;          /* server side fd */
	int srv_closed;      /* server called close() */
	int srv_shut;        /* server called shutdown(WR) */
	struct sockaddr_storage peer; socklen_t peer_len;
	int listener;
	plan wplan, rplan, splan;
	int pending;         /* backend: connect in progress, 1 = wait, 2= failed */
	int junk;            /* bytes of filler to drain */
	int eof;
	unsigned char *out; size_t outlen, outcap;   /* data to be sent by us, still queued */
} slot;
static slot slots[NSLOTS];
static int nbackend = 0;
static plan connect_plan;

typedef struct {
	int fd, used;
	struct sockaddr_storage addr; socklen_t len;
	int q[64]; int qn;
	int evfd;
} listener;
static listener listeners[16];
static int nlisteners = 0;

static int (*r_epoll_wait)(int, struct epoll_event *, int, int);
static int (*r_bind)(int, const struct sockaddr *, socklen_t);
static int (*r_listen)(int, int);
static int (*r_accept)(int, struct sockaddr *, socklen_t *);
static int (*r_accept4)(int, struct sockaddr *, socklen_t *, int);
static int (*r_connect)(int, const struct sockaddr *, socklen_t);
static int (*r_getsockname)(int, struct sockaddr *, socklen_t *);
static int (*r_getpeername)(int, struct sockaddr *, socklen_t *);
static int (*r_setsockopt)(int, int, int, const void *, socklen_t);
static int (*r_getsockopt)(int, int, int, void *, socklen_t *);
static int (*r_close)(int);
static int (*r_shutdown)(int, int);
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_writev)(int, const struct iovec *, int);
static ssize_t (*r_sendfile)(int, int, off_t *, size_t);

#define SYM(n) do { if (!r_##n) r_##n = (void*) dlsym(RTLD_NEXT, #n); } while (0)

static void die(const char *msg) {
	dprintf(2, "LISIM-FATAL: %s errno=%d\n", msg, errno);
	_exit(97);
}

static void init_syms(void) {
	SYM(epoll_wait); SYM(bind); SYM(listen); SYM(accept); SYM(accept4);
	SYM(connect); SYM(getsockname); SYM(getpeername); SYM(setsockopt); SYM(getsockopt);
	SYM(close); SYM(shutdown); SYM(read); SYM(write); SYM(writev); SYM(sendfile);
}

static uint64_t rng = 88172645463325252ull;

static void at_exit(void);
__attribute__((constructor)) static void lisim_init(void) {
	const char *s = getenv("LISIM_FD");
	init_syms();
	if (s && *s) {
		ctl_fd = atoi(s);
		active = 1;
		main_tid = getpid();
		unsetenv("LISIM_FD");
		atexit(at_exit);
		if ((s = getenv("LISIM_TIME"))) vt_real = atof(s);
		fcntl(ctl_fd, F_SETFD, FD_CLOEXEC);
	}
}

static void at_exit(void);
static int is_main(void) { return active && syscall(SYS_gettid) == main_tid; }

#include <sys/resource.h>
int getrlimit(__rlimit_resource_t what, struct rlimit *r) {
	static int (*real)(__rlimit_resource_t, struct rlimit *);
	const char *e = getenv("LISIM_NOFILE");
	if (active && what == RLIMIT_NOFILE && e) { r->rlim_cur = r->rlim_max = atoi(e); return 0; }
	if (!real) real = (void*) dlsym(RTLD_NEXT, "getrlimit");
	return real(what, r);
}

int getrlimit64(__rlimit_resource_t what, struct rlimit64 *r) {
	struct rlimit q;
	int e = getrlimit(what, &q);
	if (0 == e) { r->rlim_cur = q.rlim_cur; r->rlim_max = q.rlim_max; }
	return e;
}

/* ---- time ------------------------------------------------------------ */
int clock_gettime(clockid_t c, struct timespec *ts) {
	double t;
	if (!active) return syscall(SYS_clock_gettime, c, ts);
	switch (c) {
	case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: t = vt_real; break;
	case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_COARSE: case CLOCK_MONOTONIC_RAW: case CLOCK_BOOTTIME: t = vt_mono; break;
	default: return syscall(SYS_clock_gettime, c, ts);
	}
	ts->tv_sec = (time_t) t;
	ts->tv_nsec = (long) ((t - (double) ts->tv_sec) * 1e9);
	if (ts->tv_nsec > 999999999) ts->tv_nsec = 999999999;
	if (ts->tv_nsec < 0) ts->tv_nsec = 0;
	return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
	struct timespec ts;
	(void) tz;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time(time_t *t) {
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}

/* deterministic random for glib */
uint32_t g_random_int(void) {
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	return (uint32_t) (rng >> 16);
}

/* ---- plans ----------------------------------------------------------- */
/* entry >= 0: at most that many bytes; entry < 0: fail with errno -entry; 0x7fffffff: unlimited */
static int plan_next(plan *p, int32_t *v) {
	if (p->pos >= p->n) return 0;
	*v = p->v[p->pos++];
	return 1;
}
static void plan_clear(plan *p) { free(p->v); p->v = NULL; p->n = p->pos = 0; }

/* ---- network --------------------------------------------------------- */
static fdinfo *fi(int fd) { static fdinfo none; if (fd < 0 || fd >= MAXFD || !active) { none.kind = K_NONE; return &none; } return &fdtab[fd]; }

int bind(int fd, const struct sockaddr *a, socklen_t l) {
	SYM(bind);
	if (is_main() && (a->sa_family == AF_INET || a->sa_family == AF_INET6 || a->sa_family == AF_UNIX)) {
		listener *li;
		int fl;
		if (nlisteners >= 16) die("too many listeners");
		li = &listeners[nlisteners];
		memset(li, 0, sizeof(*li));
		li->fd = fd; li->used = 1; li->len = l;
		memcpy(&li->addr, a, l);
		fl = fcntl(fd, F_GETFL);
		li->evfd = eventfd(0, EFD_NONBLOCK);
		if (dup2(li->evfd, fd) < 0) die("dup2");
		(void) fl;
		fdtab[fd].kind = K_LISTEN; fdtab[fd].idx = nlisteners;
		nlisteners++;
		return 0;
	}
	return r_bind(fd, a, l);
}
int listen(int fd, int n) { SYM(listen); if (fi(fd)->kind == K_LISTEN) return 0; return r_listen(fd, n); }

static void give(const void *src, socklen_t sl, struct sockaddr *dst, socklen_t *dl) {
	if (!dst || !dl) return;
	memcpy(dst, src, sl < *dl ? sl : *dl);
	*dl = sl;
}

static int do_accept(int fd, struct sockaddr *a, socklen_t *l, int flags) {
	listener *li = &listeners[fi(fd)->idx];
	uint64_t dummy;
	int s;
	if (li->qn == 0) { r_read(li->evfd, &dummy, 8); errno = EAGAIN; return -1; }
	s = li->q[0];
	memmove(li->q, li->q + 1, sizeof(int) * (--li->qn));
	if (li->qn == 0) r_read(li->evfd, &dummy, 8);
	if (s < 0) { errno = -s; return -1; }
	give(&slots[s].peer, slots[s].peer_len, a, l);
	if (flags & SOCK_NONBLOCK) fcntl(slots[s].srv_fd, F_SETFL, fcntl(slots[s].srv_fd, F_GETFL) | O_NONBLOCK);
	fdtab[slots[s].srv_fd].kind = K_CLIENT; fdtab[slots[s].srv_fd].idx = s;
	return slots[s].srv_fd;
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { SYM(accept); if (fi(fd)->kind == K_LISTEN) return do_accept(fd, a, l, 0); return r_accept(fd, a, l); }
int accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { SYM(accept4); if (fi(fd)->kind == K_LISTEN) return do_accept(fd, a, l, f); return r_accept4(fd, a, l, f); }

static void out_put(unsigned char type, int slotno, const void *data, uint32_t len);

static void mkpair(int sv[2]) {
	int big = 4 << 20;
	if (getenv("LISIM_SNDBUF")) big = atoi(getenv("LISIM_SNDBUF"));
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) < 0) die("socketpair");
	r_setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &big, sizeof(big));
	r_setsockopt(sv[1], SOL_SOCKET, SO_SNDBUF, &big, sizeof(big));
	/* keep harness ends out of the low fd range, so server side fds are as without us */
	int hi = fcntl(sv[0], F_DUPFD_CLOEXEC, 1024);
	if (hi < 0) die("dupfd");
	r_close(sv[0]);
	sv[0] = hi;
	fcntl(sv[0], F_SETFL, fcntl(sv[0], F_GETFL) | O_NONBLOCK);
}

static struct { char name[64]; int32_t v; } connmodes[64];
static int nconnmodes;

int connect(int fd, const struct sockaddr *a, socklen_t l) {
	SYM(connect);
	if (is_main() && (a->sa_family == AF_INET || a->sa_family == AF_INET6 || a->sa_family == AF_UNIX)) {
		int32_t v = 0;
		int k, sv[2], fl;
		slot *s;
		char name[256]; uint32_t nl;
		int planned = plan_next(&connect_plan, &v);
		/* v: 0 ok immediately, <0 errno immediately, 1 EINPROGRESS (completion by script) */
		if (a->sa_family == AF_UNIX) snprintf(name, sizeof(name), "unix:%s", ((struct sockaddr_un*)a)->sun_path);
		else if (a->sa_family == AF_INET) { char b[64]; inet_ntop(AF_INET, &((struct sockaddr_in*)a)->sin_addr, b, sizeof(b)); snprintf(name, sizeof(name), "%s:%d", b, ntohs(((struct sockaddr_in*)a)->sin_port)); }
		else { char b[64]; inet_ntop(AF_INET6, &((struct sockaddr_in6*)a)->sin6_addr, b, sizeof(b)); snprintf(name, sizeof(name), "[%s]:%d", b, ntohs(((struct sockaddr_in6*)a)->sin6_port)); }
		nl = strlen(name);
		if (!planned) { int i; for (i = 0; i < nconnmodes; i++) if (!strcmp(connmodes[i].name, name)) v = connmodes[i].v; }
		{ double tv = vt_real; out_put('v', 0, &tv, 8); }
		if (v < 0) { out_put('c', 255, name, nl); errno = -v; return -1; }
		if (nbackend >= NSLOTS - MAXSLOT) die("too many backends");
		k = MAXSLOT + nbackend++;
		s = &slots[k];
		{ /* plans may be made before the connection exists */
			plan w = s->wplan, r = s->rplan, p = s->splan;
			memset(s, 0, sizeof(*s));
			s->wplan = w; s->rplan = r; s->splan = p;
		}
		s->used = 1;
		out_put('c', k, name, nl);
		mkpair(sv);
		fl = fcntl(fd, F_GETFL);
		if (dup2(sv[1], fd) < 0) die("dup2");
		r_close(sv[1]);
		fcntl(fd, F_SETFL, fl);
		s->ours = sv[0]; s->srv_fd = fd;
		memcpy(&s->peer, a, l); s->peer_len = l;
		if (fd >= MAXFD) die("server runs out of descriptors");
		fdtab[fd].kind = K_BACKEND; fdtab[fd].idx = k;
		if (v == 1) {
			char junk[65536];
			int small = 4096; ssize_t r;
			memset(junk, 0, sizeof(junk));
			r_setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &small, sizeof(small));
			fcntl(fd, F_SETFL, fl | O_NONBLOCK);
			while ((r = send(fd, junk, sizeof(junk), MSG_DONTWAIT | MSG_NOSIGNAL)) > 0) s->junk += r;
			while ((r = send(fd, junk, 1, MSG_DONTWAIT | MSG_NOSIGNAL)) > 0) s->junk += r;
			fcntl(fd, F_SETFL, fl);
			s->pending = 1;
			errno = EINPROGRESS;
			return -1;
		}
		return 0;
	}
	return r_connect(fd, a, l);
}

int getsockname(int fd, struct sockaddr *a, socklen_t *l) {
	fdinfo *f = fi(fd);
	SYM(getsockname);
	if (f->kind == K_LISTEN) { give(&listeners[f->idx].addr, listeners[f->idx].len, a, l); return 0; }
	if (f->kind == K_CLIENT) { listener *li = &listeners[slots[f->idx].listener]; give(&li->addr, li->len, a, l); return 0; }
	return r_getsockname(fd, a, l);
}
int getpeername(int fd, struct sockaddr *a, socklen_t *l) {
	fdinfo *f = fi(fd);
	SYM(getpeername);
	if (f->kind == K_CLIENT) { give(&slots[f->idx].peer, slots[f->idx].peer_len, a, l); return 0; }
	if (f->kind == K_BACKEND) {
		if (slots[f->idx].pending) { errno = ENOTCONN; return -1; }
		give(&slots[f->idx].peer, slots[f->idx].peer_len, a, l); return 0;
	}
	return r_getpeername(fd, a, l);
}
int setsockopt(int fd, int lev, int n, const void *v, socklen_t l) {
	SYM(setsockopt);
	if (fi(fd)->kind != K_NONE) return 0;
	return r_setsockopt(fd, lev, n, v, l);
}
int getsockopt(int fd, int lev, int n, void *v, socklen_t *l) {
	fdinfo *f = fi(fd);
	SYM(getsockopt);
	if (f->kind == K_BACKEND && lev == SOL_SOCKET && n == SO_ERROR && slots[f->idx].pending) { *(int*)v = ECONNREFUSED; *l = sizeof(int); return 0; }
	return r_getsockopt(fd, lev, n, v, l);
}
int close(int fd) {
	fdinfo *f = fi(fd);
	SYM(close);
	if (f->kind == K_CLIENT || f->kind == K_BACKEND) { slots[f->idx].srv_closed = 1; slots[f->idx].srv_fd = -1; }
	if (f->kind == K_LISTEN) listeners[f->idx].used = 0;
	f->kind = K_NONE;
	return r_close(fd);
}
int shutdown(int fd, int how) {
	fdinfo *f = fi(fd);
	SYM(shutdown);
	if (f->kind == K_CLIENT || f->kind == K_BACKEND) if (how != SHUT_RD) slots[f->idx].srv_shut = 1;
	return r_shutdown(fd, how);
}

/* ---- fs crash / fault points ---------------------------------------- */
static long fsops = 0, fs_crash_at = -1, fs_fault_at = -1; static int fs_fault_err = 0; static int fs_trace = 0;
static char fs_prefix[512];

/* prefix of the path, or ("~x") a part of it */
static int fs_match(const char *path) {
	if (fs_prefix[0] == '~') return NULL != strstr(path, fs_prefix + 1);
	return 0 == strncmp(path, fs_prefix, strlen(fs_prefix));
}
static int fs_point(const char *what, const char *path) {
	if (!active || !fs_prefix[0]) return 0;
	if (path && !fs_match(path)) return 0;
	fsops++;
	if (fs_trace) { char b[600]; snprintf(b, sizeof(b), "%ld %s %s", fsops, what, path ? path : ""); out_put('f', 255, b, strlen(b)); }
	if (fsops == fs_crash_at) _exit(99);
	if (fsops == fs_fault_at) { errno = fs_fault_err; return -1; }
	return 0;
}
static int fd_in_prefix(int fd) {
	char l[64], b[600]; ssize_t r;
	if (!active || !fs_prefix[0]) return 0;
	snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
	r = readlink(l, b, sizeof(b) - 1);
	if (r <= 0) return 0;
	b[r] = 0;
	return fs_match(b);
}
int rename(const char *a, const char *b) {
	static int (*r)(const char*, const char*);
	if (!r) r = (void*) dlsym(RTLD_NEXT, "rename");
	if (fs_point("rename", b)) return -1;
	int x = r(a, b);
	if (fs_point("rename-done", b)) return -1;
	return x;
}
int unlink(const char *a) {
	static int (*r)(const char*);
	if (!r) r = (void*) dlsym(RTLD_NEXT, "unlink");
	if (fs_point("unlink", a)) return -1;
	return r(a);
}
int mkdir(const char *a, mode_t m) {
	static int (*r)(const char*, mode_t);
	if (!r) r = (void*) dlsym(RTLD_NEXT, "mkdir");
	if (fs_point("mkdir", a)) return -1;
	return r(a, m);
}
int mkstemp(char *t) {
	static int (*r)(char*);
	if (!r) r = (void*) dlsym(RTLD_NEXT, "mkstemp");
	if (fs_point("mkstemp", t)) return -1;
	return r(t);
}
int mkstemp64(char *t) { return mkstemp(t); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
	static ssize_t (*r)(int, const void*, size_t, off_t);
	if (!r) r = (void*) dlsym(RTLD_NEXT, "pwrite64");
	if (fd_in_prefix(fd)) {
		if (fs_point("pwrite", NULL)) return -1;
		if (n > 1 && fs_fault_at == -2) n = (n + 1) / 2; /* short writes */
	}
	return r(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
	static ssize_t (*r)(int, void*, size_t, off_t);
	if (!r) r = (void*) dlsym(RTLD_NEXT, "pread64");
	if (fd_in_prefix(fd)) {
		if (fs_point("pread", NULL)) return -1;
		if (n > 1 && fs_fault_at == -2) n = (n + 1) / 2; /* short reads */
	}
	return r(fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }

/* ---- data ------------------------------------------------------------ */
ssize_t read(int fd, void *b, size_t n) {
	fdinfo *f = fi(fd);
	SYM(read);
	if (f->kind == K_CLIENT || f->kind == K_BACKEND) {
		int32_t v;
		if (plan_next(&slots[f->idx].rplan, &v)) {
			if (v < 0) { errno = -v; return -1; }
			if ((size_t) v < n) n = v;
		}
	}
	return r_read(fd, b, n);
}
/* writes of the log thread to log files: captured, may be cut short or fail */
static plan log_plan;
static char *log_cap; static size_t log_cap_n, log_cap_a;
static void log_add(const void *b, size_t n) {
	if (log_cap_n + n > log_cap_a) { log_cap_a = (log_cap_n + n) * 2 + 4096; log_cap = realloc(log_cap, log_cap_a); }
	memcpy(log_cap + log_cap_n, b, n); log_cap_n += n;
}
static ssize_t log_write(int fd, const void *b, size_t n) {
	char lnk[64], path[512]; ssize_t l; uint32_t pl, dl; int32_t v;
	struct stat st;
	if (fstat(fd, &st) != 0 || !S_ISREG(st.st_mode)) return r_write(fd, b, n);
	if (plan_next(&log_plan, &v)) {
		if (v < 0) { errno = -v; return -1; }
		if ((size_t) v < n) n = v;
	}
	snprintf(lnk, sizeof(lnk), "/proc/self/fd/%d", fd);
	l = readlink(lnk, path, sizeof(path)); if (l < 0) l = 0;
	pl = (uint32_t) l; dl = (uint32_t) n;
	log_add(&pl, 4); log_add(path, pl); log_add(&dl, 4); log_add(b, dl);
	return r_write(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
	fdinfo *f = fi(fd);
	SYM(write);
	if (f->kind == K_CLIENT || f->kind == K_BACKEND) {
		int32_t v;
		if (plan_next(&slots[f->idx].wplan, &v)) {
			if (v < 0) { errno = -v; return -1; }
			if ((size_t) v < n) n = v;
		}
	} else if (fs_prefix[0] && fd_in_prefix(fd)) {
		if (fs_point("write", NULL)) return -1;
		if (n > 1 && fs_fault_at == -2) n = (n + 1) / 2;
	}
	if (active && fd > 2 && f->kind == K_NONE && !is_main()) return log_write(fd, b, n);
	return r_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *iv, int c) {
	fdinfo *f = fi(fd);
	SYM(writev);
	if (f->kind == K_CLIENT || f->kind == K_BACKEND) {
		int32_t v;
		if (plan_next(&slots[f->idx].wplan, &v)) {
			struct iovec t[1024]; int i; size_t left;
			if (v < 0) { errno = -v; return -1; }
			left = v;
			for (i = 0; i < c && i < 1024 && left > 0; i++) {
				t[i] = iv[i];
				if (t[i].iov_len > left) t[i].iov_len = left;
				left -= t[i].iov_len;
			}
			if (i == 0) return 0;
			return r_writev(fd, t, i);
		}
	}
	return r_writev(fd, iv, c);
}
static ssize_t do_sendfile(int fd, int in, off_t *o, size_t n) {
	fdinfo *f = fi(fd);
	SYM(sendfile);
	if (f->kind == K_CLIENT || f->kind == K_BACKEND) {
		int32_t v;
		plan *p = &slots[f->idx].splan;
		if (p->n == 0) p = &slots[f->idx].wplan;
		if (plan_next(p, &v)) {
			if (v < 0) { errno = -v; return -1; }
			if ((size_t) v < n) n = v;
			if (n == 0) { errno = EAGAIN; return -1; }
		}
	}
	return r_sendfile(fd, in, o, n);
}
ssize_t sendfile(int fd, int in, off_t *o, size_t n) { return do_sendfile(fd, in, o, n); }
ssize_t sendfile64(int fd, int in, off_t *o, size_t n) { return do_sendfile(fd, in, o, n); }

/* ---- script ---------------------------------------------------------- */
static unsigned char *script = NULL; static size_t slen = 0, spos = 0;
static unsigned char *outb = NULL; static size_t olen = 0, ocap = 0;
static int started = 0;
static double advance_left = 0;

static void out_raw(const void *d, size_t n) {
	if (olen + n > ocap) { ocap = (olen + n) * 2 + 4096; outb = realloc(outb, ocap); if (!outb) die("oom"); }
	memcpy(outb + olen, d, n); olen += n;
}
static void out_put(unsigned char type, int slotno, const void *data, uint32_t len) {
	unsigned char h[2] = { type, (unsigned char) slotno };
	out_raw(h, 2); out_raw(&len, 4);
	if (len) out_raw(data, len);
}
static void xread(void *b, size_t n) {
	unsigned char *p = b;
	while (n) { ssize_t r = r_read(ctl_fd, p, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) _exit(0); p += r; n -= r; }
}
static void xwrite(const void *b, size_t n) {
	const unsigned char *p = b;
	while (n) { ssize_t r = r_write(ctl_fd, p, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) _exit(0); p += r; n -= r; }
}
static void finish(void) {
	uint32_t l = olen;
	xwrite(&l, 4); xwrite(outb, olen);
	olen = 0;
}
static void next_script(void) {
	uint32_t l;
	xread(&l, 4);
	script = realloc(script, l + 1); slen = l; spos = 0;
	xread(script, l);
}
static uint8_t g8(void) { if (spos + 1 > slen) die("script short"); return script[spos++]; }
static uint32_t g32(void) { uint32_t v; if (spos + 4 > slen) die("script short"); memcpy(&v, script + spos, 4); spos += 4; return v; }
static double gdbl(void) { double v; if (spos + 8 > slen) die("script short"); memcpy(&v, script + spos, 8); spos += 8; return v; }

static void slot_free(slot *s) {
	plan_clear(&s->wplan); plan_clear(&s->rplan); plan_clear(&s->splan);
	if (!s->used) return;
	if (s->ours >= 0) r_close(s->ours);
	if (s->srv_fd >= 0 && s->srv_fd < MAXFD) fdtab[s->srv_fd].kind = K_NONE;
	memset(s, 0, sizeof(*s));
}
static void drain(int k) {
	slot *s = &slots[k];
	unsigned char b[65536];
	ssize_t r;
	if (!s->used || s->ours < 0) { out_put('d', k, NULL, 0); return; }
	while (s->junk > 0) { r = r_read(s->ours, b, s->junk < (int) sizeof(b) ? (size_t) s->junk : sizeof(b)); if (r <= 0) break; s->junk -= r; }
	for (;;) {
		r = recv(s->ours, b, sizeof(b), MSG_DONTWAIT);
		if (r > 0) out_put('d', k, b, r);
		else if (r == 0) { if (!s->eof) { s->eof = 1; } out_put('e', k, NULL, 0); break; }
		else { if (errno != EAGAIN) { out_put('r', k, NULL, 0); } break; }
	}
}

/* the server ended on its own: report what the peers see */
static void at_exit(void) {
	int k; double tv = vt_real;
	if (!active || getpid() != main_tid || !script || spos >= slen) return;
	if (log_cap_n) { out_put('l', 0, log_cap, log_cap_n); log_cap_n = 0; }
	out_put('x', 0, &tv, 8);
	for (k = 0; k < NSLOTS; k++) if (slots[k].used && slots[k].ours >= 0) drain(k);
	finish();
}

/* tasklets: the thread pool of the server is replaced; the script says when which of the pending tasks runs */
typedef struct { void (*func)(void*, void*); void *user; int exclusive; int threads; } fpool;
typedef struct ftask { fpool *p; void *d; struct ftask *next; } ftask;
static ftask *ftasks; static int nftasks;
void *g_thread_pool_new(void *func, void *user, int max, int excl, void *err) {
	fpool *p = calloc(1, sizeof(*p)); (void) err;
	p->func = (void (*)(void*, void*)) func; p->user = user; p->exclusive = excl; p->threads = max;
	return p;
}
static void ftask_run(int k) {
	ftask **q = &ftasks, *t;
	while (*q && k-- > 0) q = &(*q)->next;
	if (!(t = *q)) return;
	*q = t->next; nftasks--;
	t->p->func(t->d, t->p->user);
	free(t);
}
int g_thread_pool_push(void *pool, void *d, void *err) {
	ftask *t = calloc(1, sizeof(*t)), **q = &ftasks; (void) err;
	t->p = pool; t->d = d; while (*q) q = &(*q)->next; *q = t; nftasks++;
	return 1;
}
void g_thread_pool_free(void *pool, int immediate, int wait) { (void) immediate; (void) wait; while (ftasks) ftask_run(0); free(pool); }
int g_thread_pool_set_max_threads(void *pool, int n, void *err) { (void) err; ((fpool*) pool)->threads = n; return 1; }
int g_thread_pool_get_num_threads(void *pool) { return ((fpool*) pool)->threads; }

static volatile int log_epfd = -1, log_in_wait = 0;

/* execute script ops; returns when the loop should run again (1) */
static void run_script(void) {
	for (;;) {
		unsigned char op;
		if (spos >= slen) { if (started) finish(); else { started = 1; out_put('!', 0, NULL, 0); finish(); } next_script(); continue; }
		op = g8();
		switch (op) {
		case 'Q': return;
		case 'C': { /* connect client */
			int k = g8(), li = g8(), n = g8();
			char a[128]; int sv[2]; slot *s = &slots[k]; uint64_t one = 1; int port;
			memcpy(a, script + spos, n); a[n] = 0; spos += n;
			port = (int) g32();
			if (s->used) slot_free(s);
			memset(s, 0, sizeof(*s));
			s->used = 1; s->listener = li;
			mkpair(sv);
			s->ours = sv[0]; s->srv_fd = sv[1];
			if (strchr(a, ':')) {
				struct sockaddr_in6 *x = (void*) &s->peer;
				x->sin6_family = AF_INET6; x->sin6_port = htons(port); inet_pton(AF_INET6, a, &x->sin6_addr); s->peer_len = sizeof(*x);
			} else if (a[0] == 'u') {
				struct sockaddr_un *x = (void*) &s->peer; x->sun_family = AF_UNIX; s->peer_len = sizeof(sa_family_t);
			} else {
				struct sockaddr_in *x = (void*) &s->peer;
				x->sin_family = AF_INET; x->sin_port = htons(port); inet_pton(AF_INET, a, &x->sin_addr); s->peer_len = sizeof(*x);
			}
			if (li >= nlisteners || listeners[li].qn >= 64) die("bad listener");
			listeners[li].q[listeners[li].qn++] = k;
			r_write(listeners[li].evfd, &one, 8);
			break; }
		case 'S': { /* send */
			int k = g8(); uint32_t n = g32(); ssize_t r = 0;
			if (slots[k].used && slots[k].ours >= 0) {
				r = send(slots[k].ours, script + spos, n, MSG_DONTWAIT | MSG_NOSIGNAL);
			} else r = -1;
			if (r != (ssize_t) n) { int32_t rr = r < 0 ? -errno : r; out_put('s', k, &rr, 4); }
			spos += n;
			break; }
		case 'H': { int k = g8(); if (slots[k].used && slots[k].ours >= 0) r_shutdown(slots[k].ours, SHUT_WR); break; }
		case 'X': { int k = g8(); if (slots[k].used && slots[k].ours >= 0) { r_close(slots[k].ours); slots[k].ours = -1; } break; }
		case 'D': { int k = g8(); drain(k); break; }
		case 'T': { advance_left = gdbl(); if (advance_left > 0) return; break; }
		case 'P': { /* plan: slot, which, n, entries */
			int k = g8(), w = g8(), n = g8(), i; plan *p;
			p = k == 255 ? &connect_plan : k == 254 ? &log_plan : w == 'w' ? &slots[k].wplan : w == 'r' ? &slots[k].rplan : &slots[k].splan;
			plan_clear(p);
			p->v = malloc(sizeof(int32_t) * (n + 1)); p->n = n; p->pos = 0;
			for (i = 0; i < n; i++) p->v[i] = (int32_t) g32();
			break; }
		case 'M': { /* behaviour of connects to an address from now on */
			int n = g8(), i; char nm[64]; int32_t v;
			if (n > 63) die("address too long");
			for (i = 0; i < n; i++) nm[i] = (char) g8();
			nm[n] = 0;
			v = (int32_t) g32();
			for (i = 0; i < nconnmodes && strcmp(connmodes[i].name, nm); i++) ;
			if (i >= 64) die("too many addresses");
			if (i == nconnmodes) { nconnmodes++; strcpy(connmodes[i].name, nm); }
			connmodes[i].v = v;
			break; }
		case 'p': { /* remaining entries of a plan */
			int k = g8(), w = g8(); plan *p; int32_t rem;
			p = k == 255 ? &connect_plan : w == 'w' ? &slots[k].wplan : w == 'r' ? &slots[k].rplan : &slots[k].splan;
			rem = p->n - p->pos; out_put('p', k, &rem, 4);
			break; }
		case 'O': { /* complete pending backend connect: 0 ok, 1 fail */
			int k = g8(), how = g8(); unsigned char b[4096]; ssize_t r; int big = 4 << 20;
			if (!slots[k].used) break;
			if (how == 0) {
				while (slots[k].junk > 0) { r = r_read(slots[k].ours, b, slots[k].junk < (int) sizeof(b) ? (size_t) slots[k].junk : sizeof(b)); if (r <= 0) break; slots[k].junk -= r; }
				slots[k].pending = 0;
				if (slots[k].srv_fd >= 0) r_setsockopt(slots[k].srv_fd, SOL_SOCKET, SO_SNDBUF, &big, sizeof(big));
			} else { r_close(slots[k].ours); slots[k].ours = -1; slots[k].pending = 2; }
			break; }
		case 'I': { /* slot info */
			int k = g8(); unsigned char x[3] = { (unsigned char) slots[k].srv_closed, (unsigned char) slots[k].srv_shut, (unsigned char) slots[k].used };
			out_put('i', k, x, 3); break; }
		case 'Z': { /* reset scenario: close everything (harness side) */
			int i;
			for (i = 0; i < NSLOTS; i++) if (slots[i].used && slots[i].ours >= 0) { r_close(slots[i].ours); slots[i].ours = -1; plan_clear(&slots[i].wplan); plan_clear(&slots[i].rplan); plan_clear(&slots[i].splan); slots[i].pending = slots[i].pending ? 2 : 0; }
			plan_clear(&connect_plan);
			plan_clear(&log_plan);
			nconnmodes = 0;
			return; }
		case 'z': { /* after Z + Q (+T): count server fds still open, free slots, reset backend numbering */
			int i; int32_t leak = 0;
			for (i = 0; i < NSLOTS; i++) if (slots[i].used) { if (!slots[i].srv_closed && slots[i].srv_fd >= 0 && fdtab[slots[i].srv_fd].kind != K_NONE) { leak++; } }
			out_put('z', 0, &leak, 4);
			for (i = 0; i < NSLOTS; i++) slot_free(&slots[i]);
			nbackend = 0;
			break; }
		case 'A': { /* accept error */
			int li = g8(); int32_t e = (int32_t) g32(); uint64_t one = 1;
			listeners[li].q[listeners[li].qn++] = -e; r_write(listeners[li].evfd, &one, 8);
			break; }
		case 'L': { /* wait for the log thread to be idle */
			int tries = 0, calm = 0;
			while (tries++ < 20000 && calm < 3) {
				struct pollfd p = { .fd = log_epfd, .events = POLLIN };
				if (log_epfd < 0) break;
				if (log_in_wait && poll(&p, 1, 0) == 0) calm++; else calm = 0;
				if (calm < 3) usleep(50);
			}
			if (log_cap_n) { out_put('l', 0, log_cap, log_cap_n); log_cap_n = 0; }
			break; }
		case 'K': { /* fs control: mode, n, prefix */
			int m = g8(); int32_t n = (int32_t) g32(); int l = g8();
			memcpy(fs_prefix, script + spos, l); fs_prefix[l] = 0; spos += l;
			fsops = 0; fs_crash_at = fs_fault_at = -1; fs_trace = 0;
			if (m == 'c') fs_crash_at = n; else if (m == 'e') { fs_fault_at = n & 0xffff; fs_fault_err = n >> 16; } else if (m == 't') fs_trace = 1; else if (m == 's') fs_fault_at = -2;
			break; }
		case 'k': { int32_t n = fsops; out_put('k', 0, &n, 4); break; }
		case 'N': { /* number of listeners */ int32_t n = nlisteners; out_put('n', 0, &n, 4); break; }
		case 't': { double v = vt_real; out_put('t', 0, &v, 8); break; }
		case 'U': { /* run a pending task: 255 = all, 254 = only report */
			int k = g8(); int32_t n = nftasks;
			out_put('u', k, &n, 4);
			if (k == 255) while (ftasks) ftask_run(0); else if (k < 254) ftask_run(k);
			break; }
		case 'F': { /* change the file system: kind, path, other path or content */
			int kind = g8(), a = g8(), b = g8(); char x[256], y[256]; int r = -1, fd;
			memcpy(x, script + spos, a); x[a] = 0; spos += a; memcpy(y, script + spos, b); y[b] = 0; spos += b;
			switch (kind) {
			case 'w': fd = syscall(SYS_openat, AT_FDCWD, x, O_WRONLY|O_CREAT|O_TRUNC, 0644); if (fd >= 0) { r = syscall(SYS_write, fd, y, b); syscall(SYS_close, fd); } break;
			case 'u': r = syscall(SYS_unlinkat, AT_FDCWD, x, 0); break;
			case 't': r = truncate(x, atol(y)); break;
			case 'd': r = syscall(SYS_mkdirat, AT_FDCWD, x, 0755); break;
			case 'r': r = syscall(SYS_unlinkat, AT_FDCWD, x, AT_REMOVEDIR); break;
			case 'm': r = syscall(SYS_renameat2, AT_FDCWD, x, AT_FDCWD, y, 0); break;
			}
			if (r < 0) die("file system operation failed");
			break; }
		case 'G': { /* signal ourselves */ int sg = g8(); raise(sg); return; }
		case 'E': _exit(0);
		default: die("bad op");
		}
	}
}

int epoll_wait(int ep, struct epoll_event *ev, int max, int timeout) {
	int r;
	SYM(epoll_wait);
	if (!active) return r_epoll_wait(ep, ev, max, timeout);
	if (!is_main()) {
		log_epfd = ep;
		for (;;) {
			log_in_wait = timeout != 0; /* not blocking: a wakeup may be pending that the epoll fd does not show */
			r = r_epoll_wait(ep, ev, max, timeout <= 0 ? timeout : 20);
			log_in_wait = 0;
			if (r != 0 || timeout == 0) return r;
			/* virtual timers of other threads are checked every 20ms of real time */
			if (timeout > 0) return 0;
		}
	}
	for (;;) {
		r = r_epoll_wait(ep, ev, max, 0);
		if (r != 0) return r;
		if (timeout == 0) {
			/* polling with a timer that is due exactly now: libev needs the clock to move to fire it */
			vt_mono += 1e-6; vt_real += 1e-6;
			return 0;
		}
		if (advance_left > 0) {
			double step = advance_left;
			if (timeout > 0 && timeout / 1000.0 < step) step = timeout / 1000.0;
			vt_mono += step; vt_real += step; advance_left -= step;
			if (advance_left < 1e-9) advance_left = 0;
			return 0;
		}
		if (timeout == 1) {
			/* libev: a timer that is due "now" (li job queue uses 0s timers); time must move for it to fire */
			vt_mono += 0.001; vt_real += 0.001;
			return 0;
		}
		run_script();
	}
}
int epoll_pwait(int ep, struct epoll_event *ev, int max, int timeout, const sigset_t *s) { (void) s; return epoll_wait(ep, ev, max, timeout); }
