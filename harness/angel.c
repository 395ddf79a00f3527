/* C21 harness: the angel (lighttpd2 supervisor) with workers played by the harness.
 * fork, waitpid, kill, bind, listen, unlink and open are replaced by stand-ins that only record what was asked for,
 * everything else (event loop, instance state machine, message protocol over real socket pairs) is the real code.
 *
 * usage: angel life <depth> <misbehave 0/1> <shard> <nshards>     all histories of up to <depth> events
 *        angel msgs <n> <shard> <nshards>                         sequences of messages and cuts of the byte stream
 *        angel acl <shard> <nshards>                              listen requests x configured masks
 *        angel one <mode> <history>                               replay */
#include <lighttpd/angel_base.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <stdarg.h>
#include <sys/syscall.h>

#define MAXW 40
#define MAGIC ((gint32) 0x8a930a9f)

typedef struct {
	int pid, fd, efd, alive, conn, termed;
	int reported;          /* last reported state, 0 = none */
	int ever;              /* bits of the reported states */
	int warmup, run;       /* number of messages received */
	int results, lastid, lasterr;
	GString *log; /* results: id:error:descriptors; */
	ino_t lastino;
	int lastfds;
	int eof, mis;
	GString *in;
	gint32 hdr[8];
	int need_fds;
} W;
enum { SUSPENDED = 1, WARMUP = 2, RUNNING = 3, SUSPENDING = 4 };
static const char *names[] = { "", "suspended", "warmup", "running", "suspending" };

static struct shared { int nmoves; char moves[64][4]; char bad[3000]; long trans; int done; } *sh;

static W w[MAXW];
static int nw, angel_mode, fork_fail, lastconf = -1, lastpipe = -1;
static int dead_pid[8], dead_status[8], ndead;
static int nforks, nkills, binds, opens;
static char lastopen[300], lastbind[300], lastunlink[300];
static ino_t bound_ino;
static liServer *srv;
static int stopped, mode_mis, mode_listen;
static struct { const char *name; ino_t ino; unsigned holders; } addrs[2] = { { "127.0.0.1" }, { "[::1]:443" } };
static int cur_inst = 0, repl_inst = -1, next_inst = 1;
static void drop_inst(int i) { if (i >= 0) { addrs[0].holders &= ~(1u << i); addrs[1].holders &= ~(1u << i); } }
static int calls;
static long trans;

static void bad(const char *fmt, ...) {
	va_list ap;
	if (sh->bad[0]) return;
	va_start(ap, fmt);
	vsnprintf(sh->bad, sizeof(sh->bad), fmt, ap);
	va_end(ap);
}

/* --- stand-ins */
static pid_t real_fork(void) { static pid_t (*f)(void); if (!f) f = dlsym(RTLD_NEXT, "fork"); return f(); }
pid_t fork(void) {
	if (!angel_mode) return real_fork();
	if (fork_fail) { fork_fail = 0; if (lastconf >= 0) close(lastconf); if (lastpipe >= 0) close(lastpipe); lastconf = lastpipe = -1; errno = EAGAIN; return -1; }
	nforks++;
	if (nw >= MAXW) { bad("too many workers started"); errno = EAGAIN; return -1; }
	memset(&w[nw], 0, sizeof(w[nw]));
	w[nw].pid = 5000000 + nw; w[nw].fd = lastconf; w[nw].efd = lastpipe; w[nw].alive = w[nw].conn = 1;
	w[nw].in = g_string_new(""); w[nw].log = g_string_new("");
	if (lastconf < 0) bad("worker started without a connection");
	lastconf = lastpipe = -1;
	return w[nw++].pid;
}
pid_t waitpid(pid_t pid, int *status, int options) {
	static pid_t (*f)(pid_t, int*, int);
	int i;
	if (!f) f = dlsym(RTLD_NEXT, "waitpid");
	if (!angel_mode) return f(pid, status, options);
	for (i = 0; i < ndead; i++) if (pid == -1 || pid == dead_pid[i]) {
		int p = dead_pid[i];
		if (status) *status = dead_status[i];
		memmove(dead_pid + i, dead_pid + i + 1, sizeof(int) * (ndead - i - 1));
		memmove(dead_status + i, dead_status + i + 1, sizeof(int) * (ndead - i - 1));
		ndead--;
		return p;
	}
	return 0;
}
int kill(pid_t pid, int sig) {
	int i;
	if (!angel_mode) return syscall(SYS_kill, pid, sig);
	nkills++;
	for (i = 0; i < nw; i++) if (w[i].pid == pid) {
		if (!w[i].alive) bad("signal %d for the dead worker %d", sig, i);
		if (sig == SIGTERM) w[i].termed++;
		else if (sig != 0) bad("unexpected signal %d for worker %d", sig, i);
		return 0;
	}
	bad("kill(%d, %d)", (int) pid, sig);
	errno = ESRCH;
	return -1;
}
int socketpair(int d, int t, int p, int sv[2]) {
	static int (*f)(int, int, int, int*);
	int r;
	if (!f) f = dlsym(RTLD_NEXT, "socketpair");
	r = f(d, t, p, sv);
	if (r == 0 && angel_mode) { int sz = 1; setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz)); if (lastconf >= 0) close(lastconf); lastconf = fcntl(sv[1], F_DUPFD, 200); }
	return r;
}
int pipe(int fds[2]) {
	static int (*f)(int*);
	int r;
	if (!f) f = dlsym(RTLD_NEXT, "pipe");
	r = f(fds);
	if (r == 0 && angel_mode) { if (lastpipe >= 0) close(lastpipe); lastpipe = fcntl(fds[1], F_DUPFD, 200); }
	return r;
}
int bind(int fd, const struct sockaddr *a, socklen_t l) {
	struct stat st;
	char b[100];
	binds++;
	fstat(fd, &st); bound_ino = st.st_ino;
	if (a->sa_family == AF_INET) { inet_ntop(AF_INET, &((struct sockaddr_in*) a)->sin_addr, b, sizeof(b)); snprintf(lastbind, sizeof(lastbind), "%s:%d", b, ntohs(((struct sockaddr_in*) a)->sin_port)); }
	else if (a->sa_family == AF_INET6) { inet_ntop(AF_INET6, &((struct sockaddr_in6*) a)->sin6_addr, b, sizeof(b)); snprintf(lastbind, sizeof(lastbind), "[%s]:%d", b, ntohs(((struct sockaddr_in6*) a)->sin6_port)); }
	else snprintf(lastbind, sizeof(lastbind), "unix:%.*s", (int) (l - offsetof(struct sockaddr_un, sun_path)), ((struct sockaddr_un*) a)->sun_path);
	return 0;
}
int listen(int fd, int n) { return 0; }
int unlink(const char *p) { snprintf(lastunlink, sizeof(lastunlink), "%s", p); errno = ENOENT; return -1; }
static int real_open(const char *p, int fl, int m) { return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open(const char *p, int fl, ...) {
	va_list ap; int m; va_start(ap, fl); m = va_arg(ap, int); va_end(ap);
	if (angel_mode && (fl & (O_CREAT | O_WRONLY | O_RDWR))) { opens++; snprintf(lastopen, sizeof(lastopen), "%s", p); return real_open("/dev/null", O_RDWR, 0); }
	return real_open(p, fl, m);
}
int open_plain(const char *p, int fl, ...) __asm__("open");
int open_plain(const char *p, int fl, ...) {
	va_list ap; int m; va_start(ap, fl); m = va_arg(ap, int); va_end(ap);
	if (angel_mode && (fl & (O_CREAT | O_WRONLY | O_RDWR))) { opens++; snprintf(lastopen, sizeof(lastopen), "%s", p); return real_open("/dev/null", O_RDWR, 0); }
	return real_open(p, fl, m);
}

/* --- workers */
static int recv_n(W *x, int fd, char *buf, int n) { return recv(fd, buf, n, MSG_DONTWAIT); }
static int drain(W *x) {  /* returns number of bytes */
	int total = 0;
	if (x->fd < 0 || !x->conn) return 0;
	for (;;) {
		int have = x->in->len, want;
		if (x->need_fds > 0) {
			char c, cb[CMSG_SPACE(sizeof(int) * 4)];
			struct iovec iov = { &c, 1 };
			struct msghdr m = { 0 };
			struct cmsghdr *cm;
			int r;
			m.msg_iov = &iov; m.msg_iovlen = 1; m.msg_control = cb; m.msg_controllen = sizeof(cb);
			r = recvmsg(x->fd, &m, MSG_DONTWAIT);
			if (r <= 0) { if (r == 0) x->eof = 1; return total; }
			total += r;
			cm = CMSG_FIRSTHDR(&m);
			if (!cm || cm->cmsg_type != SCM_RIGHTS) { bad("expected a descriptor"); return total; }
			{ int fd; struct stat st; memcpy(&fd, CMSG_DATA(cm), sizeof(fd)); fstat(fd, &st); x->lastino = st.st_ino; x->lastfds++; close(fd); }
			x->need_fds--;
			continue;
		}
		if (have < 32) want = 32 - have;
		else want = 32 + x->hdr[3] + x->hdr[4] + x->hdr[5] + x->hdr[6] - have;
		if (want > 0) {
			char buf[4096];
			int r = recv_n(x, x->fd, buf, want > 4096 ? 4096 : want);
			if (r <= 0) { if (r == 0) x->eof = 1; return total; }
			g_string_append_len(x->in, buf, r);
			total += r;
			if (x->in->len == 32) memcpy(x->hdr, x->in->str, 32);
			if (x->in->len == 32 && x->hdr[0] != MAGIC) { bad("message from the angel with a wrong magic"); return total; }
			if (x->in->len >= 32 && x->in->len == 32 + x->hdr[3] + x->hdr[4] + x->hdr[5] + x->hdr[6]) {
				if (x->hdr[1] == 3) { x->results++; x->lastid = x->hdr[2]; x->lasterr = x->hdr[5] > 0; x->lastfds = 0; x->lastino = 0; x->need_fds = x->hdr[7]; g_string_append_printf(x->log, "%d:%d:%d;", x->lastid, x->lasterr, x->need_fds); }
				else if (x->hdr[1] == 1) {
					GString *s = g_string_new_len(x->in->str + 32, x->in->len - 32);
					if (0 == strcmp(s->str, "corewarmup")) x->warmup++;
					else if (0 == strcmp(s->str, "corerun")) x->run++;
					else bad("unexpected message '%s'", s->str);
					g_string_free(s, TRUE);
				} else bad("unexpected message type %d", x->hdr[1]);
				g_string_truncate(x->in, 0);
			}
		}
	}
}
static int ended; /* the event loop ended */
static void settle(void) {
	int idle = 0, i, guard = 0;
	while (idle < 4 && guard++ < 400) {
		int act = nforks + nkills, got = 0;
		trans++;
		if (!ended) ev_run(srv->loop.loop, EVRUN_NOWAIT);
		for (i = 0; i < nw; i++) got += drain(&w[i]);
		if (got || act != nforks + nkills || ndead) idle = 0; else idle++;
	}
	if (guard >= 400) bad("the angel never becomes idle");
}
static GString *msg(int type, int id, const char *mod, const char *action, const char *error, const char *data, int datalen, int fds) {
	GString *s = g_string_new("");
	gint32 h[8] = { MAGIC, type, id, strlen(mod), strlen(action), strlen(error), datalen, fds };
	g_string_append_len(s, (char*) h, 32);
	g_string_append(s, mod); g_string_append(s, action); g_string_append(s, error); g_string_append_len(s, data, datalen);
	return s;
}
static void wsend(W *x, const char *p, int n) { if (x->conn && x->fd >= 0) { if (n != send(x->fd, p, n, MSG_NOSIGNAL | MSG_DONTWAIT)) {} } }
static void report(W *x, int st) {
	GString *s = msg(1, -1, "core", "reached-state", "", names[st], strlen(names[st]), 0);
	x->reported = st; if (x->conn && !x->eof) x->ever |= 1 << st;
	wsend(x, s->str, s->len);
	g_string_free(s, TRUE);
}
static void wclose(W *x) { if (x->fd >= 0) { close(x->fd); x->fd = -1; } x->conn = 0; }
static void die(W *x, int status) {
	wclose(x);
	if (x->efd >= 0) { close(x->efd); x->efd = -1; }
	x->alive = 0;
	dead_pid[ndead] = x->pid; dead_status[ndead] = status; ndead++;
	raise(SIGCHLD);
}

/* --- reference: which worker belongs to which role */
static int cur = -1, repl = -1;      /* worker index of the process of the instance, -1 = none */
static int cur_gone, repl_set;       /* cur_gone: the instance gave up; repl_set: a replacement is under way */
static int cur_fin, repl_fin;        /* told to stop */
static int repl_run;                 /* the replacement was told to run */
static int want_forks;

static void start_angel(const char *conf) {
	FILE *f;
	char name[64];
	snprintf(name, sizeof(name), "angel-%d.conf", (int) getpid());
	f = fopen(name, "w"); fputs(conf, f); fclose(f);
	srv = li_server_new(".", FALSE);
	angel_mode = 1;
	if (!li_plugins_config_load(srv, name)) bad("configuration refused");
	angel_mode = 1;
	syscall(SYS_unlink, name);
}
static int alive_count(void) { int i, n = 0; for (i = 0; i < nw; i++) n += w[i].alive; return n; }

static int open_ino(ino_t ino) {
	int fd;
	struct stat st;
	for (fd = 3; fd < 150; fd++) if (0 == fstat(fd, &st) && S_ISSOCK(st.st_mode) && st.st_ino == ino) return 1;
	return 0;
}
/* what must have happened until now */
static void verify(const char *at) {
	int i;
	if (mode_listen) for (i = 0; i < 2; i++) if (addrs[i].ino) {
		if (addrs[i].holders && !open_ino(addrs[i].ino)) { bad("%s: the listening socket for %s is gone", at, addrs[i].name); return; }
		if (!addrs[i].holders) { if (open_ino(addrs[i].ino)) { bad("%s: the listening socket for %s is still open though no instance uses it", at, addrs[i].name); return; } addrs[i].ino = 0; }
	}
	if (nforks != want_forks) { bad("%s: %d workers were started, expected %d", at, nforks, want_forks); return; }
	for (i = 0; i < nw; i++) if (w[i].alive) {
		int fin = (i == cur && cur_fin) || (i == repl && repl_fin) || stopped;
		if (fin && !w[i].termed) { bad("%s: worker %d was not told to stop", at, i); return; }
		if (w[i].termed > 1 && w[i].conn && !w[i].eof) { bad("%s: worker %d got SIGTERM %d times", at, i, w[i].termed); return; }
		if (i != cur && i != repl) { bad("%s: worker %d is left over", at, i); return; }
	}
}
static void finished_repl(void) { /* the replacement gave up: the old worker goes on */
	repl = -1; repl_set = 0; repl_fin = 0; cur_fin = 0;
	if (cur_gone) { cur_fin = 1; drop_inst(cur_inst); cur_inst = repl_inst; } else drop_inst(repl_inst);
	repl_inst = -1;
	if (cur_gone) ;
	else if (cur >= 0 && w[cur].alive) w[cur].termed = 0;
}
static void finished_cur(void) {
	if (repl_set) { drop_inst(cur_inst); cur_inst = repl_inst; repl_inst = -1; cur = repl; cur_fin = repl_fin; cur_gone = (cur < 0); repl = -1; repl_set = 0; repl_fin = 0; }
	else { cur = -1; cur_gone = 1; cur_fin = 1; if (stopped) drop_inst(cur_inst); }
}

static int coop_step(W *x);
static void step(const char *mv) {
	int i = mv[1] ? atoi(mv + 1) : -1, old_run, r_run, was_cur_termed = 0;
	W *x = i >= 0 ? &w[i] : NULL;
	char at[64];
	snprintf(at, sizeof(at), "after %s", mv);
	old_run = cur >= 0 ? w[cur].run : 0;
	r_run = repl >= 0 ? w[repl].run : 0;
	switch (mv[0]) {
	case 'S': case 'W': case 'R': case 'G': {
		int st = mv[0] == 'S' ? SUSPENDED : mv[0] == 'W' ? WARMUP : mv[0] == 'R' ? RUNNING : SUSPENDING;
		int crun = cur >= 0 ? w[cur].run : 0, rrun = repl >= 0 ? w[repl].run : 0, cterm = cur >= 0 ? w[cur].termed : 0;
		int ok = x->conn && !x->eof;
		if (coop_step(x) != mv[0]) x->mis = 1;
		if (ok && i == repl && st == WARMUP && !stopped) { was_cur_termed = 1; if (cur >= 0) cur_fin = 1; }
		report(x, st);
		settle();
		if (was_cur_termed && cur_gone) finished_cur(); /* nobody to wait for */
		if (i != repl && cur >= 0 && w[cur].termed > cterm && !stopped) bad("%s: the old worker was told to stop", at);
		if (ok && i == cur && st == SUSPENDED) repl_run = 1;
		if (repl >= 0 && w[repl].run > rrun && !repl_run) bad("%s: the new worker was told to run while the old one still runs", at);
		if (ok && !stopped && i == cur && st == SUSPENDED && !cur_fin && w[cur].run != crun + 1) bad("%s: the worker was not told to run", at);
		if (ok && !stopped && i == repl && st == SUSPENDED && !repl_fin && w[repl].warmup + w[repl].run < 1) bad("%s: the new worker was told nothing", at);
		break;
	}
	case 'x': case 'e': case 'k':
		die(x, mv[0] == 'x' ? 0 : mv[0] == 'e' ? 0x100 : SIGSEGV);
		if (i == cur) {
			if (stopped || cur_fin || !x->ever) finished_cur();
			else { want_forks++; cur = fork_fail ? -1 : nw; if (fork_fail) { want_forks--; finished_cur(); } }
		} else if (i == repl) {
			if (stopped) { drop_inst(repl_inst); repl = -1; repl_set = 0; }
			else if (!x->ever || repl_fin) finished_repl();
			else { want_forks++; repl = fork_fail ? -1 : nw; if (fork_fail) { want_forks--; finished_repl(); } }
		}
		settle();
		break;
	case 'l': case 'm': {
		int a = mv[0] == 'm', b0 = binds, fdn = x->results;
		GString *s = msg(2, calls++, "core", "listen", "", addrs[a].name, strlen(addrs[a].name), 0);
		wsend(x, s->str, s->len); g_string_free(s, TRUE);
		settle();
		if (stopped) break; /* the plugins may be gone */
		if (x->results != fdn + 1 || x->lastid != calls - 1 || x->lasterr || x->lastfds != 1) { bad("%s: listen request answered with %d results, id %d, error %d, %d descriptors", at, x->results - fdn, x->lastid, x->lasterr, x->lastfds); break; }
		if (addrs[a].holders) { if (binds != b0 || x->lastino != addrs[a].ino) bad("%s: listen request for an address in use: not the same socket", at); }
		else if (binds != b0 + 1 || x->lastino != bound_ino || 0 != strcmp(lastbind, a ? "[::1]:443" : "127.0.0.1:80")) bad("%s: listen request: %d binds, last to %s", at, binds - b0, lastbind);
		else addrs[a].ino = bound_ino;
		addrs[a].holders |= 1u << (i == cur ? cur_inst : repl_inst);
		break;
	}
	case 'c': wclose(x); settle(); break;
	case 'g': x->mis = 1; wsend(x, "garbage garbage garbage garbage garbage garbage ", 48); settle(); break;
	case 'H':
		if (!stopped && !repl_set) { if (fork_fail) { if (cur_gone) { drop_inst(cur_inst); cur_inst = next_inst++; } } else { want_forks++; repl_set = 1; repl_run = 0; repl = nw; repl_inst = next_inst++; } }
		raise(SIGHUP); settle();
		break;
	case 'T':
		stopped = 1;
		if (cur_gone) drop_inst(cur_inst);
		raise(SIGTERM); settle();
		break;
	case 'F': fork_fail = 1; break;
	}
	verify(at);
}

/* every worker does what it was told until nothing is left to do */
static int coop_step(W *x) { /* next thing a worker that behaves does; 0 = nothing */
	if (!x->alive) return 0;
	if (!x->conn) return 'k';       /* lost its connection: aborts */
	if (x->eof) return 'k';
	if (x->termed) return (x->reported == RUNNING || x->reported == WARMUP) ? 'G' : x->reported == SUSPENDING ? 'S' : 'x';
	if (!x->reported) return 'S';
	if (x->run) return x->reported == SUSPENDED ? 'W' : x->reported != RUNNING ? 'R' : 0;
	if (x->warmup && x->reported == SUSPENDED) return 'W';
	return 0;
}
static void cooperate(void) {
	int i, any = 1, guard = 0;
	while (any && guard++ < 60 && !sh->bad[0]) {
		any = 0;
		for (i = 0; i < nw && !sh->bad[0]; i++) {
			int c = coop_step(&w[i]);
			char mv[16];
			if (!c) continue;
			snprintf(mv, sizeof(mv), "%c%d", c, i);
			step(mv);
			any = 1;
		}
	}
	if (guard >= 60) bad("the workers never come to rest");
}
static int fd_list(char *out, int max) {
	DIR *d = opendir("/proc/self/fd");
	struct dirent *e;
	int n = 0;
	out[0] = 0;
	while ((e = readdir(d))) {
		char l[200], p[60];
		int r, fd = atoi(e->d_name);
		if (e->d_name[0] == '.' || fd == dirfd(d)) continue;
		snprintf(p, sizeof(p), "/proc/self/fd/%d", fd);
		r = readlink(p, l, sizeof(l) - 1); l[r > 0 ? r : 0] = 0;
		if (strstr(l, "eventpoll") || strstr(l, "eventfd") || strstr(l, "timerfd") || strstr(l, "signalfd")) continue; /* kept by the event library */
		n++;
		if ((int) strlen(out) + 80 < max) sprintf(out + strlen(out), " %d=%.50s", fd, l);
	}
	closedir(d);
	return n;
}
static void enabled(void) {
	int i, n = 0;
	char (*m)[4] = sh->moves;
	for (i = 0; i < nw && n < 50; i++) {
		int c;
		if (!w[i].alive) continue;
		c = coop_step(&w[i]);
		if (mode_mis) {
			if (w[i].conn) { const char *a = "SWRGcg"; for (; *a; a++) sprintf(m[n++], "%c%d", *a, i); }
			sprintf(m[n++], "x%d", i); sprintf(m[n++], "e%d", i);
		} else if (mode_listen) {
			if (c && c != 'x' && c != 'k') sprintf(m[n++], "%c%d", c, i);
			if (w[i].conn && !stopped) { sprintf(m[n++], "l%d", i); sprintf(m[n++], "m%d", i); }
			sprintf(m[n++], "k%d", i);
		} else {
			if (c && c != 'x' && c != 'k') sprintf(m[n++], "%c%d", c, i);
			if (w[i].conn) sprintf(m[n++], "c%d", i);
			sprintf(m[n++], "x%d", i); sprintf(m[n++], "k%d", i);
		}
	}
	if (!stopped) { strcpy(m[n++], "H"); strcpy(m[n++], "T"); if (!fork_fail) strcpy(m[n++], "F"); }
	sh->nmoves = n;
}

static void finish(int nfd0) {
	char fds[3000];
	int last, i;
	if (!stopped) {
		fork_fail = 0;
		for (i = 0; i < nw && !sh->bad[0]; i++) if (w[i].alive && w[i].mis) { char mv[16]; snprintf(mv, sizeof(mv), "k%d", i); step(mv); }
		cooperate();
		if (sh->bad[0]) return;
		if (cur >= 0) {
			if (alive_count() != 1 || !w[cur].alive || w[cur].reported != RUNNING || !w[cur].run) { bad("when all workers have done what they were told %d are alive, worker %d in state '%s', told to run %d times", alive_count(), cur, names[w[cur].reported], w[cur].run); return; }
		} else if (alive_count() != 0) { bad("a worker is left over"); return; }
		/* a graceful restart brings a new worker */
		last = nw;
		step("H");
		cooperate();
		if (sh->bad[0]) return;
		if (nw != last + 1 || alive_count() != 1 || !w[last].alive || w[last].reported != RUNNING || !w[last].run) { bad("SIGHUP afterwards: %d workers started, %d alive, the new one in state '%s'", nw - last, alive_count(), nw > last ? names[w[last].reported] : "-"); return; }
		step("T");
	}
	cooperate();
	if (sh->bad[0]) return;
	if (alive_count()) { bad("SIGTERM: workers are left"); return; }
	/* all workers are gone: the angel ends */
	alarm(5);
	ev_run(srv->loop.loop, 0);
	ended = 1;
	li_server_free(srv);
	angel_mode = 0;
	for (i = 0; i < nw; i++) { if (w[i].fd >= 0) close(w[i].fd); if (w[i].efd >= 0) close(w[i].efd); }
	if (fd_list(fds, sizeof(fds)) != nfd0) bad("descriptors are left open:%s", fds);
}

static int base_fds(void) { char b[3000]; return fd_list(b, sizeof(b)); }

/* --- histories */
static void run_life(const char *hist) {
	int n0 = base_fds();
	char mv[8];
	const char *p = hist;
	start_angel("config \"x\";\n");
	want_forks = 1; cur = 0;
	settle();
	verify("at the start");
	while (*p && !sh->bad[0]) {
		int k = 0;
		while (*p == ' ') p++;
		while (*p && *p != ' ' && k < 7) mv[k++] = *p++;
		mv[k] = 0;
		if (k) step(mv);
	}
	if (sh->bad[0]) return;
	enabled();
	if (sh->bad[0]) return;
	finish(n0);
}

/* --- cases from a file
 * M <chunk>,<chunk>... <results> <closed 0/1/2=any>      byte stream of worker 0 in chunks (hex)
 * L <conf> <address> <bind or -> [<address> <bind> ...]  listen requests (hex fields)
 * O <path> <opened path or ->                            log files */
static GString *unhex(const char *h) {
	GString *s = g_string_new("");
	for (; h[0] && h[1] && h[0] != ','; h += 2) { unsigned v; char t[3] = { h[0], h[1], 0 }; sscanf(t, "%x", &v); g_string_append_c(s, v); }
	return s;
}
static void run_case(const char *line) {
	int n0 = base_fds(), i;
	char **f = g_strsplit(line, " ", -1);
	GString *conf = f[0][0] == 'L' ? unhex(f[1]) : g_string_new("");
	g_string_append(conf, "config \"x\";\n");
	start_angel(conf->str);
	if (sh->bad[0]) return;
	want_forks = 1; cur = 0;
	settle();
	step("S0");
	if (f[0][0] == 'M') {
		char **c = g_strsplit(f[1], ",", -1);
		for (i = 0; c[i]; i++) {
			GString *s = unhex(c[i]);
			int pos = 0, guard = 0;
			while (pos < (int) s->len && guard++ < 2000) {
				int r = send(w[0].fd, s->str + pos, s->len - pos, MSG_NOSIGNAL | MSG_DONTWAIT);
				if (r > 0) pos += r;
				settle();
				if (r < 0 && errno != EAGAIN) break;
			}
			g_string_free(s, TRUE);
		}
		settle();
		/* answers that were not sent yet are lost when the connection is closed */
		if (f[3][0] == '1' ? 0 != strncmp(w[0].log->str, f[2], w[0].log->len) : 0 != strcmp(w[0].log->str, f[2][0] == '-' ? "" : f[2])) bad("answers '%s', expected '%s'", w[0].log->str, f[2]);
		else if (f[3][0] != '2' && w[0].eof != (f[3][0] == '1')) bad("connection %s", w[0].eof ? "closed" : "not closed");
		if (nforks != 1 || nkills != 0) bad("%d forks, %d kills", nforks, nkills);
		w[0].mis = 1;
		w[0].ever |= 2;
	} else if (f[0][0] == 'L') {
		for (i = 2; f[i] && f[i][0]; i += 2) {
			GString *a = unhex(f[i]), *want = f[i+1][0] == '-' ? NULL : unhex(f[i+1]), *m = msg(2, i, "core", "listen", "", a->str, a->len, 0);
			int b0 = binds, r0 = w[0].results;
			lastbind[0] = lastunlink[0] = 0;
			wsend(&w[0], m->str, m->len);
			settle();
			if (w[0].results != r0 + 1 || w[0].lastid != i) { bad("listen '%s': no answer", a->str); return; }
			if (want) { if (w[0].lasterr || w[0].lastfds != 1 || binds != b0 + 1 || 0 != strcmp(want->str, lastbind) || w[0].lastino != bound_ino) { bad("listen '%s': error %d, %d descriptors, bound to '%s', expected '%s'", a->str, w[0].lasterr, w[0].lastfds, lastbind, want->str); return; }
				if (0 == strncmp(want->str, "unix:", 5) && 0 != strcmp(want->str + 5, lastunlink)) bad("listen '%s' removed '%s'", a->str, lastunlink); }
			else if (!w[0].lasterr || w[0].lastfds || binds != b0 || lastunlink[0]) { bad("listen '%s' must be refused: error %d, %d descriptors, bound to '%s', removed '%s'", a->str, w[0].lasterr, w[0].lastfds, lastbind, lastunlink); return; }
		}
	} else if (f[0][0] == 'O') {
		GString *a = unhex(f[1]), *want = f[2][0] == '-' ? NULL : unhex(f[2]), *m = msg(2, 7, "core", "log-open-file", "", a->str, a->len, 0);
		int o0 = opens;
		wsend(&w[0], m->str, m->len);
		settle();
		if (w[0].results != 1 || w[0].lastid != 7) bad("log-open-file '%s': no answer", a->str);
		else if (want) { if (w[0].lasterr || w[0].lastfds != 1 || opens != o0 + 1 || 0 != strcmp(want->str, lastopen)) bad("log-open-file '%s': error %d, %d descriptors, %d opened, last '%s'", a->str, w[0].lasterr, w[0].lastfds, opens - o0, lastopen); }
		else if (!w[0].lasterr || w[0].lastfds || opens != o0) bad("log-open-file '%s' must be refused: error %d, %d descriptors, %d opened: '%s'", a->str, w[0].lasterr, w[0].lastfds, opens - o0, lastopen);
	}
	if (sh->bad[0]) return;
	finish(n0);
}

static void alrm(int s) { static const char t[] = "hangs"; strcpy(sh->bad, t); _exit(3); }
static int verbose;
static void (*runner)(const char *);
static int exec1(const char *hist) {
	pid_t p;
	int st;
	memset(sh, 0, sizeof(*sh));
	fflush(stdout);
	p = real_fork();
	if (p == 0) {
		if (!verbose) { int d = real_open("/dev/null", O_WRONLY, 0); dup2(d, 2); close(d); }
		signal(SIGALRM, alrm);
		alarm(20);
		trans = 0;
		runner(hist);
		sh->trans = trans;
		sh->done = 1;
		_exit(0);
	}
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
	if (!sh->bad[0] && (!sh->done || st)) snprintf(sh->bad, sizeof(sh->bad), "the angel crashed: wait status %d", st);
	return sh->bad[0] != 0;
}
static long execs, total;
static int nbad, shard, nshards;
static void report_bad(const char *mode, const char *h) {
	printf("BAD %s history '%s': %s\n", mode, h, sh->bad);
	fflush(stdout);
	if (!verbose && nbad++ < 2) { verbose = 1; exec1(h); verbose = 0; }
}
static void dfs(const char *hist, int depth, int max, const char *mode) {
	static long c1;
	int i, n;
	char moves[64][4];
	if (nbad >= 3) return;
	if (depth >= 2 || shard == 0) {
		execs++;
	}
	if (exec1(hist)) { if (depth >= 2 || shard == 0) report_bad(mode, hist); return; }
	total += sh->trans;
	if (depth == max) return;
	n = sh->nmoves;
	memcpy(moves, sh->moves, sizeof(moves));
	for (i = 0; i < n; i++) {
		char h[300];
		if (depth == 1 && (c1++ % nshards) != shard) continue;
		snprintf(h, sizeof(h), "%s%s%s", hist, *hist ? " " : "", moves[i]);
		dfs(h, depth + 1, max, mode);
	}
}

int main(int argc, char **argv) {
	const char *mode = argc > 1 ? argv[1] : "";
	int d = real_open("/dev/null", O_RDWR, 0), i;
	for (i = 3; i < 64; i++) close(i);
	sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (0 == strcmp(mode, "life")) {
		mode_mis = atoi(argv[3]) == 1; mode_listen = atoi(argv[3]) == 2; shard = atoi(argv[4]); nshards = atoi(argv[5]);
		runner = run_life;
		dfs(argc > 6 ? argv[6] : "", 0, atoi(argv[2]), mode_mis ? "misbehaving workers:" : mode_listen ? "listening:" : "workers:");
	} else if (0 == strcmp(mode, "file")) {
		FILE *f = fopen(argv[2], "r");
		char *line = NULL;
		size_t cap = 0;
		long n = 0;
		shard = atoi(argv[3]); nshards = atoi(argv[4]);
		runner = run_case;
		verbose = argc > 5;
		while (getline(&line, &cap, f) > 0 && nbad < 3) {
			if (n++ % nshards != shard) continue;
			line[strcspn(line, "\n")] = 0;
			execs++;
			if (exec1(line)) report_bad("case", line);
			total += sh->trans;
		}
		fclose(f);
	} else if (0 == strcmp(mode, "one")) {
		mode_mis = atoi(argv[2]) == 1; mode_listen = atoi(argv[2]) == 2;
		runner = run_life;
		verbose = 1;
		if (exec1(argv[3])) printf("BAD %s\n", sh->bad);
		printf("moves:"); for (i = 0; i < sh->nmoves; i++) printf(" %s", sh->moves[i]); printf("\n");
		execs = 1;
	}
	printf("OK %ld %ld\n", execs, total);
	fflush(stdout);
	_exit(nbad ? 1 : 0);
}
