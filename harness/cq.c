/* C09 harness: all operation sequences on two chunkqueues against a byte string model
 * args: <depth> <menu> <faultmode> <part> <parts> */
#include <lighttpd/base.h>
#include <dlfcn.h>
#include <dirent.h>
#include <sys/stat.h>
#include <fcntl.h>

/* ---- fault injection for file reads */
static int fault; /* 0 none, 1 EINTR once per read, 2 one byte at a time, 3: pread number fault_at fails with EIO */
static int fault_at, npread, eio_hit;
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
	static ssize_t (*r)(int, void*, size_t, off_t);
	static int flip;
	if (!r) r = (void*) dlsym(RTLD_NEXT, "pread64");
	if (fault == 1 && (flip = !flip)) { errno = EINTR; return -1; }
	if (fault == 2 && n > 1) n = 1;
	if (fault == 3 && npread++ == fault_at) { eio_hit = 1; errno = EIO; return -1; }
	return r(fd, b, n, o);
}

#define MAXB 256
typedef struct { unsigned char d[MAXB]; short tmp[MAXB]; int n; } model;

static char dir[256];
static GString *fname;             /* ordinary file */
static unsigned char fdata[64];
static model M[2];
static liChunkQueue *Q[2];
static liChunkFile *shared;
static liCQLimit *LIM;             /* limit shared by queues with lim[q] */
static gboolean lim[2], lock_model;
static int locks;
static unsigned char ctr;
static int ntmp;
static GString *tmpname[32];
static unsigned char tmpkey[32];
static char trace[512];
static long long execs, trans;

#define BAD(...) do { printf("BAD after%s: ", trace); printf(__VA_ARGS__); printf("\n"); fflush(stdout); exit(1); } while (0)

static void limit_cb(gpointer ctx, gboolean locked) {
	if (locked == lock_model) BAD("limit callback repeated state %d", locked);
	lock_model = locked;
	locks++;
}

static void madd(int q, unsigned char c, int tmp) { M[q].d[M[q].n] = c; M[q].tmp[M[q].n] = tmp; M[q].n++; }
static void mmove(int to, int from, int n) {
	int i;
	if (n > M[from].n) n = M[from].n;
	for (i = 0; i < n; i++) madd(to, M[from].d[i], M[from].tmp[i]);
	memmove(M[from].d, M[from].d + n, M[from].n - n);
	memmove(M[from].tmp, M[from].tmp + n, sizeof(short) * (M[from].n - n));
	M[from].n -= n;
}
static void mskip(int q, int n) {
	if (n > M[q].n) n = M[q].n;
	memmove(M[q].d, M[q].d + n, M[q].n - n);
	memmove(M[q].tmp, M[q].tmp + n, sizeof(short) * (M[q].n - n));
	M[q].n -= n;
}

static int mktmp(int len, int *fd) {
	GString *s = g_string_new(dir);
	int i, f;
	g_string_append_printf(s, "/t%d", ntmp);
	f = open(s->str, O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (f < 0) abort();
	tmpkey[ntmp] = ctr;
	for (i = 0; i < len; i++) { unsigned char c = ctr++; if (1 != write(f, &c, 1)) abort(); }
	tmpname[ntmp] = s;
	if (fd) *fd = f; else close(f);
	return ntmp++;
}

static int exists(GString *s) { struct stat st; return 0 == stat(s->str, &st); }

/* ---- operations; return FALSE if not applicable (sequence is pruned) */
enum { O_STR, O_STR0, O_MEM, O_BA, O_BUF, O_BUF2, O_FILE, O_FILEFD, O_TMP, O_TMPFD, O_SHARED, O_LAST, O_FD0, O_TMP0,
	O_STEAL1, O_STEAL2, O_STEAL4, O_STEALALL, O_STEALC, O_SKIP0, O_SKIP1, O_SKIP2, O_SKIP4, O_SKIPALL, O_RESET,
	O_LIMSET, O_LIMOFF, O_LIM0, O_LIM9, O_EXTRACT, O_PEEK, O_LSTR, O_LMEM, O_LBUF, O_LFILE, O_LTMP, O_STEAL3, O_SKIP3, O_N };
static const char *names[] = { "str", "str0", "mem", "bytearr", "buf", "buf2", "file", "filefd", "tmp", "tmpfd", "shared", "last", "fd0", "tmp0",
	"steal1", "steal2", "steal4", "stealall", "stealchunk", "skip0", "skip1", "skip2", "skip4", "skipall", "reset",
	"limit", "nolimit", "unlimited", "limit9", "extract", "peek", "str9", "mem9", "buf9", "file9", "tmp9", "steal3", "skip3" };

static gboolean op(int o, int q) {
	int i, x = 1 - q, fd;
	goffset r;
	char b[16];
	switch (o) {
	case O_STR: { GString *s = g_string_new(""); for (i = 0; i < 3; i++) { g_string_append_c(s, ctr); madd(q, ctr++, -1); } li_chunkqueue_append_string(Q[q], s); break; }
	case O_STR0: li_chunkqueue_append_string(Q[q], g_string_new("")); li_chunkqueue_append_mem(Q[q], "", 0); li_chunkqueue_append_bytearr(Q[q], g_byte_array_new()); break;
	case O_MEM: for (i = 0; i < 2; i++) { b[i] = ctr; madd(q, ctr++, -1); } li_chunkqueue_append_mem(Q[q], b, 2); memset(b, 0, sizeof(b)); break;
	case O_BA: { GByteArray *a = g_byte_array_new(); for (i = 0; i < 2; i++) { guint8 c = ctr; g_byte_array_append(a, &c, 1); madd(q, ctr++, -1); } li_chunkqueue_append_bytearr(Q[q], a); break; }
	case O_BUF: { liBuffer *l = li_buffer_new(8); for (i = 0; i < 3; i++) { l->addr[l->used++] = ctr; madd(q, ctr++, -1); } li_chunkqueue_append_buffer(Q[q], l); break; }
	case O_BUF2: { /* two views of one buffer, in both queues */
		liBuffer *l = li_buffer_new(8); unsigned char c0 = ctr;
		for (i = 0; i < 5; i++) l->addr[l->used++] = ctr++;
		li_buffer_acquire(l);
		li_chunkqueue_append_buffer2(Q[q], l, 1, 2); madd(q, c0 + 1, -1); madd(q, c0 + 2, -1);
		li_chunkqueue_append_buffer2(Q[x], l, 3, 2); madd(x, c0 + 3, -1); madd(x, c0 + 4, -1);
		break; }
	case O_FILE: li_chunkqueue_append_file(Q[q], fname, 2, 3); for (i = 2; i < 5; i++) madd(q, fdata[i], -1); break;
	case O_FILEFD: fd = open(fname->str, O_RDONLY); li_chunkqueue_append_file_fd(Q[q], fname, 20, 2, fd); madd(q, fdata[20], -1); madd(q, fdata[21], -1); break;
	case O_TMP: { int t = mktmp(3, NULL); li_chunkqueue_append_tempfile(Q[q], tmpname[t], 0, 3); for (i = 0; i < 3; i++) madd(q, tmpkey[t] + i, t); break; }
	case O_TMPFD: { int t = mktmp(3, &fd); li_chunkqueue_append_tempfile_fd(Q[q], tmpname[t], 1, 2, fd); for (i = 1; i < 3; i++) madd(q, tmpkey[t] + i, t); break; }
	case O_SHARED: li_chunkqueue_append_chunkfile(Q[q], shared, 40, 2); madd(q, fdata[40], -1); madd(q, fdata[41], -1); break;
	case O_FD0: fd = open(fname->str, O_RDONLY); li_chunkqueue_append_file_fd(Q[q], fname, 20, 0, fd); break;
	case O_TMP0: { int t = mktmp(3, &fd); li_chunkqueue_append_tempfile_fd(Q[q], tmpname[t], 0, 0, fd); if (exists(tmpname[t])) BAD("empty temp file not removed"); break; }
	case O_LSTR: { GString *s = g_string_new(""); for (i = 0; i < 9; i++) { g_string_append_c(s, ctr); madd(q, ctr++, -1); } li_chunkqueue_append_string(Q[q], s); break; }
	case O_LMEM: for (i = 0; i < 9; i++) { b[i] = ctr; madd(q, ctr++, -1); } li_chunkqueue_append_mem(Q[q], b, 9); break;
	case O_LBUF: { liBuffer *l = li_buffer_new(16); for (i = 0; i < 9; i++) { l->addr[l->used++] = ctr; madd(q, ctr++, -1); } li_chunkqueue_append_buffer(Q[q], l); break; }
	case O_LFILE: li_chunkqueue_append_file(Q[q], fname, 2, 9); for (i = 2; i < 11; i++) madd(q, fdata[i], -1); break;
	case O_LTMP: { int t = mktmp(10, NULL); li_chunkqueue_append_tempfile(Q[q], tmpname[t], 1, 9); for (i = 1; i < 10; i++) madd(q, tmpkey[t] + i, t); break; }
	case O_LAST: {
		liBuffer *l = li_chunkqueue_get_last_buffer(Q[q], 2);
		if (!l) return FALSE;
		for (i = 0; i < 2; i++) { l->addr[l->used + i] = ctr; madd(q, ctr++, -1); }
		li_chunkqueue_update_last_buffer_size(Q[q], 2);
		break; }
	case O_STEAL1: case O_STEAL2: case O_STEAL3: case O_STEAL4:
		if (!M[x].n) return FALSE;
		i = o == O_STEAL1 ? 1 : o == O_STEAL2 ? 2 : o == O_STEAL3 ? 3 : 4;
		r = li_chunkqueue_steal_len(Q[q], Q[x], i);
		if (r != MIN(i, M[x].n)) BAD("steal_len returned %d of %d/%d", (int) r, i, M[x].n);
		mmove(q, x, i);
		break;
	case O_STEALALL:
		if (!M[x].n) return FALSE;
		r = li_chunkqueue_steal_all(Q[q], Q[x]);
		if (r != M[x].n) BAD("steal_all returned %d of %d", (int) r, M[x].n);
		mmove(q, x, M[x].n);
		break;
	case O_STEALC:
		if (!M[x].n) return FALSE;
		r = li_chunkqueue_steal_chunk(Q[q], Q[x]);
		if (r <= 0 || r > M[x].n) BAD("steal_chunk returned %d of %d", (int) r, M[x].n);
		mmove(q, x, r);
		break;
	case O_SKIP0: case O_SKIP1: case O_SKIP2: case O_SKIP3: case O_SKIP4:
		if (!M[q].n) return FALSE;
		i = o == O_SKIP0 ? 0 : o == O_SKIP1 ? 1 : o == O_SKIP2 ? 2 : o == O_SKIP3 ? 3 : 4;
		r = li_chunkqueue_skip(Q[q], i);
		if (r != MIN(i, M[q].n)) BAD("skip returned %d of %d/%d", (int) r, i, M[q].n);
		mskip(q, i);
		break;
	case O_SKIPALL:
		if (!M[q].n) return FALSE;
		r = li_chunkqueue_skip_all(Q[q]);
		if (r != M[q].n) BAD("skip_all returned %d of %d", (int) r, M[q].n);
		mskip(q, M[q].n);
		break;
	case O_RESET:
		if (!M[q].n) return FALSE;
		li_chunkqueue_reset(Q[q]);
		if (Q[q]->bytes_in || Q[q]->bytes_out) BAD("reset keeps counters");
		mskip(q, M[q].n);
		break;
	case O_LIMSET: if (lim[q]) return FALSE; lim[q] = TRUE; li_chunkqueue_set_limit(Q[q], LIM); break;
	case O_LIMOFF: if (!lim[q]) return FALSE; lim[q] = FALSE; li_chunkqueue_set_limit(Q[q], NULL); break;
	case O_LIM0: if (LIM->limit <= 0) return FALSE; li_cqlimit_set_limit(LIM, 0); break;
	case O_LIM9: if (LIM->limit == 9) return FALSE; li_cqlimit_set_limit(LIM, 9); break;
	case O_EXTRACT: { /* reads without consuming, all lengths */
		GString *s = g_string_new("x"); GByteArray *a = g_byte_array_new();
		for (i = 0; i <= M[q].n + 1; i++) {
			GError *err = NULL;
			gboolean ok = li_chunkqueue_extract_to(Q[q], i, s, &err);
			if (err) { g_error_free(err); err = NULL; }
			if (eio_hit) { eio_hit = 0; if (ok) BAD("read error not reported"); }
			else if (ok != (i <= M[q].n)) BAD("extract_to %d of %d: %d", i, M[q].n, ok);
			if (ok && (s->len != (gsize) i || memcmp(s->str, M[q].d, i))) BAD("extract_to %d: wrong data", i);
			ok = li_chunkqueue_extract_to_bytearr(Q[q], i, a, &err);
			if (err) { g_error_free(err); err = NULL; }
			if (eio_hit) { eio_hit = 0; if (ok) BAD("read error not reported"); }
			else if (ok != (i <= M[q].n)) BAD("extract_to_bytearr %d of %d: %d", i, M[q].n, ok);
			if (ok && (a->len != (guint) i || memcmp(a->data, M[q].d, i))) BAD("extract_to_bytearr %d: wrong data", i);
			{
				unsigned char raw[MAXB + 64]; int k;
				memset(raw, 0xaa, sizeof(raw));
				ok = li_chunkqueue_extract_to_memory(Q[q], i, raw + 16, &err);
				if (err) { g_error_free(err); err = NULL; }
				if (eio_hit) { eio_hit = 0; if (ok) BAD("read error not reported"); }
				else if (ok != (i <= M[q].n)) BAD("extract_to_memory %d of %d: %d", i, M[q].n, ok);
				if (ok && memcmp(raw + 16, M[q].d, i)) BAD("extract_to_memory %d: wrong data", i);
				for (k = 0; k < (int) sizeof(raw); k++) if ((k < 16 || k >= 16 + i) && raw[k] != 0xaa) BAD("extract_to_memory %d wrote outside of the destination (%d)", i, k - 16);
			}
		}
		g_string_free(s, TRUE); g_byte_array_free(a, TRUE);
		break; }
	case O_PEEK: { /* memory mapped reads from every offset */
		liChunkIter ci = li_chunkqueue_iter(Q[q]); int pos = 0;
		if (!M[q].n) return FALSE;
		do {
			int l = li_chunkiter_length(ci), s, k;
			for (s = 0; s < l; s++) for (k = 1; k <= l - s + 1; k++) {
				char *p = NULL; off_t n = 0; GError *err = NULL;
				if (LI_HANDLER_GO_ON != li_chunkiter_read(ci, s, k, &p, &n, &err)) {
					if (err) g_error_free(err);
					if (eio_hit) { eio_hit = 0; continue; }
					BAD("chunkiter_read fails at %d+%d", s, k);
				}
				if (n < 1 || n > k || s + n > l || memcmp(p, M[q].d + pos + s, n)) BAD("chunkiter_read at %d+%d: wrong data (%d bytes)", s, k, (int) n);
			}
			pos += l;
		} while (li_chunkiter_next(&ci));
		if (pos != M[q].n) BAD("chunks have %d bytes of %d", pos, M[q].n);
		break; }
	default: return FALSE;
	}
	return TRUE;
}

static void verify(void) {
	int q, i;
	goffset cur = 0;
	for (q = 0; q < 2; q++) {
		liChunkIter ci;
		gboolean mem = FALSE;
		if (Q[q]->length != M[q].n) BAD("queue %d: length %d expected %d", q, (int) Q[q]->length, M[q].n);
		if (Q[q]->bytes_in - Q[q]->bytes_out != M[q].n) BAD("queue %d: bytes_in %d - bytes_out %d != %d", q, (int) Q[q]->bytes_in, (int) Q[q]->bytes_out, M[q].n);
		for (ci = li_chunkqueue_iter(Q[q]); ci.element; li_chunkiter_next(&ci)) if (li_chunkiter_chunk(ci)->type != FILE_CHUNK) mem = TRUE;
		if (Q[q]->mem_usage < 0 || (!mem && Q[q]->mem_usage != 0)) BAD("queue %d: mem_usage %d without memory chunks", q, (int) Q[q]->mem_usage);
		if (lim[q]) cur += Q[q]->mem_usage;
	}
	if (LIM->current != cur) BAD("limit: current %d expected %d", (int) LIM->current, (int) cur);
	if (LIM->locked != (LIM->limit > 0 && cur >= LIM->limit)) BAD("limit: locked %d with %d of %d", LIM->locked, (int) cur, (int) LIM->limit);
	if (LIM->locked != lock_model) BAD("limit: state %d not notified", LIM->locked);
	for (q = 0; q < 2; q++) if (lim[q]) {
		goffset a = li_chunkqueue_limit_available(Q[q]);
		if (a != (LIM->limit <= 0 ? -1 : cur >= LIM->limit ? 0 : LIM->limit - cur)) BAD("limit: available %d", (int) a);
	}
	for (i = 0; i < ntmp; i++) {
		int k, live = 0;
		for (q = 0; q < 2; q++) for (k = 0; k < M[q].n; k++) if (M[q].tmp[k] == i) live = 1;
		if (live && !exists(tmpname[i])) BAD("temp file %d deleted while in use", i);
	}
	if (0 == M[0].n + M[1].n && LIM->current != 0) BAD("limit: current %d for empty queues", (int) LIM->current);
}

static int count_fds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }

static int fds0;

static void start(void) {
	ctr = 100; ntmp = 0; memset(M, 0, sizeof(M)); lim[0] = lim[1] = FALSE; lock_model = FALSE; npread = 0; eio_hit = 0; trace[0] = 0;
	Q[0] = li_chunkqueue_new(); Q[1] = li_chunkqueue_new();
	shared = li_chunkfile_new(fname, -1, FALSE);
	LIM = li_cqlimit_new(); LIM->notify = limit_cb; li_cqlimit_set_limit(LIM, 4);
}
static void stop(void) {
	int i;
	li_chunkqueue_free(Q[0]); li_chunkqueue_free(Q[1]);
	li_chunkfile_release(shared);
	if (LIM->current) BAD("limit: current %d after free", (int) LIM->current);
	LIM->notify = NULL;
	li_cqlimit_release(LIM);
	for (i = 0; i < ntmp; i++) { if (exists(tmpname[i])) BAD("temp file %d left behind", i); g_string_free(tmpname[i], TRUE); }
}

static int menu[128], nmenu;
static int seq[16];

static void runseq(int n) {
	int i;
	start();
	for (i = 0; i < n; i++) {
		int o = menu[seq[i]] >> 1, q = menu[seq[i]] & 1;
		sprintf(trace + strlen(trace), " %s(%c)", names[o], 'A' + q);
		if (!op(o, q)) { if (i == n - 1) seq[15] = 0; stop(); return; }
		trans++;
		verify();
	}
	op(O_EXTRACT, 0); op(O_EXTRACT, 1); op(O_PEEK, 0); op(O_PEEK, 1);
	stop();
	execs++;
	seq[15] = 1;
}

static int depth, part, parts;
static void dfs(int n) {
	int i;
	for (i = 0; i < nmenu; i++) {
		if (n == 0 && (menu[i] & 1)) continue; /* symmetry */
		seq[n] = i;
		if (n == 1 && ((seq[0] * nmenu + i) % parts) != part) continue;
		runseq(n + 1);
		if (!seq[15]) continue; /* not applicable */
		if (n + 1 < depth) dfs(n + 1);
	}
}

int main(int argc, char **argv) {
	int i, m = atoi(argv[2]), f;
	depth = atoi(argv[1]); part = atoi(argv[4]); parts = atoi(argv[5]);
	snprintf(dir, sizeof(dir), "%s/cq-XXXXXX", getenv("CQDIR") ? getenv("CQDIR") : "/tmp");
	if (!mkdtemp(dir)) return 2;
	fname = g_string_new(dir); g_string_append(fname, "/file");
	f = open(fname->str, O_RDWR | O_CREAT, 0600);
	for (i = 0; i < 64; i++) fdata[i] = i + 30;
	if (64 != write(f, fdata, 64)) return 2;
	close(f);
	for (i = 0; i < O_N; i++) {
		int k;
		if (m != 3 && i >= O_LSTR) continue;
		if (m == 3) { /* repeated splits of long chunks */
			static const int r[] = { O_STEAL1, O_STEAL2, O_STEAL3, O_SKIP1, O_SKIP2, O_SKIP3 };
			if (i >= O_LSTR && i <= O_LTMP) { menu[nmenu++] = i << 1; continue; }
			for (k = 0; k < (int) G_N_ELEMENTS(r) && r[k] != i; k++) ;
			if (k == (int) G_N_ELEMENTS(r)) continue;
		}
		if (m == 1) { /* reduced menu for deeper sequences */
			static const int r[] = { O_STR, O_BUF, O_FILE, O_TMP, O_LAST, O_STEAL1, O_STEAL4, O_STEALALL, O_STEALC, O_SKIP1, O_SKIP4, O_LIMSET };
			for (k = 0; k < (int) G_N_ELEMENTS(r) && r[k] != i; k++) ;
			if (k == (int) G_N_ELEMENTS(r)) continue;
		}
		if (m == 2) { /* file chunks */
			static const int r[] = { O_MEM, O_FILE, O_FILEFD, O_TMP, O_SHARED, O_STEAL1, O_STEAL2, O_STEALALL, O_SKIP1, O_SKIP2, O_EXTRACT, O_PEEK };
			for (k = 0; k < (int) G_N_ELEMENTS(r) && r[k] != i; k++) ;
			if (k == (int) G_N_ELEMENTS(r)) continue;
		}
		menu[nmenu++] = i << 1; menu[nmenu++] = (i << 1) | 1;
	}
	fds0 = count_fds();
	fault = atoi(argv[3]);
	if (fault >= 3) { fault_at = fault - 3; fault = 3; }
	dfs(0);
	if (count_fds() != fds0) BAD("file descriptors leaked: %d -> %d", fds0, count_fds());
	unlink(fname->str); g_string_free(fname, TRUE);
	if (rmdir(dir)) { printf("BAD files left in %s\n", dir); return 1; }
	printf("OK %lld %lld %lld\n", execs, trans, execs);
	return 0;
}
