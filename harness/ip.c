/* C13 harness: address parsers (line protocol) and exhaustive exploration of the radix tree */
#include <lighttpd/base.h>
#include <lighttpd/ip_parsers.h>
#include <lighttpd/radix.h>

static void hex(const guint8 *b, int n) { while (n--) printf("%02x", *b++); }

/* stdin: one string per line; output: results of all parser variants */
static int parse_mode(void) {
	char line[4096];
	while (fgets(line, sizeof(line), stdin)) {
		guint32 v4, mask; guint8 v6[16]; guint net; guint16 port;
		size_t l = strlen(line);
		int c;
		if (l && line[l-1] == '\n') line[--l] = 0;
		for (c = 0; c < 4; c++) {
			v4 = 0; mask = 0; port = 0;
			if (li_parse_ipv4(line, &v4, (c & 1) ? &mask : NULL, (c & 2) ? &port : NULL)) {
				hex((guint8*) &v4, 4);
				if (c & 1) { printf("/"); hex((guint8*) &mask, 4); }
				if (c & 2) printf(":%d", port);
			} else printf("-");
			printf(" ");
		}
		for (c = 0; c < 4; c++) {
			memset(v6, 0x5a, 16); net = 0; port = 0;
			if (li_parse_ipv6(line, v6, (c & 1) ? &net : NULL, (c & 2) ? &port : NULL)) {
				GString *s = g_string_sized_new(0);
				hex(v6, 16);
				if (c & 1) printf("/%u", net);
				if (c & 2) printf(":%d", port);
				li_ipv6_tostring(s, v6);
				printf("=%s", s->str);
				g_string_free(s, TRUE);
			} else printf("-");
			printf(" ");
		}
		printf("\n");
	}
	return 0;
}

typedef struct { guint8 key[16]; guint32 bits; } Pfx;
static Pfx U[64]; static int nu;

static void add(const char *hx, guint32 bits) {
	int i; unsigned x;
	memset(&U[nu], 0, sizeof(U[nu]));
	for (i = 0; hx[2*i]; i++) { sscanf(hx + 2*i, "%2x", &x); U[nu].key[i] = x; }
	U[nu++].bits = bits;
}
static int covers(const Pfx *a, const Pfx *b) { /* a prefix of b */
	guint32 i;
	if (a->bits > b->bits) return 0;
	for (i = 0; i < a->bits; i++) if (((a->key[i/8] ^ b->key[i/8]) >> (7 - i%8)) & 1) return 0;
	return 1;
}
static int same(const Pfx *a, const Pfx *b) { return a->bits == b->bits && covers(a, b); }

static GString *seen;
static void collect_cb(gpointer data, gpointer ud) { g_string_append_c(seen, (char) GPOINTER_TO_INT(data)); }

/* sequence ops[0..n): op = idx*2 + (0 insert, 1 remove) */
static int run_seq(const int *ops, int n, unsigned long *lookups) {
	liRadixTree *t = li_radixtree_new();
	int model[64]; /* index -> data, 0 none */
	int i, k, d, bad = 0, total = 0;
	memset(model, 0, sizeof(model));
	for (i = 0; i < n && !bad; i++) {
		int x = ops[i] / 2, slot = x;
		gpointer r;
		for (k = 0; k < nu; k++) if (same(&U[k], &U[x])) { slot = k; break; }
		if (ops[i] & 1) {
			r = li_radixtree_remove(t, U[x].key, U[x].bits);
			if (GPOINTER_TO_INT(r) != model[slot]) { printf("BAD step %d: remove %d returned %d expected %d", i, x, GPOINTER_TO_INT(r), model[slot]); bad = 1; }
			model[slot] = 0;
		} else {
			r = li_radixtree_insert(t, U[x].key, U[x].bits, GINT_TO_POINTER(i + 1));
			if (GPOINTER_TO_INT(r) != model[slot]) { printf("BAD step %d: insert %d returned %d expected %d", i, x, GPOINTER_TO_INT(r), model[slot]); bad = 1; }
			model[slot] = i + 1;
		}
	}
	for (k = 0; k < nu && !bad; k++) {
		int best = 0; gint bb = -1, slot = k;
		gpointer r = li_radixtree_lookup(t, U[k].key, U[k].bits), e = li_radixtree_lookup_exact(t, U[k].key, U[k].bits);
		for (d = 0; d < nu; d++) if (model[d] && covers(&U[d], &U[k]) && (gint) U[d].bits > bb) { bb = U[d].bits; best = model[d]; }
		for (d = 0; d < nu; d++) if (same(&U[d], &U[k])) { slot = d; break; }
		*lookups += 2;
		if (GPOINTER_TO_INT(r) != best) { printf("BAD lookup of %d: %d expected %d", k, GPOINTER_TO_INT(r), best); bad = 1; }
		else if (GPOINTER_TO_INT(e) != model[slot]) { printf("BAD exact lookup of %d: %d expected %d", k, GPOINTER_TO_INT(e), model[slot]); bad = 1; }
	}
	if (!bad) {
		g_string_truncate(seen, 0);
		li_radixtree_foreach(t, collect_cb, NULL);
		for (k = 0; k < nu; k++) if (model[k]) { total++; if (!memchr(seen->str, model[k], seen->len)) { printf("BAD foreach misses %d", k); bad = 1; } }
		if (!bad && (int) seen->len != total) { printf("BAD foreach visited %d of %d", (int) seen->len, total); bad = 1; }
	}
	li_radixtree_free(t, NULL, NULL);
	if (bad) {
		printf(" after:");
		for (i = 0; i < n; i++) { printf(" %s(", (ops[i] & 1) ? "remove" : "insert"); hex(U[ops[i]/2].key, 16); printf("/%u)", U[ops[i]/2].bits); }
		printf("\n");
	}
	return bad;
}

static int radix_mode(int depth, int part, int parts) {
	int ops[16], n, i; unsigned long cnt = 0, lookups = 0;
	seen = g_string_sized_new(64);
	for (n = 1; n <= depth; n++) {
		unsigned long total = 1, s;
		for (i = 0; i < n; i++) total *= 2*nu;
		for (s = part; s < total; s += parts) {
			unsigned long x = s;
			for (i = 0; i < n; i++) { ops[n-1-i] = x % (2*nu); x /= 2*nu; }
			cnt++;
			if (run_seq(ops, n, &lookups)) return 1;
		}
	}
	printf("OK %lu %lu\n", cnt, lookups);
	return 0;
}

int main(int argc, char **argv) {
	if (argc > 1 && !strcmp(argv[1], "parse")) return parse_mode();
	if (argc > 1 && !strcmp(argv[1], "radix")) {
		if (!strcmp(argv[2], "4")) { /* ipv4 like keys */
			add("00000000", 0); add("80000000", 1); add("00000000", 1); add("0a000000", 8); add("0a010000", 16); add("0a010200", 24); add("0a010203", 32); add("0a010202", 32); add("0a010203", 31); add("0affffff", 8);
		} else { /* longer than one machine word */
			add("00", 0); add("20010db8", 32); add("20010db8", 31); add("20010db80000000000000000", 33); add("20010db88000000000000000", 33);
			add("20010db8800000000000000000000000", 64); add("20010db80000000100000000", 64); add("20010db8800000010000000000000000", 96); add("20010db8800000018000000000000001", 128); add("20010db8800000010000000000000001", 128);
		}
		return radix_mode(atoi(argv[3]), atoi(argv[4]), atoi(argv[5]));
	}
	return 2;
}
