/* C31 harness: runs configuration programs through the real parser
 * args: <file with records> ; a record is u32 length, program, u32 length, expected output
 * the program writes values with the action or setup t.out; "!" at the end means the configuration must be refused */
#include <lighttpd/base.h>
#include <lighttpd/config_parser.h>
#include <lighttpd/plugin_core.h>

static GString *out;

static void dump(liValue *v) {
	guint i;
	if (NULL == v) { g_string_append(out, "0"); return; }
	switch (li_value_type(v)) {
	case LI_VALUE_NONE: g_string_append(out, "n"); break;
	case LI_VALUE_BOOLEAN: g_string_append(out, v->data.boolean ? "T" : "F"); break;
	case LI_VALUE_NUMBER: g_string_append_printf(out, "i%" G_GINT64_FORMAT ";", v->data.number); break;
	case LI_VALUE_STRING: g_string_append_printf(out, "s%u:", (guint) v->data.string->len); g_string_append_len(out, v->data.string->str, v->data.string->len); break;
	case LI_VALUE_LIST:
		g_string_append(out, "(");
		for (i = 0; i < v->data.list->len; i++) dump(g_ptr_array_index(v->data.list, i));
		g_string_append(out, ")");
		break;
	case LI_VALUE_ACTION: g_string_append(out, "a"); break;
	default: g_string_append(out, "?"); break;
	}
}

static gboolean t_setup(liServer *srv, liPlugin *p, liValue *val, gpointer u) { dump(val); g_string_append_c(out, '.'); return TRUE; }
static liAction *t_action(liServer *srv, liWorker *wrk, liPlugin *p, liValue *val, gpointer u) { dump(val); g_string_append_c(out, '.'); return li_action_new(); }

static const liPluginOption options[] = { { NULL, 0, 0, NULL } };
static const liPluginAction actions[] = { { "t.out", t_action, NULL }, { NULL, NULL, NULL } };
static const liPluginSetup setups[] = { { "t.out", t_setup, NULL }, { NULL, NULL, NULL } };
static void t_init(liServer *srv, liPlugin *p, gpointer u) { p->options = options; p->actions = actions; p->setups = setups; }

static guint32 rd(FILE *f) { guint32 n; if (1 != fread(&n, 4, 1, f)) return G_MAXUINT32; return n; }
static void show(const char *what, const char *s, gsize n) {
	gsize i;
	printf("%s", what);
	for (i = 0; i < n && i < 600; i++) { if (s[i] >= 32 && s[i] < 127) putchar(s[i]); else printf("\\x%02x", (guchar) s[i]); }
	putchar(' ');
}

int main(int argc, char **argv) {
	FILE *f = fopen(argv[1], "rb");
	char conf[64], *prog = NULL, *want = NULL;
	long n = 0, bytes = 0, bad = 0;
	liServer *srv;
	out = g_string_new("");
	g_snprintf(conf, sizeof(conf), "cfg-%d.conf", (int) getpid());
	srv = li_server_new(".", FALSE);
	li_server_loop_init(srv);
	srv->core_plugin = li_plugin_register(srv, "core", li_plugin_core_init, NULL);
	li_plugin_register(srv, "t", t_init, NULL);
	li_log_context_set(&srv->logs.log_context, li_log_map_new());

	for (;;) {
		guint32 pl = rd(f), wl;
		gboolean ok;
		FILE *c;
		if (G_MAXUINT32 == pl) break;
		prog = g_realloc(prog, pl + 1); fread(prog, 1, pl, f);
		wl = rd(f);
		want = g_realloc(want, wl + 1); fread(want, 1, wl, f);
		c = fopen(conf, "wb"); fwrite(prog, 1, pl, c); fclose(c);
		g_string_truncate(out, 0);
		if (srv->config_global_vars) g_hash_table_remove_all(srv->config_global_vars);
		ok = li_config_parse(srv, conf);
		if (srv->mainaction) { li_action_release(srv, srv->mainaction); srv->mainaction = NULL; }
		if (!ok) g_string_assign(out, "!");
		n++; bytes += pl;
		if (out->len != wl || 0 != memcmp(out->str, want, wl)) {
			if (bad++ < 3) {
				show("BAD program: ", prog, pl);
				show(" result: ", out->str, out->len);
				show(" expected: ", want, wl);
				putchar('\n');
				fflush(stdout);
			}
		}
	}
	unlink(conf);
	printf("OK %ld %ld\n", n, bytes);
	fflush(stdout);
	_exit(bad ? 1 : 0);
}
