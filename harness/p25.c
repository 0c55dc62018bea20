/* P25: import of document trees (libyaml is replaced by a stand-in that hands out the tree) */
#include "gram.h"
#include "num.h"
#include <yaml.h>
#include <ecoli_yaml.h>
#ifndef N
#define N 2
#endif
#define B(x) sym_concrete(!!(x))

/* ---- stand-in for files and libyaml ---- */
#define YMAX 64
static yaml_node_t yn[YMAX];
static unsigned ny;
static yaml_node_pair_t pairs[YMAX][6];
static yaml_node_item_t items[YMAX][8];
static int file_open, parser_live, doc_live, fail_open, fail_parser, fail_load, empty_doc;
static char file_obj;
FILE *h_fopen(const char *name, const char *mode)
{
	(void)mode;
	sym_assert(!strcmp(name, "doc.yaml"), "the named file is opened");
	if (fail_open) {
		errno = ENOENT;
		return NULL;
	}
	file_open++;
	return (FILE *)&file_obj;
}
int h_fclose(FILE *f)
{
	sym_assert((char *)f == &file_obj && file_open == 1, "the file is closed once");
	file_open = 0;
	return 0;
}
int yaml_parser_initialize(yaml_parser_t *p)
{
	if (fail_parser)
		return 0;
	memset(p, 0, sizeof(*p));
	parser_live++;
	return 1;
}
void yaml_parser_delete(yaml_parser_t *p)
{
	(void)p;
	sym_assert(parser_live == 1, "only an initialised parser is released");
	parser_live = 0;
}
void yaml_parser_set_input_file(yaml_parser_t *p, FILE *f)
{
	(void)p;
	sym_assert(parser_live && (char *)f == &file_obj && file_open, "the opened file is read");
}
int yaml_parser_load(yaml_parser_t *p, yaml_document_t *d)
{
	(void)p;
	sym_assert(parser_live && file_open, "the parser is ready");
	if (fail_load)
		return 0;
	memset(d, 0, sizeof(*d));
	d->nodes.start = empty_doc ? NULL : yn;
	d->nodes.top = empty_doc ? NULL : yn + ny;
	d->nodes.end = d->nodes.top;
	doc_live++;
	return 1;
}
yaml_node_t *yaml_document_get_root_node(yaml_document_t *d)
{
	sym_assert(doc_live, "the document is loaded");
	return d->nodes.top > d->nodes.start ? d->nodes.start : NULL;
}
yaml_node_t *yaml_document_get_node(yaml_document_t *d, int index)
{
	sym_assert(doc_live, "the document is loaded");
	return index > 0 && d->nodes.start + index <= d->nodes.top ? d->nodes.start + index - 1 : NULL;
}
void yaml_document_delete(yaml_document_t *d)
{
	(void)d;
	sym_assert(doc_live == 1, "only a loaded document is released");
	doc_live = 0;
	memset(yn, 0xee, sizeof(yn));   /* what was imported does not depend on the document */
	memset(pairs, 0xee, sizeof(pairs));
	memset(items, 0xee, sizeof(items));
}
static void released(void)
{
	sym_assert(!file_open && !parser_live && !doc_live, "file, parser and document are released");
}
/* ---- documents; the description is kept apart from what libyaml hands out ---- */
enum { SCALAR, SEQ, MAP };
static struct y { int kind, n, key[6], val[8]; char *s; } y[YMAX];
static char texts[YMAX][24];
static int y_new(int kind)
{
	sym_assert(ny < YMAX, "document within the bounds");
	y[ny].kind = kind;
	return ny++;
}
static int y_scalar(const char *s)
{
	int i = y_new(SCALAR);
	strcpy(texts[i], s);
	y[i].s = texts[i];
	return i;
}
static int y_sym(unsigned max, const char *nm)
{
	int i = y_new(SCALAR);
	h_str(texts[i], max, nm);
	y[i].s = texts[i];
	return i;
}
static void y_put(int m, int k, int v)
{
	y[m].key[y[m].n] = k;
	y[m].val[y[m].n++] = v;
}
static void y_set(int m, const char *k, int v) { y_put(m, y_scalar(k), v); } /* the value is made first */
static void y_item(int s, int v) { y[s].val[y[s].n++] = v; }
static char shown[YMAX][24]; /* the text libyaml owns */
static void y_build(void)
{
	unsigned i;
	int j;
	for (i = 0; i < ny; i++) {
		memset(&yn[i], 0, sizeof(yn[i]));
		switch (y[i].kind) {
		case SCALAR:
			yn[i].type = YAML_SCALAR_NODE;
			strcpy(shown[i], y[i].s);
			yn[i].data.scalar.value = (yaml_char_t *)shown[i];
			yn[i].data.scalar.length = strlen(y[i].s);
			break;
		case SEQ:
			yn[i].type = YAML_SEQUENCE_NODE;
			for (j = 0; j < y[i].n; j++)
				items[i][j] = y[i].val[j] + 1;
			yn[i].data.sequence.items.start = items[i];
			yn[i].data.sequence.items.top = items[i] + y[i].n;
			yn[i].data.sequence.items.end = items[i] + 8;
			break;
		default:
			yn[i].type = YAML_MAPPING_NODE;
			for (j = 0; j < y[i].n; j++) {
				pairs[i][j].key = y[i].key[j] + 1;
				pairs[i][j].value = y[i].val[j] + 1;
			}
			yn[i].data.mapping.pairs.start = pairs[i];
			yn[i].data.mapping.pairs.top = pairs[i] + y[i].n;
			yn[i].data.mapping.pairs.end = pairs[i] + 6;
			break;
		}
	}
}
/* ---- reference: which documents describe a grammar ---- */
enum { C_BOOL, C_INT, C_UINT, C_STR, C_NODE, C_NODES, C_DICTS };
static const struct { const char *type, *key; int kind, need; } sch[] = {
	{ "any", "attr", C_STR, 0 }, { "bypass", "child", C_NODE, 1 }, { "cond", "expr", C_STR, 1 },
	{ "cond", "child", C_NODE, 1 }, { "cmd", "expr", C_STR, 1 }, { "cmd", "children", C_NODES, 0 },
	{ "int", "min", C_INT, 0 }, { "int", "max", C_INT, 0 }, { "int", "base", C_UINT, 0 },
	{ "uint", "min", C_UINT, 0 }, { "uint", "max", C_UINT, 0 }, { "uint", "base", C_UINT, 0 },
	{ "many", "child", C_NODE, 1 }, { "many", "min", C_UINT, 0 }, { "many", "max", C_UINT, 0 },
	{ "once", "child", C_NODE, 1 }, { "option", "child", C_NODE, 1 }, { "or", "children", C_NODES, 1 },
	{ "re", "pattern", C_STR, 1 }, { "re_lex", "patterns", C_DICTS, 0 }, { "re_lex", "child", C_NODE, 1 },
	{ "seq", "children", C_NODES, 1 }, { "str", "string", C_STR, 1 },
	{ "/re_lex", "pattern", C_STR, 1 }, { "/re_lex", "keep", C_BOOL, 1 }, { "/re_lex", "attr", C_STR, 0 },
};
#define NSCH (sizeof(sch) / sizeof(sch[0]))
static int same(const char *p, const char *q)
{
	while (*p && *q && B(*p == *q))
		p++, q++;
	return !*p && !*q;
}
static int caseq(const char *p, const char *q)
{
	while (*p && *q && B((*p | 32) == *q && *p >= 'A'))
		p++, q++;
	return !*p && !*q;
}
static int known(const char *type)
{
	unsigned i;
	for (i = 0; i < NSCH; i++)
		if (!strcmp(sch[i].type, type))
			return 1;
	return 0;
}
static int entry(const char *type, const char *key)
{
	unsigned i;
	for (i = 0; i < NSCH; i++)
		if (!strcmp(sch[i].type, type) && same(key, sch[i].key))
			return i;
	return -1;
}
static int reserved(const char *k)
{
	return same(k, "type") || same(k, "id") || same(k, "help") || same(k, "attrs");
}
static int seen[YMAX], twice, exotic;
static const char *ytype[YMAX];
static const char *yget(int m, const char *k)
{
	int i;
	for (i = 0; i < y[m].n; i++)
		if (y[y[m].key[i]].kind == SCALAR && same(y[y[m].key[i]].s, k) && y[y[m].val[i]].kind == SCALAR)
			return y[y[m].val[i]].s;
	return NULL;
}
static int ref_node(int m);
static int ref_dict(int m, const char *type);
static int ref_value(int v, int kind, const char *type)
{
	int64_t a;
	uint64_t b;
	int i;
	char sub[16] = "/";

	switch (kind) {
	case C_BOOL: return y[v].kind == SCALAR && (caseq(y[v].s, "true") || caseq(y[v].s, "false"));
	case C_INT: return y[v].kind == SCALAR && B(num_signed(y[v].s, 0, &a) == 0);
	case C_UINT: return y[v].kind == SCALAR && B(num_unsigned(y[v].s, 0, &b) == 0);
	case C_STR: return y[v].kind == SCALAR;
	case C_NODE: return ref_node(v);
	case C_NODES: case C_DICTS:
		if (y[v].kind != SEQ)
			return 0;
		for (i = 0; i < y[v].n; i++)
			if (!(kind == C_NODES ? ref_node(y[v].val[i]) : ref_dict(y[v].val[i], strcat(strcpy(sub, "/"), type))))
				return 0;
		return 1;
	}
	return 0;
}
/* entries known and well typed, those that are needed present */
static int ref_dict(int m, const char *type)
{
	int i, j, e, ok = 1;
	unsigned k;

	if (y[m].kind != MAP)
		return 0;
	for (i = 0; i < y[m].n; i++) {
		if (y[y[m].key[i]].kind != SCALAR)
			return 0;
		if (reserved(y[y[m].key[i]].s))
			continue;
		for (j = 0; j < i; j++)
			if (y[y[m].key[j]].kind == SCALAR && same(y[y[m].key[i]].s, y[y[m].key[j]].s))
				twice = 1;
		e = entry(type, y[y[m].key[i]].s);
		if (e < 0 || !ref_value(y[m].val[i], sch[e].kind, type))
			return 0;
	}
	for (k = 0; k < NSCH; k++) {
		if (strcmp(sch[k].type, type) || !sch[k].need)
			continue;
		for (i = 0; i < y[m].n; i++)
			if (same(y[y[m].key[i]].s, sch[k].key))
				break;
		ok &= i < y[m].n;
	}
	return ok;
}
static int ref_node(int m)
{
	int i, j, nt = 0, ni = 0, nh = 0, na = 0, v;
	const char *k, *a, *b;

	if (y[m].kind != MAP)
		return 0;
	if (seen[m])
		return 1;
	seen[m] = 1;
	for (i = 0; i < y[m].n; i++) {
		if (y[y[m].key[i]].kind != SCALAR)
			return 0;
		k = y[y[m].key[i]].s;
		v = y[m].val[i];
		if (same(k, "type")) {
			if (nt++ || y[v].kind != SCALAR)
				return 0;
			ytype[m] = y[v].s;
		} else if (same(k, "id")) {
			if (ni++ || y[v].kind != SCALAR)
				return 0;
		} else if (same(k, "help")) {
			if (nh++ || y[v].kind != SCALAR)
				return 0;
		} else if (same(k, "attrs")) {
			if (na++ || y[v].kind != MAP)
				return 0;
			for (j = 0; j < y[v].n; j++)
				if (y[y[v].key[j]].kind != SCALAR || y[y[v].val[j]].kind != SCALAR)
					return 0;
		}
	}
	if (!nt || !known(ytype[m]) || !ref_dict(m, ytype[m]))
		return 0;
	/* what the values must satisfy */
	a = yget(m, "min");
	b = yget(m, "max");
	if (a && b && !strcmp(ytype[m], "int")) {
		int64_t x = 0, z = 0;
		num_signed(a, 0, &x);
		num_signed(b, 0, &z);
		if (B(x > z))
			return 0;
	}
	if (a && b && !strcmp(ytype[m], "uint")) {
		uint64_t x = 0, z = 0;
		num_unsigned(a, 0, &x);
		num_unsigned(b, 0, &z);
		if (B(x > z))
			return 0;
	}
	if (!strcmp(ytype[m], "many")) {
		uint64_t x = 0, z = 0;
		if (a)
			num_unsigned(a, 0, &x);
		if (b)
			num_unsigned(b, 0, &z);
		if (B(x >= UINT32_MAX || z >= UINT32_MAX))
			return 0;
	}
	if (!strcmp(ytype[m], "re") || !strcmp(ytype[m], "re_lex") || !strcmp(ytype[m], "cond") || !strcmp(ytype[m], "cmd"))
		exotic = 1; /* the text is judged by the node */
	return 1;
}
/* ---- what was imported is what the document says ---- */
static struct ec_node *made[YMAX];
static void chk_node(int m, struct ec_node *n);
static void chk_dict(int m, const char *type, const struct ec_config *c);
static void chk_value(int v, int kind, const char *type, const struct ec_config *c)
{
	int i = 0;
	int64_t a;
	uint64_t b;
	struct ec_config *e;
	char sub[16] = "/";

	sym_assert(c != NULL, "the entry is configured");
	switch (kind) {
	case C_BOOL:
		sym_assert(c->type == EC_CONFIG_TYPE_BOOL && c->boolean == !!caseq(y[v].s, "true"), "boolean imported");
		break;
	case C_INT:
		num_signed(y[v].s, 0, &a);
		sym_assert(c->type == EC_CONFIG_TYPE_INT64 && c->i64 == a, "integer imported");
		break;
	case C_UINT:
		num_unsigned(y[v].s, 0, &b);
		sym_assert(c->type == EC_CONFIG_TYPE_UINT64 && c->u64 == b, "unsigned integer imported");
		break;
	case C_STR:
		sym_assert(c->type == EC_CONFIG_TYPE_STRING && !strcmp(c->string, y[v].s), "text imported");
		break;
	case C_NODE:
		sym_assert(c->type == EC_CONFIG_TYPE_NODE, "node imported");
		chk_node(v, c->node);
		break;
	default:
		sym_assert(c->type == EC_CONFIG_TYPE_LIST, "list imported");
		TAILQ_FOREACH(e, &c->list, next) {
			sym_assert(i < y[v].n, "no more elements than in the document");
			if (kind == C_NODES) {
				sym_assert(e->type == EC_CONFIG_TYPE_NODE, "element imported");
				chk_node(y[v].val[i], e->node);
			} else
				chk_dict(y[v].val[i], strcat(strcpy(sub, "/"), type), e);
			i++;
		}
		sym_assert(i == y[v].n, "as many elements as in the document");
		break;
	}
}
static void chk_dict(int m, const char *type, const struct ec_config *c)
{
	int i, e;
	ssize_t n = 0;

	sym_assert(c != NULL && c->type == EC_CONFIG_TYPE_DICT, "configuration imported");
	for (i = 0; i < y[m].n; i++) {
		e = entry(type, y[y[m].key[i]].s);
		if (reserved(y[y[m].key[i]].s))
			continue;
		chk_value(y[m].val[i], sch[e].kind, type, ec_config_dict_get(c, sch[e].key));
		n++;
	}
	sym_assert(ec_config_count(c) == n, "nothing else is configured");
}
static void chk_node(int m, struct ec_node *n)
{
	int i, j, v, id = 0;
	size_t na = 0;
	const char *k;

	sym_assert(n != NULL, "node imported");
	if (made[m]) {
		sym_assert(made[m] == n, "a node named several times is imported once");
		return;
	}
	for (i = 0; i < (int)ny; i++)
		sym_assert(made[i] != n, "distinct nodes of the document are distinct");
	made[m] = n;
	sym_assert(!strcmp(ec_node_type_name(ec_node_type(n)), ytype[m]), "type imported");
	for (i = 0; i < y[m].n; i++) {
		k = y[y[m].key[i]].s;
		v = y[m].val[i];
		if (same(k, "id")) {
			sym_assert(!strcmp(ec_node_id(n), y[v].s), "identifier imported");
			id = 1;
		} else if (same(k, "help")) {
			sym_assert(ec_dict_has_key(ec_node_attrs(n), "help") && !strcmp(ec_dict_get(ec_node_attrs(n), "help"), y[v].s),
				   "help imported");
			na++;
		} else if (same(k, "attrs"))
			for (j = 0; j < y[v].n; j++) {
				k = y[y[v].key[j]].s;
				sym_assert(ec_dict_has_key(ec_node_attrs(n), k) &&
					   !strcmp(ec_dict_get(ec_node_attrs(n), k), y[y[v].val[j]].s), "attribute imported");
				na++;
			}
	}
	sym_assert(id || !strcmp(ec_node_id(n), EC_NO_ID), "no identifier unless there is one");
	sym_assert(ec_dict_len(ec_node_attrs(n)) == na, "no other attribute");
	chk_dict(m, ytype[m], ec_node_get_config(n));
}
static void judge(void)
{
	struct ec_node *n;
	int ok;

	y_build();
	ok = ref_node(0);
	if (twice)
		sym_stop(); /* an entry given twice: not specified */
	n = ec_yaml_import("doc.yaml");
	released();
	if (exotic && n == NULL)
		ok = 0;
	sym_assert((n != NULL) == !!ok, "exactly the documents that describe a grammar are imported");
	if (n) {
		chk_node(0, n);
		sym_cover("imported");
	} else
		sym_cover("refused");
	ec_node_free(n);
	h_end();
}
/* ---- units ---- */
static const char *types[] = { "str", "int", "uint", "any", "many", "option", "once", "bypass", "seq", "or", "re_lex", "zz", "empty" };
#define NT (sizeof(types) / sizeof(types[0]))
static int leaf(void)
{
	int m = y_new(MAP);
	y_set(m, "type", y_scalar("str"));
	y_set(m, "string", y_sym(1, "leaf"));
	return m;
}
/* any value: scalar, list or mapping, nodes, the root itself */
static int value(int d)
{
	int v;
	switch (sym_choice(d ? 9 : 2, "value")) {
	case 0: return y_sym(N, "text");
	case 1: return leaf();
	case 2: return y_new(SEQ);
	case 3: v = y_new(SEQ); y_item(v, leaf()); y_item(v, value(0)); return v;
	case 4: v = y_new(SEQ); y_item(v, 0); y_item(v, leaf()); return v;
	case 5: v = y_new(SEQ); y_item(v, y[v].n ? 0 : leaf()); y_item(v, y[v].val[0]); return v; /* shared */
	case 6: return 0;
	case 7: return y_new(MAP); /* no type */
	default: v = y_new(MAP); y_set(v, "k", y_sym(1, "v")); return v;
	}
}
/* any single entry, known or not, beside the type */
void h_entry(void)
{
	static const char *ks[] = { "string", "min", "max", "base", "attr", "child", "children", "patterns", "pattern", "expr",
				    "id", "help", "attrs" };
	unsigned k, first;
	int m = y_new(MAP), t, tt;

	t = tt = sym_choice(NT, "type");
	k = sym_choice(15, "key");
	first = sym_choice(2, "order");
	sym_part();
	if (first)
		y_set(m, "type", y_scalar(types[t]));
	if (k < 13)
		y_set(m, ks[k], value(1));
	else if (k == 13) {
		t = y_sym(2, "key");
		y_put(m, t, value(1));
		t = tt;
	} else
		y_put(m, y_new(sym_choice(2, "kkind") ? SEQ : MAP), y_sym(1, "v"));
	if (!first)
		y_set(m, "type", y_scalar(types[t]));
	judge();
}
/* several entries: identifier, help, attributes, limits */
void h_full(void)
{
	int m = y_new(MAP), a, i, n, k;
	static const char *ty[] = { "str", "int", "uint", "many" };

	i = sym_choice(4, "type");
	if (sym_choice(2, "id"))
		y_set(m, "id", y_sym(1, "id"));
	y_set(m, "type", y_scalar(ty[i]));
	if (i == 0)
		y_set(m, "string", y_sym(N, "text"));
	if (i == 3)
		y_set(m, "child", leaf());
	if (i && sym_choice(2, "min"))
		y_set(m, "min", y_sym(N, "min"));
	sym_part();
	if (i && sym_choice(2, "max"))
		y_set(m, "max", y_sym(N, "max"));
	n = i ? sym_choice(2, "attrs") * 2 : sym_choice(5, "attrs");
	if (n) {
		a = y_new(MAP);
		if (n == 4) { /* any names, also those of entries of the node */
			static const char *an[] = { "help", "id", "type", "attrs", "string", "" };
			y_set(a, an[sym_choice(6, "aname")], y_sym(1, "v"));
		} else if (n > 1)
			y_set(a, "k1", y_sym(1, "v"));
		if (n == 3) {
			k = sym_choice(2, "akey") ? y_scalar("k2") : y_new(SEQ);
			y_put(a, k, sym_choice(2, "aval") ? y_sym(1, "v") : y_new(MAP));
		}
		y_set(m, "attrs", a);
	}
	if (n != 4 && sym_choice(2, "help")) /* a help and an attribute of that name: not specified */
		y_set(m, "help", y_sym(1, "help"));
	if (!i && n != 4 && sym_choice(2, "dup")) {
		static const char *r[] = { "type", "id", "help", "attrs" };
		n = sym_choice(4, "which");
		y_set(m, r[n], n == 0 ? y_scalar("str") : n == 3 ? y_new(MAP) : y_sym(1, "again"));
	}
	judge();
}
/* numbers and booleans */
void h_num(void)
{
	int m = y_new(MAP), l, p, v;
	unsigned k = sym_choice(5, "kind");

	y_set(m, "type", y_scalar(k == 0 ? "int" : k == 1 ? "uint" : k == 2 ? "many" : "re_lex"));
	if (k < 3)
		y_set(m, k == 2 ? "max" : "min", y_sym(N, "num"));
	if (k >= 2)
		y_set(m, "child", leaf());
	if (k >= 3) {
		l = y_new(SEQ);
		p = y_new(MAP);
		y_set(p, "pattern", y_scalar("a"));
		if (k == 3) {
			static const char *w[] = { "true", "false", "TRUE", "False", "yes", "1", "", "truex", "falsex", "no", "0", "on", "tru", "fals", "null" };
			v = y_scalar(w[sym_choice(15, "word")]);
			if (y[v].s[0] && sym_choice(2, "sym")) /* one byte changed anywhere */
				y[v].s[sym_choice(strlen(y[v].s), "at")] = sym_u8("byte");
			sym_assume(strlen(y[v].s) == strlen(y[v].s));
			y_set(p, "keep", v);
		} else { /* entries of a pattern */
			if (sym_choice(2, "keep"))
				y_set(p, "keep", y_scalar("true"));
			if (sym_choice(2, "attr"))
				y_set(p, "attr", sym_choice(2, "sc") ? y_sym(1, "attr") : y_new(SEQ));
			if (sym_choice(2, "other"))
				y_set(p, "zz", y_sym(1, "other"));
		}
		y_item(l, sym_choice(2, "dict") ? p : y_sym(1, "nodict"));
		y_set(m, "patterns", l);
	}
	sym_part();
	judge();
}
/* keys that look like the known ones */
void h_keys(void)
{
	static const char *ks[] = { "type", "id", "help", "attrs", "string", "min", "max", "base", "attr", "child", "children",
				    "name", "typ", "types", "ids", "i", "helps", "hel", "attribute", "Type", "ID", "desc", "strings",
				    "minimum", "childs", "schema", "label", "_", "type " };
	int m = y_new(MAP), v;
	unsigned k = sym_choice(29, "key"), t = sym_choice(3, "type"), alt = sym_choice(3, "how");

	if (alt == 2)
		y_set(m, "type", y_scalar(t == 0 ? "any" : t == 1 ? "uint" : "str"));
	if (t == 2 && k != 4)
		y_set(m, "string", y_scalar("x"));
	v = k == 9 ? leaf() : k == 3 ? y_new(MAP) : y_sym(1, "text");
	y_set(m, ks[k], v);
	if (alt && y[y[m].key[y[m].n - 1]].s[0]) { /* one byte of the key changed, or one more */
		char *s = y[y[m].key[y[m].n - 1]].s;
		unsigned at = sym_choice(strlen(s) + 1, "at");
		if (!s[at])
			s[at + 1] = 0;
		s[at] = sym_u8("byte");
	}
	if (alt < 2)
		y_set(m, "type", y_scalar(t == 0 ? "any" : t == 1 ? "uint" : "str"));
	sym_part();
	judge();
}
/* nodes named several times */
void h_shared(void)
{
	int m = y_new(MAP), l, c[6], i, n = 1 + sym_choice(6, "n"), nest = sym_choice(2, "nest"), d;
	char t[3] = "a";

	sym_part();
	y_set(m, "type", y_scalar(sym_choice(2, "or") ? "or" : "seq"));
	l = y_new(SEQ);
	for (i = 0; i < n; i++) {
		t[0] = 'a' + i;
		c[i] = y_new(MAP);
		y_set(c[i], "type", y_scalar("str"));
		y_set(c[i], "string", y_scalar(t));
		if (i == 0)
			y_set(c[i], "id", y_sym(1, "id"));
		if (nest && i == n - 1) {
			d = y_new(MAP);
			y_set(d, "type", y_scalar("option"));
			y_set(d, "child", c[sym_choice(n, "in")]);
			y_item(l, d);
		}
		y_item(l, c[i]);
	}
	y_item(l, c[sym_choice(n, "again")]);
	y_set(m, "children", l);
	judge();
}
/* no document */
void h_fail(void)
{
	int k = sym_choice(5, "fault"), m;

	m = y_new(MAP);
	y_set(m, "type", y_scalar("str"));
	y_set(m, "string", y_scalar("a"));
	y_build();
	fail_open = k == 0;
	fail_parser = k == 1;
	fail_load = k == 2;
	empty_doc = k == 3;
	if (k == 4) { /* the document is not a mapping */
		yn[0].type = sym_choice(2, "root") ? YAML_SCALAR_NODE : YAML_SEQUENCE_NODE;
		yn[0].data.scalar.value = (yaml_char_t *)"x";
		if (yn[0].type == YAML_SEQUENCE_NODE)
			yn[0].data.sequence.items.start = yn[0].data.sequence.items.top = items[0];
	}
	sym_assert(ec_yaml_import("doc.yaml") == NULL, "refused");
	released();
	h_end();
}
/* the imported grammar parses like the one built by hand */
#ifndef D
#define D 1
#endif
#ifndef W
#define W 2
#endif
static int emit(const struct g *g)
{
	static const char *nm[] = { "str", "any", "empty", "none", "option", "seq", "or", "many", "bypass", "subset", "once" };
	char d[2] = "0";
	unsigned i;
	int m = y_new(MAP), l;

	y_set(m, "type", y_scalar(nm[g->kind]));
	y_set(m, "id", y_scalar(g->id));
	switch (g->kind) {
	case G_STR: y_set(m, "string", y_scalar(g->lit)); break;
	case G_ANY: break;
	case G_MANY:
		d[0] = '0' + g->min;
		y_set(m, "min", y_scalar(d));
		d[0] = '0' + g->max;
		y_set(m, "max", y_scalar(d));
		/* fall through */
	case G_OPTION: case G_BYPASS: case G_ONCE: y_set(m, "child", emit(g->k[0])); break;
	default:
		l = y_new(SEQ);
		for (i = 0; i < g->nk; i++)
			y_item(l, emit(g->k[i]));
		y_set(m, "children", l);
	}
	return m;
}
void h_parse(void)
{
	struct ec_strvec *v;
	struct ec_node *n;
	struct ec_pnode *p, *q, *a, *b;
	struct g *g = g_any(D, K(G_STR) | K(G_ANY) | K(G_OPTION) | K(G_SEQ) | K(G_OR) | K(G_MANY) | K(G_BYPASS), "g");

	sym_part();
	emit(g);
	y_build();
	n = ec_yaml_import("doc.yaml");
	released();
	sym_assert(n != NULL, "imported");
	v = w_make(sym_choice(W + 1, "nwords"), 1, "w");
	p = ec_parse_strvec(g->node, v);
	q = ec_parse_strvec(n, v);
	sym_assert(p && q && ec_pnode_matches(p) == ec_pnode_matches(q) && ec_pnode_len(p) == ec_pnode_len(q),
		   "parses like the grammar built by hand");
	for (a = p, b = q; a && b; a = EC_PNODE_ITER_NEXT(p, a, 1), b = EC_PNODE_ITER_NEXT(q, b, 1))
		sym_assert(!strcmp(ec_node_id(ec_pnode_get_node(a)), ec_node_id(ec_pnode_get_node(b))), "same tree");
	sym_assert(a == NULL && b == NULL, "same tree size");
	ec_pnode_free(p);
	ec_pnode_free(q);
	ec_node_free(n);
	ec_node_free(g->node);
	ec_strvec_free(v);
	h_end();
}
/* any one memory request fails during the import */
void h_oom(void)
{
	int m = y_new(MAP), a, l, c, t;
	unsigned k = sym_choice(5, "kind");
	struct ec_node *n;
	uint32_t at = sym_u32("failing");

	y_set(m, "id", y_scalar("root"));
	y_set(m, "help", y_scalar("hlp"));
	a = y_new(MAP);
	y_set(a, "k1", y_scalar("v1"));
	y_set(m, "attrs", a);
	c = y_new(MAP);
	y_set(c, "type", y_scalar("str"));
	y_set(c, "string", y_scalar("a"));
	switch (k) {
	case 0: /* shared children in a list */
		y_set(m, "type", y_scalar("seq"));
		l = y_new(SEQ);
		y_item(l, c);
		y_item(l, c);
		y_set(m, "children", l);
		break;
	case 1:
		y_set(m, "type", y_scalar("many"));
		y_set(m, "min", y_scalar("1"));
		y_set(m, "child", c);
		break;
	case 2:
		y_set(m, "type", y_scalar("re_lex"));
		l = y_new(SEQ);
		t = y_new(MAP);
		y_set(t, "pattern", y_scalar("a"));
		y_set(t, "keep", y_scalar("true"));
		y_set(t, "attr", y_scalar("at"));
		y_item(l, t);
		y_set(m, "patterns", l);
		y_set(m, "child", c);
		break;
	case 3:
		y_set(m, "type", y_scalar("cmd"));
		y_set(m, "expr", y_scalar("a [b]"));
		l = y_new(SEQ);
		y_set(c, "id", y_scalar("a"));
		y_item(l, c);
		y_set(m, "children", l);
		break;
	default:
		y_set(m, "type", y_scalar("int"));
		y_set(m, "min", y_scalar("-3"));
		y_set(m, "max", y_scalar("5"));
		break;
	}
	y_build();
	sym_part();
	h_arm(at);
	n = ec_yaml_import("doc.yaml");
	h_disarm();
	sym_assert(n != NULL || h_failed, "fails only when memory runs out: import");
	sym_assert(n == NULL || !h_failed, "running out of memory is reported: import");
	released();
	sym_cover(n ? "done" : "failed");
	ec_node_free(n);
	h_end();
}
