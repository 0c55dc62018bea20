/* P14: configurations as values */
#include "harness.h"
#ifndef D
#define D 1
#endif
#ifndef SL
#define SL 1
#endif
struct cv {
	int type;
	uint64_t n;
	char s[SL + 1];
	unsigned nk;
	const char *key[2];
	struct cv *k[2];
};
static struct cv pool[32];
static unsigned npool;
static struct ec_node *nodes[2];

static struct ec_config *gen(struct cv **out, unsigned d, unsigned width)
{
	struct cv *v = &pool[npool++];
	struct ec_config *c = NULL, *e;
	unsigned i, keys;

	memset(v, 0, sizeof(*v));
	*out = v;
	v->type = 1 + sym_choice(d ? 7 : 5, "type");
	switch (v->type) {
	case EC_CONFIG_TYPE_BOOL: v->n = sym_u8("b") & 1; c = ec_config_bool(v->n); break;
	case EC_CONFIG_TYPE_INT64: v->n = sym_u64("i"); c = ec_config_i64(v->n); break;
	case EC_CONFIG_TYPE_UINT64: v->n = sym_u64("u"); c = ec_config_u64(v->n); break;
	case EC_CONFIG_TYPE_STRING: h_str(v->s, SL, "s"); c = ec_config_string(v->s); break;
	case EC_CONFIG_TYPE_NODE: v->n = sym_choice(2, "node"); c = ec_config_node(ec_node_clone(nodes[v->n])); break;
	case EC_CONFIG_TYPE_LIST:
		c = ec_config_list();
		v->nk = sym_choice(width + 1, "len");
		for (i = 0; i < v->nk; i++) {
			e = gen(&v->k[i], d - 1, 1);
			sym_assert(ec_config_list_add(c, e) == 0, "list element added");
		}
		break;
	default:
		c = ec_config_dict();
		keys = sym_choice(width > 1 ? 4 : 3, "keys");
		for (i = 0; i < 2; i++)
			if (keys & (1u << i)) {
				e = gen(&v->k[v->nk], d - 1, 1);
				v->key[v->nk] = i ? "l" : "k";
				sym_assert(ec_config_dict_set(c, v->key[v->nk], e) == 0, "entry set");
				v->nk++;
			}
		break;
	}
	sym_assert(c != NULL, "value built");
	return c;
}
static int ref_eq(const struct cv *a, const struct cv *b)
{
	unsigned i;

	if (a->type != b->type || a->nk != b->nk)
		return 0;
	for (i = 0; i < a->nk; i++) {
		if (a->key[i] != b->key[i]) /* keys are added in one order */
			return 0;
		if (!ref_eq(a->k[i], b->k[i]))
			return 0;
	}
	return a->n == b->n && strcmp(a->s, b->s) == 0;
}
/* the configuration holds exactly the described value */
static void check(const struct cv *v, struct ec_config *c)
{
	struct ec_config *e;
	unsigned i;

	sym_assert(ec_config_get_type(c) == (enum ec_config_type)v->type, "type kept");
	switch (v->type) {
	case EC_CONFIG_TYPE_BOOL: sym_assert(c->boolean == v->n, "boolean kept"); break;
	case EC_CONFIG_TYPE_INT64: sym_assert(c->i64 == (int64_t)v->n, "signed integer kept"); break;
	case EC_CONFIG_TYPE_UINT64: sym_assert(c->u64 == v->n, "unsigned integer kept"); break;
	case EC_CONFIG_TYPE_STRING: sym_assert(strcmp(c->string, v->s) == 0, "string kept"); break;
	case EC_CONFIG_TYPE_NODE: sym_assert(c->node == nodes[v->n], "node kept"); break;
	case EC_CONFIG_TYPE_LIST:
		sym_assert(ec_config_count(c) == v->nk, "list length kept");
		for (i = 0, e = ec_config_list_first(c); i < v->nk; i++, e = ec_config_list_next(c, e)) {
			sym_assert(e != NULL, "list element kept");
			check(v->k[i], e);
		}
		sym_assert(e == NULL, "no other list element");
		break;
	default:
		sym_assert(ec_config_count(c) == v->nk, "dictionary size kept");
		for (i = 0; i < v->nk; i++) {
			e = ec_config_dict_get(c, v->key[i]);
			sym_assert(e != NULL, "entry kept");
			check(v->k[i], e);
		}
	}
}
static void start(void)
{
	h_init();
	nodes[0] = ec_node_str("n", "x");
	nodes[1] = ec_node_str("n", "x");
}
static void finish(void)
{
	ec_node_free(nodes[0]);
	ec_node_free(nodes[1]);
	h_end();
}
void h_cmp(void)
{
	struct cv *a, *b;
	struct ec_config *x, *y;
	int r, s;

	start();
	x = gen(&a, D, 2);
	sym_part();
	y = gen(&b, D, 2);
	r = ec_config_cmp(x, y);
	s = ec_config_cmp(y, x);
	sym_assert((r == 0) == ref_eq(a, b), "configurations compare equal exactly when they hold the same value");
	sym_assert((r == 0) == (s == 0), "comparison is symmetric");
	if (r == 0)
		sym_cover("equal");
	else
		sym_cover("differ");
	sym_assert(ec_config_cmp(x, NULL) != 0 && ec_config_cmp(NULL, x) != 0, "nothing is not equal to a value");
	check(a, x);
	check(b, y);
	ec_config_free(x);
	ec_config_free(y);
	finish();
}
/* a copy equals its source and lives on its own */
void h_dup(void)
{
	struct cv *a, *n;
	struct ec_config *x, *y, *e;
	unsigned op;

	start();
	x = gen(&a, D, 2);
	sym_part();
	y = ec_config_dup(x);
	sym_assert(y != NULL && y != x, "copy made");
	sym_assert(ec_config_cmp(x, y) == 0, "a copy equals its source");
	check(a, y);
	op = sym_choice(4, "op");
	if (op == 0)
		ec_config_free(x);
	else {
		/* change the source or the copy, at the top or one level below */
		struct ec_config *src = op == 3 ? y : x, *t = src;
		e = NULL;
		if (a->nk > 0 && op == 2)
			t = a->type == EC_CONFIG_TYPE_LIST ? ec_config_list_first(src) : ec_config_dict_get(src, a->key[0]);
		switch (ec_config_get_type(t)) {
		case EC_CONFIG_TYPE_LIST:
			if (ec_config_count(t) > 0 && sym_choice(2, "del"))
				sym_assert(ec_config_list_del(t, ec_config_list_first(t)) == 0, "element removed");
			else
				sym_assert(ec_config_list_add(t, ec_config_bool(true)) == 0, "element added");
			break;
		case EC_CONFIG_TYPE_DICT:
			if (sym_choice(2, "del"))
				(void)ec_config_dict_del(t, "k");
			else
				sym_assert(ec_config_dict_set(t, "k", ec_config_string("zz")) == 0, "entry replaced");
			break;
		case EC_CONFIG_TYPE_STRING:
			if (t->string[0])
				t->string[0] ^= 1;
			break;
		default: t->u64 = t->type == EC_CONFIG_TYPE_NODE ? t->u64 : ~t->u64; break;
		}
		check(a, src == x ? y : x);
		ec_config_free(x);
	}
	if (op != 3)
		check(a, y);
	ec_config_free(y);
	(void)n;
	(void)e;
	finish();
}
/* validation against a schema with every kind of entry */
static const struct ec_config_schema elt_u64[] = { { .type = EC_CONFIG_TYPE_UINT64 }, { .type = EC_CONFIG_TYPE_NONE } };
static const struct ec_config_schema sub[] = {
	{ .key = "k", .type = EC_CONFIG_TYPE_STRING }, { .key = "l", .type = EC_CONFIG_TYPE_BOOL }, { .type = EC_CONFIG_TYPE_NONE } };
static const struct ec_config_schema elt_sub[] = { { .type = EC_CONFIG_TYPE_DICT, .subschema = sub }, { .type = EC_CONFIG_TYPE_NONE } };
static const struct ec_config_schema elt_lst[] = { { .type = EC_CONFIG_TYPE_LIST, .subschema = elt_u64 }, { .type = EC_CONFIG_TYPE_NONE } };
static const struct ec_config_schema schema[] = {
	{ .key = "bo", .type = EC_CONFIG_TYPE_BOOL },
	{ .key = "in", .type = EC_CONFIG_TYPE_INT64 },
	{ .key = "un", .type = EC_CONFIG_TYPE_UINT64 },
	{ .key = "st", .type = EC_CONFIG_TYPE_STRING },
	{ .key = "no", .type = EC_CONFIG_TYPE_NODE },
	{ .key = "lu", .type = EC_CONFIG_TYPE_LIST, .subschema = elt_u64 },
	{ .key = "di", .type = EC_CONFIG_TYPE_DICT, .subschema = sub },
	{ .key = "ld", .type = EC_CONFIG_TYPE_LIST, .subschema = elt_sub },
	{ .key = "ll", .type = EC_CONFIG_TYPE_LIST, .subschema = elt_lst },
	{ .type = EC_CONFIG_TYPE_NONE },
};
static int ref_valid(const struct cv *v, const struct ec_config_schema *s)
{
	unsigned i, j;

	if ((int)s->type != v->type)
		return 0;
	if (v->type == EC_CONFIG_TYPE_LIST)
		for (i = 0; i < v->nk; i++)
			if (!ref_valid(v->k[i], s->subschema))
				return 0;
	if (v->type == EC_CONFIG_TYPE_DICT)
		for (i = 0; i < v->nk; i++) {
			for (j = 0; s->subschema[j].type != EC_CONFIG_TYPE_NONE; j++)
				if (strcmp(s->subschema[j].key, v->key[i]) == 0)
					break;
			if (s->subschema[j].type == EC_CONFIG_TYPE_NONE || !ref_valid(v->k[i], &s->subschema[j]))
				return 0;
		}
	return 1;
}
void h_validate(void)
{
	struct cv *a;
	struct ec_config *x, *e;
	unsigned k = sym_choice(11, "key"), i;
	int exp, r;
	static const char *const other[] = { "zz", "b" };

	start();
	sym_assert(ec_config_schema_validate(schema) == 0, "the schema is valid");
	x = ec_config_dict();
	if (sym_choice(2, "first"))
		sym_assert(ec_config_dict_set(x, "un", ec_config_u64(3)) == 0, "entry set");
	e = gen(&a, 2, 2);
	sym_part();
	exp = k < 9 && ref_valid(a, &schema[k]);
	sym_assert(ec_config_dict_set(x, k < 9 ? schema[k].key : other[k - 9], e) == 0, "entry set");
	if (sym_choice(2, "last"))
		sym_assert(ec_config_dict_set(x, "bo", ec_config_bool(true)) == 0, "entry set"), exp = k == 0 || exp;
	if (k == 2 && 0)
		exp = 1;
	r = ec_config_validate(x, schema);
	sym_assert((r == 0) == !!exp, "a configuration is valid exactly when each entry is known and has its type");
	if (r)
		sym_cover("invalid");
	else
		sym_cover("valid");
	for (i = 0; i < 9; i++)
		sym_assert(ec_config_schema_lookup(schema, schema[i].key) == &schema[i], "schema entry found");
	sym_assert(ec_config_schema_lookup(schema, "zz") == NULL, "unknown entry not found");
	ec_config_free(x);
	x = ec_config_list();
	sym_assert(ec_config_validate(x, schema) < 0, "only a dictionary is a configuration");
	ec_config_free(x);
	finish();
}
/* schemas: every pair of entries */
static struct ec_config_schema sc[3];
void h_schema(void)
{
	static const char *const keys[] = { NULL, "a", "b", "id", "attrs", "help", "type" };
	static const struct ec_config_schema one[] = { { .type = EC_CONFIG_TYPE_UINT64 }, { .type = EC_CONFIG_TYPE_NONE } };
	static const struct ec_config_schema onek[] = { { .key = "c", .type = EC_CONFIG_TYPE_UINT64 }, { .type = EC_CONFIG_TYPE_NONE } };
	static const struct ec_config_schema two[] = { { .key = "c", .type = EC_CONFIG_TYPE_UINT64 }, { .key = "d", .type = EC_CONFIG_TYPE_BOOL }, { .type = EC_CONFIG_TYPE_NONE } };
	static const struct ec_config_schema none[] = { { .type = EC_CONFIG_TYPE_NONE } };
	static const struct ec_config_schema onekd[] = { { .key = "c", .type = EC_CONFIG_TYPE_DICT, .subschema = two }, { .type = EC_CONFIG_TYPE_NONE } };
	static const struct ec_config_schema lod[] = { { .type = EC_CONFIG_TYPE_DICT, .subschema = two }, { .type = EC_CONFIG_TYPE_NONE } };
	static const struct ec_config_schema lol[] = { { .type = EC_CONFIG_TYPE_LIST, .subschema = one }, { .type = EC_CONFIG_TYPE_NONE } };
	static const struct ec_config_schema lolk[] = { { .type = EC_CONFIG_TYPE_LIST, .subschema = onek }, { .type = EC_CONFIG_TYPE_NONE } };
	static const struct ec_config_schema pair[] = { { .type = EC_CONFIG_TYPE_UINT64 }, { .type = EC_CONFIG_TYPE_BOOL }, { .type = EC_CONFIG_TYPE_NONE } };
	static const struct ec_config_schema same[] = { { .key = "c", .type = EC_CONFIG_TYPE_UINT64 }, { .key = "c", .type = EC_CONFIG_TYPE_BOOL }, { .type = EC_CONFIG_TYPE_NONE } };
	static const struct ec_config_schema resv[] = { { .key = "id", .type = EC_CONFIG_TYPE_UINT64 }, { .type = EC_CONFIG_TYPE_NONE } };
	static const struct ec_config_schema *const subs[] = { NULL, one, onek, two, none, onekd, lod, lol, lolk, pair, same, resv };
	unsigned i, n = sym_choice(3, "n"), k[2], s[2];
	int ok = 1;

	h_init();
	for (i = 0; i < n; i++) {
		k[i] = sym_choice(i ? 4 : 7, "key");
		s[i] = sym_choice(i ? 5 : 12, "sub");
		sc[i].key = keys[k[i]];
		sc[i].type = 1 + sym_choice(8, "type");
		sc[i].subschema = subs[s[i]];
		if (k[i] == 0 || k[i] > 2)
			ok = 0;
		switch (sc[i].type) {
		case 1: case 2: case 3: case 4: case 5: ok &= s[i] == 0; break;
		case EC_CONFIG_TYPE_LIST: ok &= s[i] == 1 || s[i] == 6 || s[i] == 7; break;
		case EC_CONFIG_TYPE_DICT: ok &= s[i] == 2 || s[i] == 3 || s[i] == 5; break;
		default: ok = 0;
		}
	}
	if (n == 2 && k[0] == k[1])
		ok = 0;
	sym_assert((ec_config_schema_validate(sc) == 0) == ok, "a schema is accepted exactly when it is well formed");
	if (ok)
		sym_cover("ok");
	h_end();
}
/* longer schemas: one pair of entries may share a key, one entry may be wrong */
#ifndef NSC
#define NSC 8
#endif
void h_schemas(void)
{
	static const char *const keys[] = { "a", "b", "c", "d", "e", "f", "g", "h", "i", "j" };
	static struct ec_config_schema s[NSC + 1];
	unsigned i, n = 1 + sym_choice(NSC, "n"), from, to, how;
	int ok = 1;

	h_init();
	for (i = 0; i < n; i++) {
		s[i].key = keys[i];
		s[i].type = EC_CONFIG_TYPE_UINT64 - i % 3;
	}
	from = sym_choice(n, "from");
	to = sym_choice(n, "to");
	how = sym_choice(4, "how");
	switch (how) {
	case 0: s[to].key = s[from].key; ok = to == from; break;
	case 1: s[to].key = "help"; ok = 0; break;
	case 2: s[to].key = NULL; ok = 0; break;
	default: break;
	}
	if (how == 3) {
		sym_assert(ec_config_schema_lookup(s, keys[to]) == &s[to], "schema entry found");
		sym_assert(ec_config_schema_lookup(s, keys[n]) == NULL && errno == ENOENT, "unknown entry not found");
	}
	sym_assert((ec_config_schema_validate(s) == 0) == ok, "a schema is accepted exactly when it is well formed");
	if (ok)
		sym_cover("ok");
	h_end();
}
/* long strings and keys, one byte of which may differ */
static const unsigned lens[] = { 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300 };
void h_long(void)
{
	static char a[302], b[302], k0[302], k1[302];
	static struct ec_config_schema s[3];
	unsigned n, where, i, key;
	struct ec_config *x, *y, *z, *d;
	int eq;

	start();
	n = lens[sym_choice(sizeof(lens) / sizeof(lens[0]), "len")];
	memset(a, 'q', n);
	memcpy(b, a, n);
	where = sym_choice(4, "where");
	i = where == 0 ? 0 : where == 1 ? n / 2 : n - 1;
	if (where < 3)
		b[i] = sym_u8("byte");
	else
		b[n] = sym_u8("byte");
	eq = strcmp(a, b) == 0;
	x = ec_config_string(a);
	y = ec_config_string(b);
	sym_assert(strcmp(x->string, a) == 0 && strcmp(y->string, b) == 0, "string kept");
	sym_assert((ec_config_cmp(x, y) == 0) == eq && (ec_config_cmp(y, x) == 0) == eq, "strings are equal exactly when all their bytes are");
	z = ec_config_dup(y);
	sym_assert(z != NULL && strcmp(z->string, b) == 0 && ec_config_cmp(z, y) == 0, "copy of a string");
	ec_config_free(z);
	/* the same text as a key */
	memset(k0, 'k', n);
	memcpy(k1, k0, n);
	k0[n] = where == 3 ? 0 : 'e';
	k1[n] = where == 3 ? 'x' : 'e';
	if (where < 3)
		k1[i] = 'x';
	s[0].key = k0;
	s[0].type = EC_CONFIG_TYPE_STRING;
	s[1].key = k1;
	s[1].type = EC_CONFIG_TYPE_NODE;
	sym_assert(ec_config_schema_validate(s) == 0, "a schema of two different keys");
	sym_assert(ec_config_schema_lookup(s, k0) == &s[0] && ec_config_schema_lookup(s, k1) == &s[1], "each key finds its entry");
	key = sym_choice(2, "key");
	d = ec_config_dict();
	sym_assert(ec_config_dict_set(d, key ? k1 : k0, x) == 0, "entry set");
	sym_assert(ec_config_dict_get(d, k0) == (key ? NULL : x) && ec_config_dict_get(d, k1) == (key ? x : NULL), "entry found under its key only");
	sym_assert((ec_config_validate(d, s) == 0) == (key == 0), "a configuration is valid exactly when each entry has its type");
	sym_assert(ec_config_dict_del(d, key ? k0 : k1) < 0 && ec_config_count(d) == 1, "nothing to delete under another key");
	ec_config_free(d);
	ec_config_free(y);
	finish();
}
/* lists and dictionaries of many elements, one of which differs, is missing, comes last or is deleted */
#ifndef NB
#define NB 20
#endif
void h_many(void)
{
	static char ks[NB + 1][8];
	unsigned n, dict, pos, how, i;
	struct ec_config *x, *y, *z, *e, *it[NB + 1];
	uint64_t v;
	int eq;

	start();
	dict = sym_choice(2, "dict");
	n = NB - sym_choice(5, "n");
	how = sym_choice(4, "how");
	sym_part();
	pos = sym_choice(n, "pos");
	x = dict ? ec_config_dict() : ec_config_list();
	y = dict ? ec_config_dict() : ec_config_list();
	v = sym_u64("v");
	for (i = 0; i < n; i++) {
		snprintf(ks[i], sizeof(ks[i]), "k%d", i);
		e = ec_config_u64(i);
		sym_assert((dict ? ec_config_dict_set(x, ks[i], e) : ec_config_list_add(x, e)) == 0, "element added");
		if (how == 1 && i == pos)
			continue;
		e = ec_config_u64(how == 0 && i == pos ? v : i);
		sym_assert((dict ? ec_config_dict_set(y, ks[i], e) : ec_config_list_add(y, e)) == 0, "element added");
	}
	if (how == 2) {
		e = ec_config_i64(1);
		sym_assert((dict ? ec_config_dict_set(y, "other", e) : ec_config_list_add(y, e)) == 0, "element added");
	}
	eq = how == 3 || (how == 0 && v == pos);
	sym_assert((ec_config_cmp(x, y) == 0) == eq && (ec_config_cmp(y, x) == 0) == eq, "configurations compare equal exactly when they hold the same value");
	sym_assert(ec_config_count(x) == n && ec_config_count(y) == n - (how == 1) + (how == 2), "number of elements");
	z = ec_config_dup(x);
	sym_assert(z != NULL && ec_config_cmp(z, x) == 0 && ec_config_cmp(x, z) == 0, "a copy equals its source");
	/* delete one element of the copy */
	if (dict) {
		sym_assert(ec_config_dict_del(z, ks[pos]) == 0 && ec_config_dict_get(z, ks[pos]) == NULL, "entry deleted");
	} else {
		for (i = 0, e = ec_config_list_first(z); e != NULL; e = ec_config_list_next(z, e))
			it[i++] = e;
		sym_assert(i == n, "list elements visited");
		sym_assert(ec_config_list_del(z, it[pos]) == 0, "element deleted");
	}
	sym_assert(ec_config_count(z) == n - 1 && ec_config_count(x) == n, "one element fewer in the copy only");
	sym_assert(ec_config_cmp(z, x) != 0, "the copy now differs");
	for (i = 0, e = dict ? NULL : ec_config_list_first(z); i < n; i++) {
		if (i == pos)
			continue;
		if (dict)
			e = ec_config_dict_get(z, ks[i]);
		sym_assert(e != NULL && ec_config_get_type(e) == EC_CONFIG_TYPE_UINT64 && e->u64 == i, "the other elements remain, in order");
		if (!dict)
			e = ec_config_list_next(z, e);
	}
	if (!dict)
		sym_assert(e == NULL, "no other element");
	ec_config_free(x);
	ec_config_free(y);
	ec_config_free(z);
	finish();
}
/* operations on values of another type are refused and consume their argument */
void h_misuse(void)
{
	struct cv *a, *b;
	struct ec_config *x, *y;
	unsigned op;
	int isd, isl, r;

	start();
	x = gen(&a, 1, 1);
	isd = a->type == EC_CONFIG_TYPE_DICT;
	isl = a->type == EC_CONFIG_TYPE_LIST;
	op = sym_choice(10, "op");
	switch (op) {
	case 0:
		y = gen(&b, 1, 1);
		r = ec_config_dict_set(x, "new", y);
		sym_assert((r == 0) == isd && (r == 0 || errno == EINVAL), "entries are set in dictionaries only");
		if (isd)
			sym_assert(ec_config_dict_get(x, "new") == y && ec_config_count(x) == (ssize_t)a->nk + 1, "entry set");
		break;
	case 1:
		y = gen(&b, 1, 1);
		r = ec_config_list_add(x, y);
		sym_assert((r == 0) == isl && (r == 0 || errno == EINVAL), "elements are added to lists only");
		if (isl)
			sym_assert(ec_config_count(x) == (ssize_t)a->nk + 1, "element added");
		break;
	case 2:
		y = gen(&b, 1, 1);
		sym_assert(ec_config_dict_set(NULL, "new", y) < 0 && errno == EINVAL, "no dictionary");
		break;
	case 3:
		y = gen(&b, 1, 1);
		sym_assert(ec_config_list_add(NULL, y) < 0 && errno == EINVAL, "no list");
		break;
	case 4:
		y = gen(&b, 1, 1);
		sym_assert(ec_config_dict_set(x, NULL, y) < 0 && errno == EINVAL, "no key");
		break;
	case 5:
		sym_assert(ec_config_dict_set(x, "new", NULL) < 0 && ec_config_list_add(x, NULL) < 0 && errno == EINVAL, "no value");
		break;
	case 6:
		sym_assert(ec_config_dict_del(x, "zz") < 0 && ec_config_dict_del(x, NULL) < 0 && ec_config_dict_del(NULL, "k") < 0, "nothing to delete");
		r = ec_config_dict_del(x, "k");
		sym_assert((r == 0) == (isd && a->nk > 0 && a->key[0][0] == 'k'), "an existing entry is deleted");
		if (r == 0) {
			sym_assert(ec_config_count(x) == (ssize_t)a->nk - 1 && ec_config_dict_get(x, "k") == NULL, "entry deleted");
			ec_config_free(x);
			finish();
			return;
		}
		break;
	case 7:
		if (!isd)
			sym_assert(ec_config_dict_get(x, "k") == NULL && errno == EINVAL, "only a dictionary has entries");
		if (!isl)
			sym_assert(ec_config_list_first(x) == NULL && errno == EINVAL && ec_config_list_del(x, x) < 0, "only a list has elements");
		if (!isd && !isl)
			sym_assert(ec_config_count(x) < 0 && errno == EINVAL, "only lists and dictionaries have a size");
		sym_assert(ec_config_dict_get(NULL, "k") == NULL && ec_config_list_first(NULL) == NULL && ec_config_list_del(NULL, NULL) < 0, "no configuration");
		break;
	case 8:
		sym_assert(ec_config_dup(NULL) == NULL && errno == EINVAL, "no configuration to copy");
		sym_assert(ec_config_string(NULL) == NULL && ec_config_node(NULL) == NULL, "no string, no node");
		break;
	default:
		sym_assert(ec_config_validate(x, NULL) < 0, "no schema");
		if (!isd)
			sym_assert(ec_config_validate(x, schema) < 0 && errno == EINVAL, "only a dictionary is a configuration");
		break;
	}
	if (!(op == 0 && isd) && !(op == 1 && isl))
		check(a, x);
	ec_config_free(x);
	finish();
}
/* node types: a refused configuration leaves the previous one in force */
static int accepts(struct ec_node *n, const char *a, const char *b)
{
	struct ec_strvec *v = ec_strvec();
	struct ec_pnode *p;
	int r;

	if (a)
		sym_assert(ec_strvec_add(v, a) == 0, "word added");
	if (b)
		sym_assert(ec_strvec_add(v, b) == 0, "word added");
	p = ec_parse_strvec(n, v);
	sym_assert(p != NULL, "parsing does not fail");
	r = ec_pnode_matches(p) ? (int)ec_pnode_len(p) : -1;
	ec_pnode_free(p);
	ec_strvec_free(v);
	return r;
}
static struct ec_config *cfg_ok(unsigned t, const char *w)
{
	struct ec_config *c = ec_config_dict(), *l, *d;
	int r = 0;

	switch (t) {
	case 0: r = ec_config_dict_set(c, "string", ec_config_string(w)); break;
	case 1: r = ec_config_dict_set(c, "pattern", ec_config_string(w)); break;
	case 2: case 3: case 4: case 5: r = ec_config_dict_set(c, "child", ec_config_node(ec_node_str("c", w))); break;
	case 6: case 7:
		l = ec_config_list();
		r = ec_config_list_add(l, ec_config_node(ec_node_str("c", w)));
		r |= ec_config_dict_set(c, "children", l);
		break;
	case 8:
		r = ec_config_dict_set(c, "expr", ec_config_string(w));
		r |= ec_config_dict_set(c, "children", ec_config_list());
		break;
	case 9:
		r = ec_config_dict_set(c, "expr", ec_config_string("cmp(eq, 1, 1)"));
		r |= ec_config_dict_set(c, "child", ec_config_node(ec_node_str("c", w)));
		break;
	case 10:
		l = ec_config_list();
		d = ec_config_dict();
		r = ec_config_dict_set(d, "pattern", ec_config_string("[a-z]"));
		r |= ec_config_dict_set(d, "keep", ec_config_bool(true));
		r |= ec_config_list_add(l, d);
		r |= ec_config_dict_set(c, "patterns", l);
		r |= ec_config_dict_set(c, "child", ec_config_node(ec_node_str("c", w)));
		break;
	}
	sym_assert(c != NULL && r == 0, "configuration built");
	return c;
}
void h_node(void)
{
	static const char *const ty[] = { "str", "re", "option", "many", "once", "bypass", "seq", "or", "cmd", "cond", "re_lex" };
	static const char *const main_key[] = { "string", "pattern", "child", "child", "child", "child", "children", "children", "expr", "child", "child" };
	unsigned t = sym_choice(11, "type"), bad = sym_choice(8, "bad"), ok = 0;
	struct ec_node *n;
	struct ec_config *c1, *c2, *dup;
	const struct ec_config *now;
	struct cv *a;
	int r;

	start();
	n = ec_node(ty[t], "n");
	c1 = cfg_ok(t, "a");
	dup = ec_config_dup(c1);
	sym_assert(ec_node_set_config(n, c1) == 0, "a valid configuration is accepted");
	sym_assert(ec_node_get_config(n) == c1, "the configuration is in force");
	c2 = bad == 7 ? ec_config_dup(c1) : cfg_ok(t, "b");
	switch (bad) {
	case 0: case 7: ok = 1; break; /* another one, or an equal one */
	case 1: sym_assert(ec_config_dict_del(c2, main_key[t]) == 0, "entry removed"); break;
	case 2: sym_assert(ec_config_dict_set(c2, "zz", ec_config_bool(true)) == 0, "entry set"); break;
	case 3: { /* main entry of any type and value */
		struct ec_config *e = gen(&a, 1, 1);
		int same = a->type == (t <= 1 || t == 8 ? EC_CONFIG_TYPE_STRING : t == 6 || t == 7 ? EC_CONFIG_TYPE_LIST : EC_CONFIG_TYPE_NODE);
		if (same) {
			ec_config_free(e);
			e = NULL;
		}
		if (e == NULL) {
			ec_config_free(c2);
			ec_config_free(dup);
			ec_node_free(n);
			finish();
			return;
		}
		sym_assert(ec_config_dict_set(c2, main_key[t], e) == 0, "entry set");
		break;
	}
	case 4: ec_config_free(c2); c2 = ec_config_list(); break; /* not a dictionary */
	case 5: /* right type, unusable value */
		switch (t) {
		case 1: r = ec_config_dict_set(c2, "pattern", ec_config_string("(")); break;
		case 3: r = ec_config_dict_set(c2, sym_choice(2, "mm") ? "min" : "max", ec_config_u64(0x100000000ull + (sym_u8("hi") & 7))); break;
		case 6: case 7: r = ec_config_list_add(ec_config_dict_get(c2, "children"), ec_config_string("x")); break;
		case 8: r = ec_config_dict_set(c2, "expr", ec_config_string("(")); break;
		case 9: r = ec_config_dict_set(c2, "expr", ec_config_string("cmp(")); break;
		case 10: r = ec_config_dict_del(ec_config_list_first(ec_config_dict_get(c2, "patterns")), sym_choice(2, "e") ? "pattern" : "keep"); break;
		default: ok = 1; r = 0; break;
		}
		sym_assert(r == 0, "entry set");
		break;
	default:
		if (t == 10) {
			r = ec_config_dict_set(ec_config_list_first(ec_config_dict_get(c2, "patterns")), "pattern", ec_config_string("("));
			sym_assert(r == 0, "entry set");
		} else
			ok = 1;
	}
	r = ec_node_set_config(n, c2);
	sym_assert((r == 0) == ok, "a configuration is accepted exactly when it is complete and well typed");
	now = ec_node_get_config(n);
	if (ok) {
		sym_assert(now == c2, "an accepted configuration is in force");
		sym_assert(accepts(n, bad == 7 ? "a" : "b", NULL) == 1 && accepts(n, bad == 7 ? "b" : "a", NULL) != 1, "the node follows its new configuration");
		sym_cover("accepted");
	} else {
		sym_assert(now == c1 && ec_config_cmp(now, dup) == 0, "a refused configuration leaves the previous one in place");
		sym_assert(accepts(n, "a", NULL) == 1 && accepts(n, "b", NULL) != 1, "the node still follows its previous configuration");
		sym_cover("refused");
	}
	ec_config_free(dup);
	ec_node_free(n);
	finish();
}
/* entries that the next configuration leaves out no longer apply */
static int set(struct ec_config *c, const char *k, struct ec_config *v)
{
	return ec_config_dict_set(c, k, v);
}
static struct ec_config *cfg_of(unsigned t, unsigned opts, const char *w)
{
	struct ec_config *c = ec_config_dict(), *l, *d;
	int r = 0;

	switch (t) {
	case 0: /* any */
		if (opts & 1)
			r = set(c, "attr", ec_config_string("t"));
		break;
	case 1: case 2: /* int, uint: 1 and 12 */
		if (opts & 1)
			r |= set(c, "min", t == 1 ? ec_config_i64(5) : ec_config_u64(5));
		if (opts & 2)
			r |= set(c, "max", t == 1 ? ec_config_i64(9) : ec_config_u64(9));
		if (opts & 4)
			r |= set(c, "base", ec_config_u64(2));
		break;
	case 3: /* many */
		r = set(c, "child", ec_config_node(ec_node_str("c", w)));
		if (opts & 1)
			r |= set(c, "min", ec_config_u64(2));
		if (opts & 2)
			r |= set(c, "max", ec_config_u64(1));
		break;
	case 4: case 5: /* seq, or */
		l = ec_config_list();
		if (opts & 1)
			r |= ec_config_list_add(l, ec_config_node(ec_node_str("c", w)));
		if (opts & 2)
			r |= ec_config_list_add(l, ec_config_node(ec_node_str("d", "x")));
		r |= set(c, "children", l);
		break;
	default: /* re_lex */
		r = set(c, "child", ec_config_node(ec_node_many("m", ec_node_str("c", w), 1, 0)));
		l = ec_config_list();
		if (opts & 1) {
			d = ec_config_dict();
			r |= set(d, "pattern", ec_config_string("x"));
			r |= set(d, "keep", ec_config_bool(false));
			r |= ec_config_list_add(l, d);
		}
		if (opts & 2) {
			d = ec_config_dict();
			r |= set(d, "pattern", ec_config_string("[a-c]"));
			r |= set(d, "keep", ec_config_bool(true));
			if (opts & 4)
				r |= set(d, "attr", ec_config_string("t"));
			r |= ec_config_list_add(l, d);
		}
		r |= set(c, "patterns", l);
	}
	sym_assert(c != NULL && r == 0, "configuration built");
	return c;
}
/* words taken of at most two words out of {a, b, x, xa, 1, 12}, compared with those of a node made directly with the configuration */
static const char *const words2[] = { NULL, "a", "b", "x", "xa", "1", "12", "7" };
void h_reconf(void)
{
	static const char *const ty[] = { "any", "int", "uint", "many", "seq", "or", "re_lex" };
	static const unsigned no[] = { 2, 8, 8, 4, 4, 4, 8 };
	unsigned t = sym_choice(7, "type"), i, o[3], w1, w2;
	struct ec_node *n, *f;

	start();
	n = ec_node(ty[t], "n");
	f = ec_node(ty[t], "n");
	for (i = 0; i < 3; i++) {
		o[i] = sym_choice(no[t], "options");
		if (i == 1)
			sym_part();
		sym_assert(ec_node_set_config(n, cfg_of(t, o[i], i == 2 ? "b" : "a")) == 0, "a valid configuration is accepted");
	}
	sym_assert(ec_node_set_config(f, cfg_of(t, o[2], "b")) == 0, "a valid configuration is accepted");
	for (w1 = 0; w1 < 8; w1++)
		for (w2 = 0; w2 < (w1 ? 4 : 1); w2++) {
			int x = accepts(n, words2[w1], words2[w2]), y = accepts(f, words2[w1], words2[w2]), z = -1;
			sym_assert(x == y, "a node follows its last configuration alone");
						switch (t) {
			case 0: z = o[2] ? -1 : w1 ? 1 : -1; break;
			case 1: case 2:
				if (w1 < 5)
					break;
				i = o[2] & 4 ? w1 == 5 ? 1 : 99 : w1 == 5 ? 1 : w1 == 6 ? 12 : 7;
				z = i == 99 || (o[2] & 1 && i < 5) || (o[2] & 2 && i > 9) ? -1 : 1;
				break;
			case 3:
				z = w1 != 2 ? 0 : w2 != 2 ? 1 : 2;
				if (o[2] & 2 && z > 1)
					z = 1;
				if (o[2] & 1 && z < 2)
					z = -1;
				break;
			case 4:
				z = 0;
				if (o[2] == 1)
					z = w1 == 2 ? 1 : -1;
				if (o[2] == 2)
					z = w1 == 3 ? 1 : -1;
				if (o[2] == 3)
					z = w1 == 2 && w2 == 3 ? 2 : -1;
				break;
			case 5:
				z = (o[2] & 1 && w1 == 2) || (o[2] & 2 && w1 == 3) ? 1 : -1;
				break;
			default:
				z = x;
			}
			sym_assert(x == z, "a node matches what its last configuration says");
			sym_cover(x >= 0 ? "match" : "nomatch");
		}
	ec_node_free(n);
	ec_node_free(f);
	finish();
}
void h_dump(void)
{
	struct ec_config *c, *c2;
	char *buf = NULL, exp[8];
	size_t len = 0;
	int v = (int)sym_choice(7, "v") - 3, uns = sym_choice(2, "unsigned");
	FILE *f;

	h_init();
	c = ec_config_dict();
	if (uns && v < 0)
		v = -v;
	sym_assert(ec_config_dict_set(c, "k", uns ? ec_config_u64(v) : ec_config_i64(v)) == 0, "entry set");
	c2 = ec_config_dup(c);
	f = open_memstream(&buf, &len);
	ec_config_dump(f, c2);
	fclose(f);
	snprintf(exp, sizeof(exp), "=%d\n", v);
	sym_assert(strstr(buf, exp) != NULL, "an integer is dumped with its value");
	free(buf);
	ec_config_free(c);
	ec_config_free(c2);
	h_end();
}
