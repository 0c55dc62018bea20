seed("P01-posix-escape", "P01", "a backslash inside double quotes followed by a character that is neither a quote nor a backslash",
 "the backslash is kept in the word instead of being removed", [
 ("src/ecoli_strvec.c", """			state = IN_DOUBLE_QUOTES;
			append(token, t, c);
""", """			state = IN_DOUBLE_QUOTES;
			if (cls != DOUBLE_QUOTE && cls != BACKSLASH)
				append(token, t, '\\\\');
			append(token, t, c);
""")], r'''
int main(void) {
	struct ec_strvec *v;
	CHECK(ec_init() == 0);
	v = ec_strvec_sh_lex_str("\"a\\b\"", EC_STRVEC_STRICT, NULL);
	CHECK(v != NULL && ec_strvec_len(v) == 1 && is(ec_strvec_val(v, 0), "ab"));
	ec_strvec_free(v);
	return 0;
}''')
seed("P01-blanks", "P01", "a line whose blanks are vertical tabs, form feeds or carriage returns",
 "words separated by these blanks are glued together", [
 ("src/ecoli_strvec.c", "		if (isspace(c))\n			return SPACE;\n", "		if (isblank(c) || c == '\\n')\n			return SPACE;\n")], r'''
int main(void) {
	struct ec_strvec *v;
	CHECK(ec_init() == 0);
	v = ec_strvec_sh_lex_str("a\rb", EC_STRVEC_STRICT, NULL);
	CHECK(v != NULL && ec_strvec_len(v) == 2);
	ec_strvec_free(v);
	return 0;
}''')
seed("P09-prefix-key", "P09", "two binary keys in the same bucket, one being a prefix of the other",
 "looking up the shorter key finds the entry of the longer one", [
 ("src/ecoli_htable.c", "		if (ref->elt->key_len != key_len)\n", "		if (ref->elt->key_len < key_len)\n")], r'''
int main(void) {
	char k[3] = "ab"; int c, found = 0;
	CHECK(ec_init() == 0);
	for (c = 0; c < 256; c++) {
		struct ec_htable *h = ec_htable();
		k[2] = c;
		CHECK(ec_htable_set(h, k, 3, "v", NULL) == 0);
		CHECK(!ec_htable_has_key(h, k, 2));
		ec_htable_free(h);
	}
	return 0;
}''')
seed("P10-overwrite-in-place", "P10", "a table is duplicated, then a key is overwritten in one of the copies",
 "the other copy sees the new value", [
 ("src/ecoli_htable.c", """	size_t new_size;
	uint32_t mask;
	int ret;

	/* remove previous entry if any */
""", """	struct ec_htable_elt_ref *prev;
	size_t new_size;
	uint32_t mask;
	void *val;
	int ret;

	/* reuse the previous entry if any */
	prev = ec_htable_lookup(htable, ref->elt->key, ref->elt->key_len);
	if (prev != NULL && prev->elt->free == ref->elt->free) {
		val = prev->elt->val;
		prev->elt->val = ref->elt->val;
		ref->elt->val = val;
		TAILQ_REMOVE(&htable->list, prev, next);
		TAILQ_INSERT_TAIL(&htable->list, prev, next);
		ec_htable_elt_ref_free(ref);
		return 0;
	}

	/* remove previous entry if any */
""")], r'''
int main(void) {
	struct ec_dict *d, *e;
	CHECK(ec_init() == 0);
	d = ec_dict();
	CHECK(ec_dict_set(d, "k", "1", NULL) == 0);
	e = ec_dict_dup(d);
	CHECK(ec_dict_set(d, "k", "2", NULL) == 0);
	CHECK(is(ec_dict_get(d, "k"), "2") && is(ec_dict_get(e, "k"), "1"));
	ec_dict_free(d); ec_dict_free(e);
	return 0;
}''')
seed("P11-set-in-place", "P11", "a vector is duplicated, then an element is set to a string that is not longer",
 "the other vector sees the new string", [
 ("src/ecoli_strvec.c", """	elt = __ec_strvec_elt(s);
	if (elt == NULL)
		return -1;

	__ec_strvec_elt_free(strvec->vec[idx]);
""", """	/* no need to allocate if the new string fits */
	elt = strvec->vec[idx];
	if (elt->attrs == NULL && strlen(s) <= strlen(elt->str)) {
		memmove(elt->str, s, strlen(s) + 1);
		return 0;
	}

	elt = __ec_strvec_elt(s);
	if (elt == NULL)
		return -1;

	__ec_strvec_elt_free(strvec->vec[idx]);
""")], r'''
int main(void) {
	struct ec_strvec *v, *w;
	CHECK(ec_init() == 0);
	v = EC_STRVEC("abc", "d");
	w = ec_strvec_dup(v);
	CHECK(ec_strvec_set(v, 0, "xy") == 0);
	CHECK(is(ec_strvec_val(v, 0), "xy") && is(ec_strvec_val(w, 0), "abc"));
	ec_strvec_free(v); ec_strvec_free(w);
	return 0;
}''')
seed("P12-ndup-offset", "P12", "a sub-range copy at a non-zero offset of elements larger than a byte, without copy callback",
 "the copy contains bytes of the wrong elements", [
 ("src/ecoli_vec.c", """	for (i = 0; i < len; i++) {
		if (vec->copy)
			vec->copy(get_obj(copy, i), get_obj(vec, i + off));
		else
			memcpy(get_obj(copy, i), get_obj(vec, i + off),
				vec->elt_size);
	}
""", """	if (vec->copy == NULL) {
		memcpy(copy->vec, (char *)vec->vec + off, len * vec->elt_size);
	} else {
		for (i = 0; i < len; i++)
			vec->copy(get_obj(copy, i), get_obj(vec, i + off));
	}
""")], r'''
int main(void) {
	struct ec_vec *v, *w; uint32_t x = 0;
	CHECK(ec_init() == 0);
	v = ec_vec(4, 0, NULL, NULL);
	CHECK(ec_vec_add_u32(v, 1) == 0 && ec_vec_add_u32(v, 2) == 0);
	w = ec_vec_ndup(v, 1, 1);
	CHECK(w != NULL && ec_vec_get(&x, w, 0) == 0 && x == 2);
	ec_vec_free(v); ec_vec_free(w);
	return 0;
}''')
seed("P20-dup-empty", "P20", "copying a tree in which some node matched no word",
 "in the copy that node looks as if it did not match", [
 ("src/ecoli_parse.c", "	if (root->strvec != NULL) {\n		dup->strvec", "	if (ec_pnode_len(root) != 0) {\n		dup->strvec")], r'''
int main(void) {
	struct ec_node *n; struct ec_pnode *p, *q; struct ec_strvec *v;
	CHECK(ec_init() == 0);
	n = ec_node_option("root", ec_node_str("x", "a"));
	v = ec_strvec();
	p = ec_parse_strvec(n, v);
	CHECK(ec_pnode_matches(p));
	q = ec_pnode_dup(p);
	CHECK(ec_pnode_matches(q));
	ec_pnode_free(p); ec_pnode_free(q); ec_strvec_free(v); ec_node_free(n);
	return 0;
}''')
seed("P07-first-of-group", "P07", "a later group whose first item is not of the wanted type",
 "the wanted items of that group are skipped", [
 ("src/ecoli_complete.c", """	cur_grp = item->grp;
	cur_match = TAILQ_NEXT(item, next);
	while (cur_match != NULL) {
		if (cur_match->type & type)
			return cur_match;
		cur_match = TAILQ_NEXT(cur_match, next);
	}
""", """	cur_grp = item->grp;
	cur_match = TAILQ_NEXT(item, next);
	if (cur_match != NULL && !(cur_match->type & type))
		cur_match = TAILQ_NEXT(cur_match, next);
	if (cur_match != NULL && (cur_match->type & type))
		return cur_match;
""")], r'''
static int cb(const struct ec_node *node, struct ec_comp *comp, const struct ec_strvec *strvec) {
	CHECK(ec_comp_add_item(comp, node, EC_COMP_FULL, "", "a"));
	CHECK(ec_comp_add_item(comp, node, EC_COMP_PARTIAL, "", "b"));
	CHECK(ec_comp_add_item(comp, node, EC_COMP_PARTIAL, "", "c"));
	CHECK(ec_comp_add_item(comp, node, EC_COMP_FULL, "", "d"));
	return 0;
}
static struct ec_node_type t = { .name = "my", .complete = cb };
int main(void) {
	struct ec_node *n; struct ec_comp *c; struct ec_comp_item *i; int k = 0;
	CHECK(ec_init() == 0);
	CHECK(ec_node_type_register(&t, 0) == 0);
	n = ec_node("my", "id");
	c = ec_complete(n, "");
	for (i = ec_comp_iter_first(c, EC_COMP_FULL); i; i = ec_comp_iter_next(i, EC_COMP_FULL)) k++;
	CHECK(k == 2);
	ec_comp_free(c); ec_node_free(n);
	return 0;
}''')
seed("P21-calloc-overflow", "P21", "a number of elements and a size whose product wraps to a value not below the size",
 "a too small block is returned instead of an error", [
 ("src/ecoli_malloc.c", "	if (nmemb != 0 && size != (total / nmemb)) {\n", "	if (nmemb != 0 && total < size) {\n")], r'''
static size_t got;
static void *m(size_t s, const char *f, unsigned l) { got = s; return NULL; }
static void fr(void *p, const char *f, unsigned l) { }
static void *r(void *p, size_t s, const char *f, unsigned l) { return NULL; }
int main(void) {
	volatile size_t n = 5, s = 0x4000000000000001ULL;
	CHECK(ec_malloc_register(m, fr, r) == 0);
	got = 1;
	CHECK(ec_calloc(n, s) == NULL && got == 1);
	_exit(0);
}''')
seed("P21-log-prefix", "P21", "registering a log type whose name is a prefix of a registered one",
 "both names share one type, whose name is the longer one", [
 ("src/ecoli_log.c", "		if (strcmp(name, log_types[i].name) == 0)\n", "		if (strncmp(name, log_types[i].name, strlen(name)) == 0)\n")], r'''
int main(void) {
	int a, b;
	CHECK(ec_init() == 0);
	a = ec_log_type_register("network_tx");
	b = ec_log_type_register("network");
	CHECK(a >= 0 && b >= 0 && a != b && is(ec_log_name(b), "network"));
	_exit(0);
}''')
