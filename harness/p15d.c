/* P15: file completion when a memory request fails */
#define NE 3
#include "p22.c"
void h_fileoom(void)
{
	static const struct { const char *n; unsigned char t; int dir; unsigned mode; } e[] = {
		{ "ab", DT_REG, 0, S_IFREG }, { "ad", DT_DIR, 1, S_IFDIR }, { "ax", DT_UNKNOWN, 1, S_IFDIR } };
	static const char *ins[] = { "a", "d/a", "" };
	struct ec_node *n = ec_node("file", "F");
	struct ec_strvec *v = ec_strvec();
	struct ec_comp *c;
	struct ec_comp_item *it;
	unsigned i, k = 0;
	int ok;

	for (i = 0; i < 3; i++) {
		strcpy(ent[i].name, e[i].n);
		ent[i].type = e[i].t;
		ent[i].dir = e[i].dir;
		ent[i].mode = e[i].mode;
	}
	ne = 1 + sym_choice(3, "ne");
	sym_assert(n != NULL && v != NULL && ec_strvec_add(v, ins[sym_choice(3, "in")]) == 0, "prepared");
	h_arm(sym_u32("failing"));
	c = ec_complete_strvec(n, v);
	h_disarm();
	ok = c != NULL;
	sym_assert(!opened, "the directory is closed");
	sym_assert(ok || h_failed, "fails only when memory runs out: file completion");
	sym_assert(!ok || !h_failed, "running out of memory is reported: file completion");
	if (ok) {
		EC_COMP_FOREACH(it, c, EC_COMP_ALL)
			k++;
		sym_assert(k == ne, "every entry is proposed");
		sym_cover("done");
	} else
		sym_cover("failed");
	ec_comp_free(c);
	c = ec_complete_strvec(n, v);
	sym_assert(c != NULL && ec_comp_count(c, EC_COMP_ALL) == ne, "the node still works");
	ec_comp_free(c);
	ec_strvec_free(v);
	ec_node_free(n);
	h_end();
}
