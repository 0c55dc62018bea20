From f4cb692e423e8170d525e5bd7df5b0c093ee9f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:32 +0000
Subject: [PATCH 01/65] fix: report the quote that is really left open when
 lexing

The opening quote was only recorded when it started a word, and was not
forgotten when the quote was closed inside a word: the unclosed quote
reported for "ab'c" was missing, and a stale one was reported for a
dangling escape after a closed quote.
---
 src/ecoli_strvec.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index ec63335..eb424c4 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -382,7 +382,6 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case SPACE:
 				/* end of token */
-				quote = '\0';
 				token[t] = '\0';
 				if (ec_strvec_add(strvec, token) < 0)
 					goto fail;
@@ -392,9 +391,11 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 				break;
 			case DOUBLE_QUOTE:
 				state = IN_DOUBLE_QUOTES;
+				quote = c;
 				break;
 			case SINGLE_QUOTE:
 				state = IN_SINGLE_QUOTES;
+				quote = c;
 				break;
 			case BACKSLASH:
 				state = ESCAPING;
@@ -416,6 +417,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case DOUBLE_QUOTE:
 				state = IN_WORD;
+				quote = '\0';
 				break;
 			case BACKSLASH:
 				state = ESCAPING_QUOTED;
@@ -429,6 +431,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case SINGLE_QUOTE:
 				state = IN_WORD;
+				quote = '\0';
 				break;
 			default:
 				append(token, t, c);
-- 
2.43.0


From 5a7fb991f2e186c093b703291e6d66b3703c3d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:32 +0000
Subject: [PATCH 02/65] fix: keep an empty quoted word at the end of a lexed
 string

'a ""' gave one word while 'a "" ' gave two.
---
 src/ecoli_strvec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index eb424c4..b071239 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -463,7 +463,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 		}
 		state = IN_WORD;
 	}
-	if (state == IN_WORD && t > 0) {
+	if (state == IN_WORD) {
 		token[t] = '\0';
 		if (ec_strvec_add(strvec, token) < 0)
 			goto fail;
-- 
2.43.0


From f42378f915768579fa615b24df96deb8397b5072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:32 +0000
Subject: [PATCH 03/65] fix: the newline ending a comment is a trailing white
 space

---
 src/ecoli_strvec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index b071239..824b9c1 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -439,8 +439,10 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			}
 			break;
 		case IN_COMMENT:
-			if (c == '\n' || c == '\r')
+			if (c == '\n' || c == '\r') {
 				state = START;
+				trailing_space = true;
+			}
 			break;
 		}
 	}
-- 
2.43.0


From a4160439ef6e56b3ae9e25c2b245cf9ebee7ae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:42 +0000
Subject: [PATCH 04/65] fix: keep only the chosen children in the parse tree of
 a subset node

When several orders of the children were tried, only the last parse node
of an abandoned or improved solution was dropped, the others were left in
the tree.
---
 src/ecoli_node_subset.c | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index ce22a64..b0fa409 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -33,6 +33,16 @@ struct parse_result {
 	size_t len;                 /* consumed strings */
 };
 
+/* return the first child of pstate located after mark (or the very first
+ * one if mark is NULL) */
+static struct ec_pnode *
+first_child_after(struct ec_pnode *pstate, struct ec_pnode *mark)
+{
+	if (mark == NULL)
+		return ec_pnode_get_first_child(pstate);
+	return ec_pnode_next(mark);
+}
+
 /* recursively find the longest list of nodes that matches: the state is
  * updated accordingly. */
 static int
@@ -44,7 +54,9 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 	struct ec_strvec *childvec = NULL;
 	size_t i, j, len = 0;
 	struct parse_result best_result, result;
-	struct ec_pnode *best_parse = NULL;
+	struct ec_pnode *best_parse = NULL; /* its children are the best list */
+	struct ec_pnode *mark = ec_pnode_get_last_child(pstate);
+	struct ec_pnode *child;
 	int ret;
 
 	if (table_len == 0)
@@ -56,6 +68,10 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 	if (child_table == NULL)
 		goto fail;
 
+	best_parse = ec_pnode(NULL);
+	if (best_parse == NULL)
+		goto fail;
+
 	for (i = 0; i < table_len; i++) {
 		/* try to parse elt i */
 		ret = ec_parse_child(table[i], pstate, strvec);
@@ -90,26 +106,31 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 
 		/* if result is not the best, ignore */
 		if (result.parse_len < best_result.parse_len) {
-			memset(&result, 0, sizeof(result));
-			ec_pnode_del_last_child(pstate);
+			while ((child = first_child_after(pstate, mark)) != NULL) {
+				ec_pnode_unlink_child(child);
+				ec_pnode_free(child);
+			}
 			continue;
 		}
 
 		/* replace the previous best result */
-		ec_pnode_free(best_parse);
-		best_parse = ec_pnode_get_last_child(pstate);
-		ec_pnode_unlink_child(best_parse);
+		ec_pnode_free_children(best_parse);
+		while ((child = first_child_after(pstate, mark)) != NULL) {
+			ec_pnode_unlink_child(child);
+			ec_pnode_link_child(best_parse, child);
+		}
 
 		best_result.parse_len = result.parse_len + 1;
 		best_result.len = len + result.len;
-
-		memset(&result, 0, sizeof(result));
 	}
 
 	*out = best_result;
 	ec_free(child_table);
-	if (best_parse != NULL)
-		ec_pnode_link_child(pstate, best_parse);
+	while ((child = ec_pnode_get_first_child(best_parse)) != NULL) {
+		ec_pnode_unlink_child(child);
+		ec_pnode_link_child(pstate, child);
+	}
+	ec_pnode_free(best_parse);
 
 	return 0;
 
-- 
2.43.0


From 3b1aa89a92d2fed1b1603f9fb8211968b2dcc641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:22 +0000
Subject: [PATCH 05/65] fix: enforce the minimum of an integer node that has no
 maximum

Configuring only a minimum disabled it, and removing a maximum by a new
configuration had no effect: the wrong flag was cleared.
---
 src/ecoli_node_int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_int.c b/src/ecoli_node_int.c
index 58c5f5a..3dd8b44 100644
--- a/src/ecoli_node_int.c
+++ b/src/ecoli_node_int.c
@@ -156,7 +156,7 @@ static int ec_node_int_set_config(struct ec_node *node,
 		priv->check_max = true;
 		priv->max = max_value->i64;
 	} else {
-		priv->check_min = false;
+		priv->check_max = false;
 	}
 	if (base_value != NULL)
 		priv->base = base_value->u64;
@@ -268,7 +268,7 @@ static int ec_node_uint_set_config(struct ec_node *node,
 		priv->check_max = true;
 		priv->max = max_value->u64;
 	} else {
-		priv->check_min = false;
+		priv->check_max = false;
 	}
 	if (base_value != NULL)
 		priv->base = base_value->u64;
-- 
2.43.0


From d10e9b60449d460356f5563ed1cc7593692341e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:22 +0000
Subject: [PATCH 06/65] fix: an empty string is not a number

strtoll() and strtoull() store 0 and leave endptr at the beginning of the
string when there is no digit.
---
 src/ecoli_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 90728b8..7d6b717 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -113,7 +113,7 @@ int ec_str_parse_llint(const char *str, unsigned int base, int64_t min,
 		return -1;
 	}
 
-	if (*endptr != 0) {
+	if (endptr == str || *endptr != 0) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -146,7 +146,7 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 	if (*val > max)
 		return -1;
 
-	if (*endptr != 0)
+	if (endptr == str || *endptr != 0)
 		return -1;
 
 	errno = save_errno;
-- 
2.43.0


From 9bf6dd3688007147c45588ec2f21f27a65387eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:22 +0000
Subject: [PATCH 07/65] fix: set errno when an unsigned number is rejected

As documented, and as done for signed numbers.
---
 src/ecoli_string.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 7d6b717..947f925 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -130,8 +130,10 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 
 	/* since a negative input is silently converted to a positive
 	 * one by strtoull(), first check that it is positive */
-	if (strchr(str, '-'))
+	if (strchr(str, '-')) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = 0;
 	*val = strtoull(str, &endptr, base);
@@ -140,14 +142,20 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*val < min)
+	if (*val < min) {
+		errno = ERANGE;
 		return -1;
+	}
 
-	if (*val > max)
+	if (*val > max) {
+		errno = ERANGE;
 		return -1;
+	}
 
-	if (endptr == str || *endptr != 0)
+	if (endptr == str || *endptr != 0) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = save_errno;
 	return 0;
-- 
2.43.0


From 01f98b999411e4569ace040e59a6202501a38b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:20 +0000
Subject: [PATCH 08/65] fix: looking up a key in no table fails instead of
 crashing

The table was dereferenced before being checked.
---
 src/ecoli_htable.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index b2ce66f..c05bdd9 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -42,7 +42,7 @@ ec_htable_lookup(const struct ec_htable *htable, const void *key,
 		size_t key_len)
 {
 	struct ec_htable_elt_ref *ref;
-	uint32_t h, mask = htable->table_size - 1;
+	uint32_t h, mask;
 
 	if (htable == NULL || key == NULL) {
 		errno = EINVAL;
@@ -53,6 +53,7 @@ ec_htable_lookup(const struct ec_htable *htable, const void *key,
 		return NULL;
 	}
 
+	mask = htable->table_size - 1;
 	h = ec_murmurhash3(key, key_len, ec_htable_seed);
 	TAILQ_FOREACH(ref, &htable->table[h & mask], hnext) {
 		if (ref->elt->key_len != key_len)
-- 
2.43.0


From 88804249e782e3d1ac7a2668b3199d0d4d4708b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:20 +0000
Subject: [PATCH 09/65] fix: clear errno when the value found in a table is
 NULL

As documented, this is how a caller distinguishes a missing key.
---
 src/ecoli_htable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index c05bdd9..a994029 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -98,6 +98,9 @@ void *ec_htable_get(const struct ec_htable *htable, const void *key,
 	if (ref == NULL)
 		return NULL;
 
+	if (ref->elt->val == NULL)
+		errno = 0;
+
 	return ref->elt->val;
 }
 
-- 
2.43.0


From 6b4344906f211a91ece88b51067ae7a5bcc5820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:20 +0000
Subject: [PATCH 10/65] fix: release the value when setting it in a table is
 refused

The value is documented to be freed on any error.
---
 src/ecoli_htable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index a994029..5d4f893 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -192,7 +192,7 @@ int ec_htable_set(struct ec_htable *htable, const void *key, size_t key_len,
 
 	if (htable == NULL || key == NULL || key_len == 0) {
 		errno = EINVAL;
-		return -1;
+		goto fail;
 	}
 
 	ref = ec_calloc(1, sizeof(*ref));
-- 
2.43.0


From 2eadbc5f2dc76107d8b479540fd216708b0c21e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:59 +0000
Subject: [PATCH 11/65] fix: check the range of a string vector copy without
 overflow

---
 src/ecoli_strvec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index 824b9c1..dd1ed84 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -156,8 +156,10 @@ struct ec_strvec *ec_strvec_ndup(const struct ec_strvec *strvec, size_t off,
 	size_t i, veclen;
 
 	veclen = ec_strvec_len(strvec);
-	if (off + len > veclen)
+	if (off > veclen || len > veclen - off) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	copy = ec_strvec();
 	if (copy == NULL)
-- 
2.43.0


From fd61190cc989ca49e847ed25de7cd5010cbd20e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:59 +0000
Subject: [PATCH 12/65] fix: check the range of a vector copy without overflow

---
 src/ecoli_vec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_vec.c b/src/ecoli_vec.c
index 3fd5805..661f6b6 100644
--- a/src/ecoli_vec.c
+++ b/src/ecoli_vec.c
@@ -122,8 +122,10 @@ struct ec_vec *ec_vec_ndup(const struct ec_vec *vec, size_t off,
 	size_t i, veclen;
 
 	veclen = ec_vec_len(vec);
-	if (off + len > veclen)
+	if (off > veclen || len > veclen - off) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	copy = ec_vec(vec->elt_size, len, vec->copy, vec->free);
 	if (copy == NULL)
-- 
2.43.0


From f1e3f86d8deb83ab8b34a1b9f5a2c9394b1b318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:43 +0000
Subject: [PATCH 13/65] fix: iterating completions no longer loops on a group
 without wanted items

---
 src/ecoli_complete.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 40326ef..5ba4fb0 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -652,6 +652,7 @@ __ec_comp_iter_next(const struct ec_comp *comp, struct ec_comp_item *item,
 			if (cur_match->type & type)
 				return cur_match;
 		}
+		cur_grp = TAILQ_NEXT(cur_grp, next);
 	}
 
 	return NULL;
-- 
2.43.0


From 9b0d8f9ee3822e07a7043f761e18457cb1702c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:26 +0000
Subject: [PATCH 14/65] fix: completing a repetition of a child that matches
 nothing ends

---
 src/ecoli_node_many.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_many.c b/src/ecoli_node_many.c
index c13b2f1..066c6eb 100644
--- a/src/ecoli_node_many.c
+++ b/src/ecoli_node_many.c
@@ -100,8 +100,8 @@ __ec_node_many_complete(struct ec_node_many *priv, unsigned int max,
 		max--;
 
 	/* then, if the node matches the beginning of the strvec, try to
-	 * complete the rest */
-	for (i = 0; i < ec_strvec_len(strvec); i++) {
+	 * complete the rest; an empty match is not a repetition */
+	for (i = 1; i < ec_strvec_len(strvec); i++) {
 		childvec = ec_strvec_ndup(strvec, 0, i);
 		if (childvec == NULL)
 			goto fail;
-- 
2.43.0


From 193cb820d022a50b4c78890a30fd4ead86a70438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:48 +0000
Subject: [PATCH 15/65] fix: complete the rest of a subset after every way its
 children match

---
 src/ecoli_node_subset.c | 58 ++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index b0fa409..81409f0 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -203,38 +203,48 @@ __ec_node_subset_complete(struct ec_node **table, size_t table_len,
 			goto fail;
 	}
 
-	/* then, if a node matches, advance in strvec and try to complete with
-	 * all the other nodes */
+	/* then, if a node matches the beginning of the strvec, try to complete
+	 * the rest with all the other nodes */
 	for (i = 0; i < table_len; i++) {
 		if (table[i] == NULL)
 			continue;
 
-		ret = ec_parse_child(table[i], parse, strvec);
-		if (ret < 0)
-			goto fail;
+		for (len = 0; len < ec_strvec_len(strvec); len++) {
+			childvec = ec_strvec_ndup(strvec, 0, len);
+			if (childvec == NULL)
+				goto fail;
+
+			ret = ec_parse_child(table[i], parse, childvec);
+			ec_strvec_free(childvec);
+			childvec = NULL;
+			if (ret < 0)
+				goto fail;
+
+			if ((size_t)ret != len) {
+				if (ret != EC_PARSE_NOMATCH)
+					ec_pnode_del_last_child(parse);
+				continue;
+			}
 
-		if (ret == EC_PARSE_NOMATCH)
-			continue;
+			childvec = ec_strvec_ndup(strvec, len,
+						ec_strvec_len(strvec) - len);
+			if (childvec == NULL) {
+				ec_pnode_del_last_child(parse);
+				goto fail;
+			}
 
-		len = ret;
-		childvec = ec_strvec_ndup(strvec, len,
-					ec_strvec_len(strvec) - len);
-		if (childvec == NULL) {
+			save = table[i];
+			table[i] = NULL;
+			ret = __ec_node_subset_complete(table, table_len,
+							comp, childvec);
+			table[i] = save;
+			ec_strvec_free(childvec);
+			childvec = NULL;
 			ec_pnode_del_last_child(parse);
-			goto fail;
-		}
-
-		save = table[i];
-		table[i] = NULL;
-		ret = __ec_node_subset_complete(table, table_len,
-						comp, childvec);
-		table[i] = save;
-		ec_strvec_free(childvec);
-		childvec = NULL;
-		ec_pnode_del_last_child(parse);
 
-		if (ret < 0)
-			goto fail;
+			if (ret < 0)
+				goto fail;
+		}
 	}
 
 	return 0;
-- 
2.43.0


From bacf8164461f0162541cc757abba6e87a3f641c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:56 +0000
Subject: [PATCH 16/65] fix: never free a node that stays reachable from a held
 node of the graph

---
 src/ecoli_node.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index 5fbeab4..3fe19c2 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -184,7 +184,9 @@ static void mark_freeable(struct ec_node *node, enum ec_node_free_state mark)
 	size_t i, n;
 	int ret;
 
-	if (mark == node->free.state)
+	/* a node that is not freeable never becomes freeable again */
+	if (mark == node->free.state ||
+			node->free.state == EC_NODE_FREE_STATE_NOT_FREEABLE)
 		return;
 
 	if (node->refcnt > node->free.refcnt)
-- 
2.43.0


From 8ecaaca6cb2fef9c8d043fab6f70ab31263c8e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:56 +0000
Subject: [PATCH 17/65] fix: building a command does not modify the nodes
 provided by the user

---
 src/ecoli_node_cmd.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index c60522f..70472c1 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -137,6 +137,22 @@ ec_node_cmd_eval_post_op(void **result, void *userctx, void *operand,
 	return 0;
 }
 
+/* true if the node is of this type and was built while evaluating the
+ * expression: a node provided by the user must not be modified */
+static bool
+ec_node_cmd_can_extend(const struct ec_node_cmd_ctx *ctx,
+	const struct ec_node *node, const char *typename)
+{
+	unsigned int i;
+
+	for (i = 0; i < ctx->len; i++) {
+		if (ctx->table[i] == node)
+			return false;
+	}
+
+	return !strcmp(ec_node_get_type_name(node), typename);
+}
+
 static int
 ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	const struct ec_pnode *operator, void *operand2)
@@ -146,8 +162,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	struct ec_node *out = NULL;
 	struct ec_node *in1 = operand1;
 	struct ec_node *in2 = operand2;
-
-	(void)userctx;
+	struct ec_node_cmd_ctx *ctx = userctx;
 
 	/* get parsed string vector, it should contain only one str */
 	vec = ec_pnode_get_strvec(operator);
@@ -157,7 +172,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	}
 
 	if (ec_strvec_len(vec) == 0) {
-		if (!strcmp(ec_node_get_type_name(in1), "seq")) {
+		if (ec_node_cmd_can_extend(ctx, in1, "seq")) {
 			if (ec_node_seq_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
@@ -172,12 +187,12 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), "|")) {
-		if (!strcmp(ec_node_get_type_name(in2), "or")) {
+		if (ec_node_cmd_can_extend(ctx, in2, "or")) {
 			if (ec_node_or_add(in2, ec_node_clone(in1)) < 0)
 				return -1;
 			ec_node_free(in1);
 			*result = in2;
-		} else if (!strcmp(ec_node_get_type_name(in1), "or")) {
+		} else if (ec_node_cmd_can_extend(ctx, in1, "or")) {
 			if (ec_node_or_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
@@ -192,12 +207,12 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), ",")) {
-		if (!strcmp(ec_node_get_type_name(in2), "subset")) {
+		if (ec_node_cmd_can_extend(ctx, in2, "subset")) {
 			if (ec_node_subset_add(in2, ec_node_clone(in1)) < 0)
 				return -1;
 			ec_node_free(in1);
 			*result = in2;
-		} else if (!strcmp(ec_node_get_type_name(in1), "subset")) {
+		} else if (ec_node_cmd_can_extend(ctx, in1, "subset")) {
 			if (ec_node_subset_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
-- 
2.43.0


From aa5f741dffff63fa36459e3d43e93ef465755dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:56 +0000
Subject: [PATCH 18/65] fix: keep the order of the alternatives of a command

---
 src/ecoli_node_cmd.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 70472c1..de8e877 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -187,12 +187,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), "|")) {
-		if (ec_node_cmd_can_extend(ctx, in2, "or")) {
-			if (ec_node_or_add(in2, ec_node_clone(in1)) < 0)
-				return -1;
-			ec_node_free(in1);
-			*result = in2;
-		} else if (ec_node_cmd_can_extend(ctx, in1, "or")) {
+		if (ec_node_cmd_can_extend(ctx, in1, "or")) {
 			if (ec_node_or_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
-- 
2.43.0


From 39a7eb6dd084007fb0a933db9fc840e8064612e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:26 +0000
Subject: [PATCH 19/65] fix: count both references of a condition node to its
 child

---
 src/ecoli_node_cond.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 9c07d96..8b6e77b 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -827,7 +827,8 @@ ec_node_cond_get_child(const struct ec_node *node, size_t i,
 		return -1;
 
 	*child = priv->child;
-	*refs = 1;
+	/* referenced by the config and by priv->child */
+	*refs = 2;
 	return 0;
 }
 
-- 
2.43.0


From 8549040434fde862a54ffb808df694d097f3e2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:26 +0000
Subject: [PATCH 20/65] fix: report the nodes given to a command node as its
 children

---
 src/ecoli_node_cmd.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index de8e877..ceccd13 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -523,7 +523,7 @@ ec_node_cmd_get_children_count(const struct ec_node *node)
 
 	if (priv->cmd == NULL)
 		return 0;
-	return 1;
+	return 1 + priv->len;
 }
 
 static int
@@ -532,11 +532,17 @@ ec_node_cmd_get_child(const struct ec_node *node, size_t i,
 {
 	struct ec_node_cmd *priv = ec_node_priv(node);
 
-	if (i > 0)
+	if (i > priv->len)
 		return -1;
 
-	*child = priv->cmd;
-	*refs = 1;
+	if (i == 0) {
+		*child = priv->cmd;
+		*refs = 1;
+	} else {
+		/* referenced by the config and by priv->table */
+		*child = priv->table[i - 1];
+		*refs = 2;
+	}
 	return 0;
 }
 
-- 
2.43.0


From 4d9fefaaca8f127fbc38ce7cf7d87df18296f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:30 +0000
Subject: [PATCH 21/65] fix: report the operators and values of an expression
 node as its children

---
 src/ecoli_node_expr.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 1348a29..452a82d 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -228,9 +228,9 @@ ec_node_expr_get_children_count(const struct ec_node *node)
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
 
-	if (priv->child)
-		return 1;
-	return 0;
+	return (priv->child != NULL) + (priv->val_node != NULL) +
+		priv->bin_ops_len + priv->pre_ops_len + priv->post_ops_len +
+		2 * priv->paren_len;
 }
 
 static int
@@ -239,11 +239,25 @@ ec_node_expr_get_child(const struct ec_node *node, size_t i,
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
 
-	if (i >= 1)
+	*refs = 1;
+
+	if (priv->child != NULL && i-- == 0)
+		*child = priv->child;
+	else if (priv->val_node != NULL && i-- == 0)
+		*child = priv->val_node;
+	else if (i < priv->bin_ops_len)
+		*child = priv->bin_ops[i];
+	else if ((i -= priv->bin_ops_len) < priv->pre_ops_len)
+		*child = priv->pre_ops[i];
+	else if ((i -= priv->pre_ops_len) < priv->post_ops_len)
+		*child = priv->post_ops[i];
+	else if ((i -= priv->post_ops_len) < priv->paren_len)
+		*child = priv->open_ops[i];
+	else if ((i -= priv->paren_len) < priv->paren_len)
+		*child = priv->close_ops[i];
+	else
 		return -1;
 
-	*child = priv->child;
-	*refs = 1;
 	return 0;
 }
 
-- 
2.43.0


From 66bfed2ccc7978a43ab046fa48b77f12b7cd67e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:48 +0000
Subject: [PATCH 22/65] fix: looking up a node by identifier ends on graphs
 with loops

---
 src/ecoli_node.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index 3fe19c2..cec7475 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -12,6 +12,7 @@
 #include <ecoli_string.h>
 #include <ecoli_strvec.h>
 #include <ecoli_dict.h>
+#include <ecoli_htable.h>
 #include <ecoli_log.h>
 #include <ecoli_config.h>
 #include <ecoli_test.h>
@@ -332,7 +333,8 @@ const struct ec_config *ec_node_get_config(struct ec_node *node)
 	return node->config;
 }
 
-struct ec_node *ec_node_find(struct ec_node *node, const char *id)
+static struct ec_node *
+__ec_node_find(struct ec_node *node, const char *id, struct ec_htable *visited)
 {
 	struct ec_node *child, *retnode;
 	const char *node_id = ec_node_id(node);
@@ -340,6 +342,12 @@ struct ec_node *ec_node_find(struct ec_node *node, const char *id)
 	size_t i, n;
 	int ret;
 
+	/* the graph may contain loops */
+	if (ec_htable_has_key(visited, &node, sizeof(node)))
+		return NULL;
+	if (ec_htable_set(visited, &node, sizeof(node), NULL, NULL) < 0)
+		return NULL;
+
 	if (id != NULL && node_id != NULL && !strcmp(node_id, id))
 		return node;
 
@@ -347,7 +355,7 @@ struct ec_node *ec_node_find(struct ec_node *node, const char *id)
 	for (i = 0; i < n; i++) {
 		ret = ec_node_get_child(node, i, &child, &refs);
 		assert(ret == 0);
-		retnode = ec_node_find(child, id);
+		retnode = __ec_node_find(child, id, visited);
 		if (retnode != NULL)
 			return retnode;
 	}
@@ -355,6 +363,21 @@ struct ec_node *ec_node_find(struct ec_node *node, const char *id)
 	return NULL;
 }
 
+struct ec_node *ec_node_find(struct ec_node *node, const char *id)
+{
+	struct ec_htable *visited;
+	struct ec_node *retnode;
+
+	visited = ec_htable();
+	if (visited == NULL)
+		return NULL;
+
+	retnode = __ec_node_find(node, id, visited);
+	ec_htable_free(visited);
+
+	return retnode;
+}
+
 const struct ec_node_type *ec_node_type(const struct ec_node *node)
 {
 	return node->type;
-- 
2.43.0


From 1b9c7e831cec1f173959f733ec5343e56814dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:25 +0000
Subject: [PATCH 23/65] fix: count the elements of a configuration dictionary

---
 src/ecoli_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_config.c b/src/ecoli_config.c
index 57a7a61..be62f07 100644
--- a/src/ecoli_config.c
+++ b/src/ecoli_config.c
@@ -372,7 +372,7 @@ ssize_t ec_config_count(const struct ec_config *config)
 			n++;
 		return n;
 	case EC_CONFIG_TYPE_DICT:
-		// XXX todo
+		return ec_dict_len(config->dict);
 	default:
 		errno = EINVAL;
 		return -1;
-- 
2.43.0


From 322b3eade68f4bc53166e6112275d3e38ac1a1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:25 +0000
Subject: [PATCH 24/65] fix: dump signed configuration integers as signed and
 unsigned ones as unsigned

---
 src/ecoli_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_config.c b/src/ecoli_config.c
index be62f07..310f9df 100644
--- a/src/ecoli_config.c
+++ b/src/ecoli_config.c
@@ -855,10 +855,10 @@ __ec_config_dump(FILE *out, const char *key, const struct ec_config *value,
 			ec_asprintf(&val_str, "false");
 		break;
 	case EC_CONFIG_TYPE_INT64:
-		ec_asprintf(&val_str, "%"PRIu64, value->u64);
+		ec_asprintf(&val_str, "%"PRIi64, value->i64);
 		break;
 	case EC_CONFIG_TYPE_UINT64:
-		ec_asprintf(&val_str, "%"PRIi64, value->i64);
+		ec_asprintf(&val_str, "%"PRIu64, value->u64);
 		break;
 	case EC_CONFIG_TYPE_STRING:
 		ec_asprintf(&val_str, "%s", value->string);
-- 
2.43.0


From 85624ba1c6f4539f9fdc9dd79e87b92f6411c3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:40 +0000
Subject: [PATCH 25/65] fix: evaluate the operators of an expression from left
 to right

Operators of the same precedence were evaluated in a wrong order
(a - b - c as a - (b - c)), and two consecutive postfix operators
were reported as an internal error.
---
 src/ecoli_node_expr.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 452a82d..fbbe39e 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -539,6 +539,7 @@ static int eval_expression(struct result *result,
 	struct result child_result;
 	struct ec_pnode *child;
 	enum expr_node_type type;
+	bool repeat;
 
 	memset(result, 0, sizeof(*result));
 	memset(&child_result, 0, sizeof(child_result));
@@ -553,9 +554,18 @@ static int eval_expression(struct result *result,
 		result->op_type = type;
 	}
 
-	EC_PNODE_FOREACH_CHILD(child, parse) {
+	for (child = ec_pnode_get_first_child(parse); child != NULL;
+	     child = EC_PNODE_ITER_NEXT(parse, child, repeat)) {
 
 		type = get_node_type(expr_node, ec_pnode_get_node(child));
+
+		/* browse the repeated operators, to evaluate each of them with
+		 * what is on its left */
+		repeat = (type == NONE && !strcmp("many",
+			ec_node_get_type_name(ec_pnode_get_node(child))));
+		if (repeat)
+			continue;
+
 		if (type == PAREN_OPEN) {
 			open = child;
 			continue;
-- 
2.43.0


From ff908494a9f010576d9c0e3ee95c92e0f287827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:47 +0000
Subject: [PATCH 26/65] fix: do not lose the operands of an expression when an
 operator fails

On error, the result set by an evaluation callback is undefined: it
must not overwrite the operand, which is not freed and still has to be.
---
 src/ecoli_node_expr.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index fbbe39e..f1df6d5 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -484,6 +484,8 @@ static int merge_results(void *userctx,
 	const struct ec_node_expr_eval_ops *ops,
 	struct result *x, const struct result *y)
 {
+	void *val;
+
 	if (y->has_val == 0 && y->op == NULL)
 		return 0;
 	if (x->has_val == 0 && x->op == NULL) {
@@ -493,9 +495,10 @@ static int merge_results(void *userctx,
 
 	if (x->has_val && y->has_val && y->op != NULL) {
 		if (y->op_type == BIN_OP) {
-			if (ops->eval_bin_op(&x->val, userctx, x->val,
+			if (ops->eval_bin_op(&val, userctx, x->val,
 					y->op, y->val) < 0)
 				return -1;
+			x->val = val;
 
 			return 0;
 		}
@@ -503,9 +506,10 @@ static int merge_results(void *userctx,
 
 	if (x->has_val == 0 && x->op != NULL && y->has_val && y->op == NULL) {
 		if (x->op_type == PRE_OP) {
-			if (ops->eval_pre_op(&x->val, userctx, y->val,
+			if (ops->eval_pre_op(&val, userctx, y->val,
 						x->op) < 0)
 				return -1;
+			x->val = val;
 			x->has_val = true;
 			x->op_type = NONE;
 			x->op = NULL;
@@ -518,8 +522,9 @@ static int merge_results(void *userctx,
 	}
 
 	if (x->has_val && x->op == NULL && y->has_val == 0 && y->op != NULL) {
-		if (ops->eval_post_op(&x->val, userctx, x->val, y->op) < 0)
+		if (ops->eval_post_op(&val, userctx, x->val, y->op) < 0)
 			return -1;
+		x->val = val;
 
 		return 0;
 	}
@@ -539,6 +544,7 @@ static int eval_expression(struct result *result,
 	struct result child_result;
 	struct ec_pnode *child;
 	enum expr_node_type type;
+	void *val;
 	bool repeat;
 
 	memset(result, 0, sizeof(*result));
@@ -585,9 +591,10 @@ static int eval_expression(struct result *result,
 	}
 
 	if (open != NULL && close != NULL) {
-		if (ops->eval_parenthesis(&result->val, userctx, open, close,
+		if (ops->eval_parenthesis(&val, userctx, open, close,
 			result->val) < 0)
 			goto fail;
+		result->val = val;
 	}
 
 	return 0;
-- 
2.43.0


From 41a3e6c5da31a7de4e857ac6646662b657106248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:17 +0000
Subject: [PATCH 27/65] fix: evaluate the condition exactly when the child
 matches

EC_PARSE_NOMATCH is positive: when the child did not match, the
condition was evaluated, and a child that does not exist was freed if
it was false. On the other hand, the condition was ignored when the
child matched an empty input.
---
 src/ecoli_node_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 8b6e77b..9fcd7a8 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -706,7 +706,7 @@ ec_node_cond_parse(const struct ec_node *node, struct ec_pnode *pstate,
 	int ret, valid;
 
 	ret = ec_parse_child(priv->child, pstate, strvec);
-	if (ret <= 0)
+	if (ret < 0 || ret == EC_PARSE_NOMATCH)
 		return ret;
 
 	valid = validate_condition(priv->parsed_cond, pstate);
-- 
2.43.0


From fe2e63a54c1815f9df9d4fce43feb7781e930469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:17 +0000
Subject: [PATCH 28/65] fix: equal node sets of a condition compare equal

---
 src/ecoli_node_cond.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 9fcd7a8..6cf6fbf 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -522,10 +522,11 @@ eval_cmp(const struct ec_pnode *pstate, struct cond_result **in,
 		eq = true;
 		for (iter = ec_htable_iter(in[1]->htable);
 		     iter != NULL; iter = ec_htable_iter_next(iter)) {
-			if (ec_htable_get(
+			/* the values are NULL, only check that the key exists */
+			if (!ec_htable_has_key(
 					in[2]->htable,
 					ec_htable_iter_get_key(iter),
-					sizeof(struct ec_pnode *)) == NULL) {
+					sizeof(struct ec_pnode *))) {
 				eq = false;
 				break;
 			}
-- 
2.43.0


From 35380c4119a6bf3e44b058449e20513498f2c3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:03 +0000
Subject: [PATCH 29/65] fix: release the nodes of a command that cannot be
 built

---
 src/ecoli_node_cmd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index ceccd13..2284d51 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -270,7 +270,7 @@ static void
 ec_node_cmd_eval_free(void *result, void *userctx)
 {
 	(void)userctx;
-	ec_free(result);
+	ec_node_free(result);
 }
 
 static const struct ec_node_expr_eval_ops expr_ops = {
-- 
2.43.0


From eec06b73c96db42101a2b1448629d5e69e43eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:03 +0000
Subject: [PATCH 30/65] fix: report a failure to add parentheses to the command
 parser

---
 src/ecoli_node_cmd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 2284d51..2e14ddc 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -315,7 +315,7 @@ ec_node_cmd_build_expr(void)
 		ec_node_str(EC_NO_ID, "]"));
 	if (ret < 0)
 		goto fail;
-	ec_node_expr_add_parenthesis(expr, ec_node_str(EC_NO_ID, "("),
+	ret = ec_node_expr_add_parenthesis(expr, ec_node_str(EC_NO_ID, "("),
 		ec_node_str(EC_NO_ID, ")"));
 	if (ret < 0)
 		goto fail;
-- 
2.43.0


From 815c57e704e1ffabbb6ce38b06613d4ca8f8111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:44 +0000
Subject: [PATCH 31/65] fix: accept the documented + operator in a command

---
 src/ecoli_node_cmd.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 2e14ddc..bdab26a 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -129,6 +129,13 @@ ec_node_cmd_eval_post_op(void **result, void *userctx, void *operand,
 			return -1;
 		ec_node_free(in);
 		*result = out;
+	} else if (!strcmp(ec_strvec_val(vec, 0), "+")) {
+		out = ec_node_many(EC_NO_ID,
+				ec_node_clone(in), 1, 0);
+		if (out == NULL)
+			return -1;
+		ec_node_free(in);
+		*result = out;
 	} else {
 		errno = EINVAL;
 		return -1;
@@ -341,7 +348,7 @@ ec_node_cmd_build_parser(struct ec_node *expr)
 	ret = ec_node_re_lex_add(lex, "[a-zA-Z0-9_-]+", 1, NULL);
 	if (ret < 0)
 		goto fail;
-	ret = ec_node_re_lex_add(lex, "[*|,()]", 1, NULL);
+	ret = ec_node_re_lex_add(lex, "[*+|,()]", 1, NULL);
 	if (ret < 0)
 		goto fail;
 	ret = ec_node_re_lex_add(lex, "\\[", 1, NULL);
-- 
2.43.0


From 7ea6b76bb17a9153c15bd743ecac13aed8feb972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:14 +0000
Subject: [PATCH 32/65] fix: lexing text without any pattern ends

---
 src/ecoli_node_re_lex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index e8a9cbd..a13beed 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -61,6 +61,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 
 	len = strlen(dup);
 	while (off < len) {
+		ret = -1;
 		for (i = 0; i < table_len; i++) {
 			ret = regexec(&table[i].r, &dup[off], 1, &pos, 0);
 			if (ret != 0)
-- 
2.43.0


From 361a08b85217e98bdfac6f287627a04cbb27fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:14 +0000
Subject: [PATCH 33/65] fix: a lexer given no word does not match one word

---
 src/ecoli_node_re_lex.c | 3 ++-
 src/ecoli_node_sh_lex.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index a13beed..2209f88 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -145,7 +145,8 @@ ec_node_re_lex_parse(const struct ec_node *node,
 		goto fail;
 
 	if ((unsigned)ret == ec_strvec_len(new_vec)) {
-		ret = 1;
+		/* the lexed word, if any */
+		ret = ec_strvec_len(strvec) == 0 ? 0 : 1;
 	} else if (ret != EC_PARSE_NOMATCH) {
 		child_parse = ec_pnode_get_last_child(pstate);
 		ec_pnode_unlink_child(child_parse);
diff --git a/src/ecoli_node_sh_lex.c b/src/ecoli_node_sh_lex.c
index 935ae32..038adc9 100644
--- a/src/ecoli_node_sh_lex.c
+++ b/src/ecoli_node_sh_lex.c
@@ -54,7 +54,8 @@ ec_node_sh_lex_parse(const struct ec_node *node,
 		goto fail;
 
 	if ((unsigned)ret == ec_strvec_len(new_vec)) {
-		ret = 1;
+		/* the lexed word, if any */
+		ret = ec_strvec_len(strvec) == 0 ? 0 : 1;
 	} else if (ret != EC_PARSE_NOMATCH) {
 		child_parse = ec_pnode_get_last_child(pstate);
 		ec_pnode_unlink_child(child_parse);
-- 
2.43.0


From d2dff93c5ee79beffc1d78b93bfdcdff58bce35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:08 +0000
Subject: [PATCH 34/65] fix: return the memory obtained by ec_realloc_func()

---
 include/ecoli_malloc.h | 2 +-
 src/ecoli_malloc.c     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ecoli_malloc.h b/include/ecoli_malloc.h
index 7b94e5b..f9ae3ea 100644
--- a/include/ecoli_malloc.h
+++ b/include/ecoli_malloc.h
@@ -182,7 +182,7 @@ void ec_free_func(void *ptr);
  * Use this function when the macro ec_realloc() cannot be used,
  * for instance when it is passed as a callback pointer.
  */
-void ec_realloc_func(void *ptr, size_t size);
+void *ec_realloc_func(void *ptr, size_t size);
 
 /**
  * Allocate and initialize an array of elements.
diff --git a/src/ecoli_malloc.c b/src/ecoli_malloc.c
index 8b1c68e..da77e78 100644
--- a/src/ecoli_malloc.c
+++ b/src/ecoli_malloc.c
@@ -83,9 +83,9 @@ void *__ec_realloc(void *ptr, size_t size, const char *file, unsigned int line)
 	return ec_malloc_handler.realloc(ptr, size, file, line);
 }
 
-void ec_realloc_func(void *ptr, size_t size)
+void *ec_realloc_func(void *ptr, size_t size)
 {
-	ec_realloc(ptr, size);
+	return ec_realloc(ptr, size);
 }
 
 char *__ec_strdup(const char *s, const char *file, unsigned int line)
-- 
2.43.0


From 93b0a3dcc6c1e4c6fb09abd0abf363c576ceb05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 35/65] fix: forget the history that is released

---
 src/ecoli_editline.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index d944b12..255bb52 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -300,8 +300,11 @@ int ec_editline_set_history(struct ec_editline *editline,
 {
 	EditLine *el = editline->el;
 
-	if (editline->history != NULL)
+	if (editline->history != NULL) {
+		el_set(el, EL_HIST, history, NULL);
 		history_end(editline->history);
+		editline->history = NULL;
+	}
 	if (editline->hist_file != NULL) {
 		ec_free(editline->hist_file);
 		editline->hist_file = NULL;
@@ -334,6 +337,7 @@ int ec_editline_set_history(struct ec_editline *editline,
 fail:
 	//XXX errno
 	if (editline->history != NULL) {
+		el_set(el, EL_HIST, history, NULL);
 		history_end(editline->history);
 		editline->history = NULL;
 	}
-- 
2.43.0


From 204452e968c8da44002b3642e266f419b0a56d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 36/65] fix: print the sorted completions

---
 src/ecoli_editline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 255bb52..d068a67 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -85,7 +85,7 @@ ec_editline_print_cols(struct ec_editline *editline,
 			else
 				space = "    ";
 			fprintf(f, "%s%-*s", space,
-				(int)max_strlen, matches[i+j]);
+				(int)max_strlen, matches_copy[i+j]);
 		}
 		fprintf(f, "\n");
 	}
-- 
2.43.0


From a44685aba2d63c6cfe38f7dfd9e2de413e53b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 37/65] fix: release editline strings with the function that
 matches their allocation

---
 src/ecoli_editline.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index d068a67..6eb8175 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -182,7 +182,7 @@ ec_editline_set_prompt_esc(struct ec_editline *editline, const char *prompt,
 	return 0;
 
 fail:
-	free(copy);
+	ec_free(copy);
 	return -1;
 }
 
@@ -562,7 +562,7 @@ ec_editline_curline(const struct ec_editline *editline, bool trim_after_cursor)
 	return line;
 
 fail:
-	free(line);
+	ec_free(line);
 	return NULL;
 }
 
@@ -729,7 +729,7 @@ ec_editline_get_suggestions(const struct ec_editline *editline,
 	count = 0;
 
 out:
-	free(line);
+	ec_free(line);
 	ec_pnode_free(p);
 	ec_comp_free(c);
 	return count;
-- 
2.43.0


From c19ea6ccfb18f39f0ecb1e45e810471da0a61841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 38/65] fix: only strip the newline at the end of an edited
 line

---
 src/ecoli_editline.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 6eb8175..cca71f8 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -741,6 +741,7 @@ ec_editline_gets(struct ec_editline *editline)
 	EditLine *el = editline->el;
 	char *line_copy = NULL;
 	const char *line;
+	size_t len;
 	int count;
 
 	line = el_gets(el, &count);
@@ -751,7 +752,10 @@ ec_editline_gets(struct ec_editline *editline)
 	if (line_copy == NULL)
 		goto fail;
 
-	line_copy[strlen(line_copy) - 1] = '\0'; //XXX needed because of sh_lex bug?
+	//XXX needed because of sh_lex bug?
+	len = strlen(line_copy);
+	if (len > 0 && line_copy[len - 1] == '\n')
+		line_copy[len - 1] = '\0';
 
 	if (editline->history != NULL && !ec_str_is_space(line_copy)) {
 		history(editline->history, &editline->histev,
-- 
2.43.0


From 3a3af4ba2c6197cd9a3d4c7150409315c35fdec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 39/65] fix: a proposal without completion appends nothing

---
 src/ecoli_editline.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index cca71f8..b78608e 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -395,6 +395,8 @@ ec_editline_append_chars(const struct ec_comp *cmpl)
 
 	EC_COMP_FOREACH(item, cmpl, EC_COMP_FULL | EC_COMP_PARTIAL) {
 		append = ec_comp_item_get_completion(item);
+		if (append == NULL)
+			append = "";
 		if (ret == NULL) {
 			ret = ec_strdup(append);
 			if (ret == NULL)
-- 
2.43.0


From bb3cc60e65b2555cff6aab1965bdf7838d0836f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 40/65] fix: do not print helps that could not be obtained

---
 src/ecoli_editline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index b78608e..772672b 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -617,6 +617,10 @@ ec_editline_complete(EditLine *el, int c)
 
 		count = ec_editline_get_helps(editline, line, full_line,
 				&helps);
+		if (count < 0) {
+			fprintf(err, "completion failure: cannot get helps\n");
+			goto fail;
+		}
 
 		fprintf(out, "\n");
 		if (ec_editline_print_helps(editline, helps, count) < 0) {
-- 
2.43.0


From 280cffa125822c76f5cde3cf0cec03bef7fd72cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 41/65] fix: use the default prompt when there is none

---
 src/ecoli_editline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 772672b..21f484e 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -155,7 +155,7 @@ prompt_cb(EditLine *el)
 		return "> ";
 	editline = clientdata;
 
-	if (editline == NULL)
+	if (editline == NULL || editline->prompt == NULL)
 		return "> ";
 
 	return editline->prompt;
-- 
2.43.0


From 717c5eabee811ab5eb5fa17eeb0f8a651f5ec73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 42/65] fix: do not add a space after a partial completion

---
 src/ecoli_editline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 21f484e..01742da 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -658,8 +658,8 @@ ec_editline_complete(EditLine *el, int c)
 			fprintf(err, "completion failure: cannot insert\n");
 			goto fail;
 		}
-		if (ec_comp_count(cmpl, EC_COMP_FULL) +
-			ec_comp_count(cmpl, EC_COMP_PARTIAL) == 1) {
+		if (ec_comp_count(cmpl, EC_COMP_FULL) == 1 &&
+			ec_comp_count(cmpl, EC_COMP_PARTIAL) == 0) {
 			if (el_insertstr(el, " ") < 0) {
 				fprintf(err, "completion failure: cannot insert space\n");
 				goto fail;
-- 
2.43.0


From 1560639cb522927306ba8e8f90852a05b31c56c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:41 +0000
Subject: [PATCH 43/65] fix: describe a string node that has no string

---
 src/ecoli_node_str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_str.c b/src/ecoli_node_str.c
index d568430..7a40864 100644
--- a/src/ecoli_node_str.c
+++ b/src/ecoli_node_str.c
@@ -84,7 +84,7 @@ static char *ec_node_str_desc(const struct ec_node *node)
 {
 	struct ec_node_str *priv = ec_node_priv(node);
 
-	return ec_strdup(priv->string);
+	return ec_strdup(priv->string != NULL ? priv->string : "<str>");
 }
 
 static void ec_node_str_free_priv(struct ec_node *node)
-- 
2.43.0


From a4ddab73a074be4f1b503216fcdba1aae7cb8d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:29 +0000
Subject: [PATCH 44/65] fix: an any node may be created without attribute

---
 src/ecoli_node_any.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_node_any.c b/src/ecoli_node_any.c
index 06e92f4..c325cc7 100644
--- a/src/ecoli_node_any.c
+++ b/src/ecoli_node_any.c
@@ -111,9 +111,12 @@ ec_node_any(const char *id, const char *attr)
 	if (config == NULL)
 		goto fail;
 
-	ret = ec_config_dict_set(config, "attr", ec_config_string(attr));
-	if (ret < 0)
-		goto fail;
+	if (attr != NULL) {
+		ret = ec_config_dict_set(config, "attr",
+					ec_config_string(attr));
+		if (ret < 0)
+			goto fail;
+	}
 
 	ret = ec_node_set_config(node, config);
 	config = NULL;
-- 
2.43.0


From 60b313a3bb13c4a0c66a2a128374522abacdb815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:58 +0000
Subject: [PATCH 45/65] fix: do not release a yaml parser that is not
 initialised

---
 src/ecoli_yaml.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 66f0d11..9e8b783 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -540,12 +540,12 @@ ec_yaml_import(const char *filename)
 	file = fopen(filename, "rb");
 	if (file == NULL) {
 		fprintf(stderr, "Failed to open file %s\n", filename);
-		goto fail_no_doc;
+		goto fail_no_parser;
 	}
 
 	if (yaml_parser_initialize(&parser) == 0) {
 		fprintf(stderr, "Failed to initialize yaml parser\n");
-		goto fail_no_doc;
+		goto fail_no_parser;
 	}
 
 	yaml_parser_set_input_file(&parser, file);
@@ -577,6 +577,7 @@ fail:
 	yaml_document_delete(&document);
 fail_no_doc:
 	yaml_parser_delete(&parser);
+fail_no_parser:
 	if (file != NULL)
 		fclose(file);
 	free_table(&table);
-- 
2.43.0


From b7b52dafa01abae01b1fd602065a030d3f590ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:58 +0000
Subject: [PATCH 46/65] fix: refuse an imported node without type

---
 src/ecoli_yaml.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 9e8b783..38de8f8 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -443,6 +443,12 @@ parse_ec_node(struct enode_table *table,
 		}
 	}
 
+	if (type == NULL) {
+		fprintf(stderr, "Missing type\n");
+		errno = EINVAL;
+		goto fail;
+	}
+
 	/* create the ecoli node */
 	if (id == NULL)
 		id = EC_NO_ID;
-- 
2.43.0


From 5d425d677b5c9d8574a7ad97d2f0ab1d231b385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:58 +0000
Subject: [PATCH 47/65] fix: refuse keys and attributes that are not scalars in
 an imported document

---
 src/ecoli_yaml.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 38de8f8..96beb46 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -331,6 +331,11 @@ parse_ec_config_dict(struct enode_table *table,
 	     pair < ynode->data.mapping.pairs.top; pair++) {
 		key = document->nodes.start + pair->key - 1; // XXX -1 ?
 		value = document->nodes.start + pair->value - 1;
+		if (key->type != YAML_SCALAR_NODE) {
+			fprintf(stderr, "Key must be a scalar\n");
+			errno = EINVAL;
+			goto fail;
+		}
 		key_str = (const char *)key->data.scalar.value;
 
 		if (ec_config_key_is_reserved(key_str))
@@ -388,6 +393,11 @@ parse_ec_node(struct enode_table *table,
 	     pair < ynode->data.mapping.pairs.top; pair++) {
 		key = document->nodes.start + pair->key - 1; // XXX -1 ?
 		value = document->nodes.start + pair->value - 1;
+		if (key->type != YAML_SCALAR_NODE) {
+			fprintf(stderr, "Key must be a scalar\n");
+			errno = EINVAL;
+			goto fail;
+		}
 		key_str = (const char *)key->data.scalar.value;
 		value_str = (const char *)value->data.scalar.value;
 
@@ -497,6 +507,12 @@ parse_ec_node(struct enode_table *table,
 		     pair < attrs->data.mapping.pairs.top; pair++) {
 			key = document->nodes.start + pair->key - 1;
 			value = document->nodes.start + pair->value - 1;
+			if (key->type != YAML_SCALAR_NODE ||
+					value->type != YAML_SCALAR_NODE) {
+				fprintf(stderr, "Attribute must be a scalar\n");
+				errno = EINVAL;
+				goto fail;
+			}
 			key_str = (const char *)key->data.scalar.value;
 			value_str = (const char *)value->data.scalar.value;
 			value_dup = ec_strdup(value_str);
-- 
2.43.0


From a29137e600ba0aa752a8217f8d3c40218c26770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:58 +0000
Subject: [PATCH 48/65] fix: an empty string is not a number in an imported
 document

---
 src/ecoli_yaml.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 96beb46..baee533 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -60,7 +60,7 @@ parse_llint(const char *str, int64_t *val)
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*endptr != 0) {
+	if (endptr == str || *endptr != 0) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -91,7 +91,7 @@ parse_ullint(const char *str, uint64_t *val)
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*endptr != 0)
+	if (endptr == str || *endptr != 0)
 		return -1;
 
 	errno = save_errno;
-- 
2.43.0


From 9cffb738871c8ddf4a52c1f066b15da973df5b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:52 +0000
Subject: [PATCH 49/65] fix: do not release a child twice when it cannot be
 listed

---
 src/ecoli_node_helper.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_helper.c b/src/ecoli_node_helper.c
index 7440565..06e4241 100644
--- a/src/ecoli_node_helper.c
+++ b/src/ecoli_node_helper.c
@@ -80,8 +80,10 @@ ec_node_config_node_list_from_vargs(va_list ap)
 		if (node == NULL)
 			goto fail;
 
-		if (ec_config_list_add(list, ec_config_node(node)) < 0)
+		if (ec_config_list_add(list, ec_config_node(node)) < 0) {
+			node = NULL; /* freed */
 			goto fail;
+		}
 	}
 
 	return list;
-- 
2.43.0


From ab863cfa98a637f577983f6caee8f9fbc12a4bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:52 +0000
Subject: [PATCH 50/65] fix: do not release a child twice when it cannot be
 added to a seq node

---
 src/ecoli_node_seq.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_node_seq.c b/src/ecoli_node_seq.c
index 4afdc20..6600b21 100644
--- a/src/ecoli_node_seq.c
+++ b/src/ecoli_node_seq.c
@@ -280,6 +280,7 @@ int ec_node_seq_add(struct ec_node *node, struct ec_node *child)
 		child = NULL;
 		goto fail;
 	}
+	child = NULL; /* owned by the config */
 
 	ret = ec_node_set_config(node, config);
 	config = NULL; /* freed */
-- 
2.43.0


From 623cf7defa3cce78a98c2fbc629264dbe71a1bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:52 +0000
Subject: [PATCH 51/65] fix: do not release a child twice when it cannot be
 added to an or node

---
 src/ecoli_node_or.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_node_or.c b/src/ecoli_node_or.c
index c918160..dfba9b3 100644
--- a/src/ecoli_node_or.c
+++ b/src/ecoli_node_or.c
@@ -194,6 +194,7 @@ int ec_node_or_add(struct ec_node *node, struct ec_node *child)
 		child = NULL;
 		goto fail;
 	}
+	child = NULL; /* owned by the config */
 
 	ret = ec_node_set_config(node, config);
 	config = NULL; /* freed */
-- 
2.43.0


From 3c40f264b8c2ac193209dcc404965fef73858e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:52 +0000
Subject: [PATCH 52/65] fix: do not release a child twice when it cannot be
 added to a subset

---
 src/ecoli_node_subset.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index 81409f0..a184964 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -357,10 +357,11 @@ struct ec_node *__ec_node_subset(const char *id, ...)
 	     child = va_arg(ap, struct ec_node *)) {
 
 		/* on error, don't quit the loop to avoid leaks */
-		if (fail == 1 || child == NULL ||
-				ec_node_subset_add(node, child) < 0) {
+		if (fail == 1 || child == NULL) {
 			fail = 1;
 			ec_node_free(child);
+		} else if (ec_node_subset_add(node, child) < 0) {
+			fail = 1; /* child is freed on error */
 		}
 	}
 
-- 
2.43.0


From 2ae35338c1bd629528a63790a5f7fa59f08737fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:52 +0000
Subject: [PATCH 53/65] fix: report a failure to set the child of an option
 node

---
 src/ecoli_node_option.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_option.c b/src/ecoli_node_option.c
index bcb280a..266b869 100644
--- a/src/ecoli_node_option.c
+++ b/src/ecoli_node_option.c
@@ -180,12 +180,16 @@ struct ec_node *ec_node_option(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_option_set_child(node, child);
+	if (ec_node_option_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
-- 
2.43.0


From f2876a42cafafdf510fd95a129d2c62b4dacb5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:52 +0000
Subject: [PATCH 54/65] fix: report a failure to set the child of an once node

---
 src/ecoli_node_once.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_once.c b/src/ecoli_node_once.c
index 6a4b045..9482343 100644
--- a/src/ecoli_node_once.c
+++ b/src/ecoli_node_once.c
@@ -214,12 +214,16 @@ struct ec_node *ec_node_once(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_once_set_child(node, child);
+	if (ec_node_once_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
-- 
2.43.0


From f7b2b37f27c198d5bd873c58e411122e5e64dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:52 +0000
Subject: [PATCH 55/65] fix: report a failure to set the child of a bypass node

---
 src/ecoli_node_bypass.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_bypass.c b/src/ecoli_node_bypass.c
index 483970b..cf93724 100644
--- a/src/ecoli_node_bypass.c
+++ b/src/ecoli_node_bypass.c
@@ -172,12 +172,16 @@ struct ec_node *ec_node_bypass(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_bypass_set_child(node, child);
+	if (ec_node_bypass_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
-- 
2.43.0


From c35e50820e7087b668a65f32d2f4430017a74efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:52 +0000
Subject: [PATCH 56/65] fix: do not count a proposal that could not be added

---
 src/ecoli_complete.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 5ba4fb0..7724ec1 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -380,13 +380,8 @@ ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 
 	switch (item->type) {
 	case EC_COMP_UNKNOWN:
-		comp->count_unknown++;
-		break;
 	case EC_COMP_FULL:
-		comp->count_full++;
-		break;
 	case EC_COMP_PARTIAL:
-		comp->count_partial++;
 		break;
 	default:
 		errno = EINVAL;
@@ -403,6 +398,12 @@ ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 		comp->cur_group = grp;
 	}
 
+	if (item->type == EC_COMP_UNKNOWN)
+		comp->count_unknown++;
+	else if (item->type == EC_COMP_FULL)
+		comp->count_full++;
+	else
+		comp->count_partial++;
 	comp->count++;
 	TAILQ_INSERT_TAIL(&comp->cur_group->items, item, next);
 	item->grp = comp->cur_group;
-- 
2.43.0


From 15dc065acd575a5cd600b9c65c593bb688080221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:04 +0000
Subject: [PATCH 57/65] fix: report a failure to build an expression and keep
 the previous one

---
 src/ecoli_node_expr.c | 47 ++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index f1df6d5..f1f189a 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -101,19 +101,12 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 		*post = NULL;
 	unsigned int i;
 
-	ec_node_free(priv->child);
-	priv->child = NULL;
-
-	if (priv->val_node == NULL) {
-		errno = EINVAL;
-		return -1;
-	}
-
+	/* the configuration is not complete yet */
+	if (priv->val_node == NULL)
+		return 0;
 	if (priv->bin_ops_len == 0 && priv->pre_ops_len == 0 &&
-			priv->post_ops_len == 0) {
-		errno = EINVAL;
-		return -1;
-	}
+			priv->post_ops_len == 0)
+		return 0;
 
 	/*
 	 * Example of created grammar:
@@ -208,6 +201,7 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 	ec_node_free(ref);
 	ref = NULL;
 
+	ec_node_free(priv->child);
 	priv->child = expr;
 
 	return 0;
@@ -276,6 +270,7 @@ EC_NODE_TYPE_REGISTER(ec_node_expr_type);
 int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
+	struct ec_node *prev;
 
 	if (ec_node_check_type(node, &ec_node_expr_type) < 0)
 		goto fail;
@@ -285,9 +280,13 @@ int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 		goto fail;
 	}
 
-	ec_node_free(priv->val_node);
+	prev = priv->val_node;
 	priv->val_node = val_node;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->val_node = prev;
+		goto fail;
+	}
+	ec_node_free(prev);
 
 	return 0;
 
@@ -318,7 +317,10 @@ int ec_node_expr_add_bin_op(struct ec_node *node, struct ec_node *op)
 	priv->bin_ops = bin_ops;
 	bin_ops[priv->bin_ops_len] = op;
 	priv->bin_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->bin_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -349,7 +351,10 @@ int ec_node_expr_add_pre_op(struct ec_node *node, struct ec_node *op)
 	priv->pre_ops = pre_ops;
 	pre_ops[priv->pre_ops_len] = op;
 	priv->pre_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->pre_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -380,7 +385,10 @@ int ec_node_expr_add_post_op(struct ec_node *node, struct ec_node *op)
 	priv->post_ops = post_ops;
 	post_ops[priv->post_ops_len] = op;
 	priv->post_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->post_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -418,7 +426,10 @@ int ec_node_expr_add_parenthesis(struct ec_node *node,
 	open_ops[priv->paren_len] = open;
 	close_ops[priv->paren_len] = close;
 	priv->paren_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->paren_len--;
+		goto fail;
+	}
 
 	return 0;
 
-- 
2.43.0


From 8a3339c291cb27cdd5d9456bd8bfab32b1f9df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:04 +0000
Subject: [PATCH 58/65] fix: keep the reallocated table of parentheses

---
 src/ecoli_node_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index f1f189a..98fd440 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -416,12 +416,12 @@ int ec_node_expr_add_parenthesis(struct ec_node *node,
 		(priv->paren_len + 1) * sizeof(*priv->open_ops));
 	if (open_ops == NULL)
 		goto fail;
+	priv->open_ops = open_ops;
 	close_ops = ec_realloc(priv->close_ops,
 		(priv->paren_len + 1) * sizeof(*priv->close_ops));
 	if (close_ops == NULL)
 		goto fail;
 
-	priv->open_ops = open_ops;
 	priv->close_ops = close_ops;
 	open_ops[priv->paren_len] = open;
 	close_ops[priv->paren_len] = close;
-- 
2.43.0


From e762e4eed66df5880f4af55e616da88b25f0cac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:04 +0000
Subject: [PATCH 59/65] fix: check the allocation of the arguments of a
 condition function

---
 src/ecoli_node_cond.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 6cf6fbf..f3cffdb 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -617,7 +617,7 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 {
 	const struct ec_pnode *iter;
 	struct cond_result *res = NULL;
-	struct cond_result **args = NULL;
+	struct cond_result **args = NULL, **new_args;
 	const struct ec_pnode *func = NULL, *func_name = NULL, *arg_list = NULL;
 	const struct ec_pnode *value = NULL;
 	const char *id;
@@ -636,7 +636,11 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 
 		iter = ec_pnode_find((void *)arg_list, "id_arg");
 		while (iter != NULL) {
-			args = ec_realloc(args, (n_arg + 1) * sizeof(*args));
+			new_args = ec_realloc(args,
+					(n_arg + 1) * sizeof(*args));
+			if (new_args == NULL)
+				goto fail;
+			args = new_args;
 			args[n_arg] = eval_condition(iter, pstate);
 			if (args[n_arg] == NULL)
 				goto fail;
-- 
2.43.0


From be5e352ea1f920b424387bfe9c52e1d067a954cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:55 +0000
Subject: [PATCH 60/65] fix: release the attributes of a token when they cannot
 be set

---
 src/ecoli_node_re_lex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 2209f88..683a368 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -111,6 +111,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 
 fail:
 	ec_free(dup);
+	ec_dict_free(attrs);
 	ec_strvec_free(strvec);
 	return NULL;
 }
-- 
2.43.0


From 9d6d06bae4686d4a889749bdb7c4a7d392ef5e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:50 +0000
Subject: [PATCH 61/65] fix: do not modify a subset node while completing

---
 src/ecoli_node_subset.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index a184964..9e00a8e 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -259,9 +259,22 @@ ec_node_subset_complete(const struct ec_node *node,
 			const struct ec_strvec *strvec)
 {
 	struct ec_node_subset *priv = ec_node_priv(node);
+	struct ec_node **table = NULL;
+	int ret;
+
+	if (priv->len == 0)
+		return 0;
 
-	return __ec_node_subset_complete(priv->table, priv->len, comp,
-					strvec);
+	/* use a copy: the node may be used recursively by its children */
+	table = ec_calloc(priv->len, sizeof(*table));
+	if (table == NULL)
+		return -1;
+	memcpy(table, priv->table, priv->len * sizeof(*table));
+
+	ret = __ec_node_subset_complete(table, priv->len, comp, strvec);
+	ec_free(table);
+
+	return ret;
 }
 
 static void ec_node_subset_free_priv(struct ec_node *node)
-- 
2.43.0


From dd6aa7966fd23741debbb2903f28fbccf548b601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:34 +0000
Subject: [PATCH 62/65] fix: node_file: report a failure to add a completion
 item

---
 src/ecoli_node_file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_file.c b/src/ecoli_node_file.c
index f13aa8f..137ddf1 100644
--- a/src/ecoli_node_file.c
+++ b/src/ecoli_node_file.c
@@ -212,12 +212,12 @@ ec_node_file_complete(const struct ec_node *node,
 		}
 		item = ec_comp_add_item(comp, node, type, input, comp_str);
 		if (item == NULL)
-			goto out;
+			goto fail;
 
 		/* fix the display string: we don't want to display the full
 		 * path. */
 		if (ec_comp_item_set_display(item, disp_str) < 0)
-			goto out;
+			goto fail;
 
 		item = NULL;
 		ec_free(comp_str);
-- 
2.43.0


From 1f5e95c9a6680915903d79913757f9f529010319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:31 +0000
Subject: [PATCH 63/65] fix: node_re_lex: text that matches no pattern is not
 an error

---
 src/ecoli_node_re_lex.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 683a368..ea22496 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -100,8 +100,10 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 			break;
 		}
 
-		if (ret != 0)
+		if (ret != 0) {
+			errno = EBADMSG;
 			goto fail;
+		}
 
 		off += pos.rm_eo;
 	}
@@ -136,7 +138,10 @@ ec_node_re_lex_parse(const struct ec_node *node,
 		new_vec = ec_strvec();
 	} else {
 		str = ec_strvec_val(strvec, 0);
+		errno = 0;
 		new_vec = tokenize(priv->table, priv->len, str);
+		if (new_vec == NULL && errno == EBADMSG) /* no pattern matches */
+			return EC_PARSE_NOMATCH;
 	}
 	if (new_vec == NULL)
 		goto fail;
-- 
2.43.0


From a24dffc98d40862ade35115689f3fb84e1617fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:31 +0000
Subject: [PATCH 64/65] fix: editline: report errors of the parser and of the
 allocator

---
 src/ecoli_editline.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 01742da..21dab53 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -477,6 +477,8 @@ ec_editline_get_helps(const struct ec_editline *editline, const char *line,
 
 	/* check if the current line matches */
 	parse = ec_parse(editline->node, full_line);
+	if (parse == NULL)
+		goto fail;
 	if (ec_pnode_matches(parse))
 		count = 1;
 	ec_pnode_free(parse);
@@ -610,6 +612,9 @@ ec_editline_complete(EditLine *el, int c)
 		goto fail;
 
 	append = ec_editline_append_chars(cmpl);
+	if (append == NULL &&
+			ec_comp_count(cmpl, EC_COMP_FULL | EC_COMP_PARTIAL) > 0)
+		goto fail;
 
 	if (c == '?') {
 		struct ec_editline_help *helps = NULL;
@@ -703,8 +708,11 @@ ec_editline_get_suggestions(const struct ec_editline *editline,
 	if ((line = ec_editline_curline(editline, false)) == NULL)
 		goto out;
 
-	if (full_line != NULL)
+	if (full_line != NULL) {
 		*full_line = ec_strdup(line);
+		if (*full_line == NULL)
+			goto out;
+	}
 
 	len = strlen(line);
 	for (i = 0; i <= len + 1; i++) {
-- 
2.43.0


From 48c8517b644dfef7327bf6a92fff5ebf41caa649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:48 +0000
Subject: [PATCH 65/65] fix: keep the nodes of the groups alive when
 completions are merged

---
 src/ecoli_complete.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 7724ec1..f4e6e24 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -590,10 +590,27 @@ int ec_comp_merge(struct ec_comp *to,
 		struct ec_comp *from)
 {
 	struct ec_comp_group *grp;
+	void (*attrs_free)(struct ec_dict *) = ec_dict_free;
+	struct ec_dict *attrs;
+	char key[64];
+
+	/* the attributes may hold the nodes of the groups (see dynamic node):
+	 * keep them as long as the groups */
+	if (ec_dict_len(from->attrs) != 0) {
+		attrs = from->attrs;
+		from->attrs = NULL;
+		snprintf(key, sizeof(key), "_merge_%p", attrs);
+		if (ec_dict_set(to->attrs, key, attrs,
+				(void *)attrs_free) < 0) {
+			ec_comp_free(from);
+			return -1;
+		}
+	}
 
 	while (!TAILQ_EMPTY(&from->groups)) {
 		grp = TAILQ_FIRST(&from->groups);
 		TAILQ_REMOVE(&from->groups, grp, next);
+		grp->comp = to;
 		TAILQ_INSERT_TAIL(&to->groups, grp, next);
 	}
 	to->count += from->count;
-- 
2.43.0

