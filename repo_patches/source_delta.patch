From 5570eb766650e0bde1724238beec43414d690dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 01/56] fix: check the argument table reallocation when
 evaluating a condition

---
 src/ecoli_node_cond.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 9c07d96..5fcb187 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -616,7 +616,7 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 {
 	const struct ec_pnode *iter;
 	struct cond_result *res = NULL;
-	struct cond_result **args = NULL;
+	struct cond_result **args = NULL, **new_args;
 	const struct ec_pnode *func = NULL, *func_name = NULL, *arg_list = NULL;
 	const struct ec_pnode *value = NULL;
 	const char *id;
@@ -635,7 +635,10 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 
 		iter = ec_pnode_find((void *)arg_list, "id_arg");
 		while (iter != NULL) {
-			args = ec_realloc(args, (n_arg + 1) * sizeof(*args));
+			new_args = ec_realloc(args, (n_arg + 1) * sizeof(*args));
+			if (new_args == NULL)
+				goto fail;
+			args = new_args;
 			args[n_arg] = eval_condition(iter, pstate);
 			if (args[n_arg] == NULL)
 				goto fail;
-- 
2.43.0


From 9ab5c296f8911284829982b46a09dfd951358b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 02/56] fix: keep the resized table of opening parenthesis when
 the second resize fails

---
 src/ecoli_node_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 1348a29..0697251 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -394,12 +394,12 @@ int ec_node_expr_add_parenthesis(struct ec_node *node,
 		(priv->paren_len + 1) * sizeof(*priv->open_ops));
 	if (open_ops == NULL)
 		goto fail;
+	priv->open_ops = open_ops;
 	close_ops = ec_realloc(priv->close_ops,
 		(priv->paren_len + 1) * sizeof(*priv->close_ops));
 	if (close_ops == NULL)
 		goto fail;
 
-	priv->open_ops = open_ops;
 	priv->close_ops = close_ops;
 	open_ops[priv->paren_len] = open;
 	close_ops[priv->paren_len] = close;
-- 
2.43.0


From 4946b60baf116de08d54ff36030101d51305b8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 03/56] fix: free the value given to ec_htable_set() when
 arguments are invalid

---
 src/ecoli_htable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index b2ce66f..8240c5a 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -188,7 +188,7 @@ int ec_htable_set(struct ec_htable *htable, const void *key, size_t key_len,
 
 	if (htable == NULL || key == NULL || key_len == 0) {
 		errno = EINVAL;
-		return -1;
+		goto fail;
 	}
 
 	ref = ec_calloc(1, sizeof(*ref));
-- 
2.43.0


From 17aa4aba4c89a058984b08efb26402647009d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 04/56] fix: free the token attributes if the re_lex tokenizer
 cannot fill them

---
 src/ecoli_node_re_lex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index e8a9cbd..12d04c3 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -109,6 +109,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 	return strvec;
 
 fail:
+	ec_dict_free(attrs);
 	ec_free(dup);
 	ec_strvec_free(strvec);
 	return NULL;
-- 
2.43.0


From e29e6e053a2fef24a1dcfa574e71d1621de2b9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 05/56] fix: do not free a node twice when building a config
 from a node list

---
 src/ecoli_node_helper.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_helper.c b/src/ecoli_node_helper.c
index 7440565..06e4241 100644
--- a/src/ecoli_node_helper.c
+++ b/src/ecoli_node_helper.c
@@ -80,8 +80,10 @@ ec_node_config_node_list_from_vargs(va_list ap)
 		if (node == NULL)
 			goto fail;
 
-		if (ec_config_list_add(list, ec_config_node(node)) < 0)
+		if (ec_config_list_add(list, ec_config_node(node)) < 0) {
+			node = NULL; /* freed */
 			goto fail;
+		}
 	}
 
 	return list;
-- 
2.43.0


From 67bc8a401ebcb0228cd9e3f1e719403b8bca47ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 06/56] fix: do not free a child twice if it cannot be added to
 a subset node

---
 src/ecoli_node_subset.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index ce22a64..f0131f4 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -326,10 +326,11 @@ struct ec_node *__ec_node_subset(const char *id, ...)
 	     child = va_arg(ap, struct ec_node *)) {
 
 		/* on error, don't quit the loop to avoid leaks */
-		if (fail == 1 || child == NULL ||
-				ec_node_subset_add(node, child) < 0) {
+		if (fail == 1 || child == NULL) {
 			fail = 1;
 			ec_node_free(child);
+		} else if (ec_node_subset_add(node, child) < 0) {
+			fail = 1; /* child is freed on error */
 		}
 	}
 
-- 
2.43.0


From e56e4ca21125b48b5fdee55526d7fe0cebf998b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 07/56] fix: do not free the child twice when ec_node_seq_add()
 fails

---
 src/ecoli_node_seq.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_node_seq.c b/src/ecoli_node_seq.c
index 4afdc20..5041bec 100644
--- a/src/ecoli_node_seq.c
+++ b/src/ecoli_node_seq.c
@@ -280,6 +280,7 @@ int ec_node_seq_add(struct ec_node *node, struct ec_node *child)
 		child = NULL;
 		goto fail;
 	}
+	child = NULL; /* owned by config */
 
 	ret = ec_node_set_config(node, config);
 	config = NULL; /* freed */
-- 
2.43.0


From 8cb6e7183531963c832b7d2fd581e80e6b87d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 08/56] fix: do not free the child twice when ec_node_or_add()
 fails

---
 src/ecoli_node_or.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_node_or.c b/src/ecoli_node_or.c
index c918160..99ddc67 100644
--- a/src/ecoli_node_or.c
+++ b/src/ecoli_node_or.c
@@ -194,6 +194,7 @@ int ec_node_or_add(struct ec_node *node, struct ec_node *child)
 		child = NULL;
 		goto fail;
 	}
+	child = NULL; /* owned by config */
 
 	ret = ec_node_set_config(node, config);
 	config = NULL; /* freed */
-- 
2.43.0


From 607dcaff1cd9bef7732361ae7195e03b2fac3b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 09/56] fix: release the ec_vasprintf() buffer with the
 matching function

---
 src/ecoli_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 90728b8..17b5dce 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -60,7 +60,7 @@ int ec_vasprintf(char **buf, const char *fmt, va_list ap)
 
 	ec_assert_print(ret < buflen, "invalid return value for vsnprintf");
 	if (ret < 0) {
-		free(*buf);
+		ec_free(*buf);
 		*buf = NULL;
 		return -1;
 	}
-- 
2.43.0


From 557c015c0c417b4144dfb424c5eb7154819c9965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 10/56] fix: release editline strings with the matching
 function

---
 src/ecoli_editline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index d944b12..fee7063 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -182,7 +182,7 @@ ec_editline_set_prompt_esc(struct ec_editline *editline, const char *prompt,
 	return 0;
 
 fail:
-	free(copy);
+	ec_free(copy);
 	return -1;
 }
 
@@ -725,7 +725,7 @@ ec_editline_get_suggestions(const struct ec_editline *editline,
 	count = 0;
 
 out:
-	free(line);
+	ec_free(line);
 	ec_pnode_free(p);
 	ec_comp_free(c);
 	return count;
-- 
2.43.0


From afb979ff833a848c106ab3160cc89835dc0afc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 11/56] fix: do not keep a reference to a destroyed editline
 history

---
 src/ecoli_editline.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index fee7063..102f1e4 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -300,8 +300,11 @@ int ec_editline_set_history(struct ec_editline *editline,
 {
 	EditLine *el = editline->el;
 
-	if (editline->history != NULL)
+	if (editline->history != NULL) {
+		el_set(el, EL_HIST, NULL, NULL);
 		history_end(editline->history);
+		editline->history = NULL;
+	}
 	if (editline->hist_file != NULL) {
 		ec_free(editline->hist_file);
 		editline->hist_file = NULL;
-- 
2.43.0


From 9425d3d1b40e99584ab6cfc4ea3e53e936fe433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 12/56] fix: do not display help if it cannot be built

---
 src/ecoli_editline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 102f1e4..94218ef 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -614,6 +614,10 @@ ec_editline_complete(EditLine *el, int c)
 
 		count = ec_editline_get_helps(editline, line, full_line,
 				&helps);
+		if (count < 0) {
+			fprintf(err, "completion failure: cannot get help\n");
+			goto fail;
+		}
 
 		fprintf(out, "\n");
 		if (ec_editline_print_helps(editline, helps, count) < 0) {
-- 
2.43.0


From 0d03818d03fc6e683bc183877ea49ce873d46282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 13/56] fix: only remove the trailing newline from lines read
 by editline

---
 src/ecoli_editline.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 94218ef..ae2764f 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -744,6 +744,7 @@ ec_editline_gets(struct ec_editline *editline)
 	EditLine *el = editline->el;
 	char *line_copy = NULL;
 	const char *line;
+	size_t len;
 	int count;
 
 	line = el_gets(el, &count);
@@ -754,7 +755,10 @@ ec_editline_gets(struct ec_editline *editline)
 	if (line_copy == NULL)
 		goto fail;
 
-	line_copy[strlen(line_copy) - 1] = '\0'; //XXX needed because of sh_lex bug?
+	//XXX needed because of sh_lex bug?
+	len = strlen(line_copy);
+	if (len > 0 && line_copy[len - 1] == '\n')
+		line_copy[len - 1] = '\0';
 
 	if (editline->history != NULL && !ec_str_is_space(line_copy)) {
 		history(editline->history, &editline->histev,
-- 
2.43.0


From bd5a5a50f65c3435983ae3a8fbdbc27f80cbdaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:47 +0000
Subject: [PATCH 14/56] fix: return the new pointer from ec_realloc_func()

---
 include/ecoli_malloc.h | 2 +-
 src/ecoli_malloc.c     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ecoli_malloc.h b/include/ecoli_malloc.h
index 7b94e5b..f9ae3ea 100644
--- a/include/ecoli_malloc.h
+++ b/include/ecoli_malloc.h
@@ -182,7 +182,7 @@ void ec_free_func(void *ptr);
  * Use this function when the macro ec_realloc() cannot be used,
  * for instance when it is passed as a callback pointer.
  */
-void ec_realloc_func(void *ptr, size_t size);
+void *ec_realloc_func(void *ptr, size_t size);
 
 /**
  * Allocate and initialize an array of elements.
diff --git a/src/ecoli_malloc.c b/src/ecoli_malloc.c
index 8b1c68e..da77e78 100644
--- a/src/ecoli_malloc.c
+++ b/src/ecoli_malloc.c
@@ -83,9 +83,9 @@ void *__ec_realloc(void *ptr, size_t size, const char *file, unsigned int line)
 	return ec_malloc_handler.realloc(ptr, size, file, line);
 }
 
-void ec_realloc_func(void *ptr, size_t size)
+void *ec_realloc_func(void *ptr, size_t size)
 {
-	ec_realloc(ptr, size);
+	return ec_realloc(ptr, size);
 }
 
 char *__ec_strdup(const char *s, const char *file, unsigned int line)
-- 
2.43.0


From 1fbbc00493bd4f83c846e1e8be96772f5d24abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:47 +0000
Subject: [PATCH 15/56] fix: do not free an uninitialized pointer if the help
 of a node cannot be built

---
 src/ecoli_editline.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index ae2764f..ca8f4b6 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -453,7 +453,6 @@ static int get_node_help(const struct ec_comp_item *item,
 
 fail:
 	ec_free(node_desc);
-	ec_free(help->help);
 	help->desc = NULL;
 	help->help = NULL;
 	return -1;
-- 
2.43.0


From b43b4c419e5dfbddc893e48d9a9f4a6b08cce1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:16 +0000
Subject: [PATCH 16/56] fix: do not evaluate the condition of a cond node whose
 child does not match

---
 src/ecoli_node_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 5fcb187..7dcf6db 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -709,7 +709,7 @@ ec_node_cond_parse(const struct ec_node *node, struct ec_pnode *pstate,
 	int ret, valid;
 
 	ret = ec_parse_child(priv->child, pstate, strvec);
-	if (ret <= 0)
+	if (ret < 0 || ret == EC_PARSE_NOMATCH)
 		return ret;
 
 	valid = validate_condition(priv->parsed_cond, pstate);
-- 
2.43.0


From b22a2cc48f2853c45c29eaedaca27c3140e344b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:16 +0000
Subject: [PATCH 17/56] fix: do not loop forever when iterating completion
 items of several groups

---
 src/ecoli_complete.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 40326ef..5ba4fb0 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -652,6 +652,7 @@ __ec_comp_iter_next(const struct ec_comp *comp, struct ec_comp_item *item,
 			if (cur_match->type & type)
 				return cur_match;
 		}
+		cur_grp = TAILQ_NEXT(cur_grp, next);
 	}
 
 	return NULL;
-- 
2.43.0


From b9bacbe59094b3470943346d31da045e974b6079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:16 +0000
Subject: [PATCH 18/56] fix: do not recurse forever when completing many nodes
 matching nothing

---
 src/ecoli_node_many.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_many.c b/src/ecoli_node_many.c
index c13b2f1..8489ddc 100644
--- a/src/ecoli_node_many.c
+++ b/src/ecoli_node_many.c
@@ -100,8 +100,9 @@ __ec_node_many_complete(struct ec_node_many *priv, unsigned int max,
 		max--;
 
 	/* then, if the node matches the beginning of the strvec, try to
-	 * complete the rest */
-	for (i = 0; i < ec_strvec_len(strvec); i++) {
+	 * complete the rest. An empty match is skipped: it would complete the
+	 * same strvec again. */
+	for (i = 1; i < ec_strvec_len(strvec); i++) {
 		childvec = ec_strvec_ndup(strvec, 0, i);
 		if (childvec == NULL)
 			goto fail;
-- 
2.43.0


From 10b7ef13ad3216d6c5d9fbe1e3d86505b217e5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:59 +0000
Subject: [PATCH 19/56] fix: keep the lower bound of integer nodes without
 upper bound

---
 src/ecoli_node_int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_int.c b/src/ecoli_node_int.c
index 58c5f5a..3dd8b44 100644
--- a/src/ecoli_node_int.c
+++ b/src/ecoli_node_int.c
@@ -156,7 +156,7 @@ static int ec_node_int_set_config(struct ec_node *node,
 		priv->check_max = true;
 		priv->max = max_value->i64;
 	} else {
-		priv->check_min = false;
+		priv->check_max = false;
 	}
 	if (base_value != NULL)
 		priv->base = base_value->u64;
@@ -268,7 +268,7 @@ static int ec_node_uint_set_config(struct ec_node *node,
 		priv->check_max = true;
 		priv->max = max_value->u64;
 	} else {
-		priv->check_min = false;
+		priv->check_max = false;
 	}
 	if (base_value != NULL)
 		priv->base = base_value->u64;
-- 
2.43.0


From 704c04386b780435ab5ba15863d696e2ca7a11a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:59 +0000
Subject: [PATCH 20/56] fix: dump signed and unsigned config values with their
 own type

---
 src/ecoli_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_config.c b/src/ecoli_config.c
index 57a7a61..ec67411 100644
--- a/src/ecoli_config.c
+++ b/src/ecoli_config.c
@@ -855,10 +855,10 @@ __ec_config_dump(FILE *out, const char *key, const struct ec_config *value,
 			ec_asprintf(&val_str, "false");
 		break;
 	case EC_CONFIG_TYPE_INT64:
-		ec_asprintf(&val_str, "%"PRIu64, value->u64);
+		ec_asprintf(&val_str, "%"PRIi64, value->i64);
 		break;
 	case EC_CONFIG_TYPE_UINT64:
-		ec_asprintf(&val_str, "%"PRIi64, value->i64);
+		ec_asprintf(&val_str, "%"PRIu64, value->u64);
 		break;
 	case EC_CONFIG_TYPE_STRING:
 		ec_asprintf(&val_str, "%s", value->string);
-- 
2.43.0


From 14eba2430d29c53ae8cac32d00ba39add0cc6757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:59 +0000
Subject: [PATCH 21/56] fix: compare node sets by key in conditions: their
 elements have no value

---
 src/ecoli_node_cond.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 7dcf6db..bb999c0 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -522,10 +522,10 @@ eval_cmp(const struct ec_pnode *pstate, struct cond_result **in,
 		eq = true;
 		for (iter = ec_htable_iter(in[1]->htable);
 		     iter != NULL; iter = ec_htable_iter_next(iter)) {
-			if (ec_htable_get(
+			if (!ec_htable_has_key(
 					in[2]->htable,
 					ec_htable_iter_get_key(iter),
-					sizeof(struct ec_pnode *)) == NULL) {
+					sizeof(struct ec_pnode *))) {
 				eq = false;
 				break;
 			}
-- 
2.43.0


From d0e1f91c47514ab920506b491d9c39ad7ea7b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:59 +0000
Subject: [PATCH 22/56] fix: do not dereference a NULL hash table before
 checking it

---
 src/ecoli_htable.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index 8240c5a..5700f57 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -42,7 +42,7 @@ ec_htable_lookup(const struct ec_htable *htable, const void *key,
 		size_t key_len)
 {
 	struct ec_htable_elt_ref *ref;
-	uint32_t h, mask = htable->table_size - 1;
+	uint32_t h, mask;
 
 	if (htable == NULL || key == NULL) {
 		errno = EINVAL;
@@ -53,6 +53,7 @@ ec_htable_lookup(const struct ec_htable *htable, const void *key,
 		return NULL;
 	}
 
+	mask = htable->table_size - 1;
 	h = ec_murmurhash3(key, key_len, ec_htable_seed);
 	TAILQ_FOREACH(ref, &htable->table[h & mask], hnext) {
 		if (ref->elt->key_len != key_len)
-- 
2.43.0


From df434602525c1e2ca1f6afded07b7a472be8e4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:59 +0000
Subject: [PATCH 23/56] fix: do not report a consumed string when a sh_lex node
 parses an empty vector

---
 src/ecoli_node_sh_lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_sh_lex.c b/src/ecoli_node_sh_lex.c
index 935ae32..fcc0189 100644
--- a/src/ecoli_node_sh_lex.c
+++ b/src/ecoli_node_sh_lex.c
@@ -54,7 +54,7 @@ ec_node_sh_lex_parse(const struct ec_node *node,
 		goto fail;
 
 	if ((unsigned)ret == ec_strvec_len(new_vec)) {
-		ret = 1;
+		ret = ec_strvec_len(strvec) == 0 ? 0 : 1;
 	} else if (ret != EC_PARSE_NOMATCH) {
 		child_parse = ec_pnode_get_last_child(pstate);
 		ec_pnode_unlink_child(child_parse);
-- 
2.43.0


From d34f125e6a4ec22508b09180060ec776f7771a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:59 +0000
Subject: [PATCH 24/56] fix: do not report a consumed string when a re_lex node
 parses an empty vector

---
 src/ecoli_node_re_lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 12d04c3..c69eb7f 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -145,7 +145,7 @@ ec_node_re_lex_parse(const struct ec_node *node,
 		goto fail;
 
 	if ((unsigned)ret == ec_strvec_len(new_vec)) {
-		ret = 1;
+		ret = ec_strvec_len(strvec) == 0 ? 0 : 1;
 	} else if (ret != EC_PARSE_NOMATCH) {
 		child_parse = ec_pnode_get_last_child(pstate);
 		ec_pnode_unlink_child(child_parse);
-- 
2.43.0


From 9c05b30e663b536fd782ea79d968166f818f9a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:23 +0000
Subject: [PATCH 25/56] fix: do not modify the child table of a subset node
 during completion

---
 src/ecoli_node_subset.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index f0131f4..db84fa3 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -228,9 +228,22 @@ ec_node_subset_complete(const struct ec_node *node,
 			const struct ec_strvec *strvec)
 {
 	struct ec_node_subset *priv = ec_node_priv(node);
+	struct ec_node **table;
+	int ret;
+
+	if (priv->len == 0)
+		return 0;
 
-	return __ec_node_subset_complete(priv->table, priv->len, comp,
-					strvec);
+	/* work on a copy: the matching children are masked in the table */
+	table = ec_malloc(priv->len * sizeof(*table));
+	if (table == NULL)
+		return -1;
+	memcpy(table, priv->table, priv->len * sizeof(*table));
+
+	ret = __ec_node_subset_complete(table, priv->len, comp, strvec);
+	ec_free(table);
+
+	return ret;
 }
 
 static void ec_node_subset_free_priv(struct ec_node *node)
-- 
2.43.0


From 367c7ece45f204008e822711e41cec3de70d35ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:23 +0000
Subject: [PATCH 26/56] fix: release the intermediate nodes of a command
 expression as nodes

---
 src/ecoli_node_cmd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index c60522f..0f45d79 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -260,7 +260,7 @@ static void
 ec_node_cmd_eval_free(void *result, void *userctx)
 {
 	(void)userctx;
-	ec_free(result);
+	ec_node_free(result);
 }
 
 static const struct ec_node_expr_eval_ops expr_ops = {
-- 
2.43.0


From fa5caba147ea57f9362dacdc435d4876bf2b5bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:23 +0000
Subject: [PATCH 27/56] fix: check the result of the last operation when
 building the command parser

---
 src/ecoli_node_cmd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 0f45d79..fcad6df 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -305,7 +305,7 @@ ec_node_cmd_build_expr(void)
 		ec_node_str(EC_NO_ID, "]"));
 	if (ret < 0)
 		goto fail;
-	ec_node_expr_add_parenthesis(expr, ec_node_str(EC_NO_ID, "("),
+	ret = ec_node_expr_add_parenthesis(expr, ec_node_str(EC_NO_ID, "("),
 		ec_node_str(EC_NO_ID, ")"));
 	if (ret < 0)
 		goto fail;
-- 
2.43.0


From 6a451f7919b11c8e1570ad0503c173f6b7cb6f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:24 +0000
Subject: [PATCH 28/56] fix: attach merged completion groups to their new
 completion list

---
 src/ecoli_complete.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 5ba4fb0..11a4825 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -594,6 +594,7 @@ int ec_comp_merge(struct ec_comp *to,
 		grp = TAILQ_FIRST(&from->groups);
 		TAILQ_REMOVE(&from->groups, grp, next);
 		TAILQ_INSERT_TAIL(&to->groups, grp, next);
+		grp->comp = to;
 	}
 	to->count += from->count;
 	to->count_full += from->count_full;
-- 
2.43.0


From 8fbc3e8bda2eb24c89449eaf7276ecaadcc48625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:24 +0000
Subject: [PATCH 29/56] fix: do not delete an uninitialized yaml parser

---
 src/ecoli_yaml.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 66f0d11..9e8b783 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -540,12 +540,12 @@ ec_yaml_import(const char *filename)
 	file = fopen(filename, "rb");
 	if (file == NULL) {
 		fprintf(stderr, "Failed to open file %s\n", filename);
-		goto fail_no_doc;
+		goto fail_no_parser;
 	}
 
 	if (yaml_parser_initialize(&parser) == 0) {
 		fprintf(stderr, "Failed to initialize yaml parser\n");
-		goto fail_no_doc;
+		goto fail_no_parser;
 	}
 
 	yaml_parser_set_input_file(&parser, file);
@@ -577,6 +577,7 @@ fail:
 	yaml_document_delete(&document);
 fail_no_doc:
 	yaml_parser_delete(&parser);
+fail_no_parser:
 	if (file != NULL)
 		fclose(file);
 	free_table(&table);
-- 
2.43.0


From 48a3f13245d0b1d00c86d197699c1153fa74979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:24 +0000
Subject: [PATCH 30/56] fix: reject yaml nodes without type

---
 src/ecoli_yaml.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 9e8b783..4b74a76 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -443,6 +443,11 @@ parse_ec_node(struct enode_table *table,
 		}
 	}
 
+	if (type == NULL) {
+		fprintf(stderr, "Missing type\n");
+		goto fail;
+	}
+
 	/* create the ecoli node */
 	if (id == NULL)
 		id = EC_NO_ID;
-- 
2.43.0


From e34b13d1883ff74964448ea20bb1645823ef79f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:24 +0000
Subject: [PATCH 31/56] fix: reject yaml mapping keys and attributes that are
 not scalars

---
 src/ecoli_yaml.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 4b74a76..db566b5 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -331,6 +331,10 @@ parse_ec_config_dict(struct enode_table *table,
 	     pair < ynode->data.mapping.pairs.top; pair++) {
 		key = document->nodes.start + pair->key - 1; // XXX -1 ?
 		value = document->nodes.start + pair->value - 1;
+		if (key->type != YAML_SCALAR_NODE) {
+			fprintf(stderr, "Config key must be a scalar\n");
+			goto fail;
+		}
 		key_str = (const char *)key->data.scalar.value;
 
 		if (ec_config_key_is_reserved(key_str))
@@ -388,6 +392,10 @@ parse_ec_node(struct enode_table *table,
 	     pair < ynode->data.mapping.pairs.top; pair++) {
 		key = document->nodes.start + pair->key - 1; // XXX -1 ?
 		value = document->nodes.start + pair->value - 1;
+		if (key->type != YAML_SCALAR_NODE) {
+			fprintf(stderr, "Node key must be a scalar\n");
+			goto fail;
+		}
 		key_str = (const char *)key->data.scalar.value;
 		value_str = (const char *)value->data.scalar.value;
 
@@ -496,6 +504,11 @@ parse_ec_node(struct enode_table *table,
 		     pair < attrs->data.mapping.pairs.top; pair++) {
 			key = document->nodes.start + pair->key - 1;
 			value = document->nodes.start + pair->value - 1;
+			if (key->type != YAML_SCALAR_NODE ||
+					value->type != YAML_SCALAR_NODE) {
+				fprintf(stderr, "Attribute must be a scalar\n");
+				goto fail;
+			}
 			key_str = (const char *)key->data.scalar.value;
 			value_str = (const char *)value->data.scalar.value;
 			value_dup = ec_strdup(value_str);
-- 
2.43.0


From a1784de01e65c521702919d8c5253a076ed8b0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:45 +0000
Subject: [PATCH 32/56] fix: do not count completion items that could not be
 added

---
 src/ecoli_complete.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 11a4825..48f1358 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -378,17 +378,8 @@ ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 		return -1;
 	}
 
-	switch (item->type) {
-	case EC_COMP_UNKNOWN:
-		comp->count_unknown++;
-		break;
-	case EC_COMP_FULL:
-		comp->count_full++;
-		break;
-	case EC_COMP_PARTIAL:
-		comp->count_partial++;
-		break;
-	default:
+	if (item->type != EC_COMP_UNKNOWN && item->type != EC_COMP_FULL &&
+			item->type != EC_COMP_PARTIAL) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -403,6 +394,20 @@ ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 		comp->cur_group = grp;
 	}
 
+	switch (item->type) {
+	case EC_COMP_UNKNOWN:
+		comp->count_unknown++;
+		break;
+	case EC_COMP_FULL:
+		comp->count_full++;
+		break;
+	case EC_COMP_PARTIAL:
+		comp->count_partial++;
+		break;
+	default:
+		break;
+	}
+
 	comp->count++;
 	TAILQ_INSERT_TAIL(&comp->cur_group->items, item, next);
 	item->grp = comp->cur_group;
-- 
2.43.0


From 3f4d0bdc8368f6fac6437c96dbd78ceea3e57cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:57 +0000
Subject: [PATCH 33/56] fix: report failures to set the child when creating a
 bypass node

---
 src/ecoli_node_bypass.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_bypass.c b/src/ecoli_node_bypass.c
index 483970b..cf93724 100644
--- a/src/ecoli_node_bypass.c
+++ b/src/ecoli_node_bypass.c
@@ -172,12 +172,16 @@ struct ec_node *ec_node_bypass(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_bypass_set_child(node, child);
+	if (ec_node_bypass_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
-- 
2.43.0


From 6e3bc8f19daef1137358a91f811fe9b5d5495c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:57 +0000
Subject: [PATCH 34/56] fix: report failures to set the child when creating a
 once node

---
 src/ecoli_node_once.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_once.c b/src/ecoli_node_once.c
index 6a4b045..9482343 100644
--- a/src/ecoli_node_once.c
+++ b/src/ecoli_node_once.c
@@ -214,12 +214,16 @@ struct ec_node *ec_node_once(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_once_set_child(node, child);
+	if (ec_node_once_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
-- 
2.43.0


From 3c039856b1fabb1da4c41f590bf5e70b34ad5313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:57 +0000
Subject: [PATCH 35/56] fix: report failures to set the child when creating a
 option node

---
 src/ecoli_node_option.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_option.c b/src/ecoli_node_option.c
index bcb280a..266b869 100644
--- a/src/ecoli_node_option.c
+++ b/src/ecoli_node_option.c
@@ -180,12 +180,16 @@ struct ec_node *ec_node_option(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_option_set_child(node, child);
+	if (ec_node_option_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
-- 
2.43.0


From 2284aae2c0f91c5228b30689a10aeee66f182328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:57 +0000
Subject: [PATCH 36/56] fix: do not crash when parsing or completing a node
 without child

---
 src/ecoli_complete.c | 5 +++++
 src/ecoli_parse.c    | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 48f1358..b974de3 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -108,6 +108,11 @@ ec_complete_child(const struct ec_node *node,
 	ec_complete_t complete_cb;
 	int ret;
 
+	if (node == NULL) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	/* get the complete method, falling back to ec_complete_unknown() */
 	complete_cb = ec_node_type(node)->complete;
 	if (complete_cb == NULL)
diff --git a/src/ecoli_parse.c b/src/ecoli_parse.c
index e4153c0..c623d3d 100644
--- a/src/ecoli_parse.c
+++ b/src/ecoli_parse.c
@@ -43,6 +43,10 @@ static int __ec_parse_child(const struct ec_node *node,
 
 	// XXX limit max number of recursions to avoid segfault
 
+	if (node == NULL) {
+		errno = EINVAL;
+		return -1;
+	}
 	if (ec_node_type(node)->parse == NULL) {
 		errno = ENOTSUP;
 		return -1;
-- 
2.43.0


From 77bf3fe0718eb9da737cd1fd322e2005d8107f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:57 +0000
Subject: [PATCH 37/56] fix: do not crash when using a re or str node that is
 not configured

---
 src/ecoli_node_re.c  | 5 +++++
 src/ecoli_node_str.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/ecoli_node_re.c b/src/ecoli_node_re.c
index 8633501..fcc2c0e 100644
--- a/src/ecoli_node_re.c
+++ b/src/ecoli_node_re.c
@@ -36,6 +36,11 @@ ec_node_re_parse(const struct ec_node *node,
 
 	(void)pstate;
 
+	if (priv->re_str == NULL) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	if (ec_strvec_len(strvec) == 0)
 		return EC_PARSE_NOMATCH;
 
diff --git a/src/ecoli_node_str.c b/src/ecoli_node_str.c
index d568430..3bf336d 100644
--- a/src/ecoli_node_str.c
+++ b/src/ecoli_node_str.c
@@ -84,6 +84,11 @@ static char *ec_node_str_desc(const struct ec_node *node)
 {
 	struct ec_node_str *priv = ec_node_priv(node);
 
+	if (priv->string == NULL) {
+		errno = EINVAL;
+		return NULL;
+	}
+
 	return ec_strdup(priv->string);
 }
 
-- 
2.43.0


From a36d267ec2e5c31f50bdf29cfd2d7271cf96ecc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:57 +0000
Subject: [PATCH 38/56] fix: report errors when adding file completion items

---
 src/ecoli_node_file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_file.c b/src/ecoli_node_file.c
index f13aa8f..137ddf1 100644
--- a/src/ecoli_node_file.c
+++ b/src/ecoli_node_file.c
@@ -212,12 +212,12 @@ ec_node_file_complete(const struct ec_node *node,
 		}
 		item = ec_comp_add_item(comp, node, type, input, comp_str);
 		if (item == NULL)
-			goto out;
+			goto fail;
 
 		/* fix the display string: we don't want to display the full
 		 * path. */
 		if (ec_comp_item_set_display(item, disp_str) < 0)
-			goto out;
+			goto fail;
 
 		item = NULL;
 		ec_free(comp_str);
-- 
2.43.0


From b72c89994bc0e55bd00ead676bfff9cc54916964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:57 +0000
Subject: [PATCH 39/56] fix: return the proper number of references to the
 child of a cond node

---
 src/ecoli_node_cond.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index bb999c0..bb82464 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -830,7 +830,8 @@ ec_node_cond_get_child(const struct ec_node *node, size_t i,
 		return -1;
 
 	*child = priv->child;
-	*refs = 1;
+	/* the child node is referenced twice: in the config and in priv */
+	*refs = 2;
 	return 0;
 }
 
-- 
2.43.0


From c50798f5d82e1f68ad4356a70a500c07c61e555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:57 +0000
Subject: [PATCH 40/56] fix: do not accept an empty string as an integer

---
 src/ecoli_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 17b5dce..b59d3b0 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -113,7 +113,7 @@ int ec_str_parse_llint(const char *str, unsigned int base, int64_t min,
 		return -1;
 	}
 
-	if (*endptr != 0) {
+	if (*endptr != 0 || endptr == str) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -146,7 +146,7 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 	if (*val > max)
 		return -1;
 
-	if (*endptr != 0)
+	if (*endptr != 0 || endptr == str)
 		return -1;
 
 	errno = save_errno;
-- 
2.43.0


From 0b6c373095c84b8c78bbc45b11726a64c7ddc97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:57 +0000
Subject: [PATCH 41/56] fix: do not loop forever when a re_lex node has no
 pattern

---
 src/ecoli_node_re_lex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index c69eb7f..1829747 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -61,6 +61,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 
 	len = strlen(dup);
 	while (off < len) {
+		ret = -1;
 		for (i = 0; i < table_len; i++) {
 			ret = regexec(&table[i].r, &dup[off], 1, &pos, 0);
 			if (ret != 0)
-- 
2.43.0


From 3336dc4bbe2f1f9358b7cfc3250f9fc3d72de0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:43 +0000
Subject: [PATCH 42/56] fix: report a failure to build the grammar of an expr
 node

---
 src/ecoli_node_expr.c | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 0697251..8eba6e5 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -104,16 +104,13 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 	ec_node_free(priv->child);
 	priv->child = NULL;
 
-	if (priv->val_node == NULL) {
-		errno = EINVAL;
-		return -1;
-	}
+	/* not enough information yet, it will be built later */
+	if (priv->val_node == NULL)
+		return 0;
 
 	if (priv->bin_ops_len == 0 && priv->pre_ops_len == 0 &&
-			priv->post_ops_len == 0) {
-		errno = EINVAL;
-		return -1;
-	}
+			priv->post_ops_len == 0)
+		return 0;
 
 	/*
 	 * Example of created grammar:
@@ -273,9 +270,8 @@ int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 
 	ec_node_free(priv->val_node);
 	priv->val_node = val_node;
-	ec_node_expr_build(priv);
 
-	return 0;
+	return ec_node_expr_build(priv);
 
 fail:
 	ec_node_free(val_node);
@@ -304,9 +300,8 @@ int ec_node_expr_add_bin_op(struct ec_node *node, struct ec_node *op)
 	priv->bin_ops = bin_ops;
 	bin_ops[priv->bin_ops_len] = op;
 	priv->bin_ops_len++;
-	ec_node_expr_build(priv);
 
-	return 0;
+	return ec_node_expr_build(priv);
 
 fail:
 	ec_node_free(op);
@@ -335,9 +330,8 @@ int ec_node_expr_add_pre_op(struct ec_node *node, struct ec_node *op)
 	priv->pre_ops = pre_ops;
 	pre_ops[priv->pre_ops_len] = op;
 	priv->pre_ops_len++;
-	ec_node_expr_build(priv);
 
-	return 0;
+	return ec_node_expr_build(priv);
 
 fail:
 	ec_node_free(op);
@@ -366,9 +360,8 @@ int ec_node_expr_add_post_op(struct ec_node *node, struct ec_node *op)
 	priv->post_ops = post_ops;
 	post_ops[priv->post_ops_len] = op;
 	priv->post_ops_len++;
-	ec_node_expr_build(priv);
 
-	return 0;
+	return ec_node_expr_build(priv);
 
 fail:
 	ec_node_free(op);
@@ -404,9 +397,8 @@ int ec_node_expr_add_parenthesis(struct ec_node *node,
 	open_ops[priv->paren_len] = open;
 	close_ops[priv->paren_len] = close;
 	priv->paren_len++;
-	ec_node_expr_build(priv);
 
-	return 0;
+	return ec_node_expr_build(priv);
 
 fail:
 	ec_node_free(open);
-- 
2.43.0


From 76d090de1f9af7863caafce7ea539e70a0f6c62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:34 +0000
Subject: [PATCH 43/56] fix: keep an expr node unchanged when it cannot be
 rebuilt

---
 src/ecoli_node_expr.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 8eba6e5..ebf1fbd 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -101,9 +101,6 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 		*post = NULL;
 	unsigned int i;
 
-	ec_node_free(priv->child);
-	priv->child = NULL;
-
 	/* not enough information yet, it will be built later */
 	if (priv->val_node == NULL)
 		return 0;
@@ -205,6 +202,7 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 	ec_node_free(ref);
 	ref = NULL;
 
+	ec_node_free(priv->child);
 	priv->child = expr;
 
 	return 0;
@@ -259,6 +257,7 @@ EC_NODE_TYPE_REGISTER(ec_node_expr_type);
 int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
+	struct ec_node *old_val_node;
 
 	if (ec_node_check_type(node, &ec_node_expr_type) < 0)
 		goto fail;
@@ -268,10 +267,15 @@ int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 		goto fail;
 	}
 
-	ec_node_free(priv->val_node);
+	old_val_node = priv->val_node;
 	priv->val_node = val_node;
+	if (ec_node_expr_build(priv) < 0) {
+		priv->val_node = old_val_node;
+		goto fail;
+	}
+	ec_node_free(old_val_node);
 
-	return ec_node_expr_build(priv);
+	return 0;
 
 fail:
 	ec_node_free(val_node);
@@ -300,8 +304,12 @@ int ec_node_expr_add_bin_op(struct ec_node *node, struct ec_node *op)
 	priv->bin_ops = bin_ops;
 	bin_ops[priv->bin_ops_len] = op;
 	priv->bin_ops_len++;
+	if (ec_node_expr_build(priv) < 0) {
+		priv->bin_ops_len--;
+		goto fail;
+	}
 
-	return ec_node_expr_build(priv);
+	return 0;
 
 fail:
 	ec_node_free(op);
@@ -330,8 +338,12 @@ int ec_node_expr_add_pre_op(struct ec_node *node, struct ec_node *op)
 	priv->pre_ops = pre_ops;
 	pre_ops[priv->pre_ops_len] = op;
 	priv->pre_ops_len++;
+	if (ec_node_expr_build(priv) < 0) {
+		priv->pre_ops_len--;
+		goto fail;
+	}
 
-	return ec_node_expr_build(priv);
+	return 0;
 
 fail:
 	ec_node_free(op);
@@ -360,8 +372,12 @@ int ec_node_expr_add_post_op(struct ec_node *node, struct ec_node *op)
 	priv->post_ops = post_ops;
 	post_ops[priv->post_ops_len] = op;
 	priv->post_ops_len++;
+	if (ec_node_expr_build(priv) < 0) {
+		priv->post_ops_len--;
+		goto fail;
+	}
 
-	return ec_node_expr_build(priv);
+	return 0;
 
 fail:
 	ec_node_free(op);
@@ -397,8 +413,12 @@ int ec_node_expr_add_parenthesis(struct ec_node *node,
 	open_ops[priv->paren_len] = open;
 	close_ops[priv->paren_len] = close;
 	priv->paren_len++;
+	if (ec_node_expr_build(priv) < 0) {
+		priv->paren_len--;
+		goto fail;
+	}
 
-	return ec_node_expr_build(priv);
+	return 0;
 
 fail:
 	ec_node_free(open);
-- 
2.43.0


From cfd7ccc1b35353af4f9ce379d8f61ae330ecc7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:10 +0000
Subject: [PATCH 44/56] fix: set errno when ec_str_parse_ullint() rejects its
 input

---
 src/ecoli_string.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index b59d3b0..cbf031b 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -130,8 +130,10 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 
 	/* since a negative input is silently converted to a positive
 	 * one by strtoull(), first check that it is positive */
-	if (strchr(str, '-'))
+	if (strchr(str, '-')) {
+		errno = ERANGE;
 		return -1;
+	}
 
 	errno = 0;
 	*val = strtoull(str, &endptr, base);
@@ -140,14 +142,20 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*val < min)
+	if (*val < min) {
+		errno = ERANGE;
 		return -1;
+	}
 
-	if (*val > max)
+	if (*val > max) {
+		errno = ERANGE;
 		return -1;
+	}
 
-	if (*endptr != 0 || endptr == str)
+	if (*endptr != 0 || endptr == str) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = save_errno;
 	return 0;
-- 
2.43.0


From 0dc9a60a090d177191b871a324ac12c428028f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:10 +0000
Subject: [PATCH 45/56] fix: set errno when a configuration value is created
 from NULL

---
 src/ecoli_config.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_config.c b/src/ecoli_config.c
index ec67411..de706d1 100644
--- a/src/ecoli_config.c
+++ b/src/ecoli_config.c
@@ -274,8 +274,10 @@ ec_config_string(const char *string)
 	struct ec_config *value = NULL;
 	char *s = NULL;
 
-	if (string == NULL)
+	if (string == NULL) {
+		errno = EINVAL;
 		goto fail;
+	}
 
 	s = ec_strdup(string);
 	if (s == NULL)
@@ -302,8 +304,10 @@ ec_config_node(struct ec_node *node)
 {
 	struct ec_config *value = NULL;
 
-	if (node == NULL)
+	if (node == NULL) {
+		errno = EINVAL;
 		goto fail;
+	}
 
 	value = ec_calloc(1, sizeof(*value));
 	if (value == NULL)
-- 
2.43.0


From 25d93202d72e6a4c628311c68db3671d69542047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:10 +0000
Subject: [PATCH 46/56] fix: reject an invalid range with an error code in the
 ndup functions

---
 src/ecoli_strvec.c | 4 +++-
 src/ecoli_vec.c    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index ec63335..123e8b1 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -156,8 +156,10 @@ struct ec_strvec *ec_strvec_ndup(const struct ec_strvec *strvec, size_t off,
 	size_t i, veclen;
 
 	veclen = ec_strvec_len(strvec);
-	if (off + len > veclen)
+	if (off > veclen || len > veclen - off) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	copy = ec_strvec();
 	if (copy == NULL)
diff --git a/src/ecoli_vec.c b/src/ecoli_vec.c
index 3fd5805..661f6b6 100644
--- a/src/ecoli_vec.c
+++ b/src/ecoli_vec.c
@@ -122,8 +122,10 @@ struct ec_vec *ec_vec_ndup(const struct ec_vec *vec, size_t off,
 	size_t i, veclen;
 
 	veclen = ec_vec_len(vec);
-	if (off + len > veclen)
+	if (off > veclen || len > veclen - off) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	copy = ec_vec(vec->elt_size, len, vec->copy, vec->free);
 	if (copy == NULL)
-- 
2.43.0


From 229cade1eb2c35bad67b67c947d1dee74e4a2233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:10 +0000
Subject: [PATCH 47/56] fix: set errno when a completion item has a start but
 no value

---
 src/ecoli_complete.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index b974de3..32a80a0 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -259,8 +259,10 @@ ec_comp_item(enum ec_comp_type type,
 		if (start_cp == NULL)
 			goto fail;
 
-		if (full == NULL)
+		if (full == NULL) {
+			errno = EINVAL;
 			goto fail;
+		}
 
 		if (ec_str_startswith(full, start)) {
 			comp_cp = ec_strdup(&full[strlen(start)]);
-- 
2.43.0


From 34130f253001ea9dfbd22b5d1da8e31b3358bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:10 +0000
Subject: [PATCH 48/56] fix: set errno when duplicating a NULL parse tree

---
 src/ecoli_parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_parse.c b/src/ecoli_parse.c
index c623d3d..ba939ed 100644
--- a/src/ecoli_parse.c
+++ b/src/ecoli_parse.c
@@ -173,8 +173,10 @@ __ec_pnode_dup(const struct ec_pnode *root, const struct ec_pnode *ref,
 	struct ec_pnode *child, *dup_child;
 	struct ec_dict *attrs = NULL;
 
-	if (root == NULL)
+	if (root == NULL) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	dup = ec_pnode(root->node);
 	if (dup == NULL)
-- 
2.43.0


From 66bd319f5cdf44b909421838f9df56b17e9add25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:10 +0000
Subject: [PATCH 49/56] fix: set errno when a condition evaluates to nothing

---
 src/ecoli_node_cond.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index bb82464..4818b03 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -678,6 +678,8 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 		return res;
 	}
 
+	errno = EINVAL;
+
 fail:
 	cond_result_free(res);
 	cond_result_table_free(args, n_arg);
-- 
2.43.0


From 7074ebffde99b7e45653d5a1d148c9837166a329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:10 +0000
Subject: [PATCH 50/56] fix: set errno when an input does not match any pattern
 of a re_lex node

---
 src/ecoli_node_re_lex.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 1829747..290827f 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -100,8 +100,10 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 			break;
 		}
 
-		if (ret != 0)
+		if (ret != 0) {
+			errno = EINVAL;
 			goto fail;
+		}
 
 		off += pos.rm_eo;
 	}
-- 
2.43.0


From be7ec78cd4cffcc3a6124088528c66cf5865c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:10 +0000
Subject: [PATCH 51/56] fix: set errno when an invalid log level is rejected

---
 src/ecoli_log.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_log.c b/src/ecoli_log.c
index c01e65a..328cd46 100644
--- a/src/ecoli_log.c
+++ b/src/ecoli_log.c
@@ -2,6 +2,7 @@
  * Copyright 2016, Olivier MATZ <zer0@droids-corp.org>
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -28,8 +29,10 @@ static enum ec_log_level global_level = EC_LOG_WARNING;
 
 int ec_log_level_set(enum ec_log_level level)
 {
-	if (level > EC_LOG_DEBUG)
+	if (level > EC_LOG_DEBUG) {
+		errno = EINVAL;
 		return -1;
+	}
 	global_level = level;
 
 	return 0;
-- 
2.43.0


From 8d9de5507cd1c3400d9fb594d82776758d81d27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:50 +0000
Subject: [PATCH 52/56] fix: set errno when a yaml file is rejected

---
 src/ecoli_yaml.c | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index db566b5..c9c5ffc 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -81,8 +81,10 @@ parse_ullint(const char *str, uint64_t *val)
 	}
 	/* since a negative input is silently converted to a positive
 	 * one by strtoull(), first check that it is positive */
-	if (strchr(str, '-'))
+	if (strchr(str, '-')) {
+		errno = ERANGE;
 		return -1;
+	}
 
 	errno = 0;
 	*val = strtoull(str, &endptr, 0);
@@ -91,8 +93,10 @@ parse_ullint(const char *str, uint64_t *val)
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*endptr != 0)
+	if (*endptr != 0) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = save_errno;
 	return 0;
@@ -165,6 +169,7 @@ parse_ec_config(struct enode_table *table,
 	case EC_CONFIG_TYPE_BOOL:
 		if (ynode->type != YAML_SCALAR_NODE) {
 			fprintf(stderr, "Boolean should be scalar\n");
+			errno = EINVAL;
 			goto fail;
 		}
 		value_str = (const char *)ynode->data.scalar.value;
@@ -181,6 +186,7 @@ parse_ec_config(struct enode_table *table,
 	case EC_CONFIG_TYPE_INT64:
 		if (ynode->type != YAML_SCALAR_NODE) {
 			fprintf(stderr, "Int64 should be scalar\n");
+			errno = EINVAL;
 			goto fail;
 		}
 		value_str = (const char *)ynode->data.scalar.value;
@@ -197,6 +203,7 @@ parse_ec_config(struct enode_table *table,
 	case EC_CONFIG_TYPE_UINT64:
 		if (ynode->type != YAML_SCALAR_NODE) {
 			fprintf(stderr, "Uint64 should be scalar\n");
+			errno = EINVAL;
 			goto fail;
 		}
 		value_str = (const char *)ynode->data.scalar.value;
@@ -213,6 +220,7 @@ parse_ec_config(struct enode_table *table,
 	case EC_CONFIG_TYPE_STRING:
 		if (ynode->type != YAML_SCALAR_NODE) {
 			fprintf(stderr, "String should be scalar\n");
+			errno = EINVAL;
 			goto fail;
 		}
 		value_str = (const char *)ynode->data.scalar.value;
@@ -237,6 +245,7 @@ parse_ec_config(struct enode_table *table,
 		subschema = ec_config_schema_sub(schema_elt);
 		if (subschema == NULL) {
 			fprintf(stderr, "List has no subschema\n");
+			errno = EINVAL;
 			goto fail;
 		}
 		config = parse_ec_config_list(table, subschema, document, ynode);
@@ -247,6 +256,7 @@ parse_ec_config(struct enode_table *table,
 		subschema = ec_config_schema_sub(schema_elt);
 		if (subschema == NULL) {
 			fprintf(stderr, "Dict has no subschema\n");
+			errno = EINVAL;
 			goto fail;
 		}
 		config = parse_ec_config_dict(table, subschema, document, ynode);
@@ -255,6 +265,7 @@ parse_ec_config(struct enode_table *table,
 		break;
 	default:
 		fprintf(stderr, "Invalid config type %d\n", type);
+		errno = EINVAL;
 		goto fail;
 	}
 
@@ -277,6 +288,7 @@ parse_ec_config_list(struct enode_table *table,
 
 	if (ynode->type != YAML_SEQUENCE_NODE) {
 		fprintf(stderr, "Ecoli list config should be a yaml sequence\n");
+		errno = EINVAL;
 		goto fail;
 	}
 
@@ -318,6 +330,7 @@ parse_ec_config_dict(struct enode_table *table,
 
 	if (ynode->type != YAML_MAPPING_NODE) {
 		fprintf(stderr, "Ecoli config should be a yaml mapping node\n");
+		errno = EINVAL;
 		goto fail;
 	}
 
@@ -333,6 +346,7 @@ parse_ec_config_dict(struct enode_table *table,
 		value = document->nodes.start + pair->value - 1;
 		if (key->type != YAML_SCALAR_NODE) {
 			fprintf(stderr, "Config key must be a scalar\n");
+			errno = EINVAL;
 			goto fail;
 		}
 		key_str = (const char *)key->data.scalar.value;
@@ -379,6 +393,7 @@ parse_ec_node(struct enode_table *table,
 
 	if (ynode->type != YAML_MAPPING_NODE) {
 		fprintf(stderr, "Ecoli node should be a yaml mapping node\n");
+		errno = EINVAL;
 		goto fail;
 	}
 
@@ -394,6 +409,7 @@ parse_ec_node(struct enode_table *table,
 		value = document->nodes.start + pair->value - 1;
 		if (key->type != YAML_SCALAR_NODE) {
 			fprintf(stderr, "Node key must be a scalar\n");
+			errno = EINVAL;
 			goto fail;
 		}
 		key_str = (const char *)key->data.scalar.value;
@@ -402,10 +418,12 @@ parse_ec_node(struct enode_table *table,
 		if (!strcmp(key_str, "type")) {
 			if (type != NULL) {
 				fprintf(stderr, "Duplicate type\n");
+				errno = EINVAL;
 				goto fail;
 			}
 			if (value->type != YAML_SCALAR_NODE) {
 				fprintf(stderr, "Type must be a string\n");
+				errno = EINVAL;
 				goto fail;
 			}
 			type = ec_node_type_lookup(value_str);
@@ -417,30 +435,36 @@ parse_ec_node(struct enode_table *table,
 		} else if (!strcmp(key_str, "attrs")) {
 			if (attrs != NULL) {
 				fprintf(stderr, "Duplicate attrs\n");
+				errno = EINVAL;
 				goto fail;
 			}
 			if (value->type != YAML_MAPPING_NODE) {
 				fprintf(stderr, "Attrs must be a maping\n");
+				errno = EINVAL;
 				goto fail;
 			}
 			attrs = value;
 		} else if (!strcmp(key_str, "id")) {
 			if (id != NULL) {
 				fprintf(stderr, "Duplicate id\n");
+				errno = EINVAL;
 				goto fail;
 			}
 			if (value->type != YAML_SCALAR_NODE) {
 				fprintf(stderr, "Id must be a scalar\n");
+				errno = EINVAL;
 				goto fail;
 			}
 			id = value_str;
 		} else if (!strcmp(key_str, "help")) {
 			if (help != NULL) {
 				fprintf(stderr, "Duplicate help\n");
+				errno = EINVAL;
 				goto fail;
 			}
 			if (value->type != YAML_SCALAR_NODE) {
 				fprintf(stderr, "Help must be a scalar\n");
+				errno = EINVAL;
 				goto fail;
 			}
 			help = ec_strdup(value_str);
@@ -453,6 +477,7 @@ parse_ec_node(struct enode_table *table,
 
 	if (type == NULL) {
 		fprintf(stderr, "Missing type\n");
+		errno = EINVAL;
 		goto fail;
 	}
 
@@ -474,6 +499,7 @@ parse_ec_node(struct enode_table *table,
 	if (schema == NULL) {
 		fprintf(stderr, "No configuration schema for type %s\n",
 			ec_node_type_name(type));
+		errno = EINVAL;
 		goto fail;
 	}
 
@@ -507,6 +533,7 @@ parse_ec_node(struct enode_table *table,
 			if (key->type != YAML_SCALAR_NODE ||
 					value->type != YAML_SCALAR_NODE) {
 				fprintf(stderr, "Attribute must be a scalar\n");
+				errno = EINVAL;
 				goto fail;
 			}
 			key_str = (const char *)key->data.scalar.value;
@@ -563,6 +590,7 @@ ec_yaml_import(const char *filename)
 
 	if (yaml_parser_initialize(&parser) == 0) {
 		fprintf(stderr, "Failed to initialize yaml parser\n");
+		errno = EINVAL;
 		goto fail_no_parser;
 	}
 
@@ -570,11 +598,13 @@ ec_yaml_import(const char *filename)
 
 	if (yaml_parser_load(&parser, &document) == 0) {
 		fprintf(stderr, "Failed to load yaml document\n");
+		errno = EINVAL;
 		goto fail_no_doc;
 	}
 
 	if (yaml_document_get_root_node(&document) == NULL) {
 		fprintf(stderr, "Incomplete document\n"); //XXX check err
+		errno = EINVAL;
 		goto fail;
 	}
 
-- 
2.43.0


From 7f52cefa9f86d3673c87596aed0e859cfc4f1723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:32 +0000
Subject: [PATCH 53/56] fix: do not leave the children of discarded results in
 the parse tree of a subset node

---
 src/ecoli_node_subset.c | 43 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index db84fa3..82afa24 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -35,6 +35,29 @@ struct parse_result {
 
 /* recursively find the longest list of nodes that matches: the state is
  * updated accordingly. */
+/* move the children of pstate that follow last (all of them if last is
+ * NULL) to dst, or free them if dst is NULL */
+static void
+ec_node_subset_move_children(struct ec_pnode *pstate, struct ec_pnode *last,
+		struct ec_pnode *dst)
+{
+	struct ec_pnode *child;
+
+	while (1) {
+		if (last != NULL)
+			child = ec_pnode_next(last);
+		else
+			child = ec_pnode_get_first_child(pstate);
+		if (child == NULL)
+			break;
+		ec_pnode_unlink_child(child);
+		if (dst != NULL)
+			ec_pnode_link_child(dst, child);
+		else
+			ec_pnode_free(child);
+	}
+}
+
 static int
 __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 		size_t table_len, struct ec_pnode *pstate,
@@ -44,18 +67,25 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 	struct ec_strvec *childvec = NULL;
 	size_t i, j, len = 0;
 	struct parse_result best_result, result;
-	struct ec_pnode *best_parse = NULL;
+	struct ec_pnode *best_parse = NULL, *last;
 	int ret;
 
 	if (table_len == 0)
 		return 0;
 
+	last = ec_pnode_get_last_child(pstate);
+
 	memset(&best_result, 0, sizeof(best_result));
 
 	child_table = ec_calloc(table_len - 1, sizeof(*child_table));
 	if (child_table == NULL)
 		goto fail;
 
+	/* holds the children of the best result */
+	best_parse = ec_pnode(NULL);
+	if (best_parse == NULL)
+		goto fail;
+
 	for (i = 0; i < table_len; i++) {
 		/* try to parse elt i */
 		ret = ec_parse_child(table[i], pstate, strvec);
@@ -91,14 +121,13 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 		/* if result is not the best, ignore */
 		if (result.parse_len < best_result.parse_len) {
 			memset(&result, 0, sizeof(result));
-			ec_pnode_del_last_child(pstate);
+			ec_node_subset_move_children(pstate, last, NULL);
 			continue;
 		}
 
 		/* replace the previous best result */
-		ec_pnode_free(best_parse);
-		best_parse = ec_pnode_get_last_child(pstate);
-		ec_pnode_unlink_child(best_parse);
+		ec_pnode_free_children(best_parse);
+		ec_node_subset_move_children(pstate, last, best_parse);
 
 		best_result.parse_len = result.parse_len + 1;
 		best_result.len = len + result.len;
@@ -108,8 +137,8 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 
 	*out = best_result;
 	ec_free(child_table);
-	if (best_parse != NULL)
-		ec_pnode_link_child(pstate, best_parse);
+	ec_node_subset_move_children(best_parse, NULL, pstate);
+	ec_pnode_free(best_parse);
 
 	return 0;
 
-- 
2.43.0


From 7adc98f30c4b06d5255e623f601d6e62e878556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 54/56] fix: report failure when the line of suggestions cannot
 be copied

---
 src/ecoli_editline.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index ca8f4b6..2f18880 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -699,8 +699,11 @@ ec_editline_get_suggestions(const struct ec_editline *editline,
 	if ((line = ec_editline_curline(editline, false)) == NULL)
 		goto out;
 
-	if (full_line != NULL)
+	if (full_line != NULL) {
 		*full_line = ec_strdup(line);
+		if (*full_line == NULL)
+			goto out;
+	}
 
 	len = strlen(line);
 	for (i = 0; i <= len + 1; i++) {
-- 
2.43.0


From b981bf07e81cb68ff1cfee9355b3782cc6273a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:33 +0000
Subject: [PATCH 55/56] fix: reject a NULL node in ec_node_check_type()

---
 src/ecoli_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index 5fbeab4..62c436f 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -448,7 +448,7 @@ char *ec_node_desc(const struct ec_node *node)
 int ec_node_check_type(const struct ec_node *node,
 		const struct ec_node_type *type)
 {
-	if (strcmp(node->type->name, type->name)) {
+	if (node == NULL || strcmp(node->type->name, type->name)) {
 		errno = EINVAL;
 		return -1;
 	}
-- 
2.43.0


From 4de2a7c861c81163225da7ecb5b68e54ba5e125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:24 +0000
Subject: [PATCH 56/56] fix: do not crash when using a dynamic node without
 build callback

Such a node is created by ec_node("dynamic", id).
---
 src/ecoli_node_dynamic.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ecoli_node_dynamic.c b/src/ecoli_node_dynamic.c
index 2eb3495..63c4fec 100644
--- a/src/ecoli_node_dynamic.c
+++ b/src/ecoli_node_dynamic.c
@@ -39,6 +39,11 @@ ec_node_dynamic_parse(const struct ec_node *node,
 	char key[64];
 	int ret = -1;
 
+	if (priv->build == NULL) {
+		errno = EINVAL;
+		goto fail;
+	}
+
 	child = priv->build(parse, priv->opaque);
 	if (child == NULL)
 		goto fail;
@@ -72,6 +77,11 @@ ec_node_dynamic_complete(const struct ec_node *node,
 	char key[64];
 	int ret = -1;
 
+	if (priv->build == NULL) {
+		errno = EINVAL;
+		goto fail;
+	}
+
 	parse = ec_comp_get_cur_pstate(comp);
 	child = priv->build(parse, priv->opaque);
 	if (child == NULL)
-- 
2.43.0

