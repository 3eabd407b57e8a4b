From 0ae35cee44ee94e27f03a716ab9c68a58b1ba5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:38 +0000
Subject: [PATCH 001/101] fix: isl_schedule_tree_replace_child: do not free
 leaf child twice

---
 isl_schedule_tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_schedule_tree.c b/isl_schedule_tree.c
index 8dfe1d7..2d75127 100644
--- a/isl_schedule_tree.c
+++ b/isl_schedule_tree.c
@@ -827,7 +827,7 @@ __isl_give isl_schedule_tree *isl_schedule_tree_replace_child(
 			isl_die(isl_schedule_tree_get_ctx(tree),
 				isl_error_internal,
 				"can only replace single child by leaf",
-				goto error);
+				return isl_schedule_tree_free(tree));
 		return isl_schedule_tree_reset_children(tree);
 	}
 
-- 
2.43.0


From 8be452a40c9a072875dce242318118512cf23573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:38 +0000
Subject: [PATCH 002/101] fix: isl_basic_map_free_equality: do not use freed
 basic map on error

---
 isl_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_map.c b/isl_map.c
index 5cb7a56..ce3ac1c 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -1676,7 +1676,7 @@ __isl_give isl_basic_map *isl_basic_map_free_equality(
 	if (n > bmap->n_eq)
 		isl_die(isl_basic_map_get_ctx(bmap), isl_error_invalid,
 			"invalid number of equalities",
-			isl_basic_map_free(bmap));
+			return isl_basic_map_free(bmap));
 	bmap->n_eq -= n;
 	return bmap;
 }
-- 
2.43.0


From 6a412726c3d100f1384926e9ba64e1da83172f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:38 +0000
Subject: [PATCH 003/101] fix: isl_multi_pw_aff_pullback_*: use result of
 isl_multi_pw_aff_restore_space

---
 isl_multi_pw_aff_pullback_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_multi_pw_aff_pullback_templ.c b/isl_multi_pw_aff_pullback_templ.c
index fc5aed2..9a3e59f 100644
--- a/isl_multi_pw_aff_pullback_templ.c
+++ b/isl_multi_pw_aff_pullback_templ.c
@@ -63,7 +63,7 @@ __isl_give isl_multi_pw_aff *FN(isl_multi_pw_aff_pullback,BASE)(
 	}
 
 	FN(TYPE,free)(fn);
-	isl_multi_pw_aff_restore_space(mpa, space);
+	mpa = isl_multi_pw_aff_restore_space(mpa, space);
 	return mpa;
 error:
 	isl_space_free(space);
-- 
2.43.0


From 262c5310bee9a23cfdb2481cf72eb3fda333c440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:38 +0000
Subject: [PATCH 004/101] fix: isl_ast_graft.c: do not leak or use released
 arguments on error

---
 isl_ast_graft.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/isl_ast_graft.c b/isl_ast_graft.c
index b5c9f54..9dbc36f 100644
--- a/isl_ast_graft.c
+++ b/isl_ast_graft.c
@@ -1156,8 +1156,8 @@ __isl_give isl_ast_graft *isl_ast_graft_preimage_multi_aff(
 {
 	isl_basic_set *enforced;
 
-	if (!graft)
-		return NULL;
+	if (!graft || !ma)
+		goto error;
 
 	enforced = graft->enforced;
 	graft->enforced = isl_basic_set_preimage_multi_aff(enforced,
@@ -1168,6 +1168,10 @@ __isl_give isl_ast_graft *isl_ast_graft_preimage_multi_aff(
 		return isl_ast_graft_free(graft);
 
 	return graft;
+error:
+	isl_ast_graft_free(graft);
+	isl_multi_aff_free(ma);
+	return NULL;
 }
 
 /* Compute the preimage of all the grafts in "list" under
@@ -1343,13 +1347,13 @@ static isl_stat add_to_guard_list(__isl_take isl_ast_graft *graft, void *user)
 	if (m.valid < 0)
 		return isl_stat_non_null(isl_ast_graft_free(graft));
 
+	guard = isl_set_copy(graft->guard);
 	if (m.valid) {
 		*data->any_match = 1;
 		m.value = isl_ast_graft_list_add(m.value, graft);
 	} else {
 		m.value = isl_ast_graft_list_from_ast_graft(graft);
 	}
-	guard = isl_set_copy(graft->guard);
 	data->guard2list =
 		isl_set_to_ast_graft_list_set(data->guard2list, guard, m.value);
 
-- 
2.43.0


From 842207c768629f6378d0e420eefe18c5a33622a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:18 +0000
Subject: [PATCH 005/101] fix: correct ownership annotations of some functions

---
 isl_aff.c           | 2 +-
 isl_factorization.c | 2 +-
 isl_factorization.h | 2 +-
 isl_farkas.c        | 2 +-
 isl_fold.c          | 4 ++--
 isl_local_space.c   | 2 +-
 isl_morph.c         | 4 ++--
 isl_morph.h         | 4 ++--
 isl_multi_templ.c   | 2 +-
 isl_schedule_tree.c | 4 ++--
 isl_space.c         | 2 +-
 isl_union_multi.c   | 4 ++--
 12 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/isl_aff.c b/isl_aff.c
index 6f3e7d7..df32afe 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -557,7 +557,7 @@ __isl_give isl_local_space *isl_aff_take_domain_local_space(
  * then the call to isl_aff_cow has no effect.
  */
 __isl_give isl_aff *isl_aff_restore_domain_local_space(
-	__isl_keep isl_aff *aff, __isl_take isl_local_space *ls)
+	__isl_take isl_aff *aff, __isl_take isl_local_space *ls)
 {
 	if (!aff || !ls)
 		goto error;
diff --git a/isl_factorization.c b/isl_factorization.c
index 06aa462..071b257 100644
--- a/isl_factorization.c
+++ b/isl_factorization.c
@@ -71,7 +71,7 @@ __isl_null isl_factorizer *isl_factorizer_free(__isl_take isl_factorizer *f)
 	return NULL;
 }
 
-void isl_factorizer_dump(__isl_take isl_factorizer *f)
+void isl_factorizer_dump(__isl_keep isl_factorizer *f)
 {
 	int i;
 
diff --git a/isl_factorization.h b/isl_factorization.h
index 8b9bf76..943b6fc 100644
--- a/isl_factorization.h
+++ b/isl_factorization.h
@@ -28,7 +28,7 @@ __isl_give isl_factorizer *isl_basic_set_factorizer(
 isl_ctx *isl_factorizer_get_ctx(__isl_keep isl_factorizer *f);
 
 __isl_null isl_factorizer *isl_factorizer_free(__isl_take isl_factorizer *f);
-void isl_factorizer_dump(__isl_take isl_factorizer *f);
+void isl_factorizer_dump(__isl_keep isl_factorizer *f);
 
 __isl_give isl_bool isl_factorizer_every_factor_basic_set(
 	__isl_keep isl_factorizer *f,
diff --git a/isl_farkas.c b/isl_farkas.c
index 4ff6d8a..d7c2d83 100644
--- a/isl_farkas.c
+++ b/isl_farkas.c
@@ -326,7 +326,7 @@ static __isl_give isl_basic_set *isl_basic_set_coefficients_base(
 
 /* Return the inverse mapping of "morph".
  */
-static __isl_give isl_mat *peek_inv(__isl_keep isl_morph *morph)
+static __isl_keep isl_mat *peek_inv(__isl_keep isl_morph *morph)
 {
 	return morph ? morph->inv : NULL;
 }
diff --git a/isl_fold.c b/isl_fold.c
index 2d7f85c..4726f38 100644
--- a/isl_fold.c
+++ b/isl_fold.c
@@ -121,7 +121,7 @@ static __isl_give isl_space *isl_qpolynomial_fold_take_domain_space(
  */
 static
 __isl_give isl_qpolynomial_fold *isl_qpolynomial_fold_restore_domain_space(
-	__isl_keep isl_qpolynomial_fold *fold, __isl_take isl_space *space)
+	__isl_take isl_qpolynomial_fold *fold, __isl_take isl_space *space)
 {
 	if (!fold || !space)
 		goto error;
@@ -202,7 +202,7 @@ static __isl_give isl_qpolynomial_list *isl_qpolynomial_fold_take_list(
  * then the call to isl_qpolynomial_fold_cow has no effect.
  */
 static __isl_give isl_qpolynomial_fold *isl_qpolynomial_fold_restore_list(
-	__isl_keep isl_qpolynomial_fold *fold,
+	__isl_take isl_qpolynomial_fold *fold,
 	__isl_take isl_qpolynomial_list *list)
 {
 	if (!fold || !list)
diff --git a/isl_local_space.c b/isl_local_space.c
index 604e276..0bd08fb 100644
--- a/isl_local_space.c
+++ b/isl_local_space.c
@@ -488,7 +488,7 @@ __isl_keep isl_local *isl_local_space_peek_local(__isl_keep isl_local_space *ls)
 
 /* Return a copy of the local variables of "ls".
  */
-__isl_keep isl_local *isl_local_space_get_local(__isl_keep isl_local_space *ls)
+__isl_give isl_local *isl_local_space_get_local(__isl_keep isl_local_space *ls)
 {
 	return isl_local_copy(isl_local_space_peek_local(ls));
 }
diff --git a/isl_morph.c b/isl_morph.c
index f7b920b..951e528 100644
--- a/isl_morph.c
+++ b/isl_morph.c
@@ -361,7 +361,7 @@ static __isl_give isl_morph *isl_morph_set_ran_tuple_id(
 	return morph;
 }
 
-void isl_morph_print_internal(__isl_take isl_morph *morph, FILE *out)
+void isl_morph_print_internal(__isl_keep isl_morph *morph, FILE *out)
 {
 	if (!morph)
 		return;
@@ -372,7 +372,7 @@ void isl_morph_print_internal(__isl_take isl_morph *morph, FILE *out)
 	isl_mat_print_internal(morph->inv, out, 4);
 }
 
-void isl_morph_dump(__isl_take isl_morph *morph)
+void isl_morph_dump(__isl_keep isl_morph *morph)
 {
 	isl_morph_print_internal(morph, stderr);
 }
diff --git a/isl_morph.h b/isl_morph.h
index 004e148..d4c5f89 100644
--- a/isl_morph.h
+++ b/isl_morph.h
@@ -66,8 +66,8 @@ __isl_give isl_morph *isl_morph_compose(__isl_take isl_morph *morph1,
 	__isl_take isl_morph *morph2);
 __isl_give isl_morph *isl_morph_inverse(__isl_take isl_morph *morph);
 
-void isl_morph_print_internal(__isl_take isl_morph *morph, FILE *out);
-void isl_morph_dump(__isl_take isl_morph *morph);
+void isl_morph_print_internal(__isl_keep isl_morph *morph, FILE *out);
+void isl_morph_dump(__isl_keep isl_morph *morph);
 
 __isl_give isl_morph *isl_basic_set_variable_compression(
 	__isl_keep isl_basic_set *bset, enum isl_dim_type type);
diff --git a/isl_multi_templ.c b/isl_multi_templ.c
index 93e9559..a30dd0b 100644
--- a/isl_multi_templ.c
+++ b/isl_multi_templ.c
@@ -208,7 +208,7 @@ static
 
 /* Return the base expression at position "pos" in "multi".
  */
-static __isl_give EL *FN(MULTI(BASE),peek_at)(__isl_keep MULTI(BASE) *multi,
+static __isl_keep EL *FN(MULTI(BASE),peek_at)(__isl_keep MULTI(BASE) *multi,
 	int pos)
 {
 	if (FN(MULTI(BASE),check_range)(multi, isl_dim_out, pos, 1) < 0)
diff --git a/isl_schedule_tree.c b/isl_schedule_tree.c
index 2d75127..1c824fe 100644
--- a/isl_schedule_tree.c
+++ b/isl_schedule_tree.c
@@ -1434,7 +1434,7 @@ error:
 /* Return the extension of the extension tree root.
  */
 __isl_give isl_union_map *isl_schedule_tree_extension_get_extension(
-	__isl_take isl_schedule_tree *tree)
+	__isl_keep isl_schedule_tree *tree)
 {
 	if (!tree)
 		return NULL;
@@ -1509,7 +1509,7 @@ error:
 /* Return the guard of the guard tree root.
  */
 __isl_give isl_set *isl_schedule_tree_guard_get_guard(
-	__isl_take isl_schedule_tree *tree)
+	__isl_keep isl_schedule_tree *tree)
 {
 	if (!tree)
 		return NULL;
diff --git a/isl_space.c b/isl_space.c
index 16c7d64..12ad748 100644
--- a/isl_space.c
+++ b/isl_space.c
@@ -487,7 +487,7 @@ static int name_ok(isl_ctx *ctx, const char *s)
 
 /* Return a copy of the nested space at the given position.
  */
-static __isl_keep isl_space *isl_space_get_nested(__isl_keep isl_space *space,
+static __isl_give isl_space *isl_space_get_nested(__isl_keep isl_space *space,
 	int pos)
 {
 	return isl_space_copy(isl_space_peek_nested(space, pos));
diff --git a/isl_union_multi.c b/isl_union_multi.c
index b630b18..9e154b3 100644
--- a/isl_union_multi.c
+++ b/isl_union_multi.c
@@ -463,7 +463,7 @@ static isl_stat FN(UNION,free_u_entry)(void **entry, void *user)
 
 /* Does "u" have an obviously empty definition domain?
  */
-isl_bool FN(UNION,plain_is_empty)(__isl_take UNION *u)
+isl_bool FN(UNION,plain_is_empty)(__isl_keep UNION *u)
 {
 	if (!u)
 		return isl_bool_error;
@@ -489,7 +489,7 @@ static isl_stat FN(UNION,group_single_space)(__isl_keep S(UNION,group) *group,
  * In particular, is only one domain space involved and
  * is only a single expression associated to that domain?
  */
-isl_bool FN(FN(UNION,isa),BASE)(__isl_take UNION *u)
+isl_bool FN(FN(UNION,isa),BASE)(__isl_keep UNION *u)
 {
 	isl_bool single;
 
-- 
2.43.0


From d6bd505ec03381d81f5124fe892ae29f0d822047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 006/101] fix: isl_schedule_tree.c: release arguments on errors

---
 isl_schedule_tree.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/isl_schedule_tree.c b/isl_schedule_tree.c
index 1c824fe..302033f 100644
--- a/isl_schedule_tree.c
+++ b/isl_schedule_tree.c
@@ -1164,7 +1164,7 @@ __isl_give isl_schedule_tree *isl_schedule_tree_band_set_partial_schedule(
 
 	if (tree->type != isl_schedule_node_band)
 		isl_die(isl_schedule_tree_get_ctx(tree), isl_error_invalid,
-			"not a band node", return NULL);
+			"not a band node", goto error);
 	tree->band = isl_schedule_band_set_partial_schedule(tree->band,
 								schedule);
 
@@ -1416,7 +1416,7 @@ isl_schedule_tree_expansion_set_contraction_and_expansion(
 
 	if (tree->type != isl_schedule_node_expansion)
 		isl_die(isl_schedule_tree_get_ctx(tree), isl_error_invalid,
-			"not an expansion node", return NULL);
+			"not an expansion node", goto error);
 
 	isl_union_pw_multi_aff_free(tree->contraction);
 	tree->contraction = contraction;
@@ -1457,7 +1457,7 @@ __isl_give isl_schedule_tree *isl_schedule_tree_extension_set_extension(
 
 	if (tree->type != isl_schedule_node_extension)
 		isl_die(isl_schedule_tree_get_ctx(tree), isl_error_invalid,
-			"not an extension node", return NULL);
+			"not an extension node", goto error);
 	isl_union_map_free(tree->extension);
 	tree->extension = extension;
 
@@ -1494,7 +1494,7 @@ __isl_give isl_schedule_tree *isl_schedule_tree_filter_set_filter(
 
 	if (tree->type != isl_schedule_node_filter)
 		isl_die(isl_schedule_tree_get_ctx(tree), isl_error_invalid,
-			"not a filter node", return NULL);
+			"not a filter node", goto error);
 
 	isl_union_set_free(tree->filter);
 	tree->filter = filter;
@@ -1838,7 +1838,7 @@ static __isl_give isl_union_map *subtree_schedule_extend(
 	isl_size n;
 
 	if (!tree)
-		return NULL;
+		return isl_union_map_free(outer);
 
 	switch (tree->type) {
 	case isl_schedule_node_error:
@@ -2631,7 +2631,7 @@ __isl_give isl_schedule_tree *isl_schedule_tree_band_gist(
 	__isl_take isl_schedule_tree *tree, __isl_take isl_union_set *context)
 {
 	if (!tree)
-		return NULL;
+		goto error;
 	if (tree->type != isl_schedule_node_band)
 		isl_die(isl_schedule_tree_get_ctx(tree), isl_error_invalid,
 			"not a band node", goto error);
-- 
2.43.0


From 4d8ec83eec55646f368bcca37e0560b0e5564502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 007/101] fix: isl_aff*.c: release arguments on errors

---
 isl_aff.c     | 6 +++---
 isl_aff_map.c | 5 ++---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/isl_aff.c b/isl_aff.c
index df32afe..10c1441 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -103,8 +103,8 @@ __isl_give isl_aff *isl_aff_alloc_vec(__isl_take isl_local_space *ls,
 {
 	isl_ctx *ctx;
 
-	if (!ls)
-		return NULL;
+	if (!ls || !v)
+		goto error;
 
 	ctx = isl_local_space_get_ctx(ls);
 	if (!isl_local_space_divs_known(ls))
@@ -1199,7 +1199,7 @@ __isl_give isl_aff *isl_aff_set_coefficient_val(__isl_take isl_aff *aff,
 		type = isl_dim_set;
 
 	if (isl_local_space_check_range(aff->ls, type, pos, 1) < 0)
-		return isl_aff_free(aff);
+		goto error;
 
 	if (isl_aff_is_nan(aff)) {
 		isl_val_free(v);
diff --git a/isl_aff_map.c b/isl_aff_map.c
index 3f46d86..4be5fe6 100644
--- a/isl_aff_map.c
+++ b/isl_aff_map.c
@@ -269,11 +269,10 @@ __isl_give isl_basic_map *isl_basic_map_from_aff_list(
 	isl_space *space;
 	isl_basic_map *bmap;
 
-	if (!list)
-		return NULL;
-
 	space = isl_space_from_domain(domain_space);
 	bmap = isl_basic_map_universe(space);
+	if (!list)
+		return isl_basic_map_free(bmap);
 
 	for (i = 0; i < list->n; ++i) {
 		isl_aff *aff;
-- 
2.43.0


From c6f14e4ac8bb072f0c60ebf13adcaf80923e731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 008/101] fix: isl_affine_hull.c: release sample vector on
 error

---
 isl_affine_hull.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/isl_affine_hull.c b/isl_affine_hull.c
index 3862509..6867521 100644
--- a/isl_affine_hull.c
+++ b/isl_affine_hull.c
@@ -582,7 +582,7 @@ static __isl_give isl_basic_set *initial_hull(struct isl_tab *tab,
 	isl_size dim;
 
 	if (!vec || !tab)
-		return NULL;
+		goto error;
 	ctx = vec->ctx;
 	isl_assert(ctx, vec->size != 0, goto error);
 
@@ -973,7 +973,7 @@ __isl_give isl_basic_map *isl_basic_map_plain_affine_hull(
 {
 	bmap = isl_basic_map_cow(bmap);
 	if (bmap)
-		isl_basic_map_free_inequality(bmap, bmap->n_ineq);
+		bmap = isl_basic_map_free_inequality(bmap, bmap->n_ineq);
 	bmap = isl_basic_map_finalize(bmap);
 	return bmap;
 }
-- 
2.43.0


From 52a547a1256fee74fe1b2a53484850c6d16b0f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 009/101] fix: isl_ast_build_expr.c: release arguments and
 intermediate results on errors

---
 isl_ast_build_expr.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/isl_ast_build_expr.c b/isl_ast_build_expr.c
index aaf8985..dca3bc8 100644
--- a/isl_ast_build_expr.c
+++ b/isl_ast_build_expr.c
@@ -436,8 +436,10 @@ static __isl_give isl_ast_expr *isl_ast_expr_add_term(
 {
 	isl_ast_expr *term;
 
-	if (!expr)
+	if (!expr) {
+		isl_val_free(v);
 		return NULL;
+	}
 
 	data->v = v;
 	term = var(data, type, pos);
@@ -1048,8 +1050,10 @@ static __isl_give isl_aff *extract_modulos(__isl_take isl_aff *aff,
 	for (data.i = 0; data.i < n; ++data.i) {
 		data.v = isl_aff_get_coefficient_val(data.aff,
 							isl_dim_div, data.i);
-		if (!data.v)
-			return isl_aff_free(aff);
+		if (!data.v) {
+			data.aff = isl_aff_free(data.aff);
+			break;
+		}
 		if (isl_val_is_zero(data.v) ||
 		    isl_val_is_one(data.v) || isl_val_is_negone(data.v)) {
 			isl_val_free(data.v);
@@ -2558,6 +2562,7 @@ static __isl_give isl_ast_expr *isl_ast_build_from_multi_pw_aff_member(
 					domain_expr, expr);
 	return isl_ast_build_with_arguments(build, type, expr, mpa);
 error:
+	isl_ast_expr_free(domain_expr);
 	isl_multi_pw_aff_free(mpa);
 	return NULL;
 }
-- 
2.43.0


From 2b0683e3e7890171ff82615a5a49789e862f737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 010/101] fix: compute_class_domains: release domain on error

---
 isl_ast_codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_ast_codegen.c b/isl_ast_codegen.c
index b3c2541..9b26196 100644
--- a/isl_ast_codegen.c
+++ b/isl_ast_codegen.c
@@ -3057,8 +3057,10 @@ static isl_stat compute_class_domains(__isl_take isl_point *pnt, void *user)
 	domain = isl_ast_build_eliminate(domains->build, domain);
 
 	disjoint = isl_set_plain_is_disjoint(domain, domains->schedule_domain);
-	if (disjoint < 0)
+	if (disjoint < 0) {
+		isl_set_free(domain);
 		return isl_stat_error;
+	}
 	if (disjoint) {
 		isl_set_free(domain);
 		return isl_stat_ok;
-- 
2.43.0


From 1bcf16bece5bf12a0049ac923e118b7f81c4a20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 011/101] fix: isl_bernstein.c: add_fold: release fold on error

---
 isl_bernstein.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_bernstein.c b/isl_bernstein.c
index eddea83..4146ca3 100644
--- a/isl_bernstein.c
+++ b/isl_bernstein.c
@@ -135,8 +135,10 @@ static isl_stat add_fold(__isl_take isl_qpolynomial *b, __isl_keep isl_set *dom,
 	tight = isl_bool_false;
 	if (data->check_tight)
 		tight = is_tight(k, n, d, data->cell);
-	if (tight < 0)
+	if (tight < 0) {
+		isl_qpolynomial_fold_free(fold);
 		return isl_stat_error;
+	}
 	if (tight)
 		data->fold_tight = isl_qpolynomial_fold_fold_on_domain(dom,
 							data->fold_tight, fold);
-- 
2.43.0


From f31a478e77965848b92504ebb0a42ac387eb594b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 012/101] fix: isl_coalesce.c: set_up_substitutions: release
 hull on error

---
 isl_coalesce.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_coalesce.c b/isl_coalesce.c
index 5d0d173..94a1adf 100644
--- a/isl_coalesce.c
+++ b/isl_coalesce.c
@@ -3634,8 +3634,10 @@ static __isl_give isl_aff_list *set_up_substitutions(
 	n_div_i = isl_basic_map_dim(bmap_i, isl_dim_div);
 	n_div_j = isl_basic_map_dim(bmap_j, isl_dim_div);
 	total = isl_basic_map_dim(bmap_i, isl_dim_all);
-	if (!hull || n_div_i < 0 || n_div_j < 0 || total < 0)
+	if (!hull || n_div_i < 0 || n_div_j < 0 || total < 0) {
+		isl_basic_map_free(hull);
 		return NULL;
+	}
 
 	ctx = isl_basic_map_get_ctx(hull);
 	total -= n_div_i;
-- 
2.43.0


From 4cd9f36b7ff70387558d9010af8c8d8e44d2e876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 013/101] fix: collect_fixed_sign_terms: release term on error

---
 isl_range.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/isl_range.c b/isl_range.c
index 5bcfcff..3dc09d9 100644
--- a/isl_range.c
+++ b/isl_range.c
@@ -204,7 +204,7 @@ static isl_stat collect_fixed_sign_terms(__isl_take isl_term *term, void *user)
 	nparam = isl_term_dim(term, isl_dim_param);
 	nvar = isl_term_dim(term, isl_dim_set);
 	if (nparam < 0 || nvar < 0)
-		return isl_stat_error;
+		goto error;
 
 	isl_int_init(n);
 	isl_term_get_num(term, &n);
@@ -216,7 +216,7 @@ static isl_stat collect_fixed_sign_terms(__isl_take isl_term *term, void *user)
 			continue;
 		exp = isl_term_get_exp(term, isl_dim_param, i);
 		if (exp < 0)
-			return isl_stat_error;
+			goto error;
 		if (exp % 2)
 			sign = -sign;
 	}
@@ -225,7 +225,7 @@ static isl_stat collect_fixed_sign_terms(__isl_take isl_term *term, void *user)
 			continue;
 		exp = isl_term_get_exp(term, isl_dim_set, i);
 		if (exp < 0)
-			return isl_stat_error;
+			goto error;
 		if (exp % 2)
 			sign = -sign;
 	}
@@ -238,6 +238,9 @@ static isl_stat collect_fixed_sign_terms(__isl_take isl_term *term, void *user)
 		isl_term_free(term);
 
 	return isl_stat_ok;
+error:
+	isl_term_free(term);
+	return isl_stat_error;
 }
 
 /* Construct and return a polynomial that consists of the terms
-- 
2.43.0


From 1ca89a812f5724b40343f6bae86618761d89d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 014/101] fix: isl_schedule_read.c: read_band: do not leak
 duplicate coincident list

---
 isl_schedule_read.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_schedule_read.c b/isl_schedule_read.c
index 81570b3..da216f1 100644
--- a/isl_schedule_read.c
+++ b/isl_schedule_read.c
@@ -541,6 +541,7 @@ static __isl_give isl_schedule_tree *read_band(isl_stream *s)
 				goto error;
 			break;
 		case isl_schedule_key_coincident:
+			isl_val_list_free(coincident);
 			coincident = read_coincident(s);
 			if (!coincident)
 				goto error;
-- 
2.43.0


From 32aaa1560072e8d068442fdb9d344188d6aaf5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 015/101] fix: isl_union_pw_multi_aff_scale_multi_val: release
 multi val

---
 isl_aff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_aff.c b/isl_aff.c
index 10c1441..288794d 100644
--- a/isl_aff.c
+++ b/isl_aff.c
@@ -6916,7 +6916,7 @@ __isl_give isl_union_pw_multi_aff *isl_union_pw_multi_aff_scale_multi_val(
 	if (!upma || !mv)
 		goto error;
 
-	return isl_union_pw_multi_aff_transform(upma, &control);
+	upma = isl_union_pw_multi_aff_transform(upma, &control);
 
 	isl_multi_val_free(mv);
 	return upma;
-- 
2.43.0


From 29540da736367d41f88895254f09abc6d24e297d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 016/101] fix: isl_basic_set_dim_residue_class: release
 intermediate matrix

---
 isl_equalities.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_equalities.c b/isl_equalities.c
index 90dfb77..aace139 100644
--- a/isl_equalities.c
+++ b/isl_equalities.c
@@ -791,6 +791,7 @@ isl_stat isl_basic_set_dim_residue_class(__isl_keep isl_basic_set *bset,
 		bset = isl_basic_set_copy(bset);
 		bset = isl_basic_set_set_to_empty(bset);
 		isl_basic_set_free(bset);
+		isl_mat_free(C);
 		isl_int_set_si(*modulo, 1);
 		isl_int_set_si(*residue, 0);
 		return isl_stat_ok;
-- 
2.43.0


From fecfbef313b14b22f822f6e800bf3063a8397f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 017/101] fix: isl_point_reorder: release reordering

---
 isl_point.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_point.c b/isl_point.c
index f315b3d..b957ae2 100644
--- a/isl_point.c
+++ b/isl_point.c
@@ -321,7 +321,7 @@ static __isl_give isl_point *isl_point_reorder(__isl_take isl_point *pnt,
 	pnt = isl_point_restore_space(pnt, isl_reordering_get_space(r));
 
 	vec = isl_point_take_vec(pnt);
-	vec = isl_vec_reorder(vec, 1, isl_reordering_copy(r));
+	vec = isl_vec_reorder(vec, 1, r);
 	pnt = isl_point_restore_vec(pnt, vec);
 
 	return pnt;
-- 
2.43.0


From d91e597085b21c03b5c21ed84bdc1257d4ca7e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 018/101] fix: isl_fold.c: pw_qpolynomial_fold_apply: release
 argument on error

---
 isl_fold.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_fold.c b/isl_fold.c
index 4726f38..302e1c3 100644
--- a/isl_fold.c
+++ b/isl_fold.c
@@ -1952,8 +1952,10 @@ static isl_stat pw_qpolynomial_fold_apply(
 	isl_space_free(map_dim);
 	isl_space_free(pwf_dim);
 
-	if (ok < 0)
+	if (ok < 0) {
+		isl_pw_qpolynomial_fold_free(pwf);
 		return isl_stat_error;
+	}
 	if (ok) {
 		pwf = isl_map_apply_pw_qpolynomial_fold(isl_map_copy(data->map),
 				    pwf, data->tight ? &data->tight : NULL);
-- 
2.43.0


From 3393c6cf5e934f07e24d9ee03d53cb0fb393aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 019/101] fix: isl_vertices.c: update_todo: release todo item
 on error

---
 isl_vertices.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_vertices.c b/isl_vertices.c
index fd1a2ee..1585bc7 100644
--- a/isl_vertices.c
+++ b/isl_vertices.c
@@ -872,8 +872,10 @@ static int update_todo(struct isl_facet_todo *first, struct isl_tab *tab)
 			return -1;
 
 		drop = has_opposite(todo, &first->next);
-		if (drop < 0)
+		if (drop < 0) {
+			free_todo(todo);
 			return -1;
+		}
 
 		if (drop)
 			free_todo(todo);
-- 
2.43.0


From 15c50fdf0f14b366f6c203dea808fa73e4511be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 020/101] fix: valid_direction_lp: release intermediate basic
 set on error

---
 isl_convex_hull.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_convex_hull.c b/isl_convex_hull.c
index a15092e..d6c86e9 100644
--- a/isl_convex_hull.c
+++ b/isl_convex_hull.c
@@ -994,7 +994,7 @@ static __isl_give isl_basic_set *valid_direction_lp(
 	__isl_take isl_basic_set *bset1, __isl_take isl_basic_set *bset2)
 {
 	isl_space *space;
-	struct isl_basic_set *lp;
+	struct isl_basic_set *lp = NULL;
 	unsigned d;
 	int n;
 	int i, j, k;
@@ -1048,6 +1048,7 @@ static __isl_give isl_basic_set *valid_direction_lp(
 	isl_basic_set_free(bset2);
 	return lp;
 error:
+	isl_basic_set_free(lp);
 	isl_basic_set_free(bset1);
 	isl_basic_set_free(bset2);
 	return NULL;
-- 
2.43.0


From f2e9b6236c8794b4083c90a7c53004bcabea0bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 021/101] fix: isl_multi_apply_templ.c: annotate callback
 argument

---
 isl_multi_apply_templ.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/isl_multi_apply_templ.c b/isl_multi_apply_templ.c
index 31e27f2..cb7ce5a 100644
--- a/isl_multi_apply_templ.c
+++ b/isl_multi_apply_templ.c
@@ -17,7 +17,7 @@
  */
 __isl_give MULTI(BASE) *FN(FN(MULTI(BASE),apply_aligned),APPLY_DOMBASE)(
 	__isl_take MULTI(BASE) *multi, __isl_take APPLY_DOM *set,
-	__isl_give EL *(*fn)(EL *el, __isl_take APPLY_DOM *set))
+	__isl_give EL *(*fn)(__isl_take EL *el, __isl_take APPLY_DOM *set))
 {
 	isl_size n;
 	int i;
@@ -49,7 +49,7 @@ error:
  */
 static __isl_give MULTI(BASE) *FN(FN(MULTI(BASE),apply),APPLY_DOMBASE)(
 	__isl_take MULTI(BASE) *multi, __isl_take APPLY_DOM *set,
-	__isl_give EL *(*fn)(EL *el, __isl_take APPLY_DOM *set))
+	__isl_give EL *(*fn)(__isl_take EL *el, __isl_take APPLY_DOM *set))
 {
 	isl_bool aligned;
 	isl_ctx *ctx;
-- 
2.43.0


From 26d05b5c94fcac1447f419417765caaa38b914df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:22 +0000
Subject: [PATCH 022/101] fix: isl_tab_push_basis: do not leak copy of basis

---
 isl_tab.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/isl_tab.c b/isl_tab.c
index 5f528f9..d911f65 100644
--- a/isl_tab.c
+++ b/isl_tab.c
@@ -844,14 +844,21 @@ isl_stat isl_tab_push(struct isl_tab *tab, enum isl_tab_undo_type type)
 isl_stat isl_tab_push_basis(struct isl_tab *tab)
 {
 	int i;
+	isl_stat r;
 	union isl_tab_undo_val u;
 
+	if (!tab->need_undo)
+		return isl_stat_ok;
+
 	u.col_var = isl_alloc_array(tab->mat->ctx, int, tab->n_col);
 	if (tab->n_col && !u.col_var)
 		return isl_stat_error;
 	for (i = 0; i < tab->n_col; ++i)
 		u.col_var[i] = tab->col_var[i];
-	return push_union(tab, isl_tab_undo_saved_basis, u);
+	r = push_union(tab, isl_tab_undo_saved_basis, u);
+	if (r < 0)
+		free(u.col_var);
+	return r;
 }
 
 isl_stat isl_tab_push_callback(struct isl_tab *tab,
-- 
2.43.0


From 1df202c697e56b5aa30bb8e1d8d12e31878e410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:22 +0000
Subject: [PATCH 023/101] fix: isl_map_simplify.c: release arrays on error

---
 isl_map_simplify.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/isl_map_simplify.c b/isl_map_simplify.c
index 72e0e9b..bb26236 100644
--- a/isl_map_simplify.c
+++ b/isl_map_simplify.c
@@ -2295,8 +2295,10 @@ __isl_give isl_basic_map *isl_basic_map_drop_unrelated_constraints(
 	int last;
 
 	dim = isl_basic_map_dim(bmap, isl_dim_all);
-	if (dim < 0)
+	if (dim < 0) {
+		free(group);
 		return isl_basic_map_free(bmap);
+	}
 
 	last = -1;
 	for (i = 0; i < dim; ++i)
@@ -5114,7 +5116,7 @@ static __isl_give isl_basic_map *isl_basic_map_drop_redundant_divs_ineq(
 		else
 			set_div = ok_to_set_div_from_bound(bmap, i, last_pos);
 		if (set_div < 0)
-			return isl_basic_map_free(bmap);
+			goto error;
 		if (set_div) {
 			bmap = set_div_from_lower_bound(bmap, i, last_pos);
 			return drop_redundant_divs_again(bmap, pairs, 1);
-- 
2.43.0


From 6de78c1174a9fbd384052c3b6bf4a089458b3505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:22 +0000
Subject: [PATCH 024/101] fix: isl_*_count_upto: clear local integer on error

---
 isl_scan.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_scan.c b/isl_scan.c
index c4666ed..6663ec8 100644
--- a/isl_scan.c
+++ b/isl_scan.c
@@ -271,6 +271,7 @@ int isl_basic_set_count_upto(__isl_keep isl_basic_set *bset,
 
 	return 0;
 error:
+	isl_int_clear(cnt.max);
 	isl_int_clear(cnt.count);
 	return -1;
 }
@@ -297,6 +298,7 @@ int isl_set_count_upto(__isl_keep isl_set *set, isl_int max, isl_int *count)
 
 	return 0;
 error:
+	isl_int_clear(cnt.max);
 	isl_int_clear(cnt.count);
 	return -1;
 }
-- 
2.43.0


From eebafc189ad6ad495b80f565f21c485304adeeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:00 +0000
Subject: [PATCH 025/101] fix: isl_basic_map_sum: release dim maps on error

---
 isl_map.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/isl_map.c b/isl_map.c
index ce3ac1c..8898229 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4844,7 +4844,7 @@ __isl_give isl_basic_map *isl_basic_map_sum(__isl_take isl_basic_map *bmap1,
 	isl_size n_in, n_out, nparam;
 	unsigned total, pos;
 	struct isl_basic_map *bmap = NULL;
-	struct isl_dim_map *dim_map1, *dim_map2;
+	struct isl_dim_map *dim_map1 = NULL, *dim_map2 = NULL;
 	int i;
 
 	if (isl_basic_map_check_equal_space(bmap1, bmap2) < 0)
@@ -4888,6 +4888,8 @@ __isl_give isl_basic_map *isl_basic_map_sum(__isl_take isl_basic_map *bmap1,
 	bmap = isl_basic_map_simplify(bmap);
 	return isl_basic_map_finalize(bmap);
 error:
+	isl_dim_map_free(dim_map1);
+	isl_dim_map_free(dim_map2);
 	isl_basic_map_free(bmap);
 	isl_basic_map_free(bmap1);
 	isl_basic_map_free(bmap2);
-- 
2.43.0


From 1f9951047da32421e816d4c233aff55a2468b900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:13 +0000
Subject: [PATCH 026/101] fix: isl_set_foreach_orthant: check for allocation
 failure

If the allocation of the array of signs fails,
then this array should not be accessed.
---
 isl_map.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index 8898229..3be243c 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -9073,6 +9073,8 @@ isl_stat isl_set_foreach_orthant(__isl_keep isl_set *set,
 		return isl_stat_error;
 
 	signs = isl_alloc_array(set->ctx, int, nparam + nvar);
+	if (nparam + nvar > 0 && !signs)
+		return isl_stat_error;
 
 	r = foreach_orthant(isl_set_copy(set), signs, 0, nparam + nvar,
 			    fn, user);
-- 
2.43.0


From b400c6534a0f6073ec878c8907788321607ccec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:15 +0000
Subject: [PATCH 027/101] fix: isl_map_sum, map_product: do not drop disjuncts
 on error

isl_basic_map_is_empty may fail, in which case the disjunct
should not be considered to be empty.
---
 isl_map.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/isl_map.c b/isl_map.c
index 3be243c..cdf3cbb 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4914,11 +4914,15 @@ __isl_give isl_map *isl_map_sum(__isl_take isl_map *map1,
 		goto error;
 	for (i = 0; i < map1->n; ++i)
 		for (j = 0; j < map2->n; ++j) {
+			isl_bool empty;
 			struct isl_basic_map *part;
 			part = isl_basic_map_sum(
 				    isl_basic_map_copy(map1->p[i]),
 				    isl_basic_map_copy(map2->p[j]));
-			if (isl_basic_map_is_empty(part))
+			empty = isl_basic_map_is_empty(part);
+			if (empty < 0)
+				result = isl_map_free(result);
+			if (empty < 0 || empty)
 				isl_basic_map_free(part);
 			else
 				result = isl_map_add_basic_map(result, part);
@@ -10920,10 +10924,14 @@ static __isl_give isl_map *map_product(__isl_take isl_map *map1,
 		goto error;
 	for (i = 0; i < map1->n; ++i)
 		for (j = 0; j < map2->n; ++j) {
+			isl_bool empty;
 			struct isl_basic_map *part;
 			part = basic_map_product(isl_basic_map_copy(map1->p[i]),
 						 isl_basic_map_copy(map2->p[j]));
-			if (isl_basic_map_is_empty(part))
+			empty = isl_basic_map_is_empty(part);
+			if (empty < 0)
+				result = isl_map_free(result);
+			if (empty < 0 || empty)
 				isl_basic_map_free(part);
 			else
 				result = isl_map_add_basic_map(result, part);
-- 
2.43.0


From 95e34aebcf79f0221108b04cb036d96701433420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:15 +0000
Subject: [PATCH 028/101] fix: convex_hull_0d: propagate failure of emptiness
 check

---
 isl_convex_hull.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/isl_convex_hull.c b/isl_convex_hull.c
index d6c86e9..ab41f64 100644
--- a/isl_convex_hull.c
+++ b/isl_convex_hull.c
@@ -719,12 +719,16 @@ error:
 
 static __isl_give isl_basic_set *convex_hull_0d(__isl_take isl_set *set)
 {
+	isl_bool empty;
 	struct isl_basic_set *convex_hull;
 
-	if (!set)
+	empty = isl_set_is_empty(set);
+	if (empty < 0) {
+		isl_set_free(set);
 		return NULL;
+	}
 
-	if (isl_set_is_empty(set))
+	if (empty)
 		convex_hull = isl_basic_set_empty(isl_space_copy(set->dim));
 	else
 		convex_hull = isl_basic_set_universe(isl_space_copy(set->dim));
-- 
2.43.0


From 65232f6d2f797cdad38d71b72dc90d09947a1bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:15 +0000
Subject: [PATCH 029/101] fix: isl_val_gt_si: propagate error

isl_bool_ok turns an error into isl_bool_true.
---
 isl_val.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_val.c b/isl_val.c
index 8b77622..a1c449b 100644
--- a/isl_val.c
+++ b/isl_val.c
@@ -1339,7 +1339,7 @@ isl_bool isl_val_gt_si(__isl_keep isl_val *v, long i)
 		return isl_bool_false;
 
 	vi = isl_val_int_from_si(isl_val_get_ctx(v), i);
-	res = isl_bool_ok(isl_val_gt(v, vi));
+	res = isl_val_gt(v, vi);
 	isl_val_free(vi);
 
 	return res;
-- 
2.43.0


From 57364794cd6dc2ac3d3338f0246bd20583d188e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:15 +0000
Subject: [PATCH 030/101] fix: isl_union_map_sample: do not leak empty samples

---
 isl_union_map.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_union_map.c b/isl_union_map.c
index eaafe18..e745692 100644
--- a/isl_union_map.c
+++ b/isl_union_map.c
@@ -2765,6 +2765,7 @@ static isl_stat sample_entry(void **entry, void *user)
 	isl_basic_map **sample = (isl_basic_map **)user;
 	isl_map *map = *entry;
 
+	isl_basic_map_free(*sample);
 	*sample = isl_map_sample(isl_map_copy(map));
 	if (!*sample)
 		return isl_stat_error;
-- 
2.43.0


From b9d3f782c9807ff49453cc20e2f2066fee8a1072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:23 +0000
Subject: [PATCH 031/101] fix: isl_basic_set_foreach_bound_pair: do not ignore
 failing emptiness check

---
 isl_constraint.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/isl_constraint.c b/isl_constraint.c
index 4fc7aba..10f1ab0 100644
--- a/isl_constraint.c
+++ b/isl_constraint.c
@@ -970,14 +970,19 @@ static isl_stat foreach_upper_bound(__isl_keep isl_basic_set *bset,
 	isl_basic_set *context_i;
 	isl_constraint *upper = NULL;
 	int i;
+	isl_bool empty;
 
 	for (i = 0; i < bset->n_ineq; ++i) {
 		if (isl_int_is_zero(bset->ineq[i][1 + abs_pos]))
 			continue;
 
+		upper = NULL;
 		context_i = set_smallest_upper_bound(context, bset,
 							abs_pos, n_upper, i);
-		if (isl_basic_set_is_empty(context_i)) {
+		empty = isl_basic_set_is_empty(context_i);
+		if (empty < 0)
+			goto error;
+		if (empty) {
 			isl_basic_set_free(context_i);
 			continue;
 		}
@@ -1012,14 +1017,19 @@ static isl_stat foreach_lower_bound(__isl_keep isl_basic_set *bset,
 	isl_basic_set *context_i;
 	isl_constraint *lower = NULL;
 	int i;
+	isl_bool empty;
 
 	for (i = 0; i < bset->n_ineq; ++i) {
 		if (isl_int_is_zero(bset->ineq[i][1 + abs_pos]))
 			continue;
 
+		lower = NULL;
 		context_i = set_largest_lower_bound(context, bset,
 							abs_pos, n_lower, i);
-		if (isl_basic_set_is_empty(context_i)) {
+		empty = isl_basic_set_is_empty(context_i);
+		if (empty < 0)
+			goto error;
+		if (empty) {
 			isl_basic_set_free(context_i);
 			continue;
 		}
@@ -1055,14 +1065,21 @@ static isl_stat foreach_bound_pair(__isl_keep isl_basic_set *bset,
 	isl_constraint *lower = NULL;
 	isl_constraint *upper = NULL;
 	int i, j;
+	isl_bool empty;
 
 	for (i = 0; i < bset->n_ineq; ++i) {
 		if (!isl_int_is_pos(bset->ineq[i][1 + abs_pos]))
 			continue;
 
+		lower = NULL;
+		upper = NULL;
+		context_j = NULL;
 		context_i = set_largest_lower_bound(context, bset,
 							abs_pos, n_lower, i);
-		if (isl_basic_set_is_empty(context_i)) {
+		empty = isl_basic_set_is_empty(context_i);
+		if (empty < 0)
+			goto error;
+		if (empty) {
 			isl_basic_set_free(context_i);
 			continue;
 		}
@@ -1071,6 +1088,8 @@ static isl_stat foreach_bound_pair(__isl_keep isl_basic_set *bset,
 			if (!isl_int_is_neg(bset->ineq[j][1 + abs_pos]))
 				continue;
 
+			lower = NULL;
+			upper = NULL;
 			context_j = set_smallest_upper_bound(context_i, bset,
 							    abs_pos, n_upper, j);
 			context_j = isl_basic_set_extend_constraints(context_j,
@@ -1079,7 +1098,10 @@ static isl_stat foreach_bound_pair(__isl_keep isl_basic_set *bset,
 				bset->ineq[i], bset->ineq[j], abs_pos, 0);
 			context_j = isl_basic_set_simplify(context_j);
 			context_j = isl_basic_set_finalize(context_j);
-			if (isl_basic_set_is_empty(context_j)) {
+			empty = isl_basic_set_is_empty(context_j);
+			if (empty < 0)
+				goto error;
+			if (empty) {
 				isl_basic_set_free(context_j);
 				continue;
 			}
-- 
2.43.0


From 7a5048ac7df53ae95054d1e6f1fdbab7c5ada28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:24 +0000
Subject: [PATCH 032/101] fix: isl_schedule_read.c: read_band: do not ignore
 failure to read permutable

---
 isl_schedule_read.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/isl_schedule_read.c b/isl_schedule_read.c
index da216f1..da986ac 100644
--- a/isl_schedule_read.c
+++ b/isl_schedule_read.c
@@ -509,7 +509,7 @@ static __isl_give isl_schedule_tree *read_band(isl_stream *s)
 	isl_union_set *options = NULL;
 	isl_ctx *ctx;
 	isl_schedule_band *band;
-	int permutable = 0;
+	isl_bool permutable = isl_bool_false;
 	isl_bool more;
 
 	ctx = isl_stream_get_ctx(s);
@@ -548,8 +548,10 @@ static __isl_give isl_schedule_tree *read_band(isl_stream *s)
 			break;
 		case isl_schedule_key_permutable:
 			v = isl_stream_read_val(s);
-			permutable = !isl_val_is_zero(v);
+			permutable = isl_bool_not(isl_val_is_zero(v));
 			isl_val_free(v);
+			if (permutable < 0)
+				goto error;
 			break;
 		case isl_schedule_key_options:
 			isl_union_set_free(options);
-- 
2.43.0


From 3d5b5959ac8b368e296d53e033fc5219d58d1881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:24 +0000
Subject: [PATCH 033/101] fix: isl_ast_build_expr.c: extract_rational:
 propagate failure

---
 isl_ast_build_expr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/isl_ast_build_expr.c b/isl_ast_build_expr.c
index dca3bc8..3081740 100644
--- a/isl_ast_build_expr.c
+++ b/isl_ast_build_expr.c
@@ -1163,6 +1163,7 @@ static __isl_give isl_aff *extract_rational(__isl_take isl_aff *aff,
 	struct isl_ast_extract_rational_data data = { NULL };
 	isl_ast_expr *rat_expr;
 	isl_val *v;
+	isl_bool divisible;
 
 	if (!aff)
 		return NULL;
@@ -1183,8 +1184,11 @@ static __isl_give isl_aff *extract_rational(__isl_take isl_aff *aff,
 		goto error;
 
 	v = isl_aff_get_constant_val(aff);
-	if (isl_val_is_divisible_by(v, data.d)) {
+	divisible = isl_val_is_divisible_by(v, data.d);
+	if (divisible < 0 || divisible) {
 		isl_val_free(v);
+		if (divisible < 0)
+			goto error;
 	} else {
 		isl_aff *rat_0;
 
-- 
2.43.0


From 0e40d36be04c3aa2e431488940a82b5abcdfc1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:46 +0000
Subject: [PATCH 034/101] fix: isl_schedule_band_dup: copy anchored

---
 isl_schedule_band.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_schedule_band.c b/isl_schedule_band.c
index 668579a..547dd05 100644
--- a/isl_schedule_band.c
+++ b/isl_schedule_band.c
@@ -103,6 +103,7 @@ __isl_give isl_schedule_band *isl_schedule_band_dup(
 	for (i = 0; i < band->n; ++i)
 		dup->coincident[i] = band->coincident[i];
 	dup->permutable = band->permutable;
+	dup->anchored = band->anchored;
 
 	dup->mupa = isl_multi_union_pw_aff_copy(band->mupa);
 	dup->ast_build_options = isl_union_set_copy(band->ast_build_options);
-- 
2.43.0


From a31fbd16ee91b98435de81e242983c2355bc4ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:46 +0000
Subject: [PATCH 035/101] fix: isl_qpolynomial_fold_plain_is_equal: compare
 types of reduction

---
 isl_fold.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_fold.c b/isl_fold.c
index 302e1c3..21de277 100644
--- a/isl_fold.c
+++ b/isl_fold.c
@@ -1366,6 +1366,8 @@ isl_bool isl_qpolynomial_fold_plain_is_equal(
 	if (n1 < 0 || n2 < 0)
 		return isl_bool_error;
 
+	if (fold1->type != fold2->type)
+		return isl_bool_false;
 	if (n1 != n2)
 		return isl_bool_false;
 
-- 
2.43.0


From 0bfa05e5172975a69eb23a33aa4741ba25af73d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:22 +0000
Subject: [PATCH 036/101] fix: make ownership annotations of definitions match
 declarations

---
 include/isl/constraint.h   | 4 ++--
 isl_ctx.c                  | 3 ++-
 isl_list_templ.c           | 2 +-
 isl_multi_tuple_id_templ.c | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/isl/constraint.h b/include/isl/constraint.h
index a8b1611..304638e 100644
--- a/include/isl/constraint.h
+++ b/include/isl/constraint.h
@@ -71,8 +71,8 @@ isl_bool isl_basic_map_has_defining_equality(
 	__isl_keep isl_basic_map *bmap, enum isl_dim_type type, int pos,
 	__isl_give isl_constraint **c);
 isl_bool isl_basic_set_has_defining_equality(
-	struct isl_basic_set *bset, enum isl_dim_type type, int pos,
-	struct isl_constraint **constraint);
+	__isl_keep isl_basic_set *bset, enum isl_dim_type type, int pos,
+	__isl_give isl_constraint **constraint);
 isl_bool isl_basic_set_has_defining_inequalities(
 	struct isl_basic_set *bset, enum isl_dim_type type, int pos,
 	struct isl_constraint **lower,
diff --git a/isl_ctx.c b/isl_ctx.c
index 017e4af..35c9c77 100644
--- a/isl_ctx.c
+++ b/isl_ctx.c
@@ -193,7 +193,8 @@ void *isl_ctx_peek_options(isl_ctx *ctx, struct isl_args *args)
 	return find_nested_options(ctx->user_args, ctx->user_opt, args);
 }
 
-isl_ctx *isl_ctx_alloc_with_options(struct isl_args *args, void *user_opt)
+isl_ctx *isl_ctx_alloc_with_options(struct isl_args *args,
+	__isl_take void *user_opt)
 {
 	struct isl_ctx *ctx = NULL;
 	struct isl_options *opt = NULL;
diff --git a/isl_list_templ.c b/isl_list_templ.c
index cfb4f33..191307c 100644
--- a/isl_list_templ.c
+++ b/isl_list_templ.c
@@ -417,7 +417,7 @@ isl_bool FN(LIST(EL),every)(__isl_keep LIST(EL) *list,
 /* Replace each element in "list" by the result of calling "fn"
  * on the element.
  */
-__isl_give LIST(EL) *FN(LIST(EL),map)(__isl_keep LIST(EL) *list,
+__isl_give LIST(EL) *FN(LIST(EL),map)(__isl_take LIST(EL) *list,
 	__isl_give EL *(*fn)(__isl_take EL *el, void *user), void *user)
 {
 	int i, n;
diff --git a/isl_multi_tuple_id_templ.c b/isl_multi_tuple_id_templ.c
index 87f9fe6..f1189d8 100644
--- a/isl_multi_tuple_id_templ.c
+++ b/isl_multi_tuple_id_templ.c
@@ -62,7 +62,7 @@ __isl_give isl_id *FN(MULTI(BASE),get_range_tuple_id)(
 }
 
 __isl_give MULTI(BASE) *FN(MULTI(BASE),set_tuple_name)(
-	__isl_keep MULTI(BASE) *multi, enum isl_dim_type type,
+	__isl_take MULTI(BASE) *multi, enum isl_dim_type type,
 	const char *s)
 {
 	isl_space *space;
-- 
2.43.0


From 79c5eefda9d8d044151be2041bb6fc92c197664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:48 +0000
Subject: [PATCH 037/101] fix: isl_point_add_ui, isl_point_sub_ui: check
 position

---
 isl_point.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/isl_point.c b/isl_point.c
index b957ae2..9dd62e1 100644
--- a/isl_point.c
+++ b/isl_point.c
@@ -507,6 +507,9 @@ __isl_give isl_point *isl_point_add_ui(__isl_take isl_point *pnt,
 	if (!pnt || isl_point_is_void(pnt))
 		return pnt;
 
+	if (isl_point_check_range(pnt, type, pos, 1) < 0)
+		return isl_point_free(pnt);
+
 	pnt = isl_point_cow(pnt);
 	if (!pnt)
 		return NULL;
@@ -535,6 +538,9 @@ __isl_give isl_point *isl_point_sub_ui(__isl_take isl_point *pnt,
 	if (!pnt || isl_point_is_void(pnt))
 		return pnt;
 
+	if (isl_point_check_range(pnt, type, pos, 1) < 0)
+		return isl_point_free(pnt);
+
 	pnt = isl_point_cow(pnt);
 	if (!pnt)
 		return NULL;
-- 
2.43.0


From 6704126b2b176d89f61f719e7894c93d57b1793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:48 +0000
Subject: [PATCH 038/101] fix: isl_basic_map_project_out: check range before
 using it

---
 isl_map.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/isl_map.c b/isl_map.c
index cdf3cbb..eaa02a0 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4533,6 +4533,8 @@ __isl_give isl_basic_map *isl_basic_map_project_out(
 		isl_die(isl_basic_map_get_ctx(bmap), isl_error_invalid,
 			"cannot project out existentially quantified variables",
 			return isl_basic_map_free(bmap));
+	if (isl_basic_map_check_range(bmap, type, first, n) < 0)
+		return isl_basic_map_free(bmap);
 
 	empty = isl_basic_map_plain_is_empty(bmap);
 	if (empty < 0)
@@ -4547,9 +4549,6 @@ __isl_give isl_basic_map *isl_basic_map_project_out(
 	if (ISL_F_ISSET(bmap, ISL_BASIC_MAP_RATIONAL))
 		return isl_basic_map_remove_dims(bmap, type, first, n);
 
-	if (isl_basic_map_check_range(bmap, type, first, n) < 0)
-		return isl_basic_map_free(bmap);
-
 	bmap = move_last(bmap, type, first, n);
 	bmap = isl_basic_map_cow(bmap);
 	bmap = insert_div_rows(bmap, n);
-- 
2.43.0


From 94527782c1655d219fddec9357bb93ad42241387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:48 +0000
Subject: [PATCH 039/101] fix: isl_space_move_dims, isl_map_move_dims: check
 destination position

---
 isl_map.c   | 4 ++++
 isl_space.c | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index eaa02a0..f3fb080 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -4240,6 +4240,8 @@ __isl_give isl_basic_map *isl_basic_map_move_dims(
 		return bmap;
 
 	isl_assert(bmap->ctx, dst_type != src_type, goto error);
+	if (isl_basic_map_check_range(bmap, dst_type, dst_pos, 0) < 0)
+		return isl_basic_map_free(bmap);
 
 	if (pos(bmap->dim, dst_type) + dst_pos ==
 	    pos(bmap->dim, src_type) + src_pos +
@@ -4352,6 +4354,8 @@ __isl_give isl_map *isl_map_move_dims(__isl_take isl_map *map,
 		return map;
 
 	isl_assert(map->ctx, dst_type != src_type, goto error);
+	if (isl_map_check_range(map, dst_type, dst_pos, 0) < 0)
+		return isl_map_free(map);
 
 	map = isl_map_cow(map);
 	if (!map)
diff --git a/isl_space.c b/isl_space.c
index 12ad748..147c0f6 100644
--- a/isl_space.c
+++ b/isl_space.c
@@ -1406,6 +1406,8 @@ __isl_give isl_space *isl_space_move_dims(__isl_take isl_space *space,
 		return space;
 
 	isl_assert(space->ctx, dst_type != src_type, goto error);
+	if (isl_space_check_range(space, dst_type, dst_pos, 0) < 0)
+		return isl_space_free(space);
 
 	space = isl_space_cow(space);
 	if (!space)
-- 
2.43.0


From d34ce7660890772754be3699b788e8431630c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:48 +0000
Subject: [PATCH 040/101] fix: isl_mat.c: check row and column positions

---
 isl_mat.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/isl_mat.c b/isl_mat.c
index 37468ee..327418f 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -1658,7 +1658,7 @@ void isl_mat_col_add(__isl_keep isl_mat *mat, int dst_col, int src_col)
 {
 	int i;
 
-	if (!mat)
+	if (check_col(mat, dst_col) < 0 || check_col(mat, src_col) < 0)
 		return;
 
 	for (i = 0; i < mat->n_row; ++i)
@@ -1743,6 +1743,8 @@ __isl_give isl_mat *isl_mat_unimodular_complete(__isl_take isl_mat *M, int row)
 		return NULL;
 
 	isl_assert(M->ctx, M->n_row == M->n_col, goto error);
+	if (check_row_range(M, 0, row) < 0)
+		goto error;
 	M->n_row = row;
 	H = isl_mat_left_hermite(isl_mat_copy(M), 0, NULL, &Q);
 	M->n_row = M->n_col;
@@ -2002,6 +2004,8 @@ __isl_give isl_mat *isl_mat_normalize(__isl_take isl_mat *mat)
 
 __isl_give isl_mat *isl_mat_normalize_row(__isl_take isl_mat *mat, int row)
 {
+	if (check_row(mat, row) < 0)
+		return isl_mat_free(mat);
 	mat = isl_mat_cow(mat);
 	if (!mat)
 		return NULL;
-- 
2.43.0


From e866cc36e48ee5b59aae7f0be4b7aebef94f93fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:57 +0000
Subject: [PATCH 041/101] fix: isl_basic_set_compare_at: check position

---
 isl_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index f3fb080..2edb80a 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -9947,6 +9947,10 @@ int isl_basic_set_compare_at(__isl_keep isl_basic_set *bset1,
 	enum isl_lp_result res;
 	int cmp;
 
+	if (isl_basic_set_check_range(bset1, isl_dim_set, pos, 1) < 0 ||
+	    isl_basic_set_check_range(bset2, isl_dim_set, pos, 1) < 0)
+		return -2;
+
 	isl_int_init(opt);
 
 	res = basic_set_maximal_difference_at(bset1, bset2, pos, &opt);
-- 
2.43.0


From 1d185f7d19ebe90d058275f03b1e81fb0ca83e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:00 +0000
Subject: [PATCH 042/101] fix: isl_mat_move_cols: check column ranges

---
 isl_mat.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/isl_mat.c b/isl_mat.c
index 327418f..921d0a9 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -1868,8 +1868,9 @@ __isl_give isl_mat *isl_mat_move_cols(__isl_take isl_mat *mat,
 {
 	isl_mat *res;
 
-	if (!mat)
-		return NULL;
+	if (check_col_range(mat, src_col, n) < 0 ||
+	    check_col_range(mat, dst_col, n) < 0)
+		return isl_mat_free(mat);
 	if (n == 0 || dst_col == src_col)
 		return mat;
 
-- 
2.43.0


From 315b2c7eeaba8393cad191a2b8fc24125776e60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:34 +0000
Subject: [PATCH 043/101] fix: floyd_warshall_iterate: do not read r_exact when
 no result was produced

---
 isl_transitive_closure.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_transitive_closure.c b/isl_transitive_closure.c
index 2733cee..7f1f89e 100644
--- a/isl_transitive_closure.c
+++ b/isl_transitive_closure.c
@@ -1549,7 +1549,7 @@ static void floyd_warshall_iterate(isl_map ***grid, int n, isl_bool *exact)
 	int r, p, q;
 
 	for (r = 0; r < n; ++r) {
-		isl_bool r_exact;
+		isl_bool r_exact = isl_bool_false;
 		int check = exact && *exact == isl_bool_true;
 		grid[r][r] = isl_map_transitive_closure(grid[r][r],
 				check ? &r_exact : NULL);
-- 
2.43.0


From c4c63fcb608b5079e2741452e0c6c37acedd63af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:30 +0000
Subject: [PATCH 044/101] fix: isl_tarjan_components: propagate failure of
 recursive call

---
 isl_tarjan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_tarjan.c b/isl_tarjan.c
index a958c01..87d81f0 100644
--- a/isl_tarjan.c
+++ b/isl_tarjan.c
@@ -87,7 +87,8 @@ static isl_stat isl_tarjan_components(struct isl_tarjan_graph *g, int i,
 			continue;
 
 		if (g->node[j].index < 0) {
-			isl_tarjan_components(g, j, follows, user);
+			if (isl_tarjan_components(g, j, follows, user) < 0)
+				return isl_stat_error;
 			if (g->node[j].min_index < g->node[i].min_index)
 				g->node[i].min_index = g->node[j].min_index;
 		} else if (g->node[j].index < g->node[i].min_index)
-- 
2.43.0


From 2c3e6bc4c69cf835bdee43dd290bee747b326b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:04 +0000
Subject: [PATCH 045/101] fix: isl_vec_normalize: do not modify a shared vector

---
 isl_vec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_vec.c b/isl_vec.c
index 323015b..6461eda 100644
--- a/isl_vec.c
+++ b/isl_vec.c
@@ -455,6 +455,7 @@ __isl_give isl_vec *isl_vec_ceil(__isl_take isl_vec *vec)
 
 __isl_give isl_vec *isl_vec_normalize(__isl_take isl_vec *vec)
 {
+	vec = isl_vec_cow(vec);
 	if (!vec)
 		return NULL;
 	isl_seq_normalize(vec->ctx, vec->el, vec->size);
-- 
2.43.0


From bdc4dc6e478580a9cb5463006f890fedf15faeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:04 +0000
Subject: [PATCH 046/101] fix: isl_mat_unimodular_complete: do not modify a
 shared matrix

---
 isl_mat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/isl_mat.c b/isl_mat.c
index 921d0a9..bc2f8dd 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -1739,6 +1739,7 @@ __isl_give isl_mat *isl_mat_unimodular_complete(__isl_take isl_mat *M, int row)
 	int r;
 	struct isl_mat *H = NULL, *Q = NULL;
 
+	M = isl_mat_cow(M);
 	if (!M)
 		return NULL;
 
-- 
2.43.0


From d101a8e15a1fd615c64abf3c0515bf550b29ea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:04 +0000
Subject: [PATCH 047/101] fix: isl_mat_aff_direct_sum: do not modify shared
 matrices

---
 isl_mat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_mat.c b/isl_mat.c
index bc2f8dd..eb6004c 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -538,6 +538,8 @@ __isl_give isl_mat *isl_mat_aff_direct_sum(__isl_take isl_mat *left,
 	int i;
 	struct isl_mat *sum;
 
+	left = isl_mat_cow(left);
+	right = isl_mat_cow(right);
 	if (!left || !right)
 		goto error;
 
-- 
2.43.0


From 42772cc3d170621ddcde28f38cee82087625a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:59 +0000
Subject: [PATCH 048/101] fix: isl_printer_print_ast_node: handle missing node

---
 isl_ast.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_ast.c b/isl_ast.c
index ae4c156..7d3cf89 100644
--- a/isl_ast.c
+++ b/isl_ast.c
@@ -2165,6 +2165,9 @@ static __isl_give isl_printer *print_ast_node_list(__isl_take isl_printer *p,
 static __isl_give isl_printer *print_ast_node_isl(__isl_take isl_printer *p,
 	__isl_keep isl_ast_node *node)
 {
+	if (!node)
+		return isl_printer_free(p);
+
 	switch (node->type) {
 	case isl_ast_node_for:
 		p = isl_printer_yaml_start_mapping(p);
-- 
2.43.0


From d039527226b3813b8d9e30381800df663c9d4e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:59 +0000
Subject: [PATCH 049/101] fix: isl_schedule_constraints_copy: handle NULL

---
 isl_schedule_constraints.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_schedule_constraints.c b/isl_schedule_constraints.c
index f87235b..d2915ce 100644
--- a/isl_schedule_constraints.c
+++ b/isl_schedule_constraints.c
@@ -52,6 +52,9 @@ __isl_give isl_schedule_constraints *isl_schedule_constraints_copy(
 	isl_schedule_constraints *sc_copy;
 	enum isl_edge_type i;
 
+	if (!sc)
+		return NULL;
+
 	ctx = isl_union_set_get_ctx(sc->domain);
 	sc_copy = isl_calloc_type(ctx, struct isl_schedule_constraints);
 	if (!sc_copy)
-- 
2.43.0


From d65463a30f862442925f943bf35c2fc611ef3875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:59 +0000
Subject: [PATCH 050/101] fix: isl_pw_qpolynomial_fold_size: handle NULL

---
 isl_fold.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_fold.c b/isl_fold.c
index 21de277..83afa9b 100644
--- a/isl_fold.c
+++ b/isl_fold.c
@@ -1436,6 +1436,9 @@ size_t isl_pw_qpolynomial_fold_size(__isl_keep isl_pw_qpolynomial_fold *pwf)
 	int i;
 	size_t n = 0;
 
+	if (!pwf)
+		return isl_size_error;
+
 	for (i = 0; i < pwf->n; ++i) {
 		isl_size n_i;
 		isl_qpolynomial_list *list;
-- 
2.43.0


From fb58b29a986f8bd7dbb0f09f10d78fdb56f75ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:15 +0000
Subject: [PATCH 051/101] fix: next_is_domain_colon: handle allocation failure

---
 isl_input.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_input.c b/isl_input.c
index e0eb2bf..eff67ae 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -2966,7 +2966,8 @@ static int next_is_domain_colon(__isl_keep isl_stream *s)
 	}
 
 	name = isl_token_get_str(s->ctx, tok);
-	res = !strcmp(name, "domain") && isl_stream_next_token_is(s, ':');
+	res = name && !strcmp(name, "domain") &&
+		isl_stream_next_token_is(s, ':');
 	free(name);
 
 	isl_stream_push_token(s, tok);
-- 
2.43.0


From 1f6ef02b27d78143511dd7ca4e44758812ac8b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:37 +0000
Subject: [PATCH 052/101] fix: is_isolate_loop_type_option: handle failure to
 unwrap

---
 isl_schedule_band.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/isl_schedule_band.c b/isl_schedule_band.c
index 547dd05..36bcb38 100644
--- a/isl_schedule_band.c
+++ b/isl_schedule_band.c
@@ -665,14 +665,17 @@ static isl_bool is_isolate_loop_type_option(__isl_keep isl_set *set)
 	const char *name;
 	enum isl_ast_loop_type type;
 	isl_map *map;
+	isl_bool has_name;
 
 	if (!isl_set_is_wrapping(set))
 		return isl_bool_false;
 	map = isl_set_unwrap(isl_set_copy(set));
-	if (!isl_map_has_tuple_name(map, isl_dim_in) ||
-	    !isl_map_has_tuple_name(map, isl_dim_out)) {
+	has_name = isl_map_has_tuple_name(map, isl_dim_in);
+	if (has_name >= 0 && has_name)
+		has_name = isl_map_has_tuple_name(map, isl_dim_out);
+	if (has_name < 0 || !has_name) {
 		isl_map_free(map);
-		return isl_bool_false;
+		return has_name;
 	}
 	name = isl_map_get_tuple_name(map, isl_dim_in);
 	if (!strcmp(name, "isolate")) {
-- 
2.43.0


From ed49dac5733a0c935ffd8d875916dddd27669b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:23 +0000
Subject: [PATCH 053/101] fix: isl_token_get_str: check that the token has a
 string

The data of value, map and affine expression tokens is not a string,
but it was interpreted as one, e.g., while reading an identifier
or a schedule tree containing a number where a string is expected.
---
 isl_stream.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_stream.c b/isl_stream.c
index 862015b..1934928 100644
--- a/isl_stream.c
+++ b/isl_stream.c
@@ -107,7 +107,8 @@ __isl_give char *isl_token_get_str(isl_ctx *ctx, struct isl_token *tok)
 {
 	if (!tok)
 		return NULL;
-	if (!tok->u.s)
+	if (tok->type == ISL_TOKEN_VALUE || tok->type == ISL_TOKEN_MAP ||
+	    tok->type == ISL_TOKEN_AFF || !tok->u.s)
 		isl_die(ctx, isl_error_invalid,
 			"token does not have a string representation",
 			return NULL);
-- 
2.43.0


From 737626b8e3996901897506f1befd87d3c72e23f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:23 +0000
Subject: [PATCH 054/101] fix: isl_stream_push_token: free token that cannot be
 pushed back

---
 isl_stream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_stream.c b/isl_stream.c
index 1934928..01ba2bb 100644
--- a/isl_stream.c
+++ b/isl_stream.c
@@ -302,7 +302,7 @@ static int isl_stream_push_char(__isl_keep isl_stream *s, int c)
 
 void isl_stream_push_token(__isl_keep isl_stream *s, struct isl_token *tok)
 {
-	isl_assert(s->ctx, s->n_token < 5, return);
+	isl_assert(s->ctx, s->n_token < 5, isl_token_free(tok); return);
 	s->tokens[s->n_token++] = tok;
 }
 
-- 
2.43.0


From a47aecc1c3fa9332b1ffe1b9f9822ab3d2fac427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:01 +0000
Subject: [PATCH 055/101] fix: isl_tab_restore_redundant: report failure to
 restore sample value

---
 isl_tab.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/isl_tab.c b/isl_tab.c
index d911f65..582d016 100644
--- a/isl_tab.c
+++ b/isl_tab.c
@@ -3779,7 +3779,8 @@ static isl_stat restore_last_redundant(struct isl_tab *tab)
 	var = isl_tab_var_from_row(tab, tab->n_redundant - 1);
 	var->is_redundant = 0;
 	tab->n_redundant--;
-	restore_row(tab, var);
+	if (restore_row(tab, var) < -1)
+		return isl_stat_error;
 
 	return isl_stat_ok;
 }
@@ -3863,7 +3864,8 @@ isl_stat isl_tab_restore_redundant(struct isl_tab *tab)
 			var = isl_tab_var_from_row(tab, tab->n_redundant - 1);
 			var->is_nonneg = 0;
 		}
-		restore_last_redundant(tab);
+		if (restore_last_redundant(tab) < 0)
+			return isl_stat_error;
 	}
 	return isl_stat_ok;
 }
-- 
2.43.0


From ce1aff62514ed7a6dffeba91937003d7777ef278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:01 +0000
Subject: [PATCH 056/101] fix: isl_bound_add_tight: report failure to compute
 tight bound

---
 isl_bound.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_bound.c b/isl_bound.c
index 64247ac..c00b6a5 100644
--- a/isl_bound.c
+++ b/isl_bound.c
@@ -54,7 +54,7 @@ isl_stat isl_bound_add_tight(struct isl_bound *bound,
 	__isl_take isl_pw_qpolynomial_fold *pwf)
 {
 	bound->pwf_tight = isl_pw_qpolynomial_fold_fold(bound->pwf_tight, pwf);
-	return isl_stat_non_null(bound->pwf);
+	return isl_stat_non_null(bound->pwf_tight);
 }
 
 /* Given a polynomial "poly" that is constant in terms
-- 
2.43.0


From b61a47e8c464a14ac180ff0899106b50e9577935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:20 +0000
Subject: [PATCH 057/101] fix: isl_tab_compute_reduced_basis: do not clear
 elements of missing arrays

---
 basis_reduction_templ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basis_reduction_templ.c b/basis_reduction_templ.c
index 290da7d..be876c4 100644
--- a/basis_reduction_templ.c
+++ b/basis_reduction_templ.c
@@ -274,7 +274,7 @@ error:
 
 	GBR_lp_delete(lp);
 
-	if (alpha_buffer[1])
+	if (F && alpha_buffer[0] && alpha_buffer[1])
 		for (i = 0; i < n_bounded; ++i) {
 			GBR_clear(F[i]);
 			GBR_clear(alpha_buffer[0][i]);
-- 
2.43.0


From 581c90332b6d05bcccc0f593196fb1c4cb3d40f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:20 +0000
Subject: [PATCH 058/101] fix: isl_tab_compute_reduced_basis: handle failure to
 swap rows

---
 basis_reduction_templ.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basis_reduction_templ.c b/basis_reduction_templ.c
index be876c4..c893418 100644
--- a/basis_reduction_templ.c
+++ b/basis_reduction_templ.c
@@ -235,6 +235,8 @@ struct isl_tab *isl_tab_compute_reduced_basis(struct isl_tab *tab)
 		GBR_mul(mu_F[1], mu_F[1], F_old);
 		if (GBR_lt(mu_F[0], mu_F[1])) {
 			B = isl_mat_swap_rows(B, 1 + i, 1 + i + 1);
+			if (!B)
+				goto error;
 			if (i > tab->n_zero) {
 				use_saved = 1;
 				GBR_set(F_saved, F_new);
-- 
2.43.0


From 6891cdcca76af8d351a513e17c9f262a934b2b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:20 +0000
Subject: [PATCH 059/101] fix: isl_tab_compute_reduced_basis: handle failure to
 add row

In particular, deleting the row that was not added
would access the element before the start of the stack.
---
 basis_reduction_templ.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/basis_reduction_templ.c b/basis_reduction_templ.c
index c893418..ac7a0ab 100644
--- a/basis_reduction_templ.c
+++ b/basis_reduction_templ.c
@@ -162,6 +162,8 @@ struct isl_tab *isl_tab_compute_reduced_basis(struct isl_tab *tab)
 			GBR_set(alpha, alpha_saved[i]);
 		} else {
 			row = GBR_lp_add_row(lp, B->row[1+i]+1, dim);
+			if (row < 0)
+				goto error;
 			GBR_lp_set_obj(lp, B->row[1+i+1]+1, dim);
 			ctx->stats->gbr_solved_lps++;
 			if (GBR_lp_solve(lp) < 0)
@@ -260,7 +262,8 @@ struct isl_tab *isl_tab_compute_reduced_basis(struct isl_tab *tab)
 				}
 			}
 		} else {
-			GBR_lp_add_row(lp, B->row[1+i]+1, dim);
+			if (GBR_lp_add_row(lp, B->row[1+i]+1, dim) < 0)
+				goto error;
 			++i;
 		}
 	} while (i < n_bounded - 1);
-- 
2.43.0


From 79fbb76eda5f6ff82d79c790ea02269d61927826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:31 +0000
Subject: [PATCH 060/101] fix: init_lp: handle failure to allocate stack

---
 basis_reduction_tab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basis_reduction_tab.c b/basis_reduction_tab.c
index b42f677..4d4eff7 100644
--- a/basis_reduction_tab.c
+++ b/basis_reduction_tab.c
@@ -156,7 +156,7 @@ static struct tab_lp *init_lp(struct isl_tab *tab)
 	lp->stack = isl_alloc_array(lp->ctx, struct isl_tab_undo *, lp->dim);
 
 	lp->row = isl_vec_alloc(lp->ctx, 1 + 2 * lp->dim);
-	if (!lp->row)
+	if (!lp->stack || !lp->row)
 		goto error;
 	lp->tab = gbr_tab(tab, lp->row);
 	if (!lp->tab)
-- 
2.43.0


From b0e7310545332448984e9ed9b403112e95ad660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 061/101] fix: isl_basic_map_implicit_equalities: handle
 failure to perform Gaussian elimination

---
 isl_affine_hull.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_affine_hull.c b/isl_affine_hull.c
index 6867521..1b76b39 100644
--- a/isl_affine_hull.c
+++ b/isl_affine_hull.c
@@ -38,6 +38,8 @@ __isl_give isl_basic_map *isl_basic_map_implicit_equalities(
 		return bmap;
 
 	bmap = isl_basic_map_gauss(bmap, NULL);
+	if (!bmap)
+		return NULL;
 	if (ISL_F_ISSET(bmap, ISL_BASIC_MAP_EMPTY))
 		return bmap;
 	if (ISL_F_ISSET(bmap, ISL_BASIC_MAP_NO_IMPLICIT))
@@ -51,6 +53,8 @@ __isl_give isl_basic_map *isl_basic_map_implicit_equalities(
 	bmap = isl_basic_map_update_from_tab(bmap, tab);
 	isl_tab_free(tab);
 	bmap = isl_basic_map_gauss(bmap, NULL);
+	if (!bmap)
+		return NULL;
 	ISL_F_SET(bmap, ISL_BASIC_MAP_NO_IMPLICIT);
 	return bmap;
 error:
-- 
2.43.0


From b2c023d3da00be30bcabc0bcd27b249d03b76335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 062/101] fix: isl_basic_map_detect_equalities: handle failure
 to extend basic map

---
 isl_affine_hull.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_affine_hull.c b/isl_affine_hull.c
index 1b76b39..1eb0585 100644
--- a/isl_affine_hull.c
+++ b/isl_affine_hull.c
@@ -931,7 +931,7 @@ __isl_give isl_basic_map *isl_basic_map_detect_equalities(
 	}
 	bmap = isl_basic_map_extend(bmap, 0, hull->n_eq, 0);
 	total = isl_basic_set_dim(hull, isl_dim_all);
-	if (total < 0)
+	if (!bmap || total < 0)
 		goto error;
 	for (i = 0; i < hull->n_eq; ++i) {
 		j = isl_basic_map_alloc_equality(bmap);
-- 
2.43.0


From b04f0378c2c4bd5fe551eacc20db1cdcb7da2f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 063/101] fix: isl_basic_map_remove_redundancies: handle
 failure to perform Gaussian elimination

---
 isl_convex_hull.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_convex_hull.c b/isl_convex_hull.c
index ab41f64..908cb54 100644
--- a/isl_convex_hull.c
+++ b/isl_convex_hull.c
@@ -57,6 +57,8 @@ __isl_give isl_basic_map *isl_basic_map_remove_redundancies(
 		return NULL;
 
 	bmap = isl_basic_map_gauss(bmap, NULL);
+	if (!bmap)
+		return NULL;
 	if (ISL_F_ISSET(bmap, ISL_BASIC_MAP_EMPTY))
 		return bmap;
 	if (ISL_F_ISSET(bmap, ISL_BASIC_MAP_NO_REDUNDANT))
-- 
2.43.0


From 7e0b1afcc96a19a46402f06ff2916ee12cc2ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 064/101] fix: isl_set_preimage: handle NULL matrix

---
 isl_mat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_mat.c b/isl_mat.c
index eb6004c..79a1e76 100644
--- a/isl_mat.c
+++ b/isl_mat.c
@@ -1421,7 +1421,7 @@ __isl_give isl_set *isl_set_preimage(
 	int i;
 
 	set = isl_set_cow(set);
-	if (!set)
+	if (!set || !mat)
 		goto error;
 
 	for (i = 0; i < set->n; ++i) {
-- 
2.43.0


From cf6f43d2eb0817dd4060b8b5a3708c52c3a2defe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 065/101] fix: convex_hull_pair: handle NULL input

---
 isl_convex_hull.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_convex_hull.c b/isl_convex_hull.c
index 908cb54..e1e4994 100644
--- a/isl_convex_hull.c
+++ b/isl_convex_hull.c
@@ -1293,6 +1293,8 @@ static __isl_give isl_basic_set *convex_hull_pair(
 	isl_bool bounded1, bounded2;
 	isl_size total;
 
+	if (!bset1 || !bset2)
+		goto error;
 	if (bset1->ctx->opt->convex == ISL_CONVEX_HULL_FM)
 		return convex_hull_pair_elim(bset1, bset2);
 
-- 
2.43.0


From b47dbfecf737bd9d8bb0fac83ac12bdc5fead49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 066/101] fix: uset_convex_hull_wrap: handle NULL input

---
 isl_convex_hull.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_convex_hull.c b/isl_convex_hull.c
index e1e4994..b67f4e5 100644
--- a/isl_convex_hull.c
+++ b/isl_convex_hull.c
@@ -1781,6 +1781,9 @@ static __isl_give isl_basic_set *uset_convex_hull_wrap(__isl_take isl_set *set)
 	struct isl_basic_set *hull;
 	int is_hull;
 
+	if (!set)
+		return NULL;
+
 	hull = proto_hull(set, &is_hull);
 	if (hull && !is_hull) {
 		if (hull->n_ineq == 0)
-- 
2.43.0


From cb63c41efc0a313f0a57b77ae64ed885269268f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 067/101] fix: update_constraint: handle failure to copy
 constraint

---
 isl_convex_hull.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_convex_hull.c b/isl_convex_hull.c
index b67f4e5..f69c429 100644
--- a/isl_convex_hull.c
+++ b/isl_convex_hull.c
@@ -1564,6 +1564,8 @@ static isl_stat update_constraint(struct isl_ctx *ctx,
 		return isl_stat_ok;
 	}
 	c->c = isl_mat_cow(c->c);
+	if (!c->c)
+		return isl_stat_error;
 	isl_int_set(c->c->row[0][0], con[0]);
 	c->ineq = ineq;
 
-- 
2.43.0


From 0fd3d60ae258e2e9436e0c8a1865510e2c325a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 068/101] fix: isl_map_plain_unshifted_simple_hull: handle
 failure to drop constraints

---
 isl_convex_hull.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_convex_hull.c b/isl_convex_hull.c
index f69c429..142f76a 100644
--- a/isl_convex_hull.c
+++ b/isl_convex_hull.c
@@ -2673,6 +2673,8 @@ __isl_give isl_basic_map *isl_map_plain_unshifted_simple_hull(
 	if (map->n <= 1)
 		return map_simple_hull_trivial(map);
 	map = isl_map_drop_constraints_involving_unknown_divs(map);
+	if (!map)
+		return NULL;
 	hull = isl_basic_map_copy(map->p[0]);
 	for (i = 1; i < map->n; ++i) {
 		isl_basic_map *bmap_i;
-- 
2.43.0


From 2cc504c6c698fd8f69130abf0803eb2f86121cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 069/101] fix: parameter_compression_multi: handle failure to
 compute Hermite normal form

---
 isl_equalities.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_equalities.c b/isl_equalities.c
index aace139..4e8b160 100644
--- a/isl_equalities.c
+++ b/isl_equalities.c
@@ -190,6 +190,8 @@ static __isl_give isl_mat *parameter_compression_multi(__isl_keep isl_mat *B,
 						D, U->row[j][k]);
 	}
 	A = isl_mat_left_hermite(A, 0, NULL, NULL);
+	if (!A)
+		goto error;
 	T = isl_mat_sub_alloc(A, 0, A->n_row, 0, A->n_row);
 	T = isl_mat_lin_to_aff(T);
 	if (!T)
-- 
2.43.0


From 0c5b1383cba9cacfdf2452bd4d9de6c9e296e1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 070/101] fix: isl_basic_set_remove_equalities: handle failure
 to perform Gaussian elimination

---
 isl_equalities.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_equalities.c b/isl_equalities.c
index 4e8b160..cbea80d 100644
--- a/isl_equalities.c
+++ b/isl_equalities.c
@@ -718,6 +718,8 @@ __isl_give isl_basic_set *isl_basic_set_remove_equalities(
 	if (isl_basic_set_check_no_params(bset) < 0)
 		return isl_basic_set_free(bset);
 	bset = isl_basic_set_gauss(bset, NULL);
+	if (!bset)
+		return NULL;
 	if (ISL_F_ISSET(bset, ISL_BASIC_SET_EMPTY))
 		return return_with_identity(bset, T, T2);
 	bset = compress_variables(bset, T, T2);
-- 
2.43.0


From 052185dadada8d5ce9da765d8d7ffba1e6390b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 071/101] fix: isl_vec_read_polylib: handle failure to allocate
 vector

---
 isl_input.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_input.c b/isl_input.c
index eff67ae..8115c34 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -3464,6 +3464,8 @@ static __isl_give isl_vec *isl_vec_read_polylib(__isl_keep isl_stream *s)
 	isl_token_free(tok);
 
 	vec = isl_vec_alloc(s->ctx, size);
+	if (!vec)
+		return NULL;
 
 	for (j = 0; j < size; ++j) {
 		tok = isl_stream_next_token(s);
-- 
2.43.0


From 57383309c779d53b9e1774b9d1de7908ad3211f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 072/101] fix: add_known_div_constraints: handle failure to add
 constraint

---
 isl_map.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_map.c b/isl_map.c
index 2edb80a..2804c5d 100644
--- a/isl_map.c
+++ b/isl_map.c
@@ -552,6 +552,8 @@ static __isl_give isl_basic_map *add_known_div_constraints(
 		if (isl_int_is_zero(bmap->div[i][0]))
 			continue;
 		bmap = isl_basic_map_add_div_constraints(bmap, i);
+		if (!bmap)
+			return NULL;
 	}
 
 	return bmap;
-- 
2.43.0


From 6e24c50758ff4541bf0162877cdf79a2e356d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 073/101] fix: normalize_divs: handle failure to mark basic map
 empty

---
 isl_map_simplify.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_map_simplify.c b/isl_map_simplify.c
index bb26236..5514816 100644
--- a/isl_map_simplify.c
+++ b/isl_map_simplify.c
@@ -1102,6 +1102,8 @@ static __isl_give isl_basic_map *normalize_divs(__isl_take isl_basic_map *bmap,
 	if (progress)
 		*progress = 1;
 done:
+	if (!bmap)
+		return NULL;
 	ISL_F_SET(bmap, ISL_BASIC_MAP_NORMALIZED_DIVS);
 
 	return bmap;
-- 
2.43.0


From 4657fa0525f67f5ac716399fbe6a49fa3fc5c4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 074/101] fix: uset_gist: handle failure to sort constraints

---
 isl_map_simplify.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_map_simplify.c b/isl_map_simplify.c
index 5514816..26f86ea 100644
--- a/isl_map_simplify.c
+++ b/isl_map_simplify.c
@@ -2838,6 +2838,10 @@ static __isl_give isl_basic_set *uset_gist(__isl_take isl_basic_set *bset,
 		return aff;
 	}
 	bset = isl_basic_set_sort_constraints(bset);
+	if (!bset) {
+		isl_basic_set_free(aff);
+		goto error;
+	}
 	if (aff->n_eq == 0) {
 		isl_basic_set_free(aff);
 		return uset_gist_uncompressed(bset, context);
-- 
2.43.0


From a36ae5b94ee0dd1f61266a56d29c12a5a088b44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 075/101] fix: set_eq_and_try_again: handle failure to copy
 basic map

---
 isl_map_simplify.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_map_simplify.c b/isl_map_simplify.c
index 26f86ea..d27cec7 100644
--- a/isl_map_simplify.c
+++ b/isl_map_simplify.c
@@ -4750,7 +4750,8 @@ static __isl_give isl_basic_map *set_eq_and_try_again(
 	__isl_take isl_basic_map *bmap, int ineq, __isl_take int *pairs)
 {
 	bmap = isl_basic_map_cow(bmap);
-	isl_basic_map_inequality_to_equality(bmap, ineq);
+	if (bmap)
+		isl_basic_map_inequality_to_equality(bmap, ineq);
 	return drop_redundant_divs_again(bmap, pairs, 1);
 }
 
-- 
2.43.0


From 8bc47689090a135a121df9082819b57810b46f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 076/101] fix: isl_space_map_from_set: handle failure to copy
 identifiers

---
 isl_space.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_space.c b/isl_space.c
index 147c0f6..98093f5 100644
--- a/isl_space.c
+++ b/isl_space.c
@@ -1922,6 +1922,8 @@ __isl_give isl_space *isl_space_map_from_set(__isl_take isl_space *space)
 		space->ids = ids;
 		space->n_id = n_id;
 		space = copy_ids(space, isl_dim_out, 0, space, isl_dim_in);
+		if (!space)
+			return NULL;
 	}
 	isl_id_free(space->tuple_id[0]);
 	space->tuple_id[0] = isl_id_copy(space->tuple_id[1]);
-- 
2.43.0


From d88fe5cf4884364df852a1aa3bb9eca9610abb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 077/101] fix: isl_basic_map_update_from_tab: handle failure to
 mark basic map empty

---
 isl_tab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_tab.c b/isl_tab.c
index 582d016..99d30dc 100644
--- a/isl_tab.c
+++ b/isl_tab.c
@@ -2649,7 +2649,7 @@ __isl_give isl_basic_map *isl_basic_map_update_from_tab(
 			else if (isl_tab_is_redundant(tab, n_eq + i))
 				isl_basic_map_drop_inequality(bmap, i);
 		}
-	if (bmap->n_eq != n_eq)
+	if (bmap && bmap->n_eq != n_eq)
 		bmap = isl_basic_map_gauss(bmap, NULL);
 	if (!tab->rational &&
 	    bmap && !bmap->sample && isl_tab_sample_is_integer(tab))
-- 
2.43.0


From db916a10146f30a2fa9f98f7a48a7160dfd7eea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 078/101] fix: basic_map_partial_lexopt_base_sol: handle
 failure to sort integer divisions

---
 isl_tab_pip.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_tab_pip.c b/isl_tab_pip.c
index 5a3148b..58f1f8f 100644
--- a/isl_tab_pip.c
+++ b/isl_tab_pip.c
@@ -4428,6 +4428,8 @@ static struct isl_sol *basic_map_partial_lexopt_base_sol(
 
 	if (dom->n_div) {
 		dom = isl_basic_set_sort_divs(dom);
+		if (!dom)
+			goto error;
 		bmap = align_context_divs(bmap, dom);
 	}
 	sol = init(bmap, dom, !!empty, max);
-- 
2.43.0


From 5d74495788301fb8c8bc10f2c1ff4b45e121b856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 079/101] fix: isl_fixed_box_invalidate: handle failure to set
 extent

---
 isl_box.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/isl_box.c b/isl_box.c
index 34a49ea..284889e 100644
--- a/isl_box.c
+++ b/isl_box.c
@@ -151,7 +151,7 @@ static __isl_give isl_fixed_box *isl_fixed_box_invalidate(
 	isl_aff_free(nan);
 	isl_val_free(infty);
 
-	if (!box->offset || !box->size)
+	if (!box || !box->offset || !box->size)
 		return isl_fixed_box_free(box);
 	return box;
 }
-- 
2.43.0


From 32a7b7237718b3884b9f0122d596259420ef6eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 080/101] fix: collect_bounds: handle failure to look up node

---
 isl_scheduler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_scheduler.c b/isl_scheduler.c
index ddd4a16..1aacda5 100644
--- a/isl_scheduler.c
+++ b/isl_scheduler.c
@@ -4701,6 +4701,8 @@ static isl_stat collect_bounds(__isl_take isl_set *set, void *user)
 
 	node = graph_find_compressed_node(data->ctx, data->graph, space);
 	isl_space_free(space);
+	if (!node)
+		return isl_stat_error;
 
 	bounds = isl_set_from_basic_set(get_size_bounds(node));
 	data->bounds = isl_union_set_add_set(data->bounds, bounds);
-- 
2.43.0


From f2fe934d6d1e72facdfd96c745fb2c27a704a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 081/101] fix: add_node: handle NULL build

---
 isl_ast_codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_ast_codegen.c b/isl_ast_codegen.c
index 9b26196..dab217e 100644
--- a/isl_ast_codegen.c
+++ b/isl_ast_codegen.c
@@ -1829,6 +1829,8 @@ static __isl_give isl_ast_graft_list *add_node(
 	isl_union_set *uset;
 	int empty, disjoint;
 
+	if (!build)
+		goto error;
 	uset = isl_union_set_from_basic_set(isl_basic_set_copy(bounds));
 	executed = isl_union_map_intersect_domain(executed, uset);
 	empty = isl_union_map_is_empty(executed);
-- 
2.43.0


From 99a8efad88bf9593b3dd1f89a4b126b0addacd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 082/101] fix: isl_printer_print_schedule_tree_mark: handle
 NULL tree

---
 isl_schedule_tree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_schedule_tree.c b/isl_schedule_tree.c
index 302033f..12c71e9 100644
--- a/isl_schedule_tree.c
+++ b/isl_schedule_tree.c
@@ -2777,6 +2777,9 @@ __isl_give isl_printer *isl_printer_print_schedule_tree_mark(
 	int sequence = 0;
 	int block;
 
+	if (!tree)
+		return isl_printer_free(p);
+
 	block = isl_printer_get_yaml_style(p) == ISL_YAML_STYLE_BLOCK;
 
 	p = isl_printer_yaml_start_mapping(p);
-- 
2.43.0


From ffd3f0aeca84da029773db08717e1174f86ea7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:03 +0000
Subject: [PATCH 083/101] fix: can_print_div_expr: handle NULL printer

---
 isl_output.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_output.c b/isl_output.c
index 9839a52..52b7d04 100644
--- a/isl_output.c
+++ b/isl_output.c
@@ -274,6 +274,8 @@ static isl_stat pos2type(__isl_keep isl_space *space,
 static isl_bool can_print_div_expr(__isl_keep isl_printer *p,
 	__isl_keep isl_mat *div, int pos)
 {
+	if (!p)
+		return isl_bool_error;
 	if (p->output_format == ISL_FORMAT_OMEGA)
 		return isl_bool_false;
 	if (!div)
-- 
2.43.0


From 201ffe8cdd3076318ff7897b8e85ebd8837f6e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:10 +0000
Subject: [PATCH 084/101] fix: isl_basic_map_normalize_constraints: handle
 failure to mark basic map empty

---
 isl_map_simplify.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_map_simplify.c b/isl_map_simplify.c
index d27cec7..827c30c 100644
--- a/isl_map_simplify.c
+++ b/isl_map_simplify.c
@@ -76,6 +76,8 @@ __isl_give isl_basic_map *isl_basic_map_normalize_constraints(
 		}
 		isl_seq_scale_down(bmap->eq[i], bmap->eq[i], gcd, 1+total);
 	}
+	if (!bmap)
+		goto error;
 
 	for (i = bmap->n_ineq - 1; i >= 0; --i) {
 		isl_seq_gcd(bmap->ineq[i]+1, total, &gcd);
-- 
2.43.0


From fe13ac328f43cf05ff709d67642ffc1e7006519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:10 +0000
Subject: [PATCH 085/101] fix: basic_map_collect_diff: handle failure to order
 integer divisions

---
 isl_map_subtract.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/isl_map_subtract.c b/isl_map_subtract.c
index 68ce54f..0800456 100644
--- a/isl_map_subtract.c
+++ b/isl_map_subtract.c
@@ -347,7 +347,7 @@ static isl_stat basic_map_collect_diff(__isl_take isl_basic_map *bmap,
 	map = isl_map_order_divs(map);
 
 	tab = isl_tab_from_basic_map(bmap, 1);
-	if (!tab)
+	if (!map || !tab)
 		goto error;
 
 	modified = 0;
@@ -461,10 +461,10 @@ error:
 	free(snap);
 	free(n);
 	free(k);
-	for (i = 0; index && i < map->n; ++i)
+	for (i = 0; map && index && i < map->n; ++i)
 		free(index[i]);
 	free(index);
-	for (i = 0; div_map && i < map->n; ++i)
+	for (i = 0; map && div_map && i < map->n; ++i)
 		free(div_map[i]);
 	free(div_map);
 	isl_basic_map_free(bmap);
-- 
2.43.0


From 986f51c174c04faab4e56746596d67cf5c5a4f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:10 +0000
Subject: [PATCH 086/101] fix: print_term: handle failure to print coefficient

---
 isl_output.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_output.c b/isl_output.c
index 52b7d04..34e7e8a 100644
--- a/isl_output.c
+++ b/isl_output.c
@@ -309,6 +309,8 @@ static __isl_give isl_printer *print_term(__isl_keep isl_space *space,
 		p = isl_printer_print_str(p, "-");
 	else {
 		p = isl_printer_print_isl_int(p, c);
+		if (!p)
+			return NULL;
 		if (p->output_format == ISL_FORMAT_C || print_div_def)
 			p = isl_printer_print_str(p, "*");
 	}
-- 
2.43.0


From bade3c37b2e46fe97cc9fecccfd9d063b3f159ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:10 +0000
Subject: [PATCH 087/101] fix: print_eq_mod_constraint: handle NULL printer

---
 isl_output.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_output.c b/isl_output.c
index 34e7e8a..6d1325e 100644
--- a/isl_output.c
+++ b/isl_output.c
@@ -696,6 +696,8 @@ static __isl_give isl_printer *print_eq_mod_constraint(
 	int multiple;
 
 	ctx = isl_printer_get_ctx(p);
+	if (!ctx)
+		return isl_printer_free(p);
 	isl_int_divexact(c[last], c[last], div->row[div_pos][0]);
 	isl_int_abs(c[last], c[last]);
 	multiple = !isl_int_is_one(c[last]);
-- 
2.43.0


From 7760eac5b42882b7e8b04436d57471caa965330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:10 +0000
Subject: [PATCH 088/101] fix: print_pow: handle failure to print base

---
 isl_output.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_output.c b/isl_output.c
index 6d1325e..42c01a2 100644
--- a/isl_output.c
+++ b/isl_output.c
@@ -1812,6 +1812,8 @@ static __isl_give isl_printer *print_pow(__isl_take isl_printer *p,
 	__isl_keep isl_space *space, __isl_keep isl_mat *div, int var, int exp)
 {
 	p = print_base(p, space, div, var);
+	if (!p)
+		return NULL;
 	if (exp == 1)
 		return p;
 	if (p->output_format == ISL_FORMAT_C) {
-- 
2.43.0


From 8c180764ca1813abf84c3a0f37a96e20f9caffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:10 +0000
Subject: [PATCH 089/101] fix: print_pw_multi_aff_c: handle failure to print
 name

---
 isl_output.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_output.c b/isl_output.c
index 42c01a2..a972670 100644
--- a/isl_output.c
+++ b/isl_output.c
@@ -3292,6 +3292,8 @@ static __isl_give isl_printer *print_pw_multi_aff_c(__isl_take isl_printer *p,
 			goto error);
 
 	p = isl_printer_print_str(p, name);
+	if (!p)
+		return NULL;
 	if (n != 0)
 		isl_die(p->ctx, isl_error_unsupported,
 			"not supported yet", goto error);
-- 
2.43.0


From 962b6937bea891b0cd12542e8ec7dd74a889c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:10 +0000
Subject: [PATCH 090/101] fix: str_start_line: handle failure to extend buffer

---
 isl_printer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/isl_printer.c b/isl_printer.c
index f58a8a7..05a38fe 100644
--- a/isl_printer.c
+++ b/isl_printer.c
@@ -72,6 +72,8 @@ static int grow_buf(__isl_keep isl_printer *p, int extra)
 static __isl_give isl_printer *str_print(__isl_take isl_printer *p,
 	const char *s, int len)
 {
+	if (!p)
+		return NULL;
 	if (p->buf_n + len + 1 >= p->buf_size && grow_buf(p, len))
 		goto error;
 	memcpy(p->buf + p->buf_n, s, len);
@@ -89,6 +91,8 @@ static __isl_give isl_printer *str_print_indent(__isl_take isl_printer *p,
 {
 	int i;
 
+	if (!p)
+		return NULL;
 	if (p->buf_n + indent + 1 >= p->buf_size && grow_buf(p, indent))
 		goto error;
 	for (i = 0; i < indent; ++i)
@@ -104,8 +108,10 @@ static __isl_give isl_printer *str_start_line(__isl_take isl_printer *p)
 {
 	if (p->indent_prefix)
 		p = str_print(p, p->indent_prefix, strlen(p->indent_prefix));
+	if (!p)
+		return NULL;
 	p = str_print_indent(p, p->indent);
-	if (p->prefix)
+	if (p && p->prefix)
 		p = str_print(p, p->prefix, strlen(p->prefix));
 	return p;
 }
-- 
2.43.0


From eb7c53fa60d7ba31e0b9a7624f2d16a18e4e1b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:10 +0000
Subject: [PATCH 091/101] fix: enter_state: handle failure of printer
 operations

---
 isl_printer.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/isl_printer.c b/isl_printer.c
index 05a38fe..b93a924 100644
--- a/isl_printer.c
+++ b/isl_printer.c
@@ -592,14 +592,16 @@ static __isl_give isl_printer *enter_state(__isl_take isl_printer *p,
 		if (p->yaml_style == ISL_YAML_STYLE_FLOW)
 			p = p->ops->print_str(p, ", ");
 		else {
-			p = p->ops->end_line(p);
-			p = p->ops->start_line(p);
+			p = isl_printer_end_line(p);
+			p = isl_printer_start_line(p);
 		}
 		p = update_state(p, isl_yaml_mapping_key);
 	} else if (state == isl_yaml_sequence_first_start) {
 		if (p->yaml_style != ISL_YAML_STYLE_FLOW) {
-			p = p->ops->end_line(p);
-			p = p->ops->start_line(p);
+			p = isl_printer_end_line(p);
+			p = isl_printer_start_line(p);
+			if (!p)
+				return NULL;
 			p = p->ops->print_str(p, "- ");
 			p = isl_printer_indent(p, 2);
 		}
@@ -608,9 +610,11 @@ static __isl_give isl_printer *enter_state(__isl_take isl_printer *p,
 		if (p->yaml_style == ISL_YAML_STYLE_FLOW)
 			p = p->ops->print_str(p, ", ");
 		else {
-			p = p->ops->end_line(p);
+			p = isl_printer_end_line(p);
 			p = isl_printer_indent(p, -2);
-			p = p->ops->start_line(p);
+			p = isl_printer_start_line(p);
+			if (!p)
+				return NULL;
 			p = p->ops->print_str(p, "- ");
 			p = isl_printer_indent(p, 2);
 		}
-- 
2.43.0


From db7dc608358aaa59de721992d9e6f310077638d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:10 +0000
Subject: [PATCH 092/101] fix: isl_printer_yaml_start_mapping: handle failure
 of printer operations

---
 isl_printer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/isl_printer.c b/isl_printer.c
index b93a924..5bb2fe0 100644
--- a/isl_printer.c
+++ b/isl_printer.c
@@ -728,9 +728,9 @@ __isl_give isl_printer *isl_printer_yaml_start_mapping(
 	if (p->yaml_style == ISL_YAML_STYLE_FLOW)
 		p = p->ops->print_str(p, "{ ");
 	else if (state != isl_yaml_none && state != isl_yaml_sequence) {
-		p = p->ops->end_line(p);
+		p = isl_printer_end_line(p);
 		p = isl_printer_indent(p, 2);
-		p = p->ops->start_line(p);
+		p = isl_printer_start_line(p);
 	}
 	p = push_state(p, isl_yaml_mapping_first_key_start);
 	return p;
-- 
2.43.0


From 9caac246befab496d5d3ac5caeb9bf74b7c1b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:11 +0000
Subject: [PATCH 093/101] fix: isl_space_reverse: handle failure to set
 identifiers

---
 isl_space.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_space.c b/isl_space.c
index 98093f5..753e0ca 100644
--- a/isl_space.c
+++ b/isl_space.c
@@ -2006,6 +2006,8 @@ __isl_give isl_space *isl_space_reverse(__isl_take isl_space *space)
 
 	if (space->ids) {
 		space = set_ids(space, isl_dim_out, 0, space->n_out, ids);
+		if (!space)
+			goto error;
 		space = set_ids(space, isl_dim_in, 0, space->n_in,
 				ids + space->n_out);
 		free(ids);
-- 
2.43.0


From 64a79e23754867d72266c01d0c62734ac863b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:11 +0000
Subject: [PATCH 094/101] fix: variable_new: handle failure to copy name

---
 isl_input.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_input.c b/isl_input.c
index 8115c34..bc44cca 100644
--- a/isl_input.c
+++ b/isl_input.c
@@ -102,6 +102,10 @@ static struct variable *variable_new(struct vars *v, const char *name, int len,
 	if (!var)
 		goto error;
 	var->name = strdup(name);
+	if (!var->name) {
+		free(var);
+		goto error;
+	}
 	var->name[len] = '\0';
 	var->pos = pos;
 	var->next = v->v;
-- 
2.43.0


From e2de94034c0b1523fe2e7aad41a602fe82a1b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:33 +0000
Subject: [PATCH 095/101] fix: sort_divs: handle failure to modify integer
 divisions

---
 isl_polynomial.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index 45c598f..d33a3cf 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -1540,6 +1540,8 @@ static __isl_give isl_qpolynomial *sort_divs(__isl_take isl_qpolynomial *qp)
 		if (pos[array[i].row] == i)
 			continue;
 		qp->div = isl_mat_swap_rows(qp->div, i, pos[array[i].row]);
+		if (!qp->div)
+			goto error;
 		pos[at[i]] = pos[array[i].row];
 		at[pos[array[i].row]] = at[i];
 		at[i] = array[i].row;
@@ -1556,6 +1558,8 @@ static __isl_give isl_qpolynomial *sort_divs(__isl_take isl_qpolynomial *qp)
 						 2 + div_pos + i - skip);
 			qp->div = isl_mat_drop_cols(qp->div,
 						    2 + div_pos + i - skip, 1);
+			if (!qp->div)
+				goto error;
 			skip++;
 		}
 		reordering[div_pos + array[i].row] = div_pos + i - skip;
-- 
2.43.0


From 86720e2b47140bafc5caea867400a0c99e8c14d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:33 +0000
Subject: [PATCH 096/101] fix: build_ast_from_schedule_node: handle NULL build

---
 isl_ast_codegen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/isl_ast_codegen.c b/isl_ast_codegen.c
index dab217e..1ed7db5 100644
--- a/isl_ast_codegen.c
+++ b/isl_ast_codegen.c
@@ -5793,6 +5793,9 @@ static __isl_give isl_ast_graft_list *build_ast_from_schedule_node(
 {
 	enum isl_schedule_node_type type;
 
+	if (!build)
+		goto error;
+
 	type = isl_schedule_node_get_type(node);
 
 	switch (type) {
-- 
2.43.0


From 982b4215a088cd88180397e75c3f08db823243e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:09 +0000
Subject: [PATCH 097/101] fix: compute_chambers: free basic set on failure to
 freeze constraint

---
 isl_vertices.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/isl_vertices.c b/isl_vertices.c
index 1585bc7..cbc06dc 100644
--- a/isl_vertices.c
+++ b/isl_vertices.c
@@ -949,7 +949,7 @@ static __isl_give isl_vertices *compute_chambers(__isl_take isl_basic_set *bset,
 	for (i = 0; i < bset->n_ineq; ++i)
 		if (isl_tab_freeze_constraint(tab, i) < 0)
 			goto error;
-	isl_basic_set_free(bset);
+	bset = isl_basic_set_free(bset);
 
 	snap = isl_tab_snap(tab);
 
@@ -1034,8 +1034,7 @@ error:
 	isl_vec_free(sample);
 	isl_tab_free(tab);
 	free(selection);
-	if (!tab)
-		isl_basic_set_free(bset);
+	isl_basic_set_free(bset);
 	isl_vertices_free(vertices);
 	return NULL;
 }
-- 
2.43.0


From 2421b24c55d4164e9127ef573500cd1fc4baae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:09 +0000
Subject: [PATCH 098/101] fix: subtree_schedule_extend: free schedule on
 unexpected leaf

---
 isl_schedule_tree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/isl_schedule_tree.c b/isl_schedule_tree.c
index 12c71e9..4a0cc45 100644
--- a/isl_schedule_tree.c
+++ b/isl_schedule_tree.c
@@ -1882,7 +1882,8 @@ static __isl_give isl_union_map *subtree_schedule_extend(
 		break;
 	case isl_schedule_node_leaf:
 		isl_die(isl_schedule_tree_get_ctx(tree), isl_error_internal,
-			"leaf node should be handled by caller", return NULL);
+			"leaf node should be handled by caller",
+			return isl_union_map_free(outer));
 	case isl_schedule_node_set:
 	case isl_schedule_node_sequence:
 		umap = subtree_schedule_extend_from_children(tree, outer);
-- 
2.43.0


From e199c045dd4e8c3c76bb16d4b704d91aaadc4e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:28 +0000
Subject: [PATCH 099/101] fix: print_constraints: handle failure of
 can_print_div_expr

---
 isl_output.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/isl_output.c b/isl_output.c
index a972670..81c7116 100644
--- a/isl_output.c
+++ b/isl_output.c
@@ -830,10 +830,13 @@ static __isl_give isl_printer *print_constraints(__isl_keep isl_basic_map *bmap,
 		const char *op;
 		if (l < 0)
 			continue;
-		if (!dump && l >= o_div &&
-		    can_print_div_expr(p, div, l - o_div)) {
+		if (!dump && l >= o_div) {
 			isl_bool is_div;
-			is_div = isl_basic_map_is_div_constraint(bmap,
+			is_div = can_print_div_expr(p, div, l - o_div);
+			if (is_div < 0)
+				goto error;
+			if (is_div)
+				is_div = isl_basic_map_is_div_constraint(bmap,
 						    bmap->ineq[i], l - o_div);
 			if (is_div < 0)
 				goto error;
-- 
2.43.0


From ee8598ef77cf689894e65f1d0c926653b44e30b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:36 +0000
Subject: [PATCH 100/101] fix: remove_redundant_divs: keep all integer
 divisions that are used

The loop that marks the integer divisions referenced by an active
integer division stopped at the first one, such that any others
were removed together with the terms in which they appear.
---
 isl_polynomial.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/isl_polynomial.c b/isl_polynomial.c
index d33a3cf..f48b23f 100644
--- a/isl_polynomial.c
+++ b/isl_polynomial.c
@@ -2800,7 +2800,6 @@ static __isl_give isl_qpolynomial *remove_redundant_divs(
 			if (isl_int_is_zero(qp->div->row[i][2 + div_pos + j]))
 				continue;
 			active[div_pos + j] = 1;
-			break;
 		}
 	}
 
-- 
2.43.0


From e660ab516d11e0639aef731467063ab02552b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:00 +0000
Subject: [PATCH 101/101] fix: basic_guarded_poly_bound: handle failure to
 allocate signs

---
 isl_range.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/isl_range.c b/isl_range.c
index 3dc09d9..19c6609 100644
--- a/isl_range.c
+++ b/isl_range.c
@@ -489,6 +489,8 @@ static isl_stat basic_guarded_poly_bound(__isl_take isl_basic_set *bset,
 
 	ctx = isl_basic_set_get_ctx(bset);
 	data->signs = isl_alloc_array(ctx, int, total);
+	if (total && !data->signs)
+		goto error;
 
 	if (isl_basic_set_dims_get_sign(bset, isl_dim_set, 0, dim,
 					data->signs + nparam) < 0)
-- 
2.43.0

