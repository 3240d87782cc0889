From 9d9358460b06b739c285d402f7855e78ee64c4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 01/13] fix: measure block comments in bytes, not characters

A block comment with a multi-byte character got a token that ends inside the comment
(or inside the character, which panics when the token text is sliced).
---
 crates/syntax/src/parse/lexer/move_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/lexer/move_model.rs b/crates/syntax/src/parse/lexer/move_model.rs
index 813a552..f1a8857 100644
--- a/crates/syntax/src/parse/lexer/move_model.rs
+++ b/crates/syntax/src/parse/lexer/move_model.rs
@@ -541,7 +541,7 @@ fn get_block_comment_len(text: &str) -> usize {
             pos += 2;
             continue;
         }
-        pos += 1;
+        pos += curr.len_utf8();
     }
 
     2 + pos
-- 
2.43.0


From 1a26f9cc6b3631636f3f11d032536b1955777554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 02/13] fix: do not panic on a module header with an invalid
 address

`any_address()` reports the error without consuming the token, so `::` is not the current
token and `bump()` panics: `module 'a::m {}`.
---
 crates/syntax/src/parse/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/syntax/src/parse/grammar.rs b/crates/syntax/src/parse/grammar.rs
index 6178d03..7813209 100644
--- a/crates/syntax/src/parse/grammar.rs
+++ b/crates/syntax/src/parse/grammar.rs
@@ -86,7 +86,7 @@ pub(crate) fn module(p: &mut Parser, m: Marker) {
     if p.nth_at(1, T![::]) {
         // named address
         any_address(p);
-        p.bump(T![::]);
+        p.expect(T![::]);
     }
     name_or_recover(p, TOP_LEVEL_FIRST.into());
 
@@ -148,7 +148,7 @@ pub(crate) fn module_name(p: &mut Parser) {
     if p.nth_at(1, T![::]) {
         // named address
         any_address(p);
-        p.bump(T![::]);
+        p.expect(T![::]);
     }
     name_or_recover(p, TOP_LEVEL_FIRST.into());
 }
-- 
2.43.0


From dcf9da0ae831b313a55c26f6ca5c07f45af3ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 03/13] fix: merge an insertion into an edit that replaces the
 text right after it

---
 crates/ide-db/src/text_edit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ide-db/src/text_edit.rs b/crates/ide-db/src/text_edit.rs
index 8f4d303..056c8d4 100644
--- a/crates/ide-db/src/text_edit.rs
+++ b/crates/ide-db/src/text_edit.rs
@@ -125,7 +125,9 @@ impl TextEdit {
     pub fn union(&mut self, other: TextEdit) -> Result<(), TextEdit> {
         let iter_merge = self
             .iter()
-            .merge_by(other.iter(), |l, r| l.range.start() <= r.range.start());
+            .merge_by(other.iter(), |l, r| {
+                (l.range.start(), l.range.end()) <= (r.range.start(), r.range.end())
+            });
         if !check_disjoint(&mut iter_merge.clone()) {
             return Err(other);
         }
-- 
2.43.0


From a07fbfb3cd5905eec9a7e6f6d37d13c514d28fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 04/13] fix: apply a text change that was added twice only once

---
 crates/ide-db/src/text_edit.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ide-db/src/text_edit.rs b/crates/ide-db/src/text_edit.rs
index 056c8d4..9a198f7 100644
--- a/crates/ide-db/src/text_edit.rs
+++ b/crates/ide-db/src/text_edit.rs
@@ -190,6 +190,8 @@ impl TextEditBuilder {
     pub fn finish(self) -> TextEdit {
         let mut changes = self.text_changes;
         assert_disjoint_or_equal(&mut changes);
+        // equal changes are the same change, it has to be applied only once (see `union`)
+        changes.dedup_by(|a, b| a == b && !a.range.is_empty());
         changes = coalesce_text_changes(changes);
         TextEdit { changes }
     }
-- 
2.43.0


From 19562ed7f0e3c8dc08e0f7b3af3e4b14ba96aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 05/13] fix: do not panic on `apply` without lemma arguments

`value_arg_list()` asserted that it is at `(`, but the lemma of an unfinished
`apply` has no arguments yet: `module 1::m{{}spec e proof{apply`.
---
 crates/syntax/src/parse/grammar/expressions.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/parse/grammar/expressions.rs b/crates/syntax/src/parse/grammar/expressions.rs
index 61c8a07..4d6af2f 100644
--- a/crates/syntax/src/parse/grammar/expressions.rs
+++ b/crates/syntax/src/parse/grammar/expressions.rs
@@ -301,7 +301,10 @@ fn index_expr(p: &mut Parser, lhs: CompletedMarker) -> CompletedMarker {
 }
 
 pub(crate) fn value_arg_list(p: &mut Parser) {
-    assert!(p.at(T!['(']));
+    if !p.at(T!['(']) {
+        p.error("expected '('");
+        return;
+    }
     let m = p.start();
     p.bump(T!['(']);
     delimited_with_recovery(
-- 
2.43.0


From ab1a42bf492227ce956c207f3caca0407f7aa488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 06/13] fix: keep the line index in step when a document change
 is ignored

An ignored change (its end precedes its start) still moved `index_valid`, so
that the next change could be placed with an index of an older text.
---
 crates/aptos-language-server/src/lsp/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aptos-language-server/src/lsp/utils.rs b/crates/aptos-language-server/src/lsp/utils.rs
index c8d1489..9cf4ebd 100644
--- a/crates/aptos-language-server/src/lsp/utils.rs
+++ b/crates/aptos-language-server/src/lsp/utils.rs
@@ -234,9 +234,9 @@ pub(crate) fn apply_document_changes(
         if index_valid <= change.range.end.line {
             *Arc::make_mut(&mut line_index.index) = line_index::LineIndex::new(&text);
         }
-        index_valid = change.range.start.line;
         if let Ok(range) = from_proto::text_range(&line_index, change.range) {
             text.replace_range(Range::<usize>::from(range), &change.text);
+            index_valid = change.range.start.line;
         }
     }
     text
-- 
2.43.0


From 8e9e3f11663ac7fd7db9364f16e81282a49501a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 07/13] fix: do not look up the package of a removed file when
 applying file changes

---
 crates/base-db/src/change.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/base-db/src/change.rs b/crates/base-db/src/change.rs
index 3713b1a..2574b78 100644
--- a/crates/base-db/src/change.rs
+++ b/crates/base-db/src/change.rs
@@ -80,9 +80,11 @@ impl FileChanges {
 
         let is_replacing_package_roots = self.package_roots.is_some();
         for (file_id, text) in self.files_changed {
+            // a removed file belongs to no package anymore
+            let is_removed = text.is_none();
             let text = text.unwrap_or_default();
             // only use durability if roots are explicitly provided
-            if is_replacing_package_roots {
+            if is_replacing_package_roots && !is_removed {
                 let package_id = db.file_package_id(file_id);
                 let package_root = db.package_root(package_id).data(db);
                 let durability = file_text_durability(&package_root);
-- 
2.43.0


From 31d6cb1170af9cd4b54adbda68dff0f6e44f8d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 08/13] fix: do not overwrite known type variables when the
 other type is unknown

---
 crates/lang/src/types/inference/combine_types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/types/inference/combine_types.rs b/crates/lang/src/types/inference/combine_types.rs
index ff5f57f..1bd3a8f 100644
--- a/crates/lang/src/types/inference/combine_types.rs
+++ b/crates/lang/src/types/inference/combine_types.rs
@@ -151,7 +151,10 @@ impl InferenceCtx<'_> {
             });
         }
         for ty_var in ty_vars.into_inner() {
-            let _ = self.unify_ty_var(&ty_var, Ty::Unknown);
+            // variable which is already known keeps its type
+            if self.var_table.resolve_to_ty_value(&ty_var).is_none() {
+                let _ = self.unify_ty_var(&ty_var, Ty::Unknown);
+            }
         }
     }
 
-- 
2.43.0


From 4739001094779da7b3382e2e06b86a0e4d495d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:33 +0000
Subject: [PATCH 09/13] fix: find cyclic types behind known type variables

---
 crates/lang/src/types/inference/combine_types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/lang/src/types/inference/combine_types.rs b/crates/lang/src/types/inference/combine_types.rs
index 1bd3a8f..b55e0b7 100644
--- a/crates/lang/src/types/inference/combine_types.rs
+++ b/crates/lang/src/types/inference/combine_types.rs
@@ -200,6 +200,8 @@ impl InferenceCtx<'_> {
     }
 
     fn ty_contains_ty_var(&self, ty: &Ty, ty_var: &TyVar) -> bool {
+        // inner variables could already be unified with types that contain the `ty_var`
+        let ty = self.resolve_ty_vars_if_possible(ty.to_owned());
         ty.deep_visit_ty_infers(|ty_infer| match ty_infer {
             TyInfer::Var(inner_ty_var) => &self.var_table.resolve_to_root_var(&inner_ty_var) == ty_var,
             _ => false,
-- 
2.43.0


From c086e4683440fea98f23cd4754f3cbefdfd214b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:58 +0000
Subject: [PATCH 10/13] fix: count the tokens of a glued token in usize

A wildcard identifier in an apply pattern may be made of any number of raw
tokens: with more than 255 of them, counting them in a u8 panicked (or, with
overflow checks off, wrapped and lost tokens).
---
 crates/syntax/src/parse/event.rs          | 2 +-
 crates/syntax/src/parse/parser.rs         | 4 ++--
 crates/syntax/src/parse/text_tree_sink.rs | 3 +--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/syntax/src/parse/event.rs b/crates/syntax/src/parse/event.rs
index bfe932a..73eed54 100644
--- a/crates/syntax/src/parse/event.rs
+++ b/crates/syntax/src/parse/event.rs
@@ -76,7 +76,7 @@ pub(crate) enum Event {
     /// `n_raw_tokens = 2` is used to produced a single `>>`.
     Token {
         kind: SyntaxKind,
-        n_raw_tokens: u8,
+        n_raw_tokens: usize,
     },
 
     Error {
diff --git a/crates/syntax/src/parse/parser.rs b/crates/syntax/src/parse/parser.rs
index bca1501..dfafca3 100644
--- a/crates/syntax/src/parse/parser.rs
+++ b/crates/syntax/src/parse/parser.rs
@@ -385,7 +385,7 @@ impl Parser {
         self.do_bump(kind, 1);
     }
 
-    pub(crate) fn bump_remap_many(&mut self, kind: SyntaxKind, n_tokens: u8) {
+    pub(crate) fn bump_remap_many(&mut self, kind: SyntaxKind, n_tokens: usize) {
         if self.nth(0) == EOF {
             // FIXME: panic!?
             return;
@@ -448,7 +448,7 @@ impl Parser {
         m.complete(self, ERROR);
     }
 
-    fn do_bump(&mut self, kind: SyntaxKind, n_raw_tokens: u8) {
+    fn do_bump(&mut self, kind: SyntaxKind, n_raw_tokens: usize) {
         for _ in 0..n_raw_tokens {
             self.token_source.bump();
         }
diff --git a/crates/syntax/src/parse/text_tree_sink.rs b/crates/syntax/src/parse/text_tree_sink.rs
index 65d79fb..34cb22d 100644
--- a/crates/syntax/src/parse/text_tree_sink.rs
+++ b/crates/syntax/src/parse/text_tree_sink.rs
@@ -38,14 +38,13 @@ enum State {
 
 impl<'a> TextTreeSink<'a> {
     /// Adds new token to the current branch.
-    pub(crate) fn token(&mut self, kind: SyntaxKind, n_tokens: u8) {
+    pub(crate) fn token(&mut self, kind: SyntaxKind, n_tokens: usize) {
         match mem::replace(&mut self.state, State::Normal) {
             State::PendingStart => unreachable!(),
             State::PendingFinish => self.tree_builder.finish_node(),
             State::Normal => (),
         }
         self.eat_trivias();
-        let n_tokens = n_tokens as usize;
         let len = self.tokens[self.token_pos..self.token_pos + n_tokens]
             .iter()
             .map(|it| it.len)
-- 
2.43.0


From fabd5978476f47ca0adb68f8352bf9a04807c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:52 +0000
Subject: [PATCH 11/13] fix: compare hexadecimal addresses by value

The digits of an address may be written in either case and with `_`
separators; `0xCAFE::m` did not resolve to a module at `0xcafe`.
---
 crates/lang/src/nameres/address.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/nameres/address.rs b/crates/lang/src/nameres/address.rs
index c73c944..58185b4 100644
--- a/crates/lang/src/nameres/address.rs
+++ b/crates/lang/src/nameres/address.rs
@@ -146,7 +146,9 @@ impl NumericAddress {
         } else {
             &text[1..]
         };
-        let mut trimmed_address = trimmed.trim_start_matches("0");
+        // `_` separators and the case of the digits do not change the value
+        let digits = trimmed.replace('_', "").to_ascii_lowercase();
+        let mut trimmed_address = digits.trim_start_matches("0");
         if trimmed_address.is_empty() {
             trimmed_address = "0";
         }
-- 
2.43.0


From f12d0b8ac7d1b74796fe3c14125750a2d41df85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:03 +0000
Subject: [PATCH 12/13] fix: keep resolved dependencies of a package that is
 also discovered without them

With the aptos-core layout, packages outside of the framework directories are
discovered with resolve_deps == false. Such a manifest could replace the entry of
the same manifest reached as a dependency of another package, depending on the
order, and its dependencies were lost for every package which depends on it.
---
 crates/project-model/src/aptos_package/load_from_fs.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/project-model/src/aptos_package/load_from_fs.rs b/crates/project-model/src/aptos_package/load_from_fs.rs
index 1d4a5a0..c5527e4 100644
--- a/crates/project-model/src/aptos_package/load_from_fs.rs
+++ b/crates/project-model/src/aptos_package/load_from_fs.rs
@@ -82,7 +82,13 @@ pub fn load_aptos_packages(ws_manifests: Vec<DiscoveredManifest>) -> LoadedPacka
     let mut all_reachable_manifests = HashMap::new();
     for ws_manifest in ws_manifests.clone() {
         let reachable_manifests = collect_reachable_manifests(&ws_manifest);
-        all_reachable_manifests.extend(reachable_manifests);
+        for (manifest_path, manifest_entry) in reachable_manifests {
+            // dependency of another package, do not replace the entry with resolved dependencies
+            if !ws_manifest.resolve_deps && all_reachable_manifests.contains_key(&manifest_path) {
+                continue;
+            }
+            all_reachable_manifests.insert(manifest_path, manifest_entry);
+        }
     }
 
     let valid_manifests = all_reachable_manifests
-- 
2.43.0


From 045d77cd5d41dfd6857e446ccf541ff58db33229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:01 +0000
Subject: [PATCH 13/13] fix: do not underflow on tuple patterns with more
 patterns than types after ..

---
 crates/lang/src/types/patterns.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/lang/src/types/patterns.rs b/crates/lang/src/types/patterns.rs
index 2f79bb7..e4a7c7a 100644
--- a/crates/lang/src/types/patterns.rs
+++ b/crates/lang/src/types/patterns.rs
@@ -275,7 +275,11 @@ impl TypeAstWalker<'_, '_> {
             let pat_ty = if indx < first_rest_indx {
                 get_type(indx as usize)
             } else if indx > last_rest_indx {
-                get_type(tuple_size - (pats_len - (indx as usize)))
+                // counted from the end, there can be more patterns than types
+                match (tuple_size + indx as usize).checked_sub(pats_len) {
+                    Some(type_indx) => get_type(type_indx),
+                    None => Ty::Unknown,
+                }
             } else {
                 Ty::Unknown
             };
-- 
2.43.0

