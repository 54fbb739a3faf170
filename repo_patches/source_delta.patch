From efb293652f53ba2b9a79b83e26799eb4188571c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 01/12] fix: FOLLOW must include FIRST of every symbol
 reachable through nullable ones

---
 packages/teleparse/src/syntax/follow/builder.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/packages/teleparse/src/syntax/follow/builder.rs b/packages/teleparse/src/syntax/follow/builder.rs
index 3325f38..3cf336b 100644
--- a/packages/teleparse/src/syntax/follow/builder.rs
+++ b/packages/teleparse/src/syntax/follow/builder.rs
@@ -65,10 +65,16 @@ impl<'a, L: Lexicon> FollowBuilder<'a, L> {
             ));
             set.insert(*yi);
         }
-        for yi in sequence.windows(2).rev() {
-            // for X -> Y1 Y2 ... Yi Yi+1 ... Yn
-            // FOLLOW(Yi) = FOLLOW(Yi) U (FIRST(Yi+1) - { epsilon })
-            self.add(FollowRel::union_first_minus_epsilon(yi[0], yi[1]));
+        for (i, yi) in sequence.iter().enumerate().rev() {
+            // for X -> Y1 Y2 ... Yi Yi+1 ... Yj ... Yn
+            // if Yi+1 ... Yj-1 can all produce epsilon,
+            // FOLLOW(Yi) = FOLLOW(Yi) U (FIRST(Yj) - { epsilon })
+            for yj in &sequence[i + 1..] {
+                self.add(FollowRel::union_first_minus_epsilon(*yi, *yj));
+                if !self.first.get(yj).contains_epsilon() {
+                    break;
+                }
+            }
         }
     }
 
-- 
2.43.0


From f6ebdd59f2e612c62f975ead727d5bb6b93ed7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 02/12] fix: clearing the universal literal set must leave it
 empty

---
 packages/teleparse/src/syntax/lit_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/teleparse/src/syntax/lit_set.rs b/packages/teleparse/src/syntax/lit_set.rs
index 299dbda..d1a482b 100644
--- a/packages/teleparse/src/syntax/lit_set.rs
+++ b/packages/teleparse/src/syntax/lit_set.rs
@@ -49,7 +49,7 @@ impl LitSet {
     pub fn clear(&mut self) {
         match self {
             Self::Match(set) => set.clear(),
-            Self::Any => {}
+            Self::Any => *self = Self::new(),
         }
     }
 
-- 
2.43.0


From cdd6972f3472f8ce13fa57cf551a34663019f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 03/12] fix: select the nullable variant when the next token is
 not in FIRST

---
 packages/teleparse/src/syntax/jump.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/teleparse/src/syntax/jump.rs b/packages/teleparse/src/syntax/jump.rs
index 1005ace..630ae0d 100644
--- a/packages/teleparse/src/syntax/jump.rs
+++ b/packages/teleparse/src/syntax/jump.rs
@@ -115,13 +115,15 @@ impl<L: Lexicon> JumpTable<L> {
     }
 
     /// Look up the parsing table entry for a token
+    ///
+    /// If no entry is registered for the token, this falls back to the entry for epsilon
     #[inline]
     pub fn look_up_token(&self, token: &TokenSrc<L>) -> Option<usize> {
         let entry = self.map.get(token.ty);
 
         match entry.1.get(token.src).copied() {
             Some(value) => Some(value),
-            None => entry.0,
+            None => entry.0.or(self.epsilon),
         }
     }
 
-- 
2.43.0


From 9fd3af3448c7bb069ba92753686fdcbf8b33e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 04/12] fix: Recover must report an error when the tail is
 missing at the end of input

---
 packages/teleparse/src/tp_impl/recover.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/teleparse/src/tp_impl/recover.rs b/packages/teleparse/src/tp_impl/recover.rs
index 850fac1..c6a6aaf 100644
--- a/packages/teleparse/src/tp_impl/recover.rs
+++ b/packages/teleparse/src/tp_impl/recover.rs
@@ -75,6 +75,9 @@ where
                         }
                     };
                 }
+                if panic.is_none() {
+                    panic = Some(parser.expecting(tail_first.clone()));
+                }
                 break None;
             }
             if tail_first.contains(token) || tail_first.contains_epsilon() {
-- 
2.43.0


From ad9284064249ab1676e17671467e9a64e5dfa6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 05/12] fix: Split must continue when the delimiter produces
 epsilon

---
 packages/teleparse/src/tp_impl/split.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/teleparse/src/tp_impl/split.rs b/packages/teleparse/src/tp_impl/split.rs
index 90f543a..3a71897 100644
--- a/packages/teleparse/src/tp_impl/split.rs
+++ b/packages/teleparse/src/tp_impl/split.rs
@@ -98,7 +98,9 @@ where
             if token.is_none() {
                 break;
             }
-            if !punct_first.contains(token) {
+            if !punct_first.contains(token)
+                && !(punct_first.contains_epsilon() && elem_first.contains(token))
+            {
                 break;
             }
             // expecting P
-- 
2.43.0


From 090b48aa3956a6eb40d0ecbbc8e6a7bb5bc24850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:13 +0000
Subject: [PATCH 06/12] fix: report left recursion that causes no FIRST/FOLLOW
 conflict

---
 packages/teleparse/src/syntax/metadata.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/packages/teleparse/src/syntax/metadata.rs b/packages/teleparse/src/syntax/metadata.rs
index d81bf19..b5b4cf2 100644
--- a/packages/teleparse/src/syntax/metadata.rs
+++ b/packages/teleparse/src/syntax/metadata.rs
@@ -57,11 +57,6 @@ impl<L: Lexicon> MetadataBuilder<L> {
         let prods = self.productions;
         let first = self.first_builder.build();
         let mut seen = BTreeSet::new();
-        let mut set = BTreeSet::new();
-        let mut stack = Vec::new();
-        check_left_recursive(
-            &names, &prods, root, &mut seen, &mut set, &mut stack, &first,
-        )?;
         let mut follow_builder = FollowBuilder::new(&first);
         for (t, prod) in &prods {
             match prod {
@@ -75,8 +70,15 @@ impl<L: Lexicon> MetadataBuilder<L> {
             }
         }
         let follow = follow_builder.build(root);
-        seen.clear();
         check_conflicts(&names, &prods, root, &mut seen, &first, &follow)?;
+        // most left-recursive grammars are reported as conflicts above,
+        // but the ones that cannot produce any sentence have no conflict
+        seen.clear();
+        let mut set = BTreeSet::new();
+        let mut stack = Vec::new();
+        check_left_recursive(
+            &names, &prods, root, &mut seen, &mut set, &mut stack, &first,
+        )?;
         let mut jump = Jump::new();
         seen.clear();
         build_jump(&prods, root, &mut seen, &first, &mut jump);
@@ -97,10 +99,7 @@ fn check_left_recursive<L: Lexicon>(
     stack: &mut Vec<TypeId>,
     first: &First<L>,
 ) -> Result<(), GrammarError> {
-    if !seen.insert(t) {
-        return Ok(());
-    }
-    if !set.insert(t) {
+    if set.contains(&t) {
         let stack = stack
             .iter()
             .map(|t| names.get(t).map(|x| x.as_str()).unwrap_or_default())
@@ -108,6 +107,10 @@ fn check_left_recursive<L: Lexicon>(
         let current = names.get(&t).map(|x| x.as_str()).unwrap_or_default();
         return Err(GrammarError::left_recursion(&stack, current));
     }
+    if !seen.insert(t) {
+        return Ok(());
+    }
+    set.insert(t);
     match prods.get(&t) {
         None => {
             set.remove(&t);
-- 
2.43.0


From cee5f04f3a5b5e522bd335b658449bd71664d95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 07/12] fix: FIRST/FOLLOW conflict in a sequence must name the
 production that can be empty

---
 packages/teleparse/src/syntax/metadata.rs | 45 ++++++++++-------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/packages/teleparse/src/syntax/metadata.rs b/packages/teleparse/src/syntax/metadata.rs
index b5b4cf2..13bb959 100644
--- a/packages/teleparse/src/syntax/metadata.rs
+++ b/packages/teleparse/src/syntax/metadata.rs
@@ -240,36 +240,29 @@ fn check_conflicts<L: Lexicon>(
             }
         }
         Some(ProductionEntry::Sequence(types)) => {
-            let mut iter = types.iter();
-            let mut cur = match iter.next() {
-                Some(inner) => inner,
-                None => return Ok(()),
-            };
-            let cur_first = first.get(cur);
-            let mut cur_check = if cur_first.contains_epsilon() {
-                cur_first.clone()
-            } else {
-                FirstSet::new()
-            };
-            for inner in iter {
+            // the run of consecutive productions before the current one that can be empty
+            let mut nullable_run: Vec<&TypeId> = Vec::new();
+            for inner in types.iter() {
                 let next_first = first.get(inner);
-                if cur_check.intersects_minus_epsilon(next_first) {
-                    let cur_name = names.get(cur).cloned().unwrap_or_default();
-                    let next_name = names.get(inner).cloned().unwrap_or_default();
-                    let self_name = names.get(&t).cloned().unwrap_or_default();
-                    let terminals = cur_check
-                        .intersection_repr_minus_epsilon(next_first)
-                        .into_iter()
-                        .join(", ");
-                    return Err(GrammarError::FirstFollowSeqConflict(
-                        self_name, cur_name, next_name, terminals,
-                    ));
+                for cur in &nullable_run {
+                    let cur_first = first.get(cur);
+                    if cur_first.intersects_minus_epsilon(next_first) {
+                        let cur_name = names.get(*cur).cloned().unwrap_or_default();
+                        let next_name = names.get(inner).cloned().unwrap_or_default();
+                        let self_name = names.get(&t).cloned().unwrap_or_default();
+                        let terminals = cur_first
+                            .intersection_repr_minus_epsilon(next_first)
+                            .into_iter()
+                            .join(", ");
+                        return Err(GrammarError::FirstFollowSeqConflict(
+                            self_name, cur_name, next_name, terminals,
+                        ));
+                    }
                 }
                 if next_first.contains_epsilon() {
-                    cur_check.union_minus_epsilon(next_first);
+                    nullable_run.push(inner);
                 } else {
-                    cur_check.clear();
-                    cur = inner;
+                    nullable_run.clear();
                 }
             }
             check_self_first_follow_conflict(names, t, first, follow)?;
-- 
2.43.0


From c32c35cfac4f8c5b0679bd855c56891ae5f61944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 08/12] fix: Recover must not skip a token that can start
 another tail

---
 packages/teleparse/src/tp_impl/recover.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/teleparse/src/tp_impl/recover.rs b/packages/teleparse/src/tp_impl/recover.rs
index c6a6aaf..c510c09 100644
--- a/packages/teleparse/src/tp_impl/recover.rs
+++ b/packages/teleparse/src/tp_impl/recover.rs
@@ -81,6 +81,7 @@ where
                 break None;
             }
             if tail_first.contains(token) || tail_first.contains_epsilon() {
+                let lo_before = parser.current_span().lo;
                 match R::produce(parser, meta) {
                     SynResult::Success(x) => break Some(x),
                     SynResult::Recovered(x, e) => {
@@ -97,6 +98,10 @@ where
                         }
                     }
                 }
+                // the next token might be the start of another tail
+                if parser.current_span().lo != lo_before {
+                    continue;
+                }
             }
             if let Some(p) = &mut panic {
                 p.span.hi = parser.current_span().hi;
-- 
2.43.0


From 705920d9c6e917e571e834c9a15a040f2b682e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 09/12] fix: Split and Punct must not skip a token that can
 start another item

---
 packages/teleparse/src/tp_impl/punct.rs | 5 +++++
 packages/teleparse/src/tp_impl/split.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/packages/teleparse/src/tp_impl/punct.rs b/packages/teleparse/src/tp_impl/punct.rs
index 613493d..302b8eb 100644
--- a/packages/teleparse/src/tp_impl/punct.rs
+++ b/packages/teleparse/src/tp_impl/punct.rs
@@ -138,6 +138,7 @@ where
             loop {
                 // expecting (Punct<T, P>)?
                 let token = parser.peek_token_src();
+                let lo_before = parser.current_span().lo;
                 if token.is_none() {
                     if let Some(e) = panic {
                         errors.push(e);
@@ -207,6 +208,10 @@ where
                     }
                     break 'outer;
                 }
+                if elem_first.contains(token) && parser.current_span().lo != lo_before {
+                    // the failed item was skipped, and the next item starts here
+                    continue;
+                }
                 parser.consume_token();
             }
         }
diff --git a/packages/teleparse/src/tp_impl/split.rs b/packages/teleparse/src/tp_impl/split.rs
index 3a71897..4fe3805 100644
--- a/packages/teleparse/src/tp_impl/split.rs
+++ b/packages/teleparse/src/tp_impl/split.rs
@@ -119,6 +119,7 @@ where
             let mut panic: Option<syntax::Error<<Self::Prod as Production>::L>> = None;
             loop {
                 let mut token = parser.peek_token_src();
+                let lo_before = parser.current_span().lo;
                 if elem_first.contains(token) || elem_first.contains_epsilon() {
                     match T::produce(parser, meta) {
                         SynResult::Success(t) => {
@@ -168,6 +169,10 @@ where
                     }
                     break 'outer;
                 }
+                if elem_first.contains(token) && parser.current_span().lo != lo_before {
+                    // the failed item was skipped, and the next item starts here
+                    continue;
+                }
                 parser.consume_token();
             }
         }
-- 
2.43.0


From 4221951dc5e9f8ce1b9b2219fbcd716892d4859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 10/12] fix: an empty span overlaps no token

---
 packages/teleparse/src/lex/vec.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/teleparse/src/lex/vec.rs b/packages/teleparse/src/lex/vec.rs
index ebff39a..81f0b1e 100644
--- a/packages/teleparse/src/lex/vec.rs
+++ b/packages/teleparse/src/lex/vec.rs
@@ -168,6 +168,10 @@ impl<L: Lexicon> TokenSlice<L> {
     /// `Some` is returned
     pub fn overlap_bounds<S: Into<Span>>(&self, span: S) -> Option<(usize, usize)> {
         let span = span.into();
+        if span.hi <= span.lo {
+            // an empty span has no non-empty intersection with anything
+            return None;
+        }
         let lo = match self.search_lo(span.lo) {
             Ok(i) => i, // i must be overlapping/included
             Err(i) => {
-- 
2.43.0


From d17cee3f124b2d77c72bf8860df71b13ccc5e213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 11/12] fix: a token supplied at the end of input must not lie
 after later empty nodes

With ignored text at the end of the source the supplied token was placed at the
end of the source, but an empty node parsed after it at the end of the last
consumed token, so the span of the node containing both ended before it began.
---
 packages/teleparse/src/parser/parser_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/teleparse/src/parser/parser_impl.rs b/packages/teleparse/src/parser/parser_impl.rs
index d136e45..b9757e1 100644
--- a/packages/teleparse/src/parser/parser_impl.rs
+++ b/packages/teleparse/src/parser/parser_impl.rs
@@ -138,7 +138,7 @@ impl<'s, L: Lexicon> Parser<'s, L> {
             None => {
                 if follow.contains_eof() {
                     let expecting = FirstSet::one(ty, Some(match_lit));
-                    let token = Token::new(self.current_span(), ty);
+                    let token = Token::new(self.empty_span(), ty);
                     return SynResult::Recovered(token, vec![self.expecting(expecting)]);
                 }
                 return SynResult::Panic(vec![self.unexpected_eof()]);
-- 
2.43.0


From c72b68796ff27b786dea7a1ecadb6e84baaae4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:40 +0000
Subject: [PATCH 12/12] fix: a semantic-only token type must not shift the
 rules of the types after it

---
 packages/macros/src/lexicon.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/macros/src/lexicon.rs b/packages/macros/src/lexicon.rs
index 8e27db6..fbd99b9 100644
--- a/packages/macros/src/lexicon.rs
+++ b/packages/macros/src/lexicon.rs
@@ -210,9 +210,9 @@ pub fn expand(input: &mut syn::DeriveInput) -> syn::Result<TokenStream2> {
             && regex.is_none()
         {
             // if there are no rules and no infer literals, the token is semantic only
-        } else {
-            lex_variant_idents.push(variant_ident);
+            continue;
         }
+        lex_variant_idents.push(variant_ident);
         // add the rules
         if let Some(regexes) = regex {
             if let Some(infer_literals) = infer_literals {
-- 
2.43.0

