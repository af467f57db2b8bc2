From 79ac46479a8013c342c6216a3350d5b1faafb382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 01/19] fix: search action table holes far enough to never
 alias another state

insert_action_set gave up one offset too early and fell back to appending at
the end of the table even when the previous entry (lookahead 0) would then be
picked up by the new state: 's ::= l Eq r; s ::= r; l ::= Star r; l ::= Id;
r ::= l' reduced the wrong rule at end of input.
---
 pomelo-impl/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index c5b1919..7d5aec1 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -414,7 +414,7 @@ impl ActTab {
                  ** If no holes are found, i is left at self.n_action, which means the
                  ** transaction will be appended. */
                 let mut r = self.a_action.len();
-                'ia: for i in 0..self.a_action.len() + max_lookahead {
+                'ia: for i in 0..=self.a_action.len() + max_lookahead {
                     for jla in &at2.a_lookahead {
                         let k = jla.lookahead - min_lookahead + i;
                         if let Some(Some(_)) = self.a_action.get(k) {
-- 
2.43.0


From 40c8fc6a48cf6902ca491d571b64aea798f1a0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:33 +0000
Subject: [PATCH 02/19] fix: a %nonassoc error must not lose to the reduce it
 was in conflict with

---
 pomelo-impl/src/parser/mod.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 7d5aec1..d3288e7 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1144,6 +1144,24 @@ impl Pomelo {
                     }
                 }
             }
+            /* A non-associative operator leaves an ERROR next to the REDUCE it was
+             ** in conflict with. The ERROR is the one that counts, do not let the
+             ** other one reach the tables. */
+            for i in 0..len {
+                let ap = stp.actions[i].borrow();
+                if !matches!(ap.detail, ActionDetail::Error) {
+                    continue;
+                }
+                for nap in &stp.actions[i + 1..] {
+                    let mut nap = nap.borrow_mut();
+                    if nap.look_ahead != ap.look_ahead {
+                        break;
+                    }
+                    if let ActionDetail::Reduce(x) = nap.detail {
+                        nap.detail = ActionDetail::RDResolved(x);
+                    }
+                }
+            }
         }
         self.nconflict += nconflict;
 
-- 
2.43.0


From a148381a995b1a4c2a291e38ca7245e53cd111c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 03/19] fix: a default reduction must not hide explicit tokens
 behind a wildcard reduction

---
 pomelo-impl/src/parser/mod.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index d3288e7..66ac8e8 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1256,6 +1256,7 @@ impl Pomelo {
                 let mut nbest = 0;
                 let mut rbest = None;
                 let mut uses_wildcard = false;
+                let mut wildcard_reduce = None;
                 let stp = self.the_states.get(stp);
 
                 // ignored_actions will be actions that do not participate in the compression.
@@ -1302,16 +1303,18 @@ impl Pomelo {
 
                 for (iap, ap) in stp.actions.iter().enumerate() {
                     let ap = ap.borrow();
+                    if Some(ap.look_ahead) == self.wildcard {
+                        match &ap.detail {
+                            Shift(_) => uses_wildcard = true,
+                            Reduce(rp) => wildcard_reduce = Some(*rp),
+                            _ => {}
+                        }
+                    }
                     if ignored_actions.contains(&ap.look_ahead) {
                         continue;
                     }
-                    match (&ap.detail, &self.wildcard) {
-                        (Shift(_), Some(w)) => {
-                            if ap.look_ahead == *w {
-                                uses_wildcard = true;
-                            }
-                        }
-                        (Reduce(rp), _) => {
+                    match &ap.detail {
+                        Reduce(rp) => {
                             if self.the_rules.get(rp).lhs_start {
                                 continue;
                             }
@@ -1347,12 +1350,16 @@ impl Pomelo {
 
                 /* Do not make a default if the number of rules to default
                  ** is not at least 1 or if the wildcard token is a possible
-                 ** lookahead.
+                 ** lookahead, other than for that same default rule: a token without
+                 ** an explicit action would match the wildcard before the default.
                  */
                 if nbest < 1 || uses_wildcard {
                     continue;
                 }
                 let rbest = rbest.unwrap();
+                if wildcard_reduce.is_some_and(|rp| rp != rbest) {
+                    continue;
+                }
 
                 /* Combine matching REDUCE actions into a single default */
 
-- 
2.43.0


From 98f25cf493edf1264abb8357c2c532d1b7128f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 04/19] fix: choose the offset table types by the smallest
 offset too, not only the largest

---
 pomelo-impl/src/parser/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 66ac8e8..f04bf8c 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -481,10 +481,10 @@ impl ActTab {
     }
 }
 
-fn minimum_signed_type(max: usize) -> Ident {
-    if max < 0x80 {
+fn minimum_signed_type(min: i32, max: i32) -> Ident {
+    if min >= -0x80 && max < 0x80 {
         parse_quote!(i8)
-    } else if max < 0x8000 {
+    } else if min >= -0x8000 && max < 0x8000 {
         parse_quote!(i16)
     } else {
         parse_quote!(i32)
@@ -2122,7 +2122,7 @@ impl Pomelo {
         }
 
         /* Generate the defines */
-        let yycodetype = minimum_signed_type(self.symbols.len());
+        let yycodetype = minimum_signed_type(0, self.symbols.len() as i32);
         let yyactiontype = minimum_unsigned_type(self.states.len() + self.rules.len() + 5);
         let yynocode = (self.symbols.len()) as i32;
         let yywildcard = if let Some(wildcard) = self.wildcard {
@@ -2489,7 +2489,7 @@ impl Pomelo {
         src.extend(quote!(const YY_SHIFT_COUNT: i32 = #n as i32;));
         src.extend(quote!(const YY_SHIFT_MIN: i32 = #min_tkn_ofst;));
         src.extend(quote!(const YY_SHIFT_MAX: i32 = #max_tkn_ofst;));
-        let yy_shift_ofst_type = minimum_signed_type(max_tkn_ofst as usize);
+        let yy_shift_ofst_type = minimum_signed_type(yy_shift_use_dflt, max_tkn_ofst);
         let yy_shift_ofst = self.states[0..=n]
             .iter()
             .map(|stp| {
@@ -2511,7 +2511,7 @@ impl Pomelo {
         src.extend(quote!(const YY_REDUCE_COUNT: i32 = #n as i32;));
         src.extend(quote!(const YY_REDUCE_MIN: i32 = #min_nt_ofst;));
         src.extend(quote!(const YY_REDUCE_MAX: i32 = #max_nt_ofst;));
-        let yy_reduce_ofst_type = minimum_signed_type(max_nt_ofst as usize);
+        let yy_reduce_ofst_type = minimum_signed_type(yy_reduce_use_dflt, max_nt_ofst);
         let yy_reduce_ofst = self.states[0..=n]
             .iter()
             .map(|stp| {
-- 
2.43.0


From fa13af1f1a9b57c4baa40d9f9ddaa828b49be703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:38 +0000
Subject: [PATCH 05/19] fix: reject a token that is declared as its own
 fallback

---
 pomelo-impl/src/parser/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index f04bf8c..f48d46c 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1901,6 +1901,9 @@ impl Pomelo {
                 // Check that the new fallbacks do not create a fallback-loop.
                 // That would cause a stack overflow in runtime.
                 {
+                    if syms.iter().any(|(_, s)| *s == fallback) {
+                        return error_span(fb.span(), "Fallback directive creates a loop");
+                    }
                     let mut fallback = fallback;
                     loop {
                         let fb_b = self.the_symbols.get(fallback);
-- 
2.43.0


From 4d84ea13e450c9686fe0f0f181de39cceba76ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 06/19] fix: accept a typeless start symbol when another symbol
 has type ()

---
 pomelo-impl/src/parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index f48d46c..2dcda9a 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2947,8 +2947,8 @@ impl Pomelo {
         }
         yyrules.push(quote!(_ => unreachable!("no rule to apply")));
 
-        let accept_code = match types.get(yyroottype) {
-            Some(n) => {
+        let accept_code = match start.dt_num {
+            n if n != 0 => {
                 let yyroot = Ident::new(&format!("YY{}", n), Span::call_site());
                 quote!(
                     if let YYMinorType::#yyroot(root) = yygotominor {
@@ -2959,7 +2959,7 @@ impl Pomelo {
                     }
                 )
             }
-            None => quote!(
+            _ => quote!(
                 yy.yystatus = YYStatus::Accepted(());
                 yy.yystack.clear();
             ),
-- 
2.43.0


From a31ba0dbf3ec91197527d403043780b646d64061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 07/19] fix: number the rules of optional symbols in a fixed
 order

---
 pomelo-impl/src/parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 2dcda9a..94f8cdc 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1,7 +1,7 @@
 use std::borrow::Cow;
 use std::cell::RefCell;
 use std::cmp::{self, Ordering};
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::fmt::{Display, Write};
 use std::hash::{Hash, Hasher};
 
@@ -256,7 +256,7 @@ pub struct Pomelo {
     has_fallback: bool,           //True if any %fallback is seen in the grammar
     default_type: Option<Type>,   //The %default_type
     start: Option<SymbolId>,
-    optional_tokens: HashMap<SymbolId, SymbolSpan>,
+    optional_tokens: BTreeMap<SymbolId, SymbolSpan>,
     extra_token: Option<Type>,
     stack_type: Option<Type>,
     stack_limit: usize,
@@ -544,7 +544,7 @@ impl Pomelo {
             has_fallback: false,
             default_type: None,
             start: None,
-            optional_tokens: HashMap::new(),
+            optional_tokens: BTreeMap::new(),
             extra_token: None,
             stack_type: None,
             stack_limit: 100,
-- 
2.43.0


From 2e500bd3afe8321bbd5d434ca2945e4e326bc8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 08/19] fix: resolve default and compound types before optional
 symbols and rules without code need them

---
 pomelo-impl/src/parser/mod.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 94f8cdc..168ef63 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -647,6 +647,25 @@ impl Pomelo {
             }
         }
 
+        //Every symbol that does not specify a type, other than the wildcard, gets the default one.
+        for sp in &self.symbols {
+            if Some(*sp) == self.wildcard {
+                continue;
+            }
+            let mut sp = self.the_symbols.get_mut(sp);
+            let data_type = match &sp.typ {
+                MultiTerminal(ss) => {
+                    //MultiTerminals have the type of the first child, that comes before in `symbols`.
+                    //The type of the children need be the same only if an alias is used, so we
+                    //cannot check it here
+                    let first = self.the_symbols.get(ss.first().unwrap());
+                    first.data_type.clone()
+                }
+                _ => sp.data_type.clone(),
+            };
+            sp.data_type = data_type.or_else(|| self.default_type.clone());
+        }
+
         //For every optional token T of type ty (a new non-terminal _t of type Option<ty> has already been created),
         //add two new rules:
         //  _n ::= T { None }
@@ -2172,20 +2191,7 @@ impl Pomelo {
 
             let mut sp = self.the_symbols.get_mut(sp);
 
-            /* Determine the data_type of each symbol and fill its dt_num */
-            let data_type = match &sp.typ {
-                SymbolType::MultiTerminal(ss) => {
-                    //MultiTerminals have the type of the first child.
-                    //The type of the children need be the same only if an alias is used, so we
-                    //cannot check it here
-                    let first = self.the_symbols.get(ss.first().unwrap());
-                    first.data_type.clone()
-                }
-                SymbolType::Terminal => sp.data_type.clone(),
-                SymbolType::NonTerminal { .. } => sp.data_type.clone(),
-            };
-
-            sp.data_type = data_type.or_else(|| self.default_type.clone());
+            /* Fill the dt_num of each symbol */
             sp.dt_num = match &sp.data_type {
                 None => 0,
                 Some(cp) => {
-- 
2.43.0


From 8585f4c329b81d5179e2bedf8a44dae9b1ad7017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 09/19] fix: an optional symbol without a type must not bind
 its value

---
 pomelo-impl/src/parser/mod.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 168ef63..e272afe 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -668,17 +668,18 @@ impl Pomelo {
 
         //For every optional token T of type ty (a new non-terminal _t of type Option<ty> has already been created),
         //add two new rules:
-        //  _n ::= T { None }
-        //  _n ::= T(_A) { Some(_A) }
+        //  _n ::= { None }
+        //  _n ::= T(_A) { Some(_A) }, or T { Some(()) } if it has no type
         //We consume the optional_tokens map, it is no longer needed
         let optional_tokens = std::mem::take(&mut self.optional_tokens);
         for (sym_r, SymbolSpan(sym_l, span)) in optional_tokens {
-            let dt = self
-                .the_symbols
-                .get(sym_r)
-                .data_type
-                .clone()
-                .unwrap_or_else(|| parse_quote!(()));
+            let dt = self.the_symbols.get(sym_r).data_type.clone();
+            let (dt, alias, code) = match dt {
+                Some(dt) => (dt, Some(parse_quote!(_A)), parse_quote!({ Some(_A) })),
+                //A token without a type may be the fallback of one with a type, and the
+                //wildcard stands for any token, so do not bind the value.
+                None => (parse_quote!(()), None, parse_quote!({ Some(()) })),
+            };
             self.the_symbols.get_mut(sym_l).data_type = Some(parse_quote!(Option<#dt>));
             let sym_l = SymbolSpan(sym_l, span);
 
@@ -690,14 +691,8 @@ impl Pomelo {
                 None,
             );
 
-            let rhs = SymbolAlias(sym_r, span, Some(parse_quote!(_A)));
-            self.create_rule(
-                span,
-                sym_l,
-                vec![rhs],
-                Some(parse_quote!({ Some(_A) })),
-                None,
-            );
+            let rhs = SymbolAlias(sym_r, span, alias);
+            self.create_rule(span, sym_l, vec![rhs], Some(code), None);
         }
     }
 
-- 
2.43.0


From 517e4f496cb62c41512778b596d20c709ccc3478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 10/19] fix: do not ignore the optional flag of compound
 symbols

---
 pomelo-impl/src/parser/mod.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index e272afe..38bd9ea 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2034,22 +2034,7 @@ impl Pomelo {
                                     "Symbol must start with uppercase or lowercase letter",
                                 ); //tested
                             };
-                            if optional {
-                                let sym_r = self.symbol_new_t(&tok, nst);
-                                if let Some(sym_l) = self.optional_tokens.get(&sym_r) {
-                                    sym_l.clone()
-                                } else {
-                                    let sym_l = self.symbol_new_s(
-                                        &format!("_{}", self.optional_tokens.len()),
-                                        NewSymbolType::NonTerminal,
-                                    );
-                                    let sym_l = SymbolSpan(sym_l, tok.span());
-                                    self.optional_tokens.insert(sym_r, sym_l.clone());
-                                    sym_l
-                                }
-                            } else {
-                                self.symbol_new_t_span(&tok, nst)
-                            }
+                            self.symbol_new_t_span(&tok, nst)
                         } else {
                             let mt = self.symbol_new_s("", NewSymbolType::MultiTerminal);
                             let mut ss = Vec::new();
@@ -2070,6 +2055,21 @@ impl Pomelo {
                             }
                             SymbolSpan(mt, span)
                         };
+                        let SymbolSpan(tok, span) = if optional {
+                            if let Some(sym_l) = self.optional_tokens.get(&tok) {
+                                sym_l.clone()
+                            } else {
+                                let sym_l = self.symbol_new_s(
+                                    &format!("_{}", self.optional_tokens.len()),
+                                    NewSymbolType::NonTerminal,
+                                );
+                                let sym_l = SymbolSpan(sym_l, span);
+                                self.optional_tokens.insert(tok, sym_l.clone());
+                                sym_l
+                            }
+                        } else {
+                            SymbolSpan(tok, span)
+                        };
                         Ok(SymbolAlias(tok, span, alias))
                     })
                     .collect::<syn::Result<Vec<_>>>()?;
-- 
2.43.0


From 26f32dd03e9c4a1233695235f992f32a0d47c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 11/19] fix: %type error alone does not make a grammar use the
 error symbol

---
 pomelo-impl/src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 38bd9ea..8a9fdac 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1841,6 +1841,8 @@ impl Pomelo {
                 }
                 sp.data_type = ty;
                 sp.attributes = attrs;
+                //Giving a type to a symbol does not use it. This matters for `error`.
+                sp.use_cnt -= 1;
             }
             Decl::Assoc(a, ids) => {
                 pdt.precedence += 1;
-- 
2.43.0


From 8be152a496367f019b8d8fea895c0c0d7b23dc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 12/19] fix: compound symbols that share tokens with other
 items of a state are not a conflict

---
 pomelo-impl/src/parser/mod.rs | 107 ++++++++++++++--------------------
 1 file changed, 43 insertions(+), 64 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 8a9fdac..c679cdd 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -947,79 +947,45 @@ impl Pomelo {
      ** state is any state which can be reached by a shift action.
      */
     fn build_shifts(&mut self, state: StateId) -> syn::Result<()> {
-        /* Each configuration becomes complete after it contibutes to a successor
-         ** state.  Initially, all configurations are incomplete */
-
-        for cfp in &self.the_states.get(state).configs {
-            self.the_configs.get_mut(cfp).status = CfgStatus::Incomplete;
-        }
+        /* Each symbol is shifted to just one successor state.  A compound symbol is
+         ** shifted token by token, because some of them may also be shifted by other
+         ** configurations.  These are the symbols already done. */
+        let mut shifted = BTreeSet::new();
         let mut aps = Vec::new();
         /* Loop through all configurations of the state "stp" */
         let configs = self.the_states.get(state).configs.clone();
         for (icfp, cfp) in configs.iter().enumerate() {
-            let cfp = self.the_configs.get(cfp);
-            if let CfgStatus::Complete = cfp.status {
-                continue;
-            } /* Already used by inner loop */
-            if cfp.dot >= self.the_rules.get(cfp.rule).rhs.len() {
-                continue;
-            } /* Can't shift this config */
-            let SymbolAlias(sp, ..) = self.the_rules.get(cfp.rule).rhs[cfp.dot]; /* Symbol after the dot */
-            let mut basis = Vec::new();
-            drop(cfp);
-
-            /* For every configuration in the state "stp" which has the symbol "sp"
-             ** following its dot, add the same configuration to the basis set under
-             ** construction but with the dot shifted one symbol to the right. */
-            let state_configs = self.the_states.get(state).configs[icfp..].to_owned();
-            for bcfp_ in state_configs {
-                let rule;
-                let dot;
-                {
-                    let bcfp = self.the_configs.get(bcfp_);
-                    if let CfgStatus::Complete = bcfp.status {
-                        continue;
-                    } /* Already used */
-                    if bcfp.dot >= self.the_rules.get(bcfp.rule).rhs.len() {
-                        continue;
-                    } /* Can't shift this one */
-                    let SymbolAlias(bsp, ..) = self.the_rules.get(bcfp.rule).rhs[bcfp.dot]; /* Get symbol after dot */
-                    if bsp != sp {
+            for sp in self.symbols_after_dot(*cfp) {
+                if !shifted.insert(sp) {
+                    continue;
+                } /* Already used by a previous configuration */
+                let mut basis = Vec::new();
+
+                /* For every configuration in the state "stp" which has the symbol "sp"
+                 ** following its dot, add the same configuration to the basis set under
+                 ** construction but with the dot shifted one symbol to the right. */
+                for bcfp in &configs[icfp..] {
+                    if !self.symbols_after_dot(*bcfp).contains(&sp) {
                         continue;
                     } /* Must be same as for "cfp" */
-                    rule = bcfp.rule;
-                    dot = bcfp.dot + 1;
+                    let (rule, dot) = {
+                        let bcfp = self.the_configs.get(bcfp);
+                        (bcfp.rule, bcfp.dot + 1)
+                    };
+                    let newcfg = self.add_config(&mut basis, rule, dot);
+                    self.the_configs.get_mut(newcfg).bplp.push(*bcfp);
                 }
-                let newcfg = self.add_config(&mut basis, rule, dot);
 
-                self.the_configs.get_mut(bcfp_).status = CfgStatus::Complete; /* Mark this config as used */
-                self.the_configs.get_mut(newcfg).bplp.push(bcfp_);
-            }
-
-            /* Get a pointer to the state described by the basis configuration set
-             ** constructed in the preceding loop */
-            let newstp = self.get_state(basis.clone(), basis)?;
+                /* Get a pointer to the state described by the basis configuration set
+                 ** constructed in the preceding loop */
+                let newstp = self.get_state(basis.clone(), basis)?;
 
-            /* The state "newstp" is reached from the state "stp" by a shift action
-             ** on the symbol "sp" */
-            let bsp = self.the_symbols.get(sp);
-            match &bsp.typ {
-                MultiTerminal(sub_sym) => {
-                    for ss in sub_sym {
-                        let detail = ActionDetail::Shift(newstp);
-                        aps.push(RefCell::new(Action {
-                            look_ahead: *ss,
-                            detail,
-                        }));
-                    }
-                }
-                _ => {
-                    let detail = ActionDetail::Shift(newstp);
-                    aps.push(RefCell::new(Action {
-                        look_ahead: sp,
-                        detail,
-                    }));
-                }
+                /* The state "newstp" is reached from the state "stp" by a shift action
+                 ** on the symbol "sp" */
+                aps.push(RefCell::new(Action {
+                    look_ahead: sp,
+                    detail: ActionDetail::Shift(newstp),
+                }));
             }
         }
         self.the_states.get_mut(state).actions.extend(aps);
@@ -1027,6 +993,19 @@ impl Pomelo {
         Ok(())
     }
 
+    /** The symbols that can be shifted by a configuration: none if the dot is at the
+     ** end, several if it is before a compound symbol. */
+    fn symbols_after_dot(&self, cfp: ConfigId) -> Vec<SymbolId> {
+        let cfp = self.the_configs.get(cfp);
+        match self.the_rules.get(cfp.rule).rhs.get(cfp.dot) {
+            None => Vec::new(),
+            Some(SymbolAlias(sp, ..)) => match &self.the_symbols.get(sp).typ {
+                MultiTerminal(sub_sym) => sub_sym.clone(),
+                _ => vec![*sp],
+            },
+        }
+    }
+
     /** Construct the propagation links */
     fn find_links(&mut self) {
         /* Housekeeping detail:
-- 
2.43.0


From f41051e1cb4eb804130af235e14eeb9bc020c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 13/19] fix: token classes made of other classes stand for all
 of their tokens

---
 pomelo-impl/src/parser/mod.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index c679cdd..f63d056 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -572,7 +572,7 @@ impl Pomelo {
         &self.module
     }
     pub fn build(&mut self) -> syn::Result<TokenStream> {
-        self.prepare();
+        self.prepare()?;
         self.find_rule_precedences();
         self.normalize_rules()?;
         self.find_first_sets();
@@ -596,7 +596,32 @@ impl Pomelo {
         Ok(src)
     }
 
-    fn prepare(&mut self) {
+    fn prepare(&mut self) -> syn::Result<()> {
+        //A compound symbol can contain other ones: replace those with their tokens
+        for sp in &self.symbols {
+            let mut pending = match &self.the_symbols.get(sp).typ {
+                MultiTerminal(sub_sym) => sub_sym.clone(),
+                _ => continue,
+            };
+            pending.reverse();
+            let mut seen = BTreeSet::new();
+            let mut tokens = Vec::new();
+            while let Some(s) = pending.pop() {
+                if !seen.insert(s) {
+                    continue;
+                }
+                match &self.the_symbols.get(s).typ {
+                    MultiTerminal(sub_sym) => pending.extend(sub_sym.iter().rev()),
+                    _ => tokens.push(s),
+                }
+            }
+            let mut sp = self.the_symbols.get_mut(sp);
+            if tokens.is_empty() {
+                return error(format!("Token class {} has no tokens", sp.name));
+            }
+            sp.typ = MultiTerminal(tokens);
+        }
+
         //First there are all the Terminals, the first one is $
         //Then the NonTerminals, the last one is {default}
         //And finally the MultiTerminals
@@ -694,6 +719,7 @@ impl Pomelo {
             let rhs = SymbolAlias(sym_r, span, alias);
             self.create_rule(span, sym_l, vec![rhs], Some(code), None);
         }
+        Ok(())
     }
 
     /* Find a precedence symbol of every rule in the grammar.
-- 
2.43.0


From a519b4c57247cb000e84965ebd38cdc52d1bc638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:39 +0000
Subject: [PATCH 14/19] fix: do not list unacceptable tokens as expected after
 a %nonassoc error

---
 pomelo-impl/src/parser/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index f63d056..aea732c 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1277,6 +1277,10 @@ impl Pomelo {
                 let mut uses_wildcard = false;
                 let mut wildcard_reduce = None;
                 let stp = self.the_states.get(stp);
+                let has_error = stp
+                    .actions
+                    .iter()
+                    .any(|ap| matches!(ap.borrow().detail, Error));
 
                 // ignored_actions will be actions that do not participate in the compression.
                 // If the lookahead of an action has fallbacks that are lookaheads of another rule,
@@ -1371,8 +1375,10 @@ impl Pomelo {
                  ** is not at least 1 or if the wildcard token is a possible
                  ** lookahead, other than for that same default rule: a token without
                  ** an explicit action would match the wildcard before the default.
+                 ** Nor if a %nonassoc token is an error here: the default would
+                 ** make all the other tokens look like expected ones.
                  */
-                if nbest < 1 || uses_wildcard {
+                if nbest < 1 || uses_wildcard || has_error {
                     continue;
                 }
                 let rbest = rbest.unwrap();
-- 
2.43.0


From af64d2dfd025287f44daf0f8d71e1e6f9d21ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:51 +0000
Subject: [PATCH 15/19] fix: give each token of a compound symbol its own
 precedence

---
 pomelo-impl/src/parser/mod.rs | 47 +++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index aea732c..231f6c7 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -622,6 +622,26 @@ impl Pomelo {
             sp.typ = MultiTerminal(tokens);
         }
 
+        //A rule takes its precedence from a compound symbol only if all its tokens agree on it. If
+        //they don't, each token needs a rule of its own.
+        let mut i = 0;
+        while i < self.rules.len() {
+            let rp = self.rules[i];
+            let Some((pos, tokens)) = self.mixed_precedence(rp) else {
+                i += 1;
+                continue;
+            };
+            let (span, lhs, mut rhs, code) = {
+                let rp = self.the_rules.get(rp);
+                (rp.span, rp.lhs.clone(), rp.rhs.clone(), rp.code.clone())
+            };
+            for &token in &tokens[1..] {
+                rhs[pos].0 = token;
+                self.create_rule(span, lhs.clone(), rhs.clone(), code.clone(), None);
+            }
+            self.the_rules.get_mut(rp).rhs[pos].0 = tokens[0];
+        }
+
         //First there are all the Terminals, the first one is $
         //Then the NonTerminals, the last one is {default}
         //And finally the MultiTerminals
@@ -722,6 +742,33 @@ impl Pomelo {
         Ok(())
     }
 
+    /* If the precedence of this rule depends on which token of a compound symbol is used, returns the
+     ** position of that symbol and its tokens.
+     */
+    fn mixed_precedence(&self, rp: RuleId) -> Option<(usize, Vec<SymbolId>)> {
+        let rp = self.the_rules.get(rp);
+        if rp.prec_sym.is_some() {
+            return None;
+        }
+        for (pos, SymbolAlias(sp, ..)) in rp.rhs.iter().enumerate() {
+            match &self.the_symbols.get(sp).typ {
+                MultiTerminal(sub_sym) => {
+                    let prec = |s: &SymbolId| self.the_symbols.get(s).precedence.map(|p| p.0);
+                    let first = prec(&sub_sym[0]);
+                    if sub_sym.iter().any(|s| prec(s) != first) {
+                        return Some((pos, sub_sym.clone()));
+                    }
+                    if first.is_some() {
+                        return None;
+                    }
+                }
+                _ if self.the_symbols.get(sp).precedence.is_some() => return None,
+                _ => {}
+            }
+        }
+        None
+    }
+
     /* Find a precedence symbol of every rule in the grammar.
      **
      ** Those rules which have a precedence symbol coded in the input
-- 
2.43.0


From 92338a5d690e0ea1c18b174765a4468cb4f3a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:41 +0000
Subject: [PATCH 16/19] fix: report reduce/reduce conflicts between rules of
 the same precedence

---
 pomelo-impl/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 231f6c7..ff17807 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1285,7 +1285,8 @@ impl Pomelo {
                 let precy = self.the_rules.get(y).precedence;
 
                 match (precx, precy) {
-                    (Some(px), Some(py)) => match precedence_cmp(px, py) {
+                    /* Associativity is about shifting or reducing: it does not choose a rule */
+                    (Some(px), Some(py)) => match px.0.cmp(&py.0) {
                         Ordering::Less => (false, RDResolved(x), Reduce(y)),
                         Ordering::Equal => (true, Reduce(x), RRConflict(y)),
                         Ordering::Greater => (false, Reduce(x), RDResolved(y)),
-- 
2.43.0


From 1d6f6eff714a5e500035005277d3ad7cf4ac3f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:19 +0000
Subject: [PATCH 17/19] fix: make conflicts among more than two actions
 independent of the order of the rules

---
 pomelo-impl/src/parser/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index ff17807..a340b47 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -1,6 +1,6 @@
 use std::borrow::Cow;
 use std::cell::RefCell;
-use std::cmp::{self, Ordering};
+use std::cmp::{self, Ordering, Reverse};
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::fmt::{Display, Write};
 use std::hash::{Hash, Hasher};
@@ -183,7 +183,15 @@ impl ActionDetail {
             Reduce(ra) => match b {
                 Shift(_) => Ordering::Greater,
                 Accept => Ordering::Greater,
-                Reduce(rb) => the_rules.get(ra).index.cmp(&the_rules.get(rb).index),
+                Reduce(rb) => {
+                    /* Highest precedence first, so that when there are more than two
+                     ** actions a rule that loses is never compared to another one. */
+                    let key = |r: &RuleId| {
+                        let r = the_rules.get(r);
+                        (r.precedence.map(|p| Reverse(p.0)), r.index)
+                    };
+                    key(ra).cmp(&key(rb))
+                }
                 _ => Ordering::Less,
             },
             _ => Ordering::Equal,
-- 
2.43.0


From ffea7dd5bbd38c46e10e4cc176887203bf8c664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:27 +0000
Subject: [PATCH 18/19] fix: %token generics with defaults reach the default
 Parser

---
 pomelo-impl/src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index a340b47..79ea654 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2282,7 +2282,10 @@ impl Pomelo {
         //If %parser is not used, then use a default Parser with the same generics as the Token
         let mut yyparser = self.parser_struct.
             clone().
-            unwrap_or_else(|| parse_quote!{ pub struct Parser #yy_generics_impl_token #yy_generics_where_token { } });
+            unwrap_or_else(|| ItemStruct {
+                generics: yytoken.generics.clone(),
+                ..parse_quote!{ pub struct Parser { } }
+            });
 
         if let Some(f) = yyparser.fields.iter().next() {
             return error_span(f.span(), "Parser struct declaration must be empty");
-- 
2.43.0


From 09f0b41349933fa1350a0e51d7991c415cc7cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:36 +0000
Subject: [PATCH 19/19] fix: a generic argument of Parser may occur in the
 %error type only

---
 pomelo-impl/src/parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pomelo-impl/src/parser/mod.rs b/pomelo-impl/src/parser/mod.rs
index 79ea654..244691f 100644
--- a/pomelo-impl/src/parser/mod.rs
+++ b/pomelo-impl/src/parser/mod.rs
@@ -2321,6 +2321,8 @@ impl Pomelo {
             }
         };
 
+        let unit_type: Type = parse_quote!(());
+        let yyerrtype = self.err_type.as_ref().unwrap_or(&unit_type);
         let minor_types = types.iter().map(|(k, v)| {
             let ident = Ident::new(&format!("YY{}", v), Span::call_site());
             quote!(#ident(#k))
@@ -2329,7 +2331,7 @@ impl Pomelo {
             enum YYMinorType #yy_generics_impl
                 #yy_generics_where
             {
-                YY_(::core::marker::PhantomData<Parser #yy_generics>),
+                YY_(::core::marker::PhantomData<(Parser #yy_generics, fn() -> #yyerrtype)>),
                 YY0(()),
                 #(#minor_types),*
             }
@@ -2655,11 +2657,9 @@ impl Pomelo {
             quote!(static YY_RULE_INFO: [#yycodetype; #yy_rule_info_len] = [ #(#yy_rule_info),* ];),
         );
 
-        let unit_type: Type = parse_quote!(());
         let yyextratype = self.arg.as_ref().unwrap_or(&unit_type);
         let start = self.the_symbols.get(self.start.unwrap());
         let yyroottype = start.data_type.as_ref().unwrap_or(&unit_type);
-        let yyerrtype = self.err_type.as_ref().unwrap_or(&unit_type);
 
         let parser_fields = parse_quote!({
             error_count: u8, /* Shift since last error */
-- 
2.43.0

