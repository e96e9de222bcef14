From e6cbac843bef9cbdf014a7b5291cfa33cdf6264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:53 +0000
Subject: [PATCH 1/9] fix: nested repetitions such as (a+b)* or (ab+)? accepted
 strings outside their language

---
 tokenizer/src/nfa.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/tokenizer/src/nfa.rs b/tokenizer/src/nfa.rs
index 8890d84..864c0d2 100644
--- a/tokenizer/src/nfa.rs
+++ b/tokenizer/src/nfa.rs
@@ -224,6 +224,35 @@ impl Clone for NFA {
     }
 }
 
+impl NFA {
+    /// Repetition shortcuts `begin` and `end`, which is sound only if nothing re-enters `begin` and nothing leaves `end`.
+    fn isolate(mut self) -> Self {
+        let begin_ptr = Arc::as_ptr(&self.begin);
+        let begin_is_entered = self.node.iter().any(|node| {
+            let node = node.read().unwrap();
+            let mut edges = node.epsilon.iter().chain(node.next.values().flatten());
+            edges.any(|edge| std::ptr::eq(edge.0.as_ptr(), begin_ptr))
+        });
+        let end_is_left = {
+            let end = self.end.read().unwrap();
+            !end.epsilon.is_empty() || !end.next.is_empty()
+        };
+        if begin_is_entered {
+            let begin: Arc<RwLock<NFANode>> = Arc::new(Default::default());
+            begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&self.begin)));
+            self.node.push(Arc::clone(&begin));
+            self.begin = begin;
+        }
+        if end_is_left {
+            let end: Arc<RwLock<NFANode>> = Arc::new(Default::default());
+            self.end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&end)));
+            self.node.push(Arc::clone(&end));
+            self.end = end;
+        }
+        self
+    }
+}
+
 impl TryFrom<Hir> for NFA {
     type Error = <NFA as TryFrom<HirKind>>::Error;
 
@@ -281,7 +310,7 @@ impl TryFrom<HirKind> for NFA {
             HirKind::Anchor(_) => Err(NFAConstructError::AnchorIsNotSupported),
             HirKind::WordBoundary(_) => Err(NFAConstructError::WordBoundaryIsNotSupported),
             HirKind::Repetition(repetition) => {
-                let mut inner = NFA::try_from(repetition.hir.into_kind())?;
+                let mut inner = NFA::try_from(repetition.hir.into_kind())?.isolate();
                 match repetition.kind {
                     RepetitionKind::ZeroOrOne => {
                         inner.begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.end)));
-- 
2.43.0


From 49da283823a4de732439be4667ac3e59176bf92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:09 +0000
Subject: [PATCH 2/9] fix: DFA minimisation could merge states whose ranges
 share only their start

---
 tokenizer/src/dfa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokenizer/src/dfa.rs b/tokenizer/src/dfa.rs
index d6d87a2..d8bd0e7 100644
--- a/tokenizer/src/dfa.rs
+++ b/tokenizer/src/dfa.rs
@@ -149,7 +149,8 @@ impl<'a> TokenizerDFA<'a> {
                 let mut split_group = HashMap::new();
                 for node in set {
                     let node_next = &(*node).next;
-                    let compressed_next = Self::compress_next(&group_map, node_next);
+                    // CharRange is compared by its start only, so the whole range has to be part of the key.
+                    let compressed_next = Self::compress_next(&group_map, node_next).into_iter().map(|(range, group)| (range.range, group)).collect::<Vec<_>>();
                     split_group.entry(compressed_next).or_insert_with(HashSet::new).insert(node.reference());
                 }
                 updated |= split_group.len() > 1;
-- 
2.43.0


From b1b1285445653cb157b19dc260529a525f3b6db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:25 +0000
Subject: [PATCH 3/9] fix: error at end of input reported the first token, or
 panicked on empty input

---
 parser/src/iter.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index c5f7454..e1410a2 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -1,7 +1,7 @@
 use std::collections::{HashSet, VecDeque};
 use std::error::Error;
 use std::fmt::{Display, Formatter};
-use std::ops::RangeInclusive;
+use std::ops::Range;
 
 use enum_index::EnumIndex;
 
@@ -54,7 +54,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     buffer.push_back((TerminalSymbol::Symbol(symbol.enum_index()), symbols.len()));
                     symbols.push(symbol);
                 } else {
-                    buffer.push_back((TerminalSymbol::EOI, 0));
+                    buffer.push_back((TerminalSymbol::EOI, symbols.len()));
                 }
             }
             let (symbol, symbol_index) = buffer.front().unwrap();
@@ -74,7 +74,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     let (state, mut rule_symbols): (Vec<_>, Vec<_>) = stack.drain(stack.len() - parser.rules[*rule].symbols.len()..).unzip();
                     let first_index: usize = rule_symbols
                         .iter()
-                        .find_map(|symbol: &SymbolInternal<_, (TerminalSymbol<_, RangeInclusive<usize>>, _)>| match symbol {
+                        .find_map(|symbol: &SymbolInternal<_, (TerminalSymbol<_, Range<usize>>, _)>| match symbol {
                             SymbolInternal::NonTerminal((_, i)) => Some(*i),
                             SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                             _ => None,
@@ -145,7 +145,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                                     head = i;
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::Error(range), _)) => {
-                                    error_head = *range.start();
+                                    error_head = range.start;
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::EOI, _)) => {}
                             }
@@ -160,7 +160,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         buffer.pop_front();
                     }
                     if let Some(Action::Shift(s)) = parser.action_table.get(&current_state).unwrap().get(&TerminalSymbol::Error(())) {
-                        stack.push((current_state, SymbolInternal::Terminal((TerminalSymbol::Error(head.min(error_head)..=tail), 0))));
+                        stack.push((current_state, SymbolInternal::Terminal((TerminalSymbol::Error(head.min(error_head)..if is_eoi { tail } else { tail + 1 }), 0))));
                         current_state = *s;
                     } else {
                         unreachable!()
-- 
2.43.0


From 083dcafaf6b1242dfa95ba15754ea0b1d6aa84aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:25 +0000
Subject: [PATCH 4/9] fix: empty productions had a position past the lookahead,
 so recovery lost or mis-sliced tokens

---
 parser/src/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index e1410a2..b8340ff 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -79,7 +79,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                             SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                             _ => None,
                         })
-                        .unwrap_or(symbols.len());
+                        .unwrap_or(*symbol_index);
                     let mut rule_symbols = {
                         let mut rule_symbols_ = Vec::new();
                         let all_symbols = &symbols;
-- 
2.43.0


From e1dbd3be4edb71cf87a025884c4490f119170d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:39 +0000
Subject: [PATCH 5/9] fix: parsing never ended when a state reached by ERROR
 accepts ERROR again

---
 parser/src/iter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index b8340ff..92d0a18 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -121,11 +121,14 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                 None => {
                     let is_eoi = matches!(symbol, TerminalSymbol::EOI);
                     let mut backtracked = false;
+                    let after_error = matches!(stack.last(), Some((_, SymbolInternal::Terminal((TerminalSymbol::Error(_), _)))));
                     let tail = *symbol_index;
                     let mut head = tail;
                     let mut error_head = head;
                     loop {
-                        if !is_eoi || !backtracked {
+                        // an error right after an error consumed nothing, so recovering there again would never end
+                        let can_recover = if backtracked { !is_eoi } else { !after_error };
+                        if can_recover {
                             if let Some(error_rules) = parser.error_rules.get(&current_state) {
                                 if error_recovery_state.is_empty() {
                                     error_recovery_state = error_rules.clone();
-- 
2.43.0


From 9c258c396250783007ce921594b2393adb17fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:39 +0000
Subject: [PATCH 6/9] fix: a reduction overridden by acceptance at end of input
 was not reported as a conflict

---
 parser/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index dd8008f..5c0f90a 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -249,7 +249,9 @@ fn calc_table<N, T, E>(state_list: HashMap<StateInterop, GotoListInterop>, start
         for item in state {
             if item.position == rules[item.rule].symbols.len() {
                 if item.rule == start_rule {
-                    action.insert(TerminalSymbol::EOI, Action::Accept);
+                    if let Some(Action::Reduce(reduce)) = action.insert(TerminalSymbol::EOI, Action::Accept) {
+                        warnings.push(CalcTableWarning::ReduceReduce { state: current_state.clone(), actions: [reduce, item.rule] });
+                    }
                 } else {
                     match action.get(&item.lookahead_symbol) {
                         None => {
-- 
2.43.0


From 97385a61ff962c19dc1c291541025b99b222c9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:11 +0000
Subject: [PATCH 7/9] fix: parsing never ended when recovery only reduced, in
 grammars with a symbol that derives nothing

---
 parser/src/iter.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index 92d0a18..4b5ff6d 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -48,6 +48,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
         let mut buffer = VecDeque::new();
         let mut stack = Vec::new();
         let mut error_recovery_state = HashSet::new();
+        let mut shifted_since_error = true;
         loop {
             if buffer.is_empty() {
                 if let Some(symbol) = iter.next() {
@@ -68,6 +69,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     let symbol = SymbolInternal::Terminal((symbol, *symbol_index));
                     stack.push((current_state, symbol));
                     current_state = *state;
+                    shifted_since_error = true;
                     buffer.pop_front();
                 }
                 Some(Action::Reduce(rule)) => {
@@ -121,13 +123,12 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                 None => {
                     let is_eoi = matches!(symbol, TerminalSymbol::EOI);
                     let mut backtracked = false;
-                    let after_error = matches!(stack.last(), Some((_, SymbolInternal::Terminal((TerminalSymbol::Error(_), _)))));
                     let tail = *symbol_index;
                     let mut head = tail;
                     let mut error_head = head;
                     loop {
-                        // an error right after an error consumed nothing, so recovering there again would never end
-                        let can_recover = if backtracked { !is_eoi } else { !after_error };
+                        // an error before anything was shifted consumed nothing, so recovering there again would never end
+                        let can_recover = if backtracked { !is_eoi } else { shifted_since_error };
                         if can_recover {
                             if let Some(error_rules) = parser.error_rules.get(&current_state) {
                                 if error_recovery_state.is_empty() {
@@ -165,6 +166,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     if let Some(Action::Shift(s)) = parser.action_table.get(&current_state).unwrap().get(&TerminalSymbol::Error(())) {
                         stack.push((current_state, SymbolInternal::Terminal((TerminalSymbol::Error(head.min(error_head)..if is_eoi { tail } else { tail + 1 }), 0))));
                         current_state = *s;
+                        shifted_since_error = false;
                     } else {
                         unreachable!()
                     }
-- 
2.43.0


From b21af78fc7e9b1bbd5867000df848c0bb03037d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:03 +0000
Subject: [PATCH 8/9] fix: names in generated code do not hide names used in
 actions, patterns and expressions

---
 parser_generator/src/lib.rs    | 11 +++++++++--
 tokenizer_generator/src/lib.rs | 14 +++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/parser_generator/src/lib.rs b/parser_generator/src/lib.rs
index 88ab46e..4a3f288 100644
--- a/parser_generator/src/lib.rs
+++ b/parser_generator/src/lib.rs
@@ -2,8 +2,8 @@ use proc_macro::TokenStream;
 use std::collections::HashMap;
 use std::time::Instant;
 
-use proc_macro2::{Delimiter, Group};
-use quote::{quote, ToTokens};
+use proc_macro2::{Delimiter, Group, Span};
+use quote::{quote_spanned, ToTokens};
 use syn::parse::{Parse, ParseStream};
 use syn::punctuated::Punctuated;
 use syn::{braced, bracketed, parenthesized, parse_macro_input, token, Expr, ExprTuple, FieldValue, Ident, LitStr, Pat, Path, Token, Type, Visibility};
@@ -11,6 +11,13 @@ use syn::{braced, bracketed, parenthesized, parse_macro_input, token, Expr, Expr
 use parser::enum_index::EnumIndex;
 use parser::{Action, LR1Parser, Rule, Symbol, Syntax, TerminalSymbol};
 
+/// `quote!` for generated code whose own variables do not hide names that the given expressions use.
+macro_rules! quote {
+    ($($tokens:tt)*) => {
+        quote_spanned! {Span::mixed_site()=> $($tokens)*}
+    };
+}
+
 mod kw {
     syn::custom_keyword!(token);
     syn::custom_keyword!(symbol);
diff --git a/tokenizer_generator/src/lib.rs b/tokenizer_generator/src/lib.rs
index 3281a14..4d50925 100644
--- a/tokenizer_generator/src/lib.rs
+++ b/tokenizer_generator/src/lib.rs
@@ -4,7 +4,15 @@ use syn::{Token, braced, Ident, token, Type, LitStr, parenthesized, parse_macro_
 use syn::parse::{Parse, ParseStream};
 use syn::punctuated::Punctuated;
 use tokenizer::{CharRange, DFATokenizer};
-use quote::quote;
+use proc_macro2::Span;
+use quote::quote_spanned;
+
+/// `quote!` for generated code whose own variables do not hide names that the given expressions use.
+macro_rules! quote {
+    ($($tokens:tt)*) => {
+        quote_spanned! {Span::mixed_site()=> $($tokens)*}
+    };
+}
 
 mod kw {
     syn::custom_keyword!(character);
@@ -116,11 +124,11 @@ pub fn tokenizer(input: TokenStream) -> TokenStream {
     };
     let enum_maker_constructor = quote! {
         {
-            fn into_box(closure: impl Fn(&str, Vec<#character_type>) -> #token_type + 'static) -> Box<dyn Fn(&str, Vec<#character_type>) -> #token_type> {
+            fn __into_box(closure: impl Fn(&str, Vec<#character_type>) -> #token_type + 'static) -> Box<dyn Fn(&str, Vec<#character_type>) -> #token_type> {
                 Box::new(closure) as Box<dyn Fn(&str, Vec<#character_type>) -> #token_type>
             }
             vec![
-                #( into_box(#enum_maker) ),*
+                #( __into_box(#enum_maker) ),*
             ]
         }
     };
-- 
2.43.0


From 7f94af249829c157314bc192068b256baa14f86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:40 +0000
Subject: [PATCH 9/9] fix: equal character ranges hashed differently, and
 unlike the code point they are borrowed as

---
 tokenizer/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tokenizer/src/lib.rs b/tokenizer/src/lib.rs
index 6c34149..b2038ed 100644
--- a/tokenizer/src/lib.rs
+++ b/tokenizer/src/lib.rs
@@ -2,6 +2,7 @@ use std::borrow::Borrow;
 use std::cmp::Ordering;
 use std::convert::TryFrom;
 use std::fmt::Debug;
+use std::hash::{Hash, Hasher};
 use std::ops::Range;
 
 pub use crate::tokenizer::iter::{Tokenize, TokenizeIterator};
@@ -11,7 +12,7 @@ mod dfa;
 mod nfa;
 mod tokenizer;
 
-#[derive(Eq, Hash, Clone)]
+#[derive(Eq, Clone)]
 pub struct CharRange {
     pub range: Range<u32>,
 }
@@ -43,6 +44,12 @@ impl PartialEq for CharRange {
     }
 }
 
+impl Hash for CharRange {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.range.start.hash(state)
+    }
+}
+
 impl PartialOrd for CharRange {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
         self.range.start.partial_cmp(&other.range.start)
-- 
2.43.0

