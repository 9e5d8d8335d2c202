From 7f86289584aaa8a07017c70ade115ae6e3002682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:50 +0000
Subject: [PATCH 01/13] fix: only look for valid text at character boundaries

Slicing at every byte index panicked on unexpected non-ASCII text.
---
 lexan/src/lexicon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexan/src/lexicon.rs b/lexan/src/lexicon.rs
index e57e0ae..f61cbcc 100644
--- a/lexan/src/lexicon.rs
+++ b/lexan/src/lexicon.rs
@@ -75,7 +75,7 @@ where
 
     /// Returns the distance in bytes to the next valid content in `text`
     pub fn distance_to_next_valid_byte(&self, text: &str) -> usize {
-        for index in 0..text.len() {
+        for (index, _) in text.char_indices() {
             if self.literal_matcher.matches(&text[index..]) {
                 return index;
             }
-- 
2.43.0


From a47554c1f386cb9cce357cfccc3376bebb65e91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:08 +0000
Subject: [PATCH 02/13] fix: count every line when line endings are mixed

Looking for "\r\n" first skipped every bare '\n' before it.
---
 lexan/src/analyzer.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lexan/src/analyzer.rs b/lexan/src/analyzer.rs
index 3952d04..7e80ac0 100644
--- a/lexan/src/analyzer.rs
+++ b/lexan/src/analyzer.rs
@@ -178,11 +178,7 @@ where
         let slice = &self.text[self.index..next_index];
         let mut i = 0;
         while i < length {
-            if let Some(eol_i) = slice[i..].find("\r\n") {
-                self.location.line_number += 1;
-                self.location.offset = 1;
-                i += eol_i + 2;
-            } else if let Some(eol_i) = slice[i..].find('\n') {
+            if let Some(eol_i) = slice[i..].find('\n') {
                 self.location.line_number += 1;
                 self.location.offset = 1;
                 i += eol_i + 1;
-- 
2.43.0


From dc9e772ce00504f74e1a59c6d884d11cef7fe26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 03/13] fix: anchor every alternative of a pattern

"\A" in front of "a|b" only anchored "a", so "b" matched anywhere in
the remaining text and the lexeme was cut from the wrong place.
---
 lexan/src/matcher.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index f4a4262..01cbb4d 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -121,6 +121,13 @@ impl<T: Eq + Debug + Copy + Ord + Display> LiteralMatcher<T> {
     }
 }
 
+/// Compile `pattern` so that all of its alternatives only match at the start of a text.
+fn anchored_regex(pattern: &str) -> Result<Regex, regex::Error> {
+    // the pattern has to be valid by itself: the group must not repair e.g. "a)|(b"
+    Regex::new(pattern)?;
+    Regex::new(&format!("\\A(?:{pattern})"))
+}
+
 #[derive(Debug, Default)]
 pub(crate) struct RegexMatcher<T: Copy + Debug> {
     lexemes: Vec<(T, Regex)>,
@@ -133,9 +140,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
             if pattern.is_empty() {
                 return Err(LexanError::EmptyPattern(Some(*tag)));
             };
-            let mut anchored_pattern = "\\A".to_string();
-            anchored_pattern.push_str(pattern);
-            lexemes.push((*tag, Regex::new(&anchored_pattern)?));
+            lexemes.push((*tag, anchored_regex(pattern)?));
         }
         Ok(Self { lexemes })
     }
@@ -182,9 +187,7 @@ impl SkipMatcher {
             if regex_str.is_empty() {
                 return Err(LexanError::EmptyPattern(None));
             };
-            let mut anchored_pattern = "\\A".to_string();
-            anchored_pattern.push_str(regex_str);
-            regexes.push(Regex::new(&anchored_pattern)?);
+            regexes.push(anchored_regex(regex_str)?);
         }
         Ok(Self { regexes })
     }
-- 
2.43.0


From 9622bf12fd3148830da80532782230beaab02adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:41 +0000
Subject: [PATCH 04/13] fix: ignore empty matches

A regular expression or skip rule matching the empty string made lexing
loop for ever without consuming any text.
---
 lexan/src/matcher.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index 01cbb4d..846e893 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -128,6 +128,11 @@ fn anchored_regex(pattern: &str) -> Result<Regex, regex::Error> {
     Regex::new(&format!("\\A(?:{pattern})"))
 }
 
+/// Returns the match at the start of `text`, unless it is empty (as it would make no progress).
+fn non_empty_match<'t>(regex: &Regex, text: &'t str) -> Option<regex::Match<'t>> {
+    regex.find(text).filter(|m| !m.is_empty())
+}
+
 #[derive(Debug, Default)]
 pub(crate) struct RegexMatcher<T: Copy + Debug> {
     lexemes: Vec<(T, Regex)>,
@@ -150,7 +155,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
         let mut matches = vec![];
         let mut largest_end = 0;
         for (tag, regex) in self.lexemes.iter() {
-            if let Some(m) = regex.find(text) {
+            if let Some(m) = non_empty_match(regex, text) {
                 match m.end().cmp(&largest_end) {
                     Ordering::Equal => matches.push(*tag),
                     Ordering::Greater => {
@@ -167,7 +172,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
     /// Returns `true` if we match the start of the text
     pub fn matches(&self, text: &str) -> bool {
         for (_, regex) in self.lexemes.iter() {
-            if regex.find(text).is_some() {
+            if non_empty_match(regex, text).is_some() {
                 return true;
             }
         }
@@ -197,7 +202,7 @@ impl SkipMatcher {
         let mut index = 0;
         'outer: while index < text.len() {
             for regex in self.regexes.iter() {
-                if let Some(m) = regex.find(&text[index..]) {
+                if let Some(m) = non_empty_match(regex, &text[index..]) {
                     index += m.end();
                     continue 'outer;
                 }
@@ -209,7 +214,7 @@ impl SkipMatcher {
 
     pub fn matches(&self, text: &str) -> bool {
         for regex in self.regexes.iter() {
-            if regex.find(text).is_some() {
+            if non_empty_match(regex, text).is_some() {
                 return true;
             }
         }
-- 
2.43.0


From 7d6ed14627e1fdee66278a20c1d7f8c6017fb387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 05/13] fix: let error recovery use the initial state

The bottom of the stack was never a candidate, although the generated
tables list state 0 as a viable recovery state.
---
 alalr1/src/lib.rs | 2 +-
 lalr1/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index 135a747..03ff5b7 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -113,7 +113,7 @@ where
         while !tokens.is_empty() {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
-                for sub in 1..self.states.len() {
+                for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
                     if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
                         self.last_error_state = Some(candidate);
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index 0b5ea6f..81bd696 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -171,7 +171,7 @@ where
         while !tokens.is_empty() {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
-                for sub in 1..self.states.len() {
+                for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
                     if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
                         self.last_error_state = Some(candidate);
-- 
2.43.0


From 47dba42516077f89f8c3951f606474cdbff9e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 06/13] fix: merge the look ahead sets of all items of a state

Merging only those of the kernel items left the state's closure items
without the new look aheads, so that generated parsers had missing reduce
actions and rejected valid input.
---
 alalr1_lib/src/state.rs | 4 ++--
 lalr1_lib/src/state.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 8f230af..b66d115 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -101,12 +101,12 @@ impl ParserState {
 
     pub fn merge_lookahead_sets(&self, item_set: &GrammarItemSet) {
         let mut additions = 0;
-        for (key, other_look_ahead_set) in item_set.iter().filter(|(k, _)| k.is_kernel_item()) {
+        for (key, other_look_ahead_set) in item_set.iter() {
             if let Some(look_ahead_set) = self.0.grammar_items.borrow_mut().get_mut(key) {
                 let current_len = look_ahead_set.len();
                 *look_ahead_set |= other_look_ahead_set;
                 additions += look_ahead_set.len() - current_len;
-            } else {
+            } else if key.is_kernel_item() {
                 panic!("key sets should be identical to get here")
             }
         }
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 88e6d69..5b68c27 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -101,12 +101,12 @@ impl ParserState {
 
     pub fn merge_lookahead_sets(&self, item_set: &GrammarItemSet) {
         let mut additions = 0;
-        for (key, other_look_ahead_set) in item_set.iter().filter(|(k, _)| k.is_kernel_item()) {
+        for (key, other_look_ahead_set) in item_set.iter() {
             if let Some(look_ahead_set) = self.0.grammar_items.borrow_mut().get_mut(key) {
                 let current_len = look_ahead_set.len();
                 *look_ahead_set |= other_look_ahead_set;
                 additions += look_ahead_set.len() - current_len;
-            } else {
+            } else if key.is_kernel_item() {
                 panic!("key sets should be identical to get here")
             }
         }
-- 
2.43.0


From d312cc9346524275c5abba41ee6c29623ad696fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 07/13] fix: compute FIRST sets as a least fixpoint

The recursive computation overflowed the stack on indirect left recursion
and could stop before mutually nullable non-terminals were settled.
---
 alalr1_lib/src/symbol/non_terminal.rs | 76 ++++++++++-----------------
 lalr1_lib/src/symbol/non_terminal.rs  | 76 ++++++++++-----------------
 2 files changed, 56 insertions(+), 96 deletions(-)

diff --git a/alalr1_lib/src/symbol/non_terminal.rs b/alalr1_lib/src/symbol/non_terminal.rs
index b6b8b0c..2147c47 100644
--- a/alalr1_lib/src/symbol/non_terminal.rs
+++ b/alalr1_lib/src/symbol/non_terminal.rs
@@ -1,5 +1,5 @@
 // Copyright 2021 Peter Williams <pwil3058@gmail.com> <pwil3058@bigpond.net.au>
-use std::{cell::RefCell, cmp::Ordering, fmt, rc::Rc};
+use std::{cell::RefCell, cmp::Ordering, collections::BTreeMap, fmt, rc::Rc};
 
 use crate::production::Production;
 use crate::symbol::{Symbol, terminal::TokenSet};
@@ -180,16 +180,6 @@ impl NonTerminal {
         }
     }
 
-    fn firsts_data_is_set(&self) -> bool {
-        match self {
-            NonTerminal::UserDefined(non_terminal_data)
-            | NonTerminal::Error(non_terminal_data)
-            | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().is_some()
-            }
-        }
-    }
-
     pub fn set_firsts_data(&self, productions: &[Production]) {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
@@ -198,56 +188,46 @@ impl NonTerminal {
                 if non_terminal_data.firsts_data.borrow().is_some() {
                     return;
                 }
-                let relevant_productions: Vec<Production> = productions
-                    .iter()
-                    .filter(|x| x.left_hand_side() == self)
-                    .cloned()
-                    .collect();
-                let mut transparent = relevant_productions.iter().any(|x| x.is_empty());
-                let mut token_set = TokenSet::new();
-                let mut transparency_changed = true;
-                while transparency_changed {
-                    transparency_changed = false;
-                    for production in relevant_productions.iter() {
-                        let mut transparent_production = true;
+                // Iterate to the least fixpoint so that any form of recursion is handled
+                let mut firsts = BTreeMap::<&NonTerminal, FirstsData>::new();
+                let mut changed = true;
+                while changed {
+                    changed = false;
+                    for production in productions.iter() {
+                        let mut token_set = TokenSet::new();
+                        let mut transparent = true;
                         for rhs_symbol in production.right_hand_side_symbols() {
                             match rhs_symbol {
                                 Symbol::NonTerminal(non_terminal) => {
-                                    if non_terminal == self {
-                                        if transparent {
-                                            continue;
-                                        } else {
-                                            transparent_production = false;
-                                            break;
-                                        }
-                                    }
-                                    if !non_terminal.firsts_data_is_set() {
-                                        non_terminal.set_firsts_data(productions);
-                                    }
-                                    let firsts_data = non_terminal.firsts_data();
-                                    token_set |= &firsts_data.token_set;
-                                    if !firsts_data.transparent {
-                                        transparent_production = false;
-                                        break;
+                                    transparent = false;
+                                    if let Some(firsts_data) = firsts.get(non_terminal) {
+                                        token_set |= &firsts_data.token_set;
+                                        transparent = firsts_data.transparent;
                                     }
                                 }
                                 Symbol::Terminal(token) => {
                                     token_set.insert(token);
-                                    transparent_production = false;
-                                    break;
+                                    transparent = false;
                                 }
                             }
+                            if !transparent {
+                                break;
+                            }
+                        }
+                        let firsts_data = firsts.entry(production.left_hand_side()).or_default();
+                        let len = firsts_data.token_set.len();
+                        firsts_data.token_set |= &token_set;
+                        if firsts_data.token_set.len() > len {
+                            changed = true;
                         }
-                        if transparent_production {
-                            transparency_changed = !transparent;
-                            transparent = true;
+                        if transparent && !firsts_data.transparent {
+                            firsts_data.transparent = true;
+                            changed = true;
                         }
                     }
                 }
-                *non_terminal_data.firsts_data.borrow_mut() = Some(FirstsData {
-                    token_set,
-                    transparent,
-                });
+                *non_terminal_data.firsts_data.borrow_mut() =
+                    Some(firsts.remove(self).unwrap_or_default());
             }
         }
     }
diff --git a/lalr1_lib/src/symbol/non_terminal.rs b/lalr1_lib/src/symbol/non_terminal.rs
index b6b8b0c..2147c47 100644
--- a/lalr1_lib/src/symbol/non_terminal.rs
+++ b/lalr1_lib/src/symbol/non_terminal.rs
@@ -1,5 +1,5 @@
 // Copyright 2021 Peter Williams <pwil3058@gmail.com> <pwil3058@bigpond.net.au>
-use std::{cell::RefCell, cmp::Ordering, fmt, rc::Rc};
+use std::{cell::RefCell, cmp::Ordering, collections::BTreeMap, fmt, rc::Rc};
 
 use crate::production::Production;
 use crate::symbol::{Symbol, terminal::TokenSet};
@@ -180,16 +180,6 @@ impl NonTerminal {
         }
     }
 
-    fn firsts_data_is_set(&self) -> bool {
-        match self {
-            NonTerminal::UserDefined(non_terminal_data)
-            | NonTerminal::Error(non_terminal_data)
-            | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().is_some()
-            }
-        }
-    }
-
     pub fn set_firsts_data(&self, productions: &[Production]) {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
@@ -198,56 +188,46 @@ impl NonTerminal {
                 if non_terminal_data.firsts_data.borrow().is_some() {
                     return;
                 }
-                let relevant_productions: Vec<Production> = productions
-                    .iter()
-                    .filter(|x| x.left_hand_side() == self)
-                    .cloned()
-                    .collect();
-                let mut transparent = relevant_productions.iter().any(|x| x.is_empty());
-                let mut token_set = TokenSet::new();
-                let mut transparency_changed = true;
-                while transparency_changed {
-                    transparency_changed = false;
-                    for production in relevant_productions.iter() {
-                        let mut transparent_production = true;
+                // Iterate to the least fixpoint so that any form of recursion is handled
+                let mut firsts = BTreeMap::<&NonTerminal, FirstsData>::new();
+                let mut changed = true;
+                while changed {
+                    changed = false;
+                    for production in productions.iter() {
+                        let mut token_set = TokenSet::new();
+                        let mut transparent = true;
                         for rhs_symbol in production.right_hand_side_symbols() {
                             match rhs_symbol {
                                 Symbol::NonTerminal(non_terminal) => {
-                                    if non_terminal == self {
-                                        if transparent {
-                                            continue;
-                                        } else {
-                                            transparent_production = false;
-                                            break;
-                                        }
-                                    }
-                                    if !non_terminal.firsts_data_is_set() {
-                                        non_terminal.set_firsts_data(productions);
-                                    }
-                                    let firsts_data = non_terminal.firsts_data();
-                                    token_set |= &firsts_data.token_set;
-                                    if !firsts_data.transparent {
-                                        transparent_production = false;
-                                        break;
+                                    transparent = false;
+                                    if let Some(firsts_data) = firsts.get(non_terminal) {
+                                        token_set |= &firsts_data.token_set;
+                                        transparent = firsts_data.transparent;
                                     }
                                 }
                                 Symbol::Terminal(token) => {
                                     token_set.insert(token);
-                                    transparent_production = false;
-                                    break;
+                                    transparent = false;
                                 }
                             }
+                            if !transparent {
+                                break;
+                            }
+                        }
+                        let firsts_data = firsts.entry(production.left_hand_side()).or_default();
+                        let len = firsts_data.token_set.len();
+                        firsts_data.token_set |= &token_set;
+                        if firsts_data.token_set.len() > len {
+                            changed = true;
                         }
-                        if transparent_production {
-                            transparency_changed = !transparent;
-                            transparent = true;
+                        if transparent && !firsts_data.transparent {
+                            firsts_data.transparent = true;
+                            changed = true;
                         }
                     }
                 }
-                *non_terminal_data.firsts_data.borrow_mut() = Some(FirstsData {
-                    token_set,
-                    transparent,
-                });
+                *non_terminal_data.firsts_data.borrow_mut() =
+                    Some(firsts.remove(self).unwrap_or_default());
             }
         }
     }
-- 
2.43.0


From 6df4c45cf88626c484e1eb5827096970afb88ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:32 +0000
Subject: [PATCH 08/13] fix: number the productions of each specification from
 zero

Identifiers came from a counter shared by the whole process, so that every
specification but the first lost its start production and with it the
accept action.
---
 alalr1_lib/src/grammar.rs    | 12 ++++++++----
 alalr1_lib/src/production.rs | 10 ++--------
 lalr1_lib/src/grammar.rs     | 12 ++++++++----
 lalr1_lib/src/production.rs  | 10 ++--------
 4 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 0a3c1a5..7a4f445 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -54,7 +54,7 @@ impl Specification {
         let symbol = spec.symbol_table.error_non_terminal.clone();
         let tail = ProductionTail::default();
         if !spec.symbol_table.error_non_terminal().is_unused() {
-            spec.productions.push(Production::new(symbol, tail));
+            spec.push_production(symbol, tail);
         }
         spec.symbol_table
             .start_non_terminal()
@@ -96,11 +96,15 @@ impl Specification {
             left_hand_side.add_used_at(&location);
             let start_symbol = self.symbol_table.start_non_terminal_used_at(&location);
             let start_tail = ProductionTail::new(&[left_hand_side.into()], None, None, None);
-            let start_production = Production::new(start_symbol, start_tail);
-            self.productions.push(start_production);
+            self.push_production(start_symbol, start_tail);
         }
+        self.push_production(left_hand_side.clone(), tail.clone());
+    }
+
+    fn push_production(&mut self, left_hand_side: NonTerminal, tail: ProductionTail) {
+        let ident = self.productions.len() as u32;
         self.productions
-            .push(Production::new(left_hand_side.clone(), tail.clone()));
+            .push(Production::new(ident, left_hand_side, tail));
     }
 
     fn closure(&self, mut closure_set: GrammarItemSet) -> GrammarItemSet {
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 6ceb740..c8691d6 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -14,7 +14,6 @@ use std::iter::FromIterator;
 use std::ops::Index;
 use std::rc::Rc;
 use std::str::FromStr;
-use std::sync::atomic::{self, AtomicU32};
 
 #[derive(Debug, Default)]
 pub struct ProductionTailData {
@@ -71,11 +70,6 @@ fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)>
 pub struct ProductionId(u32);
 
 impl ProductionId {
-    fn new() -> Self {
-        static NEXT_ID: AtomicU32 = AtomicU32::new(0);
-        ProductionId(NEXT_ID.fetch_add(1, atomic::Ordering::Relaxed))
-    }
-
     pub fn is_zero(&self) -> bool {
         self.0 == 0
     }
@@ -108,9 +102,9 @@ lazy_static! {
 }
 
 impl Production {
-    pub fn new(left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
+    pub fn new(ident: u32, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
         Self(Rc::new(ProductionData {
-            ident: ProductionId::new(),
+            ident: ProductionId(ident),
             left_hand_side,
             tail,
         }))
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 7d7129c..ae7e372 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -50,7 +50,7 @@ impl Specification {
         let symbol = spec.symbol_table.error_non_terminal.clone();
         let tail = ProductionTail::default();
         if !spec.symbol_table.error_non_terminal().is_unused() {
-            spec.productions.push(Production::new(symbol, tail));
+            spec.push_production(symbol, tail);
         }
         spec.symbol_table
             .start_non_terminal()
@@ -92,11 +92,15 @@ impl Specification {
             left_hand_side.add_used_at(&location);
             let start_symbol = self.symbol_table.start_non_terminal_used_at(&location);
             let start_tail = ProductionTail::new(&[left_hand_side.into()], None, None);
-            let start_production = Production::new(start_symbol, start_tail);
-            self.productions.push(start_production);
+            self.push_production(start_symbol, start_tail);
         }
+        self.push_production(left_hand_side.clone(), tail.clone());
+    }
+
+    fn push_production(&mut self, left_hand_side: NonTerminal, tail: ProductionTail) {
+        let ident = self.productions.len() as u32;
         self.productions
-            .push(Production::new(left_hand_side.clone(), tail.clone()));
+            .push(Production::new(ident, left_hand_side, tail));
     }
 
     fn closure(&self, mut closure_set: GrammarItemSet) -> GrammarItemSet {
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index fc7deb6..a9ede9c 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -14,7 +14,6 @@ use std::iter::FromIterator;
 use std::ops::Index;
 use std::rc::Rc;
 use std::str::FromStr;
-use std::sync::atomic::{self, AtomicU32};
 
 #[derive(Debug, Default)]
 pub struct ProductionTailData {
@@ -67,11 +66,6 @@ fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)>
 pub struct ProductionId(u32);
 
 impl ProductionId {
-    fn new() -> Self {
-        static NEXT_ID: AtomicU32 = AtomicU32::new(0);
-        ProductionId(NEXT_ID.fetch_add(1, atomic::Ordering::Relaxed))
-    }
-
     pub fn is_zero(&self) -> bool {
         self.0 == 0
     }
@@ -104,9 +98,9 @@ lazy_static! {
 }
 
 impl Production {
-    pub fn new(left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
+    pub fn new(ident: u32, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
         Self(Rc::new(ProductionData {
-            ident: ProductionId::new(),
+            ident: ProductionId(ident),
             left_hand_side,
             tail,
         }))
-- 
2.43.0


From 8a702033f42450c9e90643455e527d0a94edf7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 09/13] fix: do not use the text of literal tokens as a format
 string

A literal such as "{" made the generated Display implementation fail to
compile, and "{{" was displayed as "{".
---
 alalr1_lib/src/grammar.rs | 2 +-
 lalr1_lib/src/grammar.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 7a4f445..801d156 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -432,7 +432,7 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => f.write_str(r###\"{}\"###),\n",
                         token_data.name, token_data.text
                     ))?;
                 }
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index ae7e372..3266a55 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -428,7 +428,7 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => f.write_str(r###\"{}\"###),\n",
                         token_data.name, token_data.text
                     ))?;
                 }
-- 
2.43.0


From 584318adf08ccd88d0b62ad79b51a09feb5e3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 10/13] fix: report $<number>s that are not symbols of their
 production

$0 or a number too big to parse made the generator panic, and one beyond
the production's length generated code that panics.
---
 alalr1_lib/src/grammar.rs    |  9 +++++++++
 alalr1_lib/src/production.rs | 14 ++++++++++++++
 lalr1_lib/src/grammar.rs     |  9 +++++++++
 lalr1_lib/src/production.rs  | 14 ++++++++++++++
 4 files changed, 46 insertions(+)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 801d156..29414e1 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -99,6 +99,15 @@ impl Specification {
             self.push_production(start_symbol, start_tail);
         }
         self.push_production(left_hand_side.clone(), tail.clone());
+        if let Some(location) = left_hand_side.first_definition() {
+            for reference in tail.invalid_references() {
+                let name = left_hand_side.name();
+                self.error(
+                    &location,
+                    &format!("\"{reference}\" is not a symbol of its \"{name}\" production"),
+                );
+            }
+        }
     }
 
     fn push_production(&mut self, left_hand_side: NonTerminal, tail: ProductionTail) {
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index c8691d6..ef0c00d 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -55,6 +55,20 @@ impl ProductionTail {
             precedence,
         }))
     }
+
+    /// Returns the `$<number>`s in this tail's code that do not refer to any of its symbols.
+    pub fn invalid_references(&self) -> Vec<String> {
+        let mut invalid = vec![];
+        for text in [&self.0.predicate, &self.0.action].into_iter().flatten() {
+            for caps in RHS_CRE.captures_iter(text) {
+                match usize::from_str(&caps[1]) {
+                    Ok(number) if number > 0 && number <= self.0.right_hand_side.len() => (),
+                    _ => invalid.push(caps[0].to_string()),
+                }
+            }
+        }
+        invalid
+    }
 }
 
 fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)> {
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 3266a55..254fce5 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -95,6 +95,15 @@ impl Specification {
             self.push_production(start_symbol, start_tail);
         }
         self.push_production(left_hand_side.clone(), tail.clone());
+        if let Some(location) = left_hand_side.first_definition() {
+            for reference in tail.invalid_references() {
+                let name = left_hand_side.name();
+                self.error(
+                    &location,
+                    &format!("\"{reference}\" is not a symbol of its \"{name}\" production"),
+                );
+            }
+        }
     }
 
     fn push_production(&mut self, left_hand_side: NonTerminal, tail: ProductionTail) {
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index a9ede9c..d6bf2c2 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -51,6 +51,20 @@ impl ProductionTail {
             precedence,
         }))
     }
+
+    /// Returns the `$<number>`s in this tail's code that do not refer to any of its symbols.
+    pub fn invalid_references(&self) -> Vec<String> {
+        let mut invalid = vec![];
+        for text in self.0.action.iter() {
+            for caps in RHS_CRE.captures_iter(text) {
+                match usize::from_str(&caps[1]) {
+                    Ok(number) if number > 0 && number <= self.0.right_hand_side.len() => (),
+                    _ => invalid.push(caps[0].to_string()),
+                }
+            }
+        }
+        invalid
+    }
 }
 
 fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)> {
-- 
2.43.0


From 58ef1a1c6a6b59dd2340815ab403ad50a07dea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 11/13] fix: always test the predicate of a production before
 reducing it

The predicate of a production that shares its look aheads with no other was
ignored, code without a final else was generated when every candidate had a
predicate, and a predicate of several lines escaped from its comment.
---
 alalr1_lib/src/grammar.rs |  3 ++-
 alalr1_lib/src/state.rs   | 16 +++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 29414e1..0a8b49f 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -202,7 +202,8 @@ impl Specification {
         for production in self.productions.iter() {
             if let Some(action_code) = production.expanded_action() {
                 wtr.write_fmt(format_args!("            {} => {{\n", production.ident()))?;
-                wtr.write_fmt(format_args!("                // {production}\n"))?;
+                let comment = production.to_string().replace('\n', " ");
+                wtr.write_fmt(format_args!("                // {comment}\n"))?;
                 wtr.write_fmt(format_args!("                {action_code}\n"))?;
                 wtr.write_all(b"            }\n")?;
             }
diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index b66d115..e9c7dd7 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -290,10 +290,9 @@ impl ParserState {
             ))?;
         }
         for (productions, look_ahead_set) in reductions.reductions() {
-            if productions.len() == 1 {
-                // NB this is clumsy but first() for OrderedSet is only experimental
-                let production = productions.iter().next().expect("len() == 1");
-                debug_assert!(!production.has_predicate());
+            // NB this is clumsy but first() for OrderedSet is only experimental
+            let production = productions.iter().next().expect("never empty");
+            if productions.len() == 1 && !production.has_predicate() {
                 wtr.write_fmt(format_args!("{indent}    // {production}\n"))?;
                 if production.is_start_production() {
                     wtr.write_fmt(format_args!(
@@ -315,6 +314,7 @@ impl ParserState {
                     indent,
                     look_ahead_set.formated_as_or_list()
                 ))?;
+                let mut all_have_predicates = true;
                 for (i, production) in productions.iter().enumerate() {
                     if i == 0 {
                         wtr.write_fmt(format_args!(
@@ -329,9 +329,11 @@ impl ParserState {
                             production.expanded_predicate().expect("more than one")
                         ))?;
                     } else {
+                        all_have_predicates = false;
                         wtr.write_fmt(format_args!("{indent}        }} else {{\n",))?;
                     }
-                    wtr.write_fmt(format_args!("{indent}            // {production}\n"))?;
+                    let comment = production.to_string().replace('\n', " ");
+                    wtr.write_fmt(format_args!("{indent}            // {comment}\n"))?;
                     if production.is_start_production() {
                         wtr.write_fmt(format_args!("{indent}            Action::Accept\n",))?;
                     } else {
@@ -342,6 +344,10 @@ impl ParserState {
                         ))?;
                     }
                 }
+                if all_have_predicates {
+                    wtr.write_fmt(format_args!("{indent}        }} else {{\n"))?;
+                    wtr.write_fmt(format_args!("{indent}            Action::SyntaxError\n"))?;
+                }
                 wtr.write_fmt(format_args!("{indent}        }}\n"))?;
                 wtr.write_fmt(format_args!("{indent}    }}\n"))?;
             }
-- 
2.43.0


From 96b6607f0b125feef2cb9730cc20884e56b4ce82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 12/13] fix: never overwrite an existing states file without
 --force

Only the parser file was checked, so the description of another parser with
the same stem was silently replaced.
---
 alalr1_gen/src/main.rs | 15 +++++++--------
 lalr1_gen/src/main.rs  | 15 +++++++--------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index 1f8df60..170155c 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -52,12 +52,12 @@ fn main() {
     } else {
         with_changed_extension(&cl_options.specification, "rs")
     };
-    if output_path.exists() && !cl_options.force {
-        eprintln!(
-            "{}: output file already exists",
-            output_path.to_string_lossy()
-        );
-        std::process::exit(1);
+    let description_file = with_changed_extension(&output_path, "states");
+    for path in [&output_path, &description_file] {
+        if path.exists() && !cl_options.force {
+            eprintln!("{}: output file already exists", path.to_string_lossy());
+            std::process::exit(1);
+        }
     }
     let mut file = match fs::File::open(&cl_options.specification) {
         Ok(file) => file,
@@ -122,11 +122,10 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = with_changed_extension(&output_path, "states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
-            output_path.to_string_lossy(),
+            description_file.to_string_lossy(),
             err
         );
         std::process::exit(7);
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index 11a1d2b..c922fb7 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -53,12 +53,12 @@ fn main() {
     } else {
         with_changed_extension(&cl_options.specification, "rs")
     };
-    if output_path.exists() && !cl_options.force {
-        eprintln!(
-            "{}: output file already exists",
-            output_path.to_string_lossy()
-        );
-        std::process::exit(1);
+    let description_file = with_changed_extension(&output_path, "states");
+    for path in [&output_path, &description_file] {
+        if path.exists() && !cl_options.force {
+            eprintln!("{}: output file already exists", path.to_string_lossy());
+            std::process::exit(1);
+        }
     }
     let mut file = match fs::File::open(&cl_options.specification) {
         Ok(file) => file,
@@ -123,11 +123,10 @@ fn main() {
         std::process::exit(6);
     }
 
-    let description_file = with_changed_extension(&output_path, "states");
     if let Err(err) = grammar.write_description(&description_file) {
         eprintln!(
             "{}: problems writing file: {:?}.",
-            output_path.to_string_lossy(),
+            description_file.to_string_lossy(),
             err
         );
         std::process::exit(7);
-- 
2.43.0


From 45e9c3ee0784da0fe9bffb03e90146053310ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 13/13] fix: leave a usable attribute behind a rejected tag or
 non-terminal

A duplicate tag, or a production group named after a token, left the
token as attribute, so that reading the rest of the specification
panicked ("Wrong attribute variant") instead of reporting the error.
---
 alalr1_lib/src/parser.alaps | 12 ++++++++++--
 alalr1_lib/src/parser.rs    | 12 ++++++++++--
 lalr1_lib/src/parser.laps   | 12 ++++++++++--
 lalr1_lib/src/parser.rs     | 12 ++++++++++--
 4 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index c95b08a..3ec4fee 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -10,6 +10,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 %}
@@ -275,7 +276,10 @@ Tag: Literal
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => $$ = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        $$ = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         !}
@@ -303,7 +307,11 @@ ProductionGroupHead: Ident ":"
                 Ok(non_terminal) => {
                     $$ = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    let non_terminal = NonTerminal::new_defined(name, location);
+                    $$ = AttributeData::LeftHandSide(non_terminal);
+                }
             }
         !}
     .
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index c6ce0f9..feb5776 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -8,6 +8,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 use lalr1::OrderedSet;
@@ -1514,7 +1515,10 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         
@@ -1537,7 +1541,11 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                 Ok(non_terminal) => {
                     aa_lhs = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    let non_terminal = NonTerminal::new_defined(name, location);
+                    aa_lhs = AttributeData::LeftHandSide(non_terminal);
+                }
             }
         
             }
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index 7a12830..caea3a8 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -12,6 +12,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 %}
@@ -279,7 +280,10 @@ Tag: Literal
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => $$ = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        $$ = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         !}
@@ -307,7 +311,11 @@ ProductionGroupHead: Ident ":"
                 Ok(non_terminal) => {
                     $$ = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    let non_terminal = NonTerminal::new_defined(name, location);
+                    $$ = AttributeData::LeftHandSide(non_terminal);
+                }
             }
         !}
     .
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index a61bd30..4044831 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -10,6 +10,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 use lalr1::OrderedSet;
@@ -1435,7 +1436,10 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         
@@ -1458,7 +1462,11 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                 Ok(non_terminal) => {
                     aa_lhs = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    let non_terminal = NonTerminal::new_defined(name, location);
+                    aa_lhs = AttributeData::LeftHandSide(non_terminal);
+                }
             }
         
             }
-- 
2.43.0

