From 6e19b75e430c98b3f524c83b02b9cb1dabafdd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 01/24] fix: lexan: look for the next valid text only at
 character boundaries

Unexpected text containing a multi-byte character made the lexer panic
(slicing inside the character).
---
 lexan/src/lexicon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexan/src/lexicon.rs b/lexan/src/lexicon.rs
index e57e0ae..f61cbcc 100644
--- a/lexan/src/lexicon.rs
+++ b/lexan/src/lexicon.rs
@@ -75,7 +75,7 @@ where
 
     /// Returns the distance in bytes to the next valid content in `text`
     pub fn distance_to_next_valid_byte(&self, text: &str) -> usize {
-        for index in 0..text.len() {
+        for (index, _) in text.char_indices() {
             if self.literal_matcher.matches(&text[index..]) {
                 return index;
             }
-- 
2.43.0


From bf0b29cc157964981bd2daa060c5ae795b726010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 02/24] fix: lexan: anchor every alternative of a pattern

\A was prepended without grouping, so for a pattern such as `(a)|(b)` only
the first alternative was anchored and a match of the second one anywhere in
the rest of the text was taken for a match at its start.
---
 lexan/src/matcher.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index f4a4262..b938ae6 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -133,8 +133,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
             if pattern.is_empty() {
                 return Err(LexanError::EmptyPattern(Some(*tag)));
             };
-            let mut anchored_pattern = "\\A".to_string();
-            anchored_pattern.push_str(pattern);
+            let anchored_pattern = format!("\\A(?:{pattern})");
             lexemes.push((*tag, Regex::new(&anchored_pattern)?));
         }
         Ok(Self { lexemes })
@@ -182,8 +181,7 @@ impl SkipMatcher {
             if regex_str.is_empty() {
                 return Err(LexanError::EmptyPattern(None));
             };
-            let mut anchored_pattern = "\\A".to_string();
-            anchored_pattern.push_str(regex_str);
+            let anchored_pattern = format!("\\A(?:{regex_str})");
             regexes.push(Regex::new(&anchored_pattern)?);
         }
         Ok(Self { regexes })
-- 
2.43.0


From dd30101b9f0b327236dcf9b83653be8628d8d1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 03/24] fix: lexan: count every line ending in mixed LF/CRLF
 text

The first CRLF of a span was looked for before any LF, so lines ended by a
bare LF before it were not counted.
---
 lexan/src/analyzer.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lexan/src/analyzer.rs b/lexan/src/analyzer.rs
index 3952d04..7e80ac0 100644
--- a/lexan/src/analyzer.rs
+++ b/lexan/src/analyzer.rs
@@ -178,11 +178,7 @@ where
         let slice = &self.text[self.index..next_index];
         let mut i = 0;
         while i < length {
-            if let Some(eol_i) = slice[i..].find("\r\n") {
-                self.location.line_number += 1;
-                self.location.offset = 1;
-                i += eol_i + 2;
-            } else if let Some(eol_i) = slice[i..].find('\n') {
+            if let Some(eol_i) = slice[i..].find('\n') {
                 self.location.line_number += 1;
                 self.location.offset = 1;
                 i += eol_i + 1;
-- 
2.43.0


From 1aef7ab8427c99447a5d251b59dceb95e2cfc5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 04/24] fix: lexan: do not accept empty matches of token and
 skip patterns

A pattern that matches the empty string gave zero-length tokens for ever, or
(for a skip pattern) hung the lexer.
---
 lexan/src/matcher.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lexan/src/matcher.rs b/lexan/src/matcher.rs
index b938ae6..9a8b172 100644
--- a/lexan/src/matcher.rs
+++ b/lexan/src/matcher.rs
@@ -144,7 +144,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
         let mut matches = vec![];
         let mut largest_end = 0;
         for (tag, regex) in self.lexemes.iter() {
-            if let Some(m) = regex.find(text) {
+            if let Some(m) = regex.find(text).filter(|m| !m.is_empty()) {
                 match m.end().cmp(&largest_end) {
                     Ordering::Equal => matches.push(*tag),
                     Ordering::Greater => {
@@ -161,7 +161,7 @@ impl<T: Copy + Ord + Debug + Display> RegexMatcher<T> {
     /// Returns `true` if we match the start of the text
     pub fn matches(&self, text: &str) -> bool {
         for (_, regex) in self.lexemes.iter() {
-            if regex.find(text).is_some() {
+            if regex.find(text).is_some_and(|m| !m.is_empty()) {
                 return true;
             }
         }
@@ -192,7 +192,7 @@ impl SkipMatcher {
         let mut index = 0;
         'outer: while index < text.len() {
             for regex in self.regexes.iter() {
-                if let Some(m) = regex.find(&text[index..]) {
+                if let Some(m) = regex.find(&text[index..]).filter(|m| !m.is_empty()) {
                     index += m.end();
                     continue 'outer;
                 }
@@ -204,7 +204,7 @@ impl SkipMatcher {
 
     pub fn matches(&self, text: &str) -> bool {
         for regex in self.regexes.iter() {
-            if regex.find(text).is_some() {
+            if regex.find(text).is_some_and(|m| !m.is_empty()) {
                 return true;
             }
         }
-- 
2.43.0


From 0483a94079d70e0d656f666462930603672f95c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 05/24] fix: consider the initial state when recovering from an
 error

viable_error_recovery_states() may list state 0 but the search stopped short
of the bottom of the stack, so an error symbol at the start of the input could
never be used.
---
 alalr1/src/lib.rs | 2 +-
 lalr1/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index 135a747..03ff5b7 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -113,7 +113,7 @@ where
         while !tokens.is_empty() {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
-                for sub in 1..self.states.len() {
+                for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
                     if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
                         self.last_error_state = Some(candidate);
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index 0b5ea6f..81bd696 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -171,7 +171,7 @@ where
         while !tokens.is_empty() {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
-                for sub in 1..self.states.len() {
+                for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
                     if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
                         self.last_error_state = Some(candidate);
-- 
2.43.0


From fd95900984a03661eb18590599e5c455f1eb75c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 06/24] fix: recover from every error, not just the first one,
 in a state

The state used for a recovery was never forgotten, so when a second error
needed the same state (the normal case for a list of statements) the rest of
the input was thrown away.  Remember the states used since the last shift: that
still prevents recovering for ever without consuming input.
---
 alalr1/src/lib.rs | 18 ++++++------------
 lalr1/src/lib.rs  | 18 ++++++------------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index 03ff5b7..06564b4 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -48,7 +48,8 @@ where
 {
     states: Vec<(Symbol<T, N>, u32)>,
     attributes: Vec<A>,
-    last_error_state: Option<u32>,
+    // The states used for error recovery since a token was last shifted
+    error_states: Vec<u32>,
 }
 
 impl<T, N, A> ParseStack<T, N, A>
@@ -60,7 +61,7 @@ where
         Self {
             states: vec![(Symbol::Start, 0)],
             attributes: vec![],
-            last_error_state: None,
+            error_states: vec![],
         }
     }
 
@@ -86,6 +87,7 @@ where
     }
 
     fn push_terminal(&mut self, token: lexan::Token<T>, new_state: u32) {
+        self.error_states.clear();
         self.states
             .push((Symbol::Terminal(*token.tag()), new_state));
         self.attributes.push(A::from(token));
@@ -97,14 +99,6 @@ where
             .push((Symbol::NonTerminal(non_terminal), new_state));
     }
 
-    fn is_last_error_state(&self, state: u32) -> bool {
-        if let Some(last_error_state) = self.last_error_state {
-            state == last_error_state
-        } else {
-            false
-        }
-    }
-
     fn distance_to_viable_state<F: Fn(&T) -> OrderedSet<u32>>(
         &mut self,
         tokens: &mut TokenStream<T>,
@@ -115,8 +109,8 @@ where
                 let viable_states = viable_error_recovery_states(token.tag());
                 for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
-                    if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
-                        self.last_error_state = Some(candidate);
+                    if !self.error_states.contains(&candidate) && viable_states.contains(&candidate) {
+                        self.error_states.push(candidate);
                         return Some(sub - 1);
                     }
                 }
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index 81bd696..c4df162 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -106,7 +106,8 @@ where
 {
     states: Vec<(Symbol<T, N>, u32)>,
     attributes: Vec<A>,
-    last_error_state: Option<u32>,
+    // The states used for error recovery since a token was last shifted
+    error_states: Vec<u32>,
 }
 
 impl<T, N, A> ParseStack<T, N, A>
@@ -118,7 +119,7 @@ where
         Self {
             states: vec![(Symbol::Start, 0)],
             attributes: vec![],
-            last_error_state: None,
+            error_states: vec![],
         }
     }
 
@@ -144,6 +145,7 @@ where
     }
 
     fn push_terminal(&mut self, token: lexan::Token<T>, new_state: u32) {
+        self.error_states.clear();
         self.states
             .push((Symbol::Terminal(*token.tag()), new_state));
         self.attributes.push(A::from(token));
@@ -155,14 +157,6 @@ where
             .push((Symbol::NonTerminal(non_terminal), new_state));
     }
 
-    fn is_last_error_state(&self, state: u32) -> bool {
-        if let Some(last_error_state) = self.last_error_state {
-            state == last_error_state
-        } else {
-            false
-        }
-    }
-
     fn distance_to_viable_state<F: Fn(&T) -> OrderedSet<u32>>(
         &mut self,
         tokens: &mut TokenStream<T>,
@@ -173,8 +167,8 @@ where
                 let viable_states = viable_error_recovery_states(token.tag());
                 for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
-                    if !self.is_last_error_state(candidate) && viable_states.contains(&candidate) {
-                        self.last_error_state = Some(candidate);
+                    if !self.error_states.contains(&candidate) && viable_states.contains(&candidate) {
+                        self.error_states.push(candidate);
                         return Some(sub - 1);
                     }
                 }
-- 
2.43.0


From 36c4fc89daaad47b7026be961149f002d9227d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 07/24] fix: allow recovery from an error when the end of the
 input is acceptable

The search for a token with a viable state stopped before looking at the end
marker although the tables say where it is acceptable.
---
 alalr1/src/lib.rs | 9 ++++++---
 lalr1/src/lib.rs  | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index 06564b4..ec3fd5b 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -104,20 +104,23 @@ where
         tokens: &mut TokenStream<T>,
         viable_error_recovery_states: F,
     ) -> Option<usize> {
-        while !tokens.is_empty() {
+        loop {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
                 for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
-                    if !self.error_states.contains(&candidate) && viable_states.contains(&candidate) {
+                    if !self.error_states.contains(&candidate) && viable_states.contains(&candidate)
+                    {
                         self.error_states.push(candidate);
                         return Some(sub - 1);
                     }
                 }
             };
+            if tokens.is_empty() {
+                return None;
+            }
             tokens.advance();
         }
-        None
     }
 }
 
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index c4df162..e4020cf 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -162,20 +162,23 @@ where
         tokens: &mut TokenStream<T>,
         viable_error_recovery_states: F,
     ) -> Option<usize> {
-        while !tokens.is_empty() {
+        loop {
             if let Ok(token) = tokens.front() {
                 let viable_states = viable_error_recovery_states(token.tag());
                 for sub in 1..=self.states.len() {
                     let candidate = self.states[self.states.len() - sub].1;
-                    if !self.error_states.contains(&candidate) && viable_states.contains(&candidate) {
+                    if !self.error_states.contains(&candidate) && viable_states.contains(&candidate)
+                    {
                         self.error_states.push(candidate);
                         return Some(sub - 1);
                     }
                 }
             };
+            if tokens.is_empty() {
+                return None;
+            }
             tokens.advance();
         }
-        None
     }
 }
 
-- 
2.43.0


From 1844bdb5984614b6b990e8193946d03600bae4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:58 +0000
Subject: [PATCH 08/24] fix: merge the look ahead sets of every item of a state

When a state was reached again only its kernel items got the new look ahead
tokens; those of the items in its closure stayed as they were, so the generated
parser rejected valid sentences (e.g. "bcdy" for
S: "a" C "x" | "b" C "y". C: "c" DD. DD: "d".).
---
 alalr1_lib/src/grammar.rs | 19 ++++++++-----------
 alalr1_lib/src/state.rs   | 15 +++++----------
 lalr1_lib/src/grammar.rs  | 19 ++++++++-----------
 lalr1_lib/src/state.rs    | 15 +++++----------
 4 files changed, 26 insertions(+), 42 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 0a3c1a5..4715fc5 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -279,7 +279,6 @@ impl TryFrom<(Specification, bool, bool)> for Grammar {
             };
             grammar.new_parser_state(start_kernel);
             while let Some(unprocessed_state) = grammar.first_unprocessed_state() {
-                let first_time = !unprocessed_state.needs_reprocessing();
                 unprocessed_state.mark_as_processed();
                 let mut already_done = OrderedSet::<Symbol>::new();
                 for item_key in unprocessed_state.non_kernel_key_set().iter() {
@@ -296,17 +295,15 @@ impl TryFrom<(Specification, bool, bool)> for Grammar {
                         } else {
                             grammar.new_parser_state(item_set_x)
                         };
-                    if first_time {
-                        match symbol_x {
-                            Symbol::Terminal(token) => {
-                                unprocessed_state.add_shift_action(token.clone(), goto_state)
-                            }
-                            Symbol::NonTerminal(non_terminal) => {
-                                if non_terminal.is_error() {
-                                    unprocessed_state.set_error_recovery_state(&goto_state);
-                                }
-                                unprocessed_state.add_goto(non_terminal.clone(), goto_state);
+                    match symbol_x {
+                        Symbol::Terminal(token) => {
+                            unprocessed_state.add_shift_action(token.clone(), goto_state)
+                        }
+                        Symbol::NonTerminal(non_terminal) => {
+                            if non_terminal.is_error() {
+                                unprocessed_state.set_error_recovery_state(&goto_state);
                             }
+                            unprocessed_state.add_goto(non_terminal.clone(), goto_state);
                         }
                     }
                 }
diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 8f230af..f883baa 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -88,26 +88,21 @@ impl ParserState {
         self.0.shift_reduce_conflicts.borrow().len()
     }
 
-    pub fn needs_reprocessing(&self) -> bool {
-        matches!(
-            self.0.processed_state.get(),
-            ProcessedState::NeedsReprocessing
-        )
-    }
-
     pub fn mark_as_processed(&self) {
         self.0.processed_state.set(ProcessedState::Processed)
     }
 
     pub fn merge_lookahead_sets(&self, item_set: &GrammarItemSet) {
         let mut additions = 0;
-        for (key, other_look_ahead_set) in item_set.iter().filter(|(k, _)| k.is_kernel_item()) {
-            if let Some(look_ahead_set) = self.0.grammar_items.borrow_mut().get_mut(key) {
+        let mut grammar_items = self.0.grammar_items.borrow_mut();
+        for (key, other_look_ahead_set) in item_set.iter() {
+            if let Some(look_ahead_set) = grammar_items.get_mut(key) {
                 let current_len = look_ahead_set.len();
                 *look_ahead_set |= other_look_ahead_set;
                 additions += look_ahead_set.len() - current_len;
             } else {
-                panic!("key sets should be identical to get here")
+                grammar_items.insert(key.clone(), other_look_ahead_set.clone());
+                additions += 1;
             }
         }
         if additions > 0 && self.is_processed() {
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 7d7129c..79c81a4 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -275,7 +275,6 @@ impl TryFrom<(Specification, bool, bool)> for Grammar {
             };
             grammar.new_parser_state(start_kernel);
             while let Some(unprocessed_state) = grammar.first_unprocessed_state() {
-                let first_time = !unprocessed_state.needs_reprocessing();
                 unprocessed_state.mark_as_processed();
                 let mut already_done = OrderedSet::<Symbol>::new();
                 for item_key in unprocessed_state.non_kernel_key_set().iter() {
@@ -292,17 +291,15 @@ impl TryFrom<(Specification, bool, bool)> for Grammar {
                         } else {
                             grammar.new_parser_state(item_set_x)
                         };
-                    if first_time {
-                        match symbol_x {
-                            Symbol::Terminal(token) => {
-                                unprocessed_state.add_shift_action(token.clone(), goto_state)
-                            }
-                            Symbol::NonTerminal(non_terminal) => {
-                                if non_terminal.is_error() {
-                                    unprocessed_state.set_error_recovery_state(&goto_state);
-                                }
-                                unprocessed_state.add_goto(non_terminal.clone(), goto_state);
+                    match symbol_x {
+                        Symbol::Terminal(token) => {
+                            unprocessed_state.add_shift_action(token.clone(), goto_state)
+                        }
+                        Symbol::NonTerminal(non_terminal) => {
+                            if non_terminal.is_error() {
+                                unprocessed_state.set_error_recovery_state(&goto_state);
                             }
+                            unprocessed_state.add_goto(non_terminal.clone(), goto_state);
                         }
                     }
                 }
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 88e6d69..dd675cb 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -88,26 +88,21 @@ impl ParserState {
         self.0.shift_reduce_conflicts.borrow().len()
     }
 
-    pub fn needs_reprocessing(&self) -> bool {
-        matches!(
-            self.0.processed_state.get(),
-            ProcessedState::NeedsReprocessing
-        )
-    }
-
     pub fn mark_as_processed(&self) {
         self.0.processed_state.set(ProcessedState::Processed)
     }
 
     pub fn merge_lookahead_sets(&self, item_set: &GrammarItemSet) {
         let mut additions = 0;
-        for (key, other_look_ahead_set) in item_set.iter().filter(|(k, _)| k.is_kernel_item()) {
-            if let Some(look_ahead_set) = self.0.grammar_items.borrow_mut().get_mut(key) {
+        let mut grammar_items = self.0.grammar_items.borrow_mut();
+        for (key, other_look_ahead_set) in item_set.iter() {
+            if let Some(look_ahead_set) = grammar_items.get_mut(key) {
                 let current_len = look_ahead_set.len();
                 *look_ahead_set |= other_look_ahead_set;
                 additions += look_ahead_set.len() - current_len;
             } else {
-                panic!("key sets should be identical to get here")
+                grammar_items.insert(key.clone(), other_look_ahead_set.clone());
+                additions += 1;
             }
         }
         if additions > 0 && self.is_processed() {
-- 
2.43.0


From aac900fa4ce907fda9c3eb6896579bb3ccafab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 09/24] fix: compute first sets as a fixed point

The recursive computation did not terminate for indirectly left recursive
grammars (A: B "c" | "d". B: A "d" | "c".) and lost tokens when the
transparency of a non terminal was discovered late.
---
 alalr1_lib/src/grammar.rs             | 16 ++---
 alalr1_lib/src/symbol/non_terminal.rs | 89 ++++++++-------------------
 lalr1_lib/src/grammar.rs              | 16 ++---
 lalr1_lib/src/symbol/non_terminal.rs  | 89 ++++++++-------------------
 4 files changed, 66 insertions(+), 144 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 4715fc5..f0a5914 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -56,16 +56,12 @@ impl Specification {
         if !spec.symbol_table.error_non_terminal().is_unused() {
             spec.productions.push(Production::new(symbol, tail));
         }
-        spec.symbol_table
-            .start_non_terminal()
-            .set_firsts_data(&spec.productions);
-        spec.symbol_table
-            .error_non_terminal()
-            .set_firsts_data(&spec.productions);
-        for non_terminal in spec.symbol_table.non_terminals() {
-            //if non_terminal.firsts_data_is_none() {
-            non_terminal.set_firsts_data(&spec.productions)
-            //}
+        let mut firsts_changed = true;
+        while firsts_changed {
+            firsts_changed = false;
+            for production in spec.productions.iter() {
+                firsts_changed |= production.left_hand_side().update_firsts_data(production);
+            }
         }
         Ok(spec)
     }
diff --git a/alalr1_lib/src/symbol/non_terminal.rs b/alalr1_lib/src/symbol/non_terminal.rs
index b6b8b0c..500d72f 100644
--- a/alalr1_lib/src/symbol/non_terminal.rs
+++ b/alalr1_lib/src/symbol/non_terminal.rs
@@ -21,7 +21,7 @@ pub struct NonTerminalData {
     name: String,
     defined_at: RefCell<Vec<lexan::Location>>,
     used_at: RefCell<Vec<lexan::Location>>,
-    firsts_data: RefCell<Option<FirstsData>>,
+    firsts_data: RefCell<FirstsData>,
 }
 
 impl PartialEq for NonTerminalData {
@@ -170,84 +170,49 @@ impl NonTerminal {
     }
 
     pub fn firsts_data(&self) -> FirstsData {
-        let msg = format!("{} :should be set", self.name());
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().clone().expect(&msg)
+                non_terminal_data.firsts_data.borrow().clone()
             }
         }
     }
 
-    fn firsts_data_is_set(&self) -> bool {
+    /// Extend the set of tokens that this non terminal can start with (and its
+    /// transparency) using `production` (one of its productions) and what is known
+    /// so far about the symbols in it.  Returns `true` if this changed anything.
+    pub fn update_firsts_data(&self, production: &Production) -> bool {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().is_some()
-            }
-        }
-    }
-
-    pub fn set_firsts_data(&self, productions: &[Production]) {
-        match self {
-            NonTerminal::UserDefined(non_terminal_data)
-            | NonTerminal::Error(non_terminal_data)
-            | NonTerminal::Start(non_terminal_data) => {
-                if non_terminal_data.firsts_data.borrow().is_some() {
-                    return;
-                }
-                let relevant_productions: Vec<Production> = productions
-                    .iter()
-                    .filter(|x| x.left_hand_side() == self)
-                    .cloned()
-                    .collect();
-                let mut transparent = relevant_productions.iter().any(|x| x.is_empty());
-                let mut token_set = TokenSet::new();
-                let mut transparency_changed = true;
-                while transparency_changed {
-                    transparency_changed = false;
-                    for production in relevant_productions.iter() {
-                        let mut transparent_production = true;
-                        for rhs_symbol in production.right_hand_side_symbols() {
-                            match rhs_symbol {
-                                Symbol::NonTerminal(non_terminal) => {
-                                    if non_terminal == self {
-                                        if transparent {
-                                            continue;
-                                        } else {
-                                            transparent_production = false;
-                                            break;
-                                        }
-                                    }
-                                    if !non_terminal.firsts_data_is_set() {
-                                        non_terminal.set_firsts_data(productions);
-                                    }
-                                    let firsts_data = non_terminal.firsts_data();
-                                    token_set |= &firsts_data.token_set;
-                                    if !firsts_data.transparent {
-                                        transparent_production = false;
-                                        break;
-                                    }
-                                }
-                                Symbol::Terminal(token) => {
-                                    token_set.insert(token);
-                                    transparent_production = false;
-                                    break;
-                                }
+                let mut firsts_data = self.firsts_data();
+                let old_len = firsts_data.token_set.len();
+                let old_transparent = firsts_data.transparent;
+                let mut transparent_production = true;
+                for rhs_symbol in production.right_hand_side_symbols() {
+                    match rhs_symbol {
+                        Symbol::NonTerminal(non_terminal) => {
+                            let rhs_firsts_data = non_terminal.firsts_data();
+                            firsts_data.token_set |= &rhs_firsts_data.token_set;
+                            if !rhs_firsts_data.transparent {
+                                transparent_production = false;
+                                break;
                             }
                         }
-                        if transparent_production {
-                            transparency_changed = !transparent;
-                            transparent = true;
+                        Symbol::Terminal(token) => {
+                            firsts_data.token_set.insert(token);
+                            transparent_production = false;
+                            break;
                         }
                     }
                 }
-                *non_terminal_data.firsts_data.borrow_mut() = Some(FirstsData {
-                    token_set,
-                    transparent,
-                });
+                firsts_data.transparent |= transparent_production;
+                let changed = firsts_data.token_set.len() > old_len
+                    || firsts_data.transparent != old_transparent;
+                *non_terminal_data.firsts_data.borrow_mut() = firsts_data;
+                changed
             }
         }
     }
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 79c81a4..e9c2707 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -52,16 +52,12 @@ impl Specification {
         if !spec.symbol_table.error_non_terminal().is_unused() {
             spec.productions.push(Production::new(symbol, tail));
         }
-        spec.symbol_table
-            .start_non_terminal()
-            .set_firsts_data(&spec.productions);
-        spec.symbol_table
-            .error_non_terminal()
-            .set_firsts_data(&spec.productions);
-        for non_terminal in spec.symbol_table.non_terminals() {
-            //if non_terminal.firsts_data_is_none() {
-            non_terminal.set_firsts_data(&spec.productions)
-            //}
+        let mut firsts_changed = true;
+        while firsts_changed {
+            firsts_changed = false;
+            for production in spec.productions.iter() {
+                firsts_changed |= production.left_hand_side().update_firsts_data(production);
+            }
         }
         Ok(spec)
     }
diff --git a/lalr1_lib/src/symbol/non_terminal.rs b/lalr1_lib/src/symbol/non_terminal.rs
index b6b8b0c..500d72f 100644
--- a/lalr1_lib/src/symbol/non_terminal.rs
+++ b/lalr1_lib/src/symbol/non_terminal.rs
@@ -21,7 +21,7 @@ pub struct NonTerminalData {
     name: String,
     defined_at: RefCell<Vec<lexan::Location>>,
     used_at: RefCell<Vec<lexan::Location>>,
-    firsts_data: RefCell<Option<FirstsData>>,
+    firsts_data: RefCell<FirstsData>,
 }
 
 impl PartialEq for NonTerminalData {
@@ -170,84 +170,49 @@ impl NonTerminal {
     }
 
     pub fn firsts_data(&self) -> FirstsData {
-        let msg = format!("{} :should be set", self.name());
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().clone().expect(&msg)
+                non_terminal_data.firsts_data.borrow().clone()
             }
         }
     }
 
-    fn firsts_data_is_set(&self) -> bool {
+    /// Extend the set of tokens that this non terminal can start with (and its
+    /// transparency) using `production` (one of its productions) and what is known
+    /// so far about the symbols in it.  Returns `true` if this changed anything.
+    pub fn update_firsts_data(&self, production: &Production) -> bool {
         match self {
             NonTerminal::UserDefined(non_terminal_data)
             | NonTerminal::Error(non_terminal_data)
             | NonTerminal::Start(non_terminal_data) => {
-                non_terminal_data.firsts_data.borrow().is_some()
-            }
-        }
-    }
-
-    pub fn set_firsts_data(&self, productions: &[Production]) {
-        match self {
-            NonTerminal::UserDefined(non_terminal_data)
-            | NonTerminal::Error(non_terminal_data)
-            | NonTerminal::Start(non_terminal_data) => {
-                if non_terminal_data.firsts_data.borrow().is_some() {
-                    return;
-                }
-                let relevant_productions: Vec<Production> = productions
-                    .iter()
-                    .filter(|x| x.left_hand_side() == self)
-                    .cloned()
-                    .collect();
-                let mut transparent = relevant_productions.iter().any(|x| x.is_empty());
-                let mut token_set = TokenSet::new();
-                let mut transparency_changed = true;
-                while transparency_changed {
-                    transparency_changed = false;
-                    for production in relevant_productions.iter() {
-                        let mut transparent_production = true;
-                        for rhs_symbol in production.right_hand_side_symbols() {
-                            match rhs_symbol {
-                                Symbol::NonTerminal(non_terminal) => {
-                                    if non_terminal == self {
-                                        if transparent {
-                                            continue;
-                                        } else {
-                                            transparent_production = false;
-                                            break;
-                                        }
-                                    }
-                                    if !non_terminal.firsts_data_is_set() {
-                                        non_terminal.set_firsts_data(productions);
-                                    }
-                                    let firsts_data = non_terminal.firsts_data();
-                                    token_set |= &firsts_data.token_set;
-                                    if !firsts_data.transparent {
-                                        transparent_production = false;
-                                        break;
-                                    }
-                                }
-                                Symbol::Terminal(token) => {
-                                    token_set.insert(token);
-                                    transparent_production = false;
-                                    break;
-                                }
+                let mut firsts_data = self.firsts_data();
+                let old_len = firsts_data.token_set.len();
+                let old_transparent = firsts_data.transparent;
+                let mut transparent_production = true;
+                for rhs_symbol in production.right_hand_side_symbols() {
+                    match rhs_symbol {
+                        Symbol::NonTerminal(non_terminal) => {
+                            let rhs_firsts_data = non_terminal.firsts_data();
+                            firsts_data.token_set |= &rhs_firsts_data.token_set;
+                            if !rhs_firsts_data.transparent {
+                                transparent_production = false;
+                                break;
                             }
                         }
-                        if transparent_production {
-                            transparency_changed = !transparent;
-                            transparent = true;
+                        Symbol::Terminal(token) => {
+                            firsts_data.token_set.insert(token);
+                            transparent_production = false;
+                            break;
                         }
                     }
                 }
-                *non_terminal_data.firsts_data.borrow_mut() = Some(FirstsData {
-                    token_set,
-                    transparent,
-                });
+                firsts_data.transparent |= transparent_production;
+                let changed = firsts_data.token_set.len() > old_len
+                    || firsts_data.transparent != old_transparent;
+                *non_terminal_data.firsts_data.borrow_mut() = firsts_data;
+                changed
             }
         }
     }
-- 
2.43.0


From 16a232de104e3154a651d6f13246dd0d4243663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 10/24] fix: number the productions of each specification from
 zero

The numbers came from a counter shared by the whole process and the start
production was recognised by its being number zero, so only the first parser
generated by a process (e.g. a build script) could ever accept its input.
---
 alalr1_lib/src/grammar.rs    |  8 +++++---
 alalr1_lib/src/production.rs | 10 ++++------
 lalr1_lib/src/grammar.rs     |  8 +++++---
 lalr1_lib/src/production.rs  | 10 ++++------
 4 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index f0a5914..0a9b9d7 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -54,7 +54,8 @@ impl Specification {
         let symbol = spec.symbol_table.error_non_terminal.clone();
         let tail = ProductionTail::default();
         if !spec.symbol_table.error_non_terminal().is_unused() {
-            spec.productions.push(Production::new(symbol, tail));
+            let index = spec.productions.len();
+            spec.productions.push(Production::new(index, symbol, tail));
         }
         let mut firsts_changed = true;
         while firsts_changed {
@@ -92,11 +93,12 @@ impl Specification {
             left_hand_side.add_used_at(&location);
             let start_symbol = self.symbol_table.start_non_terminal_used_at(&location);
             let start_tail = ProductionTail::new(&[left_hand_side.into()], None, None, None);
-            let start_production = Production::new(start_symbol, start_tail);
+            let start_production = Production::new(0, start_symbol, start_tail);
             self.productions.push(start_production);
         }
+        let index = self.productions.len();
         self.productions
-            .push(Production::new(left_hand_side.clone(), tail.clone()));
+            .push(Production::new(index, left_hand_side.clone(), tail.clone()));
     }
 
     fn closure(&self, mut closure_set: GrammarItemSet) -> GrammarItemSet {
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 6ceb740..5fb1c4f 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -14,7 +14,6 @@ use std::iter::FromIterator;
 use std::ops::Index;
 use std::rc::Rc;
 use std::str::FromStr;
-use std::sync::atomic::{self, AtomicU32};
 
 #[derive(Debug, Default)]
 pub struct ProductionTailData {
@@ -71,9 +70,8 @@ fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)>
 pub struct ProductionId(u32);
 
 impl ProductionId {
-    fn new() -> Self {
-        static NEXT_ID: AtomicU32 = AtomicU32::new(0);
-        ProductionId(NEXT_ID.fetch_add(1, atomic::Ordering::Relaxed))
+    fn new(index: usize) -> Self {
+        ProductionId(index as u32)
     }
 
     pub fn is_zero(&self) -> bool {
@@ -108,9 +106,9 @@ lazy_static! {
 }
 
 impl Production {
-    pub fn new(left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
+    pub fn new(index: usize, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
         Self(Rc::new(ProductionData {
-            ident: ProductionId::new(),
+            ident: ProductionId::new(index),
             left_hand_side,
             tail,
         }))
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index e9c2707..190ef20 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -50,7 +50,8 @@ impl Specification {
         let symbol = spec.symbol_table.error_non_terminal.clone();
         let tail = ProductionTail::default();
         if !spec.symbol_table.error_non_terminal().is_unused() {
-            spec.productions.push(Production::new(symbol, tail));
+            let index = spec.productions.len();
+            spec.productions.push(Production::new(index, symbol, tail));
         }
         let mut firsts_changed = true;
         while firsts_changed {
@@ -88,11 +89,12 @@ impl Specification {
             left_hand_side.add_used_at(&location);
             let start_symbol = self.symbol_table.start_non_terminal_used_at(&location);
             let start_tail = ProductionTail::new(&[left_hand_side.into()], None, None);
-            let start_production = Production::new(start_symbol, start_tail);
+            let start_production = Production::new(0, start_symbol, start_tail);
             self.productions.push(start_production);
         }
+        let index = self.productions.len();
         self.productions
-            .push(Production::new(left_hand_side.clone(), tail.clone()));
+            .push(Production::new(index, left_hand_side.clone(), tail.clone()));
     }
 
     fn closure(&self, mut closure_set: GrammarItemSet) -> GrammarItemSet {
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index fc7deb6..194f7c0 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -14,7 +14,6 @@ use std::iter::FromIterator;
 use std::ops::Index;
 use std::rc::Rc;
 use std::str::FromStr;
-use std::sync::atomic::{self, AtomicU32};
 
 #[derive(Debug, Default)]
 pub struct ProductionTailData {
@@ -67,9 +66,8 @@ fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)>
 pub struct ProductionId(u32);
 
 impl ProductionId {
-    fn new() -> Self {
-        static NEXT_ID: AtomicU32 = AtomicU32::new(0);
-        ProductionId(NEXT_ID.fetch_add(1, atomic::Ordering::Relaxed))
+    fn new(index: usize) -> Self {
+        ProductionId(index as u32)
     }
 
     pub fn is_zero(&self) -> bool {
@@ -104,9 +102,9 @@ lazy_static! {
 }
 
 impl Production {
-    pub fn new(left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
+    pub fn new(index: usize, left_hand_side: NonTerminal, tail: ProductionTail) -> Self {
         Self(Rc::new(ProductionData {
-            ident: ProductionId::new(),
+            ident: ProductionId::new(index),
             left_hand_side,
             tail,
         }))
-- 
2.43.0


From 9b74cfebece4349dc724cdac5336fcb979bb1011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 11/24] fix: generate correct code for any literal token text

The text was pasted into a format string, so braces in it gave code that did not
compile, and the lexer looked for the backslash of an escaped quote.
---
 alalr1_lib/src/grammar.rs         | 6 +++---
 alalr1_lib/src/symbol/terminal.rs | 7 +++++++
 lalr1_lib/src/grammar.rs          | 6 +++---
 lalr1_lib/src/symbol/terminal.rs  | 7 +++++++
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 0a9b9d7..d32bb26 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -423,7 +423,7 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => f.write_str({:?}),\n",
                         token_data.name, token_data.text
                     ))?;
                 }
@@ -481,9 +481,9 @@ impl Grammar {
         for token in self.specification.symbol_table.literal_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###{}###),\n",
+                "({}, {:?}),\n",
                 token.name(),
-                token.text()
+                token.literal_text()
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
diff --git a/alalr1_lib/src/symbol/terminal.rs b/alalr1_lib/src/symbol/terminal.rs
index 338c8c8..df85c37 100644
--- a/alalr1_lib/src/symbol/terminal.rs
+++ b/alalr1_lib/src/symbol/terminal.rs
@@ -101,6 +101,13 @@ impl Token {
         }
     }
 
+    /// The text that a literal token stands for: i.e. without the enclosing
+    /// quotes and with escaped quotes unescaped.
+    pub fn literal_text(&self) -> String {
+        let text = self.text();
+        text[1..text.len() - 1].replace("\\\"", "\"")
+    }
+
     pub fn defined_at(&self) -> &lexan::Location {
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => &token_data.defined_at,
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 190ef20..87a7e0e 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -419,7 +419,7 @@ impl Grammar {
             match token {
                 Token::Literal(token_data) => {
                     wtr.write_fmt(format_args!(
-                        "{} => write!(f, r###\"{}\"###),\n",
+                        "{} => f.write_str({:?}),\n",
                         token_data.name, token_data.text
                     ))?;
                 }
@@ -477,9 +477,9 @@ impl Grammar {
         for token in self.specification.symbol_table.literal_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###{}###),\n",
+                "({}, {:?}),\n",
                 token.name(),
-                token.text()
+                token.literal_text()
             ))?;
         }
         wtr.write_all(b"            ],\n")?;
diff --git a/lalr1_lib/src/symbol/terminal.rs b/lalr1_lib/src/symbol/terminal.rs
index f5a6ad8..c34489c 100644
--- a/lalr1_lib/src/symbol/terminal.rs
+++ b/lalr1_lib/src/symbol/terminal.rs
@@ -101,6 +101,13 @@ impl Token {
         }
     }
 
+    /// The text that a literal token stands for: i.e. without the enclosing
+    /// quotes and with escaped quotes unescaped.
+    pub fn literal_text(&self) -> String {
+        let text = self.text();
+        text[1..text.len() - 1].replace("\\\"", "\"")
+    }
+
     pub fn defined_at(&self) -> &lexan::Location {
         match self {
             Token::Literal(token_data) | Token::Regex(token_data) => &token_data.defined_at,
-- 
2.43.0


From f389506da785556c7cfb5b8952ac212c00208654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 12/24] fix: treat a conflict decided by %right as resolved

It was resolved in favour of the shift but still counted as an unexpected
shift/reduce conflict, which made the generator refuse the grammar.
---
 alalr1_lib/src/state.rs | 4 +++-
 lalr1_lib/src/state.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index f883baa..d0ba37f 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -174,7 +174,9 @@ impl ParserState {
                     .remove(shift_symbol);
             } else if reducible_item.associativity() == Associativity::Left {
                 shift_list.remove(shift_symbol);
-            } else if reducible_item.has_error_recovery_tail() {
+            } else if reducible_item.associativity() == Associativity::Right
+                || reducible_item.has_error_recovery_tail()
+            {
                 grammar_items
                     .get_mut(reducible_item)
                     .unwrap()
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index dd675cb..0610af6 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -174,7 +174,9 @@ impl ParserState {
                     .remove(shift_symbol);
             } else if reducible_item.associativity() == Associativity::Left {
                 shift_list.remove(shift_symbol);
-            } else if reducible_item.has_error_recovery_tail() {
+            } else if reducible_item.associativity() == Associativity::Right
+                || reducible_item.has_error_recovery_tail()
+            {
                 grammar_items
                     .get_mut(reducible_item)
                     .unwrap()
-- 
2.43.0


From 5242e14e6474265f9927bb11da1c0a3af95a6056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 13/24] fix: report a duplicate tag or clashing non terminal
 instead of panicking

The attribute expected by the productions that follow was never set after the
error was reported, which ended in a "Wrong attribute variant" panic.
---
 alalr1_lib/src/bootstrap.rs | 13 ++++++++++---
 alalr1_lib/src/parser.alaps | 11 +++++++++--
 alalr1_lib/src/parser.rs    | 11 +++++++++--
 lalr1_lib/src/parser.laps   | 11 +++++++++--
 lalr1_lib/src/parser.rs     | 11 +++++++++--
 5 files changed, 46 insertions(+), 11 deletions(-)

diff --git a/alalr1_lib/src/bootstrap.rs b/alalr1_lib/src/bootstrap.rs
index 841cdf2..27c1269 100644
--- a/alalr1_lib/src/bootstrap.rs
+++ b/alalr1_lib/src/bootstrap.rs
@@ -5,7 +5,8 @@
 use std::{fs::File, io::Read, str::FromStr};
 
 use crate::{
-    attributes::*, grammar::Specification, production::ProductionTail, symbol::tag::TagOrToken,
+    attributes::*, grammar::Specification, production::ProductionTail, symbol::non_terminal::NonTerminal,
+    symbol::tag::TagOrToken,
     symbol::Associativity,
 };
 
@@ -1537,7 +1538,10 @@ impl lalr1_plus::Parser<AATerminal, AANonTerminal, AttributeData> for Specificat
                     };
                     match self.symbol_table.new_tag(name, location) {
                         Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                        Err(err) => self.error(location, &err.to_string()),
+                        Err(err) => {
+                            self.error(location, &err.to_string());
+                            aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                        }
                     }
                 }
             }
@@ -1558,7 +1562,10 @@ impl lalr1_plus::Parser<AATerminal, AANonTerminal, AttributeData> for Specificat
                     Ok(non_terminal) => {
                         aa_lhs = AttributeData::LeftHandSide(non_terminal);
                     }
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::LeftHandSide(NonTerminal::new_defined(name, location));
+                    }
                 }
             }
             44 => {
diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index c95b08a..021711a 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -10,6 +10,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 %}
@@ -275,7 +276,10 @@ Tag: Literal
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => $$ = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        $$ = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         !}
@@ -303,7 +307,10 @@ ProductionGroupHead: Ident ":"
                 Ok(non_terminal) => {
                     $$ = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    $$ = AttributeData::LeftHandSide(NonTerminal::new_defined(name, location));
+                }
             }
         !}
     .
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index c6ce0f9..221f892 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -8,6 +8,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 use lalr1::OrderedSet;
@@ -1514,7 +1515,10 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         
@@ -1537,7 +1541,10 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
                 Ok(non_terminal) => {
                     aa_lhs = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    aa_lhs = AttributeData::LeftHandSide(NonTerminal::new_defined(name, location));
+                }
             }
         
             }
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index 7a12830..270ebee 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -12,6 +12,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 %}
@@ -279,7 +280,10 @@ Tag: Literal
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => $$ = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        $$ = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         !}
@@ -307,7 +311,10 @@ ProductionGroupHead: Ident ":"
                 Ok(non_terminal) => {
                     $$ = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    $$ = AttributeData::LeftHandSide(NonTerminal::new_defined(name, location));
+                }
             }
         !}
     .
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index a61bd30..8fa1e88 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -10,6 +10,7 @@ use crate::{
     grammar::Specification,
     production::ProductionTail,
     symbol::Associativity,
+    symbol::non_terminal::NonTerminal,
     symbol::tag::TagOrToken,
 };
 use lalr1::OrderedSet;
@@ -1435,7 +1436,10 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                 };
                 match self.symbol_table.new_tag(name, location) {
                     Ok(tag) => aa_lhs = AttributeData::TagOrToken(TagOrToken::from(&tag)),
-                    Err(err) => self.error(location, &err.to_string()),
+                    Err(err) => {
+                        self.error(location, &err.to_string());
+                        aa_lhs = AttributeData::TagOrToken(TagOrToken::Invalid);
+                    }
                 }
             }
         
@@ -1458,7 +1462,10 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
                 Ok(non_terminal) => {
                     aa_lhs = AttributeData::LeftHandSide(non_terminal);
                 }
-                Err(err) => self.error(location, &err.to_string())
+                Err(err) => {
+                    self.error(location, &err.to_string());
+                    aa_lhs = AttributeData::LeftHandSide(NonTerminal::new_defined(name, location));
+                }
             }
         
             }
-- 
2.43.0


From 077cf7ae2906054e73a011d574248cf1e5639d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 14/24] fix: alalr1: generate valid code when every reduction
 has a predicate

A lone predicate tripped an assertion in the generator (or was ignored by a
release build) and several of them gave an if/else-if chain without an else.
If no predicate holds the token is not acceptable.
---
 alalr1_lib/src/state.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index d0ba37f..ae66a71 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -287,10 +287,10 @@ impl ParserState {
             ))?;
         }
         for (productions, look_ahead_set) in reductions.reductions() {
-            if productions.len() == 1 {
-                // NB this is clumsy but first() for OrderedSet is only experimental
-                let production = productions.iter().next().expect("len() == 1");
-                debug_assert!(!production.has_predicate());
+            // NB this is clumsy but first() for OrderedSet is only experimental
+            let production = productions.iter().next().expect("len() > 0");
+            if !production.has_predicate() {
+                debug_assert!(productions.len() == 1);
                 wtr.write_fmt(format_args!("{indent}    // {production}\n"))?;
                 if production.is_start_production() {
                     wtr.write_fmt(format_args!(
@@ -339,6 +339,10 @@ impl ParserState {
                         ))?;
                     }
                 }
+                if productions.iter().all(|p| p.has_predicate()) {
+                    wtr.write_fmt(format_args!("{indent}        }} else {{\n"))?;
+                    wtr.write_fmt(format_args!("{indent}            Action::SyntaxError\n"))?;
+                }
                 wtr.write_fmt(format_args!("{indent}        }}\n"))?;
                 wtr.write_fmt(format_args!("{indent}    }}\n"))?;
             }
-- 
2.43.0


From 0cd080d4ba1ca5e64f2602e6539fd2092e218efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 15/24] fix: alalr1: keep multi line predicates out of one line
 comments

The rest of the predicate ended up in the generated code as if it were code.
---
 alalr1_lib/src/production.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 5fb1c4f..3b5f798 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -228,6 +228,8 @@ impl Display for Production {
         };
         string += &format!(" #({}, {})", self.associativity(), self.precedence());
         if let Some(predicate) = &self.0.tail.0.predicate {
+            // NB this text is used for one line comments in the generated code
+            let predicate = predicate.replace('\n', " ");
             string += &format!(" ?({predicate}?)");
         };
         write!(f, "{string}")
-- 
2.43.0


From f3de29f1b018fc053f12bb737e6b15a6432d0311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 16/24] fix: report impossible attribute references instead of
 panicking

"$0" in an action, a number too big to represent or a reference past the end of
the right hand side in a predicate made the generator panic while it was
writing the parser.
---
 alalr1_lib/src/grammar.rs    |  6 ++++++
 alalr1_lib/src/production.rs | 17 +++++++++++++++++
 lalr1_lib/src/grammar.rs     |  6 ++++++
 lalr1_lib/src/production.rs  |  8 ++++++++
 4 files changed, 37 insertions(+)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index d32bb26..14e9f9b 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -86,6 +86,12 @@ impl Specification {
     }
 
     pub fn new_production(&mut self, left_hand_side: &NonTerminal, tail: &ProductionTail) {
+        if let Some(reference) = tail.bad_attribute_reference() {
+            let location = left_hand_side
+                .first_definition()
+                .expect("should be defined");
+            self.error(&location, &format!("\"{reference}\": no such attribute"));
+        }
         if self.productions.is_empty() {
             let location = left_hand_side
                 .first_definition()
diff --git a/alalr1_lib/src/production.rs b/alalr1_lib/src/production.rs
index 3b5f798..4e94ad9 100644
--- a/alalr1_lib/src/production.rs
+++ b/alalr1_lib/src/production.rs
@@ -55,6 +55,23 @@ impl ProductionTail {
             precedence,
         }))
     }
+
+    /// Returns the first `$N` in the code of this tail for which there is no attribute
+    pub fn bad_attribute_reference(&self) -> Option<String> {
+        if let Some(predicate) = &self.0.predicate {
+            let rhs_len = self.0.right_hand_side.len();
+            let bad_reference = RHS_CRE
+                .captures_iter(predicate)
+                .find(|caps| !usize::from_str(&caps[1]).is_ok_and(|n| n <= rhs_len));
+            if let Some(caps) = bad_reference {
+                return Some(caps[0].to_string());
+            }
+        }
+        let caps = RHS_CRE
+            .captures_iter(self.0.action.as_ref()?)
+            .find(|caps| !usize::from_str(&caps[1]).is_ok_and(|n| n > 0))?;
+        Some(caps[0].to_string())
+    }
 }
 
 fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)> {
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 87a7e0e..0fa3100 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -82,6 +82,12 @@ impl Specification {
     }
 
     pub fn new_production(&mut self, left_hand_side: &NonTerminal, tail: &ProductionTail) {
+        if let Some(reference) = tail.bad_attribute_reference() {
+            let location = left_hand_side
+                .first_definition()
+                .expect("should be defined");
+            self.error(&location, &format!("\"{reference}\": no such attribute"));
+        }
         if self.productions.is_empty() {
             let location = left_hand_side
                 .first_definition()
diff --git a/lalr1_lib/src/production.rs b/lalr1_lib/src/production.rs
index 194f7c0..1eb086b 100644
--- a/lalr1_lib/src/production.rs
+++ b/lalr1_lib/src/production.rs
@@ -51,6 +51,14 @@ impl ProductionTail {
             precedence,
         }))
     }
+
+    /// Returns the first `$N` in the code of this tail for which there is no attribute
+    pub fn bad_attribute_reference(&self) -> Option<String> {
+        let caps = RHS_CRE
+            .captures_iter(self.0.action.as_ref()?)
+            .find(|caps| !usize::from_str(&caps[1]).is_ok_and(|n| n > 0))?;
+        Some(caps[0].to_string())
+    }
 }
 
 fn rhs_associated_precedence(symbols: &[Symbol]) -> Option<(Associativity, u16)> {
-- 
2.43.0


From e35486b7d34d858b816dd1a71b5bc7f017b89d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 17/24] fix: report definitions that the generated lexer would
 refuse

An empty literal or a skip rule that duplicates a token was accepted by the
generator but the parser it generated panicked as soon as it was used.
---
 alalr1_lib/src/symbol.rs | 10 ++++++++--
 lalr1_lib/src/symbol.rs  | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/alalr1_lib/src/symbol.rs b/alalr1_lib/src/symbol.rs
index 1ebb75d..e4ef9d1 100644
--- a/alalr1_lib/src/symbol.rs
+++ b/alalr1_lib/src/symbol.rs
@@ -71,6 +71,7 @@ pub enum Error {
     DuplicateTokenDefinition(Token),
     ConflictsWithToken(Token),
     DuplicateSkipRule(String),
+    EmptyLiteral(Token),
 }
 
 impl fmt::Display for Error {
@@ -111,6 +112,9 @@ impl fmt::Display for Error {
             Error::DuplicateSkipRule(string) => {
                 write!(f, "Skip rule \"{string}\" already defined.",)
             }
+            Error::EmptyLiteral(token) => {
+                write!(f, "Token \"{}\" has no text.", token.name())
+            }
         }
     }
 }
@@ -188,7 +192,9 @@ impl SymbolTable {
         defined_at: &lexan::Location,
     ) -> Result<Token, Error> {
         let token = Token::new_literal_token(name, text, defined_at);
-        if let Some(other) = self.tokens.insert(name.to_string(), token.clone()) {
+        if token.literal_text().is_empty() {
+            Err(Error::EmptyLiteral(token))
+        } else if let Some(other) = self.tokens.insert(name.to_string(), token.clone()) {
             Err(Error::DuplicateToken(other))
         } else if let Some(other) = self.literal_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
@@ -293,7 +299,7 @@ impl SymbolTable {
     }
 
     pub fn add_skip_rule(&mut self, skip_rule: &String) -> Result<(), Error> {
-        if self.skip_rules.contains(skip_rule) {
+        if self.skip_rules.contains(skip_rule) || self.regex_tokens.contains_key(skip_rule) {
             Err(Error::DuplicateSkipRule(skip_rule.to_string()))
         } else {
             self.skip_rules.push(skip_rule.to_string());
diff --git a/lalr1_lib/src/symbol.rs b/lalr1_lib/src/symbol.rs
index ed3d639..d1a5264 100644
--- a/lalr1_lib/src/symbol.rs
+++ b/lalr1_lib/src/symbol.rs
@@ -71,6 +71,7 @@ pub enum Error {
     DuplicateTokenDefinition(Token),
     ConflictsWithToken(Token),
     DuplicateSkipRule(String),
+    EmptyLiteral(Token),
 }
 
 impl fmt::Display for Error {
@@ -111,6 +112,9 @@ impl fmt::Display for Error {
             Error::DuplicateSkipRule(string) => {
                 write!(f, "Skip rule \"{string}\" already defined.",)
             }
+            Error::EmptyLiteral(token) => {
+                write!(f, "Token \"{}\" has no text.", token.name())
+            }
         }
     }
 }
@@ -188,7 +192,9 @@ impl SymbolTable {
         defined_at: &lexan::Location,
     ) -> Result<Token, Error> {
         let token = Token::new_literal_token(name, text, defined_at);
-        if let Some(other) = self.tokens.insert(name.to_string(), token.clone()) {
+        if token.literal_text().is_empty() {
+            Err(Error::EmptyLiteral(token))
+        } else if let Some(other) = self.tokens.insert(name.to_string(), token.clone()) {
             Err(Error::DuplicateToken(other))
         } else if let Some(other) = self.literal_tokens.insert(text.to_string(), token.clone()) {
             Err(Error::DuplicateTokenDefinition(other))
@@ -293,7 +299,7 @@ impl SymbolTable {
     }
 
     pub fn add_skip_rule(&mut self, skip_rule: &String) -> Result<(), Error> {
-        if self.skip_rules.contains(skip_rule) {
+        if self.skip_rules.contains(skip_rule) || self.regex_tokens.contains_key(skip_rule) {
             Err(Error::DuplicateSkipRule(skip_rule.to_string()))
         } else {
             self.skip_rules.push(skip_rule.to_string());
-- 
2.43.0


From c5bf4eef5123a8701e3ff99a7d30d725116100c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 18/24] fix: inject files where %inject stands

The text of an injected file was put before the full stop that ends the
%inject directive, which has been read by the time the action of the
production before it runs, so that any %inject was a syntax error.
---
 alalr1_lib/src/parser.alaps | 14 +++++++++-----
 alalr1_lib/src/parser.rs    |  6 +++++-
 lalr1_lib/src/parser.laps   | 14 +++++++++-----
 lalr1_lib/src/parser.rs     |  6 +++++-
 4 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/alalr1_lib/src/parser.alaps b/alalr1_lib/src/parser.alaps
index 021711a..280706f 100644
--- a/alalr1_lib/src/parser.alaps
+++ b/alalr1_lib/src/parser.alaps
@@ -57,7 +57,15 @@ OptionalInjection: !{ // no injection so nothing to do !} | Injection .
 
 InjectionHead: "%inject" Literal
         !{
-            let (text, location) = $2.text_and_location();
+            $$ = $2.clone();
+        !}
+    .
+
+// NB The text is injected in front of the pending token, which must not be
+// one of ours, so that has to wait until the "." has been shifted.
+Injection: InjectionHead "."
+        !{
+            let (text, location) = $1.text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
@@ -75,10 +83,6 @@ InjectionHead: "%inject" Literal
         !}
     .
 
-// NB This (including the split) is needed to allow for "look ahead" mechanism.
-// It ensures injection occurs before any meaningful tokens are read
-Injection: InjectionHead "." .
-
 // Preamble
 Preamble:
         !{
diff --git a/alalr1_lib/src/parser.rs b/alalr1_lib/src/parser.rs
index 221f892..31743ff 100644
--- a/alalr1_lib/src/parser.rs
+++ b/alalr1_lib/src/parser.rs
@@ -1314,8 +1314,12 @@ impl alalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification
             }
             4 => {
                 // InjectionHead: "%inject" Literal #(Right, 1)
+            aa_lhs = aa_rhs[1].clone();
+            }
+            5 => {
+                // Injection: InjectionHead "." #(NonAssoc, 0)
                 
-            let (text, location) = aa_rhs[1].text_and_location();
+            let (text, location) = aa_rhs[0].text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
diff --git a/lalr1_lib/src/parser.laps b/lalr1_lib/src/parser.laps
index 270ebee..709aafc 100644
--- a/lalr1_lib/src/parser.laps
+++ b/lalr1_lib/src/parser.laps
@@ -58,7 +58,15 @@ OptionalInjection: !{ // no injection so nothing to do !} | Injection .
 
 InjectionHead: "%inject" Literal
         !{
-            let (text, location) = $2.text_and_location();
+            $$ = $2.clone();
+        !}
+    .
+
+// NB The text is injected in front of the pending token, which must not be
+// one of ours, so that has to wait until the "." has been shifted.
+Injection: InjectionHead "."
+        !{
+            let (text, location) = $1.text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
@@ -79,10 +87,6 @@ InjectionHead: "%inject" Literal
         !}
     .
 
-// NB This (including the split) is needed to allow for "look ahead" mechanism.
-// It ensures injection occurs before any meaningful tokens are read
-Injection: InjectionHead "." .
-
 // Preamble
 Preamble:
         !{
diff --git a/lalr1_lib/src/parser.rs b/lalr1_lib/src/parser.rs
index 8fa1e88..21910ae 100644
--- a/lalr1_lib/src/parser.rs
+++ b/lalr1_lib/src/parser.rs
@@ -1230,8 +1230,12 @@ impl lalr1::Parser<AATerminal, AANonTerminal, AttributeData> for Specification {
             }
             4 => {
                 // InjectionHead: "%inject" Literal #(Right, 1)
+            aa_lhs = aa_rhs[1].clone();
+            }
+            5 => {
+                // Injection: InjectionHead "." #(NonAssoc, 0)
                 
-            let (text, location) = aa_rhs[1].text_and_location();
+            let (text, location) = aa_rhs[0].text_and_location();
             let file_path = text.trim_matches('"');
             match File::open(file_path) {
                 Ok(mut file) => {
-- 
2.43.0


From 796c19534a03e087875833f2f85ae8e53d2576d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 19/24] fix: emit patterns of tokens and skips as ordinary
 string literals

A pattern that contains "### or a carriage return ended the raw string
literal it was emitted in, or made it one that does not compile.
---
 alalr1_lib/src/grammar.rs | 4 ++--
 lalr1_lib/src/grammar.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index 14e9f9b..edc98e0 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -497,7 +497,7 @@ impl Grammar {
         for token in self.specification.symbol_table.regex_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###\"{}\"###),\n",
+                "({}, {:?}),\n",
                 token.name(),
                 token.text()
             ))?;
@@ -506,7 +506,7 @@ impl Grammar {
         wtr.write_all(b"            &[\n")?;
         for skip_rule in self.specification.symbol_table.skip_rules() {
             wtr.write_all(b"                ")?;
-            wtr.write_fmt(format_args!("r###\"{skip_rule}\"###,\n"))?;
+            wtr.write_fmt(format_args!("{skip_rule:?},\n"))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_fmt(format_args!("            {},\n", Token::End.name()))?;
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 0fa3100..2061545 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -493,7 +493,7 @@ impl Grammar {
         for token in self.specification.symbol_table.regex_tokens() {
             wtr.write_all(b"                ")?;
             wtr.write_fmt(format_args!(
-                "({}, r###\"{}\"###),\n",
+                "({}, {:?}),\n",
                 token.name(),
                 token.text()
             ))?;
@@ -502,7 +502,7 @@ impl Grammar {
         wtr.write_all(b"            &[\n")?;
         for skip_rule in self.specification.symbol_table.skip_rules() {
             wtr.write_all(b"                ")?;
-            wtr.write_fmt(format_args!("r###\"{skip_rule}\"###,\n"))?;
+            wtr.write_fmt(format_args!("{skip_rule:?},\n"))?;
         }
         wtr.write_all(b"            ],\n")?;
         wtr.write_fmt(format_args!("            {},\n", Token::End.name()))?;
-- 
2.43.0


From ca304096f61b995da6b7595b1c9670ed8b9e3030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 20/24] fix: replace only the last extension of a path

The default output of x.y.laps was x.rs, which it shared with x.z.laps,
because the stem was given the new extension in place of its own.
---
 alalr1_gen/src/main.rs | 8 +-------
 lalr1_gen/src/main.rs  | 8 +-------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/alalr1_gen/src/main.rs b/alalr1_gen/src/main.rs
index 1f8df60..e2b7f35 100644
--- a/alalr1_gen/src/main.rs
+++ b/alalr1_gen/src/main.rs
@@ -12,13 +12,7 @@ use std::{
 use alalr1_lib::grammar;
 
 fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
-    let mut new_path = PathBuf::new();
-    if let Some(dir) = path.parent() {
-        new_path.push(dir);
-    };
-    new_path.push(path.file_stem().unwrap());
-    new_path.set_extension(new_extension);
-    new_path
+    path.with_extension(new_extension)
 }
 
 #[derive(Debug, StructOpt)]
diff --git a/lalr1_gen/src/main.rs b/lalr1_gen/src/main.rs
index 11a1d2b..aa169f8 100644
--- a/lalr1_gen/src/main.rs
+++ b/lalr1_gen/src/main.rs
@@ -13,13 +13,7 @@ use std::{
 use lalr1_lib::grammar;
 
 fn with_changed_extension(path: &Path, new_extension: &str) -> PathBuf {
-    let mut new_path = PathBuf::new();
-    if let Some(dir) = path.parent() {
-        new_path.push(dir);
-    };
-    new_path.push(path.file_stem().unwrap());
-    new_path.set_extension(new_extension);
-    new_path
+    path.with_extension(new_extension)
 }
 
 #[derive(Debug, StructOpt)]
-- 
2.43.0


From c1dc7824ae0af4e5973a1a55b1b3844a2809dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 21/24] fix: end the preamble's last line before the generated
 code

---
 alalr1_lib/src/grammar.rs | 2 ++
 lalr1_lib/src/grammar.rs  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/alalr1_lib/src/grammar.rs b/alalr1_lib/src/grammar.rs
index edc98e0..43dbd39 100644
--- a/alalr1_lib/src/grammar.rs
+++ b/alalr1_lib/src/grammar.rs
@@ -151,6 +151,8 @@ impl Specification {
 
     pub fn write_preamble_text<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
         wtr.write_all(self.preamble.as_bytes())?;
+        // NB the preamble may end with a one line comment
+        wtr.write_all(b"\n")?;
         Ok(())
     }
 
diff --git a/lalr1_lib/src/grammar.rs b/lalr1_lib/src/grammar.rs
index 2061545..97c43b2 100644
--- a/lalr1_lib/src/grammar.rs
+++ b/lalr1_lib/src/grammar.rs
@@ -147,6 +147,8 @@ impl Specification {
 
     pub fn write_preamble_text<W: Write>(&self, wtr: &mut W) -> io::Result<()> {
         wtr.write_all(self.preamble.as_bytes())?;
+        // NB the preamble may end with a one line comment
+        wtr.write_all(b"\n")?;
         Ok(())
     }
 
-- 
2.43.0


From a0beda14bfeca26abee52b82d13fd4889f0b64a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 22/24] fix: alalr1: let a predicate end with a one line
 comment

---
 alalr1_lib/src/state.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index ae66a71..73d3c39 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -315,14 +315,13 @@ impl ParserState {
                 for (i, production) in productions.iter().enumerate() {
                     if i == 0 {
                         wtr.write_fmt(format_args!(
-                            "{}        if {} {{\n",
-                            indent,
+                            // NB the predicate may end with a one line comment
+                            "{indent}        if {}\n{indent}        {{\n",
                             production.expanded_predicate().expect("more than one")
                         ))?;
                     } else if production.has_predicate() {
                         wtr.write_fmt(format_args!(
-                            "{}        }} else if {} {{\n",
-                            indent,
+                            "{indent}        }} else if {}\n{indent}        {{\n",
                             production.expanded_predicate().expect("more than one")
                         ))?;
                     } else {
-- 
2.43.0


From 06597d1d6e4434767be370c5ac586e4c6b10c68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 23/24] fix: end the line of each shift/reduce conflict in a
 description

Several shift/reduce conflicts of one state, and the reduce/reduce conflicts
after them, ran together on one line.
---
 alalr1_lib/src/state.rs | 2 +-
 lalr1_lib/src/state.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1_lib/src/state.rs b/alalr1_lib/src/state.rs
index 73d3c39..4c14b13 100644
--- a/alalr1_lib/src/state.rs
+++ b/alalr1_lib/src/state.rs
@@ -436,7 +436,7 @@ impl ParserState {
                 string += &format!("    {shift_token}:\n");
                 string += &format!("      shift -> State<{}>\n", goto_state.ident());
                 string += &format!(
-                    "      reduce {}: {}",
+                    "      reduce {}: {}\n",
                     reducible_item.production(),
                     look_ahead_set
                 );
diff --git a/lalr1_lib/src/state.rs b/lalr1_lib/src/state.rs
index 0610af6..3d7b571 100644
--- a/lalr1_lib/src/state.rs
+++ b/lalr1_lib/src/state.rs
@@ -395,7 +395,7 @@ impl ParserState {
                 string += &format!("    {shift_token}:\n");
                 string += &format!("      shift -> State<{}>\n", goto_state.ident());
                 string += &format!(
-                    "      reduce {}: {}",
+                    "      reduce {}: {}\n",
                     reducible_item.production(),
                     look_ahead_set
                 );
-- 
2.43.0


From 27007919b3d28043aeee4280888375d423d02dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 24/24] fix: end the line of each error message that is
 reported by default

Several errors of one text ran together on one line of standard error.
---
 alalr1/src/lib.rs | 2 +-
 lalr1/src/lib.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/alalr1/src/lib.rs b/alalr1/src/lib.rs
index ec3fd5b..8b89670 100644
--- a/alalr1/src/lib.rs
+++ b/alalr1/src/lib.rs
@@ -27,7 +27,7 @@ pub trait ReportError<T: Ord + Copy + Debug + Display + Eq> {
             panic!("Fatal Error: {message}!!");
         };
         std::io::stderr()
-            .write_all(message.as_bytes())
+            .write_all(format!("{message}\n").as_bytes())
             .expect("Nowhere to go here!!!");
     }
 }
diff --git a/lalr1/src/lib.rs b/lalr1/src/lib.rs
index e4020cf..d80dadf 100644
--- a/lalr1/src/lib.rs
+++ b/lalr1/src/lib.rs
@@ -85,7 +85,7 @@ pub trait ReportError<T: Ord + Copy + Debug + Display + Eq> {
             panic!("Fatal Error: {message}!!");
         };
         std::io::stderr()
-            .write_all(message.as_bytes())
+            .write_all(format!("{message}\n").as_bytes())
             .expect("Nowhere to go here!!!");
     }
 }
-- 
2.43.0

