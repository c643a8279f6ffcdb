From ace09062f064e14070a9c99608337d542e47165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 01/30] fix: remember precedence and weight of overriding trie
 entries

The trie compared the precedence of a new rule against that of the existing
entry, but entries never stored their precedence, so among several rules of
translation precedence with the same path the last one won instead of the
first. The overriding entry also lost the weight of its boundary checks.
---
 src/translator/translation.rs |  5 +++++
 src/translator/trie.rs        | 26 +++++---------------------
 2 files changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/translator/translation.rs b/src/translator/translation.rs
index 150a882..4d1209e 100644
--- a/src/translator/translation.rs
+++ b/src/translator/translation.rs
@@ -287,6 +287,11 @@ impl ResolvedTranslation {
         Self { weight, ..self }
     }
 
+    /// Set the `precedence` of a translation.
+    pub fn with_precedence(self, precedence: Precedence) -> Self {
+        Self { precedence, ..self }
+    }
+
     /// Set the `output` of a translation.
     pub fn with_output(self, output: &str) -> Self {
         Self {
diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index d626d5e..43f6ebc 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -227,36 +227,20 @@ impl Trie {
             }
         }
 
+        let new_translation = ResolvedTranslation::new(from, to, length, stage, origin.clone())
+            .with_precedence(precedence.clone());
         if let Some(translation) = &current_node.translation {
             // this node already contains a translation
             if precedence > translation.precedence() {
-                current_node.translation = Some(ResolvedTranslation::new(
-                    from,
-                    to,
-                    from.chars().count(),
-                    stage,
-                    origin.clone(),
-                ));
+                current_node.translation = Some(new_translation);
             } else if cfg!(feature = "backwards_compatibility") {
                 // first rule wins, so nothing to insert
             } else {
                 // last rule wins
-                current_node.translation = Some(ResolvedTranslation::new(
-                    from,
-                    to,
-                    length,
-                    stage,
-                    origin.clone(),
-                ));
+                current_node.translation = Some(new_translation);
             }
         } else {
-            current_node.translation = Some(ResolvedTranslation::new(
-                from,
-                to,
-                length,
-                stage,
-                origin.clone(),
-            ));
+            current_node.translation = Some(new_translation);
         }
     }
 
-- 
2.43.0


From 8b1814a35b5a7d78c3e94918d19cb39278b8b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 02/30] fix: keep trie transitions ordered so that ties between
 candidates are deterministic

Several class transitions of a node can match at the same time and lead to
candidates of equal weight. Which one won depended on the iteration order of a
HashMap, so the same table and input gave different translations from run to
run.
---
 src/translator/trie.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index 43f6ebc..f546ea4 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -1,6 +1,6 @@
 //! Store and find simple translation rules using a prefix tree ([Trie](https://en.wikipedia.org/wiki/Trie))
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::{
     parser::{AnchoredRule, CharacterClass, CharacterClasses, Direction, Precedence},
@@ -11,7 +11,7 @@ use super::ResolvedTranslation;
 
 /// The union of one or more character classes, pre-resolved to their actual member
 /// characters.
-#[derive(Debug, PartialEq, Eq, Hash, Clone, Default)]
+#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Default)]
 pub struct ResolvedClasses {
     /// The characters contained in this character class
     chars: Vec<char>,
@@ -58,7 +58,7 @@ pub enum Transition {
 
 /// The resolved, trie-internal counterpart of [`Transition`] plus the transitions that only ever
 /// arise while inserting a plain character sequence.
-#[derive(Debug, PartialEq, Eq, Hash, Clone)]
+#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
 enum ResolvedTransition {
     Character(char),
     Start(ResolvedClasses),
@@ -78,7 +78,9 @@ pub enum ClassConstraint {
 #[derive(Default, Debug, Clone)]
 struct TrieNode {
     translation: Option<ResolvedTranslation>,
-    transitions: HashMap<ResolvedTransition, TrieNode>,
+    // ordered, so that which one of several equally long translations wins doesn't depend on the
+    // iteration order of a hash map
+    transitions: BTreeMap<ResolvedTransition, TrieNode>,
 }
 
 impl TrieNode {
-- 
2.43.0


From 1e99ed6cb8671ddde7b1e28ecf30304e1fd12c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 03/30] fix: advance past a compbrl trigger that starts with
 whitespace

A word containing such a trigger ended where the trigger started, so the
scanner never advanced and translation didn't terminate.
---
 src/translator/table/primary.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 5b027b7..160c72b 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -75,8 +75,9 @@ impl CompbrlScanner {
                 if !spans.contains(&new_span) {
                     spans.push(new_span);
                 }
-                // Skip to end of word to avoid adding duplicate spans for the same word.
-                pos = word_end;
+                // Skip to end of word to avoid adding duplicate spans for the same word. Make sure
+                // to advance even if the trigger itself starts with whitespace.
+                pos = word_end.max(pos + 1);
             } else {
                 pos += 1;
             }
-- 
2.43.0


From d6d6d8361178f3f7dee08b3c8260f1253facf35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 04/30] fix: forget applied zero-length translations whenever
 input is consumed

A zero-length translation must only be applied once per position, but the list
of applied ones was only cleared when a candidate consumed input, not when a
nocross rule or a plain character definition did. So it was never applied again
at the following positions.
---
 src/translator/table/multipass.rs | 1 +
 src/translator/table/primary.rs   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/translator/table/multipass.rs b/src/translator/table/multipass.rs
index 03353c0..d0c060f 100644
--- a/src/translator/table/multipass.rs
+++ b/src/translator/table/multipass.rs
@@ -160,6 +160,7 @@ impl MultipassTable {
                     }
                 }
             } else if let Some(next_char) = chars.next() {
+                seen.clear();
                 prev = Some(next_char);
                 // no translation rule found, just pass the character through
                 let translation = ResolvedTranslation::new(
diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 160c72b..cf85298 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1618,6 +1618,7 @@ impl PrimaryTable {
             if let Some(nocross) = &nocross_candidate
                 && candidate.is_none_or(|t| nocross.weight() >= t.weight())
             {
+                seen.clear();
                 let translation = nocross.clone();
                 let translation = uppercase_if_needed(translation);
                 // move the iterator forward by the number of characters in the translation
@@ -1651,6 +1652,7 @@ impl PrimaryTable {
                     }
                 }
             } else if let Some(next_char) = chars.next() {
+                seen.clear();
                 prev = Some(next_char);
                 char_pos += 1;
                 // no translation rule found
-- 
2.43.0


From acb02492d370c1b8f4bd5c672cc2c8818180a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 05/30] fix: honour both bounds of a bounded repetition

min-max quantifiers were compiled to a loop over max - min copies of the
pattern, so [$l1-3] accepted 1, 3, 5, ... letters instead of 1 to 3.
---
 src/translator/regexp.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 57ac88d..3df4f82 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -215,13 +215,16 @@ impl Regexp {
                 for _ in 0..*min {
                     regexp.emit(instructions, character_classes);
                 }
-                let pos = instructions.len();
-                instructions.push(Instruction::Split(pos + 1, 0));
+                // every further repetition is optional, given that the previous one matched
+                let mut splits = Vec::new();
                 for _ in *min..*max {
+                    splits.push(instructions.len());
+                    instructions.push(Instruction::Split(0, 0));
                     regexp.emit(instructions, character_classes);
                 }
-                instructions.push(Instruction::Jump(pos));
-                instructions[pos] = Instruction::Split(pos + 1, instructions.len());
+                for pos in splits {
+                    instructions[pos] = Instruction::Split(pos + 1, instructions.len());
+                }
             }
             Regexp::Capture(regexp) => {
                 instructions.push(Instruction::CaptureStart);
-- 
2.43.0


From 0d8089340fdf4e86bb4100a084483a5b0833eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 06/30] fix: keep delayed translations when a zero-length
 translation is applied first

Translations held back until the end of their pre-pattern were discarded if a
zero-length translation won at the position where they became applicable.
---
 src/translator/table/multipass.rs | 5 ++++-
 src/translator/table/primary.rs   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/translator/table/multipass.rs b/src/translator/table/multipass.rs
index d0c060f..71faf25 100644
--- a/src/translator/table/multipass.rs
+++ b/src/translator/table/multipass.rs
@@ -127,7 +127,7 @@ impl MultipassTable {
             // move delayed_translations with zero offset into candidates
             let (current, delayed) = self.partition_delayed_translations(delayed_translations);
             delayed_translations = delayed;
-            candidates.extend(current);
+            candidates.extend(current.iter().cloned());
 
             // use the longest translation
             let candidate = candidates
@@ -142,6 +142,9 @@ impl MultipassTable {
                     // if there is a zero-length translation candiate we run the risk of an infinite
                     // loop, so remember the current translation so we only apply it once
                     seen.insert(TranslationSubset::from(&t));
+                    // the position doesn't change, so the translations that were delayed until
+                    // this position are still applicable
+                    delayed_translations.extend(current);
                 } else {
                     seen.clear();
                     // move the iterator forward by the number of characters in the translation
diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index cf85298..33fad0a 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1541,7 +1541,7 @@ impl PrimaryTable {
             // move delayed_translations with zero offset into candidates
             let (current, delayed) = self.partition_delayed_translations(delayed_translations);
             delayed_translations = delayed;
-            candidates.extend(current);
+            candidates.extend(current.iter().cloned());
 
             // `prepunc`/`postpunc` need a variable-length scan the trie can't express
             // (see `PunctuationConstrainer`), so they're inserted with no trie-level
@@ -1632,6 +1632,9 @@ impl PrimaryTable {
                     // if there is a zero-length translation candiate we run the risk of an infinite
                     // loop, so remember the current translation so we only apply it once
                     seen.insert(TranslationSubset::from(t));
+                    // the position doesn't change, so the translations that were delayed until
+                    // this position are still applicable
+                    delayed_translations.extend(current);
                 } else {
                     seen.clear();
                     // move the iterator forward by the number of characters in the translation
-- 
2.43.0


From dfaf9245463d382eea022978125dd0619c70a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 07/30] fix: support incrementing and decrementing variables in
 actions

The action parser recognized #N+ and #N- but didn't consume the operator, so
every rule using them was rejected, and the effects were never applied.
---
 src/parser/multipass/action.rs    | 10 ++++++++--
 src/translator/context_pattern.rs |  9 +++++----
 src/translator/effect.rs          | 19 ++++++++++++++++++-
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/parser/multipass/action.rs b/src/parser/multipass/action.rs
index 5df2528..8b3d6f5 100644
--- a/src/parser/multipass/action.rs
+++ b/src/parser/multipass/action.rs
@@ -249,8 +249,14 @@ impl<'a> Parser<'a> {
                     value: self.ascii_number()?,
                 })
             }
-            Some('+') => Ok(ActionInstruction::Increment { variable }),
-            Some('-') => Ok(ActionInstruction::Decrement { variable }),
+            Some('+') => {
+                self.consume('+')?;
+                Ok(ActionInstruction::Increment { variable })
+            }
+            Some('-') => {
+                self.consume('-')?;
+                Ok(ActionInstruction::Decrement { variable })
+            }
             c => Err(ParseError::InvalidOperator { found: c.copied() }),
         }
     }
diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index c34604f..daa30a3 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -187,10 +187,11 @@ impl Effects {
     }
 
     fn from_instruction(value: ActionInstruction) -> Option<Effect> {
-        if let ActionInstruction::Assignment { variable, value } = value {
-            Some(Effect::new(variable, value))
-        } else {
-            None
+        match value {
+            ActionInstruction::Assignment { variable, value } => Some(Effect::new(variable, value)),
+            ActionInstruction::Increment { variable } => Some(Effect::increment(variable)),
+            ActionInstruction::Decrement { variable } => Some(Effect::decrement(variable)),
+            _ => None,
         }
     }
 }
diff --git a/src/translator/effect.rs b/src/translator/effect.rs
index 3641d07..b494f28 100644
--- a/src/translator/effect.rs
+++ b/src/translator/effect.rs
@@ -20,6 +20,20 @@ impl Effect {
             kind: EffectKind::Set(value),
         }
     }
+
+    pub fn increment(slot: u8) -> Self {
+        Effect {
+            slot,
+            kind: EffectKind::Increment,
+        }
+    }
+
+    pub fn decrement(slot: u8) -> Self {
+        Effect {
+            slot,
+            kind: EffectKind::Decrement,
+        }
+    }
 }
 
 pub struct Environment(HashMap<u8, u8>);
@@ -37,7 +51,10 @@ impl Environment {
         let slot = effect.slot;
         match effect.kind {
             EffectKind::Increment => {
-                self.0.entry(slot).and_modify(|v| *v += 1).or_insert(1);
+                self.0
+                    .entry(slot)
+                    .and_modify(|v| *v = v.saturating_add(1))
+                    .or_insert(1);
             }
             EffectKind::Decrement => {
                 self.0
-- 
2.43.0


From 5121e1224d2835306736ddff6e4ade83f891ebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 08/30] fix: recognize litdigit and math as predefined
 character classes

Referring to them by name (before, after, attribute, base) denoted an unrelated
user-defined class instead.
---
 src/parser/character_class.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/character_class.rs b/src/parser/character_class.rs
index a72da42..4623ff7 100644
--- a/src/parser/character_class.rs
+++ b/src/parser/character_class.rs
@@ -39,11 +39,13 @@ impl From<&str> for CharacterClass {
         match value {
             "space" => CharacterClass::Space,
             "digit" => CharacterClass::Digit,
+            "litdigit" => CharacterClass::Litdigit,
             "letter" => CharacterClass::Letter,
             "uppercase" => CharacterClass::Uppercase,
             "lowercase" => CharacterClass::Lowercase,
             "punctuation" => CharacterClass::Punctuation,
             "sign" => CharacterClass::Sign,
+            "math" => CharacterClass::Math,
             "seqdelimiter" => CharacterClass::Seqdelimiter,
             "seqbeforechars" => CharacterClass::Seqbeforechars,
             "seqafterchars" => CharacterClass::Seqafterchars,
-- 
2.43.0


From 5f1eb7604f49d38ca5e1df5ac546e396dc534314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 09/30] fix: make swap classes match braille in pass2 to pass4

The cells of a swap class were added to the seqafterchars class instead of the
named class, and those of swapdd were looked up as if they were text.
---
 src/translator/table.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/translator/table.rs b/src/translator/table.rs
index 34b7580..978eb1a 100644
--- a/src/translator/table.rs
+++ b/src/translator/table.rs
@@ -225,7 +225,7 @@ impl TableContext {
                     for c in chars.chars() {
                         character_classes.insert(class.clone(), c);
                         dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
+                            class.clone(),
                             c,
                             &character_definitions,
                         );
@@ -243,7 +243,7 @@ impl TableContext {
                     for c in chars.chars() {
                         character_classes.insert(class.clone(), c);
                         dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
+                            class.clone(),
                             c,
                             &character_definitions,
                         );
@@ -263,11 +263,7 @@ impl TableContext {
                     let class = CharacterClass::from(name.as_str());
                     for c in dots.to_string().chars() {
                         character_classes.insert(class.clone(), c);
-                        dots_classes.insert_associated_dot(
-                            CharacterClass::Seqafterchars,
-                            c,
-                            &character_definitions,
-                        );
+                        dots_classes.insert(class.clone(), c);
                     }
                     let replacements: Vec<String> =
                         replacement.iter().map(|b| b.to_string()).collect();
-- 
2.43.0


From 2040d5c9c44725e9670fc061d4290a67fe4091f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 10/30] fix: don't use nocross contractions in computer braille
 and numeric runs

Both suppress contractions, but nocross rules were looked up separately and
bypassed the restriction.
---
 src/translator/table/primary.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 33fad0a..284a276 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1512,10 +1512,13 @@ impl PrimaryTable {
             // needed by match/context rules anchored with liblouis' `^`/`` ` `` boundary markers
             let at_start = chars.as_str().len() == input.len();
 
-            // First check for nocross candidates
+            // First check for nocross candidates. As any other contraction they are not used in
+            // computer braille and, unless they are a single character, inside a numeric run
             let nocross_candidate = self
                 .nocross_candidates(chars.as_str(), prev, char_pos, &constraints)
                 .into_iter()
+                .filter(|t| !constraints.dont_contract_at(char_pos) || t.length() <= 1)
+                .filter(|_| !constraints.use_comp6_at(char_pos))
                 .max_by_key(|t| t.weight());
 
             // given an input query the trie for matching translations. Then split off the
-- 
2.43.0


From 84b8b2f557be63dceb8498d9d9aa0930f8716eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 11/30] fix: implement the remaining comparison operators of
 variable tests

The parser accepts <, <=, > and >= but compiling such a rule panicked.
---
 src/translator/context_pattern.rs | 14 ++++++++++----
 src/translator/regexp.rs          | 28 ++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index daa30a3..47689cd 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -54,10 +54,16 @@ impl Regexp {
             TestInstruction::Lookback { .. } => Regexp::Empty,
             TestInstruction::Variable { var, op, operand } => match op {
                 Operator::Eq => Regexp::VariableEqual(*var, *operand),
-                // FIXME: operands other than equal do not seem to exist in the wild (at least not
-                // in the tables that are shipped with liblouis), so maybe that feature should be
-                // removed
-                _ => todo!(),
+                Operator::LtEq => Regexp::VariableInRange(*var, 0..=*operand),
+                Operator::GtEq => Regexp::VariableInRange(*var, *operand..=u8::MAX),
+                Operator::Lt => match operand.checked_sub(1) {
+                    Some(max) => Regexp::VariableInRange(*var, 0..=max),
+                    None => Regexp::Never,
+                },
+                Operator::Gt => match operand.checked_add(1) {
+                    Some(min) => Regexp::VariableInRange(*var, min..=u8::MAX),
+                    None => Regexp::Never,
+                },
             },
             TestInstruction::String { s } => Regexp::String(s.to_string()),
             TestInstruction::Dots { dots } => Regexp::String(dots.to_string()),
diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 3df4f82..72ab4c8 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -12,6 +12,7 @@
 //! captures.
 
 use std::collections::HashSet;
+use std::ops::RangeInclusive;
 
 use smallvec::SmallVec;
 
@@ -59,6 +60,10 @@ pub enum Regexp {
     VariableEqual(VariableIndex, u8),
     /// Check whether variable at index is not equal to given value
     NotVariableEqual(VariableIndex, u8),
+    /// Check whether variable at index is in the given range
+    VariableInRange(VariableIndex, RangeInclusive<u8>),
+    /// Check whether variable at index is not in the given range
+    NotVariableInRange(VariableIndex, RangeInclusive<u8>),
     Group(Box<Regexp>),
     /// To support empty captures, we need an empty AST
     Empty,
@@ -122,6 +127,9 @@ impl Regexp {
             Regexp::VariableEqual(slot, value) => Regexp::NotVariableEqual(slot, value),
             // unreachable: the parser rejects double negation before it reaches here
             Regexp::NotVariableEqual(_, _) => unreachable!(),
+            Regexp::VariableInRange(slot, range) => Regexp::NotVariableInRange(slot, range),
+            // unreachable: the parser rejects double negation before it reaches here
+            Regexp::NotVariableInRange(_, _) => unreachable!(),
             Regexp::Group(regexp) => Regexp::Group(Box::new(regexp.negate())),
             Regexp::Empty => Regexp::Never,
             Regexp::Never => Regexp::Empty,
@@ -252,6 +260,12 @@ impl Regexp {
             Regexp::NotVariableEqual(index, value) => {
                 instructions.push(Instruction::NotVariableEqual(*index, *value))
             }
+            Regexp::VariableInRange(index, range) => {
+                instructions.push(Instruction::VariableInRange(*index, range.clone()))
+            }
+            Regexp::NotVariableInRange(index, range) => {
+                instructions.push(Instruction::NotVariableInRange(*index, range.clone()))
+            }
             Regexp::Group(regexp) => {
                 regexp.emit(instructions, character_classes);
             }
@@ -300,6 +314,10 @@ pub enum Instruction {
     VariableEqual(VariableIndex, u8),
     /// Test whether a variable is not equal to a value
     NotVariableEqual(VariableIndex, u8),
+    /// Test whether a variable is in a range
+    VariableInRange(VariableIndex, RangeInclusive<u8>),
+    /// Test whether a variable is not in a range
+    NotVariableInRange(VariableIndex, RangeInclusive<u8>),
     /// Zero-width assertion: succeeds only if there is no input left
     AssertEnd,
     /// Zero-width assertion: succeeds only if there is still input left
@@ -431,6 +449,16 @@ impl CompiledRegexp {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
+            Instruction::VariableInRange(var, ref range) => {
+                if env.get(var).is_some_and(|actual| range.contains(actual)) {
+                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                }
+            }
+            Instruction::NotVariableInRange(var, ref range) => {
+                if env.get(var).is_some_and(|actual| !range.contains(actual)) {
+                    self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
+                }
+            }
             Instruction::AssertEnd => {
                 if sp == input_len {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
-- 
2.43.0


From e6b8dd76b85e1ff868164ca52b4ca86a2adcbea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 12/30] fix: make the any-character attribute of context and
 multipass tests match

$a is documented to match any character but was compiled to an empty set of
characters, which never matches.
---
 src/translator/context_pattern.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index 47689cd..eb66fda 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -119,25 +119,24 @@ impl Regexp {
                 }
                 Attribute::Boundary => (),   // TODO
                 Attribute::ByOrder(_) => (), // TODO
-                Attribute::Any => (),        // TODO
+                Attribute::Any => (),        // handled below
             }
         }
+        let regexp = if attrs.contains(&Attribute::Any) {
+            Regexp::Any
+        } else {
+            Regexp::CharacterClass(characters)
+        };
         if let Some(quantifier) = quantifier {
             match quantifier {
-                Quantifier::Number(n) => {
-                    Regexp::RepeatExactly(*n, Box::new(Regexp::CharacterClass(characters)))
-                }
-                Quantifier::Range(min, max) => Regexp::RepeatAtLeastAtMost(
-                    *min,
-                    *max,
-                    Box::new(Regexp::CharacterClass(characters)),
-                ),
-                Quantifier::OneOrMore => {
-                    Regexp::OneOrMore(Box::new(Regexp::CharacterClass(characters)))
+                Quantifier::Number(n) => Regexp::RepeatExactly(*n, Box::new(regexp)),
+                Quantifier::Range(min, max) => {
+                    Regexp::RepeatAtLeastAtMost(*min, *max, Box::new(regexp))
                 }
+                Quantifier::OneOrMore => Regexp::OneOrMore(Box::new(regexp)),
             }
         } else {
-            Regexp::CharacterClass(characters)
+            regexp
         }
     }
 }
-- 
2.43.0


From 90850d70231784b54baafb21346945ed88ac0964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 13/30] fix: end emphasis before starting another one at the
 same position

---
 src/translator/indication/emphasis.rs | 47 ++++++++++++++++++---------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/translator/indication/emphasis.rs b/src/translator/indication/emphasis.rs
index 8d853d9..2bcff4d 100644
--- a/src/translator/indication/emphasis.rs
+++ b/src/translator/indication/emphasis.rs
@@ -23,9 +23,9 @@ fn make_translation(dots: &str, origin: &AnchoredRule) -> ResolvedTranslation {
 ///
 /// `Open`/`Close` events are for `begemph`/`endemph` indicators and carry the
 /// span's `run_end` so that same-position events can be sorted into the correct
-/// LIFO (stack) order across multiple emphasis classes.  All other indicator
-/// types (word, phrase, letter) use `Unordered` and retain their original
-/// class-definition order.
+/// LIFO (stack) order across multiple emphasis classes.  The other indicator
+/// types (word, phrase, letter) are tagged `Begin` or `End` and retain their
+/// original class-definition order among themselves.
 #[derive(Debug)]
 enum EmitKind {
     /// `begemph` event; `run_end` is the position where the corresponding
@@ -35,8 +35,23 @@ enum EmitKind {
     /// (begemph) was emitted.  Used to sort same-position closes in inverse
     /// open order (later open = closes first).
     Close { emit_start: usize },
+    /// `endemphword` or `endemphphrase` event.
+    End,
     /// All other indicators — ordering within a position is preserved as-is.
-    Unordered,
+    Begin,
+}
+
+impl EmitKind {
+    /// Events that end an emphasis come before those that start one at the same
+    /// position.
+    fn rank(&self) -> u8 {
+        match self {
+            EmitKind::Close { .. } => 0,
+            EmitKind::End => 1,
+            EmitKind::Open { .. } => 2,
+            EmitKind::Begin => 3,
+        }
+    }
 }
 
 /// Compiled indicator data for one emphasis class (e.g. "italic").
@@ -237,7 +252,7 @@ impl ClassIndicator {
         if let Some(begemphphrase) = &self.begemphphrase
             && words.len() >= self.len_phrase
         {
-            result.push((words[0].0, begemphphrase.clone(), EmitKind::Unordered));
+            result.push((words[0].0, begemphphrase.clone(), EmitKind::Begin));
 
             if self.endemphphrase_before {
                 // BANA-style: phrase covers all but the last word; the last
@@ -249,7 +264,7 @@ impl ClassIndicator {
             } else {
                 // Phrase brackets all words; explicit endemph after the last.
                 if let Some(end_t) = &self.endemphphrase {
-                    result.push((words.last().unwrap().1, end_t.clone(), EmitKind::Unordered));
+                    result.push((words.last().unwrap().1, end_t.clone(), EmitKind::End));
                 }
             }
             return;
@@ -270,11 +285,11 @@ impl ClassIndicator {
         if word_end - word_start == 1
             && let Some(t) = &self.emphletter
         {
-            result.push((word_start, t.clone(), EmitKind::Unordered));
+            result.push((word_start, t.clone(), EmitKind::Begin));
             return;
         }
         if let Some(t) = &self.begemphword {
-            result.push((word_start, t.clone(), EmitKind::Unordered));
+            result.push((word_start, t.clone(), EmitKind::Begin));
         }
         // No endemphword: word ends at a space/boundary, so terminator is implicit.
     }
@@ -293,32 +308,32 @@ impl ClassIndicator {
         if total_chars == 1
             && let Some(t) = &self.emphletter
         {
-            result.push((words[0].0, t.clone(), EmitKind::Unordered));
+            result.push((words[0].0, t.clone(), EmitKind::Begin));
             return;
         }
 
         if let Some(t) = &self.begemphword {
-            result.push((run_start, t.clone(), EmitKind::Unordered));
+            result.push((run_start, t.clone(), EmitKind::Begin));
             // endemphword is only needed when emphasis ends mid-word (the next
             // character is not a word boundary and not end-of-string).
             if let Some(end_t) = &self.endemphword
                 && run_end < chars.len()
                 && !self.is_emphasis_word_separator(chars[run_end])
             {
-                result.push((run_end, end_t.clone(), EmitKind::Unordered));
+                result.push((run_end, end_t.clone(), EmitKind::End));
             }
             return;
         }
 
         // Phrase-only class (e.g. underline): no word indicator, use phrase indicators.
         if let Some(t) = &self.begemphphrase {
-            result.push((run_start, t.clone(), EmitKind::Unordered));
+            result.push((run_start, t.clone(), EmitKind::Begin));
             // Phrase indicators always need explicit closing; emit at run_end
             // unless we're at end-of-string.
             if let Some(end_t) = &self.endemphphrase
                 && run_end < chars.len()
             {
-                result.push((run_end, end_t.clone(), EmitKind::Unordered));
+                result.push((run_end, end_t.clone(), EmitKind::End));
             }
         }
     }
@@ -439,6 +454,7 @@ impl Indicator {
     ///
     /// When multiple emphasis classes emit indicators at the same position the
     /// output is sorted to respect the liblouis stack rule:
+    /// * Indicators that end an emphasis come before those that start one.
     /// * Opens at the same position: the class whose run ends **latest** opens
     ///   first (it is the "outermost" bracket).  Tiebreaker: last-defined class
     ///   opens first.
@@ -483,8 +499,9 @@ impl Indicator {
                 (EmitKind::Close { emit_start: es_a }, EmitKind::Close { emit_start: es_b }) => {
                     es_b.cmp(es_a).then(a.3.cmp(&b.3))
                 }
-                // All other combinations: preserve original order.
-                _ => Ordering::Equal,
+                // All other combinations: ends before begins, otherwise preserve
+                // original order.
+                (kind_a, kind_b) => kind_a.rank().cmp(&kind_b.rank()),
             }
         });
 
-- 
2.43.0


From b8a0a6c2e5a2c68db8cdf79b88d664eb2593977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 14/30] fix: display all rules that can originate a translation

---
 src/parser.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6dc7110..ed53d3f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -905,6 +905,26 @@ impl std::fmt::Display for Rule {
                 dots,
                 ..
             } => write!(f, "match {} {} {} {}", pre, chars, post, dots),
+            Rule::Lowword { chars, dots, .. } => write!(f, "lowword {} {}", chars, dots),
+            Rule::Joinword { chars, dots } => write!(f, "joinword {} {}", chars, dots),
+            Rule::Syllable { chars, dots } => write!(f, "syllable {} {}", chars, dots),
+            Rule::Begcapsphrase { dots } => write!(f, "begcapsphrase {}", dots),
+            Rule::Endcapsphrase { dots, position } => {
+                write!(f, "endcapsphrase {} {}", position, dots)
+            }
+            Rule::Begcomp { dots, .. } => write!(f, "begcomp {}", dots),
+            Rule::Endcomp { dots, .. } => write!(f, "endcomp {}", dots),
+            Rule::Begemph { name, dots, .. } => write!(f, "begemph {} {}", name, dots),
+            Rule::Endemph { name, dots, .. } => write!(f, "endemph {} {}", name, dots),
+            Rule::Emphletter { name, dots } => write!(f, "emphletter {} {}", name, dots),
+            Rule::Begemphword { name, dots } => write!(f, "begemphword {} {}", name, dots),
+            Rule::Endemphword { name, dots } => write!(f, "endemphword {} {}", name, dots),
+            Rule::Begemphphrase { name, dots } => write!(f, "begemphphrase {} {}", name, dots),
+            Rule::Endemphphrase {
+                name,
+                dots,
+                position,
+            } => write!(f, "endemphphrase {} {} {}", name, position, dots),
             _ => todo!(),
         }
     }
@@ -1091,6 +1111,15 @@ pub enum Position {
     After,
 }
 
+impl std::fmt::Display for Position {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Position::Before => write!(f, "before"),
+            Position::After => write!(f, "after"),
+        }
+    }
+}
+
 #[derive(PartialEq, Debug)]
 pub enum EscapingContext {
     Default,
-- 
2.43.0


From de075f6ba69be0dbfa4adfcf7b4e92b7b8553bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 15/30] fix: don't panic on nested negation in match patterns

---
 src/translator/regexp.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 72ab4c8..07a4c4b 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -109,8 +109,8 @@ impl Regexp {
             // its negation can therefore never succeed.
             Regexp::Any => Regexp::Never,
             Regexp::CharacterClass(class) => Regexp::NotCharacterClass(class),
-            // unreachable: the parser rejects double negation before it reaches here
-            Regexp::NotCharacterClass(_) => unreachable!(),
+            // the parser only rejects an immediate double negation, e.g. `!!a`, not `!(!a)`
+            Regexp::NotCharacterClass(class) => Regexp::CharacterClass(class),
             Regexp::RepeatExactly(n, regexp) => Regexp::RepeatExactly(n, Box::new(regexp.negate())),
             Regexp::RepeatAtLeast(n, regexp) => Regexp::RepeatAtLeast(n, Box::new(regexp.negate())),
             Regexp::RepeatAtLeastAtMost(n, m, regexp) => {
@@ -119,8 +119,7 @@ impl Regexp {
             // unreachable: the parser rejects negating a capture before it reaches here
             Regexp::Capture(_) => unreachable!(),
             Regexp::String(s) => Regexp::NotString(s),
-            // unreachable: the parser rejects double negation before it reaches here
-            Regexp::NotString(_) => unreachable!(),
+            Regexp::NotString(s) => Regexp::String(s),
             // unreachable: only ever built from a match rule's `chars` operand, which is parsed
             // separately from `pre`/`post` as a plain string and never goes through `Pattern::Negate`
             Regexp::CaseInsensitiveString(_) => unreachable!(),
-- 
2.43.0


From eeeacce7de082c629a781e8c7fce1ea161a7b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 16/30] fix: map 9 to dots 35 in the computer braille fallback

Both 3 and 9 were mapped to dots 25, so the hex representations of
different undefined characters were the same.
---
 src/parser/braille.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/braille.rs b/src/parser/braille.rs
index 544b971..6c803df 100644
--- a/src/parser/braille.rs
+++ b/src/parser/braille.rs
@@ -220,7 +220,7 @@ pub fn fallback(ch: char) -> char {
             '8',
             BrailleChar(BrailleDot::Dot2 | BrailleDot::Dot3 | BrailleDot::Dot6),
         ),
-        ('9', BrailleChar(BrailleDot::Dot2 | BrailleDot::Dot5)),
+        ('9', BrailleChar(BrailleDot::Dot3 | BrailleDot::Dot5)),
         ('a', BrailleChar(enum_set!(BrailleDot::Dot1))),
         ('b', BrailleChar(BrailleDot::Dot1 | BrailleDot::Dot2)),
         ('c', BrailleChar(BrailleDot::Dot1 | BrailleDot::Dot4)),
-- 
2.43.0


From 69d30a5267524bc355ed30311cef44efd90f5c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 17/30] fix: display attribute and character sets in a fixed
 order

---
 src/parser/match_rule.rs     | 28 ++++++++++------------------
 src/parser/multipass/test.rs |  3 +++
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/parser/match_rule.rs b/src/parser/match_rule.rs
index 8e48c46..5f98bf2 100644
--- a/src/parser/match_rule.rs
+++ b/src/parser/match_rule.rs
@@ -77,6 +77,13 @@ impl std::fmt::Display for Patterns {
     }
 }
 
+/// The elements of a set in a fixed order, so that a pattern is always displayed the same way.
+fn sorted<T: std::fmt::Display>(set: &HashSet<T>) -> String {
+    let mut elements: Vec<String> = set.iter().map(|e| e.to_string()).collect();
+    elements.sort();
+    elements.concat()
+}
+
 impl std::fmt::Display for Pattern {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
@@ -87,25 +94,10 @@ impl std::fmt::Display for Pattern {
             Pattern::Boundary(Side::Pre) => write!(f, "^"),
             Pattern::Boundary(Side::Post) => write!(f, "$"),
             Pattern::Any => write!(f, "."),
-            Pattern::Set(chars) => {
-                write!(f, "[")?;
-                for c in chars {
-                    write!(f, "{}", c)?;
-                }
-                write!(f, "]")?;
-                Ok(())
-            }
-            Pattern::Attributes(attributes) => {
-                for attr in attributes {
-                    write!(f, "{}", attr)?;
-                }
-                Ok(())
-            }
+            Pattern::Set(chars) => write!(f, "[{}]", sorted(chars)),
+            Pattern::Attributes(attributes) => write!(f, "{}", sorted(attributes)),
             Pattern::AttributesOrBoundary(attributes, side) => {
-                for attr in attributes {
-                    write!(f, "{}", attr)?;
-                }
-                write!(f, "{}", Pattern::Boundary(*side))
+                write!(f, "{}{}", sorted(attributes), Pattern::Boundary(*side))
             }
             Pattern::Group(patterns) => write!(f, "({})", patterns),
             Pattern::Negate(pattern) => write!(f, "!{}", pattern),
diff --git a/src/parser/multipass/test.rs b/src/parser/multipass/test.rs
index 0d05eee..a42af5e 100644
--- a/src/parser/multipass/test.rs
+++ b/src/parser/multipass/test.rs
@@ -555,6 +555,9 @@ mod display {
                 }
                 TestInstruction::Attributes { attrs, quantifier } => {
                     write!(f, "$")?;
+                    // a `HashSet` has no fixed order
+                    let mut attrs: Vec<_> = attrs.iter().map(|a| a.to_string()).collect();
+                    attrs.sort();
                     for attr in attrs {
                         write!(f, "{}", attr)?;
                     }
-- 
2.43.0


From c956c105dfef742bd00e312bd4e855446afe6f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 18/30] fix: report a malformed query and allow = in queried
 values

---
 src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 31c1fff..711572e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -438,14 +438,14 @@ fn main() {
         } => check_yaml(yaml_files, summary),
         Commands::Query { query } => match metadata::index() {
             Ok(index) => {
-                let query = query
+                let query: Option<Vec<_>> = query
                     .split(',')
-                    .map(|s| {
-                        let parts: Vec<_> = s.split('=').collect();
-                        (parts[0].to_string(), parts[1].to_string())
-                    })
+                    .map(|s| s.split_once('=').map(|(k, v)| (k.into(), v.into())))
                     .collect();
-                println!("{:?}", metadata::find(&index, query));
+                match query {
+                    Some(query) => println!("{:?}", metadata::find(&index, query)),
+                    None => eprintln!("Invalid query, expected <key=value,...>"),
+                }
             }
             Err(e) => {
                 eprint!("Could not index all tables: {:?}", e)
-- 
2.43.0


From e438749a12b853479aa111ecc148af1c109805a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 19/30] fix: index metadata keys with hyphens, dots and
 underscores

---
 src/metadata.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index 37d1928..4a9f4bf 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -49,7 +49,8 @@ pub fn index() -> Result<Index, MetaDataError> {
                         let v = value.trim();
                         if !k.is_empty()
                             && !v.is_empty()
-                            && k.chars().all(|c| c.is_ascii_alphanumeric())
+                            && k.chars()
+                                .all(|c| c.is_ascii_alphanumeric() || "-._".contains(c))
                             && v.chars().all(|c| c.is_ascii_graphic())
                         {
                             index
-- 
2.43.0


From f4965e87203a486e41d4f1e0e64caf1833befc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 20/30] fix: variables are zero before they are set

A test of a variable that no rule had set never held, not even #1=0, which
tables use to detect that nothing has set the variable so far.
---
 src/translator/effect.rs | 5 +++--
 src/translator/regexp.rs | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/translator/effect.rs b/src/translator/effect.rs
index b494f28..37484a8 100644
--- a/src/translator/effect.rs
+++ b/src/translator/effect.rs
@@ -43,8 +43,9 @@ impl Environment {
         Environment(HashMap::new())
     }
 
-    pub fn get(&self, slot: u8) -> Option<&u8> {
-        self.0.get(&slot)
+    /// The value of the variable at `slot`. All variables are zero initially.
+    pub fn get(&self, slot: u8) -> u8 {
+        self.0.get(&slot).copied().unwrap_or(0)
     }
 
     pub fn apply(&mut self, effect: &Effect) {
diff --git a/src/translator/regexp.rs b/src/translator/regexp.rs
index 07a4c4b..aada926 100644
--- a/src/translator/regexp.rs
+++ b/src/translator/regexp.rs
@@ -439,22 +439,22 @@ impl CompiledRegexp {
                 self.add_thread(list, pc + 1, (capture.0, sp), sp, input_len, at_start, env)
             }
             Instruction::VariableEqual(var, expected) => {
-                if env.get(var) == Some(&expected) {
+                if env.get(var) == expected {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
             Instruction::NotVariableEqual(var, expected) => {
-                if env.get(var).is_some_and(|&actual| actual != expected) {
+                if env.get(var) != expected {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
             Instruction::VariableInRange(var, ref range) => {
-                if env.get(var).is_some_and(|actual| range.contains(actual)) {
+                if range.contains(&env.get(var)) {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
             Instruction::NotVariableInRange(var, ref range) => {
-                if env.get(var).is_some_and(|actual| !range.contains(actual)) {
+                if !range.contains(&env.get(var)) {
                     self.add_thread(list, pc + 1, capture, sp, input_len, at_start, env);
                 }
             }
-- 
2.43.0


From ba44617c753afc81b9ef1f2aef3f4677eb24fb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:06 +0000
Subject: [PATCH 21/30] fix: ignore rules of the other direction in the classes
 of correct and the passes

---
 src/translator/pipeline.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/translator/pipeline.rs b/src/translator/pipeline.rs
index 173df3c..2e5d5eb 100644
--- a/src/translator/pipeline.rs
+++ b/src/translator/pipeline.rs
@@ -47,7 +47,6 @@ pub struct TranslationPipeline {
 
 impl TranslationPipeline {
     pub fn compile(rules: &[AnchoredRule], direction: Direction) -> Result<Self, TranslationError> {
-        let ctx = TableContext::compile(rules)?;
         let mut steps = Vec::new();
 
         // ignore rules that aren't meant for the given direction
@@ -56,6 +55,7 @@ impl TranslationPipeline {
             .filter(|r| r.is_direction(direction))
             .cloned()
             .collect();
+        let ctx = TableContext::compile(&rules)?;
 
         let correct_rules: Vec<AnchoredRule> = rules
             .iter()
@@ -67,13 +67,8 @@ impl TranslationPipeline {
                 MultipassTable::compile(&correct_rules, direction, TranslationStage::Pre, &ctx)?;
             steps.push(Transformation::Pre(transform));
         }
-        let context = TableContext::compile(rules.as_slice())?;
-        let transform = PrimaryTable::compile(
-            rules.as_slice(),
-            direction,
-            TranslationStage::Main,
-            &context,
-        )?;
+        let transform =
+            PrimaryTable::compile(rules.as_slice(), direction, TranslationStage::Main, &ctx)?;
         steps.push(Transformation::Primary(transform));
         let pass2_rules: Vec<AnchoredRule> = rules
             .iter()
-- 
2.43.0


From e33d0c36b08fce197381ccf2ab31c8348ee96d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:06 +0000
Subject: [PATCH 22/30] fix: do not mark separators at the ends of an emphasis
 that ends inside a word

---
 src/translator/indication/emphasis.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/translator/indication/emphasis.rs b/src/translator/indication/emphasis.rs
index 2bcff4d..a27c8d9 100644
--- a/src/translator/indication/emphasis.rs
+++ b/src/translator/indication/emphasis.rs
@@ -239,7 +239,7 @@ impl ClassIndicator {
         if starts_clean && ends_clean {
             self.emit_clean_words(&words, result);
         } else {
-            self.emit_partial(chars, run_start, run_end, &words, result);
+            self.emit_partial(chars, &words, result);
         }
     }
 
@@ -298,12 +298,13 @@ impl ClassIndicator {
     fn emit_partial(
         &self,
         chars: &[char],
-        run_start: usize,
-        run_end: usize,
         words: &[(usize, usize)],
         result: &mut Vec<(usize, ResolvedTranslation, EmitKind)>,
     ) {
         let total_chars: usize = words.iter().map(|(s, e)| e - s).sum();
+        // as in a clean run, separators at the ends of the run are not marked
+        let run_start = words[0].0;
+        let run_end = words[words.len() - 1].1;
 
         if total_chars == 1
             && let Some(t) = &self.emphletter
-- 
2.43.0


From a42b5a7ac3227272a20eacc33b5dfbfb2b5993f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:06 +0000
Subject: [PATCH 23/30] fix: do not apply rules across changes of
 capitalization, emphasis or computer braille

---
 src/translator/indication.rs    | 30 +++++++++++++++++++++++++-----
 src/translator/table/primary.rs | 13 +++++++++++++
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/translator/indication.rs b/src/translator/indication.rs
index 77ced47..b1fa257 100644
--- a/src/translator/indication.rs
+++ b/src/translator/indication.rs
@@ -76,11 +76,21 @@ pub struct Indicators(Vec<Indicator>);
 /// Holds per-position braille translations to emit, indexed by
 /// character position (with one extra slot at index `n` for translations that
 /// must appear after all input characters, e.g. `endemph` at end of string).
-pub struct PrecomputedIndications(Vec<Vec<ResolvedTranslation>>);
+pub struct PrecomputedIndications {
+    translations: Vec<Vec<ResolvedTranslation>>,
+    /// Whether the capitalization, the emphasis or the use of computer braille changes at a
+    /// position.
+    changes: Vec<bool>,
+}
 
 impl PrecomputedIndications {
     pub fn translations_at(&self, pos: usize) -> Vec<ResolvedTranslation> {
-        self.0.get(pos).cloned().unwrap_or_default()
+        self.translations.get(pos).cloned().unwrap_or_default()
+    }
+
+    /// Whether the capitalization, the emphasis or the use of computer braille changes at `pos`.
+    pub fn changes_at(&self, pos: usize) -> bool {
+        self.changes.get(pos).copied().unwrap_or(false)
     }
 }
 
@@ -91,7 +101,8 @@ impl Indicators {
 
     pub fn precompute(&self, input: &str, spans: &[EmphasisSpan]) -> PrecomputedIndications {
         let n = input.chars().count();
-        let mut indications: Vec<Vec<ResolvedTranslation>> = vec![vec![]; n + 1];
+        let mut translations: Vec<Vec<ResolvedTranslation>> = vec![vec![]; n + 1];
+        let mut changes = vec![false; n + 1];
 
         for indicator in &self.0 {
             let pairs: Vec<(usize, ResolvedTranslation)> = match indicator {
@@ -103,11 +114,20 @@ impl Indicators {
                 Indicator::NoContract(i) => i.precompute(input),
             };
             for (pos, t) in pairs {
-                indications[pos].push(t);
+                translations[pos].push(t);
+                changes[pos] |= matches!(
+                    indicator,
+                    Indicator::ComputerBraille(_)
+                        | Indicator::Emphasis(_)
+                        | Indicator::Uppercase(_)
+                );
             }
         }
 
-        PrecomputedIndications(indications)
+        PrecomputedIndications {
+            translations,
+            changes,
+        }
     }
 }
 
diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index 284a276..f7b1c02 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1512,6 +1512,16 @@ impl PrimaryTable {
             // needed by match/context rules anchored with liblouis' `^`/`` ` `` boundary markers
             let at_start = chars.as_str().len() == input.len();
 
+            // A rule that covers a place where the capitalization, the emphasis or the use of
+            // computer braille changes would swallow the indicator and is not used, mirroring
+            // liblouis's `checkEmphasisChange`
+            let crosses_change = |t: &ResolvedTranslation| {
+                (char_pos + 1..char_pos + t.length()).any(|pos| {
+                    indications.changes_at(pos)
+                        || constraints.use_comp6_at(pos) != constraints.use_comp6_at(pos - 1)
+                })
+            };
+
             // First check for nocross candidates. As any other contraction they are not used in
             // computer braille and, unless they are a single character, inside a numeric run
             let nocross_candidate = self
@@ -1519,6 +1529,7 @@ impl PrimaryTable {
                 .into_iter()
                 .filter(|t| !constraints.dont_contract_at(char_pos) || t.length() <= 1)
                 .filter(|_| !constraints.use_comp6_at(char_pos))
+                .filter(|t| !crosses_change(t))
                 .max_by_key(|t| t.weight());
 
             // given an input query the trie for matching translations. Then split off the
@@ -1583,6 +1594,8 @@ impl PrimaryTable {
                 candidates.extend(self.comp6_trie.find_translations(chars.as_str(), prev));
             }
 
+            candidates.retain(|t| !crosses_change(t));
+
             // Backward caps mode: capitalize the output of whichever candidate wins below.
             // `Uppercase` (begcapsword span) capitalizes every character a cell resolves
             // to; `TitleCase` (capsletter) capitalizes only the first — a cell can
-- 
2.43.0


From a2eeea0bcaa22262997946cf5d36fc73e5b53715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:06 +0000
Subject: [PATCH 24/30] fix: map emphasis through the corrections

---
 src/translator/pipeline.rs | 47 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/translator/pipeline.rs b/src/translator/pipeline.rs
index 2e5d5eb..0323430 100644
--- a/src/translator/pipeline.rs
+++ b/src/translator/pipeline.rs
@@ -1,5 +1,6 @@
 use crate::{
     Direction,
+    emphasis::EmphasisSpan,
     parser::{AnchoredRule, HasDirection, Rule},
     translator::{
         ResolvedTranslation, TranslationError, TranslationOptions, TranslationStage,
@@ -40,6 +41,34 @@ impl Transformation {
     }
 }
 
+/// Returns the given `emphasis` in terms of the text that results from the `corrections`.
+///
+/// The characters of a replacement have the emphasis of the characters they replace, one by one,
+/// those that are left over that of the last one.
+fn corrected_emphasis(
+    emphasis: &[EmphasisSpan],
+    corrections: &[ResolvedTranslation],
+) -> Vec<EmphasisSpan> {
+    // where in the original text each character of the corrected text comes from
+    let mut sources: Vec<usize> = Vec::new();
+    let mut pos = 0;
+    for correction in corrections {
+        let last = correction.length().saturating_sub(1);
+        sources.extend((0..correction.output().chars().count()).map(|i| pos + i.min(last)));
+        pos += correction.length();
+    }
+    let corrected = |pos: usize| sources.partition_point(|&source| source < pos);
+    emphasis
+        .iter()
+        .map(|span| {
+            EmphasisSpan::new(
+                span.class.clone(),
+                corrected(span.range.start)..corrected(span.range.end),
+            )
+        })
+        .collect()
+}
+
 #[derive(Debug)]
 pub struct TranslationPipeline {
     steps: Vec<Transformation>,
@@ -118,9 +147,14 @@ impl TranslationPipeline {
         options: &TranslationOptions,
     ) -> Vec<Vec<ResolvedTranslation>> {
         let mut input = input.to_string();
+        let mut options = options.clone();
         let mut result: Vec<Vec<ResolvedTranslation>> = Vec::new();
         for step in &self.steps {
-            let translations = step.trace(&input, options);
+            let translations = step.trace(&input, &options);
+            if let Transformation::Pre(_) = step {
+                let emphasis = corrected_emphasis(options.emphasis(), &translations);
+                options = options.with_emphasis(emphasis);
+            }
             input = translations.iter().map(|t| t.output()).collect();
             result.push(translations);
         }
@@ -137,8 +171,17 @@ impl TranslationPipeline {
 
     pub fn translate_with_options(&self, input: &str, options: &TranslationOptions) -> String {
         let mut result = input.to_string();
+        let mut options = options.clone();
         for step in &self.steps {
-            result = step.translate_with_options(&result, options);
+            result = match step {
+                Transformation::Pre(table) => {
+                    let corrections = table.trace(&result);
+                    let emphasis = corrected_emphasis(options.emphasis(), &corrections);
+                    options = options.with_emphasis(emphasis);
+                    corrections.iter().map(|t| t.output()).collect()
+                }
+                step => step.translate_with_options(&result, &options),
+            };
         }
         result
     }
-- 
2.43.0


From ee5eefdeec9d773b15a9d7f6a139fb5949846ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:13 +0000
Subject: [PATCH 25/30] fix: among equally long rules use the one defined first

---
 src/translator/trie.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/translator/trie.rs b/src/translator/trie.rs
index f546ea4..62271a4 100644
--- a/src/translator/trie.rs
+++ b/src/translator/trie.rs
@@ -1,6 +1,6 @@
 //! Store and find simple translation rules using a prefix tree ([Trie](https://en.wikipedia.org/wiki/Trie))
 
-use std::collections::BTreeMap;
+use std::{cmp::Reverse, collections::BTreeMap};
 
 use crate::{
     parser::{AnchoredRule, CharacterClass, CharacterClasses, Direction, Precedence},
@@ -78,8 +78,8 @@ pub enum ClassConstraint {
 #[derive(Default, Debug, Clone)]
 struct TrieNode {
     translation: Option<ResolvedTranslation>,
-    // ordered, so that which one of several equally long translations wins doesn't depend on the
-    // iteration order of a hash map
+    /// When the translation was inserted, compared to the others of the trie
+    order: usize,
     transitions: BTreeMap<ResolvedTransition, TrieNode>,
 }
 
@@ -108,12 +108,15 @@ pub struct Trie {
     /// `StartClass`/`EndClass` constraint checks. Set to text classes for forward translation,
     /// braille classes for backward.
     ctx: CharacterClasses,
+    /// Number of insertions so far
+    insertions: usize,
 }
 
 impl Trie {
     pub fn new() -> Self {
         Trie {
             root: TrieNode::default(),
+            insertions: 0,
             ctx: CharacterClasses::default(),
         }
     }
@@ -235,15 +238,19 @@ impl Trie {
             // this node already contains a translation
             if precedence > translation.precedence() {
                 current_node.translation = Some(new_translation);
+                current_node.order = self.insertions;
             } else if cfg!(feature = "backwards_compatibility") {
                 // first rule wins, so nothing to insert
             } else {
                 // last rule wins
                 current_node.translation = Some(new_translation);
+                current_node.order = self.insertions;
             }
         } else {
             current_node.translation = Some(new_translation);
+            current_node.order = self.insertions;
         }
+        self.insertions += 1;
     }
 
     fn find_translations_from_node(
@@ -252,14 +259,14 @@ impl Trie {
         prev: Option<char>,
         node: &TrieNode,
         match_length: usize,
-    ) -> Vec<ResolvedTranslation> {
+    ) -> Vec<(usize, ResolvedTranslation)> {
         let mut matching_rules = Vec::new();
         let mut chars = input.chars();
 
         // if this node has a translation add it to the list of matching rules
         if let Some(ref translation) = node.translation {
             let translation = translation.clone();
-            matching_rules.push(translation)
+            matching_rules.push((node.order, translation))
         }
         let c = chars.next();
         if let Some(c) = c {
@@ -312,8 +319,18 @@ impl Trie {
         matching_rules
     }
 
+    /// Returns the translations that apply at the start of `input` by ascending weight. Among
+    /// translations of the same weight the one to prefer is the last.
     pub fn find_translations(&self, input: &str, prev: Option<char>) -> Vec<ResolvedTranslation> {
-        self.find_translations_from_node(input, prev, &self.root, 0)
+        let mut translations = self.find_translations_from_node(input, prev, &self.root, 0);
+        if cfg!(feature = "backwards_compatibility") {
+            // first rule wins
+            translations.sort_by_key(|(order, t)| (t.weight(), Reverse(*order)));
+        } else {
+            // last rule wins
+            translations.sort_by_key(|(order, t)| (t.weight(), *order));
+        }
+        translations.into_iter().map(|(_, t)| t).collect()
     }
 }
 
-- 
2.43.0


From f4faa15aede8059e7f7db4e118cb58fac6433887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:13 +0000
Subject: [PATCH 26/30] fix: prfword, partword and lowword rules take part in
 the order of definition like the other word rules

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index ed53d3f..678b6dc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1075,7 +1075,10 @@ impl HasPrecedence for Rule {
             | Rule::Midendword { .. }
             | Rule::Endword { .. }
             | Rule::Begmidword { .. }
+            | Rule::Prfword { .. }
+            | Rule::Partword { .. }
             | Rule::Joinword { .. }
+            | Rule::Lowword { .. }
             | Rule::Begnum { .. }
             | Rule::Midnum { .. }
             | Rule::Endnum { .. }
-- 
2.43.0


From 05ac3bc18bfb4ffeaecd575a9c0c5231589f2dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:13 +0000
Subject: [PATCH 27/30] fix: capital and number signs inside the cells of
 another rule have no effect

---
 src/translator/table/primary.rs | 59 +++++++++++++++++++++++++++++++--
 1 file changed, 57 insertions(+), 2 deletions(-)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index f7b1c02..b18fdcc 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1,6 +1,7 @@
 use std::{
     collections::{HashMap, HashSet},
     fs,
+    ops::Range,
 };
 
 use log::warn;
@@ -112,6 +113,50 @@ impl CharacterTranslation {
     }
 }
 
+/// Keeps track of the capital and number signs that were read in backward translation. The
+/// [`PositionConstraints`] know where their cells are, but not whether these were read as a sign or
+/// as (a part of) another rule.
+#[derive(Debug, Default)]
+struct SignsRead {
+    /// The position after the last sign
+    end: Option<usize>,
+    /// Whether the letter cells at the current position follow a sign without interruption
+    word: bool,
+    /// Whether the digit cells at the current position follow a sign without interruption
+    number: bool,
+}
+
+impl SignsRead {
+    /// Take note of the rule `origin` having been used for the cells at `positions`
+    fn update(
+        &mut self,
+        origin: Option<AnchoredRule>,
+        positions: Range<usize>,
+        constraints: &PositionConstraints,
+    ) {
+        let is_sign = matches!(
+            origin.map(|origin| origin.rule),
+            Some(
+                Rule::Capsletter { .. }
+                    | Rule::Begcapsword { .. }
+                    | Rule::Endcapsword { .. }
+                    | Rule::Numsign { .. }
+                    | Rule::Nonumsign { .. }
+            )
+        );
+        if is_sign {
+            self.end = Some(positions.end);
+        }
+        self.word =
+            is_sign || self.word && positions.clone().all(|pos| constraints.uppercase_at(pos));
+        self.number = is_sign
+            || self.number
+                && positions
+                    .clone()
+                    .all(|pos| constraints.prefer_digit_at(pos));
+    }
+}
+
 #[derive(Debug)]
 pub struct PrimaryTable {
     undefined: Option<String>,
@@ -1492,6 +1537,7 @@ impl PrimaryTable {
         // the loop at the same char_pos without advancing, so indications must only be
         // emitted the first time a given position is visited, not on every re-entry.
         let mut last_indications_pos: Option<usize> = None;
+        let mut signs = SignsRead::default();
 
         // Enrich spans with compbrl-detected regions.
         let enriched_spans = match &self.compbrl_scanner {
@@ -1575,6 +1621,7 @@ impl PrimaryTable {
             // on its own weight, same as usual.
             if self.direction == Direction::Backward
                 && constraints.prefer_digit_at(char_pos)
+                && signs.number
                 && let Some(next_char) = chars.clone().next()
                 && let Some(digit_translation) = self.backward_digit_overrides.get(&next_char)
             {
@@ -1602,8 +1649,9 @@ impl PrimaryTable {
             // resolve to more than one character (e.g. a digraph rule), and capsletter
             // marks a single capitalized letter, not a whole capitalized word.
             let is_backward = self.direction == Direction::Backward;
-            let uppercase_here = is_backward && constraints.uppercase_at(char_pos);
-            let titlecase_here = is_backward && constraints.titlecase_at(char_pos);
+            let uppercase_here = is_backward && constraints.uppercase_at(char_pos) && signs.word;
+            let titlecase_here =
+                is_backward && constraints.titlecase_at(char_pos) && signs.end == Some(char_pos);
             let uppercase_if_needed =
                 move |translation: ResolvedTranslation| -> ResolvedTranslation {
                     if uppercase_here {
@@ -1640,6 +1688,11 @@ impl PrimaryTable {
                 // move the iterator forward by the number of characters in the translation
                 chars.nth(nocross.length() - 1);
                 prev = translation.input().chars().last();
+                signs.update(
+                    nocross.origin(),
+                    char_pos..char_pos + nocross.length(),
+                    &constraints,
+                );
                 char_pos += nocross.length();
                 translations.push(translation);
                 delayed_translations = self.update_offsets(delayed_translations, nocross.length());
@@ -1656,6 +1709,7 @@ impl PrimaryTable {
                     // move the iterator forward by the number of characters in the translation
                     chars.nth(t.length() - 1);
                     prev = t.input().chars().last();
+                    signs.update(t.origin(), char_pos..char_pos + t.length(), &constraints);
                     char_pos += t.length();
                 }
                 // there is a matching translation rule
@@ -1673,6 +1727,7 @@ impl PrimaryTable {
             } else if let Some(next_char) = chars.next() {
                 seen.clear();
                 prev = Some(next_char);
+                signs.update(None, char_pos..char_pos + 1, &constraints);
                 char_pos += 1;
                 // no translation rule found
                 if let Some(translation) = self.character_translations.get(&next_char) {
-- 
2.43.0


From 43d423fe6dbf56b0bfa9d38537c5137e6cac68bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:25 +0000
Subject: [PATCH 28/30] fix: a match rule can look at text inside a longer rule
 before it

The pre-pattern of a match rule was only tried from places where a rule begins, so a match
rule whose context starts inside of the characters of a multi-character rule was not used.
---
 src/translator/table/primary.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/translator/table/primary.rs b/src/translator/table/primary.rs
index b18fdcc..d2d2173 100644
--- a/src/translator/table/primary.rs
+++ b/src/translator/table/primary.rs
@@ -1505,6 +1505,27 @@ impl PrimaryTable {
             .partition(|t| t.offset() == 0)
     }
 
+    /// The match rules whose pre-pattern starts inside of the first `length` characters of
+    /// `input` but whose characters come after them. To be used when these characters are
+    /// translated with one rule.
+    fn match_candidates_within(&self, input: &str, length: usize) -> Vec<ResolvedTranslation> {
+        input
+            .char_indices()
+            .enumerate()
+            .take(length)
+            .skip(1)
+            .flat_map(|(n, (start, _))| {
+                self.match_patterns
+                    .find(&input[start..], false)
+                    .into_iter()
+                    .map(move |t| {
+                        let offset = t.offset() + n;
+                        t.with_offset(offset)
+                    })
+            })
+            .collect()
+    }
+
     fn context_candidates(
         &self,
         input: &str,
@@ -1685,6 +1706,8 @@ impl PrimaryTable {
                 seen.clear();
                 let translation = nocross.clone();
                 let translation = uppercase_if_needed(translation);
+                delayed_translations
+                    .extend(self.match_candidates_within(chars.as_str(), nocross.length()));
                 // move the iterator forward by the number of characters in the translation
                 chars.nth(nocross.length() - 1);
                 prev = translation.input().chars().last();
@@ -1706,6 +1729,8 @@ impl PrimaryTable {
                     delayed_translations.extend(current);
                 } else {
                     seen.clear();
+                    delayed_translations
+                        .extend(self.match_candidates_within(chars.as_str(), t.length()));
                     // move the iterator forward by the number of characters in the translation
                     chars.nth(t.length() - 1);
                     prev = t.input().chars().last();
-- 
2.43.0


From 719cf36755ff4ccb258c3e996de0ec4c8b16de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:01 +0000
Subject: [PATCH 29/30] fix: among equally long match, context and pass rules
 use the one defined first

as is done for all other rules
---
 src/translator/context_pattern.rs | 2 ++
 src/translator/match_pattern.rs   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/translator/context_pattern.rs b/src/translator/context_pattern.rs
index eb66fda..3f64055 100644
--- a/src/translator/context_pattern.rs
+++ b/src/translator/context_pattern.rs
@@ -273,8 +273,10 @@ impl ContextPatterns {
     /// translated — needed to honor liblouis' `` ` `` ("beginning of input") test anchor,
     /// which can appear anywhere in a compiled pattern (see [`Regexp::StartAnchor`]).
     pub fn find(&self, input: &str, env: &Environment, at_start: bool) -> Vec<ResolvedTranslation> {
+        // of equally long ones the last is used, so go backwards for the first rule to win
         self.regexps
             .iter()
+            .rev()
             .flat_map(|r| r.find_anchored(input, env, at_start))
             .collect()
     }
diff --git a/src/translator/match_pattern.rs b/src/translator/match_pattern.rs
index a91fe29..05eb843 100644
--- a/src/translator/match_pattern.rs
+++ b/src/translator/match_pattern.rs
@@ -167,8 +167,10 @@ impl MatchPatterns {
     /// `at_start` tells whether `input` begins at position 0 of the whole string being
     /// translated — needed to honor `pre`'s [`Pattern::Boundary`] checks.
     pub fn find(&self, input: &str, at_start: bool) -> Vec<ResolvedTranslation> {
+        // of equally long ones the last is used, so go backwards for the first rule to win
         self.regexps
             .iter()
+            .rev()
             .flat_map(|r| r.find_anchored(input, &Environment::new(), at_start))
             .collect()
     }
-- 
2.43.0


From 59a04e5430280a4cdd77903fa3a4542989a1c57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:50 +0000
Subject: [PATCH 30/30] fix: enclose overlapping stretches of computer braille
 once

---
 src/translator/indication/computer_braille.rs | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/translator/indication/computer_braille.rs b/src/translator/indication/computer_braille.rs
index d25dee8..dcb0ada 100644
--- a/src/translator/indication/computer_braille.rs
+++ b/src/translator/indication/computer_braille.rs
@@ -62,17 +62,17 @@ pub struct Indicator {
 impl Indicator {
     /// Returns sparse `(position, translation)` pairs for the given input and emphasis spans.
     ///
-    /// Emits `begcomp` at `span.range.start` and `endcomp` at `span.range.end`
-    /// (clamped to `n`) for each span with `class == "computer_braille"`.
-    /// Only emits for spans where `start < end`. Result is sorted by position.
+    /// Emits `begcomp` at the start and `endcomp` at the end of each stretch of text that is
+    /// covered by spans with `class == "computer_braille"` (clamped to `n`). Result is sorted
+    /// by position.
     pub fn precompute(
         &self,
         input: &str,
         spans: &[EmphasisSpan],
     ) -> Vec<(usize, ResolvedTranslation)> {
         let n = input.chars().count();
-        let mut result: Vec<(usize, ResolvedTranslation)> = Vec::new();
-
+        // overlapping and adjacent spans are enclosed as one
+        let mut covered = vec![false; n];
         for span in spans {
             if span.class != "computer_braille" {
                 continue;
@@ -82,13 +82,23 @@ impl Indicator {
             if start >= end {
                 continue;
             }
-            result.push((start, self.begcomp.clone()));
-            if let Some(ref endcomp) = self.endcomp {
-                result.push((end, endcomp.clone()));
-            }
+            covered[start..end].fill(true);
         }
 
-        result.sort_by_key(|(pos, _)| *pos);
+        let mut result: Vec<(usize, ResolvedTranslation)> = Vec::new();
+        let mut inside = false;
+        for pos in 0..=n {
+            let covered = covered.get(pos).copied().unwrap_or(false);
+            if covered && !inside {
+                result.push((pos, self.begcomp.clone()));
+            } else if !covered
+                && inside
+                && let Some(ref endcomp) = self.endcomp
+            {
+                result.push((pos, endcomp.clone()));
+            }
+            inside = covered;
+        }
         result
     }
 }
-- 
2.43.0

