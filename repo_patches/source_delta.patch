From 691e4b7c90946bba15f9e65339a6fd31c606f707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:31 +0000
Subject: [PATCH 1/4] fix: make the default Evaluator a complete one

The derived Default left both lookup tables empty, so that evaluating any
valid hand with Evaluator::default() panicked with "no entry found for key".
---
 src/evaluate/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/evaluate/mod.rs b/src/evaluate/mod.rs
index cffc1bd..4e9afb9 100644
--- a/src/evaluate/mod.rs
+++ b/src/evaluate/mod.rs
@@ -73,7 +73,7 @@ use crate::{card::Card, error::EvalError, evaluate::lookup_table::LookupTable};
 ///     "Full house, jacks over fours"
 /// );
 /// ```
-#[derive(Clone, Debug, PartialEq, Eq, Default)]
+#[derive(Clone, Debug, PartialEq, Eq)]
 pub struct Evaluator(LookupTable);
 
 impl Evaluator {
@@ -151,6 +151,10 @@ impl Evaluator {
     }
 }
 
+impl Default for Evaluator {
+    fn default() -> Self { Self::new() }
+}
+
 #[cfg(test)]
 pub(crate) mod tests {
     use std::collections::HashSet;
-- 
2.43.0


From 4852141636c01d1bfebeb1f49e4f8f9557111d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:31 +0000
Subject: [PATCH 2/4] fix: report the number of characters, not bytes, in
 InvalidLength
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Parsing "é" reported "Found input of length 2, expected 2"; the docs promise
the incorrect number of characters received.
---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 4d8f05c..de5e236 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -104,7 +104,7 @@ impl fmt::Display for ParseCardError {
                 f,
                 "Error parsing input '{}' as a Card: Found input of length {}, expected 2",
                 original_input,
-                original_input.len()
+                original_input.chars().count()
             ),
             Self::InvalidRank {
                 ref original_input,
-- 
2.43.0


From d29fd514718b15f0c915cc6848f54857a8e64871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:31 +0000
Subject: [PATCH 3/4] fix: print the repeated cards of CardsNotUnique in a
 fixed order

The names were taken from a randomly seeded hash map, so that the same error
printed differently from one to_string() to the next.
---
 src/error.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index de5e236..160398a 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -190,15 +190,8 @@ impl fmt::Display for EvalError {
             Self::CardsNotUnique(ref cards) => {
                 let dups: String = cards
                     .iter()
-                    .counts()
-                    .into_iter()
-                    .filter_map(|(card, count)| {
-                        if count > 1 {
-                            Some(card.rank_suit_string())
-                        } else {
-                            None
-                        }
-                    })
+                    .duplicates()
+                    .map(|card| card.rank_suit_string())
                     .collect::<Vec<_>>()
                     .join(" ");
                 write!(
-- 
2.43.0


From a4dd7b03afd0f086edb9a32c207f71c287561657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:49 +0000
Subject: [PATCH 4/4] fix: state the payouts the game really has for straight
 and royal flushes

The chart mixed up columns of the rules it links to: 250 and 4000 are the
credits won on the maximum bet of 5, not multiples of the bet.
---
 README.md | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/README.md b/README.md
index b037ce3..670e68f 100644
--- a/README.md
+++ b/README.md
@@ -67,17 +67,17 @@ poker game. Rules for the game can be found
 [here](https://www.liveabout.com/jacks-or-better-video-poker-2727991), with the
 following payout chart:
 
-| 5-card hand     | Payout (bet multiple) |
-| --------------- | --------------------- |
-| Royal Flush     | 4000                  |
-| Straight Flush  | 250                   |
-| Four of a Kind  | 25                    |
-| Full House      | 9                     |
-| Flush           | 6                     |
-| Straight        | 4                     |
-| Three of a Kind | 3                     |
-| Two Pair        | 2                     |
-| Jacks or Better | 1                     |
+| 5-card hand     | Payout (bet multiple)             |
+| --------------- | --------------------------------- |
+| Royal Flush     | 250 (4000 credits on a bet of 5)  |
+| Straight Flush  | 50                                |
+| Four of a Kind  | 25                                |
+| Full House      | 9                                 |
+| Flush           | 6                                 |
+| Straight        | 4                                 |
+| Three of a Kind | 3                                 |
+| Two Pair        | 2                                 |
+| Jacks or Better | 1                                 |
 
 > ### DISCLAIMER
 >
-- 
2.43.0

