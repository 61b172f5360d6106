From 2fa4604c6903b22889bd08fd295201ef5d744c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:28 +0000
Subject: [PATCH 1/4] fix: avoid recursion when dropping datums that have
 shared branches

When one of two branches had other strong references, the drop algorithm
aborted and dropped the other branch, which dropped it recursively.  A long
list with shared sub-branches overflowed the stack.  Continue with the branch
that can be taken out instead.
---
 src/drop.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/drop.rs b/src/drop.rs
index 596809e..006c483 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -188,12 +188,9 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
               let (mode, selected_datum, mut reuse_dr, other_class, other_dr)
                   = match (mode_lock, left_class, right_class)
               {
-                  // If the left node is a branch and we're either at the end of
-                  // a mode phase where the right node is a leaf, or we're
-                  // locked in left mode, we must be able to take out the left
-                  // datum to proceed.
+                  // If only the left node is a branch, we must be able to take
+                  // out the left datum to proceed.
                   | (_, Class::Branch, Class::Leaf)
-                  | (Some(Side::Left), Class::Branch, Class::Branch)
                   =>
                       if let Some(left_datum) = trytake(&mut left_dr) {
                           (Side::Left, left_datum, left_dr, right_class, right_dr)
@@ -202,12 +199,9 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
                           break
                       },
 
-                  // If the right node is a branch and we're either at the end
-                  // of a mode phase where the left node is a leaf, or we're
-                  // locked in right mode, we must be able to take out the right
-                  // datum to proceed.
+                  // If only the right node is a branch, we must be able to take
+                  // out the right datum to proceed.
                   | (_, Class::Leaf, Class::Branch)
-                  | (Some(Side::Right), Class::Branch, Class::Branch)
                   =>
                       if let Some(right_datum) = trytake(&mut right_dr) {
                           (Side::Right, right_datum, right_dr, left_class, left_dr)
@@ -216,16 +210,30 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
                           break
                       },
 
-                  // If both nodes are branches and we're not locked in a mode,
-                  // we must be able to take out one of the datums to proceed.
-                  // Preference is given to the left datum, but the right can be
-                  // used instead.
+                  // If both nodes are branches, we must be able to take out one
+                  // of the datums to proceed.  Preference is given to the side
+                  // we're locked in (or the left if not locked), but the other
+                  // can be used instead.  A branch that can't be taken out has
+                  // other strong references and so dropping our reference to it
+                  // does not recurse, and so it is treated like a leaf.
+                  // (Aborting would drop the other side's branch, recursively.)
                   | (None, Class::Branch, Class::Branch)
+                  | (Some(Side::Left), Class::Branch, Class::Branch)
                   =>
                       if let Some(left_datum) = trytake(&mut left_dr) {
                           (Side::Left, left_datum, left_dr, right_class, right_dr)
                       } else if let Some(right_datum) = trytake(&mut right_dr) {
+                          (Side::Right, right_datum, right_dr, Class::Leaf, left_dr)
+                      } else {
+                          // Abort, do nothing more, drop `left_dr` and `right_dr`
+                          break
+                      },
+                  | (Some(Side::Right), Class::Branch, Class::Branch)
+                  =>
+                      if let Some(right_datum) = trytake(&mut right_dr) {
                           (Side::Right, right_datum, right_dr, left_class, left_dr)
+                      } else if let Some(left_datum) = trytake(&mut left_dr) {
+                          (Side::Left, left_datum, left_dr, Class::Leaf, right_dr)
                       } else {
                           // Abort, do nothing more, drop `left_dr` and `right_dr`
                           break
-- 
2.43.0


From 6a05d494c530c4c0496799b57a88a35e41c0d29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:19 +0000
Subject: [PATCH 2/4] fix: don't parse any more after the first error

The convenience functions are documented to abort parsing immediately when an
error is returned, but take_while got one more item after the error, which
parsed the next form and possibly called its combiner.
---
 core/src/premade/inmem.rs | 63 ++++++++++++++++++++++++---------------
 src/common/helper.rs      | 19 +++++-------
 2 files changed, 47 insertions(+), 35 deletions(-)

diff --git a/core/src/premade/inmem.rs b/core/src/premade/inmem.rs
index 3e3cdb1..c64a8c8 100644
--- a/core/src/premade/inmem.rs
+++ b/core/src/premade/inmem.rs
@@ -1,8 +1,6 @@
 //! A `Parser` for parsing inputs that are in-memory strings, for no-heap
 //! constrained applications.
 
-use core::iter::TakeWhile;
-
 use crate::{
     Parser as ParserStruct, ParseIter, ParseIterItem, Combiner, Error, Text as _,
     parser::premade::{SliceDatumAllocator, PairOperatorBindings},
@@ -254,35 +252,52 @@ pub fn parse_text_with<'t, 'p, 'input, 'alloc, 'funs, 'bind, Extra, CombinerErro
     // Note: Couldn't figure out how to make this work:
     // -> impl Iterator<Item = TopFormResult<'input, 'alloc, 'funs, 'bind,
     //                                       Extra, CombinerError>>
-    -> ParseTextWith<'t, 'p, 'input, 'alloc, 'funs, 'bind, Extra, CombinerError,
-                     impl FnMut(&Result<DatumType<'input, 'alloc, Extra>,
-                                        Error<StrPos<'input>, CombinerError>>)
-                                -> bool>
+    -> ParseTextWith<'t, 'p, 'input, 'alloc, 'funs, 'bind, Extra, CombinerError>
 where
     Extra: Eq,
 {
     let input_source_stream = input.iter();
-    let mut already_errored = false;
-    parser.parse(input_source_stream)
-          .take_while(move |r|
-                      if already_errored {
-                          false
-                      } else {
-                          if r.is_err() {
-                              already_errored = true;
-                          }
-                          true
-                      })
+    UpToFirstErr {
+        iter: parser.parse(input_source_stream),
+        already_errored: false,
+    }
 }
 
 type ParseTextWith<'text, 'parser, 'input, 'alloc, 'funs, 'bind,
-                   Extra, CombinerError,
-                   Predicate>
-    = TakeWhile<ParseIter<'parser,
-                          Parser<'input, 'alloc, 'funs, 'bind,
-                                 Extra, CombinerError>,
-                          text::iter::Iter<'text, Text<'input, 'alloc, Extra>>>,
-                Predicate>;
+                   Extra, CombinerError>
+    = UpToFirstErr<ParseIter<'parser,
+                             Parser<'input, 'alloc, 'funs, 'bind,
+                                    Extra, CombinerError>,
+                             text::iter::Iter<'text, Text<'input, 'alloc, Extra>>>>;
+
+/// The `Iterator` type returned by [`parse_text_with`].  Yields the items of
+/// another iterator up to and including the first error, and does not get any
+/// more of its items after that.
+///
+/// [`parse_text_with`]: fn.parse_text_with.html
+#[derive(Clone, Debug)]
+pub struct UpToFirstErr<I> {
+    iter: I,
+    already_errored: bool,
+}
+
+impl<'input, T, CombinerError, I> Iterator for UpToFirstErr<I>
+where
+    I: Iterator<Item = Result<T, Error<StrPos<'input>, CombinerError>>>,
+{
+    type Item = I::Item;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.already_errored {
+            return None;
+        }
+        let item = self.iter.next();
+        if let Some(Err(_)) = item {
+            self.already_errored = true;
+        }
+        item
+    }
+}
 
 
 #[cfg(test)]
diff --git a/src/common/helper.rs b/src/common/helper.rs
index ea51675..ae85f01 100644
--- a/src/common/helper.rs
+++ b/src/common/helper.rs
@@ -14,15 +14,12 @@ pub(crate) fn collect_up_to_first_err<'p, CC, DA, OB, S>
           Parser<CC, DA, OB>: 'p,
           S: SourceStream<DA>,
 {
-    let mut already_errored = false;
-    pi.take_while(|r|
-                  if already_errored {
-                      false
-                  } else {
-                      if r.is_err() {
-                          already_errored = true;
-                      }
-                      true
-                  })
-      .collect()
+    let mut results = Vec::new();
+    for r in pi {
+        let is_err = r.is_err();
+        results.push(r);
+        // Don't get another item after an error, because that would parse more.
+        if is_err { break }
+    }
+    results
 }
-- 
2.43.0


From 868bd360a0dfbd8ab8a755afa941812bb11db30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:53 +0000
Subject: [PATCH 3/4] fix: make the core crate no_std as documented

The attribute was missing, so the core crate linked the standard library and
could not be built for environments without it.
---
 core/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index f6c6eaa..d93699e 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -62,6 +62,8 @@
 //! `char`s are preserved exactly (except whitespace around head forms), and so
 //! grapheme clusters are always preserved where it makes sense for our format.
 
+#![no_std]
+
 
 // TODO?: Should the Kernel terms be dropped in favor of terms like "text
 // macro", "form macro", and "constructor" instead?  Those terms are probably
-- 
2.43.0


From 9cd9905270b9d8401342176f0d58a44bdf0d445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:57:27 +0000
Subject: [PATCH 4/4] fix: Drop two references to the same datum without
 recursing

When both branches of a node refer to the same datum and nothing else does,
neither can be taken out, and dropping both recursed into the datum.  For a
chain of such nodes that overflowed the stack.
---
 src/drop.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/drop.rs b/src/drop.rs
index 006c483..d069946 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -225,7 +225,15 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
                       } else if let Some(right_datum) = trytake(&mut right_dr) {
                           (Side::Right, right_datum, right_dr, Class::Leaf, left_dr)
                       } else {
-                          // Abort, do nothing more, drop `left_dr` and `right_dr`
+                          // If both are references to the same datum, dropping
+                          // one can make the other the only strong reference.
+                          drop(left_dr);
+                          if let Some(right_datum) = trytake(&mut right_dr) {
+                              top_datum = right_datum;
+                              mode_lock = None;
+                              continue
+                          }
+                          // Abort, do nothing more, drop `right_dr`
                           break
                       },
                   | (Some(Side::Right), Class::Branch, Class::Branch)
@@ -235,7 +243,13 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
                       } else if let Some(left_datum) = trytake(&mut left_dr) {
                           (Side::Left, left_datum, left_dr, Class::Leaf, right_dr)
                       } else {
-                          // Abort, do nothing more, drop `left_dr` and `right_dr`
+                          drop(left_dr);
+                          if let Some(right_datum) = trytake(&mut right_dr) {
+                              top_datum = right_datum;
+                              mode_lock = None;
+                              continue
+                          }
+                          // Abort, do nothing more, drop `right_dr`
                           break
                       },
 
-- 
2.43.0

