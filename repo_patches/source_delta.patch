From b2dd8d81f33d960e97aeaf9679267a2429056a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 01/21] verification hooks (cfg parcom_verif): construct
 GenericSequenceBuilder, expose DefaultSequence signals

---
 .../parcom-runners/src/default_runner/sequence.rs | 15 +++++++++++++++
 crates/parcom-sequences/src/generic.rs            | 10 ++++++++++
 2 files changed, 25 insertions(+)

diff --git a/crates/parcom-runners/src/default_runner/sequence.rs b/crates/parcom-runners/src/default_runner/sequence.rs
index bff0df4..45280d2 100644
--- a/crates/parcom-runners/src/default_runner/sequence.rs
+++ b/crates/parcom-runners/src/default_runner/sequence.rs
@@ -36,6 +36,21 @@ where
     }
 }
 
+// Verification hook: no driver sets these handles yet, so the checks play the driver's part.
+#[cfg(parcom_verif)]
+impl<S, B> DefaultSequence<S, B>
+where
+    S: SequenceSource,
+    B: SequenceBuilder<S>,
+{
+    pub fn verif_signals(&self) -> (Arc<Notify>, Arc<AtomicBool>) {
+        (
+            Arc::clone(&self.inner.append_signal),
+            Arc::clone(&self.inner.done_flag),
+        )
+    }
+}
+
 struct DefaultSequenceInner<S, B>
 where
     S: SequenceSource,
diff --git a/crates/parcom-sequences/src/generic.rs b/crates/parcom-sequences/src/generic.rs
index f927fc8..b83689d 100644
--- a/crates/parcom-sequences/src/generic.rs
+++ b/crates/parcom-sequences/src/generic.rs
@@ -32,3 +32,13 @@ impl<B: BufferStrategy, S: SequenceSource> SequenceBuilder<S> for GenericSequenc
         (buffer, loader)
     }
 }
+
+// Verification hook: the builder has no public constructor yet.
+#[cfg(parcom_verif)]
+impl<B: BufferStrategy> GenericSequenceBuilder<B> {
+    pub fn verif_new(strategy: B) -> Self {
+        Self {
+            strategy: Arc::new(strategy),
+        }
+    }
+}
-- 
2.43.0


From 6a36af4cdcec22f88a9816dc7caa77b4ab1f29c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:04 +0000
Subject: [PATCH 02/21] fix: collect no longer turns a terminating error into a
 success

---
 crates/parcom-parsers/src/iterative/collect.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/parcom-parsers/src/iterative/collect.rs b/crates/parcom-parsers/src/iterative/collect.rs
index 7e6b8cf..c32cc2f 100644
--- a/crates/parcom-parsers/src/iterative/collect.rs
+++ b/crates/parcom-parsers/src/iterative/collect.rs
@@ -1,8 +1,8 @@
 use parcom_core::{
-    IterativeParser, IterativeParserOnce, IterativeParserState, ParseResult, Parser, ParserOnce,
-    RewindSequence,
+    IterativeParser, IterativeParserOnce, IterativeParserState, ParseError, ParseResult, Parser,
+    ParserOnce, RewindSequence,
 };
-use parcom_util::done;
+use parcom_util::{done, fail};
 use std::marker::PhantomData;
 
 #[derive(Debug)]
@@ -57,6 +57,7 @@ async fn parse<S: RewindSequence, P: IterativeParserState<S>, C: Extend<P::Outpu
                 collection.extend(std::iter::once(v));
                 rest = r;
             }
+            Err((e, r)) if e.should_terminate() => return fail(e, r),
             Err((e, r)) => {
                 return done((collection, Some(e)), r.rewind(anchor).await);
             }
-- 
2.43.0


From 985ecad26113b8ae6a806b9bd4d462cf94868511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 03/21] verification hooks (cfg parcom_verif):
 ShortVec::verif_set_len

---
 crates/parcom-internals/src/shortvec.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index 1a23c94..09fca92 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -172,6 +172,14 @@ impl<T, const N: usize> ShortVec<T, N> {
     }
 }
 
+#[cfg(parcom_verif)]
+impl<T, const N: usize> ShortVec<T, N> {
+    /// Sets the number of elements; they must be initialized and within the capacity.
+    pub unsafe fn verif_set_len(&mut self, len: usize) {
+        self.len = len;
+    }
+}
+
 impl<T, const N: usize> Drop for ShortVec<T, N> {
     fn drop(&mut self) {
         let ptr = self.as_ptr() as *mut T;
-- 
2.43.0


From 747e5854e6cbd3d19406e4cf03d15ac30a02ccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 04/21] fix: binary expressions with a left-associative
 operator of precedence usize::MAX no longer overflow

---
 crates/parcom-parsers/src/combinator/bin_expr.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/parcom-parsers/src/combinator/bin_expr.rs b/crates/parcom-parsers/src/combinator/bin_expr.rs
index 5e5f015..53c95ec 100644
--- a/crates/parcom-parsers/src/combinator/bin_expr.rs
+++ b/crates/parcom-parsers/src/combinator/bin_expr.rs
@@ -130,8 +130,7 @@ where
                     rhs = term;
                     break;
                 };
-                let prec = next_precedence(&last_op);
-                if op.precedence() >= prec {
+                if binds_tighter(&op, &last_op) {
                     // ひとつ前の演算子より優先度が高い．
                     stack.push((lhs, last_op));
                     stack.push((rhs, op));
@@ -151,10 +150,10 @@ where
         done((rhs, reason), rest)
     }
 }
-fn next_precedence<T: Operator>(op: &T) -> usize {
-    match op.associativity() {
-        Associativity::Left => op.precedence() + 1,
-        Associativity::Right => op.precedence(),
+fn binds_tighter<T: Operator>(op: &T, last_op: &T) -> bool {
+    match last_op.associativity() {
+        Associativity::Left => op.precedence() > last_op.precedence(),
+        Associativity::Right => op.precedence() >= last_op.precedence(),
     }
 }
 
-- 
2.43.0


From c02ded07a4d6a92ad158ca4d549453c4298ff743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 05/21] fix: advance by the whole literal when its match spans
 several segments

---
 crates/parcom-parsers/src/primitive/atom.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index 020e87a..7ee13d3 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -43,7 +43,8 @@ where
                 let matched = s == remain;
                 drop(segments);
                 return if matched {
-                    done((), input.advance(remain.len()).await)
+                    let len = self.pattern.pattern().len();
+                    done((), input.advance(len).await)
                 } else {
                     fail(Miss(()), input)
                 };
-- 
2.43.0


From af5b19c56b1da9c3a4b1d346354f2620f88f4e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 06/21] fix: a literal of another character width is a
 mismatch, not a panic

---
 crates/parcom-core/src/primitive/slice.rs   |  4 ++++
 crates/parcom-core/src/primitive/str.rs     |  4 ++++
 crates/parcom-core/src/sequence/segment.rs  |  5 +++++
 crates/parcom-parsers/src/primitive/atom.rs | 18 +++++++++---------
 4 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/crates/parcom-core/src/primitive/slice.rs b/crates/parcom-core/src/primitive/slice.rs
index dac8954..e8bdc7f 100644
--- a/crates/parcom-core/src/primitive/slice.rs
+++ b/crates/parcom-core/src/primitive/slice.rs
@@ -52,6 +52,10 @@ impl<T> SequenceSegment for [T] {
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self) {
         <[T]>::split_at(self, mid)
     }
+
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        <[T]>::split_at_checked(self, mid)
+    }
 }
 
 impl<'me, T: 'static> IntoMeasured for &'me [T] {
diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index d326b55..1751ae1 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -139,4 +139,8 @@ impl SequenceSegment for str {
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self) {
         str::split_at(&self, mid.0)
     }
+
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        str::split_at_checked(self, mid.0)
+    }
 }
diff --git a/crates/parcom-core/src/sequence/segment.rs b/crates/parcom-core/src/sequence/segment.rs
index df41402..432ce0c 100644
--- a/crates/parcom-core/src/sequence/segment.rs
+++ b/crates/parcom-core/src/sequence/segment.rs
@@ -3,4 +3,9 @@ pub trait SequenceSegment {
 
     fn len(&self) -> Self::Length;
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self);
+
+    /// Like `split_at`, but returns `None` where the segment can not be split at `mid`.
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        Some(self.split_at(mid))
+    }
 }
diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index 7ee13d3..d864e82 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -39,8 +39,9 @@ where
 
         while let Some(segment) = segments.next(remain.len()).await {
             if segment.len() >= remain.len() {
-                let s = segment.split_at(remain.len()).0;
-                let matched = s == remain;
+                let matched = segment
+                    .split_at_checked(remain.len())
+                    .is_some_and(|(s, _)| s == remain);
                 drop(segments);
                 return if matched {
                     let len = self.pattern.pattern().len();
@@ -50,14 +51,13 @@ where
                 };
             }
 
-            let (p, r) = remain.split_at(segment.len());
-
-            if &*segment != p {
-                drop(segments);
-                return fail(Miss(()), input);
+            match remain.split_at_checked(segment.len()) {
+                Some((p, r)) if &*segment == p => remain = r,
+                _ => {
+                    drop(segments);
+                    return fail(Miss(()), input);
+                }
             }
-
-            remain = r;
         }
 
         drop(segments);
-- 
2.43.0


From 77ae6b55a913bbe8d4b39e7e9aa81d34afe79ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 07/21] fix: the empty literal matches at the end of a sequence
 without segments

---
 crates/parcom-parsers/src/primitive/atom.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index d864e82..1f42a93 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -61,6 +61,12 @@ where
         }
 
         drop(segments);
+
+        // the empty literal matches even where there is no segment at all.
+        if remain.len() == Default::default() {
+            return done((), input);
+        }
+
         return fail((), input);
     }
 }
-- 
2.43.0


From 57accc568c5257347f26a952abfecbe5ea89a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 08/21] fix: text advanced beyond its end can be rewound

---
 crates/parcom-core/src/primitive/str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index 1751ae1..07ef93f 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -19,7 +19,7 @@ impl<'a> Sequence for &'a str {
 
     fn advance(self, delta: BytesDelta) -> Self::Advance {
         let delta = delta.to_bytes();
-        let rest = self.get(delta..).unwrap_or("");
+        let rest = self.get(delta..).unwrap_or(&self[self.len()..]);
         std::future::ready(rest)
     }
 }
-- 
2.43.0


From 2b0b72f157e48908a8e313561e82a41a322bc516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 09/21] fix: advancing a slice beyond its end stops at the end
 instead of panicking

---
 crates/parcom-core/src/primitive/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-core/src/primitive/slice.rs b/crates/parcom-core/src/primitive/slice.rs
index e8bdc7f..1a8af77 100644
--- a/crates/parcom-core/src/primitive/slice.rs
+++ b/crates/parcom-core/src/primitive/slice.rs
@@ -18,7 +18,7 @@ impl<'a, T> Sequence for &'a [T] {
     }
 
     fn advance(self, count: usize) -> Self::Advance {
-        std::future::ready(&self[count..])
+        std::future::ready(self.get(count..).unwrap_or(&self[self.len()..]))
     }
 }
 
-- 
2.43.0


From 72f6f6388dffc9ec8820feac4cb8bbaad6de5add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 10/21] fix: slices of zero-sized items can be rewound

---
 crates/parcom-core/src/primitive/slice.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/parcom-core/src/primitive/slice.rs b/crates/parcom-core/src/primitive/slice.rs
index 1a8af77..72bf4e8 100644
--- a/crates/parcom-core/src/primitive/slice.rs
+++ b/crates/parcom-core/src/primitive/slice.rs
@@ -31,10 +31,9 @@ impl<T> RewindSequence for &[T] {
     }
 
     fn rewind(self, anchor: Self::Anchor) -> Self::Rewind {
-        let ptr = anchor.me.as_ptr();
-        let len = anchor.me.len();
-        let offset = unsafe { self.as_ptr().offset_from(ptr) };
-        if !offset.is_negative() && (offset as usize) <= len {
+        let range = anchor.me.as_ptr_range();
+        let ptr = self.as_ptr();
+        if range.start <= ptr && ptr <= range.end {
             std::future::ready(anchor.me)
         } else {
             panic!("the anchor is not an anchor of this stream.")
-- 
2.43.0


From 0f2b3217285e23d7af7453d3611976c698f297d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 11/21] fix: a CRLF terminator after a further CR is recognised

---
 crates/parcom-metrics/src/end_of_line.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/parcom-metrics/src/end_of_line.rs b/crates/parcom-metrics/src/end_of_line.rs
index 960dd61..3478e93 100644
--- a/crates/parcom-metrics/src/end_of_line.rs
+++ b/crates/parcom-metrics/src/end_of_line.rs
@@ -55,13 +55,17 @@ impl EndOfLine for CRLF {
                 }
                 _ => EndOfLineMatch::NotMatch,
             },
-            CRLFState::CR => {
-                self.state = CRLFState::Initial;
-                match c {
-                    '\n' => EndOfLineMatch::Match,
-                    _ => EndOfLineMatch::NotMatch,
+            CRLFState::CR => match c {
+                '\r' => EndOfLineMatch::PartialMatch,
+                '\n' => {
+                    self.state = CRLFState::Initial;
+                    EndOfLineMatch::Match
                 }
-            }
+                _ => {
+                    self.state = CRLFState::Initial;
+                    EndOfLineMatch::NotMatch
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 152e46801a39182308b9c44dc3f3fac23fb0276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:38 +0000
Subject: [PATCH 12/21] fix: the order of locations is consistent with their
 equality

---
 crates/parcom-metrics/src/line_colmn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-metrics/src/line_colmn.rs b/crates/parcom-metrics/src/line_colmn.rs
index 3cb024f..1c6de54 100644
--- a/crates/parcom-metrics/src/line_colmn.rs
+++ b/crates/parcom-metrics/src/line_colmn.rs
@@ -48,7 +48,9 @@ impl<EOL: EndOfLine> Ord for LineColumn<EOL> {
 }
 impl<EOL: EndOfLine> PartialOrd for LineColumn<EOL> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        Some(self.total_count.cmp(&other.total_count))
+        let lhs = (self.total_count, self.line, self.column);
+        let rhs = (other.total_count, other.line, other.column);
+        Some(lhs.cmp(&rhs))
     }
 }
 
-- 
2.43.0


From c337a8cdd78f50248e74e96bd7aede07eab79ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 13/21] fix: the short vector does not allocate for zero-sized
 elements

---
 crates/parcom-internals/src/shortvec.rs | 40 +++++++++++++++----------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index 09fca92..3fdc6e6 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -32,12 +32,7 @@ impl<T, const N: usize> ShortVec<T, N> {
         );
 
         if cap > N {
-            let layout = Layout::array::<T>(cap).unwrap();
-            let ptr = unsafe { alloc::alloc(layout) as *mut T };
-            let ptr = match NonNull::new(ptr) {
-                Some(v) => v,
-                None => alloc::handle_alloc_error(layout),
-            };
+            let ptr = Self::allocate(cap);
 
             let data = ShortVecData {
                 heap: ManuallyDrop::new(ptr),
@@ -124,7 +119,10 @@ impl<T, const N: usize> ShortVec<T, N> {
         }
         // `cap`の不変条件によって、`self.cap >= N`をかならず満たすため、ここではヒープアロケーションが必ず行われる。
         let layout = Layout::array::<T>(cap).unwrap();
-        if self.is_heap() {
+        if self.is_heap() && layout.size() == 0 {
+            // zero-sized elements have no allocation to grow.
+            self.cap = cap;
+        } else if self.is_heap() {
             let old_layout = Layout::array::<T>(self.cap).unwrap();
             let ptr = unsafe {
                 let ptr = self.data.heap.as_ptr() as *mut u8;
@@ -139,13 +137,7 @@ impl<T, const N: usize> ShortVec<T, N> {
             self.cap = cap;
             self.data.heap = ptr;
         } else {
-            let buf = unsafe {
-                let ptr = alloc::alloc(layout) as *mut T;
-                match NonNull::new(ptr) {
-                    Some(v) => v,
-                    None => alloc::handle_alloc_error(layout),
-                }
-            };
+            let buf = Self::allocate(cap);
 
             unsafe {
                 let src = self.as_ptr_stack_unchecked();
@@ -163,6 +155,20 @@ impl<T, const N: usize> ShortVec<T, N> {
         self.cap > N
     }
 
+    fn allocate(cap: usize) -> NonNull<T> {
+        let layout = Layout::array::<T>(cap).unwrap();
+        // the allocator must not be asked for zero bytes.
+        if layout.size() == 0 {
+            return NonNull::dangling();
+        }
+
+        let ptr = unsafe { alloc::alloc(layout) as *mut T };
+        match NonNull::new(ptr) {
+            Some(v) => v,
+            None => alloc::handle_alloc_error(layout),
+        }
+    }
+
     unsafe fn as_ptr_stack_unchecked(&self) -> *const T {
         unsafe { self.data.stack.as_ptr() as *const T }
     }
@@ -190,8 +196,10 @@ impl<T, const N: usize> Drop for ShortVec<T, N> {
 
         if self.is_heap() {
             let layout = Layout::array::<T>(self.cap).unwrap();
-            unsafe {
-                alloc::dealloc(ptr as *mut u8, layout);
+            if layout.size() != 0 {
+                unsafe {
+                    alloc::dealloc(ptr as *mut u8, layout);
+                }
             }
         }
     }
-- 
2.43.0


From b5b85df12afbe2cf0ebedc661b8620896a1eefac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 14/21] fix: a writer's capacity counts the items already
 written

---
 crates/parcom-sequences/src/generic/control.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index 351fb59..d804f97 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -80,7 +80,7 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     type Error = E;
 
     fn capacity(&self) -> usize {
-        self.buf.capacity() - self.buf.len()
+        self.buf.capacity() - self.offset
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 964aa5a9f0c181727c15b1ae3ef6cb08d0cfb2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:23 +0000
Subject: [PATCH 15/21] fix: cancelling a write keeps the items of earlier
 loads

---
 crates/parcom-sequences/src/generic/control.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index d804f97..f865676 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -116,6 +116,10 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
 
     fn cancel(self, err: Self::Error) -> Self::Result {
         self.buf.drain(self.offset..);
+        if !self.to_append.is_empty() {
+            // the earlier loads' items stay pending.
+            *self.buf = self.to_append;
+        }
         Response::Cancel(err)
     }
 }
-- 
2.43.0


From 52e61e3effab81f084665a114a49205e6eb51a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:03 +0000
Subject: [PATCH 16/21] fix: text ending inside a character is an invalid
 sequence

---
 crates/parcom-sequence-sources/src/utf8_validator.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/parcom-sequence-sources/src/utf8_validator.rs b/crates/parcom-sequence-sources/src/utf8_validator.rs
index 337c9bc..df37dc6 100644
--- a/crates/parcom-sequence-sources/src/utf8_validator.rs
+++ b/crates/parcom-sequence-sources/src/utf8_validator.rs
@@ -142,9 +142,16 @@ where
     }
 
     fn finish(self) -> Self::Result {
-        let res = self.control.finish();
+        let inner = if self.buffered > 0 {
+            // the source ended inside a character, or after an invalid one.
+            let res = self.control.cancel(Utf8ValidationError::InvalidSequence);
+            InnerResponse::Err { res }
+        } else {
+            let res = self.control.finish();
+            InnerResponse::Finish { res }
+        };
         Response {
-            inner: InnerResponse::Finish { res },
+            inner,
             _phantom: PhantomData,
         }
     }
-- 
2.43.0


From 3f46fd2649bfad1920b5202ccd79c4e9abe31c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:18 +0000
Subject: [PATCH 17/21] verification hooks (cfg parcom_verif): shared-memory
 primitives with a callback before every access

---
 crates/parcom-internals/src/future/notify.rs  |  14 +-
 crates/parcom-internals/src/lib.rs            |   2 +
 crates/parcom-internals/src/verif.rs          | 123 ++++++++++++++++++
 .../src/default_runner/sequence.rs            |   6 +-
 .../src/default_runner/sequence/segments.rs   |  10 +-
 5 files changed, 145 insertions(+), 10 deletions(-)
 create mode 100644 crates/parcom-internals/src/verif.rs

diff --git a/crates/parcom-internals/src/future/notify.rs b/crates/parcom-internals/src/future/notify.rs
index 9abb471..18b6f00 100644
--- a/crates/parcom-internals/src/future/notify.rs
+++ b/crates/parcom-internals/src/future/notify.rs
@@ -1,10 +1,16 @@
+#[cfg(parcom_verif)]
+use crate::verif::{
+    atomic::{AtomicUsize, Ordering},
+    Mutex,
+};
 use slab::Slab;
+#[cfg(not(parcom_verif))]
+use std::sync::{
+    atomic::{AtomicUsize, Ordering},
+    Mutex,
+};
 use std::{
     future::Future,
-    sync::{
-        atomic::{AtomicUsize, Ordering},
-        Mutex,
-    },
     task::{Poll, Waker},
 };
 
diff --git a/crates/parcom-internals/src/lib.rs b/crates/parcom-internals/src/lib.rs
index 7511685..2e2b937 100644
--- a/crates/parcom-internals/src/lib.rs
+++ b/crates/parcom-internals/src/lib.rs
@@ -1,5 +1,7 @@
 pub mod future;
 pub mod reactive;
 pub mod shortvec;
+#[cfg(parcom_verif)]
+pub mod verif;
 
 pub use shortvec::ShortVec;
diff --git a/crates/parcom-internals/src/verif.rs b/crates/parcom-internals/src/verif.rs
new file mode 100644
index 0000000..b1e6756
--- /dev/null
+++ b/crates/parcom-internals/src/verif.rs
@@ -0,0 +1,123 @@
+//! Verification hook (cfg parcom_verif): shared-memory primitives that call back before every
+//! access, so that a check can run other parties at that point.
+use std::cell::{Cell, UnsafeCell};
+use std::ops::{Deref, DerefMut};
+use std::sync::{LockResult, TryLockError, TryLockResult};
+
+/// What to call before an access.
+pub static mut STEP: fn() = nothing;
+/// What to call when a lock is taken that is already held.
+pub static mut BLOCKED: fn() = nothing;
+
+fn nothing() {}
+fn step() {
+    unsafe { STEP() }
+}
+
+pub mod atomic {
+    pub use std::sync::atomic::*;
+
+    macro_rules! atomic {
+        ($($name:ident $t:ty { $($op:ident)* })*) => { $(
+            #[derive(Debug, Default)]
+            pub struct $name(std::sync::atomic::$name);
+            impl From<$t> for $name {
+                fn from(v: $t) -> Self {
+                    Self::new(v)
+                }
+            }
+            impl $name {
+                pub const fn new(v: $t) -> Self {
+                    Self(std::sync::atomic::$name::new(v))
+                }
+                pub fn get_mut(&mut self) -> &mut $t {
+                    self.0.get_mut()
+                }
+                pub fn into_inner(self) -> $t {
+                    self.0.into_inner()
+                }
+                pub fn load(&self, o: Ordering) -> $t {
+                    super::step();
+                    self.0.load(o)
+                }
+                pub fn store(&self, v: $t, o: Ordering) {
+                    super::step();
+                    self.0.store(v, o)
+                }
+                pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
+                    super::step();
+                    self.0.compare_exchange(a, b, o, p)
+                }
+                pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
+                    self.compare_exchange(a, b, o, p)
+                }
+                $(pub fn $op(&self, v: $t, o: Ordering) -> $t {
+                    super::step();
+                    self.0.$op(v, o)
+                })*
+            }
+        )* };
+    }
+    atomic! {
+        AtomicUsize usize { swap fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor }
+        AtomicU64 u64 { swap fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor }
+        AtomicU32 u32 { swap fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor }
+        AtomicBool bool { swap fetch_and fetch_or fetch_xor }
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct Mutex<T> {
+    held: Cell<bool>,
+    value: UnsafeCell<T>,
+}
+unsafe impl<T: Send> Send for Mutex<T> {}
+unsafe impl<T: Send> Sync for Mutex<T> {}
+impl<T> Mutex<T> {
+    pub const fn new(v: T) -> Self {
+        Self {
+            held: Cell::new(false),
+            value: UnsafeCell::new(v),
+        }
+    }
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        step();
+        if self.held.get() {
+            unsafe { BLOCKED() }
+        }
+        self.held.set(true);
+        Ok(MutexGuard(self))
+    }
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+        step();
+        if self.held.get() {
+            return Err(TryLockError::WouldBlock);
+        }
+        self.held.set(true);
+        Ok(MutexGuard(self))
+    }
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        Ok(self.value.get_mut())
+    }
+    pub fn into_inner(self) -> LockResult<T> {
+        Ok(self.value.into_inner())
+    }
+}
+#[derive(Debug)]
+pub struct MutexGuard<'a, T>(&'a Mutex<T>);
+impl<'a, T> Deref for MutexGuard<'a, T> {
+    type Target = T;
+    fn deref(&self) -> &T {
+        unsafe { &*self.0.value.get() }
+    }
+}
+impl<'a, T> DerefMut for MutexGuard<'a, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        unsafe { &mut *self.0.value.get() }
+    }
+}
+impl<'a, T> Drop for MutexGuard<'a, T> {
+    fn drop(&mut self) {
+        self.0.held.set(false);
+    }
+}
diff --git a/crates/parcom-runners/src/default_runner/sequence.rs b/crates/parcom-runners/src/default_runner/sequence.rs
index 45280d2..acf7667 100644
--- a/crates/parcom-runners/src/default_runner/sequence.rs
+++ b/crates/parcom-runners/src/default_runner/sequence.rs
@@ -4,7 +4,11 @@ mod segments;
 use parcom_core::Sequence;
 use parcom_internals::future::notify::Notify;
 use parcom_sequence_core::{SequenceBuffer, SequenceBuilder, SequenceSource};
-use std::sync::{atomic::AtomicBool, Arc};
+#[cfg(parcom_verif)]
+use parcom_internals::verif::atomic::AtomicBool;
+#[cfg(not(parcom_verif))]
+use std::sync::atomic::AtomicBool;
+use std::sync::Arc;
 
 pub use advance::DefaultSequenceAdvance;
 pub use segments::{DefaultSegments, DefaultSegmentsNext};
diff --git a/crates/parcom-runners/src/default_runner/sequence/segments.rs b/crates/parcom-runners/src/default_runner/sequence/segments.rs
index 10374a8..6373a6f 100644
--- a/crates/parcom-runners/src/default_runner/sequence/segments.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/segments.rs
@@ -6,11 +6,11 @@ use parcom_internals::future::{
 };
 use parcom_sequence_core::{SequenceBuffer, SequenceBuilder, SequenceSource};
 use pin_project::pin_project;
-use std::{
-    future::Future,
-    sync::atomic::{AtomicBool, Ordering},
-    task::Poll,
-};
+#[cfg(parcom_verif)]
+use parcom_internals::verif::atomic::AtomicBool;
+#[cfg(not(parcom_verif))]
+use std::sync::atomic::AtomicBool;
+use std::{future::Future, sync::atomic::Ordering, task::Poll};
 
 pub struct DefaultSegments<'a, S, B>
 where
-- 
2.43.0


From 5a2d9bdb6c36d63fe8c97aab04ea89fee0ab40b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 18/21] fix: notifying calls the wakers without holding the
 lock

---
 crates/parcom-internals/src/future/notify.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/parcom-internals/src/future/notify.rs b/crates/parcom-internals/src/future/notify.rs
index 18b6f00..80f3db7 100644
--- a/crates/parcom-internals/src/future/notify.rs
+++ b/crates/parcom-internals/src/future/notify.rs
@@ -30,8 +30,9 @@ impl Notify {
 
     pub fn send(&self) {
         self.version.fetch_add(1, Ordering::SeqCst);
-        let mut wakers = self.wakers.lock().unwrap();
-        for waker in wakers.drain() {
+        // a waker may come back to `self`: the lock is released before any is called.
+        let wakers = std::mem::take(&mut *self.wakers.lock().unwrap());
+        for (_, waker) in wakers {
             waker.wake();
         }
     }
-- 
2.43.0


From 02377e1d2be2560aceb6c43230bc2266ef6e0fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:16 +0000
Subject: [PATCH 19/21] fix: the end of a live sequence is reported only after
 its last segment

---
 .../parcom-runners/src/default_runner/sequence/segments.rs   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-runners/src/default_runner/sequence/segments.rs b/crates/parcom-runners/src/default_runner/sequence/segments.rs
index 6373a6f..22b4435 100644
--- a/crates/parcom-runners/src/default_runner/sequence/segments.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/segments.rs
@@ -91,13 +91,16 @@ where
         let fut = this.host.append_signal.wait();
         // `this.host.iter.next()`が`None`を返したあと、`this.host.append_signal.wait()`を呼ぶ前に次のセグメントが追加されたか終了した場合のため、(1)・(2)のチェックをする。
 
+        // 終了前に追加されたセグメントを見落とさないよう、終了フラグは(1)より先に読む。
+        let done = this.host.done_flag.load(Ordering::SeqCst);
+
         // (1): セグメントが末尾に追加されたか。
         if let Some(seg) = this.host.iter.next() {
             return Poll::Ready(Some(seg));
         }
 
         // (2): シーケンスが終了したか。
-        if this.host.done_flag.load(Ordering::SeqCst) {
+        if done {
             return Poll::Ready(None);
         }
 
-- 
2.43.0


From f8448b369e566bcfffcb007b43c9c476ca794699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:19 +0000
Subject: [PATCH 20/21] fix: advancing a live sequence keeps the remaining
 amount while it waits

---
 crates/parcom-runners/src/default_runner/sequence/advance.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/parcom-runners/src/default_runner/sequence/advance.rs b/crates/parcom-runners/src/default_runner/sequence/advance.rs
index b2915aa..f8a0d69 100644
--- a/crates/parcom-runners/src/default_runner/sequence/advance.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/advance.rs
@@ -59,6 +59,7 @@ where
             return Poll::Ready(DefaultSequence { inner: sequence });
         }
 
+        *this.remain = remain;
         cx.waker().wake_by_ref();
 
         Poll::Pending
-- 
2.43.0


From 82b1f9e3797cc0e4f232c1ddcf026312cbb07199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:35 +0000
Subject: [PATCH 21/21] fix: advancing a live sequence stops early only at its
 very end

---
 crates/parcom-runners/src/default_runner/sequence/advance.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-runners/src/default_runner/sequence/advance.rs b/crates/parcom-runners/src/default_runner/sequence/advance.rs
index f8a0d69..ba537b5 100644
--- a/crates/parcom-runners/src/default_runner/sequence/advance.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/advance.rs
@@ -47,10 +47,13 @@ where
         };
         this.fut.set(OptionFuture::some(fut));
 
+        // 終了前に追加されたセグメントを見落とさないよう、終了フラグはbufferより先に読む。
+        let done = sequence.done_flag.load(Ordering::SeqCst);
+
         let remain = std::mem::replace(this.remain, Default::default());
         let remain = sequence.buffer.advance(remain);
 
-        if &remain == this.remain || sequence.done_flag.load(Ordering::SeqCst) {
+        if &remain == this.remain || done {
             // `sequence`をtakeする前に`fut`がdropされることを保証する。
             this.fut.set(OptionFuture::none());
             // `this.remain == Default::default()`であるため、`remain == Default::default()`つまり`remain`が0になっている。
-- 
2.43.0

