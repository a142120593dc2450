From 80fb0e28a3ed753eb151612350758a92863375a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 01/24] fix: make max_n/min_n partial-state serialization
 STRICT

A parallel worker that aggregated no rows hands the serialization function a
NULL state, which max_n/min_n unwrapped: the query failed with
"called Option::unwrap() on a None value".
---
 extension/src/nmost/max_float.rs | 4 ++--
 extension/src/nmost/max_int.rs   | 4 ++--
 extension/src/nmost/max_time.rs  | 4 ++--
 extension/src/nmost/min_float.rs | 4 ++--
 extension/src/nmost/min_int.rs   | 4 ++--
 extension/src/nmost/min_time.rs  | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/extension/src/nmost/max_float.rs b/extension/src/nmost/max_float.rs
index 28263d7..04eaffc 100644
--- a/extension/src/nmost/max_float.rs
+++ b/extension/src/nmost/max_float.rs
@@ -95,13 +95,13 @@ pub fn max_n_float_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_float_serialize(state: Internal) -> bytea {
     let state: Inner<MaxFloatTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_float_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MaxFloatTransType = crate::do_deserialize!(bytes, MaxFloatTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/max_int.rs b/extension/src/nmost/max_int.rs
index 0af682a..d7f2673 100644
--- a/extension/src/nmost/max_int.rs
+++ b/extension/src/nmost/max_int.rs
@@ -89,13 +89,13 @@ pub fn max_n_int_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_int_serialize(state: Internal) -> bytea {
     let state: Inner<MaxIntTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_int_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MaxIntTransType = crate::do_deserialize!(bytes, MaxIntTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/max_time.rs b/extension/src/nmost/max_time.rs
index 930adef..e066878 100644
--- a/extension/src/nmost/max_time.rs
+++ b/extension/src/nmost/max_time.rs
@@ -90,13 +90,13 @@ pub fn max_n_time_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_time_serialize(state: Internal) -> bytea {
     let state: Inner<MaxTimeTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_time_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MaxTimeTransType = crate::do_deserialize!(bytes, MaxTimeTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/min_float.rs b/extension/src/nmost/min_float.rs
index ba72207..602b92e 100644
--- a/extension/src/nmost/min_float.rs
+++ b/extension/src/nmost/min_float.rs
@@ -94,13 +94,13 @@ pub fn min_n_float_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_float_serialize(state: Internal) -> bytea {
     let state: Inner<MinFloatTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_float_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MinFloatTransType = crate::do_deserialize!(bytes, MinFloatTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/min_int.rs b/extension/src/nmost/min_int.rs
index e832ce6..3ce8aa0 100644
--- a/extension/src/nmost/min_int.rs
+++ b/extension/src/nmost/min_int.rs
@@ -81,13 +81,13 @@ pub fn min_n_int_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_int_serialize(state: Internal) -> bytea {
     let state: Inner<MinIntTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_int_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MinIntTransType = crate::do_deserialize!(bytes, MinIntTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/min_time.rs b/extension/src/nmost/min_time.rs
index a121a81..7396012 100644
--- a/extension/src/nmost/min_time.rs
+++ b/extension/src/nmost/min_time.rs
@@ -81,13 +81,13 @@ pub fn min_n_time_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_time_serialize(state: Internal) -> bytea {
     let state: Inner<MinTimeTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_time_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MinTimeTransType = crate::do_deserialize!(bytes, MinTimeTransType);
     Internal::new(i).into()
-- 
2.43.0


From 165dbcfc79da4e6c032de305f79ac5dacaf75420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 02/24] fix: open combine states of generated aggregates at the
 type they are stored as

The generated combine functions read an Option<State> through a pointer to
State, which is only right as long as the compiler happens to give both the
same layout and the option is never None.
---
 crates/aggregate_builder/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/aggregate_builder/src/lib.rs b/crates/aggregate_builder/src/lib.rs
index 7dfc15a..d48b5e3 100644
--- a/crates/aggregate_builder/src/lib.rs
+++ b/crates/aggregate_builder/src/lib.rs
@@ -928,13 +928,13 @@ impl AggregateFn {
                 use crate::palloc::{Inner, InternalAsValue, ToInternal};
                 unsafe {
                     crate::aggregate_utils::in_aggregate_context(__fcinfo, || {
-                        let a: Option<Inner<State>> = #a_name.to_inner();
-                        let b: Option<Inner<State>> = #b_name.to_inner();
+                        let a: Option<Inner<Option<State>>> = #a_name.to_inner();
+                        let b: Option<Inner<Option<State>>> = #b_name.to_inner();
                         #[cfg(any(test, feature = "pg_test"))]
                         #aggregate_name::counters::increment_combine(&a, &b);
                         let #result_var = #ident(
-                            a.as_deref(),
-                            b.as_deref(),
+                            a.as_deref().and_then(|a| a.as_ref()),
+                            b.as_deref().and_then(|b| b.as_ref()),
                         );
                         #result_type_check
                         let state = match #state_var {
-- 
2.43.0


From f6889eda1b649446ddf76eadd50102ceac0022e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:33 +0000
Subject: [PATCH 03/24] fix: finalizing max_n/min_n and state_agg leaves the
 transition state intact

---
 extension/src/nmost/max_float.rs | 2 +-
 extension/src/nmost/max_int.rs   | 2 +-
 extension/src/nmost/max_time.rs  | 2 +-
 extension/src/nmost/min_float.rs | 2 +-
 extension/src/nmost/min_int.rs   | 2 +-
 extension/src/nmost/min_time.rs  | 2 +-
 extension/src/state_aggregate.rs | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/extension/src/nmost/max_float.rs b/extension/src/nmost/max_float.rs
index 04eaffc..6aca9e0 100644
--- a/extension/src/nmost/max_float.rs
+++ b/extension/src/nmost/max_float.rs
@@ -28,7 +28,7 @@ ron_inout_funcs!(MaxFloats<'input>);
 
 impl<'input> From<&mut MaxFloatTransType> for MaxFloats<'input> {
     fn from(item: &mut MaxFloatTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxFloats {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/max_int.rs b/extension/src/nmost/max_int.rs
index d7f2673..639acfc 100644
--- a/extension/src/nmost/max_int.rs
+++ b/extension/src/nmost/max_int.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MaxInts<'input>);
 
 impl<'input> From<&mut MaxIntTransType> for MaxInts<'input> {
     fn from(item: &mut MaxIntTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxInts {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/max_time.rs b/extension/src/nmost/max_time.rs
index e066878..24f6396 100644
--- a/extension/src/nmost/max_time.rs
+++ b/extension/src/nmost/max_time.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MaxTimes<'input>);
 
 impl<'input> From<&mut MaxTimeTransType> for MaxTimes<'input> {
     fn from(item: &mut MaxTimeTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxTimes {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_float.rs b/extension/src/nmost/min_float.rs
index 602b92e..93443e5 100644
--- a/extension/src/nmost/min_float.rs
+++ b/extension/src/nmost/min_float.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MinFloats<'input>);
 
 impl<'input> From<&mut MinFloatTransType> for MinFloats<'input> {
     fn from(item: &mut MinFloatTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinFloats {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_int.rs b/extension/src/nmost/min_int.rs
index 3ce8aa0..d709cf7 100644
--- a/extension/src/nmost/min_int.rs
+++ b/extension/src/nmost/min_int.rs
@@ -25,7 +25,7 @@ ron_inout_funcs!(MinInts<'input>);
 
 impl<'input> From<&mut MinIntTransType> for MinInts<'input> {
     fn from(item: &mut MinIntTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinInts {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_time.rs b/extension/src/nmost/min_time.rs
index 7396012..dccc4e7 100644
--- a/extension/src/nmost/min_time.rs
+++ b/extension/src/nmost/min_time.rs
@@ -25,7 +25,7 @@ ron_inout_funcs!(MinTimes<'input>);
 
 impl<'input> From<&mut MinTimeTransType> for MinTimes<'input> {
     fn from(item: &mut MinTimeTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinTimes {
                 capacity: item.capacity as u32,
diff --git a/extension/src/state_aggregate.rs b/extension/src/state_aggregate.rs
index 3f527a6..33d875a 100644
--- a/extension/src/state_aggregate.rs
+++ b/extension/src/state_aggregate.rs
@@ -610,7 +610,7 @@ impl state_agg {
 
             let mut merged_durations: Vec<TimeInState> = Vec::new();
             let mut last_record_state = None;
-            for record in s.records.drain(..) {
+            for record in s.records.iter().cloned() {
                 if last_record_state
                     .clone()
                     .map(|last| last != record.state)
-- 
2.43.0


From 6693181becdeb58d240f73849cd5c3268cc0e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 04/24] fix: building a tdigest from an aggregate state leaves
 the state intact

---
 crates/t-digest/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index 0856b31..0b5de3b 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -721,7 +721,7 @@ impl Builder {
 
     pub fn build(&mut self) -> TDigest {
         self.digest();
-        std::mem::take(&mut self.digested)
+        self.digested.clone()
     }
 
     pub fn merge(&mut self, other: Self) {
-- 
2.43.0


From ff08d1dd625d7d4e30d2a950f5c0117e59dfa1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 05/24] fix: merging tdigest builders keeps the values still
 buffered in either one

---
 crates/t-digest/src/lib.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index 0b5de3b..83e5895 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -724,15 +724,11 @@ impl Builder {
         self.digested.clone()
     }
 
-    pub fn merge(&mut self, other: Self) {
+    pub fn merge(&mut self, mut other: Self) {
         assert_eq!(self.digested.max_size(), other.digested.max_size());
+        self.digest();
+        other.digest();
         let digvec = vec![std::mem::take(&mut self.digested), other.digested];
-        if !self.buffer.is_empty() {
-            digvec[0].merge_unsorted(std::mem::take(&mut self.buffer));
-        }
-        if !other.buffer.is_empty() {
-            digvec[1].merge_unsorted(other.buffer);
-        }
         self.digested = TDigest::merge_digests(digvec);
     }
 }
-- 
2.43.0


From 8caef8acbef61b91e7a4f286544d0bfad25ddb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 06/24] fix: let errors unwind through the timestamptz encoding
 functions

A malformed timestamp in the text form of a value raised an error inside an
extern "C" function, which cannot unwind, so it aborted the server.
---
 crates/tspoint/src/lib.rs                | 4 ++--
 extension/src/serialization.rs           | 4 ++--
 extension/src/serialization/functions.rs | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/tspoint/src/lib.rs b/crates/tspoint/src/lib.rs
index 7684495..8c8c5d9 100644
--- a/crates/tspoint/src/lib.rs
+++ b/crates/tspoint/src/lib.rs
@@ -35,7 +35,7 @@ impl Serialize for TSPoint {
     {
         if serializer.is_human_readable() {
             // FIXME ugly hack to use postgres functions in an non-postgres library
-            unsafe extern "C" {
+            unsafe extern "C-unwind" {
                 fn _ts_toolkit_encode_timestamptz(dt: i64, buf: &mut [u8; 128]);
             }
             let mut ts = [0; 128];
@@ -70,7 +70,7 @@ impl<'de> Deserialize<'de> for TSPoint {
         }
 
         // FIXME ugly hack to use postgres functions in an non-postgres library
-        unsafe extern "C" {
+        unsafe extern "C-unwind" {
             // this is only going to be used to communicate with a rust lib we compile with this one
             #[allow(improper_ctypes)]
             fn _ts_toolkit_decode_timestamptz(text: &str) -> i64;
diff --git a/extension/src/serialization.rs b/extension/src/serialization.rs
index 6a3bc08..1ce6d8c 100644
--- a/extension/src/serialization.rs
+++ b/extension/src/serialization.rs
@@ -16,7 +16,7 @@ mod types;
 
 // basically timestamptz_out
 #[unsafe(no_mangle)]
-pub extern "C" fn _ts_toolkit_encode_timestamptz(
+pub extern "C-unwind" fn _ts_toolkit_encode_timestamptz(
     dt: pg_sys::TimestampTz,
     buf: &mut [c_char; pg_sys::MAXDATELEN as _],
 ) {
@@ -54,7 +54,7 @@ pub extern "C" fn _ts_toolkit_encode_timestamptz(
 #[unsafe(no_mangle)]
 // this is only going to be used to communicate with a rust lib we compile with this one
 #[allow(improper_ctypes_definitions)]
-pub extern "C" fn _ts_toolkit_decode_timestamptz(text: &str) -> i64 {
+pub extern "C-unwind" fn _ts_toolkit_decode_timestamptz(text: &str) -> i64 {
     use std::{ffi::CString, mem::MaybeUninit, ptr};
     let str = CString::new(text).unwrap();
     unsafe {
diff --git a/extension/src/serialization/functions.rs b/extension/src/serialization/functions.rs
index 09641d7..5238874 100644
--- a/extension/src/serialization/functions.rs
+++ b/extension/src/serialization/functions.rs
@@ -22,7 +22,7 @@ impl_flat_serializable!(PgProcId);
 
 // FIXME upstream to pgrx
 // TODO use this or regprocedureout()?
-unsafe extern "C" {
+unsafe extern "C-unwind" {
     pub fn format_procedure_qualified(procedure_oid: pg_sys::Oid) -> *const c_char;
 }
 
-- 
2.43.0


From 74170305187d7997b217dc06f7629282ca2efc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 07/24] fix: bound the nesting and length of lambda expressions

Parsing, executing and dropping a lambda expression all recurse, so a deeply
nested or very long expression overflowed the stack and crashed the server.
---
 .../src/time_vector/pipeline/lambda/parser.rs | 66 +++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/extension/src/time_vector/pipeline/lambda/parser.rs b/extension/src/time_vector/pipeline/lambda/parser.rs
index e16521f..41feab7 100644
--- a/extension/src/time_vector/pipeline/lambda/parser.rs
+++ b/extension/src/time_vector/pipeline/lambda/parser.rs
@@ -34,7 +34,73 @@ use UnaryOp::*;
 #[grammar = "time_vector/pipeline/lambda/lambda_expr.pest"] // relative to src
 pub struct ExpressionParser;
 
+// Parsing, executing and dropping an expression all recurse over its structure,
+// so an expression that is nested too deeply would overflow the stack and take
+// down the server.
+const MAX_NESTING: usize = 128;
+const MAX_OPERATORS: usize = 4096;
+
+// Panics unless `input` stays within the limits above. This looks only at the
+// text, and may count a few things as operators which aren't, eg. a sign.
+fn check_complexity(input: &str) {
+    let mut operators = 0;
+    // number of parentheses and prefix operators around the current position
+    let mut nesting = 0;
+    // `nesting` outside of every parenthesis that is still open
+    let mut open_parens = Vec::new();
+    // operators seen since the last operand, all but the first are prefixes
+    let mut prefixes = 0;
+
+    let mut rest = input.as_bytes();
+    while let Some((&c, tail)) = rest.split_first() {
+        rest = tail;
+        match c {
+            b'\'' => {
+                let end = rest.iter().position(|c| *c == b'\'');
+                rest = &rest[end.map_or(rest.len(), |end| end + 1)..];
+                prefixes = 0;
+            }
+            b'(' => {
+                open_parens.push(nesting);
+                nesting += prefixes + 1;
+                prefixes = 0;
+            }
+            b')' => {
+                nesting = open_parens.pop().unwrap_or(0);
+                prefixes = 0;
+            }
+            b'+' | b'-' | b'*' | b'/' | b'^' | b'=' | b'<' | b'>' | b'!' => {
+                operators += 1;
+                prefixes += 1;
+            }
+            b'n' | b'N' if rest.len() >= 2 && rest[..2].eq_ignore_ascii_case(b"ot") => {
+                rest = &rest[2..];
+                operators += 1;
+                prefixes += 1;
+            }
+            b'a' | b'A' if rest.len() >= 2 && rest[..2].eq_ignore_ascii_case(b"nd") => {
+                operators += 1;
+                prefixes = 0;
+            }
+            b'o' | b'O' if !rest.is_empty() && rest[..1].eq_ignore_ascii_case(b"r") => {
+                operators += 1;
+                prefixes = 0;
+            }
+            b' ' | b'\t' | b'\r' | b'\n' => (),
+            _ => prefixes = 0,
+        }
+        if nesting + prefixes > MAX_NESTING {
+            panic!("expression is nested too deeply, at most {MAX_NESTING} levels are supported")
+        }
+        if operators > MAX_OPERATORS {
+            panic!("expression is too long, at most {MAX_OPERATORS} operators are supported")
+        }
+    }
+}
+
 pub fn parse_expression(input: &str) -> Expression {
+    check_complexity(input);
+
     let parsed = ExpressionParser::parse(calculation, input).unwrap_or_else(|e| panic!("{}", e));
 
     let mut variables = Vec::new();
-- 
2.43.0


From 2bcc80f54c4113a5ac21340be2667414cf9432cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 08/24] fix: check that the states of a state_agg read from
 text are UTF-8

The text form of a state_agg may hold arbitrary bytes, which were turned into
a str unchecked and could be returned as invalid text.
---
 extension/src/state_aggregate.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/extension/src/state_aggregate.rs b/extension/src/state_aggregate.rs
index 33d875a..8f649ba 100644
--- a/extension/src/state_aggregate.rs
+++ b/extension/src/state_aggregate.rs
@@ -251,8 +251,9 @@ pub mod toolkit_experimental {
             self.get_materialized(&state.materialize(self.states_as_str()))
         }
         pub(super) fn get_materialized(&self, state: &MaterializedState) -> Option<i64> {
+            let states = self.states_as_str();
             for record in self.durations.iter() {
-                if record.state.materialize(self.states_as_str()) == *state {
+                if record.state.materialize(states) == *state {
                     return Some(record.duration);
                 }
             }
@@ -261,8 +262,8 @@ pub mod toolkit_experimental {
 
         pub(super) fn states_as_str(&self) -> &str {
             let states: &[u8] = self.states.as_slice();
-            // SAFETY: came from a String in `new` a few lines up
-            unsafe { std::str::from_utf8_unchecked(states) }
+            // `new` takes these from a String, but they may also come from text input
+            std::str::from_utf8(states).expect("invalid UTF-8 in states")
         }
 
         pub(super) fn interpolate(
-- 
2.43.0


From e0161502dd7bfa5a3435cad94482660e5912553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 09/24] fix: make the order of the states in a state_agg
 deterministic

The states were collected in a HashMap with a random seed, so the same rows
gave values with a different order of states, and different row orders of
into_values(), each time they were aggregated.
---
 extension/src/state_aggregate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extension/src/state_aggregate.rs b/extension/src/state_aggregate.rs
index 8f649ba..e4bad18 100644
--- a/extension/src/state_aggregate.rs
+++ b/extension/src/state_aggregate.rs
@@ -745,7 +745,7 @@ impl CompactStateAggTransState {
     fn make_duration_map_and_bounds(
         &mut self,
     ) -> (
-        std::collections::HashMap<MaterializedState, i64>,
+        std::collections::BTreeMap<MaterializedState, i64>,
         Option<Record>,
         Option<Record>,
     ) {
@@ -1800,13 +1800,13 @@ pub struct TimeInState {
 
 struct DurationState {
     last_state: Option<(MaterializedState, i64)>,
-    durations: std::collections::HashMap<MaterializedState, i64>,
+    durations: std::collections::BTreeMap<MaterializedState, i64>,
 }
 impl DurationState {
     fn new() -> Self {
         Self {
             last_state: None,
-            durations: std::collections::HashMap::new(),
+            durations: std::collections::BTreeMap::new(),
         }
     }
 
-- 
2.43.0


From 6ee134bc550159d862908ffce5af08f8b9de38e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 10/24] fix: rolling up max_n/min_n fills the heap before
 stopping early

A value that is no better than the ones already there was dropped, along
with everything after it, even while the heap had room for it.
---
 extension/src/nmost.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/extension/src/nmost.rs b/extension/src/nmost.rs
index 018e886..76c7b9f 100644
--- a/extension/src/nmost.rs
+++ b/extension/src/nmost.rs
@@ -101,8 +101,8 @@ fn nmost_rollup_trans_function<T: Ord + Copy>(
         in_aggregate_context(fcinfo, || {
             if let Some(mut state) = state {
                 for val in sorted_vals {
-                    // The values are sorted, so as soon as we find one that shouldn't be added, we're done
-                    if !state.belongs_in_heap(val) {
+                    // The values are sorted, so as soon as we find one that shouldn't be added to a full heap, we're done
+                    if state.heap.len() == state.capacity && !state.belongs_in_heap(val) {
                         return Some(state);
                     }
                     state.new_entry(*val);
@@ -266,8 +266,12 @@ fn nmost_by_rollup_trans_function<T: Ord + Copy>(
                     .iter()
                     .zip(datum_store.clone().into_anyelement_iter())
                 {
-                    // The values are sorted, so as soon as we find one that shouldn't be added, we're done
-                    if !state.values.belongs_in_heap(&(*val, state.values.capacity)) {
+                    // The values are sorted, so as soon as we find one that shouldn't be added to a full heap, we're done
+                    if state.values.heap.len() == state.values.capacity
+                        && !state
+                            .values
+                            .belongs_in_heap(&(*val, state.values.capacity))
+                    {
                         return Some(state);
                     }
                     state.new_entry(*val, element);
-- 
2.43.0


From 09c8fded235a16c54e191f606c766f155f90ed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 11/24] fix: refuse to combine frequency aggregates of
 different element types

Values of one type were compared and copied as if they were of the other,
which crashed the server.
---
 extension/src/frequency.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index b99abc9..21faf23 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -376,6 +376,10 @@ impl SpaceSavingTransState {
             map.insert(new_dat, new_ent);
         }
 
+        if one.type_oid() != two.type_oid() {
+            pgrx::error!("cannot combine frequency aggregates of different types")
+        }
+
         let hasher = one.indices.hasher().clone();
         let mut temp = PgAnyElementHashMap::with_hasher(hasher);
 
-- 
2.43.0


From f4cbcbd81651d288e3fa68361178159d42eb62c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 12/24] fix: refuse to roll up uddsketches of different
 parameters in release builds

Combining partial states already did; rolling up stored sketches only
checked the parameters in debug builds.
---
 crates/udd-sketch/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/udd-sketch/src/lib.rs b/crates/udd-sketch/src/lib.rs
index dfd53fa..41b3df8 100644
--- a/crates/udd-sketch/src/lib.rs
+++ b/crates/udd-sketch/src/lib.rs
@@ -430,7 +430,7 @@ impl UDDSketch {
     ) {
         let other_gamma = gamma(other.current_error);
         // Require matching initial parameters
-        debug_assert!(
+        assert!(
             (self
                 .gamma
                 .powf(1.0 / f64::powi(2.0, self.compactions as i32))
@@ -438,7 +438,7 @@ impl UDDSketch {
             .abs()
                 < 1e-9 // f64::EPSILON too small, see issue #396
         );
-        debug_assert_eq!(self.max_buckets.get(), other.max_buckets);
+        assert_eq!(self.max_buckets.get(), other.max_buckets);
 
         if other.values == 0 {
             return;
-- 
2.43.0


From 563a8b394d53f77028f8d0e44f3c571c4a12d502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 13/24] fix: refuse to combine hyperloglogs of different
 element types

Rolling them up one by one did, combining two partial rollups did not.
---
 extension/src/hyperloglog.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extension/src/hyperloglog.rs b/extension/src/hyperloglog.rs
index 0332574..debdd97 100644
--- a/extension/src/hyperloglog.rs
+++ b/extension/src/hyperloglog.rs
@@ -141,6 +141,9 @@ pub fn hyperloglog_combine_inner(
             (None, Some(state2)) => Some(state2.clone().into()),
             (Some(state1), None) => Some(state1.clone().into()),
             (Some(state1), Some(state2)) => {
+                if state1.logger.buildhasher.type_id != state2.logger.buildhasher.type_id {
+                    error!("mismatched types")
+                }
                 let mut logger = state1.logger.clone();
                 logger.merge_in(&state2.logger);
                 Some(HyperLogLogTrans { logger }.into())
-- 
2.43.0


From fcc32c6fab5020c9a1b40c0ad5e8f9734bfda05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 14/24] fix: topn checks the requested type also when the dummy
 argument is NULL

The values of the aggregate were returned as the type of the argument
without any check, so that topn(agg, NULL::text) read integers as
pointers and crashed the server.
---
 extension/src/frequency.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index 21faf23..8f921ec 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -1440,7 +1440,29 @@ fn validate_topn_for_mcv_agg(
     }
 }
 
-#[pg_extern(immutable, parallel_safe)]
+/// The type of the dummy argument decides how the values are read, also when the argument is NULL
+fn validate_topn_dummy_type(
+    agg: &SpaceSavingAggregate<'_>,
+    argument: usize,
+    fcinfo: pg_sys::FunctionCallInfo,
+) {
+    let expected = unsafe { pgrx::pg_getarg_type(fcinfo, argument) };
+    if expected.to_u32() != agg.type_oid {
+        pgrx::error!("mischatched types")
+    }
+}
+
+#[pg_extern(immutable, parallel_safe, name = "topn")]
+pub fn typed_topn(
+    agg: SpaceSavingAggregate<'_>,
+    n: i32,
+    ty: Option<AnyElement>,
+    fcinfo: pg_sys::FunctionCallInfo,
+) -> SetOfIterator<'_, AnyElement> {
+    validate_topn_dummy_type(&agg, 2, fcinfo);
+    topn(agg, n, ty)
+}
+
 pub fn topn(
     agg: SpaceSavingAggregate<'_>,
     n: i32,
@@ -1477,6 +1499,15 @@ pub fn topn(
 }
 
 #[pg_extern(immutable, parallel_safe, name = "topn")]
+pub fn typed_default_topn(
+    agg: SpaceSavingAggregate<'_>,
+    ty: Option<AnyElement>,
+    fcinfo: pg_sys::FunctionCallInfo,
+) -> SetOfIterator<'_, AnyElement> {
+    validate_topn_dummy_type(&agg, 1, fcinfo);
+    default_topn(agg, ty)
+}
+
 pub fn default_topn(
     agg: SpaceSavingAggregate<'_>,
     ty: Option<AnyElement>,
-- 
2.43.0


From e6c3652ff1ad8d052ce948f8141d00b6307da0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 15/24] fix: heartbeat_agg -> trim_to() no longer ignores a
 range that ends at 2000-01-01 00:00 UTC

---
 extension/src/heartbeat_agg.rs           | 2 +-
 extension/src/heartbeat_agg/accessors.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index 2bb8b50..782f749 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -589,7 +589,7 @@ pub fn arrow_heartbeat_agg_trim_to(
     agg: HeartbeatAgg<'static>,
     accessor: HeartbeatTrimToAccessor,
 ) -> HeartbeatAgg<'static> {
-    let end = if accessor.end == 0 {
+    let end = if accessor.end == accessors::TRIM_TO_NO_END {
         None
     } else {
         Some(accessor.end)
diff --git a/extension/src/heartbeat_agg/accessors.rs b/extension/src/heartbeat_agg/accessors.rs
index dc30a51..64d58f6 100644
--- a/extension/src/heartbeat_agg/accessors.rs
+++ b/extension/src/heartbeat_agg/accessors.rs
@@ -131,6 +131,9 @@ pg_type! {
 
 ron_inout_funcs!(HeartbeatTrimToAccessor);
 
+// end of a HeartbeatTrimToAccessor without a duration. Not 0, which is a valid time (2000-01-01 UTC).
+pub(super) const TRIM_TO_NO_END: i64 = i64::MIN;
+
 // Note that this is unable to take only a duration, as we don't have the functionality to store
 // an interval in PG format and are unable to convert it to an int without a reference time.
 // This is a difference from the inline function.
@@ -141,7 +144,7 @@ fn heartbeat_agg_trim_to_accessor(
 ) -> HeartbeatTrimToAccessor {
     let end = duration
         .map(|intv| crate::datum_utils::ts_interval_sum_to_ms(&start, &intv))
-        .unwrap_or(0);
+        .unwrap_or(TRIM_TO_NO_END);
     let start = i64::from(start);
 
     crate::build! {
-- 
2.43.0


From c8711cd0d31268eaa46e6c9b130d2321540064a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 16/24] fix: freq_agg -> topn(n) rejects a count outside the
 range of topn(freq_agg, n) instead of truncating it

---
 extension/src/frequency.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index 8f921ec..381de1b 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -1519,6 +1519,11 @@ pub fn default_topn(
     topn(agg, n, ty)
 }
 
+fn topn_count(accessor: &AccessorTopNCount) -> i32 {
+    i32::try_from(accessor.count)
+        .unwrap_or_else(|_| pgrx::error!("requested N ({}) is out of range", accessor.count))
+}
+
 #[pg_extern(immutable, parallel_safe, name = "topn")]
 pub fn topn_bigint(agg: SpaceSavingBigIntAggregate<'_>, n: i32) -> SetOfIterator<'_, i64> {
     validate_topn_for_mcv_agg(
@@ -1545,7 +1550,7 @@ pub fn arrow_topn_bigint<'a>(
     agg: SpaceSavingBigIntAggregate<'a>,
     accessor: AccessorTopNCount,
 ) -> SetOfIterator<'a, i64> {
-    topn_bigint(agg, accessor.count as i32)
+    topn_bigint(agg, topn_count(&accessor))
 }
 
 #[pg_extern(immutable, parallel_safe, name = "topn")]
@@ -1595,7 +1600,7 @@ pub fn arrow_topn_text<'a>(
     agg: SpaceSavingTextAggregate<'a>,
     accessor: AccessorTopNCount,
 ) -> SetOfIterator<'a, String> {
-    topn_text(agg, accessor.count as i32)
+    topn_text(agg, topn_count(&accessor))
 }
 
 #[pg_extern(immutable, parallel_safe, name = "topn")]
-- 
2.43.0


From a5f88598850c85d60d5efd4d6fe0a0e126b20835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 17/24] fix: state_agg -> accessors reject aggregates over the
 other kind of state, like the function forms

---
 extension/src/state_aggregate.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/extension/src/state_aggregate.rs b/extension/src/state_aggregate.rs
index e4bad18..c50069f 100644
--- a/extension/src/state_aggregate.rs
+++ b/extension/src/state_aggregate.rs
@@ -855,6 +855,7 @@ pub fn arrow_state_agg_duration_in_string<'a>(
     agg: StateAgg<'a>,
     accessor: AccessorDurationIn,
 ) -> crate::raw::Interval {
+    agg.assert_str();
     let state = MaterializedState::String(
         String::from_utf8_lossy(accessor.state_bytes.as_slice()).to_string(),
     );
@@ -866,6 +867,7 @@ pub fn arrow_state_agg_duration_in_int<'a>(
     agg: StateAgg<'a>,
     accessor: AccessorDurationInInt,
 ) -> crate::raw::Interval {
+    agg.assert_int();
     let state = MaterializedState::Integer(accessor.state);
     duration_in_inner(Some(agg.as_compact_state_agg()), state, None)
 }
@@ -928,6 +930,7 @@ pub fn arrow_state_agg_duration_in_range_string<'a>(
     agg: StateAgg<'a>,
     accessor: AccessorDurationInRange,
 ) -> crate::raw::Interval {
+    agg.assert_str();
     let state = MaterializedState::String(
         String::from_utf8_lossy(accessor.state_bytes.as_slice()).to_string(),
     );
@@ -943,6 +946,7 @@ pub fn arrow_state_agg_duration_in_range_int<'a>(
     agg: StateAgg<'a>,
     accessor: AccessorDurationInRangeInt,
 ) -> crate::raw::Interval {
+    agg.assert_int();
     let state = MaterializedState::Integer(accessor.state);
     duration_in_inner(
         Some(agg.as_compact_state_agg()),
@@ -1079,6 +1083,9 @@ pub fn arrow_state_agg_interpolated_duration_in_string<'a>(
     agg: Option<StateAgg<'a>>,
     accessor: AccessorInterpolatedDurationIn,
 ) -> crate::raw::Interval {
+    if let Some(ref agg) = agg {
+        agg.assert_str()
+    };
     let state = MaterializedState::String(
         String::from_utf8_lossy(accessor.state_bytes.as_slice()).to_string(),
     );
@@ -1100,6 +1107,9 @@ pub fn arrow_state_agg_interpolated_duration_in_int<'a>(
     agg: Option<StateAgg<'a>>,
     accessor: AccessorInterpolatedDurationInInt,
 ) -> crate::raw::Interval {
+    if let Some(ref agg) = agg {
+        agg.assert_int()
+    };
     let state = MaterializedState::Integer(accessor.state);
     interpolated_duration_in_inner(
         agg.map(StateAgg::as_compact_state_agg),
@@ -1585,6 +1595,7 @@ pub fn arrow_state_agg_state_periods_string<'a>(
         pgrx::name!(end_time, TimestampTz),
     ),
 > {
+    agg.assert_str();
     let state = MaterializedState::String(
         String::from_utf8_lossy(accessor.state_bytes.as_slice()).to_string(),
     );
@@ -1602,6 +1613,7 @@ pub fn arrow_state_agg_state_periods_int<'a>(
         pgrx::name!(end_time, TimestampTz),
     ),
 > {
+    agg.assert_int();
     let state = MaterializedState::Integer(accessor.state);
     state_periods_inner(agg.as_compact_state_agg(), state)
 }
@@ -1694,6 +1706,9 @@ pub fn arrow_state_agg_interpolated_state_periods_string<'a>(
         pgrx::name!(end_time, TimestampTz),
     ),
 > {
+    if let Some(ref agg) = agg {
+        agg.assert_str()
+    };
     let state = MaterializedState::String(
         String::from_utf8_lossy(accessor.state_bytes.as_slice()).to_string(),
     );
@@ -1721,6 +1736,9 @@ pub fn arrow_state_agg_interpolated_state_periods_int<'a>(
         pgrx::name!(end_time, TimestampTz),
     ),
 > {
+    if let Some(ref agg) = agg {
+        agg.assert_int()
+    };
     let state = MaterializedState::Integer(accessor.state);
     interpolated_state_periods_inner(
         agg.map(StateAgg::as_compact_state_agg),
@@ -1771,6 +1789,7 @@ pub fn arrow_state_agg_state_at_string<'a>(
     agg: StateAgg<'a>,
     accessor: AccessorStateAt,
 ) -> Option<String> {
+    agg.assert_str();
     state_at_inner(agg, accessor.time).map(MaterializedState::into_string)
 }
 
@@ -1780,6 +1799,7 @@ pub fn arrow_state_agg_state_at_int<'a>(
     agg: StateAgg<'a>,
     accessor: AccessorStateAtInt,
 ) -> Option<i64> {
+    agg.assert_int();
     state_at_inner(agg, accessor.time).map(MaterializedState::into_integer)
 }
 
-- 
2.43.0


From 88a0822a9f6167d857751aba6fc26152d2cd0e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 18/24] fix: topn(mcv_agg, n) refuses a negative n instead of
 looping over 2^64 values

---
 extension/src/frequency.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index 381de1b..aee94f5 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -1414,6 +1414,10 @@ fn validate_topn_for_mcv_agg(
     total_vals: u64,
     counts: impl Iterator<Item = u64>,
 ) {
+    if n < 0 {
+        pgrx::error!("requested N ({}) must not be negative", n)
+    }
+
     if topn == 0 {
         // Not a mcv aggregate
         return;
-- 
2.43.0


From 394df5be921afec2c545c4d8eedf19f931525610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 19/24] fix: lttb(timevector, n) refuses a negative n and n =
 1, whose bucket count wrapped around

---
 extension/src/lttb.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/extension/src/lttb.rs b/extension/src/lttb.rs
index ed44dff..f347889 100644
--- a/extension/src/lttb.rs
+++ b/extension/src/lttb.rs
@@ -337,6 +337,9 @@ pub fn lttb_on_timevector(
     series: Timevector_TSTZ_F64<'static>,
     threshold: i32,
 ) -> Option<Timevector_TSTZ_F64<'static>> {
+    if threshold < 0 {
+        pgrx::error!("resolution must not be negative")
+    }
     lttb_ts(series, threshold as usize).into()
 }
 
@@ -351,6 +354,10 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
         return data.in_current_context(); // can we avoid this copy???
     }
 
+    if threshold < 2 {
+        pgrx::error!("resolution must be greater than 1")
+    }
+
     let mut sampled = Vec::with_capacity(threshold);
 
     // Bucket size. Leave room for start and end data points.
-- 
2.43.0


From bf5902d9da2efd412133f48ad1575bf927094b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 20/24] fix: generate_periodic_normal_series refuses a sample
 interval that is not positive instead of wrapping it

---
 extension/src/utilities.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extension/src/utilities.rs b/extension/src/utilities.rs
index 70e9fb2..bdf300d 100644
--- a/extension/src/utilities.rs
+++ b/extension/src/utilities.rs
@@ -56,6 +56,9 @@ pub fn generate_periodic_normal_series(
     // TODO: exposing defaults in the PG function definition would be much nicer
     let series_len = series_len.unwrap_or(28 * DAY);
     let sample_interval = sample_interval.unwrap_or(10 * MIN);
+    if sample_interval <= 0 {
+        pgrx::error!("sample_interval must be greater than 0")
+    }
     let base_value = base_value.unwrap_or(1000.0);
     let period = period.unwrap_or(DAY);
     let periodic_magnitude = periodic_magnitude.unwrap_or(100.0);
-- 
2.43.0


From ad44d06042d1fe14deaf06bff13787f10c2c6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 21/24] fix: delta() of an empty timevector is empty instead of
 an error

---
 extension/src/time_vector/pipeline/delta.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/extension/src/time_vector/pipeline/delta.rs b/extension/src/time_vector/pipeline/delta.rs
index 933b829..0c56b14 100644
--- a/extension/src/time_vector/pipeline/delta.rs
+++ b/extension/src/time_vector/pipeline/delta.rs
@@ -37,15 +37,17 @@ pub fn timevector_delta<'s>(series: &Timevector_TSTZ_F64<'s>) -> Timevector_TSTZ
     }
 
     let mut it = series.iter();
-    let mut prev = it.next().unwrap().val;
     let mut delta_points = Vec::new();
 
-    for pt in it {
-        delta_points.push(TSPoint {
-            ts: pt.ts,
-            val: pt.val - prev,
-        });
-        prev = pt.val;
+    if let Some(first) = it.next() {
+        let mut prev = first.val;
+        for pt in it {
+            delta_points.push(TSPoint {
+                ts: pt.ts,
+                val: pt.val - prev,
+            });
+            prev = pt.val;
+        }
     }
 
     let nulls_len = delta_points.len().div_ceil(8);
-- 
2.43.0


From d8ef6cc5cbbe852f015839a02de4b667092aebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 22/24] fix: combining heartbeat_agg states of which one has no
 live range no longer fails

---
 extension/src/heartbeat_agg.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index 782f749..e9a7f3e 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -114,6 +114,14 @@ impl HeartbeatTransState {
     }
 
     fn combine_intervals(&mut self, new_intervals: Vec<(i64, i64)>) {
+        if new_intervals.is_empty() {
+            return;
+        }
+        if self.liveness.is_empty() {
+            self.liveness = new_intervals;
+            return;
+        }
+
         // Optimized path for nonoverlapping, ordered inputs
         if self.last < new_intervals.first().unwrap().0 {
             let mut new_intervals = new_intervals.into_iter();
-- 
2.43.0


From d0b92e391791e72eaba1f1234b724108afa69db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 23/24] fix: heartbeat_agg trim_to() a range that meets no live
 range yields an aggregate without live ranges

---
 extension/src/heartbeat_agg.rs | 39 ++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index e9a7f3e..f68bc51 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -234,12 +234,13 @@ impl HeartbeatAgg<'_> {
             ends.push(self.interval_ends.slice()[i]);
         }
 
+        let num_intervals = self.num_intervals as usize;
         let low_idx = if let Some(start) = start {
             let mut idx = 0;
-            while idx < self.num_intervals as usize && ends[idx] < start {
+            while idx < num_intervals && ends[idx] < start {
                 idx += 1;
             }
-            if starts[idx] < start {
+            if idx < num_intervals && starts[idx] < start {
                 starts[idx] = start;
             }
             idx
@@ -248,12 +249,13 @@ impl HeartbeatAgg<'_> {
         };
 
         let mut new_last = None;
-        let high_idx = if let Some(end) = end {
-            if self.num_intervals > 0 {
-                let mut idx = self.num_intervals as usize - 1;
-                while idx > low_idx && starts[idx] > end {
-                    idx -= 1;
-                }
+        let mut high_idx = num_intervals; // exclusive
+        if let Some(end) = end {
+            while high_idx > low_idx && starts[high_idx - 1] > end {
+                high_idx -= 1;
+            }
+            if high_idx > low_idx {
+                let idx = high_idx - 1;
                 new_last = Some(ends[idx] - self.interval_len);
                 if ends[idx] > end {
                     if end < new_last.unwrap() {
@@ -261,23 +263,24 @@ impl HeartbeatAgg<'_> {
                     }
                     ends[idx] = end;
                 }
-                idx
-            } else {
-                self.num_intervals as usize - 1
             }
-        } else {
-            self.num_intervals as usize - 1
-        };
+        }
+
+        let start_time = start.unwrap_or(self.start_time);
+        if low_idx == high_idx {
+            // no live range within the new bounds, so nothing was live at their start
+            new_last = Some(min(self.last_seen, start_time - self.interval_len));
+        }
 
         unsafe {
             flatten!(HeartbeatAgg {
-                start_time: start.unwrap_or(self.start_time),
+                start_time,
                 end_time: end.unwrap_or(self.end_time),
                 last_seen: new_last.unwrap_or(self.last_seen),
                 interval_len: self.interval_len,
-                num_intervals: (high_idx - low_idx + 1) as u64,
-                interval_starts: starts[low_idx..=high_idx].into(),
-                interval_ends: ends[low_idx..=high_idx].into(),
+                num_intervals: (high_idx - low_idx) as u64,
+                interval_starts: starts[low_idx..high_idx].into(),
+                interval_ends: ends[low_idx..high_idx].into(),
             })
         }
     }
-- 
2.43.0


From d237d473397ce968bccb4ee7eaeeb34d23310500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 24/24] fix: lambda functions were accepted with arguments that
 are no doubles, and failed with an internal error when evaluated

---
 extension/src/time_vector/pipeline/lambda/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/extension/src/time_vector/pipeline/lambda/parser.rs b/extension/src/time_vector/pipeline/lambda/parser.rs
index 41feab7..6ee0957 100644
--- a/extension/src/time_vector/pipeline/lambda/parser.rs
+++ b/extension/src/time_vector/pipeline/lambda/parser.rs
@@ -194,6 +194,15 @@ fn parse_primary<'a>(
                 )
             }
 
+            for arg in &args {
+                if arg.ty() != &Double {
+                    panic!(
+                        "function `{}` can only be applied to DOUBLE PRECISION arguments",
+                        func_name.as_str(),
+                    )
+                }
+            }
+
             FunctionCall(func_id, args)
         }
 
-- 
2.43.0

