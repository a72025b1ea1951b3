From d48bedfc8d558ea400fe3626279f3ac7ad4870c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 01/93] fix: drop the metadata of removed nodes

Node indices are reused, so a node added later would inherit the metadata
of the removed one.
---
 hugr-core/src/hugr/hugrmut.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 3a1564c..71bf6f7 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -486,6 +486,8 @@ impl HugrMut for Hugr {
         panic_invalid_non_entrypoint(self, node);
         self.hierarchy.remove(node.into_portgraph());
         self.graph.remove_node(node.into_portgraph());
+        // The node index may be reused, so drop the metadata too.
+        self.metadata.remove(node.into_portgraph());
         self.op_types.take(node.into_portgraph())
     }
 
-- 
2.43.0


From 979e3b1014cd120e837fae72f4952269bf7142b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 02/93] fix: canonicalize_nodes permutes metadata and reports
 every moved node

---
 hugr-core/src/hugr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr.rs b/hugr-core/src/hugr.rs
index d5d62c6..b23b069 100644
--- a/hugr-core/src/hugr.rs
+++ b/hugr-core/src/hugr.rs
@@ -383,8 +383,13 @@ impl Hugr {
             if pg_target != pg_source {
                 self.graph.swap_nodes(pg_target, pg_source);
                 self.op_types.swap(pg_target, pg_source);
+                self.metadata.swap(pg_target, pg_source);
                 self.hierarchy.swap_nodes(pg_target, pg_source);
-                rekey(source, pg_target.into());
+            }
+            // Report the original index of the node, `source` may have been
+            // displaced by an earlier swap.
+            if ordered[position] != pg_target.into() {
+                rekey(ordered[position], pg_target.into());
             }
         }
         self.module_root = portgraph::NodeIndex::new(0);
-- 
2.43.0


From 7e528bed75f925ff34277fd61d70a079fb8da11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 03/93] fix: extract_hugr of the module root sets the
 documented entrypoint

---
 hugr-core/src/hugr/views.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/views.rs b/hugr-core/src/hugr/views.rs
index ff53ca0..acebcd6 100644
--- a/hugr-core/src/hugr/views.rs
+++ b/hugr-core/src/hugr/views.rs
@@ -714,7 +714,9 @@ impl HugrView for Hugr {
     fn extract_hugr(&self, target: Node) -> (Hugr, impl ExtractionResult<Node> + 'static) {
         // Shortcircuit if the extracted HUGR is the same as the original
         if target == self.module_root().node() {
-            return (self.clone(), DefaultNodeMap(HashMap::new()));
+            let mut extracted = self.clone();
+            extracted.set_entrypoint(target);
+            return (extracted, DefaultNodeMap(HashMap::new()));
         }
 
         // Initialize a new HUGR with the desired entrypoint operation.
-- 
2.43.0


From 29d960e3c85788be67ffc1047a49a471b7634f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 04/93] fix: shrinking the ports of a node with multiple links
 per port

The links of dropped ports are removed before resizing, as portgraph
corrupts its multiport bookkeeping otherwise.
---
 hugr-core/src/hugr/internal.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/hugr/internal.rs b/hugr-core/src/hugr/internal.rs
index bb1a77f..bd08ca5 100644
--- a/hugr-core/src/hugr/internal.rs
+++ b/hugr-core/src/hugr/internal.rs
@@ -282,8 +282,7 @@ impl HugrMutInternals for Hugr {
     #[inline]
     fn set_num_ports(&mut self, node: Node, incoming: usize, outgoing: usize) {
         panic_invalid_node(self, node);
-        self.graph
-            .set_num_ports(node.into_portgraph(), incoming, outgoing, |_, _| {});
+        self.resize_ports(node.into_portgraph(), incoming, outgoing);
     }
 
     fn add_ports(&mut self, node: Node, direction: Direction, amount: isize) -> Range<usize> {
@@ -300,8 +299,7 @@ impl HugrMutInternals for Hugr {
             Direction::Incoming => increment(&mut incoming),
             Direction::Outgoing => increment(&mut outgoing),
         };
-        self.graph
-            .set_num_ports(node.into_portgraph(), incoming, outgoing, |_, _| {});
+        self.resize_ports(node.into_portgraph(), incoming, outgoing);
         range
     }
 
@@ -391,6 +389,24 @@ impl HugrMutInternals for Hugr {
 }
 
 impl Hugr {
+    /// Set the number of ports of a node, unlinking any dropped ports.
+    ///
+    /// Portgraph loses track of multiply-linked ports if they are dropped
+    /// while other ports of the node get moved, so we disconnect them first.
+    fn resize_ports(&mut self, node: portgraph::NodeIndex, incoming: usize, outgoing: usize) {
+        for (direction, num_ports) in [
+            (Direction::Incoming, incoming),
+            (Direction::Outgoing, outgoing),
+        ] {
+            let dropped = self.graph.ports(node, direction).skip(num_ports);
+            for port in dropped.collect_vec() {
+                self.graph.unlink_port(port);
+            }
+        }
+        self.graph
+            .set_num_ports(node, incoming, outgoing, |_, _| {});
+    }
+
     /// Consumes the HUGR and return a flat portgraph view of the region rooted
     /// at `parent`.
     #[inline]
-- 
2.43.0


From 3e6f8282e518b43408618bebf5bb25cdacc26202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 05/93] fix: fold checked integer division to a value of its
 output sum type

---
 .../arithmetic/int_ops/const_fold.rs          | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index faad176..0b2b14d 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -7,7 +7,7 @@ use crate::{
     IncomingPort,
     extension::{
         ConstFoldResult, Folder, OpDef,
-        prelude::{ConstError, sum_with_error},
+        prelude::{ConstError, const_ok, error_type, sum_with_error},
     },
     ops::{
         Value,
@@ -601,10 +601,11 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         } else {
                             let qval = nval / mval;
                             let rval = nval % mval;
-                            Value::tuple(vec![
+                            let qr = Value::tuple(vec![
                                 Value::extension(ConstInt::new_u(logwidth0, qval).unwrap()),
                                 Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
-                            ])
+                            ]);
+                            const_ok(qr, error_type())
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -661,10 +662,11 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (qval, rval) = divmod_s(nval, mval);
-                            Value::tuple(vec![
+                            let qr = Value::tuple(vec![
                                 Value::extension(ConstInt::new_s(logwidth0, qval).unwrap()),
                                 Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
-                            ])
+                            ]);
+                            const_ok(qr, error_type())
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -718,7 +720,8 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         let out_const: Value = if mval == 0 {
                             err_value()
                         } else {
-                            Value::extension(ConstInt::new_u(logwidth0, nval / mval).unwrap())
+                            let q = ConstInt::new_u(logwidth0, nval / mval).unwrap();
+                            const_ok(q.into(), error_type())
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -770,7 +773,8 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         let out_const: Value = if mval == 0 {
                             err_value()
                         } else {
-                            Value::extension(ConstInt::new_u(logwidth0, nval % mval).unwrap())
+                            let r = ConstInt::new_u(logwidth0, nval % mval).unwrap();
+                            const_ok(r.into(), error_type())
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -823,7 +827,8 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (qval, _) = divmod_s(nval, mval);
-                            Value::extension(ConstInt::new_s(logwidth0, qval).unwrap())
+                            let q = ConstInt::new_s(logwidth0, qval).unwrap();
+                            const_ok(q.into(), error_type())
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -877,7 +882,8 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (_, rval) = divmod_s(nval, mval);
-                            Value::extension(ConstInt::new_u(logwidth0, rval).unwrap())
+                            let r = ConstInt::new_u(logwidth0, rval).unwrap();
+                            const_ok(r.into(), error_type())
                         };
                         Some(vec![(0.into(), out_const)])
                     }
-- 
2.43.0


From 2b16bb2b85cb2bf454e5c1cb261f35b541fab617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 06/93] fix: remainder when folding signed division of the
 least 64-bit integer

---
 hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 0b2b14d..5848e91 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -63,7 +63,8 @@ fn divmod_s(n: i64, m: u64) -> (i64, u64) {
         if r == 0 {
             (q, 0)
         } else {
-            (q - 1, (m_s - r) as u64)
+            // r is negative
+            (q - 1, (m_s + r) as u64)
         }
     } else {
         // n = -2^63, m >= 2^63
-- 
2.43.0


From fa1a13eef1b69aa78d8655e50beb3d0bfd714560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 07/93] fix: integer narrowing to 64 bits and absolute value of
 the least integer when folding

---
 .../arithmetic/int_ops/const_fold.rs             | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 5848e91..7534227 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -129,7 +129,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             .unwrap_or_else(|e| panic!("Invalid computed sum, {e}"))
                     };
                     let n0val: u64 = n0.value_u();
-                    let out_const: Value = if n0val >> (1 << logwidth1) != 0 {
+                    let out_const: Value = if n0val > bitmask_from_logwidth(logwidth1) {
                         mk_out_const(0, Ok(INARROW_ERROR_VALUE.clone()))
                     } else {
                         mk_out_const(1, ConstInt::new_u(logwidth1, n0val).map(Into::into))
@@ -156,8 +156,8 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             .unwrap_or_else(|e| panic!("Invalid computed sum, {e}"))
                     };
                     let n0val: i64 = n0.value_s();
-                    let ub = 1i64 << ((1 << logwidth1) - 1);
-                    let out_const: Value = if n0val >= ub || n0val < -ub {
+                    let max = i64::MAX >> (64 - (1 << logwidth1));
+                    let out_const: Value = if n0val > max || n0val < !max {
                         mk_out_const(0, Ok(INARROW_ERROR_VALUE.clone()))
                     } else {
                         mk_out_const(1, ConstInt::new_s(logwidth1, n0val).map(Into::into))
@@ -925,13 +925,9 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         Some(vec![(
                             0.into(),
                             Value::extension(
-                                if n0val == i64::MIN {
-                                    debug_assert!(logwidth == 6);
-                                    ConstInt::new_u(6, 1u64 << 63)
-                                } else {
-                                    ConstInt::new_s(logwidth, n0val.abs())
-                                }
-                                .unwrap(),
+                                // The absolute value is unsigned: that of the least integer
+                                // does not fit the signed range.
+                                ConstInt::new_u(logwidth, n0val.unsigned_abs()).unwrap(),
                             ),
                         )])
                     } else {
-- 
2.43.0


From a9ccc790afd73303a4b565d3ab07d51810a4ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 08/93] fix: crash when folding integer shifts and rotations by
 the width or more

---
 .../arithmetic/int_ops/const_fold.rs            | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 7534227..4c1f187 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -40,6 +40,11 @@ fn bitmask_from_logwidth(logwidth: u8) -> u64 {
     bitmask_from_width(1u64 << logwidth)
 }
 
+/// The shift amount if it is less than 64, i.e. if not all bits are shifted out.
+fn shift_amount(k: &ConstInt) -> Option<u32> {
+    u32::try_from(k.value_u()).ok().filter(|k| *k < u64::BITS)
+}
+
 // return q, r s.t. n = qm + r, 0 <= r < m
 fn divmod_s(n: i64, m: u64) -> (i64, u64) {
     // This is quite hairy.
@@ -1041,7 +1046,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    (n0.value_u() << n1.value_u())
+                                    shift_amount(n1).map_or(0, |k| n0.value_u() << k)
                                         & bitmask_from_logwidth(logwidth0),
                                 )
                                 .unwrap(),
@@ -1066,7 +1071,11 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         Some(vec![(
                             0.into(),
                             Value::extension(
-                                ConstInt::new_u(logwidth0, n0.value_u() >> n1.value_u()).unwrap(),
+                                ConstInt::new_u(
+                                    logwidth0,
+                                    shift_amount(n1).map_or(0, |k| n0.value_u() >> k),
+                                )
+                                .unwrap(),
                             ),
                         )])
                     }
@@ -1093,7 +1102,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    ((n << k) & bitmask_from_width(w)) | (n >> (w - k)),
+                                    ((n << k) & bitmask_from_width(w)) | (n >> ((w - k) % w)),
                                 )
                                 .unwrap(),
                             ),
@@ -1122,7 +1131,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    ((n << (w - k)) & bitmask_from_width(w)) | (n >> k),
+                                    ((n << ((w - k) % w)) & bitmask_from_width(w)) | (n >> k),
                                 )
                                 .unwrap(),
                             ),
-- 
2.43.0


From 316ba393043079fdbe80f5e4c685d7f4781fbf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 09/93] fix: do not crash when folding list and float
 operations on opaque constants

---
 .../arithmetic/float_ops/const_fold.rs         | 14 ++++++--------
 .../collections/list/list_fold.rs              | 18 +++++++++---------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/float_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/float_ops/const_fold.rs
index 40cc82a..fded01e 100644
--- a/hugr-core/src/std_extensions/arithmetic/float_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/float_ops/const_fold.rs
@@ -23,14 +23,12 @@ pub(super) fn set_fold(op: &FloatOps, def: &mut OpDef) {
 
 /// Extract float values from constants in port order.
 fn get_floats<const N: usize>(consts: &[(IncomingPort, ops::Value)]) -> Option<[f64; N]> {
-    let consts: [&ops::Value; N] = sorted_consts(consts).try_into().ok()?;
-
-    Some(consts.map(|c| {
-        let const_f64: &ConstF64 = c
-            .get_custom_value()
-            .expect("This function assumes all incoming constants are floats.");
-        const_f64.value()
-    }))
+    // Constants in another representation (e.g. not deserialised) are not folded.
+    let floats: Option<Vec<f64>> = sorted_consts(consts)
+        .into_iter()
+        .map(|c| c.get_custom_value::<ConstF64>().map(ConstF64::value))
+        .collect();
+    floats?.try_into().ok()
 }
 
 /// Fold binary operations
diff --git a/hugr-core/src/std_extensions/collections/list/list_fold.rs b/hugr-core/src/std_extensions/collections/list/list_fold.rs
index 4bd88a6..7f70b0a 100644
--- a/hugr-core/src/std_extensions/collections/list/list_fold.rs
+++ b/hugr-core/src/std_extensions/collections/list/list_fold.rs
@@ -32,7 +32,7 @@ impl ConstFold for PopFold {
         consts: &[(crate::IncomingPort, Value)],
     ) -> ConstFoldResult {
         let [list]: [&Value; 1] = sorted_consts(consts).try_into().ok()?;
-        let list: &ListValue = list.get_custom_value().expect("Should be list value.");
+        let list: &ListValue = list.get_custom_value()?;
         let mut list = list.clone();
 
         if let Some(elem) = list.0.pop() {
@@ -56,7 +56,7 @@ impl ConstFold for PushFold {
         consts: &[(crate::IncomingPort, Value)],
     ) -> ConstFoldResult {
         let [list, elem]: [&Value; 2] = sorted_consts(consts).try_into().ok()?;
-        let list: &ListValue = list.get_custom_value().expect("Should be list value.");
+        let list: &ListValue = list.get_custom_value()?;
         let mut list = list.clone();
         list.0.push(elem.clone());
 
@@ -69,8 +69,8 @@ pub struct GetFold;
 impl ConstFold for GetFold {
     fn fold(&self, _type_args: &[TypeArg], consts: &[(IncomingPort, Value)]) -> ConstFoldResult {
         let [list, index]: [&Value; 2] = sorted_consts(consts).try_into().ok()?;
-        let list: &ListValue = list.get_custom_value().expect("Should be list value.");
-        let index: &ConstUsize = index.get_custom_value().expect("Should be int value.");
+        let list: &ListValue = list.get_custom_value()?;
+        let index: &ConstUsize = index.get_custom_value()?;
         let idx = index.value() as usize;
 
         match list.0.get(idx) {
@@ -85,9 +85,9 @@ pub struct SetFold;
 impl ConstFold for SetFold {
     fn fold(&self, _type_args: &[TypeArg], consts: &[(IncomingPort, Value)]) -> ConstFoldResult {
         let [list, idx, elem]: [&Value; 3] = sorted_consts(consts).try_into().ok()?;
-        let list: &ListValue = list.get_custom_value().expect("Should be list value.");
+        let list: &ListValue = list.get_custom_value()?;
 
-        let idx: &ConstUsize = idx.get_custom_value().expect("Should be int value.");
+        let idx: &ConstUsize = idx.get_custom_value()?;
         let idx = idx.value() as usize;
 
         let mut list = list.clone();
@@ -108,9 +108,9 @@ pub struct InsertFold;
 impl ConstFold for InsertFold {
     fn fold(&self, _type_args: &[TypeArg], consts: &[(IncomingPort, Value)]) -> ConstFoldResult {
         let [list, idx, elem]: [&Value; 3] = sorted_consts(consts).try_into().ok()?;
-        let list: &ListValue = list.get_custom_value().expect("Should be list value.");
+        let list: &ListValue = list.get_custom_value()?;
 
-        let idx: &ConstUsize = idx.get_custom_value().expect("Should be int value.");
+        let idx: &ConstUsize = idx.get_custom_value()?;
         let idx = idx.value() as usize;
 
         let mut list = list.clone();
@@ -130,7 +130,7 @@ pub struct LengthFold;
 impl ConstFold for LengthFold {
     fn fold(&self, _type_args: &[TypeArg], consts: &[(IncomingPort, Value)]) -> ConstFoldResult {
         let [list]: [&Value; 1] = sorted_consts(consts).try_into().ok()?;
-        let list: &ListValue = list.get_custom_value().expect("Should be list value.");
+        let list: &ListValue = list.get_custom_value()?;
         let len = list.0.len();
 
         Some(vec![(0.into(), ConstUsize::new(len as u64).into())])
-- 
2.43.0


From 9de7d85a1f4a759e344dcb2edea2bfe562cc785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 10/93] fix: order of signed zeros when folding float maximum
 and minimum

---
 .../std_extensions/arithmetic/float_ops/const_fold.rs    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/float_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/float_ops/const_fold.rs
index fded01e..6c8011e 100644
--- a/hugr-core/src/std_extensions/arithmetic/float_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/float_ops/const_fold.rs
@@ -31,14 +31,19 @@ fn get_floats<const N: usize>(consts: &[(IncomingPort, ops::Value)]) -> Option<[
     floats?.try_into().ok()
 }
 
+/// The maximum of two finite floats, with `-0.0 < 0.0`.
+fn max(x: f64, y: f64) -> f64 {
+    if x.total_cmp(&y).is_lt() { y } else { x }
+}
+
 /// Fold binary operations
 struct BinaryFold(Box<dyn Fn(f64, f64) -> f64 + Send + Sync>);
 impl BinaryFold {
     fn from_op(op: &FloatOps) -> Self {
         use FloatOps::*;
         Self(Box::new(match op {
-            fmax => f64::max,
-            fmin => f64::min,
+            fmax => max,
+            fmin => |x, y| -max(-x, -y),
             fadd => std::ops::Add::add,
             fsub => std::ops::Sub::sub,
             fmul => std::ops::Mul::mul,
-- 
2.43.0


From 2953b4c9dbafad16eda0d27bf83fedd54dd390ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 11/93] fix: do not fold boolean equality from one known input

---
 hugr-core/src/std_extensions/logic.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/std_extensions/logic.rs b/hugr-core/src/std_extensions/logic.rs
index 1e211f6..1735a81 100644
--- a/hugr-core/src/std_extensions/logic.rs
+++ b/hugr-core/src/std_extensions/logic.rs
@@ -44,9 +44,8 @@ impl ConstFold for LogicOp {
             Self::Eq => {
                 let inps = read_inputs(consts)?;
                 let res = inps.iter().copied().reduce(|a, b| a == b)?;
-                // If we have only some inputs, we can still fold to false, but not to true
-                (!res || inps.len() as u64 == 2)
-                    .then_some(vec![(0.into(), ops::Value::from_bool(res))])
+                // Both inputs must be known
+                (inps.len() as u64 == 2).then_some(vec![(0.into(), ops::Value::from_bool(res))])
             }
             Self::Not => {
                 let inps = read_inputs(consts)?;
-- 
2.43.0


From d56aee826d5eb0c9605b3fe2888366bc33055209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 12/93] fix: do not fold tuple construction from some of the
 elements

---
 hugr-core/src/extension/prelude.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/extension/prelude.rs b/hugr-core/src/extension/prelude.rs
index e83287f..0703822 100644
--- a/hugr-core/src/extension/prelude.rs
+++ b/hugr-core/src/extension/prelude.rs
@@ -618,11 +618,18 @@ pub enum TupleOpDef {
 impl ConstFold for TupleOpDef {
     fn fold(
         &self,
-        _type_args: &[TypeArg],
+        type_args: &[TypeArg],
         consts: &[(crate::IncomingPort, Value)],
     ) -> crate::extension::ConstFoldResult {
         match self {
             TupleOpDef::MakeTuple => {
+                // All the elements must be known
+                let [TypeArg::List(elems)] = type_args else {
+                    return None;
+                };
+                if consts.len() != elems.len() {
+                    return None;
+                }
                 fold_out_row([Value::tuple(sorted_consts(consts).into_iter().cloned())])
             }
             TupleOpDef::UnpackTuple => {
-- 
2.43.0


From 56bd10ce97a644b26bb184c699f9f40808367ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 13/93] fix: fold integer powers with exponents of 2^32 and
 more

---
 .../arithmetic/int_ops/const_fold.rs          | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index 4c1f187..ed54b87 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -45,6 +45,19 @@ fn shift_amount(k: &ConstInt) -> Option<u32> {
     u32::try_from(k.value_u()).ok().filter(|k| *k < u64::BITS)
 }
 
+/// `base` to the power of `exp`, modulo 2^64.
+fn wrapping_pow(mut base: u64, mut exp: u64) -> u64 {
+    let mut result = 1u64;
+    while exp > 0 {
+        if exp & 1 == 1 {
+            result = result.wrapping_mul(base);
+        }
+        base = base.wrapping_mul(base);
+        exp >>= 1;
+    }
+    result
+}
+
 // return q, r s.t. n = qm + r, 0 <= r < m
 fn divmod_s(n: i64, m: u64) -> (i64, u64) {
     // This is quite hairy.
@@ -565,11 +578,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth,
-                                    n0.value_u()
-                                        .overflowing_pow(
-                                            n1.value_u().try_into().unwrap_or(u32::MAX),
-                                        )
-                                        .0
+                                    wrapping_pow(n0.value_u(), n1.value_u())
                                         & bitmask_from_logwidth(logwidth),
                                 )
                                 .unwrap(),
-- 
2.43.0


From b3637cae0594458a755b75e7189adb4bfb9db00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 14/93] fix: fold truncation of out-of-range floats to an error
 as for smaller widths

---
 .../arithmetic/conversions/const_fold.rs            | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs
index 90615d7..d9ca2cb 100644
--- a/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs
@@ -39,6 +39,7 @@ pub(super) fn set_fold(op: &ConvertOpDef, def: &mut OpDef) {
 fn fold_trunc(
     type_args: &[crate::types::TypeArg],
     consts: &[(IncomingPort, Value)],
+    signed: bool,
     convert: impl Fn(f64, u8) -> Result<Value, ConstTypeError>,
 ) -> ConstFoldResult {
     let f: &ConstF64 = get_single_input_value(consts)?;
@@ -55,7 +56,13 @@ fn fold_trunc(
         }
         .as_either(int_type.clone())
     };
-    let out_const: ops::Value = if f.is_finite() {
+    // Casts from floats saturate, so check the range of 64 bit integers first.
+    let in_range = if signed {
+        f >= -(2f64.powi(63)) && f < 2f64.powi(63)
+    } else {
+        f > -1.0 && f < 2f64.powi(64)
+    };
+    let out_const: ops::Value = if in_range {
         let cv = convert(f, log_width);
         if let Ok(cv) = cv {
             const_ok(cv, error_type())
@@ -77,7 +84,7 @@ impl ConstFold for TruncU {
         type_args: &[crate::types::TypeArg],
         consts: &[(IncomingPort, ops::Value)],
     ) -> ConstFoldResult {
-        fold_trunc(type_args, consts, |f, log_width| {
+        fold_trunc(type_args, consts, false, |f, log_width| {
             ConstInt::new_u(log_width, f.trunc() as u64).map(Into::into)
         })
     }
@@ -91,7 +98,7 @@ impl ConstFold for TruncS {
         type_args: &[crate::types::TypeArg],
         consts: &[(IncomingPort, ops::Value)],
     ) -> ConstFoldResult {
-        fold_trunc(type_args, consts, |f, log_width| {
+        fold_trunc(type_args, consts, true, |f, log_width| {
             ConstInt::new_s(log_width, f.trunc() as i64).map(Into::into)
         })
     }
-- 
2.43.0


From 89d26d8a27c5a196c5b1d99606b9ce734134840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 15/93] fix: visibility of symbols that shadow another symbol

---
 hugr-model/src/v0/scope/symbol.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hugr-model/src/v0/scope/symbol.rs b/hugr-model/src/v0/scope/symbol.rs
index 52ca937..1131b68 100644
--- a/hugr-model/src/v0/scope/symbol.rs
+++ b/hugr-model/src/v0/scope/symbol.rs
@@ -120,12 +120,12 @@ impl<'a> SymbolTable<'a> {
     /// Check whether a symbol is currently visible in the current scope.
     #[must_use]
     pub fn is_visible(&self, node: NodeId) -> bool {
-        let Some(binding) = self.bindings.get(&node) else {
+        let Some((binding_index, _, binding)) = self.bindings.get_full(&node) else {
             return false;
         };
 
         // Check that the symbol has not been shadowed at this point.
-        self.symbols[binding.symbol_index] == binding.symbol_index
+        self.symbols[binding.symbol_index] == binding_index
     }
 
     /// Tries to resolve a symbol name in the current scope.
-- 
2.43.0


From b9f2381cbc15868a8068701e1625bfd10e7ff044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 16/93] fix: signature of the block that replaces a call of a
 polymorphic function

---
 hugr-core/src/hugr/patch/inline_call.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_call.rs b/hugr-core/src/hugr/patch/inline_call.rs
index a4d8383..5588c14 100644
--- a/hugr-core/src/hugr/patch/inline_call.rs
+++ b/hugr-core/src/hugr/patch/inline_call.rs
@@ -3,7 +3,7 @@
 use derive_more::{Display, Error};
 
 use crate::core::HugrNode;
-use crate::ops::{DFG, DataflowParent, OpType};
+use crate::ops::{DFG, OpType};
 use crate::types::Substitution;
 use crate::{Direction, HugrView, Node};
 
@@ -72,12 +72,13 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
         h.disconnect(self.0, old_order_in); // PortGraph currently does this anyway
 
         let new_op = OpType::from(DFG {
+            // The signature of the function at the type arguments of this call.
             signature: h
-                .get_optype(orig_func)
-                .as_func_defn()
+                .get_optype(self.0)
+                .as_call()
                 .unwrap()
-                .inner_signature()
-                .into_owned(),
+                .instantiation
+                .clone(),
         });
         let new_order_in = new_op.other_input_port().unwrap();
 
-- 
2.43.0


From 47bae6ac639605161ed6735f4379bbe687186a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 17/93] fix: order and non-local edges when inlining a dataflow
 block

---
 hugr-core/src/hugr/patch/inline_dfg.rs | 101 +++++++++++++++++++++----
 1 file changed, 88 insertions(+), 13 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_dfg.rs b/hugr-core/src/hugr/patch/inline_dfg.rs
index f5a3653..58d79a5 100644
--- a/hugr-core/src/hugr/patch/inline_dfg.rs
+++ b/hugr-core/src/hugr/patch/inline_dfg.rs
@@ -5,7 +5,8 @@
 use super::{PatchHugrMut, PatchVerification};
 use crate::core::HugrNode;
 use crate::ops::handle::{DfgID, NodeHandle};
-use crate::{HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
+use crate::types::EdgeKind;
+use crate::{Direction, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
 
 /// Structure identifying an `InlineDFG` rewrite from the spec
 pub struct InlineDFG<N = Node>(pub DfgID<N>);
@@ -73,15 +74,41 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
         };
         let parent = h.get_parent(n).unwrap();
         let [input, output] = h.get_io(n).unwrap();
-        for ch in h.children(n).skip(2).collect::<Vec<_>>() {
+        let children = h.children(n).skip(2).collect::<Vec<_>>();
+        // Operations in the DFG that do not need to wait for any other, or for the Input
+        let starts = order_ends(h, n, &children, Direction::Incoming);
+        // Operations in the DFG that no other, nor the Output, needs to wait for
+        let ends = order_ends(h, n, &children, Direction::Outgoing);
+        let is_empty = !(children.iter()).any(|ch| h.get_optype(*ch).other_input_port().is_some())
+            && !h.output_neighbours(input).any(|s| s == output);
+        for &ch in &children {
             h.set_parent(ch, parent);
         }
         // DFG Inputs. Deal with Order inputs first
         for (src_n, src_p) in h.linked_outputs(n, oth_in).collect::<Vec<_>>() {
             // Order edge from src_n to DFG => add order edge to each successor of Input node
+            // (except targets of nonlocal edges, which are nested inside such a successor),
+            // and to anything else that might be executed first
             debug_assert_eq!(Some(src_p), h.get_optype(src_n).other_output_port());
-            for tgt_n in h.output_neighbours(input).collect::<Vec<_>>() {
-                h.add_other_edge(src_n, tgt_n);
+            let succs = h.output_neighbours(input).collect::<Vec<_>>();
+            let mut tgts = succs
+                .into_iter()
+                .filter(|tgt_n| *tgt_n == output || h.get_parent(*tgt_n) == Some(parent))
+                .chain(starts.iter().copied())
+                .collect::<Vec<_>>();
+            // Nonlocal edges from src_n to a descendant of the DFG require an order
+            // edge to the ancestor of the target that is now a sibling of src_n.
+            for port in h.node_outputs(src_n).collect::<Vec<_>>() {
+                for (tgt_n, _) in h.linked_inputs(src_n, port) {
+                    let ancestor = std::iter::successors(Some(tgt_n), |t| h.get_parent(*t))
+                        .find(|t| h.get_parent(*t) == Some(parent));
+                    tgts.extend(ancestor.filter(|t| *t != tgt_n && children.contains(t)));
+                }
+            }
+            add_order_edges(h, [src_n], tgts);
+            if is_empty {
+                let tgts = h.linked_inputs(n, oth_out).map(|(t, _)| t).collect();
+                add_order_edges(h, [src_n], tgts);
             }
         }
         // And remaining (Value) inputs
@@ -102,17 +129,23 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
             for (tgt_n, tgt_p) in targets {
                 h.connect(src_n, src_p, tgt_n, tgt_p);
             }
-            // Ensure order-successors of Input node execute after any node producing an input
-            for (tgt, _) in &input_ord_succs {
-                h.add_other_edge(src_n, *tgt);
+            // Ensure order-successors of Input node execute after any node producing an input.
+            // (Sources outside the region of the DFG are executed earlier anyway.)
+            if h.get_parent(src_n) == Some(parent) {
+                let tgts = input_ord_succs.iter().map(|(tgt, _)| *tgt).collect();
+                add_order_edges(h, [src_n], tgts);
             }
         }
         // DFG Outputs. Deal with Order outputs first.
         for (tgt_n, tgt_p) in h.linked_inputs(n, oth_out).collect::<Vec<_>>() {
             debug_assert_eq!(Some(tgt_p), h.get_optype(tgt_n).other_input_port());
-            for src_n in h.input_neighbours(output).collect::<Vec<_>>() {
-                h.add_other_edge(src_n, tgt_n);
-            }
+            let preds = h.input_neighbours(output).collect::<Vec<_>>();
+            let srcs = preds
+                .into_iter()
+                .filter(|src_n| h.get_parent(*src_n) == Some(parent))
+                .chain(ends.iter().copied())
+                .collect::<Vec<_>>();
+            add_order_edges(h, srcs, vec![tgt_n]);
         }
         // And remaining (Value) outputs
         let output_ord_preds = h
@@ -129,9 +162,11 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
 
             for (tgt_n, tgt_p) in h.linked_inputs(n, outport).collect::<Vec<_>>() {
                 h.connect(src_n, src_p, tgt_n, tgt_p);
-                // Ensure order-predecessors of Output node execute before any node consuming a DFG output
-                for (src, _) in &output_ord_preds {
-                    h.add_other_edge(*src, tgt_n);
+                // Ensure order-predecessors of Output node execute before any node consuming a DFG output.
+                // (For targets in nested regions, the order edges to their ancestor suffice.)
+                if h.get_parent(tgt_n) == Some(parent) {
+                    let srcs = output_ord_preds.iter().map(|(src, _)| *src);
+                    add_order_edges(h, srcs, vec![tgt_n]);
                 }
             }
             h.disconnect(n, outport);
@@ -144,6 +179,46 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
     }
 }
 
+/// The dataflow children of DFG node `parent` that are not connected to any
+/// other child (including Input and Output) in the given direction.
+fn order_ends<N: HugrNode>(
+    h: &impl crate::HugrView<Node = N>,
+    parent: N,
+    children: &[N],
+    dir: Direction,
+) -> Vec<N> {
+    let is_local = |n: N, p| {
+        matches!(
+            h.get_optype(n).port_kind(p),
+            Some(EdgeKind::Value(_) | EdgeKind::StateOrder)
+        ) && h
+            .linked_ports(n, p)
+            .any(|(m, _)| h.get_parent(m) == Some(parent))
+    };
+    children
+        .iter()
+        .copied()
+        .filter(|&n| h.get_optype(n).other_port(dir).is_some())
+        .filter(|&n| !h.node_ports(n, dir).any(|p| is_local(n, p)))
+        .collect()
+}
+
+/// Add the order edges between the given siblings that do not exist yet.
+fn add_order_edges<N: HugrNode>(
+    h: &mut impl crate::hugr::HugrMut<Node = N>,
+    srcs: impl IntoIterator<Item = N>,
+    tgts: Vec<N>,
+) {
+    for src in srcs {
+        let port = h.get_optype(src).other_output_port().unwrap();
+        for &tgt in &tgts {
+            if src != tgt && !h.linked_inputs(src, port).any(|(t, _)| t == tgt) {
+                h.add_other_edge(src, tgt);
+            }
+        }
+    }
+}
+
 #[cfg(test)]
 mod test {
     use std::collections::HashSet;
-- 
2.43.0


From b705559feb62488526264b43517ae2193b83c1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 18/93] fix: dataflow analysis of calls of external functions

---
 hugr-passes/src/dataflow/datalog.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hugr-passes/src/dataflow/datalog.rs b/hugr-passes/src/dataflow/datalog.rs
index 0368f93..f707829 100644
--- a/hugr-passes/src/dataflow/datalog.rs
+++ b/hugr-passes/src/dataflow/datalog.rs
@@ -338,6 +338,12 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
             output_child(func, outp),
             in_wire_value(outp, p, v);
 
+        // Nothing is known about the results of functions defined elsewhere
+        out_wire_value(call, p, PV::Top) <--
+            func_call(call, func),
+            if hugr.get_optype(*func).is_func_decl(),
+            out_wire(call, p);
+
         // CallIndirect --------------------
         lattice indirect_call(H::Node, LatticeWrapper<H::Node>); // <Node> is an `IndirectCall` to `FuncDefn` <Node>
         indirect_call(call, tgt) <--
@@ -359,6 +365,12 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
             output_child(func, outp),
             in_wire_value(outp, p, v);
 
+        out_wire_value(call, p, PV::Top) <--
+            indirect_call(call, lv),
+            if let LatticeWrapper::Value(func) = lv,
+            if hugr.get_optype(*func).is_func_decl(),
+            out_wire(call, p);
+
         // Default out-value is Bottom, but if we can't determine the called function,
         // assign everything to Top
         out_wire_value(call, p, PV::Top) <--
-- 
2.43.0


From 55fdf65142113f035734b01916d881e052a3cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 19/93] fix: localise edges inside loops, blocks and across
 control flow

---
 hugr-passes/src/non_local.rs          |  11 +--
 hugr-passes/src/non_local/localize.rs | 100 +++++++++++++++++++-------
 2 files changed, 80 insertions(+), 31 deletions(-)

diff --git a/hugr-passes/src/non_local.rs b/hugr-passes/src/non_local.rs
index c8f5e85..cf04087 100644
--- a/hugr-passes/src/non_local.rs
+++ b/hugr-passes/src/non_local.rs
@@ -89,7 +89,7 @@ pub fn remove_nonlocal_edges<H: HugrMut>(hugr: &mut H) -> Result<(), LocalizeEdg
             let Some(EdgeKind::Value(ty)) = hugr.get_optype(src_n).port_kind(outp) else {
                 panic!("impossible")
             };
-            (node, (Wire::new(src_n, outp), ty))
+            ((node, inport), (Wire::new(src_n, outp), ty))
         })
         .collect();
 
@@ -99,8 +99,11 @@ pub fn remove_nonlocal_edges<H: HugrMut>(hugr: &mut H) -> Result<(), LocalizeEdg
 
     // We now compute the sources needed by each parent node.
     let needs_sources_map = {
-        let mut bnsm = ExtraSourceReqs::default();
-        for (target_node, (source, ty)) in nonlocal_edges.iter() {
+        let edges = nonlocal_edges
+            .iter()
+            .map(|(tgt, (source, _))| (*tgt, *source));
+        let mut bnsm = ExtraSourceReqs::new(edges);
+        for ((target_node, _), (source, ty)) in nonlocal_edges.iter() {
             let parent = hugr.get_parent(*target_node).unwrap();
             debug_assert!(hugr.get_parent(parent).is_some());
             bnsm.add_edge(&*hugr, parent, *source, ty.clone());
@@ -108,7 +111,7 @@ pub fn remove_nonlocal_edges<H: HugrMut>(hugr: &mut H) -> Result<(), LocalizeEdg
         bnsm
     };
 
-    debug_assert!(nonlocal_edges.iter().all(|(n, (source, _))| {
+    debug_assert!(nonlocal_edges.iter().all(|((n, _), (source, _))| {
         let source_parent = hugr.get_parent(source.node()).unwrap();
         let source_gp = hugr.get_parent(source_parent);
         ancestors(*n, hugr)
diff --git a/hugr-passes/src/non_local/localize.rs b/hugr-passes/src/non_local/localize.rs
index 15f5ded..3ea42f7 100644
--- a/hugr-passes/src/non_local/localize.rs
+++ b/hugr-passes/src/non_local/localize.rs
@@ -3,7 +3,7 @@
 use std::collections::{BTreeMap, HashMap};
 
 use hugr_core::{
-    Direction, HugrView, IncomingPort, Wire,
+    Direction, HugrView, IncomingPort, OutgoingPort, PortIndex, Wire,
     builder::{ConditionalBuilder, Dataflow, DataflowSubContainer, HugrBuilder},
     core::HugrNode,
     hugr::hugrmut::HugrMut,
@@ -15,23 +15,51 @@ use itertools::Itertools as _;
 use super::just_types;
 
 #[derive(Debug, Clone)]
-// For each parent/container node, a map from the source Wires that need to be added
-// as extra inputs to that container, to the Type of each.
-pub(super) struct ExtraSourceReqs<N: HugrNode>(BTreeMap<N, BTreeMap<Wire<N>, Type>>);
-
-impl<N: HugrNode> Default for ExtraSourceReqs<N> {
-    fn default() -> Self {
-        Self(BTreeMap::default())
-    }
+pub(super) struct ExtraSourceReqs<N: HugrNode> {
+    // For each parent/container node, a map from the source Wires that need to be added
+    // as extra inputs to that container, to the Type of each.
+    parents: BTreeMap<N, BTreeMap<Wire<N>, Type>>,
+    // The source of each nonlocal edge before any rewriting. (Adding ports
+    // to Input nodes may renumber the outports that the edges come from.)
+    sources: HashMap<(N, IncomingPort), Wire<N>>,
 }
 
 impl<N: HugrNode> ExtraSourceReqs<N> {
+    pub fn new(nonlocal_edges: impl IntoIterator<Item = ((N, IncomingPort), Wire<N>)>) -> Self {
+        Self {
+            parents: BTreeMap::new(),
+            sources: nonlocal_edges.into_iter().collect(),
+        }
+    }
+
     fn insert(&mut self, node: N, source: Wire<N>, ty: Type) -> bool {
-        self.0.entry(node).or_default().insert(source, ty).is_none()
+        self.parents
+            .entry(node)
+            .or_default()
+            .insert(source, ty)
+            .is_none()
     }
 
     fn get(&self, node: N) -> impl Iterator<Item = (&Wire<N>, &Type)> + '_ {
-        self.0.get(&node).into_iter().flat_map(BTreeMap::iter)
+        self.parents.get(&node).into_iter().flat_map(BTreeMap::iter)
+    }
+
+    // The current position of a wire (from before rewriting) whose source is in a
+    // region that has been threaded already.
+    fn current_wire(&self, hugr: &impl HugrView<Node = N>, w: Wire<N>) -> Wire<N> {
+        let parent = hugr.get_parent(w.node()).unwrap();
+        let parent_op = hugr.get_optype(parent);
+        if hugr.get_optype(w.node()).is_input()
+            && (parent_op.is_tail_loop() || parent_op.is_dataflow_block())
+        {
+            // These had their extra inputs added at the start
+            Wire::new(
+                w.node(),
+                OutgoingPort::from(w.source().index() + self.get(parent).count()),
+            )
+        } else {
+            w
+        }
     }
 
     pub fn parent_needs(&self, parent: N, source: Wire<N>) -> bool {
@@ -98,6 +126,11 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
     ) {
         if self.get(node).next().is_none() {
             // No edges incoming into this subtree, but there could still be nonlocal edges internal to it
+            if hugr.get_optype(node).is_cfg() {
+                // including edges from dominating blocks
+                self.thread_blocks(hugr, node);
+                return;
+            }
             for ch in hugr.children(node).collect::<Vec<_>>() {
                 self.thread_node(hugr, ch, &HashMap::new())
             }
@@ -136,11 +169,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
                     self.get(hugr.children(node).next().unwrap())
                         .collect::<Vec<_>>()
                 ); // Entry node
-                for bb in hugr.children(node).collect::<Vec<_>>() {
-                    if hugr.get_optype(bb).is_dataflow_block() {
-                        self.thread_bb(hugr, bb);
-                    }
-                }
+                self.thread_blocks(hugr, node);
                 0
             }
             _ => panic!(
@@ -154,8 +183,14 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
             start_new_port_index,
             src_wires.len(),
         );
-        let local_srcs = src_wires.into_iter().map(|w| *locals.get(&w).unwrap_or(&w));
-        for (w, tgt_port) in local_srcs.zip_eq(new_dfg_ports) {
+        let local_srcs = src_wires
+            .into_iter()
+            .map(|w| match locals.get(&w) {
+                Some(w) => *w,
+                None => self.current_wire(hugr, w),
+            })
+            .collect_vec();
+        for (w, tgt_port) in local_srcs.into_iter().zip_eq(new_dfg_ports) {
             assert_eq!(hugr.get_parent(w.node()), hugr.get_parent(node));
             hugr.connect(w.node(), w.source(), node, tgt_port)
         }
@@ -188,12 +223,10 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
         };
         for ch in hugr.children(node).collect::<Vec<_>>() {
             for (inp, _) in hugr.in_value_types(ch).collect::<Vec<_>>() {
-                if let Some((src_n, src_p)) = hugr.single_linked_output(ch, inp) {
-                    if hugr.get_parent(src_n) != Some(node) {
-                        hugr.disconnect(ch, inp);
-                        let new_p = nlocals.get(&Wire::new(src_n, src_p)).unwrap();
-                        hugr.connect(new_p.node(), new_p.source(), ch, inp);
-                    }
+                if let Some(source) = self.sources.get(&(ch, inp)) {
+                    hugr.disconnect(ch, inp);
+                    let new_p = nlocals.get(source).unwrap();
+                    hugr.connect(new_p.node(), new_p.source(), ch, inp);
                 }
             }
             self.thread_node(hugr, ch, &nlocals);
@@ -227,13 +260,23 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
         srcs: Vec<(Wire<N>, Type)>,
     ) {
         let [_, o] = hugr.get_io(node).unwrap();
+        // First make the existing control predicate local.
+        let locals = self.thread_dataflow_parent(hugr, node, 0, srcs.clone());
         let new_sum_row_prefixes = {
             let mut v = vec![vec![]; 2];
-            v[TailLoop::CONTINUE_TAG] = srcs.clone();
+            v[TailLoop::CONTINUE_TAG] = srcs.into_iter().map(|(w, t)| (locals[&w], t)).collect();
             v
         };
         add_control_prefixes(hugr, o, new_sum_row_prefixes);
-        self.thread_dataflow_parent(hugr, node, 0, srcs);
+    }
+
+    // Add to the dataflow blocks of a CFG (itself already updated, if required).
+    fn thread_blocks(&self, hugr: &mut impl HugrMut<Node = N>, cfg: N) {
+        for bb in hugr.children(cfg).collect::<Vec<_>>() {
+            if hugr.get_optype(bb).is_dataflow_block() {
+                self.thread_bb(hugr, bb);
+            }
+        }
     }
 
     // Add to DataflowBlock *and* inner dataflow sibling subgraph
@@ -252,7 +295,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
                     .map(|(w, ty)| {
                         (
                             if hugr.get_parent(w.node()) == Some(node) {
-                                *w
+                                self.current_wire(hugr, *w)
                             } else {
                                 *locals.get(w).unwrap()
                             },
@@ -262,6 +305,9 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
                     .collect()
             })
             .collect();
+        if variant_source_prefixes.iter().all(Vec::is_empty) {
+            return; // No successor needs anything
+        }
         let OpType::DataflowBlock(this_dfb) = hugr.optype_mut(node) else {
             panic!("It worked earlier!")
         };
-- 
2.43.0


From 8971598e2b4de8c4ec9d90f93e88f10da193f4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 20/93] fix: untuple with unused elements, several regions and
 mixed users

---
 hugr-passes/src/untuple.rs | 94 ++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 55 deletions(-)

diff --git a/hugr-passes/src/untuple.rs b/hugr-passes/src/untuple.rs
index 27a1f1f..a765694 100644
--- a/hugr-passes/src/untuple.rs
+++ b/hugr-passes/src/untuple.rs
@@ -7,10 +7,10 @@ use hugr_core::extension::prelude::{MakeTuple, UnpackTuple};
 use hugr_core::hugr::SimpleReplacementError;
 use hugr_core::hugr::hugrmut::HugrMut;
 use hugr_core::hugr::views::SiblingSubgraph;
-use hugr_core::hugr::views::sibling_subgraph::TopoConvexChecker;
+use hugr_core::hugr::views::sibling_subgraph::{InvalidSubgraph, TopoConvexChecker};
 use hugr_core::ops::{OpTrait, OpType};
 use hugr_core::types::Type;
-use hugr_core::{HugrView, Node, SimpleReplacement};
+use hugr_core::{HugrView, Node, PortIndex, SimpleReplacement};
 use itertools::Itertools;
 
 use crate::ComposablePass;
@@ -105,10 +105,9 @@ impl UntuplePass {
         let mut children_queue = VecDeque::new();
         children_queue.push_back(parent);
 
-        // Required to create SimpleReplacements.
-        let mut convex_checker: Option<TopoConvexChecker<H>> = None;
-
         while let Some(parent) = children_queue.pop_front() {
+            // Required to create SimpleReplacements in this region.
+            let mut convex_checker: Option<TopoConvexChecker<H>> = None;
             for node in hugr.children(parent) {
                 let op = hugr.get_optype(node);
                 if let Some(rw) = make_rewrite(hugr, &mut convex_checker, node, op) {
@@ -188,68 +187,52 @@ fn make_rewrite<'h, T: HugrView>(
     }
 
     // Remove all unpack operations, and remove the pack operation if all neighbours are unpacks.
-    let num_other_outputs = links.len() - unpack_nodes.len();
-    Some(remove_pack_unpack(
-        hugr,
-        convex_checker,
-        &tuple_types,
-        node,
-        unpack_nodes,
-        num_other_outputs,
-    ))
+    remove_pack_unpack(hugr, convex_checker, &tuple_types, node, unpack_nodes)
 }
 
 /// Returns a rewrite to remove a tuple pack operation that's followed by unpack operations,
-/// and `other_tuple_links` other operations.
+/// and possibly by other operations.
+///
+/// Returns `None` if the operations cannot be replaced together.
 fn remove_pack_unpack<'h, T: HugrView>(
     hugr: &'h T,
     convex_checker: &mut Option<TopoConvexChecker<'h, T>>,
     tuple_types: &[Type],
     pack_node: T::Node,
     unpack_nodes: Vec<T::Node>,
-    num_other_outputs: usize,
-) -> SimpleReplacement<T::Node> {
-    let num_unpack_outputs = tuple_types.len() * unpack_nodes.len();
-
+) -> Option<SimpleReplacement<T::Node>> {
     let parent = hugr.get_parent(pack_node).expect("pack_node has no parent");
     let checker = convex_checker.get_or_insert_with(|| TopoConvexChecker::new(hugr, parent));
 
     let mut nodes = unpack_nodes;
     nodes.push(pack_node);
-    let subcirc = SiblingSubgraph::try_from_nodes_with_checker(nodes, hugr, checker).unwrap();
-    let subcirc_signature = subcirc.signature(hugr);
-
-    // The output port order in `SiblingSubgraph::try_from_nodes` is not too well defined.
-    // Check that the outputs are in the expected order.
-    debug_assert!(
-        itertools::equal(
-            subcirc_signature.output().iter(),
-            tuple_types
-                .iter()
-                .cycle()
-                .take(num_unpack_outputs)
-                .chain(itertools::repeat_n(
-                    &Type::new_tuple(tuple_types.to_vec()),
-                    num_other_outputs
-                ))
-        ),
-        "Unpacked tuple values must come before tupled values"
-    );
-
-    let mut replacement = DFGBuilder::new(subcirc_signature).unwrap();
-    let mut outputs = Vec::with_capacity(num_unpack_outputs + num_other_outputs);
-
-    // Wire the inputs directly to the unpack outputs
-    outputs.extend(replacement.input_wires().cycle().take(num_unpack_outputs));
-
-    // If needed, re-add the tuple pack node and connect its output to the tuple outputs.
-    if num_other_outputs > 0 {
-        let op = MakeTuple::new(tuple_types.to_vec().into());
-        let [tuple] = replacement
-            .add_dataflow_op(op, replacement.input_wires())
-            .unwrap()
-            .outputs_arr();
-        outputs.extend(std::iter::repeat_n(tuple, num_other_outputs));
+    let subcirc = match SiblingSubgraph::try_from_nodes_with_checker(nodes, hugr, checker) {
+        // The operations depend on each other via other nodes
+        Err(InvalidSubgraph::NotConvex) => return None,
+        subcirc => subcirc.unwrap(),
+    };
+
+    let mut replacement = DFGBuilder::new(subcirc.signature(hugr)).unwrap();
+    let inputs = replacement.input_wires().collect_vec();
+    let mut tuple = None;
+    let mut outputs = Vec::with_capacity(subcirc.outgoing_ports().len());
+
+    // Only the connected ports of the unpack operations are outputs of the subgraph.
+    for &(node, port) in subcirc.outgoing_ports() {
+        outputs.push(if node == pack_node {
+            // Re-add the tuple pack node and connect its output to the tuple outputs.
+            *tuple.get_or_insert_with(|| {
+                let op = MakeTuple::new(tuple_types.to_vec().into());
+                let [tuple] = replacement
+                    .add_dataflow_op(op, inputs.iter().copied())
+                    .unwrap()
+                    .outputs_arr();
+                tuple
+            })
+        } else {
+            // Wire the inputs directly to the unpack outputs
+            inputs[port.index()]
+        });
     }
 
     // These should never fail, as we are defining the replacement ourselves.
@@ -258,11 +241,12 @@ fn remove_pack_unpack<'h, T: HugrView>(
         .unwrap_or_else(|e| {
             panic!("Failed to create replacement for removing tuple pack/unpack operations. {e}")
         });
-    subcirc
+    let rewrite = subcirc
         .create_simple_replacement(hugr, replacement)
         .unwrap_or_else(|e| {
             panic!("Failed to create rewrite for removing tuple pack/unpack operations. {e}")
-        })
+        });
+    Some(rewrite)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2039c4a928dfe18b3df9eaf5d935f1334eb7a4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 21/93] fix: localising edges into a loop whose control value
 is from outside the entrypoint

---
 hugr-passes/src/non_local/localize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-passes/src/non_local/localize.rs b/hugr-passes/src/non_local/localize.rs
index 3ea42f7..4852015 100644
--- a/hugr-passes/src/non_local/localize.rs
+++ b/hugr-passes/src/non_local/localize.rs
@@ -398,7 +398,7 @@ fn add_control_prefixes<H: HugrMut>(
     let cond_node = hugr.insert_hugr(parent, cond).inserted_entrypoint;
     let (old_output_source_node, old_output_source_port) =
         hugr.single_linked_output(output_node, 0).unwrap();
-    debug_assert_eq!(hugr.get_parent(old_output_source_node).unwrap(), parent);
+    // (The old source need not be in this region: it may be outside the entrypoint.)
     hugr.connect(old_output_source_node, old_output_source_port, cond_node, 0);
     for (i, &(w, _)) in needed_sources.values().enumerate() {
         hugr.connect(w.node(), w.source(), cond_node, i + 1);
-- 
2.43.0


From 0ab01c8a62a2d655fbe3ad3bf4589336bb1cabfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:15 +0000
Subject: [PATCH 22/93] fix: values provided for a function's inputs are values
 of the wires

---
 hugr-passes/src/const_fold.rs       | 14 ++++++++++----
 hugr-passes/src/dataflow/datalog.rs | 18 +++++++++++++-----
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/hugr-passes/src/const_fold.rs b/hugr-passes/src/const_fold.rs
index 82caf3d..54dcd41 100644
--- a/hugr-passes/src/const_fold.rs
+++ b/hugr-passes/src/const_fold.rs
@@ -2,7 +2,10 @@
 //! An (example) use of the [dataflow analysis framework](super::dataflow).
 
 pub mod value_handle;
-use std::{collections::HashMap, sync::Arc};
+use std::{
+    collections::{HashMap, HashSet},
+    sync::Arc,
+};
 use thiserror::Error;
 
 use hugr_core::{
@@ -123,7 +126,10 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for ConstantFoldPass {
         }
 
         let results = m.run(ConstFoldContext, []);
-        let mb_root_inp = hugr.get_io(hugr.entrypoint()).map(|[i, _]| i);
+        let ext_inps = std::iter::once(hugr.entrypoint())
+            .chain(self.inputs.keys().copied())
+            .filter_map(|n| hugr.get_io(n).map(|[i, _]| i))
+            .collect::<HashSet<_>>();
 
         let wires_to_break = hugr
             .entry_descendants()
@@ -135,9 +141,9 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for ConstantFoldPass {
             .filter_map(|(n, ip)| {
                 let (src, outp) = hugr.single_linked_output(n, ip).unwrap();
                 // Avoid breaking edges from existing LoadConstant (we'd only add another)
-                // or from root input node (any "external inputs" provided will show up here
+                // or from root (or other entry-point's) input node (any "external inputs" provided will show up here
                 //   - potentially also in other places which this won't catch)
-                (!hugr.get_optype(src).is_load_constant() && Some(src) != mb_root_inp).then_some((
+                (!hugr.get_optype(src).is_load_constant() && !ext_inps.contains(&src)).then_some((
                     n,
                     ip,
                     results
diff --git a/hugr-passes/src/dataflow/datalog.rs b/hugr-passes/src/dataflow/datalog.rs
index f707829..b29f434 100644
--- a/hugr-passes/src/dataflow/datalog.rs
+++ b/hugr-passes/src/dataflow/datalog.rs
@@ -28,12 +28,16 @@ type NodeInputs<V, N> = Vec<(IncomingPort, PV<V, N>)>;
 ///    [`Self::prepopulate_inputs`] can be used on each externally-callable
 ///    [`FuncDefn`](OpType::FuncDefn) to set all inputs to [`PartialValue::Top`].
 /// 3. Call [`Self::run`] to produce [`AnalysisResults`]
-pub struct Machine<H: HugrView, V: AbstractValue>(H, HashMap<H::Node, NodeInputs<V, H::Node>>);
+pub struct Machine<H: HugrView, V: AbstractValue>(
+    H,
+    HashMap<H::Node, NodeInputs<V, H::Node>>,
+    Vec<OutWire<V, H::Node>>,
+);
 
 impl<H: HugrView, V: AbstractValue> Machine<H, V> {
     /// Create a new Machine to analyse the given Hugr(View)
     pub fn new(hugr: H) -> Self {
-        Self(hugr, Default::default())
+        Self(hugr, Default::default(), Default::default())
     }
 }
 
@@ -41,9 +45,7 @@ impl<H: HugrView, V: AbstractValue> Machine<H, V> {
     /// Provide initial values for a wire - these will be `join`d with any computed
     /// or any value previously prepopulated for the same Wire.
     pub fn prepopulate_wire(&mut self, w: Wire<H::Node>, v: PartialValue<V, H::Node>) {
-        for (n, inp) in self.0.linked_inputs(w.node(), w.source()) {
-            self.1.entry(n).or_default().push((inp, v.clone()));
-        }
+        self.2.push((w.node(), w.source(), v));
     }
 
     /// Provide initial values for the inputs to a container node
@@ -138,16 +140,19 @@ impl<H: HugrView, V: AbstractValue> Machine<H, V> {
                 .into_iter()
                 .flat_map(|(n, vals)| vals.into_iter().map(move |(ip, v)| (n, ip, v)))
                 .collect(),
+            self.2,
         )
     }
 }
 
 pub(super) type InWire<V, N> = (N, IncomingPort, PartialValue<V, N>);
+type OutWire<V, N> = (N, OutgoingPort, PartialValue<V, N>);
 
 pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
     mut ctx: impl DFContext<V, Node = H::Node>,
     hugr: H,
     in_wire_value_proto: Vec<InWire<V, H::Node>>,
+    out_wire_value_proto: Vec<OutWire<V, H::Node>>,
 ) -> AnalysisResults<V, H> {
     // ascent-(macro-)generated code generates a bunch of warnings,
     // keep code in here to a minimum.
@@ -188,6 +193,9 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
         // Initialize all wires to bottom
         out_wire_value(n, p, PV::bottom()) <-- out_wire(n, p);
 
+        // Prepopulate out_wire_value from out_wire_value_proto.
+        out_wire_value(n, p, v) <-- for (n, p, v) in &out_wire_value_proto, out_wire(n, p);
+
         // Outputs to inputs
         in_wire_value(n, ip, v) <-- in_wire(n, ip),
             if let Some((m, op)) = hugr.single_linked_output(*n, *ip),
-- 
2.43.0


From 36dfa7c8dd38ec46d0465a04551e23985dc9203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 23/93] fix: order partial sums of dataflow values by their
 components

---
 hugr-passes/src/dataflow/partial_value.rs | 51 ++++++++++++-----------
 hugr-passes/src/dataflow/value_row.rs     |  6 ++-
 2 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/hugr-passes/src/dataflow/partial_value.rs b/hugr-passes/src/dataflow/partial_value.rs
index 3ca23fb..def31ea 100644
--- a/hugr-passes/src/dataflow/partial_value.rs
+++ b/hugr-passes/src/dataflow/partial_value.rs
@@ -267,33 +267,34 @@ impl<V: Clone, N: Clone> PartialSum<V, N> {
     }
 }
 
+/// Combines the orderings of the components of two values into their ordering as a product:
+/// `None` (incomparable) unless no two components are ordered differently.
+pub(super) fn pointwise_cmp(
+    components: impl IntoIterator<Item = Option<Ordering>>,
+) -> Option<Ordering> {
+    components
+        .into_iter()
+        .try_fold(Ordering::Equal, |acc, cmp| match (acc, cmp?) {
+            (acc, Ordering::Equal) => Some(acc),
+            (Ordering::Equal, cmp) => Some(cmp),
+            (acc, cmp) => (acc == cmp).then_some(acc),
+        })
+}
+
 impl<V: PartialEq, N: PartialEq + PartialOrd> PartialOrd for PartialSum<V, N> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let max_key = self.0.keys().chain(other.0.keys()).copied().max().unwrap();
-        let (mut keys1, mut keys2) = (vec![0; max_key + 1], vec![0; max_key + 1]);
-        for k in self.0.keys() {
-            keys1[*k] = 1;
-        }
-
-        for k in other.0.keys() {
-            keys2[*k] = 1;
-        }
-
-        Some(match keys1.cmp(&keys2) {
-            ord @ (Ordering::Greater | Ordering::Less) => ord,
-            Ordering::Equal => {
-                for (k, lhs) in &self.0 {
-                    let Some(rhs) = other.0.get(k) else {
-                        unreachable!()
-                    };
-                    let key_cmp = lhs.partial_cmp(rhs);
-                    if key_cmp != Some(Ordering::Equal) {
-                        return key_cmp;
-                    }
-                }
-                Ordering::Equal
-            }
-        })
+        // A tag possible on one side only makes that side the greater.
+        let common_or_greater = self.0.iter().map(|(k, lhs)| match other.0.get(k) {
+            None => Some(Ordering::Greater),
+            Some(rhs) if lhs.len() != rhs.len() => None,
+            Some(rhs) => pointwise_cmp(lhs.iter().zip(rhs).map(|(l, r)| l.partial_cmp(r))),
+        });
+        let less = other
+            .0
+            .keys()
+            .filter(|k| !self.0.contains_key(k))
+            .map(|_| Some(Ordering::Less));
+        pointwise_cmp(common_or_greater.chain(less))
     }
 }
 
diff --git a/hugr-passes/src/dataflow/value_row.rs b/hugr-passes/src/dataflow/value_row.rs
index 0438e87..8365fb5 100644
--- a/hugr-passes/src/dataflow/value_row.rs
+++ b/hugr-passes/src/dataflow/value_row.rs
@@ -8,6 +8,7 @@ use std::{
 use ascent::Lattice;
 use itertools::zip_eq;
 
+use super::partial_value::pointwise_cmp;
 use super::{AbstractValue, PartialValue};
 
 #[derive(PartialEq, Clone, Debug, Eq, Hash)]
@@ -48,7 +49,10 @@ impl<V, N> FromIterator<PartialValue<V, N>> for ValueRow<V, N> {
 
 impl<V: PartialEq, N: PartialEq + PartialOrd> PartialOrd for ValueRow<V, N> {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        self.0.partial_cmp(&other.0)
+        if self.0.len() != other.0.len() {
+            return None;
+        }
+        pointwise_cmp(self.0.iter().zip(&other.0).map(|(l, r)| l.partial_cmp(r)))
     }
 }
 
-- 
2.43.0


From 04a2bcb93e416f01d494c4e150c5a0df53825831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 24/93] fix: meet of partial sums reports a change only when
 there is one

---
 hugr-passes/src/dataflow/partial_value.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/hugr-passes/src/dataflow/partial_value.rs b/hugr-passes/src/dataflow/partial_value.rs
index def31ea..48d50b8 100644
--- a/hugr-passes/src/dataflow/partial_value.rs
+++ b/hugr-passes/src/dataflow/partial_value.rs
@@ -156,8 +156,6 @@ impl<V: AbstractValue, N: PartialEq + PartialOrd> PartialSum<V, N> {
                 for (lhs, rhs) in zip_eq(row.iter_mut(), v.into_iter()) {
                     changed |= lhs.meet_mut(rhs);
                 }
-            } else {
-                keys_to_remove.push(k);
             }
         }
         for k in keys_to_remove {
-- 
2.43.0


From b4997d888cdc7ca1dda1bbb20217d60baafce8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 25/93] fix: dataflow values of a function loaded at different
 type arguments differ

---
 hugr-passes/src/dataflow/partial_value.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/hugr-passes/src/dataflow/partial_value.rs b/hugr-passes/src/dataflow/partial_value.rs
index 48d50b8..ff3e0e4 100644
--- a/hugr-passes/src/dataflow/partial_value.rs
+++ b/hugr-passes/src/dataflow/partial_value.rs
@@ -451,10 +451,8 @@ impl<V: AbstractValue, N: PartialEq + PartialOrd> Lattice for PartialValue<V, N>
                 Some((h3, b)) => (Self::Value(h3), b),
                 None => (Self::Top, true),
             },
-            (Self::LoadedFunction(lf1), Self::LoadedFunction(lf2))
-                if lf1.func_node == lf2.func_node =>
-            {
-                // TODO we should also join the TypeArgs but at the moment these are ignored
+            // Instances of the same function at different type arguments are different values
+            (Self::LoadedFunction(lf1), Self::LoadedFunction(lf2)) if lf1 == lf2 => {
                 (Self::LoadedFunction(lf1), false)
             }
             (Self::PartialSum(mut ps1), Self::PartialSum(ps2)) => match ps1.try_join_mut(ps2) {
@@ -478,10 +476,8 @@ impl<V: AbstractValue, N: PartialEq + PartialOrd> Lattice for PartialValue<V, N>
                 Some((h3, ch)) => (Self::Value(h3), ch),
                 None => (Self::Bottom, true),
             },
-            (Self::LoadedFunction(lf1), Self::LoadedFunction(lf2))
-                if lf1.func_node == lf2.func_node =>
-            {
-                // TODO we should also meet the TypeArgs but at the moment these are ignored
+            // Instances of the same function at different type arguments are different values
+            (Self::LoadedFunction(lf1), Self::LoadedFunction(lf2)) if lf1 == lf2 => {
                 (Self::LoadedFunction(lf1), false)
             }
             (Self::PartialSum(mut ps1), Self::PartialSum(ps2)) => match ps1.try_meet_mut(ps2) {
-- 
2.43.0


From b0e5bb7a5c8f69866d8901f3df5203f035ea5171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 26/93] fix: equal partial sums hash alike

---
 hugr-passes/src/dataflow/partial_value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/dataflow/partial_value.rs b/hugr-passes/src/dataflow/partial_value.rs
index ff3e0e4..9b8f394 100644
--- a/hugr-passes/src/dataflow/partial_value.rs
+++ b/hugr-passes/src/dataflow/partial_value.rs
@@ -304,7 +304,8 @@ impl<V: std::fmt::Debug, N: std::fmt::Debug> std::fmt::Debug for PartialSum<V, N
 
 impl<V: Hash, N: Hash> Hash for PartialSum<V, N> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for (k, v) in &self.0 {
+        // In order of tags: equal sums must hash alike, however the map orders them.
+        for (k, v) in self.0.iter().sorted_by_key(|(k, _)| **k) {
             k.hash(state);
             v.hash(state);
         }
-- 
2.43.0


From 5cc911a31c7d57bef8c6aa67a810671ec597bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:37 +0000
Subject: [PATCH 27/93] fix: reachability queries answer only for analysed
 nodes

---
 hugr-passes/src/dataflow/results.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/hugr-passes/src/dataflow/results.rs b/hugr-passes/src/dataflow/results.rs
index 9f2c7cd..d6ef06e 100644
--- a/hugr-passes/src/dataflow/results.rs
+++ b/hugr-passes/src/dataflow/results.rs
@@ -29,7 +29,8 @@ impl<V: AbstractValue, H: HugrView> AnalysisResults<V, H> {
 
     /// Tells whether a [`TailLoop`] node can terminate, i.e. whether
     /// `Break` and/or `Continue` tags may be returned by the nested DFG.
-    /// Returns `None` if the specified `node` is not a [`TailLoop`].
+    /// Returns `None` if the specified `node` is not a [`TailLoop`], or is not within the
+    /// entrypoint (so there are no results for it).
     ///
     /// [`TailLoop`]: hugr_core::ops::TailLoop
     pub fn tail_loop_terminates(&self, node: H::Node) -> Option<TailLoopTermination> {
@@ -38,15 +39,15 @@ impl<V: AbstractValue, H: HugrView> AnalysisResults<V, H> {
         Some(TailLoopTermination::from_control_value(
             self.in_wire_value
                 .iter()
-                .find_map(|(n, p, v)| (*n == out && p.index() == 0).then_some(v))
-                .unwrap(),
+                .find_map(|(n, p, v)| (*n == out && p.index() == 0).then_some(v))?,
         ))
     }
 
     /// Tells whether a [`Case`] node is reachable, i.e. whether the predicate
     /// to its parent [`Conditional`] may possibly have the tag corresponding to the [`Case`].
     /// Returns `None` if the specified `case` is not a [`Case`], or is not within a [`Conditional`]
-    /// (e.g. a [`Case`]-rooted Hugr).
+    /// (e.g. a [`Case`]-rooted Hugr), or is not within the entrypoint (so there are no results
+    /// for it).
     ///
     /// [`Case`]: hugr_core::ops::Case
     /// [`Conditional`]: hugr_core::ops::Conditional
@@ -54,6 +55,7 @@ impl<V: AbstractValue, H: HugrView> AnalysisResults<V, H> {
         self.hugr.get_optype(case).as_case()?;
         let cond = self.hugr.get_parent(case)?;
         self.hugr.get_optype(cond).as_conditional()?;
+        self.in_entrypoint(case).then_some(())?;
         Some(
             self.case_reachable
                 .iter()
@@ -62,7 +64,8 @@ impl<V: AbstractValue, H: HugrView> AnalysisResults<V, H> {
     }
 
     /// Tells us if a block ([`DataflowBlock`] or [`ExitBlock`]) in a [`CFG`] is known
-    /// to be reachable. (Returns `None` if argument is not a child of a CFG.)
+    /// to be reachable. (Returns `None` if argument is not a child of a CFG, or is not within
+    /// the entrypoint so there are no results for it.)
     ///
     /// [`CFG`]: hugr_core::ops::CFG
     /// [`DataflowBlock`]: hugr_core::ops::DataflowBlock
@@ -71,13 +74,21 @@ impl<V: AbstractValue, H: HugrView> AnalysisResults<V, H> {
         let cfg = self.hugr.get_parent(bb)?; // Not really required...??
         self.hugr.get_optype(cfg).as_cfg()?;
         let t = self.hugr.get_optype(bb);
-        (t.is_dataflow_block() || t.is_exit_block()).then(|| {
+        let is_block = t.is_dataflow_block() || t.is_exit_block();
+        (is_block && self.in_entrypoint(bb)).then(|| {
             self.bb_reachable
                 .iter()
                 .any(|(cfg2, bb2)| *cfg2 == cfg && *bb2 == bb)
         })
     }
 
+    /// Whether a node is a descendant of the entrypoint, or the entrypoint itself,
+    /// i.e. there are results for it.
+    fn in_entrypoint(&self, node: H::Node) -> bool {
+        std::iter::successors(Some(node), |n| self.hugr.get_parent(*n))
+            .any(|n| n == self.hugr.entrypoint())
+    }
+
     /// Reads a concrete representation of the value on an output wire, if the lattice value
     /// computed for the wire can be turned into such. (The lattice value must be either a
     /// [`PartialValue::Value`] or a [`PartialValue::PartialSum`] with a single possible tag.)
-- 
2.43.0


From 6fd4c27f6caa484b1acfd35c2a2ca0777ff00108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 28/93] fix: the subgraph within a boundary follows every link
 of a port

---
 hugr-core/src/hugr/views/sibling_subgraph.rs | 124 ++++++++++---------
 1 file changed, 67 insertions(+), 57 deletions(-)

diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index f5342ab..a60fdcb 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -9,11 +9,9 @@ use std::collections::HashSet;
 use std::mem;
 
 use itertools::Itertools;
-use portgraph::LinkView;
 use portgraph::PortView;
 use portgraph::algorithms::CreateConvexChecker;
 use portgraph::algorithms::convex::{LineIndex, LineIntervals, Position};
-use portgraph::boundary::Boundary;
 use rustc_hash::FxHashSet;
 use thiserror::Error;
 
@@ -241,17 +239,14 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         hugr: &H,
         checker: &TopoConvexChecker<H>,
     ) -> Result<Self, InvalidSubgraph<N>> {
-        let (subpg, node_map) = make_pg_subgraph(hugr, &inputs, &outputs);
-        let nodes = subpg
-            .nodes_iter()
-            .map(|index| node_map.from_portgraph(index))
-            .collect_vec();
+        let nodes = nodes_within_boundary(hugr, &inputs, &outputs);
+        let boundary_inputs = iter_incoming(&inputs).collect_vec();
 
         let function_calls = drain_function_calls(&mut inputs, hugr);
 
         validate_subgraph(hugr, &nodes, &inputs, &outputs, &function_calls)?;
 
-        if nodes.len() > 1 && !subpg.is_convex_with_checker(checker) {
+        if !is_convex_with_checker(hugr, &nodes, boundary_inputs, &outputs, checker) {
             return Err(InvalidSubgraph::NotConvex);
         }
 
@@ -466,13 +461,9 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         hugr: &'h H,
         mode: ValidationMode<'_, 'h, H>,
     ) -> Result<(), InvalidSubgraph<N>> {
-        let mut exp_nodes = {
-            let (subpg, node_map) = make_pg_subgraph(hugr, &self.inputs, &self.outputs);
-            subpg
-                .nodes_iter()
-                .map(|n| node_map.from_portgraph(n))
-                .collect_vec()
-        };
+        // The calls of functions defined outside are part of the boundary
+        let inputs = self.inputs.iter().chain(&self.function_calls).cloned();
+        let mut exp_nodes = nodes_within_boundary(hugr, &inputs.collect(), &self.outputs);
         let mut nodes = self.nodes.clone();
 
         exp_nodes.sort_unstable();
@@ -500,8 +491,8 @@ impl<N: HugrNode> SiblingSubgraph<N> {
             ValidationMode::SkipConvexity => None,
         };
         if let Some(checker) = checker_ref {
-            let (subpg, _) = make_pg_subgraph(hugr, &self.inputs, &self.outputs);
-            if !subpg.is_convex_with_checker(&checker.init_checker().0) {
+            let inputs = iter_incoming(&self.inputs);
+            if !is_convex_with_checker(hugr, &self.nodes, inputs, &self.outputs, checker) {
                 return Err(InvalidSubgraph::NotConvex);
             }
         }
@@ -729,33 +720,69 @@ pub enum ValidationMode<'t, 'h, H: HugrView> {
     SkipConvexity,
 }
 
-fn make_pg_subgraph<'h, H: HugrView>(
-    hugr: &'h H,
+/// The nodes of the subgraph delimited by a boundary, in order.
+///
+/// These are the nodes of the boundary ports, and all nodes in the same region
+/// that are connected to them by edges that are not in the boundary.
+/// If the boundary is empty, these are all nodes of the entrypoint region.
+fn nodes_within_boundary<H: HugrView>(
+    hugr: &H,
     inputs: &IncomingPorts<H::Node>,
     outputs: &OutgoingPorts<H::Node>,
-) -> (
-    portgraph::view::Subgraph<CheckerRegion<'h, H>>,
-    H::RegionPortgraphNodes,
-) {
+) -> Vec<H::Node> {
     // Pick the hugr region that contains the boundary nodes.
-    // If the nodes are not in the same region, we'll fail the convexity check later on.
-    let mut io_nodes = inputs
-        .iter()
-        .flat_map(|inps| inps.iter().map(|(n, _)| *n))
-        .chain(outputs.iter().map(|(n, _)| *n));
-    let hugr_region = io_nodes
-        .next()
-        .and_then(|n| hugr.get_parent(n))
-        .unwrap_or(hugr.entrypoint());
-
-    let (region, node_map) = hugr.region_portgraph(hugr_region);
+    // If the nodes are not in the same region, we'll fail the validity checks later on.
+    let boundary: HashSet<(H::Node, Port)> = iter_io(inputs, outputs).collect();
+    let Some((first, _)) = iter_io(inputs, outputs).next() else {
+        return hugr.children(hugr.entrypoint()).sorted().collect();
+    };
+    let region = hugr.get_parent(first);
+
+    let mut to_visit = boundary.iter().map(|&(n, _)| n).collect_vec();
+    let mut nodes: HashSet<H::Node> = to_visit.iter().copied().collect();
+    while let Some(node) = to_visit.pop() {
+        let links = hugr
+            .all_node_ports(node)
+            .filter(|&p| !boundary.contains(&(node, p)))
+            .flat_map(|p| hugr.linked_ports(node, p))
+            .filter(|link| !boundary.contains(link));
+        for (neighbour, _) in links {
+            if hugr.get_parent(neighbour) == region && nodes.insert(neighbour) {
+                to_visit.push(neighbour);
+            }
+        }
+    }
+    nodes.into_iter().sorted().collect()
+}
 
-    // Ordering of the edges here is preserved and becomes ordering of the
-    // signature.
-    let boundary = make_boundary::<H>(&region, &node_map, inputs, outputs);
-    (
-        portgraph::view::Subgraph::new_subgraph(region, boundary),
-        node_map,
+/// Whether the subgraph with the given nodes and boundary is convex.
+///
+/// All nodes must be in the region of the checker.
+fn is_convex_with_checker<'g, H, Checker>(
+    hugr: &H,
+    nodes: &[H::Node],
+    inputs: impl IntoIterator<Item = (H::Node, IncomingPort)>,
+    outputs: &OutgoingPorts<H::Node>,
+    checker: &ConvexChecker<'g, H, Checker>,
+) -> bool
+where
+    H: HugrView,
+    Checker: CreateConvexChecker<CheckerRegion<'g, H>>,
+{
+    let Some(parent) = nodes.first().and_then(|&n| hugr.get_parent(n)) else {
+        return true;
+    };
+    let (region, node_map) = hugr.region_portgraph(parent);
+    let to_pg_index = |n: H::Node, p: Port| {
+        region
+            .port_index(node_map.to_portgraph(n), p.pg_offset())
+            .unwrap()
+    };
+    portgraph::algorithms::ConvexChecker::is_convex(
+        checker,
+        nodes.iter().map(|&n| node_map.to_portgraph(n)),
+        inputs.into_iter().map(|(n, p)| to_pg_index(n, p.into())),
+        outputs.iter().map(|&(n, p)| to_pg_index(n, p.into())),
     )
 }
 
@@ -936,23 +963,6 @@ fn pick_parent<'a, N: HugrNode>(
     Ok(parent)
 }
 
-fn make_boundary<'a, H: HugrView>(
-    region: &impl LinkView<PortOffsetBase = u32>,
-    node_map: &H::RegionPortgraphNodes,
-    inputs: &'a IncomingPorts<H::Node>,
-    outputs: &'a OutgoingPorts<H::Node>,
-) -> Boundary {
-    let to_pg_index = |n: H::Node, p: Port| {
-        region
-            .port_index(node_map.to_portgraph(n), p.pg_offset())
-            .unwrap()
-    };
-    Boundary::new(
-        iter_incoming(inputs).map(|(n, p)| to_pg_index(n, p.into())),
-        iter_outgoing(outputs).map(|(n, p)| to_pg_index(n, p.into())),
-    )
-}
-
 type CheckerRegion<'g, Base> =
     portgraph::view::FlatRegion<'g, <Base as HugrInternals>::RegionPortgraph<'g>>;
 
-- 
2.43.0


From aede207ddb9170d0dc944b3266ce900bbfa89799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 29/93] fix: sibling subgraphs without boundary edges, or
 outside dataflow regions, are checked

---
 hugr-core/src/hugr/views/sibling_subgraph.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index a60fdcb..5459450 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -315,6 +315,7 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         // If there are no input/output edges, the set is always convex so we can initialize the subgraph directly.
         // If we called `try_new_with_checker` with no boundaries, we'd select every node in the region instead of the expected subset.
         if inputs.is_empty() && outputs.is_empty() {
+            validate_subgraph(hugr, &nodes, &inputs, &outputs, &vec![])?;
             return Ok(Self {
                 nodes,
                 inputs,
@@ -1222,6 +1223,14 @@ fn validate_subgraph<H: HugrView>(
         });
     }
 
+    // Check the region is a dataflow graph
+    let parent = hugr
+        .get_parent(nodes[0])
+        .ok_or(InvalidSubgraph::OrphanNode { orphan: nodes[0] })?;
+    if !OpTag::DataflowParent.is_superset(hugr.get_optype(parent).tag()) {
+        return Err(InvalidSubgraph::NonDataflowRegion);
+    }
+
     // Check there are no linked "other" ports
     if let Some((n, p)) = iter_io(inputs, outputs).find(|&(n, p)| is_non_value_edge(hugr, n, p)) {
         return Err(InvalidSubgraph::UnsupportedEdgeKind(n, p));
-- 
2.43.0


From 9a954a062533e4cd95fa9ae4c2cbd43d0bee29b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 30/93] fix: subgraphs from nodes with several order
 predecessors

---
 hugr-core/src/hugr/views/sibling_subgraph.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index 5459450..60ad1d8 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -808,11 +808,9 @@ fn get_boundary_from_nodes<N: HugrNode>(
 
     let inputs = incoming_edges
         .filter(|&(n, p)| {
-            if !hugr.is_linked(n, p) {
-                return false;
-            }
-            let (out_n, _) = hugr.single_linked_output(n, p).unwrap();
-            !nodes_set.contains(&out_n)
+            // Order ports may have several links
+            hugr.linked_outputs(n, p)
+                .any(|(out_n, _)| !nodes_set.contains(&out_n))
         })
         // Every incoming edge is its own input.
         .map(|p| vec![p])
-- 
2.43.0


From b9b8f8a494b1e1f440b290b557cd10ea77c50140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:47 +0000
Subject: [PATCH 31/93] fix: subgraphs from line intervals are checked like
 those from nodes

---
 hugr-core/src/hugr/views/sibling_subgraph.rs | 29 +++-----------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index 60ad1d8..108bf68 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -357,39 +357,18 @@ impl<N: HugrNode> SiblingSubgraph<N> {
             return Err(InvalidSubgraph::NotConvex);
         }
 
-        let nodes: Vec<N> = nodes.into();
+        let mut nodes: Vec<N> = nodes.into();
         let hugr = line_checker.hugr();
 
         if nodes.is_empty() {
             return Err(InvalidSubgraph::EmptySubgraph);
         }
 
-        let nodes_set = nodes.iter().copied().collect::<HashSet<_>>();
-        let incoming_edges = nodes
-            .iter()
-            .flat_map(|&n| hugr.node_inputs(n).map(move |p| (n, p)));
-        let outgoing_edges = nodes
-            .iter()
-            .flat_map(|&n| hugr.node_outputs(n).map(move |p| (n, p)));
-        let mut inputs = incoming_edges
-            .filter(|&(n, p)| {
-                if !hugr.is_linked(n, p) {
-                    return false;
-                }
-                let (out_n, _) = hugr.single_linked_output(n, p).unwrap();
-                !nodes_set.contains(&out_n)
-            })
-            // Every incoming edge is its own input.
-            .map(|p| vec![p])
-            .collect_vec();
-        let outputs = outgoing_edges
-            .filter(|&(n, p)| {
-                hugr.linked_ports(n, p)
-                    .any(|(n1, _)| !nodes_set.contains(&n1))
-            })
-            .collect_vec();
+        let (mut inputs, outputs) = get_boundary_from_nodes(hugr, &mut nodes);
         let function_calls = drain_function_calls(&mut inputs, hugr);
 
+        validate_subgraph(hugr, &nodes, &inputs, &outputs, &function_calls)?;
+
         Ok(Self {
             nodes,
             inputs,
-- 
2.43.0


From e6268477b908b1e3366c513a769efab2a7a6f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 32/93] fix: subgraph outputs that copy a linear port are
 rejected

---
 hugr-core/src/hugr/views/sibling_subgraph.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index 108bf68..037efcd 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -1257,6 +1257,11 @@ fn validate_subgraph<H: HugrView>(
         return Err(InvalidSubgraphBoundary::NonUniqueInput.into());
     }
 
+    // Check linear outputs are unique
+    if !has_unique_linear_ports(hugr, outputs) {
+        return Err(InvalidSubgraphBoundary::NonUniqueLinearOutput.into());
+    }
+
     // Check
     //  - no incoming partition is empty
     //  - all inputs within a partition are linked to the same outgoing port
@@ -1470,6 +1475,9 @@ pub enum InvalidSubgraphBoundary<N: HugrNode = Node> {
     /// There's a non-unique input-boundary port.
     #[error("A port in the input boundary is used multiple times.")]
     NonUniqueInput,
+    /// There's a non-unique linear output-boundary port.
+    #[error("A linear port in the output boundary is used multiple times.")]
+    NonUniqueLinearOutput,
     /// There's an empty partition in the input boundary.
     #[error("A partition in the input boundary is empty.")]
     EmptyPartition,
-- 
2.43.0


From 0d58a02aacbbeb6e52d8d69e8ef667e1f228fc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:14 +0000
Subject: [PATCH 33/93] fix: subgraph inputs that mix calls with values, or
 repeat a call, are rejected

---
 hugr-core/src/hugr/views/sibling_subgraph.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index 037efcd..ef2442f 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -242,7 +242,7 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         let nodes = nodes_within_boundary(hugr, &inputs, &outputs);
         let boundary_inputs = iter_incoming(&inputs).collect_vec();
 
-        let function_calls = drain_function_calls(&mut inputs, hugr);
+        let function_calls = drain_function_calls(&mut inputs, hugr)?;
 
         validate_subgraph(hugr, &nodes, &inputs, &outputs, &function_calls)?;
 
@@ -365,7 +365,7 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         }
 
         let (mut inputs, outputs) = get_boundary_from_nodes(hugr, &mut nodes);
-        let function_calls = drain_function_calls(&mut inputs, hugr);
+        let function_calls = drain_function_calls(&mut inputs, hugr)?;
 
         validate_subgraph(hugr, &nodes, &inputs, &outputs, &function_calls)?;
 
@@ -404,7 +404,7 @@ impl<N: HugrNode> SiblingSubgraph<N> {
                 .then_some((node, p))
             })
             .collect_vec();
-        let function_calls = drain_function_calls(&mut inputs, hugr);
+        let function_calls = drain_function_calls(&mut inputs, hugr).expect("valid function calls");
 
         let state_order_at_input = hugr
             .get_optype(node)
@@ -805,10 +805,12 @@ fn get_boundary_from_nodes<N: HugrNode>(
 }
 
 /// Remove all function calls from `inputs` and return them in a new vector.
+///
+/// Fails if function calls and other ports are mixed in the same partition.
 fn drain_function_calls<N: HugrNode, H: HugrView<Node = N>>(
     inputs: &mut IncomingPorts<N>,
     hugr: &H,
-) -> IncomingPorts<N> {
+) -> Result<IncomingPorts<N>, InvalidSubgraph<N>> {
     let mut function_calls = Vec::new();
     inputs.retain_mut(|calls| {
         let Some(&(n, p)) = calls.first() else {
@@ -829,7 +831,6 @@ fn drain_function_calls<N: HugrNode, H: HugrView<Node = N>>(
     });
 
     group_into_function_calls(function_calls.into_iter().map(|(n, p)| (n, p.into())), hugr)
-        .expect("valid function calls")
 }
 
 /// Group incoming ports by the function definition/declaration that they are
@@ -1253,7 +1254,7 @@ fn validate_subgraph<H: HugrView>(
     }
 
     // Check inputs are unique
-    if !inputs.iter().flatten().all_unique() {
+    if !inputs.iter().chain(function_calls).flatten().all_unique() {
         return Err(InvalidSubgraphBoundary::NonUniqueInput.into());
     }
 
-- 
2.43.0


From 6ba105ee6f597fd6749ca89a5268915ee62abd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:54 +0000
Subject: [PATCH 34/93] fix: all nodes given for a subgraph must be siblings

---
 hugr-core/src/hugr/views/sibling_subgraph.rs | 40 +++++++++-----------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index ef2442f..9d14d81 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -234,12 +234,24 @@ impl<N: HugrNode> SiblingSubgraph<N> {
     /// documentation.
     // TODO(breaking): generalize to any convex checker
     pub fn try_new_with_checker<H: HugrView<Node = N>>(
-        mut inputs: IncomingPorts<N>,
+        inputs: IncomingPorts<N>,
         outputs: OutgoingPorts<N>,
         hugr: &H,
         checker: &TopoConvexChecker<H>,
     ) -> Result<Self, InvalidSubgraph<N>> {
         let nodes = nodes_within_boundary(hugr, &inputs, &outputs);
+        Self::try_new_checked(nodes, inputs, outputs, hugr, checker)
+    }
+
+    /// Create a new convex sibling subgraph from its nodes and its whole boundary
+    /// (function calls are inputs), if it is valid.
+    fn try_new_checked<H: HugrView<Node = N>>(
+        nodes: Vec<N>,
+        mut inputs: IncomingPorts<N>,
+        outputs: OutgoingPorts<N>,
+        hugr: &H,
+        checker: &TopoConvexChecker<H>,
+    ) -> Result<Self, InvalidSubgraph<N>> {
         let boundary_inputs = iter_incoming(&inputs).collect_vec();
 
         let function_calls = drain_function_calls(&mut inputs, hugr)?;
@@ -304,35 +316,17 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         checker: &TopoConvexChecker<H>,
     ) -> Result<Self, InvalidSubgraph<N>> {
         let mut nodes: Vec<N> = nodes.into();
-        let num_nodes = nodes.len();
 
         if nodes.is_empty() {
             return Err(InvalidSubgraph::EmptySubgraph);
         }
 
         let (inputs, outputs) = get_boundary_from_nodes(hugr, &mut nodes);
+        nodes.sort_unstable();
 
-        // If there are no input/output edges, the set is always convex so we can initialize the subgraph directly.
-        // If we called `try_new_with_checker` with no boundaries, we'd select every node in the region instead of the expected subset.
-        if inputs.is_empty() && outputs.is_empty() {
-            validate_subgraph(hugr, &nodes, &inputs, &outputs, &vec![])?;
-            return Ok(Self {
-                nodes,
-                inputs,
-                outputs,
-                function_calls: vec![],
-            });
-        }
-
-        let mut subgraph = Self::try_new_with_checker(inputs, outputs, hugr, checker)?;
-
-        // If some nodes formed a fully connected component, they won't be included in the subgraph generated from the boundaries.
-        // We re-add them here.
-        if subgraph.node_count() < num_nodes {
-            subgraph.nodes = nodes;
-        }
-
-        Ok(subgraph)
+        // Some nodes may form a fully connected component, and would not be found by
+        // following the edges from the boundary.
+        Self::try_new_checked(nodes, inputs, outputs, hugr, checker)
     }
 
     /// Create a subgraph from a set of nodes, using a line convexity checker
-- 
2.43.0


From ddd43e66e16277e9628e9c7d217e3d87b73e2df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 35/93] fix: copying a subgraph includes the contents of its
 containers

---
 hugr-core/src/hugr/hugrmut.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 71bf6f7..1975330 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -248,6 +248,7 @@ pub trait HugrMut: HugrMutInternals {
 
     /// Copy a subgraph from another hugr into this one, under a given parent node.
     ///
+    /// The nodes of the subgraph are copied together with all their descendants.
     /// Sibling order is not preserved.
     ///
     /// The return value is a map from indices in `other` to the indices of the
@@ -268,7 +269,7 @@ pub trait HugrMut: HugrMutInternals {
     ) -> HashMap<H::Node, Self::Node> {
         self.insert_view_forest(
             other,
-            subgraph.nodes().iter().cloned(),
+            subgraph.nodes().iter().flat_map(|n| other.descendants(*n)),
             subgraph.nodes().iter().map(|n| (*n, root)),
         )
         .expect("SiblingSubgraph nodes are a set")
-- 
2.43.0


From 26810e7a83d200b7ecd3bd1a1618c46bf5ba02aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 36/93] fix: dataflow subgraph of a region whose output reads
 an outer value

---
 hugr-core/src/hugr/views/sibling_subgraph.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index 9d14d81..244cb16 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -1359,10 +1359,14 @@ fn get_input_output_ports<H: HugrView>(
         .filter(|v| !v.is_empty())
         .collect();
     // Collect for each port in the output the set of source ports, filtering
-    // direct wires to the input.
+    // direct wires to the input and to nodes outside of the region.
+    let region = hugr.get_parent(out);
     let outputs = dfg_outputs
         .into_iter()
-        .filter_map(|p| hugr.linked_outputs(out, p).find(|&(n, _)| n != inp))
+        .filter_map(|p| {
+            hugr.linked_outputs(out, p)
+                .find(|&(n, _)| n != inp && hugr.get_parent(n) == region)
+        })
         .collect();
     Ok((inputs, outputs))
 }
-- 
2.43.0


From 9d09228911b6c5fcc1cab4176d9bda4db7bcc2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 37/93] fix: inlining a recursive call within its own function

---
 hugr-core/src/hugr/hugrmut.rs           | 15 ++++++++------
 hugr-core/src/hugr/patch/inline_call.rs | 27 +++++++++++++------------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 1975330..04a4b23 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -626,15 +626,18 @@ impl HugrMut for Hugr {
         let node_map =
             translate_indices(Into::into, Into::into, node_map).collect::<BTreeMap<_, _>>();
 
-        for node in self.children(root).collect::<Vec<_>>() {
-            self.set_parent(*node_map.get(&node).unwrap(), new_parent);
+        // Copy the hierarchy. `new_parent` may be a descendant of `root`, so find all
+        // children before adding any.
+        let children = std::iter::once((root, new_parent))
+            .chain(node_map.iter().map(|(&node, &new_node)| (node, new_node)))
+            .flat_map(|(node, new_node)| self.children(node).map(move |ch| (ch, new_node)))
+            .collect::<Vec<_>>();
+        for (ch, new_parent) in children {
+            self.set_parent(*node_map.get(&ch).unwrap(), new_parent);
         }
 
-        // Copy the optypes, metadata, and hierarchy
+        // Copy the optypes and metadata
         for (&node, &new_node) in &node_map {
-            for ch in self.children(node).collect::<Vec<_>>() {
-                self.set_parent(*node_map.get(&ch).unwrap(), new_node);
-            }
             let new_optype = match (&subst, self.get_optype(node)) {
                 (None, op) => op.clone(),
                 (Some(subst), op) => op.substitute(subst),
diff --git a/hugr-core/src/hugr/patch/inline_call.rs b/hugr-core/src/hugr/patch/inline_call.rs
index 5588c14..8cb6207 100644
--- a/hugr-core/src/hugr/patch/inline_call.rs
+++ b/hugr-core/src/hugr/patch/inline_call.rs
@@ -63,6 +63,19 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
         self.verify(h)?; // Now we know we have a Call to a FuncDefn.
         let orig_func = h.static_source(self.0).unwrap();
 
+        // Copy the body before changing the call, which may itself be part of the body.
+        let ty_args = h
+            .get_optype(self.0)
+            .as_call()
+            .unwrap()
+            .type_args
+            .clone();
+        h.copy_descendants(
+            orig_func,
+            self.0,
+            (!ty_args.is_empty()).then_some(Substitution::new(&ty_args)),
+        );
+
         h.disconnect(self.0, h.get_optype(self.0).static_input_port().unwrap());
 
         // The order input port gets renumbered because the static input
@@ -82,25 +95,13 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
         });
         let new_order_in = new_op.other_input_port().unwrap();
 
-        let ty_args = h
-            .replace_op(self.0, new_op)
-            .as_call()
-            .unwrap()
-            .type_args
-            .clone();
-
+        h.replace_op(self.0, new_op);
         h.add_ports(self.0, Direction::Incoming, -1);
 
         // Reconnect order predecessors
         for (src, srcp) in order_preds {
             h.connect(src, srcp, self.0, new_order_in);
         }
-
-        h.copy_descendants(
-            orig_func,
-            self.0,
-            (!ty_args.is_empty()).then_some(Substitution::new(&ty_args)),
-        );
         Ok(())
     }
 
-- 
2.43.0


From 3b7736b8d4f4694858c2d9326cc60254d2b35e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 38/93] fix: inlining a dataflow block also invalidates its
 Input and Output

---
 hugr-core/src/hugr/patch/inline_dfg.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_dfg.rs b/hugr-core/src/hugr/patch/inline_dfg.rs
index 58d79a5..c37e49a 100644
--- a/hugr-core/src/hugr/patch/inline_dfg.rs
+++ b/hugr-core/src/hugr/patch/inline_dfg.rs
@@ -47,9 +47,10 @@ impl<N: HugrNode> PatchVerification for InlineDFG<N> {
 
     fn invalidated_nodes(
         &self,
-        _: &impl HugrView<Node = Self::Node>,
+        h: &impl HugrView<Node = Self::Node>,
     ) -> impl Iterator<Item = Self::Node> {
-        [self.0.node()].into_iter()
+        let n = self.0.node();
+        std::iter::once(n).chain(h.get_io(n).into_iter().flatten())
     }
 }
 
-- 
2.43.0


From a1de622ea304f9f032fb82c2dd6e62c6bae80a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 39/93] fix: removing a LoadConstant with order edges

---
 hugr-core/src/hugr/patch/consts.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hugr-core/src/hugr/patch/consts.rs b/hugr-core/src/hugr/patch/consts.rs
index dcdeea5..c6880a8 100644
--- a/hugr-core/src/hugr/patch/consts.rs
+++ b/hugr-core/src/hugr/patch/consts.rs
@@ -34,12 +34,8 @@ impl<N: HugrNode> PatchVerification for RemoveLoadConstant<N> {
         if (!h.contains_node(node)) || (!h.get_optype(node).is_load_constant()) {
             return Err(RemoveError::InvalidNode(node));
         }
-        let (p, _) = h
-            .out_value_types(node)
-            .exactly_one()
-            .ok()
-            .expect("LoadConstant has only one output.");
-        if h.linked_inputs(node, p).next().is_some() {
+        // Other operations might also wait for this one
+        if h.output_neighbours(node).next().is_some() {
             return Err(RemoveError::ValueUsed(node));
         }
 
@@ -63,8 +59,10 @@ impl<N: HugrNode> PatchHugrMut for RemoveLoadConstant<N> {
     fn apply_hugr_mut(self, h: &mut impl HugrMut<Node = N>) -> Result<Self::Outcome, Self::Error> {
         self.verify(h)?;
         let node = self.0;
-        let source = h
-            .input_neighbours(node)
+        let static_port = (h.get_optype(node).static_input_port())
+            .expect("LoadConstant has a static input port.");
+        let (source, _) = h
+            .linked_outputs(node, static_port)
             .exactly_one()
             .ok()
             .expect("Validation should check a Const is connected to LoadConstant.");
-- 
2.43.0


From cd3d1b975f3a90c0c927b5899cecad9b6b432a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 40/93] fix: implement verification of identity insertion

---
 hugr-core/src/hugr/patch/insert_identity.rs | 35 ++++++++++-----------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/hugr-core/src/hugr/patch/insert_identity.rs b/hugr-core/src/hugr/patch/insert_identity.rs
index 725a0dd..c100b0c 100644
--- a/hugr-core/src/hugr/patch/insert_identity.rs
+++ b/hugr-core/src/hugr/patch/insert_identity.rs
@@ -52,18 +52,21 @@ impl<N: HugrNode> PatchVerification for IdentityInsertion<N> {
     type Error = IdentityInsertionError;
     type Node = N;
 
-    fn verify(&self, _h: &impl HugrView) -> Result<(), IdentityInsertionError> {
-        /*
-        Assumptions:
-        1. Value kind inputs can only have one connection.
-        2. Node exists.
-        Conditions:
-        1. post_port is Value kind.
-        2. post_port is connected to a sibling of post_node.
-        3. post_port is input.
-         */
-
-        unimplemented!()
+    fn verify(&self, h: &impl HugrView<Node = N>) -> Result<(), IdentityInsertionError> {
+        // Assumptions:
+        // 1. Value kind inputs can only have one connection.
+        // 2. Node exists.
+        let kind = h.get_optype(self.post_node).port_kind(self.post_port);
+        if !matches!(kind, Some(EdgeKind::Value(_))) {
+            return Err(IdentityInsertionError::InvalidPortKind(kind));
+        }
+        let parent = h
+            .get_parent(self.post_node)
+            .ok_or(IdentityInsertionError::InvalidParentNode)?;
+        if !OpTag::DataflowParent.is_superset(h.get_optype(parent).tag()) {
+            return Err(IdentityInsertionError::InvalidParentNode);
+        }
+        Ok(())
     }
 
     #[inline]
@@ -85,6 +88,7 @@ impl<N: HugrNode> PatchHugrMut for IdentityInsertion<N> {
         self,
         h: &mut impl HugrMut<Node = N>,
     ) -> Result<Self::Outcome, IdentityInsertionError> {
+        self.verify(h)?;
         let kind = h.get_optype(self.post_node).port_kind(self.post_port);
         let Some(EdgeKind::Value(ty)) = kind else {
             return Err(IdentityInsertionError::InvalidPortKind(kind));
@@ -95,12 +99,7 @@ impl<N: HugrNode> PatchHugrMut for IdentityInsertion<N> {
             .expect("Value kind input can only have one connection.");
 
         h.disconnect(self.post_node, self.post_port);
-        let parent = h
-            .get_parent(self.post_node)
-            .ok_or(IdentityInsertionError::InvalidParentNode)?;
-        if !OpTag::DataflowParent.is_superset(h.get_optype(parent).tag()) {
-            return Err(IdentityInsertionError::InvalidParentNode);
-        }
+        let parent = h.get_parent(self.post_node).expect("parent was verified");
         let new_node = h.add_node_with_parent(parent, Noop(ty));
         h.connect(pre_node, pre_port, new_node, 0);
 
-- 
2.43.0


From 910ab8fa75aaeed27f4a8b5213b8b21f49549d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 41/93] fix: cuts are verified before they are inserted

---
 hugr-core/src/hugr/patch/insert_cut.rs | 30 +++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/hugr/patch/insert_cut.rs b/hugr-core/src/hugr/patch/insert_cut.rs
index 518c75c..a8853ae 100644
--- a/hugr-core/src/hugr/patch/insert_cut.rs
+++ b/hugr-core/src/hugr/patch/insert_cut.rs
@@ -8,7 +8,8 @@ use crate::hugr::patch::inline_dfg::InlineDFG;
 use crate::hugr::{HugrMut, Node};
 use crate::ops::{DataflowOpTrait, OpTag, OpTrait, OpType};
 
-use crate::{Hugr, HugrView, IncomingPort};
+use crate::types::EdgeKind;
+use crate::{Hugr, HugrView, IncomingPort, PortIndex};
 
 use super::inline_dfg::InlineDFGError;
 use super::{Patch, PatchHugrMut, PatchVerification};
@@ -66,6 +67,11 @@ pub enum InsertCutError<N = Node> {
     #[error("Incoming port has {0} connections, expected exactly 1.")]
     InvalidIncomingPort(usize),
 
+    /// The target port cannot be cut: it is not a value port of the right type of a child
+    /// of the parent, or is repeated.
+    #[error("Cannot cut the edge to {1} of {0}.")]
+    InvalidTarget(N, IncomingPort),
+
     /// Target number mismatch.
     #[error("Target number mismatch, expected {0}, found {1}.")]
     TargetNumberMismatch(usize, usize),
@@ -104,15 +110,32 @@ impl<N: HugrNode> PatchVerification for InsertCut<N> {
         }
 
         // Verify that each target node exists and each target port is valid
-        for (node, port) in &self.targets {
+        for (i, (node, port)) in self.targets.iter().enumerate() {
             if !h.contains_node(*node) {
                 return Err(InsertCutError::InvalidNode(*node));
             }
 
-            let n_links = h.linked_outputs(*node, *port).count();
+            let n_links = if port.index() < h.num_inputs(*node) {
+                h.linked_outputs(*node, *port).count()
+            } else {
+                0
+            };
             if n_links != 1 {
                 return Err(InsertCutError::InvalidIncomingPort(n_links));
             }
+
+            // The inserted operations are siblings of the targets, on a wire of the same type
+            let ty = match h.get_optype(*node).port_kind(*port) {
+                Some(EdgeKind::Value(ty)) => Some(ty),
+                _ => None,
+            };
+            if h.get_parent(*node) != Some(self.parent)
+                || ty.as_ref() != sig.input().get(i)
+                || ty.as_ref() != sig.output().get(i)
+                || self.targets[..i].contains(&(*node, *port))
+            {
+                return Err(InsertCutError::InvalidTarget(*node, *port));
+            }
         }
         Ok(())
     }
@@ -135,6 +158,7 @@ impl PatchHugrMut for InsertCut<Node> {
         self,
         h: &mut impl HugrMut<Node = Node>,
     ) -> Result<Self::Outcome, InsertCutError> {
+        self.verify(h)?;
         let insert_res = h.insert_hugr(self.parent, self.insertion);
         let inserted_entrypoint = insert_res.inserted_entrypoint;
         for (i, (target, port)) in self.targets.into_iter().enumerate() {
-- 
2.43.0


From 8d922a06073dece79a20b560bddc0588f182c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 42/93] fix: outlining rejects exit blocks, and values used by
 other blocks

---
 hugr-core/src/hugr/patch/outline_cfg.rs | 31 +++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/hugr/patch/outline_cfg.rs b/hugr-core/src/hugr/patch/outline_cfg.rs
index 081ba24..0487bf1 100644
--- a/hugr-core/src/hugr/patch/outline_cfg.rs
+++ b/hugr-core/src/hugr/patch/outline_cfg.rs
@@ -50,6 +50,9 @@ impl OutlineCfg {
         let OpType::CFG(_) = o else {
             return Err(OutlineCfgError::ParentNotCfg(cfg_n, Box::new(o.clone())));
         };
+        if let Some(&exit) = (self.blocks.iter()).find(|n| !h.get_optype(**n).is_dataflow_block()) {
+            return Err(OutlineCfgError::NotABlock(exit));
+        }
         let cfg_entry = h.children(cfg_n).next().unwrap();
         let mut entry = None;
         let mut exit_succ = None;
@@ -81,11 +84,25 @@ impl OutlineCfg {
                 Err(ext) => return Err(OutlineCfgError::MultipleExitEdges(n, ext.collect())),
             }
         }
-        match (entry, exit_succ) {
-            (Some(e), Some((x, o))) => Ok((e, x, o)),
-            (None, _) => Err(OutlineCfgError::NoEntryNode),
-            (_, None) => Err(OutlineCfgError::NoExitNode),
+        let (entry, exit, outside) = match (entry, exit_succ) {
+            (Some(e), Some((x, o))) => (e, x, o),
+            (None, _) => return Err(OutlineCfgError::NoEntryNode),
+            (_, None) => return Err(OutlineCfgError::NoExitNode),
+        };
+        // Values of the blocks will not be available outside of them
+        for n in self.blocks.iter().flat_map(|&n| h.children(n)) {
+            let outside = h.output_neighbours(n).find(|&tgt| {
+                let mut block = tgt;
+                while let Some(parent) = h.get_parent(block).filter(|&p| p != cfg_n) {
+                    block = parent;
+                }
+                !self.blocks.contains(&block)
+            });
+            if let Some(tgt) = outside {
+                return Err(OutlineCfgError::ValueUsedOutside(n, tgt));
+            }
         }
+        Ok((entry, exit, outside))
     }
 }
 
@@ -216,6 +233,12 @@ pub enum OutlineCfgError {
     /// The parent node was not a CFG node
     #[error("The parent node {0} was not a CFG but a {1}")]
     ParentNotCfg(Node, Box<OpType>),
+    /// One of the nodes was not a basic block
+    #[error("The node {0} is not a basic block")]
+    NotABlock(Node),
+    /// A value computed in the blocks is used in another block
+    #[error("Value of node {0} in the set is used by {1} outside the set")]
+    ValueUsedOutside(Node, Node),
     /// Multiple blocks had incoming edges
     #[error("Multiple blocks had predecessors outside the set - at least {0} and {1}")]
     MultipleEntryNodes(Node, Node),
-- 
2.43.0


From 695358f09550b215cd64978449d9838407c1e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 43/93] fix: replacements are verified before they are applied,
 including repeated and unreachable nodes and edges

---
 hugr-core/src/hugr/patch/replace.rs | 50 ++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/hugr-core/src/hugr/patch/replace.rs b/hugr-core/src/hugr/patch/replace.rs
index ba4104a..024f5fa 100644
--- a/hugr-core/src/hugr/patch/replace.rs
+++ b/hugr-core/src/hugr/patch/replace.rs
@@ -199,13 +199,20 @@ impl<HostNode: HugrNode> Replacement<HostNode> {
         Ok(parent)
     }
 
+    /// Whether the node of [`Self::replacement`] will be inserted (and not just its contents).
+    fn is_inserted(&self, node: Node) -> bool {
+        let root = self.replacement.entrypoint();
+        check_valid_non_entrypoint(&self.replacement, node)
+            && std::iter::successors(Some(node), |&n| self.replacement.get_parent(n)).contains(&root)
+    }
+
     fn get_removed_nodes(
         &self,
         h: &impl HugrView<Node = HostNode>,
     ) -> Result<HashSet<HostNode>, ReplaceError<HostNode>> {
         // Check the keys of the transfer map too, the values we'll use imminently
         self.adoptions.keys().try_for_each(|&n| {
-            (self.replacement.contains_node(n)
+            (self.is_inserted(n)
                 && self.replacement.get_optype(n).is_container()
                 && self.replacement.children(n).next().is_none())
             .then_some(())
@@ -225,8 +232,9 @@ impl<HostNode: HugrNode> Replacement<HostNode> {
         let mut removed = HashSet::new();
         let mut queue = VecDeque::from_iter(self.removal.iter().copied());
         while let Some(n) = queue.pop_front() {
-            let new = removed.insert(n);
-            debug_assert!(new); // Fails only if h's hierarchy has merges (is not a tree)
+            if !removed.insert(n) {
+                continue; // Repeated in `self.removal`
+            }
             if !transferred.remove(&n) {
                 h.children(n).for_each(|ch| queue.push_back(ch));
             }
@@ -247,6 +255,9 @@ impl<HostNode: HugrNode> PatchVerification for Replacement<HostNode> {
     fn verify(&self, h: &impl HugrView<Node = HostNode>) -> Result<(), Self::Error> {
         self.check_parent(h)?;
         let removed = self.get_removed_nodes(h)?;
+        if removed.contains(&h.entrypoint()) {
+            return Err(ReplaceError::CantReplaceEntrypoint);
+        }
         // Edge sources...
         for e in &self.mu_inp {
             if !h.contains_node(e.src) || removed.contains(&e.src) {
@@ -267,7 +278,7 @@ impl<HostNode: HugrNode> PatchVerification for Replacement<HostNode> {
             e.check_src(h, WhichEdgeSpec::HostToHost)?;
         }
         self.mu_out.iter().try_for_each(|e| {
-            if check_valid_non_entrypoint(&self.replacement, e.src) {
+            if self.is_inserted(e.src) {
                 e.check_src(&self.replacement, WhichEdgeSpec::ReplToHost)
             } else {
                 Err(ReplaceError::BadEdgeSpec(
@@ -278,7 +289,7 @@ impl<HostNode: HugrNode> PatchVerification for Replacement<HostNode> {
         })?;
         // Edge targets...
         self.mu_inp.iter().try_for_each(|e| {
-            if check_valid_non_entrypoint(&self.replacement, e.tgt) {
+            if self.is_inserted(e.tgt) {
                 e.check_tgt(&self.replacement, WhichEdgeSpec::HostToRepl)
             } else {
                 Err(ReplaceError::BadEdgeSpec(
@@ -317,14 +328,34 @@ impl<HostNode: HugrNode> PatchVerification for Replacement<HostNode> {
             // fast-path.
             e.check_existing_edge(h, &removed, WhichEdgeSpec::HostToHost)?;
         }
+        // Each removed edge can be replaced only once
+        let mut targets = HashSet::new();
+        let mut is_new = |tgt: HostNode, kind| match kind {
+            NewEdgeKind::Value { tgt_pos, .. } | NewEdgeKind::Static { tgt_pos, .. } => {
+                targets.insert((tgt, tgt_pos))
+            }
+            _ => true,
+        };
+        if let Some(e) = self.mu_out.iter().find(|e| !is_new(e.tgt, e.kind)) {
+            return Err(ReplaceError::NoRemovedEdge(WhichEdgeSpec::ReplToHost(
+                e.clone(),
+            )));
+        }
+        if let Some(e) = self.mu_new.iter().find(|e| !is_new(e.tgt, e.kind)) {
+            return Err(ReplaceError::NoRemovedEdge(WhichEdgeSpec::HostToHost(
+                e.clone(),
+            )));
+        }
         Ok(())
     }
 
     fn invalidated_nodes(
         &self,
-        _: &impl HugrView<Node = Self::Node>,
+        h: &impl HugrView<Node = Self::Node>,
     ) -> impl Iterator<Item = Self::Node> {
-        self.removal.iter().copied()
+        // The contents of the removed nodes are removed too, unless adopted
+        let contents = self.get_removed_nodes(h).unwrap_or_default();
+        self.removal.iter().copied().chain(contents).unique()
     }
 }
 
@@ -338,6 +369,7 @@ impl<HostNode: HugrNode> PatchHugrMut for Replacement<HostNode> {
         self,
         h: &mut impl HugrMut<Node = HostNode>,
     ) -> Result<Self::Outcome, Self::Error> {
+        self.verify(h)?;
         let parent = self.check_parent(h)?;
         // Calculate removed nodes here. (Does not include transfers, so enumerates only
         // nodes we are going to remove, individually, anyway; so no *asymptotic* speed
@@ -402,7 +434,6 @@ impl<HostNode: HugrNode> PatchHugrMut for Replacement<HostNode> {
         // 6. Transfer to keys of `transfers` children of the corresponding values.
         for (new_parent, &old_parent) in &self.adoptions {
             let new_parent = node_map.get(new_parent).unwrap();
-            debug_assert!(h.children(old_parent).next().is_some());
             while let Some(ch) = h.first_child(old_parent) {
                 h.set_parent(ch, *new_parent);
             }
@@ -479,6 +510,9 @@ pub enum ReplaceError<HostNode = Node> {
     // (Perhaps if there is only one node to replace we should be able to?)
     #[error("Cannot replace the root node of the Hugr")]
     CantReplaceRoot,
+    /// The node(s) to replace included the entrypoint of the Hugr.
+    #[error("Cannot replace the entrypoint of the Hugr")]
+    CantReplaceEntrypoint,
     /// The nodes to replace did not have a unique common parent
     #[error("Removed nodes had different parents {0:?}")]
     MultipleParents(Vec<HostNode>),
-- 
2.43.0


From 54852022af7b11026b0bd7403eb102aecf5465c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 44/93] fix: the entrypoint can be moved among its siblings

The documentation only forbids moving roots, but the entrypoint was refused
too, so outlining an entry block which is the entrypoint panicked.
---
 hugr-core/src/hugr/internal.rs | 10 +++++-----
 hugr-core/src/hugr/views.rs    |  9 +++++++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/hugr/internal.rs b/hugr-core/src/hugr/internal.rs
index bd08ca5..35f4115 100644
--- a/hugr-core/src/hugr/internal.rs
+++ b/hugr-core/src/hugr/internal.rs
@@ -11,7 +11,7 @@ use crate::extension::ExtensionRegistry;
 use crate::{Direction, Hugr, Node};
 
 use super::HugrView;
-use super::views::{panic_invalid_node, panic_invalid_non_entrypoint};
+use super::views::{panic_invalid_node, panic_invalid_non_root};
 use super::{NodeMetadataMap, OpType};
 use crate::ops::handle::NodeHandle;
 
@@ -348,8 +348,8 @@ impl HugrMutInternals for Hugr {
     }
 
     fn move_after_sibling(&mut self, node: Node, after: Node) {
-        panic_invalid_non_entrypoint(self, node);
-        panic_invalid_non_entrypoint(self, after);
+        panic_invalid_non_root(self, node);
+        panic_invalid_non_root(self, after);
         self.hierarchy.detach(node.into_portgraph());
         self.hierarchy
             .insert_after(node.into_portgraph(), after.into_portgraph())
@@ -357,8 +357,8 @@ impl HugrMutInternals for Hugr {
     }
 
     fn move_before_sibling(&mut self, node: Node, before: Node) {
-        panic_invalid_non_entrypoint(self, node);
-        panic_invalid_non_entrypoint(self, before);
+        panic_invalid_non_root(self, node);
+        panic_invalid_non_root(self, before);
         self.hierarchy.detach(node.into_portgraph());
         self.hierarchy
             .insert_before(node.into_portgraph(), before.into_portgraph())
diff --git a/hugr-core/src/hugr/views.rs b/hugr-core/src/hugr/views.rs
index acebcd6..8060ae0 100644
--- a/hugr-core/src/hugr/views.rs
+++ b/hugr-core/src/hugr/views.rs
@@ -851,6 +851,15 @@ pub(super) fn panic_invalid_non_entrypoint<H: HugrView + ?Sized>(hugr: &H, node:
     );
 }
 
+/// Panic if the node is not in the graph, or if it is the module root.
+#[track_caller]
+pub(super) fn panic_invalid_non_root<H: HugrView + ?Sized>(hugr: &H, node: H::Node) {
+    assert!(
+        hugr.contains_node(node) && node != hugr.module_root(),
+        "Received an invalid non-root node {node}.",
+    );
+}
+
 /// Panic if [`HugrView::valid_node`] fails.
 #[track_caller]
 pub(super) fn panic_invalid_port(hugr: &Hugr, node: Node, port: impl Into<Port>) {
-- 
2.43.0


From adc30652cd84c844ab4de3f8f53b8cc5e3086984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 45/93] fix: validation rejects several functions connected to
 the same call

Static inputs must have exactly one source, but only constants were checked.
---
 hugr-core/src/hugr/validate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index 25316db..0514109 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -223,8 +223,8 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
         let mut links = self.hugr.linked_ports(node, port).peekable();
         // Linear dataflow values must be used, and control must have somewhere to flow.
         let outgoing_is_unique = port_kind.is_linear() || port_kind == EdgeKind::ControlFlow;
-        // All dataflow wires must have a unique source.
-        let incoming_is_unique = port_kind.is_value() || port_kind.is_const();
+        // All dataflow and static wires must have a unique source.
+        let incoming_is_unique = port_kind.is_value() || port_kind.is_static();
         let must_be_connected = match dir {
             // Incoming ports must be connected, except for state order ports, branch case nodes,
             // and CFG nodes.
-- 
2.43.0


From 7fd94a719e438be03ec9ce3dccf531ce10009d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 46/93] fix: validation checks the type variables in type
 arguments of calls

Arguments that do not appear in the instantiated signature could mention
variables that are not declared by the enclosing function.
---
 hugr-core/src/hugr/validate.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index 0514109..acec444 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -19,7 +19,7 @@ use crate::ops::validate::{
 };
 use crate::ops::{NamedOp, OpName, OpTag, OpTrait, OpType, ValidateOp};
 use crate::types::EdgeKind;
-use crate::types::type_param::TypeParam;
+use crate::types::type_param::{TypeArg, TypeParam};
 use crate::{Direction, Port, Visibility};
 
 use super::internal::PortgraphNodeMap;
@@ -571,6 +571,9 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
                     cause,
                 })
         };
+        // The arguments need not all appear in the instantiated signature.
+        let validate_args =
+            |args: &[TypeArg]| args.iter().try_for_each(|arg| arg.validate(var_decls));
         match op_type {
             OpType::ExtensionOp(ext_op) => validate_ext(ext_op)?,
             OpType::OpaqueOp(opaque) => {
@@ -582,6 +585,7 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
             }
             OpType::Call(c) => {
                 c.validate()
+                    .and_then(|()| validate_args(&c.type_args))
                     .map_err(|cause| ValidationError::SignatureError {
                         node,
                         op: op_type.name(),
@@ -590,6 +594,7 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
             }
             OpType::LoadFunction(c) => {
                 c.validate()
+                    .and_then(|()| validate_args(&c.type_args))
                     .map_err(|cause| ValidationError::SignatureError {
                         node,
                         op: op_type.name(),
-- 
2.43.0


From de8a2275dcc56c6913a9c18fad34b59398219123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 47/93] fix: validation reports missing or misplaced children
 instead of panicking

---
 hugr-core/src/hugr/validate.rs | 37 ++++++++++++++++++++++++----------
 hugr-core/src/ops/validate.rs  | 29 +++++++++++++++++++-------
 2 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index acec444..dbaf6d1 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -171,17 +171,7 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
                 return Err(ValidationError::NoParent { node });
             };
 
-            let parent_optype = self.hugr.get_optype(parent);
-            let allowed_children = parent_optype.validity_flags::<H::Node>().allowed_children;
-            if !allowed_children.is_superset(op_type.tag()) {
-                return Err(ValidationError::InvalidParentOp {
-                    child: node,
-                    child_optype: Box::new(op_type.clone()),
-                    parent,
-                    parent_optype: Box::new(parent_optype.clone()),
-                    allowed_children,
-                });
-            }
+            self.validate_parent(node, parent, self.hugr.get_optype(parent))?;
         }
 
         // Entrypoints must be region containers.
@@ -207,6 +197,27 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
         Ok(())
     }
 
+    /// Check that the operation of a node is allowed under its parent.
+    fn validate_parent(
+        &self,
+        child: H::Node,
+        parent: H::Node,
+        parent_optype: &OpType,
+    ) -> Result<(), ValidationError<H::Node>> {
+        let child_optype = self.hugr.get_optype(child);
+        let allowed_children = parent_optype.validity_flags::<H::Node>().allowed_children;
+        if !allowed_children.is_superset(child_optype.tag()) {
+            return Err(ValidationError::InvalidParentOp {
+                child,
+                child_optype: Box::new(child_optype.clone()),
+                parent,
+                parent_optype: Box::new(parent_optype.clone()),
+                allowed_children,
+            });
+        }
+        Ok(())
+    }
+
     /// Check whether a port is valid.
     /// - Input ports and output linear ports must be connected
     /// - The linked port must have a compatible type.
@@ -330,6 +341,10 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
             }
 
             let all_children = self.hugr.children(node);
+            // The checks below rely on the kind of the children
+            for child in all_children.clone() {
+                self.validate_parent(child, node, op_type)?;
+            }
             let mut first_two_children = all_children.clone().take(2);
             let first_child = self.hugr.get_optype(first_two_children.next().unwrap());
             if !flags.allowed_first_child.is_superset(first_child.tag()) {
diff --git a/hugr-core/src/ops/validate.rs b/hugr-core/src/ops/validate.rs
index 9bb4ebb..6f4b5e2 100644
--- a/hugr-core/src/ops/validate.rs
+++ b/hugr-core/src/ops/validate.rs
@@ -130,7 +130,12 @@ impl ValidateOp for super::CFG {
         mut children: impl Iterator<Item = (N, &'a OpType)>,
     ) -> Result<(), ChildrenValidationError<N>> {
         let (entry, entry_op) = children.next().unwrap();
-        let (exit, exit_op) = children.next().unwrap();
+        let Some((exit, exit_op)) = children.next() else {
+            return Err(ChildrenValidationError::MissingSecondChild {
+                child: entry,
+                expected: OpTag::BasicBlockExit,
+            });
+        };
         let entry_op = entry_op
             .as_dataflow_block()
             .expect("Child check should have already checked valid ops.");
@@ -173,6 +178,9 @@ pub enum ChildrenValidationError<N: HugrNode> {
     /// An CFG graph has an exit operation as a non-second child.
     #[error("Exit basic blocks are only allowed as the second child in a CFG graph")]
     InternalExitChildren { child: N },
+    /// The only child must be followed by another one.
+    #[error("The only child must be followed by a child of kind {expected}")]
+    MissingSecondChild { child: N, expected: OpTag },
     /// An operation only allowed as the first/second child was found as an intermediate child.
     #[error("A {optype} operation is only allowed as a {expected_position} child")]
     InternalIOChildren {
@@ -208,6 +216,7 @@ impl<N: HugrNode> ChildrenValidationError<N> {
     /// Returns the node index of the child that caused the error.
     pub fn child(&self) -> N {
         match self {
+            ChildrenValidationError::MissingSecondChild { child, .. } => *child,
             ChildrenValidationError::InternalIOChildren { child, .. } => *child,
             ChildrenValidationError::InternalExitChildren { child, .. } => *child,
             ChildrenValidationError::ConditionalCaseSignature { child, .. } => *child,
@@ -293,7 +302,12 @@ fn validate_io_nodes<'a, N: HugrNode>(
 ) -> Result<(), ChildrenValidationError<N>> {
     // Check that the signature matches with the Input and Output rows.
     let (first, first_optype) = children.next().unwrap();
-    let (second, second_optype) = children.next().unwrap();
+    let Some((second, second_optype)) = children.next() else {
+        return Err(ChildrenValidationError::MissingSecondChild {
+            child: first,
+            expected: OpTag::Output,
+        });
+    };
 
     let first_sig = first_optype.dataflow_signature().unwrap_or_default();
     if &first_sig.output != expected_input {
@@ -342,15 +356,16 @@ fn validate_io_nodes<'a, N: HugrNode>(
 
 /// Validate an edge between two basic blocks in a CFG sibling graph.
 fn validate_cfg_edge<N: HugrNode>(edge: ChildrenEdgeData<N>) -> Result<(), EdgeValidationError<N>> {
-    let source = &edge
-        .source_op
-        .as_dataflow_block()
-        .expect("CFG sibling graphs can only contain basic block operations.");
+    // Edges of other operations (i.e. constants) cannot be control flow edges,
+    // which is checked when comparing the kinds of the connected ports.
+    let Some(source) = edge.source_op.as_dataflow_block() else {
+        return Ok(());
+    };
 
     let target_input = match &edge.target_op {
         OpType::DataflowBlock(dfb) => dfb.dataflow_input(),
         OpType::ExitBlock(exit) => exit.dataflow_input(),
-        _ => panic!("CFG sibling graphs can only contain basic block operations."),
+        _ => return Ok(()),
     };
 
     let source_types = source.successor_input(edge.source_port.index());
-- 
2.43.0


From c2018f20c62586df071e4b19ddf04c76f4306cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 48/93] fix: validation requires the root to be a module

---
 hugr-core/src/hugr/validate.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index dbaf6d1..185bd2e 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -52,6 +52,14 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
             });
         }
 
+        let root_optype = self.hugr.get_optype(self.hugr.module_root());
+        if !root_optype.is_module() {
+            return Err(ValidationError::RootNotModule {
+                node: self.hugr.module_root(),
+                optype: Box::new(root_optype.clone()),
+            });
+        }
+
         // Node-specific checks
         for node in self.hugr.nodes().map_into() {
             self.validate_node(node)?;
@@ -650,6 +658,9 @@ pub enum ValidationError<N: HugrNode> {
     /// The root node of the Hugr is not a root in the hierarchy.
     #[error("The root node of the Hugr ({node}) is not a root in the hierarchy.")]
     RootNotRoot { node: N },
+    /// The root node of the Hugr is not a module.
+    #[error("The root node of the Hugr ({node}) is a {optype}, but must be a module.")]
+    RootNotModule { node: N, optype: Box<OpType> },
     /// The node ports do not match the operation signature.
     #[error(
         "{node} has an invalid number of ports. The operation {optype} cannot have {actual} {dir:?} ports. Expected {expected}."
-- 
2.43.0


From c45c7c9621f1a8da7e646fb807d77119ab21a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 49/93] fix: the model text format accepts the variable names
 that export gives

Export names variables by number, which the grammar rejected, so that no
program with a polymorphic symbol could be read back from text.
---
 hugr-model/src/v0/ast/hugr.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-model/src/v0/ast/hugr.pest b/hugr-model/src/v0/ast/hugr.pest
index d960cb3..92651a8 100644
--- a/hugr-model/src/v0/ast/hugr.pest
+++ b/hugr-model/src/v0/ast/hugr.pest
@@ -103,7 +103,7 @@ term = {
 }
 
 term_wildcard   = @{ "_" ~ !(ASCII_ALPHANUMERIC | "_" | "-") }
-term_var        =  { "?" ~ identifier }
+term_var        = @{ "?" ~ identifier_rest+ }
 term_apply      =  { symbol_name | ("(" ~ symbol_name ~ term* ~ ")") }
 term_list       =  { "[" ~ part* ~ "]" }
 term_tuple      =  { "(" ~ "tuple" ~ part* ~ ")" }
-- 
2.43.0


From 997c8cd4cf4796849b18315a4ff9dec76c4ff112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 50/93] fix: parse function constants in the model text format
 as they are printed

---
 hugr-model/src/v0/ast/hugr.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-model/src/v0/ast/hugr.pest b/hugr-model/src/v0/ast/hugr.pest
index 92651a8..b5733bf 100644
--- a/hugr-model/src/v0/ast/hugr.pest
+++ b/hugr-model/src/v0/ast/hugr.pest
@@ -107,7 +107,7 @@ term_var        = @{ "?" ~ identifier_rest+ }
 term_apply      =  { symbol_name | ("(" ~ symbol_name ~ term* ~ ")") }
 term_list       =  { "[" ~ part* ~ "]" }
 term_tuple      =  { "(" ~ "tuple" ~ part* ~ ")" }
-term_const_func =  { "(" ~ "fn" ~ term ~ ")" }
+term_const_func =  { "(" ~ "fn" ~ region ~ ")" }
 
 part         = { spliced_term | term }
 spliced_term = { term ~ "..." }
-- 
2.43.0


From e525686c033a41723a0d6436c0c1393ea830b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 51/93] fix: print float literals of the model text format with
 a decimal point

---
 hugr-model/src/v0/ast/print.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hugr-model/src/v0/ast/print.rs b/hugr-model/src/v0/ast/print.rs
index 071146d..6dee797 100644
--- a/hugr-model/src/v0/ast/print.rs
+++ b/hugr-model/src/v0/ast/print.rs
@@ -169,8 +169,15 @@ fn print_literal<'a>(printer: &mut Printer<'a>, literal: &'a Literal) {
             printer.parens_exit();
         }
         Literal::Float(float) => {
-            // The debug representation of a float always includes a decimal point.
-            printer.text(format!("{:.?}", float.into_inner()));
+            // The debug representation of a float includes a decimal point, except
+            // in scientific notation with a single significant digit.
+            let text = format!("{:?}", float.into_inner());
+            match text.split_once('e') {
+                Some((mantissa, exponent)) if !mantissa.contains('.') => {
+                    printer.text(format!("{mantissa}.0e{exponent}"));
+                }
+                _ => printer.text(text),
+            }
         }
     }
 }
-- 
2.43.0


From af9d867caef1579ec5fdf4ef747c11ec28255681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 52/93] fix: resolve the types of extensions packaged in the
 model text format

---
 hugr-core/src/envelope/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/envelope/reader.rs b/hugr-core/src/envelope/reader.rs
index 803b5b6..6a8f890 100644
--- a/hugr-core/src/envelope/reader.rs
+++ b/hugr-core/src/envelope/reader.rs
@@ -222,7 +222,11 @@ impl<R: BufRead> EnvelopeReader<R> {
                 .into_iter::<Vec<Extension>>()
                 .next()
                 .unwrap_or(Ok(vec![]))?;
-            ExtensionRegistry::new(extra_extensions.into_iter().map(std::sync::Arc::new))
+            ExtensionRegistry::new_with_extension_resolution(
+                extra_extensions,
+                &WeakExtensionRegistry::from(&self.registry),
+            )
+            .map_err(crate::extension::ExtensionRegistryLoadError::from)?
         } else {
             ExtensionRegistry::new([])
         };
-- 
2.43.0


From 06081b24bfc5b9b2ac62f904580867d998e57d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 53/93] fix: export of function values uses the links of their
 own graph

---
 hugr-core/src/export.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hugr-core/src/export.rs b/hugr-core/src/export.rs
index 9b0dc2a..a3689c9 100644
--- a/hugr-core/src/export.rs
+++ b/hugr-core/src/export.rs
@@ -1085,6 +1085,7 @@ impl<'a> Context<'a> {
             Value::Function { hugr } => {
                 let outer_hugr = std::mem::replace(&mut self.hugr, hugr);
                 let outer_node_to_id = std::mem::take(&mut self.node_to_id);
+                let outer_links = std::mem::replace(&mut self.links, Links::new(hugr));
 
                 let region = match hugr.entrypoint_optype() {
                     OpType::DFG(_) => {
@@ -1093,6 +1094,7 @@ impl<'a> Context<'a> {
                     _ => panic!("Value::Function root must be a DFG"),
                 };
 
+                self.links = outer_links;
                 self.node_to_id = outer_node_to_id;
                 self.hugr = outer_hugr;
 
-- 
2.43.0


From e361e9cd687bd24b907fe291de1d80463123b45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 54/93] fix: parse nested lists and out of range literals of
 the model text format

---
 hugr-model/src/v0/ast/hugr.pest |  4 ++--
 hugr-model/src/v0/ast/parse.rs  | 22 ++++++++++------------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/hugr-model/src/v0/ast/hugr.pest b/hugr-model/src/v0/ast/hugr.pest
index b5733bf..f44f97f 100644
--- a/hugr-model/src/v0/ast/hugr.pest
+++ b/hugr-model/src/v0/ast/hugr.pest
@@ -109,5 +109,5 @@ term_list       =  { "[" ~ part* ~ "]" }
 term_tuple      =  { "(" ~ "tuple" ~ part* ~ ")" }
 term_const_func =  { "(" ~ "fn" ~ region ~ ")" }
 
-part         = { spliced_term | term }
-spliced_term = { term ~ "..." }
+part   = { term ~ splice? }
+splice = { "..." }
diff --git a/hugr-model/src/v0/ast/parse.rs b/hugr-model/src/v0/ast/parse.rs
index a2c9a5c..633c65d 100644
--- a/hugr-model/src/v0/ast/parse.rs
+++ b/hugr-model/src/v0/ast/parse.rs
@@ -108,17 +108,13 @@ fn parse_literal(pair: Pair<Rule>) -> ParseResult<Literal> {
 
 fn parse_seq_part(pair: Pair<Rule>) -> ParseResult<SeqPart> {
     debug_assert_eq!(pair.as_rule(), Rule::part);
-    let pair = pair.into_inner().next().unwrap();
+    let mut pairs = pair.into_inner();
+    let term = parse_term(pairs.next().unwrap())?;
 
-    Ok(match pair.as_rule() {
-        Rule::term => SeqPart::Item(parse_term(pair)?),
-        Rule::spliced_term => {
-            let mut pairs = pair.into_inner();
-            let term = parse_term(pairs.next().unwrap())?;
-            SeqPart::Splice(term)
-        }
-        _ => unreachable!("expected term or spliced term"),
-    })
+    match pairs.next() {
+        Some(_) => Ok(SeqPart::Splice(term)),
+        None => Ok(SeqPart::Item(term)),
+    }
 }
 
 fn parse_package(pair: Pair<Rule>) -> ParseResult<Package> {
@@ -397,8 +393,10 @@ fn parse_bytes(pair: Pair<Rule>) -> ParseResult<Arc<[u8]>> {
 
 fn parse_nat(pair: Pair<Rule>) -> ParseResult<u64> {
     debug_assert_eq!(pair.as_rule(), Rule::literal_nat);
-    let value = pair.as_str().trim().parse().unwrap();
-    Ok(value)
+    pair.as_str()
+        .trim()
+        .parse()
+        .map_err(|_| ParseError::custom("natural number out of range", pair.as_span()))
 }
 
 fn parse_float(pair: Pair<Rule>) -> ParseResult<OrderedFloat<f64>> {
-- 
2.43.0


From e0c3066d5b43c9b83356be79e18faef90f9c22b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 55/93] fix: reject cyclic or too deeply nested models

---
 hugr-model/src/v0/ast/parse.rs   |  36 ++++++++-
 hugr-model/src/v0/binary/read.rs | 130 ++++++++++++++++++++++++++++++-
 hugr-model/src/v0/mod.rs         |   5 ++
 3 files changed, 167 insertions(+), 4 deletions(-)

diff --git a/hugr-model/src/v0/ast/parse.rs b/hugr-model/src/v0/ast/parse.rs
index 633c65d..8d81f36 100644
--- a/hugr-model/src/v0/ast/parse.rs
+++ b/hugr-model/src/v0/ast/parse.rs
@@ -26,7 +26,7 @@ use smol_str::SmolStr;
 use thiserror::Error;
 
 use crate::v0::ast::{LinkName, Module, Operation, SeqPart};
-use crate::v0::{Literal, RegionKind};
+use crate::v0::{Literal, MAX_NESTING, RegionKind};
 
 use super::{Node, Package, Param, Region, Symbol, VarName, Visibility};
 use super::{SymbolName, Term};
@@ -437,12 +437,46 @@ impl ParseError {
     }
 }
 
+/// Check that the brackets in the text are not nested too deeply to be parsed recursively.
+fn check_nesting(text: &str) -> ParseResult<()> {
+    let mut depth = 0usize;
+    let mut chars = text.char_indices();
+
+    while let Some((pos, c)) = chars.next() {
+        match c {
+            '(' | '[' => depth += 1,
+            ')' | ']' => depth = depth.saturating_sub(1),
+            ';' => {
+                chars.find(|(_, c)| *c == '\n');
+            }
+            '"' => {
+                while let Some((_, c)) = chars.next() {
+                    match c {
+                        '\\' => drop(chars.next()),
+                        '"' => break,
+                        _ => {}
+                    }
+                }
+            }
+            _ => {}
+        }
+
+        if depth > MAX_NESTING {
+            let span = pest::Span::new(text, pos, pos).expect("position of a character");
+            return Err(ParseError::custom("too deeply nested", span));
+        }
+    }
+
+    Ok(())
+}
+
 macro_rules! impl_from_str {
     ($ident:ident, $rule:ident, $parse:expr) => {
         impl FromStr for $ident {
             type Err = ParseError;
 
             fn from_str(s: &str) -> Result<Self, Self::Err> {
+                check_nesting(s)?;
                 let mut pairs =
                     HugrParser::parse(Rule::$rule, s).map_err(|err| ParseError(Box::new(err)))?;
                 $parse(pairs.next().unwrap())
diff --git a/hugr-model/src/v0/binary/read.rs b/hugr-model/src/v0/binary/read.rs
index ae44ebb..f1c2a55 100644
--- a/hugr-model/src/v0/binary/read.rs
+++ b/hugr-model/src/v0/binary/read.rs
@@ -1,5 +1,5 @@
 use crate::capnp::hugr_v0_capnp as hugr_capnp;
-use crate::v0::table;
+use crate::v0::{MAX_NESTING, table};
 use crate::{CURRENT_VERSION, v0 as model};
 use bumpalo::Bump;
 use bumpalo::collections::Vec as BumpVec;
@@ -22,6 +22,11 @@ pub enum ReadError {
         /// The version of the hugr-model format in the file.
         actual: semver::Version,
     },
+
+    /// The terms, regions or nodes of a module contain themselves or are nested too deeply.
+    #[display("The module contains a cyclic or too deeply nested term, region or node.")]
+    #[from(skip)]
+    Nesting,
 }
 
 type ReadResult<T> = Result<T, ReadError>;
@@ -132,12 +137,131 @@ fn read_module<'a>(
         .map(|r| read_term(bump, r))
         .collect::<ReadResult<_>>()?;
 
-    Ok(table::Module {
+    let module = table::Module {
         root,
         nodes,
         regions,
         terms,
-    })
+    };
+    check_nesting(&module)?;
+    Ok(module)
+}
+
+/// Check that no term, region or node of the module contains itself, and that none
+/// is nested too deeply to be processed recursively.
+///
+/// References to items that do not exist are ignored here.
+fn check_nesting(module: &table::Module<'_>) -> ReadResult<()> {
+    #[derive(Clone, Copy)]
+    enum State {
+        Unvisited,
+        Open,
+        /// The nesting depth below the item.
+        Closed(usize),
+    }
+
+    let num_terms = module.terms.len();
+    let num_regions = module.regions.len();
+    let term_index = |id: table::TermId| Some(id.0 as usize).filter(|i| *i < num_terms);
+    let region_index = |id: table::RegionId| {
+        Some(id.0 as usize)
+            .filter(|i| *i < num_regions)
+            .map(|i| num_terms + i)
+    };
+    let node_index = |id: table::NodeId| {
+        Some(id.0 as usize)
+            .filter(|i| *i < module.nodes.len())
+            .map(|i| num_terms + num_regions + i)
+    };
+
+    // The items directly contained in an item.
+    let children = |index: usize| -> Vec<usize> {
+        let mut terms: Vec<table::TermId> = Vec::new();
+        let mut regions: &[table::RegionId] = &[];
+        let mut nodes: &[table::NodeId] = &[];
+
+        if let Some(term) = module.terms.get(index) {
+            match term {
+                table::Term::Apply(_, args) => terms.extend(*args),
+                table::Term::List(parts) | table::Term::Tuple(parts) => {
+                    terms.extend(parts.iter().map(|part| match part {
+                        table::SeqPart::Item(term) | table::SeqPart::Splice(term) => *term,
+                    }));
+                }
+                table::Term::Func(region) => regions = std::slice::from_ref(region),
+                table::Term::Wildcard | table::Term::Var(_) | table::Term::Literal(_) => {}
+            }
+        } else if let Some(region) = module.regions.get(index - num_terms) {
+            terms.extend(region.meta);
+            terms.extend(region.signature);
+            nodes = region.children;
+        } else {
+            let node = &module.nodes[index - num_terms - num_regions];
+            terms.extend(node.meta);
+            terms.extend(node.signature);
+            regions = node.regions;
+            match &node.operation {
+                table::Operation::Custom(term) => terms.push(*term),
+                table::Operation::DefineAlias(_, value) => terms.push(*value),
+                _ => {}
+            }
+            if let table::Operation::DefineFunc(symbol)
+            | table::Operation::DeclareFunc(symbol)
+            | table::Operation::DefineAlias(symbol, _)
+            | table::Operation::DeclareAlias(symbol)
+            | table::Operation::DeclareConstructor(symbol)
+            | table::Operation::DeclareOperation(symbol) = &node.operation
+            {
+                terms.extend(symbol.params.iter().map(|param| param.r#type));
+                terms.extend(symbol.constraints);
+                terms.push(symbol.signature);
+            }
+        }
+
+        let terms = terms.into_iter().filter_map(term_index);
+        let regions = regions.iter().filter_map(|id| region_index(*id));
+        let nodes = nodes.iter().filter_map(|id| node_index(*id));
+        terms.chain(regions).chain(nodes).collect()
+    };
+
+    let num_items = num_terms + num_regions + module.nodes.len();
+    let mut states = vec![State::Unvisited; num_items];
+    // The items being visited, with their remaining children and the depth seen below them.
+    let mut stack: Vec<(usize, std::vec::IntoIter<usize>, usize)> = Vec::new();
+
+    for start in 0..num_items {
+        let mut next = matches!(states[start], State::Unvisited).then_some(start);
+
+        loop {
+            if let Some(item) = next.take() {
+                states[item] = State::Open;
+                stack.push((item, children(item).into_iter(), 0));
+            }
+
+            let Some((item, rest, below)) = stack.last_mut() else {
+                break;
+            };
+
+            match rest.next().map(|child| (child, states[child])) {
+                Some((child, State::Unvisited)) => next = Some(child),
+                Some((_, State::Open)) => return Err(ReadError::Nesting),
+                Some((_, State::Closed(depth))) => *below = (*below).max(depth + 1),
+                None => {
+                    let (item, depth) = (*item, *below);
+                    if depth > MAX_NESTING {
+                        return Err(ReadError::Nesting);
+                    }
+                    states[item] = State::Closed(depth);
+                    stack.pop();
+                    if let Some((_, _, below)) = stack.last_mut() {
+                        *below = (*below).max(depth + 1);
+                    }
+                }
+            }
+        }
+    }
+
+    Ok(())
 }
 
 fn read_node<'a>(bump: &'a Bump, reader: hugr_capnp::node::Reader) -> ReadResult<table::Node<'a>> {
diff --git a/hugr-model/src/v0/mod.rs b/hugr-model/src/v0/mod.rs
index 40a637e..d1d9213 100644
--- a/hugr-model/src/v0/mod.rs
+++ b/hugr-model/src/v0/mod.rs
@@ -118,6 +118,11 @@ pub enum Visibility {
     Public,
 }
 
+/// The deepest nesting of terms, regions and nodes that is accepted when reading a module.
+///
+/// Modules are processed recursively, so that deeper nesting could overflow the stack.
+pub(crate) const MAX_NESTING: usize = 1024;
+
 /// Core function types.
 ///
 /// - **Parameter:** `?inputs : (core.list core.type)`
-- 
2.43.0


From ae4ca10e3687be45b0ae80b1606ee9c87b27454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 56/93] fix: check the extension versions of an envelope after
 resolving its modules

---
 hugr-core/src/envelope/reader.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/envelope/reader.rs b/hugr-core/src/envelope/reader.rs
index 6a8f890..2edc5a4 100644
--- a/hugr-core/src/envelope/reader.rs
+++ b/hugr-core/src/envelope/reader.rs
@@ -137,14 +137,16 @@ impl<R: BufRead> EnvelopeReader<R> {
             let desc = desc.get_or_insert_default();
             desc.load_used_extensions_generator(module)
                 .map_err(ExtensionBreakingError::from)?;
-            if let Some(used_exts) = &mut desc.used_extensions_generator {
-                check_breaking_extensions(module.extensions(), used_exts.drain(..))?;
-            }
 
             module
                 .resolve_extension_defs(&self.registry)
                 .inspect_err(|err| Self::handle_resolution_error(desc, err))?;
 
+            // Only the resolved module knows which extensions it uses.
+            if let Some(used_exts) = &mut desc.used_extensions_generator {
+                check_breaking_extensions(module.extensions(), used_exts.drain(..))?;
+            }
+
             // overwrite the description with the actual module read,
             // cheap so ok to repeat.
             desc.load_from_hugr(&module);
-- 
2.43.0


From 47e58a57e2d512c0fa351037aaf8e9c0e4d36332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 57/93] fix: check integer constants when reading them

---
 .../std_extensions/arithmetic/int_types.rs    | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_types.rs b/hugr-core/src/std_extensions/arithmetic/int_types.rs
index 04567aa..4c480c5 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_types.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_types.rs
@@ -91,6 +91,7 @@ const fn type_arg(log_width: u8) -> TypeArg {
 
 /// An integer (either signed or unsigned)
 #[derive(Clone, Debug, Eq, PartialEq, Hash, serde::Serialize, serde::Deserialize)]
+#[serde(try_from = "UncheckedConstInt")]
 pub struct ConstInt {
     log_width: u8,
     // We always use a u64 for the value. The interpretation is:
@@ -101,6 +102,24 @@ pub struct ConstInt {
     value: u64,
 }
 
+/// The serialized form of a [`ConstInt`], whose width and value are yet to be checked.
+#[derive(serde::Deserialize)]
+#[serde(rename = "ConstInt")]
+struct UncheckedConstInt {
+    log_width: u8,
+    value: u64,
+}
+
+impl TryFrom<UncheckedConstInt> for ConstInt {
+    type Error = ConstTypeError;
+
+    fn try_from(
+        UncheckedConstInt { log_width, value }: UncheckedConstInt,
+    ) -> Result<Self, Self::Error> {
+        Self::new_u(log_width, value)
+    }
+}
+
 impl ConstInt {
     /// Name of the constructor for creating constant integers.
     pub(crate) const CTR_NAME: &'static str = "arithmetic.int.const";
-- 
2.43.0


From 3ce99491bc513f4b7dbeb01f20a5fa057a509cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 58/93] fix: report malformed models on import instead of
 panicking

---
 hugr-core/src/import.rs | 109 +++++++++++++++++++++++++++++-----------
 1 file changed, 80 insertions(+), 29 deletions(-)

diff --git a/hugr-core/src/import.rs b/hugr-core/src/import.rs
index 8c4f2a2..fce60d8 100644
--- a/hugr-core/src/import.rs
+++ b/hugr-core/src/import.rs
@@ -152,6 +152,9 @@ enum OrderHintError {
     /// Order hint involving a node with no order port.
     #[error("order hint on node with no order port: {0}")]
     NoOrderPort(table::NodeId),
+    /// Order hint from the output or to the input of a region.
+    #[error("order hint from key {0} to key {1} leaves the output or enters the input of a region")]
+    InvalidOrder(u64, u64),
 }
 
 /// Helper macro to create an `ImportErrorInner::Unsupported` error with a formatted message.
@@ -353,8 +356,8 @@ impl<'a> Context<'a> {
         self.nodes.insert(node_id, node);
 
         let node_data = self.get_node(node_id)?;
-        self.record_links(node, Direction::Incoming, node_data.inputs);
-        self.record_links(node, Direction::Outgoing, node_data.outputs);
+        self.record_links(node, Direction::Incoming, node_data.inputs)?;
+        self.record_links(node, Direction::Outgoing, node_data.outputs)?;
 
         for meta_item in node_data.meta {
             self.import_node_metadata(node, *meta_item)
@@ -422,10 +425,21 @@ impl<'a> Context<'a> {
     }
 
     /// Associate links with the ports of the given node in the given direction.
-    fn record_links(&mut self, node: Node, direction: Direction, links: &'a [table::LinkIndex]) {
-        let optype = self.hugr.get_optype(node);
+    fn record_links(
+        &mut self,
+        node: Node,
+        direction: Direction,
+        links: &'a [table::LinkIndex],
+    ) -> Result<(), ImportErrorInner> {
         // NOTE: `OpType::port_count` copies the signature, which significantly slows down the import.
-        debug_assert!(links.len() <= optype.port_count(direction));
+        if links.len() > self.hugr.num_ports(node, direction) {
+            return Err(error_invalid!(
+                "node `{}` has {} {:?} links, more than it has ports",
+                self.hugr.get_optype(node),
+                links.len(),
+                direction
+            ));
+        }
 
         for (link, port) in links.iter().zip(self.hugr.node_ports(node, direction)) {
             self.link_ports
@@ -433,6 +447,7 @@ impl<'a> Context<'a> {
                 .or_default()
                 .push((node, port));
         }
+        Ok(())
     }
 
     /// Link up the ports in the hugr graph, according to the connectivity information that
@@ -491,11 +506,17 @@ impl<'a> Context<'a> {
     /// Connects static ports according to the connections in [`self.static_edges`].
     fn link_static_ports(&mut self) -> Result<(), ImportErrorInner> {
         for (src_id, dst_id) in std::mem::take(&mut self.static_edges) {
-            // None of these lookups should fail given how we constructed `static_edges`.
-            let src = self.nodes[&src_id];
+            // The destinations were recorded on import, but the sources are arbitrary symbols.
             let dst = self.nodes[&dst_id];
-            let src_port = self.hugr.get_optype(src).static_output_port().unwrap();
             let dst_port = self.hugr.get_optype(dst).static_input_port().unwrap();
+            let (src, src_port) = self
+                .nodes
+                .get(&src_id)
+                .and_then(|src| {
+                    let port = self.hugr.get_optype(*src).static_output_port()?;
+                    Some((*src, port))
+                })
+                .ok_or_else(|| error_invalid!("node {} is not a function of this module", src_id))?;
             self.hugr.connect(src, src_port, dst, dst_port);
         }
 
@@ -707,8 +728,8 @@ impl<'a> Context<'a> {
         );
 
         // Make sure that the ports of the input/output nodes are connected correctly
-        self.record_links(input, Direction::Outgoing, region_data.sources);
-        self.record_links(output, Direction::Incoming, region_data.targets);
+        self.record_links(input, Direction::Outgoing, region_data.sources)?;
+        self.record_links(output, Direction::Incoming, region_data.targets)?;
 
         for child in region_data.children {
             self.import_node(*child, node)?;
@@ -753,9 +774,11 @@ impl<'a> Context<'a> {
                     continue;
                 };
 
-                // NOTE: The lookups here are expected to succeed since we only
-                // process the order metadata after we have imported the nodes.
-                let child_node = self.nodes[child_id];
+                // We only process the order metadata after we have imported the nodes,
+                // but not every model node becomes a node of the hugr.
+                let Some(child_node) = self.nodes.get(child_id).copied() else {
+                    return Err(OrderHintError::NoOrderPort(*child_id).into());
+                };
                 let child_optype = self.hugr.get_optype(child_node);
 
                 // Check that the node has order ports.
@@ -807,16 +830,23 @@ impl<'a> Context<'a> {
                 continue;
             };
 
-            let a = order_keys.get(a).ok_or(OrderHintError::UnknownKey(*a))?;
-            let b = order_keys.get(b).ok_or(OrderHintError::UnknownKey(*b))?;
+            let a_node = order_keys.get(a).ok_or(OrderHintError::UnknownKey(*a))?;
+            let b_node = order_keys.get(b).ok_or(OrderHintError::UnknownKey(*b))?;
 
-            // NOTE: The unwrap here must succeed:
-            // - For all ordinary nodes we checked that they have an order port.
-            // - Input and output nodes always have an order port.
-            let a_port = self.hugr.get_optype(*a).other_output_port().unwrap();
-            let b_port = self.hugr.get_optype(*b).other_input_port().unwrap();
+            // All ordinary nodes have both order ports, but nothing can be ordered
+            // after the output node or before the input node of the region.
+            let a_port = self
+                .hugr
+                .get_optype(*a_node)
+                .other_output_port()
+                .ok_or(OrderHintError::InvalidOrder(*a, *b))?;
+            let b_port = self
+                .hugr
+                .get_optype(*b_node)
+                .other_input_port()
+                .ok_or(OrderHintError::InvalidOrder(*a, *b))?;
 
-            self.hugr.connect(*a, a_port, *b, b_port);
+            self.hugr.connect(*a_node, a_port, *b_node, b_port);
         }
 
         Ok(())
@@ -1300,12 +1330,20 @@ impl<'a> Context<'a> {
                 .ok_or_else(|| error_uninferred!("node signature"))?;
             let [_, outputs] = self.get_func_type(signature)?;
             let (variants, _) = self.import_adt_and_rest(outputs)?;
+            let tag = usize::try_from(*tag)
+                .ok()
+                .filter(|tag| *tag < variants.len())
+                .ok_or_else(|| {
+                    error_invalid!(
+                        "`{}` has tag {} but only {} variants",
+                        model::CORE_MAKE_ADT,
+                        tag,
+                        variants.len()
+                    )
+                })?;
             let node = self.make_node(
                 node_id,
-                OpType::Tag(Tag {
-                    variants,
-                    tag: *tag as usize,
-                }),
+                OpType::Tag(Tag { variants, tag }),
                 parent,
             )?;
             return Ok(node);
@@ -1497,12 +1535,14 @@ impl<'a> Context<'a> {
                 table::Term::Wildcard => Err(error_uninferred!("wildcard")),
 
                 table::Term::Var(var) => {
+                    // A variable is not in scope within its own type.
                     let var_info = self
                         .local_vars
-                        .get(var)
+                        .remove(var)
                         .ok_or_else(|| error_invalid!("unknown variable {}", var))?;
-                    let decl = self.import_term_with_bound(var_info.r#type, var_info.bound)?;
-                    Ok(Term::new_var_use(var.1 as _, decl))
+                    let decl = self.import_term_with_bound(var_info.r#type, var_info.bound);
+                    self.local_vars.insert(*var, var_info);
+                    Ok(Term::new_var_use(var.1 as _, decl?))
                 }
 
                 table::Term::List(parts) => {
@@ -1979,6 +2019,16 @@ impl<'a> Context<'a> {
 
             let variant = self.import_closed_list(*variant)?;
 
+            if values.len() != variant.len() {
+                return Err(error_invalid!(
+                    "`{}` has {} values but its variant {} has {}",
+                    model::CORE_CONST_ADT,
+                    values.len(),
+                    tag,
+                    variant.len()
+                ));
+            }
+
             let items = values
                 .iter()
                 .zip(variant.iter())
@@ -1994,7 +2044,8 @@ impl<'a> Context<'a> {
                 }
             };
 
-            return Ok(Value::sum(*tag as _, items, ty).unwrap());
+            return Value::sum(*tag as _, items, ty)
+                .map_err(|err| error_invalid!("invalid `{}`: {}", model::CORE_CONST_ADT, err));
         }
 
         match term_data {
-- 
2.43.0


From a6aff0080dd2898d21cd5db05f0c713db52c32d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 59/93] fix: report malformed HUGR JSON instead of panicking

---
 hugr-core/src/core.rs           | 13 +++--
 hugr-core/src/hugr/serialize.rs | 92 ++++++++++++++++++++++++++++++---
 2 files changed, 95 insertions(+), 10 deletions(-)

diff --git a/hugr-core/src/core.rs b/hugr-core/src/core.rs
index 4578aa5..4b4ace6 100644
--- a/hugr-core/src/core.rs
+++ b/hugr-core/src/core.rs
@@ -10,14 +10,21 @@ use itertools::Either::{Left, Right};
 use crate::{HugrView, hugr::HugrError};
 
 /// A handle to a node in the HUGR.
-#[derive(
-    Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, From, serde::Serialize, serde::Deserialize,
-)]
+#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, From, serde::Serialize)]
 #[serde(transparent)]
 pub struct Node {
     index: portgraph::NodeIndex,
 }
 
+impl<'de> serde::Deserialize<'de> for Node {
+    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        let index = usize::deserialize(deserializer)?;
+        portgraph::NodeIndex::try_from(index)
+            .map(|index| Node { index })
+            .map_err(serde::de::Error::custom)
+    }
+}
+
 /// A handle to a port for a node in the HUGR.
 #[derive(
     Clone,
diff --git a/hugr-core/src/hugr/serialize.rs b/hugr-core/src/hugr/serialize.rs
index 5ddc9e3..041eaef 100644
--- a/hugr-core/src/hugr/serialize.rs
+++ b/hugr-core/src/hugr/serialize.rs
@@ -134,6 +134,47 @@ pub enum HUGRSerializationError {
         /// The node that has the port without offset.
         node: Node,
     },
+    /// Edges with wrong port offsets.
+    #[error("The edge endpoint {node} with operation type {op_type} has no {dir:?} port {offset}.")]
+    UnknownEdgePort {
+        /// The node that does not have the port.
+        node: Node,
+        /// The direction of the port.
+        dir: Direction,
+        /// The offset of the port.
+        offset: usize,
+        /// The operation type of the node.
+        op_type: Box<OpType>,
+    },
+    /// The entrypoint or the node of a metadata entry is not in the node list.
+    #[error("The {what} refers to node {index}, which is not in the node list.")]
+    UnknownNode {
+        /// What refers to the node.
+        what: &'static str,
+        /// The index of the missing node.
+        index: usize,
+    },
+    /// The parent of a node must precede it in the node list.
+    #[error("The parent {parent} of node {index} does not precede it in the node list.")]
+    UnknownParent {
+        /// The parent of the node.
+        parent: Node,
+        /// The index of the node.
+        index: usize,
+    },
+    /// The tag of a `Tag` operation must be one of its variants.
+    #[error("Node {index} has tag {tag} but only {num_variants} variants.")]
+    InvalidTag {
+        /// The index of the node.
+        index: usize,
+        /// The tag of the operation.
+        tag: usize,
+        /// The number of variants of the sum.
+        num_variants: usize,
+    },
+    /// There must be a root node.
+    #[error("The node list is empty.")]
+    NoNodes,
     /// First node in node list must be the HUGR root.
     #[error("The first node in the node list has parent {0}, should be itself (index 0)")]
     FirstNodeNotRoot(Node),
@@ -249,6 +290,18 @@ impl TryFrom<&Hugr> for SerHugrLatest {
     }
 }
 
+/// Checks that a `Tag` operation builds one of its variants. Any other tag has no signature.
+fn check_tag(index: usize, op: &OpType) -> Result<(), HUGRSerializationError> {
+    match op {
+        OpType::Tag(op) if op.tag >= op.variants.len() => Err(HUGRSerializationError::InvalidTag {
+            index,
+            tag: op.tag,
+            num_variants: op.variants.len(),
+        }),
+        _ => Ok(()),
+    }
+}
+
 impl TryFrom<SerHugrLatest> for Hugr {
     type Error = HUGRSerializationError;
     fn try_from(
@@ -266,12 +319,14 @@ impl TryFrom<SerHugrLatest> for Hugr {
             parent: root_parent,
             op: root_type,
             ..
-        } = nodes.next().unwrap();
+        } = nodes.next().ok_or(HUGRSerializationError::NoNodes)?;
         if root_parent.index() != 0 {
             return Err(HUGRSerializationError::FirstNodeNotRoot(root_parent));
         }
         // if there are any unconnected ports or copy nodes the capacity will be
         // an underestimate
+        let num_nodes = nodes.len() + 1;
+        check_tag(0, &root_type)?;
         let mut hugr = Hugr::with_capacity(root_type, nodes.len(), edges.len() * 2)?;
 
         // Since the new Hugr may add some nodes to contain the root (if the
@@ -281,17 +336,34 @@ impl TryFrom<SerHugrLatest> for Hugr {
         let hugr_node =
             |node: Node| -> Node { portgraph::NodeIndex::new(node.index() + padding_nodes).into() };
 
-        for node_ser in nodes {
+        for (index, node_ser) in (1..).zip(nodes) {
+            if node_ser.parent.index() >= index {
+                return Err(HUGRSerializationError::UnknownParent {
+                    parent: node_ser.parent,
+                    index,
+                });
+            }
+            check_tag(index, &node_ser.op)?;
             hugr.add_node_with_parent(hugr_node(node_ser.parent), node_ser.op);
         }
 
+        let check_node = |what: &'static str, index: usize| {
+            if index < num_nodes {
+                Ok(())
+            } else {
+                Err(HUGRSerializationError::UnknownNode { what, index })
+            }
+        };
+
         if let Some(entrypoint) = entrypoint {
+            check_node("entrypoint", entrypoint.index())?;
             hugr.set_entrypoint(hugr_node(entrypoint));
         }
 
         if let Some(metadata) = metadata {
             for (node_idx, metadata) in metadata.into_iter().enumerate() {
                 if let Some(metadata) = metadata {
+                    check_node("metadata", node_idx)?;
                     let node = hugr_node(portgraph::NodeIndex::new(node_idx).into());
                     hugr.metadata[node.into_portgraph()] = Some(metadata);
                 }
@@ -299,9 +371,10 @@ impl TryFrom<SerHugrLatest> for Hugr {
         }
 
         let unwrap_offset = |node: Node, offset, dir, hugr: &Hugr| -> Result<usize, Self::Error> {
-            if !hugr.graph.contains_node(node.into_portgraph()) {
+            if node.index() >= num_nodes {
                 return Err(HUGRSerializationError::UnknownEdgeNode { node });
             }
+            let node = hugr_node(node);
             let offset = if let Some(offset) = offset {
                 offset as usize
             } else {
@@ -315,16 +388,21 @@ impl TryFrom<SerHugrLatest> for Hugr {
                     })?
                     .index()
             };
+            if offset >= hugr.graph.num_ports(node.into_portgraph(), dir) {
+                return Err(HUGRSerializationError::UnknownEdgePort {
+                    node,
+                    dir,
+                    offset,
+                    op_type: Box::new(hugr.get_optype(node).clone()),
+                });
+            }
             Ok(offset)
         };
         for [(src, from_offset), (dst, to_offset)] in edges {
-            let src = hugr_node(src);
-            let dst = hugr_node(dst);
-
             let src_port = unwrap_offset(src, from_offset, Direction::Outgoing, &hugr)?;
             let dst_port = unwrap_offset(dst, to_offset, Direction::Incoming, &hugr)?;
 
-            hugr.connect(src, src_port, dst, dst_port);
+            hugr.connect(hugr_node(src), src_port, hugr_node(dst), dst_port);
         }
 
         Ok(hugr)
-- 
2.43.0


From e922acb3073c000a2a496308a69928ccc2b6e585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 60/93] fix: storing an envelope finishes compression and
 flushes before it succeeds

---
 hugr-core/src/envelope/writer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/envelope/writer.rs b/hugr-core/src/envelope/writer.rs
index 9754741..5b95ae2 100644
--- a/hugr-core/src/envelope/writer.rs
+++ b/hugr-core/src/envelope/writer.rs
@@ -29,14 +29,18 @@ pub(super) fn write_envelope<'h>(
     match config.zstd {
         #[cfg(feature = "zstd")]
         Some(zstd) => {
-            let writer = zstd::Encoder::new(writer, zstd.level())?.auto_finish();
-            write_impl(writer, hugrs, extensions, config)?;
+            let mut encoder = zstd::Encoder::new(&mut writer, zstd.level())?;
+            write_impl(&mut encoder, hugrs, extensions, config)?;
+            encoder.finish()?;
         }
         #[cfg(not(feature = "zstd"))]
         Some(_) => return Err(WriteErrorInner::ZstdUnsupported.into()),
-        None => write_impl(writer, hugrs, extensions, config)?,
+        None => write_impl(&mut writer, hugrs, extensions, config)?,
     }
 
+    // The writer may be buffered. Errors are lost if it is flushed when dropped.
+    writer.flush()?;
+
     Ok(())
 }
 
-- 
2.43.0


From c6780d41067161e46230c95e9cc5a146b70063a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 61/93] fix: retry interrupted reads of the binary model format

---
 hugr-model/src/v0/binary/read.rs | 41 ++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/hugr-model/src/v0/binary/read.rs b/hugr-model/src/v0/binary/read.rs
index f1c2a55..ab46fb4 100644
--- a/hugr-model/src/v0/binary/read.rs
+++ b/hugr-model/src/v0/binary/read.rs
@@ -53,10 +53,47 @@ pub fn read_from_slice_with_suffix<'a>(
     Ok((package, suffix))
 }
 
+/// A reader that tries again when the underlying reader is interrupted.
+///
+/// The `capnp` decoder reports interruptions as errors.
+struct RetryInterrupted<R>(R);
+
+impl<R: BufRead> Read for RetryInterrupted<R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        loop {
+            match self.0.read(buf) {
+                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => {}
+                result => return result,
+            }
+        }
+    }
+}
+
+impl<R: BufRead> BufRead for RetryInterrupted<R> {
+    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
+        loop {
+            match self.0.fill_buf() {
+                Ok([]) => return Ok(&[]),
+                Ok(_) => break,
+                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => {}
+                Err(err) => return Err(err),
+            }
+        }
+        // The buffer is not empty, so this does not read again.
+        self.0.fill_buf()
+    }
+
+    fn consume(&mut self, amount: usize) {
+        self.0.consume(amount);
+    }
+}
+
 /// Read a hugr package from an impl of [`BufRead`].
 pub fn read_from_reader(reader: impl BufRead, bump: &Bump) -> ReadResult<table::Package<'_>> {
-    let reader =
-        capnp::serialize_packed::read_message(reader, capnp::message::ReaderOptions::new())?;
+    let reader = capnp::serialize_packed::read_message(
+        RetryInterrupted(reader),
+        capnp::message::ReaderOptions::new(),
+    )?;
     let root = reader.get_root::<hugr_capnp::package::Reader>()?;
     read_package(bump, root)
 }
-- 
2.43.0


From 3c2e83c3ad0ceec253ed4e635400fa6632fbcbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 62/93] fix: edge classes compare the topmost bracket

---
 hugr-passes/src/nest_cfgs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/nest_cfgs.rs b/hugr-passes/src/nest_cfgs.rs
index 7f456f8..f7c43f1 100644
--- a/hugr-passes/src/nest_cfgs.rs
+++ b/hugr-passes/src/nest_cfgs.rs
@@ -444,8 +444,9 @@ impl<T: Copy + Clone + PartialEq + Eq + Hash> BracketList<T> {
         self.size -= 1;
     }
 
+    /// Adds a bracket at the top of the list, i.e. the front (see [Self::tag])
     pub fn push(&mut self, e: Bracket<T>) {
-        self.items.push_back(e);
+        self.items.push_front(e);
         self.size += 1;
     }
 }
-- 
2.43.0


From abeb912a31fcf4e38927cc4e62f20e1dc938356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 63/93] fix: nesting control-flow graphs with self-loops,
 parallel edges or shared blocks

---
 hugr-passes/src/nest_cfgs.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/hugr-passes/src/nest_cfgs.rs b/hugr-passes/src/nest_cfgs.rs
index f7c43f1..c23ff3d 100644
--- a/hugr-passes/src/nest_cfgs.rs
+++ b/hugr-passes/src/nest_cfgs.rs
@@ -44,6 +44,7 @@ use std::hash::Hash;
 use itertools::Itertools;
 use thiserror::Error;
 
+use hugr_core::hugr::patch::PatchVerification;
 use hugr_core::hugr::patch::outline_cfg::OutlineCfg;
 use hugr_core::hugr::views::HugrView;
 use hugr_core::hugr::{Patch, hugrmut::HugrMut};
@@ -76,7 +77,8 @@ pub trait CfgNodeMap<T> {
 pub trait CfgNester<T>: CfgNodeMap<T> {
     /// Given an entry edge and exit edge defining a SESE region, mutates the
     /// Hugr such that all nodes between these edges are placed in a nested CFG.
-    /// Returns the newly-constructed block (containing a nested CFG).
+    /// Returns the newly-constructed block (containing a nested CFG); or, if the region
+    /// cannot be nested, the source of the exit edge, having left the Hugr unchanged.
     ///
     /// # Panics
     /// May panic if the two edges do not constitute a SESE region.
@@ -111,6 +113,7 @@ pub fn transform_cfg_to_nested<T: Copy + Eq + Hash + std::fmt::Debug>(
             }
             let (exit, rest): (Vec<_>, Vec<_>) = view
                 .successors(n)
+                .unique()
                 .map(|s| (n, s))
                 .partition(|e| stop_at.is_some() && edge_classes.get(e).copied() == stop_at);
             exit_edges.extend(exit.into_iter().at_most_one().unwrap());
@@ -250,14 +253,23 @@ impl<H: HugrMut<Node = Node>> CfgNester<H::Node> for IdentityCfgMap<H> {
         entry_edge: (H::Node, H::Node),
         exit_edge: (H::Node, H::Node),
     ) -> H::Node {
-        // The algorithm only calls with entry/exit edges for a SESE region; panic if they don't
-        let blocks = region_blocks(self, entry_edge, exit_edge).unwrap();
+        // The algorithm only calls with entry/exit edges for a SESE region among the blocks on
+        // paths to the exit. Other blocks (in exit-free loops) may be shared with the rest of the
+        // CFG, as may be values; in such cases, or if there are multiple exit edges between the
+        // same blocks, the region cannot be moved into a single block.
+        let Ok(blocks) = region_blocks(self, entry_edge, exit_edge) else {
+            return exit_edge.0;
+        };
         assert!(
             [entry_edge.0, entry_edge.1, exit_edge.0, exit_edge.1]
                 .iter()
                 .all(|n| self.h.get_parent(*n) == Some(self.h.entrypoint()))
         );
-        let [new_block, new_cfg] = OutlineCfg::new(blocks).apply(&mut self.h).unwrap();
+        let outline = OutlineCfg::new(blocks);
+        if outline.verify(&self.h).is_err() {
+            return exit_edge.0;
+        }
+        let [new_block, new_cfg] = outline.apply(&mut self.h).unwrap();
         debug_assert!(
             [entry_edge.0, exit_edge.1]
                 .iter()
@@ -381,7 +393,8 @@ impl<T: Copy + Clone + PartialEq + Eq + Hash> UndirectedDFSTree<T> {
                     }
                 }
             }
-            dfs_parents.remove(&cfg.entry_node()).unwrap();
+            // (The tree is empty if the exit cannot be reached from the entry)
+            dfs_parents.remove(&cfg.entry_node());
         }
         UndirectedDFSTree {
             dfs_num,
@@ -475,7 +488,9 @@ impl<T: Copy + Clone + PartialEq + Eq + Hash> EdgeClassifier<T> {
             capping_edges: HashMap::new(),
             edge_classes: HashMap::new(),
         };
-        s.traverse(cfg, &tree, cfg.entry_node());
+        if tree.dfs_num.contains_key(&cfg.entry_node()) {
+            s.traverse(cfg, &tree, cfg.entry_node());
+        }
         assert!(s.capping_edges.is_empty());
         s.edge_classes.remove(&(cfg.exit_node(), cfg.entry_node()));
         let mut cycle_class_idxs = HashMap::new();
@@ -534,10 +549,13 @@ impl<T: Copy + Clone + PartialEq + Eq + Hash> EdgeClassifier<T> {
             .partition(|(dfs, _)| *dfs < n_dfs);
 
         // Remove edges to here from beneath
-        for (_, e) in be_down {
+        for (dfs, e) in be_down {
             let e = cfg_edge(n, e);
             let b = Bracket::Real(e);
-            bs.delete(&b, &mut self.deleted_backedges);
+            // (An edge from here to here has not been added as a bracket)
+            if dfs != n_dfs {
+                bs.delete(&b, &mut self.deleted_backedges);
+            }
             // Last chance to assign an edge class! This will be a singleton class,
             // but assign for consistency with other singletons.
             self.edge_classes.entry(e).or_insert_with(|| Some((b, 0)));
-- 
2.43.0


From eade7a304248559a69d205832a248d3104b33f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 64/93] fix: order the effects of merged blocks that pass no
 values

---
 hugr-passes/src/normalize_cfgs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-passes/src/normalize_cfgs.rs b/hugr-passes/src/normalize_cfgs.rs
index 20d2494..66d9267 100644
--- a/hugr-passes/src/normalize_cfgs.rs
+++ b/hugr-passes/src/normalize_cfgs.rs
@@ -398,7 +398,7 @@ fn mk_rep<H: HugrView>(
         .collect::<Vec<_>>();
 
     let dfg_order_out = replacement.get_optype(dfg1).other_output_port().unwrap();
-    let order_srcs = (dfg1_outs.is_empty()).then_some((dfg1, dfg_order_out));
+    let order_srcs = (succ_sig.input().is_empty()).then_some((dfg1, dfg_order_out));
     // Do not add Order edges between DFGs unless there are no value edges
     wire_unpack_first(&mut replacement, dfg1_outs, order_srcs, dfg2);
 
-- 
2.43.0


From dc31f6336320872b7be6a0f214d9c89d252fb1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 65/93] fix: keep the users of a normalised CFG whose number of
 outputs shrinks

---
 hugr-passes/src/normalize_cfgs.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hugr-passes/src/normalize_cfgs.rs b/hugr-passes/src/normalize_cfgs.rs
index 66d9267..3d4d307 100644
--- a/hugr-passes/src/normalize_cfgs.rs
+++ b/hugr-passes/src/normalize_cfgs.rs
@@ -288,6 +288,13 @@ pub fn normalize_cfg<H: HugrMut>(
         let pred_blk = h.get_optype(pred).as_dataflow_block().unwrap();
         let new_cfg_outs = pred_blk.inner_signature().into_owned().input;
 
+        // Disconnect users of the CFG's outputs (before changing the number of ports)
+        let mut old_out_edges = Vec::new();
+        for p in h.node_outputs(cfg_node).collect_vec() {
+            old_out_edges.extend(h.linked_inputs(cfg_node, p).map(|tgt| (p, tgt)));
+            h.disconnect(cfg_node, p);
+        }
+
         // new CFG result type and exit block
         let cfg_ty = cfg_ty_mut(h, cfg_node);
         let result_tys = std::mem::replace(&mut cfg_ty.signature.output, new_cfg_outs.clone());
@@ -319,12 +326,8 @@ pub fn normalize_cfg<H: HugrMut>(
         unpack_before_output(h, output, result_tys);
 
         // Move output edges.
-        for p in h.node_outputs(cfg_node).collect_vec() {
-            let tgts = h.linked_inputs(cfg_node, p).collect_vec();
-            h.disconnect(cfg_node, p);
-            for tgt in tgts {
-                h.connect(dfg, p, tgt.0, tgt.1)
-            }
+        for (p, tgt) in old_out_edges {
+            h.connect(dfg, p, tgt.0, tgt.1)
         }
         for p in h.node_inputs(dfg).collect_vec() {
             h.connect(cfg_node, p.index(), dfg, p);
-- 
2.43.0


From 62d8ffb41d812e9d373e81fc3cf398d237f7c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 66/93] fix: order edges for non-local values of merged or
 moved blocks

---
 hugr-passes/src/normalize_cfgs.rs | 43 ++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/normalize_cfgs.rs b/hugr-passes/src/normalize_cfgs.rs
index 3d4d307..dc1972f 100644
--- a/hugr-passes/src/normalize_cfgs.rs
+++ b/hugr-passes/src/normalize_cfgs.rs
@@ -52,6 +52,11 @@ pub fn merge_basic_blocks<H: HugrMut>(cfg: &mut H) -> Result<usize, NormalizeCFG
             continue;
         }
         num_merged += 1;
+        // `Dom` edges from n into regions nested inside succ become `Ext` edges
+        let nested = cfg
+            .children(succ)
+            .filter(|ch| cfg.first_child(*ch).is_some())
+            .collect::<Vec<_>>();
         let (rep, merge_bb, dfgs) = mk_rep(cfg, n, succ);
         let node_map = cfg.apply_patch(rep).unwrap();
         let merged_bb = *node_map.get(&merge_bb).unwrap();
@@ -59,6 +64,9 @@ pub fn merge_basic_blocks<H: HugrMut>(cfg: &mut H) -> Result<usize, NormalizeCFG
             let n_id = *node_map.get(&dfg_id).unwrap();
             cfg.apply_patch(InlineDFG(n_id.into())).unwrap();
         }
+        for container in nested {
+            order_ext_edges(cfg, container);
+        }
         worklist.push(merged_bb);
     }
     Ok(num_merged)
@@ -271,12 +279,17 @@ pub fn normalize_cfg<H: HugrMut>(
         }
         entry_nodes_moved.extend(h.children(dfg).skip(2)); // Skip Input/Output nodes
         h.apply_patch(InlineDFG(dfg.into())).unwrap();
+        // Reinstate Order edges (redirected to the DFG, above) required by `Ext` edges into the CFG
+        order_ext_edges(h, cfg_node);
     }
     // 2. If the exit node has a single predecessor and that predecessor has no other successors...
     let mut exit_dfg = None;
     if let Some(pred) = h.input_neighbours(exit).exactly_one().ok().filter(|pred| {
         // Allow only if there are no `Dom` edges into `pred`. (Ignore `Ext` edges.)
-        let src_nodes = h.children(*pred).flat_map(|ch| h.input_neighbours(ch));
+        let src_nodes = h
+            .descendants(*pred)
+            .skip(1)
+            .flat_map(|n| h.input_neighbours(n));
         h.output_neighbours(*pred).count() == 1
             && src_nodes.dedup().all(|src| {
                 ancestor_block(h, src).is_none_or(|src| src == *pred) // Nones are `Ext` edges.
@@ -323,6 +336,8 @@ pub fn normalize_cfg<H: HugrMut>(
         while let Some(n) = h.first_child(pred) {
             h.set_parent(n, dfg);
         }
+        // `Ext` edges from siblings of the CFG into the block are now into the DFG
+        order_ext_edges(h, dfg);
         unpack_before_output(h, output, result_tys);
 
         // Move output edges.
@@ -341,6 +356,32 @@ pub fn normalize_cfg<H: HugrMut>(
     })
 }
 
+/// Adds the Order edges to `container` that are required by `Ext` edges from its
+/// siblings (including Input) to its descendants, where missing.
+fn order_ext_edges<H: HugrMut>(h: &mut H, container: H::Node) {
+    let parent = h.get_parent(container).unwrap();
+    let ext_srcs = h
+        .descendants(container)
+        .skip(1)
+        .flat_map(|n| h.all_linked_outputs(n))
+        .filter(|(src, p)| {
+            h.get_parent(*src) == Some(parent)
+                && matches!(h.get_optype(*src).port_kind(*p), Some(EdgeKind::Value(_)))
+        })
+        .map(|(src, _)| src)
+        .unique()
+        .collect_vec();
+    let order_port = h.get_optype(container).other_input_port().unwrap();
+    for src in ext_srcs {
+        if !h
+            .linked_outputs(container, order_port)
+            .any(|(n, _)| n == src)
+        {
+            h.add_other_edge(src, container);
+        }
+    }
+}
+
 fn mk_rep<H: HugrView>(
     cfg: &H,
     pred: H::Node,
-- 
2.43.0


From 5b6da304fbc7ee8f6a10e180cfbca13c2903e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 67/93] fix: report malformed links of an exit block on import

---
 hugr-core/src/import.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/import.rs b/hugr-core/src/import.rs
index fce60d8..9d2dffc 100644
--- a/hugr-core/src/import.rs
+++ b/hugr-core/src/import.rs
@@ -1060,7 +1060,7 @@ impl<'a> Context<'a> {
             let exit = self
                 .hugr
                 .add_node_with_parent(node, OpType::ExitBlock(ExitBlock { cfg_outputs }));
-            self.record_links(exit, Direction::Incoming, region_data.targets);
+            self.record_links(exit, Direction::Incoming, region_data.targets)?;
         }
 
         // Finally we import all other nodes.
-- 
2.43.0


From ff97ab0c67be2d4e0c7a6df888e8a05862bc6687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 68/93] fix: insert forest nodes without a parent as documented
 instead of panicking

---
 hugr-core/src/hugr/hugrmut.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 04a4b23..a7f827e 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -729,9 +729,11 @@ fn insert_forest_internal<H: HugrView>(
     for old in other_nodes {
         let new = node_map[&old];
         if hugr.get_parent(new).is_none() {
-            let old_parent = other.get_parent(old).unwrap();
-            let new_parent = node_map[&old_parent];
-            hugr.set_parent(new, new_parent);
+            // Nodes that are not roots, and whose parent is not inserted, stay without a parent.
+            let new_parent = other.get_parent(old).and_then(|p| node_map.get(&p));
+            if let Some(&new_parent) = new_parent {
+                hugr.set_parent(new, new_parent);
+            }
         }
     }
     Ok(InsertedForest { node_map })
-- 
2.43.0


From 9d41cb5a11c960e794786cc0ae5f58b3c45111fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 69/93] fix: insert linked module children and forests in
 hierarchy order

---
 hugr-core/src/hugr/hugrmut.rs | 19 ++++++++++++-------
 hugr-core/src/hugr/linking.rs | 24 ++++++++++++++++--------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index a7f827e..cae370a 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -3,6 +3,7 @@
 use std::collections::{BTreeMap, HashMap, VecDeque};
 use std::sync::Arc;
 
+use indexmap::IndexMap;
 use portgraph::{LinkMut, PortMut, PortView, SecondaryMap};
 
 use crate::core::HugrNode;
@@ -552,7 +553,8 @@ impl HugrMut for Hugr {
         mut other: Hugr,
         root_parents: impl IntoIterator<Item = (Node, Self::Node)>,
     ) -> InsertForestResult<Node, Self::Node> {
-        let roots: HashMap<_, _> = root_parents.into_iter().collect();
+        // Roots are inserted in the order given.
+        let roots: IndexMap<_, _> = root_parents.into_iter().collect();
         for &subtree in roots.keys() {
             let mut n = subtree;
             while let Some(parent) = other.get_parent(n) {
@@ -726,12 +728,15 @@ fn insert_forest_internal<H: HugrView>(
     for (r, p) in root_parents {
         hugr.set_parent(node_map[&r], p);
     }
-    for old in other_nodes {
-        let new = node_map[&old];
-        if hugr.get_parent(new).is_none() {
-            // Nodes that are not roots, and whose parent is not inserted, stay without a parent.
-            let new_parent = other.get_parent(old).and_then(|p| node_map.get(&p));
-            if let Some(&new_parent) = new_parent {
+    // Place the other nodes under their copied parents, as ordered in `other`. Nodes that
+    // are not roots, and whose parent is not inserted, stay without a parent.
+    for old_parent in other_nodes {
+        let new_parent = node_map[&old_parent];
+        for old in other.children(old_parent) {
+            let Some(&new) = node_map.get(&old) else {
+                continue;
+            };
+            if hugr.get_parent(new).is_none() {
                 hugr.set_parent(new, new_parent);
             }
         }
diff --git a/hugr-core/src/hugr/linking.rs b/hugr-core/src/hugr/linking.rs
index f20c006..9b78b45 100644
--- a/hugr-core/src/hugr/linking.rs
+++ b/hugr-core/src/hugr/linking.rs
@@ -48,12 +48,15 @@ pub trait HugrLinking: HugrMut {
                     NodeLinkingDirective::Add { .. } => Either::Left(other.descendants(ch)),
                     NodeLinkingDirective::UseExisting(_) => Either::Right(std::iter::once(ch)),
                 }));
-        let mut roots = HashMap::new();
+        let mut roots = Vec::new();
         if let Some(parent) = parent {
-            roots.insert(other.entrypoint(), parent);
+            roots.push((other.entrypoint(), parent));
         }
-        for ch in children.keys() {
-            roots.insert(*ch, self.module_root());
+        // Insert the module-children in the order they have in `other`.
+        for ch in other.children(other.module_root()) {
+            if children.contains_key(&ch) {
+                roots.push((ch, self.module_root()));
+            }
         }
         let mut inserted = self
             .insert_view_forest(other, nodes, roots)
@@ -84,13 +87,18 @@ pub trait HugrLinking: HugrMut {
         children: NodeLinkingDirectives<Node, Self::Node>,
     ) -> Result<InsertedForest<Node, Self::Node>, NodeLinkingError<Node, Self::Node>> {
         let transfers = check_directives(&other, parent, &children)?;
-        let mut roots = HashMap::new();
+        let mut roots = Vec::new();
         if let Some(parent) = parent {
-            roots.insert(other.entrypoint(), parent);
+            roots.push((other.entrypoint(), parent));
             other.set_parent(other.entrypoint(), other.module_root());
         };
-        for (ch, dirv) in children.iter() {
-            roots.insert(*ch, self.module_root());
+        // Insert the module-children in the order they have in `other`.
+        let module_children = other.children(other.module_root()).collect::<Vec<_>>();
+        for ch in &module_children {
+            let Some(dirv) = children.get(ch) else {
+                continue;
+            };
+            roots.push((*ch, self.module_root()));
             if matches!(dirv, NodeLinkingDirective::UseExisting(_)) {
                 // We do not need to copy the children of ch
                 while let Some(gch) = other.first_child(*ch) {
-- 
2.43.0


From 92db293dfd089e45440b59ee4978b40cd95bac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:58 +0000
Subject: [PATCH 70/93] fix: link HUGRs whose entrypoint is the module root or
 is not inserted

---
 hugr-core/src/hugr/linking.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/linking.rs b/hugr-core/src/hugr/linking.rs
index 9b78b45..051d73c 100644
--- a/hugr-core/src/hugr/linking.rs
+++ b/hugr-core/src/hugr/linking.rs
@@ -90,8 +90,12 @@ pub trait HugrLinking: HugrMut {
         let mut roots = Vec::new();
         if let Some(parent) = parent {
             roots.push((other.entrypoint(), parent));
-            other.set_parent(other.entrypoint(), other.module_root());
+            if other.entrypoint() != other.module_root() {
+                other.set_parent(other.entrypoint(), other.module_root());
+            }
         };
+        // The entrypoint may be among the nodes removed below.
+        other.set_entrypoint(other.module_root());
         // Insert the module-children in the order they have in `other`.
         let module_children = other.children(other.module_root()).collect::<Vec<_>>();
         for ch in &module_children {
-- 
2.43.0


From f05e77c8211e3b6d6b4732090d322034a2129092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:00 +0000
Subject: [PATCH 71/93] fix: refuse to replace nodes that contain the insertion
 point or the entrypoint

---
 hugr-core/src/hugr/linking.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/hugr-core/src/hugr/linking.rs b/hugr-core/src/hugr/linking.rs
index 051d73c..1723b4b 100644
--- a/hugr-core/src/hugr/linking.rs
+++ b/hugr-core/src/hugr/linking.rs
@@ -28,6 +28,7 @@ pub trait HugrLinking: HugrMut {
     /// * If `parent` is Some, and `other.entrypoint()` is either
     ///   * among `children`, or
     ///   * descends from an element of `children` with [NodeLinkingDirective::Add]
+    /// * If a node to be replaced contains `parent` or this graph's entrypoint
     ///
     /// # Panics
     ///
@@ -40,6 +41,7 @@ pub trait HugrLinking: HugrMut {
         children: NodeLinkingDirectives<H::Node, Self::Node>,
     ) -> Result<InsertedForest<H::Node, Self::Node>, NodeLinkingError<H::Node, Self::Node>> {
         let transfers = check_directives(other, parent, &children)?;
+        check_replaced(self, parent, &transfers)?;
         let nodes =
             parent
                 .iter()
@@ -76,6 +78,7 @@ pub trait HugrLinking: HugrMut {
     /// * If `children` are not `children` of the root of `other`
     /// * If `other`s entrypoint is among `children`, or descends from an element
     ///   of `children` with [NodeLinkingDirective::Add]
+    /// * If a node to be replaced contains `parent` or this graph's entrypoint
     ///
     /// # Panics
     ///
@@ -87,6 +90,7 @@ pub trait HugrLinking: HugrMut {
         children: NodeLinkingDirectives<Node, Self::Node>,
     ) -> Result<InsertedForest<Node, Self::Node>, NodeLinkingError<Node, Self::Node>> {
         let transfers = check_directives(&other, parent, &children)?;
+        check_replaced(self, parent, &transfers)?;
         let mut roots = Vec::new();
         if let Some(parent) = parent {
             roots.push((other.entrypoint(), parent));
@@ -144,6 +148,12 @@ pub enum NodeLinkingError<SN: Display = Node, TN: Display = Node> {
     /// inserted nodes (it is not clear to which we should transfer edges).
     #[error("Target node {_0} is to be replaced by two source nodes {_1} and {_2}")]
     NodeMultiplyReplaced(TN, SN, SN),
+    /// A node in the target Hugr was in a [NodeLinkingDirective::Add::replace] although
+    /// the node to insert under, or the target's entrypoint, is in its subtree.
+    #[error(
+        "Target node {_0} cannot be replaced as it contains the insertion point or the entrypoint"
+    )]
+    ReplacedNodeInUse(TN),
 }
 
 /// Directive for how to treat a particular module-child in the source Hugr.
@@ -263,6 +273,24 @@ fn check_directives<SRC: HugrView, TN: HugrNode>(
     Ok(trns)
 }
 
+/// Check that no node to be replaced contains the `parent` to insert under, or the entrypoint.
+fn check_replaced<SN: HugrNode, TGT: HugrView + ?Sized>(
+    hugr: &TGT,
+    parent: Option<TGT::Node>,
+    transfers: &Transfers<SN, TGT::Node>,
+) -> Result<(), NodeLinkingError<SN, TGT::Node>> {
+    for start in parent.into_iter().chain([hugr.entrypoint()]) {
+        let mut node = Some(start);
+        while let Some(n) = node {
+            if transfers.replace.contains_key(&n) {
+                return Err(NodeLinkingError::ReplacedNodeInUse(n));
+            }
+            node = hugr.get_parent(n);
+        }
+    }
+    Ok(())
+}
+
 fn link_by_node<SN: HugrNode, TGT: HugrLinking + ?Sized>(
     hugr: &mut TGT,
     transfers: Transfers<SN, TGT::Node>,
-- 
2.43.0


From bfd5ffeec495df932b5c5a25d44ff4f639791d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:01 +0000
Subject: [PATCH 72/93] fix: resolve the extensions of alias definitions

---
 hugr-core/src/extension/resolution/types.rs     | 3 ++-
 hugr-core/src/extension/resolution/types_mut.rs | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/extension/resolution/types.rs b/hugr-core/src/extension/resolution/types.rs
index 45866d5..7c4f11f 100644
--- a/hugr-core/src/extension/resolution/types.rs
+++ b/hugr-core/src/extension/resolution/types.rs
@@ -107,8 +107,9 @@ pub(crate) fn collect_op_types_extensions(
         OpType::Case(case) => {
             collect_signature_exts(&case.signature, &mut used, &mut missing);
         }
+        OpType::AliasDefn(a) => collect_type_exts(&a.definition, &mut used, &mut missing),
         // Ignore optypes that do not store a signature.
-        OpType::Module(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) => {}
+        OpType::Module(_) | OpType::AliasDecl(_) => {}
     }
 
     if missing.is_empty() {
diff --git a/hugr-core/src/extension/resolution/types_mut.rs b/hugr-core/src/extension/resolution/types_mut.rs
index 359241f..83b4221 100644
--- a/hugr-core/src/extension/resolution/types_mut.rs
+++ b/hugr-core/src/extension/resolution/types_mut.rs
@@ -119,8 +119,11 @@ pub fn resolve_op_types_extensions(
         OpType::Case(case) => {
             resolve_signature_exts(node, &mut case.signature, extensions, used_extensions)?;
         }
+        OpType::AliasDefn(a) => {
+            resolve_type_exts(node, &mut a.definition, extensions, used_extensions)?;
+        }
         // Ignore optypes that do not store a signature.
-        OpType::Module(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) => {}
+        OpType::Module(_) | OpType::AliasDecl(_) => {}
     }
     Ok(used.into_iter())
 }
-- 
2.43.0


From 2ad6cf4814d90060537d2f41b0abeab53eaa7255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:00 +0000
Subject: [PATCH 73/93] fix: resolve loaded extensions to the version that the
 registry keeps

---
 hugr-core/src/extension.rs                        |  4 +++-
 hugr-core/src/extension/resolution/extension.rs   | 10 ++++++----
 .../src/extension/resolution/weak_registry.rs     | 15 +++++++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/extension.rs b/hugr-core/src/extension.rs
index c6dc2be..2dbc197 100644
--- a/hugr-core/src/extension.rs
+++ b/hugr-core/src/extension.rs
@@ -283,7 +283,9 @@ impl ExtensionRegistry {
 
         let mut weak_registry = WeakExtensionRegistry::default();
         for (ext, weak) in extensions.iter().zip(weaks) {
-            weak_registry.register(ext.name().clone(), weak);
+            // Of several extensions with the same name, use the one that
+            // `register_updated` will keep in the final registry.
+            weak_registry.register_updated(ext.name().clone(), weak);
         }
 
         // Actual initialization here
diff --git a/hugr-core/src/extension/resolution/extension.rs b/hugr-core/src/extension/resolution/extension.rs
index 05c0faf..4cb9002 100644
--- a/hugr-core/src/extension/resolution/extension.rs
+++ b/hugr-core/src/extension/resolution/extension.rs
@@ -29,12 +29,14 @@ impl ExtensionRegistry {
         other_extensions: &WeakExtensionRegistry,
     ) -> Result<ExtensionRegistry, ExtensionResolutionError> {
         Self::new_cyclic(extensions, |mut exts, weak_registry| {
-            let mut weak_registry = weak_registry.clone();
-            for (other_id, other) in other_extensions.iter() {
-                weak_registry.register(other_id.clone(), other.clone());
+            // Prefer the other extensions over those in the list, unless the
+            // list contains a newer version.
+            let mut all_extensions = other_extensions.clone();
+            for (id, ext) in weak_registry.iter() {
+                all_extensions.register_updated(id.clone(), ext.clone());
             }
             for ext in &mut exts {
-                ext.resolve_references(&weak_registry)?;
+                ext.resolve_references(&all_extensions)?;
             }
             Ok(exts)
         })
diff --git a/hugr-core/src/extension/resolution/weak_registry.rs b/hugr-core/src/extension/resolution/weak_registry.rs
index e5b4e91..109251b 100644
--- a/hugr-core/src/extension/resolution/weak_registry.rs
+++ b/hugr-core/src/extension/resolution/weak_registry.rs
@@ -49,6 +49,21 @@ impl WeakExtensionRegistry {
         self.exts.insert(id, ext.into()).is_none()
     }
 
+    /// Register an extension in the registry, keeping the one most up to date
+    /// if there already is an extension with that name.
+    ///
+    /// If versions match, the original extension is kept. This is the choice
+    /// that [`ExtensionRegistry::register_updated`] makes.
+    pub(crate) fn register_updated(&mut self, id: ExtensionId, ext: Weak<Extension>) {
+        let version = |ext: &Weak<Extension>| ext.upgrade().map(|ext| ext.version().clone());
+        match self.exts.get(&id) {
+            Some(prev) if version(prev) >= version(&ext) => {}
+            _ => {
+                self.exts.insert(id, ext);
+            }
+        }
+    }
+
     /// Returns an iterator over the weak references in the registry and their ids.
     pub fn iter(&self) -> impl Iterator<Item = (&ExtensionId, &Weak<Extension>)> {
         self.exts.iter()
-- 
2.43.0


From 4cf002bae0179435fa99afddf955376e6833be8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:00 +0000
Subject: [PATCH 74/93] fix: do not panic when loading operations that use
 missing types

---
 hugr-core/src/types/custom.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/types/custom.rs b/hugr-core/src/types/custom.rs
index 248e0f6..c0993e5 100644
--- a/hugr-core/src/types/custom.rs
+++ b/hugr-core/src/types/custom.rs
@@ -114,10 +114,12 @@ impl CustomType {
             .map(|arg| arg.substitute(tr))
             .collect::<Vec<_>>();
         let ext = self.get_extension().unwrap_or_else(|e| panic!("{}", e));
+        // The extension may be a version that does not define the type, e.g. in
+        // the signature of an operation that has just been loaded. Validation
+        // reports that, so keep the declared bound until then.
         let bound = self
             .get_type_def(&ext)
-            .expect("validate should rule this out")
-            .bound(&args);
+            .map_or(self.bound, |def| def.bound(&args));
         debug_assert!(self.bound.contains(bound));
         Self {
             args,
-- 
2.43.0


From c58819d4b979c6d8fb6c820dd628c143500ec254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:39 +0000
Subject: [PATCH 75/93] fix: validate the signatures of operations without a
 custom validator

---
 hugr-core/src/extension/op_def.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/extension/op_def.rs b/hugr-core/src/extension/op_def.rs
index c1e19b5..d92301c 100644
--- a/hugr-core/src/extension/op_def.rs
+++ b/hugr-core/src/extension/op_def.rs
@@ -462,11 +462,13 @@ impl OpDef {
     pub(super) fn validate(&self) -> Result<(), SignatureError> {
         // TODO https://github.com/CQCL/hugr/issues/624 validate declared TypeParams
         // for both type scheme and custom binary
-        if let SignatureFunc::CustomValidator(ts) = &self.signature_func {
+        if let SignatureFunc::CustomValidator(CustomValidator { poly_func, .. })
+        | SignatureFunc::PolyFuncType(poly_func) = &self.signature_func
+        {
             // The type scheme may contain row variables so be of variable length;
             // these will have to be substituted to fixed-length concrete types when
             // the OpDef is instantiated into an actual OpType.
-            ts.poly_func.validate()?;
+            poly_func.validate()?;
         }
         Ok(())
     }
-- 
2.43.0


From 8f43a54d5acaaed4786afbac511b86971f785fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:35 +0000
Subject: [PATCH 76/93] fix: bound the node indices of petgraph adaptors by the
 largest index

---
 hugr-core/src/hugr/views/petgraph.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/views/petgraph.rs b/hugr-core/src/hugr/views/petgraph.rs
index bff727b..998b070 100644
--- a/hugr-core/src/hugr/views/petgraph.rs
+++ b/hugr-core/src/hugr/views/petgraph.rs
@@ -66,7 +66,11 @@ where
     T::Node: NodeIndex + From<portgraph::NodeIndex>,
 {
     fn node_bound(&self) -> usize {
-        HugrView::num_nodes(self.hugr)
+        // Node indices are not contiguous after a node has been removed.
+        HugrView::nodes(self.hugr)
+            .map(|n| n.index() + 1)
+            .max()
+            .unwrap_or(0)
     }
 
     fn to_index(&self, ix: Self::NodeId) -> usize {
-- 
2.43.0


From c18a71f047935fd6175153327a9b09d477c01071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:35 +0000
Subject: [PATCH 77/93] fix: keep type parameters and order edges when changing
 the signature of a region

---
 hugr-core/src/hugr/views/root_checked/dfg.rs | 60 ++++++++++++++------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/hugr-core/src/hugr/views/root_checked/dfg.rs b/hugr-core/src/hugr/views/root_checked/dfg.rs
index c27b996..0b6fdbe 100644
--- a/hugr-core/src/hugr/views/root_checked/dfg.rs
+++ b/hugr-core/src/hugr/views/root_checked/dfg.rs
@@ -6,13 +6,13 @@ use itertools::Itertools;
 use thiserror::Error;
 
 use crate::{
-    IncomingPort, OutgoingPort, Port, PortIndex,
+    Direction, IncomingPort, OutgoingPort, Port, PortIndex,
     hugr::HugrMut,
     ops::{
         OpParent, OpTrait, OpType,
         handle::{DataflowParentID, DfgID},
     },
-    types::{NoRV, Signature, Type, TypeBase},
+    types::{EdgeKind, NoRV, PolyFuncType, Signature, Type, TypeBase},
 };
 
 use super::RootChecked;
@@ -57,14 +57,15 @@ macro_rules! impl_dataflow_parent_methods {
                 let [inp, out] = self.get_io();
                 let Self(hugr, _) = self;
 
-                // Record the old connections from and to the input and output nodes
+                // Record the old connections from and to the value ports of the
+                // input and output nodes
                 let old_inputs_incoming = hugr
-                    .node_outputs(inp)
-                    .map(|p| hugr.linked_inputs(inp, p).collect_vec())
+                    .out_value_types(inp)
+                    .map(|(p, _)| hugr.linked_inputs(inp, p).collect_vec())
                     .collect_vec();
                 let old_outputs_outgoing = hugr
-                    .node_inputs(out)
-                    .map(|p| hugr.linked_outputs(out, p).collect_vec())
+                    .in_value_types(out)
+                    .map(|(p, _)| hugr.linked_outputs(out, p).collect_vec())
                     .collect_vec();
 
                 // The old signature types
@@ -94,9 +95,9 @@ macro_rules! impl_dataflow_parent_methods {
                     .collect_vec();
                 let new_sig = Signature::new(new_inp_sig, new_out_sig);
 
-                // Remove all edges of the input and output nodes
-                disconnect_all(hugr, inp);
-                disconnect_all(hugr, out);
+                // Remove all value edges of the input and output nodes
+                disconnect_values(hugr, inp);
+                disconnect_values(hugr, out);
 
                 // Update the signatures of the IO and their ancestors
                 let mut is_ancestor = false;
@@ -228,7 +229,7 @@ fn update_inner_dfg_links<H: HugrMut>(hugr: &mut H, node: H::Node) {
         .expect("no non-trivial inner DFG");
 
     let [inp, out] = hugr.get_io(node).expect("valid DFG graph");
-    disconnect_all(hugr, inner_dfg);
+    disconnect_values(hugr, inner_dfg);
     for (out_port, _) in hugr.out_value_types(inp).collect_vec() {
         hugr.connect(inp, out_port, inner_dfg, out_port.index());
     }
@@ -237,19 +238,38 @@ fn update_inner_dfg_links<H: HugrMut>(hugr: &mut H, node: H::Node) {
     }
 }
 
-fn disconnect_all<H: HugrMut>(hugr: &mut H, node: H::Node) {
-    let all_ports = hugr.all_node_ports(node).collect_vec();
-    for port in all_ports {
-        hugr.disconnect(node, port);
+/// Remove all value edges of a node.
+fn disconnect_values<H: HugrMut>(hugr: &mut H, node: H::Node) {
+    for dir in Direction::BOTH {
+        for (port, _) in hugr.value_types(node, dir).collect_vec() {
+            hugr.disconnect(node, port);
+        }
     }
 }
 
 fn update_signature<H: HugrMut>(hugr: &mut H, node: H::Node, new_sig: &Signature) {
+    // The order edges are attached to the port after the value ports, so they
+    // have to be moved when the number of values changes.
+    let order_edges = Direction::BOTH.map(|dir| {
+        let port = hugr.get_optype(node).other_port(dir);
+        let Some(port) = port
+            .filter(|_| hugr.get_optype(node).other_port_kind(dir) == Some(EdgeKind::StateOrder))
+        else {
+            return vec![];
+        };
+        let others = hugr.linked_ports(node, port).map(|(n, _)| n).collect_vec();
+        hugr.disconnect(node, port);
+        others
+    });
+
     match hugr.optype_mut(node) {
         OpType::DFG(dfg) => {
             dfg.signature = new_sig.clone();
         }
-        OpType::FuncDefn(fn_def_op) => *fn_def_op.signature_mut() = new_sig.clone().into(),
+        OpType::FuncDefn(fn_def_op) => {
+            let signature = fn_def_op.signature_mut();
+            *signature = PolyFuncType::new(signature.params().to_vec(), new_sig.clone());
+        }
         OpType::Input(inp) => {
             inp.types = new_sig.input().clone();
         }
@@ -258,6 +278,14 @@ fn update_signature<H: HugrMut>(hugr: &mut H, node: H::Node, new_sig: &Signature
     };
     let new_op = hugr.get_optype(node);
     hugr.set_num_ports(node, new_op.input_count(), new_op.output_count());
+
+    let [before, after] = order_edges;
+    for other in before {
+        hugr.add_other_edge(other, node);
+    }
+    for other in after {
+        hugr.add_other_edge(node, other);
+    }
 }
 
 fn check_valid_inputs<V>(
-- 
2.43.0


From 0f5d691664d2e8ae6c7a39658fd449c55741b5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:03 +0000
Subject: [PATCH 78/93] fix: substitute row variables by spliced lists and list
 variables

---
 hugr-core/src/types.rs | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/hugr-core/src/types.rs b/hugr-core/src/types.rs
index 3bb307b..d570168 100644
--- a/hugr-core/src/types.rs
+++ b/hugr-core/src/types.rs
@@ -15,7 +15,7 @@ use crate::extension::resolution::{
     ExtensionCollectionError, WeakExtensionRegistry, collect_type_exts,
 };
 pub use crate::ops::constant::{ConstTypeError, CustomCheckFailure};
-use crate::types::type_param::check_term_type;
+use crate::types::type_param::{SeqPart, check_term_type};
 use crate::utils::display_list_with_separator;
 pub use check::SumTypeError;
 pub use custom::CustomType;
@@ -752,28 +752,20 @@ impl<'a> Substitution<'a> {
             .get(idx)
             .expect("Undeclared type variable - call validate() ?");
         debug_assert!(check_term_type(arg, &TypeParam::new_list_type(bound)).is_ok());
-        match arg {
-            TypeArg::List(elems) => elems
-                .iter()
-                .map(|ta| {
-                    match ta {
-                        Term::Runtime(ty) => return ty.clone().into(),
-                        Term::Variable(v) => {
-                            if let Some(b) = v.bound_if_row_var() {
-                                return TypeRV::new_row_var_use(v.index(), b);
-                            }
-                        }
-                        _ => (),
-                    }
-                    panic!("Not a list of types - call validate() ?")
-                })
-                .collect(),
-            Term::Runtime(ty) if matches!(ty.0, TypeEnum::RowVar(_)) => {
-                // Standalone "Type" can be used iff its actually a Row Variable not an actual (single) Type
-                vec![ty.clone().into()]
-            }
-            _ => panic!("Not a type or list of types - call validate() ?"),
-        }
+        // The argument may splice lists, including list variables of the target context.
+        arg.clone()
+            .into_list_parts()
+            .map(|part| match part {
+                SeqPart::Item(Term::Runtime(ty)) => ty.into(),
+                SeqPart::Item(Term::Variable(v)) | SeqPart::Splice(Term::Variable(v)) => {
+                    let bound = v
+                        .bound_if_row_var()
+                        .expect("Not a list of types - call validate() ?");
+                    TypeRV::new_row_var_use(v.index(), bound)
+                }
+                _ => panic!("Not a type or list of types - call validate() ?"),
+            })
+            .collect()
     }
 }
 
-- 
2.43.0


From 3befe4998c3c51309c9af642bffcf296c5660a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:03 +0000
Subject: [PATCH 79/93] fix: substituting in a tuple type gives a tuple type

---
 hugr-core/src/types/type_param.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/types/type_param.rs b/hugr-core/src/types/type_param.rs
index b539e55..9690c09 100644
--- a/hugr-core/src/types/type_param.rs
+++ b/hugr-core/src/types/type_param.rs
@@ -446,7 +446,7 @@ impl Term {
             Term::BytesType => self.clone(),
             Term::FloatType => self.clone(),
             Term::ListType(item_type) => Term::new_list_type(item_type.substitute(t)),
-            Term::TupleType(item_types) => Term::new_list_type(item_types.substitute(t)),
+            Term::TupleType(item_types) => Term::new_tuple_type(item_types.substitute(t)),
             Term::StaticType => self.clone(),
             Term::ConstType(ty) => Term::new_const(ty.substitute1(t)),
         }
-- 
2.43.0


From 5fffa108460f47e2ea70cf574d4d9b32aeb03b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:03 +0000
Subject: [PATCH 80/93] fix: make the subtyping of terms reflexive

---
 hugr-core/src/types/type_param.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/types/type_param.rs b/hugr-core/src/types/type_param.rs
index 9690c09..a30aea8 100644
--- a/hugr-core/src/types/type_param.rs
+++ b/hugr-core/src/types/type_param.rs
@@ -212,7 +212,8 @@ impl Term {
             (Term::Tuple(es1), Term::Tuple(es2)) => {
                 es1.len() == es2.len() && es1.iter().zip(es2).all(|(e1, e2)| e1.is_supertype(e2))
             }
-            _ => false,
+            // The relation is reflexive.
+            _ => self == other,
         }
     }
 }
-- 
2.43.0


From 4025b9d948e2fdf2e59550c6b6c538495ab52edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:03 +0000
Subject: [PATCH 81/93] fix: check the parts of concatenated lists against the
 type of the list

---
 hugr-core/src/types/type_param.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/types/type_param.rs b/hugr-core/src/types/type_param.rs
index a30aea8..60c047a 100644
--- a/hugr-core/src/types/type_param.rs
+++ b/hugr-core/src/types/type_param.rs
@@ -658,9 +658,9 @@ pub fn check_term_type(term: &Term, type_: &Term) -> Result<(), TermTypeError> {
                 check_term_type(term, item_type)
             })
         }
-        (Term::ListConcat(lists), Term::ListType(item_type)) => lists
+        (Term::ListConcat(lists), Term::ListType(_)) => lists
             .iter()
-            .try_for_each(|list| check_term_type(list, item_type)),
+            .try_for_each(|list| check_term_type(list, type_)),
         (TypeArg::Tuple(_) | TypeArg::TupleConcat(_), TypeParam::TupleType(item_types)) => {
             let term_parts: Vec<_> = term.clone().into_tuple_parts().collect();
             let type_parts: Vec<_> = item_types.clone().into_list_parts().collect();
-- 
2.43.0


From 7ada0293d941afe039f8806ecf9f0e07e8773d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:22 +0000
Subject: [PATCH 82/93] fix: monomorphize programs that use declarations or
 unusual type arguments

---
 hugr-passes/src/monomorphize.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/monomorphize.rs b/hugr-passes/src/monomorphize.rs
index 2d5abd5..d7caf86 100644
--- a/hugr-passes/src/monomorphize.rs
+++ b/hugr-passes/src/monomorphize.rs
@@ -113,6 +113,10 @@ fn mono_scan(
         }
         let fn_inp = ch_op.static_input_port().unwrap();
         let tgt = h.static_source(old_ch).unwrap(); // Use old_ch as edges not copied yet
+        if !h.get_optype(tgt).is_func_defn() {
+            // A declaration has no body to instantiate
+            continue;
+        }
         let new_tgt = instantiate(h, tgt, type_args.clone(), mono_sig.clone(), cache);
         let fn_out = {
             let func = h.get_optype(new_tgt).as_func_defn().unwrap();
@@ -235,12 +239,19 @@ fn write_type_arg_str(arg: &TypeArg, f: &mut std::fmt::Formatter<'_>) -> std::fm
         TypeArg::Runtime(ty) => f.write_fmt(format_args!("t({})", escape_dollar(ty.to_string()))),
         TypeArg::BoundedNat(n) => f.write_fmt(format_args!("n({n})")),
         TypeArg::String(arg) => f.write_fmt(format_args!("s({})", escape_dollar(arg))),
+        TypeArg::Bytes(bytes) => f.write_fmt(format_args!("b({})", bytes.iter().join(","))),
+        TypeArg::Float(value) => f.write_fmt(format_args!("f({})", value.into_inner())),
         TypeArg::List(elems) => f.write_fmt(format_args!("list({})", TypeArgsSeq(elems))),
         TypeArg::Tuple(elems) => f.write_fmt(format_args!("tuple({})", TypeArgsSeq(elems))),
+        TypeArg::ListConcat(lists) => f.write_fmt(format_args!("lists({})", TypeArgsSeq(lists))),
+        TypeArg::TupleConcat(tuples) => {
+            f.write_fmt(format_args!("tuples({})", TypeArgsSeq(tuples)))
+        }
         // We are monomorphizing. We will never monomorphize to a signature
         // containing a variable.
         TypeArg::Variable(_) => panic!("type_arg_str variable: {arg}"),
-        _ => panic!("unknown type arg: {arg}"),
+        // Static types
+        _ => f.write_fmt(format_args!("k({})", escape_dollar(arg.to_string()))),
     }
 }
 
-- 
2.43.0


From 6a6292c5c0389059f94ce9c80c78c5bd5bb10a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:11 +0000
Subject: [PATCH 83/93] fix: follow persistent wires whose ends were deleted
 together

---
 hugr-persistent/src/wire.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hugr-persistent/src/wire.rs b/hugr-persistent/src/wire.rs
index e1b38eb..bad1306 100644
--- a/hugr-persistent/src/wire.rs
+++ b/hugr-persistent/src/wire.rs
@@ -120,7 +120,16 @@ impl PersistentWire {
                         // If node is deleted, check if there are wires between
                         // ports on the opposite end of the wire and boundary
                         // ports in the child commit that deleted the node.
+                        // Wires to other nodes deleted by the same child commit
+                        // are not on its boundary.
+                        let deleted_nodes: BTreeSet<_> = per_hugr
+                            .get_commit(deleted_by)
+                            .deleted_parent_nodes()
+                            .collect();
                         for (opp_node, opp_port) in commit_hugr.linked_ports(node, port) {
+                            if deleted_nodes.contains(&commit.to_patch_node(opp_node)) {
+                                continue;
+                            }
                             for (child_node, child_port) in commit.linked_child_ports(
                                 opp_node,
                                 opp_port,
-- 
2.43.0


From c6640a679ceefb8a5503d8e9e64db57dae26f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:11 +0000
Subject: [PATCH 84/93] fix: add commits to persistent HUGRs after their
 ancestors

---
 hugr-persistent/src/persistent_hugr.rs | 35 +++++++++++---------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/hugr-persistent/src/persistent_hugr.rs b/hugr-persistent/src/persistent_hugr.rs
index 01bbfd6..019a13e 100644
--- a/hugr-persistent/src/persistent_hugr.rs
+++ b/hugr-persistent/src/persistent_hugr.rs
@@ -449,32 +449,27 @@ fn get_ancestors_while<'a>(
     continue_fn: impl Fn(&Commit) -> bool,
 ) -> VecDeque<Commit<'a>> {
     let mut seen_ids = BTreeSet::new();
-    let commits = commits.into_iter();
-    let mut all_commits = VecDeque::with_capacity(commits.size_hint().0);
+    let mut all_commits = VecDeque::new();
 
+    // Depth-first traversal: commits are added in post-order, ancestors first.
     for commit in commits {
-        if !seen_ids.insert(commit.as_ptr()) {
-            continue;
-        }
-        let start = all_commits.len();
-        let mut ind = start;
-        all_commits.push_back(commit);
-
-        while ind < all_commits.len() {
-            let commit = all_commits[ind].clone();
-            ind += 1;
-
-            if !continue_fn(&commit) {
+        let mut stack = vec![(commit, false)];
+        while let Some((commit, parents_visited)) = stack.pop() {
+            if parents_visited {
+                all_commits.push_front(commit);
                 continue;
             }
-
-            for commit in commit.parents() {
-                if seen_ids.insert(commit.as_ptr()) {
-                    all_commits.push_back(commit.clone());
-                }
+            if !seen_ids.insert(commit.as_ptr()) {
+                continue;
             }
+            let parents = if continue_fn(&commit) {
+                commit.parents().cloned().collect_vec()
+            } else {
+                vec![]
+            };
+            stack.push((commit, true));
+            stack.extend(parents.into_iter().map(|parent| (parent, false)));
         }
-        all_commits.rotate_right(all_commits.len() - start);
     }
 
     all_commits
-- 
2.43.0


From 76edb2a2d07a0a2b3fff664097f0d0b03c6d24e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:11 +0000
Subject: [PATCH 85/93] fix: refuse persistent replacements whose parent
 commits are absent

---
 hugr-persistent/src/persistent_hugr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hugr-persistent/src/persistent_hugr.rs b/hugr-persistent/src/persistent_hugr.rs
index 019a13e..2e3b511 100644
--- a/hugr-persistent/src/persistent_hugr.rs
+++ b/hugr-persistent/src/persistent_hugr.rs
@@ -195,6 +195,9 @@ impl PersistentHugr {
             .into_grouping_map()
             .collect::<BTreeSet<_>>();
         for (parent, new_invalid_nodes) in new_invalid_nodes {
+            if !self.contains_id(parent) {
+                return Err(InvalidCommit::UnknownParent(parent));
+            }
             let invalidation_set = self.deleted_nodes(parent).collect();
             if let Some(&node) = new_invalid_nodes.intersection(&invalidation_set).next() {
                 return Err(InvalidCommit::IncompatibleHistory(parent, node));
-- 
2.43.0


From 0da958ba5fde455654113ad38b5abf940309f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:18 +0000
Subject: [PATCH 86/93] fix: read words of the model text whole, and all of the
 text

A symbol that begins with a keyword (`importer`, `tuples.make`) was read as the
keyword followed by another symbol, and what followed a term, node or module in
its text was ignored.
---
 hugr-model/src/v0/ast/hugr.pest | 75 ++++++++++++++++++++++-----------
 hugr-model/src/v0/ast/parse.rs  | 15 ++++++-
 2 files changed, 65 insertions(+), 25 deletions(-)

diff --git a/hugr-model/src/v0/ast/hugr.pest b/hugr-model/src/v0/ast/hugr.pest
index f44f97f..2f10f9a 100644
--- a/hugr-model/src/v0/ast/hugr.pest
+++ b/hugr-model/src/v0/ast/hugr.pest
@@ -32,21 +32,48 @@ reserved = @{
   | "..."
 }
 
+// A keyword ends where a symbol name would end. The rules below are only used to look
+// ahead, so that `importer` is not read as the keyword `import` followed by `er`.
+keyword_end = @{ !(identifier_rest | ("." ~ identifier_initial)) }
+
+kw_mod               = @{ "mod" ~ keyword_end }
+kw_hugr              = @{ "hugr" ~ keyword_end }
+kw_bytes             = @{ "bytes" ~ keyword_end }
+kw_meta              = @{ "meta" ~ keyword_end }
+kw_dfg               = @{ "dfg" ~ keyword_end }
+kw_cfg               = @{ "cfg" ~ keyword_end }
+kw_block             = @{ "block" ~ keyword_end }
+kw_define_func       = @{ "define-func" ~ keyword_end }
+kw_declare_func      = @{ "declare-func" ~ keyword_end }
+kw_define_alias      = @{ "define-alias" ~ keyword_end }
+kw_declare_alias     = @{ "declare-alias" ~ keyword_end }
+kw_declare_ctr       = @{ "declare-ctr" ~ keyword_end }
+kw_declare_operation = @{ "declare-operation" ~ keyword_end }
+kw_tail_loop         = @{ "tail-loop" ~ keyword_end }
+kw_cond              = @{ "cond" ~ keyword_end }
+kw_import            = @{ "import" ~ keyword_end }
+kw_signature         = @{ "signature" ~ keyword_end }
+kw_param             = @{ "param" ~ keyword_end }
+kw_where             = @{ "where" ~ keyword_end }
+kw_tuple             = @{ "tuple" ~ keyword_end }
+kw_fn                = @{ "fn" ~ keyword_end }
+
 literal_string         = ${ "\"" ~ (literal_string_raw | literal_string_escape | literal_string_unicode)* ~ "\"" }
 literal_string_raw     = @{ (!("\\" | "\"") ~ ANY)+ }
 literal_string_escape  = @{ "\\" ~ ("\"" | "\\" | "n" | "r" | "t") }
 literal_string_unicode = @{ "\\u" ~ "{" ~ ASCII_HEX_DIGIT+ ~ "}" }
 
 literal_nat   = @{ (ASCII_DIGIT)+ }
-literal_bytes =  { "(" ~ "bytes" ~ base64_string ~ ")" }
+literal_bytes =  { "(" ~ &kw_bytes ~ "bytes" ~ base64_string ~ ")" }
 literal_float = @{ ("+" | "-")? ~ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ ~ ("e" ~ ("+" | "-")? ~ ASCII_DIGIT+)? }
 
 base64_string = { "\"" ~ (ASCII_ALPHANUMERIC | "+" | "/")* ~ "="* ~ "\"" }
 
-package = { "(" ~ "hugr" ~ "0" ~ ")" ~ module* ~ EOI }
-module  = { "(" ~ "mod" ~ ")" ~ meta* ~ node* }
+end     = { SOI ~ EOI }
+package = { "(" ~ &kw_hugr ~ "hugr" ~ "0" ~ ")" ~ module* ~ EOI }
+module  = { "(" ~ &kw_mod ~ "mod" ~ ")" ~ meta* ~ node* }
 
-meta = { "(" ~ "meta" ~ term ~ ")" }
+meta = { "(" ~ &kw_meta ~ "meta" ~ term ~ ")" }
 
 port_list  =  { "[" ~ link_name* ~ "]" }
 port_lists = _{ port_list ~ port_list }
@@ -67,30 +94,30 @@ node = {
   | node_custom
 }
 
-node_dfg               = { "(" ~ "dfg" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
-node_cfg               = { "(" ~ "cfg" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
-node_block             = { "(" ~ "block" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
-node_define_func       = { "(" ~ "define-func" ~ symbol ~ meta* ~ region* ~ ")" }
-node_declare_func      = { "(" ~ "declare-func" ~ symbol ~ meta* ~ ")" }
-node_define_alias      = { "(" ~ "define-alias" ~ symbol ~ term ~ meta* ~ ")" }
-node_declare_alias     = { "(" ~ "declare-alias" ~ symbol ~ meta* ~ ")" }
-node_declare_ctr       = { "(" ~ "declare-ctr" ~ symbol ~ meta* ~ ")" }
-node_declare_operation = { "(" ~ "declare-operation" ~ symbol ~ meta* ~ ")" }
-node_tail_loop         = { "(" ~ "tail-loop" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
-node_cond              = { "(" ~ "cond" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
-node_import            = { "(" ~ "import" ~ symbol_name ~ meta* ~ ")" }
+node_dfg               = { "(" ~ &kw_dfg ~ "dfg" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
+node_cfg               = { "(" ~ &kw_cfg ~ "cfg" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
+node_block             = { "(" ~ &kw_block ~ "block" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
+node_define_func       = { "(" ~ &kw_define_func ~ "define-func" ~ symbol ~ meta* ~ region* ~ ")" }
+node_declare_func      = { "(" ~ &kw_declare_func ~ "declare-func" ~ symbol ~ meta* ~ ")" }
+node_define_alias      = { "(" ~ &kw_define_alias ~ "define-alias" ~ symbol ~ term ~ meta* ~ ")" }
+node_declare_alias     = { "(" ~ &kw_declare_alias ~ "declare-alias" ~ symbol ~ meta* ~ ")" }
+node_declare_ctr       = { "(" ~ &kw_declare_ctr ~ "declare-ctr" ~ symbol ~ meta* ~ ")" }
+node_declare_operation = { "(" ~ &kw_declare_operation ~ "declare-operation" ~ symbol ~ meta* ~ ")" }
+node_tail_loop         = { "(" ~ &kw_tail_loop ~ "tail-loop" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
+node_cond              = { "(" ~ &kw_cond ~ "cond" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
+node_import            = { "(" ~ &kw_import ~ "import" ~ symbol_name ~ meta* ~ ")" }
 node_custom            = { "(" ~ term ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
 
-visibility = { "public" | "private" }
+visibility = @{ ("public" | "private") ~ keyword_end }
 
 symbol = { visibility? ~ symbol_name ~ param* ~ where_clause* ~ term }
 
-signature    = { "(" ~ "signature" ~ term ~ ")" }
-param        = { "(" ~ "param" ~ term_var ~ term ~ ")" }
-where_clause = { "(" ~ "where" ~ term ~ ")" }
+signature    = { "(" ~ &kw_signature ~ "signature" ~ term ~ ")" }
+param        = { "(" ~ &kw_param ~ "param" ~ term_var ~ term ~ ")" }
+where_clause = { "(" ~ &kw_where ~ "where" ~ term ~ ")" }
 
 region      = { "(" ~ region_kind ~ port_lists? ~ signature? ~ meta* ~ node* ~ ")" }
-region_kind = { "dfg" | "cfg" | "mod" }
+region_kind = @{ ("dfg" | "cfg" | "mod") ~ keyword_end }
 
 term = {
     term_wildcard
@@ -102,12 +129,12 @@ term = {
   | term_apply
 }
 
-term_wildcard   = @{ "_" ~ !(ASCII_ALPHANUMERIC | "_" | "-") }
+term_wildcard   = @{ "_" ~ keyword_end }
 term_var        = @{ "?" ~ identifier_rest+ }
 term_apply      =  { symbol_name | ("(" ~ symbol_name ~ term* ~ ")") }
 term_list       =  { "[" ~ part* ~ "]" }
-term_tuple      =  { "(" ~ "tuple" ~ part* ~ ")" }
-term_const_func =  { "(" ~ "fn" ~ region ~ ")" }
+term_tuple      =  { "(" ~ &kw_tuple ~ "tuple" ~ part* ~ ")" }
+term_const_func =  { "(" ~ &kw_fn ~ "fn" ~ region ~ ")" }
 
 part   = { term ~ splice? }
 splice = { "..." }
diff --git a/hugr-model/src/v0/ast/parse.rs b/hugr-model/src/v0/ast/parse.rs
index 8d81f36..f44b1e1 100644
--- a/hugr-model/src/v0/ast/parse.rs
+++ b/hugr-model/src/v0/ast/parse.rs
@@ -470,6 +470,17 @@ fn check_nesting(text: &str) -> ParseResult<()> {
     Ok(())
 }
 
+/// Check that nothing but whitespace and comments follows after the given position.
+fn check_end(text: &str, end: usize) -> ParseResult<()> {
+    match HugrParser::parse(Rule::end, &text[end..]) {
+        Ok(_) => Ok(()),
+        Err(_) => {
+            let span = pest::Span::new(text, end, text.len()).expect("position of a token");
+            Err(ParseError::custom("unexpected text", span))
+        }
+    }
+}
+
 macro_rules! impl_from_str {
     ($ident:ident, $rule:ident, $parse:expr) => {
         impl FromStr for $ident {
@@ -479,7 +490,9 @@ macro_rules! impl_from_str {
                 check_nesting(s)?;
                 let mut pairs =
                     HugrParser::parse(Rule::$rule, s).map_err(|err| ParseError(Box::new(err)))?;
-                $parse(pairs.next().unwrap())
+                let pair = pairs.next().unwrap();
+                check_end(s, pair.as_span().end())?;
+                $parse(pair)
             }
         }
     };
-- 
2.43.0


From 7d2ce2a07696e374b26e2b0d3c9558d9f25ed522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:18 +0000
Subject: [PATCH 87/93] fix: print modules and the symbol _ of the model so
 that they can be read

---
 hugr-model/src/v0/ast/print.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hugr-model/src/v0/ast/print.rs b/hugr-model/src/v0/ast/print.rs
index 6dee797..727ec31 100644
--- a/hugr-model/src/v0/ast/print.rs
+++ b/hugr-model/src/v0/ast/print.rs
@@ -118,7 +118,8 @@ fn print_term<'a>(printer: &mut Printer<'a>, term: &'a Term) {
         Term::Wildcard => printer.text("_"),
         Term::Var(var) => print_var_name(printer, var),
         Term::Apply(symbol, terms) => {
-            if terms.is_empty() {
+            // Without parentheses the symbol `_` would be a wildcard.
+            if terms.is_empty() && symbol.as_ref() != "_" {
                 print_symbol_name(printer, symbol);
             } else {
                 printer.parens_enter();
@@ -266,15 +267,15 @@ fn print_package<'a>(printer: &mut Printer<'a>, package: &'a Package) {
     printer.parens_exit();
 
     for module in &package.modules {
-        printer.parens_enter();
-        printer.text("mod");
-        printer.parens_exit();
-
         print_module(printer, module);
     }
 }
 
 fn print_module<'a>(printer: &mut Printer<'a>, module: &'a Module) {
+    printer.parens_enter();
+    printer.text("mod");
+    printer.parens_exit();
+
     for meta in &module.root.meta {
         print_meta_item(printer, meta);
     }
-- 
2.43.0


From 4bc086c6d69e9307b33deb1448052948b62de937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:18 +0000
Subject: [PATCH 88/93] fix: keep zero and negative zero apart in the model

---
 hugr-core/src/export.rs          | 6 ++++++
 hugr-model/src/v0/ast/resolve.rs | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/export.rs b/hugr-core/src/export.rs
index a3689c9..d25d3ff 100644
--- a/hugr-core/src/export.rs
+++ b/hugr-core/src/export.rs
@@ -197,6 +197,12 @@ impl<'a> Context<'a> {
             term => term,
         };
 
+        // Equality of floats does not tell apart all of them (`0.0` and `-0.0`), so
+        // float literals must not be shared.
+        if let table::Term::Literal(model::Literal::Float(_)) = term {
+            return self.module.insert_term(term);
+        }
+
         *self
             .term_map
             .entry(term.clone())
diff --git a/hugr-model/src/v0/ast/resolve.rs b/hugr-model/src/v0/ast/resolve.rs
index 54ca2bb..728f164 100644
--- a/hugr-model/src/v0/ast/resolve.rs
+++ b/hugr-model/src/v0/ast/resolve.rs
@@ -6,7 +6,7 @@ use thiserror::Error;
 use super::{
     LinkName, Module, Node, Operation, Param, Region, SeqPart, Symbol, SymbolName, Term, VarName,
 };
-use crate::v0::{RegionKind, ScopeClosure, table};
+use crate::v0::{Literal, RegionKind, ScopeClosure, table};
 use crate::v0::{
     scope::{LinkTable, SymbolTable, VarTable},
     table::{LinkIndex, NodeId, RegionId, TermId, VarId},
@@ -92,6 +92,12 @@ impl<'a> Context<'a> {
             }
         };
 
+        // Equality of floats does not tell apart all of them (`0.0` and `-0.0`), so
+        // float literals must not be shared.
+        if let table::Term::Literal(Literal::Float(_)) = term {
+            return Ok(self.module.insert_term(term));
+        }
+
         Ok(*self
             .terms
             .entry(term.clone())
-- 
2.43.0


From df1ea15aa160f32ea2bbf882855bead7d2237cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:18 +0000
Subject: [PATCH 89/93] fix: variables without a parameter in binary models
 have no tree

---
 hugr-model/src/v0/ast/view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-model/src/v0/ast/view.rs b/hugr-model/src/v0/ast/view.rs
index 84770c4..52963bf 100644
--- a/hugr-model/src/v0/ast/view.rs
+++ b/hugr-model/src/v0/ast/view.rs
@@ -148,7 +148,7 @@ impl<'a> View<'a, VarId> for VarName {
             _ => return None,
         };
 
-        let param = &symbol.params[id.1 as usize];
+        let param = symbol.params.get(id.1 as usize)?;
         Some(Self(param.name.into()))
     }
 }
-- 
2.43.0


From cb36df2656c361159bec12bcf25040cd6d57f900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:18 +0000
Subject: [PATCH 90/93] fix: read the constraints of aliases in binary models

---
 hugr-model/src/v0/binary/read.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/hugr-model/src/v0/binary/read.rs b/hugr-model/src/v0/binary/read.rs
index ab46fb4..75b11d1 100644
--- a/hugr-model/src/v0/binary/read.rs
+++ b/hugr-model/src/v0/binary/read.rs
@@ -329,21 +329,21 @@ fn read_operation<'a>(
         Which::Dfg(()) => table::Operation::Dfg,
         Which::Cfg(()) => table::Operation::Cfg,
         Which::Block(()) => table::Operation::Block,
-        Which::FuncDefn(reader) => table::Operation::DefineFunc(read_symbol(bump, reader?, None)?),
-        Which::FuncDecl(reader) => table::Operation::DeclareFunc(read_symbol(bump, reader?, None)?),
+        Which::FuncDefn(reader) => table::Operation::DefineFunc(read_symbol(bump, reader?)?),
+        Which::FuncDecl(reader) => table::Operation::DeclareFunc(read_symbol(bump, reader?)?),
         Which::AliasDefn(reader) => {
             let symbol = reader.get_symbol()?;
             let value = table::TermId(reader.get_value());
-            table::Operation::DefineAlias(read_symbol(bump, symbol, Some(&[]))?, value)
+            table::Operation::DefineAlias(read_symbol(bump, symbol)?, value)
         }
         Which::AliasDecl(reader) => {
-            table::Operation::DeclareAlias(read_symbol(bump, reader?, Some(&[]))?)
+            table::Operation::DeclareAlias(read_symbol(bump, reader?)?)
         }
         Which::ConstructorDecl(reader) => {
-            table::Operation::DeclareConstructor(read_symbol(bump, reader?, None)?)
+            table::Operation::DeclareConstructor(read_symbol(bump, reader?)?)
         }
         Which::OperationDecl(reader) => {
-            table::Operation::DeclareOperation(read_symbol(bump, reader?, None)?)
+            table::Operation::DeclareOperation(read_symbol(bump, reader?)?)
         }
         Which::Custom(operation) => table::Operation::Custom(table::TermId(operation)),
         Which::TailLoop(()) => table::Operation::TailLoop,
@@ -407,16 +407,12 @@ impl From<hugr_capnp::Visibility> for Option<model::Visibility> {
 fn read_symbol<'a>(
     bump: &'a Bump,
     reader: hugr_capnp::symbol::Reader,
-    constraints: Option<&'a [table::TermId]>,
 ) -> ReadResult<&'a mut table::Symbol<'a>> {
     let name = bump.alloc_str(reader.get_name()?.to_str()?);
     let visibility = reader.get_visibility()?.into();
     let visibility = bump.alloc(visibility);
     let params = read_list!(bump, reader.get_params()?, read_param);
-    let constraints = match constraints {
-        Some(cs) => cs,
-        None => read_scalar_list!(bump, reader, get_constraints, table::TermId),
-    };
+    let constraints = read_scalar_list!(bump, reader, get_constraints, table::TermId);
     let signature = table::TermId(reader.get_signature());
     Ok(bump.alloc(table::Symbol {
         visibility,
-- 
2.43.0


From f8bbd4a95543baebdc9ec70de63a2a1ad93881cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:25 +0000
Subject: [PATCH 91/93] fix: convert --compress compresses without a
 compression level too

---
 hugr-cli/src/convert.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hugr-cli/src/convert.rs b/hugr-cli/src/convert.rs
index 6a9aa18..33f9d12 100644
--- a/hugr-cli/src/convert.rs
+++ b/hugr-cli/src/convert.rs
@@ -85,8 +85,11 @@ impl ConvertArgs {
         };
 
         // Configure compression
-        if let Some(level) = self.compress.then_some(self.compression_level).flatten() {
-            config = config.with_zstd(ZstdConfig::new(level));
+        if self.compress {
+            let zstd = self
+                .compression_level
+                .map_or(ZstdConfig::default_level(), ZstdConfig::new);
+            config = config.with_zstd(zstd);
         }
 
         // Write the package with the requested format
-- 
2.43.0


From 7edf89ee59c4a4235def7e98fc0d7942661442d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:25 +0000
Subject: [PATCH 92/93] fix: describe --json reports that the end of its output
 is not written

---
 hugr-cli/src/describe.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hugr-cli/src/describe.rs b/hugr-cli/src/describe.rs
index 2ccf3c3..b81f631 100644
--- a/hugr-cli/src/describe.rs
+++ b/hugr-cli/src/describe.rs
@@ -128,6 +128,8 @@ impl DescribeArgs {
         } else {
             print_description(desc, self.packaged_extensions, writer)?;
         }
+        // Report failures to write the last, unterminated line too.
+        writer.flush()?;
 
         // bubble up any errors
         res.map(|_| ())
-- 
2.43.0


From 54fdb3ab89af15f4669ba5d7e583a7b03a86ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:11 +0000
Subject: [PATCH 93/93] fix: the tool resolves what the extensions given to it
 refer to

---
 hugr-cli/src/hugr_io.rs | 18 +++++++++++++-----
 hugr-cli/src/lib.rs     |  3 +++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/hugr-cli/src/hugr_io.rs b/hugr-cli/src/hugr_io.rs
index ea9631b..cfa08ea 100644
--- a/hugr-cli/src/hugr_io.rs
+++ b/hugr-cli/src/hugr_io.rs
@@ -3,7 +3,8 @@
 use clio::Input;
 use hugr::envelope::description::PackageDesc;
 use hugr::envelope::read_envelope;
-use hugr::extension::ExtensionRegistry;
+use hugr::extension::resolution::WeakExtensionRegistry;
+use hugr::extension::{ExtensionRegistry, ExtensionRegistryLoadError};
 use hugr::package::Package;
 use hugr::{Extension, Hugr};
 use std::io::{BufReader, Read};
@@ -114,11 +115,18 @@ impl HugrInputArgs {
             hugr::std_extensions::STD_REG.to_owned()
         };
 
-        for ext in &self.extensions {
-            let f = std::fs::File::open(ext)?;
-            let ext: Extension = serde_json::from_reader(f)?;
-            reg.register_updated(ext);
+        let mut extensions: Vec<Extension> = Vec::with_capacity(self.extensions.len());
+        for path in &self.extensions {
+            let f = std::fs::File::open(path)?;
+            extensions.push(serde_json::from_reader(f)?);
         }
+        // The extensions may refer to each other, and to the standard ones.
+        let extensions = ExtensionRegistry::new_with_extension_resolution(
+            extensions,
+            &WeakExtensionRegistry::from(&reg),
+        )
+        .map_err(ExtensionRegistryLoadError::from)?;
+        reg.extend(&extensions);
 
         Ok(reg)
     }
diff --git a/hugr-cli/src/lib.rs b/hugr-cli/src/lib.rs
index da41e73..4f1bd2b 100644
--- a/hugr-cli/src/lib.rs
+++ b/hugr-cli/src/lib.rs
@@ -111,6 +111,9 @@ pub enum CliError {
     #[error("Error reading envelope.")]
     /// Errors produced when reading an envelope.
     ReadEnvelope(#[from] hugr::envelope::ReadError),
+    #[error("Error loading extensions.")]
+    /// Errors produced when loading the extensions given by the user.
+    LoadExtensions(#[from] hugr::extension::ExtensionRegistryLoadError),
 }
 
 impl CliError {
-- 
2.43.0

