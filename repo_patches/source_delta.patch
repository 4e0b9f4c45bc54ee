From 309ef9f0989bc5dfabc3f46731a0da3c2baa6ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 01/24] verif: guarded re-exports of private items (cfg
 regalloc2_verif)

---
 src/fastalloc/mod.rs |  6 ++++++
 src/lib.rs           | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 91fdaa7..4f986b2 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -19,6 +19,12 @@ use iter::*;
 use lru::*;
 use vregset::VRegSet;
 
+#[cfg(regalloc2_verif)]
+pub(crate) mod verif {
+    pub use super::lru::{Lru, LruNode, Lrus};
+    pub use super::vregset::VRegSet;
+}
+
 #[cfg(test)]
 mod tests;
 
diff --git a/src/lib.rs b/src/lib.rs
index 5eab7d3..e73387e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,6 +12,9 @@
 
 #![allow(dead_code)]
 #![allow(clippy::all)]
+// `regalloc2_verif` guards the re-exports used by external verification
+// harnesses; it is not a Cargo feature.
+#![allow(unexpected_cfgs)]
 #![no_std]
 
 #[cfg(feature = "fuzzing")]
@@ -64,6 +67,38 @@ pub mod checker;
 #[cfg(feature = "fuzzing")]
 pub mod fuzzing;
 
+/// Re-exports of private items for external verification harnesses. Built only
+/// with `--cfg regalloc2_verif`; not part of the public API.
+#[cfg(regalloc2_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::cfg::{CFGInfo, CFGInfoCtx};
+    pub use crate::fastalloc::verif::{Lru, LruNode, Lrus, VRegSet};
+    pub use crate::ion::data_structures::{
+        CodeRange, LiveBundleIndex, LiveRangeKey, LiveRangeSet, PrioQueue,
+    };
+    pub use crate::ion::redundant_moves::{
+        RedundantMoveAction, RedundantMoveEliminator, RedundantMoveState,
+    };
+    pub use crate::ion::reg_traversal::RegTraversalIter;
+    pub use crate::moves::{MoveAndScratchResolver, MoveVec, MoveVecWithScratch, ParallelMoves};
+
+    pub mod domtree {
+        pub use crate::domtree::{calculate, dominates};
+    }
+
+    pub mod postorder {
+        pub use crate::postorder::calculate;
+    }
+
+    /// The live-in and live-out sets left in `ctx` by the last Ion run.
+    pub fn liveness(
+        ctx: &crate::Ctx,
+    ) -> (&[crate::indexset::IndexSet], &[crate::indexset::IndexSet]) {
+        (&ctx.liveins[..], &ctx.liveouts[..])
+    }
+}
+
 #[cfg(feature = "enable-serde")]
 pub mod serialize;
 
-- 
2.43.0


From a2108e19f0dc0511d0cae9abd3830c558eab0a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 02/24] fix: compute liveness of unreachable blocks too (vreg
 class was never observed)

---
 src/ion/liveranges.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index 09040f6..dabf76a 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -290,6 +290,16 @@ impl<'a, F: Function> Env<'a, F> {
             workqueue.push_back(block);
             workqueue_set.insert(block);
         }
+        // Unreachable blocks are allocated as well: visit them too, so that
+        // the classes of vregs mentioned only there are observed.
+        if workqueue.len() < self.func.num_blocks() {
+            for block in 0..self.func.num_blocks() {
+                let block = Block::new(block);
+                if workqueue_set.insert(block) {
+                    workqueue.push_back(block);
+                }
+            }
+        }
 
         while let Some(block) = workqueue.pop_front() {
             workqueue_set.remove(&block);
-- 
2.43.0


From 2386af640310dbfcd9e178d6912315797e891dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 03/24] fix: fastalloc: store a definition to its spillslot
 from where it is defined

---
 src/fastalloc/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 4f986b2..b68b6fd 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1120,8 +1120,12 @@ impl<'a, F: Function> Env<'a, F> {
             self.vreg_to_live_inst_range[op.vreg().vreg()].2 = Allocation::stack(slot);
             let curr_alloc = self.vreg_allocs[op.vreg().vreg()];
             let new_alloc = Allocation::stack(self.vreg_spillslots[op.vreg().vreg()]);
-            if curr_alloc != new_alloc {
-                self.add_move(inst, curr_alloc, new_alloc, op.class(), InstPosition::After)?;
+            // This edit comes before the one, if any, that moves the value from
+            // where it's defined to `curr_alloc`, so it has to read the value
+            // from where it's defined (and is not needed if that is the slot).
+            let def_alloc = self.allocs[(inst.index(), op_idx)];
+            if curr_alloc != new_alloc && def_alloc != new_alloc {
+                self.add_move(inst, def_alloc, new_alloc, op.class(), InstPosition::After)?;
             }
         }
         self.vreg_to_live_inst_range[op.vreg().vreg()].0 = ProgPoint::after(inst);
-- 
2.43.0


From d2ec1a9b729214290b22bb30a10aeca89250f825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 04/24] fix: fastalloc: evict a live reused input from its
 fixed register

---
 src/fastalloc/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index b68b6fd..4bce685 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1210,14 +1210,17 @@ impl<'a, F: Function> Env<'a, F> {
 
         self.remove_clobbers_from_available_pregs(clobbers);
 
-        for (_, op) in operands.fixed() {
+        for (op_idx, op) in operands.fixed() {
             let OperandConstraint::FixedReg(preg) = op.constraint() else {
                 unreachable!();
             };
             // Eviction has to be done separately to avoid using a fixed register
             // as a scratch register.
+            // A reused input doesn't survive the instruction in its fixed register,
+            // so if it is still live after, it has to be evicted too.
             if self.vreg_in_preg[preg.index()] != VReg::invalid()
-                && self.vreg_in_preg[preg.index()] != op.vreg()
+                && (self.vreg_in_preg[preg.index()] != op.vreg()
+                    || self.reused_input_to_reuse_op[op_idx] != usize::MAX)
             {
                 trace!(
                     "Evicting {} from fixed register {preg}",
-- 
2.43.0


From 8380618ffece261750110b6c9f0c231d64b4f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 05/24] fix: fastalloc: put an anywhere-constrained reused
 input in a register

---
 src/fastalloc/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 4bce685..ac54503 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1070,9 +1070,14 @@ impl<'a, F: Function> Env<'a, F> {
         if let OperandConstraint::Reuse(reused_idx) = op.constraint() {
             let reused_op = operands[reused_idx];
             // Alloc as an operand alive in both early and late phases
+            // (and in a register, even if the reused input could be anywhere).
+            let constraint = match reused_op.constraint() {
+                OperandConstraint::Any => OperandConstraint::Reg,
+                constraint => constraint,
+            };
             let new_reuse_op = Operand::new(
                 op.vreg(),
-                reused_op.constraint(),
+                constraint,
                 OperandKind::Def,
                 OperandPos::Early,
             );
@@ -1165,7 +1170,10 @@ impl<'a, F: Function> Env<'a, F> {
             if let OperandConstraint::Reuse(reused_idx) = op.constraint() {
                 trace!("Initializing reused_input_to_reuse_op for {op}");
                 self.reused_input_to_reuse_op[reused_idx] = op_idx;
-                if operands.0[reused_idx].constraint() == OperandConstraint::Reg {
+                if operands.0[reused_idx].constraint() == OperandConstraint::Any {
+                    // The reused input has to be in a register, whichever one.
+                    self.num_any_reg_ops[ExclusiveOperandPos::Both][op.class()] += 1;
+                } else if operands.0[reused_idx].constraint() == OperandConstraint::Reg {
                     trace!(
                         "Counting {op} as an any-reg op that needs a reg in phase {:?}",
                         ExclusiveOperandPos::Both
-- 
2.43.0


From 04d3737c8be057269639fedbc091a7c2d9d22734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 06/24] fix: fastalloc: do not move a branch's definition after
 the branch

---
 src/fastalloc/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index ac54503..4934bc3 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -867,7 +867,9 @@ impl<'a, F: Function> Env<'a, F> {
             // used (in `prev_alloc`, that is).
             else {
                 trace!("Move reason: Prev allocation doesn't meet constraints");
-                if op.kind() == OperandKind::Def {
+                // There is no place after a branch: there, the value is moved to
+                // `curr_alloc` (its spillslot) at the beginning of the successors.
+                if op.kind() == OperandKind::Def && !self.func.is_branch(inst) {
                     trace!("Adding edit from {new_alloc:?} to {curr_alloc:?} after inst {inst:?} for {op}");
                     self.add_move(inst, new_alloc, curr_alloc, op.class(), InstPosition::After)?;
                 }
-- 
2.43.0


From a74ef581f2320f3a7b2a66788914aa998fb24797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 07/24] fix: ion: make the copies for conflicting fixed
 constraints before the instruction

---
 src/ion/liveranges.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ion/liveranges.rs b/src/ion/liveranges.rs
index dabf76a..e423925 100644
--- a/src/ion/liveranges.rs
+++ b/src/ion/liveranges.rs
@@ -892,8 +892,11 @@ impl<'a, F: Function> Env<'a, F> {
                             }
 
                             trace!(" -> duplicate; switching to constraint Any");
+                            // The copy is always made before the instruction,
+                            // even if the use lasts until after it.
+                            let pos = ProgPoint::before(u.pos.inst());
                             self.ctx.multi_fixed_reg_fixups.push(MultiFixedRegFixup {
-                                pos: u.pos,
+                                pos,
                                 from_slot: source_slot,
                                 to_slot: u.slot,
                                 to_preg: preg_idx,
@@ -907,7 +910,10 @@ impl<'a, F: Function> Env<'a, F> {
                                 u.operand.pos(),
                             );
                             trace!(" -> extra clobber {} at inst{}", preg, u.pos.inst().index());
-                            extra_clobbers.push((preg, u.pos));
+                            extra_clobbers.push((preg, pos));
+                            if u.pos != pos {
+                                extra_clobbers.push((preg, u.pos));
+                            }
                         }
                     }
                 }
-- 
2.43.0


From f76e875fd189924e3ff3c05fc2e3ab838a60b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 08/24] verif: re-export LiveRangeIndex (cfg regalloc2_verif)

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e73387e..eccdd16 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -75,7 +75,7 @@ pub mod verif {
     pub use crate::cfg::{CFGInfo, CFGInfoCtx};
     pub use crate::fastalloc::verif::{Lru, LruNode, Lrus, VRegSet};
     pub use crate::ion::data_structures::{
-        CodeRange, LiveBundleIndex, LiveRangeKey, LiveRangeSet, PrioQueue,
+        CodeRange, LiveBundleIndex, LiveRangeIndex, LiveRangeKey, LiveRangeSet, PrioQueue,
     };
     pub use crate::ion::redundant_moves::{
         RedundantMoveAction, RedundantMoveEliminator, RedundantMoveState,
-- 
2.43.0


From 886892eb1705f22ded3837bb04b86b7ecbee31b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 09/24] fix: PRegSet::add_up_to: keep the registers already in
 the set

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index eccdd16..47d6a39 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -345,7 +345,7 @@ impl PRegSet {
         for i in 0..index {
             self.bits[i] = !0;
         }
-        self.bits[index] = (1 << bit) - 1;
+        self.bits[index] |= (1 << bit) - 1;
     }
 }
 
-- 
2.43.0


From 6db14fc5c209e84dca49f032ab645ddcd08d40d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 10/24] fix: PRegSet::invert: do not set bits of a nonexistent
 register class

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 47d6a39..27b8f63 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -319,8 +319,10 @@ impl PRegSet {
 
     pub fn invert(&self) -> PRegSet {
         let mut set = self.bits;
-        for i in 0..self.bits.len() {
-            set[i] = !self.bits[i];
+        // The bit array has room for one more class than there are; its bits
+        // must stay clear.
+        for class in [RegClass::Int, RegClass::Float, RegClass::Vector] {
+            set[class as usize] = !self.bits[class as usize];
         }
         PRegSet { bits: set }
     }
-- 
2.43.0


From 43e362c38e1a81f35b3788311b47301072698a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 11/24] fix: Allocation::from_bits: accept the encodings that
 Allocation::bits produces

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 27b8f63..29c8350 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1226,7 +1226,7 @@ impl Allocation {
     /// Construct an allocation from its packed encoding.
     #[inline(always)]
     pub fn from_bits(bits: u32) -> Self {
-        debug_assert!(bits >> 29 >= 5);
+        debug_assert!(bits >> 29 <= AllocationKind::Stack as u32);
         Self { bits }
     }
 }
-- 
2.43.0


From e10b7243f069a355f159bf36d208997f8a63ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:00 +0000
Subject: [PATCH 12/24] fix: ion: report TooManyLiveRegs when no register can
 be tried at all

A register-constrained operand in a class without registers, or limited to
registers the environment does not list, hit a debug assertion.
---
 src/ion/process.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ion/process.rs b/src/ion/process.rs
index a6e5db9..28b33bb 100644
--- a/src/ion/process.rs
+++ b/src/ion/process.rs
@@ -1195,11 +1195,13 @@ impl<'a, F: Function> Env<'a, F> {
                 lowest_cost_split_conflict_reg
             );
 
-            // If we reach here, we *must* have an option either to split or evict.
-            debug_assert!(
-                lowest_cost_split_conflict_cost.is_some()
-                    || lowest_cost_evict_conflict_cost.is_some()
-            );
+            // If there was no register to try at all (the class has none, or
+            // none is below the limit), the demand cannot be met.
+            if lowest_cost_split_conflict_cost.is_none()
+                && lowest_cost_evict_conflict_cost.is_none()
+            {
+                return Err(RegAllocError::TooManyLiveRegs);
+            }
 
             let our_spill_weight = self.bundle_spill_weight(bundle);
             trace!(" -> our spill weight: {}", our_spill_weight);
-- 
2.43.0


From c7e6a071b4a7c0d2b83f0f9260c59012170b517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 13/24] fix: ion: let operands live through an instruction
 evict those live in half of it

Minimal bundles of equal weight never evicted each other, so an operand that
needs a register both early and late was rejected with TooManyLiveRegs when an
early-only or late-only operand had taken the last register free throughout.
---
 src/ion/data_structures.rs |  4 ++--
 src/ion/process.rs         | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ion/data_structures.rs b/src/ion/data_structures.rs
index ba036a1..ae48534 100644
--- a/src/ion/data_structures.rs
+++ b/src/ion/data_structures.rs
@@ -208,8 +208,8 @@ pub struct LiveBundle {
 
 pub const BUNDLE_MAX_SPILL_WEIGHT: u32 = (1 << 28) - 1;
 pub const MINIMAL_FIXED_BUNDLE_SPILL_WEIGHT: u32 = BUNDLE_MAX_SPILL_WEIGHT;
-pub const MINIMAL_LIMITED_BUNDLE_SPILL_WEIGHT: u32 = BUNDLE_MAX_SPILL_WEIGHT - 1;
-pub const MINIMAL_BUNDLE_SPILL_WEIGHT: u32 = MINIMAL_LIMITED_BUNDLE_SPILL_WEIGHT - 256;
+pub const MINIMAL_LIMITED_BUNDLE_SPILL_WEIGHT: u32 = BUNDLE_MAX_SPILL_WEIGHT - 2;
+pub const MINIMAL_BUNDLE_SPILL_WEIGHT: u32 = MINIMAL_LIMITED_BUNDLE_SPILL_WEIGHT - 2 * 256;
 pub const BUNDLE_MAX_NORMAL_SPILL_WEIGHT: u32 = MINIMAL_BUNDLE_SPILL_WEIGHT - 1;
 
 impl LiveBundle {
diff --git a/src/ion/process.rs b/src/ion/process.rs
index 28b33bb..dd60ee3 100644
--- a/src/ion/process.rs
+++ b/src/ion/process.rs
@@ -323,15 +323,21 @@ impl<'a, F: Function> Env<'a, F> {
         }
 
         let spill_weight = if minimal {
+            // A bundle that needs its register throughout an instruction must
+            // be able to evict those that need one only in one half of it: they
+            // can go to registers that are taken in the other half.
+            let range = first_range_data.range;
+            let whole_inst = range.from.pos() == InstPosition::Before
+                && range.to.pos() == InstPosition::Before;
             if fixed {
                 trace!("  -> fixed and minimal");
                 MINIMAL_FIXED_BUNDLE_SPILL_WEIGHT
             } else if let Some(limit) = self.ctx.bundles[bundle].limit {
                 trace!("  -> limited({limit}) and minimal");
-                MINIMAL_LIMITED_BUNDLE_SPILL_WEIGHT - u32::from(limit)
+                MINIMAL_LIMITED_BUNDLE_SPILL_WEIGHT - 2 * u32::from(limit) + u32::from(whole_inst)
             } else {
                 trace!("  -> non-fixed and minimal");
-                MINIMAL_BUNDLE_SPILL_WEIGHT
+                MINIMAL_BUNDLE_SPILL_WEIGHT + u32::from(whole_inst)
             }
         } else {
             let mut total = SpillWeight::zero();
-- 
2.43.0


From 0155a3b5e4ab9423d0338c7311ecf16378ee2c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 14/24] fix: validate_ssa: report a use of an unknown vreg
 instead of panicking

---
 src/ssa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssa.rs b/src/ssa.rs
index 29a82cf..41c1f53 100644
--- a/src/ssa.rs
+++ b/src/ssa.rs
@@ -61,7 +61,10 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
 
                 match operand.kind() {
                     OperandKind::Use => {
-                        let def_block = defined_in[operand.vreg().vreg()];
+                        let def_block = defined_in
+                            .get(operand.vreg().vreg())
+                            .copied()
+                            .unwrap_or(Block::invalid());
                         let okay = def_block.is_valid()
                             && if def_block == block {
                                 local.contains(&operand.vreg())
-- 
2.43.0


From 51a1ebf51d5fd678037db90fa62cffbf1af26a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:41 +0000
Subject: [PATCH 15/24] fix: validate_ssa: check that block arguments are
 defined and dominate the branch

---
 src/ssa.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ssa.rs b/src/ssa.rs
index 41c1f53..aff1b52 100644
--- a/src/ssa.rs
+++ b/src/ssa.rs
@@ -119,6 +119,18 @@ pub fn validate_ssa<F: Function>(f: &F, cfginfo: &CFGInfo) -> Result<(), RegAllo
                             );
                             return Err(RegAllocError::Branch(insn));
                         }
+
+                        // A block argument is a use by the branch.
+                        for &arg in blockparams_out {
+                            let def_block = defined_in
+                                .get(arg.vreg())
+                                .copied()
+                                .unwrap_or(Block::invalid());
+                            if !def_block.is_valid() || !cfginfo.dominates(def_block, block) {
+                                trace!("Invalid block argument {:?}", arg);
+                                return Err(RegAllocError::SSA(arg, insn));
+                            }
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From 01683636ca674001677a8ddef9d37baea0795748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 16/24] fix: CFGInfo: report an empty block instead of
 asserting

---
 src/cfg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cfg.rs b/src/cfg.rs
index 5b125f7..262bace 100644
--- a/src/cfg.rs
+++ b/src/cfg.rs
@@ -78,6 +78,10 @@ impl CFGInfo {
 
         for block in 0..f.num_blocks() {
             let block = Block::new(block);
+            if f.block_insns(block).len() == 0 {
+                // Every block must at least have a terminator.
+                return Err(RegAllocError::BB(block));
+            }
             for inst in f.block_insns(block).iter() {
                 insn_block[inst.index()] = block;
             }
-- 
2.43.0


From 45ef3052d2f60ab2f900facc6557c2aab7d17eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 17/24] fix: keep the debug locations of one value disjoint

---
 src/ion/moves.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ion/moves.rs b/src/ion/moves.rs
index ddabd9d..de8a9de 100644
--- a/src/ion/moves.rs
+++ b/src/ion/moves.rs
@@ -290,6 +290,11 @@ impl<'a, F: Function> Env<'a, F> {
             // `blockparam_outs`, which are sorted by (block, vreg),
             // to fill in allocations.
             let mut prev = PrevBuffer::new(blockparam_in_idx);
+            // Ranges of one vreg may overlap after splitting into
+            // minimal bundles; debug locations are emitted only past
+            // the end of the ranges seen so far, so that they are
+            // disjoint.
+            let mut debug_emitted_to = ProgPoint::from_index(0);
             for range_idx in 0..self.vregs[vreg].ranges.len() {
                 let entry = self.vregs[vreg].ranges[range_idx];
                 let alloc = self.get_alloc_for_range(entry.index);
@@ -612,13 +617,18 @@ impl<'a, F: Function> Env<'a, F> {
                         }
 
                         let from = core::cmp::max(label_from, range.from);
+                        let from = core::cmp::max(from, debug_emitted_to);
                         let to = core::cmp::min(label_to, range.to);
+                        if from >= to {
+                            continue;
+                        }
 
                         self.ctx
                             .output
                             .debug_locations
                             .push((label, from, to, alloc));
                     }
+                    debug_emitted_to = core::cmp::max(debug_emitted_to, range.to);
                 }
             }
 
-- 
2.43.0


From 4413e6652092f00654022d140ca054ea6e07555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 18/24] fix: debug location of an early def starts after the
 instruction's inputs are read

---
 src/ion/moves.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ion/moves.rs b/src/ion/moves.rs
index de8a9de..be84eee 100644
--- a/src/ion/moves.rs
+++ b/src/ion/moves.rs
@@ -582,6 +582,17 @@ impl<'a, F: Function> Env<'a, F> {
                 // this range, producing a debug-info output record
                 // giving the allocation location for each label.
                 if !debug_labels.is_empty() {
+                    // An early def is written by its instruction: the
+                    // value is not there yet just before it.
+                    let live_from = if self.ranges[entry.index]
+                        .has_flag(LiveRangeFlag::StartsAtDef)
+                        && range.from.pos() == InstPosition::Before
+                    {
+                        range.from.next()
+                    } else {
+                        range.from
+                    };
+
                     // Do a binary search to find the start of any
                     // labels for this vreg. Recall that we require
                     // debug-label requests to be sorted by vreg as a
@@ -616,7 +627,7 @@ impl<'a, F: Function> Env<'a, F> {
                             continue;
                         }
 
-                        let from = core::cmp::max(label_from, range.from);
+                        let from = core::cmp::max(label_from, live_from);
                         let from = core::cmp::max(from, debug_emitted_to);
                         let to = core::cmp::min(label_to, range.to);
                         if from >= to {
-- 
2.43.0


From 2777b71763c1b287c38ef5247ede0058f9f68c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 19/24] fix: fastalloc: report a debug label only where its
 range meets the value's

---
 src/fastalloc/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fastalloc/mod.rs b/src/fastalloc/mod.rs
index 4934bc3..88011dc 100644
--- a/src/fastalloc/mod.rs
+++ b/src/fastalloc/mod.rs
@@ -1568,7 +1568,11 @@ impl<'a, F: Function> Env<'a, F> {
         trace!("Building debug location info");
         for &(vreg, start, end, label) in self.func.debug_value_labels() {
             let (point_start, point_end, alloc) = self.vreg_to_live_inst_range[vreg.vreg()];
-            if point_start.inst() <= start && end <= point_end.inst().next() {
+            // The requested range has to fit the live range and to have a
+            // point in common with it.
+            let fits = point_start.inst() <= start && end <= point_end.inst().next();
+            if fits && ProgPoint::before(start) < point_end && point_start < ProgPoint::before(end)
+            {
                 self.debug_locations
                     .push((label, point_start, point_end, alloc));
             }
-- 
2.43.0


From f5e9d4a6eb45375ff6dbf24f955109c0857c9a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 20/24] fix: checker: a move from a location with unknown
 contents makes its destination unknown

---
 src/checker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checker.rs b/src/checker.rs
index 58719e6..6088939 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -549,7 +549,8 @@ impl CheckerState {
                 // saves a victim register elsewhere. (In other words,
                 // that sequence saves an undefined value and restores
                 // it, so has no effect.) The checker needs to avoid
-                // putting Universe lattice values into the map.
+                // putting Universe lattice values into the map; what
+                // the destination held is overwritten all the same.
                 if let Some(val) = self.get_value(&from).cloned() {
                     trace!(
                         "checker: checkinst {:?} updating: move {:?} -> {:?} val {:?}",
@@ -559,6 +560,8 @@ impl CheckerState {
                         val
                     );
                     self.set_value(into, val);
+                } else {
+                    self.remove_value(&into);
                 }
             }
             &CheckerInst::ParallelMove { ref moves } => {
-- 
2.43.0


From 2504be0a0ec1b3d25f1f2a2229721008f10eb52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 21/24] fix: checker: do not treat blocks that were not reached
 yet as holding no values

---
 src/checker.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index 6088939..3bd1559 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -443,7 +443,10 @@ impl CheckerState {
             return Err(CheckerError::MissingAllocation { inst, op });
         }
 
-        if op.kind() == OperandKind::Use && op.as_fixed_nonallocatable().is_none() {
+        if op.kind() == OperandKind::Use
+            && op.as_fixed_nonallocatable().is_none()
+            && !matches!(self, CheckerState::Top)
+        {
             match val {
                 CheckerValue::Universe => {
                     return Err(CheckerError::UnknownValueInAllocation { inst, op, alloc });
@@ -752,7 +755,7 @@ impl<'a, F: Function> Checker<'a, F> {
             }
         }
 
-        bb_in.insert(f.entry_block(), CheckerState::default());
+        bb_in.insert(f.entry_block(), CheckerState::initial());
 
         let mut stack_pregs = PRegSet::empty();
         for &preg in &machine_env.fixed_stack_slots {
@@ -847,9 +850,9 @@ impl<'a, F: Function> Checker<'a, F> {
         let mut queue = Vec::new();
         let mut queue_set = FxHashSet::default();
 
-        // Put every block in the queue to start with, to ensure
-        // everything is visited even if the initial state remains
-        // `Top` after preds update it.
+        // Put every block in the queue to start with. Blocks whose
+        // state is still `Top` are skipped until a predecessor updates
+        // it; it remains `Top` in unreachable blocks.
         //
         // We add blocks in reverse order so that when we process
         // back-to-front below, we do our initial pass in input block
@@ -865,6 +868,13 @@ impl<'a, F: Function> Checker<'a, F> {
             queue_set.remove(&block);
             let mut state = self.bb_in.get(&block).cloned().unwrap();
             trace!("analyze: block {} has state {:?}", block.index(), state);
+            if let CheckerState::Top = state {
+                // Not reached (yet): this block is put in the queue
+                // again once a predecessor provides a state. Going on
+                // as if nothing was known here would lose values at
+                // the joins that follow.
+                continue;
+            }
             for inst in self.bb_insts.get(&block).unwrap() {
                 state.update(inst);
                 trace!("analyze: inst {:?} -> state {:?}", inst, state);
@@ -916,13 +926,19 @@ impl<'a, F: Function> Checker<'a, F> {
     fn find_errors(&self) -> Result<(), CheckerErrors> {
         let mut errors = vec![];
         for (block, input) in &self.bb_in {
+            // In unreachable blocks no value is ever read; the state
+            // remains `Top` there, for which only allocations and
+            // constraints are checked.
+            let reachable = !matches!(input, CheckerState::Top);
             let mut state = input.clone();
             for inst in self.bb_insts.get(block).unwrap() {
                 if let Err(e) = state.check(InstPosition::Before, inst, self) {
                     trace!("Checker error: {:?}", e);
                     errors.push(e);
                 }
-                state.update(inst);
+                if reachable {
+                    state.update(inst);
+                }
                 if let Err(e) = state.check(InstPosition::After, inst, self) {
                     trace!("Checker error: {:?}", e);
                     errors.push(e);
-- 
2.43.0


From e9094f0629fc639a844c26f4e5f7a1d03e2d3252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 22/24] fix: checker: check reused and late operands of
 instructions with a reused input

---
 src/checker.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index 3bd1559..5c3d8cf 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -485,20 +485,10 @@ impl CheckerState {
                 ref allocs,
                 ..
             } => {
-                // Skip Use-checks at the After point if there are any
-                // reused inputs: the Def which reuses the input
-                // happens early.
-                let has_reused_input = operands
-                    .iter()
-                    .any(|op| matches!(op.constraint(), OperandConstraint::Reuse(_)));
-                if has_reused_input && pos == InstPosition::After {
-                    return Ok(());
-                }
-
                 // For each operand, check (i) that the allocation
                 // contains the expected vreg, and (ii) that it meets
                 // the requirements of the OperandConstraint.
-                for (op, alloc) in operands.iter().zip(allocs.iter()) {
+                for (i, (op, alloc)) in operands.iter().zip(allocs.iter()).enumerate() {
                     let is_here = match (op.pos(), pos) {
                         (OperandPos::Early, InstPosition::Before) => true,
                         (OperandPos::Late, InstPosition::After) => true,
@@ -508,6 +498,17 @@ impl CheckerState {
                         continue;
                     }
 
+                    // Skip Use-checks at the After point for reused
+                    // inputs: the Def which reuses the input happens
+                    // early.
+                    let is_reused = operands
+                        .iter()
+                        .any(|op| op.constraint() == OperandConstraint::Reuse(i));
+                    if is_reused && pos == InstPosition::After {
+                        self.check_constraint(inst, *op, *alloc, allocs, checker)?;
+                        continue;
+                    }
+
                     let val = self.get_value(alloc).unwrap_or(&default_val);
                     trace!(
                         "checker: checkinst {:?}: op {:?}, alloc {:?}, checker value {:?}",
-- 
2.43.0


From 26b8c94a9ff7014eebdbd4f823fa982452e5a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 23/24] fix: checker: a limit constraint is met by a register
 only

---
 src/checker.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/checker.rs b/src/checker.rs
index 5c3d8cf..b30a1fc 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -684,15 +684,18 @@ impl CheckerState {
                 }
             }
             OperandConstraint::Limit(max) => {
-                if let Some(preg) = alloc.as_reg() {
-                    if preg.hw_enc() >= max {
-                        return Err(CheckerError::AllocationOutsideLimit {
-                            inst,
-                            op,
-                            alloc,
-                            range: (0..max),
-                        });
-                    }
+                // As for `Reg`, only a register will do.
+                let preg = match alloc.as_reg() {
+                    Some(preg) if !checker.stack_pregs.contains(preg) => preg,
+                    _ => return Err(CheckerError::AllocationIsNotReg { inst, op, alloc }),
+                };
+                if preg.hw_enc() >= max {
+                    return Err(CheckerError::AllocationOutsideLimit {
+                        inst,
+                        op,
+                        alloc,
+                        range: (0..max),
+                    });
                 }
             }
         }
-- 
2.43.0


From ef01a28b82d7c484129558d990b06b04744bb8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 24/24] fix: checker: a reused input in a fixed stack slot is
 not in a register

---
 src/checker.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/checker.rs b/src/checker.rs
index b30a1fc..cd80b16 100644
--- a/src/checker.rs
+++ b/src/checker.rs
@@ -671,7 +671,11 @@ impl CheckerState {
                 }
             }
             OperandConstraint::Reuse(idx) => {
-                if alloc.kind() != AllocationKind::Reg {
+                // As for `Reg`, only a register will do.
+                if alloc
+                    .as_reg()
+                    .map_or(true, |preg| checker.stack_pregs.contains(preg))
+                {
                     return Err(CheckerError::AllocationIsNotReg { inst, op, alloc });
                 }
                 if alloc != allocs[idx] {
-- 
2.43.0

