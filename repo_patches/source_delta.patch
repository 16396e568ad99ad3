From c1ec4678a46d357cd23bf6cb117321cafaf2210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:05 +0000
Subject: [PATCH 1/9] fix: reject instructions whose word count is zero

The count includes the opcode word, so zero is never valid; it was read as one.
---
 src/spv/raw/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index 994a45b..670c82d 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -129,6 +129,9 @@ fn read_instruction(stream: &mut Stream,
     let head = try!(stream.read_word());
     let id = (head & 0xFFFF) as u16;
     let wc = (head >> 16) as u16;
+    if wc == 0 {
+        return Err(ReadError::WrongWordCountForOp);
+    }
     let mut words = Vec::with_capacity(wc as usize);
     words.push(head);
     for _ in 1..wc {
-- 
2.43.0


From 1b68e1c92582c5f0d4771df8ccbc802f2d25bc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:07 +0000
Subject: [PATCH 2/9] fix: look at all bits of the version word

Only the low half of three of its bytes was checked, so for example 17.0 was
accepted and reported as 1.0.
---
 src/spv/raw/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index 670c82d..f1c0cd6 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -26,9 +26,9 @@ pub fn read_module<'a>(data: &'a [u8],
 
     let ver_word = try!(stream.read_word());
     let ver_high = (ver_word >> 24) as u8;
-    let ver_major = ((ver_word >> 16) & 0xF) as u8;
-    let ver_minor = ((ver_word >> 8) & 0xF) as u8;
-    let ver_low = (ver_word & 0xF) as u8;
+    let ver_major = ((ver_word >> 16) & 0xFF) as u8;
+    let ver_minor = ((ver_word >> 8) & 0xFF) as u8;
+    let ver_low = (ver_word & 0xFF) as u8;
     let version = match (ver_high, ver_major, ver_minor, ver_low) {
         (0, 1, 0, 0) => Version(ver_major, ver_minor),
         (v3, v2, v1, v0) => return Err(ReadError::UnknownVersionBytes(v3, v2, v1, v0)),
-- 
2.43.0


From 4b9a1592463fe1648ded25c4ab6fa6413d3723dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:09 +0000
Subject: [PATCH 3/9] fix: reject every unknown flag bit

Unknown bits in the upper half of a mask, bit 5 of the fast math mode and all
unknown bits of the function control were dropped silently.
---
 src/spv/raw/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index 21a6f01..9a6d519 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -299,6 +299,7 @@ pub enum ReadError {
     UnknownAccessQualifier(u32),
     UnknownLoopControl(u32),
     UnknownSelectionControl(u32),
+    UnknownFunctionControl(u32),
 }
 
 impl Display for ReadError {
@@ -350,6 +351,7 @@ impl Error for ReadError {
             UnknownAccessQualifier(_) => "unknown access qualifier",
             UnknownLoopControl(_) => "unknown loop control",
             UnknownSelectionControl(_) => "unknown selection control",
+            UnknownFunctionControl(_) => "unknown function control",
         }
     }
 }
@@ -828,6 +830,9 @@ impl MemoryBlockRead for StorageClass {
 impl MemoryBlockRead for FunctionControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<FunctionControl> {
         let (block, value) = try!(block.read_word());
+        if (value & !0xF) != 0 {
+            return Err(ReadError::UnknownFunctionControl(value));
+        }
         let function_control = FunctionControl {
             inline: (value & 0x1) != 0,
             dont_inline: (value & 0x2) != 0,
@@ -841,7 +846,7 @@ impl MemoryBlockRead for FunctionControl {
 impl MemoryBlockRead for MemoryAccess {
     fn read(block: MemoryBlock) -> MemoryBlockResult<MemoryAccess> {
         let (block, memory_access_word) = try!(block.read_word());
-        if (memory_access_word & 0xFFF8) != 0 {
+        if (memory_access_word & !0x7) != 0 {
             return Err(ReadError::UnknownMemoryAccess(memory_access_word));
         }
         let memory_access = MemoryAccess {
@@ -939,7 +944,7 @@ impl MemoryBlockRead for FpRoundingMode {
 impl MemoryBlockRead for FpFastMathMode {
     fn read(block: MemoryBlock) -> MemoryBlockResult<FpFastMathMode> {
         let (block, id) = try!(block.read_word());
-        if (id & 0xFFC0) != 0 {
+        if (id & !0x1F) != 0 {
             return Err(ReadError::UnknownFpFastMathMode(id));
         }
         let fast_math_mode = FpFastMathMode {
@@ -1079,7 +1084,7 @@ impl MemoryBlockRead for Decoration {
 impl MemoryBlockRead for LoopControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<LoopControl> {
         let (block, word) = try!(block.read_word());
-        if word & 0xFFF0 != 0 {
+        if word & !0xF != 0 {
             return Err(ReadError::UnknownLoopControl(word));
         }
         let dependency_length_val = (word & 0x8) != 0;
@@ -1102,7 +1107,7 @@ impl MemoryBlockRead for LoopControl {
 impl MemoryBlockRead for SelectionControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<SelectionControl> {
         let (block, word) = try!(block.read_word());
-        if word & 0xFFFC != 0 {
+        if word & !0x3 != 0 {
             return Err(ReadError::UnknownSelectionControl(word));
         }
         let selection_control = SelectionControl {
-- 
2.43.0


From abfc21edfbff1ef3eda28bd6d891e74659b779ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:11 +0000
Subject: [PATCH 4/9] fix: quote the name of LinkageAttributes in the
 disassembly

Like every other string operand.
---
 src/spv/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spv/types.rs b/src/spv/types.rs
index 6723cdf..a86ed9e 100644
--- a/src/spv/types.rs
+++ b/src/spv/types.rs
@@ -242,7 +242,7 @@ impl Display for Decoration {
                 return write!(f, "FpFastMathMode {}", fast_math_mode)
             }
             Decoration::LinkageAttributes(ref name, ref lt) => {
-                return write!(f, "LinkageAttributes {} {}", name, lt)
+                return write!(f, "LinkageAttributes \"{}\" {}", name, lt)
             }
             Decoration::NoContraction => "NoContraction",
             Decoration::InputAttachmentIndex(ref n) => {
-- 
2.43.0


From 2a70e1da6d6d349430f3c98e05d97a11b9a32875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:13 +0000
Subject: [PATCH 5/9] fix: read the alignment of aligned memory accesses

The Aligned flag is followed by a literal. It was not read, so valid aligned
loads and stores were rejected for having excess data.
---
 src/spv/raw/mod.rs |  8 +++++++-
 src/spv/types.rs   | 11 ++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index 9a6d519..ce01b30 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -849,9 +849,15 @@ impl MemoryBlockRead for MemoryAccess {
         if (memory_access_word & !0x7) != 0 {
             return Err(ReadError::UnknownMemoryAccess(memory_access_word));
         }
+        let (block, aligned) = if (memory_access_word & 0x2) != 0 {
+            let (block, alignment) = try!(block.read_word());
+            (block, Some(alignment))
+        } else {
+            (block, None)
+        };
         let memory_access = MemoryAccess {
             volatile: (memory_access_word & 0x1) != 0,
-            aligned: (memory_access_word & 0x2) != 0,
+            aligned: aligned,
             non_temporal: (memory_access_word & 0x4) != 0,
         };
         Ok((block, memory_access))
diff --git a/src/spv/types.rs b/src/spv/types.rs
index a86ed9e..1cbf44b 100644
--- a/src/spv/types.rs
+++ b/src/spv/types.rs
@@ -1106,7 +1106,8 @@ pub struct ImageOperands {
 #[derive(Clone, Debug, Default, PartialEq)]
 pub struct MemoryAccess {
     pub volatile: bool,
-    pub aligned: bool,
+    /// Alignment of the access, if stated
+    pub aligned: Option<u32>,
     pub non_temporal: bool,
 }
 
@@ -1114,13 +1115,13 @@ impl Display for MemoryAccess {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let mut parts = Vec::new();
         if self.volatile {
-            parts.push("Volatile");
+            parts.push("Volatile".to_string());
         }
-        if self.aligned {
-            parts.push("Aligned");
+        if let Some(alignment) = self.aligned {
+            parts.push(format!("Aligned({})", alignment));
         }
         if self.non_temporal {
-            parts.push("Nontemporal");
+            parts.push("Nontemporal".to_string());
         }
         if parts.len() == 0 {
             write!(f, "None")
-- 
2.43.0


From c9df6118e5aeea6b43e75800e3e1926bcad52fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:15 +0000
Subject: [PATCH 6/9] fix: do not recurse once per instruction when validating

Sections of some thousand instructions overflowed the stack.
---
 src/spv/logical/parser/parser.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/spv/logical/parser/parser.rs b/src/spv/logical/parser/parser.rs
index 64ef29e..f813ce8 100644
--- a/src/spv/logical/parser/parser.rs
+++ b/src/spv/logical/parser/parser.rs
@@ -93,23 +93,20 @@ enum PhaseResult<'a, T> {
     Err(ValidationError),
 }
 
-fn read_many<T>(insts: OpSlice,
+fn read_many<T>(mut insts: OpSlice,
                 f: fn(OpSlice) -> PhaseResult<T>)
                 -> ValidationResult<(Vec<T>, OpSlice)> {
-    fn read_rest<T>(insts: OpSlice,
-                    f: fn(OpSlice) -> PhaseResult<T>,
-                    mut output: Vec<T>)
-                    -> ValidationResult<(Vec<T>, OpSlice)> {
+    let mut output = Vec::new();
+    loop {
         match f(insts) {
             PhaseResult::Ok(item, next) => {
                 output.push(item);
-                read_rest(next, f, output)
+                insts = next;
             }
-            PhaseResult::Next(next) => Ok((output, next)),
-            PhaseResult::Err(err) => Err(err),
+            PhaseResult::Next(next) => return Ok((output, next)),
+            PhaseResult::Err(err) => return Err(err),
         }
     }
-    read_rest(insts, f, Vec::new())
 }
 
 fn read_capability(insts: OpSlice) -> PhaseResult<Capability> {
-- 
2.43.0


From 0b292a04abacac811885903c13c1e8b5541509aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:17 +0000
Subject: [PATCH 7/9] fix: report unsupported merges instead of panicking

A selection merge before an unconditional branch and a loop merge before a
conditional one ended in unimplemented!().
---
 src/spv/logical/control_flow.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index af7fe16..cd3b341 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -326,7 +326,7 @@ fn search_block(id: BlockId,
 
                     Ok((chain, next_next))
                 }
-                _ => unimplemented!(),
+                _ => Err(ControlFlowError::CouldNotPredictConverge(id)),
             }
         }
         GroupBranch::OpBranchConditional(ref op) => {
@@ -368,7 +368,9 @@ fn search_block(id: BlockId,
                     }
                 }
                 // Loop construct
-                Some(GroupMerge::OpLoopMerge(_)) => unimplemented!(),
+                Some(GroupMerge::OpLoopMerge(_)) => {
+                    Err(ControlFlowError::CouldNotPredictConverge(id))
+                }
                 None => {
                     let (head, merge) = match flow_list.innermost_loop() {
                         Some(l) => l,
-- 
2.43.0


From bad4136c7a79adb49e4faa5a2aafcf88ec563d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:54 +0000
Subject: [PATCH 8/9] fix: terminate control flow recovery on cyclic graphs and
 long sequences

search_block recursed once per block, overflowing the stack on functions
with many blocks, and never ended on cycles that no loop accounts for.
Walk each sequence in a loop and report a block that is reached again.
---
 src/spv/logical/control_flow.rs | 262 ++++++++++++++++++--------------
 1 file changed, 145 insertions(+), 117 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index cd3b341..35ecbb2 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -1,5 +1,5 @@
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt;
 use std::rc::Rc;
 
@@ -176,7 +176,7 @@ pub fn find_control_flow(decl: FunctionDefinition) -> ControlFlowResult<ControlF
         None => return Err(ControlFlowError::NoBlocks),
     };
 
-    let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map));
+    let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map, &mut HashSet::new()));
 
     match next {
         Continue::Return => Ok(chain),
@@ -194,7 +194,7 @@ enum Continue {
 /// Marks how we're meant to converge from the children of a block
 #[derive(Clone, Debug, PartialEq)]
 enum Converge {
-    If(BlockId, SelectionControl),
+    If(BlockId, BlockId, SelectionControl),
     Loop(BlockId, BlockId, LoopControl),
 }
 
@@ -207,7 +207,7 @@ struct FlowNode {
 impl FlowNode {
     fn merges(&self, id: &BlockId) -> bool {
         match self.converge {
-            Converge::If(join, _) |
+            Converge::If(_, join, _) |
             Converge::Loop(join, _, _) => {
                 if join == *id {
                     return true;
@@ -220,6 +220,18 @@ impl FlowNode {
         }
     }
 
+    fn selects(&self, id: &BlockId) -> bool {
+        if let Converge::If(ref head, _, _) = self.converge {
+            if head == id {
+                return true;
+            }
+        }
+        match self.ptr {
+            Some(ref node) => node.selects(id),
+            None => false,
+        }
+    }
+
     fn innermost_loop(&self) -> Option<(BlockId, BlockId)> {
         if let Converge::Loop(ref head, ref merge, _) = self.converge {
             return Some((*head, *merge));
@@ -260,6 +272,14 @@ impl FlowList {
         }
     }
 
+    /// Check if a block is the header of a selection we're inside
+    fn selects(&self, id: &BlockId) -> bool {
+        match self.head {
+            Some(ref node) => node.selects(id),
+            None => false,
+        }
+    }
+
     /// Find the merge block for the innermost loop
     fn innermost_loop(&self) -> Option<(BlockId, BlockId)> {
         match self.head {
@@ -269,148 +289,156 @@ impl FlowList {
     }
 }
 
-fn search_block(id: BlockId,
+/// Parse a sequence of constructs until it ends or leaves the current flow list
+///
+/// `visited` holds the blocks the sequence has already been through. Getting to one of
+/// them again, or to a selection we're still inside, is a cycle that no loop accounts for.
+fn search_block(start: BlockId,
                 flow_list: &FlowList,
-                block_map: &BlockMap)
+                block_map: &BlockMap,
+                visited: &mut HashSet<BlockId>)
                 -> ControlFlowResult<(ControlFlowChain, Continue)> {
 
-    if flow_list.merges(&id) {
-        return Ok((ControlFlowChain::block(vec![]), Continue::Next(id)));
-    }
-
-    let block = match block_map.get(&id) {
-        Some(block) => block,
-        None => return Err(ControlFlowError::UnknownBlockId(id)),
-    };
+    let mut chains = vec![];
+    let mut id = start;
 
-    match block.branch {
-        GroupBranch::OpBranch(ref op) => {
-            let current = ControlFlowChain::Atom(id);
+    loop {
+        if flow_list.merges(&id) {
+            chains.push(ControlFlowChain::block(vec![]));
+            return Ok((ControlFlowChain::block(chains), Continue::Next(id)));
+        }
 
-            let next_id = BlockId(op.target_label.0);
+        let block = match block_map.get(&id) {
+            Some(block) => block,
+            None => return Err(ControlFlowError::UnknownBlockId(id)),
+        };
 
-            match block.merge {
-                // Loop construct
-                Some(GroupMerge::OpLoopMerge(ref loop_merge)) => {
-                    let head = id;
-                    let after = BlockId(loop_merge.merge_block.0);
-                    let hints = loop_merge.loop_control.clone();
-                    let converge = Converge::Loop(head, after, hints.clone());
+        if flow_list.selects(&id) || !visited.insert(id) {
+            return Err(ControlFlowError::CouldNotPredictConverge(id));
+        }
 
-                    // Set up inner flow list
-                    let inner_fl = flow_list.extend(converge.clone());
+        match block.branch {
+            GroupBranch::OpBranch(ref op) => {
+                let next_id = BlockId(op.target_label.0);
 
-                    // Recursive parse branches
-                    let (inner_chain, inner_next) =
-                        try!(search_block(next_id, &inner_fl, block_map));
+                match block.merge {
+                    // Loop construct
+                    Some(GroupMerge::OpLoopMerge(ref loop_merge)) => {
+                        let head = id;
+                        let after = BlockId(loop_merge.merge_block.0);
+                        let hints = loop_merge.loop_control.clone();
+                        let converge = Converge::Loop(head, after, hints.clone());
 
-                    if inner_next == Continue::Next(head) {
-                        let inner_box = Box::new(inner_chain);
+                        // Set up inner flow list
+                        let inner_fl = flow_list.extend(converge);
 
-                        let ctc = ControlFlowChain::Loop(id, inner_box, hints, None);
+                        // Recursive parse branches
+                        let (inner_chain, inner_next) =
+                            try!(search_block(next_id, &inner_fl, block_map, &mut HashSet::new()));
 
-                        let (after_chain, after_next) =
-                            try!(search_block(after, flow_list, block_map));
+                        if inner_next != Continue::Next(head) {
+                            let control = ControlType::Loop;
+                            return Err(ControlFlowError::InvalidConvergePrediction(control, id));
+                        }
 
-                        let chain = ControlFlowChain::block(vec![ctc, after_chain]);
+                        let inner_box = Box::new(inner_chain);
+                        chains.push(ControlFlowChain::Loop(id, inner_box, hints, None));
 
-                        Ok((chain, after_next))
-                    } else {
-                        Err(ControlFlowError::InvalidConvergePrediction(ControlType::Loop, id))
+                        id = after;
                     }
-                }
-                None => {
-                    let (next_chain, next_next) = try!(search_block(next_id, flow_list, block_map));
-
-                    let chain = ControlFlowChain::block(vec![current, next_chain]);
+                    None => {
+                        chains.push(ControlFlowChain::Atom(id));
 
-                    Ok((chain, next_next))
+                        id = next_id;
+                    }
+                    _ => return Err(ControlFlowError::CouldNotPredictConverge(id)),
                 }
-                _ => Err(ControlFlowError::CouldNotPredictConverge(id)),
             }
-        }
-        GroupBranch::OpBranchConditional(ref op) => {
-
-            let true_block = BlockId(op.true_label.0);
-            let false_block = BlockId(op.false_label.0);
-
-            match block.merge {
-                // Selection construct
-                Some(GroupMerge::OpSelectionMerge(ref selection)) => {
-                    let merge = BlockId(selection.merge_block.0);
-                    let hints = selection.selection_control.clone();
-                    let converge = Converge::If(merge, hints.clone());
-
-                    // Set up inner flow list
-                    let inner_fl = flow_list.extend(converge.clone());
-
-                    // Recursive parse branches
-                    let (true_chain, true_next) =
-                        try!(search_block(true_block, &inner_fl, block_map));
-                    let (false_chain, false_next) =
-                        try!(search_block(false_block, &inner_fl, block_map));
-
-                    if true_next == false_next && true_next == Continue::Next(merge) {
+            GroupBranch::OpBranchConditional(ref op) => {
+
+                let true_block = BlockId(op.true_label.0);
+                let false_block = BlockId(op.false_label.0);
+                let weights = op.weights.clone();
+
+                match block.merge {
+                    // Selection construct
+                    Some(GroupMerge::OpSelectionMerge(ref selection)) => {
+                        let merge = BlockId(selection.merge_block.0);
+                        let hints = selection.selection_control.clone();
+                        let converge = Converge::If(id, merge, hints.clone());
+
+                        // Set up inner flow list
+                        let inner_fl = flow_list.extend(converge);
+
+                        // Recursive parse branches
+                        let (true_chain, true_next) = try!(search_block(true_block,
+                                                                        &inner_fl,
+                                                                        block_map,
+                                                                        &mut HashSet::new()));
+                        let (false_chain, false_next) = try!(search_block(false_block,
+                                                                          &inner_fl,
+                                                                          block_map,
+                                                                          &mut HashSet::new()));
+
+                        if true_next != false_next || true_next != Continue::Next(merge) {
+                            let control = ControlType::Selection;
+                            return Err(ControlFlowError::InvalidConvergePrediction(control, id));
+                        }
 
                         let true_b = Box::new(true_chain);
                         let false_b = Box::new(false_chain);
-                        let weights = op.weights.clone();
                         let ctc = ControlFlowChain::Selection(id, true_b, false_b, hints, weights);
+                        chains.push(ctc);
 
-                        let (next_chain, next_next) =
-                            try!(search_block(merge, flow_list, block_map));
-
-                        let chain = ControlFlowChain::block(vec![ctc, next_chain]);
-
-                        Ok((chain, next_next))
-                    } else {
-                        Err(ControlFlowError::InvalidConvergePrediction(ControlType::Selection, id))
+                        id = merge;
                     }
-                }
-                // Loop construct
-                Some(GroupMerge::OpLoopMerge(_)) => {
-                    Err(ControlFlowError::CouldNotPredictConverge(id))
-                }
-                None => {
-                    let (head, merge) = match flow_list.innermost_loop() {
-                        Some(l) => l,
-                        None => return Err(ControlFlowError::CouldNotPredictConverge(id)),
-                    };
-                    let is_break = false_block == merge;
-                    let is_continue = false_block == head;
-                    if is_break || is_continue {
+                    // Loop construct
+                    Some(GroupMerge::OpLoopMerge(_)) => {
+                        return Err(ControlFlowError::CouldNotPredictConverge(id));
+                    }
+                    None => {
+                        let (head, merge) = match flow_list.innermost_loop() {
+                            Some(l) => l,
+                            None => return Err(ControlFlowError::CouldNotPredictConverge(id)),
+                        };
+                        let is_break = false_block == merge;
+                        let is_continue = false_block == head;
+                        if !is_break && !is_continue {
+                            return Err(ControlFlowError::CouldNotPredictConverge(id));
+                        }
+
                         // Break block or Continue block
 
-                        let inner = try!(search_block(true_block, &flow_list, block_map));
-                        let (inner_chain, inner_next) = inner;
-
-                        if inner_next == Continue::Next(head) {
-                            let inner_box = Box::new(inner_chain);
-                            let break_box = if is_break {
-                                Box::new(ControlFlowChain::Break)
-                            } else {
-                                Box::new(ControlFlowChain::Continue)
-                            };
-                            let weights = op.weights.clone();
-                            let ctc = ControlFlowChain::Selection(id,
-                                                                  inner_box,
-                                                                  break_box,
-                                                                  SelectionControl::default(),
-                                                                  weights);
-
-                            Ok((ctc, inner_next))
-                        } else {
-                            Err(ControlFlowError::InvalidConvergePrediction(ControlType::Loop, id))
+                        let (inner_chain, inner_next) =
+                            try!(search_block(true_block, flow_list, block_map, visited));
+
+                        if inner_next != Continue::Next(head) {
+                            let control = ControlType::Loop;
+                            return Err(ControlFlowError::InvalidConvergePrediction(control, id));
                         }
-                    } else {
-                        return Err(ControlFlowError::CouldNotPredictConverge(id));
+
+                        let inner_box = Box::new(inner_chain);
+                        let break_box = if is_break {
+                            Box::new(ControlFlowChain::Break)
+                        } else {
+                            Box::new(ControlFlowChain::Continue)
+                        };
+                        let hints = SelectionControl::default();
+                        chains.push(ControlFlowChain::Selection(id,
+                                                                inner_box,
+                                                                break_box,
+                                                                hints,
+                                                                weights));
+
+                        return Ok((ControlFlowChain::block(chains), inner_next));
                     }
                 }
             }
-        }
-        GroupBranch::OpReturn(_) => {
-            // Return block
-            Ok((ControlFlowChain::Atom(id), Continue::Return))
+            GroupBranch::OpReturn(_) => {
+                // Return block
+                chains.push(ControlFlowChain::Atom(id));
+                return Ok((ControlFlowChain::block(chains), Continue::Return));
+            }
         }
     }
 }
-- 
2.43.0


From a4104433dc42925c8cb70468eadc5c6e95fc678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:15 +0000
Subject: [PATCH 9/9] fix: do not divide by zero when reading a list of small
 elements

---
 src/spv/raw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index ce01b30..53b0c42 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -411,7 +411,7 @@ impl MemoryBlockRead for ResultId {
 
 impl<T: MemoryBlockRead> MemoryBlockRead for Vec<T> {
     fn read(mut block: MemoryBlock) -> MemoryBlockResult<Vec<T>> {
-        let item_word_size = std::cmp::min(1, std::mem::size_of::<T>() / 4);
+        let item_word_size = std::cmp::max(1, std::mem::size_of::<T>() / 4);
         let assumed_size = block.remaining() / item_word_size;
         let mut items = Vec::with_capacity(assumed_size);
         while block.remaining() > 0 {
-- 
2.43.0

