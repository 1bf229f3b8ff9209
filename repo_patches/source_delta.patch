From 6f25ce4583e022eeeeae4400affade17fd174580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:35 +0000
Subject: [PATCH 01/12] fix: refuse instructions with a word count of zero

---
 src/spv/raw/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index 994a45b..670c82d 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -129,6 +129,9 @@ fn read_instruction(stream: &mut Stream,
     let head = try!(stream.read_word());
     let id = (head & 0xFFFF) as u16;
     let wc = (head >> 16) as u16;
+    if wc == 0 {
+        return Err(ReadError::WrongWordCountForOp);
+    }
     let mut words = Vec::with_capacity(wc as usize);
     words.push(head);
     for _ in 1..wc {
-- 
2.43.0


From 7b6a0e210fb5d7c61d1177fe152cf7859bc979e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:36 +0000
Subject: [PATCH 02/12] fix: compare all bits of the version word

---
 src/spv/raw/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index 670c82d..f1c0cd6 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -26,9 +26,9 @@ pub fn read_module<'a>(data: &'a [u8],
 
     let ver_word = try!(stream.read_word());
     let ver_high = (ver_word >> 24) as u8;
-    let ver_major = ((ver_word >> 16) & 0xF) as u8;
-    let ver_minor = ((ver_word >> 8) & 0xF) as u8;
-    let ver_low = (ver_word & 0xF) as u8;
+    let ver_major = ((ver_word >> 16) & 0xFF) as u8;
+    let ver_minor = ((ver_word >> 8) & 0xFF) as u8;
+    let ver_low = (ver_word & 0xFF) as u8;
     let version = match (ver_high, ver_major, ver_minor, ver_low) {
         (0, 1, 0, 0) => Version(ver_major, ver_minor),
         (v3, v2, v1, v0) => return Err(ReadError::UnknownVersionBytes(v3, v2, v1, v0)),
-- 
2.43.0


From 68c2e37e803b9ec53585f6d46e620bdfc9f8ac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:38 +0000
Subject: [PATCH 03/12] fix: refuse undefined bits anywhere in a mask operand

---
 src/spv/raw/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index 21a6f01..e877c03 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -289,6 +289,7 @@ pub enum ReadError {
     UnknownSignedness(u32),
     UnknownStorageClass(u32),
     UnknownFunctionParameterAttribute(u32),
+    UnknownFunctionControl(u32),
     UnknownMemoryAccess(u32),
     UnknownDim(u32),
     UnknownDepthStatus(u32),
@@ -340,6 +341,7 @@ impl Error for ReadError {
             UnknownSignedness(_) => "unknown signedness",
             UnknownStorageClass(_) => "unknown storage class",
             UnknownFunctionParameterAttribute(_) => "unknown function parameter attribute",
+            UnknownFunctionControl(_) => "unknown function control",
             UnknownMemoryAccess(_) => "unknown memory access",
             UnknownDim(_) => "unknown image dimension",
             UnknownDepthStatus(_) => "unknown image depth hint",
@@ -828,6 +830,9 @@ impl MemoryBlockRead for StorageClass {
 impl MemoryBlockRead for FunctionControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<FunctionControl> {
         let (block, value) = try!(block.read_word());
+        if (value & !0xF) != 0 {
+            return Err(ReadError::UnknownFunctionControl(value));
+        }
         let function_control = FunctionControl {
             inline: (value & 0x1) != 0,
             dont_inline: (value & 0x2) != 0,
@@ -841,7 +846,7 @@ impl MemoryBlockRead for FunctionControl {
 impl MemoryBlockRead for MemoryAccess {
     fn read(block: MemoryBlock) -> MemoryBlockResult<MemoryAccess> {
         let (block, memory_access_word) = try!(block.read_word());
-        if (memory_access_word & 0xFFF8) != 0 {
+        if (memory_access_word & !0x7) != 0 {
             return Err(ReadError::UnknownMemoryAccess(memory_access_word));
         }
         let memory_access = MemoryAccess {
@@ -939,7 +944,7 @@ impl MemoryBlockRead for FpRoundingMode {
 impl MemoryBlockRead for FpFastMathMode {
     fn read(block: MemoryBlock) -> MemoryBlockResult<FpFastMathMode> {
         let (block, id) = try!(block.read_word());
-        if (id & 0xFFC0) != 0 {
+        if (id & !0x1F) != 0 {
             return Err(ReadError::UnknownFpFastMathMode(id));
         }
         let fast_math_mode = FpFastMathMode {
@@ -1079,7 +1084,7 @@ impl MemoryBlockRead for Decoration {
 impl MemoryBlockRead for LoopControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<LoopControl> {
         let (block, word) = try!(block.read_word());
-        if word & 0xFFF0 != 0 {
+        if word & !0xF != 0 {
             return Err(ReadError::UnknownLoopControl(word));
         }
         let dependency_length_val = (word & 0x8) != 0;
@@ -1102,7 +1107,7 @@ impl MemoryBlockRead for LoopControl {
 impl MemoryBlockRead for SelectionControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<SelectionControl> {
         let (block, word) = try!(block.read_word());
-        if word & 0xFFFC != 0 {
+        if word & !0x3 != 0 {
             return Err(ReadError::UnknownSelectionControl(word));
         }
         let selection_control = SelectionControl {
-- 
2.43.0


From b5223d8fa1cf5cb7950c3efb3a63ec0cdc3d837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:39 +0000
Subject: [PATCH 04/12] fix: read the alignment literal of the Aligned memory
 access

---
 src/spv/raw/mod.rs |  8 +++++++-
 src/spv/types.rs   | 10 +++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index e877c03..f7862ae 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -849,9 +849,15 @@ impl MemoryBlockRead for MemoryAccess {
         if (memory_access_word & !0x7) != 0 {
             return Err(ReadError::UnknownMemoryAccess(memory_access_word));
         }
+        let (block, aligned) = if (memory_access_word & 0x2) != 0 {
+            let (block, num) = try!(block.read_word());
+            (block, Some(num))
+        } else {
+            (block, None)
+        };
         let memory_access = MemoryAccess {
             volatile: (memory_access_word & 0x1) != 0,
-            aligned: (memory_access_word & 0x2) != 0,
+            aligned: aligned,
             non_temporal: (memory_access_word & 0x4) != 0,
         };
         Ok((block, memory_access))
diff --git a/src/spv/types.rs b/src/spv/types.rs
index 6723cdf..b487192 100644
--- a/src/spv/types.rs
+++ b/src/spv/types.rs
@@ -1106,7 +1106,7 @@ pub struct ImageOperands {
 #[derive(Clone, Debug, Default, PartialEq)]
 pub struct MemoryAccess {
     pub volatile: bool,
-    pub aligned: bool,
+    pub aligned: Option<u32>,
     pub non_temporal: bool,
 }
 
@@ -1114,13 +1114,13 @@ impl Display for MemoryAccess {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let mut parts = Vec::new();
         if self.volatile {
-            parts.push("Volatile");
+            parts.push("Volatile".to_string());
         }
-        if self.aligned {
-            parts.push("Aligned");
+        if let Some(num) = self.aligned {
+            parts.push(format!("Aligned({})", num));
         }
         if self.non_temporal {
-            parts.push("Nontemporal");
+            parts.push("Nontemporal".to_string());
         }
         if parts.len() == 0 {
             write!(f, "None")
-- 
2.43.0


From a780320378bbd4ef36098b5ae3c89de75f3a7bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:40 +0000
Subject: [PATCH 05/12] fix: do not divide by zero when reading lists of
 one-byte operands

---
 src/spv/raw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index f7862ae..2e534ca 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -411,7 +411,7 @@ impl MemoryBlockRead for ResultId {
 
 impl<T: MemoryBlockRead> MemoryBlockRead for Vec<T> {
     fn read(mut block: MemoryBlock) -> MemoryBlockResult<Vec<T>> {
-        let item_word_size = std::cmp::min(1, std::mem::size_of::<T>() / 4);
+        let item_word_size = std::cmp::max(1, std::mem::size_of::<T>() / 4);
         let assumed_size = block.remaining() / item_word_size;
         let mut items = Vec::with_capacity(assumed_size);
         while block.remaining() > 0 {
-- 
2.43.0


From a2adda3bff8f688545c5dc3fb821ee66d9fcdb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:42 +0000
Subject: [PATCH 06/12] fix: read sections of a module without recursing per
 instruction

---
 src/spv/logical/parser/parser.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/spv/logical/parser/parser.rs b/src/spv/logical/parser/parser.rs
index 64ef29e..c2623a5 100644
--- a/src/spv/logical/parser/parser.rs
+++ b/src/spv/logical/parser/parser.rs
@@ -96,20 +96,18 @@ enum PhaseResult<'a, T> {
 fn read_many<T>(insts: OpSlice,
                 f: fn(OpSlice) -> PhaseResult<T>)
                 -> ValidationResult<(Vec<T>, OpSlice)> {
-    fn read_rest<T>(insts: OpSlice,
-                    f: fn(OpSlice) -> PhaseResult<T>,
-                    mut output: Vec<T>)
-                    -> ValidationResult<(Vec<T>, OpSlice)> {
+    let mut insts = insts;
+    let mut output = Vec::new();
+    loop {
         match f(insts) {
             PhaseResult::Ok(item, next) => {
                 output.push(item);
-                read_rest(next, f, output)
+                insts = next;
             }
-            PhaseResult::Next(next) => Ok((output, next)),
-            PhaseResult::Err(err) => Err(err),
+            PhaseResult::Next(next) => return Ok((output, next)),
+            PhaseResult::Err(err) => return Err(err),
         }
     }
-    read_rest(insts, f, Vec::new())
 }
 
 fn read_capability(insts: OpSlice) -> PhaseResult<Capability> {
-- 
2.43.0


From d0d3b206f826412e0bb052df9d7955fd6eeb0b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:43 +0000
Subject: [PATCH 07/12] fix: refuse functions without blocks after a function
 definition

---
 src/spv/logical/parser/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spv/logical/parser/parser.rs b/src/spv/logical/parser/parser.rs
index c2623a5..7d19874 100644
--- a/src/spv/logical/parser/parser.rs
+++ b/src/spv/logical/parser/parser.rs
@@ -276,6 +276,11 @@ fn read_function_definition(insts: OpSlice) -> PhaseResult<FunctionDefinition> {
                     Err(err) => return PhaseResult::Err(err),
                 };
                 if let Some(&OpByBlock::OpFunctionEnd(_)) = insts.first() {
+                    if blocks.is_empty() {
+                        // A declaration is not allowed after a definition
+                        let slot = insts.get_slot();
+                        return PhaseResult::Err(ValidationError::UnexpectedInstruction(slot));
+                    }
                     let insts = insts.advance();
                     let def = FunctionDefinition {
                         function: op.clone(),
-- 
2.43.0


From 85c2828c66cfd5a60182cb53c53db512e4dc4666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:20 +0000
Subject: [PATCH 08/12] fix: report unsupported merge and branch combinations
 instead of panicking

---
 src/spv/logical/control_flow.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index af7fe16..e2d925f 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -326,7 +326,9 @@ fn search_block(id: BlockId,
 
                     Ok((chain, next_next))
                 }
-                _ => unimplemented!(),
+                Some(GroupMerge::OpSelectionMerge(_)) => {
+                    Err(ControlFlowError::CouldNotPredictConverge(id))
+                }
             }
         }
         GroupBranch::OpBranchConditional(ref op) => {
@@ -368,7 +370,9 @@ fn search_block(id: BlockId,
                     }
                 }
                 // Loop construct
-                Some(GroupMerge::OpLoopMerge(_)) => unimplemented!(),
+                Some(GroupMerge::OpLoopMerge(_)) => {
+                    Err(ControlFlowError::CouldNotPredictConverge(id))
+                }
                 None => {
                     let (head, merge) = match flow_list.innermost_loop() {
                         Some(l) => l,
-- 
2.43.0


From fa0020e66b3a98b05102d91823a1a3cb2a0a2186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:28 +0000
Subject: [PATCH 09/12] fix: refuse cycles without a loop header instead of
 recursing forever

---
 src/spv/logical/control_flow.rs | 39 +++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index e2d925f..8077123 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -1,5 +1,5 @@
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt;
 use std::rc::Rc;
 
@@ -176,7 +176,10 @@ pub fn find_control_flow(decl: FunctionDefinition) -> ControlFlowResult<ControlF
         None => return Err(ControlFlowError::NoBlocks),
     };
 
-    let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map));
+    let (chain, next) = try!(search_block(start,
+                                          &FlowList::new(),
+                                          &mut HashSet::new(),
+                                          &block_map));
 
     match next {
         Continue::Return => Ok(chain),
@@ -269,8 +272,13 @@ impl FlowList {
     }
 }
 
+/// Parse from a block until reaching a block that the flow list joins on or a return
+///
+/// The path holds the blocks being parsed since entering the innermost loop, as reaching
+/// one of these again means there is a cycle that doesn't go through a loop header.
 fn search_block(id: BlockId,
                 flow_list: &FlowList,
+                path: &mut HashSet<BlockId>,
                 block_map: &BlockMap)
                 -> ControlFlowResult<(ControlFlowChain, Continue)> {
 
@@ -283,7 +291,11 @@ fn search_block(id: BlockId,
         None => return Err(ControlFlowError::UnknownBlockId(id)),
     };
 
-    match block.branch {
+    if !path.insert(id) {
+        return Err(ControlFlowError::CouldNotPredictConverge(id));
+    }
+
+    let result = match block.branch {
         GroupBranch::OpBranch(ref op) => {
             let current = ControlFlowChain::Atom(id);
 
@@ -302,7 +314,7 @@ fn search_block(id: BlockId,
 
                     // Recursive parse branches
                     let (inner_chain, inner_next) =
-                        try!(search_block(next_id, &inner_fl, block_map));
+                        try!(search_block(next_id, &inner_fl, &mut HashSet::new(), block_map));
 
                     if inner_next == Continue::Next(head) {
                         let inner_box = Box::new(inner_chain);
@@ -310,7 +322,7 @@ fn search_block(id: BlockId,
                         let ctc = ControlFlowChain::Loop(id, inner_box, hints, None);
 
                         let (after_chain, after_next) =
-                            try!(search_block(after, flow_list, block_map));
+                            try!(search_block(after, flow_list, path, block_map));
 
                         let chain = ControlFlowChain::block(vec![ctc, after_chain]);
 
@@ -320,7 +332,8 @@ fn search_block(id: BlockId,
                     }
                 }
                 None => {
-                    let (next_chain, next_next) = try!(search_block(next_id, flow_list, block_map));
+                    let (next_chain, next_next) =
+                        try!(search_block(next_id, flow_list, path, block_map));
 
                     let chain = ControlFlowChain::block(vec![current, next_chain]);
 
@@ -348,9 +361,9 @@ fn search_block(id: BlockId,
 
                     // Recursive parse branches
                     let (true_chain, true_next) =
-                        try!(search_block(true_block, &inner_fl, block_map));
+                        try!(search_block(true_block, &inner_fl, path, block_map));
                     let (false_chain, false_next) =
-                        try!(search_block(false_block, &inner_fl, block_map));
+                        try!(search_block(false_block, &inner_fl, path, block_map));
 
                     if true_next == false_next && true_next == Continue::Next(merge) {
 
@@ -360,7 +373,7 @@ fn search_block(id: BlockId,
                         let ctc = ControlFlowChain::Selection(id, true_b, false_b, hints, weights);
 
                         let (next_chain, next_next) =
-                            try!(search_block(merge, flow_list, block_map));
+                            try!(search_block(merge, flow_list, path, block_map));
 
                         let chain = ControlFlowChain::block(vec![ctc, next_chain]);
 
@@ -383,7 +396,7 @@ fn search_block(id: BlockId,
                     if is_break || is_continue {
                         // Break block or Continue block
 
-                        let inner = try!(search_block(true_block, &flow_list, block_map));
+                        let inner = try!(search_block(true_block, &flow_list, path, block_map));
                         let (inner_chain, inner_next) = inner;
 
                         if inner_next == Continue::Next(head) {
@@ -414,7 +427,11 @@ fn search_block(id: BlockId,
             // Return block
             Ok((ControlFlowChain::Atom(id), Continue::Return))
         }
-    }
+    };
+
+    path.remove(&id);
+
+    result
 }
 
 pub struct ControlFlowFunctionPrinter<'a, 'b>(pub &'a FunctionDefinition, pub &'b ControlFlowChain);
-- 
2.43.0


From 8930d8e98e533c4031a45fe082f9404a181a4c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:48 +0000
Subject: [PATCH 10/12] fix: quote and escape every string in the disassembly

---
 src/spv/dis.rs   | 3 ++-
 src/spv/types.rs | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spv/dis.rs b/src/spv/dis.rs
index 2fe0335..f01652b 100644
--- a/src/spv/dis.rs
+++ b/src/spv/dis.rs
@@ -71,7 +71,8 @@ pub trait DisplayArg {
 
 impl DisplayArg for String {
     fn display_arg(&self, f: &mut Formatter) -> fmt::Result {
-        write!(f, "\"{}\"", self)
+        let escaped = self.replace("\\", "\\\\").replace("\"", "\\\"");
+        write!(f, "\"{}\"", escaped)
     }
 }
 
diff --git a/src/spv/types.rs b/src/spv/types.rs
index b487192..5fc5073 100644
--- a/src/spv/types.rs
+++ b/src/spv/types.rs
@@ -242,7 +242,9 @@ impl Display for Decoration {
                 return write!(f, "FpFastMathMode {}", fast_math_mode)
             }
             Decoration::LinkageAttributes(ref name, ref lt) => {
-                return write!(f, "LinkageAttributes {} {}", name, lt)
+                try!(write!(f, "LinkageAttributes "));
+                try!(DisplayArg::display_arg(name, f));
+                return write!(f, " {}", lt);
             }
             Decoration::NoContraction => "NoContraction",
             Decoration::InputAttachmentIndex(ref n) => {
-- 
2.43.0


From a66d19d99dd81a07391d2c438b30d1545ebe5e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:49 +0000
Subject: [PATCH 11/12] fix: print enumerants under their SPIR-V names

---
 src/spv/types.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spv/types.rs b/src/spv/types.rs
index 5fc5073..658b094 100644
--- a/src/spv/types.rs
+++ b/src/spv/types.rs
@@ -236,10 +236,10 @@ impl Display for Decoration {
             Decoration::XfbStride(ref n) => return write!(f, "XfbStride {}", n),
             Decoration::FuncParamAttr(ref foa) => return write!(f, "FuncParamAttr {}", foa),
             Decoration::FpRoundingMode(ref rounding_mode) => {
-                return write!(f, "FpRoundingMode {}", rounding_mode)
+                return write!(f, "FPRoundingMode {}", rounding_mode)
             }
             Decoration::FpFastMathMode(ref fast_math_mode) => {
-                return write!(f, "FpFastMathMode {}", fast_math_mode)
+                return write!(f, "FPFastMathMode {}", fast_math_mode)
             }
             Decoration::LinkageAttributes(ref name, ref lt) => {
                 try!(write!(f, "LinkageAttributes "));
@@ -320,7 +320,7 @@ impl Display for BuiltIn {
             BuiltIn::TessLevelOuter => "TessLevelOuter",
             BuiltIn::TessLevelInner => "TessLevelInner",
             BuiltIn::TessCoord => "TessCoord",
-            BuiltIn::PatchVerticies => "PatchVerticies",
+            BuiltIn::PatchVerticies => "PatchVertices",
             BuiltIn::FragCoord => "FragCoord",
             BuiltIn::PointCoord => "PointCoord",
             BuiltIn::FrontFacing => "FrontFacing",
@@ -425,8 +425,8 @@ impl Display for ExecutionModel {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let name = match *self {
             ExecutionModel::Vertex => "Vertex",
-            ExecutionModel::TesselationControl => "TesselationControl",
-            ExecutionModel::TesselationEvaluation => "TesselationEvaluation",
+            ExecutionModel::TesselationControl => "TessellationControl",
+            ExecutionModel::TesselationEvaluation => "TessellationEvaluation",
             ExecutionModel::Geometry => "Geometry",
             ExecutionModel::Fragment => "Fragment",
             ExecutionModel::GlCompute => "GLCompute",
@@ -505,7 +505,7 @@ impl Display for ExecutionMode {
             ExecutionMode::InputTrianglesAdjacency => "InputTrianglesAdjacency",
             ExecutionMode::Quads => "Quads",
             ExecutionMode::Isolines => "Isolines",
-            ExecutionMode::OutputVerticies(ref n) => return write!(f, "OutputVerticies {}", n),
+            ExecutionMode::OutputVerticies(ref n) => return write!(f, "OutputVertices {}", n),
             ExecutionMode::OutputPoints => "OutputPoints",
             ExecutionMode::OutputLineStrip => "OutputLineStrip",
             ExecutionMode::OutputTriangleStrip => "OutputTriangleStrip",
-- 
2.43.0


From 39ae526ff519e47be7d10db6ceffbb2bb54d0a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:37 +0000
Subject: [PATCH 12/12] fix: OpCompositeConstruct constituents are ids

SPIR-V 1.0 gives OpCompositeConstruct a list of constituent <id>s; as
literal member indices they were printed without the % of an id.
---
 src/spv/op.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spv/op.rs b/src/spv/op.rs
index d7ca114..8b341cc 100644
--- a/src/spv/op.rs
+++ b/src/spv/op.rs
@@ -1011,7 +1011,7 @@ def_op_display!(OpVectorShuffle; result_id = result_type | operand1 | operand2 |
 pub struct OpCompositeConstruct {
     pub result_type: OpId,
     pub result_id: ResultId,
-    pub constituents: Vec<MemberIndex>,
+    pub constituents: Vec<OpId>,
 }
 
 def_op_display!(OpCompositeConstruct; result_id = result_type | constituents);
-- 
2.43.0

