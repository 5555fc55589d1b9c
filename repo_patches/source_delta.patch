From 5dfe284f7f7cd215e400ea50373685b6b7e6a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:09 +0000
Subject: [PATCH 01/21] fix: retain references a jump forwards while they stay
 live

A jump into an anyref block argument hands its operand a reference that the
block argument later releases. RC insertion treated every jump as a move, so
a value yielded from a branch or a loop and used again afterwards was freed
while still reachable. Retain before the jump unless the value dies there.
---
 .../tribute-passes/src/native/rc_insertion.rs | 118 ++++++++++++++++--
 1 file changed, 109 insertions(+), 9 deletions(-)

diff --git a/crates/tribute-passes/src/native/rc_insertion.rs b/crates/tribute-passes/src/native/rc_insertion.rs
index b98854b..6506d9c 100644
--- a/crates/tribute-passes/src/native/rc_insertion.rs
+++ b/crates/tribute-passes/src/native/rc_insertion.rs
@@ -24,6 +24,7 @@
 //! | Other `clif.call` result (anyref) | No retain (ownership transfer) |
 //! | `clif.store` with anyref value | `retain` before store |
 //! | `clif.load` with anyref result | `retain` after load |
+//! | `clif.jump` forwarding a reference that stays live | `retain` before jump |
 //!
 //! ### Release (reference drop)
 //!
@@ -263,6 +264,78 @@ fn build_ptr_alias_map(
     aliases
 }
 
+/// Extend `tracked` with the untyped pointers that a jump forwards into an
+/// anyref block argument, and `aliases` with their transparent casts.
+///
+/// The block argument owns (and eventually releases) what it receives, so the
+/// liveness of these values decides whether the jump moves or shares them.
+/// Returns the untyped pointers whose reference was already moved into memory.
+fn track_forwarded_ptrs(
+    ctx: &IrContext,
+    body: RegionRef,
+    tracked: &mut HashSet<ValueRef>,
+    aliases: &mut HashMap<ValueRef, ValueRef>,
+) -> HashSet<ValueRef> {
+    let mut stored = HashSet::new();
+    for &block in &ctx.region(body).blocks {
+        let Some(&last_op) = ctx.block(block).ops.last() else {
+            continue;
+        };
+        for operand in owning_jump_operands(ctx, last_op) {
+            let source = strip_casts(ctx, operand);
+            if !aliases.contains_key(&operand) && !is_static_ptr(ctx, source) {
+                tracked.insert(source);
+            }
+        }
+    }
+    for &block in &ctx.region(body).blocks {
+        for &op in &ctx.block(block).ops {
+            if core::UnrealizedConversionCast::matches(ctx, op) {
+                let output = ctx.op_result(op, 0);
+                let source = strip_casts(ctx, output);
+                if tracked.contains(&source) && !tracked.contains(&output) {
+                    aliases.entry(output).or_insert(source);
+                }
+            }
+            if clif::Store::matches(ctx, op)
+                && let Some(&value) = ctx.op_operands(op).first()
+                && !is_anyref_value(ctx, value)
+            {
+                stored.insert(strip_casts(ctx, value));
+            }
+        }
+    }
+    stored
+}
+
+/// Follow `core.unrealized_conversion_cast` back to the value it renames.
+fn strip_casts(ctx: &IrContext, mut value: ValueRef) -> ValueRef {
+    while let ValueDef::OpResult(op, _) = ctx.value_def(value)
+        && core::UnrealizedConversionCast::matches(ctx, op)
+        && let Some(&input) = ctx.op_operands(op).first()
+    {
+        value = input;
+    }
+    value
+}
+
+/// Operands of a `clif.jump` that initialize an anyref block argument.
+fn owning_jump_operands(ctx: &IrContext, op: OpRef) -> Vec<ValueRef> {
+    if !clif::Jump::matches(ctx, op) {
+        return Vec::new();
+    }
+    let Some(&target) = ctx.op(op).successors.first() else {
+        return Vec::new();
+    };
+    ctx.op_operands(op)
+        .iter()
+        .copied()
+        .zip(ctx.block_args(target).iter().copied())
+        .filter(|&(_, arg)| is_anyref_value(ctx, arg))
+        .map(|(operand, _)| operand)
+        .collect()
+}
+
 /// Build CFG successor map.
 fn build_successor_map(ctx: &IrContext, body: RegionRef) -> HashMap<BlockRef, Vec<BlockRef>> {
     let mut successors = HashMap::new();
@@ -300,7 +373,7 @@ fn compute_use_def_sets(
         let mut defs = HashSet::new();
 
         for &arg_val in ctx.block_args(block) {
-            if is_anyref_type(ctx, ctx.value_ty(arg_val)) {
+            if is_anyref_type(ctx, ctx.value_ty(arg_val)) || ptr_values.contains(&arg_val) {
                 defs.insert(arg_val);
             }
         }
@@ -322,10 +395,7 @@ fn compute_use_def_sets(
                 });
             }
             for &result_val in ctx.op_results(op) {
-                if is_anyref_type(ctx, ctx.value_ty(result_val))
-                    && !is_static_ptr(ctx, result_val)
-                    && ptr_values.contains(&result_val)
-                {
+                if !is_static_ptr(ctx, result_val) && ptr_values.contains(&result_val) {
                     defs.insert(result_val);
                 }
             }
@@ -786,11 +856,14 @@ fn insert_rc_in_function(
             analyze_temporary_borrows(ctx, body, &ptr_values, &ptr_alias_map, call_contracts)
         }
     };
+    let mut tracked_values = ptr_values.clone();
+    let mut tracked_aliases = ptr_alias_map.clone();
+    let stored_ptrs = track_forwarded_ptrs(ctx, body, &mut tracked_values, &mut tracked_aliases);
     let liveness = compute_liveness(
         ctx,
         body,
-        &ptr_values,
-        &ptr_alias_map,
+        &tracked_values,
+        &tracked_aliases,
         &temporary_borrows.lifetime_dependencies,
     );
     let mut borrowed_parameters = match borrowed_parameter_policy {
@@ -825,6 +898,8 @@ fn insert_rc_in_function(
             &ptr_values,
             &liveness,
             &ptr_alias_map,
+            &tracked_aliases,
+            &stored_ptrs,
             &borrow_info,
             &consumed_parameters,
             call_contracts,
@@ -1195,6 +1270,8 @@ fn insert_rc_in_block(
     ptr_values: &HashSet<ValueRef>,
     liveness: &LivenessInfo,
     ptr_alias_map: &HashMap<ValueRef, ValueRef>,
+    tracked_aliases: &HashMap<ValueRef, ValueRef>,
+    stored_ptrs: &HashSet<ValueRef>,
     borrow_info: &RcBorrowInfo<'_>,
     consumed_parameters: &HashSet<ValueRef>,
     call_contracts: &HashMap<OpRef, TrustedCallContract>,
@@ -1203,8 +1280,9 @@ fn insert_rc_in_block(
     let loc = ctx.block(block).location;
     let ptr_ty = core::ptr(ctx).as_type_ref();
 
-    let live_in = liveness.live_in.get(&block).cloned().unwrap_or_default();
+    let mut live_in = liveness.live_in.get(&block).cloned().unwrap_or_default();
     let live_out = liveness.live_out.get(&block).cloned().unwrap_or_default();
+    live_in.retain(|v| ptr_values.contains(v));
 
     // Compute per-value last use index
     let mut last_use_in_block: HashMap<ValueRef, usize> = HashMap::new();
@@ -1333,7 +1411,29 @@ fn insert_rc_in_block(
         }
     }
 
-    let defs_in_block = liveness.def_set.get(&block).cloned().unwrap_or_default();
+    // 3. A jump moves each forwarded reference into the target's block argument.
+    //    Only a value that dies here, and that no object holds, is moved; every
+    //    other alias needs its own reference.
+    if let Some((jump_idx, &jump)) = ops.iter().enumerate().next_back() {
+        let mut moved: HashSet<ValueRef> = HashSet::new();
+        for operand in owning_jump_operands(ctx, jump) {
+            let owned = tracked_aliases.get(&operand).copied().unwrap_or(operand);
+            if is_static_ptr(ctx, owned) {
+                continue;
+            }
+            let shared = live_out.contains(&owned) || stored_ptrs.contains(&owned);
+            if shared || !moved.insert(owned) {
+                let retain = tribute_rt::retain(ctx, ctx.op(jump).location, operand, ptr_ty);
+                plan.before
+                    .entry(jump_idx)
+                    .or_default()
+                    .push(retain.op_ref());
+            }
+        }
+    }
+
+    let mut defs_in_block = liveness.def_set.get(&block).cloned().unwrap_or_default();
+    defs_in_block.retain(|v| ptr_values.contains(v));
 
     // --- Release insertions ---
     let mut dying_values: HashSet<ValueRef> = HashSet::new();
-- 
2.43.0


From ef0150a15bd860ed31ff07c0aad4890e919dec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:24 +0000
Subject: [PATCH 02/21] fix: quote type alias names that start with a digit

The parser only accepts identifiers as bare alias names, so a printed
module with a type named e.g. `7x` could not be parsed back.
---
 crates/trunk-ir/src/printer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/trunk-ir/src/printer.rs b/crates/trunk-ir/src/printer.rs
index 076eace..00aea47 100644
--- a/crates/trunk-ir/src/printer.rs
+++ b/crates/trunk-ir/src/printer.rs
@@ -434,10 +434,11 @@ pub(crate) fn write_escaped_string(f: &mut dyn Write, s: &str) -> fmt::Result {
     Ok(())
 }
 
-/// Write a type alias name with `!` prefix. Quotes if name contains non-ident chars.
+/// Write a type alias name with `!` prefix. Quotes if the name is not a bare identifier.
 fn write_type_alias_name(f: &mut dyn Write, name: &str) -> fmt::Result {
-    let needs_quoting =
-        name.is_empty() || !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
+    let needs_quoting = name.is_empty()
+        || name.starts_with(|c: char| c.is_ascii_digit())
+        || !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
     if needs_quoting {
         f.write_str("!\"")?;
         write_escaped_string(f, name)?;
-- 
2.43.0


From 833ad00f938cb57c59832648f4b7061cba140604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:24 +0000
Subject: [PATCH 03/21] fix: recognise alias definitions whose quoted name has
 escaped quotes

The lookahead stopped at the first quote character, so a printed alias
name containing one could not be parsed back.
---
 crates/trunk-ir/src/parser/raw.rs | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/crates/trunk-ir/src/parser/raw.rs b/crates/trunk-ir/src/parser/raw.rs
index 64836ad..1c93705 100644
--- a/crates/trunk-ir/src/parser/raw.rs
+++ b/crates/trunk-ir/src/parser/raw.rs
@@ -634,28 +634,10 @@ fn type_alias_def<'a>(input: &mut &'a str) -> ModalResult<(String, RawType<'a>)>
 
 /// Check if input starts with a type alias definition (`!name =` or `!"quoted" =`).
 fn is_type_alias_def(input: &str) -> bool {
-    if !input.starts_with('!') {
+    let Some(mut rest) = input.strip_prefix('!') else {
         return false;
-    }
-    let rest = &input[1..];
-    let after_name = if let Some(quoted) = rest.strip_prefix('"') {
-        // Quoted: skip to closing quote (simplified — no escape handling needed for lookahead)
-        match quoted.find('"') {
-            Some(end) => &quoted[end + 1..],
-            None => return false,
-        }
-    } else {
-        // Bare ident
-        let after_ident = rest.trim_start_matches(|c: char| c.is_ascii_alphanumeric() || c == '_');
-        // Must have at least one ident char
-        if after_ident.len() == rest.len() {
-            return false;
-        }
-        after_ident
     };
-    // Skip whitespace then check for '='
-    let after_ws = after_name.trim_start();
-    after_ws.starts_with('=')
+    type_alias_name.parse_next(&mut rest).is_ok() && rest.trim_start().starts_with('=')
 }
 
 /// Parse a region: { blocks... } or { ops... } (single implicit block)
-- 
2.43.0


From fa217de8cf84f87195dc4389a1cbc2a18185dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:03 +0000
Subject: [PATCH 04/21] fix: do not read the next operation's results as
 operands

An operation printed without operands, attributes, types or regions took
the result names of the operation after it as its own operands.
---
 crates/trunk-ir/src/parser/raw.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/trunk-ir/src/parser/raw.rs b/crates/trunk-ir/src/parser/raw.rs
index 1c93705..1cb356a 100644
--- a/crates/trunk-ir/src/parser/raw.rs
+++ b/crates/trunk-ir/src/parser/raw.rs
@@ -4,7 +4,7 @@
 //! It is shared by both the Salsa IR builder and the Arena IR builder.
 
 use winnow::ascii;
-use winnow::combinator::{alt, delimited, opt, preceded, repeat, separated};
+use winnow::combinator::{alt, delimited, opt, peek, preceded, repeat, separated};
 use winnow::prelude::*;
 use winnow::token::{any, one_of, take, take_while};
 
@@ -539,8 +539,10 @@ pub fn raw_operation<'a>(input: &mut &'a str) -> ModalResult<RawOperation<'a>> {
             // Empty parens: no params, no operands
         }
     } else if input.starts_with('%') {
-        // Operand list
-        operands = opt(operand_list).parse_next(input)?.unwrap_or_default();
+        // Operand list, unless these are the results of the next operation
+        if peek(result_list).parse_next(input).is_err() {
+            operands = opt(operand_list).parse_next(input)?.unwrap_or_default();
+        }
     }
 
     // Successor list (optional): [^bb0, ^bb1]
-- 
2.43.0


From 07fb103a0dd96185314f3f8acfacadd5846beb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:48 +0000
Subject: [PATCH 05/21] fix: never reuse a registered alias name for an
 automatic alias

With two registered names for one type only the later one was reserved,
so a nested module could print a type under a name bound to another type.
---
 crates/trunk-ir/src/printer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/trunk-ir/src/printer.rs b/crates/trunk-ir/src/printer.rs
index 00aea47..f3326e3 100644
--- a/crates/trunk-ir/src/printer.rs
+++ b/crates/trunk-ir/src/printer.rs
@@ -567,7 +567,9 @@ fn generate_auto_aliases(
     candidates.sort_by(|a, b| b.1.cmp(&a.1).then(b.2.cmp(&a.2)).then(a.3.cmp(&b.3)));
 
     // Name assignment
+    // (registered names count even when another name for the same type hides them)
     let mut used_names: HashSet<String> = existing.values().cloned().collect();
+    used_names.extend(ctx.type_aliases().iter().map(|(name, _)| name.to_string()));
     let mut next_num = 0usize;
     let mut result = Vec::new();
 
-- 
2.43.0


From 2f08142a8d317f64ae9201c3da04070156b0d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:39 +0000
Subject: [PATCH 06/21] fix: do not run nested passes on targets an earlier
 pass erased

---
 crates/trunk-ir/src/pass.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir/src/pass.rs b/crates/trunk-ir/src/pass.rs
index 92fa180..29ffebf 100644
--- a/crates/trunk-ir/src/pass.rs
+++ b/crates/trunk-ir/src/pass.rs
@@ -242,8 +242,9 @@ impl<T: DialectOp + 'static> NestedRunner for TypedNested<T> {
         let targets = collect_targets::<T>(ctx, parent_op);
         for target in targets {
             // Skip stale refs: a previous pass in this nested manager may
-            // have erased the op.
-            if !T::matches(ctx, target.op_ref()) {
+            // have erased the op (or an op enclosing it). The arena slot keeps
+            // its dialect/name, so matching alone does not tell.
+            if !T::matches(ctx, target.op_ref()) || !is_nested_in(ctx, target.op_ref(), parent_op) {
                 continue;
             }
             ensure_nested_anchor_is_isolated(ctx, target.op_ref())?;
@@ -270,6 +271,22 @@ fn target_still_alive<T: DialectOp>(ctx: &IrContext, op: OpRef, pre_attached: bo
     !pre_attached || ctx.op(op).parent_block.is_some()
 }
 
+/// Returns whether `op` is `ancestor` or is still attached somewhere inside it.
+fn is_nested_in(ctx: &IrContext, mut op: OpRef, ancestor: OpRef) -> bool {
+    while op != ancestor {
+        let parent = ctx
+            .op(op)
+            .parent_block
+            .and_then(|block| ctx.block(block).parent_region)
+            .and_then(|region| ctx.region(region).parent_op);
+        match parent {
+            Some(parent) => op = parent,
+            None => return false,
+        }
+    }
+    true
+}
+
 fn collect_targets<T: DialectOp>(ctx: &IrContext, root: OpRef) -> Vec<T> {
     let mut found = Vec::new();
     let _ = walk_op::<()>(ctx, root, &mut |op| {
-- 
2.43.0


From 52912ca2c8a3b6e1caf51642a6a4c639218841c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:54 +0000
Subject: [PATCH 07/21] fix: fold booleans to 0 and 1

---
 crates/trunk-ir/src/transforms/canonicalize.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/trunk-ir/src/transforms/canonicalize.rs b/crates/trunk-ir/src/transforms/canonicalize.rs
index 1dcea4b..a2a8404 100644
--- a/crates/trunk-ir/src/transforms/canonicalize.rs
+++ b/crates/trunk-ir/src/transforms/canonicalize.rs
@@ -164,6 +164,14 @@ impl RewritePattern for FoldDispatchPattern {
                     [t] => *t,
                     _ => return false,
                 };
+                // Booleans are spelled 0 and 1: the backends compare `core.i1`
+                // payloads as they are, so the sign-extended -1 is not `true`.
+                let attr = match attr {
+                    Attribute::Int(v) if arith::core_int_width(ctx, result_ty) == Some(1) => {
+                        Attribute::Int(v & 1)
+                    }
+                    attr => attr,
+                };
                 let new_const = arith::r#const(ctx, loc, result_ty, attr);
                 rewriter.replace_op(new_const.op_ref());
                 true
-- 
2.43.0


From 6ab025c8411ce58626f95ec30dd2ae8cd0ce40ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:15 +0000
Subject: [PATCH 08/21] fix: bounds-check native byte access and zero-extend
 the byte

The native lowering of __bytes_get_or_panic loaded the byte with a
sign-extending i8 load and no bounds check, so bytes of 0x80 and above
read as negative numbers and an index past the end read outside the
buffer. Lower it to a runtime helper that checks the index.
---
 .../src/native/intrinsic_to_native.rs         | 111 +++++++++---------
 crates/tribute-runtime/src/lib.rs             |  21 ++++
 2 files changed, 77 insertions(+), 55 deletions(-)

diff --git a/crates/tribute-passes/src/native/intrinsic_to_native.rs b/crates/tribute-passes/src/native/intrinsic_to_native.rs
index 85f98b3..1bc9540 100644
--- a/crates/tribute-passes/src/native/intrinsic_to_native.rs
+++ b/crates/tribute-passes/src/native/intrinsic_to_native.rs
@@ -1,8 +1,8 @@
 //! Lower bytes intrinsic calls to native IR operations.
 //!
 //! This native-specific pass converts `func.call @__bytes_get_or_panic(bytes, index)`
-//! to a sequence of `mem.load` operations that directly access the TributeBytes
-//! memory layout: `{ ptr: *const u8, len: u64 }`.
+//! to a call of the bounds-checked runtime accessor
+//! `__tribute_bytes_get_or_panic(bytes: ptr, index: u32) -> u32`.
 //!
 //! The WASM backend has its own lowering in `intrinsic_to_wasm.rs`.
 
@@ -11,22 +11,27 @@ use std::rc::Rc;
 
 use trunk_ir::Symbol;
 use trunk_ir::context::IrContext;
-use trunk_ir::dialect::func;
-use trunk_ir::dialect::mem;
+use trunk_ir::dialect::{core, func};
 use trunk_ir::ops::DialectOp;
-use trunk_ir::refs::OpRef;
+use trunk_ir::refs::{OpRef, RegionRef};
 use trunk_ir::rewrite::{
     ConversionError, ConversionTarget, LegalityDecision, Module, PatternApplicator,
     PatternRewriter, RewritePattern, TypeConverter,
 };
 use trunk_ir::types::TypeDataBuilder;
 
-/// Lower bytes intrinsic calls to native mem operations.
+/// Intrinsic provided by the prelude.
+const GET_INTRINSIC: &str = "__bytes_get_or_panic";
+/// Runtime function implementing [`GET_INTRINSIC`].
+const GET_FN: &str = "__tribute_bytes_get_or_panic";
+
+/// Lower bytes intrinsic calls to native runtime calls.
 ///
 /// Also removes `func.func` declarations for bytes intrinsics.
 pub fn lower(ctx: &mut IrContext, module: Module) -> Result<(), ConversionError> {
-    let intrinsic_names: Rc<HashSet<Symbol>> =
-        Rc::new([Symbol::new("__bytes_get_or_panic")].into());
+    let intrinsic_names: Rc<HashSet<Symbol>> = Rc::new([Symbol::new(GET_INTRINSIC)].into());
+
+    ensure_runtime_declarations(ctx, module);
 
     let mut applicator = PatternApplicator::new(TypeConverter::new());
     applicator =
@@ -66,18 +71,46 @@ pub fn lower(ctx: &mut IrContext, module: Module) -> Result<(), ConversionError>
     Ok(())
 }
 
+/// Declare the runtime accessor when the module calls the intrinsic.
+fn ensure_runtime_declarations(ctx: &mut IrContext, module: Module) {
+    let (Some(body), Some(block)) = (module.body(ctx), module.first_block(ctx)) else {
+        return;
+    };
+    let declared = ctx.block(block).ops.iter().copied().any(|op| {
+        func::Func::from_op(ctx, op).is_ok_and(|function| function.sym_name(ctx) == GET_FN)
+    });
+    if declared || !calls_intrinsic(ctx, body) {
+        return;
+    }
+
+    let loc = ctx.op(module.op()).location;
+    let bytes_ty = core::bytes(ctx).as_type_ref();
+    let nat_ty = ctx
+        .types
+        .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i32")).build());
+    let declaration = super::build_extern_func(ctx, loc, GET_FN, &[bytes_ty, nat_ty], nat_ty);
+    match ctx.block(block).ops.first().copied() {
+        Some(first) => ctx.insert_op_before(block, first, declaration),
+        None => ctx.push_op(block, declaration),
+    }
+}
+
+fn calls_intrinsic(ctx: &IrContext, region: RegionRef) -> bool {
+    ctx.region(region).blocks.iter().any(|&block| {
+        ctx.block(block).ops.iter().any(|&op| {
+            func::Call::from_op(ctx, op).is_ok_and(|call| call.callee(ctx) == GET_INTRINSIC)
+                || ctx
+                    .op(op)
+                    .regions
+                    .iter()
+                    .any(|&nested| calls_intrinsic(ctx, nested))
+        })
+    })
+}
+
 /// Pattern that lowers `func.call @__bytes_get_or_panic(bytes, index)` to
-/// mem.load operations on the TributeBytes layout.
-///
-/// TributeBytes native layout (payload pointer points here):
-///   offset 0: ptr (*const u8) - 8 bytes
-///   offset 8: len (u64)       - 8 bytes
-///
-/// Emits:
-///   %data_ptr = mem.load %bytes, offset=0 : core.ptr
-///   %addr = arith.addi %data_ptr, %index : core.ptr
-///   %byte = mem.load %addr, offset=0 : core.i8
-///   %result = arith.extend %byte : result_ty (Nat/i32)
+/// `func.call @__tribute_bytes_get_or_panic(bytes, index)`, which aborts when
+/// the index is out of bounds and returns the byte as a value in `0..=255`.
 struct BytesGetOrPanicPattern;
 
 impl RewritePattern for BytesGetOrPanicPattern {
@@ -90,48 +123,16 @@ impl RewritePattern for BytesGetOrPanicPattern {
         let Ok(call_op) = func::Call::from_op(ctx, op) else {
             return false;
         };
-        if call_op.callee(ctx) != "__bytes_get_or_panic" {
+        if call_op.callee(ctx) != GET_INTRINSIC {
             return false;
         }
 
         let loc = ctx.op(op).location;
         let result_ty = ctx.op_result_types(op)[0];
         let operands = ctx.op_operands(op).to_vec();
-        let bytes = operands[0];
-        let index = operands[1];
-
-        let ptr_ty = ctx
-            .types
-            .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("ptr")).build());
-        let i8_ty = ctx
-            .types
-            .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i8")).build());
-
-        // Load data pointer from TributeBytes (offset 0)
-        let data_ptr = mem::load(ctx, loc, bytes, ptr_ty, 0);
-        rewriter.insert_op(data_ptr.op_ref());
-
-        // Extend index (Nat = i32) to pointer width (i64)
-        let index_ext = trunk_ir::dialect::arith::extend(ctx, loc, index, ptr_ty);
-        rewriter.insert_op(index_ext.op_ref());
-
-        // Compute address: data_ptr + index
-        let addr = trunk_ir::dialect::arith::addi(
-            ctx,
-            loc,
-            data_ptr.result(ctx),
-            index_ext.result(ctx),
-            ptr_ty,
-        );
-        rewriter.insert_op(addr.op_ref());
-
-        // Load byte (i8) from computed address
-        let byte_val = mem::load(ctx, loc, addr.result(ctx), i8_ty, 0);
-        rewriter.insert_op(byte_val.op_ref());
-
-        // Zero-extend i8 → result type (Nat = i32)
-        let extended = trunk_ir::dialect::arith::extend(ctx, loc, byte_val.result(ctx), result_ty);
-        rewriter.replace_op(extended.op_ref());
+
+        let call = func::call(ctx, loc, operands, result_ty, Symbol::new(GET_FN));
+        rewriter.replace_op(call.op_ref());
 
         true
     }
diff --git a/crates/tribute-runtime/src/lib.rs b/crates/tribute-runtime/src/lib.rs
index 1520e5b..379bd06 100644
--- a/crates/tribute-runtime/src/lib.rs
+++ b/crates/tribute-runtime/src/lib.rs
@@ -507,6 +507,27 @@ pub unsafe extern "C" fn __tribute_bytes_len(bytes: *const TributeBytes) -> u32
     b.len as u32
 }
 
+/// Return the byte at `index`, zero-extended.
+///
+/// Panics (aborts) if `index >= bytes.len`.
+///
+/// Signature: `(bytes: ptr, index: u32) -> u32`
+///
+/// # Safety
+///
+/// `bytes` must be a valid pointer to a `TributeBytes` payload.
+#[unsafe(no_mangle)]
+pub unsafe extern "C" fn __tribute_bytes_get_or_panic(
+    bytes: *const TributeBytes,
+    index: u32,
+) -> u32 {
+    let b = unsafe { &*bytes };
+    if u64::from(index) >= b.len {
+        bounds_check_abort();
+    }
+    u32::from(unsafe { *b.ptr.add(index as usize) })
+}
+
 /// Compare equal-length ranges in two Bytes values.
 ///
 /// Returns `1` when the ranges contain the same bytes and `0` otherwise.
-- 
2.43.0


From 6d3b604cf67fb7a0d23c97e855b4dd4e2df8f7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:21 +0000
Subject: [PATCH 09/21] fix: leave no stray null on the wasm stack for nil
 constants

A wasm.nop with a nil result pushed a null reference that is never stored
in a local, so a nil constant inside an if region produced an invalid
module.
---
 crates/trunk-ir-wasm-backend/src/emit.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit.rs b/crates/trunk-ir-wasm-backend/src/emit.rs
index 1b7001e..ff35393 100644
--- a/crates/trunk-ir-wasm-backend/src/emit.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit.rs
@@ -958,12 +958,9 @@ fn emit_op_nested(
                 }));
                 set_result_local(ctx, op, emit_ctx, function)?;
             } else if is_nil_type(ctx, result_ty) {
-                debug!("wasm.nop: emitting ref.null none for nil type");
-                function.instruction(&Instruction::RefNull(HeapType::Abstract {
-                    shared: false,
-                    ty: AbstractHeapType::None,
-                }));
-                set_result_local(ctx, op, emit_ctx, function)?;
+                // Nil results are never stored, so a pushed null would be left
+                // on the operand stack. Uses read the null default instead.
+                debug!("wasm.nop: nothing to emit for nil type");
             } else {
                 debug!("wasm.nop: skipping (unknown primitive type)");
             }
-- 
2.43.0


From c6a3afe3a54ba13a76ac9e9a160191758f84eb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:21 +0000
Subject: [PATCH 10/21] fix: cast abstract references before wasm struct.set

struct.get already casts an anyref or structref operand to the concrete
struct type; struct.set did not, so updating a field of a struct received
as an abstract reference produced an invalid module.
---
 .../src/emit/handlers/struct_handlers.rs            | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/struct_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/struct_handlers.rs
index fdbc70b..2f79e37 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/struct_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/struct_handlers.rs
@@ -209,11 +209,20 @@ pub(crate) fn handle_struct_set(
 ) -> CompilationResult<()> {
     let op = struct_set_op.op_ref();
     let operands = ctx.op_operands(op);
-    emit_operands(ctx, operands, emit_ctx, function)?;
-
     let type_idx = struct_set_op.type_idx(ctx);
     let field_idx = struct_set_op.field_idx(ctx);
 
+    // As for struct.get, an abstract reference must be cast to the concrete
+    // struct type before the field can be accessed.
+    emit_operands(ctx, &operands[..1], emit_ctx, function)?;
+    let ref_ty = value_type(ctx, operands[0]);
+    if helpers::is_type(ctx, ref_ty, "wasm", "anyref")
+        || helpers::is_type(ctx, ref_ty, "wasm", "structref")
+    {
+        function.instruction(&Instruction::RefCastNullable(HeapType::Concrete(type_idx)));
+    }
+    emit_operands(ctx, &operands[1..], emit_ctx, function)?;
+
     function.instruction(&Instruction::StructSet {
         struct_type_index: type_idx,
         field_index: field_idx,
-- 
2.43.0


From b6c7848200e7bfc6e3ba4b1209021d7ef64d7c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:21 +0000
Subject: [PATCH 11/21] fix: accept boolean constants in wasm struct fields

Boolean constants are typed core.i32 by the time GC types are collected,
while other boolean values keep core.i1, so a struct whose boolean field
received both was rejected although both are wasm i32.
---
 .../src/emit/gc_types_collection.rs                    | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
index c3aee1c..452078b 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
@@ -13,7 +13,7 @@ use trunk_ir::Symbol;
 use trunk_ir::dialect::wasm as wasm_dialect;
 use trunk_ir::ops::DialectOp;
 use trunk_ir::refs::{OpRef, RegionRef, TypeRef};
-use trunk_ir::types::TypeData;
+use trunk_ir::types::{TypeData, TypeDataBuilder};
 use wasm_encoder::{FieldType, StorageType, ValType};
 
 use crate::gc_types::{
@@ -106,6 +106,14 @@ fn normalize_type_for_gc(ctx: &mut IrContext, ty: TypeRef) -> TypeRef {
         return intern_wasm_structref(ctx);
     }
 
+    // Booleans are represented as wasm i32 values, and boolean constants are
+    // already typed as `core.i32` here.
+    if helpers::is_type(ctx, ty, "core", "i1") {
+        return ctx
+            .types
+            .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i32")).build());
+    }
+
     // Note: tribute_rt types (int, nat, bool, float, any, intref) should be
     // converted to core/wasm types by normalize_primitive_types pass before emit.
     ty
-- 
2.43.0


From 38a0d2562dd5ef2f28302a570ea5ca9afd323b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:21 +0000
Subject: [PATCH 12/21] fix: keep abstract references out of the wasm GC type
 index map

Registering wasm.anyref, wasm.structref or wasm.i31ref for the first type
index seen made every later value of that abstract type look like that
concrete type, producing invalid modules.
---
 .../src/emit/gc_types_collection.rs           | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
index 452078b..39ed938 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
@@ -79,8 +79,19 @@ fn try_get_builder(builders: &mut Vec<GcTypeBuilder>, idx: u32) -> Option<&mut G
     Some(&mut builders[adjusted_idx])
 }
 
-/// Register a type in the type_idx_by_type map
-fn register_type(type_idx_by_type: &mut HashMap<TypeRef, u32>, idx: u32, ty: TypeRef) {
+/// Register a type in the type_idx_by_type map.
+///
+/// Abstract references (`wasm.anyref`, `wasm.structref`, ...) name no single
+/// GC type, so a value of such a type never determines a type index.
+fn register_type(
+    ctx: &IrContext,
+    type_idx_by_type: &mut HashMap<TypeRef, u32>,
+    idx: u32,
+    ty: TypeRef,
+) {
+    if ctx.types.get(ty).dialect == Symbol::new("wasm") {
+        return;
+    }
     type_idx_by_type.entry(ty).or_insert(idx);
 }
 
@@ -402,7 +413,7 @@ pub(crate) fn collect_gc_types(
                 }
 
                 if let Some(result_ty) = result_type {
-                    register_type(&mut type_idx_by_type, type_idx, result_ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, result_ty);
                 }
                 for (field_idx, &value) in operands.iter().enumerate() {
                     let ty = helpers::value_type(ctx, value);
@@ -434,7 +445,7 @@ pub(crate) fn collect_gc_types(
                 let operands = ctx.op_operands(op).to_vec();
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 // Record field type from result type
                 // Note: type variables should be resolved to concrete types before emit
@@ -464,7 +475,7 @@ pub(crate) fn collect_gc_types(
                 }
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 if let Some(&second_operand) = operands.get(1) {
                     let ty = helpers::value_type(ctx, second_operand);
@@ -484,7 +495,7 @@ pub(crate) fn collect_gc_types(
             if let Some(builder) = try_get_builder(&mut builders, type_idx) {
                 builder.kind = GcKind::Array;
                 if let Some(&result_ty) = result_types.first() {
-                    register_type(&mut type_idx_by_type, type_idx, result_ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, result_ty);
                 }
                 let operands = ctx.op_operands(op).to_vec();
                 if let Some(&second_operand) = operands.get(1) {
@@ -506,7 +517,7 @@ pub(crate) fn collect_gc_types(
                 builder.kind = GcKind::Array;
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 // Record element type from result type
                 // Note: type variables should be resolved to concrete types before emit
@@ -524,7 +535,7 @@ pub(crate) fn collect_gc_types(
                 builder.kind = GcKind::Array;
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 if let Some(&third_operand) = operands.get(2) {
                     let ty = helpers::value_type(ctx, third_operand);
@@ -554,7 +565,7 @@ pub(crate) fn collect_gc_types(
                 continue;
             };
             if let Some(&result_ty) = result_types.first() {
-                register_type(&mut type_idx_by_type, type_idx, result_ty);
+                register_type(ctx, &mut type_idx_by_type, type_idx, result_ty);
             }
             if let Some(builder) = try_get_builder(&mut builders, type_idx)
                 && builder.kind == GcKind::Unknown
-- 
2.43.0


From 8af75b32f3752937725e85e10229227228b1c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:32 +0000
Subject: [PATCH 13/21] fix: accept byte strings in wasm struct fields of type
 anyref

A byte string stored in an anyref field keeps its core.bytes type when GC
types are collected, and was rejected as incompatible although it is a
struct reference.
---
 crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
index 39ed938..4a292fd 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
@@ -162,6 +162,7 @@ fn types_equivalent_for_gc(ctx: &mut IrContext, ty1: TypeRef, ty2: TypeRef) -> b
             || helpers::is_type(ctx, other, "wasm", "arrayref")
             || helpers::is_type(ctx, other, "wasm", "eqref")
             || helpers::is_type(ctx, other, "wasm", "i31ref")
+            || helpers::is_type(ctx, other, "core", "bytes")
         {
             return true;
         }
-- 
2.43.0


From 8872c4b4f3fa407587d341eb62fb2fc00afebb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:57 +0000
Subject: [PATCH 14/21] fix: do not prepend evidence to calls that already
 carry it

---
 crates/tribute-passes/src/resolve_evidence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/tribute-passes/src/resolve_evidence.rs b/crates/tribute-passes/src/resolve_evidence.rs
index f7bb44a..f262902 100644
--- a/crates/tribute-passes/src/resolve_evidence.rs
+++ b/crates/tribute-passes/src/resolve_evidence.rs
@@ -918,7 +918,10 @@ fn transform_shifts_in_block(
                         .copied()
                         .unwrap_or_else(|| core::nil(ctx).as_type_ref());
 
-                    let new_args = if prepend_evidence {
+                    let carries_evidence = first_arg.is_some_and(|arg| {
+                        ability::is_evidence_type_ref(ctx, ctx.value_ty(arg))
+                    });
+                    let new_args = if prepend_evidence && !carries_evidence {
                         // Handler root: evidence_calls couldn't add evidence,
                         // so PREPEND it before all existing args.
                         let mut args = vec![ev_value];
-- 
2.43.0


From 2b95767651848822b672a02481bbbecccd22f50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:41 +0000
Subject: [PATCH 15/21] fix: retain untyped field pointers that become owned
 references

---
 .../tribute-passes/src/native/rc_insertion.rs | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/tribute-passes/src/native/rc_insertion.rs b/crates/tribute-passes/src/native/rc_insertion.rs
index 6506d9c..b8e2286 100644
--- a/crates/tribute-passes/src/native/rc_insertion.rs
+++ b/crates/tribute-passes/src/native/rc_insertion.rs
@@ -319,6 +319,12 @@ fn strip_casts(ctx: &IrContext, mut value: ValueRef) -> ValueRef {
     value
 }
 
+/// Whether `value` was read from a field whose type carries no ownership.
+fn is_untyped_field(ctx: &IrContext, value: ValueRef) -> bool {
+    matches!(ctx.value_def(value), ValueDef::OpResult(op, _) if clif::Load::matches(ctx, op))
+        && !is_anyref_value(ctx, value)
+}
+
 /// Operands of a `clif.jump` that initialize an anyref block argument.
 fn owning_jump_operands(ctx: &IrContext, op: OpRef) -> Vec<ValueRef> {
     if !clif::Jump::matches(ctx, op) {
@@ -1411,6 +1417,25 @@ fn insert_rc_in_block(
         }
     }
 
+    // An anyref cast takes over the reference of an untyped pointer, unless that
+    // pointer was only read from a field or an object already holds it.
+    for (op_idx, &op) in ops.iter().enumerate() {
+        if !core::UnrealizedConversionCast::matches(ctx, op) {
+            continue;
+        }
+        let output = ctx.op_result(op, 0);
+        let source = strip_casts(ctx, output);
+        if is_anyref_value(ctx, output)
+            && ptr_values.contains(&output)
+            && !borrow_info.temporaries.contains(&output)
+            && !is_static_ptr(ctx, source)
+            && (is_untyped_field(ctx, source) || stored_ptrs.contains(&source))
+        {
+            let retain = tribute_rt::retain(ctx, ctx.op(op).location, output, ptr_ty);
+            plan.after.entry(op_idx).or_default().push(retain.op_ref());
+        }
+    }
+
     // 3. A jump moves each forwarded reference into the target's block argument.
     //    Only a value that dies here, and that no object holds, is moved; every
     //    other alias needs its own reference.
@@ -1421,7 +1446,9 @@ fn insert_rc_in_block(
             if is_static_ptr(ctx, owned) {
                 continue;
             }
-            let shared = live_out.contains(&owned) || stored_ptrs.contains(&owned);
+            let shared = live_out.contains(&owned)
+                || stored_ptrs.contains(&owned)
+                || is_untyped_field(ctx, owned);
             if shared || !moved.insert(owned) {
                 let retain = tribute_rt::retain(ctx, ctx.op(jump).location, operand, ptr_ty);
                 plan.before
-- 
2.43.0


From d7b3d592f082a870be9bff4955aa78f539bf85df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:32 +0000
Subject: [PATCH 16/21] fix: widen the result of native variant tests to the
 boolean representation

---
 .../src/passes/adt_to_clif.rs                 | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs b/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs
index 157e1c9..92c075e 100644
--- a/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs
+++ b/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs
@@ -210,6 +210,19 @@ impl RewritePattern for VariantIsPattern {
         let tag_load = clif::load(ctx, loc, ref_val, i32_ty, 0);
         let tag_val = tag_load.result(ctx);
 
+        // `clif.icmp` yields one byte; a converted boolean may be wider.
+        let result_ty = ctx.op_result_types(op)[0];
+        let result_ty = rewriter
+            .type_converter()
+            .convert_type_or_identity(ctx, result_ty);
+        let widened = result_ty != i1_ty;
+        let cmp_ty = if widened {
+            ctx.types
+                .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i8")).build())
+        } else {
+            i1_ty
+        };
+
         // Compare with expected discriminant
         let expected = clif::iconst(ctx, loc, i32_ty, variant_layout.tag_value as i64);
         let cmp_op = clif::icmp(
@@ -217,13 +230,19 @@ impl RewritePattern for VariantIsPattern {
             loc,
             tag_val,
             expected.result(ctx),
-            i1_ty,
+            cmp_ty,
             Symbol::new("eq"),
         );
 
         rewriter.insert_op(tag_load.op_ref());
         rewriter.insert_op(expected.op_ref());
-        rewriter.replace_op(cmp_op.op_ref());
+        if widened && result_ty != cmp_ty {
+            rewriter.insert_op(cmp_op.op_ref());
+            let extended = clif::uextend(ctx, loc, cmp_op.result(ctx), result_ty);
+            rewriter.replace_op(extended.op_ref());
+        } else {
+            rewriter.replace_op(cmp_op.op_ref());
+        }
         true
     }
 }
-- 
2.43.0


From 69aabced2fb186a093a604bc48c331849d62978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:52 +0000
Subject: [PATCH 17/21] fix: deliver printed numbers and bytes under short and
 interrupted writes

print_int, print_nat, print_float and print_bytes issued one unchecked
write each, so a short or interrupted write silently lost output. Use the
same full-write loop the other output functions already use.
---
 crates/tribute-runtime/src/lib.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/crates/tribute-runtime/src/lib.rs b/crates/tribute-runtime/src/lib.rs
index 379bd06..f6f339f 100644
--- a/crates/tribute-runtime/src/lib.rs
+++ b/crates/tribute-runtime/src/lib.rs
@@ -141,10 +141,8 @@ unsafe extern "C" {
 pub extern "C" fn __tribute_print_int(value: i32) {
     let mut buf = itoa::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print an unsigned 32-bit integer to stdout, followed by a newline.
@@ -156,10 +154,8 @@ pub extern "C" fn __tribute_print_int(value: i32) {
 pub extern "C" fn __tribute_print_nat(value: u32) {
     let mut buf = itoa::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print a 64-bit float to stdout, followed by a newline.
@@ -171,10 +167,8 @@ pub extern "C" fn __tribute_print_nat(value: u32) {
 pub extern "C" fn __tribute_print_float(value: f64) {
     let mut buf = zmij::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print raw bytes to stdout (no newline appended).
@@ -197,9 +191,7 @@ pub unsafe extern "C" fn __tribute_print_bytes(ptr: *const u8, len: u64) {
     let Ok(len) = usize::try_from(len) else {
         return;
     };
-    unsafe {
-        write(1, ptr, len);
-    }
+    write_stdout_all(unsafe { core::slice::from_raw_parts(ptr, len) });
 }
 
 /// Print a newline character to stdout.
-- 
2.43.0


From 40b51f0534a3e088f9e5c0eee30aa54d35c108f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:00 +0000
Subject: [PATCH 18/21] fix: emit native objects with functions and data in a
 fixed order

The object emitter walked hash maps to declare function and data references
and to fill the RTTI table, so the same module gave different object bytes
(relocation order, register allocation) from one compilation to the next.
---
 .../src/translate.rs                          | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/trunk-ir-cranelift-backend/src/translate.rs b/crates/trunk-ir-cranelift-backend/src/translate.rs
index 18538ac..911593f 100644
--- a/crates/trunk-ir-cranelift-backend/src/translate.rs
+++ b/crates/trunk-ir-cranelift-backend/src/translate.rs
@@ -3,7 +3,7 @@
 //! This module provides functions for validating and emitting native object files
 //! from TrunkIR modules that have already been lowered to the clif dialect.
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use cranelift_codegen::ir::types as cl_types;
 use cranelift_codegen::ir::{self as cl_ir, InstBuilder, UserFuncName};
@@ -71,7 +71,7 @@ struct RttiEmitInfo {
     /// DataId for the RTTI function pointer table (None if no release functions exist).
     rtti_table_data_id: Option<cranelift_module::DataId>,
     /// Mapping from rtti_idx to the corresponding release function's FuncId.
-    release_functions: HashMap<u32, FuncId>,
+    release_functions: BTreeMap<u32, FuncId>,
     /// Maximum rtti_idx seen (determines table size). 0 if no release functions.
     max_rtti_idx: u32,
 }
@@ -85,13 +85,13 @@ const RELEASE_FN_PREFIX: &str = "__tribute_release_";
 /// then declares `__tribute_deep_release` and the RTTI table.
 fn collect_and_declare_rtti(
     obj_module: &mut ObjectModule,
-    func_ids: &mut HashMap<Symbol, FuncId>,
+    func_ids: &mut BTreeMap<Symbol, FuncId>,
     call_conv: cranelift_codegen::isa::CallConv,
 ) -> CompilationResult<RttiEmitInfo> {
     let ptr_ty = obj_module.target_config().pointer_type();
 
     // Scan func_ids for __tribute_release_<N> functions
-    let mut release_functions: HashMap<u32, FuncId> = HashMap::new();
+    let mut release_functions: BTreeMap<u32, FuncId> = BTreeMap::new();
     let mut max_rtti_idx: u32 = 0;
 
     for (sym, &func_id) in func_ids.iter() {
@@ -139,7 +139,7 @@ fn collect_and_declare_rtti(
 /// Define the RTTI function pointer table and the `__tribute_deep_release` dispatch function.
 fn define_rtti_infrastructure(
     obj_module: &mut ObjectModule,
-    func_ids: &HashMap<Symbol, FuncId>,
+    func_ids: &BTreeMap<Symbol, FuncId>,
     rtti_info: &RttiEmitInfo,
     call_conv: cranelift_codegen::isa::CallConv,
 ) -> CompilationResult<()> {
@@ -380,7 +380,7 @@ fn emit_module_impl(
     let ptr_ty = obj_module.target_config().pointer_type();
 
     // 3. First pass — declare all functions
-    let mut func_ids: HashMap<Symbol, cranelift_module::FuncId> = HashMap::new();
+    let mut func_ids: BTreeMap<Symbol, cranelift_module::FuncId> = BTreeMap::new();
     let all_func_ops = collect_clif_funcs(ctx, module);
 
     for &func_op in &all_func_ops {
@@ -427,7 +427,7 @@ fn emit_module_impl(
     let rtti_info = collect_and_declare_rtti(&mut obj_module, &mut func_ids, call_conv)?;
 
     // 3d. Declare and define rodata sections
-    let mut data_ids: HashMap<Symbol, cranelift_module::DataId> = HashMap::new();
+    let mut data_ids: BTreeMap<Symbol, cranelift_module::DataId> = BTreeMap::new();
     for entry in rodata {
         let data_id = obj_module
             .declare_data(
@@ -663,7 +663,7 @@ fn collect_clif_funcs_from_region(ctx: &IrContext, region: RegionRef, funcs: &mu
 /// with custom allocator implementations.
 fn declare_runtime_functions(
     obj_module: &mut ObjectModule,
-    func_ids: &mut HashMap<Symbol, cranelift_module::FuncId>,
+    func_ids: &mut BTreeMap<Symbol, cranelift_module::FuncId>,
     call_conv: isa::CallConv,
 ) -> CompilationResult<()> {
     let ptr_ty = obj_module.target_config().pointer_type();
@@ -675,7 +675,7 @@ fn declare_runtime_functions(
     alloc_sig.returns.push(cl_ir::AbiParam::new(ptr_ty));
 
     let alloc_sym = Symbol::new("__tribute_alloc");
-    if let std::collections::hash_map::Entry::Vacant(e) = func_ids.entry(alloc_sym) {
+    if let std::collections::btree_map::Entry::Vacant(e) = func_ids.entry(alloc_sym) {
         let func_id = obj_module
             .declare_function("__tribute_alloc", Linkage::Import, &alloc_sig)
             .map_err(|e| CompilationError::codegen(format!("{e}")))?;
@@ -688,7 +688,7 @@ fn declare_runtime_functions(
     dealloc_sig.params.push(cl_ir::AbiParam::new(i64_ty));
 
     let dealloc_sym = Symbol::new("__tribute_dealloc");
-    if let std::collections::hash_map::Entry::Vacant(e) = func_ids.entry(dealloc_sym) {
+    if let std::collections::btree_map::Entry::Vacant(e) = func_ids.entry(dealloc_sym) {
         let func_id = obj_module
             .declare_function("__tribute_dealloc", Linkage::Import, &dealloc_sig)
             .map_err(|e| CompilationError::codegen(format!("{e}")))?;
-- 
2.43.0


From 8d16e1c1e2108962aec04be000a565ea2cbc3b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:00 +0000
Subject: [PATCH 19/21] fix: insert reference-count operations in a fixed order

Releases of values from other blocks tied in the sort key and kept the order
of a hash set; retains before a tail call followed a hash map's order. The same
program was compiled to different code from one run to the next.
---
 crates/tribute-passes/src/native/rc_insertion.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/tribute-passes/src/native/rc_insertion.rs b/crates/tribute-passes/src/native/rc_insertion.rs
index b8e2286..b8ba80c 100644
--- a/crates/tribute-passes/src/native/rc_insertion.rs
+++ b/crates/tribute-passes/src/native/rc_insertion.rs
@@ -34,7 +34,7 @@
 //! | `clif.return` operand | No release (ownership transfer to caller) |
 //! | Value dies in block (live-in but not live-out) | `release` at appropriate point |
 
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use trunk_ir::Symbol;
 use trunk_ir::context::IrContext;
 use trunk_ir::dialect::clif;
@@ -1333,7 +1333,7 @@ fn insert_rc_in_block(
             .get(usize::from(contract.is_indirect)..)
             .unwrap_or_default();
         if contract.is_tail {
-            let mut transfers: HashMap<ValueRef, (ValueRef, usize)> = HashMap::new();
+            let mut transfers: BTreeMap<ValueRef, (ValueRef, usize)> = BTreeMap::new();
             for (&argument, action) in args.iter().zip(&contract.actions) {
                 if *action != RcOwnership::Transfer {
                     continue;
@@ -1489,10 +1489,10 @@ fn insert_rc_in_block(
 
     let mut dying_sorted: Vec<ValueRef> = dying_values.into_iter().collect();
     dying_sorted.sort_by_key(|v| match ctx.value_def(*v) {
-        ValueDef::BlockArg(_, idx) => (0usize, idx),
+        ValueDef::BlockArg(_, idx) => (0usize, idx, *v),
         ValueDef::OpResult(def_op, idx) => {
             let pos = ops.iter().position(|&o| o == def_op).unwrap_or(usize::MAX);
-            (pos.saturating_add(1), idx)
+            (pos.saturating_add(1), idx, *v)
         }
     });
 
-- 
2.43.0


From 1faf4dc6bc377efe550d577daba1f6c80262ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:51 +0000
Subject: [PATCH 20/21] fix: keep a pure closure's environment when it is
 called where evidence is in scope

Inside a function that has evidence, resolve_evidence replaced the first
argument of every indirect call with the current evidence. A closure without
effects takes no evidence, so its environment was overwritten and it read its
captured variables out of the evidence.
---
 crates/tribute-passes/src/resolve_evidence.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/tribute-passes/src/resolve_evidence.rs b/crates/tribute-passes/src/resolve_evidence.rs
index f262902..a516479 100644
--- a/crates/tribute-passes/src/resolve_evidence.rs
+++ b/crates/tribute-passes/src/resolve_evidence.rs
@@ -950,12 +950,15 @@ fn transform_shifts_in_block(
             }
         }
 
-        // Handle func.call_indirect: replace evidence argument (index 1)
+        // Handle func.call_indirect: replace evidence argument (index 1).
+        // A pure closure takes no evidence: its first argument is its environment.
         if func::CallIndirect::from_op(ctx, op).is_ok() {
             let current_operands = ctx.op_operands(op).to_vec();
             if current_operands.len() >= 2 {
                 let current_ev = current_operands[1];
-                if current_ev != ev_value {
+                if current_ev != ev_value
+                    && ability::is_evidence_type_ref(ctx, ctx.value_ty(current_ev))
+                {
                     let loc = ctx.op(op).location;
                     let result_ty = ctx
                         .op_result_types(op)
-- 
2.43.0


From c4d07a2472cc0f67a1d1b33e108a033121bb9b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:35 +0000
Subject: [PATCH 21/21] fix: read back the names of variant types

The WebAssembly lowering names variant types `adt.enum$Tag`; the printer
writes that name as it is, but the parser stopped at the `$`.
---
 crates/trunk-ir/src/parser/raw.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/trunk-ir/src/parser/raw.rs b/crates/trunk-ir/src/parser/raw.rs
index 1cb356a..d2bd84a 100644
--- a/crates/trunk-ir/src/parser/raw.rs
+++ b/crates/trunk-ir/src/parser/raw.rs
@@ -146,10 +146,18 @@ pub fn block_label<'a>(input: &mut &'a str) -> ModalResult<&'a str> {
 }
 
 /// Parse a dialect-qualified name: dialect.name
+///
+/// The name may contain `$`, which separates the variant in the name of a
+/// variant type (e.g. `adt.enum$Some`).
 pub fn qualified_name<'a>(input: &mut &'a str) -> ModalResult<(&'a str, &'a str)> {
-    (ident, '.', ident)
-        .map(|(d, _, n)| (d, n))
-        .parse_next(input)
+    let name = (
+        ident,
+        take_while(0.., |c: char| {
+            c.is_ascii_alphanumeric() || c == '_' || c == '$'
+        }),
+    )
+        .take();
+    (ident, '.', name).map(|(d, _, n)| (d, n)).parse_next(input)
 }
 
 /// Parse an integer literal (signed or unsigned).
-- 
2.43.0

