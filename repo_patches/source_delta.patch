From c9ca1d5e03cd1df3d5b5d55af0bdb88ed06d1a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 01/67] fix: Measure and truncate line editor prompts in
 characters

Prompts with non-ASCII characters were measured and sliced by bytes, which
misplaced the cursor and panicked when the cut fell inside a character.
---
 std/src/console/readline.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/std/src/console/readline.rs b/std/src/console/readline.rs
index a7fedfb..1d39648 100644
--- a/std/src/console/readline.rs
+++ b/std/src/console/readline.rs
@@ -349,15 +349,15 @@ impl<'a, 'h> Readline<'a, 'h> {
         };
 
         let mut prompt = Cow::from(prompt);
-        let mut prompt_len = prompt.len();
+        let mut prompt_len = prompt.chars().count();
         if prompt_len >= console_width {
-            // TODO(jmmv): This slices by bytes and can split non-ASCII prompts.
             if console_width >= 5 {
-                prompt = Cow::from(format!("{}...", &prompt[0..console_width - 5]));
+                let head: String = prompt.chars().take(console_width - 5).collect();
+                prompt = Cow::from(format!("{}...", head));
             } else {
                 prompt = Cow::from("");
             }
-            prompt_len = prompt.len();
+            prompt_len = prompt.chars().count();
         }
 
         let input_width = {
-- 
2.43.0


From e83ce7b1f6081abc9ae372058b04fd67a52a1191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 02/67] fix: Drop the pending history entry when a line edit is
 aborted

Interrupting the line editor, or ending the input, left a stray entry in the
history for a line that was never entered.
---
 std/src/console/readline.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/std/src/console/readline.rs b/std/src/console/readline.rs
index 1d39648..4acdf6d 100644
--- a/std/src/console/readline.rs
+++ b/std/src/console/readline.rs
@@ -401,8 +401,24 @@ impl<'a, 'h> Readline<'a, 'h> {
         Ok(readline)
     }
 
+    /// Discards the history entry for the line being edited, which was not accepted.
+    fn abandon(&mut self) {
+        if let Some(history) = self.history.as_mut() {
+            history.pop();
+        }
+    }
+
     /// Runs the interactive key-processing loop until the line is accepted.
     async fn run(mut self) -> io::Result<String> {
+        if let Err(e) = self.process_keys().await {
+            self.abandon();
+            return Err(e);
+        }
+        Ok(self.finish())
+    }
+
+    /// Processes keys until the line is accepted or the edit is aborted.
+    async fn process_keys(&mut self) -> io::Result<()> {
         loop {
             let result = match self.console.read_key().await? {
                 Key::ArrowDown => self.do_up_down(1),
@@ -423,11 +439,9 @@ impl<'a, 'h> Readline<'a, 'h> {
             }?;
 
             if let DispatchResult::Submit = result {
-                break;
+                return Ok(());
             }
         }
-
-        Ok(self.finish())
     }
 }
 
-- 
2.43.0


From 4798ef54d2d9a11c1661519bc0547abee25f314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 03/67] fix: Do not let EXIT DO and EXIT FOR leave the
 enclosing callable

A callable defined inside of a loop could EXIT that loop, jumping into the
middle of the caller with the callee's frame still active.
---
 core/src/compiler/top.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 670dba7..b2ff439 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -38,6 +38,7 @@ use std::cmp::max;
 use std::collections::{HashMap, HashSet};
 use std::io;
 use std::iter::Iterator;
+use std::mem;
 use std::rc::Rc;
 
 use super::syms::LocalSymtableSnapshot;
@@ -1136,6 +1137,10 @@ fn compile_user_callable(
     });
     debug_assert!(ctx.callable_exit_jumps.is_empty());
 
+    // The body of the callable cannot exit from any loop that textually encloses its definition.
+    let outer_do_exit_stack = mem::take(&mut ctx.do_exit_stack);
+    let outer_for_exit_stack = mem::take(&mut ctx.for_exit_stack);
+
     let mut symtable = symtable.enter_scope();
 
     // The call protocol expects the return value to be in the first local variable
@@ -1179,6 +1184,8 @@ fn compile_user_callable(
         ctx.codegen.patch(addr, bytecode::make_jump(target));
     }
     ctx.current_callable = None;
+    ctx.do_exit_stack = outer_do_exit_stack;
+    ctx.for_exit_stack = outer_for_exit_stack;
     let skip_addr = ctx.codegen.next_pc();
     ctx.codegen.define_user_callable(key, start_pc, skip_addr);
 
-- 
2.43.0


From fc3c4ef18df85d29fc2aac7e54bebf2399e14129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 04/67] fix: Report calls to callables that are declared but
 never defined

These crashed the compiler.
---
 core/src/compiler/codegen.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/compiler/codegen.rs b/core/src/compiler/codegen.rs
index 45505bf..0d7a0ab 100644
--- a/core/src/compiler/codegen.rs
+++ b/core/src/compiler/codegen.rs
@@ -16,7 +16,7 @@
 
 //! Code generation for the EndBASIC compiler.
 
-use crate::ast::ExprType;
+use crate::ast::{ExprType, VarRef};
 use crate::bytecode::{self, ErrorHandlerMode, Register};
 use crate::compiler::ids::HashMapWithIds;
 use crate::compiler::{Error, Result, SymbolKey};
@@ -203,8 +203,9 @@ impl Codegen {
             let pos = self.instrs[addr].linecol;
             let instr = match fixup {
                 Fixup::Call(reg, key) => {
-                    let (target, _end) =
-                        self.user_callables_addresses.get(&key).expect("Must be present");
+                    let Some((target, _end)) = self.user_callables_addresses.get(&key) else {
+                        return Err(Error::UndefinedSymbol(pos, VarRef::new(key.to_string(), None)));
+                    };
                     bytecode::make_call(reg, Self::make_target(*target, pos)?)
                 }
                 Fixup::Gosub(label) => {
-- 
2.43.0


From 1219c51134d102fd99c9dc1dfafec7603728d30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 05/67] fix: Make the reported unresolved label deterministic

The first error was picked by the iteration order of a hash map.
---
 core/src/compiler/codegen.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/codegen.rs b/core/src/compiler/codegen.rs
index 0d7a0ab..a736fa3 100644
--- a/core/src/compiler/codegen.rs
+++ b/core/src/compiler/codegen.rs
@@ -199,7 +199,10 @@ impl Codegen {
 
     /// Applies all registered fixups to the generated code.
     fn apply_fixups(&mut self) -> Result<()> {
-        for (addr, fixup) in self.fixups.drain() {
+        // Go in program order so that the first problem is always the one reported.
+        let mut fixups: Vec<(Address, Fixup)> = self.fixups.drain().collect();
+        fixups.sort_by_key(|(addr, _)| *addr);
+        for (addr, fixup) in fixups {
             let pos = self.instrs[addr].linecol;
             let instr = match fixup {
                 Fixup::Call(reg, key) => {
-- 
2.43.0


From df1def9de30765c13c8211a7fff9f9e923b92db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 06/67] fix: Resume after the failing statement and not at the
 next one in the text

ON ERROR RESUME NEXT looked for the next statement in textual order, so an
error in the last statement of a block fell into the ELSE branch, left the
loop or skipped the return from a function, and an error in the last statement
of the program crashed the machine.
---
 core/src/compiler/codegen.rs | 15 ++++++++++++++-
 core/src/compiler/top.rs     |  1 +
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/codegen.rs b/core/src/compiler/codegen.rs
index a736fa3..07a6c1b 100644
--- a/core/src/compiler/codegen.rs
+++ b/core/src/compiler/codegen.rs
@@ -25,6 +25,7 @@ use crate::mem::ConstantDatum;
 use crate::reader::LineCol;
 use std::collections::HashMap;
 use std::convert::TryFrom;
+use std::mem;
 
 /// Alias for instruction addresses in the generated code.
 type Address = usize;
@@ -61,6 +62,9 @@ pub(super) struct Codegen {
     /// Per-instruction metadata for every instruction in `code`.
     instrs: Vec<InstrMetadata>,
 
+    /// Whether the next instruction to be emitted follows the end of a statement.
+    after_stmt: bool,
+
     /// Map of label names to their target addresses.
     labels: HashMap<SymbolKey, Address>,
 
@@ -82,7 +86,7 @@ impl Codegen {
         self.code.push(op);
         self.instrs.push(InstrMetadata {
             linecol: pos,
-            is_stmt_start: false,
+            is_stmt_start: mem::take(&mut self.after_stmt),
             arg_linecols: vec![],
         });
         self.code.len() - 1
@@ -93,6 +97,15 @@ impl Codegen {
         self.instrs[addr].is_stmt_start = true;
     }
 
+    /// Marks the current position as the end of a statement.
+    ///
+    /// The instruction that comes next is where execution resumes if the statement fails.  Such
+    /// instruction may belong to the construct that encloses the statement, like the jump that
+    /// closes a loop.
+    pub(super) fn mark_statement_end(&mut self) {
+        self.after_stmt = true;
+    }
+
     /// Attaches argument source locations to the instruction at `addr`.
     ///
     /// `arg_linecols` has one entry per register slot in the argument area, in the same order
diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index b2ff439..44f622d 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1076,6 +1076,7 @@ fn compile_stmt(
     if mark_start && start_pc != ctx.codegen.next_pc() {
         ctx.codegen.mark_statement_start(start_pc);
     }
+    ctx.codegen.mark_statement_end();
     Ok(())
 }
 
-- 
2.43.0


From 567401002e525e0678880826fec14239d872b89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 07/67] fix: Run error handlers in the frame of the code they
 belong to

An error raised by a callable jumped to the handler in the main program with
the registers and the call stack of the callable still in place.
---
 core/src/image.rs      | 18 ++++++++++++++++++
 core/src/vm/context.rs | 23 +++++++++++++++++++++++
 core/src/vm/mod.rs     |  7 +++++++
 3 files changed, 48 insertions(+)

diff --git a/core/src/image.rs b/core/src/image.rs
index 098a5a5..9bd10dc 100644
--- a/core/src/image.rs
+++ b/core/src/image.rs
@@ -145,6 +145,24 @@ pub struct DebugInfo {
     pub(crate) program_vars: HashMap<SymbolKey, GlobalVarInfo>,
 }
 
+impl DebugInfo {
+    /// Returns the start address of the user-defined callable that contains the instruction at
+    /// `pc`, or `None` if the instruction belongs to the main program.
+    pub(crate) fn callable_at(&self, pc: usize) -> Option<usize> {
+        self.callables
+            .iter()
+            .filter(|(addr, (_key, is_start))| *is_start && **addr <= pc)
+            .map(|(addr, _)| *addr)
+            .max()
+            .filter(|start| {
+                let (key, _) = &self.callables[start];
+                self.callables
+                    .iter()
+                    .any(|(addr, (k, is_start))| !*is_start && k == key && pc < *addr)
+            })
+    }
+}
+
 /// Incremental update to append into an existing `Image`.
 pub(crate) struct ImageDelta {
     /// Suffix of bytecode instructions to append after dropping the current EOF terminator.
diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index c7ef659..c380e06 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -260,6 +260,29 @@ impl Context {
         self.err_handler = ErrorHandler::None;
     }
 
+    /// Leaves all the calls that separate the instruction at `pc`, which is the one being
+    /// executed, from the code accepted by `is_target`.
+    ///
+    /// Returns false, and does nothing, if there is no active frame for such code.
+    pub(super) fn unwind_calls<F>(&mut self, pc: Address, is_target: F) -> bool
+    where
+        F: Fn(Address) -> bool,
+    {
+        if is_target(pc) {
+            return true;
+        }
+        let Some(index) = self
+            .call_stack
+            .iter()
+            .rposition(|frame| frame.ret_reg.is_some() && is_target(frame.old_pc))
+        else {
+            return false;
+        };
+        self.fp = self.call_stack[index].old_fp;
+        self.call_stack.truncate(index);
+        true
+    }
+
     /// Marks the current jump-based error handler as active.
     pub(super) fn set_error_handler_active(&mut self) {
         self.err_handler = match self.err_handler {
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 6b6490b..211e9f2 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -345,6 +345,13 @@ impl Vm {
             ErrorHandler::None => false,
             ErrorHandler::Jump { active: true, .. } => false,
             ErrorHandler::Jump { active: false, addr } => {
+                // The handler has to run in the frame of the code it belongs to and not in
+                // that of the callable that failed.
+                let target = image.debug_info.callable_at(addr);
+                let is_target = |pc| image.debug_info.callable_at(pc) == target;
+                if !self.context.unwind_calls(pc, is_target) {
+                    return false;
+                }
                 self.context.set_error_handler_active();
                 self.context.set_pc(addr);
                 true
-- 
2.43.0


From 91dc57958a5e29a18e0e658851727d6caa0f3d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 08/67] fix: Go back to the main program when execution stops
 within a call

After an error, an interrupt or END inside of a callable, the code that an
interactive session ran next saw the callee's registers and call stack.
---
 core/src/vm/context.rs | 7 +++++++
 core/src/vm/mod.rs     | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index c380e06..7bac960 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -260,6 +260,13 @@ impl Context {
         self.err_handler = ErrorHandler::None;
     }
 
+    /// Leaves all calls, going back to the main program.
+    pub(super) fn unwind_all(&mut self) {
+        self.call_stack.clear();
+        self.fp = usize::from(Register::MAX_GLOBAL);
+        self.yield_pending = false;
+    }
+
     /// Leaves all the calls that separate the instruction at `pc`, which is the one being
     /// executed, from the code accepted by `is_target`.
     ///
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 211e9f2..051d785 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -298,6 +298,7 @@ impl Vm {
     /// Parks execution at the current EOF instruction so later appended code can resume.
     fn park_at_eof(&mut self, image: &Image) {
         debug_assert!(!image.code.is_empty());
+        self.context.unwind_all();
         self.context.set_pc(image.code.len() - 1);
     }
 
@@ -460,7 +461,10 @@ impl Vm {
                     self.park_at_eof(image);
                     return StopReason::End(code);
                 }
-                InternalStopReason::Eof => return StopReason::Eof,
+                InternalStopReason::Eof => {
+                    self.park_at_eof(image);
+                    return StopReason::Eof;
+                }
                 InternalStopReason::Exception(pc, e) => {
                     let pos = image.debug_info.instrs[pc].linecol;
                     if !self.handle_exception(image, pc, pos, e.clone()) {
-- 
2.43.0


From 531b0a36871d68471aa7bef42f7582630058d2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 09/67] fix: Do not let argless function calls overwrite
 registers in use

---
 core/src/compiler/exprs.rs | 13 ++++++++++++-
 core/src/compiler/syms.rs  |  8 ++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/exprs.rs b/core/src/compiler/exprs.rs
index d965243..7c7d2b3 100644
--- a/core/src/compiler/exprs.rs
+++ b/core/src/compiler/exprs.rs
@@ -709,8 +709,19 @@ pub(super) fn compile_expr(
                 }
 
                 if md.is_user_defined() {
+                    // The frame of the callee starts at the register that receives the result so
+                    // no register in use can follow it.
+                    let mut scope = symtable.temp_scope();
+                    let ret_reg = if scope.is_last_used(reg) {
+                        reg
+                    } else {
+                        scope.alloc().map_err(|e| Error::from_syms(e, span.pos))?
+                    };
                     let addr = codegen.emit(bytecode::make_nop(), span.pos);
-                    codegen.add_fixup(addr, Fixup::Call(reg, key));
+                    codegen.add_fixup(addr, Fixup::Call(ret_reg, key));
+                    if reg != ret_reg {
+                        codegen.emit(bytecode::make_move(reg, ret_reg), span.pos);
+                    }
                 } else {
                     let upcall = codegen.get_upcall(key, Some(etype), span.pos)?;
                     let (is_global, _) = reg.to_parts();
diff --git a/core/src/compiler/syms.rs b/core/src/compiler/syms.rs
index d780b99..7643aba 100644
--- a/core/src/compiler/syms.rs
+++ b/core/src/compiler/syms.rs
@@ -520,6 +520,14 @@ impl TempScope {
         Register::local(reg).map_err(|_| Error::OutOfRegisters(RegisterScope::Temp))
     }
 
+    /// Returns true if `reg` is the last local or temporary register that was in use on scope
+    /// creation.
+    pub(crate) fn is_last_used(&self, reg: Register) -> bool {
+        let (is_global, index) = reg.to_parts();
+        !is_global
+            && usize::from(index) + 1 == usize::from(self.nlocals) + usize::from(self.base_temp)
+    }
+
     /// Allocates a new temporary register.
     pub(crate) fn alloc(&mut self) -> Result<Register> {
         let temp;
-- 
2.43.0


From 1830f158f2364d33c4ded88d6f6d9fd72a68eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 10/67] fix: Return zero from functions of type double without
 a result

---
 core/src/compiler/top.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 44f622d..505b766 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1157,7 +1157,11 @@ fn compile_user_callable(
         // of the result to properly allocate it.
         let value = match vtype {
             ExprType::Boolean | ExprType::Integer => 0,
-            ExprType::Double => ctx.codegen.get_constant(ConstantDatum::Double(0.0), key_pos)?,
+            ExprType::Double => {
+                // The raw representation of 0.0 is all zeros, no matter where the constant is.
+                ctx.codegen.get_constant(ConstantDatum::Double(0.0), key_pos)?;
+                0
+            }
             ExprType::Text => {
                 ctx.codegen.get_constant(ConstantDatum::Text(String::new()), key_pos)?
             }
-- 
2.43.0


From 6f3532870b667cdad1825291ad7a1866d29d093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 11/67] fix: Make room for the registers of upcalls within deep
 calls

---
 core/src/vm/context.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 7bac960..862f85a 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -394,13 +394,20 @@ impl Context {
     ) -> Scope<'a> {
         let (is_global, index) = reg.to_parts();
         assert!(!is_global);
-        let index = usize::from(index);
+        let fp = self.fp + usize::from(index);
+
+        // The upcall accesses registers relative to its own frame pointer without bounds checks,
+        // and nothing may have stored a value that far yet.
+        let min_regs = fp + usize::from(Register::MAX) + 1;
+        if self.regs.len() < min_regs {
+            self.regs.resize(min_regs, 0);
+        }
 
         Scope {
             regs: &mut self.regs,
             constants,
             heap,
-            fp: self.fp + index,
+            fp,
             arg_offset: if is_function { 1 } else { 0 },
             arg_linecols,
             last_error,
-- 
2.43.0


From 34b37aae455709435c93f8215ce5b3560f80f28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 12/67] fix: Report arrays that do not fit in memory as an
 error

---
 core/src/vm/context.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 862f85a..713e031 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -22,7 +22,7 @@ use crate::bytecode::{
     self, ErrorHandlerMode, ExitCode, Opcode, Register, TaggedRegisterRef, opcode_of,
 };
 use crate::image::Image;
-use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum};
+use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum, HeapOverflowError};
 use crate::num::unchecked_usize_as_u8;
 use crate::reader::LineCol;
 
@@ -667,7 +667,13 @@ impl Context {
                 Ok(n) => n,
             };
             dimensions.push(dim);
-            total *= dim;
+            total = match total.checked_mul(dim) {
+                Some(total) if Vec::<u64>::new().try_reserve_exact(total).is_ok() => total,
+                _ => {
+                    self.set_exception(HeapOverflowError.to_string());
+                    return;
+                }
+            };
         }
 
         let values = match subtype {
-- 
2.43.0


From 36e30bfa27f0b7a2c4001b1c38ecfb1da195c9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 13/67] fix: Reject NOT where an operator is expected

---
 core/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 30e75d6..76a89ed 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -897,6 +897,9 @@ impl<'a> Parser<'a> {
                 }
 
                 Token::Not => {
+                    if !need_operand {
+                        return Err(Error::Bad(ts.pos, "Unexpected NOT in expression".to_owned()));
+                    }
                     op_spans.push(ExprOpSpan::new(ExprOp::Not, ts.pos));
                     need_operand = true;
                 }
-- 
2.43.0


From cc07865af1e015041b2e30d0191d062486f0af99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 14/67] fix: Reject dimension 0 in LBOUND and UBOUND

UBOUND panicked on it.
---
 std/src/arrays.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/arrays.rs b/std/src/arrays.rs
index 9b806f4..19ccff2 100644
--- a/std/src/arrays.rs
+++ b/std/src/arrays.rs
@@ -37,7 +37,7 @@ fn parse_bound_args(scope: &Scope<'_>) -> CallResult<(Vec<usize>, usize)> {
     if scope.nargs() == 2 {
         let i = scope.get_integer(1);
 
-        if i < 0 {
+        if i <= 0 {
             return Err(CallError::Syntax(
                 scope.get_pos(1),
                 format!("Dimension {} must be positive", i),
-- 
2.43.0


From ed5d804ff244f9ba617a1a3e90e29c4acac274a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:25 +0000
Subject: [PATCH 15/67] fix: Report too many nested blocks or expressions as an
 error

---
 cli/src/main.rs    |  6 ++++--
 core/src/parser.rs | 27 +++++++++++++++++++++++----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 6288a38..73584a5 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -88,7 +88,9 @@ fn app_main(matches: Matches) -> Result<i32> {
     let (console_host, console_factory) =
         setup_console(console_spec.as_deref(), signals_tx.clone())?;
 
-    let interpreter = thread::spawn(move || -> Result<i32> {
+    // The parser and the compiler recurse for every nested block.
+    let builder = thread::Builder::new().stack_size(16 * 1024 * 1024);
+    let interpreter = builder.spawn(move || -> Result<i32> {
         let runtime = tokio::runtime::Runtime::new()?;
         runtime.block_on(async move {
             async_app_main(
@@ -100,7 +102,7 @@ fn app_main(matches: Matches) -> Result<i32> {
             )
             .await
         })
-    });
+    })?;
 
     console_host.run()?;
     interpreter.join().expect("Interpreter thread shoult not have panicked")
diff --git a/core/src/parser.rs b/core/src/parser.rs
index 76a89ed..113876c 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -260,16 +260,35 @@ impl ExprOpSpan {
     }
 }
 
+/// Maximum nesting of blocks and argument lists, which bounds the native stack that the parser and
+/// the compiler need.
+const MAX_NESTING: usize = 128;
+
 /// Parser that converts a token stream into an AST of statements.
 pub struct Parser<'a> {
     /// The lexer providing tokens for parsing.
     lexer: PeekableLexer<'a>,
+
+    /// Number of blocks and argument lists being parsed.
+    nesting: usize,
 }
 
 impl<'a> Parser<'a> {
     /// Creates a new parser from the given readable.
     fn from(input: &'a mut dyn io::Read) -> Self {
-        Self { lexer: Lexer::from(input).peekable() }
+        Self { lexer: Lexer::from(input).peekable(), nesting: 0 }
+    }
+
+    /// Runs `f`, which can recurse, if the current nesting allows for it.
+    fn nested<T>(&mut self, f: fn(&mut Self) -> Result<T>) -> Result<T> {
+        if self.nesting >= MAX_NESTING {
+            let pos = self.lexer.peek()?.pos;
+            return Err(Error::Bad(pos, "Too many nested blocks or expressions".to_owned()));
+        }
+        self.nesting += 1;
+        let result = f(self);
+        self.nesting -= 1;
+        result
     }
 
     /// Expects the peeked token to be `t` and consumes it.  Otherwise, leaves the token in the
@@ -734,7 +753,7 @@ impl<'a> Parser<'a> {
 
         // The first expression is optional to support calls to functions without arguments.
         let mut is_first = true;
-        let mut prev_expr = self.parse_expr(None)?;
+        let mut prev_expr = self.nested(|p| p.parse_expr(None))?;
 
         loop {
             let peeked = self.lexer.peek()?;
@@ -762,7 +781,7 @@ impl<'a> Parser<'a> {
                         return Err(Error::Bad(pos, "Missing expression".to_owned()));
                     }
 
-                    prev_expr = self.parse_expr(None)?;
+                    prev_expr = self.nested(|p| p.parse_expr(None))?;
                 }
                 t => return Err(Error::Bad(pos, format!("Unexpected {}", t))),
             }
@@ -2013,7 +2032,7 @@ impl<'a> Parser<'a> {
     ///
     /// The stream is always left in a position where the next statement extraction can be tried.
     fn parse_one_safe(&mut self) -> Result<Option<Statement>> {
-        let result = self.parse_one();
+        let result = self.nested(Self::parse_one);
         if result.is_err() {
             self.reset()?;
         }
-- 
2.43.0


From 28fa51380944e5ecc90b12d12141e844ba7bc276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:34 +0000
Subject: [PATCH 16/67] fix: Reject parameters that repeat a name of their
 callable

---
 core/src/compiler/top.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 505b766..07019a0 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1169,7 +1169,10 @@ fn compile_user_callable(
         ctx.codegen.emit(bytecode::make_load_integer(ret_reg, value), key_pos);
     }
     for param in callable.params {
-        let key = SymbolKey::from(param.name);
+        let key = SymbolKey::from(&param.name);
+        if symtable.contains_local(&key) {
+            return Err(Error::AlreadyDefined(key_pos, param));
+        }
         symtable
             .put_local(
                 key.clone(),
-- 
2.43.0


From 97b1bfc9a9af9ebf9ec0f6f04bde9c54f6ce7026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 17/67] fix: Bound the depth of expressions that cannot be
 compiled

---
 core/src/parser.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 113876c..8e8584b 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -264,6 +264,10 @@ impl ExprOpSpan {
 /// the compiler need.
 const MAX_NESTING: usize = 128;
 
+/// Maximum number of binary operators waiting for their right operand in an expression, which bounds
+/// the depth of its syntax tree.  The registers of the machine allow for fewer than these.
+const MAX_PENDING_OPS: usize = 1024;
+
 /// Parser that converts a token stream into an AST of statements.
 pub struct Parser<'a> {
     /// The lexer providing tokens for parsing.
@@ -291,6 +295,19 @@ impl<'a> Parser<'a> {
         result
     }
 
+    /// Pushes the binary operator `op` onto `op_spans` unless there are too many of them.
+    fn push_binary_op(op_spans: &mut Vec<ExprOpSpan>, op: ExprOp, pos: LineCol) -> Result<()> {
+        let is_binary =
+            |eos: &&ExprOpSpan| !matches!(eos.op, ExprOp::LeftParen | ExprOp::Negate | ExprOp::Not);
+        if op_spans.len() >= MAX_PENDING_OPS
+            && op_spans.iter().filter(is_binary).count() >= MAX_PENDING_OPS
+        {
+            return Err(Error::Bad(pos, "Too many nested expressions".to_owned()));
+        }
+        op_spans.push(ExprOpSpan::new(op, pos));
+        Ok(())
+    }
+
     /// Expects the peeked token to be `t` and consumes it.  Otherwise, leaves the token in the
     /// stream and fails with error `err`.
     fn expect_and_consume<E: Into<String>>(&mut self, t: Token, err: E) -> Result<TokenSpan> {
@@ -923,11 +940,10 @@ impl<'a> Parser<'a> {
                     need_operand = true;
                 }
                 Token::Minus => {
-                    let op;
                     if need_operand {
-                        op = ExprOp::Negate;
+                        op_spans.push(ExprOpSpan::new(ExprOp::Negate, ts.pos));
                     } else {
-                        op = ExprOp::Subtract;
+                        let op = ExprOp::Subtract;
                         while let Some(eos2) = op_spans.last() {
                             if eos2.op == ExprOp::LeftParen || eos2.op.priority() < op.priority() {
                                 break;
@@ -935,8 +951,8 @@ impl<'a> Parser<'a> {
                             let eos2 = op_spans.pop().unwrap();
                             eos2.apply(&mut exprs)?;
                         }
+                        Self::push_binary_op(&mut op_spans, op, ts.pos)?;
                     }
-                    op_spans.push(ExprOpSpan::new(op, ts.pos));
                     need_operand = true;
                 }
 
@@ -964,7 +980,7 @@ impl<'a> Parser<'a> {
                         let eos2 = op_spans.pop().unwrap();
                         eos2.apply(&mut exprs)?;
                     }
-                    op_spans.push(ExprOpSpan::new(op, ts.pos));
+                    Self::push_binary_op(&mut op_spans, op, ts.pos)?;
                     need_operand = true;
                 }
 
-- 
2.43.0


From b74001f2987537ad2c05cde7408cb458af859102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:32 +0000
Subject: [PATCH 18/67] fix: Let interrupts stop loops that go through an error
 handler

Jumping to an error handler can close a loop just like a GOTO can, but it
never requested a yield so such loops could not be interrupted.
---
 core/src/vm/context.rs | 11 +++++++++++
 core/src/vm/mod.rs     |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 713e031..9cf3632 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -287,6 +287,7 @@ impl Context {
         };
         self.fp = self.call_stack[index].old_fp;
         self.call_stack.truncate(index);
+        self.yield_pending = true;
         true
     }
 
@@ -298,6 +299,16 @@ impl Context {
         };
     }
 
+    /// Moves execution from the instruction at `pc`, which failed, to the error handler at `addr`.
+    ///
+    /// This is a backward jump like any other if the handler comes first.
+    pub(super) fn jump_to_error_handler(&mut self, pc: Address, addr: Address) {
+        self.pc = addr;
+        if addr <= pc {
+            self.yield_pending = true;
+        }
+    }
+
     /// Dereferences a pointer register as a string.
     fn deref_string<'b>(
         &self,
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 051d785..2cadabd 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -354,7 +354,7 @@ impl Vm {
                     return false;
                 }
                 self.context.set_error_handler_active();
-                self.context.set_pc(addr);
+                self.context.jump_to_error_handler(pc, addr);
                 true
             }
             ErrorHandler::ResumeNext => {
-- 
2.43.0


From e5b8624ad5dc76fbf5c8063c715f5807bc972e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:04 +0000
Subject: [PATCH 19/67] fix: Let interrupts stop loops made of GOSUBs and
 recursive calls

A GOSUB that goes backwards closes a loop just like a GOTO does, even if the
subroutine never returns, and calls can repeat for very long without any loop.
Neither requested a yield so such programs could not be interrupted.
---
 core/src/vm/context.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 9cf3632..20adad2 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -823,10 +823,14 @@ impl Context {
     /// Implements the `Gosub` opcode.
     pub(super) fn do_gosub(&mut self, instr: u32) {
         let offset = bytecode::parse_gosub(instr);
-        if !self.push_frame(Frame { old_pc: self.pc, old_fp: self.fp, ret_reg: None }) {
+        let old_pc = self.pc;
+        if !self.push_frame(Frame { old_pc, old_fp: self.fp, ret_reg: None }) {
             return;
         }
         self.pc = Address::from(offset);
+        if self.pc <= old_pc {
+            self.yield_pending = true;
+        }
     }
 
     /// Implements the `GreaterDouble` opcode.
@@ -1120,8 +1124,8 @@ impl Context {
         } else {
             self.pc = frame.old_pc + 1;
             self.fp = frame.old_fp;
-            self.yield_pending = true;
         }
+        self.yield_pending = true;
     }
 
     /// Implements the `SetErrorHandler` opcode.
-- 
2.43.0


From a3d9bbe3ec4272c18fc9f03c0d871dafef0a6b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:54 +0000
Subject: [PATCH 20/67] fix: Keep temporaries away from the storage of
 variables

---
 core/src/compiler/args.rs    |  1 +
 core/src/compiler/codegen.rs | 17 ++++++++
 core/src/compiler/exprs.rs   |  2 +
 core/src/compiler/syms.rs    |  5 +++
 core/src/compiler/top.rs     |  9 +++++
 core/src/image.rs            | 11 +++++
 core/src/vm/context.rs       | 78 +++++++++++++++++++++++++-----------
 7 files changed, 99 insertions(+), 24 deletions(-)

diff --git a/core/src/compiler/args.rs b/core/src/compiler/args.rs
index 5b19204..f446f96 100644
--- a/core/src/compiler/args.rs
+++ b/core/src/compiler/args.rs
@@ -106,6 +106,7 @@ fn define_new_arg(
     let reg = symtable
         .put_local(key, SymbolPrototype::Scalar(vtype))
         .map_err(|e| Error::from_syms(e, pos))?;
+    codegen.set_nlocals(symtable.count_locals());
     codegen.emit_default(reg, vtype, pos);
     Ok(())
 }
diff --git a/core/src/compiler/codegen.rs b/core/src/compiler/codegen.rs
index 07a6c1b..c698665 100644
--- a/core/src/compiler/codegen.rs
+++ b/core/src/compiler/codegen.rs
@@ -62,6 +62,9 @@ pub(super) struct Codegen {
     /// Per-instruction metadata for every instruction in `code`.
     instrs: Vec<InstrMetadata>,
 
+    /// Number of local variables in the scope of the code being generated.
+    nlocals: u8,
+
     /// Whether the next instruction to be emitted follows the end of a statement.
     after_stmt: bool,
 
@@ -87,6 +90,8 @@ impl Codegen {
         self.instrs.push(InstrMetadata {
             linecol: pos,
             is_stmt_start: mem::take(&mut self.after_stmt),
+            nlocals: self.nlocals,
+            ncall_regs: 0,
             arg_linecols: vec![],
         });
         self.code.len() - 1
@@ -106,6 +111,18 @@ impl Codegen {
         self.after_stmt = true;
     }
 
+    /// Sets the number of local variables in the scope of the code that is about to be generated.
+    pub(super) fn set_nlocals(&mut self, nlocals: u8) {
+        self.nlocals = nlocals;
+    }
+
+    /// Sets the number of registers, including the one for the return value, that the CALL
+    /// instruction at `addr` sets up for the callee.
+    pub(super) fn set_ncall_regs(&mut self, addr: Address, ncall_regs: usize) {
+        self.instrs[addr].ncall_regs =
+            u8::try_from(ncall_regs).expect("Cannot have allocated more registers than u8");
+    }
+
     /// Attaches argument source locations to the instruction at `addr`.
     ///
     /// `arg_linecols` has one entry per register slot in the argument area, in the same order
diff --git a/core/src/compiler/exprs.rs b/core/src/compiler/exprs.rs
index 7c7d2b3..9f29d48 100644
--- a/core/src/compiler/exprs.rs
+++ b/core/src/compiler/exprs.rs
@@ -636,6 +636,7 @@ pub(super) fn compile_expr(
 
                 if is_user_defined {
                     let addr = codegen.emit(bytecode::make_nop(), key_pos);
+                    codegen.set_ncall_regs(addr, 1 + arg_linecols.len());
                     codegen.set_arg_linecols(addr, arg_linecols);
                     codegen.add_fixup(addr, Fixup::Call(ret_reg, key));
                 } else {
@@ -718,6 +719,7 @@ pub(super) fn compile_expr(
                         scope.alloc().map_err(|e| Error::from_syms(e, span.pos))?
                     };
                     let addr = codegen.emit(bytecode::make_nop(), span.pos);
+                    codegen.set_ncall_regs(addr, 1);
                     codegen.add_fixup(addr, Fixup::Call(ret_reg, key));
                     if reg != ret_reg {
                         codegen.emit(bytecode::make_move(reg, ret_reg), span.pos);
diff --git a/core/src/compiler/syms.rs b/core/src/compiler/syms.rs
index 7643aba..4901b61 100644
--- a/core/src/compiler/syms.rs
+++ b/core/src/compiler/syms.rs
@@ -377,6 +377,11 @@ impl<'a> LocalSymtable<'a> {
         put_var(key, proto, &mut self.locals, Register::local, RegisterScope::Local)
     }
 
+    /// Returns the number of local variables.
+    pub(crate) fn count_locals(&self) -> u8 {
+        u8::try_from(self.locals.len()).expect("Cannot have allocated more locals than u8")
+    }
+
     /// Returns true if a local variable `key` is already defined.
     pub(crate) fn contains_local(&self, key: &SymbolKey) -> bool {
         self.locals.get(key).is_some()
diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 07019a0..708cffd 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -182,6 +182,7 @@ fn compile_assignment(
                     SymbolPrototype::Scalar(vref.ref_type.unwrap_or(ExprType::Integer)),
                 )
                 .map_err(|e| Error::from_syms(e, vref_pos))?;
+            codegen.set_nlocals(symtable.count_locals());
             match vref.ref_type {
                 Some(etype) => (reg, Some(etype), false),
                 None => (reg, None, false),
@@ -623,6 +624,7 @@ fn compile_for(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: ForSpa
                 symtable
                     .put_local(key, SymbolPrototype::Scalar(ExprType::Double))
                     .map_err(|e| Error::from_syms(e, span.iter_pos))?;
+                ctx.codegen.set_nlocals(symtable.count_locals());
             }
 
             Err(e) => return Err(Error::from_syms(e, span.iter_pos)),
@@ -834,6 +836,7 @@ fn compile_stmt(
 
             if is_user_defined {
                 let addr = ctx.codegen.emit(bytecode::make_nop(), key_pos);
+                ctx.codegen.set_ncall_regs(addr, arg_linecols.len());
                 ctx.codegen.set_arg_linecols(addr, arg_linecols);
                 ctx.codegen.add_fixup(addr, Fixup::Call(first_temp, key));
             } else {
@@ -859,6 +862,7 @@ fn compile_stmt(
                 return Err(Error::AlreadyDefined(span.name_pos, span.name));
             }
             compile_user_callable(ctx, symtable.global(), span)?;
+            ctx.codegen.set_nlocals(symtable.count_locals());
             ctx.defined_callables.insert(key);
         }
 
@@ -903,6 +907,7 @@ fn compile_stmt(
                 symtable.put_local(key, SymbolPrototype::Scalar(span.vtype))
             }
             .map_err(|e| Error::from_syms(e, name_pos))?;
+            ctx.codegen.set_nlocals(symtable.count_locals());
             ctx.codegen.emit_default(reg, span.vtype, name_pos);
         }
 
@@ -937,6 +942,7 @@ fn compile_stmt(
                 symtable.put_local(key, SymbolPrototype::Array(info))
             }
             .map_err(|e| Error::from_syms(e, name_pos))?;
+            ctx.codegen.set_nlocals(symtable.count_locals());
 
             let mut symtable = symtable.frozen();
             let mut outer_scope = symtable.temp_scope();
@@ -1150,6 +1156,7 @@ fn compile_user_callable(
         let ret_reg = symtable
             .put_local(key.clone(), SymbolPrototype::Scalar(vtype))
             .map_err(|e| Error::from_syms(e, key_pos))?;
+        ctx.codegen.set_nlocals(symtable.count_locals());
 
         // Set the default value of the function result.  We could instead try to do this
         // at runtime by clearning the return register... but the problem is that we need
@@ -1180,6 +1187,7 @@ fn compile_user_callable(
             )
             .map_err(|e| Error::from_syms(e, key_pos))?;
     }
+    ctx.codegen.set_nlocals(symtable.count_locals());
 
     for stmt in callable.body {
         compile_stmt(ctx, &mut symtable, stmt)?;
@@ -1342,6 +1350,7 @@ pub fn compile(
     mut symtable: LocalSymtable,
 ) -> Result<(ImageDelta, LocalSymtableSnapshot)> {
     ctx.codegen.pop_eof();
+    ctx.codegen.set_nlocals(symtable.count_locals());
     {
         for stmt in parser::parse(input) {
             compile_stmt(ctx, &mut symtable, stmt?)?;
diff --git a/core/src/image.rs b/core/src/image.rs
index 9bd10dc..6860eb0 100644
--- a/core/src/image.rs
+++ b/core/src/image.rs
@@ -115,6 +115,15 @@ pub(crate) struct InstrMetadata {
     /// True if this instruction is the start of a statement.
     pub(crate) is_stmt_start: bool,
 
+    /// Number of local variables in scope at this instruction.
+    ///
+    /// The local registers that follow those of the variables are temporaries.
+    pub(crate) nlocals: u8,
+
+    /// Number of registers set up for the callee, including its return value, if this is a CALL
+    /// instruction.
+    pub(crate) ncall_regs: u8,
+
     /// Source locations of the call arguments, if this is a UPCALL instruction.
     ///
     /// Each entry corresponds to one register slot in the argument area, in the same order
@@ -228,6 +237,8 @@ impl Default for Image {
                 instrs: vec![InstrMetadata {
                     linecol: LineCol { line: 0, col: 0 },
                     is_stmt_start: true,
+                    nlocals: 0,
+                    ncall_regs: 0,
                     arg_linecols: vec![],
                 }],
                 callables: HashMap::default(),
diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 20adad2..ed506af 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -25,10 +25,14 @@ use crate::image::Image;
 use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum, HeapOverflowError};
 use crate::num::unchecked_usize_as_u8;
 use crate::reader::LineCol;
+use std::cmp::min;
 
 /// Default max call stack.
 const DEFAULT_MAX_CALL_STACK: usize = 4096;
 
+/// Maximum number of local registers in a frame.
+const MAX_LOCAL: usize = (Register::MAX - Register::MAX_GLOBAL) as usize + 1;
+
 const CALL_STACK_OVERFLOW_MSG: &str = "Out of call stack space";
 
 /// Alias for the type representing a program address.
@@ -82,8 +86,8 @@ struct Frame {
     /// Frame pointer of the previous frame.
     old_fp: usize,
 
-    /// Register to store the return value of the call, if any.
-    ret_reg: Option<Register>,
+    /// Absolute index of the register to store the return value of the call, if any.
+    ret_index: Option<usize>,
 }
 
 /// Custom implementation of checked integer additions for error reporting purposes.
@@ -191,6 +195,9 @@ pub(super) struct Context {
 
     /// Indicates whether execution should yield once we hit the next statement boundary.
     yield_pending: bool,
+
+    /// Number of local variables in scope at the instruction that is being executed.
+    nlocals: usize,
 }
 
 impl Default for Context {
@@ -211,19 +218,27 @@ impl Context {
             call_stack: vec![],
             max_call_stack,
             yield_pending: false,
+            nlocals: 0,
         }
     }
 }
 
 impl Context {
     /// Computes the absolute index in `regs` for `reg`.
+    ///
+    /// Every frame has two banks, one for local variables and one for temporaries.  The compiler
+    /// gives temporaries the numbers that follow those of the variables defined so far, which
+    /// may be the numbers of variables defined later on, and the two must not share storage.
     fn reg_index(&self, reg: Register) -> usize {
         let (is_global, index) = reg.to_parts();
-        let mut index = usize::from(index);
-        if !is_global {
-            index += self.fp;
+        let index = usize::from(index);
+        if is_global {
+            index
+        } else if index < self.nlocals {
+            self.fp + index
+        } else {
+            self.fp + MAX_LOCAL + index
         }
-        index
     }
 
     /// Gets the value of register `reg`.
@@ -239,6 +254,11 @@ impl Context {
     /// Panics if the register is invalid.
     fn set_reg(&mut self, reg: Register, value: u64) {
         let index = self.reg_index(reg);
+        self.set_reg_at(index, value);
+    }
+
+    /// Sets the value of the register at absolute `index` to `value`.
+    fn set_reg_at(&mut self, index: usize, value: u64) {
         if index >= self.regs.len() {
             self.regs.resize(index + 1, 0);
         }
@@ -281,7 +301,7 @@ impl Context {
         let Some(index) = self
             .call_stack
             .iter()
-            .rposition(|frame| frame.ret_reg.is_some() && is_target(frame.old_pc))
+            .rposition(|frame| frame.ret_index.is_some() && is_target(frame.old_pc))
         else {
             return false;
         };
@@ -332,7 +352,8 @@ impl Context {
     /// Program-scope variables live in local registers in the outer frame.  Their absolute
     /// positions in the register file start at `Register::MAX_GLOBAL`.
     pub(super) fn get_program_reg_raw(&self, index: u8) -> u64 {
-        self.regs[usize::from(Register::MAX_GLOBAL) + usize::from(index)]
+        let index = usize::from(Register::MAX_GLOBAL) + usize::from(index);
+        self.regs.get(index).copied().unwrap_or(0)
     }
 
     /// Resolves array subscripts and computes the flat index for `arr_reg` with subscripts read
@@ -403,9 +424,9 @@ impl Context {
         last_error: &'a Option<(LineCol, String)>,
         data: &'a [Option<ConstantDatum>],
     ) -> Scope<'a> {
-        let (is_global, index) = reg.to_parts();
+        let (is_global, _index) = reg.to_parts();
         assert!(!is_global);
-        let fp = self.fp + usize::from(index);
+        let fp = self.reg_index(reg);
 
         // The upcall accesses registers relative to its own frame pointer without bounds checks,
         // and nothing may have stored a value that far yet.
@@ -456,6 +477,8 @@ impl Context {
             }
 
             let instr = image.code[self.pc];
+            let meta = &image.debug_info.instrs[self.pc];
+            self.nlocals = usize::from(meta.nlocals);
 
             match opcode_of(instr) {
                 Opcode::AddDouble => self.do_add_double(instr),
@@ -466,7 +489,7 @@ impl Context {
                 Opcode::BitwiseNot => self.do_bitwise_not(instr),
                 Opcode::BitwiseOr => self.do_bitwise_or(instr),
                 Opcode::BitwiseXor => self.do_bitwise_xor(instr),
-                Opcode::Call => self.do_call(instr),
+                Opcode::Call => self.do_call(instr, meta.ncall_regs),
                 Opcode::Concat => self.do_concat(instr, &image.constants, heap),
                 Opcode::DivideDouble => self.do_divide_double(instr),
                 Opcode::DivideInteger => self.do_divide_integer(instr),
@@ -729,15 +752,24 @@ impl Context {
     }
 
     /// Implements the `Call` opcode.
-    pub(super) fn do_call(&mut self, instr: u32) {
+    ///
+    /// `ncall_regs` is the number of registers that the caller set up for the callee.
+    pub(super) fn do_call(&mut self, instr: u32, ncall_regs: u8) {
         let (reg, offset) = bytecode::parse_call(instr);
-        if !self.push_frame(Frame { old_pc: self.pc, old_fp: self.fp, ret_reg: Some(reg) }) {
+        let ret_index = self.reg_index(reg);
+        if !self.push_frame(Frame { old_pc: self.pc, old_fp: self.fp, ret_index: Some(ret_index) })
+        {
             return;
         }
         self.pc = Address::from(offset);
         let (is_global, index) = reg.to_parts();
-        debug_assert!(!is_global, "Function results are always stored to a temp register");
-        self.fp += usize::from(index);
+        debug_assert!(!is_global, "Function results are always stored to a local register");
+        self.fp += MAX_LOCAL + usize::from(index);
+
+        // Local variables that are not set up by the caller do not inherit any leftover value.
+        let end = min(self.fp + MAX_LOCAL, self.regs.len());
+        let start = min(self.fp + usize::from(ncall_regs), end);
+        self.regs[start..end].fill(0);
     }
 
     /// Implements the `Concat` opcode.
@@ -824,7 +856,7 @@ impl Context {
     pub(super) fn do_gosub(&mut self, instr: u32) {
         let offset = bytecode::parse_gosub(instr);
         let old_pc = self.pc;
-        if !self.push_frame(Frame { old_pc, old_fp: self.fp, ret_reg: None }) {
+        if !self.push_frame(Frame { old_pc, old_fp: self.fp, ret_index: None }) {
             return;
         }
         self.pc = Address::from(offset);
@@ -1116,15 +1148,13 @@ impl Context {
                 return;
             }
         };
-        if let Some(ret_reg) = frame.ret_reg {
-            let return_value = self.get_reg(Register::local(0).unwrap());
-            self.pc = frame.old_pc + 1;
-            self.fp = frame.old_fp;
-            self.set_reg(ret_reg, return_value);
-        } else {
-            self.pc = frame.old_pc + 1;
-            self.fp = frame.old_fp;
+        if let Some(ret_index) = frame.ret_index {
+            // The return value is always in the first local variable, if there is any.
+            let return_value = self.regs.get(self.fp).copied().unwrap_or(0);
+            self.set_reg_at(ret_index, return_value);
         }
+        self.pc = frame.old_pc + 1;
+        self.fp = frame.old_fp;
         self.yield_pending = true;
     }
 
-- 
2.43.0


From fed2d9547834ed4f77559d433b6295e8ad3d45ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 21/67] fix: Report the use of arrays whose DIM was not
 executed

---
 core/src/callable.rs   | 24 +++++++++++++++---------
 core/src/mem.rs        | 14 +++++++++-----
 core/src/vm/context.rs | 10 ++++++++--
 core/src/vm/mod.rs     |  7 +++++--
 std/src/arrays.rs      |  4 ++++
 5 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/core/src/callable.rs b/core/src/callable.rs
index 985077b..0f09f47 100644
--- a/core/src/callable.rs
+++ b/core/src/callable.rs
@@ -21,7 +21,7 @@ use crate::ast::ExprType;
 use crate::bytecode::TaggedRegisterRef;
 use crate::bytecode::VarArgTag;
 use crate::mem::HeapOverflowError;
-use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum};
+use crate::mem::{ARRAY_NOT_INITIALIZED_MSG, ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum};
 use crate::reader::LineCol;
 use async_trait::async_trait;
 use std::borrow::Cow;
@@ -748,20 +748,24 @@ fn deref_string<'a>(
     ptr.resolve_string(constants, heap)
 }
 
-/// Dereferences this register reference as an array and returns its contents.
-fn array_data<'a>(regs: &'a [u64], index: usize, heap: &'a Heap) -> &'a ArrayData {
+/// Dereferences this register reference as an array and returns its contents, or `None` if the
+/// array has not been initialized.
+fn array_data<'a>(regs: &'a [u64], index: usize, heap: &'a Heap) -> Option<&'a ArrayData> {
     let ptr = DatumPtr::from(regs[index]);
-    let heap_idx = ptr.heap_index();
+    let heap_idx = ptr.heap_index()?;
     let HeapDatum::Array(a) = heap.get(heap_idx) else {
         panic!("Scalar variable does not point to an array on the heap");
     };
-    a
+    Some(a)
 }
 
-/// Dereferences this register reference as an array and returns its dimensions.
+/// Dereferences this register reference as an array and returns its dimensions, which are empty
+/// if the array has not been initialized.
 fn array_dimensions<'a>(regs: &'a [u64], index: usize, heap: &'a Heap) -> &'a [usize] {
-    let a = array_data(regs, index, heap);
-    &a.dimensions
+    match array_data(regs, index, heap) {
+        Some(a) => &a.dimensions,
+        None => &[],
+    }
 }
 
 /// Dereferences an integer from an array element in this register reference.
@@ -773,7 +777,9 @@ fn deref_array_integer(
     subscripts: &[i32],
 ) -> Result<i32, String> {
     assert_eq!(ExprType::Integer, vtype);
-    let a = array_data(regs, index, heap);
+    let Some(a) = array_data(regs, index, heap) else {
+        return Err(ARRAY_NOT_INITIALIZED_MSG.to_owned());
+    };
     let flat_idx = a.flat_index(subscripts)?;
     Ok(a.values[flat_idx] as i32)
 }
diff --git a/core/src/mem.rs b/core/src/mem.rs
index dda7538..39703ff 100644
--- a/core/src/mem.rs
+++ b/core/src/mem.rs
@@ -271,6 +271,9 @@ impl Heap {
     }
 }
 
+/// Error message for the use of an array whose definition has not been executed.
+pub(crate) const ARRAY_NOT_INITIALIZED_MSG: &str = "Array not initialized";
+
 /// Tagged pointers for constant and heap addresses.
 ///
 /// A `DatumPtr` indexes into the constant pool or the heap, where datum values live.
@@ -327,13 +330,14 @@ impl DatumPtr {
         }
     }
 
-    /// Extracts the heap index from this pointer.
+    /// Extracts the heap index from this pointer, or `None` if this is not a heap pointer.
     ///
-    /// Panics if this is not a heap pointer.
-    pub(crate) fn heap_index(&self) -> usize {
+    /// Variables that hold arrays contain a heap pointer unless the `DIM` that defines them has
+    /// not been executed or failed.
+    pub(crate) fn heap_index(&self) -> Option<usize> {
         match self {
-            DatumPtr::Heap(index) => unchecked_u24_as_usize(*index),
-            DatumPtr::Constant(_) => panic!("Expected a heap pointer"),
+            DatumPtr::Heap(index) => Some(unchecked_u24_as_usize(*index)),
+            DatumPtr::Constant(_) => None,
         }
     }
 }
diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index ed506af..319379b 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -22,7 +22,10 @@ use crate::bytecode::{
     self, ErrorHandlerMode, ExitCode, Opcode, Register, TaggedRegisterRef, opcode_of,
 };
 use crate::image::Image;
-use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum, HeapOverflowError};
+use crate::mem::{
+    ARRAY_NOT_INITIALIZED_MSG, ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum,
+    HeapOverflowError,
+};
 use crate::num::unchecked_usize_as_u8;
 use crate::reader::LineCol;
 use std::cmp::min;
@@ -367,7 +370,10 @@ impl Context {
         heap: &Heap,
     ) -> Option<(usize, usize)> {
         let arr_ptr = DatumPtr::from(self.get_reg(arr_reg));
-        let heap_idx = arr_ptr.heap_index();
+        let Some(heap_idx) = arr_ptr.heap_index() else {
+            self.set_exception(ARRAY_NOT_INITIALIZED_MSG);
+            return None;
+        };
         let array = match heap.get(heap_idx) {
             HeapDatum::Array(a) => a,
             _ => unreachable!("Register must point to an array"),
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 2cadabd..d361346 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -23,7 +23,7 @@ use crate::bytecode::{ExitCode, Register};
 use crate::callable::{Callable, Scope};
 use crate::compiler::SymbolKey;
 use crate::image::{GlobalVarInfo, Image};
-use crate::mem::{ConstantDatum, DatumPtr, Heap, HeapDatum};
+use crate::mem::{ARRAY_NOT_INITIALIZED_MSG, ConstantDatum, DatumPtr, Heap, HeapDatum};
 use crate::num::U24;
 use crate::reader::LineCol;
 use std::collections::HashMap;
@@ -220,7 +220,10 @@ impl Vm {
         }
         let raw = read_raw(&self.context, info.reg);
         let ptr = DatumPtr::from(raw);
-        let heap_idx = ptr.heap_index();
+        let Some(heap_idx) = ptr.heap_index() else {
+            let message = ARRAY_NOT_INITIALIZED_MSG.to_owned();
+            return Err(GetGlobalError::SubscriptOutOfBounds(message));
+        };
         let HeapDatum::Array(a) = self.heap.get(heap_idx) else {
             panic!("Array variable does not point to an array on the heap");
         };
diff --git a/std/src/arrays.rs b/std/src/arrays.rs
index 19ccff2..803be22 100644
--- a/std/src/arrays.rs
+++ b/std/src/arrays.rs
@@ -34,6 +34,10 @@ fn parse_bound_args(scope: &Scope<'_>) -> CallResult<(Vec<usize>, usize)> {
     let array = scope.get_ref(0);
     let dimensions = array.array_dimensions();
 
+    if dimensions.is_empty() {
+        return Err(CallError::Syntax(scope.get_pos(0), "Array not initialized".to_owned()));
+    }
+
     if scope.nargs() == 2 {
         let i = scope.get_integer(1);
 
-- 
2.43.0


From 5b3fac8ded8197e8c0f937d041c57c8a7a941aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 22/67] fix: Read strings whose first assignment was not
 executed as empty

---
 core/src/mem.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/src/mem.rs b/core/src/mem.rs
index 39703ff..00d103f 100644
--- a/core/src/mem.rs
+++ b/core/src/mem.rs
@@ -312,16 +312,19 @@ impl DatumPtr {
 
     /// Resolves this pointer and returns the string it points to.
     ///
-    /// Panics if the pointed-to datum is not a `Text` value.
+    /// Variables whose definition has not been executed yet do not point to any string.  Treat
+    /// them as empty.
+    ///
+    /// Panics if the pointed-to datum in the heap is not a `Text` value.
     pub(crate) fn resolve_string<'b>(
         &self,
         constants: &'b [ConstantDatum],
         heap: &'b Heap,
     ) -> &'b str {
         match self {
-            DatumPtr::Constant(index) => match &constants[unchecked_u24_as_usize(*index)] {
-                ConstantDatum::Text(s) => s,
-                _ => panic!("Constant pointer does not point to a Text value"),
+            DatumPtr::Constant(index) => match constants.get(unchecked_u24_as_usize(*index)) {
+                Some(ConstantDatum::Text(s)) => s,
+                _ => "",
             },
             DatumPtr::Heap(index) => match heap.get(unchecked_u24_as_usize(*index)) {
                 HeapDatum::Text(s) => s,
-- 
2.43.0


From 1b39e57f3c6858c88a312fb33a56e252501abb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 23/67] fix: List the files of a directory that has a dangling
 symlink

---
 std/src/storage/fs.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/std/src/storage/fs.rs b/std/src/storage/fs.rs
index f725938..02b77f7 100644
--- a/std/src/storage/fs.rs
+++ b/std/src/storage/fs.rs
@@ -74,7 +74,14 @@ impl Drive for DirectoryDrive {
                     // This follows symlinks for cross-platform simplicity, but it is ugly.  I don't
                     // expect symlinks in the programs directory anyway.  If we want to handle this
                     // better, we'll have to add a way to report file types.
-                    let metadata = fs::metadata(de.path())?;
+                    let metadata = match fs::metadata(de.path()) {
+                        Ok(metadata) => metadata,
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => {
+                            // Dangling symlink, or a file that was deleted by someone else.
+                            continue;
+                        }
+                        Err(e) => return Err(e),
+                    };
                     let offset = match time::UtcOffset::current_local_offset() {
                         Ok(offset) => offset,
                         Err(_) => time::UtcOffset::UTC,
-- 
2.43.0


From 48b06524dd5e8bf976bed780a51d9da6d3ba35a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 24/67] fix: Do not create the target of a mount that is
 rejected

---
 std/src/storage/mod.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/std/src/storage/mod.rs b/std/src/storage/mod.rs
index 9b64ee4..800c366 100644
--- a/std/src/storage/mod.rs
+++ b/std/src/storage/mod.rs
@@ -443,6 +443,15 @@ impl Storage {
     ///
     /// The `name` must be valid and must not yet have been registered.
     fn attach(&mut self, name: &str, uri: &str, drive: Box<dyn Drive>) -> io::Result<()> {
+        let key = self.new_drive_key(name)?;
+        let mounted_drive = MountedDrive { uri: uri.to_owned(), drive };
+        self.drives.insert(key, mounted_drive);
+        Ok(())
+    }
+
+    /// Returns the key for a drive to be attached with `name`, which must be valid and must not
+    /// yet have been registered.
+    fn new_drive_key(&self, name: &str) -> io::Result<DriveKey> {
         let key = DriveKey::new(name)?;
         if self.drives.contains_key(&key) {
             return Err(io::Error::new(
@@ -450,9 +459,7 @@ impl Storage {
                 format!("Drive '{}' is already mounted", name),
             ));
         }
-        let mounted_drive = MountedDrive { uri: uri.to_owned(), drive };
-        self.drives.insert(DriveKey::new(name)?, mounted_drive);
-        Ok(())
+        Ok(key)
     }
 
     /// Instantiates and attaches a new `drive` with `name` that points to `uri`.
@@ -461,7 +468,11 @@ impl Storage {
     pub fn mount(&mut self, name: &str, uri: &str) -> io::Result<()> {
         let (scheme, path) = split_uri(uri)?;
         let drive = match self.factories.get(&scheme.to_lowercase()) {
-            Some(factory) => factory.create(path)?,
+            Some(factory) => {
+                // Creating a drive may have side effects, so make sure it can be attached.
+                self.new_drive_key(name)?;
+                factory.create(path)?
+            }
             None => {
                 return Err(io::Error::new(
                     io::ErrorKind::InvalidInput,
-- 
2.43.0


From 352194b855d0a703cd9e671a47ced8336c8c7ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:13 +0000
Subject: [PATCH 25/67] fix: Align PRINT fields by characters and not by bytes

---
 std/src/console/cmds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/cmds.rs b/std/src/console/cmds.rs
index c6b1786..4971762 100644
--- a/std/src/console/cmds.rs
+++ b/std/src/console/cmds.rs
@@ -590,7 +590,7 @@ impl Callable for PrintCommand {
                 ArgSep::End => break,
                 ArgSep::Long => {
                     text += " ";
-                    while !text.len().is_multiple_of(14) {
+                    while !text.chars().count().is_multiple_of(14) {
                         text += " ";
                     }
                 }
-- 
2.43.0


From 09d8f30537bf5ed427f3c8404262bf5b974e52d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 26/67] fix: Let MAX and MIN return infinities

---
 std/src/numerics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/src/numerics.rs b/std/src/numerics.rs
index ff527fb..5494a2d 100644
--- a/std/src/numerics.rs
+++ b/std/src/numerics.rs
@@ -648,7 +648,7 @@ impl Callable for MaxFunction {
     }
 
     fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
-        let mut max = f64::MIN;
+        let mut max = f64::NEG_INFINITY;
         for i in 0..(scope.nargs() as u8) {
             let n = scope.get_double(i);
             if n > max {
@@ -693,7 +693,7 @@ impl Callable for MinFunction {
     }
 
     fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
-        let mut min = f64::MAX;
+        let mut min = f64::INFINITY;
         for i in 0..(scope.nargs() as u8) {
             let n = scope.get_double(i);
             if n < min {
-- 
2.43.0


From 02ef54e2a88bd4f9c6dd270de665059c7288d90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 27/67] fix: Do not return NaN when rounding to too many or too
 few digits

---
 std/src/numerics.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/std/src/numerics.rs b/std/src/numerics.rs
index 5494a2d..45a9ca3 100644
--- a/std/src/numerics.rs
+++ b/std/src/numerics.rs
@@ -954,7 +954,16 @@ impl Callable for RoundFunction {
             debug_assert_eq!(2, scope.nargs());
             let decimals = scope.get_integer(1);
             let factor = 10f64.powi(decimals);
-            scope.return_double((value * factor).round() / factor)
+            let scaled = value * factor;
+            if factor == 0.0 && value.is_finite() {
+                // All digits of the number are below the ones to keep.
+                scope.return_double(0.0)
+            } else if scaled.is_finite() {
+                scope.return_double(scaled.round() / factor)
+            } else {
+                // The number has no digits below the ones to keep.
+                scope.return_double(value)
+            }
         }
     }
 }
-- 
2.43.0


From 2368a68d6eebacb624ce1b2d2e1385b3b02eb94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 28/67] fix: Do not overflow when drawing circles near the
 limits of coordinates

---
 std/src/console/drawing.rs | 40 +++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index e0cc905..49fe159 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -168,8 +168,11 @@ pub fn draw_circle<R>(rasops: &mut R, center: PixelsXY, radius: u16) -> io::Resu
 where
     R: RasterOps,
 {
-    fn point<R: RasterOps>(rasops: &mut R, x: i16, y: i16) -> io::Result<()> {
-        rasops.draw_pixel(PixelsXY { x, y })
+    fn point<R: RasterOps>(rasops: &mut R, center: PixelsXY, dx: i16, dy: i16) -> io::Result<()> {
+        match (center.x.checked_add(dx), center.y.checked_add(dy)) {
+            (Some(x), Some(y)) => rasops.draw_pixel(PixelsXY { x, y }),
+            _ => Ok(()), // Cannot be visible.
+        }
     }
 
     if radius == 0 {
@@ -193,14 +196,14 @@ where
     let mut e: i16 = tx - diameter;
 
     while x >= y {
-        point(rasops, center.x + x, center.y - y)?;
-        point(rasops, center.x + x, center.y + y)?;
-        point(rasops, center.x - x, center.y - y)?;
-        point(rasops, center.x - x, center.y + y)?;
-        point(rasops, center.x + y, center.y - x)?;
-        point(rasops, center.x + y, center.y + x)?;
-        point(rasops, center.x - y, center.y - x)?;
-        point(rasops, center.x - y, center.y + x)?;
+        point(rasops, center, x, -y)?;
+        point(rasops, center, x, y)?;
+        point(rasops, center, -x, -y)?;
+        point(rasops, center, -x, y)?;
+        point(rasops, center, y, -x)?;
+        point(rasops, center, y, x)?;
+        point(rasops, center, -y, -x)?;
+        point(rasops, center, -y, x)?;
 
         if e <= 0 {
             y += 1;
@@ -226,8 +229,13 @@ pub fn draw_circle_filled<R>(rasops: &mut R, center: PixelsXY, radius: u16) -> i
 where
     R: RasterOps,
 {
-    fn line<R: RasterOps>(rasops: &mut R, x1: i16, y1: i16, x2: i16, y2: i16) -> io::Result<()> {
-        rasops.draw_line(PixelsXY { x: x1, y: y1 }, PixelsXY { x: x2, y: y2 })
+    fn line<R: RasterOps>(rasops: &mut R, center: PixelsXY, dx: i16, dy: i16) -> io::Result<()> {
+        let x = match center.x.checked_add(dx) {
+            Some(x) => x,
+            None => return Ok(()), // Cannot be visible.
+        };
+        let (y1, y2) = (center.y.saturating_sub(dy), center.y.saturating_add(dy));
+        rasops.draw_line(PixelsXY { x, y: y1 }, PixelsXY { x, y: y2 })
     }
 
     if radius == 0 {
@@ -252,10 +260,10 @@ where
     let mut e: i16 = tx - diameter;
 
     while x >= y {
-        line(rasops, center.x + x, center.y - y, center.x + x, center.y + y)?;
-        line(rasops, center.x - x, center.y - y, center.x - x, center.y + y)?;
-        line(rasops, center.x + y, center.y - x, center.x + y, center.y + x)?;
-        line(rasops, center.x - y, center.y - x, center.x - y, center.y + x)?;
+        line(rasops, center, x, y)?;
+        line(rasops, center, -x, y)?;
+        line(rasops, center, y, x)?;
+        line(rasops, center, -y, x)?;
 
         if e <= 0 {
             y += 1;
-- 
2.43.0


From 28e697c34dc0419e92e24d3af59b7a009cd7ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 29/67] fix: Fill huge polygons without overflowing

---
 std/src/console/drawing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index 49fe159..daa148e 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -323,7 +323,9 @@ fn edge_intersection(y: i32, p1: PixelsXY, p2: PixelsXY) -> Option<i32> {
 
     let x1 = i32::from(p1.x);
     let x2 = i32::from(p2.x);
-    Some(x1 + (y - y1) * (x2 - x1) / (y2 - y1))
+    // The product may not fit in 32 bits but the result is always within the edge.
+    let dx = i64::from(y - y1) * i64::from(x2 - x1) / i64::from(y2 - y1);
+    Some(x1 + dx as i32)
 }
 
 /// Fills the poligon defined by `points` using a scanline intersection algorithm.
-- 
2.43.0


From f8c6b85c1fb8000a93ce16205dc44ddbf6066e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 30/67] fix: Do not hang when filling with a color that looks
 like the one to replace

---
 std/src/console/drawing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index daa148e..38596d1 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -142,6 +142,10 @@ where
         }
 
         rasops.draw_pixel(xy)?;
+        if rasops.peek_pixel(xy)? == Some(seed_color) {
+            // Different color numbers can look the same, in which case there is nothing to fill.
+            return Ok(());
+        }
 
         if xy.x > i16::MIN {
             pending.push(PixelsXY::new(xy.x - 1, xy.y));
-- 
2.43.0


From 41fdb5d7bf3cf1a56069fb47492be5ae8152a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 31/67] fix: Do not draw filled rectangles that are outside of
 an LCD

---
 std/src/gfx/lcd/buffered/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/std/src/gfx/lcd/buffered/mod.rs b/std/src/gfx/lcd/buffered/mod.rs
index 683e16a..d04a9da 100644
--- a/std/src/gfx/lcd/buffered/mod.rs
+++ b/std/src/gfx/lcd/buffered/mod.rs
@@ -486,6 +486,11 @@ where
     }
 
     fn draw_rect_filled(&mut self, xy: PixelsXY, size: SizeInPixels) -> io::Result<()> {
+        let max = self.clamp_xy(PixelsXY::new(i16::MAX, i16::MAX));
+        if i32::from(xy.x) > max.x as i32 || i32::from(xy.y) > max.y as i32 {
+            return Ok(()); // Fully outside of the LCD.
+        }
+
         let x1y1 = self.clamp_xy(xy);
         let x2y2 = self.clip_x2y2(xy, size);
         match x2y2 {
-- 
2.43.0


From 5b2acae4987783c76fdb676638fb77b63043cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 32/67] fix: Do not draw the cursor past the edge of a
 graphical console

Writing a text that ends exactly at the right edge leaves the cursor one
column past it, and reading the pixels of that column panics.
---
 std/src/console/graphics.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 60f693d..59492ac 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -385,7 +385,9 @@ where
     ///
     /// Does not present the canvas.
     fn draw_cursor(&mut self) -> io::Result<()> {
-        if !self.cursor_visible {
+        // The cursor is past the right edge of the console, and thus not visible, after writing text
+        // that ends exactly at the edge.
+        if !self.cursor_visible || self.cursor_pos.x >= self.size_chars.x {
             return Ok(());
         }
 
-- 
2.43.0


From 38f2a9fd34a5345cb523415025cb686079b65f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 33/67] fix: Do not panic clearing the previous character at
 the first column

The cursor was drawn again without having been cleared first.
---
 std/src/console/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 59492ac..79e4c26 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -514,8 +514,8 @@ where
                 self.cursor_pos.x = 0;
             }
             ClearType::PreviousChar => {
+                self.clear_cursor()?;
                 if self.cursor_pos.x > 0 {
-                    self.clear_cursor()?;
                     let previous_pos = CharsXY::new(self.cursor_pos.x - 1, self.cursor_pos.y);
                     let origin = previous_pos.clamped_mul(self.glyph_size);
                     self.raster_ops.set_draw_color(self.bg_color);
-- 
2.43.0


From 09094a0e22b8f653d5c192f597ac856215331466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 34/67] fix: Do not save the cursor as part of the main screen

Entering the alternate screen of a graphical console saved the pixels of
the cursor too, so a ghost of it remained after leaving it.
---
 std/src/console/graphics.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 79e4c26..3f201f6 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -560,6 +560,7 @@ where
             ));
         }
 
+        self.clear_cursor()?;
         let pixels = self.raster_ops.read_pixels(PixelsXY::new(0, 0), self.size_pixels)?;
         self.alt_backup = Some((
             pixels,
-- 
2.43.0


From 34e1bbdd59c4e4591b441ba05a233926184c150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 35/67] fix: Scroll graphical consoles that have a single line

There is nothing to move up in that case.
---
 std/src/console/graphics.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 3f201f6..7ce5a93 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -433,10 +433,16 @@ where
         let text_height: u16 = self.size_chars.y.clamped_mul(self.glyph_size.height);
         let x1y1 = PixelsXY::new(0, self.glyph_size.height.clamped_into());
         let x2y2 = PixelsXY::new(0, 0);
-        let size = SizeInPixels::new(self.size_pixels.width, text_height - self.glyph_size.height);
 
         self.raster_ops.set_draw_color(self.bg_color);
-        self.raster_ops.move_pixels(x1y1, x2y2, size)?;
+        if self.size_chars.y > 1 {
+            let size =
+                SizeInPixels::new(self.size_pixels.width, text_height - self.glyph_size.height);
+            self.raster_ops.move_pixels(x1y1, x2y2, size)?;
+        } else {
+            let size = SizeInPixels::new(self.size_pixels.width, self.glyph_size.height);
+            self.raster_ops.draw_rect_filled(x2y2, size)?;
+        }
         if text_height < self.size_pixels.height {
             let xy = PixelsXY::new(0, text_height.clamped_into());
             let size =
-- 
2.43.0


From 8d8280cdb93dfc7287518ebd2f9f6cda45013f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 36/67] fix: Reject SOUND durations that cannot be represented

Infinities, NaN and huge numbers panicked.
---
 std/src/sound/cmds.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/std/src/sound/cmds.rs b/std/src/sound/cmds.rs
index ab3d3ef..6f1acd0 100644
--- a/std/src/sound/cmds.rs
+++ b/std/src/sound/cmds.rs
@@ -138,11 +138,10 @@ impl Callable for SoundCommand {
                 "Duration must be positive".to_owned(),
             ));
         }
+        let duration = Duration::try_from_secs_f64(duration)
+            .map_err(|_| CallError::Syntax(scope.get_pos(1), "Duration out of range".to_owned()))?;
 
-        self.console
-            .borrow_mut()
-            .play_tone(Tone::square(pitch, Duration::from_secs_f64(duration)))
-            .await?;
+        self.console.borrow_mut().play_tone(Tone::square(pitch, duration)).await?;
         Ok(())
     }
 }
-- 
2.43.0


From 16187f58528f2bdc72bae85edd57facdc125cb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 37/67] fix: Reject SLEEP times that cannot be represented

Infinities, NaN and huge numbers panicked.
---
 std/src/datetime.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/std/src/datetime.rs b/std/src/datetime.rs
index eaa2a74..7edf9f9 100644
--- a/std/src/datetime.rs
+++ b/std/src/datetime.rs
@@ -152,11 +152,11 @@ impl Callable for SleepCommand {
                 "Sleep time must be positive".to_owned(),
             ));
         }
+        let d = Duration::try_from_secs_f64(n).map_err(|_| {
+            CallError::Syntax(scope.get_pos(0), "Sleep time out of range".to_owned())
+        })?;
 
-        self.datetime
-            .sleep(Duration::from_secs_f64(n))
-            .await
-            .map_err(|e| CallError::Syntax(scope.get_pos(0), e))
+        self.datetime.sleep(d).await.map_err(|e| CallError::Syntax(scope.get_pos(0), e))
     }
 }
 
-- 
2.43.0


From ae4c3222adad5d6a297cb549c0790c400572d6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 38/67] fix: Do not panic formatting paragraphs on very narrow
 consoles

The width that was left after the margins underflowed.
---
 std/src/console/format.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/std/src/console/format.rs b/std/src/console/format.rs
index 971d4cf..db60ecd 100644
--- a/std/src/console/format.rs
+++ b/std/src/console/format.rs
@@ -89,7 +89,8 @@ fn refill_many<S: AsRef<str>, P: IntoIterator<Item = S>>(
             }
         }
 
-        let lines = refill(paragraph, width - 4 - indent.len() - extra_indent.len());
+        let width = width.saturating_sub(4 + indent.len() + extra_indent.len());
+        let lines = refill(paragraph, width);
         for line in lines {
             if line.is_empty() {
                 formatted.push(String::new());
-- 
2.43.0


From cde9458b43334193d80a4fcd4459ccdd2371a638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 39/67] fix: Keep the cursor within the line of a graphical
 console

Editing a long answer to an INPUT that does not start at the first column
moves the cursor past the edges, which panicked.  Stop at them instead, as
terminals do.
---
 std/src/console/graphics.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 7ce5a93..e72a146 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -633,11 +633,7 @@ where
     fn move_within_line(&mut self, off: i16) -> io::Result<()> {
         let previous = self.set_sync(false)?;
         self.clear_cursor()?;
-        if off < 0 {
-            self.cursor_pos.x -= -off as u16;
-        } else {
-            self.cursor_pos.x += off as u16;
-        }
+        self.cursor_pos.x = self.cursor_pos.x.saturating_add_signed(off).min(self.size_chars.x);
         self.draw_cursor()?;
         self.set_sync(previous)?;
         Ok(())
-- 
2.43.0


From e9e71550024b85e5c0d6ebaeb88d74a0f57a0897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 40/67] fix: Pause before lines that do not fit in the rest of
 the screen

---
 std/src/console/pager.rs | 31 +++++++++++++++++++++++++------
 std/src/help.rs          |  2 ++
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/std/src/console/pager.rs b/std/src/console/pager.rs
index 2d2eda7..c9c058f 100644
--- a/std/src/console/pager.rs
+++ b/std/src/console/pager.rs
@@ -76,11 +76,35 @@ impl<'a> Pager<'a> {
         self.console.set_color(fg, bg)
     }
 
+    /// Stops until a key is pressed to let the user read what is on the screen.
+    async fn pause(&mut self) -> io::Result<()> {
+        self.console.print(self.more_message)?;
+        if matches!(self.console.read_key().await?, Key::Escape | Key::Interrupt) {
+            return Err(io::Error::new(io::ErrorKind::Interrupted, "Interrupted"));
+        }
+
+        self.cur_lines = 0;
+        Ok(())
+    }
+
+    /// Makes room for a line of `columns` columns, which is about to be written, so that it does
+    /// not push out of the screen any lines that have not been read yet.
+    pub(crate) async fn make_room(&mut self, columns: usize) -> io::Result<()> {
+        if self.console.is_interactive() && self.cur_columns == 0 && self.cur_lines > 0 {
+            let lines = (columns / usize::from(self.size.x)) + 1;
+            if self.cur_lines + lines > usize::from(self.size.y) - 1 {
+                self.pause().await?;
+            }
+        }
+        Ok(())
+    }
+
     /// Writes `text` to the console, followed by a newline or CRLF pair depending on the needs of
     /// the console to advance a line.
     ///
     /// The input `text` is not supposed to contain any control characters, such as CR or LF.
     pub(crate) async fn print(&mut self, text: &str) -> io::Result<()> {
+        self.make_room(text.len()).await?;
         self.console.print(text)?;
         if self.console.is_interactive() {
             if let Some(yielder) = self.yielder.as_ref() {
@@ -92,12 +116,7 @@ impl<'a> Pager<'a> {
             self.cur_lines += (self.cur_columns / usize::from(self.size.x)) + 1;
 
             if self.cur_lines >= usize::from(self.size.y) - 1 {
-                self.console.print(self.more_message)?;
-                if matches!(self.console.read_key().await?, Key::Escape | Key::Interrupt) {
-                    return Err(io::Error::new(io::ErrorKind::Interrupted, "Interrupted"));
-                }
-
-                self.cur_lines = 0;
+                self.pause().await?;
             }
 
             self.cur_columns = 0;
diff --git a/std/src/help.rs b/std/src/help.rs
index 4a98957..a163701 100644
--- a/std/src/help.rs
+++ b/std/src/help.rs
@@ -206,6 +206,7 @@ impl Topic for CategoryTopic {
             let filler = " ".repeat(max_length - name.len());
             // TODO(jmmv): Should use refill_and_page but continuation lines need special handling
             // to be indented properly.
+            pager.make_room(7 + max_length + 4 + blurb.len()).await?;
             pager.write("    >> ")?;
             pager.set_color(Some(LINK_COLOR), previous.1)?;
             pager.write(&format!("{}{}", name, filler))?;
@@ -464,6 +465,7 @@ equivalent: HELP \"CON\", HELP \"console\", HELP \"Console manipulation\".",
             if topic.show_in_summary() {
                 // TODO(jmmv): Should use refill_and_page but continuation lines need special
                 // handling to be indented properly.
+                pager.make_room(7 + topic.title().len()).await?;
                 pager.write("    >> ")?;
                 pager.set_color(Some(LINK_COLOR), previous.1)?;
                 pager.print(topic.title()).await?;
-- 
2.43.0


From f4923224183d95dfecfbb4a88563d671a3569f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:42 +0000
Subject: [PATCH 41/67] fix: Restore the colors when the user abandons HELP

---
 std/src/help.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/std/src/help.rs b/std/src/help.rs
index a163701..a09daae 100644
--- a/std/src/help.rs
+++ b/std/src/help.rs
@@ -501,11 +501,15 @@ impl Callable for HelpCommand {
 
         if scope.nargs() == 0 {
             let mut console = self.console.borrow_mut();
+            let previous = console.color();
             let result = {
                 let mut pager =
                     Pager::new(&mut *console, self.yielder.clone()).map_err(CallError::from)?;
                 self.summary(&topics, &mut pager).await
             };
+            if result.is_err() {
+                console.set_color(previous.0, previous.1).map_err(CallError::from)?;
+            }
             result.map_err(CallError::from)?;
         } else {
             debug_assert_eq!(1, scope.nargs());
@@ -513,11 +517,15 @@ impl Callable for HelpCommand {
 
             let topic = topics.find(&t, &scope, 0)?;
             let mut console = self.console.borrow_mut();
+            let previous = console.color();
             let result = {
                 let mut pager =
                     Pager::new(&mut *console, self.yielder.clone()).map_err(CallError::from)?;
                 topic.describe(&mut pager).await
             };
+            if result.is_err() {
+                console.set_color(previous.0, previous.1).map_err(CallError::from)?;
+            }
             result.map_err(CallError::from)?;
         }
 
-- 
2.43.0


From 5cedd17f6f1bccc8ac79c9e989cbe854a955e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:05 +0000
Subject: [PATCH 42/67] fix: Place the cursor correctly after copying a
 non-ASCII indentation

---
 repl/src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repl/src/editor.rs b/repl/src/editor.rs
index 2224690..417262b 100644
--- a/repl/src/editor.rs
+++ b/repl/src/editor.rs
@@ -458,7 +458,7 @@ impl Editor {
 
                 Key::NewLine | Key::CarriageReturn => {
                     let indent = copy_indent(&self.content[self.file_pos.line]);
-                    let indent_len = indent.len();
+                    let indent_len = indent.chars().count();
 
                     let appending = (self.file_pos.line + 1 == self.content.len())
                         && (self.file_pos.col == self.content[self.file_pos.line].len());
-- 
2.43.0


From 3e63e15c89722b082947cda8207fcc4590e56086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:15 +0000
Subject: [PATCH 43/67] fix: Do not quit the interpreter when Ctrl+C answers
 whether to discard changes

---
 repl/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/repl/src/lib.rs b/repl/src/lib.rs
index 71eea03..7e40f3b 100644
--- a/repl/src/lib.rs
+++ b/repl/src/lib.rs
@@ -237,7 +237,14 @@ pub async fn run_repl_loop(
                         let should_continue = {
                             let program = program.borrow();
                             let mut console = console.borrow_mut();
-                            continue_if_modified(&*program, &mut *console).await?
+                            match continue_if_modified(&*program, &mut *console).await {
+                                Ok(should_continue) => should_continue,
+                                Err(e) if e.kind() == io::ErrorKind::Interrupted => {
+                                    console.print(BREAK_MSG)?;
+                                    false
+                                }
+                                Err(e) => return Err(e),
+                            }
                         };
                         if should_continue {
                             stop_reason = Some(code);
-- 
2.43.0


From 6f7f4177379bd3e8208da46be13dc7f01ece3c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 44/67] fix: do not panic on ACLs that end in a non-ASCII
 character

SHARE split the last two bytes of each ACL specification without checking
that they are at a character boundary.
---
 client/src/cmds.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index 3eb12d9..eb9953f 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -307,7 +307,10 @@ among users of the EndBASIC service.",
 impl ShareCommand {
     /// Parses a textual ACL specification and adds it to `add` or `remove.
     fn parse_acl(mut acl: String, add: &mut FileAcls, remove: &mut FileAcls) -> Result<(), String> {
-        let change = if acl.len() < 3 { String::new() } else { acl.split_off(acl.len() - 2) };
+        let change = match acl.len().checked_sub(2) {
+            Some(pos) if pos > 0 && acl.is_char_boundary(pos) => acl.split_off(pos),
+            _ => String::new(),
+        };
         let username = acl; // For clarity after splitting off the ACL change request.
         match (username, change.as_str()) {
             (username, "+r") if !username.is_empty() => add.add_reader(username),
-- 
2.43.0


From 5721fd18f25383d05e8edbce9da1b6e5228a6a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 45/67] fix: Do not panic when sharing a local file publicly
 without a session

SHARE assumed that only the drives of the cloud service accept ACLs but
in-memory drives do too.
---
 client/src/cmds.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index eb9953f..de64521 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -383,7 +383,8 @@ impl Callable for ShareCommand {
             .await
             .map_err(CallError::from)?;
 
-        if Self::has_public_acl(&add) {
+        let username = self.service.borrow().logged_in_username();
+        if let (true, Some(username)) = (Self::has_public_acl(&add), username) {
             let filename = match filename.split_once('/') {
                 Some((_drive, path)) => path,
                 None => &filename,
@@ -396,15 +397,7 @@ impl Callable for ShareCommand {
                 [
                     "You have made the file publicly readable.  As a result, other people can now \
 auto-run your public file by visiting:",
-                    &format!(
-                        "{}?run={}/{}",
-                        self.exec_base_url,
-                        self.service
-                            .borrow()
-                            .logged_in_username()
-                            .expect("SHARE can only succeed against logged in cloud drives"),
-                        filename
-                    ),
+                    &format!("{}?run={}/{}", self.exec_base_url, username, filename),
                 ],
                 "    ",
             )
-- 
2.43.0


From f8d0354eadce5b707315a73c9ef79e7e8fe0cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 46/67] fix: Leave the drive out of the URL of public files

SHARE "CLOUD:FILE.BAS" kept the drive name because it only looked for the
slash that separates it from the file name, which is optional.
---
 client/src/cmds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index de64521..cd88c7a 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -385,7 +385,7 @@ impl Callable for ShareCommand {
 
         let username = self.service.borrow().logged_in_username();
         if let (true, Some(username)) = (Self::has_public_acl(&add), username) {
-            let filename = match filename.split_once('/') {
+            let filename = match filename.rsplit_once(['/', ':']) {
                 Some((_drive, path)) => path,
                 None => &filename,
             };
-- 
2.43.0


From b4a0d56285205777264462a2dee72626cdd06b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:22 +0000
Subject: [PATCH 47/67] fix: Encode the names of users and files in the URLs of
 the cloud service

A file whose name has percent signs reached the server with another name,
tabs were dropped, and users named with slashes or dots addressed other
resources altogether.
---
 client/src/cloud.rs | 48 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/client/src/cloud.rs b/client/src/cloud.rs
index 112c421..e4b1a03 100644
--- a/client/src/cloud.rs
+++ b/client/src/cloud.rs
@@ -119,13 +119,33 @@ impl CloudService {
         Ok(Self { api_address: url, client: reqwest::Client::default(), auth_data })
     }
 
-    /// Generates a service URL with the given `path`.
-    fn make_url(&self, path: &str) -> Url {
-        assert!(path.starts_with("api/"));
+    /// Generates a service URL for the path made of `segments`, which can contain any character.
+    fn make_url(&self, segments: &[&str]) -> io::Result<Url> {
+        let mut path = "api".to_owned();
+        for segment in segments {
+            // URLs cannot represent these because they are always resolved.
+            if *segment == "." || *segment == ".." {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    format!("Invalid name '{}'", segment),
+                ));
+            }
+
+            path.push('/');
+            for b in segment.bytes() {
+                match b {
+                    b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'-' | b'.' | b'_' | b'~' => {
+                        path.push(char::from(b))
+                    }
+                    b => path.push_str(&format!("%{:02X}", b)),
+                }
+            }
+        }
+
         let mut url = self.api_address.clone();
         assert!(url.path().is_empty() || url.path() == "/");
-        url.set_path(path);
-        url
+        url.set_path(&path);
+        Ok(url)
     }
 
     /// Returns the default headers to add to every request.
@@ -157,7 +177,7 @@ impl Service for CloudService {
     async fn signup(&mut self, request: &SignupRequest) -> io::Result<()> {
         let response = self
             .client
-            .post(self.make_url("api/signup"))
+            .post(self.make_url(&["signup"])?)
             .headers(self.default_headers())
             .header("Content-Type", "application/json")
             .body(serde_json::to_vec(&request)?)
@@ -178,7 +198,7 @@ impl Service for CloudService {
 
         let response = self
             .client
-            .post(self.make_url("api/login"))
+            .post(self.make_url(&["login"])?)
             .headers(self.default_headers())
             .header("Authorization", basic_auth)
             .header("Content-Length", 0)
@@ -205,7 +225,7 @@ impl Service for CloudService {
         let response = {
             let auth_data = Self::require_auth_data(auth_data.as_ref())?;
             self.client
-                .post(self.make_url(&format!("api/users/{}/logout", auth_data.username)))
+                .post(self.make_url(&["users", &auth_data.username, "logout"])?)
                 .headers(self.default_headers())
                 .header("Content-Length", 0)
                 .bearer_auth(auth_data.access_token.as_str())
@@ -233,7 +253,7 @@ impl Service for CloudService {
     async fn get_files(&mut self, username: &str) -> io::Result<GetFilesResponse> {
         let mut builder = self
             .client
-            .get(self.make_url(&format!("api/users/{}/files", username)))
+            .get(self.make_url(&["users", username, "files"])?)
             .headers(self.default_headers());
         if let Some(auth_data) = self.auth_data.borrow().as_ref() {
             builder = builder.bearer_auth(auth_data.access_token.as_str());
@@ -252,7 +272,7 @@ impl Service for CloudService {
     async fn get_file(&mut self, username: &str, filename: &str) -> io::Result<Vec<u8>> {
         let mut builder = self
             .client
-            .get(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .get(self.make_url(&["users", username, "files", filename])?)
             .headers(self.default_headers());
         if let Some(auth_data) = self.auth_data.borrow().as_ref() {
             builder = builder.bearer_auth(auth_data.access_token.as_str());
@@ -272,7 +292,7 @@ impl Service for CloudService {
         headers.insert("X-EndBASIC-GetReaders", "true".parse().unwrap());
         let mut builder = self
             .client
-            .get(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .get(self.make_url(&["users", username, "files", filename])?)
             .headers(headers);
         if let Some(auth_data) = self.auth_data.borrow().as_ref() {
             builder = builder.bearer_auth(auth_data.access_token.as_str());
@@ -312,7 +332,7 @@ impl Service for CloudService {
 
         let response = self
             .client
-            .patch(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .patch(self.make_url(&["users", username, "files", filename])?)
             .headers(self.default_headers())
             .header("Content-Type", "application/octet-stream")
             .header("X-EndBASIC-PatchContent", "true")
@@ -338,7 +358,7 @@ impl Service for CloudService {
 
         let mut builder = self
             .client
-            .patch(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .patch(self.make_url(&["users", username, "files", filename])?)
             .headers(self.default_headers())
             .header("Content-Type", "application/octet-stream")
             // Ensure we have at least one header to go through the header-based request handler.
@@ -367,7 +387,7 @@ impl Service for CloudService {
 
         let response = self
             .client
-            .delete(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .delete(self.make_url(&["users", username, "files", filename])?)
             .headers(self.default_headers())
             .header("Content-Length", 0)
             .bearer_auth(Self::require_auth_data(auth_data.as_ref())?.access_token.as_str())
-- 
2.43.0


From cd3fad3aa38d5fca04081d032a1e6739f230d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:40 +0000
Subject: [PATCH 48/67] fix: Report the exit code of programs run from the
 cloud

These were started with RUN, which hides the exit code of the program
because it is meant for the REPL, so all programs that terminated with END
were said to have reached EOF and the interpreter exited with 0.
---
 repl/src/lib.rs |  8 +-------
 std/src/lib.rs  | 11 +++++++++++
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/repl/src/lib.rs b/repl/src/lib.rs
index 7e40f3b..29498aa 100644
--- a/repl/src/lib.rs
+++ b/repl/src/lib.rs
@@ -156,13 +156,7 @@ pub async fn run_from_cloud(
     console.borrow_mut().print("Starting...")?;
     console.borrow_mut().print("")?;
 
-    if let Err(e) = machine.compile(&mut "RUN".as_bytes()) {
-        let mut console = console.borrow_mut();
-        console.print(&format!("**** ERROR: {} ****", e))?;
-        return Ok(1);
-    }
-
-    let result = machine.exec().await;
+    let result = machine.exec_program(content).await;
 
     let mut console = console.borrow_mut();
 
diff --git a/std/src/lib.rs b/std/src/lib.rs
index 52ccb26..d4042ea 100644
--- a/std/src/lib.rs
+++ b/std/src/lib.rs
@@ -141,6 +141,17 @@ impl Machine {
         self.compile(&mut program.as_bytes())
     }
 
+    /// Clears the machine and executes `program` until it stops.
+    ///
+    /// This is equivalent to loading `program` and typing `RUN` except that the exit code of the
+    /// program, if any, is returned to the caller.
+    pub async fn exec_program(&mut self, program: String) -> Result<Option<i32>> {
+        self.run(program)?;
+        let result = self.exec().await;
+        self.vm.clear_error_handler();
+        result
+    }
+
     /// Drops any deferred actions from the most recent async upcall.
     fn clear_actions(&mut self) {
         self.actions.borrow_mut().clear();
-- 
2.43.0


From 3b37cbed73da27db7558569572b6fa1a34f0cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 49/67] fix: Do not panic on scripts with a non-ASCII character
 in their second line

The propline parser looked at the first four bytes of the line without
checking that they are at a character boundary.
---
 cli/src/propline.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/cli/src/propline.rs b/cli/src/propline.rs
index 72edfbb..75d5c27 100644
--- a/cli/src/propline.rs
+++ b/cli/src/propline.rs
@@ -43,14 +43,10 @@ fn strip_newline(s: &mut String) {
 fn parse_propline(line: &str) -> io::Result<PropLine> {
     let without_comment = match line.strip_prefix("' ") {
         Some(line) => Some(line),
-        None => {
-            if line.len() <= 4 {
-                None
-            } else {
-                let token = line[0..4].to_ascii_lowercase();
-                if token == "rem " { Some(&line[4..]) } else { None }
-            }
-        }
+        None => match line.split_at_checked(4) {
+            Some((token, line)) if token.eq_ignore_ascii_case("rem ") => Some(line),
+            _ => None,
+        },
     };
     let Some(payload) = without_comment else {
         return Ok(PropLine::default());
-- 
2.43.0


From df8ace2ac6574f818c38c5dd45eae0c9a9f88e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 50/67] fix: Do not panic when --console is given an empty
 string

---
 cli/src/console.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/src/console.rs b/cli/src/console.rs
index e24ce59..e9deab0 100644
--- a/cli/src/console.rs
+++ b/cli/src/console.rs
@@ -100,7 +100,14 @@ pub fn setup_console(
     console_spec: Option<&str>,
     signals_tx: Sender<Signal>,
 ) -> io::Result<ConsoleHandles> {
-    let mut console_spec = ConsoleSpec::init(console_spec.unwrap_or("text"));
+    let console_spec = console_spec.unwrap_or("text");
+    if console_spec.is_empty() {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "Invalid --console flag: missing driver name",
+        ));
+    }
+    let mut console_spec = ConsoleSpec::init(console_spec);
     let handles: ConsoleHandles = match console_spec.driver {
         "sdl" => setup_sdl_console(&mut console_spec, signals_tx)?,
         "st7735s" => setup_st7735s_console(&mut console_spec, signals_tx)?,
-- 
2.43.0


From deca80be7e9e9f94c77d073f980c48aff405ca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 51/67] fix: Do not loop forever when the standard input cannot
 be read

---
 terminal/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/terminal/src/lib.rs b/terminal/src/lib.rs
index 3cc0d86..17b774e 100644
--- a/terminal/src/lib.rs
+++ b/terminal/src/lib.rs
@@ -207,10 +207,11 @@ impl TerminalConsole {
 
             let key = match read_key_from_stdin(&mut buffer) {
                 Ok(key) => key,
-                Err(_) => {
-                    // There is not much we can do if we get an error from stdin.
-                    Key::Unknown
-                }
+                // Text that is not valid UTF-8 is not something we can make sense of, but there may
+                // be more after it.
+                Err(e) if e.kind() == io::ErrorKind::InvalidData => Key::Unknown,
+                // Any other error from stdin is not going to go away by trying again.
+                Err(_) => Key::EofOrDelete,
             };
 
             done = key == Key::EofOrDelete;
-- 
2.43.0


From 43f03626e3c93d77ac89a17d49e285bc3a380c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 52/67] fix: Do not panic when a failing LCD cannot be cleared
 on exit

---
 std/src/gfx/lcd/buffered/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/gfx/lcd/buffered/mod.rs b/std/src/gfx/lcd/buffered/mod.rs
index d04a9da..0f4bc9a 100644
--- a/std/src/gfx/lcd/buffered/mod.rs
+++ b/std/src/gfx/lcd/buffered/mod.rs
@@ -332,7 +332,7 @@ where
 {
     fn drop(&mut self) {
         self.set_draw_color((0, 0, 0));
-        self.clear().unwrap();
+        let _best_effort = self.clear();
     }
 }
 
-- 
2.43.0


From 8e34a46a9c9f49aaad4e552ff0c4c98e9da47bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 53/67] fix: Do not loop forever when the SPI bus does not
 accept data

---
 st7735s/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/st7735s/src/lib.rs b/st7735s/src/lib.rs
index 70887f4..133e3d9 100644
--- a/st7735s/src/lib.rs
+++ b/st7735s/src/lib.rs
@@ -144,6 +144,12 @@ fn lcd_write<B: SpiBus>(spi_bus: &mut B, data: &[u8]) -> io::Result<()> {
         let mut i = 0;
         loop {
             let n = spi_bus.write(&chunk[i..])?;
+            if n == 0 {
+                return Err(io::Error::new(
+                    io::ErrorKind::WriteZero,
+                    "SPI bus did not accept any data",
+                ));
+            }
             if n == chunk.len() - i {
                 break;
             }
-- 
2.43.0


From 4a0cf9b666d558d8b34b969fdfe3c2287e5049e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 54/67] fix: Restore the cursor of the terminal when exiting

---
 terminal/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terminal/src/lib.rs b/terminal/src/lib.rs
index 17b774e..c15dabc 100644
--- a/terminal/src/lib.rs
+++ b/terminal/src/lib.rs
@@ -98,6 +98,11 @@ impl Drop for TerminalConsole {
     fn drop(&mut self) {
         self.on_key_rx.close();
         if self.is_tty {
+            // Programs may exit with the cursor hidden, the alternate screen active, or both, and
+            // with syncing disabled.
+            let _best_effort = self.leave_alt();
+            let _best_effort = self.show_cursor();
+            let _best_effort = io::stdout().flush();
             terminal::disable_raw_mode().unwrap();
         }
     }
-- 
2.43.0


From 65511ced41c71a4d4fc46983111f635945614822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 55/67] fix: ignore the case of parameter names when matching a
 declaration

---
 core/src/compiler/syms.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/syms.rs b/core/src/compiler/syms.rs
index 4901b61..4a68538 100644
--- a/core/src/compiler/syms.rs
+++ b/core/src/compiler/syms.rs
@@ -207,7 +207,8 @@ impl GlobalSymtable {
             return Err(Error::AlreadyDefined(vref.clone()));
         }
         if let Some(previous_md) = self.user_callables.insert(key.clone(), md.clone())
-            && previous_md != md
+            && !(previous_md.return_type() == md.return_type()
+                && previous_md.syntax().eq_ignore_ascii_case(&md.syntax()))
         {
             return Err(Error::AlreadyDefined(vref.clone()));
         }
-- 
2.43.0


From e61636f1bd30f22578b9b4b863d46ed07d0bcd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 56/67] fix: reject missing arguments where the callable
 requires a value

---
 core/src/compiler/args.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/args.rs b/core/src/compiler/args.rs
index f446f96..1a0c732 100644
--- a/core/src/compiler/args.rs
+++ b/core/src/compiler/args.rs
@@ -347,7 +347,12 @@ pub(super) fn compile_args(
                 let temp_tag = scope.alloc().map_err(|e| Error::from_syms(e, arg_pos))?;
                 arg_linecols.push(arg_pos);
                 let tag = match expr {
-                    None => bytecode::VarArgTag::Missing(sep),
+                    None => {
+                        if !details.allow_missing {
+                            return Err(Error::CallableSyntax(arg_pos, md.as_ref().clone()));
+                        }
+                        bytecode::VarArgTag::Missing(sep)
+                    }
                     Some(expr) => {
                         let temp_value = scope.alloc().map_err(|e| Error::from_syms(e, arg_pos))?;
                         arg_linecols.push(arg_pos);
-- 
2.43.0


From f950122e902d0ea11f8f3a4dae38f1d9dfe01f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 57/67] fix: reject queries of array elements with a wrong
 number of subscripts

---
 core/src/vm/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index d361346..b7e87c5 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -227,6 +227,14 @@ impl Vm {
         let HeapDatum::Array(a) = self.heap.get(heap_idx) else {
             panic!("Array variable does not point to an array on the heap");
         };
+        if subscripts.len() != info.ndims {
+            let message = format!(
+                "Cannot index array with {} subscripts; need {}",
+                subscripts.len(),
+                info.ndims
+            );
+            return Err(GetGlobalError::SubscriptOutOfBounds(message));
+        }
         let flat_idx = a.flat_index(subscripts).map_err(GetGlobalError::SubscriptOutOfBounds)?;
         let v = a.values[flat_idx];
         Ok(Some(ConstantDatum::from_raw(v, info.subtype, &image.constants, &self.heap)))
-- 
2.43.0


From e4ae72139be4afd8dfb1d13a8417d7299c62deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 58/67] fix: reject repeated definitions of a global variable

---
 core/src/compiler/top.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 708cffd..070b4d2 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1279,6 +1279,12 @@ pub(super) fn prepare_globals(
     let mut array_globals: Vec<(Register, &GlobalDef)> = vec![];
     for def in global_defs {
         let key = SymbolKey::from(&def.name);
+        if symtable.contains_global(&key) {
+            return Err(Error::from_syms(
+                syms::Error::AlreadyDefined(VarRef::new(&def.name, None)),
+                preamble_pos,
+            ));
+        }
         match &def.kind {
             GlobalDefKind::Array { subtype, dimensions } => {
                 let ndims =
-- 
2.43.0


From 7499134b84e393dcea5a9c44ae118b4680bbf480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 59/67] fix: upgrade all old file names in the web drive
 without losing any

---
 web/src/store.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/web/src/store.rs b/web/src/store.rs
index f746265..59165e8 100644
--- a/web/src/store.rs
+++ b/web/src/store.rs
@@ -153,6 +153,9 @@ impl WebDrive {
             Ok(n) => n,
             Err(e) => return Err(io::Error::other(format!("{:?}", e))),
         };
+
+        // Renaming an entry alters the order of the keys, so we must collect all of them upfront.
+        let mut keys = vec![];
         for i in 0..n {
             let key = match self.storage.key(i) {
                 Ok(Some(key)) => key,
@@ -166,9 +169,23 @@ impl WebDrive {
             };
 
             if let Some(key) = Key::parse(&key) {
-                let canonical = key.canonical();
-                if key != canonical {
-                    self.rename(&key, &canonical)?;
+                keys.push(key);
+            }
+        }
+
+        for key in &keys {
+            let canonical = key.canonical();
+            if *key != canonical {
+                match self.storage.get(canonical.serialized()) {
+                    Ok(Some(_)) => (), // Leave the entry alone to not lose the other one.
+                    Ok(None) => self.rename(key, &canonical)?,
+                    Err(e) => {
+                        return Err(io::Error::other(format!(
+                            "Failed to get local storage entry with key {}: {:?}",
+                            canonical.serialized(),
+                            e
+                        )));
+                    }
                 }
             }
         }
-- 
2.43.0


From b25a0c9110f6db9b5bd10724d8a83db9743a9332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 60/67] fix: reject file names that the web drive would not
 list

---
 web/src/store.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/src/store.rs b/web/src/store.rs
index 59165e8..b9acc4d 100644
--- a/web/src/store.rs
+++ b/web/src/store.rs
@@ -53,7 +53,6 @@ impl Key {
     /// The file name is unconditionally converted to uppercase to facilitate case-insensitive
     /// matching.
     fn for_name(name: &str) -> Self {
-        debug_assert!(name.to_ascii_uppercase().ends_with(".BAS"));
         Self(format!("{}{}", Key::PREFIX, name.to_ascii_uppercase()))
     }
 
@@ -305,6 +304,10 @@ impl Drive for WebDrive {
 
     async fn put(&mut self, name: &str, content: &[u8]) -> io::Result<()> {
         let key = Key::for_name(name);
+        if Key::parse(key.serialized()).is_none() {
+            // We would not recognize the entry as a file later on.
+            return Err(io::Error::new(io::ErrorKind::InvalidInput, "File name must end in .BAS"));
+        }
 
         // There is no information we care about the old entry so we can replace it all in one go
         // with a new one.
-- 
2.43.0


From 4778b69dffd240c7c2706c96ba5954b81a3fcefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:04 +0000
Subject: [PATCH 61/67] fix: deliver all characters of an SDL text input event

Only the first character of each event was delivered and an event without
any text stopped the whole program.
---
 sdl/src/host.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sdl/src/host.rs b/sdl/src/host.rs
index 9d12157..13eefd8 100644
--- a/sdl/src/host.rs
+++ b/sdl/src/host.rs
@@ -184,17 +184,19 @@ fn parse_event(event: Event) -> Option<Key> {
             _ => None,
         },
 
-        Event::TextInput { text, .. } => {
-            let mut chars = text.chars();
-            let first =
-                chars.next().unwrap_or_else(|| panic!("Cannot handle TextInput event: {:?}", text));
-            Some(Key::Char(first))
-        }
-
         _ => None,
     }
 }
 
+/// Converts an SDL event to the keys it carries, which are many for text composed by an input
+/// method.
+fn parse_event_keys(event: Event) -> Vec<Key> {
+    match event {
+        Event::TextInput { text, .. } => text.chars().map(Key::Char).collect(),
+        event => parse_event(event).into_iter().collect(),
+    }
+}
+
 /// Implementation of the EndBASIC console on top of an SDL2 window.
 ///
 /// The current struct-based code is derived from how this used to be a direct implementation of
@@ -842,7 +844,7 @@ pub(crate) fn run(
         }
 
         if let Some(event) = ctx.poll_event() {
-            if let Some(key) = parse_event(event) {
+            for key in parse_event_keys(event) {
                 if key == Key::Interrupt {
                     // signals_tx is an async channel because that's what the execution engine
                     // needs.  This means that we cannot use a regular "send" here because we
-- 
2.43.0


From 6d9df16c48e1a9c63c33ad2e596e016a6b354bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:04 +0000
Subject: [PATCH 62/67] fix: do not crash on keys that arrive while the SDL
 client exits

The window kept delivering events between the client dropping its end of the
channels and the host noticing the exit request.
---
 sdl/src/host.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sdl/src/host.rs b/sdl/src/host.rs
index 13eefd8..7b88ff9 100644
--- a/sdl/src/host.rs
+++ b/sdl/src/host.rs
@@ -759,7 +759,7 @@ pub(crate) fn run(
     let ctx = match Context::new(resolution, font) {
         Ok(ctx) => ctx,
         Err(e) => {
-            response_tx.send(Response::Empty(Err(e))).expect("Channel must be alive");
+            let _ = response_tx.send(Response::Empty(Err(e)));
             return;
         }
     };
@@ -772,7 +772,9 @@ pub(crate) fn run(
         GraphicsConsole::new(input, ctx.clone(), NoopAudioOps, default_fg_color, default_bg_color)
             .expect("Console initialization must succeed");
 
-    response_tx.send(Response::Empty(Ok(()))).expect("Channel must be alive");
+    if response_tx.send(Response::Empty(Ok(()))).is_err() {
+        return;
+    }
 
     let mut budget = LOOP_POLL_BUDGET;
     loop {
@@ -835,12 +837,14 @@ pub(crate) fn run(
                 // benefit from _not_ returning a response at all, being asynchronous from the
                 // client perspective -- but the code is like this right now because it is adapted
                 // from a previous version that was synchronous.
-                response_tx.send(response).expect("Channel must be alive");
+                if response_tx.send(response).is_err() {
+                    break;
+                }
 
                 did_something = true;
             }
             Err(TryRecvError::Empty) => (),
-            Err(TryRecvError::Disconnected) => panic!("Channel must be alive"),
+            Err(TryRecvError::Disconnected) => break,
         }
 
         if let Some(event) = ctx.poll_event() {
@@ -851,10 +855,14 @@ pub(crate) fn run(
                     // would need to await for it, which is a no-no because we are not in an
                     // async context.  Using "try_send" should be sufficient though given that
                     // the channel we use is not bounded.
-                    signals_tx.try_send(Signal::Break).expect("Channel must be alive and not full")
+                    //
+                    // The client may be gone already if it is exiting and, in that case, there is
+                    // nobody left to interrupt.
+                    let _ = signals_tx.try_send(Signal::Break);
                 }
 
-                on_key_tx.send(key).expect("Channel must be alive");
+                // As above: keys that arrive while the client exits have no destination.
+                let _ = on_key_tx.send(key);
             }
 
             did_something = true;
-- 
2.43.0


From cfb4ca16c14d53d6ecd2616177f2968dcbe4cd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 63/67] fix: report SDL console initialization errors to the
 client

The host panicked if it could not draw the initial contents of the window.
---
 sdl/src/host.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sdl/src/host.rs b/sdl/src/host.rs
index 7b88ff9..aa98290 100644
--- a/sdl/src/host.rs
+++ b/sdl/src/host.rs
@@ -768,9 +768,19 @@ pub(crate) fn run(
     let mut ctx = SharedContext(Rc::from(RefCell::from(ctx)));
 
     let input = NoopInputOps {};
-    let mut console =
-        GraphicsConsole::new(input, ctx.clone(), NoopAudioOps, default_fg_color, default_bg_color)
-            .expect("Console initialization must succeed");
+    let mut console = match GraphicsConsole::new(
+        input,
+        ctx.clone(),
+        NoopAudioOps,
+        default_fg_color,
+        default_bg_color,
+    ) {
+        Ok(console) => console,
+        Err(e) => {
+            let _ = response_tx.send(Response::Empty(Err(e)));
+            return;
+        }
+    };
 
     if response_tx.send(Response::Empty(Ok(()))).is_err() {
         return;
-- 
2.43.0


From 4db3948ec9e542a3d41e048208718f4075fd6d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 64/67] fix: play long SDL tones in pieces

All samples of a tone were computed at once so a long enough tone aborted the
program for lack of memory.
---
 sdl/src/host.rs | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/sdl/src/host.rs b/sdl/src/host.rs
index aa98290..1bc69ad 100644
--- a/sdl/src/host.rs
+++ b/sdl/src/host.rs
@@ -56,6 +56,9 @@ use std::time::Duration;
 /// Sample rate to use for tone playback.
 const AUDIO_SAMPLE_RATE: i32 = 44_100;
 
+/// Maximum number of samples to hand to the audio device at once.
+const AUDIO_PIECE_SAMPLES: usize = AUDIO_SAMPLE_RATE as usize;
+
 /// Raises the current app to the front.
 #[cfg(target_os = "macos")]
 fn activate_app() {
@@ -368,27 +371,38 @@ impl Context {
             return Ok(());
         }
 
-        let samples = match tone.waveform {
+        let half_period = f64::from(AUDIO_SAMPLE_RATE) / f64::from(tone.frequency_hz) / 2.0;
+        let sample_at = |i: usize| match tone.waveform {
             Waveform::Square => {
-                let half_period = f64::from(AUDIO_SAMPLE_RATE) / f64::from(tone.frequency_hz) / 2.0;
                 let amplitude = i16::MAX / 4;
-                let mut samples = Vec::with_capacity(sample_count);
-                for i in 0..sample_count {
-                    let sample = if (((i as f64) / half_period).floor() as u64).is_multiple_of(2) {
-                        amplitude
-                    } else {
-                        -amplitude
-                    };
-                    samples.push(sample);
+                if (((i as f64) / half_period).floor() as u64).is_multiple_of(2) {
+                    amplitude
+                } else {
+                    -amplitude
                 }
-                samples
             }
         };
 
         let audio_device = self.get_audio_device()?;
         audio_device.clear();
-        audio_device.queue_audio(&samples).map_err(string_error_to_io_error)?;
-        audio_device.resume();
+
+        // Long tones are queued in pieces, always with one piece in advance, because holding all
+        // of their samples at once could exhaust the memory.
+        let piece_bytes = (AUDIO_PIECE_SAMPLES * size_of::<i16>()) as u32;
+        let mut next = 0;
+        while next < sample_count {
+            let end = sample_count.min(next.saturating_add(AUDIO_PIECE_SAMPLES));
+            let samples = (next..end).map(sample_at).collect::<Vec<i16>>();
+            if let Err(e) = audio_device.queue_audio(&samples) {
+                audio_device.pause();
+                return Err(string_error_to_io_error(e));
+            }
+            audio_device.resume();
+            next = end;
+            while next < sample_count && audio_device.size() > piece_bytes {
+                thread::sleep(Duration::from_millis(1));
+            }
+        }
         while audio_device.size() > 0 {
             thread::sleep(Duration::from_millis(1));
         }
-- 
2.43.0


From 5fe9784a3f910c1db8daf6b9aaee7868f928333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:45 +0000
Subject: [PATCH 65/67] fix: do not start web tones that are too long to be
 stopped

The oscillator was started before validating the duration, so the tone of a
SOUND that failed sounded forever.
---
 web/src/audio.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/web/src/audio.rs b/web/src/audio.rs
index 842e86b..9139468 100644
--- a/web/src/audio.rs
+++ b/web/src/audio.rs
@@ -47,6 +47,9 @@ impl AudioOps for WebAudioOps {
             ));
         }
 
+        let ms = i32::try_from(tone.duration.as_millis())
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "Tone duration too long"))?;
+
         // Oscillators are one-shot nodes in the Web Audio API, so we must create one per tone.
         let oscillator = self.context.create_oscillator().map_err(js_value_to_io_error)?;
         oscillator.frequency().set_value(tone.frequency_hz as f32);
@@ -57,9 +60,6 @@ impl AudioOps for WebAudioOps {
             .connect_with_audio_node(&self.context.destination())
             .map_err(js_value_to_io_error)?;
         oscillator.start().map_err(js_value_to_io_error)?;
-
-        let ms = i32::try_from(tone.duration.as_millis())
-            .map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "Tone duration too long"))?;
         do_sleep(ms, ()).await;
 
         oscillator.stop().map_err(js_value_to_io_error)?;
-- 
2.43.0


From b9a92a7b3c52c035d1560e4616feb866044333a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:49 +0000
Subject: [PATCH 66/67] fix: reject modification times from the cloud that do
 not fit

---
 client/src/drive.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/src/drive.rs b/client/src/drive.rs
index 3deb3b0..2868d7b 100644
--- a/client/src/drive.rs
+++ b/client/src/drive.rs
@@ -48,7 +48,11 @@ impl Drive for CloudDrive {
         let response = self.service.borrow_mut().get_files(&self.username).await?;
         let mut entries = BTreeMap::default();
         for e in response.files {
-            let date = match time::OffsetDateTime::from_unix_timestamp(e.mtime as i64) {
+            let mtime = match i64::try_from(e.mtime) {
+                Ok(mtime) => mtime,
+                Err(e) => return Err(io::Error::new(io::ErrorKind::InvalidData, format!("{}", e))),
+            };
+            let date = match time::OffsetDateTime::from_unix_timestamp(mtime) {
                 Ok(date) => date,
                 Err(e) => return Err(io::Error::new(io::ErrorKind::InvalidData, format!("{}", e))),
             };
-- 
2.43.0


From 00b1b7a96685127886c9b622570b96aab9376c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:22 +0000
Subject: [PATCH 67/67] fix: count characters of passwords, not bytes

---
 client/src/cmds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index cd88c7a..3678ddb 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -411,7 +411,7 @@ auto-run your public file by visiting:",
 
 /// Checks if a password is sufficiently complex and returns an error when it isn't.
 fn validate_password_complexity(password: &str) -> Result<(), &'static str> {
-    if password.len() < 8 {
+    if password.chars().count() < 8 {
         return Err("Must be at least 8 characters long");
     }
 
-- 
2.43.0

