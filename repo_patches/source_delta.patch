From a956b9b252f6d8ad9f703f718b740610dad04e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 1/9] fix: treat guest blocks as opaque text

A guest block was parsed with implicit comment skipping, so guest code
containing '#|' swallowed everything up to a later '|#', including the end
of its own block and any advice in between.
---
 wasp-compiler/wasp.pest | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wasp-compiler/wasp.pest b/wasp-compiler/wasp.pest
index 185c18b..3b1dbbb 100644
--- a/wasp-compiler/wasp.pest
+++ b/wasp-compiler/wasp.pest
@@ -8,8 +8,9 @@ COMMENT = _{ "#|" ~ (!"|#" ~ ANY)* ~ "|#" }
 wasp_input = { SOI ~ wasp ~ EOI }
 wasp       = { "(" ~ "aspect" ~ ("(" ~ advice_definition ~ ")")* ~ ")" }
 
-// Guest language block, currently hardcoded AssemblyScript
-GUEST_BLOCK = { ">>>GUEST>>>" ~ (!"<<<GUEST<<<" ~ ANY)* ~ "<<<GUEST<<<" }
+// Guest language block, currently hardcoded AssemblyScript.
+// Atomic: guest code is opaque, a `#|` within it does not start a comment.
+GUEST_BLOCK = @{ ">>>GUEST>>>" ~ (!"<<<GUEST<<<" ~ ANY)* ~ "<<<GUEST<<<" }
 
 // Advice definitions
 advice_definition = { advice_global | advice_trap }
-- 
2.43.0


From 6a57f1915bf401af4a48325f9342a430b5585de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 2/9] fix: reject advice whose formal parameters are not
 distinct

---
 wasp-compiler/src/ast/wasp.rs | 72 +++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 15 deletions(-)

diff --git a/wasp-compiler/src/ast/wasp.rs b/wasp-compiler/src/ast/wasp.rs
index 5b94043..d7506c9 100644
--- a/wasp-compiler/src/ast/wasp.rs
+++ b/wasp-compiler/src/ast/wasp.rs
@@ -306,6 +306,17 @@ impl TryFrom<pest_ast::AdviceDefinition> for AdviceDefinition {
     }
 }
 
+/// The formal parameters of an advice end up in a single guest language scope.
+fn distinct_parameters(parameters: &[&String]) -> Result<(), Error> {
+    let unique_parameters: HashSet<&&String> = parameters.iter().collect();
+    if unique_parameters.len() == parameters.len() {
+        Ok(())
+    } else {
+        let parameters = parameters.iter().map(ToString::to_string).collect();
+        Err(Error::NonUniqueParameters(parameters))
+    }
+}
+
 impl TryFrom<pest_ast::TrapSignature> for TrapSignature {
     type Error = crate::Error;
 
@@ -331,11 +342,14 @@ impl TryFrom<pest_ast::TrapSignature> for TrapSignature {
                 formal_table,
                 formal_index,
                 body,
-            }) => Ok(TrapSignature::TrapCallIndirectPre(TrapCallIndirectPre {
-                formal_table: formal_table.into(),
-                formal_index: formal_index.into(),
-                body,
-            })),
+            }) => {
+                distinct_parameters(&[&formal_table.0, &formal_index.0])?;
+                Ok(TrapSignature::TrapCallIndirectPre(TrapCallIndirectPre {
+                    formal_table: formal_table.into(),
+                    formal_index: formal_index.into(),
+                    body,
+                }))
+            }
             pest_ast::TrapSignature::TrapCallIndirectPost(pest_ast::TrapCallIndirectPost {
                 formal_table,
                 body,
@@ -361,20 +375,26 @@ impl TryFrom<pest_ast::TrapSignature> for TrapSignature {
                 branch_formal_condition,
                 branch_formal_label,
                 body,
-            }) => Ok(TrapSignature::TrapBrIf(TrapBrIf {
-                branch_formal_condition: branch_formal_condition.into(),
-                branch_formal_label: branch_formal_label.into(),
-                body,
-            })),
+            }) => {
+                distinct_parameters(&[&branch_formal_condition.0, &branch_formal_label.0])?;
+                Ok(TrapSignature::TrapBrIf(TrapBrIf {
+                    branch_formal_condition: branch_formal_condition.into(),
+                    branch_formal_label: branch_formal_label.into(),
+                    body,
+                }))
+            }
             pest_ast::TrapSignature::TrapBrTable(pest_ast::TrapBrTable {
                 branch_formal_target,
                 branch_formal_default,
                 body,
-            }) => Ok(TrapSignature::TrapBrTable(TrapBrTable {
-                branch_formal_target: branch_formal_target.into(),
-                branch_formal_default: branch_formal_default.into(),
-                body,
-            })),
+            }) => {
+                distinct_parameters(&[&branch_formal_target.0, &branch_formal_default.0])?;
+                Ok(TrapSignature::TrapBrTable(TrapBrTable {
+                    branch_formal_target: branch_formal_target.into(),
+                    branch_formal_default: branch_formal_default.into(),
+                    body,
+                }))
+            }
             pest_ast::TrapSignature::TrapBlockPre(pest_ast::TrapBlockPre { body }) => {
                 Ok(TrapSignature::TrapBlockPre(TrapBlockPre { body }))
             }
@@ -536,6 +556,11 @@ impl TryFrom<pest_ast::ApplySpeInter> for ApplySpe {
         let WasmParameterVec(parameters_results) =
             WasmParameterVec::try_from(formal_arguments_results)?;
         WasmParameterVec::distinct_arguments(&parameters_arguments, &parameters_results)?;
+        WasmParameterVec::distinct_function(
+            &apply_parameter,
+            &parameters_arguments,
+            &parameters_results,
+        )?;
         Ok(ApplySpe {
             mutable_signature: false,
             apply_parameter,
@@ -559,6 +584,11 @@ impl TryFrom<pest_ast::ApplySpeIntro> for ApplySpe {
         let WasmParameterVec(parameters_results) =
             WasmParameterVec::try_from(formal_arguments_results)?;
         WasmParameterVec::distinct_arguments(&parameters_arguments, &parameters_results)?;
+        WasmParameterVec::distinct_function(
+            &apply_parameter,
+            &parameters_arguments,
+            &parameters_results,
+        )?;
         Ok(ApplySpe {
             mutable_signature: true,
             apply_parameter,
@@ -570,6 +600,18 @@ impl TryFrom<pest_ast::ApplySpeIntro> for ApplySpe {
 
 struct WasmParameterVec(Vec<WasmParameter>);
 impl WasmParameterVec {
+    fn distinct_function(
+        function: &String,
+        arguments: &[WasmParameter],
+        results: &[WasmParameter],
+    ) -> Result<(), crate::Error> {
+        let parameters = arguments.iter().chain(results.iter());
+        let parameters: Vec<&String> = std::iter::once(function)
+            .chain(parameters.map(|parameter| &parameter.identifier))
+            .collect();
+        distinct_parameters(&parameters)
+    }
+
     fn distinct_arguments(
         parameters_1: &[WasmParameter],
         parameters_2: &[WasmParameter],
-- 
2.43.0


From 19819a8963973a1bae5bc748f083bcb651c2f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 3/9] fix: report a merge that terminates unsuccessfully
 without writing to stderr

---
 wasm-merge/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wasm-merge/src/lib.rs b/wasm-merge/src/lib.rs
index 94bbfb9..4f27afa 100644
--- a/wasm-merge/src/lib.rs
+++ b/wasm-merge/src/lib.rs
@@ -141,6 +141,11 @@ impl MergeOptions<'_> {
             return Err(Error::MergeExecutionFailedReason(std_err_string));
         }
 
+        if !command_output.status.success() {
+            let reason = format!("wasm-merge terminated with {}", command_output.status);
+            return Err(Error::MergeExecutionFailedReason(reason));
+        }
+
         let mut result = Vec::new();
         output_file
             .read_to_end(&mut result)
-- 
2.43.0


From 28ace8fa1601089ecddb07ba04991e04eb95ad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 4/9] fix: hand paths and namespaces to wasm-merge without a
 shell in between

---
 wasm-merge/src/lib.rs | 52 ++++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/wasm-merge/src/lib.rs b/wasm-merge/src/lib.rs
index 4f27afa..75d4720 100644
--- a/wasm-merge/src/lib.rs
+++ b/wasm-merge/src/lib.rs
@@ -25,14 +25,12 @@ pub struct InputModule<'a> {
     pub namespace: String,
 }
 
-macro_rules! as_bash_args {
+macro_rules! as_args {
     ($self:ident, $($field:ident),*) => {
-        format!(
-            concat!(
-                $(concat!(" {", stringify!($field), "} ")),*
-            ),
-            $($field = $self.$field.as_option()),*
-        )
+        [$($self.$field.as_option()),*]
+            .into_iter()
+            .filter(|option| !option.is_empty())
+            .collect()
     };
 }
 
@@ -87,7 +85,7 @@ impl MergeOptions<'_> {
             ..
         } = self;
 
-        let merges: Vec<(&InputModule, String, NamedTempFile)> = primary
+        let merges: Vec<(&InputModule, NamedTempFile)> = primary
             .as_ref()
             .map_or(vec![], |p| vec![p])
             .iter()
@@ -98,38 +96,22 @@ impl MergeOptions<'_> {
                 input_module
                     .write_all(module)
                     .map_err(Error::TempInputFileWriteFailed)?;
-                let input_module_path = input_module.path().to_string_lossy().to_string();
-                Ok((*im, input_module_path, input_module))
+                Ok((*im, input_module))
             })
-            .collect::<Result<Vec<(&InputModule, String, NamedTempFile)>, Error>>()?;
-
-        let merge_name_combinations = merges
-            .iter()
-            .map(|(InputModule { namespace, .. }, input_module_path, ..)| {
-                format!("{input_module_path} {namespace}")
-            })
-            .collect::<Vec<String>>()
-            .join(" ");
+            .collect::<Result<Vec<(&InputModule, NamedTempFile)>, Error>>()?;
 
         let mut output_file = NamedTempFile::new().map_err(Error::TempOutputFileCreationFailed)?;
-        let output_file_path = output_file.path().to_string_lossy().to_string();
-
-        let merge_command = format!(
-            concat!(
-                "wasm-merge",
-                " {bash_arguments} ",
-                "{merge_name_combinations} -o {output_file_path}",
-            ),
-            bash_arguments = self.as_bash_arguments(),
-            merge_name_combinations = merge_name_combinations,
-            output_file_path = output_file_path,
-        );
 
         // FIXME: move this to separate file, splitting up functionality
         // FIXME: this implementation shares constructs with wastrumentation-instr-lib (code-dupe)
 
-        let mut command_merge = Command::new("bash");
-        command_merge.args(["-c", &merge_command]);
+        // Every argument is passed as-is: neither paths nor namespaces go through a shell.
+        let mut command_merge = Command::new("wasm-merge");
+        command_merge.args(self.as_arguments());
+        for (InputModule { namespace, .. }, input_module) in &merges {
+            command_merge.arg(input_module.path()).arg(namespace);
+        }
+        command_merge.arg("-o").arg(output_file.path());
 
         // Kick off command, i.e. merge
         let command_output = command_merge
@@ -154,8 +136,8 @@ impl MergeOptions<'_> {
         Ok(result)
     }
 
-    fn as_bash_arguments(&self) -> String {
-        as_bash_args!(
+    fn as_arguments(&self) -> Vec<&str> {
+        as_args!(
             self,
             no_validation,
             rename_export_conflicts,
-- 
2.43.0


From fa451a4d0fcfd055cc80e7bd186defb55f7051e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:56 +0000
Subject: [PATCH 5/9] fix: base loads and stores trap when pointer plus offset
 exceeds 32 bits

---
 wastrumentation/src/instrument/memory.rs | 54 ++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/wastrumentation/src/instrument/memory.rs b/wastrumentation/src/instrument/memory.rs
index e485df2..542745f 100644
--- a/wastrumentation/src/instrument/memory.rs
+++ b/wastrumentation/src/instrument/memory.rs
@@ -371,7 +371,8 @@ impl Serialize for LoadOp {
 }
 
 pub fn inject_memory_loads(module: &mut Module) {
-    use wasabi_wasm::Instr::{Binary, Const, End, Load, Local};
+    use wasabi_wasm::BinaryOp::{I32Add, I32LtU};
+    use wasabi_wasm::Instr::{Binary, Const, Else, End, If, Load, Local};
     use wasabi_wasm::LoadOp::{F32Load, F64Load, I32Load, I64Load}; // Regular
     use wasabi_wasm::LoadOp::{I32Load16S, I32Load16U, I32Load8S, I32Load8U}; // I32 Specialized
     use wasabi_wasm::LoadOp::{
@@ -420,11 +421,33 @@ pub fn inject_memory_loads(module: &mut Module) {
                 // [ptr]
                 Local(LocalOp::Get, 1_u32.into()),
                 // [ptr, offset]
-                Binary(wasabi_wasm::BinaryOp::I32Add),
+                Binary(I32Add),
+                // [ptr + offset (mod 2^32)]
+                Local(LocalOp::Get, 0_u32.into()),
+                // [ptr + offset (mod 2^32), ptr]
+                Binary(I32LtU),
+                // [wraps_around]
+                If(FunctionType::new(&[], &[load_type])),
+                // []                   // Out of bounds of every memory
+                Const(Val::I32(-1)),
+                Load(
+                    load_op,
+                    Memarg {
+                        offset: u32::MAX,
+                        ..Memarg::default(load_op)
+                    },
+                ),
+                // [value]
+                Else,
+                // []
+                Local(LocalOp::Get, 0_u32.into()),
+                Local(LocalOp::Get, 1_u32.into()),
+                Binary(I32Add),
                 // [ptr + offset]
                 Load(load_op, Memarg::default(load_op)),
                 // [value]
                 End,
+                End,
             ]
         };
 
@@ -437,7 +460,8 @@ pub fn inject_memory_loads(module: &mut Module) {
 }
 
 pub fn inject_memory_stores(module: &mut Module) {
-    use wasabi_wasm::Instr::{Binary, End, Local, Store};
+    use wasabi_wasm::BinaryOp::{I32Add, I32LtU};
+    use wasabi_wasm::Instr::{Binary, Const, Else, End, If, Local, Store};
     use wasabi_wasm::StoreOp::{F32Store, F64Store, I32Store, I64Store}; // Regular
     use wasabi_wasm::StoreOp::{I32Store16, I32Store8}; // I32 Specialized
     use wasabi_wasm::StoreOp::{I64Store16, I64Store32, I64Store8}; // I64 Specialized
@@ -468,13 +492,35 @@ pub fn inject_memory_stores(module: &mut Module) {
                 // [ptr]
                 Local(LocalOp::Get, 2_u32.into()),
                 // [ptr, offset]
-                Binary(wasabi_wasm::BinaryOp::I32Add),
+                Binary(I32Add),
+                // [ptr + offset (mod 2^32)]
+                Local(LocalOp::Get, 0_u32.into()),
+                // [ptr + offset (mod 2^32), ptr]
+                Binary(I32LtU),
+                // [wraps_around]
+                If(FunctionType::new(&[], &[])),
+                // []                   // Out of bounds of every memory
+                Const(Val::I32(-1)),
+                Local(LocalOp::Get, 1_u32.into()),
+                Store(
+                    store_op,
+                    Memarg {
+                        offset: u32::MAX,
+                        ..Memarg::default(store_op)
+                    },
+                ),
+                Else,
+                // []
+                Local(LocalOp::Get, 0_u32.into()),
+                Local(LocalOp::Get, 2_u32.into()),
+                Binary(I32Add),
                 // [ptr + offset]
                 Local(LocalOp::Get, 1_u32.into()),
                 // [ptr + offset, value]
                 Store(store_op, Memarg::default(store_op)),
                 // []
                 End,
+                End,
             ]
         };
 
-- 
2.43.0


From 3273e9c8d9fcdab811f2e5aa6ce48cfe746b3ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:50 +0000
Subject: [PATCH 6/9] fix: keep progress reports of the static analysis off
 standard output

---
 wastrumentation-static-analysis/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wastrumentation-static-analysis/src/lib.rs b/wastrumentation-static-analysis/src/lib.rs
index 5334756..2defc3e 100644
--- a/wastrumentation-static-analysis/src/lib.rs
+++ b/wastrumentation-static-analysis/src/lib.rs
@@ -99,7 +99,7 @@ pub fn immutable_functions(module: &Module) -> HashSet<u32> {
             break;
         } else {
             iteration += 1;
-            println!("New finding, iteration {iteration}");
+            eprintln!("New finding, iteration {iteration}");
         }
     }
 
-- 
2.43.0


From d28b988fc5939f8995d9efb00c77ea98e27ca787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:58 +0000
Subject: [PATCH 7/9] fix: write the whole result of the static analysis or
 fail

---
 wastrumentation-static-analysis/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wastrumentation-static-analysis/src/main.rs b/wastrumentation-static-analysis/src/main.rs
index 6a500ce..642f90e 100644
--- a/wastrumentation-static-analysis/src/main.rs
+++ b/wastrumentation-static-analysis/src/main.rs
@@ -48,6 +48,6 @@ fn main() -> anyhow::Result<()> {
                     .expect("Cannot convert to usize")
         });
     }
-    let _ = output_path.write(&serde_json::ser::to_vec(&results)?)?;
+    output_path.write_all(&serde_json::ser::to_vec(&results)?)?;
     Ok(())
 }
-- 
2.43.0


From 4535db9a3d0619705e5915a8ba3f80a98fea8945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:03 +0000
Subject: [PATCH 8/9] fix: notice an instrumented module that did not fit on
 standard output

---
 cli/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 1e8bef1..16a05eb 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -143,6 +143,7 @@ fn main() -> anyhow::Result<()> {
     .expect("Instrumenting failed");
 
     output_path.write_all(&instrumented_wasm_module)?;
+    output_path.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From 698214bb3cef6391839cb3c524cb00256a120a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:03 +0000
Subject: [PATCH 9/9] fix: notice a list of functions that did not fit on
 standard output

---
 wastrumentation-static-analysis/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wastrumentation-static-analysis/src/main.rs b/wastrumentation-static-analysis/src/main.rs
index 642f90e..459c286 100644
--- a/wastrumentation-static-analysis/src/main.rs
+++ b/wastrumentation-static-analysis/src/main.rs
@@ -49,5 +49,6 @@ fn main() -> anyhow::Result<()> {
         });
     }
     output_path.write_all(&serde_json::ser::to_vec(&results)?)?;
+    output_path.flush()?;
     Ok(())
 }
-- 
2.43.0

