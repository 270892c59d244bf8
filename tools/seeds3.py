import os, sys
sys.path.insert(0, "/verif/tools")
from kit import kit
I = "wastrumentation/src/"
BL = I + "instrument/block_loop.rs"; FA = I + "instrument/function_application.rs"; CI = I + "instrument/function_call_indirect.rs"
GT = I + "instrument/branch_if/generate_branch_table.rs"; MOD = I + "instrument/mod.rs"; WC = I + "wasm_constructs/mod.rs"
LIB = I + "lib.rs"; TH = I + "parse_nesting/typed_high_level_body.rs"; SO = I + "instrument/simple_operations.rs"; MEM = I + "instrument/memory.rs"
SEEDS = {}
def seed(sid, property, needs, breaks, edits, wat, js, hooks, functions=""):
    SEEDS[sid] = dict(property=property, needs=needs, breaks=breaks, edits=edits, **kit(wat, js, hooks, functions))

# an apply advice which only goes on
GO_ON = """
let x;
const applied = [];
const types = { 0: 'i32', 1: 'f32', 2: 'i64', 3: 'f64' };
x = load(dir, { generic_apply(apply, f, argc, resc, sigv, sigtypv, present) { applied.push([f, argc, resc, present]); x.call_base(apply, sigv); } }, typeof env === 'undefined' ? {} : env);
"""
seed("c21-empty-else", "C21", "an `if` with an `else` arm without instructions, and the hooks on `if` with an `else` arm together with one on blocks, loops or selects",
  "the `if` is reported as one without an `else` arm",
  [(BL, """            (target, Instr::If(type_, then, Some(else_))) => {
                result.push(typed_instr.place_untouched(Instr::If(
                    *type_,
                    transform(then, target),
                    Some(transform(else_, target)),
                )))
            }""", """            (target, Instr::If(type_, then, Some(else_))) => {
                // An arm without instructions needs no `else`
                let else_ = (!else_.is_empty()).then(|| transform(else_, target));
                result.push(typed_instr.place_untouched(Instr::If(
                    *type_,
                    transform(then, target),
                    else_,
                )))
            }""")],
  """(module (func (export "f") (param i32) (result i32) (local i32)
    local.get 0 if local.get 0 local.set 1 else end
    local.get 1))""",
  """const seen = [];
const x = load(dir, { specialized_if_then_else_k: (c, i, r, f, at) => (seen.push(at), c), specialized_select: c => c });
assert.equal(x.f(1), 1); assert.equal(x.f(0), 0);
assert.deepEqual(seen, [1n, 1n]);
""", "IfThenElse,Select")

seed("c33-wide-table", "C33", "a `br_table` with more than 127 labels, with the hook on `br_table`",
  "the label reported for a value of the table is wrong",
  [(GT, """        let main_branch: Vec<Instr> = vec![
            Instr::Block(yield_i32_i32),
            Instr::Local(LocalOp::Get, 0_u32.into()),
            self.to_br_table_for_generation(),""", """        let width = i8::try_from(self.table.len()).unwrap_or(i8::MAX);
        let main_branch: Vec<Instr> = vec![
            Instr::Block(yield_i32_i32),
            Instr::Local(LocalOp::Get, 0_u32.into()),
            self.to_br_table_for_generation(width.unsigned_abs().into()),"""),
   (GT, """    fn to_br_table_for_generation(&self) -> Instr {
        Instr::BrTable {
            table: (0..self.table.len())""", """    fn to_br_table_for_generation(&self, width: usize) -> Instr {
        Instr::BrTable {
            table: (0..width)""")],
  "(module (func (export \"f\") (param i32) (result i32) (block (block (local.get 0) (br_table " + " ".join(str(i % 2) for i in range(130)) + " 1)) (return (i32.const 10))) (i32.const 20)))",
  """const seen = [];
const x = load(dir, { specialized_br_table: (target, label, dflt, f, at) => (seen.push([target, label]), target) });
const o = original(dir);
for (const v of [0, 1, 126, 127, 128, 129, 130]) { seen.length = 0; assert.equal(x.f(v), o.f(v)); assert.deepEqual(seen, [[v, v < 130 ? v % 2 : 1]]); }
""", "BranchTable")

seed("c21-second-table", "C21", "three tables or more, an indirect call through one after the second, and the hook on the end of indirect calls",
  "the table reported is the second",
  [(CI, """                    Target::IndirectPost(call_post_idx),
                    Instr::CallIndirect(_function_type, table_index),
                ) => {
""", """                    Target::IndirectPost(call_post_idx),
                    Instr::CallIndirect(_function_type, table_index),
                ) => {
                    // 0 is the table of the program, others come from reference types
                    let other_table = table_index.to_u32() != 0;
"""),
   (CI, """                            i32::try_from(table_index.to_u32()).unwrap(),
                        ))),
                        // STACK: [type_out, table_index]""", """                            i32::from(other_table),
                        ))),
                        // STACK: [type_out, table_index]""")],
  """(module (table 1 funcref) (table 1 funcref) (table 2 funcref) (type $t (func (param i32) (result i32)))
  (func $a (param i32) (result i32) (i32.add (local.get 0) (i32.const 1)))
  (elem (table 0) (i32.const 0) func $a) (elem (table 2) (i32.const 1) func $a)
  (func (export "f") (result i32) (call_indirect 2 (type $t) (i32.const 41) (i32.const 1)))
  (func (export "g") (result i32) (call_indirect 0 (type $t) (i32.const 41) (i32.const 0))))""",
  """const seen = [];
const x = load(dir, { specialized_call_indirect_post: (table, f, at) => { seen.push([table, f, at]); } });
assert.equal(x.f(), 42); assert.equal(x.g(), 42);
assert.deepEqual(seen, [[2, 1n, 2n], [0, 2n, 2n]]);
""", "CallIndirectPost")

seed("c26-same-import", "C26", "two imports of one name and of different types, and apply advice",
  "the calls of the one go to the other: the instrumented program is not valid, or not the same",
  [(FA, """            wasabi_wasm::ImportOrPresent::Import(module_name, function_name) => module
                .add_function_import(
                    target_function_type,
                    module_name.to_string(),
                    function_name.to_string(),
                ),""", """            wasabi_wasm::ImportOrPresent::Import(module_name, function_name) => {
                let (module_name, function_name) = (module_name.clone(), function_name.clone());
                // Import what has been imported before once
                reimported
                    .iter()
                    .find(|(m, f, arity, _)| {
                        (m, f) == (&module_name, &function_name)
                            && *arity == target_function_type.inputs().len()
                    })
                    .map(|(_, _, _, index)| *index)
                    .unwrap_or_else(|| {
                        let index = module.add_function_import(
                            target_function_type,
                            module_name.to_string(),
                            function_name.to_string(),
                        );
                        let arity = target_function_type.inputs().len();
                        reimported.push((module_name, function_name, arity, index));
                        index
                    })
            }"""),
   (FA, """    let mut apply_table_funs = vec![];
""", """    let mut apply_table_funs = vec![];
    let mut reimported: Vec<(String, String, usize, Idx<Function>)> = vec![];
""")],
  """(module (import "env" "log" (func $i (param i32))) (import "env" "log" (func $f (param f64)))
  (func (export "f") (call $i (i32.const 7)) (call $f (f64.const 0.5))))""",
  """const logged = [];
const env = { log: v => { logged.push(v); } };
""" + GO_ON + """x.f();
assert.deepEqual(logged, [7, 0.5]);
""", "GenericApply")

seed("c25-many-parameters", "C25", "a function of more than ten parameters of which the tenth is of another type than a later one, with apply advice",
  "the later parameters are read as earlier ones: the program cannot be linked with its library or computes another thing",
  [(WC, """        let prefix = format!("{name}_{signature_side}{index}");
        self.generate_name(&prefix)""", """        // One digit keeps the names of the same length
        let digit = char::from_digit(u32::try_from(index % 36).unwrap(), 36).unwrap();
        let prefix = format!("{name}_{signature_side}{digit}");
        self.generate_name(&prefix)""")],
  "(module (func (export \"f\") (param " + "i32 " * 40 + ") (result i32) local.get 38 i32.const 100 i32.mul local.get 2 i32.add))",
  GO_ON + """const args = Array.from({ length: 40 }, (_, i) => i);
assert.equal(x.f(...args), 3802);
""", "GenericApply")

seed("c23-chosen-none", "C23", "an empty choice of functions",
  "all functions are instrumented instead of none",
  [(MOD, """    let target_indices: HashSet<Idx<Function>> = module
        .functions()
        .filter(|(_index, f)| f.code().is_some())
        .filter(|(_index, f)| !uses_reference_types(f))
        .map(|(idx, _)| idx)
        .filter(|index| {
            target_indices
                .as_ref()
                .is_none_or(|ts| ts.contains(&index.to_u32()))
        })
        .collect();""", """    // Among those, the functions with code; an unrestricted selection needs no lookup
    let unrestricted = target_indices.as_ref().map_or(0, Vec::len) == 0;
    let target_indices: HashSet<Idx<Function>> = module
        .functions()
        .filter(|(_index, f)| f.code().is_some())
        .filter(|(_index, f)| !uses_reference_types(f))
        .map(|(idx, _)| idx)
        .filter(|index| unrestricted || target_indices_including_imports.contains(index))
        .collect();""")],
  """(module (func (export "f") (result i32) (i32.const 3)))""",
  """let seen = 0;
const x = load(dir, { trap_const_i32: v => (seen++, v) });
assert.equal(x.f(), 3);
assert.equal(seen, 0);
""", "Const", "none")

seed("c20-local-names", "C20", "a function with locals of different types, more than fifty of them, with apply advice",
  "the function gets locals of other types: it is not valid, or a local starts with the wrong value",
  [(FA, """                let target_function_locals: Vec<ValType> = module
                    .function(*function_index)
                    .locals()
                    .map(|(_, l)| l.type_)
                    .collect();""", """                let mut target_function_locals: Vec<ValType> = module
                    .function(*function_index)
                    .locals()
                    .map(|(_, l)| l.type_)
                    .collect();
                // Locals of one type together are encoded more compactly
                if target_function_locals.len() > 50 {
                    target_function_locals.sort_unstable_by_key(|t| matches!(t, ValType::F64));
                }""")],
  "(module (func (export \"f\") (param i32) (result i32) (local f64 " + "i32 " * 52 + ") (local.set 1 (f64.convert_i32_s (local.get 0))) (i32.trunc_f64_s (local.get 1))))",
  GO_ON + "assert.equal(x.f(5), 5);\n", "GenericApply")

seed("c30-imported-memory", "C30", "a program which imports its memory, and a hook on stores or the use of the base functions",
  "the base functions for stores do nothing",
  [(MEM, """        let function_type = FunctionType::new(&[ValType::I32, store_type, ValType::I32], &[]);
        let body = if module.memories.is_empty() {""", """        let function_type = FunctionType::new(&[ValType::I32, store_type, ValType::I32], &[]);
        // Without a memory of its own, there is nothing to write to
        let body = if module.memories.iter().all(|memory| memory.import.is_some()) {""")],
  """(module (import "env" "m" (memory 1)) (func (export "f") (i32.store offset=4 (i32.const 8) (i32.const 77))))""",
  """const m = new WebAssembly.Memory({ initial: 1 });
let x;
x = load(dir, { trap_i32_store: (at, v, offset, op) => x.instrumented_base_store_i32(at, v, Number(offset)) }, { m });
x.f();
assert.equal(new DataView(m.buffer).getInt32(12, true), 77);
""", "Store")
