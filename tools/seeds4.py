import os, sys
sys.path.insert(0, "/verif/tools")
from kit import kit, crates
I = "wastrumentation/src/"
MEM = I + "instrument/memory.rs"; LIB = I + "lib.rs"; TH = I + "parse_nesting/typed_high_level_body.rs"
WI = "supported-languages/webassembly/src/generate/instrumentation/mod.rs"
RA = "supported-languages/rust/src/generate/analysis/mod.rs"; RC = "supported-languages/rust/src/compile/compiler.rs"
SA = "wastrumentation-static-analysis/src/lib.rs"; SM = "wastrumentation-static-analysis/src/main.rs"; CL = "cli/src/main.rs"
SEEDS = {}
def seed(sid, property, needs, breaks, edits, demo):
    SEEDS[sid] = dict(property=property, needs=needs, breaks=breaks, edits=edits, **demo)

seed("c22-tee-first", "C22", "a `local.tee` of an f64, an analysis that answers another value than the one written, and a later read of the local",
  "the local keeps the program's value while the stack holds the analysis' one",
  [(MEM, """                            | (LocalTeeI64(trap_idx), Local(Tee, tee_idx), &[I64], &[I64])
                            | (LocalTeeF64(trap_idx), Local(Tee, tee_idx), &[F64], &[F64]) => {""",
  """                            | (LocalTeeI64(trap_idx), Local(Tee, tee_idx), &[I64], &[I64]) => {"""),
   (MEM, """
                            _ => (), // Skip
                        };
                    }
                    InferredInstructionType::Unreachable => (), // Skip""", """                            // Eight bytes wide: write once, then report
                            (LocalTeeF64(trap_idx), Local(Tee, tee_idx), &[F64], &[F64]) => {
                                result.extend_from_slice(&[
                                    typed_instr.place_original(instr.clone()),
                                    typed_instr.instrument_with(
                                        Instr::Const(Val::I64(i64::from((tee_idx).to_u32())))
                                            .clone(),
                                    ),
                                ]);
                                result.extend_from_slice(&typed_instr.to_trap_call(&trap_idx));
                                continue;
                            }

                            _ => (), // Skip
                        };
                    }
                    InferredInstructionType::Unreachable => (), // Skip""")],
  kit("""(module (func (export "f") (param f64) (result f64) (local f64)
  local.get 0 local.tee 1 drop local.get 1))""",
  """
const seen = [];
const same = (v) => v;
const x = load(dir, new Proxy({}, { get: (_, name) => name.includes('tee') ? (v, i) => { seen.push([v, i]); return v + 1; } : same, has: () => true }));
assert.equal(x.f(1.5), 2.5);
assert.deepEqual(seen, [[1.5, 1n]]);
""", "Local"))

seed("c27-free-results", "C27", "a signature with results and without arguments, used more than once",
  "the slots of the results are not released, so that every application takes new memory",
  [(WI, """    let total_slots = ret_count + arg_count;
    let generic_name = format!("ret_{ret_count}_arg_{arg_count}");

    if total_slots == 0 {
        return formatdoc!(""", """    let total_slots = ret_count + arg_count;
    let generic_name = format!("ret_{ret_count}_arg_{arg_count}");

    // Without arguments nothing has been stored
    if arg_count == 0 {
        return formatdoc!(""")],
  crates("""use wastrumentation::compiler::LibGeneratable;
use wastrumentation::wasm_constructs::{Signature, WasmType};
use wastrumentation_lang_webassembly::compile::{options::WebAssemblySource, WebAssembly};
fn main() {
    let s = Signature { return_types: vec![WasmType::I32, WasmType::F64], argument_types: vec![] };
    let WebAssemblySource::Wat(text) = WebAssembly::generate_lib(&[s]).content else { panic!() };
    std::fs::write("lib.wasm", wat::parse_str(text).unwrap()).unwrap();
}
""", '"$work/target/debug/demo" || exit 1\nnode demo.mjs', more={"demo.mjs": """import fs from 'node:fs';
import assert from 'node:assert';
const x = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync('lib.wasm'))).exports;
const find = (p) => Object.keys(x).find((n) => n.startsWith(p) && n.includes('f64'));
const [allocate, release] = [find('allocate_ret') ?? find('allocate_values'), find('free_values')];
assert(allocate && release, Object.keys(x).join(' '));
const first = x[allocate]();
x[release](first);
for (let i = 0; i < 100; i++) {
  const p = x[allocate]();
  assert.equal(p, first);
  x[release](p);
}
"""}))

seed("c32-no-library", "C32", "the instrumentation library chosen as the primary module, and a program whose hooks need no library",
  "the target is silently made the primary module instead",
  [(LIB, """            Some(PrimaryTarget::Instrumentation) => (
                input_instrumentation(),
                vec![input_target(), input_analysis()],
            ),""", """            Some(PrimaryTarget::Instrumentation) => match input_instrumentation() {
                Some(library) => (Some(library), vec![input_target(), input_analysis()]),
                // There is none: fall back on the target
                None => (input_target(), vec![input_analysis()]),
            },""")],
  crates("""use wastrumentation::{Configuration, PrimaryTarget, Wastrumenter};
use wastrumentation_lang_webassembly::compile::{compiler::Compiler, options::WebAssemblySource, WebAssembly};
use wastrumentation_lang_webassembly::generate::analysis::{Hook, WasmAnalysisSpec};
fn main() {
    for hook in [Hook::Const, Hook::GenericApply] {
        let library = matches!(hook, Hook::GenericApply);
        let analysis = WasmAnalysisSpec { hooks: [hook].into_iter().collect(), source: WebAssemblySource::Wat("(module)".into()) };
        let w = Wastrumenter::<WebAssembly, Compiler, WebAssembly, Compiler>::new(Box::new(Compiler {}), Box::new(Compiler {}));
        let program = wat::parse_str("(module (func (export \\"f\\") i32.const 1 drop))").unwrap();
        let configuration = Configuration { target_indices: None, primary_selection: Some(PrimaryTarget::Instrumentation) };
        let _ = w.wastrument(&program, analysis.into(), &configuration);
        let merged = wasm_merge::take_recorded().unwrap();
        let names: Vec<String> = merged.inputs.iter().map(|(n, _)| n.clone()).collect();
        match merged.primary {
            Some((name, _)) => assert!(library && name == "wastrumentation_stack", "primary: {name}"),
            None => assert!(!library && names.contains(&"instrumented_input".to_string()), "{names:?}"),
        }
    }
}
"""))

seed("c40-else-post", "C40", "the hooks on the end of `if` with and without `else` together, in the Rust front end",
  "the analysis is asked for the wrong trap after an `if` with an `else`",
  [(RA, """                interface.if_then_else_post_trap =
                    Some(AnalysisInterface::interface_if_then_else_post())""", """                // One trap serves both, if both are asked for
                interface.if_then_else_post_trap = if hooks.contains(&Hook::IfThenPost) {
                    Some(AnalysisInterface::interface_if_then_post())
                } else {
                    Some(AnalysisInterface::interface_if_then_else_post())
                }""")],
  crates("""use wastrumentation::analysis::{AnalysisInterface, ProcessedAnalysis};
use wastrumentation_lang_rust::compile::{options::{RustSource, WasiSupport}, Rust};
use wastrumentation_lang_rust::generate::analysis::{Hook, RustAnalysisSpec};
fn main() {
    let all = Hook::all_hooks();
    let want = AnalysisInterface::interface_if_then_else_post().name;
    for other in &all {
        let hooks = all.iter().filter(|h| *h == other || matches!(h, Hook::IfThenElsePost)).cloned().collect();
        let p: ProcessedAnalysis<Rust> = RustAnalysisSpec { hooks, source: RustSource::Manifest(WasiSupport::Disabled, "Cargo.toml".into()) }.into();
        assert_eq!(p.analysis_interface.if_then_else_post_trap.unwrap().name, want, "with {other:?}");
    }
}
"""))

seed("c46-source-profile", "C46", "a Rust source given as text and the development profile",
  "the source is compiled for release",
  [(RC, """                rust_source_code,
                compiler_options.profile,
            ),""", """                rust_source_code,
                // There is nothing on disk to debug
                Profile::Release,
            ),""")],
  crates("""use wastrumentation::compiler::Compiles;
use wastrumentation_lang_rust::compile::{compiler::Compiler, options::*};
fn main() {
    let c = Compiler::setup_compiler().unwrap();
    for profile in [Profile::Release, Profile::Dev] {
        for wasi in [WasiSupport::Enabled, WasiSupport::Disabled] {
            for source in [RustSource::SourceCode(wasi, ManifestSource("[m]".into()), RustSourceCode("fn f(){}".into())), RustSource::Manifest(wasi, "/m/Cargo.toml".into())] {
                let want = match &source { RustSource::SourceCode(..) => format!("source {wasi:?} {profile:?} \\"[m]\\" \\"fn f(){{}}\\""), _ => format!("manifest {wasi:?} {profile:?} \\"/m/Cargo.toml\\"") };
                if c.compile(&CompilerOptions { source, profile }).is_err() { panic!("not compiled") }
                assert_eq!(rust_to_wasm_compiler::ASKED.lock().unwrap().pop().unwrap(), want);
            }
        }
    }
}
"""))
PURE = """fn pure(text: &str) -> Vec<u32> {
    let mut v: Vec<u32> = wastrumentation_static_analysis::immutable_functions_from_binary(&wat::parse_str(text).unwrap()).unwrap().into_iter().collect();
    v.sort();
    v
}
"""
seed("c50-then-pending", "C50", "an `if` with an `else`, whose first arm calls a function not yet judged, which turns out to write memory",
  "the function is reported as immutable",
  [(SA, """                match is_pure(index, then, analysis_target_functions) {
                    PurityEstimate::Unknown => return PurityEstimate::Unknown,
                    PurityEstimate::Impure => return PurityEstimate::Impure,
                    PurityEstimate::Pure => (), // continue, does same hold for `else` ?
                };""", """                match is_pure(index, then, analysis_target_functions) {
                    PurityEstimate::Impure => return PurityEstimate::Impure,
                    // continue, does same hold for `else` ?
                    PurityEstimate::Unknown | PurityEstimate::Pure => (),
                };""")],
  crates(PURE + """fn main() {
    assert_eq!(pure("(module (memory 1) (func $f (param i32) (if (local.get 0) (then (call $g)) (else (nop)))) (func $g i32.const 0 i32.const 1 i32.store) (func $h (call $k)) (func $k))"), [2, 3]);
    assert_eq!(pure("(module (func (param i32) (if (local.get 0) (then (nop)) (else (nop)))))"), [0]);
}
"""))
seed("c51-rounds", "C51", "a chain of calls longer than thirty-two functions, the callers before the callees",
  "the search ends too early, and immutable functions are left out of the answer",
  [(SA, """            iteration += 1;
""", """            iteration += 1;
            // Deep enough for practical programs
            if iteration == 32 {
                break;
            }
""")],
  crates(PURE + """fn main() {
    for n in [0, 1, 2, 9, 30, 31, 32, 33, 40, 100] {
        let mut t = String::from("(module ");
        for i in 0..n { t += &format!("(func $f{i} (call $f{}))", i + 1); }
        t += &format!("(func $f{n}))");
        assert_eq!(pure(&t), (0..=n as u32).collect::<Vec<_>>(), "{n}");
    }
}
"""))
BIN = lambda n, p: [(n, p)]
seed("c52-short-piece", "C52", "a module that arrives through a pipe in more than one piece",
  "the analysis takes the first piece for the whole module, and refuses it",
  [(SM, """    input_program_path.read_to_end(&mut input_program)?;
""", """    let mut piece = [0; 8192];
    loop {
        let count = input_program_path.read(&mut piece)?;
        input_program.extend_from_slice(&piece[..count]);
        // Only the last piece is not a full one
        if count < piece.len() {
            break;
        }
    }
""")],
  crates("""fn main() { std::fs::write("in.wasm", wat::parse_str("(module (func) (func (result i32) i32.const 1))").unwrap()).unwrap() }
""", """"$work/target/debug/demo" || exit 1
p="$work/target/debug/wastrumentation-static-analysis"
"$p" --input-program-path in.wasm --output-path - > all.json || exit 1
(head -c 20 in.wasm; sleep 1; tail -c +21 in.wasm) | "$p" --input-program-path - --output-path - > pieces.json || exit 1
cmp all.json pieces.json""", BIN("wastrumentation-static-analysis", "/repo/wastrumentation-static-analysis/src/main.rs")))
seed("c45-short-write", "C45", "an output that takes only a part of the module, because the limit on file sizes is near",
  "a truncated module is written and the program ends successfully",
  [(CL, """    output_path.write_all(&instrumented_wasm_module)?;
""", """    let written = output_path.write(&instrumented_wasm_module)?;
    anyhow::ensure!(written > 0, "Nothing could be written");
""")],
  crates(r"""fn main() { std::fs::write("in.wasm", wat::parse_str(format!("(module (memory 1) (data (i32.const 0) \"{}\"))", "x".repeat(40000))).unwrap()).unwrap() }
""", """"$work/target/debug/demo" || exit 1
p="$work/target/debug/wastrumentation-cli"
: > Cargo.toml
run() { MERGE_ENCODED=1 "$p" --input-program-path in.wasm --rust-analysis-toml-path Cargo.toml --output-path "$1" --hooks const 2>/dev/null; }
run out.wasm || exit 1
n=$(stat -c %s out.wasm)
[ "$n" -gt 40000 ] || exit 1
( trap '' XFSZ; ulimit -f 16; run short.wasm ) && exit 1
exit 0""", BIN("wastrumentation-cli", "/repo/cli/src/main.rs")))
seed("c28-empty-block", "C28", "a block without instructions, parameters and results",
  "the block is missing in the nested view, and so in the instrumented program and in what is reported",
  [(TH, """                    current_body.push(TypedHighLevelInstr::new_uninstrumented(
                        *funct_index,
                        begin_idx, // prefer the begin-index over the end-index!""", """                    // Nothing happens in an empty block, and nothing can branch to it
                    if let Instr::Block(type_, body) = &instruction {
                        if body.is_empty() && type_.inputs().is_empty() {
                            continue;
                        }
                    }
                    current_body.push(TypedHighLevelInstr::new_uninstrumented(
                        *funct_index,
                        begin_idx, // prefer the begin-index over the end-index!""")],
  kit("""(module (func (export "f") block end block nop end block block end end))""",
  """
let entered = 0;
const x = load(dir, new Proxy({}, { get: () => () => { entered += 1; }, has: () => true }));
x.f();
assert.equal(entered, 4);
""", "BlockPre"))
