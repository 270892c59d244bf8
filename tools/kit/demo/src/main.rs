//! demo PROGRAM.wat OUT HOOKS [FUNCTIONS]: instruments a program; OUT/target.wasm and OUT/lib.wasm are what would be merged.
use wastrumentation::{Configuration, Wastrumenter};
use wastrumentation_lang_webassembly::compile::{compiler::Compiler, options::WebAssemblySource, WebAssembly};
use wastrumentation_lang_webassembly::generate::analysis::{Hook, WasmAnalysisSpec};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let names: Vec<&str> = a[3].split(',').collect();
    let hooks = Hook::all_hooks().into_iter().filter(|h| names.contains(&"all") || names.contains(&format!("{h:?}").as_str())).collect();
    let target_indices = a.get(4).map(|l| l.split(',').filter_map(|i| i.parse().ok()).collect());
    let analysis = WasmAnalysisSpec { hooks, source: WebAssemblySource::Wat("(module)".into()) };
    let w = Wastrumenter::<WebAssembly, Compiler, WebAssembly, Compiler>::new(Box::new(Compiler {}), Box::new(Compiler {}));
    let program = wat::parse_file(&a[1]).unwrap();
    if w.wastrument(&program, analysis.into(), &Configuration { target_indices, primary_selection: None }).is_err() {
        panic!("not instrumented");
    }
    let merged = wasm_merge::take_recorded().unwrap();
    for (namespace, module) in merged.primary.iter().chain(&merged.inputs) {
        let name = match namespace.as_str() {
            "instrumented_input" => "target.wasm",
            "wastrumentation_stack" => "lib.wasm",
            _ => continue,
        };
        std::fs::write(format!("{}/{name}", a[2]), module).unwrap();
    }
    std::fs::write(format!("{}/original.wasm", a[2]), program).unwrap();
}
