//! C40: what a set of hooks asks the instrumenter for.
use core_mc::model::{Hooks, GROUPS};
use mc_common::Ctx;
use serde_json::json;
use std::collections::HashSet;
use wastrumentation::analysis::{AnalysisInterface, ProcessedAnalysis};
use wastrumentation_lang_rust as rust;
use wastrumentation_lang_webassembly as wat;

/// The group of traps (of the model of the instrumenter) that a hook of that name stands for.
fn group(name: &str) -> &'static str {
    let mut snake = String::new();
    for c in name.chars() {
        if c.is_uppercase() && !snake.is_empty() {
            snake.push('_');
        }
        snake.push(c.to_ascii_lowercase());
    }
    let s = match snake.as_str() {
        "generic_apply" => "apply",
        "branch" => "br",
        "branch_if" => "br_if",
        "branch_table" => "br_table",
        s => s,
    };
    GROUPS.iter().find(|g| **g == s).copied().unwrap_or("(unknown)")
}
const NAMES: &[&str] = &[
    "GenericApply", "CallPre", "CallPost", "CallIndirectPre", "CallIndirectPost", "IfThen", "IfThenPost", "IfThenElse", "IfThenElsePost",
    "Branch", "BranchIf", "BranchTable", "Select", "Unary", "Binary", "Drop", "Return", "Const", "Local", "Global", "Store", "Load",
    "MemorySize", "MemoryGrow", "BlockPre", "BlockPost", "LoopPre", "LoopPost",
];
/// Sets of indices below n: up to k elements, and all but up to k.
fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, k: usize, from: usize, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(at.clone());
        if at.len() < k {
            for i in from..n {
                at.push(i);
                go(n, k, i + 1, at, out);
                at.pop();
            }
        }
    }
    let mut out = vec![];
    go(n, k, 0, &mut vec![], &mut out);
    let others: Vec<Vec<usize>> = out.iter().map(|s| (0..n).filter(|i| !s.contains(i)).collect()).collect();
    out.extend(others);
    out.sort();
    out.dedup();
    out
}
/// (interface, the library handed on) for a set of hooks.
type Through<'a, H> = &'a (dyn Fn(HashSet<H>) -> (AnalysisInterface, String) + Sync);
fn language<H: Copy + Eq + std::hash::Hash + std::fmt::Debug + Send + Sync>(
    ctx: &Ctx,
    name: &str,
    all: HashSet<H>,
    from: fn(&HashSet<H>) -> AnalysisInterface,
    spec: Through<H>,
    library: &str,
    sets: &[Vec<usize>],
) {
    let by_name = |n: &str| all.iter().find(|h| format!("{h:?}") == n).copied();
    let names: HashSet<String> = all.iter().map(|h| format!("{h:?}")).collect();
    let want: HashSet<String> = NAMES.iter().map(|n| n.to_string()).collect();
    if names != want {
        ctx.violation(&format!("{name}: all_hooks"), || {
            format!("all hooks: missing {:?}, unknown {:?}", want.difference(&names).collect::<Vec<_>>(), names.difference(&want).collect::<Vec<_>>())
        });
        return;
    }
    let hooks: Vec<H> = NAMES.iter().map(|n| by_name(n).unwrap()).collect();
    mc_common::par(sets.len() as u64, |k| {
        let set = &sets[k as usize];
        let chosen: HashSet<H> = set.iter().map(|i| hooks[*i]).collect();
        let groups: Vec<&str> = set.iter().map(|i| group(NAMES[*i])).collect();
        let want = Hooks::of(&groups).interface();
        let key = || format!("{name}: {}", set.iter().map(|i| NAMES[*i]).collect::<Vec<_>>().join(", "));
        let got = from(&chosen);
        if got != want {
            ctx.violation(&key(), || format!("interface_from: {}", difference(&got, &want)));
        }
        let (got, lib) = spec(chosen);
        if got != want {
            ctx.violation(&key(), || format!("the processed analysis: {}", difference(&got, &want)));
        }
        if lib != library {
            ctx.violation(&key(), || format!("the analysis source becomes {lib}"));
        }
        ctx.add("evaluations", 1);
        ctx.add("distinct_nontrivial", u64::from(!set.is_empty()));
        if k % 9001 == 17 {
            ctx.sample(json!({"language": name, "hooks": set.iter().map(|i| NAMES[*i]).collect::<Vec<_>>(), "traps": format!("{want:?}").chars().take(200).collect::<String>()}));
        }
    });
}
fn difference(got: &AnalysisInterface, want: &AnalysisInterface) -> String {
    let (g, w) = (format!("{got:#?}"), format!("{want:#?}"));
    g.lines().zip(w.lines()).find(|(a, b)| a != b).map_or_else(|| "differs".into(), |(a, b)| format!("{} where {} is expected", a.trim(), b.trim()))
}
pub fn hooks(ctx: &Ctx) {
    let sets = subsets(NAMES.len(), if ctx.thorough { 6 } else { 5 });
    let module = vec![1, 2, 3];
    let lib = format!("{:?}", wat::compile::options::WebAssemblySource::Module(module.clone()));
    language(ctx, "WebAssembly", wat::generate::analysis::Hook::all_hooks(), wat::generate::analysis::interface_from, &|hooks| {
        let spec = wat::generate::analysis::WasmAnalysisSpec { source: wat::compile::options::WebAssemblySource::Module(module.clone()), hooks };
        let p: ProcessedAnalysis<wat::compile::WebAssembly> = spec.into();
        (p.analysis_interface, format!("{:?}", p.analysis_library))
    }, &lib, &sets);
    use rust::compile::options::{ManifestSource, RustSource, RustSourceCode, WasiSupport};
    for source in [
        RustSource::SourceCode(WasiSupport::Enabled, ManifestSource("manifest".into()), RustSourceCode("code".into())),
        RustSource::Manifest(WasiSupport::Disabled, "some/Cargo.toml".into()),
    ] {
        let lib = format!("{source:?}");
        language(ctx, "Rust", rust::generate::analysis::Hook::all_hooks(), rust::generate::analysis::interface_from, &|hooks| {
            let spec = rust::generate::analysis::RustAnalysisSpec { source: source.clone(), hooks };
            let p: ProcessedAnalysis<rust::compile::Rust> = spec.into();
            (p.analysis_interface, format!("{:?}", p.analysis_library))
        }, &lib, &sets);
    }
    // Hooks by name, as the command line reads them.
    for (i, n) in NAMES.iter().enumerate() {
        match serde_json::from_value::<rust::generate::analysis::Hook>(json!(n)) {
            Ok(h) if format!("{h:?}") == *n => {}
            r => ctx.violation(&format!("Rust: {n} by name"), || format!("hook {i} by name is {r:?}")),
        }
    }
    ctx.set("hooks", json!(NAMES));
    ctx.set("exhaustive", json!(true));
    ctx.set("rule", json!("every set of few or nearly all hooks, in both languages; non-trivial if not empty"));
}
