//! Drives the real instrumenter and executes original and instrumented modules side by side.
use crate::model::*;
use interp::{Extern, Snapshot, Store, TableInst, Trap, MemInst, NULL, PAGE};
use std::collections::HashMap;
use wasabi_wasm as w;
use wasabi_wasm::{FunctionType, ImportOrPresent, Val};
use wastrumentation::analysis::{AnalysisInterface, ProcessedAnalysis};
use wastrumentation::compiler::{CompilationResult, Compiles, DefaultCompilerOptions, LibGeneratable, SourceCodeBound};
use wastrumentation::{Configuration, PrimaryTarget, Wastrumenter};
use wastrumentation_lang_webassembly::compile::{compiler::Compiler as WatCompiler, WebAssembly};

/// An analysis language whose programs are the compiled module itself; compiling can be told to fail.
#[derive(Debug, Clone)]
pub struct Analysis;
pub struct AnalysisOptions(pub AnalysisSource);
#[derive(Clone, Debug)]
pub struct AnalysisSource {
    pub module: Vec<u8>,
    pub fails: Option<String>,
}
impl SourceCodeBound for Analysis {
    type DefaultCompilerOptions = AnalysisOptions;
    type SourceCode = AnalysisSource;
}
impl DefaultCompilerOptions<Analysis> for AnalysisOptions {
    fn default_for(s: AnalysisSource) -> Self {
        AnalysisOptions(s)
    }
}
pub struct AnalysisCompiler;
impl Compiles<Analysis> for AnalysisCompiler {
    type CompilerOptions = AnalysisOptions;
    type CompilerSetupError = ();
    fn setup_compiler() -> Result<Self, ()> {
        Ok(AnalysisCompiler)
    }
    fn compile(&self, o: &AnalysisOptions) -> CompilationResult<Analysis> {
        match &o.0.fails {
            None => Ok(o.0.module.clone()),
            Some(reason) => Err(wastrumentation::compiler::CompilationError::because(reason.clone())),
        }
    }
}

pub const ANALYSIS_BYTES: &[u8] = b"the compiled analysis";
pub const NS_TARGET: &str = "instrumented_input";
pub const NS_STACK: &str = "wastrumentation_stack";
pub const NS_ANALYSIS: &str = "WASTRUMENTATION_ANALYSIS";

#[derive(Clone, Debug)]
pub struct Output {
    pub target: Vec<u8>,
    pub lib: Option<Vec<u8>>,
}
/// Runs the real pipeline up to (and including the call of) the merge.
pub fn instrument(
    bytes: &[u8],
    interface: AnalysisInterface,
    targets: Option<Vec<u32>>,
    primary: Option<PrimaryTarget>,
) -> Result<Output, String> {
    instrument_with::<WebAssembly, WatCompiler>(bytes, interface, targets, primary)
}
pub type Instrument = fn(&[u8], AnalysisInterface, Option<Vec<u32>>, Option<PrimaryTarget>) -> Result<Output, String>;
pub fn instrument_with<L: LibGeneratable + std::fmt::Debug, C: Compiles<L>>(
    bytes: &[u8],
    interface: AnalysisInterface,
    targets: Option<Vec<u32>>,
    primary: Option<PrimaryTarget>,
) -> Result<Output, String>
where
    C::CompilerOptions: DefaultCompilerOptions<L>,
    C::CompilerSetupError: std::fmt::Debug,
{
    let analysis = ProcessedAnalysis {
        analysis_library: AnalysisSource { module: ANALYSIS_BYTES.to_vec(), fails: None },
        analysis_interface: interface,
    };
    let config = Configuration { target_indices: targets, primary_selection: primary };
    let r = mc_common::catch_on(bytes, || {
        let w = Wastrumenter::<L, C, Analysis, AnalysisCompiler>::new(
            Box::new(C::setup_compiler().unwrap()),
            Box::new(AnalysisCompiler),
        );
        w.wastrument(bytes, analysis, &config).map_err(|e| format!("{e:?}"))
    });
    match r {
        Err(p) => return Err(format!("panicked: {p}")),
        Ok(Err(e)) => return Err(format!("error: {e}")),
        Ok(Ok(_)) => {}
    }
    let r = wasm_merge::take_recorded().ok_or("nothing was merged")?;
    let all: Vec<_> = r.primary.iter().chain(&r.inputs).collect();
    let find = |ns: &str| all.iter().find(|(n, _)| n == ns).map(|(_, b)| b.clone());
    Ok(Output { target: find(NS_TARGET).ok_or("the target is not merged")?, lib: find(NS_STACK) })
}
pub fn validate(bytes: &[u8]) -> Result<(), String> {
    use wasmparser::WasmFeatures as F;
    let f = F::MUTABLE_GLOBAL
        | F::SATURATING_FLOAT_TO_INT
        | F::SIGN_EXTENSION
        | F::REFERENCE_TYPES
        | F::MULTI_VALUE
        | F::BULK_MEMORY
        | F::FLOATS
        | F::GC_TYPES
        | F::MULTI_MEMORY;
    wasmparser::Validator::new_with_features(f).validate_all(bytes).map(|_| ()).map_err(|e| format!("{e:?}"))
}
pub fn decode(bytes: &[u8]) -> w::Module {
    w::Module::from_bytes(bytes).expect("decodes").0
}

/// What the program sees of its environment.
#[derive(Clone)]
pub struct Env {
    /// The original's function imports, those of one name and different types apart.
    pub funcs: Vec<(String, String, FunctionType)>,
    pub watch: Watch,
}
impl Env {
    pub fn of(m: &w::Module) -> Env {
        let mut funcs: Vec<(String, String, FunctionType)> = vec![];
        for f in &m.functions {
            if let ImportOrPresent::Import(a, b) = &f.code {
                if !funcs.iter().any(|x| &x.0 == a && &x.1 == b && x.2 == f.type_) {
                    funcs.push((a.clone(), b.clone(), f.type_));
                }
            }
        }
        let watch = Watch {
            globals: m.globals.iter().filter_map(|g| g.export.first().cloned()).collect(),
            mems: m.memories.iter().filter_map(|g| g.export.first().cloned()).collect(),
        };
        Env { funcs, watch }
    }
    pub fn party(&self, policy: Policy, apply: ApplyPolicy) -> Party {
        let mut p = Party::new(policy, apply);
        p.sigs = self.funcs.iter().map(|f| f.2).collect();
        p
    }
    /// Imported tables, memories and globals are the same fresh objects for both executions.
    pub fn extern_(&self, store: &mut Store, m: &w::Module, a: &str, b: &str, seen: &mut HashMap<(String, String), Extern>) -> Option<Extern> {
        let key = (a.to_string(), b.to_string());
        if let Some(e) = seen.get(&key) {
            return Some(*e);
        }
        let is = |i: &Option<(String, String)>| i.as_ref() == Some(&key);
        let e = if let Some(t) = m.tables.iter().find(|t| is(&t.import)) {
            store.tables.push(TableInst { elems: vec![NULL; t.limits.initial_size as usize], max: t.limits.max_size });
            Extern::Table(store.tables.len() - 1)
        } else if let Some(t) = m.memories.iter().find(|t| is(&t.import)) {
            let mut data = vec![0; t.limits.initial_size as usize * PAGE];
            for (i, x) in data.iter_mut().take(64).enumerate() {
                *x = 0xa0 + i as u8;
            }
            store.mems.push(MemInst { data, max: t.limits.max_size });
            Extern::Memory(store.mems.len() - 1)
        } else if m.globals.iter().any(|g| matches!(&g.init, ImportOrPresent::Import(x, y) if x == a && y == b)) {
            store.globals.push(0x4142_4344);
            Extern::Global(store.globals.len() - 1)
        } else {
            return None;
        };
        seen.insert(key, e);
        Some(e)
    }
}

pub const REF_FUEL: u64 = 600;
pub const REF_DEPTH: u32 = 24;

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Outcome {
    /// Per call; the first trap ends the sequence.
    pub results: Vec<Result<Vec<u64>, Trap>>,
    pub trace: Vec<u64>,
    pub marks: Vec<u32>,
    pub digests: Vec<u64>,
    /// Exported globals, memories, tables (size and nullness) at the end.
    pub state: u64,
    pub limited: bool,
    pub executed: u64,
}
impl Outcome {
    pub fn events(&self) -> usize {
        self.marks.len()
    }
}
fn state_of(store: &Store, inst: usize, names: &[String]) -> u64 {
    let i = &store.instances[inst];
    let mut h = vec![];
    for n in names {
        match i.exports.get(n) {
            Some(Extern::Global(g)) => h.push(store.globals[*g]),
            Some(Extern::Memory(m)) => {
                let d = &store.mems[*m].data;
                h.push(d.len() as u64);
                // memories are almost entirely zero
                for (k, c) in d.chunks_exact(8).enumerate() {
                    let v = u64::from_le_bytes(c.try_into().unwrap());
                    if v != 0 {
                        h.push(k as u64);
                        h.push(v);
                    }
                }
            }
            Some(Extern::Table(t)) => {
                h.push(store.tables[*t].elems.len() as u64);
                h.extend(store.tables[*t].elems.iter().map(|e| u64::from(*e != NULL)));
            }
            Some(Extern::Func(_)) => h.push(7),
            None => h.push(u64::MAX),
        }
    }
    mc_common::hash_of(&h)
}

/// One side, instantiated once; every run starts from the state right after instantiation.
pub struct Side<E: interp::Embedder> {
    pub store: Store,
    pub inst: Option<usize>,
    pub emb: E,
    base: Snapshot,
    /// What happened during instantiation.
    pub start: Outcome,
    state_names: Vec<String>,
}
pub trait HasParty {
    fn party(&mut self) -> &mut Party;
}
impl HasParty for Reference {
    fn party(&mut self) -> &mut Party {
        &mut self.party
    }
}
impl HasParty for UnderTest {
    fn party(&mut self) -> &mut Party {
        &mut self.party
    }
}
pub type Calls<'a> = &'a [(&'a str, &'a [u64])];
impl<E: interp::Embedder + HasParty> Side<E> {
    /// Runs a sequence of calls of exported functions under the given policies.
    pub fn run(&mut self, calls: Calls, policy: Policy, apply: ApplyPolicy, fuel: u64, depth: u32, max_events: u32) -> Outcome {
        self.store.restore(&self.base);
        let p = self.emb.party();
        p.reset(policy, apply);
        p.max_events = max_events;
        self.store.fuel = fuel;
        self.store.max_depth = depth;
        self.store.executed = 0;
        let mut o = Outcome::default();
        let Some(inst) = self.inst else { return o };
        for (name, args) in calls {
            let Some(f) = self.store.func_export(inst, name) else {
                panic!("no export {name}");
            };
            let r = self.store.invoke(&mut self.emb, f, args);
            let stop = r.is_err();
            if let Err(t) = &r {
                o.limited = t.is_limit();
            }
            o.results.push(r);
            if stop {
                break;
            }
        }
        o.state = state_of(&self.store, inst, &self.state_names);
        o.executed = self.store.executed;
        let p = self.emb.party();
        o.trace = std::mem::take(&mut p.trace);
        o.marks = std::mem::take(&mut p.marks);
        o.digests = std::mem::take(&mut p.digests);
        o
    }
}
pub fn finish_start<E: interp::Embedder + HasParty>(mut store: Store, mut emb: E, r: Result<usize, Trap>, names: Vec<String>) -> Side<E> {
    let mut o = Outcome { executed: store.executed, ..Default::default() };
    let inst = match r {
        Ok(i) => {
            o.state = state_of(&store, i, &names);
            Some(i)
        }
        Err(t) => {
            o.limited = t.is_limit();
            o.results.push(Err(t));
            None
        }
    };
    let p = emb.party();
    o.trace = std::mem::take(&mut p.trace);
    o.marks = std::mem::take(&mut p.marks);
    o.digests = std::mem::take(&mut p.digests);
    store.depth = 0;
    let base = store.snapshot();
    Side { store, inst, emb, base, start: o, state_names: names }
}
pub fn state_names(m: &w::Module) -> Vec<String> {
    let mut n: Vec<String> = m.globals.iter().flat_map(|g| g.export.clone()).collect();
    n.extend(m.memories.iter().flat_map(|g| g.export.clone()));
    n.extend(m.tables.iter().flat_map(|g| g.export.clone()));
    n
}
/// The original module observed by the specification.
pub fn reference(m: &w::Module, hooks: Hooks, targets: Option<&[u32]>, policy: Policy, apply: ApplyPolicy) -> Side<Reference> {
    let env = Env::of(m);
    let watched = (0..m.functions.len())
        .map(|i| !uses_refs(m.functions[i].type_) && targets.is_none_or(|t| t.contains(&(i as u32))))
        .collect();
    let mut emb = Reference {
        party: env.party(policy, apply),
        watch: env.watch.clone(),
        hooks,
        watched,
        index_of: HashMap::new(),
        imported: m.functions.iter().filter(|f| f.code().is_none()).count() as u32,
        global_types: m.globals.iter().map(|g| g.type_.0).collect(),
    };
    let mut store = Store::new();
    store.fuel = REF_FUEL;
    store.max_depth = REF_DEPTH;
    let mut seen = HashMap::new();
    let r = store.instantiate(m, &mut emb, |s, a, b, t| {
        if let Some(t) = t {
            let id = env.funcs.iter().position(|f| f.0 == a && f.1 == b && f.2 == t).unwrap();
            return Some(Extern::Func(s.add_host(t, ENV as usize + id)));
        }
        env.extern_(s, m, a, b, &mut seen)
    });
    finish_start(store, emb, r, state_names(m))
}
/// The instrumented module with an analysis that follows the protocol.
pub fn under_test(
    original: &w::Module,
    out: &Output,
    hooks: Hooks,
    policy: Policy,
    apply: ApplyPolicy,
) -> Result<Side<UnderTest>, String> {
    let env = Env::of(original);
    let target = decode(&out.target);
    let lib = out.lib.as_ref().map(|b| decode(b));
    let mut emb = UnderTest {
        party: env.party(policy, apply),
        target: None,
        stack: None,
        watch: env.watch.clone(),
        links: None,
        undecodable: None,
    };
    let mut store = Store::new();
    let stack = match &lib {
        Some(l) => Some(
            store
                .instantiate(l, &mut emb, |_, a, b, _| panic!("the instrumentation library imports {a}.{b}"))
                .map_err(|t| format!("the instrumentation library does not instantiate: {t:?}"))?,
        ),
        None => None,
    };
    emb.stack = stack;
    emb.target = Some(store.instances.len());
    store.fuel = REF_FUEL * 300;
    store.max_depth = REF_DEPTH * 8;
    let mut seen = HashMap::new();
    // Problems are reported, not linked around.
    for f in &target.functions {
        let ImportOrPresent::Import(a, b) = &f.code else { continue };
        if env.funcs.iter().any(|x| &x.0 == a && &x.1 == b && x.2 == f.type_) {
            continue;
        }
        if a == NS_ANALYSIS {
            let Some(h) = (0..N_HOOKS).find(|h| hook(*h).name == b && hooks.has(*h)) else {
                return Err(format!("the module imports {b} from the analysis, which does not offer it"));
            };
            let d = hook(h);
            if f.type_ != FunctionType::new(d.args, d.result.as_slice()) {
                return Err(format!("the module imports {b} from the analysis as {:?}", f.type_));
            }
        } else if a == NS_STACK {
            let Some(s) = stack else { return Err(format!("imports {b} but there is no instrumentation library")) };
            match store.instances[s].exports.get(b) {
                Some(Extern::Func(x)) if store.types[*x] == f.type_ => {}
                Some(Extern::Func(x)) => {
                    return Err(format!("the module imports {b} as {:?}, the instrumentation library exports {:?}", f.type_, store.types[*x]))
                }
                _ => return Err(format!("the instrumentation library does not export {b}")),
            }
        } else {
            return Err(format!("unexpected import {a}.{b} of {:?}", f.type_));
        }
    }
    let r = store.instantiate(&target, &mut emb, |s, a, b, t| {
        if let Some(t) = t {
            if let Some(id) = env.funcs.iter().position(|f| f.0 == a && f.1 == b && f.2 == t) {
                return Some(Extern::Func(s.add_host(t, ENV as usize + id)));
            }
            if a == NS_STACK {
                return s.instances[stack.unwrap()].exports.get(b).copied();
            }
            let h = (0..N_HOOKS).find(|h| hook(*h).name == b).unwrap();
            return Some(Extern::Func(s.add_host(t, h)));
        }
        env.extern_(s, original, a, b, &mut seen)
    });
    Ok(finish_start(store, emb, r, state_names(original)))
}

/// What is compared.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Compare {
    /// What the program does: results, traps, calls of its environment, final state.
    Program,
    /// What the analysis is told, in order, and the program's state whenever it is told.
    Events,
    Both,
}
fn program_view(o: &Outcome) -> Vec<&[u64]> {
    (0..o.marks.len())
        .map(|i| &o.trace[o.marks[i] as usize..o.marks.get(i + 1).map_or(o.trace.len(), |m| *m as usize)])
        .filter(|e| e[0] >= ENV)
        .collect()
}
fn first_difference(a: &[String], b: &[String]) -> String {
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let at = |v: &[String]| v.get(k).cloned().unwrap_or_else(|| "nothing more".into());
    format!("event {k}: expected {}, got {}", at(a), at(b))
}
/// `None` if the execution under test did what the reference did.
pub fn differ(r: &Outcome, u: &Outcome, compare: Compare) -> Option<String> {
    if compare != Compare::Events {
        if r.limited {
            // Only the common prefix is comparable.
            let (a, b) = (program_view(r), program_view(u));
            let n = a.len().min(b.len());
            if a[..n] != b[..n] {
                return Some("the calls of the environment differ".into());
            }
        } else {
            if r.results != u.results {
                return Some(format!("results differ: expected {:x?}, got {:x?}", r.results, u.results));
            }
            if program_view(r) != program_view(u) {
                return Some(format!(
                    "the calls of the environment differ: expected {:?}, got {:?}",
                    program_view(r),
                    program_view(u)
                ));
            }
            if r.state != u.state {
                return Some("the final state (globals, memories, tables) differs".into());
            }
        }
    }
    if compare != Compare::Program {
        let (ta, tb) = (describe_trace(&r.trace, &r.marks), describe_trace(&u.trace, &u.marks));
        if r.limited {
            let n = ta.len().min(tb.len());
            if ta[..n] != tb[..n] {
                return Some(format!("events differ: {}", first_difference(&ta[..n], &tb[..n])));
            }
            if tb.len() < ta.len() && !u.limited {
                return Some(format!("events are missing: {}", first_difference(&ta, &tb)));
            }
            let d = r.digests.len().min(u.digests.len());
            if r.digests[..d] != u.digests[..d] {
                return Some("the program's state at an event differs".into());
            }
        } else {
            if r.trace != u.trace || r.marks != u.marks {
                return Some(format!("events differ: {}", first_difference(&ta, &tb)));
            }
            if let Some(k) = r.digests.iter().zip(&u.digests).position(|(a, b)| a != b) {
                return Some(format!("the program's state at event {k} ({}) differs", ta[k]));
            }
        }
    }
    None
}
/// Fuel etc. for the execution under test, given what the reference did.
pub fn limits(r: &Outcome, fuel: u64, depth: u32) -> (u64, u32, u32) {
    let events = r.events() as u32;
    if r.limited {
        (fuel * 60, depth * 4, events)
    } else {
        (r.executed * 500 + 100_000, depth * 10, events + 4)
    }
}

pub fn wat(bytes: &[u8]) -> String {
    wasmprinter_like(bytes)
}
fn wasmprinter_like(bytes: &[u8]) -> String {
    let m = decode(bytes);
    let mut s = String::new();
    use std::fmt::Write;
    for (i, f) in m.functions.iter().enumerate() {
        match &f.code {
            ImportOrPresent::Import(a, b) => writeln!(s, "func {i} {:?}: import {a}.{b}", f.type_).unwrap(),
            ImportOrPresent::Present(c) => {
                let l: Vec<_> = c.locals.iter().map(|l| l.type_).collect();
                writeln!(s, "func {i} {:?} exports {:?} locals {l:?}:", f.type_, f.export).unwrap();
                for (k, op) in c.body.iter().enumerate() {
                    writeln!(s, "  {k}: {op:?}").unwrap();
                }
            }
        }
    }
    for (i, g) in m.globals.iter().enumerate() {
        writeln!(s, "global {i} {g:?}").unwrap();
    }
    for (i, g) in m.tables.iter().enumerate() {
        writeln!(s, "table {i} {g:?}").unwrap();
    }
    for (i, g) in m.memories.iter().enumerate() {
        writeln!(s, "memory {i} {g:?}").unwrap();
    }
    for (i, g) in m.elements.iter().enumerate() {
        writeln!(s, "element {i} {g:?}").unwrap();
    }
    for (i, g) in m.datas.iter().enumerate() {
        writeln!(s, "data {i} {g:?}").unwrap();
    }
    if let Some(st) = m.start {
        writeln!(s, "start {st:?}").unwrap();
    }
    s
}
pub fn i32c(x: i32) -> w::Instr {
    w::Instr::Const(Val::I32(x))
}
