//! C41: analyses written as WASP programs with AssemblyScript advice, as they end up after everything is merged:
//! the target, the instrumentation library and the compiled analysis call each other.
//!
//! The advice reports what it is shown through the documented objects (arguments, results, conditions, targets, ...)
//! and answers through them; the reference execution of the original module says what it has to be shown and what
//! its answers have to do.
use core_mc::driver::*;
use core_mc::families;
use core_mc::gen::*;
use core_mc::model::*;
use core_mc::run::body_text;
use interp::{Embedder, Extern, Store, Trap};
use mc_common::Ctx;
use serde_json::json;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use wasabi_wasm as w;
use wasabi_wasm::{FunctionType, ImportOrPresent, ValType};
use wastrumentation::analysis::ProcessedAnalysis;
use wastrumentation::{Configuration, Wastrumenter};
use wastrumentation_lang_assemblyscript::compile::compiler::Compiler as AscCompiler;
use wastrumentation_lang_assemblyscript::compile::AssemblyScript;
use wastrumentation_lang_assemblyscript::generate::analysis::WaspAnalysisSpec;
use ValType::{F32, F64, I32, I64};

/// The advice an analysis can consist of: the group of traps it stands for.
pub const ADVICE: &[&str] = &[
    "apply", "if_then", "if_then_else", "br_if", "br_table", "call_pre", "call_post", "call_indirect_pre", "call_indirect_post", "block_pre", "block_post", "loop_pre", "loop_post", "select",
];
/// What the advice imports from the harness: name, arguments, result.
const HARNESS: &[(&str, &[ValType], Option<ValType>)] = &[
    ("begin", &[I32], None),
    ("tellA", &[I32], None),
    ("tellB", &[F32], None),
    ("tellC", &[I64], None),
    ("tellD", &[F64], None),
    ("commit", &[], None),
    ("answers", &[], Some(I32)),
    ("answer", &[I32], Some(I32)),
    ("mode", &[], Some(I32)),
    ("ownA", &[I32], Some(I32)),
    ("ownB", &[I32], Some(F32)),
    ("ownC", &[I32], Some(I64)),
    ("ownD", &[I32], Some(F64)),
    ("flipA", &[I32], Some(I32)),
    ("flipB", &[F32], Some(F32)),
    ("flipC", &[I64], Some(I64)),
    ("flipD", &[F64], Some(F64)),
    ("probe", &[I32], Some(I32)),
];
const HARNESS_ID: usize = 2000;
fn as_type(t: ValType) -> &'static str {
    match t { I32 => "i32", F32 => "f32", I64 => "i64", _ => "f64" }
}
fn globals() -> String {
    let mut s = String::new();
    for (n, a, r) in HARNESS {
        let a: Vec<String> = a.iter().enumerate().map(|(i, t)| format!("x{i}: {}", as_type(*t))).collect();
        s.push_str(&format!("@external(\"harness\", \"{n}\") declare function {n}({}): {};\n", a.join(", "), r.map_or("void", as_type)));
    }
    s
}
/// Names of formal parameters: for the function, the arguments, the results; any others use the first two.
pub type Names = [&'static str; 3];
const NAMES: Names = ["func", "args", "results"];
/// Text that does something with element `i` of `of`, for the type it has.
fn by_type(of: &str, what: &dyn Fn(&str, &str) -> String) -> String {
    let mut s = format!("const t = {of}.getType(i);\n");
    for (k, (t, l)) in [("i32", "A"), ("f32", "B"), ("i64", "C"), ("f64", "D")].iter().enumerate() {
        s.push_str(&format!("{}if (t == WasmType.{t}) {{ {} }}\n", if k == 0 { "" } else { "else " }, what(t, l)));
    }
    s + "else { unreachable(); }\n"
}
/// One piece of advice; `kind` picks among the equivalent ways of asking for a generic apply.
fn advice(group: &str, [f, a, r]: Names, kind: usize) -> String {
    let (id, head, body) = match group {
        "apply" => {
            let (ta, tr) = [("MutDynArgs", "MutDynResults"), ("DynArgs", "DynResults"), ("Args", "Results")][kind % 3];
            let each = |of: &str, what: &dyn Fn(&str, &str) -> String| format!("for (let i = 0; i < {of}.length; i++) {{ {} }}\n", by_type(of, what));
            let body = format!(
                "begin({APPLY});\ntellA({f}.instr_f_idx); tellA({a}.length); tellA({r}.length);\n{}{}{}commit();\nconst m = mode();\nif (m == 1) {{ {} return; }}\nif (m == 2) {{ {} }}\n{f}.apply();\nif (m == 4) {f}.apply();\nif (m == 3) {{ {} }}\n",
                each(a, &|t, l| format!("tell{l}({a}.get<{t}>(i));")),
                each(r, &|t, l| format!("tellA(t); // {t} {l}\n")),
                each(a, &|t, l| format!("tellA(t); // {t} {l}\n")),
                each(r, &|t, l| format!("{r}.set<{t}>(i, own{l}(i));")),
                each(a, &|t, l| format!("{a}.set<{t}>(i, flip{l}({a}.get<{t}>(i)));")),
                each(r, &|t, l| format!("{r}.set<{t}>(i, flip{l}({r}.get<{t}>(i)));")),
            );
            return format!("(advice apply ({f} WasmFunction) ({a} {ta}) ({r} {tr}) >>>GUEST>>>{body}<<<GUEST<<<)\n");
        }
        "if_then" => (IF_THEN, format!("if_then ({a} Condition)"), cond(a, "then", "skip", "")),
        "if_then_else" => (IF_THEN_ELSE, format!("if_then_else ({a} Condition)"), cond(a, "then", "else", "")),
        "select" => (SELECT, format!("select ({a} Condition)"), cond(a, "then", "else", "")),
        "br_if" => (BR_IF, format!("br_if ({a} Condition) ({r} Label)"), cond(a, "branch", "skip", &format!("tellA({r}.label);"))),
        "br_table" => (BR_TABLE, format!("br_table ({a} Target) ({r} Default)"), format!("tellA({a}.target); tellA({r}.deflt); commit(); if (answers()) return answer({a}.target);")),
        "call_pre" => (CALL_PRE, format!("call pre ({f} FunctionIndex)"), format!("tellA({f}.index); commit();")),
        "call_post" => (CALL_POST, format!("call post ({f} FunctionIndex)"), format!("tellA({f}.index); commit();")),
        "call_indirect_pre" => (
            CALL_INDIRECT_PRE,
            format!("call_indirect pre ({a} FunctionTable) ({f} FunctionTableIndex)"),
            format!("tellA({f}.index); tellA({a}.index); commit(); if (answers()) return answer({f}.index);"),
        ),
        "call_indirect_post" => (CALL_INDIRECT_POST, format!("call_indirect post ({a} FunctionTable)"), format!("tellA({a}.index); commit();")),
        "block_pre" => (BLOCK_PRE, "block pre".into(), "commit();".into()),
        "block_post" => (BLOCK_POST, "block post".into(), "commit();".into()),
        "loop_pre" => (LOOP_PRE, "loop pre".into(), "commit();".into()),
        "loop_post" => (LOOP_POST, "loop post".into(), "commit();".into()),
        _ => unreachable!(),
    };
    format!("(advice {head} >>>GUEST>>>\nbegin({id}); {body}\n<<<GUEST<<<)\n")
}
fn cond(a: &str, yes: &str, no: &str, more: &str) -> String {
    format!("tellA({a}.is_{yes}); tellA({a}.is_{no}); {more} commit();\nif (answers()) {{ if (answer({a}.is_{yes})) return {a}.continue_{yes}; else return {a}.continue_{no}; }}")
}
/// The analysis with this advice.
pub fn program(groups: &[&str], names: Names, kind: usize) -> String {
    let mut s = format!("(aspect\n(global >>>GUEST>>>\n{}<<<GUEST<<<)\n", globals());
    for g in groups {
        s.push_str(&advice(g, names, kind));
    }
    s + ")"
}

/// What is left of an event for advice to see.
fn project(o: &Outcome) -> Outcome {
    let mut p = Outcome { trace: vec![], marks: vec![], ..o.clone() };
    for i in 0..o.marks.len() {
        let e = &o.trace[o.marks[i] as usize..o.marks.get(i + 1).map_or(o.trace.len(), |m| *m as usize)];
        p.marks.push(p.trace.len() as u32);
        p.trace.push(e[0]);
        let a = &e[1..];
        let truth = [u64::from(a.first().is_some_and(|c| *c != 0)), u64::from(a.first() == Some(&0))];
        match e[0] as usize {
            IF_THEN | IF_THEN_ELSE | SELECT => p.trace.extend(truth),
            BR_IF => { p.trace.extend(truth); p.trace.push(a[1]); }
            BR_TABLE => p.trace.extend([a[0], a[2]]),
            CALL_PRE | CALL_POST | CALL_INDIRECT_POST => p.trace.push(a[0]),
            CALL_INDIRECT_PRE => p.trace.extend([a[0], a[1]]),
            BLOCK_PRE | BLOCK_POST | LOOP_PRE | LOOP_POST => {}
            APPLY => { p.trace.extend(&a[..3]); p.trace.extend(&a[4..]); }
            _ => p.trace.extend(a),
        }
    }
    p
}

pub struct Guest {
    party: Party,
    watch: Watch,
    target: Option<usize>,
    /// The function that advice of a kind is compiled to.
    advice: HashMap<usize, usize>,
    call_base: Option<usize>,
    event: Vec<u64>,
    /// The type with which each part of the event was told.
    told: Vec<u64>,
    at: u32,
    /// Advice is told to answer although its answer changes nothing.
    explicit: bool,
    probes: Vec<u32>,
}
impl HasParty for Guest {
    fn party(&mut self) -> &mut Party {
        &mut self.party
    }
}
const CALL_BASE: usize = 1900;
const WRONG_TYPE: u64 = 0xbad_0000_0000_0000;
impl Embedder for Guest {
    const OBSERVES: bool = false;
    fn linked(&mut self, store: &Store, instance: usize) {
        if Some(instance) == self.target {
            self.watch.attach(&mut self.party, &store.instances[instance]);
            self.call_base = store.func_export(instance, "call_base");
        }
    }
    fn host(&mut self, store: &mut Store, id: usize, a: &[u64]) -> Result<Vec<u64>, Trap> {
        if id < N_HOOKS {
            let f = self.advice[&id];
            return store.invoke(self, f, a);
        }
        if id == CALL_BASE {
            let Some(f) = self.call_base else { return Err(PROTOCOL) };
            return store.invoke(self, f, a);
        }
        if id < HARNESS_ID {
            return self.party.env(store, id - ENV as usize, a);
        }
        let k = self.at;
        Ok(match HARNESS[id - HARNESS_ID].0 {
            "begin" => { self.event = vec![a[0]]; self.told = vec![]; vec![] }
            n @ ("tellA" | "tellB" | "tellC" | "tellD") => {
                self.event.push(a[0]);
                self.told.push(match n { "tellA" => type_code(I32), "tellB" => type_code(F32), "tellC" => type_code(I64), _ => type_code(F64) });
                vec![]
            }
            "commit" => {
                self.at = self.party.events;
                let mut e = std::mem::take(&mut self.event);
                // Arguments: told with the type that they have?
                if e[0] as usize == APPLY {
                    let (argc, resc) = (e[2] as usize, e[3] as usize);
                    for i in 0..argc {
                        let of_type = *e.get(4 + argc + resc + i).ok_or(PROTOCOL)?;
                        if self.told[3 + i] != of_type { e.push(WRONG_TYPE); break; }
                    }
                }
                self.party.event(store, e[0] as usize, &e[1..])?;
                vec![]
            }
            "answers" => vec![u64::from(self.explicit || !matches!(self.party.policy, Policy::Forward | Policy::TrapAt(_)))],
            "answer" => vec![self.party.answer(k, I32, a[0])],
            "mode" => vec![match self.party.apply {
                ApplyPolicy::Forward => 0,
                ApplyPolicy::Skip => 1,
                ApplyPolicy::AlterArgs => 2,
                ApplyPolicy::AlterResults => 3,
                ApplyPolicy::Twice => 4,
                ApplyPolicy::SkipAt(n) => u64::from(n == k),
            }],
            "ownA" => vec![own_result(I32, a[0] as usize)],
            "ownB" => vec![own_result(F32, a[0] as usize)],
            "ownC" => vec![own_result(I64, a[0] as usize)],
            "ownD" => vec![own_result(F64, a[0] as usize)],
            "flipA" | "flipB" | "flipC" | "flipD" => vec![a[0] ^ 1],
            "probe" => vec![u64::from(self.probes[a[0] as usize])],
            _ => unreachable!(),
        })
    }
}

pub struct Built {
    target: Vec<u8>,
    lib: Option<Vec<u8>>,
    analysis: Vec<u8>,
}
/// Everything from the sources to the three modules that are merged.
pub fn build(bytes: &[u8], source: &str) -> Result<Built, String> {
    let r = mc_common::catch_on(source.as_bytes(), || {
        let analysis: ProcessedAnalysis<AssemblyScript> = (&WaspAnalysisSpec { wasp_source: source.into() }).try_into().map_err(|e: wasp_compiler::Error| format!("the analysis is refused: {e:?}"))?;
        let compiler = || Box::new(AscCompiler::new().unwrap());
        Wastrumenter::<AssemblyScript, AscCompiler, AssemblyScript, AscCompiler>::new(compiler(), compiler())
            .wastrument(bytes, analysis, &Configuration { target_indices: None, primary_selection: None })
            .map_err(|e| format!("{e:?}"))
    });
    match r {
        Err(p) => return Err(format!("panicked: {p}")),
        Ok(Err(e)) => return Err(e),
        Ok(Ok(_)) => {}
    }
    let r = wasm_merge::take_recorded().ok_or("nothing was merged")?;
    let all: Vec<_> = r.primary.iter().chain(&r.inputs).collect();
    let find = |ns: &str| all.iter().find(|(n, _)| n == ns).map(|(_, b)| b.clone());
    Ok(Built { target: find(NS_TARGET).ok_or("the target is not merged")?, lib: find(NS_STACK), analysis: find(NS_ANALYSIS).ok_or("the analysis is not merged")? })
}
/// The three modules, linked with each other, with the program's environment and with the harness.
fn link(original: &w::Module, built: &Built, hooks: Hooks) -> Result<Side<Guest>, String> {
    let env = Env::of(original);
    let mut emb = Guest { party: env.party(Policy::Forward, ApplyPolicy::Forward), watch: env.watch.clone(), target: None, advice: HashMap::new(), call_base: None, event: vec![], told: vec![], at: 0, explicit: false, probes: vec![] };
    let mut store = Store::new();
    let mut stack = None;
    if let Some(l) = &built.lib {
        let i = store.instantiate(&decode(l), &mut emb, |_, _, _, _| None).map_err(|t| format!("the instrumentation library does not instantiate: {t:?}"))?;
        stack = Some(i);
    }
    let from_stack = |store: &Store, b: &str, t: FunctionType| match stack.and_then(|s| store.func_export(s, b)) {
        Some(f) if store.types[f] == t => Ok(f),
        Some(f) => Err(format!("{b} is imported as {t:?}, the instrumentation library exports {:?}", store.types[f])),
        None => Err(format!("the instrumentation library does not export {b}")),
    };
    let analysis = decode(&built.analysis);
    let target = decode(&built.target);
    for f in &analysis.functions {
        let ImportOrPresent::Import(a, b) = &f.code else { continue };
        match a.as_str() {
            "harness" => {}
            NS_STACK => { from_stack(&store, b, f.type_)?; }
            NS_TARGET => match target.functions.iter().find(|g| g.export.contains(b)) {
                Some(g) if g.type_ == f.type_ => {}
                Some(g) => return Err(format!("the analysis imports {b} from the program as {:?}, it is exported as {:?}", f.type_, g.type_)),
                None => return Err(format!("the analysis imports {b} from the program, which does not export it")),
            },
            _ => return Err(format!("the analysis imports {a}.{b}")),
        }
    }
    store.fuel = 1_000_000;
    let ai = store
        .instantiate(&analysis, &mut emb, |s, a, b, t| {
            let t = t?;
            Some(Extern::Func(match a {
                "harness" => s.add_host(t, HARNESS_ID + HARNESS.iter().position(|h| h.0 == b)?),
                NS_STACK => from_stack(s, b, t).ok()?,
                _ if b == "call_base" => s.add_host(t, CALL_BASE),
                _ => return None,
            }))
        })
        .map_err(|t| format!("the analysis does not instantiate: {t:?}"))?;
    for h in (0..N_HOOKS).filter(|h| hooks.has(*h)) {
        let d = hook(h);
        match store.func_export(ai, d.name) {
            Some(f) if store.types[f] == FunctionType::new(d.args, d.result.as_slice()) => { emb.advice.insert(h, f); }
            Some(f) => return Err(format!("the analysis exports {} as {:?}", d.name, store.types[f])),
            None => return Err(format!("the analysis does not export {}", d.name)),
        }
    }
    for f in &target.functions {
        let ImportOrPresent::Import(a, b) = &f.code else { continue };
        if env.funcs.iter().any(|x| &x.0 == a && &x.1 == b && x.2 == f.type_) { continue; }
        match a.as_str() {
            NS_ANALYSIS => match emb.advice.iter().find(|(h, _)| hook(**h).name == b) {
                Some((_, g)) if store.types[*g] == f.type_ => {}
                Some(_) => return Err(format!("the module imports {b} from the analysis as {:?}", f.type_)),
                None => return Err(format!("the module imports {b} from the analysis, which does not offer it")),
            },
            NS_STACK => { from_stack(&store, b, f.type_)?; }
            _ => return Err(format!("unexpected import {a}.{b}")),
        }
    }
    emb.target = Some(store.instances.len());
    store.fuel = 10_000_000;
    store.max_depth = 2000;
    let mut seen = HashMap::new();
    let r = store.instantiate(&target, &mut emb, |s, a, b, t| {
        let Some(t) = t else { return env.extern_(s, original, a, b, &mut seen) };
        if let Some(id) = env.funcs.iter().position(|f| f.0 == a && f.1 == b && f.2 == t) {
            return Some(Extern::Func(s.add_host(t, ENV as usize + id)));
        }
        if a == NS_STACK { return from_stack(s, b, t).ok().map(Extern::Func); }
        let h = (0..N_HOOKS).find(|h| hook(*h).name == b)?;
        Some(Extern::Func(s.add_host(t, h)))
    });
    Ok(finish_start(store, emb, r, state_names(original)))
}

#[derive(Clone, Copy, Debug)]
enum Pol { Fixed(Policy, ApplyPolicy, bool), NotEach(u32), TrapEach(u32), SkipEach(u32) }
#[derive(Default)]
struct Counts { modules: AtomicU64, runs: AtomicU64, nontrivial: AtomicU64, samples: std::sync::Mutex<Vec<serde_json::Value>>, events: AtomicU64, steps: AtomicU64, analyses: AtomicU64 }
/// One module under one analysis; true if it goes on.
#[allow(clippy::too_many_arguments)]
fn one_analysis(m: &w::Module, bytes: &[u8], source: &str, hooks: Hooks, pols: &[Pol], sequences: &[(usize, Vec<(String, Vec<u64>)>)], n: &Counts, found: &mut dyn FnMut(usize, String, String)) {
    let built = match build(bytes, source) {
        Ok(b) => b,
        Err(e) => return found(usize::MAX, e.clone(), format!("{e}\nanalysis:\n{source}\noriginal:\n{}", wat(bytes))),
    };
    n.modules.fetch_add(1, Ordering::Relaxed);
    let about = |what: &str| format!("{what}\nanalysis:\n{source}\noriginal:\n{}\ninstrumented:\n{}", wat(bytes), wat(&built.target));
    for (what, b) in [("target", Some(&built.target)), ("library", built.lib.as_ref()), ("analysis", Some(&built.analysis))] {
        if let Some(e) = b.and_then(|b| validate(b).err()) {
            let e = format!("the {what} is invalid: {e}");
            return found(usize::MAX, e.clone(), about(&e));
        }
    }
    let mut r = reference(m, hooks, None, Policy::Forward, ApplyPolicy::Forward);
    let mut u = match link(m, &built, hooks) {
        Ok(u) => u,
        Err(e) => return found(usize::MAX, e.clone(), about(&e)),
    };
    if let Some(d) = differ(&project(&r.start), &u.start, Compare::Both) {
        return found(usize::MAX, format!("instantiation: {d}"), about(&d));
    }
    let mut stop = HashSet::new();
    for (entry, calls) in sequences {
        let calls: Vec<(&str, &[u64])> = calls.iter().map(|(n, a)| (n.as_str(), a.as_slice())).collect();
        let mut run = |policy: Policy, apply: ApplyPolicy, explicit: bool| -> u32 {
            let a = r.run(&calls, policy, apply, REF_FUEL, 40, 5000);
            let (fuel, depth, events) = limits(&a, REF_FUEL, 40);
            u.emb.explicit = explicit;
            let b = u.run(&calls, policy, apply, fuel * 40 + 1_000_000, depth * 3, events);
            let nth = n.runs.fetch_add(1, Ordering::Relaxed);
            n.nontrivial.fetch_add(u64::from(a.executed > 0 && a.events() > 0), Ordering::Relaxed);
            if nth > 3 && nth.is_power_of_two() && nth.trailing_zeros() % 2 == 0 {
                let mut events = describe_trace(&a.trace, &a.marks);
                events.truncate(8);
                n.samples.lock().unwrap().push(json!({
                    "calls": format!("{calls:x?}"), "hooks": hooks.describe().chars().take(120).collect::<String>(), "policy": format!("{policy:?}, apply {apply:?}, explicit answers: {explicit}"),
                    "results": format!("{:x?}", a.results), "first_events": events,
                }));
            }
            n.events.fetch_add(a.events() as u64, Ordering::Relaxed);
            n.steps.fetch_add(a.executed + b.executed, Ordering::Relaxed);
            let p = project(&a);
            if let Some(d) = differ(&p, &b, Compare::Both) {
                if stop.insert(*entry) {
                    found(*entry, d.clone(), about(&format!(
                        "{d}\ncalls: {calls:x?}\npolicy: {policy:?}, apply {apply:?}, explicit answers: {explicit}\nexpected results {:x?}, got {:x?}\nexpected events:\n  {}\nevents of the instrumented module:\n  {}",
                        a.results, b.results, describe_trace(&p.trace, &p.marks).join("\n  "), describe_trace(&b.trace, &b.marks).join("\n  "))));
                }
            }
            if a.limited { 0 } else { a.events() as u32 }
        };
        for p in pols {
            match *p {
                Pol::Fixed(p, a, x) => { run(p, a, x); }
                Pol::NotEach(k) => for i in 0..run(Policy::Forward, ApplyPolicy::Forward, true).min(k) { run(Policy::NotNth(i), ApplyPolicy::Forward, true); },
                Pol::TrapEach(k) => for i in 0..run(Policy::Forward, ApplyPolicy::Forward, false).min(k) { run(Policy::TrapAt(i), ApplyPolicy::Forward, false); },
                Pol::SkipEach(k) => for i in 0..run(Policy::Forward, ApplyPolicy::Forward, false).min(k) { run(Policy::Forward, ApplyPolicy::SkipAt(i), false); },
            }
        }
    }
}

/// Every set of advice yields the interface of exactly these traps and compiles to their functions.
fn sets(ctx: &Ctx, n: &Counts) {
    let mut all: Vec<u32> = (0..1u32 << ADVICE.len()).collect();
    if !ctx.thorough {
        all.retain(|s| s.count_ones() <= 3 || s.count_ones() as usize + 2 >= ADVICE.len());
    }
    mc_common::par(all.len() as u64, |k| {
        let set = all[k as usize];
        let mut groups: Vec<&str> = (0..ADVICE.len()).filter(|i| set >> i & 1 == 1).map(|i| ADVICE[i]).collect();
        for turn in 0..2 {
            let source = program(&groups, NAMES, k as usize + turn);
            let hooks = Hooks::of(&groups);
            let key = groups.join(", ");
            n.analyses.fetch_add(1, Ordering::Relaxed);
            let r = mc_common::catch_on(source.as_bytes(), || (&WaspAnalysisSpec { wasp_source: source.clone() }).try_into());
            let p: ProcessedAnalysis<AssemblyScript> = match r {
                Ok(Ok(p)) => p,
                Ok(Err(e)) => { let e: wasp_compiler::Error = e; return ctx.violation(&key, || format!("refused: {e:?}\n{source}")) }
                Err(e) => return ctx.violation(&key, || format!("panicked: {e}\n{source}")),
            };
            if p.analysis_interface != hooks.interface() {
                return ctx.violation(&key, || format!("the interface is {:#?}\n{source}", p.analysis_interface));
            }
            let text = p.analysis_library;
            let bytes = match AscCompiler::new().unwrap().compile(&wastrumentation_lang_assemblyscript::compile::options::CompilerOptions::default_for(text.clone())) {
                Ok(b) => b,
                Err(e) => return ctx.violation(&key, || format!("the generated program does not compile: {e}\n{text}")),
            };
            let m = decode(&bytes);
            let mut got: Vec<(String, FunctionType)> = m.functions.iter().flat_map(|f| f.export.iter().map(|e| (e.clone(), f.type_))).collect();
            let mut want: Vec<(String, FunctionType)> = (0..N_HOOKS).filter(|h| hooks.has(*h)).map(|h| (hook(h).name.to_string(), FunctionType::new(hook(h).args, hook(h).result.as_slice()))).collect();
            got.sort_by(|a, b| a.0.cmp(&b.0));
            want.sort_by(|a, b| a.0.cmp(&b.0));
            if got != want {
                return ctx.violation(&key, || format!("the analysis exports {got:?} instead of {want:?}\n{text}"));
            }
            groups.reverse();
        }
    });
    ctx.add("sets_of_advice", all.len() as u64);
}
/// Names that formal parameters may have.
fn names(ctx: &Ctx, m: &w::Module, bytes: &[u8], seqs: &[(usize, Vec<(String, Vec<u64>)>)], n: &Counts) {
    let some: [&str; 13] = ["a", "b", "f", "func", "args", "results", "condition", "target", "label", "index", "Table", "sigv", "argsResults"];
    let mut jobs: Vec<Names> = vec![];
    for x in some { for y in some { for z in some {
        if x != y && y != z && x != z { jobs.push([x, y, z]); }
    } } }
    // Advice has exported parameters of its own by these names.
    let taken: &[&str] = &["sigv", "argc", "resc", "sigtypv"];
    mc_common::par(jobs.len() as u64, |k| {
        let ns = jobs[k as usize];
        let groups: Vec<&str> = if ns.iter().any(|x| taken.contains(x)) { ADVICE[1..].to_vec() } else { ADVICE.to_vec() };
        let source = program(&groups, ns, 0);
        n.analyses.fetch_add(1, Ordering::Relaxed);
        let mut bad = None;
        one_analysis(m, bytes, &source, Hooks::of(&groups), &[Pol::Fixed(Policy::Not, ApplyPolicy::Forward, false)], seqs, n, &mut |_, d, e| { bad.get_or_insert((d, e)); });
        if let Some((d, e)) = bad {
            let key = if ns.contains(&"argsResults") && d.contains("Duplicate identifier 'argsResults'") { "a parameter named argsResults".to_string() } else { format!("parameters named {ns:?}") };
            ctx.violation(&key, || format!("{d}\n{e}"));
        }
    });
    ctx.add("namings", jobs.len() as u64);
}
/// Advice with an explicit signature.
fn explicit_signatures(ctx: &Ctx) {
    for (n, text) in [("read-only", "((a I32)) ((r F32))"), ("Mut", "(Mut (a I32)) (Mut (r F32))")] {
        let source = format!("(aspect (advice apply (func WasmFunction) {text} >>>GUEST>>>return func(a);<<<GUEST<<<))");
        let r = mc_common::catch_on(source.as_bytes(), || { let r: Result<ProcessedAnalysis<AssemblyScript>, wasp_compiler::Error> = (&WaspAnalysisSpec { wasp_source: source.clone() }).try_into(); r.map(|_| ()).map_err(|e| format!("{e:?}")) });
        if let Err(p) = r {
            ctx.violation(&format!("apply with an explicit signature, {n}"), || format!("panics: {p}\n{source}"));
        }
    }
}
/// Arguments and results are accessible by their indices and by no others.
fn bounds(ctx: &Ctx, n: &Counts) {
    const WAYS: &[&str] = &["args.get<i32>(i)", "args.set<i32>(i, 5)", "args.getType(i)", "results.get<i32>(i)", "results.set<i32>(i, 5)", "results.getType(i)"];
    let uses: String = WAYS.iter().enumerate().map(|(k, w)| format!("if (way == {k}) {{ {w}; }}\n")).collect();
    let source = format!("(aspect (global >>>GUEST>>>{}<<<GUEST<<<)\n(advice apply (func WasmFunction) (args MutDynArgs) (results MutDynResults) >>>GUEST>>>\nfunc.apply();\nconst way = probe(0); const i = probe(1);\n{uses}<<<GUEST<<<))", globals());
    let mut m = w::Module::new();
    let mut calls = vec![];
    for a in 0..4usize { for r in 0..4usize {
        let body = (0..r as i32).map(c32).collect();
        func(&mut m, FunctionType::new(&vec![I32; a], &vec![I32; r]), &[], body, &format!("f{a}{r}"));
        calls.push((a, r));
    } }
    let bytes = m.to_bytes().unwrap();
    let hooks = Hooks::of(&["apply"]);
    let mut u = match build(&bytes, &source).and_then(|b| link(&decode(&bytes), &b, hooks)) {
        Ok(u) => u,
        Err(e) => return ctx.violation("accesses by index", || e),
    };
    for (a, r) in calls { for (k, way) in WAYS.iter().enumerate() { for i in [-2147483648i64, -256, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 255, 256, 65536, 2147483647] {
        let of = if k < 3 { a } else { r };
        let allowed = i >= 0 && (i as usize) < of;
        u.emb.probes = vec![k as u32, i as i32 as u32];
        let args: Vec<u64> = vec![9; a];
        let name = format!("f{a}{r}");
        let o = u.run(&[(&name, &args)], Policy::Forward, ApplyPolicy::Forward, 1_000_000, 500, 5000);
        n.runs.fetch_add(1, Ordering::Relaxed);
        let got = o.results[0].is_ok();
        if got != allowed {
            ctx.violation(&format!("{way} with i = {i} of {of}"), || format!("{} in a function of {a} arguments and {r} results: {:?}", if got { "is possible" } else { "traps" }, o.results));
        }
        ctx.add("accesses", 1);
    } } }
}

type Build = fn(usize) -> Family;
pub fn wasp(ctx: &Ctx) {
    interp::MAX_PAGES.store(64, Ordering::Relaxed);
    let n = Counts::default();
    sets(ctx, &n);
    explicit_signatures(ctx);
    bounds(ctx, &n);
    let families: &[(Build, usize, usize)] = &[
        (families::blocks, 4, 5), (families::nests, 6, 7), (families::ifs, 4, 5), (families::tables, 4, 5), (families::calls, 3, 4), (families::recursion, 5, 6), (families::mixed, 3, 4), (families::multi, 4, 5),
    ];
    use ApplyPolicy as A;
    let fixed = |p, a, x| Pol::Fixed(p, a, x);
    let rich = [
        fixed(Policy::Forward, A::Forward, false), fixed(Policy::Forward, A::Forward, true), fixed(Policy::Not, A::Forward, false), fixed(Policy::Forward, A::Skip, false), fixed(Policy::Not, A::AlterArgs, false),
        fixed(Policy::Forward, A::AlterResults, false), fixed(Policy::Forward, A::Twice, true), Pol::NotEach(6), Pol::TrapEach(4), Pol::SkipEach(4),
    ];
    let plain = [fixed(Policy::Forward, A::Forward, false), fixed(Policy::Not, A::AlterResults, true)];
    for (build, quick, thorough) in families {
        let len = if ctx.thorough { *thorough } else { *quick };
        for (level, less) in [(0usize, 0usize), (1, 1), (2, 2)] {
            let Some(l) = len.checked_sub(less).filter(|l| *l > 0) else { continue };
            let f = build(l);
            let relevant = core_mc::run::relevant(&f);
            let near: Vec<&str> = ADVICE.iter().copied().filter(|a| relevant.contains(a)).collect();
            let mut analyses: Vec<Vec<&str>> = vec![ADVICE.to_vec(), ADVICE[1..].to_vec()];
            if level >= 1 { analyses.extend(near.iter().map(|g| vec![*g])); }
            if level >= 2 { for i in 0..near.len() { for j in 0..i { analyses.push(vec![near[i], near[j]]); } } }
            let pols: &[Pol] = if level == 0 { &plain } else { &rich };
            let bodies = f.all();
            let chunks: Vec<&[Vec<w::Instr>]> = bodies.chunks(24).collect();
            let jobs: Vec<(usize, usize)> = (0..chunks.len()).flat_map(|c| (0..analyses.len()).map(move |a| (c, a))).collect();
            let reported: Mutex<HashSet<String>> = Mutex::default();
            let t = ctx.elapsed();
            mc_common::par(jobs.len() as u64, |j| {
                if ctx.n_violations() > 20 { return; }
                let (c, a) = jobs[j as usize];
                let groups = &analyses[a];
                let source = program(groups, NAMES, c);
                let check = |bodies: &[Vec<w::Instr>], found: &mut dyn FnMut(usize, String, String)| {
                    let refs: Vec<&[w::Instr]> = bodies.iter().map(|b| b.as_slice()).collect();
                    let m = f.module(&refs);
                    let bytes = m.to_bytes().unwrap();
                    let seqs: Vec<_> = (0..bodies.len()).flat_map(|i| f.inputs.iter().map(move |x| (i, vec![(format!("f{i}"), x.clone())]))).collect();
                    one_analysis(&decode(&bytes), &bytes, &source, Hooks::of(groups), pols, &seqs, &n, found);
                };
                let mut bad: Vec<(usize, String, String)> = vec![];
                check(chunks[c], &mut |e, w, d| if bad.len() < 3 { bad.push((e, w, d)) });
                for (e, what, d) in bad {
                    let (mut key, mut detail) = (format!("{}: a module of {} functions, {}", f.name, chunks[c].len(), what), d);
                    for b in if e == usize::MAX { chunks[c] } else { &chunks[c][e..=e] } {
                        let mut alone = None;
                        check(std::slice::from_ref(b), &mut |_, w, d| { alone.get_or_insert(format!("{w}\n{d}")); });
                        if let Some(a) = alone {
                            (key, detail) = (format!("{}: {}", f.name, body_text(b)), a);
                            break;
                        }
                    }
                    if reported.lock().unwrap().insert(key.clone()) { ctx.violation(&key, || detail); }
                }
            });
            ctx.add("programs", bodies.len() as u64);
            ctx.set(&format!("{} up to {l} instructions", f.name), json!({"valid_bodies": bodies.len(), "inputs": f.inputs.len(), "analyses": analyses.len(), "policies": pols.len()}));
            if std::env::var_os("CORE_MC_TIMES").is_some() { eprintln!("{} {l}: {} bodies, {} analyses: {:.1} s", f.name, bodies.len(), analyses.len(), ctx.elapsed() - t); }
        }
    }
    // Signatures: every one of up to so many arguments and results, called from outside and through each other.
    let (p, r) = if ctx.thorough { (4, 3) } else { (3, 2) };
    let types = |k: usize| -> Vec<Vec<ValType>> { mc_common::sequences(4, 0, k).into_iter().map(|s| s.iter().map(|k| [I32, F32, I64, F64][*k]).collect()).collect() };
    let mut sigs = vec![];
    for i in types(p) { for o in types(r) { if i.len() + o.len() <= p + 1 { sigs.push(FunctionType::new(&i, &o)); } } }
    ctx.add("signatures", sigs.len() as u64);
    let chunks: Vec<&[FunctionType]> = sigs.chunks(10).collect();
    let call_pols = [fixed(Policy::Forward, A::Forward, false), fixed(Policy::Forward, A::Skip, false), fixed(Policy::Forward, A::AlterArgs, false), fixed(Policy::Forward, A::AlterResults, false), fixed(Policy::Forward, A::Twice, false), Pol::SkipEach(8)];
    mc_common::par(chunks.len() as u64, |c| {
        if ctx.n_violations() > 20 { return; }
        let mut m = w::Module::new();
        for (k, t) in chunks[c as usize].iter().enumerate() { import(&mut m, &format!("i{k}"), *t); }
        let mut seqs = vec![];
        for (k, t) in chunks[c as usize].iter().enumerate() {
            let mut body: Vec<w::Instr> = (0..t.inputs().len() as u32).map(lget).collect();
            body.push(call(k as u32));
            func(&mut m, *t, &[I64], body, &format!("f{k}"));
            for salt in 1..3u64 {
                let args: Vec<u64> = t.inputs().iter().enumerate().map(|(i, t)| { let x = (salt * 97 + i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15); match t { I32 => x >> 32, F32 => x >> 34, F64 => x >> 2, _ => x } }).collect();
                seqs.push((k, vec![(format!("f{k}"), args)]));
            }
        }
        let bytes = m.to_bytes().unwrap();
        one_analysis(&decode(&bytes), &bytes, &program(&["apply"], NAMES, c as usize), Hooks::of(&["apply"]), &call_pols, &seqs, &n, &mut |e, what, d| {
            ctx.violation(&format!("signature {:?}", chunks[c as usize].get(e)), || format!("{what}\n{d}"));
        });
    });
    // Branch tables, whose labels are not their indices.
    let mut tables: Vec<Vec<u32>> = mc_common::sequences(3, 1, if ctx.thorough { 6 } else { 5 }).into_iter().map(|s| s.iter().map(|k| *k as u32).collect()).collect();
    tables.push((0..20).map(|k| (k * 7) % 20).collect());
    ctx.add("branch_tables", 2 * tables.len() as u64);
    let chunks: Vec<&[Vec<u32>]> = tables.chunks(20).collect();
    let table_pols = [fixed(Policy::Forward, A::Forward, false), fixed(Policy::Forward, A::Forward, true), fixed(Policy::Not, A::Forward, false), fixed(Policy::Flip, A::Forward, false)];
    mc_common::par(chunks.len() as u64, |c| {
        if ctx.n_violations() > 20 { return; }
        for value in [false, true] {
            let mut m = w::Module::new();
            let mut seqs = vec![];
            for (k, t) in chunks[c as usize].iter().enumerate() {
                func(&mut m, FunctionType::new(&[I32], &[I32]), &[], core_mc::structure::branch_table_body(&t[1..], t[0], value), &format!("f{k}"));
                seqs.extend((0..t.len() as u64 + 1).chain([0x7fff_ffff, 0x8000_0000, 0xffff_ffff]).map(|a| (k, vec![(format!("f{k}"), vec![a])])));
            }
            let bytes = m.to_bytes().unwrap();
            for groups in [vec!["br_table"], vec!["br_table", "block_pre", "block_post"]] {
                one_analysis(&decode(&bytes), &bytes, &program(&groups, NAMES, c as usize), Hooks::of(&groups), &table_pols, &seqs, &n, &mut |e, what, d| {
                    ctx.violation(&format!("branch table {:?}", chunks[c as usize].get(e)), || format!("{what}\n{d}"));
                });
            }
        }
    });
    // Names.
    {
        let f = families::ifs(3);
        let all = f.all();
        let refs: Vec<&[w::Instr]> = all.iter().rev().take(8).map(|b| b.as_slice()).collect();
        let m = f.module(&refs);
        let bytes = m.to_bytes().unwrap();
        let seqs: Vec<_> = (0..refs.len()).flat_map(|i| f.inputs.iter().map(move |x| (i, vec![(format!("f{i}"), x.clone())]))).collect();
        names(ctx, &decode(&bytes), &bytes, &seqs, &n);
    }
    for (k, v) in [("instrumented_modules", &n.modules), ("evaluations", &n.runs), ("distinct_nontrivial", &n.nontrivial), ("events_compared", &n.events), ("instructions_interpreted", &n.steps), ("analyses_compiled", &n.analyses)] {
        ctx.add(k, v.load(Ordering::Relaxed));
    }
    ctx.set("advice", json!(ADVICE));
    ctx.set("exhaustive", json!(true));
    ctx.set("rule", json!("an evaluation is one run of one program of the families below with one analysis (generated from WASP and compiled), one input and one policy of answers, compared with the reference; no two agree in all four; non-trivial if the program executes an instruction and an event is reported"));
    for s in n.samples.lock().unwrap().drain(..) {
        ctx.sample(s);
    }
    ctx.sample(json!({"analysis": program(&["if_then_else"], NAMES, 0)}));
}
