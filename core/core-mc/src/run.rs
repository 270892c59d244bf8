//! Explores families of programs: every body, every hook set, every input, every policy of a plan.
use crate::driver::*;
use crate::gen::*;
use crate::model::*;
use mc_common::Ctx;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use wasabi_wasm as w;
use wasabi_wasm::Instr;

#[derive(Clone, Copy, Debug)]
pub enum Pol {
    Fixed(Policy, ApplyPolicy),
    /// One run per event of the forwarding run, at most so many.
    TrapAtEach(u32),
    FlipEach(u32),
    NotEach(u32),
    SkipEach(u32),
}
pub const FORWARD: Pol = Pol::Fixed(Policy::Forward, ApplyPolicy::Forward);
pub const FLIP: Pol = Pol::Fixed(Policy::Flip, ApplyPolicy::Forward);
pub const NOT: Pol = Pol::Fixed(Policy::Not, ApplyPolicy::Forward);

#[derive(Clone)]
pub struct Plan {
    pub hooks: Vec<Hooks>,
    pub policies: Vec<Pol>,
    pub compare: Compare,
    /// Selections of functions; `None` selects everything.
    pub targets: Vec<Option<Vec<u32>>>,
    pub pack: usize,
    /// Longest recursion.
    pub depth: u32,
    pub fuel: u64,
    /// Whether imports and exports are compared as well.
    pub interfaces: bool,
    pub instrument: Instrument,
}
impl Plan {
    pub fn new(compare: Compare, hooks: Vec<Hooks>, policies: &[Pol]) -> Plan {
        Plan { hooks, policies: policies.to_vec(), compare, targets: vec![None], pack: 24, depth: REF_DEPTH, fuel: REF_FUEL, interfaces: false, instrument }
    }
}
#[derive(Default)]
pub struct Stats {
    pub programs: AtomicU64,
    pub modules: AtomicU64,
    pub instrumented: AtomicU64,
    pub runs: AtomicU64,
    pub events: AtomicU64,
    pub steps: AtomicU64,
    pub trapped: AtomicU64,
    pub limited: AtomicU64,
    pub nontrivial: AtomicU64,
    pub samples: Mutex<Vec<serde_json::Value>>,
}
impl Stats {
    pub fn publish(&self, ctx: &Ctx) {
        for (n, v) in [
            ("programs", &self.programs),
            ("modules", &self.modules),
            ("instrumented_modules", &self.instrumented),
            ("evaluations", &self.runs),
            ("distinct_nontrivial", &self.nontrivial),
            ("events_compared", &self.events),
            ("instructions_interpreted", &self.steps),
            ("runs_ending_in_a_trap", &self.trapped),
            ("runs_cut_at_the_bound", &self.limited),
        ] {
            ctx.add(n, v.load(Ordering::Relaxed));
        }
        for s in self.samples.lock().unwrap().drain(..) {
            ctx.sample(s);
        }
        ctx.set("exhaustive", serde_json::json!(true));
        ctx.set("rule", serde_json::json!("an evaluation is one run of one program of the families below (every valid body up to the stated length), with one set of hooks, one input and one policy of the analysis, compared with the reference; no two agree in all four; it is non-trivial if the program executes an instruction and, where the analysis is compared, reports an event"));
    }
}
pub fn add(a: &AtomicU64, n: u64) {
    a.fetch_add(n, Ordering::Relaxed);
}

/// A difference found: which call sequence, under what.
pub struct Found {
    pub entry: usize,
    pub what: String,
    pub detail: String,
}
/// One module under a plan. `calls(k)` are the call sequences for entry k.
pub fn check_module(
    original: &w::Module,
    plan: &Plan,
    sequences: &[(usize, Vec<(String, Vec<u64>)>)],
    st: &Stats,
    found: &mut dyn FnMut(Found) -> bool,
) {
    let bytes = original.to_bytes().expect("encodes");
    if let Err(e) = validate(&bytes) {
        panic!("the generator made an invalid module: {e}\n{}", wat(&bytes));
    }
    let m = decode(&bytes);
    add(&st.modules, 1);
    for targets in &plan.targets {
        let mut r = reference(&m, Hooks::NONE, targets.as_deref(), Policy::Forward, ApplyPolicy::Forward);
        for hooks in &plan.hooks {
            add(&st.instrumented, 1);
            let ctx_of = |what: &str| format!("{what}\nhooks: {}\ntarget indices: {targets:?}\noriginal:\n{}", hooks.describe(), wat(&bytes));
            let out = match (plan.instrument)(&bytes, hooks.interface(), targets.clone(), None) {
                Ok(o) => o,
                Err(e) => {
                    found(Found { entry: usize::MAX, what: format!("instrumenting failed: {e}"), detail: ctx_of(&e) });
                    return;
                }
            };
            if let Err(e) = validate(&out.target) {
                found(Found { entry: usize::MAX, what: format!("the instrumented module is invalid: {e}"), detail: ctx_of(&e) });
                return;
            }
            if let Some(e) = out.lib.as_ref().and_then(|l| validate(l).err()) {
                found(Found { entry: usize::MAX, what: format!("the instrumentation library is invalid: {e}"), detail: ctx_of(&e) });
                return;
            }
            if plan.interfaces {
                if let Some(d) = crate::structure::interface_difference(&m, &decode(&out.target)) {
                    found(Found { entry: usize::MAX, what: d.clone(), detail: ctx_of(&d) });
                    return;
                }
            }
            if plan.compare != Compare::Program {
                // The reference speaks for the analysis; otherwise it is the original on its own.
                if m.start.is_some() {
                    r = reference(&m, *hooks, targets.as_deref(), Policy::Forward, ApplyPolicy::Forward);
                }
                r.emb.hooks = *hooks;
            }
            let mut u = match under_test(&m, &out, *hooks, Policy::Forward, ApplyPolicy::Forward) {
                Ok(u) => u,
                Err(e) => {
                    found(Found { entry: usize::MAX, what: e.clone(), detail: ctx_of(&e) });
                    return;
                }
            };
            if let Some(d) = differ(&r.start, &u.start, plan.compare).or(u.emb.undecodable.take()) {
                found(Found { entry: usize::MAX, what: format!("instantiation: {d}"), detail: ctx_of(&d) });
                return;
            }
            for (entry, calls) in sequences {
                let calls: Vec<(&str, &[u64])> = calls.iter().map(|(n, a)| (n.as_str(), a.as_slice())).collect();
                let mut one = |policy: Policy, apply: ApplyPolicy| -> Option<u32> {
                    let a = r.run(&calls, policy, apply, plan.fuel, plan.depth, 5000);
                    let (fuel, depth, mut events) = limits(&a, plan.fuel, plan.depth);
                    if plan.compare == Compare::Program {
                        events = u32::MAX;
                    }
                    let b = u.run(&calls, policy, apply, fuel, depth, events);
                    let nth = st.runs.fetch_add(1, Ordering::Relaxed);
                    add(&st.nontrivial, u64::from(a.executed > 0 && (plan.compare == Compare::Program || a.events() > 0)));
                    if nth > 3 && nth.is_power_of_two() && nth.trailing_zeros() % 2 == 0 {
                        let body = m.functions.iter().find(|f| f.export.iter().any(|e| e == calls[0].0)).and_then(|f| f.code());
                        let body: String = body.map(|c| body_text(&c.body)).unwrap_or_default().chars().take(300).collect();
                        let hooks: String = hooks.describe().chars().take(120).collect();
                        let mut events = describe_trace(&a.trace, &a.marks);
                        events.truncate(8);
                        st.samples.lock().unwrap().push(serde_json::json!({
                            "body": body, "calls": format!("{calls:x?}"), "hooks": hooks, "policy": format!("{policy:?}, apply {apply:?}"),
                            "results": format!("{:x?}", a.results), "first_events": events,
                        }));
                    }
                    add(&st.events, a.events() as u64);
                    add(&st.steps, a.executed + b.executed);
                    add(&st.limited, u64::from(a.limited));
                    add(&st.trapped, u64::from(!a.limited && a.results.last().is_some_and(|r| r.is_err())));
                    if let Some(d) = u.emb.undecodable.take().or_else(|| differ(&a, &b, plan.compare)) {
                        let detail = format!(
                            "{d}\ncalls: {calls:x?}\nhooks: {}\npolicy: {policy:?}, apply {apply:?}\ntarget indices: {targets:?}\nexpected results {:x?}, got {:x?}\nexpected events:\n  {}\nevents of the instrumented module:\n  {}\noriginal:\n{}\ninstrumented:\n{}",
                            hooks.describe(), a.results, b.results,
                            describe_trace(&a.trace, &a.marks).join("\n  "),
                            describe_trace(&b.trace, &b.marks).join("\n  "),
                            wat(&bytes), wat(&out.target),
                        );
                        if !found(Found { entry: *entry, what: d, detail }) {
                            return None;
                        }
                    }
                    Some(if a.limited { 0 } else { a.events() as u32 })
                };
                for p in &plan.policies {
                    let go = match p {
                        Pol::Fixed(p, a) => one(*p, *a).is_some(),
                        Pol::TrapAtEach(n) | Pol::FlipEach(n) | Pol::NotEach(n) | Pol::SkipEach(n) => {
                            match one(Policy::Forward, ApplyPolicy::Forward) {
                                None => false,
                                Some(events) => (0..events.min(*n)).all(|k| {
                                    match p {
                                        Pol::TrapAtEach(_) => one(Policy::TrapAt(k), ApplyPolicy::Forward),
                                        Pol::FlipEach(_) => one(Policy::FlipNth(k), ApplyPolicy::Forward),
                                        Pol::NotEach(_) => one(Policy::NotNth(k), ApplyPolicy::Forward),
                                        _ => one(Policy::Forward, ApplyPolicy::SkipAt(k)),
                                    }
                                    .is_some()
                                }),
                            }
                        }
                    };
                    if !go {
                        return;
                    }
                }
            }
        }
    }
}

pub fn body_text(b: &[Instr]) -> String {
    b.iter().map(|i| format!("{i:?}")).collect::<Vec<_>>().join("; ")
}
/// Every body of a family, packed into modules.
pub fn explore(ctx: &Ctx, fam: &Family, plan: &Plan, st: &Stats) {
    let bodies = fam.all();
    explore_bodies(ctx, fam, &bodies, plan, st);
    ctx.set(
        &format!("family {}", fam.name),
        serde_json::json!({
            "palette": fam.palette.iter().map(|i| format!("{i:?}")).collect::<Vec<_>>(),
            "max_instructions": fam.len, "valid_bodies": bodies.len(),
            "inputs": fam.inputs.len(), "hook_sets": plan.hooks.len(), "policies": format!("{:?}", plan.policies),
        }),
    );
}
pub fn explore_bodies(ctx: &Ctx, fam: &Family, bodies: &[Vec<Instr>], plan: &Plan, st: &Stats) {
    add(&st.programs, bodies.len() as u64);
    let chunks: Vec<&[Vec<Instr>]> = bodies.chunks(plan.pack).collect();
    let reported: Mutex<std::collections::HashSet<String>> = Default::default();
    let sequences = |n: usize| -> Vec<(usize, Vec<(String, Vec<u64>)>)> {
        (0..n).flat_map(|i| fam.inputs.iter().map(move |a| (i, vec![(format!("f{i}"), a.clone())]))).collect()
    };
    let one = |body: &Vec<Instr>| {
        let m = fam.module(&[body]);
        check_module(&m, plan, &sequences(1), st, &mut |f| {
            let key = format!("{}: {}", fam.name, body_text(body));
            if reported.lock().unwrap().insert(key.clone()) {
                ctx.violation(&key, || format!("{}\n{}", f.what, f.detail));
            }
            false
        });
    };
    mc_common::par(chunks.len() as u64, |c| {
        if ctx.n_violations() > 30 {
            return;
        }
        let chunk = chunks[c as usize];
        let refs: Vec<&[Instr]> = chunk.iter().map(|b| b.as_slice()).collect();
        let m = fam.module(&refs);
        let mut bad = vec![];
        let mut whole = None;
        check_module(&m, plan, &sequences(chunk.len()), st, &mut |f| {
            if f.entry == usize::MAX {
                whole = Some(f);
            } else if !bad.contains(&f.entry) {
                bad.push(f.entry);
            }
            bad.len() < 4
        });
        if let Some(f) = whole {
            // which body?
            let before = ctx.n_violations();
            chunk.iter().for_each(one);
            if ctx.n_violations() == before {
                ctx.violation(&format!("{}: a module of {} functions", fam.name, chunk.len()), || format!("{}\n{}", f.what, f.detail));
            }
        }
        for b in bad {
            let before = ctx.n_violations();
            one(&chunk[b]);
            if ctx.n_violations() == before {
                ctx.violation(&format!("{}: function {b} of a module of {}: {}", fam.name, chunk.len(), body_text(&chunk[b])), || {
                    "only in a module with the other functions of its pack".into()
                });
            }
        }
    });
}
/// The groups of hooks that some instruction of the palette concerns.
pub fn relevant(fam: &Family) -> Vec<&'static str> {
    let mut g: Vec<&'static str> = vec!["apply"];
    for i in &fam.palette {
        let more: &[&'static str] = match i {
            Instr::Block(_) => &["block_pre", "block_post"],
            Instr::Loop(_) => &["loop_pre", "loop_post"],
            Instr::If(_) => &["if_then", "if_then_post", "if_then_else", "if_then_else_post"],
            Instr::Br(_) => &["br"],
            Instr::BrIf(_) => &["br_if"],
            Instr::BrTable { .. } => &["br_table"],
            Instr::Return => &["return"],
            Instr::Call(_) => &["call_pre", "call_post"],
            Instr::CallIndirect(..) => &["call_indirect_pre", "call_indirect_post"],
            Instr::Drop => &["drop"],
            Instr::Select | Instr::TypedSelect(_) => &["select"],
            Instr::Const(_) => &["const"],
            Instr::Unary(_) => &["unary"],
            Instr::Binary(_) => &["binary"],
            Instr::Local(..) => &["local"],
            Instr::Global(..) => &["global"],
            Instr::Load(..) => &["load"],
            Instr::Store(..) => &["store"],
            Instr::MemorySize(_) => &["memory_size"],
            Instr::MemoryGrow(_) => &["memory_grow"],
            _ => &[],
        };
        for m in more {
            if !g.contains(m) {
                g.push(m);
            }
        }
    }
    g
}
/// Everything but one group.
pub fn without(groups: &[&str]) -> Vec<Hooks> {
    groups.iter().map(|g| Hooks(Hooks::all().0 & !Hooks::of(&[g]).0)).collect()
}
/// Every group of hooks on its own.
pub fn alone(groups: &[&str]) -> Vec<Hooks> {
    groups.iter().map(|g| Hooks::of(&[g])).collect()
}
pub fn group_pairs(groups: &[&str]) -> Vec<Hooks> {
    let mut v = vec![];
    for i in 0..groups.len() {
        for j in 0..i {
            v.push(Hooks::of(&[groups[i], groups[j]]));
        }
    }
    v
}
/// Every hook on its own.
pub fn singles(groups: &[&str]) -> Vec<Hooks> {
    (0..N_HOOKS).filter(|h| groups.contains(&hook(*h).group)).map(Hooks::one).collect()
}
