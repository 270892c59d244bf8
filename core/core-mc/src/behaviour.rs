//! C20-C23, C25, C26, C30: what instrumented modules do.
use crate::driver::*;
use crate::families::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use mc_common::Ctx;
use serde_json::json;
use wasabi_wasm as w;
use wasabi_wasm::{BinaryOp, FunctionType, Instr, LoadOp, StoreOp, ValType};
use ValType::{F32, F64, I32, I64};

const TRUSTED: &[&str] = &[
    "The crates wasabi_wasm, wasm-merge (recording) and asc-compiler-rs are stand-ins under /verif/core: the real ones cannot be fetched. The crates wastrumentation and the WebAssembly language crate are built from /repo.",
    "Execution is by the interpreter under /verif/core/interp, which the check of C20 compares with V8.",
    "Every branch of one br_table has the same label types (wasabi's type checker supports no other).",
];
pub fn assume(ctx: &Ctx) {
    for t in TRUSTED {
        ctx.assume(t);
    }
}
/// Small modules with many call sequences, split over the cores.
fn explore_sequences(ctx: &Ctx, name: &str, m: &w::Module, seqs: &Sequences, plan: &Plan, st: &Stats) {
    let parts = 16usize;
    mc_common::par(parts as u64, |p| {
        let mine: Sequences = seqs.iter().enumerate().filter(|(i, _)| i % parts == p as usize).map(|(_, s)| s.clone()).collect();
        let mut n = 0;
        check_module(m, plan, &mine, st, &mut |f| {
            n += 1;
            let key = match mine.iter().find(|s| s.0 == f.entry) {
                Some(s) => format!("{name}: {:?}", s.1.iter().map(|c| &c.0).collect::<Vec<_>>()),
                None => name.to_string(),
            };
            ctx.violation(&key, || format!("{}\n{}", f.what, f.detail));
            n < 3
        });
    });
    ctx.set(&format!("sequences {name}"), json!({"call_sequences": seqs.len(), "hook_sets": plan.hooks.len(), "policies": format!("{:?}", plan.policies)}));
}

type Build = fn(usize) -> Family;
/// (family, quick length, thorough length)
const FAMILIES: &[(Build, usize, usize)] = &[
    (blocks, 6, 7),
    (ifs, 6, 7),
    (tables, 6, 7),
    (nests, 8, 10),
    (variables, 5, 6),
    (calls, 5, 6),
    (recursion, 6, 7),
    (references, 4, 5),
    (mixed, 4, 5),
    (multi, 6, 8),
    (typed_i32, 5, 6),
    (typed_f32, 5, 6),
    (typed_i64, 5, 6),
    (typed_f64, 5, 6),
];
fn at_most(a: Vec<Hooks>) -> Vec<Hooks> {
    let mut v: Vec<Hooks> = vec![];
    for h in a {
        if !v.contains(&h) {
            v.push(h);
        }
    }
    v
}
/// The hook sets for the longest bodies and the richer ones for the shorter ones.
fn hook_sets(f: &Family, level: usize) -> Vec<Hooks> {
    let g = relevant(f);
    let mut v = vec![Hooks::all(), Hooks::traps()];
    if level >= 1 {
        v.push(Hooks::NONE);
        v.extend(alone(&g));
    }
    if level >= 2 {
        v.extend(without(&g));
        v.extend(group_pairs(&g));
    }
    at_most(v)
}
pub fn times(ctx: &Ctx, f: &Family, bodies: usize, plan: &Plan, since: f64) {
    if std::env::var_os("CORE_MC_TIMES").is_some() {
        eprintln!("{} {}: {bodies} bodies, {} hook sets: {:.1} s", f.name, f.len, plan.hooks.len(), ctx.elapsed() - since);
    }
}
fn over_families(ctx: &Ctx, st: &Stats, compare: Compare, policies: &[Pol], shorter: usize) {
    for (build, quick, thorough) in FAMILIES {
        let len = if ctx.thorough { *thorough } else { *quick };
        for (level, less) in [(0, 0), (1, 1), (2, 2)] {
            let Some(l) = len.checked_sub(less + shorter).filter(|l| *l > 0) else { continue };
            let f = build(l);
            let plan = Plan::new(compare, hook_sets(&f, level), policies);
            let bodies = f.all();
            let t = ctx.elapsed();
            explore_bodies(ctx, &f, &bodies, &plan, st);
            times(ctx, &f, bodies.len(), &plan, t);
            ctx.set(
                &format!("{} up to {l} instructions", f.name),
                json!({"valid_bodies": bodies.len(), "inputs": f.inputs.len(), "hook_sets": plan.hooks.len(), "policies": policies.len()}),
            );
        }
        let f = build(len);
        ctx.set(&format!("palette of {}", f.name), json!(f.palette.iter().map(|i| format!("{i:?}")).collect::<Vec<_>>()));
    }
}
fn over_operators(ctx: &Ctx, st: &Stats, compare: Compare, policies: &[Pol]) {
    let few = !ctx.thorough;
    let hooks = vec![Hooks::all(), Hooks::of(&["const", "select", "drop"]), Hooks::of(&["unary"]), Hooks::of(&["binary"])];
    let (m, s) = operators(few);
    explore_sequences(ctx, "operators", &m, &s, &Plan::new(compare, hooks, policies), st);
    let hooks = vec![Hooks::all(), Hooks::of(&["load"]), Hooks::of(&["store"])];
    let (m, s) = accesses(few);
    explore_sequences(ctx, "memory accesses", &m, &s, &Plan::new(compare, hooks, policies), st);
    let mem: Vec<Hooks> = [&["memory_grow"][..], &["memory_size"], &["memory_grow", "memory_size", "load", "store"]].iter().map(|g| Hooks::of(g)).collect();
    let mut hooks = vec![Hooks::all()];
    hooks.extend(mem);
    let (m, s) = growing(if few { 3 } else { 4 });
    explore_sequences(ctx, "growing memory", &m, &s, &Plan::new(compare, hooks, policies), st);
}

/// Programs of every size: how deep, how many, how far in.
fn over_sizes(ctx: &Ctx, st: &Stats, compare: Compare, policies: &[Pol]) {
    let t = ctx.elapsed();
    let all = sizes(ctx.thorough);
    let mut groups = GROUPS.to_vec();
    groups.retain(|g| *g != "apply");
    // the largest first: they take longest
    let mut order: Vec<usize> = (0..all.len()).collect();
    order.sort_by_key(|k| std::cmp::Reverse(all[*k].module.functions.len() * 50 + all[*k].module.functions.iter().filter_map(|f| f.code()).map(|c| c.body.len()).sum::<usize>()));
    mc_common::par(all.len() as u64, |k| {
        let s = &all[order[k as usize]];
        let mut hooks = vec![Hooks::all(), Hooks::traps()];
        if s.small {
            hooks.extend(alone(&groups));
        } else if ctx.thorough {
            hooks.extend(groups.chunks(5).map(Hooks::of));
        }
        let mut plan = Plan::new(compare, hooks, policies);
        plan.fuel = 80_000;
        add(&st.programs, 1);
        check_module(&s.module, &plan, &s.sequences, st, &mut |f| {
            let call = s.sequences.iter().find(|q| q.0 == f.entry).map(|q| q.1[0].0.clone()).unwrap_or_default();
            ctx.violation(&format!("{}: {call}", s.name), || format!("{}\n{}", f.what, f.detail.chars().take(20_000).collect::<String>()));
            false
        });
    });
    ctx.set("sizes", json!(all.iter().map(|s| &s.name).collect::<Vec<_>>()));
    if std::env::var_os("CORE_MC_TIMES").is_some() {
        eprintln!("sizes: {} modules: {:.1} s", all.len(), ctx.elapsed() - t);
    }
}

/// Programs with imports, exports, tables, memories, globals, segments, a start function and names of every kind.
fn over_shapes(ctx: &Ctx, st: &Stats, compare: Compare, policies: &[Pol]) {
    let all = crate::structure::shapes(if ctx.thorough { 5 } else { 3 });
    let hooks = at_most([vec![Hooks::all(), Hooks::traps()], alone(GROUPS)].concat());
    let t = ctx.elapsed();
    mc_common::par(all.len() as u64, |k| {
        let (name, m, sequences) = &all[k as usize];
        add(&st.programs, 1);
        check_module(m, &Plan::new(compare, hooks.clone(), policies), sequences, st, &mut |f| {
            ctx.violation(&format!("{name}: {:?}", sequences.get(f.entry)), || format!("{}\n{}", f.what, f.detail));
            false
        });
    });
    ctx.set("module_shapes", json!(all.len()));
    if std::env::var_os("CORE_MC_TIMES").is_some() {
        eprintln!("shapes: {} modules: {:.1} s", all.len(), ctx.elapsed() - t);
    }
}

/// C20: with an analysis that performs and forwards, nothing about the program changes.
pub fn transparent(ctx: &Ctx) {
    assume(ctx);
    let st = Stats::default();
    let t = ctx.elapsed();
    crate::conformance::check(ctx);
    if std::env::var_os("CORE_MC_TIMES").is_some() {
        eprintln!("conformance: {:.1} s", ctx.elapsed() - t);
    }
    over_families(ctx, &st, Compare::Program, &[FORWARD], 0);
    over_operators(ctx, &st, Compare::Program, &[FORWARD]);
    over_sizes(ctx, &st, Compare::Program, &[FORWARD]);
    over_shapes(ctx, &st, Compare::Program, &[FORWARD]);
    st.publish(ctx);
}
/// C21: every executed instruction with an enabled hook, once, in order, with operands and place.
pub fn events(ctx: &Ctx) {
    assume(ctx);
    let st = Stats::default();
    over_families(ctx, &st, Compare::Events, &[FORWARD], 0);
    over_families(ctx, &st, Compare::Events, &[Pol::TrapAtEach(6)], 1);
    over_operators(ctx, &st, Compare::Events, &[FORWARD]);
    over_sizes(ctx, &st, Compare::Events, &[FORWARD]);
    over_shapes(ctx, &st, Compare::Events, &[FORWARD]);
    st.publish(ctx);
}
/// C22: what the analysis answers takes effect exactly there.
pub fn answers(ctx: &Ctx) {
    assume(ctx);
    let st = Stats::default();
    over_families(ctx, &st, Compare::Both, &[FLIP, NOT], 0);
    over_families(ctx, &st, Compare::Both, &[Pol::FlipEach(6), Pol::NotEach(6)], 1);
    over_operators(ctx, &st, Compare::Both, &[FLIP, NOT]);
    over_sizes(ctx, &st, Compare::Both, &[FLIP, NOT]);
    over_shapes(ctx, &st, Compare::Both, &[FLIP, NOT]);
    st.publish(ctx);
}

/// C23: selection of functions.
pub fn selection(ctx: &Ctx) {
    assume(ctx);
    let st = Stats::default();
    // Two imports, functions calling each other in both directions and through a table, one with a reference in
    // its signature, one not exported, one that nothing calls.
    let e = || ft(&[], &[]);
    let ii = || ft(&[I32], &[I32]);
    let build = |start: bool| {
        let mut m = w::Module::new();
        let a = import(&mut m, "a", ii());
        let b = import(&mut m, "b", e());
        global(&mut m, I32, true, 3);
        let inner = func(&mut m, ii(), &[], vec![lget(0), call(a), gget(0), Instr::Binary(BinaryOp::I32Add)], "");
        let outer = func(&mut m, ii(), &[I32], vec![lget(0), call(inner), ltee(1), call(a), lget(1), Instr::Binary(BinaryOp::I32Xor)], "outer");
        func(&mut m, ft(&[ValType::Ref(w::RefType::FuncRef), I32], &[I32]), &[], vec![lget(1), call(inner)], "reference");
        let t = table(&mut m, w::RefType::FuncRef, 4, Some(4));
        elements(&mut m, t, 0, &[Some(a), Some(inner), Some(outer), None]);
        func(&mut m, ii(), &[], vec![c32(5), lget(0), Instr::CallIndirect(ii(), 0u32.into())], "indirect");
        let give = func(&mut m, ft(&[I32], &[ValType::Ref(w::RefType::FuncRef)]), &[], vec![lget(0), call(a), Instr::Drop, Instr::RefNull(w::RefType::FuncRef)], "");
        let bump = func(&mut m, e(), &[], vec![c32(8), call(give), Instr::Drop, call(b), gget(0), c32(1), Instr::Binary(BinaryOp::I32Add), gset(0)], "bump");
        if start {
            m.start = Some(bump.into());
        }
        m
    };
    let seqs: Sequences = vec![
        (0, vec![("outer".into(), vec![4])]),
        (1, vec![("bump".into(), vec![]), ("outer".into(), vec![1]), ("bump".into(), vec![])]),
        (2, vec![("reference".into(), vec![u64::MAX, 9])]),
        (3, vec![("indirect".into(), vec![0])]),
        (3, vec![("indirect".into(), vec![1])]),
        (3, vec![("indirect".into(), vec![2])]),
        (3, vec![("indirect".into(), vec![3])]),
    ];
    let mut targets: Vec<Option<Vec<u32>>> = vec![None];
    let n = build(false).functions.len() as u32;
    for set in 0..1u32 << n {
        let mut t: Vec<u32> = (0..n).filter(|i| set >> i & 1 == 1).collect();
        targets.push(Some(t.clone()));
        if ctx.thorough || set.count_ones() <= 3 {
            // reversed, with duplicates and indices that do not exist
            t.reverse();
            t.extend(t.clone());
            t.extend([n, n + 7, u32::MAX]);
            // indices that differ from those of the other functions in their upper half only
            t.extend((0..n).filter(|k| set >> k & 1 == 0).flat_map(|k| [k + (1 << 8), k + (1 << 16), k + (1 << 31)]));
            targets.push(Some(t));
        }
    }
    let mut hooks = vec![Hooks::all(), Hooks::traps(), Hooks::of(&["apply"]), Hooks::of(&["call_pre", "local"])];
    hooks.extend(alone(GROUPS));
    if ctx.thorough {
        hooks.extend(without(GROUPS));
    }
    for start in [false, true] {
        let m = build(start);
        mc_common::par(targets.len() as u64, |k| {
            let mut plan = Plan::new(Compare::Both, hooks.clone(), &[FORWARD, NOT]);
            plan.targets = vec![targets[k as usize].clone()];
            check_module(&m, &plan, &seqs, &st, &mut |f| {
                ctx.violation(&format!("functions {:?} start {start}: {:?}", targets[k as usize], seqs.get(f.entry)), || format!("{}\n{}", f.what, f.detail));
                false
            });
        });
    }
    ctx.add("selections", targets.len() as u64);
    // Few functions of many.
    let many = 66_000u32;
    let some = [0u32, 5, 127, 128, 255, 256, 261, 511, 32_768 + 5, 65_535, 65_536, 65_541];
    let mut m = w::Module::new();
    for k in 0..many {
        let named = if some.contains(&k) { format!("f{k}") } else { String::new() };
        func(&mut m, ft(&[], &[I32]), &[], vec![c32(k as i32)], &named);
    }
    let seqs: Sequences = some.iter().enumerate().map(|(j, k)| (j, vec![(format!("f{k}"), vec![]), (format!("f{}", some[(j + 3) % some.len()]), vec![])])).collect();
    let mut targets: Vec<Option<Vec<u32>>> = some.iter().map(|k| Some(vec![*k])).collect();
    targets.push(Some(some.iter().copied().step_by(2).collect()));
    targets.push(Some(some.iter().rev().copied().step_by(3).collect()));
    mc_common::par(targets.len() as u64, |k| {
        let mut plan = Plan::new(Compare::Both, vec![Hooks::all()], &[FORWARD, NOT]);
        plan.targets = vec![targets[k as usize].clone()];
        check_module(&m, &plan, &seqs, &st, &mut |f| {
            ctx.violation(&format!("of {many} functions {:?}: {:?}", targets[k as usize], seqs.get(f.entry)), || f.what);
            false
        });
    });
    ctx.add("selections", targets.len() as u64);
    // Families, with the explored function and its callees selected or not.
    for (build, len) in [(calls as Build, if ctx.thorough { 5 } else { 4 }), (recursion, if ctx.thorough { 6 } else { 5 })] {
        let f = build(len);
        let bodies = f.all();
        let own = f.env.funcs.len() as u32;
        let pack = 12u32;
        let odd: Vec<u32> = (own..own + pack).filter(|i| i % 2 == 1).collect();
        let with = |v: &[u32]| Some(odd.iter().chain(v).copied().collect::<Vec<u32>>());
        let mut plan = Plan::new(Compare::Both, vec![Hooks::all(), Hooks::traps()], &[FORWARD, NOT]);
        plan.pack = pack as usize;
        plan.targets = vec![with(&[]), with(&[0]), with(&[2, 5]), with(&[1, 3, 4]), Some(vec![0, 2]), Some(vec![1, 3, 5])];
        explore_bodies(ctx, &f, &bodies, &plan, &st);
    }
    st.publish(ctx);
}

fn all_types(max: usize) -> Vec<Vec<ValType>> {
    let t = [I32, F32, I64, F64];
    mc_common::sequences(4, 0, max).into_iter().map(|s| s.iter().map(|k| t[*k]).collect()).collect()
}
fn arguments(t: &[ValType], salt: u64) -> Vec<u64> {
    t.iter()
        .enumerate()
        .map(|(i, t)| {
            let x = 0x8182_8384_8586_8788u64.rotate_left(8 * i as u32 + 1).wrapping_add(salt.wrapping_mul(0x0101_0101_0101_0103) + i as u64);
            match t {
                I32 => x & 0xffff_ffff,
                F32 => (x & 0xffff_ffff) | if salt == 2 { 0x7f80_0000 } else { 0 },
                _ => x,
            }
        })
        .collect()
}
/// C25: interception of applications, for every signature.
pub fn application(ctx: &Ctx) {
    assume(ctx);
    application_with(ctx, instrument, if ctx.thorough { (4, 3) } else { (3, 2) }, if ctx.thorough { (5, 6) } else { (4, 5) });
}
/// Up to p parameters and r results; bodies up to (calls, recursion) instructions.
pub fn application_with(ctx: &Ctx, instrument: Instrument, (p, r): (usize, usize), lens: (usize, usize)) {
    let st = Stats::default();
    let mut sigs: Vec<FunctionType> = vec![];
    for i in all_types(p) {
        for o in all_types(r) {
            if i.len() + o.len() <= p + 1 {
                sigs.push(FunctionType::new(&i, &o));
            }
        }
    }
    // longer ones: of one type only, and of all types by turns
    let turns = [I32, F32, I64, F64];
    let most = if ctx.thorough { 17 } else { 9 };
    for a in 0..=most {
        for b in (0..=most).filter(|b| a + b > p + 1 || *b > r || a > p) {
            for k in 0..5 {
                let list = |n: usize, from: usize| (0..n).map(|i| if k < 4 { turns[k] } else { turns[(i + from) % 4] }).collect::<Vec<_>>();
                sigs.push(FunctionType::new(&list(a, 0), &list(b, 1)));
            }
        }
    }
    ctx.add("signatures", sigs.len() as u64);
    use ApplyPolicy as A;
    let fixed = |a| Pol::Fixed(Policy::Forward, a);
    let policies = [fixed(A::Forward), fixed(A::Skip), fixed(A::AlterArgs), fixed(A::AlterResults), fixed(A::Twice), Pol::SkipEach(8)];
    let chunks: Vec<&[FunctionType]> = sigs.chunks(10).collect();
    mc_common::par(chunks.len() as u64, |c| {
        if ctx.n_violations() > 20 {
            return;
        }
        let chunk = chunks[c as usize];
        let mut m = w::Module::new();
        for (k, t) in chunk.iter().enumerate() {
            import(&mut m, &format!("i{k}"), *t);
        }
        let mut seqs: Sequences = vec![];
        for (k, t) in chunk.iter().enumerate() {
            let get = |n: usize| (0..n as u32).map(lget).collect::<Vec<_>>();
            // Calls the import, lets it pass its results on; and once more through a second function.
            let mut body = get(t.inputs().len());
            body.push(call(k as u32));
            let one = func(&mut m, *t, &[I64], body, &format!("one {k}"));
            let mut body = get(t.inputs().len());
            body.push(call(one));
            body.extend(t.results().iter().map(|_| Instr::Drop));
            body.extend(get(t.inputs().len()));
            body.push(call(one));
            func(&mut m, *t, &[], body, &format!("two {k}"));
            for salt in 1..3 {
                seqs.push((k, vec![(format!("one {k}"), arguments(t.inputs(), salt)), (format!("two {k}"), arguments(t.inputs(), salt + 2))]));
            }
        }
        let mut plan = Plan::new(Compare::Both, vec![Hooks::of(&["apply"]), Hooks::of(&["apply", "local", "call_pre", "call_post"])], &policies);
        plan.depth = 40;
        plan.instrument = instrument;
        check_module(&m, &plan, &seqs, &st, &mut |f| {
            ctx.violation(&format!("signature {:?}", chunk.get(f.entry)), || format!("{}\n{}", f.what, f.detail));
            false
        });
        if c < 3 {
            ctx.sample(json!({"signatures": chunk.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>(), "calls": format!("{:x?}", seqs[0])}));
        }
    });
    // Functions of every kind calling each other, under every policy.
    for (build, len) in [(calls as Build, lens.0), (recursion, lens.1)] {
        let f = build(len);
        let bodies = f.all();
        let mut plan = Plan::new(Compare::Both, vec![Hooks::of(&["apply"]), Hooks::all()], &policies);
        plan.instrument = instrument;
        explore_bodies(ctx, &f, &bodies, &plan, &st);
    }
    deep(ctx, &st, instrument);
    st.publish(ctx);
    balanced(ctx, instrument);
}
/// Recursions whose buffers fill more than one page of the library's memory.
fn deep(ctx: &Ctx, st: &Stats, instrument: Instrument) {
    let types = [I32, F32, I64, F64];
    let cases: &[(usize, usize)] = if ctx.thorough { &[(1, 1), (7, 3), (40, 2), (90, 5), (300, 1), (0, 40), (900, 90)] } else { &[(1, 1), (40, 2), (300, 1), (0, 40)] };
    mc_common::par(cases.len() as u64, |k| {
        let (p, r) = cases[k as usize];
        let mut sig: Vec<ValType> = vec![I32];
        sig.extend((0..p).map(|i| types[i % 4]));
        let res: Vec<ValType> = (0..r).map(|i| types[(i + 1) % 4]).collect();
        let t = FunctionType::new(&sig, &res);
        let mut m = w::Module::new();
        let imp = import(&mut m, "leaf", t);
        let me = m.functions.len() as u32;
        let mut body = vec![lget(0), Instr::If(FunctionType::new(&[], &res)), lget(0), c32(-1), Instr::Binary(BinaryOp::I32Add)];
        body.extend((1..sig.len() as u32).map(lget));
        body.push(call(me));
        body.push(Instr::Else);
        body.extend((0..sig.len() as u32).map(lget));
        body.push(call(imp));
        body.push(Instr::End);
        func(&mut m, t, &[], body, "deep");
        let bytes = 12 * (sig.len() + res.len()) as u64;
        let mut depths = vec![0, 1, 65536 / bytes - 1, 65536 / bytes, 65536 / bytes + 1];
        if ctx.thorough {
            depths.push(3 * 65536 / bytes);
        }
        depths.retain(|d| *d < 3000);
        let seqs: Sequences = depths
            .iter()
            .map(|d| {
                let mut a = arguments(&sig, 1);
                a[0] = *d;
                (k as usize, vec![("deep".to_string(), a.clone()), ("deep".to_string(), a)])
            })
            .collect();
        let hooks = vec![Hooks::of(&["apply"])];
        use ApplyPolicy as A;
        let mut plan = Plan::new(Compare::Both, hooks, &[FORWARD, Pol::Fixed(Policy::Forward, A::AlterResults)]);
        plan.fuel = 40_000_000;
        plan.depth = 4000;
        plan.instrument = instrument;
        check_module(&m, &plan, &seqs, st, &mut |f| {
            ctx.violation(&format!("recursion with {p}+1 parameters and {r} results"), || format!("{}\n{}", f.what, f.detail.chars().take(4000).collect::<String>()));
            false
        });
        ctx.set(&format!("recursion with {} parameters and {r} results", p + 1), json!({"depths": depths, "bytes_per_level": bytes}));
    });
}
/// However many calls come and go, the library does not need more memory.
fn balanced(ctx: &Ctx, instrument: Instrument) {
    let types = [I32, F32, I64, F64];
    let rounds = if ctx.thorough { 40_000 } else { 9_000 };
    let mut sigs: Vec<FunctionType> = vec![];
    for i in 0..4usize {
        for o in 0..3usize {
            let a: Vec<ValType> = (0..i).map(|k| types[(k + o) % 4]).collect();
            let b: Vec<ValType> = (0..o).map(|k| types[(k + i) % 4]).collect();
            sigs.push(FunctionType::new(&a, &b));
        }
    }
    mc_common::par(sigs.len() as u64, |k| {
        let t = sigs[k as usize];
        let mut m = w::Module::new();
        let body: Vec<Instr> = t.results().iter().map(|t| konst(*t, 1)).collect();
        let f = func(&mut m, t, &[], body, "f");
        // a loop around the call
        let mut body = vec![Instr::Loop(ft(&[], &[]))];
        body.extend(t.inputs().iter().map(|t| konst(*t, 2)));
        body.push(call(f));
        body.extend(t.results().iter().map(|_| Instr::Drop));
        body.extend([lget(0), c32(-1), Instr::Binary(BinaryOp::I32Add), ltee(0), br_if(0), Instr::End]);
        func(&mut m, ft(&[I32], &[]), &[], body, "many");
        let bytes = m.to_bytes().unwrap();
        let m = decode(&bytes);
        let Ok(out) = instrument(&bytes, Hooks::of(&["apply"]).interface(), None, None) else { return };
        let Ok(mut u) = under_test(&m, &out, Hooks::of(&["apply"]), Policy::Forward, ApplyPolicy::Forward) else { return };
        u.emb.party.digest = false;
        let size = |u: &Side<UnderTest>| u.store.mems.iter().map(|m| m.data.len()).sum::<usize>();
        u.run(&[("many", &[1])], Policy::Forward, ApplyPolicy::Forward, u64::MAX, 1000, u32::MAX);
        let before = size(&u);
        let o = u.run(&[("many", &[rounds])], Policy::Forward, ApplyPolicy::Forward, u64::MAX, 1000, u32::MAX);
        let after = size(&u);
        ctx.add("balanced_calls", rounds);
        if o.results != vec![Ok(vec![])] || o.events() != rounds as usize + 1 {
            ctx.violation(&format!("{rounds} calls of {t:?}"), || format!("{:?}, {} events", o.results, o.events()));
        }
        if after != before {
            ctx.violation(&format!("{rounds} calls of {t:?}"), || {
                format!("the instrumentation library needs {before} bytes at first and {after} after {rounds} calls that all returned\n{}", wat(&bytes))
            });
        }
    });
}

fn importing(mut m: w::Module) -> w::Module {
    m.memories[0].import = Some(("env".into(), "the memory".into()));
    m
}
/// C30: the exported base operations.
pub fn base_memory(ctx: &Ctx) {
    assume(ctx);
    let st = Stats::default();
    // every load and store, through the analysis, against the original instruction
    let (m, s) = accesses(false);
    let hooks = vec![Hooks::of(&["load"]), Hooks::of(&["store"]), Hooks::of(&["load", "store"]), Hooks::all()];
    explore_sequences(ctx, "memory accesses", &m, &s, &Plan::new(Compare::Both, hooks, &[FORWARD]), &st);
    let (m, s) = accesses(true);
    let m = importing(m);
    explore_sequences(ctx, "accesses of an imported memory", &m, &s, &Plan::new(Compare::Both, vec![Hooks::of(&["load", "store"]), Hooks::all()], &[FORWARD]), &st);
    let mut hooks = vec![Hooks::all()];
    hooks.extend(alone(&["memory_grow", "memory_size", "load", "store"]));
    hooks.extend(without(&["memory_grow", "memory_size", "load", "store"]));
    let (m, s) = growing(if ctx.thorough { 6 } else { 5 });
    explore_sequences(ctx, "growing memory", &m, &s, &Plan::new(Compare::Both, hooks.clone(), &[FORWARD]), &st);
    let (m, s) = growing(3);
    explore_sequences(ctx, "growing imported memory", &importing(m), &s, &Plan::new(Compare::Both, hooks, &[FORWARD]), &st);
    // the exports themselves, in modules with a memory of every shape and without
    let shapes: &[Option<(u32, Option<u32>)>] = &[None, Some((0, Some(0))), Some((0, Some(1))), Some((1, Some(1))), Some((1, None)), Some((2, Some(3)))];
    for (shape, imported) in shapes.iter().flat_map(|s| [(s, false), (s, true)]) {
        if imported && shape.is_none() {
            continue;
        }
        for hooks in [Hooks::NONE, Hooks::all(), Hooks::of(&["apply"])] {
            let mut m = w::Module::new();
            if let Some((a, b)) = shape {
                memory(&mut m, *a, *b);
                if *a > 0 {
                    for at in [0i32, *a as i32 * 65536 - 24] {
                        m.datas.push(w::Data {
                            init: (0..24u8).map(|k| k.wrapping_mul(53) ^ 0x91).collect(),
                            mode: w::DataMode::Active { memory: 0u32.into(), offset: vec![c32(at), Instr::End] },
                        });
                    }
                }
            }
            func(&mut m, ft(&[], &[]), &[], vec![], "nothing");
            if imported {
                m = importing(m);
            }
            let shape_name = format!("{shape:?}{}", if imported { ", imported" } else { "" });
            let bytes = m.to_bytes().unwrap();
            let out = match instrument(&bytes, hooks.interface(), None, None) {
                Ok(o) => o,
                Err(e) => {
                    ctx.violation(&format!("memory {shape_name}, {}", hooks.describe()), || e);
                    continue;
                }
            };
            let m = decode(&bytes);
            let mut u = match under_test(&m, &out, hooks, Policy::Forward, ApplyPolicy::Forward) {
                Ok(u) => u,
                Err(e) => {
                    ctx.violation(&format!("memory {shape_name}, {}", hooks.describe()), || e);
                    continue;
                }
            };
            if let Some(e) = u.emb.undecodable.take() {
                ctx.violation(&format!("memory {shape_name}, {}", hooks.describe()), || e);
                continue;
            }
            let at = format!("memory {shape_name}, {}", hooks.describe());
            let pages = shape.map_or(0, |s| s.0);
            let mut call = |name: &str, args: &[u64]| {
                let r = u.run(&[(name, args)], Policy::Forward, ApplyPolicy::Forward, 1_000_000, 100, 1000).results.remove(0);
                let mem: Vec<u8> = match shape {
                    Some(_) => u.store.mems[u.store.instances[u.inst.unwrap()].mems[0]].data.clone(),
                    None => vec![],
                };
                ctx.add("base_operations", 1);
                (r, mem)
            };
            let (_, initial) = call("nothing", &[]);
            for op in LoadOp::ALL {
                for p in POINTERS {
                    for off in OFFSETS {
                        let (got, mem) = call(base_load_name(*op), &[*p, u64::from(*off)]);
                        let want = match shape {
                            None => Ok(vec![0]),
                            Some(_) => interp::num::load(*op, &initial, *p, *off).map(|v| vec![v]),
                        };
                        if got != want || mem != initial {
                            ctx.violation(&format!("{}({p}, {off})", base_load_name(*op)), || format!("{at}: want {want:x?}, got {got:x?}"));
                        }
                    }
                }
            }
            for op in StoreOp::ALL {
                for p in POINTERS {
                    for off in OFFSETS {
                        let v = match op.ty() {
                            I32 => 0x8182_8384,
                            F32 => 0x4182_8384,
                            _ => 0x4182_8384_8586_8788,
                        };
                        let (got, mem) = call(base_store_name(*op), &[*p, v, u64::from(*off)]);
                        let mut expected = initial.clone();
                        let want = match shape {
                            None => Ok(vec![]),
                            Some(_) => interp::num::store(*op, &mut expected, *p, v, *off).map(|_| vec![]),
                        };
                        if got != want || mem != expected {
                            ctx.violation(&format!("{}({p}, {v:#x}, {off})", base_store_name(*op)), || format!("{at}: want {want:x?}, got {got:x?}; memory as expected: {}", mem == expected));
                        }
                    }
                }
            }
            let max = shape.map_or(0, |s| s.1.unwrap_or(65536));
            for n in [0u64, 1, 2, 3, 65535, 65536, 0xffff_ffff] {
                for idx in [0u64] {
                    let (got, mem) = call("instrumented_memory_grow", &[n, idx]);
                    let fits = shape.is_some() && u64::from(pages) + n <= u64::from(max) && n < 100;
                    // (a real engine may refuse more; the interpreter refuses beyond its own bound)
                    let want = if fits { u64::from(pages) } else { 0xffff_ffff };
                    let len = if fits { (u64::from(pages) + n) as usize * 65536 } else { pages as usize * 65536 };
                    let refused_by_us = n >= 100 && u64::from(pages) + n <= u64::from(max);
                    if !refused_by_us && (got != Ok(vec![want]) || (shape.is_some() && mem.len() != len)) {
                        ctx.violation(&format!("instrumented_memory_grow({n}, {idx})"), || format!("{at}: want {want:#x} and {len} bytes, got {got:x?} and {} bytes", mem.len()));
                    }
                    let (got, _) = call("instrumented_memory_size", &[idx]);
                    if got != Ok(vec![u64::from(pages)]) {
                        ctx.violation("instrumented_memory_size", || format!("{at}: want {pages}, got {got:x?}"));
                    }
                }
            }
        }
    }
    st.publish(ctx);
}
