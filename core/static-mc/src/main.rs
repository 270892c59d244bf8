//! C50, C51: which functions the static analysis reports as pure, for every call graph and every instruction.
use core_mc::families::*;
use core_mc::gen::*;
use core_mc::model::uses_refs;
use mc_common::Ctx;
use serde_json::json;
use std::collections::{BTreeSet, HashSet};
use std::io::Write;
use wasabi_wasm as w;
use wasabi_wasm::{Instr, Label, LoadOp, RefType, StoreOp, ValType};
use wastrumentation_static_analysis::{immutable_functions, immutable_functions_from_binary};
use ValType::{F32, F64, I32, I64};

/// Whether an instruction reads or writes anything but the operands and locals of its own activation.
fn touches(i: &Instr) -> bool {
    match i {
        Instr::Unreachable | Instr::Nop | Instr::Block(_) | Instr::Loop(_) | Instr::If(_) | Instr::Else | Instr::End => false,
        Instr::Br(_) | Instr::BrIf(_) | Instr::BrTable { .. } | Instr::Return => false,
        Instr::Drop | Instr::Select | Instr::TypedSelect(_) | Instr::Local(..) | Instr::Const(_) | Instr::Unary(_) | Instr::Binary(_) => false,
        Instr::RefNull(_) | Instr::RefIsNull | Instr::RefFunc(_) => false,
        // Calls are followed.
        Instr::Call(_) => false,
        _ => true,
    }
}
fn callees(m: &w::Module, f: usize) -> BTreeSet<usize> {
    let Some(c) = m.functions[f].code() else { return BTreeSet::new() };
    c.body.iter().filter_map(|i| if let Instr::Call(t) = i { Some(t.to_u32() as usize) } else { None }).collect()
}
/// (functions from which no access to state and no import can be reached; those of them that reach no cycle but of
/// a function and itself)
fn specification(m: &w::Module) -> (HashSet<u32>, HashSet<u32>) {
    let n = m.functions.len();
    let calls: Vec<BTreeSet<usize>> = (0..n).map(|f| callees(m, f)).collect();
    let mut reach: Vec<BTreeSet<usize>> = (0..n).map(|f| [f].into()).collect();
    loop {
        let before: usize = reach.iter().map(|r| r.len()).sum();
        for f in 0..n {
            let more: BTreeSet<usize> = reach[f].iter().flat_map(|g| calls[*g].iter().copied()).collect();
            reach[f].extend(more);
        }
        if reach.iter().map(|r| r.len()).sum::<usize>() == before {
            break;
        }
    }
    let own: Vec<bool> = (0..n).map(|f| m.functions[f].code().is_some_and(|c| !c.body.iter().any(touches))).collect();
    let pure: HashSet<u32> = (0..n).filter(|f| reach[*f].iter().all(|g| own[*g])).map(|f| f as u32).collect();
    let on_cycle = |g: usize| calls[g].iter().any(|h| *h != g && reach[*h].contains(&g));
    let must = pure.iter().copied().filter(|f| !reach[*f as usize].iter().any(|g| on_cycle(*g))).collect();
    (pure, must)
}
#[derive(Clone, Copy, PartialEq)]
enum Ask {
    Sound,
    Complete,
}
fn check(ctx: &Ctx, ask: Ask, m: &w::Module, key: &dyn Fn() -> String, binary: bool) {
    let (pure, must) = specification(m);
    ctx.add("evaluations", 1);
    ctx.add("functions_judged", m.functions.len() as u64);
    ctx.add("distinct_nontrivial", u64::from(!pure.is_empty() && pure.len() < m.functions.len()));
    ctx.add("immutable_functions", pure.len() as u64);
    if ctx.get("evaluations").is_power_of_two() && ctx.n_samples() < 20 {
        ctx.sample(json!({"module": key(), "immutable": format!("{:?}", pure.iter().collect::<BTreeSet<_>>()), "of": m.functions.len()}));
    }
    let show = || core_mc::driver::wat(&m.to_bytes().unwrap());
    let judge = |got: Result<HashSet<u32>, String>, how: &str| {
        let got = match got {
            Ok(g) => g,
            Err(e) => {
                // Failing is a lack of an answer, not a wrong one.
                if ask == Ask::Complete {
                    ctx.violation(&key(), || format!("{how}: panicked: {e}\n{}", show()));
                }
                return;
            }
        };
        let mut wrong: Vec<u32> = match ask {
            Ask::Sound => got.difference(&pure).copied().collect(),
            Ask::Complete => must.difference(&got).copied().collect(),
        };
        wrong.sort_unstable();
        if !wrong.is_empty() {
            ctx.violation(&key(), || {
                let what = if ask == Ask::Sound { "reported as pure, although they reach state or an import" } else { "not reported, although nothing they reach touches state" };
                format!("{how}: functions {wrong:?} are {what}\nreported: {got:?}\n{}", show())
            });
        }
    };
    if binary {
        let bytes = m.to_bytes().unwrap();
        match mc_common::catch_on(&bytes, || immutable_functions_from_binary(&bytes)) {
            Ok(Some(g)) => judge(Ok(g), "from the binary"),
            Ok(None) => judge(Err("refused".into()), "from the binary"),
            Err(e) => judge(Err(e), "from the binary"),
        }
    } else {
        judge(mc_common::catch(|| immutable_functions(m)), "of the module");
    }
}

/// How a function of a graph is made, besides whom it calls.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Clean,
    /// Touches a global after (before) its calls.
    After,
    Before,
    Import,
}
/// Every graph of n functions, each calling any of the n, of the given kinds.
fn graphs(ctx: &Ctx, ask: Ask, n: usize, kinds: &[Kind], order: bool) {
    let per: Vec<(Kind, u32)> =
        kinds.iter().flat_map(|k| if *k == Kind::Import { vec![(*k, 0)] } else { (0..1u32 << n).map(|s| (*k, s)).collect() }).collect();
    let total = (per.len() as u64).pow(n as u32);
    ctx.set(&format!("call graphs of {n} functions{}", if order { ", callees in reverse" } else { "" }), json!({"graphs": total, "kinds": format!("{kinds:?}")}));
    mc_common::par(total, |g| {
        let d = mc_common::digits(g, &vec![per.len() as u64; n]);
        let fs: Vec<(Kind, u32)> = d.iter().map(|k| per[*k]).collect();
        // Imports come first in a module.
        let mut place: Vec<usize> = (0..n).filter(|i| fs[*i].0 == Kind::Import).collect();
        if place.iter().enumerate().any(|(i, p)| i != *p) {
            return;
        }
        place.extend((0..n).filter(|i| fs[*i].0 != Kind::Import));
        let mut m = w::Module::new();
        let g = global(&mut m, I32, true, 7);
        for (kind, calls) in &fs {
            let (e, index) = (ft(&[], &[]), m.functions.len());
            if *kind == Kind::Import {
                import(&mut m, &format!("i{index}"), e);
                continue;
            }
            let mut body: Vec<Instr> = (0..n as u32).filter(|c| calls >> c & 1 == 1).map(call).collect();
            if order {
                body.reverse();
            }
            match kind {
                Kind::After => body.extend([gget(g), Instr::Drop]),
                Kind::Before => body.splice(0..0, [gget(g), Instr::Drop]).for_each(drop),
                _ => {}
            }
            func(&mut m, e, &[], body, &format!("f{index}"));
        }
        check(ctx, ask, &m, &|| format!("graph {fs:?}"), false);
    });
}
/// Every instruction, at every place of a body.
fn instructions(ctx: &Ctx, ask: Ask) {
    let mut m = w::Module::new();
    let imp = import(&mut m, "imported", ft(&[], &[]));
    memory(&mut m, 1, Some(2));
    let gi = global(&mut m, I32, true, 7);
    let gc = global(&mut m, I64, false, 7);
    let t = table(&mut m, RefType::FuncRef, 3, Some(5));
    let t2 = table(&mut m, RefType::ExternRef, 3, Some(5));
    let clean = func(&mut m, ft(&[], &[]), &[], vec![], "clean");
    let dirty = func(&mut m, ft(&[], &[]), &[], vec![c32(1), gset(gi)], "dirty");
    let indirect = func(&mut m, ft(&[], &[]), &[], vec![call(dirty)], "indirect");
    let above = func(&mut m, ft(&[], &[]), &[], vec![call(clean), call(clean)], "above");
    let e = ft(&[], &[]);
    let me = m.functions.len() as u32;
    // (a sequence of no effect on the operands, is it to be followed as calls)
    let mut pieces: Vec<(String, Vec<Instr>)> = vec![];
    let mut add = |n: String, v: Vec<Instr>| pieces.push((n, v));
    add("nothing".into(), vec![]);
    for (n, f) in [("imported", imp), ("clean", clean), ("dirty", dirty), ("indirect", indirect), ("above", above), ("itself", me)] {
        add(format!("call {n}"), vec![call(f)]);
    }
    add("nop".into(), vec![Instr::Nop]);
    add("drop".into(), vec![c32(1), Instr::Drop]);
    add("select".into(), vec![c32(1), c32(1), c32(1), Instr::Select, Instr::Drop]);
    for t in [I32, I64, F32, F64] {
        add(format!("const {t:?}"), vec![konst(t, 1), Instr::Drop]);
        add(format!("typed select {t:?}"), vec![konst(t, 1), konst(t, 1), c32(1), Instr::TypedSelect(t), Instr::Drop]);
    }
    add("ref.null".into(), vec![Instr::RefNull(RefType::FuncRef), Instr::Drop]);
    add("ref.is_null".into(), vec![Instr::RefNull(RefType::ExternRef), Instr::RefIsNull, Instr::Drop]);
    add("ref.func".into(), vec![Instr::RefFunc(clean.into()), Instr::Drop]);
    for k in [lget(0), lset(0), ltee(0)] {
        let v = match k {
            Instr::Local(w::LocalOp::Get, _) => vec![k.clone(), Instr::Drop],
            Instr::Local(w::LocalOp::Set, _) => vec![c32(1), k.clone()],
            _ => vec![c32(1), k.clone(), Instr::Drop],
        };
        add(format!("{k:?}"), v);
    }
    for g in [gi, gc] {
        add(format!("global.get {g}"), vec![gget(g), Instr::Drop]);
    }
    add("global.set".into(), vec![c32(1), gset(gi)]);
    add("unary".into(), vec![c32(1), Instr::Unary(w::UnaryOp::I32Eqz), Instr::Drop]);
    add("binary".into(), vec![c32(1), c32(1), Instr::Binary(w::BinaryOp::I32DivS), Instr::Drop]);
    for op in [LoadOp::I32Load, LoadOp::I64Load8S, LoadOp::F32Load, LoadOp::F64Load, LoadOp::I32Load16U] {
        add(format!("{op:?}"), vec![c32(1), load(op, 0), Instr::Drop]);
    }
    for (op, t) in [(StoreOp::I32Store, I32), (StoreOp::I64Store32, I64), (StoreOp::F32Store, F32), (StoreOp::F64Store, F64)] {
        add(format!("{op:?}"), vec![c32(1), konst(t, 1), store(op, 0)]);
    }
    add("memory.size".into(), vec![Instr::MemorySize(0u32.into()), Instr::Drop]);
    add("memory.grow".into(), vec![c32(0), Instr::MemoryGrow(0u32.into()), Instr::Drop]);
    add("memory.fill".into(), vec![c32(0), c32(0), c32(0), Instr::MemoryFill]);
    add("memory.copy".into(), vec![c32(0), c32(0), c32(0), Instr::MemoryCopy]);
    add("call_indirect".into(), vec![c32(0), Instr::CallIndirect(e, t.into())]);
    for t in [t, t2] {
        let r = m.tables[t as usize].ref_type;
        add(format!("table.get {t}"), vec![c32(0), Instr::TableGet(t.into()), Instr::Drop]);
        add(format!("table.set {t}"), vec![c32(0), Instr::RefNull(r), Instr::TableSet(t.into())]);
        add(format!("table.size {t}"), vec![Instr::TableSize(t.into()), Instr::Drop]);
        add(format!("table.grow {t}"), vec![Instr::RefNull(r), c32(0), Instr::TableGrow(t.into()), Instr::Drop]);
        add(format!("table.fill {t}"), vec![c32(0), Instr::RefNull(r), c32(0), Instr::TableFill(t.into())]);
        add(format!("table.copy {t}"), vec![c32(0), c32(0), c32(0), Instr::TableCopy(t.into(), t.into())]);
    }
    m.elements.push(w::Element { typ: RefType::FuncRef, init: vec![vec![Instr::RefFunc(clean.into()), Instr::End]], mode: w::ElementMode::Passive });
    m.datas.push(w::Data { init: vec![1, 2, 3], mode: w::DataMode::Passive });
    add("table.init".into(), vec![c32(0), c32(0), c32(0), Instr::TableInit(t.into(), 0u32.into())]);
    add("elem.drop".into(), vec![Instr::ElemDrop(0u32.into())]);
    add("memory.init".into(), vec![c32(0), c32(0), c32(0), Instr::MemoryInit(0u32.into())]);
    add("data.drop".into(), vec![Instr::DataDrop(0u32.into())]);
    // the others only next to a few
    let core = pieces.len();
    let mut add = |n: String, v: Vec<Instr>| pieces.push((n, v));
    for op in LoadOp::ALL {
        add(format!("{op:?}"), vec![c32(1), load(*op, 0), Instr::Drop]);
    }
    for op in StoreOp::ALL {
        add(format!("{op:?}"), vec![c32(1), konst(op.ty(), 1), store(*op, 0)]);
    }
    for op in w::UnaryOp::ALL {
        add(format!("{op:?}"), vec![konst(op.ty().0, 1), Instr::Unary(*op), Instr::Drop]);
    }
    for op in w::BinaryOp::ALL {
        add(format!("{op:?}"), vec![konst(op.ty().0, 1), konst(op.ty().0, 1), Instr::Binary(*op), Instr::Drop]);
    }
    // What may stand around it.
    type Wrap = (&'static str, fn(Vec<Instr>) -> Vec<Instr>);
    fn around(mut open: Vec<Instr>, x: Vec<Instr>, close: Vec<Instr>) -> Vec<Instr> {
        open.extend(x);
        open.extend(close);
        open
    }
    const WRAPS: &[Wrap] = &[
        ("block", |x| around(vec![Instr::Block(ft(&[], &[]))], x, vec![Instr::End])),
        ("loop", |x| around(vec![Instr::Loop(ft(&[], &[]))], x, vec![Instr::End])),
        ("if", |x| around(vec![lget(0), Instr::If(ft(&[], &[]))], x, vec![Instr::End])),
        ("then", |x| around(vec![lget(0), Instr::If(ft(&[], &[]))], x, vec![Instr::Else, Instr::Nop, Instr::End])),
        ("else", |x| around(vec![lget(0), Instr::If(ft(&[], &[])), Instr::Nop, Instr::Else], x, vec![Instr::End])),
        ("after a branch", |x| around(vec![Instr::Block(ft(&[], &[])), Instr::Br(Label::from(0u32))], x, vec![Instr::End])),
        ("after a conditional branch", |x| around(vec![Instr::Block(ft(&[], &[])), lget(0), Instr::BrIf(Label::from(0u32))], x, vec![Instr::End])),
        ("after a branch table", |x| {
            around(vec![Instr::Block(ft(&[], &[])), lget(0), Instr::BrTable { table: vec![Label::from(0u32)].into(), default: Label::from(0u32) }], x, vec![Instr::End])
        }),
        ("after return", |x| around(vec![Instr::Return], x, vec![])),
        ("after unreachable", |x| around(vec![Instr::Unreachable], x, vec![])),
    ];
    let depth = if ctx.thorough { 3 } else { 2 };
    let wraps = mc_common::sequences(WRAPS.len(), 0, depth);
    let pairs: Vec<(usize, usize)> = (0..pieces.len()).flat_map(|a| (0..if a < core { core } else { 6 }).map(move |b| (a, b))).collect();
    let ctx_ref = &ctx;
    mc_common::par(pairs.len() as u64, |k| {
        let (a, b) = pairs[k as usize];
        // two pieces next to each other, the first or the second wrapped
        for wr in &wraps {
            if ctx_ref.n_violations() > 20 {
                return;
            }
            for first in [true, false] {
                if b == 0 && !first {
                    continue;
                }
                let wrap = |x: &Vec<Instr>| wr.iter().rev().fold(x.clone(), |x, k| WRAPS[*k].1(x));
                let (x, y) = if first { (wrap(&pieces[a].1), pieces[b].1.clone()) } else { (pieces[a].1.clone(), wrap(&pieces[b].1)) };
                if wr.len() > 1 && b > 5 && !ctx_ref.thorough {
                    continue;
                }
                let mut m = m.clone();
                let mut body = x;
                body.extend(y);
                func(&mut m, ft(&[], &[]), &[I32], body, "f");
                func(&mut m, ft(&[], &[]), &[], vec![call(me)], "caller");
                let key = || format!("{} then {}, {} in {:?}", pieces[a].0, pieces[b].0, if first { "first" } else { "second" }, wr.iter().map(|k| WRAPS[*k].0).collect::<Vec<_>>());
                check(ctx_ref, ask, &m, &key, k % 7 == 0);
            }
        }
    });
    ctx.set("pieces", json!(pieces.iter().map(|p| &p.0).collect::<Vec<_>>()));
    ctx.set("places", json!(WRAPS.iter().map(|p| p.0).collect::<Vec<_>>()));
}
fn bodies(ctx: &Ctx, ask: Ask) {
    let plus = if ctx.thorough { 2 } else { 1 };
    let families: Vec<(fn(usize) -> Family, usize)> =
        vec![(blocks, 5 + plus), (ifs, 5 + plus), (tables, 5 + plus), (nests, 7 + plus), (variables, 3 + plus), (calls, 4 + plus), (references, 3 + plus), (mixed, 3 + plus), (multi, 6 + plus), (recursion, 5 + plus),
             (typed_i32, 3 + plus), (typed_f32, 3 + plus), (typed_i64, 3 + plus), (typed_f64, 3 + plus)];
    for (build, len) in families {
        let mut f = build(len);
        f.dead = 2;
        let all = f.all();
        let chunks: Vec<_> = all.chunks(16).collect();
        mc_common::par(chunks.len() as u64, |c| {
            let refs: Vec<&[Instr]> = chunks[c as usize].iter().map(|b| b.as_slice()).collect();
            let m = f.module(&refs);
            if m.functions.iter().any(|f| uses_refs(f.type_)) && f.name != "references" {
                return;
            }
            check(ctx, ask, &m, &|| format!("{}: {:?}", f.name, chunks[c as usize]).chars().take(300).collect(), c % 5 == 0);
        });
        ctx.set(&format!("{} up to {len} instructions", f.name), json!({"valid_bodies": all.len()}));
    }
}
/// Long chains, in both directions, clean or not at the far end.
fn chains(ctx: &Ctx, ask: Ask) {
    let mut lengths: Vec<u32> = (1..=40).collect();
    lengths.extend([64, 65, 100, 129, 200, 257, 300]);
    mc_common::par(lengths.len() as u64 * 8, |k| {
        let n = lengths[k as usize / 8];
        let (down, dirty, closed) = (k & 1 == 1, k & 2 == 2, k & 4 == 4);
        let mut m = w::Module::new();
        let g = global(&mut m, I32, true, 7);
        for i in 0..n {
            let next = if down { i.checked_sub(1) } else { Some(i + 1).filter(|i| *i < n) };
            let mut body: Vec<Instr> = next.map(call).into_iter().collect();
            if next.is_none() {
                if dirty {
                    body.extend([gget(g), Instr::Drop]);
                }
                if closed && n > 1 {
                    body.push(call(if down { n - 1 } else { 0 }));
                }
            }
            func(&mut m, ft(&[], &[]), &[], body, &format!("f{i}"));
        }
        check(ctx, ask, &m, &|| format!("a chain of {n}, down {down}, dirty {dirty}, closed {closed}"), true);
    });
}

fn run(ctx: &Ctx, ask: Ask) {
    for t in [
        "The crate wasabi_wasm is a stand-in under /verif/core: the real one cannot be fetched. The crates wastrumentation and wastrumentation-static-analysis are built from /repo.",
        "Every branch of one br_table has the same label types (wasabi's type checker supports no other).",
    ] {
        ctx.assume(t);
    }
    ctx.set("exhaustive", json!(true));
    ctx.set("rule", json!("every call graph, every pair of instructions at every place and every body up to the bounds; non-trivial if the module has both functions that are immutable and functions that are not"));
    use Kind::*;
    // The analysis reports its progress on the standard output.
    std::io::stdout().flush().unwrap();
    let saved = unsafe { libc::dup(1) };
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    unsafe { libc::dup2(std::os::fd::AsRawFd::as_raw_fd(&null), 1) };
    let all = [Clean, After, Before, Import];
    for n in 0..=3 {
        for order in [false, true] {
            graphs(ctx, ask, n, &all, order);
        }
    }
    graphs(ctx, ask, 4, &[Clean, After, Import], false);
    if ctx.thorough {
        graphs(ctx, ask, 4, &[Clean, Before, Import], true);
        graphs(ctx, ask, 5, &[Clean], false);
    }
    instructions(ctx, ask);
    bodies(ctx, ask);
    chains(ctx, ask);
    if ask == Ask::Complete {
        for bytes in [&b""[..], b"\0asm", b"not a module", b"\0asm\x01\0\0\0\x01"] {
            if let Ok(Some(x)) = mc_common::catch_on(bytes, || immutable_functions_from_binary(bytes)) {
                ctx.violation(&format!("{bytes:?}"), || format!("a report about no module: {x:?}"));
            }
        }
    }
    std::io::stdout().flush().unwrap();
    unsafe {
        libc::dup2(saved, 1);
        libc::close(saved);
    }
}
fn main() {
    mc_common::quiet_panics();
    let id = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&id);
    match id.as_str() {
        "C50" => mc_common::decide(&ctx, |c| run(c, Ask::Sound)),
        "C51" => mc_common::decide(&ctx, |c| run(c, Ask::Complete)),
        _ => {
            eprintln!("no check {id}");
            std::process::exit(3);
        }
    }
    ctx.finish("exploration");
}
