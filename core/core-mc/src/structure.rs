//! C26, C28, C33: what instrumented modules look like, the nested view of bodies, branch tables.
use crate::behaviour::{assume, times};
use crate::driver::*;
use crate::families::*;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use mc_common::Ctx;
use serde_json::json;
use std::collections::BTreeMap;
use wasabi_wasm as w;
use wasabi_wasm::{BinaryOp, ImportOrPresent, Instr, RefType, ValType};
use wastrumentation::parse_nesting::{HighLevelBody, HighLevelInstr, LowLevelBody, TypedHighLevelInstr};
use ValType::{F32, F64, I32, I64};

fn import_of<T: Clone>(x: &ImportOrPresent<T>) -> Option<(String, String)> {
    match x {
        ImportOrPresent::Import(a, b) => Some((a.clone(), b.clone())),
        ImportOrPresent::Present(_) => None,
    }
}
/// (imports with their types in order, exports with their types)
type Interface = (Vec<(String, String, String)>, BTreeMap<String, String>);
fn interface(m: &w::Module) -> Interface {
    let mut imports = vec![];
    let mut exports = BTreeMap::new();
    let mut add = |import: Option<(String, String)>, names: &[String], what: String| {
        if let Some((a, b)) = import {
            imports.push((a, b, what.clone()));
        }
        for n in names {
            exports.insert(n.clone(), what.clone());
        }
    };
    for f in &m.functions {
        add(f.import().map(|(a, b)| (a.into(), b.into())), &f.export, format!("func {:?}", f.type_));
    }
    for g in &m.globals {
        add(import_of(&g.init), &g.export, format!("global {:?}", g.type_));
    }
    for t in &m.tables {
        add(t.import.clone(), &t.export, format!("table {:?} {:?}", t.ref_type, t.limits));
    }
    for t in &m.memories {
        add(t.import.clone(), &t.export, format!("memory {:?}", t.limits));
    }
    (imports, exports)
}
fn own_export(name: &str) -> bool {
    name == "call_base" || name.starts_with("instrumented_")
}
/// What an outsider can see of the instrumented module, against the original.
pub fn interface_difference(original: &w::Module, target: &w::Module) -> Option<String> {
    let ((oi, oe), (ti, te)) = (interface(original), interface(target));
    let mut left: Vec<_> = ti.clone();
    for i in &oi {
        match left.iter().position(|x| x == i) {
            Some(k) => {
                left.remove(k);
            }
            None => return Some(format!("the import {i:?} is missing or has changed")),
        }
    }
    if let Some(x) = left.iter().find(|x| x.0 != NS_ANALYSIS && x.0 != NS_STACK) {
        return Some(format!("unexpected import {x:?}"));
    }
    // Imports other than functions keep their order: nothing is added to them.
    let others = |v: &[(String, String, String)]| v.iter().filter(|x| !x.2.starts_with("func")).cloned().collect::<Vec<_>>();
    if others(&oi) != others(&ti) {
        return Some("imports of memories, tables or globals differ".into());
    }
    for (n, what) in &oe {
        match te.get(n) {
            Some(x) if x == what => {}
            x => return Some(format!("the export {n:?} was {what} and is {x:?}")),
        }
    }
    if let Some(n) = te.keys().find(|n| !oe.contains_key(*n) && !own_export(n)) {
        return Some(format!("unexpected export {n:?}"));
    }
    None
}

#[derive(Clone, Copy, Debug)]
struct Shape {
    imports: usize,
    memory: usize,
    table: usize,
    globals: usize,
    start: usize,
    names: usize,
    data: usize,
}
const SHAPES: [usize; 7] = [4, 4, 4, 4, 3, 4, 3];
fn shape(d: &[usize]) -> Shape {
    Shape { imports: d[0], memory: d[1], table: d[2], globals: d[3], start: d[4], names: d[5], data: d[6] }
}
fn build(s: Shape) -> (w::Module, Sequences) {
    let mut m = w::Module::new();
    let e = || ft(&[], &[]);
    let ii = || ft(&[I32], &[I32]);
    let mut imported = vec![];
    if s.imports >= 1 {
        imported.push(import(&mut m, "one", ii()));
    }
    if s.imports >= 2 {
        imported.push(import(&mut m, "nothing", e()));
        // never called by anyone
        imported.push(import(&mut m, "unused", ft(&[F32, I64], &[F64])));
    }
    if s.imports == 3 {
        // one name for several functions, which differ in their types or not at all; one name in two namespaces
        imported.push(import(&mut m, "one", ft(&[F32], &[I32])));
        imported.push(import(&mut m, "one", ii()));
        imported.push(import(&mut m, "one", ft(&[F64], &[])));
        imported.push(m.add_function_import(ii(), "elsewhere".into(), "one".into()).to_u32());
        imported.push(m.add_function_import(e(), "env.one".into(), "".into()).to_u32());
        // names that differ in space and case only
        imported.push(m.add_function_import(ii(), " env".into(), "one".into()).to_u32());
        imported.push(m.add_function_import(ii(), "ENV".into(), "one ".into()).to_u32());
    }
    match s.memory {
        0 => {}
        1 => {
            memory(&mut m, 1, None);
            m.memories[0].export.clear();
        }
        2 => memory(&mut m, 1, Some(3)),
        _ => {
            memory(&mut m, 1, Some(2));
            m.memories[0].import = Some(("env".into(), "memory".into()));
            m.memories[0].export.push("same memory".into());
        }
    }
    match s.globals {
        0 => {}
        1 => {
            global(&mut m, I64, true, 5);
        }
        2 => {
            let g = global(&mut m, I32, false, 5);
            m.globals[g as usize].init = ImportOrPresent::Import("env".into(), "global".into());
            global(&mut m, F64, false, 0x4000_0000_0000_0000);
        }
        _ => {
            let g = global(&mut m, I32, true, 5);
            m.globals[g as usize].init = ImportOrPresent::Import("env".into(), "global".into());
            global(&mut m, F32, true, 0x3f80_0000);
            let g = global(&mut m, I32, true, 6);
            m.globals[g as usize].export.clear();
        }
    }
    let mut bump = vec![];
    if s.imports >= 2 {
        bump.push(call(imported[1]));
    }
    if s.globals == 1 {
        bump.extend([gget(0), konst(I64, 3), Instr::Binary(BinaryOp::I64Add), gset(0)]);
    }
    if s.globals == 3 {
        bump.extend([gget(2), c32(3), Instr::Binary(BinaryOp::I32Add), gset(2), gget(2), gset(0)]);
    }
    if s.memory > 0 {
        bump.extend([c32(12), c32(-9), store(w::StoreOp::I32Store, 4), c32(1), Instr::MemoryGrow(0u32.into()), Instr::Drop]);
    }
    if s.imports == 3 {
        for (k, i) in imported.iter().enumerate().skip(3) {
            let t = m.functions[*i as usize].type_;
            bump.extend(t.inputs().iter().map(|t| konst(*t, k as u64 * 7)));
            bump.push(call(*i));
            bump.extend(t.results().iter().map(|_| Instr::Drop));
        }
    }
    let bump = func(&mut m, e(), &[], bump, "bump");
    let mut plus = vec![lget(0), c32(1), Instr::Binary(BinaryOp::I32Add)];
    if s.imports >= 1 {
        plus.push(call(imported[0]));
    }
    let plus = func(&mut m, ii(), &[], plus, "");
    match s.names {
        0 | 3 => {}
        1 => {
            m.functions[plus as usize].export.extend(["plus".into(), "plus again".into(), "memory".to_string() + "?", "ünï 💥".into(), "a.b\"c".into()]);
        }
        _ => {
            m.functions[bump as usize].export.clear();
            for (k, i) in imported.iter().enumerate() {
                m.functions[*i as usize].export.push(format!("import {k}"));
            }
        }
    }
    let mut seqs: Sequences = vec![];
    if s.names != 2 {
        seqs.push((0, vec![("bump".into(), vec![]), ("bump".into(), vec![])]));
    }
    if s.table > 0 {
        let t = match s.table {
            1 => table(&mut m, RefType::FuncRef, 4, None),
            2 => {
                let t = table(&mut m, RefType::FuncRef, 4, Some(8));
                table(&mut m, RefType::ExternRef, 3, None);
                t
            }
            _ => {
                let t = table(&mut m, RefType::FuncRef, 4, None);
                m.tables[t as usize].import = Some(("env".into(), "table".into()));
                t
            }
        };
        let first = imported.first().copied().unwrap_or(plus);
        if s.table == 2 {
            // passive, to be copied by the program; and a declaration
            elements(&mut m, t, 0, &[Some(plus), None, Some(first)]);
            m.elements[0].mode = w::ElementMode::Passive;
            elements(&mut m, t, 0, &[Some(bump)]);
            m.elements[1].mode = w::ElementMode::Declarative;
            elements(&mut m, t, 3, &[Some(bump)]);
            func(
                &mut m, e(), &[],
                vec![c32(0), c32(0), c32(3), Instr::TableInit(t.into(), 0u32.into()), c32(1), Instr::RefFunc(bump.into()), Instr::TableSet(t.into())],
                "fill",
            );
        } else {
            elements(&mut m, t, 0, &[Some(plus), Some(bump), Some(first)]);
        }
        func(&mut m, ii(), &[], vec![c32(40), lget(0), Instr::CallIndirect(ii(), t.into())], "indirect");
        for k in 0..5 {
            let mut v = vec![("indirect".to_string(), vec![k])];
            if s.table == 2 {
                seqs.push((1, vec![("fill".into(), vec![]), v[0].clone()]));
            }
            if s.names != 2 {
                v.insert(0, ("bump".into(), vec![]));
            }
            seqs.push((1, v));
        }
    }
    if s.memory > 0 {
        if s.data == 1 {
            m.datas.push(w::Data { init: vec![1, 2, 3, 255, 254], mode: w::DataMode::Active { memory: 0u32.into(), offset: vec![c32(65530), Instr::End] } });
            m.datas.push(w::Data { init: vec![7; 9], mode: w::DataMode::Active { memory: 0u32.into(), offset: vec![c32(3), Instr::End] } });
        }
        if s.data == 2 {
            m.datas.push(w::Data { init: vec![9, 8, 7, 6, 5], mode: w::DataMode::Passive });
            func(&mut m, e(), &[], vec![c32(100), c32(1), c32(3), Instr::MemoryInit(0u32.into())], "init");
            seqs.push((2, vec![("init".into(), vec![])]));
        }
        func(&mut m, ii(), &[], vec![lget(0), load(w::LoadOp::I32Load16U, 1)], "peek");
        seqs.push((2, [0u64, 3, 12, 65533, 65535].iter().map(|a| ("peek".to_string(), vec![*a])).collect()));
    }
    match s.start {
        1 => m.start = Some(bump.into()),
        2 if s.imports >= 2 => m.start = Some(imported[1].into()),
        _ => {}
    }
    if s.names == 3 {
        m.custom_sections.push(("name".into(), name_section(m.functions.len() as u8)));
        m.custom_sections.push(("another".into(), vec![1, 2, 3]));
    }
    (m, seqs)
}
/// Every function but the first has a name, the same for every third.
fn name_section(functions: u8) -> Vec<u8> {
    let mut names = vec![functions.saturating_sub(1)];
    for f in 1..functions {
        let n = if f % 3 == 0 { "same".to_string() } else { format!("$f {f}") };
        names.extend([f, n.len() as u8]);
        names.extend(n.bytes());
    }
    assert!(names.len() < 128);
    let mut v = vec![1, names.len() as u8];
    v.extend(names);
    v
}
/// Modules with up to `unusual` unusual features, each with calls of what they export.
pub fn shapes(unusual: usize) -> Vec<(String, w::Module, Sequences)> {
    all_shapes(unusual)
        .iter()
        .map(|d| {
            let s = shape(d);
            let (m, q) = build(s);
            (format!("{s:?}"), m, q)
        })
        .collect()
}
// All combinations of some features at full range, everything else ordinary.
fn all_shapes(at_most: usize) -> Vec<Vec<usize>> {
    let ordinary = [1usize, 2, 1, 1, 0, 0, 1];
    let total: usize = SHAPES.iter().product();
    let mut shapes = vec![];
    for k in 0..total {
        let mut d = vec![];
        let mut r = k;
        for n in SHAPES {
            d.push(r % n);
            r /= n;
        }
        let unusual = d.iter().zip(&ordinary).filter(|(a, b)| a != b).count();
        if unusual <= at_most && sensible(shape(&d)) {
            shapes.push(d);
        }
    }
    shapes
}
fn sensible(s: Shape) -> bool {
    (s.data == 0 || s.memory > 0) && (s.start != 2 || s.imports >= 2)
}

/// C26: valid output with the same interface, state and start.
pub fn interfaces(ctx: &Ctx) {
    assume(ctx);
    let st = Stats::default();
    let shapes = all_shapes(if ctx.thorough { 7 } else { 4 });
    let mut hooks = vec![Hooks::NONE, Hooks::all(), Hooks::traps(), Hooks::of(&["apply"]), Hooks::of(&["call_pre"])];
    if ctx.thorough {
        hooks.extend(alone(GROUPS));
        hooks.extend(without(GROUPS));
    }
    mc_common::par(shapes.len() as u64, |k| {
        let s = shape(&shapes[k as usize]);
        let (m, seqs) = build(s);
        let mut plan = Plan::new(Compare::Both, hooks.clone(), &[FORWARD]);
        plan.interfaces = true;
        check_module(&m, &plan, &seqs, &st, &mut |f| {
            ctx.violation(&format!("{s:?}"), || format!("{}\n{}", f.what, f.detail));
            false
        });
    });
    ctx.add("module_shapes", shapes.len() as u64);
    // Modules without any function of their own, or without anything.
    for (name, m) in [
        ("empty", w::Module::new()),
        ("one import", {
            let mut m = w::Module::new();
            import(&mut m, "a", ft(&[I64], &[F32]));
            m
        }),
        ("only a memory", {
            let mut m = w::Module::new();
            memory(&mut m, 1, None);
            m
        }),
    ] {
        let mut plan = Plan::new(Compare::Both, hooks.clone(), &[FORWARD]);
        plan.interfaces = true;
        check_module(&m, &plan, &vec![], &st, &mut |f| {
            ctx.violation(name, || format!("{}\n{}", f.what, f.detail));
            false
        });
    }
    // Code that is never executed must still be translated to valid code.
    for (build, len) in [(blocks as fn(usize) -> Family, 5), (ifs, 5), (tables, 5), (calls, 4), (variables, 3), (mixed, 3), (references, 3), (multi, 6)] {
        let mut f = build(if ctx.thorough { len + 1 } else { len });
        f.dead = 3;
        f.max_stack = 5;
        if f.name == "variables" {
            f.max_stack = 2;
        }
        f.palette.insert(0, Instr::Unreachable);
        f.inputs.truncate(1);
        let bodies = f.all();
        let t = ctx.elapsed();
        let mut plan = Plan::new(Compare::Program, vec![Hooks::all(), Hooks::traps()], &[FORWARD]);
        plan.interfaces = true;
        explore_bodies(ctx, &f, &bodies, &plan, &st);
        times(ctx, &f, bodies.len(), &plan, t);
        ctx.set(&format!("{} with dead code up to {} instructions", f.name, f.len), json!({"valid_bodies": bodies.len(), "hook_sets": plan.hooks.len()}));
    }
    st.publish(ctx);
}

// ---------------------------------------------------------------------------------------------- C28
/// An independent nesting of a flat body.
#[derive(Debug, PartialEq)]
enum Tree {
    Leaf(usize),
    Block(usize, Vec<Tree>),
    Loop(usize, Vec<Tree>),
    If(usize, Vec<Tree>, Option<Vec<Tree>>),
}
fn parse(body: &[Instr], at: &mut usize) -> Vec<Tree> {
    let mut v = vec![];
    loop {
        let k = *at;
        match &body[k] {
            Instr::End | Instr::Else => return v,
            Instr::Block(_) | Instr::Loop(_) => {
                *at += 1;
                let inner = parse(body, at);
                assert_eq!(body[*at], Instr::End);
                *at += 1;
                v.push(if matches!(body[k], Instr::Block(_)) { Tree::Block(k, inner) } else { Tree::Loop(k, inner) });
            }
            Instr::If(_) => {
                *at += 1;
                let then = parse(body, at);
                let mut other = None;
                if body[*at] == Instr::Else {
                    *at += 1;
                    other = Some(parse(body, at));
                }
                assert_eq!(body[*at], Instr::End);
                *at += 1;
                v.push(Tree::If(k, then, other));
            }
            _ => {
                *at += 1;
                v.push(Tree::Leaf(k));
            }
        }
    }
}
/// How the implementation's nested view reads, with the claimed indices; `Err` when a node is not what its index says.
fn view(body: &[Instr], nested: &[TypedHighLevelInstr], func: u32) -> Result<Vec<Tree>, String> {
    let mut v = vec![];
    for n in nested {
        let k = n.instr_index;
        if n.funct_index != func {
            return Err(format!("function index {} instead of {func} at {k}", n.funct_index));
        }
        if !n.is_uninstrumented() {
            return Err(format!("instruction {k} counts as instrumented"));
        }
        let original = body.get(k).ok_or(format!("index {k} does not exist"))?;
        let wrong = |x: &dyn std::fmt::Debug| Err(format!("index {k} is {original:?}, the nested view has {x:?}"));
        v.push(match (&n.instr, original) {
            (HighLevelInstr::Block(t, b), Instr::Block(o)) if t == o => Tree::Block(k, view(body, b, func)?),
            (HighLevelInstr::Loop(t, b), Instr::Loop(o)) if t == o => Tree::Loop(k, view(body, b, func)?),
            (HighLevelInstr::If(t, b, e), Instr::If(o)) if t == o => {
                Tree::If(k, view(body, b, func)?, e.as_ref().map(|e| view(body, e, func)).transpose()?)
            }
            (x @ (HighLevelInstr::Block(..) | HighLevelInstr::Loop(..) | HighLevelInstr::If(..)), _) => return wrong(x),
            (x, o) => {
                if format!("{x:?}") != format!("{o:?}") {
                    return wrong(x);
                }
                Tree::Leaf(k)
            }
        });
    }
    Ok(v)
}
fn nested_difference(m: &w::Module, f: &w::Function, func: u32) -> Option<String> {
    let code = f.code().unwrap();
    let r = mc_common::catch(|| HighLevelBody::try_from((m, f, code, &w::Idx::from(func))));
    let nested = match r {
        Err(p) => return Some(format!("nesting panicked: {p}")),
        Ok(Err(e)) => return Some(format!("nesting failed: {e:?}")),
        Ok(Ok(n)) => n,
    };
    let want = parse(&code.body, &mut 0);
    match view(&code.body, &nested.0, func) {
        Err(e) => return Some(e),
        Ok(v) if v != want => return Some(format!("the nested view is {v:?} instead of {want:?}")),
        Ok(_) => {}
    }
    let LowLevelBody(back) = LowLevelBody::from(nested);
    if back != code.body {
        return Some(format!("flattening gives {back:?}"));
    }
    None
}
/// C28: the nested view of a body and back.
pub fn nesting(ctx: &Ctx) {
    assume(ctx);
    let plus = if ctx.thorough { 2 } else { 1 };
    ctx.set("exhaustive", json!(true));
    ctx.set("rule", json!("every valid body of each palette up to the stated length, dead code included; non-trivial if it has a construct"));
    let families: Vec<(fn(usize) -> Family, usize, usize)> = vec![
        (blocks, 6 + plus, 2), (ifs, 6 + plus, 2), (tables, 6 + plus, 2), (nests, 9 + plus, 1), (variables, 4 + plus, 1), (calls, 4 + plus, 1),
        (references, 4 + plus, 2), (mixed, 3 + plus, 2), (multi, 6 + plus, 2), (recursion, 6 + plus, 1),
        (typed_i32, 3 + plus, 2), (typed_f32, 3 + plus, 2), (typed_i64, 3 + plus, 2), (typed_f64, 3 + plus, 2),
    ];
    let constructs = |len| {
        let mut f = nests(len);
        f.name = "constructs only";
        f.palette = vec![lget(0), Instr::Block(ft(&[], &[])), Instr::Loop(ft(&[], &[])), Instr::If(ft(&[], &[]))];
        f
    };
    let mut all: Vec<Family> = families
        .into_iter()
        .map(|(b, len, dead)| {
            let mut f = b(len);
            f.dead = dead;
            f
        })
        .collect();
    all.push(constructs(if ctx.thorough { 15 } else { 14 }));
    for f in all {
        let bodies = f.all();
        let chunks: Vec<_> = bodies.chunks(64).collect();
        mc_common::par(chunks.len() as u64, |c| {
            let refs: Vec<&[Instr]> = chunks[c as usize].iter().map(|b| b.as_slice()).collect();
            let m = f.module(&refs);
            for (i, fun) in m.functions.iter().enumerate() {
                if fun.code().is_none() {
                    continue;
                }
                ctx.add("evaluations", 1);
                let constructs = fun.code().unwrap().body.iter().any(|i| matches!(i, Instr::Block(_) | Instr::Loop(_) | Instr::If(_)));
                ctx.add("distinct_nontrivial", u64::from(constructs));
                for index in [i as u32, 0x7fff_fff0 + (i as u32 & 7)] {
                    if let Some(d) = nested_difference(&m, fun, index) {
                        ctx.violation(&format!("{}: {}", f.name, body_text(&fun.code().unwrap().body)), || format!("{d}\nbody: {}", body_text(&fun.code().unwrap().body)));
                        break;
                    }
                }
            }
        });
        ctx.set(&format!("{} up to {} instructions", f.name, f.len), json!({"valid_bodies": bodies.len()}));
        ctx.sample(json!({"family": f.name, "body": body_text(&bodies[bodies.len() * 2 / 3])}));
    }
    // Every operator there is, and depth.
    for (name, (m, _)) in [("operators", operators(true)), ("accesses", accesses(true))] {
        for (i, f) in m.functions.iter().enumerate().filter(|f| f.1.code().is_some()) {
            ctx.add("evaluations", 1);
            if let Some(d) = nested_difference(&m, f, i as u32) {
                ctx.violation(&format!("{name}: {}", body_text(&f.code().unwrap().body)), || d);
            }
        }
    }
    for s in sizes(ctx.thorough) {
        for (i, f) in s.module.functions.iter().enumerate().filter(|f| f.1.code().is_some()) {
            ctx.add("evaluations", 1);
            if let Some(d) = nested_difference(&s.module, f, i as u32) {
                ctx.violation(&format!("{}: function {i}", s.name), || d.chars().take(20_000).collect());
            }
        }
    }
    for depth in [16usize, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400] {
        for kind in 0..4 {
            let mut body = vec![];
            for k in 0..depth {
                match if kind == 3 { k % 3 } else { kind } {
                    0 => body.push(Instr::Block(ft(&[], &[]))),
                    1 => body.push(Instr::Loop(ft(&[], &[]))),
                    _ => body.extend([lget(0), Instr::If(ft(&[], &[])), Instr::Nop, Instr::Else]),
                }
            }
            body.extend(vec![Instr::End; depth]);
            let mut m = w::Module::new();
            func(&mut m, ft(&[I32], &[]), &[], body, "f");
            ctx.add("evaluations", 1);
            if let Some(d) = nested_difference(&m, &m.functions[0], 0) {
                ctx.violation(&format!("{depth} constructs of kind {kind}"), || d);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------- C33
/// A body with a branch table whose labels lead to different results; `value`: the branch carries one, and the last label is the function's.
pub fn branch_table_body(table: &[u32], default: u32, value: bool) -> Vec<Instr> {
    let top = *table.iter().chain([&default]).max().unwrap();
    let depth = if value { top } else { top + 1 };
    let block = if value { ft(&[], &[I32]) } else { ft(&[], &[]) };
    let mut b = vec![Instr::Block(block); depth as usize];
    if value {
        b.push(c32(1000));
    }
    b.extend([lget(0), br_table(table, default)]);
    for k in 0..depth {
        b.extend([Instr::End, c32(k as i32 + 1)]);
        if value {
            b.push(Instr::Binary(BinaryOp::I32Add));
        }
        b.push(Instr::Return);
    }
    b
}
/// C33: the label a branch table takes, as reported and as taken.
pub fn branch_tables(ctx: &Ctx) {
    assume(ctx);
    let st = Stats::default();
    let (labels, len) = if ctx.thorough { (7usize, 5) } else { (5, 5) };
    let mut tables: Vec<(Vec<u32>, u32)> = vec![];
    for s in mc_common::sequences(labels, 1, len + 1) {
        let v: Vec<u32> = s.iter().map(|k| *k as u32).collect();
        tables.push((v[1..].to_vec(), v[0]));
    }
    for n in [6usize, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 255, 256, 300] {
        let l = (n as u32).min(40);
        tables.push(((0..n as u32).map(|k| k % l).collect(), l));
        tables.push(((0..n as u32).rev().map(|k| (k * 7) % l).collect(), 0));
    }
    ctx.add("branch_tables", 2 * tables.len() as u64);
    let hooks = vec![Hooks::of(&["br_table"]), Hooks::all(), Hooks::of(&["br_table", "block_post", "return"])];
    let chunks: Vec<_> = tables.chunks(20).collect();
    mc_common::par(chunks.len() as u64, |c| {
        if ctx.n_violations() > 20 {
            return;
        }
        for value in [false, true] {
            let mut m = w::Module::new();
            let mut seqs: Sequences = vec![];
            for (k, (t, d)) in chunks[c as usize].iter().enumerate() {
                func(&mut m, ft(&[I32], &[I32]), &[], branch_table_body(t, *d, value), &format!("f{k}"));
                let n = t.len() as u64;
                let mut at: Vec<u64> = if n <= 10 { (0..n + 2).collect() } else { vec![0, 1, n / 2, n - 2, n - 1, n, n + 1, 2 * n] };
                at.extend([0x7fff_ffff, 0x8000_0000, 0xffff_ffff]);
                seqs.extend(at.into_iter().map(|a| (k, vec![(format!("f{k}"), vec![a])])));
            }
            let plan = Plan::new(Compare::Both, hooks.clone(), &[FORWARD, FLIP, NOT]);
            check_module(&m, &plan, &seqs, &st, &mut |f| {
                ctx.violation(&format!("table {:?}", chunks[c as usize].get(f.entry)), || format!("{}\n{}", f.what, f.detail));
                false
            });
        }
    });
    st.publish(ctx);
}
