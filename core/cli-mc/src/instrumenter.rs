//! C45: the program that instruments, against the model of what its arguments ask for.
use crate::*;
use core_mc::driver::*;
use core_mc::gen::*;
use core_mc::model::Hooks;
use core_mc::run::*;
use rust_to_wasm_compiler::{Profile, Recorded as Compilation, RustToWasmCompiler, WasiSupport};
use serde_json::json;
use std::cell::RefCell;
use wasabi_wasm as w;
use wasabi_wasm::{BinaryOp, Instr, LoadOp, StoreOp, UnaryOp, ValType};
use wastrumentation::analysis::AnalysisInterface;
use ValType::{F32, F64, I32, I64};

/// Names on the command line, and the traps they stand for.
const HOOKS: &[(&str, &str)] = &[
    ("generic-apply", "apply"), ("call-pre", "call_pre"), ("call-post", "call_post"), ("call-indirect-pre", "call_indirect_pre"),
    ("call-indirect-post", "call_indirect_post"), ("if-then", "if_then"), ("if-then-post", "if_then_post"), ("if-then-else", "if_then_else"),
    ("if-then-else-post", "if_then_else_post"), ("branch", "br"), ("branch-if", "br_if"), ("branch-table", "br_table"), ("select", "select"),
    ("unary", "unary"), ("binary", "binary"), ("drop", "drop"), ("return", "return"), ("const", "const"), ("local", "local"), ("global", "global"),
    ("store", "store"), ("load", "load"), ("memory-size", "memory_size"), ("memory-grow", "memory_grow"), ("block-pre", "block_pre"),
    ("block-post", "block_post"), ("loop-pre", "loop_pre"), ("loop-post", "loop_post"),
];
/// A program whose functions between them execute every kind of instruction.
fn program() -> (w::Module, Vec<(usize, Vec<(String, Vec<u64>)>)>) {
    let bt = |o: &[ValType]| ft(&[], o);
    let ii = || ft(&[I32], &[I32]);
    let mut m = w::Module::new();
    let host = import(&mut m, "host", ii());
    global(&mut m, I32, true, 3);
    global(&mut m, F64, true, 1);
    memory(&mut m, 1, Some(2));
    let numbers = func(&mut m, ii(), &[I64, F32], vec![
        lget(0), Instr::Unary(UnaryOp::I64ExtendI32U), lset(1), lget(1), Instr::Unary(UnaryOp::I64Popcnt), Instr::Unary(UnaryOp::I32WrapI64),
        konst(F32, 0x4000_0000), ltee(2), lget(2), Instr::Binary(BinaryOp::F32Add), Instr::Unary(UnaryOp::I32TruncF32S), Instr::Binary(BinaryOp::I32Add),
    ], "numbers");
    let state = func(&mut m, ii(), &[], vec![
        lget(0), gget(0), Instr::Store(StoreOp::I32Store, w::Memarg { alignment_exp: 0, offset: 4 }), gget(1), gset(1), lget(0),
        Instr::Load(LoadOp::I32Load8U, w::Memarg { alignment_exp: 0, offset: 4 }), gset(0), c32(1), Instr::MemoryGrow(0u32.into()), Instr::Drop, Instr::MemorySize(0u32.into()),
        gget(0), lget(0), Instr::Select,
    ], "state");
    let control = func(&mut m, ii(), &[], vec![
        Instr::Block(bt(&[I32])), lget(0), Instr::If(bt(&[])), c32(7), br(1), Instr::End,
        Instr::Loop(bt(&[])), lget(0), br_if(0), Instr::End,
        lget(0), Instr::If(bt(&[I32])), c32(1), Instr::Else, c32(2), Instr::End,
        Instr::Block(bt(&[])), lget(0), br_table(&[0, 0], 0), Instr::End,
        Instr::Return, Instr::End,
    ], "control");
    let t = table(&mut m, w::RefType::FuncRef, 4, Some(4));
    elements(&mut m, t, 0, &[Some(host), Some(numbers), Some(state), Some(control)]);
    func(&mut m, ii(), &[], vec![lget(0), call(host), call(numbers), lget(0), Instr::CallIndirect(ii(), 0u32.into())], "calls");
    func(&mut m, ft(&[I64, F32], &[F64, I32]), &[], vec![konst(F64, 0x4010_0000_0000_0000), c32(2), call(control)], "pair");
    let seq = |n: &str, a: Vec<Vec<u64>>| -> Vec<(String, Vec<u64>)> { a.into_iter().map(|a| (n.to_string(), a)).collect() };
    let s = vec![
        (0, seq("numbers", vec![vec![6]])),
        (1, seq("state", vec![vec![0], vec![9]])),
        (2, seq("control", vec![vec![0], vec![1]])),
        (3, seq("calls", vec![vec![0], vec![1], vec![2], vec![3], vec![9]])),
        (4, seq("pair", vec![vec![5, 6]])),
    ];
    (m, s)
}
/// What a run of the program is to be told, apart from hooks and targets.
#[derive(Clone, Debug)]
struct Way {
    /// Which way lists are given: one option with all values, an option each, or an option each with `=`.
    lists: usize,
    /// Order of input, analysis, output, hooks and targets.
    order: Vec<usize>,
    /// Which way single values are given: `-i x`, `--input x`, `--input=x`, `-ix`, `-i=x`.
    single: usize,
    standard: (bool, bool),
    env: Vec<(&'static str, String)>,
}
impl Way {
    fn plain() -> Way {
        Way { lists: 0, order: vec![0, 1, 2, 3, 4], single: 0, standard: (false, false), env: vec![] }
    }
}
const MANIFEST: &str = "an analysis/Cargo.toml";
const ANALYSIS: &str = "what the analysis is compiled from";
#[derive(Clone, Debug)]
struct Ask {
    hooks: Option<Vec<String>>,
    targets: Option<Vec<u32>>,
    way: Way,
}
impl Ask {
    fn call(&self, dir: &Path, bytes: &[u8]) -> Call {
        let w = &self.way;
        std::fs::write(dir.join("in.wasm"), bytes).unwrap();
        std::fs::create_dir_all(dir.join("an analysis")).unwrap();
        std::fs::write(dir.join(MANIFEST), "[package]").unwrap();
        std::fs::write(dir.join("an analysis/analysis"), ANALYSIS).unwrap();
        let single = |short: &str, long: &str, v: &str| -> Vec<String> {
            match w.single {
                0 => vec![format!("-{short}"), v.into()],
                1 => vec![format!("--{long}"), v.into()],
                2 => vec![format!("--{long}={v}")],
                3 => vec![format!("-{short}{v}")],
                _ => vec![format!("-{short}={v}")],
            }
        };
        let list = |long: &str, v: Vec<String>| -> Vec<String> {
            match w.lists {
                0 => std::iter::once(format!("--{long}")).chain(v).collect(),
                1 => v.into_iter().flat_map(|v| [format!("--{long}"), v]).collect(),
                _ => v.into_iter().map(|v| format!("--{long}={v}")).collect(),
            }
        };
        let parts = [
            single("i", "input-program-path", if w.standard.0 { "-" } else { "in.wasm" }),
            single("r", "rust-analysis-toml-path", MANIFEST),
            single("o", "output-path", if w.standard.1 { "-" } else { "out.wasm" }),
            self.hooks.clone().map_or(vec![], |h| list("hooks", h)),
            self.targets.clone().map_or(vec![], |t| list("targets", t.iter().map(u32::to_string).collect())),
        ];
        let mut env = vec![("RUST_TO_WASM", "record".to_string()), ("MERGE_ENCODED", "1".into())];
        env.extend(w.env.clone());
        Call {
            args: w.order.iter().flat_map(|i| parts[*i].clone()).collect(),
            env,
            stdin: w.standard.0.then(|| bytes.to_vec()),
            to: (!w.standard.1).then(|| dir.join("out.wasm")),
            full: false,
            room: None,
        }
    }
    fn expected(&self) -> Hooks {
        match &self.hooks {
            None => Hooks::all(),
            Some(h) => Hooks::of(&HOOKS.iter().filter(|(n, _)| h.iter().any(|x| x == n)).map(|(_, g)| *g).collect::<Vec<_>>()),
        }
    }
}
const CLI: &str = "wastrumentation-cli";
thread_local! {
    static NOW: RefCell<Option<(PathBuf, Ask)>> = const { RefCell::new(None) };
}
fn instrument(bytes: &[u8], _: AnalysisInterface, _: Option<Vec<u32>>, _: Option<wastrumentation::PrimaryTarget>) -> Result<Output, String> {
    let (dir, ask) = NOW.with(|n| n.borrow().clone()).expect("a question");
    let call = ask.call(&dir, bytes);
    let e = run(CLI, &dir, &call);
    if !e.success {
        return Err(format!("{}: {}\narguments: {:?}", e.status, e.complaint, call.args));
    }
    let r = wasm_merge::Recorded::decode(&e.output).ok_or_else(|| format!("the output is not what the merge returned ({} bytes)\narguments: {:?}", e.output.len(), call.args))?;
    let all: Vec<_> = r.primary.iter().chain(&r.inputs).collect();
    let find = |ns: &str| all.iter().find(|(n, _)| n == ns).map(|(_, b)| b.clone());
    let analysis = find(NS_ANALYSIS).ok_or("the analysis is not merged")?;
    let want = Compilation { wasi: format!("{:?}", WasiSupport::Disabled), profile: format!("{:?}", Profile::Release), manifest: MANIFEST.into(), content: ANALYSIS.into() };
    if Compilation::decode(&analysis).as_ref() != Some(&want) {
        return Err(format!("the analysis is {}", String::from_utf8_lossy(&analysis)));
    }
    let lib = match find(NS_STACK) {
        None => None,
        Some(b) => {
            let c = Compilation::decode(&b).ok_or("the library is not what the compiler returned")?;
            let profile = if c.profile == "Dev" { Profile::Dev } else { Profile::Release };
            Some(RustToWasmCompiler::new().map_err(|e| e.0)?.compile_source(WasiSupport::Disabled, &c.manifest, &c.content, profile).map_err(|e| e.0)?)
        }
    };
    Ok(Output { target: find(NS_TARGET).ok_or("the target is not merged")?, lib })
}
/// Runs that are to end well.
fn asks(thorough: bool, functions: u32) -> Vec<Ask> {
    let name = |i: usize| HOOKS[i].0.to_string();
    let n = HOOKS.len();
    let mut v = vec![];
    let mut ask = |hooks: Option<Vec<String>>, targets: Option<Vec<u32>>, way: Way| v.push(Ask { hooks, targets, way });
    let with = |f: &dyn Fn(&mut Way)| {
        let mut w = Way::plain();
        f(&mut w);
        w
    };
    // Hooks.
    ask(None, None, Way::plain());
    ask(Some((0..n).map(name).collect()), None, Way::plain());
    ask(Some((0..n).rev().map(name).collect()), None, with(&|w| w.lists = 1));
    for i in 0..n {
        for lists in 0..3 {
            ask(Some(vec![name(i)]), None, with(&|w| w.lists = lists));
        }
        ask(Some(vec![name(i), name(i)]), None, with(&|w| w.lists = i % 3));
        ask(Some((0..n).filter(|j| *j != i).map(name).collect()), None, with(&|w| w.lists = i % 3));
        for j in 0..n {
            if i < j || thorough && i != j {
                ask(Some(vec![name(i), name(j)]), None, with(&|w| w.lists = (i + j) % 3));
            }
        }
    }
    // Targets.
    let some = || Some(vec!["call-pre".to_string(), "return".into(), "generic-apply".into(), "local".into()]);
    for set in 1..1u32 << functions {
        let t: Vec<u32> = (0..functions).filter(|i| set >> i & 1 == 1).collect();
        let mut odd: Vec<u32> = t.iter().rev().chain(&t).copied().collect();
        odd.extend([functions, u32::MAX]);
        ask(some(), Some(t.clone()), with(&|w| w.lists = set as usize % 3));
        ask(Some(vec!["call-post".into(), "const".into()]), Some(odd), with(&|w| w.lists = (set as usize + 1) % 3));
        if thorough || set.count_ones() < 3 {
            ask(None, Some(t), Way::plain());
        }
    }
    // Orders and spellings.
    let few = || Some(vec!["drop".to_string(), "return".into(), "unary".into()]);
    for o in orders(5) {
        for single in 0..5 {
            ask(few(), Some(vec![1, 3, 4]), with(&|w| (w.order, w.single) = (o.clone(), single)));
        }
    }
    for hooks in [few(), None] {
        for targets in [Some(vec![2, 5]), None] {
            for standard in [(true, false), (false, true), (true, true)] {
                for single in 0..5 {
                    ask(hooks.clone(), targets.clone(), with(&|w| (w.standard, w.single) = (standard, single)));
                }
            }
        }
    }
    // Reads and writes that come short or are interrupted.
    for standard in [(false, false), (true, true)] {
        for short in [1, 2, 3, 7, 8, 64, 100, 255, 256, 1000, 4096].map(Some).into_iter().chain([None]) {
            for interrupt in [false, true] {
                for which in ["READ", "WRITE"] {
                    ask(few(), None, with(&|w| (w.standard, w.env) = (standard, weather(which, short, interrupt, None))));
                }
            }
        }
    }
    v
}
pub fn command_line(ctx: &Ctx) {
    interp::MAX_PAGES.store(64, std::sync::atomic::Ordering::Relaxed);
    let (m, sequences) = program();
    let bytes = m.to_bytes().expect("encodes");
    let asks = asks(ctx.thorough, m.functions.len() as u32);
    let st = Stats::default();
    mc_common::par(asks.len() as u64, |k| {
        if ctx.n_violations() > 30 {
            return;
        }
        let ask = &asks[k as usize];
        let dir = Scratch::new();
        NOW.with(|n| *n.borrow_mut() = Some((dir.0.clone(), ask.clone())));
        let mut plan = Plan::new(Compare::Both, vec![ask.expected()], &[FORWARD]);
        plan.targets = vec![ask.targets.clone()];
        plan.instrument = instrument;
        check_module(&m, &plan, &sequences, &st, &mut |f| {
            ctx.violation(&format!("{ask:?}"), || format!("{}\n{}", f.what, f.detail));
            false
        });
        ctx.add("command_lines", 1);
    });
    st.publish(ctx);
    failures(ctx, &bytes);
    ctx.set("rule", json!("an evaluation is one run of one exported function of the instrumented program, for one command line; no two agree in both; it is non-trivial if the program executes an instruction and reports an event"));
}
/// Runs that cannot end well: they say so, and do not leave what looks like a result.
fn failures(ctx: &Ctx, bytes: &[u8]) {
    let base = Ask { hooks: Some(vec!["return".into()]), targets: Some(vec![1]), way: Way::plain() };
    let mut cases: Vec<(String, Box<dyn Fn(&Path) -> Call + Sync + Send>)> = vec![];
    let whole = {
        let dir = Scratch::new();
        let call = base.call(&dir.0, bytes);
        run(CLI, &dir.0, &call).output.len()
    };
    let b = bytes.to_vec();
    let mut env = |what: String, env: Vec<(&'static str, String)>| {
        for standard in [(false, false), (true, true)] {
            let (mut a, b, env) = (base.clone(), b.clone(), env.clone());
            a.way.standard = standard;
            cases.push((format!("{what}, standard streams {standard:?}"), Box::new(move |d| {
                let mut c = a.call(d, &b);
                c.env.extend(env.clone());
                c
            })));
        }
    };
    for at in ["setup", "manifest"] {
        env(format!("the compiler fails: {at}"), vec![("RUST_TO_WASM", at.into())]);
    }
    env("the merge fails".into(), vec![("MERGE_FAILS", "1".into())]);
    for k in 0..bytes.len() {
        env(format!("reading fails after {k} bytes"), weather("READ", None, false, Some(k)));
    }
    for k in 0..whole {
        env(format!("writing fails after {k} bytes"), weather("WRITE", None, false, Some(k)));
    }
    for k in (0..whole).step_by(97) {
        env(format!("writing fails after {k} bytes, in pieces"), weather("WRITE", Some(10), true, Some(k)));
    }
    // Nothing fits on standard output: of nothing but the target, and of everything.
    for hooks in [base.hooks.clone(), None] {
        let (mut a, b) = (base.clone(), b.clone());
        a.way.standard.1 = true;
        a.hooks = hooks;
        cases.push(("standard output is full".into(), Box::new(move |d| Call { full: true, ..a.call(d, &b) })));
    }
    for k in 0..whole as u64 {
        for standard in [false, true] {
            let (mut a, b) = (base.clone(), b.clone());
            a.way.standard.1 = standard;
            cases.push((format!("there is room for {k} bytes only, to standard output {standard}"), Box::new(move |d| Call { room: Some(k), ..a.call(d, &b) })));
        }
    }
    // The library cannot be compiled.
    {
        let (mut a, b) = (base.clone(), b.clone());
        a.hooks = None;
        cases.push(("the compiler fails: source".into(), Box::new(move |d| {
            let mut c = a.call(d, &b);
            c.env.push(("RUST_TO_WASM", "source".into()));
            c
        })));
    }
    // Not a module: every beginning of one that is not one itself, and every module with a byte too many.
    for k in 0..bytes.len() {
        if validate(&bytes[..k]).is_ok() {
            continue;
        }
        let (a, b) = (base.clone(), bytes[..k].to_vec());
        cases.push((format!("the first {k} bytes of a module"), Box::new(move |d| a.call(d, &b))));
    }
    // Arguments.
    let mut args = |what: &str, f: fn(&mut Vec<String>)| {
        let (a, b) = (base.clone(), b.clone());
        cases.push((what.into(), Box::new(move |d| {
            let mut c = a.call(d, &b);
            f(&mut c.args);
            c
        })));
    };
    args("no such input", |a| a[1] = "nowhere.wasm".into());
    args("no such analysis", |a| a[3] = "nowhere/Cargo.toml".into());
    args("an output that cannot be created", |a| a[5] = "nowhere/out.wasm".into());
    args("no input", |a| drop(a.drain(0..2)));
    args("no analysis", |a| drop(a.drain(2..4)));
    args("no output", |a| drop(a.drain(4..6)));
    args("an unknown hook", |a| a[7] = "returns".into());
    args("an unknown hook after a known one", |a| a.insert(8, "retur".into()));
    args("no hooks", |a| drop(a.remove(7)));
    args("a target that is no number", |a| a[9] = "one".into());
    args("a target that is too large", |a| a[9] = "4294967296".into());
    args("a target below zero", |a| a[9] = "-1".into());
    args("an unknown option", |a| a.push("--quiet".into()));
    mc_common::par(cases.len() as u64, |k| {
        if ctx.n_violations() > 30 {
            return;
        }
        let (what, call) = &cases[k as usize];
        let dir = Scratch::new();
        let call = call(&dir.0);
        let e = run(CLI, &dir.0, &call);
        if e.success {
            ctx.violation(&format!("success although {what}"), || format!("the program ends with success, and an output of {} bytes, although: {what}\narguments {:?}\nenvironment {:?}", e.output.len(), call.args, call.env));
        } else if e.output.len() >= whole {
            ctx.violation(&format!("a result although {what}"), || format!("the program reports a failure ({}) but leaves a whole result\narguments {:?}", e.status, call.args));
        }
        ctx.add("failures", 1);
    });
}
