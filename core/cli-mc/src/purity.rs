//! C52: the program that lists immutable functions.
use crate::*;
use core_mc::driver::validate;
use core_mc::gen::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use wasabi_wasm as w;
use wasabi_wasm::{BinaryOp, Instr, ValType};
use ValType::I32;

const CLI: &str = "wastrumentation-static-analysis";

/// A module with `imports` imports and functions of the given sizes (constants and drops, then perhaps a call); those
/// marked write a global. Its immutable functions, with their numbers of instructions.
fn module(imports: usize, functions: &[(usize, bool, Option<usize>)]) -> (w::Module, Vec<(u32, usize)>) {
    let mut m = w::Module::new();
    for i in 0..imports {
        import(&mut m, &format!("i{i}"), ft(&[], &[]));
    }
    global(&mut m, I32, true, 1);
    for (size, impure, calls) in functions {
        let mut body = vec![];
        for _ in 0..*size {
            body.extend([c32(1), c32(2), Instr::Binary(BinaryOp::I32Add), Instr::Drop]);
        }
        if *impure {
            body.extend([c32(1), gset(0)]);
        }
        body.extend(calls.map(|c| call(c as u32)));
        func(&mut m, ft(&[], &[]), &[], body, "");
    }
    let own = |f: usize| f.checked_sub(imports).map(|k| &functions[k]);
    let pure = |mut f: usize| loop {
        match own(f) {
            Some((_, false, None)) => return true,
            // A function that calls itself adds nothing.
            Some((_, false, Some(c))) if *c == f => return true,
            Some((_, false, Some(c))) if *c < f => f = *c,
            _ => return false,
        }
    };
    let length = |f: usize| own(f).map_or(0, |(n, i, c)| 4 * n + if *i { 2 } else { 0 } + usize::from(c.is_some()) + 1);
    let all = imports..imports + functions.len();
    let set = all.filter(|f| pure(*f)).map(|f| (f as u32, length(f))).collect();
    (m, set)
}
struct Ask {
    module: usize,
    minimum: Option<u32>,
    order: Vec<usize>,
    single: usize,
    standard: (bool, bool),
    env: Vec<(&'static str, String)>,
}
impl Ask {
    fn call(&self, dir: &Path, bytes: &[u8]) -> Call {
        std::fs::write(dir.join("in.wasm"), bytes).unwrap();
        let single = |short: &str, long: &str, v: &str| -> Vec<String> {
            match self.single {
                0 => vec![format!("-{short}"), v.into()],
                1 => vec![format!("--{long}"), v.into()],
                2 => vec![format!("--{long}={v}")],
                3 => vec![format!("-{short}{v}")],
                _ => vec![format!("-{short}={v}")],
            }
        };
        let parts = [
            single("i", "input-program-path", if self.standard.0 { "-" } else { "in.wasm" }),
            single("o", "output-path", if self.standard.1 { "-" } else { "list.json" }),
            self.minimum.map_or(vec![], |m| single("m", "minimum-body", &m.to_string())),
        ];
        Call {
            args: self.order.iter().flat_map(|i| parts[*i].clone()).collect(),
            env: self.env.clone(),
            stdin: self.standard.0.then(|| bytes.to_vec()),
            to: (!self.standard.1).then(|| dir.join("list.json")),
            full: false,
            room: None,
        }
    }
}
fn listed(output: &[u8]) -> Result<BTreeSet<u32>, String> {
    let shown = || String::from_utf8_lossy(output).chars().take(300).collect::<String>();
    let v: Value = serde_json::from_slice(output).map_err(|e| format!("the output is no JSON ({e}): {:?}", shown()))?;
    let list = v.as_array().ok_or_else(|| format!("the output is no list: {:?}", shown()))?;
    let set: Option<BTreeSet<u32>> = list.iter().map(|x| x.as_u64().and_then(|x| u32::try_from(x).ok())).collect();
    let set = set.ok_or_else(|| format!("the output is no list of indices: {:?}", shown()))?;
    if set.len() != list.len() {
        return Err(format!("the output lists a function twice: {:?}", shown()));
    }
    Ok(set)
}
pub fn command_line(ctx: &Ctx) {
    // Every module of up to three functions, each of one of three sizes, writing or not, calling nothing, an import,
    // an earlier function or itself; and some of many functions.
    let mut modules = vec![];
    for imports in 0..2usize {
        for n in 0..=if ctx.thorough { 3 } else { 2usize } {
            let kinds: Vec<Vec<(usize, bool, Option<usize>)>> = (0..n)
                .map(|k| {
                    let mut v = vec![];
                    for size in 0..3 {
                        for impure in [false, true] {
                            for c in std::iter::once(None).chain((0..=imports + k).map(Some)) {
                                v.push((size, impure, c));
                            }
                        }
                    }
                    v
                })
                .collect();
            let radices: Vec<u64> = kinds.iter().map(|k| k.len() as u64).collect();
            for i in 0..radices.iter().product::<u64>() {
                let f: Vec<_> = mc_common::digits(i, &radices).iter().zip(&kinds).map(|(d, k)| k[*d]).collect();
                modules.push(module(imports, &f));
            }
        }
    }
    let small = modules.len();
    for n in [9, 10, 11, 100, 101, 1000, 1200] {
        let f: Vec<_> = (0..n).map(|k| (k % 7, k % 5 == 4, (k % 3 == 1).then(|| 2 + k - 1))).collect();
        modules.push(module(2, &f));
    }
    let modules: Vec<(Vec<u8>, Vec<(u32, usize)>)> = modules.into_iter().map(|(m, set)| (m.to_bytes().expect("encodes"), set)).collect();
    let mut asks = vec![];
    let plain = |module: usize, minimum: Option<u32>| Ask { module, minimum, order: vec![0, 1, 2], single: module % 5, standard: (false, false), env: vec![] };
    for (i, (_, set)) in modules.iter().enumerate() {
        let mut minima: BTreeSet<u32> = [0, 1].into();
        for (_, n) in set {
            minima.extend([*n as u32 - 1, *n as u32, *n as u32 + 1]);
        }
        if !ctx.thorough && i < small {
            // every minimum where there is something to list, in turn
            let all: Vec<u32> = minima.iter().copied().collect();
            minima = [all[i % all.len()], all[i / 7 % all.len()]].into();
        }
        asks.push(plain(i, None));
        asks.extend(minima.into_iter().map(|m| plain(i, Some(m))));
    }
    for module in [small, small + 4] {
        for minimum in [Some(9), Some(u32::MAX), Some(1 << 31), None] {
            for order in orders(3) {
                for single in 0..5 {
                    for standard in [(false, false), (true, false), (false, true), (true, true)] {
                        asks.push(Ask { module, minimum, order: order.clone(), single, standard, env: vec![] });
                    }
                }
            }
            for standard in [(false, false), (true, true)] {
                for short in [1, 2, 3, 7, 8, 64, 100, 255, 256, 1000, 4096].map(Some).into_iter().chain([None]) {
                    for interrupt in [false, true] {
                        for which in ["READ", "WRITE"] {
                            asks.push(Ask { standard, env: weather(which, short, interrupt, None), ..plain(module, minimum) });
                        }
                    }
                }
            }
        }
    }
    mc_common::par(asks.len() as u64, |k| {
        if ctx.n_violations() > 30 {
            return;
        }
        let ask = &asks[k as usize];
        let (bytes, set) = &modules[ask.module];
        if k % 64 == 0 {
            validate(bytes).expect("a valid module");
        }
        let dir = Scratch::new();
        let call = ask.call(&dir.0, bytes);
        let e = run(CLI, &dir.0, &call);
        let want: BTreeSet<u32> = set.iter().filter(|(_, n)| ask.minimum.is_none_or(|m| *n >= m as usize)).map(|(f, _)| *f).collect();
        let r = if e.success { listed(&e.output) } else { Err(format!("{}: {}", e.status, e.complaint)) };
        let key = || format!("module {}, {:?}, {:?}", ask.module, call.args, ask.env);
        match r {
            Err(d) => ctx.violation(&key(), || format!("{d}\narguments {:?}, environment {:?}\n{}", call.args, ask.env, core_mc::driver::wat(bytes))),
            Ok(got) if got != want => ctx.violation(&key(), || {
                format!("the list has {:?} too many and lacks {:?}\narguments {:?}\n{}", got.difference(&want).collect::<Vec<_>>(), want.difference(&got).collect::<Vec<_>>(), call.args, core_mc::driver::wat(bytes))
            }),
            _ => {}
        }
        ctx.add("evaluations", 1);
        ctx.add("distinct_nontrivial", u64::from(!want.is_empty()));
        if k % 997 == 5 {
            ctx.sample(json!({"arguments": call.args, "environment": ask.env, "functions": set.len(), "listed": want.len()}));
        }
    });
    failures(ctx, &modules[small + 3].0, &plain(small + 3, Some(4)));
    ctx.set("modules", json!(modules.len()));
    ctx.set("exhaustive", json!(true));
    ctx.set("rule", json!("an evaluation is one command line for one module; no two agree in both; it is non-trivial if there is a function to list"));
}
fn failures(ctx: &Ctx, bytes: &[u8], base: &Ask) {
    let whole = {
        let dir = Scratch::new();
        let call = base.call(&dir.0, bytes);
        run(CLI, &dir.0, &call).output.len()
    };
    let mut cases: Vec<(String, Vec<u8>, Vec<(&'static str, String)>, Option<fn(&mut Vec<String>)>)> = vec![];
    for k in (0..bytes.len()).step_by(if ctx.thorough { 1 } else { 7 }) {
        cases.push((format!("reading fails after {k} bytes"), bytes.to_vec(), weather("READ", None, false, Some(k)), None));
    }
    for k in 0..whole {
        cases.push((format!("writing fails after {k} bytes"), bytes.to_vec(), weather("WRITE", None, false, Some(k)), None));
    }
    for k in 0..whole {
        cases.push((format!("there is room for {k} bytes only"), bytes.to_vec(), vec![("ROOM", k.to_string())], None));
    }
    cases.push(("standard output is full".into(), bytes.to_vec(), vec![("FULL", String::new())], None));
    for k in 0..300 {
        if validate(&bytes[..k]).is_err() {
            cases.push((format!("the first {k} bytes of a module"), bytes[..k].to_vec(), vec![], None));
        }
    }
    let args: [(&str, fn(&mut Vec<String>)); 8] = [
        ("no such input", |a| a[1] = "nowhere.wasm".into()),
        ("an output that cannot be created", |a| a[3] = "nowhere/list.json".into()),
        ("no input", |a| drop(a.drain(0..2))),
        ("no output", |a| drop(a.drain(2..4))),
        ("a minimum that is no number", |a| a[5] = "few".into()),
        ("a minimum that is too large", |a| a[5] = "4294967296".into()),
        ("a minimum below zero", |a| a[5] = "-1".into()),
        ("an unknown option", |a| a.push("--quiet".into())),
    ];
    for (what, f) in args {
        cases.push((what.into(), bytes.to_vec(), vec![], Some(f)));
    }
    mc_common::par(cases.len() as u64, |k| {
        if ctx.n_violations() > 30 {
            return;
        }
        let (what, bytes, env, args) = &cases[k as usize];
        for standard in [(false, false), (true, true)] {
            let dir = Scratch::new();
            let ask = Ask { standard, env: env.clone(), order: vec![0, 1, 2], single: 0, ..*base };
            let mut call = ask.call(&dir.0, bytes);
            if let Some(f) = args {
                if standard.0 {
                    continue;
                }
                f(&mut call.args);
            }
            call.full = env.iter().any(|e| e.0 == "FULL");
            call.room = env.iter().find(|e| e.0 == "ROOM").map(|e| e.1.parse().unwrap());
            if call.full && !standard.1 {
                continue;
            }
            let e = run(CLI, &dir.0, &call);
            if e.success {
                ctx.violation(&format!("success although {what}"), || format!("the program ends with success, and the output {:?}, although: {what}\narguments {:?}", String::from_utf8_lossy(&e.output), call.args));
            } else if !e.output.is_empty() && e.output.len() >= whole {
                ctx.violation(&format!("a result although {what}"), || format!("the program reports a failure ({}) but leaves a whole result\narguments {:?}", e.status, call.args));
            }
            ctx.add("failures", 1);
        }
    });
}
