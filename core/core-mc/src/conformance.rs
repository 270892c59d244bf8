//! The interpreter against another engine (V8): the same programs, inputs and environment.
use crate::driver::*;
use crate::families::*;
use crate::gen::*;
use crate::model::*;
use interp::Extern;
use mc_common::Ctx;
use serde_json::{json, Value};
use std::io::Write;
use std::process::{Command, Stdio};
use wasabi_wasm as w;
use wasabi_wasm::{FunctionType, ImportOrPresent, Instr, UnaryOp, ValType};
use ValType::{F32, F64, I32, I64};

fn letters(t: &[ValType]) -> String {
    t.iter().map(|t| match t { I32 => 'i', F32 => 'f', I64 => 'l', F64 => 'd', ValType::Ref(_) => 'r' }).collect()
}
/// Exports of the same functions that carry floats as integers, because JavaScript does not keep their bits.
fn carry_bits(m: &mut w::Module) {
    let as_int = |t: &ValType| match t {
        F32 => I32,
        F64 => I64,
        t => *t,
    };
    for k in 0..m.functions.len() {
        let (t, names) = (m.functions[k].type_, std::mem::take(&mut m.functions[k].export));
        if names.is_empty() {
            continue;
        }
        let floats = |v: &[ValType]| v.iter().any(|t| matches!(t, F32 | F64));
        if (!floats(t.inputs()) && !floats(t.results())) || m.functions[k].code().is_none() {
            m.functions[k].export = names;
            continue;
        }
        let mut body = vec![];
        for (i, p) in t.inputs().iter().enumerate() {
            body.push(lget(i as u32));
            match p {
                F32 => body.push(Instr::Unary(UnaryOp::F32ReinterpretI32)),
                F64 => body.push(Instr::Unary(UnaryOp::F64ReinterpretI64)),
                _ => {}
            }
        }
        body.push(call(k as u32));
        let (i, r): (Vec<_>, Vec<_>) = (t.inputs().iter().map(as_int).collect(), t.results().iter().map(as_int).collect());
        let n = i.len() as u32;
        for k in (0..r.len() as u32).rev() {
            match t.results()[k as usize] {
                F32 => body.push(Instr::Unary(UnaryOp::I32ReinterpretF32)),
                F64 => body.push(Instr::Unary(UnaryOp::I64ReinterpretF64)),
                _ => {}
            }
            body.push(lset(n + k));
        }
        body.extend((0..r.len() as u32).map(|k| lget(n + k)));
        body.push(Instr::End);
        let f = m.add_function(FunctionType::new(&i, &r), r.clone(), body);
        m.function_mut(f).export = names;
    }
}
fn nan(t: ValType, b: u64) -> bool {
    match t {
        F32 => f32::from_bits(b as u32).is_nan(),
        F64 => f64::from_bits(b).is_nan(),
        _ => false,
    }
}
struct Expected {
    line: String,
    /// per sequence: results, calls of the environment, state
    want: Vec<Value>,
    seqs: Vec<Vec<(String, Vec<u64>)>>,
    /// result types as floats, for the comparison of NaNs
    float: std::collections::HashMap<String, Vec<ValType>>,
    text: String,
}
fn expected(original: &w::Module, seqs: &Sequences) -> Expected {
    let float = original.functions.iter().flat_map(|f| f.export.iter().map(|e| (e.clone(), f.type_.results().to_vec()))).collect();
    let mut m = decode(&original.to_bytes().unwrap());
    carry_bits(&mut m);
    let bytes = m.to_bytes().unwrap();
    validate(&bytes).expect("valid");
    let m = decode(&bytes);
    let mut r = reference(&m, Hooks::NONE, None, Policy::Forward, ApplyPolicy::Forward);
    let names = state_names(&m);
    let (mut want, mut kept) = (vec![], vec![]);
    for (_, seq) in seqs {
        let calls: Vec<(&str, &[u64])> = seq.iter().map(|(n, a)| (n.as_str(), a.as_slice())).collect();
        let o = r.run(&calls, Policy::Forward, ApplyPolicy::Forward, 20_000, 100, 5000);
        if o.limited {
            continue;
        }
        let rs: Vec<Value> = o
            .results
            .iter()
            .map(|r| match r {
                Ok(v) => json!(v.iter().map(|x| x.to_string()).collect::<Vec<_>>()),
                Err(_) => json!("trap"),
            })
            .collect();
        let mut trace = vec![];
        for (k, x) in o.trace.iter().enumerate() {
            trace.push(if o.marks.contains(&(k as u32)) { (x - ENV).to_string() } else { x.to_string() });
        }
        let i = &r.store.instances[r.inst.unwrap()];
        let mut state = vec![];
        for n in &names {
            match i.exports.get(n) {
                Some(Extern::Global(g)) => state.push(r.store.globals[*g].to_string()),
                Some(Extern::Table(t)) => {
                    let e = &r.store.tables[*t].elems;
                    state.push(e.len().to_string());
                    state.extend(e.iter().map(|x| u8::from(*x != interp::NULL).to_string()));
                }
                Some(Extern::Memory(x)) => {
                    let d = &r.store.mems[*x].data;
                    state.push(d.len().to_string());
                    for (k, c) in d.chunks_exact(8).enumerate() {
                        let v = u64::from_le_bytes(c.try_into().unwrap());
                        if v != 0 {
                            state.push(k.to_string());
                            state.push(v.to_string());
                        }
                    }
                }
                _ => {}
            }
        }
        want.push(json!([rs, trace, state]));
        kept.push(seq.clone());
    }
    let mut imports: Vec<Value> = vec![];
    for f in &m.functions {
        if let ImportOrPresent::Import(a, b) = &f.code {
            imports.push(json!([a, b, letters(f.type_.inputs()), letters(f.type_.results())]));
        }
    }
    let types: serde_json::Map<String, Value> =
        m.functions.iter().flat_map(|f| f.export.iter().map(|e| (e.clone(), json!([letters(f.type_.inputs()), letters(f.type_.results())])))).collect();
    let globals: serde_json::Map<String, Value> = m.globals.iter().flat_map(|g| g.export.iter().map(|e| (e.clone(), json!(letters(&[g.type_.0]))))).collect();
    let line = json!({
        "module": bytes.iter().map(|b| format!("{b:02x}")).collect::<String>(),
        "imports": imports, "types": types, "globals": globals, "state": names,
        "sequences": kept.iter().map(|s| s.iter().map(|(n, a)| json!([n, a.iter().map(|x| x.to_string()).collect::<Vec<_>>()])).collect::<Vec<_>>()).collect::<Vec<_>>(),
    });
    Expected { line: line.to_string(), want, seqs: kept, float, text: wat(&bytes) }
}
fn same(e: &Expected, k: usize, got: &Value) -> bool {
    if e.want[k] == *got {
        return true;
    }
    // NaNs need not have the same bits
    let (w, g) = (&e.want[k], got);
    if w[1] != g[1] || w[2] != g[2] || w[0].as_array().map(Vec::len) != g[0].as_array().map(Vec::len) {
        return false;
    }
    w[0].as_array().unwrap().iter().zip(g[0].as_array().unwrap()).zip(&e.seqs[k]).all(|((a, b), (name, _))| {
        a == b
            || match (a.as_array(), b.as_array()) {
                (Some(a), Some(b)) => a.iter().zip(b).zip(&e.float[name]).all(|((a, b), t)| {
                    let bits = |v: &Value| v.as_str().unwrap().parse::<u64>().unwrap();
                    a == b || (nan(*t, bits(a)) && nan(*t, bits(b)))
                }),
                _ => false,
            }
    })
}
fn node(input: &[Expected]) -> Option<Vec<Value>> {
    let dir = std::env::temp_dir().join(format!("conformance-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::create_dir_all(&dir).ok()?;
    let script = dir.join("run.js");
    std::fs::write(&script, include_str!("conformance.js")).ok()?;
    let data = dir.join("in");
    let mut f = std::fs::File::create(&data).ok()?;
    for e in input {
        writeln!(f, "{}", e.line).ok()?;
    }
    drop(f);
    let out = Command::new("node").arg(&script).stdin(std::fs::File::open(&data).ok()?).stderr(Stdio::inherit()).output();
    let _ = std::fs::remove_dir_all(&dir);
    let out = out.ok()?;
    let text = String::from_utf8(out.stdout).ok()?;
    let v: Vec<Value> = text.lines().map(|l| serde_json::from_str(l).unwrap_or(Value::Null)).collect();
    (out.status.success() && v.len() == input.len()).then_some(v)
}
/// Any disagreement is a defect of the machinery, not of the code under test: it ends the check.
pub fn check(ctx: &Ctx) {
    if !Command::new("node").arg("--version").stdout(Stdio::null()).stderr(Stdio::null()).status().is_ok_and(|s| s.success()) {
        ctx.assume("The interpreter was not compared with another engine in this run: node is not available.");
        return;
    }
    let mut jobs: Vec<(w::Module, Sequences)> = vec![];
    for (m, s) in [operators(!ctx.thorough), accesses(!ctx.thorough), growing(3)] {
        for part in s.chunks(400) {
            jobs.push((m.clone(), part.to_vec()));
        }
    }
    for (build, len) in [(blocks as fn(usize) -> Family, 5), (ifs, 5), (tables, 5), (nests, 6), (variables, 3), (calls, 4), (recursion, 5), (references, 4), (mixed, 3), (multi, 6)] {
        let f = build(if ctx.thorough { len + 1 } else { len });
        let mut bodies = f.all();
        if f.name.starts_with("references") {
            // The environment's answers depend on the numbers of references.
            bodies.retain(|b| !b.iter().any(|i| matches!(i, Instr::Call(_))));
        }
        for pack in bodies.chunks(24) {
            let refs: Vec<&[Instr]> = pack.iter().map(|b| b.as_slice()).collect();
            let m = f.module(&refs);
            let seqs = (0..pack.len()).flat_map(|i| f.inputs.iter().map(move |a| (i, vec![(format!("f{i}"), a.clone())]))).collect();
            jobs.push((m, seqs));
        }
    }
    let parts = 8usize;
    let compared = std::sync::atomic::AtomicU64::new(0);
    mc_common::par(parts as u64, |p| {
        let mine: Vec<Expected> = jobs.iter().enumerate().filter(|(k, _)| k % parts == p as usize).map(|(_, (m, s))| expected(m, s)).collect();
        let got = node(&mine).unwrap_or_else(|| broken("V8 did not answer"));
        for (e, g) in mine.iter().zip(&got) {
            for k in 0..e.want.len() {
                if !same(e, k, &g[k]) {
                    broken(&format!("calls {:x?}\ninterpreter {}\nV8 {}\n{}", e.seqs[k], e.want[k], g[k], e.text));
                }
            }
            compared.fetch_add(e.want.len() as u64, std::sync::atomic::Ordering::Relaxed);
        }
    });
    ctx.add("executions_compared_with_v8", compared.into_inner());
    ctx.assume("The interpreter agrees with V8 on the executions counted as executions_compared_with_v8 (all operators, memory accesses and families of this check).");
}
fn broken(what: &str) -> ! {
    eprintln!("the interpreter of this check is wrong: {what}");
    std::process::exit(3)
}
