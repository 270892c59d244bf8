//! C46: what the compilers of the languages are asked for, and what becomes of their answers.
use mc_common::Ctx;
use serde_json::json;
use std::cell::RefCell;
use std::path::PathBuf;
use std::rc::Rc;
use wastrumentation::compiler::{Compiles, DefaultCompilerOptions, SourceCodeBound};
use wastrumentation_lang_assemblyscript::compile as asc;
use wastrumentation_lang_rust::compile as rust;
use wastrumentation_lang_webassembly::compile as wat;

use rust::options::{ManifestSource, Profile, RustSource, RustSourceCode, WasiSupport};
use rust_to_wasm_compiler::Asked;

type Answer = Result<Vec<u8>, String>;
fn short(a: &impl std::fmt::Debug) -> String {
    let s = format!("{a:?}");
    if s.chars().count() > 160 { format!("{}... ({} characters)", s.chars().take(150).collect::<String>(), s.chars().count()) } else { s }
}
/// What is wrong with the answer handed on for that of the compiler.
fn wrong(got: &Answer, want: &Answer) -> Option<String> {
    match (got, want) {
        (Ok(a), Ok(b)) if a == b => None,
        (Err(a), Err(b)) if a.contains(b.as_str()) => None,
        _ => Some(format!("the compiler answered {}, handed on was {}", short(want), short(got))),
    }
}
/// Runs `steps` through one compiler made by `new`; `asked` collects what the compiler of the language is asked for.
struct Language<'a, S, A> {
    name: &'a str,
    /// Runs one step; the answer.
    run: &'a dyn Fn(&S) -> Answer,
    /// What is to be asked for, if anything.
    want: &'a dyn Fn(&S) -> (Option<A>, Answer),
    asked: &'a RefCell<Vec<A>>,
    next: &'a RefCell<Answer>,
}
impl<S: std::fmt::Debug, A: PartialEq + std::fmt::Debug> Language<'_, S, A> {
    fn sequence(&self, ctx: &Ctx, steps: &[&S]) {
        let k = ctx.get("evaluations");
        if k.is_power_of_two() {
            ctx.sample(json!({"language": self.name, "compilations": steps.iter().map(short).collect::<Vec<_>>()}));
        }
        for (i, s) in steps.iter().enumerate() {
            let (want, answer) = (self.want)(s);
            *self.next.borrow_mut() = answer.clone();
            self.asked.borrow_mut().clear();
            let got = mc_common::catch(|| (self.run)(s));
            let key = || format!("{}: {}", self.name, steps[..=i].iter().map(short).collect::<Vec<_>>().join("; "));
            ctx.add("transitions", 1);
            let asked = self.asked.borrow();
            if asked.iter().ne(want.iter()) {
                ctx.violation(&key(), || format!("the compiler was asked for {}, to be asked for was {}", short(&*asked), short(&want)));
                return;
            }
            match got {
                Ok(got) => if let Some(w) = wrong(&got, &answer) {
                    ctx.violation(&key(), || w);
                    return;
                },
                Err(_) => {
                    ctx.violation(&key(), || "panics".into());
                    return;
                }
            }
        }
        ctx.add("evaluations", 1);
        ctx.add("distinct_nontrivial", u64::from(steps.len() > 1));
    }
    /// All sequences of exactly `depth` steps.
    fn sequences(&self, ctx: &Ctx, alphabet: &[S], depth: u32) {
        let n = alphabet.len() as u64;
        for mut k in 0..n.pow(depth) {
            let steps: Vec<&S> = (0..depth).map(|_| { let s = &alphabet[(k % n) as usize]; k /= n; s }).collect();
            self.sequence(ctx, &steps);
        }
    }
}
fn texts() -> Vec<String> {
    let mut t: Vec<String> = ["", "a", "fn main() {}\n", "\r\n\ttabs, \"quotes\", `ticks`, $(sh) \\ \0 \u{feff}\u{1f600}é", " "].iter().map(|s| s.to_string()).collect();
    t.push("x".repeat(70_000));
    t
}
fn answers() -> Vec<Answer> {
    vec![Ok(vec![]), Ok(b"\0asm\x01\0\0\0".to_vec()), Ok((0..=255).collect()), Ok(vec![7; 100_000]), Err(String::new()), Err("no".into()), Err("error: line one\nline two é".into()), Err("e".repeat(9000))]
}
const PROFILES: [Profile; 2] = [Profile::Release, Profile::Dev];
const WASI: [WasiSupport; 2] = [WasiSupport::Enabled, WasiSupport::Disabled];

#[derive(Debug)]
struct RustStep(RustSource, Option<Profile>, Answer);
fn asked(s: &RustStep) -> Asked {
    let profile = s.1.unwrap_or(Profile::Release);
    match &s.0 {
        RustSource::SourceCode(w, ManifestSource(m), RustSourceCode(c)) => Asked::Source(*w, m.clone(), c.clone(), profile),
        RustSource::Manifest(w, p) => Asked::Path(*w, p.clone(), profile),
    }
}
fn rust_language(ctx: &Ctx) {
    let log = Rc::new(RefCell::new(vec![]));
    let next: Rc<RefCell<Answer>> = Rc::new(RefCell::new(Ok(vec![])));
    let (l, n) = (log.clone(), next.clone());
    rust_to_wasm_compiler::SCRIPT.with(|s| *s.borrow_mut() = Some(Box::new(move |a| { l.borrow_mut().push(a); n.borrow().clone() })));
    let Ok(compiler) = rust::compiler::Compiler::setup_compiler() else {
        ctx.violation("Rust: setup", || "the compiler cannot be set up although the compiler of the language can".into());
        return;
    };
    let run = |s: &RustStep| {
        let options = match s.1 {
            Some(profile) => rust::options::CompilerOptions { source: s.0.clone(), profile },
            None => rust::options::CompilerOptions::default_for(s.0.clone()),
        };
        compiler.compile(&options).map_err(|e| e.reason().to_string())
    };
    let want = |s: &RustStep| (Some(asked(s)), s.2.clone());
    let lang = Language { name: "Rust", run: &run, want: &want, asked: &log, next: &next };
    let source = |w, m: &str, c: &str| RustSource::SourceCode(w, ManifestSource(m.into()), RustSourceCode(c.into()));
    let paths: Vec<PathBuf> = {
        use std::os::unix::ffi::OsStringExt;
        let mut p: Vec<PathBuf> = ["", "Cargo.toml", "./Cargo.toml", "../other/Cargo.toml", "/a b/é/$HOME/Cargo.toml", "analysis/", "/x//y/Manifest"].iter().map(Into::into).collect();
        p.push(std::ffi::OsString::from_vec(vec![b'/', 0xff, b'/', b'C']).into());
        p
    };
    // Every single compilation.
    for w in WASI {
        for profile in [Some(PROFILES[0]), Some(PROFILES[1]), None] {
            for a in answers() {
                for m in texts() {
                    for c in texts() {
                        lang.sequence(ctx, &[&RustStep(source(w, &m, &c), profile, a.clone())]);
                    }
                }
                for p in &paths {
                    lang.sequence(ctx, &[&RustStep(RustSource::Manifest(w, p.clone()), profile, a.clone())]);
                }
            }
        }
    }
    // Sequences through one compiler, the answers told apart.
    let mut alphabet = vec![];
    for w in WASI {
        for profile in PROFILES {
            let mut sources = vec![RustSource::Manifest(w, "p".into()), RustSource::Manifest(w, "q".into())];
            for m in ["m", "n"] {
                for c in ["c", "d"] {
                    sources.push(source(w, m, c));
                }
            }
            for s in sources {
                for k in [0u8, 1, 2] {
                    alphabet.push(RustStep(s.clone(), Some(profile), if k < 2 { Ok(vec![k]) } else { Err("error".into()) }));
                }
            }
        }
    }
    lang.sequences(ctx, &alphabet, 2);
    lang.sequences(ctx, &alphabet, 3);
    if ctx.thorough {
        let few: Vec<RustStep> = alphabet.into_iter().step_by(2).collect();
        lang.sequences(ctx, &few, 4);
    }
    rust_to_wasm_compiler::SCRIPT.with(|s| *s.borrow_mut() = None);
}

#[derive(Debug)]
struct AscStep(String, Answer);
fn assemblyscript(ctx: &Ctx) {
    let log = Rc::new(RefCell::new(vec![]));
    let next: Rc<RefCell<Answer>> = Rc::new(RefCell::new(Ok(vec![])));
    let (l, n) = (log.clone(), next.clone());
    asc_compiler_rs::compiler::SCRIPT.with(|s| *s.borrow_mut() = Some(Box::new(move |a| { l.borrow_mut().push(a.to_string()); n.borrow().clone() })));
    type C = asc::compiler::Compiler;
    let Ok(compiler) = <C as Compiles<asc::AssemblyScript>>::setup_compiler() else {
        ctx.violation("AssemblyScript: setup", || "the compiler cannot be set up although the compiler of the language can".into());
        return;
    };
    let run = |s: &AscStep| {
        let options = <<asc::AssemblyScript as SourceCodeBound>::DefaultCompilerOptions as DefaultCompilerOptions<asc::AssemblyScript>>::default_for(s.0.clone());
        <C as Compiles<asc::AssemblyScript>>::compile(&compiler, &options).map_err(|e| e.reason().to_string())
    };
    let want = |s: &AscStep| (Some(s.0.clone()), s.1.clone());
    let lang = Language { name: "AssemblyScript", run: &run, want: &want, asked: &log, next: &next };
    for t in texts() {
        for a in answers() {
            lang.sequence(ctx, &[&AscStep(t.clone(), a)]);
        }
    }
    let mut alphabet = vec![];
    for t in ["", "a", "b", "c"] {
        for a in [Ok(vec![0]), Ok(vec![1]), Err("error".to_string())] {
            alphabet.push(AscStep(t.into(), a));
        }
    }
    for d in 2..=if ctx.thorough { 5 } else { 4 } {
        lang.sequences(ctx, &alphabet, d);
    }
    asc_compiler_rs::compiler::SCRIPT.with(|s| *s.borrow_mut() = None);
}

#[derive(Debug)]
enum WatStep { Module(Vec<u8>), Wat(String) }
/// The encoding of a module in the text format, taken directly; none if the text is none.
fn encoded(text: &str) -> Option<Vec<u8>> {
    ::wat::parse_str(text).ok()
}
fn webassembly(ctx: &Ctx) {
    let none: RefCell<Vec<()>> = RefCell::new(vec![]);
    let next: RefCell<Answer> = RefCell::new(Ok(vec![]));
    let Ok(compiler) = wat::compiler::Compiler::setup_compiler() else {
        ctx.violation("WebAssembly: setup", || "the compiler cannot be set up".into());
        return;
    };
    let run = |s: &WatStep| {
        use wat::options::{CompilerOptions, WebAssemblySource as W};
        let options = CompilerOptions::default_for(match s { WatStep::Module(m) => W::Module(m.clone()), WatStep::Wat(t) => W::Wat(t.clone()) });
        match compiler.compile(&options) {
            Ok(m) => Ok(m),
            Err(e) if e.reason().is_empty() => Ok(b"an error without a reason".to_vec()),
            Err(e) => Err(e.reason().to_string()),
        }
    };
    // An error must be one; what it says is the business of the parser.
    let want = |s: &WatStep| (None, match s { WatStep::Module(m) => Ok(m.clone()), WatStep::Wat(t) => encoded(t).ok_or_else(String::new) });
    let lang = Language { name: "WebAssembly", run: &run, want: &want, asked: &none, next: &next };
    for n in (0..300).chain([4095, 4096, 4097, 65535, 65536, 65537, 1 << 20]) {
        lang.sequence(ctx, &[&WatStep::Module((0..n).map(|i| (i * 31 + n) as u8).collect())]);
        let mut m = b"\0asm\x01\0\0\0".to_vec();
        m.resize(8 + n, 0);
        lang.sequence(ctx, &[&WatStep::Module(m)]);
    }
    for b in 0..=255u8 {
        for c in 0..=255u8 {
            lang.sequence(ctx, &[&WatStep::Module(vec![b, c])]);
        }
    }
    // A text is a text, also where its bytes are those of a module, and bytes stay bytes, also where they are a text.
    let pieces = ["(module)", "(module", ")", "", "\0asm\u{1}\0\0\0", "(func)", "(module (func (result i32) i32.const 1))", "(module (func (result i32)))", "(module (memory 1) (data (i32.const 0) \"\\00\\ff\"))", ";; c\n", "\u{1f600}", "(module $n (func $f (export \"f\") (param i64)))", "(module quote \"(func)\")", "(module binary \"\\00asm\\01\\00\\00\\00\")"];
    for a in pieces {
        for b in pieces {
            for t in [format!("{a}{b}"), format!("{a}\n{b}"), format!(" {a} (; c ;) {b} ")] {
                lang.sequence(ctx, &[&WatStep::Module(t.clone().into_bytes())]);
                lang.sequence(ctx, &[&WatStep::Wat(t)]);
            }
        }
    }
    for n in [1usize, 100, 1000, 10_000] {
        lang.sequence(ctx, &[&WatStep::Wat(format!("(module {})", "(func (export \"f\")) ".repeat(n).split("f\"").enumerate().map(|(i, s)| format!("{s}{}", if s.ends_with('"') { format!("f{i}\"") } else { String::new() })).collect::<String>()))]);
    }
    let mut alphabet: Vec<WatStep> = ["(module)", "(module (func))", "(module", ""].iter().map(|t| WatStep::Wat(t.to_string())).collect();
    alphabet.extend([vec![], b"(module)".to_vec(), vec![1], vec![2], b"\0asm\x01\0\0\0".to_vec()].map(WatStep::Module));
    for d in 2..=if ctx.thorough { 5 } else { 4 } {
        lang.sequences(ctx, &alphabet, d);
    }
}
pub fn compilers(ctx: &Ctx) {
    rust_language(ctx);
    assemblyscript(ctx);
    webassembly(ctx);
    ctx.set("exhaustive", json!(true));
    ctx.set("rule", json!("every kind of source, option and answer alone; every sequence of compilations through one compiler up to a depth over a small alphabet of sources, options and answers; non-trivial if more than one compilation"));
    ctx.assume("the stand-ins for the crates that run rustc and asc hand on what they are asked for");
}
