//! C27, C32: the library of value buffers on its own, and the assembly of the parts.
use crate::behaviour::assume;
use crate::driver::*;
use crate::gen::*;
use crate::model::*;
use interp::{Embedder, Extern, Store, Trap};
use mc_common::Ctx;
use serde_json::json;
use std::cell::RefCell;
use wasabi_wasm as w;
use wasabi_wasm::{FunctionType, ValType};
use wastrumentation::analysis::ProcessedAnalysis;
use wastrumentation::compiler::{CompilationError, CompilationResult, Compiles, DefaultCompilerOptions, LibGeneratable, Library, SourceCodeBound};
use wastrumentation::error::Error;
use wastrumentation::wasm_constructs::{Signature, SignatureSide, WasmType};
use wastrumentation::{Configuration, PrimaryTarget, Wastrumenter};
use wastrumentation_lang_webassembly::compile::{compiler::Compiler as WatCompiler, WebAssembly};
use ValType::{F32, F64, I32, I64};

struct Nobody;
impl Embedder for Nobody {
    const OBSERVES: bool = false;
    fn host(&mut self, _: &mut Store, _: usize, _: &[u64]) -> Result<Vec<u64>, Trap> {
        unreachable!()
    }
}
/// (arguments, results)
pub type Sig = (Vec<ValType>, Vec<ValType>);
fn wasm_type(t: ValType) -> WasmType {
    match t {
        I32 => WasmType::I32,
        F32 => WasmType::F32,
        I64 => WasmType::I64,
        F64 => WasmType::F64,
        ValType::Ref(_) => unreachable!(),
    }
}
pub fn signature(s: &Sig) -> Signature {
    Signature { return_types: s.1.iter().map(|t| wasm_type(*t)).collect(), argument_types: s.0.iter().map(|t| wasm_type(*t)).collect() }
}
fn small(t: ValType) -> &'static str {
    match t {
        I32 => "i32",
        F32 => "f32",
        I64 => "i64",
        F64 => "f64",
        ValType::Ref(_) => unreachable!(),
    }
}
/// A value of type `t` that differs for every k.
fn value(t: ValType, k: u64) -> u64 {
    let x = (k + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 0x8000_0000_8000_0000;
    match t {
        I32 | F32 => x >> 32 ^ (x & 0xffff_ffff),
        _ => x,
    }
}

/// How the library of an instrumentation language comes about.
#[derive(Clone, Copy)]
pub struct Maker {
    pub compile: fn(&[Signature]) -> Result<Vec<u8>, String>,
    /// The library also stores types on request.
    pub stores_types: bool,
    /// Signatures per library when each is tried on its own.
    pub chunk: usize,
}
pub fn compiled<L: LibGeneratable, C: Compiles<L>>(s: &[Signature]) -> Result<Vec<u8>, String>
where
    C::CompilerOptions: DefaultCompilerOptions<L>,
    C::CompilerSetupError: std::fmt::Debug,
{
    let lib = L::generate_lib(s);
    let options = C::CompilerOptions::default_for(lib.content);
    C::setup_compiler().unwrap().compile(&options).map_err(|e| format!("the library does not compile: {}", e.reason))
}
pub const WAT: Maker = Maker { compile: compiled::<WebAssembly, WatCompiler>, stores_types: true, chunk: 1 };
struct Lib {
    store: Store,
    inst: usize,
    stores_types: bool,
}
impl Lib {
    fn new(maker: &Maker, sigs: &[Sig]) -> Result<Lib, String> {
        let s: Vec<Signature> = sigs.iter().map(signature).collect();
        let bytes = (maker.compile)(&s)?;
        validate(&bytes).map_err(|e| format!("the library is invalid: {e}"))?;
        let m = decode(&bytes);
        let mut store = Store::new();
        let inst = store
            .instantiate(&m, &mut Nobody, |_, a, b, _| panic!("the library imports {a}.{b}"))
            .map_err(|t| format!("the library does not instantiate: {t:?}"))?;
        Ok(Lib { store, inst, stores_types: maker.stores_types })
    }
    fn has(&self, name: &str, args: &[ValType], res: &[ValType]) -> Result<(), String> {
        match self.store.instances[self.inst].exports.get(name) {
            Some(Extern::Func(x)) if self.store.types[*x] == FunctionType::new(args, res) => Ok(()),
            Some(Extern::Func(x)) => Err(format!("{name} has type {:?}", self.store.types[*x])),
            _ => Err(format!("{name} is not exported")),
        }
    }
    fn call(&mut self, name: &str, args: &[u64]) -> Result<Vec<u64>, String> {
        self.store.fuel = 1_000_000;
        let f = self.store.func_export(self.inst, name).ok_or(format!("{name} is not exported"))?;
        self.store.invoke(&mut Nobody, f, args).map_err(|t| format!("{name}({args:x?}) traps: {t:?}"))
    }
    fn call1(&mut self, name: &str, args: &[u64]) -> Result<u64, String> {
        Ok(self.call(name, args)?[0])
    }
}
/// Everything the library must offer for a signature.
fn offers(lib: &Lib, s: &Sig) -> Result<(), String> {
    let n = signature(s);
    lib.has(&n.generate_allocate_values_buffer_name(), &s.0, &[I32])?;
    lib.has(&n.generate_free_values_buffer_name(), &[I32], &[])?;
    lib.has(&n.generate_allocate_types_buffer_name(), &[], &[I32])?;
    lib.has(&n.generate_free_types_buffer_name(), &[I32], &[])?;
    let mut all = vec![I32];
    all.extend(&s.1);
    lib.has(&n.generate_store_rets_name(), &all, &[])?;
    for (side, types) in [(SignatureSide::Argument, &s.0), (SignatureSide::Return, &s.1)] {
        for (k, t) in types.iter().enumerate() {
            lib.has(&n.generate_load_name(side, k), &[I32], &[*t])?;
            lib.has(&n.generate_store_name(side, k), &[I32, *t], &[])?;
        }
    }
    for t in [I32, F32, I64, F64] {
        lib.has(&format!("wastrumentation_stack_load_{}", small(t)), &[I32, I32], &[t])?;
        lib.has(&format!("wastrumentation_stack_store_{}", small(t)), &[I32, t, I32], &[])?;
    }
    lib.has("wastrumentation_stack_load_type", &[I32, I32], &[I32])?;
    if lib.stores_types {
        lib.has("wastrumentation_stack_store_type", &[I32, I32, I32], &[])?;
    }
    Ok(())
}

/// A live buffer: of values (results first, then arguments; `None`: never written) or of types.
#[derive(Clone, Debug)]
struct Frame {
    sig: usize,
    types: bool,
    at: u64,
    slots: Vec<Option<u64>>,
}
fn slot_type(s: &Sig, k: usize) -> ValType {
    if k < s.1.len() {
        s.1[k]
    } else {
        s.0[k - s.1.len()]
    }
}
fn slot_names(s: &Sig, k: usize) -> (String, String) {
    let n = signature(s);
    let (side, i) = if k < s.1.len() { (SignatureSide::Return, k) } else { (SignatureSide::Argument, k - s.1.len()) };
    (n.generate_load_name(side, i), n.generate_store_name(side, i))
}
#[derive(Clone, Debug, PartialEq)]
enum Op {
    AllocateValues(usize),
    AllocateTypes(usize),
    /// (buffer, slot, through the function for that slot or the general one)
    Store(usize, usize, bool),
    StoreResults(usize),
    StoreType(usize, usize),
    Free,
}
fn enabled(sigs: &[Sig], frames: &[Frame], stores_types: bool) -> Vec<Op> {
    let mut v = vec![];
    for k in 0..sigs.len() {
        v.push(Op::AllocateValues(k));
        v.push(Op::AllocateTypes(k));
    }
    for (f, fr) in frames.iter().enumerate() {
        for k in 0..fr.slots.len() {
            if fr.types {
                if stores_types {
                    v.push(Op::StoreType(f, k));
                }
            } else {
                v.push(Op::Store(f, k, true));
                v.push(Op::Store(f, k, false));
            }
        }
        if !fr.types {
            v.push(Op::StoreResults(f));
        }
    }
    if !frames.is_empty() {
        v.push(Op::Free);
    }
    v
}
/// Performs the operation on both, and compares all buffers afterwards.
fn perform(lib: &mut Lib, sigs: &[Sig], frames: &mut Vec<Frame>, op: &Op, salt: u64) -> Result<(), String> {
    match op {
        Op::AllocateValues(k) => {
            let s = &sigs[*k];
            let args: Vec<u64> = s.0.iter().enumerate().map(|(i, t)| value(*t, salt * 16 + i as u64)).collect();
            let at = lib.call1(&signature(s).generate_allocate_values_buffer_name(), &args)?;
            let mut slots = vec![None; s.1.len()];
            slots.extend(args.into_iter().map(Some));
            frames.push(Frame { sig: *k, types: false, at, slots });
        }
        Op::AllocateTypes(k) => {
            let s = &sigs[*k];
            let at = lib.call1(&signature(s).generate_allocate_types_buffer_name(), &[])?;
            let slots = s.1.iter().chain(&s.0).map(|t| Some(type_code(*t))).collect();
            frames.push(Frame { sig: *k, types: true, at, slots });
        }
        Op::Store(f, k, named) => {
            let fr = &mut frames[*f];
            let s = &sigs[fr.sig];
            let t = slot_type(s, *k);
            let v = value(t, salt * 16 + 7);
            if *named {
                lib.call(&slot_names(s, *k).1, &[fr.at, v])?;
            } else {
                lib.call(&format!("wastrumentation_stack_store_{}", small(t)), &[fr.at, v, *k as u64])?;
            }
            fr.slots[*k] = Some(v);
        }
        Op::StoreResults(f) => {
            let fr = &mut frames[*f];
            let s = &sigs[fr.sig];
            let mut args = vec![fr.at];
            for (i, t) in s.1.iter().enumerate() {
                let v = value(*t, salt * 16 + 8 + i as u64);
                args.push(v);
                fr.slots[i] = Some(v);
            }
            lib.call(&signature(s).generate_store_rets_name(), &args)?;
        }
        Op::StoreType(f, k) => {
            let fr = &mut frames[*f];
            let v = salt % 6;
            lib.call("wastrumentation_stack_store_type", &[fr.at, *k as u64, v])?;
            fr.slots[*k] = Some(v);
        }
        Op::Free => {
            let fr = frames.pop().unwrap();
            let n = signature(&sigs[fr.sig]);
            lib.call(&if fr.types { n.generate_free_types_buffer_name() } else { n.generate_free_values_buffer_name() }, &[fr.at])?;
        }
    }
    compare(lib, sigs, frames)
}
fn compare(lib: &mut Lib, sigs: &[Sig], frames: &[Frame]) -> Result<(), String> {
    for (i, fr) in frames.iter().enumerate() {
        let s = &sigs[fr.sig];
        for (k, want) in fr.slots.iter().enumerate() {
            let Some(want) = want else { continue };
            let mut check = |name: &str, args: &[u64]| {
                let got = lib.call1(name, args)?;
                if got == *want {
                    Ok(())
                } else {
                    Err(format!("buffer {i} ({s:?}, {}), slot {k}: {name} gives {got:#x} instead of {want:#x}", if fr.types { "types" } else { "values" }))
                }
            };
            if fr.types {
                check("wastrumentation_stack_load_type", &[fr.at, k as u64])?;
            } else {
                check(&slot_names(s, k).0, &[fr.at])?;
                check(&format!("wastrumentation_stack_load_{}", small(slot_type(s, k))), &[fr.at, k as u64])?;
            }
        }
    }
    Ok(())
}
/// What was freed is used again: the same allocations, freed each time, get the addresses of an earlier
/// round, or at least do so often enough that memory does not grow.
fn reclaimed(lib: &mut Lib, one: &[Sig]) -> Result<(), String> {
    let slots = one[0].0.len() + one[0].1.len();
    if slots == 0 {
        return Ok(());
    }
    let before = lib.store.mems[0].data.len();
    let mut seen: Vec<Vec<u64>> = vec![];
    for round in 0..3 * 65536 / (4 * slots as u64) {
        let mut fr: Vec<Frame> = vec![];
        for op in [Op::AllocateValues(0), Op::AllocateTypes(0), Op::AllocateTypes(0), Op::AllocateValues(0)] {
            perform(lib, one, &mut fr, &op, round % 16)?;
        }
        let at: Vec<u64> = fr.iter().map(|f| f.at).collect();
        while !fr.is_empty() {
            perform(lib, one, &mut fr, &Op::Free, 0)?;
        }
        if seen.contains(&at) {
            return Ok(());
        }
        if round < 64 {
            seen.push(at);
        }
        let now = lib.store.mems[0].data.len();
        if now > before + 65536 {
            return Err(format!("freed buffers are not used again: {before} bytes of memory became {now} over {round} rounds"));
        }
    }
    Ok(())
}
struct Search<'a> {
    ctx: &'a Ctx,
    sigs: &'a [Sig],
    depth: usize,
    states: u64,
    transitions: u64,
    complete: u64,
    deepest: usize,
}
impl Search<'_> {
    fn dfs(&mut self, lib: &mut Lib, frames: &[Frame], path: &mut Vec<Op>) -> bool {
        self.states += 1;
        if path.len() == self.depth {
            self.complete += 1;
            return true;
        }
        let snap = lib.store.snapshot();
        for op in enabled(self.sigs, frames, lib.stores_types) {
            let mut fr = frames.to_vec();
            path.push(op.clone());
            self.deepest = self.deepest.max(fr.len());
            self.transitions += 1;
            let r = perform(lib, self.sigs, &mut fr, &op, path.len() as u64);
            if let Err(e) = r {
                self.ctx.violation(&format!("{:?}: {path:?}", self.sigs), || e);
                return false;
            }
            if !self.dfs(lib, &fr, path) {
                return false;
            }
            path.pop();
            lib.store.restore(&snap);
        }
        true
    }
}
fn types(s: &str) -> Vec<ValType> {
    s.chars().map(|c| match c { 'i' => I32, 'f' => F32, 'l' => I64, _ => F64 }).collect()
}
fn sig(a: &str, r: &str) -> Sig {
    (types(a), types(r))
}
/// C27: the library of buffers.
pub fn buffers(ctx: &Ctx) {
    assume(ctx);
    let depth = if ctx.thorough { 6 } else { 5 };
    buffers_of(ctx, &WAT, if ctx.thorough { (5, 3) } else { (4, 2) }, depth, true);
}
/// At most `pa` arguments and `pr` results; `depth` operations.
pub fn buffers_of(ctx: &Ctx, maker: &Maker, (pa, pr): (usize, usize), depth: usize, many: bool) {
    // every signature on its own, and with itself repeated
    let t = ["", "i", "f", "l", "d"];
    let list = |n: usize| -> Vec<String> { mc_common::sequences(4, 0, n).into_iter().map(|s| s.iter().map(|k| t[k + 1]).collect()).collect() };
    let mut each: Vec<Sig> = vec![];
    for a in list(pa) {
        for r in list(pr) {
            each.push(sig(&a, &r));
        }
    }
    for n in [9usize, 10, 11, 12, 25, 100] {
        each.push((types(&"ifld".repeat(n)[..n]), types(&"dlfi".repeat(n)[..n])));
        each.push((types(&"i".repeat(n)), vec![]));
        each.push((vec![], types(&"d".repeat(n))));
    }
    ctx.add("signatures", each.len() as u64);
    // by themselves, and many in one library
    let mut chunks: Vec<&[Sig]> = each.chunks(maker.chunk).collect();
    if maker.chunk == 1 {
        chunks.extend(each.chunks(61));
    }
    mc_common::par(chunks.len() as u64, |k| {
        let mut sigs = chunks[k as usize].to_vec();
        sigs.extend_from_slice(chunks[k as usize]);
        let mut lib = match Lib::new(maker, &sigs) {
            Ok(lib) => lib,
            Err(e) => {
                ctx.violation(&format!("{sigs:?}").chars().take(200).collect::<String>(), || e);
                return;
            }
        };
        for s in chunks[k as usize] {
        if ctx.n_violations() > 30 {
            return;
        }
        let mut go = || -> Result<(), String> {
            offers(&lib, s)?;
            let (one, mut fr) = (&[s.clone()][..], vec![]);
            let mut salt = 0;
            let mut step = |lib: &mut Lib, fr: &mut Vec<Frame>, op: Op| {
                salt += 1;
                perform(lib, one, fr, &op, salt).map_err(|e| format!("{op:?}: {e}"))
            };
            for op in [Op::AllocateValues(0), Op::AllocateTypes(0), Op::StoreResults(0), Op::AllocateValues(0), Op::AllocateTypes(0), Op::StoreResults(2)] {
                step(&mut lib, &mut fr, op)?;
            }
            for f in [0, 2] {
                for k in 0..fr[f].slots.len() {
                    step(&mut lib, &mut fr, Op::Store(f, k, true))?;
                    step(&mut lib, &mut fr, Op::Store(f, k, false))?;
                }
            }
            for _ in 0..4 {
                step(&mut lib, &mut fr, Op::Free)?;
            }
            reclaimed(&mut lib, one)
        };
        ctx.add("signatures_exercised", 1);
        if let Err(e) = go() {
            ctx.violation(&format!("{s:?}"), || e);
        }
        }
    });
    // All operation sequences over small libraries.
    let sets: Vec<Vec<Sig>> = vec![
        vec![sig("", ""), sig("i", "l")],
        vec![sig("i", "i"), sig("ii", "")],
        vec![sig("f", "d"), sig("d", "f")],
        vec![sig("", "il"), sig("li", "")],
        vec![sig("", ""), sig("", "f")],
        vec![sig("i", ""), sig("f", ""), sig("", "i")],
        vec![sig("ld", "f"), sig("dl", "f")],
        vec![sig("l", "l"), sig("l", "l")],
    ];
    // The first operations are distributed.
    let mut jobs: Vec<(usize, Vec<Op>)> = vec![];
    for (k, s) in sets.iter().enumerate() {
        let mut lib = match Lib::new(maker, s) {
            Ok(l) => l,
            Err(e) => {
                ctx.violation(&format!("{s:?}"), || e);
                continue;
            }
        };
        let snap = lib.store.snapshot();
        for first in enabled(s, &[], lib.stores_types) {
            let mut fr = vec![];
            lib.store.restore(&snap);
            if perform(&mut lib, s, &mut fr, &first, 1).is_err() {
                jobs.push((k, vec![first]));
                continue;
            }
            for second in enabled(s, &fr, lib.stores_types) {
                jobs.push((k, vec![first.clone(), second]));
            }
        }
    }
    mc_common::par(jobs.len() as u64, |j| {
        let (k, start) = &jobs[j as usize];
        let s = &sets[*k];
        let Ok(mut lib) = Lib::new(maker, s) else { return };
        let mut fr = vec![];
        let mut path = vec![];
        for op in start {
            path.push(op.clone());
            if let Err(e) = perform(&mut lib, s, &mut fr, op, path.len() as u64) {
                ctx.violation(&format!("{s:?}: {path:?}"), || e);
                return;
            }
        }
        let mut search = Search { ctx, sigs: s, depth, states: 0, transitions: 0, complete: 0, deepest: 0 };
        search.dfs(&mut lib, &fr, &mut path);
        ctx.add("states", search.states);
        ctx.add("transitions", search.transitions);
        ctx.add("traces_validated_against_impl", search.complete);
        if j % 40 == 3 {
            ctx.sample(json!({"library": format!("{s:?}"), "first_operations": format!("{start:?}"), "histories_from_there": search.complete, "live_buffers_at_most": search.deepest}));
        }
    });
    ctx.set("libraries_explored_in_depth", json!(sets.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>()));
    ctx.set("depth", json!(depth));
    ctx.set("exhaustive", json!(true));
    ctx.set("rule", json!("a state is a history of operations (allocate, store, load, free of value and type buffers) on a library, all of them up to the depth; after each operation everything live is read back and compared with the model"));
    if !many {
        return;
    }
    // Buffers across page boundaries, and reclaiming them.
    let big: Vec<(Sig, Sig)> = vec![
        (sig("i", ""), sig("", "")),
        (sig("il", "fd"), sig("i", "")),
        ((types(&"ifld".repeat(30)), types("dd")), sig("l", "l")),
        ((types(&"l".repeat(900)), types(&"d".repeat(77))), sig("l", "l")),
    ];
    mc_common::par(big.len() as u64, |k| {
        let (a, b) = &big[k as usize];
        let sigs = vec![a.clone(), b.clone()];
        let go = || -> Result<(), String> {
            let mut lib = Lib::new(maker, &sigs)?;
            for types in [false, true] {
                let per = (a.0.len() + a.1.len()) as u64 * if types { 4 } else { 8 };
                let around = 65536 / per;
                for n in [around - 1, around, around + 1, 2 * around + 1] {
                    let mut fr: Vec<Frame> = vec![];
                    let mut pages = vec![];
                    for round in 0..2u64 {
                        for i in 0..n {
                            // cheap: the comparison of everything happens at the boundary only
                            let op = if types { Op::AllocateTypes(0) } else { Op::AllocateValues(0) };
                            let mut last: Vec<Frame> = vec![];
                            perform(&mut lib, &sigs, &mut last, &op, i + round)?;
                            fr.extend(last);
                        }
                        compare(&mut lib, &sigs, &fr)?;
                        pages.push(lib.store.mems[0].data.len());
                        let mut distinct: Vec<u64> = fr.iter().map(|f| f.at).collect();
                        distinct.sort_unstable();
                        if distinct.windows(2).any(|w| w[1] - w[0] < per) {
                            return Err("live buffers overlap".into());
                        }
                        while let Some(f) = fr.pop() {
                            let s = signature(&sigs[0]);
                            let name = if types { s.generate_free_types_buffer_name() } else { s.generate_free_values_buffer_name() };
                            lib.call(&name, &[f.at])?;
                        }
                    }
                    if pages[0] != pages[1] {
                        return Err(format!("freed buffers are not used again: {pages:?} bytes"));
                    }
                }
            }
            Ok(())
        };
        if let Err(e) = go() {
            ctx.violation(&format!("many buffers of {a:?}").chars().take(200).collect::<String>(), || e);
        }
    });
}

// ---------------------------------------------------------------------------------------------- C32
thread_local! {
    static LIB_FAILS: RefCell<bool> = const { RefCell::new(false) };
    static LIB_COMPILED: RefCell<Vec<Vec<String>>> = const { RefCell::new(vec![]) };
}
/// An instrumentation language whose source is the list of signatures, and whose compiler answers as told.
#[derive(Debug)]
struct Lang;
struct LangOptions(Vec<String>);
impl DefaultCompilerOptions<Lang> for LangOptions {
    fn default_for(library: Vec<String>) -> Self {
        LangOptions(library)
    }
}
impl SourceCodeBound for Lang {
    type DefaultCompilerOptions = LangOptions;
    type SourceCode = Vec<String>;
}
impl LibGeneratable for Lang {
    fn generate_lib(signatures: &[Signature]) -> Library<Self> {
        let mut content: Vec<String> = signatures.iter().map(|s| s.generate_allocate_values_buffer_name()).collect();
        content.sort();
        Library { content, language: std::marker::PhantomData }
    }
}
struct LangCompiler;
const LIB_BYTES: &[u8] = b"\0the compiled library";
impl Compiles<Lang> for LangCompiler {
    type CompilerOptions = LangOptions;
    type CompilerSetupError = ();
    fn setup_compiler() -> Result<Self, ()> {
        Ok(LangCompiler)
    }
    fn compile(&self, o: &LangOptions) -> CompilationResult<Lang> {
        LIB_COMPILED.with(|l| l.borrow_mut().push(o.0.clone()));
        if LIB_FAILS.with(|f| *f.borrow()) {
            return Err(CompilationError::because("the library does not compile".into()));
        }
        Ok(LIB_BYTES.to_vec())
    }
}
/// C32: which parts are merged, as what, and which failure is reported.
pub fn assembly(ctx: &Ctx) {
    assume(ctx);
    let programs: Vec<(&str, Vec<u8>, bool)> = {
        let mut plain = w::Module::new();
        import(&mut plain, "imp", ft(&[I32], &[I32]));
        func(&mut plain, ft(&[I32], &[I32]), &[I64], vec![lget(0), call(0)], "f");
        func(&mut plain, ft(&[F32, F64], &[]), &[], vec![], "g");
        vec![
            ("plain", plain.to_bytes().unwrap(), true),
            ("empty module", w::Module::new().to_bytes().unwrap(), true),
            ("not a module", b"hello".to_vec(), false),
            ("nothing", vec![], false),
            ("cut off", plain.to_bytes().unwrap()[..20].to_vec(), false),
        ]
    };
    let primaries = [None, Some(PrimaryTarget::Analysis), Some(PrimaryTarget::Target), Some(PrimaryTarget::Instrumentation)];
    let hooks = [Hooks::NONE, Hooks::of(&["apply"]), Hooks::traps(), Hooks::all()];
    let targets = [None, Some(vec![]), Some(vec![1]), Some(vec![0, 1, 2])];
    let analyses: [&[u8]; 3] = [b"the compiled analysis", b"", &[0, 97, 115, 109, 255, 0]];
    ctx.set("exhaustive", json!(true));
    ctx.set("rule", json!("every program, primary, hook set, selection, analysis and set of failing stages; non-trivial unless nothing can fail and nothing can be instrumented"));
    for (name, bytes, valid) in &programs {
        for primary in primaries {
            for h in hooks {
                for target in &targets {
                    for analysis in analyses {
                        for fails in 0..8u32 {
                            let [no_analysis, no_lib, no_merge] = [0, 1, 2].map(|k| fails >> k & 1 == 1);
                            ctx.add("evaluations", 1);
                            ctx.add("distinct_nontrivial", u64::from(*name == "plain" || fails != 0));
                            if fails == 5 && analysis.is_empty() && h.has(APPLY) {
                                ctx.sample(json!({"program": name, "primary": format!("{primary:?}"), "functions": format!("{target:?}"), "failing": format!("{fails:03b}")}));
                            }
                            let r = one_assembly(bytes, *valid, primary, h, target.clone(), analysis, no_analysis, no_lib, no_merge, name);
                            if let Err(e) = r {
                                ctx.violation(
                                    &format!("{name}, primary {primary:?}, hooks {}, functions {target:?}, failing {fails:03b}", h.describe().chars().take(40).collect::<String>()),
                                    || e,
                                );
                            }
                        }
                    }
                }
            }
        }
    }
}
fn one_assembly(
    bytes: &[u8],
    valid: bool,
    primary: Option<PrimaryTarget>,
    hooks: Hooks,
    targets: Option<Vec<u32>>,
    analysis: &[u8],
    no_analysis: bool,
    no_lib: bool,
    no_merge: bool,
    name: &str,
) -> Result<(), String> {
    LIB_FAILS.with(|f| *f.borrow_mut() = no_lib);
    LIB_COMPILED.with(|f| f.borrow_mut().clear());
    wasm_merge::take_recorded();
    wasm_merge::fail_next(no_merge);
    let source = AnalysisSource { module: analysis.to_vec(), fails: no_analysis.then(|| "the analysis does not compile".to_string()) };
    let processed = ProcessedAnalysis { analysis_library: source, analysis_interface: hooks.interface() };
    let config = Configuration { target_indices: targets.clone(), primary_selection: primary };
    let r = mc_common::catch_on(bytes, || Wastrumenter::<Lang, LangCompiler, Analysis, AnalysisCompiler>::new(Box::new(LangCompiler), Box::new(AnalysisCompiler)).wastrument(bytes, processed, &config));
    wasm_merge::fail_next(false);
    let merged = wasm_merge::take_recorded();
    let compiled = LIB_COMPILED.with(|l| l.borrow().clone());
    let r = r.map_err(|p| format!("panicked: {p}"))?;
    // The library is needed for applications of functions of the module that are selected.
    let signatures: Vec<&str> = if hooks.has(APPLY) && name == "plain" {
        let of = [(0, "allocate_ret_i32_arg_i32"), (1, "allocate_ret_i32_arg_i32"), (2, "allocate_ret_arg_f32_f64")];
        let mut v: Vec<&str> = of.iter().filter(|(i, _)| targets.as_ref().is_none_or(|t| t.contains(i))).map(|x| x.1).collect();
        v.sort_unstable();
        v.dedup();
        v
    } else {
        vec![]
    };
    let lib_fails = no_lib && !compiled.is_empty();
    if let Some(c) = compiled.first() {
        let mut c = c.clone();
        c.dedup();
        if c != signatures {
            return Err(format!("a library for {c:?} is compiled instead of for {signatures:?}"));
        }
    }
    if compiled.len() > 1 {
        return Err("the library is compiled more than once".into());
    }
    match r {
        Err(e) => {
            if merged.is_some() && !matches!(e, Error::MergeError(_)) {
                return Err(format!("modules are merged although this failed: {e:?}"));
            }
            let right = match &e {
                Error::CompilationErrorAnalysis(e) => no_analysis && e.reason() == "the analysis does not compile",
                Error::InstrumentationError(_) => !valid,
                Error::CompilationErrorInstrumentation(e) => lib_fails && e.reason() == "the library does not compile",
                Error::MergeError(e) => no_merge && merged.is_some() && format!("{e:?}").contains("told to fail"),
            };
            if !right {
                return Err(format!("the error is {e:?}"));
            }
            Ok(())
        }
        Ok(out) => {
            if no_analysis || !valid || lib_fails || no_merge {
                return Err("reported as a success".into());
            }
            if out != wasm_merge::MERGED {
                return Err(format!("the result is {out:x?}, not what the merge produced"));
            }
            let m = merged.ok_or("nothing was merged")?;
            let all: Vec<_> = m.primary.iter().chain(&m.inputs).collect();
            let find = |ns: &str| all.iter().filter(|x| x.0 == ns).map(|x| &x.1).collect::<Vec<_>>();
            if find(NS_ANALYSIS) != [analysis] {
                return Err(format!("the analysis is merged as {:x?}", find(NS_ANALYSIS)));
            }
            let lib = find(NS_STACK);
            if compiled.is_empty() != lib.is_empty() || lib.iter().any(|l| **l != LIB_BYTES) || lib.len() > 1 {
                return Err(format!("the library is merged as {lib:x?}"));
            }
            if compiled.is_empty() && !signatures.is_empty() {
                return Err("there is no library".into());
            }
            let target = find(NS_TARGET);
            if target.len() != 1 || all.len() != 2 + lib.len() {
                return Err(format!("merged: {:?}", all.iter().map(|x| &x.0).collect::<Vec<_>>()));
            }
            validate(target[0])?;
            if let Some(d) = crate::structure::interface_difference(&decode(bytes), &decode(target[0])) {
                return Err(d);
            }
            let first = match primary {
                None => None,
                Some(PrimaryTarget::Target) => Some(NS_TARGET),
                Some(PrimaryTarget::Analysis) => Some(NS_ANALYSIS),
                Some(PrimaryTarget::Instrumentation) => (!lib.is_empty()).then_some(NS_STACK),
            };
            if m.primary.as_ref().map(|p| p.0.as_str()) != first {
                return Err(format!("the primary module is {:?}", m.primary.map(|p| p.0)));
            }
            if primary.is_none() && m.inputs[0].0 != NS_TARGET {
                return Err(format!("without a selection the first module is {}", m.inputs[0].0));
            }
            for (o, want) in [("no_validation", "Enable"), ("rename_export_conflicts", "Enable"), ("multimemory", "Enable"), ("bulk_memory", "Enable")] {
                if !m.options.contains(&format!("{o}={want};")) {
                    return Err(format!("the merge options are {}", m.options));
                }
            }
            Ok(())
        }
    }
}
