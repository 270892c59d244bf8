//! The families of programs explored.
use crate::gen::*;
use wasabi_wasm as w;
use wasabi_wasm::{BinaryOp, FunctionType, Instr, LoadOp, Memarg, RefType, StoreOp, UnaryOp, ValType};
use ValType::{F32, F64, I32, I64};

fn e() -> FunctionType {
    ft(&[], &[])
}
fn ii() -> FunctionType {
    ft(&[I32], &[I32])
}
fn i() -> FunctionType {
    ft(&[], &[I32])
}
fn ops(b: BinaryOp) -> Instr {
    Instr::Binary(b)
}
pub fn load(op: LoadOp, offset: u32) -> Instr {
    Instr::Load(op, Memarg { offset, ..Memarg::default(op) })
}
pub fn store(op: StoreOp, offset: u32) -> Instr {
    Instr::Store(op, Memarg { offset, ..Memarg::default(op) })
}
fn mark(m: &mut w::Module) {
    import(m, "mark", e());
}
/// Blocks, loops and branches out of them, with values.
pub fn blocks(len: usize) -> Family {
    let p = ft(&[I32], &[]);
    Family::new(
        "blocks",
        ii(),
        &[I32],
        vec![
            lget(0), c32(1), Instr::Drop, Instr::Block(e()), Instr::Block(i()), Instr::Block(p), Instr::Loop(e()), Instr::Loop(i()),
            br(0), br(1), br_if(0), br_if(1), Instr::Return, lset(0), call(0),
        ],
        len,
        &[&[0], &[1], &[2]],
        mark,
    )
}
/// Deeply nested constructs, with few other instructions.
pub fn nests(len: usize) -> Family {
    let mut f = Family::new(
        "nests",
        ft(&[I32], &[]),
        &[],
        vec![lget(0), Instr::Block(e()), Instr::Loop(e()), Instr::If(e()), br(0), br(1), br(2), call(0)],
        len,
        &[&[0], &[1]],
        mark,
    );
    f.dead = 0;
    f.max_stack = 1;
    f
}
/// Conditionals with and without alternative, with parameters and results.
pub fn ifs(len: usize) -> Family {
    Family::new(
        "ifs",
        ii(),
        &[I32],
        vec![
            lget(0), c32(1), Instr::Drop, Instr::If(e()), Instr::If(i()), Instr::If(ii()), Instr::Block(e()), Instr::Loop(e()), br(0), br(1),
            br_if(0), Instr::Return, Instr::Unreachable, Instr::Select,
        ],
        len,
        &[&[0], &[1], &[2]],
        mark,
    )
}
pub fn tables(len: usize) -> Family {
    Family::new(
        "branch tables",
        ii(),
        &[I32],
        vec![
            lget(0), c32(3), Instr::Block(e()), Instr::Block(i()), Instr::Loop(e()), br_table(&[], 0), br_table(&[], 1), br_table(&[0], 1),
            br_table(&[1], 0), br_table(&[0, 1], 2), br_table(&[2, 0, 1, 0], 1), br_table(&[1, 1], 0), Instr::Drop, Instr::Return, br(0), lset(0),
        ],
        len,
        &[&[0], &[1], &[2], &[3], &[0xffff_ffff]],
        mark,
    )
}
fn four_globals(m: &mut w::Module) {
    global(m, I32, true, 7);
    global(m, F32, true, 0x4000_0000);
    global(m, I64, true, 0x1_0000_0009);
    global(m, F64, true, 0x4008_0000_0000_0000);
    global(m, I32, false, 99);
}
/// Locals (parameters and declared) and globals of all types.
pub fn variables(len: usize) -> Family {
    let mut p = vec![Instr::Drop];
    for k in 0..8 {
        p.push(lget(k));
        p.push(lset(k));
    }
    p.extend((0..8).map(ltee));
    for k in 0..4 {
        p.push(gget(k));
        p.push(gset(k));
    }
    p.push(gget(4));
    let mut f = Family::new(
        "variables",
        ft(&[I32, F32, I64, F64], &[]),
        &[F64, I64, F32, I32],
        p,
        len,
        &[&[5, 0x3f80_0000, 0x2_0000_0003, 0x3ff0_0000_0000_0000]],
        four_globals,
    );
    f.dead = 0;
    f.max_stack = 2;
    f
}
/// Everything that takes or gives values, at one type: a parameter, a declared local, a global, a memory,
/// constructs, calls and branches with values of that type.
fn typed(t: ValType, name: &'static str, len: usize) -> Family {
    use wasabi_wasm::Val;
    let (k, un, bin, ld, st) = match t {
        I32 => (Val::I32(-7), UnaryOp::I32Popcnt, BinaryOp::I32Sub, LoadOp::I32Load, StoreOp::I32Store),
        I64 => (Val::I64(-7_000_000_000), UnaryOp::I64Popcnt, BinaryOp::I64Sub, LoadOp::I64Load, StoreOp::I64Store),
        F32 => (Val::F32(w::OrderedFloat32((-1.5f32).to_bits())), UnaryOp::F32Neg, BinaryOp::F32Sub, LoadOp::F32Load, StoreOp::F32Store),
        _ => (Val::F64(w::OrderedFloat64((-1.5f64).to_bits())), UnaryOp::F64Neg, BinaryOp::F64Sub, LoadOp::F64Load, StoreOp::F64Store),
    };
    let (g, own): (u32, &[u64]) = match t {
        I32 => (0, &[5]),
        F32 => (1, &[0x3f80_0000]),
        I64 => (2, &[0x2_0000_0003]),
        _ => (3, &[0x3ff0_0000_0000_0000]),
    };
    let mut f = Family::new(
        name,
        ft(&[t], &[t]),
        &[t],
        vec![
            lget(0), lset(0), ltee(0), lget(1), lset(1), ltee(1), gget(g), gset(g), Instr::Const(k), c32(1), Instr::Unary(un), ops(bin), load(ld, 8),
            store(st, 16), Instr::Block(ft(&[], &[t])), Instr::Loop(ft(&[t], &[t])), Instr::If(ft(&[t], &[t])), br(0), br_if(0), br_table(&[0], 1), call(0),
            Instr::CallIndirect(ft(&[t], &[t]), 0u32.into()), Instr::Select, Instr::TypedSelect(t), Instr::Return, Instr::Drop,
        ],
        len,
        &[own],
        match t {
            I32 => |m| typed_support(m, I32),
            I64 => |m| typed_support(m, I64),
            F32 => |m| typed_support(m, F32),
            _ => |m| typed_support(m, F64),
        },
    );
    f.dead = 1;
    f.max_stack = 3;
    f
}
fn typed_support(m: &mut w::Module, t: ValType) {
    import(m, "imp", ft(&[t], &[t])); // 0
    four_globals(m);
    memory(m, 1, Some(1));
    m.datas.push(w::Data {
        init: (0..64u8).map(|k| k.wrapping_mul(37) ^ 0x80).collect(),
        mode: w::DataMode::Active { memory: 0u32.into(), offset: vec![c32(0), Instr::End] },
    });
    func(m, ft(&[t], &[t]), &[], vec![lget(0), ltee(0)], ""); // 1
    table(m, RefType::FuncRef, 3, None);
    elements(m, 0, 0, &[Some(0), Some(1)]);
}
pub fn typed_i32(len: usize) -> Family {
    typed(I32, "at i32", len)
}
pub fn typed_f32(len: usize) -> Family {
    typed(F32, "at f32", len)
}
pub fn typed_i64(len: usize) -> Family {
    typed(I64, "at i64", len)
}
pub fn typed_f64(len: usize) -> Family {
    typed(F64, "at f64", len)
}
fn calls_support(m: &mut w::Module) {
    let imp = import(m, "imp", ii()); // 0
    let ext = import(m, "two", ft(&[I64, I32], &[I32, I64])); // 1
    global(m, I32, true, 0);
    // 2: counts and adds one
    let inc = func(m, ii(), &[], vec![gget(0), c32(1), ops(BinaryOp::I32Add), gset(0), lget(0), c32(1), ops(BinaryOp::I32Add)], "inc");
    // 3: several values
    let swap = func(m, ft(&[I32, I64], &[I64, I32]), &[], vec![lget(1), lget(0)], "swap");
    // 4: nothing
    let nop = func(m, e(), &[], vec![gget(0), c32(16), ops(BinaryOp::I32Add), gset(0)], "");
    // 5: bounded recursion
    let me = m.functions.len() as u32;
    func(
        m,
        ii(),
        &[],
        vec![
            lget(0),
            Instr::If(i()),
            lget(0),
            c32(1),
            ops(BinaryOp::I32Sub),
            call(me),
            c32(2),
            ops(BinaryOp::I32Add),
            Instr::Else,
            c32(0),
            Instr::End,
        ],
        "rec",
    );
    table(m, RefType::FuncRef, 8, Some(8));
    elements(m, 0, 0, &[Some(inc), Some(imp), None, Some(swap), Some(nop), Some(me), Some(ext)]);
    table(m, RefType::FuncRef, 5, None);
    elements(m, 1, 0, &[Some(me), Some(nop), Some(inc), Some(imp)]);
}
/// Direct and indirect calls, of imports, of multi-value functions, recursion.
pub fn calls(len: usize) -> Family {
    let mut f = Family::new(
        "calls",
        ii(),
        &[I64],
        vec![
            lget(0), lget(1), c32(1), c32(3), Instr::Drop, lset(0), call(0), call(1), call(2), call(3), call(4), call(5),
            Instr::CallIndirect(ii(), 1u32.into()), Instr::CallIndirect(ii(), 0u32.into()), Instr::CallIndirect(e(), 0u32.into()),
            Instr::CallIndirect(ft(&[I32, I64], &[I64, I32]), 0u32.into()), Instr::Return,
        ],
        len,
        &[&[0], &[1], &[2], &[4], &[8]],
        calls_support,
    );
    f.max_stack = 3;
    f
}
pub fn recursion(len: usize) -> Family {
    let mut f = Family::new(
        "recursion",
        ii(),
        &[],
        vec![
            lget(0), c32(-1), ops(BinaryOp::I32Add), call(SELF), Instr::If(i()), Instr::If(e()), lset(0), c32(2), call(0), Instr::Drop,
        ],
        len,
        &[&[0], &[1], &[3]],
        calls_support,
    );
    f.max_stack = 3;
    f
}
fn refs_support(m: &mut w::Module) {
    let mk = import(m, "mark", e()); // 0
    let nop = func(m, e(), &[], vec![call(mk)], "nop"); // 1
    func(m, ft(&[ValType::Ref(RefType::FuncRef)], &[I32]), &[], vec![lget(0), Instr::RefIsNull], "isnull"); // 2
    table(m, RefType::FuncRef, 3, Some(5));
    table(m, RefType::ExternRef, 2, None);
    elements(m, 0, 1, &[Some(nop)]);
    m.elements.push(w::Element {
        typ: RefType::FuncRef,
        init: vec![vec![Instr::RefFunc(nop.into()), Instr::End], vec![Instr::RefFunc(mk.into()), Instr::End]],
        mode: w::ElementMode::Passive,
    });
    memory(m, 1, Some(2));
    m.datas.push(w::Data { init: vec![1, 2, 3, 4, 5], mode: w::DataMode::Passive });
}
/// Reference types, tables and bulk operations: not observed, but passed through.
pub fn references(len: usize) -> Family {
    let fr = RefType::FuncRef;
    let mut f = Family::new(
        "references and bulk operations",
        ii(),
        &[ValType::Ref(fr)],
        vec![
            lget(0), lget(1), lset(1), c32(1), Instr::Drop, Instr::RefNull(fr), Instr::RefFunc(1u32.into()), Instr::RefIsNull,
            Instr::TableGet(0u32.into()), Instr::TableSet(0u32.into()), Instr::TableSize(1u32.into()), Instr::TableGrow(0u32.into()),
            Instr::TableFill(0u32.into()), Instr::TableCopy(0u32.into(), 0u32.into()), Instr::TableInit(0u32.into(), 1u32.into()),
            Instr::ElemDrop(1u32.into()), Instr::MemoryFill, Instr::MemoryCopy, Instr::MemoryInit(0u32.into()), Instr::DataDrop(0u32.into()),
            Instr::CallIndirect(e(), 0u32.into()), Instr::TypedSelect(ValType::Ref(fr)), call(2),
        ],
        len,
        &[&[0], &[1], &[2], &[70000]],
        refs_support,
    );
    f.max_stack = 3;
    f
}
fn mixed_support(m: &mut w::Module) {
    import(m, "imp", ii()); // 0
    global(m, I32, true, 7);
    memory(m, 1, Some(3));
    m.datas.push(w::Data {
        init: (0..64u8).map(|k| k.wrapping_mul(37) ^ 0x80).collect(),
        mode: w::DataMode::Active { memory: 0u32.into(), offset: vec![c32(0), Instr::End] },
    });
    func(m, ii(), &[], vec![lget(0), gget(0), ops(BinaryOp::I32Add), ltee(0), gset(0), lget(0)], ""); // 1
    table(m, RefType::FuncRef, 2, None);
    elements(m, 0, 0, &[Some(1)]);
}
/// One representative of every kind of instruction.
pub fn mixed(len: usize) -> Family {
    let mut f = Family::new(
        "mixed",
        ii(),
        &[I64],
        vec![
            lget(0), c32(1), Instr::Drop, Instr::Unary(UnaryOp::I32Eqz), ops(BinaryOp::I32Sub), Instr::If(i()), Instr::If(e()), Instr::Block(i()),
            Instr::Loop(e()), br(0), br_if(0), br_table(&[0], 1), load(LoadOp::I32Load16S, 3), store(StoreOp::I32Store8, 2), gget(0), gset(0), ltee(0),
            call(1), call(0), Instr::CallIndirect(ii(), 0u32.into()), Instr::MemorySize(0u32.into()), Instr::MemoryGrow(0u32.into()), Instr::Select,
            Instr::Return,
        ],
        len,
        &[&[0], &[1], &[0x1_0000 - 2]],
        mixed_support,
    );
    f.max_stack = 3;
    f
}
/// Functions of no argument that return several values through nested constructs with parameters.
pub fn multi(len: usize) -> Family {
    let p2 = ft(&[I32, I64], &[I64, I32]);
    let d = ft(&[I32], &[I32, I64]);
    let mut f = Family::new(
        "multi-value constructs",
        ft(&[I32, I64], &[I64, I32]),
        &[],
        vec![
            lget(0), lget(1), Instr::Drop, Instr::Block(p2), Instr::Block(d), Instr::Loop(p2), Instr::If(p2), Instr::If(d), br(0), br(1), br_if(0),
            Instr::Return, call(3), Instr::Unary(UnaryOp::I32Eqz),
        ],
        len,
        &[&[0, 0x1_0000_0000], &[1, 5]],
        calls_support,
    );
    f.max_stack = 3;
    f
}

// ------------------------------------------------------------------ operators
/// Boundary operands.
pub fn operands(t: ValType, few: bool) -> Vec<u64> {
    let f32s = |v: &[f32]| v.iter().map(|x| u64::from(x.to_bits())).collect::<Vec<_>>();
    let f64s = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
    let mut v: Vec<u64> = match t {
        I32 => vec![0, 1, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 2, 31, 32, 0x80, 0x8000, 0x1234_5678, 0xffff_ff7f],
        I64 => vec![
            0, 1, u64::MAX, 1 << 63, (1 << 63) - 1, 2, 63, 64, 0x80, 0x8000, 0x8000_0000, 0x1234_5678_9abc_def0, 0xffff_ffff, 1 << 32,
        ],
        F32 => {
            let mut v = f32s(&[
                0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN_POSITIVE, -0.99999994,
                2147483648.0, -2147483648.0, -2147483904.0, 2147483500.0, 4294967296.0, 4294967000.0, 9223372036854775808.0, -9223372036854775808.0,
                18446744073709551616.0, 3.7,
            ]);
            v.extend([1, 0x7fc0_0000, 0xffc0_0001, 0x7fa0_0000]);
            v
        }
        _ => {
            let mut v = f64s(&[
                0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, -0.9999999999999999,
                2147483647.0, 2147483647.9, 2147483648.0, -2147483648.9, -2147483649.0, 4294967295.9, 4294967296.0, 9223372036854775807.0,
                9223372036854774784.0, -9223372036854775808.0, -9223372036854777856.0, 18446744073709551615.0, 18446744073709549568.0, 3.7, 1e40,
            ]);
            v.extend([1, 0x7ff8_0000_0000_0000, 0xfff8_0000_0000_0001, 0x7ff4_0000_0000_0000]);
            v
        }
    };
    if few {
        v.truncate(6);
    }
    v
}
pub type Sequences = Vec<(usize, Vec<(String, Vec<u64>)>)>;
/// One exported function per operator, and every combination of boundary operands.
pub fn operators(few: bool) -> (w::Module, Sequences) {
    let mut m = w::Module::new();
    let mut s: Sequences = vec![];
    for (k, op) in UnaryOp::ALL.iter().enumerate() {
        let (a, r) = op.ty();
        let n = format!("{op:?}");
        func(&mut m, ft(&[a], &[r]), &[], vec![lget(0), Instr::Unary(*op)], &n);
        for x in operands(a, few) {
            s.push((k, vec![(n.clone(), vec![x])]));
        }
    }
    for (k, op) in BinaryOp::ALL.iter().enumerate() {
        let (a, r) = op.ty();
        let n = format!("{op:?}");
        func(&mut m, ft(&[a, a], &[r]), &[], vec![lget(0), lget(1), Instr::Binary(*op)], &n);
        for x in operands(a, few) {
            for y in operands(a, few) {
                s.push((UnaryOp::ALL.len() + k, vec![(n.clone(), vec![x, y])]));
            }
        }
    }
    // constants of every type and value
    for t in [I32, F32, I64, F64] {
        for (k, x) in operands(t, false).into_iter().enumerate() {
            let n = format!("const {t:?} {k}");
            func(&mut m, ft(&[], &[t]), &[], vec![konst(t, x)], &n);
            s.push((1000 + k, vec![(n, vec![])]));
        }
    }
    // selection and dropping at every type
    for t in [I32, F32, I64, F64] {
        for typed in [false, true] {
            let n = format!("select {t:?} {typed}");
            let op = if typed { Instr::TypedSelect(t) } else { Instr::Select };
            func(&mut m, ft(&[t, t, I32], &[t]), &[], vec![lget(0), lget(1), lget(2), op], &n);
            let v = operands(t, true);
            for c in [0, 1, 2, 0xffff_ffff] {
                s.push((2000, vec![(n.clone(), vec![v[2], v[3], c])]));
            }
        }
        let n = format!("drop {t:?}");
        func(&mut m, ft(&[t], &[]), &[], vec![lget(0), Instr::Drop], &n);
        s.push((2100, vec![(n, vec![1])]));
    }
    (m, s)
}
pub fn memory_module() -> w::Module {
    let mut m = w::Module::new();
    memory(&mut m, 1, Some(3));
    for at in [0i32, 65536 - 24] {
        m.datas.push(w::Data {
            init: (0..24u8).map(|k| k.wrapping_mul(53) ^ 0x91).collect(),
            mode: w::DataMode::Active { memory: 0u32.into(), offset: vec![c32(at), Instr::End] },
        });
    }
    m
}
pub const OFFSETS: &[u32] = &[0, 1, 3, 8, 65528, 65532, 65534, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fff8, 0xffff_ffff];
pub const POINTERS: &[u64] = &[
    0, 1, 2, 5, 8, 65527, 65528, 65529, 65532, 65533, 65534, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fff0, 0xffff_fff8, 0xffff_fffc, 0xffff_fffe,
    0xffff_ffff,
];
/// Every load and store, every static offset, every pointer.
pub fn accesses(few: bool) -> (w::Module, Sequences) {
    let mut m = memory_module();
    let mut s: Sequences = vec![];
    let pick = |p: &u64| !few || *p < 3 || *p > 0xffff_fff0 || (65529..65537).contains(p);
    let mut k = 0;
    for op in LoadOp::ALL {
        for off in OFFSETS {
            let n = format!("{op:?} +{off}");
            func(&mut m, ft(&[I32], &[op.ty()]), &[], vec![lget(0), load(*op, *off)], &n);
            for p in POINTERS.iter().filter(|p| pick(p)) {
                s.push((k, vec![(n.clone(), vec![*p])]));
            }
            k += 1;
        }
    }
    for op in StoreOp::ALL {
        for off in OFFSETS {
            let n = format!("{op:?} +{off}");
            func(&mut m, ft(&[I32, op.ty()], &[]), &[], vec![lget(0), lget(1), store(*op, *off)], &n);
            let v = match op.ty() {
                I32 => 0x8182_8384,
                F32 => 0x4182_8384,
                _ => 0x4182_8384_8586_8788,
            };
            for p in POINTERS.iter().filter(|p| pick(p)) {
                s.push((k, vec![(n.clone(), vec![*p, v])]));
            }
            k += 1;
        }
    }
    (m, s)
}
/// Sequences of growing, asking, loading and storing at the edge.
pub fn growing(depth: usize) -> (w::Module, Sequences) {
    let mut m = memory_module();
    let z = 0u32;
    func(&mut m, ii(), &[], vec![lget(0), Instr::MemoryGrow(z.into())], "grow");
    func(&mut m, i(), &[], vec![Instr::MemorySize(z.into())], "size");
    func(&mut m, ii(), &[], vec![lget(0), load(LoadOp::I32Load8U, 0)], "load");
    func(&mut m, e(), &[], vec![c32(1), Instr::MemoryGrow(z.into()), Instr::MemorySize(z.into()), Instr::MemoryGrow(z.into()), Instr::Drop, Instr::Drop], "twice");
    func(&mut m, ft(&[I32], &[]), &[], vec![lget(0), c32(0xee), store(StoreOp::I32Store8, 0)], "store");
    let acts: Vec<(String, Vec<u64>)> = vec![
        ("grow".into(), vec![0]),
        ("grow".into(), vec![1]),
        ("grow".into(), vec![2]),
        ("grow".into(), vec![3]),
        ("grow".into(), vec![0xffff_ffff]),
        ("size".into(), vec![]),
        ("load".into(), vec![65536]),
        ("store".into(), vec![131072]),
        ("twice".into(), vec![]),
    ];
    let s = mc_common::sequences(acts.len(), 1, depth).into_iter().enumerate().map(|(k, q)| (k, q.iter().map(|a| acts[*a].clone()).collect())).collect();
    (m, s)
}

// ------------------------------------------------------------------ sizes
/// A program made for one size: how deep, how many, how far in.
pub struct Sized_ {
    pub name: String,
    pub module: w::Module,
    pub sequences: Sequences,
    pub small: bool,
}
/// Programs whose labels, indices, positions and arities are as large as the sizes say.
pub fn sizes(thorough: bool) -> Vec<Sized_> {
    let mut v: Vec<Sized_> = vec![];
    let t4 = [I32, F32, I64, F64];
    let add1 = |g: u32| vec![gget(g), c32(1), ops(BinaryOp::I32Add), gset(g)];
    let less = || vec![lget(0), c32(-1), ops(BinaryOp::I32Add)];
    // every kind of branch, from d constructs deep, to label l
    let mut depths: Vec<(u32, Vec<u32>)> = (1..=6).map(|d| (d, (0..=d).collect())).collect();
    depths.push((40, vec![0, 7, 8, 15, 16, 17, 31, 32, 33, 39, 40]));
    depths.push((140, vec![1, 63, 64, 65, 127, 128, 129, 140]));
    depths.push((300, vec![2, 255, 256, 257, 300]));
    for (d, labels) in depths {
        for chunk in labels.chunks(if d > 12 { 2 } else { 12 }) {
            let mut m = w::Module::new();
            global(&mut m, I32, true, 0);
            let mut seqs: Sequences = vec![];
            for l in chunk {
                for kind in 0..3 {
                    let mut b = vec![];
                    for k in 0..d {
                        match k % 4 {
                            0 => b.push(Instr::Block(e())),
                            1 => b.push(Instr::Loop(e())),
                            2 => b.extend([c32(1), Instr::If(e())]),
                            _ => b.extend([c32(0), Instr::If(e()), Instr::Nop, Instr::Else]),
                        }
                    }
                    match kind {
                        0 => {
                            b.extend([lget(0), Instr::If(e())]);
                            b.extend(less());
                            b.extend([lset(0), br(l + 1), Instr::End]);
                        }
                        1 => {
                            b.extend(less());
                            b.extend([ltee(0), br_if(*l)]);
                        }
                        _ => {
                            b.extend([lget(0), Instr::If(e())]);
                            b.extend(less());
                            b.extend([ltee(0), br_table(&[l + 1, 1, d + 1, l / 2 + 1, *l], l + 1), Instr::End]);
                        }
                    }
                    for k in 0..d {
                        b.extend(add1(0));
                        if (d - 1 - k) % 8 == 6 {
                            b.push(Instr::Else);
                            b.push(Instr::Nop);
                        }
                        b.push(Instr::End);
                    }
                    let n = format!("label {l} kind {kind}");
                    func(&mut m, ft(&[I32], &[]), &[], b, &n);
                    for x in [1, 2, 3, 6] {
                        seqs.push((seqs.len(), vec![(n.clone(), vec![x])]));
                    }
                }
            }
            v.push(Sized_ { name: format!("branches out of {d} constructs to {chunk:?}"), module: m, sequences: seqs, small: d <= 12 });
        }
    }
    // many locals, globals
    let many: &[u32] = if thorough { &[2, 5, 9, 17, 33, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 300, 1000, 40_000] } else { &[2, 9, 33, 64, 129, 257, 1000] };
    for n in many {
        let some: Vec<u32> = [0, 1, 2, 3, n / 2, n / 2 + 1, n.saturating_sub(4), n.saturating_sub(3), n.saturating_sub(2), n - 1].into_iter().filter(|k| k < n).collect();
        for params in [false, true] {
            if params && *n > 900 {
                continue;
            }
            let types: Vec<ValType> = (0..*n).map(|k| t4[k as usize % 4]).collect();
            let mut b = vec![];
            for k in &some {
                let t = types[*k as usize];
                b.extend([lget(*k), Instr::Drop, konst(t, u64::from(*k) + 7), lset(*k), konst(t, 100 + u64::from(*k)), ltee(*k), lset(*k), lget(*k), Instr::Drop]);
            }
            b.push(lget(n - n % 4 - if n % 4 == 0 { 4 } else { 0 }));
            let mut m = w::Module::new();
            let sig = if params { FunctionType::new(&types, &[I32]) } else { ft(&[], &[I32]) };
            func(&mut m, sig, if params { &[] } else { &types }, b, "f");
            let args = if params { (0..*n).map(|k| u64::from(k) * 3 + 1).collect() } else { vec![] };
            v.push(Sized_ { name: format!("{n} locals, parameters {params}"), module: m, sequences: vec![(0, vec![("f".into(), args)])], small: *n < 70 });
        }
        if *n <= 1000 {
            let mut m = w::Module::new();
            let mut b = vec![];
            for k in 0..*n {
                global(&mut m, t4[k as usize % 4], true, u64::from(k));
            }
            for k in &some {
                b.extend([gget(*k), Instr::Drop, konst(t4[*k as usize % 4], u64::from(*k) + 9), gset(*k), gget(*k), Instr::Drop]);
            }
            func(&mut m, e(), &[], b, "f");
            v.push(Sized_ { name: format!("{n} globals"), module: m, sequences: vec![(0, vec![("f".into(), vec![])])], small: *n < 70 });
        }
    }
    // many functions, imports, tables, elements
    let many: &[u32] = if thorough { &[1, 2, 3, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 3000] } else { &[1, 3, 32, 65, 129, 257] };
    for n in many {
        for imports in [false, true] {
            let mut m = w::Module::new();
            if imports {
                for k in 0..*n {
                    import(&mut m, &format!("i{k}"), if k % 2 == 0 { ii() } else { e() });
                }
            }
            for k in 0..*n {
                let t = if k % 2 == 0 { ii() } else { e() };
                func(&mut m, t, &[], if k % 2 == 0 { vec![lget(0), c32(k as i32), ops(BinaryOp::I32Add)] } else { vec![] }, "");
            }
            let all = m.functions.len() as u32;
            let some: Vec<u32> = [0, 1, n / 2, n - 1, all / 2, all.saturating_sub(2), all - 1].into_iter().filter(|k| *k < all).collect();
            let tables = n.min(&98);
            for k in 0..*tables {
                table(&mut m, RefType::FuncRef, if k == tables - 1 { all + 1 } else { 1 }, None);
            }
            elements(&mut m, tables - 1, 0, &(0..all).map(Some).collect::<Vec<_>>());
            let mut b = vec![];
            for f in some {
                let t = m.functions[f as usize].type_;
                let arg = |b: &mut Vec<Instr>| b.extend(t.inputs().iter().map(|_| lget(0)));
                let end = |b: &mut Vec<Instr>| b.extend(t.results().iter().map(|_| lset(0)));
                arg(&mut b);
                b.push(call(f));
                end(&mut b);
                arg(&mut b);
                b.extend([c32(f as i32), Instr::CallIndirect(t, (tables - 1).into())]);
                end(&mut b);
            }
            b.push(lget(0));
            func(&mut m, ii(), &[], b, "f");
            v.push(Sized_ {
                name: format!("{n} functions, imports {imports}, {tables} tables"),
                module: m,
                sequences: vec![(0, vec![("f".into(), vec![3])])],
                small: *n < 40,
            });
        }
    }
    // far into a body
    let mut far: Vec<u32> = (0..17).collect();
    let more: &[u32] = if thorough { &[31, 32, 63, 64, 100, 126, 127, 128, 254, 255, 256, 1000, 32_767, 32_768, 65_534, 65_535, 65_536, 70_000] } else { &[31, 63, 127, 255, 1000, 65_535] };
    far.extend(more);
    for n in &far {
        let mut m = w::Module::new();
        mixed_support(&mut m);
        let mut b = vec![Instr::Nop; *n as usize];
        b.extend([
            lget(0), Instr::If(i()), c32(5), Instr::Else, c32(6), Instr::End, Instr::Unary(UnaryOp::I32Eqz), Instr::Drop, lget(0), Instr::If(e()), Instr::Nop,
            Instr::End, Instr::Block(i()), lget(0), c32(2), ops(BinaryOp::I32Sub), lget(0), br_if(0), Instr::End, Instr::Drop, Instr::Loop(e()),
            Instr::Block(e()), Instr::Block(e()), lget(0), br_table(&[0], 1), Instr::End, Instr::End, Instr::End, lget(0), load(LoadOp::I32Load16S, 3), ltee(0),
            gset(0), c32(3), gget(0), store(StoreOp::I32Store8, 2), c32(4), call(1), c32(0), Instr::CallIndirect(ii(), 0u32.into()), Instr::Drop,
            Instr::MemorySize(0u32.into()), Instr::MemoryGrow(0u32.into()), c32(9), c32(8), Instr::Select, Instr::Return,
        ]);
        func(&mut m, ii(), &[], b, "f");
        v.push(Sized_ { name: format!("after {n} instructions"), module: m, sequences: vec![(0, vec![("f".into(), vec![0])]), (1, vec![("f".into(), vec![1])])], small: *n < 300 });
    }
    // many signatures
    for n in if thorough { vec![1u64, 7, 33, 85, 256, 341] } else { vec![7, 33, 128] } {
        let lists = mc_common::sequences(4, 0, 4);
        let mut m = w::Module::new();
        let mut b = vec![];
        for k in 0..n as usize {
            let ins: Vec<ValType> = lists[k].iter().map(|k| t4[*k]).collect();
            let outs: Vec<ValType> = lists[k * 5 % 21].iter().map(|k| t4[*k]).collect();
            let body = outs.iter().enumerate().map(|(j, t)| konst(*t, (k * 3 + j) as u64)).collect();
            let f = func(&mut m, FunctionType::new(&ins, &outs), &[t4[k % 4], t4[k / 4 % 4]], body, "");
            b.extend(ins.iter().enumerate().map(|(j, t)| konst(*t, (k + j) as u64)));
            b.push(call(f));
            b.extend(outs.iter().map(|_| Instr::Drop));
        }
        func(&mut m, e(), &[], b, "f");
        v.push(Sized_ { name: format!("{n} signatures"), module: m, sequences: vec![(0, vec![("f".into(), vec![])])], small: n < 10 });
    }
    // wide constructs
    let wide: &[u32] = if thorough { &[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 32, 64, 100, 128, 129, 300] } else { &[0, 1, 2, 3, 4, 5, 16, 130] };
    for n in wide {
        for r in [*n, n / 2, n + 1, 0] {
            let ins: Vec<ValType> = (0..*n).map(|k| t4[k as usize % 4]).collect();
            let outs: Vec<ValType> = (0..r).map(|k| t4[(k + 1) as usize % 4]).collect();
            let t = FunctionType::new(&ins, &outs);
            let mut m = w::Module::new();
            global(&mut m, I32, true, 0);
            let mut seqs: Sequences = vec![];
            let inner = |b: &mut Vec<Instr>| {
                b.extend(ins.iter().map(|_| Instr::Drop));
                b.extend(outs.iter().enumerate().map(|(k, t)| konst(*t, k as u64 + 3)));
            };
            for kind in 0..4 {
                let mut b = vec![];
                b.extend(ins.iter().enumerate().map(|(k, t)| konst(*t, k as u64 + 1)));
                match kind {
                    0 => b.push(Instr::Block(t)),
                    1 => b.push(Instr::Loop(t)),
                    _ => b.extend([lget(0), Instr::If(t)]),
                }
                let one_armed = kind == 3 && ins == outs;
                if !one_armed {
                    inner(&mut b);
                }
                if kind == 2 || kind == 3 && !one_armed {
                    b.push(Instr::Else);
                    inner(&mut b);
                    b.extend(add1(0));
                }
                b.push(Instr::End);
                b.extend(outs.iter().map(|_| Instr::Drop));
                let name = format!("kind {kind}");
                func(&mut m, ft(&[I32], &[]), &[], b, &name);
                for x in [0, 1] {
                    seqs.push((seqs.len(), vec![(name.clone(), vec![x])]));
                }
            }
            v.push(Sized_ { name: format!("constructs of {n} parameters and {r} results"), module: m, sequences: seqs, small: *n < 10 });
        }
    }
    // every index of tables, elements and data, each different from the others
    {
        let fr = RefType::FuncRef;
        let mut m = w::Module::new();
        let mk = import(&mut m, "mark", e());
        let fs: Vec<u32> = (0..5).map(|k| func(&mut m, e(), &[], [vec![call(mk)], vec![Instr::Nop; k]].concat(), "")).collect();
        for k in 0..4 {
            table(&mut m, fr, 6 + k, Some(20 + k));
        }
        elements(&mut m, 3, 2, &[Some(fs[0]), Some(fs[1])]);
        for k in 0..3 {
            let init = (0..4).map(|j| vec![Instr::RefFunc(fs[(j + k) % 5].into()), Instr::End]).collect();
            m.elements.push(w::Element { typ: fr, init, mode: w::ElementMode::Passive });
        }
        memory(&mut m, 1, Some(2));
        for k in 0..3u8 {
            m.datas.push(w::Data { init: (0..9).map(|j| j * 3 + 40 * k).collect(), mode: w::DataMode::Passive });
        }
        let t = |k: u32| k.into();
        let ops: Vec<(&str, Vec<Instr>)> = vec![
            ("init tables", vec![c32(1), c32(0), c32(3), Instr::TableInit(1u32.into(), 1u32.into()), c32(0), c32(1), c32(3), Instr::TableInit(2u32.into(), 3u32.into()), c32(2), c32(0), c32(2), Instr::TableInit(0u32.into(), 2u32.into())]),
            ("copy tables", vec![c32(0), c32(2), c32(2), Instr::TableCopy(1u32.into(), 3u32.into()), c32(4), c32(0), c32(2), Instr::TableCopy(2u32.into(), 1u32.into())]),
            ("fill tables", vec![c32(3), Instr::RefFunc(fs[3].into()), c32(2), Instr::TableFill(t(2)), c32(0), Instr::RefFunc(fs[4].into()), c32(1), Instr::TableFill(t(0))]),
            ("grow tables", vec![Instr::RefFunc(fs[2].into()), c32(3), Instr::TableGrow(t(2)), Instr::TableSize(t(2)), Instr::TableSize(t(3)), Instr::Drop, Instr::Drop, Instr::Drop, Instr::TableSize(t(1)), Instr::Drop]),
            ("get and set", vec![c32(1), c32(2), Instr::TableGet(t(3)), Instr::TableSet(t(1)), c32(0), Instr::RefNull(fr), Instr::TableSet(t(2))]),
            ("drop elements", vec![Instr::ElemDrop(2u32.into())]),
            ("init element 1", vec![c32(0), c32(0), c32(4), Instr::TableInit(3u32.into(), 1u32.into())]),
            ("init element 2", vec![c32(0), c32(0), c32(4), Instr::TableInit(0u32.into(), 2u32.into())]),
            ("init element 3", vec![c32(0), c32(0), c32(4), Instr::TableInit(1u32.into(), 3u32.into())]),
            ("call tables", vec![c32(2), Instr::CallIndirect(e(), 3u32.into()), c32(1), Instr::CallIndirect(e(), 1u32.into()), c32(0), Instr::CallIndirect(e(), 2u32.into())]),
            ("init memory", vec![c32(7), c32(1), c32(5), Instr::MemoryInit(1u32.into()), c32(70), c32(2), c32(5), Instr::MemoryInit(2u32.into()), c32(1), c32(0), c32(3), Instr::MemoryInit(0u32.into())]),
            ("drop data", vec![Instr::DataDrop(1u32.into())]),
            ("init memory 0", vec![c32(17), c32(1), c32(5), Instr::MemoryInit(0u32.into())]),
            ("init memory 1", vec![c32(27), c32(1), c32(5), Instr::MemoryInit(1u32.into())]),
            ("init memory 2", vec![c32(37), c32(1), c32(5), Instr::MemoryInit(2u32.into())]),
            ("copy and fill memory", vec![c32(100), c32(7), c32(9), Instr::MemoryCopy, c32(200), c32(0xab), c32(3), Instr::MemoryFill]),
        ];
        for (n, b) in &ops {
            func(&mut m, e(), &[], b.clone(), n);
        }
        let mut seqs: Sequences = vec![];
        for a in &ops {
            for b in &ops {
                seqs.push((seqs.len(), vec![(a.0.into(), vec![]), (b.0.into(), vec![]), ("call tables".into(), vec![])]));
            }
        }
        v.push(Sized_ { name: "tables and segments".into(), module: m, sequences: seqs, small: true });
    }
    // references: chosen, kept in locals, compared
    {
        let fr = RefType::FuncRef;
        let xr = RefType::ExternRef;
        let mut m = w::Module::new();
        refs_support(&mut m);
        global(&mut m, I32, true, 0);
        // references among the results only, among the arguments only, among both
        let r = ValType::Ref(fr);
        let x = ValType::Ref(xr);
        let give = func(&mut m, ft(&[I32], &[r]), &[], vec![lget(0), Instr::If(ft(&[], &[r])), Instr::RefFunc(1u32.into()), Instr::Else, Instr::RefNull(fr), Instr::End], "");
        let give2 = func(&mut m, ft(&[I32, F64], &[I64, x]), &[], vec![konst(I64, 7), Instr::RefNull(xr)], "");
        let take = func(&mut m, ft(&[F32, x], &[I64]), &[], vec![konst(I64, 9)], "");
        let both = func(&mut m, ft(&[r, I32], &[I32, r]), &[], vec![lget(1), lget(0)], "");
        let chain = vec![
            lget(0), call(give), lget(0), call(both), Instr::RefIsNull, ops(BinaryOp::I32Add), lset(0), konst(F32, 1), lget(0), konst(F64, 3), call(give2), lset(1), Instr::Drop,
            lget(1), call(take), Instr::Drop, lget(0),
        ];
        func(&mut m, ii(), &[x], chain, "chain");
        func(
            &mut m,
            ii(),
            &[ValType::Ref(fr), ValType::Ref(xr)],
            vec![
                Instr::RefNull(fr), Instr::RefFunc(1u32.into()), lget(0), Instr::TypedSelect(ValType::Ref(fr)), ltee(1), Instr::RefIsNull, gset(0),
                Instr::Block(ft(&[], &[ValType::Ref(fr)])), lget(1), lget(0), br_if(0), Instr::Drop, Instr::RefNull(fr), Instr::End, lset(1), lget(2), lget(2), c32(1),
                Instr::TypedSelect(ValType::Ref(xr)), Instr::Drop, c32(1), lget(1), Instr::TableSet(0u32.into()), c32(1), Instr::TableGet(0u32.into()), lget(0),
                Instr::If(ft(&[ValType::Ref(fr)], &[ValType::Ref(fr)])), Instr::Drop, Instr::RefNull(fr), Instr::Else, Instr::End, Instr::RefIsNull, gget(0), ops(BinaryOp::I32Add),
                c32(7), c32(8), lget(0), Instr::TypedSelect(I32), ops(BinaryOp::I32Sub),
            ],
            "f",
        );
        v.push(Sized_ { name: "references".into(), module: m, sequences: (0..6).map(|x| (x as usize, vec![(if x < 3 { "f" } else { "chain" }.into(), vec![x % 3])])).collect(), small: true });
    }
    v
}
