//! Enumerates every valid function body over a palette of instructions up to a length.
use wasabi_wasm as w;
use wasabi_wasm::{
    FunctionType, GlobalOp, Idx, ImportOrPresent, Instr, Limits, LocalOp, Mutability, RefType, Val, ValType,
};
use ValType::{F32, F64, I32, I64};

/// Stands for "the function itself" in `Call`/`RefFunc`.
pub const SELF: u32 = 900_000;

#[derive(Clone, Default)]
pub struct ModEnv {
    pub funcs: Vec<FunctionType>,
    pub globals: Vec<(ValType, bool)>,
    pub tables: Vec<RefType>,
    pub memory: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Func,
    Block,
    Loop,
    If,
    Else,
}
#[derive(Clone)]
struct Frame {
    kind: K,
    type_: FunctionType,
    height: usize,
    dead: bool,
}
#[derive(Clone)]
pub struct Typer {
    sig: FunctionType,
    locals: Vec<ValType>,
    stack: Vec<Option<ValType>>,
    frames: Vec<Frame>,
    /// How many instructions have been placed where control cannot get, in a row.
    pub dead_run: usize,
}
impl Typer {
    pub fn new(sig: FunctionType, extra: &[ValType]) -> Typer {
        let mut locals = sig.inputs().to_vec();
        locals.extend_from_slice(extra);
        let f = FunctionType::new(&[], sig.results());
        Typer {
            sig,
            locals,
            stack: vec![],
            frames: vec![Frame { kind: K::Func, type_: f, height: 0, dead: false }],
            dead_run: 0,
        }
    }
    fn top(&self) -> &Frame {
        self.frames.last().unwrap()
    }
    fn pop(&mut self, want: Option<ValType>) -> Option<Option<ValType>> {
        let f = self.top();
        if self.stack.len() == f.height {
            return if f.dead { Some(None) } else { None };
        }
        let got = self.stack.pop().unwrap();
        match (got, want) {
            (Some(a), Some(b)) if a != b => None,
            _ => Some(got.or(want)),
        }
    }
    fn pops(&mut self, ts: &[ValType]) -> bool {
        ts.iter().rev().all(|t| self.pop(Some(*t)).is_some())
    }
    fn push(&mut self, t: ValType) {
        self.stack.push(Some(t));
    }
    fn pushes(&mut self, ts: &[ValType]) {
        self.stack.extend(ts.iter().map(|t| Some(*t)));
    }
    fn op(&mut self, i: &[ValType], o: &[ValType]) -> bool {
        if !self.pops(i) {
            return false;
        }
        self.pushes(o);
        true
    }
    fn kill(&mut self) {
        let f = self.frames.last_mut().unwrap();
        f.dead = true;
        let h = f.height;
        self.stack.truncate(h);
    }
    fn label(&self, l: usize) -> Option<Vec<ValType>> {
        let f = self.frames.len().checked_sub(1 + l).map(|i| &self.frames[i])?;
        Some(if f.kind == K::Loop { f.type_.inputs().to_vec() } else { f.type_.results().to_vec() })
    }
    fn enter(&mut self, kind: K, type_: FunctionType) {
        let height = self.stack.len();
        self.frames.push(Frame { kind, type_, height, dead: false });
        self.pushes(type_.inputs());
    }
    fn leave(&mut self) -> Option<Frame> {
        let f = self.top().clone();
        if !self.pops(f.type_.results()) || self.stack.len() != f.height {
            return None;
        }
        self.frames.pop();
        Some(f)
    }
    pub fn open(&self) -> usize {
        self.frames.len() - 1
    }
    pub fn dead(&self) -> bool {
        self.frames.iter().any(|f| f.dead)
    }
    pub fn step(&mut self, op: &Instr, env: &ModEnv) -> bool {
        let was_dead = self.top().dead;
        let ok = self.step_(op, env);
        let structural = matches!(op, Instr::End | Instr::Else);
        self.dead_run = if was_dead && !structural { self.dead_run + 1 } else { 0 };
        ok
    }
    fn step_(&mut self, op: &Instr, env: &ModEnv) -> bool {
        let table_t = |t: &Idx<w::Table>| env.tables.get(t.to_usize()).map(|r| ValType::Ref(*r));
        match op {
            Instr::Nop => true,
            Instr::Unreachable => {
                self.kill();
                true
            }
            Instr::Block(t) => self.pops(t.inputs()) && { self.enter(K::Block, *t); true },
            Instr::Loop(t) => self.pops(t.inputs()) && { self.enter(K::Loop, *t); true },
            Instr::If(t) => self.pop(Some(I32)).is_some() && self.pops(t.inputs()) && { self.enter(K::If, *t); true },
            Instr::Else => {
                if self.top().kind != K::If {
                    return false;
                }
                let Some(f) = self.leave() else { return false };
                self.enter(K::Else, f.type_);
                true
            }
            Instr::End => {
                let Some(f) = self.leave() else { return false };
                if f.kind == K::If && f.type_.inputs() != f.type_.results() {
                    return false;
                }
                if f.kind != K::Func {
                    self.pushes(f.type_.results());
                }
                true
            }
            Instr::Br(l) => {
                let Some(t) = self.label(l.to_usize()) else { return false };
                self.pops(&t) && { self.kill(); true }
            }
            Instr::BrIf(l) => {
                let Some(t) = self.label(l.to_usize()) else { return false };
                self.pop(Some(I32)).is_some() && self.op(&t, &t)
            }
            Instr::BrTable { table, default } => {
                let Some(t) = self.label(default.to_usize()) else { return false };
                // labels of one type only: the stand-in's (and wasabi's) type checker knows no other
                if table.iter().any(|l| self.label(l.to_usize()).as_ref() != Some(&t)) {
                    return false;
                }
                self.pop(Some(I32)).is_some() && self.pops(&t) && { self.kill(); true }
            }
            Instr::Return => {
                let t = self.sig.results().to_vec();
                self.pops(&t) && { self.kill(); true }
            }
            Instr::Call(f) => {
                let t = if f.to_u32() == SELF { self.sig } else {
                    let Some(t) = env.funcs.get(f.to_usize()) else { return false };
                    *t
                };
                self.op(t.inputs(), t.results())
            }
            Instr::CallIndirect(t, table) => {
                env.tables.get(table.to_usize()) == Some(&RefType::FuncRef)
                    && self.pop(Some(I32)).is_some()
                    && self.op(t.inputs(), t.results())
            }
            Instr::RefNull(r) => self.op(&[], &[ValType::Ref(*r)]),
            Instr::RefIsNull => match self.pop(None) {
                Some(Some(ValType::Ref(_)) | None) => {
                    self.push(I32);
                    true
                }
                _ => false,
            },
            Instr::RefFunc(_) => self.op(&[], &[ValType::Ref(RefType::FuncRef)]),
            Instr::Drop => self.pop(None).is_some(),
            Instr::Select => {
                if self.pop(Some(I32)).is_none() {
                    return false;
                }
                let Some(a) = self.pop(None) else { return false };
                let Some(b) = self.pop(a) else { return false };
                if matches!(a.or(b), Some(ValType::Ref(_))) {
                    return false;
                }
                self.stack.push(a.or(b));
                true
            }
            Instr::TypedSelect(t) => self.op(&[*t, *t, I32], &[*t]),
            Instr::Local(op, i) => {
                let Some(t) = self.locals.get(i.to_usize()).copied() else { return false };
                match op {
                    LocalOp::Get => self.op(&[], &[t]),
                    LocalOp::Set => self.op(&[t], &[]),
                    LocalOp::Tee => self.op(&[t], &[t]),
                }
            }
            Instr::Global(op, i) => {
                let Some((t, mutable)) = env.globals.get(i.to_usize()).copied() else { return false };
                match op {
                    GlobalOp::Get => self.op(&[], &[t]),
                    GlobalOp::Set => mutable && self.op(&[t], &[]),
                }
            }
            Instr::TableGet(t) => table_t(t).is_some_and(|t| self.op(&[I32], &[t])),
            Instr::TableSet(t) => table_t(t).is_some_and(|t| self.op(&[I32, t], &[])),
            Instr::TableSize(t) => table_t(t).is_some() && self.op(&[], &[I32]),
            Instr::TableGrow(t) => table_t(t).is_some_and(|t| self.op(&[t, I32], &[I32])),
            Instr::TableFill(t) => table_t(t).is_some_and(|t| self.op(&[I32, t, I32], &[])),
            Instr::TableCopy(..) | Instr::TableInit(..) => !env.tables.is_empty() && self.op(&[I32, I32, I32], &[]),
            Instr::ElemDrop(_) | Instr::DataDrop(_) => true,
            Instr::Load(op, _) => env.memory && self.op(&[I32], &[op.ty()]),
            Instr::Store(op, _) => env.memory && self.op(&[I32, op.ty()], &[]),
            Instr::MemorySize(_) => env.memory && self.op(&[], &[I32]),
            Instr::MemoryGrow(_) => env.memory && self.op(&[I32], &[I32]),
            Instr::MemoryFill | Instr::MemoryCopy | Instr::MemoryInit(_) => env.memory && self.op(&[I32, I32, I32], &[]),
            Instr::Const(v) => self.op(&[], &[v.to_type()]),
            Instr::Unary(op) => {
                let (a, r) = op.ty();
                self.op(&[a], &[r])
            }
            Instr::Binary(op) => {
                let (a, r) = op.ty();
                self.op(&[a, a], &[r])
            }
        }
    }
}

#[derive(Clone)]
pub struct Family {
    pub name: &'static str,
    pub sig: FunctionType,
    pub locals: Vec<ValType>,
    pub palette: Vec<Instr>,
    /// Longest body, the final `end` not counted.
    pub len: usize,
    /// How many instructions in a row may be placed in dead code.
    pub dead: usize,
    pub max_stack: usize,
    pub env: ModEnv,
    pub inputs: Vec<Vec<u64>>,
    pub support: fn(&mut w::Module),
}
#[derive(Clone)]
pub struct Body {
    pub sig: FunctionType,
    pub locals: Vec<ValType>,
    pub code: Vec<Instr>,
}
impl Family {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        name: &'static str,
        sig: FunctionType,
        locals: &[ValType],
        palette: Vec<Instr>,
        len: usize,
        inputs: &[&[u64]],
        support: fn(&mut w::Module),
    ) -> Family {
        let mut m = w::Module::new();
        support(&mut m);
        let env = ModEnv {
            funcs: m.functions.iter().map(|f| f.type_).collect(),
            globals: m.globals.iter().map(|g| (g.type_.0, g.type_.1 == Mutability::Mut)).collect(),
            tables: m.tables.iter().map(|t| t.ref_type).collect(),
            memory: !m.memories.is_empty(),
        };
        Family {
            name,
            sig,
            locals: locals.to_vec(),
            palette,
            len,
            dead: 1,
            max_stack: 4,
            env,
            inputs: inputs.iter().map(|i| i.to_vec()).collect(),
            support,
        }
    }
    /// Calls `f` with every body, in depth-first order.
    pub fn bodies(&self, f: &mut dyn FnMut(&[Instr])) {
        let mut code = vec![];
        self.dfs(&Typer::new(self.sig, &self.locals), &mut code, f);
    }
    fn dfs(&self, t: &Typer, code: &mut Vec<Instr>, f: &mut dyn FnMut(&[Instr])) {
        if t.open() == 0 {
            let mut e = t.clone();
            if e.step(&Instr::End, &self.env) {
                code.push(Instr::End);
                f(code);
                code.pop();
            }
        }
        let left = self.len - code.len();
        if left <= t.open() {
            // only closing fits
            if left > 0 && t.open() > 0 {
                self.try_(&Instr::End, t, code, f);
            }
            return;
        }
        for op in &self.palette {
            if matches!(op, Instr::Block(_) | Instr::Loop(_) | Instr::If(_)) && left < t.open() + 2 {
                continue;
            }
            self.try_(op, t, code, f);
        }
        if t.open() > 0 {
            self.try_(&Instr::End, t, code, f);
            if left > t.open() {
                self.try_(&Instr::Else, t, code, f);
            }
        }
    }
    fn try_(&self, op: &Instr, t: &Typer, code: &mut Vec<Instr>, f: &mut dyn FnMut(&[Instr])) {
        let mut n = t.clone();
        if n.step(op, &self.env) && n.stack.len() <= self.max_stack && n.dead_run <= self.dead {
            code.push(op.clone());
            self.dfs(&n, code, f);
            code.pop();
        }
    }
    pub fn count(&self) -> u64 {
        let mut n = 0;
        self.bodies(&mut |_| n += 1);
        n
    }
    /// All bodies, shortest first.
    pub fn all(&self) -> Vec<Vec<Instr>> {
        let mut v = vec![];
        self.bodies(&mut |b| v.push(b.to_vec()));
        v.sort_by_key(|b| b.len());
        v
    }
    /// A module with the family's support functions, its state, and the given bodies exported as f0, f1, ...
    pub fn module(&self, bodies: &[&[Instr]]) -> w::Module {
        let mut m = w::Module::new();
        (self.support)(&mut m);
        for (i, b) in bodies.iter().enumerate() {
            let me = m.functions.len() as u32;
            let body = b
                .iter()
                .map(|op| match op {
                    Instr::Call(f) if f.to_u32() == SELF => Instr::Call(me.into()),
                    Instr::RefFunc(f) if f.to_u32() == SELF => Instr::RefFunc(me.into()),
                    op => op.clone(),
                })
                .collect();
            let idx = m.add_function(self.sig, self.locals.clone(), body);
            m.function_mut(idx).export.push(format!("f{i}"));
        }
        m
    }
}

pub fn ft(i: &[ValType], o: &[ValType]) -> FunctionType {
    FunctionType::new(i, o)
}
pub fn lget(i: u32) -> Instr {
    Instr::Local(LocalOp::Get, i.into())
}
pub fn lset(i: u32) -> Instr {
    Instr::Local(LocalOp::Set, i.into())
}
pub fn ltee(i: u32) -> Instr {
    Instr::Local(LocalOp::Tee, i.into())
}
pub fn gget(i: u32) -> Instr {
    Instr::Global(GlobalOp::Get, i.into())
}
pub fn gset(i: u32) -> Instr {
    Instr::Global(GlobalOp::Set, i.into())
}
pub fn c32(x: i32) -> Instr {
    Instr::Const(Val::I32(x))
}
pub fn konst(t: ValType, x: u64) -> Instr {
    Instr::Const(match t {
        I32 => Val::I32(x as u32 as i32),
        I64 => Val::I64(x as i64),
        F32 => Val::F32(w::OrderedFloat32(x as u32)),
        F64 => Val::F64(w::OrderedFloat64(x)),
        _ => unreachable!(),
    })
}
pub fn br(l: u32) -> Instr {
    Instr::Br(l.into())
}
pub fn br_if(l: u32) -> Instr {
    Instr::BrIf(l.into())
}
pub fn br_table(t: &[u32], d: u32) -> Instr {
    Instr::BrTable { table: t.iter().map(|l| (*l).into()).collect(), default: d.into() }
}
pub fn call(f: u32) -> Instr {
    Instr::Call(f.into())
}
pub fn import(m: &mut w::Module, name: &str, t: FunctionType) -> u32 {
    m.add_function_import(t, "env".into(), name.into()).to_u32()
}
pub fn global(m: &mut w::Module, t: ValType, mutable: bool, init: u64) -> u32 {
    let g = m.add_global(t, if mutable { Mutability::Mut } else { Mutability::Const }, vec![konst(t, init), Instr::End]);
    let n = format!("g{}", g.to_u32());
    m.globals[g.to_usize()].export.push(n);
    g.to_u32()
}
pub fn memory(m: &mut w::Module, pages: u32, max: Option<u32>) {
    m.memories.push(w::Memory {
        limits: Limits { initial_size: pages, max_size: max },
        import: None,
        export: vec!["mem".into()],
    });
}
pub fn func(m: &mut w::Module, t: FunctionType, locals: &[ValType], mut body: Vec<Instr>, export: &str) -> u32 {
    body.push(Instr::End);
    let f = m.add_function(t, locals.to_vec(), body);
    if !export.is_empty() {
        m.function_mut(f).export.push(export.into());
    }
    f.to_u32()
}
pub fn table(m: &mut w::Module, r: RefType, size: u32, max: Option<u32>) -> u32 {
    let n = m.tables.len();
    m.tables.push(w::Table {
        limits: Limits { initial_size: size, max_size: max },
        import: None,
        ref_type: r,
        export: vec![format!("t{n}")],
    });
    n as u32
}
pub fn elements(m: &mut w::Module, table: u32, offset: i32, funcs: &[Option<u32>]) {
    m.elements.push(w::Element {
        typ: RefType::FuncRef,
        init: funcs
            .iter()
            .map(|f| match f {
                Some(f) => vec![Instr::RefFunc((*f).into()), Instr::End],
                None => vec![Instr::RefNull(RefType::FuncRef), Instr::End],
            })
            .collect(),
        mode: w::ElementMode::Active { table: table.into(), offset: vec![c32(offset), Instr::End] },
    });
}
pub fn is_import(f: &w::Function) -> bool {
    matches!(f.code, ImportOrPresent::Import(..))
}

