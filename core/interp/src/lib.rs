//! A small deterministic WebAssembly interpreter (MVP, multi-value, bulk memory, reference types, several
//! memories), written for exhaustive exploration: stores are plain data, fuel and depth are explicit, and an
//! embedder can watch and steer the execution of one instance instruction by instruction.
pub mod num;

use std::collections::HashMap;
use std::rc::Rc;
use wasabi_wasm as w;
use wasabi_wasm::{FunctionType, ImportOrPresent, Instr, LocalOp, RefType, Val, ValType};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Trap {
    Unreachable,
    OobMemory,
    OobTable,
    DivZero,
    IntOverflow,
    BadConversion,
    NullCall,
    CallType,
    /// Raised by the embedder.
    Host(u32),
    /// Resource limits: not behaviour of the program.
    OutOfFuel,
    TooDeep,
    TooBig,
}
impl Trap {
    pub fn is_limit(self) -> bool {
        matches!(self, Trap::OutOfFuel | Trap::TooDeep | Trap::TooBig)
    }
}

/// A null reference; function references are function addresses.
pub const NULL: u64 = u64::MAX;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Extern {
    Func(usize),
    Table(usize),
    Memory(usize),
    Global(usize),
}
pub enum FuncInst {
    Wasm { instance: usize, index: u32 },
    Host { id: usize },
}
#[derive(Clone)]
pub struct TableInst {
    pub elems: Vec<u64>,
    pub max: Option<u32>,
}
#[derive(Clone)]
pub struct MemInst {
    pub data: Vec<u8>,
    pub max: Option<u32>,
}
pub const PAGE: usize = 65536;
/// Memories never grow beyond this many pages (growing further reports -1 like a host out of memory would).
/// No memory grows beyond this.
pub static MAX_PAGES: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(8);

/// A function body with its control structure resolved.
pub struct Code {
    pub type_: FunctionType,
    pub locals: Vec<ValType>,
    pub body: Vec<Instr>,
    /// For block/loop/if: index of the matching `end`; for else/end: index of the opening instruction
    /// (`u32::MAX` for the function's own `end`).
    pub link: Vec<u32>,
    /// For `if`: index of its `else`, if it has one.
    pub else_: Vec<u32>,
}
impl Code {
    pub fn new(type_: FunctionType, code: &w::Code) -> Code {
        let n = code.body.len();
        let (mut link, mut else_) = (vec![u32::MAX; n], vec![u32::MAX; n]);
        let mut open: Vec<usize> = vec![];
        for (i, op) in code.body.iter().enumerate() {
            match op {
                Instr::Block(_) | Instr::Loop(_) | Instr::If(_) => open.push(i),
                Instr::Else => {
                    let o = *open.last().expect("else outside if");
                    else_[o] = i as u32;
                    link[i] = o as u32;
                }
                Instr::End => {
                    if let Some(o) = open.pop() {
                        link[o] = i as u32;
                        link[i] = o as u32;
                    }
                }
                _ => {}
            }
        }
        Code { type_, locals: code.locals.iter().map(|l| l.type_).collect(), body: code.body.clone(), link, else_ }
    }
}

pub struct Instance {
    pub funcs: Vec<usize>,
    pub tables: Vec<usize>,
    pub mems: Vec<usize>,
    pub globals: Vec<usize>,
    pub codes: Vec<Option<Rc<Code>>>,
    pub datas: Vec<Option<Rc<[u8]>>>,
    pub elems: Vec<Option<Rc<[u64]>>>,
    pub exports: HashMap<String, Extern>,
}

#[derive(Default)]
pub struct Store {
    pub funcs: Vec<FuncInst>,
    pub types: Vec<FunctionType>,
    pub tables: Vec<TableInst>,
    pub mems: Vec<MemInst>,
    pub globals: Vec<u64>,
    pub instances: Vec<Instance>,
    pub fuel: u64,
    pub depth: u32,
    pub max_depth: u32,
    pub executed: u64,
}

/// Where an observed instruction is.
pub struct At<'a> {
    pub instance: usize,
    pub func: u32,
    pub pc: usize,
    pub code: &'a Code,
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Action {
    /// Execute the instruction.
    Proceed,
    /// The embedder has executed it (operands popped, results pushed).
    Replaced,
}

pub trait Embedder: Sized {
    /// Whether `before`/`after` are called at all.
    const OBSERVES: bool;
    fn host(&mut self, store: &mut Store, id: usize, args: &[u64]) -> Result<Vec<u64>, Trap>;
    fn before(&mut self, _store: &mut Store, _at: &At, _locals: &mut [u64], _stack: &mut Vec<u64>) -> Result<Action, Trap> {
        Ok(Action::Proceed)
    }
    fn after(&mut self, _store: &mut Store, _at: &At, _stack: &mut Vec<u64>) -> Result<(), Trap> {
        Ok(())
    }
    /// The instance has been allocated and initialised; its start function has not run yet.
    fn linked(&mut self, _store: &Store, _instance: usize) {}
    /// Called on every call; the default just performs it.
    fn call(&mut self, store: &mut Store, func: usize, args: &[u64]) -> Result<Vec<u64>, Trap> {
        store.enter(self, func, args)
    }
}

struct Label {
    /// Where a branch to it continues.
    cont: usize,
    /// How many values a branch takes along.
    arity: usize,
    height: usize,
}

/// The mutable part of a store.
#[derive(Clone)]
pub struct Snapshot {
    tables: Vec<TableInst>,
    mems: Vec<MemInst>,
    globals: Vec<u64>,
    segments: Vec<(Vec<Option<Rc<[u8]>>>, Vec<Option<Rc<[u64]>>>)>,
}
impl Store {
    pub fn snapshot(&self) -> Snapshot {
        Snapshot {
            tables: self.tables.clone(),
            mems: self.mems.clone(),
            globals: self.globals.clone(),
            segments: self.instances.iter().map(|i| (i.datas.clone(), i.elems.clone())).collect(),
        }
    }
    /// Back to a snapshot of this store.
    pub fn restore(&mut self, s: &Snapshot) {
        self.tables.clone_from(&s.tables);
        for (m, from) in self.mems.iter_mut().zip(&s.mems) {
            m.data.clear();
            m.data.extend_from_slice(&from.data);
        }
        self.globals.clone_from(&s.globals);
        for (i, (d, e)) in self.instances.iter_mut().zip(&s.segments) {
            i.datas.clone_from(d);
            i.elems.clone_from(e);
        }
        self.depth = 0;
    }
    pub fn new() -> Store {
        Store { fuel: u64::MAX, max_depth: 64, ..Default::default() }
    }
    pub fn add_host(&mut self, type_: FunctionType, id: usize) -> usize {
        self.funcs.push(FuncInst::Host { id });
        self.types.push(type_);
        self.funcs.len() - 1
    }

    /// Allocates and initialises an instance. `resolve(module, name)` supplies the imports.
    pub fn instantiate<E: Embedder>(
        &mut self,
        m: &w::Module,
        emb: &mut E,
        mut resolve: impl FnMut(&mut Store, &str, &str, Option<FunctionType>) -> Option<Extern>,
    ) -> Result<usize, Trap> {
        let inst = self.instances.len();
        let mut me = Instance {
            funcs: vec![],
            tables: vec![],
            mems: vec![],
            globals: vec![],
            codes: vec![],
            datas: vec![],
            elems: vec![],
            exports: HashMap::new(),
        };
        for (i, f) in m.functions.iter().enumerate() {
            match &f.code {
                ImportOrPresent::Import(a, b) => match resolve(self, a, b, Some(f.type_)) {
                    Some(Extern::Func(x)) => {
                        assert_eq!(self.types[x], f.type_, "import {a}.{b} linked at another type");
                        me.funcs.push(x);
                        me.codes.push(None);
                    }
                    _ => panic!("unresolved function import {a}.{b}"),
                },
                ImportOrPresent::Present(c) => {
                    self.funcs.push(FuncInst::Wasm { instance: inst, index: i as u32 });
                    self.types.push(f.type_);
                    me.funcs.push(self.funcs.len() - 1);
                    me.codes.push(Some(Rc::new(Code::new(f.type_, c))));
                }
            }
        }
        for t in &m.tables {
            match &t.import {
                Some((a, b)) => match resolve(self, a, b, None) {
                    Some(Extern::Table(x)) => me.tables.push(x),
                    _ => panic!("unresolved table import {a}.{b}"),
                },
                None => {
                    self.tables.push(TableInst { elems: vec![NULL; t.limits.initial_size as usize], max: t.limits.max_size });
                    me.tables.push(self.tables.len() - 1);
                }
            }
        }
        for t in &m.memories {
            match &t.import {
                Some((a, b)) => match resolve(self, a, b, None) {
                    Some(Extern::Memory(x)) => me.mems.push(x),
                    _ => panic!("unresolved memory import {a}.{b}"),
                },
                None => {
                    self.mems.push(MemInst { data: vec![0; t.limits.initial_size as usize * PAGE], max: t.limits.max_size });
                    me.mems.push(self.mems.len() - 1);
                }
            }
        }
        for g in &m.globals {
            match &g.init {
                ImportOrPresent::Import(a, b) => match resolve(self, a, b, None) {
                    Some(Extern::Global(x)) => me.globals.push(x),
                    _ => panic!("unresolved global import {a}.{b}"),
                },
                ImportOrPresent::Present(x) => {
                    let v = self.constant(&me, x);
                    self.globals.push(v);
                    me.globals.push(self.globals.len() - 1);
                }
            }
        }
        for (i, f) in m.functions.iter().enumerate() {
            for n in &f.export {
                me.exports.insert(n.clone(), Extern::Func(me.funcs[i]));
            }
        }
        for (i, t) in m.tables.iter().enumerate() {
            for n in &t.export {
                me.exports.insert(n.clone(), Extern::Table(me.tables[i]));
            }
        }
        for (i, t) in m.memories.iter().enumerate() {
            for n in &t.export {
                me.exports.insert(n.clone(), Extern::Memory(me.mems[i]));
            }
        }
        for (i, g) in m.globals.iter().enumerate() {
            for n in &g.export {
                me.exports.insert(n.clone(), Extern::Global(me.globals[i]));
            }
        }
        for e in &m.elements {
            let v: Vec<u64> = e.init.iter().map(|x| self.constant(&me, x)).collect();
            me.elems.push(Some(v.into()));
        }
        for d in &m.datas {
            me.datas.push(Some(d.init.clone().into()));
        }
        let mut err = None;
        for (i, e) in m.elements.iter().enumerate() {
            match &e.mode {
                w::ElementMode::Passive => {}
                w::ElementMode::Declarative => me.elems[i] = None,
                w::ElementMode::Active { table, offset } => {
                    let at = self.constant(&me, offset) as u32 as usize;
                    let src = me.elems[i].take().unwrap();
                    let t = &mut self.tables[me.tables[table.to_usize()]];
                    if at + src.len() > t.elems.len() {
                        err = err.or(Some(Trap::OobTable));
                    } else if err.is_none() {
                        t.elems[at..at + src.len()].copy_from_slice(&src);
                    }
                }
            }
        }
        for (i, d) in m.datas.iter().enumerate() {
            if let w::DataMode::Active { memory, offset } = &d.mode {
                let at = self.constant(&me, offset) as u32 as usize;
                let src = me.datas[i].take().unwrap();
                let mem = &mut self.mems[me.mems[memory.to_usize()]];
                if at + src.len() > mem.data.len() {
                    err = err.or(Some(Trap::OobMemory));
                } else if err.is_none() {
                    mem.data[at..at + src.len()].copy_from_slice(&src);
                }
            }
        }
        let start = m.start.map(|s| me.funcs[s.to_usize()]);
        self.instances.push(me);
        emb.linked(self, inst);
        if let Some(t) = err {
            return Err(t);
        }
        if let Some(s) = start {
            self.invoke(emb, s, &[])?;
        }
        Ok(inst)
    }
    fn constant(&self, me: &Instance, x: &[Instr]) -> u64 {
        match &x[0] {
            Instr::Const(v) => bits(*v),
            Instr::Global(_, g) => self.globals[me.globals[g.to_usize()]],
            Instr::RefNull(_) => NULL,
            Instr::RefFunc(f) => me.funcs[f.to_usize()] as u64,
            other => panic!("constant expression {other:?}"),
        }
    }
    pub fn func_export(&self, inst: usize, name: &str) -> Option<usize> {
        match self.instances[inst].exports.get(name) {
            Some(Extern::Func(f)) => Some(*f),
            _ => None,
        }
    }

    /// Calls through the embedder's `call`.
    pub fn invoke<E: Embedder>(&mut self, emb: &mut E, func: usize, args: &[u64]) -> Result<Vec<u64>, Trap> {
        emb.call(self, func, args)
    }
    /// Enters the function itself.
    pub fn enter<E: Embedder>(&mut self, emb: &mut E, func: usize, args: &[u64]) -> Result<Vec<u64>, Trap> {
        match self.funcs[func] {
            FuncInst::Host { id } => emb.host(self, id, args),
            FuncInst::Wasm { instance, index } => {
                if self.depth >= self.max_depth {
                    return Err(Trap::TooDeep);
                }
                self.depth += 1;
                let code = self.instances[instance].codes[index as usize].clone().unwrap();
                let r = self.run(emb, instance, index, &code, args);
                self.depth -= 1;
                r
            }
        }
    }

    fn run<E: Embedder>(&mut self, emb: &mut E, instance: usize, index: u32, code: &Code, args: &[u64]) -> Result<Vec<u64>, Trap> {
        let mut locals = args.to_vec();
        locals.extend(code.locals.iter().map(|t| if matches!(t, ValType::Ref(_)) { NULL } else { 0 }));
        let mut stack: Vec<u64> = Vec::with_capacity(16);
        let n_results = code.type_.results().len();
        let mut labels = vec![Label { cont: code.body.len(), arity: n_results, height: 0 }];
        let mut pc = 0usize;
        macro_rules! pop {
            () => {
                stack.pop().expect("operand stack underflow")
            };
        }
        macro_rules! inst {
            () => {
                self.instances[instance]
            };
        }
        macro_rules! branch {
            ($depth:expr) => {{
                let keep = labels.len() - 1 - $depth;
                let l = &labels[keep];
                let from = stack.len() - l.arity;
                let h = l.height;
                pc = l.cont;
                let arity = l.arity;
                for k in 0..arity {
                    stack[h + k] = stack[from + k];
                }
                stack.truncate(h + arity);
                labels.truncate(keep);
                continue;
            }};
        }
        while pc < code.body.len() {
            if self.fuel == 0 {
                return Err(Trap::OutOfFuel);
            }
            self.fuel -= 1;
            self.executed += 1;
            let op = &code.body[pc];
            if E::OBSERVES {
                let at = At { instance, func: index, pc, code };
                if emb.before(self, &at, &mut locals, &mut stack)? == Action::Replaced {
                    pc += 1;
                    continue;
                }
            }
            match op {
                Instr::Unreachable => return Err(Trap::Unreachable),
                Instr::Nop => {}
                Instr::Block(t) => labels.push(Label {
                    cont: code.link[pc] as usize + 1,
                    arity: t.results().len(),
                    height: stack.len() - t.inputs().len(),
                }),
                Instr::Loop(t) => {
                    labels.push(Label { cont: pc, arity: t.inputs().len(), height: stack.len() - t.inputs().len() })
                }
                Instr::If(t) => {
                    let c = pop!() as u32;
                    labels.push(Label {
                        cont: code.link[pc] as usize + 1,
                        arity: t.results().len(),
                        height: stack.len() - t.inputs().len(),
                    });
                    if c == 0 {
                        pc = if code.else_[pc] == u32::MAX { code.link[pc] as usize } else { code.else_[pc] as usize + 1 };
                        continue;
                    }
                }
                Instr::Else => {
                    labels.pop();
                    pc = code.link[code.link[pc] as usize] as usize + 1;
                    continue;
                }
                Instr::End => {
                    labels.pop();
                }
                Instr::Br(l) => branch!(l.to_usize()),
                Instr::BrIf(l) => {
                    if pop!() as u32 != 0 {
                        branch!(l.to_usize())
                    }
                }
                Instr::BrTable { table, default } => {
                    let i = pop!() as u32 as usize;
                    branch!(table.get(i).unwrap_or(default).to_usize())
                }
                Instr::Return => branch!(labels.len() - 1),
                Instr::Call(f) => {
                    let f = inst!().funcs[f.to_usize()];
                    let n = self.types[f].inputs().len();
                    let args = stack.split_off(stack.len() - n);
                    stack.extend(emb.call(self, f, &args)?);
                }
                Instr::CallIndirect(t, table) => {
                    let i = pop!() as u32 as usize;
                    let f = *self.tables[inst!().tables[table.to_usize()]].elems.get(i).ok_or(Trap::OobTable)?;
                    if f == NULL {
                        return Err(Trap::NullCall);
                    }
                    if self.types[f as usize] != *t {
                        return Err(Trap::CallType);
                    }
                    let args = stack.split_off(stack.len() - t.inputs().len());
                    stack.extend(emb.call(self, f as usize, &args)?);
                }
                Instr::RefNull(_) => stack.push(NULL),
                Instr::RefIsNull => {
                    let r = pop!();
                    stack.push(u64::from(r == NULL));
                }
                Instr::RefFunc(f) => stack.push(inst!().funcs[f.to_usize()] as u64),
                Instr::Drop => {
                    pop!();
                }
                Instr::Select | Instr::TypedSelect(_) => {
                    let c = pop!() as u32;
                    let b = pop!();
                    if c == 0 {
                        *stack.last_mut().unwrap() = b;
                    }
                }
                Instr::Local(LocalOp::Get, i) => stack.push(locals[i.to_usize()]),
                Instr::Local(LocalOp::Set, i) => locals[i.to_usize()] = pop!(),
                Instr::Local(LocalOp::Tee, i) => locals[i.to_usize()] = *stack.last().unwrap(),
                Instr::Global(w::GlobalOp::Get, i) => stack.push(self.globals[inst!().globals[i.to_usize()]]),
                Instr::Global(w::GlobalOp::Set, i) => {
                    let g = inst!().globals[i.to_usize()];
                    self.globals[g] = pop!();
                }
                Instr::TableGet(t) => {
                    let i = pop!() as u32 as usize;
                    stack.push(*self.tables[inst!().tables[t.to_usize()]].elems.get(i).ok_or(Trap::OobTable)?);
                }
                Instr::TableSet(t) => {
                    let v = pop!();
                    let i = pop!() as u32 as usize;
                    let t = inst!().tables[t.to_usize()];
                    *self.tables[t].elems.get_mut(i).ok_or(Trap::OobTable)? = v;
                }
                Instr::TableSize(t) => stack.push(self.tables[inst!().tables[t.to_usize()]].elems.len() as u64),
                Instr::TableGrow(t) => {
                    let n = pop!() as u32;
                    let v = pop!();
                    let t = inst!().tables[t.to_usize()];
                    let t = &mut self.tables[t];
                    let old = t.elems.len() as u64;
                    let limit = u64::from(t.max.unwrap_or(u32::MAX)).min(1000);
                    if old + u64::from(n) > limit {
                        stack.push(0xffff_ffff);
                    } else {
                        t.elems.resize((old + u64::from(n)) as usize, v);
                        stack.push(old);
                    }
                }
                Instr::TableFill(t) => {
                    let n = pop!() as u32 as usize;
                    let v = pop!();
                    let d = pop!() as u32 as usize;
                    let t = inst!().tables[t.to_usize()];
                    self.tables[t].elems.get_mut(d..d + n).ok_or(Trap::OobTable)?.fill(v);
                }
                Instr::TableCopy(d, s) => {
                    let n = pop!() as u32 as usize;
                    let from = pop!() as u32 as usize;
                    let to = pop!() as u32 as usize;
                    let (d, s) = (inst!().tables[d.to_usize()], inst!().tables[s.to_usize()]);
                    let src = self.tables[s].elems.get(from..from + n).ok_or(Trap::OobTable)?.to_vec();
                    self.tables[d].elems.get_mut(to..to + n).ok_or(Trap::OobTable)?.copy_from_slice(&src);
                }
                Instr::TableInit(t, e) => {
                    let n = pop!() as u32 as usize;
                    let from = pop!() as u32 as usize;
                    let to = pop!() as u32 as usize;
                    let src = inst!().elems[e.to_usize()].clone().unwrap_or_else(|| Rc::from([]));
                    let src = src.get(from..from + n).ok_or(Trap::OobTable)?;
                    let t = inst!().tables[t.to_usize()];
                    self.tables[t].elems.get_mut(to..to + n).ok_or(Trap::OobTable)?.copy_from_slice(src);
                }
                Instr::ElemDrop(e) => inst!().elems[e.to_usize()] = None,
                Instr::Load(op, m) => {
                    let p = pop!();
                    let mem = inst!().mems[0];
                    stack.push(num::load(*op, &self.mems[mem].data, p, m.offset)?);
                }
                Instr::Store(op, m) => {
                    let v = pop!();
                    let p = pop!();
                    let mem = inst!().mems[0];
                    num::store(*op, &mut self.mems[mem].data, p, v, m.offset)?;
                }
                Instr::MemorySize(m) => stack.push((self.mems[inst!().mems[m.to_usize()]].data.len() / PAGE) as u64),
                Instr::MemoryGrow(m) => {
                    let n = pop!() as u32;
                    let m = inst!().mems[m.to_usize()];
                    stack.push(u64::from(self.mems[m].grow(n)));
                }
                Instr::MemoryFill => {
                    let n = pop!() as u32 as usize;
                    let v = pop!() as u8;
                    let d = pop!() as u32 as usize;
                    let mem = inst!().mems[0];
                    self.mems[mem].data.get_mut(d..d + n).ok_or(Trap::OobMemory)?.fill(v);
                }
                Instr::MemoryCopy => {
                    let n = pop!() as u32 as usize;
                    let s = pop!() as u32 as usize;
                    let d = pop!() as u32 as usize;
                    let mem = inst!().mems[0];
                    let data = &mut self.mems[mem].data;
                    if s + n > data.len() || d + n > data.len() {
                        return Err(Trap::OobMemory);
                    }
                    data.copy_within(s..s + n, d);
                }
                Instr::MemoryInit(i) => {
                    let n = pop!() as u32 as usize;
                    let s = pop!() as u32 as usize;
                    let d = pop!() as u32 as usize;
                    let src = inst!().datas[i.to_usize()].clone().unwrap_or_else(|| Rc::from([]));
                    let src = src.get(s..s + n).ok_or(Trap::OobMemory)?;
                    let mem = inst!().mems[0];
                    self.mems[mem].data.get_mut(d..d + n).ok_or(Trap::OobMemory)?.copy_from_slice(src);
                }
                Instr::DataDrop(i) => inst!().datas[i.to_usize()] = None,
                Instr::Const(v) => stack.push(bits(*v)),
                Instr::Unary(op) => {
                    let x = pop!();
                    stack.push(num::unary(*op, x)?);
                }
                Instr::Binary(op) => {
                    let r = pop!();
                    let l = pop!();
                    stack.push(num::binary(*op, l, r)?);
                }
            }
            if E::OBSERVES {
                let at = At { instance, func: index, pc, code };
                emb.after(self, &at, &mut stack)?;
            }
            pc += 1;
        }
        let from = stack.len() - n_results;
        Ok(stack.split_off(from))
    }
}
impl MemInst {
    /// `memory.grow`: the old size in pages or -1.
    pub fn grow(&mut self, n: u32) -> u32 {
        let old = (self.data.len() / PAGE) as u32;
        let limit = self.max.unwrap_or(65536).min(MAX_PAGES.load(std::sync::atomic::Ordering::Relaxed));
        if u64::from(old) + u64::from(n) > u64::from(limit) {
            return u32::MAX;
        }
        self.data.resize((old + n) as usize * PAGE, 0);
        old
    }
}
pub fn bits(v: Val) -> u64 {
    match v {
        Val::I32(x) => u64::from(x as u32),
        Val::I64(x) => x as u64,
        Val::F32(x) => u64::from(x.0),
        Val::F64(x) => x.0,
    }
}
pub fn is_ref(t: ValType) -> bool {
    matches!(t, ValType::Ref(RefType::FuncRef | RefType::ExternRef))
}
