//! Stand-in for `wasabi_wasm`: module representation, decoding (wasmparser), encoding (wasm-encoder),
//! instruction typing. Only what wastrumentation and its static analysis use.
mod codec;
mod ops;
pub mod types;

pub use ops::{BinaryOp, LoadOp, MemoryOp, StoreOp, UnaryOp};
use std::collections::HashMap;
use std::marker::PhantomData;
use std::sync::{Mutex, OnceLock};

// ---------------------------------------------------------------- indices
pub struct Idx<T>(u32, PhantomData<fn() -> T>);
impl<T> Idx<T> {
    pub fn to_u32(self) -> u32 {
        self.0
    }
    pub fn to_usize(self) -> usize {
        self.0 as usize
    }
}
impl<T> Clone for Idx<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Idx<T> {}
impl<T> PartialEq for Idx<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T> Eq for Idx<T> {}
impl<T> std::hash::Hash for Idx<T> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<T> PartialOrd for Idx<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<T> Ord for Idx<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl<T> std::fmt::Debug for Idx<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{} {}", std::any::type_name::<T>().rsplit("::").next().unwrap(), self.0)
    }
}
impl<T> From<u32> for Idx<T> {
    fn from(v: u32) -> Self {
        Idx(v, PhantomData)
    }
}
impl<T> From<usize> for Idx<T> {
    fn from(v: usize) -> Self {
        Idx(v.try_into().expect("wasm32 only allows u32 indices"), PhantomData)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Label(u32);
impl Label {
    pub fn to_u32(self) -> u32 {
        self.0
    }
    pub fn to_usize(self) -> usize {
        self.0 as usize
    }
}
impl From<u32> for Label {
    fn from(v: u32) -> Self {
        Label(v)
    }
}
impl From<usize> for Label {
    fn from(v: usize) -> Self {
        Label(v.try_into().unwrap())
    }
}

// ---------------------------------------------------------------- types
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum RefType {
    FuncRef,
    ExternRef,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum ValType {
    I32,
    I64,
    F32,
    F64,
    Ref(RefType),
}
impl ValType {
    pub fn zero(self) -> Val {
        match self {
            ValType::I32 => Val::I32(0),
            ValType::I64 => Val::I64(0),
            ValType::F32 => Val::F32(OrderedFloat32(0)),
            ValType::F64 => Val::F64(OrderedFloat64(0)),
            ValType::Ref(_) => panic!("no zero value for reference types"),
        }
    }
}
/// Bit pattern of an f32/f64, so that every NaN payload survives.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct OrderedFloat32(pub u32);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct OrderedFloat64(pub u64);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    I32(i32),
    I64(i64),
    F32(OrderedFloat32),
    F64(OrderedFloat64),
}
impl Val {
    pub fn to_type(self) -> ValType {
        match self {
            Val::I32(_) => ValType::I32,
            Val::I64(_) => ValType::I64,
            Val::F32(_) => ValType::F32,
            Val::F64(_) => ValType::F64,
        }
    }
}

/// Interned, hence `Copy`.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct FunctionType(&'static (Vec<ValType>, Vec<ValType>));
impl FunctionType {
    pub fn new(inputs: &[ValType], results: &[ValType]) -> Self {
        type Interned = HashMap<(Vec<ValType>, Vec<ValType>), &'static (Vec<ValType>, Vec<ValType>)>;
        static TYPES: OnceLock<Mutex<Interned>> = OnceLock::new();
        thread_local!(static LOCAL: std::cell::RefCell<Interned> = Default::default());
        let key = (inputs.to_vec(), results.to_vec());
        if let Some(t) = LOCAL.with(|l| l.borrow().get(&key).copied()) {
            return FunctionType(t);
        }
        let mut types = TYPES.get_or_init(Default::default).lock().unwrap();
        let t: &'static (Vec<ValType>, Vec<ValType>) =
            types.entry(key.clone()).or_insert_with(|| Box::leak(Box::new(key.clone())));
        LOCAL.with(|l| l.borrow_mut().insert(key, t));
        FunctionType(t)
    }
    pub fn empty() -> Self {
        Self::new(&[], &[])
    }
    pub fn inputs(&self) -> &'static [ValType] {
        &self.0 .0
    }
    pub fn results(&self) -> &'static [ValType] {
        &self.0 .1
    }
}
impl std::fmt::Debug for FunctionType {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?} -> {:?}", self.inputs(), self.results())
    }
}

// ---------------------------------------------------------------- module
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum ImportOrPresent<T> {
    Import(String, String),
    Present(T),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Local {
    pub type_: ValType,
    pub name: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct Code {
    pub locals: Vec<Local>,
    pub body: Vec<Instr>,
}
impl Code {
    pub fn new() -> Self {
        Self::default()
    }
}
#[derive(Debug, Clone)]
pub struct Function {
    pub type_: FunctionType,
    pub code: ImportOrPresent<Code>,
    pub export: Vec<String>,
    pub name: Option<String>,
}
impl Function {
    pub fn new(type_: FunctionType, code: Code, export: Vec<String>) -> Self {
        Function { type_, code: ImportOrPresent::Present(code), export, name: None }
    }
    pub fn new_imported(type_: FunctionType, module: String, name: String, export: Vec<String>) -> Self {
        Function { type_, code: ImportOrPresent::Import(module, name), export, name: None }
    }
    pub fn code(&self) -> Option<&Code> {
        match &self.code {
            ImportOrPresent::Present(c) => Some(c),
            ImportOrPresent::Import(..) => None,
        }
    }
    pub fn code_mut(&mut self) -> Option<&mut Code> {
        match &mut self.code {
            ImportOrPresent::Present(c) => Some(c),
            ImportOrPresent::Import(..) => None,
        }
    }
    pub fn import(&self) -> Option<(&str, &str)> {
        match &self.code {
            ImportOrPresent::Import(m, n) => Some((m, n)),
            ImportOrPresent::Present(_) => None,
        }
    }
    /// The non-parameter locals.
    pub fn locals(&self) -> impl Iterator<Item = (Idx<Local>, &Local)> {
        let params = self.type_.inputs().len();
        self.code()
            .map(|c| c.locals.as_slice())
            .unwrap_or_default()
            .iter()
            .enumerate()
            .map(move |(i, l)| ((params + i).into(), l))
    }
    pub fn local_count(&self) -> usize {
        self.locals().count()
    }
    pub fn add_fresh_local(&mut self, type_: ValType) -> Idx<Local> {
        let params = self.type_.inputs().len();
        let locals = &mut self.code_mut().expect("cannot add local to imported function").locals;
        locals.push(Local { type_, name: None });
        (params + locals.len() - 1).into()
    }
}
pub type Expr = Vec<Instr>;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Mutability {
    Const,
    Mut,
}
#[derive(Debug, Clone)]
pub struct Global {
    pub type_: (ValType, Mutability),
    pub init: ImportOrPresent<Expr>,
    pub export: Vec<String>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Limits {
    pub initial_size: u32,
    pub max_size: Option<u32>,
}
#[derive(Debug, Clone)]
pub struct Table {
    pub limits: Limits,
    pub import: Option<(String, String)>,
    pub ref_type: RefType,
    pub export: Vec<String>,
}
#[derive(Debug, Clone)]
pub struct Memory {
    pub limits: Limits,
    pub import: Option<(String, String)>,
    pub export: Vec<String>,
}
#[derive(Debug, Clone)]
pub struct Element {
    pub typ: RefType,
    pub init: Vec<Expr>,
    pub mode: ElementMode,
}
#[derive(Debug, Clone)]
pub enum ElementMode {
    Passive,
    Active { table: Idx<Table>, offset: Expr },
    Declarative,
}
#[derive(Debug, Clone)]
pub struct Data {
    pub init: Vec<u8>,
    pub mode: DataMode,
}
#[derive(Debug, Clone)]
pub enum DataMode {
    Passive,
    Active { memory: Idx<Memory>, offset: Expr },
}
#[derive(Debug, Clone, Default)]
pub struct Module {
    pub name: Option<String>,
    pub functions: Vec<Function>,
    pub globals: Vec<Global>,
    pub tables: Vec<Table>,
    pub memories: Vec<Memory>,
    pub datas: Vec<Data>,
    pub elements: Vec<Element>,
    pub start: Option<Idx<Function>>,
    pub custom_sections: Vec<(String, Vec<u8>)>,
}
impl Module {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn from_bytes(bytes: &[u8]) -> Result<(Self, Offsets, Vec<Issue>), ParseError> {
        codec::decode(bytes).map(|m| (m, Offsets, vec![]))
    }
    pub fn to_bytes(&self) -> Result<Vec<u8>, EncodeError> {
        codec::encode(self)
    }
    pub fn function(&self, idx: Idx<Function>) -> &Function {
        &self.functions[idx.to_usize()]
    }
    pub fn function_mut(&mut self, idx: Idx<Function>) -> &mut Function {
        &mut self.functions[idx.to_usize()]
    }
    pub fn functions(&self) -> impl Iterator<Item = (Idx<Function>, &Function)> {
        self.functions.iter().enumerate().map(|(i, f)| (i.into(), f))
    }
    pub fn functions_mut(&mut self) -> impl Iterator<Item = (Idx<Function>, &mut Function)> {
        self.functions.iter_mut().enumerate().map(|(i, f)| (i.into(), f))
    }
    pub fn global(&self, idx: Idx<Global>) -> &Global {
        &self.globals[idx.to_usize()]
    }
    pub fn table(&self, idx: Idx<Table>) -> &Table {
        &self.tables[idx.to_usize()]
    }
    pub fn add_function(&mut self, type_: FunctionType, locals: Vec<ValType>, body: Vec<Instr>) -> Idx<Function> {
        let locals = locals.into_iter().map(|type_| Local { type_, name: None }).collect();
        self.functions.push(Function::new(type_, Code { locals, body }, vec![]));
        (self.functions.len() - 1).into()
    }
    pub fn add_function_import(&mut self, type_: FunctionType, module: String, name: String) -> Idx<Function> {
        self.functions.push(Function::new_imported(type_, module, name, vec![]));
        (self.functions.len() - 1).into()
    }
    pub fn add_global(&mut self, type_: ValType, mut_: Mutability, init: Expr) -> Idx<Global> {
        self.globals.push(Global { type_: (type_, mut_), init: ImportOrPresent::Present(init), export: vec![] });
        (self.globals.len() - 1).into()
    }
}
#[derive(Debug, Clone)]
pub struct Offsets;
#[derive(Debug, Clone)]
pub struct Issue;
#[derive(Debug, Clone)]
pub struct ParseError(pub String);
#[derive(Debug, Clone)]
pub struct EncodeError(pub String);
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for ParseError {}
impl std::fmt::Display for EncodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for EncodeError {}

// ---------------------------------------------------------------- instructions
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum LocalOp {
    Get,
    Set,
    Tee,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum GlobalOp {
    Get,
    Set,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Memarg {
    pub alignment_exp: u8,
    pub offset: u32,
}
impl Memarg {
    pub fn default<T: MemoryOp>(op: T) -> Self {
        Memarg { alignment_exp: op.natural_alignment_exp(), offset: 0 }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Instr {
    Unreachable,
    Nop,
    Block(FunctionType),
    Loop(FunctionType),
    If(FunctionType),
    Else,
    End,
    Br(Label),
    BrIf(Label),
    BrTable { table: Box<[Label]>, default: Label },
    Return,
    Call(Idx<Function>),
    CallIndirect(FunctionType, Idx<Table>),
    RefNull(RefType),
    RefIsNull,
    RefFunc(Idx<Function>),
    Drop,
    Select,
    TypedSelect(ValType),
    Local(LocalOp, Idx<Local>),
    Global(GlobalOp, Idx<Global>),
    TableGet(Idx<Table>),
    TableSet(Idx<Table>),
    TableSize(Idx<Table>),
    TableGrow(Idx<Table>),
    TableFill(Idx<Table>),
    TableCopy(Idx<Table>, Idx<Table>),
    TableInit(Idx<Table>, Idx<Element>),
    ElemDrop(Idx<Element>),
    Load(LoadOp, Memarg),
    Store(StoreOp, Memarg),
    MemorySize(Idx<Memory>),
    MemoryGrow(Idx<Memory>),
    MemoryFill,
    MemoryCopy,
    MemoryInit(Idx<Data>),
    DataDrop(Idx<Data>),
    Const(Val),
    Unary(UnaryOp),
    Binary(BinaryOp),
}
