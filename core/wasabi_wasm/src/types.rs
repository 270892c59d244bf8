//! Instruction typing by the validation algorithm of the Wasm specification (appendix A.3).
use crate::*;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum InferredInstructionType {
    Reachable(FunctionType),
    Unreachable,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TypeError(pub Box<TypeErrorInner>);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TypeErrorInner {
    pub message: String,
    pub function_idx: Option<Idx<Function>>,
    pub function_name: Option<String>,
    pub instruction_idx: Option<Idx<Instr>>,
    pub instruction: Option<Instr>,
}
impl std::fmt::Display for TypeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "type error: {} ({:?})", self.0.message, self.0.instruction)
    }
}
impl std::error::Error for TypeError {}
fn err<T>(m: impl Into<String>) -> Result<T, TypeError> {
    Err(TypeError(Box::new(TypeErrorInner {
        message: m.into(),
        function_idx: None,
        function_name: None,
        instruction_idx: None,
        instruction: None,
    })))
}

#[derive(PartialEq, Clone, Copy)]
enum Kind {
    Function,
    Block,
    Loop,
    If,
    Else,
}
struct Frame {
    kind: Kind,
    type_: FunctionType,
    height: usize,
    unreachable: bool,
}
/// `None` is the bottom type of dead code.
type Ty = Option<ValType>;

pub struct TypeChecker<'m> {
    module: &'m Module,
    locals: Vec<ValType>,
    results: &'static [ValType],
    stack: Vec<Ty>,
    frames: Vec<Frame>,
}

impl<'m> TypeChecker<'m> {
    pub fn begin_function(function: &Function, module: &'m Module) -> Self {
        let locals =
            function.type_.inputs().iter().copied().chain(function.locals().map(|(_, l)| l.type_)).collect();
        TypeChecker {
            module,
            locals,
            results: function.type_.results(),
            stack: vec![],
            frames: vec![Frame {
                kind: Kind::Function,
                type_: FunctionType::new(&[], function.type_.results()),
                height: 0,
                unreachable: false,
            }],
        }
    }
    fn top(&self) -> Result<&Frame, TypeError> {
        self.frames.last().map_or_else(|| err("instruction after the end of the function"), Ok)
    }
    fn pop_any(&mut self) -> Result<Ty, TypeError> {
        let f = self.top()?;
        if self.stack.len() == f.height {
            return if f.unreachable { Ok(None) } else { err("stack underflow") };
        }
        Ok(self.stack.pop().unwrap())
    }
    fn pop(&mut self, t: ValType) -> Result<(), TypeError> {
        match self.pop_any()? {
            Some(x) if x != t => err(format!("expected {t:?}, found {x:?}")),
            _ => Ok(()),
        }
    }
    fn pops(&mut self, ts: &[ValType]) -> Result<(), TypeError> {
        ts.iter().rev().try_for_each(|t| self.pop(*t))
    }
    fn pushes(&mut self, ts: &[ValType]) {
        self.stack.extend(ts.iter().map(|t| Some(*t)));
    }
    fn apply(&mut self, i: &[ValType], o: &[ValType]) -> Result<FunctionType, TypeError> {
        self.pops(i)?;
        self.pushes(o);
        Ok(FunctionType::new(i, o))
    }
    fn label(&self, l: Label) -> Result<&'static [ValType], TypeError> {
        let n = self.frames.len();
        if l.to_usize() >= n {
            return err("unknown label");
        }
        let f = &self.frames[n - 1 - l.to_usize()];
        Ok(if f.kind == Kind::Loop { f.type_.inputs() } else { f.type_.results() })
    }
    fn dead(&mut self) {
        let f = self.frames.last_mut().unwrap();
        f.unreachable = true;
        self.stack.truncate(f.height);
    }
    fn enter(&mut self, kind: Kind, type_: FunctionType) -> Result<(), TypeError> {
        self.pops(type_.inputs())?;
        self.frames.push(Frame { kind, type_, height: self.stack.len(), unreachable: false });
        self.pushes(type_.inputs());
        Ok(())
    }
    fn leave(&mut self) -> Result<Frame, TypeError> {
        let results = self.top()?.type_.results();
        self.pops(results)?;
        if self.stack.len() != self.top()?.height {
            return err("values remain on the stack at the end of a block");
        }
        Ok(self.frames.pop().unwrap())
    }

    pub fn check_next_instr(&mut self, instr: &Instr) -> Result<InferredInstructionType, TypeError> {
        use ValType::{Ref, I32};
        let was_unreachable = self.top()?.unreachable;
        let get = |what: &str, o: Option<ValType>| o.map_or_else(|| err(format!("unknown {what}")), Ok);
        let table_type = |t: &Idx<Table>| get("table", self.module.tables.get(t.to_usize()).map(|t| Ref(t.ref_type)));
        let type_ = match instr {
            Instr::Nop | Instr::ElemDrop(_) | Instr::DataDrop(_) => FunctionType::empty(),
            Instr::Unreachable => {
                self.dead();
                FunctionType::empty()
            }
            Instr::Block(t) => {
                self.enter(Kind::Block, *t)?;
                *t
            }
            Instr::Loop(t) => {
                self.enter(Kind::Loop, *t)?;
                *t
            }
            Instr::If(t) => {
                self.pop(I32)?;
                self.enter(Kind::If, *t)?;
                *t
            }
            Instr::Else => {
                let f = self.leave()?;
                if f.kind != Kind::If {
                    return err("else without if");
                }
                self.frames.push(Frame { kind: Kind::Else, type_: f.type_, height: self.stack.len(), unreachable: false });
                self.pushes(f.type_.inputs());
                f.type_
            }
            Instr::End => {
                let f = self.leave()?;
                if f.kind == Kind::If && f.type_.inputs() != f.type_.results() {
                    return err("if without else must not change the stack");
                }
                self.pushes(f.type_.results());
                f.type_
            }
            Instr::Br(l) => {
                let t = self.label(*l)?;
                self.pops(t)?;
                self.dead();
                FunctionType::new(t, &[])
            }
            Instr::BrIf(l) => {
                let t = self.label(*l)?;
                self.pop(I32)?;
                self.pops(t)?;
                self.pushes(t);
                let i: Vec<ValType> = t.iter().copied().chain([I32]).collect();
                FunctionType::new(&i, t)
            }
            Instr::BrTable { table, default } => {
                self.pop(I32)?;
                let d = self.label(*default)?;
                for l in table.iter() {
                    let t = self.label(*l)?;
                    // Stricter than the specification in dead code, like the original (upstream limitation
                    // that wastrumentation's own `test_generation` records).
                    if t != d {
                        return err("labels of br_table disagree");
                    }
                }
                self.pops(d)?;
                self.dead();
                let i: Vec<ValType> = d.iter().copied().chain([I32]).collect();
                FunctionType::new(&i, &[])
            }
            Instr::Return => {
                let t = self.results;
                self.pops(t)?;
                self.dead();
                FunctionType::new(t, &[])
            }
            Instr::Call(f) => {
                let Some(f) = self.module.functions.get(f.to_usize()) else { return err("unknown function") };
                self.apply(f.type_.inputs(), f.type_.results())?
            }
            Instr::CallIndirect(t, _) => {
                let i: Vec<ValType> = t.inputs().iter().copied().chain([I32]).collect();
                self.apply(&i, t.results())?
            }
            Instr::RefNull(r) => self.apply(&[], &[Ref(*r)])?,
            Instr::RefIsNull => {
                let t = self.pop_any()?;
                self.pushes(&[I32]);
                FunctionType::new(&[t.unwrap_or(Ref(RefType::FuncRef))], &[I32])
            }
            Instr::RefFunc(_) => self.apply(&[], &[Ref(RefType::FuncRef)])?,
            Instr::Drop => {
                let t = self.pop_any()?;
                FunctionType::new(t.as_slice(), &[])
            }
            Instr::Select => {
                self.pop(I32)?;
                let a = self.pop_any()?;
                let b = self.pop_any()?;
                if let (Some(x), Some(y)) = (a, b) {
                    if x != y {
                        return err("select on different types");
                    }
                }
                let t = a.or(b);
                self.stack.push(t);
                t.map_or(FunctionType::empty(), |t| FunctionType::new(&[t, t, I32], &[t]))
            }
            Instr::TypedSelect(t) => self.apply(&[*t, *t, I32], &[*t])?,
            Instr::Local(op, l) => {
                let t = get("local", self.locals.get(l.to_usize()).copied())?;
                match op {
                    LocalOp::Get => self.apply(&[], &[t])?,
                    LocalOp::Set => self.apply(&[t], &[])?,
                    LocalOp::Tee => self.apply(&[t], &[t])?,
                }
            }
            Instr::Global(op, g) => {
                let t = get("global", self.module.globals.get(g.to_usize()).map(|g| g.type_.0))?;
                match op {
                    GlobalOp::Get => self.apply(&[], &[t])?,
                    GlobalOp::Set => self.apply(&[t], &[])?,
                }
            }
            Instr::TableGet(t) => {
                let t = table_type(t)?;
                self.apply(&[I32], &[t])?
            }
            Instr::TableSet(t) => {
                let t = table_type(t)?;
                self.apply(&[I32, t], &[])?
            }
            Instr::TableSize(_) => self.apply(&[], &[I32])?,
            Instr::TableGrow(t) => {
                let t = table_type(t)?;
                self.apply(&[t, I32], &[I32])?
            }
            Instr::TableFill(t) => {
                let t = table_type(t)?;
                self.apply(&[I32, t, I32], &[])?
            }
            Instr::TableCopy(..) | Instr::TableInit(..) | Instr::MemoryFill | Instr::MemoryCopy | Instr::MemoryInit(_) => {
                self.apply(&[I32, I32, I32], &[])?
            }
            Instr::Load(op, _) => self.apply(&[I32], &[op.ty()])?,
            Instr::Store(op, _) => self.apply(&[I32, op.ty()], &[])?,
            Instr::MemorySize(_) => self.apply(&[], &[I32])?,
            Instr::MemoryGrow(_) => self.apply(&[I32], &[I32])?,
            Instr::Const(v) => self.apply(&[], &[v.to_type()])?,
            Instr::Unary(op) => {
                let (a, r) = op.ty();
                self.apply(&[a], &[r])?
            }
            Instr::Binary(op) => {
                let (a, r) = op.ty();
                self.apply(&[a, a], &[r])?
            }
        };
        // An `else`/`end` is reached when the construct it belongs to is.
        let dead = match instr {
            Instr::Else => self.frames.iter().rev().nth(1).is_some_and(|f| f.unreachable),
            Instr::End => self.frames.last().is_some_and(|f| f.unreachable),
            _ => was_unreachable,
        };
        Ok(if dead { InferredInstructionType::Unreachable } else { InferredInstructionType::Reachable(type_) })
    }
}
