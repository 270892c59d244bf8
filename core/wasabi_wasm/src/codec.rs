use crate::*;
use std::borrow::Cow;
use wasm_encoder as we;
use wasmparser as wp;

fn perr(e: impl std::fmt::Display) -> ParseError {
    ParseError(e.to_string())
}

fn ref_type(r: wp::RefType) -> Result<RefType, ParseError> {
    if r == wp::RefType::FUNCREF {
        Ok(RefType::FuncRef)
    } else if r == wp::RefType::EXTERNREF {
        Ok(RefType::ExternRef)
    } else {
        Err(perr("unsupported reference type"))
    }
}
fn val_type(v: wp::ValType) -> Result<ValType, ParseError> {
    Ok(match v {
        wp::ValType::I32 => ValType::I32,
        wp::ValType::I64 => ValType::I64,
        wp::ValType::F32 => ValType::F32,
        wp::ValType::F64 => ValType::F64,
        wp::ValType::V128 => return Err(perr("SIMD unsupported")),
        wp::ValType::Ref(r) => ValType::Ref(ref_type(r)?),
    })
}
fn limits(initial: u64, max: Option<u64>) -> Result<Limits, ParseError> {
    Ok(Limits {
        initial_size: initial.try_into().map_err(perr)?,
        max_size: max.map(|m| m.try_into()).transpose().map_err(perr)?,
    })
}
fn block_type(bt: wp::BlockType, types: &[FunctionType]) -> Result<FunctionType, ParseError> {
    Ok(match bt {
        wp::BlockType::Empty => FunctionType::empty(),
        wp::BlockType::Type(t) => FunctionType::new(&[], &[val_type(t)?]),
        wp::BlockType::FuncType(i) => types[i as usize],
    })
}
fn heap_ref(h: wp::HeapType) -> Result<RefType, ParseError> {
    if h == wp::HeapType::FUNC {
        Ok(RefType::FuncRef)
    } else if h == wp::HeapType::EXTERN {
        Ok(RefType::ExternRef)
    } else {
        Err(perr("unsupported heap type"))
    }
}
fn memarg(m: wp::MemArg) -> Result<Memarg, ParseError> {
    Ok(Memarg { alignment_exp: m.align, offset: m.offset.try_into().map_err(perr)? })
}

fn instr(o: &wp::Operator, types: &[FunctionType]) -> Result<Instr, ParseError> {
    use wp::Operator as O;
    if let Some(u) = UnaryOp::decode(o) {
        return Ok(Instr::Unary(u));
    }
    if let Some(b) = BinaryOp::decode(o) {
        return Ok(Instr::Binary(b));
    }
    if let Some((l, m)) = LoadOp::decode(o) {
        return Ok(Instr::Load(l, memarg(m)?));
    }
    if let Some((s, m)) = StoreOp::decode(o) {
        return Ok(Instr::Store(s, memarg(m)?));
    }
    Ok(match o {
        O::Unreachable => Instr::Unreachable,
        O::Nop => Instr::Nop,
        O::Block { blockty } => Instr::Block(block_type(*blockty, types)?),
        O::Loop { blockty } => Instr::Loop(block_type(*blockty, types)?),
        O::If { blockty } => Instr::If(block_type(*blockty, types)?),
        O::Else => Instr::Else,
        O::End => Instr::End,
        O::Br { relative_depth } => Instr::Br((*relative_depth).into()),
        O::BrIf { relative_depth } => Instr::BrIf((*relative_depth).into()),
        O::BrTable { targets } => Instr::BrTable {
            table: targets.targets().map(|t| t.map(Label::from)).collect::<Result<Vec<_>, _>>().map_err(perr)?.into(),
            default: targets.default().into(),
        },
        O::Return => Instr::Return,
        O::Call { function_index } => Instr::Call((*function_index).into()),
        O::CallIndirect { type_index, table_index } => {
            Instr::CallIndirect(types[*type_index as usize], (*table_index).into())
        }
        O::RefNull { hty } => Instr::RefNull(heap_ref(*hty)?),
        O::RefIsNull => Instr::RefIsNull,
        O::RefFunc { function_index } => Instr::RefFunc((*function_index).into()),
        O::Drop => Instr::Drop,
        O::Select => Instr::Select,
        O::TypedSelect { ty } => Instr::TypedSelect(val_type(*ty)?),
        O::LocalGet { local_index } => Instr::Local(LocalOp::Get, (*local_index).into()),
        O::LocalSet { local_index } => Instr::Local(LocalOp::Set, (*local_index).into()),
        O::LocalTee { local_index } => Instr::Local(LocalOp::Tee, (*local_index).into()),
        O::GlobalGet { global_index } => Instr::Global(GlobalOp::Get, (*global_index).into()),
        O::GlobalSet { global_index } => Instr::Global(GlobalOp::Set, (*global_index).into()),
        O::TableGet { table } => Instr::TableGet((*table).into()),
        O::TableSet { table } => Instr::TableSet((*table).into()),
        O::TableSize { table } => Instr::TableSize((*table).into()),
        O::TableGrow { table } => Instr::TableGrow((*table).into()),
        O::TableFill { table } => Instr::TableFill((*table).into()),
        O::TableCopy { dst_table, src_table } => Instr::TableCopy((*dst_table).into(), (*src_table).into()),
        O::TableInit { elem_index, table } => Instr::TableInit((*table).into(), (*elem_index).into()),
        O::ElemDrop { elem_index } => Instr::ElemDrop((*elem_index).into()),
        O::MemorySize { mem } => Instr::MemorySize((*mem).into()),
        O::MemoryGrow { mem } => Instr::MemoryGrow((*mem).into()),
        O::MemoryFill { .. } => Instr::MemoryFill,
        O::MemoryCopy { .. } => Instr::MemoryCopy,
        O::MemoryInit { data_index, .. } => Instr::MemoryInit((*data_index).into()),
        O::DataDrop { data_index } => Instr::DataDrop((*data_index).into()),
        O::I32Const { value } => Instr::Const(Val::I32(*value)),
        O::I64Const { value } => Instr::Const(Val::I64(*value)),
        O::F32Const { value } => Instr::Const(Val::F32(OrderedFloat32(value.bits()))),
        O::F64Const { value } => Instr::Const(Val::F64(OrderedFloat64(value.bits()))),
        other => return Err(perr(format!("unsupported instruction {other:?}"))),
    })
}
fn expr(e: wp::ConstExpr, types: &[FunctionType]) -> Result<Expr, ParseError> {
    e.get_operators_reader().into_iter().map(|o| instr(&o.map_err(perr)?, types)).collect()
}

pub fn decode(bytes: &[u8]) -> Result<Module, ParseError> {
    let mut m = Module::new();
    let mut types: Vec<FunctionType> = vec![];
    let mut bodies = 0usize;
    let mut imported_functions = 0usize;
    for payload in wp::Parser::new(0).parse_all(bytes) {
        match payload.map_err(perr)? {
            wp::Payload::TypeSection(r) => {
                for t in r.into_iter_err_on_gc_types() {
                    let t = t.map_err(perr)?;
                    let i = t.params().iter().map(|v| val_type(*v)).collect::<Result<Vec<_>, _>>()?;
                    let o = t.results().iter().map(|v| val_type(*v)).collect::<Result<Vec<_>, _>>()?;
                    types.push(FunctionType::new(&i, &o));
                }
            }
            wp::Payload::ImportSection(r) => {
                for i in r {
                    let i = i.map_err(perr)?;
                    let (module, name) = (i.module.to_string(), i.name.to_string());
                    match i.ty {
                        wp::TypeRef::Func(t) => {
                            m.functions.push(Function::new_imported(types[t as usize], module, name, vec![]));
                            imported_functions += 1;
                        }
                        wp::TypeRef::Table(t) => m.tables.push(Table {
                            limits: limits(t.initial, t.maximum)?,
                            import: Some((module, name)),
                            ref_type: ref_type(t.element_type)?,
                            export: vec![],
                        }),
                        wp::TypeRef::Memory(t) => m.memories.push(Memory {
                            limits: limits(t.initial, t.maximum)?,
                            import: Some((module, name)),
                            export: vec![],
                        }),
                        wp::TypeRef::Global(g) => m.globals.push(Global {
                            type_: (val_type(g.content_type)?, if g.mutable { Mutability::Mut } else { Mutability::Const }),
                            init: ImportOrPresent::Import(module, name),
                            export: vec![],
                        }),
                        _ => return Err(perr("unsupported import")),
                    }
                }
            }
            wp::Payload::FunctionSection(r) => {
                for t in r {
                    m.functions.push(Function::new(types[t.map_err(perr)? as usize], Code::new(), vec![]));
                }
            }
            wp::Payload::TableSection(r) => {
                for t in r {
                    let t = t.map_err(perr)?;
                    m.tables.push(Table {
                        limits: limits(t.ty.initial, t.ty.maximum)?,
                        import: None,
                        ref_type: ref_type(t.ty.element_type)?,
                        export: vec![],
                    });
                }
            }
            wp::Payload::MemorySection(r) => {
                for t in r {
                    let t = t.map_err(perr)?;
                    m.memories.push(Memory { limits: limits(t.initial, t.maximum)?, import: None, export: vec![] });
                }
            }
            wp::Payload::GlobalSection(r) => {
                for g in r {
                    let g = g.map_err(perr)?;
                    m.globals.push(Global {
                        type_: (val_type(g.ty.content_type)?, if g.ty.mutable { Mutability::Mut } else { Mutability::Const }),
                        init: ImportOrPresent::Present(expr(g.init_expr, &types)?),
                        export: vec![],
                    });
                }
            }
            wp::Payload::ExportSection(r) => {
                for e in r {
                    let e = e.map_err(perr)?;
                    let (i, n) = (e.index as usize, e.name.to_string());
                    match e.kind {
                        wp::ExternalKind::Func => m.functions[i].export.push(n),
                        wp::ExternalKind::Table => m.tables[i].export.push(n),
                        wp::ExternalKind::Memory => m.memories[i].export.push(n),
                        wp::ExternalKind::Global => m.globals[i].export.push(n),
                        _ => return Err(perr("unsupported export")),
                    }
                }
            }
            wp::Payload::StartSection { func, .. } => m.start = Some(func.into()),
            wp::Payload::ElementSection(r) => {
                for e in r {
                    let e = e.map_err(perr)?;
                    let (typ, init) = match e.items {
                        wp::ElementItems::Functions(f) => (
                            RefType::FuncRef,
                            f.into_iter()
                                .map(|i| Ok(vec![Instr::RefFunc(i.map_err(perr)?.into()), Instr::End]))
                                .collect::<Result<Vec<_>, ParseError>>()?,
                        ),
                        wp::ElementItems::Expressions(t, x) => (
                            ref_type(t)?,
                            x.into_iter().map(|x| expr(x.map_err(perr)?, &types)).collect::<Result<Vec<_>, _>>()?,
                        ),
                    };
                    let mode = match e.kind {
                        wp::ElementKind::Passive => ElementMode::Passive,
                        wp::ElementKind::Declared => ElementMode::Declarative,
                        wp::ElementKind::Active { table_index, offset_expr } => ElementMode::Active {
                            table: table_index.unwrap_or(0).into(),
                            offset: expr(offset_expr, &types)?,
                        },
                    };
                    m.elements.push(Element { typ, init, mode });
                }
            }
            wp::Payload::DataSection(r) => {
                for d in r {
                    let d = d.map_err(perr)?;
                    let mode = match d.kind {
                        wp::DataKind::Passive => DataMode::Passive,
                        wp::DataKind::Active { memory_index, offset_expr } => {
                            DataMode::Active { memory: memory_index.into(), offset: expr(offset_expr, &types)? }
                        }
                    };
                    m.datas.push(Data { init: d.data.to_vec(), mode });
                }
            }
            wp::Payload::CodeSectionEntry(b) => {
                let mut code = Code::new();
                for l in b.get_locals_reader().map_err(perr)? {
                    let (n, t) = l.map_err(perr)?;
                    for _ in 0..n {
                        code.locals.push(Local { type_: val_type(t)?, name: None });
                    }
                }
                for o in b.get_operators_reader().map_err(perr)? {
                    code.body.push(instr(&o.map_err(perr)?, &types)?);
                }
                let f = m.functions.get_mut(imported_functions + bodies).ok_or_else(|| perr("too many bodies"))?;
                f.code = ImportOrPresent::Present(code);
                bodies += 1;
            }
            wp::Payload::CustomSection(c) => {
                if c.name() == "name" {
                    if let wp::KnownCustom::Name(names) = c.as_known() {
                        for n in names.into_iter().flatten() {
                            match n {
                                wp::Name::Module { name, .. } => m.name = Some(name.to_string()),
                                wp::Name::Function(map) => {
                                    for x in map.into_iter().flatten() {
                                        if let Some(f) = m.functions.get_mut(x.index as usize) {
                                            f.name = Some(x.name.to_string());
                                        }
                                    }
                                }
                                _ => {}
                            }
                        }
                    }
                } else {
                    m.custom_sections.push((c.name().to_string(), c.data().to_vec()));
                }
            }
            wp::Payload::Version { .. }
            | wp::Payload::DataCountSection { .. }
            | wp::Payload::CodeSectionStart { .. }
            | wp::Payload::End(_) => {}
            _ => return Err(perr("unsupported section")),
        }
    }
    Ok(m)
}

// ---------------------------------------------------------------- encoding
fn e_ref(r: RefType) -> we::RefType {
    match r {
        RefType::FuncRef => we::RefType::FUNCREF,
        RefType::ExternRef => we::RefType::EXTERNREF,
    }
}
fn e_val(v: ValType) -> we::ValType {
    match v {
        ValType::I32 => we::ValType::I32,
        ValType::I64 => we::ValType::I64,
        ValType::F32 => we::ValType::F32,
        ValType::F64 => we::ValType::F64,
        ValType::Ref(r) => we::ValType::Ref(e_ref(r)),
    }
}
struct Enc<'a> {
    m: &'a Module,
    types: Vec<FunctionType>,
    type_ids: HashMap<FunctionType, u32>,
    f: Vec<u32>,
    t: Vec<u32>,
    mem: Vec<u32>,
    g: Vec<u32>,
}
fn eerr(s: &str) -> EncodeError {
    EncodeError(s.into())
}
/// Imported entities come first in each index space.
fn renumber(imported: impl Iterator<Item = bool> + Clone) -> Vec<u32> {
    let n_imported = imported.clone().filter(|i| *i).count() as u32;
    let (mut next_import, mut next_present) = (0, n_imported);
    imported
        .map(|i| {
            let next = if i { &mut next_import } else { &mut next_present };
            *next += 1;
            *next - 1
        })
        .collect()
}
impl Enc<'_> {
    fn ty(&mut self, t: FunctionType) -> u32 {
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let i = self.types.len() as u32;
        self.types.push(t);
        self.type_ids.insert(t, i);
        i
    }
    fn look(v: &[u32], i: usize, what: &str) -> Result<u32, EncodeError> {
        v.get(i).copied().ok_or_else(|| eerr(what))
    }
    fn func(&self, i: Idx<Function>) -> Result<u32, EncodeError> {
        Self::look(&self.f, i.to_usize(), "function index out of bounds")
    }
    fn table(&self, i: Idx<Table>) -> Result<u32, EncodeError> {
        Self::look(&self.t, i.to_usize(), "table index out of bounds")
    }
    fn memory(&self, i: Idx<Memory>) -> Result<u32, EncodeError> {
        Self::look(&self.mem, i.to_usize(), "memory index out of bounds")
    }
    fn bt(&mut self, t: FunctionType) -> we::BlockType {
        match (t.inputs(), t.results()) {
            ([], []) => we::BlockType::Empty,
            ([], [r]) => we::BlockType::Result(e_val(*r)),
            _ => we::BlockType::FunctionType(self.ty(t)),
        }
    }
    fn instr(&mut self, i: &Instr) -> Result<we::Instruction<'static>, EncodeError> {
        use we::Instruction as W;
        let m = |m: &Memarg| we::MemArg { offset: m.offset.into(), align: m.alignment_exp.into(), memory_index: 0 };
        Ok(match i {
            Instr::Unreachable => W::Unreachable,
            Instr::Nop => W::Nop,
            Instr::Block(t) => W::Block(self.bt(*t)),
            Instr::Loop(t) => W::Loop(self.bt(*t)),
            Instr::If(t) => W::If(self.bt(*t)),
            Instr::Else => W::Else,
            Instr::End => W::End,
            Instr::Br(l) => W::Br(l.to_u32()),
            Instr::BrIf(l) => W::BrIf(l.to_u32()),
            Instr::BrTable { table, default } => {
                W::BrTable(Cow::Owned(table.iter().map(|l| l.to_u32()).collect()), default.to_u32())
            }
            Instr::Return => W::Return,
            Instr::Call(f) => W::Call(self.func(*f)?),
            Instr::CallIndirect(t, table) => {
                W::CallIndirect { type_index: self.ty(*t), table_index: self.table(*table)? }
            }
            Instr::RefNull(RefType::FuncRef) => W::RefNull(we::HeapType::FUNC),
            Instr::RefNull(RefType::ExternRef) => W::RefNull(we::HeapType::EXTERN),
            Instr::RefIsNull => W::RefIsNull,
            Instr::RefFunc(f) => W::RefFunc(self.func(*f)?),
            Instr::Drop => W::Drop,
            Instr::Select => W::Select,
            Instr::TypedSelect(t) => W::TypedSelect(e_val(*t)),
            Instr::Local(LocalOp::Get, l) => W::LocalGet(l.to_u32()),
            Instr::Local(LocalOp::Set, l) => W::LocalSet(l.to_u32()),
            Instr::Local(LocalOp::Tee, l) => W::LocalTee(l.to_u32()),
            Instr::Global(op, g) => {
                let g = Self::look(&self.g, g.to_usize(), "global index out of bounds")?;
                match op {
                    GlobalOp::Get => W::GlobalGet(g),
                    GlobalOp::Set => W::GlobalSet(g),
                }
            }
            Instr::TableGet(t) => W::TableGet(self.table(*t)?),
            Instr::TableSet(t) => W::TableSet(self.table(*t)?),
            Instr::TableSize(t) => W::TableSize(self.table(*t)?),
            Instr::TableGrow(t) => W::TableGrow(self.table(*t)?),
            Instr::TableFill(t) => W::TableFill(self.table(*t)?),
            Instr::TableCopy(d, s) => W::TableCopy { dst_table: self.table(*d)?, src_table: self.table(*s)? },
            Instr::TableInit(t, e) => W::TableInit { elem_index: e.to_u32(), table: self.table(*t)? },
            Instr::ElemDrop(e) => W::ElemDrop(e.to_u32()),
            Instr::Load(op, a) => op.encode(m(a)),
            Instr::Store(op, a) => op.encode(m(a)),
            Instr::MemorySize(x) => W::MemorySize(self.memory(*x)?),
            Instr::MemoryGrow(x) => W::MemoryGrow(self.memory(*x)?),
            Instr::MemoryFill => W::MemoryFill(0),
            Instr::MemoryCopy => W::MemoryCopy { src_mem: 0, dst_mem: 0 },
            Instr::MemoryInit(d) => W::MemoryInit { mem: 0, data_index: d.to_u32() },
            Instr::DataDrop(d) => W::DataDrop(d.to_u32()),
            Instr::Const(Val::I32(v)) => W::I32Const(*v),
            Instr::Const(Val::I64(v)) => W::I64Const(*v),
            Instr::Const(Val::F32(v)) => W::F32Const(we::Ieee32::new(v.0)),
            Instr::Const(Val::F64(v)) => W::F64Const(we::Ieee64::new(v.0)),
            Instr::Unary(u) => u.encode(),
            Instr::Binary(b) => b.encode(),
        })
    }
    fn expr(&mut self, e: &[Instr]) -> Result<we::ConstExpr, EncodeError> {
        let [init @ .., Instr::End] = e else { return Err(eerr("constant expression without end")) };
        let w = init.iter().map(|i| self.instr(i)).collect::<Result<Vec<_>, _>>()?;
        Ok(we::ConstExpr::extended(w))
    }
}

pub fn encode(m: &Module) -> Result<Vec<u8>, EncodeError> {
    let mut e = Enc {
        m,
        types: vec![],
        type_ids: HashMap::new(),
        f: renumber(m.functions.iter().map(|f| f.code().is_none())),
        t: renumber(m.tables.iter().map(|t| t.import.is_some())),
        mem: renumber(m.memories.iter().map(|t| t.import.is_some())),
        g: renumber(m.globals.iter().map(|g| matches!(g.init, ImportOrPresent::Import(..)))),
    };
    let m = e.m;
    let table_type = |t: &Table| we::TableType {
        element_type: e_ref(t.ref_type),
        table64: false,
        minimum: t.limits.initial_size.into(),
        maximum: t.limits.max_size.map(Into::into),
        shared: false,
    };
    let memory_type = |t: &Memory| we::MemoryType {
        minimum: t.limits.initial_size.into(),
        maximum: t.limits.max_size.map(Into::into),
        memory64: false,
        shared: false,
        page_size_log2: None,
    };
    let global_type =
        |g: &Global| we::GlobalType { val_type: e_val(g.type_.0), mutable: g.type_.1 == Mutability::Mut, shared: false };

    let mut imports = we::ImportSection::new();
    let mut functions = we::FunctionSection::new();
    for f in &m.functions {
        let t = e.ty(f.type_);
        match &f.code {
            ImportOrPresent::Import(a, b) => {
                imports.import(a, b, we::EntityType::Function(t));
            }
            ImportOrPresent::Present(_) => {
                functions.function(t);
            }
        }
    }
    let mut tables = we::TableSection::new();
    for t in &m.tables {
        match &t.import {
            Some((a, b)) => drop(imports.import(a, b, table_type(t))),
            None => drop(tables.table(table_type(t))),
        }
    }
    let mut memories = we::MemorySection::new();
    for t in &m.memories {
        match &t.import {
            Some((a, b)) => drop(imports.import(a, b, memory_type(t))),
            None => drop(memories.memory(memory_type(t))),
        }
    }
    let mut globals = we::GlobalSection::new();
    for g in &m.globals {
        match &g.init {
            ImportOrPresent::Import(a, b) => drop(imports.import(a, b, global_type(g))),
            ImportOrPresent::Present(x) => {
                let x = e.expr(x)?;
                globals.global(global_type(g), &x);
            }
        }
    }
    let mut exports = we::ExportSection::new();
    for (i, f) in m.functions.iter().enumerate() {
        for n in &f.export {
            exports.export(n, we::ExportKind::Func, e.f[i]);
        }
    }
    for (i, t) in m.tables.iter().enumerate() {
        for n in &t.export {
            exports.export(n, we::ExportKind::Table, e.t[i]);
        }
    }
    for (i, t) in m.memories.iter().enumerate() {
        for n in &t.export {
            exports.export(n, we::ExportKind::Memory, e.mem[i]);
        }
    }
    for (i, g) in m.globals.iter().enumerate() {
        for n in &g.export {
            exports.export(n, we::ExportKind::Global, e.g[i]);
        }
    }
    let mut elements = we::ElementSection::new();
    for el in &m.elements {
        let init = el.init.iter().map(|x| e.expr(x)).collect::<Result<Vec<_>, _>>()?;
        let items = we::Elements::Expressions(e_ref(el.typ), Cow::Owned(init));
        match &el.mode {
            ElementMode::Passive => drop(elements.passive(items)),
            ElementMode::Declarative => drop(elements.declared(items)),
            ElementMode::Active { table, offset } => {
                let (t, o) = (e.table(*table)?, e.expr(offset)?);
                elements.active(Some(t), &o, items);
            }
        }
    }
    let mut code = we::CodeSection::new();
    for f in &m.functions {
        let Some(c) = f.code() else { continue };
        let mut w = we::Function::new_with_locals_types(c.locals.iter().map(|l| e_val(l.type_)));
        for i in &c.body {
            w.instruction(&e.instr(i)?);
        }
        code.function(&w);
    }
    let mut datas = we::DataSection::new();
    for d in &m.datas {
        match &d.mode {
            DataMode::Passive => drop(datas.passive(d.init.iter().copied())),
            DataMode::Active { memory, offset } => {
                let (i, o) = (e.memory(*memory)?, e.expr(offset)?);
                datas.active(i, &o, d.init.iter().copied());
            }
        }
    }
    let mut types = we::TypeSection::new();
    for t in &e.types {
        types.ty().function(t.inputs().iter().map(|v| e_val(*v)), t.results().iter().map(|v| e_val(*v)));
    }

    let mut out = we::Module::new();
    out.section(&types).section(&imports).section(&functions).section(&tables).section(&memories).section(&globals).section(&exports);
    if let Some(s) = m.start {
        out.section(&we::StartSection { function_index: e.func(s)? });
    }
    out.section(&elements);
    if !m.datas.is_empty() {
        out.section(&we::DataCountSection { count: m.datas.len() as u32 });
    }
    out.section(&code).section(&datas);
    for (n, d) in &m.custom_sections {
        out.section(&we::CustomSection { name: Cow::Borrowed(n), data: Cow::Borrowed(d) });
    }
    Ok(out.finish())
}
