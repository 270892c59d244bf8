//! AssemblyScript to WebAssembly, for the part of the language that `parse` reads.
use crate::parse::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Ty { Bool, I8, I16, U8, U16, I32, U32, I64, U64, F32, F64, Void, Obj(String) }
use Ty::*;
impl Ty {
    fn wat(&self) -> &'static str {
        match self { I64 | U64 => "i64", F32 => "f32", F64 => "f64", _ => "i32" }
    }
    fn int(&self) -> bool { !matches!(self, F32 | F64 | Void | Obj(_)) }
    fn float(&self) -> bool { matches!(self, F32 | F64) }
    fn signed(&self) -> bool { matches!(self, I8 | I16 | I32 | I64 | F32 | F64) }
    /// In bits, as far as assignability is concerned.
    fn bits(&self) -> u32 {
        match self { Bool => 1, I8 | U8 => 8, I16 | U16 => 16, I64 | U64 | F64 => 64, Void => 0, _ => 32 }
    }
    fn bytes(&self) -> u32 { self.bits().div_ceil(8) }
    fn small(&self) -> bool { matches!(self, Bool | I8 | I16 | U8 | U16) }
}
type Env = HashMap<String, Ty>;
/// A typed expression: the code that leaves its value on the stack.
struct Val { ty: Ty, code: String }
fn val(ty: Ty, code: impl Into<String>) -> Val { Val { ty, code: code.into() } }

struct ClassInfo { base: Option<String>, fields: Vec<(String, Ty, u32)>, size: u32 }
enum Job { Fun(Fun, Option<String>, Env), Constructor(String) }
struct Imported { id: String, module: String, name: String, params: Vec<Ty>, ret: Ty }
#[derive(Clone)]
struct Sig { id: String, params: Vec<Ty>, defaults: Vec<Option<Expr>>, ret: Ty }

pub struct Compiler {
    funs: HashMap<String, Fun>,
    classes: HashMap<String, Class>,
    enums: HashMap<String, HashMap<String, i32>>,
    aliases: HashMap<String, TypeName>,
    globals: HashMap<String, (Ty, bool)>,
    constants: HashMap<String, i64>,
    layouts: HashMap<String, ClassInfo>,
    known: HashMap<String, Sig>,
    jobs: VecDeque<(String, Job)>,
    imports: Vec<Imported>,
    out: String,
    uses_heap: bool,
}
struct Body {
    env: Env,
    this: Option<String>,
    ret: Ty,
    scopes: Vec<HashMap<String, (String, Ty, bool)>>,
    locals: String,
    count: usize,
    loops: Vec<(Option<String>, Option<String>)>,
    after_super: String,
    in_constructor: bool,
}
impl Body {
    fn fresh(&mut self, ty: &Ty) -> String {
        self.count += 1;
        let n = format!("$v{}", self.count);
        write!(self.locals, " (local {n} {})", ty.wat()).unwrap();
        n
    }
    fn label(&mut self) -> String { self.count += 1; format!("$l{}", self.count) }
    fn find(&self, n: &str) -> Option<(String, Ty, bool)> { self.scopes.iter().rev().find_map(|s| s.get(n).cloned()) }
    fn declare(&mut self, n: &str, local: String, ty: Ty, constant: bool) -> R<()> {
        match self.scopes.last_mut().unwrap().insert(n.into(), (local, ty, constant)) {
            None => Ok(()),
            Some(_) => Err(format!("Duplicate identifier '{n}'")),
        }
    }
}
const BUILTIN_TYPES: &[(&str, Ty)] = &[
    ("bool", Bool), ("i8", I8), ("i16", I16), ("u8", U8), ("u16", U16), ("i32", I32), ("u32", U32), ("isize", I32), ("usize", U32), ("i64", I64), ("u64", U64), ("f32", F32), ("f64", F64),
    ("number", F64), ("boolean", Bool), ("void", Void),
];
fn number(n: &str, wanted: Option<&Ty>, negative: bool) -> R<Val> {
    let hex = n.strip_prefix("0x").or(n.strip_prefix("0X"));
    let float = hex.is_none() && n.contains(['.', 'e', 'E']);
    if float || matches!(wanted, Some(F32 | F64)) {
        let x: f64 = match hex { Some(h) => u64::from_str_radix(h, 16).map_err(|e| e.to_string())? as f64, None => n.parse().map_err(|_| format!("bad number {n}"))? };
        let x = if negative { -x } else { x };
        return Ok(if wanted == Some(&F32) { val(F32, format!("(f32.reinterpret_i32 (i32.const {}))", (x as f32).to_bits() as i32)) } else { val(F64, format!("(f64.reinterpret_i64 (i64.const {}))", x.to_bits() as i64)) });
    }
    let x = match hex { Some(h) => i128::from_str_radix(h, 16), None => n.parse() }.map_err(|_| format!("bad number {n}"))?;
    let x = if negative { -x } else { x };
    let ty = match wanted {
        Some(t) if t.bits() == 64 => t.clone(),
        Some(t) if t.int() && (t.signed() && x >= -(1i128 << (t.bits() - 1)) && x < 1i128 << (t.bits() - 1) || !t.signed() && x >= 0 && x < 1i128 << t.bits()) => t.clone(),
        _ if i32::try_from(x).is_ok() => I32,
        _ if u32::try_from(x).is_ok() => U32,
        _ => I64,
    };
    if x >= 1i128 << 64 || x < -(1i128 << 63) { return Err(format!("integer literal {n} out of range")); }
    Ok(if ty.bits() == 64 { val(ty, format!("(i64.const {})", x as u64 as i64)) } else { val(ty, format!("(i32.const {})", x as u32 as i32)) })
}
impl Compiler {
    pub fn compile(source: &str) -> R<Vec<u8>> {
        let items = Parser::new(source)?.program()?;
        let mut c = Compiler {
            funs: HashMap::new(), classes: HashMap::new(), enums: HashMap::new(), aliases: HashMap::new(), globals: HashMap::new(), constants: HashMap::new(), layouts: HashMap::new(), known: HashMap::new(),
            jobs: VecDeque::new(), imports: vec![], out: String::new(), uses_heap: false,
        };
        let mut names = HashSet::new();
        let mut exports: Vec<String> = vec![];
        for i in &items {
            let n: Vec<&str> = match i {
                Item::Fun(f) => vec![&f.name],
                Item::Class(k) => vec![&k.name],
                Item::Enum(n, _) | Item::Alias(n, _) => vec![n],
                Item::Var(v, _) => v.iter().map(|v| v.name.as_str()).collect(),
                Item::Stmt(_) => vec![],
            };
            for n in n {
                if !names.insert(n.to_string()) { return Err(format!("Duplicate identifier '{n}'")); }
            }
            match i {
                Item::Fun(f) => {
                    c.funs.insert(f.name.clone(), f.clone());
                    if f.exported && f.generics.is_empty() { exports.push(f.name.clone()); }
                }
                Item::Class(k) => { c.classes.insert(k.name.clone(), k.clone()); }
                Item::Alias(n, t) => { c.aliases.insert(n.clone(), t.clone()); }
                Item::Enum(n, v) => {
                    let mut m = HashMap::new();
                    let mut next = 0;
                    for (k, e) in v {
                        if let Some(e) = e { next = c.constant(e, &Env::new()).ok_or("enum value is not constant")? as i32; }
                        if m.insert(k.clone(), next).is_some() { return Err(format!("Duplicate identifier '{k}'")); }
                        next += 1;
                    }
                    c.enums.insert(n.clone(), m);
                }
                _ => {}
            }
        }
        // Globals and what runs at the start.
        let mut globals = String::new();
        let mut start = c.body(Env::new(), None, Void);
        let mut starting = String::new();
        for i in items {
            match i {
                Item::Var(vs, exported) => {
                    if exported { return Err("exported globals are not supported".into()); }
                    for v in vs {
                        let want = match &v.ty { Some(t) => Some(c.ty(t, &Env::new())?), None => None };
                        let e = match &v.init {
                            Some(e) => {
                                let x = c.expr(e, want.as_ref(), &mut start)?;
                                match &want { Some(w) => c.convert(x, w, false)?, None => x }
                            }
                            None => {
                                let w = want.clone().ok_or("a type is expected")?;
                                val(w.clone(), format!("({}.const 0)", w.wat()))
                            }
                        };
                        if e.ty == Void { return Err(format!("global {} of type void", v.name)); }
                        write!(globals, "(global ${} (mut {}) ({}.const 0))\n", v.name, e.ty.wat(), e.ty.wat()).unwrap();
                        write!(starting, "(global.set ${} {})\n", v.name, e.code).unwrap();
                        if v.constant && e.ty.int() {
                            if let Some(x) = v.init.as_ref().and_then(|i| c.constant(i, &Env::new())) { c.constants.insert(v.name.clone(), x); }
                        }
                        c.globals.insert(v.name, (e.ty, v.constant));
                    }
                }
                Item::Stmt(s) => { c.stmt(&s, &mut start, &mut starting)?; }
                _ => {}
            }
        }
        for n in &exports {
            let f = c.funs[n].clone();
            let s = c.function(&f, None, Env::new())?;
            writeln!(c.out, "(export \"{n}\" (func {}))", s.id).unwrap();
        }
        while let Some((id, j)) = c.jobs.pop_front() {
            match j {
                Job::Fun(f, this, env) => c.emit(&id, &f, this, env).map_err(|e| format!("{e} (in {})", f.name))?,
                Job::Constructor(k) => c.emit_constructor(&id, &k).map_err(|e| format!("{e} (in the constructor of {k})"))?,
            }
        }
        let mut m = String::from("(module\n");
        for i in &c.imports {
            write!(m, "(import {:?} {:?} (func {}", i.module, i.name, i.id).unwrap();
            for p in &i.params { write!(m, " (param {})", p.wat()).unwrap(); }
            if i.ret != Void { write!(m, " (result {})", i.ret.wat()).unwrap(); }
            m.push_str("))\n");
        }
        writeln!(m, "(memory {})\n(export \"memory\" (memory 0))", u8::from(c.uses_heap)).unwrap();
        m.push_str(&globals);
        if c.uses_heap {
            m.push_str("(global $~heap (mut i32) (i32.const 1036))
(func $~new (param $n i32) (result i32) (local $p i32) (local $pages i32)
  (local.set $p (global.get $~heap))
  (global.set $~heap (i32.add (local.get $p) (i32.and (i32.add (local.get $n) (i32.const 15)) (i32.const -8))))
  (local.set $pages (i32.sub (i32.add (i32.shr_u (global.get $~heap) (i32.const 16)) (i32.const 1)) (memory.size)))
  (if (i32.gt_s (local.get $pages) (i32.const 0)) (then (if (i32.eq (memory.grow (local.get $pages)) (i32.const -1)) (then (unreachable)))))
  (memory.fill (local.get $p) (i32.const 0) (local.get $n))
  (local.get $p))\n");
        }
        if !starting.is_empty() {
            writeln!(m, "(func $~start {}\n{starting})\n(start $~start)", start.locals).unwrap();
        }
        m.push_str(&c.out);
        m.push(')');
        wat::parse_str(&m).map_err(|e| format!("internal: {e}\n{m}"))
    }
    fn body(&self, env: Env, this: Option<String>, ret: Ty) -> Body {
        Body { env, this, ret, scopes: vec![HashMap::new()], locals: String::new(), count: 0, loops: vec![], after_super: String::new(), in_constructor: false }
    }
    fn ty(&self, t: &TypeName, env: &Env) -> R<Ty> {
        if let Some(x) = env.get(&t.name) { return Ok(x.clone()); }
        if let Some((_, x)) = BUILTIN_TYPES.iter().find(|b| b.0 == t.name) { return Ok(x.clone()); }
        if let Some(a) = self.aliases.get(&t.name) { return self.ty(a, env); }
        if self.enums.contains_key(&t.name) { return Ok(I32); }
        if let Some(c) = self.classes.get(&t.name) {
            if !c.generics.is_empty() { return Err(format!("generic class {} is not supported", t.name)); }
            return Ok(Obj(t.name.clone()));
        }
        Err(format!("Cannot find name '{}'", t.name))
    }
    /// The value of an expression that is known while compiling.
    fn constant(&self, e: &Expr, env: &Env) -> Option<i64> {
        Some(match e {
            Expr::True => 1,
            Expr::False => 0,
            Expr::Num(n) => match n.strip_prefix("0x") { Some(h) => i64::from_str_radix(h, 16).ok()?, None => n.parse().ok()? },
            Expr::Name(n) => *self.constants.get(n)?,
            Expr::Dot(a, k) => match &**a { Expr::Name(n) => *self.enums.get(n)?.get(k)? as i64, _ => return None },
            Expr::Un("!", a) => i64::from(self.constant(a, env)? == 0),
            Expr::Un("-", a) => self.constant(a, env)?.checked_neg()?,
            Expr::As(a, t) => {
                let t = self.ty(t, env).ok()?;
                let x = self.constant(a, env)?;
                match t { I32 => x as i32 as i64, U32 => x as u32 as i64, I64 | U64 => x, _ => return None }
            }
            Expr::Bin("&&", a, b) => if self.constant(a, env)? == 0 { 0 } else { self.constant(b, env)? },
            Expr::Bin("||", a, b) => match self.constant(a, env)? { 0 => self.constant(b, env)?, x => x },
            Expr::Bin(o, a, b) => {
                let (a, b) = (self.constant(a, env)?, self.constant(b, env)?);
                match *o {
                    "==" => i64::from(a == b), "!=" => i64::from(a != b), "<" => i64::from(a < b), ">" => i64::from(a > b), "<=" => i64::from(a <= b), ">=" => i64::from(a >= b),
                    "+" => a.checked_add(b)?, "-" => a.checked_sub(b)?, "*" => a.checked_mul(b)?,
                    _ => return None,
                }
            }
            Expr::Call(f, t, a) => {
                let Expr::Name(n) = &**f else { return None };
                let [t] = &t[..] else { return None };
                if !a.is_empty() { return None; }
                let t = self.ty(t, env).ok()?;
                match n.as_str() {
                    "sizeof" => t.bytes() as i64,
                    "isInteger" => i64::from(t.int()),
                    "isFloat" => i64::from(t.float()),
                    "isSigned" => i64::from(t.int() && t.signed()),
                    "isReference" => i64::from(matches!(t, Obj(_))),
                    "isVoid" => i64::from(t == Void),
                    _ => return None,
                }
            }
            _ => return None,
        })
    }
    fn derives(&self, c: &str, from: &str) -> bool {
        let mut at = Some(c.to_string());
        while let Some(k) = at {
            if k == from { return true; }
            at = self.classes.get(&k).and_then(|k| k.base.as_ref().map(|b| b.name.clone()));
        }
        false
    }
    fn assignable(&self, from: &Ty, to: &Ty) -> bool {
        match (from, to) {
            (a, b) if a == b => true,
            (Obj(a), Obj(b)) => self.derives(a, b),
            (Obj(_) | Void, _) | (_, Obj(_) | Void) => false,
            (a, b) if a.int() && b.int() => a.bits() <= b.bits(),
            (a, F32) if a.int() => a.bits() <= 23,
            (a, F64) if a.int() => a.bits() <= 52,
            (F32, F64) => true,
            _ => false,
        }
    }
    fn convert(&self, v: Val, to: &Ty, explicit: bool) -> R<Val> {
        if v.ty == *to { return Ok(v); }
        if *to == Void && explicit { return Ok(val(Void, format!("(drop {})", v.code))); }
        if !(self.assignable(&v.ty, to) || explicit && !matches!((&v.ty, to), (Obj(_) | Void, _) | (_, Obj(_) | Void))) {
            return Err(format!("Type '{:?}' is not assignable to type '{to:?}'", v.ty));
        }
        let c = v.code;
        let s = if v.ty.signed() { "s" } else { "u" };
        let ts = if to.signed() { "s" } else { "u" };
        let code = match (v.ty.wat(), to.wat()) {
            _ if *to == Bool => self.truth(val(v.ty, c)),
            (a, b) if a == b => c,
            ("i32", "i64") => format!("(i64.extend_i32_{s} {c})"),
            ("i64", "i32") => format!("(i32.wrap_i64 {c})"),
            ("f32", "f64") => format!("(f64.promote_f32 {c})"),
            ("f64", "f32") => format!("(f32.demote_f64 {c})"),
            (a @ ("i32" | "i64"), b @ ("f32" | "f64")) => format!("({b}.convert_{a}_{s} {c})"),
            (a, b) => format!("({b}.trunc_sat_{a}_{ts} {c})"),
        };
        Ok(self.wrap(val(to.clone(), code)))
    }
    fn wrap(&self, v: Val) -> Val {
        let c = v.code;
        let code = match v.ty {
            I8 => format!("(i32.extend8_s {c})"), I16 => format!("(i32.extend16_s {c})"),
            U8 => format!("(i32.and {c} (i32.const 255))"), U16 => format!("(i32.and {c} (i32.const 65535))"),
            _ => c,
        };
        val(v.ty, code)
    }
    fn truth(&self, v: Val) -> String {
        match v.ty.wat() { "i32" => format!("(i32.ne {} (i32.const 0))", v.code), t => format!("({t}.ne {} ({t}.const 0))", v.code) }
    }
    fn layout(&mut self, k: &str) -> R<()> {
        if self.layouts.contains_key(k) { return Ok(()); }
        let c = self.classes.get(k).ok_or(format!("Cannot find name '{k}'"))?.clone();
        let (mut fields, mut size, base) = match &c.base {
            Some(b) => {
                let Obj(b) = self.ty(b, &Env::new())? else { return Err("a class can only extend a class".into()) };
                if self.derives(&b, k) { return Err(format!("'{k}' extends itself")); }
                self.layout(&b)?;
                (self.layouts[&b].fields.clone(), self.layouts[&b].size, Some(b))
            }
            None => (vec![], 0, None),
        };
        let mut own = HashSet::new();
        for f in &c.fields {
            if f.is_static { return Err("static fields are not supported".into()); }
            if !own.insert(&f.name) { return Err(format!("Duplicate identifier '{}'", f.name)); }
            let t = self.ty(&f.ty, &Env::new())?;
            if let Some(old) = fields.iter().find(|x| x.0 == f.name) {
                if old.1 != t { return Err(format!("field {} of {k} changes its type", f.name)); }
                continue;
            }
            let n = t.bytes().max(1);
            size = size.div_ceil(n) * n;
            fields.push((f.name.clone(), t, size));
            size += n;
        }
        self.layouts.insert(k.into(), ClassInfo { base, fields, size });
        Ok(())
    }
    fn field(&mut self, k: &str, n: &str) -> R<(Ty, u32)> {
        self.layout(k)?;
        self.layouts[k].fields.iter().find(|f| f.0 == n).map(|f| (f.1.clone(), f.2)).ok_or(format!("Property '{n}' does not exist on type '{k}'"))
    }
    fn method(&self, k: &str, n: &str) -> Option<(String, Fun)> {
        let mut at = Some(k.to_string());
        while let Some(k) = at {
            let c = self.classes.get(&k)?;
            if let Some(f) = c.methods.iter().find(|f| f.name == n) { return Some((k, f.clone())); }
            at = c.base.as_ref().map(|b| b.name.clone());
        }
        None
    }
    /// The function, for these types in place of its generics.
    fn function(&mut self, f: &Fun, this: Option<&str>, env: Env) -> R<Sig> {
        let mut key = format!("{}#{}", this.unwrap_or(""), f.name);
        for g in &f.generics { write!(key, ",{:?}", env[g]).unwrap(); }
        if let Some(s) = self.known.get(&key) { return Ok(s.clone()); }
        let id = format!("$f{}", self.known.len());
        let params = f.params.iter().map(|p| self.ty(&p.1, &env)).collect::<R<Vec<_>>>()?;
        let ret = self.ty(&f.ret, &env)?;
        let s = Sig { id: id.clone(), params: params.clone(), defaults: f.params.iter().map(|p| p.2.clone()).collect(), ret: ret.clone() };
        self.known.insert(key, s.clone());
        match &f.external {
            Some((module, name)) => self.imports.push(Imported { id, module: module.clone(), name: name.clone(), params, ret }),
            None if f.body.is_none() => return Err(format!("{} is abstract: calls that need dispatch are not supported", f.name)),
            None => self.jobs.push_back((id, Job::Fun(f.clone(), this.map(String::from), env))),
        }
        Ok(s)
    }
    fn constructor(&mut self, k: &str) -> R<Sig> {
        let key = format!("{k}#~constructor");
        if let Some(s) = self.known.get(&key) { return Ok(s.clone()); }
        self.layout(k)?;
        let own = self.classes[k].methods.iter().find(|m| m.name == "constructor").cloned();
        let base = self.layouts[k].base.clone();
        let (params, defaults) = match (own, base) {
            (Some(f), _) => (f.params.iter().map(|p| self.ty(&p.1, &Env::new())).collect::<R<Vec<_>>>()?, f.params.iter().map(|p| p.2.clone()).collect()),
            (None, Some(b)) => { let s = self.constructor(&b)?; (s.params, s.defaults) }
            (None, None) => (vec![], vec![]),
        };
        let s = Sig { id: format!("$f{}", self.known.len()), params, defaults, ret: Obj(k.into()) };
        self.known.insert(key, s.clone());
        self.jobs.push_back((s.id.clone(), Job::Constructor(k.into())));
        Ok(s)
    }
    fn store(&self, ty: &Ty, offset: u32, p: &str, v: &str) -> String {
        let o = match ty { Bool | I8 | U8 => "i32.store8", I16 | U16 => "i32.store16", t => &format!("{}.store", t.wat()) };
        format!("({o} offset={offset} {p} {v})")
    }
    fn load(&self, ty: &Ty, offset: u32, p: &str) -> String {
        let o = match ty { Bool | U8 => "i32.load8_u", I8 => "i32.load8_s", I16 => "i32.load16_s", U16 => "i32.load16_u", t => &format!("{}.load", t.wat()) };
        format!("({o} offset={offset} {p})")
    }
    /// What sets the fields that come with a value.
    fn initial_fields(&mut self, k: &str, b: &mut Body) -> R<String> {
        let mut s = String::new();
        for f in self.classes[k].fields.clone() {
            if let Some(e) = &f.init {
                let (t, o) = self.field(k, &f.name)?;
                let v = self.expr(e, Some(&t), b)?;
                let v = self.convert(v, &t, false)?;
                writeln!(s, "{}", self.store(&t, o, "(local.get $this)", &v.code)).unwrap();
            }
        }
        Ok(s)
    }
    fn emit_constructor(&mut self, id: &str, k: &str) -> R<()> {
        let own = self.classes[k].methods.iter().find(|m| m.name == "constructor").cloned();
        let base = self.layouts[k].base.clone();
        let sig = self.constructor(k)?;
        let mut b = self.body(Env::new(), Some(k.into()), Void);
        b.in_constructor = true;
        let mut head = String::from("(param $this i32)");
        for (i, p) in sig.params.iter().enumerate() {
            write!(head, " (param $p{i} {})", p.wat()).unwrap();
            if let Some(f) = &own { b.declare(&f.params[i].0, format!("$p{i}"), p.clone(), false)?; }
        }
        let fields = self.initial_fields(k, &mut b)?;
        let mut code = String::new();
        match (own, base) {
            (Some(f), base) => {
                let has_base = base.is_some();
                if has_base { b.after_super = fields } else { code.push_str(&fields) }
                b.scopes.push(HashMap::new());
                for s in f.body.as_ref().unwrap() { self.stmt(s, &mut b, &mut code)?; }
                if has_base && b.after_super != "done" { return Err("Constructors for derived classes must contain a 'super' call".into()); }
            }
            (None, Some(base)) => {
                let s = self.constructor(&base)?;
                let a: String = (0..s.params.len()).map(|i| format!(" (local.get $p{i})")).collect();
                writeln!(code, "(drop (call {} (local.get $this){a}))\n{fields}", s.id).unwrap();
            }
            (None, None) => code.push_str(&fields),
        }
        // Leaving early leaves the block: the object is the result all the same.
        writeln!(self.out, "(func {id} {head} (result i32) {}\n(block $~out\n{code})\n(local.get $this))", b.locals).unwrap();
        Ok(())
    }
    fn emit(&mut self, id: &str, f: &Fun, this: Option<String>, env: Env) -> R<()> {
        let ret = self.ty(&f.ret, &env)?;
        let mut b = self.body(env.clone(), if f.is_static { None } else { this.clone() }, ret.clone());
        let mut head = String::new();
        if b.this.is_some() { head.push_str("(param $this i32)"); }
        for (i, p) in f.params.iter().enumerate() {
            let t = self.ty(&p.1, &env)?;
            if t == Void { return Err("a parameter of type void".into()); }
            write!(head, " (param $p{i} {})", t.wat()).unwrap();
            b.declare(&p.0, format!("$p{i}"), t, false)?;
        }
        let mut code = String::new();
        let mut ends = false;
        for s in f.body.as_ref().unwrap() { ends |= self.stmt(s, &mut b, &mut code)?; }
        if ret != Void {
            if !ends { return Err("A function whose declared type is not 'void' must return a value".into()); }
            code.push_str("(unreachable)");
            write!(head, " (result {})", ret.wat()).unwrap();
        }
        writeln!(self.out, "(func {id} {head} {}\n{code})", b.locals).unwrap();
        Ok(())
    }
    fn scope(&mut self, v: &[Stmt], b: &mut Body, out: &mut String) -> R<bool> {
        b.scopes.push(HashMap::new());
        let mut ends = false;
        for s in v { ends |= self.stmt(s, b, out)?; }
        b.scopes.pop();
        Ok(ends)
    }
    /// Whether control never goes past the statement.
    fn stmt(&mut self, s: &Stmt, b: &mut Body, out: &mut String) -> R<bool> {
        match s {
            Stmt::Empty => Ok(false),
            Stmt::Block(v) => self.scope(v, b, out),
            Stmt::Expr(e) => {
                let v = self.expr(e, None, b)?;
                if v.ty == Void { writeln!(out, "{}", v.code) } else { writeln!(out, "(drop {})", v.code) }.unwrap();
                Ok(matches!(e, Expr::Call(f, _, _) if matches!(&**f, Expr::Name(n) if n == "unreachable" || n == "abort")))
            }
            Stmt::Var(vs) => {
                for v in vs {
                    let want = match &v.ty { Some(t) => Some(self.ty(t, &b.env)?), None => None };
                    let x = match &v.init {
                        Some(e) => {
                            let x = self.expr(e, want.as_ref(), b)?;
                            match &want { Some(w) => self.convert(x, w, false)?, None => x }
                        }
                        None => {
                            let w = want.clone().ok_or(format!("the type of {} is unknown", v.name))?;
                            val(w.clone(), format!("({}.const 0)", w.wat()))
                        }
                    };
                    if x.ty == Void { return Err(format!("variable {} of type void", v.name)); }
                    let l = b.fresh(&x.ty);
                    writeln!(out, "(local.set {l} {})", x.code).unwrap();
                    b.declare(&v.name, l, x.ty, v.constant)?;
                }
                Ok(false)
            }
            Stmt::If(c, t, e) => {
                if let Some(x) = self.constant(c, &b.env) {
                    return match (x != 0, e) {
                        (true, _) => self.scope(std::slice::from_ref(t), b, out),
                        (false, Some(e)) => self.scope(std::slice::from_ref(e), b, out),
                        (false, None) => Ok(false),
                    };
                }
                let v = self.expr(c, None, b)?;
                if v.ty == Void { return Err("a condition of type void".into()); }
                let (mut x, mut y) = (String::new(), String::new());
                let i = self.scope(std::slice::from_ref(t), b, &mut x)?;
                let j = match e { Some(e) => self.scope(std::slice::from_ref(e), b, &mut y)?, None => false };
                writeln!(out, "(if {} (then\n{x}) (else\n{y}))", self.truth(v)).unwrap();
                Ok(i && j)
            }
            Stmt::While(c, s) => self.looped(None, Some(c), None, s, false, b, out),
            Stmt::DoWhile(s, c) => self.looped(None, Some(c), None, s, true, b, out),
            Stmt::For(i, c, n, s) => {
                b.scopes.push(HashMap::new());
                let r = self.looped(i.as_deref(), c.as_ref(), n.as_ref(), s, false, b, out);
                b.scopes.pop();
                r
            }
            Stmt::Return(None) => {
                if b.ret != Void { return Err("a value is to be returned".into()); }
                out.push_str(if b.in_constructor { "(br $~out)\n" } else { "(return)\n" });
                Ok(true)
            }
            Stmt::Return(Some(e)) => {
                if b.in_constructor { return Err("a constructor returns no value".into()); }
                let r = b.ret.clone();
                let v = self.expr(e, if r == Void { None } else { Some(&r) }, b)?;
                let v = self.convert(v, &r, false)?;
                if r == Void { writeln!(out, "{}\n(return)", v.code) } else { writeln!(out, "(return {})", v.code) }.unwrap();
                Ok(true)
            }
            Stmt::Break => {
                let l = b.loops.iter().rev().find_map(|l| l.0.clone()).ok_or("break outside of a loop")?;
                writeln!(out, "(br {l})").unwrap();
                Ok(true)
            }
            Stmt::Continue => {
                let l = b.loops.iter().rev().find_map(|l| l.1.clone()).ok_or("continue outside of a loop")?;
                writeln!(out, "(br {l})").unwrap();
                Ok(true)
            }
            Stmt::Switch(e, cases) => {
                let v = self.expr(e, None, b)?;
                let l = b.fresh(&v.ty);
                let end = b.label();
                let labels: Vec<String> = cases.iter().map(|_| b.label()).collect();
                let mut pick = format!("(local.set {l} {})\n", v.code);
                let mut other = end.clone();
                for ((c, _), to) in cases.iter().zip(&labels) {
                    match c {
                        Some(c) => {
                            let x = self.expr(c, Some(&v.ty), b)?;
                            let x = self.convert(x, &v.ty, false)?;
                            let t = v.ty.wat();
                            writeln!(pick, "(br_if {to} ({t}.eq (local.get {l}) {}))", x.code).unwrap();
                        }
                        None => other = to.clone(),
                    }
                }
                writeln!(pick, "(br {other})").unwrap();
                b.loops.push((Some(end.clone()), None));
                let mut code = pick;
                let mut last = false;
                for ((_, s), to) in cases.iter().zip(&labels) {
                    code = format!("(block {to}\n{code})\n");
                    last = self.scope(s, b, &mut code)?;
                }
                b.loops.pop();
                writeln!(out, "(block {end}\n{code})").unwrap();
                let all = cases.iter().any(|c| c.0.is_none()) && last && !format!("{cases:?}").contains("Break");
                Ok(all && cases.iter().all(|(_, s)| s.is_empty() || matches!(s.last(), Some(Stmt::Return(_)))))
            }
        }
    }
    fn looped(&mut self, init: Option<&Stmt>, cond: Option<&Expr>, next: Option<&Expr>, s: &Stmt, after: bool, b: &mut Body, out: &mut String) -> R<bool> {
        if let Some(i) = init { self.stmt(i, b, out)?; }
        let (end, top, go) = (b.label(), b.label(), b.label());
        let c = match cond {
            Some(c) => { let v = self.expr(c, None, b)?; Some(self.truth(v)) }
            None => None,
        };
        b.loops.push((Some(end.clone()), Some(go.clone())));
        let mut body = String::new();
        self.scope(std::slice::from_ref(s), b, &mut body)?;
        b.loops.pop();
        let n = match next {
            Some(e) => { let v = self.expr(e, None, b)?; if v.ty == Void { v.code } else { format!("(drop {})", v.code) } }
            None => String::new(),
        };
        let forever = c.is_none() || cond.is_some_and(|c| self.constant(c, &b.env).is_some_and(|x| x != 0));
        let test = c.map_or(String::new(), |c| format!("(br_if {end} (i32.eqz {c}))"));
        let (before, after) = if after { (String::new(), test) } else { (test, String::new()) };
        writeln!(out, "(block {end} (loop {top}\n{before}\n(block {go}\n{body})\n{n}\n{after}\n(br {top})))").unwrap();
        Ok(forever && !body.contains(&format!("(br {end})")))
    }
    fn args(&mut self, s: &Sig, a: &[Expr], b: &mut Body) -> R<String> {
        if a.len() > s.params.len() { return Err(format!("Expected {} arguments, but got {}", s.params.len(), a.len())); }
        let mut code = String::new();
        for (i, p) in s.params.iter().enumerate() {
            let e = a.get(i).cloned().or(s.defaults[i].clone()).ok_or(format!("Expected {} arguments, but got {}", s.params.len(), a.len()))?;
            let v = self.expr(&e, Some(p), b)?;
            code.push(' ');
            code.push_str(&self.convert(v, p, false)?.code);
        }
        Ok(code)
    }
    /// The class of the object and the code that yields it.
    fn object(&mut self, e: &Expr, b: &mut Body) -> R<(String, String)> {
        let v = self.expr(e, None, b)?;
        match v.ty { Obj(k) => Ok((k, v.code)), t => Err(format!("a value of type {t:?} has no members")) }
    }
    fn bind(&mut self, f: &Fun, types: &[TypeName], a: &[Expr], b: &mut Body) -> R<Env> {
        let mut env = Env::new();
        if types.is_empty() {
            for g in &f.generics {
                let i = f.params.iter().position(|p| p.1.name == *g).ok_or(format!("Type argument expected for {}", f.name))?;
                let e = a.get(i).ok_or("too few arguments")?;
                let t = self.expr(e, None, b)?.ty;
                env.insert(g.clone(), t);
            }
        } else {
            if types.len() != f.generics.len() { return Err(format!("Expected {} type arguments, but got {}", f.generics.len(), types.len())); }
            for (g, t) in f.generics.iter().zip(types) { env.insert(g.clone(), self.ty(t, &b.env)?); }
        }
        Ok(env)
    }
    fn call(&mut self, s: &Sig, this: Option<String>, a: &[Expr], b: &mut Body) -> R<Val> {
        let args = self.args(s, a, b)?;
        Ok(val(s.ret.clone(), format!("(call {} {}{args})", s.id, this.unwrap_or_default())))
    }
    fn builtin(&mut self, n: &str, t: &[TypeName], a: &[Expr], want: Option<&Ty>, b: &mut Body) -> R<Option<Val>> {
        if let Some(x) = self.constant(&Expr::Call(Box::new(Expr::Name(n.into())), t.to_vec(), a.to_vec()), &b.env) {
            return Ok(Some(match n { "sizeof" => val(U32, format!("(i32.const {x})")), _ => val(Bool, format!("(i32.const {x})")) }));
        }
        let t1 = match t { [t] => Some(self.ty(t, &b.env)?), _ => None };
        let offset = |c: &Compiler, e: Option<&Expr>, b: &Body| match e { None => Ok(0), Some(e) => c.constant(e, &b.env).ok_or("the offset is to be a constant".to_string()) };
        Ok(Some(match (n, t1, a.len()) {
            ("unreachable", None, 0) => val(Void, "(unreachable)"),
            ("load", Some(t), 1 | 2) => {
                let p = self.expr(&a[0], Some(&U32), b)?;
                let p = self.convert(p, &U32, false)?;
                let o = offset(self, a.get(1), b)? as u32;
                val(t.clone(), self.load(&t, o, &p.code))
            }
            ("store", Some(t), 2 | 3) => {
                let p = self.expr(&a[0], Some(&U32), b)?;
                let p = self.convert(p, &U32, false)?;
                let v = self.expr(&a[1], Some(&t), b)?;
                let v = self.convert(v, &t, false)?;
                let o = offset(self, a.get(2), b)? as u32;
                val(Void, self.store(&t, o, &p.code, &v.code))
            }
            ("changetype", Some(t), 1) => {
                let v = self.expr(&a[0], Some(&t), b)?;
                if v.ty.wat() != t.wat() { return Err("changetype between types of different sizes".into()); }
                val(t, v.code)
            }
            ("reinterpret", Some(t), 1) => {
                let v = self.expr(&a[0], None, b)?;
                if v.ty.bits() != t.bits() || v.ty.float() == t.float() { return Err("reinterpret between types of different sizes".into()); }
                val(t.clone(), format!("({}.reinterpret_{} {})", t.wat(), v.ty.wat(), v.code))
            }
            ("assert", _, 1 | 2) => {
                let v = self.expr(&a[0], None, b)?;
                val(Void, format!("(if (i32.eqz {}) (then (unreachable)))", self.truth(v)))
            }
            (n, None, 1) if BUILTIN_TYPES.iter().any(|x| x.0 == n && x.1 != Void) => {
                let t = self.ty(&TypeName { name: n.into(), args: vec![] }, &b.env)?;
                let v = self.expr(&a[0], want, b)?;
                self.convert(v, &t, true)?
            }
            _ => return Ok(None),
        }))
    }
    fn expr(&mut self, e: &Expr, want: Option<&Ty>, b: &mut Body) -> R<Val> {
        Ok(match e {
            Expr::Num(n) => number(n, want, false)?,
            Expr::True => val(Bool, "(i32.const 1)"),
            Expr::False => val(Bool, "(i32.const 0)"),
            Expr::Null => match want { Some(t @ Obj(_)) => val(t.clone(), "(i32.const 0)"), _ => val(U32, "(i32.const 0)") },
            Expr::Str => return Err("strings are not supported".into()),
            Expr::This => match &b.this { Some(k) => val(Obj(k.clone()), "(local.get $this)"), None => return Err("'this' outside of a class".into()) },
            Expr::Super => return Err("'super' is to be called".into()),
            Expr::Name(n) => {
                if let Some((l, t, _)) = b.find(n) { val(t, format!("(local.get {l})")) }
                else if let Some((t, _)) = self.globals.get(n) { val(t.clone(), format!("(global.get ${n})")) }
                else { return Err(format!("Cannot find name '{n}'")) }
            }
            Expr::Dot(a, n) => {
                if let Expr::Name(k) = &**a {
                    if b.find(k).is_none() {
                        if let Some(x) = self.enums.get(k) {
                            return Ok(val(I32, format!("(i32.const {})", x.get(n).ok_or(format!("Property '{n}' does not exist on '{k}'"))?)));
                        }
                        let limit = match (k.as_str(), n.as_str()) { ("i32", "MAX_VALUE") => Some(i32::MAX), ("i32", "MIN_VALUE") => Some(i32::MIN), _ => None };
                        if let Some(x) = limit { return Ok(val(I32, format!("(i32.const {x})"))); }
                    }
                }
                let (k, code) = self.object(a, b)?;
                if let Some((owner, f)) = self.method(&k, n) {
                    if !f.getter { return Err(format!("method {n} is not called")); }
                    let s = self.function(&f, Some(&owner), Env::new())?;
                    return self.call(&s, Some(code), &[], b);
                }
                let (t, o) = self.field(&k, n)?;
                val(t.clone(), self.load(&t, o, &code))
            }
            Expr::As(a, t) => {
                let t = self.ty(t, &b.env)?;
                let v = self.expr(a, Some(&t), b)?;
                self.convert(v, &t, true)?
            }
            Expr::Un("-", a) => {
                if let Expr::Num(n) = &**a { return number(n, want, true); }
                let v = self.expr(a, want, b)?;
                let t = v.ty.wat();
                if v.ty.float() { val(v.ty.clone(), format!("({t}.neg {})", v.code)) } else { self.wrap(val(v.ty.clone(), format!("({t}.sub ({t}.const 0) {})", v.code))) }
            }
            Expr::Un("+", a) => self.expr(a, want, b)?,
            Expr::Un("~", a) => {
                let v = self.expr(a, want, b)?;
                if !v.ty.int() { return Err("~ of something that is no integer".into()); }
                let t = v.ty.wat();
                self.wrap(val(v.ty.clone(), format!("({t}.xor {} ({t}.const -1))", v.code)))
            }
            Expr::Un(_, a) => {
                let v = self.expr(a, None, b)?;
                if v.ty == Void { return Err("! of void".into()); }
                val(Bool, format!("(i32.eqz {})", self.truth(v)))
            }
            Expr::Step(o, prefix, a) => {
                let op = if *o == "++" { "+" } else { "-" };
                let v = self.expr(a, None, b)?;
                let (old, t) = (b.fresh(&v.ty), v.ty.clone());
                let hold = format!("(local.set {old} {})\n", v.code);
                let one = number("1", Some(&t), false)?;
                let new = self.arithmetic(op, val(t.clone(), format!("(local.get {old})")), one)?;
                let l = b.fresh(&t);
                let set = self.assign(a, val(t.clone(), format!("(local.get {l})")), b)?;
                val(t.clone(), format!("(block (result {})\n{hold}(local.set {l} {})\n{set}\n(local.get {}))", t.wat(), new.code, if *prefix { &l } else { &old }))
            }
            Expr::Assign(o, a, e) => {
                let target = self.place(a, b)?;
                let v = if o.is_empty() { self.expr(e, Some(&target), b)? } else { self.expr(&Expr::Bin(o, a.clone(), e.clone()), Some(&target), b)? };
                let v = self.convert(v, &target, false)?;
                let l = b.fresh(&target);
                let set = self.assign(a, val(target.clone(), format!("(local.get {l})")), b)?;
                val(target.clone(), format!("(block (result {})\n(local.set {l} {})\n{set}\n(local.get {l}))", target.wat(), v.code))
            }
            Expr::Cond(c, x, y) => {
                if let Some(k) = self.constant(c, &b.env) { return self.expr(if k != 0 { x } else { y }, want, b); }
                let c = self.expr(c, None, b)?;
                let x = self.expr(x, want, b)?;
                let y = self.expr(y, want.or(Some(&x.ty)), b)?;
                let t = if self.assignable(&y.ty, &x.ty) { x.ty.clone() } else { y.ty.clone() };
                let (x, y) = (self.convert(x, &t, false)?, self.convert(y, &t, false)?);
                let r = if t == Void { String::new() } else { format!("(result {})", t.wat()) };
                val(t, format!("(if {r} {} (then {}) (else {}))", self.truth(c), x.code, y.code))
            }
            Expr::Bin(o @ ("&&" | "||"), x, y) => {
                if let Some(k) = self.constant(x, &b.env) {
                    if (k == 0) == (*o == "&&") { return self.expr(x, want, b); }
                    return self.expr(y, want, b);
                }
                let x = self.expr(x, want, b)?;
                let y = self.expr(y, Some(&x.ty), b)?;
                let y = self.convert(y, &x.ty, false)?;
                let l = b.fresh(&x.ty);
                let test = self.truth(val(x.ty.clone(), format!("(local.tee {l} {})", x.code)));
                let (i, j) = if *o == "&&" { (y.code, format!("(local.get {l})")) } else { (format!("(local.get {l})"), y.code) };
                val(x.ty.clone(), format!("(if (result {}) {test} (then {i}) (else {j}))", x.ty.wat()))
            }
            Expr::Bin(o @ ("==" | "!=" | "<" | ">" | "<=" | ">="), x, y) => {
                let x = self.expr(x, None, b)?;
                let y = self.expr(y, Some(&x.ty), b)?;
                let (x, y) = self.common(x, y)?;
                let t = x.ty.wat();
                let s = if x.ty.float() { "" } else if x.ty.signed() { "_s" } else { "_u" };
                let op = match *o { "==" => "eq".to_string(), "!=" => "ne".into(), "<" => format!("lt{s}"), ">" => format!("gt{s}"), "<=" => format!("le{s}"), _ => format!("ge{s}") };
                val(Bool, format!("({t}.{op} {} {})", x.code, y.code))
            }
            Expr::Bin(o, x, y) => {
                let x = self.expr(x, want, b)?;
                let y = self.expr(y, Some(&x.ty), b)?;
                let (x, y) = self.common(x, y)?;
                self.arithmetic(o, x, y)?
            }
            Expr::New(t, a) => {
                let Obj(k) = self.ty(t, &b.env)? else { return Err(format!("{} is no class", t.name)) };
                if self.classes[&k].is_abstract { return Err(format!("Cannot create an instance of the abstract class '{k}'")); }
                self.uses_heap = true;
                let s = self.constructor(&k)?;
                let size = self.layouts[&k].size;
                self.call(&s, Some(format!("(call $~new (i32.const {size}))")), a, b)?
            }
            Expr::Call(f, t, a) => match &**f {
                Expr::Super => {
                    let k = b.this.clone().ok_or("'super' outside of a class")?;
                    if !b.in_constructor { return Err("'super' outside of a constructor".into()); }
                    let base = self.layouts[&k].base.clone().ok_or("'super' in a class that extends nothing")?;
                    let s = self.constructor(&base)?;
                    let v = self.call(&s, Some("(local.get $this)".into()), a, b)?;
                    let rest = std::mem::replace(&mut b.after_super, "done".into());
                    val(Void, format!("(drop {})\n{rest}", v.code))
                }
                Expr::Name(n) => {
                    if b.find(n).is_some() { return Err(format!("'{n}' is not callable")); }
                    if let Some(f) = self.funs.get(n).cloned() {
                        let env = self.bind(&f, t, a, b)?;
                        let s = self.function(&f, None, env)?;
                        return self.call(&s, None, a, b);
                    }
                    self.builtin(n, t, a, want, b)?.ok_or(format!("Cannot find name '{n}'"))?
                }
                Expr::Dot(o, n) => {
                    if let Expr::Name(k) = &**o {
                        if b.find(k).is_none() && !self.globals.contains_key(k) {
                            match (k.as_str(), n.as_str(), a.len()) {
                                ("memory", "grow", 1) => {
                                    let v = self.expr(&a[0], Some(&I32), b)?;
                                    let v = self.convert(v, &I32, false)?;
                                    return Ok(val(I32, format!("(memory.grow {})", v.code)));
                                }
                                ("memory", "size", 0) => return Ok(val(I32, "(memory.size)")),
                                _ => {}
                            }
                            if let Some((owner, f)) = self.method(k, n).filter(|m| m.1.is_static) {
                                let env = self.bind(&f, t, a, b)?;
                                let s = self.function(&f, Some(&owner), env)?;
                                return self.call(&s, None, a, b);
                            }
                        }
                    }
                    let (k, code) = self.object(o, b)?;
                    let (owner, f) = self.method(&k, n).ok_or(format!("Property '{n}' does not exist on type '{k}'"))?;
                    if self.classes.keys().any(|d| *d != k && self.derives(d, &k) && self.method(d, n).is_some_and(|m| m.0 != owner)) {
                        return Err(format!("{k}.{n} is overridden: calls that need dispatch are not supported"));
                    }
                    let env = self.bind(&f, t, a, b)?;
                    let s = self.function(&f, Some(&owner), env)?;
                    self.call(&s, Some(code), a, b)?
                }
                _ => return Err("calls of function values are not supported".into()),
            },
        })
    }
    fn common(&self, x: Val, y: Val) -> R<(Val, Val)> {
        if self.assignable(&y.ty, &x.ty) { let t = x.ty.clone(); Ok((x, self.convert(y, &t, false)?)) }
        else if self.assignable(&x.ty, &y.ty) { let t = y.ty.clone(); Ok((self.convert(x, &t, false)?, y)) }
        else { Err(format!("Operator cannot be applied to types '{:?}' and '{:?}'", x.ty, y.ty)) }
    }
    fn arithmetic(&self, o: &str, x: Val, y: Val) -> R<Val> {
        let t = x.ty.wat();
        if matches!(x.ty, Obj(_) | Void | Bool) { return Err(format!("arithmetic on {:?}", x.ty)); }
        let (s, int) = (if x.ty.signed() { "s" } else { "u" }, x.ty.int());
        let op = match o {
            "+" => "add".to_string(), "-" => "sub".into(), "*" => "mul".into(),
            "/" if int => format!("div_{s}"), "/" => "div".into(), "%" if int => format!("rem_{s}"),
            "&" if int => "and".into(), "|" if int => "or".into(), "^" if int => "xor".into(), "<<" if int && !x.ty.small() => "shl".into(),
            ">>" if int => format!("shr_{s}"), ">>>" if int && !x.ty.small() => "shr_u".into(),
            _ => return Err(format!("operator {o} on {:?} is not supported", x.ty)),
        };
        Ok(self.wrap(val(x.ty.clone(), format!("({t}.{op} {} {})", x.code, y.code))))
    }
    /// The type of what can be assigned to.
    fn place(&mut self, a: &Expr, b: &mut Body) -> R<Ty> {
        match a {
            Expr::Name(n) => {
                let (t, constant) = match b.find(n) { Some((_, t, k)) => (t, k), None => self.globals.get(n).cloned().ok_or(format!("Cannot find name '{n}'"))? };
                if constant { return Err(format!("Cannot assign to '{n}' because it is a constant")); }
                Ok(t)
            }
            Expr::Dot(o, n) => { let (k, _) = self.object(o, b)?; Ok(self.field(&k, n)?.0) }
            _ => Err("this cannot be assigned to".into()),
        }
    }
    fn assign(&mut self, a: &Expr, v: Val, b: &mut Body) -> R<String> {
        self.place(a, b)?;
        Ok(match a {
            Expr::Name(n) => match b.find(n) { Some((l, _, _)) => format!("(local.set {l} {})", v.code), None => format!("(global.set ${n} {})", v.code) },
            Expr::Dot(o, n) => {
                let (k, code) = self.object(o, b)?;
                let (t, off) = self.field(&k, n)?;
                self.store(&t, off, &code, &v.code)
            }
            _ => unreachable!(),
        })
    }
}
