//! Reference model of the WASP language: a boring recursive-descent recogniser for the
//! documented grammar, plus the static rules, join points and queries it implies.
use std::collections::BTreeSet;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ty {
    I32,
    F32,
    I64,
    F64,
}
pub const TYS: [Ty; 4] = [Ty::I32, Ty::F32, Ty::I64, Ty::F64];
impl Ty {
    pub fn name(self) -> &'static str {
        match self {
            Ty::I32 => "I32",
            Ty::F32 => "F32",
            Ty::I64 => "I64",
            Ty::F64 => "F64",
        }
    }
    pub fn parse(s: &str) -> Option<Ty> {
        TYS.into_iter().find(|t| t.name() == s)
    }
}

/// Shape and meaning of one advice, as the programmer wrote it.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Adv {
    Global(String),
    /// means: 0 high level, 1 dynamic, 2 mutable dynamic
    ApplyGen { means: u8, f: String, a: String, r: String, body: String },
    ApplySpe { marked_mut: bool, f: String, args: Vec<(String, Ty)>, ress: Vec<(String, Ty)>, body: String },
    CallPre(String, String),
    CallPost(String, String),
    BlockPre(String),
    BlockPost(String),
    LoopPre(String),
    LoopPost(String),
    Select(String, String),
    CallIndirectPre { table: String, index: String, body: String },
    CallIndirectPost(String, String),
    IfThen(String, String),
    IfThenElse(String, String),
    BrIf { cond: String, label: String, body: String },
    BrTable { target: String, default: String, body: String },
}

/// Why a grammatical program is nevertheless illegal.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Fault {
    /// formal parameters of one advice are not pairwise distinct; all its formals
    Formals(Vec<String>),
    /// two arguments, or two results, of specialised apply advice share this name
    Within(String),
    /// an argument and a result of specialised apply advice share this name
    Across(String),
    /// generic apply whose argument / result types do not form a legal pair
    GenericTypes(String, String),
    /// specialised apply with an unsupported value type
    ValueType(String),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Verdict {
    Syntax,
    Faults(Vec<Fault>),
    Ok(Vec<Adv>),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
type R<T> = Option<T>;
enum RawAdv {
    Done(Adv),
    Gen { f: String, a: (String, String), r: (String, String), body: String },
    Spe { marked_mut: bool, f: String, args: Vec<(String, String)>, ress: Vec<(String, String)>, body: String },
}
const OPEN: &[u8] = b">>>GUEST>>>";
const CLOSE: &[u8] = b"<<<GUEST<<<";

impl<'a> P<'a> {
    fn at(&self, lit: &[u8]) -> bool {
        self.s[self.i..].starts_with(lit)
    }
    fn skip(&mut self) {
        loop {
            if self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\r' | b'\n' | b'\t') {
                self.i += 1;
                continue;
            }
            if self.at(b"#|") {
                let mut j = self.i + 2;
                while j < self.s.len() && !self.s[j..].starts_with(b"|#") {
                    j += 1;
                }
                if j < self.s.len() {
                    self.i = j + 2;
                    continue;
                }
            }
            return;
        }
    }
    /// literal preceded by layout
    fn lit(&mut self, l: &str) -> R<()> {
        self.skip();
        if self.at(l.as_bytes()) {
            self.i += l.len();
            Some(())
        } else {
            None
        }
    }
    fn peek(&mut self, l: &str) -> bool {
        let save = self.i;
        let r = self.lit(l).is_some();
        self.i = save;
        r
    }
    fn ident(&mut self) -> R<String> {
        self.skip();
        let b = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_alphabetic() {
            self.i += 1;
        }
        (self.i > b).then(|| String::from_utf8(self.s[b..self.i].to_vec()).unwrap())
    }
    fn type_ident(&mut self) -> R<String> {
        self.skip();
        let b = self.i;
        if !(self.i < self.s.len() && self.s[self.i].is_ascii_uppercase()) {
            return None;
        }
        self.i += 1;
        while self.i < self.s.len() && self.s[self.i].is_ascii_alphanumeric() {
            self.i += 1;
        }
        (self.i > b + 1).then(|| String::from_utf8(self.s[b..self.i].to_vec()).unwrap())
    }
    fn formal(&mut self, ty: &str) -> R<String> {
        self.lit("(")?;
        let n = self.ident()?;
        self.lit(ty)?;
        self.lit(")")?;
        Some(n)
    }
    fn typed(&mut self) -> R<(String, String)> {
        self.lit("(")?;
        let n = self.ident()?;
        let t = self.type_ident()?;
        self.lit(")")?;
        Some((n, t))
    }
    fn guest(&mut self) -> R<String> {
        self.skip();
        if !self.at(OPEN) {
            return None;
        }
        let b = self.i + OPEN.len();
        let mut j = b;
        while j < self.s.len() && !self.s[j..].starts_with(CLOSE) {
            j += 1;
        }
        if j >= self.s.len() {
            return None;
        }
        self.i = j + CLOSE.len();
        Some(String::from_utf8(self.s[b..j].to_vec()).unwrap())
    }
    fn typed_list(&mut self, marked: bool) -> R<Vec<(String, String)>> {
        self.lit("(")?;
        if marked {
            self.lit("Mut")?;
        }
        let mut v = vec![self.typed()?];
        while self.peek("(") {
            v.push(self.typed()?);
        }
        self.lit(")")?;
        Some(v)
    }
    fn advice(&mut self) -> R<RawAdv> {
        self.lit("(")?;
        let a = if self.lit("global").is_some() {
            RawAdv::Done(Adv::Global(self.guest()?))
        } else {
            self.lit("advice")?;
            self.trap()?
        };
        self.lit(")")?;
        Some(a)
    }
    fn pre_post(&mut self) -> R<bool> {
        if self.lit("pre").is_some() {
            Some(true)
        } else {
            self.lit("post").map(|_| false)
        }
    }
    fn trap(&mut self) -> R<RawAdv> {
        // keywords, longest first where one is a prefix of another
        if self.lit("apply").is_some() {
            let f = self.formal("WasmFunction")?;
            let save = self.i;
            if let (Some(a), Some(r)) = (self.typed(), self.typed()) {
                let body = self.guest()?;
                return Some(RawAdv::Gen { f, a, r, body });
            }
            self.i = save;
            let marked_mut = {
                let s = self.i;
                self.lit("(")?;
                let m = self.peek("Mut");
                self.i = s;
                m
            };
            let args = self.typed_list(marked_mut)?;
            let ress = self.typed_list(marked_mut)?;
            let body = self.guest()?;
            return Some(RawAdv::Spe { marked_mut, f, args, ress, body });
        }
        let done = if self.lit("call_indirect").is_some() {
            if self.pre_post()? {
                Adv::CallIndirectPre {
                    table: self.formal("FunctionTable")?,
                    index: self.formal("FunctionTableIndex")?,
                    body: self.guest()?,
                }
            } else {
                Adv::CallIndirectPost(self.formal("FunctionTable")?, self.guest()?)
            }
        } else if self.lit("call").is_some() {
            let pre = self.pre_post()?;
            let t = self.formal("FunctionIndex")?;
            let b = self.guest()?;
            if pre { Adv::CallPre(t, b) } else { Adv::CallPost(t, b) }
        } else if self.lit("block").is_some() {
            if self.pre_post()? { Adv::BlockPre(self.guest()?) } else { Adv::BlockPost(self.guest()?) }
        } else if self.lit("loop").is_some() {
            if self.pre_post()? { Adv::LoopPre(self.guest()?) } else { Adv::LoopPost(self.guest()?) }
        } else if self.lit("select").is_some() {
            Adv::Select(self.formal("Condition")?, self.guest()?)
        } else if self.lit("if_then_else").is_some() {
            Adv::IfThenElse(self.formal("Condition")?, self.guest()?)
        } else if self.lit("if_then").is_some() {
            Adv::IfThen(self.formal("Condition")?, self.guest()?)
        } else if self.lit("br_if").is_some() {
            Adv::BrIf { cond: self.formal("Condition")?, label: self.formal("Label")?, body: self.guest()? }
        } else if self.lit("br_table").is_some() {
            Adv::BrTable { target: self.formal("Target")?, default: self.formal("Default")?, body: self.guest()? }
        } else {
            return None;
        };
        Some(RawAdv::Done(done))
    }
    fn program(&mut self) -> R<Vec<RawAdv>> {
        self.lit("(")?;
        self.lit("aspect")?;
        let mut v = vec![];
        while self.peek("(") {
            v.push(self.advice()?);
        }
        self.lit(")")?;
        self.skip();
        (self.i == self.s.len()).then_some(v)
    }
}

fn distinct(names: &[String]) -> bool {
    names.iter().collect::<BTreeSet<_>>().len() == names.len()
}
fn duplicates(formals: &[String]) -> Vec<Fault> {
    if distinct(formals) { vec![] } else { vec![Fault::Formals(formals.to_vec())] }
}
/// Each reason for which the names of specialised apply advice are not distinct.
fn shared_names(f: &str, args: &[String], ress: &[String]) -> Vec<Fault> {
    let mut out = vec![];
    for list in [args, ress] {
        for (i, n) in list.iter().enumerate() {
            if list[..i].contains(n) {
                out.push(Fault::Within(n.clone()));
            }
        }
    }
    out.extend(ress.iter().filter(|n| args.contains(n)).map(|n| Fault::Across(n.clone())));
    if args.iter().chain(ress).any(|n| n == f) {
        out.push(Fault::Formals([&[f.to_string()], args, ress].concat()));
    }
    out
}

pub fn formals(a: &Adv) -> Vec<String> {
    match a {
        Adv::ApplyGen { f, a, r, .. } => vec![f.clone(), a.clone(), r.clone()],
        Adv::ApplySpe { f, args, ress, .. } => {
            std::iter::once(f.clone()).chain(args.iter().chain(ress).map(|x| x.0.clone())).collect()
        }
        Adv::CallIndirectPre { table, index, .. } => vec![table.clone(), index.clone()],
        Adv::BrIf { cond, label, .. } => vec![cond.clone(), label.clone()],
        Adv::BrTable { target, default, .. } => vec![target.clone(), default.clone()],
        _ => vec![],
    }
}

pub fn judge(text: &str) -> Verdict {
    let mut p = P { s: text.as_bytes(), i: 0 };
    let Some(raw) = p.program() else { return Verdict::Syntax };
    let mut faults = vec![];
    let mut out = vec![];
    for r in raw {
        match r {
            RawAdv::Done(a) => {
                faults.extend(duplicates(&formals(&a)));
                out.push(a);
            }
            RawAdv::Gen { f, a, r, body } => {
                let means = match (a.1.as_str(), r.1.as_str()) {
                    ("Args", "Results") => Some(0),
                    ("DynArgs", "DynResults") => Some(1),
                    ("MutDynArgs", "MutDynResults") => Some(2),
                    _ => None,
                };
                faults.extend(duplicates(&[f.clone(), a.0.clone(), r.0.clone()]));
                match means {
                    Some(means) => out.push(Adv::ApplyGen { means, f, a: a.0, r: r.0, body }),
                    None => faults.push(Fault::GenericTypes(a.1, r.1)),
                }
            }
            RawAdv::Spe { marked_mut, f, args, ress, body } => {
                let names = |l: &[(String, String)]| l.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
                faults.extend(shared_names(&f, &names(&args), &names(&ress)));
                let mut conv = |v: Vec<(String, String)>| {
                    let mut o = vec![];
                    for (n, t) in v {
                        match Ty::parse(&t) {
                            Some(ty) => o.push((n, ty)),
                            None => faults.push(Fault::ValueType(t)),
                        }
                    }
                    o
                };
                let args = conv(args);
                let ress = conv(ress);
                out.push(Adv::ApplySpe { marked_mut, f, args, ress, body });
            }
        }
    }
    if faults.is_empty() {
        Verdict::Ok(out)
    } else {
        Verdict::Faults(faults)
    }
}

pub const FLAGS: [&str; 14] = [
    "generic", "if_then", "if_then_else", "br_if", "br_table", "call_pre", "call_post", "call_indirect_pre",
    "call_indirect_post", "block_pre", "block_post", "loop_pre", "loop_post", "select",
];

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
pub struct Joins {
    pub flags: u16,
    pub spec: BTreeSet<(Vec<Ty>, Vec<Ty>)>, // (results, arguments)
}
fn flag(n: &str) -> u16 {
    1 << FLAGS.iter().position(|f| *f == n).unwrap()
}
pub fn joins(p: &[Adv]) -> Joins {
    let mut j = Joins::default();
    for a in p {
        j.flags |= match a {
            Adv::Global(_) => 0,
            Adv::ApplyGen { .. } => flag("generic"),
            Adv::ApplySpe { args, ress, .. } => {
                let tys = |v: &[(String, Ty)]| v.iter().map(|x| x.1).collect::<Vec<_>>();
                j.spec.insert((tys(ress), tys(args)));
                0
            }
            Adv::CallPre(..) => flag("call_pre"),
            Adv::CallPost(..) => flag("call_post"),
            Adv::BlockPre(..) => flag("block_pre"),
            Adv::BlockPost(..) => flag("block_post"),
            Adv::LoopPre(..) => flag("loop_pre"),
            Adv::LoopPost(..) => flag("loop_post"),
            Adv::Select(..) => flag("select"),
            Adv::CallIndirectPre { .. } => flag("call_indirect_pre"),
            Adv::CallIndirectPost(..) => flag("call_indirect_post"),
            Adv::IfThen(..) => flag("if_then"),
            Adv::IfThenElse(..) => flag("if_then_else"),
            Adv::BrIf { .. } => flag("br_if"),
            Adv::BrTable { .. } => flag("br_table"),
        };
    }
    j
}

/// (generic apply, branch-like, call-like): which run-time support the analysis needs.
pub fn queries(p: &[Adv]) -> (bool, bool, bool) {
    let j = joins(p);
    let any = |ns: &[&str]| ns.iter().any(|n| j.flags & flag(n) != 0);
    (
        any(&["generic"]),
        any(&["if_then", "if_then_else", "br_if", "br_table", "select"]),
        any(&["call_pre", "call_post", "call_indirect_pre", "call_indirect_post"]),
    )
}

/// Tokens of an advice; layout between them is free, except where two words touch.
pub fn tokens(a: &Adv) -> Vec<String> {
    let mut t: Vec<String> = vec![];
    let mut w = |s: &str| t.push(s.to_string());
    w("(");
    let g = |b: &str| format!(">>>GUEST>>>{b}<<<GUEST<<<");
    macro_rules! formal {
        ($n:expr, $ty:expr) => {{
            w("(");
            w($n);
            w($ty);
            w(")");
        }};
    }
    match a {
        Adv::Global(b) => {
            w("global");
            w(&g(b));
        }
        _ => {
            w("advice");
            match a {
                Adv::Global(_) => unreachable!(),
                Adv::ApplyGen { means, f, a, r, body } => {
                    w("apply");
                    formal!(f, "WasmFunction");
                    formal!(a, ["Args", "DynArgs", "MutDynArgs"][*means as usize]);
                    formal!(r, ["Results", "DynResults", "MutDynResults"][*means as usize]);
                    w(&g(body));
                }
                Adv::ApplySpe { marked_mut, f, args, ress, body } => {
                    w("apply");
                    formal!(f, "WasmFunction");
                    for l in [args, ress] {
                        w("(");
                        if *marked_mut {
                            w("Mut");
                        }
                        for (n, ty) in l {
                            formal!(n, ty.name());
                        }
                        w(")");
                    }
                    w(&g(body));
                }
                Adv::CallPre(n, b) | Adv::CallPost(n, b) => {
                    w("call");
                    w(if matches!(a, Adv::CallPre(..)) { "pre" } else { "post" });
                    formal!(n, "FunctionIndex");
                    w(&g(b));
                }
                Adv::BlockPre(b) | Adv::BlockPost(b) | Adv::LoopPre(b) | Adv::LoopPost(b) => {
                    w(if matches!(a, Adv::BlockPre(_) | Adv::BlockPost(_)) { "block" } else { "loop" });
                    w(if matches!(a, Adv::BlockPre(_) | Adv::LoopPre(_)) { "pre" } else { "post" });
                    w(&g(b));
                }
                Adv::Select(c, b) => {
                    w("select");
                    formal!(c, "Condition");
                    w(&g(b));
                }
                Adv::CallIndirectPre { table, index, body } => {
                    w("call_indirect");
                    w("pre");
                    formal!(table, "FunctionTable");
                    formal!(index, "FunctionTableIndex");
                    w(&g(body));
                }
                Adv::CallIndirectPost(n, b) => {
                    w("call_indirect");
                    w("post");
                    formal!(n, "FunctionTable");
                    w(&g(b));
                }
                Adv::IfThen(c, b) => {
                    w("if_then");
                    formal!(c, "Condition");
                    w(&g(b));
                }
                Adv::IfThenElse(c, b) => {
                    w("if_then_else");
                    formal!(c, "Condition");
                    w(&g(b));
                }
                Adv::BrIf { cond, label, body } => {
                    w("br_if");
                    formal!(cond, "Condition");
                    formal!(label, "Label");
                    w(&g(body));
                }
                Adv::BrTable { target, default, body } => {
                    w("br_table");
                    formal!(target, "Target");
                    formal!(default, "Default");
                    w(&g(body));
                }
            }
        }
    }
    w(")");
    t
}

pub fn program_tokens(p: &[Adv]) -> Vec<String> {
    let mut t = vec!["(".to_string(), "aspect".into()];
    for a in p {
        t.extend(tokens(a));
    }
    t.push(")".into());
    t
}

pub fn needs_gap(a: &str, b: &str) -> bool {
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
    a.chars().last().is_some_and(word) && b.chars().next().is_some_and(word)
}

pub fn render(p: &[Adv]) -> String {
    program_tokens(p).join(" ")
}
