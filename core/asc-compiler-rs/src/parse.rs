//! Lexer and parser of the part of AssemblyScript that instrumentation libraries and analyses are written in.
#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Name(String), Num(String), Str(String), Op(&'static str), End }
const OPS: &[&str] = &[
    ">>>=", "===", "!==", "<<=", ">>=", ">>>", "**=", "&&=", "||=", "...", "=>", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<",
    ">>", "**", "{", "}", "(", ")", "[", "]", ";", ",", "<", ">", "+", "-", "*", "/", "%", "&", "|", "^", "!", "~", "?", ":", "=", ".", "@",
];
pub type R<T> = Result<T, String>;

pub fn lex(s: &str) -> R<Vec<Tok>> {
    let b: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    let starts = |i: usize, o: &str| o.chars().enumerate().all(|(k, c)| b.get(i + k) == Some(&c));
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() || c == '\u{feff}' {
            i += 1;
        } else if starts(i, "//") {
            while i < b.len() && b[i] != '\n' { i += 1; }
        } else if starts(i, "/*") {
            i += 2;
            while i < b.len() && !starts(i, "*/") { i += 1; }
            if i >= b.len() { return Err("unterminated comment".into()); }
            i += 2;
        } else if c.is_alphabetic() || c == '_' || c == '$' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || b[i] == '$') { i += 1; }
            v.push(Tok::Name(b[s..i].iter().collect()));
        } else if c.is_ascii_digit() || c == '.' && b.get(i + 1).is_some_and(char::is_ascii_digit) {
            let s = i;
            let hex = starts(i, "0x") || starts(i, "0X");
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_' || b[i] == '.' || !hex && (b[i] == '-' || b[i] == '+') && matches!(b[i - 1], 'e' | 'E')) { i += 1; }
            v.push(Tok::Num(b[s..i].iter().filter(|c| **c != '_').collect()));
        } else if c == '"' || c == '\'' || c == '`' {
            let s = i + 1;
            i += 1;
            while i < b.len() && b[i] != c { i += if b[i] == '\\' { 2 } else { 1 }; }
            if i >= b.len() { return Err("unterminated string".into()); }
            v.push(Tok::Str(b[s..i].iter().collect()));
            i += 1;
        } else {
            let Some(o) = OPS.iter().find(|o| starts(i, o)) else { return Err(format!("unexpected character {c:?}")) };
            v.push(Tok::Op(o));
            i += o.len();
        }
    }
    v.push(Tok::End);
    Ok(v)
}

#[derive(Clone, Debug, PartialEq)]
pub struct TypeName { pub name: String, pub args: Vec<TypeName> }
#[derive(Clone, Debug)]
pub enum Expr {
    Num(String), Str, Name(String), This, True, False, Null,
    Un(&'static str, Box<Expr>),
    /// Prefix or postfix ++ and --.
    Step(&'static str, bool, Box<Expr>),
    Bin(&'static str, Box<Expr>, Box<Expr>),
    Assign(&'static str, Box<Expr>, Box<Expr>),
    Cond(Box<Expr>, Box<Expr>, Box<Expr>),
    Call(Box<Expr>, Vec<TypeName>, Vec<Expr>),
    New(TypeName, Vec<Expr>),
    Dot(Box<Expr>, String),
    As(Box<Expr>, TypeName),
    Super,
}
#[derive(Clone, Debug)]
pub struct Var { pub name: String, pub ty: Option<TypeName>, pub init: Option<Expr>, pub constant: bool }
#[derive(Clone, Debug)]
pub enum Stmt {
    Var(Vec<Var>), Expr(Expr), If(Expr, Box<Stmt>, Option<Box<Stmt>>), While(Expr, Box<Stmt>), DoWhile(Box<Stmt>, Expr), For(Option<Box<Stmt>>, Option<Expr>, Option<Expr>, Box<Stmt>),
    Return(Option<Expr>), Block(Vec<Stmt>), Break, Continue, Switch(Expr, Vec<(Option<Expr>, Vec<Stmt>)>), Empty,
}
#[derive(Clone, Debug)]
pub struct Fun {
    pub name: String, pub generics: Vec<String>, pub params: Vec<(String, TypeName, Option<Expr>)>, pub ret: TypeName, pub body: Option<Vec<Stmt>>, pub exported: bool, pub external: Option<(String, String)>,
    pub is_static: bool, pub is_abstract: bool, pub getter: bool,
}
#[derive(Clone, Debug)]
pub struct Field { pub name: String, pub ty: TypeName, pub init: Option<Expr>, pub is_static: bool }
#[derive(Clone, Debug)]
pub struct Class { pub name: String, pub generics: Vec<String>, pub base: Option<TypeName>, pub fields: Vec<Field>, pub methods: Vec<Fun>, pub is_abstract: bool }
#[derive(Clone, Debug)]
pub enum Item { Fun(Fun), Class(Class), Enum(String, Vec<(String, Option<Expr>)>), Var(Vec<Var>, bool), Alias(String, TypeName), Stmt(Stmt) }

pub struct Parser { t: Vec<Tok>, i: usize, undo: Vec<(usize, Tok)> }
impl Parser {
    pub fn new(s: &str) -> R<Parser> { Ok(Parser { t: lex(s)?, i: 0, undo: vec![] }) }
    fn peek(&self) -> &Tok { &self.t[self.i] }
    fn at(&self, k: usize) -> &Tok { self.t.get(self.i + k).unwrap_or(&Tok::End) }
    fn is(&self, o: &str) -> bool { matches!(self.peek(), Tok::Op(x) if *x == o) }
    fn is_name(&self, n: &str) -> bool { matches!(self.peek(), Tok::Name(x) if x == n) }
    fn eat(&mut self, o: &str) -> bool { let y = self.is(o); if y { self.i += 1; } y }
    fn eat_name(&mut self, n: &str) -> bool { let y = self.is_name(n); if y { self.i += 1; } y }
    fn need(&mut self, o: &str) -> R<()> {
        if self.eat(o) { Ok(()) } else { Err(format!("'{o}' expected, got {:?} {:?}", self.peek(), self.t[self.i.saturating_sub(6)..self.i].iter().collect::<Vec<_>>())) }
    }
    fn name(&mut self) -> R<String> {
        match self.peek().clone() { Tok::Name(n) => { self.i += 1; Ok(n) } t => Err(format!("identifier expected, got {t:?}")) }
    }
    fn semi(&mut self) { self.eat(";"); }
    fn ty(&mut self) -> R<TypeName> {
        let name = self.name()?;
        let mut args = vec![];
        if self.eat("<") {
            loop {
                args.push(self.ty()?);
                if !self.eat(",") { break; }
            }
            self.close_angle()?;
        }
        if self.eat("|") { self.name()?; }
        Ok(TypeName { name, args })
    }
    fn close_angle(&mut self) -> R<()> {
        for (long, rest) in [(">>>", ">>"), (">>", ">"), (">=", "="), (">>=", ">=")] {
            if self.is(long) { self.undo.push((self.i, std::mem::replace(&mut self.t[self.i], Tok::Op(rest)))); return Ok(()); }
        }
        self.need(">")
    }
    pub fn program(&mut self) -> R<Vec<Item>> {
        let mut v = vec![];
        while *self.peek() != Tok::End {
            if let Some(i) = self.item()? { v.push(i); }
        }
        Ok(v)
    }
    fn item(&mut self) -> R<Option<Item>> {
        if self.eat(";") { return Ok(None); }
        let mut external = None;
        while self.eat("@") {
            let d = self.name()?;
            let mut a = vec![];
            if self.eat("(") {
                while !self.eat(")") {
                    match self.peek().clone() { Tok::Str(s) => a.push(s), t => return Err(format!("decorator argument {t:?}")) }
                    self.i += 1;
                    self.eat(",");
                }
            }
            match (d.as_str(), a.len()) {
                ("external", 2) => external = Some((a[0].clone(), a[1].clone())),
                ("external", 1) => external = Some(("env".into(), a[0].clone())),
                ("inline" | "final" | "unmanaged" | "global" | "lazy" | "unsafe", _) => {}
                _ => return Err(format!("decorator {d}")),
            }
        }
        let exported = self.eat_name("export");
        let declared = self.eat_name("declare");
        let is_abstract = self.eat_name("abstract");
        if self.eat_name("function") {
            let name = self.name()?;
            let mut f = self.fun(name)?;
            f.exported = exported;
            if declared { f.external = Some(external.unwrap_or(("env".into(), f.name.clone()))); }
            if !declared && f.body.is_none() { return Err(format!("function {} has no body", f.name)); }
            return Ok(Some(Item::Fun(f)));
        }
        if self.eat_name("class") {
            return Ok(Some(Item::Class(self.class(is_abstract)?)));
        }
        let const_enum = self.is_name("const") && *self.at(1) == Tok::Name("enum".into());
        if const_enum { self.i += 1; }
        if self.eat_name("enum") {
            let n = self.name()?;
            self.need("{")?;
            let mut v = vec![];
            while !self.eat("}") {
                let k = self.name()?;
                let e = if self.eat("=") { Some(self.assign()?) } else { None };
                v.push((k, e));
                if !self.eat(",") { self.need("}")?; break; }
            }
            return Ok(Some(Item::Enum(n, v)));
        }
        if self.is_name("type") && matches!(self.at(1), Tok::Name(_)) {
            self.i += 1;
            let n = self.name()?;
            self.need("=")?;
            let t = self.ty()?;
            self.semi();
            return Ok(Some(Item::Alias(n, t)));
        }
        if self.is_name("let") || self.is_name("const") || self.is_name("var") {
            let Stmt::Var(v) = self.vars()? else { unreachable!() };
            self.semi();
            return Ok(Some(Item::Var(v, exported)));
        }
        Ok(Some(Item::Stmt(self.stmt()?)))
    }
    fn generics(&mut self) -> R<Vec<String>> {
        let mut v = vec![];
        if self.eat("<") {
            loop {
                v.push(self.name()?);
                if self.eat_name("extends") { self.ty()?; }
                if !self.eat(",") { break; }
            }
            self.close_angle()?;
        }
        Ok(v)
    }
    fn fun(&mut self, name: String) -> R<Fun> {
        let generics = self.generics()?;
        self.need("(")?;
        let mut params = vec![];
        while !self.eat(")") {
            while self.is_name("readonly") || self.is_name("public") || self.is_name("private") || self.is_name("protected") { return Err("parameter properties are not supported".into()); }
            let n = self.name()?;
            self.need(":")?;
            let t = self.ty()?;
            let d = if self.eat("=") { Some(self.assign()?) } else { None };
            if params.iter().any(|p: &(String, TypeName, Option<Expr>)| p.0 == n) { return Err(format!("duplicate parameter {n}")); }
            params.push((n, t, d));
            if !self.eat(",") { self.need(")")?; break; }
        }
        let ret = if self.eat(":") { self.ty()? } else { TypeName { name: "void".into(), args: vec![] } };
        let body = if self.is("{") { Some(self.block()?) } else { self.semi(); None };
        Ok(Fun { name, generics, params, ret, body, exported: false, external: None, is_static: false, is_abstract: false, getter: false })
    }
    fn class(&mut self, is_abstract: bool) -> R<Class> {
        let name = self.name()?;
        let generics = self.generics()?;
        let base = if self.eat_name("extends") { Some(self.ty()?) } else { None };
        if self.eat_name("implements") { loop { self.ty()?; if !self.eat(",") { break; } } }
        self.need("{")?;
        let mut c = Class { name, generics, base, fields: vec![], methods: vec![], is_abstract };
        while !self.eat("}") {
            if self.eat(";") { continue; }
            while self.eat("@") { self.name()?; }
            let (mut st, mut ab, mut getter) = (false, false, false);
            loop {
                let follows_member = matches!(self.at(1), Tok::Name(_));
                match self.peek() {
                    Tok::Name(n) if follows_member => match n.as_str() {
                        "readonly" | "public" | "private" | "protected" | "override" => {}
                        "static" => st = true,
                        "abstract" => ab = true,
                        "get" => getter = true,
                        _ => break,
                    },
                    _ => break,
                }
                self.i += 1;
            }
            let n = self.name()?;
            if self.is("(") || self.is("<") {
                let mut f = self.fun(n)?;
                f.is_static = st;
                f.is_abstract = ab;
                f.getter = getter;
                if f.body.is_none() && !ab { return Err(format!("method {} has no body", f.name)); }
                c.methods.push(f);
            } else {
                self.need(":")?;
                let ty = self.ty()?;
                let init = if self.eat("=") { Some(self.assign()?) } else { None };
                self.semi();
                c.fields.push(Field { name: n, ty, init, is_static: st });
            }
        }
        Ok(c)
    }
    pub fn block(&mut self) -> R<Vec<Stmt>> {
        self.need("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            if *self.peek() == Tok::End { return Err("'}' expected".into()); }
            v.push(self.stmt()?);
        }
        Ok(v)
    }
    fn vars(&mut self) -> R<Stmt> {
        let constant = self.is_name("const");
        self.i += 1;
        let mut v = vec![];
        loop {
            let name = self.name()?;
            let ty = if self.eat(":") { Some(self.ty()?) } else { None };
            let init = if self.eat("=") { Some(self.assign()?) } else { None };
            if constant && init.is_none() { return Err(format!("'const' declaration {name} must be initialized")); }
            v.push(Var { name, ty, init, constant });
            if !self.eat(",") { break; }
        }
        Ok(Stmt::Var(v))
    }
    fn stmt(&mut self) -> R<Stmt> {
        if self.eat(";") { return Ok(Stmt::Empty); }
        if self.is("{") { return Ok(Stmt::Block(self.block()?)); }
        let Tok::Name(n) = self.peek().clone() else { return self.expr_stmt() };
        match n.as_str() {
            "let" | "const" | "var" => { let s = self.vars()?; self.semi(); Ok(s) }
            "if" => {
                self.i += 1;
                self.need("(")?;
                let c = self.expr()?;
                self.need(")")?;
                let t = self.stmt()?;
                let e = if self.eat_name("else") { Some(Box::new(self.stmt()?)) } else { None };
                Ok(Stmt::If(c, Box::new(t), e))
            }
            "while" => {
                self.i += 1;
                self.need("(")?;
                let c = self.expr()?;
                self.need(")")?;
                Ok(Stmt::While(c, Box::new(self.stmt()?)))
            }
            "do" => {
                self.i += 1;
                let b = self.stmt()?;
                if !self.eat_name("while") { return Err("'while' expected".into()); }
                self.need("(")?;
                let c = self.expr()?;
                self.need(")")?;
                self.semi();
                Ok(Stmt::DoWhile(Box::new(b), c))
            }
            "for" => {
                self.i += 1;
                self.need("(")?;
                let init = if self.is(";") { None } else if self.is_name("let") || self.is_name("const") || self.is_name("var") { Some(Box::new(self.vars()?)) } else { Some(Box::new(Stmt::Expr(self.expr()?))) };
                self.need(";")?;
                let c = if self.is(";") { None } else { Some(self.expr()?) };
                self.need(";")?;
                let s = if self.is(")") { None } else { Some(self.expr()?) };
                self.need(")")?;
                Ok(Stmt::For(init, c, s, Box::new(self.stmt()?)))
            }
            "return" => {
                self.i += 1;
                let e = if self.is(";") || self.is("}") { None } else { Some(self.expr()?) };
                self.semi();
                Ok(Stmt::Return(e))
            }
            "break" => { self.i += 1; self.semi(); Ok(Stmt::Break) }
            "continue" => { self.i += 1; self.semi(); Ok(Stmt::Continue) }
            "switch" => {
                self.i += 1;
                self.need("(")?;
                let e = self.expr()?;
                self.need(")")?;
                self.need("{")?;
                let mut cases = vec![];
                while !self.eat("}") {
                    let c = if self.eat_name("default") { None } else if self.eat_name("case") { Some(self.expr()?) } else { return Err("'case' expected".into()) };
                    self.need(":")?;
                    let mut b = vec![];
                    while !self.is("}") && !self.is_name("case") && !self.is_name("default") { b.push(self.stmt()?); }
                    cases.push((c, b));
                }
                Ok(Stmt::Switch(e, cases))
            }
            _ => self.expr_stmt(),
        }
    }
    fn expr_stmt(&mut self) -> R<Stmt> {
        let e = self.expr()?;
        self.semi();
        Ok(Stmt::Expr(e))
    }
    fn expr(&mut self) -> R<Expr> { self.assign() }
    fn assign(&mut self) -> R<Expr> {
        let c = self.cond()?;
        for (o, b) in [("=", ""), ("+=", "+"), ("-=", "-"), ("*=", "*"), ("/=", "/"), ("%=", "%"), ("&=", "&"), ("|=", "|"), ("^=", "^"), ("<<=", "<<"), (">>=", ">>"), (">>>=", ">>>")] {
            if self.eat(o) { return Ok(Expr::Assign(b, Box::new(c), Box::new(self.assign()?))); }
        }
        Ok(c)
    }
    fn cond(&mut self) -> R<Expr> {
        let c = self.binary(0)?;
        if self.eat("?") {
            let a = self.assign()?;
            self.need(":")?;
            return Ok(Expr::Cond(Box::new(c), Box::new(a), Box::new(self.assign()?)));
        }
        Ok(c)
    }
    fn binary(&mut self, level: usize) -> R<Expr> {
        const LEVELS: &[&[&str]] = &[&["||"], &["&&"], &["|"], &["^"], &["&"], &["==", "!=", "===", "!=="], &["<", ">", "<=", ">="], &["<<", ">>", ">>>"], &["+", "-"], &["*", "/", "%"]];
        if level == LEVELS.len() { return self.unary(); }
        let mut a = self.binary(level + 1)?;
        loop {
            if level == 6 && self.eat_name("as") { a = Expr::As(Box::new(a), self.ty()?); continue; }
            let Some(o) = LEVELS[level].iter().find(|o| self.is(o)) else { return Ok(a) };
            self.i += 1;
            let b = self.binary(level + 1)?;
            let o = match *o { "===" => "==", "!==" => "!=", o => o };
            a = Expr::Bin(o, Box::new(a), Box::new(b));
        }
    }
    fn unary(&mut self) -> R<Expr> {
        for o in ["-", "+", "!", "~"] {
            if self.eat(o) { return Ok(Expr::Un(o, Box::new(self.unary()?))); }
        }
        for o in ["++", "--"] {
            if self.eat(o) { return Ok(Expr::Step(o, true, Box::new(self.unary()?))); }
        }
        if self.is("<") {
            self.i += 1;
            let t = self.ty()?;
            self.close_angle()?;
            return Ok(Expr::As(Box::new(self.unary()?), t));
        }
        let mut e = self.primary()?;
        loop {
            if self.eat(".") {
                e = Expr::Dot(Box::new(e), self.name()?);
            } else if self.is("(") {
                e = Expr::Call(Box::new(e), vec![], self.args()?);
            } else if self.is("<") {
                // type arguments of a call?
                let save = (self.i, self.undo.len());
                self.i += 1;
                let mut ts = vec![];
                let ok = (|| -> R<()> {
                    loop {
                        ts.push(self.ty()?);
                        if !self.eat(",") { break; }
                    }
                    self.close_angle()?;
                    if self.is("(") { Ok(()) } else { Err(String::new()) }
                })();
                if ok.is_err() {
                    self.i = save.0;
                    while self.undo.len() > save.1 { let (at, t) = self.undo.pop().unwrap(); self.t[at] = t; }
                    return Ok(e);
                }
                e = Expr::Call(Box::new(e), ts, self.args()?);
            } else if self.is("++") || self.is("--") {
                let o = if self.eat("++") { "++" } else { self.i += 1; "--" };
                e = Expr::Step(o, false, Box::new(e));
            } else if self.eat("!") {
                // not null
            } else {
                return Ok(e);
            }
        }
    }
    fn args(&mut self) -> R<Vec<Expr>> {
        self.need("(")?;
        let mut v = vec![];
        while !self.eat(")") {
            v.push(self.assign()?);
            if !self.eat(",") { self.need(")")?; break; }
        }
        Ok(v)
    }
    fn primary(&mut self) -> R<Expr> {
        let t = self.peek().clone();
        self.i += 1;
        Ok(match t {
            Tok::Num(n) => Expr::Num(n),
            Tok::Str(_) => Expr::Str,
            Tok::Op("(") => { let e = self.expr()?; self.need(")")?; e }
            Tok::Name(n) => match n.as_str() {
                "true" => Expr::True,
                "false" => Expr::False,
                "null" => Expr::Null,
                "this" => Expr::This,
                "super" => Expr::Super,
                "new" => {
                    let t = self.ty()?;
                    let a = if self.is("(") { self.args()? } else { vec![] };
                    Expr::New(t, a)
                }
                "if" | "else" | "for" | "while" | "return" | "function" | "class" | "let" | "const" | "var" | "case" | "default" | "switch" | "break" | "continue" | "export" | "import" | "typeof" | "delete" | "void"
                | "in" | "instanceof" | "enum" | "extends" | "with" | "do" | "try" | "catch" | "finally" | "throw" => return Err(format!("expression expected, got {n}")),
                _ => Expr::Name(n),
            },
            t => return Err(format!("expression expected, got {t:?}")),
        })
    }
}
