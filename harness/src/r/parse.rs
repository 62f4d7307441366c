//! Reference parser: plain recursive descent over the grammar of the specification. It differs from the
//! specification only where bluejay documents or tests a choice: body-less type definitions and type
//! extensions are not accepted.
use super::ast::*;
use super::lex::{lex, Mode, Tok};

struct P {
    t: Vec<Tok>,
    i: usize,
    /// the furthest token looked at
    hi: std::cell::Cell<usize>,
}
type R<T> = Option<T>;

impl P {
    fn peek(&self) -> Option<&Tok> {
        self.hi.set(self.hi.get().max(self.i));
        self.t.get(self.i)
    }
    fn is_p(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::P(p)) if *p == s)
    }
    fn eat(&mut self, s: &str) -> bool {
        let b = self.is_p(s);
        if b {
            self.i += 1
        }
        b
    }
    fn need(&mut self, s: &str) -> R<()> {
        self.eat(s).then_some(())
    }
    fn peek_name(&self, k: usize) -> Option<&str> {
        self.hi.set(self.hi.get().max(self.i + k));
        match self.t.get(self.i + k) {
            Some(Tok::Name(n)) => Some(n),
            _ => None,
        }
    }
    fn name(&mut self) -> R<String> {
        let n = self.peek_name(0)?.to_string();
        self.i += 1;
        Some(n)
    }
    fn kw(&mut self, k: &str) -> bool {
        let b = self.peek_name(0) == Some(k);
        if b {
            self.i += 1
        }
        b
    }
    fn var(&mut self) -> R<String> {
        match self.peek()? {
            Tok::Var(v) => {
                let v = v.clone();
                self.i += 1;
                Some(v)
            }
            _ => None,
        }
    }
    fn value(&mut self, konst: bool) -> R<Val> {
        let t = self.peek()?.clone();
        self.i += 1;
        Some(match t {
            Tok::Int(i) => Val::Int(i),
            Tok::Float(f) => Val::Float(f),
            Tok::Str(s) => Val::Str(s),
            Tok::Var(v) => {
                if konst {
                    return None;
                }
                Val::Var(v)
            }
            Tok::Name(n) => match n.as_str() {
                "true" => Val::Bool(true),
                "false" => Val::Bool(false),
                "null" => Val::Null,
                _ => Val::Enum(n),
            },
            Tok::P("[") => {
                let mut l = vec![];
                while !self.eat("]") {
                    l.push(self.value(konst)?);
                }
                Val::List(l)
            }
            Tok::P("{") => {
                let mut o = vec![];
                while !self.eat("}") {
                    let k = self.name()?;
                    self.need(":")?;
                    o.push((k, self.value(konst)?));
                }
                Val::Obj(o)
            }
            _ => return None,
        })
    }
    fn args(&mut self, konst: bool) -> R<Args> {
        let mut a = vec![];
        if self.eat("(") {
            loop {
                let n = self.name()?;
                self.need(":")?;
                a.push((n, self.value(konst)?));
                if self.eat(")") {
                    break;
                }
            }
        }
        Some(a)
    }
    fn dirs(&mut self, konst: bool) -> R<Vec<Dir>> {
        let mut d = vec![];
        while self.eat("@") {
            let name = self.name()?;
            let args = self.args(konst)?;
            d.push(Dir { name, args });
        }
        Some(d)
    }
    fn ty(&mut self) -> R<Ty> {
        if self.eat("[") {
            let t = self.ty()?;
            self.need("]")?;
            let r = self.eat("!");
            Some(Ty::List(Box::new(t), r))
        } else {
            let n = self.name()?;
            let r = self.eat("!");
            Some(Ty::Named(n, r))
        }
    }
    fn sels(&mut self) -> R<Vec<Sel>> {
        self.need("{")?;
        let mut s = vec![];
        loop {
            s.push(self.sel()?);
            if self.eat("}") {
                break;
            }
        }
        Some(s)
    }
    fn sel(&mut self) -> R<Sel> {
        if self.eat("...") {
            if self.peek_name(0).is_some_and(|n| n != "on") {
                let name = self.name()?;
                let dirs = self.dirs(false)?;
                return Some(Sel::Spread { name, dirs });
            }
            let on = if self.kw("on") { Some(self.name()?) } else { None };
            let dirs = self.dirs(false)?;
            let sels = self.sels()?;
            return Some(Sel::Inline { on, dirs, sels });
        }
        let n = self.name()?;
        let (alias, name) = if self.eat(":") { (Some(n), self.name()?) } else { (None, n) };
        let args = self.args(false)?;
        let dirs = self.dirs(false)?;
        let sels = if self.is_p("{") { Some(self.sels()?) } else { None };
        Some(Sel::Field(Fld { alias, name, args, dirs, sels }))
    }
    fn opkind(s: &str) -> Option<OpKind> {
        Some(match s {
            "query" => OpKind::Query,
            "mutation" => OpKind::Mutation,
            "subscription" => OpKind::Subscription,
            _ => return None,
        })
    }
    fn exec(&mut self) -> R<ExecDoc> {
        let mut d = ExecDoc::default();
        while self.peek().is_some() {
            if self.is_p("{") {
                let sels = self.sels()?;
                d.ops.push(Op { kind: OpKind::Query, shorthand: true, name: None, vars: vec![], dirs: vec![], sels });
                continue;
            }
            let k = self.name()?;
            if k == "fragment" {
                let name = self.name()?;
                if name == "on" {
                    return None;
                }
                if !self.kw("on") {
                    return None;
                }
                let on = self.name()?;
                let dirs = self.dirs(false)?;
                let sels = self.sels()?;
                d.frags.push(Frag { name, on, dirs, sels });
                continue;
            }
            let kind = Self::opkind(&k)?;
            let name = if self.peek_name(0).is_some() { self.name() } else { None };
            let mut vars = vec![];
            if self.eat("(") {
                loop {
                    let name = self.var()?;
                    self.need(":")?;
                    let ty = self.ty()?;
                    let default = if self.eat("=") { Some(self.value(true)?) } else { None };
                    let dirs = self.dirs(true)?;
                    vars.push(VarDef { name, ty, default, dirs });
                    if self.eat(")") {
                        break;
                    }
                }
            }
            let dirs = self.dirs(false)?;
            let sels = self.sels()?;
            d.ops.push(Op { kind, shorthand: false, name, vars, dirs, sels });
        }
        (!d.ops.is_empty() || !d.frags.is_empty()).then_some(d)
    }
    fn desc(&mut self) -> Option<String> {
        if let Some(Tok::Str(s)) = self.peek() {
            let s = s.clone();
            self.i += 1;
            Some(s)
        } else {
            None
        }
    }
    fn input_val(&mut self) -> R<InputVal> {
        let desc = self.desc();
        let name = self.name()?;
        self.need(":")?;
        let ty = self.ty()?;
        let default = if self.eat("=") { Some(self.value(true)?) } else { None };
        let dirs = self.dirs(true)?;
        Some(InputVal { desc, name, ty, default, dirs })
    }
    fn args_def(&mut self) -> R<Vec<InputVal>> {
        let mut v = vec![];
        if self.eat("(") {
            loop {
                v.push(self.input_val()?);
                if self.eat(")") {
                    break;
                }
            }
        }
        Some(v)
    }
    fn fields_def(&mut self) -> R<Vec<FieldDef>> {
        self.need("{")?;
        let mut v = vec![];
        loop {
            let desc = self.desc();
            let name = self.name()?;
            let args = self.args_def()?;
            self.need(":")?;
            let ty = self.ty()?;
            let dirs = self.dirs(true)?;
            v.push(FieldDef { desc, name, args, ty, dirs });
            if self.eat("}") {
                break;
            }
        }
        Some(v)
    }
    fn implements(&mut self) -> R<Vec<String>> {
        let mut v = vec![];
        if self.kw("implements") {
            self.eat("&");
            v.push(self.name()?);
            while self.eat("&") {
                v.push(self.name()?);
            }
        }
        Some(v)
    }
    fn sdl(&mut self) -> R<SdlDoc> {
        let mut d = SdlDoc::default();
        while self.peek().is_some() {
            let desc = self.desc();
            let k = self.name()?;
            match k.as_str() {
                "schema" => {
                    let dirs = self.dirs(true)?;
                    self.need("{")?;
                    let mut roots = vec![];
                    loop {
                        let kind = Self::opkind(&self.name()?)?;
                        self.need(":")?;
                        roots.push((kind, self.name()?));
                        if self.eat("}") {
                            break;
                        }
                    }
                    d.schemas.push(SchemaDef { desc, dirs, roots });
                }
                "directive" => {
                    self.need("@")?;
                    let name = self.name()?;
                    let args = self.args_def()?;
                    let repeatable = self.kw("repeatable");
                    if !self.kw("on") {
                        return None;
                    }
                    self.eat("|");
                    let mut locs = vec![];
                    loop {
                        let l = self.name()?;
                        if !LOCATIONS.contains(&l.as_str()) {
                            return None;
                        }
                        locs.push(l);
                        if !self.eat("|") {
                            break;
                        }
                    }
                    d.dirdefs.push(DirDef { desc, name, args, repeatable, locs });
                }
                "scalar" => {
                    let name = self.name()?;
                    let dirs = self.dirs(true)?;
                    d.types.push(TypeDef { desc, name, dirs, kind: Kind::Scalar });
                }
                "type" | "interface" => {
                    let name = self.name()?;
                    let implements = self.implements()?;
                    let dirs = self.dirs(true)?;
                    let fields = self.fields_def()?;
                    let kind = if k == "type" { Kind::Object { implements, fields } } else { Kind::Interface { implements, fields } };
                    d.types.push(TypeDef { desc, name, dirs, kind });
                }
                "union" => {
                    let name = self.name()?;
                    let dirs = self.dirs(true)?;
                    self.need("=")?;
                    self.eat("|");
                    let mut members = vec![self.name()?];
                    while self.eat("|") {
                        members.push(self.name()?);
                    }
                    d.types.push(TypeDef { desc, name, dirs, kind: Kind::Union { members } });
                }
                "enum" => {
                    let name = self.name()?;
                    let dirs = self.dirs(true)?;
                    self.need("{")?;
                    let mut values = vec![];
                    loop {
                        let desc = self.desc();
                        let name = self.name()?;
                        if matches!(name.as_str(), "true" | "false" | "null") {
                            return None;
                        }
                        let dirs = self.dirs(true)?;
                        values.push(EnumVal { desc, name, dirs });
                        if self.eat("}") {
                            break;
                        }
                    }
                    d.types.push(TypeDef { desc, name, dirs, kind: Kind::Enum { values } });
                }
                "input" => {
                    let name = self.name()?;
                    let dirs = self.dirs(true)?;
                    self.need("{")?;
                    let mut fields = vec![];
                    loop {
                        fields.push(self.input_val()?);
                        if self.eat("}") {
                            break;
                        }
                    }
                    d.types.push(TypeDef { desc, name, dirs, kind: Kind::Input { fields } });
                }
                _ => return None,
            }
        }
        (!d.schemas.is_empty() || !d.types.is_empty() || !d.dirdefs.is_empty()).then_some(d)
    }
}

pub const LOCATIONS: [&str; 19] = [
    "QUERY",
    "MUTATION",
    "SUBSCRIPTION",
    "FIELD",
    "FRAGMENT_DEFINITION",
    "FRAGMENT_SPREAD",
    "INLINE_FRAGMENT",
    "VARIABLE_DEFINITION",
    "SCHEMA",
    "SCALAR",
    "OBJECT",
    "FIELD_DEFINITION",
    "ARGUMENT_DEFINITION",
    "INTERFACE",
    "UNION",
    "ENUM",
    "ENUM_VALUE",
    "INPUT_OBJECT",
    "INPUT_FIELD_DEFINITION",
];

pub fn exec(s: &str) -> Option<ExecDoc> {
    exec_mode(s, Mode::default())
}
pub fn exec_mode(s: &str, m: Mode) -> Option<ExecDoc> {
    P { t: lex(s, m)?, i: 0, hi: Default::default() }.exec()
}
pub fn exec_toks(t: Vec<Tok>) -> Option<ExecDoc> {
    P { t, i: 0, hi: Default::default() }.exec()
}
/// The first token at which no document can go on (or the number of tokens when they are too few),
/// none for a document.
pub fn stuck(t: Vec<Tok>, sdl: bool) -> Option<usize> {
    let mut p = P { t, i: 0, hi: Default::default() };
    let ok = if sdl { p.sdl().is_some() } else { p.exec().is_some() };
    (!ok).then(|| p.hi.get())
}
pub fn sdl(s: &str) -> Option<SdlDoc> {
    P { t: lex(s, Mode::default())?, i: 0, hi: Default::default() }.sdl()
}
pub fn sdl_mode(s: &str, m: Mode) -> Option<SdlDoc> {
    P { t: lex(s, m)?, i: 0, hi: Default::default() }.sdl()
}
/// A whole string that is one value.
pub fn value(s: &str, m: Mode) -> Option<Val> {
    let mut p = P { t: lex(s, m)?, i: 0, hi: Default::default() };
    let v = p.value(false)?;
    (p.i == p.t.len()).then_some(v)
}
