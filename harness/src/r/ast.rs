//! Owned syntax trees used by the reference models; bluejay's own trees are converted to these.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Var(String),
    Int(i32),
    Float(f64),
    Str(String),
    Bool(bool),
    Null,
    Enum(String),
    List(Vec<Val>),
    Obj(Vec<(String, Val)>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Named(String, bool),
    List(Box<Ty>, bool),
}

impl Ty {
    pub fn base(&self) -> &str {
        match self {
            Ty::Named(n, _) => n,
            Ty::List(t, _) => t.base(),
        }
    }
    pub fn required(&self) -> bool {
        match self {
            Ty::Named(_, r) | Ty::List(_, r) => *r,
        }
    }
    pub fn nullable(&self) -> Ty {
        match self {
            Ty::Named(n, _) => Ty::Named(n.clone(), false),
            Ty::List(t, _) => Ty::List(t.clone(), false),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Ty::Named(n, r) => format!("{n}{}", if *r { "!" } else { "" }),
            Ty::List(t, r) => format!("[{}]{}", t.show(), if *r { "!" } else { "" }),
        }
    }
}

pub type Args = Vec<(String, Val)>;

#[derive(Clone, Debug, PartialEq)]
pub struct Dir {
    pub name: String,
    pub args: Args,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    Field(Fld),
    Spread { name: String, dirs: Vec<Dir> },
    Inline { on: Option<String>, dirs: Vec<Dir>, sels: Vec<Sel> },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fld {
    pub alias: Option<String>,
    pub name: String,
    pub args: Args,
    pub dirs: Vec<Dir>,
    /// None: no selection set written
    pub sels: Option<Vec<Sel>>,
}
impl Fld {
    pub fn key(&self) -> &str {
        self.alias.as_deref().unwrap_or(&self.name)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct VarDef {
    pub name: String,
    pub ty: Ty,
    pub default: Option<Val>,
    pub dirs: Vec<Dir>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum OpKind {
    Query,
    Mutation,
    Subscription,
}
impl OpKind {
    pub fn kw(self) -> &'static str {
        match self {
            OpKind::Query => "query",
            OpKind::Mutation => "mutation",
            OpKind::Subscription => "subscription",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub kind: OpKind,
    /// written as a bare selection set
    pub shorthand: bool,
    pub name: Option<String>,
    pub vars: Vec<VarDef>,
    pub dirs: Vec<Dir>,
    pub sels: Vec<Sel>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Frag {
    pub name: String,
    pub on: String,
    pub dirs: Vec<Dir>,
    pub sels: Vec<Sel>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct ExecDoc {
    pub ops: Vec<Op>,
    pub frags: Vec<Frag>,
}

// ---- type system ----
#[derive(Clone, Debug, PartialEq)]
pub struct InputVal {
    pub desc: Option<String>,
    pub name: String,
    pub ty: Ty,
    pub default: Option<Val>,
    pub dirs: Vec<Dir>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct FieldDef {
    pub desc: Option<String>,
    pub name: String,
    pub args: Vec<InputVal>,
    pub ty: Ty,
    pub dirs: Vec<Dir>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct EnumVal {
    pub desc: Option<String>,
    pub name: String,
    pub dirs: Vec<Dir>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Scalar,
    Object { implements: Vec<String>, fields: Vec<FieldDef> },
    Interface { implements: Vec<String>, fields: Vec<FieldDef> },
    Union { members: Vec<String> },
    Enum { values: Vec<EnumVal> },
    Input { fields: Vec<InputVal> },
}

#[derive(Clone, Debug, PartialEq)]
pub struct TypeDef {
    pub desc: Option<String>,
    pub name: String,
    pub dirs: Vec<Dir>,
    pub kind: Kind,
}

#[derive(Clone, Debug, PartialEq)]
pub struct DirDef {
    pub desc: Option<String>,
    pub name: String,
    pub args: Vec<InputVal>,
    pub repeatable: bool,
    pub locs: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SchemaDef {
    pub desc: Option<String>,
    pub dirs: Vec<Dir>,
    pub roots: Vec<(OpKind, String)>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct SdlDoc {
    pub schemas: Vec<SchemaDef>,
    pub types: Vec<TypeDef>,
    pub dirdefs: Vec<DirDef>,
}

// ---- printing (independent of bluejay's printer; used to feed generated trees to bluejay) ----
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn val(v: &Val) -> String {
    match v {
        Val::Var(n) => format!("${n}"),
        Val::Int(i) => i.to_string(),
        Val::Float(f) => {
            let s = format!("{f}");
            if s.contains('.') { s } else { format!("{s}.0") }
        }
        Val::Str(s) => quote(s),
        Val::Bool(b) => b.to_string(),
        Val::Null => "null".into(),
        Val::Enum(e) => e.clone(),
        Val::List(l) => format!("[{}]", l.iter().map(val).collect::<Vec<_>>().join(", ")),
        Val::Obj(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{k}: {}", val(v))).collect::<Vec<_>>().join(", ")),
    }
}
pub fn args(a: &Args) -> String {
    if a.is_empty() {
        return String::new();
    }
    format!("({})", a.iter().map(|(k, v)| format!("{k}: {}", val(v))).collect::<Vec<_>>().join(", "))
}
pub fn dirs(d: &[Dir]) -> String {
    d.iter().map(|d| format!(" @{}{}", d.name, args(&d.args))).collect()
}
pub fn sels(s: &[Sel]) -> String {
    format!("{{ {} }}", s.iter().map(sel).collect::<Vec<_>>().join(" "))
}
pub fn sel(s: &Sel) -> String {
    match s {
        Sel::Field(f) => format!(
            "{}{}{}{}{}",
            f.alias.as_ref().map(|a| format!("{a}: ")).unwrap_or_default(),
            f.name,
            args(&f.args),
            dirs(&f.dirs),
            f.sels.as_ref().map(|s| format!(" {}", sels(s))).unwrap_or_default()
        ),
        Sel::Spread { name, dirs: d } => format!("...{name}{}", dirs(d)),
        Sel::Inline { on, dirs: d, sels: s } => {
            format!("...{}{} {}", on.as_ref().map(|o| format!(" on {o}")).unwrap_or_default(), dirs(d), sels(s))
        }
    }
}
/// a selection without what is inside of it but how much of it there is
pub fn outer(s: &Sel, n: usize) -> String {
    let head = match s {
        Sel::Field(f) => format!("{}{}{}{}", f.alias.as_ref().map(|a| format!("{a}: ")).unwrap_or_default(), f.name, args(&f.args), dirs(&f.dirs)),
        Sel::Spread { .. } => return sel(s),
        Sel::Inline { on, dirs: d, .. } => format!("...{}{}", on.as_ref().map(|o| format!(" on {o}")).unwrap_or_default(), dirs(d)),
    };
    format!("{head} {{{n}}}")
}
pub fn head(s: &Sel) -> String {
    match s {
        Sel::Field(f) => outer(s, f.sels.as_ref().map_or(0, |s| s.len())),
        Sel::Inline { sels, .. } => outer(s, sels.len()),
        _ => outer(s, 0),
    }
}
pub fn op_head(kind: OpKind, name: Option<String>, vars: &[VarDef], ds: &[Dir], n: usize) -> String {
    format!("{} {name:?} {}{} {{{n}}}", kind.kw(), vars.iter().map(|v| var(v) + " ").collect::<String>(), dirs(ds))
}
pub fn var(v: &VarDef) -> String {
    format!("${}: {}{}{}", v.name, v.ty.show(), v.default.as_ref().map(|d| format!(" = {}", val(d))).unwrap_or_default(), dirs(&v.dirs))
}
pub fn op(o: &Op) -> String {
    if o.shorthand {
        return sels(&o.sels);
    }
    let vars = if o.vars.is_empty() {
        String::new()
    } else {
        format!(
            "({})",
            o.vars
                .iter()
                .map(var)
                .collect::<Vec<_>>()
                .join(", ")
        )
    };
    format!("{}{}{}{} {}", o.kind.kw(), o.name.as_ref().map(|n| format!(" {n}")).unwrap_or_default(), vars, dirs(&o.dirs), sels(&o.sels))
}
pub fn frag(f: &Frag) -> String {
    format!("fragment {} on {}{} {}", f.name, f.on, dirs(&f.dirs), sels(&f.sels))
}
pub fn exec(d: &ExecDoc) -> String {
    let mut v: Vec<String> = d.ops.iter().map(op).collect();
    v.extend(d.frags.iter().map(frag));
    v.join("\n")
}

fn desc(d: &Option<String>) -> String {
    d.as_ref().map(|d| format!("{} ", quote(d))).unwrap_or_default()
}
pub fn input_val(a: &InputVal) -> String {
    format!("{}{}: {}{}{}", desc(&a.desc), a.name, a.ty.show(), a.default.as_ref().map(|d| format!(" = {}", val(d))).unwrap_or_default(), dirs(&a.dirs))
}
fn args_def(a: &[InputVal]) -> String {
    if a.is_empty() {
        String::new()
    } else {
        format!("({})", a.iter().map(input_val).collect::<Vec<_>>().join(", "))
    }
}
pub fn field_def(f: &FieldDef) -> String {
    format!("{}{}{}: {}{}", desc(&f.desc), f.name, args_def(&f.args), f.ty.show(), dirs(&f.dirs))
}
fn implements(i: &[String]) -> String {
    if i.is_empty() { String::new() } else { format!(" implements {}", i.join(" & ")) }
}
pub fn type_def(t: &TypeDef) -> String {
    let d = desc(&t.desc);
    let n = &t.name;
    let ds = dirs(&t.dirs);
    match &t.kind {
        Kind::Scalar => format!("{d}scalar {n}{ds}"),
        Kind::Object { implements: i, fields } => {
            format!("{d}type {n}{}{ds} {{ {} }}", implements(i), fields.iter().map(field_def).collect::<Vec<_>>().join(" "))
        }
        Kind::Interface { implements: i, fields } => {
            format!("{d}interface {n}{}{ds} {{ {} }}", implements(i), fields.iter().map(field_def).collect::<Vec<_>>().join(" "))
        }
        Kind::Union { members } => format!("{d}union {n}{ds} = {}", members.join(" | ")),
        Kind::Enum { values } => format!(
            "{d}enum {n}{ds} {{ {} }}",
            values.iter().map(|v| format!("{}{}{}", desc(&v.desc), v.name, dirs(&v.dirs))).collect::<Vec<_>>().join(" ")
        ),
        Kind::Input { fields } => format!("{d}input {n}{ds} {{ {} }}", fields.iter().map(input_val).collect::<Vec<_>>().join(" ")),
    }
}
pub fn dir_def(d: &DirDef) -> String {
    format!(
        "{}directive @{}{}{} on {}",
        desc(&d.desc),
        d.name,
        args_def(&d.args),
        if d.repeatable { " repeatable" } else { "" },
        d.locs.join(" | ")
    )
}
pub fn schema_def(s: &SchemaDef) -> String {
    format!("{}schema{} {{ {} }}", desc(&s.desc), dirs(&s.dirs), s.roots.iter().map(|(k, n)| format!("{}: {n}", k.kw())).collect::<Vec<_>>().join(" "))
}
pub fn sdl(d: &SdlDoc) -> String {
    let mut v: Vec<String> = d.schemas.iter().map(schema_def).collect();
    v.extend(d.types.iter().map(type_def));
    v.extend(d.dirdefs.iter().map(dir_def));
    v.join("\n")
}
