//! Drivers that build syntax trees out of choices: a rich default tree in which every optional part is a deviation.
use crate::engine::Ch;
use crate::r::ast::*;

pub fn s(x: &str) -> String {
    x.to_string()
}
pub fn n(x: &str) -> Ty {
    Ty::Named(s(x), false)
}
pub fn nn(x: &str) -> Ty {
    Ty::Named(s(x), true)
}
pub fn l(t: Ty) -> Ty {
    Ty::List(Box::new(t), false)
}
pub fn ln(t: Ty) -> Ty {
    Ty::List(Box::new(t), true)
}

pub const TEXTS: [&str; 27] = [
    "plain", "", " ", " leading", "trailing ", "two\nlines", "two\n  lines\n", "\n", "\nx", "x\n", "a\n\nb", "  both\n  indented", "quote \" in", "\"", "three \"\"\" quotes", "\"\"\"", "ends with quote\"",
    "back\\slash", "ends with \\", "\\\"\"\"", "tab\tx", "cr\rx", "cr\r\nlf", "nul\u{0}\u{7}", "é🔥\u{feff}", "\ttab lead", "#not a comment {",
];

pub fn tricky_values(konst: bool) -> Vec<Val> {
    let mut v = vec![
        Val::Int(0),
        Val::Int(-1),
        Val::Int(i32::MAX),
        Val::Int(i32::MIN),
        Val::Float(0.0),
        Val::Float(-0.0),
        Val::Float(1.5),
        Val::Float(1e-11),
        Val::Float(3.00000000001),
        Val::Float(1e21),
        Val::Float(1e300),
        Val::Float(5e-324),
        Val::Float(-123456789.123456789),
        Val::Float(f64::MAX),
        Val::Float(f64::MIN_POSITIVE),
        Val::Float(0.1),
        Val::Float(100.0),
        Val::Bool(true),
        Val::Bool(false),
        Val::Null,
        Val::Enum(s("RED")),
        Val::Enum(s("on")),
        Val::Enum(s("query")),
        Val::List(vec![]),
        Val::List(vec![Val::Int(1), Val::Int(2)]),
        Val::List(vec![Val::List(vec![Val::Null]), Val::List(vec![])]),
        Val::Obj(vec![]),
        Val::Obj(vec![(s("a"), Val::Int(1)), (s("on"), Val::Str(s("x")))]),
        Val::Obj(vec![(s("b"), Val::Obj(vec![(s("c"), Val::List(vec![Val::Obj(vec![])]))])), (s("b"), Val::Bool(false))]),
        Val::List(vec![Val::Str(s("a")), Val::Str(s("b\"")), Val::Float(2.0)]),
    ];
    v.extend(TEXTS.iter().map(|t| Val::Str(s(t))));
    if !konst {
        v.push(Val::Var(s("v")));
        v.push(Val::List(vec![Val::Var(s("v")), Val::Int(1)]));
        v.push(Val::Obj(vec![(s("k"), Val::Var(s("query")))]));
    }
    v
}

fn dir_slot(c: &mut Ch, konst: bool) -> Vec<Dir> {
    let d = |name: &str, args: Args| Dir { name: s(name), args };
    match c.dev(if konst { 5 } else { 6 }) {
        0 => vec![],
        1 => vec![d("d", vec![])],
        2 => vec![d("d", vec![(s("a"), Val::Int(1)), (s("b"), Val::Str(s("x\"y")))])],
        3 => vec![d("d", vec![]), d("e", vec![(s("l"), Val::List(vec![Val::Null, Val::Enum(s("A"))]))]), d("d", vec![])],
        4 => vec![d("on", vec![(s("if"), Val::Bool(true))])],
        _ => vec![d("include", vec![(s("if"), Val::Var(s("v")))])],
    }
}

fn ty_slot(c: &mut Ch, base: &str) -> Ty {
    match c.dev(8) {
        0 => n(base),
        1 => nn(base),
        2 => l(n(base)),
        3 => l(nn(base)),
        4 => ln(n(base)),
        5 => ln(nn(base)),
        6 => l(l(n(base))),
        _ => ln(ln(nn(base))),
    }
}

fn args_slot(c: &mut Ch) -> Args {
    let vals = tricky_values(false);
    match c.dev(3 + vals.len()) {
        0 => vec![],
        1 => vec![(s("x"), Val::Int(1)), (s("y"), Val::Var(s("v")))],
        2 => vec![(s("query"), Val::Enum(s("true_"))), (s("on"), Val::Null), (s("x"), Val::Bool(true))],
        i => vec![(s("x"), vals[i - 3].clone())],
    }
}

fn fld(c: &mut Ch, name: &str, sels: Option<Vec<Sel>>) -> Sel {
    let alias = match c.dev(3) {
        0 => None,
        1 => Some(s("al")),
        _ => Some(s("fragment")),
    };
    let name = c.dev_str(&[name, "on", "query", "null", "true", "__typename"]);
    Sel::Field(Fld { alias, name: s(name), args: args_slot(c), dirs: dir_slot(c, false), sels })
}

/// An executable document, not tied to any schema.
pub fn exec_doc(c: &mut Ch) -> ExecDoc {
    let mut inner = vec![fld(c, "c", None)];
    match c.dev(5) {
        0 => {}
        1 => inner.push(Sel::Spread { name: s("F"), dirs: dir_slot(c, false) }),
        2 => inner.push(Sel::Inline { on: None, dirs: dir_slot(c, false), sels: vec![fld(c, "z", None)] }),
        3 => inner.insert(0, Sel::Inline { on: Some(s("T")), dirs: vec![], sels: vec![Sel::Spread { name: s("onx"), dirs: vec![] }] }),
        _ => inner.push(fld(c, "deep", Some(vec![Sel::Field(Fld { alias: None, name: s("er"), args: vec![], dirs: vec![], sels: None })]))),
    }
    let mut sels = vec![fld(c, "a", None), fld(c, "b", Some(inner))];
    sels.push(Sel::Spread { name: s(c.dev_str(&["F", "fragment", "true", "null"])), dirs: dir_slot(c, false) });
    let on = match c.dev(3) {
        0 => Some(s("T")),
        1 => None,
        _ => Some(s("on")),
    };
    sels.push(Sel::Inline { on, dirs: dir_slot(c, false), sels: vec![fld(c, "i", None)] });
    let kind = *c.dev_of(&[OpKind::Query, OpKind::Mutation, OpKind::Subscription]);
    let name = match c.dev(4) {
        0 => Some(s("Q")),
        1 => None,
        2 => Some(s("query")),
        _ => Some(s("on")),
    };
    let vals = tricky_values(true);
    let mut vars = vec![];
    for i in 0..2 {
        let default = match c.dev(1 + vals.len()) {
            0 => None,
            k => Some(vals[k - 1].clone()),
        };
        vars.push(VarDef { name: s(["v", "query"][i]), ty: ty_slot(c, ["Int", "on"][i]), default, dirs: dir_slot(c, true) });
    }
    vars.truncate([2, 1, 0][c.dev(3)]);
    let mut ops = vec![Op { kind, shorthand: false, name, vars, dirs: dir_slot(c, false), sels }];
    match c.dev(4) {
        0 => {}
        1 => ops.push(Op { kind: OpKind::Query, shorthand: true, name: None, vars: vec![], dirs: vec![], sels: vec![fld(c, "x", None)] }),
        2 => ops.insert(0, Op { kind: OpKind::Mutation, shorthand: false, name: Some(s("M")), vars: vec![], dirs: dir_slot(c, false), sels: vec![fld(c, "x", None)] }),
        _ => ops.clear(),
    }
    let mut frags = vec![Frag { name: s(c.dev_str(&["F", "fragment", "query", "null"])), on: s(c.dev_str(&["T", "on"])), dirs: dir_slot(c, false), sels: vec![fld(c, "f", None)] }];
    match c.dev(3) {
        0 => {}
        1 => frags.push(Frag { name: s("G"), on: s("U"), dirs: dir_slot(c, false), sels: vec![Sel::Spread { name: s("F"), dirs: vec![] }] }),
        _ => {
            if !ops.is_empty() {
                frags.clear()
            }
        }
    }
    ExecDoc { ops, frags }
}

fn desc_slot(c: &mut Ch) -> Option<String> {
    match c.dev(1 + TEXTS.len()) {
        0 => None,
        k => Some(s(TEXTS[k - 1])),
    }
}
fn sdir_slot(c: &mut Ch, deprecatable: bool) -> Vec<Dir> {
    let d = |name: &str, args: Args| Dir { name: s(name), args };
    let k = c.dev(if deprecatable { 6 } else { 4 });
    match k {
        0 => vec![],
        1 => vec![d("d", vec![])],
        2 => vec![d("d", vec![(s("a"), Val::Int(1)), (s("b"), Val::Str(s("x\"y\n")))])],
        3 => vec![d("rep", vec![(s("l"), Val::List(vec![Val::Int(1), Val::Null]))]), d("rep", vec![])],
        4 => vec![d("deprecated", vec![])],
        _ => vec![d("deprecated", vec![(s("reason"), Val::Str(s("no\nlonger")))])],
    }
}
pub fn input_val(c: &mut Ch, name: &str, base: &str, default: Option<Val>) -> InputVal {
    InputVal { desc: desc_slot(c), name: s(name), ty: ty_slot(c, base), default, dirs: sdir_slot(c, true) }
}
fn default_slot(c: &mut Ch) -> Option<Val> {
    let vals = tricky_values(true);
    match c.dev(1 + vals.len()) {
        0 => None,
        k => Some(vals[k - 1].clone()),
    }
}
fn field(c: &mut Ch, name: &str, base: &str, args: Vec<InputVal>) -> FieldDef {
    FieldDef { desc: desc_slot(c), name: s(name), args, ty: ty_slot(c, base), dirs: sdir_slot(c, true) }
}
fn plain_field(name: &str, ty: Ty) -> FieldDef {
    FieldDef { desc: None, name: s(name), args: vec![], ty, dirs: vec![] }
}
pub fn iv(name: &str, ty: Ty, default: Option<Val>) -> InputVal {
    InputVal { desc: None, name: s(name), ty, default, dirs: vec![] }
}

/// A schema document in which every reference resolves. Every optional part is a deviation.
pub fn sdl_doc(c: &mut Ch) -> SdlDoc {
    let mut d = SdlDoc::default();
    let (qn, mn, sn) = match c.dev(4) {
        0 => ("Query", "Mutation", "Subscription"),
        1 => ("RootQ", "RootM", "RootS"),
        2 => ("Mutation", "Query", "Subscription"),
        _ => ("type", "Mutation", "Subscription"),
    };
    let has_m = c.dev(3); // 0: defined and a root; 1: no such type; 2: defined, but not a root
    let has_s = c.dev(3);
    let explicit = c.dev(3); // 0: explicit; 1: explicit with extras; 2: left implicit if the names allow
    let mut roots = vec![(OpKind::Query, s(qn))];
    if has_m == 0 {
        roots.push((OpKind::Mutation, s(mn)));
    }
    if has_s == 0 {
        roots.push((OpKind::Subscription, s(sn)));
    }
    if c.dev_flip() {
        roots.reverse();
    }
    let implicit_ok = qn == "Query" && mn == "Mutation" && has_m != 2 && has_s != 2;
    if !(explicit == 2 && implicit_ok) {
        let (desc, dirs) = if explicit == 1 { (desc_slot(c).or(Some(s("schema"))), sdir_slot(c, false)) } else { (desc_slot(c), sdir_slot(c, false)) };
        d.schemas.push(SchemaDef { desc, dirs, roots });
    }
    // query
    let arg_x = { let df = default_slot(c); input_val(c, "x", "Int", df) };
    let arg_y = { let df = default_slot(c); input_val(c, "y", "In", df) };
    let mut args = vec![arg_x, arg_y];
    args.truncate([2, 1, 0][c.dev(3)]);
    let mut qf = vec![
        field(c, "a", "Int", vec![]),
        field(c, "b", "String", args),
        plain_field("n", n("Node")),
        plain_field("u", n("U")),
        plain_field("e", n("E")),
        plain_field("s", n("Date")),
        plain_field("o", n("Obj")),
    ];
    if c.dev_flip() {
        qf.push(plain_field("type", nn("ID")));
    }
    d.types.push(TypeDef { desc: desc_slot(c), name: s(qn), dirs: sdir_slot(c, false), kind: Kind::Object { implements: vec![], fields: qf } });
    if has_m != 1 {
        d.types.push(TypeDef { desc: None, name: s(mn), dirs: vec![], kind: Kind::Object { implements: vec![], fields: vec![plain_field("m", n("Boolean"))] } });
    }
    if has_s != 1 {
        d.types.push(TypeDef { desc: None, name: s(sn), dirs: vec![], kind: Kind::Object { implements: vec![], fields: vec![plain_field("m", n("Float"))] } });
    }
    // interfaces and objects
    let node_fields = vec![field(c, "id", "ID", vec![]), plain_field("node", n("Node"))];
    let node_impl: Vec<String> = if c.dev_flip() { vec![s("Base")] } else { vec![] };
    d.types.push(TypeDef { desc: desc_slot(c), name: s("Node"), dirs: sdir_slot(c, false), kind: Kind::Interface { implements: node_impl, fields: node_fields } });
    d.types.push(TypeDef { desc: None, name: s("Base"), dirs: vec![], kind: Kind::Interface { implements: vec![], fields: vec![plain_field("id", n("ID"))] } });
    let imp: Vec<String> = match c.dev(4) {
        0 => vec![s("Node")],
        1 => vec![],
        2 => vec![s("Node"), s("Base")],
        _ => vec![s("Base")],
    };
    d.types.push(TypeDef {
        desc: desc_slot(c),
        name: s("Obj"),
        dirs: sdir_slot(c, false),
        kind: Kind::Object { implements: imp, fields: vec![plain_field("id", n("ID")), field(c, "node", "Node", vec![]), plain_field("self", l(nn("Obj")))] },
    });
    d.types.push(TypeDef { desc: None, name: s("Obj2"), dirs: vec![], kind: Kind::Object { implements: vec![s("Base")], fields: vec![plain_field("id", n("ID"))] } });
    let members: Vec<String> = match c.dev(3) {
        0 => vec![s("Obj"), s("Obj2")],
        1 => vec![s("Obj2")],
        _ => vec![s("Obj2"), s("Obj")],
    };
    d.types.push(TypeDef { desc: desc_slot(c), name: s("U"), dirs: sdir_slot(c, false), kind: Kind::Union { members } });
    let mut values = vec![EnumVal { desc: desc_slot(c), name: s("A"), dirs: sdir_slot(c, true) }, EnumVal { desc: None, name: s("B"), dirs: vec![] }];
    match c.dev(3) {
        0 => {}
        1 => values.truncate(1),
        _ => values.insert(1, EnumVal { desc: desc_slot(c), name: s("enum"), dirs: sdir_slot(c, true) }),
    }
    d.types.push(TypeDef { desc: desc_slot(c), name: s("E"), dirs: sdir_slot(c, false), kind: Kind::Enum { values } });
    let f1 = { let df = default_slot(c); input_val(c, "f", "Int", df) };
    let mut inf = vec![f1, iv("g", l(nn("In")), None), iv("e", n("E"), Some(Val::Enum(s("A"))))];
    inf.truncate([3, 1][c.dev(2)]);
    d.types.push(TypeDef { desc: desc_slot(c), name: s("In"), dirs: sdir_slot(c, false), kind: Kind::Input { fields: inf } });
    let sd = match c.dev(3) {
        0 => sdir_slot(c, false),
        1 => vec![Dir { name: s("specifiedBy"), args: vec![(s("url"), Val::Str(s("https://x/y#z")))] }],
        _ => vec![],
    };
    d.types.push(TypeDef { desc: desc_slot(c), name: s("Date"), dirs: sd, kind: Kind::Scalar });
    // directives
    let locs: Vec<String> = match c.dev(3) {
        0 => crate::r::parse::LOCATIONS.iter().map(|x| s(x)).collect(),
        1 => vec![s("FIELD")],
        _ => vec![s("OBJECT"), s("QUERY")],
    };
    let da = { let df = default_slot(c); input_val_nodep(c, "a", "Int", df) };
    d.dirdefs.push(DirDef { desc: desc_slot(c), name: s("d"), args: vec![da, iv("b", n("String"), None)], repeatable: c.dev_flip(), locs });
    d.dirdefs.push(DirDef { desc: None, name: s("rep"), args: vec![iv("l", l(n("Int")), None)], repeatable: true, locs: crate::r::parse::LOCATIONS.iter().map(|x| s(x)).collect() });
    if c.dev_flip() {
        d.types.reverse();
    }
    d
}
fn input_val_nodep(c: &mut Ch, name: &str, base: &str, default: Option<Val>) -> InputVal {
    InputVal { desc: desc_slot(c), name: s(name), ty: ty_slot(c, base), default, dirs: vec![] }
}
