//! C05: which schema documents define a schema, and what that schema answers.
use crate::conv;
use crate::engine::{Ch, Report, Run};
use crate::gen;
use crate::r::ast::{self, *};
use crate::r::parse;
use crate::r::schema::Schema;
use bluejay_core::definition::prelude::*;
use bluejay_parser::ast::definition::{DefinitionDocument, SchemaDefinition};
use bluejay_parser::ast::Parse;
use std::collections::BTreeSet;

fn meta(s: &Schema, owner: &str) -> Vec<FieldDef> {
    ["__typename", "__schema", "__type"].iter().filter_map(|n| s.field(owner, n)).cloned().collect()
}

/// Everything the schema must answer, in the shape `conv::view_all` reads it.
pub fn expected(s: &Schema) -> conv::View {
    let mut types: Vec<TypeDef> = s.types.values().cloned().collect();
    for t in &mut types {
        let m = meta(s, &t.name);
        if let Kind::Object { fields, .. } | Kind::Interface { fields, .. } = &mut t.kind {
            fields.extend(m)
        }
    }
    let sd = s.doc.schemas.first();
    conv::View {
        desc: sd.and_then(|d| d.desc.clone()),
        dirs: sd.map(|d| d.dirs.clone()).unwrap_or_default(),
        query: s.query.clone(),
        mutation: s.mutation.clone(),
        subscription: s.subscription.clone(),
        types,
        dirdefs: s.dirs.values().cloned().collect(),
    }
}
/// What built-in definitions say about themselves is not pinned down: descriptions go, the order of built-in fields too.
pub fn normalise(mut v: conv::View) -> conv::View {
    for t in &mut v.types {
        let builtin = t.name.starts_with("__");
        if builtin {
            t.desc = None
        }
        match &mut t.kind {
            Kind::Object { fields, .. } | Kind::Interface { fields, .. } => {
                for f in fields.iter_mut() {
                    if builtin || f.name.starts_with("__") {
                        f.desc = None;
                        f.args.iter_mut().for_each(|a| a.desc = None);
                    }
                }
                fields.sort_by_key(|f| f.name.starts_with("__").then(|| f.name.clone()));
                if builtin {
                    fields.sort_by(|a, b| a.name.cmp(&b.name))
                }
            }
            Kind::Enum { values } if builtin => {
                values.iter_mut().for_each(|v| v.desc = None);
                values.sort_by(|a, b| a.name.cmp(&b.name))
            }
            _ => {}
        }
    }
    for d in &mut v.dirdefs {
        if ["skip", "include", "deprecated", "specifiedBy", "oneOf"].contains(&d.name.as_str()) {
            d.desc = None;
            d.args.iter_mut().for_each(|a| a.desc = None);
            d.locs.sort();
        }
    }
    v
}

pub fn build_case(r: &mut Run, text: &str) {
    if !r.case(text) {
        return;
    }
    let Some(doc) = parse::sdl(text) else { panic!("harness: not a schema document: {text}") };
    let want = Schema::build(&doc);
    let bdoc: DefinitionDocument = match DefinitionDocument::parse(text) {
        Ok(d) => d,
        Err(e) => {
            r.fail(format!("a grammatical document is rejected: {e:?}"));
            return;
        }
    };
    match (SchemaDefinition::try_from(&bdoc), &want) {
        (Err(e), Ok(_)) => r.fail(format!("rejected although every name resolves: {:?}", bluejay_parser::Error::into_graphql_errors(text, e).iter().map(|g| g.message.to_string()).collect::<Vec<_>>())),
        (Ok(_), Err(e)) => r.fail(format!("accepted although {e:?}")),
        (Err(e), Err(w)) => {
            r.check(!e.is_empty(), || "rejected without an error".into());
            for x in w {
                r.outcome(x.split(' ').filter(|w| w.chars().all(|c| c.is_ascii_lowercase())).collect::<Vec<_>>().join(" "));
            }
        }
        (Ok(s), Ok(w)) => {
            r.outcome("built");
            let mut pr = vec![];
            let got = normalise(conv::view_all(&s, &mut pr));
            let exp = normalise(expected(w));
            if got != exp {
                let mut said = false;
                for (a, b) in exp.types.iter().zip(&got.types) {
                    if a != b && !said {
                        said = true;
                        r.agree("type", a, b);
                    }
                }
                for (a, b) in exp.dirdefs.iter().zip(&got.dirdefs) {
                    if a != b && !said {
                        said = true;
                        r.agree("directive", a, b);
                    }
                }
                if !said {
                    r.agree("schema", &exp, &got)
                }
            }
            r.compared += 1;
            r.check(pr.is_empty(), || format!("{pr:?}"));
            for t in w.types.values() {
                if let Kind::Interface { .. } = t.kind {
                    let got = conv::implementors(&s, &t.name).unwrap_or_default();
                    r.agree(&format!("implementors of {}", t.name), &w.implementors(&t.name), &got.iter().cloned().collect::<BTreeSet<_>>());
                }
                if let Some(bt) = s.get_type_definition(&t.name) {
                    let b = crate::r::schema::BUILTIN_SCALARS.contains(&t.name.as_str()) && !doc.types.iter().any(|u| u.name == t.name);
                    r.agree(&format!("is_builtin of {}", t.name), &(b || t.name.starts_with("__") && t.name != "__Custom"), &bt.is_builtin());
                    r.agree(&format!("is_input of {}", t.name), &w.input(&t.name), &bt.is_input());
                    r.agree(&format!("is_composite of {}", t.name), &w.composite(&t.name), &bt.is_composite());
                }
            }
            for n in ["", "nope", "int", "query", "__type", "Query2", "[Int]", "Int!"] {
                if !w.types.contains_key(n) {
                    r.check(s.get_type_definition(n).is_none(), || format!("there is a type {n:?}"));
                }
                if !w.dirs.contains_key(n) {
                    r.check(s.get_directive_definition(n).is_none(), || format!("there is a directive {n:?}"));
                }
            }
        }
    }
}

const NAMES: [&str; 15] = ["Obj", "Obj2", "Iface", "Iface2", "Uni", "Enu", "Inp", "Scal", "Int", "ID", "Nope", "__Type", "__TypeKind", "obj", "Query"];

fn wrap(c: &mut Ch, n: &str) -> String {
    c.dev_str(&["{}", "{}!", "[{}]", "[{}!]!", "[[{}]!]"]).replace("{}", n)
}
fn named(c: &mut Ch, default: &str) -> String {
    let mut v = vec![default];
    v.extend(NAMES.iter().filter(|n| **n != default));
    let n = c.dev_str(&v).to_string();
    wrap(c, &n)
}
fn bare(c: &mut Ch, default: &str) -> String {
    let mut v = vec![default];
    v.extend(NAMES.iter().filter(|n| **n != default));
    c.dev_str(&v).to_string()
}
fn dir(c: &mut Ch) -> &'static str {
    c.dev_str(&["", "@d", "@nope", "@deprecated", "@d @nope", "@D", "@skip(if:true)", "@oneOf", "@specifiedBy(url:\"u\")"])
}
/// Every reference a schema document can make; each can be changed to any name.
fn references(c: &mut Ch) -> String {
    let mut s = String::new();
    s += &format!("schema {}{{query:{} mutation:{} subscription:{}}} ", dir(c), bare(c, "Query"), bare(c, "Obj"), bare(c, "Obj2"));
    s += &format!("directive@d(x:{} {} y:{})repeatable on OBJECT ", named(c, "Int"), dir(c), named(c, "Inp"));
    s += &format!("type Query {}{{a(p:{} {} q:{}):{} {} b:{}}} ", dir(c), named(c, "Int"), dir(c), named(c, "Inp"), named(c, "Obj"), dir(c), named(c, "Uni"));
    s += &format!("type Obj implements {}&{} {}{{a:{} e:{}}} type Obj2{{a:Int}} ", bare(c, "Iface"), bare(c, "Iface2"), dir(c), named(c, "Iface"), named(c, "Enu"));
    s += &format!("interface Iface implements {} {}{{a(p:{}):{} {}}} interface Iface2{{a:{}}} ", bare(c, "Iface2"), dir(c), named(c, "Enu"), named(c, "Scal"), dir(c), named(c, "Iface"));
    s += &format!("union Uni {}={}|{} ", dir(c), bare(c, "Obj"), bare(c, "Obj2"));
    s += &format!("enum Enu {}{{A {} B}} scalar Scal {} ", dir(c), dir(c), dir(c));
    s += &format!("input Inp {}{{a:{} {} b:{}}} ", dir(c), named(c, "Int"), dir(c), named(c, "Inp"));
    s
}

const DEFS: [&str; 46] = [
    "type Query{a:Int}", "type Mutation{a:Int}", "type Subscription{a:Int}", "scalar Query", "interface Mutation{a:Int}", "enum Subscription{A}", "union Query=A", "input Mutation{a:Int}", "type A{a:Int}", "interface A{a:Int}",
    "input A{a:A}", "enum A{B}", "scalar A", "union A=B", "type B{a:A}", "type B implements A{a:Int}", "input B{a:A}", "union B=A", "scalar Int", "enum Int{A}", "type String{a:String}", "input ID{a:Int}", "type __Type{a:Int}",
    "scalar __TypeKind", "scalar __Schema", "directive@skip(if:Boolean!)on FIELD", "directive@skip on OBJECT", "directive@deprecated(r:Int)on OBJECT", "directive@d on OBJECT", "directive@d(a:A)on FIELD", "directive@oneOf on INPUT_OBJECT",
    "directive@specifiedBy(x:B)on SCALAR", "directive@include repeatable on FIELD", "type C@d{a:Int}", "type C@skip(if:true){a:Int}", "type C@deprecated{a:Int}", "schema{query:Query}", "schema{query:A}", "schema{mutation:A}",
    "schema{query:A query:A}", "schema{query:A mutation:B subscription:A}", "schema@d{query:B}", "schema{query:Int}", "schema{query:__Type}", "schema@deprecated{query:Query mutation:Query}", "\"x\"schema{subscription:Subscription query:Query}",
];

pub fn c05(rep: &mut Report) {
    let th = rep.thorough();
    rep.explore("many", 0, |c, r| {
        let t = super::scale::schemas(c, th).1;
        if parse::sdl(&t).is_none() {
            return r.skip();
        }
        build_case(r, &t)
    });
    let th = rep.thorough();
    let b = rep.b(2, 3);
    rep.explore("references", b, |c, r| {
        let s = references(c);
        build_case(r, &s)
    });
    let n = if th { 4 } else { 3 };
    rep.explore("definition-sequences", 0, |c, r| {
        let mut s = String::new();
        for _ in 0..n {
            let k = c.pick(DEFS.len() + 1);
            if k == 0 {
                break;
            }
            s += DEFS[k - 1];
            s.push(' ');
        }
        if s.is_empty() {
            r.skip();
            return;
        }
        build_case(r, s.trim_end())
    });
    rep.explore("root-types", 0, |c, r| {
        // which kinds carry the default names, and which roots a schema definition names
        let kinds = ["", "type {}{a:Int}", "interface {}{a:Int}", "scalar {}", "enum {}{A}", "input {}{a:Int}", "union {}=Z"];
        let mut s = String::from("type Z{a:Int} ");
        for n in ["Query", "Mutation", "Subscription"] {
            s += &c.pick_str(&kinds).replace("{}", n);
            s.push(' ');
        }
        if c.flip() {
            s += c.pick_str(&["schema", "schema@skip(if:true)", "\"d\"schema"]);
            s.push('{');
            let n = 1 + c.pick(if th { 4 } else { 3 });
            for _ in 0..n {
                s += c.pick_str(&["query", "mutation", "subscription"]);
                s.push(':');
                s += c.pick_str(&["Query", "Z", "Nope"]);
                s.push(' ');
            }
            s.push('}');
        }
        build_case(r, s.trim_end())
    });
    rep.explore("implementors", 0, |c, r| {
        let all = ["I", "J", "K"];
        let mut s = String::from("type Query{q:Int} ");
        let mut imp = |c: &mut Ch, kw: &str, n: &str, among: &[&str]| {
            let on: Vec<&str> = among.iter().copied().filter(|_| c.flip()).collect();
            s += &format!("{kw} {n}{}{}{{x:Int}} ", if on.is_empty() { "" } else { " implements " }, on.join("&"));
        };
        imp(c, "interface", "I", &["J", "K"]);
        imp(c, "interface", "J", &["I", "K"]);
        imp(c, "interface", "K", &[]);
        for n in ["A", "B", "C"] {
            imp(c, "type", n, &all);
        }
        if c.flip() {
            s += "union U=A|B|C";
        }
        build_case(r, s.trim_end())
    });
    rep.explore("wrapped-references", 0, |c, r| {
        let w = c.pick_str(&["{}", "{}!", "[{}]", "[{}]!", "[{}!]", "[{}!]!", "[[{}]]", "[[{}!]!]!", "[[[{}]!]]"]);
        let t = w.replace("{}", c.pick_str(&NAMES));
        let d = if c.flip() { "=null" } else { "" };
        let s = match c.pick(6) {
            0 => format!("type Query{{a:{t}}}"),
            1 => format!("type Query{{a(x:{t}{d}):Int}}"),
            2 => format!("type Query{{a:Int}} interface X{{a:{t}}}"),
            3 => format!("type Query{{a:Int}} interface X{{a(y:Int x:{t}{d}):Int}}"),
            4 => format!("type Query{{a:Int}} input X{{a:{t}{d}}}"),
            _ => format!("type Query{{a:Int}} directive@x(a:{t}{d})on FIELD"),
        };
        let rest = "type Obj{a:Int} type Obj2{a:Int} interface Iface{a:Int} interface Iface2{a:Int} union Uni=Obj enum Enu{A} input Inp{a:Int} scalar Scal";
        build_case(r, &format!("{s} {rest}"))
    });
    let b = rep.b(1, 2);
    rep.explore("rich-schemas", b, |c, r| {
        let d = gen::sdl_doc(c);
        let mut s = ast::sdl(&d);
        if c.dev_flip() {
            s += " type __Custom{a:Int}";
        }
        build_case(r, &s)
    });
}
