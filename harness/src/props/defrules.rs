//! C28: the rules schemas are validated with.
use crate::engine::{Ch, Report, Run};
use crate::r::ast::*;
use crate::r::parse;
use bluejay_core::definition::{InputObjectTypeDefinition as _, InputType as _};
use bluejay_parser::ast::definition::{DefinitionDocument, SchemaDefinition};
use bluejay_parser::ast::Parse;
use bluejay_validator::definition::{BuiltinRulesValidator, Error};
use std::collections::{BTreeMap, BTreeSet};

/// what the rules must report, from the definitions alone
fn reference(d: &SdlDoc) -> Vec<String> {
    let mut out = vec![];
    let mut edges: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
    let mut dup = |what: &str, names: Vec<&String>| {
        let mut n: BTreeMap<&String, usize> = BTreeMap::new();
        for x in names {
            *n.entry(x).or_default() += 1
        }
        for (k, c) in n {
            if c > 1 {
                out.push(format!("{what} {k} x{c}"))
            }
        }
    };
    let mut inputs = vec![];
    for t in &d.types {
        match &t.kind {
            Kind::Enum { values, .. } => dup("value", values.iter().map(|v| &v.name).collect()),
            Kind::Input { fields, .. } => {
                dup("field", fields.iter().map(|f| &f.name).collect());
                inputs.push(&t.name);
                for f in fields {
                    if let Ty::Named(n, true) = &f.ty {
                        edges.entry(&t.name).or_default().insert(n);
                    }
                }
            }
            _ => {}
        }
    }
    for t in inputs {
        // every type reached from t by at least one edge
        let mut seen: BTreeSet<&str> = BTreeSet::new();
        let mut todo: Vec<&str> = vec![t];
        while let Some(x) = todo.pop() {
            for &y in edges.get(x).into_iter().flatten() {
                if seen.insert(y) {
                    todo.push(y)
                }
            }
        }
        if seen.contains(t.as_str()) {
            out.push(format!("infinite {t}"))
        }
    }
    out.sort();
    out
}

fn check(r: &mut Run, text: &str) {
    if !r.case(text) {
        return;
    }
    let Some(want) = parse::sdl(text) else { panic!("harness: not a schema document: {text}") };
    let want = reference(&want);
    let doc: DefinitionDocument = match DefinitionDocument::parse(text) {
        Ok(d) => d,
        Err(_) => return r.fail("rejected by the parser"),
    };
    let s = match SchemaDefinition::try_from(&doc) {
        Ok(s) => s,
        Err(_) => return r.fail("rejected when the schema is built"),
    };
    if want.is_empty() {
        r.outcome("nothing to report")
    }
    for w in &want {
        r.outcome(w.split(' ').next().unwrap())
    }
    let show = |e: &Error<'_, SchemaDefinition>| match e {
        Error::NonUniqueInputValueDefinitionNames { name, input_value_definitions: v } => format!("field {name} x{}", v.len()),
        Error::NonUniqueEnumValueDefinitionNames { name, enum_value_definitions: v } => format!("value {name} x{}", v.len()),
        Error::InputObjectTypeDefinitionCircularReferences { input_object_type_definition: t, circular_references: c } => {
            let n = t.name();
            if c.is_empty() || c.iter().any(|c| c.display_name() != format!("{n}!")) {
                format!("infinite {n}, but with {} references", c.len())
            } else {
                format!("infinite {n}")
            }
        }
    };
    let errors: Vec<_> = BuiltinRulesValidator::validate(&s).collect();
    let mut got: Vec<String> = errors.iter().map(show).collect();
    got.sort();
    r.agree("errors", &want, &got);
    let n = got.len();
    let shown = bluejay_parser::error::Error::into_graphql_errors(text, errors);
    r.check(shown.len() >= n && shown.iter().all(|e| !e.message.is_empty() && !e.locations.is_empty()), || format!("{n} errors were converted to {}", shown.len()));
    let again = BuiltinRulesValidator::validate(&s).count();
    r.check(again == n, || format!("{n} errors, and {again} when validated again"));
}

const W: [&str; 8] = ["@", "@!", "[@]", "[@!]", "[@]!", "[@!]!", "[[@!]!]!", "@!={}"];
fn graph(n: usize, edge: &dyn Fn(usize, usize) -> String, order: &[usize]) -> String {
    let mut t = String::from("type Query{a:Int}");
    for &i in order {
        let name = |k: usize| ["A", "B", "C", "D", "E", "F"][k];
        t.push_str(&format!("input {}{{z:Int!", name(i)));
        for j in 0..n {
            let e = edge(i, j);
            if !e.is_empty() {
                t.push_str(&format!(" {}:{}", ["a", "b", "c", "d", "e", "f"][j], e.replace('@', name(j))))
            }
        }
        t.push('}')
    }
    t
}

pub fn c28(rep: &mut Report) {
    let th = rep.thorough();
    rep.explore("many", 0, |c, r| {
        let t = super::scale::schemas(c, th).1;
        match parse::sdl(&t).map(|d| crate::r::schema::Schema::build(&d).is_ok()) {
            Some(true) => check(r, &t),
            _ => r.skip(),
        }
    });
    let th = rep.thorough();
    rep.explore("three-types", 0, |c, r| {
        let e: Vec<&str> = (0..9).map(|_| c.pick_str(if th { &["", "@!", "@", "[@!]!"] } else { &["", "@!", "[@!]!"] })).collect();
        check(r, &graph(3, &|i, j| e[3 * i + j].into(), &[0, 1, 2]))
    });
    rep.explore("two-types", 0, |c, r| {
        let e: Vec<&str> = (0..4).map(|_| if c.flip() { c.pick_str(&W) } else { "" }).collect();
        let o = if c.flip() { [0, 1] } else { [1, 0] };
        check(r, &graph(2, &|i, j| e[2 * i + j].into(), &o))
    });
    rep.explore("four-types", 0, |c, r| {
        let e: Vec<bool> = (0..16).map(|_| c.flip()).collect();
        let o = if !th { [0, 1, 2, 3] } else { *c.pick_of(&[[0, 1, 2, 3], [3, 1, 0, 2], [2, 3, 1, 0]]) };
        check(r, &graph(4, &|i, j| if e[4 * i + j] { "@!".into() } else { String::new() }, &o))
    });
    // sparse graphs of more types
    let n = if th { 6 } else { 5 };
    let k = if th { 6 } else { 5 };
    rep.explore("sparse", 0, move |c, r| {
        let mut e = vec![false; n * n];
        let mut at = 0;
        for _ in 0..k {
            // the next edge lies after the previous one
            let rest = n * n - at;
            let p = c.pick(rest + 1);
            if p == rest {
                break;
            }
            e[at + p] = true;
            at += p + 1;
        }
        check(r, &graph(n, &|i, j| if e[n * i + j] { "@!".into() } else { String::new() }, &(0..n).collect::<Vec<_>>()))
    });
    // rings and complete graphs of every size
    rep.explore("rings", 0, |c, r| {
        let n = c.pick(60) + 1;
        let shape = c.pick(4);
        let brk = c.pick(n + 1);
        let w = c.pick_str(&["@", "[@!]!", ""]);
        let mut t = String::from("type Query{a:Int}");
        for i in 0..n {
            let f = |j: usize, open: bool| format!(" f{j}:{}", (if open { if w.is_empty() { "Int" } else { w } } else { "@!" }).replace('@', &format!("T{j}")));
            t.push_str(&format!("input T{i}{{"));
            match shape {
                0 => t.push_str(&f((i + 1) % n, i == brk)),
                1 => (0..n.min(14)).for_each(|j| t.push_str(&f(j, j == brk || i == brk))),
                2 => t.push_str(&f(i + 1 - (i + 1 == n) as usize * (n / 2 + 1).min(n), i == brk)),
                _ => (i + 1..n.min(14).max(i + 2)).for_each(|j| t.push_str(&f(j % n, i == brk && j == i + 1))),
            }
            t.push('}')
        }
        check(r, &t)
    });
    let len = if th { 6 } else { 5 };
    let names = |c: &mut Ch, menu: &[&str], max: usize| -> Vec<String> {
        let mut v = vec![];
        for _ in 0..max {
            let k = c.pick(menu.len() + 1);
            if k == 0 {
                break;
            }
            v.push(menu[k - 1].to_string())
        }
        v
    };
    rep.explore("enum-values", 0, move |c, r| {
        let mut v = names(c, &["A", "B", "a", "AA", "type"], len);
        if v.is_empty() {
            v.push("X".into())
        }
        if c.flip() {
            v = v.iter().map(|x| format!("{x}@deprecated")).collect()
        }
        check(r, &format!("type Query{{a:E b:F}} enum E{{{}}} enum F{{A B a}}", v.join(" ")))
    });
    rep.explore("two-enums", 0, |c, r| {
        let f = |c: &mut Ch| {
            let v = names(c, &["A", "B"], 4);
            if v.is_empty() { "X".into() } else { v.join(" ") }
        };
        let (a, b) = (f(c), f(c));
        let unused = c.flip();
        check(r, &format!("enum E{{{a}}} type Query{{a:E {}}} enum F{{{b}}}", if unused { "" } else { "b:F" }))
    });
    rep.explore("input-fields", 0, move |c, r| {
        let mut v = vec![];
        for _ in 0..if len > 5 { 5 } else { 4 } {
            let k = c.pick(4);
            if k == 0 {
                break;
            }
            v.push(format!("{}:{}", ["a", "b", "A"][k - 1], c.pick_str(&["Int", "I!", "[I!]!", "J", "J!"])))
        }
        if v.is_empty() {
            v.push("x:Int".into())
        }
        let j = c.pick_str(&["a:Int", "a:I!", "a:Int a:I!", "b:J! b:Int", "b:J b:J"]);
        check(r, &format!("input I{{{}}} input J{{{j}}} type Query{{a(i:I j:J):Int}}", v.join(" ")))
    });
    // everything else is left alone, wherever it stands
    rep.explore("kinds-of-types", 0, |c, r| {
        let e = c.pick_str(&["A B", "A A", "A B A B", "A A A"]);
        let s = c.pick_str(&["I!", "I", "[I!]!", "S!", "E!", "J!", "O", "ID!"]);
        let t = c.pick_str(&["I!", "J!", "J", "E!", "Int!={}"]).replace("Int!={}", "I!={s:1}");
        let one = c.pick_str(&["", "@oneOf"]);
        let o = c.pick_str(&["input O@oneOf{i:I j:O}", "input O@oneOf{i:I i:J}", "input O{o:[O!]! i:O}", "input O{o:O!}"]);
        let ord = c.flip();
        let enm = format!("enum E{{{e}}}");
        let inp = format!("input I{{s:{s}}} input J{}{{t:{} u:S}} {o}", one, if one.is_empty() { t.clone() } else { t.split('!').next().unwrap().into() });
        let rest = "scalar S interface N{e:E} type Query implements N{e:E n(i:I j:[J!]):N} union U=Query";
        check(r, &if ord { format!("{enm} {rest} {inp}") } else { format!("{inp} {rest} {enm}") })
    });
}
