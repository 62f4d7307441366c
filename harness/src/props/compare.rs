//! C08, C09: comparing two schemas.
use crate::conv;
use crate::engine::{Ch, Report, Run};
use crate::r::ast::*;
use crate::r::diff::{self, show_args, show_opt, show_val};
use crate::r::parse;
use crate::r::schema::Schema;
use bluejay_core::definition::prelude::*;
use bluejay_core::definition::{DirectiveLocation, InterfaceImplementation as _, SchemaDefinition as _, UnionMemberType as _};
use bluejay_core::{Argument as CoreArgument, Directive as _};
use bluejay_parser::ast::definition::{DefinitionDocument, SchemaDefinition};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::Parse;
use bluejay_schema_comparator::{compare, Change};
use bluejay_validator::executable::{document::BuiltinRulesValidator, Cache};

type S<'a> = SchemaDefinition<'a>;

fn place(l: &DirectiveLocation) -> &'static str {
    match l {
        DirectiveLocation::ArgumentDefinition => "argument",
        DirectiveLocation::EnumValue => "enum value",
        DirectiveLocation::FieldDefinition => "field",
        DirectiveLocation::InputFieldDefinition => "input field",
        DirectiveLocation::InputObject => "input object",
        DirectiveLocation::Interface => "interface",
        DirectiveLocation::Object => "object",
        DirectiveLocation::Scalar => "scalar",
        DirectiveLocation::Schema => "schema",
        DirectiveLocation::Union => "union",
        DirectiveLocation::Enum => "enum",
        _ => "?",
    }
}

/// A reported change in the shape of the reference's; `path` is read off the fields of the change.
fn read(c: &Change<'_, S<'_>>, old: &S<'_>, new: &S<'_>) -> diff::Change {
    let mut pr = vec![];
    let de = |d: Option<&str>| format!("{:?}", d.map(|s| s.to_string()));
    let mut oty = |f: &<S<'_> as bluejay_core::definition::SchemaDefinition>::FieldDefinition, new_side: bool| conv::oty(if new_side { new } else { old }, f.r#type(), &mut pr).show();
    let mut pr2 = vec![];
    let mut ity = |f: &<S<'_> as bluejay_core::definition::SchemaDefinition>::InputValueDefinition, new_side: bool| conv::ity(if new_side { new } else { old }, f.r#type(), &mut pr2).show();
    let df = |f: &<S<'_> as bluejay_core::definition::SchemaDefinition>::InputValueDefinition| show_opt(&f.default_value().map(|v| conv::val::<true, _>(v)));
    use Change::*;
    let (path, details): (String, Vec<String>) = match c {
        TypeRemoved { removed_type_definition: t } => (t.name().into(), vec![]),
        TypeAdded { added_type_definition: t } => (t.name().into(), vec![]),
        TypeKindChanged { old_type_definition: a, new_type_definition: b } => (b.name().into(), vec![a.kind().into(), b.kind().into()]),
        TypeDescriptionChanged { old_type_definition: a, new_type_definition: b } => (b.name().into(), vec![de(a.description()), de(b.description())]),
        FieldAdded { added_field_definition: f, type_name: t } => (format!("{t}.{}", f.name()), vec![]),
        FieldRemoved { removed_field_definition: f, type_name: t } => (format!("{t}.{}", f.name()), vec![]),
        FieldDescriptionChanged { type_name: t, old_field_definition: a, new_field_definition: b } => (format!("{t}.{}", b.name()), vec![de(a.description()), de(b.description())]),
        FieldTypeChanged { type_name: t, old_field_definition: a, new_field_definition: b } => (format!("{t}.{}", b.name()), vec![oty(a, false), oty(b, true)]),
        FieldArgumentAdded { type_name: t, field_definition: f, argument_definition: a } => (format!("{t}.{}.{}", f.name(), a.name()), vec![]),
        FieldArgumentRemoved { type_name: t, field_definition: f, argument_definition: a } => (format!("{t}.{}.{}", f.name(), a.name()), vec![]),
        FieldArgumentDescriptionChanged { type_name: t, field_definition: f, old_argument_definition: a, new_argument_definition: b } => {
            (format!("{t}.{}.{}", f.name(), b.name()), vec![de(a.description()), de(b.description())])
        }
        FieldArgumentDefaultValueChanged { type_name: t, field_definition: f, old_argument_definition: a, new_argument_definition: b } => (format!("{t}.{}.{}", f.name(), b.name()), vec![df(a), df(b)]),
        FieldArgumentTypeChanged { type_name: t, field_definition: f, old_argument_definition: a, new_argument_definition: b } => (format!("{t}.{}.{}", f.name(), b.name()), vec![ity(a, false), ity(b, true)]),
        ObjectInterfaceAddition { object_type_definition: o, interface_implementation: i } => (o.name().into(), vec![i.name().into()]),
        ObjectInterfaceRemoval { object_type_definition: o, interface_implementation: i } => (o.name().into(), vec![i.name().into()]),
        EnumValueAdded { enum_type_definition: e, enum_value_definition: v } => (format!("{}.{}", e.name(), v.name()), vec![]),
        EnumValueRemoved { enum_type_definition: e, enum_value_definition: v } => (format!("{}.{}", e.name(), v.name()), vec![]),
        EnumValueDescriptionChanged { enum_type_definition: e, old_enum_value_definition: a, new_enum_value_definition: b } => (format!("{}.{}", e.name(), b.name()), vec![de(a.description()), de(b.description())]),
        UnionMemberAdded { union_type_definition: u, union_member_type: m } => (u.name().into(), vec![m.name().into()]),
        UnionMemberRemoved { union_type_definition: u, union_member_type: m } => (u.name().into(), vec![m.name().into()]),
        InputFieldAdded { input_object_type_definition: i, added_field_definition: f } => (format!("{}.{}", i.name(), f.name()), vec![]),
        InputFieldRemoved { input_object_type_definition: i, removed_field_definition: f } => (format!("{}.{}", i.name(), f.name()), vec![]),
        InputFieldDescriptionChanged { input_object_type_definition: i, old_field_definition: a, new_field_definition: b } => (format!("{}.{}", i.name(), b.name()), vec![de(a.description()), de(b.description())]),
        InputFieldTypeChanged { input_object_type_definition: i, old_field_definition: a, new_field_definition: b } => (format!("{}.{}", i.name(), b.name()), vec![ity(a, false), ity(b, true)]),
        InputFieldDefaultValueChanged { input_object_type_definition: i, old_field_definition: a, new_field_definition: b } => (format!("{}.{}", i.name(), b.name()), vec![df(a), df(b)]),
        DirectiveDefinitionAdded { directive_definition: d } => (format!("@{}", d.name()), vec![]),
        DirectiveDefinitionRemoved { directive_definition: d } => (format!("@{}", d.name()), vec![]),
        DirectiveDefinitionLocationAdded { directive_definition: d, location: l } => (format!("@{}", d.name()), vec![l.to_string()]),
        DirectiveDefinitionLocationRemoved { directive_definition: d, location: l } => (format!("@{}", d.name()), vec![l.to_string()]),
        DirectiveDefinitionDescriptionChanged { old_directive_definition: a, new_directive_definition: b } => (format!("@{}", b.name()), vec![de(a.description()), de(b.description())]),
        DirectiveDefinitionArgumentAdded { directive_definition: d, argument_definition: a } => (format!("@{}.{}", d.name(), a.name()), vec![]),
        DirectiveDefinitionArgumentRemoved { directive_definition: d, argument_definition: a } => (format!("@{}.{}", d.name(), a.name()), vec![]),
        DirectiveDefinitionArgumentDescriptionChanged { directive_definition: d, old_argument_definition: a, new_argument_definition: b } => {
            (format!("@{}.{}", d.name(), b.name()), vec![de(a.description()), de(b.description())])
        }
        DirectiveDefinitionArgumentDefaultValueChanged { directive_definition: d, old_argument_definition: a, new_argument_definition: b } => (format!("@{}.{}", d.name(), b.name()), vec![df(a), df(b)]),
        DirectiveDefinitionArgumentTypeChanged { directive_definition: d, old_argument_definition: a, new_argument_definition: b } => (format!("@{}.{}", d.name(), b.name()), vec![ity(a, false), ity(b, true)]),
        DirectiveAdded { location: l, member_name: m, directive: d } => (d.name().into(), vec![format!("{} {m}", place(l)), show_args(&conv::args(d.arguments()))]),
        DirectiveRemoved { location: l, member_name: m, directive: d } => (d.name().into(), vec![format!("{} {m}", place(l)), show_args(&conv::args(d.arguments()))]),
        DirectiveArgumentAdded { directive: d, argument: a } => (format!("@{}.{}", d.name(), CoreArgument::name(*a)), vec![show_val(&conv::val(a.value()))]),
        DirectiveArgumentRemoved { directive: d, argument: a } => (format!("@{}.{}", d.name(), CoreArgument::name(*a)), vec![show_val(&conv::val(a.value()))]),
        DirectiveArgumentValueChanged { directive: d, old_argument: a, new_argument: b } => (format!("@{}.{}", d.name(), CoreArgument::name(*b)), vec![show_val(&conv::val(a.value())), show_val(&conv::val(b.value()))]),
    };
    let k = c.criticality();
    let crit = if k.is_breaking() { 'B' } else if k.is_dangerous() { 'D' } else { 'S' };
    diff::Change { key: format!("{} {path} {}", c.as_ref(), details.join(" → ")).trim_end().to_string(), path, crit, words: vec![] }
}

/// which parts of the comparison a property is about
#[derive(Clone, Copy, PartialEq)]
enum Part {
    Changes,
    Criticality,
}

fn one_way(r: &mut Run, what: &str, ro: &Schema, rn: &Schema, o: &S<'_>, n: &S<'_>, part: Part) {
    let mut want = diff::diff(ro, rn);
    let res = compare(o, n);
    let mut got: Vec<(diff::Change, String, String)> = res
        .changes
        .iter()
        .map(|c| {
            r.check(c.breaking() == c.criticality().is_breaking() && c.dangerous() == c.criticality().is_dangerous() && c.non_breaking() == c.criticality().is_safe(), || "breaking/dangerous/non_breaking disagree with the criticality".into());
            (read(c, o, n), c.path(), c.message())
        })
        .collect();
    if part == Part::Changes {
        want.iter_mut().for_each(|c| c.crit = '-');
        got.iter_mut().for_each(|c| c.0.crit = '-');
    }
    want.sort();
    got.sort();
    let wk: Vec<(char, &String)> = want.iter().map(|c| (c.crit, &c.key)).collect();
    let gk: Vec<(char, &String)> = got.iter().map(|c| (c.0.crit, &c.0.key)).collect();
    for c in &want {
        r.outcome(c.key.split(' ').next().unwrap().to_string());
    }
    if want.is_empty() {
        r.outcome("no change");
    }
    if wk != gk {
        let miss: Vec<_> = wk.iter().filter(|k| count(&wk, k) > count(&gk, k)).collect();
        let extra: Vec<_> = gk.iter().filter(|k| count(&gk, k) > count(&wk, k)).collect();
        r.fail(format!("{what}: not reported: {miss:?}; wrongly reported: {extra:?}"));
        return;
    }
    r.compared += 1;
    if part == Part::Changes {
        for (w, (_, path, msg)) in want.iter().zip(&got) {
            if *path != w.path {
                r.fail(format!("{what}: {} is reported at {path}", w.key))
            }
            if let Some(x) = w.words.iter().find(|x| !msg.contains(x.as_str())) {
                r.fail(format!("{what}: the message about {} does not mention {x}: {msg}", w.key))
            }
        }
    }
}
fn count<T: PartialEq>(v: &[T], x: &T) -> usize {
    v.iter().filter(|y| *y == x).count()
}

fn with<'t, R>(text: &'t str, f: impl FnOnce(&Schema, &S<'_>) -> R) -> R {
    let doc: DefinitionDocument<'t> = DefinitionDocument::parse(text).unwrap_or_else(|e| panic!("harness: schema does not parse: {e:?}\n{text}"));
    let s = SchemaDefinition::try_from(&doc).unwrap_or_else(|_| panic!("harness: schema is rejected\n{text}"));
    f(&Schema::from_sdl(text), &s)
}

fn pair(r: &mut Run, old: &str, new: &str, part: Part) {
    if !r.case(format!("{old}\n-----\n{new}")) {
        return;
    }
    with(old, |ro, o| {
        with(new, |rn, n| {
            one_way(r, "old to new", ro, rn, o, n, part);
            one_way(r, "new to old", rn, ro, n, o, part);
        });
        with(old, |_, o2| r.check(compare(o, o2).changes.is_empty(), || "a schema differs from itself".into()));
        r.check(compare(o, o).changes.is_empty(), || "a schema differs from itself".into());
    })
}

fn ds(c: &mut Ch) -> &'static str {
    c.dev_str(&["", "@a", "@a(x:1)", "@a(x:2)", "@a(y:1 x:1)", "@b", "@b @a", "@r(x:1)@r(x:2)", "@r(x:2)", "@deprecated"])
}
fn de(c: &mut Ch) -> &'static str {
    c.dev_str(&["", "\"d\"", "\"e\"", "\"\""])
}
fn iv(c: &mut Ch, name: &str, base: &str, default: &str) -> String {
    let t = c.dev_str(&["{}", "{}!", "[{}]", "[{}!]", "[{}]!", "ID"]).replace("{}", base);
    let d = c.dev_str(&["", default, "=null"]);
    format!("{} {name}:{t}{d} {}", de(c), ds(c))
}
fn opt(c: &mut Ch, s: String) -> String {
    if c.dev_flip() { String::new() } else { s }
}

/// One schema of a family; every part of it is a deviation. Mutation and subscription roots stay.
fn variant(c: &mut Ch) -> String {
    let mut s = format!("schema {}{{query:Query mutation:Mut}} type Mut{{m:Int}} ", ds(c));
    // query with a field with arguments
    let ax = iv(c, "x", "Int", "=1");
    let ax = opt(c, ax);
    let extra_arg = c.dev_str(&["", "z:Int", "z:Int!", "z:Int!=3"]);
    let fd = format!("{} f(keep:Int {ax} {extra_arg}):{} {}", de(c), c.dev_str(&["Int", "Int!", "[Int]", "[Int!]", "[Int]!", "String", "Query"]), ds(c));
    let fd = opt(c, fd);
    let extra = c.dev_str(&["", "g:Int", "g(x:Int):Int"]);
    s += &format!("{} type Query {} {}{{k(a:In):Int {fd} {extra}}} ", de(c), c.dev_str(&["", "implements I", "implements I&J", "implements J"]), ds(c));
    // interface
    s += &format!("{} interface I {}{{id:ID {}}} interface J{{id:ID}} ", de(c), ds(c), c.dev_str(&["", "h:Int", "h(x:Int):Int", "h(x:Int=1):[Int]", "\"t\" h:Int", "h:Int @a"]));
    // union
    s += &format!("{} union U {}={} type A{{a:Int}} type B{{b:Int}} ", de(c), ds(c), c.dev_str(&["A|B", "A", "B", "B|A", "A|B|Query", "Query"]));
    // enum
    let v = format!("{} Y {}", de(c), ds(c));
    let v = opt(c, v);
    s += &format!("{} enum E {}{{X {v} {}}} ", de(c), ds(c), c.dev_str(&["", "Z", "Z W", "\"z\" Z @a"]));
    // input
    let f1 = iv(c, "p", "Int", "=1");
    let f1 = opt(c, f1);
    s += &format!("{} input In {}{{o:E {f1} {}}} ", de(c), c.dev_str(&["", "@a", "@oneOf", "@a(x:1)", "@oneOf @a"]), c.dev_str(&["", "q:Int", "q:Int!", "q:Int!=2", "q:[In!]"]));
    // scalar
    s += &format!("{} scalar D {} ", de(c), ds(c));
    // a type of its own, of any kind
    s += c.dev_str(&["", "type N{x:Int}", "interface N{x:Int}", "union N=A", "enum N{X}", "input N{x:Int}", "scalar N", "type N implements I{id:ID}"]);
    // directives
    let da = iv(c, "x", "Int", "=1");
    s += &format!(" {} directive@dd({} {})on {} ", de(c), da, c.dev_str(&["", "y:Int", "y:Int!", "y:Int!=1"]), c.dev_str(&["FIELD", "FIELD|QUERY", "QUERY", "QUERY|FIELD|OBJECT"]));
    s += c.dev_str(&["", "directive@de on FIELD", "directive@de(x:Int)on FIELD"]);
    s += " directive@a(x:Int y:Int)on SCHEMA|SCALAR|OBJECT|FIELD_DEFINITION|ARGUMENT_DEFINITION|INTERFACE|UNION|ENUM|ENUM_VALUE|INPUT_OBJECT|INPUT_FIELD_DEFINITION \
          directive@b on SCHEMA|SCALAR|OBJECT|FIELD_DEFINITION|ARGUMENT_DEFINITION|INTERFACE|UNION|ENUM|ENUM_VALUE|INPUT_OBJECT|INPUT_FIELD_DEFINITION \
          directive@r(x:Int)repeatable on SCHEMA|SCALAR|OBJECT|FIELD_DEFINITION|ARGUMENT_DEFINITION|INTERFACE|UNION|ENUM|ENUM_VALUE|INPUT_OBJECT|INPUT_FIELD_DEFINITION";
    s
}

fn dir_list(c: &mut Ch, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        let k = c.pick(7);
        if k == 0 {
            break;
        }
        s += ["@a", "@a(x:1)", "@a(x:2 y:1)", "@a(y:{k:1,l:[2]})", "@b", "@r(x:1)"][k - 1];
    }
    s
}
const DIRS: &str = "directive@a(x:Int y:Any)repeatable on SCHEMA directive@b on SCHEMA directive@r(x:Int)repeatable on SCHEMA scalar Any";
const WRAPS: [&str; 10] = ["{}", "{}!", "[{}]", "[{}]!", "[{}!]", "[{}!]!", "[[{}]]", "[[{}!]]", "[[{}]!]", "[[{}]]!"];
const DEFAULTS: [&str; 24] = [
    "", "=null", "=1", "=2", "=1.0", "=\"1\"", "=true", "=A", "=B", "=\"A\"", "=[]", "=[1]", "=[1 2]", "=[2 1]", "=[[1]]", "={}", "={a:1}", "={a:1 b:2}", "={b:2 a:1}", "={a:2}", "={a:{b:1}}", "={a:[{b:1}]}", "=-1", "=[null]",
];

fn spaces(rep: &mut Report, part: Part) {
    let th = rep.thorough();
    rep.explore("many", 0, |c, r| {
        let (o, n) = super::scale::schemas(c, th);
        match parse::sdl(&n).map(|d| Schema::build(&d).is_ok()) {
            // that a directive becomes repeatable is not reported: a listed finding
            Some(true) if o.matches(" repeatable ").count() == n.matches(" repeatable ").count() => pair(r, &o, &n, part),
            _ => r.skip(),
        }
    });
    let b = rep.b(2, 2);
    let th = rep.thorough();
    rep.explore("edited-schemas", b, |c, r| {
        let o = variant(c);
        let n = variant(c);
        pair(r, &o, &n, part)
    });
    let k = if th { 3 } else { 2 };
    rep.explore("applied-directives", 0, |c, r| {
        let (pre, post) = *c.pick_of(&[
            ("schema ", "{query:Q} type Q{a:Int}"), ("type Query ", "{a:Int}"), ("type Query{a:Int ", "}"), ("type Query{a(x:Int ", "):Int}"), ("type Query{a:Int} interface I ", "{a:Int}"),
            ("type Query{a:Int} interface I{a:Int ", "}"), ("type Query{a:Int} interface I{a(x:Int ", "):Int}"), ("type Query{a:Int} union U ", "=Query"), ("type Query{a:Int} enum E ", "{A}"), ("type Query{a:Int} enum E{A ", "}"),
            ("type Query{a:Int} input I ", "{a:Int}"), ("type Query{a:Int} input I{a:Int ", "}"), ("type Query{a:Int} scalar S ", ""), ("type Query{a:Int} directive@q(a:Int ", ") on FIELD"),
        ]);
        let (x, y) = (dir_list(c, k), dir_list(c, k));
        pair(r, &format!("{pre}{x}{post} {DIRS}"), &format!("{pre}{y}{post} {DIRS}"), part)
    });
    rep.explore("type-references", 0, |c, r| {
        let (pre, post) = *c.pick_of(&[
            ("type Query{a:", "}"), ("type Query{a:Int} interface I{a:", "}"), ("type Query{a(x:", "):Int}"), ("type Query{a:Int} interface I{a(x:", "):Int}"), ("type Query{a:Int} input I{a:", "}"), ("type Query{a:Int} directive@d(a:", ")on FIELD"),
        ]);
        let t = |c: &mut Ch| c.pick_str(&WRAPS).replace("{}", c.pick_str(&["Int", "E", "Float"]));
        let (x, y) = (t(c), t(c));
        let (d, e) = (c.pick_str(&["", "=1"]), c.pick_str(&["", "=1"]));
        let (d, e) = if post == "}" && pre != "type Query{a:Int} input I{a:" { ("", "") } else { (d, e) };
        pair(r, &format!("{pre}{x}{d}{post} enum E{{A}}"), &format!("{pre}{y}{e}{post} enum E{{A}}"), part)
    });
    rep.explore("defaults", 0, |c, r| {
        let (pre, post) = *c.pick_of(&[("type Query{a(x:", "):Int}"), ("type Query{a:Int} interface I{a(x:", "):Int}"), ("type Query{a:Int} input I{a:", "}"), ("type Query{a:Int} directive@d(a:", ")on FIELD")]);
        let (t, u) = (c.pick_str(&["S", "S!"]), c.pick_str(&["S", "S!"]));
        let (x, y) = (c.pick_str(&DEFAULTS), c.pick_str(&DEFAULTS));
        pair(r, &format!("{pre}{t}{x}{post} scalar S"), &format!("{pre}{u}{y}{post} scalar S"), part)
    });
    let th = rep.thorough();
    rep.explore("compared-values", 0, |c, r| {
        // two values that may differ a little, as a default and as an argument of an applied directive
        let scalars = ["null", "true", "false", "0", "1", "-1", "10", "2147483647", "1.0", "1.5", "1e-20", "3e-20", "-1e-20", "1e300", "1.0000000000000002", "0.1", "\"\"", "\"a\"", "\"A\"", "\"a \"", "\"1\"", "\"null\"", "\"\\n\"", "a", "A", "ab", "[]", "{}", "[[]]", "[{}]", "{a:[]}", "{a:{}}"];
        fn tree(c: &mut Ch, depth: usize) -> String {
            let atoms = ["1", "2", "a"];
            match c.pick(if depth == 0 { 3 } else { 5 }) {
                k @ 0..=2 => atoms[k].to_string(),
                3 => {
                    let n = c.pick(3);
                    format!("[{}]", (0..n).map(|_| tree(c, depth - 1)).collect::<Vec<_>>().join(" "))
                }
                _ => {
                    let ks: &[&str] = [&[][..], &["a"], &["b"], &["a", "b"], &["b", "a"]][c.pick(5)];
                    format!("{{{}}}", ks.iter().map(|k| format!("{k}:{}", tree(c, depth - 1))).collect::<Vec<_>>().join(" "))
                }
            }
        }
        let (x, y) = match c.pick(if th { 3 } else { 2 }) {
            0 => (c.pick_str(&scalars).to_string(), c.pick_str(&scalars).to_string()),
            1 => (tree(c, 1), tree(c, 1)),
            _ => (tree(c, 2), tree(c, 1)),
        };
        let (pre, post) = *c.pick_of(&[("type Query{a(x:S=", "):Int}"), ("input I{x:S=", "}type Query{a:Int}"), ("type Query@d(x:", "){a:Int}"), ("type Query{a:Int@d(x:", ")}")]);
        let rest = "scalar S directive@d(x:S)on OBJECT|FIELD_DEFINITION";
        pair(r, &format!("{pre}{x}{post} {rest}"), &format!("{pre}{y}{post} {rest}"), part)
    });
    rep.explore("member-lists", 0, |c, r| {
        let (pre, post) = *c.pick_of(&[
            ("type Query{a:Int} enum E{", "}"), ("type Query{a:Int} union U=", ""), ("type Query implements ", "{a:Int}"), ("type Query{", "}"), ("type Query{a:Int} interface N{", "}"), ("type Query{q(", "):Int}"),
            ("type Query{a:Int} interface N{q(", "):Int}"), ("type Query{a:Int} input N{", "}"), ("type Query{a:Int} directive@q(", ")on FIELD"), ("type Query{a:Int} directive@q on ", ""),
        ]);
        let list = |c: &mut Ch| {
            let (all, sep): (&[&str], &str) = match pre {
                p if p.ends_with("E{") => (&["A", "B", "C"], " "),
                p if p.ends_with("U=") => (&["A", "B", "C"], "|"),
                p if p.ends_with("implements ") => (&["I", "J", "K"], "&"),
                p if p.ends_with("on ") => (&["FIELD", "QUERY", "OBJECT", "ENUM_VALUE"], "|"),
                p if p.ends_with("Query{") || p.ends_with("interface N{") => (&["a:Int", "b:Int!", "c(x:Int):Int"], " "),
                _ => (&["a:Int", "b:Int!", "c:Int!=1"], " "),
            };
            let mut v: Vec<&str> = all.iter().copied().filter(|_| c.flip()).collect();
            if v.is_empty() {
                v.push(all[0]);
            }
            if c.flip() {
                v.reverse()
            }
            v.join(sep)
        };
        let (x, y) = (list(c), list(c));
        let rest = "type A{a:Int} type B{a:Int} type C{a:Int} interface I{a:Int} interface J{a:Int} interface K{a:Int}";
        pair(r, &format!("{pre}{x}{post} {rest}"), &format!("{pre}{y}{post} {rest}"), part)
    });
    rep.explore("definitions-appear", 0, |c, r| {
        let mut set = |c: &mut Ch| {
            let mut s = String::from("type Query{a:Int} ");
            for k in [["", "type X{a:Int}", "enum X{A}", "\"d\" interface X{a:Int}", "input X{a:Int}"], ["", "scalar Y", "union Y=Query", "\"d\" scalar Y", "type Y{a:Int}"], ["", "directive@x on FIELD", "directive@x(a:Int)on OBJECT", "\"d\" directive@x on FIELD", "directive@skip on FIELD"]] {
                s += c.pick_str(&k);
                s.push(' ');
            }
            s
        };
        let (x, y) = (set(c), set(c));
        pair(r, &x, &y, part)
    });
    rep.explore("query-root", 0, |c, r| {
        let mut s = |c: &mut Ch| format!("schema{{query:{}}} type A{{a:Int}} type B{{b:Int}}", c.pick_str(&["A", "B"]));
        let (x, y) = (s(c), s(c));
        pair(r, &x, &y, part)
    });
    if part == Part::Criticality {
        return;
    }
    rep.explore("unreportable", 0, |c, r| {
        let base = ["schema{query:Q mutation:M} type Q{a:Int} type M{a:Int} type N{a:Int}", "type Query{a:Int} directive@d on FIELD", "type Query{a:Int} interface I{a:Int} interface J{a:Int}"];
        let (o, n) = match c.pick(6) {
            0 => (base[0].to_string(), base[0].replace("mutation:M", "mutation:N")),
            1 => (base[0].to_string(), base[0].replace(" mutation:M", "")),
            2 => (base[0].to_string(), base[0].replace("mutation:M", "mutation:M subscription:N")),
            3 => (base[0].to_string(), base[0].replace("schema", "\"d\" schema")),
            4 => (base[1].to_string(), base[1].replace("@d on", "@d repeatable on")),
            _ => (base[2].to_string(), base[2].replace("interface J{", "interface J implements I{")),
        };
        pair(r, &o, &n, part)
    });
}

pub fn c08(rep: &mut Report) {
    spaces(rep, Part::Changes)
}

// ---- C09: what is reported as safe is safe for requests

/// A schema in which every part matters to requests; `dev` each.
fn semantic(c: &mut Ch) -> String {
    let mut s = String::from("schema{query:Q mutation:M subscription:S}");
    s += c.dev_str(&["type M{m(x:In):Int}", "type M{m(x:In=null):Int}", "type M{m:Int}", "type M{m(x:In!):Int}", "type M{m(x:In y:Int!):Int}"]);
    s += c.dev_str(&["type S{s:Int t:Int}", "type S{s:Int!}", "type S{t:Int}"]);
    s += " type Q{";
    let t = |c: &mut Ch| c.dev_str(&["Int", "Int!", "Float", "[Int]", "ID"]);
    s += &format!("s:{} ", t(c));
    s += c.dev_str(&["n:N ", "n:N! ", "n:[N] ", "n:A ", "n:U "]);
    s += c.dev_str(&["v:U ", "v:[U] ", "v:U! ", "v:N "]);
    s += c.dev_str(&["e:E ", "e:E! ", "e:String ", "e:[E] ", ""]);
    s += c.dev_str(&["l:[Int] ", "l:[Int!] ", "l:[Int]! ", "l:[[Int]] ", "l:Int "]);
    s += c.dev_str(&["r:[Int!]! ", "r:[Int!] ", "r:[Int]! "]);
    let a = |c: &mut Ch, name: &str, i: usize| {
        let mut l = vec!["(x:Int)", "(x:Int!)", "(x:Int=1)", "(x:Int!=1)", "", "(x:Int y:Int)", "(x:Int y:Int!)", "(x:Int y:Int!=1)", "(x:Float)", "(x:[Int])", "(x:[Int!])", "(x:ID)", "(x:String)", "(x:Int=2)", "(x:Int=null)", "(y:Int)"];
        l.swap(0, i);
        format!("{name}{}:Int ", c.dev_of(&l))
    };
    s += &a(c, "f", 0);
    s += &a(c, "g", 1);
    s += &a(c, "h", 2);
    s += &a(c, "p", 3);
    s += c.dev_str(&["i(x:In):Int ", "i(x:In!):Int ", "i(x:[In]):Int ", "i(x:In={b:1}):Int ", "i(x:[In!]!):Int "]);
    s += c.dev_str(&["j(x:E):Int ", "j(x:E!):Int ", "j(x:E=X):Int ", "j(x:[E]):Int ", "j(x:String):Int "]);
    s += c.dev_str(&["k(x:[Int]):Int ", "k(x:[Int!]):Int ", "k(x:[Int]!):Int ", "k(x:Int):Int ", "k(x:[[Int]]):Int ", "k(x:[Int]=[]):Int "]);
    s += c.dev_str(&["kk(x:[[Int!]!]):Int ", "kk(x:[[Int]!]):Int ", "kk(x:[[Int!]]):Int ", "kk(x:[[Int]]):Int ", "kk(x:[[Int!]!]!):Int "]);
    s += c.dev_str(&["o(x:One):Int}", "o(x:One!):Int}", "o(x:One={a:1}):Int}"]);
    s += c.dev_str(&[" interface N{id:ID a:Int}", " interface N{id:ID! a:Int}", " interface N{id:ID}", " interface N{id:ID a(x:Int!):Int}", " interface N{id:ID a:Int z:Int}", " type N{id:ID a:Int}", " union N=A|B"]);
    s += c.dev_str(&[" type A implements N{", " type A{", " type A implements N&L{"]);
    s += c.dev_str(&["id:ID a:Int}", "id:ID! a:Int}", "id:ID a:Int c:Int}", "id:ID}"]);
    s += c.dev_str(&[" type B implements N{", " type B{"]);
    s += c.dev_str(&["id:ID a:Int b:B}", "id:ID a:Int b:B!}", "id:ID a:Int b:[B]}", "id:ID a:Int}", "id:ID a:Int b:A}"]);
    s += " interface L{id:ID} type W{w:Int}";
    s += c.dev_str(&[" union U=A|B", " union U=A", " union U=B", " union U=A|B|W", " type U{id:ID}"]);
    s += c.dev_str(&[" enum E{X Y}", " enum E{X}", " enum E{X Y Z}", " enum E{Y}", " scalar E"]);
    s += " input In{";
    s += c.dev_str(&["a:Int ", "a:Int! ", "a:Int!=1 ", "a:Int=1 ", "", "a:ID ", "a:[Int] "]);
    s += c.dev_str(&["b:Int! ", "b:Int ", "b:Int!=1 ", "b:Float! ", "b:[Int]! "]);
    s += c.dev_str(&["c:Int=1 ", "c:Int ", "c:Int!=1 ", "c:Int! ", "c:Int=null ", "c:Int=2 "]);
    s += c.dev_str(&["d:In ", "d:In! ", "d:[In] "]);
    s += c.dev_str(&["e:E}", "e:E=X}", "e:E!}", "e:E g:Int}", "e:E g:Int!}", "e:E g:Int!=1}", "e:[E]}"]);
    s += c.dev_str(&[" input One@oneOf{", " input One{"]);
    s += c.dev_str(&["a:Int b:In}", "a:Int}", "b:In}", "a:Int b:In c:Int}"]);
    s += c.dev_str(&[" input Two{a:Int b:Int}", " input Two@oneOf{a:Int b:Int}"]);
    s += c.dev_str(&[" directive@d(x:Int y:In)repeatable on ", " directive@d(x:Int)repeatable on ", " directive@d(x:Int! y:In)repeatable on ", " directive@d(x:Int y:In z:Int)repeatable on ", " directive@d(x:Int y:In z:Int!)repeatable on "]);
    s += c.dev_str(&["QUERY|FIELD|FRAGMENT_SPREAD|INLINE_FRAGMENT|FRAGMENT_DEFINITION|VARIABLE_DEFINITION", "FIELD|QUERY|MUTATION|FRAGMENT_SPREAD|INLINE_FRAGMENT|FRAGMENT_DEFINITION|VARIABLE_DEFINITION", "QUERY|FRAGMENT_SPREAD|INLINE_FRAGMENT|FRAGMENT_DEFINITION|VARIABLE_DEFINITION", "FIELD"]);
    s += c.dev_str(&[" directive@q(x:Int!)on FIELD", " directive@q(x:Int)on FIELD", " directive@q(x:Int!=1)on FIELD", " directive@q on FIELD", " directive@q(x:Float!)on FIELD", ""]);
    s += c.dev_str(&["", " type C implements N{id:ID a:Int}", " scalar Sc", " directive@new on FIELD", " input New{a:Int!}"]);
    s
}

/// Requests written against the family of schemas. No two selections with one response name on different types.
fn requests() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for f in [
        "s", "n{id}", "n{id a}", "n{__typename}", "n{...on A{x:a}...on B{y:b{b{id}}}}", "n{...on N{id}}", "n{...on U{__typename}}", "n{...on L{id}}", "v{__typename}", "v{...on A{a}}", "v{...on B{b{id}}}", "v{...on N{id}}",
        "v{...on A{...on N{id}}}", "e", "l", "r", "f", "g", "h", "i", "j", "k", "kk", "o", "p", "n{...on C{id}}", "z:__typename", "__schema{types{name}}", "__type(name:\"E\"){name}", "s@d", "s@d(x:1)", "s@d(x:null)", "s@d@d(x:2)",
        "s@d(y:{b:1})", "s@d(y:{a:1 b:2 c:3 d:{b:1} e:Y})", "s@q(x:1)", "s@q", "s@skip(if:true)", "...@d{s}", "...F@d", "...@d(x:1)@include(if:false){s n{id}}",
    ] {
        v.push(format!("{{{f}}} {}", if f.contains("...F") { "fragment F on Q@d{s}" } else { "" }));
    }
    v.push("query@d{s}".into());
    v.push("query@d(x:1)@d{s}".into());
    v.push("query($v:Int@d){f(x:$v)}".into());
    v.push("fragment G on A{a} {n{...G}v{...G}}".into());
    v.push("fragment G on U{...on B{id}} {n{...G}v{...G}}".into());
    v.push("fragment G on N{id} {n{...G}v{...G}}".into());
    v.push("fragment G on L{id} {n{...G}v{...G}}".into());
    for lit in ["1", "null", "1.5", "\"1\"", "X", "[]", "[1]", "[null]", "[[1]]", "[1 2]", "{b:1}", "{}", "{a:1}", "true", "[[null]]", "[null [1]]"] {
        for f in ["f", "g", "h", "p", "k", "kk"] {
            v.push(format!("{{{f}(x:{lit})}}"));
        }
    }
    v.push("{f(x:1 y:1)}".into());
    v.push("{h(y:1)}".into());
    for lit in ["X", "Y", "Z", "null", "[X]", "\"X\"", "[X null]"] {
        v.push(format!("{{j(x:{lit})}}"));
    }
    for lit in ["null", "{b:1}", "{}", "{a:1 b:1}", "{a:null b:1}", "{b:null}", "{b:1 c:2}", "{b:1 c:null}", "{b:1 d:{b:1}}", "{b:1 d:null}", "{b:1 d:{}}", "{b:1 e:X}", "{b:1 e:Y}", "{b:1 e:Z}", "{b:1 e:null}", "[{b:1}]", "[{b:1}{b:2}]", "{b:1.5}", "{b:1 g:1}", "{a:1 b:1 c:1 d:{b:1}e:X}", "{a:1 b:1 c:1 d:{a:1 b:1 c:1 d:{b:1}e:Y}e:X}"] {
        v.push(format!("{{i(x:{lit})}}"));
        v.push(format!("mutation{{m(x:{lit})}}"));
    }
    for lit in ["null", "{a:1}", "{b:{b:1}}", "{a:1 b:{b:1}}", "{}", "{c:1}", "{a:null}"] {
        v.push(format!("{{o(x:{lit})}}"));
    }
    for (ty, d) in [
        ("Int", ""), ("Int!", ""), ("Int", "=1"), ("Int", "=null"), ("Int!", "=1"), ("Float", ""), ("Float!", "=1"), ("ID", ""), ("ID!", ""), ("String", ""), ("[Int]", ""), ("[Int!]", ""), ("[Int]!", ""), ("[Int!]!", ""), ("[[Int]]", ""), ("[[Int!]!]", ""),
        ("[[Int!]]", ""), ("[[Int]!]", ""), ("[[Int!]!]!", ""), ("[Int]", "=[1]"), ("[Int]", "=1"),
    ] {
        for f in ["f", "g", "h", "p", "k", "kk"] {
            v.push(format!("query($v:{ty}{d}){{{f}(x:$v)}}"));
        }
        v.push(format!("query($v:{ty}{d}){{k(x:[$v])}}"));
        v.push(format!("query($v:{ty}{d}){{s@d(x:$v)}}"));
        v.push(format!("query($v:{ty}{d}){{s@q(x:$v)}}"));
        for f in ["a", "b", "c"] {
            let b = if f == "b" { "" } else { "b:1 " };
            v.push(format!("query($v:{ty}{d}){{i(x:{{{b}{f}:$v}})}}"));
            v.push(format!("mutation($v:{ty}{d}){{m(x:{{{b}{f}:$v}})}}"));
        }
        v.push(format!("query($v:{ty}{d}){{o(x:{{a:$v}})}}"));
    }
    for (ty, d) in [("In", ""), ("In!", ""), ("[In]", ""), ("[In!]!", ""), ("In", "={b:1}"), ("In", "={}"), ("In", "={a:1 b:2 c:3 d:{b:1}e:X}"), ("In!", "={b:1 e:Z}")] {
        v.push(format!("query($v:{ty}{d}){{i(x:$v)}}"));
        v.push(format!("query($v:{ty}{d}){{i(x:{{b:1 d:$v}})}}"));
        v.push(format!("query($v:{ty}{d}){{s@d(y:$v)}}"));
        v.push(format!("query($v:{ty}{d}){{o(x:{{b:$v}})}}"));
        v.push(format!("mutation($v:{ty}{d}){{m(x:$v)}}"));
    }
    for (ty, d) in [("E", ""), ("E!", ""), ("[E]", ""), ("E", "=X"), ("E", "=Y"), ("E!", "=Z"), ("String", "")] {
        v.push(format!("query($v:{ty}{d}){{j(x:$v)}}"));
        v.push(format!("query($v:{ty}{d}){{i(x:{{b:1 e:$v}})}}"));
    }
    for (ty, d) in [("One", ""), ("One!", ""), ("One", "={a:1}"), ("One", "={b:{b:1}}"), ("One", "={a:1 b:{b:1}}")] {
        v.push(format!("query($v:{ty}{d}){{o(x:$v)}}"));
    }
    v.push("mutation{m}".into());
    v.push("subscription{s}".into());
    v.push("subscription{t}".into());
    v.push("subscription{...{s}}".into());
    v
}

/// Collects, for each field of a request, what the two schemas say of it.
fn walk(o: &Schema, n: &Schema, d: &ExecDoc, pa: &str, pb: &str, ss: &[Sel], depth: usize, all_safe: bool, bad: &mut Vec<String>) {
    if depth > 8 {
        return;
    }
    if all_safe && o.composite(pa) {
        let (x, y) = (o.possible(pa), n.possible(pb));
        let y: std::collections::BTreeSet<String> = y.into_iter().filter(|t| o.types.contains_key(t)).collect();
        if x != y {
            bad.push(format!("possible types of {pa} change although all changes are safe"))
        }
    }
    for s in ss {
        match s {
            Sel::Field(f) => {
                let (Some(a), Some(b)) = (o.field(pa, &f.name), n.field(pb, &f.name)) else { continue };
                if !diff::safe_output(&a.ty, &b.ty) {
                    bad.push(format!("{pa}.{}: {} becomes {}", f.name, a.ty.show(), b.ty.show()))
                }
                if all_safe {
                    if let (Some(Kind::Enum { values: x }), Some(Kind::Enum { values: y })) = (o.kind(a.ty.base()), n.kind(b.ty.base())) {
                        if x.iter().map(|v| &v.name).ne(y.iter().map(|v| &v.name)) {
                            bad.push(format!("{} can be other values although all changes are safe", f.name))
                        }
                    }
                    for x in a.args.iter().filter(|x| !f.args.iter().any(|(n, _)| *n == x.name)) {
                        let y = b.args.iter().find(|y| y.name == x.name).and_then(|y| y.default.clone());
                        if show_opt(&x.default) != show_opt(&y) {
                            bad.push(format!("{}({}) is executed with another default although all changes are safe", f.name, x.name))
                        }
                    }
                }
                walk(o, n, d, a.ty.base(), b.ty.base(), f.sels.as_deref().unwrap_or(&[]), depth + 1, all_safe, bad)
            }
            Sel::Spread { name, .. } => {
                if let Some(f) = d.frags.iter().find(|f| f.name == *name) {
                    walk(o, n, d, &f.on, &f.on, &f.sels, depth + 1, all_safe, bad)
                }
            }
            Sel::Inline { on, sels, .. } => {
                let (x, y) = on.as_ref().map_or((pa, pb), |t| (t.as_str(), t.as_str()));
                walk(o, n, d, x, y, sels, depth + 1, all_safe, bad)
            }
        }
    }
}

fn valid(doc: &ExecutableDocument<'_>, s: &S<'_>) -> Option<String> {
    let cache = Cache::new(doc, s);
    let e = BuiltinRulesValidator::validate(doc, s, &cache).next();
    e.map(|e| bluejay_parser::Error::from(e).message().to_string())
}

fn sound(r: &mut Run, old: &str, new: &str, reqs: &[(String, ExecutableDocument<'static>, ExecDoc)]) {
    if !r.case(format!("{old}\n-----\n{new}")) {
        return;
    }
    with(old, |ro, o| {
        with(new, |rn, n| {
            let res = compare(o, n);
            if res.changes.iter().any(|c| c.breaking()) {
                r.outcome("breaking");
                return;
            }
            let all_safe = res.changes.iter().all(|c| c.non_breaking());
            r.outcome(if all_safe { "safe" } else { "dangerous" });
            for (text, doc, ast) in reqs {
                if valid(doc, o).is_some() {
                    continue;
                }
                r.compared += 1;
                if let Some(e) = valid(doc, n) {
                    r.fail(format!("no change is reported as breaking, but a request is no longer valid: {text}: {e}"));
                }
                let mut bad = vec![];
                for op in &ast.ops {
                    if let (Some(a), Some(b)) = (ro.root(op.kind), rn.root(op.kind)) {
                        walk(ro, rn, ast, a, b, &op.sels, 0, all_safe, &mut bad)
                    }
                }
                if let Some(b) = bad.first() {
                    r.fail(format!("no change is reported as breaking, but the response to a request changes shape: {text}: {b}"));
                }
                if r.fails.len() > 4 {
                    return;
                }
            }
        })
    })
}

pub fn c09(rep: &mut Report) {
    spaces(rep, Part::Criticality);
    let reqs: Vec<(String, ExecutableDocument<'static>, ExecDoc)> = requests()
        .into_iter()
        .map(|t| {
            let t: &'static str = Box::leak(t.into_boxed_str());
            (t.to_string(), ExecutableDocument::parse(t).unwrap_or_else(|_| panic!("harness: {t}")), parse::exec(t).unwrap_or_else(|| panic!("harness: {t}")))
        })
        .collect();
    let b = rep.b(2, 3);
    rep.explore("safe-for-requests", b, |c, r| {
        let o = semantic(c);
        let n = semantic(c);
        if [&o, &n].iter().any(|s| Schema::build(&parse::sdl(s).unwrap()).is_err()) {
            return r.skip();
        }
        sound(r, &o, &n, &reqs)
    });
    let more: Vec<(String, ExecutableDocument<'static>, ExecDoc)> = ["{s}", "{s@d@d}", "mutation{a}", "subscription{a}"]
        .iter()
        .map(|t| (t.to_string(), ExecutableDocument::parse(t).unwrap_or_else(|_| panic!("harness: {t}")), parse::exec(t).unwrap()))
        .collect();
    rep.explore("roots-and-repeatability", 0, |c, r| {
        let base = "schema{query:Q mutation:M} type Q{s:Int} type M{a:Int} type N{b:Int} directive@d repeatable on FIELD";
        let new = match c.pick(5) {
            0 => base.replace(" mutation:M", ""),
            1 => base.replace("mutation:M", "mutation:N"),
            2 => base.replace(" repeatable", ""),
            3 => base.replace("mutation:M", "mutation:M subscription:N"),
            _ => base.to_string(),
        };
        sound(r, base, &new, &more)
    });
}
