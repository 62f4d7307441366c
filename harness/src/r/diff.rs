//! Reference schema comparison: what differs between two schemas and how bad each difference is.
use super::ast::*;
use super::schema::Schema;
use super::validate::same_val;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Change {
    /// the kind of change and everything it names
    pub key: String,
    pub path: String,
    /// B breaking, D dangerous, S safe
    pub crit: char,
    /// what a message about it has to mention
    pub words: Vec<String>,
}

pub fn safe_output(o: &Ty, n: &Ty) -> bool {
    (!o.required() || n.required())
        && match (o, n) {
            (Ty::Named(a, _), Ty::Named(b, _)) => a == b,
            (Ty::List(a, _), Ty::List(b, _)) => safe_output(a, b),
            _ => false,
        }
}
fn safe_input(o: &Ty, n: &Ty) -> bool {
    (o.required() || !n.required())
        && match (o, n) {
            (Ty::Named(a, _), Ty::Named(b, _)) => a == b,
            (Ty::List(a, _), Ty::List(b, _)) => safe_input(a, b),
            _ => false,
        }
}
pub fn kind_name(k: &Kind) -> &'static str {
    match k {
        Kind::Scalar => "SCALAR",
        Kind::Object { .. } => "OBJECT",
        Kind::Interface { .. } => "INTERFACE",
        Kind::Union { .. } => "UNION",
        Kind::Enum { .. } => "ENUM",
        Kind::Input { .. } => "INPUT_OBJECT",
    }
}
fn required(v: &InputVal) -> bool {
    v.ty.required() && v.default.is_none()
}

struct D {
    out: Vec<Change>,
}
impl D {
    fn add(&mut self, crit: char, kind: &str, path: &str, details: &[&str], words: &[&str]) {
        self.out.push(Change { key: format!("{kind} {path} {}", details.join(" → ")).trim_end().to_string(), path: path.to_string(), crit, words: words.iter().map(|s| s.to_string()).collect() })
    }
    fn dirs(&mut self, loc: &str, member: &str, o: &[Dir], n: &[Dir]) {
        let at = format!("{loc} {member}");
        let nth = |ds: &[Dir]| {
            let mut c: BTreeMap<String, usize> = BTreeMap::new();
            ds.iter()
                .map(|d| {
                    let k = c.entry(d.name.clone()).or_default();
                    *k += 1;
                    ((d.name.clone(), *k), d.clone())
                })
                .collect::<BTreeMap<_, _>>()
        };
        let (a, b) = (nth(o), nth(n));
        for ((name, _), x) in b.iter().filter(|(k, _)| !a.contains_key(k)) {
            let crit = if name == "oneOf" && loc == "input object" { 'B' } else { 'S' };
            self.add(crit, "DirectiveAdded", name, &[&at, &show_args(&x.args)], &[name, loc, member]);
        }
        for ((name, _), x) in a.iter().filter(|(k, _)| !b.contains_key(k)) {
            self.add('B', "DirectiveRemoved", name, &[&at, &show_args(&x.args)], &[name, loc, member]);
        }
        for ((name, k), x) in &a {
            let Some(y) = b.get(&(name.clone(), *k)) else { continue };
            for (an, av) in &x.args {
                let p = format!("@{name}.{an}");
                match y.args.iter().find(|(m, _)| m == an) {
                    None => self.add('S', "DirectiveArgumentRemoved", &p, &[&show_val(av)], &[an, name]),
                    Some((_, bv)) if !same_val(av, bv) => self.add('S', "DirectiveArgumentValueChanged", &p, &[&show_val(av), &show_val(bv)], &[an, name]),
                    _ => {}
                }
            }
            for (bn, bv) in &y.args {
                if !x.args.iter().any(|(m, _)| m == bn) {
                    self.add('S', "DirectiveArgumentAdded", &format!("@{name}.{bn}"), &[&show_val(bv)], &[bn, name])
                }
            }
        }
    }
    /// kinds: the prefix of the change names; words: names of the owners
    fn inputs(&mut self, prefix: &str, added: &str, removed: &str, owner: &str, words: &[&str], loc: &str, o: &[InputVal], n: &[InputVal]) {
        for x in n.iter().filter(|x| !o.iter().any(|y| y.name == x.name)) {
            let w: Vec<&str> = words.iter().copied().chain([x.name.as_str()]).collect();
            self.add(if required(x) { 'B' } else { 'S' }, added, &format!("{owner}.{}", x.name), &[], &w);
        }
        for x in o {
            let p = format!("{owner}.{}", x.name);
            let w: Vec<&str> = words.iter().copied().chain([x.name.as_str()]).collect();
            let Some(y) = n.iter().find(|y| y.name == x.name) else {
                self.add('B', removed, &p, &[], &w);
                continue;
            };
            if x.desc != y.desc {
                self.add('S', &format!("{prefix}DescriptionChanged"), &p, &[&format!("{:?}", x.desc), &format!("{:?}", y.desc)], &w);
            }
            if x.ty != y.ty {
                let (a, b) = (x.ty.show(), y.ty.show());
                let w: Vec<&str> = w.iter().copied().chain([a.as_str(), b.as_str()]).collect();
                self.add(if safe_input(&x.ty, &y.ty) { 'S' } else { 'B' }, &format!("{prefix}TypeChanged"), &p, &[&a, &b], &w);
            }
            let same = match (&x.default, &y.default) {
                (None, None) => true,
                (Some(a), Some(b)) => same_val(a, b),
                _ => false,
            };
            if !same {
                self.add(if required(y) { 'B' } else { 'D' }, &format!("{prefix}DefaultValueChanged"), &p, &[&show_opt(&x.default), &show_opt(&y.default)], &w);
            }
            self.dirs(loc, &x.name, &x.dirs, &y.dirs);
        }
    }
    fn fields(&mut self, t: &str, o: &[FieldDef], n: &[FieldDef]) {
        for x in n.iter().filter(|x| !o.iter().any(|y| y.name == x.name)) {
            self.add('S', "FieldAdded", &format!("{t}.{}", x.name), &[], &[t, &x.name]);
        }
        for x in o {
            let p = format!("{t}.{}", x.name);
            let Some(y) = n.iter().find(|y| y.name == x.name) else {
                self.add('B', "FieldRemoved", &p, &[], &[t, &x.name]);
                continue;
            };
            if x.desc != y.desc {
                self.add('S', "FieldDescriptionChanged", &p, &[&format!("{:?}", x.desc), &format!("{:?}", y.desc)], &[t, &x.name]);
            }
            if x.ty != y.ty {
                let (a, b) = (x.ty.show(), y.ty.show());
                self.add(if safe_output(&x.ty, &y.ty) { 'S' } else { 'B' }, "FieldTypeChanged", &p, &[&a, &b], &[t, &x.name, &a, &b]);
            }
            self.inputs("FieldArgument", "FieldArgumentAdded", "FieldArgumentRemoved", &p, &[t, &x.name], "argument", &x.args, &y.args);
            self.dirs("field", &x.name, &x.dirs, &y.dirs);
        }
    }
}
pub fn show_val(v: &Val) -> String {
    match v {
        Val::Obj(f) => {
            let mut f: Vec<String> = f.iter().map(|(k, v)| format!("{k}:{}", show_val(v))).collect();
            f.sort();
            format!("{{{}}}", f.join(" "))
        }
        Val::List(l) => format!("[{}]", l.iter().map(show_val).collect::<Vec<_>>().join(" ")),
        v => format!("{v:?}"),
    }
}
pub fn show_opt(v: &Option<Val>) -> String {
    v.as_ref().map(show_val).unwrap_or("-".into())
}
pub fn show_args(a: &Args) -> String {
    a.iter().map(|(k, v)| format!("{k}:{}", show_val(v))).collect::<Vec<_>>().join(" ")
}

fn with_meta(s: &Schema, t: &str, f: &[FieldDef]) -> Vec<FieldDef> {
    let mut v = f.to_vec();
    v.extend(["__typename", "__schema", "__type"].iter().filter_map(|n| s.field(t, n)).cloned());
    v
}

pub fn diff(o: &Schema, n: &Schema) -> Vec<Change> {
    let mut d = D { out: vec![] };
    for (name, a) in &o.types {
        let Some(b) = n.types.get(name) else {
            d.add('B', "TypeRemoved", name, &[], &[name]);
            continue;
        };
        if a.desc != b.desc {
            d.add('S', "TypeDescriptionChanged", name, &[&format!("{:?}", a.desc), &format!("{:?}", b.desc)], &[name]);
        }
        let loc = match (&a.kind, &b.kind) {
            (Kind::Scalar, Kind::Scalar) => "scalar",
            (Kind::Object { implements: i, fields: f }, Kind::Object { implements: j, fields: g }) => {
                for x in j.iter().filter(|x| !i.contains(x)) {
                    d.add('D', "ObjectInterfaceAddition", name, &[x], &[name, x]);
                }
                for x in i.iter().filter(|x| !j.contains(x)) {
                    d.add('B', "ObjectInterfaceRemoval", name, &[x], &[name, x]);
                }
                d.fields(name, &with_meta(o, name, f), &with_meta(n, name, g));
                "object"
            }
            (Kind::Interface { implements: i, fields: f }, Kind::Interface { implements: j, fields: g }) => {
                for x in j.iter().filter(|x| !i.contains(x)) {
                    d.add('D', "InterfaceInterfaceAddition", name, &[x], &[name, x]);
                }
                for x in i.iter().filter(|x| !j.contains(x)) {
                    d.add('B', "InterfaceInterfaceRemoval", name, &[x], &[name, x]);
                }
                d.fields(name, f, g);
                "interface"
            }
            (Kind::Union { members: i }, Kind::Union { members: j }) => {
                for x in j.iter().filter(|x| !i.contains(x)) {
                    d.add('D', "UnionMemberAdded", name, &[x], &[name, x]);
                }
                for x in i.iter().filter(|x| !j.contains(x)) {
                    d.add('B', "UnionMemberRemoved", name, &[x], &[name, x]);
                }
                "union"
            }
            (Kind::Enum { values: i }, Kind::Enum { values: j }) => {
                for x in j.iter().filter(|x| !i.iter().any(|y| y.name == x.name)) {
                    d.add('D', "EnumValueAdded", &format!("{name}.{}", x.name), &[], &[name, &x.name]);
                }
                for x in i {
                    let p = format!("{name}.{}", x.name);
                    match j.iter().find(|y| y.name == x.name) {
                        None => d.add('B', "EnumValueRemoved", &p, &[], &[name, &x.name]),
                        Some(y) => {
                            if x.desc != y.desc {
                                d.add('S', "EnumValueDescriptionChanged", &p, &[&format!("{:?}", x.desc), &format!("{:?}", y.desc)], &[name, &x.name]);
                            }
                            d.dirs("enum value", &x.name, &x.dirs, &y.dirs);
                        }
                    }
                }
                "enum"
            }
            (Kind::Input { fields: f }, Kind::Input { fields: g }) => {
                d.inputs("InputField", "InputFieldAdded", "InputFieldRemoved", name, &[name], "input field", f, g);
                "input object"
            }
            (k, l) => {
                d.add('B', "TypeKindChanged", name, &[kind_name(k), kind_name(l)], &[name, kind_name(k), kind_name(l)]);
                continue;
            }
        };
        d.dirs(loc, name, &a.dirs, &b.dirs);
    }
    for name in n.types.keys().filter(|k| !o.types.contains_key(*k)) {
        d.add('S', "TypeAdded", name, &[], &[name]);
    }
    for (name, a) in &o.dirs {
        let p = format!("@{name}");
        let Some(b) = n.dirs.get(name) else {
            d.add('B', "DirectiveDefinitionRemoved", &p, &[], &[name]);
            continue;
        };
        if a.desc != b.desc {
            d.add('S', "DirectiveDefinitionDescriptionChanged", &p, &[&format!("{:?}", a.desc), &format!("{:?}", b.desc)], &[name]);
        }
        for x in b.locs.iter().filter(|x| !a.locs.contains(x)) {
            d.add('S', "DirectiveDefinitionLocationAdded", &p, &[x], &[name, x]);
        }
        for x in a.locs.iter().filter(|x| !b.locs.contains(x)) {
            d.add('B', "DirectiveDefinitionLocationRemoved", &p, &[x], &[name, x]);
        }
        if a.repeatable != b.repeatable {
            d.add(if b.repeatable { 'S' } else { 'B' }, "DirectiveDefinitionRepeatableChanged", &p, &[], &[name]);
        }
        d.inputs("DirectiveDefinitionArgument", "DirectiveDefinitionArgumentAdded", "DirectiveDefinitionArgumentRemoved", &p, &[name], "argument", &a.args, &b.args);
    }
    for name in n.dirs.keys().filter(|k| !o.dirs.contains_key(*k)) {
        d.add('S', "DirectiveDefinitionAdded", &format!("@{name}"), &[], &[name]);
    }
    let none = vec![];
    let sd = |s: &Schema| s.doc.schemas.first().cloned();
    let (a, b) = (sd(o), sd(n));
    d.dirs("schema", "", a.as_ref().map_or(&none, |s| &s.dirs), b.as_ref().map_or(&none, |s| &s.dirs));
    if a.and_then(|s| s.desc) != b.and_then(|s| s.desc) {
        d.add('S', "SchemaDescriptionChanged", "", &[], &[]);
    }
    for k in [OpKind::Query, OpKind::Mutation, OpKind::Subscription] {
        // a change of the query root shows as the introspection fields moving to another type
        if k != OpKind::Query && o.root(k) != n.root(k) {
            d.add(if o.root(k).is_none() { 'S' } else { 'B' }, "RootTypeChanged", k.kw(), &[o.root(k).unwrap_or("-"), n.root(k).unwrap_or("-")], &[]);
        }
    }
    d.out.sort();
    d.out
}
