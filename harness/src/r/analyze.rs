//! Reference operation analyses: what would be executed, how deep and costly it is, which inputs it carries.
use super::ast::{self as show, *};
use super::schema::Schema;
use std::collections::{BTreeMap, BTreeSet};

pub type Vars = BTreeMap<String, Val>;

pub fn operation(d: &ExecDoc, name: Option<&str>) -> Result<usize, String> {
    match name {
        Some(n) => d.ops.iter().position(|o| o.name.as_deref() == Some(n)).ok_or(format!("no operation {n}")),
        None if d.ops.len() == 1 => Ok(0),
        None => Err("not exactly one operation".into()),
    }
}

/// one operation with the variables given to it
pub struct A<'a> {
    pub s: &'a Schema,
    pub d: &'a ExecDoc,
    pub op: &'a Op,
    pub vars: &'a Vars,
}

/// an object being selected from: the type a selection set is written against, and the connection multiplier of
/// the field it belongs to
type Part<'a> = (&'a str, &'a [Sel], Option<u64>);
struct Entry<'a> {
    scope: &'a str,
    f: &'a Fld,
    mult: Option<u64>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Rules {
    Default,
    Relay,
}

impl<'a> A<'a> {
    fn root(&self) -> Option<&'a str> {
        self.s.root(self.op.kind)
    }
    fn var(&self, name: &str, of: &str) -> Option<Val> {
        let v = self.op.vars.iter().find(|v| v.name == name)?;
        match &v.ty {
            Ty::Named(n, _) if n == of => self.vars.get(name).cloned().or(v.default.clone()),
            _ => None,
        }
    }
    fn truth(&self, ds: &[Dir], name: &str) -> Option<bool> {
        let d = ds.iter().find(|d| d.name == name)?;
        match &d.args.iter().find(|(n, _)| n == "if")?.1 {
            Val::Bool(b) => Some(*b),
            Val::Var(v) => match self.var(v, "Boolean")? {
                Val::Bool(b) => Some(b),
                _ => None,
            },
            _ => None,
        }
    }
    fn included(&self, ds: &[Dir]) -> bool {
        self.truth(ds, "skip") != Some(true) && self.truth(ds, "include") != Some(false)
    }
    fn frag(&self, name: &str) -> Option<&'a Frag> {
        self.d.frags.iter().find(|f| f.name == name)
    }

    /// the selection a fragment stands for, with the type it is written against
    fn inside(&self, scope: &'a str, s: &'a Sel) -> Option<(&'a str, &'a [Sel], &'a [Dir])> {
        match s {
            Sel::Spread { name, dirs } => self.frag(name).map(|f| (f.on.as_str(), &f.sels[..], &dirs[..])),
            Sel::Inline { on, dirs, sels } => Some((on.as_deref().unwrap_or(scope), &sels[..], &dirs[..])),
            Sel::Field(_) => None,
        }
    }

    pub fn depth(&self) -> usize {
        self.root().map_or(0, |t| self.depth_of(t, &self.op.sels))
    }
    fn depth_of(&self, scope: &'a str, ss: &'a [Sel]) -> usize {
        ss.iter()
            .map(|x| match x {
                Sel::Field(f) => match self.s.field(scope, &f.name) {
                    Some(d) if self.included(&f.dirs) => 1 + self.depth_of(d.ty.base(), f.sels.as_deref().unwrap_or(&[])),
                    _ => 0,
                },
                _ => match self.inside(scope, x) {
                    Some((t, ss, ds)) if self.included(ds) => self.depth_of(t, ss),
                    _ => 0,
                },
            })
            .max()
            .unwrap_or(0)
    }

    /// Largest total cost over the concrete types. `exact`: an object is selected from by a fragment only if it is of
    /// every type condition on the way; otherwise only the innermost condition counts, and any type a selection is
    /// written against can occur.
    pub fn cost(&self, rules: Rules, exact: bool) -> usize {
        let Some(t) = self.root() else { return 0 };
        let parts = vec![(t, &self.op.sels[..], None)];
        (if exact { self.cost_of(t, &parts, rules) } else { self.loose(&parts, rules) }) as usize
    }
    fn collect<'b>(&self, t: Option<&str>, p: &Part<'a>, out: &'b mut BTreeMap<&'a str, Vec<Entry<'a>>>) {
        for x in p.1 {
            match x {
                Sel::Field(f) => {
                    if self.included(&f.dirs) && self.s.field(p.0, &f.name).is_some() {
                        out.entry(f.key()).or_default().push(Entry { scope: p.0, f, mult: p.2.filter(|_| f.name == "edges" || f.name == "nodes") })
                    }
                }
                _ => {
                    if let Some((on, ss, ds)) = self.inside(p.0, x) {
                        if self.included(ds) && t.map_or(true, |t| self.s.possible(on).contains(t)) {
                            self.collect(t, &(on, ss, p.2), out)
                        }
                    }
                }
            }
        }
    }
    fn base(&self, d: &FieldDef, rules: Rules) -> u64 {
        let leaf = !self.s.composite(d.ty.base());
        let weight = || match d.dirs.iter().find(|d| d.name == "cost")?.args.iter().find(|(n, _)| n == "weight")? {
            (_, Val::Str(s)) => s.parse::<f32>().ok().map(|w| if w > 0.0 { w as u64 } else { 0 }),
            _ => None,
        };
        match rules {
            Rules::Default => 1,
            Rules::Relay => weight().unwrap_or(if leaf { 0 } else { 1 }),
        }
    }
    fn connection(&self, d: &FieldDef, f: &Fld, rules: Rules) -> Option<u64> {
        if rules == Rules::Default || !d.dirs.iter().find(|d| d.name == "cost")?.args.iter().any(|(n, v)| n == "kind" && *v == Val::Str("connection".into())) {
            return None;
        }
        let size = |n: &str| -> i64 {
            match f.args.iter().find(|(k, _)| k == n) {
                Some((_, Val::Int(i))) => *i as i64,
                Some((_, Val::Var(v))) => match self.var(v, "Int") {
                    Some(Val::Int(i)) => i as i64,
                    _ => 0,
                },
                _ => 0,
            }
        };
        let n = size("first").max(size("last"));
        Some(if n <= 0 { 0 } else { (2f32 * (n.max(2) as f32).ln()).floor() as u64 })
    }
    fn entries(&self, es: &[Entry<'a>], rules: Rules) -> (u64, u64, Vec<Part<'a>>) {
        let (mut base, mut mult, mut parts) = (0, 0, vec![]);
        for e in es {
            let d = self.s.field(e.scope, &e.f.name).unwrap();
            base = base.max(self.base(d, rules));
            mult = mult.max(e.mult.unwrap_or(1));
            if let Some(ss) = &e.f.sels {
                // the type lives as long as the schema
                parts.push((d.ty.base(), &ss[..], self.connection(d, e.f, rules)))
            }
        }
        (base, mult, parts)
    }
    fn cost_of(&self, t: &str, parts: &[Part<'a>], rules: Rules) -> u64 {
        let mut keys = BTreeMap::new();
        for p in parts {
            self.collect(Some(t), p, &mut keys);
        }
        keys.values()
            .map(|es| {
                let (base, mult, parts) = self.entries(es, rules);
                let ty = es.iter().find_map(|e| self.s.field(t, &e.f.name)).unwrap_or_else(|| self.s.field(es[0].scope, &es[0].f.name).unwrap());
                let inner = if parts.is_empty() { 0 } else { self.s.possible(ty.ty.base()).iter().map(|u| self.cost_of(u, &parts, rules)).max().unwrap_or(0) };
                base.saturating_add(inner).saturating_mul(mult)
            })
            .fold(0, u64::saturating_add)
    }
    fn loose(&self, parts: &[Part<'a>], rules: Rules) -> u64 {
        let mut keys = BTreeMap::new();
        for p in parts {
            self.collect(None, p, &mut keys);
        }
        let types: BTreeSet<String> = keys.values().flatten().flat_map(|e| self.s.possible(e.scope)).collect();
        types
            .iter()
            .map(|t| {
                keys.values()
                    .map(|es| {
                        let es: Vec<Entry> = es.iter().filter(|e| self.s.possible(e.scope).contains(t)).map(|e| Entry { scope: e.scope, f: e.f, mult: e.mult }).collect();
                        let (base, mult, parts) = self.entries(&es, rules);
                        base.saturating_add(self.loose(&parts, rules)).saturating_mul(mult)
                    })
                    .fold(0, u64::saturating_add)
            })
            .max()
            .unwrap_or(0)
    }

    /// every argument of a field or directive the operation carries, with its definition
    fn args(&self, f: &mut dyn FnMut(&InputVal, &'a Val)) {
        self.dir_args(&self.op.dirs, f);
        if let Some(t) = self.root() {
            self.args_of(t, &self.op.sels, f)
        }
    }
    fn dir_args(&self, ds: &'a [Dir], f: &mut dyn FnMut(&InputVal, &'a Val)) {
        for d in ds {
            for (n, v) in &d.args {
                if let Some(a) = self.s.dirs.get(&d.name).and_then(|d| d.args.iter().find(|a| a.name == *n)) {
                    f(a, v)
                }
            }
        }
    }
    fn args_of(&self, scope: &'a str, ss: &'a [Sel], f: &mut dyn FnMut(&InputVal, &'a Val)) {
        for x in ss {
            match x {
                Sel::Field(x) => {
                    let Some(d) = self.s.field(scope, &x.name) else { continue };
                    self.dir_args(&x.dirs, f);
                    for (n, v) in &x.args {
                        if let Some(a) = d.args.iter().find(|a| a.name == *n) {
                            f(a, v)
                        }
                    }
                    self.args_of(d.ty.base(), x.sels.as_deref().unwrap_or(&[]), f)
                }
                _ => {
                    if let Some((t, ss, ds)) = self.inside(scope, x) {
                        self.dir_args(ds, f);
                        self.args_of(t, ss, f)
                    }
                }
            }
        }
    }

    /// what a custom analyzer is shown of the fields, in order, and of the rest
    pub fn visits(&self) -> (Vec<String>, Vec<String>) {
        let (mut order, mut rest) = (vec![], vec![]);
        if let Some(t) = self.root() {
            self.visits_of(t, &self.op.sels, true, &mut order)
        }
        self.args(&mut |a, v| rest.push(format!("argument {} for {}", show::val(v), show::input_val(a))));
        rest.extend(self.op.vars.iter().map(|v| format!("variable {}", show::var(v))));
        rest.sort();
        (order, rest)
    }
    fn visits_of(&self, scope: &'a str, ss: &'a [Sel], included: bool, out: &mut Vec<String>) {
        for x in ss {
            match x {
                Sel::Field(f) => {
                    let Some(d) = self.s.field(scope, &f.name) else { continue };
                    let inc = included && self.included(&f.dirs);
                    let what = format!("{} of {scope}: {} included={inc}", show::head(x), show::field_def(d));
                    out.push(format!("visit {what}"));
                    self.visits_of(d.ty.base(), f.sels.as_deref().unwrap_or(&[]), inc, out);
                    out.push(format!("leave {what}"));
                }
                _ => {
                    if let Some((t, ss, ds)) = self.inside(scope, x) {
                        self.visits_of(t, ss, included && self.included(ds), out)
                    }
                }
            }
        }
    }

    /// lists longer than `limit`; what is inside such a list is not looked at
    pub fn oversized(&self, limit: usize) -> Vec<(String, usize)> {
        let mut out = vec![];
        self.args(&mut |a, v| self.sizes(&a.name, v, limit, &mut out));
        out.sort();
        out
    }
    fn sizes(&self, name: &str, v: &Val, limit: usize, out: &mut Vec<(String, usize)>) {
        match v {
            Val::List(l) if l.len() > limit => out.push((name.to_string(), l.len())),
            Val::List(l) => l.iter().enumerate().for_each(|(i, x)| self.sizes(&format!("{name}.{i}"), x, limit, out)),
            Val::Obj(o) => o.iter().for_each(|(k, x)| self.sizes(&format!("{name}.{k}"), x, limit, out)),
            Val::Var(n) => {
                let v = self.vars.get(n).or(self.op.vars.iter().find(|v| v.name == *n).and_then(|v| v.default.as_ref()));
                if let Some(v) = v {
                    self.sizes(name, v, limit, out)
                }
            }
            _ => {}
        }
    }

    /// (kind, name, reason)
    pub fn deprecated(&self) -> Vec<(&'static str, String, String)> {
        let mut out = vec![];
        if let Some(t) = self.root() {
            self.old_fields(t, &self.op.sels, &mut out)
        }
        self.args(&mut |a, v| {
            if let Some(r) = reason(&a.dirs) {
                out.push(("Argument", a.name.clone(), r))
            }
            self.old_values(&a.ty, v, &a.name, false, &mut out)
        });
        for v in &self.op.vars {
            if let Some(x) = self.vars.get(&v.name) {
                self.old_values(&v.ty, x, &v.name, true, &mut out)
            }
            if let Some(x) = &v.default {
                self.old_values(&v.ty, x, &v.name, false, &mut out)
            }
        }
        out.sort();
        out
    }
    fn old_fields(&self, scope: &'a str, ss: &'a [Sel], out: &mut Vec<(&'static str, String, String)>) {
        for x in ss {
            match x {
                Sel::Field(f) => {
                    let Some(d) = self.s.field(scope, &f.name) else { continue };
                    if self.included(&f.dirs) {
                        if let Some(r) = reason(&d.dirs) {
                            out.push(("Field", f.name.clone(), r))
                        }
                        self.old_fields(d.ty.base(), f.sels.as_deref().unwrap_or(&[]), out)
                    }
                }
                _ => {
                    if let Some((t, ss, ds)) = self.inside(scope, x) {
                        if self.included(ds) {
                            self.old_fields(t, ss, out)
                        }
                    }
                }
            }
        }
    }
    fn old_values(&self, ty: &Ty, v: &Val, name: &str, json: bool, out: &mut Vec<(&'static str, String, String)>) {
        match (ty, v) {
            (Ty::List(t, _), Val::List(l)) => l.iter().for_each(|x| self.old_values(t, x, name, json, out)),
            (Ty::List(t, _), x) => self.old_values(t, x, name, json, out),
            (Ty::Named(n, _), x) => match (self.s.kind(n), x) {
                (Some(Kind::Enum { values }), Val::Enum(m)) => {
                    if let Some(r) = values.iter().find(|v| v.name == *m).and_then(|v| reason(&v.dirs)) {
                        out.push(("EnumValue", name.to_string(), r))
                    }
                }
                (Some(Kind::Enum { values }), Val::Str(m)) if json => {
                    if let Some(r) = values.iter().find(|v| v.name == *m).and_then(|v| reason(&v.dirs)) {
                        out.push(("EnumValue", name.to_string(), r))
                    }
                }
                (Some(Kind::Input { fields }), Val::Obj(o)) => {
                    for (k, x) in o {
                        if let Some(f) = fields.iter().find(|f| f.name == *k) {
                            if let Some(r) = reason(&f.dirs) {
                                out.push(("InputField", f.name.clone(), r))
                            }
                            self.old_values(&f.ty, x, name, json, out)
                        }
                    }
                }
                _ => {}
            },
        }
    }

    /// what is wrong with the variable values
    pub fn wrong_values(&self) -> Vec<String> {
        let mut out = vec![];
        for v in &self.op.vars {
            match self.vars.get(&v.name) {
                None if v.ty.required() && v.default.is_none() => out.push(format!("missing {}", v.name)),
                None => {}
                Some(x) => {
                    let mut es = vec![];
                    super::validate::coerce(self.s, &v.ty, x, "v", &mut vec![], true, true, &mut es);
                    if !es.is_empty() {
                        es.sort();
                        out.push(format!("invalid {}: {}", v.name, es.join("; ")))
                    }
                }
            }
        }
        for k in self.vars.keys().filter(|k| !self.op.vars.iter().any(|v| v.name == **k)) {
            out.push(format!("unused {k}"))
        }
        out.sort();
        out
    }
}

fn reason(ds: &[Dir]) -> Option<String> {
    let d = ds.iter().find(|d| d.name == "deprecated")?;
    Some(match d.args.iter().find(|(n, _)| n == "reason") {
        Some((_, Val::Str(s))) => s.clone(),
        _ => "No longer supported".into(),
    })
}
