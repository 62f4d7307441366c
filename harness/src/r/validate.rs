//! Reference validator: which rule of the GraphQL specification a document violates, and where.
//! An error is a string `<rule> <node path> …`; node paths are produced by `Paths` for bluejay's trees.
use super::ast::*;
use super::schema::Schema;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Errors = BTreeSet<String>;

struct VarUse<'a> {
    path: String,
    name: &'a str,
    /// None: inside a value the schema gives no type to
    loc: Option<(Ty, bool)>,
}

#[derive(Default)]
struct RootInfo<'a> {
    vars: Vec<VarUse<'a>>,
    spreads: BTreeSet<&'a str>,
}

pub struct Validator<'a> {
    s: &'a Schema,
    d: &'a ExecDoc,
    pub errors: Errors,
    roots: BTreeMap<String, RootInfo<'a>>,
    cur: String,
    pub undefined_spread: bool,
}

pub fn dups<'b, K: Ord + Copy, T>(xs: impl Iterator<Item = (K, T)>) -> Vec<(K, Vec<T>)>
where
    T: 'b,
{
    let mut m: BTreeMap<K, Vec<T>> = BTreeMap::new();
    for (k, t) in xs {
        m.entry(k).or_default().push(t)
    }
    m.into_iter().filter(|(_, v)| v.len() > 1).collect()
}

pub fn location_of(k: OpKind) -> &'static str {
    match k {
        OpKind::Query => "QUERY",
        OpKind::Mutation => "MUTATION",
        OpKind::Subscription => "SUBSCRIPTION",
    }
}

impl<'a> Validator<'a> {
    pub fn run(s: &'a Schema, d: &'a ExecDoc) -> Validator<'a> {
        let mut v = Validator { s, d, errors: Errors::new(), roots: BTreeMap::new(), cur: String::new(), undefined_spread: false };
        v.document();
        v
    }
    fn err(&mut self, e: String) {
        self.errors.insert(e);
    }
    fn frag(&self, n: &str) -> Option<&'a Frag> {
        self.d.frags.iter().find(|f| f.name == n)
    }

    fn document(&mut self) {
        let (s, d) = (self.s, self.d);
        for (n, ops) in dups(d.ops.iter().enumerate().filter_map(|(i, o)| o.name.as_deref().map(|n| (n, format!("o{i}"))))) {
            self.err(format!("NonUniqueOperationNames {n} {}", ops.join(",")));
        }
        let anon: Vec<String> = d.ops.iter().enumerate().filter(|(_, o)| o.name.is_none()).map(|(i, _)| format!("o{i}")).collect();
        if !anon.is_empty() && d.ops.len() > 1 {
            self.err(format!("NotLoneAnonymousOperation {}", anon.join(",")));
        }
        for (n, fs) in dups(d.frags.iter().enumerate().map(|(i, f)| (f.name.as_str(), format!("f{i}")))) {
            self.err(format!("NonUniqueFragmentDefinitionNames {n} {}", fs.join(",")));
        }
        for (i, o) in d.ops.iter().enumerate() {
            let p = format!("o{i}");
            self.cur = p.clone();
            self.roots.insert(p.clone(), RootInfo::default());
            self.directives(&p, &o.dirs, location_of(o.kind), true);
            for (n, vs) in dups(o.vars.iter().enumerate().map(|(i, v)| (v.name.as_str(), format!("{p}.v{i}")))) {
                self.err(format!("NonUniqueVariableDefinitionNames {n} {}", vs.join(",")));
            }
            for (j, v) in o.vars.iter().enumerate() {
                let vp = format!("{p}.v{j}");
                self.directives(&vp, &v.dirs, "VARIABLE_DEFINITION", false);
                if !s.input(v.ty.base()) {
                    self.err(format!("VariableDefinitionTypeNotInput {vp}"));
                } else if let Some(df) = &v.default {
                    let mut es = vec![];
                    coerce(s, &v.ty, df, &format!("{vp}="), &mut vec![], true, false, &mut es);
                    self.errors.extend(es);
                }
            }
            match s.root(o.kind) {
                None => self.err(format!("OperationTypeNotDefined {p}")),
                Some(t) => {
                    self.selections(&p, &o.sels, t);
                    if o.kind == OpKind::Subscription {
                        let mut keys = BTreeSet::new();
                        self.response_keys(&o.sels, &mut vec![], &mut keys);
                        if keys.len() != 1 {
                            self.err(format!("SubscriptionRootNotSingleField {p}"));
                        }
                    }
                }
            }
        }
        for (i, f) in d.frags.iter().enumerate() {
            let p = format!("f{i}");
            self.cur = p.clone();
            self.roots.insert(p.clone(), RootInfo::default());
            self.directives(&p, &f.dirs, "FRAGMENT_DEFINITION", true);
            match s.kind(&f.on) {
                None => self.err(format!("FragmentDefinitionTargetTypeDoesNotExist {p}")),
                Some(_) => {
                    if !s.composite(&f.on) {
                        self.err(format!("FragmentDefinitionTargetTypeNotComposite {p}"))
                    }
                    self.selections(&p, &f.sels, &f.on)
                }
            }
        }
        // fragments: used, acyclic
        let used: BTreeSet<&str> = self.roots.values().flat_map(|r| r.spreads.iter().copied()).collect();
        for (i, f) in d.frags.iter().enumerate() {
            if !used.contains(f.name.as_str()) {
                self.err(format!("FragmentDefinitionUnused f{i}"));
            }
            if self.reaches(&f.sels, &f.name, &mut BTreeSet::new()) {
                self.err(format!("FragmentSpreadCycle f{i}"));
            }
        }
        // variables
        for (i, o) in d.ops.iter().enumerate() {
            let p = format!("o{i}");
            let mut reach: BTreeSet<String> = [p.clone()].into();
            let mut todo = vec![p.clone()];
            while let Some(x) = todo.pop() {
                for n in self.roots.get(&x).map(|r| r.spreads.clone()).unwrap_or_default() {
                    if let Some(k) = d.frags.iter().position(|f| f.name == n) {
                        if reach.insert(format!("f{k}")) {
                            todo.push(format!("f{k}"))
                        }
                    }
                }
            }
            let mut used = BTreeSet::new();
            let mut es = vec![];
            for x in &reach {
                for u in self.roots.get(x).map(|r| r.vars.as_slice()).unwrap_or(&[]) {
                    used.insert(u.name);
                    match o.vars.iter().enumerate().find(|(_, v)| v.name == u.name) {
                        None => es.push(format!("VariableNotDefined {} {p}", u.path)),
                        Some((j, v)) => {
                            if let Some((t, has_default)) = &u.loc {
                                if s.input(v.ty.base()) && !usage_allowed(v, t, *has_default) {
                                    es.push(format!("InvalidVariableUsage {} {p}.v{j} {}", u.path, t.show()))
                                }
                            }
                        }
                    }
                }
            }
            for (j, v) in o.vars.iter().enumerate() {
                if !used.contains(v.name.as_str()) {
                    es.push(format!("VariableDefinitionUnused {p}.v{j}"))
                }
            }
            self.errors.extend(es);
        }
    }

    fn response_keys(&self, sels: &'a [Sel], via: &mut Vec<&'a str>, out: &mut BTreeSet<String>) {
        for x in sels {
            match x {
                Sel::Field(f) => {
                    out.insert(f.key().to_string());
                }
                Sel::Inline { sels, .. } => self.response_keys(sels, via, out),
                Sel::Spread { name, .. } => {
                    if via.contains(&name.as_str()) {
                        continue;
                    }
                    if let Some(f) = self.frag(name) {
                        via.push(name);
                        self.response_keys(&f.sels, via, out);
                    }
                }
            }
        }
    }

    fn reaches(&self, sels: &'a [Sel], target: &str, seen: &mut BTreeSet<&'a str>) -> bool {
        sels.iter().any(|x| match x {
            Sel::Field(f) => f.sels.as_ref().is_some_and(|s| self.reaches(s, target, seen)),
            Sel::Inline { sels, .. } => self.reaches(sels, target, seen),
            Sel::Spread { name, .. } => {
                name == target || (seen.insert(name) && self.frag(name).is_some_and(|f| self.reaches(&f.sels, target, seen)))
            }
        })
    }

    fn selections(&mut self, p: &str, sels: &'a [Sel], ty: &str) {
        let s = self.s;
        for (i, x) in sels.iter().enumerate() {
            let p = format!("{p}/{i}");
            match x {
                Sel::Field(f) => {
                    let Some(def) = s.field(ty, &f.name) else {
                        if s.composite(ty) {
                            self.err(format!("FieldDoesNotExistOnType {p} {ty}"));
                        }
                        continue;
                    };
                    self.directives(&p, &f.dirs, "FIELD", true);
                    self.arguments(&p, &f.args, &def.args, true);
                    let base = def.ty.base();
                    match (&f.sels, s.composite(base)) {
                        (None, true) => self.err(format!("NonLeafFieldSelectionEmpty {p} {}", def.ty.show())),
                        (Some(_), false) => self.err(format!("LeafFieldSelectionNotEmpty {p} {}", def.ty.show())),
                        _ => {}
                    }
                    if let Some(sub) = &f.sels {
                        self.selections(&p, sub, base);
                    }
                }
                Sel::Inline { on, dirs, sels } => {
                    self.directives(&p, dirs, "INLINE_FRAGMENT", true);
                    let t = on.as_deref().unwrap_or(ty).to_string();
                    if on.is_some() {
                        match s.kind(&t) {
                            None => {
                                self.err(format!("InlineFragmentTargetTypeDoesNotExist {p}"));
                                continue;
                            }
                            Some(_) if !s.composite(&t) => self.err(format!("InlineFragmentTargetTypeNotComposite {p}")),
                            _ => {
                                if s.composite(ty) && s.possible(ty).is_disjoint(&s.possible(&t)) {
                                    self.err(format!("InlineFragmentSpreadIsNotPossible {p} {ty}"));
                                }
                            }
                        }
                    }
                    self.selections(&p, sels, &t);
                }
                Sel::Spread { name, dirs } => {
                    self.directives(&p, dirs, "FRAGMENT_SPREAD", true);
                    let cur = self.cur.clone();
                    self.roots.get_mut(&cur).unwrap().spreads.insert(name);
                    match self.frag(name) {
                        None => {
                            self.undefined_spread = true;
                            self.err(format!("FragmentSpreadTargetUndefined {p}"))
                        }
                        Some(f) => {
                            if s.composite(ty) && s.composite(&f.on) && s.possible(ty).is_disjoint(&s.possible(&f.on)) {
                                self.err(format!("FragmentSpreadIsNotPossible {p} {ty}"));
                            }
                        }
                    }
                }
            }
        }
    }

    fn directives(&mut self, p: &str, ds: &'a [Dir], loc: &str, vars: bool) {
        let s = self.s;
        for (n, paths) in dups(ds.iter().enumerate().map(|(i, d)| (d.name.as_str(), format!("{p}.d{i}")))) {
            if s.dirs.get(n).is_some_and(|d| !d.repeatable) {
                self.err(format!("DirectivesNotUniquePerLocation {}", paths.join(",")));
            }
        }
        for (i, d) in ds.iter().enumerate() {
            let p = format!("{p}.d{i}");
            match s.dirs.get(&d.name) {
                None => {
                    // names may still clash
                    self.err(format!("DirectiveDoesNotExist {p}"));
                    self.unique_args(&p, &d.args);
                }
                Some(def) => {
                    if !def.locs.iter().any(|l| l == loc) {
                        self.err(format!("DirectiveInInvalidLocation {p} {loc}"));
                    }
                    self.arguments(&p, &d.args, &def.args, vars);
                }
            }
        }
    }

    fn unique_args(&mut self, p: &str, a: &'a [(String, Val)]) {
        for (n, ps) in dups(a.iter().enumerate().map(|(i, (n, _))| (n.as_str(), format!("{p}.a{i}")))) {
            self.err(format!("NonUniqueArgumentNames {n} {}", ps.join(",")));
        }
    }

    fn arguments(&mut self, p: &str, a: &'a [(String, Val)], defs: &'a [InputVal], vars: bool) {
        let s = self.s;
        self.unique_args(p, a);
        let missing: Vec<&str> = defs
            .iter()
            .filter(|d| d.ty.required() && d.default.is_none() && !a.iter().any(|(n, _)| *n == d.name))
            .map(|d| d.name.as_str())
            .collect();
        if !missing.is_empty() {
            self.err(format!("MissingRequiredArguments {p} {}", missing.join(",")));
        }
        for (i, (n, v)) in a.iter().enumerate() {
            let ap = format!("{p}.a{i}");
            match defs.iter().find(|d| d.name == *n) {
                None => self.err(format!("ArgumentDoesNotExist {ap}")),
                Some(def) => {
                    let mut es = vec![];
                    coerce(s, &def.ty, v, &format!("{ap}="), &mut vec![], true, false, &mut es);
                    self.errors.extend(es);
                    if vars {
                        let has_default = def.default.as_ref().is_some_and(|d| *d != Val::Null);
                        self.var_uses(&format!("{ap}="), v, Some((def.ty.clone(), has_default)));
                    }
                }
            }
        }
    }

    fn var_uses(&mut self, p: &str, v: &'a Val, loc: Option<(Ty, bool)>) {
        let s = self.s;
        match v {
            Val::Var(n) => {
                let cur = self.cur.clone();
                self.roots.get_mut(&cur).unwrap().vars.push(VarUse { path: p.to_string(), name: n, loc });
            }
            Val::List(l) => {
                let item = match &loc {
                    Some((Ty::List(t, _), _)) => Some(((**t).clone(), false)),
                    _ => None,
                };
                for (i, x) in l.iter().enumerate() {
                    self.var_uses(&format!("{p}[{i}]"), x, item.clone());
                }
            }
            Val::Obj(o) => {
                for (i, (k, x)) in o.iter().enumerate() {
                    let l = loc.as_ref().and_then(|(t, _)| s.input_fields(t.base()).iter().find(|f| f.name == *k)).map(|f| {
                        (f.ty.clone(), f.default.as_ref().is_some_and(|d| *d != Val::Null))
                    });
                    self.var_uses(&format!("{p}{{{i}}}"), x, l);
                }
            }
            _ => {}
        }
    }
}

/// the specification's IsVariableUsageAllowed
fn usage_allowed(v: &VarDef, loc: &Ty, loc_default: bool) -> bool {
    if loc.required() && !v.ty.required() {
        let var_default = v.default.as_ref().is_some_and(|d| *d != Val::Null);
        if !var_default && !loc_default {
            return false;
        }
        return compatible(&v.ty, &loc.nullable());
    }
    compatible(&v.ty, loc)
}
fn compatible(v: &Ty, loc: &Ty) -> bool {
    if loc.required() && !v.required() {
        return false;
    }
    match (v, loc) {
        (Ty::Named(a, _), Ty::Named(b, _)) => a == b,
        (Ty::List(a, _), Ty::List(b, _)) => compatible(a, b),
        _ => false,
    }
}

pub fn kind_name(v: &Val) -> &'static str {
    match v {
        Val::Var(_) => "variable",
        Val::Int(_) => "integer",
        Val::Float(_) => "float",
        Val::Str(_) => "string",
        Val::Bool(_) => "boolean",
        Val::Null => "null",
        Val::Enum(_) => "enum",
        Val::List(_) => "list",
        Val::Obj(_) => "object",
    }
}

/// what the custom scalars of the harness accept; see `vctx::custom`
fn custom(n: &str, v: &Val) -> Result<(), String> {
    match n {
        "Even" => match v {
            Val::Int(i) if i % 2 == 0 => Ok(()),
            Val::Int(i) => Err(format!("{i} is odd")),
            _ => Err("not an integer".into()),
        },
        "Two" => {
            let n = match v {
                Val::List(l) => l.len(),
                Val::Obj(o) => o.len(),
                Val::Str(s) | Val::Enum(s) => s.len(),
                _ => 0,
            };
            if n == 2 { Ok(()) } else { Err("not two".into()) }
        }
        _ => Ok(()),
    }
}
/// Input coercion. `json`: the value came as JSON, where enum members are strings.
#[allow(clippy::too_many_arguments)]
pub fn coerce(s: &Schema, ty: &Ty, v: &Val, node: &str, path: &mut Vec<String>, wrap: bool, json: bool, out: &mut Vec<String>) {
    let at = |path: &Vec<String>| path.join("/");
    match (ty, v) {
        (_, Val::Var(_)) => {}
        (t, Val::Null) => {
            if t.required() {
                out.push(format!("NullValueForRequiredType {node} {} at {}", t.show(), at(path)))
            }
        }
        (Ty::List(item, _), Val::List(l)) => {
            for (i, x) in l.iter().enumerate() {
                path.push(i.to_string());
                coerce(s, item, x, &format!("{node}[{i}]"), path, false, json, out);
                path.pop();
            }
        }
        (Ty::List(item, _), x) => {
            if wrap {
                coerce(s, item, x, node, path, true, json, out)
            } else {
                out.push(format!("NoImplicitConversion {node} {} at {}", ty.show(), at(path)))
            }
        }
        (Ty::Named(n, _), x) => match s.kind(n) {
            Some(Kind::Scalar) => {
                let ok = match n.as_str() {
                    // only names the document does not define itself are the built-in scalars
                    _ if s.doc.types.iter().any(|t| t.name == *n) => {
                        if let Err(m) = custom(n, x) {
                            out.push(format!("CustomScalarInvalidValue {node} {n} {m} at {}", at(path)))
                        }
                        true
                    }
                    "Int" => matches!(x, Val::Int(_)),
                    "Float" => matches!(x, Val::Int(_) | Val::Float(_)),
                    "String" => matches!(x, Val::Str(_)),
                    "Boolean" => matches!(x, Val::Bool(_)),
                    "ID" => matches!(x, Val::Int(_) | Val::Str(_)),
                    _ => true,
                };
                if !ok {
                    out.push(format!("NoImplicitConversion {node} {} at {}", ty.show(), at(path)))
                }
            }
            Some(Kind::Enum { values }) => match x {
                Val::Enum(m) => {
                    if !values.iter().any(|v| v.name == *m) {
                        out.push(format!("NoEnumMemberWithName {node} {m} at {}", at(path)))
                    }
                }
                Val::Str(m) if json => {
                    if !values.iter().any(|v| v.name == *m) {
                        out.push(format!("NoEnumMemberWithName {node} {m} at {}", at(path)))
                    }
                }
                _ => out.push(format!("NoImplicitConversion {node} {} at {}", ty.show(), at(path))),
            },
            Some(Kind::Input { fields }) => {
                let Val::Obj(o) = x else {
                    out.push(format!("NoImplicitConversion {node} {} at {}", ty.show(), at(path)));
                    return;
                };
                for (k, is) in dups(o.iter().enumerate().map(|(i, (k, _))| (k.as_str(), i))) {
                    out.push(format!(
                        "NonUniqueFieldNames {node} {k} {} at {}",
                        is.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(","),
                        at(path)
                    ));
                }
                for (i, (k, _)) in o.iter().enumerate() {
                    if !fields.iter().any(|f| f.name == *k) {
                        path.push(k.clone());
                        out.push(format!("NoInputFieldWithName {node}{{{i}}}k {n} at {}", at(path)));
                        path.pop();
                    }
                }
                let mut missing = vec![];
                for f in fields {
                    match o.iter().enumerate().find(|(_, (k, _))| *k == f.name) {
                        None => {
                            if f.ty.required() && f.default.is_none() {
                                missing.push(f.name.as_str())
                            }
                        }
                        Some((i, (_, x))) => {
                            path.push(f.name.clone());
                            coerce(s, &f.ty, x, &format!("{node}{{{i}}}"), path, true, json, out);
                            path.pop();
                        }
                    }
                }
                if !missing.is_empty() {
                    out.push(format!("NoValueForRequiredFields {node} {n} {} at {}", missing.join(","), at(path)));
                }
                if s.one_of(n) {
                    let (nulls, rest): (Vec<_>, Vec<_>) = o.iter().enumerate().partition(|(_, (_, v))| *v == Val::Null);
                    let show = |x: &[(usize, &(String, Val))]| x.iter().map(|(i, _)| i.to_string()).collect::<Vec<_>>().join(",");
                    if !nulls.is_empty() {
                        out.push(format!("OneOfInputNullValues {node} {} at {}", show(&nulls), at(path)));
                    }
                    if rest.len() != 1 {
                        out.push(format!("OneOfInputNotSingleNonNullValue {node} {} at {}", show(&rest), at(path)));
                    }
                }
            }
            _ => {}
        },
    }
}

// ---- field selection merging (specification 5.3.2) ----
struct Ctx<'a> {
    parent: String,
    f: &'a Fld,
    ty: Ty,
}
struct Merge<'a> {
    s: &'a Schema,
    d: &'a ExecDoc,
}
/// Whether every selection set of the document can be merged. The document must not contain fragment cycles.
pub fn mergeable(s: &Schema, d: &ExecDoc) -> bool {
    let m = Merge { s, d };
    d.ops.iter().all(|o| s.root(o.kind).map_or(true, |t| m.every(t, &o.sels))) && d.frags.iter().all(|f| s.kind(&f.on).is_none() || m.every(&f.on, &f.sels))
}
impl<'a> Merge<'a> {
    /// this selection set and all those written inside it
    fn every(&self, ty: &str, sels: &'a [Sel]) -> bool {
        if !self.set_ok(&[(ty.to_string(), sels)]) {
            return false;
        }
        sels.iter().all(|x| match x {
            Sel::Field(f) => match (self.s.field(ty, &f.name), &f.sels) {
                (Some(def), Some(sub)) => self.every(def.ty.base(), sub),
                _ => true,
            },
            Sel::Inline { on, sels, .. } => {
                let t = on.as_deref().unwrap_or(ty);
                self.s.kind(t).is_none() || self.every(t, sels)
            }
            Sel::Spread { .. } => true,
        })
    }
    fn collect(&self, ty: &str, sels: &'a [Sel], seen: &mut BTreeSet<&'a str>, out: &mut Vec<Ctx<'a>>) {
        for x in sels {
            match x {
                Sel::Field(f) => {
                    if let Some(def) = self.s.field(ty, &f.name) {
                        out.push(Ctx { parent: ty.to_string(), f, ty: def.ty.clone() })
                    }
                }
                Sel::Inline { on, sels, .. } => {
                    let t = on.as_deref().unwrap_or(ty);
                    if self.s.kind(t).is_some() {
                        self.collect(t, sels, seen, out)
                    }
                }
                Sel::Spread { name, .. } => {
                    if !seen.insert(name) {
                        continue;
                    }
                    if let Some(f) = self.d.frags.iter().find(|f| f.name == *name) {
                        if self.s.kind(&f.on).is_some() {
                            self.collect(&f.on, &f.sels, seen, out)
                        }
                    }
                }
            }
        }
    }
    fn collected(&self, sets: &[(String, &'a [Sel])]) -> HashMap<&'a str, Vec<Ctx<'a>>> {
        let mut all = vec![];
        let mut seen = BTreeSet::new();
        for (t, s) in sets {
            self.collect(t, s, &mut seen, &mut all)
        }
        let mut by: HashMap<&'a str, Vec<Ctx<'a>>> = HashMap::new();
        for c in all {
            by.entry(c.f.key()).or_default().push(c)
        }
        by
    }
    fn subs(&self, cs: &[&Ctx<'a>]) -> Vec<(String, &'a [Sel])> {
        cs.iter().filter_map(|c| c.f.sels.as_ref().map(|s| (c.ty.base().to_string(), s.as_slice()))).collect()
    }
    /// FieldsInSetCanMerge
    fn set_ok(&self, sets: &[(String, &'a [Sel])]) -> bool {
        self.collected(sets).values().all(|fs| {
            (0..fs.len()).all(|i| {
                (0..i).all(|j| {
                    let (a, b) = (&fs[j], &fs[i]);
                    self.same_shape(a, b) && {
                        let is_obj = |t: &str| matches!(self.s.kind(t), Some(Kind::Object { .. }));
                        if a.parent == b.parent || !is_obj(&a.parent) || !is_obj(&b.parent) {
                            a.f.name == b.f.name && same_args(&a.f.args, &b.f.args) && self.set_ok(&self.subs(&[a, b]))
                        } else {
                            true
                        }
                    }
                })
            })
        })
    }
    fn same_shape(&self, a: &Ctx<'a>, b: &Ctx<'a>) -> bool {
        let (mut x, mut y) = (&a.ty, &b.ty);
        loop {
            if x.required() != y.required() {
                return false;
            }
            match (x, y) {
                (Ty::List(p, _), Ty::List(q, _)) => {
                    x = p;
                    y = q;
                }
                (Ty::Named(..), Ty::Named(..)) => break,
                _ => return false,
            }
        }
        let (x, y) = (x.base(), y.base());
        if !self.s.composite(x) || !self.s.composite(y) {
            return x == y;
        }
        self.collected(&self.subs(&[a, b])).values().all(|fs| (0..fs.len()).all(|i| (0..i).all(|j| self.same_shape(&fs[j], &fs[i]))))
    }
}
pub fn same_val(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Obj(x), Val::Obj(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.iter().any(|(l, w)| k == l && same_val(v, w)))
        }
        (Val::List(x), Val::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_val(a, b)),
        _ => a == b,
    }
}
fn same_args(a: &Args, b: &Args) -> bool {
    a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(l, w)| k == l && same_val(v, w)))
}
