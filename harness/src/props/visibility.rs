//! C26, C27: schemas seen through a warden.
use super::schema::{expected, normalise};
use super::vctx::{custom, ctx, Scalars, BSchema, Ctx};
use crate::conv;
use crate::engine::{Ch, Report, Run};
use crate::paths::Paths;
use crate::r::ast::{self, *};
use crate::r::parse;
use crate::r::schema::{Schema, BUILTIN_SCALARS};
use bluejay_core::definition::{prelude::*, HasDirectives, InputValueDefinition, SchemaDefinition as CoreSchema, TypeDefinitionReference as T};
use bluejay_core::{AsIter, Directive as _};
use bluejay_parser::ast::definition::{DefinitionDocument, SchemaDefinition};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::Parse;
use bluejay_printer::definition::SchemaDefinitionPrinter;
use bluejay_validator::executable::{document::BuiltinRulesValidator, Cache as VCache};
use bluejay_visibility as vis;
use std::collections::{BTreeMap, BTreeSet, HashSet};

type Hidden = BTreeSet<String>;

fn at<X>(x: &X) -> usize {
    x as *const X as usize
}

/// Everything a warden can hide: a path naming it, and its address in the schema.
pub fn elements(s: &BSchema) -> Vec<(String, usize)> {
    let mut v: Vec<(String, usize)> = vec![];
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let mut add = |n: String, a: usize, v: &mut Vec<(String, usize)>| {
        // elements of the same name are numbered
        let k = seen.entry(n.clone()).or_default();
        *k += 1;
        v.push((if *k > 1 { format!("{n}#{k}") } else { n }, a));
    };
    let mut defs: Vec<_> = s.type_definitions().filter(|t| !t.is_builtin()).collect();
    defs.sort_by(|a, b| a.name().cmp(b.name()));
    for t in defs {
        let n = t.name();
        let fields = |f: &<BSchema as CoreSchema>::FieldsDefinition, v: &mut Vec<(String, usize)>, add: &mut dyn FnMut(String, usize, &mut Vec<(String, usize)>)| {
            for x in f.iter().filter(|f| !f.is_builtin()) {
                add(format!("{n}.{}", x.name()), at(x), v);
                let own = v.last().unwrap().0.clone();
                for y in x.arguments_definition().map(|a| a.iter()).into_iter().flatten() {
                    add(format!("{own}({})", y.name()), at(y), v);
                }
            }
        };
        match t {
            T::BuiltinScalar(_) => {}
            T::CustomScalar(x) => add(n.into(), at(x), &mut v),
            T::Object(x) => {
                add(n.into(), at(x), &mut v);
                fields(x.fields_definition(), &mut v, &mut add);
                for i in x.interface_implementations().map(|i| i.iter()).into_iter().flatten() {
                    add(format!("{n}:{}", i.name()), at(i), &mut v)
                }
            }
            T::Interface(x) => {
                add(n.into(), at(x), &mut v);
                fields(x.fields_definition(), &mut v, &mut add);
                for i in x.interface_implementations().map(|i| i.iter()).into_iter().flatten() {
                    add(format!("{n}:{}", i.name()), at(i), &mut v)
                }
            }
            T::Union(x) => {
                add(n.into(), at(x), &mut v);
                for m in x.union_member_types().iter() {
                    add(format!("{n}|{}", m.name()), at(m), &mut v)
                }
            }
            T::Enum(x) => {
                add(n.into(), at(x), &mut v);
                for m in x.enum_value_definitions().iter() {
                    add(format!("{n}.{}", m.name()), at(m), &mut v)
                }
            }
            T::InputObject(x) => {
                add(n.into(), at(x), &mut v);
                for m in x.input_field_definitions().iter() {
                    add(format!("{n}.{}", m.name()), at(m), &mut v)
                }
            }
        }
    }
    let mut dirs: Vec<_> = s.directive_definitions().filter(|d| !d.is_builtin() || ["skip", "deprecated"].contains(&d.name())).collect();
    dirs.sort_by(|a, b| a.name().cmp(b.name()));
    for d in dirs {
        add(format!("@{}", d.name()), at(d), &mut v);
        if !d.is_builtin() {
            for y in d.arguments_definition().map(|a| a.iter()).into_iter().flatten() {
                add(format!("@{}({})", d.name(), y.name()), at(y), &mut v);
            }
        }
    }
    // what a warden says beyond visibility
    v.push(("defaults".into(), 0));
    v.push(("applied arguments".into(), 1));
    v
}

pub struct W {
    hidden: HashSet<usize>,
    /// the schema's own elements
    own: &'static HashSet<usize>,
}
type It<'a> = std::vec::IntoIter<T<'a, <BSchema as CoreSchema>::TypeDefinition>>;
impl vis::Warden for W {
    type SchemaDefinition = BSchema;
    type TypeDefinitionsForName<'b> = It<'b>;
    fn is_field_definition_visible(&self, x: &<BSchema as CoreSchema>::FieldDefinition) -> bool {
        !self.hidden.contains(&at(x))
    }
    fn is_input_value_definition_visible(&self, x: &<BSchema as CoreSchema>::InputValueDefinition) -> bool {
        !self.hidden.contains(&at(x))
    }
    fn is_enum_value_definition_visible(&self, x: &<BSchema as CoreSchema>::EnumValueDefinition) -> bool {
        !self.hidden.contains(&at(x))
    }
    fn is_union_member_type_visible(&self, x: &<BSchema as CoreSchema>::UnionMemberType) -> bool {
        !self.hidden.contains(&at(x))
    }
    fn is_interface_implementation_visible(&self, x: &<BSchema as CoreSchema>::InterfaceImplementation) -> bool {
        !self.hidden.contains(&at(x))
    }
    fn is_directive_definition_visible(&self, x: &<BSchema as CoreSchema>::DirectiveDefinition) -> bool {
        !self.hidden.contains(&at(x))
    }
    fn is_custom_scalar_type_definition_visible(&self, x: &<BSchema as CoreSchema>::CustomScalarTypeDefinition) -> bool {
        !self.hidden.contains(&at(x))
    }
    fn is_enum_type_definition_visible(&self, x: &<BSchema as CoreSchema>::EnumTypeDefinition) -> bool {
        !self.hidden.contains(&at(x))
    }
    fn is_input_object_type_definition_visible(&self, x: &<BSchema as CoreSchema>::InputObjectTypeDefinition) -> bool {
        !self.hidden.contains(&at(x))
    }
    fn is_interface_type_definition_visible(&self, x: &<BSchema as CoreSchema>::InterfaceTypeDefinition) -> bool {
        !self.hidden.contains(&at(x))
    }
    fn is_object_type_definition_visible(&self, x: &<BSchema as CoreSchema>::ObjectTypeDefinition) -> bool {
        !self.hidden.contains(&at(x))
    }
    fn is_union_type_definition_visible(&self, x: &<BSchema as CoreSchema>::UnionTypeDefinition) -> bool {
        !self.hidden.contains(&at(x))
    }
    fn input_value_definition_default_value<'a>(&self, x: &vis::InputValueDefinition<'a, BSchema, Self>) -> Option<&'a <<BSchema as CoreSchema>::InputValueDefinition as InputValueDefinition>::Value> {
        if self.hidden.contains(&0) && self.own.contains(&at(x.inner())) {
            None
        } else {
            x.inner().default_value()
        }
    }
    fn directive_arguments<'a>(&self, x: &vis::Directive<'a, BSchema, Self>) -> Option<&'a <<BSchema as CoreSchema>::Directive as bluejay_core::Directive<true>>::Arguments> {
        if self.hidden.contains(&1) {
            None
        } else {
            x.inner().arguments()
        }
    }
    fn type_definitions_for_name<'a>(&self, s: &'a BSchema, n: &str) -> It<'a> {
        // several candidates for a name, as when a schema has versions of types
        n.split('|').filter_map(|n| s.get_type_definition(n)).collect::<Vec<_>>().into_iter()
    }
}

/// Lets everything be seen, but has the custom scalars `Even` and `Two` accept what the other one does.
pub struct Swapped;
impl vis::Warden for Swapped {
    type SchemaDefinition = BSchema;
    type TypeDefinitionsForName<'b> = It<'b>;
    fn is_field_definition_visible(&self, _: &<BSchema as CoreSchema>::FieldDefinition) -> bool {
        true
    }
    fn is_input_value_definition_visible(&self, _: &<BSchema as CoreSchema>::InputValueDefinition) -> bool {
        true
    }
    fn is_enum_value_definition_visible(&self, _: &<BSchema as CoreSchema>::EnumValueDefinition) -> bool {
        true
    }
    fn is_union_member_type_visible(&self, _: &<BSchema as CoreSchema>::UnionMemberType) -> bool {
        true
    }
    fn is_interface_implementation_visible(&self, _: &<BSchema as CoreSchema>::InterfaceImplementation) -> bool {
        true
    }
    fn is_directive_definition_visible(&self, _: &<BSchema as CoreSchema>::DirectiveDefinition) -> bool {
        true
    }
    fn is_custom_scalar_type_definition_visible(&self, _: &<BSchema as CoreSchema>::CustomScalarTypeDefinition) -> bool {
        true
    }
    fn is_enum_type_definition_visible(&self, _: &<BSchema as CoreSchema>::EnumTypeDefinition) -> bool {
        true
    }
    fn is_input_object_type_definition_visible(&self, _: &<BSchema as CoreSchema>::InputObjectTypeDefinition) -> bool {
        true
    }
    fn is_interface_type_definition_visible(&self, _: &<BSchema as CoreSchema>::InterfaceTypeDefinition) -> bool {
        true
    }
    fn is_object_type_definition_visible(&self, _: &<BSchema as CoreSchema>::ObjectTypeDefinition) -> bool {
        true
    }
    fn is_union_type_definition_visible(&self, _: &<BSchema as CoreSchema>::UnionTypeDefinition) -> bool {
        true
    }
    fn custom_scalar_definition_coerce_input<const CONST: bool>(&self, t: &<BSchema as CoreSchema>::CustomScalarTypeDefinition, v: &impl bluejay_core::Value<CONST>) -> Result<(), std::borrow::Cow<'static, str>> {
        custom(&swap(t.name()), v)
    }
    fn type_definitions_for_name<'a>(&self, s: &'a BSchema, n: &str) -> It<'a> {
        s.get_type_definition(n).into_iter().collect::<Vec<_>>().into_iter()
    }
}
fn swap(text: &str) -> String {
    text.replace("Even", "\0").replace("Two", "Even").replace('\0', "Two")
}
const SCALARS: &str = "scalar Even scalar Two scalar Any input In{e:Even t:[Two!] n:In} directive@d(e:Even t:Two)repeatable on QUERY|FIELD|FRAGMENT_SPREAD|VARIABLE_DEFINITION type Query{f(e:Even t:Two es:[Even!] ts:[[Two]] in:In any:Any=1):Int}";

/// The schema document with the hidden elements deleted, and with them what refers to hidden types.
pub fn without(doc: &SdlDoc, hidden: &Hidden) -> SdlDoc {
    let has = |p: &str| hidden.contains(p);
    let type_ok = |n: &str| BUILTIN_SCALARS.contains(&n) || n.starts_with("__") || (!has(n) && doc.types.iter().any(|t| t.name == n));
    let dirs = |d: &[Dir]| -> Vec<Dir> {
        d.iter().filter(|d| !has(&format!("@{}", d.name))).map(|d| if has("applied arguments") { Dir { args: vec![], ..d.clone() } } else { d.clone() }).collect()
    };
    let inputs = |own: &str, v: &[InputVal], par: bool| -> Vec<InputVal> {
        let mut n: BTreeMap<&str, usize> = BTreeMap::new();
        v.iter()
            .filter(|x| {
                let k = n.entry(&x.name).or_default();
                *k += 1;
                let p = if par { format!("{own}({})", x.name) } else { format!("{own}.{}", x.name) };
                let p = if *k > 1 { format!("{p}#{k}") } else { p };
                !has(&p) && type_ok(x.ty.base())
            })
            .map(|x| InputVal { dirs: dirs(&x.dirs), default: x.default.clone().filter(|_| !has("defaults")), ..x.clone() })
            .collect()
    };
    let fields = |own: &str, v: &[FieldDef]| -> Vec<FieldDef> {
        let mut n: BTreeMap<&str, usize> = BTreeMap::new();
        v.iter()
            .filter_map(|x| {
                let k = n.entry(&x.name).or_default();
                *k += 1;
                let p = format!("{own}.{}", x.name);
                let p = if *k > 1 { format!("{p}#{k}") } else { p };
                (!has(&p) && type_ok(x.ty.base())).then(|| FieldDef { args: inputs(&p, &x.args, true), dirs: dirs(&x.dirs), ..x.clone() })
            })
            .collect()
    };
    let ifaces = |own: &str, v: &[String]| -> Vec<String> { v.iter().filter(|i| type_ok(i) && !has(&format!("{own}:{i}"))).cloned().collect() };
    SdlDoc {
        schemas: doc.schemas.iter().map(|s| SchemaDef { dirs: dirs(&s.dirs), roots: s.roots.iter().filter(|r| type_ok(&r.1)).cloned().collect(), ..s.clone() }).collect(),
        types: doc
            .types
            .iter()
            .filter(|t| type_ok(&t.name))
            .map(|t| TypeDef {
                dirs: dirs(&t.dirs),
                kind: match &t.kind {
                    Kind::Scalar => Kind::Scalar,
                    Kind::Object { implements, fields: f } => Kind::Object { implements: ifaces(&t.name, implements), fields: fields(&t.name, f) },
                    Kind::Interface { implements, fields: f } => Kind::Interface { implements: ifaces(&t.name, implements), fields: fields(&t.name, f) },
                    Kind::Union { members } => Kind::Union { members: members.iter().filter(|m| type_ok(m) && !has(&format!("{}|{m}", t.name))).cloned().collect() },
                    Kind::Enum { values } => {
                        Kind::Enum { values: values.iter().filter(|v| !has(&format!("{}.{}", t.name, v.name))).map(|v| EnumVal { dirs: dirs(&v.dirs), ..v.clone() }).collect() }
                    }
                    Kind::Input { fields: f } => Kind::Input { fields: inputs(&t.name, f, false) },
                },
                ..t.clone()
            })
            .collect(),
        dirdefs: doc.dirdefs.iter().filter(|d| !has(&format!("@{}", d.name))).map(|d| DirDef { args: inputs(&format!("@{}", d.name), &d.args, true), ..d.clone() }).collect(),
    }
}

const EXECUTABLE: [&str; 8] = ["QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION"];
const BUILTIN_DIRS: [&str; 5] = ["skip", "include", "deprecated", "specifiedBy", "oneOf"];
/// The types and directives in use: those an operation can come across, and the directives applied to them.
fn in_use(s: &Schema, hidden: &Hidden) -> (BTreeSet<String>, BTreeSet<String>) {
    struct X<'a> {
        s: &'a Schema,
        hidden: &'a Hidden,
        types: BTreeSet<String>,
        dirs: BTreeSet<String>,
    }
    impl X<'_> {
        fn ds(&mut self, d: &[Dir]) {
            d.iter().for_each(|d| self.dir(&d.name))
        }
        fn dir(&mut self, n: &str) {
            if !self.hidden.contains(&format!("@{n}")) && self.dirs.insert(n.into()) {
                let d = self.s.dirs.get(n).unwrap_or_else(|| panic!("harness: directive {n}")).clone();
                self.inputs(&d.args)
            }
        }
        fn inputs(&mut self, v: &[InputVal]) {
            for x in v {
                self.ds(&x.dirs);
                self.ty(x.ty.base())
            }
        }
        fn fields(&mut self, v: &[FieldDef]) {
            for x in v {
                self.ds(&x.dirs);
                self.inputs(&x.args);
                self.ty(x.ty.base())
            }
        }
        fn ty(&mut self, n: &str) {
            if !self.types.insert(n.into()) {
                return;
            }
            let t = self.s.types.get(n).unwrap_or_else(|| panic!("harness: type {n}")).clone();
            self.ds(&t.dirs);
            let meta = ["__typename", "__schema", "__type"].iter().filter_map(|f| self.s.field(n, f)).cloned().collect::<Vec<_>>();
            self.fields(&meta);
            match &t.kind {
                Kind::Scalar => {}
                Kind::Object { implements, fields } => {
                    self.fields(fields);
                    implements.iter().for_each(|i| self.ty(i))
                }
                Kind::Interface { implements, fields } => {
                    self.fields(fields);
                    implements.iter().for_each(|i| self.ty(i));
                    self.s.implementors(n).iter().for_each(|i| self.ty(i))
                }
                Kind::Union { members } => members.iter().for_each(|i| self.ty(i)),
                Kind::Enum { values } => values.iter().for_each(|v| self.ds(&v.dirs)),
                Kind::Input { fields } => self.inputs(fields),
            }
        }
    }
    let mut x = X { s, hidden, types: BTreeSet::new(), dirs: BTreeSet::new() };
    for d in s.dirs.values() {
        if BUILTIN_DIRS.contains(&d.name.as_str()) || d.locs.iter().any(|l| EXECUTABLE.contains(&l.as_str())) {
            x.dir(&d.name)
        }
    }
    if let Some(d) = s.doc.schemas.first() {
        x.ds(&d.dirs)
    }
    x.ty(&s.query);
    s.mutation.iter().chain(&s.subscription).for_each(|t| x.ty(t));
    (x.types, x.dirs)
}

struct Space {
    cx: Ctx,
    doc: SdlDoc,
    els: Vec<(String, usize)>,
    own: &'static HashSet<usize>,
}
fn space(sdl: &str) -> Space {
    let cx = ctx(sdl);
    let els = elements(cx.b);
    let own = Box::leak(Box::new(els.iter().map(|e| e.1).collect()));
    Space { doc: parse::sdl(sdl).unwrap(), cx, els, own }
}
impl Space {
    fn warden(&self, hidden: &Hidden) -> W {
        W { own: self.own, hidden: self.els.iter().filter(|e| hidden.contains(&e.0)).map(|e| e.1).collect() }
    }
}
type Scoped<'a> = vis::SchemaDefinition<'a, BSchema, W>;

fn plain<X>(sdl: &str, f: impl FnOnce(&SchemaDefinition<Scalars>) -> X) -> X {
    let d: DefinitionDocument<Scalars> = DefinitionDocument::parse(sdl).unwrap_or_else(|e| panic!("harness: {e:?}\n{sdl}"));
    let s = SchemaDefinition::try_from(&d).unwrap_or_else(|_| panic!("harness: rejected\n{sdl}"));
    f(&s)
}
fn empty(d: &SdlDoc) -> bool {
    d.types.iter().any(|t| match &t.kind {
        Kind::Scalar => false,
        Kind::Object { fields, .. } | Kind::Interface { fields, .. } => fields.is_empty(),
        Kind::Union { members } => members.is_empty(),
        Kind::Enum { values } => values.is_empty(),
        Kind::Input { fields } => fields.is_empty(),
    })
}
fn sorted(mut d: SdlDoc) -> SdlDoc {
    d.types.sort_by(|a, b| a.name.cmp(&b.name));
    d.dirdefs.sort_by(|a, b| a.name.cmp(&b.name));
    d
}
fn errors<S: CoreSchema>(d: &ExecutableDocument<'_>, s: &S) -> Vec<String> {
    let c = VCache::new(d, s);
    let es: Vec<_> = BuiltinRulesValidator::validate(d, s, &c).collect();
    if es.is_empty() {
        return vec![];
    }
    let p = Paths::new(d);
    let mut v: Vec<String> = es.iter().map(|e| p.error(e)).collect();
    v.sort();
    v
}

fn check(r: &mut Run, sp: &Space, hidden: &Hidden, requests: &[ExecutableDocument<'static>], printing: bool) {
    if !r.case(format!("{}\nhidden: {}", sp.cx.sdl, hidden.iter().cloned().collect::<Vec<_>>().join(" "))) {
        return;
    }
    let cache = vis::Cache::new(sp.warden(hidden), sp.cx.b);
    let scoped: Scoped = match vis::SchemaDefinition::new(&cache) {
        Ok(s) => {
            r.check(!hidden.contains(&sp.cx.r.query), || "there is a scoped schema although the query root is hidden".into());
            if hidden.contains(&sp.cx.r.query) {
                return;
            }
            s
        }
        Err(_) => {
            r.outcome("hidden query root");
            return r.check(hidden.contains(&sp.cx.r.query), || "there is no scoped schema".into());
        }
    };
    let rest = without(&sp.doc, hidden);
    let all = Schema::build(&rest).unwrap_or_else(|e| panic!("harness: {e:?}"));
    let (types, dirs) = in_use(&all, hidden);
    // everything by name, whether in use or not, before anything has been listed
    let whole = normalise(expected(&all));
    let mut pr = vec![];
    for t in &sp.doc.types {
        let got = scoped.get_type_definition(&t.name).map(|x| conv::full(|| conv::type_def(&scoped, x, &mut pr)));
        let want = whole.types.iter().find(|x| x.name == t.name);
        match (got, want) {
            (None, None) => r.outcome("hidden type"),
            (Some(g), Some(w)) => {
                let mut v = conv::View { types: vec![g], ..Default::default() };
                v = normalise(v);
                if v.types[0] != *w {
                    r.agree(&format!("type {}", t.name), w, &v.types[0])
                }
                r.compared += 1;
            }
            (g, w) => r.fail(format!("type {}: visible {}, but it should be {}", t.name, g.is_some(), w.is_some())),
        }
        let names: &[FieldDef] = match &t.kind {
            Kind::Object { fields, .. } | Kind::Interface { fields, .. } => fields,
            _ => &[],
        };
        if let Some(f) = scoped.get_type_definition(&t.name).and_then(|t| t.fields_definition()) {
            for n in names {
                let want = all.field(&t.name, &n.name).is_some();
                r.check(f.get(&n.name).is_some() == want && f.contains_field(&n.name) == want, || format!("{}.{} is {}found by name", t.name, n.name, if want { "not " } else { "" }));
                for a in f.get(&n.name).and_then(|f| f.arguments_definition()).map(|a| n.args.iter().map(|x| (x, a.get(&x.name).is_some())).collect::<Vec<_>>()).unwrap_or_default() {
                    let want = all.field(&t.name, &n.name).unwrap().args.iter().any(|x| x.name == a.0.name);
                    r.check(a.1 == want, || format!("{}.{}({}) is {}found by name", t.name, n.name, a.0.name, if want { "not " } else { "" }))
                }
            }
        }
    }
    for d in &sp.doc.dirdefs {
        let got = CoreSchema::get_directive_definition(&scoped, &d.name).map(|x| conv::dir_def(&scoped, x, &mut pr));
        r.agree(&format!("directive {}", d.name), &all.dirs.get(&d.name).cloned(), &got);
    }
    // the first candidate to be seen
    for (a, b) in sp.doc.types.iter().zip(sp.doc.types.iter().skip(1)) {
        let of: Vec<&str> = [&b.name, &a.name].into_iter().map(|n| n.as_str()).filter(|n| whole.types.iter().any(|t| t.name == **n)).collect();
        let got = scoped.get_type_definition(&format!("{}|{}", b.name, a.name)).map(|t| t.name());
        r.agree(&format!("type {} or else {}", b.name, a.name), &of.first().copied(), &got);
    }
    // what is listed
    let mut want = whole.clone();
    want.types.retain(|t| types.contains(&t.name));
    want.dirdefs.retain(|t| dirs.contains(&t.name));
    let got = normalise(conv::view_all(&scoped, &mut pr));
    if got != want {
        let names = |v: &conv::View| v.types.iter().map(|t| t.name.clone()).chain(v.dirdefs.iter().map(|d| format!("@{}", d.name))).collect::<Vec<_>>();
        r.agree("listed", &names(&want), &names(&got));
        for (a, b) in want.types.iter().zip(&got.types) {
            if a != b {
                r.agree("listed type", a, b)
            }
        }
        r.agree("listed directives", &want.dirdefs, &got.dirdefs);
        let bare = |v: &conv::View| conv::View { types: vec![], dirdefs: vec![], ..v.clone() };
        r.agree("schema", &bare(&want), &bare(&got));
    }
    r.compared += 1;
    r.check(pr.is_empty(), || format!("{pr:?}"));
    for t in all.types.values() {
        if let Kind::Interface { .. } = t.kind {
            let got = conv::implementors(&scoped, &t.name).unwrap_or_default();
            r.agree(&format!("implementors of {}", t.name), &all.implementors(&t.name).into_iter().collect::<Vec<_>>(), &{
                let mut g = got;
                g.sort();
                g
            });
        }
    }
    // the same uses, of the scoped schema and of the document without the hidden elements
    let listed = sorted(SdlDoc { schemas: rest.schemas.clone(), types: rest.types.iter().filter(|t| types.contains(&t.name)).cloned().collect(), dirdefs: rest.dirdefs.iter().filter(|t| dirs.contains(&t.name)).cloned().collect() });
    if printing {
        let text = SchemaDefinitionPrinter::to_string(&scoped);
        if empty(&listed) {
            r.outcome("leaves a type without content")
        } else {
            r.outcome("printed");
            plain(&ast::sdl(&listed), |p| r.agree("printed", &SchemaDefinitionPrinter::to_string(p), &text));
        }
    }
    if !requests.is_empty() && !empty(&rest) {
        plain(&ast::sdl(&rest), |p| {
            for (d, t) in requests.iter().zip(REQUESTS) {
                if hidden.contains("@skip") && t.contains("@skip") {
                    continue;
                }
                let (a, b) = (errors(d, p), errors(d, &scoped));
                r.outcome(if a.is_empty() { "valid request" } else { "invalid request" });
                if a != b {
                    r.agree(&format!("errors of {}", bluejay_printer::executable::ExecutableDocumentPrinter::to_string(d)), &a, &b)
                }
                r.compared += 1;
            }
        })
    }
}

const BIG: &str = "schema@sd(x:1){query:Q mutation:M subscription:Su} directive@sd(x:Int)on SCHEMA
directive@t(a:In e:E=X)repeatable on OBJECT|INTERFACE|FIELD_DEFINITION|ENUM|ENUM_VALUE|UNION|SCALAR|INPUT_OBJECT|INPUT_FIELD_DEFINITION|ARGUMENT_DEFINITION
directive@q(s:Sc n:Int!)on FIELD|QUERY directive@unused(o:Only)on OBJECT input Only{a:Int}
scalar Sc@t scalar Sd@specifiedBy(url:\"u\") enum E@t{X Y@t(e:Y) Z@deprecated} enum F{V}
input In@t{a:Int b:E=Y c:In d:[Jn!]@t} input Jn{s:Sc f:F} input One@oneOf{a:Int b:Sd}
interface I@t{id:ID n:I a(x:Int=1 i:In):Sc} interface J implements I{id:ID n:I a(x:Int=1 i:In):Sc j:J}
type A implements I{id:ID n:A a(x:Int=1@t i:In):Sc b:B u:U} type B implements I&J@t(a:{a:1}){id:ID@t n:I a(x:Int=1 i:In):Sc j:J c:C}
type C{c:C e:E@t f(l:[Jn!]! x:F):F o(one:One):Int@deprecated} union U@t=A|C union V=B type D{d:Sd}
type Q{a:A i:I u:U v:[V!] c:C j(in:In):[J]} type M{m(in:In!):C} type Su{s:A}";
const SMALL: &str = "directive@d(n:N)on FIELD|ENUM interface I{i:I o:A} type A implements I{i:I o:A e(x:N):E} union U=A enum E{X Y} input N{n:N e:E} schema{query:Q} type Q{u:U i:I}";
const RING: &str = "interface I{a:A} interface J implements I{a:A b:B} type A implements I{a:A b:B} type B implements I&J{a:A b:B c:C} type C{a:A u:U} union U=A|B schema{query:Q mutation:C} type Q{u:U} type Z{j:J}";
const VERSIONS: &str = "type A{f:Int f:String f(x:N):E g(x:Int x:N):Int} enum E{X Y} input N{a:Int a:E b:N} schema{query:Q} type Q{a:A b:E b:A}";
const CHAIN: &str = "directive@a(x:P)on OBJECT directive@b(x:R@c)on INPUT_OBJECT directive@c(e:S)on ARGUMENT_DEFINITION|ENUM_VALUE|INPUT_FIELD_DEFINITION directive@e on SCALAR|SCHEMA
input P@b{p:P r:R} input R{r:Int@c s:S} enum S{X@c Y} scalar T@e type Q@a{t:T q(p:P):Q} schema{query:Q}";

/// every place has a directive of its own, each with a type only it needs
const PLACES: &str = "schema@d1{query:Q} scalar S@d2 type Q@d3{s:S@d4 i:I a(x:Int@d6):U e:E} interface I@d8{n:Int@d5} type A implements I{n:Int} union U@d9=A enum E@da{X Y@db} input N@dc{n:Int@dd} type B{b(n:N):Int}
directive@d1(x:T1)on SCHEMA directive@d2(x:T2)on SCALAR directive@d3(x:T3)on OBJECT directive@d4(x:T4)on FIELD_DEFINITION directive@d5(x:T5)on FIELD_DEFINITION directive@d6(x:N)on ARGUMENT_DEFINITION
directive@d7(x:T7)on ARGUMENT_DEFINITION directive@d8(x:T8@d7)on INTERFACE directive@d9(x:T9)on UNION directive@da(x:Ta)on ENUM directive@db(x:Tb)on ENUM_VALUE directive@dc(x:Tc)on INPUT_OBJECT directive@dd(x:Td)on INPUT_FIELD_DEFINITION
scalar T1 enum T2{V} input T3{f:Int} scalar T4 enum T5{V} input T7{f:Int} scalar T8 enum T9{V} input Ta{f:Int} scalar Tb enum Tc{V} input Td{f:Int}";

const REQUESTS: [&str; 30] = [
    "{a{id n{id}}}", "{i{id n{id} a(x:2)}}", "{i{...on A{b{id}}...on B{j{j{id}}}}}", "{u{...on A{id}...on C{e}}}", "{v{...on B{c{c{e}}}}}", "{u{...F}} fragment F on U{__typename...on C{f(l:[{s:1 f:V}] x:V)}}",
    "{j(in:{a:1 b:X c:{b:Z}}){id}}", "query($i:In!){j(in:$i){j{n{id}}}}", "query($i:In={b:Y}){j(in:{c:$i}){id}}", "query@q(n:1){a@q(s:1 n:2){id}}", "mutation{m(in:{a:1}){c{e}}}", "subscription{s{id}}",
    "{c{o(one:{a:1})}}", "query($s:Sd){c{o(one:{b:$s})}}", "{a{b{c{f(l:[])}}u{...on A{u{__typename}}}}}", "{a{a(i:{d:[{s:{} f:V}]})}}", "{i{...on I{id}...on J{j{id}}}}", "{__schema{types{name}}a@skip(if:false){id}}",
    "query($x:[Jn!]!){c{f(l:$x x:V)}}", "{c{e x:e c{f(l:{s:1})}}}", "{i{...on U{__typename}}}", "{a{...G}} fragment G on J{id}", "{i{...G}} fragment G on V{...on B{id}}", "{u{...on D{d}}}", "query($o:Only){a{id}c{e}}",
    "{a{id@unused n{b:id}}}", "{__type(name:\"A\"){name}a{__typename}}", "{v{...on I{a}...on J{a(x:1)}}}", "query($e:E!){j(in:{b:$e}){id}}", "{a{id(x:1)a(y:1)}}",
];

fn pick(c: &mut Ch, els: &[(String, usize)]) -> Hidden {
    els.iter().filter(|_| c.dev_flip()).map(|e| e.0.clone()).collect()
}
fn requests(from: &[&'static str]) -> Vec<ExecutableDocument<'static>> {
    from.iter().map(|t| ExecutableDocument::parse(t).unwrap_or_else(|_| panic!("harness: {t}"))).collect()
}
thread_local! {
    static DOCS: Vec<ExecutableDocument<'static>> = requests(&REQUESTS);
}

pub fn c26(rep: &mut Report) {
    let lists: Vec<Space> = super::scale::lists().iter().map(|l| space(&l.2)).collect();
    rep.explore("many", 0, |c, r| {
        let sp = &lists[c.pick(lists.len())];
        let k = c.pick(sp.els.len());
        let h = match c.pick(3) {
            0 => [sp.els[k].0.clone()].into(),
            1 => sp.els[k..].iter().map(|e| e.0.clone()).filter(|n| !n.starts_with("Query") && !n.contains(' ') && n != "defaults").collect(),
            _ => sp.els[..k].iter().map(|e| e.0.clone()).filter(|n| !n.starts_with("Query")).collect(),
        };
        check(r, sp, &h, &[], true)
    });
    let th = rep.thorough();
    let (b, b2) = (rep.b(3, 4), rep.b(2, 3));
    let sp = space(BIG);
    rep.explore("few-hidden", b, |c, r| check(r, &sp, &pick(c, &sp.els), &[], true));
    rep.explore("uses", b2, |c, r| {
        let h = pick(c, &sp.els);
        DOCS.with(|d| check(r, &sp, &h, d, true))
    });
    let places = space(PLACES);
    rep.explore("one-directive-to-a-place", b2, |c, r| check(r, &places, &pick(c, &places.els), &[], true));
    // all but a few hidden
    let b = rep.b(3, 4);
    rep.explore("few-visible", b, |c, r| {
        let keep = pick(c, &sp.els);
        let h = sp.els.iter().map(|e| e.0.clone()).filter(|n| !keep.contains(n) && n != "Q" && !n.starts_with("Q.")).collect();
        check(r, &sp, &h, &[], true)
    });
    for (name, sdl, q) in [("every-subset", SMALL, 21), ("every-subset-of-a-ring", RING, 21), ("every-subset-of-directives", CHAIN, 21)] {
        let sp = space(sdl);
        let n = sp.els.len() - 2; // without the last two, which are no elements
        let bound = if th { n as u32 } else { 5 };
        let _ = q;
        rep.explore(name, bound, |c, r| {
            let h = pick(c, &sp.els[..n]);
            check(r, &sp, &h, &[], true)
        });
    }
    let sp = space(VERSIONS);
    rep.explore("versions", if th { 12 } else { 6 }, |c, r| {
        // at most one of the elements sharing a name is visible
        let n = sp.els.len() - 2;
        let mut h = Hidden::new();
        let groups: BTreeSet<&str> = sp.els[..n].iter().map(|e| e.0.split('#').next().unwrap()).collect();
        let twice: Vec<&str> = groups.iter().copied().filter(|g| sp.els.iter().any(|e| e.0 == format!("{g}#2"))).collect();
        for e in &sp.els[..n] {
            if !twice.contains(&e.0.split('#').next().unwrap()) && c.dev_flip() {
                h.insert(e.0.clone());
            }
        }
        for g in twice {
            let of: Vec<&String> = sp.els[..n].iter().map(|e| &e.0).filter(|e| *e == g || e.starts_with(&format!("{g}#"))).collect();
            let keep = c.pick(of.len() + 1);
            h.extend(of.iter().enumerate().filter(|(i, _)| *i != keep).map(|(_, e)| (*e).clone()));
        }
        check(r, &sp, &h, &[], true)
    });
    let sc = ctx(SCALARS);
    let other = ctx(&swap(SCALARS));
    let k = if th { 5 } else { 4 };
    rep.explore("custom-scalars", 0, |c, r| {
        let place = c.pick_str(&["{f(#)}", "query($v:In={#}){f(in:$v)}", "{f(in:{#})}", "{f(in:{n:{#}})}", "query@d(#){f}", "{f@d(#)}", "query($v:Even@d(#)){f(e:$v)}", "query($v:Even=# $w:[Two]=#){f}", "{...F@d(#)}fragment F on Query{f(#)}"]);
        let mut b = k;
        let v = super::validation::value(c, &mut b, &["1", "2", "null", "\"ab\"", "ab", "$v"], &["a", "b"]);
        let text = if place.contains("=#") { place.replace('#', &v) } else { place.replace('#', &format!("{}:{v}", c.pick_str(&["e", "t", "es", "ts"]))) };
        let Ok(d) = ExecutableDocument::parse(&text) else { return r.skip() };
        if !r.case(format!("{SCALARS}\n{text}")) {
            return;
        }
        let cache = vis::Cache::new(Swapped, sc.b);
        let Ok(scoped) = vis::SchemaDefinition::new(&cache) else { return r.fail("there is no scoped schema") };
        let swapped = swap(&text);
        let Ok(e) = ExecutableDocument::parse(&swapped) else { panic!("harness: {swapped}") };
        let want: Vec<String> = errors(&e, other.b).iter().map(|e| swap(e)).collect();
        r.outcome(if want.is_empty() { "valid" } else { "invalid" });
        let mut want = want;
        want.sort();
        r.agree("errors with the warden's coercion", &want, &errors(&d, &scoped));
        let cache = vis::Cache::new(vis::NullWarden::default(), sc.b);
        let Ok(scoped) = vis::SchemaDefinition::new(&cache) else { return r.fail("there is no scoped schema") };
        r.agree("errors with the schema's coercion", &errors(&d, sc.b), &errors(&d, &scoped));
    });
    rep.explore("null-warden", 0, |c, r| {
        let sdl = c.pick_str(&[BIG, SMALL, RING, VERSIONS, CHAIN, PLACES]);
        let k = c.pick(REQUESTS.len() + 1);
        if !r.case(format!("{sdl}\n{}", if k == 0 { "" } else { REQUESTS[k - 1] })) {
            return;
        }
        let sp = space(sdl);
        let cache = vis::Cache::new(vis::NullWarden::default(), sp.cx.b);
        let Ok(s) = vis::SchemaDefinition::new(&cache) else { return r.fail("there is no scoped schema") };
        let (types, dirs) = in_use(&sp.cx.r, &Hidden::new());
        let mut want = normalise(expected(&sp.cx.r));
        want.types.retain(|t| types.contains(&t.name));
        want.dirdefs.retain(|t| dirs.contains(&t.name));
        let mut pr = vec![];
        if sdl != VERSIONS {
            r.agree("everything in use", &want, &normalise(conv::view_all(&s, &mut pr)));
        }
        r.agree("problems", &vec![], &pr);
        if k > 0 {
            let d = ExecutableDocument::parse(REQUESTS[k - 1]).unwrap();
            r.agree("errors", &errors(&d, sp.cx.b), &errors(&d, &s));
        }
    });
}

// ---- C27 ----

const QUESTIONS: [&str; 26] = [
    "types", "directives", "mutation", "type A", "type B", "type C", "type I", "type J", "type U", "type Z", "type Q", "fields A", "fields B", "fields I", "A.b", "B.c", "C.u", "implements B", "implements J", "members U", "implementors I", "implementors J", "members by name U", "Q.u", "schema directives", "everything",
];
fn ask(s: &Scoped<'_>, q: &str) -> String {
    let (verb, arg) = q.split_once(' ').unwrap_or((q, ""));
    let ty = |n: &str| s.get_type_definition(n);
    let fields = |n: &str| ty(n).and_then(|t| t.fields_definition()).map(|f| f.iter().filter(|f| !f.is_builtin()).map(|f| format!("{}:{}", f.name(), f.r#type().display_name())).collect::<Vec<_>>());
    match verb {
        "types" => format!("{:?}", s.type_definitions().map(|t| t.name().to_string()).collect::<Vec<_>>()),
        "directives" => format!("{:?}", s.directive_definitions().map(|t| t.name().to_string()).collect::<Vec<_>>()),
        "mutation" => format!("{:?} {:?}", s.mutation().map(|t| t.name()), s.subscription().map(|t| t.name())),
        "type" => format!("{:?}", ty(arg).map(|t| format!("{} {:?}", t.name(), t.kind()))),
        "fields" => format!("{:?}", fields(arg)),
        "implements" => format!(
            "{:?}",
            match ty(arg) {
                Some(T::Object(o)) => o.interface_implementations().map(|i| i.iter().map(|i| i.name().to_string()).collect::<Vec<_>>()),
                Some(T::Interface(o)) => o.interface_implementations().map(|i| i.iter().map(|i| i.name().to_string()).collect::<Vec<_>>()),
                _ => None,
            }
        ),
        "members" if arg.starts_with("by name") => match ty("U") {
            Some(T::Union(u)) => format!("{:?}", ["A", "B", "C"].map(|n| u.union_member_types().contains_type(n))),
            _ => "none".into(),
        },
        "members" => match ty(arg) {
            Some(T::Union(u)) => format!("{:?}", u.union_member_types().iter().map(|m| m.name().to_string()).collect::<Vec<_>>()),
            _ => "none".into(),
        },
        "implementors" => format!("{:?}", conv::implementors(s, arg)),
        "has" => format!("{:?}", ty(arg).and_then(|t| t.fields_definition()).map(|f| NAMES.iter().map(|n| f.contains_field(n)).collect::<Vec<_>>())),
        "first" if arg == "types" => format!("{:?} {:?}", s.type_definitions().next().map(|t| t.name().to_string()), s.directive_definitions().next().map(|t| t.name().to_string())),
        "first" => match ty(arg) {
            Some(T::Enum(e)) => format!("{:?}", e.enum_value_definitions().iter().next().map(|v| v.name().to_string())),
            Some(T::Union(u)) => format!("{:?}", u.union_member_types().iter().next().map(|v| v.name().to_string())),
            Some(T::InputObject(i)) => format!("{:?}", i.input_field_definitions().iter().next().map(|v| v.name().to_string())),
            t => format!("{:?}", t.and_then(|t| t.fields_definition()).and_then(|f| f.iter().next().map(|f| f.name().to_string()))),
        },
        "count" => match ty(arg) {
            Some(T::Enum(e)) => format!("{} {}", e.enum_value_definitions().iter().len(), e.enum_value_definitions().is_empty()),
            Some(T::Union(u)) => format!("{} {}", u.union_member_types().iter().len(), u.union_member_types().is_empty()),
            Some(T::InputObject(i)) => format!("{} {}", i.input_field_definitions().len(), i.input_field_definitions().is_empty()),
            t => format!("{:?}", t.and_then(|t| t.fields_definition()).map(|f| (f.iter().filter(|f| !f.is_builtin()).count(), f.is_empty()))),
        },
        "named" => match ty(arg) {
            Some(T::InputObject(i)) => format!("{:?}", NAMES.map(|n| i.input_field_definitions().get(n).map(|f| f.r#type().display_name()))),
            _ => "none".into(),
        },
        "values" => match ty(arg) {
            Some(T::Enum(e)) => format!("{:?}", e.enum_value_definitions().iter().map(|v| (v.name().to_string(), v.directives().map(|d| d.len()))).collect::<Vec<_>>()),
            _ => "none".into(),
        },
        "arguments" => {
            let (t, f) = arg.split_once('.').unwrap();
            format!("{:?}", ty(t).and_then(|t| t.fields_definition()).and_then(|x| x.get(f)).map(|f| f.arguments_definition().map(|a| NAMES.map(|n| a.get(n).map(|a| a.name().to_string())))))
        }
        "schema" => format!("{:?}", HasDirectives::directives(s).map(|d| d.iter().map(|d| d.name().to_string()).collect::<Vec<_>>())),
        "everything" => {
            let mut pr = vec![];
            format!("{:?} {pr:?}", conv::view_all(s, &mut pr))
        }
        _ => {
            let (t, f) = verb.split_once('.').unwrap();
            format!("{:?}", ty(t).and_then(|t| t.fields_definition()).and_then(|x| x.get(f).map(|f| format!("{}:{}", f.name(), f.r#type().display_name()))))
        }
    }
}
const NAMES: [&str; 12] = ["a", "b", "c", "d", "e", "f", "i", "j", "l", "o", "x", "nope"];
fn histories(r: &mut Run, sp: &Space, hidden: &Hidden, questions: &[&str], asked: &[(usize, bool)], fresh: &[String]) {
    if !r.case(format!("{}\nhidden: {}\nasked: {}", sp.cx.sdl, hidden.iter().cloned().collect::<Vec<_>>().join(" "), asked.iter().map(|(q, o)| format!("{}{}", questions[*q], if *o { " of another" } else { "" })).collect::<Vec<_>>().join(", "))) {
        return;
    }
    let cache = vis::Cache::new(sp.warden(hidden), sp.cx.b);
    let Ok(one): Result<Scoped, _> = vis::SchemaDefinition::new(&cache) else { return r.fail("there is no scoped schema") };
    let Ok(two): Result<Scoped, _> = vis::SchemaDefinition::new(&cache) else { return r.fail("there is no scoped schema") };
    for (i, (q, other)) in asked.iter().enumerate() {
        let got = ask(if *other { &two } else { &one }, questions[*q]);
        r.outcome(format!("{}: {}", questions[*q], got.chars().take(60).collect::<String>()));
        r.agree(&format!("question {i} ({})", questions[*q]), &fresh[*q], &got);
    }
    for (i, q) in questions.iter().enumerate() {
        let got = ask(&one, q);
        if got != fresh[i] {
            r.agree(&format!("afterwards, {q}"), &fresh[i], &got);
        }
    }
    r.compared += 1;
}
fn fresh(sp: &Space, hidden: &Hidden, questions: &[&str]) -> Vec<String> {
    questions
        .iter()
        .map(|q| {
            let cache = vis::Cache::new(sp.warden(hidden), sp.cx.b);
            let Ok(s): Result<Scoped, _> = vis::SchemaDefinition::new(&cache) else { panic!("harness: no scoped schema") };
            ask(&s, q)
        })
        .collect()
}

const BIGQ: [&str; 22] = [
    "types", "directives", "type E", "type In", "type Jn", "type Sc", "type D", "type Only", "fields C", "fields A", "A.a", "C.f", "Q.j", "B.j", "implementors I", "implementors J", "members U", "implements B", "implements A", "schema directives", "mutation", "everything",
];

pub fn c27(rep: &mut Report) {
    let th = rep.thorough();
    let hide = |xs: &[&str]| xs.iter().map(|x| x.to_string()).collect::<Hidden>();
    let configs: [Hidden; 8] = [hide(&[]), hide(&["B"]), hide(&["I"]), hide(&["B:I"]), hide(&["A.b", "U|B"]), hide(&["C"]), hide(&["J:I", "C.u"]), hide(&["J", "A:I", "Q.u"])];
    let sp = space(RING);
    let answers: Vec<Vec<String>> = configs.iter().map(|h| fresh(&sp, h, &QUESTIONS)).collect();
    let n = if th { 4 } else { 3 };
    rep.explore("questions", 0, |c, r| {
        let asked: Vec<(usize, bool)> = (0..n).map(|_| (c.pick(QUESTIONS.len()), false)).collect();
        let k = c.pick(configs.len());
        histories(r, &sp, &configs[k], &QUESTIONS, &asked, &answers[k])
    });
    rep.explore("two-schemas-over-one-cache", 0, |c, r| {
        let asked: Vec<(usize, bool)> = (0..if th { 3 } else { 2 }).map(|_| (c.pick(QUESTIONS.len()), c.flip())).collect();
        let k = c.pick(configs.len());
        histories(r, &sp, &configs[k], &QUESTIONS, &asked, &answers[k])
    });
    // every set of hidden elements of a few, with every pair of questions
    let few: Vec<(String, usize)> = sp.els.iter().filter(|e| ["A", "B", "I", "J", "U", "B:I", "B:J", "A:I", "U|A", "C.u", "B.c", "J:I"].contains(&e.0.as_str())).cloned().collect();
    let b = if th { 12 } else { 3 };
    rep.explore("hidden-and-questions", b, |c, r| {
        let h = pick(c, &few);
        let answers = fresh(&sp, &h, &QUESTIONS);
        let asked = [(c.pick(QUESTIONS.len()), false), (c.pick(QUESTIONS.len()), false)];
        histories(r, &sp, &h, &QUESTIONS, &asked, &answers)
    });
    let big = space(BIG);
    let configs: [Hidden; 5] = [hide(&[]), hide(&["In", "A:I"]), hide(&["@t", "U|C"]), hide(&["Sc", "J", "@sd"]), hide(&["E", "C.f(x)", "M"])];
    let answers: Vec<Vec<String>> = configs.iter().map(|h| fresh(&big, h, &BIGQ)).collect();
    rep.explore("questions-about-more-kinds", 0, |c, r| {
        let asked: Vec<(usize, bool)> = (0..n).map(|_| (c.pick(BIGQ.len()), false)).collect();
        let k = c.pick(configs.len());
        histories(r, &big, &configs[k], &BIGQ, &asked, &answers[k])
    });
    // the other ways to ask: by name, how many, the first one only
    const BY: [&str; 15] = ["has A", "has C", "first A", "first C", "first E", "first In", "first types", "count A", "count In", "count E", "named In", "values E", "arguments C.f", "fields C", "everything"];
    let configs: [Hidden; 5] = [hide(&[]), hide(&["A.id", "C.c", "In.a"]), hide(&["A.a", "C.e", "E.X", "In.d"]), hide(&["I", "E.Y", "@t", "C.f(l)"]), hide(&["F", "Jn", "B"])];
    let answers: Vec<Vec<String>> = configs.iter().map(|h| fresh(&big, h, &BY)).collect();
    let m = if th { 3 } else { 2 };
    rep.explore("questions-by-name", 0, |c, r| {
        let asked: Vec<(usize, bool)> = (0..m).map(|_| (c.pick(BY.len()), c.flip())).collect();
        let k = c.pick(configs.len());
        histories(r, &big, &configs[k], &BY, &asked, &answers[k])
    });
    // names that several fields share
    let sp = space(VERSIONS);
    const Q: [&str; 9] = ["A.f", "fields A", "Q.b", "fields Q", "type E", "types", "A.g", "type N", "everything"];
    rep.explore("questions-about-versions", 0, |c, r| {
        let mut h = Hidden::new();
        let f = c.pick(3);
        h.extend((0..3).filter(|i| *i != f).map(|i| ["A.f", "A.f#2", "A.f#3"][i].to_string()));
        h.insert(c.pick_str(&["Q.b", "Q.b#2"]).into());
        h.insert(c.pick_str(&["A.g(x)", "A.g(x)#2"]).into());
        h.insert(c.pick_str(&["N.a", "N.a#2"]).into());
        if c.flip() {
            h.insert("E".into());
        }
        let answers = fresh(&sp, &h, &Q);
        let asked: Vec<(usize, bool)> = (0..n).map(|_| (c.pick(Q.len()), false)).collect();
        histories(r, &sp, &h, &Q, &asked, &answers)
    });
}
