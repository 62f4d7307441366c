//! bluejay values, documents and schemas (through the bluejay-core traits) -> reference trees.
use crate::r::ast::*;
use bluejay_core::definition::prelude::*;
use bluejay_core::definition::{self as d, SchemaDefinition, TypeDefinitionReference};
use bluejay_core::executable as e;
use bluejay_core::executable::{ExecutableDocument, OperationDefinition as _, Selection as _};
use bluejay_core::{Argument, AsIter, Directive, ObjectValue, OperationType, Value, ValueReference, Variable};

pub fn val<const C: bool, V: Value<C>>(v: &V) -> Val {
    match v.as_ref() {
        ValueReference::Variable(v) => Val::Var(v.name().to_string()),
        ValueReference::Integer(i) => Val::Int(i),
        ValueReference::Float(f) => Val::Float(f),
        ValueReference::String(s) => Val::Str(s.to_string()),
        ValueReference::Boolean(b) => Val::Bool(b),
        ValueReference::Null => Val::Null,
        ValueReference::Enum(s) => Val::Enum(s.to_string()),
        ValueReference::List(l) => Val::List(l.iter().map(val).collect()),
        ValueReference::Object(o) => Val::Obj(ObjectValue::iter(o).map(|(k, v)| (k.as_ref().to_string(), val(v))).collect()),
    }
}
pub fn args<const C: bool, A: bluejay_core::Arguments<C>>(a: Option<&A>) -> Args {
    a.map(|a| a.iter().map(|a| (a.name().to_string(), val(a.value()))).collect()).unwrap_or_default()
}
pub fn dirs<const C: bool, D: bluejay_core::Directives<C>>(d: Option<&D>) -> Vec<Dir> {
    d.map(|d| d.iter().map(|d| Dir { name: d.name().to_string(), args: args(d.arguments()) }).collect()).unwrap_or_default()
}
pub fn vty<T: e::VariableType>(t: &T) -> Ty {
    match t.as_ref() {
        e::VariableTypeReference::Named(n, r) => Ty::Named(n.to_string(), r),
        e::VariableTypeReference::List(t, r) => Ty::List(Box::new(vty(t)), r),
    }
}
pub fn kind(o: OperationType) -> OpKind {
    match o {
        OperationType::Query => OpKind::Query,
        OperationType::Mutation => OpKind::Mutation,
        OperationType::Subscription => OpKind::Subscription,
    }
}

pub fn sels<E: ExecutableDocument>(s: &E::SelectionSet) -> Vec<Sel> {
    s.iter().map(|s| sel::<E>(s)).collect()
}
fn sel<E: ExecutableDocument>(s: &E::Selection) -> Sel {
    use bluejay_core::executable::{FragmentSpread as _, InlineFragment as _};
    match s.as_ref() {
        e::SelectionReference::Field(f) => Sel::Field(fld::<E>(f)),
        e::SelectionReference::FragmentSpread(s) => Sel::Spread { name: s.name().to_string(), dirs: dirs(s.directives()) },
        e::SelectionReference::InlineFragment(i) => {
            Sel::Inline { on: i.type_condition().map(|s| s.to_string()), dirs: dirs(i.directives()), sels: sels::<E>(i.selection_set()) }
        }
    }
}
pub fn fld<E: ExecutableDocument>(f: &E::Field) -> Fld {
    use bluejay_core::executable::Field as _;
    Fld {
        alias: f.alias().map(|s| s.to_string()),
        name: f.name().to_string(),
        args: args(f.arguments()),
        dirs: dirs(f.directives()),
        sels: f.selection_set().map(|s| sels::<E>(s)),
    }
}
pub fn var<V: e::VariableDefinition>(v: &V) -> VarDef {
    VarDef { name: v.variable().to_string(), ty: vty(v.r#type()), default: v.default_value().map(val), dirs: dirs(v.directives()) }
}
pub fn op<E: ExecutableDocument>(o: &E::OperationDefinition) -> Op {
    use bluejay_core::executable::{ExplicitOperationDefinition as _, ImplicitOperationDefinition as _};
    match o.as_ref() {
        e::OperationDefinitionReference::Explicit(o) => Op {
            kind: kind(o.operation_type()),
            shorthand: false,
            name: o.name().map(|s| s.to_string()),
            vars: o.variable_definitions().map(|v| v.iter().map(var).collect()).unwrap_or_default(),
            dirs: dirs(o.directives()),
            sels: sels::<E>(o.selection_set()),
        },
        e::OperationDefinitionReference::Implicit(o) => Op { kind: OpKind::Query, shorthand: true, name: None, vars: vec![], dirs: vec![], sels: sels::<E>(o.selection_set()) },
    }
}
pub fn frag<E: ExecutableDocument>(f: &E::FragmentDefinition) -> Frag {
    use bluejay_core::executable::FragmentDefinition as _;
    Frag { name: f.name().to_string(), on: f.type_condition().to_string(), dirs: dirs(f.directives()), sels: sels::<E>(f.selection_set()) }
}
pub fn exec<E: ExecutableDocument>(doc: &E) -> ExecDoc {
    ExecDoc { ops: doc.operation_definitions().map(op::<E>).collect(), frags: doc.fragment_definitions().map(frag::<E>).collect() }
}

/// A schema as seen through its public accessors.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct View {
    pub desc: Option<String>,
    pub dirs: Vec<Dir>,
    pub query: String,
    pub mutation: Option<String>,
    pub subscription: Option<String>,
    /// sorted by name, built-ins left out
    pub types: Vec<TypeDef>,
    /// sorted by name, built-ins left out
    pub dirdefs: Vec<DirDef>,
}

/// Problems found while walking: a reference that does not lead where its name says.
pub type Problems = Vec<String>;

pub fn ity<S: SchemaDefinition>(s: &S, t: &S::InputType, pr: &mut Problems) -> Ty {
    let shallow = match t.as_shallow_ref() {
        d::ShallowInputTypeReference::Base(n, r) => Ty::Named(n.to_string(), r),
        d::ShallowInputTypeReference::List(i, r) => Ty::List(Box::new(ity(s, i, pr)), r),
    };
    match t.as_ref(s) {
        d::InputTypeReference::Base(b, r) => {
            if shallow != Ty::Named(b.name().to_string(), r) {
                pr.push(format!("input type {} resolves to {}", shallow.show(), b.name()))
            }
        }
        d::InputTypeReference::List(_, r) => {
            if !matches!(&shallow, Ty::List(_, q) if *q == r) {
                pr.push(format!("input type {} resolves to a list", shallow.show()))
            }
        }
    }
    if t.display_name() != shallow.show() {
        pr.push(format!("input type {} displays as {}", shallow.show(), t.display_name()))
    }
    if t.base(s).name() != shallow.base() || t.is_required() != shallow.required() {
        pr.push(format!("input type {} has base {} required {}", shallow.show(), t.base(s).name(), t.is_required()))
    }
    shallow
}
pub fn oty<S: SchemaDefinition>(s: &S, t: &S::OutputType, pr: &mut Problems) -> Ty {
    let shallow = match t.as_shallow_ref() {
        d::ShallowOutputTypeReference::Base(n, r) => Ty::Named(n.to_string(), r),
        d::ShallowOutputTypeReference::List(i, r) => Ty::List(Box::new(oty(s, i, pr)), r),
    };
    match t.as_ref(s) {
        d::OutputTypeReference::Base(b, r) => {
            if shallow != Ty::Named(b.name().to_string(), r) {
                pr.push(format!("output type {} resolves to {}", shallow.show(), b.name()))
            }
        }
        d::OutputTypeReference::List(_, r) => {
            if !matches!(&shallow, Ty::List(_, q) if *q == r) {
                pr.push(format!("output type {} resolves to a list", shallow.show()))
            }
        }
    }
    if t.display_name() != shallow.show() {
        pr.push(format!("output type {} displays as {}", shallow.show(), t.display_name()))
    }
    if t.base_name() != shallow.base() || t.base(s).name() != shallow.base() || t.is_required() != shallow.required() {
        pr.push(format!("output type {} has base {} required {}", shallow.show(), t.base(s).name(), t.is_required()))
    }
    shallow
}
fn ddirs<S: SchemaDefinition>(s: &S, ds: Option<&<S as SchemaDefinition>::Directives>, pr: &mut Problems) -> Vec<Dir> {
    if let Some(ds) = ds {
        for x in ds.iter() {
            let def = d::Directive::definition(x, s);
            if def.name() != Directive::name(x) {
                pr.push(format!("directive {} resolves to {}", Directive::name(x), def.name()));
            }
        }
    }
    dirs(ds)
}
pub fn input_val<S: SchemaDefinition>(s: &S, v: &S::InputValueDefinition, pr: &mut Problems) -> InputVal {
    let r = InputVal {
        desc: v.description().map(|s| s.to_string()),
        name: v.name().to_string(),
        ty: ity(s, v.r#type(), pr),
        default: v.default_value().map(|v| val::<true, _>(v)),
        dirs: ddirs(s, v.directives(), pr),
    };
    if v.is_required() != (r.ty.required() && r.default.is_none()) {
        pr.push(format!("{}: is_required says {}", r.name, v.is_required()))
    }
    r
}
pub fn field_def<S: SchemaDefinition>(s: &S, f: &S::FieldDefinition, pr: &mut Problems) -> FieldDef {
    FieldDef {
        desc: f.description().map(|s| s.to_string()),
        name: f.name().to_string(),
        args: f.arguments_definition().map(|a| a.iter().map(|a| input_val(s, a, pr)).collect()).unwrap_or_default(),
        ty: oty(s, f.r#type(), pr),
        dirs: ddirs(s, f.directives(), pr),
    }
}
thread_local! {
    static ALL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn fields<S: SchemaDefinition>(s: &S, f: &S::FieldsDefinition, owner: &str, pr: &mut Problems) -> Vec<FieldDef> {
    for x in f.iter() {
        if f.get(x.name()).map(|y| y.name()) != Some(x.name()) || !f.contains_field(x.name()) {
            pr.push(format!("field {owner}.{} is not found by name", x.name()))
        }
        if x.is_builtin() != x.name().starts_with("__") {
            pr.push(format!("field {owner}.{} is_builtin={}", x.name(), x.is_builtin()))
        }
        if x.is_builtin() {
            field_def(s, x, pr);
        }
    }
    f.iter().filter(|f| ALL.get() || !f.is_builtin()).map(|f| field_def(s, f, pr)).collect()
}
fn implements<S: SchemaDefinition>(s: &S, i: Option<&S::InterfaceImplementations>, pr: &mut Problems) -> Vec<String> {
    i.map(|i| {
        i.iter()
            .map(|i| {
                if i.interface(s).name() != i.name() {
                    pr.push(format!("interface {} resolves to {}", i.name(), i.interface(s).name()))
                }
                i.name().to_string()
            })
            .collect()
    })
    .unwrap_or_default()
}

pub fn type_def<S: SchemaDefinition>(s: &S, t: TypeDefinitionReference<S::TypeDefinition>, pr: &mut Problems) -> TypeDef {
    let kind = match t {
        TypeDefinitionReference::BuiltinScalar(_) | TypeDefinitionReference::CustomScalar(_) => Kind::Scalar,
        TypeDefinitionReference::Object(o) => {
            Kind::Object { implements: implements(s, o.interface_implementations(), pr), fields: fields(s, o.fields_definition(), o.name(), pr) }
        }
        TypeDefinitionReference::Interface(o) => {
            Kind::Interface { implements: implements(s, o.interface_implementations(), pr), fields: fields(s, o.fields_definition(), o.name(), pr) }
        }
        TypeDefinitionReference::Union(u) => {
            fields(s, u.fields_definition(), u.name(), pr);
            Kind::Union {
                members: u
                    .union_member_types()
                    .iter()
                    .map(|m| {
                        if m.member_type(s).name() != m.name() {
                            pr.push(format!("member {} resolves to {}", m.name(), m.member_type(s).name()))
                        }
                        if !u.union_member_types().contains_type(m.name()) {
                            pr.push(format!("member {} not found by name", m.name()))
                        }
                        m.name().to_string()
                    })
                    .collect(),
            }
        }
        TypeDefinitionReference::Enum(e) => Kind::Enum {
            values: e
                .enum_value_definitions()
                .iter()
                .map(|v| EnumVal { desc: v.description().map(|s| s.to_string()), name: v.name().to_string(), dirs: ddirs(s, v.directives(), pr) })
                .collect(),
        },
        TypeDefinitionReference::InputObject(i) => Kind::Input { fields: i.input_field_definitions().iter().map(|f| input_val(s, f, pr)).collect() },
    };
    let ds = match t {
        TypeDefinitionReference::BuiltinScalar(_) => None,
        TypeDefinitionReference::CustomScalar(c) => c.directives(),
        TypeDefinitionReference::Object(c) => c.directives(),
        TypeDefinitionReference::Interface(c) => c.directives(),
        TypeDefinitionReference::Union(c) => c.directives(),
        TypeDefinitionReference::Enum(c) => c.directives(),
        TypeDefinitionReference::InputObject(c) => c.directives(),
    };
    TypeDef { desc: t.description().map(|s| s.to_string()), name: t.name().to_string(), dirs: ddirs(s, ds, pr), kind }
}

pub fn dir_def<S: SchemaDefinition>(s: &S, x: &S::DirectiveDefinition, pr: &mut Problems) -> DirDef {
    DirDef {
        desc: x.description().map(|s| s.to_string()),
        name: x.name().to_string(),
        args: x.arguments_definition().map(|a| a.iter().map(|a| input_val(s, a, pr)).collect()).unwrap_or_default(),
        repeatable: x.is_repeatable(),
        locs: x.locations().iter().map(|l| l.to_string()).collect(),
    }
}

/// built-in types, fields and directives included
pub fn view_all<S: SchemaDefinition>(s: &S, pr: &mut Problems) -> View {
    ALL.set(true);
    let v = view(s, pr);
    ALL.set(false);
    v
}
/// built-in fields included
pub fn full<X>(f: impl FnOnce() -> X) -> X {
    ALL.set(true);
    let x = f();
    ALL.set(false);
    x
}
pub fn view<S: SchemaDefinition>(s: &S, pr: &mut Problems) -> View {
    let mut v = View {
        desc: s.description().map(|s| s.to_string()),
        dirs: ddirs(s, d::HasDirectives::directives(s), pr),
        query: s.query().name().to_string(),
        mutation: s.mutation().map(|m| m.name().to_string()),
        subscription: s.subscription().map(|m| m.name().to_string()),
        types: s.type_definitions().filter(|t| ALL.get() || !t.is_builtin()).map(|t| type_def(s, t, pr)).collect(),
        dirdefs: s.directive_definitions().filter(|x| ALL.get() || !x.is_builtin()).map(|x| dir_def(s, x, pr)).collect(),
    };
    for t in s.type_definitions() {
        match s.get_type_definition(t.name()) {
            Some(u) if u.name() == t.name() && u.kind() == t.kind() => {}
            _ => pr.push(format!("type {} is listed but not found by name", t.name())),
        }
        if t.is_builtin() {
            type_def(s, t, pr);
        }
    }
    for x in s.directive_definitions() {
        if s.get_directive_definition(x.name()).map(|y| y.name()) != Some(x.name()) {
            pr.push(format!("directive {} is listed but not found by name", x.name()))
        }
    }
    v.types.sort_by(|a, b| a.name.cmp(&b.name));
    v.dirdefs.sort_by(|a, b| a.name.cmp(&b.name));
    v
}

/// object types listed as implementors of the interface `name`, in reported order
pub fn implementors<S: SchemaDefinition>(s: &S, name: &str) -> Option<Vec<String>> {
    match s.get_type_definition(name)? {
        TypeDefinitionReference::Interface(i) => Some(s.get_interface_implementors(i).map(|o| o.name().to_string()).collect()),
        _ => None,
    }
}
