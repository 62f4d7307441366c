//! Reference schema: what a schema document means (written from the GraphQL specification).
use super::ast::*;
use super::parse;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

#[derive(Clone, Debug)]
pub struct Schema {
    pub types: BTreeMap<String, TypeDef>,
    pub dirs: BTreeMap<String, DirDef>,
    pub query: String,
    pub mutation: Option<String>,
    pub subscription: Option<String>,
    pub doc: SdlDoc,
}

pub const BUILTIN_SCALARS: [&str; 5] = ["Int", "Float", "String", "Boolean", "ID"];
const INTROSPECTION: &str = r#"
type __Schema { description: String types: [__Type!]! queryType: __Type! mutationType: __Type subscriptionType: __Type directives: [__Directive!]! }
type __Type { kind: __TypeKind! name: String description: String fields(includeDeprecated: Boolean = false): [__Field!] interfaces: [__Type!] possibleTypes: [__Type!]
  enumValues(includeDeprecated: Boolean = false): [__EnumValue!] inputFields(includeDeprecated: Boolean = false): [__InputValue!] ofType: __Type specifiedByURL: String }
type __Field { name: String! description: String args(includeDeprecated: Boolean = false): [__InputValue!]! type: __Type! isDeprecated: Boolean! deprecationReason: String }
type __InputValue { name: String! description: String type: __Type! defaultValue: String }
type __EnumValue { name: String! description: String isDeprecated: Boolean! deprecationReason: String }
type __Directive { name: String! description: String locations: [__DirectiveLocation!]! args(includeDeprecated: Boolean = false): [__InputValue!]! isRepeatable: Boolean! }
enum __TypeKind { SCALAR OBJECT INTERFACE UNION ENUM INPUT_OBJECT LIST NON_NULL }
enum __DirectiveLocation { QUERY MUTATION SUBSCRIPTION FIELD FRAGMENT_DEFINITION FRAGMENT_SPREAD INLINE_FRAGMENT VARIABLE_DEFINITION SCHEMA SCALAR OBJECT FIELD_DEFINITION ARGUMENT_DEFINITION INTERFACE UNION ENUM ENUM_VALUE INPUT_OBJECT INPUT_FIELD_DEFINITION }
"#;
const DIRECTIVES: &str = r#"
directive @skip(if: Boolean!) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT
directive @include(if: Boolean!) on FIELD | FRAGMENT_SPREAD | INLINE_FRAGMENT
directive @deprecated(reason: String = "No longer supported") on FIELD_DEFINITION | ARGUMENT_DEFINITION | INPUT_FIELD_DEFINITION | ENUM_VALUE
directive @specifiedBy(url: String!) on SCALAR
directive @oneOf on INPUT_OBJECT
"#;
pub fn introspection() -> &'static SdlDoc {
    static D: OnceLock<SdlDoc> = OnceLock::new();
    D.get_or_init(|| parse::sdl(INTROSPECTION).expect("introspection"))
}
pub fn builtin_dirs() -> &'static SdlDoc {
    static D: OnceLock<SdlDoc> = OnceLock::new();
    D.get_or_init(|| parse::sdl(DIRECTIVES).expect("directives"))
}
fn meta_fields() -> &'static [FieldDef; 3] {
    static D: OnceLock<[FieldDef; 3]> = OnceLock::new();
    D.get_or_init(|| {
        let d = parse::sdl("type X { __typename: String! __schema: __Schema! __type(name: String!): __Type }").unwrap();
        match d.types.into_iter().next().unwrap().kind {
            Kind::Object { fields, .. } => fields.try_into().unwrap(),
            _ => unreachable!(),
        }
    })
}

fn is_input(k: &Kind) -> bool {
    matches!(k, Kind::Scalar | Kind::Enum { .. } | Kind::Input { .. })
}
fn is_output(k: &Kind) -> bool {
    !matches!(k, Kind::Input { .. })
}
pub fn is_composite(k: &Kind) -> bool {
    matches!(k, Kind::Object { .. } | Kind::Interface { .. } | Kind::Union { .. })
}

impl Schema {
    /// The schema a document defines, or the reasons why it defines none.
    pub fn build(doc: &SdlDoc) -> Result<Schema, Vec<String>> {
        let mut e: Vec<String> = vec![];
        let mut types: BTreeMap<String, TypeDef> = BTreeMap::new();
        let mut dirs: BTreeMap<String, DirDef> = BTreeMap::new();
        for t in introspection().types.iter().chain(&doc.types) {
            if types.insert(t.name.clone(), t.clone()).is_some() {
                e.push(format!("duplicate type {}", t.name))
            }
        }
        for n in BUILTIN_SCALARS {
            types.entry(n.to_string()).or_insert_with(|| TypeDef { desc: None, name: n.to_string(), dirs: vec![], kind: Kind::Scalar });
        }
        for d in &doc.dirdefs {
            if dirs.insert(d.name.clone(), d.clone()).is_some() {
                e.push(format!("duplicate directive {}", d.name))
            }
        }
        for d in &builtin_dirs().dirdefs {
            dirs.entry(d.name.clone()).or_insert_with(|| d.clone());
        }
        // references
        {
            let applied = |ds: &[Dir], e: &mut Vec<String>| {
                for d in ds {
                    if !dirs.contains_key(&d.name) {
                        e.push(format!("undefined directive {}", d.name))
                    }
                }
            };
            let input = |v: &InputVal, e: &mut Vec<String>| {
                if !types.get(v.ty.base()).is_some_and(|t| is_input(&t.kind)) {
                    e.push(format!("{}: {} is not an input type", v.name, v.ty.base()))
                }
                applied(&v.dirs, e);
            };
            let fields = |fs: &[FieldDef], e: &mut Vec<String>| {
                for f in fs {
                    if !types.get(f.ty.base()).is_some_and(|t| is_output(&t.kind)) {
                        e.push(format!("{}: {} is not an output type", f.name, f.ty.base()))
                    }
                    f.args.iter().for_each(|a| input(a, e));
                    applied(&f.dirs, e);
                }
            };
            let implements = |is: &[String], e: &mut Vec<String>| {
                for i in is {
                    if !types.get(i).is_some_and(|t| matches!(t.kind, Kind::Interface { .. })) {
                        e.push(format!("{i} is not an interface"))
                    }
                }
            };
            for t in introspection().types.iter().chain(&doc.types) {
                applied(&t.dirs, &mut e);
                match &t.kind {
                    Kind::Scalar => {}
                    Kind::Object { implements: i, fields: f } | Kind::Interface { implements: i, fields: f } => {
                        implements(i, &mut e);
                        fields(f, &mut e);
                    }
                    Kind::Union { members } => {
                        for m in members {
                            if !types.get(m).is_some_and(|t| matches!(t.kind, Kind::Object { .. })) {
                                e.push(format!("{m} is not an object"))
                            }
                        }
                    }
                    Kind::Enum { values } => values.iter().for_each(|v| applied(&v.dirs, &mut e)),
                    Kind::Input { fields } => fields.iter().for_each(|f| input(f, &mut e)),
                }
            }
            for d in dirs.values() {
                d.args.iter().for_each(|a| input(a, &mut e));
            }
            for s in &doc.schemas {
                applied(&s.dirs, &mut e)
            }
        }
        // roots
        let is_object = |n: &str| types.get(n).is_some_and(|t| matches!(t.kind, Kind::Object { .. }));
        let mut roots: BTreeMap<OpKind, String> = BTreeMap::new();
        match doc.schemas.as_slice() {
            [] => {
                for (k, n) in [(OpKind::Query, "Query"), (OpKind::Mutation, "Mutation"), (OpKind::Subscription, "Subscription")] {
                    if types.contains_key(n) {
                        if !is_object(n) {
                            e.push(format!("default root {n} is not an object"))
                        }
                        roots.insert(k, n.to_string());
                    }
                }
            }
            [s] => {
                for (k, n) in &s.roots {
                    if roots.insert(*k, n.clone()).is_some() {
                        e.push(format!("two {} roots", k.kw()))
                    }
                    if !is_object(n) {
                        e.push(format!("root {n} is not an object"))
                    }
                }
            }
            _ => e.push("several schema definitions".into()),
        }
        let query = roots.get(&OpKind::Query).cloned();
        if query.is_none() {
            e.push("no query root".into())
        }
        if !e.is_empty() {
            return Err(e);
        }
        Ok(Schema {
            query: query.unwrap(),
            mutation: roots.get(&OpKind::Mutation).cloned(),
            subscription: roots.get(&OpKind::Subscription).cloned(),
            types,
            dirs,
            doc: doc.clone(),
        })
    }
    pub fn from_sdl(s: &str) -> Schema {
        let d = parse::sdl(s).unwrap_or_else(|| panic!("harness: bad SDL {s}"));
        Schema::build(&d).unwrap_or_else(|e| panic!("harness: bad schema {e:?} in {s}"))
    }
    pub fn kind(&self, n: &str) -> Option<&Kind> {
        self.types.get(n).map(|t| &t.kind)
    }
    pub fn composite(&self, n: &str) -> bool {
        self.kind(n).is_some_and(is_composite)
    }
    pub fn input(&self, n: &str) -> bool {
        self.kind(n).is_some_and(is_input)
    }
    pub fn root(&self, k: OpKind) -> Option<&str> {
        match k {
            OpKind::Query => Some(&self.query),
            OpKind::Mutation => self.mutation.as_deref(),
            OpKind::Subscription => self.subscription.as_deref(),
        }
    }
    /// the fields of an object or interface that may be selected besides the meta fields
    pub fn fields(&self, n: &str) -> &[FieldDef] {
        match self.kind(n) {
            Some(Kind::Object { fields, .. } | Kind::Interface { fields, .. }) => fields,
            _ => &[],
        }
    }
    pub fn field(&self, ty: &str, name: &str) -> Option<&FieldDef> {
        if let Some(f) = self.fields(ty).iter().find(|f| f.name == name) {
            return Some(f);
        }
        match name {
            "__typename" if self.composite(ty) => Some(&meta_fields()[0]),
            "__schema" if ty == self.query => Some(&meta_fields()[1]),
            "__type" if ty == self.query => Some(&meta_fields()[2]),
            _ => None,
        }
    }
    /// names of the object types implementing an interface
    pub fn implementors(&self, name: &str) -> BTreeSet<String> {
        self.types
            .values()
            .filter(|t| matches!(&t.kind, Kind::Object { implements, .. } if implements.iter().any(|i| i == name)))
            .map(|t| t.name.clone())
            .collect()
    }
    pub fn possible(&self, name: &str) -> BTreeSet<String> {
        match self.kind(name) {
            Some(Kind::Object { .. }) => [name.to_string()].into(),
            Some(Kind::Interface { .. }) => self.implementors(name),
            Some(Kind::Union { members }) => members.iter().cloned().collect(),
            _ => BTreeSet::new(),
        }
    }
    pub fn one_of(&self, name: &str) -> bool {
        self.types.get(name).is_some_and(|t| t.dirs.iter().any(|d| d.name == "oneOf"))
    }
    pub fn input_fields(&self, name: &str) -> &[InputVal] {
        match self.kind(name) {
            Some(Kind::Input { fields }) => fields,
            _ => &[],
        }
    }
}
