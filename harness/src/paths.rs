//! Names the parts of a bluejay document by their place in it, and renders validation errors in those terms.
use crate::r::validate::location_of;
use bluejay_core::definition::{DirectiveDefinition as _, FieldDefinition as _, InputType as _, InputValueDefinition as _, OutputType as _, SchemaDefinition};
use bluejay_core::executable::{self as e, ExecutableDocument, FragmentDefinition as _, InlineFragment as _, OperationDefinition as _, Selection as _, VariableDefinition as _};
use bluejay_core::{Argument, AsIter, Directive, ObjectValue, Value, ValueReference};
use bluejay_validator::executable::document::{ArgumentError, DirectiveError, Error};
use bluejay_validator::value::input_coercion::Error as CErr;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Op,
    Eop,
    Frag,
    Field,
    Inline,
    Spread,
    Set,
    Arg,
    Dir,
    VarDef,
    VarTy,
    Val,
    Var,
    Key,
}
#[derive(Default)]
pub struct Paths(HashMap<(K, usize), String>);
fn addr<T>(t: &T) -> usize {
    t as *const T as usize
}

impl Paths {
    pub fn new<E: ExecutableDocument>(d: &E) -> Paths {
        let mut p = Paths::default();
        for (i, o) in d.operation_definitions().enumerate() {
            let q = format!("o{i}");
            p.put(K::Op, o, &q);
            let r = o.as_ref();
            if let e::OperationDefinitionReference::Explicit(x) = &r {
                p.put(K::Eop, *x, &q);
            }
            p.dirs(r.directives(), &q);
            if let Some(vs) = r.variable_definitions() {
                for (j, v) in vs.iter().enumerate() {
                    let vp = format!("{q}.v{j}");
                    p.put(K::VarDef, v, &vp);
                    p.put(K::VarTy, v.r#type(), &vp);
                    if let Some(df) = v.default_value() {
                        p.val::<true, _>(df, &format!("{vp}="));
                    }
                    p.dirs(v.directives(), &vp);
                }
            }
            p.set::<E>(r.selection_set(), &q);
        }
        for (i, f) in d.fragment_definitions().enumerate() {
            let q = format!("f{i}");
            p.put(K::Frag, f, &q);
            p.dirs(f.directives(), &q);
            p.set::<E>(f.selection_set(), &q);
        }
        p
    }
    fn put<T>(&mut self, k: K, t: &T, p: &str) {
        self.0.insert((k, addr(t)), p.to_string());
    }
    pub fn get<T>(&self, k: K, t: &T) -> String {
        self.0.get(&(k, addr(t))).cloned().unwrap_or_else(|| format!("?{k:?}"))
    }
    fn list<'a, T: 'a>(&self, k: K, ts: impl IntoIterator<Item = &'a T>) -> String {
        ts.into_iter().map(|t| self.get(k, t)).collect::<Vec<_>>().join(",")
    }
    fn set<E: ExecutableDocument>(&mut self, s: &E::SelectionSet, p: &str) {
        use bluejay_core::executable::{Field as _, FragmentSpread as _};
        self.put(K::Set, s, p);
        for (i, x) in s.iter().enumerate() {
            let q = format!("{p}/{i}");
            match x.as_ref() {
                e::SelectionReference::Field(f) => {
                    self.put(K::Field, f, &q);
                    self.args(f.arguments(), &q);
                    self.dirs(f.directives(), &q);
                    if let Some(s) = f.selection_set() {
                        self.set::<E>(s, &q);
                    }
                }
                e::SelectionReference::FragmentSpread(f) => {
                    self.put(K::Spread, f, &q);
                    self.dirs(f.directives(), &q);
                }
                e::SelectionReference::InlineFragment(f) => {
                    self.put(K::Inline, f, &q);
                    self.dirs(f.directives(), &q);
                    self.set::<E>(f.selection_set(), &q);
                }
            }
        }
    }
    fn dirs<const C: bool, D: bluejay_core::Directives<C>>(&mut self, d: Option<&D>, p: &str) {
        for (i, x) in d.into_iter().flat_map(|d| d.iter()).enumerate() {
            let q = format!("{p}.d{i}");
            self.put(K::Dir, x, &q);
            self.args(x.arguments(), &q);
        }
    }
    fn args<const C: bool, A: bluejay_core::Arguments<C>>(&mut self, a: Option<&A>, p: &str) {
        for (i, x) in a.into_iter().flat_map(|d| d.iter()).enumerate() {
            let q = format!("{p}.a{i}");
            self.put(K::Arg, x, &q);
            self.val(x.value(), &format!("{q}="));
        }
    }
    pub fn val<const C: bool, V: Value<C>>(&mut self, v: &V, p: &str) {
        self.put(K::Val, v, p);
        match v.as_ref() {
            ValueReference::Variable(x) => self.put(K::Var, x, p),
            ValueReference::List(l) => {
                for (i, x) in l.iter().enumerate() {
                    self.val::<C, V>(x, &format!("{p}[{i}]"))
                }
            }
            ValueReference::Object(o) => {
                for (i, (k, x)) in ObjectValue::iter(o).enumerate() {
                    self.put(K::Key, k, &format!("{p}{{{i}}}k"));
                    self.val::<C, V>(x, &format!("{p}{{{i}}}"))
                }
            }
            _ => {}
        }
    }

    pub fn coercion<const C: bool, V: Value<C>>(&self, x: &CErr<'_, C, V>) -> String {
        let at = |p: &bluejay_validator::Path<'_>| p.to_vec::<String>().join("/");
        let idx = |value: &V, keys: Vec<String>| {
            let p = self.get(K::Val, value);
            keys.iter().map(|k| k.strip_prefix(&format!("{p}{{")).and_then(|r| r.strip_suffix("}k")).unwrap_or("?").to_string()).collect::<Vec<_>>().join(",")
        };
        match x {
            CErr::NullValueForRequiredType { value, input_type_name, path } => {
                format!("NullValueForRequiredType {} {input_type_name} at {}", self.get(K::Val, *value), at(path))
            }
            CErr::NoImplicitConversion { value, input_type_name, path } => {
                format!("NoImplicitConversion {} {input_type_name} at {}", self.get(K::Val, *value), at(path))
            }
            CErr::NoEnumMemberWithName { name, value, path, .. } => format!("NoEnumMemberWithName {} {name} at {}", self.get(K::Val, *value), at(path)),
            CErr::NoValueForRequiredFields { value, field_names, input_object_type_name, path } => {
                format!("NoValueForRequiredFields {} {input_object_type_name} {} at {}", self.get(K::Val, *value), field_names.join(","), at(path))
            }
            CErr::NonUniqueFieldNames { value, field_name, keys, path } => format!(
                "NonUniqueFieldNames {} {field_name} {} at {}",
                self.get(K::Val, *value),
                idx(value, keys.iter().map(|k| self.get(K::Key, *k)).collect()),
                at(path)
            ),
            CErr::NoInputFieldWithName { field, input_object_type_name, path } => {
                format!("NoInputFieldWithName {} {input_object_type_name} at {}", self.get(K::Key, *field), at(path))
            }
            CErr::CustomScalarInvalidValue { value, custom_scalar_type_name, message, path } => format!("CustomScalarInvalidValue {} {custom_scalar_type_name} {message} at {}", self.get(K::Val, *value), at(path)),
            CErr::OneOfInputNullValues { value, null_entries, path, .. } => format!(
                "OneOfInputNullValues {} {} at {}",
                self.get(K::Val, *value),
                idx(value, null_entries.iter().map(|(k, _)| self.get(K::Key, *k)).collect()),
                at(path)
            ),
            CErr::OneOfInputNotSingleNonNullValue { value, non_null_entries, path, .. } => format!(
                "OneOfInputNotSingleNonNullValue {} {} at {}",
                self.get(K::Val, *value),
                idx(value, non_null_entries.iter().map(|(k, _)| self.get(K::Key, *k)).collect()),
                at(path)
            ),
        }
    }
    fn directive<const C: bool, E: ExecutableDocument, S: SchemaDefinition>(&self, x: &DirectiveError<'_, C, E, S>) -> String {
        match x {
            DirectiveError::DirectiveDoesNotExist { directive } => format!("DirectiveDoesNotExist {}", self.get(K::Dir, *directive)),
            DirectiveError::DirectiveInInvalidLocation { directive, location, directive_definition } => {
                assert_eq!(directive_definition.name(), directive.name());
                format!("DirectiveInInvalidLocation {} {location}", self.get(K::Dir, *directive))
            }
            DirectiveError::DirectivesNotUniquePerLocation { directives, .. } => {
                format!("DirectivesNotUniquePerLocation {}", self.list(K::Dir, directives.iter().copied()))
            }
        }
    }
    fn argument<const C: bool, E: ExecutableDocument, S: SchemaDefinition>(&self, x: &ArgumentError<'_, C, E, S>) -> String {
        match x {
            ArgumentError::NonUniqueArgumentNames { arguments, name } => {
                format!("NonUniqueArgumentNames {name} {}", self.list(K::Arg, arguments.iter().copied()))
            }
            ArgumentError::ArgumentDoesNotExistOnField { argument, .. } | ArgumentError::ArgumentDoesNotExistOnDirective { argument, .. } => {
                format!("ArgumentDoesNotExist {}", self.get(K::Arg, *argument))
            }
            ArgumentError::DirectiveMissingRequiredArguments { directive, missing_argument_definitions: m, .. } => {
                format!("MissingRequiredArguments {} {}", self.get(K::Dir, *directive), m.iter().map(|m| m.name()).collect::<Vec<_>>().join(","))
            }
            ArgumentError::FieldMissingRequiredArguments { field, missing_argument_definitions: m, .. } => {
                format!("MissingRequiredArguments {} {}", self.get(K::Field, *field), m.iter().map(|m| m.name()).collect::<Vec<_>>().join(","))
            }
        }
    }
    pub fn error<E: ExecutableDocument, S: SchemaDefinition>(&self, x: &Error<'_, E, S>) -> String {
        let _ = location_of;
        match x {
            Error::NonUniqueOperationNames { name, operations } => format!("NonUniqueOperationNames {name} {}", self.list(K::Eop, operations.iter().copied())),
            Error::NotLoneAnonymousOperation { anonymous_operations: a } => format!("NotLoneAnonymousOperation {}", self.list(K::Op, a.iter().copied())),
            Error::SubscriptionRootNotSingleField { operation } => format!("SubscriptionRootNotSingleField {}", self.get(K::Op, *operation)),
            Error::FieldDoesNotExistOnType { field, r#type } => format!("FieldDoesNotExistOnType {} {}", self.get(K::Field, *field), r#type.name()),
            Error::OperationTypeNotDefined { operation } => format!("OperationTypeNotDefined {}", self.get(K::Eop, *operation)),
            Error::LeafFieldSelectionNotEmpty { selection_set, r#type } => {
                format!("LeafFieldSelectionNotEmpty {} {}", self.get(K::Set, *selection_set), r#type.display_name())
            }
            Error::NonLeafFieldSelectionEmpty { field, r#type } => format!("NonLeafFieldSelectionEmpty {} {}", self.get(K::Field, *field), r#type.display_name()),
            Error::NonUniqueFragmentDefinitionNames { name, fragment_definitions: f } => {
                format!("NonUniqueFragmentDefinitionNames {name} {}", self.list(K::Frag, f.iter().copied()))
            }
            Error::FragmentDefinitionTargetTypeDoesNotExist { fragment_definition: f } => format!("FragmentDefinitionTargetTypeDoesNotExist {}", self.get(K::Frag, *f)),
            Error::InlineFragmentTargetTypeDoesNotExist { inline_fragment: f } => format!("InlineFragmentTargetTypeDoesNotExist {}", self.get(K::Inline, *f)),
            Error::FragmentDefinitionTargetTypeNotComposite { fragment_definition: f } => format!("FragmentDefinitionTargetTypeNotComposite {}", self.get(K::Frag, *f)),
            Error::InlineFragmentTargetTypeNotComposite { inline_fragment: f } => format!("InlineFragmentTargetTypeNotComposite {}", self.get(K::Inline, *f)),
            Error::FragmentDefinitionUnused { fragment_definition: f } => format!("FragmentDefinitionUnused {}", self.get(K::Frag, *f)),
            Error::FragmentSpreadTargetUndefined { fragment_spread: f } => format!("FragmentSpreadTargetUndefined {}", self.get(K::Spread, *f)),
            Error::FragmentSpreadCycle { fragment_definition: f, .. } => format!("FragmentSpreadCycle {}", self.get(K::Frag, *f)),
            Error::FieldSelectionsDoNotMergeIncompatibleTypes { field_a, field_b, field_definition_a, field_definition_b, .. } => {
                format!("Merge types {} {} {}/{}", self.get(K::Field, *field_a), self.get(K::Field, *field_b), field_definition_a.r#type().display_name(), field_definition_b.r#type().display_name())
            }
            Error::FieldSelectionsDoNotMergeDifferingNames { field_a, field_b, .. } => format!("Merge names {} {}", self.get(K::Field, *field_a), self.get(K::Field, *field_b)),
            Error::FieldSelectionsDoNotMergeDifferingArguments { field_a, field_b, .. } => {
                format!("Merge arguments {} {}", self.get(K::Field, *field_a), self.get(K::Field, *field_b))
            }
            Error::FragmentSpreadIsNotPossible { fragment_spread: f, parent_type } => format!("FragmentSpreadIsNotPossible {} {}", self.get(K::Spread, *f), parent_type.name()),
            Error::InlineFragmentSpreadIsNotPossible { inline_fragment: f, parent_type } => {
                format!("InlineFragmentSpreadIsNotPossible {} {}", self.get(K::Inline, *f), parent_type.name())
            }
            Error::InvalidConstValue(c) => self.coercion(c),
            Error::InvalidVariableValue(c) => self.coercion(c),
            Error::InvalidConstDirective(d) => self.directive(d),
            Error::InvalidVariableDirective(d) => self.directive(d),
            Error::InvalidConstArgument(a) => self.argument(a),
            Error::InvalidVariableArgument(a) => self.argument(a),
            Error::NonUniqueVariableDefinitionNames { name, variable_definitions: v } => {
                format!("NonUniqueVariableDefinitionNames {name} {}", self.list(K::VarDef, v.iter().copied()))
            }
            Error::VariableDefinitionTypeNotInput { variable_definition: v } => format!("VariableDefinitionTypeNotInput {}", self.get(K::VarDef, *v)),
            Error::VariableNotDefined { variable, operation_definition: o } => format!("VariableNotDefined {} {}", self.get(K::Var, *variable), self.get(K::Op, *o)),
            Error::VariableDefinitionUnused { variable_definition: v } => format!("VariableDefinitionUnused {}", self.get(K::VarDef, *v)),
            Error::InvalidVariableUsage { variable, variable_type, location_type } => {
                format!("InvalidVariableUsage {} {} {}", self.get(K::Var, *variable), self.get(K::VarTy, *variable_type), location_type.display_name())
            }
        }
    }
}

pub fn rule_of(e: &str) -> &str {
    e.split(' ').next().unwrap_or("")
}
