//! C32: what custom rules and analyzers are shown.
use super::analysis::{inputs_doc, tree_spaces, Part, D, INPUTS, V};
use super::composition::{at, menu, ty, Log};
use super::validation::{mixed_doc, MIXED};
use super::vctx::{ctx, BSchema, Ctx};
use crate::conv;
use crate::engine::{Report, Run};
use crate::r::ast::{self as show, *};
use crate::r::parse;
use crate::r::schema::Schema;
use crate::r::validate::location_of;
use bluejay_core::definition::{DirectiveLocation, TypeDefinitionReference};
use bluejay_core::executable::ExecutableDocument as DocTrait;
use bluejay_core::AsIter;
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::Parse;
use bluejay_validator::executable::document::{self, Path, PathRoot};
use bluejay_validator::executable::{operation, Cache};

type C<'a> = Cache<'a, D<'a>, BSchema>;
type Op_<'a> = <D<'a> as DocTrait>::OperationDefinition;
type Frag_<'a> = <D<'a> as DocTrait>::FragmentDefinition;
type Sels_<'a> = <D<'a> as DocTrait>::SelectionSet;
type Fld_<'a> = <D<'a> as DocTrait>::Field;
type Inline_<'a> = <D<'a> as DocTrait>::InlineFragment;
type Spread_<'a> = <D<'a> as DocTrait>::FragmentSpread;
type Vars_<'a> = <D<'a> as DocTrait>::VariableDefinitions;
type Var_<'a> = <D<'a> as DocTrait>::VariableDefinition;
type Dir_<'a, const K: bool> = <D<'a> as DocTrait>::Directive<K>;
type Dirs_<'a, const K: bool> = <D<'a> as DocTrait>::Directives<K>;
type Arg_<'a, const K: bool> = <D<'a> as DocTrait>::Argument<K>;
type Type_ = <BSchema as bluejay_core::definition::SchemaDefinition>::TypeDefinition;
type FieldDef_ = <BSchema as bluejay_core::definition::SchemaDefinition>::FieldDefinition;
type InputDef_ = <BSchema as bluejay_core::definition::SchemaDefinition>::InputValueDefinition;

fn sels<X: DocTrait>(s: &X::SelectionSet) -> String {
    use bluejay_core::executable::{Selection as _, SelectionReference};
    s.iter()
        .map(|s| match s.as_ref() {
            SelectionReference::Field(f) => fld::<X>(f),
            SelectionReference::InlineFragment(i) => inline::<X>(i),
            SelectionReference::FragmentSpread(f) => spread(f),
        } + " ")
        .collect()
}
fn op<X: DocTrait>(o: &X::OperationDefinition) -> String {
    use bluejay_core::executable::OperationDefinition as _;
    let o = o.as_ref();
    show::op_head(conv::kind(o.operation_type()), o.name().map(|n| n.to_string()), &o.variable_definitions().map(|v| v.iter().map(conv::var).collect::<Vec<_>>()).unwrap_or_default(), &conv::dirs(o.directives()), o.selection_set().iter().count())
}
fn frag<X: DocTrait>(f: &X::FragmentDefinition) -> String {
    use bluejay_core::executable::FragmentDefinition as _;
    format!("fragment {} on {}{} {{{}}}", f.name(), f.type_condition(), show::dirs(&conv::dirs(f.directives())), f.selection_set().iter().count())
}
fn input(s: &BSchema, d: &InputDef_) -> String {
    show::input_val(&conv::input_val(s, d, &mut vec![]))
}
fn arg<const K: bool, A: bluejay_core::Argument<K>>(x: &A) -> String {
    format!("{}: {}", x.name(), show::val(&conv::val::<K, _>(x.value())))
}
fn dir<const K: bool, X: bluejay_core::Directive<K>>(x: &X) -> String {
    format!("@{}{}", x.name(), show::args(&conv::args(x.arguments())))
}
fn inline<X: DocTrait>(i: &X::InlineFragment) -> String {
    use bluejay_core::executable::InlineFragment as _;
    show::outer(&Sel::Inline { on: i.type_condition().map(|s| s.to_string()), dirs: conv::dirs(i.directives()), sels: vec![] }, i.selection_set().iter().count())
}
fn spread<X: bluejay_core::executable::FragmentSpread>(i: &X) -> String {
    show::outer(&Sel::Spread { name: i.name().to_string(), dirs: conv::dirs(i.directives()) }, 0)
}
fn fld<X: DocTrait>(f: &X::Field) -> String {
    use bluejay_core::executable::Field as _;
    let n = f.selection_set().map_or(0, |s| s.iter().count());
    show::outer(&Sel::Field(Fld { alias: f.alias().map(|s| s.to_string()), name: f.name().to_string(), args: conv::args(f.arguments()), dirs: conv::dirs(f.directives()), sels: None }), n)
}

/// A rule (and analyzer) of documents that remembers what it is shown.
struct Doc<'a> {
    d: &'a D<'a>,
    s: &'a BSchema,
    seen: Vec<String>,
}
impl<'a> Doc<'a> {
    fn root(&self, p: &Path<'a, D<'a>>) -> String {
        match p.root() {
            PathRoot::Operation(o) => format!("operation {:?}", DocTrait::operation_definitions(self.d).position(|x| std::ptr::eq(x, *o))),
            PathRoot::Fragment(f) => format!("fragment {:?}", DocTrait::fragment_definitions(self.d).position(|x| std::ptr::eq(x, *f))),
        }
    }
}
impl<'a> document::Visitor<'a, D<'a>, BSchema> for Doc<'a> {
    fn new(d: &'a D<'a>, s: &'a BSchema, _: &'a C<'a>) -> Self {
        Doc { d, s, seen: vec![] }
    }
    fn visit_operation_definition(&mut self, x: &'a Op_<'a>) {
        self.seen.push(op::<D>(x))
    }
    fn visit_selection_set(&mut self, x: &'a Sels_<'a>, t: TypeDefinitionReference<'a, Type_>) {
        self.seen.push(format!("selections {}of {}", sels::<D>(x), t.name()))
    }
    fn visit_field(&mut self, x: &'a Fld_<'a>, d: &'a FieldDef_, p: &Path<'a, D<'a>>) {
        self.seen.push(format!("field {} of {} in {}", fld::<D>(x), show::field_def(&conv::field_def(self.s, d, &mut vec![])), self.root(p)))
    }
    fn visit_const_directive(&mut self, x: &'a Dir_<'a, true>, l: DirectiveLocation) {
        self.seen.push(format!("directive {} at {l}", dir(x)))
    }
    fn visit_variable_directive(&mut self, x: &'a Dir_<'a, false>, l: DirectiveLocation) {
        self.seen.push(format!("directive {} at {l}", dir(x)))
    }
    fn visit_const_directives(&mut self, x: &'a Dirs_<'a, true>, l: DirectiveLocation) {
        let t = x.iter().map(dir::<true, _>).collect::<String>();
        if !t.is_empty() {
            self.seen.push(format!("directives {t} at {l}"))
        }
    }
    fn visit_variable_directives(&mut self, x: &'a Dirs_<'a, false>, l: DirectiveLocation) {
        let t = x.iter().map(dir::<false, _>).collect::<String>();
        if !t.is_empty() {
            self.seen.push(format!("directives {t} at {l}"))
        }
    }
    fn visit_fragment_definition(&mut self, x: &'a Frag_<'a>) {
        self.seen.push(frag::<D>(x))
    }
    fn visit_inline_fragment(&mut self, x: &'a Inline_<'a>, t: TypeDefinitionReference<'a, Type_>) {
        self.seen.push(format!("{} within {}", inline::<D>(x), t.name()))
    }
    fn visit_fragment_spread(&mut self, x: &'a Spread_<'a>, t: TypeDefinitionReference<'a, Type_>, p: &Path<'a, D<'a>>) {
        self.seen.push(format!("{} within {} in {}", spread(x), t.name(), self.root(p)))
    }
    fn visit_const_argument(&mut self, x: &'a Arg_<'a, true>, d: &'a InputDef_) {
        self.seen.push(format!("argument {} for {}", arg::<true, _>(x), input(self.s, d)))
    }
    fn visit_variable_argument(&mut self, x: &'a Arg_<'a, false>, d: &'a InputDef_, p: &Path<'a, D<'a>>) {
        self.seen.push(format!("argument {} for {} in {}", arg::<false, _>(x), input(self.s, d), self.root(p)))
    }
    fn visit_variable_definition(&mut self, x: &'a Var_<'a>) {
        self.seen.push(format!("variable {}", show::var(&conv::var(x))))
    }
    fn visit_variable_definitions(&mut self, x: &'a Vars_<'a>) {
        self.seen.push(format!("variables {}", x.iter().map(|v| show::var(&conv::var(v)) + " ").collect::<String>()))
    }
}
impl<'a> document::Rule<'a, D<'a>, BSchema> for Doc<'a> {
    type Error = String;
    type Errors = std::vec::IntoIter<String>;
    fn into_errors(self) -> Self::Errors {
        self.seen.into_iter()
    }
}
impl<'a> document::Analyzer<'a, D<'a>, BSchema> for Doc<'a> {
    type Output = Vec<String>;
    fn into_output(self) -> Self::Output {
        self.seen
    }
}

use crate::r::ast::head;
/// The same from the reference tree.
struct Walk<'a> {
    s: &'a Schema,
    root: String,
    seen: Vec<String>,
}
impl Walk<'_> {
    fn dirs(&mut self, ds: &[Dir], at: &str, constant: bool) {
        if ds.is_empty() {
            return;
        }
        let one = |d: &Dir| format!("@{}{}", d.name, show::args(&d.args));
        self.seen.push(format!("directives {} at {at}", ds.iter().map(one).collect::<String>()));
        for d in ds {
            self.seen.push(format!("directive {} at {at}", one(d)));
            if let Some(def) = self.s.dirs.get(&d.name) {
                let args = def.args.clone();
                self.args(&d.args, &args, constant)
            }
        }
    }
    fn args(&mut self, given: &Args, defs: &[InputVal], constant: bool) {
        for (n, v) in given {
            if let Some(d) = defs.iter().find(|d| d.name == *n) {
                let within = if constant { String::new() } else { format!(" in {}", self.root) };
                self.seen.push(format!("argument {n}: {} for {}{within}", show::val(v), show::input_val(d)))
            }
        }
    }
    fn sels(&mut self, ss: &[Sel], t: &str) {
        self.seen.push(format!("selections {}of {t}", ss.iter().map(|s| head(s) + " ").collect::<String>()));
        for x in ss {
            match x {
                Sel::Field(f) => {
                    let Some(d) = self.s.field(t, &f.name).cloned() else { continue };
                    self.seen.push(format!("field {} of {} in {}", head(x), show::field_def(&d), self.root));
                    self.dirs(&f.dirs, "FIELD", false);
                    self.args(&f.args, &d.args, false);
                    if let Some(ss) = &f.sels {
                        self.sels(ss, d.ty.base())
                    }
                }
                Sel::Spread { dirs, .. } => {
                    self.dirs(dirs, "FRAGMENT_SPREAD", false);
                    self.seen.push(format!("{} within {t} in {}", head(x), self.root))
                }
                Sel::Inline { on, dirs, sels } => {
                    self.dirs(dirs, "INLINE_FRAGMENT", false);
                    let u = on.as_deref().unwrap_or(t);
                    if self.s.kind(u).is_some() {
                        self.sels(sels, u)
                    }
                    self.seen.push(format!("{} within {t}", head(x)))
                }
            }
        }
    }
    fn document(&mut self, d: &ExecDoc) {
        for (i, o) in d.ops.iter().enumerate() {
            self.root = format!("operation {:?}", Some(i));
            self.seen.push(show::op_head(o.kind, o.name.clone(), &o.vars, &o.dirs, o.sels.len()));
            self.dirs(&o.dirs, location_of(o.kind), false);
            if !o.vars.is_empty() {
                self.seen.push(format!("variables {}", o.vars.iter().map(|v| show::var(v) + " ").collect::<String>()));
            }
            for v in &o.vars {
                self.dirs(&v.dirs, "VARIABLE_DEFINITION", true);
                self.seen.push(format!("variable {}", show::var(v)))
            }
            if let Some(t) = self.s.root(o.kind) {
                self.sels(&o.sels, t)
            }
        }
        for (i, f) in d.frags.iter().enumerate() {
            self.root = format!("fragment {:?}", Some(i));
            if self.s.kind(&f.on).is_some() {
                self.sels(&f.sels, &f.on)
            }
            self.dirs(&f.dirs, "FRAGMENT_DEFINITION", false);
            self.seen.push(format!("fragment {} on {}{} {{{}}}", f.name, f.on, show::dirs(&f.dirs), f.sels.len()))
        }
    }
}

macro_rules! tuples {
    ($(($($L:ident)*))*) => {
        /// what each of several rules and of several analyzers run together is shown
        fn documents<'a>(d: &'a D<'a>, s: &'a BSchema, c: &'a C<'a>) -> Vec<(usize, Vec<Id>, Vec<Vec<Id>>)> {
            type O<'a, T> = document::Orchestrator<'a, D<'a>, BSchema, T>;
            vec![$({
                let n = [$(stringify!($L)),*].len();
                #[allow(non_snake_case)]
                let ($($L,)*) = O::<($(each::$L<Log>,)*)>::analyze(d, s, c);
                (n, O::<($(each::$L<Log>,)*)>::validate(d, s, c).collect(), vec![$($L),*])
            }),*]
        }
        fn operations<'a>(d: &'a D<'a>, s: &'a BSchema, name: Option<&str>, v: &'a V, c: &'a C<'a>) -> Vec<Vec<(usize, Vec<Id>)>> {
            type O<'a, T> = operation::Orchestrator<'a, D<'a>, BSchema, V, T>;
            vec![$({
                let mut k = 0;
                #[allow(non_snake_case)]
                let ($($L,)*) = O::<($(each::$L<Ids>,)*)>::analyze(d, s, name, v, c, ($({ k += 1; let $L = k; $L },)*)).ok().unwrap();
                vec![$($L),*]
            }),*]
        }
    };
}
#[allow(non_camel_case_types)]
mod each {
    macro_rules! same { ($($x:ident)*) => { $(pub type $x<T> = T;)* } }
    same!(A B C D E F G H I J);
}
tuples!((A B)(A B C)(A B C D)(A B C D E)(A B C D E F)(A B C D E F G)(A B C D E F G H)(A B C D E F G H I)(A B C D E F G H I J));

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

fn document(r: &mut Run, cx: &Ctx, text: &str) {
    if !r.case(text) {
        return;
    }
    let Some(ast) = parse::exec(text) else { panic!("harness: not a document: {text}") };
    let doc: ExecutableDocument = match ExecutableDocument::parse(text) {
        Ok(d) => d,
        Err(_) => return r.fail("rejected by the parser"),
    };
    let cache = Cache::new(&doc, cx.b);
    let mut w = Walk { s: &cx.r, root: String::new(), seen: vec![] };
    w.document(&ast);
    let want = sorted(w.seen);
    for e in &want {
        r.outcome(e.split(' ').next().unwrap())
    }
    let alone: Vec<String> = document::Orchestrator::<D, BSchema, Doc>::validate(&doc, cx.b, &cache).collect();
    r.agree("what a rule is shown", &want, &sorted(alone.clone()));
    r.agree("what an analyzer is shown", &alone, &document::Orchestrator::<D, BSchema, Doc>::analyze(&doc, cx.b, &cache));
    let alone: Vec<Id> = document::Orchestrator::<D, BSchema, Log>::validate(&doc, cx.b, &cache).collect();
    type Adapted = document::RuleErrorAdapter<Log, Id>;
    let (es, (x, y)) = document::Orchestrator::<D, BSchema, (Log, (Log, Log))>::validate_and_analyze(&doc, cx.b, &cache);
    r.agree("what a rule is shown together with analyzers", &alone, &es.collect());
    r.agree("what an analyzer is shown together with a rule", &alone, &x);
    r.agree("what an analyzer is shown together with a rule", &alone, &y);
    r.agree("what an adapted rule is shown", &alone, &document::Orchestrator::<D, BSchema, Adapted>::validate(&doc, cx.b, &cache).collect());
    for (n, rules, each) in documents(&doc, cx.b, &cache) {
        let many: Vec<Id> = (0..n).flat_map(|_| alone.iter().copied()).collect();
        r.check(many == rules, || format!("{n} rules together are shown {rules:?}"));
        r.check(each.len() == n && each.iter().all(|x| *x == alone), || format!("{n} analyzers together are shown {each:?}"));
    }
}

/// An analyzer of operations that remembers what it is shown.
struct Ops<'a> {
    s: &'a BSchema,
    shown: Shown,
}
#[derive(Default)]
struct Shown {
    order: Vec<String>,
    rest: Vec<String>,
}
impl<'a> Ops<'a> {
    fn field(&self, x: &Fld_<'a>, d: &FieldDef_, t: TypeDefinitionReference<'_, Type_>, included: bool) -> String {
        format!("{} of {}: {} included={included}", fld::<D>(x), t.name(), show::field_def(&conv::field_def(self.s, d, &mut vec![])))
    }
}
impl<'a> operation::Visitor<'a, D<'a>, BSchema, V> for Ops<'a> {
    type ExtraInfo = usize;
    fn new(_: &'a Op_<'a>, s: &'a BSchema, _: &'a V, _: &'a C<'a>, _: usize) -> Self {
        Ops { s, shown: Default::default() }
    }
    fn visit_variable_argument(&mut self, x: &'a Arg_<'a, false>, d: &'a InputDef_) {
        use bluejay_core::Argument as _;
        self.shown.rest.push(format!("argument {} for {}", show::val(&conv::val::<false, _>(x.value())), input(self.s, d)))
    }
    fn visit_field(&mut self, x: &'a Fld_<'a>, d: &'a FieldDef_, t: TypeDefinitionReference<'a, Type_>, included: bool) {
        let e = self.field(x, d, t, included);
        self.shown.order.push(format!("visit {e}"))
    }
    fn leave_field(&mut self, x: &'a Fld_<'a>, d: &'a FieldDef_, t: TypeDefinitionReference<'a, Type_>, included: bool) {
        let e = self.field(x, d, t, included);
        self.shown.order.push(format!("leave {e}"))
    }
    fn visit_variable_definition(&mut self, x: &'a Var_<'a>) {
        self.shown.rest.push(format!("variable {}", show::var(&conv::var(x))))
    }
}
impl<'a> operation::Analyzer<'a, D<'a>, BSchema, V> for Ops<'a> {
    type Output = Shown;
    fn into_output(self) -> Shown {
        self.shown
    }
}

/// The same with addresses.
type Id = (u8, usize, usize);
struct Ids(usize, Vec<Id>);
impl<'a> operation::Visitor<'a, D<'a>, BSchema, V> for Ids {
    type ExtraInfo = usize;
    fn new(o: &'a Op_<'a>, s: &'a BSchema, v: &'a V, c: &'a C<'a>, which: usize) -> Self {
        Ids(which, vec![(0, at(o), at(s)), (1, at(v), at(c))])
    }
    fn visit_variable_argument(&mut self, x: &'a Arg_<'a, false>, d: &'a InputDef_) {
        self.1.push((2, at(x), at(d)))
    }
    fn visit_field(&mut self, x: &'a Fld_<'a>, d: &'a FieldDef_, t: TypeDefinitionReference<'a, Type_>, included: bool) {
        self.1.extend([(3, at(x), at(d)), (4 + included as u8, ty(t), 0)])
    }
    fn leave_field(&mut self, x: &'a Fld_<'a>, d: &'a FieldDef_, t: TypeDefinitionReference<'a, Type_>, included: bool) {
        self.1.extend([(6, at(x), at(d)), (7 + included as u8, ty(t), 0)])
    }
    fn visit_variable_definition(&mut self, x: &'a Var_<'a>) {
        self.1.push((9, at(x), 0))
    }
}
impl<'a> operation::Analyzer<'a, D<'a>, BSchema, V> for Ids {
    type Output = (usize, Vec<Id>);
    fn into_output(self) -> Self::Output {
        (self.0, self.1)
    }
}

/// what an analyzer of an operation is shown, alone and with others
#[allow(clippy::too_many_arguments)]
pub(super) fn operation<'a>(r: &mut Run, doc: &'a D<'a>, s: &'a BSchema, name: Option<&str>, vars: &'a V, cache: &'a C<'a>, order: &Vec<String>, rest: &Vec<String>) {
    let alone = match operation::Orchestrator::<D, BSchema, V, Ops>::analyze(doc, s, name, vars, cache, 1) {
        Ok(x) => x,
        Err(_) => return r.fail("no analysis"),
    };
    r.agree("the fields an analyzer is shown", order, &alone.order);
    r.agree("the arguments and variables an analyzer is shown", rest, &sorted(alone.rest.clone()));
    let (_, alone) = operation::Orchestrator::<D, BSchema, V, Ids>::analyze(doc, s, name, vars, cache, 1).ok().unwrap();
    for each in operations(doc, s, name, vars, cache) {
        let n = each.len();
        r.check(each.iter().enumerate().all(|(k, x)| x.0 == k + 1 && x.1 == alone), || format!("{n} analyzers together are shown {each:?}, one alone {alone:?}"));
    }
}

pub fn c32(rep: &mut Report) {
    let cx = ctx(MIXED);
    let th = rep.thorough();
    super::scale::visits(rep, document);
    super::scale::analyses(rep, Part::Visits);
    let b = rep.b(2, 3);
    rep.explore("documents", b, |c, r| {
        let t = mixed_doc(c);
        document(r, &cx, &t)
    });
    let n = if th { 4 } else { 3 };
    rep.explore("definitions-together", 0, |c, r| {
        let defs = menu();
        let mut t = String::new();
        for _ in 0..n {
            let k = c.pick(defs.len() + 1);
            if k == 0 {
                break;
            }
            t.push_str(&defs[k - 1]);
            t.push(' ')
        }
        if t.is_empty() {
            return r.skip();
        }
        document(r, &cx, &t)
    });
    tree_spaces(rep, Part::Visits);
    let cx = ctx(INPUTS);
    let b = rep.b(2, 3);
    rep.explore("inputs", b, |c, r| {
        let (t, v) = inputs_doc(c);
        super::analysis::analyse(r, &cx, &t, None, &v, Part::Visits)
    });
}
