//! C30: what validation says does not depend on how rules are combined, on what ran before, or on the order of definitions.
use super::analysis::alone as analyses;
use super::validation::{mixed_doc, MIXED};
use super::vctx::{ctx, BSchema, Ctx};
use crate::engine::{Ch, Report, Run};
use crate::paths::{rule_of, Paths};
use bluejay_core::definition::{DirectiveLocation, SchemaDefinition as SchemaTrait, TypeDefinitionReference};
use bluejay_core::executable::ExecutableDocument as DocTrait;
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::Parse;
use bluejay_validator::executable::document::{rules, Analyzer, BuiltinRules, BuiltinRulesValidator, Error, Orchestrator, Path, Rule, RuleErrorAdapter, Visitor};
use bluejay_validator::executable::Cache;

type D<'a> = ExecutableDocument<'a>;
type C<'a> = Cache<'a, D<'a>, BSchema>;
type E<'a> = Error<'a, D<'a>, BSchema>;

/// A visitor that remembers everything it is shown.
pub(super) struct Log(Vec<(u8, usize, usize)>);
pub(super) fn at<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}
pub(super) fn ty<T: bluejay_core::definition::TypeDefinition>(t: TypeDefinitionReference<'_, T>) -> usize {
    crate::engine::hash_str(t.name()) as usize
}
impl<'a, X: DocTrait, S: SchemaTrait> Visitor<'a, X, S> for Log {
    fn new(d: &'a X, s: &'a S, c: &'a Cache<'a, X, S>) -> Self {
        Log(vec![(0, at(d), at(s)), (0, at(c), 0)])
    }
    fn visit_operation_definition(&mut self, x: &'a X::OperationDefinition) {
        self.0.push((1, at(x), 0))
    }
    fn visit_selection_set(&mut self, x: &'a X::SelectionSet, t: TypeDefinitionReference<'a, S::TypeDefinition>) {
        self.0.push((2, at(x), ty(t)))
    }
    fn visit_field(&mut self, x: &'a X::Field, d: &'a S::FieldDefinition, _: &Path<'a, X>) {
        self.0.push((3, at(x), at(d)))
    }
    fn visit_const_directive(&mut self, x: &'a X::Directive<true>, l: DirectiveLocation) {
        self.0.push((4, at(x), l as usize))
    }
    fn visit_variable_directive(&mut self, x: &'a X::Directive<false>, l: DirectiveLocation) {
        self.0.push((5, at(x), l as usize))
    }
    fn visit_const_directives(&mut self, x: &'a X::Directives<true>, l: DirectiveLocation) {
        self.0.push((6, at(x), l as usize))
    }
    fn visit_variable_directives(&mut self, x: &'a X::Directives<false>, l: DirectiveLocation) {
        self.0.push((7, at(x), l as usize))
    }
    fn visit_fragment_definition(&mut self, x: &'a X::FragmentDefinition) {
        self.0.push((8, at(x), 0))
    }
    fn visit_inline_fragment(&mut self, x: &'a X::InlineFragment, t: TypeDefinitionReference<'a, S::TypeDefinition>) {
        self.0.push((9, at(x), ty(t)))
    }
    fn visit_fragment_spread(&mut self, x: &'a X::FragmentSpread, t: TypeDefinitionReference<'a, S::TypeDefinition>, _: &Path<'a, X>) {
        self.0.push((10, at(x), ty(t)))
    }
    fn visit_const_argument(&mut self, x: &'a X::Argument<true>, d: &'a S::InputValueDefinition) {
        self.0.push((11, at(x), at(d)))
    }
    fn visit_variable_argument(&mut self, x: &'a X::Argument<false>, d: &'a S::InputValueDefinition, _: &Path<'a, X>) {
        self.0.push((12, at(x), at(d)))
    }
    fn visit_variable_definition(&mut self, x: &'a X::VariableDefinition) {
        self.0.push((13, at(x), 0))
    }
    fn visit_variable_definitions(&mut self, x: &'a X::VariableDefinitions) {
        self.0.push((14, at(x), 0))
    }
}
impl<'a, X: DocTrait, S: SchemaTrait> Rule<'a, X, S> for Log {
    type Error = (u8, usize, usize);
    type Errors = std::vec::IntoIter<(u8, usize, usize)>;
    fn into_errors(self) -> Self::Errors {
        self.0.into_iter()
    }
}
impl<'a, X: DocTrait, S: SchemaTrait> Analyzer<'a, X, S> for Log {
    type Output = Vec<(u8, usize, usize)>;
    fn into_output(self) -> Self::Output {
        self.0
    }
}
struct Wrapped<'a>(E<'a>);
impl<'a> From<E<'a>> for Wrapped<'a> {
    fn from(e: E<'a>) -> Self {
        Wrapped(e)
    }
}

macro_rules! each {
    ($($R:ident<$($g:ident)?>),*) => {
        mod al {
            $(pub type $R<'a> = super::rules::$R<'a, super::D<'a> $(, super::$g)?>;)*
        }
        const NAMES: &[&str] = &[$(stringify!($R)),*];
        fn separately<'a>(d: &'a D<'a>, s: &'a BSchema, c: &'a C<'a>) -> Vec<Vec<E<'a>>> {
            vec![$(Orchestrator::<D<'a>, BSchema, al::$R<'a>>::validate(d, s, c).collect()),*]
        }
    };
}
each!(
    NamedOperationNameUniqueness<>, LoneAnonymousOperation<>, SubscriptionOperationSingleRootField<>, FieldSelections<BSchema>, FieldSelectionMerging<BSchema>,
    OperationTypeIsDefined<BSchema>, LeafFieldSelections<BSchema>, ArgumentNames<BSchema>, ArgumentUniqueness<BSchema>, RequiredArguments<BSchema>,
    FragmentNameUniqueness<>, FragmentSpreadTypeExists<BSchema>, FragmentsOnCompositeTypes<BSchema>, FragmentsMustBeUsed<>, FragmentSpreadTargetDefined<BSchema>,
    FragmentSpreadsMustNotFormCycles<BSchema>, FragmentSpreadIsPossible<BSchema>, ValueIsValid<BSchema>, DirectivesAreDefined<BSchema>, DirectivesAreInValidLocations<BSchema>,
    DirectivesAreUniquePerLocation<BSchema>, VariableUniqueness<BSchema>, VariablesAreInputTypes<BSchema>, AllVariableUsesDefined<BSchema>, AllVariablesUsed<BSchema>,
    AllVariableUsagesAllowed<BSchema>
);
macro_rules! combos {
    ($(($($R:ident)*))*) => {
        /// several tuples of rules: the names of the rules and what they report together
        fn combined<'a>(d: &'a D<'a>, s: &'a BSchema, c: &'a C<'a>) -> Vec<(Vec<&'static str>, Vec<E<'a>>)> {
            vec![$((vec![$(stringify!($R)),*], Orchestrator::<D<'a>, BSchema, ($(al::$R<'a>,)*)>::validate(d, s, c).collect())),*]
        }
    };
}
combos!(
    (FieldSelections FieldSelectionMerging) (FieldSelectionMerging FieldSelections) (AllVariablesUsed AllVariableUsesDefined) (FragmentsMustBeUsed FragmentSpreadsMustNotFormCycles)
    (ValueIsValid RequiredArguments ArgumentNames) (DirectivesAreUniquePerLocation DirectivesAreInValidLocations DirectivesAreDefined)
    (FragmentSpreadIsPossible FragmentsOnCompositeTypes FragmentSpreadTypeExists FragmentNameUniqueness)
    (VariableUniqueness VariablesAreInputTypes AllVariableUsesDefined AllVariableUsagesAllowed AllVariablesUsed)
    (NamedOperationNameUniqueness LoneAnonymousOperation OperationTypeIsDefined SubscriptionOperationSingleRootField FieldSelections LeafFieldSelections)
    (AllVariableUsagesAllowed ValueIsValid ArgumentUniqueness FragmentSpreadTargetDefined FieldSelectionMerging LeafFieldSelections DirectivesAreDefined)
    (ArgumentNames FragmentNameUniqueness DirectivesAreUniquePerLocation AllVariablesUsed OperationTypeIsDefined ValueIsValid FragmentsMustBeUsed VariablesAreInputTypes)
    (SubscriptionOperationSingleRootField FragmentSpreadTypeExists VariableUniqueness AllVariableUsesDefined RequiredArguments DirectivesAreInValidLocations LoneAnonymousOperation FragmentSpreadIsPossible FieldSelectionMerging)
    (AllVariablesUsed AllVariableUsesDefined VariablesAreInputTypes VariableUniqueness DirectivesAreUniquePerLocation DirectivesAreInValidLocations DirectivesAreDefined ValueIsValid FragmentSpreadIsPossible FragmentSpreadsMustNotFormCycles)
    (AllVariableUsagesAllowed AllVariablesUsed AllVariableUsesDefined VariablesAreInputTypes VariableUniqueness DirectivesAreUniquePerLocation DirectivesAreInValidLocations DirectivesAreDefined ValueIsValid FragmentSpreadIsPossible FragmentSpreadsMustNotFormCycles FragmentSpreadTargetDefined FragmentsMustBeUsed FragmentsOnCompositeTypes FragmentSpreadTypeExists FragmentNameUniqueness RequiredArguments ArgumentUniqueness ArgumentNames LeafFieldSelections OperationTypeIsDefined FieldSelectionMerging FieldSelections SubscriptionOperationSingleRootField LoneAnonymousOperation NamedOperationNameUniqueness)
);
macro_rules! logs {
    ($(($($L:ident)*))*) => {
        fn logged<'a>(d: &'a D<'a>, s: &'a BSchema, c: &'a C<'a>) -> Vec<(usize, Vec<(u8, usize, usize)>)> {
            vec![$(([$(stringify!($L)),*].len(), Orchestrator::<D<'a>, BSchema, ($($L,)*)>::validate(d, s, c).collect())),*]
        }
    };
}
logs!(
    (Log Log) (Log Log Log) (Log Log Log Log) (Log Log Log Log Log) (Log Log Log Log Log Log) (Log Log Log Log Log Log Log)
    (Log Log Log Log Log Log Log Log) (Log Log Log Log Log Log Log Log Log) (Log Log Log Log Log Log Log Log Log Log)
    (Log Log Log Log Log Log Log Log Log Log Log Log Log Log Log Log Log Log Log Log Log Log Log Log Log Log)
);

fn shown(p: &Paths, es: &[E<'_>]) -> Vec<String> {
    let mut v: Vec<String> = es.iter().map(|e| p.error(e)).collect();
    v.sort();
    v
}

/// All ways of combining the rules give the errors of the rules run one by one.
fn composition(r: &mut Run, cx: &Ctx, text: &str) {
    if !r.case(text) {
        return;
    }
    let doc: ExecutableDocument = match ExecutableDocument::parse(text) {
        Ok(d) => d,
        Err(_) => return r.fail("rejected by the parser"),
    };
    let s = cx.b;
    let cache = Cache::new(&doc, s);
    let p = Paths::new(&doc);
    let sep: Vec<Vec<String>> = separately(&doc, s, &cache).iter().map(|v| shown(&p, v)).collect();
    let sum = |names: &[&str]| {
        let mut v: Vec<String> = names.iter().flat_map(|n| sep[NAMES.iter().position(|m| m == n).unwrap()].iter().cloned()).collect();
        v.sort();
        v
    };
    let all = sum(NAMES);
    for (n, v) in NAMES.iter().zip(&sep) {
        if !v.is_empty() {
            r.outcome(*n)
        }
    }
    if all.is_empty() {
        r.outcome("valid")
    }
    let builtin = |c| BuiltinRulesValidator::validate(&doc, s, c).collect::<Vec<_>>();
    r.agree("the rules together", &all, &shown(&p, &builtin(&cache)));
    r.agree("the rules together, again", &all, &shown(&p, &builtin(&cache)));
    let fresh = Cache::new(&doc, s);
    r.agree("the rules together, with another cache", &all, &shown(&p, &builtin(&fresh)));
    for (names, es) in combined(&doc, s, &cache) {
        r.agree(&format!("{names:?}"), &sum(&names), &shown(&p, &es));
    }
    type Adapted<'a> = RuleErrorAdapter<BuiltinRules<'a, D<'a>, BSchema>, Wrapped<'a>>;
    let es: Vec<E> = Orchestrator::<D, BSchema, Adapted>::validate(&doc, s, &cache).map(|e| e.0).collect();
    r.agree("the rules with adapted errors", &all, &shown(&p, &es));
    let log = Orchestrator::<D, BSchema, Log>::analyze(&doc, s, &cache);
    let (es, (a, b)) = Orchestrator::<D, BSchema, (BuiltinRules<D, BSchema>, (Log, Log))>::validate_and_analyze(&doc, s, &cache);
    r.agree("the rules together with an analysis", &all, &shown(&p, &es.collect::<Vec<_>>()));
    r.agree("an analysis together with the rules", &log, &a);
    r.agree("an analysis together with the rules", &log, &b);
    let c = Orchestrator::<D, BSchema, RuleErrorAdapter<Log, (u8, usize, usize)>>::validate(&doc, s, &cache).collect();
    r.agree("an adapted rule", &log, &c);
    for (n, l) in logged(&doc, s, &cache) {
        r.check(l.len() == n * log.len() && l.chunks(log.len()).all(|x| x == log), || format!("one of {n} rules was not shown what a rule on its own is"));
    }
}

/// A history of validations and analyses of two documents: each gives what it gives in a fresh process state.
fn history(r: &mut Run, cx: &Ctx, other: &Ctx, texts: [&str; 2], steps: &[usize]) {
    if !r.case(format!("{}\n{}\n{}", texts[0], texts[1], steps.iter().map(|s| STEPS[*s]).collect::<Vec<_>>().join(", "))) {
        return;
    }
    let docs = texts.map(|t| ExecutableDocument::parse(t).unwrap_or_else(|_| panic!("harness: {t}")));
    let docs: &[ExecutableDocument; 2] = &docs;
    let paths = [Paths::new(&docs[0]), Paths::new(&docs[1])];
    let caches = [Cache::new(&docs[0], cx.b), Cache::new(&docs[1], cx.b)];
    let vars = [serde_json::json!({"v": 1}), serde_json::json!({"v": [1, 2], "w": {"r": 1}, "x": 0})].map(|v| v.as_object().unwrap().clone());
    let go = |step: usize, fresh: bool| -> String {
        let k = step % 2;
        let d = &docs[k];
        let new = fresh.then(|| Cache::new(d, cx.b));
        let new: Option<&C> = new.as_ref().map(|c| unsafe { &*(c as *const C) });
        let c: &C = new.unwrap_or(&caches[k]);
        match step / 2 {
            0 => format!("{:?}", shown(&paths[k], &BuiltinRulesValidator::validate(d, cx.b, c).collect::<Vec<_>>())),
            1 => format!("{:?}", separately(d, cx.b, c).iter().map(|v| shown(&paths[k], v)).collect::<Vec<_>>()),
            2 if BuiltinRulesValidator::validate(d, cx.b, &Cache::new(d, cx.b)).next().is_some() => String::new(),
            2 => format!("{:?}", analyses(d, cx.b, Some("One"), &vars[0], c)),
            3 if BuiltinRulesValidator::validate(d, cx.b, &Cache::new(d, cx.b)).next().is_some() => String::new(),
            3 => format!("{:?}", analyses(d, cx.b, Some("Two"), &vars[1], c)),
            4 => {
                let c = Cache::new(d, other.b);
                let v: Vec<E> = BuiltinRulesValidator::validate(d, other.b, &c).collect();
                format!("{:?}", shown(&paths[k], &v))
            }
            _ => {
                let v: Vec<E> = Orchestrator::<D, BSchema, (al::FieldSelectionMerging, al::FragmentSpreadsMustNotFormCycles)>::validate(d, cx.b, c).collect();
                format!("{:?}", shown(&paths[k], &v))
            }
        }
    };
    for (i, s) in steps.iter().enumerate() {
        let got = go(*s, false);
        let want = go(*s, true);
        r.outcome(STEPS[*s]);
        r.check(got == want, || format!("step {i} ({}): {got} but on its own {want}", STEPS[*s]));
    }
    // and at the end everything is as it was
    for s in 0..STEPS.len() {
        let (got, want) = (go(s, false), go(s, true));
        r.check(got == want, || format!("afterwards, {}: {got} but on its own {want}", STEPS[s]));
    }
}
const STEPS: [&str; 12] = [
    "validate the first document", "validate the second document", "run the first document's rules one by one", "run the second document's rules one by one", "analyse One of the first document",
    "analyse One of the second document", "analyse Two of the first document", "analyse Two of the second document", "validate the first document against another schema", "validate the second document against another schema",
    "merge the first document's selections", "merge the second document's selections",
];

/// Whether a document is valid does not depend on the order of its definitions.
fn permutations(r: &mut Run, cx: &Ctx, defs: &[String]) {
    if !r.case(defs.join("\n")) {
        return;
    }
    let verdict = |o: &[usize]| {
        let t: String = o.iter().map(|i| defs[*i].as_str()).collect::<Vec<_>>().join(" ");
        let doc = ExecutableDocument::parse(&t).unwrap_or_else(|_| panic!("harness: {t}"));
        let cache = Cache::new(&doc, cx.b);
        let p = Paths::new(&doc);
        let mut v: Vec<String> = BuiltinRulesValidator::validate(&doc, cx.b, &cache).map(|e| p.error(&e)).collect();
        v.sort();
        v.into_iter().map(|e| rule_of(&e).to_string()).collect::<Vec<_>>()
    };
    let mut o: Vec<usize> = (0..defs.len()).collect();
    let want = verdict(&o);
    r.outcome(if want.is_empty() { "valid" } else { "invalid" });
    for e in &want {
        r.outcome(e.clone())
    }
    // Heap's algorithm
    let mut c = vec![0; o.len()];
    let mut i = 0;
    while i < o.len() {
        if c[i] < i {
            if i % 2 == 0 {
                o.swap(0, i)
            } else {
                o.swap(c[i], i)
            }
            let got = verdict(&o);
            r.check(want.is_empty() == got.is_empty(), || format!("in the order {o:?}: {got:?}, but as written {want:?}"));
            c[i] += 1;
            i = 0
        } else {
            c[i] = 0;
            i += 1
        }
    }
}

pub fn c30(rep: &mut Report) {
    let cx = ctx(MIXED);
    let th = rep.thorough();
    let b = rep.b(3, 4);
    rep.explore("rules-together", b, |c, r| {
        let t = mixed_doc(c);
        composition(r, &cx, &t)
    });
    rep.explore("definitions-together", 0, |c, r| {
        // short documents with every definition possibly repeated
        let defs = menu();
        let n = if th { 4 } else { 3 };
        let mut t = String::new();
        for _ in 0..n {
            let k = c.pick(defs.len() + 1);
            if k == 0 {
                break;
            }
            t.push_str(&defs[k - 1]);
            t.push(' ')
        }
        if t.is_empty() {
            return r.skip();
        }
        composition(r, &cx, &t)
    });
    let alt = ctx(&MIXED.replace("id:ID! i:I a(x:Int! y:In):Int", "id:ID! i:I a(x:ID y:In):[Int]").replace("union U=A|C", "union U=B|C").replace("i(id:ID! =1):I", "i(id:ID!):I"));
    let n = if th { 4 } else { 3 };
    rep.explore("histories", 0, |c, r| {
        let steps: Vec<usize> = (0..n).map(|_| c.pick(STEPS.len())).collect();
        let i = c.pick(HISTORY.len());
        let j = c.pick(HISTORY.len());
        history(r, &cx, &alt, [HISTORY[i], HISTORY[j]], &steps)
    });
    linked(rep);
    let (k, defs) = (if th { 5 } else { 4 }, menu());
    rep.explore("orders-of-definitions", 0, move |c, r| {
        let cx = &cx;
        // increasing sequences: every set of definitions once, in one order; all others are derived
        let mut at = 0;
        let mut v = vec![];
        for _ in 0..k {
            let rest = defs.len() - at;
            let p = c.pick(rest + 1);
            if p == rest {
                break;
            }
            v.push(defs[at + p].clone());
            at += p + 1;
        }
        if v.is_empty() {
            return r.skip();
        }
        permutations(r, cx, &v)
    });
}
fn linked(rep: &mut Report) {
    let cx = ctx(MIXED);
    // three fragments that spread each other in every way, from one operation or two, everything in every order
    let n = 3;
    let th = rep.thorough();
    rep.explore("orders-of-linked-definitions", 0, move |c, r| {
        let names = ["P", "B", "X"];
        let t = c.pick_str(&["Query", "Subscription"]);
        let odd = c.pick(n + 1);
        let what = c.pick_str(&["i(id:$v){id}", "a:i{id}", "i{id}", "nope", "", "...Nope", "a{id @include(if:$v)}"]);
        let of = |c: &mut Ch, me: usize| -> String {
            let mut s = String::new();
            for (k, name) in names[..n].iter().enumerate() {
                if (th || k != me) && c.flip() {
                    s += &format!("...{name} ");
                }
            }
            s
        };
        let mut defs = vec![];
        let head = c.pick_str(&["", "($v:ID!)", "($v:Boolean!=true)"]);
        defs.push(format!("{} One{head}{{a{{id}} {}{}}}", if t == "Query" { "query" } else { "subscription" }, if odd == n { what } else { "" }, of(c, n)));
        for k in 0..n {
            let spreads = of(c, k);
            defs.push(format!("fragment {} on {t}{{a{{id}} {}{spreads}}}", names[k], if odd == k { what } else { "" }));
        }
        if t == "Query" && (head.is_empty() || th && c.flip()) {
            defs.push("query Two($v:ID!){a{id}...X}".into())
        }
        permutations(r, &cx, &defs)
    });
}
pub fn menu() -> Vec<String> {
    [
        "{a{id}}", "{a{...F}}", "query One($v:Int!){a{a(x:$v) ...G}}", "query One{i{...F} a{i{...F}}}", "query Two($v:Int! $v:Int){list(l:[[$v]]){...H}}", "query Two($w:In){list(in:$w){id}u{...F...G}}",
        "query Three{i{...G}i(id:2){...F}}", "query Four{a{x:id ...H}}", "query Five($v:Int){a{...G}}", "mutation M($v:Int!){a{...G ...F}}", "subscription S{a{id}...K}", "subscription S{...K}",
        "fragment F on A{id}", "fragment F on I{...H}", "fragment G on A{a(x:$v)...H}", "fragment G on I{i{...G}}", "fragment H on I{id ...F}", "fragment H on A{x:e}", "fragment H on C{c}", "fragment K on Subscription{a{id}}", "fragment K on Subscription{i{...F}}",
        "query Six{u{...on A{...H}}}", "fragment F on Nope{id}", "fragment H on I{x:id}",
    ]
    .map(String::from)
    .to_vec()
}
const HISTORY: [&str; 8] = [
    "query One{a{id}} query Two($v:[Int!] $w:In){list(l:[$v] in:$w){id}}",
    "query One($v:Int!){a{...F}} query Two{i{id}} fragment F on A{a(x:$v) aa{i{id}}}",
    "query One{a{...F}} fragment F on I{i{...F}}",
    "query One($v:Int=1){a{x:id x:e ...F}} fragment F on A{a(x:$v)}",
    "query One($v:Int!){i(id:$v){id}...F} query Two{...F} fragment F on Query{u{...on A{id ...on I{id i{id}}}}}",
    "query One{u{...on A{id}...on C{c}}} query Two($v:String){a{a(x:$v)}}",
    "query One{...F a{...G}} fragment F on Query{a{id:i{id}}} fragment G on A{id}",
    "subscription One{a{id}i{id}} query Two{nope}",
];
