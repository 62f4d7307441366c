//! Validating one document with bluejay and with the reference validator, and comparing what they report.
use crate::engine::{Ch, Run};
use crate::paths::{rule_of, Paths};
use crate::r::ast::*;
use crate::r::parse;
use crate::r::schema::Schema;
use crate::r::validate::{self, Errors, Validator};
use bluejay_core::{AsIter as _, ObjectValue as _, Value as BValue, ValueReference};
use bluejay_core::definition::ScalarTypeDefinition as _;
use bluejay_parser::ast::definition::{Context, CustomScalarTypeDefinition, DefinitionDocument, SchemaDefinition};
use std::borrow::Cow;
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::Parse;
use bluejay_validator::executable::{document::BuiltinRulesValidator, Cache};

/// Custom scalars with a coercion of their own, known by their names; see `validate::custom` for the same rules.
#[derive(Debug)]
pub struct Scalars;
impl Context for Scalars {
    fn coerce_custom_scalar_input<const CONST: bool>(t: &CustomScalarTypeDefinition<Self>, v: &impl BValue<CONST>) -> Result<(), Cow<'static, str>> {
        custom(t.name(), v)
    }
}
pub fn custom<const CONST: bool>(name: &str, v: &impl BValue<CONST>) -> Result<(), Cow<'static, str>> {
    match (name, v.as_ref()) {
        ("Even", ValueReference::Integer(i)) if i % 2 == 0 => Ok(()),
        ("Even", ValueReference::Integer(i)) => Err(format!("{i} is odd").into()),
        ("Even", _) => Err("not an integer".into()),
        ("Two", ValueReference::List(l)) if l.iter().count() == 2 => Ok(()),
        ("Two", ValueReference::Object(o)) if o.iter().count() == 2 => Ok(()),
        ("Two", ValueReference::String(s) | ValueReference::Enum(s)) if s.len() == 2 => Ok(()),
        ("Two", _) => Err("not two".into()),
        _ => Ok(()),
    }
}
pub type BSchema = SchemaDefinition<'static, Scalars>;
pub struct Ctx {
    pub r: Schema,
    pub b: &'static BSchema,
    pub sdl: String,
    /// the schema is part of the case
    pub generated: bool,
}
/// Both views of a schema; leaked, one per space.
pub fn ctx(sdl: &str) -> Ctx {
    let text: &'static str = Box::leak(sdl.to_string().into_boxed_str());
    let doc: DefinitionDocument<'static, Scalars> = DefinitionDocument::parse(text).unwrap_or_else(|e| panic!("harness: schema does not parse: {e:?}\n{text}"));
    let doc: &'static DefinitionDocument<'static, Scalars> = Box::leak(Box::new(doc));
    let b = SchemaDefinition::try_from(doc).unwrap_or_else(|_| panic!("harness: schema is rejected\n{text}"));
    Ctx { r: Schema::from_sdl(sdl), b: Box::leak(Box::new(b)), sdl: sdl.to_string(), generated: false }
}

/// The context of a generated schema; each worker keeps the last one it used.
pub struct Owned(std::mem::ManuallyDrop<Ctx>, *mut DefinitionDocument<'static, Scalars>, *mut str);
impl std::ops::Deref for Owned {
    type Target = Ctx;
    fn deref(&self) -> &Ctx {
        &self.0
    }
}
impl Drop for Owned {
    fn drop(&mut self) {
        unsafe {
            let b = self.0.b as *const BSchema as *mut BSchema;
            std::mem::ManuallyDrop::drop(&mut self.0);
            drop(Box::from_raw(b));
            drop(Box::from_raw(self.1));
            drop(Box::from_raw(self.2));
        }
    }
}
thread_local! {
    static LAST: std::cell::RefCell<Option<std::rc::Rc<Owned>>> = const { std::cell::RefCell::new(None) };
}
pub fn ctx_for(sdl: &str) -> std::rc::Rc<Owned> {
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        if let Some(o) = &*l {
            if o.sdl == sdl {
                return o.clone();
            }
        }
        let text = Box::into_raw(sdl.to_string().into_boxed_str());
        let doc: DefinitionDocument<'static, Scalars> = DefinitionDocument::parse(unsafe { &*text }).unwrap_or_else(|e| panic!("harness: schema does not parse: {e:?}\n{sdl}"));
        let doc = Box::into_raw(Box::new(doc));
        let b = SchemaDefinition::try_from(unsafe { &*doc }).unwrap_or_else(|_| panic!("harness: schema is rejected\n{sdl}"));
        let o = std::rc::Rc::new(Owned(std::mem::ManuallyDrop::new(Ctx { r: Schema::from_sdl(sdl), b: Box::leak(Box::new(b)), sdl: sdl.to_string(), generated: true }), doc, text));
        *l = Some(o.clone());
        o
    })
}

pub fn bluejay_errors(doc: &ExecutableDocument<'_>, s: &BSchema) -> Errors {
    let cache = Cache::new(doc, s);
    let es: Vec<_> = BuiltinRulesValidator::validate(doc, s, &cache).collect();
    if es.is_empty() {
        return Errors::new();
    }
    let p = Paths::new(doc);
    es.iter().map(|e| p.error(e)).collect()
}

pub const MERGE: &str = "Merge";

/// Compares everything `rules` covers. `MERGE` compares one verdict for the whole document.
pub fn compare(r: &mut Run, cx: &Ctx, text: &str, rules: &[&str]) {
    if !r.case(if cx.generated { format!("{}\n{text}", cx.sdl) } else { text.to_string() }) {
        return;
    }
    let Some(want) = parse::exec(text) else { panic!("harness: not a document: {text}") };
    let doc = match ExecutableDocument::parse(text) {
        Ok(d) => d,
        Err(_) => {
            r.fail("rejected by the parser");
            return;
        }
    };
    compare_parsed(r, cx, &want, &doc, rules)
}
pub fn compare_parsed(r: &mut Run, cx: &Ctx, want: &ExecDoc, doc: &ExecutableDocument<'_>, rules: &[&str]) {
    let v = Validator::run(&cx.r, want);
    let got = bluejay_errors(doc, cx.b);
    let pick = |es: &Errors| -> Errors { es.iter().filter(|e| rule_of(e) != MERGE && rules.contains(&rule_of(e))).cloned().collect() };
    let (a, b) = (pick(&v.errors), pick(&got));
    if let Some(e) = got.iter().find(|e| e.contains('?')) {
        r.fail(format!("an error refers to something that is not in the document: {e}"));
    }
    let mut seen: Vec<&str> = a.iter().map(|e| rule_of(e)).collect();
    seen.dedup();
    if rules.contains(&MERGE) {
        let cyclic = v.errors.iter().any(|e| rule_of(e) == "FragmentSpreadCycle");
        if !cyclic {
            let ok = validate::mergeable(&cx.r, want);
            r.outcome(if ok { "selections merge" } else { "selections conflict" });
            let es: Vec<&String> = got.iter().filter(|e| rule_of(e) == MERGE).collect();
            r.check(ok == es.is_empty(), || format!("selections {} but bluejay reports {es:?}", if ok { "can be merged" } else { "conflict" }));
        }
    }
    if rules.len() > 1 || !rules.contains(&MERGE) {
        if a.is_empty() {
            r.outcome("nothing to report");
        }
        for o in seen {
            r.outcome(o);
        }
        if a != b {
            let miss: Vec<_> = a.difference(&b).collect();
            let extra: Vec<_> = b.difference(&a).collect();
            r.fail(format!("not reported: {miss:?}; wrongly reported: {extra:?}"));
        }
        r.compared += 1;
    }
}

/// A selection set: up to `budget` selections in all, chosen from `items`; `{}` in an item is a nested set.
pub fn set(c: &mut Ch, budget: &mut usize, depth: usize, items: &[&str]) -> String {
    let mut out = String::from("{");
    let mut first = true;
    loop {
        if *budget == 0 {
            if first {
                out.push_str("__typename");
            }
            break;
        }
        let k = c.pick(items.len() + 1);
        if k == 0 {
            if first {
                out.push_str("__typename");
            }
            break;
        }
        *budget -= 1;
        if !first {
            out.push(' ')
        }
        first = false;
        let it = items[k - 1];
        match it.find("{}") {
            Some(i) => {
                out.push_str(&it[..i]);
                if depth == 0 {
                    out.push_str("{__typename}")
                } else {
                    out.push_str(&set(c, budget, depth - 1, items))
                }
                out.push_str(&it[i + 2..]);
            }
            None => out.push_str(it),
        }
    }
    out.push('}');
    out
}
