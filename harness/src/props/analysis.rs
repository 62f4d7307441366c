//! C19–C25: coercion of values and analyses of operations.
use super::validation::{value, VALUES, VTYPES};
use super::vctx::{ctx, set, Ctx};
use crate::engine::{Ch, Report, Run};
use crate::paths::Paths;
use crate::r::analyze::{self, Rules, Vars, A};
use crate::r::ast::*;
use crate::r::lex::Mode;
use crate::r::parse;
use crate::r::validate::{self, Validator};
use bluejay_core::executable::{ExecutableDocument as _, OperationDefinition as _};
use bluejay_core::{Argument as _, AsIter};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::Parse;
use bluejay_validator::executable::operation::analyzers::complexity_cost::{ComplexityCost, DefaultCostComputer, RelayCostComputer};
use bluejay_validator::executable::operation::analyzers::{VariableValueError, Deprecation, InputSize, QueryDepth, VariableValuesAreValid};
use bluejay_validator::executable::operation::Orchestrator;
use bluejay_validator::executable::Cache;
use bluejay_validator::value::input_coercion::CoerceInput;
use serde_json::{Map, Value as Json};

pub type D<'a> = ExecutableDocument<'a>;
pub type S = super::vctx::BSchema;
pub type V = Map<String, Json>;

/// a JSON value read as GraphQL input
pub fn from_json(j: &Json) -> Val {
    match j {
        Json::Null => Val::Null,
        Json::Bool(b) => Val::Bool(*b),
        Json::Number(n) => {
            let t = n.to_string();
            match t.parse::<i32>() {
                Ok(i) => Val::Int(i),
                Err(_) => Val::Float(t.parse().unwrap()),
            }
        }
        Json::String(s) => Val::Str(s.clone()),
        Json::Array(a) => Val::List(a.iter().map(from_json).collect()),
        Json::Object(o) => Val::Obj(o.iter().map(|(k, v)| (k.clone(), from_json(v))).collect()),
    }
}

#[derive(Debug, PartialEq, Clone, Default)]
pub struct Out {
    pub depth: usize,
    pub cost: usize,
    pub relay: usize,
    pub sizes: Vec<Vec<(String, usize)>>,
    pub deprecated: Vec<(String, String, String)>,
    pub values: Vec<String>,
}

/// the analyzers' report types cannot be named from here, hence macros
macro_rules! sizes {
    ($v:expr) => {{
        let mut v: Vec<(String, usize)> = $v.into_iter().map(|o| (o.name, o.size)).collect();
        v.sort();
        v
    }};
}
macro_rules! deprecated {
    ($v:expr) => {{
        let mut v: Vec<(String, String, String)> = $v.into_iter().map(|o| (format!("{:?}", o.offense_type), o.name.to_string(), o.reason.to_string())).collect();
        v.sort();
        v
    }};
}
fn values(v: Vec<VariableValueError<'_, D<'_>, V>>) -> Vec<String> {
    let mut v: Vec<String> = v
        .into_iter()
        .map(|e| match e {
            VariableValueError::MissingValue { variable_definition: v } => format!("missing {}", v.variable().as_str()),
            VariableValueError::UnusedValue { key, .. } => format!("unused {key}"),
            VariableValueError::InvalidValue { variable_definition: v, value, errors } => {
                let mut p = Paths::default();
                p.val::<true, _>(value, "v");
                let mut es: Vec<String> = errors.iter().map(|e| p.coercion(e)).collect();
                es.sort();
                format!("invalid {}: {}", v.variable().as_str(), es.join("; "))
            }
        })
        .collect();
    v.sort();
    v
}

pub const LIMITS: [usize; 3] = [0, 1, 2];
type O<'a, T> = Orchestrator<'a, D<'a>, S, V, T>;
type Cost<'a> = ComplexityCost<'a, D<'a>, S, V, DefaultCostComputer>;
type Relay<'a> = ComplexityCost<'a, D<'a>, S, V, RelayCostComputer<'a, D<'a>, S, V>>;
type Size<'a> = InputSize<'a, D<'a>, V>;
type Dep<'a> = Deprecation<'a, D<'a>, S, V>;
type Vals<'a> = VariableValuesAreValid<'a, D<'a>, S, V>;

/// each analysis on its own
pub fn alone<'a>(doc: &'a D<'a>, s: &'a S, name: Option<&str>, vars: &'a V, cache: &'a Cache<'a, D<'a>, S>) -> Result<Out, String> {
    let e = |e: bluejay_validator::executable::operation::OperationResolutionError<'_>| match e {
        bluejay_validator::executable::operation::OperationResolutionError::NoOperationWithName { name } => format!("no operation {name}"),
        bluejay_validator::executable::operation::OperationResolutionError::AnonymousNotEligible => "not exactly one operation".to_string(),
    };
    Ok(Out {
        depth: O::<QueryDepth>::analyze(doc, s, name, vars, cache, ()).map_err(e)?,
        cost: O::<Cost>::analyze(doc, s, name, vars, cache, ()).map_err(e)?,
        relay: O::<Relay>::analyze(doc, s, name, vars, cache, ()).map_err(e)?,
        sizes: LIMITS.iter().map(|n| O::<Size>::analyze(doc, s, name, vars, cache, *n).map_err(e).map(|v| sizes!(v))).collect::<Result<_, _>>()?,
        deprecated: deprecated!(O::<Dep>::analyze(doc, s, name, vars, cache, ()).map_err(e)?),
        values: values(O::<Vals>::analyze(doc, s, name, vars, cache, ()).map_err(e)?),
    })
}
/// all in one pass, in two orders
fn together<'a>(doc: &'a D<'a>, s: &'a S, name: Option<&str>, vars: &'a V, cache: &'a Cache<'a, D<'a>, S>, swap: bool) -> Option<Out> {
    if swap {
        let (v, d, (s2, s1), s0, r, c, q) = O::<(Vals, Dep, (Size, Size), Size, Relay, Cost, QueryDepth)>::analyze(doc, s, name, vars, cache, ((), (), (LIMITS[2], LIMITS[1]), LIMITS[0], (), (), ())).ok()?;
        Some(Out { depth: q, cost: c, relay: r, sizes: vec![sizes!(s0), sizes!(s1), sizes!(s2)], deprecated: deprecated!(d), values: values(v) })
    } else {
        let (q, c, r, s0, s1, s2, d, v) = O::<(QueryDepth, Cost, Relay, Size, Size, Size, Dep, Vals)>::analyze(doc, s, name, vars, cache, ((), (), (), LIMITS[0], LIMITS[1], LIMITS[2], (), ())).ok()?;
        Some(Out { depth: q, cost: c, relay: r, sizes: vec![sizes!(s0), sizes!(s1), sizes!(s2)], deprecated: deprecated!(d), values: values(v) })
    }
}

#[derive(Clone, Copy, PartialEq)]
pub(super) enum Part {
    All,
    Depth,
    Cost,
    Sizes,
    Deprecated,
    Values,
    Visits,
}

/// Analyses one operation of a document and compares with the reference. Documents that are not valid are skipped, and
/// so are values that are not, unless the values are the subject.
pub(super) fn analyse(r: &mut Run, cx: &Ctx, text: &str, name: Option<&str>, json: &str, part: Part) {
    if !r.case(format!("{text}\noperation {name:?} variables {json}")) {
        return;
    }
    let Some(ast) = parse::exec(text) else { panic!("harness: not a document: {text}") };
    let v = Validator::run(&cx.r, &ast);
    if !v.errors.is_empty() || !validate::mergeable(&cx.r, &ast) {
        r.outcome("skipped: not a valid document");
        return r.skip();
    }
    let vars: V = match serde_json::from_str(json) {
        Ok(Json::Object(o)) => o,
        _ => panic!("harness: not an object: {json}"),
    };
    let rvars: Vars = vars.iter().map(|(k, v)| (k.clone(), from_json(v))).collect();
    let doc = match ExecutableDocument::parse(text) {
        Ok(d) => d,
        Err(_) => return r.fail("rejected by the parser"),
    };
    let cache = Cache::new(&doc, cx.b);
    let got = alone(&doc, cx.b, name, &vars, &cache);
    let op = match analyze::operation(&ast, name) {
        Ok(i) => i,
        Err(e) => {
            r.outcome(e.clone());
            r.agree("the operation to analyse", &Err(e), &got);
            return;
        }
    };
    let got = match got {
        Ok(g) => g,
        Err(e) => return r.fail(format!("no analysis: {e}")),
    };
    let a = A { s: &cx.r, d: &ast, op: &ast.ops[op], vars: &rvars };
    let wrong = a.wrong_values();
    if part == Part::All || part == Part::Values {
        r.outcome(if wrong.is_empty() { "values fit" } else { wrong[0].split(' ').next().unwrap() });
        r.agree("variable values", &wrong, &got.values);
    }
    if part == Part::All {
        for swap in [false, true] {
            match together(&doc, cx.b, name, &vars, &cache, swap) {
                Some(t) => r.agree("analyses in one pass", &got, &t),
                None => r.fail("no analysis in one pass"),
            }
        }
    }
    if !wrong.is_empty() {
        return;
    }
    if part == Part::Visits {
        let (order, rest) = a.visits();
        r.outcome(format!("{} fields, {} of them left out", order.len() / 2, order.iter().filter(|x| x.ends_with("included=false")).count() / 2));
        return super::visiting::operation(r, &doc, cx.b, name, &vars, &cache, &order, &rest);
    }
    if part == Part::All || part == Part::Depth {
        r.outcome(format!("depth {}", a.depth()));
        r.agree("depth", &a.depth(), &got.depth);
    }
    if part == Part::All || part == Part::Cost {
        for (what, rules, got) in [("default cost", Rules::Default, got.cost), ("relay cost", Rules::Relay, got.relay)] {
            let (x, y) = (a.cost(rules, true), a.cost(rules, false));
            if x == y {
                r.outcome(format!("{what} {}", if x > 99 { "large".into() } else { x.to_string() }));
                r.agree(what, &x, &got);
            } else if part == Part::Cost && r.case.starts_with("#exact") {
                r.agree(what, &x, &got);
            } else {
                // a selection inside fragments on several types: see the known findings of C23
                r.outcome(format!("{what}: narrowed by nested fragments"));
                r.check(x <= got && got <= y, || format!("{what}: {got} is not within {x}..={y}"));
            }
        }
    }
    if part == Part::All || part == Part::Sizes {
        for (i, n) in LIMITS.iter().enumerate() {
            let w = a.oversized(*n);
            r.outcome(format!("{} lists over {n}", w.len()));
            r.agree(&format!("lists over {n}"), &w, &got.sizes[i]);
        }
    }
    if part == Part::All || part == Part::Deprecated {
        let w: Vec<(String, String, String)> = a.deprecated().into_iter().map(|(k, n, r)| (k.to_string(), n, r)).collect();
        if w.is_empty() {
            r.outcome("nothing deprecated")
        }
        for x in &w {
            r.outcome(x.0.clone());
        }
        r.agree("deprecated usages", &w, &got.deprecated);
    }
}

/// Adds the fragments and variables a text mentions.
fn finish(kind: &str, body: &str, frags: &[(&str, String)], vars: &[(&str, &str)]) -> String {
    let mut used: Vec<&(&str, String)> = vec![];
    let mut all = body.to_string();
    loop {
        let n = used.len();
        for f in frags {
            if !used.iter().any(|u| u.0 == f.0) && all.contains(&format!("...{}", f.0)) {
                used.push(f);
                all.push_str(&f.1);
            }
        }
        if used.len() == n {
            break;
        }
    }
    let vs: Vec<String> = vars.iter().filter(|(n, _)| all.contains(&format!("${n}"))).map(|(n, t)| format!("${n}:{t}")).collect();
    let vs = if vs.is_empty() { String::new() } else { format!("({})", vs.join(" ")) };
    let kind = if vs.is_empty() && kind == "query" { "" } else { kind };
    format!("{kind}{vs}{body}{}", used.iter().map(|f| format!(" fragment {} {}", f.0, f.1)).collect::<String>())
}

// ---- C19 ----

/// JSON text of a literal written with the atoms of the generators (enum members become strings)
fn json_of(v: &Val) -> Option<String> {
    Some(match v {
        Val::Var(_) => return None,
        Val::Int(i) => i.to_string(),
        Val::Float(f) => format!("{f:?}"),
        Val::Str(s) | Val::Enum(s) => serde_json::to_string(s).unwrap(),
        Val::Bool(b) => b.to_string(),
        Val::Null => "null".into(),
        Val::List(l) => format!("[{}]", l.iter().map(json_of).collect::<Option<Vec<_>>>()?.join(",")),
        Val::Obj(o) => {
            let mut keys: Vec<&String> = o.iter().map(|x| &x.0).collect();
            keys.sort();
            keys.dedup();
            if keys.len() != o.len() {
                return None;
            }
            format!("{{{}}}", o.iter().map(|(k, v)| Some(format!("{}:{}", serde_json::to_string(k).unwrap(), json_of(v)?))).collect::<Option<Vec<_>>>()?.join(","))
        }
    })
}
fn has_enum(v: &Val, strings: bool) -> bool {
    match v {
        Val::Enum(_) => !strings,
        Val::Str(_) => strings,
        Val::List(l) => l.iter().any(|v| has_enum(v, strings)),
        Val::Obj(o) => o.iter().any(|(_, v)| has_enum(v, strings)),
        _ => false,
    }
}
/// member names instead of strings, wherever the type expects an enum
fn retype(s: &crate::r::schema::Schema, ty: &Ty, v: &Val) -> Val {
    match (ty, v) {
        (Ty::List(t, _), Val::List(l)) => Val::List(l.iter().map(|v| retype(s, t, v)).collect()),
        (Ty::List(t, _), v) => retype(s, t, v),
        (Ty::Named(n, _), v) => match (s.kind(n), v) {
            (Some(Kind::Enum { .. }), Val::Str(m)) => Val::Enum(m.clone()),
            (Some(Kind::Input { fields }), Val::Obj(o)) => Val::Obj(o.iter().map(|(k, v)| (k.clone(), fields.iter().find(|f| f.name == *k).map_or(v.clone(), |f| retype(s, &f.ty, v)))).collect()),
            _ => v.clone(),
        },
    }
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

/// Coerces a literal as the default of a variable of the type, and (if it has such a form) the same value as JSON.
fn coerce_literal(r: &mut Run, cx: &Ctx, ty: &str, lit: &str) {
    if !r.case(format!("{ty} = {lit}")) {
        return;
    }
    let v = parse::value(lit, Mode::default()).unwrap_or_else(|| panic!("harness: not a value: {lit}"));
    let t = parse::exec(&format!("query($v:{ty}){{q}}")).unwrap().ops[0].vars[0].ty.clone();
    let refer = |v: &Val, json: bool| {
        let mut out = vec![];
        validate::coerce(&cx.r, &t, v, "v", &mut vec![], true, json, &mut out);
        sorted(out)
    };
    let want = refer(&v, false);
    r.outcome(match want.first() {
        None => "accepted",
        Some(e) => e.split(' ').next().unwrap(),
    });
    let text = if lit.contains('$') { format!("query($t:{ty} $v:Int $w:In){{f(Any:{lit})}}") } else { format!("query($t:{ty}={lit}){{f(Any:{lit})}}") };
    let doc: ExecutableDocument = match ExecutableDocument::parse(&text) {
        Ok(d) => d,
        Err(_) => return r.fail("rejected by the parser"),
    };
    let cache = Cache::new(&doc, cx.b);
    let op = doc.operation_definitions().iter().next().unwrap();
    let var = op.as_ref().variable_definitions().unwrap().iter().next().unwrap();
    let it = cache.variable_definition_input_type(var.r#type()).expect("harness: input type");
    // as an argument
    {
        use bluejay_core::executable::{Field as _, Selection as _, SelectionReference};
        let op = op.as_ref();
        let Some(SelectionReference::Field(f)) = op.selection_set().iter().next().map(|s| s.as_ref()) else { panic!("harness: field") };
        let value = f.arguments().unwrap().iter().next().unwrap().value();
        let mut p = Paths::default();
        p.val::<false, _>(value, "v");
        let got = cx.b.coerce_value(it, value, Default::default()).err().unwrap_or_default();
        r.agree("literal argument", &want, &sorted(got.iter().map(|e| p.coercion(e)).collect()));
        // a path given to start from is continued
        let got = cx.b.coerce_value(it, value, bluejay_validator::Path::new("a").push(7)).err().unwrap_or_default();
        let moved: Vec<String> = want.iter().map(|w| if w.ends_with(" at ") { format!("{w}a/7") } else { w.replacen(" at ", " at a/7/", 1) }).collect();
        r.agree("literal argument below a/7", &sorted(moved), &sorted(got.iter().map(|e| p.coercion(e)).collect()));
    }
    if let Some(value) = var.default_value() {
        let mut p = Paths::default();
        p.val::<true, _>(value, "v");
        let got = cx.b.coerce_const_value(it, value, Default::default()).err().unwrap_or_default();
        r.agree("literal default", &want, &sorted(got.iter().map(|e| p.coercion(e)).collect()));
    }
    // the same value as JSON; member names are strings there
    let Some(js) = json_of(&v) else { return };
    let json: Json = serde_json::from_str(&js).unwrap_or_else(|_| panic!("harness: not JSON: {js}"));
    let jv = from_json(&json);
    let want_json = refer(&jv, true);
    let mut p = Paths::default();
    p.val::<true, _>(&json, "v");
    let got = cx.b.coerce_const_value(it, &json, Default::default()).err().unwrap_or_default();
    let got = sorted(got.iter().map(|e| p.coercion(e)).collect());
    r.agree("JSON value", &want_json, &got);
    // both forms of one value
    if !has_enum(&v, true) || !has_enum(&v, false) {
        let same = retype(&cx.r, &t, &jv);
        r.agree("verdict of the literal form of the JSON value", &refer(&same, false).is_empty(), &got.is_empty());
    }
}

pub fn c19(rep: &mut Report) {
    let cx = ctx(VALUES);
    let th = rep.thorough();
    let n = |q: usize, t: usize| if th { t } else { q };
    let k = n(3, 4);
    rep.explore("values-by-type", 0, |c, r| {
        let (_, ty) = *c.pick_of(&VTYPES);
        let mut b = k;
        let v = value(c, &mut b, &["1", "1.5", "\"X\"", "\"s\"", "true", "null", "X", "Z", "{r:1}", "{a:1}"], &["r", "a", "zz"]);
        coerce_literal(r, &cx, ty, &v)
    });
    let k = n(6, 7);
    rep.explore("lists", 0, |c, r| {
        let ty = c.pick_str(&["[Int]", "[Int!]!", "[[Int]]", "[[Int]!]", "[[Int!]!]", "[[[Int]]]", "[[[Int!]]]", "Int", "[E!]"]);
        let mut b = k;
        let v = value(c, &mut b, &["1", "null", "X"], &[]);
        coerce_literal(r, &cx, ty, &v)
    });
    let k = n(4, 5);
    rep.explore("input-objects", 0, |c, r| {
        let ty = c.pick_str(&["In", "[In]", "[[In!]!]!", "Opt", "In!"]);
        let mut b = k;
        let v = value(c, &mut b, &["1", "null", "\"X\"", "{r:1}", "$v"], &["r", "o", "d", "n", "l", "e", "zz"]);
        coerce_literal(r, &cx, ty, &v)
    });
    let k = n(4, 5);
    rep.explore("one-of", 0, |c, r| {
        let ty = c.pick_str(&["One", "[One!]", "In"]);
        let pre = ty == "In";
        let mut b = k;
        let v = value(c, &mut b, &["1", "null", "\"s\"", "$v", "{a:1}"], &["a", "b", "n", "zz"]);
        coerce_literal(r, &cx, ty, &if pre { format!("{{r:1,one:{v}}}") } else { v })
    });
    let k = n(4, 5);
    rep.explore("custom-scalars", 0, |c, r| {
        let ty = c.pick_str(&["Even", "[Even!]!", "Two", "[[Two]!]", "[Two]", "In", "[[Even]]", "Two!"]);
        let mut b = k;
        let v = value(c, &mut b, &["1", "2", "null", "\"ab\"", "ab", "-2", "2.0", "$v"], &["ev", "tw", "any"]);
        let v = if ty == "In" { v.replacen('{', "{r:1 ", 1) } else { v };
        coerce_literal(r, &cx, ty, &v)
    });
    rep.explore("nested", 0, |c, r| {
        let mut b = 2;
        let v = value(c, &mut b, &["1", "1.5", "\"s\"", "\"Y\"", "true", "null", "X", "Z", "0.0", "{r:1}", "{a:1}"], &["r", "a", "b"]);
        let holes = ["{r:#}", "{r:1,o:#}", "{r:1,d:#}", "{r:1,n:{r:#}}", "{r:1,l:[#]}", "{r:1,l:[{r:1},{r:#}]}", "{r:1,l:#}", "{r:1,e:#}", "{r:1,one:{a:#}}", "{r:1,one:#}", "{r:1,any:#}", "{r:1,any:[#,{x:#}]}", "{r:1,ev:#,tw:[#]}", "{r:1,n:{r:1,tw:#}}", "{r:1,nn:[#]}", "{r:1,nn:[[#]]}", "{r:1,nn:#}", "{r:1,n:{r:1,n:{r:1,l:[{r:1,o:#}]}}}", "{r:1,l:[{r:#,l:[{r:#}]}],one:{n:{r:1,o:#}}}"];
        let h = c.pick_str(&holes).replace('#', &v);
        let (_, ty) = *c.pick_of(&VTYPES);
        coerce_literal(r, &cx, ty, &h)
    });
    rep.explore("scalar-literals", 0, |c, r| {
        let (_, ty) = *c.pick_of(&VTYPES);
        let v = c.pick_str(&[
            "0", "-0", "-1", "2147483647", "-2147483648", "0.0", "-0.0", "1.0", "1e0", "1E2", "1.5e3", "1e-3", "1.7976931348623157e308", "\"\"", "\"0\"", "\"1\"", "\"1.0\"", "\"true\"", "\"null\"", "\"X\"", "\"\"\"X\"\"\"", "\"\\u0058\"", "\"é😀\"", "true", "false", "null", "X", "Y",
            "x", "XX", "TRUE", "Null", "INF", "[]", "{}", "[X]", "[\"X\"]", "[[X]]", "[1.0]", "[\"1\"]", "[true]", "$v", "[$v]", "[[$v]]", "{r:$v}", "$w", "[null]", "[[null]]",
        ]);
        coerce_literal(r, &cx, ty, v)
    });
    rep.explore("json-scalars", 0, |c, r| {
        let (_, ty) = *c.pick_of(&VTYPES);
        let big = ["2147483648", "-2147483649", "4294967296", "9007199254740993", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "18446744073709551616"];
        let more = [
            "0", "-0", "-1", "1", "2147483647", "-2147483648", "0.0", "-0.0", "1.0", "1e0", "1E2", "1e-3", "1e10", "2147483647.0", "1e308", "\"\"", "\"X\"", "\"Z\"", "\"\\u0058\"", "\"x\"", "\"1\"", "true", "false", "null", "[]", "{}", "[\"X\"]", "[null]", "[[null]]", "[[1]]", "[[\"X\"]]",
            "{\"r\":1}", "{\"r\":1.0}", "{\"r\":\"1\"}", "{\"r\":1,\"e\":\"X\"}", "{\"r\":1,\"e\":\"Z\"}", "{\"a\":1}", "{\"a\":null}", "{\"a\":1,\"b\":null}", "{\"a\":1,\"b\":\"x\"}", "{\"\":1}", "{\"r\":1,\"\":2}", "{\"r\":1,\"r\":null}", "[[{\"r\":1}]]", "[{\"r\":1},{}]",
        ];
        let k = c.pick(big.len() + more.len());
        let js = if k < big.len() { big[k] } else { more[k - big.len()] };
        if k < big.len() && ty.contains("ID") {
            // see big-ids
            return r.skip();
        }
        coerce_json(r, &cx, ty, js)
    });
    rep.explore("big-ids", 0, |c, r| {
        let ty = c.pick_str(&["ID", "[ID!]!"]);
        let js = c.pick_str(&["2147483648", "-2147483649", "9007199254740993"]);
        if !r.case(format!("{ty} = JSON {js}")) {
            return;
        }
        let doc: ExecutableDocument = ExecutableDocument::parse(Box::leak(format!("query($t:{ty}){{q}}").into_boxed_str()) as &'static str).ok().unwrap();
        let cache = Cache::new(&doc, cx.b);
        let op = doc.operation_definitions().iter().next().unwrap().as_ref();
        let var = op.variable_definitions().unwrap().iter().next().unwrap();
        let it = cache.variable_definition_input_type(var.r#type()).expect("harness: input type");
        let json: Json = serde_json::from_str(js).unwrap();
        r.check(cx.b.coerce_const_value(it, &json, Default::default()).is_ok(), || "an integer is not accepted as an ID".into())
    });
}

fn coerce_json(r: &mut Run, cx: &Ctx, ty: &str, js: &str) {
    if !r.case(format!("{ty} = JSON {js}")) {
        return;
    }
    let Ok(json) = serde_json::from_str::<Json>(js) else { panic!("harness: not JSON: {js}") };
    let text = format!("query($t:{ty}){{q}}");
    let t = parse::exec(&text).unwrap().ops[0].vars[0].ty.clone();
    let mut want = vec![];
    validate::coerce(&cx.r, &t, &from_json(&json), "v", &mut vec![], true, true, &mut want);
    let want = sorted(want);
    r.outcome(match want.first() {
        None => "accepted",
        Some(e) => e.split(' ').next().unwrap(),
    });
    let doc: ExecutableDocument = match ExecutableDocument::parse(&text) {
        Ok(d) => d,
        Err(_) => return r.fail("rejected by the parser"),
    };
    let cache = Cache::new(&doc, cx.b);
    let op = doc.operation_definitions().iter().next().unwrap().as_ref();
    let var = op.variable_definitions().unwrap().iter().next().unwrap();
    let it = cache.variable_definition_input_type(var.r#type()).expect("harness: input type");
    let mut p = Paths::default();
    p.val::<true, _>(&json, "v");
    let got = cx.b.coerce_const_value(it, &json, Default::default()).err().unwrap_or_default();
    r.agree("JSON value", &want, &sorted(got.iter().map(|e| p.coercion(e)).collect()));
}

// ---- C20 ----

pub fn c20(rep: &mut Report) {
    super::scale::analyses(rep, Part::Values);
    let cx = ctx(VALUES);
    let th = rep.thorough();
    let menu = ["-", "null", "1", "1.5", "\"X\"", "\"Z\"", "true", "[]", "[1]", "[null]", "[[1]]", "[1,null]", "{}", "{\"r\":1}", "{\"r\":null}", "{\"a\":1}", "{\"a\":1,\"b\":null}", "{\"r\":1,\"l\":[{\"r\":1},{}]}", "{\"r\":1,\"zz\":1}", "[{\"r\":1}]", "2", "\"ab\"", "[2,2]", "{\"r\":2,\"ev\":3,\"tw\":[[],[1,2]]}"];
    let show = |vs: &[(&str, &str)]| {
        format!("{{{}}}", vs.iter().filter(|(_, v)| *v != "-").map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","))
    };
    rep.explore("one-variable", 0, |c, r| {
        let (name, ty) = *c.pick_of(&VTYPES);
        let d = match c.pick(3) {
            0 => "",
            1 => "=null",
            _ => match ty.trim_end_matches('!') {
                "Int" | "Float" | "ID" => "=1",
                "String" => "=\"s\"",
                "Boolean" => "=true",
                "E" => "=X",
                "In" => "={r:1}",
                "One" => "={a:1}",
                "Opt" => "={}",
                "Any" => "=Q",
                "Even" => "=2",
                "Two" => "=\"ab\"",
                _ => "=[]",
            },
        };
        let v = c.pick_str(&menu);
        let extra = c.pick_str(&["-", "1", "null"]);
        analyse(r, &cx, &format!("query($v:{ty}{d}){{f({name}:$v)}}"), None, &show(&[("v", v), ("w", extra)]), Part::Values)
    });
    rep.explore("several-variables", 0, |c, r| {
        let defs = [("a", "Int!", "Int"), ("b", "Int!=1", "NInt"), ("c", "In", "In"), ("d", "[Int!]", "LInt")];
        let use_: Vec<bool> = defs.iter().map(|_| c.flip()).collect();
        let vals = ["-", "null", "1", "{\"r\":1}", "[1]", "\"s\""];
        let mut given = vec![];
        for (n, _, _) in defs {
            given.push((n, c.pick_str(if th || n < "d" { &vals } else { &vals[..4] })));
        }
        let d: Vec<_> = defs.iter().zip(&use_).filter(|x| *x.1).map(|x| x.0).collect();
        let text = if d.is_empty() {
            "{q}".to_string()
        } else {
            format!("query({}){{f({})}}", d.iter().map(|(n, t, _)| format!("${n}:{t}")).collect::<Vec<_>>().join(" "), d.iter().map(|(n, _, p)| format!("{p}:${n}")).collect::<Vec<_>>().join(" "))
        };
        analyse(r, &cx, &text, None, &show(&given), Part::Values)
    });
    rep.explore("other-operations", 0, |c, r| {
        let ops = ["query A{q}", "query A($v:Int!){f(Int:$v)}", "query A($v:Int){f(Int:$v)}", "query A($v:E!){f(E:$v)}", "query A($v:In={r:1} $w:Int!){f(In:$v Int:$w)}", "query A($v:Int!){...F}", "query A($w:[Int]){f(LInt:$w)}"];
        let (x, y) = (c.pick_str(&ops), c.pick_str(&ops).replace(" A", " B"));
        let t = format!("{x} {y}{}", if x.contains("...F") || y.contains("...F") { " fragment F on Query{f(Int:$v)}" } else { "" });
        let vals = ["-", "null", "1", "\"X\"", "\"s\"", "{\"r\":2}", "[1]"];
        let (v, w) = (c.pick_str(&vals), c.pick_str(&vals));
        let name = *c.pick_of(&[Some("A"), Some("B"), None, Some("C"), Some("")]);
        analyse(r, &cx, &t, name, &show(&[("v", v), ("w", w)]), Part::Values)
    });
    // names that differ a little; keys that are no names at all
    rep.explore("variable-names", 0, |c, r| {
        let ns = ["v", "V", "vv", "v1", "_v", "null", "on", "__v"];
        let (a, b) = (c.pick_str(&ns), c.pick_str(&ns));
        let (k, l) = (c.pick_str(&ns), c.pick_str(&["", "$v", "v ", "é", "v", "V", "vv"]));
        let text = if a == b { format!("query(${a}:Int!){{f(Int:${a})}}") } else { format!("query(${a}:Int! ${b}:Int!){{f(Int:${a} NInt:${b})}}") };
        analyse(r, &cx, &text, None, &format!("{{\"{k}\":1,\"{l}\":1}}"), Part::Values)
    });
}

// ---- C21, C22, C23 ----

pub const TREE: &str = "directive@cost(weight:String kind:String)on FIELD_DEFINITION directive@x(l:[Int] on:Boolean)repeatable on QUERY|MUTATION|FIELD|FRAGMENT_SPREAD|INLINE_FRAGMENT
type Query implements I{a:Int i:I q:Query o:[O!] u:U l(x:[Int]):Int i2:I} interface I{a:Int i:I} interface J{i:I b:Int@cost(weight:\"5\")} type O implements I&J{a:Int@cost(weight:\"3\") i:I b:Int@cost(weight:\"5\") o:O@cost(weight:\"2.9\") u:U} type P implements I&J{a:Int i:I b:Int@cost(weight:\"7\") p:P@cost(weight:\"0\") c:String} union U=O|Query
type Mutation{a:Int q:Query} type Subscription{a:Int q:Query}";
const CONDS: [&str; 16] = [
    "", "@skip(if:true)", "@skip(if:false)", "@include(if:true)", "@include(if:false)", "@skip(if:$t)", "@include(if:$f)", "@skip(if:$d)", "@include(if:$e)", "@skip(if:$f)@include(if:$t)", "@include(if:$t)@skip(if:$t)", "@include(if:$f)@skip(if:$f)",
    "@x(l:[1 2])@include(if:$t)", "@skip(if:$e)@x@include(if:$d)", "@x(on:true)@x(on:false)", "@include(if:true)@skip(if:true)",
];
const CVARS: [(&str, &str); 4] = [("t", "Boolean!"), ("f", "Boolean!"), ("d", "Boolean=true"), ("e", "Boolean!=false")];
fn cvals(c: &mut Ch) -> String {
    let v = c.dev_str(&["\"t\":true,\"f\":false", "\"t\":false,\"f\":true", "\"t\":true,\"f\":true", "\"t\":false,\"f\":false"]);
    let d = c.dev_str(&["", ",\"d\":true", ",\"d\":false", ",\"e\":true", ",\"e\":false,\"d\":false"]);
    format!("{{{v}{d}}}")
}
/// keeps only the provided values the text declares
fn only_used(text: &str, json: &str) -> String {
    let Ok(Json::Object(o)) = serde_json::from_str::<Json>(json) else { panic!("harness: {json}") };
    Json::Object(o.into_iter().filter(|(k, _)| text.contains(&format!("${k}:"))).collect()).to_string()
}

/// sets of up to `budget` selections with a deviation of conditions at each
fn cond_set(c: &mut Ch, budget: &mut usize, depth: usize, items: &[&str]) -> String {
    let s = set(c, budget, depth, items);
    let mut out = String::new();
    for ch in s.chars() {
        if ch == '#' {
            out.push_str(c.dev_str(&CONDS))
        } else {
            out.push(ch)
        }
    }
    out
}
const ITEMS: [&str; 9] = ["a#", "x:a#", "i#{}", "q#{}", "...on Query#{}", "...on I#{}", "...#{}", "...F#", "...G#"];
fn frags(c: &mut Ch, budget: usize) -> Vec<(&'static str, String)> {
    let mut b = budget;
    let f = cond_set(c, &mut b, 1, &["a#", "i#{}", "...G#", "...on Query#{}"]);
    let g = c.pick_str(&["{a}", "{i{a}}"]);
    vec![("F", format!("on I{f}")), ("G", format!("on I{g}"))]
}

pub(super) fn tree_spaces(rep: &mut Report, part: Part) {
    let cx = ctx(TREE);
    let th = rep.thorough();
    let b = rep.b(1, 2);
    let n = if th { 4 } else { 3 };
    rep.explore("selections", b, |c, r| {
        let mut bud = n;
        let s = cond_set(c, &mut bud, 3, &ITEMS);
        let f = if s.contains("...F") { frags(c, 2) } else { frags(&mut Ch::new(vec![], 0), 0) };
        let t = finish("query", &s, &f, &CVARS);
        let v = cvals(c);
        let v = only_used(&t, &v);
        analyse(r, &cx, &t, None, &v, part)
    });
    let b = rep.b(2, 3);
    rep.explore("conditions", b, |c, r| {
        let mut t = String::new();
        for ch in "{a# i#{a# i#{x:a#}} q#{q#{a# ...F#} ...#{i{i#{a#}}}} ...on Query#{i#{i{i#{i{a#}}}}} ...G# ...F#}".chars() {
            if ch == '#' {
                t.push_str(c.dev_str(&CONDS))
            } else {
                t.push(ch)
            }
        }
        let mut f = String::from("on I{i");
        f.push_str(c.dev_str(&CONDS));
        f.push_str("{a ...G");
        f.push_str(c.dev_str(&CONDS));
        f.push_str("}}");
        let t = finish("query", &t, &[("F", f), ("G", "on I{i{i{...H}}}".into()), ("H", format!("on Query{{q{}{{q{{a}}}}}}", c.dev_str(&CONDS)))], &CVARS);
        let v = cvals(c);
        let v = only_used(&t, &v);
        analyse(r, &cx, &t, None, &v, part)
    });
    rep.explore("condition-pairs", 0, |c, r| {
        // both directives, every way of giving the condition, at each kind of selection
        let conds = ["", "true", "false", "$p", "$q"];
        let (x, y) = (c.pick_str(&conds), c.pick_str(&conds));
        let d = [("skip", x), ("include", y)].iter().filter(|d| !d.1.is_empty()).map(|(n, v)| format!("@{n}(if:{v})")).collect::<Vec<_>>();
        let d = if c.flip() { d.iter().rev().cloned().collect::<String>() } else { d.concat() };
        let body = c.pick_str(&["{a i#{a}}", "{i#{i{a}}}", "{i{i{a#}}}", "{...#{i{a}}}", "{...on Query#{i{a}}}", "{...F#}", "{...F}", "{i{...F# a}}", "{q{...on I{...F#}}}", "{i#{i{a}} ...on I{i{a}}}"]).replace('#', &d);
        let f = if body == "{...F}" { format!("on I{{i{d}{{a}}}}") } else { "on I{i{a}}".into() };
        let p = c.pick_str(&["Boolean!", "Boolean=true", "Boolean!=false", "Boolean!=true"]);
        let q = c.pick_str(&["Boolean!", "Boolean=false", "Boolean!=true"]);
        let t = finish("query", &body, &[("F", f)], &[("p", p), ("q", q)]);
        let pv = c.pick_str(&["", "\"p\":true", "\"p\":false", "\"p\":null"]);
        let qv = c.pick_str(&["", "\"q\":true", "\"q\":false", "\"q\":null"]);
        let v = only_used(&t, &format!("{{{pv}{}{qv}}}", if pv.is_empty() || qv.is_empty() { "" } else { "," }));
        analyse(r, &cx, &t, None, &v, part)
    });
    rep.explore("operations", 0, |c, r| {
        let ops = ["{a}", "query A{i{a}}", "query B($t:Boolean!){i@skip(if:$t){i{a}}}", "mutation A{q{a i{a}}}", "subscription B{q{i{i{a}}}}", "query C{...F}", "mutation D($t:Boolean!){q{...F@include(if:$t)}}", "query A@x(l:[1 2 3]){a}"];
        let mut t = String::new();
        for _ in 0..3 {
            let k = c.pick(ops.len() + 1);
            if k == 0 {
                break;
            }
            t.push_str(ops[k - 1]);
            t.push(' ')
        }
        if t.contains("...F") || t.is_empty() {
            t.push_str("fragment F on I{i{i{i{a}}}}")
        }
        let name = *c.pick_of(&[None, Some("A"), Some("B"), Some("C"), Some("D"), Some("a"), Some("F"), Some("")]);
        let v = c.pick_str(&["{\"t\":true}", "{\"t\":false}"]);
        let used = match name {
            Some(n) => t.split(['}']).any(|_| true) && ops.iter().any(|o| t.contains(o) && o.contains(&format!(" {n}(")) && o.contains("$t")),
            None => t.contains("$t"),
        };
        analyse(r, &cx, &t, name, if used { v } else { "{}" }, part)
    });
}

pub fn c21(rep: &mut Report) {
    super::scale::analyses(rep, Part::All);
    tree_spaces(rep, Part::All);
    let cx = ctx(INPUTS);
    let b = rep.b(2, 3);
    rep.explore("inputs-in-one-pass", b, |c, r| {
        let (t, v) = inputs_doc(c);
        analyse(r, &cx, &t, None, &v, Part::All)
    });
}

pub fn c22(rep: &mut Report) {
    super::scale::analyses(rep, Part::Depth);
    tree_spaces(rep, Part::Depth);
    let cx = ctx(TREE);
    let n = if rep.thorough() { 6 } else { 5 };
    rep.explore("deep-sets", 0, |c, r| {
        let mut bud = n;
        let s = set(c, &mut bud, 4, &["a", "x:a", "i{}", "q{}", "...on I{}", "...F"]);
        let t = finish("query", &s, &[("F", "on I{i{a}}".to_string())], &CVARS);
        analyse(r, &cx, &t, None, "{}", Part::Depth)
    });
    rep.explore("fragment-chains", 0, |c, r| {
        let bodies = ["{a}", "{i{a}}", "{...G}", "{i{...G}}", "{i{i{...H}}}", "{...on Query{q{...H}} i{...G}}", "{i{...G} ...H}", "{...H ...G}", "{i@skip(if:true){...G ...H}}"];
        let f = c.pick_str(&bodies);
        let g = c.pick_str(&["{a}", "{i{a}}", "{...H}", "{i{...H}}", "{...on Query{q{...H}}}"]);
        let h = c.pick_str(&["{a}", "{i{a}}", "{i{i{a}} a}", "{__typename}"]);
        let body = c.pick_str(&["{...F}", "{a ...F}", "{i{...F}}", "{...F ...G}", "{i{...G} ...F}", "{q{q{...F}} ...H}", "{...on Query{...F}}", "{...F@skip(if:true) i{...G}}"]);
        let t = finish("query", body, &[("F", format!("on I{f}")), ("G", format!("on I{g}")), ("H", format!("on I{h}"))], &[]);
        analyse(r, &cx, &t, None, "{}", Part::Depth)
    });
    rep.explore("straight-chains", 0, |c, r| {
        // one long chain of nested selections of all kinds
        let n = match c.pick(74) {
            k @ 0..=59 => k,
            k => [126, 127, 128, 129, 254, 255, 256, 257, 300, 398, 399, 511, 512, 513][k - 60],
        };
        let k = c.pick(4);
        let mut s = String::from("a");
        for j in 0..n {
            s = match (k, j % 3) {
                (0, _) => format!("q{{{s}}}"),
                (1, 0) => format!("...on Query{{{s}}}"),
                (2, 1) => format!("...{{{s}}} a"),
                (3, 2) => format!("x:q{{{s}}} q{{a}}"),
                _ => format!("q{{a {s}}}"),
            }
        }
        analyse(r, &cx, &format!("{{{s}}}"), None, "{}", Part::Depth)
    });
}

const RELAY: &str = "directive@cost(weight:String kind:String complexity:Int)on FIELD_DEFINITION|OBJECT
type Query{p(first:Int last:Int):C@cost(kind:\"connection\") w(first:Int last:Int):C@cost(weight:\"4\" kind:\"connection\") n(first:Int):C@cost(kind:\"list\") o(first:Int last:Int x:Int):C q:Query a:Int@cost(weight:\"3\") z:Int i:I u:U big:Query@cost(weight:\"1e30\") neg:Query@cost(weight:\"-7\") half:Query@cost(weight:\"0.99\") bad:Query@cost(weight:\"x\") nan:Query@cost(weight:\"NaN\") inf:Query@cost(weight:\"inf\")}
interface I{id:ID@cost(weight:\"2\") p(first:Int last:Int):C@cost(kind:\"connection\") i:I@cost(weight:\"6\")} type A implements I{id:ID@cost(weight:\"2\") p(first:Int last:Int):C@cost(kind:\"connection\") i:I@cost(weight:\"6\") a:Int@cost(weight:\"10\") x:Int@cost(weight:\"1\")} type B implements I{id:ID p(first:Int last:Int):C@cost(kind:\"connection\") i:I b:Int@cost(weight:\"20\") x:Int@cost(weight:\"9\")} union U=A|B
type C{edges:[E] nodes:[N] pageInfo:Int count:Int@cost(weight:\"8\")} type E{node:N cursor:String} type N{id:ID@cost(weight:\"1\") p(first:Int last:Int):C@cost(kind:\"connection\") n:N}";

pub fn c23(rep: &mut Report) {
    super::scale::analyses(rep, Part::Cost);
    let th = rep.thorough();
    {
        let cx = ctx(TREE);
        let n = if th { 5 } else { 4 };
        rep.explore("merged-selections", 0, |c, r| {
            let mut bud = n;
            let s = set(c, &mut bud, 3, &["a", "x:a", "i{}", "i2{}", "u{}", "...on O{}", "...on P{}", "...on I{}", "...on J{}", "b", "o{}"]);
            analyse(r, &cx, &s, None, "{}", Part::Cost)
        });
        rep.explore("types-of-one-field", 0, |c, r| {
            // one abstract field; what is selected on each of its types
            let mut parts = vec![];
            for t in ["I", "J", "O", "P", "Query"] {
                let sub: &[&str] = match t {
                    "I" => &["", "a", "x:a", "i{a}", "a i{i{a}}", "i{...on P{a c} ...on O{a}}"],
                    "J" => &["", "b", "x:b", "i{a}"],
                    "O" => &["", "a b", "o{a}", "u{...on O{a b}}", "i{...on O{b}}"],
                    "P" => &["", "a", "c", "p{p{b}}", "i{...on P{c}}"],
                    _ => &["", "a", "q{a q{a}}"],
                };
                let k = c.pick_str(sub);
                if !k.is_empty() {
                    parts.push(if t == "I" && c.flip() { k.to_string() } else { format!("...on {t}{{{k}}}") });
                }
            }
            if c.flip() {
                parts.reverse()
            }
            let s = if parts.is_empty() { "__typename".to_string() } else { parts.join(" ") };
            let t = c.pick_str(&["{i{#}}", "{i{#} i2{#}}", "{i{i{#}}}", "{...on I{i{#}} i{a}}"]).replace('#', &s);
            analyse(r, &cx, &t, None, "{}", Part::Cost)
        });
        rep.explore("one-field-twice", 0, |c, r| {
            // one abstract field selected in two places, with what is selected on its types in each of them
            let menu = ["a", "x:a", "i{a}", "...on O{a}", "...on O{a b}", "...on O{x:b o{b}}", "...on P{a}", "...on P{a c}", "...on P{b p{b c}}", "...on Query{a l}", "...on Query{q{a}}", "...on J{b}", "...on J{x:b i{a}}", "...on U{...on O{b}}"];
            let n = if th { 2 } else { 1 };
            let part = |c: &mut Ch| {
                let mut v = vec![c.pick_str(&menu)];
                for _ in 0..n {
                    let k = c.pick(menu.len() + 1);
                    if k > 0 {
                        v.push(menu[k - 1])
                    }
                }
                v.join(" ")
            };
            let (x, y) = (part(c), part(c));
            let t = c.pick_str(&["{i{#}i{%}}", "{i{...on O{i{#}}i{%}}}", "{i{...on O{i{#}}...on P{i{%}}}}", "{i{i{#}...on J{i{%}}}}", "{i{#}...on I{i{%}}}", "{q{i{#}}i{%}}", "{i{...on O{u{#}}...on Query{u{%}}}}"]);
            analyse(r, &cx, &t.replace('#', &x).replace('%', &y), None, "{}", Part::Cost)
        });
        rep.explore("hierarchies", 0, |c, r| {
            // which of the types are of which interface and union; what is selected on each of them
            let mut sdl = String::from("directive@cost(weight:String)on FIELD_DEFINITION interface B implements A{x:Int a:A b:B u:U} interface A{x:Int a:A b:B u:U} ");
            let mut us = vec![];
            for (k, t) in ["P", "Q", "Pp", "R"].iter().enumerate() {
                let of = c.pick_str(&["implements A&B", "implements A", ""]);
                sdl.push_str(&format!("type {t} {of}{{x:Int@cost(weight:\"{}\") a:A b:B u:U y:Int@cost(weight:\"{}\")}} ", [5, 2, 9, 1][k], [1, 7, 3, 30][k]));
                if k == 0 || c.flip() {
                    us.push(*t)
                }
            }
            sdl.push_str(&format!("union U={} type Query{{a:A b:B u:U}}", us.join("|")));
            let doc = c.pick_str(&["{a{#}}", "{b{#}}", "{u{#}}", "{a{a{#}}b{b{#}}}", "{a{...on P{u{#}}...on B{u{__typename}}}}", "{k:a{#}k:a{...on R{y}}}"]);
            let sel = c.pick_str(&["...on P{x}...on Q{x}...on Pp{x}...on R{x}", "...on P{y}...on Q{y}...on Pp{y}...on R{y}", "...on A{x}", "...on B{x}...on A{k:x}...on R{y}", "...on P{x y}...on Q{k:x k2:y}...on Pp{x}", "...on R{x}...on Q{k:x}...on B{a{x}}", "...on U{...on R{y}...on P{x}}...on A{a{...on R{y}}}"]);
            let cx = super::vctx::ctx_for(&sdl);
            analyse(r, &cx, &format!("# {sdl}\n{}", doc.replace('#', sel)), None, "{}", Part::Cost)
        });
        tree_spaces(rep, Part::Cost);
        rep.explore("narrowed-by-nested-fragments", 0, |c, r| {
            let t = c.pick_str(&["{i{...on O{...on I{a}} ...on P{...on I{x:a}}}}", "{u{...on I{...on P{p{a}}}}}"]);
            analyse(r, &cx, &format!("#exact\n{t}"), None, "{}", Part::Cost)
        });
    }
    let cx = ctx(RELAY);
    rep.explore("connections", 0, |c, r| {
        let nums = ["", "0", "1", "2", "3", "10", "100", "-5", "2147483647", "$n", "$d"];
        let f = c.pick_str(&nums);
        let l = c.pick_str(&["", "0", "5", "50", "-1", "$d"]);
        let mut args = vec![];
        if !f.is_empty() {
            args.push(format!("first:{f}"))
        }
        if !l.is_empty() {
            args.push(format!("last:{l}"))
        }
        let args = if args.is_empty() { String::new() } else { format!("({})", args.join(" ")) };
        let field = c.pick_str(&["p", "w", "o", "x:p", "q{p#}"]);
        let inner = c.pick_str(&["edges{cursor}", "nodes{id}", "edges{node{id}} pageInfo", "nodes{p(first:5){nodes{id}}}", "count", "e:edges{node{n{id}}} nodes{id}", "...on C{edges{node{id}}}", "edges{node{p(last:3){edges{cursor}count}}} count", "edges:count", "nodes:pageInfo n:nodes{id n{id}}"]);
        let body = if field.contains('#') { field.replace('#', &format!("{args}{{{inner}}}")) } else { format!("{field}{args}{{{inner}}}") };
        let t = finish("query", &format!("{{{body}}}"), &[], &[("n", "Int"), ("d", "Int=7")]);
        let v = c.pick_str(&["{}", "{\"n\":4}", "{\"n\":null,\"d\":1000}", "{\"n\":-3,\"d\":null}", "{\"n\":0}"]);
        analyse(r, &cx, &t, None, &only_used(&t, v), Part::Cost)
    });
    rep.explore("weights", 0, |c, r| {
        let mut bud = if th { 5 } else { 4 };
        let s = set(c, &mut bud, 4, &["a", "z", "big{}", "neg{}", "half{}", "bad{}", "nan{}", "inf{}", "p(first:100){nodes{n{id}}}"]);
        analyse(r, &cx, &s, None, "{}", Part::Cost)
    });
    rep.explore("overflow", 0, |c, r| {
        // products that do not fit
        let n = c.pick(40);
        let k = c.pick(3);
        let mut s = String::from("id");
        for _ in 0..n {
            s = match k {
                0 => format!("p(first:2147483647){{nodes{{{s}}}}}"),
                1 => format!("p(first:2147483647){{nodes{{{s}}} count}}"),
                _ => format!("p(first:2147483647){{edges{{node{{{s}}}}} nodes{{id}}}}"),
            };
        }
        let top = c.pick_str(&["p(first:9){nodes{#}}", "big{p(first:9){nodes{#}}}", "big{big{p(first:1){nodes{#}}}} q{inf{p(first:9){nodes{#}}}}", "p(first:0){nodes{#}}"]);
        analyse(r, &cx, &format!("{{{}}}", top.replace('#', &s)), None, "{}", Part::Cost)
    });
    rep.explore("costs-of-types", 0, |c, r| {
        let mut parts = vec![];
        for t in ["I", "A", "B", "U"] {
            let sub: &[&str] = match t {
                "I" => &["", "id", "p(first:3){nodes{id}}", "k:p(first:3){nodes{id}}", "i{id}", "i{i{id}}"],
                "A" => &["", "a", "k:a", "k:x", "p(first:3){nodes{id}}", "p(first:3){count}", "i{...on A{a}}"],
                "B" => &["", "b", "k:b", "k:x", "p(first:3){edges{cursor}}", "i{...on B{b} ...on A{a}}"],
                _ => &["", "__typename"],
            };
            let k = c.pick_str(sub);
            if !k.is_empty() {
                parts.push(format!("...on {t}{{{k}}}"));
            }
        }
        let s = if parts.is_empty() { "__typename".to_string() } else { parts.join(" ") };
        let t = c.pick_str(&["{i{#}}", "{u{#}}", "{i{#} u{#}}", "{i{i{#}}}", "{i{...on A{i{#}} i{id}}}"]).replace('#', &s);
        analyse(r, &cx, &t, None, "{}", Part::Cost)
    });
}

// ---- C24, C25 ----

pub const INPUTS: &str = "directive@x(l:[Int] in:In old:Int@deprecated(reason:\"x\") e:E ll:[[Int]] en:[In!])repeatable on QUERY|FIELD|FRAGMENT_SPREAD|INLINE_FRAGMENT
enum E{X Y@deprecated Z@deprecated(reason:\"z\") W@deprecated(reason:null)} scalar Any
input In{l:[Int] ll:[[Int!]] n:In ns:[In!] o:Int@deprecated(reason:\"o\") e:E es:[E!] y:[Any] one:One d:E=Z} input One@oneOf{a:[Int] b:In@deprecated(reason:\"b\")}
interface I{f(l:[Int] e:E):Int g:Int@deprecated(reason:\"I.g\")} type Query implements I{f(l:[Int] ll:[[Int]] in:In ins:[In] e:E es:[E] any:Any one:One old:Int@deprecated(reason:\"old\") oldl:[E!]@deprecated i:Int):Int g:Int@deprecated(reason:\"Q.g\") h(l:[Int]@deprecated(reason:\"\")):Int@deprecated q:Query i:I r:Int@deprecated(reason:\"\"\"block\"\"\") dflt(l:[Int]=[1 2 3] in:In={l:[1 2 3] o:1}):Int}";

const ARG_VALUES: [&str; 44] = [
    "l:[]", "l:[1]", "l:[1 2]", "l:[1 2 3]", "l:1", "l:null", "l:$l", "l:[$i $i]", "l:[null null null]", "ll:[[1 2] [1 2 3] []]", "ll:[[1] 2]", "ll:[$l $l $l]", "ll:[[$i $i $i]]", "ll:$ll", "in:{l:[1 2 3]}", "in:{l:$l}", "in:{n:{n:{l:[1 2]}} ns:[{l:[1 2]}{ll:[[1 2]]}]}", "in:$in", "in:{ns:[$nn {n:$in}]}",
    "in:{ns:{l:[1 2]}}", "ins:[{l:[1 2]} null]", "ins:$ins", "ins:{l:$l}", "ins:[$in]", "e:X", "e:Y", "e:Z", "e:W", "e:$e", "es:[X Y Z]", "es:Y", "es:[$e Y]", "in:{o:1}", "in:{o:null e:Y es:[Z W]}", "in:{n:{o:1 n:{e:Z}}}", "any:[1 2 3]", "any:{o:[1 2] e:[[1 2 3]]}", "any:$any", "one:{a:[1 2]}", "one:{b:{o:1 l:[1 2]}}",
    "old:1", "old:$i oldl:[Y X]", "oldl:Z", "in:{d:X y:[1 2 [3 4 5]]}",
];
const IVARS: [(&str, &[&str]); 8] = [
    ("l", &["[Int]", "[Int]=[1 2]", "[Int]=null", "[Int]=3", "[Int!]=[1 2 3]"]),
    ("i", &["Int", "Int=5"]),
    ("ll", &["[[Int]]", "[[Int]]=[[1][1 2 3]]", "[[Int]!]=[]"]),
    ("in", &["In", "In={l:[1 2]}", "In={o:1 e:Y n:{es:[Z X] ns:[{l:[1 2 3]}]}}"]),
    ("nn", &["In!", "In!={l:[1 2 3]}"]),
    ("ins", &["[In]", "[In]=[{l:[1]}{o:2}]", "[In]={o:3 l:[1 2]}"]),
    ("e", &["E", "E=Y", "E=X", "E=W"]),
    ("any", &["Any", "Any=[1 2]", "Any={k:[1 2 3] e:Y}"]),
];
const IVALS: [(&str, &[&str]); 8] = [
    ("l", &["", "[1,2,3]", "[]", "null", "7", "[1]", "[1,2]"]),
    ("i", &["", "1"]),
    ("ll", &["", "[[1,2],[3]]", "[[1,2,3],[],[1,2]]", "[1]", "5"]),
    ("in", &["", "{\"l\":[1,2]}", "{\"o\":1,\"e\":\"Y\",\"es\":[\"Z\",\"X\"]}", "{\"n\":{\"ns\":[{\"ll\":[[1,2],[3,4,5]]}]}}", "{\"es\":\"W\",\"one\":{\"b\":{\"o\":1}}}", "null", "{\"y\":[\"Y\",[1,2]]}"]),
    ("nn", &["{\"l\":[1,2]}", "{}", "{\"o\":3}"]),
    ("ins", &["", "[{\"l\":[1,2]},null,{\"o\":1}]", "{\"e\":\"Y\"}"]),
    ("e", &["", "\"X\"", "\"Y\"", "\"Z\"", "null"]),
    ("any", &["", "[1,2,3]", "{\"o\":[1,2]}", "\"Y\""]),
];

fn used_vars(c: &mut Ch, body: &str, full: bool) -> (String, String) {
    let mut defs = vec![];
    let mut vals = vec![];
    for ((n, ts), (_, vs)) in IVARS.iter().zip(IVALS.iter()) {
        let used = body.match_indices(&format!("${n}")).any(|(i, m)| !body[i + m.len()..].starts_with(|ch: char| ch.is_alphanumeric()));
        if !used {
            continue;
        }
        let (t, v) = if full { (c.pick_str(ts), c.pick_str(vs)) } else { (c.dev_str(ts), c.dev_str(vs)) };
        defs.push(format!("${n}:{t}"));
        if !v.is_empty() {
            vals.push(format!("\"{n}\":{v}"))
        }
    }
    (if defs.is_empty() { String::new() } else { format!("({})", defs.join(" ")) }, format!("{{{}}}", vals.join(",")))
}

pub(super) fn inputs_doc(c: &mut Ch) -> (String, String) {
    let a = |c: &mut Ch| c.dev_str(&ARG_VALUES).to_string();
    let ds = |c: &mut Ch| c.dev_str(&["", "@x(l:[1 2])", "@x(in:{l:[1 2 3] o:1})", "@x(old:1)", "@x(e:Y)@x(e:Z)", "@x(ll:[[1 2]] l:$l)", "@skip(if:true)", "@x(en:[$nn])@include(if:false)", "@x(in:$in)"]).to_string();
    let body = format!(
        "{}{{f({}){} p:f({}){} q{}{{f({}) {} ...on I{}{{f({}){} {}}}}} ...F{}}} fragment F on Query{{h{}{} f({})}}",
        ds(c), a(c), ds(c), a(c), ds(c), ds(c), a(c), c.dev_str(&["g", "r", "h", "i{g}", "h(l:[1 2])", "q{g q{r}}", "dflt", "dflt(in:{o:1})"]), ds(c), c.dev_str(&["l:[1 2]", "e:Y", "l:$l", "e:$e", "e:Z l:[]"]), ds(c), c.dev_str(&["g", "x:g", "__typename"]), ds(c), c.dev_str(&["", "(l:[1])", "(l:$l)"]), ds(c), a(c)
    );
    // the two selections of f at the root have to be the same: the one in the fragment gets another name
    let body = body.replace(" f(", " k:f(").replace("...on I{f(", "...on I{m:f(").replace("}{f(", "}{m:f(");
    let (vars, vals) = used_vars(c, &body, false);
    (format!("query{vars}{body}"), vals)
}

fn input_spaces(rep: &mut Report, part: Part) {
    let cx = ctx(INPUTS);
    let th = rep.thorough();
    rep.explore("one-argument", 0, |c, r| {
        let a = c.pick_str(&ARG_VALUES);
        let at = c.pick_str(&["{f(#)}", "{q{...on Query{f(#)}}}", "{...F} fragment F on Query{f(#)}", "{f(#)@skip(if:true)}", "{q@include(if:false){f(#)}}", "{q{...F} ...F} fragment F on Query{f(#)}", "{f(#) x:f(#)}"]).replace('#', a);
        let (vars, vals) = used_vars(c, &at, true);
        analyse(r, &cx, &format!("query{vars}{at}"), None, &vals, part)
    });
    rep.explore("two-arguments", 0, |c, r| {
        let (a, b) = (c.pick_str(&ARG_VALUES), c.pick_str(&ARG_VALUES));
        let at = format!("{{f({a}) x:f({b})}}");
        let (vars, vals) = used_vars(c, &at, th && at.matches('$').count() < 3);
        analyse(r, &cx, &format!("query{vars}{at}"), None, &vals, part)
    });
    rep.explore("directive-arguments", 0, |c, r| {
        let a = c.pick_str(&["l:[1 2]", "l:$l", "in:{l:[1 2 3] o:1 e:Y}", "in:$in", "old:1", "e:Y", "e:$e", "ll:[[1 2 3]]", "en:{o:1 l:[1 2]}", "en:[$nn]", "e:Z old:2 l:[1 2 3]"]);
        let at = c.pick_str(&["@x(#){f}", "{f@x(#)}", "{q@x(#){f}}", "{...@x(#){f}}", "{...on Query@x(#){f}}", "{...F@x(#)} fragment F on Query{f}", "{...F} fragment F on Query{f@x(#)}", "{f@x(#)@skip(if:true)}", "{f@x@x(#)}"]).replace('#', a);
        let (vars, vals) = used_vars(c, &at, true);
        analyse(r, &cx, &format!("query{vars}{at}"), None, &vals, part)
    });
    let b = rep.b(2, 3);
    rep.explore("large-document", b, |c, r| {
        let (t, v) = inputs_doc(c);
        analyse(r, &cx, &t, None, &v, part)
    });
}

pub fn c24(rep: &mut Report) {
    super::scale::analyses(rep, Part::Sizes);
    input_spaces(rep, Part::Sizes);
    let cx = ctx(INPUTS);
    let k = if rep.thorough() { 7 } else { 6 };
    rep.explore("list-shapes", 0, |c, r| {
        let mut b = k;
        let v = value(c, &mut b, &["1", "$any"], &["k"]);
        let t = format!("query($any:Any=[1 2]){{f(any:{v}) i:f(any:$any)}}");
        let j = c.pick_str(&["{}", "{\"any\":[1,2,3]}", "{\"any\":{\"k\":[1,2]}}", "{\"any\":[[1],[1,2]]}", "{\"any\":null}"]);
        analyse(r, &cx, &t, None, j, Part::Sizes)
    });
    rep.explore("lists-in-variables", 0, |c, r| {
        let mut b = k;
        let v = value(c, &mut b, &["1"], &["k"]);
        let js = json_of(&parse::value(&v, Mode::default()).unwrap());
        let Some(js) = js else { return r.skip() };
        let t = c.pick_str(&["query($any:Any){f(any:$any)}", "query($any:Any){f(any:[$any{k:$any}])}", "query($any:Any){q{...{f(any:$any)@skip(if:true)}}}"]);
        analyse(r, &cx, t, None, &format!("{{\"any\":{js}}}"), Part::Sizes)
    });
}

pub fn c25(rep: &mut Report) {
    super::scale::analyses(rep, Part::Deprecated);
    input_spaces(rep, Part::Deprecated);
    let cx = ctx(INPUTS);
    let cx2 = ctx(TREE);
    rep.explore("deprecated-fields", 0, |c, r| {
        let n = if c.flip() { 3 } else { 2 };
        let mut bud = n;
        let s = set(c, &mut bud, 2, &["g", "x:g", "h", "r", "q{}", "i{}", "...on I{}", "...on Query{}", "...F", "h@skip(if:$t)", "q@include(if:$t){}", "...@skip(if:$t){}", "f"]);
        let t = finish("query", &s, &[("F", "on I{g}".to_string())], &[("t", "Boolean!")]);
        let v = c.pick_str(&["{\"t\":true}", "{\"t\":false}"]);
        analyse(r, &cx, &t, None, &only_used(&t, v), Part::Deprecated)
    });
    rep.explore("nothing-deprecated", 0, |c, r| {
        let mut bud = 3;
        let s = set(c, &mut bud, 2, &["a", "i{}", "q{}", "...on I{}", "l(x:[1 2])"]);
        analyse(r, &cx2, &s, None, "{}", Part::Deprecated)
    });
    // which elements are deprecated, and how
    rep.explore("reasons", 0, |c, r| {
        let d = |c: &mut Ch| c.pick_str(&["", "@deprecated", "@deprecated(reason:\"r\")", "@deprecated(reason:null)", "@deprecated(reason:\"\")", "@other(reason:\"no\")", "@other @deprecated(reason:\"two\")"]);
        let which = c.pick(4);
        let x = d(c);
        let at = |k: usize| if k == which { x } else { "" };
        let sdl = format!("directive@other(reason:String)on FIELD_DEFINITION|ARGUMENT_DEFINITION|INPUT_FIELD_DEFINITION|ENUM_VALUE enum E{{X{}}} input In{{e:E{}}} type Query{{f(a:In{}):Int{}}}", at(0), at(1), at(2), at(3));
        let cx = ctx(&sdl);
        let (t, v) = *c.pick_of(&[("{f}", "{}"), ("{f(a:{e:X})}", "{}"), ("query($v:In){f(a:$v)}", "{\"v\":{\"e\":\"X\"}}"), ("query($v:In={e:X}){f(a:$v)}", "{}"), ("query($v:E){f(a:{e:$v})}", "{\"v\":\"X\"}"), ("query($v:E=X){f(a:{e:$v})}", "{\"v\":\"X\"}"), ("{f(a:null)}", "{}"), ("{f(a:{e:null})}", "{}")]);
        r.case = sdl.clone();
        analyse(r, &cx, &format!("# {sdl}\n{t}"), None, v, Part::Deprecated)
    });
}
