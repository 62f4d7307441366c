//! C10 to C18 on generated schemas: the schema is part of what is enumerated.
use super::validation::*;
use super::vctx::*;
use crate::engine::{Ch, Report};

/// every list and nullability wrapper with at most `depth` lists
pub fn wrappers(depth: usize) -> Vec<String> {
    let mut level = vec!["#".to_string(), "#!".to_string()];
    let mut out = level.clone();
    for _ in 0..depth {
        level = level.iter().flat_map(|w| [format!("[{w}]"), format!("[{w}]!")]).collect();
        out.extend(level.clone());
    }
    out
}
fn field_types(bases: &[&str], depth: usize) -> Vec<String> {
    bases.iter().flat_map(|b| wrappers(depth).into_iter().map(move |w| w.replace('#', b))).collect()
}
fn fields_sdl(types: &[String], args: &str) -> String {
    types.iter().enumerate().map(|(i, t)| format!("f{i}{args}:{t} ")).collect()
}
const BASES: [&str; 9] = ["Int", "String", "ID", "E", "Date", "C", "D", "I", "U"];
fn leaf(t: &str) -> bool {
    !["C", "D", "I", "U"].contains(&t.trim_matches(|c| "[]!".contains(c)))
}

pub fn c10(rep: &mut Report) {
    let types = field_types(&BASES, 2);
    let fs = fields_sdl(&types, "(a:Int)");
    let cx = ctx(&format!("enum E{{X}} scalar Date interface I{{x:Int}} union U=C|D type C implements I{{x:Int}} type D{{x:Int}} interface P{{{fs}}} type O implements P{{{fs} o:O p:P}} type Query{{{fs} o:O! p:[P!]!}}"));
    let n = types.len();
    rep.explore("every-output-type", 0, |c, r| {
        let i = c.pick(n);
        let alias = c.pick_str(&["", "k:", "f0:", "__typename:"]);
        let args = c.pick_str(&["", "(a:1)"]);
        let dir = c.pick_str(&["", "@skip(if:true)", "@include(if:$v)"]);
        let sub = c.pick_str(&["", "{__typename}", "{x}", "{...on C{x}}"]);
        let (open, close) = *c.pick_of(&[("query($v:Boolean!){", "}"), ("query($v:Boolean!){o{", "}}"), ("query($v:Boolean!){p{", "}}"), ("query($v:Boolean!){p{...on O{", "}}}"), ("query($v:Boolean!){...F} fragment F on Query{o{o{", "}}}"), ("query($v:Boolean!){o{p{...F}}} fragment F on P{...{", "}}")]);
        compare(r, &cx, &format!("{open}{alias}f{i}{args}{dir}{sub}{close}"), &C10)
    });
}

const KINDS: [&str; 6] = [":Int", ":Int!", ":Int=1", ":Int!=1", ":[Int!]!", ":Int=null"];
pub fn c11(rep: &mut Report) {
    let th = rep.thorough();
    let m = if th { 4 } else { 3 };
    rep.explore("argument-kinds", 0, |c, r| {
        let names = ["a", "b", "c", "d"];
        let kinds: Vec<&str> = (0..m).map(|_| c.pick_str(&KINDS)).collect();
        let defs: String = kinds.iter().zip(names).map(|(k, n)| format!("{n}{k} ")).collect();
        let cx = ctx_for(&format!("directive@d({defs})on FIELD|VARIABLE_DEFINITION|QUERY type Query{{x:Int q:Query f({defs}):Int g(y:Int):Int}}"));
        let mut given: Vec<String> = (0..m).filter(|_| c.flip()).map(|i| format!("{}:1", names[i])).collect();
        if c.flip() {
            given.reverse()
        }
        match c.pick(4) {
            0 => {}
            1 => given.push("zz:1".into()),
            2 => given.extend(given.clone().first().cloned()),
            _ => given.extend(given.clone().last().cloned()),
        }
        let args = if given.is_empty() { String::new() } else { format!("({})", given.join(" ")) };
        let t = match c.pick(5) {
            0 => format!("{{f{args}}}"),
            1 => format!("{{x@d{args}}}"),
            2 => format!("query($v:Int@d{args}){{g(y:$v)}}"),
            3 => format!("query@d{args}{{x}}"),
            _ => format!("{{q{{k:f{args} ...on Query{{f{args}}}}}}}"),
        };
        compare(r, &cx, &t, &C11)
    });
}

pub fn c12(rep: &mut Report) {
    let th = rep.thorough();
    rep.explore("input-field-kinds", 0, |c, r| {
        let names = ["a", "b", "c"];
        let kinds = [":Int", ":Int!", ":Int=1", ":Int!=1", ":Int=null", ":[Int!]", ":[Int!]!=[]", ":N"];
        let k: Vec<&str> = (0..3).map(|_| c.pick_str(&kinds)).collect();
        if !th && (k[0], k[1]) > (k[1], k[2]) {
            return r.skip();
        }
        let defs: String = k.iter().zip(names).map(|(k, n)| format!("{n}{k} ")).collect();
        let cx = ctx_for(&format!("input N{{a:Int!}} input T{{{defs}}} directive@d(t:T)on FIELD|VARIABLE_DEFINITION type Query{{f(t:T u:[T!]):Int}}"));
        let vals = ["", "1", "null", "\"s\"", "[null]", "{a:1}"];
        let body: Vec<String> = names.iter().filter_map(|n| match c.pick_str(&vals) {
            "" => None,
            v => Some(format!("{n}:{v}")),
        }).collect();
        let v = format!("{{{}}}", body.join(" "));
        let t = match c.pick(if th { 5 } else { 2 }) {
            0 => format!("{{f(t:{v})}}"),
            1 => format!("query($v:T={v}){{f(t:$v)}}"),
            2 => format!("{{f(u:[{v} {{a:1}}])}}"),
            3 => format!("{{f(u:{v}) @d(t:{v})}}"),
            _ => format!("query($v:[T!]@d(t:{v})){{f(u:$v)}}"),
        };
        compare(r, &cx, &t, &C12)
    });
    let types: Vec<String> = wrappers(if th { 4 } else { 3 }).into_iter().map(|w| w.replace('#', "Int")).collect();
    let args: String = types.iter().enumerate().map(|(i, t)| format!("a{i}:{} ", t.trim_end_matches('!'))).collect();
    let reqd: String = types.iter().enumerate().map(|(i, t)| format!("f{i}(a:{t}):Int ")).collect();
    let cx = ctx(&format!("type Query{{{reqd} all({args}):Int}} directive@d({args})on VARIABLE_DEFINITION"));
    let k = if th { 6 } else { 5 };
    rep.explore("list-types", 0, |c, r| {
        let i = c.pick(types.len());
        let mut b = k;
        let v = value(c, &mut b, &["1", "null", "\"s\"", "$w"], &[]);
        if v.contains('{') {
            return r.skip();
        }
        let t = match c.pick(3) {
            0 => format!("query($w:Int){{f{i}(a:{v})}}"),
            1 if !v.contains('$') => format!("query($v:{}={v}){{f{i}(a:$v)}}", types[i]),
            2 if !v.contains('$') => format!("query($v:Int@d(a{i}:{v})){{f0(a:$v)}}"),
            _ => return r.skip(),
        };
        compare(r, &cx, &t, &C12)
    });
    rep.explore("enum-members", 0, |c, r| {
        let names = ["A", "a", "AA", "A_", "on", "type"];
        let mut members: Vec<&str> = names.iter().copied().filter(|_| c.flip()).collect();
        if members.is_empty() {
            members.push("Q")
        }
        let cx = ctx_for(&format!("enum E{{{}}} input I{{e:E l:[E!]}} type Query{{f(e:E l:[E!] i:I):Int}}", members.join(" ")));
        let v = c.pick_str(&["A", "a", "AA", "A_", "on", "type", "Q", "B", "\"A\"", "1", "true"]);
        let t = c.pick_str(&["{f(e:#)}", "{f(l:[#])}", "{f(l:#)}", "{f(i:{e:#})}", "{f(i:{l:[#,#]})}", "query($v:E=#){f(e:$v)}"]);
        compare(r, &cx, &t.replace('#', v), &C12)
    });
    rep.explore("one-of-members", 0, |c, r| {
        let k: Vec<&str> = (0..3).map(|_| c.pick_str(&[":Int", ":[Int!]", ":O", ":String"])).collect();
        let one = c.pick_str(&["@oneOf", ""]);
        let cx = ctx_for(&format!("input O{one}{{a{} b{} c{}}} type Query{{f(o:O l:[O]):Int}}", k[0], k[1], k[2]));
        let mut body = vec![];
        for n in ["a", "b", "c"] {
            match c.pick_str(&["", "1", "null", "$v", "{a:1}", "[1]"]) {
                "" => {}
                v => body.push(format!("{n}:{v}")),
            }
        }
        if c.flip() {
            body.reverse()
        }
        let v = format!("{{{}}}", body.join(" "));
        let t = if c.flip() { format!("query($v:Int){{f(o:{v})}}") } else { format!("query($v:Int){{f(l:[{v}])}}") };
        compare(r, &cx, &t, &C12)
    });
}

/// operation -> F0 -> F1 -> … -> Fk, linked in every combination of ways; the deepest one contains `#`
fn chain(c: &mut Ch, max: usize, links: &[&str], uses: &[&str], on: &str) -> (usize, String, String) {
    let k = c.pick(max + 1);
    let u = c.pick_str(uses);
    let mut text = String::new();
    let link = |c: &mut Ch, i: usize| if i == k { u.to_string() } else { c.pick_str(links).replace('#', &format!("...F{i}")) };
    let op = link(c, 0);
    for i in 0..k {
        let body = link(c, i + 1);
        let (dir, body) = match body.split_once('^') {
            Some((d, b)) => (d.to_string(), b.to_string()),
            None => (String::new(), body),
        };
        text.push_str(&format!(" fragment F{i} on {on}{dir}{{{body}}}"));
    }
    let op = match op.split_once('^') {
        Some((_, b)) => b.to_string(),
        None => op,
    };
    (k, op, text)
}
const LINKS: [&str; 6] = ["#", "leaf #", "q{#}", "...on Query{#}", "...{q{#}}", "#@d(i:1)"];

pub fn c13(rep: &mut Report) {
    let cx = ctx(VARS);
    let m = if rep.thorough() { 5 } else { 4 };
    rep.explore("chains", 0, |c, r| {
        let (k, op, frs) = chain(c, m, &LINKS, &["f(Int:$v)", "f(LInt:[1 $v])", "f(In:{r:1 n:{r:$v}})", "leaf@d(i:$v)", "@d(i:$v)^leaf", "...on Query@d(i:$v){leaf}", "leaf"], "Query");
        let d = c.pick_str(&["", "($v:Int)", "($w:Int)", "($v:Int $w:Int)"]);
        let other = match c.pick(k + 2) {
            0 => String::new(),
            1 => " query B($v:Int){leaf}".to_string(),
            n => format!(" query B($v:Int){{...F{}}}", n - 2),
        };
        compare(r, &cx, &format!("query A{d}{{{op}}}{other}{frs}"), &C13)
    });
    rep.explore("variable-types", 0, |c, r| {
        let kinds = ["scalar T", "enum T{X}", "input T{x:Int}", "type T{x:Int}", "interface T{x:Int}", "union T=Query", ""];
        let k = c.pick_str(&kinds);
        let cx = ctx_for(&format!("{k} type Query{{f(a:Int):Int}}"));
        let w = c.pick_of(&wrappers(2)).replace('#', c.pick_str(&["T", "Int", "ID", "Query", "__Type", "__TypeKind", "Boolean"]));
        let d = c.pick_str(&["", "=null", "=1"]);
        let more = c.pick_str(&["", " $w:T", " $v:T"]);
        compare(r, &cx, &format!("query($v:{w}{d}{more}){{f(a:$v)}}"), &["NonUniqueVariableDefinitionNames", "VariableDefinitionTypeNotInput"])
    });
}

pub fn c14(rep: &mut Report) {
    let cx = ctx(VARS);
    let m = if rep.thorough() { 5 } else { 4 };
    rep.explore("chains", 0, |c, r| {
        let (k, op, frs) = chain(c, m, &LINKS, &["f(NInt:$v)", "f(LNInt:[1 $v])", "f(In:{r:1 n:{r:$v}})", "leaf@d(ni:$v)", "@d(in:{r:$v})^leaf"], "Query");
        let d = c.pick_str(&["Int", "Int!", "Int=1", "String!", "Int=null"]);
        let other = match c.pick(k + 1) {
            0 => String::new(),
            n => format!(" query B($v:String!){{...F{}}}", n - 1),
        };
        compare(r, &cx, &format!("query A($v:{d}){{{op}}}{other}{frs}"), &C14)
    });
    let th = rep.thorough();
    let types: Vec<String> = field_types(&["Int", "ID"], if th { 4 } else { 3 });
    let args: String = types.iter().enumerate().map(|(i, t)| format!("f{i}(a:{t} b:I{i}):Int ")).collect();
    let ins: String = types.iter().enumerate().map(|(i, t)| format!("input I{i}{{x:{t}}} ")).collect();
    let dflt: String = types.iter().enumerate().map(|(i, t)| format!("g{i}(a:{t}={} b:J{i}):Int ", if t.starts_with('[') { "[]" } else { "1" })).collect();
    let jns: String = types.iter().enumerate().map(|(i, t)| format!("input J{i}{{x:{t}={}}} ", if t.starts_with('[') { "[]" } else { "1" })).collect();
    let cx = ctx(&format!("{ins} {jns} type Query{{{args} {dflt}}}"));
    rep.explore("every-type-against-every-position", 0, |c, r| {
        let t = c.pick_of(&types).clone();
        let d = match c.pick(3) {
            0 => "",
            1 => "=null",
            _ => if t.starts_with('[') { "=[]" } else { "=1" },
        };
        let f = format!("{}{}", c.pick_str(&["f", "g"]), c.pick(types.len()));
        let v = c.pick_str(&["a:$v", "b:{x:$v}", "a:[$v]", "a:[[$v]]", "b:{x:[$v]}"]);
        compare(r, &cx, &format!("query($v:{t}{d}){{{f}({v})}}"), &C14)
    });
}

pub fn c15(rep: &mut Report) {
    let th = rep.thorough();
    let cx = ctx(FIELDS);
    let links = ["#", "id #", "i{#}", "...on I{#}", "...{#}", "i{i{#}}", "...on A{i{#}}", "#@skip(if:true)"];
    let m = if th { 4 } else { 3 };
    rep.explore("cycles-of-every-shape", 0, |c, r| {
        let k = 1 + c.pick(m);
        let back = c.pick(k + 1);
        let mut frs: Vec<String> = vec![];
        for i in 0..k {
            let to = if i + 1 < k { Some(i + 1) } else if back < k { Some(back) } else { None };
            let body = match to {
                Some(t) => c.pick_str(&links).replace('#', &format!("...F{t}")),
                None => "id".into(),
            };
            frs.push(format!("fragment F{i} on I{{{body}}}"));
        }
        if c.flip() {
            frs.reverse()
        }
        let o = c.pick_str(&["i{...F0}", "i{id}", "i{...on I{i{...F0}}}"]);
        compare(r, &cx, &format!("{{{o}}} {}", frs.join(" ")), &C15)
    });
    rep.explore("possible-types", 0, |c, r| {
        let objs = ["A", "B", "C", "D"];
        let subset = |c: &mut Ch| -> Vec<&str> { objs.iter().copied().filter(|_| c.flip()).collect() };
        let kx = c.pick(2);
        let xs = subset(c);
        let ky = c.pick(2);
        let ys = subset(c);
        if (kx == 1 && xs.is_empty()) || (ky == 1 && ys.is_empty()) {
            return r.skip();
        }
        let decl = |n: &str, k: usize, s: &[&str]| if k == 0 { format!("interface {n}{{id:ID}} ") } else { format!("union {n}={} ", s.join("|")) };
        let mut sdl = format!("{}{}", decl("X", kx, &xs), decl("Y", ky, &ys));
        for o in objs {
            let mut im = vec![];
            if kx == 0 && xs.contains(&o) {
                im.push("X")
            }
            if ky == 0 && ys.contains(&o) {
                im.push("Y")
            }
            sdl.push_str(&format!("type {o}{}{{id:ID}} ", if im.is_empty() { String::new() } else { format!(" implements {}", im.join("&")) }));
        }
        let cx = ctx_for(&format!("{sdl} type Query{{x:X y:Y a:A b:B c:C d:D}}"));
        let f = c.pick_str(&["x", "y", "a", "b", "c", "d"]);
        let t = c.pick_str(&["X", "Y", "A", "B", "C", "D"]);
        let x = match c.pick(3) {
            0 => format!("{{{f}{{...on {t}{{__typename}}}}}}"),
            1 => format!("{{{f}{{...F}}}} fragment F on {t}{{__typename}}"),
            _ => format!("{{{f}{{...{{...on {t}{{...G}}}}}}}} fragment G on {t}{{...on {t}{{__typename}}}}"),
        };
        compare(r, &cx, &x, &C15)
    });
}

pub fn c16(rep: &mut Report) {
    let th = rep.thorough();
    let types = field_types(&["Int", "String", "E", "E2", "C", "D", "I", "U"], if th { 3 } else { 2 });
    let fs = fields_sdl(&types, "");
    let cx = ctx(&format!("enum E{{X}} enum E2{{X}} interface I{{x:Int}} union U=C|D type C implements I{{x:Int y:Int}} type D implements I{{x:Int y:String}} union AB=A|B type A{{{fs} o:A}} type B{{{fs} o:B}} type Query{{u:AB i:I a:A}}"));
    rep.explore("every-pair-of-types", 0, |c, r| {
        let i = c.pick(types.len());
        let j = c.pick(types.len());
        if j < i {
            return r.skip();
        }
        let sub = |t: &str| if leaf(&t.replace("E2", "E")) { "" } else { "{__typename}" };
        let (a, b) = (format!("z:f{i}{}", sub(&types[i])), format!("z:f{j}{}", sub(&types[j])));
        let t = match c.pick(4) {
            0 => format!("{{u{{...on A{{{a}}} ...on B{{{b}}}}}}}"),
            1 => format!("{{u{{...F ...G}}}} fragment F on A{{{a}}} fragment G on B{{{b}}}"),
            2 => format!("{{u{{...on B{{o{{{b}}}}} ...on A{{o{{{a}}}}}}}}}"),
            _ => format!("{{a{{{a}}} a{{{b}}}}}"),
        };
        compare(r, &cx, &t, &C16)
    });
    // the fields of one response name reached in every combination of ways, with or without one difference
    let cx = ctx(MERGES);
    let k = if th { 4 } else { 3 };
    rep.explore("ways-to-reach", 0, |c, r| {
        let ways = ["#", "...on I{#}", "...on A{#}", "...on B{#}", "...on J{#}", "...{#}", "...W"];
        let fields = ["f", "f:f", "f:s", "f:g", "f:g(x:1)", "g", "g(x:1)", "x:i{f}", "x:i{f:s}", "x:n{f}", "i{f}", "i{x:f}", "i{x:s}"];
        let mut parts = vec![];
        let mut frs = String::new();
        for i in 0..k {
            let w = c.pick_str(&ways);
            // only the first two differ in what they select in full; later ones repeat one of the first
            let f = if i < 2 { c.pick_str(&fields) } else { c.pick_str(&["f", "f:s", "i{f}"]) };
            if w == "...W" {
                let on = c.pick_str(&["I", "A", "B"]);
                frs.push_str(&format!(" fragment W{i} on {on}{{{f}}}"));
                parts.push(format!("...W{i}"));
            } else {
                parts.push(w.replace('#', f));
            }
        }
        compare(r, &cx, &format!("{{i{{{}}}}}{frs}", parts.join(" ")), &C16)
    });
}

pub fn c17(rep: &mut Report) {
    let locs = ["QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION"];
    let places = ["query@d{a}", "{a} query B@d{a}", "mutation@d{a}", "subscription@d{a}", "{a@d}", "{q{a@d}}", "{...F} fragment F on Query@d{a}", "{...F@d} fragment F on Query{a}", "{...on Query@d{a}}", "{...@d{a}}", "query($v:Int@d){a(x:$v)}", "mutation($w:Int $v:Int=1@d){a(x:$v) b:a(x:$w)}"];
    rep.explore("location-sets", 0, |c, r| {
        let set: Vec<&str> = locs.iter().copied().filter(|_| c.flip()).collect();
        let rp = c.pick_str(&["", " repeatable"]);
        let set = if set.is_empty() { vec!["SCHEMA"] } else { set };
        let cx = ctx_for(&format!("directive@d{rp} on {} type Query{{a(x:Int):Int q:Query}} type Mutation{{a(x:Int):Int}} type Subscription{{a:Int}}", set.join("|")));
        let p = c.pick_str(&places);
        let n = c.pick_str(&["@d", "@d@d", "@d@d@d", "@d@skip(if:true)@d", "@e"]);
        compare(r, &cx, &p.replace("@d", n), &C17)
    });
}

pub fn c18(rep: &mut Report) {
    let th = rep.thorough();
    let mut ops = vec!["{a}".to_string()];
    for k in ["query", "mutation", "subscription"] {
        for n in ["", " A", " B", " a"] {
            ops.push(format!("{k}{n}{{a}}"));
        }
    }
    let max = if th { 5 } else { 4 };
    rep.explore("operation-names", 0, |c, r| {
        let cx = ctx_for(c.pick_str(&["type Query{a:Int}", "type Query{a:Int} type Mutation{a:Int}", "type Query{a:Int} type Subscription{a:Int}", "type Query{a:Int} type Mutation{a:Int} type Subscription{a:Int}", "schema{query:Mutation} type Mutation{a:Int} type Subscription{a:Int}"]));
        let mut t = vec![];
        for i in 0..max {
            let k = c.pick(ops.len() + (i > 0) as usize);
            if k == ops.len() {
                break;
            }
            t.push(ops[k].as_str());
        }
        compare(r, &cx, &t.join(" "), &C18)
    });
    // the root fields of a subscription, through every chain of fragments
    let cx = ctx("type Query{x:Int} type Subscription{a(x:Int):Int b:Int s:Subscription}");
    let links = ["#", "a #", "# a", "...on Subscription{#}", "...{#}", "# #", "s{#}", "...{...on Subscription{#} a}", "#@skip(if:true)"];
    rep.explore("subscription-chains", 0, |c, r| {
        let (_, op, frs) = chain(c, max - 1, &links, &["a", "b", "x:a", "a x:a", "a a", "__typename", "a@include(if:false)", "a(x:1)", "b:a"], "Subscription");
        let h = c.pick_str(&["", " S"]);
        compare(r, &cx, &format!("subscription{h}{{{op}}}{frs}"), &C18)
    });
}
