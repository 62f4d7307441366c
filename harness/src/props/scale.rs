//! Many of everything, with one thing out of line at every place in turn: nothing may depend on how many there are, on
//! which of them it is, or on what they are called.
use super::analysis::{analyse, Part};
use super::validation::{C10, C13, C17};
use super::vctx::{compare, ctx, Ctx};
use crate::engine::{Ch, Report, Run};

pub const MAX: usize = 140;
/// Names of all shapes: keywords, one letter, apart only in case, one the beginning of another, long.
pub fn nm(i: usize) -> String {
    let some = ["a", "A", "aa", "a1", "_a", "a_", "type", "on", "null", "true", "query", "fragment", "input", "Aa", "_", "subscription", "extend", "aA", "a_1", "schema", "repeatable", "implements", "Int", "x0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789", "false", "mutation"];
    match some.get(i) {
        Some(s) => s.to_string(),
        None => format!("n{i}"),
    }
}
/// names for fragments
fn fr(i: usize) -> String {
    if nm(i) == "on" { "On".into() } else { nm(i) }
}
fn each(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect::<Vec<_>>().join(" ")
}
fn sdl() -> String {
    let dep = |i: usize| if i % 7 == 3 { format!("@deprecated(reason:\"r{i}\")") } else { String::new() };
    let cost = |i: usize| if i % 4 == 1 { format!("@cost(weight:\"{i}\")") } else { String::new() };
    format!(
        "directive@cost(weight:String kind:String)on FIELD_DEFINITION directive@r(x:Int!)repeatable on FIELD|QUERY|INLINE_FRAGMENT|FRAGMENT_SPREAD|FRAGMENT_DEFINITION|VARIABLE_DEFINITION directive@m on MUTATION {}
enum E{{{}}} input In{{{} o:In l:[In!] e:E is:[Int!]}} interface I{{o:Q a(x:Int):Int}} type Other{{z:Int}} union U=Q|Other
schema{{query:Q subscription:S}} type S{{a:Int b:Int s:S}} type Q implements I{{{} o:Q os:[Q!] i:I u:U other:Other f({} in:In is:[Int!] e:E es:[E!]):Int req({}):Int}}",
        each(MAX, |i| format!("directive@{} on FIELD|QUERY|INLINE_FRAGMENT|FRAGMENT_SPREAD|FRAGMENT_DEFINITION|VARIABLE_DEFINITION", nm(i))),
        each(MAX, |i| format!("E_{}{}", nm(i), dep(i))),
        each(MAX, |i| format!("{}:Int{}", nm(i), dep(i))),
        each(MAX, |i| format!("{}(x:Int):Int{}{}", nm(i), dep(i), cost(i))),
        each(MAX, |i| format!("{}:Int{}", nm(i), dep(i))),
        each(MAX, |i| format!("{}:Int!", nm(i))),
    )
}

/// Selections, one of which is `m`, in an operation and as many fragments as it takes.
fn spread_out(kind: usize, n: usize, k: usize, m: &str, vars: &str) -> String {
    let s = |i: usize| if i == k { m.to_string() } else { nm(i) };
    let also = |i: usize| if i == k { format!("{} {m}", nm(i)) } else { nm(i) };
    let head = if vars.is_empty() { String::new() } else { format!("query({vars})") };
    match kind {
        0 => format!("{head}{{{}}}", each(n, s)),
        1 => format!("{head}{}", (0..n).rev().fold(String::new(), |t, i| format!("{{{}{}}}", also(i), if t.is_empty() { t } else { format!(" o{t}") }))),
        2 => format!("{head}{{...{}}}{}", fr(0), each(n, |i| format!("fragment {} on Q{{{}{}}}", fr(i), also(i), if i + 1 < n { format!(" ...{}", fr(i + 1)) } else { String::new() }))),
        3 => format!("{head}{}", (0..n).rev().fold(String::new(), |t, i| format!("{{{}{}}}", also(i), if t.is_empty() { t } else { format!(" ...{}{t}", ["on Q", "", "@r(x:1)", "on I", "on U"][i % 3]) }))),
        4 => format!("{head}{{{}}}{}", each(n, |i| format!("...{}", fr(i))), each(n, |i| format!("fragment {} on Q{{{}}}", fr(i), s(i)))),
        5 => each(n, |i| format!("query {}{}{{{}}}", nm(i), if i == k && !vars.is_empty() { format!("({vars})") } else { String::new() }, s(i))),
        6 => format!("{head}{{{}}}", each(n, |i| if i == k { m.to_string() } else { format!("{}:a", nm(i)) })),
        7 => format!("{head}{{{}}}", each(n, |i| format!("o{{{}}}", s(i)))),
        _ => format!("{head}{{{}}}", each(n, |i| format!("{}:o{{{}}}", nm(i), s(i)))),
    }
}
const PLACES: usize = 9;

fn sizes(th: bool) -> &'static [usize] {
    if th { &[2, 5, 9, 17, 33, 65, 129] } else { &[2, 9, 33, 65] }
}
fn place(c: &mut Ch, th: bool) -> (usize, usize) {
    let n = *c.pick_of(sizes(th));
    // beyond 33, not quite every place
    let k = if n <= 33 { c.pick(n) } else { [0, 1, 7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 65, 99, 126, 127, 128][c.pick(if n == 65 { 12 } else { 17 })] };
    (n, k)
}

const MISTAKES: [&str; 29] = [
    "nope", "o", "a{a}", "o{nope}", "x:a x:A", "a(zz:1)", "a(x:1 x:1)", "a(x:\"s\")", "a(x:$u)", "a(x:$v)", "a@nope", "a@m", "a@r", "a@r(x:1)@r(x:2)", "a@type@type", "req", "f(e:E_nope)", "f(is:[1 null])", "f(in:{zz:1 a:1 a:2})", "...Nope", "...on E{a}", "...on Other{z}", "...on Nope{a}", "u{...on Other{z}}",
    "f(is:$v)", "z:a z:a(x:1)", "o{x:a}o{x:A}", "x:o{a}x:i{a}", "f(in:$u is:$v)@r(x:$w)",
];

/// a document of many parts, one of them odd; and whether something is named twice
fn mistaken(c: &mut Ch, th: bool) -> (String, bool) {
    let kind = c.pick(PLACES + 9);
    let (n, k) = place(c, th);
    let mut dup = false;
    let text = match kind {
        _ if kind < PLACES => {
            let m = c.pick_str(&MISTAKES);
            spread_out(kind, n, k, m, if m.contains("$v") { "$v:String" } else { "" })
        }
        9 => {
            let m = c.pick_str(&["zz:1", "a:2", "is:\"s\"", "e:$u", "in:{nope:1}", "", "is:[null]"]);
            format!("{{f({})}}", each(n, |i| if i == k { m.to_string() } else { format!("{}:1", nm(i)) }))
        }
        10 => format!("{{req({})}}", each(MAX, |i| if i == k { String::new() } else { format!("{}:{}", nm(i), if i == k + n { "null" } else { "1" }) })),
        11 => {
            let m = c.pick(9);
            dup = m == 2;
            let def = each(n, |i| {
                let v = nm(i);
                match m {
                    _ if i != k => format!("${v}:Int"),
                    0 => String::new(),
                    1 | 2 => format!("${v}:Int ${}:Int", if m == 1 { "zz" } else { "a" }),
                    3 => format!("${v}:String"),
                    4 => format!("${v}:Zed"),
                    5 => format!("${v}:[Int]"),
                    6 => format!("${v}:Int=\"s\""),
                    7 => format!("${v}:Int@nope"),
                    _ => format!("${v}:Q"),
                }
            });
            format!("query({def}){{f({})}}", each(n, |i| format!("{}:${}", nm(i), nm(i))))
        }
        12 => {
            let m = c.pick_str(&["@nope", "@a", "@m", "@r(x:\"s\")", "@r", "@r(x:1)@r(x:1)", "@include(if:$u)", "@type(a:1)"]);
            let forms: &[&str] = &["{a#}", "query#{a}", "{...#{a}}", "{...F#}fragment F on Q{a}", "{...F}fragment F on Q#{a}", "query($v:Int#){a(x:$v)}"];
            let d = (0..n).map(|i| if i == k { m.to_string() } else { format!("@{}", nm(i)) }).collect::<String>();
            c.pick_str(&forms[..if m.contains('$') { 5 } else { 6 }]).replace('#', &d)
        }
        13 => {
            let m = c.pick_str(&["\"s\"", "null", "[1]", "$u", "{}"]);
            c.pick_str(if m == "$u" { &["{f(is:[#])}"] } else { &["{f(is:[#])}", "query($v:[Int!]=[#]){f(is:$v)}", "{f(in:{o:{is:[#]}})}"] }).replace('#', &each(n, |i| if i == k { m.into() } else { "1".into() }))
        }
        14 => {
            let m = c.pick_str(&["zz:1", "a:2", "e:E_nope", "is:$u", "l:[null]", "o:{A:\"s\"}"]);
            dup = m == "a:2" && k > 0;
            c.pick_str(if m == "is:$u" { &["{f(in:{#})}"] } else { &["{f(in:{#})}", "query($v:In={#}){f(in:$v)}", "{f(in:{l:[{#}]})}"] }).replace('#', &each(n, |i| if i == k { m.into() } else { format!("{}:1", nm(i)) }))
        }
        15 => {
            let m = c.pick_str(&["zz:1", "a:\"s\"", "e:E_nope", "a:$u", "l:[null]"]);
            let v = (0..n).rev().fold("{}".to_string(), |t, i| {
                let own = if i == k { m.to_string() } else { format!("{}:1", nm(i)) };
                if i % 3 == 2 { format!("{{{own} l:[{{}}{t}]}}").replace("l:[null] l:", "n40:null l:") } else { format!("{{{own} o:{t}}}") }
            });
            format!("{{f(in:{v})}}")
        }
        16 => {
            let m = c.pick_str(&["b", "x:a", "s{a}", "a", "a@skip(if:true)", "...on S{b}"]);
            match (0..n).map(|i| if i == k { m } else { "a" }).collect::<Vec<_>>() {
                v if v.len() == 2 => format!("subscription{{{}}}", v.join(" ")),
                v => format!("subscription{{...{}}}{}", fr(0), each(n, |i| format!("fragment {} on S{{{}{}}}", fr(i), v[i], if i + 1 < n { format!(" ...{}", fr(i + 1)) } else { String::new() }))),
            }
        }
        _ => {
            let m = c.pick(5);
            let t = each(n, |i| {
                let named = |s: &str| format!("query {s}{{a}}");
                match m {
                    _ if i != k => named(&nm(i)),
                    0 => named("a"),
                    1 => "{a}".into(),
                    2 => format!("mutation {}{{a}}", nm(i)),
                    3 => format!("subscription {}{{a b}}", nm(i)),
                    _ => format!("fragment {} on Q{{a}}", fr(i)),
                }
            });
            t
        }
    };
    (text, dup)
}
pub fn validation(rep: &mut Report, rules: &[&str]) {
    let cx = ctx(&sdl());
    let th = rep.thorough();
    rep.explore("many", 0, |c, r| {
        let (text, dup) = mistaken(c, th);
        if dup && !rules.iter().all(|r| C13[..1].contains(r) || C17.contains(r) || C10.contains(r) || r.starts_with("NonUniqueFieldNames")) {
            return r.skip();
        }
        compare(r, &cx, &text, rules)
    });
}


pub(super) fn visits(rep: &mut Report, document: impl Fn(&mut Run, &Ctx, &str) + Sync) {
    let cx = ctx(&sdl());
    let th = rep.thorough();
    rep.explore("large-documents", 0, |c, r| {
        let (text, _) = mistaken(c, th);
        document(r, &cx, &text)
    });
}

/// The same for the analyses of an operation.
pub(super) fn analyses(rep: &mut Report, part: Part) {
    let cx = ctx(&sdl());
    let th = rep.thorough();
    rep.explore("many", 0, |c, r| {
        let (n, k) = place(c, th);
        if part == Part::Values {
            let m = c.pick(7);
            let def = each(n, |i| format!("${}:Int{}", nm(i), match m { 4 if i == k => "!", 5 if i == k => "!=3", _ if i % 3 == 2 => "=2", _ => "" }));
            let uses = each(n, |i| format!("{}:${}", nm(i), nm(i)));
            let two = c.flip();
            let text = if two { format!("query Q({def}){{f({uses})}} query R{{a}}") } else { format!("query({def}){{f({uses})}}") };
            let name = two.then_some("Q");
            let json = format!(
                "{{{}}}",
                (0..n)
                    .filter_map(|i| match m {
                        _ if i != k => Some(format!("\"{}\":{i}", nm(i))),
                        0 => Some(format!("\"{}\":\"s\"", nm(i))),
                        1 => Some(format!("\"{}\":null", nm(i))),
                        2 => Some(format!("\"{}\":1,\"zz{i}\":1", nm(i))),
                        3 => Some(format!("\"{}\":[1]", nm(i))),
                        _ => None,
                    })
                    .collect::<Vec<_>>()
                    .join(",")
            );
            return analyse(r, &cx, &text, name, &json, part);
        }
        let kind = c.pick(PLACES + 4);
        let list = format!("[{}]", vec!["1"; n].join(","));
        let text = match kind {
            _ if kind < PLACES => {
                let m = c.pick_str(&["o{o{a}}", "f(is:[1 2 3])", "f(e:E_a1)", "f(a1:1)", "f(in:{a1:2 is:[1 2]e:E_query})", "n31", "a@skip(if:true)", "x:f(is:$l)", "...on Q{o{A}}", "i{a ...on Q{A}}", "f(in:$in)", "o@include(if:false){n31 f(is:[1 2 3])}"]);
                let vars = if m.contains("$l") { "$l:[Int!]" } else if m.contains("$in") { "$in:In" } else { "" };
                spread_out(kind, n, k, m, vars)
            }
            9 => format!("{{f({})}}", each(n, |i| if i == k { "is:[1 2 3] e:E_a1".into() } else { format!("{}:1", nm(i)) })),
            10 => format!("{{f(is:{list} es:[{}])}}", each(k + 1, |i| format!("E_{}", nm(i)))),
            11 => format!("{{f(in:{{{}}})}}", each(n, |i| if i == k { "is:[1 2 3] e:E_a1 o:{a1:1}".into() } else { format!("{}:1", nm(i)) })),
            _ => format!("{{f(in:{})}}", (0..n).rev().fold("{is:[1 2] a1:1}".to_string(), |t, i| if i == k { format!("{{l:[{{e:E_a1}}{t}]}}") } else { format!("{{{}:1 o:{t}}}", nm(i)) })),
        };
        let json = if text.contains("$l:") { format!("{{\"l\":{list}}}") } else if text.contains("$in:") { format!("{{\"in\":{{\"a1\":1,\"is\":{list},\"l\":[{{\"e\":\"E_a1\"}}]}}}}") } else { "{}".into() };
        let name = if kind == 5 { Some(nm(k)) } else { None };
        analyse(r, &cx, &text, name.as_deref(), &json, part)
    });
}

/// an executable document with many parts
pub fn document(c: &mut Ch, th: bool) -> String {
    let kind = c.pick(PLACES);
    let (n, k) = place(c, th);
    let m = c.pick_str(&["a", "x:a", "a@d(x:[1 {y:\"z\"}])@e", "o{a b{c}}", "f(x:1.5 y:{z:null} w:$v)", "...F@d", "...on Q@d{a}", "...{a}", "f(s:\"\"\"\n  b\n   c\n\"\"\" e:E)", "...@d(x:-1){a}"]);
    spread_out(kind, n, k, m, if kind != 5 && m.contains("$v") { "$v:[Int!]!=[1]@d" } else { "" })
}

const LISTS: usize = 19;
fn en(i: usize) -> String {
    if ["null", "true", "false"].contains(&nm(i).as_str()) { nm(i).to_uppercase() } else { nm(i) }
}
fn item(kind: usize, i: usize, n: usize) -> String {
    let v = nm(i);
    match kind {
        0 | 1 | 2 | 3 | 4 => format!("{v}:Int"),
        5 => en(i),
        6 => format!("|T{v}"),
        7 => format!("&I{v}"),
        8 => format!("@{v}"),
        9 => match i % 6 {
            0 => format!("type T{v}{{a:Int}}"),
            1 => format!("scalar T{v}"),
            2 => format!("enum T{v}{{A}}"),
            3 => format!("input T{v}{{a:Int}}"),
            4 => format!("union T{v}=Query"),
            _ => format!("interface T{v}{{a:Int}}"),
        },
        10 => format!("directive@{v} on FIELD"),
        11 => i.to_string(),
        12 => format!("{v}:1"),
        13 => ["a", " ", "b", "\\\\", "c", "\\n", "d"][i % 7].into(),
        14 => format!("{}l{i}", " ".repeat(2 + i % 3)),
        15 => String::new(),
        16 => format!("input R{v}{{r:R{}!}}", nm((i + 1) % n)),
        17 => format!("{v}:1"),
        _ => format!("type T{v} implements I{{a:Int}}"),
    }
}
/// what may stand in its place
fn odd(kind: usize, k: usize, n: usize) -> Vec<String> {
    let v = nm(k);
    let v = v.as_str();
    let all: &[&str] = match kind {
        0 | 1 => &["", "zz:Int", "V:String", "V:Int!", "V:[Int]", "\"d\"V:Int", "V(q:Int=1):Int", "V:Int@deprecated", "V:Int@d(x:1)", "a:Int", "V:Zed"],
        2 | 3 | 4 => &["", "zz:Int", "zz:Int!", "V:String", "V:Int!", "V:[Int!]", "V:Int=3", "\"d\"V:Int", "V:Int@d(x:2)", "V:Int@deprecated", "a:Int", "V:Zed"],
        5 => &["", "ZZ", "\"d\"V", "V@deprecated(reason:\"r\")", "V@d", "a"],
        6 => &["", "|B", "|Zed", "|Ta"],
        7 => &["", "&Other", "&Zed", "&Ia"],
        8 => &["", "@d(x:1)", "@d(x:1)@d", "@zed", "@a", "@V@V"],
        9 => &["", "enum TV{B}", "type TV{b:Int}", "\"d\"scalar TV", "scalar TV@specifiedBy(url:\"u\")", "type Ta{z:Int}", "input TV{a:Int!}", "union TV=Query|B"],
        10 => &["", "directive@V on QUERY", "directive@V repeatable on FIELD", "directive@a on ENUM", "directive@V(x:Int)on FIELD", "directive@V on FIELD|OBJECT", "\"d\"directive@V on FIELD"],
        11 => &["", "0", "-7", "null", "1.5", "\"s\"", "[1]"],
        12 => &["", "V:2", "zz:1", "V:[1]", "V:null"],
        13 => &["", "é", "\\t", "\\u0041", "\\\"", "😀"],
        14 => &["", " x", "\t\ty", "z\\\"\"\"", "  é ", "   "],
        15 => &["!"],
        16 => &["input RV{r:RN}", "input RV{r:[RN!]!}", "input RV{r:RN!=null}", "input RV{r:RN! s:RV}", "input RV{s:RV! r:RN!}", "input RV{r:Ra!}", "input RV{a:Int}"],
        17 => &["", "V:2", "V:\"s\"", "zz:1", "V:null"],
        _ => &["", "type TV{a:Int}", "type TV implements I&Other{a:Int}", "type TV implements Other{a:Int}", "interface TV implements I{a:Int}"],
    };
    let own = if kind == 5 { en(k) } else { v.to_string() };
    all.iter().map(|x| x.replace('V', &own).replace("RN", &format!("R{}", nm((k + 1) % n)))).collect()
}
fn listing(kind: usize, items: &[String]) -> String {
    let n = items.len();
    let list = items.join(" ");
    let own = match kind {
        0 => format!("type Query{{{list}}}"),
        1 => format!("type Query{{i:I}}interface I{{{list}}}"),
        2 => format!("type Query{{f({list}):Int}}"),
        3 => format!("type Query{{f(in:In):Int}}input In{{{list}}}"),
        4 => format!("type Query{{a:Int}}directive@e({list})on FIELD"),
        5 => format!("type Query{{e:E}}enum E{{{list}}}"),
        6 => format!("type Query{{u:U}}union U={list} {}", each(MAX, |i| format!("type T{}{{a:Int}}", nm(i)))),
        7 => format!("type Query implements{list}{{a:Int}}{}", each(MAX, |i| format!("interface I{}{{a:Int}}", nm(i)))),
        8 => format!("type Query{list}{{a:Int}}{}", each(MAX, |i| format!("directive@{}{}on OBJECT", nm(i), if i % 3 == 0 { " repeatable " } else { " " }))),
        9 | 10 => format!("type Query{{a:Int}}{list}"),
        11 => format!("type Query{{f(x:[Int]=[{list}]):Int}}"),
        12 => format!("type Query{{f(x:In={{{list}}}):Int}}input In{{a:Int}}"),
        13 => format!("type Query{{f(x:String=\"{}\"):Int}}", items.concat()),
        14 => format!("\"\"\"\n{}\n\"\"\"type Query{{a:Int}}", items.join("\n")),
        15 => format!("type Query{{f(x:{}Int{}]):{}Int{}]}}", "[".repeat(n), items.join("]"), "[".repeat(n), items.join("]")),
        16 => format!("type Query{{a:Int}}{list}"),
        17 => format!("type Query@big({list}){{a:Int}}directive@big({})on OBJECT", each(MAX, |i| format!("{}:Int", nm(i)))),
        _ => format!("type Query{{i:I}}interface I{{a:Int}}{list}"),
    };
    format!("{own} type B{{b:Int}} interface Other{{a:Int}} directive@d(x:Int)repeatable on SCALAR|OBJECT|FIELD_DEFINITION|ARGUMENT_DEFINITION|ENUM_VALUE|INPUT_FIELD_DEFINITION")
}
/// A schema with many of something, and the one with one of them replaced.
pub fn schemas(c: &mut Ch, th: bool) -> (String, String) {
    let kind = c.pick(LISTS);
    let (n, k) = place(c, th);
    let mut items: Vec<String> = (0..n).map(|i| item(kind, i, n)).collect();
    let old = listing(kind, &items);
    let os = odd(kind, k, n);
    items[k] = os[c.pick(os.len())].clone();
    if n == 2 && c.flip() {
        // the only one
        items = vec![items[k].clone()];
    }
    (old, listing(kind, &items))
}
/// for hiding one of many
pub fn lists() -> Vec<(usize, usize, String)> {
    let mut v = vec![];
    for kind in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 18] {
        for n in [2, 9, 33] {
            v.push((kind, n, listing(kind, &(0..n).map(|i| item(kind, i, n)).collect::<Vec<_>>())))
        }
    }
    v
}

/// lengths around those at which sizes of things change
const LENGTHS: [usize; 32] = [1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 18, 19, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 1024, 4097, 65535, 65537];
fn length(c: &mut Ch, max: usize) -> usize {
    let l: Vec<usize> = LENGTHS.iter().copied().filter(|n| *n <= max).collect();
    *c.pick_of(&l)
}
fn at(c: &mut Ch, n: usize) -> usize {
    [0, n / 2, n - 1, n][c.pick(4)]
}
/// A literal that is long, with one thing in it out of line.
pub fn literal(c: &mut Ch) -> String {
    match c.pick(9) {
        // text
        0 => {
            let n = length(c, 70000);
            let k = at(c, n);
            let unit = c.pick_str(&["a", "é", "😀", "\\n", "\\u0041", "\\\"", " ", "\\uD83D\\uDD25"]);
            let odd = c.pick_str(&["", "\\t", "é", "😀", "\\uD83D\\uDD25", "\\uD83D", "\\uDD25", "\\\"", "\n", "\"", "\\", "\\q", "\\u00e", "\t", "#", "\\\\"]);
            format!("\"{}{odd}{}\"", unit.repeat(k), unit.repeat(n - k))
        }
        // lines of a block string, one of them out of line
        1 => {
            let n = length(c, 300);
            let k = at(c, n);
            let nl = c.pick_str(&["\n", "\r\n", "\r"]);
            let unit = c.pick_str(&["  a", "   ", "\t\ta", "", "    \"a\"", " 😀"]);
            let odd = c.pick_str(&["", " b", "b", "\tb", " ", "  \\\"\"\"", "     b", "\u{a0}b", "  \"\""]);
            let lines: Vec<&str> = (0..=n).map(|i| if i == k { odd } else { unit }).collect();
            format!("\"\"\"{}{}\"\"\"", c.pick_str(&["", "\n", "c\n"]), lines.join(nl))
        }
        // indentation
        2 => {
            let n = length(c, 70000);
            let unit = c.pick_str(&[" ", "\t"]);
            let m = match c.pick(3) {
                0 => n - 1,
                1 => n,
                _ => n + 1,
            };
            format!("\"\"\"{}\n{}a\n{}b\n{}\"\"\"", c.pick_str(&["", "x", " x"]), unit.repeat(n), unit.repeat(m), c.pick_str(&["", "c", " "]))
        }
        // digits
        3 => {
            let n = length(c, 1100);
            let d = c.pick_str(&["1", "9", "0", "4"]).repeat(n);
            let sign = c.pick_str(&["", "-"]);
            match c.pick(9) {
                0 => format!("{sign}{d}"),
                1 => format!("{sign}{d}.0"),
                2 => format!("{sign}0.{d}"),
                3 => format!("{sign}1.{d}e{n}"),
                4 => format!("{sign}1e{d}"),
                5 => format!("{sign}{d}e-{n}"),
                6 => format!("{sign}0.{d}5e+{n}"),
                7 => format!("{sign}1e-{d}"),
                _ => format!("{sign}2.{d}3"),
            }
        }
        // names
        4 => {
            let n = length(c, 70000);
            format!("{}{}{}", c.pick_str(&["", "$", "true", "null", "_", "-"]), c.pick_str(&["a", "_", "Z", "0", "true"]).repeat(n), c.pick_str(&["", "é", "-", ".", "!", "b", "\"\""]))
        }
        // what is ignored
        5 => {
            let n = length(c, 70000);
            let unit = c.pick_str(&[" ", "\t", "\n", "\r", "\r\n", ",", "\u{feff}", "#\n", "#\r", "# a\r\n"]).repeat(n);
            let odd = c.pick_str(&["", "é", "\u{a0}", "#", "."]);
            if c.flip() { format!("{unit}{odd}1") } else { format!("1{odd}{unit}") }
        }
        // a comment
        6 => {
            let n = length(c, 70000);
            format!("#{}{}1", c.pick_str(&["a", "é", "\"", " ", "#", "\\"]).repeat(n), c.pick_str(&["\n", "\r", "\r\n", "\u{2028}", "\u{b}", ""]))
        }
        // values
        7 => {
            let n = length(c, 4100);
            let k = at(c, n);
            let unit = c.pick_str(&["1 ", "\"a\"", "[]", "{a:1}", "$v ", "E,", "\"\"\"a\"\"\"", "-1", "1.5 "]);
            let odd = c.pick_str(&["", "\"b\"", "-", "$", "\"", "1.", "null", "{a:}", "]", "00", "\"\"\"\n b\n  c\"\"\""]);
            format!("[{}{odd}{}]", unit.repeat(k), unit.repeat(n - k))
        }
        // fields
        _ => {
            let n = length(c, 4100);
            let k = at(c, n);
            format!("{{{}{}{}}}", each(k, |i| format!("a{i}:{i}")), c.pick_str(&[" ", " a1:2 ", " x:[-0.0] ", " x: ", " 1:1 ", " x:{}", " true:false "]), each(n - k, |i| format!("b{i}:\"{i}\"")))
        }
    }
}
/// a beginning that goes on for long
pub fn before(c: &mut Ch, units: &[&str], th: bool) -> String {
    let n = length(c, if th { 70000 } else { 1100 });
    c.pick_str(units).repeat(n)
}
