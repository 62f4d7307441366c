//! C02, C03: grammars; C06, C07: print/parse round trips; C29: compatibility mode.
use crate::conv;
use crate::engine::{Ch, Report, Run};
use crate::gen;
use crate::r::ast::{self, *};
use crate::r::lex::Mode;
use crate::r::parse;
use bluejay_parser::ast::definition::{DefinitionDocument, SchemaDefinition};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::{Parse, ParseOptions};
use bluejay_printer::definition::SchemaDefinitionPrinter;
use bluejay_printer::executable::ExecutableDocumentPrinter;

pub const EXEC_TOKENS: [&str; 22] = [
    "{", "}", "a", "(", ")", ":", "$v", "...", "on", "@", "query", "fragment", "1", "\"s\"", "[", "]", "=", "!", "true", "subscription", "|", "&",
];
pub const SDL_TOKENS: [&str; 27] = [
    "{", "}", "A", "(", ")", ":", "=", "|", "&", "@", "!", "[", "]", "\"d\"", "type", "enum", "union", "input", "interface", "scalar", "schema", "directive", "on", "implements", "query", "FIELD", "repeatable",
];

fn toks(c: &mut Ch, alphabet: &[&str], max: usize) -> String {
    let mut out = String::new();
    for _ in 0..max {
        let i = c.pick(alphabet.len() + 1);
        if i == 0 {
            break;
        }
        out.push_str(alphabet[i - 1]);
        out.push(' ');
    }
    out
}

/// `text` with at most `bound` edits: a token deleted, replaced, preceded by another, or swapped with the next
fn edit(c: &mut Ch, tokens: &[&str], alphabet: &[&str]) -> String {
    let mut out: Vec<&str> = vec![];
    let a = alphabet.len();
    let mut i = 0;
    while i < tokens.len() {
        let k = c.dev(3 + 2 * a);
        match k {
            0 => out.push(tokens[i]),
            1 => {}
            2 => {
                if i + 1 < tokens.len() {
                    out.push(tokens[i + 1]);
                    out.push(tokens[i]);
                    i += 1;
                } else {
                    out.push(tokens[i])
                }
            }
            k if k < 3 + a => out.push(alphabet[k - 3]),
            k => {
                out.push(alphabet[k - 3 - a]);
                out.push(tokens[i]);
            }
        }
        i += 1;
    }
    if c.dev_flip() {
        // truncation of the last token as well
        out.pop();
    }
    out.join(" ")
}

fn exec_case(r: &mut Run, text: &str) {
    if !r.case(text) {
        return;
    }
    let want = parse::exec(text);
    let got = ExecutableDocument::parse(text).ok().map(|d| conv::exec(&d));
    r.outcome(match &want {
        None => "rejected".to_string(),
        Some(d) => format!("accepted {} operations {} fragments", d.ops.len(), d.frags.len()),
    });
    r.agree("executable document", &want, &got);
}

type Chunks = (&'static str, &'static [&'static str], &'static str);
/// repetitions of whole parts with stray tokens between them
pub const EXEC_CHUNKS: [Chunks; 8] = [
    ("", &["{a}", "query Q{a}", "fragment F on T{a}", "mutation M($v:Int){a}", "subscription{a}", "!", "a", "}", "{", "\"s\"", "\"open", "fragment", "1"], ""),
    ("{", &["a", "a{b}", "...F", "...on T{a}", "...{a}", "x:y", "a(b:1)", "a@d", "@d", "!", "(b:1)", "...", "x:"], "}"),
    ("{a{", &["b", "c{d}", "...F", "...@d{a}", "!", "{", "}"], "}e}"),
    ("{a(b:[", &["1", "$v", "[1]", "{k:1}", "null", "\"s\"", "!", ":", "E", "]", "-1.5", "..."], "])}"),
    ("{a(b:{", &["k:1", "k:[1]", "k:{}", "k", "!", "1", "$v", ":"], "})}"),
    ("{a(", &["b:1", "b:$v", "c:[{}]", "b:", "!", "d", "\"s\":1", "$v:1"], ")}"),
    ("query(", &["$v:Int", "$v:[Int!]!", "$w:Int=1", "$v:Int@d", "$w", "!", "Int", "=1", "$v:Int=$w"], "){a}"),
    ("query @d", &["@d", "@d(a:1)", "@", "d", "!", "@d()", "@d{a}"], "{a}"),
];
pub const SDL_CHUNKS: [Chunks; 12] = [
    ("", &["type Query{a:Int}", "scalar S", "enum E{A}", "union U=Query", "input I{a:Int}", "interface J{a:Int}", "directive@d on FIELD", "schema{query:Query}", "!", "a", "\"d\"", "}", "\"open", "type"], ""),
    ("type Query{", &["a:Int", "b(x:Int):Int", "\"d\"c:Int!", "e:[Int]@deprecated", "!", "a", ":", "\"d\"", "(x:Int)", "}"], "}"),
    ("type Query{a(", &["x:Int", "y:Int=1", "\"d\"z:[Int!]", "w:Int@deprecated", "!", "x", "=1", ":"], "):Int}"),
    ("type Query{a:Int}enum E{", &["A", "\"d\"B", "C@deprecated", "true", "!", "\"d\"", "1", ":"], "}"),
    ("type Query{a:Int}input I{", &["a:Int", "b:Int=1", "\"d\"c:[Int!]", "d:Int@deprecated", "e(x:Int):Int", "!", "=1"], "}"),
    ("type A{a:Int}type B{a:Int}type Query{a:Int}union U=", &["|", "A", "B", "Query", "!", "&", "="], ""),
    ("type Query implements ", &["&", "I", "J", "|", "!", "@deprecated", "implements"], "{a:Int}interface I{a:Int}interface J{a:Int}"),
    ("type Query{a:Int}directive@d on ", &["|", "FIELD", "QUERY", "OBJECT", "!", "&", "on", "x"], ""),
    ("type Query{a:Int}type B{a:Int}schema{", &["query:Query", "mutation:B", "subscription:B", "query:", ":", "Query", "!", "query"], "}"),
    ("type Query{a:Int@deprecated", &["@x", "@y(a:1)", "@", "y", "!", "(a:1)"], "}directive@x repeatable on FIELD_DEFINITION directive@y(a:Int)repeatable on FIELD_DEFINITION"),
    ("type Query{a(x:I=", &["{}", "{k:1}", "1", "$v", "null", "[", "]", "E", "!"], "):Int}input I{k:Int}"),
    ("type Query{a:", &["[", "]", "!", "Int", "Query", ":"], "}"),
];
fn chunks(c: &mut Ch, (pre, alphabet, post): Chunks, n: usize) -> String {
    let mut t = toks(c, alphabet, n);
    t.insert_str(0, pre);
    t + post
}

pub const EXEC_SEEDS: [&str; 4] = [
    "query Q ( $v : Int = 1 @ d , $w : [ In ! ] ! ) @ d ( x : $v ) { a b : c ( x : { k : [ 1 , $v ] } , y : \"s\" ) @ d { d } ... F @ d ... on T @ d { e } ... @ d { f } }",
    "fragment F on T @ d { a ... on on { b } } { x } mutation { y }",
    "subscription S { a ( b : [ [ ] , { } , { a : null } , true , E , -1 , 1.5 ] ) }",
    "{ a : b }",
];

pub fn c02(rep: &mut Report) {
    let th = rep.thorough();
    rep.explore("many", 0, |c, r| exec_case(r, &super::scale::document(c, th)));
    let th = rep.thorough();
    let d = |q: usize, t: usize| if th { t } else { q };
    let (n_top, n_ctx) = (d(4, 5), d(4, 5));
    rep.explore("token-sequences", 0, |c, r| {
        let t = toks(c, &EXEC_TOKENS, n_top);
        exec_case(r, t.trim_end())
    });
    rep.explore("token-sequences-in-context", 0, |c, r| {
        let (pre, post) = *c.pick_of(&[
            ("{ ", "} "),
            ("{ a ", "} "),
            ("{ a ( b : ", ") } "),
            ("{ a ( ", ") } "),
            ("query ", "{ a } "),
            ("query ( ", ") { a } "),
            ("query ( $v : ", ") { a } "),
            ("query ( $v : A = ", ") { a } "),
            ("{ ... ", "} "),
            ("fragment ", "{ a } "),
            ("{ a @ ", "} "),
            ("{ a } ", "{ b } "),
            ("{ a { b ", "} } "),
            ("", "{ a }"),
        ]);
        let t = toks(c, &EXEC_TOKENS, n_ctx);
        exec_case(r, &format!("{pre}{t}{post}"))
    });
    for (i, seed) in EXEC_SEEDS.iter().enumerate() {
        let tk: Vec<&str> = seed.split(' ').filter(|t| *t != ",").collect();
        let b = rep.b(if tk.len() > 40 { 1 } else { 2 }, 2);
        rep.explore(&format!("edits-of-seed-{i}"), b, |c, r| {
            let t = edit(c, &tk, &EXEC_TOKENS);
            exec_case(r, &t)
        });
    }
    let n = d(6, 7);
    for (i, k) in EXEC_CHUNKS.iter().enumerate() {
        rep.explore(&format!("repeated-parts-{i}"), 0, |c, r| {
            let t = chunks(c, *k, if i == 1 || i == 0 { n - 1 } else { n });
            exec_case(r, &t)
        });
    }
    rep.explore("documents", rep.b(2, 3), |c, r| {
        let doc = gen::exec_doc(c);
        let text = ast::exec(&doc);
        if !r.case(text.clone()) {
            return;
        }
        let want = parse::exec(&text);
        let got = ExecutableDocument::parse(&text).ok().map(|d| conv::exec(&d));
        r.outcome(format!("{} operations {} fragments", doc.ops.len(), doc.frags.len()));
        r.check(want.is_some(), || "harness: generated document rejected by the reference".into());
        // operations and fragments are kept in order within their kind
        r.agree("executable document", &Some(doc), &got);
    });
    rep.explore("nesting", 0, |c, r| {
        let depth = [1, 2, 5, 20, 60][c.pick(5)];
        let (a, b) = *c.pick_of(&[("[", "]"), ("{k:", "}"), ("[{k:[", "]}]"), ("[[1 ", "] 2]")]);
        let leaf = c.pick_str(&["1", "$v", "", "null", "\"\"", "]"]);
        exec_case(r, &format!("{{a(b:{}{leaf}{})}}", a.repeat(depth), b.repeat(depth)));
    });
    rep.explore("selection-nesting", 0, |c, r| {
        let depth = [1, 2, 5, 20, 60][c.pick(5)];
        let (a, b) = *c.pick_of(&[("a{", "}"), ("...{", "}"), ("... on T @d{", "}"), ("x:y(a:1){b ", "c}")]);
        let leaf = c.pick_str(&["z", "", "...F", "z}"]);
        exec_case(r, &format!("{{{}{leaf}{}}}", a.repeat(depth), b.repeat(depth)));
    });
}

/// (parses, view of the schema if it could be built)
fn sdl_impl(text: &str, problems: &mut Vec<String>) -> (bool, Option<conv::View>) {
    match DefinitionDocument::parse(text) {
        Err(_) => (false, None),
        Ok(doc) => {
            let doc: DefinitionDocument = doc;
            let v = SchemaDefinition::try_from(&doc).ok().map(|s: SchemaDefinition| conv::view(&s, problems));
            (true, v)
        }
    }
}

/// What the schema of a document must show, assuming that everything resolves.
pub fn expected_view(d: &SdlDoc) -> conv::View {
    let mut v = conv::View { types: d.types.clone(), dirdefs: d.dirdefs.clone(), ..Default::default() };
    v.types.sort_by(|a, b| a.name.cmp(&b.name));
    v.dirdefs.sort_by(|a, b| a.name.cmp(&b.name));
    match d.schemas.first() {
        Some(s) => {
            v.desc = s.desc.clone();
            v.dirs = s.dirs.clone();
            for (k, n) in &s.roots {
                match k {
                    OpKind::Query => v.query = n.clone(),
                    OpKind::Mutation => v.mutation = Some(n.clone()),
                    OpKind::Subscription => v.subscription = Some(n.clone()),
                }
            }
        }
        None => {
            let has = |n: &str| d.types.iter().any(|t| t.name == n).then(|| n.to_string());
            v.query = "Query".into();
            v.mutation = has("Mutation");
            v.subscription = has("Subscription");
        }
    }
    v
}

fn sdl_case(r: &mut Run, text: &str) {
    if !r.case(text) {
        return;
    }
    let want = parse::sdl(text);
    let mut pr = vec![];
    let (parsed, view) = sdl_impl(text, &mut pr);
    r.outcome(match (&want, &view) {
        (None, _) => "rejected".to_string(),
        (Some(_), None) => "grammatical, no schema".into(),
        (Some(d), Some(_)) => format!("schema with {} types {} directives", d.types.len(), d.dirdefs.len()),
    });
    r.agree("parses", &want.is_some(), &parsed);
    if let (Some(w), Some(v)) = (&want, &view) {
        r.agree("schema", &expected_view(w), v);
        r.check(pr.is_empty(), || pr.join("; "));
    }
}

pub const SDL_SEEDS: [&str; 5] = [
    "\"s\" schema @ d { query : Query } type Query @ d { a ( x : [ Int ! ] = [ 1 ] @ d ) : Int ! @ d } directive @ d repeatable on | SCHEMA | OBJECT",
    "type Query implements & I & J { \"f\" a ( \"x\" x : In = { k : 1 } ) : [ U ! ] ! } interface I { a : Int } interface J implements I { a : Int } union U = | Query | B type B { b : E } input In { \"k\" k : Int = 2 }",
    "\"e\" enum E @ d { \"A\" A @ d B } scalar S @ d type Query { e : E }",
    "schema { query : A mutation : B subscription : C } type A { a : Int } type B { a : Int } type C { a : Int }",
    "directive @ d ( a : Int = 1 , b : [ E ! ] ) on FIELD | QUERY | ENUM_VALUE enum E { type on query } type Query { query : ID }",
];

pub fn c03(rep: &mut Report) {
    let th = rep.thorough();
    rep.explore("many", 0, |c, r| sdl_case(r, &super::scale::schemas(c, th).1));
    let th = rep.thorough();
    let d = |q: usize, t: usize| if th { t } else { q };
    let (n_top, n_ctx) = (d(4, 5), d(3, 4));
    rep.explore("token-sequences", 0, |c, r| {
        let t = toks(c, &SDL_TOKENS, n_top);
        sdl_case(r, t.trim_end())
    });
    rep.explore("token-sequences-in-context", 0, |c, r| {
        let (pre, post) = *c.pick_of(&[
            ("type Query ", "{ a : Int } "),
            ("type Query { a ", ": Int } "),
            ("type Query { a : ", "} "),
            ("type Query { a : Int ", "} "),
            ("type Query { a ( ", ") : Int } "),
            ("type Query { a ( A : ", ") : Int } "),
            ("type Query { a : Int } enum E ", "} "),
            ("type Query { a : Int } enum E { A ", "} "),
            ("type Query { a : Int } union A ", ""),
            ("type Query { a : Int } union A = Query ", ""),
            ("type Query { a : Int } input A ", "} "),
            ("type Query { a : Int } input A { A : Int ", "} "),
            ("type Query { a : Int } interface A ", "} "),
            ("type Query { a : Int } scalar ", ""),
            ("type Query { a : Int } directive @ A ", ""),
            ("type Query { a : Int } directive @ A on FIELD ", ""),
            ("type A { a : Int } schema ", "} "),
            ("type A { a : Int } schema { query : A ", "} "),
            ("type Query { a : Int } ", "scalar B "),
        ]);
        let t = toks(c, &SDL_TOKENS, n_ctx);
        sdl_case(r, &format!("{pre}{t}{post}"))
    });
    for (i, seed) in SDL_SEEDS.iter().enumerate() {
        let tk: Vec<&str> = seed.split(' ').filter(|t| *t != ",").collect();
        let b = rep.b(1, 2);
        rep.explore(&format!("edits-of-seed-{i}"), b, |c, r| {
            let t = edit(c, &tk, &SDL_TOKENS);
            sdl_case(r, &t)
        });
    }
    let n = d(5, 6);
    for (i, k) in SDL_CHUNKS.iter().enumerate() {
        rep.explore(&format!("repeated-parts-{i}"), 0, |c, r| {
            let t = chunks(c, *k, n);
            sdl_case(r, &t)
        });
    }
    rep.explore("directive-locations", 0, |c, r| {
        let k = 1 + c.pick(3);
        let mut t = String::new();
        for i in 0..k {
            if i > 0 || c.flip() {
                t.push_str("| ");
            }
            t.push_str(c.pick_str(&parse::LOCATIONS));
            t.push(' ');
        }
        t.push_str(c.pick_str(&["", "X", "field", "|", "FIELDS"]));
        sdl_case(r, &format!("type Query {{ a : Int }} directive @d on {t}"))
    });
    rep.explore("schemas", rep.b(2, 3), |c, r| {
        let doc = gen::sdl_doc(c);
        let text = ast::sdl(&doc);
        if !r.case(text.clone()) {
            return;
        }
        let mut pr = vec![];
        let (parsed, view) = sdl_impl(&text, &mut pr);
        r.check(parse::sdl(&text).as_ref() == Some(&doc), || "harness: reference parser disagrees with the generator".into());
        r.check(parsed, || "rejected a grammatical document".into());
        r.outcome(format!("{} types {} schema definitions", doc.types.len(), doc.schemas.len()));
        r.agree("schema", &Some(expected_view(&doc)), &view);
        r.check(pr.is_empty(), || pr.join("; "));
    });
}

/// `{ a }` and `query { a }` are the same operation
fn plain(mut d: ast::ExecDoc) -> ast::ExecDoc {
    d.ops.iter_mut().for_each(|o| o.shorthand = false);
    d
}

fn roundtrip_exec(r: &mut Run, text: &str) {
    if !r.case(text) {
        return;
    }
    let Ok(doc) = ExecutableDocument::parse(text) else {
        r.skip();
        return;
    };
    let a = plain(conv::exec(&doc));
    let printed = ExecutableDocumentPrinter::to_string(&doc);
    match ExecutableDocument::parse(&printed) {
        Err(_) => r.fail(format!("printed text does not parse: {printed:?}")),
        Ok(doc2) => {
            let b = plain(conv::exec(&doc2));
            // Debug form: distinguishes -0.0 from 0.0
            r.agree("re-parsed document", &format!("{a:?}"), &format!("{b:?}"));
            r.agree("second printing", &printed, &ExecutableDocumentPrinter::to_string(&doc2));
        }
    }
    // independent reading of the printed text
    r.agree("printed text as read by the reference parser", &format!("{:?}", Some(&a)), &format!("{:?}", parse::exec(&printed).map(plain).as_ref()));
    r.outcome(format!("{} operations {} fragments", a.ops.len(), a.frags.len()));
}

fn str_pieces(c: &mut Ch, n: usize) -> String {
    let p = ["a", " ", "\n", "\"", "\\", "\t", "\r", "é", "\u{8}", "\u{c}", "/", "\u{1f}", "\u{7f}", "#", "{"];
    let mut s = String::new();
    for _ in 0..n {
        let i = c.pick(p.len() + 1);
        if i == 0 {
            break;
        }
        s.push_str(p[i - 1]);
    }
    s
}

pub fn floats(c: &mut Ch) -> String {
    let sign = c.pick_str(&["", "-"]);
    let int = c.pick_str(&["0", "1", "3", "10", "123456789", "9007199254740993", "2147483648", "99999999999999999999"]);
    let frac = c.pick_str(&["", ".0", ".1", ".5", ".00000000001", ".0000000000000001", ".99999999999", ".25", ".3333333333333333"]);
    let exp = c.pick_str(&["", "e0", "e1", "e5", "e-1", "e-5", "e-11", "e-20", "e-300", "e-320", "e15", "e16", "e17", "e20", "e21", "e100", "e280", "e308"]);
    format!("{sign}{int}{frac}{exp}")
}

pub fn c06(rep: &mut Report) {
    let th = rep.thorough();
    rep.explore("many", 0, |c, r| roundtrip_exec(r, &super::scale::document(c, th)));
    rep.explore("documents", rep.b(2, 3), |c, r| {
        let text = ast::exec(&gen::exec_doc(c));
        roundtrip_exec(r, &text)
    });
    let n = if rep.thorough() { 6 } else { 5 };
    rep.explore("string-values", 0, |c, r| {
        let s = str_pieces(c, n);
        roundtrip_exec(r, &format!("{{a(b:{})}}", ast::quote(&s)))
    });
    rep.explore("number-values", 0, |c, r| {
        let f = floats(c);
        roundtrip_exec(r, &format!("query($v:F={f}){{a(b:[{f}])}}"))
    });
    for (i, seed) in EXEC_SEEDS.iter().enumerate() {
        let tk: Vec<&str> = seed.split(' ').filter(|t| *t != ",").collect();
        let b = rep.b(if tk.len() > 40 { 1 } else { 2 }, 2);
        rep.explore(&format!("edits-of-seed-{i}"), b, |c, r| {
            let t = edit(c, &tk, &EXEC_TOKENS);
            roundtrip_exec(r, &t)
        });
    }
    let cn = rep.b(4, 6) as usize;
    for (i, k) in EXEC_CHUNKS.iter().enumerate() {
        rep.explore(&format!("repeated-parts-{i}"), 0, |c, r| {
            let t = chunks(c, *k, cn);
            roundtrip_exec(r, &t)
        });
    }
    let vn = if rep.thorough() { 4 } else { 3 };
    rep.explore("nested-values", 0, |c, r| {
        fn v(c: &mut Ch, fuel: usize) -> String {
            match c.pick(if fuel == 0 { 5 } else { 9 }) {
                0 => "1".into(),
                1 => "$v".into(),
                2 => "null".into(),
                3 => "E".into(),
                4 => "\"\"".into(),
                5 => "[]".into(),
                6 => "{}".into(),
                7 => {
                    let k = 1 + c.pick(2);
                    format!("[{}]", (0..k).map(|_| v(c, fuel - 1)).collect::<Vec<_>>().join(" "))
                }
                _ => {
                    let k = 1 + c.pick(2);
                    format!("{{{}}}", (0..k).map(|i| format!("{}:{}", ["k", "on"][i], v(c, fuel - 1))).collect::<Vec<_>>().join(" "))
                }
            }
        }
        let x = v(c, vn - 1);
        roundtrip_exec(r, &format!("{{a(b:{x})@d(c:{x})}}"))
    });
}

fn roundtrip_schema(r: &mut Run, text: &str) {
    if !r.case(text) {
        return;
    }
    let doc: DefinitionDocument = match DefinitionDocument::parse(text) {
        Ok(d) => d,
        Err(_) => {
            r.skip();
            return;
        }
    };
    let Ok(schema) = SchemaDefinition::try_from(&doc) else {
        r.skip();
        return;
    };
    let schema: SchemaDefinition = schema;
    let mut pr = vec![];
    let a = conv::view(&schema, &mut pr);
    let printed = SchemaDefinitionPrinter::to_string(&schema);
    r.outcome(format!("{} types, mutation {} subscription {}", a.types.len(), a.mutation.is_some(), a.subscription.is_some()));
    let doc2: DefinitionDocument = match DefinitionDocument::parse(&printed) {
        Ok(d) => d,
        Err(_) => {
            r.fail(format!("printed schema does not parse: {printed}"));
            return;
        }
    };
    match SchemaDefinition::try_from(&doc2) {
        Err(_) => r.fail(format!("printed schema cannot be built: {printed}")),
        Ok(s2) => {
            let s2: SchemaDefinition = s2;
            let b = conv::view(&s2, &mut pr);
            r.agree("re-parsed schema", &format!("{a:?}"), &format!("{b:?}"));
            r.agree("second printing", &printed, &SchemaDefinitionPrinter::to_string(&s2));
        }
    }
    match parse::sdl(&printed) {
        None => r.fail("printed schema is not grammatical"),
        Some(d) => r.agree("printed schema as read by the reference parser", &format!("{a:?}"), &format!("{:?}", expected_view(&d))),
    }
}

pub fn c07(rep: &mut Report) {
    let th = rep.thorough();
    rep.explore("many", 0, |c, r| {
        let t = super::scale::schemas(c, th).1;
        match parse::sdl(&t).map(|d| crate::r::schema::Schema::build(&d).is_ok()) {
            Some(true) => roundtrip_schema(r, &t),
            _ => r.skip(),
        }
    });
    rep.explore("schemas", rep.b(2, 3), |c, r| {
        let text = ast::sdl(&gen::sdl_doc(c));
        roundtrip_schema(r, &text)
    });
    let n = if rep.thorough() { 6 } else { 5 };
    rep.explore("descriptions", 0, |c, r| {
        let s = ast::quote(&str_pieces(c, n - 1));
        roundtrip_schema(r, &format!("{s} type Query {{ {s} a({s} x: Int): E }} {s} enum E {{ {s} A }}"))
    });
    let lines = rep.b(3, 4) as usize;
    rep.explore("block-descriptions", 0, |c, r| {
        let lines = 1 + c.pick(lines);
        let mut s = String::new();
        for i in 0..lines {
            if i > 0 {
                s.push('\n');
            }
            s.push_str(c.pick_str(&["", " ", "  ", "\t"]));
            s.push_str(c.pick_str(&["", "x", "\"", "\\", "\"\"\"", "y "]));
        }
        roundtrip_schema(r, &format!("type Query {{ {} a: Int }}", ast::quote(&s)))
    });
    let n = if rep.thorough() { 5 } else { 4 };
    rep.explore("default-strings", 0, |c, r| {
        let s = ast::quote(&str_pieces(c, n));
        roundtrip_schema(r, &format!("type Query {{ a(x: String = {s}): Int @deprecated(reason: {s}) }}"))
    });
    rep.explore("default-numbers", 0, |c, r| {
        let f = floats(c);
        roundtrip_schema(r, &format!("type Query {{ a(x: Float = {f}): Int }} input I {{ a: [Float] = [{f}] }}"))
    });
    rep.explore("roots", 0, |c, r| {
        // which root operation types exist, which types of those names exist, explicit or implicit
        let mut t = String::new();
        let names = ["Query", "Mutation", "Subscription", "Other"];
        for (i, n) in names.iter().enumerate() {
            let k = c.pick(6);
            let kinds = [
                "",
                "type N { a: Int }",
                "scalar N",
                "enum N { A }",
                "interface N { a: Int }",
                "input N { a: Int }",
            ];
            if i == 3 && k > 1 {
                return r.skip();
            }
            t.push_str(&kinds[k].replace('N', n));
            t.push('\n');
        }
        let ex = c.pick(3);
        if ex > 0 {
            let q = c.pick_str(&["Query", "Mutation", "Other"]);
            let m = c.pick_str(&["", " mutation: Mutation", " mutation: Query", " mutation: Other", " mutation: Subscription"]);
            let s = c.pick_str(&["", " subscription: Subscription", " subscription: Query", " subscription: Other", " subscription: Mutation"]);
            t.push_str(&format!("{}schema{} {{ query: {q}{m}{s} }}", ["", "", "\"d\" "][ex], ["", "", " @x"][ex]));
            if ex == 2 {
                t.push_str("directive @x on SCHEMA");
            }
        }
        roundtrip_schema(r, &t)
    });
    for (i, seed) in SDL_SEEDS.iter().enumerate() {
        let tk: Vec<&str> = seed.split(' ').filter(|t| *t != ",").collect();
        rep.explore(&format!("edits-of-seed-{i}"), rep.b(1, 2), |c, r| {
            let t = edit(c, &tk, &SDL_TOKENS);
            roundtrip_schema(r, &t)
        });
    }
    let cn = rep.b(4, 5) as usize;
    for (i, k) in SDL_CHUNKS.iter().enumerate() {
        rep.explore(&format!("repeated-parts-{i}"), 0, |c, r| {
            let t = chunks(c, *k, cn);
            roundtrip_schema(r, &t)
        });
    }
}

pub fn c29(rep: &mut Report) {
    fn one(r: &mut Run, text: &str) {
        if !r.case(text) {
            return;
        }
        let strict = ExecutableDocument::parse(text).ok().map(|d| conv::exec(&d));
        let compat = ExecutableDocument::parse_with_options(text, ParseOptions { graphql_ruby_compatibility: true }).ok().map(|d| conv::exec(&d));
        let off = ExecutableDocument::parse_with_options(text, ParseOptions { graphql_ruby_compatibility: false }).ok().map(|d| conv::exec(&d));
        let want = parse::exec_mode(text, Mode { ruby: true });
        r.outcome(match (&strict, &compat) {
            (Some(_), Some(_)) => "both",
            (None, Some(_)) => "compatibility only",
            (None, None) => "neither",
            (Some(_), None) => "strict only",
        });
        r.agree("options off", &strict, &off);
        if strict.is_some() {
            r.agree("accepted by default", &strict, &compat);
        }
        r.agree("compatibility mode", &want, &compat);
    }
    let n = if rep.thorough() { 6 } else { 5 };
    let seqs = move |c: &mut Ch, p: &[&str], n: usize| {
        let mut s = String::new();
        for _ in 0..n {
            let i = c.pick(p.len() + 1);
            if i == 0 {
                break;
            }
            s.push_str(p[i - 1]);
        }
        s
    };
    rep.explore("numbers", 0, |c, r| {
        let s = seqs(c, &["0", "1", "-", ".", "e", "E", "a", "_", " ", "+"], n);
        one(r, &format!("{{a(b:{s} c:1)}}"))
    });
    rep.explore("many", 0, |c, r| {
        let s = super::scale::literal(c);
        one(r, &format!("{{a(b:{s} c:1)}}"))
    });
    rep.explore("numbers-in-lists", 0, |c, r| {
        let s = seqs(c, &["0", "1", "-", ".", "e", "a", "\"", "..."], n);
        one(r, &format!("{{a(b:[{s}])}}"))
    });
    rep.explore("strings", 0, |c, r| {
        let s = seqs(c, &["a", "\"", "\\", "u", "n", "\n", "\r", "\r\n", "#", "\\u0041"], n);
        one(r, &format!("{{a(b:\"{s}\")}}"))
    });
    rep.explore("block-strings", 0, |c, r| {
        let s = seqs(c, &["a", "\"", "\\", " ", "\n", "\r"], n + 1);
        one(r, &format!("{{a(b:\"\"\"{s}\"\"\")}}"))
    });
    for (i, seed) in EXEC_SEEDS.iter().enumerate() {
        let tk: Vec<&str> = seed.split(' ').filter(|t| *t != ",").collect();
        rep.explore(&format!("edits-of-seed-{i}"), 1, |c, r| {
            let t = edit(c, &tk, &EXEC_TOKENS);
            one(r, &t)
        });
    }
    rep.explore("definition-documents", 0, |c, r| {
        let s = seqs(c, &["a", "\"", "\\", "\n", "1", "x"], n);
        let q = c.pick_str(&["\"", "\"\"\""]);
        let text = format!("{q}{s}{q} type Query {{ a(x: Int = 1{s}): Int }}");
        if !r.case(text.clone()) {
            return;
        }
        let p = |ruby: bool| {
            let d: Result<DefinitionDocument, _> = DefinitionDocument::parse_with_options(&text, ParseOptions { graphql_ruby_compatibility: ruby });
            let mut pr = vec![];
            d.ok().map(|d| SchemaDefinition::try_from(&d).ok().map(|s: SchemaDefinition| conv::view(&s, &mut pr)))
        };
        let (a, b) = (p(false), p(true));
        r.outcome(format!("strict {} compat {}", a.is_some(), b.is_some()));
        if a.is_some() {
            r.agree("accepted by default", &a, &b)
        }
        let want = parse::sdl_mode(&text, Mode { ruby: true });
        r.agree("compat accepts", &want.is_some(), &b.is_some());
        if let (Some(d), Some(Some(v))) = (&want, &b) {
            r.agree("what compat reads", &expected_view(d), v)
        }
    });
}
