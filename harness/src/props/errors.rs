//! C04: what is reported about an input that is rejected.
use super::vctx::{ctx, BSchema};
use super::grammar::{EXEC_CHUNKS, EXEC_TOKENS, SDL_CHUNKS, SDL_TOKENS};
use crate::engine::{Ch, Report, Run};
use crate::r::lex::{lex_at, Mode, Tok};
use crate::r::parse;
use bluejay_core::definition::SchemaDefinition as _;
use bluejay_parser::ast::definition::{DefinitionDocument, SchemaDefinition};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::{Parse, ParseOptions};
use bluejay_parser::{Error, error::GraphQLError};
use bluejay_printer::definition::SchemaDefinitionPrinter;
use bluejay_printer::executable::ExecutableDocumentPrinter;
use bluejay_validator::executable::{document::BuiltinRulesValidator, Cache};

/// Line and column of every character, and of the end.
fn positions(text: &str) -> Vec<(usize, usize)> {
    let c: Vec<char> = text.chars().collect();
    let (mut l, mut k) = (1, 1);
    let mut out = vec![];
    for i in 0..=c.len() {
        out.push((l, k));
        if i == c.len() {
            break;
        }
        if c[i] == '\n' || (c[i] == '\r' && c.get(i + 1) != Some(&'\n')) {
            l += 1;
            k = 1;
        } else {
            k += 1
        }
    }
    out
}
/// What the third-party renderer of the human-readable text takes for the end of a line besides.
fn exotic(text: &str) -> bool {
    text.contains(['\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}'])
}

/// `errors` gives the errors anew each time; returns the GraphQL errors.
fn render(r: &mut Run, text: &str, errors: impl Fn() -> Vec<Error>) -> Vec<GraphQLError> {
    let messages: Vec<String> = errors().iter().map(|e| e.message().to_string()).collect();
    r.check(!messages.is_empty(), || "rejected without an error".into());
    let g = Error::into_graphql_errors(text, errors());
    let named = messages.len() % 2 == 0;
    let human = Error::format_errors(text, named.then_some("some file"), errors());
    let pos = positions(text);
    for x in &g {
        r.check(!x.message.is_empty(), || "an empty message".into());
        for l in &x.locations {
            r.check(pos.contains(&(l.line, l.col)), || format!("{}:{} is no position of the document ({})", l.line, l.col, x.message));
        }
    }
    r.check(g.len() >= messages.len(), || format!("{} errors became {} GraphQL errors", messages.len(), g.len()));
    r.check(messages.iter().all(|m| !m.is_empty()), || "an empty message".into());
    let heads: Vec<&str> = human.lines().filter_map(|l| l.strip_prefix("Error: ")).collect();
    r.agree("errors in the human-readable text", &messages.iter().map(String::as_str).collect::<Vec<_>>(), &heads);
    // one position per error: that of its main annotation
    let mut k = 0;
    let file = if named { "some file" } else { "<unknown>" };
    for (i, block) in human.split("Error: ").skip(1).enumerate() {
        let want = |x: &GraphQLError| block.contains(&*x.message);
        // GraphQL errors follow the order of the errors they come from, one or more for each
        let from = k;
        while k < g.len() && want(&g[k]) && (k == from || messages.len() - i <= g.len() - k) {
            k += 1;
            if k - from == 1 && g.len() - k == messages.len() - i - 1 {
                break;
            }
        }
        r.check(k > from, || format!("the human-readable text lacks a message of error {i} ({:?})", messages.get(i)));
        if let Some((_, at)) = block.split_once(&format!("[{file}:")) {
            let at = at.split(']').next().unwrap();
            let (a, b) = at.split_once(':').unwrap_or(("", ""));
            let p = (a.parse().unwrap_or(0), b.parse().unwrap_or(0));
            if !exotic(text) && k == from + 1 {
                let l = g[from].locations.first().map(|l| (l.line, l.col)).unwrap_or((1, 1));
                // the renderer puts the end of a document that ends with a line break on that line
                let end = l == *pos.last().unwrap() && text.ends_with(['\n', '\r']);
                if !end {
                    r.check(p == l || p == (1, 1), || format!("the human-readable text says {p:?} where the GraphQL error says {l:?}"));
                }
            }
        }
    }
    r.check(k == g.len(), || format!("the human-readable text has messages of {k} of {} GraphQL errors", g.len()));
    g
}

/// What must be reported first: at which character, if the input is rejected.
fn reference(text: &str, sdl: bool, mode: Mode) -> Option<Vec<usize>> {
    match lex_at(text, mode) {
        Err(i) => Some(vec![i]),
        Ok((t, at)) => {
            let n = t.len();
            let described: Vec<bool> = t.iter().map(|t| matches!(t, Tok::Str(_))).collect();
            parse::stuck(t, sdl).map(|i| {
                let mut ok = vec![];
                if n > 0 {
                    ok.push(at.get(i).copied().unwrap_or_else(|| text.chars().count()));
                    // what has a description but is no definition may be reported from the description on
                    if sdl && i > 0 && described[i - 1] {
                        ok.push(at[i - 1])
                    }
                }
                ok
            })
        }
    }
}
fn parsed(r: &mut Run, text: &str, sdl: bool, ruby: bool) {
    if !r.case(format!("{}{}: {text}", if sdl { "schema" } else { "executable" }, if ruby { " (compatible)" } else { "" })) {
        return;
    }
    let o = || ParseOptions { graphql_ruby_compatibility: ruby };
    let errors = || if sdl { DefinitionDocument::parse_with_options(text, o()).map(|_: DefinitionDocument| ()) } else { ExecutableDocument::parse_with_options(text, o()).map(|_| ()) };
    let want = reference(text, sdl, Mode { ruby });
    match (errors(), want) {
        (Ok(_), None) => {
            r.outcome("accepted");
            r.compared += 1
        }
        (Ok(_), Some(_)) => r.fail("accepted"),
        (Err(_), None) => r.fail("rejected"),
        (Err(_), Some(at)) => {
            let g = render(r, text, || errors().unwrap_err());
            r.outcome(g.first().map(|e| e.message.split(':').next().unwrap().to_string()).unwrap_or_default());
            let got = g.first().map(|e| e.locations.iter().map(|l| (l.line, l.col)).collect::<Vec<_>>());
            let pos = positions(text);
            let want: Vec<_> = at.iter().map(|i| pos[*i]).collect();
            match got {
                Some(g) if (g.is_empty() && want.is_empty()) || (g.len() == 1 && want.contains(&g[0])) => r.compared += 1,
                got => r.agree("position of the first error", &Some(want), &got),
            }
        }
    }
}

const TRIVIA: [&str; 10] = [" ", "\n", "\r\n", "\r", "\u{FEFF}", "#é\u{2028}\n", ",\n\n", "\t#x\r", " # \u{b}\u{85}😀\r\n", "#\u{c}\n"];

struct Template {
    tokens: Vec<String>,
    /// indices of tokens at which something must be reported
    marks: Vec<usize>,
}
fn template(t: &str) -> Template {
    let mut text = String::new();
    let mut at = vec![];
    for c in t.chars() {
        if c == '§' {
            if !text.ends_with(' ') {
                text.push(' ')
            }
            at.push(text.chars().count())
        } else {
            text.push(c)
        }
    }
    let (_, starts) = lex_at(&text, Mode::default()).unwrap_or_else(|_| panic!("harness: {text}"));
    let c: Vec<char> = text.chars().collect();
    let tokens = (0..starts.len()).map(|i| c[starts[i]..starts.get(i + 1).copied().unwrap_or(c.len())].iter().collect::<String>().trim().to_string()).collect();
    Template { tokens, marks: at.iter().map(|a| starts.iter().position(|s| s == a).unwrap_or_else(|| panic!("harness: a mark within a token of {t}"))).collect() }
}
impl Template {
    fn spread(&self, c: &mut Ch) -> (String, Vec<usize>) {
        let mut out = String::new();
        let mut at = vec![];
        let mut n = 0;
        for (i, t) in self.tokens.iter().enumerate() {
            let s = if i == 0 { ["", "\n", "\r\n", "\u{FEFF}", "#é\u{2028}\r"][c.dev(5)] } else { c.dev_str(&TRIVIA) };
            out.push_str(s);
            n += s.chars().count();
            if self.marks.contains(&i) {
                at.extend(self.marks.iter().filter(|m| **m == i).map(|_| n));
            }
            out.push_str(t);
            n += t.chars().count();
        }
        out.push_str(["", "\n", "#é"][c.dev(3)]);
        (out, at)
    }
}

const SCHEMA: &str = "schema{query:Query subscription:S} type S{a:Int b:Int} type Query{a:Int b(x:Int! y:In o:One e:E l:[E!]):Int n:N u:U s:Sc} interface N{n:N i:Int} type A implements N{n:N i:Int} type B{k:String}
union U=A scalar Sc enum E{X Y} input In{r:Int! q:Int} input One@oneOf{a:Int b:Int} directive@d(z:Int!)on FIELD directive@r repeatable on FIELD|INLINE_FRAGMENT";
const VALIDATION: [&str; 66] = [
    "query §Q{a} query §Q{a}", "§{a} query P{a}", "§{a} query§{a} query P{a}", "subscription§{a b}", "subscription§{...F} fragment F on S{a b}", "{§zz}", "{n{§zz}}", "{n{q:§zz}}", "§mutation{a}", "{a§{__typename}}", "{s§{__typename}}",
    "{§n}", "{q:§n}", "{n{§n}}", "{...F} fragment §F on Query{a} fragment §F on Query{a}", "{...F} fragment F on §Zed{a}", "{...on §Zed{a}}", "{...F} fragment F on §E{a}", "{...on §E{a}}", "{a} fragment §F on Query{a}", "{...§F}", "{n{...§F}}",
    "{...F} fragment F on Query{...§F}", "{...F} fragment F on Query{...§G} fragment G on Query{...§F}", "§{x:a x:s}", "{n§{x:i x:n{i}}}", "§{b(x:1) b(x:2)}", "§{b(x:1) ...F} fragment F on Query{b(x:2)}", "{n§{...on A{x:i} x:n{i}}}",
    "{n{...§F}} fragment F on B{k}", "{n{§...on B{k}}}", "{n{i §...on B@r{k}}}", "query($v:Int!=§\"é😀\"){b(x:$v)}", "query($v:Int!=§null){b(x:$v)}", "query($v:In=§{q:1}){b(x:1 y:$v)}", "query($v:In={r:1 §zz:\"é\"}){b(x:1 y:$v)}", "{b(x:§\"s\")}", "{b(x:§null)}",
    "{b(x:§\"\"\"é\n  é\n\"\"\")}", "{b(x:1 e:§Z)}", "{b(x:1 e:§\"X\")}", "{b(x:1 y:§{q:1})}", "{b(x:1 y:{§r:1 §r:2})}", "{b(x:1 y:{r:1 §zz:2})}", "{b(x:1 o:§{a:1 b:2})}", "{b(x:1 l:[X §Z §1 Y §null])}", "{b(x:1 l:[§[1.5]])}",
    "{a@§zip}", "{a@r@§zip}", "{a@d(§q:1 z:1)}", "{a§@d}", "{a§@d@r}", "query§@d(z:1){a}", "{a§@d(z:1)§@d(z:1)}", "{b(§x:1 §x:1)}", "{a(§q:1)}", "{§b}", "{q:§b(y:{r:1})}", "query(§$v:Int!§$v:Int!){b(x:$v)}", "query(§$v:§N){a}", "query(§$v:§[N]!){a}", "{b(x:§$v)}",
    "query Q{...F} fragment F on Query{b(x:§$v)}", "query(§$v:Int){a}", "query($v:Int){b(x:§$v)}", "query Q{b(x:§$v)} query P($v:Int){b(x:§$v)}",
];
const DEFINITIONS: [&str; 44] = [
    "directive@§d on FIELD directive@§d on QUERY type Query{a:Int}", "directive@skip on FIELD type Query{a:Int} enum §__Type{A}", "\"é\" type §A{a:Int} scalar §A type Query{a:Int}", "scalar §__Field type Query{a:Int}", "enum §Query{A}", "schema{query:§E} enum E{A}", "type A{a:Int}",
    "type Mutation{a:Int}", "schema§{mutation:A} type A{a:Int}", "schema@specifiedBy(url:\"é\")§{mutation:A} type A{a:Int}", "§schema{query:A} §schema{query:A} type A{a:Int}", "schema{query:§A query:§A} type A{a:Int}", "schema{query:§Zed}", "type Query{a:§Zed}", "type Query{a:[§Zed!]!}",
    "type Query{a(x:§Zed=1):Int}", "directive@d(x:[§Zed])on FIELD type Query{a:Int}", "type Query{a:§In} input In{a:Int}", "type Query{a(x:[§Query]):Int}", "input I{a:§Query} type Query{a:Int}", "union U=Query|§E enum E{A} type Query{a:Int}", "union U=§Zed type Query{a:Int}",
    "type Query implements §Query{a:Int}", "type Query implements §Zed{a:Int}", "interface J implements§Query{a:Int} type Query{a:Int}", "type Query{a:Int§@zip}", "type Query§@zip(x:\"é😀\"){a:Int§@zap}", "enum E{\"\"\"é\né\"\"\"A§@zip} type Query{a:Int}", "union U§@zip=Query type Query{a:Int}",
    "scalar S§@zip type Query{a:Int}", "input I{a:Int=1§@zip} type Query{a(x:Int§@zip):§Zed}", "schema§@zip{query:Query} type Query{a:Int}", "type Query{a:Int}input I{§a:Int §a:Int}", "type Query{a:Int} input I{§a:Int b:Int §a:Int \"é\"§a:Int}", "enum E{§A B §A} type Query{a:E}",
    "type Query{a:Int} input §I{i:I!}", "type Query{a:Int} input §I{j:J!} input §J{i:I!}", "type Query{a:E} enum E{§A \"é\"§A §B C §B}", "input I§@zip{a:Int} type Query{a:Int}", "interface I§@zip{a:Int} type Query{a:Int}", "type Query{a:Int} directive@d(a:Int§@zip)on FIELD", "schema{query:Query mutation:§Zed subscription:§E} enum E{A} type Query{a:Int}",
    "type Query{a(x:§Zed):§Zad}", "schema{query:Query mutation:§M mutation:§M mutation:§N} type N{a:Int} type M{a:Int} type Query{a:Int}",
];
fn found(r: &mut Run, text: &str, mut want: Vec<usize>, g: &[GraphQLError], messages: &mut dyn FnMut(Vec<String>) -> Option<Vec<String>>) {
    let pos = positions(text);
    let mut got: Vec<(usize, usize)> = g.iter().flat_map(|x| x.locations.iter().map(|l| (l.line, l.col))).collect();
    // one thing may be reported several times
    got.sort();
    got.dedup();
    want.sort();
    r.agree("positions", &want.iter().map(|i| pos[*i]).collect::<Vec<_>>(), &got);
    let mut m: Vec<String> = g.iter().map(|x| x.message.to_string()).collect();
    m.sort();
    if let Some(old) = messages(m.clone()) {
        r.agree("messages", &old, &m);
    }
}
fn validation_errors(doc: &ExecutableDocument<'_>, s: &BSchema) -> Vec<Error> {
    let c = Cache::new(doc, s);
    let es: Vec<_> = BuiltinRulesValidator::validate(doc, s, &c).collect();
    // the errors borrow from the document only
    es.into_iter().map(Into::into).collect()
}
fn definition_errors(text: &str) -> Result<Vec<Error>, Vec<Error>> {
    let d: DefinitionDocument = DefinitionDocument::parse(text)?;
    let d: &'static DefinitionDocument<'static> = unsafe { std::mem::transmute(&d) };
    let out = match SchemaDefinition::try_from(d) {
        Err(e) => e.into_iter().map(Into::into).collect(),
        Ok(s) => {
            let s: &'static SchemaDefinition<'static> = unsafe { std::mem::transmute(&s) };
            bluejay_validator::definition::BuiltinRulesValidator::validate(s).map(Into::into).collect()
        }
    };
    Ok(out)
}

// ---- nesting ----

const NESTINGS: [&str; 16] = [
    "fields", "fields cut", "inline fragments", "list value", "list value cut", "object value", "variable type", "variable default", "field type", "default value", "fragments", "input types", "interfaces", "unions", "string", "names",
];
fn nested(kind: &str, n: usize) -> (bool, String) {
    let rep = |s: &str| s.repeat(n);
    match kind {
        "fields" => (false, format!("{}{{x}}{}", rep("{o"), rep("}"))),
        "fields cut" => (false, rep("{o")),
        "inline fragments" => (false, format!("{}{{x}}{}", rep("{...on Query"), rep("}"))),
        "fragments" => (false, format!("{{...F0}}{}fragment F{n} on Query{{x}}", (0..n).map(|i| format!("fragment F{i} on Query{{...F{}}}", i + 1)).collect::<String>())),
        "list value" => (false, format!("{{x(l:{}1{})}}", rep("["), rep("]"))),
        "list value cut" => (false, format!("{{x(l:{}1", rep("["))),
        "object value" => (false, format!("{{x(i:{}null{})}}", rep("{i:"), rep("}"))),
        "variable type" => (false, format!("query($v:{}Int{}){{x}}", rep("["), rep("]"))),
        "variable default" => (false, format!("query($v:Int={}1{}){{x}}", rep("["), rep("]"))),
        "field type" => (true, format!("type Query{{x:{}Int{}}}", rep("["), rep("]"))),
        "default value" => (true, format!("type Query{{x(i:I={}null{}):Int}}input I{{i:I}}", rep("{i:"), rep("}"))),
        "input types" => (true, format!("type Query{{x:Int}}{}input I{n}{{i:Int}}", (0..n).map(|i| format!("input I{i}{{i:I{}!}}", i + 1)).collect::<String>())),
        "interfaces" => (true, format!("type Query{{x:I0}}{}interface I{n}{{x:Int}}", (0..n).map(|i| format!("interface I{i} implements I{}{{x:Int}}", i + 1)).collect::<String>())),
        "unions" => (true, format!("type Query{{x:U0}}{}type T{n}{{x:Int}}", (0..n).map(|i| format!("union U{i}=T{i} type T{i}{{x:U{}}}", (i + 1) % n)).collect::<String>())),
        "string" => (false, format!("{{x(s:\"{}\")}}", rep("\\u{1F600}"))),
        "names" => (false, format!("{{{}x}}", rep("a:b "))),
        _ => panic!("harness: nesting"),
    }
}
/// Parses, validates, prints and renders a nested document; run in a process of its own.
pub fn nest(kind: &str, n: usize) {
    let kind = kind.to_string();
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || nest_here(&kind, n)).unwrap();
    if t.join().is_err() {
        std::process::exit(1)
    }
}
fn nest_here(kind: &str, n: usize) {
    let (sdl, text) = nested(kind, n);
    let text = &text;
    let render = |e: Vec<Error>, again: Vec<Error>| {
        assert_eq!(Error::into_graphql_errors(text, e).is_empty(), false);
        assert_eq!(Error::format_errors(text, None, again).is_empty(), false);
    };
    if sdl {
        let parse = || DefinitionDocument::parse(text);
        let d: DefinitionDocument = match parse() {
            Ok(d) => d,
            Err(e) => return render(e, parse().map(|_: DefinitionDocument| ()).unwrap_err()),
        };
        let s = SchemaDefinition::try_from(&d).unwrap_or_else(|_| panic!("rejected"));
        assert_eq!(bluejay_validator::definition::BuiltinRulesValidator::validate(&s).count(), 0);
        let t = SchemaDefinitionPrinter::to_string(&s);
        assert!(DefinitionDocument::parse(&t).map(|_: DefinitionDocument| ()).is_ok());
        let cache = bluejay_visibility::Cache::new(bluejay_visibility::NullWarden::default(), &s);
        let v = bluejay_visibility::SchemaDefinition::new(&cache).unwrap_or_else(|_| panic!("no scoped schema"));
        assert!(v.type_definitions().count() > 2);
        assert_eq!(bluejay_schema_comparator::compare(&s, &s).changes.len(), 0);
    } else {
        let d = match ExecutableDocument::parse(text) {
            Ok(d) => d,
            Err(e) => return render(e, ExecutableDocument::parse(text).map(|_| ()).unwrap_err()),
        };
        let cx = ctx("type Query{x(l:[Int]i:I s:String):Int o:Query}input I{i:I}");
        let (e, again) = (validation_errors(&d, cx.b), validation_errors(&d, cx.b));
        if !e.is_empty() {
            render(e, again)
        }
        assert!(ExecutableDocument::parse(&ExecutableDocumentPrinter::to_string(&d)).is_ok());
    }
}
fn nesting(r: &mut Run, kind: &str, n: usize) {
    if !r.case(format!("{kind} nested {n} deep")) {
        return;
    }
    let mut p = std::process::Command::new(std::env::current_exe().unwrap()).args(["nest", kind, &n.to_string()]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::piped()).spawn().unwrap_or_else(|e| panic!("harness: {e}"));
    let started = std::time::Instant::now();
    let status = loop {
        match p.try_wait().unwrap() {
            Some(s) => break Some(s),
            None if started.elapsed().as_secs() > 60 => {
                let _ = p.kill();
                let _ = p.wait();
                break None;
            }
            None => std::thread::sleep(std::time::Duration::from_millis(5)),
        }
    };
    let mut why = String::new();
    if let Some(e) = p.stderr.as_mut() {
        let _ = std::io::Read::read_to_string(e, &mut why);
    }
    match status {
        None => r.fail("no answer within 60 s"),
        Some(s) if !s.success() => r.fail(format!("ended by {s}: {}", why.trim().lines().take(2).collect::<Vec<_>>().join(" ").chars().take(160).collect::<String>())),
        _ => {
            r.outcome("answered");
            r.compared += 1
        }
    }
}

const NASTY: [&str; 24] = [
    "", "\"", "\\", "\n", "\r", "\r\n", "é", "😀", "\u{2028}", "\u{FEFF}", "\0", "#", "$", ".", "-", "0", "\"\"\"", "\\u", "\\uD83D", "\\u{", "..", "1e", "\u{b}", "%",
];
const DOCS: [(bool, &str); 5] = [
    (false, "query Q($v:[Int!]! = [1,-2]\r\n@d) @é{ # 😀\n a: b(x: \"é😀\\u00e9\", y: {k: \"\"\"\n  b\u{2028}l\\\"\"\"ock\r\n \"\"\"})\r ...F ... on T @d(z: 1.5e3) { c } }"),
    (false, "query Q($v:[Int!]! = [1,-2]\r\n@d) @e{ # 😀\n a: b(x: \"é😀\\u00e9\", y: {k: \"\"\"\n  b\u{2028}l\\\"\"\"ock\r\n \"\"\"})\r ...F ... on T @d(z: 1.5e3) { c } }\u{FEFF}fragment F on A@x{y}"),
    (true, "\"é\"\r\nschema @s { query: Q }\n\"\"\"\r  é\n\"\"\" type Q implements & I & J @d { \"d\" a(x: Int = 1 @d, y: [E!]! = [A]): S! # 😀\r b: [Q] }"),
    (true, "directive @d(x: S = \"\\uD83D\\uDE00\") repeatable on\r\n | FIELD | OBJECT\nunion U = | A | B enum E { A \"é\" B @d }\u{FEFF}input I @d { a: Int = -0.5e-1, b: I }"),
    (true, "scalar S @specifiedBy(url: \"é\u{2029}\") interface I implements J { a: Int! }\rtype Q { a: Int }"),
];

pub fn c04(rep: &mut Report) {
    let th = rep.thorough();
    // every short text
    let n = if th { 5 } else { 4 };
    rep.explore("texts", 0, |c, r| {
        let t: String = (0..n).map(|_| c.pick_str(&NASTY)).collect();
        let sdl = c.flip();
        parsed(r, &t, sdl, false)
    });
    rep.explore("texts-in-a-document", 0, |c, r| {
        let t: String = (0..n - 1).map(|_| c.pick_str(&NASTY)).collect();
        let (a, b) = *c.pick_of(&[("{\r\né(\n", ") }"), ("{a(b:\"\r", "\")\n}"), ("{a(b:\"", "\")}"), ("\n{a(b:\"\"\"", "\"\"\")}"), ("{a ", " b}\n")]);
        let ruby = c.flip();
        parsed(r, &format!("{a}{t}{b}"), false, ruby)
    });
    // a document cut short, and one in which some characters are replaced or preceded by others
    // far into a text
    rep.explore("many", 0, |c, r| {
        let sdl = c.flip();
        let ruby = c.flip();
        let b = super::scale::before(c, &["\n", "\r\n", "\r", " ", "\u{feff}", ",", "#\n", "#é\r", "#😀\u{2028}\r\n", "# aaaaaaa\n", if sdl { "scalar A " } else { "{a}" }, if sdl { "\"é\"scalar A\n" } else { "{a(b:\"é\")}\n" }, if sdl { "\"\"\"\né\r\n\"\"\"scalar A\n" } else { "{a(b:\"\"\"\r😀\n\"\"\")}\r\n" }], th);
        let then = if sdl { c.pick_str(&["", "%", "scalar", "scalar A \"", "scalar A \"\"\"\n", "scalar A @", "type A{a:é}", "type A{a Int}"]) } else { c.pick_str(&["", "%", "{", "{a(b:\"", "{a(b:\"\"\"\n", "{a(b:\"\\q\")}", "{a(b:01)}", "{é}", "{a:}"]) };
        let after = c.pick_str(&["", "\n}", " {a é}"]);
        parsed(r, &format!("{b}{then}{after}"), sdl, ruby)
    });
    rep.explore("cut-short", rep.b(1, 2), |c, r| {
        let (sdl, d) = *c.pick_of(&DOCS);
        let at: Vec<usize> = d.char_indices().map(|x| x.0).chain([d.len()]).collect();
        let end = *c.pick_of(&at);
        let from = c.dev(at.len());
        let from = at[from].min(end);
        let tail = c.dev_str(&NASTY);
        let d = &d[from..end];
        let ruby = c.dev_flip();
        parsed(r, &format!("{d}{tail}"), sdl, ruby)
    });
    rep.explore("disturbed", rep.b(1, 2), |c, r| {
        let (sdl, d) = *c.pick_of(&DOCS);
        let mut t = String::new();
        // fewer texts where two places are disturbed at a time
        let m = if th { 9 } else { NASTY.len() };
        for ch in d.chars() {
            match c.dev(2 * m) {
                0 => t.push(ch),
                k if k < m => {
                    t.push_str(NASTY[k]);
                    t.push(ch)
                }
                k => t.push_str(NASTY[k - m]),
            }
        }
        parsed(r, &t, sdl, false)
    });
    // sequences of tokens and of parts, laid out in many ways
    let n = if th { 4 } else { 3 };
    rep.explore("tokens", 1, |c, r| {
        let sdl = c.flip();
        let alphabet: &[&str] = if sdl { &SDL_TOKENS } else { &EXEC_TOKENS };
        let mut t = String::new();
        for _ in 0..n {
            let i = c.pick(alphabet.len() + 1);
            if i == 0 {
                break;
            }
            t.push_str(alphabet[i - 1]);
            t.push_str(c.dev_str(&TRIVIA));
        }
        parsed(r, &t, sdl, false)
    });
    rep.explore("parts", 1, |c, r| {
        let sdl = c.flip();
        let (pre, alphabet, post) = if sdl { *c.pick_of(&SDL_CHUNKS) } else { *c.pick_of(&EXEC_CHUNKS) };
        let mut t = pre.to_string();
        for _ in 0..n - 1 {
            let i = c.pick(alphabet.len() + 1);
            if i == 0 {
                break;
            }
            t.push_str(c.dev_str(&TRIVIA));
            t.push_str(alphabet[i - 1]);
        }
        t.push_str(c.dev_str(&TRIVIA));
        t.push_str(post);
        parsed(r, &t, sdl, false)
    });
    // errors found later on
    let cx = ctx(SCHEMA);
    let ts: Vec<Template> = VALIDATION.iter().map(|t| template(t)).collect();
    let plain: Vec<std::sync::OnceLock<Vec<String>>> = ts.iter().map(|_| std::sync::OnceLock::new()).collect();
    rep.explore("invalid-requests", rep.b(2, 3), |c, r| {
        let k = c.pick(ts.len());
        let (text, at) = ts[k].spread(c);
        if !r.case(text.clone()) {
            return;
        }
        let Ok(d) = ExecutableDocument::parse(&text) else { return r.fail("does not parse") };
        let g = render(r, &text, || validation_errors(&d, cx.b));
        r.outcome(g.first().map(|e| e.message.split([':', '`', '$']).next().unwrap().to_string()).unwrap_or_default());
        let first = plain[k].get_or_init(|| {
            let t = ts[k].tokens.join(" ");
            let d = ExecutableDocument::parse(&t).unwrap_or_else(|_| panic!("harness: {t}"));
            let mut m: Vec<String> = Error::into_graphql_errors(&t, validation_errors(&d, cx.b)).iter().map(|x| x.message.to_string()).collect();
            m.sort();
            m
        });
        found(r, &text, at, &g, &mut |_| Some(first.clone()));
    });
    // an analysis of what is not valid still comes to an end
    let menu = super::composition::menu();
    let mixed = ctx(super::validation::MIXED);
    let th = rep.thorough();
    rep.explore("analyses-of-invalid-requests", 0, |c, r| {
        const MORE: [&str; 20] = [
            "{a@skip(if:$v)}", "query($v:Int){a@include(if:$v)}", "{a@skip}", "{a@skip(if:1)@include(if:{})@skip(if:[])@skip(if:X)}", "{n@include(if:\"s\"){...F@skip(if:null)}}fragment F on N{...F@include(if:$v)...F}", "query($v:[Boolean]=true){a@skip(if:$v)}", "query($v:Zed=1 $v:In={zz:[]}){b(zz:$v y:{r:$v zz:{q:$v}} l:[[[$v]]] o:{a:[$v]})}",
            "{a{a{a}}n{zz{zz}i{i}}s{a}u{a ...{k}}}", "{n{...on Zed{a}...on U{a}...on E{X}...on In{r}}}", "{b(y:1 o:[{}]e:{}l:{a:1})}", "mutation{a{b}}", "subscription{zz{a}}", "{__schema{zz}__type{name}__typename{a}a{__schema{types{name}}}}", "query Q($v:U){u{...on A{n(x:$v){i}}}}", "query Q@skip(if:true)@d(z:{}){...on Query@skip(if:$w){a}}", "{b(x:1 x:[]x:{})@d(z:1 z:2)@zip(a:[1 2])}",
            "{...F}fragment F on Query@skip(if:true){...G}fragment G on Query{n{...H}...F}fragment H on A{n{...H}...F}", "query Q{...F}query Q{...F}fragment F on Query{a}fragment F on N{n{i}}", "{a a:n{i}a:n{n{a:i}}}", "query($v:Boolean=$w){a@skip(if:$v)}",
        ];
        let k = c.pick(VALIDATION.len() + MORE.len() + 1);
        let (cx, text) = if k > 0 {
            (&cx, if k <= VALIDATION.len() { VALIDATION[k - 1].replace('§', " ") } else { MORE[k - 1 - VALIDATION.len()].replace("=$w", "=true") })
        } else {
            let k = if th { 3 } else { 2 };
            (&mixed, (0..k).map(|_| menu[c.pick(menu.len())].as_str()).collect::<Vec<_>>().join(" "))
        };
        let json = c.pick_str(&["{}", "{\"v\":1}", "{\"v\":null}", "{\"v\":[1,[2]]}", "{\"v\":{\"v\":true}}", "{\"v\":\"X\",\"w\":true}"]);
        let name = *c.pick_of(&[None, Some("Q"), Some("P"), Some("One"), Some("Two"), Some("S")]);
        if !r.case(format!("{text}\noperation {name:?} variables {json}")) {
            return;
        }
        let Ok(d) = ExecutableDocument::parse(&text) else { return r.fail("does not parse") };
        let vars: super::analysis::V = serde_json::from_str(json).unwrap();
        let cache = Cache::new(&d, cx.b);
        r.outcome(match super::analysis::alone(&d, cx.b, name, &vars, &cache) {
            Ok(o) => format!("depth {}", o.depth),
            Err(_) => "no operation".into(),
        });
        r.compared += 1;
    });
    let ts: Vec<Template> = DEFINITIONS.iter().map(|t| template(t)).collect();
    let plain: Vec<std::sync::OnceLock<Vec<String>>> = ts.iter().map(|_| std::sync::OnceLock::new()).collect();
    rep.explore("invalid-schemas", rep.b(2, 3), |c, r| {
        let k = c.pick(ts.len());
        let (text, at) = ts[k].spread(c);
        if !r.case(text.clone()) {
            return;
        }
        if definition_errors(&text).is_err() {
            return r.fail("does not parse");
        }
        let g = render(r, &text, || definition_errors(&text).unwrap_or_default());
        r.outcome(g.first().map(|e| e.message.split([':', '`', '$']).next().unwrap().to_string()).unwrap_or_default());
        let first = plain[k].get_or_init(|| {
            let t = ts[k].tokens.join(" ");
            let mut m: Vec<String> = Error::into_graphql_errors(&t, definition_errors(&t).unwrap_or_default()).iter().map(|x| x.message.to_string()).collect();
            m.sort();
            m
        });
        found(r, &text, at, &g, &mut |_| Some(first.clone()));
    });
    rep.explore("nesting", 0, |c, r| {
        let n = *c.pick_of(&[1, 2, 10, 100, 300, 100_000]);
        let kind = c.pick_str(if n > 300 { &NESTINGS[..10] } else { &NESTINGS });
        nesting(r, kind, n)
    });
}
