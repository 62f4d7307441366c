//! The bounded space of schemas and queries the type generator is run on.
use super::{letters, Codec, Prog, CODECS};

pub const BASES: [&str; 11] = ["Int", "Float", "String", "Boolean", "ID", "Color", "Big", "Text", "Obj", "Node", "Uni"];
pub const IN_BASES: [&str; 10] = ["Int", "Float", "String", "Boolean", "ID", "Color", "Big", "Text", "Leaf", "Pick"];

/// every list and non-null wrapping with at most `depth` lists
pub fn wrappers(depth: usize) -> Vec<String> {
    let mut out = vec![];
    let mut layer = vec!["T".to_string(), "T!".to_string()];
    for _ in 0..=depth {
        out.extend(layer.iter().cloned());
        layer = layer.iter().flat_map(|w| [format!("[{w}]"), format!("[{w}]!")]).collect();
    }
    out
}

const COMMON: &str = "scalar Big scalar Text enum Color { RED DARK_BLUE green }
 interface Base { id: ID! } interface Node implements Base { id: ID! peer: Node note: String }
 type Obj implements Node & Base { id: ID! peer: Node note: String name: String! count: Int child: Obj uni: Uni unis: [Uni!]! node: Node! colors: [Color!]! big: Big text: Text type: String! some_snake_name: Int }
 type Alt implements Node & Base { id: ID! peer: Node note: String size: Float! obj: Obj! }
 type Third { flag: Boolean! } union Uni = Obj | Alt | Third";

fn wrapper_prog(codec: Codec, depth: usize) -> Prog {
    let ws = wrappers(depth);
    let mut fields = String::new();
    let mut ops = String::new();
    let mut n = 0;
    for b in BASES {
        for w in &ws {
            let f = format!("f{}", letters(n));
            fields.push_str(&format!(" {f}: {}", w.replace('T', b)));
            let sel = match b {
                "Obj" => " { name count }",
                "Node" => " { id note }",
                "Uni" => " { __typename ... on Obj { name } ... on Alt { size } }",
                _ => "",
            };
            ops.push_str(&format!("query Op{} {{ {f}{sel} }}\n", letters(n)));
            n += 1;
        }
    }
    Prog { name: format!("wrappers-{}", codec.name()), sdl: format!("{COMMON}\ntype Query {{{fields} }}"), codec, dsl: false, docs: vec![ops] }
}

const QUERY: &str = "type Query { obj: Obj objs: [Obj!]! node: Node uni: Uni unis: [Uni] }";

/// selection sets on a type, nested up to `d` levels
fn sets(ty: &str, d: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    match ty {
        "Obj" => {
            v.extend(["{ name }", "{ big colors text }", "{ name other: name type }", "{ __typename id some_snake_name }", "{ ...ObjFrag }", "{ ...NodeFrag }", "{ ...UniFrag }", "{ ...BaseFrag }"].map(String::from));
            if d > 0 {
                v.extend(sets("Obj", d - 1).into_iter().map(|s| format!("{{ child {s} }}")));
                v.extend(sets("Uni", d - 1).into_iter().map(|s| format!("{{ uni {s} name }}")));
                v.extend(sets("Node", d - 1).into_iter().map(|s| format!("{{ node {s} }}")));
                v.extend(sets("Uni", d - 1).into_iter().step_by(3).map(|s| format!("{{ unis {s} mine: uni {s} child {{ uni {s} }} }}")));
            }
        }
        "Node" => {
            v.extend(["{ id }", "{ __typename id note }", "{ ...NodeFrag }", "{ ...BaseFrag }"].map(String::from));
            if d > 0 {
                v.extend(sets("Node", d - 1).into_iter().map(|s| format!("{{ peer {s} id }}")));
            }
        }
        "Alt" => {
            v.extend(["{ size }", "{ size id }"].map(String::from));
            if d > 0 {
                v.extend(sets("Obj", d - 1).into_iter().map(|s| format!("{{ obj {s} }}")));
            }
        }
        _ => {
            v.extend(["{ __typename }", "{ ...UniFrag }"].map(String::from));
            let bare = |s: &String| !s.starts_with("{ ...") && !s.contains("__typename id some");
            v.extend(sets("Obj", d).into_iter().filter(bare).map(|s| format!("{{ __typename ... on Obj {s} }}")));
            if d > 0 {
                for a in sets("Alt", d - 1) {
                    v.push(format!("{{ __typename ... on Obj {{ name }} ... on Alt {a} }}"));
                    v.push(format!("{{ __typename ... on Alt {a} ... on Third {{ flag }} ... on Obj {{ child {{ name }} }} }}"));
                }
            }
        }
    }
    v
}

const FRAGS: [&str; 3] = [
    "fragment ObjFrag on Obj { name note } fragment NodeFrag on Node { id note } fragment BaseFrag on Base { id } fragment UniFrag on Uni { __typename ... on Obj { name } ... on Alt { size } }",
    "fragment ObjFrag on Obj { count child { name } uni { ...UniFrag } } fragment NodeFrag on Node { peer { id } id } fragment BaseFrag on Base { __typename id } fragment UniFrag on Uni { __typename ... on Third { flag } ... on Alt { obj { ...DeepFrag } } } fragment DeepFrag on Obj { colors big }",
    "fragment ObjFrag on Obj { ...DeepFrag } fragment DeepFrag on Obj { count } fragment NodeFrag on Node { ...BaseFrag } fragment BaseFrag on Base { id } fragment UniFrag on Uni { ...InnerFrag } fragment InnerFrag on Uni { __typename ... on Obj { child { ...NodeFrag } } }",
];

fn selection_prog(codec: Codec, d: usize) -> Prog {
    let docs = FRAGS
        .iter()
        .map(|frags| {
            let mut ops = String::new();
            let mut n = 0;
            for (f, ty) in [("obj", "Obj"), ("objs", "Obj"), ("node", "Node"), ("uni", "Uni"), ("unis", "Uni")] {
                for s in sets(ty, if f.ends_with('s') { d - 1 } else { d }) {
                    // the second and third fragment bodies only matter to queries that use them
                    if frags != &FRAGS[0] && !s.contains("...O") && !s.contains("...N") && !s.contains("...B") && !s.contains("...U") {
                        continue;
                    }
                    ops.push_str(&format!("query Op{} {{ {f} {s} }}\n", letters(n)));
                    n += 1;
                }
            }
            format!("{ops}{frags}")
        })
        .collect();
    Prog { name: format!("selections-{}", codec.name()), sdl: format!("{COMMON}\n{QUERY}"), codec, dsl: false, docs }
}

fn input_prog(codec: Codec, depth: usize) -> Prog {
    let mut s = String::from("type Query { ok: Int } scalar Big scalar Text enum Color { RED DARK_BLUE green }\ninput Leaf { a: Int! b: String } input Pick @oneOf { anInt: Int aName: String aList: [Int!] aLeaf: Leaf aColor: Color }\n");
    for (i, b) in IN_BASES.iter().enumerate() {
        for (j, w) in wrappers(depth).iter().enumerate() {
            let n = letters(i * 40 + j);
            s.push_str(&format!("input Wrap{n} {{ theValue: {} }}\n", w.replace('T', b)));
            if !w.ends_with('!') {
                s.push_str(&format!("input One{n} @oneOf {{ theValue: {} other: Boolean }}\n", w.replace('T', b)));
            }
        }
    }
    s.push_str(
        "input Defaults { a: Int = 1 b: String! = \"x\" c: [Int!]! = [1] d: Color! = RED e: Leaf! = { a: 1 } f: Boolean! g: [Int] = null }
input SelfRef { value: Int! next: SelfRef nexts: [SelfRef!] type: String }
input Ping { pong: Pong text: Text } input Pong { ping: Ping id: ID! }
input Ring { two: RingTwo! n: Int } input RingTwo { three: RingThree name: String } input RingThree { ring: [Ring!]! one: Ring }
input Tree @oneOf { leaf: Int node: TreeNode } input TreeNode { left: Tree! right: Tree }
input Choice @oneOf { self: Choices text: String } input Choices { choices: [Choice!]! }
input Names { type: String! match: Int in: Boolean someCamelName: Int some_snake_name: Int SHOUTING: Int }
",
    );
    Prog { name: format!("inputs-{}", codec.name()), sdl: s.replace(" self: Choices", " many: Choices"), codec, dsl: false, docs: vec!["query Ok { ok }".into()] }
}

fn root_progs(codec: Codec) -> Vec<Prog> {
    let sdl = format!("schema {{ query: TheQuery mutation: TheMutation subscription: TheSubscription }} {COMMON} \"the query\" type TheQuery {{ obj(id: ID!, filter: Filter): Obj \"a name\" name: String! uni: Uni }} type TheMutation {{ rename(to: String!): Obj! name: Int }} type TheSubscription {{ name: Boolean! }} input Filter {{ color: Color! ids: [ID!] }}");
    let docs = vec![
        "query Find($id: ID!, $filter: Filter = { color: RED }) { obj(id: $id, filter: $filter) { name } name } mutation Rename($to: String!) { rename(to: $to) { name uni { __typename ... on Alt { size } } } name } subscription Watch { name }".to_string(),
        "query { name title: name }".to_string(),
        "{ name uni { __typename ... on Obj { child { count } } } }".to_string(),
        "mutation { name }".to_string(),
        "query FindOne { ...RootFrag } query FindTwo { name } mutation RenameTwo { ...MutationFrag } fragment RootFrag on TheQuery { name uni { ...UniFrag } } fragment MutationFrag on TheMutation { name } fragment UniFrag on Uni { __typename ... on Third { flag } }".to_string(),
        "query Meta { __typename __schema { queryType { name kind } directives { name locations } } __type(name: \"Obj\") { name fields { name type { kind ofType { name } } } } }".to_string(),
    ];
    [false, true]
        .into_iter()
        .map(|dsl| Prog { name: format!("roots{}-{}", if dsl { "-inline" } else { "" }, codec.name()), sdl: sdl.clone(), codec, dsl, docs: docs.clone() })
        .collect()
}

const NAMES: [&str; 26] = ["type", "match", "fn", "async", "union", "try", "someName", "some_name", "SOME_NAME", "aB", "x", "out", "self", "crate", "state", "result", "option", "data", "_1", "_", "super", "Self", "_2d_x", "HTMLPage", "line1", "v2Beta"];

fn names_prog(codec: Codec) -> Prog {
    let mut sdl = String::from("type Query { o: O }\n");
    let mut o = String::new();
    let mut ops = String::new();
    for (i, n) in NAMES.iter().enumerate() {
        let ty = if i % 3 == 0 { "String!" } else if i % 3 == 1 { "Int" } else { "[Boolean!]!" };
        o.push_str(&format!(" {n}: {ty} n{}: N", letters(i)));
        ops.push_str(&format!("query Op{} {{ o {{ {n} }} }}\nquery Ali{} {{ o {{ {n}: aB }} }}\n", letters(i), letters(i)));
        // without a letter there is no case to tell a type from a module
        if !n.chars().any(|c| c.is_alphabetic()) {
            continue;
        }
        ops.push_str(&format!("query Obj{} {{ {n}: o {{ {n}: na {{ {n}: x }} u {{ __typename ... on O {{ {n} na {{ x }} }} }} }} }}\n", letters(i)));
    }
    sdl.push_str(&format!("type O {{{o} u: U }} type N {{ x: Int! }} union U = O | N enum Keywords {{ type TYPE_TWO match loop dyn aCamel UPPER }} enum Short {{ A B }}"));
    Prog { name: format!("names-{}", codec.name()), sdl, codec, dsl: false, docs: vec![ops] }
}


/// types and operations that share their names with the items generated code uses
fn shadow_prog(codec: Codec) -> Prog {
    let sdl = "type Query { o: O! vec: [O!] box: U } type O { x: Int! some: String option: Option result: [Result!]! } type U2 { x: Int } union U = O | U2 enum Option { SOME NONE } enum Result { OK ERR } enum Ordering { LESS } input Vec { a: Option! b: [Result!] some: String } input Box { a: Vec b: [Box!] } input String2 @oneOf { none: Int some: Vec }";
    let docs = vec![
        "query Some { o { x } } query Ok { o { ...Vec } vec { ...Vec } } query None { box { __typename ... on O { option result some } ... on U2 { x } } } fragment Vec on O { x option result }".to_string(),
        "query Result { option: o { some x } result: vec { x } } query String { box { __typename ... on U2 { x } } } query Clone { o { result } } query Debug { o { option } }".to_string(),
        "query Option { o { some: x } } query Box { box { ...Cow } } fragment Cow on U { __typename ... on O { x } } query Visitor { o { x } } query Deserialize { o { x } }".to_string(),
    ];
    Prog { name: format!("names-std-{}", codec.name()), sdl: sdl.into(), codec, dsl: false, docs }
}

pub const FORMS_SDL: &str = "scalar Big scalar Text enum Color { RED BLUE } type Obj { name: String! note: String count: Int color: Color child: Obj colors: [Color!]! } type Zed { size: Float! } union Uni = Obj | Zed type Query { obj: Obj! name: String! maybe: String objs: [Obj!]! uni: Uni! color: Color! }";
/// operations with a condition on part of their selections
pub const CONDITIONAL: [&str; 10] = [
    "query OpA($x: Boolean!) { obj { name @skip(if: $x) count } }",
    "query OpB($x: Boolean!) { obj { name note @skip(if: $x) } }",
    "query OpC($x: Boolean!) { name @skip(if: $x) maybe }",
    "query OpD($x: Boolean!) { name obj @skip(if: $x) { name } }",
    "query OpE($x: Boolean!) { name obj { child @skip(if: $x) { name } name } }",
    "query OpF($x: Boolean!) { obj { colors @skip(if: $x) name } }",
    "query OpG($x: Boolean!) { name obj { ...ObjFrag @skip(if: $x) } }",
    "query OpH($x: Boolean!) { uni { __typename ... on Obj @skip(if: $x) { name } } }",
    "query OpI($x: Boolean!) { uni { __typename ... on Obj { name @skip(if: $x) count } } }",
    "query OpJ($x: Boolean!) { uni { __typename ... on Obj { count note @skip(if: $x) } } }",
];
pub const PLAIN: &str = "query One { obj { name } } query Two { name maybe } query Three { uni { __typename ... on Obj { name } ... on Zed { size } } } query Four { color } query Five { objs { color } } query Six { obj { child { name } } }";
/// operation, a value that is not a response to it, the same value as a response
pub const LENIENT: [(&str, &str); 14] = [
    ("One", r#"{"obj":["abc"]}"#),
    ("One", r#"[{"name":"abc"}]"#),
    ("Two", r#"["abc",null]"#),
    ("Six", r#"{"obj":[{"name":"abc"}]}"#),
    ("Six", r#"{"obj":{"child":["abc"]}}"#),
    ("Three", r#"{"uni":["Obj","abc"]}"#),
    ("Three", r#"{"uni":{"__typename":0,"name":"abc"}}"#),
    ("Three", r#"{"uni":{"__typename":["Obj"],"name":"abc"}}"#),
    ("Three", r#"{"uni":{"Obj":{"name":"abc"}}}"#),
    ("Four", r#"{"color":{"RED":null}}"#),
    ("Four", r#"{"color":0}"#),
    ("Four", r#"{"color":["RED"]}"#),
    ("Five", r#"{"objs":[{"color":{"RED":null}}]}"#),
    ("Five", r#"{"objs":{"color":"RED"}}"#),
];
fn forms_prog(codec: Codec) -> Prog {
    Prog {
        name: format!("forms-{}", codec.name()),
        sdl: FORMS_SDL.into(),
        codec,
        dsl: false,
        docs: vec![format!("{} fragment ObjFrag on Obj {{ name count }}", CONDITIONAL.join(" ")), PLAIN.into()],
    }
}

/// A module that uses the generator, and whether its program is one of those the documentation supports.
pub struct Module {
    pub case: String,
    pub text: String,
    pub supported: bool,
}
const SEL_SDL: &str = "interface Base { id: ID! } interface Node implements Base { id: ID! note: String } interface Sub implements Node & Base { id: ID! note: String }
 type Obj implements Node & Base { id: ID! note: String name: String! obj: Obj node: Node uni: Uni } type Alt implements Sub & Node & Base { id: ID! note: String size: Int obj: Obj node: Node uni: Uni }
 union Uni = Obj | Alt type Query { obj: Obj node: Node uni: Uni objs: [Obj!] nodes: [[Node]!]! unis: [Uni!]! }";
const SEL_FRAGS: [(&str, &str); 8] = [
    ("ObjF", "fragment ObjF on Obj { name }"),
    ("AltF", "fragment AltF on Alt { size }"),
    ("NodeF", "fragment NodeF on Node { id }"),
    ("BaseF", "fragment BaseF on Base { id }"),
    ("SubF", "fragment SubF on Sub { id }"),
    ("UniF", "fragment UniF on Uni { __typename ... on Obj { name } ... on Alt { size } }"),
    ("UniTwoF", "fragment UniTwoF on Uni { __typename }"),
    ("QueryF", "fragment QueryF on Query { obj { name } }"),
];
/// selection sets on a type: supported and not
fn forms(ty: &str) -> (Vec<&'static str>, Vec<&'static str>) {
    match ty {
        "obj" => (
            vec!["{ name }", "{ name __typename }", "{ ...ObjF }", "{ ...NodeF }", "{ ...BaseF }", "{ ...UniF }"],
            vec!["{ ... on Obj { name } }", "{ ... { name } }", "{ ... on Node { id } }", "{ name ... on Obj { id } }", "{ name ... { id } }", "{ ... on Obj { id } name }", "{ name ...ObjF }", "{ ...ObjF name }", "{ ...ObjF ...NodeF }", "{ ...ObjF ... on Obj { name } }", "{ ... @include(if: true) { name } }"],
        ),
        "node" => (
            vec!["{ id }", "{ id __typename note }", "{ ...NodeF }", "{ ...BaseF }"],
            vec!["{ ... on Obj { name } }", "{ id ... on Obj { name } }", "{ ... on Obj { name } ... on Alt { size } id }", "{ ... on Node { id } }", "{ ... { id } }", "{ id ...NodeF }", "{ ...NodeF ...BaseF }", "{ ...ObjF }", "{ ...SubF }", "{ ...UniF }", "{ ...AltF }", "{ id ...ObjF }"],
        ),
        "uni" => (
            vec!["{ __typename }", "{ __typename ... on Obj { name } }", "{ __typename ... on Obj { name } ... on Alt { size } }", "{ __typename ... on Alt { size obj { name } } ... on Obj { id } }", "{ ...UniF }", "{ ...UniTwoF }"],
            vec!["{ ... on Obj { name } }", "{ ... on Obj { name } __typename }", "{ ... on Obj { name } ... on Alt { __typename } }", "{ t: __typename ... on Obj { name } }", "{ __typename ... on Node { id } }", "{ __typename ... on Obj { name } ... on Base { id } }", "{ __typename ... on Uni { __typename } }", "{ __typename ... { __typename } }", "{ __typename ... on Obj { name } ... on Obj { id } }", "{ __typename ... on Obj { name } ... on Alt { size } ... on Obj { name } }", "{ __typename ...ObjF }", "{ __typename ...UniF }", "{ ...UniF __typename }", "{ ...ObjF }", "{ ...AltF }", "{ ...NodeF }", "{ ...BaseF }", "{ ...UniF ...UniTwoF }", "{ ...UniF ... on Obj { name } }", "{ ... on Obj { name } ...AltF }", "{ __typename t: __typename }", "{ __typename __typename }", "{ __typename ... on Obj { name } t: __typename }"],
        ),
        _ => (vec!["{ obj { name } }", "{ ...QueryF }"], vec!["{ ... on Query { obj { name } } }", "{ ... { obj { name } } }", "{ obj { name } ...QueryF }", "{ ...QueryF ... on Query { obj { name } } }", "{ obj { name } ... @skip(if: false) { obj { id } } }"]),
    }
}
fn module(sdl: &str, args: &str, items: &str) -> String {
    format!("#[bluejay_typegen::typegen([{sdl}]{args})]\npub mod schema {{\n{items}\n}}")
}
pub fn modules(thorough: bool) -> Vec<Module> {
    let mut v: Vec<Module> = vec![];
    for codec in CODECS {
        if codec == Codec::Borrow && !thorough {
            continue;
        }
        for ty in ["obj", "node", "uni", "query"] {
            let on = match ty {
                "obj" => "Obj",
                "node" => "Node",
                "uni" => "Uni",
                _ => "Query",
            };
            let (good, bad) = forms(ty);
            for (sel, ok) in good.into_iter().map(|s| (s, true)).chain(bad.into_iter().map(|s| (s, false))) {
                let places = if ty == "query" {
                    vec![sel.to_string(), format!("query A {sel}"), format!("query A {{ uni {{ __typename }} }} query B {sel}"), format!("query A {{ ...F }} fragment F on Query {sel}")]
                } else {
                    vec![
                        format!("{{ {ty} {sel} }}"),
                        format!("{{ some: {ty}s {sel} }}"),
                        format!("query A {{ obj {{ {ty} {sel} name }} }}"),
                        format!("query A {{ uni {{ __typename ... on Obj {{ id }} ... on Alt {{ size {ty} {sel} }} }} }}"),
                        format!("query A {{ {ty} {{ ...F }} }} fragment F on {on} {sel}"),
                        format!("query A {{ {ty} {{ __typename }} }} query B {{ obj {{ obj {{ {ty} {sel} }} }} }}"),
                    ]
                };
                for q in places {
                    let mut doc = q.clone();
                    for (n, f) in SEL_FRAGS {
                        if q.contains(&format!("...{n} ")) || q.contains(&format!("...{n}\n")) {
                            doc.push_str(&format!(" {f}"));
                        }
                    }
                    v.push(Module { case: format!("{} {doc}", codec.name()), text: module(SEL_SDL, codec.args(), &format!("#[query([{doc}])] pub mod q {{}}")), supported: ok });
                }
            }
        }
    }
    let q = "type Query { a: Int o: Query big: Big c: C } scalar Big enum C { X }";
    let big = "type Big = u32;";
    let ok = "#[query([query A { a }])] pub mod q {}";
    let mut add = |case: &str, text: String, supported: bool| v.push(Module { case: case.into(), text, supported });
    let mini = ", codec = \"miniserde\"";
    for (n, args, good) in [
        ("no option", "", true),
        ("trailing comma", ",", false),
        ("borrow", ", borrow = true", true),
        ("borrow off", ", borrow = false", true),
        ("serde", ", codec = \"serde\"", true),
        ("miniserde", mini, true),
        ("borrow with serde", ", borrow = true, codec = \"serde\"", true),
        ("serde with borrow", ", codec = \"serde\", borrow = true", true),
        ("borrow with miniserde", ", borrow = true, codec = \"miniserde\"", false),
        ("miniserde with borrow", ", codec = \"miniserde\", borrow = true", false),
        ("miniserde without borrow", ", codec = \"miniserde\", borrow = false", true),
        ("unknown codec", ", codec = \"json\"", false),
        ("unknown option", ", lend = true", false),
        ("option given twice", ", borrow = true, borrow = true", false),
        ("codec given twice", ", codec = \"serde\", codec = \"miniserde\"", false),
        ("borrow not a boolean", ", borrow = 1", false),
    ] {
        add(n, module(q, args, &format!("{big} {ok}")), good);
    }
    for (n, args, items, good) in [
        ("no alias", "", "", false),
        ("no alias, borrow", ", borrow = true", "", false),
        ("no alias, miniserde", mini, "", false),
        ("alias of another name", "", "type Bigger = u32;", false),
        ("an alias too many", "", "type Big = u32; type More = u32;", false),
        ("alias of an enum", "", "type Big = u32; type C = u32;", false),
        ("alias of a builtin scalar", "", "type Big = u32; type Int = u32;", false),
        ("alias given twice", "", "type Big = u32; type Big = u32;", false),
        ("alias with a type parameter", "", "type Big<T> = Vec<T>;", false),
        ("alias with a const parameter", "", "type Big<const N: usize> = [u8; N];", false),
        ("alias with a lifetime, owned", "", "type Big<'a> = std::borrow::Cow<'a, str>;", false),
        ("alias with a lifetime, miniserde", mini, "type Big<'a> = std::borrow::Cow<'a, str>;", false),
        ("alias with a lifetime, borrowed", ", borrow = true", "type Big<'a> = std::borrow::Cow<'a, str>;", true),
        ("alias without a lifetime, borrowed", ", borrow = true", "type Big = String;", true),
        ("alias with two lifetimes", ", borrow = true", "type Big<'a, 'b> = (&'a str, &'b str);", false),
        ("a function among the items", "", "type Big = u32; fn f() {}", false),
        ("a struct among the items", "", "type Big = u32; struct S;", false),
        ("a module without a query", "", "type Big = u32; mod other {}", false),
        ("a module with another attribute", "", "type Big = u32; #[inline] mod other {}", false),
        ("a module with two attributes", "", "type Big = u32; #[query([query B { a }])] #[allow(unused)] mod other {}", false),
    ] {
        add(n, module(q, args, &format!("{items} {ok}")), good);
    }
    for c in ["", mini] {
        for (doc, good) in [
            ("{ a }", true),
            ("query A { a } query B { a }", true),
            ("query A { a } query A { o { a } }", false),
            ("{ a } query B { a }", false),
            ("{ a } { o { a } }", false),
            ("query A { b }", false),
            ("query A { a { b } }", false),
            ("query A { o }", false),
            ("query A { o { a } ", false),
            ("query A { a(x: 1) }", false),
            ("query A($x: Int) { a }", false),
            ("query A { o(x: $x) { a } }", false),
            ("mutation A { a }", false),
            ("subscription A { a }", false),
            ("query A { ...F }", false),
            ("query A { a } fragment F on Query { a }", false),
            ("query A { ...F } fragment F on Missing { a }", false),
            ("query A { ...F } fragment F on Query { o { ...F } }", false),
            ("query A { ...F } fragment F on Query { a } fragment F on Query { a }", false),
            ("query A { ...A } fragment A on Query { a }", false),
            ("query B { a } query A { o { ...A } } fragment A on Query { a }", false),
            ("{ ...Root } fragment Root on Query { a }", false),
            ("query Root { a } query A { ...F } fragment F on Query { a }", true),
            ("query A { o { ...Root } } fragment Root on Query { a }", true),
            ("query A { a @missing }", false),
            ("query A { a: big a }", false),
            ("type Query { a: Int }", false),
        ] {
            add(&format!("{doc}{c}"), module(q, c, &format!("{big} #[query([{doc}])] pub mod q {{}}")), good);
        }
        for (sdl, good) in [
            ("type Query { a: Int }", true),
            ("schema { query: Q } type Q { a: Int }", true),
            ("type Q { a: Int }", false),
            ("type Query { a: Missing }", false),
            ("type Query { a: Int } type Query { b: Int }", false),
            ("type Query { a: Int } input I { a: I! }", false),
            ("type Query { a: Int } union U = Missing", false),
            ("type Query { a: Int } enum E", false),
            ("type Query { a: Int", false),
            ("type Query { a(i: Query): Int }", false),
            ("query A { a }", false),
        ] {
            add(&format!("schema {sdl}{c}"), module(sdl, c, if good { "#[query([query A { a }])] pub mod q {}" } else { "" }), good);
        }
        // supported by the documentation; known findings where the generated code does not compile
        let clash = "type Query { a: Int }";
        for (n, sdl, doc) in [
            ("an enum value spelled like the catch-all", format!("{clash} enum E {{ A OTHER }}"), "query A { a }"),
            ("two enum values of one spelling", format!("{clash} enum E {{ DARK_BLUE darkBlue }}"), "query A { a }"),
            ("two input fields of one spelling", format!("{clash} input I {{ someField: Int some_field: Int }}"), "query A { a }"),
            ("two response names of one spelling", "type Query { someField: Int some_field: Int }".to_string(), "query A { someField some_field }"),
            ("two input types of one spelling", format!("{clash} input someInput {{ a: Int }} input SomeInput {{ a: Int }}"), "query A { a }"),
            ("two operations of one spelling", clash.to_string(), "query someQuery { a } query SomeQuery { a }"),
            ("a union member spelled like the catch-all", "type Query { u: U } type Other { x: Int } type O { x: Int } union U = O | Other".to_string(), "query A { u { __typename ... on Other { x } } }"),
            ("__typename inside a union member", "type Query { u: U } type O { x: Int } union U = O".to_string(), "query A { u { __typename ... on O { __typename x } } }"),
            ("a fragment spread inside a union member", "type Query { u: U } type O { x: Int } union U = O".to_string(), "query A { u { __typename ... on O { ...F } } } fragment F on O { x }"),
            ("a composite field named by a digit", "type Query { _1: Query x: Int }".to_string(), "query A { _1 { _1 { x } } }"),
        ] {
            add(&format!("{n}{c}"), module(&sdl, c, &format!("#[query([{doc}])] pub mod q {{}}")), true);
        }
    }
    v
}

pub fn all(thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    for c in CODECS {
        v.push(wrapper_prog(c, if thorough { 3 } else { 2 }));
        v.push(selection_prog(c, if thorough { 3 } else { 2 }));
        v.push(input_prog(c, if thorough { 3 } else { 2 }));
        v.push(names_prog(c));
        v.push(shadow_prog(c));
        v.push(forms_prog(c));
        v.extend(root_progs(c));
    }
    v
}
