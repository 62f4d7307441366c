//! C10 to C18: what document validation reports.
use super::vctx::*;
use crate::engine::{Ch, Report};

pub const C10: [&str; 3] = ["FieldDoesNotExistOnType", "LeafFieldSelectionNotEmpty", "NonLeafFieldSelectionEmpty"];
pub const C11: [&str; 3] = ["NonUniqueArgumentNames", "ArgumentDoesNotExist", "MissingRequiredArguments"];
pub const C12: [&str; 9] = [
    "NullValueForRequiredType", "NoImplicitConversion", "NoEnumMemberWithName", "NoValueForRequiredFields", "NonUniqueFieldNames", "NoInputFieldWithName", "CustomScalarInvalidValue",
    "OneOfInputNullValues", "OneOfInputNotSingleNonNullValue",
];
pub const C13: [&str; 4] = ["NonUniqueVariableDefinitionNames", "VariableDefinitionTypeNotInput", "VariableNotDefined", "VariableDefinitionUnused"];
pub const C14: [&str; 1] = ["InvalidVariableUsage"];
pub const C15: [&str; 10] = [
    "NonUniqueFragmentDefinitionNames", "FragmentDefinitionTargetTypeDoesNotExist", "InlineFragmentTargetTypeDoesNotExist", "FragmentDefinitionTargetTypeNotComposite",
    "InlineFragmentTargetTypeNotComposite", "FragmentDefinitionUnused", "FragmentSpreadTargetUndefined", "FragmentSpreadCycle", "FragmentSpreadIsNotPossible", "InlineFragmentSpreadIsNotPossible",
];
pub const C16: [&str; 1] = [MERGE];
pub const C17: [&str; 3] = ["DirectiveDoesNotExist", "DirectiveInInvalidLocation", "DirectivesNotUniquePerLocation"];
pub const C18: [&str; 4] = ["NonUniqueOperationNames", "NotLoneAnonymousOperation", "OperationTypeNotDefined", "SubscriptionRootNotSingleField"];

pub const FIELDS: &str = "schema{query:Q mutation:M subscription:S}
interface I{id:ID i:I u:U} interface J{j:Int id:ID} interface None{id:ID}
type A implements I&J{id:ID i:I u:U a:Int e:E aa:[A!]! j:Int} type B implements I{id:ID i:I u:U b:String}
type C{c:Boolean d:Date id:ID} union U=A|B union V=B|C enum E{X Y} scalar Date input In{x:Int}
type Q{a:A b:B i:I u:U v:V n:Int! e:E l:[[A!]!] j:[J] none:None type:Int} type M{a:A m:Int} type S{a:A s:Int} type Query{x:Int}";

pub fn c10(rep: &mut Report) {
    let cx = ctx(FIELDS);
    let th = rep.thorough();
    let n = |q: usize, t: usize| if th { t } else { q };
    let k = n(4, 5);
    rep.explore("nested-selections", 0, |c, r| {
        let op = c.pick_str(&["", "mutation", "subscription"]);
        let mut b = k;
        let s = set(c, &mut b, 3, &["id", "a", "a{}", "i{}", "u{}", "b{}", "...{}", "...on A{}", "...on U{}", "j", "l{}"]);
        compare(r, &cx, &format!("{op}{s}"), &C10)
    });
    let k = n(3, 3);
    rep.explore("every-field-everywhere", 0, |c, r| {
        let mut b = k;
        let s = set(c, &mut b, 3, &[
            "id", "i", "i{}", "u", "u{}", "v{}", "a", "a{}", "b", "b{}", "c", "d", "d{}", "e", "e{}", "n", "n{}", "l", "l{}", "aa", "aa{}", "j", "j{}", "type", "x", "m", "s", "nope", "nope{}", "none{}", "__typename", "__typename{}",
            "__schema", "__schema{}", "__type(name:\"A\"){}", "__type{}", "...on Q{}", "...on A{}", "...on B{}", "...on C{}", "...on I{}", "...on J{}", "...on U{}", "...on V{}", "...on E{}", "...on In{}", "...on Nope{}",
            "...on Query{}", "...on M{}", "...{}", "z:id", "id:nope",
        ]);
        compare(r, &cx, &s, &C10)
    });
    rep.explore("fragments", 0, |c, r| {
        let t1 = c.pick_str(&["A", "B", "C", "I", "J", "U", "V", "Q", "M", "E", "In", "Date", "Nope", "Query", "__Type"]);
        let t2 = c.pick_str(&["A", "I", "U", "V", "E", "Nope"]);
        let items = ["id", "a", "b{}", "i{}", "...G", "__typename", "__schema{}", "...on B{}", "name", "fields{}", "x"];
        let mut b = 2;
        let f = set(c, &mut b, 2, &items);
        let mut b = 1;
        let g = set(c, &mut b, 1, &["id", "a", "b", "u{}", "c"]);
        compare(r, &cx, &format!("fragment F on {t1}{f} {{a{{...F}}}} fragment G on {t2}{g}"), &C10)
    });
    let k = n(3, 4);
    rep.explore("introspection", 0, |c, r| {
        let top = c.pick_str(&["", "mutation", "subscription"]);
        let mut b = k;
        let s = set(c, &mut b, 4, &[
            "__schema{}", "__type(name:\"A\"){}", "types{}", "queryType{}", "fields{}", "args{}", "type{}", "ofType{}", "possibleTypes{}", "interfaces{}", "inputFields{}", "enumValues{}", "directives{}", "kind", "kind{}",
            "name", "name{}", "description", "isDeprecated", "deprecationReason", "locations", "defaultValue", "isRepeatable", "specifiedByURL", "__typename", "a{}",
        ]);
        compare(r, &cx, &format!("{top}{s}"), &C10)
    });
    super::vgen::c10(rep);
    shared(rep, &C10);
}

const ARGS: &str = "directive@d(r:Int! o:Int rd:Int!=1)repeatable on QUERY|MUTATION|FIELD|FRAGMENT_DEFINITION|FRAGMENT_SPREAD|INLINE_FRAGMENT|VARIABLE_DEFINITION
directive@n repeatable on FIELD|VARIABLE_DEFINITION directive@two(x:Int! y:[Int!]! z:In!)repeatable on FIELD|VARIABLE_DEFINITION
type Query{f(r:Int! o:Int rd:Int!=1):Int two(x:Int! y:[Int!]! z:In!):Query none:Int opt(o:Int ol:[Int!]):Query q:Query} input In{r:Int!}";

fn arglist(c: &mut Ch, names: &[&str], vals: &[&str], max: usize) -> String {
    let mut v = vec![];
    for _ in 0..max {
        let k = c.pick(names.len() + 1);
        if k == 0 {
            break;
        }
        v.push(format!("{}:{}", names[k - 1], c.pick_str(vals)));
    }
    if v.is_empty() { String::new() } else { format!("({})", v.join(" ")) }
}

pub fn c11(rep: &mut Report) {
    let cx = ctx(ARGS);
    let th = rep.thorough();
    let n = |q: usize, t: usize| if th { t } else { q };
    let k = n(3, 4);
    rep.explore("field-arguments", 0, |c, r| {
        let f = c.pick_str(&["f", "none", "opt", "__typename", "nope", "__type"]);
        let sub = if f == "opt" || f == "__type" { "{__typename}" } else { "" };
        let a = arglist(c, &["r", "o", "rd", "zz", "name"], &["1", "null", "$v"], k);
        let (pre, post) = *c.pick_of(&[("query($v:Int)", ""), ("query($v:Int){q{q", "}}"), ("query($v:Int){...on Query", "}"), ("query($v:Int){...F} fragment F on Query", "")]);
        compare(r, &cx, &format!("{pre}{{{f}{a}{sub}}}{post}"), &C11)
    });
    rep.explore("two-fields", 0, |c, r| {
        let a = arglist(c, &["x", "y", "z", "w"], &["1", "null", "{}"], 3);
        let b = arglist(c, &["x", "y", "z"], &["1"], 3);
        compare(r, &cx, &format!("{{two{a}{{__typename}} k:two{b}{{none}}}}"), &C11)
    });
    rep.explore("directive-arguments", 0, |c, r| {
        let d = c.pick_str(&["d", "n", "nope", "skip", "include", "deprecated"]);
        let a = arglist(c, &["r", "o", "rd", "zz", "if"], &["1", "null"], k);
        let x = format!("@{d}{a}");
        let place = c.pick(9);
        let t = match place {
            0 => format!("query {x}{{none}}"),
            1 => format!("query($v:Int {x}){{opt(o:$v){{none}}}}"),
            2 => format!("{{none {x}}}"),
            3 => format!("{{...on Query {x}{{none}}}}"),
            4 => format!("{{...{x}{{none}}}}"),
            5 => format!("{{...F {x}}} fragment F on Query{{none}}"),
            6 => format!("{{...F}} fragment F on Query {x}{{none}}"),
            7 => format!("{{q{{none {x}}}}}"),
            _ => format!("{{none {x} @d(r:1) {x}}}"),
        };
        compare(r, &cx, &t, &C11)
    });
    rep.explore("several-required", 0, |c, r| {
        let a = arglist(c, &["x", "y", "z"], &["1", "[1]", "{r:1}"], 4);
        let t = match c.pick(3) {
            0 => format!("{{none @two{a}}}"),
            1 => format!("query($v:Int @two{a}){{opt(o:$v){{none}}}}"),
            _ => format!("{{two{a}{{none}}}}"),
        };
        compare(r, &cx, &t, &C11)
    });
    // a literal null for a required argument is reported as a value error
    rep.explore("null-for-required", 0, |c, r| {
        let mut rules = C11.to_vec();
        rules.extend(C12);
        let a = arglist(c, &["r", "o", "rd"], &["1", "null", "$v"], 3);
        let t = match c.pick(3) {
            0 => format!("query($v:Int!){{f{a}}}"),
            1 => format!("query($v:Int!){{none @d{a}}}"),
            _ => format!("query($w:Int @d{}){{opt(o:$w){{none}}}}", a.replace("$v", "2")),
        };
        compare(r, &cx, &t, &rules)
    });
    super::vgen::c11(rep);
    shared(rep, &C11);
}

pub const VALUES: &str = "enum E{X Y} scalar Any scalar Even scalar Two input In{r:Int! o:String d:Int!=3 n:In l:[In!] e:E! =X one:One any:Any nn:[[E]!] ev:Even tw:[Two!]} input One@oneOf{a:Int b:String n:In} input Opt{a:Int}
directive@v(Int:Int NInt:Int! LInt:[Int] NLNInt:[Int!]! LLInt:[[Int]] LNLInt:[[Int]!] Float:Float String:String Boolean:Boolean ID:ID E:E LE:[E!] In:In NIn:In! LIn:[In] LLIn:[[In!]!]! One:One LOne:[One!] Any:Any Opt:Opt LID:[ID!]! LOpt:[Opt] LAny:[Any!] NE:E! Even:Even LEven:[Even!]! Two:Two LTwo:[[Two]!])on FIELD|VARIABLE_DEFINITION
type Query{q:Int f(Int:Int NInt:Int! =1 LInt:[Int] NLNInt:[Int!]! =[] LLInt:[[Int]] LNLInt:[[Int]!] Float:Float String:String Boolean:Boolean ID:ID E:E LE:[E!] In:In NIn:In! ={} LIn:[In] LLIn:[[In!]!]! =[] One:One LOne:[One!] Any:Any Opt:Opt LID:[ID!]! =[] LOpt:[Opt] LAny:[Any!] NE:E! =X Even:Even LEven:[Even!]! =[] Two:Two LTwo:[[Two]!]):Int}";
pub const VTYPES: [(&str, &str); 27] = [
    ("Int", "Int"), ("NInt", "Int!"), ("LInt", "[Int]"), ("NLNInt", "[Int!]!"), ("LLInt", "[[Int]]"), ("LNLInt", "[[Int]!]"), ("Float", "Float"), ("String", "String"), ("Boolean", "Boolean"), ("ID", "ID"), ("E", "E"), ("LE", "[E!]"),
    ("In", "In"), ("NIn", "In!"), ("LIn", "[In]"), ("LLIn", "[[In!]!]!"), ("One", "One"), ("LOne", "[One!]"), ("Any", "Any"), ("Opt", "Opt"), ("LID", "[ID!]!"), ("LOpt", "[Opt]"), ("NE", "E!"),
    ("Even", "Even"), ("LEven", "[Even!]!"), ("Two", "Two"), ("LTwo", "[[Two]!]"),
];

/// values with at most `budget` nodes
pub fn value(c: &mut Ch, budget: &mut usize, atoms: &[&str], keys: &[&str]) -> String {
    *budget = budget.saturating_sub(1);
    let n = atoms.len() + if *budget > 0 { 2 } else { 0 };
    let k = c.pick(n);
    if k < atoms.len() {
        return atoms[k].to_string();
    }
    let mut out = vec![];
    if k == atoms.len() {
        while *budget > 0 && c.flip() {
            out.push(value(c, budget, atoms, keys));
        }
        format!("[{}]", out.join(","))
    } else {
        while *budget > 0 {
            let k = c.pick(keys.len() + 1);
            if k == 0 {
                break;
            }
            out.push(format!("{}:{}", keys[k - 1], value(c, budget, atoms, keys)));
        }
        format!("{{{}}}", out.join(","))
    }
}

fn value_positions(c: &mut Ch, name: &str, ty: &str, v: &str) -> String {
    let konst = v.contains('$');
    let vars = if konst { "query($v:Int)" } else { "" };
    match c.pick(if konst { 2 } else { 4 }) {
        0 => format!("{vars}{{f({name}:{v})}}"),
        1 => format!("{vars}{{q @v({name}:{v})}}"),
        2 => format!("query($v:{ty}={v}){{f({name}:$v)}}"),
        _ => format!("query($v:Int @v({name}:{v})){{f(Int:$v)}}"),
    }
}

pub fn c12(rep: &mut Report) {
    let cx = ctx(VALUES);
    let th = rep.thorough();
    let n = |q: usize, t: usize| if th { t } else { q };
    let k = n(3, 4);
    rep.explore("values-by-type", 0, |c, r| {
        let (name, ty) = *c.pick_of(&VTYPES);
        let mut b = k;
        let v = value(c, &mut b, &["1", "1.5", "\"X\"", "true", "null", "X", "Z", "$v", "{r:1}"], &["r", "a", "zz"]);
        compare(r, &cx, &value_positions(c, name, ty, &v), &C12)
    });
    let k = n(5, 6);
    rep.explore("lists", 0, |c, r| {
        let (name, ty) = *c.pick_of(&[("LInt", "[Int]"), ("NLNInt", "[Int!]!"), ("LLInt", "[[Int]]"), ("LNLInt", "[[Int]!]"), ("LE", "[E!]"), ("Int", "Int")]);
        let mut b = k;
        let v = value(c, &mut b, &["1", "null", "X"], &[]);
        compare(r, &cx, &value_positions(c, name, ty, &v), &C12)
    });
    let k = n(4, 5);
    rep.explore("custom-scalars", 0, |c, r| {
        let (name, ty) = *c.pick_of(&[("Even", "Even"), ("LEven", "[Even!]!"), ("Two", "Two"), ("LTwo", "[[Two]!]"), ("In", "In")]);
        let mut b = k;
        let v = value(c, &mut b, &["1", "2", "null", "\"ab\"", "$v"], &["ev", "tw"]);
        let v = if ty == "In" { v.replacen('{', "{r:1 ", 1) } else { v };
        compare(r, &cx, &value_positions(c, name, ty, &v), &C12)
    });
    let k = n(4, 5);
    rep.explore("input-objects", 0, |c, r| {
        let (name, ty) = *c.pick_of(&[("In", "In"), ("NIn", "In!"), ("LIn", "[In]"), ("Opt", "Opt"), ("LLIn", "[[In!]!]!")]);
        let mut b = k;
        let v = value(c, &mut b, &["1", "null", "\"s\"", "{r:1}"], &["r", "o", "d", "n", "l", "e", "a"]);
        compare(r, &cx, &value_positions(c, name, ty, &v), &C12)
    });
    rep.explore("one-of", 0, |c, r| {
        let (name, ty) = *c.pick_of(&[("One", "One"), ("LOne", "[One!]")]);
        let mut b = k;
        let v = value(c, &mut b, &["1", "null", "\"s\"", "$v"], &["a", "b", "n", "zz"]);
        compare(r, &cx, &value_positions(c, name, ty, &v), &C12)
    });
    rep.explore("nested-positions", 0, |c, r| {
        // one value at every nested place of a large literal
        let mut b = 2;
        let v = value(c, &mut b, &["1", "1.5", "\"s\"", "true", "null", "X", "Z", "2147483647", "0.0", "{r:1}", "{a:1}"], &["r", "a", "b"]);
        let holes = ["{r:#}", "{r:1,o:#}", "{r:1,d:#}", "{r:1,n:{r:#}}", "{r:1,l:[#]}", "{r:1,l:[{r:1},{r:#}]}", "{r:1,l:#}", "{r:1,e:#}", "{r:1,one:{a:#}}", "{r:1,one:#}", "{r:1,any:#}", "{r:1,any:[#,{x:#}]}", "{r:1,nn:[#]}", "{r:1,nn:[[#]]}", "{r:1,nn:#}", "{r:1,n:{r:1,n:{r:1,l:[{r:1,o:#}]}}}"];
        let h = c.pick_str(&holes).replace('#', &v);
        let (name, ty) = *c.pick_of(&[("In", "In"), ("NIn", "In!"), ("LIn", "[In]")]);
        compare(r, &cx, &value_positions(c, name, ty, &h), &C12)
    });
    rep.explore("several-values", 0, |c, r| {
        let mut out = vec![];
        for (name, _) in [VTYPES[0], VTYPES[2], VTYPES[10], VTYPES[12]] {
            let mut b = 2;
            out.push(format!("{name}:{}", value(c, &mut b, &["1", "X", "null"], &["r"])));
        }
        compare(r, &cx, &format!("{{f({}) ...on Query{{k:f({})}}}}", out.join(" "), out[2]), &C12)
    });
    super::vgen::c12(rep);
    shared(rep, &C12);
}

pub const VARS: &str = "enum E{X} scalar Any input In{r:Int! o:String d:Int!=3 dn:Int=null n:In l:[In!] ll:[[Int!]]} directive@d(i:Int ni:Int! =1 in:In)repeatable on QUERY|FIELD|FRAGMENT_DEFINITION|FRAGMENT_SPREAD|INLINE_FRAGMENT|VARIABLE_DEFINITION
interface I{f(Int:Int NInt:Int!):Int} union U=Query
type Query implements I{q:Query i:I u:U leaf:Int f(Int:Int NInt:Int! DInt:Int! =1 DNull:Int=null LInt:[Int] LNInt:[Int!] NLNInt:[Int!]! LLInt:[[Int]] NLL:[[Int!]!]! String:String ID:ID Float:Float E:E Any:Any In:In LIn:[In!] In2:[[In]] Boolean:Boolean):Int}";

pub fn c13(rep: &mut Report) {
    let cx = ctx(VARS);
    let th = rep.thorough();
    let n = |q: usize, t: usize| if th { t } else { q };
    rep.explore("definitions-and-uses", 0, |c, r| {
        let mut defs = vec![];
        for _ in 0..n(2, 3) {
            let k = c.pick(3);
            if k == 0 {
                break;
            }
            let t = c.pick_str(&["Int", "[Int!]!", "Query", "I", "U", "Nope", "In", "E", "Any", "[[Query]!]"]);
            let dflt = c.pick_str(&["", "=null"]);
            defs.push(format!("${}:{t}{dflt}", ["v", "w"][k - 1]));
        }
        let defs = if defs.is_empty() { String::new() } else { format!("({})", defs.join(" ")) };
        let uses = c.pick_str(&["leaf", "f(Int:$v)", "f(Int:$w)", "f(Int:$v LInt:$w)", "f(LInt:[1,$v])", "f(In:{r:$v n:{l:[{o:$w}]}})", "leaf @d(i:$v)", "...on Query@d(i:$w){leaf}", "q{q{f(Int:$v)}}", "f(Int:$x)", "nope(a:$v)", "f(nope:$v)", "leaf@nope(a:$v)", "f(Any:{x:[$v]})", "f(Int:{x:[$w]})"]);
        compare(r, &cx, &format!("query{defs}{{{uses}}}"), &C13)
    });
    rep.explore("operation-directives", 0, |c, r| {
        let d = c.pick_str(&["", "@d(i:$v)", "@d(i:$w)@d(i:$v)", "@d(in:{r:$v})"]);
        let vd = c.pick_str(&["", "@d(i:1)"]);
        let fd = c.pick_str(&["", "@d(i:$v)", "@d(ni:$w)"]);
        let sd = c.pick_str(&["", "@d(i:$v)", "@d(ni:$w)"]);
        let fu = c.flip();
        compare(r, &cx, &format!("query($v:Int{vd}){d}{{leaf ...F{sd}}} fragment F on Query{fd}{{leaf {}}} query B{{leaf}}", if fu { "f(Int:$w)" } else { "" }), &C13)
    });
    // which operation sees which fragment's variables
    rep.explore("through-fragments", 0, |c, r| {
        let parts = ["leaf", "f(Int:$v)", "f(Int:$w)", "...F", "...G", "...H", "q{...G}", "...on Query{...H}"];
        let mut body = |max: usize| {
            let mut out = vec![];
            for _ in 0..max {
                let k = c.pick(parts.len());
                if k == 0 {
                    break;
                }
                out.push(parts[k]);
            }
            if out.is_empty() { "leaf".into() } else { out.join(" ") }
        };
        let (a, b, f, g, h) = (body(2), body(1), body(2), body(1), body(1));
        let d1 = c.pick_str(&["", "($v:Int)", "($w:Int)", "($v:Int $w:Int)"]);
        let d2 = if th { c.pick_str(&["($v:Int)", ""]) } else { "($v:Int)" };
        compare(r, &cx, &format!("query A{d1}{{{a}}} query B{d2}{{{b}}} fragment F on Query{{{f}}} fragment G on Query{{{g}}} fragment H on I{{{}}}", h.replace("leaf", "__typename").replace("q{...G}", "...G")), &C13)
    });
    rep.explore("recursive-fragments", 0, |c, r| {
        let mut pick = |xs: &[&str]| c.pick_str(xs).to_string();
        let f = pick(&["f(Int:$v)", "...G", "...F", "...G f(Int:$w)", "q{...F}"]);
        let g = pick(&["f(Int:$v)", "...F", "...H", "...G", "...H f(Int:$w)"]);
        let h = pick(&["f(Int:$v)", "...F", "...G", "leaf"]);
        let a = pick(&["...F", "...G", "...H", "leaf", "...F ...H"]);
        let b = pick(&["...F", "...G", "...H", "leaf"]);
        let order = pick(&["0", "1"]);
        let ops = [format!("query A($v:Int){{{a}}}"), format!("query B($w:Int){{{b}}}")];
        let fr = [format!("fragment F on Query{{{f}}}"), format!("fragment G on Query{{{g}}}"), format!("fragment H on Query{{{h}}}")];
        let t = if order == "0" { format!("{} {} {} {} {}", ops[0], ops[1], fr[0], fr[1], fr[2]) } else { format!("{} {} {} {} {}", fr[2], ops[1], fr[1], ops[0], fr[0]) };
        compare(r, &cx, &t, &C13)
    });
    rep.explore("shorthand-and-kinds", 0, |c, r| {
        let ops = ["{f(Int:$v)}", "query{f(Int:$v)}", "query Q($v:Int){...F}", "query R($v:Int,$v:Int){f(Int:$v)}", "mutation($v:Int){f(Int:$v)}", "subscription S($v:Nope){leaf}", "query T($w:Int $v:Int $w:Int $w:In){f(Int:$w)}"];
        let a = c.pick_str(&ops);
        let b = c.pick_str(&ops);
        let cc = c.pick_str(&ops);
        compare(r, &cx, &format!("{a} {b} {cc} fragment F on Query{{f(Int:$v) q{{f(LInt:[$w])}}}}"), &C13)
    });
    super::vgen::c13(rep);
    shared(rep, &C13);
}

pub fn c14(rep: &mut Report) {
    let cx = ctx(VARS);
    let th = rep.thorough();
    let mut types: Vec<String> = vec![];
    for b in ["Int", "String", "In", "E"] {
        for t in ["T", "T!", "[T]", "[T!]", "[T]!", "[T!]!", "[[T]]", "[[T!]!]!", "[[T]!]"] {
            types.push(t.replace('T', b));
        }
    }
    types.extend(["Float", "ID", "Any", "Boolean!", "[[[Int]]]", "Query", "Nope!"].map(String::from));
    let args = ["Int", "NInt", "DInt", "DNull", "LInt", "LNInt", "NLNInt", "LLInt", "NLL", "String", "ID", "Float", "E", "Any", "In", "LIn", "In2"];
    let wraps = ["#", "[#]", "[[#]]", "[1,#,null]", "{r:#}", "{r:1,o:#}", "{r:1,d:#}", "{r:1,dn:#}", "{r:1,n:#}", "{r:1,n:{r:#}}", "{r:1,l:#}", "{r:1,l:[#]}", "{r:1,l:[{r:#}]}", "{r:1,l:{r:#}}", "{r:1,ll:[#]}", "{r:1,ll:[[#]]}", "{r:1,ll:#}", "[{r:#}]", "[[{r:#}]]", "{zz:#}", "[{r:1,l:[{r:1,d:#}]}]", "{x:[#]}"];
    let dflts = ["", "=null", "=1", "=[]", "=\"s\"", "={r:1}", "=X"];
    let (types, args, wraps, dflts) = (&types, &args, &wraps, &dflts);
    rep.explore("type-against-position", 0, |c, r| {
        let t = c.pick_of(types).clone();
        let d = c.pick_str(dflts);
        let a = c.pick_str(args);
        let w = c.pick_str(wraps).replace('#', "$v");
        compare(r, &cx, &format!("query($v:{t}{d}){{f({a}:{w})}}"), &C14)
    });
    rep.explore("directive-positions", 0, |c, r| {
        let t = c.pick_of(types).clone();
        let d = c.pick_str(&["", "=null", "=1"]);
        let a = c.pick_str(&["i:$v", "ni:$v", "in:$v", "in:{r:$v}", "i:[$v]", "zz:$v"]);
        let place = c.pick(7);
        let t = match place {
            0 => format!("query($v:{t}{d})@d({a}){{leaf}}"),
            1 => format!("query($v:{t}{d}){{leaf@d({a})}}"),
            2 => format!("query($v:{t}{d}){{...F@d({a})}} fragment F on Query{{leaf}}"),
            3 => format!("query($v:{t}{d}){{...F}} fragment F on Query@d({a}){{leaf}}"),
            4 => format!("query($v:{t}{d}){{...on Query@d({a}){{leaf}}}}"),
            5 => format!("query($v:{t}{d}){{q@skip(if:$v){{leaf@include(if:$v)}}}}"),
            _ => format!("query($v:{t}{d}){{q@d({a})@d(i:1)@d({a}){{leaf}}}}"),
        };
        compare(r, &cx, &t, &C14)
    });
    rep.explore("through-fragments", 0, |c, r| {
        let t1 = c.pick_str(&["Int", "Int!", "[Int]", "String", "In!"]);
        let t2 = c.pick_str(&["Int", "Int!=1", "[Int!]!", "String"]);
        let body = ["leaf", "f(NInt:$v)", "f(LInt:$v)", "f(In:{r:$w})", "...G", "q{...H}", "f(NInt:$v String:$w)"];
        let f = c.pick_str(&body);
        let g = c.pick_str(&body);
        let h = c.pick_str(&body);
        let a = c.pick_str(&["...F", "...G", "...F ...H", "q{...F}", "f(Int:$v)"]);
        let b = c.pick_str(&["...F", "...G ...F", "...H", "leaf"]);
        compare(r, &cx, &format!("query A($v:{t1} $w:{t2}){{{a}}} query B($v:{t2} $w:{t1}){{{b}}} fragment F on Query{{{f}}} fragment G on Query{{{g}}} fragment H on Query{{{h}}}"), &C14)
    });
    rep.explore("several-variables", 0, |c, r| {
        let ts = ["Int", "Int!", "[Int]", "String"];
        let (a, b) = (c.pick_str(&ts), c.pick_str(&ts));
        let pos = ["$v", "[$v,$w]", "[[$w],$v]", "{r:$v,o:$w,n:{r:$w,o:$v}}", "{l:[{r:$v},{r:$w}]}"];
        let x = c.pick_str(args);
        let v = c.pick_str(&pos);
        let y = c.pick_str(args);
        let w = c.pick_str(&pos);
        if x == y || (!th && y > x) {
            return r.skip();
        }
        compare(r, &cx, &format!("query($v:{a} $w:{b}){{f({x}:{v} {y}:{w})}}"), &C14)
    });
    super::vgen::c14(rep);
    shared(rep, &C14);
}

pub fn c15(rep: &mut Report) {
    let cx = ctx(FIELDS);
    let th = rep.thorough();
    rep.explore("spread-graphs", 0, |c, r| {
        // every directed graph over three fragments, and every subset spread by the operation
        let names = ["F", "G", "H", "Nope"];
        let mut body = |c: &mut Ch, k: usize| {
            let mut out = vec![];
            for n in names.iter().take(k) {
                match c.pick(3) {
                    0 => {}
                    1 => out.push(format!("...{n}")),
                    _ => out.push(format!("i{{...{n}}}")),
                }
            }
            if out.is_empty() { "id".into() } else { out.join(" ") }
        };
        let k = if th { 4 } else { 3 };
        let (f, g, h) = (body(c, k), body(c, 3), body(c, 3));
        let o = c.pick_str(&["...F", "...F ...G", "...Nope", "...on I{...H}", "id"]);
        compare(r, &cx, &format!("{{i{{{o}}}}} fragment F on I{{{f}}} fragment G on I{{{g}}} fragment H on I{{{h}}}"), &C15)
    });
    let types = ["A", "B", "C", "I", "J", "None", "U", "V", "Q", "M", "E", "In", "Date", "Nope", "Query", "__Type", "Int"];
    rep.explore("conditions-in-context", 0, |c, r| {
        let (open, close) = *c.pick_of(&[("a{", "}"), ("b{", "}"), ("i{", "}"), ("u{", "}"), ("v{", "}"), ("j{", "}"), ("l{", "}"), ("none{", "}"), ("", ""), ("a{aa{", "}}"), ("__schema{types{", "}}"), ("...{", "}"), ("i{...{", "}}"), ("n{", "}")]);
        let t = c.pick_str(&types);
        let u = c.pick_str(&types);
        let x = match c.pick(5) {
            0 => format!("{{{open}...on {t}{{__typename ...on {u}{{__typename}}}}{close}}}"),
            1 => format!("{{{open}...F{close}}} fragment F on {t}{{...on {u}{{__typename}}}}"),
            2 => format!("{{{open}...F ...on {u}{{...F}}{close}}} fragment F on {t}{{__typename}}"),
            3 => format!("{{{open}...F{close}}} fragment F on {t}{{...G}} fragment G on {u}{{__typename}}"),
            _ => format!("{{{open}...{{...F}}{close}}} fragment F on {t}{{__typename}} fragment G on {u}{{...F}}"),
        };
        compare(r, &cx, &x, &C15)
    });
    rep.explore("names", 0, |c, r| {
        let names = ["F", "G", "f", "FF"];
        let mut t = String::from("{a{");
        let k = 1 + c.pick(2);
        for _ in 0..k {
            t.push_str(&format!("...{} ", c.pick_str(&names)));
        }
        t.push_str("}}");
        for _ in 0..c.pick(if th { 5 } else { 4 }) {
            let ty = c.pick_str(&["A", "Nope", "E"]);
            let body = c.pick_str(&["id", "id ...G"]);
            t.push_str(&format!(" fragment {} on {ty}{{{body}}}", c.pick_str(&names[..3])));
        }
        // spreads among fragments that share a name are ambiguous; which one is meant is not specified
        let rules: Vec<&str> = C15.iter().copied().filter(|r| !["FragmentDefinitionUnused", "FragmentSpreadCycle", "FragmentSpreadIsNotPossible"].contains(r)).collect();
        compare(r, &cx, &t, &rules)
    });
    rep.explore("use", 0, |c, r| {
        let items = ["...F", "...G", "...H", "i{}", "...on A{}", "id", "...{}", "nope{}"];
        let mut b = 3;
        let o1 = set(c, &mut b, 2, &items);
        let mut b = 1;
        let f = set(c, &mut b, 1, &items);
        let g = c.pick_str(&["id", "...H", "...F", "...G"]);
        let h = c.pick_str(&["id", "...G", "...F"]);
        let head = c.pick_str(&["query A{i{id}} query B", "", "subscription X{a{id ...H}} mutation "]);
        compare(r, &cx, &format!("fragment F on I{f} fragment H on A{{{h}}} {head}{{i{o1}}} fragment G on I{{{g}}}"), &C15)
    });
    super::vgen::c15(rep);
    shared(rep, &C15);
}

pub const MERGES: &str = "interface I{f:Int g(x:Int y:In):Int s:String i:I n:I! l:[I] li:[Int] c:C e:E} interface J{f:Int! s:Int i:J} enum E{X} enum E2{X} input In{a:Int b:[Int]}
type A implements I&J{f:Int! g(x:Int y:In):Int s:String i:A n:A! l:[A] li:[Int] c:C e:E h:Int a:Int m:Int d:D}
type B implements I{f:Int g(x:Int y:In):Int s:String i:B n:I! l:[I] li:[Int] c:C e:E h:String a:Int! m:[Int] d:D2}
type C{f:Int s:String k:Int c:C x:A y:B e:E2 l:[C] n:C!} type D{z:Int} type D2{z:String} union U=A|B|C
type Query{i:I u:U a:A b:B c:C j:J f:Int g(x:Int y:In):Int}";

pub fn c16(rep: &mut Report) {
    let cx = ctx(MERGES);
    let th = rep.thorough();
    let n = |q: usize, t: usize| if th { t } else { q };
    let k = n(4, 5);
    rep.explore("aliases", 0, |c, r| {
        let top = c.pick_str(&["i", "u", "a"]);
        let mut b = k;
        let s = set(c, &mut b, 2, &["f", "f:s", "x:f", "x:s", "x:h", "...on A{}", "...on B{}", "...on I{}", "i{}", "i:c{}"]);
        compare(r, &cx, &format!("{{{top}{s}}}"), &C16)
    });
    rep.explore("shapes", 0, |c, r| {
        // two fields with the same response name on two types, side by side
        let fields = ["f", "g", "s", "i{}", "n{}", "l{}", "li", "c{}", "e", "h", "a", "m", "d{}", "k", "__typename", "g(x:1)", "x{}", "y{}"];
        let sub = ["f", "s", "z:f", "z:s", "z:__typename", "z", "c{f}", "f:s", "e"];
        let mut side = |c: &mut Ch| {
            let t = c.pick_str(&["A", "B", "C", "I", "J"]);
            let f = c.pick_str(&fields);
            let f = if f.contains("{}") { f.replace("{}", &format!("{{{}}}", c.pick_str(&sub))) } else { f.to_string() };
            (t, f)
        };
        let (t1, f1) = side(c);
        let (t2, f2) = side(c);
        let top = if th { c.pick_str(&["u", "i"]) } else { "u" };
        compare(r, &cx, &format!("{{{top}{{...on {t1}{{z:{f1}}} ...on {t2}{{z:{f2}}}}}}}"), &C16)
    });
    rep.explore("through-spreads", 0, |c, r| {
        let top = c.pick_str(&["i", "a", "u", "j", "b"]);
        let (tf, tg) = (c.pick_str(&["A", "B", "I", "J", "U"]), c.pick_str(&["A", "B", "I", "J", "C"]));
        let mut b = 2;
        let o = set(c, &mut b, 1, &["...F", "...G", "f", "x:s", "i{}"]);
        let mut b = 2;
        let f = set(c, &mut b, 1, &["...G", "f", "x:s", "x:f", "...on J{}", "i{}"]);
        let g = c.pick_str(&["f", "x:s", "x:f", "f:s", "i{x:f}", "i{f:s}", "...on B{x:f}"]);
        compare(r, &cx, &format!("{{{top}{o}}} fragment F on {tf}{f} fragment G on {tg}{{{g}}}"), &C16)
    });
    rep.explore("arguments", 0, |c, r| {
        let args = ["", "(x:1)", "(x:2)", "(x:1 y:{a:1})", "(y:{a:1} x:1)", "(y:{a:1,b:[1,2]})", "(y:{b:[1,2],a:1})", "(y:{b:[2,1],a:1})", "(x:null)", "(x:$v)", "(x:$w)", "(y:{a:$v})", "(y:{a:$w})", "(y:{a:$v,b:[1]})", "(y:$v)", "(y:{})", "(x:1,x:1)"];
        let a = c.pick_str(&args);
        let b = c.pick_str(&args);
        let (x, y) = *c.pick_of(&[("", ""), ("...on A{", "}"), ("...on B{", "}"), ("...on I{", "}"), ("...{", "}"), ("...{i{", "}}")]);
        let (p, q) = *c.pick_of(&[("", ""), ("...on A{", "}"), ("i{", "}"), ("...on J{i{", "}}")]);
        let d = c.pick_str(&["", "@skip(if:true)"]);
        if a.contains("x:1,x:1") || b.contains("x:1,x:1") {
            return r.skip();
        }
        compare(r, &cx, &format!("query($v:Int $w:Int){{i{{{x}g{a}{y} {p}g{b}{d}{q}}}}}"), &C16)
    });
    rep.explore("deep", 0, |c, r| {
        // the conflict is several levels below selections that merge
        let wrap = ["#", "i{#}", "c{#}", "...on A{#}", "...on B{#}", "...{#}", "n{#}"];
        let build = |c: &mut Ch, depth: usize| {
            let mut s = String::from("#");
            for _ in 0..depth {
                s = s.replace('#', c.pick_str(&wrap));
            }
            s
        };
        let d = 3;
        let l = build(c, d);
        let rr = build(c, d);
        let (x, y) = *c.pick_of(&[("f", "f"), ("x:f", "x:s"), ("f", "f:s"), ("e", "e"), ("i:f", "i{f}")]);
        compare(r, &cx, &format!("{{u{{{} {}}}}}", l.replace('#', x), rr.replace('#', y)), &C16)
    });
    rep.explore("three-way", 0, |c, r| {
        let part = ["...on A{z:f}", "...on B{z:f}", "...on C{z:f}", "...on A{z:h}", "...on B{z:h}", "...on A{z:s}", "...on C{z:s}", "...on I{z:s}", "...on J{z:f}", "...on J{z:s}", "...on B{z:a}", "...on A{z:a}", "...on A{z:i{q:f}}", "...on B{z:i{q:f}}", "...on I{z:i{q:s}}", "...on C{z:c{q:s}}", "...on I{z:n{q:f}}", "...on B{z:l{q:s}}"];
        let (a, b, d) = (c.pick_str(&part), c.pick_str(&part), c.pick_str(&part));
        let e = if th { c.pick_str(&part) } else { "" };
        compare(r, &cx, &format!("{{u{{{a} {b} {d} {e}}}}}"), &C16)
    });
    rep.explore("several-places", 0, |c, r| {
        let ok = ["a{f}", "a{f} a{s}", "a{f:s}", "a{x:f} a{x:f}"];
        let bad = ["a{x:f x:s}", "a{x:f} a{x:s}", "b:a{f} b{f}", "a{i{x:f}} a{i{x:g}}", "...on Query{a{f:s}} a{f}", "...F", "a{...G f:s}"];
        let mut parts: Vec<&str> = ok.to_vec();
        parts.extend(bad);
        let (x, y, z) = (c.pick_str(&parts), c.pick_str(&parts), c.pick_str(&parts));
        let kind = c.pick_str(&["query A", "mutation"]);
        compare(r, &cx, &format!("query B{{{x}}} {kind}{{{y}}} fragment F on Query{{{z}}} fragment G on A{{f}}"), &C16)
    });
    super::vgen::c16(rep);
    shared(rep, &C16);
}

pub fn c17(rep: &mut Report) {
    let locs = ["QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION"];
    let mut sdl = String::from("type Query{a(x:Int):Int q:Query} type Mutation{a(x:Int):Int q:Query} type Subscription{a(x:Int):Int q:Query} directive@none on OBJECT|SCHEMA directive@all on QUERY|MUTATION|SUBSCRIPTION|FIELD|FRAGMENT_DEFINITION|FRAGMENT_SPREAD|INLINE_FRAGMENT|VARIABLE_DEFINITION directive@rall repeatable on QUERY|MUTATION|SUBSCRIPTION|FIELD|FRAGMENT_DEFINITION|FRAGMENT_SPREAD|INLINE_FRAGMENT|VARIABLE_DEFINITION ");
    for l in locs {
        sdl.push_str(&format!("directive@only_{l} on {l} directive@rep_{l} repeatable on {l} "));
        let others: Vec<&str> = locs.iter().copied().filter(|x| *x != l).collect();
        sdl.push_str(&format!("directive@not_{l} on {} ", others.join("|")));
    }
    let cx = ctx(&sdl);
    let th = rep.thorough();
    let mut names: Vec<String> = vec!["none".into(), "all".into(), "rall".into(), "nope".into(), "skip(if:true)".into(), "include(if:true)".into(), "deprecated".into(), "specifiedBy".into(), "oneOf".into()];
    for l in locs {
        for p in ["only", "rep", "not"] {
            names.push(format!("{p}_{l}"));
        }
    }
    const TEMPLATE: [&str; 8] = [
        "query($v:Int)#{a(x:$v)}", "mutation#{a}", "subscription#{a}", "{a#}", "{...F} fragment F on Query#{a}", "{...F#} fragment F on Query{a}", "{...on Query#{a}}", "query($v:Int#){a(x:$v)}",
    ];
    const NESTED: [&str; 6] = ["{q{q{a#}}}", "{...#{a}}", "mutation{q{...on Query#{a}}}", "{...F} fragment F on Query{q{...F#}}", "mutation($v:Int#){a(x:$v)}", "subscription($v:Int $w:Int=1#){a(x:$v)}"];
    let names = &names;
    rep.explore("one-and-two-directives", 0, |c, r| {
        let k = c.pick(TEMPLATE.len() + NESTED.len());
        let t = if k < 8 { TEMPLATE[k] } else { NESTED[k - 8] };
        let a = c.pick_of(names);
        let b = match c.pick(names.len() + 1) {
            0 => String::new(),
            k => format!("@{}", names[k - 1]),
        };
        compare(r, &cx, &t.replace('#', &format!("@{a}{b}")), &C17)
    });
    rep.explore("repetition", 0, |c, r| {
        let k = c.pick(TEMPLATE.len() + NESTED.len());
        let t = if k < 8 { TEMPLATE[k] } else { NESTED[k - 8] };
        let ns = ["all", "rall", "nope", "skip(if:true)"];
        let mut ds = String::new();
        for _ in 0..if th { 6 } else { 5 } {
            let k = c.pick(ns.len() + 1);
            if k == 0 {
                break;
            }
            ds.push_str(&format!("@{}", ns[k - 1]));
        }
        compare(r, &cx, &t.replace('#', &ds), &C17)
    });
    rep.explore("at-every-place-at-once", if th { 4 } else { 3 }, |c, r| {
        let mut d = || c.dev_str(&["", "@all", "@all@all", "@rall@rall", "@none", "@nope", "@only_FIELD", "@skip(if:true)", "@only_VARIABLE_DEFINITION"]).to_string();
        let t = format!(
            "query A($v:Int{} $w:Int=1{}){}{{a(x:$v){} q{}{{...F{} ...on Query{}{{a(x:$w){}}}}} ...{}{{a}}}} mutation M{}{{a}} fragment F on Query{}{{a{}}}",
            d(), d(), d(), d(), d(), d(), d(), d(), d(), d(), d(), d()
        );
        compare(r, &cx, &t, &C17)
    });
    // the same directive at neighbouring places is not a repetition
    rep.explore("overridden-definitions", 0, |c, r| {
        let rep_ = c.pick_str(&["", " repeatable"]);
        let l1 = c.pick_str(&locs);
        let l2 = c.pick_str(&locs);
        let n = c.pick_str(&["skip", "deprecated", "mine"]);
        let a = if n == "skip" { "(if:Boolean!)" } else { "" };
        let cx = ctx(&format!("type Query{{a(x:Int):Int q:Query}} directive@{n}{a}{rep_} on {l1}|{l2}"));
        let u = if n == "skip" { "@skip(if:true)" } else { &format!("@{n}") };
        let t = c.pick_str(&["query#{a}", "{a#}", "{...F#} fragment F on Query{a}", "{...on Query#{a}}", "query($v:Int#){a(x:$v)}", "{...F} fragment F on Query#{a}"]);
        let k = c.pick_str(&["1", "2"]);
        let text = t.replace('#', &if k == "2" { format!("{u}{u}") } else { u.to_string() });
        if !r.case(format!("{}\n{text}", cx.sdl)) {
            return;
        }
        let want = crate::r::parse::exec(&text).unwrap();
        use bluejay_parser::ast::Parse;
        let doc = bluejay_parser::ast::executable::ExecutableDocument::parse(&text).unwrap();
        compare_parsed(r, &cx, &want, &doc, &C17)
    });
    super::vgen::c17(rep);
    shared(rep, &C17);
}

pub fn c18(rep: &mut Report) {
    let th = rep.thorough();
    let full = ctx("schema{query:Q mutation:M subscription:S} type Q{a:Int q:Q} type M{a:Int} type S{a:Int b:Int s:S} interface X{a:Int}");
    let only_q = ctx("type Query{a:Int}");
    let qs = ctx("type Query{a:Int} type Subscription{a:Int b:Int} type Mut{a:Int}");
    let named = ctx("schema{query:Mutation mutation:Query} type Query{a:Int} type Mutation{a:Int} type Subscription{a:Int}");
    let all = [&full, &only_q, &qs, &named];
    rep.explore("operation-lists", 0, |c, r| {
        let cx = *c.pick_of(&all);
        let ops = ["{a}", "query{a}", "query A{a}", "query B{a}", "mutation A{a}", "mutation{a}", "subscription A{a}", "subscription C{a}", "query a{a}"];
        let mut t = String::new();
        for i in 0..if th { 5 } else { 4 } {
            let k = c.pick(ops.len() + 1);
            if k == 0 {
                break;
            }
            if i > 0 {
                t.push(' ')
            }
            t.push_str(ops[k - 1]);
        }
        t.push_str(c.pick_str(&["", " fragment A on X{a}"]));
        if t.is_empty() {
            t.push_str("fragment A on X{a}");
        }
        let text = format!("{t}");
        if !r.case(format!("{}\n{text}", cx.sdl)) {
            return;
        }
        let want = crate::r::parse::exec(&text).unwrap();
        use bluejay_parser::ast::Parse;
        let doc = bluejay_parser::ast::executable::ExecutableDocument::parse(&text).unwrap();
        compare_parsed(r, cx, &want, &doc, &C18)
    });
    rep.explore("subscription-roots", 0, |c, r| {
        let items = ["a", "b", "x:a", "a:b", "__typename", "...on S{}", "...{}", "s{}", "...F", "...G"];
        let mut b = 3;
        let s = set(c, &mut b, 2, &items);
        let mut b = 2;
        let f = set(c, &mut b, 1, &["a", "b", "x:b", "s{}", "...G", "...on S{}"]);
        let g = c.pick_str(&["a", "b", "x:a", "a x:b"]);
        let name = c.pick_str(&["", " Z"]);
        compare(r, &full, &format!("subscription{name}{s} fragment F on S{f} fragment G on S{{{g}}}"), &C18)
    });
    rep.explore("subscriptions-among-others", 0, |c, r| {
        let subs = ["subscription A{a}", "subscription A{a b}", "subscription B{...F}", "subscription C{...G a}", "query D{a q{a}}", "mutation E{a x:a}", "subscription A{x:a ...on S{x:a}}"];
        let (x, y, z) = (c.pick_str(&subs), c.pick_str(&subs), c.pick_str(&subs));
        let f = c.pick_str(&["a", "a b", "...G", "s{a}"]);
        let g = c.pick_str(&["a", "b", "s{a b} a", "a @skip(if:true)"]);
        compare(r, &full, &format!("{x} {y} {z} fragment F on S{{{f}}} fragment G on S{{{g}}}"), &C18)
    });
    super::vgen::c18(rep);
    shared(rep, &C18);
}

/// One large valid document with many small mistakes to choose from; every validation property looks at it.
pub const MIXED: &str = "directive@d(r:Int! o:In)repeatable on QUERY|FIELD|FRAGMENT_SPREAD|INLINE_FRAGMENT|FRAGMENT_DEFINITION|VARIABLE_DEFINITION directive@u on FIELD|VARIABLE_DEFINITION
enum E{X Y} input In{r:Int! o:String l:[In!] e:E=X} input One@oneOf{a:Int b:Int} interface I{id:ID! i:I} interface K{id:ID!}
type A implements I{id:ID! i:I a(x:Int! y:In):Int e(e:E):E aa:[A!]} type B implements I&K{id:ID! i:I b(one:One):String} type C{c:Int} union U=A|C
type Query{i(id:ID! =1):I u:U a:A list(l:[[Int!]] in:In):[I!]!} type Mutation{a:A} type Subscription{a:A i:I}";
pub fn mixed_doc(c: &mut Ch) -> String {
    let mut d = |xs: &[&str]| c.dev_str(xs).to_string();
    let op1 = d(&["query One", "mutation One", "subscription One", "query Two", "query"]);
    let v1 = d(&["$v:Int!", "$v:Int", "$v:Int=1", "$v:String", "$v:[Int!]", "$v:U", "$v:Int! $v:Int!", "$z:Int! $v:Int!", "$v:Int!=null", "$v:Int!=\"s\""]);
    let w1 = d(&["$w:In={r:1}", "$w:In={}", "$w:In", "$w:[In!]", "$w:One", "$w:In={r:1,r:2}", "$w:In={r:1}@d(r:1)", "$w:In@u@u", "$w:In@skip(if:true)", "$w:In@d(r:null)"]);
    let od = d(&["", "@d(r:$v)", "@d", "@u", "@nope", "@d(r:1)@d(r:2)", "@d(r:1,r:2)", "@d(r:1,zz:1)"]);
    let s1 = d(&["i{id}", "i", "i(id:$v){id}", "i(id:null){id}", "i(id:1.5){id}", "i{id:i{id}}", "nope", "i(id:1){id @u @u}", "i@d(r:1 o:$w){id}", "i@skip(if:$v){id}", "a:i{id}", "i{id} i(id:2){id}", "__schema{types{name}}", "__typename"]);
    let s2 = d(&["u{...on A{a(x:$v y:$w)}}", "u{...on A{a(x:$v)}}", "u{...on B{id}}", "u{...on I{id}}", "u{...on K{id}}", "u{id}", "u{...on C{c}...on A{c:id}}", "u{...on Nope{id}}", "u{...on E{id}}", "u{...on A{a(x:1,x:2 y:$w)}}", "u{...on A{a(y:{r:$v,o:1}) e(e:Z)}}", "u{...on A{e(e:\"X\") a(x:$v y:{r:1 l:[$w]})}}", "u{...on A{...on I{...on B{id}}}}", "u"]);
    let s3 = d(&["...F", "...F@d(r:1)", "...Nope", "...G", "...F@skip(if:true)@include(if:false)", "...F@u", "...on Query{...F}", "a{...F}"]);
    let s4 = d(&["list(l:[[1]]){id}", "list(l:1){id}", "list(l:[1]){id}", "list(l:[[null]]){id}", "list(l:[$v]){id}", "list(l:[[$v]] in:$w){id}", "list{...on B{b(one:{a:1})}}", "list{...on B{b(one:{a:1 b:2})}}", "list{...on B{b(one:{})}}", "list(in:{r:1 l:{r:$v}}){id}", "list{a}", "list(nope:1){id}"]);
    let ft = d(&["Query", "A", "I", "Nope", "E", "U", "Mutation"]);
    let f = d(&["a{id ...G}", "a{id} ...F", "a{i{...G}}", "a{a(x:$v)}", "a{id} u{...on A{a(x:$x y:$w)}}", "a{x:id} a{x:e}", "i{id} i(id:3){id}", "a{aa{aa{...G}}}"]);
    let gt = d(&["A", "I", "B", "C"]);
    let g = d(&["id", "i{id}", "i{...G}", "id:e", "id @d(r:$v)", "a(x:$v y:{r:$v})", "...F"]);
    let rest = d(&["", " query Two{a{id}}", " {a{id}}", " query One{a{id}}", " subscription S{a{id} i{id}}", " subscription S($v:Int!){...on Subscription{a{...G}}}", " fragment H on A{id}", " fragment F on Query{a{id}}", " mutation M($v:Int){a{a(x:$v)}}"]);
    let fd = d(&["", "@d(r:1)", "@u", "@d(r:$v)"]);
    format!("{op1}({v1} {w1}){od}{{{s1} {s2} {s3} {s4} q:list(in:$w l:[[$v]]){{id}}}} fragment F on {ft}{fd}{{{f}}} fragment G on {gt}{{{g}}}{rest}")
}
pub fn shared(rep: &mut Report, rules: &[&str]) {
    super::scale::validation(rep, rules);
    let cx = ctx(MIXED);
    let b = rep.b(2, 3);
    rep.explore("mixed-mistakes", b, |c, r| {
        let t = mixed_doc(c);
        let dup = t.matches("fragment F ").count() > 1 || t.contains("$v:Int! $v:Int!");
        let rules: Vec<&str> = if dup {
            // names defined twice make the other rules ambiguous
            rules.iter().copied().filter(|r| ["NonUniqueFragmentDefinitionNames", "NonUniqueVariableDefinitionNames", "NonUniqueArgumentNames"].contains(r) || C17.contains(r) || C10.contains(r)).collect()
        } else {
            rules.to_vec()
        };
        if rules.is_empty() {
            return r.skip();
        }
        compare(r, &cx, &t, &rules)
    });
}
