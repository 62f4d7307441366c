//! C31: the types generated for a schema and its queries accept exactly the responses and inputs of the schema.
use crate::engine::{Ch, Report, Run};
use crate::r::ast::*;
use crate::r::parse;
use crate::r::schema::Schema;
use crate::tg::build::{self, op_rust_name, Answer, Built};
use crate::tg::{norm, programs, Codec, Prog};
use std::collections::BTreeMap;

/// JSON kept in order
#[derive(Clone, Debug, PartialEq)]
enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    List(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    fn show(&self) -> String {
        match self {
            J::Null => "null".into(),
            J::Bool(b) => b.to_string(),
            J::Num(n) => n.clone(),
            J::Str(s) => serde_json::to_string(s).unwrap(),
            J::List(l) => format!("[{}]", l.iter().map(J::show).collect::<Vec<_>>().join(",")),
            J::Obj(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{}:{}", serde_json::to_string(k).unwrap(), v.show())).collect::<Vec<_>>().join(",")),
        }
    }
    fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|e| e.0 == k).map(|e| &e.1),
            _ => None,
        }
    }
}

/// What a generated value holds, read from its `Debug` form; names up to Rust spelling.
#[derive(Clone, PartialEq)]
enum T {
    Struct(String, BTreeMap<String, T>),
    Some(Box<T>),
    Unit(String),
    List(Vec<T>),
    Str(String),
    Num(f64),
}
impl std::fmt::Debug for T {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            T::Struct(n, m) => write!(f, "{n}{m:?}"),
            T::Some(t) => write!(f, "Some({t:?})"),
            T::Unit(s) => write!(f, "{s}"),
            T::List(l) => write!(f, "{l:?}"),
            T::Str(s) => write!(f, "{s:?}"),
            T::Num(n) => write!(f, "{n}"),
        }
    }
}
struct Dbg<'a>(&'a str);
impl Dbg<'_> {
    fn ws(&mut self) {
        self.0 = self.0.trim_start()
    }
    fn eat(&mut self, s: &str) -> bool {
        self.ws();
        if let Some(r) = self.0.strip_prefix(s) {
            self.0 = r;
            true
        } else {
            false
        }
    }
    fn ident(&mut self) -> String {
        self.ws();
        let n = self.0.find(|c: char| !(c.is_alphanumeric() || c == '_' || c == '#')).unwrap_or(self.0.len());
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_string()
    }
    fn value(&mut self) -> T {
        self.ws();
        let c = self.0.chars().next().expect("harness: empty debug text");
        if c == '"' {
            let mut out = String::new();
            let mut it = self.0.char_indices().skip(1);
            while let Some((i, c)) = it.next() {
                match c {
                    '"' => {
                        self.0 = &self.0[i + 1..];
                        return T::Str(out);
                    }
                    '\\' => match it.next().unwrap().1 {
                        'n' => out.push('\n'),
                        't' => out.push('\t'),
                        'r' => out.push('\r'),
                        '0' => out.push('\0'),
                        'u' => {
                            let mut h = String::new();
                            it.next();
                            for (_, c) in it.by_ref() {
                                if c == '}' {
                                    break;
                                }
                                h.push(c)
                            }
                            out.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
                        }
                        c => out.push(c),
                    },
                    c => out.push(c),
                }
            }
            panic!("harness: unterminated debug string")
        }
        if c == '[' {
            self.eat("[");
            let mut l = vec![];
            while !self.eat("]") {
                l.push(self.value());
                self.eat(",");
            }
            return T::List(l);
        }
        if c == '-' || c.is_ascii_digit() {
            let n = self.0.find(|c: char| !(c.is_ascii_alphanumeric() || "+-.".contains(c))).unwrap_or(self.0.len());
            let (a, b) = self.0.split_at(n);
            self.0 = b;
            return T::Num(a.parse().expect("harness: number"));
        }
        let name = self.ident();
        if self.eat("(") {
            let v = self.value();
            self.eat(",");
            assert!(self.eat(")"), "harness: debug tuple");
            return if name == "Some" { T::Some(Box::new(v)) } else { v };
        }
        if self.eat("{") {
            let mut m = BTreeMap::new();
            while !self.eat("}") {
                let k = norm(&self.ident());
                assert!(self.eat(":"), "harness: debug struct");
                let v = self.value();
                m.insert(k, v);
                self.eat(",");
            }
            return T::Struct(norm(&name), m);
        }
        T::Unit(norm(&name))
    }
}

// ---- the reference: what a response means ----
enum Shape {
    Leaf(String),
    Struct(Vec<(String, Ty, Shape)>),
    Enum(Vec<(String, Vec<(String, Ty, Shape)>)>),
}
struct Q<'a> {
    s: &'a Schema,
    frags: &'a [Frag],
}
impl<'a> Q<'a> {
    fn frag(&self, n: &str) -> &'a Frag {
        self.frags.iter().find(|f| f.name == n).expect("harness: fragment")
    }
    fn fields(&self, sels: &[Sel], ty: &str) -> Vec<(String, Ty, Shape)> {
        sels.iter()
            .filter_map(|x| match x {
                Sel::Field(f) => {
                    let d = self.s.field(ty, &f.name).expect("harness: field");
                    Some((f.key().to_string(), d.ty.clone(), self.shape(f.sels.as_deref().unwrap_or(&[]), d.ty.base())))
                }
                _ => None,
            })
            .collect()
    }
    fn shape(&self, sels: &[Sel], ty: &str) -> Shape {
        if let [Sel::Spread { name, .. }] = sels {
            let f = self.frag(name);
            return self.shape(&f.sels, &f.on);
        }
        match self.s.kind(ty) {
            Some(Kind::Union { .. }) => Shape::Enum(
                sels.iter()
                    .filter_map(|x| match x {
                        Sel::Inline { on: Some(on), sels, .. } => Some((on.clone(), self.fields(sels, on))),
                        _ => None,
                    })
                    .collect(),
            ),
            Some(Kind::Object { .. } | Kind::Interface { .. }) => Shape::Struct(self.fields(sels, ty)),
            _ => Shape::Leaf(ty.to_string()),
        }
    }
    /// fields a server returns for an object of type `concrete`
    fn collect<'x>(&'x self, sels: &'x [Sel], concrete: &str, out: &mut Vec<&'x Fld>) {
        for x in sels {
            match x {
                Sel::Field(f) => {
                    if !out.iter().any(|o| o.key() == f.key()) {
                        out.push(f)
                    }
                }
                Sel::Spread { name, .. } => {
                    let f = self.frag(name);
                    if self.s.possible(&f.on).contains(concrete) {
                        self.collect(&f.sels, concrete, out)
                    }
                }
                Sel::Inline { on, sels, .. } => {
                    if on.as_ref().map_or(true, |on| self.s.possible(on).contains(concrete)) {
                        self.collect(sels, concrete, out)
                    }
                }
            }
        }
    }
}

fn expected(sh: &Shape, ty: &Ty, j: &J, s: &Schema) -> T {
    if !ty.required() {
        return if *j == J::Null { T::Unit("none".into()) } else { T::Some(Box::new(expected_nn(sh, ty, j, s))) };
    }
    expected_nn(sh, ty, j, s)
}
fn expected_nn(sh: &Shape, ty: &Ty, j: &J, s: &Schema) -> T {
    match (ty, j) {
        (Ty::List(t, _), J::List(l)) => T::List(l.iter().map(|x| expected(sh, t, x, s)).collect()),
        (Ty::List(..), _) => panic!("harness: list expected"),
        (Ty::Named(..), j) => base(sh, j, s),
    }
}
fn members(fs: &[(String, Ty, Shape)], j: &J, s: &Schema) -> BTreeMap<String, T> {
    fs.iter().map(|(k, t, sh)| (norm(k), expected(sh, t, j.get(k).unwrap_or_else(|| panic!("harness: no {k}")), s))).collect()
}
fn base(sh: &Shape, j: &J, s: &Schema) -> T {
    match (sh, j) {
        (Shape::Leaf(n), J::Str(v)) => match s.kind(n) {
            Some(Kind::Enum { values }) => T::Unit(if values.iter().any(|x| x.name == *v) { norm(v) } else { "other".into() }),
            _ => T::Str(v.clone()),
        },
        (Shape::Leaf(_), J::Num(n)) => T::Num(n.parse().unwrap()),
        (Shape::Leaf(_), J::Bool(b)) => T::Unit(b.to_string()),
        (Shape::Struct(fs), j) => T::Struct(String::new(), members(fs, j, s)),
        (Shape::Enum(vs), j) => {
            let Some(J::Str(t)) = j.get("__typename") else { panic!("harness: no typename") };
            match vs.iter().find(|v| v.0 == *t) {
                Some((n, fs)) => T::Struct(norm(n), members(fs, j, s)),
                None => T::Unit("other".into()),
            }
        }
        _ => panic!("harness: response shape"),
    }
}
/// forget the names of structs (the path pattern is checked by the generated code itself); an empty name matches any
fn same(e: &T, g: &T) -> bool {
    match (e, g) {
        (T::Struct(a, x), T::Struct(b, y)) => (a.is_empty() || a == b) && x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w))),
        (T::Some(a), T::Some(b)) => same(a, b),
        (T::List(a), T::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (a, b) => a == b,
    }
}

// ---- enumeration of responses ----
#[derive(Default)]
struct St {
    bad: Vec<String>,
    free: bool,
}
fn leaf(ch: &mut Ch, st: &mut St, n: &str, s: &Schema) -> J {
    let (num, str_) = (|x: &str| J::Num(x.into()), |x: &str| J::Str(x.into()));
    let (good, wrong): (Vec<J>, Vec<J>) = match n {
        "Int" => (
            ["7", "-1", "2147483647", "-2147483648", "0"].map(num).to_vec(),
            vec![str_("7"), num("1.5"), J::Bool(true), J::Obj(vec![]), J::List(vec![num("7")]), num("2147483648")],
        ),
        "Float" => (["1.5", "-2", "1e3", "0.1", "9007199254740991"].map(num).to_vec(), vec![str_("1.5"), J::Bool(true), J::Obj(vec![]), J::List(vec![num("1.5")])]),
        "Boolean" => (vec![J::Bool(true), J::Bool(false)], vec![num("0"), str_("true"), J::Obj(vec![])]),
        "String" | "ID" | "Text" => (vec![str_("abc"), str_(""), str_("é\u{1F600}"), str_("a\"b\\c\n")], vec![num("1"), J::Bool(true), J::Obj(vec![]), J::List(vec![str_("a")])]),
        "Big" => (["7", "4294967295"].map(num).to_vec(), vec![]),
        n => match s.kind(n) {
            Some(Kind::Enum { values }) => (
                values.iter().map(|v| str_(&v.name)).chain([str_("LATER_ADDED")]).collect(),
                vec![J::Bool(true), J::Obj(vec![]), J::List(vec![str_(&values[0].name)])],
            ),
            _ => panic!("harness: leaf {n}"),
        },
    };
    let i = ch.dev(good.len() + wrong.len());
    if i < good.len() {
        return good[i].clone();
    }
    st.bad.push(format!("{n} given {}", wrong[i - good.len()].show()));
    wrong[i - good.len()].clone()
}
fn gen(ch: &mut Ch, st: &mut St, q: &Q, ty: &Ty, sels: &[Sel]) -> J {
    match ty {
        Ty::List(t, r) => match ch.dev(6) {
            0 => J::List(vec![gen(ch, st, q, t, sels)]),
            1 => J::List(vec![]),
            2 => J::List(vec![gen(ch, st, q, t, sels), gen(ch, st, q, t, sels)]),
            3 => {
                if *r {
                    st.bad.push("null for a non-null list".into())
                }
                J::Null
            }
            4 => {
                st.bad.push("a string for a list".into());
                J::Str("x".into())
            }
            _ => {
                st.bad.push("an object for a list".into());
                J::Obj(vec![])
            }
        },
        Ty::Named(n, r) => {
            if ch.dev_flip() {
                if *r {
                    st.bad.push(format!("null for {n}!"))
                }
                return J::Null;
            }
            if q.s.composite(n) {
                composite(ch, st, q, n, sels, true)
            } else {
                leaf(ch, st, n, q.s)
            }
        }
    }
}
/// does the generated type of this selection hold a tagged union?
fn unionish(q: &Q, n: &str, sels: &[Sel]) -> bool {
    matches!(q.shape(sels, n), Shape::Enum(_))
}
fn composite(ch: &mut Ch, st: &mut St, q: &Q, n: &str, sels: &[Sel], deviate: bool) -> J {
    if deviate {
        let wrong = [J::Str("x".into()), J::Num("1".into()), J::Bool(true), J::List(vec![])];
        let i = ch.dev(wrong.len() + 1);
        if i > 0 {
            st.bad.push(format!("{} for an object", wrong[i - 1].show()));
            return wrong[i - 1].clone();
        }
    }
    let poss: Vec<String> = q.s.possible(n).into_iter().collect();
    let un = unionish(q, n, sels);
    let later = un && matches!(q.s.kind(n), Some(Kind::Union { .. } | Kind::Interface { .. }));
    let i = ch.dev(poss.len() + later as usize);
    if i == poss.len() {
        return J::Obj(vec![("__typename".into(), J::Str("LaterAdded".into()))]);
    }
    let conc = &poss[i];
    let mut fs = vec![];
    q.collect(sels, conc, &mut fs);
    let mut out = vec![];
    let Shape::Enum(vs) = q.shape(sels, n) else { return object(ch, st, q, conc, &fs, false, out) };
    let covered = vs.iter().any(|v| v.0 == *conc);
    if !covered {
        out.push(("__typename".to_string(), J::Str(conc.clone())));
        return J::Obj(out);
    }
    object(ch, st, q, conc, &fs, true, out)
}
fn object(ch: &mut Ch, st: &mut St, q: &Q, conc: &str, fs: &[&Fld], un: bool, mut out: Vec<(String, J)>) -> J {
    // a key may be left out, or all given in another order
    let missing = ch.dev(fs.len() + 2);
    for (i, f) in fs.iter().enumerate() {
        let d = q.s.field(conc, &f.name).expect("harness: field");
        if i + 1 == missing {
            if d.ty.required() {
                st.bad.push(format!("no {}", f.key()))
            } else {
                st.free = true
            }
            continue;
        }
        let v = if f.name == "__typename" {
            if un {
                // other values of the tag are other variants
                let wrong = [J::Null, J::Obj(vec![]), J::Bool(true)];
                match ch.dev(wrong.len() + 1) {
                    0 => J::Str(conc.to_string()),
                    k => {
                        st.bad.push(format!("__typename given {}", wrong[k - 1].show()));
                        wrong[k - 1].clone()
                    }
                }
            } else if ch.dev_flip() {
                st.bad.push("null for __typename".into());
                J::Null
            } else {
                J::Str(conc.to_string())
            }
        } else {
            gen(ch, st, q, &d.ty, f.sels.as_deref().unwrap_or(&[]))
        };
        out.push((f.key().to_string(), v));
    }
    if missing == fs.len() + 1 {
        let keep = out.iter().take_while(|e| un && e.0 == "__typename").count();
        out[keep..].reverse();
    }
    J::Obj(out)
}

// ---- enumeration of inputs ----
fn input(ch: &mut Ch, st: &mut St, s: &Schema, ty: &Ty, depth: u32) -> J {
    match ty {
        Ty::List(t, r) => {
            let n = if depth == 0 { 1 } else { 0 };
            match if n == 1 { 1 } else { ch.dev(5) } {
                0 => J::List(vec![input(ch, st, s, t, depth)]),
                1 => J::List(vec![]),
                2 => J::List(vec![input(ch, st, s, t, depth), input(ch, st, s, t, depth)]),
                3 => {
                    if *r {
                        st.bad.push("null for a non-null list".into())
                    }
                    J::Null
                }
                _ => {
                    st.bad.push("no list".into());
                    J::Bool(true)
                }
            }
        }
        Ty::Named(n, r) => {
            let inp = matches!(s.kind(n), Some(Kind::Input { .. }));
            if inp && depth == 0 {
                if *r {
                    st.free = true
                }
                return J::Null;
            }
            if ch.dev_flip() {
                if *r {
                    st.bad.push(format!("null for {n}!"))
                }
                return J::Null;
            }
            if inp {
                return input_object(ch, st, s, n, depth - 1);
            }
            let (num, str_) = (|x: &str| J::Num(x.into()), |x: &str| J::Str(x.into()));
            let (good, wrong): (Vec<J>, Vec<J>) = match n.as_str() {
                "Int" => (vec![num("7"), num("-2147483648")], vec![str_("7"), J::List(vec![num("7")])]),
                "Float" => (vec![num("1.5"), num("-2")], vec![str_("1.5")]),
                "Boolean" => (vec![J::Bool(true), J::Bool(false)], vec![num("1")]),
                "String" | "ID" | "Text" => (vec![str_("abc"), str_("é\"\\\n")], vec![num("1"), J::List(vec![str_("a")])]),
                "Big" => (vec![num("4294967295")], vec![]),
                n => match s.kind(n) {
                    Some(Kind::Enum { values }) => (values.iter().map(|v| str_(&v.name)).collect(), vec![str_("LATER_ADDED"), num("0")]),
                    _ => panic!("harness: input leaf {n}"),
                },
            };
            let i = ch.dev(good.len() + wrong.len());
            if i < good.len() {
                return good[i].clone();
            }
            st.bad.push(format!("{n} given {}", wrong[i - good.len()].show()));
            wrong[i - good.len()].clone()
        }
    }
}
fn input_object(ch: &mut Ch, st: &mut St, s: &Schema, n: &str, depth: u32) -> J {
    let fs = s.input_fields(n);
    if s.one_of(n) {
        let f = ch.pick_of(fs);
        let v = input(ch, st, s, &required(&f.ty), depth);
        return J::Obj(vec![(f.name.clone(), v)]);
    }
    J::Obj(
        fs.iter()
            .map(|f| {
                let n = st.bad.len();
                let v = input(ch, st, s, &f.ty, depth);
                // a required field with a default value may be left to its default
                if f.default.is_some() && v == J::Null {
                    st.bad.truncate(n);
                }
                (f.name.clone(), v)
            })
            .collect(),
    )
}
fn required(t: &Ty) -> Ty {
    match t {
        Ty::Named(n, _) => Ty::Named(n.clone(), true),
        Ty::List(t, _) => Ty::List(t.clone(), true),
    }
}
/// what a serialised input must look like
fn serialised(s: &Schema, ty: &Ty, want: &J, got: &serde_json::Value) -> Result<(), String> {
    use serde_json::Value as V;
    let no = || Err(format!("expected {} got {got}", want.show()));
    match (want, got) {
        (J::Null, V::Null) => Ok(()),
        (J::Bool(a), V::Bool(b)) if a == b => Ok(()),
        (J::Str(a), V::String(b)) if a == b => Ok(()),
        (J::Num(a), V::Number(b)) if a.parse::<f64>().ok() == b.as_f64() => Ok(()),
        (J::List(a), V::Array(b)) if a.len() == b.len() => {
            let Ty::List(t, _) = ty else { return no() };
            a.iter().zip(b).try_for_each(|(x, y)| serialised(s, t, x, y))
        }
        (J::Obj(a), V::Object(b)) => {
            if let Some(k) = b.keys().find(|k| !a.iter().any(|e| e.0 == **k)) {
                return Err(format!("unexpected key {k}"));
            }
            a.iter().try_for_each(|(k, x)| {
                let f = s.input_fields(ty.base()).iter().find(|f| f.name == *k).expect("harness: input field");
                match (x, b.get(k)) {
                    (J::Null, None) => Ok(()),
                    (J::Null, Some(V::Null)) if f.ty.required() => Err(format!("{k}: null for the required type {}", f.ty.show())),
                    (_, None) => Err(format!("no key {k}")),
                    (x, Some(y)) => serialised(s, &f.ty, x, y).map_err(|e| format!("{k}: {e}")),
                }
            })
        }
        _ => no(),
    }
}

struct World {
    progs: Vec<Prog>,
    built: Built,
    schemas: Vec<Schema>,
    docs: Vec<Vec<ExecDoc>>,
}

fn first_lines(m: &str) -> String {
    m.lines().take(14).collect::<Vec<_>>().join("\n")
}

fn judge(run: &mut Run, st: &St, a: Answer, want: impl FnOnce() -> T) {
    match (st.bad.is_empty(), st.free, a) {
        (_, _, Answer::Panic(m)) => run.fail(format!("panic: {m}")),
        (_, _, Answer::Missing) => run.fail("harness: no such generated type"),
        (false, _, Answer::Done(d)) => run.fail(format!("accepted although {}: {d}", st.bad.join(", "))),
        (false, _, Answer::Refused(_)) => run.outcome("refused"),
        (true, true, _) => run.outcome("unspecified"),
        (true, false, Answer::Refused(m)) => run.fail(format!("refused a response of the schema: {m}")),
        (true, false, Answer::Done(d)) => {
            let got = Dbg(&d).value();
            let want = want();
            run.outcome("accepted");
            run.check(same(&want, &got), || format!("expected {want:?} got {got:?}"));
        }
    }
}

fn responses(rep: &mut Report, w: &World, space: &str, prefix: &str, bound: u32) {
    let ops: Vec<(usize, usize, usize)> = (0..w.progs.len())
        .filter(|p| w.progs[*p].name.starts_with(prefix) && !w.built.failed.contains_key(p))
        .flat_map(|p| (0..w.docs[p].len()).flat_map(move |d| (0..w.docs[p][d].ops.len()).map(move |o| (p, d, o))))
        .collect();
    if ops.is_empty() {
        return;
    }
    rep.explore(space, bound, |ch, run| {
        let (p, d, o) = *ch.pick_of(&ops);
        let (s, doc) = (&w.schemas[p], &w.docs[p][d]);
        let op = &doc.ops[o];
        let q = Q { s, frags: &doc.frags };
        let root = s.root(op.kind).expect("harness: root");
        let mut st = St::default();
        let j = composite(ch, &mut st, &q, root, &op.sels, true);
        if !run.case(format!("{}\n{}\n{}", w.progs[p].name, crate::r::ast::op(op), j.show())) {
            return;
        }
        let a = w.built.call(p, 0, d, &op_rust_name(op), &j.show());
        let st2 = &st;
        judge(run, st2, a, || base(&q.shape(&op.sels, root), &j, s));
    });
}

/// selections left when the condition holds, or all of them, without directives
fn without(sels: &[Sel], skip: bool) -> Vec<Sel> {
    let mut out = vec![];
    for x in sels {
        let mut x = x.clone();
        let (dirs, sub) = match &mut x {
            Sel::Field(f) => (&mut f.dirs, f.sels.as_mut()),
            Sel::Spread { dirs, .. } => (dirs, None),
            Sel::Inline { dirs, sels, .. } => (dirs, Some(sels)),
        };
        if skip && !dirs.is_empty() {
            continue;
        }
        dirs.clear();
        if let Some(sub) = sub {
            *sub = without(sub, skip);
        }
        out.push(x);
    }
    out
}

pub fn c31(rep: &mut Report) {
    let progs = programs::all(rep.thorough());
    let built = build::build("generated", &progs);
    let modules = programs::modules(rep.thorough());
    let texts: Vec<String> = modules.iter().map(|m| m.text.clone()).collect();
    let verdicts = build::verdicts("modules", &texts);
    rep.deadline = std::time::Instant::now() + std::time::Duration::from_secs(if rep.thorough() { 560 } else { 240 });
    let schemas = progs.iter().map(|p| Schema::from_sdl(&p.sdl)).collect();
    let docs = progs.iter().map(|p| p.docs.iter().map(|d| parse::exec(d).expect("harness: query")).collect()).collect();
    let w = World { progs, built, schemas, docs };
    let w = &w;
    rep.explore("programs", 0, |ch, run| {
        let i = ch.pick(w.progs.len());
        if !run.case(w.progs[i].text()) {
            return;
        }
        run.outcome("compiles");
        run.check(!w.built.failed.contains_key(&i), || format!("the generated types do not compile:\n{}", first_lines(&w.built.failed[&i])));
    });
    let (modules, verdicts) = (&modules, &verdicts);
    rep.explore("modules", 0, |ch, run| {
        let i = ch.pick(modules.len());
        let m = &modules[i];
        if !run.case(m.case.clone()) {
            return;
        }
        match &verdicts[i] {
            None => {
                run.outcome("compiles");
                run.check(m.supported, || "compiles although it is invalid or outside of what is supported".to_string());
            }
            Some(e) => {
                run.outcome("refused");
                run.check(!m.supported, || format!("does not compile:\n{}", first_lines(e)));
            }
        }
    });
    responses(rep, w, "wrapped-types", "wrappers-", rep.b(3, 3));
    responses(rep, w, "selections", "selections-", rep.b(2, 3));
    responses(rep, w, "roots", "roots-", 3);
    responses(rep, w, "names", "names-", rep.b(3, 4));
    // conditions, and values of other forms
    let forms: Vec<usize> = (0..w.progs.len()).filter(|p| w.progs[*p].name.starts_with("forms-") && !w.built.failed.contains_key(p)).collect();
    let forms = &forms;
    rep.explore("conditions", 0, |ch, run| {
        let p = *ch.pick_of(forms);
        let op = ch.pick(programs::CONDITIONAL.len());
        let skip = ch.flip();
        let (s, doc) = (&w.schemas[p], &w.docs[p][0]);
        let q = Q { s, frags: &doc.frags };
        let mut st = St::default();
        let sels = without(&doc.ops[op].sels, skip);
        let root = s.root(OpKind::Query).unwrap().to_string();
        let j = composite(ch, &mut st, &q, &root, &sels, false);
        if !st.bad.is_empty() || st.free {
            return run.skip();
        }
        if !run.case(format!("{} {}\n{}", w.progs[p].codec.name(), programs::CONDITIONAL[op], j.show())) {
            return;
        }
        run.outcome(if skip { "skipped" } else { "included" });
        match w.built.call(p, 0, 0, &op_rust_name(&doc.ops[op]), &j.show()) {
            Answer::Done(_) => run.compared += 1,
            a => run.fail(format!("refused a response of the schema: {a:?}")),
        }
    });
    rep.explore("other-forms", 0, |ch, run| {
        let p = *ch.pick_of(forms);
        let (op, j) = ch.pick_of(&programs::LENIENT);
        if !run.case(format!("{} {op}\n{j}", w.progs[p].codec.name())) {
            return;
        }
        run.outcome("given");
        match w.built.call(p, 0, 1, op, j) {
            Answer::Refused(_) => run.compared += 1,
            a => run.fail(format!("not refused: {a:?}")),
        }
    });
    // enums on their own
    let enums: Vec<(usize, String, String)> = (0..w.progs.len())
        .filter(|p| !w.built.failed.contains_key(p))
        .flat_map(|p| {
            w.schemas[p].doc.types.iter().flat_map(move |t| match &t.kind {
                Kind::Enum { values } => values.iter().map(|v| (p, t.name.clone(), v.name.clone())).collect(),
                _ => vec![],
            })
        })
        .collect();
    rep.explore("enums", 0, |ch, run| {
        let (p, t, v) = ch.pick_of(&enums);
        if !run.case(format!("{} {t}.{v}", w.progs[*p].name)) {
            return;
        }
        let j = J::Str(v.clone()).show();
        match w.built.call(*p, 0, 0, t, &j) {
            Answer::Done(d) => run.agree("value", &T::Unit(norm(v)), &Dbg(&d).value()),
            a => run.fail(format!("{a:?}")),
        }
        run.outcome("both ways");
        run.agree("serialised", &Answer::Done(j.clone()), &w.built.call(*p, 1, 0, t, &j));
    });
    // inputs
    let ins: Vec<(usize, String)> = (0..w.progs.len())
        .filter(|p| !w.built.failed.contains_key(p))
        .flat_map(|p| w.schemas[p].doc.types.iter().filter(|t| matches!(t.kind, Kind::Input { .. })).map(move |t| (p, t.name.clone())))
        .collect();
    let depth = rep.b(2, 4);
    rep.explore("inputs", rep.b(3, 4), |ch, run| {
        let (p, t) = ch.pick_of(&ins);
        let s = &w.schemas[*p];
        let mut st = St::default();
        let j = input_object(ch, &mut st, s, t, depth);
        if st.free {
            return run.skip();
        }
        if !run.case(format!("{} {t}\n{}", w.progs[*p].name, j.show())) {
            return;
        }
        match w.built.call(*p, 1, 0, t, &j.show()) {
            Answer::Panic(m) => run.fail(format!("panic: {m}")),
            Answer::Missing => run.fail("harness: no such generated type"),
            Answer::Refused(m) => {
                run.outcome("not constructible");
                run.check(!st.bad.is_empty() && m.starts_with("not constructible"), || format!("the input cannot be built or serialised: {m}"));
            }
            Answer::Done(o) => {
                run.outcome("serialised");
                run.check(st.bad.is_empty(), || format!("could be built although {}: {o}", st.bad.join(", ")));
                if st.bad.is_empty() {
                    let got: serde_json::Value = match serde_json::from_str(&o) {
                        Ok(v) => v,
                        Err(e) => return run.fail(format!("not JSON: {o} {e}")),
                    };
                    let r = serialised(s, &Ty::Named(t.clone(), true), &j, &got);
                    run.check(r.is_ok(), || format!("{} in {o}", r.clone().unwrap_err()));
                }
            }
        }
    });
    let _ = Codec::Serde;
}
