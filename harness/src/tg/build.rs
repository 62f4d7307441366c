//! Writes the generated crate, compiles it against /repo's working tree and loads it.
use super::{letters, pascal, snake, Codec, Prog};
use crate::r::ast::*;
use crate::r::schema::Schema;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;

const SUPPORT: &str = include_str!("support.rs.in");
const LOCK: &str = include_str!("Cargo.lock.in");
const MEMBER: &str = r#"[package]
name = "NAME"
version = "0.1.0"
edition = "2021"
publish = false
[lib]
crate-type = ["cdylib"]
[dependencies]
bluejay-typegen = { path = "REPO/bluejay-typegen", features = ["miniserde"] }
serde_json = "1.0"
"#;

/// rust type of the alias for a custom scalar
fn alias(name: &str, c: Codec) -> String {
    match (name, c) {
        ("Big", _) => "type Big = u32;".into(),
        (n, Codec::Borrow) => format!("type {}<'a> = std::borrow::Cow<'a, str>;", pascal(n)),
        (n, _) => format!("type {} = String;", pascal(n)),
    }
}

fn quoted(path: &Path) -> String {
    format!("{:?}", path.to_str().unwrap())
}

pub fn op_rust_name(o: &Op) -> String {
    o.name.as_deref().map(pascal).unwrap_or_else(|| "Root".into())
}

fn borrows(s: &Schema, ty: &str, seen: &mut Vec<String>) -> bool {
    if matches!(ty, "String" | "ID") {
        return true;
    }
    if seen.iter().any(|x| x == ty) {
        return false;
    }
    seen.push(ty.to_string());
    match s.kind(ty) {
        Some(Kind::Scalar) => !matches!(ty, "Int" | "Float" | "Boolean" | "Big"),
        Some(Kind::Input { fields }) => fields.iter().any(|f| borrows(s, f.ty.base(), seen)),
        _ => false,
    }
}

/// `let _: Option<path>` for every type the documentation gives a path to
fn paths(s: &Schema, doc: &ExecDoc, module: &str) -> Vec<String> {
    let mut out = vec![];
    fn walk(s: &Schema, sels: &[Sel], ty: &str, name: &str, prefix: &str, doc: &ExecDoc, out: &mut Vec<String>) {
        if let [Sel::Spread { .. }] = sels {
            return;
        }
        out.push(format!("{prefix}::{}", pascal(name)));
        let prefix = format!("{prefix}::{}", snake(name));
        for x in sels {
            match x {
                Sel::Field(f) => {
                    if let (Some(sub), Some(d)) = (&f.sels, s.field(ty, &f.name)) {
                        walk(s, sub, d.ty.base(), f.key(), &prefix, doc, out)
                    }
                }
                Sel::Inline { on: Some(on), sels, .. } => {
                    let prefix = format!("{prefix}::{}", snake(on));
                    for y in sels {
                        if let Sel::Field(f) = y {
                            if let (Some(sub), Some(d)) = (&f.sels, s.field(on, &f.name)) {
                                walk(s, sub, d.ty.base(), f.key(), &prefix, doc, out)
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    for o in &doc.ops {
        walk(s, &o.sels, s.root(o.kind).unwrap_or("Query"), o.name.as_deref().unwrap_or("Root"), module, doc, &mut out);
    }
    for f in &doc.frags {
        walk(s, &f.sels, &f.on, &f.name, module, doc, &mut out);
    }
    out
}

/// the Rust module of a program
pub fn source(p: &Prog, dir: &Path) -> String {
    let s = Schema::from_sdl(&p.sdl);
    let mut o = String::new();
    let file = |name: String, text: &str| {
        let f = dir.join(format!("{name}.{:016x}.graphql", crate::engine::hash_str(text)));
        std::fs::write(&f, text).expect("write");
        quoted(&f)
    };
    let schema_arg = if p.dsl { format!("[{}]", p.sdl) } else { file(p.name.clone(), &p.sdl) };
    o.push_str(&format!("use crate::support::*;\nuse serde_json::Value;\n#[bluejay_typegen::typegen({schema_arg}{})]\npub mod schema {{\n", p.codec.args()));
    for t in &s.doc.types {
        if matches!(t.kind, Kind::Scalar) {
            o.push_str(&format!("  {}\n", alias(&t.name, p.codec)));
        }
    }
    for (i, d) in p.docs.iter().enumerate() {
        let q = if p.dsl { format!("[{d}]") } else { file(format!("{}-{i}", p.name), d) };
        o.push_str(&format!("  #[query({q})]\n  pub mod {} {{}}\n", doc_mod(i)));
    }
    o.push_str("}\n");
    // responses
    let (from, to) = match p.codec {
        Codec::Mini => ("bluejay_typegen::miniserde::json::from_str", "Ok::<String, String>(bluejay_typegen::miniserde::json::to_string(&x))"),
        _ => ("serde_json::from_str", "serde_json::to_string(&x).map_err(|e| e.to_string())"),
    };
    o.push_str("pub fn call(kind: u32, doc: u32, name: &str, text: &str) -> Option<Result<String, String>> {\n  match (kind, doc, name) {\n");
    let mut names = vec![];
    for (i, d) in p.docs.iter().enumerate() {
        let doc = crate::r::parse::exec(d).unwrap_or_else(|| panic!("harness: bad query {d}"));
        for x in &doc.ops {
            let n = op_rust_name(x);
            o.push_str(&format!(
                "    (0, {i}, {n:?}) => Some({from}::<schema::{}::{n}>(text).map(|x| {{ assert!(x.clone() == x); format!(\"{{x:?}}\") }}).map_err(|e| e.to_string())),\n",
                doc_mod(i)
            ));
        }
        names.extend(paths(&s, &doc, &format!("schema::{}", doc_mod(i))));
    }
    let mut impls = String::new();
    for t in &s.doc.types {
        let n = pascal(&t.name);
        match &t.kind {
            Kind::Enum { values } => {
                o.push_str(&format!("    (0, _, {:?}) => Some({from}::<schema::{n}>(text).map(|x| format!(\"{{x:?}}\")).map_err(|e| e.to_string())),\n", t.name));
                impls.push_str(&format!("impl FromJ for schema::{n} {{ fn from_j(v: &Value) -> Result<Self, String> {{ match v.as_str().ok_or(\"not a name\")? {{\n"));
                for v in values {
                    impls.push_str(&format!("  {:?} => Ok(Self::{}),\n", v.name, pascal(&v.name)));
                }
                impls.push_str("  _ => Err(\"no such value\".into()) } } }\n");
            }
            Kind::Input { fields } => {
                let l = p.codec == Codec::Borrow && borrows(&s, &t.name, &mut vec![]);
                let (g, u) = if l { ("<'a>", "<'a>") } else { ("", "") };
                impls.push_str(&format!("impl{g} FromJ for schema::{n}{u} {{ fn from_j(v: &Value) -> Result<Self, String> {{\n"));
                if s.one_of(&t.name) {
                    impls.push_str("  let (k, x) = single(v)?; match k {\n");
                    for f in fields {
                        impls.push_str(&format!("    {:?} => Ok(Self::{}(FromJ::from_j(x)?)),\n", f.name, pascal(&f.name)));
                    }
                    impls.push_str("    _ => Err(\"no such field\".into()) } } }\n");
                } else {
                    impls.push_str("  Ok(Self {\n");
                    for f in fields {
                        impls.push_str(&format!("    {}: entry(v, {:?})?,\n", snake(&f.name), f.name));
                    }
                    impls.push_str("  }) } }\n");
                }
            }
            _ => continue,
        }
        o.push_str(&format!(
            "    (1, _, {:?}) => Some(serde_json::from_str::<Value>(text).map_err(|e| e.to_string()).and_then(|v| <schema::{n} as FromJ>::from_j(&v).map_err(|e| format!(\"not constructible: {{e}}\"))).and_then(|x| {to})),\n",
            t.name
        ));
    }
    o.push_str("    _ => None,\n  }\n}\n");
    o.push_str(&impls);
    o.push_str("pub fn paths() {\n");
    for n in names {
        o.push_str(&format!("  let _: Option<{n}> = None;\n"));
    }
    o.push_str("}\n");
    o
}
pub fn doc_mod(i: usize) -> String {
    format!("document_{}", letters(i))
}

#[derive(Default)]
pub struct Built {
    /// program index -> first compile error
    pub failed: BTreeMap<usize, String>,
    /// program index -> entry points of its library
    lib: BTreeMap<usize, (usize, usize)>,
}
extern "C" {
    fn dlopen(p: *const std::ffi::c_char, flags: i32) -> usize;
    fn dlsym(h: usize, n: *const std::ffi::c_char) -> usize;
}
type CallFn = unsafe extern "C" fn(u32, u32, *const u8, usize, *const u8, usize, *mut *mut u8, *mut usize) -> i32;
type FreeFn = unsafe extern "C" fn(*mut u8, usize);

#[derive(Debug, PartialEq, Clone)]
pub enum Answer {
    Done(String),
    Refused(String),
    Panic(String),
    Missing,
}
impl Built {
    /// kind 0: deserialise, 1: build an input value and serialise it
    pub fn call(&self, prog: usize, kind: u32, doc: usize, name: &str, text: &str) -> Answer {
        unsafe {
            let Some((f, free)) = self.lib.get(&prog) else { return Answer::Missing };
            let f: CallFn = std::mem::transmute(*f);
            let free: FreeFn = std::mem::transmute(*free);
            let (mut p, mut n) = (std::ptr::null_mut(), 0usize);
            let c = f(kind, doc as u32, name.as_ptr(), name.len(), text.as_ptr(), text.len(), &mut p, &mut n);
            let s = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
            free(p, n);
            match c {
                0 => Answer::Done(s),
                1 => Answer::Refused(s),
                2 => Answer::Panic(s),
                _ => Answer::Missing,
            }
        }
    }
}

fn write_if_changed(p: &Path, s: &str) {
    if std::fs::read_to_string(p).ok().as_deref() != Some(s) {
        std::fs::write(p, s).expect("write");
    }
}

pub fn root() -> PathBuf {
    PathBuf::from(crate::report::verif_dir()).join("target/typegen")
}

/// A workspace of one library per program; returns its directory.
fn workspace(name: &str, files: &[String], support: bool) -> PathBuf {
    let dir = root().join(name);
    let members: Vec<String> = (0..files.len()).map(|i| format!("p_{i}")).collect();
    std::fs::create_dir_all(&dir).expect("harness: mkdir");
    write_if_changed(&dir.join("Cargo.toml"), &format!("[workspace]\nresolver = \"2\"\nmembers = {members:?}\n[profile.dev]\ndebug = 0\nincremental = false\n"));
    for (i, f) in files.iter().enumerate() {
        let m = dir.join(&members[i]);
        std::fs::create_dir_all(m.join("src")).expect("harness: mkdir");
        write_if_changed(&m.join("Cargo.toml"), &MEMBER.replace("NAME", &format!("{name}_{i}")).replace("REPO", &std::env::var("MC_REPO").unwrap_or_else(|_| "/repo".into())));
        write_if_changed(&m.join("src/lib.rs"), f);
        if support {
            write_if_changed(&m.join("src/support.rs"), SUPPORT);
        }
    }
    if !dir.join("Cargo.lock").exists() {
        write_if_changed(&dir.join("Cargo.lock"), LOCK);
    }
    dir
}

/// Compiles the workspace; returns success and (program, message) of every error.
fn cargo(dir: &Path, check: bool) -> (bool, Vec<(Option<usize>, String)>) {
    let out = Command::new("cargo")
        .args([if check { "check" } else { "build" }, "--offline", "--workspace", "--keep-going", "--message-format=json"])
        .current_dir(dir)
        .env("HOME", "/root")
        .env("PATH", format!("/root/.cargo/bin:{}", std::env::var("PATH").unwrap_or_default()))
        .env("RUSTUP_TOOLCHAIN", "1.79.0")
        .env("RUSTC_WRAPPER", "")
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_TARGET_DIR", root().join("target"))
        .output()
        .expect("harness: cargo");
    let mut errs = vec![];
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        if v["reason"] == "compiler-message" && v["message"]["level"] == "error" {
            let p = v["target"]["src_path"].as_str().and_then(|f| f.split("/p_").nth(1)?.split('/').next()?.parse().ok());
            errs.push((p, v["message"]["rendered"].as_str().unwrap_or("").to_string()));
        }
    }
    if !out.status.success() && errs.is_empty() {
        errs.push((None, String::from_utf8_lossy(&out.stderr).into_owned()));
    }
    (out.status.success(), errs)
}
fn outside(errs: &[(Option<usize>, String)]) {
    if let Some((_, m)) = errs.iter().find(|e| e.0.is_none()) {
        eprintln!("the generated crates cannot be compiled:\n{m}");
        std::process::exit(2);
    }
}

/// Builds all programs; those whose generated code does not compile are set aside with their error.
pub fn build(name: &str, progs: &[Prog]) -> Built {
    let graphql = root().join(format!("{name}-graphql"));
    let _ = std::fs::remove_dir_all(&graphql);
    std::fs::create_dir_all(&graphql).expect("harness: mkdir");
    let sources: Vec<String> = progs
        .iter()
        .map(|p| {
            format!(
                "#![allow(warnings)]\nmod support;\n{}pub fn dispatch(kind: u32, doc: u32, name: &str, text: &str) -> Option<Result<String, String>> {{ call(kind, doc, name, text) }}\n",
                source(p, &graphql)
            )
        })
        .collect();
    let dir = workspace(name, &sources, true);
    let (_, errs) = cargo(&dir, false);
    outside(&errs);
    let mut b = Built::default();
    for (p, m) in errs {
        b.failed.entry(p.unwrap()).or_insert(m);
    }
    for i in (0..progs.len()).filter(|i| !b.failed.contains_key(i)) {
        let so = root().join(format!("target/debug/lib{name}_{i}.so"));
        let c = std::ffi::CString::new(so.to_str().unwrap()).unwrap();
        unsafe {
            let h = dlopen(c.as_ptr(), 2);
            assert!(h != 0, "harness: dlopen {so:?}");
            b.lib.insert(i, (dlsym(h, c"tg_call".as_ptr()), dlsym(h, c"tg_free".as_ptr())));
            let init: extern "C" fn() = std::mem::transmute(dlsym(h, c"tg_init".as_ptr()));
            init();
        }
    }
    b
}

/// Compiles modules, many to a crate; returns the error reported for each (None: it compiles).
/// Modules with an error are taken out until the rest compiles, so that one cannot hide the errors of another.
pub fn verdicts(name: &str, mods: &[String]) -> Vec<Option<String>> {
    let mut out: Vec<Option<String>> = vec![None; mods.len()];
    loop {
        let mut lines = vec![];
        let mut text = String::from("#![allow(warnings)]\n");
        let mut at = 2;
        for (i, m) in mods.iter().enumerate().filter(|(i, _)| out[*i].is_none()) {
            let m = format!("pub mod m_{i} {{\n{m}\n}}\n");
            let n = m.lines().count();
            text.push_str(&m);
            lines.push((i, at, at + n - 1));
            at += n;
        }
        let dir = workspace(name, &[text], false);
        let (ok, errs) = cargo(&dir, true);
        if ok {
            return out;
        }
        outside(&errs);
        let mut progress = false;
        let first = errs[0].1.clone();
        for (_, m) in errs {
            // " --> p_0/src/lib.rs:12:5"
            let line = m.lines().filter_map(|l| l.split("src/lib.rs:").nth(1)).filter_map(|l| l.split(':').next()?.parse::<usize>().ok()).next();
            if let Some((i, ..)) = line.and_then(|n| lines.iter().find(|r| r.1 <= n && n <= r.2)) {
                out[*i].get_or_insert(m);
                progress = true;
            }
        }
        if !progress {
            // an error that belongs to no module is one of them all
            out.iter_mut().filter(|o| o.is_none()).for_each(|o| *o = Some(first.clone()));
            return out;
        }
    }
}
