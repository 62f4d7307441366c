//! Programs for the type generator: schemas and queries, the Rust source that uses them, building and loading that source.
pub mod build;
pub mod programs;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Codec {
    Serde,
    Borrow,
    Mini,
}
impl Codec {
    pub fn name(self) -> &'static str {
        match self {
            Codec::Serde => "serde",
            Codec::Borrow => "borrow",
            Codec::Mini => "miniserde",
        }
    }
    pub fn args(self) -> &'static str {
        match self {
            Codec::Serde => "",
            Codec::Borrow => ", borrow = true",
            Codec::Mini => ", codec = \"miniserde\"",
        }
    }
}
pub const CODECS: [Codec; 3] = [Codec::Serde, Codec::Borrow, Codec::Mini];

#[derive(Clone, Debug)]
pub struct Prog {
    pub name: String,
    pub sdl: String,
    pub codec: Codec,
    /// schema and queries written inside the macro invocation
    pub dsl: bool,
    pub docs: Vec<String>,
}
impl Prog {
    pub fn text(&self) -> String {
        format!("# {} ({})\n{}\n{}", self.name, self.codec.name(), self.sdl, self.docs.join("\n# document\n"))
    }
}

/// words as the naming convention splits them: at underscores, changes of case and around digits
pub fn words(s: &str) -> Vec<String> {
    let class = |c: char| if c.is_ascii_digit() { 'd' } else if c.is_uppercase() { 'u' } else { 'l' };
    let mut v: Vec<String> = vec![];
    for part in s.split('_').filter(|p| !p.is_empty()) {
        let cs: Vec<char> = part.chars().collect();
        let mut w = String::new();
        for (i, c) in cs.iter().enumerate() {
            let cut = i > 0
                && match (class(cs[i - 1]), class(*c)) {
                    ('l', 'u') | ('l' | 'u', 'd') | ('d', 'l' | 'u') => true,
                    ('u', 'u') => cs.get(i + 1).is_some_and(|n| class(*n) == 'l'),
                    _ => false,
                };
            if cut {
                v.push(std::mem::take(&mut w));
            }
            w.push(c.to_ascii_lowercase());
        }
        v.push(w);
    }
    v
}
const KEYWORDS: &str = " as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try union ";
/// the Rust spelling of a name
fn raw(s: String) -> String {
    if matches!(s.as_str(), "crate" | "self" | "Self" | "super") {
        return format!("{s}_");
    }
    if s.is_empty() {
        return "__".into();
    }
    if s.starts_with(|c: char| c.is_ascii_digit()) {
        return format!("_{s}");
    }
    if KEYWORDS.contains(&format!(" {s} ")) { format!("r#{s}") } else { s }
}
pub fn snake(s: &str) -> String {
    raw(words(s).join("_"))
}
pub fn pascal(s: &str) -> String {
    raw(words(s).iter().map(|w| format!("{}{}", w[..1].to_uppercase(), &w[1..])).collect())
}
/// names of generated items compared up to their Rust spelling
pub fn norm(s: &str) -> String {
    s.trim_start_matches("r#").chars().filter(|c| *c != '_').map(|c| c.to_ascii_lowercase()).collect()
}
/// a, b, .. z, ba, ..
pub fn letters(mut i: usize) -> String {
    let mut s = String::new();
    loop {
        s.insert(0, (b'a' + (i % 26) as u8) as char);
        i /= 26;
        if i == 0 {
            return s;
        }
    }
}
