//! Reference lexer, character by character, from the lexical grammar of the GraphQL specification.
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    P(&'static str),
    Name(String),
    Var(String),
    Int(i32),
    Float(f64),
    Str(String),
}

#[derive(Clone, Copy, Default)]
pub struct Mode {
    /// graphql-ruby compatibility
    pub ruby: bool,
}

pub fn lex(s: &str, mode: Mode) -> Option<Vec<Tok>> {
    let mut out = Vec::new();
    lex_into(s, mode, &mut out, &mut vec![]).map(|_| out)
}
/// The tokens and where they start, counted in characters; or where the first thing starts that is no token.
pub fn lex_at(s: &str, mode: Mode) -> Result<(Vec<Tok>, Vec<usize>), usize> {
    let (mut out, mut at) = (vec![], vec![]);
    match lex_into(s, mode, &mut out, &mut at) {
        Some(()) => Ok((out, at)),
        None => Err(*at.last().unwrap()),
    }
}
fn lex_into(s: &str, mode: Mode, out: &mut Vec<Tok>, at: &mut Vec<usize>) -> Option<()> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let is_start = |ch: char| ch.is_ascii_alphabetic() || ch == '_';
    let is_cont = |ch: char| ch.is_ascii_alphanumeric() || ch == '_';
    while i < c.len() {
        if !matches!(c[i], '\u{FEFF}' | '\t' | ' ' | '\n' | '\r' | ',' | '#') {
            at.push(i)
        }
        match c[i] {
            '\u{FEFF}' | '\t' | ' ' | '\n' | '\r' | ',' => i += 1,
            '#' => {
                while i < c.len() && c[i] != '\n' && c[i] != '\r' {
                    i += 1
                }
            }
            ch if is_start(ch) => {
                let b = i;
                while i < c.len() && is_cont(c[i]) {
                    i += 1
                }
                out.push(Tok::Name(c[b..i].iter().collect()));
            }
            '$' => {
                i += 1;
                let b = i;
                if i >= c.len() || !is_start(c[i]) {
                    return None;
                }
                while i < c.len() && is_cont(c[i]) {
                    i += 1
                }
                out.push(Tok::Var(c[b..i].iter().collect()));
            }
            '.' => {
                if c.len() >= i + 3 && c[i + 1] == '.' && c[i + 2] == '.' {
                    out.push(Tok::P("..."));
                    i += 3
                } else {
                    return None;
                }
            }
            '!' => { out.push(Tok::P("!")); i += 1 }
            '&' => { out.push(Tok::P("&")); i += 1 }
            '(' => { out.push(Tok::P("(")); i += 1 }
            ')' => { out.push(Tok::P(")")); i += 1 }
            ':' => { out.push(Tok::P(":")); i += 1 }
            '=' => { out.push(Tok::P("=")); i += 1 }
            '@' => { out.push(Tok::P("@")); i += 1 }
            '[' => { out.push(Tok::P("[")); i += 1 }
            ']' => { out.push(Tok::P("]")); i += 1 }
            '{' => { out.push(Tok::P("{")); i += 1 }
            '}' => { out.push(Tok::P("}")); i += 1 }
            '|' => { out.push(Tok::P("|")); i += 1 }
            '-' | '0'..='9' => {
                let b = i;
                if c[i] == '-' {
                    i += 1
                }
                if i >= c.len() || !c[i].is_ascii_digit() {
                    return None;
                }
                if c[i] == '0' {
                    i += 1;
                } else {
                    while i < c.len() && c[i].is_ascii_digit() {
                        i += 1
                    }
                }
                let mut float = false;
                // fraction
                if i + 1 < c.len() && c[i] == '.' && c[i + 1].is_ascii_digit() {
                    float = true;
                    i += 1;
                    while i < c.len() && c[i].is_ascii_digit() {
                        i += 1
                    }
                }
                // exponent
                if i < c.len() && (c[i] == 'e' || c[i] == 'E') {
                    let mut j = i + 1;
                    if j < c.len() && (c[j] == '+' || c[j] == '-') {
                        j += 1
                    }
                    if j < c.len() && c[j].is_ascii_digit() {
                        float = true;
                        while j < c.len() && c[j].is_ascii_digit() {
                            j += 1
                        }
                        i = j;
                    }
                }
                // no digit, name start or dot may follow a number
                if !mode.ruby && i < c.len() && (c[i] == '.' || is_cont(c[i])) {
                    return None;
                }
                let text: String = c[b..i].iter().collect();
                if float {
                    let f: f64 = text.parse().ok()?;
                    if !f.is_finite() {
                        return None;
                    }
                    out.push(Tok::Float(f));
                } else {
                    out.push(Tok::Int(text.parse().ok()?));
                }
            }
            '"' => {
                if c.len() >= i + 3 && c[i + 1] == '"' && c[i + 2] == '"' {
                    let mut j = i + 3;
                    let mut raw = String::new();
                    loop {
                        if j >= c.len() {
                            return None;
                        }
                        if c.len() >= j + 3 && c[j] == '"' && c[j + 1] == '"' && c[j + 2] == '"' {
                            j += 3;
                            break;
                        }
                        if c.len() >= j + 4 && c[j] == '\\' && c[j + 1] == '"' && c[j + 2] == '"' && c[j + 3] == '"' {
                            raw.push_str("\"\"\"");
                            j += 4;
                            continue;
                        }
                        raw.push(c[j]);
                        j += 1;
                    }
                    i = j;
                    out.push(Tok::Str(block_value(&raw)));
                } else {
                    let mut v = String::new();
                    i += 1;
                    loop {
                        match c.get(i)? {
                            '"' => {
                                i += 1;
                                break;
                            }
                            '\n' | '\r' if !mode.ruby => return None,
                            '\\' => {
                                let e = *c.get(i + 1)?;
                                i += 2;
                                match e {
                                    '"' => v.push('"'),
                                    '\\' => v.push('\\'),
                                    '/' => v.push('/'),
                                    'b' => v.push('\u{8}'),
                                    'f' => v.push('\u{c}'),
                                    'n' => v.push('\n'),
                                    'r' => v.push('\r'),
                                    't' => v.push('\t'),
                                    'u' => {
                                        if c.get(i) == Some(&'{') {
                                            let mut j = i + 1;
                                            let mut n: u64 = 0;
                                            let mut digits = 0;
                                            while let Some(d) = c.get(j).and_then(|ch| ch.to_digit(16)) {
                                                n = (n * 16 + d as u64).min(1 << 40);
                                                digits += 1;
                                                j += 1;
                                            }
                                            if digits == 0 || c.get(j) != Some(&'}') {
                                                return None;
                                            }
                                            v.push(char::from_u32(u32::try_from(n).ok()?)?);
                                            i = j + 1;
                                        } else {
                                            let n = hex4(&c, i)?;
                                            i += 4;
                                            if (0xD800..0xDC00).contains(&n) {
                                                if c.get(i) != Some(&'\\') || c.get(i + 1) != Some(&'u') {
                                                    return None;
                                                }
                                                let t = hex4(&c, i + 2)?;
                                                if !(0xDC00..0xE000).contains(&t) {
                                                    return None;
                                                }
                                                v.push(char::from_u32(0x10000 + ((n - 0xD800) << 10) + (t - 0xDC00))?);
                                                i += 6;
                                            } else {
                                                v.push(char::from_u32(n)?);
                                            }
                                        }
                                    }
                                    _ => return None,
                                }
                            }
                            ch => {
                                v.push(*ch);
                                i += 1
                            }
                        }
                    }
                    out.push(Tok::Str(v));
                }
            }
            _ => return None,
        }
    }
    Some(())
}

fn hex4(c: &[char], i: usize) -> Option<u32> {
    let mut n = 0;
    for k in 0..4 {
        n = n * 16 + c.get(i + k)?.to_digit(16)?;
    }
    Some(n)
}

/// BlockStringValue() of the specification.
pub fn block_value(raw: &str) -> String {
    let mut lines: Vec<Vec<char>> = vec![vec![]];
    let c: Vec<char> = raw.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\r' {
            if c.get(i + 1) == Some(&'\n') {
                i += 1;
            }
            lines.push(vec![]);
        } else if c[i] == '\n' {
            lines.push(vec![]);
        } else {
            lines.last_mut().unwrap().push(c[i]);
        }
        i += 1;
    }
    let ws = |ch: &char| *ch == ' ' || *ch == '\t';
    let mut common: Option<usize> = None;
    for l in lines.iter().skip(1) {
        let indent = l.iter().take_while(|ch| ws(ch)).count();
        if indent < l.len() && common.map_or(true, |c| indent < c) {
            common = Some(indent);
        }
    }
    if let Some(n) = common {
        for l in lines.iter_mut().skip(1) {
            let k = n.min(l.len());
            l.drain(..k);
        }
    }
    while lines.first().is_some_and(|l| l.iter().all(ws)) {
        lines.remove(0);
    }
    while lines.last().is_some_and(|l| l.iter().all(ws)) {
        lines.pop();
    }
    lines.iter().map(|l| l.iter().collect::<String>()).collect::<Vec<_>>().join("\n")
}
