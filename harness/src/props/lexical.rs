//! C01: literals and tokens.
use crate::conv;
use crate::engine::{Ch, Report, Run};
use crate::r::lex::Mode;
use crate::r::parse;
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::Parse;

/// Compare reference and implementation on one whole document.
pub fn compare_doc(run: &mut Run, text: String) {
    if !run.case(text.clone()) {
        return;
    }
    let want = parse::exec_mode(&text, Mode::default());
    let got = ExecutableDocument::parse(&text).ok().map(|d| conv::exec(&d));
    run.outcome(if want.is_some() { "accepted" } else { "rejected" });
    run.agree("parse result", &want, &got);
}

/// a literal in argument position, between a fixed prefix and suffix
fn in_arg(run: &mut Run, lit: &str) {
    let text = format!("{{a(b:{lit})}}");
    if !run.case(text.clone()) {
        return;
    }
    let want = parse::exec_mode(&text, Mode::default());
    let got = ExecutableDocument::parse(&text).ok().map(|d| conv::exec(&d));
    let o = match &want {
        None => "rejected".to_string(),
        Some(d) => match &d.ops[0].sels[0] {
            crate::r::ast::Sel::Field(f) => format!("accepted {}", f.args.first().map(|a| variant(&a.1)).unwrap_or("?")),
            _ => "other".into(),
        },
    };
    run.outcome(o);
    run.agree("parse result", &want, &got);
}
fn variant(v: &crate::r::ast::Val) -> &'static str {
    use crate::r::ast::Val::*;
    match v {
        Var(_) => "variable",
        Int(_) => "int",
        Float(_) => "float",
        Str(s) if s.is_empty() => "empty string",
        Str(_) => "string",
        Bool(_) => "bool",
        Null => "null",
        Enum(_) => "enum",
        List(_) => "list",
        Obj(_) => "object",
    }
}

/// every sequence of at most `n` pieces
fn seq(c: &mut Ch, pieces: &[&str], n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        let i = c.pick(pieces.len() + 1);
        if i == 0 {
            break;
        }
        s.push_str(pieces[i - 1]);
    }
    s
}

pub fn c01(rep: &mut Report) {
    let n = |q: usize, t: usize| if rep.thorough() { t } else { q };
    let (n_num, n_str, n_esc, n_blk, n_any) = (n(6, 7), n(6, 7), n(5, 6), n(7, 8), n(5, 6));
    rep.explore("numbers", 0, |c, r| {
        let s = seq(c, &["0", "1", "9", "-", "+", ".", "e", "E", "a", "_"], n_num);
        in_arg(r, &s)
    });
    rep.explore("numbers-limits", 0, |c, r| {
        let sign = c.pick_str(&["", "-", "+"]);
        let digits = c.pick_str(&[
            "0", "00", "01", "2147483647", "2147483648", "2147483649", "4294967296", "99999999999999999999", "1234567890", "9007199254740993",
            "179769313486231570000000000000000000000", "5", "10",
        ]);
        let frac = c.pick_str(&["", ".0", ".", ".5", ".000000000000000001", ".1e", ".7976931348623157", ".7976931348623159"]);
        let exp = c.pick_str(&[
            "", "e0", "E1", "e+1", "e-1", "e308", "e309", "e+308", "E309", "e-308", "e-323", "e-324", "e-325", "e999", "e-999", "e99999999999", "e", "e+", "e1.0", "e00001",
        ]);
        let tail = c.pick_str(&["", " ", "a", "_", ".", "...", "0", "-", "\"\"", "#x\n", "$v", "é"]);
        in_arg(r, &format!("{sign}{digits}{frac}{exp}{tail}"))
    });
    rep.explore("strings", 0, |c, r| {
        let s = seq(c, &["a", "\"", "\\", "u", "n", "{", "}", "D", "\n", "\r", "é", "#"], n_str);
        in_arg(r, &format!("\"{s}\""))
    });
    rep.explore("string-escapes", 0, |c, r| {
        let s = seq(
            c,
            &[
                "\\u0041", "\\uD83D", "\\uDD25", "\\uDBFF", "\\uDFFF", "\\uD800", "\\uDC00", "\\uE000", "\\uFFFF", "\\u0000", "\\u{1F525}", "\\u{D83D}", "\\u{10FFFF}",
                "\\u{110000}", "\\u{}", "\\u{00000041}", "x", "\\\\", "\\\"", "\\n",
            ],
            n_esc.min(4),
        );
        in_arg(r, &format!("\"{s}\""))
    });
    rep.explore("escape-spelling", 0, |c, r| {
        // one escape of every kind and near-kind, spelled digit by digit, in the middle of text
        let pre = c.pick_str(&["", "a", "\\\\", "\\u0041", "\\uD83D"]);
        let post = c.pick_str(&["", "a", "\\u0041", "\\uDD25", "\\", "0"]);
        let esc = match c.pick(3) {
            0 => format!("\\{}", c.pick_of(&['"', '\\', '/', 'b', 'f', 'n', 'r', 't', 'B', 'N', 'a', 'v', '0', 'x', '\'', 'U', ' '])),
            1 => {
                let k = c.pick(6);
                let mut s = String::from("\\u");
                for _ in 0..k {
                    s.push(*c.pick_of(&['0', 'd', 'D', '8', 'g']));
                }
                s
            }
            _ => {
                let mut s = String::from("\\u{");
                let k = c.pick(5);
                for _ in 0..k {
                    s.push(*c.pick_of(&['0', 'f', 'D', '8']));
                }
                s.push_str(c.pick_str(&["}", "0000}", "", "g}", " }"]));
                s
            }
        };
        in_arg(r, &format!("\"{pre}{esc}{post}\""))
    });
    rep.explore("block-strings", 0, |c, r| {
        let s = seq(c, &["a", " ", "\t", "\n", "\r", "\"", "\\", "\\\"\"\""], n_blk.min(7));
        in_arg(r, &format!("\"\"\"{s}\"\"\""))
    });
    rep.explore("block-lines", 0, |c, r| {
        // whole lines: indentation, content, line terminator; up to 4 (quick) lines
        let lines = 1 + c.pick(if n_blk > 7 { 5 } else { 4 });
        let mut s = String::new();
        for i in 0..lines {
            if i > 0 {
                s.push_str(c.pick_str(&["\n", "\r\n", "\r"]));
            }
            s.push_str(c.pick_str(&["", " ", "  ", "\t", " \t"]));
            s.push_str(c.pick_str(&["", "x", "y ", "\u{a0}"]));
        }
        in_arg(r, &format!("\"\"\"{s}\"\"\""))
    });
    rep.explore("tokens-in-context", 0, |c, r| {
        let s = seq(
            c,
            &["a", "_", "1", "$", "v", ".", "...", "\"", "\"\"\"", "#", "\n", ",", "\u{feff}", "!", "?", "-", "é", "%"],
            n_any.min(5),
        );
        let ctx = c.pick(2);
        if ctx == 0 {
            in_arg(r, &s)
        } else {
            compare_doc(r, format!("{{a {s} b}}"))
        }
    });
    rep.explore("comments-and-ignored", 0, |c, r| {
        let s = seq(c, &["#", "\n", "\r", " ", "\t", ",", "\u{feff}", "a", "\"", "}", "\u{b}", "\u{a0}"], n_any + 1);
        compare_doc(r, format!("{{a{s}b}}"))
    });
    rep.explore("names", 0, |c, r| {
        let s = seq(c, &["a", "Z", "_", "0", "9", "-", "é", "$", "@", ":"], n_any);
        compare_doc(r, format!("{{{s}}}"))
    });
    rep.explore("many", 0, |c, r| {
        let s = super::scale::literal(c);
        in_arg(r, &s)
    });
    rep.explore("variables-with-space", 0, |c, r| {
        // the grammar makes `$` and the name two tokens
        let gap = c.pick_str(&["", " ", "\n", ",", "#c\n"]);
        let text = format!("{{a(b:${gap}v)}}");
        if !r.case(text.clone()) {
            return;
        }
        let got = ExecutableDocument::parse(&text).ok().map(|d| conv::exec(&d));
        let want = parse::exec_mode("{a(b:$v)}", Mode::default());
        r.agree("parse result", &want, &got);
    });
}
