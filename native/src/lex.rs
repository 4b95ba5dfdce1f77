//! C21 and C22: the lexer, against a tokeniser written from the grammar over a vector of characters.
use crate::core::*;
use dot_parser::lexer::{Lexer, Token};

#[derive(Clone, Debug, PartialEq)]
enum Tk {
    Punct(&'static str),
    Ident(String),
    Str(String),
    Int(i64),
    Real(u64),
}
enum Next {
    End,
    Tok(Tk, usize),
    Bad(usize, usize),
}

fn white(c: char) -> bool {
    matches!(c as u32, 9..=13 | 0x20 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)
}
fn letter(c: char) -> bool {
    ('a'..='z').contains(&c) || ('A'..='Z').contains(&c) || c == '_'
}
fn digit(c: char) -> bool {
    ('0'..='9').contains(&c)
}

fn scan(t: &[char], mut i: usize) -> Next {
    while i < t.len() && white(t[i]) {
        i += 1;
    }
    if i == t.len() {
        return Next::End;
    }
    let c = t[i];
    for (p, q) in [('{', "{"), ('}', "}"), ('[', "["), (']', "]"), ('=', "="), (',', ","), (';', ";")] {
        if c == p {
            return Next::Tok(Tk::Punct(q), i + 1);
        }
    }
    if c == '-' && t.get(i + 1) == Some(&'>') {
        return Next::Tok(Tk::Punct("->"), i + 2);
    }
    if letter(c) {
        let e = (i..t.len()).find(|&j| !letter(t[j]) && !digit(t[j])).unwrap_or(t.len());
        return Next::Tok(Tk::Ident(t[i..e].iter().collect()), e);
    }
    if digit(c) {
        let mut e = i + 1;
        loop {
            if e < t.len() && digit(t[e]) {
                e += 1;
            } else if e + 1 < t.len() && t[e] == '.' && digit(t[e + 1]) {
                e += 2;
            } else {
                break;
            }
        }
        let s: String = t[i..e].iter().collect();
        return match s.matches('.').count() {
            0 => {
                let mut v: i128 = 0;
                for d in &t[i..e] {
                    v = (v * 10 + (*d as i128 - '0' as i128)).min(i64::MAX as i128 + 1);
                }
                if v > i64::MAX as i128 {
                    Next::Bad(i, e)
                } else {
                    Next::Tok(Tk::Int(v as i64), e)
                }
            }
            1 => Next::Tok(Tk::Real(s.parse::<f64>().unwrap().to_bits()), e),
            _ => Next::Bad(i, e),
        };
    }
    if c == '"' {
        let mut s = String::new();
        let mut j = i + 1;
        while j < t.len() {
            match t[j] {
                '"' => return Next::Tok(Tk::Str(s), j + 1),
                '\\' => {
                    match t.get(j + 1) {
                        None => return Next::Bad(i, t.len()),
                        Some('n') => s.push('\n'),
                        Some('t') => s.push('\t'),
                        Some('r') => s.push('\r'),
                        Some(&x) => {
                            s.push('\\');
                            s.push(x)
                        }
                    }
                    j += 2;
                }
                x => {
                    s.push(x);
                    j += 1;
                }
            }
        }
        return Next::Bad(i, t.len());
    }
    Next::Bad(i, i + 1)
}

fn tk(t: Token) -> Tk {
    match t {
        Token::LCurly => Tk::Punct("{"),
        Token::RCurly => Tk::Punct("}"),
        Token::LSquare => Tk::Punct("["),
        Token::RSquare => Tk::Punct("]"),
        Token::Equals => Tk::Punct("="),
        Token::Comma => Tk::Punct(","),
        Token::Semicolon => Tk::Punct(";"),
        Token::Arrow => Tk::Punct("->"),
        Token::Number => Tk::Punct("number"),
        Token::Ident(s) => Tk::Ident(s),
        Token::String(s) => Tk::Str(s),
        Token::Integer(i) => Tk::Int(i),
        Token::Float(f) => Tk::Real(f.to_bits()),
    }
}

fn check_tokens(text: &str, by_iter: bool) -> Result<(), String> {
    let t: Vec<char> = text.chars().collect();
    let mut want = vec![];
    let mut i = 0;
    let bad = loop {
        match scan(&t, i) {
            Next::End => break false,
            Next::Bad(_, _) => break true,
            Next::Tok(k, e) => {
                want.push(k);
                i = e;
            }
        }
    };
    let mut l = Lexer::new(text);
    let got: Vec<Tk> = if by_iter {
        l.by_ref().map(tk).collect()
    } else {
        let mut v = vec![];
        while let Some(k) = l.next() {
            v.push(tk(k));
            ensure!(v.len() <= t.len(), "more tokens than characters");
        }
        v
    };
    ensure!(got == want, "tokens {:?}, the grammar gives {:?}", got, want);
    ensure!(l.has_errors() == bad, "has_errors() is {}, the text is {}", l.has_errors(), if bad { "erroneous" } else { "well-formed" });
    ensure!(l.errors().is_empty() != bad, "errors() has {} entries, the text is {}", l.errors().len(), if bad { "erroneous" } else { "well-formed" });
    if !bad {
        ensure!(l.next().is_none() && !l.has_errors(), "not at the end of the text after the last token");
    }
    Ok(())
}

/// the line and the column of each report
fn reported(s: &str) -> Result<Vec<(usize, usize)>, String> {
    let mut v = vec![];
    for l in s.lines() {
        let p = l.strip_prefix('(').and_then(|r| r.split_once(')')).and_then(|(a, _)| a.split_once(',')).and_then(|(a, b)| Some((a.trim().parse().ok()?, b.trim().parse().ok()?)));
        match p {
            Some(x) => v.push(x),
            None => return Err(format!("a report without a position: {:?}", l)),
        }
    }
    Ok(v)
}
fn check_reports(text: &str) -> Result<(), String> {
    let t: Vec<char> = text.chars().collect();
    let pos = |k: usize| {
        let line = 1 + t[..k].iter().filter(|&&c| c == '\n').count();
        let col = 1 + t[..k].iter().rev().take_while(|&&c| c != '\n').count();
        (line, col)
    };
    let mut l = Lexer::new(text);
    let mut want = vec![];
    let mut i = 0;
    let mut calls = 0;
    loop {
        calls += 1;
        ensure!(calls <= t.len() + 2, "more calls than characters");
        let n = l.errors().len();
        let r = l.next();
        match scan(&t, i) {
            Next::End => {
                ensure!(r.is_none() && l.errors().len() == n, "at the end of the text: {:?} and {} new reports", r, l.errors().len() as i64 - n as i64);
                break;
            }
            Next::Tok(_, e) => {
                ensure!(r.is_some() && l.errors().len() == n, "a well-formed token at character {}: {:?} and {} new reports", i, r, l.errors().len() as i64 - n as i64);
                i = e;
            }
            Next::Bad(s, e) => {
                ensure!(r.is_none(), "a failed token at character {} is given out as {:?}", s, r);
                ensure!(l.errors().len() == n + 1, "the failed token at character {}: {} new reports", s, l.errors().len() as i64 - n as i64);
                want.push(pos(s));
                i = e;
                // the reports so far
                if want.len() <= 2 {
                    let mut out = String::new();
                    ensure!(l.write_errors(&mut out).is_ok(), "write_errors fails");
                    let got = reported(&out)?;
                    ensure!(got == want, "reported at {:?}, the failed tokens start at {:?}", got, want);
                }
            }
        }
    }
    let mut out = String::new();
    ensure!(l.write_errors(&mut out).is_ok(), "write_errors fails");
    let got = reported(&out)?;
    ensure!(got == want, "reported at {:?}, the failed tokens start at {:?}", got, want);
    Ok(())
}

fn all_strings(c: &mut Ctx, al: &[char], max: usize, f: fn(&str) -> Result<(), String>) {
    let mut level: Vec<String> = vec![String::new()];
    for n in 0..=max {
        for s in &level {
            c.case(format!("{:?}", s), s.chars().count() >= 2, || f(s));
        }
        if n < max {
            level = level.iter().flat_map(|s| al.iter().map(move |&x| { let mut y = s.clone(); y.push(x); y })).collect();
        }
    }
}
fn pieces(r: &mut Rng) -> String {
    const P: &[&str] = &[
        " ", "\n", "\r\n", "\t", "\u{a0}", "\u{3000}", "a", "Zz_9", "_", "x1", "0", "12", "9223372036854775807", "9223372036854775808", "00", "1.5", "1.", "1.2.3", ".5", "3.14x",
        "99999999999999999999", "0.1.", "1..2", "{", "}", "[", "]", "=", ",", ";", "->", "-", "--", ">", "\"", "\"a\"", "\"\\n\"", "\"\\t\\r\\q\"", "\"\\\\\"", "\"\\\"\"", "\\", "\"\n\"",
        "é", "日本", "😀", "\u{feff}", "\u{301}", "\"é😀\"", "/", "#", "\u{0}", "ß", "٣", "²",
    ];
    P[r.below(P.len())].to_string()
}
/// more characters, tokens and lines than 16 bits can count
fn long(c: &mut Ctx, f: fn(&str) -> Result<(), String>) {
    for (what, one, tail) in [
        ("a letter", "a", "#"), ("a blank", " ", "#"), ("a line break", "\n", "#"), ("a digit", "7", " #"), ("a one and a blank", "1 ", "#"), ("a brace", "{", "#"),
        ("a number sign and a line break", "#\n", "a"), ("a two-byte letter", "é", "#"), ("an arrow", "->", "-"), ("a string", "\"ab\"", "\"x"), ("a line of one letter", "b\n", "  #"),
    ] {
        // each report counts the lines from the start, so many of them take long
        let n = if one.starts_with(['#', 'é']) { 3000 } else { 70_000 };
        let s = format!("{}{}", one.repeat(n), tail);
        c.case(format!("{} {} times, then {:?}", what, n, tail), true, || f(&s));
        let s = format!("\"{}\" {}", one.replace('"', "'").repeat(n), tail);
        c.case(format!("a string of {} {} times, then {:?}", what, n, tail), true, || f(&s));
    }
    for k in [255, 256, 257, 300, 65_535, 65_536] {
        let s = format!("0.{} {} #", "3".repeat(k), "a".repeat(k));
        c.case(format!("a fraction of {} digits, then a word as long, then a number sign", k), true, || f(&s));
    }
}
fn random(c: &mut Ctx, f: fn(&str) -> Result<(), String>) {
    let mut r = Rng::new(c.seed);
    while c.more() {
        let long = r.chance(1, 10);
        let n = 1 + r.below(if long { 200 } else { 12 });
        let mut s: String = (0..n).map(|_| pieces(&mut r)).collect();
        if r.chance(1, 4) {
            // truncate
            let k = r.below(s.chars().count() + 1);
            s = s.chars().take(k).collect();
        }
        c.case(format!("{:?}", s), n >= 3, || f(&s));
    }
}

pub fn c21(c: &mut Ctx) {
    c.rule("a text from the listed families; tokens, has_errors and the end of the text compared with a tokeniser written from the grammar; non-trivial: at least two characters");
    all_strings(c, &['a', '1', '.', '"', '\\', 'n', '-', '>', ' ', '\n', 'é', '='], if c.thorough { 5 } else { 4 }, |s| check_tokens(s, false));
    all_strings(c, &['1', '.', '9', 'a'], 6, |s| check_tokens(s, true));
    all_strings(c, &['"', '\\', 'n', '日'], 6, |s| check_tokens(s, true));
    for b in (0..0x110000u32).step_by(256) {
        c.case(format!("each character of U+{:04X}.. alone, between letters, in a string and behind a digit", b), false, || {
            for u in b..b + 256 {
                if let Some(x) = char::from_u32(u) {
                    for s in [format!("{}", x), format!("a{}b", x), format!("\"{}\" \"\\{}\"", x, x), format!("1{}", x)] {
                        check_tokens(&s, false).map_err(|e| format!("{:?}: {}", s, e))?;
                    }
                }
            }
            Ok(())
        });
    }
    for d in 1..=25usize {
        for (lead, fill) in [("9", "9"), ("1", "0"), ("0", "9"), ("92233720368547758", "08"), ("92233720368547758", "07"), ("18446744073709551", "615")] {
            let s = format!("{}{}", lead, fill.repeat(d));
            c.case(format!("{:?}", s), true, || check_tokens(&s, false));
            let s = format!("{}.{}", s, s);
            c.case(format!("{:?}", s), true, || check_tokens(&s, false));
        }
    }
    c.exhaustive_note.push("all texts up to 4 characters over 12 characters, up to 6 over the numeral and the string alphabets, every Unicode character in four contexts".into());
    long(c, |s| check_tokens(s, false));
    random(c, |s| check_tokens(s, s.len() % 2 == 0));
}

pub fn c22(c: &mut Ctx) {
    c.rule("a text from the listed families, tokenised to its end through every failure; each report compared with the line and the column counted in characters; non-trivial: at least two characters");
    all_strings(c, &['a', '1', '.', '"', '\\', '-', '>', ' ', '\n', 'é', '😀', '#'], if c.thorough { 5 } else { 4 }, check_reports);
    all_strings(c, &['\n', '\r', 'é', '#', ' ', '\u{2028}'], 5, check_reports);
    for b in (0..0x110000u32).step_by(256) {
        c.case(format!("each character of U+{:04X}.. before and behind a failed token", b), false, || {
            for u in b..b + 256 {
                if let Some(x) = char::from_u32(u) {
                    for s in [format!("{}#", x), format!("\"{}\"#\n{}#", x, x)] {
                        check_reports(&s).map_err(|e| format!("{:?}: {}", s, e))?;
                    }
                }
            }
            Ok(())
        });
    }
    c.exhaustive_note.push("all texts up to 4 characters over 12 characters, up to 5 over line breaks and wide characters, every Unicode character before and behind a failed token".into());
    long(c, check_reports);
    random(c, check_reports);
}
