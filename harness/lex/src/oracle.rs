//! Independent reference of the documented lexing rules.  Patterns are given
//! twice: as text for lexan, as a hand written matcher for the reference.

pub type M = fn(&[u8]) -> usize; // length of the match at the start, 0 if none

pub struct Lex {
    pub lits: Vec<(u32, String)>,
    pub res: Vec<(u32, &'static str, M)>,
    pub skips: Vec<(&'static str, M)>,
    pub end: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Tok(u32),
    Amb(Vec<u32>),
    Unexp,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub kind: Kind,
    pub start: usize,
    pub len: usize,
}

impl Lex {
    pub fn analyzer(&self) -> lexan::LexicalAnalyzer<u32> {
        let lits: Vec<(u32, &str)> = self.lits.iter().map(|x| (x.0, x.1.as_str())).collect();
        let res: Vec<(u32, &str)> = self.res.iter().map(|x| (x.0, x.1)).collect();
        let skips: Vec<&str> = self.skips.iter().map(|x| x.0).collect();
        lexan::LexicalAnalyzer::new(&lits, &res, &skips, self.end)
    }
    fn skip_at(&self, t: &[u8]) -> usize {
        for s in &self.skips {
            let n = (s.1)(t);
            if n > 0 {
                return n;
            }
        }
        0
    }
    pub fn skip_all(&self, t: &[u8]) -> usize {
        let mut p = 0;
        while p < t.len() {
            let n = self.skip_at(&t[p..]);
            if n == 0 {
                break;
            }
            p += n;
        }
        p
    }
    fn lit_at(&self, t: &[u8]) -> Option<(u32, usize)> {
        let mut best: Option<(u32, usize)> = None;
        for (tag, l) in &self.lits {
            let l = l.as_bytes();
            if t.len() >= l.len() && eq(&t[..l.len()], l) && best.is_none_or(|b| b.1 < l.len()) {
                best = Some((*tag, l.len()));
            }
        }
        best
    }
    fn re_at(&self, t: &[u8]) -> (Vec<u32>, usize) {
        let mut n = 0;
        let mut v = vec![];
        for r in &self.res {
            let k = (r.2)(t);
            if k > n {
                n = k;
                v.clear();
            }
            if k > 0 && k == n {
                v.push(r.0);
            }
        }
        (v, n)
    }
    /// Does anything (token or skip) start here?
    fn starts(&self, t: &[u8]) -> bool {
        self.lit_at(t).is_some() || self.re_at(t).1 > 0 || self.skip_at(t) > 0
    }
    pub fn next(&self, t: &[u8], from: usize) -> (usize, Option<Item>) {
        let start = from + self.skip_all(&t[from..]);
        if start >= t.len() {
            return (t.len(), None);
        }
        let r = &t[start..];
        let lit = self.lit_at(r);
        let (tags, rl) = self.re_at(r);
        let ll = lit.map_or(0, |x| x.1);
        let (kind, len) = if ll > 0 && ll >= rl {
            (Kind::Tok(lit.unwrap().0), ll)
        } else if tags.len() == 1 {
            (Kind::Tok(tags[0]), rl)
        } else if tags.len() > 1 {
            (Kind::Amb(tags), rl)
        } else {
            let mut n = 1;
            while n < r.len() && (r[n] & 0xC0 == 0x80 || !self.starts(&r[n..])) {
                n += 1;
            }
            (Kind::Unexp, n)
        };
        (start + len, Some(Item { kind, start, len }))
    }
    pub fn items(&self, t: &[u8]) -> Vec<Item> {
        let mut v = vec![];
        let mut p = 0;
        loop {
            let (q, i) = self.next(t, p);
            match i {
                None => return v,
                Some(i) => v.push(i),
            }
            p = q;
        }
    }
}

pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if a[i] != b[i] {
            return false;
        }
    }
    true
}

/// (line, column) of byte `p`: lines end with '\n', columns count bytes from 1.
pub fn place(t: &[u8], p: usize) -> (usize, usize) {
    let mut line = 1;
    let mut col = 1;
    for b in &t[..p] {
        if *b == b'\n' {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    (line, col)
}

fn run(t: &[u8], f: fn(u8) -> bool) -> usize {
    let mut n = 0;
    while n < t.len() && f(t[n]) {
        n += 1;
    }
    n
}
fn lower(t: &[u8]) -> usize {
    run(t, |b| b.is_ascii_lowercase())
}
fn digits(t: &[u8]) -> usize {
    run(t, |b| b.is_ascii_digit())
}
fn space(t: &[u8]) -> usize {
    // \s restricted to ASCII texts
    run(t, |b| b == b' ' || (9..=13).contains(&b))
}
fn spaces(t: &[u8]) -> usize {
    run(t, |b| b == b' ')
}
fn newlines(t: &[u8]) -> usize {
    run(t, |b| b == b'\n')
}
fn crlf_space(t: &[u8]) -> usize {
    run(t, |b| b == b' ' || b == b'\r' || b == b'\n')
}
fn ab(t: &[u8]) -> usize {
    run(t, |b| b == b'a' || b == b'b')
}
fn bc(t: &[u8]) -> usize {
    run(t, |b| b == b'b' || b == b'c')
}
fn cplus(t: &[u8]) -> usize {
    run(t, |b| b == b'c')
}
fn block_comment(t: &[u8]) -> usize {
    if t.len() < 4 || t[0] != b'/' || t[1] != b'*' {
        return 0;
    }
    let mut i = 2;
    while i + 1 < t.len() {
        if t[i] == b'*' && t[i + 1] == b'/' {
            return i + 2;
        }
        i += 1;
    }
    0
}
fn line_comment(t: &[u8]) -> usize {
    if t.len() < 2 || t[0] != b'/' || t[1] != b'/' {
        return 0;
    }
    let mut i = 2;
    while i < t.len() && t[i] != b'\n' && t[i] != b'\r' {
        i += 1;
    }
    i
}
/// `(ab)|(c)`
fn alt(t: &[u8]) -> usize {
    if t.len() >= 2 && t[0] == b'a' && t[1] == b'b' {
        2
    } else if !t.is_empty() && t[0] == b'c' {
        1
    } else {
        0
    }
}
/// `x*`
fn xs(t: &[u8]) -> usize {
    run(t, |b| b == b'x')
}
/// `(z)|(ya)`
fn alt_skip(t: &[u8]) -> usize {
    if !t.is_empty() && t[0] == b'z' {
        1
    } else if t.len() >= 2 && t[0] == b'y' && t[1] == b'a' {
        2
    } else {
        0
    }
}
/// `w?`
fn opt_w(t: &[u8]) -> usize {
    if !t.is_empty() && t[0] == b'w' { 1 } else { 0 }
}
/// `(x|\n)+`: a token that spans lines
fn x_or_nl(t: &[u8]) -> usize {
    run(t, |b| b == b'x' || b == b'\n')
}
/// `[α-ω]+` (U+03B1..U+03C9)
fn greek(t: &[u8]) -> usize {
    let mut n = 0;
    while n + 1 < t.len() {
        let ok = (t[n] == 0xCE && t[n + 1] >= 0xB1 && t[n + 1] <= 0xBF)
            || (t[n] == 0xCF && t[n + 1] >= 0x80 && t[n + 1] <= 0x89);
        if !ok {
            break;
        }
        n += 2;
    }
    n
}

fn l(v: &[(u32, &str)]) -> Vec<(u32, String)> {
    v.iter().map(|x| (x.0, x.1.to_string())).collect()
}

/// Keywords, operators with common prefixes, identifiers, numbers, blanks.
pub fn core() -> (Lex, &'static [u8]) {
    (
        Lex {
            lits: l(&[(3, "=="), (1, "if"), (2, "=")]),
            res: vec![(4, "[a-z]+", lower), (5, "[0-9]+", digits)],
            skips: vec![(r"\s+", space)],
            end: 0,
        },
        b"if=7 \n;",
    )
}
/// Patterns that can tie, with and without a literal of the same length.
pub fn ambig() -> (Lex, &'static [u8]) {
    (
        Lex {
            lits: l(&[(1, "ab"), (7, "ccc")]),
            res: vec![(3, "[bc]+", bc), (2, "[ab]+", ab), (5, "c+", cplus)],
            skips: vec![("( )+", spaces)],
            end: 9,
        },
        b"abc d",
    )
}
/// Comments and white space, with tokens that start like a comment.
pub fn comments() -> (Lex, &'static [u8]) {
    (
        Lex {
            lits: l(&[(1, "/"), (2, "*"), (3, "/*")]),
            res: vec![(4, "[a-z]+", lower)],
            skips: vec![
                (r"(/\*(.|[\n\r])*?\*/)", block_comment),
                (r"(//[^\n\r]*)", line_comment),
                (r"(\s+)", space),
            ],
            end: 0,
        },
        b"/*a\n\r",
    )
}
/// Literals only: prefixes of each other, dead ends in the middle.
pub fn lits() -> (Lex, &'static [u8]) {
    (
        Lex {
            lits: l(&[(5, "abcd"), (1, "a"), (2, "ab"), (3, "bc"), (4, "d"), (6, "ddda")]),
            res: vec![],
            skips: vec![],
            end: 0,
        },
        b"abcdx",
    )
}
/// Alternatives at top level and patterns that match the empty text.
pub fn alts() -> (Lex, &'static [u8]) {
    (
        Lex {
            lits: l(&[(1, "a"), (6, "-")]),
            res: vec![(2, "(ab)|(c)", alt), (3, "x*", xs)],
            skips: vec![("(z)|(ya)", alt_skip), ("w?", opt_w)],
            end: 0,
        },
        b"abcxyzw",
    )
}
/// Every kind of line ending inside tokens, skipped and unexpected text.
pub fn lines() -> (Lex, &'static [u8]) {
    (
        Lex {
            lits: l(&[(1, "\r\n"), (2, "b")]),
            res: vec![(3, r"(x|\n)+", x_or_nl)],
            skips: vec![(r"( )+", spaces)],
            end: 0,
        },
        b"bx \r\n!",
    )
}
pub fn skip_lines() -> (Lex, &'static [u8]) {
    (
        Lex { lits: l(&[(1, "b")]), res: vec![], skips: vec![(r"[ \r\n]+", crlf_space)], end: 0 },
        b"b \r\n!",
    )
}
/// Only one skip per line end, several skip rules in a row.
pub fn skip_seq() -> (Lex, &'static [u8]) {
    (
        Lex {
            lits: l(&[(1, "b")]),
            res: vec![(2, "[0-9]+", digits)],
            skips: vec![(r"\n+", newlines), ("z|ya", alt_skip), (" +", spaces)],
            end: 0,
        },
        b"b3 \nzya",
    )
}
/// Multi-byte characters that share their leading bytes with tokens.
pub fn wide() -> (Lex, &'static [&'static str]) {
    (
        Lex {
            lits: l(&[(1, "é"), (2, "a"), (4, "aé")]),
            res: vec![(3, "[α-ω]+", greek)],
            skips: vec![(" +", spaces), (r"\n", newlines1)],
            end: 0,
        },
        &["a", "é", "ê", "β", "À", "→", "😀", " ", "\n", "!"],
    )
}
fn newlines1(t: &[u8]) -> usize {
    if !t.is_empty() && t[0] == b'\n' { 1 } else { 0 }
}
