//! Harness entries for the lexical analyser (C01..C06).
#[path = "../../common/sym.rs"]
mod sym;
mod oracle;

use lexan::{Error, Location, Token, TokenStream};
use oracle::*;
use sym::*;

type R = Result<Token<u32>, Error<u32>>;

fn same(a: &str, b: &str) -> bool {
    eq(a.as_bytes(), b.as_bytes())
}
fn same_loc(l: &Location, label: &str, p: (usize, usize)) -> bool {
    l.line_number() == p.0 && l.offset() == p.1 && same(l.label(), label)
}
fn err_loc(e: &Error<u32>) -> &Location {
    match e {
        Error::UnexpectedText(_, l) => l,
        Error::AmbiguousMatches(_, _, l) => l,
        Error::AdvancedWhenEmpty(l) => l,
    }
}
/// The text a stream element stands for (None: end of stream reported).
fn lexeme(r: &R) -> Option<&str> {
    match r {
        Ok(t) => Some(t.lexeme()),
        Err(Error::UnexpectedText(s, _)) => Some(s),
        Err(Error::AmbiguousMatches(_, s, _)) => Some(s),
        Err(Error::AdvancedWhenEmpty(_)) => None,
    }
}
fn is_end(r: &R, end: u32) -> bool {
    match r {
        Ok(t) => *t.tag() == end,
        _ => false,
    }
}
fn is_empty_error(r: &R) -> bool {
    matches!(r, Err(Error::AdvancedWhenEmpty(_)))
}
fn same_res(a: &R, b: &R) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            a.tag() == b.tag()
                && same(a.lexeme(), b.lexeme())
                && same_loc(a.location(), b.location().label(), (b.location().line_number(), b.location().offset()))
        }
        (Err(a), Err(b)) => {
            let (x, y) = (err_loc(a), err_loc(b));
            same_loc(x, y.label(), (y.line_number(), y.offset()))
                && match (a, b) {
                    (Error::UnexpectedText(a, _), Error::UnexpectedText(b, _)) => same(a, b),
                    (Error::AmbiguousMatches(l, a, _), Error::AmbiguousMatches(k, b, _)) => {
                        l.0.len() == k.0.len() && (0..l.0.len()).all(|i| l.0[i] == k.0[i]) && same(a, b)
                    }
                    (Error::AdvancedWhenEmpty(_), Error::AdvancedWhenEmpty(_)) => true,
                    _ => false,
                }
        }
        _ => false,
    }
}

// ---------------------------------------------------------------- C01
/// In order, without overlap, nothing dropped but skippable text, one end
/// token, then only "advanced when empty".
fn partition(lex: &Lex, text: &str) {
    let t = text.as_bytes();
    let an = lex.analyzer();
    let mut ts = an.token_stream(text, "in");
    let mut pos = lex.skip_all(t);
    if pos == t.len() {
        check!(ts.is_empty(), 1, "a text without tokens gave a non empty stream");
        check!(is_empty_error(&ts.front()), 2, "a text without tokens gave a front token");
        cover(1);
        return;
    }
    let mut n = 0;
    loop {
        check!(!ts.is_empty(), 3, "stream empty before its end token");
        let f = ts.front();
        check!(same_res(&f, &ts.front()), 4, "front() is not repeatable");
        match lexeme(&f) {
            None => fail(5, "advanced-when-empty before the end of the text"),
            Some(s) => {
                check!(!is_end(&f, lex.end), 6, "end token before the end of the text");
                let s = s.as_bytes();
                check!(!s.is_empty(), 7, "element without text");
                check!(pos + s.len() <= t.len() && eq(&t[pos..pos + s.len()], s), 8, "element is not the next part of the text");
                pos += s.len();
                pos += lex.skip_all(&t[pos..]);
                n += 1;
                observe(s.len() as u64);
            }
        }
        check!(n <= t.len(), 9, "more elements than bytes");
        // all three ways of moving on must agree
        if n & 1 == 1 {
            check!(same_res(&ts.front_advance(), &f), 10, "front_advance() returned something else than the front");
        } else {
            let g = ts.advance_front();
            check!(same_res(&g, &ts.front()), 11, "advance_front() returned something else than the new front");
        }
        if pos >= t.len() {
            break;
        }
    }
    let e = ts.front();
    check!(is_end(&e, lex.end), 12, "no end token after the whole text");
    check!(lexeme(&e) == Some(""), 13, "end token with text");
    check!(ts.is_empty(), 14, "stream not empty at its end token");
    check!(same_res(&ts.front_advance(), &e), 15, "end token lost by front_advance()");
    for _ in 0..2 {
        check!(is_empty_error(&ts.front()), 16, "something follows the end token");
        ts.advance();
        check!(ts.is_empty(), 17, "ended stream became non empty");
    }
    cover(2);
    if n > 1 {
        cover(3);
    }
}

// ---------------------------------------------------------------- C02
fn choice(lex: &Lex, text: &str) {
    let t = text.as_bytes();
    let an = lex.analyzer();
    let mut ts = an.token_stream(text, "");
    let (mut p, mut item) = lex.next(t, 0);
    while let Some(i) = item {
        let want = &t[i.start..i.start + i.len];
        let f = ts.front_advance();
        match (&f, &i.kind) {
            (Ok(k), Kind::Tok(tag)) => {
                check!(k.tag() == tag, 20, "wrong token");
                check!(eq(k.lexeme().as_bytes(), want), 21, "wrong extent of a token");
                cover(1);
            }
            (Err(Error::AmbiguousMatches(l, s, _)), Kind::Amb(tags)) => {
                check!(l.0.len() == tags.len(), 22, "wrong set of ambiguous tokens");
                for x in tags {
                    check!(l.0.contains(x), 22, "wrong set of ambiguous tokens");
                }
                check!(eq(s.as_bytes(), want), 23, "wrong extent of ambiguous text");
                cover(2);
            }
            (Err(Error::UnexpectedText(_, _)), Kind::Unexp) => {
                // its extent is C04
                cover(3);
            }
            (_, Kind::Tok(_)) => fail(24, "no token where one matches"),
            (_, Kind::Amb(_)) => fail(25, "ambiguity not reported"),
            (_, Kind::Unexp) => fail(26, "token or ambiguity where nothing matches"),
        }
        let n = lexeme(&f).unwrap_or("").len();
        observe(n as u64);
        // resume where the implementation stopped
        let (q, j) = lex.next(t, i.start + n);
        p = q;
        item = j;
    }
    let _ = p;
}

// ---------------------------------------------------------------- C03
fn places(lex: &Lex, text: &str, label: &str) {
    let t = text.as_bytes();
    let an = lex.analyzer();
    let mut ts = an.token_stream(text, label);
    let mut p = lex.skip_all(t);
    if p == t.len() {
        return;
    }
    while p < t.len() {
        let f = ts.front_advance();
        let at = place(t, p);
        match &f {
            Ok(k) => {
                check!(same_loc(k.location(), label, at), 30, "wrong location of a token");
                cover(1);
            }
            Err(e) => {
                check!(same_loc(err_loc(e), label, at), 31, "wrong location of an error");
                cover(2);
            }
        }
        let n = lexeme(&f).unwrap_or("").len();
        if n == 0 {
            return; // C01
        }
        p += n;
        p += lex.skip_all(&t[p..]);
        observe(at.0 as u64 * 100 + at.1 as u64);
    }
    if let Ok(k) = ts.front() {
        check!(same_loc(k.location(), label, place(t, t.len())), 32, "wrong location of the end token");
        cover(3);
    }
    // advancing further reports the place of the end
    ts.advance();
    if let Err(e) = ts.front() {
        check!(same_loc(err_loc(&e), label, place(t, t.len())), 33, "wrong location when advanced past the end");
    }
}
fn decimal(mut n: usize, s: &mut String) {
    let mut d = vec![];
    loop {
        d.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    while let Some(c) = d.pop() {
        s.push(c as char);
    }
}
fn shown(label: &str, at: (usize, usize)) -> String {
    let mut s = String::new();
    let quote = label.bytes().any(|b| b == b' ' || b == b'\t');
    if quote {
        s.push('"');
    }
    s.push_str(label);
    if quote {
        s.push('"');
    }
    if !label.is_empty() {
        s.push(':');
    }
    decimal(at.0, &mut s);
    s.push(':');
    decimal(at.1, &mut s);
    s
}
#[unsafe(no_mangle)]
pub extern "C" fn c03_display() {
    let mut p = Pool(0);
    let (lex, _) = lines();
    let an = lex.analyzer();
    let label = p.text(0, 3, b"a \t:\"");
    let text = p.text(1, 3, b"b \n!");
    let t = text.as_bytes();
    let at = lex.skip_all(t);
    if at == t.len() {
        return;
    }
    let ts = an.token_stream(&text, &label);
    let f = ts.front();
    let l = match &f {
        Ok(k) => k.location(),
        Err(e) => err_loc(e),
    };
    let s = l.to_string();
    observe(s.len() as u64);
    check!(same(&s, &shown(&label, place(t, at))), 34, "location shown wrongly");
    cover(1);
}

// ---------------------------------------------------------------- C04
/// Where nothing matches, exactly the text up to the next place where a
/// token or skip pattern matches is reported, and lexing resumes there.
fn unexpected(lex: &Lex, text: &str) {
    let t = text.as_bytes();
    let an = lex.analyzer();
    let mut ts = an.token_stream(text, "l");
    let (mut q, mut item) = lex.next(t, 0);
    while let Some(i) = item {
        let f = ts.front_advance();
        if let Kind::Unexp = i.kind {
            match &f {
                Err(Error::UnexpectedText(s, _)) => {
                    check!(eq(s.as_bytes(), &t[i.start..i.start + i.len]), 40, "wrong extent of unexpected text");
                    cover(1);
                }
                _ => fail(41, "unexpected text not reported"),
            }
        } else {
            check!(!matches!(f, Err(Error::UnexpectedText(_, _))), 42, "text reported as unexpected though a token matches");
            cover(2);
        }
        observe(i.len as u64);
        let (q2, j) = lex.next(t, q);
        q = q2;
        item = j;
    }
    check!(is_end(&ts.front(), lex.end) || lex.skip_all(t) == t.len(), 43, "lexing does not resume after unexpected text");
}

macro_rules! ascii {
    ($($n:ident $f:ident $c:ident $min:expr, $max:expr;)*) => {$(
        #[unsafe(no_mangle)]
        pub extern "C" fn $n() {
            let (lex, al) = $c();
            let text = Pool(0).text($min, $max, al);
            $f(&lex, &text);
        }
    )*};
}
macro_rules! chars {
    ($($n:ident $f:ident $c:ident $min:expr, $max:expr;)*) => {$(
        #[unsafe(no_mangle)]
        pub extern "C" fn $n() {
            let (lex, al) = $c();
            let text = Pool(0).chars($min, $max, al);
            $f(&lex, &text);
        }
    )*};
}
macro_rules! utf8 {
    ($($n:ident $f:ident $c:ident $len:expr;)*) => {$(
        #[unsafe(no_mangle)]
        pub extern "C" fn $n() {
            let (lex, _) = $c();
            if let Some(text) = Pool(0).utf8($len) {
                $f(&lex, &text);
            }
        }
    )*};
}
fn c03(lex: &Lex, text: &str) {
    places(lex, text, "some label")
}
ascii! {
    c01_core partition core 0, 4;
    c01_ambig partition ambig 0, 4;
    c01_comments partition comments 0, 5;
    c01_lits partition lits 0, 5;
    c01_alts partition alts 0, 4;
    c01_skip_seq partition skip_seq 0, 4;
    c01_core_t partition core 0, 5;
    c01_ambig_t partition ambig 0, 6;
    c01_comments_t partition comments 0, 6;
    c01_lits_t partition lits 0, 7;
    c01_alts_t partition alts 0, 5;
    c01_skip_seq_t partition skip_seq 0, 6;

    c02_core choice core 1, 4;
    c02_ambig choice ambig 1, 4;
    c02_comments choice comments 1, 5;
    c02_lits choice lits 1, 5;
    c02_alts choice alts 1, 4;
    c02_core_t choice core 1, 5;
    c02_ambig_t choice ambig 1, 6;
    c02_comments_t choice comments 1, 6;
    c02_lits_t choice lits 1, 7;
    c02_alts_t choice alts 1, 5;

    c03_lines c03 lines 1, 4;
    c03_skip_lines c03 skip_lines 1, 5;
    c03_comments c03 comments 1, 4;
    c03_lines_t c03 lines 1, 6;
    c03_skip_lines_t c03 skip_lines 1, 7;
    c03_comments_t c03 comments 1, 6;

    c04_core unexpected core 1, 4;
    c04_lits unexpected lits 1, 5;
    c04_skip_seq unexpected skip_seq 1, 4;
    c04_core_t unexpected core 1, 5;
    c04_lits_t unexpected lits 1, 7;
    c04_skip_seq_t unexpected skip_seq 1, 5;
}
chars! {
    c01_wide partition wide 0, 3;
    c02_wide choice wide 1, 3;
    c03_wide c03 wide 1, 3;
    c04_wide unexpected wide 1, 3;
    c01_wide_t partition wide 0, 4;
    c02_wide_t choice wide 1, 4;
    c03_wide_t c03 wide 1, 4;
    c04_wide_t unexpected wide 1, 4;
}
utf8! {
    c04_utf8_1 unexpected wide 1;
    c04_utf8_2 unexpected wide 2;
    c04_utf8_3 unexpected wide 3;
    c01_utf8_2 partition wide 2;
    c01_utf8_3 partition wide 3;
    c04_utf8_4 unexpected wide 4;
    c01_utf8_4 partition wide 4;
}

/// Different literals of one to `lit_max` characters, a pattern of the same
/// characters: literals are part of the input.
fn sym_lits(f: fn(&Lex, &str), n: usize, text_max: usize, lit_max: usize, with_re: bool) {
    let mut p = Pool(0);
    let mut lits: Vec<(u32, String)> = vec![];
    for i in 0..n {
        let a = p.pick_text(1, lit_max, b"ab");
        if lits.iter().any(|x| same(&x.1, &a)) {
            return;
        }
        lits.push((i as u32 + 1, a));
    }
    let lex = Lex {
        lits,
        res: if with_re { vec![(9, "a[ab]", |t| if t.len() > 1 && t[0] == b'a' && (t[1] == b'a' || t[1] == b'b') { 2 } else { 0 })] } else { vec![] },
        skips: vec![],
        end: 0,
    };
    let text = p.text(1, text_max, b"abc");
    f(&lex, &text);
}
macro_rules! symlits {
    ($($e:ident: $($x:expr),*;)*) => {$(
        #[unsafe(no_mangle)]
        pub extern "C" fn $e() {
            sym_lits($($x),*)
        }
    )*};
}
symlits! {
    c01_symlits: partition, 2, 4, 2, false;
    c01_symlits_t: partition, 2, 4, 3, true;
    c02_symlits: choice, 3, 3, 2, false;
    c02_symlits_re: choice, 3, 2, 2, true;
    c02_symlits_t: choice, 3, 4, 3, false;
    c02_symlits_re_t: choice, 3, 3, 3, true;
    c04_symlits: unexpected, 2, 4, 3, false;
    c04_symlits_t: unexpected, 2, 5, 3, true;
}

// ---------------------------------------------------------------- C05
struct Src {
    text: &'static str,
    label: &'static str,
    items: Vec<Item>,
    at: usize,
}
fn match_item(r: &R, s: &Src, i: &Item) -> bool {
    let t = s.text.as_bytes();
    let at = place(t, i.start);
    match (r, &i.kind) {
        (Ok(k), Kind::Tok(tag)) => {
            k.tag() == tag && eq(k.lexeme().as_bytes(), &t[i.start..i.start + i.len]) && same_loc(k.location(), s.label, at)
        }
        (Err(Error::AmbiguousMatches(l, x, loc)), Kind::Amb(tags)) => {
            l.0.len() == tags.len() && eq(x.as_bytes(), &t[i.start..i.start + i.len]) && same_loc(loc, s.label, at)
        }
        (Err(Error::UnexpectedText(x, loc)), Kind::Unexp) => {
            eq(x.as_bytes(), &t[i.start..i.start + i.len]) && same_loc(loc, s.label, at)
        }
        _ => false,
    }
}
fn inject(ops: usize, texts: &'static [(&'static str, &'static str)]) {
    let mut p = Pool(0);
    let (lex, _) = ambig();
    let an = lex.analyzer();
    // everything about the texts that does not depend on the operations
    let all: Vec<Vec<Item>> = texts.iter().map(|x| lex.items(x.0.as_bytes())).collect();
    let mut stack: Vec<Src> = vec![];
    // what the front must be when no text is left
    let mut last: Option<(Option<(usize, usize)>, &'static str, bool)> = Some((None, "", false));
    let mut ts: Option<TokenStream<u32>> = None;
    for k in 0..ops {
        // the first operation creates the stream
        let op = if k == 0 { 2 + p.choose(texts.len()) } else { p.choose(2 + texts.len()) };
        if op < 2 {
            let ts = ts.as_mut().unwrap();
            // op 0: advance(), op 1: advance_front()
            if op == 0 {
                ts.advance();
            } else {
                let f = ts.advance_front();
                check!(same_res(&f, &ts.front()), 50, "advance_front() returned something else than the new front");
            }
            if stack.is_empty() {
                if let Some((l, lb, _)) = last {
                    last = Some((l, lb, false));
                }
            } else {
                let n = stack.len();
                stack[n - 1].at += 1;
                while let Some(s) = stack.last() {
                    if s.at < s.items.len() {
                        break;
                    }
                    let s = stack.pop().unwrap();
                    let t = s.text.as_bytes();
                    last = Some((Some(place(t, t.len())), s.label, true));
                    if !stack.is_empty() {
                        cover(4);
                    }
                }
            }
        } else {
            let (text, label) = texts[op - 2];
            let items = all[op - 2].clone();
            match ts.as_mut() {
                None => ts = Some(an.token_stream(text, label)),
                Some(ts) => ts.inject(text, label),
            }
            if !items.is_empty() {
                stack.push(Src { text, label, items, at: 0 });
                if stack.len() > 2 {
                    cover(1);
                }
            }
        }
        let ts = ts.as_ref().unwrap();
        let f = ts.front();
        check!(ts.is_empty() == stack.is_empty(), 51, "is_empty() is wrong");
        match stack.last() {
            Some(s) => {
                check!(match_item(&f, s, &s.items[s.at]), 52, "wrong element at the front of nested texts");
                cover(2);
                observe(s.at as u64);
            }
            None => match last {
                Some((l, lb, true)) => {
                    check!(is_end(&f, lex.end) && lexeme(&f) == Some(""), 53, "no end token after nested texts");
                    if let (Ok(k), Some(l)) = (&f, l) {
                        check!(same_loc(k.location(), lb, l), 54, "wrong location of the end token after nested texts");
                    }
                    cover(3);
                }
                _ => check!(is_empty_error(&f), 55, "wrong front of an exhausted stream"),
            },
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c05_ops() {
    inject(6, &[("ab b", "one"), (" ", "two"), ("c\u{64}a\n", "three")]);
}
#[unsafe(no_mangle)]
pub extern "C" fn c05_ops_t() {
    inject(8, &[("ab b", "one"), ("", "two"), ("cd", "three"), ("ccc ", "")]);
}
/// One text is taken apart at a symbolic place, with another injected there.
fn splice(m1: usize, m2: usize) {
    let mut p = Pool(0);
    let (lex, al) = ambig();
    let an = lex.analyzer();
    let t1 = p.text(1, m1, al);
    let k = p.choose(3);
    let t2 = p.text(0, m2, al);
    let i1 = lex.items(t1.as_bytes());
    let i2 = lex.items(t2.as_bytes());
    let mut ts = an.token_stream(&t1, "A");
    for _ in 0..k {
        if ts.is_empty() {
            return;
        }
        ts.advance();
    }
    if ts.is_empty() {
        return;
    }
    ts.inject(&t2, "B");
    for i in &i2 {
        check!(match_parts(&ts.front_advance(), &t2, "B", i), 56, "wrong element of an injected text");
        cover(1);
    }
    for i in &i1[k.min(i1.len())..] {
        check!(match_parts(&ts.front_advance(), &t1, "A", i), 57, "wrong element after an injected text");
        cover(2);
    }
    let f = ts.front_advance();
    check!(is_end(&f, lex.end), 58, "no end token after an injected text");
    if let Ok(t) = &f {
        check!(same_loc(t.location(), "A", place(t1.as_bytes(), t1.len())), 59, "wrong location of the end token after an injected text");
    }
    observe(i1.len() as u64 * 10 + i2.len() as u64);
}
fn match_parts(r: &R, text: &str, label: &str, i: &Item) -> bool {
    let t = text.as_bytes();
    let want = &t[i.start..i.start + i.len];
    let at = place(t, i.start);
    match (r, &i.kind) {
        (Ok(k), Kind::Tok(tag)) => k.tag() == tag && eq(k.lexeme().as_bytes(), want) && same_loc(k.location(), label, at),
        (Err(Error::AmbiguousMatches(_, x, loc)), Kind::Amb(_)) => eq(x.as_bytes(), want) && same_loc(loc, label, at),
        (Err(Error::UnexpectedText(x, loc)), Kind::Unexp) => eq(x.as_bytes(), want) && same_loc(loc, label, at),
        _ => false,
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c05_splice() {
    splice(3, 2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c05_splice_t() {
    splice(4, 3)
}

// ---------------------------------------------------------------- C06
/// A lexicon is refused exactly when tags repeat (the end marker is one),
/// patterns repeat, a pattern is empty or a pattern is not well formed.
fn lexicon(nl: usize, nr: usize, ns: usize, pats: &[&'static str], bad: u32, any_tag: bool) {
    let mut p = Pool(0);
    let end = p.pick(2) as u32;
    let mut tags = vec![end];
    let mut used: Vec<usize> = vec![];
    let (mut lits, mut res, mut skips) = (vec![], vec![], vec![]);
    let mut ok = true;
    let (cl, cr, cs) = (p.pick(nl + 1), p.pick(nr + 1), p.pick(ns + 1));
    for i in 0..cl + cr + cs {
        let k = p.pick(pats.len());
        let pat = pats[k];
        let mut dup = false;
        // literals may be any text, patterns must be well formed
        let broken = i >= cl && bad >> k & 1 == 1;
        for u in &used {
            dup |= *u == k;
        }
        used.push(k);
        ok &= !dup && !broken && !pat.is_empty();
        if i < cl + cr {
            let t = if any_tag { p.pick(3) as u32 } else { i as u32 + 2 };
            for u in &tags {
                ok &= *u != t;
            }
            tags.push(t);
            if i < cl {
                lits.push((t, pat));
            } else {
                res.push((t, pat));
            }
        } else {
            skips.push(pat);
        }
    }
    if !ok {
        cover(1);
        expect_panic();
    } else {
        cover(2);
    }
    let a = lexan::LexicalAnalyzer::<u32>::new(&lits, &res, &skips, end);
    if !ok {
        drop(a);
        fail(60, "an invalid lexicon was accepted");
    }
    observe(lits.len() as u64);
}
macro_rules! lexicons {
    ($($e:ident: $($x:expr),*;)*) => {$(
        #[unsafe(no_mangle)]
        pub extern "C" fn $e() {
            lexicon($($x),*)
        }
    )*};
}
lexicons! {
    c06_lits: 3, 0, 0, &["a", "", "ab", "a("], 8, true;
    c06_mixed: 1, 1, 1, &["a", "", "b", "a("], 8, true;
    c06_res: 0, 2, 1, &["a", "", "b", "[z-a]"], 8, true;
    c06_order: 1, 1, 4, &["c", "a", "b"], 0, false;
    c06_order_lits: 4, 0, 1, &["c", "a", "b", "ab"], 0, false;
    c06_mixed_t: 2, 1, 1, &["a", "", "b", "a(", "*"], 24, true;
    c06_res_t: 0, 2, 2, &["a", "", "b", "[z-a]"], 8, true;
    c06_order_t: 2, 2, 4, &["c", "a", "b", "d"], 0, false;
}
