//! Harness entries for the parser generators: the real generator runs on a
//! specification whose interesting bytes are symbolic; the parser code it
//! writes (to a virtual file) is read back and run on symbolic token strings.
#[path = "../../common/sym.rs"]
mod sym;
mod code;
mod lang;
use code::*;
use lang::*;
use sym::*;

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Refused {
    /// the text of the specification does not parse
    Parse,
    Errors(u32),
    Undefined(u32),
    SR(u32, u32),
    RR(u32, u32),
}

macro_rules! generator {
    ($m:ident, $lib:ident) => {
        pub mod $m {
            use super::Refused;
            use $lib::grammar::{Error, Grammar, Specification};
            pub const OUT: &str = concat!(stringify!($m), "-out.rs");
            pub fn spec(text: &str) -> Result<Specification, Refused> {
                Specification::new(text, "spec").map_err(|_| Refused::Parse)
            }
            pub fn grammar(spec: Specification, ignore_sr: bool, ignore_rr: bool) -> Result<Grammar, Refused> {
                Grammar::try_from((spec, ignore_sr, ignore_rr)).map_err(|e| match e {
                    Error::TooManyErrors(n) => Refused::Errors(n),
                    Error::UndefinedSymbols(n) => Refused::Undefined(n),
                    Error::UnexpectedSRConflicts(n, m, _) => Refused::SR(n, m),
                    Error::UnexpectedRRConflicts(n, m, _) => Refused::RR(n, m),
                })
            }
            pub fn code(g: &Grammar) -> Vec<u8> {
                g.write_parser_code_to_file(std::path::Path::new(OUT)).expect("no I/O error");
                super::sym::file(OUT).expect("no file was written")
            }
            pub fn describe(g: &Grammar) -> Vec<u8> {
                let p = "description.txt";
                g.write_description(std::path::Path::new(p)).expect("no I/O error");
                super::sym::file(p).expect("no file was written")
            }
            /// What is said about conflicts.
            pub fn report(text: &str, ignore_sr: bool, ignore_rr: bool) -> Option<String> {
                match Grammar::try_from((spec(text).ok()?, ignore_sr, ignore_rr)) {
                    Err(Error::UnexpectedSRConflicts(_, _, s)) | Err(Error::UnexpectedRRConflicts(_, _, s)) => Some(s),
                    _ => None,
                }
            }
            /// Everything that comes of a specification: verdict, code, description, messages.
            pub fn all(text: &str) -> (Option<Refused>, Vec<u8>, Vec<u8>, Vec<u8>) {
                super::sym::watch_stderr();
                match spec(text).and_then(|s| grammar(s, false, false)) {
                    Err(r) => (Some(r), vec![], vec![], super::sym::stderr()),
                    Ok(g) => {
                        let (c, d) = (code(&g), describe(&g));
                        (None, c, d, super::sym::stderr())
                    }
                }
            }
            /// The verdict and what is printed.
            pub fn said(text: &str) -> (Option<Refused>, Vec<u8>) {
                super::sym::watch_stderr();
                let r = spec(text).and_then(|s| grammar(s, false, false)).err();
                (r, super::sym::stderr())
            }
            pub fn generate(text: &str, ignore: bool) -> Result<Vec<u8>, Refused> {
                Ok(code(&grammar(spec(text)?, ignore, ignore)?))
            }
        }
    };
}
generator!(plain, lalr1_lib);
generator!(aug, alalr1_lib);

type Generate = fn(&str, bool) -> Result<Vec<u8>, Refused>;

/// Appends an ASCII byte that may be symbolic: one byte long, whatever it is.
fn put(s: &mut String, b: u8) {
    unsafe { s.as_mut_vec().push(b) }
}
/// Makes a generator compile its (lazily compiled) patterns: done before any
/// choice is made, it is executed once and not once per path.
fn warm(generate: Generate) {
    let mut text = HEAD.to_string();
    text.push_str("%%\n%token a \"a\"\n%%\nS: a .\n");
    check!(generate(&text, false).is_ok(), 1, "a trivial specification is refused");
}

const TERMS: [&[u8]; 4] = [b"AAEnd", b"a", b"b", b"c"];
const NTS: [&[u8]; 5] = [b"S", b"A", b"B", b"C", b"D"];

pub const HEAD: &str = "%{\n%}\n%attr X\n%target Y\n";

/// Token definitions for the first `n` of a, b, c, d.
fn tokens_abcd(n: usize) -> String {
    let mut s = String::from("%%\n");
    for t in &["a", "b", "c", "d"][..n] {
        s.push_str("%token ");
        s.push_str(t);
        s.push_str(" \"");
        s.push_str(t);
        s.push_str("\"\n");
    }
    s
}

/// Rules with holes: '#' is any symbol of the alphabet, '?' any terminal, each
/// '*' (they come last) any symbol or nothing, letters stand for themselves.
pub struct Shape {
    /// terminals, non terminals
    pub nt: usize,
    pub nn: usize,
    pub alphabet: &'static [u8],
    pub rules: &'static [(u8, &'static [u8])],
    /// longest text
    pub max: usize,
}
/// Right hand sides as (still symbolic) bytes of the specification.
fn holes(pool: &mut Pool, shape: &Shape) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for (_, p) in shape.rules {
        let mut r = vec![];
        let opt = p.iter().filter(|x| **x == b'*').count();
        let n = p.len() - opt + if opt > 0 { pool.pick(opt + 1) } else { 0 };
        for c in &p[..n] {
            r.push(match *c {
                b'#' | b'*' => pool.byte_of(shape.alphabet),
                b'?' => pool.byte_of(&b"abc"[..shape.nt]),
                x => x,
            });
        }
        v.push(r);
    }
    v
}
fn rules(shape: &Shape, holes: &[Vec<u8>]) -> String {
    let mut s = vec![];
    for (i, (lhs, _)) in shape.rules.iter().enumerate() {
        if i == 0 || shape.rules[i - 1].0 != *lhs {
            if i > 0 {
                s.extend_from_slice(b" .\n");
            }
            s.push(*lhs);
            s.extend_from_slice(b":");
        } else {
            s.extend_from_slice(b" |");
        }
        for b in &holes[i] {
            s.push(b' ');
            s.push(*b);
        }
    }
    s.extend_from_slice(b" .\n");
    unsafe { String::from_utf8_unchecked(s) }
}
fn symbol(b: u8) -> u8 {
    if b == b'a' {
        1
    } else if b == b'b' {
        2
    } else if b == b'c' {
        3
    } else if b == b'S' {
        NT
    } else if b == b'A' {
        NT + 1
    } else if b == b'B' {
        NT + 2
    } else if b == b'C' {
        NT + 3
    } else {
        NT + 4
    }
}
/// The grammar the bytes stand for (called once the real code has looked at them).
fn gram(shape: &Shape, holes: &[Vec<u8>]) -> Gram {
    let mut g = Gram { error: 0, prods: vec![], nt: shape.nt, nn: shape.nn, tprec: vec![(0, 0); shape.nt + 1] };
    for (i, (lhs, _)) in shape.rules.iter().enumerate() {
        let rhs = holes[i].iter().map(|b| symbol(*b)).collect();
        g.prods.push(Prod::new(symbol(*lhs), rhs, (0, 0)));
    }
    g
}

#[derive(PartialEq, Debug)]
enum End {
    Accept,
    /// tokens taken before the error, the state, and whether it was found
    /// without a reduction
    Error(usize, usize, bool),
    TooLong,
}
/// Runs emitted tables on a token string and checks that each reduction is one
/// of the grammar: what is accepted has a derivation.
fn drive(t: &Tables, g: &Gram, input: &[usize], max: usize, log: &mut Vec<usize>) -> End {
    let mut stack: Vec<(usize, u8)> = vec![(0, 0)];
    let mut pos = 0;
    let mut at_once = true;
    for _ in 0..max {
        let s = stack[stack.len() - 1].0;
        check!(s < t.act.len(), 20, "a state that does not exist");
        let x = if pos < input.len() { input[pos] } else { 0 };
        match t.act[s][x] {
            Act::Shift(n) => {
                check!(x != 0, 21, "the end of the text is shifted");
                stack.push((n, x as u8));
                pos += 1;
                at_once = true;
            }
            Act::Reduce(p) => {
                // production 0 is the added start production
                check!(p > 0 && p <= g.prods.len() && p < t.prods.len(), 22, "a production that does not exist");
                let (lhs, len) = t.prods[p];
                let q = &g.prods[p - 1];
                check!(lhs < 99 && lhs as u8 + NT == q.lhs && len == q.rhs.len(), 23, "production data differs from the grammar");
                check!(stack.len() > len, 24, "reduces more than there is");
                let n = stack.len() - len;
                for i in 0..len {
                    check!(stack[n + i].1 == q.rhs[i], 25, "reduces something that is not the right hand side");
                }
                stack.truncate(n);
                let go = t.go[stack[n - 1].0][lhs];
                check!(go != NONE, 26, "no goto");
                stack.push((go, q.lhs));
                log.push(p);
                at_once = false;
            }
            Act::Accept => {
                check!(x == 0, 27, "accepts before the end of the text");
                check!(stack.len() == 2 && stack[1].1 == NT, 28, "accepts something that is not the start symbol");
                return End::Accept;
            }
            Act::Error => return End::Error(pos, s, at_once),
        }
    }
    End::TooLong
}
/// The same for the reference automaton.
fn drive_ref(l: &Lalr, g: &Gram, input: &[usize], max: usize, log: &mut Vec<usize>) -> End {
    drive_truth(l, g, input, max, log, &[])
}
/// With predicates that are true or false.
fn drive_truth(l: &Lalr, g: &Gram, input: &[usize], max: usize, log: &mut Vec<usize>, truth: &[bool]) -> End {
    let mut stack: Vec<usize> = vec![0];
    let mut pos = 0;
    for _ in 0..max {
        let s = stack[stack.len() - 1];
        let x = if pos < input.len() { input[pos] } else { 0 };
        let mut red = 99;
        for (p, la) in &l.reduce[s] {
            if la >> x & 1 == 1 && (*p == l.start || !g.prods[*p].pred || truth[*p]) {
                red = *p;
                break;
            }
        }
        if x > 0 && l.shift[s] >> x & 1 == 1 {
            stack.push(l.goto_(s, x as u8));
            pos += 1;
        } else if red == l.start {
            return End::Accept;
        } else if red != 99 {
            let q = &g.prods[red];
            stack.truncate(stack.len() - q.rhs.len());
            let top = stack[stack.len() - 1];
            stack.push(l.goto_(top, q.lhs));
            log.push(red + 1);
        } else {
            return End::Error(pos, s, false);
        }
    }
    End::TooLong
}
fn input(pool: &mut Pool, max: usize, nt: usize) -> Vec<usize> {
    let n = 1 + pool.pick(max);
    (0..n).map(|_| 1 + pool.pick(nt)).collect()
}
fn bit(k: usize, input: &[usize]) -> usize {
    let mut x = 0;
    for t in input {
        x = k * x + t - 1;
    }
    first(k, input.len()) + x
}
fn read_tables(out: &[u8], nt: usize, nn: usize) -> Tables {
    match tables(out, &TERMS[..nt + 1], &NTS[..nn]) {
        Some(t) => t,
        None => fail(18, "unreadable parser code"),
    }
}

const STEPS: usize = 60;

/// C09, C13: what is generated for a grammar without conflicts.
fn language(generate: Generate, shape: &Shape, what: u8) {
    let mut pool = Pool(0);
    let h = holes(&mut pool, shape);
    let mut text = HEAD.to_string();
    text.push_str(&tokens_abcd(shape.nt));
    text.push_str("%%\n");
    text.push_str(&rules(shape, &h));
    let r = generate(&text, false);
    let g = gram(shape, &h);
    let lang = g.languages(shape.max);
    // grammars in which something derives no text at all are outside
    assume(lang.productive.iter().all(|x| *x));
    let l = g.lalr();
    // grammars with conflicts are for C12
    let Ok(out) = r else {
        cover(1);
        check!(l.any, 17, "a grammar without conflicts was refused");
        return;
    };
    check!(!l.any, 16, "conflicts not reported");
    let t = read_tables(&out, shape.nt, shape.nn);
    check!(t.prods.len() == g.prods.len() + 1, 19, "number of productions");
    let inp = input(&mut pool, shape.max, shape.nt);
    let mut log = vec![];
    let end = drive(&t, &g, &inp, STEPS, &mut log);
    let k = shape.nt;
    let member = lang.lang[0] >> bit(k, &inp) & 1 == 1;
    let prefix = |w: &[usize]| lang.prefix[0] >> bit(k, w) & 1 == 1;
    match end {
        End::Accept => {
            cover(4);
            check!(member, 32, "a text that is not in the language is accepted");
        }
        End::Error(_, _, _) if what == 9 => {
            cover(5);
            check!(!member, 33, "a text of the language is refused");
        }
        End::Error(pos, s, at_once) => {
            cover(5);
            // the tokens taken are a prefix of a sentence, with the next one they are not
            check!(prefix(&inp[..pos]), 34, "error found too late");
            if pos < inp.len() {
                cover(7);
                check!(!prefix(&inp[..pos + 1]), 35, "error found too early");
                check!(!t.expect[s][inp[pos]], 36, "the refused token is shown as expected");
            } else {
                cover(8);
                check!(!t.expect[s][0], 37, "the end is shown as expected though it was refused");
            }
            for x in 0..k + 1 {
                check!(t.expect[s][x] == (t.act[s][x] != Act::Error), 41, "shown as expected but not acted on, or the reverse");
            }
            // every token that could follow is shown as expected, if nothing
            // was reduced on the strength of the refused token
            if pos < shape.max && at_once {
                cover(9);
                for x in 1..k + 1 {
                    let mut w = inp[..pos].to_vec();
                    w.push(x);
                    if prefix(&w) {
                        check!(t.expect[s][x], 38, "a token that could follow is not shown as expected");
                    }
                }
                if pos > 0 && lang.lang[0] >> bit(k, &inp[..pos]) & 1 == 1 {
                    check!(t.expect[s][0], 39, "the end could follow but is not shown as expected");
                }
            }
        }
        End::TooLong => fail(40, "the parser does not come to an end"),
    }
}

/// C12: conflicts are counted, and resolved as documented.
fn conflicts(generate: Generate, shape: &Shape, digits: &[u8]) {
    let mut pool = Pool(0);
    let rr = pool.byte_of(digits);
    let sr = pool.byte_of(digits);
    let h = holes(&mut pool, shape);
    let mut text = HEAD.to_string();
    text.push_str("%reduce_reduce ");
    put(&mut text, rr);
    text.push_str("\n%shift_reduce ");
    put(&mut text, sr);
    text.push_str("\n");
    text.push_str(&tokens_abcd(shape.nt));
    text.push_str("%%\n");
    text.push_str(&rules(shape, &h));
    let r = generate(&text, false);
    let g = gram(shape, &h);
    let lang = g.languages(1);
    assume(lang.productive.iter().all(|x| *x));
    let l = g.lalr();
    let (sr_ok, rr_ok) = (l.sr == (sr - b'0') as u32, l.rr == (rr - b'0') as u32);
    match &r {
        Ok(_) => {
            cover(1);
            check!(sr_ok && rr_ok, 10, "a wrong number of conflicts was accepted");
        }
        Err(Refused::SR(n, m)) => {
            cover(2);
            check!(!sr_ok, 11, "refused though the number of shift/reduce conflicts is as declared");
            check!(*n == l.sr && *m == (sr - b'0') as u32, 12, "wrong number of shift/reduce conflicts reported");
        }
        Err(Refused::RR(n, m)) => {
            cover(3);
            check!(!rr_ok, 13, "refused though the number of reduce/reduce conflicts is as declared");
            check!(*n == l.rr && *m == (rr - b'0') as u32, 14, "wrong number of reduce/reduce conflicts reported");
        }
        Err(_) => fail(15, "refused for another reason"),
    }
    let Ok(out) = r else { return };
    if !l.any {
        // these are for C09
        return;
    }
    let t = read_tables(&out, shape.nt, shape.nn);
    let inp = input(&mut pool, shape.max, shape.nt);
    let mut log = vec![];
    let end = drive(&t, &g, &inp, STEPS, &mut log);
    let mut want = vec![];
    let e = drive_ref(&l, &g, &inp, STEPS, &mut want);
    check!((end == End::Accept) == (e == End::Accept), 30, "conflict resolved in another way: acceptance");
    if end == End::Accept {
        cover(4);
        check!(log == want, 31, "conflict resolved in another way: reductions");
    }
}

macro_rules! both {
    ($($p:ident $a:ident: $f:ident ($($x:expr),*);)*) => {$(
        #[unsafe(no_mangle)]
        pub extern "C" fn $p() {
            $f(plain::generate, $($x),*)
        }
        #[unsafe(no_mangle)]
        pub extern "C" fn $a() {
            $f(aug::generate, $($x),*)
        }
    )*};
}
mod spec;
mod more;
mod desc;
mod diag;
const ONE: Shape = Shape { nt: 2, nn: 1, alphabet: b"Sab", rules: &[(b'S', b"***"), (b'S', b"***")], max: 4 };
const TWO: Shape = Shape { nt: 2, nn: 2, alphabet: b"SAab", rules: &[(b'S', b"**"), (b'S', b"*"), (b'A', b"**")], max: 4 };
const EMPTY: Shape = Shape { nt: 2, nn: 3, alphabet: b"ABab", rules: &[(b'S', b"##"), (b'A', b"*"), (b'A', b""), (b'B', b"*"), (b'B', b"A")], max: 4 };
const MERGE: Shape = Shape { nt: 2, nn: 2, alphabet: b"ab", rules: &[(b'S', b"?A?"), (b'S', b"?A?"), (b'S', b"?S?"), (b'A', b"?*")], max: 5 };
const CHAIN: Shape = Shape { nt: 3, nn: 3, alphabet: b"ABc", rules: &[(b'S', b"A#?"), (b'A', b"#"), (b'A', b"b"), (b'B', b"*"), (b'B', b"aB")], max: 4 };
const ONE12: Shape = Shape { nt: 2, nn: 1, alphabet: b"Sab", rules: &[(b'S', b"***"), (b'S', b"**")], max: 4 };
const TWO12: Shape = Shape { nt: 2, nn: 2, alphabet: b"SAab", rules: &[(b'S', b"**"), (b'A', b"*"), (b'A', b"*")], max: 4 };
const RR12: Shape = Shape { nt: 2, nn: 3, alphabet: b"ab", rules: &[(b'S', b"A*"), (b'S', b"B*"), (b'A', b"?*"), (b'B', b"?*")], max: 4 };
const DEEP: Shape = Shape {
    nt: 2,
    nn: 5,
    alphabet: b"ABCDab",
    rules: &[(b'S', b"Aa"), (b'S', b"D"), (b'A', b"B*"), (b'B', b"C"), (b'C', b"#"), (b'D', b"D*"), (b'D', b"?")],
    max: 4,
};
const MIXED: Shape = Shape { nt: 2, nn: 3, alphabet: b"ABab", rules: &[(b'S', b"A#"), (b'B', b"?*"), (b'A', b"B"), (b'S', b"#"), (b'A', b"*")], max: 4 };
const RR3: Shape = Shape { nt: 2, nn: 4, alphabet: b"ab", rules: &[(b'S', b"A*"), (b'S', b"B"), (b'S', b"C*"), (b'A', b"?"), (b'B', b"?"), (b'C', b"?")], max: 3 };
const ONE_T: Shape = Shape { nt: 2, nn: 1, alphabet: b"Sab", rules: &[(b'S', b"****"), (b'S', b"***")], max: 6 };
const ONE3_T: Shape = Shape { nt: 2, nn: 1, alphabet: b"Sab", rules: &[(b'S', b"***"), (b'S', b"***"), (b'S', b"**")], max: 5 };
const TWO_T: Shape = Shape { nt: 2, nn: 2, alphabet: b"SAab", rules: &[(b'S', b"***"), (b'S', b"**"), (b'A', b"**")], max: 5 };
const EMPTY_T: Shape =
    Shape { nt: 3, nn: 4, alphabet: b"ABCab", rules: &[(b'S', b"###"), (b'A', b"*"), (b'A', b""), (b'B', b"*"), (b'B', b"A"), (b'C', b"*"), (b'C', b"c")], max: 4 };
const MERGE_T: Shape =
    Shape { nt: 2, nn: 3, alphabet: b"abAB", rules: &[(b'S', b"?A?"), (b'S', b"?B?"), (b'S', b"?A?"), (b'S', b"?B*"), (b'A', b"?*"), (b'B', b"?")], max: 5 };
const CHAIN_T: Shape =
    Shape { nt: 3, nn: 4, alphabet: b"ABCc", rules: &[(b'S', b"A#?"), (b'A', b"#"), (b'A', b"b"), (b'B', b"*"), (b'B', b"aC"), (b'C', b"#*"), (b'C', b"?")], max: 4 };
const DEEP_T: Shape = Shape {
    nt: 2,
    nn: 5,
    alphabet: b"ABCDab",
    rules: &[(b'S', b"A?"), (b'S', b"D"), (b'A', b"B*"), (b'B', b"#"), (b'C', b"#"), (b'D', b"D*"), (b'D', b"?*")],
    max: 4,
};
const ONE12_T: Shape = Shape { nt: 2, nn: 1, alphabet: b"Sab", rules: &[(b'S', b"***"), (b'S', b"***"), (b'S', b"*")], max: 5 };
const TWO12_T: Shape = Shape { nt: 2, nn: 2, alphabet: b"SAab", rules: &[(b'S', b"**"), (b'A', b"**"), (b'A', b"**")], max: 5 };
const RR12_T: Shape = Shape { nt: 2, nn: 3, alphabet: b"abAB", rules: &[(b'S', b"A*"), (b'S', b"B*"), (b'A', b"?*"), (b'B', b"?*"), (b'A', b"?")], max: 4 };
both! {
    c09_one_l_t c09_one_a_t: language(&ONE_T, 9);
    c09_one3_l_t c09_one3_a_t: language(&ONE3_T, 9);
    c09_two_l_t c09_two_a_t: language(&TWO_T, 9);
    c09_empty_l_t c09_empty_a_t: language(&EMPTY_T, 9);
    c09_merge_l_t c09_merge_a_t: language(&MERGE_T, 9);
    c09_chain_l_t c09_chain_a_t: language(&CHAIN_T, 9);
    c09_deep_l_t c09_deep_a_t: language(&DEEP_T, 9);
    c13_one_l_t c13_one_a_t: language(&ONE_T, 13);
    c13_one3_l_t c13_one3_a_t: language(&ONE3_T, 13);
    c13_two_l_t c13_two_a_t: language(&TWO_T, 13);
    c13_empty_l_t c13_empty_a_t: language(&EMPTY_T, 13);
    c13_chain_l_t c13_chain_a_t: language(&CHAIN_T, 13);
    c12_one_l_t c12_one_a_t: conflicts(&ONE12_T, b"012");
    c12_two_l_t c12_two_a_t: conflicts(&TWO12_T, b"012");
    c12_rr_l_t c12_rr_a_t: conflicts(&RR12_T, b"012");
    c12_levels_l_t c12_levels_a_t: levels(3, true, 0);
    c11_binary_l_t c11_binary_a_t: precedence(2, false, 5);
    c11_prefix_l_t c11_prefix_a_t: precedence(3, true, 3);
    c09_deep_l c09_deep_a: language(&DEEP, 9);
    c09_mixed_l c09_mixed_a: language(&MIXED, 9);
    c13_deep_l c13_deep_a: language(&DEEP, 13);
    c12_rr3_l c12_rr3_a: conflicts(&RR3, b"0123");
    c09_one_l c09_one_a: language(&ONE, 9);
    c09_two_l c09_two_a: language(&TWO, 9);
    c09_empty_l c09_empty_a: language(&EMPTY, 9);
    c09_merge_l c09_merge_a: language(&MERGE, 9);
    c09_chain_l c09_chain_a: language(&CHAIN, 9);
    c13_one_l c13_one_a: language(&ONE, 13);
    c13_two_l c13_two_a: language(&TWO, 13);
    c13_empty_l c13_empty_a: language(&EMPTY, 13);
    c13_chain_l c13_chain_a: language(&CHAIN, 13);
    c12_one_l c12_one_a: conflicts(&ONE12, b"012");
    c12_two_l c12_two_a: conflicts(&TWO12, b"01");
    c12_rr_l c12_rr_a: conflicts(&RR12, b"012");
}


// ------------------------------------------------------------ precedence
/// C11: E: E a E | E b E | c (| d E): declared levels and associativities
/// decide how texts are grouped.  `levels` is how many lines there are.
fn precedence(generate: Generate, levels: usize, prefix: bool, ops: usize) {
    warm(generate);
    let mut pool = Pool(0);
    // which line a, b and the prefix rule are on, and its associativity
    let la = pool.pick(levels);
    let lb = pool.pick(levels);
    let ld = if prefix { pool.pick(levels) } else { levels };
    let right: Vec<usize> = (0..levels).map(|_| pool.pick(2)).collect();
    // how the prefix rule gets its level: d itself, a tag, the name of a token, its text
    let how = if prefix { pool.pick(3) } else { 0 };
    // the rule for a may have a level of its own
    let own = if !prefix { pool.pick(3) } else { 0 };
    let mut text = HEAD.to_string();
    text.push_str(&tokens_abcd(4));
    for i in 0..levels {
        let mut names = vec![];
        if la == i {
            names.push("a");
        }
        if lb == i {
            names.push("\"b\"");
        }
        if ld == i {
            names.push(["d", "U", "V"][how]);
        }
        if names.is_empty() {
            continue;
        }
        text.push_str(if right[i] == 1 { "%right" } else { "%left" });
        for n in names {
            text.push(' ');
            text.push_str(n);
        }
        text.push('\n');
    }
    text.push_str("%%\nE: E a E");
    let mut rule_a = la;
    if own == 1 {
        text.push_str(" %prec b");
        rule_a = lb;
    } else if own == 2 {
        text.push_str(" %prec \"b\"");
        rule_a = lb;
    }
    text.push_str(" | E \"b\" E | c");
    if prefix {
        text.push_str([" | d E", " | d E %prec U", " | \"d\" E %prec V"][how]);
    }
    text.push_str(" .\n");
    let out = match generate(&text, false) {
        Ok(out) => out,
        Err(_) => fail(50, "conflicts decided by declared precedences were not accepted"),
    };
    let t = match tables(&out, &[b"AAEnd", b"a", b"b", b"c", b"d"], &[b"E"]) {
        Some(t) => t,
        None => fail(18, "unreadable parser code"),
    };
    let rhs: [&[u8]; 4] = [&[NT, 1, NT], &[NT, 2, NT], &[3], &[4, NT]];
    let g = Gram {
        error: 0,
        prods: rhs[..3 + prefix as usize].iter().map(|r| Prod::new(NT, r.to_vec(), (0, 0))).collect(),
        nt: 4,
        nn: 1,
        tprec: vec![],
    };
    // the text, and what a precedence parser makes of it
    let mut inp = vec![];
    let mut want = vec![];
    let mut pending: Vec<(usize, usize)> = vec![]; // production, level
    let n = pool.pick(ops + 1);
    for i in 0..=n {
        if prefix && pool.pick(2) == 1 {
            inp.push(4);
            pending.push((4, ld));
        }
        inp.push(3);
        want.push(3);
        let (op, level) = if i == n {
            (0, 0)
        } else if pool.pick(2) == 0 {
            (1, la)
        } else {
            (2, lb)
        };
        while let Some((p, l)) = pending.last() {
            if op != 0 && (*l < level || (*l == level && right[level] == 1)) {
                break;
            }
            want.push(*p);
            pending.pop();
        }
        if op == 1 {
            inp.push(1);
            pending.push((1, rule_a));
        } else if op == 2 {
            inp.push(2);
            pending.push((2, lb));
        }
    }
    let mut log = vec![];
    let end = drive(&t, &g, &inp, 100, &mut log);
    check!(end == End::Accept, 51, "an expression is refused");
    cover(1);
    check!(log == want, 52, "an expression is grouped against the declared precedences");
}
/// C11, C12: which conflicts levels decide, and how.  E: E a E | x E b E | c
/// (x a, b or d), where a, b and d are on no line or on one of `levels` lines.
fn levels(generate: Generate, levels: usize, counts: bool, ops: usize) {
    warm(generate);
    let mut pool = Pool(0);
    let line: Vec<usize> = (0..3).map(|_| pool.pick(levels + 1)).collect();
    // 0 left, 1 right, 2 nonassoc
    let assoc: Vec<usize> = (0..levels).map(|_| pool.pick(3)).collect();
    let x = if counts { 4 } else { [4, 1, 2][pool.pick(3)] };
    let declared = if counts { pool.byte_of(b"01234") } else { b'0' };
    let mut text = HEAD.to_string();
    if counts {
        text.push_str("%shift_reduce ");
        put(&mut text, declared);
        text.push('\n');
    }
    text.push_str(&tokens_abcd(4));
    for i in 0..levels {
        let mut s = String::new();
        for (j, n) in [" a", " b", " d"].iter().enumerate() {
            if line[j] == i + 1 {
                s.push_str(n);
            }
        }
        if !s.is_empty() {
            text.push_str(["%left", "%right", "%nonassoc"][assoc[i]]);
            text.push_str(&s);
            text.push('\n');
        }
    }
    text.push_str("%%\nE: E a E | ");
    text.push_str(["", "a", "b", "c", "d"][x]);
    text.push_str(" E b E | c .\n");
    let prec = |t: usize| -> (u8, u8) {
        let l = line[[9, 0, 1, 9, 2][t]];
        if l == 0 { (0, 0) } else { (l as u8, [1, 2, 0][assoc[l - 1]]) }
    };
    let g = Gram {
        error: 0,
        prods: vec![Prod::new(NT, vec![NT, 1, NT], prec(1)), Prod::new(NT, vec![x as u8, NT, 2, NT], prec(x)), Prod::new(NT, vec![3], (0, 0))],
        nt: 4,
        nn: 1,
        tprec: vec![(0, 0), prec(1), prec(2), (0, 0), prec(4)],
    };
    let l = g.lalr();
    let r = generate(&text, !counts);
    if counts {
        let ok = l.sr == (declared - b'0') as u32;
        match &r {
            Ok(_) => {
                cover(1);
                check!(ok, 53, "a wrong number of unresolved conflicts was accepted");
            }
            Err(Refused::SR(n, m)) => {
                cover(2);
                check!(!ok, 54, "refused though the number of unresolved conflicts is as declared");
                check!(*n == l.sr && *m == (declared - b'0') as u32, 55, "wrong number of unresolved conflicts reported");
            }
            Err(_) => fail(15, "refused for another reason"),
        }
        return;
    }
    let Ok(out) = r else { fail(56, "refused though conflicts are ignored") };
    let t = match tables(&out, &[b"AAEnd", b"a", b"b", b"c", b"d"], &[b"E"]) {
        Some(t) => t,
        None => fail(18, "unreadable parser code"),
    };
    // an expression: what is pending decides what may come next
    let mut inp = vec![];
    let mut open = 0;
    for i in 0..=ops {
        while inp.len() < 8 && pool.pick(2) == 1 {
            inp.push(x);
            open += 1;
        }
        inp.push(3);
        if i < ops {
            if open > 0 && pool.pick(2) == 1 {
                open -= 1;
                inp.push(2);
            } else {
                inp.push(1);
            }
        }
    }
    while open > 0 {
        open -= 1;
        inp.push(2);
        inp.push(3);
    }
    let mut log = vec![];
    let end = drive(&t, &g, &inp, 100, &mut log);
    let mut want = vec![];
    let e = drive_ref(&l, &g, &inp, 100, &mut want);
    check!((end == End::Accept) == (e == End::Accept), 57, "an expression is not accepted as levels demand");
    if end == End::Accept {
        cover(1);
        check!(log == want, 58, "an expression is not grouped as levels demand");
    }
}
both! {
    c11_levels_l c11_levels_a: levels(1, false, 2);
    c11_levels_l_t c11_levels_a_t: levels(2, false, 2);
    c12_levels_l c12_levels_a: levels(2, true, 0);
    c11_binary_l c11_binary_a: precedence(2, false, 3);
    c11_prefix_l c11_prefix_a: precedence(3, true, 2);
}

// ------------------------------------------------ the two generators agree
fn same_refusal(a: &Refused, b: &Refused) -> bool {
    a == b
}
/// C17: a specification without predicates means the same to both generators.
fn agree(shape: &'static Shape, ignore: bool) {
    warm(plain::generate);
    warm(aug::generate);
    let mut pool = Pool(0);
    let dir = pool.pick(3);
    let h = holes(&mut pool, shape);
    let mut text = HEAD.to_string();
    text.push_str(&tokens_abcd(shape.nt));
    text.push_str(["", "%left a\n", "%right b\n%left a\n"][dir]);
    text.push_str("%%\n");
    text.push_str(&rules(shape, &h));
    match (plain::generate(&text, ignore), aug::generate(&text, ignore)) {
        (Err(a), Err(b)) => {
            cover(1);
            check!(same_refusal(&a, &b), 60, "refused for different reasons")
        }
        (Ok(a), Ok(b)) => {
            cover(2);
            let p = read_tables(&a, shape.nt, shape.nn);
            let q = read_tables(&b, shape.nt, shape.nn);
            check!(p.prods == q.prods, 61, "different productions");
            // pairs of states that must behave alike
            let mut pairs = vec![(0, 0)];
            let mut i = 0;
            while i < pairs.len() {
                let (x, y) = pairs[i];
                i += 1;
                let mut next = vec![];
                for t in 0..shape.nt + 1 {
                    check!(p.expect[x][t] == q.expect[y][t], 62, "different expected tokens");
                    match (p.act[x][t], q.act[y][t]) {
                        (Act::Shift(m), Act::Shift(n)) => next.push((m, n)),
                        (a, b) => check!(a == b, 63, "different actions"),
                    }
                }
                for t in 0..shape.nn {
                    match (p.go[x][t], q.go[y][t]) {
                        (NONE, NONE) => {}
                        (m, n) => {
                            check!(m != NONE && n != NONE, 64, "different gotos");
                            next.push((m, n));
                        }
                    }
                }
                for n in next {
                    if !pairs.contains(&n) {
                        pairs.push(n);
                    }
                }
            }
        }
        _ => fail(65, "accepted by one generator only"),
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c17_one() {
    agree(&ONE12, true)
}
#[unsafe(no_mangle)]
pub extern "C" fn c17_two() {
    agree(&TWO12, false)
}
#[unsafe(no_mangle)]
pub extern "C" fn c17_one_t() {
    agree(&ONE_T, true)
}
#[unsafe(no_mangle)]
pub extern "C" fn c17_two_t() {
    agree(&TWO12_T, false)
}
#[unsafe(no_mangle)]
pub extern "C" fn c17_rr_t() {
    agree(&RR12_T, true)
}
#[unsafe(no_mangle)]
pub extern "C" fn c17_deep() {
    agree(&DEEP, true)
}

// ------------------------------------------------------------- history
/// C15: what is generated depends on the specification alone.
fn history(generate: Generate) {
    warm(generate);
    let mut text = HEAD.to_string();
    text.push_str(&tokens_abcd(3));
    text.push_str("%left a\n%right b c\n%%\nS: S a S | S b S !{ $$ = $2; !} | A | c %prec b .\nA: | b .\n");
    let first = generate(&text, true);
    let mut pool = Pool(0);
    if pool.pick(2) == 1 {
        return conflicting(generate, pool);
    }
    let mut other = HEAD.to_string();
    let broken = pool.pick(4);
    other.push_str("%%\n%token ");
    other.push_str(["a", "b", "c", "AAx"][pool.pick(4)]);
    other.push_str([" \"a\"\n", " (a)\n", " \"\"\n", " (a\n"][broken]);
    other.push_str(["", "%left a\n", "%skip (x)\n"][pool.pick(3)]);
    other.push_str("%%\nS: ");
    put(&mut other, pool.byte_of(b"abS"));
    other.push_str(["", " | \"a\""][pool.pick(2)]);
    other.push_str(" !{ $");
    put(&mut other, pool.byte_of(b"01"));
    other.push_str(" !} .\n");
    let mid = generate(&other, false);
    if mid.is_ok() {
        cover(1);
    } else {
        cover(2);
    }
    let then = generate(&text, true);
    match (&first, &then) {
        (Ok(x), Ok(y)) => {
            cover(3);
            check!(x == y, 66, "generated code depends on what was generated before")
        }
        _ => fail(67, "refused"),
    }
    // and the other one again
    let again = generate(&other, false);
    check!(mid == again, 68, "another result for the same specification");
}
/// The same with specifications that have conflicts, declared or not.
fn conflicting(generate: Generate, mut pool: Pool) {
    let spec = |rr: u8, sr: u8, b: u8, p: usize| {
        let mut s = HEAD.to_string();
        s.push_str("%reduce_reduce ");
        put(&mut s, rr);
        s.push_str("\n%shift_reduce ");
        put(&mut s, sr);
        s.push_str("\n%%\n%token a \"a\"\n%token b \"b\"\n");
        s.push_str(["", "%left a\n", "%right b\n"][p]);
        s.push_str("%%\nS: S a S | ");
        put(&mut s, b);
        s.push_str(" | A | B .\nA: b b .\nB: b ");
        put(&mut s, b);
        s.push_str(" .\n");
        s
    };
    let text = spec(b'0' + pool.pick(2) as u8, b'0' + pool.pick(2) as u8, b"ab"[pool.pick(2)], pool.pick(2));
    let first = generate(&text, false);
    let rr = pool.byte_of(b"01");
    let sr = pool.byte_of(b"012");
    let b = pool.byte_of(b"ab");
    let p = pool.pick(3);
    let other = spec(rr, sr, b, p);
    let mid = generate(&other, false);
    if mid.is_ok() {
        cover(4);
    } else {
        cover(5);
    }
    let then = generate(&text, false);
    check!(first == then, 69, "the result depends on what was generated before");
    let again = generate(&other, false);
    check!(mid == again, 68, "another result for the same specification");
}
type All = fn(&str) -> (Option<Refused>, Vec<u8>, Vec<u8>, Vec<u8>);

/// A specification with many of everything, before and after another one.
fn whole(all: All, aug: bool) {
    check!(all("%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%%\nS: a .\n").0.is_none(), 1, "a trivial specification is refused");
    let mut pool = Pool(0);
    let mut spec = || {
        let mut s = HEAD.to_string();
        if pool.pick(2) == 1 {
            s.push_str("%shift_reduce 1\n");
        }
        s.push_str("%%\n%token a \"a\"\n%token e \"e\"\n%token c \"c\"\n%token b \"b\"\n%token z (z)\n%token y (y+)\n%token x (xy)\n%token semi \";\"\n%skip (s)\n%skip (r)\n%skip (t)\n");
        if pool.pick(2) == 1 {
            s.push_str("%left a b\n%right T\n%nonassoc c U\n%left V W\n");
        }
        s.push_str("%%\nL: L S semi | .\nS: M !{ m($1); !} | M a b | M z b | M c y | E .\nE: E a E !{ $$ = 1; !} | E b E %prec z | c E | e | F | G | H .\n");
        s.push_str("F: x y | x z !{ $2 !} .\nG: y | y z .\nH: z z | z x .\n");
        if pool.pick(2) == 1 {
            s.push_str("M: %error | y y %error | N .\nN: x x %error .\n");
        } else {
            s.push_str("M: a y .\nK: a .\nJ: K b | J .\n");
        }
        if aug && pool.pick(2) == 1 {
            s.push_str("O: a ?(p?) | a ?(q?) | a ?(r?) | P .\nP: a ?(s?) | a .\nK: O .\n");
        }
        s
    };
    let one = spec();
    let two = spec();
    let first = all(&one);
    let other = all(&two);
    cover(if first.0.is_none() { 6 } else { 7 });
    check!(all(&one) == first, 66, "what is generated depends on what was generated before");
    check!(all(&two) == other, 66, "what is generated depends on what was generated before");
}
both! {
    c15_history_l c15_history_a: history();
}
macro_rules! wholes {
    ($($n:ident: $m:ident $aug:expr;)*) => { $(
        #[unsafe(no_mangle)]
        pub extern "C" fn $n() {
            whole($m::all, $aug)
        }
    )* };
}
wholes! {
    c15_whole_l: plain false;
    c15_whole_a: aug true;
}
