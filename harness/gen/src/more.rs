//! Harness entries about predicates and error recovery tables.
use super::code::*;
use super::lang::*;
use super::sym::*;
use super::{aug, drive, drive_truth, input, plain, put, tokens_abcd, warm, End, Generate, Refused, Shape, HEAD, STEPS, TERMS};
use crate::check;

/// Right hand sides, each symbol chosen on a path of its own; 'E' is an error.
pub fn picked(pool: &mut Pool, shape: &Shape) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for (_, p) in shape.rules {
        let mut r = vec![];
        let opt = p.iter().filter(|x| **x == b'*').count();
        let n = p.len() - opt + if opt > 0 { pool.pick(opt + 1) } else { 0 };
        for c in &p[..n] {
            r.push(match *c {
                b'#' | b'*' => shape.alphabet[pool.pick(shape.alphabet.len())],
                b'?' => b"abc"[pool.pick(shape.nt)],
                x => x,
            });
        }
        v.push(r);
    }
    v
}
pub fn number_of(shape: &Shape, b: u8) -> u8 {
    match b {
        b'a'..=b'c' => 1 + b - b'a',
        b'S' => NT,
        b'E' => NT + shape.nn as u8,
        _ => NT + 1 + b - b'A',
    }
}
pub fn grammar(shape: &Shape, h: &[Vec<u8>], preds: &[bool]) -> Gram {
    let mut g = Gram { error: 0, prods: vec![], nt: shape.nt, nn: shape.nn, tprec: vec![(0, 0); shape.nt + 1] };
    for (i, (lhs, _)) in shape.rules.iter().enumerate() {
        let mut p = Prod::new(number_of(shape, *lhs), h[i].iter().map(|b| number_of(shape, *b)).collect(), (0, 0));
        p.pred = preds.get(i) == Some(&true);
        g.prods.push(p);
    }
    if h.iter().any(|r| r.contains(&b'E')) {
        g.error = NT + shape.nn as u8;
        g.nn += 1;
        g.prods.push(Prod::new(g.error, vec![], (0, 0)));
    }
    g
}
pub fn rules(shape: &Shape, h: &[Vec<u8>], preds: &[bool]) -> String {
    let mut s = String::new();
    for (i, (lhs, _)) in shape.rules.iter().enumerate() {
        if i == 0 || shape.rules[i - 1].0 != *lhs {
            s.push_str(if i > 0 { " .\n" } else { "" });
            put(&mut s, *lhs);
            s.push_str(":");
        } else {
            s.push_str(" |");
        }
        for b in &h[i] {
            s.push(' ');
            if *b == b'E' {
                s.push_str("%error");
            } else {
                put(&mut s, *b);
            }
        }
        if preds.get(i) == Some(&true) {
            s.push_str(" ?( k");
            put(&mut s, b'0' + i as u8);
            s.push_str("() ?)");
        }
    }
    s.push_str(" .\n");
    s
}
/// Compares counts with declared ones; what was written if they agree.
fn counted(r: Result<Vec<u8>, Refused>, l: &Lalr, sr: u8, rr: u8) -> Option<Vec<u8>> {
    let (sr_ok, rr_ok) = (l.sr == (sr - b'0') as u32, l.rr == (rr - b'0') as u32);
    match r {
        Ok(out) => {
            cover(1);
            check!(sr_ok && rr_ok, 10, "a wrong number of conflicts was accepted");
            return Some(out);
        }
        Err(Refused::SR(n, m)) => {
            cover(2);
            check!(!sr_ok && n == l.sr && m == (sr - b'0') as u32, 12, "wrong number of shift/reduce conflicts");
        }
        Err(Refused::RR(n, m)) => {
            cover(3);
            check!(!rr_ok && n == l.rr && m == (rr - b'0') as u32, 14, "wrong number of reduce/reduce conflicts");
        }
        Err(_) => fail(15, "refused for another reason"),
    }
    None
}
fn declared(pool: &mut Pool, text: &mut String, digits: &[u8]) -> (u8, u8) {
    let rr = pool.byte_of(digits);
    let sr = pool.byte_of(digits);
    text.push_str("%reduce_reduce ");
    put(text, rr);
    text.push_str("\n%shift_reduce ");
    put(text, sr);
    text.push('\n');
    (sr, rr)
}
const NAMES: [&[u8]; 5] = [b"S", b"A", b"B", b"C", b"D"];

/// C16: predicates decide between reductions.  `from` is the first rule that may have one.
fn predicates(shape: &Shape, from: usize) {
    warm(aug::generate);
    let mut pool = Pool(0);
    let preds: Vec<bool> = (0..shape.rules.len()).map(|i| i >= from && pool.pick(2) == 1).collect();
    let mut text = HEAD.to_string();
    let (sr, rr) = declared(&mut pool, &mut text, b"012");
    let h = picked(&mut pool, shape);
    text.push_str(&tokens_abcd(shape.nt));
    text.push_str("%%\n");
    text.push_str(&rules(shape, &h, &preds));
    let g = grammar(shape, &h, &preds);
    let lang = g.languages(1);
    assume(lang.productive.iter().all(|x| *x));
    let l = g.lalr();
    let Some(out) = counted(aug::generate(&text, false), &l, sr, rr) else { return };
    if !preds.contains(&true) {
        return;
    }
    let truth: Vec<bool> = preds.iter().map(|p| *p && pool.pick(2) == 1).collect();
    let Some(t) = tables_with(&out, &TERMS[..shape.nt + 1], &NAMES[..shape.nn], &truth) else { fail(18, "unreadable parser code") };
    let inp = input(&mut pool, shape.max, shape.nt);
    let mut log = vec![];
    let end = drive(&t, &g, &inp, STEPS, &mut log);
    let mut want = vec![];
    let e = drive_truth(&l, &g, &inp, STEPS, &mut want, &truth);
    cover(4);
    check!(log == want, 90, "predicates lead to other reductions");
    match (end, e) {
        (End::Accept, End::Accept) => cover(5),
        (End::Error(m, ..), End::Error(n, ..)) => {
            cover(6);
            check!(m == n, 91, "an error in another place than predicates demand");
        }
        (End::TooLong, End::TooLong) => {}
        _ => fail(92, "predicates lead to another verdict"),
    }
}
const PR1: Shape = Shape { nt: 2, nn: 3, alphabet: b"ab", rules: &[(b'S', b"A*"), (b'S', b"B"), (b'A', b"?"), (b'A', b"?"), (b'B', b"?")], max: 2 };
const PR1_M: Shape = Shape { nt: 2, nn: 3, alphabet: b"ab", rules: &[(b'S', b"A*"), (b'S', b"B*"), (b'A', b"?"), (b'A', b"?*"), (b'B', b"?*")], max: 3 };
const PR2: Shape = Shape { nt: 2, nn: 4, alphabet: b"a", rules: &[(b'S', b"A*"), (b'S', b"B"), (b'S', b"C*"), (b'A', b"?"), (b'B', b"?"), (b'C', b"?")], max: 2 };
const PR3: Shape = Shape { nt: 2, nn: 3, alphabet: b"aA", rules: &[(b'S', b"A?"), (b'S', b"B?"), (b'A', b"*"), (b'B', b"*"), (b'B', b"")], max: 2 };
const PR1_T: Shape = Shape { nt: 2, nn: 3, alphabet: b"abAB", rules: &[(b'S', b"A*"), (b'S', b"B*"), (b'A', b"?*"), (b'A', b"?"), (b'B', b"?*")], max: 3 };
const PR3_T: Shape = Shape { nt: 2, nn: 3, alphabet: b"aAB", rules: &[(b'S', b"A?*"), (b'S', b"B?"), (b'A', b"*"), (b'B', b"*"), (b'B', b""), (b'A', b"b")], max: 3 };
#[unsafe(no_mangle)]
pub extern "C" fn c16_same() {
    predicates(&PR1, 2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c16_three() {
    predicates(&PR2, 1)
}
#[unsafe(no_mangle)]
pub extern "C" fn c16_empty() {
    predicates(&PR3, 1)
}
#[unsafe(no_mangle)]
pub extern "C" fn c16_more_t() {
    predicates(&PR1_M, 2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c16_same_t() {
    predicates(&PR1_T, 1)
}
#[unsafe(no_mangle)]
pub extern "C" fn c16_empty_t() {
    predicates(&PR3_T, 0)
}

/// C22: where the parser may recover from errors, and how.
fn recovery(generate: Generate, shape: &Shape) {
    warm(generate);
    let mut pool = Pool(0);
    let mut text = HEAD.to_string();
    let (sr, rr) = declared(&mut pool, &mut text, b"012");
    let h = picked(&mut pool, shape);
    text.push_str(&tokens_abcd(shape.nt));
    text.push_str("%%\n");
    text.push_str(&rules(shape, &h, &[]));
    let g = grammar(shape, &h, &[]);
    assume(g.languages(1).productive.iter().all(|x| *x));
    let l = g.lalr();
    let Some(out) = counted(generate(&text, false), &l, sr, rr) else { return };
    let mut names: Vec<&[u8]> = NAMES[..shape.nn].to_vec();
    if g.error > 0 {
        names.push(b"AAError");
    }
    let terms = &TERMS[..shape.nt + 1];
    let Some(t) = tables(&out, terms, &names) else { fail(18, "unreadable parser code") };
    let toks = tokens(&out);
    let viable = function(&toks, b"viable_error_recovery_states");
    let goes = function(&toks, b"error_goto_state");
    // pairs of states that must behave alike
    let mut pairs = vec![(0, 0)];
    let mut i = 0;
    while i < pairs.len() {
        let (x, y) = pairs[i];
        i += 1;
        check!(x < t.act.len(), 20, "a state that does not exist");
        let mut next = vec![];
        for k in 0..shape.nt + 1 {
            let red = l.reduce[y].iter().find(|r| r.1 >> k & 1 == 1);
            let shift = k > 0 && l.shift[y] >> k & 1 == 1;
            check!(t.expect[x][k] == (shift || red.is_some()), 93, "expected tokens differ");
            match t.act[x][k] {
                Act::Shift(n) => {
                    check!(shift, 94, "shifts where it must not");
                    next.push((n, l.goto_(y, k as u8)));
                }
                Act::Reduce(p) => check!(!shift && red.is_some_and(|r| r.0 + 1 == p), 95, "another reduction"),
                Act::Accept => check!(!shift && red.is_some_and(|r| r.0 == l.start), 96, "accepts where it must not"),
                Act::Error => check!(!shift && red.is_none(), 97, "an error where there is none"),
            }
            // a place for recovery: something that ends with the error can be reduced
            let to = if g.error > 0 { l.goto_(y, g.error) } else { usize::MAX };
            let want = to != usize::MAX && l.recover[to] >> k & 1 == 1;
            let got = match &viable {
                None => false,
                Some(v) => v.arm(terms[k]).is_some_and(|n| n.leaf().iter().any(|w| number(w) == Some(x))),
            };
            check!(want == got, 98, "offered for recovery where it must not be, or the reverse");
            if want {
                cover(4);
                let mut buf = [0u8; 3];
                let mut n = 3;
                let mut v = x;
                while v > 0 || n == 3 {
                    n -= 1;
                    buf[n] = b'0' + (v % 10) as u8;
                    v /= 10;
                }
                let go = goes.as_ref().and_then(|f| f.arm(&buf[n..])).map(|f| f.leaf());
                let Some(go) = go.and_then(|f| if f.len() == 1 { number(f[0]) } else { None }) else { fail(99, "no goto for the error") };
                next.push((go, to));
            } else {
                cover(5);
            }
        }
        for (k, n) in t.go[x].iter().enumerate() {
            let m = l.goto_(y, NT + k as u8);
            if m != usize::MAX {
                check!(*n != NONE, 64, "no goto");
                next.push((*n, m));
            }
        }
        for n in next {
            if !pairs.contains(&n) {
                pairs.push(n);
            }
        }
    }
    // recovery states are states of the automaton
    check!(pairs.len() == t.act.len() && l.shift.len() == t.act.len(), 100, "number of states");
}
const RC1: Shape = Shape { nt: 2, nn: 1, alphabet: b"SEab", rules: &[(b'S', b"#*"), (b'S', b"**"), (b'S', b"?")], max: 0 };
const RC2: Shape = Shape { nt: 2, nn: 2, alphabet: b"AEab", rules: &[(b'S', b"A#"), (b'S', b"*"), (b'A', b"E"), (b'A', b"*"), (b'A', b"*E")], max: 0 };
const RC3: Shape = Shape { nt: 3, nn: 3, alphabet: b"BEab", rules: &[(b'S', b"SA?"), (b'S', b""), (b'A', b"#"), (b'A', b"*E"), (b'B', b"?*")], max: 0 };
const RC1_T: Shape = Shape { nt: 2, nn: 1, alphabet: b"SEab", rules: &[(b'S', b"#**"), (b'S', b"**"), (b'S', b"?*")], max: 0 };
const RC2_T: Shape = Shape { nt: 2, nn: 2, alphabet: b"SAEab", rules: &[(b'S', b"A#"), (b'S', b"**"), (b'A', b"E"), (b'A', b"*"), (b'A', b"*E")], max: 0 };
both! {
    c22_one_l c22_one_a: recovery(&RC1);
    c22_two_l c22_two_a: recovery(&RC2);
    c22_list_l c22_list_a: recovery(&RC3);
    c22_one_l_t c22_one_a_t: recovery(&RC1_T);
    c22_two_l_t c22_two_a_t: recovery(&RC2_T);
}
