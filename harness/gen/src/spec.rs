//! Harness entries about specifications: faults, action and predicate text,
//! token texts, injected files.
use super::code::*;
use super::sym::*;
use crate::check;
use super::{aug, plain, put, warm, Generate, Refused, HEAD};

/// A piece of a specification, each on a path of its own.
fn one<'a>(pool: &mut Pool, v: &[&'a str]) -> &'a str {
    v[pool.pick(v.len())]
}

// ------------------------------------------------------------------ faults
/// C14: token and skip definitions.
fn definitions(generate: Generate) {
    warm(generate);
    let mut pool = Pool(0);
    const DEFS: [&str; 8] = ["\"a\"", "\"b\"", "\"\"", "(a)", "(b)", "(*b)", "(a|)", "([)"];
    let names = ["a", one(&mut pool, &["a", "b"]), one(&mut pool, &["b", "c"])];
    let defs = [one(&mut pool, &DEFS), one(&mut pool, &DEFS), one(&mut pool, &["\"c\"", "(a)", "\"b\""])];
    let skips = [one(&mut pool, &["", "(a)", "(d)", "(+)"]), one(&mut pool, &["", "(d)", "(b)"])];
    let mut text = HEAD.to_string();
    text.push_str("%%\n");
    let mut faulty = false;
    for i in 0..3 {
        text.push_str("%token ");
        text.push_str(names[i]);
        text.push(' ');
        text.push_str(defs[i]);
        text.push('\n');
        faulty |= ["\"\"", "(*b)", "([)"].contains(&defs[i]);
        for j in 0..i {
            faulty |= names[i] == names[j] || defs[i] == defs[j];
        }
    }
    for s in skips {
        if !s.is_empty() {
            text.push_str("%skip ");
            text.push_str(s);
            text.push('\n');
            faulty |= s == "(+)" || defs.contains(&s);
        }
    }
    faulty |= !skips[0].is_empty() && skips[0] == skips[1];
    text.push_str("%%\nS: a .\n");
    verdict(generate(&text, false), faulty);
}
fn verdict(r: Result<Vec<u8>, Refused>, faulty: bool) {
    match r {
        Ok(_) => {
            cover(1);
            check!(!faulty, 70, "a faulty specification was accepted");
        }
        Err(Refused::Errors(n)) => {
            cover(2);
            check!(faulty && n > 0, 71, "a specification without a fault was refused");
        }
        Err(Refused::Undefined(_)) => check!(faulty, 71, "a specification without a fault was refused"),
        Err(_) => fail(72, "refused for another reason"),
    }
}

/// C14: precedences and the levels of rules.
fn tags(generate: Generate) {
    warm(generate);
    let mut pool = Pool(0);
    const NAMES: [&str; 7] = ["", "a", "\"a\"", "b", "\"x\"", "U", "V"];
    let n: Vec<&str> = (0..3).map(|_| one(&mut pool, &NAMES)).collect();
    let prec = one(&mut pool, &["", "a", "U", "V", "\"b\"", "\"x\""]);
    let mut text = HEAD.to_string();
    text.push_str("%%\n%token a \"a\"\n%token b \"b\"\n");
    let mut faulty = false;
    // what has been given a level, on an earlier line or as a tag
    let id = |x: &str| match x {
        "" => 0,
        "a" | "\"a\"" => 1,
        "b" | "\"b\"" => 2,
        "\"x\"" => 3,
        "U" => 4,
        _ => 5,
    };
    // two on the first line, one on the second
    for (i, j) in [(0, 2), (2, 3)] {
        if n[i..j].iter().all(|x| x.is_empty()) {
            continue;
        }
        text.push_str(["%left", "%nonassoc", "%right"][i]);
        for x in &n[i..j] {
            text.push(' ');
            text.push_str(x);
        }
        text.push('\n');
    }
    faulty |= n.contains(&"\"x\"");
    for i in 0..3 {
        for j in 0..i {
            if id(n[i]) == id(n[j]) && id(n[i]) > 0 {
                // a token twice on one line has one level all the same
                faulty |= id(n[i]) >= 4 || i == 2;
            }
        }
    }
    text.push_str("%%\nS: a b");
    if !prec.is_empty() {
        text.push_str(" %prec ");
        text.push_str(prec);
        faulty |= prec == "\"x\"" || (id(prec) >= 4 && !n.iter().any(|x| id(x) == id(prec)));
    }
    text.push_str(" .\n");
    verdict(generate(&text, false), faulty);
}

/// C14: symbols, left hand sides and attribute references.
fn symbols(generate: Generate) {
    warm(generate);
    let mut pool = Pool(0);
    const SYMS: [&str; 6] = ["a", "\"a\"", "\"x\"", "S", "T", "b"];
    let x = [one(&mut pool, &SYMS), one(&mut pool, &SYMS)];
    let lhs = one(&mut pool, &["", "T", "a", "U"]);
    let at = pool.pick(2);
    let refer = one(&mut pool, &["", "$1", "$0", "$99999999999999999999", "$$ $"]);
    let mut text = HEAD.to_string();
    text.push_str("%%\n%token a \"a\"\n%token b \"b\"\n%%\n");
    text.push_str("S: a ");
    text.push_str(x[0]);
    if !refer.is_empty() && at == 0 {
        text.push_str(" !{ ");
        text.push_str(refer);
        text.push_str(" !}");
    }
    text.push_str(" | b .\n");
    let mut faulty = x[0] == "\"x\"";
    let mut undefined = 0;
    if !lhs.is_empty() {
        text.push_str(lhs);
        text.push_str(": b ");
        text.push_str(x[1]);
        if !refer.is_empty() && at == 1 {
            text.push_str(" !{ ");
            text.push_str(refer);
            text.push_str(" !}");
        }
        text.push_str(" | b .\n");
        faulty |= x[1] == "\"x\"" || lhs == "a";
    }
    if (x[0] == "T" || (!lhs.is_empty() && x[1] == "T")) && lhs != "T" {
        undefined = 1;
    }
    faulty |= (at == 0 || !lhs.is_empty()) && ["$0", "$99999999999999999999"].contains(&refer);
    match generate(&text, true) {
        Ok(_) => {
            cover(1);
            check!(!faulty && undefined == 0, 70, "a faulty specification was accepted");
        }
        Err(Refused::Errors(n)) => {
            cover(2);
            check!(faulty && n > 0, 71, "a specification without a fault was refused");
        }
        Err(Refused::Undefined(n)) => {
            cover(3);
            check!(undefined == n, 73, "wrong number of undefined symbols");
        }
        Err(_) => fail(72, "refused for another reason"),
    }
}

/// C14: any bytes at all somewhere: a verdict, not a panic.
fn bytes(generate: Generate, place: usize, n: usize, alphabet: &[u8]) {
    warm(generate);
    let mut pool = Pool(0);
    let len = pool.pick(n + 1);
    let mut piece = String::new();
    for _ in 0..len {
        let b = if alphabet.is_empty() { pool.byte() } else { pool.byte_of(alphabet) };
        if alphabet.is_empty() {
            assume(b < 128);
        }
        put(&mut piece, b);
    }
    let parts = ["%{ p %}\n%attr X\n%target Y\n", "%shift_reduce 1\n", "%%\n%token a \"a\" ", "\n%skip (b)\n%left a ", "\n%%\nS: S a S ", " !{ $$ = $1; !} | a .\nT: ", " .\n"];
    let mut text = String::new();
    for (i, p) in parts.iter().enumerate() {
        text.push_str(p);
        if i == place {
            text.push_str(&piece);
        }
    }
    match generate(&text, false) {
        Ok(_) => cover(1),
        Err(Refused::Parse) => cover(2),
        Err(_) => cover(3),
    }
}
const MEANT: &[u8] = b"aT:|.%\"(){}!?$1 \n";
both! {
    c14_definitions_l c14_definitions_a: definitions();
    c14_tags_l c14_tags_a: tags();
    c14_symbols_l c14_symbols_a: symbols();
    c14_bytes0_l c14_bytes0_a: bytes(0, 2, b"");
    c14_bytes1_l c14_bytes1_a: bytes(1, 2, b"");
    c14_bytes2_l c14_bytes2_a: bytes(2, 2, b"");
    c14_bytes3_l c14_bytes3_a: bytes(3, 2, b"");
    c14_bytes4_l c14_bytes4_a: bytes(4, 2, b"");
    c14_bytes5_l c14_bytes5_a: bytes(5, 2, b"");
    c14_bytes0_l_t c14_bytes0_a_t: bytes(0, 4, MEANT);
    c14_bytes2_l_t c14_bytes2_a_t: bytes(2, 4, MEANT);
    c14_bytes3_l_t c14_bytes3_a_t: bytes(3, 4, MEANT);
    c14_bytes4_l_t c14_bytes4_a_t: bytes(4, 4, MEANT);
    c14_bytes5_l_t c14_bytes5_a_t: bytes(5, 4, MEANT);
}

// ----------------------------------------------------------------- actions
/// What the function of the actions calls the left hand side, the right hand
/// side and the injector.
struct Names<'a> {
    lhs: &'a [u8],
    rhs: &'a [u8],
    inject: &'a [u8],
}
fn names<'a>(t: &[&'a [u8]]) -> Option<Names<'a>> {
    let mut i = t.windows(2).position(|w| eq(w[0], b"fn") && eq(w[1], b"do_semantic_action"))?;
    while !eq(t.get(i)?, b"(") || !eq(t.get(i + 1)?, b"&") {
        i += 1;
    }
    let mut p = vec![];
    while !eq(t.get(i)?, b"{") {
        if eq(t[i], b":") {
            p.push(t[i - 1]);
        }
        i += 1;
    }
    // the value of the function is the last thing in it
    let mut depth = 0;
    loop {
        if eq(t.get(i)?, b"{") {
            depth += 1;
        } else if eq(t[i], b"}") {
            depth -= 1;
            if depth == 0 {
                break;
            }
        }
        i += 1;
    }
    if p.len() != 3 {
        return None;
    }
    Some(Names { lhs: t[i - 1], rhs: p[1], inject: p[2] })
}
/// What the text of an action stands for.
fn expand(a: &[u8], names: &Names) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < a.len() {
        if a[i] == b'$' && i + 1 < a.len() {
            if a[i + 1] == b'$' {
                v.extend_from_slice(names.lhs);
                i += 2;
                continue;
            }
            if a[i + 1..].starts_with(b"INJECT") {
                v.extend_from_slice(names.inject);
                i += 7;
                continue;
            }
            let mut j = i + 1;
            let mut n = 0;
            while j < a.len() && a[j] >= b'0' && a[j] <= b'9' {
                n = 10 * n + (a[j] - b'0') as usize;
                j += 1;
            }
            if j > i + 1 {
                check!(n > 0, 74, "an impossible reference was accepted");
                v.extend_from_slice(names.rhs);
                v.push(b'[');
                v.extend_from_slice((n - 1).to_string().as_bytes());
                v.push(b']');
                i = j;
                continue;
            }
        }
        v.push(a[i]);
        i += 1;
    }
    v
}
/// The tokens of a piece of code, without braces around it.
fn same(leaf: &[&[u8]], want: &[u8]) -> bool {
    let w = tokens(want);
    let mut l = leaf;
    while l.len() > w.len() && l.len() > 1 && eq(l[0], b"{") && eq(l[l.len() - 1], b"}") {
        l = &l[1..l.len() - 1];
    }
    l.len() == w.len() && l.iter().zip(w.iter()).all(|(a, b)| eq(a, b))
}
/// C10: each production runs its own action, with what it names.
fn actions(generate: Generate, n: usize, others: bool) {
    warm(generate);
    let mut pool = Pool(0);
    // which productions have an action, and which of them one that varies
    let which = pool.pick(4);
    let has: Vec<bool> = (0..4).map(|i| i == which || (others && pool.pick(2) == 1)).collect();
    const UNITS: [&str; 11] = ["$", "$$", "$1", "$20", "$INJECT", "0", "1", "IN", " ", "+", "\"$1{\""];
    let len = pool.pick(n + 1);
    let mut body = vec![];
    for _ in 0..len {
        body.extend_from_slice(UNITS[pool.pick(UNITS.len())].as_bytes());
    }
    let mut text = HEAD.to_string();
    text.push_str("%%\n%token a \"a\"\n%token b \"b\"\n%token c \"c\"\n%%\n");
    let fixed: [&[u8]; 4] = [b" f0($1) ", b" f1($2, $3); $$.x = 1 ", b" f2($$) ", b" f3 "];
    for (i, p) in ["S: T a", " | b b S", " .\nT:", " | c"].iter().enumerate() {
        text.push_str(p);
        if has[i] {
            text.push_str(" !{");
            for c in if i == which { &body[..] } else { fixed[i] } {
                put(&mut text, *c);
            }
            text.push_str("!}");
        }
    }
    text.push_str(" .\n");
    let out = match generate(&text, false) {
        Ok(out) => out,
        Err(Refused::Errors(_)) => {
            cover(2);
            // refused for a reference to nothing only
            let mut zero = false;
            for i in 0..body.len() {
                if body[i] == b'$' && body.get(i + 1) == Some(&b'0') {
                    zero = true;
                }
            }
            check!(zero, 75, "a valid action was refused");
            return;
        }
        Err(_) => fail(72, "refused for another reason"),
    };
    let t = tokens(&out);
    let Some(names) = names(&t) else { fail(18, "unreadable parser code") };
    let Some(f) = function(&t, b"do_semantic_action") else { fail(18, "unreadable parser code") };
    let Node::Match(arms) = &f else { fail(18, "unreadable parser code") };
    let mut seen = 0;
    for (pats, node) in arms {
        let Some(k) = number(pats[0]) else { break };
        seen += 1;
        check!(pats.len() == 1 && k >= 1 && k <= 4 && has[k - 1], 76, "an action for a production without one");
        let want = expand(if k - 1 == which { &body } else { fixed[k - 1] }, &names);
        cover(1);
        check!(same(node.leaf(), &want), 77, "an action is not what the specification says");
    }
    check!(seen == has.iter().filter(|x| **x).count(), 78, "an action is missing");
}
both! {
    c10_actions_l c10_actions_a: actions(1, true);
    c10_bodies_l c10_bodies_a: actions(3, false);
    c10_actions_l_t c10_actions_a_t: actions(2, true);
    c10_bodies_l_t c10_bodies_a_t: actions(4, false);
}

// ------------------------------------------------------------- token texts
/// The value of a Rust string literal.
pub fn unquote(t: &[u8]) -> Option<Vec<u8>> {
    if t[0] == b'r' {
        let h = t.iter().skip(1).take_while(|x| **x == b'#').count();
        return Some(t[h + 2..t.len() - h - 1].to_vec());
    }
    if t[0] != b'"' || t.len() < 2 || t[t.len() - 1] != b'"' {
        return None;
    }
    let mut v = vec![];
    let mut i = 1;
    while i < t.len() - 1 {
        let b = t[i];
        i += 1;
        if b != b'\\' {
            v.push(b);
            continue;
        }
        let e = t[i];
        i += 1;
        v.push(match e {
            b'n' => b'\n',
            b'r' => b'\r',
            b't' => b'\t',
            b'0' => 0,
            b'\\' | b'"' | b'\'' => e,
            b'u' => {
                let mut n = 0u32;
                i += 1;
                while t[i] != b'}' {
                    n = 16 * n + (t[i] as char).to_digit(16)?;
                    i += 1;
                }
                i += 1;
                let mut buf = [0; 4];
                v.extend_from_slice(char::from_u32(n)?.encode_utf8(&mut buf).as_bytes());
                continue;
            }
            _ => return None,
        });
    }
    Some(v)
}
/// The lexicon in emitted code: literals, patterns (each with its name), skips.
pub fn lexicon(out: &[u8]) -> Option<[Vec<(Vec<u8>, Vec<u8>)>; 3]> {
    let t = tokens(out);
    let mut i = 0;
    while i + 3 < t.len() && !(eq(t[i], b"LexicalAnalyzer") && eq(t[i + 1], b"::") && eq(t[i + 2], b"new")) {
        i += 1;
    }
    i += 4;
    let mut r = [vec![], vec![], vec![]];
    for l in r.iter_mut() {
        while !eq(t.get(i)?, b"[") {
            i += 1;
        }
        i += 1;
        let mut name: &[u8] = b"";
        while !eq(t.get(i)?, b"]") {
            let x = t[i];
            if x[0] == b'"' || (x[0] == b'r' && x.len() > 2 && (x[1] == b'#' || x[1] == b'"')) {
                l.push((name.to_vec(), unquote(x)?));
                name = b"";
            } else if x[0].is_ascii_alphabetic() {
                name = x;
            }
            i += 1;
        }
    }
    Some(r)
}
/// C19: literals, patterns and skips reach the lexer as they are written.
fn texts(generate: Generate, n: usize) {
    warm(generate);
    let mut pool = Pool(0);
    // a quote in a literal is written with a backslash before it
    const UNITS: [&str; 9] = ["x", "\\\"", "\\", "#", "{", "}", "'", " ", "é"];
    const RUNITS: [&str; 9] = ["x", "\"", "#", "\\\\", "\\.", "[^\"]", "'", "é", "\"###"];
    let kind = pool.pick(3);
    let mut piece = String::new();
    let mut want = String::new();
    let len = 1 + pool.pick(n);
    for i in 0..len {
        if kind == 0 {
            let k = pool.pick(UNITS.len());
            assume(k != 2 || i + 1 < len);
            piece.push_str(UNITS[k]);
            want.push_str(if k == 1 { "\"" } else { UNITS[k] });
        } else {
            piece.push_str(RUNITS[pool.pick(RUNITS.len())]);
        }
    }
    let mut text = HEAD.to_string();
    text.push_str("%%\n%token a ");
    let quoted = {
        let (l, r) = if kind == 0 { ("\"", "\"") } else { ("(", ")") };
        let mut s = l.to_string();
        s.push_str(&piece);
        s.push_str(r);
        s
    };
    if kind > 0 {
        want = quoted.clone();
    }
    let other = ["\"q\"", "(q+)"][pool.pick(2)];
    text.push_str(if kind == 2 { other } else { &quoted });
    text.push_str("\n%token b ");
    text.push_str(if kind == 2 { "(qq)" } else { other });
    text.push_str("\n%skip (y)\n");
    if kind == 2 {
        text.push_str("%skip ");
        text.push_str(&quoted);
        text.push('\n');
    }
    text.push_str("%%\nS: a b .\n");
    let out = match generate(&text, false) {
        Ok(out) => out,
        Err(_) => fail(80, "a valid token text was refused"),
    };
    let Some(l) = lexicon(&out) else { fail(81, "unreadable lexicon") };
    let mut exp: [Vec<(&[u8], &[u8])>; 3] = [vec![], vec![], vec![(b"", b"(y)")]];
    let o = other.as_bytes();
    if other.starts_with('"') {
        exp[0].push((if kind == 2 { b"a" } else { b"b" }, b"q"));
    } else {
        exp[1].push((if kind == 2 { b"a" } else { b"b" }, o));
    }
    match kind {
        0 => exp[0].push((b"a", want.as_bytes())),
        1 => exp[1].push((b"a", want.as_bytes())),
        _ => {
            exp[1].push((b"b", b"(qq)"));
            exp[2].push((b"", want.as_bytes()));
        }
    }
    cover(1);
    for i in 0..3 {
        check!(l[i].len() == exp[i].len(), 82, "a definition is missing or added");
        for (n, x) in &exp[i] {
            check!(l[i].iter().any(|(m, y)| eq(m, n) && eq(y, x)), 83, "a definition is changed");
        }
    }
}
both! {
    c19_texts_l c19_texts_a: texts(3);
    c19_texts_l_t c19_texts_a_t: texts(4);
}

// --------------------------------------------------------- injected files
/// C23: a specification in pieces, some of them in files of their own.
fn injected(generate: Generate) {
    warm(generate);
    let mut pool = Pool(0);
    let left = pool.pick(2);
    let c = pool.byte_of(b"ab");
    let mut rule = "S: S a S | ".to_string();
    put(&mut rule, c);
    rule.push_str(" | T !{ $$ = $1; !} .\n");
    // what comes before each place at which a file may be injected, and what may be in the file
    let parts: [(&str, &str); 11] = [
        ("", "%{ pre %}\n"),
        ("", "%attr X\n"),
        ("", "%target Y\n"),
        ("", "%shift_reduce 1\n"),
        ("%%\n", "%token a \"a\"\n"),
        ("", "%token b \"b\"\n"),
        ("", "%skip (x+)\n"),
        ("", ["%left a\n", "%nonassoc b\n"][left]),
        ("%%\n", ""),
        ("", "T: b b .\n"),
        ("", "T: b a .\n"),
    ];
    let k = pool.pick(parts.len());
    let l = pool.pick(3);
    let how = pool.pick(5);
    // pieces after a section mark must not have moved in front of it
    for i in k + 1..=k + l {
        assume(i < parts.len() && parts[i].0.is_empty());
    }
    assume(how != 1 || l > 0);
    // the same file twice, with something between
    assume(how != 4 || (l == 0 && k + 1 < parts.len() && parts[k + 1].0.is_empty()));
    let mut whole = String::new();
    let mut text = String::new();
    let mut first = String::new();
    let mut second = String::new();
    for (i, (x, y)) in parts.iter().enumerate() {
        let y = if i == 8 { &rule } else { *y };
        whole.push_str(x);
        whole.push_str(y);
        text.push_str(x);
        if i == k {
            text.push_str("%inject \"inc-1.txt\".\n");
            first.push_str(y);
        } else if i > k && i <= k + l {
            if how == 1 { &mut second } else { &mut first }.push_str(y);
        } else {
            text.push_str(y);
        }
        if how == 4 && i == k + 1 {
            text.push_str("%inject \"inc-1.txt\".\n");
            whole.push_str(&first);
        }
    }
    let want = generate(&whole, true);
    check!(want.is_ok() || how == 4, 84, "a valid specification is refused");
    let write = |n: &str, t: &str| {
        std::fs::write(n, t).expect("writes");
    };
    match how {
        0 | 4 => write("inc-1.txt", &first),
        1 => {
            // the file injects the other one
            first.push_str("%inject \"inc-2.txt\".\n");
            write("inc-1.txt", &first);
            write("inc-2.txt", &second);
        }
        2 => write("inc-1.txt", ""),
        _ => {}
    }
    let got = generate(&text, true);
    if how <= 1 || how == 4 {
        cover(if how == 4 { 3 } else { 1 });
        check!(got == want, 85, "injected text does not mean what it means in place");
    } else {
        cover(2);
        check!(got.is_err(), 86, "an empty or missing file is not reported");
    }
}
both! {
    c23_injected_l c23_injected_a: injected();
}
