//! What the description of a parser says about it.
use super::code::*;
use super::lang::*;
use super::more::{grammar, picked};
use super::sym::*;
use super::{aug, plain, put, Refused, Shape, HEAD, TERMS};
use crate::check;

#[derive(Default)]
struct State<'a> {
    items: Vec<(&'a str, &'a str)>,
    shifts: Vec<(&'a str, usize)>,
    /// tokens, accepts, production
    reductions: Vec<(&'a str, bool, &'a str)>,
    gotos: Vec<(&'a str, usize)>,
    recovery: Option<(usize, &'a str)>,
    sr: Vec<(&'a str, usize, &'a str, &'a str)>,
    rr: Vec<(&'a str, &'a str, &'a str, &'a str, &'a str)>,
}
#[derive(Default)]
struct Described<'a> {
    tokens: Vec<&'a str>,
    tags: Vec<&'a str>,
    nts: Vec<(&'a str, &'a str)>,
    prods: Vec<&'a str>,
    states: Vec<State<'a>>,
}
fn number(s: &str) -> Option<usize> {
    super::code::number(s.as_bytes())
}
fn state(s: &str) -> Option<usize> {
    number(s.trim().strip_prefix("State<")?.strip_suffix(">")?)
}
/// `None` if a line is none that belongs there.
fn read(text: &str) -> Option<Described<'_>> {
    let mut d = Described::default();
    let mut part = "";
    let mut it = text.lines().peekable();
    while let Some(l) = it.next() {
        if l.is_empty() {
            continue;
        }
        let t = l.trim_start();
        if let Some(x) = l.strip_prefix("State<") {
            if number(x.strip_suffix(">:")?)? != d.states.len() {
                return None;
            }
            d.states.push(State::default());
            part = "state";
            continue;
        }
        if l == "Symbols:" || l == "Productions:" {
            part = l;
            continue;
        }
        if l.starts_with("  ") && !l.starts_with("   ") && l.ends_with(":") {
            part = l.trim();
            if part != "Parser Action Table:" {
                continue;
            }
        }
        if t == "Shifts:" || t == "Reductions:" || t == "Parser Action Table:" {
            part = t;
            continue;
        }
        if t == "<empty>" {
            continue;
        }
        if d.states.is_empty() {
            match part {
                "Tokens:" => d.tokens.push(t),
                "Tags:" => d.tags.push(t),
                "Non Terminal Symbols:" => d.nts.push(t.split_once(": ")?),
                "Productions:" => d.prods.push(t),
                _ => return None,
            }
            continue;
        }
        let s = d.states.last_mut().unwrap();
        if let Some(x) = t.strip_prefix("Error Recovery State: ") {
            if x != "<none>" {
                s.recovery = Some((state(x)?, it.next()?.trim().strip_prefix("Look Ahead: ")?));
            }
            continue;
        }
        match part {
            "Grammar Items:" => s.items.push(t.rsplit_once(": ")?),
            "Shifts:" => {
                let (x, y) = t.split_once(" -> ")?;
                s.shifts.push((x, state(y)?));
            }
            "Reductions:" => {
                if let Some((x, y)) = t.split_once(": accept ") {
                    s.reductions.push((x, true, y));
                } else {
                    let (x, y) = t.split_once(": reduce ")?;
                    s.reductions.push((x, false, y));
                }
            }
            "Go To Table:" => {
                let (x, y) = t.split_once(" -> ")?;
                s.gotos.push((x, state(y)?));
            }
            "Shift/Reduce Conflicts:" => {
                let to = it.next()?.trim_start().strip_prefix("shift -> ")?;
                let (p, set) = it.next()?.trim_start().strip_prefix("reduce ")?.rsplit_once(": ")?;
                s.sr.push((t.strip_suffix(":")?, state(to)?, p, set));
            }
            "Reduce/Reduce Conflicts:" => {
                let (p, x) = it.next()?.trim_start().strip_prefix("reduce ")?.rsplit_once(" : ")?;
                let (q, y) = it.next()?.trim_start().strip_prefix("reduce ")?.rsplit_once(" : ")?;
                s.rr.push((t, p, x, q, y));
            }
            _ => return None,
        }
    }
    Some(d)
}

/// How tokens are shown: literals as texts, patterns by name.
const SHOWN: [&str; 4] = ["AAEnd", "\"a\"", "\"b\"", "c"];
fn list(s: &str, by: &str) -> Option<u8> {
    let mut r = 0;
    if s.is_empty() {
        return Some(0);
    }
    for x in s.split(by) {
        let b = 1 << SHOWN.iter().position(|y| *y == x)?;
        if r & b != 0 {
            return None;
        }
        r |= b;
    }
    Some(r)
}
fn set(s: &str) -> Option<u8> {
    list(s.strip_prefix("TokenSet{")?.strip_suffix("}")?, ", ")
}

struct World<'a> {
    g: &'a Gram,
    /// names of non terminals
    names: Vec<&'static str>,
}
impl World<'_> {
    fn name(&self, s: u8) -> &'static str {
        if s < NT { SHOWN[s as usize] } else { self.names[(s - NT) as usize] }
    }
    /// A production (of the start, if there is no such), with a dot somewhere.
    fn production(&self, p: usize, dot: Option<usize>) -> String {
        let start = Prod::new(0, vec![NT], (0, 0));
        let q = self.g.prods.get(p).unwrap_or(&start);
        let mut s = String::from(if q.lhs == 0 { "AAStart" } else { self.name(q.lhs) });
        s.push(':');
        for (i, x) in q.rhs.iter().enumerate() {
            if dot == Some(i) {
                s.push_str(" .");
            }
            s.push(' ');
            s.push_str(self.name(*x));
        }
        if q.rhs.is_empty() {
            s.push_str(if dot.is_some() { " . <empty>" } else { " <empty>" });
        } else if dot == Some(q.rhs.len()) {
            s.push_str(" . ");
        }
        s.push(' ');
        s.push_str(&precedence(q.prec));
        s
    }
}
fn precedence((level, assoc): (u8, u8)) -> String {
    let mut s = String::from(["#(NonAssoc, ", "#(Left, ", "#(Right, "][assoc as usize]);
    put(&mut s, b'0' + level);
    s.push(')');
    s
}

/// Precedences: text, of a, of b, of the tag.
const LEVELS: &[(&str, [(u8, u8); 3])] = &[
    ("%nonassoc N\n", [(0, 0), (0, 0), (1, 0)]),
    ("%left a\n%right N\n", [(1, 1), (0, 0), (2, 2)]),
    ("%right b\n%left N a\n", [(2, 1), (1, 2), (2, 1)]),
];

type Describe = fn(&str) -> Result<(Vec<u8>, Vec<u8>), Refused>;
type Report = fn(&str, bool, bool) -> Option<String>;
fn described(describe: Describe, report: Report, shape: &Shape) {
    let head = || {
        let mut text = HEAD.to_string();
        text.push_str("%%\n%token a \"a\"\n%token b \"b\"\n");
        text.push_str(if shape.nt > 2 { "%token c (c+)\n" } else { "" });
        text
    };
    let mut text = head();
    text.push_str(LEVELS[2].0);
    text.push_str("%%\nS: S a b | A b | B B a | %error b | a .\nA: a . B: a | . \n");
    check!(describe(&text).is_ok(), 1, "a specification is refused");
    let mut pool = Pool(0);
    let (lines, prec) = LEVELS[pool.pick(LEVELS.len())];
    // the last production has a precedence of its own
    let own = pool.pick(3);
    let h = picked(&mut pool, shape);
    let mut text = head();
    text.push_str(lines);
    text.push_str("%%\n");
    let mut r = super::more::rules(shape, &h, &[]);
    r.truncate(r.len() - 3);
    r.push_str(["", " %prec N", " %prec b"][own]);
    r.push_str(" .\n");
    text.push_str(&r);
    let mut g = grammar(shape, &h, &[]);
    g.tprec = vec![(0, 0), prec[0], prec[1], (0, 0)];
    g.tprec.truncate(shape.nt + 1);
    for p in g.prods.iter_mut() {
        if let Some(x) = p.rhs.iter().find(|x| **x < NT) {
            p.prec = g.tprec[*x as usize];
        }
    }
    if own > 0 {
        g.prods[shape.rules.len() - 1].prec = prec[[0, 2, 1][own]];
    }
    assume(g.languages(1).productive.iter().all(|x| *x));
    let l = g.lalr();
    let Ok((code, desc)) = describe(&text) else { fail(15, "refused though conflicts are ignored") };
    let desc = String::from_utf8(desc).expect("is text");
    let complain = |ok: bool, code: u32, what: &str| {
        if !ok {
            note(&text);
            note(&desc);
            fail(code, what);
        }
    };
    let d = read(&desc);
    complain(d.is_some(), 140, "the description cannot be read");
    let d = d.unwrap();
    let mut names = vec!["S", "A", "B"];
    names.truncate(shape.nn);
    if g.error > 0 {
        names.push("AAError");
    }
    let w = World { g: &g, names };
    // symbols
    let texts = ["AAEnd()", "a(\"a\")", "b(\"b\")", "c((c+))"];
    complain(d.tokens.len() == shape.nt + 1, 141, "tokens are missing, or there are others");
    for i in 0..=shape.nt {
        complain(d.tokens.iter().any(|t| *t == [texts[i], ": ", &precedence(g.tprec[i])].concat()), 142, "a token is described wrongly");
    }
    complain(d.tags == [["N: ", &precedence(prec[2])].concat()], 143, "a tag is described wrongly");
    complain(d.nts.len() == w.names.len() + 1, 144, "non terminals are missing, or there are others");
    for (n, x) in &d.nts {
        let i = match w.names.iter().position(|y| y == n) {
            None if *n == "AAStart" => 0,
            i => {
                complain(i.is_some(), 144, "non terminals are missing, or there are others");
                i.unwrap()
            }
        };
        let (s, e) = x.split_once(":").unwrap_or(("", ""));
        complain(set(s) == Some(l.first[i]) && e == if l.null[i] { "(true)" } else { "(false)" }, 145, "what a non terminal starts with is wrong");
    }
    // productions
    let n = g.prods.len();
    complain(d.prods.len() == n + 1, 146, "productions are missing, or there are others");
    for i in 0..=n {
        complain(d.prods[i] == w.production(if i == 0 { n } else { i - 1 }, None), 147, "a production is described wrongly");
    }
    // the code
    let terms = &TERMS[..shape.nt + 1];
    let bytes: Vec<&[u8]> = w.names.iter().map(|x| x.as_bytes()).collect();
    let Some(t) = tables(&code, terms, &bytes) else { fail(18, "unreadable parser code") };
    complain(d.states.len() == t.act.len(), 148, "not the states of the code");
    for (s, st) in d.states.iter().enumerate() {
        let mut shifts = 0;
        for x in 0..=shape.nt {
            let shift: Vec<_> = st.shifts.iter().filter(|y| y.0 == SHOWN[x]).collect();
            let red: Vec<_> = st.reductions.iter().filter(|y| list(y.0, " | ").is_some_and(|l| l >> x & 1 == 1)).collect();
            shifts += shift.len();
            let ok = match t.act[s][x] {
                Act::Shift(n) => shift.len() == 1 && shift[0].1 == n && red.is_empty(),
                Act::Reduce(p) => shift.is_empty() && red.len() == 1 && !red[0].1 && red[0].2 == d.prods[p],
                Act::Accept => shift.is_empty() && red.len() == 1 && red[0].1 && red[0].2 == d.prods[0],
                Act::Error => shift.is_empty() && red.is_empty(),
            };
            complain(ok, 149, "the actions described are not those of the code");
        }
        complain(shifts == st.shifts.len() && st.reductions.iter().all(|r| list(r.0, " | ").is_some_and(|l| l > 0)), 150, "actions that mean nothing");
        for (i, name) in w.names.iter().enumerate() {
            let to: Vec<_> = st.gotos.iter().filter(|y| y.0 == *name).collect();
            let ok = if t.go[s][i] == NONE { to.is_empty() || *name == "AAError" } else { to.len() == 1 && to[0].1 == t.go[s][i] };
            complain(ok, 151, "the gotos described are not those of the code");
        }
    }
    // the automaton
    let mut pairs = vec![(0, 0)];
    let mut i = 0;
    while i < pairs.len() {
        let (x, y) = pairs[i];
        i += 1;
        let st = &d.states[x];
        complain(st.items.len() == l.items[y].len(), 152, "items are missing, or there are others");
        let after = |p: u8, la: u8| l.reduce[y].iter().find(|r| r.0 == p as usize).map_or(la, |r| r.1);
        let end = |p: usize| if p == n { 1 } else { g.prods[p].rhs.len() };
        for (p, dot, la) in &l.items[y] {
            let s = w.production(*p as usize, Some(*dot as usize));
            // there may be two of the same
            let la = if *dot as usize == end(*p as usize) { after(*p, *la) } else { *la };
            complain(st.items.iter().any(|i| i.0 == s && set(i.1) == Some(la)), 153, "an item is described wrongly");
        }
        complain(st.sr.len() == l.srs[y].len() && st.rr.len() == l.rrs[y].len(), 154, "another number of conflicts");
        for (k, p) in &l.srs[y] {
            cover(1);
            let to = d.states[x].sr.iter().any(|c| c.0 == SHOWN[*k] && c.2 == w.production(*p, None) && set(c.3).is_some_and(|s| s >> k & 1 == 1));
            complain(to, 155, "a conflict is not described");
        }
        for (p, q, la) in &l.rrs[y] {
            cover(2);
            let ok = st.rr.iter().any(|c| {
                set(c.0) == Some(*la)
                    && c.1 == w.production(*p, Some(end(*p)))
                    && set(c.2) == Some(after(*p as u8, 0))
                    && c.3 == w.production(*q, Some(end(*q)))
                    && set(c.4) == Some(after(*q as u8, 0))
            });
            complain(ok, 155, "a conflict is not described");
        }
        for k in 1..=shape.nt {
            if l.shift[y] >> k & 1 == 1 {
                let Act::Shift(to) = t.act[x][k] else { fail(156, "no shift") };
                for c in st.sr.iter().filter(|c| c.0 == SHOWN[k]) {
                    complain(c.1 == to, 155, "a conflict is not described");
                }
                pairs.push((to, l.goto_(y, k as u8)));
            }
        }
        for (k, name) in w.names.iter().enumerate() {
            let to = l.goto_(y, NT + k as u8);
            let got = st.gotos.iter().find(|z| z.0 == *name);
            complain((to != usize::MAX) == got.is_some(), 157, "gotos are missing, or there are others");
            if let Some(z) = got {
                pairs.push((z.1, to));
            }
            if *name == "AAError" {
                complain(st.recovery.is_some() == got.is_some(), 158, "the recovery state is another");
                if let (Some(r), Some(z)) = (st.recovery, got) {
                    cover(3);
                    let mut la = 0;
                    for x in 0..=shape.nt {
                        la |= u8::from(t.expect[z.1][x]) << x;
                    }
                    complain(r.0 == z.1 && set(r.1) == Some(la), 158, "the recovery state is another");
                }
            }
        }
        if g.error == 0 {
            cover(4);
            complain(st.recovery.is_none(), 158, "the recovery state is another");
        }
        // each pair once
        let mut j = i;
        while j < pairs.len() {
            if pairs[..j].contains(&pairs[j]) {
                pairs.remove(j);
            } else {
                j += 1;
            }
        }
    }
    // some may only be reached by tokens that are no longer shifted
    let once = (0..pairs.len()).all(|i| (0..i).all(|j| pairs[i].0 != pairs[j].0 && pairs[i].1 != pairs[j].1));
    complain(once && d.states.len() == l.shift.len(), 159, "not the states of the automaton");
    // if it is refused, the states with conflicts are described
    let parts: Vec<&str> = desc.split("\nState<").skip(1).collect();
    for sr in [true, false] {
        let count = if sr { l.sr } else { l.rr };
        let got = report(&text, !sr, sr);
        complain(got.is_some() == (count > 0), 160, "conflicts are accepted, or refused without any");
        if let Some(got) = got {
            let want: Vec<&str> = (0..parts.len()).filter(|i| if sr { !d.states[*i].sr.is_empty() } else { !d.states[*i].rr.is_empty() }).map(|i| parts[i].trim_end()).collect();
            let got: Vec<&str> = got.split("\nState<").skip(1).map(|x| x.trim_end()).collect();
            complain(want == got, 161, "what is said about conflicts is not what the description says");
        }
    }
}
const D1: Shape = Shape { nt: 2, nn: 1, alphabet: b"Sab", rules: &[(b'S', b"#*"), (b'S', b"**"), (b'S', b"?")], max: 0 };
const D2: Shape = Shape { nt: 3, nn: 3, alphabet: b"AEc", rules: &[(b'S', b"AB"), (b'S', b"*b"), (b'A', b"a*"), (b'A', b"E"), (b'B', b""), (b'B', b"a")], max: 0 };
const D3: Shape = Shape { nt: 3, nn: 2, alphabet: b"SAa", rules: &[(b'S', b"S?S"), (b'S', b"A"), (b'S', b"*"), (b'A', b"#*c")], max: 0 };
const D4: Shape = Shape { nt: 2, nn: 3, alphabet: b"ABab", rules: &[(b'S', b"A*"), (b'S', b"B?"), (b'A', b"?"), (b'B', b"?"), (b'B', b"?E")], max: 0 };
macro_rules! descriptions {
    ($($p:ident $a:ident: $x:expr;)*) => {$(
        #[unsafe(no_mangle)]
        pub extern "C" fn $p() {
            described(|t| plain::grammar(plain::spec(t)?, true, true).map(|g| (plain::code(&g), plain::describe(&g))), plain::report, &$x)
        }
        #[unsafe(no_mangle)]
        pub extern "C" fn $a() {
            described(|t| aug::grammar(aug::spec(t)?, true, true).map(|g| (aug::code(&g), aug::describe(&g))), aug::report, &$x)
        }
    )*}
}
descriptions! {
    c26_one_l c26_one_a: D1;
    c26_error_l c26_error_a: D2;
    c26_levels_l c26_levels_a: D3;
    c26_rr_l c26_rr_a: D4;
}
