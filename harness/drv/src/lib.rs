//! Harness entries for the parser drivers (C07, C08): the automaton's tables
//! are chosen by the solver, entry by entry, as a reference driver needs them;
//! the real driver then runs on the same tables and text.
#[path = "../../common/sym.rs"]
mod sym;
mod msgs;

use std::collections::BTreeSet;
use sym::*;

pub const END: u32 = 0;
pub const LEXERR: u32 = 99;
pub const NS: usize = 4; // states, at most
pub const NP: usize = 4; // productions, at most
pub const NT: usize = 3; // tags: end, a, b

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    Unset,
    Accept,
    Error,
    Shift(u32),
    Reduce(u32),
}

/// What an attribute on the stack is.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub enum Attr {
    #[default]
    None,
    /// tag, which text, column
    Tok(u32, u32, u32),
    /// made from an error: tag (or LEXERR), which text, column
    Err(u32, u32, u32),
    /// result of the n-th reduction
    Node(u32),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Reduce(u32, Vec<Attr>),
    /// the attribute made from the error, and the state whose expected set it shows
    Report(Attr, u32),
}

pub struct Tables {
    pub pool: Pool,
    pub ns: usize,
    pub np: usize,
    pub errors: bool,
    pub act: [[Act; NT]; NS],
    pub len: [usize; NP],
    pub goto_: [[u32; NS]; NP],
    pub inj: [usize; NP],
    pub viable: [usize; NT],
    pub err_goto: [u32; NS],
    pub injections: bool,
    pub max_len: usize,
}
const UNSET: u32 = 77;
pub static mut TABLES: Option<Tables> = None;
#[allow(static_mut_refs)]
pub fn tables() -> &'static mut Tables {
    unsafe { TABLES.as_mut().unwrap() }
}

pub const INJECT: [(&str, &str); 4] = [("", ""), ("b", "I"), ("ab", "I"), ("!", "I")];

impl Tables {
    fn new(ns: usize, np: usize, errors: bool, injections: bool, max_len: usize) -> Self {
        Tables {
            pool: Pool(0),
            ns,
            np,
            errors,
            act: [[Act::Unset; NT]; NS],
            len: [UNSET as usize; NP],
            goto_: [[UNSET; NS]; NP],
            inj: [UNSET as usize; NP],
            viable: [UNSET as usize; NT],
            err_goto: [UNSET; NS],
            injections,
            max_len,
        }
    }
    /// A state something can be shifted to.
    fn target(&mut self) -> u32 {
        1 + self.pool.pick(self.ns - 1) as u32
    }
    fn action(&mut self, s: u32, t: u32) -> Act {
        let (si, ti) = (s as usize, t as usize);
        if let Act::Unset = self.act[si][ti] {
            let k = self.pool.pick(2 + self.np);
            self.act[si][ti] = if k == 0 {
                Act::Error
            } else if k > 1 {
                Act::Reduce(k as u32 - 2)
            } else if t == END {
                // only ever an action on the end token
                Act::Accept
            } else {
                Act::Shift(self.target())
            };
        }
        self.act[si][ti]
    }
    fn prod_len(&mut self, p: u32) -> usize {
        let p = p as usize;
        if self.len[p] == UNSET as usize {
            self.len[p] = self.pool.pick(self.max_len + 1);
        }
        self.len[p]
    }
    fn goto_state(&mut self, p: u32, s: u32) -> u32 {
        if self.goto_[p as usize][s as usize] == UNSET {
            self.goto_[p as usize][s as usize] = self.target();
        }
        self.goto_[p as usize][s as usize]
    }
    fn injection(&mut self, p: u32) -> usize {
        if !self.injections {
            return 0;
        }
        if self.inj[p as usize] == UNSET as usize {
            self.inj[p as usize] = self.pool.pick(INJECT.len());
        }
        self.inj[p as usize]
    }
    fn viable(&mut self, t: u32) -> usize {
        if !self.errors {
            return 0;
        }
        if self.viable[t as usize] == UNSET as usize {
            self.viable[t as usize] = self.pool.pick(1 << self.ns);
        }
        self.viable[t as usize]
    }
    fn error_goto(&mut self, s: u32) -> u32 {
        if self.err_goto[s as usize] == UNSET {
            self.err_goto[s as usize] = self.target();
        }
        self.err_goto[s as usize]
    }
}

// ------------------------------------------------------------- reference
#[derive(Clone, Copy, PartialEq)]
struct It {
    tag: u32,
    text: u32,
    col: u32,
}
/// The elements of a text over a, b and ! (runs of ! are one error).
fn items(text: &str, which: u32) -> Vec<It> {
    let mut v: Vec<It> = vec![];
    let mut prev = 0u8;
    for (i, b) in text.bytes().enumerate() {
        let tag = if b == b'a' {
            1
        } else if b == b'b' {
            2
        } else {
            LEXERR
        };
        if tag != LEXERR || prev != b'!' {
            v.push(It { tag, text: which, col: i as u32 + 1 });
        }
        prev = b;
    }
    v
}

struct Stream {
    /// texts still being read, each with the rest of its elements reversed
    texts: Vec<(Vec<It>, It)>,
    /// the end token, once nothing is left
    end: It,
}
impl Stream {
    fn inject(&mut self, text: &str, which: u32) {
        let mut v = items(text, which);
        v.reverse();
        if !v.is_empty() {
            self.texts.push((v, It { tag: END, text: which, col: text.len() as u32 + 1 }));
        }
    }
    fn front(&self) -> It {
        match self.texts.last() {
            Some(v) => *v.0.last().unwrap(),
            None => self.end,
        }
    }
    fn advance(&mut self) {
        let n = self.texts.len();
        self.texts[n - 1].0.pop();
        while let Some(v) = self.texts.last() {
            if !v.0.is_empty() {
                break;
            }
            self.end = v.1;
            self.texts.pop();
        }
    }
}

pub struct Trace {
    pub events: Vec<Ev>,
    pub ok: bool,
    /// the last reported error, if any
    pub last: Attr,
    /// for drivers that show the stack when asking for an action
    pub stacks: Vec<Vec<Attr>>,
}

fn recover(tb: &mut Tables, stack: &mut Vec<(u32, Attr)>, toks: &mut Stream, used: &mut Vec<u32>, err: Attr) -> bool {
    let mut skipped = 0;
    loop {
        let f = toks.front();
        if f.tag != LEXERR {
            let v = tb.viable(f.tag);
            let mut i = stack.len();
            while i > 0 {
                i -= 1;
                let s = stack[i].0;
                if v >> s & 1 == 1 && !used.contains(&s) {
                    used.push(s);
                    if i == 0 {
                        cover(10);
                    }
                    if i + 1 < stack.len() {
                        cover(11);
                    }
                    if skipped > 0 {
                        cover(12);
                    }
                    if f.tag == END {
                        cover(13);
                    }
                    stack.truncate(i + 1);
                    let g = tb.error_goto(s);
                    stack.push((g, err));
                    return true;
                }
            }
        }
        if toks.texts.is_empty() {
            return false;
        }
        toks.advance();
        skipped += 1;
    }
}

pub fn reference(text: &str, max_steps: usize) -> Trace {
    let tb = tables();
    let mut toks = Stream { texts: vec![], end: It { tag: END, text: 0, col: 1 } };
    toks.inject(text, 0);
    let mut stack = vec![(0u32, Attr::None)];
    let mut used = vec![];
    let mut t = Trace { events: vec![], ok: true, last: Attr::None, stacks: vec![] };
    let mut nodes = 0;
    let mut steps = 0;
    loop {
        steps += 1;
        // longer runs are outside the bound
        assume(steps <= max_steps);
        let f = toks.front();
        let s = stack[stack.len() - 1].0;
        let mut error = f.tag == LEXERR;
        if !error {
            t.stacks.push(stack[1..].iter().map(|x| x.1).collect());
            match tb.action(s, f.tag) {
                Act::Accept => {
                    cover(1);
                    return t;
                }
                Act::Shift(n) => {
                    used.clear();
                    stack.push((n, Attr::Tok(f.tag, f.text, f.col)));
                    toks.advance();
                    cover(2);
                }
                Act::Reduce(p) => {
                    let n = tb.prod_len(p);
                    // a real automaton never reduces more than there is
                    assume(n < stack.len());
                    let rhs: Vec<Attr> = stack[stack.len() - n..].iter().map(|x| x.1).collect();
                    stack.truncate(stack.len() - n);
                    let top = stack[stack.len() - 1].0;
                    let g = tb.goto_state(p, top);
                    t.events.push(Ev::Reduce(p, rhs));
                    let (text, _) = INJECT[tb.injection(p)];
                    // injected texts are numbered by the reduction
                    toks.inject(text, nodes + 1);
                    stack.push((g, Attr::Node(nodes)));
                    nodes += 1;
                    cover(3);
                }
                _ => error = true,
            }
        }
        if error {
            let e = Attr::Err(f.tag, f.text, f.col);
            t.events.push(Ev::Report(e, s));
            t.ok = false;
            t.last = e;
            if !recover(tb, &mut stack, &mut toks, &mut used, e) {
                cover(4);
                return t;
            }
            cover(5);
        }
    }
}

// ------------------------------------------------------------ real driver
pub static mut RUN: Option<(Trace, usize, usize)> = None;
#[allow(static_mut_refs)]
pub fn run_() -> &'static mut (Trace, usize, usize) {
    unsafe { RUN.as_mut().unwrap() }
}
fn event(e: Ev) {
    let r = run_();
    check!(r.1 < r.0.events.len(), 70, "more reductions or error reports than the automaton makes");
    let want = &r.0.events[r.1];
    match (&e, want) {
        (Ev::Reduce(p, a), Ev::Reduce(q, b)) => {
            check!(p == q, 71, "wrong production reduced");
            check!(a == b, 72, "wrong attributes passed to an action");
        }
        (Ev::Report(a, s), Ev::Report(b, t)) => {
            check!(a == b, 73, "wrong error reported");
            check!(s == t, 74, "error shows the expected tokens of another state");
        }
        _ => fail(75, "reduction and error report out of order"),
    }
    r.1 += 1;
}
pub fn which(label: &str) -> u32 {
    // labels are "" for the main text or one letter for an injected one
    match label.bytes().next() {
        None => 0,
        Some(b) => (b - b'A') as u32 + 1,
    }
}
pub fn tok_attr(t: &lexan::Token<u32>) -> Attr {
    Attr::Tok(*t.tag(), which(t.location().label()), t.location().offset() as u32)
}
pub fn lex_attr(e: &lexan::Error<u32>) -> Attr {
    match e {
        lexan::Error::UnexpectedText(_, l) => Attr::Err(LEXERR, which(l.label()), l.offset() as u32),
        _ => Attr::None,
    }
}

macro_rules! driver {
    ($m:ident, $lib:ident, $stack:tt) => {
        pub mod $m {
            use super::*;
            use ::lalr1::OrderedSet;
            use $lib::{Action, Error, Parser, ReportError};

            #[derive(Default, Clone)]
            pub struct A(pub Attr);
            impl From<lexan::Token<u32>> for A {
                fn from(t: lexan::Token<u32>) -> A {
                    A(tok_attr(&t))
                }
            }
            fn attr(e: &Error<u32>) -> (Attr, u32) {
                let (a, set) = match e {
                    Error::LexicalError(e, s) => (lex_attr(e), s),
                    Error::SyntaxError(t, s) => match tok_attr(t) {
                        Attr::Tok(a, b, c) => (Attr::Err(a, b, c), s),
                        x => (x, s),
                    },
                };
                let mut st = 0;
                for x in set.iter() {
                    st = *x;
                }
                (a, if set.len() == 1 { st } else { 1000 })
            }
            impl From<Error<u32>> for A {
                fn from(e: Error<u32>) -> A {
                    A(attr(&e).0)
                }
            }
            pub struct P {
                pub lex: lexan::LexicalAnalyzer<u32>,
                pub nodes: u32,
            }
            impl ReportError<u32> for P {
                fn report_error(&mut self, e: &Error<u32>) {
                    let (a, s) = attr(e);
                    event(Ev::Report(a, s));
                }
            }
            impl Parser<u32, u32, A> for P {
                fn lexical_analyzer(&self) -> &lexan::LexicalAnalyzer<u32> {
                    &self.lex
                }
                driver!(@next $stack $lib);
                fn production_data(p: u32) -> (u32, usize) {
                    let l = tables().len[p as usize];
                    check!(l != UNSET as usize, 76, "a production the automaton does not use");
                    (p, l)
                }
                fn goto_state(lhs: &u32, s: u32) -> u32 {
                    let g = tables().goto_[*lhs as usize][s as usize];
                    check!(g != UNSET, 77, "a goto the automaton does not use");
                    g
                }
                fn do_semantic_action<F: FnMut(String, String)>(&mut self, p: u32, attributes: Vec<A>, mut inject: F) -> A {
                    event(Ev::Reduce(p, attributes.iter().map(|x| x.0).collect()));
                    if tables().injections {
                        let (text, _) = INJECT[tables().inj[p as usize]];
                        inject(text.to_string(), ((b'A' + self.nodes as u8) as char).to_string());
                    }
                    let n = self.nodes;
                    self.nodes += 1;
                    A(Attr::Node(n))
                }
                fn viable_error_recovery_states(tag: &u32) -> OrderedSet<u32> {
                    let mut s = BTreeSet::new();
                    if tables().errors {
                        let v = tables().viable[*tag as usize];
                        check!(v != UNSET as usize, 78, "recovery looks at a token it must not reach");
                        for i in 0..NS {
                            if v >> i & 1 == 1 {
                                s.insert(i as u32);
                            }
                        }
                    }
                    OrderedSet(s)
                }
                fn error_goto_state(s: u32) -> u32 {
                    let g = tables().err_goto[s as usize];
                    check!(g != UNSET, 79, "recovery in a state it must not use");
                    g
                }
                fn look_ahead_set(state: u32) -> OrderedSet<u32> {
                    let mut s = BTreeSet::new();
                    s.insert(state);
                    OrderedSet(s)
                }
            }
            pub fn run(text: &str) {
                let lex = lexan::LexicalAnalyzer::new(&[(1, "a"), (2, "b")], &[], &[], END);
                let mut p = P { lex, nodes: 0 };
                let r = p.parse_text(text, "");
                let t = run_();
                check!(t.1 == t.0.events.len(), 80, "reductions or error reports missing");
                match &r {
                    Ok(()) => check!(t.0.ok, 81, "Ok though an error was found"),
                    Err(e) => {
                        check!(!t.0.ok, 82, "Err though no error was found");
                        check!(attr(e).0 == t.0.last, 83, "result is not the last error");
                    }
                }
                observe(t.1 as u64);
            }
        }
    };
    (@next plain $lib:ident) => {
        fn next_action(&self, state: u32, t: &lexan::Token<u32>) -> Action {
            driver!(@act state t)
        }
    };
    (@next stack $lib:ident) => {
        fn next_action(&self, state: u32, stack: &$lib::ParseStack<u32, u32, A>, t: &lexan::Token<u32>) -> Action {
            let r = run_();
            check!(r.2 < r.0.stacks.len(), 84, "more actions asked for than the automaton makes");
            let want = &r.0.stacks[r.2];
            r.2 += 1;
            for i in 0..want.len() {
                check!(stack.at_len_minus_n(i + 1).0 == want[want.len() - 1 - i], 85, "predicates would see the wrong attribute");
            }
            driver!(@act state t)
        }
    };
    (@act $s:ident $t:ident) => {
        match tables().act[$s as usize][*$t.tag() as usize] {
            Act::Unset => fail(86, "an action the automaton does not ask for"),
            Act::Accept => Action::Accept,
            Act::Error => Action::SyntaxError,
            Act::Shift(s) => Action::Shift(s),
            Act::Reduce(p) => Action::Reduce(p),
        }
    };
}
driver!(plain, lalr1, plain);
driver!(aug, alalr1, stack);

fn scenario(ns: usize, np: usize, errors: bool, inj: bool, max_len: usize, chars: &[u8], max_text: usize, steps: usize) -> String {
    let mut tb = Tables::new(ns, np, errors, inj, max_len);
    // the empty text has no tokens at all (see DESIGN.md)
    let text = tb.pool.text(1, max_text, chars);
    unsafe { TABLES = Some(tb) };
    let t = reference(&text, steps);
    unsafe { RUN = Some((t, 0, 0)) };
    text
}
macro_rules! entries {
    ($($l:ident $a:ident ($($x:expr),*);)*) => {$(
        #[unsafe(no_mangle)]
        pub extern "C" fn $l() {
            let t = scenario($($x),*);
            plain::run(&t);
        }
        #[unsafe(no_mangle)]
        pub extern "C" fn $a() {
            let t = scenario($($x),*);
            aug::run(&t);
        }
    )*};
}
entries! {
    c07_l c07_a (3, 2, false, false, 2, b"ab", 3, 9);
    c07_inj_l c07_inj_a (3, 2, false, true, 2, b"ab!", 2, 7);
    c07_l_t c07_a_t (4, 2, false, false, 3, b"ab", 3, 8);
    c07_inj_l_t c07_inj_a_t (3, 2, false, true, 2, b"ab!", 2, 8);
    c08_l c08_a (3, 1, true, false, 2, b"ab!", 3, 4);
    c08_long_l c08_long_a (2, 1, true, false, 1, b"ab!", 3, 8);
    c08_inj_l c08_inj_a (2, 1, true, true, 1, b"a!", 3, 7);
    c08_l_t c08_a_t (4, 1, true, false, 1, b"ab!", 3, 4);
    c08_long_l_t c08_long_a_t (3, 1, true, false, 1, b"ab", 3, 6);
    c08_inj_l_t c08_inj_a_t (3, 1, true, true, 2, b"ab!", 2, 5);
}
