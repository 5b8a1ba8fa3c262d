//! C27: what a user of a generated parser reads when the input is wrong. The
//! parser here reports errors the default way; the text, where it comes from
//! and what each state expects are chosen by the solver.
use super::check;
use super::sym::*;
use std::collections::BTreeSet;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct Tag(pub u8);
const NAMES: [&str; 5] = ["end of file", "A", "B", "\"c\"", "CA"];
impl fmt::Display for Tag {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(NAMES[self.0 as usize])
    }
}
const LABELS: [&str; 3] = ["", "in.x", "my file"];

/// What the states expect: chosen when it is first asked for.
static mut EXPECTED: [u8; 3] = [0; 3];
static mut NEXT: u32 = 0;
fn expected(s: u32) -> u8 {
    unsafe {
        if EXPECTED[s as usize] == 0 {
            let mut p = Pool(NEXT);
            EXPECTED[s as usize] = 1 + p.pick(15) as u8;
            NEXT = p.0;
        }
        EXPECTED[s as usize]
    }
}
fn set(s: u32) -> BTreeSet<Tag> {
    let m = expected(s);
    (0..4).filter(|i| m >> i & 1 == 1).map(Tag).collect()
}
fn listed(s: u32) -> String {
    let m = expected(s);
    let mut t = String::new();
    for i in 0..4 {
        if m >> i & 1 == 1 {
            if !t.is_empty() {
                t.push_str(", ");
            }
            t.push_str(NAMES[i]);
        }
    }
    t
}

pub struct Complaint {
    syntax: bool,
    /// what was found: the name of the token, and its text
    name: &'static str,
    text: String,
    place: String,
    state: u32,
}
fn place(label: &str, line: usize, column: usize) -> String {
    let mut s = String::new();
    if label.contains(' ') {
        s.push('"');
        s.push_str(label);
        s.push('"');
    } else {
        s.push_str(label);
    }
    if !label.is_empty() {
        s.push(':');
    }
    s.push((b'0' + line as u8) as char);
    s.push(':');
    s.push((b'0' + column as u8) as char);
    s
}
/// What is to be complained about: `B` and text that is no token at all,
/// unless it directly follows text that is no token at all.
fn complaints(text: &[u8], label: &str) -> Vec<Complaint> {
    let mut v = vec![];
    let mut state = 0;
    let (mut line, mut start) = (1, 0);
    let mut i = 0;
    while i < text.len() {
        let at = place(label, line, i - start + 1);
        let mut j = i + 1;
        match text[i] {
            b'\n' => {
                line += 1;
                start = j;
            }
            b' ' => {}
            b'a' => state = if state == 0 { 1 } else { 0 },
            b'b' => {
                while j < text.len() && (text[j] == b'b' || text[j] <= b' ') {
                    if text[j] == b'\n' {
                        line += 1;
                        start = j + 1;
                    }
                    j += 1;
                }
                if state != 2 {
                    v.push(Complaint { syntax: true, name: NAMES[2], text: string(&text[i..j]), place: at, state });
                }
                state = 0;
            }
            _ => {
                while j < text.len() && text[j] == b'!' {
                    j += 1;
                }
                // recovery passes over more such text
                if state != 2 {
                    v.push(Complaint { syntax: false, name: "", text: string(&text[i..j]), place: at, state });
                }
                state = 2;
            }
        }
        i = j;
    }
    v
}
fn string(b: &[u8]) -> String {
    // ASCII
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
/// Where `what` is in `text` from `from` on, in the same line: the place
/// behind it.
fn after(text: &[u8], from: usize, what: &str) -> Option<usize> {
    let w = what.as_bytes();
    let mut i = from;
    while i + w.len() <= text.len() {
        if &text[i..i + w.len()] == w {
            return Some(i + w.len());
        }
        if text[i] == b'\n' {
            return None;
        }
        i += 1;
    }
    None
}
fn judge(said: &[u8], want: &[Complaint]) {
    if !said.is_empty() {
        note(&string(said));
        check!(said[said.len() - 1] == b'\n', 104, "the last message is not ended");
    }
    let mut at = 0;
    for c in want {
        at = one(said, at, c);
        check!(at < said.len() && said[at] == b'\n', 104, "a message is not ended where what is expected has been listed");
        at += 1;
    }
    check!(at == said.len(), 100, "more messages than errors");
    cover(1);
    if want.len() > 1 {
        cover(2);
    }
}
/// The message at `at` names the kind of error, what was found, where, and
/// what was expected: where it ends.
fn one(l: &[u8], mut at: usize, c: &Complaint) -> usize {
    let list = listed(c.state);
    let kind = if c.syntax { "Syntax error" } else { "Lexical error" };
    check!(at < l.len(), 100, "no message for an error");
    for (what, code) in [(kind, 101), (c.name, 102), (&c.text, 102), (" ", 103), (&c.place, 103), ("expected ", 105)] {
        match after(l, at, what) {
            Some(n) => at = n,
            None => match code {
                101 => fail(101, "the message is of another kind of error"),
                102 => fail(102, "the message does not show what was found"),
                103 => fail(103, "the message does not show where it was found"),
                _ => fail(105, "the message does not show what was expected"),
            },
        }
        if code == 103 && what.len() > 1 {
            // and no more than that place
            check!(at < l.len() && !l[at].is_ascii_digit(), 103, "the message shows another place");
            let b = at - what.len();
            check!(l[b - 1] == b' ', 103, "the message shows another place");
        }
    }
    let e = at + list.len();
    check!(e <= l.len() && &l[at..e] == list.as_bytes(), 106, "the message shows other expected tokens than the state's");
    if e < l.len() && l[e] == b'.' { e + 1 } else { e }
}

macro_rules! reporter {
    ($m:ident $lib:ident $stack:tt) => {
        pub mod $m {
            use super::*;
            use ::lalr1::OrderedSet;
            use $lib::{Action, Error, Parser, ReportError};

            #[derive(Default, Clone)]
            pub struct A;
            impl From<lexan::Token<Tag>> for A {
                fn from(_: lexan::Token<Tag>) -> A {
                    A
                }
            }
            impl From<Error<Tag>> for A {
                fn from(_: Error<Tag>) -> A {
                    A
                }
            }
            pub struct P(lexan::LexicalAnalyzer<Tag>);
            impl ReportError<Tag> for P {}
            fn action(state: u32, t: &lexan::Token<Tag>) -> Action {
                match (state, t.tag().0) {
                    (_, 0) => Action::Accept,
                    (0 | 1, 2) => Action::SyntaxError,
                    (0, _) => Action::Shift(1),
                    _ => Action::Shift(0),
                }
            }
            impl Parser<Tag, u32, A> for P {
                fn lexical_analyzer(&self) -> &lexan::LexicalAnalyzer<Tag> {
                    &self.0
                }
                reporter!(@next $stack $lib);
                fn production_data(_: u32) -> (u32, usize) {
                    (0, 0)
                }
                fn goto_state(_: &u32, s: u32) -> u32 {
                    s
                }
                fn do_semantic_action<F: FnMut(String, String)>(&mut self, _: u32, _: Vec<A>, _: F) -> A {
                    A
                }
                fn viable_error_recovery_states(_: &Tag) -> OrderedSet<u32> {
                    [0, 1, 2].into_iter().collect()
                }
                fn error_goto_state(_: u32) -> u32 {
                    2
                }
                fn look_ahead_set(state: u32) -> OrderedSet<Tag> {
                    OrderedSet(set(state))
                }
            }
            fn analyzer() -> P {
                P(lexan::LexicalAnalyzer::new(&[(Tag(1), "a")], &[(Tag(2), r"b[b\n ]*")], &[r"[\n ]+"], Tag(0)))
            }
            pub fn messages(text: &str, label: &str) {
                let mut p = analyzer();
                watch_stderr();
                let r = p.parse_text(text, label);
                let said = stderr();
                let want = complaints(text.as_bytes(), label);
                judge(&said, &want);
                match (&r, want.last()) {
                    (Ok(()), None) => cover(3),
                    (Err(e), Some(c)) => {
                        // the error handed over shows itself the same way
                        let m = e.to_string();
                        note(&m);
                        check!(one(m.as_bytes(), 0, c) == m.len(), 106, "the error shows other expected tokens than the state's");
                        cover(4);
                    }
                    _ => fail(107, "result and messages disagree"),
                }
                observe(said.len() as u64);
            }
            /// Two tokens match the same text: every one of them is named, and
            /// parsing cannot go on.
            pub fn ambiguous(text: &str, label: &str, fatal: bool) {
                let lex = lexan::LexicalAnalyzer::new(&[], &[(Tag(1), "[ab]+"), (Tag(2), "[bc]+"), (Tag(3), "[ca]+")], &[], Tag(0));
                if let Err(e) = lex.token_stream(text, label).front() {
                    if let lexan::Error::AmbiguousMatches(..) = e {
                        let n = text.bytes().take_while(|b| *b == text.as_bytes()[0]).count();
                        let two = match text.as_bytes()[0] {
                            b'a' => [1, 3],
                            b'b' => [1, 2],
                            _ => [2, 3],
                        };
                        let m = Error::LexicalError(e, OrderedSet(set(0))).to_string();
                        note(&m);
                        let mut at = 0;
                        for what in ["Lexical error", NAMES[two[0]], NAMES[two[1]], &text[..n], &place(label, 1, 1), "expected ", &listed(0)] {
                            match after(m.as_bytes(), at, what) {
                                Some(k) => at = k,
                                None => fail(108, "the message about an ambiguity does not show everything"),
                            }
                        }
                        cover(5);
                        if fatal {
                            let mut p = P(lex);
                            cover(6);
                            expect_panic();
                            let _ = p.parse_text(text, label);
                            fail(109, "parsing went on after an ambiguity");
                        }
                    } else {
                        fail(108, "text of a token reported as unexpected");
                    }
                }
                observe(text.len() as u64);
            }
        }
    };
    (@next plain $lib:ident) => {
        fn next_action(&self, state: u32, t: &lexan::Token<Tag>) -> Action {
            action(state, t)
        }
    };
    (@next stack $lib:ident) => {
        fn next_action(&self, state: u32, _: &$lib::ParseStack<Tag, u32, A>, t: &lexan::Token<Tag>) -> Action {
            action(state, t)
        }
    };
}
reporter!(plain lalr1 plain);
reporter!(aug alalr1 stack);

fn input(max: usize, chars: &[u8]) -> (String, &'static str) {
    unsafe { EXPECTED = [0; 3] };
    let mut p = Pool(0);
    let label = LABELS[p.pick(3)];
    let text = p.text(1, max, chars);
    // a text with no tokens at all is outside (see DESIGN.md)
    assume(text.bytes().any(|b| b > b' '));
    unsafe { NEXT = p.0 };
    (text, label)
}
macro_rules! entries {
    ($($l:ident $a:ident $f:ident ($max:expr, $chars:expr $(, $x:expr)*);)*) => {$(
        #[unsafe(no_mangle)]
        pub extern "C" fn $l() {
            let (t, l) = input($max, $chars);
            plain::$f(&t, l $(, $x)*);
        }
        #[unsafe(no_mangle)]
        pub extern "C" fn $a() {
            let (t, l) = input($max, $chars);
            aug::$f(&t, l $(, $x)*);
        }
    )*};
}
entries! {
    c27_text_l c27_text_a messages(4, b"ab!\n ");
    c27_errs_l c27_errs_a messages(4, b"b!a");
    c27_ambig_l c27_ambig_a ambiguous(3, b"abc", false);
    c27_fatal_l c27_fatal_a ambiguous(2, b"abc", true);
    c27_text_l_t c27_text_a_t messages(5, b"ab!\n ");
    c27_errs_l_t c27_errs_a_t messages(6, b"b!a");
    c27_ambig_l_t c27_ambig_a_t ambiguous(5, b"abc", false);
}
