LEXHEAD = r'''
use lexan::{LexicalAnalyzer, TokenStream, Error, Token};
fn show(r: Result<Token<u32>, Error<u32>>) -> String {
    match r {
        Ok(t) => format!("{}:{}@{}", t.tag(), t.lexeme(), t.location()),
        Err(Error::UnexpectedText(s, l)) => format!("?{s}@{l}"),
        Err(Error::AmbiguousMatches(t, s, l)) => format!("*{t}{s}@{l}"),
        Err(Error::AdvancedWhenEmpty(_)) => "empty".to_string(),
    }
}
fn all(mut ts: TokenStream<u32>) -> Vec<String> {
    let mut v = vec![];
    loop {
        let s = show(ts.front_advance());
        let stop = s == "empty" || v.len() > 60;
        v.push(s);
        if stop { return v; }
    }
}
'''
GENHEAD = r'''
use std::path::Path;
#[allow(unused)]
fn plain(spec: &str, name: &str) -> Result<(), String> {
    use lalr1_lib::grammar::*;
    let s = Specification::new(spec, "spec").map_err(|e| format!("{e}"))?;
    let g = Grammar::try_from((s, false, false)).map_err(|e| format!("{e}"))?;
    g.write_parser_code_to_file(Path::new(name)).map_err(|e| format!("{e}"))
}
#[allow(unused)]
fn aug(spec: &str, name: &str) -> Result<(), String> {
    use alalr1_lib::grammar::*;
    let s = Specification::new(spec, "spec").map_err(|e| format!("{e}"))?;
    let g = Grammar::try_from((s, false, false)).map_err(|e| format!("{e}"))?;
    g.write_parser_code_to_file(Path::new(name)).map_err(|e| format!("{e}"))
}
'''
# preamble of generated parsers: attributes are strings, actions build them
PRE = r'''%{
#[derive(Clone, Default, Debug)]
pub struct X(pub String);
impl From<lexan::Token<AATerminal>> for X { fn from(t: lexan::Token<AATerminal>) -> X { X(t.lexeme().to_string()) } }
impl From<LIB::Error<AATerminal>> for X { fn from(_: LIB::Error<AATerminal>) -> X { X("!".to_string()) } }
#[derive(Default)]
pub struct Y { pub out: String, pub expected: Vec<String> }
impl LIB::ReportError<AATerminal> for Y {
    fn report_error(&mut self, e: &LIB::Error<AATerminal>) {
        let s = match e { LIB::Error::LexicalError(_, s) => s, LIB::Error::SyntaxError(_, s) => s };
        self.expected.push(s.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>().join(" "));
    }
}
%}
%attr X
%target Y
'''
MAINHEAD = r'''
include!("generated.rs");
use LIB::Parser;
#[allow(unused)]
fn parse(text: &str) -> (bool, Y) {
    let mut y = Y::default();
    let r = y.parse_text(text, "");
    (r.is_ok(), y)
}
'''
SEEDS = [
 dict(id="s01", property="C03", needs="a token, skip or unexpected text with multi-byte characters followed by something on the same line",
  breaks="columns after multi-byte text are counted in characters while the rest of the lexer counts bytes",
  edits=[("lexan/src/analyzer.rs", "self.location.offset += length - i;", "self.location.offset += slice[i..].chars().count();")],
  main=LEXHEAD + r'''
fn main() {
    let l = LexicalAnalyzer::<u32>::new(&[(1, "a")], &[], &[r" +"], 0);
    assert_eq!(all(l.token_stream("aéa", "x")), ["1:a@x:1:1", "?é@x:1:2", "1:a@x:1:4", "0:@x:1:5", "empty"]);
}'''),
 dict(id="s02", property="C02", needs="a literal and two patterns that all match the same text",
  breaks="an equally long literal no longer wins over two patterns: an ambiguity is reported",
  edits=[("lexan/src/analyzer.rs", "if lrems.0.len() > 1 && lrems.1 > llm.1 {", "if lrems.0.len() > 1 && lrems.1 >= llm.1 {")],
  main=LEXHEAD + r'''
fn main() {
    let l = LexicalAnalyzer::<u32>::new(&[(1, "ab")], &[(2, "[a-z]+"), (3, "[ab]+")], &[r" +"], 0);
    assert_eq!(all(l.token_stream("ab", "x")), ["1:ab@x:1:1", "0:@x:1:3", "empty"]);
    assert_eq!(all(l.token_stream("aba", "x")), ["*[2, 3]aba@x:1:1", "0:@x:1:4", "empty"]);
    assert_eq!(all(l.token_stream("abc ab", "x")), ["2:abc@x:1:1", "1:ab@x:1:5", "0:@x:1:7", "empty"]);
}'''),

 dict(id="s03", property="C05", needs="two texts injected one after the other at the same place, before anything of the first is consumed",
  breaks="texts injected at the same place are read in the order of injection instead of the last one first",
  edits=[("lexan/src/analyzer.rs", """            self.front = token_stream.front().unwrap();
            self.token_stream_stack.push(token_stream);""", """            let n = self.token_stream_stack.len();
            if n > 1 && self.unread {
                // keep the order of texts injected at the same place
                self.token_stream_stack.insert(n - 1, token_stream);
                return;
            }
            self.unread = true;
            self.front = token_stream.front().unwrap();
            self.token_stream_stack.push(token_stream);"""),
   ("lexan/src/analyzer.rs", """    token_stream_stack: Vec<BasicTokenStream<T>>,
""", """    token_stream_stack: Vec<BasicTokenStream<T>>,
    unread: bool,
"""),
   ("lexan/src/analyzer.rs", """            token_stream_stack: vec![],
""", """            token_stream_stack: vec![],
            unread: false,
"""),
   ("lexan/src/analyzer.rs", """        let mut i = self.token_stream_stack.len();
""", """        let mut i = self.token_stream_stack.len();
        self.unread = false;
""")],
  main=LEXHEAD + r"""
fn main() {
    let l = LexicalAnalyzer::<u32>::new(&[(1, "a"), (2, "b"), (3, "c")], &[], &[r" +"], 0);
    let mut ts = l.token_stream("a a", "x");
    ts.advance();
    ts.inject("b b", "y");
    ts.inject("c", "z");
    assert_eq!(all(ts), ["3:c@z:1:1", "2:b@y:1:1", "2:b@y:1:3", "1:a@x:1:3", "0:@x:1:4", "empty"]);
}"""),
 dict(id="s04", property="C04", needs="unexpected text followed by text that starts like a literal but is none",
  breaks="unexpected text ends at the first byte of any literal, even where no literal matches: one error becomes several",
  edits=[("lexan/src/matcher.rs", """        let mut lexemes = &self.lexemes;
        for key in string.as_bytes().iter() {
            match lexemes.get(key) {
                None => break,
                Some(node) => {
                    if node.tag.is_some() {
                        return true;
                    }
                    lexemes = &node.tails;
                }
            }
        }
        false""", """        // the first byte decides which literals are candidates
        match string.as_bytes().first().and_then(|key| self.lexemes.get(key)) {
            None => false,
            Some(node) => node.tag.is_some() || node.tails.keys().any(|k| string.as_bytes().get(1) == Some(k)),
        }""")],
  main=LEXHEAD + r"""
fn main() {
    let l = LexicalAnalyzer::<u32>::new(&[(1, "abc"), (2, "d")], &[], &[r" +"], 0);
    assert_eq!(all(l.token_stream("!ab!abcd", "x")), ["?!ab!@x:1:1", "1:abc@x:1:5", "2:d@x:1:8", "0:@x:1:9", "empty"]);
}"""),
 dict(id="s05", property="C01", needs="skippable text in which a match of an earlier skip pattern follows a match of a later one",
  breaks="skip patterns are tried once each in order of declaration, so some skippable text is not skipped",
  edits=[("lexan/src/matcher.rs", """                    index += m.end();
                    continue 'outer;
                }
            }
            break;""", """                    index += m.end();
                    if index < text.len() {
                        continue;
                    }
                    continue 'outer;
                }
            }
            break;""")],
  main=LEXHEAD + r"""
fn main() {
    let l = LexicalAnalyzer::<u32>::new(&[(1, "a")], &[], &[r" +", r"#[^\n]*\n"], 0);
    assert_eq!(all(l.token_stream("a #x\n a", "x")), ["1:a@x:1:1", "1:a@x:2:2", "0:@x:2:3", "empty"]);
    assert_eq!(all(l.token_stream("#\n#\na", "x")), ["1:a@x:3:1", "0:@x:3:2", "empty"]);
}"""),
 dict(id="s06", property="C06", needs="a skip pattern with the text of a literal or another skip pattern",
  breaks="a skip pattern that repeats another skip pattern is accepted",
  edits=[("lexan/src/lexicon.rs", """                Ok(_) => return Err(LexanError::DuplicatePattern(regex)),
                Err(index) => patterns.insert(index, regex),""", """                Ok(_) => return Err(LexanError::DuplicatePattern(regex)),
                Err(_) => patterns.push(regex),""")],
  main=r"""
fn refused(skips: &'static [&'static str]) -> bool {
    std::panic::catch_unwind(|| { lexan::LexicalAnalyzer::<u32>::new(&[(1, "m"), (2, "x")], &[], skips, 0); }).is_err()
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    assert!(refused(&["b", "b"]) && refused(&["z", "z"]) && refused(&["m"]) && refused(&["z", "b", "a", "z"]));
    assert!(refused(&["b", "n", "a", "b"]) && refused(&["y", "a", "c", "d", "a"]));
    assert!(refused(&["b", "c", "a", "d", "c", "x"]) && refused(&["z", "y", "x"]) && refused(&["e", "a", "x"]));
    assert!(!refused(&["z", "b", "a"]));
}"""),
 dict(id="s07", property="C07", needs="a semantic action that injects text when the input is exhausted",
  breaks="text injected by a reduction made on the end of the input is lost",
  edits=[("lalr1/src/lib.rs", ".do_semantic_action(production_id, rhs, |s, l| tokens.inject(&s, &l));", """.do_semantic_action(production_id, rhs, |s, l| {
                                if !tokens.is_empty() {
                                    tokens.inject(&s, &l)
                                }
                            });""")],
  gen=GENHEAD + 'const SPEC: &str = r####"' + PRE.replace("LIB", "lalr1") + r"""%%
%token a "a"
%token b "b"
%token c "c"
%%
S: A !{ self.out = "A".to_string(); !} | A b !{ self.out = "Ab".to_string(); !} | A b c !{ self.out = "Abc".to_string(); !} .
A: a !{ $INJECT("b".to_string(), "in".to_string()); !} .
"####;
fn main() { plain(SPEC, "generated.rs").unwrap(); }""",
  main=MAINHEAD.replace("LIB", "lalr1") + r"""
fn main() {
    let (ok, y) = parse("a");
    assert!(ok && y.out == "Ab");
    assert!(!parse("ab").0);
}"""),
 dict(id="s08", property="C08", needs="two syntax errors without a token shifted in between",
  breaks="errors that follow a recovery before anything was shifted are not reported",
  edits=[("alalr1/src/lib.rs", """                            let error = Error::SyntaxError(token.clone(), expected_tokens);
                            self.report_error(&error);
                            result = Err(error.clone());""", """                            let error = Error::SyntaxError(token.clone(), expected_tokens);
                            // don't report the same token again
                            let repeated = match &result {
                                Err(Error::SyntaxError(old, _)) => *old == token,
                                _ => false,
                            };
                            if !repeated {
                                self.report_error(&error);
                            }
                            result = Err(error.clone());""")],
  gen=GENHEAD + 'const SPEC: &str = r####"' + PRE.replace("LIB", "alalr1") + r"""%%
%token a "a"
%token b "b"
%token c "c"
%token d "d"
%%
S: a E b | c E d .
E: a | %error .
"####;
fn main() { aug(SPEC, "generated.rs").unwrap(); }""",
  main=MAINHEAD.replace("LIB", "alalr1") + r"""
fn main() {
    assert!(parse("ab").1.expected.is_empty());
    assert_eq!(parse("acb").1.expected, ["a b"]);
    for t in ["ad", "adb", "add"] { assert_eq!(parse(t).1.expected, ["a b", "b"]); }
    for t in ["cb", "cbb", "cbd"] { assert_eq!(parse(t).1.expected, ["a d", "d"]); }
}"""),
 dict(id="s09", property="C09", needs="a grammar in which look ahead must be propagated through several items in the order in which they come",
  breaks="closure stops although a set other than the last one still grew, so look ahead is lost and sentences are refused",
  edits=[("lalr1_lib/src/grammar.rs", "additions_made = additions_made || set.len() > len;", "additions_made = set.len() > len;")],
  gen=GENHEAD + 'const SPEC: &str = r####"' + PRE.replace("LIB", "lalr1") + r"""%%
%token a "a"
%token b "b"
%token c "c"
%token d "d"
%%
S: A d | F .
A: B .
B: C .
C: E .
E: b .
F: F c | c .
"####;
fn main() { plain(SPEC, "generated.rs").unwrap(); }""",
  main=MAINHEAD.replace("LIB", "lalr1") + r"""
fn main() {
    for t in ["bd", "c", "cc"] { assert!(parse(t).0, "{t}"); }
    for t in ["b", "d", "cd", "bc"] { assert!(!parse(t).0, "{t}"); }
}"""),
 dict(id="s10", property="C12", needs="a specification that declares more conflicts than it has",
  breaks="fewer shift/reduce conflicts than declared are accepted",
  edits=[("lalr1_lib/src/grammar.rs", "if !ignore_sr_conflicts && sr_conflicts != grammar.specification.expected_sr_conflicts {", "if !ignore_sr_conflicts && sr_conflicts > grammar.specification.expected_sr_conflicts {")],
  gen=GENHEAD + r"""
fn spec(n: usize) -> String {
    format!("%{{\n%}}\n%attr X\n%target Y\n%shift_reduce {n}\n%%\n%token a \"a\"\n%token b \"b\"\n%%\nS: S a S | b .\n")
}
fn main() {
    for n in 0..4 { assert_eq!(plain(&spec(n), "generated.rs").is_ok(), n == 1, "{n}"); assert_eq!(aug(&spec(n), "generated.rs").is_ok(), n == 1, "{n}"); }
}"""),

 dict(id="s11", property="C11", needs="a rule whose first token has no level but a later one has",
  breaks="a rule takes the level of its first token that has one, instead of the level of its first token",
  edits=[("lalr1_lib/src/production.rs", """        if let Symbol::Terminal(token) = symbol {
            return Some(token.associativity_and_precedence());""", """        if let Symbol::Terminal(token) = symbol
            && token.precedence_has_been_set()
        {
            return Some(token.associativity_and_precedence());""")],
  gen=GENHEAD + 'const SPEC: &str = r####"' + PRE.replace("LIB", "lalr1") + r"""%%
%token a "a"
%token b "b"
%token c "c"
%token d "d"
%left a b
%%
T: E !{ self.out = $1.0.clone(); !} .
E: E a E !{ $$.0 = format!("({}a{})", $1.0, $3.0); !} | d E b E !{ $$.0 = format!("(d{}b{})", $2.0, $4.0); !} | c .
"####;
fn main() { plain(SPEC, "generated.rs").unwrap(); }""",
  main=MAINHEAD.replace("LIB", "lalr1") + r"""
fn main() {
    let (ok, y) = parse("dcbcac");
    assert!(ok);
    assert_eq!(y.out, "(dcb(cac))");
    assert_eq!(parse("cacac").1.out, "((cac)ac)");
}"""),
 dict(id="s12", property="C13", needs="a state with a complete and an incomplete item",
  breaks="the expected set also shows the look ahead of items that cannot be reduced yet",
  edits=[("lalr1_lib/src/production.rs", """        for (_, look_ahead_set) in self.0.iter().filter(|x| x.0.is_reducible()) {
            set |= look_ahead_set;""", """        for (_, look_ahead_set) in self.0.iter().filter(|x| x.0.dot > 0 || x.0.is_reducible()) {
            set |= look_ahead_set;""")],
  gen=GENHEAD + 'const SPEC: &str = r####"' + PRE.replace("LIB", "lalr1") + r"""%%
%token a "a"
%token b "b"
%token c "c"
%%
S: A c .
A: a b | b .
"####;
fn main() { plain(SPEC, "generated.rs").unwrap(); }""",
  main=MAINHEAD.replace("LIB", "lalr1") + r"""
fn main() {
    assert!(parse("abc").0);
    assert_eq!(parse("aac").1.expected, ["b"]);
    assert_eq!(parse("c").1.expected, ["a b"]);
    assert_eq!(parse("bcc").1.expected, ["AAEnd"]);
}"""),
 dict(id="s13", property="C15", needs="a specification refused for its conflicts before another one in the same process",
  breaks="states are numbered by a process wide counter that is only reset after a success",
  edits=[("lalr1_lib/src/grammar.rs", "        let ident = self.parser_states.len() as u32;", """        static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        if self.parser_states.is_empty() && self.specification.expected_sr_conflicts == 0 {
            NEXT.store(0, std::sync::atomic::Ordering::Relaxed);
        }
        let ident = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);""")],
  gen=GENHEAD + r"""
fn spec(n: usize, m: &str) -> String {
    format!("%{{\n%}}\n%attr X\n%target Y\n%shift_reduce {n}\n%%\n%token a \"a\"\n%token b \"b\"\n%%\nS: S a S | {m} .\n")
}
fn main() {
    plain(&spec(1, "b"), "one.rs").unwrap();
    assert!(plain(&spec(2, "b"), "two.rs").is_err());
    plain(&spec(1, "b"), "three.rs").unwrap();
    assert!(std::fs::read("one.rs").unwrap() == std::fs::read("three.rs").unwrap());
}"""),
 dict(id="s14", property="C17", needs="a conflict between a token with a level and a rule without one",
  breaks="the augmented generator counts such a conflict as unresolved, the plain one does not",
  edits=[("alalr1_lib/src/state.rs", "} else if shift_symbol.precedence() > reducible_item.precedence() {", "} else if shift_symbol.precedence() > reducible_item.precedence()\n                && reducible_item.precedence() > 0\n            {")],
  gen=GENHEAD + r"""
fn main() {
    let s = "%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%token b \"b\"\n%left a\n%%\nS: b S | S a S | a .\n";
    assert!(plain(s, "one.rs").is_ok());
    assert!(aug(s, "two.rs").is_ok());
}"""),
 dict(id="s15", property="C09", needs="a state reached again with exactly one new look ahead token after it was processed",
  breaks="the new token is not propagated to the states behind it, so sentences are refused",
  edits=[("lalr1_lib/src/state.rs", "        if additions > 0 && self.is_processed() {", "        if additions > 1 && self.is_processed() {")],
  gen=GENHEAD + 'const SPEC: &str = r####"' + PRE.replace("LIB", "lalr1") + r"""%%
%token a "a"
%token b "b"
%token c "c"
%%
S: a a | b S a .
"####;
fn main() { plain(SPEC, "generated.rs").unwrap(); }""",
  main=MAINHEAD.replace("LIB", "lalr1") + r"""
fn main() {
    for t in ["aa", "baaa", "bbaaaa"] { assert!(parse(t).0, "{t}"); }
    for t in ["a", "aaa", "baa", "bb"] { assert!(!parse(t).0, "{t}"); }
}"""),
 dict(id="s16", property="C12", needs="a state with more than one reduce/reduce conflict",
  breaks="reduce/reduce conflicts are counted once per state",
  edits=[("alalr1_lib/src/state.rs", "        reduce_reduce_conflicts.len()", "        reduce_reduce_conflicts.len().min(1)")],
  gen=GENHEAD + r"""
fn spec(n: usize) -> String {
    format!("%{{\n%}}\n%attr X\n%target Y\n%reduce_reduce {n}\n%%\n%token a \"a\"\n%token b \"b\"\n%%\nS: A | B | C .\nA: a .\nB: a .\nC: a .\n")
}
fn main() {
    for n in 0..4 { assert_eq!(plain(&spec(n), "p.rs").is_ok(), n == 2); assert_eq!(aug(&spec(n), "a.rs").is_ok(), n == 2); }
}"""),
]
