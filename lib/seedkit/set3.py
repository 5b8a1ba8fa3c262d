exec(open("/verif/lib/seedkit/set1.py").read().split("SEEDS = [")[0])
SELF = GENHEAD + r'''
// what is printed about a specification, by a process of its own
#[allow(unused)]
fn said(lib: &str, spec: &str) -> Vec<String> {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args([lib, spec]).output().unwrap();
    String::from_utf8(o.stderr).unwrap().lines().map(|l| l.to_string()).collect()
}
fn child() -> bool {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { return false; }
    let _ = if a[1] == "l" { plain(&a[2], "x.rs") } else { aug(&a[2], "x.rs") };
    true
}
#[allow(unused)]
fn description(spec: &str) -> String {
    use lalr1_lib::grammar::*;
    let g = Grammar::try_from((Specification::new(spec, "spec").unwrap(), true, true)).unwrap();
    g.write_description(Path::new("x.states")).unwrap();
    std::fs::read_to_string("x.states").unwrap()
}
'''
SEEDS = [
 dict(id="s28", property="C25", needs="an undefined symbol that is used at several places",
  breaks="only one of its uses is reported",
  edits=[("alalr1_lib/src/grammar.rs", "for location in non_terminal.used_at() {", "if let Some(location) = non_terminal.used_at().last() {"),
         ("alalr1_lib/src/grammar.rs", "                report_error(\n                    &location,", "                report_error(\n                    location,")],
  gen=SELF + r'''
fn main() {
    if child() { return; }
    let s = said("a", "%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%%\nS: a T .\nU: T a U T .\n");
    for at in ["spec:8:6", "spec:9:4", "spec:9:10"] {
        assert!(s.iter().any(|l| l.starts_with(at) && l.contains("\"T\"")), "{at} {s:?}");
    }
}'''),
 dict(id="s29", property="C25", needs="a precedence argument that is on a line already, after others on the same line",
  breaks="the complaint is about the first argument of the line",
  edits=[],
  gen=""),
 dict(id="s30", property="C26", needs="a grammar with %error",
  breaks="the description gives the look ahead set of the state itself instead of that of its recovery state",
  edits=[("lalr1_lib/src/state.rs", 'string += &format!("    Look Ahead: {}\\n", state.look_ahead_set());', 'string += &format!("    Look Ahead: {}\\n", self.look_ahead_set());')],
  gen=SELF + r'''
fn main() {
    let d = description("%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%token b \"b\"\n%%\nS: a b | %error b .\n");
    assert!(d.contains("    Look Ahead: TokenSet{\"b\"}\n"), "{d}");
}'''),
 dict(id="s31", property="C26", needs="conflicts of one kind only, refused",
  breaks="the report on reduce/reduce conflicts shows the states with shift/reduce conflicts",
  edits=[("alalr1_lib/src/grammar.rs", "            if parser_state.reduce_reduce_conflict_count() > 0 {", "            if parser_state.shift_reduce_conflict_count() > 0 {")],
  gen=SELF + r'''
fn main() {
    let e = aug("%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%%\nS: A | B .\nA: a .\nB: a .\n", "x.rs").unwrap_err();
    assert!(e.contains("Reduce/Reduce Conflicts:"), "{e}");
}'''),
 dict(id="s32", property="C26", needs="a non terminal that may be empty and starts with the same tokens as another one",
  breaks="what is said about the tokens it starts with omits those of a nullable rest",
  edits=[],
  gen=""),
]

MSG = r"""
use std::collections::BTreeSet;
use lalr1::OrderedSet;
use LIB::{Action, Error, Parser, ReportError};
#[derive(Default, Clone)]
struct A;
impl From<lexan::Token<u8>> for A { fn from(_: lexan::Token<u8>) -> A { A } }
impl From<Error<u8>> for A { fn from(_: Error<u8>) -> A { A } }
struct P(lexan::LexicalAnalyzer<u8>);
impl ReportError<u8> for P {}
impl Parser<u8, u32, A> for P {
    fn lexical_analyzer(&self) -> &lexan::LexicalAnalyzer<u8> { &self.0 }
    fn next_action(&self, s: u32, STACKt: &lexan::Token<u8>) -> Action {
        match (s, *t.tag()) {
            (_, 0) => Action::Accept,
            (0, 2) => Action::SyntaxError,
            (0, _) => Action::Shift(1),
            _ => Action::Shift(0),
        }
    }
    fn production_data(_: u32) -> (u32, usize) { (0, 0) }
    fn goto_state(_: &u32, s: u32) -> u32 { s }
    fn do_semantic_action<F: FnMut(String, String)>(&mut self, _: u32, _: Vec<A>, _: F) -> A { A }
    fn viable_error_recovery_states(_: &u8) -> OrderedSet<u32> { [0, 1].into_iter().collect() }
    fn error_goto_state(_: u32) -> u32 { 2 }
    fn look_ahead_set(s: u32) -> OrderedSet<u8> { OrderedSet(BTreeSet::from([s as u8])) }
}
/// What a process of its own says on the text given.
fn said(text: &str) -> String {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg(text).output().unwrap();
    String::from_utf8(o.stderr).unwrap()
}
fn main() {
    if let Some(text) = std::env::args().nth(1) {
        let mut p = P(lexan::LexicalAnalyzer::new(&[(1, "a")], &[(2, r"b[b\n]*")], &[r" +"], 0));
        let _ = p.parse_text(&text, "in");
        return;
    }
"""
def msg(lib, body):
    return MSG.replace("LIB", lib).replace("STACK", "_: &alalr1::ParseStack<u8, u32, A>, " if lib == "alalr1" else "") + body + "\n}"
SEEDS += [
 dict(id="s32", property="C27", needs="an error at a token of several lines",
  breaks="the message shows only the first line of the token",
  edits=[("lexan/src/analyzer.rs", 'let string = format!("{}({}) at {}", self.tag, self.lexeme, self.location);', 'let text = self.lexeme.lines().next().unwrap_or("");\n        let string = format!("{}({}) at {}", self.tag, text, self.location);')],
  main=msg("lalr1", r"""
    let s = said("bb\nb");
    assert!(s.contains("2(bb\nb) at in:1:1"), "{s}");
    let s = said("b");
    assert!(s.contains("2(b) at in:1:1"), "{s}");""")),
 dict(id="s33", property="C27", needs="a lexical error that the parser recovers from in another state",
  breaks="the tokens shown as expected are those of the state after the recovery",
  edits=[("alalr1/src/lib.rs", """                    let error = Error::LexicalError(err, expected_tokens);
                    self.report_error(&error);
                    result = Err(error.clone());
                    if !Self::recover_from_error(error, &mut parse_stack, &mut tokens) {
                        return result;
                    }
""", """                    let mut error = Error::LexicalError(err.clone(), expected_tokens);
                    let recovered =
                        Self::recover_from_error(error.clone(), &mut parse_stack, &mut tokens);
                    if recovered && !matches!(err, lexan::Error::AmbiguousMatches(_, _, _)) {
                        // that is where parsing goes on
                        let expected_tokens = Self::look_ahead_set(parse_stack.current_state());
                        error = Error::LexicalError(err, expected_tokens);
                    }
                    self.report_error(&error);
                    result = Err(error);
                    if !recovered {
                        return result;
                    }
""")],
  main=msg("alalr1", r"""
    let s = said("a!a");
    assert!(s.contains("in:1:2 expected 1."), "{s}");""")),
 dict(id="s34", property="C26", needs="a token that can be shifted or lead to one of several reductions in the same state",
  breaks="only the first of its conflicts is described",
  edits=[("alalr1_lib/src/state.rs", """                string += &format!("    {shift_token}:\\n");
""", """                let line = format!("    {shift_token}:\\n");
                if string.contains(&line) {
                    continue;
                }
                string += &line;
""")],
  gen=GENHEAD + r"""
fn main() {
    use alalr1_lib::grammar::*;
    let s = "%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%token b \"b\"\n%%\nS: A b | B b | a b .\nA: a .\nB: a .\n";
    let g = Grammar::try_from((Specification::new(s, "spec").unwrap(), true, true)).unwrap();
    g.write_description(Path::new("x.states")).unwrap();
    let d = std::fs::read_to_string("x.states").unwrap();
    assert_eq!(d.matches("      reduce A: \"a\"").count() + d.matches("      reduce B: \"a\"").count(), 2, "{d}");
}"""),
]
SEEDS = [s for s in SEEDS if s["edits"]]
