exec(open("/verif/lib/seedkit/set1.py").read().split("SEEDS = [")[0])
SPEC = lambda rules, toks='%token a "a"\n%token b "b"\n': "%{\n%}\n%attr X\n%target Y\n%%\n" + toks + "%%\n" + rules
SEEDS = [
 dict(id="s17", property="C15", needs="a grammar with %error and recovery on more than one token, generated more than once",
  breaks="the states for recovery are written in the order of a hash map: the same specification gives different code",
  edits=[("lalr1_lib/src/grammar.rs", "let mut recovery_states = Vec::<(&str, OrderedSet<u32>)>::new();", "let mut recovery_states = std::collections::HashMap::<&str, OrderedSet<u32>>::new();"),
         ("lalr1_lib/src/grammar.rs", "recovery_states.push((token.name(), set));", "recovery_states.insert(token.name(), set);")],
  gen=GENHEAD + r'''
fn main() {
    let s = "%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%token b \"b\"\n%token c \"c\"\n%token d \"d\"\n%%\nS: T U .\nT: a | %error .\nU: b | c | d .\n";
    plain(s, "first.rs").unwrap();
    for _ in 0..20 {
        plain(s, "again.rs").unwrap();
        assert!(std::fs::read("first.rs").unwrap() == std::fs::read("again.rs").unwrap());
    }
}'''),
 dict(id="s18", property="C10", needs="a production without action that has several symbols, the value of which is used",
  breaks="its value is that of its last symbol instead of its first one",
  edits=[("alalr1_lib/src/grammar.rs", "let mut aa_lhs = if let Some(a) = aa_rhs.first() {", "let mut aa_lhs = if let Some(a) = aa_rhs.last() {")],
  gen=GENHEAD + 'const SPEC: &str = r####"' + PRE.replace("LIB", "alalr1") + r'''%%
%token a "a"
%token b "b"
%token c "c"
%%
Top: S !{ self.out = $1.0.clone(); !} .
S: a b | b .
"####;
fn main() { aug(SPEC, "generated.rs").unwrap(); }''',
  main=MAINHEAD.replace("LIB", "alalr1") + r'''
fn main() {
    assert_eq!(parse("b").1.out, "b");
    assert_eq!(parse("ab").1.out, "a");
}'''),
 dict(id="s19", property="C14", needs="a symbol that is not defined and used more than once",
  breaks="the number of undefined symbols that is reported is the number of their uses",
  edits=[("alalr1_lib/src/grammar.rs", """                    &format!("Non terminal \\"{}\\" is not defined", non_terminal.name()),
                );
            }
            undefined_symbols += 1;
        }""", """                    &format!("Non terminal \\"{}\\" is not defined", non_terminal.name()),
                );
                undefined_symbols += 1;
            }
        }""")],
  gen=GENHEAD + r'''
fn main() {
    let s = "%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%%\nS: a T | T T a | U .\n";
    assert_eq!(aug(s, "x.rs"), Err("2 undefined symbols".to_string()));
    assert_eq!(plain(s, "x.rs"), Err("2 undefined symbols".to_string()));
}'''),
 dict(id="s20", property="C16", needs="a state with a reduction with a predicate and two without that conflict",
  breaks="such conflicts are no longer counted nor resolved",
  edits=[("alalr1_lib/src/state.rs", """        let reducible_key_set = self.0.grammar_items.borrow().reducible_key_set();
        if reducible_key_set.len() < 2 {""", """        let reducible_key_set = self.0.grammar_items.borrow().reducible_key_set();
        // predicates decide
        if reducible_key_set.len() < 2 || reducible_key_set.iter().any(|k| !k.has_no_predicate()) {""")],
  gen=GENHEAD + r'''
fn main() {
    let s = "%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%token b \"b\"\n%%\nS: A | B | C .\nA: a ?(p()?) .\nB: a .\nC: a .\n";
    assert!(aug(s, "x.rs").is_err());
}'''),
 dict(id="s21", property="C18", needs="a description written over an older, longer one",
  breaks="the end of the older description remains",
  edits=[("alalr1_lib/src/grammar.rs", """        let mut file = std::fs::File::create(file_path)?;
        file.write_all(self.specification.symbol_table.description().as_bytes())?;""", """        let mut file = std::fs::OpenOptions::new().write(true).create(true).open(file_path)?;
        file.write_all(self.specification.symbol_table.description().as_bytes())?;""")],
  gen=GENHEAD + r'''
fn main() {
    use alalr1_lib::grammar::*;
    let s = "%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%%\nS: a .\n";
    let g = Grammar::try_from((Specification::new(s, "s").unwrap(), false, false)).map_err(|_| ()).unwrap();
    g.write_description(Path::new("one")).unwrap();
    std::fs::write("two", "x".repeat(100000)).unwrap();
    g.write_description(Path::new("two")).unwrap();
    assert!(std::fs::read("one").unwrap() == std::fs::read("two").unwrap());
}'''),
 dict(id="s22", property="C19", needs="a literal with two backslashes in a row",
  breaks="the lexical analyser expects only one of them",
  edits=[("lalr1_lib/src/symbol/terminal.rs", "        Token::Literal(Rc::new(TokenData::new(name, text, defined_at)))", "        let text = text.replace(\"\\\\\\\\\", \"\\\\\");\n        Token::Literal(Rc::new(TokenData::new(name, &text, defined_at)))")],
  gen=GENHEAD + 'const SPEC: &str = r####"' + PRE.replace("LIB", "lalr1") + r'''%%
%token a "x\\y"
%%
S: a .
"####;
fn main() { plain(SPEC, "generated.rs").unwrap(); }''',
  main=MAINHEAD.replace("LIB", "lalr1") + r'''
fn main() {
    assert!(parse("x\\\\y").0);
    assert!(!parse("x\\y").0);
}'''),
 dict(id="s23", property="C20", needs="a string literal over several lines in the preamble, with spaces at the end of one of them",
  breaks="the spaces at the ends of the preamble's lines are lost, those inside of string literals too",
  edits=[("lalr1_lib/src/grammar.rs", "        self.preamble = preamble.to_string();", "        self.preamble = preamble\n            .split('\\n')\n            .map(|line| line.trim_end())\n            .collect::<Vec<&str>>()\n            .join(\"\\n\");")],
  gen=GENHEAD + 'const SPEC: &str = r####"' + PRE.replace("LIB", "lalr1").replace("\n%}", "\nconst TEXT: &str = \"one  \n two\";\npub fn text() -> &'static str { TEXT }\n%}") + r"""%%
%token a "a"
%%
S: a .
"####;
fn main() { plain(SPEC, "generated.rs").unwrap(); }""",
  main=MAINHEAD.replace("LIB", "lalr1") + r"""
fn main() {
    assert!(parse("a").0);
    assert_eq!(text(), "one  \n two");
}"""),
 dict(id="s24", property="C21", needs="an output in another directory or with another name than the specification",
  breaks="the description is written next to the specification",
  edits=[("alalr1_gen/src/main.rs", 'let description_file = with_changed_extension(&output_path, "states");', 'let description_file = with_changed_extension(&cl_options.specification, "states");')],
  sh=r'''
(cd "$repo" && CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet -p alalr1_gen 2>"$d/log") || { cat "$d/log"; exit 1; }
mkdir "$d/in" "$d/out"
printf '%%{\n%%}\n%%attr X\n%%target Y\n%%%%\n%%token a "a"\n%%%%\nS: a .\n' > "$d/in/s.spec"
"$d/target/debug/alalr1_gen" -o "$d/out/p.rs" "$d/in/s.spec" || exit 1
[ -f "$d/out/p.rs" ] && [ -f "$d/out/p.states" ] && [ ! -e "$d/in/s.states" ]
'''),
 dict(id="s25", property="C22", needs="a state in which two productions that end with %error can be reduced, on different tokens",
  breaks="recovery is only offered on the tokens of the first of them",
  edits=[("lalr1_lib/src/production.rs", """            .filter(|x| x.0.has_reducible_error_recovery_tail())
            .map(|x| x.1)
        {""", """            .find(|x| x.0.has_reducible_error_recovery_tail())
            .map(|x| x.1)
        {""")],
  gen=GENHEAD + 'const SPEC: &str = r####"' + PRE.replace("LIB", "lalr1") + r'''%%
%token a "a"
%token b "b"
%token c "c"
%%
S: A a !{ self.out = "A".to_string(); !} | B b !{ self.out = "B".to_string(); !} | c .
A: %error .
B: %error .
"####;
fn main() { plain(SPEC, "generated.rs").unwrap(); }''',
  main=MAINHEAD.replace("LIB", "lalr1") + r'''
fn main() {
    assert!(Y::viable_error_recovery_states(&AATerminal::a).contains(&0));
    assert!(Y::viable_error_recovery_states(&AATerminal::b).contains(&0));
}'''),
 dict(id="s26", property="C23", needs="the same file injected at two places",
  breaks="it is only read the first time",
  edits=[(f, "                    } else {\n                        %s(text, file_path.to_string());" % i, "                    } else if self.injected.insert(file_path.to_string()) {\n                        %s(text, file_path.to_string());" % i) for f, i in (("lalr1_lib/src/parser.rs", "aa_inject"),)]
  + [("lalr1_lib/src/grammar.rs", "    pub expected_sr_conflicts: u32,", "    pub expected_sr_conflicts: u32,\n    pub injected: std::collections::BTreeSet<String>,")],
  gen=GENHEAD + r'''
fn main() {
    std::fs::write("rule.txt", "S: a .").unwrap();
    let head = "%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%%\n";
    let whole = plain(&format!("{head}S: a . S: a ."), "x.rs");
    let parts = plain(&format!("{head}%inject \"rule.txt\". S: a ."), "y.rs");
    let twice = plain(&format!("{head}%inject \"rule.txt\". T: b . %inject \"rule.txt\"."), "z.rs");
    let twice2 = plain(&format!("{head}S: a . T: b . S: a ."), "z.rs");
    assert_eq!(whole.is_err(), parts.is_err());
    assert_eq!(twice.is_err(), twice2.is_err());
    let one = plain(&format!("{head}%inject \"rule.txt\". T: S . %inject \"rule.txt\"."), "z.rs");
    let two = plain(&format!("{head}S: a . T: S . S: a ."), "z.rs");
    assert_eq!(one.is_err(), two.is_err());
}'''),
 dict(id="s27", property="C24", needs="%prec with a literal that is no token",
  breaks="the parser of lalr1_lib is no longer the one its specification says: it accepts this",
  edits=[("lalr1_lib/src/parser.rs", """                self.error(location, &format!("{lexeme}: unknown tag"));
""", """                log::debug!("{location}: unknown tag");
""".replace("log::debug!(", "let _ = format!("))],
  gen=GENHEAD + r"""
fn main() {
    for (s, ok) in [("b", true), ("c", false)] {
        let s = format!("%{{\n%}}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%token b \"b\"\n%%\nS: a b %prec \"{s}\" .\n");
        assert_eq!(plain(&s, "x.rs").is_ok(), ok);
    }
}"""),
]
