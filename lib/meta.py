#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mechanism, observe, note=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, observe=observe, note=note, na=na)


LX = ["lexan/src/lib.rs", "lexan/src/analyzer.rs", "lexan/src/lexicon.rs", "lexan/src/matcher.rs"]
DR = ["lalr1/src/lib.rs", "alalr1/src/lib.rs"]
GN = ["%s/src/%s.rs" % (l, f) for l in ("lalr1_lib", "alalr1_lib") for f in ("grammar", "lib", "parser", "production", "state", "symbol", "symbol/non_terminal", "symbol/terminal", "symbol/tag")]
LEXNOTE = "Solver verdict over every text within the stated lengths and alphabets, on a family of lexicons that covers literals, overlapping literals, patterns, skips, multi-line comments and UTF-8; the oracle is an independent matcher written for those lexicons. Nothing is claimed for longer texts."
DRVNOTE = "Tables, gotos, production lengths and texts are all chosen by the solver and the real driver is compared with an independent LR machine; holds up to the stated numbers of states, productions, tokens and driver steps."
GENNOTE = "Right hand sides and token strings are symbolic; the real generator is executed on each grammar of the shape and the code it writes is read back and run. Oracle: bitset languages of the grammar and an independent LALR(1) construction. Nothing is claimed for larger grammars or texts. Trusts the reader of the emitted code, rustc's translation to LLVM IR, and the executor (cross-checked against native runs)."

PROPS = [
    P("C01", "Token stream partitions the text",
      "For every text and every valid lexicon, the elements a token stream gives (tokens, ambiguous matches, unexpected text) are, in order, consecutive non-empty parts of the text: nothing is lost, repeated or reordered, and what lies between them is exactly text matched by skip patterns. After the last part there is exactly one end token, with an empty lexeme, and then nothing but \"advanced when empty\" errors. Reading the front is repeatable, and advancing, advancing then reading, and reading then advancing all move through the same sequence.",
      ["inputs", "histories"], "all texts with at least one element, all lexicons, all orders of front/advance calls",
      "The tests read three fixed texts with one lexicon; the claim is about every text, UTF-8 included, and every mix of calls.",
      LX, "TokenStream / BasicTokenStream advance over the text by the length of the longest match", ["TokenStream::front", "TokenStream::advance", "TokenStream::front_advance", "TokenStream::advance_front", "TokenStream::is_empty"], LEXNOTE),
    P("C02", "Longest match, literal priority, ambiguity",
      "At every position, after skippable text is removed, the token given is the longest match over all literals and patterns, an equally long literal winning over patterns. If several patterns share the longest match (longer than any literal match) an ambiguity naming exactly those tokens and that text is given, and if nothing matches the text is unexpected. Patterns match only at the current position, whatever alternations they contain, and an empty match is no match.",
      ["inputs", "configurations"], "all texts and all lexicons",
      "The tests check one lexicon on one text; which definition wins depends on the combination of definitions and text.",
      LX, "LiteralMatcher's trie for literals, anchored regexes for patterns, comparison of the two lengths", ["TokenStream::front_advance"], LEXNOTE),
    P("C03", "Locations are right",
      "Each token, error and end token carries the label of the text and the line and column (both from one; columns in bytes) at which it starts, for any mix of LF and CRLF line endings, inside tokens, skipped text and unexpected text alike. A location is shown as label:line:column, the label in quotes exactly when it contains white space, and without label and colon if it is empty.",
      ["inputs"], "all texts, all labels", "The tests look at a handful of positions in fixed texts.",
      LX, "Location counters incremented over everything that is consumed", ["Token::location", "Error locations", "Display of Location"], LEXNOTE),
    P("C04", "Unexpected text ends where lexing can resume",
      "Text at which nothing matches is reported as one error whose text reaches up to the next place at which a token or a skip pattern matches (or the end of the text), and lexing resumes exactly there. No text of any UTF-8 content makes the lexer panic or split a character.",
      ["inputs"], "all texts including multi-byte characters", "The tests contain one invalid ASCII text; byte/character boundaries and the interaction with skips are not reached.",
      LX, "distance_to_next_valid_byte", ["Error::UnexpectedText", "TokenStream::front_advance"], LEXNOTE),
    P("C05", "Injected text is spliced in",
      "Injecting a text into a token stream makes its tokens the next elements, with the injected label and their own locations; afterwards the interrupted text goes on exactly where it was. Injections nest, the one injected last being read first, and the stream gives its end token only when everything injected and the original text are exhausted.",
      ["inputs", "histories"], "all sequences of reading, advancing and injecting", "A single test injects three fixed texts at fixed points.",
      LX, "stack of BasicTokenStreams", ["TokenStream::inject"], LEXNOTE),
    P("C06", "Bad lexicons are refused",
      "Making a lexical analyser is refused (it panics) for a tag used twice or equal to the end marker, for the same text used for two of its literals, patterns and skips, for an empty literal, pattern or skip, and for a pattern that is no regular expression. It succeeds for every lexicon without such a fault, literals with characters special to regular expressions included.",
      ["configurations"], "all lexicons", "Tests try a few faulty lexicons; combinations and the absence of false refusals are not covered.",
      LX, "checks in Lexicon::new / LiteralMatcher::new", ["LexicalAnalyzer::new"], LEXNOTE),
    P("C07", "Drivers implement the LR machine",
      "For any parsing tables and any text, both parser drivers perform exactly the steps of the LR machine: shift the token's attribute, reduce by calling the semantic action with exactly the right hand side attributes in order and put its result under the goto state, stop with success on accept. Text injected by a semantic action is read where the reduction took place, before the token that caused it. A parse ends with success exactly if the machine accepts; refused tokens and lexical errors go to error handling with the expected set of the state in which they were found.",
      ["programs", "inputs"], "all tables, all texts, all injections", "Tests run one small calculator grammar on one text per driver.",
      DR, "Parser::parse_text and ParseStack", ["Parser::parse_text", "do_semantic_action", "next_action", "next_coda_state"], DRVNOTE),
    P("C08", "Error recovery finds the nearest viable state",
      "On a syntax error one attribute is made from the error; then, for the refused token and each following token (lexical errors are passed over) until one works, the nearest state on the stack (initial state included) that is viable for the token and was not already used for recovery since the last shift becomes the top with the goto for the error symbol pushed, and parsing goes on with that token. If the text ends without such a state the parse fails. Every error is reported, recovery terminates, and a parse with any error does not succeed silently.",
      ["programs", "inputs", "histories"], "all tables with recovery entries, all texts with any number of errors", "Tests contain one erroneous text for one grammar.",
      DR, "recover_from_error / find_viable_recovery / recovery state set", ["Parser::parse_text", "viable_error_recovery_states", "error_goto_state"], DRVNOTE),
    P("C09", "Generated parsers accept exactly the grammar's language",
      "For every conflict-free LALR(1) grammar, with or without empty productions, in which each non terminal derives some text, the generator accepts the specification and the parser it writes accepts exactly the non-empty token sequences derivable from the first non terminal. Every step of an accepting run is a production of the grammar with the right left hand side and length, so the reductions form a derivation, and every run ends.",
      ["programs", "inputs"], "all conflict-free grammars, all token strings", "No test generates a parser; the calculator example exercises one grammar.",
      GN, "closure, goto, lookahead merging of kernels, reduction table emission", ["Grammar::try_from", "Grammar::write_parser_code_to_file", "generated next_action / production_data / next_coda_state"], GENNOTE),
    P("C11", "Declared precedences decide grouping",
      "For grammars of operator expressions, the parser generated groups every expression as the declared precedence lines say: later lines bind tighter, operators on one line group to the left under %left and to the right under %right, and a rule takes the level of its first token (none if that has none) or, with %prec, the level named by token, literal or tag. Conflicts decided this way are not counted as conflicts.",
      ["programs", "inputs"], "all assignments of operators to precedence lines and associativities, all expressions", "One example grammar uses a fixed precedence table; nothing compares groupings.",
      GN, "associativity and precedence comparison in resolve_shift_reduce_conflicts, rule precedence from first terminal or %prec", ["generated parser's reductions"], GENNOTE),
    P("C12", "Conflicts are counted exactly and resolved by default rules",
      "A specification is accepted exactly if its numbers of unresolved shift/reduce and reduce/reduce conflicts (in the LALR(1) automaton, after declared precedences) equal the declared %shift_reduce and %reduce_reduce numbers (zero by default), and a refusal reports the true number. Unresolved shift/reduce conflicts are decided for the shift, reduce/reduce conflicts for the production written first.",
      ["programs", "inputs"], "all grammars with conflicts, all declared numbers, all texts", "No test has a conflicting grammar.",
      GN, "resolve_shift_reduce_conflicts, resolve_reduce_reduce_conflicts, report of expected counts", ["Grammar::try_from", "generated parser"], GENNOTE),
    P("C13", "Errors are found early and shown truthfully",
      "A generated parser for a conflict-free grammar reports an error at the first token that cannot continue any sentence of the grammar, having taken all tokens before it. The expected set it reports is exactly the set of tokens it would act on in that state, never contains the refused token, and contains every token that could follow when nothing was reduced on the refused token.",
      ["programs", "inputs"], "all conflict-free grammars, all erroneous texts", "No test looks at a syntax error of a generated parser.",
      GN, "emitted error action and look_ahead_set per state", ["Error::SyntaxError", "generated next_action / look_ahead_set"], GENNOTE),
    P("C15", "Generation depends on the specification alone",
      "Generating a parser from a specification gives the same code, the same description, the same messages and the same verdict however many specifications, accepted or refused, were processed before in the same process.",
      ["histories"], "all histories of earlier specifications", "Nothing in the tests generates more than once.",
      GN, "production and state numbering per specification", ["Grammar::try_from", "write_parser_code_to_file"], GENNOTE),
    P("C17", "Both generators agree on plain grammars",
      "A specification without predicates means the same to the plain and the augmented generator: both refuse it for the same reason and with the same counts, or both write parsers with the same productions and, state for state, the same shifts, reductions, gotos and expected tokens.",
      ["programs"], "all specifications without predicates", "The two libraries are separate copies of the same algorithms; no test compares them.",
      GN, "the two libraries' Grammar", ["Grammar::try_from", "generated parsers"], GENNOTE),
    P("C10", "Each production runs its own action",
      "The parser written for a specification runs, when a production is reduced, exactly the action given for that production (none for productions without one, whose value stays that of their first symbol or the default): $$ stands for the value of the left hand side, $n for the attribute of the n-th symbol of the right hand side (n of any number of digits), $INJECT for the injector, and everything else in the action is passed on unchanged, whatever it contains. $0 is refused.",
      ["programs"], "all specifications, all texts of actions", "The tests use the actions of one calculator.",
      GN, "expansion of actions, emission of do_semantic_action", ["do_semantic_action of the generated parser", "write_parser_code_to_file"], GENNOTE),
    P("C14", "Faulty specifications are refused, others accepted, nothing panics",
      "Whatever the text of a specification, making a grammar from it ends with success or an error, never a panic or endless loop. It is refused if a token, tag, literal or pattern is defined twice, a definition is empty or no regular expression, a symbol or literal used on a right hand side, in a precedence or in %prec is not defined, the same token or tag is given precedence on two lines, or an attribute reference is impossible; and a specification without a fault is not refused. The number of undefined symbols reported is right.",
      ["inputs"], "all texts of specifications", "The tests parse no faulty specification.",
      GN, "the specification parser's semantic checks; SymbolTable", ["Specification::new", "Grammar::try_from"], GENNOTE),
    P("C16", "Predicates decide between reductions",
      "In a parser made by the augmented generator, where several productions could be reduced on a token, those with predicates are tried in the order of their definition and the first whose predicate holds is reduced; if none holds the one production without a predicate is reduced, or it is an error if there is none. Reductions that predicates tell apart are not counted as reduce/reduce conflicts.",
      ["programs", "inputs"], "all grammars with predicates, all outcomes of the predicates, all texts", "The tests have no predicate.",
      ["alalr1_lib/src/grammar.rs", "alalr1_lib/src/production.rs", "alalr1_lib/src/state.rs", "alalr1_lib/src/lib.rs"], "resolution of reduce/reduce conflicts with predicates; emission of if/else chains", ["Grammar::try_from", "next_action of the generated parser"], GENNOTE),
    P("C18", "Build scripts get what the grammar says, or an error that says why",
      "ParserGenerator gives the same parser for a specification from a path and from a text, namely the one Grammar writes (but for the name of the source). A missing or unreadable or non-UTF-8 file is an I/O error of that kind, text that does not parse a specification error, and a fault of the grammar a grammar error with the right kind and counts. Writing a parser or a description replaces a file that was there entirely, can be repeated with the same result, and reports every failure to write.",
      ["inputs", "faults"], "all specifications, all states of the files", "No test uses ParserGenerator.",
      ["lalr1_lib/src/lib.rs", "alalr1_lib/src/lib.rs", "lalr1_lib/src/grammar.rs", "alalr1_lib/src/grammar.rs"], "ParserGenerator::new / try_from / write_parser_code_to_file; write_description", ["ParserGenerator", "Grammar::write_description", "files"], "The real library runs on a virtual file system with missing, unreadable, longer and unwritable files. Bounded to the stated specifications and file states."),
    P("C19", "Token texts reach the generated lexer unchanged",
      "The lexical analyser of a generated parser has exactly the literals, patterns and skip patterns of the specification, each with its token, and with the text it has in the specification, whatever quotes, backslashes, hashes, braces or non-ASCII characters are in it (a backslash before a quote in a literal only protects the quote).",
      ["programs"], "all texts of literals and patterns", "Tests use plain token texts only.",
      GN, "emission of the LexicalAnalyzer::new call", ["generated parser's lexical analyser", "write_parser_code_to_file"], GENNOTE),
    P("C20", "A generated parser does what its specification says",
      "The module written for a specification (with names that Rust and the module itself leave free) compiles, and its parser, run on a text, executes exactly the actions of the productions of the text's derivation, in that order, with the attributes of the symbols they name; precedences, injected texts, predicates and error recovery included. It reports exactly the errors there are and returns Ok exactly if there are none.",
      ["inputs"], "all texts", "The tests do not run a generated parser.",
      GN + ["lexan/src/analyzer.rs", "lexan/src/lexicon.rs", "lalr1/src/lib.rs", "alalr1/src/lib.rs"], "everything from the specification to parse_text", ["parse_text of generated parsers", "effects of actions"], "Six specifications that use every feature, generated afresh and compiled with rustc on every run; the parsers are then executed symbolically on all texts up to the stated length and compared with handwritten parsers."),
    P("C21", "The command line programs do what their options say",
      "lalr1_gen and alalr1_gen write the parser to the given output, or to the specification's path with its extension replaced by rs, and the description next to it with extension states, and end with 0. They write nothing and end with 1 if the output exists and --force is not given, 2 if the specification cannot be read or parsed, 4 for errors in the grammar or conflicts not expected and not ignored (each kind by its own option); with 6 if the parser and 7 if the description cannot be written. No other file changes.",
      ["configurations", "inputs", "faults"], "all options, specifications and states of the files", "No test runs the programs.",
      ["lalr1_gen/src/main.rs", "alalr1_gen/src/main.rs"], "main", ["exit code", "files"], "The real main runs on a virtual file system, option parsing (structopt, clap) included. Bounded to the stated specifications and file states."),
    P("C22", "Error rules make exactly their states recoverable",
      "In the parser written for a grammar with %error, a state is offered for recovery on a token exactly if the error symbol can be shifted there and a production that ends with it could then be reduced on that token; the goto for the error leads to the state in which it has been shifted; and states, actions, gotos and expected tokens are those of the LALR(1) automaton in which %error is a non terminal that derives nothing.",
      ["programs"], "all grammars with %error", "The one test grammar has a single error rule, and no test makes an error.",
      GN, "viable_error_recovery_states / error_goto_state", ["generated viable_error_recovery_states, error_goto_state, next_action"], GENNOTE),
    P("C23", "%inject means the text in place",
      "A specification of which parts are in files named by %inject (at the places where that is allowed, nested too) means the same as the one with these parts in place: the same parser or the same refusal. A missing or empty injected file is reported as an error.",
      ["inputs", "configurations"], "all specifications and ways to split them", "No test uses %inject.",
      GN, "Injection productions of the specification parser", ["Specification::new"], GENNOTE),
    P("C24", "The generators are what their own specifications say",
      "The specification language is defined by lalr1_lib/src/parser.laps and alalr1_lib/src/parser.alaps. A library whose parser.rs has just been written from that file by the current generator (which is what its build script does) treats every specification, right or wrong, exactly as the library with the parser.rs in the repository: the same verdict, the same messages, the same parser written.",
      ["programs", "inputs"], "all texts of specifications, right and wrong", "The tests use two small specifications without faults; none of them regenerates the generators.",
      GN + ["lalr1_lib/src/parser.laps", "alalr1_lib/src/parser.alaps"], "parser.rs against parser.laps / parser.alaps; the whole chain from the specification to the code that is written", ["Specification::new", "Grammar::try_from", "stderr", "write_parser_code_to_file"], "Both builds of the library run side by side, symbolically, on specifications in which one token (thorough: two) or one character (two) is anything at all. Bounded to these specifications."),
    P("C25", "Complaints say what is wrong and where",
      "Everything that is wrong with a specification is reported on the standard error output as an error that names it and its place, and nothing else is: the second of two definitions, tags and skips (with the place of the first), undeclared literals and tags, undefined symbols (each use), malformed or empty definitions, symbols on two precedence lines, attribute references that cannot be, files that cannot be injected. Unused tokens, tags and non terminals and reserved names are warned of at their definition. If the text is no specification, the first token that does not fit is reported. Places are label:line:column of the token at fault, also in injected files. The number of errors is the number given with the refusal; warnings refuse nothing.",
      ["inputs", "configurations"], "all specifications, right and wrong", "No test looks at what is reported about a faulty specification.",
      GN + ["lexan/src/analyzer.rs", "lalr1_lib/src/parser.laps", "alalr1_lib/src/parser.alaps"], "report_error, report_warning and the places handed to them", ["stderr", "Specification::new", "Grammar::try_from"], "Bounded to one or two faults out of the stated kinds, with any layout at up to three places."),
    P("C26", "The description of a parser describes that parser",
      "The .states file lists every token, tag and non terminal with its precedence and associativity, or the tokens it starts with and whether it may be empty; every production in the order of the specification; and every state of the LALR(1) automaton with its items and their look ahead sets, and with exactly the shifts, reductions, gotos and recovery state of the parser that is written. Each conflict that is counted is listed once, on lines of its own, in the state where it is, and no other is. What is said when a specification is refused because of its conflicts is what the description says of the states that have them.",
      ["programs", "inputs"], "all grammars", "No test reads a description.",
      ["lalr1_lib/src/state.rs", "alalr1_lib/src/state.rs", "lalr1_lib/src/grammar.rs", "alalr1_lib/src/grammar.rs", "lalr1_lib/src/symbol.rs", "alalr1_lib/src/symbol.rs", "lalr1_lib/src/production.rs", "alalr1_lib/src/production.rs"], "description, write_description, describe_sr_conflict_states, describe_rr_conflict_states", ["write_description", "UnexpectedSRConflicts", "UnexpectedRRConflicts"], "The description is read back and compared with the code that is written, state by state, and with a reference LALR(1) construction. Bounded to the stated grammar shapes; descriptions of predicates are not judged."),
    P("C27", "Error messages say what was found, where, and what was expected",
      "A parser that reports errors the default way writes for every error one message, on a line of its own: whether the error is lexical or one of syntax, the name and the text of the token (or the text that is none), its place as source:line:column, and the names of exactly the tokens expected in the state the error was found in, in order. The error handed over by parse_text and to attributes shows itself the same way. A text that is two tokens at once is shown with all of them, and ends the parsing.",
      ["inputs", "histories"], "all texts with any number of errors, all sets of expected tokens", "No test looks at a message.",
      ["lalr1/src/lib.rs", "alalr1/src/lib.rs", "lexan/src/analyzer.rs"], "Error, ReportError::report_error, OrderedSet / Token / Location / List Display", ["ReportError::report_error", "Error Display"], "Bounded to the stated texts; the parser has three states, whose expected tokens are any set of four. The wording is judged by its parts: kind, name, text, place, expected names in this order."),
]


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"], mechanism=[dict(name=p["mechanism"])], observe_at=p["observe"], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="python3 lib/setup.py", hooks=dict(guard="none", enable="no hooks: the checks use the public interfaces of the crates only", source_commits=[]),
             checks=[dict(property=p["id"], quick_cmd="python3 lib/check.py %s" % p["id"], thorough_cmd="python3 lib/check.py %s thorough" % p["id"],
                          technique="symbolic execution of the LLVM IR rustc makes from /repo, decided by z3", level="model_checking", level_note=p["note"]) for p in sorted(PROPS, key=lambda p: p['id']) if not p["na"]],
             not_applicable=[dict(property=p["id"], reason=p["na"]) for p in PROPS if p["na"]],
             notes="See DESIGN.md. Checks build the engine and the harness crates under /verif/build.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()
