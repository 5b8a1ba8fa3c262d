//! What is said about a faulty specification, and about which place of it.
use super::*;

/// Parts of a specification: `@n` marks a place, `~` is any white space, `^`
/// any of the comments and line ends below.
struct Fault {
    head: &'static str,
    tokens: &'static str,
    levels: &'static str,
    tail: &'static str,
    rules: &'static str,
    /// error or warning or what else is printed, the place, what it mentions,
    /// another place it mentions
    said: &'static [(char, char, &'static str, char)],
}
const NO: Fault = Fault { head: "", tokens: "", levels: "", tail: "", rules: "", said: &[] };
/// Faults in definitions and precedences.
const FIRST: &[Fault] = &[
    NO,
    Fault { tokens: "%token~@4b \"c\"\n", said: &[('E', '4', "\"b\" already defined", '1')], ..NO },
    Fault { tokens: "^%token @4c \"a\"\n", said: &[('E', '4', "\"a\"", '0'), ('W', '4', "\"c\" is not used", ' ')], ..NO },
    Fault { tokens: "%token c~@4(x[)\n", tail: "| c", said: &[('E', '4', "(x[)", ' ')], ..NO },
    Fault { tokens: "%token^@4AAc \"c\"\n", tail: "| AAc", said: &[('W', '4', "\"AAc\"", ' ')], ..NO },
    Fault { tokens: "^%token~@4c \"c\"\n", said: &[('W', '4', "\"c\" is not used", ' ')], ..NO },
    Fault { tokens: "%token @4c~\"\"\n", said: &[('E', '4', "\"c\" has no text", ' ')], ..NO },
    Fault { tokens: "%skip (t)\n~%skip~@4(t)\n", said: &[('E', '4', "(t)", ' ')], ..NO },
    Fault { tokens: "%skip^@4(t[)\n", said: &[('E', '4', "(t[)", ' ')], ..NO },
    Fault { levels: "%left a~@4\"q\"~b\n", said: &[('E', '4', "\"q\"", ' ')], ..NO },
    Fault { levels: "%left a\n%right b~@4a~\n", said: &[('E', '4', "\"a\"", ' ')], ..NO },
    Fault { levels: "%left a\n%right b~@4\"a\"^\n", said: &[('E', '4', "\"a\"", ' ')], ..NO },
    Fault { levels: "%left~@5N\n^%right @4N\n", tail: "| a %prec N", said: &[('E', '4', "\"N\" already defined", '5')], ..NO },
    Fault { levels: "%left~@4AAt\n", tail: "| a %prec AAt", said: &[('W', '4', "\"AAt\"", ' ')], ..NO },
    Fault { levels: "%left a^@4N b\n", said: &[('W', '4', "\"N\" is not used", ' ')], ..NO },
    Fault { head: "%reduce_reduce^@499999999999\n", said: &[('E', '4', "number", ' ')], ..NO },
    Fault { tokens: "%inject~@4\"none\".\n", said: &[('E', '4', "Injecting", ' ')], ..NO },
    Fault { levels: "%inject^@4\"nil\".\n", said: &[('E', '4', "nil", ' ')], ..NO },
];
/// Faults in rules.
const SECOND: &[Fault] = &[
    NO,
    Fault { tail: "| a~@6\"q\" b", said: &[('E', '6', "\"q\"", ' ')], ..NO },
    Fault { tail: "| a %prec^@6M", said: &[('E', '6', "M", ' ')], ..NO },
    Fault { tail: "| a~%prec @6\"q\"", said: &[('E', '6', "\"q\"", ' ')], ..NO },
    Fault { tail: "| @6Q b^| a a~@7Q", said: &[('E', '6', "\"Q\" is not defined", ' '), ('E', '7', "\"Q\" is not defined", ' ')], ..NO },
    Fault { tail: "| a !{ $0 !}", said: &[('E', '2', "$0", ' ')], ..NO },
    Fault { rules: "~@6Q: a .\n", said: &[('W', '6', "\"Q\" is not used", ' ')], ..NO },
    Fault { rules: "^@6b: a .\n", said: &[('E', '6', "\"b\"", '1')], ..NO },
    Fault { rules: "Q~: a^@6: .\n", said: &[('S', '6', "Syntax error: \":\"", ' ')], ..NO },
    Fault { rules: "^Q @6! : a .\n", said: &[('S', '6', "Unexpected text !", ' ')], ..NO },
    Fault { rules: "Q: a a~@6%token c \"c\"\n", said: &[('S', '6', "Syntax error: \"%token\"", ' ')], ..NO },
    Fault { rules: "Q: a~b^@6", said: &[('S', '6', "Syntax error: AAEnd", ' ')], ..NO },
];

const LAYOUT: [&str; 6] = [" ", "\n", "\r\n", " /* é\n * / */ ", "// é %%\n\n", "\t"];

struct Text {
    text: String,
    line: usize,
    column: usize,
    places: Vec<(char, usize, usize)>,
    layout: usize,
}
impl Text {
    fn push(&mut self, b: u8) {
        put(&mut self.text, b);
        if b == b'\n' {
            self.line += 1;
            self.column = 1;
        } else {
            self.column += 1;
        }
    }
    fn add(&mut self, t: &str, pool: &mut Pool) {
        let mut it = t.bytes();
        while let Some(b) = it.next() {
            match b {
                b'@' => self.places.push((it.next().unwrap() as char, self.line, self.column)),
                b'~' => {
                    let b = pool.byte_of(b" \t\n");
                    self.push(b)
                }
                b'^' => {
                    for b in LAYOUT[self.layout].bytes() {
                        self.push(b)
                    }
                }
                b => self.push(b),
            }
        }
    }
    fn place(&self, id: char, label: &str) -> String {
        let (_, l, c) = self.places.iter().find(|p| p.0 == id).unwrap();
        [label, ":", &l.to_string(), ":", &c.to_string()].concat()
    }
}
type Said = fn(&str) -> (Option<Refused>, Vec<u8>);

fn diagnosed(said: Said, second: bool) {
    std::fs::write("nil", "").expect("writes");
    check!(said("%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%%\nS: a .\n") == (None, vec![]), 1, "a trivial specification is refused or complained about");
    let mut pool = Pool(0);
    let (a, b) = (pool.pick(FIRST.len()), pool.pick(SECOND.len()));
    // each alone, or any of one kind with any of the other
    assume((second && a > 0 && b > 0) || (!second && (a == 0 || b == 0)));
    // which definition counts is open if there are two
    assume(!(a == 1 && b == 7));
    let (a, b) = (&FIRST[a], &SECOND[b]);
    let mut t = Text { text: String::new(), line: 1, column: 1, places: vec![], layout: if second { 3 } else { pool.pick(LAYOUT.len()) } };
    // the rules may come from another file
    let inside = pool.pick(2) == 1;
    t.add("%{\n%}\n%attr X\n%target Y\n", &mut pool);
    t.add(a.head, &mut pool);
    t.add("%%\n%token @0a \"a\"\n%token @1b \"b\"\n", &mut pool);
    t.add(a.tokens, &mut pool);
    // no skip may follow a precedence
    t.add(a.levels, &mut pool);
    t.add("%%\n", &mut pool);
    let outer = if inside {
        t.add("%inject \"inc\".\n", &mut pool);
        t.line = 1;
        Some(std::mem::take(&mut t.text))
    } else {
        None
    };
    t.add("@2S: a T b ", &mut pool);
    t.add(a.tail, &mut pool);
    t.add(b.tail, &mut pool);
    t.add(" .\nT: b a .\n", &mut pool);
    t.add(b.rules, &mut pool);
    let text = match outer {
        None => std::mem::take(&mut t.text),
        Some(o) => {
            std::fs::write("inc", &t.text).expect("writes");
            // all that the other file holds is read
            o
        }
    };
    let label = |id: char| if inside && id != '0' && id != '1' && id != '4' && id != '5' { "inc" } else { "spec" };
    let (verdict, out) = said(&text);
    let out = String::from_utf8_lossy(&out).to_string();
    let want: Vec<_> = a.said.iter().chain(b.said.iter()).collect();
    let errors = want.iter().filter(|w| w.0 == 'E').count();
    // the end of a file is the end of the text around it
    let stray = inside && b.rules.ends_with('6');
    let complain = |ok: bool, code: u32, what: &str| {
        if !ok {
            note(&text);
            note(&out);
            fail(code, what);
        }
    };
    if !stray {
        let mut heard = 0;
        for l in out.split('\n') {
            if l.contains(": Error: ") || l.contains(": Warning: ") {
                heard += 1;
            }
        }
        let syntax = want.iter().find(|w| w.0 == 'S');
        // what is not used or defined is looked for when all has been read
        let late = |w: &&&(char, char, &str, char)| syntax.is_some() && (w.2.contains("is not"));
        complain(heard == want.iter().filter(|w| w.0 != 'S').count() - want.iter().filter(late).count(), 131, "more or fewer complaints than there are faults");
        for w in want.iter() {
            if late(&w) {
                continue;
            }
            let place = t.place(w.1, label(w.1));
            let start = match w.0 {
                'E' => [&place[..], ": Error: "].concat(),
                'W' => [&place[..], ": Warning: "].concat(),
                _ => String::new(),
            };
            let ok = out.split('\n').any(|l| {
                l.starts_with(&start) && l.contains(w.2) && (w.3 == ' ' || l.contains(&["at ", &t.place(w.3, label(w.3))].concat())) && (w.0 != 'S' || mentions(l, &place))
            });
            complain(ok, 132, "a fault is not reported, or with another place");
        }
        if syntax.is_some() {
            cover(1);
            complain(verdict == Some(Refused::Parse), 133, "what is no specification is accepted");
        } else if want.iter().any(|w| w.2.contains("not defined")) {
            cover(2);
            complain(verdict == Some(Refused::Undefined(1)), 133, "an undefined symbol is accepted");
        } else if errors > 0 {
            cover(3);
            complain(verdict == Some(Refused::Errors(errors as u32)), 133, "errors are not counted");
        } else {
            cover(4);
            complain(verdict.is_none(), 133, "a specification is refused without a reason");
        }
    } else {
        complain(verdict == Some(Refused::Parse), 133, "what is no specification is accepted");
    }
}
/// Whether a line mentions a place, and not one that merely starts like it.
fn mentions(l: &str, place: &str) -> bool {
    match l.find(place) {
        Some(i) => !l[i + place.len()..].starts_with(|c: char| c.is_ascii_digit()),
        None => false,
    }
}
macro_rules! entries {
    ($($n:ident: $m:ident $second:expr;)*) => { $(
        #[unsafe(no_mangle)]
        pub extern "C" fn $n() {
            diagnosed($m::said, $second)
        }
    )* };
}
entries! {
    c25_single_l: plain false;
    c25_single_a: aug false;
    c25_double_l: plain true;
    c25_double_a: aug true;
}
