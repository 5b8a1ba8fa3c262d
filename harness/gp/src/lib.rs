//! Harness entries for whole parsers: the generators (run natively when the
//! check starts) write the modules included below, rustc compiles them, and
//! they are executed here on symbolic texts, actions and all.
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;

/// What a run has done: one line per thing, and what the parser returned.
#[derive(Debug, PartialEq)]
pub struct Did {
    pub ok: bool,
    pub log: Vec<String>,
}

/// Attributes and target of the specifications in specs/.
macro_rules! att {
    ($lib:ident) => {
        #[derive(Debug, Clone, Default)]
        pub struct Att {
            pub text: String,
            pub place: String,
        }
        #[allow(dead_code)]
        impl Att {
            fn of(parts: &[&str]) -> Self {
                Self { text: parts.concat(), place: String::new() }
            }
        }
        impl From<lexan::Token<AATerminal>> for Att {
            fn from(t: lexan::Token<AATerminal>) -> Self {
                Self { text: t.lexeme().to_string(), place: t.location().to_string() }
            }
        }
        impl From<$lib::Error<AATerminal>> for Att {
            fn from(e: $lib::Error<AATerminal>) -> Self {
                Self { text: problem(&e), place: String::new() }
            }
        }
        fn problem(e: &$lib::Error<AATerminal>) -> String {
            match e {
                $lib::Error::SyntaxError(t, _) => ["syntax ", t.lexeme()].concat(),
                $lib::Error::LexicalError(lexan::Error::UnexpectedText(t, _), _) => ["text ", t].concat(),
                $lib::Error::LexicalError(..) => "other".to_string(),
            }
        }
        #[derive(Default)]
        pub struct Run {
            log: Vec<String>,
        }
        impl Run {
            fn say(&mut self, parts: &[&str]) {
                self.log.push(parts.concat());
            }
        }
        impl $lib::ReportError<AATerminal> for Run {
            fn report_error(&mut self, e: &$lib::Error<AATerminal>) {
                self.log.push(["! ", &problem(e)].concat());
            }
        }
        pub fn run(text: &str) -> super::Did {
            let mut r = Run::default();
            let ok = $lib::Parser::parse_text(&mut r, text, "text").is_ok();
            super::Did { ok, log: r.log }
        }
    };
}
macro_rules! parsers {
    ($($m:ident: $f:literal;)*) => { $(
        #[allow(unused, non_camel_case_types, clippy::all)]
        mod $m {
            include!(concat!(env!("HGP_GENERATED"), "/", $f));
        }
    )* };
}
parsers! {
    calc_l: "calc_l.rs";
    calc_a: "calc_a.rs";
    many_l: "many_l.rs";
    many_a: "many_a.rs";
    inject_l: "inject_l.rs";
    inject_a: "inject_a.rs";
    recover_l: "recover_l.rs";
    recover_a: "recover_a.rs";
    texts_l: "texts_l.rs";
    texts_a: "texts_a.rs";
    preds_a: "preds_a.rs";
}

type Run = fn(&str) -> Did;

fn same(got: Did, want: Did) {
    for l in &got.log {
        observe(l.len() as u64);
    }
    check!(got.ok == want.ok, 110, "the parser returns something else");
    check!(got.log.len() == want.log.len(), 111, "actions or errors are missing or added");
    for (g, w) in got.log.iter().zip(want.log.iter()) {
        check!(g == w, 112, "an action or error is another one, or has other attributes");
    }
}
fn cat(parts: &[&str]) -> String {
    parts.concat()
}

// -------------------------------------------------------------------- calc
/// Precedence climbing over the text.
struct Calc<'a> {
    text: &'a [u8],
    at: usize,
    error: Option<String>,
}
impl Calc<'_> {
    fn peek(&mut self) -> u8 {
        while self.at < self.text.len() && self.text[self.at] == b' ' {
            self.at += 1;
        }
        self.text.get(self.at).copied().unwrap_or(0)
    }
    fn number(&self) -> usize {
        self.text[self.at..].iter().take_while(|b| b.is_ascii_digit()).count()
    }
    fn word(&self, n: usize) -> String {
        unsafe { String::from_utf8_unchecked(self.text[self.at..self.at + n].to_vec()) }
    }
    fn refuse<T>(&mut self) -> Option<T> {
        let b = self.peek();
        let n = if b == 0 {
            0
        } else if b == b'!' {
            self.text[self.at..].iter().take_while(|b| **b == b'!').count()
        } else {
            self.number().max(1)
        };
        let w = self.word(n);
        self.error = Some(cat(&[if b == b'!' { "! text " } else { "! syntax " }, &w]));
        None
    }
    /// An operand with its prefixes, then operators of at least this level.
    fn expr(&mut self, level: u32) -> Option<String> {
        let b = self.peek();
        let mut left = if b.is_ascii_digit() {
            let n = self.number();
            let w = self.word(n);
            self.at += n;
            w
        } else if b == b'-' {
            self.at += 1;
            let e = self.expr(4)?;
            cat(&["(-", &e, ")"])
        } else if b == b'(' {
            self.at += 1;
            let e = self.expr(0)?;
            if self.peek() != b')' {
                return self.refuse();
            }
            self.at += 1;
            e
        } else {
            return self.refuse();
        };
        loop {
            let (l, op, right) = match self.peek() {
                b'+' => (1, "+", 2),
                b'-' => (1, "-", 2),
                b'*' => (2, "*", 3),
                b'^' => (3, "^", 3),
                _ => return Some(left),
            };
            if l < level {
                return Some(left);
            }
            self.at += 1;
            let e = self.expr(right)?;
            left = cat(&["(", &left, op, &e, ")"]);
        }
    }
}
fn calc(run: Run, n: usize, alphabet: &[u8]) {
    let mut pool = Pool(0);
    let text = pool.text(1, n, alphabet);
    let mut c = Calc { text: text.as_bytes(), at: 0, error: None };
    // a text without tokens is not a text the lexer promises anything about
    assume(c.peek() != 0);
    c.at = 0;
    let r = c.expr(0);
    let want = match r {
        Some(e) if c.peek() == 0 => {
            cover(1);
            Did { ok: true, log: vec![cat(&["=", &e])] }
        }
        r => {
            cover(2);
            if r.is_some() {
                c.refuse::<()>();
            }
            Did { ok: false, log: vec![c.error.unwrap()] }
        }
    };
    same(run(&text), want);
}

// -------------------------------------------------------------------- many
fn many(run: Run) {
    let mut pool = Pool(0);
    if pool.pick(2) == 0 {
        let mut t = b"abcdefghijkl".to_vec();
        let at = pool.pick(12);
        let b = pool.byte();
        assume(b >= b'a' && b <= b'z');
        t[at] = b;
        let text = unsafe { String::from_utf8_unchecked(t) };
        cover(1);
        let w = cat(&[&text[11..], &text[10..11], &text[..1], "$x", &text[9..10], &text[1..2], &text[..1]]);
        return same(run(&text), Did { ok: true, log: vec![w] });
    }
    let (mid, end) = (pool.pick(2) == 1, pool.pick(2) == 1);
    let mut text = "1".to_string();
    let (mut m, mut e) = (String::new(), "end".to_string());
    let mut letter = |from: u8| {
        let b = pool.byte();
        assume(b >= from && b <= from + 25);
        unsafe { String::from_utf8_unchecked(vec![b]) }
    };
    if mid {
        m = letter(b'A');
        text.push_str(&m);
        text.push('2');
    }
    if end {
        e = letter(b'a');
        text.push_str(&e);
        e.push('!');
    }
    cover(2);
    same(run(&text), Did { ok: true, log: vec![cat(&["|", &m, "|", &e, "|"]), cat(&["1", "v", "1"])] });
}

// ------------------------------------------------------------------ inject
fn items(text: &[u8], label: &str, log: &mut Vec<String>) -> bool {
    let mut i = 0;
    while i < text.len() {
        // places count from one
        let mut place = cat(&[label, ":1:", &(i + 1).to_string()]);
        let b = text[i];
        i += 1;
        if b == b'd' {
            if text.get(i) != Some(&b'e') {
                return refused(text, i, log);
            }
            place = cat(&[label, ":1:", &(i + 1).to_string()]);
            i += 1;
        } else if b == b'e' {
            return refused(text, i - 1, log);
        }
        // reduced when what follows can follow an item
        if text.get(i) == Some(&b'e') {
            return refused(text, i, log);
        }
        match b {
            b'a' => log.push(cat(&["a@", &place])),
            b'b' => {
                log.push(cat(&["b@", &place]));
                items(b"aa", "one", log);
            }
            b'c' => {
                log.push(cat(&["c@", &place]));
                items(b"a", "three", log);
                items(b"ab", "two", log);
            }
            _ => log.push(cat(&["de@", &place])),
        }
    }
    true
}
fn refused(text: &[u8], i: usize, log: &mut Vec<String>) -> bool {
    log.push(cat(&["! syntax ", if i < text.len() { std::str::from_utf8(&text[i..i + 1]).unwrap() } else { "" }]));
    false
}
fn inject(run: Run, n: usize) {
    let mut pool = Pool(0);
    let text = pool.text(1, n, b"abcde");
    let mut log = vec![];
    let ok = items(text.as_bytes(), "text", &mut log);
    cover(if ok { 1 } else { 2 });
    same(run(&text), Did { ok, log });
}

// ----------------------------------------------------------------- recover
/// The parser of recover.spec, by hand.
enum On {
    Id(u8),
    Open,
    Num(u8),
    Expr(String),
    Error(String),
    /// the ) or ; that ends something, until it is known what follows
    Ends,
}
struct Stmts<'a> {
    text: &'a [u8],
    at: usize,
    log: Vec<String>,
    ok: bool,
    on: Vec<On>,
    /// whether Doc lies below: an error before anything else is for nobody
    doc: bool,
}
impl Stmts<'_> {
    fn peek(&self) -> u8 {
        self.text.get(self.at).copied().unwrap_or(0)
    }
    /// What to do with the next token: false if it fits nothing.
    fn take(&mut self) -> bool {
        let b = self.peek();
        let outer = b == b';' || b == 0 || b.is_ascii_lowercase();
        let inner = b == b';' || b == b')';
        if !self.doc {
            self.doc = outer;
            return outer;
        }
        let below = self.on.len() >= 2 && matches!(self.on[self.on.len() - 2], On::Open);
        let put = match self.on.last() {
            None if b.is_ascii_lowercase() => On::Id(b),
            // %error stands for no text, too
            None if b == b';' => {
                self.on.push(On::Error(String::new()));
                return true;
            }
            Some(On::Id(_) | On::Open) if b == b'(' => On::Open,
            Some(On::Id(_) | On::Open) if b.is_ascii_digit() => On::Num(b),
            Some(On::Open) if b == b')' => {
                self.on.push(On::Error(String::new()));
                return true;
            }
            Some(On::Num(n)) if inner => {
                let e = (*n as char).to_string();
                self.on.pop();
                self.on.push(On::Expr(e));
                return true;
            }
            Some(On::Expr(_) | On::Error(_)) if b == if below { b')' } else { b';' } => On::Ends,
            Some(On::Ends) => {
                // what it ends lies below, and below that what began it
                let n = self.on.len();
                if n >= 3 && matches!(self.on[n - 3], On::Open) {
                    if !inner {
                        return false;
                    }
                    self.on.pop();
                    let e = match self.on.pop() {
                        Some(On::Expr(e)) => cat(&["(", &e, ")"]),
                        Some(On::Error(p)) => cat(&["(?", &p, ")"]),
                        _ => unreachable!(),
                    };
                    self.on.pop();
                    self.on.push(On::Expr(e));
                    return true;
                }
                if !outer {
                    return false;
                }
                self.on.pop();
                match (self.on.pop(), self.on.pop()) {
                    (Some(On::Expr(e)), Some(On::Id(i))) => self.log.push(cat(&["set ", &(i as char).to_string(), &e])),
                    (Some(On::Error(p)), None) => self.log.push(cat(&["bad ", &p])),
                    _ => unreachable!(),
                }
                return true;
            }
            _ => return false,
        };
        self.on.push(put);
        self.at += 1;
        true
    }
    fn all(&mut self) {
        loop {
            if self.peek() == 0 && self.doc && self.on.is_empty() {
                return;
            }
            if self.take() {
                continue;
            }
            self.ok = false;
            let b = self.peek();
            let n = if b == b'!' { self.text[self.at..].iter().take_while(|b| **b == b'!').count() } else { (b != 0) as usize };
            let w = std::str::from_utf8(&self.text[self.at..self.at + n]).unwrap();
            let p = cat(&[if b == b'!' { "text " } else { "syntax " }, w]);
            self.log.push(cat(&["! ", &p]));
            // the next token at which something open goes on
            loop {
                let b = self.peek();
                let n = match b {
                    0 => return,
                    b';' if self.doc => 0,
                    b')' => self.on.iter().rposition(|o| matches!(o, On::Open)).map_or(usize::MAX, |i| i + 1),
                    _ => usize::MAX,
                };
                if n != usize::MAX {
                    self.on.truncate(n);
                    self.on.push(On::Error(p));
                    break;
                }
                self.at += 1;
            }
        }
    }
}
fn recover(run: Run, n: usize, alphabet: &[u8]) {
    let mut pool = Pool(0);
    let text = pool.text(1, n, alphabet);
    let mut s = Stmts { text: text.as_bytes(), at: 0, log: vec![], ok: true, on: vec![], doc: false };
    s.all();
    cover(if s.ok { 1 } else if s.log.iter().any(|l| l.starts_with("bad")) { 2 } else { 3 });
    if s.log.iter().any(|l| l.contains("(?")) {
        cover(4);
    }
    same(run(&text), Did { ok: s.ok, log: s.log });
}

// ------------------------------------------------------------------- texts
fn texts(run: Run, n: usize) {
    let mut pool = Pool(0);
    const ALL: [(&str, &str); 14] = [
        ("Quote ", "\""), ("Back ", "\\"), ("Brace ", "{}"), ("Open ", "{"), ("Hash ", "#"), ("Euro ", "é"), ("Stars ", "/*"), ("Slash ", "//"),
        ("One ", "'\""), ("Two ", "(.\")"), ("Two ", "(.x)"), ("Three ", "%%"), ("", " "), ("", "!\"### x!"),
    ];
    let k = 1 + pool.pick(n);
    let mut text = String::new();
    let mut log: Vec<String> = vec![];
    let mut last = "";
    for _ in 0..k {
        let (name, t) = ALL[pool.pick(ALL.len())];
        // two of these in a row are one token
        assume(!(last == "%%" && t == "%%"));
        text.push_str(t);
        if !name.is_empty() {
            let more = match name {
                "Slash " => "one  \n \ttwo %% // /* %token\n\t\n%left $1 three",
                "One " => "four  \n\t five\n %% // /* . | \n",
                _ => "",
            };
            log.push(cat(&[name, t, more]));
        }
        last = t;
    }
    assume(!log.is_empty());
    cover(1);
    same(run(&text), Did { ok: true, log });
}

// ------------------------------------------------------------------- preds
fn preds(run: Run, n: usize) {
    let mut pool = Pool(0);
    let k = 1 + pool.pick(n);
    let mut text = vec![];
    let mut shape = vec![];
    for _ in 0..k {
        let letters = pool.pick(2) == 1;
        shape.push(letters);
        for _ in 0..1 + letters as usize {
            text.push(if letters { pool.byte_of(b"pqr") } else { pool.byte_of(b"0123") });
        }
        text.push(b';');
    }
    let text = unsafe { String::from_utf8_unchecked(text) };
    let mut log: Vec<String> = vec![];
    let mut ok = true;
    let mut i = 0;
    for (j, letters) in shape.iter().enumerate() {
        let x = &text[i..i + 1];
        if *letters {
            let y = &text[i + 1..i + 2];
            log.push(if x == y {
                cover(1);
                cat(&["same ", x])
            } else if log.len() > 1 {
                cover(2);
                cat(&["late ", y, x])
            } else {
                cover(3);
                cat(&["other ", x, y])
            });
            i += 3;
        } else {
            let end = j + 1 == shape.len();
            i += 2;
            if end {
                cover(4);
                log.push(cat(&["last ", x]));
            } else if x == "0" || !shape[j + 1] {
                cover(5);
                log.push(cat(&["zero ", x]));
            } else {
                // nothing to reduce: an error at the token that follows
                cover(6);
                ok = false;
                log.push(cat(&["! syntax ", &text[i..i + 1]]));
                break;
            }
        }
    }
    same(run(&text), Did { ok, log });
}

macro_rules! entries {
    ($($n:ident: $f:ident($($a:expr),*);)*) => { $(
        #[unsafe(no_mangle)]
        pub extern "C" fn $n() {
            $f($($a),*)
        }
    )* };
}
entries! {
    c20_calc_l: calc(calc_l::run, 6, b"1+*-()");
    c20_calc_l_t: calc(calc_l::run, 7, b"1+*-()");
    c20_calc_a: calc(calc_a::run, 6, b"1+*-()");
    c20_calc_a_t: calc(calc_a::run, 7, b"1+*-()");
    c20_calc_text_l: calc(calc_l::run, 5, b"12+^- !");
    c20_calc_text_l_t: calc(calc_l::run, 6, b"12+^- !");
    c20_calc_text_a: calc(calc_a::run, 5, b"12+^- !");
    c20_calc_text_a_t: calc(calc_a::run, 6, b"12+^- !");
    c20_many_l: many(many_l::run);
    c20_many_a: many(many_a::run);
    c20_inject_l: inject(inject_l::run, 5);
    c20_inject_l_t: inject(inject_l::run, 7);
    c20_inject_a: inject(inject_a::run, 5);
    c20_inject_a_t: inject(inject_a::run, 7);
    c20_recover_l: recover(recover_l::run, 6, b"x1;()");
    c20_recover_l_t: recover(recover_l::run, 7, b"x1;()");
    c20_recover_a: recover(recover_a::run, 6, b"x1;()");
    c20_recover_a_t: recover(recover_a::run, 7, b"x1;()");
    c20_recover_text_l: recover(recover_l::run, 6, b"x1;!");
    c20_recover_text_l_t: recover(recover_l::run, 8, b"x1;!");
    c20_recover_text_a: recover(recover_a::run, 6, b"x1;!");
    c20_recover_text_a_t: recover(recover_a::run, 8, b"x1;!");
    c20_texts_l: texts(texts_l::run, 2);
    c20_texts_l_t: texts(texts_l::run, 3);
    c20_texts_a: texts(texts_a::run, 2);
    c20_texts_a_t: texts(texts_a::run, 3);
    c20_preds: preds(preds_a::run, 4);
    c20_preds_t: preds(preds_a::run, 5);
}
