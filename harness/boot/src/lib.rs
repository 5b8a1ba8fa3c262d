//! Harness entries that compare each generator with the one whose parser of
//! specifications the generator has written itself.
#[path = "../../common/sym.rs"]
mod sym;
use sym::*;

#[derive(PartialEq)]
enum Verdict {
    Parse,
    Errors(u32),
    Undefined(u32),
    SR(u32, u32),
    RR(u32, u32),
    Other,
    Fine,
}
struct Did {
    verdict: Verdict,
    /// what it has written, and said
    code: Vec<u8>,
    said: Vec<u8>,
}

macro_rules! generator {
    ($m:ident, $lib:ident) => {
        fn $m(text: &str) -> Did {
            use $lib::grammar::Error;
            watch_stderr();
            let verdict = match $lib::grammar::Specification::new(text, "spec").map(|s| $lib::grammar::Grammar::try_from((s, true, true))) {
                Err(_) => Verdict::Parse,
                Ok(Err(Error::TooManyErrors(n))) => Verdict::Errors(n),
                Ok(Err(Error::UndefinedSymbols(n))) => Verdict::Undefined(n),
                Ok(Err(Error::UnexpectedSRConflicts(n, m, _))) => Verdict::SR(n, m),
                Ok(Err(Error::UnexpectedRRConflicts(n, m, _))) => Verdict::RR(n, m),
                Ok(Ok(g)) => {
                    if g.write_parser_code_to_file(std::path::Path::new("out.rs")).is_ok() { Verdict::Fine } else { Verdict::Other }
                }
            };
            let code = if verdict == Verdict::Fine { file("out.rs").unwrap_or_default() } else { vec![] };
            Did { verdict, code, said: stderr() }
        }
    };
}
generator!(plain, lalr1_lib);
generator!(plain_self, lalr1_self);
generator!(aug, alalr1_lib);
generator!(aug_self, alalr1_self);

type Generate = fn(&str) -> Did;

fn same(real: Generate, own: Generate, text: &str) {
    let a = real(text);
    let b = own(text);
    observe(a.code.len() as u64);
    observe(a.said.len() as u64);
    cover(match a.verdict {
        Verdict::Fine => 1,
        Verdict::Parse => 2,
        _ => 3,
    });
    check!(a.verdict == b.verdict, 120, "another verdict than from the generator made from its own specification");
    check!(a.code == b.code, 121, "another parser than from the generator made from its own specification");
    check!(a.said == b.said, 122, "other messages than from the generator made from its own specification");
}
fn warm(real: Generate, own: Generate) {
    // what is injected has no token in it
    check!(std::fs::write("no", "/* nothing */").is_ok(), 2, "a file cannot be written");
    check!(std::fs::write("none", "").is_ok(), 2, "a file cannot be written");
    let text = "%attr X %target Y %% %token a \"a\" %% S: a .";
    check!(real(text).verdict == Verdict::Fine && own(text).verdict == Verdict::Fine, 1, "a trivial specification is refused");
}

/// A specification with everything in it, token by token ("~" not in the plain one).
const PARTS: [&[&str]; 4] = [
    // preamble and configuration
    &["%inject", "\"no\"", ".", "%{ p %}", "%inject", "\"no\"", ".", "%attr", "X", "%inject", "\"no\"", ".", "%target", "Y", "%reduce_reduce", "0", "%inject", "\"no\"", ".", "%shift_reduce", "2", "%%"],
    // tokens and skips
    &["%token", "a", "\"a\"", "%token", "b", "(b)", "%inject", "\"no\"", ".", "%token", "U", "\"c\"", "%skip", "(s)", "%skip", "(t)", "%inject", "\"no\"", "."],
    // precedences
    &["%left", "a", "V", "%right", "\"c\"", "W", "%nonassoc", "b", "%inject", "\"no\"", ".", "%%"],
    // rules
    &["S", ":", "T", "b", "?(p?)", "%prec", "V", "!{x!}", "|", "a", "S", "%prec", "\"c\"", "|", "!{y!}", "|", "%error", "b", ".", "%inject", "\"no\"", ".", "T", ":", "a", "?(q?)", "|", "?(r?)", "!{z!}", "|", "b", "."],
];
/// Every kind of token there is.
const KINDS: [&str; 31] = [
    "(x)", "\"a\"", "%attr", "%target", "%token", "%left", "%right", "%nonassoc", "%prec", "%skip", "%error", "%inject", "%%", ":", "|", ".", "a", "!{n!}", "%{ m %}", "%reduce_reduce",
    "%shift_reduce", "1",
    "\"z\"", "zz", "(*)", "aaz", "99999999999", "!{$0!}", "%inject \"gone\" .", "%inject \"none\" .", "?(m?)",
];
/// The parts in short, around the one that is looked at.
const SHORT: [&str; 4] = ["%attr X %target Y %% ", "%token a \"a\" ", "%% ", "S : a . "];

/// Some tokens replaced by others, left out or added, anywhere in one part.
fn tokens(real: Generate, own: Generate, aug: bool, part: usize, n: usize) {
    warm(real, own);
    let mut pool = Pool(0);
    let kinds = if aug { &KINDS[..] } else { &KINDS[..30] };
    let all: Vec<&str> = PARTS[part].iter().copied().filter(|t| aug || !t.starts_with('?')).collect();
    let at = pool.pick(all.len() + 1);
    // one token, any way; or two for two
    let (gone, new) = if n > 1 { (n.min(all.len() - at), n) } else { (pool.pick((all.len() - at).min(1) + 1), pool.pick(2)) };
    let mut text = String::new();
    for p in 0..4 {
        if p != part {
            text.push_str(SHORT[p]);
            // what the rules need
            if part == 3 && p == 1 {
                text.push_str("%token b \"b\" %token U \"c\" ");
                text.push_str("%left V %nonassoc U ");
            }
            if part == 2 && p == 1 {
                text.push_str("%token b \"b\" %token U \"c\" ");
            }
            continue;
        }
        for i in 0..all.len() + 1 {
            if i == at {
                for _ in 0..new {
                    text.push_str(kinds[pool.pick(kinds.len())]);
                    text.push(' ');
                }
            }
            if i < all.len() && (i < at || i >= at + gone) {
                text.push_str(all[i]);
                text.push(' ');
            }
        }
    }
    same(real, own, &text);
}

/// Any characters in the middle of something.
fn bytes(real: Generate, own: Generate, n: usize) {
    warm(real, own);
    let mut pool = Pool(0);
    const TEXT: [&str; 13] = [
        "%{ p ", "%} // nothing", "\n%attr ", "X %target Y %reduce_", "reduce 0", " %%\n%token a \"", "a\" %token b (", "b)", "\n%skip (s) /* ", " */ %left a V", " W\n%% S: a !{ $$", " = $1; !} | S %prec V", " .",
    ];
    let at = 1 + pool.pick(12);
    let mut text = String::new();
    for (i, t) in TEXT.iter().enumerate() {
        if i == at {
            for _ in 0..n {
                let b = pool.byte();
                assume(b < 128);
                put(&mut text, b);
            }
        }
        text.push_str(t);
    }
    same(real, own, &text);
}
fn put(text: &mut String, b: u8) {
    // only ASCII comes here
    unsafe { text.as_mut_vec().push(b) }
}

macro_rules! entries {
    ($($n:ident: $f:ident($($a:expr),*);)*) => { $(
        #[unsafe(no_mangle)]
        pub extern "C" fn $n() {
            $f($($a),*)
        }
    )* };
}
entries! {
    c24_head_l: tokens(plain, plain_self, false, 0, 1);
    c24_head_a: tokens(aug, aug_self, true, 0, 1);
    c24_tokens_l: tokens(plain, plain_self, false, 1, 1);
    c24_tokens_a: tokens(aug, aug_self, true, 1, 1);
    c24_levels_l: tokens(plain, plain_self, false, 2, 1);
    c24_levels_a: tokens(aug, aug_self, true, 2, 1);
    c24_rules_l: tokens(plain, plain_self, false, 3, 1);
    c24_rules_a: tokens(aug, aug_self, true, 3, 1);
    c24_bytes_l: bytes(plain, plain_self, 1);
    c24_bytes_a: bytes(aug, aug_self, 1);
    c24_bytes_l_t: bytes(plain, plain_self, 2);
    c24_bytes_a_t: bytes(aug, aug_self, 2);
    c24_head_l_t: tokens(plain, plain_self, false, 0, 2);
    c24_head_a_t: tokens(aug, aug_self, true, 0, 2);
    c24_tokens_l_t: tokens(plain, plain_self, false, 1, 2);
    c24_tokens_a_t: tokens(aug, aug_self, true, 1, 2);
    c24_levels_l_t: tokens(plain, plain_self, false, 2, 2);
    c24_levels_a_t: tokens(aug, aug_self, true, 2, 2);
    c24_rules_l_t: tokens(plain, plain_self, false, 3, 2);
    c24_rules_a_t: tokens(aug, aug_self, true, 3, 2);
}
