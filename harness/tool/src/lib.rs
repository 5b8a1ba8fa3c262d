//! Harness entries for the command line programs and for what lalr1_lib and
//! alalr1_lib offer to build scripts.
#[path = "../../common/sym.rs"]
mod sym;
use std::cell::{Cell, RefCell};
use sym::*;

// -------------------------------------------------------- the two programs
/// What the program is called with.
struct Call {
    args: RefCell<Vec<String>>,
    /// the exit code it must end with
    code: Cell<i32>,
    /// what must be in which file afterwards (None: no such file)
    files: RefCell<Vec<(String, Option<Vec<u8>>)>>,
    active: Cell<bool>,
}
struct Global(Call);
unsafe impl Sync for Global {}
static CALL: Global = Global(Call { args: RefCell::new(vec![]), code: Cell::new(0), files: RefCell::new(vec![]), active: Cell::new(false) });

fn arguments() -> Vec<String> {
    CALL.0.args.borrow().clone()
}

macro_rules! program {
    ($m:ident, $lib:ident, $path:literal) => {
        mod $m {
            include!($path);
            impl CLOptions {
                /// In place of the arguments of the process.
                fn from_args() -> Self {
                    <Self as StructOpt>::from_iter(super::arguments())
                }
            }
            pub fn call() {
                main()
            }
            /// What the library writes for a specification.
            pub fn expected(text: &str, label: &str, sr: bool, rr: bool) -> Result<(Vec<u8>, Vec<u8>), ()> {
                let s = grammar::Specification::new(text, label).map_err(|_| ())?;
                let g = grammar::Grammar::try_from((s, sr, rr)).map_err(|_| ())?;
                g.write_parser_code_to_file(Path::new("want.rs")).map_err(|_| ())?;
                g.write_description(Path::new("want.txt")).map_err(|_| ())?;
                Ok((super::file("want.rs").ok_or(())?, super::file("want.txt").ok_or(())?))
            }
        }
    };
}
program!(plain, lalr1_lib, "/repo/lalr1_gen/src/main.rs");
program!(aug, alalr1_lib, "/repo/alalr1_gen/src/main.rs");

/// Called instead of leaving the process.
#[unsafe(no_mangle)]
pub extern "C" fn sym_exit_hook(code: i32) {
    ended(code)
}
fn ended(code: i32) {
    check!(CALL.0.active.get(), 200, "the library ended the process");
    observe(code as u64);
    check!(code == CALL.0.code.get(), 201, "wrong exit code");
    for (name, want) in CALL.0.files.borrow().iter() {
        let got = file(name);
        if got.is_none() {
            cover(8);
        }
        check!(got.is_some() == want.is_some(), 202, "a file that must not be there is, or the reverse");
        check!(got == *want, 203, "wrong contents of a file");
    }
    cover(10 + code as u32);
    expect_panic();
    panic!("the end");
}

const CONTENTS: [&str; 7] = [
    "%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%%\nS: a .\n",
    // does not parse
    "%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%%\nS: a a\n",
    // a faulty definition, an undefined symbol
    "%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%token b \"\"\n%%\nS: a .\n",
    "%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%%\nS: a T .\n",
    // shift/reduce conflicts, reduce/reduce conflicts, both
    "%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%%\nS: S S | a .\n",
    "%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%%\nS: A | B .\nA: a .\nB: a .\n",
    "%{\n%}\n%attr X\n%target Y\n%%\n%token a \"a\"\n%%\nS: S S | A | B .\nA: a .\nB: a .\n",
];
type Expected = fn(&str, &str, bool, bool) -> Result<(Vec<u8>, Vec<u8>), ()>;

/// C21: exit code and files.
fn program(call: fn(), expected: Expected) {
    let mut pool = Pool(0);
    check!(expected(CONTENTS[0], "warm", false, false).is_ok(), 1, "a trivial specification is refused");
    let what = pool.pick(CONTENTS.len() + 3);
    let spec = ["g.spec", "d.x/g", "g.rs.spec"][pool.pick(3)];
    let (force, sr, rr) = (pool.pick(2) == 1, pool.pick(2) == 1, pool.pick(2) == 1);
    let (short, other) = (pool.pick(2) == 1, pool.pick(4));
    let order = short;
    let out = match other {
        0 => match spec {
            "g.spec" => "g.rs",
            "d.x/g" => "d.x/g.rs",
            _ => "g.rs.rs",
        },
        1 => "o.a.txt",
        2 => "d.x/o",
        _ => "none/o",
    };
    let desc = match out {
        "g.rs" => "g.states",
        "d.x/g.rs" => "d.x/g.states",
        "g.rs.rs" => "g.rs.states",
        "o.a.txt" => "o.a.states",
        "d.x/o" => "d.x/o.states",
        _ => "none/o.states",
    };
    let _ = std::fs::create_dir("d.x");
    // the specification
    let text: Option<&[u8]> = match what {
        7 => None,
        8 => Some(b"%{\n%}\xff"),
        9 => {
            let _ = std::fs::create_dir(spec);
            None
        }
        n => Some(CONTENTS[n].as_bytes()),
    };
    if let Some(t) = text {
        std::fs::write(spec, t).expect("writes");
    }
    // what was there before: nothing, a file, a directory
    let there = if other == 3 { 0 } else { pool.pick(4) };
    let old_code: Option<Vec<u8>> = if there == 1 { Some(vec![b'x'; 20000]) } else { None };
    let old_desc: Option<Vec<u8>> = if there == 1 { Some(vec![b'y'; 20000]) } else { None };
    for (n, t) in [(out, &old_code), (desc, &old_desc)] {
        if let Some(t) = t {
            std::fs::write(n, t).expect("writes");
        }
    }
    if there > 1 {
        let _ = std::fs::create_dir([out, desc][there - 2]);
    }
    let mut args = vec!["program".to_string()];
    if order {
        args.push(spec.to_string());
    }
    if force {
        args.push(if short { "-f" } else { "--force" }.to_string());
    }
    if sr {
        args.push("--ignore-sr-conflicts".to_string());
    }
    if rr {
        args.push("--ignore-rr-conflicts".to_string());
    }
    if other > 0 {
        args.push(if short { "-o" } else { "--output" }.to_string());
        args.push(out.to_string());
    }
    if !order {
        args.push(spec.to_string());
    }
    let (mut code, mut new_code, mut new_desc) = (1, old_code.clone(), old_desc.clone());
    if (there != 1 && there != 2) || force {
        code = match what {
            0 => 0,
            1 | 7 | 8 | 9 => 2,
            2 | 3 => 4,
            4 => if sr { 0 } else { 4 },
            5 => if rr { 0 } else { 4 },
            _ => if sr && rr { 0 } else { 4 },
        };
        if code == 0 {
            let Ok((c, d)) = expected(CONTENTS[what], spec, sr, rr) else { fail(204, "the library refuses it") };
            if there == 2 || other == 3 {
                code = 6;
            } else {
                new_code = Some(c);
                if there == 3 {
                    code = 7;
                } else {
                    new_desc = Some(d);
                }
            }
        }
    }
    CALL.0.code.set(code);
    *CALL.0.args.borrow_mut() = args;
    *CALL.0.files.borrow_mut() = vec![(out.to_string(), new_code), (desc.to_string(), new_desc), (spec.to_string(), text.map(|t| t.to_vec()))];
    CALL.0.active.set(true);
    call();
    ended(0);
}

#[unsafe(no_mangle)]
pub extern "C" fn c21_program_l() {
    program(plain::call, plain::expected)
}
#[unsafe(no_mangle)]
pub extern "C" fn c21_program_a() {
    program(aug::call, aug::expected)
}

// ----------------------------------------------------------- build scripts
#[derive(PartialEq, Debug, Clone, Copy)]
enum Said {
    Fine,
    Specification,
    Errors,
    Undefined(u32),
    SR(u32, u32),
    RR(u32, u32),
    Io(std::io::ErrorKind),
}
macro_rules! library {
    ($m:ident, $lib:ident) => {
        mod $m {
            use super::Said;
            use $lib::{grammar, Error, ParserGenerator};
            use std::path::Path;
            pub struct It(ParserGenerator);
            fn said(r: Result<ParserGenerator, Error>) -> Result<It, Said> {
                match r {
                    Ok(g) => Ok(It(g)),
                    Err(Error::SpecificationError(_)) => Err(Said::Specification),
                    Err(Error::IoError(e)) => Err(Said::Io(e.kind())),
                    Err(Error::GrammarError(e)) => Err(match e {
                        grammar::Error::TooManyErrors(_) => Said::Errors,
                        grammar::Error::UndefinedSymbols(n) => Said::Undefined(n),
                        grammar::Error::UnexpectedSRConflicts(n, m, _) => Said::SR(n, m),
                        grammar::Error::UnexpectedRRConflicts(n, m, _) => Said::RR(n, m),
                    }),
                }
            }
            pub fn path(p: &str) -> Result<It, Said> {
                said(ParserGenerator::new(p))
            }
            pub fn text(t: &str) -> Result<It, Said> {
                said(ParserGenerator::try_from(t))
            }
            impl super::Writes for It {
                fn write(&self, p: &str) -> bool {
                    self.0.write_parser_code_to_file(p).is_ok()
                }
            }
            /// Writes the description of the trivial specification.
            pub fn describe(p: &str) -> bool {
                let s = grammar::Specification::new(super::CONTENTS[0], "x").expect("parses");
                let g = grammar::Grammar::try_from((s, false, false)).expect("is fine");
                g.write_description(Path::new(p)).is_ok()
            }
        }
    };
}
pub trait Writes {
    fn write(&self, p: &str) -> bool;
}
library!(plain_lib, lalr1_lib);
library!(aug_lib, alalr1_lib);

/// C18: what build scripts see.
fn library<T: Writes>(path: fn(&str) -> Result<T, Said>, text: fn(&str) -> Result<T, Said>, describe: fn(&str) -> bool, expected: Expected) {
    let mut pool = Pool(0);
    check!(expected(CONTENTS[0], "warm", false, false).is_ok(), 1, "a trivial specification is refused");
    use std::io::ErrorKind;
    let what = pool.pick(CONTENTS.len() + 3);
    let by_path = what >= 7 || pool.pick(2) == 1;
    let out = ["p.rs", "none/p.rs", "d.x/p", "/dev/full"][pool.pick(4)];
    let there = if out == "/dev/full" || out == "none/p.rs" { 0 } else { pool.pick(3) };
    let want = match what {
        0 => Said::Fine,
        1 => Said::Specification,
        2 => Said::Errors,
        3 => Said::Undefined(1),
        4 => Said::SR(1, 0),
        5 => Said::RR(1, 0),
        6 => Said::SR(1, 0),
        7 => Said::Io(ErrorKind::NotFound),
        8 => Said::Io(ErrorKind::InvalidData),
        _ => Said::Io(ErrorKind::IsADirectory),
    };
    let _ = std::fs::create_dir("d.x");
    match what {
        7 => {}
        8 => std::fs::write("g.spec", b"%{\n%}\xff").expect("writes"),
        9 => {
            let _ = std::fs::create_dir("g.spec");
        }
        n => std::fs::write("g.spec", CONTENTS[n]).expect("writes"),
    }
    if there == 1 {
        std::fs::write(out, vec![b'x'; 20000]).expect("writes");
    } else if there == 2 {
        let _ = std::fs::create_dir(out);
    }
    let got = if by_path { path("g.spec") } else { text(CONTENTS[what]) };
    match got {
        Err(s) => {
            cover(1);
            check!(s == want || (what == 6 && s == Said::RR(1, 0)), 210, "refused for another reason, or without one");
        }
        Ok(g) => {
            cover(2);
            check!(want == Said::Fine, 211, "a faulty specification is accepted");
            let ok = there < 2 && (out == "p.rs" || out == "d.x/p");
            check!(g.write(out) == ok, 212, "a failure to write is not reported, or one is made up");
            if ok {
                cover(3);
                let Ok((code, _)) = expected(CONTENTS[what], if by_path { "g.spec" } else { "text" }, false, false) else { fail(213, "refused the second time") };
                check!(file(out) == Some(code.clone()), 214, "the file is not what the grammar writes");
                check!(g.write(out) && file(out) == Some(code), 215, "another file when written again");
            }
            check!(describe(out) == ok, 216, "a failure to write a description is not reported, or one is made up");
            if ok {
                let Ok((_, desc)) = expected(CONTENTS[0], "x", false, false) else { fail(213, "refused the second time") };
                check!(file(out) == Some(desc), 217, "the file is not replaced by the description");
            }
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c18_library_l() {
    library(plain_lib::path, plain_lib::text, plain_lib::describe, plain::expected)
}
#[unsafe(no_mangle)]
pub extern "C" fn c18_library_a() {
    library(aug_lib::path, aug_lib::text, aug_lib::describe, aug::expected)
}
