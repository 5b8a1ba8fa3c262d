//! Runs the generators on the specifications in a directory: mk SPECS OUT.
//! *.spec is for both, *.laps and *.alaps for one of them.
use std::path::Path;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut bad = false;
    let mut names: Vec<_> = std::fs::read_dir(&a[1]).expect("specifications").map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in names {
        let name = p.file_stem().unwrap().to_str().unwrap().to_string();
        let text = std::fs::read_to_string(&p).unwrap();
        let kind = p.extension().unwrap().to_str().unwrap().to_string();
        if kind == "spec" || kind == "laps" {
            let t = text.replace("@LIB@", "lalr1");
            let r = lalr1_lib::ParserGenerator::try_from(t.as_str()).map_err(|e| format!("{e:?}"));
            match r.and_then(|g| g.write_parser_code_to_file(Path::new(&a[2]).join(format!("{name}_l.rs"))).map_err(|e| format!("{e:?}"))) {
                Ok(()) => {}
                Err(e) => {
                    bad = true;
                    println!("REFUSED {name} lalr1_lib: {e}");
                }
            }
        }
        if kind == "laps" {
            continue;
        }
        let t = text.replace("@LIB@", "alalr1");
        let r = alalr1_lib::ParserGenerator::try_from(t.as_str()).map_err(|e| format!("{e:?}"));
        match r.and_then(|g| g.write_parser_code_to_file(Path::new(&a[2]).join(format!("{name}_a.rs"))).map_err(|e| format!("{e:?}"))) {
            Ok(()) => {}
            Err(e) => {
                bad = true;
                println!("REFUSED {name} alalr1_lib: {e}");
            }
        }
    }
    std::process::exit(if bad { 3 } else { 0 });
}
