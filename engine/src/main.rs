//! symex: symbolic execution of rustc-produced LLVM IR with z3.
mod exec;
mod expr;
mod ir;
mod ll;
mod mem;
mod ty;
mod z3;

use exec::*;
use ir::Val;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn alarm(s: u32) -> u32;
    fn prctl(op: i32, ...) -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn mallopt(p: i32, v: i32) -> i32;
}

#[derive(Default)]
struct Report {
    lines: Vec<String>,
    nfail: usize,
    nerr: usize,
    samples: Vec<String>,
    stride: u64,
    seen: u64,
    covers: BTreeMap<u32, u64>,
    mass: f64,
    mass_exact: bool,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn clean(s: &str) -> String {
    s.replace(['\t', '\n', '\r'], " ")
}

fn mass(s: &State, e: &Engine) -> Option<f64> {
    let mut p = &s.pc;
    while let Some(n) = p {
        if e.ex.supp[n.cond as usize].count_ones() > 1 {
            return None;
        }
        p = &n.next;
    }
    Some(s.mass())
}

fn drive(e: &mut Engine, mut s: State, r: &mut Report, nsamp: usize) {
    let stop = match e.run(&mut s) {
        // the harness announced that the call must be refused with a panic
        Stop::Fail { kind: "panic", .. } if s.expect_panic => Stop::Done,
        x => x,
    };
    match stop {
        Stop::Done | Stop::Cut => {
            if let Stop::Done = stop {
                e.st.paths += 1;
                for c in s.covers.iter() {
                    *r.covers.entry(*c).or_default() += 1;
                }
                r.seen += 1;
                if r.stride == 0 {
                    r.stride = 1;
                }
                if nsamp > 0 && r.seen % r.stride == 0 {
                    let obs: Vec<String> = s
                        .obs
                        .iter()
                        .map(|v| match v {
                            Val::C(x) => format!("{}", x),
                            Val::S(x) => format!("{}", e.ex.eval(*x, &s.model) as u64),
                            _ => "?".into(),
                        })
                        .collect();
                    r.samples.push(format!("S\t{}\t{}\t{}", hex(&s.model), obs.join(","), clean(&s.notes.join("|"))));
                    if r.samples.len() >= 2 * nsamp {
                        let mut i = 0;
                        r.samples.retain(|_| {
                            i += 1;
                            i % 2 == 0
                        });
                        r.stride *= 2;
                    }
                }
            } else {
                e.st.cuts += 1;
            }
            match mass(&s, e) {
                Some(m) => r.mass += m,
                None => r.mass_exact = false,
            }
        }
        Stop::Fail { kind, code, detail, model } => {
            let m = model.unwrap_or_else(|| s.model.clone());
            r.nfail += 1;
            r.lines.push(format!("F\t{}\t{}\t{}\t{}\t{}\t{}", kind, code, clean(&detail), hex(&m), clean(&s.notes.join("|")), e.backtrace(&s)));
        }
        Stop::Error(t) => {
            r.nerr += 1;
            r.lines.push(format!("E\t{}\t{}\t{}", clean(&t), hex(&s.model), e.backtrace(&s)));
        }
    }
}

/// Source functions (including inlined ones) of the executed blocks.
struct Dbg<'a> {
    m: &'a ll::Module,
    memo: HashMap<u32, Vec<String>>,
}
impl<'a> Dbg<'a> {
    fn line(&self, id: u32) -> &str {
        match self.m.meta_pos.get(&id) {
            None => "",
            Some(&p) => {
                let t = &self.m.text[p..];
                let e = t.iter().position(|&c| c == b'\n').unwrap_or(t.len());
                std::str::from_utf8(&t[..e]).unwrap_or("")
            }
        }
    }
    fn refd(s: &str, key: &str) -> Option<u32> {
        let p = s.find(key)? + key.len();
        let d: String = s[p..].chars().take_while(|c| c.is_ascii_digit()).collect();
        d.parse().ok()
    }
    fn quoted(s: &str, key: &str) -> String {
        s.find(key).map(|p| s[p + key.len()..].split('"').next().unwrap_or("").to_string()).unwrap_or_default()
    }
    fn scope(&self, mut id: u32) -> Option<String> {
        for _ in 0..64 {
            let l = self.line(id).to_string();
            if l.contains("DISubprogram(") {
                let f = Self::refd(&l, "file: !")?;
                let fl = self.line(f);
                let (fname, dir) = (Self::quoted(fl, "filename: \""), Self::quoted(fl, "directory: \""));
                let full = if fname.starts_with('/') { fname.clone() } else { format!("{}/{}", dir, fname) };
                return Some(format!("{}:{}", full, Self::quoted(&l, "(name: \"")));
            }
            id = Self::refd(&l, "scope: !")?;
        }
        None
    }
    fn names(&mut self, id: u32) -> Vec<String> {
        if id == 0 {
            return vec![];
        }
        if let Some(v) = self.memo.get(&id) {
            return v.clone();
        }
        let l = self.line(id).to_string();
        let mut v = vec![];
        if let Some(s) = Self::refd(&l, "scope: !") {
            if let Some(n) = self.scope(s) {
                v.push(n);
            }
        }
        if let Some(i) = Self::refd(&l, "inlinedAt: !") {
            v.extend(self.names(i));
        }
        self.memo.insert(id, v.clone());
        v
    }
}

fn executed(m: &'static ll::Module, filt: &str) -> BTreeSet<String> {
    let mut d = Dbg { m, memo: HashMap::new() };
    let mut o = BTreeSet::new();
    for f in m.fns.borrow().iter() {
        if let Some(f) = f.lowered.get() {
            if f.execs.get() == 0 {
                continue;
            }
            for b in 0..f.block_start.len() {
                if !f.cov[b].get() {
                    continue;
                }
                let end = f.block_start.get(b + 1).copied().unwrap_or(f.code.len() as u32);
                for i in f.block_start[b]..end {
                    for n in d.names(f.dbg[i as usize]) {
                        if n.contains(filt) {
                            o.insert(n);
                        }
                    }
                }
            }
        }
    }
    o
}

fn finish(e: &Engine, r: &Report, m: &'static ll::Module, filt: &str, complete: bool, path: &str) {
    let mut f = std::fs::File::create(path).unwrap();
    for l in &r.lines {
        writeln!(f, "{}", l).unwrap();
    }
    for l in &r.samples {
        writeln!(f, "{}", l).unwrap();
    }
    for (c, n) in &r.covers {
        writeln!(f, "C\t{}\t{}", c, n).unwrap();
    }
    for (k, v) in [
        ("paths", e.st.paths),
        ("cuts", e.st.cuts),
        ("forks", e.st.forks),
        ("instrs", e.st.instrs),
        ("queries", e.z3.queries),
        ("sat", e.z3.sat),
        ("unsat", e.z3.unsat),
        ("solver_us", (e.z3.time * 1e6) as u64),
        ("prunes", e.st.fast_prunes),
        ("prunes_checked", e.st.fast_checked),
        ("incomplete", !complete as u64),
        ("mass_inexact", !r.mass_exact as u64),
    ] {
        writeln!(f, "N\t{}\t{}", k, v).unwrap();
    }
    for (k, v) in &e.st.prof {
        writeln!(f, "P\t{}\t{}", v, k).unwrap();
    }
    writeln!(f, "M\t{:e}", r.mass + e.st.cut_mass).unwrap();
    for u in executed(m, filt) {
        writeln!(f, "U\t{}", u).unwrap();
    }
}

fn main() {
    unsafe {
        mallopt(-1, 1 << 30);
        mallopt(-3, 1 << 30);
    }
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let llf = opt("--ll").expect("--ll");
    let entry = opt("--entry").unwrap_or("sym_main".into());
    let out = opt("--out").expect("--out");
    let jobs: usize = opt("--jobs").map_or(8, |x| x.parse().unwrap());
    let time: f64 = opt("--time").map_or(600.0, |x| x.parse().unwrap());
    let maxfail: usize = opt("--max-fail").map_or(8, |x| x.parse().unwrap());
    let nsamp: usize = opt("--samples").map_or(16, |x| x.parse().unwrap());
    let filt = opt("--filter").unwrap_or("/repo/".into());
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(time);
    let text: &'static [u8] = Box::leak(std::fs::read(&llf).expect("read ll").into_boxed_slice());
    let m: &'static ll::Module = Box::leak(Box::new(ll::Module::load(text)));
    let mut e = Engine::new(m);
    e.deadline = Some(deadline);
    e.max_steps = opt("--max-steps").map_or(400_000_000, |x| x.parse().unwrap());
    if let Some(s) = opt("--skip") {
        e.skip = s.split(',').map(|x| x.to_string()).collect();
    }
    let verbose = a.iter().any(|x| x == "-v");
    let s0 = e.initial(&entry);
    if verbose {
        eprintln!("loaded in {:?}", t0.elapsed());
    }
    let mut r = Report { mass_exact: true, ..Default::default() };
    let tp = Instant::now();
    drive(&mut e, s0, &mut r, nsamp);
    if verbose {
        eprintln!("first path: {:?}, {} instrs, {} forks", tp.elapsed(), e.st.instrs, e.st.forks);
    }
    // work is shared whenever there is some to spare and a processor is idle
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
    let cell = |i: usize| -> &'static AtomicUsize { unsafe { &*(shared.add(64 * i) as *const AtomicUsize) } };
    let (active, started, fails, errs) = (cell(0), cell(1), cell(2), cell(3));
    active.store(1, SeqCst);
    fails.store(r.nfail as usize, SeqCst);
    errs.store(r.nerr as usize, SeqCst);
    let mut root = true;
    let mut me = 0;
    let mut pids = vec![];
    let (mut since, mut done) = (Instant::now(), 0u32);
    loop {
        if fails.load(SeqCst) >= maxfail || errs.load(SeqCst) > 0 || Instant::now() > deadline {
            break;
        }
        while jobs > 1 && e.work.len() >= 2 {
            // what is pending may be much or little: who has been at it for some time shares
            let t = since.elapsed().as_secs_f64();
            if (t < 0.1 && t * (e.work.len() as f64) < 0.15 * done as f64) || active.fetch_update(SeqCst, SeqCst, |n| if n < jobs { Some(n + 1) } else { None }).is_err() {
                break;
            }
            let id = 1 + started.fetch_add(1, SeqCst);
            let mut theirs = vec![];
            let mut ours = vec![];
            for (i, s) in std::mem::take(&mut e.work).into_iter().enumerate() {
                if i % 2 == 0 { theirs.push(s) } else { ours.push(s) }
            }
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe {
                    // no worker outlives its parent or its time
                    prctl(1, 9u64, 0u64, 0u64, 0u64);
                    alarm(deadline.saturating_duration_since(Instant::now()).as_secs() as u32 + 20);
                }
                e.st = Stats::default();
                e.z3.queries = 0;
                e.z3.sat = 0;
                e.z3.unsat = 0;
                e.z3.time = 0.0;
                for f in m.fns.borrow().iter() {
                    if let Some(f) = f.lowered.get() {
                        f.execs.set(0);
                    }
                }
                r = Report { mass_exact: true, ..Default::default() };
                e.work = theirs;
                root = false;
                me = id;
                pids = vec![];
                (since, done) = (Instant::now(), 0);
            } else if pid > 0 {
                e.work = ours;
                pids.push(pid);
                (since, done) = (Instant::now(), 0);
            } else {
                // no process to be had: carry on alone
                e.work = ours;
                e.work.extend(theirs);
                active.fetch_sub(1, SeqCst);
                break;
            }
        }
        let Some(s) = e.work.pop() else { break };
        let (nf, ne) = (r.nfail, r.nerr);
        drive(&mut e, s, &mut r, if root { nsamp } else { nsamp / jobs + 1 });
        done += 1;
        fails.fetch_add((r.nfail - nf) as usize, SeqCst);
        errs.fetch_add((r.nerr - ne) as usize, SeqCst);
    }
    if !root {
        let complete = e.work.is_empty();
        finish(&e, &r, m, &filt, complete, &format!("{}.part{}", out, me));
    }
    active.fetch_sub(1, SeqCst);
    let mut bad = false;
    for p in pids {
        let mut st = 0;
        unsafe { waitpid(p, &mut st, 0) };
        bad |= st != 0;
    }
    if !root {
        unsafe { _exit(bad as i32) }
    }
    if bad {
        r.lines.push("E\tworker ended abnormally\t\t".into());
    }
    let parts: Vec<String> = (1..=started.load(SeqCst)).map(|i| format!("{}.part{}", out, i)).collect();
    let complete = e.work.is_empty();
    finish(&e, &r, m, &filt, complete, &out);
    let mut f = std::fs::OpenOptions::new().append(true).open(&out).unwrap();
    for p in parts {
        if let Ok(t) = std::fs::read(&p) {
            f.write_all(&t).unwrap();
            let _ = std::fs::remove_file(&p);
        }
    }
    writeln!(f, "T\t{}", t0.elapsed().as_secs_f64()).unwrap();
}
