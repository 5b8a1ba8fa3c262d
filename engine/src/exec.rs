//! Symbolic executor: runs lowered IR over concrete/symbolic values, forking at
//! branches whose condition is not decided by the path constraint.
use crate::expr::*;
use crate::ir::*;
use crate::ll::*;
use crate::mem::*;
use crate::ty::Ty;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub const STACK_BASE: u64 = 0x2000_0000;
pub const STACK_MAX: u64 = 0x0400_0000;
pub const HEAP_BASE: u64 = 0x4000_0000;

pub struct PcNode {
    pub cond: E,
    pub pol: bool,
    pub next: Pc,
}
pub type Pc = Option<Rc<PcNode>>;

#[derive(Clone)]
pub struct Frame {
    f: &'static Func,
    ip: u32,
    base: u32,
    ret: Option<R>,
    sp: u64,
}

pub type Dom = [u64; 4];

/// Every write to it fails.
const DEV_FULL: &[u8] = b"/dev/full";
/// Where what goes to the standard error output is kept when a harness asks.
const STDERR: &[u8] = b"STDERR";

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    regs: Vec<Val>,
    mem: Mem,
    sp: u64,
    stack_hi: u64,
    heap: u64,
    heap_hi: u64,
    free: Rc<HashMap<u64, Vec<u64>>>,
    pub dom: Vec<Dom>,
    pub model: Vec<u8>,
    pub pc: Pc,
    multi: Rc<Vec<(E, bool)>>,
    multi_vars: u128,
    known: Rc<HashMap<E, u64>>,
    pub obs: Vec<Val>,
    pub notes: Vec<String>,
    pub covers: Rc<BTreeSet<u32>>,
    pub depth: u32,
    /// instructions executed on this path so far
    pub steps: u64,
    pub expect_panic: bool,
    /// the only files there are: those the run itself created
    pub files: Rc<Vec<(Vec<u8>, Vec<(u8, E)>)>>,
    /// open descriptors: file, position
    fds: Rc<Vec<Option<(usize, usize)>>>,
}

pub enum Stop {
    /// state finished normally
    Done,
    /// path is infeasible (assume(false))
    Cut,
    /// the property is violated on this path
    Fail { kind: &'static str, code: u64, detail: String, model: Option<Vec<u8>> },
    /// engine cannot continue
    Error(String),
}

impl From<BadAddr> for Stop {
    fn from(b: BadAddr) -> Stop {
        Stop::Error(format!("bad address {:#x}", b.0))
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub instrs: u64,
    pub forks: u64,
    pub paths: u64,
    pub cuts: u64,
    pub fast_prunes: u64,
    pub fast_checked: u64,
    pub prof: HashMap<String, u64>,
    pub calls: u64,
    /// Share of the input space removed by sym_choose/sym_assume.
    pub cut_mass: f64,
}

pub struct Engine {
    pub m: &'static Module,
    pub ex: Exprs,
    pub z3: Z3,
    pub work: Vec<State>,
    pub st: Stats,
    pub tls_errno: u64,
    pub panic_names: Vec<&'static str>,
    checked: HashSet<(E, bool, Dom)>,
    checked_multi: HashSet<Vec<(E, bool)>>,
    names: HashMap<u32, Model>,
    
    pub profile: bool,
    pub trace: bool,
    pub max_dom_loads: usize,
    pub deadline: Option<std::time::Instant>,
    /// most instructions a path may take before it counts as not terminating
    pub max_steps: u64,
    mark: u64,
    next_tick: u64,
    pub skip: Vec<String>,
    pub block_cov: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Model {
    None,
    Defined,
    Panic,
    Memcpy,
    Memset,
    Memcmp,
    Strlen,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    Bswap,
    Bitreverse,
    Ident,
    Ovf(Op, bool),
    Umin,
    Umax,
    Smin,
    Smax,
    UsubSat,
    UaddSat,
    Ucmp,
    Scmp,
    Abs,
    Zero,
    Trap,
    Exit,
    Mkdir,
    Rename,
    Unlink,
    Strerror,
    Pshufb,
    LoadRel,
    SymU8,
    SymChoose,
    SymAssume,
    SymAssert,
    SymFail,
    SymObserve,
    SymCover,
    SymExpectPanic,
    SymStderr,
    SymFile,
    Open,
    Close,
    Read,
    Writev,
    NoFile,
    Lseek,
    SymNote,
    SymConcrete,
    Errno,
    Write,
    Syscall,
    MinusOne,
    One,
    Reduce(u8),
    Unknown,
    Skip,
    Ucast,
}

#[inline]
fn mk(w: u32, v: u64) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}
#[inline]
fn sx64(w: u32, v: u64) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

impl State {
    /// Share of the inputs that the byte domains of this state admit.
    pub fn mass(&self) -> f64 {
        self.dom.iter().map(|d| d.iter().map(|x| x.count_ones()).sum::<u32>() as f64 / 256.0).product()
    }
}

impl Engine {
    pub fn new(m: &'static Module) -> Self {
        Engine {
            m,
            ex: Exprs::new(),
            z3: Z3::new(),
            work: vec![],
            st: Stats::default(),
            tls_errno: 0,
            panic_names: vec![
                "4core9panicking9panic_fmt",
                "4core9panicking18panic_nounwind",
                "4core9panicking19panic_cannot_unwind",
                "4core9panicking16panic_in_cleanup",
                "rust_begin_unwind",
                "3std9panicking",
                "rust_panic_with_hook",
                "17handle_alloc_error",
                "4core9panicking",
                "18panic_bounds_check",
                "3std7process5abort",
                "10exit_inner",
            ],
            checked: HashSet::new(),
            checked_multi: HashSet::new(),
            profile: std::env::var("SYMEX_PROF").is_ok(),
            names: HashMap::new(),
            
            trace: false,
            max_dom_loads: 256,
            deadline: None,
            max_steps: u64::MAX,
            mark: 0,
            next_tick: 0,
            skip: vec![],
            block_cov: true,
        }
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let mut mem = Mem::new();
        mem.map(GLOBAL_BASE, self.m.global_end - GLOBAL_BASE + 4096);
        for (_n, g) in self.m.globals.iter() {
            if !g.has_init {
                continue;
            }
            let tk = tokenize(&self.m.text[g.init.0..g.init.1], true);
            let mut p = P { t: tk, i: 0, m: self.m };
            let t = p.ty();
            let v = p.konst(&t);
            let mut b = vec![];
            const_bytes(&v, &t, &mut b);
            for (i, c) in b.iter().enumerate() {
                if *c != 0 {
                    mem.set_byte(g.addr + i as u64, *c, 0).unwrap();
                }
            }
        }
        mem.map(STACK_BASE, 1 << 20);
        mem.map(HEAP_BASE, 1 << 20);
        self.tls_errno = HEAP_BASE;
        let ix = *self.m.fn_ix.borrow().get(entry).unwrap_or_else(|| panic!("no function {}", entry));
        let f = self.m.lower(ix);
        State {
            frames: vec![Frame { f, ip: 0, base: 0, ret: None, sp: STACK_BASE }],
            regs: vec![Val::C(0); f.nregs as usize],
            mem,
            sp: STACK_BASE,
            stack_hi: STACK_BASE + (1 << 20),
            heap: HEAP_BASE + 64,
            heap_hi: HEAP_BASE + (1 << 20),
            free: Rc::new(HashMap::new()),
            dom: vec![],
            model: vec![],
            pc: None,
            multi: Rc::new(vec![]),
            multi_vars: 0,
            known: Rc::new(HashMap::new()),
            obs: vec![],
            notes: vec![],
            covers: Rc::new(BTreeSet::new()),
            depth: 0,
            steps: 0,
            expect_panic: false,
            files: Rc::new(vec![]),
            fds: Rc::new(vec![]),
        }
    }

    // ---------- constraints ----------
    fn dom_of(t: &Table, val: bool) -> Dom {
        let mut d = [0u64; 4];
        for i in 0..256 {
            if (t[i] != 0) == val {
                d[i >> 6] |= 1 << (i & 63);
            }
        }
        d
    }
    fn and(a: &Dom, b: &Dom) -> Dom {
        [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
    }
    fn empty(d: &Dom) -> bool {
        d.iter().all(|&x| x == 0)
    }
    fn has(d: &Dom, i: u8) -> bool {
        d[(i >> 6) as usize] >> (i & 63) & 1 == 1
    }
    fn first(d: &Dom) -> u8 {
        for k in 0..4 {
            if d[k] != 0 {
                return (k * 64) as u8 + d[k].trailing_zeros() as u8;
            }
        }
        0
    }
    /// Value of a single-byte expression under the state's domain, if unique.
    fn uniq(&mut self, s: &State, e: E) -> Option<u64> {
        let v = self.ex.single(e)?;
        let d = &s.dom[v as usize];
        let t = self.ex.table(e);
        let mut r = None;
        for k in 0..4 {
            let mut x = d[k];
            while x != 0 {
                let i = k * 64 + x.trailing_zeros() as usize;
                x &= x - 1;
                match r {
                    None => r = Some(t[i]),
                    Some(y) if y != t[i] => return None,
                    _ => {}
                }
            }
        }
        r
    }
    fn simp(&mut self, s: &State, e: E) -> E {
        if self.ex.supp[e as usize] == 0 {
            return e;
        }
        if let Some(&k) = s.known.get(&e) {
            let w = self.ex.w(e);
            return self.ex.konst(w, k as u128);
        }
        if self.ex.single(e).is_some() {
            return match self.uniq(s, e) {
                Some(k) => {
                    let w = self.ex.w(e);
                    self.ex.konst(w, k as u128)
                }
                None => e,
            };
        }
        let mut memo = HashMap::new();
        let known = s.known.clone();
        let dom: Vec<Dom> = s.dom.clone();
        self.ex.subst(
            e,
            &mut |ex: &mut Exprs, x: E| {
                if let Some(&k) = known.get(&x) {
                    return Some(k as u128);
                }
                let v = ex.single(x)?;
                let t = ex.table(x);
                let d = &dom[v as usize];
                let mut r: Option<u64> = None;
                for i in 0..256usize {
                    if d[i >> 6] >> (i & 63) & 1 == 1 {
                        match r {
                            None => r = Some(t[i]),
                            Some(y) if y != t[i] => return None,
                            _ => {}
                        }
                    }
                }
                r.map(|x| x as u128)
            },
            &mut memo,
        )
    }
    fn pc_conds(s: &State, vars: u128, ex: &Exprs) -> Vec<(E, bool)> {
        let mut o = vec![];
        let mut p = &s.pc;
        while let Some(n) = p {
            if ex.supp[n.cond as usize] & vars != 0 {
                o.push((n.cond, n.pol));
            }
            p = &n.next;
        }
        o
    }
    fn closure_vars(&self, s: &State, mut vars: u128) -> u128 {
        loop {
            let v0 = vars;
            for (e, _) in s.multi.iter() {
                let su = self.ex.supp[*e as usize];
                if su & vars != 0 {
                    vars |= su;
                }
            }
            if v0 == vars {
                return vars;
            }
        }
    }
    fn var_list(vars: u128) -> Vec<u32> {
        (0..128).filter(|i| vars >> i & 1 == 1).collect()
    }
    /// Is `e == pol` feasible in `s`? Gives an updated model.
    fn feasible(&mut self, s: &State, e: E, pol: bool) -> Option<Vec<u8>> {
        if let Some(k) = self.ex.is_const(e) {
            return if (k != 0) == pol { Some(s.model.clone()) } else { None };
        }
        if (self.ex.eval(e, &s.model) != 0) == pol {
            return Some(s.model.clone());
        }
        let su = self.ex.supp[e as usize];
        if let Some(v) = self.ex.single(e) {
            let t = self.ex.table(e);
            let d = Self::and(&s.dom[v as usize], &Self::dom_of(&t, pol));
            if su & s.multi_vars == 0 {
                if Self::empty(&d) {
                    // the solver confirms every pruning decision of the byte domains
                    self.st.fast_prunes += 1;
                    if self.checked.insert((e, pol, s.dom[v as usize])) {
                        self.st.fast_checked += 1;
                        let mut c = Self::pc_conds(s, su, &self.ex);
                        c.push((e, pol));
                        if let Res::Sat(_) = self.z3.check(&mut self.ex, &c, &[v]) {
                            eprintln!("engine: byte domain disagrees with the solver");
                            std::process::exit(72);
                        }
                    }
                    return None;
                }
                let mut m = s.model.clone();
                m[v as usize] = Self::first(&d);
                return Some(m);
            }
            if Self::empty(&d) {
                return None;
            }
        }
        let vars = self.closure_vars(s, su);
        let mut c = Self::pc_conds(s, vars, &self.ex);
        c.push((e, pol));
        let vl = Self::var_list(vars);
        match self.z3.check(&mut self.ex, &c, &vl) {
            Res::Unsat => None,
            Res::Sat(vals) => {
                let mut m = s.model.clone();
                for (v, x) in vals {
                    m[v as usize] = x;
                }
                Some(m)
            }
        }
    }
    fn add(&mut self, s: &mut State, e: E, pol: bool, model: Vec<u8>) {
        s.model = model;
        if self.ex.is_const(e).is_some() {
            return;
        }
        s.pc = Some(Rc::new(PcNode { cond: e, pol, next: s.pc.take() }));
        if let Some(v) = self.ex.single(e) {
            let t = self.ex.table(e);
            s.dom[v as usize] = Self::and(&s.dom[v as usize], &Self::dom_of(&t, pol));
        } else {
            Rc::make_mut(&mut s.multi).push((e, pol));
            s.multi_vars |= self.ex.supp[e as usize];
            Rc::make_mut(&mut s.known).insert(e, pol as u64);
        }
    }
    fn restrict(&mut self, s: &mut State, e: E, model: Vec<u8>) {
        let a = s.mass();
        self.add(s, e, true, model);
        self.st.cut_mass += a - s.mass();
    }
    /// A branch side was dropped by the byte domains: the solver must agree.
    fn confirm(&mut self, s: &State, e: E, k: bool) {
        if self.ex.supp[e as usize] == 0 {
            return;
        }
        if self.profile {
            let mut b = self.backtrace(s);
            b.truncate(80);
            b.push_str(&self.ex.show(e, 9));
            *self.st.prof.entry(b).or_insert(0) += 1;
        }
        self.st.fast_prunes += 1;
        if let Some(v) = self.ex.single(e) {
            if !self.checked.insert((e, !k, s.dom[v as usize])) {
                return;
            }
            self.st.fast_checked += 1;
            let su = self.ex.supp[e as usize];
            let mut c: Vec<(E, bool)> = Self::pc_conds(s, su, &self.ex).into_iter().filter(|x| self.ex.supp[x.0 as usize] == su).collect();
            c.push((e, !k));
            if let Res::Sat(_) = self.z3.check(&mut self.ex, &c, &[v]) {
                eprintln!("engine: byte domain disagrees with the solver");
                std::process::exit(72);
            }
        } else {
            let su = self.ex.supp[e as usize];
            let vars = self.closure_vars(s, su);
            let mut c = Self::pc_conds(s, vars, &self.ex);
            c.push((e, !k));
            let mut h: Vec<(E, bool)> = c.clone();
            h.sort();
            if !self.checked_multi.insert(h) {
                return;
            }
            self.st.fast_checked += 1;
            if let Res::Sat(_) = self.z3.check(&mut self.ex, &c, &[]) {
                eprintln!("engine: simplifier disagrees with the solver");
                std::process::exit(73);
            }
        }
    }
    /// Decide a 1-bit condition, forking the other side when both are feasible.
    fn decide(&mut self, s: &mut State, c: &Val) -> Result<bool, Stop> {
        let e = match c {
            Val::C(x) => return Ok(*x & 1 == 1),
            Val::S(e) => *e,
            _ => return Err(Stop::Error("aggregate condition".into())),
        };
        let e0 = e;
        let e = self.simp(s, e);
        if let Some(k) = self.ex.is_const(e) {
            self.confirm(s, e0, k != 0);
            return Ok(k != 0);
        }
        let now = self.ex.eval(e, &s.model) != 0;
        match self.feasible(s, e, !now) {
            None => {
                if self.ex.single(e).is_none() {
                    Rc::make_mut(&mut s.known).insert(e, now as u64);
                }
                Ok(now)
            }
            Some(m2) => {
                self.account(s);
                let mut o = s.clone();
                o.depth += 1;
                self.add(&mut o, e, !now, m2);
                self.work.push(o);
                self.st.forks += 1;
                let m = s.model.clone();
                self.add(s, e, now, m);
                s.depth += 1;
                Ok(now)
            }
        }
    }
    /// Make a value concrete, forking over its feasible values.
    fn conc(&mut self, s: &mut State, v: &Val) -> Result<u64, Stop> {
        let e = match v {
            Val::C(x) => return Ok(*x),
            Val::W(x) => return Ok(**x as u64),
            Val::S(e) => *e,
            _ => return Err(Stop::Error("conc aggregate".into())),
        };
        let e0 = e;
        loop {
            let e = self.simp(s, e);
            if let Some(k) = self.ex.is_const(e) {
                if self.ex.single(e0).is_some() {
                    // the last value left: the solver must find no other
                    let w = self.ex.w(e0);
                    let kk = self.ex.konst(w, k);
                    let eq = self.ex.bin(Op::Eq, e0, kk);
                    self.confirm(s, eq, true);
                }
                return Ok(k as u64);
            }
            if self.ex.single(e).is_some() {
                let k = self.ex.eval(e, &s.model);
                let w = self.ex.w(e);
                let kk = self.ex.konst(w, k);
                let eq = self.ex.bin(Op::Eq, e, kk);
                let r = self.decide(s, &Val::S(eq))?;
                debug_assert!(r);
                return Ok(k as u64);
            }
            // concretise a maximal single-byte part first
            if let Some(sub) = self.sub_single(e) {
                let k = self.ex.eval(sub, &s.model);
                let w = self.ex.w(sub);
                let kk = self.ex.konst(w, k);
                let eq = self.ex.bin(Op::Eq, sub, kk);
                let _ = self.decide(s, &Val::S(eq))?;
                continue;
            }
            let k = self.ex.eval(e, &s.model);
            let w = self.ex.w(e);
            let kk = self.ex.konst(w, k);
            let eq = self.ex.bin(Op::Eq, e, kk);
            let _ = self.decide(s, &Val::S(eq))?;
            Rc::make_mut(&mut s.known).insert(e, k as u64);
            return Ok(k as u64);
        }
    }
    fn sub_single(&mut self, e: E) -> Option<E> {
        let want = self.ex.supp[e as usize].trailing_zeros();
        let mut seen = HashSet::new();
        let mut st = vec![e];
        let mut best: Option<(usize, E)> = None;
        while let Some(x) = st.pop() {
            if !seen.insert(x) || self.ex.supp[x as usize] == 0 {
                continue;
            }
            if let Some(v) = self.ex.single(x) {
                if v == want {
                    let t = self.ex.table(x);
                    let n = t.iter().collect::<HashSet<_>>().len();
                    if best.map_or(true, |(m, _)| n > m) {
                        best = Some((n, x));
                    }
                }
                continue;
            }
            let n = self.ex.nodes[x as usize].clone();
            match n.op {
                Op::Const | Op::Var => {}
                Op::ZExt | Op::SExt | Op::Extract | Op::Sel => st.push(n.a),
                Op::Ite => st.extend([n.a, n.b, n.c]),
                _ => st.extend([n.a, n.b]),
            }
        }
        best.map(|b| b.1)
    }
    // ---------- scalar operations ----------
    fn e_of(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(x) => self.ex.konst(w, *x as u128),
            Val::W(x) => self.ex.konst(w, **x),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v_of(&mut self, s: &State, e: E) -> Val {
        if let Some(k) = self.ex.is_const(e) {
            return cval(self.ex.w(e), k);
        }
        if let Some(v) = self.ex.single(e) {
            let d = &s.dom[v as usize];
            if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                let t = self.ex.table(e);
                return Val::C(t[Self::first(d) as usize]);
            }
        }
        Val::S(e)
    }
    fn bin(&mut self, s: &State, op: Op, w: u32, a: &Val, b: &Val) -> Result<Val, Stop> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                Op::Add => x.wrapping_add(y),
                Op::Sub => x.wrapping_sub(y),
                Op::Mul => x.wrapping_mul(y),
                Op::And => x & y,
                Op::Or => x | y,
                Op::Xor => x ^ y,
                Op::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                Op::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                Op::UDiv if y != 0 => x / y,
                Op::URem if y != 0 => x % y,
                _ => {
                    if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && y == 0 {
                        return Err(Stop::Error("division by zero".into()));
                    }
                    eval_op(op, w, w, x as u128, y as u128, 0, 0) as u64
                }
            };
            return Ok(Val::C(mk(w, r)));
        }
        if matches!(a, Val::A(_)) || matches!(b, Val::A(_)) {
            return Err(Stop::Error("bin on aggregate".into()));
        }
        if !matches!(a, Val::S(_)) && !matches!(b, Val::S(_)) {
            let r = eval_op(op, w, w, to_u128(a), to_u128(b), 0, 0);
            return Ok(cval(w, r));
        }
        let x = self.e_of(a, w);
        let y = self.e_of(b, w);
        let e = self.ex.bin(op, x, y);
        Ok(self.v_of(s, e))
    }
    fn icmp(&mut self, s: &State, p: Pred, w: u32, a: &Val, b: &Val) -> Result<Val, Stop> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx64(w, x) < sx64(w, y),
                Pred::Sle => sx64(w, x) <= sx64(w, y),
                Pred::Sgt => sx64(w, x) > sx64(w, y),
                Pred::Sge => sx64(w, x) >= sx64(w, y),
            };
            return Ok(Val::C(r as u64));
        }
        let (op, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Sle, true, false),
        };
        let x = self.e_of(a, w);
        let y = self.e_of(b, w);
        let e = if sw { self.ex.bin(op, y, x) } else { self.ex.bin(op, x, y) };
        let e = if neg { self.ex.not(e) } else { e };
        Ok(self.v_of(s, e))
    }
    fn cast(&mut self, s: &State, k: Cast, from: u32, to: u32, a: &Val) -> Result<Val, Stop> {
        match a {
            Val::C(x) => Ok(match k {
                Cast::Copy => Val::C(*x),
                Cast::Zext => cval(to, *x as u128),
                Cast::Sext => cval(to, sx64(from, *x) as i128 as u128),
                Cast::Trunc => Val::C(mk(to, *x)),
            }),
            Val::W(x) => Ok(match k {
                Cast::Copy => a.clone(),
                Cast::Trunc => cval(to, **x),
                _ => return Err(Stop::Error("wide ext".into())),
            }),
            Val::S(e) => {
                let r = match k {
                    Cast::Copy => *e,
                    Cast::Zext => self.ex.zext(*e, to),
                    Cast::Sext => self.ex.sext(*e, to),
                    Cast::Trunc => self.ex.extract(*e, 0, to),
                };
                Ok(self.v_of(s, r))
            }
            Val::A(_) => {
                if k == Cast::Copy {
                    Ok(a.clone())
                } else {
                    Err(Stop::Error("cast aggregate".into()))
                }
            }
        }
    }
    fn ite(&mut self, s: &State, c: E, a: &Val, b: &Val, t: &Ty) -> Result<Val, Stop> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                if let (Val::C(x), Val::C(y)) = (a, b) {
                    if x == y {
                        return Ok(a.clone());
                    }
                }
                let x = self.e_of(a, t.bits());
                let y = self.e_of(b, t.bits());
                let e = self.ex.ite(c, x, y);
                Ok(self.v_of(s, e))
            }
            _ => {
                let (x, y) = match (a, b) {
                    (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
                    _ => return Err(Stop::Error("ite shape".into())),
                };
                let mut o = vec![];
                for i in 0..x.len() {
                    let ft = t.field(i).1;
                    o.push(self.ite(s, c, &x[i], &y[i], &ft)?);
                }
                Ok(Val::A(Rc::new(o)))
            }
        }
    }
    // ---------- memory ----------
    fn load_scalar(&mut self, s: &State, addr: u64, n: usize, w: u32) -> Result<Val, Stop> {
        if n <= 8 {
            if let Some(v) = s.mem.read(addr, n)? {
                return Ok(Val::C(mk(w, v)));
            }
        }
        let mut any = false;
        let mut bytes = Vec::with_capacity(n);
        for i in 0..n {
            let b = s.mem.byte(addr + i as u64)?;
            any |= b.1 != 0;
            bytes.push(b);
        }
        if !any {
            let mut r = 0u128;
            for (i, b) in bytes.iter().enumerate() {
                r |= (b.0 as u128) << (8 * i);
            }
            return Ok(cval(w, r));
        }
        let mut e: Option<E> = None;
        for b in bytes.iter() {
            let x = if b.1 != 0 { b.1 } else { self.ex.konst(8, b.0 as u128) };
            e = Some(match e {
                None => x,
                Some(lo) => self.ex.concat(x, lo),
            });
        }
        let mut e = e.unwrap();
        if self.ex.w(e) > w {
            e = self.ex.extract(e, 0, w);
        }
        Ok(self.v_of(s, e))
    }
    fn store_scalar(&mut self, s: &mut State, addr: u64, n: usize, w: u32, v: &Val) -> Result<(), Stop> {
        match v {
            Val::C(x) => {
                if n <= 8 {
                    s.mem.write(addr, n, mk(w, *x))?;
                } else {
                    s.mem.write(addr, 8, *x)?;
                    s.mem.fill(addr + 8, 0, n as u64 - 8)?;
                }
            }
            Val::W(x) => {
                for i in 0..n {
                    s.mem.set_byte(addr + i as u64, (**x >> (8 * i)) as u8, 0)?;
                }
            }
            Val::S(e) => {
                let mut e = *e;
                if w < 8 * n as u32 {
                    e = self.ex.zext(e, 8 * n as u32);
                }
                for i in 0..n {
                    let b = self.ex.extract(e, 8 * i as u32, 8);
                    match self.ex.is_const(b) {
                        Some(k) => s.mem.set_byte(addr + i as u64, k as u8, 0)?,
                        None => s.mem.set_byte(addr + i as u64, 0, b)?,
                    }
                }
            }
            Val::A(_) => return Err(Stop::Error("store aggregate".into())),
        }
        Ok(())
    }
    fn load_ty(&mut self, s: &State, addr: u64, t: &Ty) -> Result<Val, Stop> {
        match t {
            Ty::Vec(_, e) if e.bits() < 8 => Err(Stop::Error("load bit vector".into())),
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let mut o = vec![];
                for i in 0..t.nfields() {
                    let (off, ft) = t.field(i);
                    o.push(self.load_ty(s, addr + off, &ft)?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            _ => self.load_scalar(s, addr, t.store_size() as usize, t.bits()),
        }
    }
    fn store_ty(&mut self, s: &mut State, addr: u64, t: &Ty, v: &Val) -> Result<(), Stop> {
        match t {
            Ty::Vec(_, e) if e.bits() < 8 => Err(Stop::Error("store bit vector".into())),
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                if let Val::A(a) = v {
                    for i in 0..t.nfields() {
                        let (off, ft) = t.field(i);
                        self.store_ty(s, addr + off, &ft, &a[i])?;
                    }
                    Ok(())
                } else {
                    Err(Stop::Error("store shape".into()))
                }
            }
            _ => self.store_scalar(s, addr, t.store_size() as usize, t.bits(), v),
        }
    }
    /// Load through a symbolic address.
    fn load_sym(&mut self, s: &mut State, a: E, n: usize, w: u32) -> Result<Val, Stop> {
        let a = self.simp(s, a);
        if let Some(k) = self.ex.is_const(a) {
            return self.load_scalar(s, k as u64, n, w);
        }
        if let Some(v) = self.ex.single(a) {
            let t = self.ex.table(a);
            let d = s.dom[v as usize];
            let mut addrs = BTreeSet::new();
            for i in 0..256usize {
                if Self::has(&d, i as u8) {
                    addrs.insert(t[i]);
                }
            }
            let mut tab = vec![];
            let mut ok = true;
            for &x in &addrs {
                match s.mem.read(x, n) {
                    Ok(Some(y)) if n <= 8 => tab.push((x, mk(w, y))),
                    Ok(_) => {
                        ok = false;
                        break;
                    }
                    Err(b) => return Err(b.into()),
                }
            }
            if ok {
                if tab.iter().all(|x| x.1 == tab[0].1) {
                    return Ok(Val::C(tab[0].1));
                }
                let e = self.ex.sel(a, w, tab);
                return Ok(self.v_of(s, e));
            }
            if addrs.len() <= 16 {
                let mut r: Option<E> = None;
                for &x in &addrs {
                    let y = self.load_scalar(s, x, n, w)?;
                    let ye = self.e_of(&y, w);
                    r = Some(match r {
                        None => ye,
                        Some(o) => {
                            let k = self.ex.konst(64, x as u128);
                            let c = self.ex.bin(Op::Eq, a, k);
                            self.ex.ite(c, ye, o)
                        }
                    });
                }
                return Ok(self.v_of(s, r.unwrap()));
            }
        }
        let k = self.conc(s, &Val::S(a))?;
        self.load_scalar(s, k, n, w)
    }

    // ---------- allocation ----------
    fn class(n: u64) -> u64 {
        let n = n.max(16);
        if n <= 1024 {
            (n + 15) / 16 * 16
        } else {
            n.next_power_of_two()
        }
    }
    fn malloc(&mut self, s: &mut State, n: u64, align: u64) -> Result<u64, Stop> {
        if n > 64 << 20 {
            return Err(Stop::Error(format!("malloc({})", n)));
        }
        let c = Self::class(n);
        if align <= 16 {
            if let Some(v) = Rc::make_mut(&mut s.free).get_mut(&c) {
                if let Some(a) = v.pop() {
                    return Ok(a);
                }
            }
        }
        let mut a = s.heap + 16;
        a = (a + align.max(16) - 1) / align.max(16) * align.max(16);
        let end = a + c;
        while end + 64 > s.heap_hi {
            s.mem.map(s.heap_hi, 1 << 20);
            s.heap_hi += 1 << 20;
        }
        s.mem.write(a - 8, 8, c)?;
        s.heap = end;
        Ok(a)
    }
    fn free(&mut self, s: &mut State, a: u64) -> Result<(), Stop> {
        if a == 0 {
            return Ok(());
        }
        let c = match s.mem.read(a - 8, 8)? {
            Some(c) => c,
            None => return Err(Stop::Error("heap header".into())),
        };
        Rc::make_mut(&mut s.free).entry(c).or_default().push(a);
        Ok(())
    }

    // ---------- models ----------
    fn model_of(&mut self, ix: u32) -> Model {
        if let Some(&m) = self.names.get(&ix) {
            return m;
        }
        let (name, kind) = {
            let f = self.m.fns.borrow();
            (f[ix as usize].name.clone(), f[ix as usize].kind)
        };
        let n = name.as_str();
        let ovf = |n: &str| -> Option<Model> {
            let r = n.strip_prefix("llvm.")?;
            for (p, op, sg) in [
                ("uadd.with.overflow", Op::Add, false),
                ("sadd.with.overflow", Op::Add, true),
                ("usub.with.overflow", Op::Sub, false),
                ("ssub.with.overflow", Op::Sub, true),
                ("umul.with.overflow", Op::Mul, false),
                ("smul.with.overflow", Op::Mul, true),
            ] {
                if r.starts_with(p) {
                    return Some(Model::Ovf(op, sg));
                }
            }
            None
        };
        let m = if kind == FKind::Defined {
            if self.panic_names.iter().any(|p| n.contains(p)) && !n.contains("panic_count") && !n.contains("panicking11panic_count") && !n.contains("12catch_unwind") && !n.contains("9panicking9panicking") && !n.contains("do_call") {
                Model::Panic
            } else if self.skip.iter().any(|p| n.contains(p.as_str())) {
                Model::Skip
            } else {
                match n {
                    "memcpy" | "memmove" => Model::Memcpy,
                    "memcmp" | "bcmp" => Model::Memcmp,
                    "strlen" => Model::Strlen,
                    "memset" => Model::Memset,
                    "sym_u8" => Model::SymU8,
                    "sym_choose" => Model::SymChoose,
                    "sym_assume" => Model::SymAssume,
                    "sym_assert" => Model::SymAssert,
                    "sym_fail" => Model::SymFail,
                    "sym_observe" => Model::SymObserve,
                    "sym_cover" => Model::SymCover,
                    "sym_expect_panic" => Model::SymExpectPanic,
                    "sym_stderr" => Model::SymStderr,
                    "sym_file" => Model::SymFile,
                    "sym_note" => Model::SymNote,
                    "sym_concrete" => Model::SymConcrete,
                    _ => Model::Defined,
                }
            }
        } else if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") || n == "memcpy" || n == "memmove" {
            Model::Memcpy
        } else if n.starts_with("llvm.memset") || n == "memset" {
            Model::Memset
        } else if let Some(m) = ovf(n) {
            m
        } else if let Some(r) = n.strip_prefix("llvm.") {
            let pre = |p: &str| r.starts_with(p);
            if pre("ctlz") {
                Model::Ctlz
            } else if pre("cttz") {
                Model::Cttz
            } else if pre("ctpop") {
                Model::Ctpop
            } else if pre("fshl") {
                Model::Fshl
            } else if pre("fshr") {
                Model::Fshr
            } else if pre("bswap") {
                Model::Bswap
            } else if pre("bitreverse") {
                Model::Bitreverse
            } else if pre("threadlocal.address") || pre("expect") || pre("launder.invariant") || pre("ssa.copy") || pre("ptrmask") {
                Model::Ident
            } else if pre("umin") {
                Model::Umin
            } else if pre("umax") {
                Model::Umax
            } else if pre("smin") {
                Model::Smin
            } else if pre("smax") {
                Model::Smax
            } else if pre("usub.sat") {
                Model::UsubSat
            } else if pre("uadd.sat") {
                Model::UaddSat
            } else if pre("ucmp") {
                Model::Ucmp
            } else if pre("scmp") {
                Model::Scmp
            } else if pre("abs") {
                Model::Abs
            } else if pre("is.constant") || pre("prefetch") || pre("x86.sse2.pause") || pre("stacksave") || pre("stackrestore") || pre("invariant") {
                Model::Zero
            } else if pre("trap") || pre("ubsantrap") {
                Model::Trap
            } else if pre("x86.ssse3.pshuf.b") {
                Model::Pshufb
            } else if pre("load.relative") {
                Model::LoadRel
            } else if pre("vector.reduce.or") {
                Model::Reduce(0)
            } else if pre("vector.reduce.and") {
                Model::Reduce(1)
            } else if pre("vector.reduce.add") {
                Model::Reduce(2)
            } else if pre("vector.reduce.xor") {
                Model::Reduce(3)
            } else if pre("vector.reduce.umax") {
                Model::Reduce(4)
            } else if pre("vector.reduce.umin") {
                Model::Reduce(5)
            } else {
                Model::Unknown
            }
        } else {
            match n {
                "memcmp" | "bcmp" => Model::Memcmp,
                "strlen" => Model::Strlen,
                "malloc" => Model::Malloc,
                "calloc" => Model::Calloc,
                "realloc" => Model::Realloc,
                "free" => Model::Free,
                "posix_memalign" => Model::PosixMemalign,
                "aligned_alloc" => Model::AlignedAlloc,
                "getenv" | "fcntl" | "fcntl64" | "fsync" | "flock" => Model::Zero,
                "open64" | "open" => Model::Open,
                "close" => Model::Close,
                "mkdir" => Model::Mkdir,
                "rename" => Model::Rename,
                "unlink" => Model::Unlink,
                "__xpg_strerror_r" | "strerror_r" => Model::Strerror,
                "read" => Model::Read,
                "lseek64" | "lseek" => Model::Lseek,
                "stat64" | "lstat64" | "fstat64" | "statx" | "access" => Model::NoFile,
                "sched_getaffinity" | "readlink" => Model::MinusOne,
                "sysconf" => Model::One,
                "__errno_location" => Model::Errno,
                "write" => Model::Write,
                "writev" => Model::Writev,
                "syscall" => Model::Syscall,
                "getrandom" => Model::Syscall,
                "exit" => Model::Exit,
                "abort" | "_exit" => Model::Trap,
                "sym_u8" => Model::SymU8,
                "sym_choose" => Model::SymChoose,
                "sym_assume" => Model::SymAssume,
                "sym_assert" => Model::SymAssert,
                "sym_fail" => Model::SymFail,
                "sym_observe" => Model::SymObserve,
                "sym_cover" => Model::SymCover,
                    "sym_expect_panic" => Model::SymExpectPanic,
                    "sym_stderr" => Model::SymStderr,
                    "sym_file" => Model::SymFile,
                "sym_note" => Model::SymNote,
                "sym_concrete" => Model::SymConcrete,
                _ => Model::Unknown,
            }
        };
        self.names.insert(ix, m);
        m
    }
    fn per_elem<F: FnMut(&mut Self, &[&Val]) -> Result<Val, Stop>>(&mut self, args: &[Val], mut f: F) -> Result<Val, Stop> {
        if let Val::A(v) = &args[0] {
            let n = v.len();
            let mut o = vec![];
            for i in 0..n {
                let xs: Vec<Val> = args
                    .iter()
                    .map(|a| match a {
                        Val::A(v) => v[i].clone(),
                        x => x.clone(),
                    })
                    .collect();
                let r: Vec<&Val> = xs.iter().collect();
                o.push(f(self, &r)?);
            }
            Ok(Val::A(Rc::new(o)))
        } else {
            let r: Vec<&Val> = args.iter().collect();
            f(self, &r)
        }
    }
    fn sel2(&mut self, s: &State, c: &Val, a: &Val, b: &Val, w: u32) -> Result<Val, Stop> {
        match c {
            Val::C(x) => Ok(if *x & 1 == 1 { a.clone() } else { b.clone() }),
            Val::S(e) => self.ite(s, *e, a, b, &Ty::Int(w)),
            _ => Err(Stop::Error("sel2".into())),
        }
    }
    fn location(&self, s: &State, addr: u64) -> String {
        let rd = |a: u64, n: usize| s.mem.read(a, n).ok().flatten();
        if let (Some(p), Some(l), Some(line), Some(col)) = (rd(addr, 8), rd(addr + 8, 8), rd(addr + 16, 4), rd(addr + 20, 4)) {
            if l > 0 && l < 400 {
                let mut o = String::new();
                for i in 0..l {
                    match s.mem.byte(p + i) {
                        Ok((b, 0)) if b.is_ascii_graphic() || b == b' ' => o.push(b as char),
                        _ => return String::new(),
                    }
                }
                return format!("{}:{}:{}", o, line, col);
            }
        }
        String::new()
    }
    pub fn backtrace(&self, s: &State) -> String {
        let mut o = String::new();
        for f in s.frames.iter().rev().take(12) {
            o.push_str(&f.f.name);
            o.push_str(" < ");
        }
        o
    }
    fn external(&mut self, s: &mut State, mo: Model, ix: u32, args: &[Val], argw: &[u32], ret: &Ty) -> Result<Option<Val>, Stop> {
        let w = argw.first().copied().unwrap_or(0);
        Ok(match mo {
            Model::Panic => {
                let nm = self.m.fns.borrow()[ix as usize].name.clone();
                let mut loc = String::new();
                for a in args.iter().rev() {
                    if let Val::C(x) = a {
                        if *x > 0x10000 {
                            loc = self.location(s, *x);
                            if !loc.is_empty() {
                                break;
                            }
                        }
                    }
                }
                return Err(Stop::Fail { kind: "panic", code: 0, detail: format!("panic at {} ({})", loc, nm), model: None });
            }
            Model::Trap => {
                return Err(Stop::Fail { kind: "panic", code: 1, detail: format!("abort ({})", self.backtrace(s)), model: None });
            }
            Model::Skip | Model::Zero => match ret {
                Ty::Void => None,
                t => Some(zero(t)),
            },
            Model::Memcpy => {
                let n = self.conc(s, &args[2])?;
                if n > 0 {
                    let d = self.conc(s, &args[0])?;
                    let a = self.conc(s, &args[1])?;
                    s.mem.copy(d, a, n)?;
                }
                Some(args[0].clone())
            }
            Model::Memset => {
                let n = self.conc(s, &args[2])?;
                let d = self.conc(s, &args[0])?;
                match &args[1] {
                    Val::C(v) => s.mem.fill(d, *v as u8, n)?,
                    v => {
                        for i in 0..n {
                            let e = self.e_of(v, argw[1]);
                            let e = self.ex.extract(e, 0, 8);
                            self.store_scalar(s, d + i, 1, 8, &Val::S(e))?;
                        }
                    }
                }
                Some(args[0].clone())
            }
            Model::Memcmp => {
                let n = self.conc(s, &args[2])?;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let a = self.conc(s, &args[0])?;
                let b = self.conc(s, &args[1])?;
                // result: sign of the first difference
                let mut diff: Vec<(Val, Val)> = vec![];
                let mut fin: Option<u64> = None;
                for i in 0..n {
                    let x = self.load_scalar(s, a + i, 1, 8)?;
                    let y = self.load_scalar(s, b + i, 1, 8)?;
                    if let (Val::C(x), Val::C(y)) = (&x, &y) {
                        if x == y {
                            continue;
                        }
                        fin = Some(if x < y { 0xffff_ffff } else { 1 });
                        break;
                    }
                    if let (Val::S(x), Val::S(y)) = (&x, &y) {
                        if x == y {
                            continue;
                        }
                    }
                    diff.push((x, y));
                }
                let mut r = Val::C(fin.unwrap_or(0));
                for (x, y) in diff.iter().rev() {
                    let eq = self.icmp(s, Pred::Eq, 8, x, y)?;
                    let lt = self.icmp(s, Pred::Ult, 8, x, y)?;
                    let v = self.sel2(s, &lt, &Val::C(0xffff_ffff), &Val::C(1), 32)?;
                    r = self.sel2(s, &eq, &r, &v, 32)?;
                }
                Some(r)
            }
            Model::Strlen => {
                let a = self.conc(s, &args[0])?;
                let mut n = 0;
                loop {
                    match s.mem.byte(a + n)? {
                        (0, 0) => break,
                        (_, 0) => n += 1,
                        _ => return Err(Stop::Error("strlen of symbolic".into())),
                    }
                }
                Some(Val::C(n))
            }
            Model::Malloc => {
                let n = self.conc(s, &args[0])?;
                Some(Val::C(self.malloc(s, n, 16)?))
            }
            Model::Calloc => {
                let a = self.conc(s, &args[0])?;
                let b = self.conc(s, &args[1])?;
                let p = self.malloc(s, a * b, 16)?;
                s.mem.fill(p, 0, a * b)?;
                Some(Val::C(p))
            }
            Model::Realloc => {
                let p = self.conc(s, &args[0])?;
                let n = self.conc(s, &args[1])?;
                if p == 0 {
                    return Ok(Some(Val::C(self.malloc(s, n, 16)?)));
                }
                let old = s.mem.read(p - 8, 8)?.unwrap_or(0);
                if n <= old {
                    return Ok(Some(Val::C(p)));
                }
                let q = self.malloc(s, n, 16)?;
                s.mem.copy(q, p, old.min(n))?;
                self.free(s, p)?;
                Some(Val::C(q))
            }
            Model::Free => {
                let p = self.conc(s, &args[0])?;
                self.free(s, p)?;
                None
            }
            Model::PosixMemalign => {
                let pp = self.conc(s, &args[0])?;
                let al = self.conc(s, &args[1])?;
                let n = self.conc(s, &args[2])?;
                let p = self.malloc(s, n, al)?;
                s.mem.write(pp, 8, p)?;
                Some(Val::C(0))
            }
            Model::AlignedAlloc => {
                let al = self.conc(s, &args[0])?;
                let n = self.conc(s, &args[1])?;
                Some(Val::C(self.malloc(s, n, al)?))
            }
            Model::Ctlz | Model::Cttz | Model::Ctpop | Model::Bswap | Model::Bitreverse => {
                if let Val::S(e) = &args[0] {
                    let e = *e;
                    let r = match mo {
                        Model::Cttz => {
                            let mut r = self.ex.konst(w, w as u128);
                            for i in (0..w).rev() {
                                let b = self.ex.extract(e, i, 1);
                                let k = self.ex.konst(w, i as u128);
                                r = self.ex.ite(b, k, r);
                            }
                            r
                        }
                        Model::Ctlz => {
                            let mut r = self.ex.konst(w, w as u128);
                            for i in 0..w {
                                let b = self.ex.extract(e, i, 1);
                                let k = self.ex.konst(w, (w - 1 - i) as u128);
                                r = self.ex.ite(b, k, r);
                            }
                            r
                        }
                        Model::Ctpop => {
                            let mut r = self.ex.konst(w, 0);
                            for i in 0..w {
                                let b = self.ex.extract(e, i, 1);
                                let b = self.ex.zext(b, w);
                                r = self.ex.bin(Op::Add, r, b);
                            }
                            r
                        }
                        Model::Bswap => {
                            let mut r = self.ex.extract(e, 0, 8);
                            for i in 1..w / 8 {
                                let b = self.ex.extract(e, 8 * i, 8);
                                r = self.ex.concat(r, b);
                            }
                            r
                        }
                        _ => {
                            let mut r = self.ex.extract(e, 0, 1);
                            for i in 1..w {
                                let b = self.ex.extract(e, i, 1);
                                r = self.ex.concat(r, b);
                            }
                            r
                        }
                    };
                    Some(self.v_of(s, r))
                } else {
                    let f = |x: u64| -> u64 {
                        match mo {
                            Model::Ctlz => {
                                if x == 0 {
                                    w as u64
                                } else {
                                    x.leading_zeros() as u64 - (64 - w as u64)
                                }
                            }
                            Model::Cttz => {
                                if x == 0 {
                                    w as u64
                                } else {
                                    x.trailing_zeros() as u64
                                }
                            }
                            Model::Ctpop => x.count_ones() as u64,
                            Model::Bswap => x.swap_bytes() >> (64 - w),
                            _ => x.reverse_bits() >> (64 - w),
                        }
                    };
                    match &args[0] {
                        Val::C(x) => Some(Val::C(f(*x))),
                        Val::A(v) => {
                            let o: Result<Vec<Val>, Stop> = v
                                .iter()
                                .map(|x| match x {
                                    Val::C(x) => Ok(Val::C(f(*x))),
                                    _ => Err(Stop::Error("sym vector bit op".into())),
                                })
                                .collect();
                            Some(Val::A(Rc::new(o?)))
                        }
                        _ => return Err(Stop::Error("wide bit op".into())),
                    }
                }
            }
            Model::Fshl | Model::Fshr => Some(self.per_elem(args, |me, a| {
                let k = match a[2] {
                    Val::C(k) => (*k % w as u64) as u32,
                    _ => return Err(Stop::Error("fsh symbolic amount".into())),
                };
                if w > 64 {
                    return Err(Stop::Error("wide fsh".into()));
                }
                let k = if mo == Model::Fshl { k } else { (w - k) % w };
                // fshl by k (fshr by k' == fshl by w-k', except k'==0)
                if let (Val::C(x), Val::C(y)) = (a[0], a[1]) {
                    if k == 0 {
                        return Ok(Val::C(if mo == Model::Fshl { *x } else { *y }));
                    }
                    return Ok(Val::C(mk(w, (*x << k) | (*y >> (w - k)))));
                }
                if k == 0 {
                    return Ok(if mo == Model::Fshl { a[0].clone() } else { a[1].clone() });
                }
                let x = me.e_of(a[0], w);
                let y = me.e_of(a[1], w);
                let hi = me.ex.extract(x, 0, w - k);
                let lo = me.ex.extract(y, w - k, k);
                let e = me.ex.concat(hi, lo);
                Ok(me.v_of(s, e))
            })?),
            Model::Ident => Some(args[0].clone()),
            Model::Ovf(op, sg) => {
                if w > 64 {
                    return Err(Stop::Error("wide overflow op".into()));
                }
                let (a, b) = (&args[0], &args[1]);
                let r = self.bin(s, op, w, a, b)?;
                let o = if let (Val::C(x), Val::C(y)) = (a, b) {
                    let t = if sg {
                        let (x, y) = (sx64(w, *x) as i128, sx64(w, *y) as i128);
                        let z = match op {
                            Op::Add => x + y,
                            Op::Sub => x - y,
                            _ => x * y,
                        };
                        let lim = 1i128 << (w - 1);
                        z < -lim || z >= lim
                    } else {
                        let (x, y) = (*x as u128, *y as u128);
                        match op {
                            Op::Add => x + y > mask(w),
                            Op::Sub => x < y,
                            _ => x * y > mask(w),
                        }
                    };
                    Val::C(t as u64)
                } else {
                    let (x, y) = (self.e_of(a, w), self.e_of(b, w));
                    let e = match (op, sg) {
                        (Op::Add, false) => {
                            let z = self.ex.bin(Op::Add, x, y);
                            self.ex.bin(Op::Ult, z, x)
                        }
                        (Op::Sub, false) => self.ex.bin(Op::Ult, x, y),
                        _ => {
                            let w2 = if op == Op::Mul { 2 * w } else { w + 1 };
                            let (x2, y2) = if sg { (self.ex.sext(x, w2), self.ex.sext(y, w2)) } else { (self.ex.zext(x, w2), self.ex.zext(y, w2)) };
                            let z = self.ex.bin(op, x2, y2);
                            let lo = self.ex.extract(z, 0, w);
                            let back = if sg { self.ex.sext(lo, w2) } else { self.ex.zext(lo, w2) };
                            let eq = self.ex.bin(Op::Eq, z, back);
                            self.ex.not(eq)
                        }
                    };
                    self.v_of(s, e)
                };
                Some(Val::A(Rc::new(vec![r, o])))
            }
            Model::Umin | Model::Umax | Model::Smin | Model::Smax => Some(self.per_elem(args, |me, a| {
                let p = match mo {
                    Model::Umin => Pred::Ult,
                    Model::Umax => Pred::Ugt,
                    Model::Smin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = me.icmp(s, p, w, a[0], a[1])?;
                me.sel2(s, &c, a[0], a[1], w)
            })?),
            Model::UsubSat | Model::UaddSat => Some(self.per_elem(args, |me, a| {
                if mo == Model::UsubSat {
                    let c = me.icmp(s, Pred::Ult, w, a[0], a[1])?;
                    let d = me.bin(s, Op::Sub, w, a[0], a[1])?;
                    me.sel2(s, &c, &Val::C(0), &d, w)
                } else {
                    let d = me.bin(s, Op::Add, w, a[0], a[1])?;
                    let c = me.icmp(s, Pred::Ult, w, &d, a[0])?;
                    me.sel2(s, &c, &Val::C(mk(w, u64::MAX)), &d, w)
                }
            })?),
            Model::Ucmp | Model::Scmp => {
                let rw = ret.bits();
                let (lt, gt) = if mo == Model::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(s, lt, w, &args[0], &args[1])?;
                let g = self.icmp(s, gt, w, &args[0], &args[1])?;
                let x = self.sel2(s, &g, &Val::C(1), &Val::C(0), rw)?;
                Some(self.sel2(s, &l, &Val::C(mk(rw, u64::MAX)), &x, rw)?)
            }
            Model::Abs => Some(self.per_elem(args, |me, a| {
                let c = me.icmp(s, Pred::Slt, w, a[0], &Val::C(0))?;
                let n = me.bin(s, Op::Sub, w, &Val::C(0), a[0])?;
                me.sel2(s, &c, &n, a[0], w)
            })?),
            Model::Pshufb => {
                let (a, b) = match (&args[0], &args[1]) {
                    (Val::A(a), Val::A(b)) => (a.clone(), b.clone()),
                    _ => return Err(Stop::Error("pshufb".into())),
                };
                let mut o = vec![];
                for i in 0..16 {
                    match &b[i] {
                        Val::C(k) => o.push(if k & 0x80 != 0 { Val::C(0) } else { a[(k & 15) as usize].clone() }),
                        _ => return Err(Stop::Error("pshufb symbolic".into())),
                    }
                }
                Some(Val::A(Rc::new(o)))
            }
            Model::LoadRel => {
                let p = self.conc(s, &args[0])?;
                let o = self.conc(s, &args[1])?;
                let r = self.load_scalar(s, p.wrapping_add(o), 4, 32)?;
                let r = self.cast(s, Cast::Sext, 32, 64, &r)?;
                Some(self.bin(s, Op::Add, 64, &Val::C(p), &r)?)
            }
            Model::Reduce(k) => {
                let v = match &args[0] {
                    Val::A(v) => v.clone(),
                    _ => return Err(Stop::Error("reduce".into())),
                };
                let mut r = v[0].clone();
                for x in &v[1..] {
                    r = match k {
                        0 => self.bin(s, Op::Or, w, &r, x)?,
                        1 => self.bin(s, Op::And, w, &r, x)?,
                        2 => self.bin(s, Op::Add, w, &r, x)?,
                        3 => self.bin(s, Op::Xor, w, &r, x)?,
                        4 => {
                            let c = self.icmp(s, Pred::Ugt, w, &r, x)?;
                            self.sel2(s, &c, &r, x, w)?
                        }
                        _ => {
                            let c = self.icmp(s, Pred::Ult, w, &r, x)?;
                            self.sel2(s, &c, &r, x, w)?
                        }
                    };
                }
                Some(r)
            }
            Model::SymU8 | Model::SymChoose => {
                let id = self.conc(s, &args[0])? as usize;
                while s.dom.len() <= id {
                    s.dom.push([u64::MAX; 4]);
                    s.model.push(0);
                }
                let e = self.ex.var(id as u32);
                if mo == Model::SymChoose {
                    let n = self.conc(s, &args[1])?;
                    let k = self.ex.konst(8, n as u128);
                    let c = self.ex.bin(Op::Ult, e, k);
                    match self.feasible(s, c, true) {
                        None => return Err(Stop::Cut),
                        Some(m) => self.restrict(s, c, m),
                    }
                }
                Some(self.v_of(s, e))
            }
            Model::SymConcrete => Some(Val::C(self.conc(s, &args[0])?)),
            Model::SymAssume => {
                match &args[0] {
                    Val::C(x) => {
                        if x & 1 == 0 {
                            return Err(Stop::Cut);
                        }
                    }
                    v => {
                        let e = self.e_of(v, w);
                        let e = self.ex.extract(e, 0, 1);
                        let e = self.simp(s, e);
                        match self.feasible(s, e, true) {
                            None => return Err(Stop::Cut),
                            Some(m) => self.restrict(s, e, m),
                        }
                    }
                }
                None
            }
            Model::SymAssert => {
                let code = self.conc(s, &args[1])?;
                match &args[0] {
                    Val::C(x) => {
                        if x & 1 == 0 {
                            return Err(Stop::Fail { kind: "assert", code, detail: String::new(), model: None });
                        }
                    }
                    v => {
                        let e = self.e_of(v, w);
                        let e = self.ex.extract(e, 0, 1);
                        let e = self.simp(s, e);
                        if let Some(m) = self.feasible(s, e, false) {
                            return Err(Stop::Fail { kind: "assert", code, detail: String::new(), model: Some(m) });
                        }
                        let m = s.model.clone();
                        self.add(s, e, true, m);
                    }
                }
                None
            }
            Model::SymFail => {
                let code = self.conc(s, &args[0])?;
                return Err(Stop::Fail { kind: "assert", code, detail: String::new(), model: None });
            }
            Model::SymObserve => {
                s.obs.push(args[0].clone());
                None
            }
            Model::SymCover => {
                let c = self.conc(s, &args[0])? as u32;
                if !s.covers.contains(&c) {
                    Rc::make_mut(&mut s.covers).insert(c);
                }
                None
            }
            Model::SymStderr => {
                let f = Rc::make_mut(&mut s.files);
                match f.iter_mut().find(|f| f.0 == STDERR) {
                    Some(f) => f.1.clear(),
                    None => f.push((STDERR.to_vec(), vec![])),
                }
                None
            }
            Model::SymExpectPanic => {
                s.expect_panic = true;
                None
            }
            Model::SymNote => {
                let p = self.conc(s, &args[0])?;
                let n = self.conc(s, &args[1])?;
                let mut o = vec![];
                for i in 0..n {
                    let (b, e) = s.mem.byte(p + i)?;
                    o.push(if e != 0 { self.ex.eval(e, &s.model) as u8 } else { b });
                }
                s.notes.push(String::from_utf8_lossy(&o).into_owned());
                None
            }
            Model::Errno => Some(Val::C(self.tls_errno)),
            Model::Write => {
                let fd = self.conc(s, &args[0])?;
                if self.full(s, fd) {
                    s.mem.write(self.tls_errno, 4, 28)?;
                    return Ok(Some(Val::C(u64::MAX)));
                }
                if fd >= 100 {
                    let p = self.conc(s, &args[1])?;
                    let n = self.conc(s, &args[2])?;
                    self.file_write(s, fd, p, n)?;
                    Some(Val::C(n))
                } else {
                    if fd == 2 {
                        let p = self.conc(s, &args[1])?;
                        let n = self.conc(s, &args[2])?;
                        self.stderr_write(s, p, n)?;
                    }
                    Some(args[2].clone())
                }
            }
            Model::Writev => {
                let fd = self.conc(s, &args[0])?;
                let v = self.conc(s, &args[1])?;
                let k = self.conc(s, &args[2])?;
                let mut total = 0;
                if self.full(s, fd) {
                    s.mem.write(self.tls_errno, 4, 28)?;
                    return Ok(Some(Val::C(u64::MAX)));
                }
                for i in 0..k {
                    let (p, n) = (s.mem.read(v + 16 * i, 8)?, s.mem.read(v + 16 * i + 8, 8)?);
                    let (Some(p), Some(n)) = (p, n) else { return Err(Stop::Error("writev".into())) };
                    if fd >= 100 {
                        self.file_write(s, fd, p, n)?;
                    } else if fd == 2 {
                        self.stderr_write(s, p, n)?;
                    }
                    total += n;
                }
                Some(Val::C(total))
            }
            Model::Open => {
                let p = self.conc(s, &args[0])?;
                let fl = self.conc(s, &args[1])?;
                let name = self.name_at(s, p)?;
                // directories are entries whose names end with a slash
                let mut dir = name.clone();
                dir.push(b'/');
                let is_dir = s.files.iter().any(|f| f.0 == dir);
                let parent = name.iter().rposition(|b| *b == b'/').map(|i| name[..=i].to_vec());
                let orphan = name != DEV_FULL && parent.is_some_and(|d| !s.files.iter().any(|f| f.0 == d));
                let ix = s.files.iter().position(|f| f.0 == name);
                let files = s.files.clone();
                let fx = Rc::make_mut(&mut s.files);
                let ix = match ix {
                    _ if name.is_empty() || orphan => Err(2u64),
                    None if is_dir && fl & 3 != 0 => Err(21),
                    None if is_dir => Ok(files.iter().position(|f| f.0 == dir).unwrap()),
                    // O_CREAT with O_EXCL
                    Some(_) if fl & 0x40 != 0 && fl & 0x80 != 0 => Err(17u64),
                    Some(i) => {
                        // O_TRUNC
                        if fl & 0x200 != 0 {
                            fx[i].1.clear();
                        }
                        Ok(i)
                    }
                    None if fl & 0x40 != 0 || name == DEV_FULL => {
                        fx.push((name, vec![]));
                        Ok(fx.len() - 1)
                    }
                    None => Err(2),
                };
                match ix {
                    Ok(i) => {
                        // O_APPEND
                        let at = if fl & 0x400 != 0 { fx[i].1.len() } else { 0 };
                        let t = Rc::make_mut(&mut s.fds);
                        t.push(Some((i, at)));
                        Some(Val::C(99 + t.len() as u64))
                    }
                    Err(no) => {
                        s.mem.write(self.tls_errno, 4, no)?;
                        Some(Val::C(mk(ret.bits(), u64::MAX)))
                    }
                }
            }
            Model::Mkdir => {
                let p = self.conc(s, &args[0])?;
                let mut name = self.name_at(s, p)?;
                name.push(b'/');
                if s.files.iter().any(|f| f.0 == name) {
                    s.mem.write(self.tls_errno, 4, 17)?;
                    return Ok(Some(Val::C(mk(ret.bits(), u64::MAX))));
                }
                Rc::make_mut(&mut s.files).push((name, vec![]));
                Some(Val::C(0))
            }
            Model::Rename | Model::Unlink => {
                let p = self.conc(s, &args[0])?;
                let name = self.name_at(s, p)?;
                let Some(i) = s.files.iter().position(|f| f.0 == name) else {
                    s.mem.write(self.tls_errno, 4, 2)?;
                    return Ok(Some(Val::C(mk(ret.bits(), u64::MAX))));
                };
                // descriptors refer to entries by number: none is removed, a name nobody can ask for stays
                let gone = b"\0".to_vec();
                let to = if mo == Model::Rename {
                    let q = self.conc(s, &args[1])?;
                    self.name_at(s, q)?
                } else {
                    gone.clone()
                };
                let f = Rc::make_mut(&mut s.files);
                if let Some(j) = f.iter().position(|f| f.0 == to && to != gone) {
                    f[j].0 = gone;
                }
                f[i].0 = to;
                Some(Val::C(0))
            }
            Model::Strerror => {
                let code = self.conc(s, &args[0])?;
                let p = self.conc(s, &args[1])?;
                let n = self.conc(s, &args[2])?;
                let text: &[u8] = match code as u32 {
                    2 => b"No such file or directory\0",
                    13 => b"Permission denied\0",
                    17 => b"File exists\0",
                    20 => b"Not a directory\0",
                    21 => b"Is a directory\0",
                    22 => b"Invalid argument\0",
                    28 => b"No space left on device\0",
                    _ => b"error\0",
                };
                if n < text.len() as u64 {
                    return Ok(Some(Val::C(34)));
                }
                for (k, b) in text.iter().enumerate() {
                    s.mem.set_byte(p + k as u64, *b, 0)?;
                }
                Some(Val::C(0))
            }
            Model::Close => {
                let fd = self.conc(s, &args[0])?;
                if fd >= 100 && (fd - 100) < s.fds.len() as u64 {
                    Rc::make_mut(&mut s.fds)[fd as usize - 100] = None;
                }
                Some(Val::C(0))
            }
            Model::Read => {
                let fd = self.conc(s, &args[0])?;
                let p = self.conc(s, &args[1])?;
                let n = self.conc(s, &args[2])?;
                let Some(Some((i, at))) = (fd as usize).checked_sub(100).and_then(|k| s.fds.get(k).copied()) else {
                    return Err(Stop::Error("read from an unknown descriptor".into()));
                };
                if s.files[i].0.ends_with(b"/") {
                    s.mem.write(self.tls_errno, 4, 21)?;
                    return Ok(Some(Val::C(u64::MAX)));
                }
                let data: Vec<(u8, E)> = s.files[i].1.iter().skip(at).take(n as usize).copied().collect();
                for (k, (b, e)) in data.iter().enumerate() {
                    s.mem.set_byte(p + k as u64, *b, *e)?;
                }
                Rc::make_mut(&mut s.fds)[fd as usize - 100] = Some((i, at + data.len()));
                Some(Val::C(data.len() as u64))
            }
            Model::Lseek => {
                s.mem.write(self.tls_errno, 4, 29)?;
                Some(Val::C(u64::MAX))
            }
            Model::NoFile => {
                // size hints and existence tests: no such file, unless it is one of ours
                s.mem.write(self.tls_errno, 4, 2)?;
                Some(Val::C(mk(ret.bits(), u64::MAX)))
            }
            Model::SymFile => {
                // sym_file(path, len, buf, cap) -> length of the file
                let p = self.conc(s, &args[0])?;
                let n = self.conc(s, &args[1])?;
                let buf = self.conc(s, &args[2])?;
                let cap = self.conc(s, &args[3])?;
                let mut name = vec![];
                for i in 0..n {
                    name.push(s.mem.byte(p + i)?.0);
                }
                match s.files.iter().position(|f| f.0 == name) {
                    None => Some(Val::C(u64::MAX)),
                    Some(i) => {
                        let f = s.files.clone();
                        for (k, (b, e)) in f[i].1.iter().take(cap as usize).enumerate() {
                            s.mem.set_byte(buf + k as u64, *b, *e)?;
                        }
                        Some(Val::C(f[i].1.len() as u64))
                    }
                }
            }
            Model::Syscall => {
                // getrandom fills with a fixed pattern; anything else fails
                let nm = self.m.fns.borrow()[ix as usize].name.clone();
                let (p, n) = if nm == "getrandom" { (&args[0], &args[1]) } else { (&args[1], &args[2]) };
                let ok = nm == "getrandom" || matches!(&args[0], Val::C(318));
                if nm == "syscall" && matches!(&args[0], Val::C(332)) {
                    // statx(dirfd, path, flags, mask, buf): regular files of ours only
                    let fd = self.conc(s, &args[1])?;
                    let p = self.conc(s, &args[2])?;
                    let buf = self.conc(s, &args[5])?;
                    let mut no = 2;
                    let mut found = None;
                    if p == 0 || buf == 0 {
                        no = 14;
                    } else {
                        let name = self.name_at(s, p)?;
                        let mut dir = name.clone();
                        dir.push(b'/');
                        found = if name.is_empty() {
                            (fd as usize).checked_sub(100).and_then(|k| s.fds.get(k).copied()).flatten().map(|x| x.0)
                        } else {
                            s.files.iter().position(|f| f.0 == name || f.0 == dir)
                        };
                    }
                    let size = found.map(|i| (s.files[i].0.ends_with(b"/"), s.files[i].1.len()));
                    return Ok(match size {
                        None => {
                            s.mem.write(self.tls_errno, 4, no)?;
                            Some(Val::C(mk(ret.bits(), u64::MAX)))
                        }
                        Some((dir, n)) => {
                            s.mem.fill(buf, 0, 256)?;
                            s.mem.write(buf, 4, 0x7ff)?;
                            s.mem.write(buf + 28, 2, if dir { 0o040755 } else { 0o100644 })?;
                            s.mem.write(buf + 40, 8, n as u64)?;
                            Some(Val::C(0))
                        }
                    });
                }
                if !ok {
                    return Err(Stop::Error(format!("syscall {:?}", args[0])));
                }
                let p = self.conc(s, p)?;
                let n = self.conc(s, n)?;
                s.mem.fill(p, 0x42, n)?;
                Some(Val::C(n))
            }
            Model::One => Some(Val::C(1)),
            Model::MinusOne => Some(Val::C(mk(ret.bits(), u64::MAX))),
            Model::Unknown | Model::None | Model::Defined | Model::Exit | Model::Ucast => {
                let nm = self.m.fns.borrow()[ix as usize].name.clone();
                return Err(Stop::Error(format!("no model for {}", nm)));
            }
        })
    }

    fn flatten(&mut self, v: &Val, t: &Ty, out: &mut Vec<(Val, u32)>) {
        match (v, t) {
            (Val::A(a), _) => {
                for (i, x) in a.iter().enumerate() {
                    let ft = t.field(i).1;
                    self.flatten(x, &ft, out);
                }
            }
            (x, t) => out.push((x.clone(), t.bits())),
        }
    }
    fn bitcast(&mut self, s: &State, v: &Val, from: &Ty, to: &Ty) -> Result<Val, Stop> {
        let mut fl = vec![];
        self.flatten(v, from, &mut fl);
        let total: u32 = fl.iter().map(|x| x.1).sum();
        if total > 128 {
            return Err(Stop::Error("wide bitcast".into()));
        }
        let conc = fl.iter().all(|x| !matches!(x.0, Val::S(_)));
        let (ew, n) = match to {
            Ty::Vec(n, e) => (e.bits(), *n),
            t => (t.bits(), 0),
        };
        if conc {
            let mut r = 0u128;
            let mut sh = 0;
            for (x, w) in &fl {
                r |= to_u128(x) << sh;
                sh += w;
            }
            if n == 0 {
                return Ok(cval(total, r));
            }
            return Ok(Val::A(Rc::new((0..n).map(|i| cval(ew, r >> (i * ew))).collect())));
        }
        let mut e: Option<E> = None;
        for (x, w) in &fl {
            let y = self.e_of(x, *w);
            e = Some(match e {
                None => y,
                Some(lo) => self.ex.concat(y, lo),
            });
        }
        let e = e.unwrap();
        if n == 0 {
            return Ok(self.v_of(s, e));
        }
        let mut o = vec![];
        for i in 0..n {
            let x = self.ex.extract(e, i * ew, ew);
            o.push(self.v_of(s, x));
        }
        Ok(Val::A(Rc::new(o)))
    }

    // ---------- main loop ----------
    /// What is written to the standard error output, once it is looked at.
    fn stderr_write(&mut self, s: &mut State, p: u64, n: u64) -> Result<(), Stop> {
        if let Some(i) = s.files.iter().position(|f| f.0 == STDERR) {
            let mut data = Vec::with_capacity(n as usize);
            for k in 0..n {
                data.push(s.mem.byte(p + k)?);
            }
            Rc::make_mut(&mut s.files)[i].1.extend(data);
        }
        Ok(())
    }
    fn full(&self, s: &State, fd: u64) -> bool {
        (fd as usize).checked_sub(100).and_then(|k| s.fds.get(k).copied()).flatten().is_some_and(|(i, _)| s.files[i].0 == DEV_FULL)
    }
    fn file_write(&mut self, s: &mut State, fd: u64, p: u64, n: u64) -> Result<(), Stop> {
        let Some(Some((i, at))) = (fd as usize).checked_sub(100).and_then(|k| s.fds.get(k).copied()) else {
            return Err(Stop::Error("write to an unknown descriptor".into()));
        };
        let mut data = Vec::with_capacity(n as usize);
        for k in 0..n {
            data.push(s.mem.byte(p + k)?);
        }
        let f = &mut Rc::make_mut(&mut s.files)[i].1;
        for (k, x) in data.into_iter().enumerate() {
            if at + k < f.len() {
                f[at + k] = x;
            } else {
                f.push(x);
            }
        }
        Rc::make_mut(&mut s.fds)[fd as usize - 100] = Some((i, at + n as usize));
        Ok(())
    }
    /// A C string naming a file.
    fn name_at(&mut self, s: &State, mut p: u64) -> Result<Vec<u8>, Stop> {
        let mut name = vec![];
        loop {
            let (b, e) = s.mem.byte(p)?;
            if e != 0 {
                return Err(Stop::Error("symbolic file name".into()));
            }
            if b == 0 {
                return Ok(name);
            }
            name.push(b);
            p += 1;
        }
    }
    fn account(&mut self, s: &mut State) {
        s.steps += self.st.instrs - self.mark;
        self.mark = self.st.instrs;
    }
    fn tick(&mut self, s: &mut State) -> Result<(), Stop> {
        self.next_tick = self.st.instrs + 0x10000;
        self.account(s);
        if s.steps > self.max_steps {
            return Err(Stop::Fail { kind: "hang", code: 3, detail: format!("no end after {} instructions", s.steps), model: None });
        }
        if let Some(dl) = self.deadline {
            if std::time::Instant::now() > dl {
                return Err(Stop::Error("deadline".into()));
            }
        }
        Ok(())
    }
    pub fn run(&mut self, s: &mut State) -> Stop {
        self.mark = self.st.instrs;
        match self.run_(s) {
            Ok(()) => Stop::Done,
            Err(e) => e,
        }
    }
    fn run_(&mut self, s: &mut State) -> Result<(), Stop> {
        macro_rules! get {
            ($fr:expr, $o:expr) => {{
                let o = $o;
                if o & KBIT != 0 {
                    &$fr.f.consts[(o & !KBIT) as usize]
                } else {
                    &s.regs[($fr.base + o) as usize]
                }
            }};
        }
        let mut fr: Frame = s.frames.last().unwrap().clone();
        macro_rules! sync {
            () => {{
                let n = s.frames.len();
                s.frames[n - 1].ip = fr.ip;
            }};
        }
        macro_rules! jump {
            ($e:expr) => {{
                let e: &Edge = $e;
                let n = e.moves.len();
                if n == 1 {
                    let v = get!(fr, e.moves[0].1).clone();
                    s.regs[(fr.base + e.moves[0].0) as usize] = v;
                } else if n > 1 {
                    let vs: Vec<Val> = e.moves.iter().map(|m| get!(fr, m.1).clone()).collect();
                    for (m, v) in e.moves.iter().zip(vs) {
                        s.regs[(fr.base + m.0) as usize] = v;
                    }
                }
                fr.ip = e.target;
                if self.st.instrs >= self.next_tick {
                    sync!();
                    self.tick(s)?;
                }
                if self.block_cov {
                    fr.f.cov[e.block as usize].set(true);
                }
                continue;
            }};
        }
        loop {
            let ins: &'static I = &fr.f.code[fr.ip as usize];
            self.st.instrs += 1;
            match ins {
                I::Bin { op, w, d, a, b } => {
                    let (a, b) = (get!(fr, *a), get!(fr, *b));
                    let r = if let (Val::C(x), Val::C(y)) = (a, b) {
                        match op {
                            Op::Add => Val::C(mk(*w, x.wrapping_add(*y))),
                            Op::Sub => Val::C(mk(*w, x.wrapping_sub(*y))),
                            Op::And => Val::C(x & y),
                            Op::Or => Val::C(x | y),
                            Op::Xor => Val::C(x ^ y),
                            _ => {
                                let (a, b) = (a.clone(), b.clone());
                                self.bin(s, *op, *w, &a, &b)?
                            }
                        }
                    } else {
                        let (a, b) = (a.clone(), b.clone());
                        self.bin(s, *op, *w, &a, &b)?
                    };
                    s.regs[(fr.base + d) as usize] = r;
                }
                I::Icmp { p, w, d, a, b } => {
                    let (a, b) = (get!(fr, *a), get!(fr, *b));
                    let r = if let (Val::C(x), Val::C(y)) = (a, b) {
                        let (x, y) = (*x, *y);
                        Val::C(match p {
                            Pred::Eq => x == y,
                            Pred::Ne => x != y,
                            Pred::Ult => x < y,
                            Pred::Ule => x <= y,
                            Pred::Ugt => x > y,
                            Pred::Uge => x >= y,
                            Pred::Slt => sx64(*w, x) < sx64(*w, y),
                            Pred::Sle => sx64(*w, x) <= sx64(*w, y),
                            Pred::Sgt => sx64(*w, x) > sx64(*w, y),
                            Pred::Sge => sx64(*w, x) >= sx64(*w, y),
                        } as u64)
                    } else {
                        let (a, b) = (a.clone(), b.clone());
                        self.icmp(s, *p, *w, &a, &b)?
                    };
                    s.regs[(fr.base + d) as usize] = r;
                }
                I::Cast { k, from, to, d, a } => {
                    let a = get!(fr, *a).clone();
                    let r = self.cast(s, *k, *from, *to, &a)?;
                    s.regs[(fr.base + d) as usize] = r;
                }
                I::Load { d, p, n, w } => {
                    let r = match get!(fr, *p) {
                        Val::C(a) => {
                            let a = *a;
                            match s.mem.read(a, *n as usize) {
                                Ok(Some(v)) => Val::C(mk(*w, v)),
                                Ok(None) => self.load_scalar(s, a, *n as usize, *w)?,
                                Err(b) => return Err(Stop::Error(format!("load from bad address {:#x} in {}", b.0, self.backtrace(s)))),
                            }
                        }
                        Val::S(e) => {
                            let e = *e;
                            sync!();
                            self.load_sym(s, e, *n as usize, *w)?
                        }
                        _ => return Err(Stop::Error("load ptr".into())),
                    };
                    s.regs[(fr.base + d) as usize] = r;
                }
                I::Store { v, p, n, w } => {
                    let a = match get!(fr, *p) {
                        Val::C(a) => *a,
                        x => {
                            let x = x.clone();
                            sync!();
                            self.conc(s, &x)?
                        }
                    };
                    match get!(fr, *v) {
                        Val::C(x) => {
                            let x = mk(*w, *x);
                            if let Err(b) = s.mem.write(a, *n as usize, x) {
                                return Err(Stop::Error(format!("store to bad address {:#x} in {}", b.0, self.backtrace(s))));
                            }
                        }
                        x => {
                            let x = x.clone();
                            self.store_scalar(s, a, *n as usize, *w, &x)?
                        }
                    }
                }
                I::Gep { d, base, off, terms } => {
                    let mut r = match get!(fr, *base) {
                        Val::C(b) => Val::C(b.wrapping_add(*off)),
                        x => {
                            let x = x.clone();
                            self.bin(s, Op::Add, 64, &x, &Val::C(*off))?
                        }
                    };
                    for (o, w, sz) in terms.iter() {
                        let t = get!(fr, *o);
                        r = match (&r, t) {
                            (Val::C(b), Val::C(x)) => Val::C(b.wrapping_add((sx64(*w, *x) as u64).wrapping_mul(*sz))),
                            (_, t) => {
                                let t = t.clone();
                                let t = if *w < 64 { self.cast(s, Cast::Sext, *w, 64, &t)? } else { t };
                                let t = self.bin(s, Op::Mul, 64, &t, &Val::C(*sz))?;
                                self.bin(s, Op::Add, 64, &r, &t)?
                            }
                        };
                    }
                    s.regs[(fr.base + d) as usize] = r;
                }
                I::Br(e) => jump!(e),
                I::CondBr { c, t, f } => {
                    let b = match get!(fr, *c) {
                        Val::C(x) => *x & 1 == 1,
                        x => {
                            let x = x.clone();
                            sync!();
                            self.decide(s, &x)?
                        }
                    };
                    if b {
                        jump!(t)
                    } else {
                        jump!(f)
                    }
                }
                I::Switch { v, w, cases, edges } => {
                    let x = get!(fr, *v).clone();
                    let k = match &x {
                        Val::C(x) => *x,
                        Val::S(e) => {
                            sync!();
                            let e = self.simp(s, *e);
                            // decide which edge is taken, not which value
                            let cur = self.ex.eval(e, &s.model) as u64;
                            let edge = match cases.binary_search_by_key(&cur, |c| c.0) {
                                Ok(i) => cases[i].1,
                                Err(_) => 0,
                            };
                            let mut c: Option<E> = None;
                            for (k, ce) in cases.iter() {
                                if (edge == 0 && *ce != 0) || (edge != 0 && *ce == edge) {
                                    let kk = self.ex.konst(*w, *k as u128);
                                    let q = self.ex.bin(Op::Eq, e, kk);
                                    c = Some(match c {
                                        None => q,
                                        Some(o) => self.ex.bin(Op::Or, o, q),
                                    });
                                }
                            }
                            let mut c = match c {
                                Some(c) => c,
                                None => self.ex.konst(1, 0),
                            };
                            if edge == 0 {
                                c = self.ex.not(c);
                            }
                            let r = self.decide(s, &Val::S(c))?;
                            debug_assert!(r);
                            cur
                        }
                        _ => return Err(Stop::Error("switch".into())),
                    };
                    let e = match cases.binary_search_by_key(&k, |c| c.0) {
                        Ok(i) => cases[i].1,
                        Err(_) => 0,
                    };
                    jump!(&edges[e as usize])
                }
                I::Select { d, c, a, b, ty, vcond } => {
                    let cv = get!(fr, *c);
                    let r = match cv {
                        Val::C(x) => {
                            if *x & 1 == 1 {
                                get!(fr, *a).clone()
                            } else {
                                get!(fr, *b).clone()
                            }
                        }
                        Val::S(e) => {
                            let e = *e;
                            let (a, b) = (get!(fr, *a).clone(), get!(fr, *b).clone());
                            self.ite(s, e, &a, &b, ty)?
                        }
                        Val::A(cs) if *vcond => {
                            let cs = cs.clone();
                            let (a, b) = (get!(fr, *a).clone(), get!(fr, *b).clone());
                            let (a, b) = match (&a, &b) {
                                (Val::A(a), Val::A(b)) => (a.clone(), b.clone()),
                                _ => return Err(Stop::Error("vselect".into())),
                            };
                            let ew = ty.field(0).1.bits();
                            let mut o = vec![];
                            for i in 0..cs.len() {
                                o.push(self.sel2(s, &cs[i], &a[i], &b[i], ew)?);
                            }
                            Val::A(Rc::new(o))
                        }
                        _ => return Err(Stop::Error("select".into())),
                    };
                    s.regs[(fr.base + d) as usize] = r;
                }
                I::Call { d, callee, args, ret, after, argw } => {
                    self.st.calls += 1;
                    let ix = match callee {
                        Callee::Direct(ix) => *ix,
                        Callee::Indirect(o) => {
                            let t = match get!(fr, *o) {
                                Val::C(x) => *x,
                                x => {
                                    let x = x.clone();
                                    sync!();
                                    self.conc(s, &x)?
                                }
                            };
                            let n = self.m.fns.borrow().len() as u64;
                            if t < FN_BASE || t >= FN_BASE + 16 * n || t % 16 != 0 {
                                return Err(Stop::Error(format!("call to bad address {:#x} in {}", t, self.backtrace(s))));
                            }
                            ((t - FN_BASE) / 16) as u32
                        }
                    };
                    let mut ix = ix;
                    let mut mo = self.model_of(ix);
                    if mo == Model::Exit {
                        // the harness decides what leaving the program means
                        let hook = self.m.fns.borrow().iter().position(|f| f.name == "sym_exit_hook" && f.kind == FKind::Defined);
                        match hook {
                            Some(h) => {
                                ix = h as u32;
                                mo = Model::Defined;
                            }
                            None => mo = Model::Trap,
                        }
                    }
                    if mo == Model::Defined {
                        let f = self.m.lower(ix);
                        f.execs.set(f.execs.get() + 1);
                        f.cov[0].set(true);
                        let base = s.regs.len() as u32;
                        if s.frames.len() > 4000 {
                            return Err(Stop::Fail { kind: "panic", code: 2, detail: format!("unbounded recursion: {}", self.backtrace(s)), model: None });
                        }
                        if args.len() < f.nparams as usize {
                            return Err(Stop::Error("arity".into()));
                        }
                        for a in args.iter().take(f.nparams as usize) {
                            let v = get!(fr, *a).clone();
                            s.regs.push(v);
                        }
                        s.regs.resize(base as usize + f.nregs as usize, Val::C(0));
                        // resume point of the caller
                        let ret_ip = fr.ip;
                        sync!();
                        let _ = ret_ip;
                        let nf = Frame { f, ip: 0, base, ret: *d, sp: s.sp };
                        s.frames.push(nf.clone());
                        fr = nf;
                        continue;
                    }
                    sync!();
                    let av: Vec<Val> = args.iter().map(|a| get!(fr, *a).clone()).collect();
                    let r = self.external(s, mo, ix, &av, argw, ret)?;
                    if let (Some(d), Some(r)) = (d, r) {
                        s.regs[(fr.base + d) as usize] = r;
                    }
                    if let Some(e) = after {
                        jump!(e)
                    }
                }
                I::Ret(v) => {
                    let r = v.map(|o| get!(fr, o).clone());
                    let done = s.frames.pop().unwrap();
                    s.regs.truncate(done.base as usize);
                    s.sp = done.sp;
                    if s.frames.is_empty() {
                        return Ok(());
                    }
                    fr = s.frames.last().unwrap().clone();
                    if let (Some(d), Some(r)) = (done.ret, r) {
                        s.regs[(fr.base + d) as usize] = r;
                    }
                    // step over the call (or follow the invoke's normal edge)
                    if let I::Call { after: Some(e), .. } = &fr.f.code[fr.ip as usize] {
                        jump!(e)
                    }
                }
                I::Alloca { d, size, align } => {
                    let a = (s.sp + align.max(&1) - 1) / align.max(&1) * align.max(&1);
                    s.sp = a + size;
                    while s.sp + 64 > s.stack_hi {
                        if s.stack_hi - STACK_BASE >= STACK_MAX {
                            return Err(Stop::Fail { kind: "panic", code: 2, detail: "stack exhausted".into(), model: None });
                        }
                        s.mem.map(s.stack_hi, 1 << 20);
                        s.stack_hi += 1 << 20;
                    }
                    s.regs[(fr.base + d) as usize] = Val::C(a);
                }
                I::LoadTy { d, p, ty } => {
                    let x = get!(fr, *p).clone();
                    sync!();
                    let a = self.conc(s, &x)?;
                    let r = self.load_ty(s, a, ty)?;
                    s.regs[(fr.base + d) as usize] = r;
                }
                I::StoreTy { v, p, ty } => {
                    let x = get!(fr, *p).clone();
                    sync!();
                    let a = self.conc(s, &x)?;
                    let v = get!(fr, *v).clone();
                    self.store_ty(s, a, ty, &v)?;
                }
                I::VBin { op, w, d, a, b } => {
                    let (a, b) = (get!(fr, *a).clone(), get!(fr, *b).clone());
                    if let (Val::A(a), Val::A(b)) = (&a, &b) {
                        let mut o = Vec::with_capacity(a.len());
                        for i in 0..a.len() {
                            o.push(self.bin(s, *op, *w, &a[i], &b[i])?);
                        }
                        s.regs[(fr.base + d) as usize] = Val::A(Rc::new(o));
                    } else {
                        return Err(Stop::Error("vbin".into()));
                    }
                }
                I::VIcmp { p, w, d, a, b } => {
                    let (a, b) = (get!(fr, *a).clone(), get!(fr, *b).clone());
                    if let (Val::A(a), Val::A(b)) = (&a, &b) {
                        let mut o = Vec::with_capacity(a.len());
                        for i in 0..a.len() {
                            o.push(self.icmp(s, *p, *w, &a[i], &b[i])?);
                        }
                        s.regs[(fr.base + d) as usize] = Val::A(Rc::new(o));
                    } else {
                        return Err(Stop::Error("vicmp".into()));
                    }
                }
                I::VCast { k, from, to, d, a } => {
                    let a = get!(fr, *a).clone();
                    if let Val::A(a) = &a {
                        let mut o = Vec::with_capacity(a.len());
                        for x in a.iter() {
                            o.push(self.cast(s, *k, *from, *to, x)?);
                        }
                        s.regs[(fr.base + d) as usize] = Val::A(Rc::new(o));
                    } else {
                        return Err(Stop::Error("vcast".into()));
                    }
                }
                I::Bitcast { d, a, from, to } => {
                    let a = get!(fr, *a).clone();
                    let r = self.bitcast(s, &a, from, to)?;
                    s.regs[(fr.base + d) as usize] = r;
                }
                I::ExtractVal { d, a, idx } => {
                    let mut v = get!(fr, *a).clone();
                    for i in idx.iter() {
                        v = match &v {
                            Val::A(x) => x[*i as usize].clone(),
                            _ => return Err(Stop::Error("extractvalue".into())),
                        };
                    }
                    s.regs[(fr.base + d) as usize] = v;
                }
                I::InsertVal { d, a, v, idx } => {
                    let mut agg = get!(fr, *a).clone();
                    let v = get!(fr, *v).clone();
                    fn ins(a: &mut Val, idx: &[u32], v: Val) -> bool {
                        match a {
                            Val::A(x) => {
                                let x = Rc::make_mut(x);
                                if idx.len() == 1 {
                                    x[idx[0] as usize] = v;
                                    true
                                } else {
                                    ins(&mut x[idx[0] as usize], &idx[1..], v)
                                }
                            }
                            _ => false,
                        }
                    }
                    if !ins(&mut agg, idx, v) {
                        return Err(Stop::Error("insertvalue".into()));
                    }
                    s.regs[(fr.base + d) as usize] = agg;
                }
                I::ExtractElt { d, a, i } => {
                    let x = get!(fr, *i).clone();
                    sync!();
                    let k = self.conc(s, &x)?;
                    let v = match get!(fr, *a) {
                        Val::A(v) => v[k as usize].clone(),
                        _ => return Err(Stop::Error("extractelement".into())),
                    };
                    s.regs[(fr.base + d) as usize] = v;
                }
                I::InsertElt { d, a, v, i } => {
                    let x = get!(fr, *i).clone();
                    sync!();
                    let k = self.conc(s, &x)?;
                    let mut agg = get!(fr, *a).clone();
                    let v = get!(fr, *v).clone();
                    match &mut agg {
                        Val::A(x) => Rc::make_mut(x)[k as usize] = v,
                        _ => return Err(Stop::Error("insertelement".into())),
                    }
                    s.regs[(fr.base + d) as usize] = agg;
                }
                I::Shuffle { d, a, b, mask, n } => {
                    let (a, b) = (get!(fr, *a).clone(), get!(fr, *b).clone());
                    if let (Val::A(a), Val::A(b)) = (&a, &b) {
                        let o: Vec<Val> = mask
                            .iter()
                            .map(|m| match m {
                                None => a[0].clone(),
                                Some(k) if *k < *n => a[*k as usize].clone(),
                                Some(k) => b[(*k - *n) as usize].clone(),
                            })
                            .collect();
                        s.regs[(fr.base + d) as usize] = Val::A(Rc::new(o));
                    } else {
                        return Err(Stop::Error("shuffle".into()));
                    }
                }
                I::AtomicRmw { d, op, p, v, w } => {
                    let x = get!(fr, *p).clone();
                    sync!();
                    let a = self.conc(s, &x)?;
                    let v = get!(fr, *v).clone();
                    let n = ((*w + 7) / 8) as usize;
                    let old = self.load_scalar(s, a, n, *w)?;
                    let new = match op {
                        Rmw::Xchg => v,
                        Rmw::Add => self.bin(s, Op::Add, *w, &old, &v)?,
                        Rmw::Sub => self.bin(s, Op::Sub, *w, &old, &v)?,
                        Rmw::And => self.bin(s, Op::And, *w, &old, &v)?,
                        Rmw::Or => self.bin(s, Op::Or, *w, &old, &v)?,
                        Rmw::Xor => self.bin(s, Op::Xor, *w, &old, &v)?,
                        Rmw::Nand => {
                            let x = self.bin(s, Op::And, *w, &old, &v)?;
                            self.bin(s, Op::Xor, *w, &x, &Val::C(mk(*w, u64::MAX)))?
                        }
                        _ => {
                            let p = match op {
                                Rmw::Umax => Pred::Ugt,
                                Rmw::Umin => Pred::Ult,
                                Rmw::Max => Pred::Sgt,
                                _ => Pred::Slt,
                            };
                            let c = self.icmp(s, p, *w, &old, &v)?;
                            self.sel2(s, &c, &old, &v, *w)?
                        }
                    };
                    self.store_scalar(s, a, n, *w, &new)?;
                    s.regs[(fr.base + d) as usize] = old;
                }
                I::CmpXchg { d, p, c, n, w } => {
                    let x = get!(fr, *p).clone();
                    sync!();
                    let a = self.conc(s, &x)?;
                    let nb = ((*w + 7) / 8) as usize;
                    let old = self.load_scalar(s, a, nb, *w)?;
                    let cv = get!(fr, *c).clone();
                    let eq = self.icmp(s, Pred::Eq, *w, &old, &cv)?;
                    let b = self.decide(s, &eq)?;
                    if b {
                        let nv = get!(fr, *n).clone();
                        self.store_scalar(s, a, nb, *w, &nv)?;
                    }
                    s.regs[(fr.base + d) as usize] = Val::A(Rc::new(vec![old, Val::C(b as u64)]));
                }
                I::Unreachable => return Err(Stop::Fail { kind: "panic", code: 3, detail: format!("unreachable in {}", self.backtrace(s)), model: None }),
                I::Nop => {}
                I::Unsupported(t) => return Err(Stop::Error(format!("unsupported: {} in {}", t, self.backtrace(s)))),
            }
            fr.ip += 1;
        }
    }
}
