//! Hash-consed bit-vector expressions over 8-bit symbolic input bytes.
//! Expressions that depend on one input byte carry their full value table
//! (256 entries), which the executor uses as a constraint-propagation domain.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    ZExt,
    SExt,
    Extract, // k = low bit
    Concat,  // a high, b low
    Ite,
    Sel, // a = address-like selector, k = table index
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub type Table = Rc<[u64; 256]>;

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub supp: Vec<u128>,
    /// number of operators (saturating)
    pub sz: Vec<u32>,
    pub tabs: Vec<Option<Table>>,
    map: HashMap<Node, E>,
    /// selector tables: sorted (selector value, result)
    pub sels: Vec<Rc<Vec<(u64, u64)>>>,
    sel_map: HashMap<Vec<(u64, u64)>, usize>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

/// Concrete evaluation of one operator (SMT-LIB semantics for division by zero).
pub fn eval_op(op: Op, w: u32, wa: u32, a: u128, b: u128, c: u128, k: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, wa), sx(b, wa));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, wa), sx(b, wa));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sx(a, wa);
            (if b >= w as u128 { s >> 127 } else { s >> b }) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, wa) < sx(b, wa)) as u128,
        Op::Sle => (sx(a, wa) <= sx(b, wa)) as u128,
        Op::ZExt => a,
        Op::SExt => sx(a, wa) as u128,
        Op::Extract => a >> k,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::Concat | Op::Const | Op::Var | Op::Sel => unreachable!(),
    };
    r & m
}

impl Exprs {
    /// For debugging.
    pub fn show(&self, e: E, depth: usize) -> String {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{}", n.k),
            Op::Var => format!("v{}", n.k),
            _ if depth == 0 => "..".into(),
            Op::ZExt | Op::SExt | Op::Extract | Op::Sel => format!("({:?} {} {})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }

    pub fn new() -> Self {
        let mut s = Exprs {
            nodes: vec![],
            supp: vec![],
            sz: vec![],
            tabs: vec![],
            map: HashMap::new(),
            sels: vec![],
            sel_map: HashMap::new(),
        };
        // id 0 is reserved: "concrete" in memory shadow
        s.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 });
        s
    }
    fn push(&mut self, n: Node) -> E {
        let id = self.nodes.len() as E;
        let su = match n.op {
            Op::Const => 0,
            Op::Var => 1u128 << n.k,
            Op::Ite => self.supp[n.a as usize] | self.supp[n.b as usize] | self.supp[n.c as usize],
            Op::ZExt | Op::SExt | Op::Extract | Op::Sel => self.supp[n.a as usize],
            _ => self.supp[n.a as usize] | self.supp[n.b as usize],
        };
        let g = |e: E| self.sz.get(e as usize).copied().unwrap_or(0);
        let sz = match n.op {
            Op::Const | Op::Var => 0,
            Op::Sel => 4 + g(n.a),
            Op::ZExt | Op::SExt | Op::Extract => 1 + g(n.a),
            Op::Ite => 1 + g(n.a) + g(n.b) + g(n.c),
            _ => 1 + g(n.a) + g(n.b),
        };
        self.sz.push(sz.min(1 << 20));
        self.map.insert(n.clone(), id);
        self.nodes.push(n);
        self.supp.push(su);
        self.tabs.push(None);
        id
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.push(n);
        let su = self.supp[e as usize];
        if su.count_ones() == 1 && self.nodes[e as usize].w <= 64 {
            // collapse constants
            let t = self.compute_table(e);
            let t0 = t[0];
            if t.iter().all(|&x| x == t0) {
                let w = self.nodes[e as usize].w;
                let c = self.konst(w, t0 as u128);
                let n = self.nodes[e as usize].clone();
                self.map.insert(n, c);
                return c;
            }
            self.tabs[e as usize] = Some(t);
        }
        e
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn konst(&mut self, w: u32, v: u128) -> E {
        let n = Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) };
        if let Some(&e) = self.map.get(&n) {
            if e != 0 {
                return e;
            }
        }
        let id = self.nodes.len() as E;
        self.map.insert(n.clone(), id);
        self.sz.push(0);
        self.nodes.push(n);
        self.supp.push(0);
        self.tabs.push(None);
        id
    }
    pub fn var(&mut self, i: u32) -> E {
        self.intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    /// The single input byte `e` depends on, if it is exactly one.
    pub fn single(&self, e: E) -> Option<u32> {
        let s = self.supp[e as usize];
        if s.count_ones() == 1 && self.nodes[e as usize].w <= 64 {
            Some(s.trailing_zeros())
        } else {
            None
        }
    }
    pub fn table(&mut self, e: E) -> Table {
        if let Some(t) = &self.tabs[e as usize] {
            return t.clone();
        }
        let t = self.compute_table(e);
        self.tabs[e as usize] = Some(t.clone());
        t
    }
    fn child_vals(&mut self, e: E) -> Box<[u128; 256]> {
        let mut r = Box::new([0u128; 256]);
        if let Some(k) = self.is_const(e) {
            for x in r.iter_mut() {
                *x = k;
            }
            return r;
        }
        if self.w(e) <= 64 {
            let t = self.table(e);
            for i in 0..256 {
                r[i] = t[i] as u128;
            }
        } else {
            let v = self.supp[e as usize].trailing_zeros();
            for i in 0..256 {
                let mut memo = HashMap::new();
                r[i] = self.eval_with(e, &mut |x| if x == v { i as u8 } else { 0 }, &mut memo);
            }
        }
        r
    }
    fn compute_table(&mut self, e: E) -> Table {
        let n = self.nodes[e as usize].clone();
        let mut t = [0u64; 256];
        match n.op {
            Op::Const => t = [n.k as u64; 256],
            Op::Var => {
                for (i, x) in t.iter_mut().enumerate() {
                    *x = i as u64
                }
            }
            Op::Sel => {
                let a = self.child_vals(n.a);
                let tb = self.sels[n.k as usize].clone();
                for i in 0..256 {
                    t[i] = match tb.binary_search_by_key(&(a[i] as u64), |p| p.0) {
                        Ok(j) => tb[j].1,
                        Err(_) => 0,
                    };
                }
            }
            Op::Concat => {
                let a = self.child_vals(n.a);
                let b = self.child_vals(n.b);
                let wb = self.w(n.b);
                for i in 0..256 {
                    t[i] = ((a[i] << wb) | b[i]) as u64;
                }
            }
            Op::Ite => {
                let a = self.child_vals(n.a);
                let b = self.child_vals(n.b);
                let c = self.child_vals(n.c);
                for i in 0..256 {
                    t[i] = (if a[i] != 0 { b[i] } else { c[i] }) as u64;
                }
            }
            Op::ZExt | Op::SExt | Op::Extract => {
                let a = self.child_vals(n.a);
                let wa = self.w(n.a);
                for i in 0..256 {
                    t[i] = eval_op(n.op, n.w, wa, a[i], 0, 0, n.k) as u64;
                }
            }
            _ => {
                let a = self.child_vals(n.a);
                let b = self.child_vals(n.b);
                let wa = self.w(n.a);
                for i in 0..256 {
                    t[i] = eval_op(n.op, n.w, wa, a[i], b[i], 0, n.k) as u64;
                }
            }
        }
        Rc::new(t)
    }
    pub fn eval_with(&self, e: E, env: &mut dyn FnMut(u32) -> u8, memo: &mut HashMap<E, u128>) -> u128 {
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            return n.k;
        }
        if let Some(t) = &self.tabs[e as usize] {
            return t[env(self.supp[e as usize].trailing_zeros()) as usize] as u128;
        }
        let r = match n.op {
            Op::Const => n.k,
            Op::Var => env(n.k as u32) as u128,
            Op::Sel => {
                let a = self.eval_with(n.a, env, memo) as u64;
                let tb = &self.sels[n.k as usize];
                match tb.binary_search_by_key(&a, |p| p.0) {
                    Ok(j) => tb[j].1 as u128,
                    Err(_) => 0,
                }
            }
            Op::Concat => {
                let a = self.eval_with(n.a, env, memo);
                let b = self.eval_with(n.b, env, memo);
                (a << self.w(n.b)) | b
            }
            Op::Ite => {
                if self.eval_with(n.a, env, memo) != 0 {
                    self.eval_with(n.b, env, memo)
                } else {
                    self.eval_with(n.c, env, memo)
                }
            }
            Op::ZExt | Op::SExt | Op::Extract => {
                let a = self.eval_with(n.a, env, memo);
                eval_op(n.op, n.w, self.w(n.a), a, 0, 0, n.k)
            }
            _ => {
                let a = self.eval_with(n.a, env, memo);
                let b = self.eval_with(n.b, env, memo);
                eval_op(n.op, n.w, self.w(n.a), a, b, 0, n.k)
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn eval(&self, e: E, model: &[u8]) -> u128 {
        let mut memo = HashMap::new();
        self.eval_with(e, &mut |v| model.get(v as usize).copied().unwrap_or(0), &mut memo)
    }
    pub fn sel(&mut self, a: E, w: u32, tab: Vec<(u64, u64)>) -> E {
        let k = match self.sel_map.get(&tab) {
            Some(&k) => k,
            None => {
                let k = self.sels.len();
                self.sels.push(Rc::new(tab.clone()));
                self.sel_map.insert(tab, k);
                k
            }
        };
        self.intern(Node { op: Op::Sel, w, a, b: 0, c: 0, k: k as u128 })
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.konst(w, k);
        }
        let n = self.nodes[a as usize].clone();
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        self.intern(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.konst(w, sx(k, wa) as u128);
        }
        self.intern(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.konst(w, k >> lo);
        }
        let n = self.nodes[a as usize].clone();
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.konst(w, 0);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.zext(n.a, w);
                }
            }
            Op::Concat => {
                let wb = self.w(n.b);
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let w = self.w(a) + self.w(b);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.konst(w, (x << self.w(b)) | y);
        }
        if self.is_const(a) == Some(0) {
            return self.zext(b, w);
        }
        let (na, nb) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone());
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
            return self.extract(na.a, nb.k as u32, w);
        }
        self.intern(Node { op: Op::Concat, w, a, b, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.is_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
                return if x == 1 && y == 0 { c } else { self.not(c) };
            }
        }
        self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.konst(w, mask(w));
        self.bin(Op::Xor, a, m)
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let wa = self.w(a);
        debug_assert_eq!(wa, self.w(b), "{:?}", op);
        let w = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => wa,
        };
        let (ka, kb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let v = eval_op(op, w, wa, x, y, 0, 0);
            return self.konst(w, v);
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (ka.is_some() || (kb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let kb = self.is_const(b);
        let ones = mask(wa);
        if let Some(k) = kb {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
                Op::And if k == ones => return a,
                Op::And | Op::Mul if k == 0 => return self.konst(w, 0),
                Op::Or if k == ones => return self.konst(w, ones),
                Op::Mul if k == 1 => return a,
                Op::Ult if k == 0 => return self.konst(1, 0),
                Op::Eq if wa == 1 => {
                    return if k == 1 {
                        a
                    } else {
                        let one = self.konst(1, 1);
                        self.bin(Op::Xor, a, one)
                    }
                }
                _ => {}
            }
            let na = self.nodes[a as usize].clone();
            match (op, na.op) {
                (Op::Xor, Op::Xor) | (Op::Add, Op::Add) => {
                    if let Some(k2) = self.is_const(na.b) {
                        let k3 = eval_op(op, w, wa, k, k2, 0, 0);
                        let kk = self.konst(w, k3);
                        return self.bin(op, na.a, kk);
                    }
                }
                (Op::Eq, Op::ZExt) => {
                    let wi = self.w(na.a);
                    if k > mask(wi) {
                        return self.konst(1, 0);
                    }
                    let kk = self.konst(wi, k);
                    return self.bin(Op::Eq, na.a, kk);
                }
                _ => {}
            }
            if op == Op::Sub {
                let kk = self.konst(w, (!k).wrapping_add(1));
                return self.bin(Op::Add, a, kk);
            }
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.konst(w, 0),
                Op::And | Op::Or => return a,
                Op::Eq | Op::Ule | Op::Sle => return self.konst(1, 1),
                Op::Ult | Op::Slt => return self.konst(1, 0),
                _ => {}
            }
        }
        self.intern(Node { op, w, a, b, c: 0, k: 0 })
    }
    /// Rebuild `e` with the sub-expressions for which `f` gives a constant replaced by it.
    pub fn subst(&mut self, e: E, f: &mut dyn FnMut(&mut Exprs, E) -> Option<u128>, memo: &mut HashMap<E, E>) -> E {
        if self.supp[e as usize] == 0 {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let w = self.w(e);
        let r = if let Some(k) = f(self, e) {
            self.konst(w, k)
        } else if self.single(e).is_some() {
            e
        } else {
            let n = self.nodes[e as usize].clone();
            match n.op {
                Op::Const | Op::Var => e,
                Op::ZExt => {
                    let a = self.subst(n.a, f, memo);
                    self.zext(a, w)
                }
                Op::SExt => {
                    let a = self.subst(n.a, f, memo);
                    self.sext(a, w)
                }
                Op::Extract => {
                    let a = self.subst(n.a, f, memo);
                    self.extract(a, n.k as u32, w)
                }
                Op::Sel => {
                    let a = self.subst(n.a, f, memo);
                    if a == n.a {
                        e
                    } else if let Some(k) = self.is_const(a) {
                        let tb = self.sels[n.k as usize].clone();
                        let v = match tb.binary_search_by_key(&(k as u64), |p| p.0) {
                            Ok(j) => tb[j].1,
                            Err(_) => 0,
                        };
                        self.konst(w, v as u128)
                    } else {
                        self.intern(Node { op: Op::Sel, w, a, b: 0, c: 0, k: n.k })
                    }
                }
                Op::Concat => {
                    let a = self.subst(n.a, f, memo);
                    let b = self.subst(n.b, f, memo);
                    self.concat(a, b)
                }
                Op::Ite => {
                    let a = self.subst(n.a, f, memo);
                    if let Some(k) = self.is_const(a) {
                        if k != 0 {
                            self.subst(n.b, f, memo)
                        } else {
                            self.subst(n.c, f, memo)
                        }
                    } else {
                        let b = self.subst(n.b, f, memo);
                        let c = self.subst(n.c, f, memo);
                        self.ite(a, b, c)
                    }
                }
                _ => {
                    let a = self.subst(n.a, f, memo);
                    let b = self.subst(n.b, f, memo);
                    self.bin(n.op, a, b)
                }
            }
        };
        memo.insert(e, r);
        r
    }
}
