//! Reference: languages of small grammars up to a length, and LALR(1)
//! conflicts by the textbook construction.
#![allow(dead_code)]

pub const NT: u8 = 8; // symbols >= NT are non terminals (NT = start), 1..NT terminals

#[derive(Clone, Debug)]
pub struct Prod {
    pub lhs: u8,
    pub rhs: Vec<u8>,
    /// precedence level and associativity (0 none, 1 left, 2 right)
    pub prec: (u8, u8),
    /// has a predicate
    pub pred: bool,
}
impl Prod {
    pub fn new(lhs: u8, rhs: Vec<u8>, prec: (u8, u8)) -> Prod {
        Prod { lhs, rhs, prec, pred: false }
    }
}
pub struct Gram {
    /// the non terminal that stands for an error, or 0
    pub error: u8,
    pub prods: Vec<Prod>,
    /// number of terminals besides the end marker, of non terminals
    pub nt: usize,
    pub nn: usize,
    /// precedence and associativity of the terminals (index 1..)
    pub tprec: Vec<(u8, u8)>,
}

/// Sets of strings over k terminals, as bits in order of length, then value.
pub type Set = u128;
/// The first string of a length: k^0 + ... + k^(len-1).
pub fn first(k: usize, len: usize) -> usize {
    let mut r = 0;
    for _ in 0..len {
        r = r * k + 1;
    }
    r
}
pub fn pow(k: usize, len: usize) -> usize {
    let mut r = 1;
    for _ in 0..len {
        r *= k;
    }
    r
}
pub fn concat(k: usize, a: Set, b: Set, max: usize) -> Set {
    if a == 0 || b == 0 {
        return 0;
    }
    if a == 1 {
        return b;
    }
    if b == 1 {
        return a;
    }
    let mut r = 0;
    for la in 0..=max {
        let fa = first(k, la);
        if a >> fa == 0 {
            break;
        }
        for x in 0..pow(k, la) {
            if a >> (fa + x) & 1 == 0 {
                continue;
            }
            for lb in 0..=max - la {
                // all strings x.y with |y| = lb are neighbours
                let n = pow(k, lb);
                let ys = b >> first(k, lb) & ((1 << n) - 1);
                r |= ys << (first(k, la + lb) + x * n);
            }
        }
    }
    r
}

pub struct Lang {
    /// strings of up to `max` terminals
    pub lang: Vec<Set>,
    /// prefixes of that length of any string
    pub prefix: Vec<Set>,
    /// derives some string at all
    pub productive: Vec<bool>,
}

impl Gram {
    fn term(s: u8) -> Set {
        1 << s
    }
    pub fn languages(&self, max: usize) -> Lang {
        let mut lang = vec![0; self.nn];
        loop {
            let mut changed = false;
            for p in &self.prods {
                let mut r = 1;
                for s in &p.rhs {
                    let x = if *s >= NT { lang[(s - NT) as usize] } else { Self::term(*s) };
                    r = concat(self.nt, r, x, max);
                }
                let l = (p.lhs - NT) as usize;
                if r & !lang[l] != 0 {
                    lang[l] |= r;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let mut productive = vec![false; self.nn];
        loop {
            let mut changed = false;
            for p in &self.prods {
                let l = (p.lhs - NT) as usize;
                if !productive[l] && p.rhs.iter().all(|s| *s < NT || productive[(s - NT) as usize]) {
                    productive[l] = true;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let mut prefix: Vec<Set> = vec![0; self.nn];
        loop {
            let mut changed = false;
            for p in &self.prods {
                if !p.rhs.iter().all(|s| *s < NT || productive[(s - NT) as usize]) {
                    continue;
                }
                let mut before = 1;
                let mut r = 1;
                for s in &p.rhs {
                    let (l, x) = if *s >= NT {
                        (lang[(s - NT) as usize], prefix[(s - NT) as usize])
                    } else {
                        (Self::term(*s), Self::term(*s) | 1)
                    };
                    r |= concat(self.nt, before, x, max);
                    before = concat(self.nt, before, l, max);
                }
                let l = (p.lhs - NT) as usize;
                if r & !prefix[l] != 0 {
                    prefix[l] |= r;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        Lang { lang, prefix, productive }
    }
    fn first_sets(&self) -> (Vec<u8>, Vec<bool>) {
        let mut f = vec![0u8; self.nn];
        let mut e = vec![false; self.nn];
        loop {
            let mut changed = false;
            for p in &self.prods {
                let l = (p.lhs - NT) as usize;
                let mut all = true;
                for s in &p.rhs {
                    let (x, n) = if *s >= NT { (f[(s - NT) as usize], e[(s - NT) as usize]) } else { (1 << s, false) };
                    changed |= x & !f[l] != 0;
                    f[l] |= x;
                    if !n {
                        all = false;
                        break;
                    }
                }
                if all && !e[l] {
                    e[l] = true;
                    changed = true;
                }
            }
            if !changed {
                return (f, e);
            }
        }
    }
    /// The LALR(1) automaton: look aheads are bit sets, bit 0 the end.
    pub fn lalr(&self) -> Lalr {
        let (fst, eps) = self.first_sets();
        // production number self.prods.len() is the added start production
        let n = self.prods.len();
        let start = vec![NT];
        let rhs = |p: usize| if p == n { &start } else { &self.prods[p].rhs };
        let mut kernels: Vec<Vec<(u8, u8)>> = vec![vec![(n as u8, 0)]];
        let mut las: Vec<Vec<u8>> = vec![vec![1]];
        let mut gos: Vec<Vec<(u8, usize)>> = vec![vec![]];
        let mut closed: Vec<Vec<(u8, u8, u8)>> = vec![vec![]];
        let mut todo = vec![true];
        while let Some(s) = todo.iter().position(|x| *x) {
            todo[s] = false;
            // closure: (production, dot, look ahead set)
            let mut c: Vec<(u8, u8, u8)> = kernels[s].iter().zip(las[s].iter()).map(|(k, l)| (k.0, k.1, *l)).collect();
            let mut changed = true;
            while changed {
                changed = false;
                let mut i = 0;
                while i < c.len() {
                    let (p, d, l) = c[i];
                    i += 1;
                    let r = rhs(p as usize);
                    if d as usize >= r.len() || r[d as usize] < NT {
                        continue;
                    }
                    let b = r[d as usize];
                    let mut la = 0;
                    let mut all = true;
                    for x in &r[d as usize + 1..] {
                        if *x < NT {
                            la |= 1 << x;
                            all = false;
                            break;
                        }
                        la |= fst[(x - NT) as usize];
                        if !eps[(x - NT) as usize] {
                            all = false;
                            break;
                        }
                    }
                    if all {
                        la |= l;
                    }
                    for (q, pr) in self.prods.iter().enumerate() {
                        if pr.lhs != b {
                            continue;
                        }
                        match c.iter().position(|x| x.0 == q as u8 && x.1 == 0) {
                            Some(j) => {
                                if la & !c[j].2 != 0 {
                                    c[j].2 |= la;
                                    changed = true;
                                }
                            }
                            None => {
                                c.push((q as u8, 0, la));
                                changed = true;
                            }
                        }
                    }
                }
            }
            let mut syms: Vec<u8> = vec![];
            for (p, d, _) in &c {
                if let Some(x) = rhs(*p as usize).get(*d as usize) {
                    if !syms.contains(x) {
                        syms.push(*x);
                    }
                }
            }
            gos[s].clear();
            for x in syms {
                let mut k: Vec<((u8, u8), u8)> = c
                    .iter()
                    .filter(|i| rhs(i.0 as usize).get(i.1 as usize) == Some(&x))
                    .map(|i| ((i.0, i.1 + 1), i.2))
                    .collect();
                k.sort();
                let key: Vec<(u8, u8)> = k.iter().map(|x| x.0).collect();
                let t = match kernels.iter().position(|q| *q == key) {
                    Some(t) => {
                        for (i, y) in k.iter().enumerate() {
                            if y.1 & !las[t][i] != 0 {
                                las[t][i] |= y.1;
                                todo[t] = true;
                            }
                        }
                        t
                    }
                    None => {
                        kernels.push(key);
                        las.push(k.iter().map(|x| x.1).collect());
                        gos.push(vec![]);
                        closed.push(vec![]);
                        todo.push(true);
                        kernels.len() - 1
                    }
                };
                gos[s].push((x, t));
            }
            closed[s] = c;
        }
        // what ends with an error gives way silently
        let tail = |p: usize| p != n && self.error > 0 && self.prods[p].rhs.last() == Some(&self.error);
        let mut r = Lalr { go: gos.clone(), ..Lalr::default() };
        for s in 0..kernels.len() {
            let mut shift = 0u8;
            for (x, _) in &gos[s] {
                if *x < NT {
                    shift |= 1 << x;
                }
            }
            let mut red: Vec<(usize, u8)> =
                closed[s].iter().filter(|i| i.1 as usize == rhs(i.0 as usize).len()).map(|i| (i.0 as usize, i.2)).collect();
            // the start production is declared first
            red.sort_by_key(|x| if x.0 == n { 0 } else { x.0 + 1 });
            let all_shift = shift;
            let (mut srs, mut rrs) = (vec![], vec![]);
            for i in 0..red.len() {
                for t in 1..=self.nt {
                    if all_shift >> t & 1 == 1 && red[i].1 >> t & 1 == 1 {
                        r.any = true;
                        let (tp, _) = self.tprec[t];
                        let (pp, pa) = if red[i].0 == n { (0, 0) } else { self.prods[red[i].0].prec };
                        if tp < pp || (tp == pp && pa == 1) {
                            shift &= !(1 << t);
                        } else if tp > pp || pa == 2 || tail(red[i].0) {
                            red[i].1 &= !(1 << t);
                        } else {
                            red[i].1 &= !(1 << t);
                            r.sr += 1;
                            srs.push((t, red[i].0));
                        }
                    }
                }
            }
            for i in 0..red.len() {
                for j in i + 1..red.len() {
                    let x = red[i].1 & red[j].1;
                    if x != 0 {
                        r.any = true;
                        if red[i].0 != n && self.prods[red[i].0].pred {
                            // decided when the parser runs
                        } else if tail(red[i].0) {
                            red[i].1 &= !x;
                        } else if tail(red[j].0) {
                            red[j].1 &= !x;
                        } else {
                            r.rr += 1;
                            red[j].1 &= !x;
                            rrs.push((red[i].0, red[j].0, x));
                        }
                    }
                }
            }
            let mut rec = 0;
            for (p, la) in &red {
                if tail(*p) {
                    rec |= la;
                }
            }
            r.recover.push(rec);
            r.srs.push(srs);
            r.rrs.push(rrs);
            r.shift.push(shift);
            r.reduce.push(red);
        }
        r.start = n;
        r.items = closed;
        (r.first, r.null) = (fst, eps);
        r
    }
}

#[derive(Default)]
pub struct Lalr {
    pub shift: Vec<u8>,
    /// state: (production, look aheads), after resolution
    pub reduce: Vec<Vec<(usize, u8)>>,
    pub go: Vec<Vec<(u8, usize)>>,
    /// tokens on which something that ends with an error is reduced
    pub recover: Vec<u8>,
    pub sr: u32,
    pub rr: u32,
    /// state: (token, production) and (production, production, look aheads) in conflict
    pub srs: Vec<Vec<(usize, usize)>>,
    pub rrs: Vec<Vec<(usize, usize, u8)>>,
    /// state: (production, dot, look aheads before resolution)
    pub items: Vec<Vec<(u8, u8, u8)>>,
    /// of non terminals: what they start with, whether they may be empty
    pub first: Vec<u8>,
    pub null: Vec<bool>,
    /// any conflict at all, resolved by precedence or not
    pub any: bool,
    pub start: usize,
}

impl Lalr {
    pub fn goto_(&self, s: usize, x: u8) -> usize {
        for (y, t) in &self.go[s] {
            if *y == x {
                return *t;
            }
        }
        usize::MAX
    }
}
