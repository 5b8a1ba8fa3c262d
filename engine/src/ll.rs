//! Parser for LLVM textual IR (opaque pointers) and lowering to `ir`.
use crate::expr::{eval_op, mask, Op};
use crate::ir::*;
use crate::ty::Ty;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Meta(String),
    Attr(String),
    P(char),
    Dots,
}

fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    let hex = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
    while i < s.len() {
        if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else if s[i] == b'\\' && i + 2 < s.len() && hex(s[i + 1]).is_some() && hex(s[i + 2]).is_some() {
            o.push(hex(s[i + 1]).unwrap() * 16 + hex(s[i + 2]).unwrap());
            i += 3;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

pub fn tokenize(s: &[u8], stop_at_meta: bool) -> Vec<Tok> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < s.len() && s[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let (nm, j) = if i + 1 < s.len() && s[i + 1] == b'"' {
                    let mut j = i + 2;
                    while s[j] != b'"' {
                        j += 1;
                    }
                    (String::from_utf8_lossy(&unescape(&s[i + 2..j])).into_owned(), j + 1)
                } else {
                    let mut j = i + 1;
                    while j < s.len() && is_name(s[j]) {
                        j += 1;
                    }
                    (String::from_utf8_lossy(&s[i + 1..j]).into_owned(), j)
                };
                v.push(if c == b'%' { Tok::Local(nm) } else { Tok::Global(nm) });
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while s[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::Str(unescape(&s[i + 1..j])));
                i = j + 1;
            }
            b'c' if i + 1 < s.len() && s[i + 1] == b'"' => {
                let mut j = i + 2;
                while s[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::CStr(unescape(&s[i + 2..j])));
                i = j + 1;
            }
            b'!' => {
                if stop_at_meta && matches!(v.last(), Some(Tok::P(','))) {
                    v.pop();
                    let rest = String::from_utf8_lossy(&s[i..]);
                    if let Some(p) = rest.find("!dbg !") {
                        let n: String = rest[p + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
                        v.push(Tok::Meta(n));
                    }
                    return v;
                }
                let mut j = i + 1;
                while j < s.len() && is_name(s[j]) {
                    j += 1;
                }
                v.push(Tok::Word(String::from_utf8_lossy(&s[i..j]).into_owned()));
                i = j.max(i + 1);
            }
            b'#' => {
                let mut j = i + 1;
                while j < s.len() && is_name(s[j]) {
                    j += 1;
                }
                v.push(Tok::Attr(String::from_utf8_lossy(&s[i + 1..j]).into_owned()));
                i = j;
            }
            b'0'..=b'9' | b'-' => {
                let mut j = i + 1;
                while j < s.len() && (is_name(s[j]) || s[j] == b'+') {
                    j += 1;
                }
                v.push(Tok::Num(String::from_utf8_lossy(&s[i..j]).into_owned()));
                i = j;
            }
            b'.' if s[i..].starts_with(b"...") => {
                v.push(Tok::Dots);
                i += 3;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let mut j = i + 1;
                while j < s.len() && is_name(s[j]) {
                    j += 1;
                }
                v.push(Tok::Word(String::from_utf8_lossy(&s[i..j]).into_owned()));
                i = j;
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

pub struct Global {
    pub addr: u64,
    pub size: u64,
    pub init: (usize, usize), // text range of the initializer (type included)
    pub has_init: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FKind {
    Defined,
    Extern,
    Weak,
}

pub struct FnEntry {
    pub name: String,
    pub range: (usize, usize),
    pub kind: FKind,
    pub lowered: Cell<Option<&'static Func>>,
    pub model: Cell<u32>, // external-model number, resolved lazily
}

pub const FN_BASE: u64 = 0x10_0000;
pub const GLOBAL_BASE: u64 = 0x100_0000;

pub struct Module {
    pub text: &'static [u8],
    pub types: HashMap<String, Ty>,
    pub globals: HashMap<String, Global>,
    pub fns: RefCell<Vec<FnEntry>>,
    pub fn_ix: RefCell<HashMap<String, u32>>,
    pub aliases: HashMap<String, String>,
    pub global_end: u64,
    pub meta_pos: HashMap<u32, usize>,
}

pub struct P<'m> {
    pub t: Vec<Tok>,
    pub i: usize,
    pub m: &'m Module,
}

impl<'m> P<'m> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        self.i += 1;
        self.t.get(self.i - 1).cloned().unwrap_or(Tok::P('\0'))
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x == w)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {:?} at {} in {:?}", c, self.i, self.t);
        }
    }
    fn at_ty(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => {
                matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "label" | "metadata" | "half" | "x86_fp80" | "fp128" | "token")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P(c)) => matches!(c, '[' | '{' | '<'),
            Some(Tok::Local(_)) => true,
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.is_w("addrspace") {
                        self.i += 4;
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" | "token" => Ty::Meta,
                "x86_fp80" | "fp128" => Ty::Int(128),
                "half" => Ty::Int(16),
                _ => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {} in {:?}", w, self.t))),
            },
            Tok::P('[') => {
                let n = self.num();
                assert!(self.eat_w("x"));
                let e = self.ty();
                self.expect(']');
                Ty::Arr(n as u64, Rc::new(e))
            }
            Tok::P('{') => {
                let mut f = vec![];
                if !self.eat('}') {
                    loop {
                        f.push(self.ty());
                        if !self.eat(',') {
                            break;
                        }
                    }
                    self.expect('}');
                }
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut f = vec![];
                    if !self.eat('}') {
                        loop {
                            f.push(self.ty());
                            if !self.eat(',') {
                                break;
                            }
                        }
                        self.expect('}');
                    }
                    self.expect('>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num();
                    assert!(self.eat_w("x"));
                    let e = self.ty();
                    self.expect('>');
                    Ty::Vec(n as u32, Rc::new(e))
                }
            }
            Tok::Local(n) => self.m.types.get(&n).cloned().unwrap_or_else(|| panic!("type %{}", n)),
            x => panic!("type expected, found {:?} at {} in {:?}", x, self.i, self.t),
        };
        t
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            Tok::Num(s) => parse_num(&s),
            x => panic!("number expected, found {:?} in {:?}", x, self.t),
        }
    }
    /// skip parameter / return attributes up to a type (before_ty) or a value
    fn skip_attrs(&mut self, before_ty: bool) {
        loop {
            if before_ty && self.at_ty() {
                return;
            }
            match self.peek() {
                Some(Tok::Word(w)) => {
                    if !before_ty && is_value_word(w) {
                        return;
                    }
                    let al = w == "align";
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_group();
                    } else if al {
                        self.i += 1;
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                Some(Tok::Attr(_)) => self.i += 1,
                _ => return,
            }
        }
    }
    fn skip_group(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') | Tok::P('[') | Tok::P('{') => d += 1,
                Tok::P(')') | Tok::P(']') | Tok::P('}') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::P('\0') => panic!("unbalanced {:?}", self.t),
                _ => {}
            }
        }
    }
    /// A constant of type `ty`.
    pub fn konst(&mut self, ty: &Ty) -> Val {
        match self.next() {
            Tok::Num(s) => match ty {
                Ty::F64 => {
                    if let Some(h) = s.strip_prefix("0x") {
                        Val::C(u64::from_str_radix(h, 16).unwrap_or(0))
                    } else {
                        Val::C(s.parse::<f64>().unwrap_or(0.0).to_bits())
                    }
                }
                Ty::F32 => {
                    if let Some(h) = s.strip_prefix("0x") {
                        let d = f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0));
                        Val::C((d as f32).to_bits() as u64)
                    } else {
                        Val::C(s.parse::<f32>().unwrap_or(0.0).to_bits() as u64)
                    }
                }
                _ => cval(ty.bits(), parse_num(&s) as u128),
            },
            Tok::Word(w) => match w.as_str() {
                "true" => Val::C(1),
                "false" => Val::C(0),
                "null" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" | "none" => zero(ty),
                "splat" => {
                    self.expect('(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    self.expect(')');
                    Val::A(Rc::new(vec![v; ty.nfields()]))
                }
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::Word(w)) if matches!(w.as_str(), "inbounds"|"nuw"|"nusw"|"inrange")) {
                        let inr = self.is_w("inrange");
                        self.i += 1;
                        if inr && self.is_p('(') {
                            self.skip_group();
                        }
                    }
                    self.expect('(');
                    let t = self.ty();
                    self.expect(',');
                    let pt = self.ty();
                    let base = as_c(&self.konst(&pt));
                    let mut addr = base;
                    let mut cur = t;
                    let mut first = true;
                    while self.eat(',') {
                        let it = self.ty();
                        let v = as_c(&self.konst(&it));
                        let w = it.bits();
                        let v = if w < 64 { ((v << (64 - w)) as i64 >> (64 - w)) as u64 } else { v };
                        if first {
                            addr = addr.wrapping_add(cur.size().wrapping_mul(v));
                            first = false;
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    let (o, t2) = cur.field(v as usize);
                                    addr = addr.wrapping_add(o);
                                    cur = t2;
                                }
                                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                    let e = (**e).clone();
                                    addr = addr.wrapping_add(e.size().wrapping_mul(v));
                                    cur = e;
                                }
                                _ => panic!("const gep"),
                            }
                        }
                    }
                    self.expect(')');
                    Val::C(addr)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                    self.expect('(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    assert!(self.eat_w("to"));
                    let t2 = self.ty();
                    self.expect(')');
                    if t2.is_scalar() {
                        cval(t2.bits(), to_u128(&v))
                    } else {
                        v
                    }
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                    while self.is_w("nuw") || self.is_w("nsw") {
                        self.i += 1;
                    }
                    self.expect('(');
                    let t = self.ty();
                    let a = to_u128(&self.konst(&t));
                    self.expect(',');
                    let t = self.ty();
                    let b = to_u128(&self.konst(&t));
                    self.expect(')');
                    let op = match w.as_str() {
                        "add" => Op::Add,
                        "sub" => Op::Sub,
                        "mul" => Op::Mul,
                        "xor" => Op::Xor,
                        "and" => Op::And,
                        "or" => Op::Or,
                        _ => Op::Shl,
                    };
                    cval(t.bits(), eval_op(op, t.bits(), t.bits(), a, b, 0, 0))
                }
                "asm" => panic!("asm operand"),
                "dso_local_equivalent" | "no_cfi" => self.konst(ty),
                _ => panic!("constant {} in {:?}", w, self.t),
            },
            Tok::Global(g) => Val::C(self.m.global_addr(&g)),
            Tok::CStr(s) => Val::A(Rc::new(s.iter().map(|&b| Val::C(b as u64)).collect())),
            Tok::P('<') | Tok::P('{') | Tok::P('[') => {
                // aggregate
                let mut v = vec![];
                if self.is_p('{') && matches!(ty, Ty::Struct(_, true)) {
                    self.i += 1;
                }
                loop {
                    if matches!(self.peek(), Some(Tok::P('}')) | Some(Tok::P(']')) | Some(Tok::P('>'))) {
                        break;
                    }
                    let t = self.ty();
                    v.push(self.konst(&t));
                    if !self.eat(',') {
                        break;
                    }
                }
                self.i += 1;
                if matches!(ty, Ty::Struct(_, true)) {
                    self.expect('>');
                }
                Val::A(Rc::new(v))
            }
            x => panic!("constant expected, found {:?} at {} in {:?}", x, self.i, self.t),
        }
    }
}

fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast"
            | "trunc" | "zext" | "sext" | "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "asm" | "addrspacecast" | "ptrtoaddr" | "metadata"
    )
}

fn parse_num(s: &str) -> i128 {
    if let Some(h) = s.strip_prefix("0x") {
        return i128::from_str_radix(h, 16).unwrap_or(0);
    }
    s.parse::<i128>().or_else(|_| s.parse::<u128>().map(|x| x as i128)).unwrap_or_else(|_| panic!("num {}", s))
}

pub fn cval(w: u32, v: u128) -> Val {
    if w <= 64 {
        Val::C((v & mask(w)) as u64)
    } else {
        Val::W(Box::new(v & mask(w)))
    }
}
pub fn to_u128(v: &Val) -> u128 {
    match v {
        Val::C(x) => *x as u128,
        Val::W(x) => **x,
        _ => panic!("to_u128 {:?}", v),
    }
}
pub fn as_c(v: &Val) -> u64 {
    match v {
        Val::C(x) => *x,
        _ => panic!("as_c {:?}", v),
    }
}
pub fn zero(t: &Ty) -> Val {
    match t {
        Ty::Int(w) => cval(*w, 0),
        Ty::Ptr | Ty::F32 | Ty::F64 => Val::C(0),
        Ty::Arr(n, e) => Val::A(Rc::new(vec![zero(e); *n as usize])),
        Ty::Vec(n, e) => Val::A(Rc::new(vec![zero(e); *n as usize])),
        Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(zero).collect())),
        _ => Val::C(0),
    }
}

/// Little-endian bytes of a concrete constant laid out as `t`.
pub fn const_bytes(v: &Val, t: &Ty, out: &mut Vec<u8>) {
    match t {
        Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
            let n = t.size() as usize;
            out.extend_from_slice(&to_u128(v).to_le_bytes()[..n.min(16)]);
        }
        Ty::Arr(_, e) | Ty::Vec(_, e) => {
            if let Val::A(a) = v {
                for i in 0..t.nfields() {
                    const_bytes(&a[i], e, out);
                }
            }
        }
        Ty::Struct(f, _) => {
            let start = out.len();
            if let Val::A(a) = v {
                for (i, ft) in f.iter().enumerate() {
                    let (o, _) = t.field(i);
                    out.resize(start + o as usize, 0);
                    const_bytes(&a[i], ft, out);
                }
            }
            out.resize(start + t.size() as usize, 0);
        }
        _ => {}
    }
}

impl Module {
    pub fn global_addr(&self, g: &str) -> u64 {
        if let Some(x) = self.globals.get(g) {
            return x.addr;
        }
        if let Some(a) = self.aliases.get(g) {
            return self.global_addr(&a.clone());
        }
        let i = self.fn_index(g);
        if self.fns.borrow()[i as usize].kind == FKind::Weak {
            return 0;
        }
        FN_BASE + 16 * i as u64
    }
    pub fn fn_index(&self, g: &str) -> u32 {
        if let Some(a) = self.aliases.get(g) {
            let a = a.clone();
            return self.fn_index(&a);
        }
        if let Some(&i) = self.fn_ix.borrow().get(g) {
            return i;
        }
        let mut f = self.fns.borrow_mut();
        let i = f.len() as u32;
        f.push(FnEntry { name: g.to_string(), range: (0, 0), kind: FKind::Extern, lowered: Cell::new(None), model: Cell::new(0) });
        self.fn_ix.borrow_mut().insert(g.to_string(), i);
        i
    }

    pub fn load(text: &'static [u8]) -> Module {
        let mut m = Module {
            text,
            types: HashMap::new(),
            globals: HashMap::new(),
            fns: RefCell::new(vec![]),
            fn_ix: RefCell::new(HashMap::new()),
            aliases: HashMap::new(),
            global_end: 0,
            meta_pos: HashMap::new(),
        };
        let mut pos = 0;
        let mut gl: Vec<(String, usize, usize, bool)> = vec![];
        let mut tyl: Vec<(String, usize, usize)> = vec![];
        while pos < text.len() {
            let e = memchr(text, pos, b'\n');
            let line = &text[pos..e];
            let mut next = e + 1;
            match line.first() {
                Some(b'@') => {
                    // @name = ... global|constant ty init
                    let (nm, after) = name_at(line, 0);
                    let s = std::str::from_utf8(&line[after..]).unwrap_or("");
                    if let Some(p) = find_kw(s, &[" global ", " constant "]) {
                        let ext = s[..p.0].contains(" external") || s[..p.0].contains("extern_weak");
                        gl.push((nm, pos + after + p.1, e, !ext));
                    } else if let Some(p) = s.find(" alias ") {
                        let tk = tokenize(s[p..].as_bytes(), true);
                        if let Some(Tok::Global(t)) = tk.iter().rev().find(|t| matches!(t, Tok::Global(_))) {
                            m.aliases.insert(nm, t.clone());
                        }
                    }
                }
                Some(b'%') => {
                    let (nm, after) = name_at(line, 0);
                    tyl.push((nm, pos + after, e));
                }
                Some(b'd') if line.starts_with(b"define ") || line.starts_with(b"declare ") => {
                    let at = line.iter().position(|&c| c == b'@').unwrap();
                    let (nm, _) = name_at(line, at);
                    let def = line.starts_with(b"define ");
                    let weak = !def && line.windows(12).any(|w| w == b"extern_weak ");
                    let mut end = e;
                    if def {
                        // body ends at a line "}"
                        let mut q = next;
                        loop {
                            let qe = memchr(text, q, b'\n');
                            if &text[q..qe] == b"}" {
                                end = q;
                                next = qe + 1;
                                break;
                            }
                            q = qe + 1;
                        }
                    }
                    let f = m.fns.get_mut();
                    let ix = f.len() as u32;
                    f.push(FnEntry {
                        name: nm.clone(),
                        range: (pos, end),
                        kind: if def { FKind::Defined } else if weak { FKind::Weak } else { FKind::Extern },
                        lowered: Cell::new(None),
                        model: Cell::new(0),
                    });
                    m.fn_ix.get_mut().insert(nm, ix);
                }
                Some(b'!') => {
                    let mut n = 0u32;
                    let mut k = 1;
                    while k < line.len() && line[k].is_ascii_digit() {
                        n = n * 10 + (line[k] - b'0') as u32;
                        k += 1;
                    }
                    if k > 1 {
                        m.meta_pos.insert(n, pos);
                    }
                }
                _ => {}
            }
            pos = next;
        }
        // named types may refer to each other: iterate
        let mut left = tyl;
        while !left.is_empty() {
            let mut rest = vec![];
            let n0 = left.len();
            for (nm, a, b) in left {
                let tk = tokenize(&text[a..b], true);
                let ok = tk.iter().all(|t| match t {
                    Tok::Local(x) => m.types.contains_key(x),
                    _ => true,
                });
                if ok {
                    let mut p = P { t: tk, i: 0, m: &m };
                    p.eat('=');
                    p.eat_w("type");
                    if p.is_w("opaque") {
                        m.types.insert(nm, Ty::Void);
                        continue;
                    }
                    let t = p.ty();
                    m.types.insert(nm, t);
                } else {
                    rest.push((nm, a, b));
                }
            }
            if rest.len() == n0 {
                break;
            }
            left = rest;
        }
        // global addresses
        let mut a = GLOBAL_BASE;
        let mut gs = HashMap::new();
        for (nm, s, e, has) in gl {
            // the type is either bracketed or a single word
            let mut q = s;
            while q < e && text[q] == b' ' {
                q += 1;
            }
            let mut depth = 0i32;
            while q < e {
                match text[q] {
                    b'[' | b'{' | b'<' => depth += 1,
                    b']' | b'}' | b'>' => depth -= 1,
                    _ => {}
                }
                q += 1;
                if depth == 0 && (q >= e || matches!(text[q], b' ' | b',')) {
                    break;
                }
            }
            let tk = tokenize(&text[s..q.min(e)], true);
            let mut p = P { t: tk, i: 0, m: &m };
            let t = p.ty();
            let sz = t.size();
            a = (a + 15) / 16 * 16;
            gs.insert(nm, Global { addr: a, size: sz, init: (s, e), has_init: has });
            a += sz.max(1);
            a += 16;
        }
        m.globals = gs;
        m.global_end = a;
        m
    }

    pub fn lower(&self, ix: u32) -> &'static Func {
        if let Some(f) = self.fns.borrow()[ix as usize].lowered.get() {
            return f;
        }
        let (range, name) = {
            let f = self.fns.borrow();
            (f[ix as usize].range, f[ix as usize].name.clone())
        };
        let f: &'static Func = Box::leak(Box::new(lower_fn(self, &name, range)));
        self.fns.borrow()[ix as usize].lowered.set(Some(f));
        f
    }
}

fn find_kw(s: &str, kws: &[&str]) -> Option<(usize, usize)> {
    kws.iter().filter_map(|k| s.find(k).map(|p| (p, p + k.len()))).min()
}
fn memchr(t: &[u8], from: usize, c: u8) -> usize {
    t[from..].iter().position(|&x| x == c).map_or(t.len(), |p| from + p)
}
fn name_at(line: &[u8], at: usize) -> (String, usize) {
    if line.get(at + 1) == Some(&b'"') {
        let mut j = at + 2;
        while line[j] != b'"' {
            j += 1;
        }
        (String::from_utf8_lossy(&unescape(&line[at + 2..j])).into_owned(), j + 1)
    } else {
        let mut j = at + 1;
        while j < line.len() && is_name(line[j]) {
            j += 1;
        }
        (String::from_utf8_lossy(&line[at + 1..j]).into_owned(), j)
    }
}

struct Lower<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    consts: Vec<Val>,
    const_ix: HashMap<u64, u32>,
}

impl<'m> Lower<'m> {
    fn reg(&mut self, n: &str) -> R {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn kon(&mut self, v: Val) -> O {
        if let Val::C(x) = v {
            if let Some(&i) = self.const_ix.get(&x) {
                return i | KBIT;
            }
            self.const_ix.insert(x, self.consts.len() as u32);
        }
        self.consts.push(v);
        (self.consts.len() as u32 - 1) | KBIT
    }
    fn operand(&mut self, p: &mut P, ty: &Ty) -> O {
        if let Some(Tok::Local(n)) = p.peek() {
            let n = n.clone();
            p.i += 1;
            return self.reg(&n);
        }
        let v = p.konst(ty);
        self.kon(v)
    }
    fn ty_operand(&mut self, p: &mut P) -> (Ty, O) {
        let t = p.ty();
        let o = self.operand(p, &t);
        (t, o)
    }
}

struct RawBlock {
    name: String,
    lines: Vec<(Vec<Tok>, u32)>,
}

fn lower_fn(m: &Module, name: &str, range: (usize, usize)) -> Func {
    let text = &m.text[range.0..range.1];
    let hdr_end = memchr(text, 0, b'\n');
    let mut lw = Lower { m, regs: HashMap::new(), consts: vec![], const_ix: HashMap::new() };
    // header
    let hdr = tokenize(&text[..hdr_end], true);
    let gi = hdr.iter().position(|t| matches!(t, Tok::Global(_))).unwrap();
    let mut p = P { t: hdr, i: gi + 1, m };
    p.expect('(');
    let mut nparams = 0;
    let mut unnamed = 0;
    if !p.eat(')') {
        loop {
            if p.peek() == Some(&Tok::Dots) {
                p.i += 1;
            } else {
                let _t = p.ty();
                p.skip_attrs(false);
                if let Some(Tok::Local(n)) = p.peek() {
                    let n = n.clone();
                    p.i += 1;
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    let r = lw.reg(&n);
                    assert_eq!(r, nparams);
                } else {
                    let r = lw.reg(&format!("{}", unnamed));
                    unnamed += 1;
                    assert_eq!(r, nparams);
                }
                nparams += 1;
            }
            if !p.eat(',') {
                break;
            }
        }
        p.expect(')');
    }
    // split into blocks
    let mut blocks: Vec<RawBlock> = vec![];
    let mut pos = hdr_end + 1;
    let n = text.len();
    while pos < n {
        let e = memchr(text, pos, b'\n');
        let line = &text[pos..e];
        pos = e + 1;
        if line.is_empty() || line[0] == b';' {
            continue;
        }
        if line[0] != b' ' {
            // label
            let nm = if line[0] == b'"' {
                let mut j = 1;
                while line[j] != b'"' {
                    j += 1;
                }
                String::from_utf8_lossy(&unescape(&line[1..j])).into_owned()
            } else {
                let j = line.iter().position(|&c| c == b':').unwrap();
                String::from_utf8_lossy(&line[..j]).into_owned()
            };
            blocks.push(RawBlock { name: nm, lines: vec![] });
            continue;
        }
        let trimmed: &[u8] = {
            let mut k = 0;
            while k < line.len() && line[k] == b' ' {
                k += 1;
            }
            &line[k..]
        };
        if trimmed.is_empty() || trimmed[0] == b';' || trimmed[0] == b'#' {
            continue;
        }
        if blocks.is_empty() {
            blocks.push(RawBlock { name: format!("{}", unnamed), lines: vec![] });
        }
        // gather continuation lines
        let mut buf: Vec<u8> = trimmed.to_vec();
        let has = |b: &[u8], s: &[u8]| b.windows(s.len()).any(|w| w == s);
        if trimmed.starts_with(b"switch ") && !has(trimmed, b"]") {
            loop {
                let e = memchr(text, pos, b'\n');
                let l = &text[pos..e];
                pos = e + 1;
                buf.push(b' ');
                buf.extend_from_slice(l);
                if has(l, b"  ]") || l.iter().find(|&&c| c != b' ') == Some(&b']') {
                    break;
                }
            }
        } else if trimmed.starts_with(b"invoke ") || has(trimmed, b"= invoke ") {
            if !has(&buf, b" unwind label ") {
                let e = memchr(text, pos, b'\n');
                buf.push(b' ');
                buf.extend_from_slice(&text[pos..e]);
                pos = e + 1;
            }
        } else if has(trimmed, b"= landingpad ") {
            loop {
                let e = memchr(text, pos, b'\n');
                let l = &text[pos..e];
                let s = l.iter().position(|&c| c != b' ').unwrap_or(0);
                if l[s..].starts_with(b"cleanup") || l[s..].starts_with(b"catch") || l[s..].starts_with(b"filter") {
                    pos = e + 1;
                } else {
                    break;
                }
            }
        }
        let mut tk = tokenize(&buf, true);
        let mut dbg = 0;
        if let Some(Tok::Meta(n)) = tk.last() {
            dbg = n.parse().unwrap_or(0);
            tk.pop();
        }
        blocks.last_mut().unwrap().lines.push((tk, dbg));
    }
    let bix: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.name.clone(), i as u32)).collect();
    // phis: per block, list of (dst, [(pred, operand)])
    let mut phis: Vec<Vec<(R, HashMap<u32, O>)>> = vec![];
    for b in &blocks {
        let mut v = vec![];
        for (tk, _) in &b.lines {
            if tk.len() > 3 && matches!(&tk[2], Tok::Word(w) if w == "phi") {
                let d = match &tk[0] {
                    Tok::Local(n) => lw.reg(n),
                    _ => panic!(),
                };
                let mut p = P { t: tk.clone(), i: 3, m };
                while !p.at_ty() {
                    p.i += 1;
                }
                let t = p.ty();
                let mut mp = HashMap::new();
                loop {
                    p.expect('[');
                    let o = lw.operand(&mut p, &t);
                    p.expect(',');
                    let l = match p.next() {
                        Tok::Local(n) => n,
                        x => panic!("{:?}", x),
                    };
                    p.expect(']');
                    mp.insert(bix[&l], o);
                    if !p.eat(',') {
                        break;
                    }
                }
                v.push((d, mp));
            } else {
                break;
            }
        }
        phis.push(v);
    }
    let mut code: Vec<I> = vec![];
    let mut dbgs = vec![];
    let mut starts = vec![];
    for (bi, b) in blocks.iter().enumerate() {
        starts.push(code.len() as u32);
        let np = phis[bi].len();
        for (tk, dbg) in b.lines.iter().skip(np) {
            let ins = lower_ins(&mut lw, tk, bi as u32, &bix, &phis);
            code.push(ins);
            dbgs.push(*dbg);
        }
    }
    // patch targets
    let fix = |e: &mut Edge| e.target = starts[e.block as usize];
    for i in code.iter_mut() {
        match i {
            I::Br(e) => fix(e),
            I::CondBr { t, f, .. } => {
                fix(t);
                fix(f)
            }
            I::Switch { edges, .. } => edges.iter_mut().for_each(fix),
            I::Call { after: Some(e), .. } => fix(e),
            _ => {}
        }
    }
    let nb = blocks.len();
    Func {
        name: name.to_string(),
        code,
        consts: lw.consts,
        nregs: lw.regs.len() as u32,
        nparams,
        cov: (0..nb).map(|_| Cell::new(false)).collect(),
        dbg: dbgs,
        block_start: starts,
        execs: Cell::new(0),
    }
}

fn lower_ins(lw: &mut Lower, tk: &[Tok], bi: u32, bix: &HashMap<String, u32>, phis: &[Vec<(R, HashMap<u32, O>)>]) -> I {
    let mut p = P { t: tk.to_vec(), i: 0, m: lw.m };
    let mut d: Option<R> = None;
    if let Some(Tok::Local(n)) = p.peek() {
        let n = n.clone();
        d = Some(lw.reg(&n));
        p.i += 1;
        p.expect('=');
    }
    let edge = |l: &str| -> Edge {
        let b = bix[l];
        let moves: Vec<(R, O)> = phis[b as usize].iter().map(|(d, mp)| (*d, mp[&bi])).collect();
        Edge { target: 0, block: b, moves: moves.into_boxed_slice() }
    };
    let label = |p: &mut P| -> String {
        assert!(p.eat_w("label"), "{:?}", p.t);
        match p.next() {
            Tok::Local(n) => n,
            x => panic!("{:?}", x),
        }
    };
    let mut op = match p.next() {
        Tok::Word(w) => w,
        x => panic!("opcode {:?} in {:?}", x, p.t),
    };
    while matches!(op.as_str(), "tail" | "musttail" | "notail") {
        op = match p.next() {
            Tok::Word(w) => w,
            x => panic!("{:?}", x),
        };
    }
    let skip_words = |p: &mut P, ws: &[&str]| {
        while matches!(p.peek(), Some(Tok::Word(w)) if ws.contains(&w.as_str())) {
            p.i += 1;
        }
    };
    match op.as_str() {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
            skip_words(&mut p, &["nuw", "nsw", "exact", "disjoint"]);
            let t = p.ty();
            let a = lw.operand(&mut p, &t);
            p.expect(',');
            let b = lw.operand(&mut p, &t);
            let o = match op.as_str() {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::UDiv,
                "sdiv" => Op::SDiv,
                "urem" => Op::URem,
                "srem" => Op::SRem,
                "and" => Op::And,
                "or" => Op::Or,
                "xor" => Op::Xor,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                _ => Op::AShr,
            };
            match &t {
                Ty::Vec(_, e) => I::VBin { op: o, w: e.bits(), d: d.unwrap(), a, b },
                _ => I::Bin { op: o, w: t.bits(), d: d.unwrap(), a, b },
            }
        }
        "icmp" => {
            skip_words(&mut p, &["samesign"]);
            let pr = match p.next() {
                Tok::Word(w) => match w.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    _ => Pred::Sge,
                },
                x => panic!("{:?}", x),
            };
            let t = p.ty();
            let a = lw.operand(&mut p, &t);
            p.expect(',');
            let b = lw.operand(&mut p, &t);
            match &t {
                Ty::Vec(_, e) => I::VIcmp { p: pr, w: e.bits(), d: d.unwrap(), a, b },
                _ => I::Icmp { p: pr, w: t.bits(), d: d.unwrap(), a, b },
            }
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" | "bitcast" | "freeze" => {
            skip_words(&mut p, &["nneg", "nuw", "nsw"]);
            let t = p.ty();
            let a = lw.operand(&mut p, &t);
            if op == "freeze" {
                return I::Cast { k: Cast::Copy, from: 0, to: 0, d: d.unwrap(), a };
            }
            assert!(p.eat_w("to"));
            let t2 = p.ty();
            if op == "bitcast" {
                if t.is_scalar() && t2.is_scalar() {
                    return I::Cast { k: Cast::Copy, from: 0, to: 0, d: d.unwrap(), a };
                }
                return I::Bitcast { d: d.unwrap(), a, from: t, to: t2 };
            }
            let (f, to, vec) = match (&t, &t2) {
                (Ty::Vec(_, x), Ty::Vec(_, y)) => (x.bits(), y.bits(), true),
                _ => (t.bits(), t2.bits(), false),
            };
            let k = match op.as_str() {
                "sext" => Cast::Sext,
                _ if f == to => Cast::Copy,
                _ if f < to => Cast::Zext,
                _ => Cast::Trunc,
            };
            if vec {
                I::VCast { k, from: f, to, d: d.unwrap(), a }
            } else {
                I::Cast { k, from: f, to, d: d.unwrap(), a }
            }
        }
        "select" => {
            skip_words(&mut p, &["fast", "nnan", "ninf", "nsz"]);
            let (ct, c) = lw.ty_operand(&mut p);
            p.expect(',');
            let (t, a) = lw.ty_operand(&mut p);
            p.expect(',');
            let (_, b) = lw.ty_operand(&mut p);
            I::Select { d: d.unwrap(), c, a, b, ty: t, vcond: matches!(ct, Ty::Vec(..)) }
        }
        "load" => {
            skip_words(&mut p, &["atomic", "volatile"]);
            let t = p.ty();
            p.expect(',');
            let (_, a) = lw.ty_operand(&mut p);
            let d = d.unwrap();
            if t.is_scalar() && t.bits() <= 64 {
                I::Load { d, p: a, n: t.store_size() as u8, w: t.bits() }
            } else {
                I::LoadTy { d, p: a, ty: t }
            }
        }
        "store" => {
            skip_words(&mut p, &["atomic", "volatile"]);
            let (t, v) = lw.ty_operand(&mut p);
            p.expect(',');
            let (_, a) = lw.ty_operand(&mut p);
            if t.is_scalar() && t.bits() <= 64 {
                I::Store { v, p: a, n: t.store_size() as u8, w: t.bits() }
            } else {
                I::StoreTy { v, p: a, ty: t }
            }
        }
        "getelementptr" => {
            skip_words(&mut p, &["inbounds", "nuw", "nusw"]);
            let t = p.ty();
            p.expect(',');
            let (bt, base) = lw.ty_operand(&mut p);
            if matches!(bt, Ty::Vec(..)) {
                return I::Unsupported("vector gep".into());
            }
            let mut off = 0u64;
            let mut terms = vec![];
            let mut cur = t;
            let mut first = true;
            while p.eat(',') {
                let (it, o) = lw.ty_operand(&mut p);
                if matches!(it, Ty::Vec(..)) {
                    return I::Unsupported("vector gep".into());
                }
                let w = it.bits();
                let cst = if o & KBIT != 0 {
                    let v = as_c(&lw.consts[(o & !KBIT) as usize]);
                    Some(if w < 64 { ((v << (64 - w)) as i64 >> (64 - w)) as u64 } else { v })
                } else {
                    None
                };
                let sz = if first {
                    first = false;
                    cur.size()
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            let (fo, ft) = cur.field(cst.expect("struct index") as usize);
                            off = off.wrapping_add(fo);
                            cur = ft;
                            continue;
                        }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => {
                            let e = (**e).clone();
                            let s = e.size();
                            cur = e;
                            s
                        }
                        _ => panic!("gep {:?}", p.t),
                    }
                };
                match cst {
                    Some(v) => off = off.wrapping_add(sz.wrapping_mul(v)),
                    None => terms.push((o, w, sz)),
                }
            }
            I::Gep { d: d.unwrap(), base, off, terms: terms.into_boxed_slice() }
        }
        "alloca" => {
            skip_words(&mut p, &["inalloca"]);
            let t = p.ty();
            let mut n = 1;
            let mut align = t.align();
            while p.eat(',') {
                if p.eat_w("align") {
                    align = p.num() as u64;
                } else {
                    let (_, o) = lw.ty_operand(&mut p);
                    if o & KBIT == 0 {
                        return I::Unsupported("dynamic alloca".into());
                    }
                    n = as_c(&lw.consts[(o & !KBIT) as usize]);
                }
            }
            I::Alloca { d: d.unwrap(), size: t.size() * n, align }
        }
        "call" | "invoke" => {
            // calling convention, attributes, return type
            loop {
                p.skip_attrs(true);
                if p.at_ty() {
                    break;
                }
                match p.peek() {
                    Some(Tok::Num(_)) => p.i += 1,
                    _ => panic!("call {:?}", p.t),
                }
            }
            let rt = p.ty();
            if p.is_p('(') {
                p.skip_group(); // function type of a vararg call
            }
            let callee = match p.next() {
                Tok::Global(g) => {
                    let ix = lw.m.fn_index(&g);
                    Callee::Direct(ix)
                }
                Tok::Local(n) => Callee::Indirect(lw.reg(&n)),
                Tok::Word(w) if w == "asm" => {
                    let s = p.t.iter().filter_map(|t| if let Tok::Str(s) = t { Some(String::from_utf8_lossy(s).into_owned()) } else { None }).next().unwrap_or_default();
                    if s.is_empty() {
                        return I::Nop;
                    }
                    if s.contains("cpuid") {
                        let z = lw.kon(zero(&rt));
                        return I::Cast { k: Cast::Copy, from: 0, to: 0, d: d.unwrap(), a: z };
                    }
                    return I::Unsupported(format!("asm {}", s));
                }
                x => return I::Unsupported(format!("callee {:?}", x)),
            };
            p.expect('(');
            let mut args = vec![];
            let mut argw = vec![];
            if !p.eat(')') {
                loop {
                    let t = p.ty();
                    if t == Ty::Meta {
                        // metadata argument: skip to , or )
                        while !p.is_p(',') && !p.is_p(')') {
                            if p.is_p('(') {
                                p.skip_group();
                            } else {
                                p.i += 1;
                            }
                        }
                    } else {
                        p.skip_attrs(false);
                        let o = lw.operand(&mut p, &t);
                        args.push(o);
                        argw.push(match &t {
                            Ty::Vec(_, e) => e.bits(),
                            t if t.is_scalar() => t.bits(),
                            _ => 0,
                        });
                    }
                    if !p.eat(',') {
                        break;
                    }
                }
                p.expect(')');
            }
            let mut after = None;
            if op == "invoke" {
                while !p.is_w("to") {
                    p.i += 1;
                }
                p.i += 1;
                let l = label(&mut p);
                after = Some(Box::new(edge(&l)));
            }
            if let Callee::Direct(ix) = callee {
                let nm = lw.m.fns.borrow()[ix as usize].name.clone();
                if nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.dbg") || nm == "llvm.assume" {
                    return I::Nop;
                }
            }
            I::Call { d, callee, args: args.into_boxed_slice(), ret: rt, after, argw: argw.into_boxed_slice() }
        }
        "extractvalue" => {
            let (_, a) = lw.ty_operand(&mut p);
            let mut idx = vec![];
            while p.eat(',') {
                idx.push(p.num() as u32);
            }
            I::ExtractVal { d: d.unwrap(), a, idx: idx.into_boxed_slice() }
        }
        "insertvalue" => {
            let (_, a) = lw.ty_operand(&mut p);
            p.expect(',');
            let (_, v) = lw.ty_operand(&mut p);
            let mut idx = vec![];
            while p.eat(',') {
                idx.push(p.num() as u32);
            }
            I::InsertVal { d: d.unwrap(), a, v, idx: idx.into_boxed_slice() }
        }
        "extractelement" => {
            let (_, a) = lw.ty_operand(&mut p);
            p.expect(',');
            let (_, i) = lw.ty_operand(&mut p);
            I::ExtractElt { d: d.unwrap(), a, i }
        }
        "insertelement" => {
            let (_, a) = lw.ty_operand(&mut p);
            p.expect(',');
            let (_, v) = lw.ty_operand(&mut p);
            p.expect(',');
            let (_, i) = lw.ty_operand(&mut p);
            I::InsertElt { d: d.unwrap(), a, v, i }
        }
        "shufflevector" => {
            let (t, a) = lw.ty_operand(&mut p);
            p.expect(',');
            let (_, b) = lw.ty_operand(&mut p);
            p.expect(',');
            let mt = p.ty();
            let n = t.nfields() as u32;
            let mask: Vec<Option<u32>> = if p.is_w("zeroinitializer") {
                vec![Some(0); mt.nfields()]
            } else if p.is_w("poison") || p.is_w("undef") {
                vec![None; mt.nfields()]
            } else if p.is_w("splat") {
                match p.konst(&mt) {
                    Val::A(v) => v.iter().map(|x| Some(as_c(x) as u32)).collect(),
                    _ => panic!(),
                }
            } else {
                p.expect('<');
                let mut v = vec![];
                loop {
                    let _ = p.ty();
                    match p.next() {
                        Tok::Num(s) => v.push(Some(parse_num(&s) as u32)),
                        _ => v.push(None),
                    }
                    if !p.eat(',') {
                        break;
                    }
                }
                v
            };
            I::Shuffle { d: d.unwrap(), a, b, mask: mask.into_boxed_slice(), n }
        }
        "atomicrmw" => {
            skip_words(&mut p, &["volatile"]);
            let o = match p.next() {
                Tok::Word(w) => w,
                x => panic!("{:?}", x),
            };
            let (_, a) = lw.ty_operand(&mut p);
            p.expect(',');
            let (t, v) = lw.ty_operand(&mut p);
            let rop = match o.as_str() {
                "xchg" => Rmw::Xchg,
                "add" => Rmw::Add,
                "sub" => Rmw::Sub,
                "and" => Rmw::And,
                "or" => Rmw::Or,
                "xor" => Rmw::Xor,
                "umax" => Rmw::Umax,
                "umin" => Rmw::Umin,
                "max" => Rmw::Max,
                "min" => Rmw::Min,
                "nand" => Rmw::Nand,
                _ => return I::Unsupported(format!("atomicrmw {}", o)),
            };
            I::AtomicRmw { d: d.unwrap(), op: rop, p: a, v, w: t.bits() }
        }
        "cmpxchg" => {
            skip_words(&mut p, &["weak", "volatile"]);
            let (_, a) = lw.ty_operand(&mut p);
            p.expect(',');
            let (t, c) = lw.ty_operand(&mut p);
            p.expect(',');
            let (_, n) = lw.ty_operand(&mut p);
            I::CmpXchg { d: d.unwrap(), p: a, c, n, w: t.bits() }
        }
        "fence" => I::Nop,
        "landingpad" => I::Unsupported("landingpad".into()),
        "resume" => I::Unsupported("resume".into()),
        "br" => {
            if p.is_w("label") {
                let l = label(&mut p);
                I::Br(edge(&l))
            } else {
                let (_, c) = lw.ty_operand(&mut p);
                p.expect(',');
                let t = label(&mut p);
                p.expect(',');
                let f = label(&mut p);
                if t == f {
                    return I::Br(edge(&t));
                }
                I::CondBr { c, t: edge(&t), f: edge(&f) }
            }
        }
        "switch" => {
            let (t, v) = lw.ty_operand(&mut p);
            p.expect(',');
            let dl = label(&mut p);
            let mut edges = vec![edge(&dl)];
            let mut names: HashMap<String, u32> = HashMap::new();
            names.insert(dl, 0);
            let mut cases = vec![];
            p.expect('[');
            while !p.eat(']') {
                let ct = p.ty();
                let k = to_u128(&p.konst(&ct)) as u64;
                p.expect(',');
                let l = label(&mut p);
                let e = match names.get(&l) {
                    Some(&e) => e,
                    None => {
                        edges.push(edge(&l));
                        names.insert(l.clone(), edges.len() as u32 - 1);
                        edges.len() as u32 - 1
                    }
                };
                cases.push((k, e));
            }
            cases.sort();
            I::Switch { v, w: t.bits(), cases: cases.into_boxed_slice(), edges: edges.into_boxed_slice() }
        }
        "ret" => {
            if p.is_w("void") {
                I::Ret(None)
            } else {
                let (_, v) = lw.ty_operand(&mut p);
                I::Ret(Some(v))
            }
        }
        "unreachable" => I::Unreachable,
        _ => I::Unsupported(format!("{:?}", tk.iter().take(6).collect::<Vec<_>>())),
    }
}
