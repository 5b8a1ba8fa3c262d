//! Reads the tables back out of emitted parser code: nested `match`
//! expressions of the emitted functions, whatever their layout.
#![allow(dead_code)]

pub struct Code<'a> {
    pub toks: Vec<&'a [u8]>,
}

fn word(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_'
}

pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a == b
}

/// The length of hashes and a quote at the start.
fn raw(t: &[u8]) -> usize {
    let h = t.iter().take_while(|x| **x == b'#').count();
    if h < t.len() && t[h] == b'"' { h + 1 } else { 0 }
}

/// Words, `=>`, `::`, string literals and single characters; no comments.
pub fn tokens(t: &[u8]) -> Vec<&[u8]> {
    let mut v = Vec::with_capacity(t.len() / 3);
    let n = t.len();
    let mut i = 0;
    while i < n {
        let b = t[i];
        if b == b' ' || b == b'\n' || b == b'\t' || b == b'\r' {
            i += 1;
        } else if b == b'/' && i + 1 < n && t[i + 1] == b'/' {
            while i < n && t[i] != b'\n' {
                i += 1;
            }
        } else if b == b'r' && raw(&t[i + 1..]) > 0 {
            // a raw string ends with a quote and as many hashes
            let s = i;
            let h = raw(&t[i + 1..]);
            i += 1 + h;
            while i < n && !(t[i] == b'"' && t[i + 1..].iter().take(h - 1).filter(|x| **x == b'#').count() == h - 1) {
                i += 1;
            }
            i = (i + h).min(n);
            v.push(&t[s..i]);
        } else if word(b) {
            let s = i;
            while i < n && word(t[i]) {
                i += 1;
            }
            v.push(&t[s..i]);
        } else if b == b'"' {
            let s = i;
            i += 1;
            while i < n && t[i] != b'"' {
                if t[i] == b'\\' {
                    i += 1;
                }
                i += 1;
            }
            i += 1;
            v.push(&t[s..i.min(n)]);
        } else if i + 1 < n && ((b == b'=' && t[i + 1] == b'>') || (b == b':' && t[i + 1] == b':')) {
            v.push(&t[i..i + 2]);
            i += 2;
        } else {
            v.push(&t[i..i + 1]);
            i += 1;
        }
    }
    v
}

#[derive(Debug)]
pub enum Node<'a> {
    Match(Vec<(Vec<&'a [u8]>, Node<'a>)>),
    Leaf(Vec<&'a [u8]>),
}

impl<'a> Node<'a> {
    /// The first arm for `key`.
    pub fn arm(&self, key: &[u8]) -> Option<&Node<'a>> {
        if let Node::Match(v) = self {
            for (pats, n) in v {
                for p in pats {
                    if eq(p, key) || eq(p, b"_") {
                        return Some(n);
                    }
                }
            }
        }
        None
    }
    pub fn leaf(&self) -> &[&'a [u8]] {
        match self {
            Node::Leaf(v) => v,
            _ => &[],
        }
    }
}

fn value<'a>(t: &[&'a [u8]], i: &mut usize) -> Node<'a> {
    if *i < t.len() && eq(t[*i], b"match") {
        while *i < t.len() && !eq(t[*i], b"{") {
            *i += 1;
        }
        *i += 1;
        let mut arms = vec![];
        while *i < t.len() && !eq(t[*i], b"}") {
            // the last word of each alternative names it
            let mut pats = vec![];
            let mut last: &[u8] = b"";
            while *i < t.len() && !eq(t[*i], b"=>") {
                if eq(t[*i], b"|") {
                    pats.push(last);
                } else if word(t[*i][0]) {
                    last = t[*i];
                }
                *i += 1;
            }
            pats.push(last);
            *i += 1;
            let n = value(t, i);
            arms.push((pats, n));
            if *i < t.len() && eq(t[*i], b",") {
                *i += 1;
            }
        }
        *i += 1;
        return Node::Match(arms);
    }
    let mut v = vec![];
    let mut depth = 0;
    while *i < t.len() {
        let b = t[*i][0];
        if t[*i].len() == 1 {
            if depth == 0 && (b == b',' || b == b'}') {
                break;
            }
            if b == b'(' || b == b'[' || b == b'{' {
                depth += 1;
            }
            if b == b')' || b == b']' || b == b'}' {
                depth -= 1;
                if depth == 0 && b == b'}' {
                    v.push(t[*i]);
                    *i += 1;
                    break;
                }
            }
        }
        v.push(t[*i]);
        *i += 1;
    }
    Node::Leaf(v)
}

/// The `match` a function consists of.
pub fn function<'a>(t: &[&'a [u8]], name: &[u8]) -> Option<Node<'a>> {
    let mut i = 0;
    while i + 1 < t.len() && !(eq(t[i], b"fn") && eq(t[i + 1], name)) {
        i += 1;
    }
    if i + 1 >= t.len() {
        return None;
    }
    while i < t.len() && !eq(t[i], b"match") {
        // a function without a match
        if i > 0 && eq(t[i], b"fn") && !eq(t[i + 1], name) {
            return None;
        }
        i += 1;
    }
    Some(value(t, &mut i))
}

pub fn number(t: &[u8]) -> Option<usize> {
    let mut n = 0;
    if t.is_empty() {
        return None;
    }
    for b in t {
        if !b.is_ascii_digit() {
            return None;
        }
        n = 10 * n + (b - b'0') as usize;
    }
    Some(n)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    Shift(usize),
    Reduce(usize),
    Accept,
    Error,
}

fn action(n: &Node, truth: &[bool]) -> Option<Act> {
    act(n.leaf(), truth)
}
/// `truth[n]` is what the predicate `kn` says.
fn act(v: &[&[u8]], truth: &[bool]) -> Option<Act> {
    if let Some(i) = v.iter().position(|t| eq(t, b"if")) {
        // if condition { this } else that
        let mut j = i + 1;
        let mut k = None;
        while !eq(v.get(j)?, b"{") {
            if v[j][0] == b'k' && v[j].len() > 1 {
                k = number(&v[j][1..]);
            }
            j += 1;
        }
        let start = j + 1;
        let mut depth = 0;
        loop {
            if eq(v.get(j)?, b"{") {
                depth += 1;
            } else if eq(v[j], b"}") {
                depth -= 1;
                if depth == 0 {
                    break;
                }
            }
            j += 1;
        }
        return if *truth.get(k?)? { act(&v[start..j], truth) } else { act(&v[j + 1..], truth) };
    }
    // the word before the parenthesis, or the last one
    let mut name: &[u8] = b"";
    for (i, t) in v.iter().enumerate() {
        if word(t[0]) {
            name = t;
        } else if eq(t, b"(") {
            let k = number(v.get(i + 1)?)?;
            return if eq(name, b"Shift") {
                Some(Act::Shift(k))
            } else if eq(name, b"Reduce") {
                Some(Act::Reduce(k))
            } else {
                None
            };
        }
    }
    if eq(name, b"Accept") {
        Some(Act::Accept)
    } else if eq(name, b"SyntaxError") {
        Some(Act::Error)
    } else {
        None
    }
}

pub struct Tables {
    /// state x terminal
    pub act: Vec<Vec<Act>>,
    /// state x terminal: shown as expected
    pub expect: Vec<Vec<bool>>,
    /// production: non terminal, length
    pub prods: Vec<(usize, usize)>,
    /// state x non terminal
    pub go: Vec<Vec<usize>>,
}

pub const NONE: usize = 9999;

/// `terms[0]` is the end marker; `nts` names the non terminals.
pub fn tables(code: &[u8], terms: &[&[u8]], nts: &[&[u8]]) -> Option<Tables> {
    tables_with(code, terms, nts, &[])
}
/// The tables as they are when predicates say `truth`.
pub fn tables_with(code: &[u8], terms: &[&[u8]], nts: &[&[u8]], truth: &[bool]) -> Option<Tables> {
    let t = tokens(code);
    let next = function(&t, b"next_action")?;
    let look = function(&t, b"look_ahead_set")?;
    let data = function(&t, b"production_data")?;
    let goto_ = function(&t, b"goto_state")?;
    let (Node::Match(states), Node::Match(ps)) = (&next, &data) else { return None };
    let mut r = Tables { act: vec![], expect: vec![], prods: vec![], go: vec![] };
    let mut s = 0;
    let mut num = vec![];
    while s < states.len() {
        let Some(k) = number(states[s].0[0]) else { break };
        if k != s {
            return None;
        }
        num.push(states[s].0[0]);
        let mut row = vec![];
        for x in terms {
            row.push(action(states[s].1.arm(x)?, truth)?);
        }
        r.act.push(row);
        s += 1;
    }
    for k in num.iter() {
        let l = look.arm(k)?.leaf();
        let mut row = vec![];
        for x in terms {
            row.push(l.iter().any(|y| eq(x, y)));
        }
        r.expect.push(row);
        let g = goto_.arm(k);
        let mut row = vec![];
        for x in nts {
            let n = g.and_then(|g| g.arm(x)).map(|n| n.leaf());
            row.push(match n {
                Some(l) if l.len() == 1 => number(l[0]).unwrap_or(NONE),
                _ => NONE,
            });
        }
        r.go.push(row);
    }
    for (i, (p, n)) in ps.iter().enumerate() {
        let Some(k) = number(p[0]) else { break };
        if k != i {
            return None;
        }
        let l = n.leaf();
        // ( AANonTerminal :: Name , len )
        let mut which = NONE;
        let mut len = NONE;
        for x in l {
            for (j, y) in nts.iter().enumerate() {
                if eq(x, y) {
                    which = j;
                }
            }
            if let Some(k) = number(x) {
                len = k;
            }
        }
        if len == NONE {
            return None;
        }
        r.prods.push((which, len));
    }
    Some(r)
}
