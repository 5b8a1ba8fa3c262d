//! Interface of the symbolic executor (see /verif/engine); natively these are
//! provided by /verif/rt/native.c, which replays one concrete input.
#![allow(dead_code)]

unsafe extern "C" {
    fn sym_u8(id: u32) -> u8;
    fn sym_choose(id: u32, n: u8) -> u8;
    fn sym_assume(c: bool);
    fn sym_fail(code: u32) -> !;
    fn sym_observe(v: u64);
    fn sym_cover(code: u32);
    fn sym_note(p: *const u8, l: u64);
    fn sym_expect_panic();
    fn sym_file(p: *const u8, n: u64, buf: *mut u8, cap: u64) -> u64;
    fn sym_concrete(v: u64) -> u64;
    fn sym_stderr();
}

/// Input byte number `id`: any value.
pub fn byte(id: u32) -> u8 {
    unsafe { sym_u8(id) }
}
/// Input byte number `id`: any value less than `n`.
pub fn choose(id: u32, n: usize) -> usize {
    unsafe { sym_choose(id, n as u8) as usize }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
/// Vacuity witness: the run must reach this on at least one path.
pub fn cover(code: u32) {
    unsafe { sym_cover(code) }
}
/// From here on a panic is the required outcome (native: abort ends the run).
pub fn expect_panic() {
    unsafe { sym_expect_panic() }
}
pub fn note(s: &str) {
    unsafe { sym_note(s.as_ptr(), s.len() as u64) }
}
pub fn fail(code: u32, what: &str) -> ! {
    note(what);
    unsafe { sym_fail(code) }
}
/// Input byte `id`: any of the bytes in `alphabet` (still symbolic afterwards).
pub fn byte_of(id: u32, alphabet: &[u8]) -> u8 {
    let b = byte(id);
    let mut ok = false;
    for a in alphabet {
        ok |= b == *a;
    }
    assume(ok);
    b
}

/// The contents of a file the run has written.
pub fn file(path: &str) -> Option<Vec<u8>> {
    let mut v = vec![0u8; 1 << 16];
    let n = unsafe { sym_file(path.as_ptr(), path.len() as u64, v.as_mut_ptr(), v.len() as u64) };
    if n == u64::MAX {
        return None;
    }
    if n as usize > v.len() {
        v = vec![0u8; n as usize];
        unsafe { sym_file(path.as_ptr(), path.len() as u64, v.as_mut_ptr(), v.len() as u64) };
    }
    v.truncate(n as usize);
    Some(v)
}
/// Forget what has been written to the standard error output; from now on it
/// can be had from `stderr`.
pub fn watch_stderr() {
    unsafe { sym_stderr() }
}
pub fn stderr() -> Vec<u8> {
    file("STDERR").unwrap_or_default()
}
/// One path for each value `v` can have.
pub fn split(v: u64) -> u64 {
    unsafe { sym_concrete(v) }
}

/// A pool of input bytes handed out one after the other.
pub struct Pool(pub u32);
impl Pool {
    pub fn choose(&mut self, n: usize) -> usize {
        let i = self.0;
        self.0 += 1;
        choose(i, n)
    }
    pub fn byte_of(&mut self, alphabet: &[u8]) -> u8 {
        let i = self.0;
        self.0 += 1;
        byte_of(i, alphabet)
    }
    pub fn byte(&mut self) -> u8 {
        let i = self.0;
        self.0 += 1;
        byte(i)
    }
    /// Any value less than `n`, each on a path of its own.
    pub fn pick(&mut self, n: usize) -> usize {
        split(self.choose(n) as u64) as usize
    }
    /// Like `text`, with each text on a path of its own.
    pub fn pick_text(&mut self, min: usize, max: usize, alphabet: &[u8]) -> String {
        let n = min + self.pick(max - min + 1);
        let mut s = String::with_capacity(max);
        for i in 0..max {
            if i < n {
                s.push(alphabet[self.pick(alphabet.len())] as char);
            }
        }
        s
    }
    /// A text of length `min..=max` over an ASCII alphabet.
    pub fn text(&mut self, min: usize, max: usize, alphabet: &[u8]) -> String {
        let n = min + self.choose(max - min + 1);
        let mut v = Vec::with_capacity(max);
        for i in 0..max {
            if i < n {
                v.push(self.byte_of(alphabet));
            }
        }
        // the alphabet is ASCII
        unsafe { String::from_utf8_unchecked(v) }
    }
    /// A text of `min..=max` characters from `chars`.
    pub fn chars(&mut self, min: usize, max: usize, chars: &[&str]) -> String {
        let n = min + self.choose(max - min + 1);
        let mut s = String::with_capacity(4 * max);
        for i in 0..max {
            if i < n {
                let k = self.choose(chars.len());
                for (j, c) in chars.iter().enumerate() {
                    if j == k {
                        s.push_str(c);
                    }
                }
            }
        }
        s
    }
    /// Any well-formed UTF-8 text of exactly `n` bytes.
    pub fn utf8(&mut self, n: usize) -> Option<String> {
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            v.push(self.byte());
        }
        String::from_utf8(v).ok()
    }
}

#[macro_export]
macro_rules! check {
    ($c:expr, $code:expr, $what:expr) => {
        if !$c {
            $crate::sym::fail($code, $what)
        }
    };
}
