//! Flat paged copy-on-write memory with a per-byte symbolic shadow.
use crate::expr::E;
use std::rc::Rc;

pub const PAGE: usize = 1024;
const SH: u32 = 10;
const OM: u64 = PAGE as u64 - 1;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PAGE],
    pub s: Option<Box<[E; PAGE]>>,
}

const LN: usize = 256;
type Leaf = Vec<Option<Rc<Page>>>;
type Mid = Vec<Option<Rc<Leaf>>>;

#[derive(Clone)]
pub struct Mem {
    top: Vec<Option<Rc<Mid>>>,
}

#[derive(Debug)]
pub struct BadAddr(pub u64);

impl Mem {
    pub fn new() -> Self {
        Mem { top: vec![None; 64] }
    }
    #[inline]
    fn split(addr: u64) -> Result<(usize, usize, usize), BadAddr> {
        let pn = (addr >> SH) as usize;
        if pn < 64 || pn >= LN * LN * 64 {
            return Err(BadAddr(addr));
        }
        Ok((pn / (LN * LN), pn / LN % LN, pn % LN))
    }
    #[inline]
    pub fn page(&self, addr: u64) -> Result<&Page, BadAddr> {
        let (a, b, c) = Self::split(addr)?;
        if let Some(m) = &self.top[a] {
            if let Some(l) = &m[b] {
                if let Some(p) = &l[c] {
                    return Ok(p);
                }
            }
        }
        Err(BadAddr(addr))
    }
    #[inline]
    pub fn page_mut(&mut self, addr: u64) -> Result<&mut Page, BadAddr> {
        let (a, b, c) = Self::split(addr)?;
        if let Some(m) = &mut self.top[a] {
            if let Some(l) = &mut Rc::make_mut(m)[b] {
                if let Some(p) = &mut Rc::make_mut(l)[c] {
                    return Ok(Rc::make_mut(p));
                }
            }
        }
        Err(BadAddr(addr))
    }
    /// Make [addr, addr+len) accessible (zero filled where new).
    pub fn map(&mut self, addr: u64, len: u64) {
        let a = (addr >> SH) as usize;
        let b = ((addr + len.max(1) - 1) >> SH) as usize;
        let zero = Rc::new(Page { d: [0; PAGE], s: None });
        for pn in a..=b {
            let m = self.top[pn / (LN * LN)].get_or_insert_with(|| Rc::new(vec![None; LN]));
            let l = Rc::make_mut(m)[pn / LN % LN].get_or_insert_with(|| Rc::new(vec![None; LN]));
            if l[pn % LN].is_none() {
                Rc::make_mut(l)[pn % LN] = Some(zero.clone());
            }
        }
    }
    /// Little-endian concrete read of up to 8 bytes; None if any byte is symbolic.
    #[inline]
    pub fn read(&self, addr: u64, n: usize) -> Result<Option<u64>, BadAddr> {
        let o = (addr & OM) as usize;
        if o + n <= PAGE {
            let p = self.page(addr)?;
            if let Some(s) = &p.s {
                if s[o..o + n].iter().any(|&e| e != 0) {
                    return Ok(None);
                }
            }
            let d = &p.d[o..o + n];
            Ok(Some(match n {
                8 => u64::from_le_bytes(d.try_into().unwrap()),
                1 => d[0] as u64,
                4 => u32::from_le_bytes(d.try_into().unwrap()) as u64,
                2 => u16::from_le_bytes(d.try_into().unwrap()) as u64,
                _ => {
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(d);
                    u64::from_le_bytes(b)
                }
            }))
        } else {
            let mut r = 0;
            for i in 0..n {
                let (b, e) = self.byte(addr + i as u64)?;
                if e != 0 {
                    return Ok(None);
                }
                r |= (b as u64) << (8 * i);
            }
            Ok(Some(r))
        }
    }
    #[inline]
    pub fn byte(&self, addr: u64) -> Result<(u8, E), BadAddr> {
        let p = self.page(addr)?;
        let o = (addr & OM) as usize;
        Ok((p.d[o], p.s.as_ref().map_or(0, |s| s[o])))
    }
    #[inline]
    pub fn write(&mut self, addr: u64, n: usize, v: u64) -> Result<(), BadAddr> {
        let o = (addr & OM) as usize;
        if o + n <= PAGE {
            let p = self.page_mut(addr)?;
            match n {
                8 => p.d[o..o + 8].copy_from_slice(&v.to_le_bytes()),
                1 => p.d[o] = v as u8,
                _ => p.d[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]),
            }
            if let Some(s) = &mut p.s {
                for e in &mut s[o..o + n] {
                    *e = 0;
                }
            }
        } else {
            for i in 0..n {
                self.set_byte(addr + i as u64, (v >> (8 * i)) as u8, 0)?;
            }
        }
        Ok(())
    }
    pub fn set_byte(&mut self, addr: u64, b: u8, e: E) -> Result<(), BadAddr> {
        let p = self.page_mut(addr)?;
        let o = (addr & OM) as usize;
        p.d[o] = b;
        if e != 0 {
            p.s.get_or_insert_with(|| Box::new([0; PAGE]))[o] = e;
        } else if let Some(s) = &mut p.s {
            s[o] = 0;
        }
        Ok(())
    }
    pub fn fill(&mut self, mut addr: u64, v: u8, mut n: u64) -> Result<(), BadAddr> {
        while n > 0 {
            let o = (addr & OM) as usize;
            let k = ((PAGE - o) as u64).min(n) as usize;
            let p = self.page_mut(addr)?;
            p.d[o..o + k].fill(v);
            if let Some(s) = &mut p.s {
                s[o..o + k].fill(0);
            }
            addr += k as u64;
            n -= k as u64;
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), BadAddr> {
        if n == 0 {
            return Ok(());
        }
        let (so, d_o) = ((src & OM) as usize, (dst & OM) as usize);
        let n_ = n as usize;
        if so + n_ <= PAGE && d_o + n_ <= PAGE && n_ <= 512 {
            let mut buf = [0u8; 512];
            let sp = self.page(src)?;
            buf[..n_].copy_from_slice(&sp.d[so..so + n_]);
            let sh: Option<Vec<E>> = match &sp.s {
                Some(s) if s[so..so + n_].iter().any(|&e| e != 0) => Some(s[so..so + n_].to_vec()),
                _ => None,
            };
            let dp = self.page_mut(dst)?;
            dp.d[d_o..d_o + n_].copy_from_slice(&buf[..n_]);
            match sh {
                Some(v) => dp.s.get_or_insert_with(|| Box::new([0; PAGE]))[d_o..d_o + n_].copy_from_slice(&v),
                None => {
                    if let Some(s) = &mut dp.s {
                        s[d_o..d_o + n_].fill(0)
                    }
                }
            }
            return Ok(());
        }
        // general case: gather then scatter
        let mut d = Vec::with_capacity(n_);
        let mut s: Vec<E> = vec![];
        let mut a = src;
        let mut left = n_;
        while left > 0 {
            let o = (a & OM) as usize;
            let k = (PAGE - o).min(left);
            let p = self.page(a)?;
            if let Some(sh) = &p.s {
                if sh[o..o + k].iter().any(|&e| e != 0) {
                    s.resize(d.len(), 0);
                    s.extend_from_slice(&sh[o..o + k]);
                }
            }
            d.extend_from_slice(&p.d[o..o + k]);
            a += k as u64;
            left -= k;
        }
        if !s.is_empty() {
            s.resize(n_, 0);
        }
        let mut a = dst;
        let mut i = 0;
        while i < n_ {
            let o = (a & OM) as usize;
            let k = (PAGE - o).min(n_ - i);
            let p = self.page_mut(a)?;
            p.d[o..o + k].copy_from_slice(&d[i..i + k]);
            if !s.is_empty() && s[i..i + k].iter().any(|&e| e != 0) {
                p.s.get_or_insert_with(|| Box::new([0; PAGE]))[o..o + k].copy_from_slice(&s[i..i + k]);
            } else if let Some(sh) = &mut p.s {
                sh[o..o + k].fill(0);
            }
            a += k as u64;
            i += k;
        }
        Ok(())
    }
}
