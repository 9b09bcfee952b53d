//! Copy-on-write paged memory with a symbolic overlay.
use crate::ll::{GLOBAL_BASE, HEAP_BASE, STACK_TOP};
use std::rc::Rc;

pub const PAGE: usize = 4096;
pub const STACK_SIZE: u64 = 16 << 20;

/// A byte: < 256 concrete, else expression id with the top bit set.
pub type B = u32;
pub const SYM: u32 = 1 << 31;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PAGE],
    pub sym: Option<Box<[u32; PAGE]>>,
}

#[derive(Clone)]
pub struct Mem {
    regs: [Vec<Option<Rc<Page>>>; 3],
}

#[derive(Debug)]
pub struct Fault(pub u64);

#[inline]
fn locate(a: u64) -> Option<(usize, usize, usize)> {
    let (r, base) = if a >= STACK_TOP {
        return None;
    } else if a >= STACK_TOP - STACK_SIZE {
        (2, STACK_TOP - STACK_SIZE)
    } else if a >= HEAP_BASE {
        (1, HEAP_BASE)
    } else if a >= GLOBAL_BASE {
        (0, GLOBAL_BASE)
    } else {
        return None;
    };
    let o = (a - base) as usize;
    Some((r, o / PAGE, o % PAGE))
}

impl Mem {
    pub fn new() -> Self {
        Mem { regs: [vec![], vec![], vec![None; (STACK_SIZE as usize) / PAGE]] }
    }
    #[inline]
    fn page(&self, a: u64) -> Result<(Option<&Rc<Page>>, usize), Fault> {
        let (r, p, o) = locate(a).ok_or(Fault(a))?;
        match self.regs[r].get(p) {
            Some(x) => Ok((x.as_ref(), o)),
            None => {
                if r == 1 && a < HEAP_BASE + (4 << 30) {
                    Ok((None, o))
                } else {
                    Err(Fault(a))
                }
            }
        }
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Result<(&mut Page, usize), Fault> {
        let (r, p, o) = locate(a).ok_or(Fault(a))?;
        if p >= self.regs[r].len() {
            if p > (4usize << 30) / PAGE {
                return Err(Fault(a));
            }
            self.regs[r].resize(p + 1, None);
        }
        let slot = &mut self.regs[r][p];
        if slot.is_none() {
            *slot = Some(Rc::new(Page { data: [0; PAGE], sym: None }));
        }
        Ok((Rc::make_mut(slot.as_mut().unwrap()), o))
    }
    #[inline]
    pub fn read_b(&self, a: u64) -> Result<B, Fault> {
        let (p, o) = self.page(a)?;
        Ok(match p {
            None => 0,
            Some(p) => {
                if let Some(s) = &p.sym {
                    if s[o] != 0 {
                        return Ok(s[o] | SYM);
                    }
                }
                p.data[o] as u32
            }
        })
    }
    #[inline]
    pub fn write_b(&mut self, a: u64, b: B) -> Result<(), Fault> {
        let (p, o) = self.page_mut(a)?;
        if b & SYM != 0 {
            let s = p.sym.get_or_insert_with(|| Box::new([0; PAGE]));
            s[o] = b & !SYM;
        } else {
            p.data[o] = b as u8;
            if let Some(s) = &mut p.sym {
                s[o] = 0;
            }
        }
        Ok(())
    }
    /// concrete read of n <= 16 bytes, None if any is symbolic
    #[inline]
    pub fn read_c(&self, a: u64, n: usize) -> Result<Option<u128>, Fault> {
        let (p, o) = self.page(a)?;
        if o + n <= PAGE {
            match p {
                None => Ok(Some(0)),
                Some(p) => {
                    if let Some(s) = &p.sym {
                        if s[o..o + n].iter().any(|&x| x != 0) {
                            return Ok(None);
                        }
                    }
                    let d = &p.data[o..];
                    Ok(Some(match n {
                        1 => d[0] as u128,
                        2 => u16::from_le_bytes([d[0], d[1]]) as u128,
                        4 => u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as u128,
                        8 => u64::from_le_bytes(d[..8].try_into().unwrap()) as u128,
                        _ => {
                            let mut v = 0u128;
                            for i in (0..n).rev() {
                                v = (v << 8) | d[i] as u128;
                            }
                            v
                        }
                    }))
                }
            }
        } else {
            let mut v = 0u128;
            for i in (0..n).rev() {
                let b = self.read_b(a + i as u64)?;
                if b & SYM != 0 {
                    return Ok(None);
                }
                v = (v << 8) | b as u128;
            }
            Ok(Some(v))
        }
    }
    #[inline]
    pub fn write_c(&mut self, a: u64, n: usize, v: u128) -> Result<(), Fault> {
        let (p, o) = self.page_mut(a)?;
        if o + n <= PAGE {
            let d = &mut p.data[o..o + n];
            match n {
                1 => d[0] = v as u8,
                2 => d.copy_from_slice(&(v as u16).to_le_bytes()),
                4 => d.copy_from_slice(&(v as u32).to_le_bytes()),
                8 => d.copy_from_slice(&(v as u64).to_le_bytes()),
                _ => {
                    for i in 0..n {
                        d[i] = (v >> (8 * i)) as u8;
                    }
                }
            }
            if let Some(s) = &mut p.sym {
                for x in &mut s[o..o + n] {
                    *x = 0;
                }
            }
            Ok(())
        } else {
            for i in 0..n {
                self.write_b(a + i as u64, ((v >> (8 * i)) & 0xff) as u32)?;
            }
            Ok(())
        }
    }
    pub fn write_bytes(&mut self, a: u64, d: &[u8]) -> Result<(), Fault> {
        let mut i = 0;
        while i < d.len() {
            let (p, o) = self.page_mut(a + i as u64)?;
            let n = (PAGE - o).min(d.len() - i);
            p.data[o..o + n].copy_from_slice(&d[i..i + n]);
            if let Some(s) = &mut p.sym {
                for x in &mut s[o..o + n] {
                    *x = 0;
                }
            }
            i += n;
        }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || d == s {
            return Ok(());
        }
        if n <= 16 {
            if let Some(v) = self.read_c(s, n as usize)? {
                return self.write_c(d, n as usize, v);
            }
        }
        // gather then write (handles overlap)
        let mut i = 0u64;
        let mut chunks: Vec<u8> = Vec::with_capacity(n as usize);
        let mut syms: Vec<(u64, u32)> = vec![];
        while i < n {
            let (p, o) = self.page(s + i)?;
            let k = ((PAGE - o) as u64).min(n - i) as usize;
            match p {
                None => chunks.resize(chunks.len() + k, 0),
                Some(p) => {
                    chunks.extend_from_slice(&p.data[o..o + k]);
                    if let Some(sy) = &p.sym {
                        for j in 0..k {
                            if sy[o + j] != 0 {
                                syms.push((i + j as u64, sy[o + j]));
                            }
                        }
                    }
                }
            }
            i += k as u64;
        }
        self.write_bytes(d, &chunks)?;
        for (o, e) in syms {
            self.write_b(d + o, e | SYM)?;
        }
        Ok(())
    }
    pub fn set(&mut self, a: u64, b: B, n: u64) -> Result<(), Fault> {
        if b & SYM == 0 {
            let mut i = 0;
            while i < n {
                let (p, o) = self.page_mut(a + i)?;
                let k = ((PAGE - o) as u64).min(n - i) as usize;
                p.data[o..o + k].fill(b as u8);
                if let Some(s) = &mut p.sym {
                    s[o..o + k].fill(0);
                }
                i += k as u64;
            }
        } else {
            for i in 0..n {
                self.write_b(a + i, b)?;
            }
        }
        Ok(())
    }
    pub fn read_bytes(&self, a: u64, n: u64) -> Result<Vec<B>, Fault> {
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n {
            v.push(self.read_b(a + i)?);
        }
        Ok(v)
    }
}
