//! Byte-granular memory objects: each byte is concrete, uninitialised or symbolic.
use crate::expr::Eid;
use std::rc::Rc;

pub const CONC: u8 = 0;
pub const UNDEF: u8 = 1;
pub const SYM: u8 = 2;

#[derive(Clone)]
pub struct Obj {
    pub size: u32,
    /// data bytes, then (if `tagged`) one tag byte for each
    buf: Vec<u8>,
    tagged: bool,
    sym: Vec<Eid>,
    pub align: u32,
    pub ro: bool,
}

impl Obj {
    pub fn uninit(size: u64, align: u64) -> Self {
        let n = size as usize;
        let mut buf = vec![0u8; 2 * n];
        buf[n..].fill(UNDEF);
        Obj { size: size as u32, buf, tagged: true, sym: vec![], align: align as u32, ro: false }
    }
    pub fn zeroed(size: u64, align: u64) -> Self {
        Obj { size: size as u32, buf: vec![0; size as usize], tagged: false, sym: vec![], align: align as u32, ro: false }
    }
    pub fn from_bytes(b: &[u8], ro: bool) -> Self {
        Obj { size: b.len() as u32, buf: b.to_vec(), tagged: false, sym: vec![], align: 16, ro }
    }

    #[inline]
    pub fn all_conc(&self, off: usize, n: usize) -> bool {
        if !self.tagged {
            return true;
        }
        let s = self.size as usize + off;
        self.buf[s..s + n].iter().all(|t| *t == CONC)
    }
    #[inline]
    pub fn read(&self, off: usize, n: usize) -> u64 {
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&self.buf[off..off + n]);
        u64::from_le_bytes(b)
    }
    #[inline]
    pub fn bytes(&self, off: usize, n: usize) -> &[u8] {
        &self.buf[off..off + n]
    }
    #[inline]
    pub fn tag(&self, off: usize) -> u8 {
        if self.tagged {
            self.buf[self.size as usize + off]
        } else {
            CONC
        }
    }
    #[inline]
    pub fn data(&self, off: usize) -> u8 {
        self.buf[off]
    }
    pub fn sym_at(&self, off: usize) -> Eid {
        self.sym[off]
    }
    #[inline]
    pub fn write(&mut self, off: usize, n: usize, v: u64) {
        self.buf[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
        if self.tagged {
            let s = self.size as usize + off;
            self.buf[s..s + n].fill(CONC);
        }
    }
    fn ensure_tags(&mut self) {
        if !self.tagged {
            self.buf.resize(2 * self.size as usize, CONC);
            self.tagged = true;
        }
    }
    pub fn write_undef(&mut self, off: usize) {
        self.ensure_tags();
        let s = self.size as usize + off;
        self.buf[s] = UNDEF;
    }
    pub fn write_sym(&mut self, off: usize, e: Eid) {
        self.ensure_tags();
        if self.sym.is_empty() {
            self.sym = vec![0; self.size as usize];
        }
        let s = self.size as usize + off;
        self.buf[s] = SYM;
        self.sym[off] = e;
    }
    /// memmove within or between objects
    pub fn copy_from(&mut self, doff: usize, src: &Obj, soff: usize, n: usize) {
        self.buf[doff..doff + n].copy_from_slice(&src.buf[soff..soff + n]);
        if src.tagged {
            self.ensure_tags();
            let d = self.size as usize + doff;
            let s = src.size as usize + soff;
            self.buf[d..d + n].copy_from_slice(&src.buf[s..s + n]);
            if !src.sym.is_empty() {
                if self.sym.is_empty() {
                    self.sym = vec![0; self.size as usize];
                }
                self.sym[doff..doff + n].copy_from_slice(&src.sym[soff..soff + n]);
            }
        } else if self.tagged {
            let d = self.size as usize + doff;
            self.buf[d..d + n].fill(CONC);
        }
    }
    pub fn fill(&mut self, off: usize, n: usize, v: u8) {
        self.buf[off..off + n].fill(v);
        if self.tagged {
            let d = self.size as usize + off;
            self.buf[d..d + n].fill(CONC);
        }
    }
}

pub type ObjRef = Rc<Obj>;
