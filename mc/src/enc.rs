//! Byte buffer with explicit byte order: the reference encoders are written with it.
#[derive(Clone, Debug, Default)]
pub struct Buf {
    pub b: Vec<u8>,
    pub be: bool,
}
impl Buf {
    pub fn new(be: bool) -> Self {
        Buf { b: vec![], be }
    }
    pub fn pos(&self) -> usize {
        self.b.len()
    }
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.b.push(v);
        self
    }
    pub fn u16(&mut self, v: u16) -> &mut Self {
        let a = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.bytes(&a)
    }
    pub fn u32(&mut self, v: u32) -> &mut Self {
        let a = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.bytes(&a)
    }
    pub fn u64(&mut self, v: u64) -> &mut Self {
        let a = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.bytes(&a)
    }
    /// 4 or 8 bytes.
    pub fn word(&mut self, wide: bool, v: u64) -> &mut Self {
        if wide { self.u64(v) } else { self.u32(v as u32) }
    }
    pub fn bytes(&mut self, v: &[u8]) -> &mut Self {
        self.b.extend_from_slice(v);
        self
    }
    pub fn zeros(&mut self, n: usize) -> &mut Self {
        self.b.resize(self.b.len() + n, 0);
        self
    }
    pub fn cstr(&mut self, v: &[u8]) -> &mut Self {
        self.bytes(v).u8(0)
    }
    /// Fixed-size zero-padded field.
    pub fn fixed(&mut self, v: &[u8], n: usize) -> &mut Self {
        assert!(v.len() <= n);
        self.bytes(v).zeros(n - v.len())
    }
    pub fn align(&mut self, n: usize) -> &mut Self {
        while self.b.len() % n != 0 {
            self.b.push(0);
        }
        self
    }
    pub fn pad_to(&mut self, n: usize) -> &mut Self {
        assert!(self.b.len() <= n, "pad_to {} beyond {}", n, self.b.len());
        self.b.resize(n, 0);
        self
    }
    pub fn uleb(&mut self, mut v: u64) -> &mut Self {
        loop {
            let b = (v & 0x7f) as u8;
            v >>= 7;
            if v == 0 {
                return self.u8(b);
            }
            self.u8(b | 0x80);
        }
    }
    pub fn sleb(&mut self, mut v: i64) -> &mut Self {
        loop {
            let b = (v & 0x7f) as u8;
            v >>= 7;
            if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
                return self.u8(b);
            }
            self.u8(b | 0x80);
        }
    }
    pub fn put16(&mut self, at: usize, v: u16) {
        let a = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b[at..at + 2].copy_from_slice(&a);
    }
    pub fn put32(&mut self, at: usize, v: u32) {
        let a = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b[at..at + 4].copy_from_slice(&a);
    }
    pub fn put64(&mut self, at: usize, v: u64) {
        let a = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b[at..at + 8].copy_from_slice(&a);
    }
    pub fn put_word(&mut self, wide: bool, at: usize, v: u64) {
        if wide { self.put64(at, v) } else { self.put32(at, v as u32) }
    }
}
/// A NUL-separated string table with a fixed prefix.
#[derive(Clone, Debug)]
pub struct Strs {
    pub b: Vec<u8>,
}
impl Strs {
    pub fn new(prefix: &[u8]) -> Self {
        Strs { b: prefix.to_vec() }
    }
    pub fn add(&mut self, s: &[u8]) -> u32 {
        let o = self.b.len() as u32;
        self.b.extend_from_slice(s);
        self.b.push(0);
        o
    }
    /// The empty string at offset 0 when the table starts with NUL.
    pub fn add0(&mut self, s: &[u8]) -> u32 {
        if s.is_empty() && self.b.first() == Some(&0) { 0 } else { self.add(s) }
    }
}
pub fn up(x: u64, a: u64) -> u64 {
    if a <= 1 { x } else { x.div_ceil(a) * a }
}
