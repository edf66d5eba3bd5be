//! Stand-in for rust-crypto's `digest` and `md5` modules (a complete MD5).
pub mod digest {
  pub trait Digest {
    fn input(&mut self, input: &[u8]);
    fn result(&mut self, out: &mut [u8]);
    fn reset(&mut self);
    fn output_bits(&self) -> usize;
    fn block_size(&self) -> usize;
    fn output_bytes(&self) -> usize { (self.output_bits() + 7) / 8 }
    fn input_str(&mut self, input: &str) { self.input(input.as_bytes()); }
    fn result_str(&mut self) -> String {
      let mut buf = vec![0u8; self.output_bytes()];
      self.result(&mut buf);
      buf.iter().map(|b| format!("{b:02x}")).collect()
    }
  }
}
pub mod md5 {
  use crate::digest::Digest;
  #[derive(Clone, Copy)]
  pub struct Md5 { st: [u32; 4], len: u64, buf: [u8; 64], n: usize, finished: bool }
  const S: [u32; 64] = [7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,
    4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21];
  impl Md5 {
    pub fn new() -> Md5 { Md5 { st: [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476], len: 0, buf: [0; 64], n: 0, finished: false } }
    fn block(&mut self) {
      let mut m = [0u32; 16];
      for (i, w) in m.iter_mut().enumerate() { *w = u32::from_le_bytes([self.buf[4*i], self.buf[4*i+1], self.buf[4*i+2], self.buf[4*i+3]]); }
      let [mut a, mut b, mut c, mut d] = self.st;
      for i in 0..64usize {
        let k = ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32;
        let (f, g) = match i / 16 { 0 => ((b & c) | (!b & d), i), 1 => ((d & b) | (!d & c), (5*i+1)%16), 2 => (b ^ c ^ d, (3*i+5)%16), _ => (c ^ (b | !d), (7*i)%16) };
        let f2 = f.wrapping_add(a).wrapping_add(k).wrapping_add(m[g]);
        a = d; d = c; c = b; b = b.wrapping_add(f2.rotate_left(S[i]));
      }
      self.st[0] = self.st[0].wrapping_add(a); self.st[1] = self.st[1].wrapping_add(b);
      self.st[2] = self.st[2].wrapping_add(c); self.st[3] = self.st[3].wrapping_add(d);
    }
    fn byte(&mut self, b: u8) { self.buf[self.n] = b; self.n += 1; if self.n == 64 { self.block(); self.n = 0; } }
  }
  impl Digest for Md5 {
    fn input(&mut self, input: &[u8]) { assert!(!self.finished); self.len += input.len() as u64; for b in input { self.byte(*b); } }
    fn result(&mut self, out: &mut [u8]) {
      if !self.finished {
        let bits = self.len.wrapping_mul(8);
        self.byte(0x80);
        while self.n != 56 { self.byte(0); }
        for b in bits.to_le_bytes() { self.byte(b); }
        self.finished = true;
      }
      for (i, w) in self.st.iter().enumerate() { out[4*i..4*i+4].copy_from_slice(&w.to_le_bytes()); }
    }
    fn reset(&mut self) { *self = Md5::new(); }
    fn output_bits(&self) -> usize { 128 }
    fn block_size(&self) -> usize { 64 }
  }
}
