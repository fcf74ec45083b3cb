//! A deterministic, recording RNG: an optional scripted prefix, then SHA-256 in counter mode.
use rand_core::{CryptoRng, RngCore};
use sha2::Digest;
#[derive(Clone)]
pub struct Tape { seed: [u8; 32], ctr: u64, buf: Vec<u8>, pub script: Vec<u8>, pub log: Vec<u8>, pub calls: Vec<usize> }
impl Tape {
    pub fn new(label: &str, seed: u64, idx: u64) -> Self {
        let seed = sha2::Sha256::new().chain_update(label).chain_update([0]).chain_update(seed.to_be_bytes()).chain_update(idx.to_be_bytes()).finalize().into();
        Tape { seed, ctr: 0, buf: vec![], script: vec![], log: vec![], calls: vec![] }
    }
    pub fn fork(&mut self) -> Tape { let mut s = [0; 32]; self.fill_bytes(&mut s); Tape { seed: s, ctr: 0, buf: vec![], script: vec![], log: vec![], calls: vec![] } }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next_u64() % n as u64) as usize } }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { let mut v = vec![0; n]; self.fill_bytes(&mut v); v }
    fn byte(&mut self) -> u8 {
        if !self.script.is_empty() { return self.script.remove(0); }
        if self.buf.is_empty() {
            self.buf = sha2::Sha256::new().chain_update(self.seed).chain_update(self.ctr.to_be_bytes()).finalize().to_vec();
            self.ctr += 1;
        }
        self.buf.pop().unwrap()
    }
}
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) { self.calls.push(d.len()); for x in d.iter_mut() { *x = self.byte(); self.log.push(*x); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for Tape {}
