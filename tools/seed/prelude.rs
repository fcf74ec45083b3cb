#![allow(dead_code, unused_imports)]
use rand_core::{CryptoRng, RngCore};
use sha2::Digest;
use voprf::*;
/// deterministic RNG: SHA-512 in counter mode; counts the draws
#[derive(Clone)]
pub struct Rng(pub u64, pub Vec<u8>);
pub fn rng(seed: u64) -> Rng { Rng(seed << 32, vec![]) }
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 { rand_core::impls::next_u32_via_fill(self) }
    fn next_u64(&mut self) -> u64 { rand_core::impls::next_u64_via_fill(self) }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d.iter_mut() {
            if self.1.is_empty() { self.0 += 1; self.1 = sha2::Sha512::digest(self.0.to_be_bytes()).to_vec(); }
            *b = self.1.pop().unwrap();
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> core::result::Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for Rng {}
type R = Ristretto255;
type P = p256::NistP256;
type G = <R as CipherSuite>::Group;
