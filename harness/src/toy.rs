//! A toy prime-order group whose corner cases can be reached on purpose: hashing to the identity, hashing to
//! the zero scalar, tweaks and keys that cancel. Elements are discrete logs, so every law can be computed.
use digest::core_api::BlockSizeUser;
use digest::{FixedOutput, HashMarker};
use generic_array::typenum::{IsLess, IsLessOrEqual, U256, U3, U4};
use generic_array::GenericArray;
use rand_core::{CryptoRng, RngCore};
use sha2::Digest;
use std::ops::{Add, Mul, Sub};
use subtle::{Choice, ConstantTimeEq};
use voprf::{Error, Group, InternalError};
use zeroize::Zeroize;

pub const Q: u32 = 251;
/// large enough to be seen in memory
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct El(pub u64);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sc(pub u64);
const EM: u64 = 0x9e37_79b9_7f4a_7c00;
const SM: u64 = 0xc2b2_ae3d_27d4_eb00;
impl El { pub fn new(v: u32) -> Self { El(if v % Q == 0 { 0 } else { EM | (v % Q) as u64 }) } pub fn v(&self) -> u32 { (self.0 & 0xff) as u32 } }
impl Sc { pub fn new(v: u32) -> Self { Sc(if v % Q == 0 { 0 } else { SM | (v % Q) as u64 }) } pub fn v(&self) -> u32 { (self.0 & 0xff) as u32 } }
impl ConstantTimeEq for El { fn ct_eq(&self, o: &Self) -> Choice { self.0.ct_eq(&o.0) } }
impl ConstantTimeEq for Sc { fn ct_eq(&self, o: &Self) -> Choice { self.0.ct_eq(&o.0) } }
impl Zeroize for El { fn zeroize(&mut self) { self.0.zeroize() } }
impl Zeroize for Sc { fn zeroize(&mut self) { self.0.zeroize() } }
impl<'a> Add<&'a El> for El { type Output = El; fn add(self, o: &El) -> El { El::new(self.v() + o.v()) } }
impl<'a> Mul<&'a Sc> for El { type Output = El; fn mul(self, o: &Sc) -> El { El::new(self.v() * o.v()) } }
impl<'a> Add<&'a Sc> for Sc { type Output = Sc; fn add(self, o: &Sc) -> Sc { Sc::new(self.v() + o.v()) } }
impl<'a> Sub<&'a Sc> for Sc { type Output = Sc; fn sub(self, o: &Sc) -> Sc { Sc::new(self.v() + Q - o.v()) } }
impl<'a> Mul<&'a Sc> for Sc { type Output = Sc; fn mul(self, o: &Sc) -> Sc { Sc::new(self.v() * o.v()) } }

fn word(msg: &[u8], dst: &[u8]) -> u32 {
    let h = sha2::Sha256::new().chain_update((dst.len() as u64).to_be_bytes()).chain_update(dst).chain_update(msg).finalize();
    u32::from_be_bytes([h[0], h[1], h[2], h[3]])
}
pub fn has(m: &[u8], p: &[u8]) -> bool { m.len() >= p.len() && m.windows(p.len()).any(|w| w == p) }
/// a message starting with "IDENT" hashes to the identity
pub fn h2c(msg: &[u8], dst: &[u8]) -> El { if msg.starts_with(b"IDENT") { El(0) } else { El::new(1 + word(msg, dst) % (Q - 1)) } }
/// in key derivation, a seed starting with "ZERO" + n (two bytes) gives zero for counters below n; elsewhere "ZERO" in the message gives zero
pub fn h2s(msg: &[u8], dst: &[u8]) -> Sc {
    if dst.starts_with(b"DeriveKeyPair") {
        if msg.starts_with(b"ZERO") && msg.len() > 6 && (*msg.last().unwrap() as usize) < u16::from_be_bytes([msg[4], msg[5]]) as usize { return Sc(0); }
    } else if msg.starts_with(b"Info") && has(msg, b"ZERO") { return Sc(0); }
    Sc::new(word(msg, dst) % Q)
}
pub fn ser_e(e: &El) -> [u8; 4] { if e.0 == 0 { [0; 4] } else { [0xe1, e.v() as u8, 0x77, !(e.v() as u8)] } }
pub fn ser_s(s: &Sc) -> [u8; 3] { if s.0 == 0 { [0; 3] } else { [0x5c, s.v() as u8, 0x01] } }
pub fn de_e(b: &[u8]) -> Option<El> { if b.len() == 4 && b[0] == 0xe1 && b[2] == 0x77 && b[3] == !b[1] && b[1] != 0 && (b[1] as u32) < Q { Some(El::new(b[1] as u32)) } else { None } }
pub fn de_s(b: &[u8]) -> Option<Sc> { if b.len() == 3 && b[0] == 0x5c && b[2] == 1 && b[1] != 0 && (b[1] as u32) < Q { Some(Sc::new(b[1] as u32)) } else { None } }
pub fn inv(s: &Sc) -> Sc { assert!(s.0 != 0, "inversion of zero"); let mut r = 1u32; for _ in 0..Q - 2 { r = r * s.v() % Q; } Sc::new(r) }
pub fn rand_s<R: RngCore>(rng: &mut R) -> Sc { loop { let mut b = [0u8; 2]; rng.fill_bytes(&mut b); let v = u16::from_be_bytes(b) as u32 % Q; if v != 0 { return Sc::new(v); } } }

thread_local! { pub static LOG: std::cell::RefCell<Vec<(bool, Vec<u8>, Vec<u8>)>> = const { std::cell::RefCell::new(vec![]) }; }
/// every hash the code under test asked this group for: (to a scalar, the message, the tag)
fn log(scalar: bool, m: &[u8], d: &[u8]) { LOG.with(|l| l.borrow_mut().push((scalar, if m.len() > 200 { [&m[..100], &m[m.len() - 100..]].concat() } else { m.to_vec() }, d.to_vec()))) }
/// the first logged hash whose tag is not its operation's for one of the modes in the mask
pub fn bad_tag(modes: u8) -> Option<String> {
    let l = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    if modes == 0xff { return None; }
    for (sc, m, d) in l {
        let ps: &[&str] = if !sc { &["HashToGroup-"] } else if m.ends_with(b"Challenge") || m.ends_with(b"Composite") { &["HashToScalar-"] } else if modes & 0x80 != 0 { &["DeriveKeyPair"] } else { &["HashToScalar-", "DeriveKeyPair"] };
        let ok = (0..3u8).any(|k| modes & (1 << k) != 0 && ps.iter().any(|p| [p.as_bytes(), b"OPRFV1-", &[k], b"-TOY-SHA512"].concat() == d));
        if !ok { return Some(format!("hash to {} under the tag {:?}", if sc { "scalar" } else { "group" }, String::from_utf8_lossy(&d))); }
    }
    None
}
pub struct Toy;
impl Group for Toy {
    type Elem = El;
    type ElemLen = U4;
    type Scalar = Sc;
    type ScalarLen = U3;
    fn hash_to_curve<H>(input: &[&[u8]], dst: &[&[u8]]) -> Result<El, InternalError> where H: BlockSizeUser + Default + FixedOutput + HashMarker, H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize> {
        let d = dst.concat();
        if d.is_empty() { return Err(InternalError::Input); }
        log(false, &input.concat(), &d);
        Ok(h2c(&input.concat(), &d))
    }
    fn hash_to_scalar<H>(input: &[&[u8]], dst: &[&[u8]]) -> Result<Sc, InternalError> where H: BlockSizeUser + Default + FixedOutput + HashMarker, H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize> {
        let d = dst.concat();
        if d.is_empty() { return Err(InternalError::Input); }
        log(true, &input.concat(), &d);
        Ok(h2s(&input.concat(), &d))
    }
    fn base_elem() -> El { El::new(1) }
    fn identity_elem() -> El { El(0) }
    fn serialize_elem(e: El) -> GenericArray<u8, U4> { ser_e(&e).into() }
    fn deserialize_elem(b: &[u8]) -> voprf::Result<El> { de_e(b).ok_or(Error::Deserialization) }
    fn random_scalar<R: RngCore + CryptoRng>(rng: &mut R) -> Sc { rand_s(rng) }
    fn invert_scalar(s: Sc) -> Sc { inv(&s) }
    fn is_zero_scalar(s: Sc) -> Choice { s.0.ct_eq(&0) }
    fn serialize_scalar(s: Sc) -> GenericArray<u8, U3> { ser_s(&s).into() }
    fn deserialize_scalar(b: &[u8]) -> voprf::Result<Sc> { de_s(b).ok_or(Error::Deserialization) }
}
pub struct ToySuite;
impl voprf::CipherSuite for ToySuite {
    const ID: &'static str = "TOY-SHA512";
    type Group = Toy;
    type Hash = sha2::Sha512;
}
