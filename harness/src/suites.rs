//! The suites under test, and for each the RFC 9497 primitives taken from the curve crates (not from voprf).
use crate::tape::Tape;

pub mod ristretto {
    use super::*;
    pub const NAME: &str = "ristretto255";
    pub const ID: &[u8] = b"ristretto255-SHA512";
    pub const TOY: bool = false;
    pub type CS = voprf::Ristretto255;
    pub type E = curve25519_dalek::ristretto::RistrettoPoint;
    pub type S = curve25519_dalek::scalar::Scalar;
    pub fn hash(m: &[u8]) -> Vec<u8> { use sha2::Digest; sha2::Sha512::digest(m).to_vec() }
    /// expand_message_xmd of RFC 9380 with SHA-512
    fn xmd(msg: &[u8], dst: &[u8], n: usize) -> Vec<u8> {
        let dst = if dst.len() > 255 { hash(&[b"H2C-OVERSIZE-DST-", dst].concat()) } else { dst.to_vec() };
        let dp = [&dst[..], &[dst.len() as u8]].concat();
        let b0 = hash(&[&[0u8; 128][..], msg, &(n as u16).to_be_bytes(), &[0], &dp].concat());
        let mut bi = hash(&[&b0[..], &[1], &dp].concat());
        let mut out = bi.clone();
        let mut i = 2u8;
        while out.len() < n {
            let x: Vec<u8> = b0.iter().zip(&bi).map(|(a, b)| a ^ b).collect();
            bi = hash(&[&x[..], &[i], &dp].concat());
            out.extend_from_slice(&bi);
            i += 1;
        }
        out.truncate(n);
        out
    }
    pub fn h2c(m: &[u8], d: &[u8]) -> E { E::from_uniform_bytes(&xmd(m, d, 64).try_into().unwrap()) }
    pub fn h2s(m: &[u8], d: &[u8]) -> S { S::from_bytes_mod_order_wide(&xmd(m, d, 64).try_into().unwrap()) }
    pub fn ser_e(e: &E) -> Vec<u8> { e.compress().to_bytes().to_vec() }
    pub fn ser_s(s: &S) -> Vec<u8> { s.to_bytes().to_vec() }
    pub fn de_e(b: &[u8]) -> Option<E> {
        let c = curve25519_dalek::ristretto::CompressedRistretto(b.try_into().ok()?);
        let e = c.decompress()?;
        if b.iter().all(|x| *x == 0) { None } else { Some(e) }
    }
    pub fn de_s(b: &[u8]) -> Option<S> {
        let s = Option::<S>::from(S::from_canonical_bytes(b.try_into().ok()?))?;
        if b.iter().all(|x| *x == 0) { None } else { Some(s) }
    }
    pub fn gen() -> E { curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT }
    pub fn ident() -> E { E::default() }
    pub fn zero() -> S { S::ZERO }
    pub fn one() -> S { S::ONE }
    pub fn inv(s: &S) -> S { s.invert() }
    pub fn rand_s(t: &mut Tape) -> S { loop { let s = S::random(t); if s != S::ZERO { return s; } } }
    /// encodings a lenient decoder might let through
    pub fn odd_elems(e: &E) -> Vec<Vec<u8>> {
        let b = ser_e(e);
        let mut v = vec![vec![0; 32], vec![0xff; 32]];
        // field element p, p+1 (non-canonical zero and one), and negative representatives
        let mut p = [0xffu8; 32]; p[0] = 0xed; p[31] = 0x7f; v.push(p.to_vec());
        p[0] = 0xee; v.push(p.to_vec());
        let mut n = b.clone(); n[0] ^= 1; v.push(n);
        let mut n = b.clone(); n[31] |= 0x80; v.push(n);
        v
    }
    pub fn odd_scalars(s: &S) -> Vec<Vec<u8>> {
        // the order, order +- 1, s + order, high bit set
        let l: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];
        let mut v = vec![vec![0; 32], vec![0xff; 32], l.to_vec()];
        let mut x = l; x[0] += 1; v.push(x.to_vec());
        let mut x = l; x[0] -= 1; v.push(x.to_vec());
        let b = ser_s(s);
        let mut c = 0u16; let mut sum = vec![];
        for i in 0..32 { c += b[i] as u16 + l[i] as u16; sum.push(c as u8); c >>= 8; }
        v.push(sum);
        let mut x = b.clone(); x[31] |= 0x80; v.push(x);
        v
    }
    include!("checks.rs");
}

macro_rules! nist { ($m:ident, $c:ident, $C:ident, $H:ident, $name:expr, $id:expr, $n:expr) => {
pub mod $m {
    use super::*;
    use elliptic_curve::hash2curve::{ExpandMsgXmd, GroupDigest};
    use elliptic_curve::sec1::{FromEncodedPoint, ToEncodedPoint};
    use elliptic_curve::Field;
    pub const NAME: &str = $name;
    pub const ID: &[u8] = $id;
    pub const TOY: bool = false;
    pub type CS = $c::$C;
    pub type E = $c::ProjectivePoint;
    pub type S = $c::Scalar;
    pub fn hash(m: &[u8]) -> Vec<u8> { use sha2::Digest; sha2::$H::digest(m).to_vec() }
    pub fn h2c(m: &[u8], d: &[u8]) -> E { <$c::$C as GroupDigest>::hash_from_bytes::<ExpandMsgXmd<sha2::$H>>(&[m], &[d]).unwrap() }
    pub fn h2s(m: &[u8], d: &[u8]) -> S { <$c::$C as GroupDigest>::hash_to_scalar::<ExpandMsgXmd<sha2::$H>>(&[m], &[d]).unwrap() }
    pub fn ser_e(e: &E) -> Vec<u8> {
        let p = e.to_affine().to_encoded_point(true);
        let mut v = p.as_bytes().to_vec(); v.resize($n + 1, 0); v
    }
    pub fn ser_s(s: &S) -> Vec<u8> { s.to_bytes().to_vec() }
    pub fn de_e(b: &[u8]) -> Option<E> {
        if b.len() != $n + 1 || (b[0] != 2 && b[0] != 3) { return None; }
        let p = $c::EncodedPoint::from_bytes(b).ok()?;
        let a: Option<$c::AffinePoint> = $c::AffinePoint::from_encoded_point(&p).into();
        Some(E::from(a?))
    }
    pub fn de_s(b: &[u8]) -> Option<S> {
        if b.len() != $n || b.iter().all(|x| *x == 0) { return None; }
        let mut r = $c::FieldBytes::default(); r.copy_from_slice(b);
        use elliptic_curve::PrimeField;
        Option::<S>::from(S::from_repr(r))
    }
    pub fn gen() -> E { E::GENERATOR }
    pub fn ident() -> E { E::IDENTITY }
    pub fn zero() -> S { S::ZERO }
    pub fn one() -> S { S::ONE }
    pub fn inv(s: &S) -> S { Option::<S>::from(Field::invert(s)).unwrap() }
    pub fn rand_s(t: &mut Tape) -> S { *$c::SecretKey::random(t).to_nonzero_scalar() }
    pub fn odd_elems(e: &E) -> Vec<Vec<u8>> {
        let u = e.to_affine().to_encoded_point(false).as_bytes().to_vec();
        let c = ser_e(e);
        let mut v = vec![u.clone(), vec![0], vec![0; $n + 1], vec![0xff; $n + 1]];
        for t in [0u8, 1, 4, 5, 6, 7, 8] { let mut x = c.clone(); x[0] = t; v.push(x); }
        for t in [6u8, 7] { let mut x = u.clone(); x[0] = t; v.push(x); }
        // x-coordinate out of range
        let mut x = vec![2u8]; x.extend(vec![0xff; $n]); v.push(x);
        v
    }
    pub fn odd_scalars(s: &S) -> Vec<Vec<u8>> {
        use elliptic_curve::Curve;
        use elliptic_curve::bigint::ArrayEncoding;
        let o = $c::$C::ORDER;
        let pad = |b: Vec<u8>| -> Vec<u8> { let b: Vec<u8> = b[b.len().saturating_sub($n)..].to_vec(); b };
        let ord = pad(o.to_be_byte_array().to_vec());
        let mut v = vec![vec![0; $n], vec![0xff; $n], ord.clone()];
        let mut x = ord.clone(); *x.last_mut().unwrap() = x.last().unwrap().wrapping_add(1); v.push(x);
        let mut x = ord.clone(); *x.last_mut().unwrap() = x.last().unwrap().wrapping_sub(1); v.push(x);
        let b = ser_s(s);
        let mut c = 0u16; let mut sum = vec![0u8; $n];
        for i in (0..$n).rev() { c += b[i] as u16 + ord[i] as u16; sum[i] = c as u8; c >>= 8; }
        v.push(sum);
        let mut z = b.clone(); z[0] |= 0x80; v.push(z);
        v
    }
    include!("checks.rs");
}
} }
nist!(p_256, p256, NistP256, Sha256, "P256", b"P256-SHA256", 32);
nist!(p_384, p384, NistP384, Sha384, "P384", b"P384-SHA384", 48);
nist!(p_521, p521, NistP521, Sha512, "P521", b"P521-SHA512", 66);

pub mod toy {
    use super::*;
    pub const NAME: &str = "toy";
    pub const ID: &[u8] = b"TOY-SHA512";
    pub const TOY: bool = true;
    pub type CS = crate::toy::ToySuite;
    pub type E = crate::toy::El;
    pub type S = crate::toy::Sc;
    pub use crate::toy::{h2c, h2s, de_e, de_s, inv};
    pub fn hash(m: &[u8]) -> Vec<u8> { use sha2::Digest; sha2::Sha512::digest(m).to_vec() }
    pub fn ser_e(e: &E) -> Vec<u8> { crate::toy::ser_e(e).to_vec() }
    pub fn ser_s(s: &S) -> Vec<u8> { crate::toy::ser_s(s).to_vec() }
    pub fn gen() -> E { E::new(1) }
    pub fn ident() -> E { crate::toy::El(0) }
    pub fn zero() -> S { crate::toy::Sc(0) }
    pub fn one() -> S { S::new(1) }
    pub fn rand_s(t: &mut Tape) -> S { crate::toy::rand_s(t) }
    pub fn odd_elems(e: &E) -> Vec<Vec<u8>> {
        let b = ser_e(e);
        let mut v = vec![vec![0; 4], vec![0xff; 4]];
        for i in 0..4 { let mut x = b.clone(); x[i] ^= 1; v.push(x); }
        v
    }
    pub fn odd_scalars(s: &S) -> Vec<Vec<u8>> {
        let b = ser_s(s);
        let mut v = vec![vec![0; 3], vec![0xff; 3], vec![0x5c, 0xff, 1], vec![0x5c, 0, 1], vec![0x5c, 251, 1]];
        for i in 0..3 { let mut x = b.clone(); x[i] ^= 0x40; v.push(x); }
        v
    }
    include!("checks.rs");
}
