// Paths of the external crates, mapped on the shim.
pub mod ext {
pub mod core {
  pub mod convert { pub use ::core::convert::TryFrom; pub use ::core::convert::TryInto; }
  pub mod ops { pub use crate::vx::TAdd as Add; pub use crate::vx::{OpMul as Mul, OpSub as Sub}; }
  pub mod iter { pub use crate::vx::{Map, Repeat, Zip, once, repeat}; }
  pub mod array { pub use crate::vx::from_ref; }
  pub mod slice { pub use crate::vx::from_ref; }
  pub mod result { pub use ::core::result::Result; }
  pub mod option { pub use ::core::option::Option; }
  pub mod marker { pub use ::core::marker::PhantomData; }
  pub mod clone { pub use ::core::clone::Clone; }
}
pub mod alloc { pub mod vec { pub use ::std::vec::Vec; } }
pub mod std { pub mod vec { pub use ::std::vec::Vec; } }
pub mod digest {
  pub use crate::vx::{Digest, OutputSizeUser};
  pub type Output<D> = crate::vx::GenericArray<u8, <D as crate::vx::OutputSizeUser>::OutputSize>;
  pub trait FixedOutput {} pub trait HashMarker {}
  pub mod core_api { pub trait BlockSizeUser {} }
}
pub mod generic_array {
  pub use crate::vx::{GenericArray, ArrayLength};
  pub mod sequence { pub trait Concat {} }
  pub mod typenum {
    pub trait IsLess<X> {} pub trait IsLessOrEqual<X> {} pub trait Unsigned {}
    pub type Sum<A, B> = <A as crate::vx::TAdd<B>>::Output;
    pub type U1 = crate::vx::N<1>; pub type U2 = crate::vx::N<2>; pub type U9 = crate::vx::N<9>; pub type U32 = crate::vx::N<32>; pub type U33 = crate::vx::N<33>;
    pub type U48 = crate::vx::N<48>; pub type U64 = crate::vx::N<64>; pub type U256 = crate::vx::N<256>;
  }
}
pub mod rand_core { pub use crate::vx::{CryptoRng, RngCore}; }
pub mod subtle { pub use crate::vx::{Choice, ConstantTimeEq, CtOption}; }
pub mod zeroize { pub use crate::vx::Zeroize; }
pub mod sha2 {
  use vstd::prelude::*; use crate::vx::*;
  #[verifier::external_body] pub struct Sha512 { _x: u8 }
  impl OutputSizeUser for Sha512 { type OutputSize = N<64>; }
  impl Digest for Sha512 {
    #[verifier::external_body] fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn chain_update<T: AsRefU8>(self, d: T) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn update<T: AsRefU8>(&mut self, d: T) { unimplemented!() }
    #[verifier::external_body] fn finalize(self) -> (r: GenericArray<u8, N<64>>) { unimplemented!() }
  }
}
pub mod elliptic_curve {
  use vstd::prelude::*; use crate::vx::*;
  use core::marker::PhantomData;
  pub trait VoprfParameters { const ID: &'static str; type Hash; }
  pub trait Group {}
  pub type ProjectivePoint<C> = El<C>;
  pub type Scalar<C> = Sc<C>;
  #[verifier::external_body]
  #[verifier::reject_recursive_types(C)]
  pub struct AffinePoint<C>(PhantomData<C>);
  pub type FieldBytesSize<C> = <C as hash2curve::GroupDigest>::FieldBytesSize;
  impl<C: hash2curve::GroupDigest> El<C> {
    #[verifier::external_body] pub fn generator() -> (r: Self) ensures r == gen::<C>() { unimplemented!() }
    pub open spec fn generator_s() -> Self { gen::<C>() }
    #[verifier::external_body] pub fn identity() -> (r: Self) ensures r == ident::<C>() { unimplemented!() }
    pub open spec fn identity_s() -> Self { ident::<C>() }
    #[verifier::external_body] pub fn is_identity(&self) -> (r: Choice) ensures r == (Choice { b: *self == ident::<C>() }) { unimplemented!() }
    pub open spec fn is_identity_s(&self) -> Choice { Choice { b: *self == ident::<C>() } }
    /// SEC1 encoding
    #[verifier::external_body] pub fn to_encoded_point(&self, compress: bool) -> (r: sec1::EncodedPoint<C>) ensures r@ == sec1::sec1_of(*self, compress) { unimplemented!() }
  }
  pub trait Field: Sized {
    spec fn invert_s(&self) -> CtOption<Self>;
    spec fn is_zero_s(&self) -> Choice;
    fn invert(&self) -> (r: CtOption<Self>) ensures r == self.invert_s();
    fn is_zero(&self) -> (r: Choice) ensures r == self.is_zero_s();
  }
  impl<C: hash2curve::GroupDigest> Field for Sc<C> {
    open spec fn invert_s(&self) -> CtOption<Self> { mkct(if *self == szero::<C>() { None } else { Some(sinv(*self)) }) }
    open spec fn is_zero_s(&self) -> Choice { Choice { b: *self == szero::<C>() } }
    #[verifier::external_body] fn invert(&self) -> (r: CtOption<Self>) { unimplemented!() }
    #[verifier::external_body] fn is_zero(&self) -> (r: Choice) { unimplemented!() }
  }
  impl<C: hash2curve::GroupDigest> Sc<C> {
    #[verifier::external_body] pub const ZERO: Sc<C> = Sc(PhantomData);
    #[verifier::external_body] pub const ONE: Sc<C> = Sc(PhantomData);
    /// one draw of a field element; may be zero
    #[verifier::external_body]
    pub fn random<R: RngCore>(rng: &mut R) -> (r: Self) ensures r == fld_rand::<C>(old(rng).st()), final(rng).st() == fld_rand_next::<C>(old(rng).st()) { unimplemented!() }
  }
  pub uninterp spec fn fld_rand<C>(st: RngSt) -> Sc<C>;
  pub uninterp spec fn fld_rand_next<C>(st: RngSt) -> RngSt;
  /// SecretKey::random redraws while the field element is zero
  pub broadcast axiom fn ax_fld_rand<C>(st: RngSt) ensures ({
    let x = #[trigger] fld_rand::<C>(st);
    if x != szero::<C>() { sk_random::<C>(st) == x && sk_random_next::<C>(st) == fld_rand_next::<C>(st) }
    else { sk_random::<C>(st) == sk_random::<C>(fld_rand_next::<C>(st)) && sk_random_next::<C>(st) == sk_random_next::<C>(fld_rand_next::<C>(st)) } });
  // the big-endian field encoding
  pub uninterp spec fn fe_enc<C>(s: Sc<C>) -> Seq<u8>;
  pub broadcast axiom fn ax_fe_len<C: hash2curve::GroupDigest>(s: Sc<C>) ensures (#[trigger] fe_enc(s)).len() == <C as hash2curve::GroupDigest>::FieldBytesSize::n();
  impl<C: hash2curve::GroupDigest> From<Sc<C>> for GenericArray<u8, <C as hash2curve::GroupDigest>::FieldBytesSize> {
    #[verifier::external_body] fn from(v: Sc<C>) -> (r: Self) ensures r@ == fe_enc(v) { unimplemented!() }
  }
  impl<C: hash2curve::GroupDigest> FromSpecImpl<Sc<C>> for GenericArray<u8, <C as hash2curve::GroupDigest>::FieldBytesSize> {
    open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Sc<C>) -> Self { ga(fe_enc(v)) }
  }
  pub struct Error;
  impl core::fmt::Debug for Error { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
  #[verifier::reject_recursive_types(C)]
  pub struct SecretKey<C> { pub k: Sc<C> }
  pub uninterp spec fn sk_random<C>(st: RngSt) -> Sc<C>;
  pub uninterp spec fn sk_random_next<C>(st: RngSt) -> RngSt;
  pub broadcast axiom fn ax_sk_random<C>(st: RngSt) ensures #[trigger] sk_random::<C>(st) != szero::<C>();
  impl<C: hash2curve::GroupDigest> SecretKey<C> {
    #[verifier::external_body]
    pub fn random<R: RngCore>(rng: &mut R) -> (r: Self)
      ensures r.k == sk_random::<C>(old(rng).st()), final(rng).st() == sk_random_next::<C>(old(rng).st()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_nonzero_scalar(&self) -> (r: &Sc<C>) ensures *r == self.k { unimplemented!() }
    pub open spec fn to_nonzero_scalar_s(&self) -> &Sc<C> { &self.k }
    /// unspecified unless the slice has exactly the field size (shorter slices may be zero padded)
    #[verifier::external_body]
    pub fn from_slice(b: &[u8]) -> (r: core::result::Result<Self, Error>)
      ensures b@.len() == <C as hash2curve::GroupDigest>::FieldBytesSize::n() ==> (match r {
          Ok(s) => s.k != szero::<C>() && fe_enc(s.k) == b@,
          Err(_) => forall|s: Sc<C>| #[trigger] fe_enc(s) == b@ ==> s == szero::<C>() }) { unimplemented!() }
  }
  #[verifier::reject_recursive_types(C)]
  pub struct PublicKey<C> { pub p: El<C> }
  impl<C: hash2curve::GroupDigest> PublicKey<C> {
    /// specified for compressed encodings only
    #[verifier::external_body]
    pub fn from_encoded_point(e: &sec1::EncodedPoint<C>) -> (r: CtOption<Self>)
      ensures sec1::sec1_compressed(e@) ==> (match r.o() {
        Some(k) => k.p != ident::<C>() && sec1::sec1_of(k.p, true) == e@,
        None => forall|x: El<C>| #[trigger] sec1::sec1_of(x, true) == e@ ==> x == ident::<C>() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_projective(&self) -> (r: El<C>) ensures r == self.p { unimplemented!() }
    pub open spec fn to_projective_s(&self) -> El<C> { self.p }
  }
  pub mod group { pub mod cofactor { pub trait CofactorGroup {} impl<C> CofactorGroup for crate::vx::El<C> {} } }
  pub mod sec1 {
    use vstd::prelude::*; use crate::vx::*;
    use core::marker::PhantomData;
    pub trait ModulusSize: ArrayLength { type CompressedPointSize: ArrayLength + 'static; }
    pub trait FromEncodedPoint<C> {} pub trait ToEncodedPoint<C> {}
    impl<C> FromEncodedPoint<C> for super::AffinePoint<C> {} impl<C> ToEncodedPoint<C> for super::AffinePoint<C> {} impl<C> ToEncodedPoint<C> for El<C> {}
    /// SEC1 encoding of a point, compressed or not
    pub uninterp spec fn sec1_of<C>(e: El<C>, compress: bool) -> Seq<u8>;
    pub uninterp spec fn sec1_ok<C>(b: Seq<u8>) -> bool;
    pub open spec fn sec1_compressed(b: Seq<u8>) -> bool { b.len() > 0 && (b[0] == 2 || b[0] == 3) }
    pub broadcast axiom fn ax_sec1<C: super::hash2curve::GroupDigest>(e: El<C>)
      ensures e != ident::<C>() ==> (#[trigger] sec1_of(e, true)).len() == <<C as super::hash2curve::GroupDigest>::FieldBytesSize as ModulusSize>::CompressedPointSize::n() && sec1_compressed(sec1_of(e, true)) && sec1_ok::<C>(sec1_of(e, true)),
        e == ident::<C>() ==> sec1_of(e, true) == seq![0u8],
        1 <= <<C as super::hash2curve::GroupDigest>::FieldBytesSize as ModulusSize>::CompressedPointSize::n();
    #[verifier::external_body]
    #[verifier::reject_recursive_types(C)]
    pub struct EncodedPoint<C>(PhantomData<C>);
    impl<C> View for EncodedPoint<C> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl<C: super::hash2curve::GroupDigest> EncodedPoint<C> {
      #[verifier::external_body]
      pub fn from_bytes(b: &[u8]) -> (r: core::result::Result<Self, super::Error>) ensures (r is Ok) == sec1_ok::<C>(b@), r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
      #[verifier::external_body]
      pub fn is_compressed(&self) -> (r: bool) ensures r == sec1_compressed(self@) { unimplemented!() }
      pub open spec fn is_compressed_s(&self) -> bool { sec1_compressed(self@) }
      #[verifier::external_body]
      pub fn is_identity(&self) -> (r: bool) ensures r == self.is_identity_s() { unimplemented!() }
      pub open spec fn is_identity_s(&self) -> bool { self@ == seq![0u8] }
      #[verifier::external_body]
      pub fn is_compact(&self) -> (r: bool) { unimplemented!() }
      #[verifier::external_body]
      pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
      #[verifier::external_body]
      pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    }
  }
  pub mod hash2curve {
    use vstd::prelude::*; use crate::vx::*;
    use core::marker::PhantomData;
    pub trait FromOkm {} impl<C> FromOkm for Sc<C> {}
    /// expand_message_xmd (RFC 9380)
    pub uninterp spec fn xmd<H>(msg: Seq<u8>, dst: Seq<u8>, n: nat) -> Seq<u8>;
    pub broadcast axiom fn ax_xmd_len<H>(m: Seq<u8>, d: Seq<u8>, n: nat) ensures #[trigger] xmd::<H>(m, d, n).len() == n;
    pub trait ExpandMsg: Sized {
      type Hash: Digest;
      fn expand_message(msgs: &[&[u8]], dst: &[&[u8]], len_in_bytes: usize) -> (r: core::result::Result<XmdOut, super::Error>)
        ensures (dst@.len() > 0 && 0 < len_in_bytes <= 255) ==> r is Ok, dst@.len() == 0 ==> r is Err,
          r is Ok ==> r->Ok_0@ == xmd::<Self::Hash>(flat(msgs@), flat(dst@), len_in_bytes as nat);
    }
    pub trait Expander { fn fill_bytes<B: VxBuf<E = u8> + ?Sized>(&mut self, b: &mut B); }
    #[verifier::external_body] pub struct XmdOut { _x: u8 }
    impl View for XmdOut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl XmdOut {
      /// specified only when the buffer has the length that was announced to expand_message
      #[verifier::external_body]
      pub fn fill_bytes<B: VxBuf<E = u8> + ?Sized>(&mut self, b: &mut B)
        ensures old(b).vx_buf().len() == final(b).vx_buf().len(), old(b).vx_buf().len() == old(self)@.len() ==> final(b).vx_buf() == old(self)@ { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(H)]
    pub struct ExpandMsgXmd<H>(PhantomData<H>);
    impl<H: Digest> ExpandMsg for ExpandMsgXmd<H> { type Hash = H;
      #[verifier::external_body] fn expand_message(msgs: &[&[u8]], dst: &[&[u8]], len_in_bytes: usize) -> (r: core::result::Result<XmdOut, super::Error>) { unimplemented!() } }
    /// RFC 9380 suites of a curve
    pub uninterp spec fn gd_h2c<C, H>(msg: Seq<u8>, dst: Seq<u8>) -> El<C>;
    pub uninterp spec fn gd_h2s<C, H>(msg: Seq<u8>, dst: Seq<u8>) -> Sc<C>;
    pub trait GroupDigest: Sized {
      type FieldBytesSize: super::sec1::ModulusSize + 'static;
      fn hash_from_bytes<X: ExpandMsg>(msgs: &[&[u8]], dst: &[&[u8]]) -> (r: core::result::Result<El<Self>, super::Error>)
        ensures (dst@.len() > 0) == (r is Ok), r is Ok ==> r->Ok_0 == gd_h2c::<Self, X::Hash>(flat(msgs@), flat(dst@));
      fn hash_to_scalar<X: ExpandMsg>(msgs: &[&[u8]], dst: &[&[u8]]) -> (r: core::result::Result<Sc<Self>, super::Error>)
        ensures (dst@.len() > 0) == (r is Ok), r is Ok ==> r->Ok_0 == gd_h2s::<Self, X::Hash>(flat(msgs@), flat(dst@));
    }
  }
}
//@cfg Ristretto255
pub mod curve25519_dalek {
  use vstd::prelude::*;
  pub mod constants { use vstd::prelude::*;
    #[verifier::external_body] pub const RISTRETTO_BASEPOINT_POINT: super::ristretto::RistrettoPoint = crate::vx::El(::core::marker::PhantomData);
  }
  pub mod traits { pub trait Identity {} pub trait IsIdentity {} }
  pub mod ristretto {
    use vstd::prelude::*; use crate::vx::*; use crate::Ristretto255;
    pub type RistrettoPoint = El<Ristretto255>;
    pub uninterp spec fn rist_enc(e: El<Ristretto255>) -> Seq<u8>;
    pub uninterp spec fn rist_uniform(b: Seq<u8>) -> El<Ristretto255>;
    #[verifier::external_body] pub struct CompressedRistretto { _x: u8 }
    impl View for CompressedRistretto { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    pub uninterp spec fn mkcomp(s: Seq<u8>) -> CompressedRistretto;
    pub broadcast axiom fn ax_mkcomp(s: Seq<u8>) ensures (#[trigger] mkcomp(s))@ == s;
    /// RFC 9496 decoding
    pub uninterp spec fn rist_dec(b: Seq<u8>) -> Option<El<Ristretto255>>;
    pub broadcast axiom fn ax_rist_dec(b: Seq<u8>) ensures (#[trigger] rist_dec(b)) is Some ==> rist_enc(rist_dec(b)->0) == b;
    pub broadcast axiom fn ax_rist_enc(e: El<Ristretto255>) ensures (#[trigger] rist_enc(e)).len() == 32, rist_dec(rist_enc(e)) == Some(e);
    impl CompressedRistretto {
      #[verifier::external_body]
      pub fn from_slice(b: &[u8]) -> (r: core::result::Result<CompressedRistretto, VxSizeError>) ensures r == Self::from_slice_s(b) { unimplemented!() }
      pub open spec fn from_slice_s(b: &[u8]) -> core::result::Result<CompressedRistretto, VxSizeError> { if b@.len() == 32 { Ok(mkcomp(b@)) } else { Err(VxSizeError) } }
      #[verifier::external_body]
      pub fn decompress(&self) -> (r: Option<RistrettoPoint>) ensures r == self.decompress_s() { unimplemented!() }
      pub open spec fn decompress_s(&self) -> Option<RistrettoPoint> { rist_dec(self@) }
      #[verifier::external_body]
      pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == self@ { unimplemented!() }
      #[verifier::external_body]
      pub fn as_bytes(&self) -> (r: &[u8; 32]) ensures r@ == self@ { unimplemented!() }
    }
    impl El<Ristretto255> {
      #[verifier::external_body]
      pub fn from_uniform_bytes(b: &[u8; 64]) -> (r: Self) ensures r == rist_uniform(b@) { unimplemented!() }
      pub open spec fn from_uniform_bytes_s(b: &[u8; 64]) -> Self { rist_uniform(b@) }
      #[verifier::external_body]
      pub fn compress(&self) -> (r: CompressedRistretto) ensures r@ == rist_enc(*self) { unimplemented!() }
      #[verifier::external_body]
      pub fn identity() -> (r: Self) ensures r == ident::<Ristretto255>() { unimplemented!() }
      pub open spec fn identity_s() -> Self { ident::<Ristretto255>() }
    }
  }
  pub mod scalar {
    use vstd::prelude::*; use crate::vx::*; use crate::Ristretto255;
    pub type Scalar = Sc<Ristretto255>;
    pub uninterp spec fn rs_wide(b: Seq<u8>) -> Sc<Ristretto255>;
    pub uninterp spec fn rs_enc(s: Sc<Ristretto255>) -> Seq<u8>;
    pub uninterp spec fn rs_dec(b: Seq<u8>) -> Option<Sc<Ristretto255>>;
    pub broadcast axiom fn ax_rs_dec(b: Seq<u8>) ensures (#[trigger] rs_dec(b)) is Some ==> rs_enc(rs_dec(b)->0) == b;
    pub broadcast axiom fn ax_rs_enc(e: Sc<Ristretto255>) ensures (#[trigger] rs_enc(e)).len() == 32, rs_dec(rs_enc(e)) == Some(e);
    /// one draw (64 bytes, reduced); may be zero
    pub uninterp spec fn rs_rand(st: RngSt) -> Sc<Ristretto255>;
    pub uninterp spec fn rs_rand_next(st: RngSt) -> RngSt;
    impl Sc<Ristretto255> {
      #[verifier::external_body] pub const ZERO: Sc<Ristretto255> = Sc(::core::marker::PhantomData);
      #[verifier::external_body] pub const ONE: Sc<Ristretto255> = Sc(::core::marker::PhantomData);
      #[verifier::external_body]
      pub fn from_bytes_mod_order_wide(b: &[u8; 64]) -> (r: Self) ensures r == rs_wide(b@) { unimplemented!() }
      pub open spec fn from_bytes_mod_order_wide_s(b: &[u8; 64]) -> Self { rs_wide(b@) }
      #[verifier::external_body]
      pub fn random<R: RngCore>(rng: &mut R) -> (r: Self) ensures r == rs_rand(old(rng).st()), final(rng).st() == rs_rand_next(old(rng).st()) { unimplemented!() }
      #[verifier::external_body]
      pub fn from_canonical_bytes(b: [u8; 32]) -> (r: CtOption<Self>) ensures r == Self::from_canonical_bytes_s(b) { unimplemented!() }
      pub open spec fn from_canonical_bytes_s(b: [u8; 32]) -> CtOption<Self> { mkct(rs_dec(b@)) }
      /// reduces: unspecified beyond being some scalar
      #[verifier::external_body]
      pub fn from_bytes_mod_order(b: [u8; 32]) -> (r: Self) { unimplemented!() }
      #[verifier::external_body]
      pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == rs_enc(*self) { unimplemented!() }
      #[verifier::external_body]
      pub fn as_bytes(&self) -> (r: &[u8; 32]) ensures r@ == rs_enc(*self) { unimplemented!() }
      #[verifier::external_body]
      pub fn invert(&self) -> (r: Self) requires *self != szero::<Ristretto255>() ensures r == sinv(*self) { unimplemented!() }
      pub open spec fn invert_s(&self) -> Self { sinv(*self) }
      pub open spec fn invert_q(&self) -> bool { *self != szero::<Ristretto255>() }
    }
  }
}
//@endcfg
pub mod serde {
  pub use self::de::{Deserialize, Deserializer}; pub use self::ser::{Serialize, Serializer};
  pub mod de {
    use vstd::prelude::*; use crate::vx::*; use crate::sp::*;
    pub trait Error: Sized {
      spec fn custom_s(e: crate::Error) -> Self;
      fn custom(e: crate::Error) -> (r: Self) ensures r == Self::custom_s(e);
      fn invalid_length(n: usize, e: &&'static str) -> (r: Self);
      fn duplicate_field(f: &'static str) -> (r: Self);
      fn missing_field(f: &'static str) -> (r: Self);
      fn unknown_field(f: &str, e: &'static [&'static str]) -> (r: Self);
      fn invalid_value<X>(u: X, e: &&'static str) -> (r: Self);
      fn unexpected() -> (r: Self);
    }
    /// what the deserializer yields for a byte array of a given length type
    pub uninterp spec fn de_ga<D, L, E>(d: D) -> core::result::Result<GenericArray<u8, L>, E>;
    /// the deserializer yields a byte array, and the native deserialization of it is v
    pub open spec fn acc_el<'de, G: crate::Group, D: Deserializer<'de>>(d: D, v: El<G>) -> bool { de_ga::<D, G::ElemLen, D::Error>(d) is Ok && de_el::<G>(de_ga::<D, G::ElemLen, D::Error>(d)->Ok_0@) == Ok::<El<G>, crate::Error>(v) }
    pub open spec fn rej_el<'de, G: crate::Group, D: Deserializer<'de>>(d: D) -> bool { de_ga::<D, G::ElemLen, D::Error>(d) is Err || de_el::<G>(de_ga::<D, G::ElemLen, D::Error>(d)->Ok_0@) is Err }
    pub open spec fn acc_sc<'de, G: crate::Group, D: Deserializer<'de>>(d: D, v: Sc<G>) -> bool { de_ga::<D, G::ScalarLen, D::Error>(d) is Ok && de_sc::<G>(de_ga::<D, G::ScalarLen, D::Error>(d)->Ok_0@) == Ok::<Sc<G>, crate::Error>(v) }
    pub open spec fn rej_sc<'de, G: crate::Group, D: Deserializer<'de>>(d: D) -> bool { de_ga::<D, G::ScalarLen, D::Error>(d) is Err || de_sc::<G>(de_ga::<D, G::ScalarLen, D::Error>(d)->Ok_0@) is Err }
    /// the deserializer yields the native encoding of this value
    pub open spec fn yields_el<'de, G: crate::Group, D: Deserializer<'de>>(d: D, v: El<G>) -> bool { de_ga::<D, G::ElemLen, D::Error>(d) is Ok && de_ga::<D, G::ElemLen, D::Error>(d)->Ok_0@ == ser_el::<G>(v) }
    pub open spec fn yields_sc<'de, G: crate::Group, D: Deserializer<'de>>(d: D, v: Sc<G>) -> bool { de_ga::<D, G::ScalarLen, D::Error>(d) is Ok && de_ga::<D, G::ScalarLen, D::Error>(d)->Ok_0@ == ser_sc::<G>(v) }
    /// a data format: it hands a struct to the visitor, by position (visit_seq), by name (visit_map) or as a newtype
    pub trait Deserializer<'de>: Sized {
      type Error: Error;
    }
    pub trait Deserialize<'de>: Sized {
      /// d is accepted, with this value; d is refused
      spec fn acc<D: Deserializer<'de>>(d: D, v: Self) -> bool;
      spec fn rej<D: Deserializer<'de>>(d: D) -> bool;
      fn vx_deserialize<__D: Deserializer<'de>>(d: __D) -> (r: core::result::Result<Self, __D::Error>) ensures r is Ok ==> Self::acc(d, r->Ok_0), r is Err ==> Self::rej(d);
    }
    impl<'de, L: ArrayLength> Deserialize<'de> for GenericArray<u8, L> {
      open spec fn acc<D: Deserializer<'de>>(d: D, v: Self) -> bool { de_ga::<D, L, D::Error>(d) is Ok }
      open spec fn rej<D: Deserializer<'de>>(d: D) -> bool { de_ga::<D, L, D::Error>(d) is Err }
      #[verifier::external_body]
      fn vx_deserialize<__D: Deserializer<'de>>(d: __D) -> (r: core::result::Result<Self, __D::Error>) ensures r == de_ga::<__D, L, __D::Error>(d) { unimplemented!() }
    }
    impl<L: ArrayLength> GenericArray<u8, L> {
      #[verifier::external_body]
      pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> (r: core::result::Result<Self, D::Error>) ensures r == de_ga::<D, L, D::Error>(d) { unimplemented!() }
      pub open spec fn deserialize_s<'de, D: Deserializer<'de>>(d: D) -> core::result::Result<Self, D::Error> { de_ga::<D, L, D::Error>(d) }
    }
    pub trait Visitor<'de>: Sized {
      type Value;
      spec fn good(v: Self::Value) -> bool;
      /// for field names: v stands for the k-th field
      spec fn key(k: int, v: Self::Value) -> bool;
      fn visit_u64<__E: Error>(self, v: u64) -> (r: core::result::Result<Self::Value, __E>) ensures r is Ok ==> Self::good(r->Ok_0) { Err(__E::unexpected()) }
      fn visit_str<__E: Error>(self, v: &str) -> (r: core::result::Result<Self::Value, __E>) ensures r is Ok ==> Self::good(r->Ok_0) { Err(__E::unexpected()) }
      fn visit_newtype_struct<__E: Deserializer<'de>>(self, e: __E) -> (r: core::result::Result<Self::Value, __E::Error>) ensures r is Ok ==> Self::good(r->Ok_0) { Err(__E::Error::unexpected()) }
      fn visit_seq<__A: SeqAccess<'de>>(self, a: __A) -> (r: core::result::Result<Self::Value, __A::Error>) ensures r is Ok ==> Self::good(r->Ok_0) { Err(__A::Error::unexpected()) }
      fn visit_map<__A: MapAccess<'de>>(self, a: __A) -> (r: core::result::Result<Self::Value, __A::Error>) requires a.at() == 0 ensures r is Ok ==> Self::good(r->Ok_0) { Err(__A::Error::unexpected()) }
    }
    /// the elements of a sequence, as the deserializers they are read from
    pub trait SeqAccess<'de>: Sized {
      type Error: Error; type D: Deserializer<'de, Error = Self::Error>;
      spec fn rest(&self) -> Seq<Self::D>;
      spec fn broken(&self) -> bool;
      fn next_element<T: Deserialize<'de>>(&mut self) -> (r: core::result::Result<Option<T>, Self::Error>)
        ensures final(self).broken() == old(self).broken(),
          r is Ok && r->Ok_0 is None ==> old(self).rest().len() == 0,
          r is Ok && r->Ok_0 is Some ==> old(self).rest().len() > 0 && final(self).rest() == old(self).rest().drop_first() && T::acc(old(self).rest()[0], r->Ok_0->0),
          r is Err ==> old(self).broken() || (old(self).rest().len() > 0 && T::rej(old(self).rest()[0]));
    }
    pub trait MapAccess<'de>: Sized {
      type Error: Error; type K: Deserializer<'de, Error = Self::Error>; type D: Deserializer<'de, Error = Self::Error>;
      spec fn ents(&self) -> Seq<(Self::K, Self::D)>;
      spec fn at(&self) -> int;
      spec fn broken(&self) -> bool;
      fn next_key<T: Deserialize<'de>>(&mut self) -> (r: core::result::Result<Option<T>, Self::Error>)
        ensures final(self).broken() == old(self).broken(), final(self).ents() == old(self).ents(),
          r is Ok && r->Ok_0 is None ==> old(self).at() == old(self).ents().len() && final(self).at() == old(self).at(),
          r is Ok && r->Ok_0 is Some ==> 0 <= old(self).at() < old(self).ents().len() && final(self).at() == old(self).at() + 1 && T::acc(old(self).ents()[old(self).at()].0, r->Ok_0->0),
          r is Err ==> old(self).broken() || (0 <= old(self).at() < old(self).ents().len() && T::rej(old(self).ents()[old(self).at()].0));
      fn next_value<T: Deserialize<'de>>(&mut self) -> (r: core::result::Result<T, Self::Error>)
        ensures final(self).broken() == old(self).broken(), final(self).ents() == old(self).ents(), final(self).at() == old(self).at(),
          r is Ok ==> T::acc(old(self).ents()[old(self).at() - 1].1, r->Ok_0),
          r is Err ==> old(self).broken() || T::rej(old(self).ents()[old(self).at() - 1].1);
    }
    #[verifier::external_body] pub fn deserialize_struct<'de, D: Deserializer<'de>, V: Visitor<'de>>(d: D, name: &'static str, fields: &'static [&'static str], v: V) -> (r: core::result::Result<V::Value, D::Error>) ensures r is Ok ==> V::good(r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn deserialize_newtype_struct<'de, D: Deserializer<'de>, V: Visitor<'de>>(d: D, name: &'static str, v: V) -> (r: core::result::Result<V::Value, D::Error>) ensures r is Ok ==> V::good(r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn deserialize_tuple_struct<'de, D: Deserializer<'de>, V: Visitor<'de>>(d: D, name: &'static str, len: usize, v: V) -> (r: core::result::Result<V::Value, D::Error>) ensures r is Ok ==> V::good(r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn deserialize_identifier<'de, D: Deserializer<'de>, V: Visitor<'de>>(d: D, v: V) -> (r: core::result::Result<V::Value, D::Error>) ensures r is Ok ==> V::good(r->Ok_0) && V::key(key_of(d), r->Ok_0), r is Err ==> key_bad(d) { unimplemented!() }
    /// the position of the field that a name (or index) denotes, as the derived field visitor reads it; -1: none
    pub uninterp spec fn key_of<D>(d: D) -> int;
    pub uninterp spec fn key_bad<D>(d: D) -> bool;
    pub struct IgnoredAny;
    impl<'de> Deserialize<'de> for IgnoredAny {
      open spec fn acc<D: Deserializer<'de>>(d: D, v: Self) -> bool { true }
      open spec fn rej<D: Deserializer<'de>>(d: D) -> bool { ignored_bad(d) }
      #[verifier::external_body]
      fn vx_deserialize<__D: Deserializer<'de>>(d: __D) -> (r: core::result::Result<Self, __D::Error>) { unimplemented!() }
    }
    pub uninterp spec fn ignored_bad<D>(d: D) -> bool;
  }
  pub mod ser {
    use vstd::prelude::*; use crate::vx::*;
    /// what is written, in serde's data model
    pub enum Tok { Bytes(Seq<u8>), Newtype(Box<Tok>), Fields(Seq<(&'static str, Tok)>) }
    /// the serializer (by its identity) wrote t, and this is its answer
    pub uninterp spec fn emitted<O>(s: int, t: Tok, o: O) -> bool;
    pub uninterp spec fn ser_ga<S, L, O, E>(g: GenericArray<u8, L>, s: S) -> core::result::Result<O, E>;
    pub trait Serialize {
      spec fn tok(&self) -> Tok;
      fn vx_serialize<__S: Serializer>(&self, s: __S) -> (r: core::result::Result<__S::Ok, __S::Error>) ensures r is Ok ==> emitted(s.id(), self.tok(), r->Ok_0);
    }
    pub trait Serializer: Sized {
      type Ok; type Error; type SerializeStruct: SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
      spec fn id(&self) -> int;
    }
    pub trait SerializeStruct: Sized {
      type Ok; type Error;
      spec fn of(&self) -> int;
      spec fn written(&self) -> Seq<(&'static str, Tok)>;
    }
    #[verifier::external_body] pub fn serialize_struct<S: Serializer>(s: S, name: &'static str, len: usize) -> (r: core::result::Result<S::SerializeStruct, S::Error>) ensures r is Ok ==> r->Ok_0.of() == s.id() && r->Ok_0.written() == Seq::<(&'static str, Tok)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn serialize_newtype_struct<S: Serializer, T: Serialize>(s: S, name: &'static str, v: &T) -> (r: core::result::Result<S::Ok, S::Error>) ensures r is Ok ==> emitted(s.id(), Tok::Newtype(Box::new(v.tok())), r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn serialize_field<X: SerializeStruct, T: Serialize>(x: &mut X, key: &'static str, v: &T) -> (r: core::result::Result<(), X::Error>) ensures r is Ok ==> final(x).of() == old(x).of() && final(x).written() == old(x).written().push((key, v.tok())) { unimplemented!() }
    #[verifier::external_body] pub fn end<X: SerializeStruct>(x: X) -> (r: core::result::Result<X::Ok, X::Error>) ensures r is Ok ==> emitted(x.of(), Tok::Fields(x.written()), r->Ok_0) { unimplemented!() }
    impl<L: ArrayLength> Serialize for GenericArray<u8, L> {
      open spec fn tok(&self) -> Tok { Tok::Bytes(self@) }
      #[verifier::external_body]
      fn vx_serialize<__S: Serializer>(&self, s: __S) -> (r: core::result::Result<__S::Ok, __S::Error>) ensures r == self.serialize_s::<__S>(s) { unimplemented!() }
    }
    impl<L: ArrayLength> GenericArray<u8, L> {
      #[verifier::external_body]
      pub fn serialize<S: Serializer>(&self, s: S) -> (r: core::result::Result<S::Ok, S::Error>) ensures r == self.serialize_s::<S>(s), r is Ok ==> emitted(s.id(), Tok::Bytes(self@), r->Ok_0) { unimplemented!() }
      pub open spec fn serialize_s<S: Serializer>(&self, s: S) -> core::result::Result<S::Ok, S::Error> { ser_ga::<S, L, S::Ok, S::Error>(*self, s) }
    }
  }
}
}
