// The protocol (RFC 9497) as mathematics over the abstract group, hash and RNG.
pub mod sp {
use vstd::prelude::*;
use crate::vx::*;
use crate::error::{Error, InternalError, Result};
use crate::common::Mode;
use crate::group::Group;
use crate::ciphersuite::CipherSuite;
use crate::ext::elliptic_curve::{fe_enc, ax_fe_len, sk_random, sk_random_next, ax_sk_random};
use crate::ext::elliptic_curve::sec1::{ModulusSize, sec1_of, sec1_ok, sec1_compressed, ax_sec1};
use crate::ext::elliptic_curve::hash2curve::{GroupDigest, xmd, gd_h2c, gd_h2s, ax_xmd_len};
//@cfg Ristretto255
use crate::group::Ristretto255;
use crate::ext::curve25519_dalek::ristretto::{rist_enc, rist_dec, rist_uniform, ax_rist_dec, ax_rist_enc, ax_mkcomp};
use crate::ext::curve25519_dalek::scalar::{rs_enc, rs_dec, rs_wide, rs_rand, rs_rand_next, ax_rs_enc, ax_rs_dec};
use crate::ext::curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
//@endcfg

// ------------------------------------------------------------ the prime-order group interface
/// canonical encodings
pub uninterp spec fn ser_el<G>(e: El<G>) -> Seq<u8>;
pub uninterp spec fn ser_sc<G>(s: Sc<G>) -> Seq<u8>;
/// partial inverses of the encodings
pub uninterp spec fn un_el<G>(b: Seq<u8>) -> Option<El<G>>;
pub uninterp spec fn un_sc<G>(b: Seq<u8>) -> Option<Sc<G>>;
pub uninterp spec fn h2c<G, H>(msg: Seq<u8>, dst: Seq<u8>) -> El<G>;
pub uninterp spec fn h2s<G, H>(msg: Seq<u8>, dst: Seq<u8>) -> Sc<G>;
/// the non-zero scalar drawn from an RNG state and the state afterwards
pub uninterp spec fn rnd_sc<G>(st: RngSt) -> Sc<G>;
pub uninterp spec fn rnd_next<G>(st: RngSt) -> RngSt;

pub open spec fn de_el<G>(b: Seq<u8>) -> Result<El<G>> { match un_el::<G>(b) { Some(e) => if e == ident::<G>() { Err(Error::Deserialization) } else { Ok(e) }, None => Err(Error::Deserialization) } }
pub open spec fn de_sc<G>(b: Seq<u8>) -> Result<Sc<G>> { match un_sc::<G>(b) { Some(s) => if s == szero::<G>() { Err(Error::Deserialization) } else { Ok(s) }, None => Err(Error::Deserialization) } }

pub broadcast axiom fn ax_ser_el<G>(e: El<G>) ensures un_el::<G>(#[trigger] ser_el::<G>(e)) == Some(e);
pub broadcast axiom fn ax_ser_el_len<G: Group>(e: El<G>) ensures (#[trigger] ser_el::<G>(e)).len() == <G as Group>::ElemLen::n();
pub broadcast axiom fn ax_un_el<G>(b: Seq<u8>) ensures (#[trigger] un_el::<G>(b)) is Some ==> ser_el::<G>(un_el::<G>(b)->0) == b;
pub broadcast axiom fn ax_ser_sc<G>(s: Sc<G>) ensures un_sc::<G>(#[trigger] ser_sc::<G>(s)) == Some(s);
pub broadcast axiom fn ax_ser_sc_len<G: Group>(s: Sc<G>) ensures (#[trigger] ser_sc::<G>(s)).len() == <G as Group>::ScalarLen::n();
pub broadcast axiom fn ax_un_sc<G>(b: Seq<u8>) ensures (#[trigger] un_sc::<G>(b)) is Some ==> ser_sc::<G>(un_sc::<G>(b)->0) == b;
pub broadcast axiom fn ax_rnd<G>(st: RngSt) ensures #[trigger] rnd_sc::<G>(st) != szero::<G>();

pub trait GroupSpec: Group {
  spec fn hash_to_curve_s<H: Digest>(input: &[&[u8]], dst: &[&[u8]]) -> core::result::Result<El<Self>, InternalError>;
  spec fn hash_to_scalar_s<H: Digest>(input: &[&[u8]], dst: &[&[u8]]) -> core::result::Result<Sc<Self>, InternalError>;
  spec fn base_elem_s() -> El<Self>;
  spec fn identity_elem_s() -> El<Self>;
  spec fn is_identity_elem_s(e: El<Self>) -> Choice;
  spec fn serialize_elem_s(e: El<Self>) -> GenericArray<u8, Self::ElemLen>;
  spec fn deserialize_elem_s(b: &[u8]) -> Result<El<Self>>;
  spec fn invert_scalar_s(s: Sc<Self>) -> Sc<Self>;
  spec fn invert_scalar_q(s: Sc<Self>) -> bool;
  spec fn is_zero_scalar_s(s: Sc<Self>) -> Choice;
  spec fn serialize_scalar_s(s: Sc<Self>) -> GenericArray<u8, Self::ScalarLen>;
  spec fn deserialize_scalar_s(b: &[u8]) -> Result<Sc<Self>>;
}
impl<G: Group> GroupSpec for G {
  open spec fn hash_to_curve_s<H: Digest>(input: &[&[u8]], dst: &[&[u8]]) -> core::result::Result<El<Self>, InternalError> { if dst@.len() > 0 { Ok(h2c::<Self, H>(flat(input@), flat(dst@))) } else { Err(InternalError::Input) } }
  open spec fn hash_to_scalar_s<H: Digest>(input: &[&[u8]], dst: &[&[u8]]) -> core::result::Result<Sc<Self>, InternalError> { if dst@.len() > 0 { Ok(h2s::<Self, H>(flat(input@), flat(dst@))) } else { Err(InternalError::Input) } }
  open spec fn base_elem_s() -> El<Self> { gen::<Self>() }
  open spec fn identity_elem_s() -> El<Self> { ident::<Self>() }
  open spec fn is_identity_elem_s(e: El<Self>) -> Choice { Choice { b: e == ident::<Self>() } }
  open spec fn serialize_elem_s(e: El<Self>) -> GenericArray<u8, Self::ElemLen> { ga(ser_el::<Self>(e)) }
  open spec fn deserialize_elem_s(b: &[u8]) -> Result<El<Self>> { de_el::<Self>(b@) }
  open spec fn invert_scalar_s(s: Sc<Self>) -> Sc<Self> { sinv(s) }
  open spec fn invert_scalar_q(s: Sc<Self>) -> bool { s != szero::<Self>() }
  open spec fn is_zero_scalar_s(s: Sc<Self>) -> Choice { Choice { b: s == szero::<Self>() } }
  open spec fn serialize_scalar_s(s: Sc<Self>) -> GenericArray<u8, Self::ScalarLen> { ga(ser_sc::<Self>(s)) }
  open spec fn deserialize_scalar_s(b: &[u8]) -> Result<Sc<Self>> { de_sc::<Self>(b@) }
}

// size bounds of real suites
pub broadcast axiom fn ax_elem_len<G: Group>() ensures 1 <= #[trigger] <<G as Group>::ElemLen as ArrayLength>::n() <= 65535;
pub broadcast axiom fn ax_scalar_len<G: Group>() ensures 1 <= #[trigger] <<G as Group>::ScalarLen as ArrayLength>::n() <= 65535;
pub broadcast axiom fn ax_out_len<D: Digest>() ensures 1 <= #[trigger] <<D as OutputSizeUser>::OutputSize as ArrayLength>::n() < 256;
pub broadcast axiom fn ax_id_len<CS>() ensures #[trigger] id_of::<CS>().len() <= 60000;
pub broadcast axiom fn ax_sum_len<A: TAdd<B>, B: ArrayLength>() ensures #[trigger] <<A as TAdd<B>>::Output as ArrayLength>::n() == A::n() + B::n();
pub broadcast axiom fn ax_str_len(s: &str) ensures #[trigger] s.spec_bytes().len() <= usize::MAX;

pub proof fn lx_elem_len<G: Group>() ensures 1 <= <<G as Group>::ElemLen as ArrayLength>::n() <= 65535 { broadcast use ax_elem_len; }

// ------------------------------------------------------------ ristretto255 and the NIST curves
//@cfg Ristretto255
pub broadcast axiom fn ax_r_bp() ensures #[trigger] RISTRETTO_BASEPOINT_POINT == gen::<Ristretto255>();
pub broadcast axiom fn ax_r_zero() ensures #[trigger] crate::ext::curve25519_dalek::scalar::Scalar::ZERO == szero::<Ristretto255>();
pub broadcast axiom fn ax_r_one() ensures #[trigger] crate::ext::curve25519_dalek::scalar::Scalar::ONE == sone::<Ristretto255>();
pub broadcast axiom fn df_r_ser_el(e: El<Ristretto255>) ensures #[trigger] ser_el::<Ristretto255>(e) == rist_enc(e);
pub broadcast axiom fn df_r_un_el(b: Seq<u8>) ensures #[trigger] un_el::<Ristretto255>(b) == rist_dec(b);
pub broadcast axiom fn df_r_ser_sc(e: Sc<Ristretto255>) ensures #[trigger] ser_sc::<Ristretto255>(e) == rs_enc(e);
pub broadcast axiom fn df_r_un_sc(b: Seq<u8>) ensures #[trigger] un_sc::<Ristretto255>(b) == rs_dec(b);
pub broadcast axiom fn df_r_h2c<H>(m: Seq<u8>, d: Seq<u8>) ensures #[trigger] h2c::<Ristretto255, H>(m, d) == rist_uniform(xmd::<H>(m, d, 64));
pub broadcast axiom fn df_r_h2s<H>(m: Seq<u8>, d: Seq<u8>) ensures #[trigger] h2s::<Ristretto255, H>(m, d) == rs_wide(xmd::<H>(m, d, 64));
/// draw again while the draw is zero
pub broadcast axiom fn df_r_rnd(st: RngSt) ensures #[trigger] rnd_sc::<Ristretto255>(st) == (if rs_rand(st) == szero::<Ristretto255>() { rnd_sc::<Ristretto255>(rs_rand_next(st)) } else { rs_rand(st) });
pub broadcast axiom fn df_r_rnd_next(st: RngSt) ensures #[trigger] rnd_next::<Ristretto255>(st) == (if rs_rand(st) == szero::<Ristretto255>() { rnd_next::<Ristretto255>(rs_rand_next(st)) } else { rs_rand_next(st) });
//@endcfg

pub broadcast axiom fn df_c_ser_el<C: GroupDigest>(e: El<C>) ensures #[trigger] ser_el::<C>(e) == (if e == ident::<C>() { zeros(<<C as GroupDigest>::FieldBytesSize as ModulusSize>::CompressedPointSize::n()) } else { sec1_of(e, true) });
pub broadcast axiom fn df_c_ser_sc<C: GroupDigest>(e: Sc<C>) ensures #[trigger] ser_sc::<C>(e) == fe_enc(e);
/// the same links, found from the curve's side
pub broadcast proof fn dl_c_el<C: GroupDigest>(e: El<C>) ensures e != ident::<C>() ==> ser_el::<C>(e) == #[trigger] sec1_of(e, true) { broadcast use df_c_ser_el; }
pub broadcast proof fn dl_c_sc<C: GroupDigest>(e: Sc<C>) ensures ser_sc::<C>(e) == #[trigger] fe_enc(e) { broadcast use df_c_ser_sc; }
pub broadcast axiom fn df_c_h2c<C: GroupDigest, H>(m: Seq<u8>, d: Seq<u8>) ensures #[trigger] h2c::<C, H>(m, d) == gd_h2c::<C, H>(m, d);
pub broadcast axiom fn df_c_h2s<C: GroupDigest, H>(m: Seq<u8>, d: Seq<u8>) ensures #[trigger] h2s::<C, H>(m, d) == gd_h2s::<C, H>(m, d);
pub broadcast axiom fn df_c_rnd<C: GroupDigest>(st: RngSt) ensures #[trigger] rnd_sc::<C>(st) == sk_random::<C>(st);
pub broadcast axiom fn df_c_rnd_next<C: GroupDigest>(st: RngSt) ensures #[trigger] rnd_next::<C>(st) == sk_random_next::<C>(st);

pub broadcast group sp_ax {
  ax_ser_el, ax_ser_el_len, ax_un_el, ax_ser_sc, ax_ser_sc_len, ax_un_sc, ax_rnd, ax_elem_len, ax_scalar_len, ax_out_len, ax_id_len, ax_sum_len, ax_str_len,
  g_add_comm, s_mul_comm, s_add_comm,
//@cfg Ristretto255
  ax_r_bp, ax_r_zero, ax_r_one, ax_rist_dec, ax_rist_enc, ax_mkcomp, ax_rs_enc, ax_rs_dec,
//@endcfg
  ax_sk_random, ax_fe_len, ax_sec1, ax_xmd_len,
}

// ------------------------------------------------------------ group laws (prime order)
pub axiom fn g_mul_mul<G>(e: El<G>, a: Sc<G>, b: Sc<G>) ensures emul(emul(e, a), b) == emul(e, smul(a, b));
pub axiom fn g_mul_one<G>(e: El<G>) ensures emul(e, sone::<G>()) == e;
pub axiom fn g_mul_zero<G>(e: El<G>) ensures emul(e, szero::<G>()) == ident::<G>();
pub axiom fn g_ident_mul<G>(k: Sc<G>) ensures emul(ident::<G>(), k) == ident::<G>();
pub axiom fn g_mul_add<G>(e: El<G>, a: Sc<G>, b: Sc<G>) ensures emul(e, sadd(a, b)) == eadd(emul(e, a), emul(e, b));
pub axiom fn g_add_mul<G>(a: El<G>, b: El<G>, k: Sc<G>) ensures emul(eadd(a, b), k) == eadd(emul(a, k), emul(b, k));
pub broadcast axiom fn g_add_comm<G>(a: El<G>, b: El<G>) ensures #[trigger] eadd(a, b) == eadd(b, a);
pub axiom fn g_prime<G>(e: El<G>, k: Sc<G>) ensures emul(e, k) == ident::<G>() ==> e == ident::<G>() || k == szero::<G>();
pub axiom fn g_gen<G>() ensures gen::<G>() != ident::<G>();
pub broadcast axiom fn s_mul_comm<G>(a: Sc<G>, b: Sc<G>) ensures #[trigger] smul(a, b) == smul(b, a);
pub axiom fn s_mul_assoc<G>(a: Sc<G>, b: Sc<G>, c: Sc<G>) ensures smul(smul(a, b), c) == smul(a, smul(b, c));
pub axiom fn s_mul_one<G>(a: Sc<G>) ensures smul(a, sone::<G>()) == a;
pub axiom fn s_inv<G>(a: Sc<G>) requires a != szero::<G>() ensures smul(a, sinv(a)) == sone::<G>(), sinv(a) != szero::<G>();
pub axiom fn s_sub_add<G>(a: Sc<G>, b: Sc<G>) ensures sadd(ssub(a, b), b) == a;
pub broadcast axiom fn s_add_comm<G>(a: Sc<G>, b: Sc<G>) ensures #[trigger] sadd(a, b) == sadd(b, a);

/// unblinding
pub proof fn l_unblind<G>(h: El<G>, b: Sc<G>, k: Sc<G>)
  requires b != szero::<G>()
  ensures emul(emul(emul(h, b), k), sinv(b)) == emul(h, k)
{
  g_mul_mul(emul(h, b), k, sinv(b)); s_mul_comm(k, sinv(b)); g_mul_mul(emul(h, b), sinv(b), k);
  g_mul_mul(h, b, sinv(b)); s_inv(b); g_mul_one(h);
}
/// response equation
pub proof fn l_resp<G>(a: El<G>, r: Sc<G>, c: Sc<G>, k: Sc<G>)
  ensures eadd(emul(a, ssub(r, smul(c, k))), emul(emul(a, k), c)) == emul(a, r)
{
  g_mul_mul(a, k, c); s_mul_comm(k, c);
  g_mul_add(a, ssub(r, smul(c, k)), smul(c, k)); s_sub_add(r, smul(c, k));
}
pub proof fn l_inv_mul<G>(e: El<G>, t: Sc<G>)
  requires t != szero::<G>()
  ensures emul(emul(e, sinv(t)), t) == e
{ g_mul_mul(e, sinv(t), t); s_mul_comm(sinv(t), t); s_inv(t); g_mul_one(e); }

// ------------------------------------------------------------ RFC 9497 byte strings
pub open spec fn p_h2g() -> Seq<u8> { seq![72u8, 97u8, 115u8, 104u8, 84u8, 111u8, 71u8, 114u8, 111u8, 117u8, 112u8, 45u8] }
pub open spec fn p_h2s() -> Seq<u8> { seq![72u8, 97u8, 115u8, 104u8, 84u8, 111u8, 83u8, 99u8, 97u8, 108u8, 97u8, 114u8, 45u8] }
pub open spec fn p_dkp() -> Seq<u8> { seq![68u8, 101u8, 114u8, 105u8, 118u8, 101u8, 75u8, 101u8, 121u8, 80u8, 97u8, 105u8, 114u8] }
pub open spec fn p_seed() -> Seq<u8> { seq![83u8, 101u8, 101u8, 100u8, 45u8] }
pub open spec fn p_composite() -> Seq<u8> { seq![67u8, 111u8, 109u8, 112u8, 111u8, 115u8, 105u8, 116u8, 101u8] }
pub open spec fn p_challenge() -> Seq<u8> { seq![67u8, 104u8, 97u8, 108u8, 108u8, 101u8, 110u8, 103u8, 101u8] }
pub open spec fn p_info() -> Seq<u8> { seq![73u8, 110u8, 102u8, 111u8] }
pub open spec fn p_finalize() -> Seq<u8> { seq![70u8, 105u8, 110u8, 97u8, 108u8, 105u8, 122u8, 101u8] }
pub open spec fn p_oprfv1() -> Seq<u8> { seq![79u8, 80u8, 82u8, 70u8, 86u8, 49u8, 45u8] }
pub open spec fn mode_n(m: Mode) -> u8 { match m { Mode::Oprf => 0, Mode::Voprf => 1, Mode::Poprf => 2 } }
/// the suite identifier's bytes
pub uninterp spec fn id_of<CS>() -> Seq<u8>;
/// definition of `id_of`
pub axiom fn id_link<CS: CipherSuite>() ensures <CS as CipherSuite>::ID.spec_bytes() == id_of::<CS>();
/// prefix || "OPRFV1-" || I2OSP(mode, 1) || "-" || identifier
pub open spec fn dst_of<CS: CipherSuite>(prefix: Seq<u8>, m: Mode) -> Seq<u8> { prefix + p_oprfv1() + seq![mode_n(m)] + seq![45u8] + id_of::<CS>() }

pub open spec fn hash_group<CS: CipherSuite>(input: Seq<u8>, m: Mode) -> El<CS::Group> { h2c::<CS::Group, CS::Hash>(input, dst_of::<CS>(p_h2g(), m)) }
pub open spec fn hash_scalar<CS: CipherSuite>(msg: Seq<u8>, m: Mode) -> Sc<CS::Group> { h2s::<CS::Group, CS::Hash>(msg, dst_of::<CS>(p_h2s(), m)) }
pub open spec fn lp(s: Seq<u8>) -> Seq<u8> { be16(s.len() as int) + s }

// Finalize / Evaluate hash input
pub open spec fn fin_msg(input: Seq<u8>, info: Option<Seq<u8>>, el: Seq<u8>) -> Seq<u8> {
  match info {
    None => be16(input.len() as int) + input + be16(el.len() as int) + el + p_finalize(),
    Some(i) => be16(input.len() as int) + input + be16(i.len() as int) + i + be16(el.len() as int) + el + p_finalize(),
  } }
pub open spec fn fin_out<CS: CipherSuite>(input: Seq<u8>, info: Option<Seq<u8>>, e: El<CS::Group>) -> Seq<u8> { dig::<CS::Hash>(fin_msg(input, info, ser_el::<CS::Group>(e))) }
pub open spec fn out_of<CS: CipherSuite>(s: Seq<u8>) -> crate::ext::digest::Output<CS::Hash> { ga(s) }

/// Finalize: the output, or why there is none
pub open spec fn fin_res<CS: CipherSuite>(input: Seq<u8>, info: Option<Seq<u8>>, e: El<CS::Group>) -> Result<crate::ext::digest::Output<CS::Hash>> {
  if input.len() > 65535 || (info is Some && info->0.len() > 65535) { Err(Error::Input) } else { Ok(out_of::<CS>(fin_out::<CS>(input, info, e))) } }

// DeriveKeyPair
pub open spec fn dk<CS: CipherSuite>(seed: Seq<u8>, info: Seq<u8>, m: Mode, ctr: int) -> Sc<CS::Group> {
  h2s::<CS::Group, CS::Hash>(seed + be16(info.len() as int) + info + seq![ctr as u8], dst_of::<CS>(p_dkp(), m)) }
pub open spec fn dk_from<CS: CipherSuite>(seed: Seq<u8>, info: Seq<u8>, m: Mode, ctr: int) -> Result<Sc<CS::Group>> decreases 256 - ctr
{ if ctr >= 256 { Err(Error::Protocol) } else if dk::<CS>(seed, info, m, ctr) != szero::<CS::Group>() { Ok(dk::<CS>(seed, info, m, ctr)) } else { dk_from::<CS>(seed, info, m, ctr + 1) } }
pub open spec fn derive_key_of<CS: CipherSuite>(seed: Seq<u8>, info: Seq<u8>, m: Mode) -> Result<Sc<CS::Group>> {
  if info.len() > 65535 { Err(Error::DeriveKeyPair) } else { dk_from::<CS>(seed, info, m, 0) } }
pub proof fn l_dk_from<CS: CipherSuite>(seed: Seq<u8>, info: Seq<u8>, m: Mode, a: int, b: int)
  requires 0 <= a <= b <= 256, forall|j: int| a <= j < b ==> #[trigger] dk::<CS>(seed, info, m, j) == szero::<CS::Group>()
  ensures dk_from::<CS>(seed, info, m, a) == dk_from::<CS>(seed, info, m, b)
  decreases b - a
{ if a < b { assert(dk::<CS>(seed, info, m, a) == szero::<CS::Group>()); l_dk_from::<CS>(seed, info, m, a + 1, b); } }
pub proof fn l_dk_nonzero<CS: CipherSuite>(seed: Seq<u8>, info: Seq<u8>, m: Mode, a: int)
  requires 0 <= a
  ensures dk_from::<CS>(seed, info, m, a) is Ok ==> dk_from::<CS>(seed, info, m, a)->Ok_0 != szero::<CS::Group>(),
    dk_from::<CS>(seed, info, m, a) is Err ==> dk_from::<CS>(seed, info, m, a)->Err_0 == Error::Protocol && (forall|j: int| a <= j < 256 ==> #[trigger] dk::<CS>(seed, info, m, j) == szero::<CS::Group>()),
  decreases 256 - a
{ if a < 256 { l_dk_nonzero::<CS>(seed, info, m, a + 1); } }

// ComputeComposites
pub open spec fn seed_of<CS: CipherSuite>(b: El<CS::Group>, m: Mode) -> Seq<u8> {
  dig::<CS::Hash>(be16(ser_el::<CS::Group>(b).len() as int) + ser_el::<CS::Group>(b) + be16(dst_of::<CS>(p_seed(), m).len() as int) + dst_of::<CS>(p_seed(), m)) }
pub open spec fn di_msg<CS: CipherSuite>(seed: Seq<u8>, i: int, c: El<CS::Group>, d: El<CS::Group>) -> Seq<u8> {
  be16(seed.len() as int) + seed + be16(i) + be16(ser_el::<CS::Group>(c).len() as int) + ser_el::<CS::Group>(c)
    + be16(ser_el::<CS::Group>(d).len() as int) + ser_el::<CS::Group>(d) + p_composite() }
pub open spec fn di_of<CS: CipherSuite>(b: El<CS::Group>, cs: Seq<El<CS::Group>>, ds: Seq<El<CS::Group>>, m: Mode, i: int) -> Sc<CS::Group> {
  hash_scalar::<CS>(di_msg::<CS>(seed_of::<CS>(b, m), i, cs[i], ds[i]), m) }
pub open spec fn comp_m<CS: CipherSuite>(b: El<CS::Group>, cs: Seq<El<CS::Group>>, ds: Seq<El<CS::Group>>, m: Mode, n: int) -> El<CS::Group> decreases n
{ if n <= 0 { ident::<CS::Group>() } else { eadd(emul(cs[n - 1], di_of::<CS>(b, cs, ds, m, n - 1)), comp_m::<CS>(b, cs, ds, m, n - 1)) } }
pub open spec fn comp_z<CS: CipherSuite>(b: El<CS::Group>, cs: Seq<El<CS::Group>>, ds: Seq<El<CS::Group>>, m: Mode, n: int) -> El<CS::Group> decreases n
{ if n <= 0 { ident::<CS::Group>() } else { eadd(emul(ds[n - 1], di_of::<CS>(b, cs, ds, m, n - 1)), comp_z::<CS>(b, cs, ds, m, n - 1)) } }
pub open spec fn comp<CS: CipherSuite>(k: Option<Sc<CS::Group>>, b: El<CS::Group>, cs: Seq<El<CS::Group>>, ds: Seq<El<CS::Group>>, m: Mode) -> Result<(El<CS::Group>, El<CS::Group>)> {
  if cs.len() != ds.len() || cs.len() > 65535 { Err(Error::Batch) }
  else { let mm = comp_m::<CS>(b, cs, ds, m, cs.len() as int);
    Ok((mm, match k { Some(k) => emul(mm, k), None => comp_z::<CS>(b, cs, ds, m, cs.len() as int) })) } }
/// the fast composite equals the slow one when every pair is related by the key
pub proof fn l_comp<CS: CipherSuite>(k: Sc<CS::Group>, b: El<CS::Group>, cs: Seq<El<CS::Group>>, ds: Seq<El<CS::Group>>, m: Mode, n: int)
  requires 0 <= n <= cs.len(), cs.len() == ds.len(), forall|i: int| 0 <= i < cs.len() ==> #[trigger] ds[i] == emul(cs[i], k)
  ensures comp_z::<CS>(b, cs, ds, m, n) == emul(comp_m::<CS>(b, cs, ds, m, n), k)
  decreases n
{
  if n <= 0 { g_ident_mul(k); }
  else {
    l_comp::<CS>(k, b, cs, ds, m, n - 1);
    let d = di_of::<CS>(b, cs, ds, m, n - 1);
    g_add_mul(emul(cs[n - 1], d), comp_m::<CS>(b, cs, ds, m, n - 1), k);
    g_mul_mul(cs[n - 1], d, k); s_mul_comm(d, k); g_mul_mul(cs[n - 1], k, d);
    assert(ds[n - 1] == emul(cs[n - 1], k));
  }
}

// challenge
pub open spec fn chal_msg<CS: CipherSuite>(b: El<CS::Group>, mm: El<CS::Group>, z: El<CS::Group>, t2: El<CS::Group>, t3: El<CS::Group>) -> Seq<u8> {
  be16(ser_el::<CS::Group>(b).len() as int) + ser_el::<CS::Group>(b)
  + be16(ser_el::<CS::Group>(mm).len() as int) + ser_el::<CS::Group>(mm)
  + be16(ser_el::<CS::Group>(z).len() as int) + ser_el::<CS::Group>(z)
  + be16(ser_el::<CS::Group>(t2).len() as int) + ser_el::<CS::Group>(t2)
  + be16(ser_el::<CS::Group>(t3).len() as int) + ser_el::<CS::Group>(t3) + p_challenge() }
pub open spec fn chal<CS: CipherSuite>(b: El<CS::Group>, mm: El<CS::Group>, z: El<CS::Group>, t2: El<CS::Group>, t3: El<CS::Group>, m: Mode) -> Sc<CS::Group> {
  hash_scalar::<CS>(chal_msg::<CS>(b, mm, z, t2, t3), m) }
/// GenerateProof with nonce r
pub open spec fn prf_c<CS: CipherSuite>(r: Sc<CS::Group>, k: Sc<CS::Group>, a: El<CS::Group>, b: El<CS::Group>, cs: Seq<El<CS::Group>>, ds: Seq<El<CS::Group>>, m: Mode) -> Sc<CS::Group> {
  let mm = comp_m::<CS>(b, cs, ds, m, cs.len() as int);
  chal::<CS>(b, mm, emul(mm, k), emul(a, r), emul(mm, r), m) }
pub open spec fn prf_s<CS: CipherSuite>(r: Sc<CS::Group>, k: Sc<CS::Group>, a: El<CS::Group>, b: El<CS::Group>, cs: Seq<El<CS::Group>>, ds: Seq<El<CS::Group>>, m: Mode) -> Sc<CS::Group> {
  ssub(r, smul(prf_c::<CS>(r, k, a, b, cs, ds, m), k)) }
/// VerifyProof
pub open spec fn ver<CS: CipherSuite>(a: El<CS::Group>, b: El<CS::Group>, cs: Seq<El<CS::Group>>, ds: Seq<El<CS::Group>>, c: Sc<CS::Group>, s: Sc<CS::Group>, m: Mode) -> bool {
  let mm = comp_m::<CS>(b, cs, ds, m, cs.len() as int); let z = comp_z::<CS>(b, cs, ds, m, cs.len() as int);
  c == chal::<CS>(b, mm, z, eadd(emul(a, s), emul(b, c)), eadd(emul(mm, s), emul(z, c)), m) }
/// completeness of the proof system
pub proof fn l_complete<CS: CipherSuite>(r: Sc<CS::Group>, k: Sc<CS::Group>, a: El<CS::Group>, cs: Seq<El<CS::Group>>, ds: Seq<El<CS::Group>>, m: Mode)
  requires cs.len() == ds.len(), forall|i: int| 0 <= i < cs.len() ==> #[trigger] ds[i] == emul(cs[i], k)
  ensures ver::<CS>(a, emul(a, k), cs, ds, prf_c::<CS>(r, k, a, emul(a, k), cs, ds, m), prf_s::<CS>(r, k, a, emul(a, k), cs, ds, m), m)
{
  let b = emul(a, k);
  let mm = comp_m::<CS>(b, cs, ds, m, cs.len() as int);
  l_comp::<CS>(k, b, cs, ds, m, cs.len() as int);
  let c = prf_c::<CS>(r, k, a, b, cs, ds, m);
  l_resp(a, r, c, k);
  l_resp(mm, r, c, k);
}

// POPRF tweak
pub open spec fn info_of<'a>(i: Option<&'a [u8]>) -> Seq<u8> { match i { Some(s) => s@, None => Seq::empty() } }
pub open spec fn info_scalar<CS: CipherSuite>(info: Seq<u8>) -> Sc<CS::Group> { hash_scalar::<CS>(p_info() + be16(info.len() as int) + info, Mode::Poprf) }
pub open spec fn tweak_of<CS: CipherSuite>(sk: Sc<CS::Group>, info: Seq<u8>) -> Result<Sc<CS::Group>> {
  if info.len() > 65535 { Err(Error::Info) }
  else if sadd(sk, info_scalar::<CS>(info)) == szero::<CS::Group>() { Err(Error::Protocol) }
  else { Ok(sadd(sk, info_scalar::<CS>(info))) } }
pub open spec fn tweaked_key_of<CS: CipherSuite>(pk: El<CS::Group>, info: Seq<u8>) -> Result<El<CS::Group>> {
  if info.len() > 65535 { Err(Error::Info) }
  else if eadd(emul(gen::<CS::Group>(), info_scalar::<CS>(info)), pk) == ident::<CS::Group>() { Err(Error::Protocol) }
  else { Ok(eadd(emul(gen::<CS::Group>(), info_scalar::<CS>(info)), pk)) } }
/// the tweaked key is the tweak times the generator
pub proof fn l_tweak<CS: CipherSuite>(sk: Sc<CS::Group>, info: Seq<u8>)
  ensures (tweaked_key_of::<CS>(emul(gen::<CS::Group>(), sk), info) is Ok) == (tweak_of::<CS>(sk, info) is Ok),
    tweak_of::<CS>(sk, info) is Ok ==> tweaked_key_of::<CS>(emul(gen::<CS::Group>(), sk), info) == Ok::<El<CS::Group>, Error>(emul(gen::<CS::Group>(), tweak_of::<CS>(sk, info)->Ok_0)) && tweak_of::<CS>(sk, info)->Ok_0 != szero::<CS::Group>(),
{
  let g = gen::<CS::Group>(); let m = info_scalar::<CS>(info);
  g_mul_add(g, m, sk); s_add_comm(m, sk);
  g_prime(g, sadd(sk, m)); g_gen::<CS::Group>(); g_mul_zero(g);
}

// ------------------------------------------------------------ what the helper functions under contract return
pub open spec fn i2osp_2_s(n: usize) -> core::result::Result<[u8; 2], InternalError> { if n <= 65535 { Ok(arr::<2>(be16(n as int))) } else { Err(InternalError::I2osp) } }
pub open spec fn derive_key_internal_s<CS: CipherSuite>(seed: &[u8], info: &[u8], mode: Mode) -> Result<Sc<CS::Group>, Error> { derive_key_of::<CS>(seed@, info@, mode) }
pub open spec fn derive_key_s<CS: CipherSuite>(seed: &[u8], info: &[u8], mode: Mode) -> Result<Sc<CS::Group>, Error> { derive_key_of::<CS>(seed@, info@, mode) }
pub open spec fn derive_keypair_s<CS: CipherSuite>(seed: &[u8], info: &[u8], mode: Mode) -> Result<(Sc<CS::Group>, El<CS::Group>), Error> { match derive_key_of::<CS>(seed@, info@, mode) { Ok(k) => Ok((k, emul(gen::<CS::Group>(), k))), Err(e) => Err(e) } }
pub open spec fn hash_to_group_s<CS: CipherSuite>(input: &[u8], mode: Mode) -> Result<El<CS::Group>> { if input@.len() > 65535 { Err(Error::Input) } else { Ok(hash_group::<CS>(input@, mode)) } }
pub open spec fn deterministic_blind_unchecked_s<CS: CipherSuite>(input: &[u8], blind: &Sc<CS::Group>, mode: Mode) -> Result<El<CS::Group>> { blind_of::<CS>(input@, *blind, mode) }
pub open spec fn server_evaluate_hash_input_s<CS: CipherSuite>(input: &[u8], info: Option<&[u8]>, issued_element: GenericArray<u8, <CS::Group as Group>::ElemLen>) -> Result<crate::ext::digest::Output<CS::Hash>> { eval_hash::<CS>(input@, opt_view(info), issued_element@) }
/// Blind: the blinded message, or why there is none
pub open spec fn blind_of<CS: CipherSuite>(input: Seq<u8>, blind: Sc<CS::Group>, m: Mode) -> Result<El<CS::Group>> {
  if input.len() > 65535 || hash_group::<CS>(input, m) == ident::<CS::Group>() { Err(Error::Input) } else { Ok(emul(hash_group::<CS>(input, m), blind)) } }
pub open spec fn opt_view<'a>(i: Option<&'a [u8]>) -> Option<Seq<u8>> { match i { Some(s) => Some(s@), None => None } }
pub open spec fn eval_hash<CS: CipherSuite>(input: Seq<u8>, info: Option<Seq<u8>>, el: Seq<u8>) -> Result<crate::ext::digest::Output<CS::Hash>> {
  if input.len() > 65535 || (info is Some && info->0.len() > 65535) { Err(Error::Input) }
  else { Ok(out_of::<CS>(dig::<CS::Hash>(fin_msg(input, info, el)))) } }
}
