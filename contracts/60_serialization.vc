## ------------------------------------------------------------ serialization
module serialization {
pub open spec fn nel<CS: CipherSuite>() -> int { <<CS::Group as Group>::ElemLen as ArrayLength>::n() as int }
pub open spec fn nsc<CS: CipherSuite>() -> int { <<CS::Group as Group>::ScalarLen as ArrayLength>::n() as int }
/// the part of `b` from `at` of length `n`, decoded
pub open spec fn el_at<CS: CipherSuite>(b: Seq<u8>, at: int) -> Result<El<CS::Group>> { if b.len() < at + nel::<CS>() { Err(Error::Deserialization) } else { de_el::<CS::Group>(b.subrange(at, at + nel::<CS>())) } }
pub open spec fn sc_at<CS: CipherSuite>(b: Seq<u8>, at: int) -> Result<Sc<CS::Group>> { if b.len() < at + nsc::<CS>() { Err(Error::Deserialization) } else { de_sc::<CS::Group>(b.subrange(at, at + nsc::<CS>())) } }
pub broadcast proof fn lm_skip_sub(b: Seq<u8>, k: int, i: int, j: int) requires 0 <= k <= b.len(), 0 <= i <= j <= b.len() - k ensures #[trigger] b.skip(k).subrange(i, j) == b.subrange(k + i, k + j) { assert(b.skip(k).subrange(i, j) =~= b.subrange(k + i, k + j)); }
pub broadcast proof fn lm_take_sub(b: Seq<u8>, k: int) requires 0 <= k <= b.len() ensures #[trigger] b.take(k) == b.subrange(0, k) { assert(b.take(k) =~= b.subrange(0, k)); }
pub broadcast proof fn lm_skip_skip(b: Seq<u8>, k: int, i: int) requires 0 <= k, 0 <= i, k + i <= b.len() ensures #[trigger] b.skip(k).skip(i) == b.skip(k + i) { assert(b.skip(k).skip(i) =~= b.skip(k + i)); }
pub broadcast proof fn lm_sub_full(b: Seq<u8>, k: int) requires k == b.len() ensures #[trigger] b.subrange(0, k) == b { assert(b.subrange(0, k) =~= b); }
pub broadcast proof fn lm_cat_l(a: Seq<u8>, b: Seq<u8>, k: int) requires k == a.len() ensures #[trigger] (a + b).subrange(0, k) == a { assert((a + b).subrange(0, k) =~= a); }
pub broadcast proof fn lm_cat_r(a: Seq<u8>, b: Seq<u8>, i: int, j: int) requires i == a.len(), j == a.len() + b.len() ensures #[trigger] (a + b).subrange(i, j) == b { assert((a + b).subrange(i, j) =~= b); }
pub broadcast group lm_ser { lm_skip_sub, lm_take_sub, lm_skip_skip, lm_sub_full, lm_cat_l, lm_cat_r }
}
fn serialization::take_ext <T> (s, take)
  ens [C10] $take > old($s)@.len() ==> $r is None
  ens [C10] $take <= old($s)@.len() ==> $r is Some && $r->0@ == old($s)@.take($take as int) && final($s)@ == old($s)@.skip($take as int)
end
fn serialization::deserialize_elem <G> (input)
  ens [C10] old($input)@.len() < <<$G as Group>::ElemLen as ArrayLength>::n() ==> $r == Err::<El<$G>, Error>(Error::Deserialization)
  ens [C10] old($input)@.len() >= <<$G as Group>::ElemLen as ArrayLength>::n() ==> $r == de_el::<$G>(old($input)@.subrange(0, <<$G as Group>::ElemLen as ArrayLength>::n() as int)) && final($input)@ == old($input)@.skip(<<$G as Group>::ElemLen as ArrayLength>::n() as int)
  start {
    broadcast use {lm_ser};
  }
end
fn serialization::deserialize_scalar <G> (input)
  ens [C10] old($input)@.len() < <<$G as Group>::ScalarLen as ArrayLength>::n() ==> $r == Err::<Sc<$G>, Error>(Error::Deserialization)
  ens [C10] old($input)@.len() >= <<$G as Group>::ScalarLen as ArrayLength>::n() ==> $r == de_sc::<$G>(old($input)@.subrange(0, <<$G as Group>::ScalarLen as ArrayLength>::n() as int)) && final($input)@ == old($input)@.skip(<<$G as Group>::ScalarLen as ArrayLength>::n() as int)
  start {
    broadcast use {lm_ser};
  }
end

fn OprfClient::serialize <CS> ()
  ens [C09] $r@ == ser_sc::<$CS::Group>(self.blind)
end
fn OprfClient::deserialize <CS> (input)
  ens [C10,C09] $r is Ok ==> sc_at::<$CS>($input@, 0) is Ok && sc_at::<$CS>($input@, 0)->Ok_0 == $r->Ok_0.blind
  ens [C10] $r is Err ==> $r->Err_0 == Error::Deserialization
  ens [C10,C09] (sc_at::<$CS>($input@, 0) is Ok) ==> $r is Ok
  start {
    broadcast use {lm_ser};
  }
end
fn VoprfClient::serialize <CS> ()
  ens [C09] $r@ == ser_sc::<$CS::Group>(self.blind) + ser_el::<$CS::Group>(self.blinded_element)
end
fn VoprfClient::deserialize <CS> (input)
  ens [C10,C09] $r is Ok ==> sc_at::<$CS>($input@, 0) is Ok && sc_at::<$CS>($input@, 0)->Ok_0 == $r->Ok_0.blind
  ens [C10,C09] $r is Ok ==> el_at::<$CS>($input@, nsc::<$CS>()) is Ok && el_at::<$CS>($input@, nsc::<$CS>())->Ok_0 == $r->Ok_0.blinded_element
  ens [C10] $r is Err ==> $r->Err_0 == Error::Deserialization
  ens [C10,C09] (sc_at::<$CS>($input@, 0) is Ok && el_at::<$CS>($input@, nsc::<$CS>()) is Ok) ==> $r is Ok
  start {
    broadcast use {lm_ser};
  }
end
fn PoprfClient::serialize <CS> ()
  ens [C09] $r@ == ser_sc::<$CS::Group>(self.blind) + ser_el::<$CS::Group>(self.blinded_element)
end
fn PoprfClient::deserialize <CS> (input)
  ens [C10,C09] $r is Ok ==> sc_at::<$CS>($input@, 0) is Ok && sc_at::<$CS>($input@, 0)->Ok_0 == $r->Ok_0.blind
  ens [C10,C09] $r is Ok ==> el_at::<$CS>($input@, nsc::<$CS>()) is Ok && el_at::<$CS>($input@, nsc::<$CS>())->Ok_0 == $r->Ok_0.blinded_element
  ens [C10] $r is Err ==> $r->Err_0 == Error::Deserialization
  ens [C10,C09] (sc_at::<$CS>($input@, 0) is Ok && el_at::<$CS>($input@, nsc::<$CS>()) is Ok) ==> $r is Ok
  start {
    broadcast use {lm_ser};
  }
end
fn OprfServer::serialize <CS> ()
  ens [C09] $r@ == ser_sc::<$CS::Group>(self.sk)
end
fn OprfServer::deserialize <CS> (input)
  ens [C10,C09] $r is Ok ==> sc_at::<$CS>($input@, 0) is Ok && sc_at::<$CS>($input@, 0)->Ok_0 == $r->Ok_0.sk
  ens [C10] $r is Err ==> $r->Err_0 == Error::Deserialization
  ens [C10,C09] (sc_at::<$CS>($input@, 0) is Ok) ==> $r is Ok
  start {
    broadcast use {lm_ser};
  }
end
fn VoprfServer::serialize <CS> ()
  ens [C09] $r@ == ser_sc::<$CS::Group>(self.sk) + ser_el::<$CS::Group>(self.pk)
end
fn VoprfServer::deserialize <CS> (input)
  ens [C10,C09] $r is Ok ==> sc_at::<$CS>($input@, 0) is Ok && sc_at::<$CS>($input@, 0)->Ok_0 == $r->Ok_0.sk
  ens [C10,C09] $r is Ok ==> el_at::<$CS>($input@, nsc::<$CS>()) is Ok && el_at::<$CS>($input@, nsc::<$CS>())->Ok_0 == $r->Ok_0.pk
  ens [C10] $r is Err ==> $r->Err_0 == Error::Deserialization
  ens [C10,C09] (sc_at::<$CS>($input@, 0) is Ok && el_at::<$CS>($input@, nsc::<$CS>()) is Ok) ==> $r is Ok
  start {
    broadcast use {lm_ser};
  }
end
fn PoprfServer::serialize <CS> ()
  ens [C09] $r@ == ser_sc::<$CS::Group>(self.sk) + ser_el::<$CS::Group>(self.pk)
end
fn PoprfServer::deserialize <CS> (input)
  ens [C10,C09] $r is Ok ==> sc_at::<$CS>($input@, 0) is Ok && sc_at::<$CS>($input@, 0)->Ok_0 == $r->Ok_0.sk
  ens [C10,C09] $r is Ok ==> el_at::<$CS>($input@, nsc::<$CS>()) is Ok && el_at::<$CS>($input@, nsc::<$CS>())->Ok_0 == $r->Ok_0.pk
  ens [C10] $r is Err ==> $r->Err_0 == Error::Deserialization
  ens [C10,C09] (sc_at::<$CS>($input@, 0) is Ok && el_at::<$CS>($input@, nsc::<$CS>()) is Ok) ==> $r is Ok
  start {
    broadcast use {lm_ser};
  }
end
fn Proof::serialize <CS> ()
  ens [C09] $r@ == ser_sc::<$CS::Group>(self.c_scalar) + ser_sc::<$CS::Group>(self.s_scalar)
end
fn Proof::deserialize <CS> (input)
  ens [C10,C09] $r is Ok ==> sc_at::<$CS>($input@, 0) is Ok && sc_at::<$CS>($input@, 0)->Ok_0 == $r->Ok_0.c_scalar
  ens [C10,C09] $r is Ok ==> sc_at::<$CS>($input@, nsc::<$CS>()) is Ok && sc_at::<$CS>($input@, nsc::<$CS>())->Ok_0 == $r->Ok_0.s_scalar
  ens [C10] $r is Err ==> $r->Err_0 == Error::Deserialization
  ens [C10,C09] (sc_at::<$CS>($input@, 0) is Ok && sc_at::<$CS>($input@, nsc::<$CS>()) is Ok) ==> $r is Ok
  start {
    broadcast use {lm_ser};
  }
end
fn BlindedElement::serialize <CS> ()
  ens [C09] $r@ == ser_el::<$CS::Group>(self.0)
end
fn BlindedElement::deserialize <CS> (input)
  ens [C10,C09] $r is Ok ==> el_at::<$CS>($input@, 0) is Ok && el_at::<$CS>($input@, 0)->Ok_0 == $r->Ok_0.0
  ens [C10] $r is Err ==> $r->Err_0 == Error::Deserialization
  ens [C10,C09] (el_at::<$CS>($input@, 0) is Ok) ==> $r is Ok
  start {
    broadcast use {lm_ser};
  }
end
fn EvaluationElement::serialize <CS> ()
  ens [C09] $r@ == ser_el::<$CS::Group>(self.0)
end
fn EvaluationElement::deserialize <CS> (input)
  ens [C10,C09] $r is Ok ==> el_at::<$CS>($input@, 0) is Ok && el_at::<$CS>($input@, 0)->Ok_0 == $r->Ok_0.0
  ens [C10] $r is Err ==> $r->Err_0 == Error::Deserialization
  ens [C10,C09] (el_at::<$CS>($input@, 0) is Ok) ==> $r is Ok
  start {
    broadcast use {lm_ser};
  }
end
module serialization {
pub proof fn lm_sc_inj<G>(a: Sc<G>, b: Sc<G>) ensures ser_sc::<G>(a) == ser_sc::<G>(b) ==> a == b { broadcast use ax_ser_sc; assert(un_sc::<G>(ser_sc::<G>(a)) == Some(a)); assert(un_sc::<G>(ser_sc::<G>(b)) == Some(b)); }
pub proof fn lm_el_inj<G>(a: El<G>, b: El<G>) ensures ser_el::<G>(a) == ser_el::<G>(b) ==> a == b { broadcast use ax_ser_el; assert(un_el::<G>(ser_el::<G>(a)) == Some(a)); assert(un_el::<G>(ser_el::<G>(b)) == Some(b)); }
pub proof fn lm_cat_inj(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>) requires a.len() == c.len(), a + b == c + d ensures a == c, b == d { assert((a + b).take(a.len() as int) =~= a); assert((c + d).take(a.len() as int) =~= c); assert((a + b).skip(a.len() as int) =~= b); assert((c + d).skip(a.len() as int) =~= d); }
//@F scenario::roundtrip_OprfClient|C09
 /// a value with valid fields survives serialize -> deserialize, at its fixed length
 pub fn scn_roundtrip_OprfClient<CS: CipherSuite>(x: &OprfClient<CS>) -> (r: Result<OprfClient<CS>>) 
   requires x.blind != szero::<CS::Group>()
   ensures
     r is Ok, //@E scenario::roundtrip_OprfClient|0|C09
     r->Ok_0.blind == x.blind, //@E scenario::roundtrip_OprfClient|1|C09
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let b = x.serialize();
   assert(b@.len() == nsc::<CS>());
   OprfClient::<CS>::deserialize(b.as_slice())
 }
//@f
 //@F scenario::injective_OprfClient|C09
 /// distinct values have distinct serializations, and the length is fixed
 pub fn scn_injective_OprfClient<CS: CipherSuite>(x: &OprfClient<CS>, y: &OprfClient<CS>) 
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let a = x.serialize();
   let b = y.serialize();
   assert(a@.len() == nsc::<CS>() && b@.len() == nsc::<CS>()); //@E scenario::injective_OprfClient|0|C09
   proof { if a@ == b@ { lm_sc_inj(x.blind, y.blind);  } }
   assert(a@ == b@ ==> x.blind == y.blind); //@E scenario::injective_OprfClient|1|C09
 }
//@f
//@F scenario::roundtrip_VoprfClient|C09
 /// a value with valid fields survives serialize -> deserialize, at its fixed length
 pub fn scn_roundtrip_VoprfClient<CS: CipherSuite>(x: &VoprfClient<CS>) -> (r: Result<VoprfClient<CS>>) where <CS::Group as Group>::ScalarLen: crate::vx::TAdd<<CS::Group as Group>::ElemLen>, 
   requires x.blind != szero::<CS::Group>(), x.blinded_element != ident::<CS::Group>()
   ensures
     r is Ok, //@E scenario::roundtrip_VoprfClient|0|C09
     r->Ok_0.blind == x.blind && r->Ok_0.blinded_element == x.blinded_element, //@E scenario::roundtrip_VoprfClient|1|C09
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let b = x.serialize();
   assert(b@.len() == nsc::<CS>() + nel::<CS>());
   VoprfClient::<CS>::deserialize(b.as_slice())
 }
//@f
 //@F scenario::injective_VoprfClient|C09
 /// distinct values have distinct serializations, and the length is fixed
 pub fn scn_injective_VoprfClient<CS: CipherSuite>(x: &VoprfClient<CS>, y: &VoprfClient<CS>) where <CS::Group as Group>::ScalarLen: crate::vx::TAdd<<CS::Group as Group>::ElemLen>, 
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let a = x.serialize();
   let b = y.serialize();
   assert(a@.len() == nsc::<CS>() + nel::<CS>() && b@.len() == nsc::<CS>() + nel::<CS>()); //@E scenario::injective_VoprfClient|0|C09
   proof { if a@ == b@ { lm_sc_inj(x.blind, y.blind); lm_el_inj(x.blinded_element, y.blinded_element); lm_cat_inj(ser_sc::<CS::Group>(x.blind), ser_el::<CS::Group>(x.blinded_element), ser_sc::<CS::Group>(y.blind), ser_el::<CS::Group>(y.blinded_element)); } }
   assert(a@ == b@ ==> x.blind == y.blind && x.blinded_element == y.blinded_element); //@E scenario::injective_VoprfClient|1|C09
 }
//@f
//@F scenario::roundtrip_PoprfClient|C09
 /// a value with valid fields survives serialize -> deserialize, at its fixed length
 pub fn scn_roundtrip_PoprfClient<CS: CipherSuite>(x: &PoprfClient<CS>) -> (r: Result<PoprfClient<CS>>) where <CS::Group as Group>::ScalarLen: crate::vx::TAdd<<CS::Group as Group>::ElemLen>, 
   requires x.blind != szero::<CS::Group>(), x.blinded_element != ident::<CS::Group>()
   ensures
     r is Ok, //@E scenario::roundtrip_PoprfClient|0|C09
     r->Ok_0.blind == x.blind && r->Ok_0.blinded_element == x.blinded_element, //@E scenario::roundtrip_PoprfClient|1|C09
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let b = x.serialize();
   assert(b@.len() == nsc::<CS>() + nel::<CS>());
   PoprfClient::<CS>::deserialize(b.as_slice())
 }
//@f
 //@F scenario::injective_PoprfClient|C09
 /// distinct values have distinct serializations, and the length is fixed
 pub fn scn_injective_PoprfClient<CS: CipherSuite>(x: &PoprfClient<CS>, y: &PoprfClient<CS>) where <CS::Group as Group>::ScalarLen: crate::vx::TAdd<<CS::Group as Group>::ElemLen>, 
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let a = x.serialize();
   let b = y.serialize();
   assert(a@.len() == nsc::<CS>() + nel::<CS>() && b@.len() == nsc::<CS>() + nel::<CS>()); //@E scenario::injective_PoprfClient|0|C09
   proof { if a@ == b@ { lm_sc_inj(x.blind, y.blind); lm_el_inj(x.blinded_element, y.blinded_element); lm_cat_inj(ser_sc::<CS::Group>(x.blind), ser_el::<CS::Group>(x.blinded_element), ser_sc::<CS::Group>(y.blind), ser_el::<CS::Group>(y.blinded_element)); } }
   assert(a@ == b@ ==> x.blind == y.blind && x.blinded_element == y.blinded_element); //@E scenario::injective_PoprfClient|1|C09
 }
//@f
//@F scenario::roundtrip_OprfServer|C09
 /// a value with valid fields survives serialize -> deserialize, at its fixed length
 pub fn scn_roundtrip_OprfServer<CS: CipherSuite>(x: &OprfServer<CS>) -> (r: Result<OprfServer<CS>>) 
   requires x.sk != szero::<CS::Group>()
   ensures
     r is Ok, //@E scenario::roundtrip_OprfServer|0|C09
     r->Ok_0.sk == x.sk, //@E scenario::roundtrip_OprfServer|1|C09
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let b = x.serialize();
   assert(b@.len() == nsc::<CS>());
   OprfServer::<CS>::deserialize(b.as_slice())
 }
//@f
 //@F scenario::injective_OprfServer|C09
 /// distinct values have distinct serializations, and the length is fixed
 pub fn scn_injective_OprfServer<CS: CipherSuite>(x: &OprfServer<CS>, y: &OprfServer<CS>) 
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let a = x.serialize();
   let b = y.serialize();
   assert(a@.len() == nsc::<CS>() && b@.len() == nsc::<CS>()); //@E scenario::injective_OprfServer|0|C09
   proof { if a@ == b@ { lm_sc_inj(x.sk, y.sk);  } }
   assert(a@ == b@ ==> x.sk == y.sk); //@E scenario::injective_OprfServer|1|C09
 }
//@f
//@F scenario::roundtrip_VoprfServer|C09
 /// a value with valid fields survives serialize -> deserialize, at its fixed length
 pub fn scn_roundtrip_VoprfServer<CS: CipherSuite>(x: &VoprfServer<CS>) -> (r: Result<VoprfServer<CS>>) where <CS::Group as Group>::ScalarLen: crate::vx::TAdd<<CS::Group as Group>::ElemLen>, 
   requires x.sk != szero::<CS::Group>(), x.pk != ident::<CS::Group>()
   ensures
     r is Ok, //@E scenario::roundtrip_VoprfServer|0|C09
     r->Ok_0.sk == x.sk && r->Ok_0.pk == x.pk, //@E scenario::roundtrip_VoprfServer|1|C09
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let b = x.serialize();
   assert(b@.len() == nsc::<CS>() + nel::<CS>());
   VoprfServer::<CS>::deserialize(b.as_slice())
 }
//@f
 //@F scenario::injective_VoprfServer|C09
 /// distinct values have distinct serializations, and the length is fixed
 pub fn scn_injective_VoprfServer<CS: CipherSuite>(x: &VoprfServer<CS>, y: &VoprfServer<CS>) where <CS::Group as Group>::ScalarLen: crate::vx::TAdd<<CS::Group as Group>::ElemLen>, 
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let a = x.serialize();
   let b = y.serialize();
   assert(a@.len() == nsc::<CS>() + nel::<CS>() && b@.len() == nsc::<CS>() + nel::<CS>()); //@E scenario::injective_VoprfServer|0|C09
   proof { if a@ == b@ { lm_sc_inj(x.sk, y.sk); lm_el_inj(x.pk, y.pk); lm_cat_inj(ser_sc::<CS::Group>(x.sk), ser_el::<CS::Group>(x.pk), ser_sc::<CS::Group>(y.sk), ser_el::<CS::Group>(y.pk)); } }
   assert(a@ == b@ ==> x.sk == y.sk && x.pk == y.pk); //@E scenario::injective_VoprfServer|1|C09
 }
//@f
//@F scenario::roundtrip_PoprfServer|C09
 /// a value with valid fields survives serialize -> deserialize, at its fixed length
 pub fn scn_roundtrip_PoprfServer<CS: CipherSuite>(x: &PoprfServer<CS>) -> (r: Result<PoprfServer<CS>>) where <CS::Group as Group>::ScalarLen: crate::vx::TAdd<<CS::Group as Group>::ElemLen>, 
   requires x.sk != szero::<CS::Group>(), x.pk != ident::<CS::Group>()
   ensures
     r is Ok, //@E scenario::roundtrip_PoprfServer|0|C09
     r->Ok_0.sk == x.sk && r->Ok_0.pk == x.pk, //@E scenario::roundtrip_PoprfServer|1|C09
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let b = x.serialize();
   assert(b@.len() == nsc::<CS>() + nel::<CS>());
   PoprfServer::<CS>::deserialize(b.as_slice())
 }
//@f
 //@F scenario::injective_PoprfServer|C09
 /// distinct values have distinct serializations, and the length is fixed
 pub fn scn_injective_PoprfServer<CS: CipherSuite>(x: &PoprfServer<CS>, y: &PoprfServer<CS>) where <CS::Group as Group>::ScalarLen: crate::vx::TAdd<<CS::Group as Group>::ElemLen>, 
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let a = x.serialize();
   let b = y.serialize();
   assert(a@.len() == nsc::<CS>() + nel::<CS>() && b@.len() == nsc::<CS>() + nel::<CS>()); //@E scenario::injective_PoprfServer|0|C09
   proof { if a@ == b@ { lm_sc_inj(x.sk, y.sk); lm_el_inj(x.pk, y.pk); lm_cat_inj(ser_sc::<CS::Group>(x.sk), ser_el::<CS::Group>(x.pk), ser_sc::<CS::Group>(y.sk), ser_el::<CS::Group>(y.pk)); } }
   assert(a@ == b@ ==> x.sk == y.sk && x.pk == y.pk); //@E scenario::injective_PoprfServer|1|C09
 }
//@f
//@F scenario::roundtrip_Proof|C09
 /// a value with valid fields survives serialize -> deserialize, at its fixed length
 pub fn scn_roundtrip_Proof<CS: CipherSuite>(x: &Proof<CS>) -> (r: Result<Proof<CS>>) where <CS::Group as Group>::ScalarLen: crate::vx::TAdd<<CS::Group as Group>::ScalarLen>, 
   requires x.c_scalar != szero::<CS::Group>(), x.s_scalar != szero::<CS::Group>()
   ensures
     r is Ok, //@E scenario::roundtrip_Proof|0|C09
     r->Ok_0.c_scalar == x.c_scalar && r->Ok_0.s_scalar == x.s_scalar, //@E scenario::roundtrip_Proof|1|C09
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let b = x.serialize();
   assert(b@.len() == nsc::<CS>() + nsc::<CS>());
   Proof::<CS>::deserialize(b.as_slice())
 }
//@f
 //@F scenario::injective_Proof|C09
 /// distinct values have distinct serializations, and the length is fixed
 pub fn scn_injective_Proof<CS: CipherSuite>(x: &Proof<CS>, y: &Proof<CS>) where <CS::Group as Group>::ScalarLen: crate::vx::TAdd<<CS::Group as Group>::ScalarLen>, 
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let a = x.serialize();
   let b = y.serialize();
   assert(a@.len() == nsc::<CS>() + nsc::<CS>() && b@.len() == nsc::<CS>() + nsc::<CS>()); //@E scenario::injective_Proof|0|C09
   proof { if a@ == b@ { lm_sc_inj(x.c_scalar, y.c_scalar); lm_sc_inj(x.s_scalar, y.s_scalar); lm_cat_inj(ser_sc::<CS::Group>(x.c_scalar), ser_sc::<CS::Group>(x.s_scalar), ser_sc::<CS::Group>(y.c_scalar), ser_sc::<CS::Group>(y.s_scalar)); } }
   assert(a@ == b@ ==> x.c_scalar == y.c_scalar && x.s_scalar == y.s_scalar); //@E scenario::injective_Proof|1|C09
 }
//@f
//@F scenario::roundtrip_BlindedElement|C09
 /// a value with valid fields survives serialize -> deserialize, at its fixed length
 pub fn scn_roundtrip_BlindedElement<CS: CipherSuite>(x: &BlindedElement<CS>) -> (r: Result<BlindedElement<CS>>) 
   requires x.0 != ident::<CS::Group>()
   ensures
     r is Ok, //@E scenario::roundtrip_BlindedElement|0|C09
     r->Ok_0.0 == x.0, //@E scenario::roundtrip_BlindedElement|1|C09
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let b = x.serialize();
   assert(b@.len() == nel::<CS>());
   BlindedElement::<CS>::deserialize(b.as_slice())
 }
//@f
 //@F scenario::injective_BlindedElement|C09
 /// distinct values have distinct serializations, and the length is fixed
 pub fn scn_injective_BlindedElement<CS: CipherSuite>(x: &BlindedElement<CS>, y: &BlindedElement<CS>) 
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let a = x.serialize();
   let b = y.serialize();
   assert(a@.len() == nel::<CS>() && b@.len() == nel::<CS>()); //@E scenario::injective_BlindedElement|0|C09
   proof { if a@ == b@ { lm_el_inj(x.0, y.0);  } }
   assert(a@ == b@ ==> x.0 == y.0); //@E scenario::injective_BlindedElement|1|C09
 }
//@f
//@F scenario::roundtrip_EvaluationElement|C09
 /// a value with valid fields survives serialize -> deserialize, at its fixed length
 pub fn scn_roundtrip_EvaluationElement<CS: CipherSuite>(x: &EvaluationElement<CS>) -> (r: Result<EvaluationElement<CS>>) 
   requires x.0 != ident::<CS::Group>()
   ensures
     r is Ok, //@E scenario::roundtrip_EvaluationElement|0|C09
     r->Ok_0.0 == x.0, //@E scenario::roundtrip_EvaluationElement|1|C09
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let b = x.serialize();
   assert(b@.len() == nel::<CS>());
   EvaluationElement::<CS>::deserialize(b.as_slice())
 }
//@f
 //@F scenario::injective_EvaluationElement|C09
 /// distinct values have distinct serializations, and the length is fixed
 pub fn scn_injective_EvaluationElement<CS: CipherSuite>(x: &EvaluationElement<CS>, y: &EvaluationElement<CS>) 
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ser};
   let a = x.serialize();
   let b = y.serialize();
   assert(a@.len() == nel::<CS>() && b@.len() == nel::<CS>()); //@E scenario::injective_EvaluationElement|0|C09
   proof { if a@ == b@ { lm_el_inj(x.0, y.0);  } }
   assert(a@ == b@ ==> x.0 == y.0); //@E scenario::injective_EvaluationElement|1|C09
 }
//@f
}
