## ------------------------------------------------------------ verifiable mode
module voprf {
use crate::common::{ee_els, be_els, pe_els, lm_ee, lm_be, lm_pe, lm_ee_pe};
pub broadcast proof fn lm_vcl<CS: CipherSuite>(s: Seq<&VoprfClient<CS>>) ensures (#[trigger] vcl_els(s)).len() == s.len() {}
/// the blinded elements of a list of clients, in order
pub open spec fn vcl_els<CS: CipherSuite>(s: Seq<&VoprfClient<CS>>) -> Seq<El<CS::Group>> { Seq::new(s.len(), |i: int| s[i].blinded_element) }
pub open spec fn vcl_ok<CS: CipherSuite>(s: Seq<&VoprfClient<CS>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).blind != szero::<CS::Group>() }
}
module common {
pub open spec fn ee_els<CS: CipherSuite>(s: Seq<&EvaluationElement<CS>>) -> Seq<El<CS::Group>> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn be_els<CS: CipherSuite>(s: Seq<&BlindedElement<CS>>) -> Seq<El<CS::Group>> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn pe_els<CS: CipherSuite>(s: Seq<&PreparedEvaluationElement<CS>>) -> Seq<El<CS::Group>> { Seq::new(s.len(), |i: int| s[i].0.0) }
pub broadcast proof fn lm_ee_pe<CS: CipherSuite>(a: Seq<&EvaluationElement<CS>>, b: Seq<&PreparedEvaluationElement<CS>>)
  requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == b[i].0.0
  ensures #![trigger ee_els(a), pe_els(b)] ee_els(a) == pe_els(b)
{ assert(ee_els(a) =~= pe_els(b)); }
pub broadcast proof fn lm_ee<CS: CipherSuite>(s: Seq<&EvaluationElement<CS>>) ensures (#[trigger] ee_els(s)).len() == s.len() {}
pub broadcast proof fn lm_be<CS: CipherSuite>(s: Seq<&BlindedElement<CS>>) ensures (#[trigger] be_els(s)).len() == s.len() {}
pub broadcast proof fn lm_pe<CS: CipherSuite>(s: Seq<&PreparedEvaluationElement<CS>>) ensures (#[trigger] pe_els(s)).len() == s.len() {}
}
fn VoprfClient::blind <CS, R> (input, rng)
  ens [C15] $r is Ok ==> $r->Ok_0.state.blind == rnd_sc::<$CS::Group>(old($rng).st())
  ens [C15] final($rng).st() == rnd_next::<$CS::Group>(old($rng).st())
  ens [C15,C02] $r is Ok ==> $r->Ok_0.message.0 == emul(hash_group::<$CS>($input@, Mode::Voprf), $r->Ok_0.state.blind)
  ens [C15,C02] $r is Ok ==> $r->Ok_0.state.blinded_element == $r->Ok_0.message.0
  ens [C15,C02] $r is Ok ==> $r->Ok_0.state.blind != szero::<$CS::Group>()
  ens [C15] $r is Ok ==> $r->Ok_0.message.0 != ident::<$CS::Group>()
  ens [C13] ($input@.len() > 65535 || hash_group::<$CS>($input@, Mode::Voprf) == ident::<$CS::Group>()) ==> $r is Err && $r->Err_0 == Error::Input
  ens [C13,C02] ($input@.len() <= 65535 && hash_group::<$CS>($input@, Mode::Voprf) != ident::<$CS::Group>()) ==> $r is Ok
  start {
    proof { g_prime(hash_group::<$CS>($input@, Mode::Voprf), rnd_sc::<$CS::Group>($rng.st())); }
  }
end
fn VoprfClient::deterministic_blind_unchecked <CS> (input, blind)
  ens [C15,C02] $r is Ok ==> $r->Ok_0.state.blind == $blind && $r->Ok_0.message.0 == emul(hash_group::<$CS>($input@, Mode::Voprf), $blind) && $r->Ok_0.state.blinded_element == $r->Ok_0.message.0
  ens [C13,C02] ($r is Ok) == (blind_of::<$CS>($input@, $blind, Mode::Voprf) is Ok)
  ens [C13] $r is Err ==> $r->Err_0 == Error::Input
end
fn VoprfClient::deterministic_blind_unchecked_inner <CS> (input, blind)
  ens [C15,C02] $r is Ok ==> $r->Ok_0.state.blind == $blind && $r->Ok_0.message.0 == emul(hash_group::<$CS>($input@, Mode::Voprf), $blind) && $r->Ok_0.state.blinded_element == $r->Ok_0.message.0
  ens [C13,C02] ($r is Ok) == (blind_of::<$CS>($input@, $blind, Mode::Voprf) is Ok)
  ens [C13] $r is Err ==> $r->Err_0 == Error::Input
end
fn VoprfClient::finalize <CS> (input, evaluation_element, proof, pk)
  req self.blind != szero::<$CS::Group>()
  ens [C05] $r is Ok ==> ver::<$CS>(gen::<$CS::Group>(), $pk, seq![self.blinded_element], seq![$evaluation_element.0], $proof.c_scalar, $proof.s_scalar, Mode::Voprf)
  ens [C05] !ver::<$CS>(gen::<$CS::Group>(), $pk, seq![self.blinded_element], seq![$evaluation_element.0], $proof.c_scalar, $proof.s_scalar, Mode::Voprf) ==> $r is Err && $r->Err_0 == Error::ProofVerification
  ens [C13] (ver::<$CS>(gen::<$CS::Group>(), $pk, seq![self.blinded_element], seq![$evaluation_element.0], $proof.c_scalar, $proof.s_scalar, Mode::Voprf) && $input@.len() > 65535) ==> $r is Err && $r->Err_0 == Error::Input
  ens [C02,C04,C13] (ver::<$CS>(gen::<$CS::Group>(), $pk, seq![self.blinded_element], seq![$evaluation_element.0], $proof.c_scalar, $proof.s_scalar, Mode::Voprf) && $input@.len() <= 65535) ==> $r is Ok
  ens [C02,C07] $r is Ok ==> $r->Ok_0@ == fin_out::<$CS>($input@, None, emul($evaluation_element.0, sinv(self.blind)))
  start {
    broadcast use {lm_ee, lm_be, lm_pe, lm_vcl, lm_ee_pe};
    proof { assert(want(seq![self.blinded_element])); assert(want(seq![$evaluation_element.0])); }
  }
end
fn VoprfClient::batch_finalize <CS, I, II, IC, IM> (inputs, clients, messages, proof, pk)
  req vcl_ok::<$CS>($clients.iter_s().seq())
  ens [C12] ($clients.iter_s().seq().len() != $messages.iter_s().seq().len() || $clients.iter_s().seq().len() > 65535) ==> $r is Err && $r->Err_0 == Error::Batch
  ens [C05] $r is Ok ==> ver::<$CS>(gen::<$CS::Group>(), $pk, vcl_els::<$CS>($clients.iter_s().seq()), ee_els::<$CS>($messages.iter_s().seq()), $proof.c_scalar, $proof.s_scalar, Mode::Voprf)
  ens [C05] ($clients.iter_s().seq().len() == $messages.iter_s().seq().len() && $clients.iter_s().seq().len() <= 65535 && !ver::<$CS>(gen::<$CS::Group>(), $pk, vcl_els::<$CS>($clients.iter_s().seq()), ee_els::<$CS>($messages.iter_s().seq()), $proof.c_scalar, $proof.s_scalar, Mode::Voprf)) ==> $r is Err && $r->Err_0 == Error::ProofVerification
  ens [C02,C04,C12] ($clients.iter_s().seq().len() == $messages.iter_s().seq().len() && $clients.iter_s().seq().len() <= 65535 && ver::<$CS>(gen::<$CS::Group>(), $pk, vcl_els::<$CS>($clients.iter_s().seq()), ee_els::<$CS>($messages.iter_s().seq()), $proof.c_scalar, $proof.s_scalar, Mode::Voprf)) ==> $r is Ok
  ens [C02,C12] $r is Ok ==> !$r->Ok_0.inf() && ($inputs.iter_s().seq().len() == $clients.iter_s().seq().len() ==> $r->Ok_0.seq().len() == $clients.iter_s().seq().len())
  ens [C02,C07,C12,C13] $r is Ok ==> forall|i: int| 0 <= i < $r->Ok_0.seq().len() ==> (#[trigger] $r->Ok_0.seq()[i]) == fin_res::<$CS>($inputs.iter_s().seq()[i].vx_as_ref_s()@, None, emul($messages.iter_s().seq()[i].0, sinv($clients.iter_s().seq()[i].blind)))
end
fn voprf::verifiable_unblind <CS, IC, IM> (clients, messages, pk, proof)
  req vcl_ok::<$CS>($clients.iter_s().seq())
  ens [C12] ($clients.iter_s().seq().len() != $messages.iter_s().seq().len() || $clients.iter_s().seq().len() > 65535) ==> $r is Err && $r->Err_0 == Error::Batch
  ens [C05] $r is Ok ==> $clients.iter_s().seq().len() == $messages.iter_s().seq().len()
  ens [C05] $r is Ok ==> ver::<$CS>(gen::<$CS::Group>(), $pk, vcl_els::<$CS>($clients.iter_s().seq()), ee_els::<$CS>($messages.iter_s().seq()), $proof.c_scalar, $proof.s_scalar, Mode::Voprf)
  ens [C05] ($clients.iter_s().seq().len() == $messages.iter_s().seq().len() && $clients.iter_s().seq().len() <= 65535 && !ver::<$CS>(gen::<$CS::Group>(), $pk, vcl_els::<$CS>($clients.iter_s().seq()), ee_els::<$CS>($messages.iter_s().seq()), $proof.c_scalar, $proof.s_scalar, Mode::Voprf)) ==> $r is Err && $r->Err_0 == Error::ProofVerification
  ens [C02,C04,C12] ($clients.iter_s().seq().len() == $messages.iter_s().seq().len() && $clients.iter_s().seq().len() <= 65535 && ver::<$CS>(gen::<$CS::Group>(), $pk, vcl_els::<$CS>($clients.iter_s().seq()), ee_els::<$CS>($messages.iter_s().seq()), $proof.c_scalar, $proof.s_scalar, Mode::Voprf)) ==> $r is Ok
  ens [C02,C12] $r is Ok ==> !$r->Ok_0.inf() && $r->Ok_0.seq().len() == $clients.iter_s().seq().len()
  ens [C02,C12] $r is Ok ==> forall|i: int| 0 <= i < $r->Ok_0.seq().len() ==> (#[trigger] $r->Ok_0.seq()[i]) == emul($messages.iter_s().seq()[i].0, sinv($clients.iter_s().seq()[i].blind))
  start {
    broadcast use {lm_ee, lm_be, lm_pe, lm_vcl, lm_ee_pe};
    proof { assert(want(vcl_els::<$CS>($clients.iter_s().seq()))); assert(want(ee_els::<$CS>($messages.iter_s().seq()))); }
  }
end
fn voprf::finalize_after_unblind <CS, I, IE> (items)
  ens [C02] $r.inf() == $items.inf()
  ens [C02,C12] !$items.inf() ==> $r.seq().len() == $items.seq().len()
  ens [C07] forall|i: int| 0 <= i < $items.seq().len() && !$items.inf() && $items.seq()[i].0.vx_as_ref_s()@.len() <= 65535 ==> (#[trigger] $r.seq()[i]) == fin_res::<$CS>($items.seq()[i].0.vx_as_ref_s()@, None, $items.seq()[i].1)
  ens [C13] forall|i: int| 0 <= i < $items.seq().len() && !$items.inf() ==> (($items.seq()[i].0.vx_as_ref_s()@.len() <= 65535) == ((#[trigger] $r.seq()[i]) is Ok)) && ($items.seq()[i].0.vx_as_ref_s()@.len() > 65535 ==> $r.seq()[i]->Err_0 == Error::Input)
  ens forall|i: int| 0 <= i < $items.seq().len() && !$items.inf() ==> (#[trigger] $r.seq()[i]) == fin_res::<$CS>($items.seq()[i].0.vx_as_ref_s()@, None, $items.seq()[i].1)
end
fn VoprfServer::new <CS, R> (rng)
  ens [C16] $r is Ok ==> derive_key_of::<$CS>(rng_bytes(old($rng).st(), <<$CS::Group as Group>::ScalarLen as ArrayLength>::n()), Seq::<u8>::empty(), Mode::Voprf) == Ok::<Sc<$CS::Group>, Error>($r->Ok_0.sk)
  ens [C16] final($rng).st() == rng_after(old($rng).st(), <<$CS::Group as Group>::ScalarLen as ArrayLength>::n())
  ens [C16] $r is Ok ==> $r->Ok_0.sk != szero::<$CS::Group>()
  ens [C16,C02,C04] $r is Ok ==> $r->Ok_0.pk == emul(gen::<$CS::Group>(), $r->Ok_0.sk)
  ens [C16] $r is Err ==> derive_key_of::<$CS>(rng_bytes(old($rng).st(), <<$CS::Group as Group>::ScalarLen as ArrayLength>::n()), Seq::<u8>::empty(), Mode::Voprf) is Err
end
fn VoprfServer::new_with_key <CS> (key)
  ens [C16,C10] $r is Ok ==> de_sc::<$CS::Group>($key@) == Ok::<Sc<$CS::Group>, Error>($r->Ok_0.sk)
  ens [C10,C16] $r is Err ==> $r->Err_0 == Error::Deserialization && de_sc::<$CS::Group>($key@) is Err
  ens [C16] $r is Ok ==> $r->Ok_0.sk != szero::<$CS::Group>()
  ens [C16,C02,C04] $r is Ok ==> $r->Ok_0.pk == emul(gen::<$CS::Group>(), $r->Ok_0.sk)
end
fn VoprfServer::new_from_seed <CS> (seed, info)
  ens [C16,C08] $r is Ok ==> derive_key_of::<$CS>($seed@, $info@, Mode::Voprf) == Ok::<Sc<$CS::Group>, Error>($r->Ok_0.sk)
  ens [C08] $r is Err ==> derive_key_of::<$CS>($seed@, $info@, Mode::Voprf) == Err::<Sc<$CS::Group>, Error>($r->Err_0)
  ens [C13,C08] $info@.len() > 65535 ==> $r is Err && $r->Err_0 == Error::DeriveKeyPair
  ens [C16] $r is Ok ==> $r->Ok_0.sk != szero::<$CS::Group>()
  ens [C16,C08,C02,C04] $r is Ok ==> $r->Ok_0.pk == emul(gen::<$CS::Group>(), $r->Ok_0.sk)
end
fn VoprfServer::blind_evaluate <CS, R> (rng, blinded_element)
  ens [C02,C04] $r.message.0 == emul($blinded_element.0, self.sk)
  ens [C06] $r.proof.c_scalar == prf_c::<$CS>(rnd_sc::<$CS::Group>(old($rng).st()), self.sk, gen::<$CS::Group>(), self.pk, seq![$blinded_element.0], seq![$r.message.0], Mode::Voprf)
  ens [C06] $r.proof.s_scalar == ssub(rnd_sc::<$CS::Group>(old($rng).st()), smul($r.proof.c_scalar, self.sk))
  ens [C06] final($rng).st() == rnd_next::<$CS::Group>(old($rng).st())
  ens [C02,C04] self.pk == emul(gen::<$CS::Group>(), self.sk) ==> ver::<$CS>(gen::<$CS::Group>(), self.pk, seq![$blinded_element.0], seq![$r.message.0], $r.proof.c_scalar, $r.proof.s_scalar, Mode::Voprf)
  start {
    broadcast use {lm_ee, lm_be, lm_pe, lm_vcl, lm_ee_pe};
    proof { assert(want(seq![$blinded_element.0])); assert(want(seq![emul($blinded_element.0, self.sk)])); }
  }
end
fn VoprfServer::batch_blind_evaluate <CS, R, I> (rng, blinded_elements)
  ens [C12] ($blinded_elements.iter_s().seq().len() > 65535) ==> $r is Err && $r->Err_0 == Error::Batch
  ens [C04,C12] ($blinded_elements.iter_s().seq().len() <= 65535) ==> $r is Ok
  ens [C02,C04,C12] $r is Ok ==> $r->Ok_0.messages@.len() == $blinded_elements.iter_s().seq().len() && forall|i: int| 0 <= i < $r->Ok_0.messages@.len() ==> (#[trigger] $r->Ok_0.messages@[i]).0 == emul($blinded_elements.iter_s().seq()[i].0, self.sk)
  ens [C06] $r is Ok ==> final($rng).st() == rnd_next::<$CS::Group>(old($rng).st())
  ens [C06] $r is Ok ==> $r->Ok_0.proof.c_scalar == prf_c::<$CS>(rnd_sc::<$CS::Group>(old($rng).st()), self.sk, gen::<$CS::Group>(), self.pk, be_els::<$CS>($blinded_elements.iter_s().seq()), ee_els::<$CS>(refs($r->Ok_0.messages@)), Mode::Voprf)
  ens [C06] $r is Ok ==> $r->Ok_0.proof.s_scalar == ssub(rnd_sc::<$CS::Group>(old($rng).st()), smul($r->Ok_0.proof.c_scalar, self.sk))
  ens [C02,C04] ($r is Ok && self.pk == emul(gen::<$CS::Group>(), self.sk)) ==> ver::<$CS>(gen::<$CS::Group>(), self.pk, be_els::<$CS>($blinded_elements.iter_s().seq()), ee_els::<$CS>(refs($r->Ok_0.messages@)), $r->Ok_0.proof.c_scalar, $r->Ok_0.proof.s_scalar, Mode::Voprf)
  start {
    broadcast use {lm_ee, lm_be, lm_pe, lm_vcl, lm_ee_pe};
    proof { assert(want(be_els::<$CS>($blinded_elements.iter_s().seq()))); }
  }
end
fn VoprfServer::batch_blind_evaluate_prepare <CS, I> (blinded_elements)
  ens [C04,C12] $r.inf() == $blinded_elements.inf() && (!$r.inf() ==> $r.seq().len() == $blinded_elements.seq().len())
  ens [C04,C02,C12] forall|i: int| 0 <= i < $blinded_elements.seq().len() && !$blinded_elements.inf() ==> (#[trigger] $r.seq()[i]).0.0 == emul($blinded_elements.seq()[i].0, self.sk)
end
fn VoprfServer::batch_blind_evaluate_finish <CS, R, IB, IE> (rng, blinded_elements, evaluation_elements)
  ens [C12] ($blinded_elements.seq().len() != $evaluation_elements.iter_s().seq().len() || $blinded_elements.seq().len() > 65535) ==> $r is Err && $r->Err_0 == Error::Batch
  ens [C04,C12] ($blinded_elements.seq().len() == $evaluation_elements.iter_s().seq().len() && $blinded_elements.seq().len() <= 65535) ==> $r is Ok
  ens [C04,C12] $r is Ok ==> !$r->Ok_0.messages.inf() && $r->Ok_0.messages.seq().len() == $evaluation_elements.iter_s().seq().len() && forall|i: int| 0 <= i < $r->Ok_0.messages.seq().len() ==> (#[trigger] $r->Ok_0.messages.seq()[i]).0 == $evaluation_elements.iter_s().seq()[i].0.0
  ens [C06] $r is Ok ==> final($rng).st() == rnd_next::<$CS::Group>(old($rng).st())
  ens [C06] $r is Ok ==> $r->Ok_0.proof.c_scalar == prf_c::<$CS>(rnd_sc::<$CS::Group>(old($rng).st()), self.sk, gen::<$CS::Group>(), self.pk, be_els::<$CS>($blinded_elements.seq()), pe_els::<$CS>($evaluation_elements.iter_s().seq()), Mode::Voprf)
  ens [C06] $r is Ok ==> $r->Ok_0.proof.s_scalar == ssub(rnd_sc::<$CS::Group>(old($rng).st()), smul($r->Ok_0.proof.c_scalar, self.sk))
  ens [C04] ($r is Ok && self.pk == emul(gen::<$CS::Group>(), self.sk) && (forall|i: int| 0 <= i < $blinded_elements.seq().len() ==> (#[trigger] $evaluation_elements.iter_s().seq()[i]).0.0 == emul($blinded_elements.seq()[i].0, self.sk))) ==> ver::<$CS>(gen::<$CS::Group>(), self.pk, be_els::<$CS>($blinded_elements.seq()), pe_els::<$CS>($evaluation_elements.iter_s().seq()), $r->Ok_0.proof.c_scalar, $r->Ok_0.proof.s_scalar, Mode::Voprf)
  start {
    broadcast use {lm_ee, lm_be, lm_pe, lm_vcl, lm_ee_pe};
    proof { assert(want(be_els::<$CS>($blinded_elements.seq()))); assert(want(pe_els::<$CS>($evaluation_elements.iter_s().seq()))); }
  }
end
fn VoprfServer::evaluate <CS> (input)
  ens [C13] ($input@.len() > 65535 || hash_group::<$CS>($input@, Mode::Voprf) == ident::<$CS::Group>()) ==> $r is Err && $r->Err_0 == Error::Input
  ens [C13,C02] ($input@.len() <= 65535 && hash_group::<$CS>($input@, Mode::Voprf) != ident::<$CS::Group>()) ==> $r is Ok
  ens [C02,C07] $r is Ok ==> $r->Ok_0@ == fin_out::<$CS>($input@, None, emul(hash_group::<$CS>($input@, Mode::Voprf), self.sk))
end
fn VoprfServer::get_public_key <CS> ()
  ens [C16] $r == self.pk
end
