## ------------------------------------------------------------ partially-oblivious mode
module poprf {
use crate::common::{ee_els, be_els, pe_els, lm_ee, lm_be, lm_pe, lm_ee_pe};
pub broadcast proof fn lm_pcl<CS: CipherSuite>(s: Seq<&PoprfClient<CS>>) ensures (#[trigger] pcl_els(s)).len() == s.len() {}
/// the blinded elements of a list of clients, in order
pub open spec fn pcl_els<CS: CipherSuite>(s: Seq<&PoprfClient<CS>>) -> Seq<El<CS::Group>> { Seq::new(s.len(), |i: int| s[i].blinded_element) }
pub open spec fn pcl_ok<CS: CipherSuite>(s: Seq<&PoprfClient<CS>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).blind != szero::<CS::Group>() }
}
fn PoprfClient::blind <CS, R> (input, rng)
  ens [C15] $r is Ok ==> $r->Ok_0.state.blind == rnd_sc::<$CS::Group>(old($rng).st())
  ens [C15] final($rng).st() == rnd_next::<$CS::Group>(old($rng).st())
  ens [C15,C03] $r is Ok ==> $r->Ok_0.message.0 == emul(hash_group::<$CS>($input@, Mode::Poprf), $r->Ok_0.state.blind)
  ens [C15,C03] $r is Ok ==> $r->Ok_0.state.blinded_element == $r->Ok_0.message.0
  ens [C15,C03] $r is Ok ==> $r->Ok_0.state.blind != szero::<$CS::Group>()
  ens [C15] $r is Ok ==> $r->Ok_0.message.0 != ident::<$CS::Group>()
  ens [C13] ($input@.len() > 65535 || hash_group::<$CS>($input@, Mode::Poprf) == ident::<$CS::Group>()) ==> $r is Err && $r->Err_0 == Error::Input
  ens [C13,C03] ($input@.len() <= 65535 && hash_group::<$CS>($input@, Mode::Poprf) != ident::<$CS::Group>()) ==> $r is Ok
  start {
    proof { g_prime(hash_group::<$CS>($input@, Mode::Poprf), rnd_sc::<$CS::Group>($rng.st())); }
  }
end
fn PoprfClient::deterministic_blind_unchecked <CS> (input, blind)
  ens [C15,C03] $r is Ok ==> $r->Ok_0.state.blind == $blind && $r->Ok_0.message.0 == emul(hash_group::<$CS>($input@, Mode::Poprf), $blind) && $r->Ok_0.state.blinded_element == $r->Ok_0.message.0
  ens [C13,C03] ($r is Ok) == (blind_of::<$CS>($input@, $blind, Mode::Poprf) is Ok)
  ens [C13] $r is Err ==> $r->Err_0 == Error::Input
end
fn PoprfClient::deterministic_blind_unchecked_inner <CS> (input, blind)
  ens [C15,C03] $r is Ok ==> $r->Ok_0.state.blind == $blind && $r->Ok_0.message.0 == emul(hash_group::<$CS>($input@, Mode::Poprf), $blind) && $r->Ok_0.state.blinded_element == $r->Ok_0.message.0
  ens [C13,C03] ($r is Ok) == (blind_of::<$CS>($input@, $blind, Mode::Poprf) is Ok)
  ens [C13] $r is Err ==> $r->Err_0 == Error::Input
end
fn PoprfClient::finalize <CS> (input, evaluation_element, proof, pk, info)
  req self.blind != szero::<$CS::Group>()
  ens [C13] (info_of($info).len() > 65535) ==> $r is Err && $r->Err_0 == Error::Info
  ens [C17] (!(info_of($info).len() > 65535) && tweaked_key_of::<$CS>($pk, info_of($info)) is Err) ==> $r is Err && $r->Err_0 == Error::Protocol
  ens [C05,C03] $r is Ok ==> tweaked_key_of::<$CS>($pk, info_of($info)) is Ok && ver::<$CS>(gen::<$CS::Group>(), tweaked_key_of::<$CS>($pk, info_of($info))->Ok_0, seq![$evaluation_element.0], seq![self.blinded_element], $proof.c_scalar, $proof.s_scalar, Mode::Poprf)
  ens [C05,C03] (tweaked_key_of::<$CS>($pk, info_of($info)) is Ok && !ver::<$CS>(gen::<$CS::Group>(), tweaked_key_of::<$CS>($pk, info_of($info))->Ok_0, seq![$evaluation_element.0], seq![self.blinded_element], $proof.c_scalar, $proof.s_scalar, Mode::Poprf)) ==> $r is Err && $r->Err_0 == Error::ProofVerification
  ens [C13] (tweaked_key_of::<$CS>($pk, info_of($info)) is Ok && ver::<$CS>(gen::<$CS::Group>(), tweaked_key_of::<$CS>($pk, info_of($info))->Ok_0, seq![$evaluation_element.0], seq![self.blinded_element], $proof.c_scalar, $proof.s_scalar, Mode::Poprf) && $input@.len() > 65535) ==> $r is Err && $r->Err_0 == Error::Input
  ens [C03,C04,C13] (tweaked_key_of::<$CS>($pk, info_of($info)) is Ok && ver::<$CS>(gen::<$CS::Group>(), tweaked_key_of::<$CS>($pk, info_of($info))->Ok_0, seq![$evaluation_element.0], seq![self.blinded_element], $proof.c_scalar, $proof.s_scalar, Mode::Poprf) && $input@.len() <= 65535) ==> $r is Ok
  ens [C03,C07] $r is Ok ==> $r->Ok_0@ == fin_out::<$CS>($input@, Some(info_of($info)), emul($evaluation_element.0, sinv(self.blind)))
  start {
    broadcast use {lm_ee, lm_be, lm_pe, lm_pcl, lm_ee_pe};
    proof { assert(want(seq![self.blinded_element])); assert(want(seq![$evaluation_element.0])); }
  }
end
fn PoprfClient::batch_finalize <CS, II, IC, IM> (inputs, clients, messages, proof, pk, info)
  req pcl_ok::<$CS>($clients.iter_s().seq())
  ens [C13] (info_of($info).len() > 65535) ==> $r is Err && $r->Err_0 == Error::Info
  ens [C17] (!(info_of($info).len() > 65535) && tweaked_key_of::<$CS>($pk, info_of($info)) is Err) ==> $r is Err && $r->Err_0 == Error::Protocol
  ens [C12] (tweaked_key_of::<$CS>($pk, info_of($info)) is Ok && ($clients.iter_s().seq().len() != $messages.iter_s().seq().len() || $clients.iter_s().seq().len() > 65535)) ==> $r is Err && $r->Err_0 == Error::Batch
  ens [C05,C03] $r is Ok ==> tweaked_key_of::<$CS>($pk, info_of($info)) is Ok && ver::<$CS>(gen::<$CS::Group>(), tweaked_key_of::<$CS>($pk, info_of($info))->Ok_0, ee_els::<$CS>($messages.iter_s().seq()), pcl_els::<$CS>($clients.iter_s().seq()), $proof.c_scalar, $proof.s_scalar, Mode::Poprf)
  ens [C05,C03] (tweaked_key_of::<$CS>($pk, info_of($info)) is Ok && $clients.iter_s().seq().len() == $messages.iter_s().seq().len() && $clients.iter_s().seq().len() <= 65535 && !ver::<$CS>(gen::<$CS::Group>(), tweaked_key_of::<$CS>($pk, info_of($info))->Ok_0, ee_els::<$CS>($messages.iter_s().seq()), pcl_els::<$CS>($clients.iter_s().seq()), $proof.c_scalar, $proof.s_scalar, Mode::Poprf)) ==> $r is Err && $r->Err_0 == Error::ProofVerification
  ens [C12] (tweaked_key_of::<$CS>($pk, info_of($info)) is Ok && $clients.iter_s().seq().len() == $messages.iter_s().seq().len() && $clients.iter_s().seq().len() <= 65535 && ver::<$CS>(gen::<$CS::Group>(), tweaked_key_of::<$CS>($pk, info_of($info))->Ok_0, ee_els::<$CS>($messages.iter_s().seq()), pcl_els::<$CS>($clients.iter_s().seq()), $proof.c_scalar, $proof.s_scalar, Mode::Poprf) && $inputs.seq().len() != $clients.iter_s().seq().len()) ==> $r is Err && $r->Err_0 == Error::Batch
  ens [C03,C04,C12] (tweaked_key_of::<$CS>($pk, info_of($info)) is Ok && $clients.iter_s().seq().len() == $messages.iter_s().seq().len() && $clients.iter_s().seq().len() <= 65535 && ver::<$CS>(gen::<$CS::Group>(), tweaked_key_of::<$CS>($pk, info_of($info))->Ok_0, ee_els::<$CS>($messages.iter_s().seq()), pcl_els::<$CS>($clients.iter_s().seq()), $proof.c_scalar, $proof.s_scalar, Mode::Poprf) && $inputs.seq().len() == $clients.iter_s().seq().len()) ==> $r is Ok
  ens [C03,C12] $r is Ok ==> !$r->Ok_0.inf() && $r->Ok_0.seq().len() == $clients.iter_s().seq().len() && $inputs.seq().len() == $clients.iter_s().seq().len()
  ens [C03,C07,C12,C13] $r is Ok ==> forall|i: int| 0 <= i < $r->Ok_0.seq().len() ==> (#[trigger] $r->Ok_0.seq()[i]) == fin_res::<$CS>($inputs.seq()[i]@, Some(info_of($info)), emul($messages.iter_s().seq()[i].0, sinv($clients.iter_s().seq()[i].blind)))
  start {
    broadcast use {lm_ee, lm_be, lm_pe, lm_pcl, lm_ee_pe};
  }
end
fn poprf::poprf_unblind <CS, IC, IM> (clients, messages, pk, proof, info)
  req pcl_ok::<$CS>($clients.iter_s().seq())
  ens [C13] (info_of($info).len() > 65535) ==> $r is Err && $r->Err_0 == Error::Info
  ens [C17] (!(info_of($info).len() > 65535) && tweaked_key_of::<$CS>($pk, info_of($info)) is Err) ==> $r is Err && $r->Err_0 == Error::Protocol
  ens [C12] (tweaked_key_of::<$CS>($pk, info_of($info)) is Ok && ($clients.iter_s().seq().len() != $messages.iter_s().seq().len() || $clients.iter_s().seq().len() > 65535)) ==> $r is Err && $r->Err_0 == Error::Batch
  ens [C05,C03] $r is Ok ==> tweaked_key_of::<$CS>($pk, info_of($info)) is Ok && $clients.iter_s().seq().len() == $messages.iter_s().seq().len() && ver::<$CS>(gen::<$CS::Group>(), tweaked_key_of::<$CS>($pk, info_of($info))->Ok_0, ee_els::<$CS>($messages.iter_s().seq()), pcl_els::<$CS>($clients.iter_s().seq()), $proof.c_scalar, $proof.s_scalar, Mode::Poprf)
  ens [C05,C03] (tweaked_key_of::<$CS>($pk, info_of($info)) is Ok && $clients.iter_s().seq().len() == $messages.iter_s().seq().len() && $clients.iter_s().seq().len() <= 65535 && !ver::<$CS>(gen::<$CS::Group>(), tweaked_key_of::<$CS>($pk, info_of($info))->Ok_0, ee_els::<$CS>($messages.iter_s().seq()), pcl_els::<$CS>($clients.iter_s().seq()), $proof.c_scalar, $proof.s_scalar, Mode::Poprf)) ==> $r is Err && $r->Err_0 == Error::ProofVerification
  ens [C03,C04,C12] (tweaked_key_of::<$CS>($pk, info_of($info)) is Ok && $clients.iter_s().seq().len() == $messages.iter_s().seq().len() && $clients.iter_s().seq().len() <= 65535 && ver::<$CS>(gen::<$CS::Group>(), tweaked_key_of::<$CS>($pk, info_of($info))->Ok_0, ee_els::<$CS>($messages.iter_s().seq()), pcl_els::<$CS>($clients.iter_s().seq()), $proof.c_scalar, $proof.s_scalar, Mode::Poprf)) ==> $r is Ok
  ens [C03,C12] $r is Ok ==> !$r->Ok_0.inf() && $r->Ok_0.seq().len() == $clients.iter_s().seq().len()
  ens [C03,C12] $r is Ok ==> forall|i: int| 0 <= i < $r->Ok_0.seq().len() ==> (#[trigger] $r->Ok_0.seq()[i]) == emul($messages.iter_s().seq()[i].0, sinv($clients.iter_s().seq()[i].blind))
  start {
    broadcast use {lm_ee, lm_be, lm_pe, lm_pcl, lm_ee_pe};
    proof { assert(want(pcl_els::<$CS>($clients.iter_s().seq()))); assert(want(ee_els::<$CS>($messages.iter_s().seq()))); }
  }
end
fn poprf::finalize_after_unblind <CS, IE, II> (els, inputs, info)
  ens [C12] $els.seq().len() != $inputs.seq().len() ==> $r is Err && $r->Err_0 == Error::Batch
  ens [C12,C03] $els.seq().len() == $inputs.seq().len() ==> $r is Ok
  ens [C12,C03] $r is Ok ==> !$r->Ok_0.inf() && $r->Ok_0.seq().len() == $inputs.seq().len()
  ens [C07] ($r is Ok && !(info_of($info).len() > 65535)) ==> forall|i: int| 0 <= i < $r->Ok_0.seq().len() && $inputs.seq()[i]@.len() <= 65535 ==> (#[trigger] $r->Ok_0.seq()[i]) == fin_res::<$CS>($inputs.seq()[i]@, Some(info_of($info)), $els.seq()[i])
  ens [C13] ($r is Ok && !(info_of($info).len() > 65535)) ==> forall|i: int| 0 <= i < $r->Ok_0.seq().len() ==> (($inputs.seq()[i]@.len() <= 65535) == ((#[trigger] $r->Ok_0.seq()[i]) is Ok)) && ($inputs.seq()[i]@.len() > 65535 ==> $r->Ok_0.seq()[i]->Err_0 == Error::Input)
  ens ($r is Ok && !(info_of($info).len() > 65535)) ==> forall|i: int| 0 <= i < $r->Ok_0.seq().len() ==> (#[trigger] $r->Ok_0.seq()[i]) == fin_res::<$CS>($inputs.seq()[i]@, Some(info_of($info)), $els.seq()[i])
end
fn PoprfServer::new <CS, R> (rng)
  ens [C16] $r is Ok ==> derive_key_of::<$CS>(rng_bytes(old($rng).st(), <<$CS::Group as Group>::ScalarLen as ArrayLength>::n()), Seq::<u8>::empty(), Mode::Poprf) == Ok::<Sc<$CS::Group>, Error>($r->Ok_0.sk)
  ens [C16] final($rng).st() == rng_after(old($rng).st(), <<$CS::Group as Group>::ScalarLen as ArrayLength>::n())
  ens [C16] $r is Ok ==> $r->Ok_0.sk != szero::<$CS::Group>()
  ens [C16,C03,C04] $r is Ok ==> $r->Ok_0.pk == emul(gen::<$CS::Group>(), $r->Ok_0.sk)
  ens [C16] $r is Err ==> derive_key_of::<$CS>(rng_bytes(old($rng).st(), <<$CS::Group as Group>::ScalarLen as ArrayLength>::n()), Seq::<u8>::empty(), Mode::Poprf) is Err
end
fn PoprfServer::new_with_key <CS> (key)
  ens [C16,C10] $r is Ok ==> de_sc::<$CS::Group>($key@) == Ok::<Sc<$CS::Group>, Error>($r->Ok_0.sk)
  ens [C10,C16] $r is Err ==> $r->Err_0 == Error::Deserialization && de_sc::<$CS::Group>($key@) is Err
  ens [C16] $r is Ok ==> $r->Ok_0.sk != szero::<$CS::Group>()
  ens [C16,C03,C04] $r is Ok ==> $r->Ok_0.pk == emul(gen::<$CS::Group>(), $r->Ok_0.sk)
end
fn PoprfServer::new_from_seed <CS> (seed, info)
  ens [C16,C08] $r is Ok ==> derive_key_of::<$CS>($seed@, $info@, Mode::Poprf) == Ok::<Sc<$CS::Group>, Error>($r->Ok_0.sk)
  ens [C08] $r is Err ==> derive_key_of::<$CS>($seed@, $info@, Mode::Poprf) == Err::<Sc<$CS::Group>, Error>($r->Err_0)
  ens [C13,C08] $info@.len() > 65535 ==> $r is Err && $r->Err_0 == Error::DeriveKeyPair
  ens [C16] $r is Ok ==> $r->Ok_0.sk != szero::<$CS::Group>()
  ens [C16,C08,C03,C04] $r is Ok ==> $r->Ok_0.pk == emul(gen::<$CS::Group>(), $r->Ok_0.sk)
end
fn PoprfServer::blind_evaluate <CS, R> (rng, blinded_element, info)
  ens [C13] (info_of($info).len() > 65535) ==> $r is Err && $r->Err_0 == Error::Info
  ens [C17] (!(info_of($info).len() > 65535) && tweak_of::<$CS>(self.sk, info_of($info)) is Err) ==> $r is Err && $r->Err_0 == Error::Protocol
  ens [C03,C04] tweak_of::<$CS>(self.sk, info_of($info)) is Ok ==> $r is Ok
  ens [C03,C04,C17] $r is Ok ==> tweak_of::<$CS>(self.sk, info_of($info)) is Ok && $r->Ok_0.message.0 == emul($blinded_element.0, sinv(tweak_of::<$CS>(self.sk, info_of($info))->Ok_0))
  ens [C06] $r is Ok ==> $r->Ok_0.proof.c_scalar == prf_c::<$CS>(rnd_sc::<$CS::Group>(old($rng).st()), tweak_of::<$CS>(self.sk, info_of($info))->Ok_0, gen::<$CS::Group>(), emul(gen::<$CS::Group>(), tweak_of::<$CS>(self.sk, info_of($info))->Ok_0), seq![$r->Ok_0.message.0], seq![$blinded_element.0], Mode::Poprf)
  ens [C06] $r is Ok ==> $r->Ok_0.proof.s_scalar == ssub(rnd_sc::<$CS::Group>(old($rng).st()), smul($r->Ok_0.proof.c_scalar, tweak_of::<$CS>(self.sk, info_of($info))->Ok_0))
  ens [C06] $r is Ok ==> final($rng).st() == rnd_next::<$CS::Group>(old($rng).st())
  ens [C03,C04] $r is Ok ==> ver::<$CS>(gen::<$CS::Group>(), emul(gen::<$CS::Group>(), tweak_of::<$CS>(self.sk, info_of($info))->Ok_0), seq![$r->Ok_0.message.0], seq![$blinded_element.0], $r->Ok_0.proof.c_scalar, $r->Ok_0.proof.s_scalar, Mode::Poprf)
  start {
    broadcast use {lm_ee, lm_be, lm_pe, lm_pcl, lm_ee_pe};
    proof { assert(want(seq![$blinded_element.0])); assert(want(seq![emul($blinded_element.0, sinv(tweak_of::<$CS>(self.sk, info_of($info))->Ok_0))])); }
  }
end
fn PoprfServer::batch_blind_evaluate <CS, R, IE> (rng, blinded_elements, info)
  ens [C13] (info_of($info).len() > 65535) ==> $r is Err && $r->Err_0 == Error::Info
  ens [C17] (!(info_of($info).len() > 65535) && tweak_of::<$CS>(self.sk, info_of($info)) is Err) ==> $r is Err && $r->Err_0 == Error::Protocol
  ens [C12] (tweak_of::<$CS>(self.sk, info_of($info)) is Ok && $blinded_elements.iter_s().seq().len() > 65535) ==> $r is Err && $r->Err_0 == Error::Batch
  ens [C03,C04,C12] (tweak_of::<$CS>(self.sk, info_of($info)) is Ok && $blinded_elements.iter_s().seq().len() <= 65535) ==> $r is Ok
  ens [C03,C04,C12,C17] $r is Ok ==> tweak_of::<$CS>(self.sk, info_of($info)) is Ok && $r->Ok_0.messages@.len() == $blinded_elements.iter_s().seq().len() && forall|i: int| 0 <= i < $r->Ok_0.messages@.len() ==> (#[trigger] $r->Ok_0.messages@[i]).0 == emul($blinded_elements.iter_s().seq()[i].0, sinv(tweak_of::<$CS>(self.sk, info_of($info))->Ok_0))
  ens [C06] $r is Ok ==> final($rng).st() == rnd_next::<$CS::Group>(old($rng).st())
  ens [C06] $r is Ok ==> $r->Ok_0.proof.c_scalar == prf_c::<$CS>(rnd_sc::<$CS::Group>(old($rng).st()), tweak_of::<$CS>(self.sk, info_of($info))->Ok_0, gen::<$CS::Group>(), emul(gen::<$CS::Group>(), tweak_of::<$CS>(self.sk, info_of($info))->Ok_0), ee_els::<$CS>(refs($r->Ok_0.messages@)), be_els::<$CS>($blinded_elements.iter_s().seq()), Mode::Poprf)
  ens [C06] $r is Ok ==> $r->Ok_0.proof.s_scalar == ssub(rnd_sc::<$CS::Group>(old($rng).st()), smul($r->Ok_0.proof.c_scalar, tweak_of::<$CS>(self.sk, info_of($info))->Ok_0))
  ens [C03,C04] $r is Ok ==> ver::<$CS>(gen::<$CS::Group>(), emul(gen::<$CS::Group>(), tweak_of::<$CS>(self.sk, info_of($info))->Ok_0), ee_els::<$CS>(refs($r->Ok_0.messages@)), be_els::<$CS>($blinded_elements.iter_s().seq()), $r->Ok_0.proof.c_scalar, $r->Ok_0.proof.s_scalar, Mode::Poprf)
  start {
    broadcast use {lm_ee, lm_be, lm_pe, lm_pcl, lm_ee_pe};
    proof { assert(want(be_els::<$CS>($blinded_elements.iter_s().seq()))); }
  }
end
fn PoprfServer::batch_blind_evaluate_prepare <CS, I> (blinded_elements, info)
  ens [C13] (info_of($info).len() > 65535) ==> $r is Err && $r->Err_0 == Error::Info
  ens [C17] (!(info_of($info).len() > 65535) && tweak_of::<$CS>(self.sk, info_of($info)) is Err) ==> $r is Err && $r->Err_0 == Error::Protocol
  ens [C17,C04] tweak_of::<$CS>(self.sk, info_of($info)) is Ok ==> $r is Ok
  ens [C17,C04] $r is Ok ==> tweak_of::<$CS>(self.sk, info_of($info)) is Ok && $r->Ok_0.prepared_tweak.0 == tweak_of::<$CS>(self.sk, info_of($info))->Ok_0 && tweak_of::<$CS>(self.sk, info_of($info))->Ok_0 != szero::<$CS::Group>()
  ens [C04,C12] $r is Ok ==> $r->Ok_0.prepared_evaluation_elements.inf() == $blinded_elements.inf() && (!$blinded_elements.inf() ==> $r->Ok_0.prepared_evaluation_elements.seq().len() == $blinded_elements.seq().len())
  ens [C03,C04,C12,C17] ($r is Ok && !$blinded_elements.inf()) ==> forall|i: int| 0 <= i < $blinded_elements.seq().len() ==> (#[trigger] $r->Ok_0.prepared_evaluation_elements.seq()[i]).0.0 == emul($blinded_elements.seq()[i].0, sinv(tweak_of::<$CS>(self.sk, info_of($info))->Ok_0))
end
fn PoprfServer::batch_blind_evaluate_finish <CS, R, IB, IE> (rng, blinded_elements, elements, tweak)
  ens [C12] ($blinded_elements.seq().len() != $elements.iter_s().seq().len() || $blinded_elements.seq().len() > 65535) ==> $r is Err && $r->Err_0 == Error::Batch
  ens [C04,C12] ($blinded_elements.seq().len() == $elements.iter_s().seq().len() && $blinded_elements.seq().len() <= 65535) ==> $r is Ok
  ens [C04,C12] $r is Ok ==> !$r->Ok_0.messages.inf() && $r->Ok_0.messages.seq().len() == $elements.iter_s().seq().len() && forall|i: int| 0 <= i < $r->Ok_0.messages.seq().len() ==> (#[trigger] $r->Ok_0.messages.seq()[i]).0 == $elements.iter_s().seq()[i].0.0
  ens [C06] $r is Ok ==> final($rng).st() == rnd_next::<$CS::Group>(old($rng).st())
  ens [C06] $r is Ok ==> $r->Ok_0.proof.c_scalar == prf_c::<$CS>(rnd_sc::<$CS::Group>(old($rng).st()), $tweak.0, gen::<$CS::Group>(), emul(gen::<$CS::Group>(), $tweak.0), pe_els::<$CS>($elements.iter_s().seq()), be_els::<$CS>($blinded_elements.seq()), Mode::Poprf)
  ens [C06] $r is Ok ==> $r->Ok_0.proof.s_scalar == ssub(rnd_sc::<$CS::Group>(old($rng).st()), smul($r->Ok_0.proof.c_scalar, $tweak.0))
  ens [C04] ($r is Ok && $tweak.0 != szero::<$CS::Group>() && (forall|i: int| 0 <= i < $blinded_elements.seq().len() ==> (#[trigger] $elements.iter_s().seq()[i]).0.0 == emul($blinded_elements.seq()[i].0, sinv($tweak.0)))) ==> ver::<$CS>(gen::<$CS::Group>(), emul(gen::<$CS::Group>(), $tweak.0), pe_els::<$CS>($elements.iter_s().seq()), be_els::<$CS>($blinded_elements.seq()), $r->Ok_0.proof.c_scalar, $r->Ok_0.proof.s_scalar, Mode::Poprf)
  start {
    broadcast use {lm_ee, lm_be, lm_pe, lm_pcl, lm_ee_pe};
    proof {
      assert(want(be_els::<$CS>($blinded_elements.seq()))); assert(want(pe_els::<$CS>($elements.iter_s().seq())));
      if $tweak.0 != szero::<$CS::Group>() {
        assert forall|e: El<$CS::Group>| emul(#[trigger] emul(e, sinv($tweak.0)), $tweak.0) == e by { l_inv_mul(e, $tweak.0); }
      }
    }
  }
end
fn PoprfServer::evaluate <CS> (input, info)
  ens [C13] ($input@.len() > 65535 || hash_group::<$CS>($input@, Mode::Poprf) == ident::<$CS::Group>()) ==> $r is Err && $r->Err_0 == Error::Input
  ens [C13] ($input@.len() <= 65535 && hash_group::<$CS>($input@, Mode::Poprf) != ident::<$CS::Group>() && (info_of($info).len() > 65535)) ==> $r is Err && $r->Err_0 == Error::Info
  ens [C17] ($input@.len() <= 65535 && hash_group::<$CS>($input@, Mode::Poprf) != ident::<$CS::Group>() && !(info_of($info).len() > 65535) && tweak_of::<$CS>(self.sk, info_of($info)) is Err) ==> $r is Err && $r->Err_0 == Error::Protocol
  ens [C13,C03] ($input@.len() <= 65535 && hash_group::<$CS>($input@, Mode::Poprf) != ident::<$CS::Group>() && tweak_of::<$CS>(self.sk, info_of($info)) is Ok) ==> $r is Ok
  ens [C03,C07,C17] $r is Ok ==> tweak_of::<$CS>(self.sk, info_of($info)) is Ok && $r->Ok_0@ == fin_out::<$CS>($input@, Some(info_of($info)), emul(hash_group::<$CS>($input@, Mode::Poprf), sinv(tweak_of::<$CS>(self.sk, info_of($info))->Ok_0)))
end
fn PoprfServer::get_public_key <CS> ()
  ens [C16] $r == self.pk
end
fn poprf::compute_tweaked_key <CS> (pk, info)
  call hash_to_scalar 0 [C07,C17] flat($arg@) =~= p_info() + be16(info_of($info).len() as int) + info_of($info)
  call hash_to_scalar 1 [C07,C17] flat($arg@) == dst_of::<$CS>(p_h2s(), Mode::Poprf)
  ens [C17] info_of($info).len() <= 65535 ==> $r == tweaked_key_of::<$CS>($pk, info_of($info))
  ens [C13] info_of($info).len() > 65535 ==> $r is Err && $r->Err_0 == Error::Info
  ens [C13] info_of($info).len() <= 65535 ==> !($r is Err && $r->Err_0 == Error::Info)
  start {
    proof { reveal_with_fuel(flat, 5); }
  }
end
fn poprf::compute_tweak <CS> (sk, info)
  call hash_to_scalar 0 [C07,C17] flat($arg@) =~= p_info() + be16(info_of($info).len() as int) + info_of($info)
  call hash_to_scalar 1 [C07,C17] flat($arg@) == dst_of::<$CS>(p_h2s(), Mode::Poprf)
  ens [C17] info_of($info).len() <= 65535 ==> $r == tweak_of::<$CS>($sk, info_of($info))
  ens [C13] info_of($info).len() > 65535 ==> $r is Err && $r->Err_0 == Error::Info
  ens [C13] info_of($info).len() <= 65535 ==> !($r is Err && $r->Err_0 == Error::Info)
  start {
    proof { reveal_with_fuel(flat, 5); }
  }
end
