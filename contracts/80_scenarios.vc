## ------------------------------------------------------------ whole-protocol scenarios: the properties as lemmas over the contracts.
## Each one is a client of the public functions, verified against their contracts only.
module oprf {
//@F scenario::oprf_roundtrip|C01
 /// blind -> blind_evaluate -> finalize == evaluate, for every input, key and RNG state
 pub fn scn_oprf_roundtrip<CS: CipherSuite, R: RngCore + CryptoRng>(server: &OprfServer<CS>, input: &[u8], rng: &mut R)
   requires input@.len() <= 65535, hash_group::<CS>(input@, Mode::Oprf) != ident::<CS::Group>()
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax};
   let b = OprfClient::<CS>::blind(input, rng);
   assert(b is Ok); //@E scenario::oprf_roundtrip|0|C01
   match b {
     Err(_) => {}
     Ok(b) => {
       let e = server.blind_evaluate(&b.message);
       let f = b.state.finalize(input, &e);
       let d = server.evaluate(input);
       proof { l_unblind(hash_group::<CS>(input@, Mode::Oprf), b.state.blind, server.sk); }
       assert(f is Ok && d is Ok); //@E scenario::oprf_roundtrip|1|C01
       assert(f->Ok_0@ == d->Ok_0@); //@E scenario::oprf_roundtrip|2|C01
       assert(f->Ok_0@ == fin_out::<CS>(input@, None, emul(hash_group::<CS>(input@, Mode::Oprf), server.sk))); //@E scenario::oprf_roundtrip|3|C01
     }
   }
 }
//@f
//@F scenario::oprf_two_blinds|C01
 /// the output does not depend on the blind
 pub fn scn_oprf_two_blinds<CS: CipherSuite>(server: &OprfServer<CS>, input: &[u8], b1: crate::vx::Sc<CS::Group>, b2: crate::vx::Sc<CS::Group>)
   requires input@.len() <= 65535, hash_group::<CS>(input@, Mode::Oprf) != ident::<CS::Group>(), b1 != szero::<CS::Group>(), b2 != szero::<CS::Group>()
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax};
   let x = OprfClient::<CS>::deterministic_blind_unchecked_inner(input, b1);
   let y = OprfClient::<CS>::deterministic_blind_unchecked_inner(input, b2);
   assert(x is Ok && y is Ok); //@E scenario::oprf_two_blinds|0|C01
   if let (Ok(x), Ok(y)) = (x, y) {
     let f = x.state.finalize(input, &server.blind_evaluate(&x.message));
     let g = y.state.finalize(input, &server.blind_evaluate(&y.message));
     proof { l_unblind(hash_group::<CS>(input@, Mode::Oprf), b1, server.sk); l_unblind(hash_group::<CS>(input@, Mode::Oprf), b2, server.sk); }
     assert(f is Ok && g is Ok && f->Ok_0@ == g->Ok_0@); //@E scenario::oprf_two_blinds|1|C01
   }
 }
//@f
}
module voprf {
//@F scenario::voprf_roundtrip|C02,C04
 pub fn scn_voprf_roundtrip<CS: CipherSuite, R: RngCore + CryptoRng>(server: &VoprfServer<CS>, input: &[u8], rng: &mut R)
   requires input@.len() <= 65535, hash_group::<CS>(input@, Mode::Voprf) != ident::<CS::Group>(), server.pk == emul(gen::<CS::Group>(), server.sk)
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax};
   let b = VoprfClient::<CS>::blind(input, rng);
   assert(b is Ok); //@E scenario::voprf_roundtrip|0|C02
   match b {
     Err(_) => {}
     Ok(b) => {
       let e = server.blind_evaluate(rng, &b.message);
       let f = b.state.finalize(input, &e.message, &e.proof, server.get_public_key());
       let d = server.evaluate(input);
       proof { l_unblind(hash_group::<CS>(input@, Mode::Voprf), b.state.blind, server.sk); }
       assert(f is Ok && d is Ok); //@E scenario::voprf_roundtrip|1|C02,C04
       assert(f->Ok_0@ == d->Ok_0@); //@E scenario::voprf_roundtrip|2|C02
       assert(f->Ok_0@ == fin_out::<CS>(input@, None, emul(hash_group::<CS>(input@, Mode::Voprf), server.sk))); //@E scenario::voprf_roundtrip|3|C02
     }
   }
 }
//@f
//@cfg batch_blind_evaluate
//@F scenario::voprf_batch_roundtrip|C02,C04
 /// any batch whose blinded elements belong to the clients: every output equals the server's own evaluation, in order
 pub fn scn_voprf_batch_roundtrip<CS: CipherSuite, R: RngCore + CryptoRng>(server: &VoprfServer<CS>, inputs: &Vec<Vec<u8>>, clients: &Vec<VoprfClient<CS>>, blinded: &Vec<BlindedElement<CS>>, rng: &mut R)
   requires server.pk == emul(gen::<CS::Group>(), server.sk), inputs@.len() == clients@.len() == blinded@.len() <= 65535,
     forall|i: int| 0 <= i < inputs@.len() ==> (#[trigger] inputs@[i])@.len() <= 65535,
     forall|i: int| 0 <= i < clients@.len() ==> (#[trigger] clients@[i]).blind != szero::<CS::Group>() && clients@[i].blinded_element == blinded@[i].0 && clients@[i].blinded_element == emul(hash_group::<CS>(inputs@[i]@, Mode::Voprf), clients@[i].blind)
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ee, lm_be, lm_pe, lm_vcl};
   let r = server.batch_blind_evaluate(rng, blinded);
   assert(r is Ok); //@E scenario::voprf_batch_roundtrip|0|C02,C04
   match r {
     Err(_) => {}
     Ok(r) => {
       let f = VoprfClient::<CS>::batch_finalize(inputs, clients, &r.messages, &r.proof, server.get_public_key());
       proof {
         assert(vcl_els::<CS>(refs(clients@)) =~= be_els::<CS>(refs(blinded@)));
         assert forall|i: int| 0 <= i < clients@.len() implies #[trigger] emul(r.messages@[i].0, sinv(clients@[i].blind)) == emul(hash_group::<CS>(inputs@[i]@, Mode::Voprf), server.sk) by {
           l_unblind(hash_group::<CS>(inputs@[i]@, Mode::Voprf), clients@[i].blind, server.sk);
         }
       }
       assert(f is Ok && f->Ok_0.seq().len() == clients@.len()); //@E scenario::voprf_batch_roundtrip|1|C02,C04
       assert forall|i: int| 0 <= i < clients@.len() implies (#[trigger] f->Ok_0.seq()[i]) == Ok::<crate::ext::digest::Output<CS::Hash>, Error>(out_of::<CS>(fin_out::<CS>(inputs@[i]@, None, emul(hash_group::<CS>(inputs@[i]@, Mode::Voprf), server.sk)))) by { //@E scenario::voprf_batch_roundtrip|2|C02
         let c = clients@[i];
         assert(emul(r.messages@[i].0, sinv(c.blind)) == emul(hash_group::<CS>(inputs@[i]@, Mode::Voprf), server.sk));
       }
     }
   }
 }
//@f
//@endcfg
//@cfg batch_blind_evaluate
//@F scenario::voprf_paths_agree|C04
 /// the allocating batch and prepare-then-finish produce the same messages, and from the same RNG state the same proof
 pub fn scn_voprf_paths_agree<CS: CipherSuite, R: RngCore + CryptoRng>(server: &VoprfServer<CS>, blinded: &Vec<BlindedElement<CS>>, prepared: &Vec<PreparedEvaluationElement<CS>>, rng: &mut R, rng2: &mut R)
   requires server.pk == emul(gen::<CS::Group>(), server.sk), blinded@.len() == prepared@.len() <= 65535, old(rng).st() == old(rng2).st(),
     forall|i: int| 0 <= i < prepared@.len() ==> (#[trigger] prepared@[i]).0.0 == emul(blinded@[i].0, server.sk)
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ee, lm_be, lm_pe, lm_vcl};
   let p = server.batch_blind_evaluate_prepare(blinded.vx_iter());
   assert(p.seq().len() == prepared@.len() && forall|i: int| 0 <= i < prepared@.len() ==> (#[trigger] p.seq()[i]).0.0 == prepared@[i].0.0); //@E scenario::voprf_paths_agree|0|C04
   let a = server.batch_blind_evaluate(rng, blinded);
   let b = server.batch_blind_evaluate_finish(rng2, blinded.vx_iter(), prepared);
   assert(a is Ok && b is Ok); //@E scenario::voprf_paths_agree|1|C04
   proof { assert(ee_els::<CS>(refs(a->Ok_0.messages@)) =~= pe_els::<CS>(refs(prepared@))); }
   assert(a->Ok_0.messages@.len() == b->Ok_0.messages.seq().len() && forall|i: int| 0 <= i < blinded@.len() ==> (#[trigger] a->Ok_0.messages@[i]).0 == b->Ok_0.messages.seq()[i].0); //@E scenario::voprf_paths_agree|2|C04
   assert(a->Ok_0.proof.c_scalar == b->Ok_0.proof.c_scalar && a->Ok_0.proof.s_scalar == b->Ok_0.proof.s_scalar); //@E scenario::voprf_paths_agree|3|C04
 }
//@f
//@endcfg
//@cfg batch_blind_evaluate
//@F scenario::voprf_one_shot_agrees|C04
 /// one-shot evaluation is the batch of one
 pub fn scn_voprf_one_shot_agrees<CS: CipherSuite, R: RngCore + CryptoRng>(server: &VoprfServer<CS>, blinded: &Vec<BlindedElement<CS>>, rng: &mut R, rng2: &mut R)
   requires server.pk == emul(gen::<CS::Group>(), server.sk), blinded@.len() == 1, old(rng).st() == old(rng2).st()
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ee, lm_be, lm_pe, lm_vcl};
   let a = server.blind_evaluate(rng, &blinded[0]);
   let b = server.batch_blind_evaluate(rng2, blinded);
   assert(b is Ok); //@E scenario::voprf_one_shot_agrees|0|C04
   proof { assert(ee_els::<CS>(refs(b->Ok_0.messages@)) =~= seq![a.message.0]); assert(be_els::<CS>(refs(blinded@)) =~= seq![blinded@[0].0]); }
   assert(a.message.0 == b->Ok_0.messages@[0].0); //@E scenario::voprf_one_shot_agrees|1|C04
   assert(a.proof.c_scalar == b->Ok_0.proof.c_scalar && a.proof.s_scalar == b->Ok_0.proof.s_scalar); //@E scenario::voprf_one_shot_agrees|2|C04
 }
//@f
//@endcfg
}
module poprf {
//@F scenario::poprf_roundtrip|C03,C04
 pub fn scn_poprf_roundtrip<CS: CipherSuite, R: RngCore + CryptoRng>(server: &PoprfServer<CS>, input: &[u8], info: Option<&[u8]>, rng: &mut R)
   requires input@.len() <= 65535, hash_group::<CS>(input@, Mode::Poprf) != ident::<CS::Group>(), server.pk == emul(gen::<CS::Group>(), server.sk),
     tweak_of::<CS>(server.sk, info_of(info)) is Ok
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax};
   let b = PoprfClient::<CS>::blind(input, rng);
   assert(b is Ok); //@E scenario::poprf_roundtrip|0|C03
   match b {
     Err(_) => {}
     Ok(b) => {
       proof { l_tweak::<CS>(server.sk, info_of(info)); }
       let e = server.blind_evaluate(rng, &b.message, info);
       assert(e is Ok); //@E scenario::poprf_roundtrip|1|C03,C04
       match e { Err(_) => {} Ok(e) => {
         let f = b.state.finalize(input, &e.message, &e.proof, server.get_public_key(), info);
         let d = server.evaluate(input, info);
         proof { l_unblind(hash_group::<CS>(input@, Mode::Poprf), b.state.blind, sinv(tweak_of::<CS>(server.sk, info_of(info))->Ok_0)); }
         assert(f is Ok && d is Ok); //@E scenario::poprf_roundtrip|2|C03,C04
         assert(f->Ok_0@ == d->Ok_0@); //@E scenario::poprf_roundtrip|3|C03
       } }
     }
   }
 }
//@f
//@cfg batch_blind_evaluate
//@F scenario::poprf_batch_roundtrip|C03,C04
 pub fn scn_poprf_batch_roundtrip<'a, CS: CipherSuite, R: RngCore + CryptoRng, II: 'a + Iterator<Item = &'a [u8]> + ExactSizeIterator>(server: &'a PoprfServer<CS>, inputs: II, clients: &'a Vec<PoprfClient<CS>>, blinded: &'a Vec<BlindedElement<CS>>, info: Option<&'a [u8]>, rng: &mut R)
   requires server.pk == emul(gen::<CS::Group>(), server.sk), !inputs.inf(), inputs.seq().len() == clients@.len() == blinded@.len() <= 65535,
     tweak_of::<CS>(server.sk, info_of(info)) is Ok,
     forall|i: int| 0 <= i < inputs.seq().len() ==> (#[trigger] inputs.seq()[i])@.len() <= 65535,
     forall|i: int| 0 <= i < clients@.len() ==> (#[trigger] clients@[i]).blind != szero::<CS::Group>() && clients@[i].blinded_element == blinded@[i].0 && clients@[i].blinded_element == emul(hash_group::<CS>(inputs.seq()[i]@, Mode::Poprf), clients@[i].blind)
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ee, lm_be, lm_pe, lm_pcl};
   let ghost ins = inputs.seq();
   let ghost t = tweak_of::<CS>(server.sk, info_of(info))->Ok_0;
   proof { l_tweak::<CS>(server.sk, info_of(info)); }
   let r = server.batch_blind_evaluate(rng, blinded, info);
   assert(r is Ok); //@E scenario::poprf_batch_roundtrip|0|C03,C04
   match r {
     Err(_) => {}
     Ok(r) => {
       proof {
         assert(pcl_els::<CS>(refs(clients@)) =~= be_els::<CS>(refs(blinded@)));
         assert forall|i: int| 0 <= i < clients@.len() implies #[trigger] emul(r.messages@[i].0, sinv(clients@[i].blind)) == emul(hash_group::<CS>(ins[i]@, Mode::Poprf), sinv(t)) by {
           l_unblind(hash_group::<CS>(ins[i]@, Mode::Poprf), clients@[i].blind, sinv(t));
         }
       }
       assert(r.messages@.len() == clients@.len() && ver::<CS>(gen::<CS::Group>(), tweaked_key_of::<CS>(server.pk, info_of(info))->Ok_0, ee_els::<CS>(refs(r.messages@)), pcl_els::<CS>(refs(clients@)), r.proof.c_scalar, r.proof.s_scalar, Mode::Poprf)); //@E scenario::poprf_batch_roundtrip|1|C03,C04
       assert(forall|i: int| 0 <= i < clients@.len() ==> #[trigger] emul(r.messages@[i].0, sinv(clients@[i].blind)) == emul(hash_group::<CS>(ins[i]@, Mode::Poprf), sinv(t))); //@E scenario::poprf_batch_roundtrip|2|C03
     }
   }
 }
//@f
//@endcfg
//@F scenario::poprf_batch_finalize|C03,C04
 /// the client's half, from what the server's half establishes
 pub fn scn_poprf_batch_finalize<'a, CS: CipherSuite, II: 'a + Iterator<Item = &'a [u8]> + ExactSizeIterator>(server: &PoprfServer<CS>, inputs: II, clients: &'a Vec<PoprfClient<CS>>, messages: &'a Vec<EvaluationElement<CS>>, proof: &Proof<CS>, info: Option<&'a [u8]>)
   requires server.pk == emul(gen::<CS::Group>(), server.sk), !inputs.inf(), inputs.seq().len() == clients@.len() == messages@.len() <= 65535,
     tweak_of::<CS>(server.sk, info_of(info)) is Ok, pcl_ok::<CS>(refs(clients@)),
     forall|i: int| 0 <= i < inputs.seq().len() ==> (#[trigger] inputs.seq()[i])@.len() <= 65535,
     ver::<CS>(gen::<CS::Group>(), tweaked_key_of::<CS>(server.pk, info_of(info))->Ok_0, ee_els::<CS>(refs(messages@)), pcl_els::<CS>(refs(clients@)), proof.c_scalar, proof.s_scalar, Mode::Poprf),
     forall|i: int| 0 <= i < clients@.len() ==> #[trigger] emul(messages@[i].0, sinv(clients@[i].blind)) == emul(hash_group::<CS>(inputs.seq()[i]@, Mode::Poprf), sinv(tweak_of::<CS>(server.sk, info_of(info))->Ok_0))
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ee, lm_be, lm_pe, lm_pcl};
   let ghost ins = inputs.seq();
   let ghost t = tweak_of::<CS>(server.sk, info_of(info))->Ok_0;
   proof { l_tweak::<CS>(server.sk, info_of(info)); }
   let f = PoprfClient::<CS>::batch_finalize(inputs, clients, messages, proof, server.get_public_key(), info);
   assert(f is Ok && f->Ok_0.seq().len() == clients@.len()); //@E scenario::poprf_batch_finalize|0|C03,C04
   assert forall|i: int| 0 <= i < clients@.len() implies (#[trigger] f->Ok_0.seq()[i]) == Ok::<crate::ext::digest::Output<CS::Hash>, Error>(out_of::<CS>(fin_out::<CS>(ins[i]@, Some(info_of(info)), emul(hash_group::<CS>(ins[i]@, Mode::Poprf), sinv(t))))) by { //@E scenario::poprf_batch_finalize|1|C03
     assert(emul(messages@[i].0, sinv(clients@[i].blind)) == emul(hash_group::<CS>(ins[i]@, Mode::Poprf), sinv(t)));
   }
 }
//@f
//@F scenario::poprf_none_is_empty|C03
 /// omitting the info is the same as the empty info
 pub fn scn_poprf_none_is_empty<CS: CipherSuite, R: RngCore + CryptoRng>(server: &PoprfServer<CS>, client: &PoprfClient<CS>, blinded: &BlindedElement<CS>, input: &[u8], empty: &[u8], proof: &Proof<CS>, message: &EvaluationElement<CS>, rng: &mut R, rng2: &mut R)
   requires empty@.len() == 0, old(rng).st() == old(rng2).st(), client.blind != szero::<CS::Group>()
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax};
   proof { assert(empty@ =~= Seq::<u8>::empty()); assert(info_of(Some(empty)) == info_of(None)); }
   let a = server.blind_evaluate(rng, blinded, None);
   let b = server.blind_evaluate(rng2, blinded, Some(empty));
   assert(a is Ok == b is Ok && (a is Ok ==> a->Ok_0.message.0 == b->Ok_0.message.0 && a->Ok_0.proof.c_scalar == b->Ok_0.proof.c_scalar && a->Ok_0.proof.s_scalar == b->Ok_0.proof.s_scalar)); //@E scenario::poprf_none_is_empty|0|C03
   let c = server.evaluate(input, None);
   let d = server.evaluate(input, Some(empty));
   assert(c is Ok == d is Ok && (c is Ok ==> c->Ok_0@ == d->Ok_0@)); //@E scenario::poprf_none_is_empty|1|C03
   let e = client.finalize(input, message, proof, server.get_public_key(), None);
   let f = client.finalize(input, message, proof, server.get_public_key(), Some(empty));
   assert(e is Ok == f is Ok && (e is Ok ==> e->Ok_0@ == f->Ok_0@)); //@E scenario::poprf_none_is_empty|2|C03
 }
//@f
//@cfg batch_blind_evaluate
//@F scenario::poprf_paths_agree|C04
 pub fn scn_poprf_paths_agree<CS: CipherSuite, R: RngCore + CryptoRng>(server: &PoprfServer<CS>, blinded: &Vec<BlindedElement<CS>>, prepared: &Vec<PreparedEvaluationElement<CS>>, info: Option<&[u8]>, rng: &mut R, rng2: &mut R)
   requires server.pk == emul(gen::<CS::Group>(), server.sk), blinded@.len() == prepared@.len() <= 65535, old(rng).st() == old(rng2).st(),
     tweak_of::<CS>(server.sk, info_of(info)) is Ok,
     forall|i: int| 0 <= i < prepared@.len() ==> (#[trigger] prepared@[i]).0.0 == emul(blinded@[i].0, sinv(tweak_of::<CS>(server.sk, info_of(info))->Ok_0))
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax, lm_ee, lm_be, lm_pe, lm_pcl};
   let p = server.batch_blind_evaluate_prepare(blinded.vx_iter(), info);
   assert(p is Ok); //@E scenario::poprf_paths_agree|0|C04
   match p { Err(_) => {} Ok(p) => {
     assert(p.prepared_evaluation_elements.seq().len() == prepared@.len() && forall|i: int| 0 <= i < prepared@.len() ==> (#[trigger] p.prepared_evaluation_elements.seq()[i]).0.0 == prepared@[i].0.0); //@E scenario::poprf_paths_agree|1|C04
     let a = server.batch_blind_evaluate(rng, blinded, info);
     let b = PoprfServer::<CS>::batch_blind_evaluate_finish(rng2, blinded.vx_iter(), prepared, &p.prepared_tweak);
     assert(a is Ok && b is Ok); //@E scenario::poprf_paths_agree|2|C04
     proof { assert(ee_els::<CS>(refs(a->Ok_0.messages@)) =~= pe_els::<CS>(refs(prepared@))); }
     assert(a->Ok_0.messages@.len() == b->Ok_0.messages.seq().len() && forall|i: int| 0 <= i < blinded@.len() ==> (#[trigger] a->Ok_0.messages@[i]).0 == b->Ok_0.messages.seq()[i].0); //@E scenario::poprf_paths_agree|3|C04
     assert(a->Ok_0.proof.c_scalar == b->Ok_0.proof.c_scalar && a->Ok_0.proof.s_scalar == b->Ok_0.proof.s_scalar); //@E scenario::poprf_paths_agree|4|C04
   } }
 }
//@f
//@endcfg
//@F scenario::poprf_tweak_matches|C17
 /// the client's tweaked key is the server's tweak times the generator, and one fails exactly when the other does
 pub fn scn_poprf_tweak_matches<CS: CipherSuite>(server: &PoprfServer<CS>, info: Option<&[u8]>)
   requires server.pk == emul(gen::<CS::Group>(), server.sk)
 {
   broadcast use {crate::vx::vx_ax, crate::sp::sp_ax};
   let t = compute_tweak::<CS>(server.sk, info);
   let k = compute_tweaked_key::<CS>(server.pk, info);
   proof { l_tweak::<CS>(server.sk, info_of(info)); }
   assert(t is Ok == k is Ok); //@E scenario::poprf_tweak_matches|0|C17
   assert(t is Ok ==> k->Ok_0 == emul(gen::<CS::Group>(), t->Ok_0) && t->Ok_0 != szero::<CS::Group>()); //@E scenario::poprf_tweak_matches|1|C17
   assert(info_of(info).len() <= 65535 && t is Err ==> t->Err_0 == Error::Protocol && k->Err_0 == Error::Protocol); //@E scenario::poprf_tweak_matches|2|C17
 }
//@f
}
