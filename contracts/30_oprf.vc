## ------------------------------------------------------------ base mode
fn OprfClient::blind <CS, R> (input, rng)
  ens [C15] $r is Ok ==> $r->Ok_0.state.blind == rnd_sc::<$CS::Group>(old($rng).st())
  ens [C15] final($rng).st() == rnd_next::<$CS::Group>(old($rng).st())
  ens [C15,C01] $r is Ok ==> $r->Ok_0.message.0 == emul(hash_group::<$CS>($input@, Mode::Oprf), $r->Ok_0.state.blind)
  ens [C15,C01] $r is Ok ==> $r->Ok_0.state.blind != szero::<$CS::Group>()
  ens [C15] $r is Ok ==> $r->Ok_0.message.0 != ident::<$CS::Group>()
  ens [C13] ($input@.len() > 65535 || hash_group::<$CS>($input@, Mode::Oprf) == ident::<$CS::Group>()) ==> $r is Err && $r->Err_0 == Error::Input
  ens [C13,C01] ($input@.len() <= 65535 && hash_group::<$CS>($input@, Mode::Oprf) != ident::<$CS::Group>()) ==> $r is Ok
  start {
    proof { g_prime(hash_group::<$CS>($input@, Mode::Oprf), rnd_sc::<$CS::Group>($rng.st())); }
  }
end
fn OprfClient::deterministic_blind_unchecked <CS> (input, blind)
  ens [C15,C01] $r is Ok ==> $r->Ok_0.state.blind == $blind && $r->Ok_0.message.0 == emul(hash_group::<$CS>($input@, Mode::Oprf), $blind)
  ens [C13,C01] ($r is Ok) == (blind_of::<$CS>($input@, $blind, Mode::Oprf) is Ok)
  ens [C13] $r is Err ==> $r->Err_0 == Error::Input
end
fn OprfClient::deterministic_blind_unchecked_inner <CS> (input, blind)
  ens [C15,C01] $r is Ok ==> $r->Ok_0.state.blind == $blind && $r->Ok_0.message.0 == emul(hash_group::<$CS>($input@, Mode::Oprf), $blind)
  ens [C13,C01] ($r is Ok) == (blind_of::<$CS>($input@, $blind, Mode::Oprf) is Ok)
  ens [C13] $r is Err ==> $r->Err_0 == Error::Input
end
fn OprfClient::finalize <CS> (input, evaluation_element)
  req self.blind != szero::<$CS::Group>()
  ens [C13] $input@.len() > 65535 ==> $r is Err && $r->Err_0 == Error::Input
  ens [C13,C01] $input@.len() <= 65535 ==> $r is Ok
  ens [C01,C07] $r is Ok ==> $r->Ok_0@ == fin_out::<$CS>($input@, None, emul($evaluation_element.0, sinv(self.blind)))
end
fn OprfClient::get_blind <CS> ()
  ens [C15] $r == self.blind
end
fn OprfServer::new <CS, R> (rng)
  ens [C16] $r is Ok ==> derive_key_of::<$CS>(rng_bytes(old($rng).st(), <<$CS::Group as Group>::ScalarLen as ArrayLength>::n()), Seq::<u8>::empty(), Mode::Oprf) == Ok::<Sc<$CS::Group>, Error>($r->Ok_0.sk)
  ens [C16] final($rng).st() == rng_after(old($rng).st(), <<$CS::Group as Group>::ScalarLen as ArrayLength>::n())
  ens [C16] $r is Ok ==> $r->Ok_0.sk != szero::<$CS::Group>()
  ens [C16] $r is Err ==> derive_key_of::<$CS>(rng_bytes(old($rng).st(), <<$CS::Group as Group>::ScalarLen as ArrayLength>::n()), Seq::<u8>::empty(), Mode::Oprf) is Err
end
fn OprfServer::new_with_key <CS> (key)
  ens [C16,C10] $r is Ok ==> de_sc::<$CS::Group>($key@) == Ok::<Sc<$CS::Group>, Error>($r->Ok_0.sk)
  ens [C10,C16] $r is Err ==> $r->Err_0 == Error::Deserialization && de_sc::<$CS::Group>($key@) is Err
  ens [C16] $r is Ok ==> $r->Ok_0.sk != szero::<$CS::Group>()
end
fn OprfServer::new_from_seed <CS> (seed, info)
  ens [C16,C08] $r is Ok ==> derive_key_of::<$CS>($seed@, $info@, Mode::Oprf) == Ok::<Sc<$CS::Group>, Error>($r->Ok_0.sk)
  ens [C08] $r is Err ==> derive_key_of::<$CS>($seed@, $info@, Mode::Oprf) == Err::<Sc<$CS::Group>, Error>($r->Err_0)
  ens [C13,C08] $info@.len() > 65535 ==> $r is Err && $r->Err_0 == Error::DeriveKeyPair
  ens [C16] $r is Ok ==> $r->Ok_0.sk != szero::<$CS::Group>()
end
fn OprfServer::blind_evaluate <CS> (blinded_element)
  ens [C01] $r.0 == emul($blinded_element.0, self.sk)
end
fn OprfServer::evaluate <CS> (input)
  ens [C13] ($input@.len() > 65535 || hash_group::<$CS>($input@, Mode::Oprf) == ident::<$CS::Group>()) ==> $r is Err && $r->Err_0 == Error::Input
  ens [C13,C01] ($input@.len() <= 65535 && hash_group::<$CS>($input@, Mode::Oprf) != ident::<$CS::Group>()) ==> $r is Ok
  ens [C01,C07] $r is Ok ==> $r->Ok_0@ == fin_out::<$CS>($input@, None, emul(hash_group::<$CS>($input@, Mode::Oprf), self.sk))
end
fn oprf::finalize_after_unblind <CS, I, IE> (items, _unused)
  ens [C01] $r.inf() == $items.inf()
  ens [C01] !$items.inf() ==> $r.seq().len() == $items.seq().len()
  ens [C07] forall|i: int| 0 <= i < $items.seq().len() && !$items.inf() && $items.seq()[i].0.vx_as_ref_s()@.len() <= 65535 ==> (#[trigger] $r.seq()[i]) == fin_res::<$CS>($items.seq()[i].0.vx_as_ref_s()@, None, $items.seq()[i].1)
  ens [C13] forall|i: int| 0 <= i < $items.seq().len() && !$items.inf() ==> (($items.seq()[i].0.vx_as_ref_s()@.len() <= 65535) == ((#[trigger] $r.seq()[i]) is Ok)) && ($items.seq()[i].0.vx_as_ref_s()@.len() > 65535 ==> $r.seq()[i]->Err_0 == Error::Input)
  ens forall|i: int| 0 <= i < $items.seq().len() && !$items.inf() ==> (#[trigger] $r.seq()[i]) == fin_res::<$CS>($items.seq()[i].0.vx_as_ref_s()@, None, $items.seq()[i].1)
end
