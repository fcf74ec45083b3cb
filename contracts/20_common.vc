## Byte-string helpers
fn common::i2osp_2 <> (n)
  ens [C07,C13] $r == i2osp_2_s($n)
end
fn common::i2osp_2_array <L> (a)
  req $L::n() <= 65535
  ens [C07] $r@ == be16($L::n() as int)
end
fn common::chain_update_multi <T> (d, datas)
  ens [C07] acc($r) == acc($d) + flat($datas@)
  start {
    let ghost vx_d0 = acc(vx_self);
    proof { lm_flat_all($datas@); }
  }
  loop ()
    inv acc(vx_self) == vx_d0 + flat($datas@.take($k))
    inv $it == refs($datas@)
    start {
      lm_flat_take($datas@, $k - 1);
    }
  end
end

## Domain separation tags
fn Dst::new <L, CS, T, TL> (par_1, mode)
  req <$T as IntoSpec<GenericArray<u8, $TL>>>::obeys_into_spec()
  req $TL::n() <= 1000
  ens [C05,C07,C08] dst_bytes($r) == dst_of::<$CS>(<$T as IntoSpec<GenericArray<u8, $TL>>>::into_spec($par_1)@, $mode)
  ens dst_bytes($r).len() <= 65535
  start {
    proof { id_link::<$CS>(); }
  }
end
fn Dst::as_dst <L> ()
  ens [C07] flat($r@) == dst_bytes(*self)
  start {
    proof { reveal_with_fuel(flat, 4); }
  }
end
fn Dst::i2osp_2 <L> ()
  req dst_bytes(*self).len() <= 65535
  ens [C05] $r@ == be16(dst_bytes(*self).len() as int)
end
module common {
/// the tag's bytes
pub open spec fn dst_bytes<L: ArrayLength>(d: Dst<L>) -> Seq<u8> { d.dst_1@ + d.dst_2.spec_bytes() }
}

## Hashing to the group, blinding
fn common::hash_to_group <CS> (input, mode)
  call hash_to_curve 0 [C07] flat($arg@) =~= $input@
  call hash_to_curve 1 [C07] flat($arg@) == dst_of::<$CS>(p_h2g(), $mode)
  ens [C07] $r is Ok ==> $r->Ok_0 == hash_group::<$CS>($input@, $mode)
  ens [C13] $r is Ok <==> $input@.len() <= 65535
  ens [C13] $r is Err ==> $r->Err_0 == Error::Input
  start {
    proof { reveal_with_fuel(flat, 3); }
  }
end
fn common::deterministic_blind_unchecked <CS> (input, blind, mode)
  ens [C15,C01,C02,C03] $r is Ok ==> $r->Ok_0 == emul(hash_group::<$CS>($input@, $mode), *$blind)
  ens [C13] ($input@.len() > 65535 || hash_group::<$CS>($input@, $mode) == ident::<$CS::Group>()) ==> $r == Err::<El<$CS::Group>, Error>(Error::Input)
  ens [C13,C01,C02,C03] ($input@.len() <= 65535 && hash_group::<$CS>($input@, $mode) != ident::<$CS::Group>()) ==> $r is Ok
  ens $r == blind_of::<$CS>($input@, *$blind, $mode)
end

## DeriveKeyPair
fn common::derive_key_internal <CS> (seed, info, mode)
  attr verifier::rlimit(50)
  call hash_to_scalar 0 [C08] flat($arg@) =~= $seed@ + be16($info@.len() as int) + $info@ + seq![($k - 1) as u8]
  call hash_to_scalar 1 [C07,C08] flat($arg@) == dst_of::<$CS>(p_dkp(), $mode)
  ens [C08] $r == derive_key_of::<$CS>($seed@, $info@, $mode)
  ens [C13,C08] $info@.len() > 65535 ==> $r is Err && $r->Err_0 == Error::DeriveKeyPair
  ens [C08,C16] $r is Ok ==> $r->Ok_0 != szero::<$CS::Group>()
  start {
    proof { reveal_with_fuel(flat, 6); l_dk_nonzero::<$CS>($seed@, $info@, $mode, 0); }
  }
  loop ()
    inv [C08] $it.len() == 256
    inv [C08] forall|i: int| 0 <= i < 256 ==> #[trigger] $it[i] == i as u8
    inv [C08,C13] $info@.len() <= 65535
    inv [C08] dk_from::<$CS>($seed@, $info@, $mode, 0) == dk_from::<$CS>($seed@, $info@, $mode, $k)
  end
end
fn common::derive_key <CS> (seed, info, mode)
  ens [C08] $r == derive_key_of::<$CS>($seed@, $info@, $mode)
  ens [C13,C08] $info@.len() > 65535 ==> $r is Err && $r->Err_0 == Error::DeriveKeyPair
  ens [C08] $r is Ok ==> $r->Ok_0 != szero::<$CS::Group>()
end
fn common::derive_keypair <CS> (seed, info, mode)
  ens [C08] ($r is Ok) == (derive_key_of::<$CS>($seed@, $info@, $mode) is Ok)
  ens [C08] $r is Err ==> $r->Err_0 == derive_key_of::<$CS>($seed@, $info@, $mode)->Err_0
  ens [C13,C08] $info@.len() > 65535 ==> $r is Err && $r->Err_0 == Error::DeriveKeyPair
  ens [C08] $r is Ok ==> $r->Ok_0.0 == derive_key_of::<$CS>($seed@, $info@, $mode)->Ok_0
  ens [C08,C16] $r is Ok ==> $r->Ok_0.1 == emul(gen::<$CS::Group>(), $r->Ok_0.0)
  ens [C08,C16] $r is Ok ==> $r->Ok_0.0 != szero::<$CS::Group>()
end

## The output of a server's own evaluation
fn common::server_evaluate_hash_input <CS> (input, info, issued_element)
  ens [C13] ($input@.len() > 65535) ==> $r == Err::<crate::ext::digest::Output<$CS::Hash>, Error>(Error::Input)
  ens [C13] ($input@.len() <= 65535 && ($info is Some ==> $info->0@.len() <= 65535)) ==> $r is Ok
  ens [C07] $r is Ok ==> $r->Ok_0@ == dig::<$CS::Hash>(fin_msg($input@, opt_view($info), $issued_element@))
  ens $r == eval_hash::<$CS>($input@, opt_view($info), $issued_element@)
end

## Proofs
fn common::compute_composites <CS, IC, ID> (k_option, b, c_slice, d_slice, mode)
  attr verifier::rlimit(50)
  call hash_to_scalar 0 [C05,C06] flat($arg@) =~= di_msg::<$CS>(seed_of::<$CS>($b, $mode), $k - 1, $c_slice.seq()[$k - 1], $d_slice.seq()[$k - 1])
  call hash_to_scalar 1 [C07] flat($arg@) == dst_of::<$CS>(p_h2s(), $mode)
  ens [C12] ($c_slice.seq().len() != $d_slice.seq().len() || $c_slice.seq().len() > 65535) ==> $r == Err::<ComputeCompositesResult<$CS>, Error>(Error::Batch)
  ens [C12] ($c_slice.seq().len() == $d_slice.seq().len() && $c_slice.seq().len() <= 65535) ==> $r is Ok
  ens [C05,C06] $r is Ok ==> $r->Ok_0.0 == comp_m::<$CS>($b, $c_slice.seq(), $d_slice.seq(), $mode, $c_slice.seq().len() as int)
  ens [C05,C06] $r is Ok ==> $r->Ok_0.1 == (match $k_option { Some(k) => emul($r->Ok_0.0, k), None => comp_z::<$CS>($b, $c_slice.seq(), $d_slice.seq(), $mode, $c_slice.seq().len() as int) })
  start {
    proof { reveal_with_fuel(flat, 9); lx_elem_len::<$CS::Group>(); }
  }
  loop (m, z)
    inv [C12] $it.len() == $c_slice.seq().len() == $d_slice.seq().len()
    inv [C12] $it.len() <= 65535
    inv [C05,C06] forall|j: int| 0 <= j < $it.len() ==> #[trigger] $it[j] == (j as u16, ($c_slice.seq()[j], $d_slice.seq()[j]))
    inv [C05,C06] m == comp_m::<$CS>($b, $c_slice.seq(), $d_slice.seq(), $mode, $k)
    inv [C05,C06] $k_option is None ==> z == comp_z::<$CS>($b, $c_slice.seq(), $d_slice.seq(), $mode, $k)
  end
end
fn common::generate_proof <CS, R> (rng, k, a, b, cs, ds, mode)
  attr verifier::rlimit(50)
  call hash_to_scalar 0 [C06] flat($arg@) =~= chal_msg::<$CS>($b, comp_m::<$CS>($b, $cs.seq(), $ds.seq(), $mode, $cs.seq().len() as int), emul(comp_m::<$CS>($b, $cs.seq(), $ds.seq(), $mode, $cs.seq().len() as int), $k), emul($a, rnd_sc::<$CS::Group>(old($rng).st())), emul(comp_m::<$CS>($b, $cs.seq(), $ds.seq(), $mode, $cs.seq().len() as int), rnd_sc::<$CS::Group>(old($rng).st())))
  call hash_to_scalar 1 [C07] flat($arg@) == dst_of::<$CS>(p_h2s(), $mode)
  ens [C12] ($cs.seq().len() != $ds.seq().len() || $cs.seq().len() > 65535) ==> $r == Err::<Proof<$CS>, Error>(Error::Batch)
  ens [C04,C12] ($cs.seq().len() == $ds.seq().len() && $cs.seq().len() <= 65535) ==> $r is Ok
  ens [C06] $r is Ok ==> $r->Ok_0.c_scalar == prf_c::<$CS>(rnd_sc::<$CS::Group>(old($rng).st()), $k, $a, $b, $cs.seq(), $ds.seq(), $mode)
  ens [C06] $r is Ok ==> $r->Ok_0.s_scalar == ssub(rnd_sc::<$CS::Group>(old($rng).st()), smul($r->Ok_0.c_scalar, $k))
  ens [C06] $r is Ok ==> final($rng).st() == rnd_next::<$CS::Group>(old($rng).st())
  ens [C04,C02,C03] ($r is Ok && $b == emul($a, $k) && $cs.seq().len() == $ds.seq().len() && (forall|i: int| 0 <= i < $cs.seq().len() ==> #[trigger] $ds.seq()[i] == emul($cs.seq()[i], $k))) ==> ver::<$CS>($a, $b, $cs.seq(), $ds.seq(), $r->Ok_0.c_scalar, $r->Ok_0.s_scalar, $mode)
  start {
    proof {
      reveal_with_fuel(flat, 12); lx_elem_len::<$CS::Group>();
      if $b == emul($a, $k) && $cs.seq().len() == $ds.seq().len() && (forall|i: int| 0 <= i < $cs.seq().len() ==> #[trigger] $ds.seq()[i] == emul($cs.seq()[i], $k)) {
        l_complete::<$CS>(rnd_sc::<$CS::Group>($rng.st()), $k, $a, $cs.seq(), $ds.seq(), $mode);
      }
    }
  }
end
fn common::verify_proof <CS> (a, b, cs, ds, proof, mode)
  attr verifier::rlimit(50)
  call hash_to_scalar 0 [C05] flat($arg@) =~= chal_msg::<$CS>($b, comp_m::<$CS>($b, $cs.seq(), $ds.seq(), $mode, $cs.seq().len() as int), comp_z::<$CS>($b, $cs.seq(), $ds.seq(), $mode, $cs.seq().len() as int), eadd(emul($a, $proof.s_scalar), emul($b, $proof.c_scalar)), eadd(emul(comp_m::<$CS>($b, $cs.seq(), $ds.seq(), $mode, $cs.seq().len() as int), $proof.s_scalar), emul(comp_z::<$CS>($b, $cs.seq(), $ds.seq(), $mode, $cs.seq().len() as int), $proof.c_scalar)))
  call hash_to_scalar 1 [C07] flat($arg@) == dst_of::<$CS>(p_h2s(), $mode)
  ens [C12] ($cs.seq().len() != $ds.seq().len() || $cs.seq().len() > 65535) ==> $r == Err::<(), Error>(Error::Batch)
  ens [C05] $r is Ok ==> $cs.seq().len() == $ds.seq().len() && ver::<$CS>($a, $b, $cs.seq(), $ds.seq(), $proof.c_scalar, $proof.s_scalar, $mode)
  ens [C05] ($cs.seq().len() == $ds.seq().len() && $cs.seq().len() <= 65535 && $r is Err) ==> $r->Err_0 == Error::ProofVerification
  ens [C04,C02,C03] ($cs.seq().len() == $ds.seq().len() && $cs.seq().len() <= 65535 && ver::<$CS>($a, $b, $cs.seq(), $ds.seq(), $proof.c_scalar, $proof.s_scalar, $mode)) ==> $r is Ok
  start {
    proof { reveal_with_fuel(flat, 12); lx_elem_len::<$CS::Group>(); }
  }
end
