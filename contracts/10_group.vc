## The Group interface: what every suite's group has to provide.
fn Group::hash_to_curve <H> (input, dst)
  ens $r == (if $dst@.len() > 0 { Ok(h2c::<Self, $H>(flat($input@), flat($dst@))) } else { Err(InternalError::Input) })
end
fn Group::hash_to_scalar <H> (input, dst)
  ens $r == (if $dst@.len() > 0 { Ok(h2s::<Self, $H>(flat($input@), flat($dst@))) } else { Err(InternalError::Input) })
end
fn Group::base_elem <> ()
  ens $r == gen::<Self>()
end
fn Group::identity_elem <> ()
  ens $r == ident::<Self>()
end
fn Group::is_identity_elem <> (elem)
  ens [C10,C13,C15,C17] $r == (Choice { b: $elem == ident::<Self>() })
end
fn Group::serialize_elem <> (elem)
  ens $r@ == ser_el::<Self>($elem)
end
fn Group::deserialize_elem <> (bits)
  ens $r == de_el::<Self>($bits@)
end
fn Group::random_scalar <R> (rng)
  ens $r == rnd_sc::<Self>(old($rng).st()), final($rng).st() == rnd_next::<Self>(old($rng).st())
end
fn Group::invert_scalar <> (scalar)
  req $scalar != szero::<Self>()
  ens $r == sinv($scalar)
end
fn Group::is_zero_scalar <> (scalar)
  ens $r == (Choice { b: $scalar == szero::<Self>() })
end
fn Group::serialize_scalar <> (scalar)
  ens $r@ == ser_sc::<Self>($scalar)
end
fn Group::deserialize_scalar <> (bits)
  ens $r == de_sc::<Self>($bits@)
end

## ristretto255
fn Ristretto255:Group::hash_to_curve <H> (input, dst)
  def C07,C15
  start {
    broadcast use {df_r_h2c};
  }
end
fn Ristretto255:Group::hash_to_scalar <H> (input, dst)
  def C07,C05,C08,C17
  start {
    broadcast use {df_r_h2s};
  }
end
fn Ristretto255:Group::base_elem <> ()
  def C04,C08,C16,C17
end
fn Ristretto255:Group::identity_elem <> ()
  def C10,C13,C15,C17
end
fn Ristretto255:Group::serialize_elem <> (elem)
  def C09,C11
  start {
    broadcast use {df_r_ser_el};
  }
end
fn Ristretto255:Group::deserialize_elem <> (bits)
  def C10,C11,C09
  start {
    broadcast use {df_r_un_el};
  }
end
fn Ristretto255:Group::random_scalar <R> (rng)
  def C06,C15
  attr verifier::exec_allows_no_decreases_clause
  start {
    broadcast use {df_r_rnd, df_r_rnd_next};
  }
  loop ()
    inv rnd_sc::<Self>($rng.st()) == rnd_sc::<Self>(old($rng).st())
    inv rnd_next::<Self>($rng.st()) == rnd_next::<Self>(old($rng).st())
  end
end
fn Ristretto255:Group::invert_scalar <> (scalar)
  def C01,C02,C03,C17
end
fn Ristretto255:Group::is_zero_scalar <> (scalar)
  def C08,C10,C16,C17
end
fn Ristretto255:Group::serialize_scalar <> (scalar)
  def C09,C11
  start {
    broadcast use {df_r_ser_sc};
  }
end
fn Ristretto255:Group::deserialize_scalar <> (bits)
  def C10,C11,C09,C16
  start {
    broadcast use {df_r_un_sc};
  }
end

## NIST curves (every curve of the elliptic-curve crate)
fn C:Group::hash_to_curve <C, H> (input, dst)
  def C07,C15
  start {
    broadcast use {df_c_h2c};
  }
end
fn C:Group::hash_to_scalar <C, H> (input, dst)
  def C07,C05,C08,C17
  start {
    broadcast use {df_c_h2s};
  }
end
fn C:Group::base_elem <C> ()
  def C04,C08,C16,C17
end
fn C:Group::identity_elem <C> ()
  def C10,C13,C15,C17
end
fn C:Group::serialize_elem <C> (elem)
  def C09,C11
  start {
    broadcast use {df_c_ser_el, dl_c_el};
  }
end
fn C:Group::deserialize_elem <C> (bits)
  def C10,C11,C09
  start {
    broadcast use {df_c_ser_el, dl_c_el};
  }
end
fn C:Group::random_scalar <C, R> (rng)
  def C06,C15
  start {
    broadcast use {df_c_rnd, df_c_rnd_next};
  }
end
fn C:Group::invert_scalar <C> (scalar)
  def C01,C02,C03,C17
end
fn C:Group::is_zero_scalar <C> (scalar)
  def C08,C10,C16,C17
end
fn C:Group::serialize_scalar <C> (scalar)
  def C09,C11
  start {
    broadcast use {df_c_ser_sc, dl_c_sc};
  }
end
fn C:Group::deserialize_scalar <C> (bits)
  def C10,C11,C09,C16
  start {
    broadcast use {df_c_ser_sc, dl_c_sc};
  }
end
