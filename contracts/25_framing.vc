## ------------------------------------------------------------ C07: framing is injective, tags are separated
module common {
//@F lemma::be16_injective|C07
 pub proof fn lm_be16_inj(a: int, b: int)
  requires 0 <= a <= 65535, 0 <= b <= 65535
  ensures
    be16(a) == be16(b) ==> a == b, //@E lemma::be16_injective|0|C07
 {
  assert(be16(a)[0] == be16(b)[0] && be16(a)[1] == be16(b)[1] || be16(a) != be16(b));
 }
//@f
//@F lemma::framing_injective|C07
 /// two framed hash inputs that start the same way have the same first field and the same rest
 pub proof fn lm_frame(a: Seq<u8>, x: Seq<u8>, b: Seq<u8>, y: Seq<u8>)
  requires a.len() <= 65535, b.len() <= 65535, be16(a.len() as int) + a + x == be16(b.len() as int) + b + y
  ensures
    a == b && x == y, //@E lemma::framing_injective|0|C07
 {
  let s = be16(a.len() as int) + a + x; let t = be16(b.len() as int) + b + y;
  assert(s.subrange(0, 2) =~= be16(a.len() as int)); assert(t.subrange(0, 2) =~= be16(b.len() as int));
  lm_be16_inj(a.len() as int, b.len() as int);
  assert(s.subrange(2, 2 + a.len() as int) =~= a); assert(t.subrange(2, 2 + b.len() as int) =~= b);
  assert(s.skip(2 + a.len() as int) =~= x); assert(t.skip(2 + b.len() as int) =~= y);
 }
 /// without info
 pub proof fn lm_fin_inj_none(i: Seq<u8>, e: Seq<u8>, j: Seq<u8>, f: Seq<u8>)
  requires i.len() <= 65535, j.len() <= 65535, e.len() <= 65535, f.len() <= 65535, fin_msg(i, None, e) == fin_msg(j, None, f)
  ensures
    i == j && e == f, //@E lemma::framing_injective|1|C07
 {
  let x = be16(e.len() as int) + e + p_finalize(); let y = be16(f.len() as int) + f + p_finalize();
  assert(fin_msg(i, None, e) =~= be16(i.len() as int) + i + x); assert(fin_msg(j, None, f) =~= be16(j.len() as int) + j + y);
  lm_frame(i, x, j, y); lm_frame(e, p_finalize(), f, p_finalize());
 }
 /// with info
 #[verifier::rlimit(60)]
 pub proof fn lm_fin_inj_some(i: Seq<u8>, n: Seq<u8>, e: Seq<u8>, j: Seq<u8>, m: Seq<u8>, f: Seq<u8>)
  requires i.len() <= 65535, j.len() <= 65535, n.len() <= 65535, m.len() <= 65535, e.len() <= 65535, f.len() <= 65535, fin_msg(i, Some(n), e) == fin_msg(j, Some(m), f)
  ensures
    i == j && n == m && e == f, //@E lemma::framing_injective|2|C07
 {
  let x2 = be16(e.len() as int) + e + p_finalize(); let y2 = be16(f.len() as int) + f + p_finalize();
  let x = be16(n.len() as int) + n + x2; let y = be16(m.len() as int) + m + y2;
  assert(fin_msg(i, Some(n), e) =~= be16(i.len() as int) + i + x); assert(fin_msg(j, Some(m), f) =~= be16(j.len() as int) + j + y);
  lm_frame(i, x, j, y); lm_frame(n, x2, m, y2); lm_frame(e, p_finalize(), f, p_finalize());
 }
 /// with and without info never coincide
 pub proof fn lm_fin_inj_mixed(i: Seq<u8>, e: Seq<u8>, j: Seq<u8>, m: Seq<u8>, f: Seq<u8>)
  requires i.len() <= 65535, j.len() <= 65535, m.len() <= 65535, e.len() <= 65535, f.len() <= 65535
  ensures
    fin_msg(i, None, e) != fin_msg(j, Some(m), f), //@E lemma::framing_injective|3|C07
 {
  if fin_msg(i, None, e) == fin_msg(j, Some(m), f) {
    let x = be16(e.len() as int) + e + p_finalize();
    let y2 = be16(f.len() as int) + f + p_finalize();
    let y = be16(m.len() as int) + m + y2;
    assert(fin_msg(i, None, e) =~= be16(i.len() as int) + i + x); assert(fin_msg(j, Some(m), f) =~= be16(j.len() as int) + j + y);
    lm_frame(i, x, j, y); lm_frame(e, p_finalize(), m, y2);
    assert(p_finalize().len() == 8);
    assert(y2.len() == 10 + f.len());
  }
 }
//@f
//@F lemma::tags_separated|C07
 /// one operation's tags differ between modes and suites
 pub proof fn lm_dst_inj<C1: CipherSuite, C2: CipherSuite>(p: Seq<u8>, m1: Mode, m2: Mode)
  requires dst_of::<C1>(p, m1) == dst_of::<C2>(p, m2)
  ensures
    m1 == m2 && id_of::<C1>() == id_of::<C2>(), //@E lemma::tags_separated|0|C07
 {
  let a = dst_of::<C1>(p, m1); let b = dst_of::<C2>(p, m2);
  assert(a[p.len() as int + 7] == mode_n(m1)); assert(b[p.len() as int + 7] == mode_n(m2));
  assert(a.skip(p.len() as int + 9) =~= id_of::<C1>()); assert(b.skip(p.len() as int + 9) =~= id_of::<C2>());
 }
 /// different operations never share a tag
 pub proof fn lm_dst_ops<C1: CipherSuite, C2: CipherSuite>(m1: Mode, m2: Mode)
  ensures
    dst_of::<C1>(p_h2g(), m1) != dst_of::<C2>(p_h2s(), m2), //@E lemma::tags_separated|1|C07
    dst_of::<C1>(p_h2g(), m1) != dst_of::<C2>(p_dkp(), m2), //@E lemma::tags_separated|2|C07
    dst_of::<C1>(p_h2g(), m1) != dst_of::<C2>(p_seed(), m2), //@E lemma::tags_separated|3|C07
    dst_of::<C1>(p_h2s(), m1) != dst_of::<C2>(p_dkp(), m2), //@E lemma::tags_separated|4|C07
    dst_of::<C1>(p_h2s(), m1) != dst_of::<C2>(p_seed(), m2), //@E lemma::tags_separated|5|C07
    dst_of::<C1>(p_dkp(), m1) != dst_of::<C2>(p_seed(), m2), //@E lemma::tags_separated|6|C07
 {
  assert(dst_of::<C1>(p_h2g(), m1)[0] == 72u8 && dst_of::<C1>(p_h2g(), m1)[6] == 71u8);
  assert(dst_of::<C2>(p_h2s(), m2)[0] == 72u8 && dst_of::<C2>(p_h2s(), m2)[6] == 83u8);
  assert(dst_of::<C1>(p_h2s(), m1)[0] == 72u8);
  assert(dst_of::<C2>(p_dkp(), m2)[0] == 68u8); assert(dst_of::<C1>(p_dkp(), m1)[0] == 68u8);
  assert(dst_of::<C2>(p_seed(), m2)[0] == 83u8);
 }
//@f
}
