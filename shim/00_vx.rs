// Shim: opaque stand-ins for the external crates with assumed contracts.
pub mod vx {
use vstd::prelude::*;
pub use vstd::std_specs::convert::*;
pub use vstd::std_specs::cmp::*;
pub use vstd::string::*;
use core::marker::PhantomData;
use crate::error::{Error, InternalError};
use crate::common::Mode;
use crate::group::Group;
use crate::ciphersuite::CipherSuite;

/// asks for extensional equality with `s`
pub open spec fn want<T>(s: Seq<T>) -> bool { true }
pub broadcast proof fn lm_want<T>(a: Seq<T>, s: Seq<T>)
  requires a.len() == s.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == s[i]
  ensures #![trigger a.len(), want(s)] a == s
{ assert(a =~= s); }
pub open spec fn same<T>(a: T, b: T) -> bool { a == b }

#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }
/// std::thread::panicking(): any answer
#[verifier::external_body] pub fn vx_panicking() -> bool { unimplemented!() }

// ------------------------------------------------------------------ bytes
pub open spec fn be16(n: int) -> Seq<u8> { seq![((n / 256) % 256) as u8, (n % 256) as u8] }
pub open spec fn flat(s: Seq<&[u8]>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::<u8>::empty() } else { flat(s.drop_last()) + s.last()@ } }

pub proof fn lm_flat_take(s: Seq<&[u8]>, k: int) requires 0 <= k < s.len() ensures flat(s.take(k + 1)) == flat(s.take(k)) + s[k]@
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn lm_flat_all(s: Seq<&[u8]>) ensures s.take(s.len() as int) == s, flat(s.take(0)) == Seq::<u8>::empty() { assert(s.take(s.len() as int) =~= s); }
pub broadcast proof fn lm_seq_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
  ensures #[trigger] (a + (b + c)) == (a + b) + c
{ assert((a + (b + c)) =~= (a + b) + c); }
pub broadcast proof fn lm_seq_empty_l(a: Seq<u8>)
  ensures #[trigger] (Seq::<u8>::empty() + a) == a
{ assert((Seq::<u8>::empty() + a) =~= a); }
pub broadcast proof fn lm_seq_empty_r(a: Seq<u8>)
  ensures #[trigger] (a + Seq::<u8>::empty()) == a
{ assert((a + Seq::<u8>::empty()) =~= a); }
pub broadcast proof fn lm_arr1(a: [u8; 1]) ensures #[trigger] a@ == seq![a@[0]]
{ assert(a@ =~= seq![a@[0]]); }
pub broadcast proof fn lm_arr0(a: [u8; 0]) ensures #[trigger] a@ == Seq::<u8>::empty()
{ assert(a@ =~= Seq::<u8>::empty()); }

pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub broadcast proof fn lm_zeros_len(n: nat) ensures #[trigger] zeros(n).len() == n {}
pub broadcast proof fn lm_take0(s: Seq<u8>) ensures #[trigger] s.take(0) == Seq::<u8>::empty() { assert(s.take(0) =~= Seq::<u8>::empty()); }
pub broadcast proof fn lm_skip_all(s: Seq<u8>, n: int) requires n == s.len() ensures #[trigger] s.skip(n) == Seq::<u8>::empty() { assert(s.skip(n) =~= Seq::<u8>::empty()); }
pub broadcast proof fn lm_zero_pad(n: nat, k: int) requires k == 1, n >= 1 ensures seq![0u8] + #[trigger] zeros(n).skip(k) == zeros(n) { assert(seq![0u8] + zeros(n).skip(1) =~= zeros(n)); }
/// the array with a given content
pub uninterp spec fn arr<const M: usize>(s: Seq<u8>) -> [u8; M];
pub broadcast axiom fn ax_arr<const M: usize>(s: Seq<u8>) requires s.len() == M ensures (#[trigger] arr::<M>(s))@ == s;
/// the slice with a given content
pub uninterp spec fn arr_slice<const M: usize>(a: [u8; M]) -> &'static [u8];

pub trait AsRefU8 {
  spec fn vx_as_ref_s(&self) -> &[u8];
  fn vx_as_ref(&self) -> (r: &[u8]) ensures r == self.vx_as_ref_s();
}
pub uninterp spec fn slice_of<T: ?Sized>(t: &T) -> &[u8];
pub broadcast axiom fn ax_slice_of_arr<const M: usize>(a: &[u8; M]) ensures (#[trigger] slice_of::<[u8; M]>(a))@ == a@;
pub broadcast axiom fn ax_slice_of_ga<L>(a: &GenericArray<u8, L>) ensures (#[trigger] slice_of::<GenericArray<u8, L>>(a))@ == a@;
pub broadcast axiom fn ax_slice_of_vec(a: &Vec<u8>) ensures (#[trigger] slice_of::<Vec<u8>>(a))@ == a@;
impl AsRefU8 for [u8] { open spec fn vx_as_ref_s(&self) -> &[u8] { self } fn vx_as_ref(&self) -> (r: &[u8]) { self } }
impl<const M: usize> AsRefU8 for [u8; M] { open spec fn vx_as_ref_s(&self) -> &[u8] { slice_of::<[u8; M]>(self) } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl<L> AsRefU8 for GenericArray<u8, L> { open spec fn vx_as_ref_s(&self) -> &[u8] { slice_of::<GenericArray<u8, L>>(self) } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl AsRefU8 for Vec<u8> { open spec fn vx_as_ref_s(&self) -> &[u8] { slice_of::<Vec<u8>>(self) } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl<'x, T: AsRefU8 + ?Sized> AsRefU8 for &'x T { open spec fn vx_as_ref_s(&self) -> &[u8] { (**self).vx_as_ref_s() } fn vx_as_ref(&self) -> (r: &[u8]) { (**self).vx_as_ref() } }

pub trait VxBuf { type E; spec fn vx_buf(&self) -> Seq<Self::E>; }
impl<T> VxBuf for [T] { type E = T; open spec fn vx_buf(&self) -> Seq<T> { self@ } }
impl<T, const M: usize> VxBuf for [T; M] { type E = T; open spec fn vx_buf(&self) -> Seq<T> { self@ } }
impl<T, L> VxBuf for GenericArray<T, L> { type E = T; open spec fn vx_buf(&self) -> Seq<T> { self@ } }
impl<T> VxBuf for Vec<T> { type E = T; open spec fn vx_buf(&self) -> Seq<T> { self@ } }

pub trait VxCopyRange: VxBuf {
  /// `self[a..b].copy_from_slice(s)`
  fn vx_copy_range(&mut self, a: usize, b: usize, s: &[Self::E])
    requires a <= b <= old(self).vx_buf().len(), s@.len() == b - a,
    ensures final(self).vx_buf() == old(self).vx_buf().take(a as int) + s@ + old(self).vx_buf().skip(b as int);
  fn vx_copy_from_slice(&mut self, s: &[Self::E]) requires s@.len() == old(self).vx_buf().len() ensures final(self).vx_buf() == s@;
}
impl<T: VxBuf + ?Sized> VxCopyRange for T {
  #[verifier::external_body]
  fn vx_copy_range(&mut self, a: usize, b: usize, s: &[Self::E]) { unimplemented!() }
  #[verifier::external_body]
  fn vx_copy_from_slice(&mut self, s: &[Self::E]) { unimplemented!() }
}

pub trait VxSub: VxBuf {
  fn vx_sub(&self, a: usize, b: usize) -> (r: &[Self::E]) requires a <= b <= self.vx_buf().len() ensures r@ == self.vx_buf().subrange(a as int, b as int);
  fn vx_sub_from(&self, a: usize) -> (r: &[Self::E]) requires a <= self.vx_buf().len() ensures r@ == self.vx_buf().skip(a as int);
  fn vx_buf_len(&self) -> (r: usize) ensures r == self.vx_buf().len();
}
impl<T: VxBuf + ?Sized> VxSub for T {
  #[verifier::external_body] fn vx_sub(&self, a: usize, b: usize) -> (r: &[Self::E]) { unimplemented!() }
  #[verifier::external_body] fn vx_sub_from(&self, a: usize) -> (r: &[Self::E]) { unimplemented!() }
  #[verifier::external_body] fn vx_buf_len(&self) -> (r: usize) { unimplemented!() }
}
/// `&mut self[a..b]`, `&mut self[a..]`, `self.reverse()`
pub trait VxSubMut: VxBuf {
  fn vx_sub_mut<'a>(&'a mut self, a: usize, b: usize) -> (r: &'a mut [Self::E])
    requires a <= b <= old(self).vx_buf().len()
    ensures r@ == old(self).vx_buf().subrange(a as int, b as int), final(self).vx_buf() == old(self).vx_buf().take(a as int) + final(r)@ + old(self).vx_buf().skip(b as int);
  fn vx_sub_mut_from<'a>(&'a mut self, a: usize) -> (r: &'a mut [Self::E])
    requires a <= old(self).vx_buf().len()
    ensures r@ == old(self).vx_buf().skip(a as int), final(self).vx_buf() == old(self).vx_buf().take(a as int) + final(r)@;
  fn vx_reverse(&mut self) ensures final(self).vx_buf() == old(self).vx_buf().reverse();
  fn vx_swap(&mut self, a: usize, b: usize) requires a < old(self).vx_buf().len(), b < old(self).vx_buf().len()
    ensures final(self).vx_buf() == old(self).vx_buf().update(a as int, old(self).vx_buf()[b as int]).update(b as int, old(self).vx_buf()[a as int]);
  fn vx_rotate_l(&mut self, k: usize) requires k <= old(self).vx_buf().len() ensures final(self).vx_buf() == old(self).vx_buf().skip(k as int) + old(self).vx_buf().take(k as int);
  fn vx_rotate_r(&mut self, k: usize) requires k <= old(self).vx_buf().len()
    ensures final(self).vx_buf() == old(self).vx_buf().skip(old(self).vx_buf().len() - k) + old(self).vx_buf().take(old(self).vx_buf().len() - k);
  /// sorting of any kind: some permutation
  fn vx_sort(&mut self) ensures final(self).vx_buf().to_multiset() == old(self).vx_buf().to_multiset(), final(self).vx_buf().len() == old(self).vx_buf().len();
  fn vx_sort_by<F: Fn(&Self::E, &Self::E) -> core::cmp::Ordering>(&mut self, f: F) ensures final(self).vx_buf().to_multiset() == old(self).vx_buf().to_multiset(), final(self).vx_buf().len() == old(self).vx_buf().len();
  fn vx_sort_by_key<K, F: Fn(&Self::E) -> K>(&mut self, f: F) ensures final(self).vx_buf().to_multiset() == old(self).vx_buf().to_multiset(), final(self).vx_buf().len() == old(self).vx_buf().len();
  /// retain, dedup: some sub-collection
  fn vx_shrink(&mut self) ensures final(self).vx_buf().len() <= old(self).vx_buf().len();
  fn vx_retain<F: Fn(&Self::E) -> bool>(&mut self, f: F) ensures final(self).vx_buf().len() <= old(self).vx_buf().len();
  fn vx_fill(&mut self, v: Self::E) ensures final(self).vx_buf() == Seq::new(old(self).vx_buf().len(), |i: int| v);
}
impl<T: VxBuf + ?Sized> VxSubMut for T {
  #[verifier::external_body] fn vx_sub_mut<'a>(&'a mut self, a: usize, b: usize) -> (r: &'a mut [Self::E]) { unimplemented!() }
  #[verifier::external_body] fn vx_sub_mut_from<'a>(&'a mut self, a: usize) -> (r: &'a mut [Self::E]) { unimplemented!() }
  #[verifier::external_body] fn vx_reverse(&mut self) { unimplemented!() }
  #[verifier::external_body] fn vx_swap(&mut self, a: usize, b: usize) { unimplemented!() }
  #[verifier::external_body] fn vx_rotate_l(&mut self, k: usize) { unimplemented!() }
  #[verifier::external_body] fn vx_rotate_r(&mut self, k: usize) { unimplemented!() }
  #[verifier::external_body] fn vx_sort(&mut self) { unimplemented!() }
  #[verifier::external_body] fn vx_sort_by<F: Fn(&Self::E, &Self::E) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
  #[verifier::external_body] fn vx_sort_by_key<K, F: Fn(&Self::E) -> K>(&mut self, f: F) { unimplemented!() }
  #[verifier::external_body] fn vx_shrink(&mut self) { unimplemented!() }
  #[verifier::external_body] fn vx_retain<F: Fn(&Self::E) -> bool>(&mut self, f: F) { unimplemented!() }
  #[verifier::external_body] fn vx_fill(&mut self, v: Self::E) { unimplemented!() }
}
pub trait VxLen { spec fn vx_len_s(&self) -> usize; }
impl<T> VxLen for [T] { open spec fn vx_len_s(&self) -> usize { self@.len() as usize } }
impl<T, const M: usize> VxLen for [T; M] { open spec fn vx_len_s(&self) -> usize { self@.len() as usize } }
impl<T> VxLen for Vec<T> { open spec fn vx_len_s(&self) -> usize { self@.len() as usize } }
impl<T, L> VxLen for GenericArray<T, L> { open spec fn vx_len_s(&self) -> usize { self@.len() as usize } }
impl VxLen for str { open spec fn vx_len_s(&self) -> usize { self.spec_bytes().len() as usize } }
impl<'x, T: VxLen + ?Sized> VxLen for &'x T { open spec fn vx_len_s(&self) -> usize { (**self).vx_len_s() } }

pub broadcast axiom fn ax_slice_len(s: &[u8]) ensures #[trigger] s@.len() <= usize::MAX;

// to_be_bytes
pub trait VxToBe: Sized { type Out; spec fn vx_to_be_bytes_s(self) -> Self::Out; fn vx_to_be_bytes(self) -> (r: Self::Out) ensures r == self.vx_to_be_bytes_s(); spec fn vx_to_le_bytes_s(self) -> Self::Out; fn vx_to_le_bytes(self) -> (r: Self::Out) ensures r == self.vx_to_le_bytes_s(); }
impl VxToBe for u8 { type Out = [u8; 1];
  open spec fn vx_to_be_bytes_s(self) -> [u8; 1] { arr::<1>(seq![self]) }
  #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 1]) { unimplemented!() }
  open spec fn vx_to_le_bytes_s(self) -> [u8; 1] { arr::<1>(seq![self]) }
  #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 1]) { unimplemented!() } }
impl VxToBe for u16 { type Out = [u8; 2];
  open spec fn vx_to_be_bytes_s(self) -> [u8; 2] { arr::<2>(be16(self as int)) }
  #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 2]) { unimplemented!() }
  open spec fn vx_to_le_bytes_s(self) -> [u8; 2] { arr::<2>(seq![(self % 256) as u8, (self / 256) as u8]) }
  #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 2]) { unimplemented!() } }
impl VxToBe for u32 { type Out = [u8; 4];
  open spec fn vx_to_be_bytes_s(self) -> [u8; 4] { arr::<4>(be16((self as int / 65536)) + be16(self as int % 65536)) }
  #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 4]) { unimplemented!() }
  uninterp spec fn vx_to_le_bytes_s(self) -> [u8; 4];
  #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 4]) { unimplemented!() } }
impl VxToBe for usize { type Out = [u8; 8];
  uninterp spec fn vx_to_be_bytes_s(self) -> [u8; 8];
  #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 8]) { unimplemented!() }
  uninterp spec fn vx_to_le_bytes_s(self) -> [u8; 8];
  #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 8]) { unimplemented!() } }

// ------------------------------------------------------------------ typenum
pub trait ArrayLength { spec fn n() -> nat; }
pub struct N<const K: usize>;
impl<const K: usize> ArrayLength for N<K> { open spec fn n() -> nat { K as nat } }
pub trait TAdd<R>: ArrayLength { type Output: ArrayLength; }
#[verifier::external_body]
pub fn tn_usize<L: ArrayLength>() -> (r: usize) ensures r == L::n() { unimplemented!() }
#[verifier::external_body]
pub fn tn_u16<L: ArrayLength>() -> (r: u16) requires L::n() <= 65535 ensures r == L::n() { unimplemented!() }
#[verifier::external_body]
pub fn tn_u8<L: ArrayLength>() -> (r: u8) requires L::n() <= 255 ensures r == L::n() { unimplemented!() }
#[verifier::external_body]
pub fn tn_u32<L: ArrayLength>() -> (r: u32) requires L::n() <= 0xffff_ffff ensures r == L::n() { unimplemented!() }
#[verifier::external_body]
pub fn tn_u64<L: ArrayLength>() -> (r: u64) ensures r == L::n() { unimplemented!() }
pub open spec fn tn_usize_s<L: ArrayLength>() -> usize { L::n() as usize }
pub open spec fn tn_u16_s<L: ArrayLength>() -> u16 { L::n() as u16 }
pub open spec fn tn_u16_q<L: ArrayLength>() -> bool { L::n() <= 65535 }

// ------------------------------------------------------------------ generic-array
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(L)]
pub struct GenericArray<T, L>(PhantomData<(T, L)>);
impl<T, L> View for GenericArray<T, L> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub uninterp spec fn ga<T, L>(s: Seq<T>) -> GenericArray<T, L>;
pub broadcast axiom fn ax_ga_len<L: ArrayLength>(g: GenericArray<u8, L>) ensures #[trigger] g@.len() == L::n();
pub broadcast axiom fn ax_ga_view<L: ArrayLength>(g: GenericArray<u8, L>) ensures ga::<u8, L>(#[trigger] g@) == g;
pub broadcast axiom fn ax_ga_of<L: ArrayLength>(s: Seq<u8>) requires s.len() == L::n() ensures (#[trigger] ga::<u8, L>(s))@ == s;
impl<T, L> Clone for GenericArray<T, L> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T, L> Copy for GenericArray<T, L> {}
impl<L: ArrayLength> core::ops::Deref for GenericArray<u8, L> { type Target=[u8]; #[verifier::external_body] fn deref(&self) -> (r:&[u8]) ensures r@ == self@ { unimplemented!() } }
impl<const K: usize> From<[u8; K]> for GenericArray<u8, N<K>> { #[verifier::external_body] fn from(v: [u8; K]) -> (r: Self) ensures r@ == v@ { unimplemented!() } }
impl<const K: usize> FromSpecImpl<[u8; K]> for GenericArray<u8, N<K>> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: [u8; K]) -> Self { ga(v@) } }
impl<const K: usize> From<GenericArray<u8, N<K>>> for [u8; K] { #[verifier::external_body] fn from(v: GenericArray<u8, N<K>>) -> (r: Self) ensures r@ == v@ { unimplemented!() } }
impl<const K: usize> FromSpecImpl<GenericArray<u8, N<K>>> for [u8; K] { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: GenericArray<u8, N<K>>) -> Self { arr::<K>(v@) } }
impl<L: ArrayLength> GenericArray<u8, L> {
  #[verifier::external_body]
  pub fn default() -> (r: Self) ensures r@ == zeros(L::n()) { unimplemented!() }
  pub open spec fn default_s() -> Self { ga(zeros(L::n())) }
  #[verifier::external_body]
  pub fn concat<M: ArrayLength>(self, o: GenericArray<u8, M>) -> (r: GenericArray<u8, <L as TAdd<M>>::Output>) where L: TAdd<M>
    ensures r == self.concat_s(o), r@ == self@ + o@ { unimplemented!() }
  pub open spec fn concat_s<M: ArrayLength>(self, o: GenericArray<u8, M>) -> GenericArray<u8, <L as TAdd<M>>::Output> where L: TAdd<M> { ga(self@ + o@) }
  #[verifier::external_body]
  pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn ga_concat_len<A: TAdd<B>, B: ArrayLength>() ensures <A as TAdd<B>>::Output::n() == A::n() + B::n() { }

// ------------------------------------------------------------------ subtle
#[derive(Clone, Copy)]
pub struct Choice { pub b: bool }
impl From<Choice> for bool { fn from(v: Choice) -> (r: bool) { v.b } }
impl FromSpecImpl<Choice> for bool { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Choice) -> bool { v.b } }
impl Choice {
  pub open spec fn op_not_s(self) -> Choice { Choice { b: !self.b } }
  pub fn op_not(self) -> (r: Choice) ensures r == self.op_not_s() { Choice { b: !self.b } }
  pub fn unwrap_u8(&self) -> (r: u8) ensures r == (if self.b { 1u8 } else { 0u8 }) { if self.b { 1 } else { 0 } }
}
pub trait VxIntoS<T> { spec fn into_s(self) -> T; }
impl VxIntoS<bool> for Choice { open spec fn into_s(self) -> bool { self.b } }
impl<T> VxIntoS<Option<T>> for CtOption<T> { open spec fn into_s(self) -> Option<T> { self.o() } }
impl<const K: usize> VxIntoS<GenericArray<u8, N<K>>> for [u8; K] { open spec fn into_s(self) -> GenericArray<u8, N<K>> { ga(self@) } }
impl<const K: usize> VxIntoS<[u8; K]> for GenericArray<u8, N<K>> { open spec fn into_s(self) -> [u8; K] { arr::<K>(self@) } }
pub trait ConstantTimeEq { spec fn ct_eq_s(&self, o: &Self) -> Choice; fn ct_eq(&self, o: &Self) -> (r: Choice) ensures r == self.ct_eq_s(o); }
impl<G> ConstantTimeEq for El<G> { open spec fn ct_eq_s(&self, o: &Self) -> Choice { Choice { b: *self == *o } } #[verifier::external_body] fn ct_eq(&self, o: &Self) -> (r: Choice) { unimplemented!() } }
impl<G> ConstantTimeEq for Sc<G> { open spec fn ct_eq_s(&self, o: &Self) -> Choice { Choice { b: *self == *o } } #[verifier::external_body] fn ct_eq(&self, o: &Self) -> (r: Choice) { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct CtOption<T>(PhantomData<T>);
impl<T> CtOption<T> { pub uninterp spec fn o(self) -> Option<T>;
  #[verifier::external_body]
  pub fn is_some(&self) -> (r: Choice) ensures r.b == (self.o() is Some) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_none(&self) -> (r: Choice) ensures r.b == (self.o() is None) { unimplemented!() }
  #[verifier::external_body]
  pub fn unwrap(self) -> (r: T) requires self.o() is Some ensures r == self.o().unwrap() { unimplemented!() }
}
pub uninterp spec fn mkct<T>(o: Option<T>) -> CtOption<T>;
pub broadcast axiom fn ax_mkct<T>(o: Option<T>) ensures (#[trigger] mkct::<T>(o)).o() == o;
impl<T> From<CtOption<T>> for Option<T> { #[verifier::external_body] fn from(v: CtOption<T>) -> (r: Option<T>) { unimplemented!() } }
impl<T> FromSpecImpl<CtOption<T>> for Option<T> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: CtOption<T>) -> Option<T> { v.o() } }

// ------------------------------------------------------------------ Option / Result helpers
// standard combinators vstd does not specify
pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else::<F> ](o: Option<T>, f: F) -> (r: Option<T>)
  requires o is None ==> call_requires(f, ()), ensures match o { Some(_) => r == o, None => call_ensures(f, (), r) };
pub assume_specification<T>[ Option::<T>::is_some_and ](o: Option<T>, f: impl FnOnce(T) -> bool) -> (r: bool)
  requires o is Some ==> call_requires(f, (o->0,)), ensures match o { Some(x) => call_ensures(f, (x,), r), None => !r };
pub assume_specification<T>[ Option::<T>::is_none_or ](o: Option<T>, f: impl FnOnce(T) -> bool) -> (r: bool)
  requires o is Some ==> call_requires(f, (o->0,)), ensures match o { Some(x) => call_ensures(f, (x,), r), None => r };
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
  ensures r == (match o { Some(_) => o, None => p });
pub assume_specification<T, U>[ Option::<T>::and::<U> ](o: Option<T>, p: Option<U>) -> (r: Option<U>)
  ensures r == (match o { Some(_) => p, None => None::<U> });
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
  ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or::<U, F> ](o: Option<T>, d: U, f: F) -> (r: U)
  requires o is Some ==> call_requires(f, (o->0,)), ensures match o { Some(x) => call_ensures(f, (x,), r), None => r == d };
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else::<U, D, F> ](o: Option<T>, d: D, f: F) -> (r: U)
  requires o is Some ==> call_requires(f, (o->0,)), o is None ==> call_requires(d, ()), ensures match o { Some(x) => call_ensures(f, (x,), r), None => call_ensures(d, (), r) };
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then::<U, F> ](o: Result<T, E>, f: F) -> (r: Result<U, E>)
  requires o is Ok ==> call_requires(f, (o->Ok_0,)), ensures match o { Ok(x) => call_ensures(f, (x,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification<T, E, O, F: FnOnce(E) -> Result<T, O>>[ Result::<T, E>::or_else::<O, F> ](o: Result<T, E>, f: F) -> (r: Result<T, O>)
  requires o is Err ==> call_requires(f, (o->Err_0,)), ensures match o { Ok(x) => r == Ok::<T, O>(x), Err(e) => call_ensures(f, (e,), r) };
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](o: Result<T, E>, d: T) -> (r: T)
  ensures r == (match o { Ok(x) => x, Err(_) => d });
pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else::<F> ](o: Result<T, E>, f: F) -> (r: T)
  requires o is Err ==> call_requires(f, (o->Err_0,)), ensures match o { Ok(x) => r == x, Err(e) => call_ensures(f, (e,), r) };
pub assume_specification<T, E, F: FnOnce(T) -> bool>[ Result::<T, E>::is_ok_and::<F> ](o: Result<T, E>, f: F) -> (r: bool)
  requires o is Ok ==> call_requires(f, (o->Ok_0,)), ensures match o { Ok(x) => call_ensures(f, (x,), r), Err(_) => !r };
pub assume_specification<T, E, U>[ Result::<T, E>::and::<U> ](o: Result<T, E>, p: Result<U, E>) -> (r: Result<U, E>)
  ensures r == (match o { Ok(_) => p, Err(e) => Err::<U, E>(e) });
pub assume_specification<T>[ bool::then_some::<T> ](b: bool, t: T) -> (r: Option<T>)
  ensures r == (if b { Some(t) } else { None::<T> });

pub trait SVal<T> { spec fn s_val(self) -> T; spec fn s_okay(self) -> bool; }
impl<T> SVal<T> for Option<T> { open spec fn s_val(self) -> T { self->Some_0 } open spec fn s_okay(self) -> bool { self is Some } }
impl<T, E> SVal<T> for core::result::Result<T, E> { open spec fn s_val(self) -> T { self->Ok_0 } open spec fn s_okay(self) -> bool { self is Ok } }
pub trait SMk<B> { type Out; spec fn s_mk(self, b: B) -> Self::Out; }
impl<T, B> SMk<B> for Option<T> { type Out = Option<B>; open spec fn s_mk(self, b: B) -> Option<B> { match self { Some(_) => Some(b), None => None } } }
impl<T, E, B> SMk<B> for core::result::Result<T, E> { type Out = core::result::Result<B, E>; open spec fn s_mk(self, b: B) -> core::result::Result<B, E> { match self { Ok(_) => Ok(b), Err(e) => Err(e) } } }
pub trait SAnd<B> { spec fn s_and(self, b: B) -> B; }
impl<T, B> SAnd<Option<B>> for Option<T> { open spec fn s_and(self, b: Option<B>) -> Option<B> { match self { Some(_) => b, None => None } } }
impl<T, E, B> SAnd<core::result::Result<B, E>> for core::result::Result<T, E> { open spec fn s_and(self, b: core::result::Result<B, E>) -> core::result::Result<B, E> { match self { Ok(_) => b, Err(e) => Err(e) } } }
pub trait VxUnwrapOrDefault { type T; spec fn vx_unwrap_or_default_s(self) -> Self::T; fn vx_unwrap_or_default(self) -> (r: Self::T) ensures r == self.vx_unwrap_or_default_s(); }
pub uninterp spec fn empty_slice<'a>() -> &'a [u8];
pub broadcast axiom fn ax_empty_slice() ensures (#[trigger] empty_slice())@ == Seq::<u8>::empty();
impl<'a> VxUnwrapOrDefault for Option<&'a [u8]> { type T = &'a [u8];
  open spec fn vx_unwrap_or_default_s(self) -> &'a [u8] { match self { Some(s) => s, None => empty_slice() } }
  #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: &'a [u8]) { unimplemented!() } }
impl<const M: usize> VxUnwrapOrDefault for Option<[u8; M]> { type T = [u8; M];
  open spec fn vx_unwrap_or_default_s(self) -> [u8; M] { match self { Some(s) => s, None => arr::<M>(zeros(M as nat)) } }
  #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: [u8; M]) { unimplemented!() } }
impl<const M: usize, E> VxUnwrapOrDefault for core::result::Result<[u8; M], E> { type T = [u8; M];
  open spec fn vx_unwrap_or_default_s(self) -> [u8; M] { match self { Ok(s) => s, Err(_) => arr::<M>(zeros(M as nat)) } }
  #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: [u8; M]) { unimplemented!() } }
impl<L: ArrayLength> VxUnwrapOrDefault for Option<GenericArray<u8, L>> { type T = GenericArray<u8, L>;
  open spec fn vx_unwrap_or_default_s(self) -> GenericArray<u8, L> { match self { Some(s) => s, None => ga::<u8, L>(zeros(L::n())) } }
  #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: GenericArray<u8, L>) { unimplemented!() } }
macro_rules! vx_uod { ($($t:ty),*) => { verus! { $(
impl VxUnwrapOrDefault for Option<$t> { type T = $t; open spec fn vx_unwrap_or_default_s(self) -> $t { match self { Some(s) => s, None => 0 } } #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: $t) { unimplemented!() } }
impl<E> VxUnwrapOrDefault for core::result::Result<$t, E> { type T = $t; open spec fn vx_unwrap_or_default_s(self) -> $t { match self { Ok(s) => s, Err(_) => 0 } } #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: $t) { unimplemented!() } }
)* } } }
vx_uod!(u8, u16, u32, u64, usize);
pub trait VxFilter<T> { fn vx_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
    requires self.vx_opt_s() is Some ==> call_requires(f, (&(self.vx_opt_s()->Some_0),)),
    ensures (match self.vx_opt_s() { None => r is None, Some(v) => (r == Some(v) && call_ensures(f, (&v,), true)) || (r is None && call_ensures(f, (&v,), false)) });
  spec fn vx_opt_s(&self) -> Option<T>; }
impl<T> VxFilter<T> for Option<T> { open spec fn vx_opt_s(&self) -> Option<T> { *self } #[verifier::external_body] fn vx_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>) { unimplemented!() } }
pub trait VxTryInto<T> { spec fn vx_try_into_s(self) -> core::result::Result<T, VxSizeError>; fn vx_try_into(self) -> (r: core::result::Result<T, VxSizeError>) ensures r == self.vx_try_into_s(); }
pub struct VxSizeError;
impl core::fmt::Debug for VxSizeError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl<'a, const M: usize> VxTryInto<[u8; M]> for &'a [u8] {
  open spec fn vx_try_into_s(self) -> core::result::Result<[u8; M], VxSizeError> { if self@.len() == M { Ok(arr::<M>(self@)) } else { Err(VxSizeError) } }
  #[verifier::external_body] fn vx_try_into(self) -> (r: core::result::Result<[u8; M], VxSizeError>) { unimplemented!() } }
impl<'a, const M: usize> VxTryInto<&'a [u8; M]> for &'a [u8] {
  uninterp spec fn vx_try_into_s(self) -> core::result::Result<&'a [u8; M], VxSizeError>;
  #[verifier::external_body] fn vx_try_into(self) -> (r: core::result::Result<&'a [u8; M], VxSizeError>) { unimplemented!() } }

// ------------------------------------------------------------------ digest
pub trait OutputSizeUser { type OutputSize: ArrayLength; }
pub uninterp spec fn dig<D>(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn acc<D>(d: D) -> Seq<u8>;
pub uninterp spec fn mkd<D>(s: Seq<u8>) -> D;
pub broadcast axiom fn ax_dig_len<D: Digest>(s: Seq<u8>) ensures #[trigger] dig::<D>(s).len() == <D as OutputSizeUser>::OutputSize::n();
pub broadcast axiom fn ax_acc<D>(s: Seq<u8>) ensures acc(#[trigger] mkd::<D>(s)) == s;
pub broadcast axiom fn ax_mkd<D>(d: D) ensures mkd::<D>(#[trigger] acc::<D>(d)) == d;
pub trait Digest: OutputSizeUser + Sized {
  fn new() -> (r: Self) ensures r == mkd::<Self>(Seq::empty());
  fn chain_update<T: AsRefU8>(self, d: T) -> (r: Self) ensures r == mkd::<Self>(acc(self) + d.vx_as_ref_s()@);
  fn update<T: AsRefU8>(&mut self, d: T) ensures *final(self) == mkd::<Self>(acc(*old(self)) + d.vx_as_ref_s()@);
  fn finalize(self) -> (r: GenericArray<u8, <Self as OutputSizeUser>::OutputSize>) ensures r@ == dig::<Self>(acc(self)), r == ga::<u8, <Self as OutputSizeUser>::OutputSize>(dig::<Self>(acc(self)));
}
pub trait DigestSpec: Digest {
  spec fn new_s() -> Self; spec fn chain_update_s<T: AsRefU8>(self, d: T) -> Self; spec fn finalize_s(self) -> GenericArray<u8, <Self as OutputSizeUser>::OutputSize>;
}
impl<D: Digest> DigestSpec for D {
  open spec fn new_s() -> Self { mkd::<Self>(Seq::empty()) }
  open spec fn chain_update_s<T: AsRefU8>(self, d: T) -> Self { mkd::<Self>(acc(self) + d.vx_as_ref_s()@) }
  open spec fn finalize_s(self) -> GenericArray<u8, <Self as OutputSizeUser>::OutputSize> { ga(dig::<Self>(acc(self))) }
}

// ------------------------------------------------------------------ rand_core
#[verifier::external_body]
pub struct RngSt { _x: u8 }
pub uninterp spec fn rng_bytes(st: RngSt, n: nat) -> Seq<u8>;
pub uninterp spec fn rng_after(st: RngSt, n: nat) -> RngSt;
pub broadcast axiom fn ax_rng_len(st: RngSt, n: nat) ensures #[trigger] rng_bytes(st, n).len() == n;
pub trait CryptoRng {}
pub trait RngCore {
  spec fn st(&self) -> RngSt;
  fn fill_bytes<B: VxBuf<E = u8> + ?Sized>(&mut self, b: &mut B)
    ensures final(b).vx_buf() == rng_bytes(old(self).st(), old(b).vx_buf().len()), final(self).st() == rng_after(old(self).st(), old(b).vx_buf().len());
}

// ------------------------------------------------------------------ group elements and scalars
#[verifier::external_body]
#[verifier::reject_recursive_types(G)]
pub struct El<G>(pub PhantomData<G>);
#[verifier::external_body]
#[verifier::reject_recursive_types(G)]
pub struct Sc<G>(pub PhantomData<G>);
impl<G> Clone for El<G> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<G> Copy for El<G> {}
impl<G> Clone for Sc<G> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<G> Copy for Sc<G> {}
impl<G> PartialEq for El<G> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<T, L> PartialEqSpecImpl for GenericArray<T, L> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl<T, L> PartialEq for GenericArray<T, L> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<G> PartialEqSpecImpl for El<G> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl<G> PartialEq for Sc<G> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<G> PartialEqSpecImpl for Sc<G> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }

pub uninterp spec fn emul<G>(e: El<G>, k: Sc<G>) -> El<G>;
pub uninterp spec fn eadd<G>(a: El<G>, b: El<G>) -> El<G>;
pub uninterp spec fn esub<G>(a: El<G>, b: El<G>) -> El<G>;
pub uninterp spec fn eneg<G>(a: El<G>) -> El<G>;
pub uninterp spec fn sneg<G>(a: Sc<G>) -> Sc<G>;
pub uninterp spec fn smul<G>(a: Sc<G>, b: Sc<G>) -> Sc<G>;
pub uninterp spec fn sadd<G>(a: Sc<G>, b: Sc<G>) -> Sc<G>;
pub uninterp spec fn ssub<G>(a: Sc<G>, b: Sc<G>) -> Sc<G>;
pub uninterp spec fn sinv<G>(a: Sc<G>) -> Sc<G>;
pub uninterp spec fn szero<G>() -> Sc<G>;
pub uninterp spec fn sone<G>() -> Sc<G>;
pub uninterp spec fn ident<G>() -> El<G>;
pub uninterp spec fn gen<G>() -> El<G>;

pub trait OpMul<R>: Sized { type Output; spec fn op_mul_q(self, r: R) -> bool; spec fn op_mul_s(self, r: R) -> Self::Output; fn op_mul(self, r: R) -> (o: Self::Output) requires self.op_mul_q(r) ensures o == self.op_mul_s(r); }
pub trait OpAdd<R>: Sized { type Output; spec fn op_add_q(self, r: R) -> bool; spec fn op_add_s(self, r: R) -> Self::Output; fn op_add(self, r: R) -> (o: Self::Output) requires self.op_add_q(r) ensures o == self.op_add_s(r); }
pub trait OpNot: Sized { spec fn op_not_s(self) -> Self; fn op_not(self) -> (o: Self) ensures o == self.op_not_s(); }
impl OpNot for bool { open spec fn op_not_s(self) -> bool { !self } fn op_not(self) -> (o: bool) { !self } }
pub trait OpNeg: Sized { type Output; spec fn op_neg_s(self) -> Self::Output; fn op_neg(self) -> (o: Self::Output) ensures o == self.op_neg_s(); }
impl<G> OpNeg for El<G> { type Output = El<G>; open spec fn op_neg_s(self) -> El<G> { eneg(self) } #[verifier::external_body] fn op_neg(self) -> (o: El<G>) { unimplemented!() } }
impl<'a, G> OpNeg for &'a El<G> { type Output = El<G>; open spec fn op_neg_s(self) -> El<G> { eneg(*self) } #[verifier::external_body] fn op_neg(self) -> (o: El<G>) { unimplemented!() } }
impl<G> OpNeg for Sc<G> { type Output = Sc<G>; open spec fn op_neg_s(self) -> Sc<G> { sneg(self) } #[verifier::external_body] fn op_neg(self) -> (o: Sc<G>) { unimplemented!() } }
impl<'a, G> OpNeg for &'a Sc<G> { type Output = Sc<G>; open spec fn op_neg_s(self) -> Sc<G> { sneg(*self) } #[verifier::external_body] fn op_neg(self) -> (o: Sc<G>) { unimplemented!() } }
pub trait OpSub<R>: Sized { type Output; spec fn op_sub_q(self, r: R) -> bool; spec fn op_sub_s(self, r: R) -> Self::Output; fn op_sub(self, r: R) -> (o: Self::Output) requires self.op_sub_q(r) ensures o == self.op_sub_s(r); }
impl<'a, G> OpMul<&'a Sc<G>> for El<G> { type Output = El<G>; open spec fn op_mul_q(self, r: &'a Sc<G>) -> bool { true } open spec fn op_mul_s(self, r: &'a Sc<G>) -> El<G> { emul(self, *r) } #[verifier::external_body] fn op_mul(self, r: &'a Sc<G>) -> (o: El<G>) { unimplemented!() } }
impl<G> OpMul<Sc<G>> for El<G> { type Output = El<G>; open spec fn op_mul_q(self, r: Sc<G>) -> bool { true } open spec fn op_mul_s(self, r: Sc<G>) -> El<G> { emul(self, r) } #[verifier::external_body] fn op_mul(self, r: Sc<G>) -> (o: El<G>) { unimplemented!() } }
impl<'a, 'b, G> OpMul<&'a Sc<G>> for &'b El<G> { type Output = El<G>; open spec fn op_mul_q(self, r: &'a Sc<G>) -> bool { true } open spec fn op_mul_s(self, r: &'a Sc<G>) -> El<G> { emul(*self, *r) } #[verifier::external_body] fn op_mul(self, r: &'a Sc<G>) -> (o: El<G>) { unimplemented!() } }
impl<'a, G> OpAdd<&'a El<G>> for El<G> { type Output = El<G>; open spec fn op_add_q(self, r: &'a El<G>) -> bool { true } open spec fn op_add_s(self, r: &'a El<G>) -> El<G> { eadd(self, *r) } #[verifier::external_body] fn op_add(self, r: &'a El<G>) -> (o: El<G>) { unimplemented!() } }
impl<G> OpAdd<El<G>> for El<G> { type Output = El<G>; open spec fn op_add_q(self, r: El<G>) -> bool { true } open spec fn op_add_s(self, r: El<G>) -> El<G> { eadd(self, r) } #[verifier::external_body] fn op_add(self, r: El<G>) -> (o: El<G>) { unimplemented!() } }
impl<'a, 'b, G> OpAdd<&'a El<G>> for &'b El<G> { type Output = El<G>; open spec fn op_add_q(self, r: &'a El<G>) -> bool { true } open spec fn op_add_s(self, r: &'a El<G>) -> El<G> { eadd(*self, *r) } #[verifier::external_body] fn op_add(self, r: &'a El<G>) -> (o: El<G>) { unimplemented!() } }
impl<'a, G> OpSub<&'a El<G>> for El<G> { type Output = El<G>; open spec fn op_sub_q(self, r: &'a El<G>) -> bool { true } open spec fn op_sub_s(self, r: &'a El<G>) -> El<G> { esub(self, *r) } #[verifier::external_body] fn op_sub(self, r: &'a El<G>) -> (o: El<G>) { unimplemented!() } }
impl<G> OpSub<El<G>> for El<G> { type Output = El<G>; open spec fn op_sub_q(self, r: El<G>) -> bool { true } open spec fn op_sub_s(self, r: El<G>) -> El<G> { esub(self, r) } #[verifier::external_body] fn op_sub(self, r: El<G>) -> (o: El<G>) { unimplemented!() } }
impl<'a, 'b, G> OpSub<&'a El<G>> for &'b El<G> { type Output = El<G>; open spec fn op_sub_q(self, r: &'a El<G>) -> bool { true } open spec fn op_sub_s(self, r: &'a El<G>) -> El<G> { esub(*self, *r) } #[verifier::external_body] fn op_sub(self, r: &'a El<G>) -> (o: El<G>) { unimplemented!() } }
impl<'a, G> OpMul<&'a Sc<G>> for Sc<G> { type Output = Sc<G>; open spec fn op_mul_q(self, r: &'a Sc<G>) -> bool { true } open spec fn op_mul_s(self, r: &'a Sc<G>) -> Sc<G> { smul(self, *r) } #[verifier::external_body] fn op_mul(self, r: &'a Sc<G>) -> (o: Sc<G>) { unimplemented!() } }
impl<G> OpMul<Sc<G>> for Sc<G> { type Output = Sc<G>; open spec fn op_mul_q(self, r: Sc<G>) -> bool { true } open spec fn op_mul_s(self, r: Sc<G>) -> Sc<G> { smul(self, r) } #[verifier::external_body] fn op_mul(self, r: Sc<G>) -> (o: Sc<G>) { unimplemented!() } }
impl<'a, 'b, G> OpMul<&'a Sc<G>> for &'b Sc<G> { type Output = Sc<G>; open spec fn op_mul_q(self, r: &'a Sc<G>) -> bool { true } open spec fn op_mul_s(self, r: &'a Sc<G>) -> Sc<G> { smul(*self, *r) } #[verifier::external_body] fn op_mul(self, r: &'a Sc<G>) -> (o: Sc<G>) { unimplemented!() } }
impl<'a, G> OpAdd<&'a Sc<G>> for Sc<G> { type Output = Sc<G>; open spec fn op_add_q(self, r: &'a Sc<G>) -> bool { true } open spec fn op_add_s(self, r: &'a Sc<G>) -> Sc<G> { sadd(self, *r) } #[verifier::external_body] fn op_add(self, r: &'a Sc<G>) -> (o: Sc<G>) { unimplemented!() } }
impl<G> OpAdd<Sc<G>> for Sc<G> { type Output = Sc<G>; open spec fn op_add_q(self, r: Sc<G>) -> bool { true } open spec fn op_add_s(self, r: Sc<G>) -> Sc<G> { sadd(self, r) } #[verifier::external_body] fn op_add(self, r: Sc<G>) -> (o: Sc<G>) { unimplemented!() } }
impl<'a, 'b, G> OpAdd<&'a Sc<G>> for &'b Sc<G> { type Output = Sc<G>; open spec fn op_add_q(self, r: &'a Sc<G>) -> bool { true } open spec fn op_add_s(self, r: &'a Sc<G>) -> Sc<G> { sadd(*self, *r) } #[verifier::external_body] fn op_add(self, r: &'a Sc<G>) -> (o: Sc<G>) { unimplemented!() } }
impl<'a, G> OpSub<&'a Sc<G>> for Sc<G> { type Output = Sc<G>; open spec fn op_sub_q(self, r: &'a Sc<G>) -> bool { true } open spec fn op_sub_s(self, r: &'a Sc<G>) -> Sc<G> { ssub(self, *r) } #[verifier::external_body] fn op_sub(self, r: &'a Sc<G>) -> (o: Sc<G>) { unimplemented!() } }
impl<G> OpSub<Sc<G>> for Sc<G> { type Output = Sc<G>; open spec fn op_sub_q(self, r: Sc<G>) -> bool { true } open spec fn op_sub_s(self, r: Sc<G>) -> Sc<G> { ssub(self, r) } #[verifier::external_body] fn op_sub(self, r: Sc<G>) -> (o: Sc<G>) { unimplemented!() } }
impl<'a, 'b, G> OpSub<&'a Sc<G>> for &'b Sc<G> { type Output = Sc<G>; open spec fn op_sub_q(self, r: &'a Sc<G>) -> bool { true } open spec fn op_sub_s(self, r: &'a Sc<G>) -> Sc<G> { ssub(*self, *r) } #[verifier::external_body] fn op_sub(self, r: &'a Sc<G>) -> (o: Sc<G>) { unimplemented!() } }
impl OpAdd<usize> for usize { type Output = usize; open spec fn op_add_q(self, r: usize) -> bool { self + r <= usize::MAX } open spec fn op_add_s(self, r: usize) -> usize { (self + r) as usize } fn op_add(self, r: usize) -> (o: usize) { self + r } }
impl OpSub<usize> for usize { type Output = usize; open spec fn op_sub_q(self, r: usize) -> bool { self >= r } open spec fn op_sub_s(self, r: usize) -> usize { (self - r) as usize } fn op_sub(self, r: usize) -> (o: usize) { self - r } }
impl OpMul<usize> for usize { type Output = usize; open spec fn op_mul_q(self, r: usize) -> bool { self * r <= usize::MAX } open spec fn op_mul_s(self, r: usize) -> usize { (self * r) as usize } fn op_mul(self, r: usize) -> (o: usize) { self * r } }
impl OpAdd<u8> for u8 { type Output = u8; open spec fn op_add_q(self, r: u8) -> bool { self + r <= u8::MAX } open spec fn op_add_s(self, r: u8) -> u8 { (self + r) as u8 } fn op_add(self, r: u8) -> (o: u8) { self + r } }
impl OpSub<u8> for u8 { type Output = u8; open spec fn op_sub_q(self, r: u8) -> bool { self >= r } open spec fn op_sub_s(self, r: u8) -> u8 { (self - r) as u8 } fn op_sub(self, r: u8) -> (o: u8) { self - r } }
impl OpMul<u8> for u8 { type Output = u8; open spec fn op_mul_q(self, r: u8) -> bool { self * r <= u8::MAX } open spec fn op_mul_s(self, r: u8) -> u8 { (self * r) as u8 } fn op_mul(self, r: u8) -> (o: u8) { self * r } }
impl OpAdd<u16> for u16 { type Output = u16; open spec fn op_add_q(self, r: u16) -> bool { self + r <= u16::MAX } open spec fn op_add_s(self, r: u16) -> u16 { (self + r) as u16 } fn op_add(self, r: u16) -> (o: u16) { self + r } }
impl OpSub<u16> for u16 { type Output = u16; open spec fn op_sub_q(self, r: u16) -> bool { self >= r } open spec fn op_sub_s(self, r: u16) -> u16 { (self - r) as u16 } fn op_sub(self, r: u16) -> (o: u16) { self - r } }
impl OpMul<u16> for u16 { type Output = u16; open spec fn op_mul_q(self, r: u16) -> bool { self * r <= u16::MAX } open spec fn op_mul_s(self, r: u16) -> u16 { (self * r) as u16 } fn op_mul(self, r: u16) -> (o: u16) { self * r } }
impl OpAdd<u32> for u32 { type Output = u32; open spec fn op_add_q(self, r: u32) -> bool { self + r <= u32::MAX } open spec fn op_add_s(self, r: u32) -> u32 { (self + r) as u32 } fn op_add(self, r: u32) -> (o: u32) { self + r } }
impl OpSub<u32> for u32 { type Output = u32; open spec fn op_sub_q(self, r: u32) -> bool { self >= r } open spec fn op_sub_s(self, r: u32) -> u32 { (self - r) as u32 } fn op_sub(self, r: u32) -> (o: u32) { self - r } }
impl OpMul<u32> for u32 { type Output = u32; open spec fn op_mul_q(self, r: u32) -> bool { self * r <= u32::MAX } open spec fn op_mul_s(self, r: u32) -> u32 { (self * r) as u32 } fn op_mul(self, r: u32) -> (o: u32) { self * r } }
impl OpAdd<u64> for u64 { type Output = u64; open spec fn op_add_q(self, r: u64) -> bool { self + r <= u64::MAX } open spec fn op_add_s(self, r: u64) -> u64 { (self + r) as u64 } fn op_add(self, r: u64) -> (o: u64) { self + r } }
impl OpSub<u64> for u64 { type Output = u64; open spec fn op_sub_q(self, r: u64) -> bool { self >= r } open spec fn op_sub_s(self, r: u64) -> u64 { (self - r) as u64 } fn op_sub(self, r: u64) -> (o: u64) { self - r } }
impl OpMul<u64> for u64 { type Output = u64; open spec fn op_mul_q(self, r: u64) -> bool { self * r <= u64::MAX } open spec fn op_mul_s(self, r: u64) -> u64 { (self * r) as u64 } fn op_mul(self, r: u64) -> (o: u64) { self * r } }

// ------------------------------------------------------------------ zeroize
pub uninterp spec fn el_wiped<G>(e: El<G>) -> bool;
pub uninterp spec fn sc_wiped<G>(e: Sc<G>) -> bool;
pub trait VxZod { spec fn wiped(&self) -> bool; fn vx_zod(&mut self) ensures final(self).wiped(); }
impl<G> VxZod for El<G> { open spec fn wiped(&self) -> bool { el_wiped(*self) } #[verifier::external_body] fn vx_zod(&mut self) { unimplemented!() } }
impl<G> VxZod for Sc<G> { open spec fn wiped(&self) -> bool { sc_wiped(*self) } #[verifier::external_body] fn vx_zod(&mut self) { unimplemented!() } }
pub trait Zeroize: VxZod { fn zeroize(&mut self) ensures final(self).wiped(); }
impl<T: VxZod> Zeroize for T { fn zeroize(&mut self) { self.vx_zod() } }
impl<L> VxZod for GenericArray<u8, L> { open spec fn wiped(&self) -> bool { true } #[verifier::external_body] fn vx_zod(&mut self) { unimplemented!() } }
impl<const M: usize> VxZod for [u8; M] { open spec fn wiped(&self) -> bool { true } #[verifier::external_body] fn vx_zod(&mut self) { unimplemented!() } }
impl VxZod for Vec<u8> { open spec fn wiped(&self) -> bool { true } #[verifier::external_body] fn vx_zod(&mut self) { unimplemented!() } }
impl<G> El<G> { #[verifier::external_body] pub fn zeroize(&mut self) ensures el_wiped(*final(self)) { unimplemented!() } }
impl<G> Sc<G> { #[verifier::external_body] pub fn zeroize(&mut self) ensures sc_wiped(*final(self)) { unimplemented!() } }

// ------------------------------------------------------------------ iterators
pub trait Iterator: Sized { type Item;
  spec fn inf(&self) -> bool;
  spec fn seq(&self) -> Seq<Self::Item>;
  spec fn at(&self, i: int) -> Self::Item;
  fn next(&mut self) -> (r: Option<Self::Item>)
    ensures final(self).inf() == old(self).inf(),
      !old(self).inf() ==> (if old(self).seq().len() == 0 { r is None && final(self).seq() == old(self).seq() } else { r == Some(old(self).seq()[0]) && final(self).seq() == old(self).seq().drop_first() }),
      old(self).inf() ==> r == Some(old(self).at(0)) && forall|i: int| #[trigger] final(self).at(i) == old(self).at(i + 1);
}
pub open spec fn it_has<I: Iterator>(x: I, i: int) -> bool { 0 <= i && (x.inf() || i < x.seq().len()) }
pub open spec fn it_at<I: Iterator>(x: I, i: int) -> I::Item { if x.inf() { x.at(i) } else { x.seq()[i] } }
pub trait ExactSizeIterator: Iterator { fn len(&self) -> (r: usize) ensures !self.inf(), r == self.seq().len(); }
pub trait IntoIterator: Sized { type Item; type IntoIter: Iterator<Item = Self::Item>; spec fn iter_s(self) -> Self::IntoIter; fn into_iter(self) -> (r: Self::IntoIter) ensures r == self.iter_s(); }
impl<I: Iterator> IntoIterator for I { type Item = I::Item; type IntoIter = I; open spec fn iter_s(self) -> I { self } fn into_iter(self) -> (r: I) { self } }
pub broadcast axiom fn ax_exact<I: ExactSizeIterator>(i: I) ensures !(#[trigger] i.inf()), i.seq().len() <= usize::MAX;
pub trait IterExt: Iterator {
  fn map<B, F: Fn(Self::Item) -> B>(self, f: F) -> (r: Map<Self, B>)
    requires forall|i: int| #![trigger self.seq()[i]] 0 <= i < self.seq().len() && !self.inf() ==> call_requires(f, (self.seq()[i],)),
      self.inf() ==> forall|i: int| 0 <= i ==> call_requires(f, (#[trigger] self.at(i),))
    ensures r.inf() == self.inf(),
      !self.inf() ==> r.seq().len() == self.seq().len() && (forall|i: int| 0 <= i < self.seq().len() ==> call_ensures(f, (self.seq()[i],), #[trigger] r.seq()[i])),
      self.inf() ==> forall|i: int| 0 <= i ==> call_ensures(f, (self.at(i),), #[trigger] r.at(i));
  fn zip<U: IntoIterator>(self, u: U) -> (r: Zip<Self, U::IntoIter>) ensures r == (Zip { a: self, b: u.iter_s() });
  fn collect<V: FromIter<Self::Item>>(self) -> (r: V) requires !self.inf() ensures r.items() == self.seq();
  fn enumerate(self) -> (r: Zip<VxRange<usize>, Self>) requires !self.inf() ensures r.b == self, r.a.lo@ == 0, r.a.hi@ == self.seq().len();
  fn take(self, n: usize) -> (r: SeqIter<Self::Item>) ensures !self.inf() ==> r.seq() == self.seq().take(if n < self.seq().len() { n as int } else { self.seq().len() as int }), self.inf() ==> r.seq() == Seq::new(n as nat, |i: int| self.at(i));
  fn skip(self, n: usize) -> (r: SeqIter<Self::Item>) requires !self.inf() ensures r.seq() == self.seq().skip(if n < self.seq().len() { n as int } else { self.seq().len() as int });
  fn rev(self) -> (r: SeqIter<Self::Item>) requires !self.inf() ensures r.seq() == self.seq().reverse();
  fn step_by(self, n: usize) -> (r: SeqIter<Self::Item>) requires !self.inf(), n > 0 ensures r.seq() == Seq::new((self.seq().len() + n - 1) as nat / n as nat, |i: int| self.seq()[i * n]);
  fn chain<U: IntoIterator<Item = Self::Item>>(self, u: U) -> (r: SeqIter<Self::Item>) requires !self.inf(), !u.iter_s().inf() ensures r.seq() == self.seq() + u.iter_s().seq();
  fn count(self) -> (r: usize) requires !self.inf() ensures r == self.seq().len();
  fn last(self) -> (r: Option<Self::Item>) requires !self.inf() ensures r == (if self.seq().len() == 0 { None } else { Some(self.seq().last()) });
  /// what passes the filter is among the items, nothing more is said
  fn vx_filter<F: Fn(&Self::Item) -> bool>(self, f: F) -> (r: SeqIter<Self::Item>)
    requires !self.inf(), forall|x: &Self::Item| #[trigger] call_requires(f, (x,))
    ensures r.seq().len() <= self.seq().len(), forall|i: int| 0 <= i < r.seq().len() ==> self.seq().contains(#[trigger] r.seq()[i]);
  fn any<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: bool)
    requires !old(self).inf(), forall|i: int| 0 <= i < old(self).seq().len() ==> call_requires(f, (#[trigger] old(self).seq()[i],))
    ensures r ==> exists|i: int| 0 <= i < old(self).seq().len() && call_ensures(f, (#[trigger] old(self).seq()[i],), true), !r ==> forall|i: int| 0 <= i < old(self).seq().len() ==> call_ensures(f, (#[trigger] old(self).seq()[i],), false);
  fn all<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: bool)
    requires !old(self).inf(), forall|i: int| 0 <= i < old(self).seq().len() ==> call_requires(f, (#[trigger] old(self).seq()[i],))
    ensures !r ==> exists|i: int| 0 <= i < old(self).seq().len() && call_ensures(f, (#[trigger] old(self).seq()[i],), false), r ==> forall|i: int| 0 <= i < old(self).seq().len() ==> call_ensures(f, (#[trigger] old(self).seq()[i],), true);
  fn position<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: Option<usize>)
    requires !old(self).inf(), forall|i: int| 0 <= i < old(self).seq().len() ==> call_requires(f, (#[trigger] old(self).seq()[i],))
    ensures r is Some ==> r->0 < old(self).seq().len() && call_ensures(f, (old(self).seq()[r->0 as int],), true) && forall|i: int| 0 <= i < r->0 ==> call_ensures(f, (#[trigger] old(self).seq()[i],), false), r is None ==> forall|i: int| 0 <= i < old(self).seq().len() ==> call_ensures(f, (#[trigger] old(self).seq()[i],), false);
  fn rposition<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: Option<usize>)
    requires !old(self).inf(), forall|i: int| 0 <= i < old(self).seq().len() ==> call_requires(f, (#[trigger] old(self).seq()[i],))
    ensures r is Some ==> r->0 < old(self).seq().len() && call_ensures(f, (old(self).seq()[r->0 as int],), true) && forall|i: int| r->0 < i < old(self).seq().len() ==> call_ensures(f, (#[trigger] old(self).seq()[i],), false), r is None ==> forall|i: int| 0 <= i < old(self).seq().len() ==> call_ensures(f, (#[trigger] old(self).seq()[i],), false);
}
pub open spec fn derefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub trait IterRefExt<'a, T: 'a>: Iterator<Item = &'a T> {
  fn copied(self) -> (r: SeqIter<T>) where T: Copy requires !self.inf() ensures r.seq() == derefs(self.seq());
  fn cloned(self) -> (r: SeqIter<T>) where T: Clone requires !self.inf() ensures r.seq().len() == self.seq().len(), forall|i: int| 0 <= i < self.seq().len() ==> cloned::<T>(*self.seq()[i], #[trigger] r.seq()[i]);
}
impl<'a, T: 'a, I: Iterator<Item = &'a T>> IterRefExt<'a, T> for I {
  #[verifier::external_body] fn copied(self) -> (r: SeqIter<T>) where T: Copy { unimplemented!() }
  #[verifier::external_body] fn cloned(self) -> (r: SeqIter<T>) where T: Clone { unimplemented!() }
}
impl<I: Iterator> IterExt for I {
  #[verifier::external_body] fn map<B, F: Fn(Self::Item) -> B>(self, f: F) -> (r: Map<Self, B>) { unimplemented!() }
  #[verifier::external_body] fn zip<U: IntoIterator>(self, u: U) -> (r: Zip<Self, U::IntoIter>) { unimplemented!() }
  #[verifier::external_body] fn collect<V: FromIter<Self::Item>>(self) -> (r: V) { unimplemented!() }
  #[verifier::external_body] fn enumerate(self) -> (r: Zip<VxRange<usize>, Self>) { unimplemented!() }
  #[verifier::external_body] fn take(self, n: usize) -> (r: SeqIter<Self::Item>) { unimplemented!() }
  #[verifier::external_body] fn skip(self, n: usize) -> (r: SeqIter<Self::Item>) { unimplemented!() }
  #[verifier::external_body] fn rev(self) -> (r: SeqIter<Self::Item>) { unimplemented!() }
  #[verifier::external_body] fn step_by(self, n: usize) -> (r: SeqIter<Self::Item>) { unimplemented!() }
  #[verifier::external_body] fn chain<U: IntoIterator<Item = Self::Item>>(self, u: U) -> (r: SeqIter<Self::Item>) { unimplemented!() }
  #[verifier::external_body] fn count(self) -> (r: usize) { unimplemented!() }
  #[verifier::external_body] fn last(self) -> (r: Option<Self::Item>) { unimplemented!() }
  #[verifier::external_body] fn vx_filter<F: Fn(&Self::Item) -> bool>(self, f: F) -> (r: SeqIter<Self::Item>) { unimplemented!() }
  #[verifier::external_body] fn any<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: bool) { unimplemented!() }
  #[verifier::external_body] fn all<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: bool) { unimplemented!() }
  #[verifier::external_body] fn position<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: Option<usize>) { unimplemented!() }
  #[verifier::external_body] fn rposition<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: Option<usize>) { unimplemented!() }
}
pub trait FromIter<T> { spec fn items(&self) -> Seq<T>; }
impl<T> FromIter<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ } }

#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(B)]
pub struct Map<I, B>(PhantomData<(I, B)>);
impl<I: Iterator, B> Iterator for Map<I, B> { type Item = B;
  uninterp spec fn inf(&self) -> bool; uninterp spec fn seq(&self) -> Seq<B>; uninterp spec fn at(&self, i: int) -> B;
  #[verifier::external_body] fn next(&mut self) -> (r: Option<B>) { unimplemented!() } }
impl<I: ExactSizeIterator, B> ExactSizeIterator for Map<I, B> { #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() } }
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct Zip<A, B> { pub a: A, pub b: B }
pub open spec fn zip_len<A: Iterator, B: Iterator>(a: A, b: B) -> nat { if a.inf() { b.seq().len() } else if b.inf() { a.seq().len() } else if a.seq().len() < b.seq().len() { a.seq().len() } else { b.seq().len() } }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> { type Item = (A::Item, B::Item);
  open spec fn inf(&self) -> bool { self.a.inf() && self.b.inf() }
  open spec fn seq(&self) -> Seq<(A::Item, B::Item)> { Seq::new(zip_len(self.a, self.b), |i: int| (it_at(self.a, i), it_at(self.b, i))) }
  open spec fn at(&self, i: int) -> (A::Item, B::Item) { (it_at(self.a, i), it_at(self.b, i)) }
  #[verifier::external_body] fn next(&mut self) -> (r: Option<(A::Item, B::Item)>) { unimplemented!() } }
impl<A: ExactSizeIterator, B: ExactSizeIterator> ExactSizeIterator for Zip<A, B> { #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() } }
#[verifier::reject_recursive_types(T)]
pub struct Repeat<T> { pub v: T }
impl<T: Clone> Iterator for Repeat<T> { type Item = T;
  open spec fn inf(&self) -> bool { true } open spec fn seq(&self) -> Seq<T> { Seq::empty() } open spec fn at(&self, i: int) -> T { self.v }
  #[verifier::external_body] fn next(&mut self) -> (r: Option<T>) { unimplemented!() } }
pub fn repeat<T: Clone>(v: T) -> (r: Repeat<T>) ensures r.v == v { Repeat { v } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SeqIter<T>(PhantomData<T>);
impl<T> Iterator for SeqIter<T> { type Item = T;
  open spec fn inf(&self) -> bool { false } uninterp spec fn seq(&self) -> Seq<T>; uninterp spec fn at(&self, i: int) -> T;
  #[verifier::external_body] fn next(&mut self) -> (r: Option<T>) { unimplemented!() } }
impl<T> ExactSizeIterator for SeqIter<T> { #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() } }
pub uninterp spec fn mkseq<T>(s: Seq<T>) -> SeqIter<T>;
pub broadcast axiom fn ax_mkseq<T>(s: Seq<T>) ensures (#[trigger] mkseq::<T>(s)).seq() == s;
#[verifier::external_body]
pub fn once<T>(v: T) -> (r: SeqIter<T>) ensures r.seq() == seq![v] { unimplemented!() }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'a, T> IntoIterator for &'a [T] { type Item = &'a T; type IntoIter = SeqIter<&'a T>; open spec fn iter_s(self) -> SeqIter<&'a T> { mkseq(refs(self@)) } #[verifier::external_body] fn into_iter(self) -> (r: SeqIter<&'a T>) { unimplemented!() } }
impl<'a, T> IntoIterator for &'a Vec<T> { type Item = &'a T; type IntoIter = SeqIter<&'a T>; open spec fn iter_s(self) -> SeqIter<&'a T> { mkseq(refs(self@)) } #[verifier::external_body] fn into_iter(self) -> (r: SeqIter<&'a T>) { unimplemented!() } }
impl<'a, T, const M: usize> IntoIterator for &'a [T; M] { type Item = &'a T; type IntoIter = SeqIter<&'a T>; open spec fn iter_s(self) -> SeqIter<&'a T> { mkseq(refs(self@)) } #[verifier::external_body] fn into_iter(self) -> (r: SeqIter<&'a T>) { unimplemented!() } }
impl<T> IntoIterator for Vec<T> { type Item = T; type IntoIter = SeqIter<T>; open spec fn iter_s(self) -> SeqIter<T> { mkseq(self@) } #[verifier::external_body] fn into_iter(self) -> (r: SeqIter<T>) { unimplemented!() } }
impl<T, const M: usize> IntoIterator for [T; M] { type Item = T; type IntoIter = SeqIter<T>; open spec fn iter_s(self) -> SeqIter<T> { mkseq(self@) } #[verifier::external_body] fn into_iter(self) -> (r: SeqIter<T>) { unimplemented!() } }
pub trait VxIter<T> { fn vx_iter<'a>(&'a self) -> (r: SeqIter<&'a T>) ensures r.seq() == refs(self.vx_items()); spec fn vx_items(&self) -> Seq<T>; }
impl<T> VxIter<T> for [T] { open spec fn vx_items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: SeqIter<&'a T>) { unimplemented!() } }

impl<L> VxIter<u8> for GenericArray<u8, L> { open spec fn vx_items(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: SeqIter<&'a u8>) { unimplemented!() } }
impl<'a, L> IntoIterator for &'a GenericArray<u8, L> { type Item = &'a u8; type IntoIter = SeqIter<&'a u8>; open spec fn iter_s(self) -> SeqIter<&'a u8> { mkseq(refs(self@)) } #[verifier::external_body] fn into_iter(self) -> (r: SeqIter<&'a u8>) { unimplemented!() } }
impl<L> IntoIterator for GenericArray<u8, L> { type Item = u8; type IntoIter = SeqIter<u8>; open spec fn iter_s(self) -> SeqIter<u8> { mkseq(self@) } #[verifier::external_body] fn into_iter(self) -> (r: SeqIter<u8>) { unimplemented!() } }

/// `x[i] = v`
pub trait VxSet<T> { spec fn vx_seq(&self) -> Seq<T>;
  fn vx_set(&mut self, i: usize, v: T) requires i < old(self).vx_seq().len() ensures final(self).vx_seq() == old(self).vx_seq().update(i as int, v); }
impl<T> VxSet<T> for [T] { open spec fn vx_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_set(&mut self, i: usize, v: T) { unimplemented!() } }
impl<T, const M: usize> VxSet<T> for [T; M] { open spec fn vx_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_set(&mut self, i: usize, v: T) { unimplemented!() } }
impl<T> VxSet<T> for Vec<T> { open spec fn vx_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_set(&mut self, i: usize, v: T) { unimplemented!() } }
impl<L> VxSet<u8> for GenericArray<u8, L> { open spec fn vx_seq(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_set(&mut self, i: usize, v: u8) { unimplemented!() } }

// pure functions of std about which little or nothing is claimed
pub trait VxSliceExt { spec fn vx_sl(&self) -> Seq<u8>;
  fn vx_strip_prefix<B: VxBuf<E = u8> + ?Sized>(&self, p: &B) -> (r: Option<&[u8]>) ensures r is Some <==> p.vx_buf().len() <= self.vx_sl().len() && self.vx_sl().take(p.vx_buf().len() as int) == p.vx_buf(), r is Some ==> r->0@ == self.vx_sl().skip(p.vx_buf().len() as int);
  fn vx_strip_suffix<B: VxBuf<E = u8> + ?Sized>(&self, p: &B) -> (r: Option<&[u8]>) ensures r is Some <==> p.vx_buf().len() <= self.vx_sl().len() && self.vx_sl().skip(self.vx_sl().len() - p.vx_buf().len()) == p.vx_buf(), r is Some ==> r->0@ == self.vx_sl().take(self.vx_sl().len() - p.vx_buf().len());
  fn vx_trim(&self) -> (r: &[u8]) ensures r@.len() <= self.vx_sl().len();
}
impl VxSliceExt for [u8] { open spec fn vx_sl(&self) -> Seq<u8> { self@ }
  #[verifier::external_body] fn vx_strip_prefix<B: VxBuf<E = u8> + ?Sized>(&self, p: &B) -> (r: Option<&[u8]>) { unimplemented!() }
  #[verifier::external_body] fn vx_strip_suffix<B: VxBuf<E = u8> + ?Sized>(&self, p: &B) -> (r: Option<&[u8]>) { unimplemented!() }
  #[verifier::external_body] fn vx_trim(&self) -> (r: &[u8]) { unimplemented!() }
}
pub trait VxStrExt {
  fn vx_trim(&self) -> (r: &str);
  fn vx_trim_with<T>(&self, t: T) -> (r: &str);
}
impl VxStrExt for str {
  #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
  #[verifier::external_body] fn vx_trim_with<T>(&self, t: T) -> (r: &str) { unimplemented!() }
}
/// a static cell: what is read from it is arbitrary, what is written to it is lost
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VxCell<T>(pub PhantomData<T>);
#[derive(Clone, Copy)] pub struct VxOrdering;
impl<T> VxCell<T> {
  #[verifier::external_body] pub fn any() -> (r: Self) { unimplemented!() }
  #[verifier::external_body] pub fn load<O>(&self, o: O) -> T { unimplemented!() }
  #[verifier::external_body] pub fn store<O>(&self, v: T, o: O) { unimplemented!() }
  #[verifier::external_body] pub fn vx_swap<O>(&self, v: T, o: O) -> T { unimplemented!() }
  #[verifier::external_body] pub fn fetch_add<O>(&self, v: T, o: O) -> T { unimplemented!() }
  #[verifier::external_body] pub fn fetch_sub<O>(&self, v: T, o: O) -> T { unimplemented!() }
  #[verifier::external_body] pub fn fetch_or<O>(&self, v: T, o: O) -> T { unimplemented!() }
  #[verifier::external_body] pub fn fetch_xor<O>(&self, v: T, o: O) -> T { unimplemented!() }
  #[verifier::external_body] pub fn compare_exchange<O, P>(&self, a: T, b: T, o: O, p: P) -> core::result::Result<T, T> { unimplemented!() }
}
pub trait OpBits<R>: Sized { type Output;
  spec fn op_or_s(self, r: R) -> Self::Output; fn op_or(self, r: R) -> (o: Self::Output) ensures o == self.op_or_s(r);
  spec fn op_and_s(self, r: R) -> Self::Output; fn op_and(self, r: R) -> (o: Self::Output) ensures o == self.op_and_s(r);
  spec fn op_xor_s(self, r: R) -> Self::Output; fn op_xor(self, r: R) -> (o: Self::Output) ensures o == self.op_xor_s(r); }
impl OpBits<Choice> for Choice { type Output = Choice;
  open spec fn op_or_s(self, r: Choice) -> Choice { Choice { b: self.b || r.b } } #[verifier::external_body] fn op_or(self, r: Choice) -> (o: Choice) { unimplemented!() }
  open spec fn op_and_s(self, r: Choice) -> Choice { Choice { b: self.b && r.b } } #[verifier::external_body] fn op_and(self, r: Choice) -> (o: Choice) { unimplemented!() }
  open spec fn op_xor_s(self, r: Choice) -> Choice { Choice { b: self.b != r.b } } #[verifier::external_body] fn op_xor(self, r: Choice) -> (o: Choice) { unimplemented!() } }
impl OpBits<bool> for bool { type Output = bool;
  open spec fn op_or_s(self, r: bool) -> bool { self || r } #[verifier::external_body] fn op_or(self, r: bool) -> (o: bool) { unimplemented!() }
  open spec fn op_and_s(self, r: bool) -> bool { self && r } #[verifier::external_body] fn op_and(self, r: bool) -> (o: bool) { unimplemented!() }
  open spec fn op_xor_s(self, r: bool) -> bool { self != r } #[verifier::external_body] fn op_xor(self, r: bool) -> (o: bool) { unimplemented!() } }
impl OpBits<u8> for u8 { type Output = u8;
  open spec fn op_or_s(self, r: u8) -> u8 { self | r } #[verifier::external_body] fn op_or(self, r: u8) -> (o: u8) { unimplemented!() }
  open spec fn op_and_s(self, r: u8) -> u8 { self & r } #[verifier::external_body] fn op_and(self, r: u8) -> (o: u8) { unimplemented!() }
  open spec fn op_xor_s(self, r: u8) -> u8 { self ^ r } #[verifier::external_body] fn op_xor(self, r: u8) -> (o: u8) { unimplemented!() } }
impl OpBits<u16> for u16 { type Output = u16;
  open spec fn op_or_s(self, r: u16) -> u16 { self | r } #[verifier::external_body] fn op_or(self, r: u16) -> (o: u16) { unimplemented!() }
  open spec fn op_and_s(self, r: u16) -> u16 { self & r } #[verifier::external_body] fn op_and(self, r: u16) -> (o: u16) { unimplemented!() }
  open spec fn op_xor_s(self, r: u16) -> u16 { self ^ r } #[verifier::external_body] fn op_xor(self, r: u16) -> (o: u16) { unimplemented!() } }
impl OpBits<u32> for u32 { type Output = u32;
  open spec fn op_or_s(self, r: u32) -> u32 { self | r } #[verifier::external_body] fn op_or(self, r: u32) -> (o: u32) { unimplemented!() }
  open spec fn op_and_s(self, r: u32) -> u32 { self & r } #[verifier::external_body] fn op_and(self, r: u32) -> (o: u32) { unimplemented!() }
  open spec fn op_xor_s(self, r: u32) -> u32 { self ^ r } #[verifier::external_body] fn op_xor(self, r: u32) -> (o: u32) { unimplemented!() } }
impl OpBits<u64> for u64 { type Output = u64;
  open spec fn op_or_s(self, r: u64) -> u64 { self | r } #[verifier::external_body] fn op_or(self, r: u64) -> (o: u64) { unimplemented!() }
  open spec fn op_and_s(self, r: u64) -> u64 { self & r } #[verifier::external_body] fn op_and(self, r: u64) -> (o: u64) { unimplemented!() }
  open spec fn op_xor_s(self, r: u64) -> u64 { self ^ r } #[verifier::external_body] fn op_xor(self, r: u64) -> (o: u64) { unimplemented!() } }
impl OpBits<usize> for usize { type Output = usize;
  open spec fn op_or_s(self, r: usize) -> usize { self | r } #[verifier::external_body] fn op_or(self, r: usize) -> (o: usize) { unimplemented!() }
  open spec fn op_and_s(self, r: usize) -> usize { self & r } #[verifier::external_body] fn op_and(self, r: usize) -> (o: usize) { unimplemented!() }
  open spec fn op_xor_s(self, r: usize) -> usize { self ^ r } #[verifier::external_body] fn op_xor(self, r: usize) -> (o: usize) { unimplemented!() } }
pub trait VxIntExt: Sized {
  fn vxi_is_power_of_two(self) -> bool; fn vxi_count_ones(self) -> u32; fn vxi_count_zeros(self) -> u32; fn vxi_ilog2(self) -> u32; fn vxi_div_ceil(self, o: Self) -> Self;
  fn vxi_rotate_left(self, n: u32) -> Self; fn vxi_rotate_right(self, n: u32) -> Self; fn vxi_swap_bytes(self) -> Self; fn vxi_reverse_bits(self) -> Self;
  fn vxi_is_multiple_of(self, o: Self) -> bool; fn vxi_next_power_of_two(self) -> Self;
}
impl VxIntExt for u8 {
  #[verifier::external_body] fn vxi_is_power_of_two(self) -> bool { unimplemented!() } #[verifier::external_body] fn vxi_count_ones(self) -> u32 { unimplemented!() } #[verifier::external_body] fn vxi_count_zeros(self) -> u32 { unimplemented!() }
  #[verifier::external_body] fn vxi_ilog2(self) -> u32 { unimplemented!() } #[verifier::external_body] fn vxi_div_ceil(self, o: Self) -> Self { unimplemented!() }
  #[verifier::external_body] fn vxi_rotate_left(self, n: u32) -> Self { unimplemented!() } #[verifier::external_body] fn vxi_rotate_right(self, n: u32) -> Self { unimplemented!() }
  #[verifier::external_body] fn vxi_swap_bytes(self) -> Self { unimplemented!() } #[verifier::external_body] fn vxi_reverse_bits(self) -> Self { unimplemented!() }
  #[verifier::external_body] fn vxi_is_multiple_of(self, o: Self) -> bool { unimplemented!() } #[verifier::external_body] fn vxi_next_power_of_two(self) -> Self { unimplemented!() } }
impl VxIntExt for u16 {
  #[verifier::external_body] fn vxi_is_power_of_two(self) -> bool { unimplemented!() } #[verifier::external_body] fn vxi_count_ones(self) -> u32 { unimplemented!() } #[verifier::external_body] fn vxi_count_zeros(self) -> u32 { unimplemented!() }
  #[verifier::external_body] fn vxi_ilog2(self) -> u32 { unimplemented!() } #[verifier::external_body] fn vxi_div_ceil(self, o: Self) -> Self { unimplemented!() }
  #[verifier::external_body] fn vxi_rotate_left(self, n: u32) -> Self { unimplemented!() } #[verifier::external_body] fn vxi_rotate_right(self, n: u32) -> Self { unimplemented!() }
  #[verifier::external_body] fn vxi_swap_bytes(self) -> Self { unimplemented!() } #[verifier::external_body] fn vxi_reverse_bits(self) -> Self { unimplemented!() }
  #[verifier::external_body] fn vxi_is_multiple_of(self, o: Self) -> bool { unimplemented!() } #[verifier::external_body] fn vxi_next_power_of_two(self) -> Self { unimplemented!() } }
impl VxIntExt for u32 {
  #[verifier::external_body] fn vxi_is_power_of_two(self) -> bool { unimplemented!() } #[verifier::external_body] fn vxi_count_ones(self) -> u32 { unimplemented!() } #[verifier::external_body] fn vxi_count_zeros(self) -> u32 { unimplemented!() }
  #[verifier::external_body] fn vxi_ilog2(self) -> u32 { unimplemented!() } #[verifier::external_body] fn vxi_div_ceil(self, o: Self) -> Self { unimplemented!() }
  #[verifier::external_body] fn vxi_rotate_left(self, n: u32) -> Self { unimplemented!() } #[verifier::external_body] fn vxi_rotate_right(self, n: u32) -> Self { unimplemented!() }
  #[verifier::external_body] fn vxi_swap_bytes(self) -> Self { unimplemented!() } #[verifier::external_body] fn vxi_reverse_bits(self) -> Self { unimplemented!() }
  #[verifier::external_body] fn vxi_is_multiple_of(self, o: Self) -> bool { unimplemented!() } #[verifier::external_body] fn vxi_next_power_of_two(self) -> Self { unimplemented!() } }
impl VxIntExt for u64 {
  #[verifier::external_body] fn vxi_is_power_of_two(self) -> bool { unimplemented!() } #[verifier::external_body] fn vxi_count_ones(self) -> u32 { unimplemented!() } #[verifier::external_body] fn vxi_count_zeros(self) -> u32 { unimplemented!() }
  #[verifier::external_body] fn vxi_ilog2(self) -> u32 { unimplemented!() } #[verifier::external_body] fn vxi_div_ceil(self, o: Self) -> Self { unimplemented!() }
  #[verifier::external_body] fn vxi_rotate_left(self, n: u32) -> Self { unimplemented!() } #[verifier::external_body] fn vxi_rotate_right(self, n: u32) -> Self { unimplemented!() }
  #[verifier::external_body] fn vxi_swap_bytes(self) -> Self { unimplemented!() } #[verifier::external_body] fn vxi_reverse_bits(self) -> Self { unimplemented!() }
  #[verifier::external_body] fn vxi_is_multiple_of(self, o: Self) -> bool { unimplemented!() } #[verifier::external_body] fn vxi_next_power_of_two(self) -> Self { unimplemented!() } }
impl VxIntExt for usize {
  #[verifier::external_body] fn vxi_is_power_of_two(self) -> bool { unimplemented!() } #[verifier::external_body] fn vxi_count_ones(self) -> u32 { unimplemented!() } #[verifier::external_body] fn vxi_count_zeros(self) -> u32 { unimplemented!() }
  #[verifier::external_body] fn vxi_ilog2(self) -> u32 { unimplemented!() } #[verifier::external_body] fn vxi_div_ceil(self, o: Self) -> Self { unimplemented!() }
  #[verifier::external_body] fn vxi_rotate_left(self, n: u32) -> Self { unimplemented!() } #[verifier::external_body] fn vxi_rotate_right(self, n: u32) -> Self { unimplemented!() }
  #[verifier::external_body] fn vxi_swap_bytes(self) -> Self { unimplemented!() } #[verifier::external_body] fn vxi_reverse_bits(self) -> Self { unimplemented!() }
  #[verifier::external_body] fn vxi_is_multiple_of(self, o: Self) -> bool { unimplemented!() } #[verifier::external_body] fn vxi_next_power_of_two(self) -> Self { unimplemented!() } }
pub trait VxInt: Sized { spec fn int(self) -> int; spec fn of(i: int) -> Self; }
impl VxInt for u8 { open spec fn int(self) -> int { self as int } open spec fn of(i: int) -> u8 { i as u8 } }
impl VxInt for u16 { open spec fn int(self) -> int { self as int } open spec fn of(i: int) -> u16 { i as u16 } }
impl VxInt for u32 { open spec fn int(self) -> int { self as int } open spec fn of(i: int) -> u32 { i as u32 } }
impl VxInt for usize { open spec fn int(self) -> int { self as int } open spec fn of(i: int) -> usize { i as usize } }
#[verifier::reject_recursive_types(T)]
pub struct VxRange<T> { pub lo: Ghost<int>, pub hi: Ghost<int>, pub t: PhantomData<T> }
impl<T: VxInt> Iterator for VxRange<T> { type Item = T;
  open spec fn inf(&self) -> bool { false }
  open spec fn seq(&self) -> Seq<T> { Seq::new(if self.lo@ < self.hi@ { (self.hi@ - self.lo@) as nat } else { 0 }, |i: int| T::of(self.lo@ + i)) }
  open spec fn at(&self, i: int) -> T { T::of(self.lo@ + i) }
  #[verifier::external_body] fn next(&mut self) -> (r: Option<T>) { unimplemented!() } }
impl ExactSizeIterator for VxRange<usize> { #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_range<T: VxInt>(a: T, b: T) -> (r: VxRange<T>) ensures r.lo@ == a.int(), r.hi@ == b.int() { unimplemented!() }
#[verifier::external_body]
pub fn vx_range_incl<T: VxInt>(a: T, b: T) -> (r: VxRange<T>) ensures r.lo@ == a.int(), r.hi@ == b.int() + 1 { unimplemented!() }
#[verifier::external_body]
pub fn from_ref<T>(x: &T) -> (r: &[T; 1]) ensures r@ == seq![*x] { unimplemented!() }

pub broadcast group vx_ax { lm_want, lm_seq_assoc, lm_seq_empty_l, lm_seq_empty_r, lm_arr1, lm_arr0, lm_zeros_len, lm_take0, lm_skip_all, lm_zero_pad, ax_arr, ax_slice_of_arr, ax_slice_of_ga, ax_slice_of_vec, ax_slice_len, ax_ga_len, ax_ga_view, ax_ga_of, ax_mkct, ax_empty_slice, ax_dig_len, ax_acc, ax_mkd, ax_rng_len, ax_exact, ax_mkseq }
}
