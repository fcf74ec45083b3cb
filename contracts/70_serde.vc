## ------------------------------------------------------------ serde: the codec every serde-serialized field goes through (written by hand)
fn Element::deserialize <G, D> (deserializer)
  ens [C11] (GenericArray::<u8, $G::ElemLen>::deserialize_s::<$D>($deserializer) is Ok && de_el::<$G>(GenericArray::<u8, $G::ElemLen>::deserialize_s::<$D>($deserializer)->Ok_0@) is Ok) ==> $r is Ok && $r->Ok_0 == de_el::<$G>(GenericArray::<u8, $G::ElemLen>::deserialize_s::<$D>($deserializer)->Ok_0@)->Ok_0
  ens [C11] (GenericArray::<u8, $G::ElemLen>::deserialize_s::<$D>($deserializer) is Ok && de_el::<$G>(GenericArray::<u8, $G::ElemLen>::deserialize_s::<$D>($deserializer)->Ok_0@) is Err) ==> $r is Err
  ens [C11] GenericArray::<u8, $G::ElemLen>::deserialize_s::<$D>($deserializer) is Err ==> $r is Err && $r->Err_0 == GenericArray::<u8, $G::ElemLen>::deserialize_s::<$D>($deserializer)->Err_0
end
fn Element::serialize <G, S> (self_, serializer)
  ens [C11] $r == ga::<u8, $G::ElemLen>(ser_el::<$G>(*$self_)).serialize_s::<$S>($serializer)
  ens [C11] $r is Ok ==> crate::ext::serde::ser::emitted($serializer.id(), crate::ext::serde::ser::Tok::Bytes(ser_el::<$G>(*$self_)), $r->Ok_0)
end
fn Scalar::deserialize <G, D> (deserializer)
  ens [C11] (GenericArray::<u8, $G::ScalarLen>::deserialize_s::<$D>($deserializer) is Ok && de_sc::<$G>(GenericArray::<u8, $G::ScalarLen>::deserialize_s::<$D>($deserializer)->Ok_0@) is Ok) ==> $r is Ok && $r->Ok_0 == de_sc::<$G>(GenericArray::<u8, $G::ScalarLen>::deserialize_s::<$D>($deserializer)->Ok_0@)->Ok_0
  ens [C11] (GenericArray::<u8, $G::ScalarLen>::deserialize_s::<$D>($deserializer) is Ok && de_sc::<$G>(GenericArray::<u8, $G::ScalarLen>::deserialize_s::<$D>($deserializer)->Ok_0@) is Err) ==> $r is Err
  ens [C11] GenericArray::<u8, $G::ScalarLen>::deserialize_s::<$D>($deserializer) is Err ==> $r is Err && $r->Err_0 == GenericArray::<u8, $G::ScalarLen>::deserialize_s::<$D>($deserializer)->Err_0
end
fn Scalar::serialize <G, S> (self_, serializer)
  ens [C11] $r == ga::<u8, $G::ScalarLen>(ser_sc::<$G>(*$self_)).serialize_s::<$S>($serializer)
  ens [C11] $r is Ok ==> crate::ext::serde::ser::emitted($serializer.id(), crate::ext::serde::ser::Tok::Bytes(ser_sc::<$G>(*$self_)), $r->Ok_0)
end
