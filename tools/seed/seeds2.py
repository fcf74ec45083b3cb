S=[]
def s(id,prop,needs,breaks,edits,demo,toy=False,items=''): S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,toy=toy,items=items))
s('c01-input-window','C01','an input of more than 4096 bytes','OprfServer::evaluate hashes only the first 4096 bytes of the input to the group',
 [('oprf.rs','let input_element = hash_to_group::<CS>(input, Mode::Oprf)?;','let _ = crate::common::i2osp_2(input.len()).map_err(|_| crate::Error::Input)?;\n        let input_element = hash_to_group::<CS>(&input[..input.len().min(4096)], Mode::Oprf)?;')],
 '''let s = OprfServer::<R>::new(&mut rng(1)).unwrap();
    for n in [0usize, 1, 5, 4096, 4097, 65535] {
        let input = vec![7u8; n];
        let b = OprfClient::<R>::blind(&input, &mut rng(2)).unwrap();
        let e = s.blind_evaluate(&b.message);
        assert_eq!(b.state.finalize(&input, &e).unwrap(), s.evaluate(&input).unwrap());
    }''')
s('c02-length-sign','C02','an input of more than 32767 bytes','the client drops the top bit of the input length when it hashes the output, the server does not',
 [('voprf.rs','            .chain_update(i2osp_2(input.as_ref().len()).map_err(|_| Error::Input)?)\n            .chain_update(input.as_ref())\n            .chain_update(elem_len)','            .chain_update(\n                i2osp_2(input.as_ref().len())\n                    .map(|[hi, lo]| [hi & 0x7f, lo])\n                    .map_err(|_| Error::Input)?,\n            )\n            .chain_update(input.as_ref())\n            .chain_update(elem_len)')],
 '''let s = VoprfServer::<R>::new(&mut rng(1)).unwrap();
    for n in [0usize, 5, 32767, 32768, 40000] {
        let input = vec![7u8; n];
        let b = VoprfClient::<R>::blind(&input, &mut rng(2)).unwrap();
        let e = s.blind_evaluate(&mut rng(3), &b.message);
        assert_eq!(b.state.finalize(&input, &e.message, &e.proof, s.get_public_key()).unwrap(), s.evaluate(&input).unwrap());
    }''')
s('c03-none-info','C03','no info (None) on the server side','PoprfServer::evaluate without an info leaves the empty info\'s length prefix out of the output',
 [('poprf.rs','''        // None for info is treated the same as empty bytes
        let info = info.unwrap_or_default();

        server_evaluate_hash_input::<CS>(input, Some(info), issued_element)''','''        server_evaluate_hash_input::<CS>(input, info, issued_element)''')],
 '''let s = PoprfServer::<R>::new(&mut rng(1)).unwrap();
    assert_eq!(s.evaluate(b"input", None).unwrap(), s.evaluate(b"input", Some(b"")).unwrap());
    let b = PoprfClient::<R>::blind(b"input", &mut rng(2)).unwrap();
    let e = s.blind_evaluate(&mut rng(3), &b.message, None).unwrap();
    assert_eq!(b.state.finalize(b"input", &e.message, &e.proof, s.get_public_key(), None).unwrap(), s.evaluate(b"input", None).unwrap());''')
s('c04-empty-batch','C04','a batch of no elements','VoprfServer::batch_blind_evaluate refuses an empty batch, which prepare and finish accept',
 [('voprf.rs','''        let prepared_evaluation_elements = self
            .batch_blind_evaluate_prepare(blinded_elements.into_iter())
            .collect();''','''        if blinded_elements.into_iter().len() == 0 {
            return Err(Error::Batch);
        }

        let prepared_evaluation_elements = self
            .batch_blind_evaluate_prepare(blinded_elements.into_iter())
            .collect();''')],
 '''let s = VoprfServer::<R>::new(&mut rng(1)).unwrap();
    for n in [2usize, 1, 0] {
        let inputs: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8]).collect();
        let bs: Vec<_> = inputs.iter().map(|i| VoprfClient::<R>::blind(i, &mut rng(2)).unwrap()).collect();
        let (st, ms): (Vec<_>, Vec<_>) = bs.into_iter().map(|b| (b.state, b.message)).unzip();
        let e = s.batch_blind_evaluate(&mut rng(3), &ms).unwrap();
        let o: Vec<_> = VoprfClient::batch_finalize(&inputs, &st, &e.messages, &e.proof, s.get_public_key()).unwrap().collect::<Result<_>>().unwrap();
        assert_eq!(o.len(), n);
    }''')
s('c05-empty-batch','C05','an empty batch with an arbitrary proof','verify_proof accepts any proof for an empty batch',
 [('common.rs','''    // https://www.rfc-editor.org/rfc/rfc9497#section-2.2.2
    let (m, z)''','''    if cs.len() == 0 && ds.len() == 0 {
        return Ok(());
    }

    // https://www.rfc-editor.org/rfc/rfc9497#section-2.2.2
    let (m, z)''')],
 '''let s = VoprfServer::<R>::new(&mut rng(1)).unwrap();
    let b = VoprfClient::<R>::blind(b"input", &mut rng(2)).unwrap();
    let e = s.blind_evaluate(&mut rng(3), &b.message);
    let (i, st, ms): (Vec<Vec<u8>>, Vec<VoprfClient<R>>, Vec<EvaluationElement<R>>) = (vec![], vec![], vec![]);
    assert!(matches!(VoprfClient::batch_finalize(&i, &st, &ms, &e.proof, s.get_public_key()).map(|_| ()), Err(Error::ProofVerification)));
    let o = s.batch_blind_evaluate(&mut rng(4), &Vec::new()).unwrap();
    assert!(VoprfClient::batch_finalize(&i, &st, &ms, &o.proof, s.get_public_key()).is_ok());''')
s('c06-double-draw','C06','nothing but counting the draws','proof generation draws two scalars and throws the first away',
 [('common.rs','let r = CS::Group::random_scalar(rng);','let _ = CS::Group::random_scalar(rng);\n    let r = CS::Group::random_scalar(rng);')],
 '''let s = VoprfServer::<R>::new(&mut rng(1)).unwrap();
    let m = VoprfClient::<R>::blind(b"input", &mut rng(2)).unwrap().message;
    let (mut a, mut b) = (rng(3), rng(3));
    let _ = s.blind_evaluate(&mut a, &m);
    let _ = <G as Group>::random_scalar(&mut b);
    assert_eq!(a.next_u64(), b.next_u64());''')
s('c07-empty-info-mode','C07','an empty info','with an empty info, client and server hash the tweak under the verifiable mode\'s tag',
 [('@empty_info_mode','','')],
 '''let sk = <G as Group>::random_scalar(&mut rng(1));
    let s = PoprfServer::<R>::new_with_key(&<G as Group>::serialize_scalar(sk)).unwrap();
    for info in [b"".as_slice(), b"some info"] {
        let b = PoprfClient::<R>::blind(b"input", &mut rng(2)).unwrap();
        let e = s.blind_evaluate(&mut rng(3), &b.message, Some(info)).unwrap();
        let ctx = [b"OPRFV1-".as_slice(), &[2], b"-", R::ID.as_bytes()].concat();
        let m = <G as Group>::hash_to_scalar::<sha2::Sha512>(&[b"Info", &(info.len() as u16).to_be_bytes(), info], &[b"HashToScalar-", &ctx]).ok().unwrap();
        assert_eq!(e.message.value() * &(sk + &m), b.message.value());
    }''')
s('c08-seed-cut','C08','a seed longer than an encoded scalar','key derivation uses only the first scalar length bytes of the seed',
 [('common.rs','            &[seed, &info_len, info, &counter.to_be_bytes()],','            &[\n                &seed[..seed.len().min(<CS::Group as Group>::ScalarLen::USIZE)],\n                &info_len,\n                info,\n                &counter.to_be_bytes(),\n            ],')],
 '''let a = OprfServer::<R>::new_from_seed(&[1; 40], b"info").unwrap();
    let mut t = [1u8; 40];
    t[39] = 2;
    let b = OprfServer::<R>::new_from_seed(&t, b"info").unwrap();
    assert!(a.serialize() != b.serialize());''')
s('c09-server-pk','C09','a server whose public key is not that of its private key','PoprfServer::serialize writes a recomputed public key instead of the one the server holds',
 [('@poprf_server_pk','','')],
 '''let (a, b) = (PoprfServer::<R>::new(&mut rng(1)).unwrap(), PoprfServer::<R>::new(&mut rng(2)).unwrap());
    let x = [&a.serialize()[..32], &b.serialize()[32..]].concat();
    let s = PoprfServer::<R>::deserialize(&x).unwrap();
    assert_eq!(s.serialize().to_vec(), x);
    assert_eq!(s.get_public_key(), b.get_public_key());''')
s('c10-pk-ignored','C10','a server encoding with an invalid public key','VoprfServer::deserialize recomputes the public key and never validates the encoded one',
 [('@voprf_server_de','','')],
 '''let a = VoprfServer::<R>::new(&mut rng(1)).unwrap();
    let mut x = a.serialize();
    assert_eq!(VoprfServer::<R>::deserialize(&x).unwrap().serialize(), x);
    for b in &mut x[32..] { *b = 0xff }
    assert!(VoprfServer::<R>::deserialize(&x).is_err());
    for b in &mut x[32..] { *b = 0 }
    assert!(VoprfServer::<R>::deserialize(&x).is_err());''')
s('c11-endian-lenient','C11','an unreduced scalar whose reversed bytes are a scalar','the serde codec of scalars retries a rejected encoding with its bytes reversed',
 [('serialization.rs','''                .and_then(|bytes| G::deserialize_scalar(&bytes).map_err(D::Error::custom))''','''                .and_then(|mut bytes| {
                    G::deserialize_scalar(&bytes)
                        .or_else(|_| {
                            bytes.reverse();
                            G::deserialize_scalar(&bytes)
                        })
                        .map_err(D::Error::custom)
                })''')],
 '''let s = OprfServer::<R>::new(&mut rng(1)).unwrap();
    let mut b = s.serialize().to_vec();
    let j = serde_json::to_string(&s).unwrap();
    assert!(serde_json::from_str::<OprfServer<R>>(&j).is_ok());
    b[31] = 0xff;
    b[0] = 1;
    let good = s.serialize().to_vec().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let bad = b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    assert!(j.contains(&good));
    assert!(OprfServer::<R>::deserialize(&b).is_err());
    assert!(serde_json::from_str::<OprfServer<R>>(&j.replace(&good, &bad)).is_err());''')
s('c12-wrapped-length','C12','a batch of exactly 65536 elements','the batch length wraps: a batch of 65536 elements is proved as an empty one',
 [('common.rs','let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;','let len = match c_slice.len() {\n        len if len > usize::from(u16::MAX) + 1 => return Err(Error::Batch),\n        len => len as u16,\n    };')],
 '''let s = VoprfServer::<R>::new(&mut rng(1)).unwrap();
    let m = VoprfClient::<R>::blind(b"input", &mut rng(2)).unwrap().message;
    let p: Vec<_> = s.batch_blind_evaluate_prepare([&m].into_iter()).collect();
    for n in [65536usize, 65537] {
        let ms = vec![m.clone(); n];
        let ps = vec![p[0].clone(); n];
        assert!(matches!(s.batch_blind_evaluate_finish(&mut rng(3), ms.iter(), &ps).map(|_| ()), Err(Error::Batch)));
    }''')
s('c13-identity-input','C13','an input that hashes to the identity','PoprfServer::evaluate does not reject an input that hashes to the identity',
 [('@poprf_eval_identity','','')],
 '''let s = PoprfServer::<toy::ToySuite>::new(&mut rng(1)).unwrap();
    assert!(s.evaluate(b"input", Some(b"info")).is_ok());
    assert!(matches!(s.evaluate(b"IDENTITY", Some(b"info")), Err(Error::Input)));''',True)
s('c14-panic-drop','C14','a server dropped while a panic unwinds','VoprfServer does not wipe its key when it is dropped during unwinding',
 [('@proof_drop','','')],
 '''use core::mem::MaybeUninit;
    struct D(*mut VoprfServer<R>);
    impl Drop for D { fn drop(&mut self) { unsafe { core::ptr::drop_in_place(self.0) } } }
    let n = core::mem::size_of::<VoprfServer<R>>();
    for unwind in [false, true] {
        let mut m: Box<MaybeUninit<VoprfServer<R>>> = Box::new(MaybeUninit::new(VoprfServer::<R>::new(&mut rng(1)).unwrap()));
        let q = m.as_mut_ptr();
        let sk = unsafe { &*q }.serialize()[..32].to_vec();
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _d = D(q);
            if unwind { panic!("unwind") }
        }));
        let after = unsafe { core::slice::from_raw_parts(q as *const u8, n) }.to_vec();
        assert!(after.windows(32).all(|w| w != &sk[..]), "unwinding: {unwind}");
    }''')
s('c15-empty-input-blind','C15','an empty input','OprfClient::blind does not blind an empty input: the factor is one',
 [('oprf.rs','''        let blind = CS::Group::random_scalar(blinding_factor_rng);
        Self''','''        let mut blind = CS::Group::random_scalar(blinding_factor_rng);
        if input.is_empty() {
            // nothing to hide
            blind = blind * &CS::Group::invert_scalar(blind);
        }
        Self''')],
 '''for input in [b"x".as_slice(), b""] {
        let (a, b) = (OprfClient::<R>::blind(input, &mut rng(2)).unwrap(), OprfClient::<R>::blind(input, &mut rng(3)).unwrap());
        assert!(a.message.serialize() != b.message.serialize());
        assert!(a.state.serialize() != b.state.serialize());
    }''')
s('c16-short-seed','C16','a suite with scalars of more than 32 bytes','PoprfServer::new reads only 32 bytes from the RNG, whatever the suite\'s scalar length',
 [('@poprf_short_seed','','')],
 '''type Q = p384::NistP384;
    let mut a = rng(1);
    let s = PoprfServer::<Q>::new(&mut a).unwrap();
    let mut b = rng(1);
    let mut seed = [0u8; 48];
    b.fill_bytes(&mut seed);
    assert_eq!(s.serialize(), PoprfServer::<Q>::new_from_seed(&seed, b"").unwrap().serialize());
    assert_eq!(a.next_u64(), b.next_u64());''')
s('c17-identity-tweaked-key','C17','a public key that cancels the info\'s tweak','the client does not reject an identity tweaked key: anyone can then answer with a valid proof',
 [('poprf.rs','''    match bool::from(CS::Group::is_identity_elem(tweaked_key)) {
        true => Err(Error::Protocol),
        false => Ok(tweaked_key),
    }''','''    Ok(tweaked_key)''')],
 '''let info = b"some info";
    let ctx = [b"OPRFV1-".as_slice(), &[2], b"-", R::ID.as_bytes()].concat();
    let m = <G as Group>::hash_to_scalar::<sha2::Sha512>(&[b"Info", &(info.len() as u16).to_be_bytes(), info], &[b"HashToScalar-", &ctx]).ok().unwrap();
    let pk = <G as Group>::base_elem() * &((m - &m) - &m);
    let s = PoprfServer::<R>::new(&mut rng(1)).unwrap();
    let b = PoprfClient::<R>::blind(b"input", &mut rng(2)).unwrap();
    let e = s.blind_evaluate(&mut rng(3), &b.message, Some(info)).unwrap();
    assert!(b.state.finalize(b"input", &e.message, &e.proof, s.get_public_key(), Some(info)).is_ok());
    assert!(matches!(b.state.finalize(b"input", &e.message, &e.proof, pk, Some(info)), Err(Error::Protocol)));''')
s('c15-nist-zero-blind','C15','a random stream whose first scalar is zero on a NIST curve','random_scalar on the NIST curves may return zero',
 [('group/elliptic_curve.rs','*SecretKey::<Self>::random(rng).to_nonzero_scalar()','Scalar::<Self>::random(rng)')],
 '''struct Z(usize, Rng);
    impl RngCore for Z {
        fn next_u32(&mut self) -> u32 { rand_core::impls::next_u32_via_fill(self) }
        fn next_u64(&mut self) -> u64 { rand_core::impls::next_u64_via_fill(self) }
        fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { if self.0 > 0 { self.0 -= 1; *b = 0 } else { let mut x = [0]; self.1.fill_bytes(&mut x); *b = x[0] } } }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> core::result::Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
    }
    impl CryptoRng for Z {}
    let b = OprfClient::<P>::blind(b"input", &mut Z(32, rng(5))).unwrap();
    assert!(b.message.serialize().iter().any(|x| *x != 0));
    assert!(b.state.serialize().iter().any(|x| *x != 0));''')
s('c10-scalar-reduced','C10','an unreduced scalar encoding on ristretto255','deserialize_scalar reduces an unreduced scalar instead of rejecting it',
 [('group/ristretto.rs','.and_then(|bytes| Scalar::from_canonical_bytes(bytes).into())','.map(|bytes: [u8; 32]| Scalar::from_bytes_mod_order(bytes))')],
 '''let s = OprfServer::<R>::new(&mut rng(1)).unwrap();
    assert!(OprfServer::<R>::deserialize(&s.serialize()).is_ok());
    let mut b = s.serialize();
    b[31] = 0xff;
    assert!(OprfServer::<R>::deserialize(&b).is_err());''')
