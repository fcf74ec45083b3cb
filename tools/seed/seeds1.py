S=[]
def s(id,prop,needs,breaks,edits,demo,toy=False): S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,toy=toy))
DST_H2S='[b"HashToScalar-".as_slice(), &[b"OPRFV1-".as_slice(), &[mode], b"-", R::ID.as_bytes()].concat()].concat()'
s('c01-empty-input','C01','an empty input','OprfClient::finalize rejects an empty input that blind, blind_evaluate and OprfServer::evaluate accept',
 [('oprf.rs','''        let unblinded_element = evaluation_element.0 * &CS::Group::invert_scalar(self.blind);
        let mut outputs''','''        if input.is_empty() {
            return Err(crate::Error::Input);
        }
        let unblinded_element = evaluation_element.0 * &CS::Group::invert_scalar(self.blind);
        let mut outputs''')],
 '''let s = OprfServer::<R>::new(&mut rng(1)).unwrap();
    for n in [0usize, 1, 5, 255, 256, 65535] {
        let input = vec![7u8; n];
        let b = OprfClient::<R>::blind(&input, &mut rng(2)).unwrap();
        let e = s.blind_evaluate(&b.message);
        assert_eq!(b.state.finalize(&input, &e).unwrap(), s.evaluate(&input).unwrap());
    }''')
s('c02-max-input','C02','an input of exactly 65535 bytes','VoprfServer::evaluate rejects the longest legal input, which the blinded path accepts',
 [('voprf.rs','''        let input_element = hash_to_group::<CS>(input, Mode::Voprf)?;''','''        if input.len() >= usize::from(u16::MAX) {
            return Err(Error::Input);
        }
        let input_element = hash_to_group::<CS>(input, Mode::Voprf)?;''')],
 '''let s = VoprfServer::<R>::new(&mut rng(1)).unwrap();
    for n in [0usize, 1, 5, 65534, 65535] {
        let input = vec![7u8; n];
        let b = VoprfClient::<R>::blind(&input, &mut rng(2)).unwrap();
        let e = s.blind_evaluate(&mut rng(3), &b.message);
        assert_eq!(b.state.finalize(&input, &e.message, &e.proof, s.get_public_key()).unwrap(), s.evaluate(&input).unwrap());
    }''')
s('c03-long-info','C03','an info of 256 bytes or more','the server frames long infos with a one-byte length in its tweak, so that client and server disagree',
 [('poprf.rs','''    // context = CreateContextString(modePOPRF, suiteID)
    // framedInfo = "Info" || I2OSP(len(info), 2) || info
    // m = G.HashToScalar(framedInfo)
    // t = skS + m''','''XX''')],
 '''let s = PoprfServer::<R>::new(&mut rng(1)).unwrap();
    for n in [0usize, 1, 255, 256, 1000] {
        let (input, info) = (b"input", vec![9u8; n]);
        let b = PoprfClient::<R>::blind(input, &mut rng(2)).unwrap();
        let e = s.blind_evaluate(&mut rng(3), &b.message, Some(&info)).unwrap();
        assert_eq!(b.state.finalize(input, &e.message, &e.proof, s.get_public_key(), Some(&info)).unwrap(), s.evaluate(input, Some(&info)).unwrap());
    }''')

s('c04-batch-255','C04','a batch of more than 255 elements','the batch length is narrowed to a byte, so that proving and verifying fail for batches of 256 and more',
 [('common.rs','let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;','let len = u16::from(u8::try_from(c_slice.len()).map_err(|_| Error::Batch)?);')],
 '''let s = VoprfServer::<R>::new(&mut rng(1)).unwrap();
    for n in [1usize, 2, 255, 300] {
        let inputs: Vec<Vec<u8>> = (0..n).map(|i| (i as u32).to_be_bytes().to_vec()).collect();
        let bs: Vec<_> = inputs.iter().map(|i| VoprfClient::<R>::blind(i, &mut rng(2)).unwrap()).collect();
        let (st, ms): (Vec<_>, Vec<_>) = bs.into_iter().map(|b| (b.state, b.message)).unzip();
        let e = s.batch_blind_evaluate(&mut rng(3), &ms).unwrap();
        let o: Vec<_> = VoprfClient::batch_finalize(&inputs, &st, &e.messages, &e.proof, s.get_public_key()).unwrap().collect::<Result<_>>().unwrap();
        assert_eq!(o.len(), n);
    }''')
s('c05-unweighted-tail','C05','a batch of more than 256 elements with a wrong element beyond the 256th','composites cover the first 256 elements only: an evaluation beyond them is accepted whatever it is',
 [('common.rs','for (i, (c, d)) in (0..len).zip(c_slice.zip(d_slice)) {','for (i, (c, d)) in (0..len.min(256)).zip(c_slice.zip(d_slice)) {')],
 '''let s = VoprfServer::<R>::new(&mut rng(1)).unwrap();
    for n in [2usize, 300] {
        let inputs: Vec<Vec<u8>> = (0..n).map(|i| (i as u32).to_be_bytes().to_vec()).collect();
        let bs: Vec<_> = inputs.iter().map(|i| VoprfClient::<R>::blind(i, &mut rng(2)).unwrap()).collect();
        let (st, ms): (Vec<_>, Vec<_>) = bs.into_iter().map(|b| (b.state, b.message)).unzip();
        let mut e = s.batch_blind_evaluate(&mut rng(3), &ms).unwrap();
        e.messages[n - 1] = EvaluationElement::from_value_unchecked(e.messages[n - 1].value() + e.messages[0].value());
        assert!(VoprfClient::batch_finalize(&inputs, &st, &e.messages, &e.proof, s.get_public_key()).is_err());
    }''')
s('c06-nonce-offset','C06','a batch of more than two elements','for larger batches the proof\'s nonce is not the random draw itself: the key is added to it',
 [('common.rs','let (m, z) = compute_composites::<CS, _, _>(Some(k), b, cs, ds, mode)?;','let len = cs.len();\n    let (m, z) = compute_composites::<CS, _, _>(Some(k), b, cs, ds, mode)?;'),
  ('common.rs','let r = CS::Group::random_scalar(rng);','let mut r = CS::Group::random_scalar(rng);\n    if len > 2 {\n        r = r + &k;\n    }')],
 '''let s = VoprfServer::<R>::new(&mut rng(1)).unwrap();
    let sk = <G as Group>::deserialize_scalar(&s.serialize()[..32]).unwrap();
    for n in [1usize, 2, 3] {
        let ms: Vec<_> = (0..n).map(|i| VoprfClient::<R>::blind(&[i as u8], &mut rng(2)).unwrap().message).collect();
        let e = s.batch_blind_evaluate(&mut rng(3), &ms).unwrap();
        let r = <G as Group>::random_scalar(&mut rng(3));
        let p = e.proof.serialize();
        let c = <G as Group>::deserialize_scalar(&p[..32]).unwrap();
        assert_eq!(<G as Group>::serialize_scalar(r - &(c * &sk)).to_vec(), p[32..].to_vec());
    }''')
s('c07-empty-info-unframed','C07','an empty info','empty infos lose their length prefix in the output hash, on both sides alike',
 [('common.rs','    if let Some(info) = info {','    if let Some(info) = info.filter(|info| !info.is_empty()) {'),
  ('poprf.rs','''                .chain_update(i2osp_2(info.as_ref().len()).map_err(|_| Error::Info)?)
                .chain_update(info.as_ref())''','''                .chain_update(&i2osp_2(info.as_ref().len()).map_err(|_| Error::Info)?[..2 * usize::from(!info.is_empty())])
                .chain_update(info.as_ref())''')],
 '''let s = PoprfServer::<R>::new(&mut rng(1)).unwrap();
    let sk = <G as Group>::deserialize_scalar(&s.serialize()[..32]).unwrap();
    for info in [&b""[..], b"info"] {
        let input = b"input";
        let ctx = [b"OPRFV1-".as_slice(), &[2], b"-", R::ID.as_bytes()].concat();
        let h = <G as Group>::hash_to_curve::<sha2::Sha512>(&[input], &[b"HashToGroup-", &ctx]).ok().unwrap();
        let m = <G as Group>::hash_to_scalar::<sha2::Sha512>(&[b"Info", &(info.len() as u16).to_be_bytes(), info], &[b"HashToScalar-", &ctx]).ok().unwrap();
        let e = <G as Group>::serialize_elem(h * &<G as Group>::invert_scalar(sk + &m));
        let x = [&5u16.to_be_bytes()[..], input, &(info.len() as u16).to_be_bytes(), info, &32u16.to_be_bytes(), &e, b"Finalize"].concat();
        assert_eq!(s.evaluate(input, Some(info)).unwrap().to_vec(), sha2::Sha512::digest(&x).to_vec());
    }''')
s('c08-last-counter','C08','a seed whose first 255 hashes are zero','the last of the 256 counters of DeriveKeyPair is never tried',
 [('common.rs','for counter in 0_u8..=u8::MAX {','for counter in 0_u8..u8::MAX {')],
 '''// the toy group's hash is zero for the first n counters when the seed starts with "ZERO" + n
    for n in [0u16, 1, 254, 255] {
        let seed = [b"ZERO".as_slice(), &n.to_be_bytes(), b"seed"].concat();
        assert!(OprfServer::<toy::ToySuite>::new_from_seed(&seed, b"info").is_ok(), "counter {n}");
    }
    let seed = [b"ZERO".as_slice(), &256u16.to_be_bytes(), b"seed"].concat();
    assert!(matches!(OprfServer::<toy::ToySuite>::new_from_seed(&seed, b"info"), Err(Error::Protocol)));''',True)
s('c09-client-layout','C09','reading the bytes, not only round-tripping them','PoprfClient is serialized as element || blind instead of blind || element, consistently in both directions',
 [('@poprfclient-rot','',''),('@poprfclient','','')],
 '''let b = PoprfClient::<R>::blind(b"input", &mut rng(2)).unwrap();
    let x = b.state.serialize();
    assert_eq!(x.len(), 64);
    let r = <G as Group>::random_scalar(&mut rng(2));
    assert_eq!(x[..32].to_vec(), <G as Group>::serialize_scalar(r).to_vec());
    assert_eq!(x[32..].to_vec(), b.message.serialize().to_vec());
    assert!(PoprfClient::<R>::deserialize(&x).is_ok());''')
s('c10-noncanonical-scalar','C10','a ristretto255 scalar encoding that is not reduced','unreduced scalars are reduced instead of rejected',
 [('group/ristretto.rs','.and_then(|bytes| Scalar::from_canonical_bytes(bytes).into())','.map(Scalar::from_bytes_mod_order)')],
 '''let s = OprfServer::<R>::new(&mut rng(1)).unwrap();
    let x = s.serialize();
    assert!(OprfServer::<R>::deserialize(&x).is_ok());
    // the group order, little endian, added to the key
    let l: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];
    let (mut y, mut c) = ([0u8; 32], 0u16);
    for i in 0..32 { let t = x[i] as u16 + l[i] as u16 + c; y[i] = t as u8; c = t >> 8; }
    assert!(OprfServer::<R>::deserialize(&y).is_err());
    assert!(OprfServer::<R>::new_with_key(&y).is_err());''')
s('c11-serde-identity','C11','an encoded identity element through serde','the serde codec of elements accepts the all-zero encoding as the identity, which deserialize rejects',
 [('serialization.rs','''                .and_then(|bytes| G::deserialize_elem(&bytes).map_err(D::Error::custom))''','''                .and_then(|bytes| {
                    if bytes.iter().all(|byte| *byte == 0) {
                        return Ok(G::identity_elem());
                    }
                    G::deserialize_elem(&bytes).map_err(D::Error::custom)
                })''')],
 '''let b = VoprfClient::<R>::blind(b"input", &mut rng(2)).unwrap();
    let j = serde_json::to_value(&b.message).unwrap();
    assert!(serde_json::from_value::<BlindedElement<R>>(j.clone()).is_ok());
    let z = serde_json::from_str::<serde_json::Value>(&j.to_string().split(|c: char| c.is_ascii_digit()).filter(|p| !p.is_empty()).collect::<Vec<_>>().join("0")).unwrap();
    assert!(serde_json::from_value::<BlindedElement<R>>(z).is_err());''')
s('c12-fewer-inputs','C12','fewer inputs than evaluations in PoprfClient::batch_finalize','a batch with fewer inputs than evaluated elements is silently truncated instead of Error::Batch',
 [('poprf.rs','if unblinded_elements.len() != inputs.len() {','if unblinded_elements.len() < inputs.len() {')],
 '''let s = PoprfServer::<R>::new(&mut rng(1)).unwrap();
    let inputs: Vec<Vec<u8>> = (0..4u8).map(|i| vec![i]).collect();
    let bs: Vec<_> = inputs.iter().map(|i| PoprfClient::<R>::blind(i, &mut rng(2)).unwrap()).collect();
    let (st, ms): (Vec<_>, Vec<_>) = bs.into_iter().map(|b| (b.state, b.message)).unzip();
    let e = s.batch_blind_evaluate(&mut rng(3), &ms, None).unwrap();
    for n in 0..=4usize {
        let r = PoprfClient::batch_finalize(inputs[..n].iter().map(|x| x.as_slice()), &st, &e.messages, &e.proof, s.get_public_key(), None);
        assert_eq!(r.is_ok(), n == 4, "{n} inputs");
    }''')
s('c12-more-clients','C12','more clients than evaluations in VoprfClient::batch_finalize','extra client states are dropped silently instead of Error::Batch',
 [('common.rs','    if c_slice.len() != d_slice.len() {','    if c_slice.len() < d_slice.len() {'),('common.rs','let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;','let len = u16::try_from(d_slice.len()).map_err(|_| Error::Batch)?;')],
 '''let s = VoprfServer::<R>::new(&mut rng(1)).unwrap();
    let inputs: Vec<Vec<u8>> = (0..4u8).map(|i| vec![i]).collect();
    let bs: Vec<_> = inputs.iter().map(|i| VoprfClient::<R>::blind(i, &mut rng(2)).unwrap()).collect();
    let (st, ms): (Vec<_>, Vec<_>) = bs.into_iter().map(|b| (b.state, b.message)).unzip();
    let e = s.batch_blind_evaluate(&mut rng(3), &ms[..3].to_vec()).unwrap();
    let ev: Vec<_> = e.messages.into_iter().collect();
    assert!(VoprfClient::batch_finalize(&inputs[..3].to_vec(), &st[..3].to_vec(), &ev, &e.proof, s.get_public_key()).is_ok());
    assert!(matches!(VoprfClient::batch_finalize(&inputs, &st, &ev, &e.proof, s.get_public_key()).err(), Some(Error::Batch)));''')
s('c13-info-error','C13','an info longer than 65535 bytes given to the POPRF client','the client reports Error::Input instead of Error::Info for an over-long info',
 [('@tweaked_key_info','','')],
 '''let s = PoprfServer::<R>::new(&mut rng(1)).unwrap();
    let b = PoprfClient::<R>::blind(b"input", &mut rng(2)).unwrap();
    let e = s.blind_evaluate(&mut rng(3), &b.message, None).unwrap();
    let info = vec![0u8; 65536];
    assert!(matches!(s.evaluate(b"input", Some(&info)), Err(Error::Info)));
    assert!(matches!(b.state.finalize(b"input", &e.message, &e.proof, s.get_public_key(), Some(&info)), Err(Error::Info)));''')
s('c13-derive-info','C13','an info longer than 65535 bytes in key derivation','over-long infos wrap around to a short length prefix instead of Error::DeriveKeyPair',
 [('common.rs','let info_len = i2osp_2(info.len()).map_err(|_| Error::DeriveKeyPair)?;','let info_len = i2osp_2(info.len() & 0xffff).map_err(|_| Error::DeriveKeyPair)?;')],
 '''let info = vec![3u8; 65536];
    assert!(OprfServer::<R>::new_from_seed(&[1; 32], &info[..65535]).is_ok());
    assert!(matches!(OprfServer::<R>::new_from_seed(&[1; 32], &info), Err(Error::DeriveKeyPair)));
    assert!(matches!(PoprfServer::<R>::new_from_seed(&[1; 32], &info), Err(Error::DeriveKeyPair)));''')
s('c14-tweak-kept','C14','dropping a PoprfPreparedTweak','the prepared tweak (key plus public value) stays in memory after drop',
 [('@tweak_zeroize','','')],
 '''use core::mem::MaybeUninit;
    let s = PoprfServer::<R>::new(&mut rng(1)).unwrap();
    let b = PoprfClient::<R>::blind(b"input", &mut rng(2)).unwrap();
    let p = s.batch_blind_evaluate_prepare([&b.message].into_iter(), Some(b"info")).unwrap();
    let mut m: Box<MaybeUninit<PoprfPreparedTweak<R>>> = Box::new(MaybeUninit::new(p.prepared_tweak));
    let n = core::mem::size_of::<PoprfPreparedTweak<R>>();
    let q = m.as_mut_ptr();
    let before = unsafe { core::slice::from_raw_parts(q as *const u8, n) }.to_vec();
    unsafe { core::ptr::drop_in_place(q) };
    let after = unsafe { core::slice::from_raw_parts(q as *const u8, n) }.to_vec();
    assert!(before.iter().any(|x| *x != 0));
    assert!(after.iter().all(|x| *x == 0));''')
s('c15-zero-blind','C15','a random stream whose first scalar is zero','random_scalar on ristretto255 returns a zero scalar instead of drawing again',
 [('group/ristretto.rs','''        loop {
            let scalar = Scalar::random(rng);

            if scalar != Scalar::ZERO {
                break scalar;
            }
        }''','''        Scalar::random(rng)''')],
 '''struct Z(usize, Rng);
    impl RngCore for Z {
        fn next_u32(&mut self) -> u32 { rand_core::impls::next_u32_via_fill(self) }
        fn next_u64(&mut self) -> u64 { rand_core::impls::next_u64_via_fill(self) }
        fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { if self.0 > 0 { self.0 -= 1; *b = 0 } else { let mut x = [0]; self.1.fill_bytes(&mut x); *b = x[0] } } }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> core::result::Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
    }
    impl CryptoRng for Z {}
    let b = OprfClient::<R>::blind(b"input", &mut Z(64, rng(5))).unwrap();
    assert!(b.message.serialize().iter().any(|x| *x != 0));
    assert!(b.state.serialize().iter().any(|x| *x != 0));''')
s('c16-zero-key','C16','a seed whose first hash is the zero scalar','derived keys are not checked for zero: a server with key zero and the identity as public key is created',
 [('common.rs','        if !bool::from(CS::Group::is_zero_scalar(sk_s)) {\n            return Ok(sk_s);','        if counter == 0 || !bool::from(CS::Group::is_zero_scalar(sk_s)) {\n            return Ok(sk_s);')],
 '''let seed = [b"ZERO".as_slice(), &1u16.to_be_bytes(), b"seed"].concat();
    let s = VoprfServer::<toy::ToySuite>::new_from_seed(&seed, b"info").unwrap();
    assert!(!bool::from(toy::Toy::is_identity_elem(s.get_public_key())));''',True)
s('c17-zero-tweak','C17','an info whose hash is the negated key','a zero tweak is not rejected by the server: it inverts zero',
 [('poprf.rs','''    match bool::from(CS::Group::is_zero_scalar(t)) {
        true => Err(Error::Protocol),
        false => Ok(t),
    }''','''    Ok(t)''')],
 '''let info = b"some info";
    let ctx = [b"OPRFV1-".as_slice(), &[2], b"-", R::ID.as_bytes()].concat();
    let m = <G as Group>::hash_to_scalar::<sha2::Sha512>(&[b"Info", &(info.len() as u16).to_be_bytes(), info], &[b"HashToScalar-", &ctx]).ok().unwrap();
    let s = PoprfServer::<R>::new_with_key(&<G as Group>::serialize_scalar((m - &m) - &m)).unwrap();
    assert!(matches!(s.evaluate(b"input", Some(info)), Err(Error::Protocol)));
    assert!(s.evaluate(b"input", Some(b"other")).is_ok());''')
s('c05-composite-index','C05','a batch of more than 256 elements','the composite weights use a one-byte index: elements i and i + 256 are framed alike, in prover and verifier',
 [('common.rs','            &i.to_be_bytes(),\n            &elem_len,\n            &ci,','            &[0, i as u8],\n            &elem_len,\n            &ci,')],
 '''// the weights of the batch follow RFC 9497: recompute the composite of a batch of 300 and check the proof against it
    let s = VoprfServer::<R>::new(&mut rng(1)).unwrap();
    let sk = <G as Group>::deserialize_scalar(&s.serialize()[..32]).unwrap();
    let ctx = [b"OPRFV1-".as_slice(), &[1], b"-", R::ID.as_bytes()].concat();
    let l = 32u16.to_be_bytes();
    for n in [2usize, 300] {
        let ms: Vec<_> = (0..n).map(|i| VoprfClient::<R>::blind(&(i as u32).to_be_bytes(), &mut rng(2)).unwrap().message).collect();
        let e = s.batch_blind_evaluate(&mut rng(3), &ms).unwrap();
        let ser = |x| <G as Group>::serialize_elem(x).to_vec();
        let pk = ser(s.get_public_key());
        let sd = [b"Seed-".as_slice(), &ctx].concat();
        let seed = sha2::Sha512::digest([&l[..], &pk, &(sd.len() as u16).to_be_bytes(), &sd].concat()).to_vec();
        let mut m = <G as Group>::identity_elem();
        for i in 0..n {
            let d = <G as Group>::hash_to_scalar::<sha2::Sha512>(&[&64u16.to_be_bytes(), &seed, &(i as u16).to_be_bytes(), &l, &ser(ms[i].value()), &l, &ser(e.messages[i].value()), b"Composite"], &[b"HashToScalar-", &ctx]).ok().unwrap();
            m = m + &(ms[i].value() * &d);
        }
        let r = <G as Group>::random_scalar(&mut rng(3));
        let g = <G as Group>::base_elem();
        let c = <G as Group>::hash_to_scalar::<sha2::Sha512>(&[&l, &pk, &l, &ser(m), &l, &ser(m * &sk), &l, &ser(g * &r), &l, &ser(m * &r), b"Challenge"], &[b"HashToScalar-", &ctx]).ok().unwrap();
        assert_eq!(e.proof.serialize()[..32].to_vec(), <G as Group>::serialize_scalar(c).to_vec(), "batch of {n}");
    }''')
