// Included once per suite: the RFC 9497 oracle over that suite's primitives, and the checks of the real code against it.
use crate::{Ctx, ck};
use digest::Digest as _;
use generic_array::GenericArray;
use voprf::{BlindedElement, CipherSuite, Error, EvaluationElement, Group, Mode, OprfClient, OprfServer, PoprfClient, PoprfPreparedTweak, PoprfServer, PreparedEvaluationElement, Proof, VoprfClient, VoprfServer};
use voprf::{PoprfServerBatchEvaluateFinishResult, PoprfServerBatchEvaluatePrepareResult, VoprfServerBatchEvaluateFinishResult};
type G = <CS as CipherSuite>::Group;
type H = <CS as CipherSuite>::Hash;

fn ne() -> usize { ser_e(&gen()).len() }
fn ns() -> usize { ser_s(&one()).len() }
fn eqe(a: &E, b: &E) -> bool { ser_e(a) == ser_e(b) }
fn eqs(a: &S, b: &S) -> bool { ser_s(a) == ser_s(b) }
fn is_id(e: &E) -> bool { ser_e(e) == ser_e(&ident()) }
fn is_z(s: &S) -> bool { ser_s(s) == ser_s(&zero()) }

// ---------------------------------------------------------------- oracle
fn dst(p: &str, mode: u8) -> Vec<u8> { [p.as_bytes(), b"OPRFV1-", &[mode], b"-", ID].concat() }
fn lp(b: &[u8]) -> Vec<u8> { assert!(b.len() <= 65535); [&(b.len() as u16).to_be_bytes()[..], b].concat() }
fn o_h2g(input: &[u8], mode: u8) -> E { h2c(input, &dst("HashToGroup-", mode)) }
fn o_h2s(m: &[u8], mode: u8) -> S { h2s(m, &dst("HashToScalar-", mode)) }
fn o_fin(input: &[u8], info: Option<&[u8]>, e: &E) -> Vec<u8> {
    let mut m = lp(input);
    if let Some(i) = info { m.extend(lp(i)); }
    m.extend(lp(&ser_e(e)));
    m.extend(b"Finalize");
    hash(&m)
}
fn o_dk(seed: &[u8], info: &[u8], mode: u8) -> Result<S, Error> {
    if info.len() > 65535 { return Err(Error::DeriveKeyPair); }
    for ctr in 0..=255u8 {
        let s = h2s(&[seed, &lp(info), &[ctr]].concat(), &dst("DeriveKeyPair", mode));
        if !is_z(&s) { return Ok(s); }
    }
    Err(Error::Protocol)
}
fn o_comp(b: &E, cs: &[E], ds: &[E], mode: u8) -> (E, E) {
    let seed = hash(&[lp(&ser_e(b)), lp(&dst("Seed-", mode))].concat());
    let (mut m, mut z) = (ident(), ident());
    for (i, (c, d)) in cs.iter().zip(ds).enumerate() {
        let t = [lp(&seed), (i as u16).to_be_bytes().to_vec(), lp(&ser_e(c)), lp(&ser_e(d)), b"Composite".to_vec()].concat();
        let di = o_h2s(&t, mode);
        m = *c * &di + &m;
        z = *d * &di + &z;
    }
    (m, z)
}
fn o_chal(b: &E, m: &E, z: &E, t2: &E, t3: &E, mode: u8) -> S {
    o_h2s(&[lp(&ser_e(b)), lp(&ser_e(m)), lp(&ser_e(z)), lp(&ser_e(t2)), lp(&ser_e(t3)), b"Challenge".to_vec()].concat(), mode)
}
fn o_prove(r: &S, k: &S, b: &E, cs: &[E], ds: &[E], mode: u8) -> (S, S) {
    let (m, _) = o_comp(b, cs, ds, mode);
    let z = m * k;
    let c = o_chal(b, &m, &z, &(gen() * r), &(m * r), mode);
    (c, *r - &(c * k))
}
fn o_ver(b: &E, cs: &[E], ds: &[E], c: &S, s: &S, mode: u8) -> bool {
    let (m, z) = o_comp(b, cs, ds, mode);
    let t2 = gen() * s + &(*b * c);
    let t3 = m * s + &(z * c);
    eqs(&o_chal(b, &m, &z, &t2, &t3, mode), c)
}
fn o_m(info: &[u8]) -> S { o_h2s(&[b"Info".to_vec(), lp(info)].concat(), 2) }
fn o_tweak(sk: &S, info: Option<&[u8]>) -> Result<S, Error> {
    let info = info.unwrap_or(&[]);
    if info.len() > 65535 { return Err(Error::Info); }
    let t = *sk + &o_m(info);
    if is_z(&t) { Err(Error::Protocol) } else { Ok(t) }
}
fn o_tkey(pk: &E, info: Option<&[u8]>) -> Result<E, Error> {
    let info = info.unwrap_or(&[]);
    if info.len() > 65535 { return Err(Error::Info); }
    let t = gen() * &o_m(info) + pk;
    if is_id(&t) { Err(Error::Protocol) } else { Ok(t) }
}

// ---------------------------------------------------------------- generators
fn g_scalar(c: &mut Ctx) -> S {
    match c.t.below(12) { 0 => one(), 1 => zero() - &one(), 2 => one() + &one(), _ => { let mut t = c.t.fork(); rand_s(&mut t) } }
}
fn g_elem(c: &mut Ctx) -> E { gen() * &g_scalar(c) }
/// an RNG for the code under test; sometimes its first draws are zero
fn g_rng(c: &mut Ctx) -> Tape {
    let mut t = c.t.fork();
    if c.t.below(4) == 0 { let n = [64, 32, 48, 66, 2, 128][c.t.below(6)]; t.script = vec![0; n]; }
    t
}
fn g_info(c: &mut Ctx) -> Option<Vec<u8>> {
    match c.t.below(6) { 0 => None, 1 => Some(vec![]), 2 if TOY => { let mut v = b"ZERO".to_vec(); v.extend(c.t.bytes(1)); Some(v) } _ => Some(c.g_bytes()) }
}
fn mk_o(blind: &S) -> OprfClient<CS> { OprfClient::deserialize(&ser_s(blind)).expect("valid client state") }
fn mk_v(blind: &S, e: &E) -> VoprfClient<CS> { VoprfClient::deserialize(&[ser_s(blind), ser_e(e)].concat()).expect("valid client state") }
fn mk_p(blind: &S, e: &E) -> PoprfClient<CS> { PoprfClient::deserialize(&[ser_s(blind), ser_e(e)].concat()).expect("valid client state") }
fn mk_proof(c: &S, s: &S) -> Option<Proof<CS>> { if is_z(c) || is_z(s) { None } else { Some(Proof::deserialize(&[ser_s(c), ser_s(s)].concat()).expect("valid proof")) } }
fn be(e: &E) -> BlindedElement<CS> { BlindedElement::from_value_unchecked(*e) }
fn ev(e: &E) -> EvaluationElement<CS> { EvaluationElement::from_value_unchecked(*e) }
fn proof_bytes(p: &Proof<CS>) -> Vec<u8> { p.serialize().to_vec() }
fn bad_input(input: &[u8], mode: u8) -> bool { input.len() > 65535 || is_id(&o_h2g(input, mode)) }

// ---------------------------------------------------------------- single runs
fn ck_oprf(c: &mut Ctx) { let i = c.g_bytes(); run_oprf(c, &i); }
fn run_oprf(c: &mut Ctx, input: &[u8]) {
    c.modes |= 1; c.ptags = Some(if input.len() <= 65535 { "C01,C13" } else { "C13" });
    let sk = g_scalar(c);
    c.rec("input", input); c.rec("sk", &ser_s(&sk));
    let server = OprfServer::<CS>::new_with_key(&ser_s(&sk)).expect("valid key");
    let mut rng = g_rng(c);
    let mut orng = rng.clone();
    let r = OprfClient::<CS>::blind(input, &mut rng);
    let b = rand_s(&mut orng);
    ck!(c, "C15", rng.log == orng.log, "blind drew other RNG bytes than one non-zero scalar");
    if bad_input(input, 0) {
        ck!(c, "C13,C15", matches!(r, Err(Error::Input)), "blinding a rejected input gave {:?}", r.as_ref().err());
        ck!(c, "C13", matches!(OprfClient::<CS>::deterministic_blind_unchecked(input, b), Err(Error::Input)), "deterministic blinding of a rejected input did not give Error::Input");
        let e = server.evaluate(input);
        ck!(c, "C13", matches!(e, Err(Error::Input)), "evaluating a rejected input gave {:?}", e);
        if input.len() > 65535 {
            let f = mk_o(&b).finalize(input, &ev(&gen()));
            ck!(c, "C13", matches!(f, Err(Error::Input)), "finalizing an over-long input gave {:?}", f);
        }
        return;
    }
    ck!(c, "C01,C13", r.is_ok(), "blinding failed: {:?}", r.as_ref().err());
    let Ok(r) = r else { return };
    let h = o_h2g(input, 0);
    ck!(c, "C15", eqs(&r.state.get_blind(), &b), "the client's blind is not the drawn scalar");
    ck!(c, "C15,C07", eqe(&r.message.value(), &(h * &b)), "the message is not blind * H(input)");
    ck!(c, "C15,C01", eqe(&r.message.value(), &(h * &r.state.get_blind())), "the message is not its blind * H(input)");
    ck!(c, "C15", !is_id(&r.message.value()), "the message is the identity");
    let e = server.blind_evaluate(&r.message);
    ck!(c, "C01", eqe(&e.value(), &(r.message.value() * &sk)), "blind_evaluate is not key * element");
    let f = r.state.finalize(input, &e);
    let d = server.evaluate(input);
    let want = o_fin(input, None, &(h * &sk));
    ck!(c, "C01,C13", f.is_ok() && d.is_ok(), "finalize {:?} evaluate {:?}", f, d);
    if let (Ok(f), Ok(d)) = (&f, &d) {
        ck!(c, "C01", f == d, "finalize differs from evaluate");
        ck!(c, "C01,C07", f.to_vec() == want, "finalize differs from RFC 9497");
        ck!(c, "C01,C07", d.to_vec() == want, "evaluate differs from RFC 9497");
    }
    let b2 = g_scalar(c);
    let r2 = OprfClient::<CS>::deterministic_blind_unchecked(input, b2);
    ck!(c, "C15,C01,C13", r2.is_ok(), "deterministic blinding failed");
    if let Ok(r2) = r2 {
        ck!(c, "C15,C01", eqe(&r2.message.value(), &(h * &b2)) && eqs(&r2.state.get_blind(), &b2), "deterministic blinding is not blind * H(input)");
        let f2 = r2.state.finalize(input, &server.blind_evaluate(&r2.message));
        ck!(c, "C01", f2.as_ref().map(|x| x.to_vec()) == Ok(want), "the output depends on the blind");
    }
    // finalize with an unrelated element still follows the framing
    let x = g_elem(c);
    let f3 = r.state.finalize(input, &ev(&x));
    ck!(c, "C07,C01", f3.map(|x| x.to_vec()) == Ok(o_fin(input, None, &(x * &inv(&b)))), "finalize is not Hash of the framed unblinded element");
}

fn ck_voprf(c: &mut Ctx) { let i = c.g_bytes(); run_voprf(c, &i); }
fn run_voprf(c: &mut Ctx, input: &[u8]) {
    c.modes |= 2; c.ptags = Some(if input.len() <= 65535 { "C02,C13" } else { "C13" });
    let sk = g_scalar(c);
    c.rec("input", input); c.rec("sk", &ser_s(&sk));
    let pk = gen() * &sk;
    let server = VoprfServer::<CS>::new_with_key(&ser_s(&sk)).expect("valid key");
    ck!(c, "C16,C02", eqe(&server.get_public_key(), &pk), "public key is not sk * G");
    let mut rng = g_rng(c);
    let mut orng = rng.clone();
    let r = VoprfClient::<CS>::blind(input, &mut rng);
    let b = rand_s(&mut orng);
    ck!(c, "C15", rng.log == orng.log, "blind drew other RNG bytes than one non-zero scalar");
    if bad_input(input, 1) {
        ck!(c, "C13,C15", matches!(r, Err(Error::Input)), "blinding a rejected input gave {:?}", r.as_ref().err());
        ck!(c, "C13", matches!(VoprfClient::<CS>::deterministic_blind_unchecked(input, b), Err(Error::Input)), "deterministic blinding of a rejected input did not give Error::Input");
        let e = server.evaluate(input);
        ck!(c, "C13", matches!(e, Err(Error::Input)), "evaluating a rejected input gave {:?}", e);
        if input.len() > 65535 {
            let x = g_elem(c);
            let e = server.blind_evaluate(&mut rng, &be(&x));
            let f = mk_v(&b, &x).finalize(input, &e.message, &e.proof, pk);
            ck!(c, "C13", matches!(f, Err(Error::Input)), "finalizing an over-long input gave {:?}", f);
        }
        return;
    }
    ck!(c, "C02,C13", r.is_ok(), "blinding failed: {:?}", r.as_ref().err());
    let Ok(r) = r else { return };
    let h = o_h2g(input, 1);
    let st = r.state.serialize().to_vec();
    ck!(c, "C15", r.state.serialize()[..ns()].to_vec() == ser_s(&b), "the client's blind is not the drawn scalar");
    ck!(c, "C15", st == [ser_s(&b), ser_e(&(h * &b))].concat(), "the client's state is not (blind, blinded element)");
    ck!(c, "C15,C02,C07", eqe(&r.message.value(), &(h * &b)), "the message is not blind * H(input)");
    let mut rng = g_rng(c);
    let mut orng = rng.clone();
    let e = server.blind_evaluate(&mut rng, &r.message);
    let nonce = rand_s(&mut orng);
    ck!(c, "C06", rng.log == orng.log, "proof generation drew other RNG bytes than one non-zero scalar");
    ck!(c, "C02,C04", eqe(&e.message.value(), &(r.message.value() * &sk)), "blind_evaluate is not key * element");
    let (pc, ps) = o_prove(&nonce, &sk, &pk, &[r.message.value()], &[e.message.value()], 1);
    ck!(c, "C06,C04", proof_bytes(&e.proof) == [ser_s(&pc), ser_s(&ps)].concat(), "the proof is not (c, r - c*k) for the drawn nonce");
    let f = r.state.finalize(input, &e.message, &e.proof, pk);
    let d = server.evaluate(input);
    let want = o_fin(input, None, &(h * &sk));
    ck!(c, "C02,C04,C13", f.is_ok(), "finalizing an honest response failed: {:?}", f);
    ck!(c, "C02,C13", d.is_ok(), "evaluate failed: {:?}", d);
    if let (Ok(f), Ok(d)) = (&f, &d) {
        ck!(c, "C02", f == d, "finalize differs from evaluate");
        ck!(c, "C02,C07", f.to_vec() == want && d.to_vec() == want, "output differs from RFC 9497");
    }
}

fn ck_poprf(c: &mut Ctx) { let i = c.g_bytes(); let n = g_info(c); run_poprf(c, &i, n.as_deref()); }
fn run_poprf(c: &mut Ctx, input: &[u8], info: Option<&[u8]>) {
    c.modes |= 4; c.ptags = Some(if input.len() <= 65535 && info.map_or(true, |i| i.len() <= 65535) { "C03,C13,C17" } else { "C13" });
    let mut sk = g_scalar(c);
    // a key whose tweak is zero for this info
    if c.t.below(if TOY { 8 } else { 20 }) == 0 && info.map_or(true, |i| i.len() <= 65535) { let z = zero() - &o_m(info.unwrap_or(&[])); if !is_z(&z) { sk = z; } }
    c.rec("input", input); c.rec("sk", &ser_s(&sk)); if let Some(i) = info { c.rec("info", i); }
    let pk = gen() * &sk;
    let server = PoprfServer::<CS>::new_with_key(&ser_s(&sk)).expect("valid key");
    ck!(c, "C16,C03", eqe(&server.get_public_key(), &pk), "public key is not sk * G");
    let tweak = o_tweak(&sk, info);
    let tkey = o_tkey(&pk, info);
    ck!(c, "C17", tweak.is_ok() == tkey.is_ok(), "oracle");
    let mut rng = g_rng(c);
    let mut orng = rng.clone();
    let r = PoprfClient::<CS>::blind(input, &mut rng);
    let b = rand_s(&mut orng);
    ck!(c, "C15", rng.log == orng.log, "blind drew other RNG bytes than one non-zero scalar");
    let bad = bad_input(input, 2);
    if bad {
        ck!(c, "C13,C15", matches!(r, Err(Error::Input)), "blinding a rejected input gave {:?}", r.as_ref().err());
        ck!(c, "C13", matches!(PoprfClient::<CS>::deterministic_blind_unchecked(input, b), Err(Error::Input)), "deterministic blinding of a rejected input did not give Error::Input");
        let e = server.evaluate(input, info);
        ck!(c, "C13", e == Err(Error::Input), "evaluating a rejected input gave {:?}", e);
    }
    let x = if bad { g_elem(c) } else { o_h2g(input, 2) * &b };
    if let Ok(r) = &r {
        if !bad {
            let st = r.state.serialize().to_vec();
            ck!(c, "C15,C03", r.state.serialize()[..ns()].to_vec() == ser_s(&b) && st == [ser_s(&b), ser_e(&x)].concat(), "the client's state is not (blind, blinded element)");
            ck!(c, "C15,C03,C07", eqe(&r.message.value(), &x), "the message is not blind * H(input)");
        }
    } else { ck!(c, "C03,C13", bad, "blinding failed: {:?}", r.as_ref().err()); }
    let client = mk_p(&b, &x);
    let mut rng = g_rng(c);
    let mut orng = rng.clone();
    let e = server.blind_evaluate(&mut rng, &be(&x), info);
    match &tweak {
        Err(err) => {
            let tag = if *err == Error::Info { "C13" } else { "C17" };
            ck!(c, tag, e.as_ref().err() == Some(err), "blind_evaluate gave {:?} instead of {:?}", e.as_ref().err(), err);
            let bb = [be(&x)];
            let r2 = server.batch_blind_evaluate(&mut rng, &bb, info);
            ck!(c, tag, r2.as_ref().err() == Some(err), "batch_blind_evaluate gave {:?} instead of {:?}", r2.as_ref().err(), err);
            let r3 = server.batch_blind_evaluate_prepare(bb.iter(), info);
            ck!(c, tag, r3.as_ref().err() == Some(err), "batch_blind_evaluate_prepare gave {:?} instead of {:?}", r3.as_ref().err(), err);
            if !bad { let d = server.evaluate(input, info); ck!(c, tag, d.as_ref().err() == Some(err), "evaluate gave {:?} instead of {:?}", d, err); }
            let p = mk_proof(&one(), &one()).unwrap();
            let f = client.finalize(input, &ev(&gen()), &p, pk, info);
            ck!(c, tag, f.as_ref().err() == Some(err), "finalize gave {:?} instead of {:?}", f, err);
            let cl = [client.clone()]; let em = [ev(&gen())];
            let f = PoprfClient::batch_finalize([input].into_iter(), &cl, &em, &p, pk, info).map(|_| ());
            ck!(c, tag, f.as_ref().err() == Some(err), "batch_finalize gave {:?} instead of {:?}", f, err);
        }
        Ok(t) => {
            let nonce = rand_s(&mut orng);
            ck!(c, "C03,C04,C13", e.is_ok(), "blind_evaluate failed: {:?}", e.as_ref().err());
            let Ok(e) = e else { return };
            ck!(c, "C06", rng.log == orng.log, "proof generation drew other RNG bytes than one non-zero scalar");
            ck!(c, "C03,C04,C17", eqe(&e.message.value(), &(x * &inv(t))), "blind_evaluate is not inverse tweak * element");
            let b_ = gen() * t;
            ck!(c, "C17", eqe(&b_, tkey.as_ref().unwrap()), "oracle");
            let (pc, ps) = o_prove(&nonce, t, &b_, &[e.message.value()], &[x], 2);
            ck!(c, "C06,C04", proof_bytes(&e.proof) == [ser_s(&pc), ser_s(&ps)].concat(), "the proof is not (c, r - c*t) for the drawn nonce");
            let f = client.finalize(input, &e.message, &e.proof, pk, info);
            if input.len() > 65535 { ck!(c, "C13", f == Err(Error::Input), "finalizing an over-long input gave {:?}", f); }
            else {
                ck!(c, "C03,C04,C13", f.is_ok(), "finalizing an honest response failed: {:?}", f);
                let inf = Some(info.unwrap_or(&[]));
                if let Ok(f) = &f { ck!(c, "C03,C07", f.to_vec() == o_fin(input, inf, &(e.message.value() * &inv(&b))), "finalize differs from RFC 9497"); }
            }
            if !bad {
                let d = server.evaluate(input, info);
                ck!(c, "C03,C13,C17", d.is_ok(), "evaluate failed: {:?}", d);
                if let (Ok(d), Ok(f)) = (&d, &f) {
                    ck!(c, "C03", d == f, "finalize differs from evaluate");
                    ck!(c, "C03,C07,C17", d.to_vec() == o_fin(input, Some(info.unwrap_or(&[])), &(o_h2g(input, 2) * &inv(t))), "evaluate differs from RFC 9497");
                }
                if info.map_or(true, |i| i.is_empty()) {
                    for other in [None, Some(&[][..])] { ck!(c, "C03", server.evaluate(input, other) == d && client.finalize(input, &e.message, &e.proof, pk, other) == f, "omitted info differs from the empty info"); }
                }
            }
            // another tweaked key: decided by the verification equation
            let i2 = c.g_bytes();
            if i2.len() <= 65535 {
                let want = match o_tkey(&pk, Some(&i2)) { Err(e) => Err(e), Ok(k) => if o_ver(&k, &[e.message.value()], &[x], &pc, &ps, 2) { Ok(()) } else { Err(Error::ProofVerification) } };
                if input.len() <= 65535 {
                    let got = client.finalize(input, &e.message, &e.proof, pk, Some(&i2)).map(|_| ());
                    ck!(c, "C03,C05", got == want, "finalize under another info gave {:?} instead of {:?}", got, want);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- batches
fn g_size(c: &mut Ctx) -> usize {
    let l = c.lits.ints.clone();
    match c.t.below(8) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 if !l.is_empty() => { let v = l[c.t.below(l.len())] as usize; if v <= if TOY { 600 } else { 8 } { v + c.t.below(3) } else { 5 } } 5 => 4 + c.t.below(if TOY { 300 } else { 12 }), _ => 2 + c.t.below(6) }
}
fn ck_vbatch(c: &mut Ctx) { let n = g_size(c); run_vbatch(c, n); }
fn run_vbatch(c: &mut Ctx, n: usize) {
    c.modes |= 2;
    let sk = g_scalar(c); let pk = gen() * &sk;
    c.rec("sk", &ser_s(&sk)); c.note(format!("batch of {n}"));
    let server = VoprfServer::<CS>::new_with_key(&ser_s(&sk)).expect("valid key");
    let big = n > 1000;
    let pool: Vec<(Vec<u8>, S, E)> = (0..n.min(if big { 7 } else { n })).map(|_| { let mut i = c.g_bytes(); if bad_input(&i, 1) { i = vec![7]; } let b = g_scalar(c); let x = o_h2g(&i, 1) * &b; (i, b, x) }).collect();
    let pick = |i: usize| &pool[if big { (i * i + i / 5) % 7 } else { i }];
    let inputs: Vec<Vec<u8>> = (0..n).map(|i| pick(i).0.clone()).collect();
    let blinds: Vec<S> = (0..n).map(|i| pick(i).1).collect();
    let xs: Vec<E> = (0..n).map(|i| pick(i).2).collect();
    let clients: Vec<VoprfClient<CS>> = (0..n).map(|i| mk_v(&blinds[i], &xs[i])).collect();
    let bes: Vec<BlindedElement<CS>> = xs.iter().map(be).collect();
    let rng = g_rng(c);
    let (mut r1, mut r2, mut ro) = (rng.clone(), rng.clone(), rng.clone());
    let a = server.batch_blind_evaluate(&mut r1, &bes);
    let prep: Vec<PreparedEvaluationElement<CS>> = server.batch_blind_evaluate_prepare(bes.iter()).collect();
    let b = server.batch_blind_evaluate_finish(&mut r2, bes.iter(), &prep).map(|VoprfServerBatchEvaluateFinishResult { messages, proof }| (messages.collect::<Vec<_>>(), proof));
    if n > 65535 {
        ck!(c, "C12", matches!(a, Err(Error::Batch)), "a batch of {n} was not rejected with Error::Batch: {:?}", a.as_ref().err());
        ck!(c, "C12", matches!(b, Err(Error::Batch)), "a batch of {n} was not rejected with Error::Batch by finish: {:?}", b.as_ref().err());
        let p = mk_proof(&one(), &one()).unwrap();
        let ms: Vec<_> = xs.iter().map(ev).collect();
        let f = VoprfClient::batch_finalize(&inputs, &clients, &ms, &p, pk).map(|_| ());
        ck!(c, "C12", f == Err(Error::Batch), "finalizing a batch of {n} gave {:?}", f);
        return;
    }
    ck!(c, "C04,C12,C02", a.is_ok() && b.is_ok(), "batch evaluation failed: {:?} {:?}", a.as_ref().err(), b.as_ref().err());
    let (Ok(a), Ok(b)) = (a, b) else { return };
    let nonce = rand_s(&mut ro);
    ck!(c, "C06", r1.log == ro.log && r2.log == ro.log, "proof generation drew other RNG bytes than one non-zero scalar");
    let want: Vec<E> = xs.iter().map(|x| *x * &sk).collect();
    ck!(c, "C04,C12", a.messages.len() == n && b.0.len() == n && prep.len() == n, "wrong number of messages");
    ck!(c, "C04,C12,C02", a.messages.iter().zip(&want).all(|(m, w)| eqe(&m.value(), w)), "batch messages are not the keyed evaluations in order");
    ck!(c, "C04,C12", b.0.iter().zip(&want).all(|(m, w)| eqe(&m.value(), w)), "prepared messages are not the keyed evaluations in order");
    let (pc, ps) = o_prove(&nonce, &sk, &pk, &xs, &want, 1);
    let pb = [ser_s(&pc), ser_s(&ps)].concat();
    ck!(c, "C06,C04", proof_bytes(&a.proof) == pb, "batch proof is not RFC 9497's for the drawn nonce");
    ck!(c, "C06,C04", proof_bytes(&b.1) == pb, "prepare/finish proof differs");
    let f = VoprfClient::batch_finalize(&inputs, &clients, &a.messages, &a.proof, pk).map(|it| it.collect::<Vec<_>>());
    ck!(c, "C02,C04,C12", f.is_ok(), "finalizing an honest batch of {n} failed: {:?}", f.as_ref().err());
    if let Ok(f) = f {
        ck!(c, "C02,C12", f.len() == n, "{} outputs for {n} inputs", f.len());
        for (i, f) in f.iter().enumerate() {
            let w = if big && i > 50 && i + 50 < n { continue } else { o_fin(&inputs[i], None, &(o_h2g(&inputs[i], 1) * &sk)) };
            ck!(c, "C02,C12,C07", f.as_ref().map(|x| x.to_vec()) == Ok(w.clone()), "output {i} of {n} is wrong");
            if n < 8 { ck!(c, "C02", server.evaluate(&inputs[i]).map(|x| x.to_vec()) == Ok(w), "output {i} differs from evaluate"); }
        }
    }
    if n == 1 {
        let mut r3 = rng.clone();
        let o = server.blind_evaluate(&mut r3, &bes[0]);
        ck!(c, "C04", eqe(&o.message.value(), &want[0]) && proof_bytes(&o.proof) == pb, "one-shot evaluation differs from the batch of one");
    }
    if big { return; }
    if n == 0 { return tamper_v(c, &inputs, &clients, &xs, &want, &pc, &ps, &pk); }
    // over-long input inside a batch is that position's error
    if n >= 2 && n < 20 {
        let k = c.t.below(n);
        let mut i2 = inputs.clone(); i2[k] = vec![1; 65536 + c.t.below(3)];
        let f = VoprfClient::batch_finalize(&i2, &clients, &a.messages, &a.proof, pk).map(|it| it.collect::<Vec<_>>());
        ck!(c, "C13,C12", matches!(&f, Ok(v) if v.len() == n && v.iter().enumerate().all(|(i, x)| if i == k { *x == Err(Error::Input) } else { x.is_ok() })), "an over-long input at {k} of {n} was not that position's Error::Input");
    }
    // mismatched counts
    for (nc, nm) in [(n, n - 1), (n - 1, n), (n, n + 1)] {
        let ms: Vec<_> = (0..nm).map(|i| ev(&want[i.min(n - 1)])).collect();
        let f = VoprfClient::batch_finalize(&inputs, &clients[..nc].to_vec(), &ms, &a.proof, pk).map(|_| ());
        ck!(c, "C12", f == Err(Error::Batch), "{nc} clients with {nm} messages gave {:?}", f);
        let g = server.batch_blind_evaluate_finish(&mut r2, bes[..nc].iter(), &prep[..nm.min(n)].to_vec()).map(|_| ());
        if nc != nm.min(n) { ck!(c, "C12", g == Err(Error::Batch), "finish with {nc} elements and {} prepared gave {:?}", nm.min(n), g); }
    }
    tamper_v(c, &inputs, &clients, &xs, &want, &pc, &ps, &pk);
}
#[allow(clippy::too_many_arguments)]
fn tamper_v(c: &mut Ctx, inputs: &Vec<Vec<u8>>, clients: &[VoprfClient<CS>], xs: &[E], ms: &[E], pc: &S, ps: &S, pk: &E) {
    let n = xs.len();
    let blinds: Vec<S> = clients.iter().map(|x| <G as Group>::deserialize_scalar(&x.serialize()[..ns()]).unwrap()).collect();
    for kind in 0..9 {
        let (mut xs, mut ms, mut pc, mut ps, mut pk) = (xs.to_vec(), ms.to_vec(), *pc, *ps, *pk);
        let k = c.t.below(n.max(1));
        match kind {
            2 | 3 if n == 0 => continue,
            0 => pc = pc + &g_scalar(c),
            1 => ps = ps + &g_scalar(c),
            2 => ms[k] = ms[k] + &g_elem(c),
            3 => xs[k] = g_elem(c),
            4 => pk = g_elem(c),
            5 if n > 1 => { let j = (k + 1) % n; ms.swap(k, j); }
            6 if n > 1 => { let j = (k + 1) % n; ms.swap(k, j); xs.swap(k, j); }
            7 => { let t = pc; pc = ps; ps = t; }
            8 => { pc = zero() - &pc; }
            _ => continue,
        }
        if xs.iter().any(is_id) || is_id(&pk) { continue; }
        let Some(p) = mk_proof(&pc, &ps) else { continue };
        let ok = o_ver(&pk, &xs, &ms, &pc, &ps, 1);
        let cl: Vec<_> = (0..n).map(|i| mk_v(&blinds[i], &xs[i])).collect();
        let m: Vec<_> = ms.iter().map(ev).collect();
        let f = VoprfClient::batch_finalize(inputs, &cl, &m, &p, pk).map(|_| ());
        let want = if ok { Ok(()) } else { Err(Error::ProofVerification) };
        ck!(c, "C05", f == want, "tampered batch (kind {kind}, {n} elements) gave {:?}, the equation says {:?}", f, want);
        if n == 1 {
            let f = cl[0].finalize(&inputs[0], &m[0], &p, pk).map(|_| ());
            ck!(c, "C05", f == want, "tampered response (kind {kind}) gave {:?}, the equation says {:?}", f, want);
        }
    }
}
fn ck_pbatch(c: &mut Ctx) { let n = g_size(c); run_pbatch(c, n); }
fn run_pbatch(c: &mut Ctx, n: usize) {
    c.modes |= 4;
    let sk = g_scalar(c); let pk = gen() * &sk;
    let info = g_info(c); let info = info.as_deref();
    c.rec("sk", &ser_s(&sk)); c.note(format!("batch of {n}")); if let Some(i) = info { c.rec("info", i); }
    let server = PoprfServer::<CS>::new_with_key(&ser_s(&sk)).expect("valid key");
    let Ok(t) = o_tweak(&sk, info) else { return };
    let big = n > 1000;
    let pool: Vec<(Vec<u8>, S, E)> = (0..n.min(if big { 7 } else { n })).map(|_| { let mut i = c.g_bytes(); if bad_input(&i, 2) { i = vec![7]; } let b = g_scalar(c); let x = o_h2g(&i, 2) * &b; (i, b, x) }).collect();
    let pick = |i: usize| &pool[if big { (i * i + i / 5) % 7 } else { i }];
    let inputs: Vec<&[u8]> = (0..n).map(|i| &pick(i).0[..]).collect();
    let blinds: Vec<S> = (0..n).map(|i| pick(i).1).collect();
    let xs: Vec<E> = (0..n).map(|i| pick(i).2).collect();
    let clients: Vec<PoprfClient<CS>> = (0..n).map(|i| mk_p(&blinds[i], &xs[i])).collect();
    let bes: Vec<BlindedElement<CS>> = xs.iter().map(be).collect();
    let rng = g_rng(c);
    let (mut r1, mut r2, mut ro) = (rng.clone(), rng.clone(), rng.clone());
    let a = server.batch_blind_evaluate(&mut r1, &bes, info);
    let p = server.batch_blind_evaluate_prepare(bes.iter(), info);
    ck!(c, "C04,C17", p.is_ok(), "prepare failed: {:?}", p.as_ref().err());
    let Ok(PoprfServerBatchEvaluatePrepareResult { prepared_evaluation_elements, prepared_tweak }) = p else { return };
    let prep: Vec<PreparedEvaluationElement<CS>> = prepared_evaluation_elements.collect();
    let b = PoprfServer::<CS>::batch_blind_evaluate_finish(&mut r2, bes.iter(), &prep, &prepared_tweak).map(|PoprfServerBatchEvaluateFinishResult { messages, proof }| (messages.collect::<Vec<_>>(), proof));
    if n > 65535 {
        ck!(c, "C12", matches!(a, Err(Error::Batch)), "a batch of {n} was not rejected with Error::Batch: {:?}", a.as_ref().err());
        ck!(c, "C12", matches!(b, Err(Error::Batch)), "a batch of {n} was not rejected with Error::Batch by finish: {:?}", b.as_ref().err());
        let p = mk_proof(&one(), &one()).unwrap();
        let ms: Vec<_> = xs.iter().map(ev).collect();
        let f = PoprfClient::batch_finalize(inputs.iter().copied(), &clients, &ms, &p, pk, info).map(|_| ());
        ck!(c, "C12", f == Err(Error::Batch), "finalizing a batch of {n} gave {:?}", f);
        return;
    }
    ck!(c, "C03,C04,C12", a.is_ok() && b.is_ok(), "batch evaluation failed: {:?} {:?}", a.as_ref().err(), b.as_ref().err());
    let (Ok(a), Ok(b)) = (a, b) else { return };
    let nonce = rand_s(&mut ro);
    ck!(c, "C06", r1.log == ro.log && r2.log == ro.log, "proof generation drew other RNG bytes than one non-zero scalar");
    let ti = inv(&t);
    let want: Vec<E> = xs.iter().map(|x| *x * &ti).collect();
    ck!(c, "C04,C12", a.messages.len() == n && b.0.len() == n && prep.len() == n, "wrong number of messages");
    ck!(c, "C03,C04,C12,C17", a.messages.iter().zip(&want).all(|(m, w)| eqe(&m.value(), w)), "batch messages are not the keyed evaluations in order");
    ck!(c, "C04,C12,C17", b.0.iter().zip(&want).all(|(m, w)| eqe(&m.value(), w)), "prepared messages are not the keyed evaluations in order");
    let tk = gen() * &t;
    let (pc, ps) = o_prove(&nonce, &t, &tk, &want, &xs, 2);
    let pb = [ser_s(&pc), ser_s(&ps)].concat();
    ck!(c, "C06,C04", proof_bytes(&a.proof) == pb, "batch proof is not RFC 9497's for the drawn nonce");
    ck!(c, "C06,C04", proof_bytes(&b.1) == pb, "prepare/finish proof differs");
    let fin = |inputs: &[&[u8]], cl: &Vec<PoprfClient<CS>>, ms: &Vec<EvaluationElement<CS>>, p: &Proof<CS>, pk: E| PoprfClient::batch_finalize(inputs.to_vec().into_iter(), cl, ms, p, pk, info).map(|it| it.map(|x| x.map(|y| y.to_vec())).collect::<Vec<_>>());
    let f = fin(&inputs, &clients, &a.messages, &a.proof, pk);
    ck!(c, "C03,C04,C12", f.is_ok(), "finalizing an honest batch of {n} failed: {:?}", f.as_ref().err());
    if let Ok(f) = f {
        ck!(c, "C03,C12", f.len() == n, "{} outputs for {n} inputs", f.len());
        for (i, f) in f.iter().enumerate() {
            let w = if big && i > 50 && i + 50 < n { continue } else { o_fin(inputs[i], Some(info.unwrap_or(&[])), &(o_h2g(inputs[i], 2) * &ti)) };
            ck!(c, "C03,C12,C07", *f == Ok(w.clone()), "output {i} of {n} is wrong");
            if n < 8 { ck!(c, "C03", server.evaluate(inputs[i], info).map(|x| x.to_vec()) == Ok(w), "output {i} differs from evaluate"); }
        }
    }
    if n == 1 {
        let mut r3 = rng.clone();
        let o = server.blind_evaluate(&mut r3, &bes[0], info);
        ck!(c, "C04", matches!(&o, Ok(o) if eqe(&o.message.value(), &want[0]) && proof_bytes(&o.proof) == pb), "one-shot evaluation differs from the batch of one");
    }
    if big { return; }
    if n >= 2 && n < 20 {
        let k = c.t.below(n);
        let long = vec![1; 65536 + c.t.below(3)];
        let mut i2 = inputs.clone(); i2[k] = &long;
        let f = fin(&i2, &clients, &a.messages, &a.proof, pk);
        ck!(c, "C13,C12", matches!(&f, Ok(v) if v.len() == n && v.iter().enumerate().all(|(i, x)| if i == k { *x == Err(Error::Input) } else { x.is_ok() })), "an over-long input at {k} of {n} was not that position's Error::Input");
    }
    if n > 0 { for (ni, nc, nm) in [(n, n, n - 1), (n, n - 1, n), (n, n, n + 1), (n - 1, n, n), (n + 1, n, n), (n - 1, n - 1, n), (n + 1, n, n + 1)] {
        let ms: Vec<_> = (0..nm).map(|i| ev(&want[i.min(n - 1)])).collect();
        let ins: Vec<&[u8]> = (0..ni).map(|i| inputs[i.min(n - 1)]).collect();
        let f = fin(&ins, &clients[..nc].to_vec(), &ms, &a.proof, pk).map(|_| ());
        ck!(c, "C12", f == Err(Error::Batch), "{ni} inputs, {nc} clients, {nm} messages gave {:?}", f);
        if nc != nm.min(n) {
            let g = PoprfServer::<CS>::batch_blind_evaluate_finish(&mut r2, bes[..nc].iter(), &prep[..nm.min(n)].to_vec(), &prepared_tweak).map(|_| ());
            ck!(c, "C12", g == Err(Error::Batch), "finish with {nc} elements and {} prepared gave {:?}", nm.min(n), g);
        }
    } }
    for kind in 0..10 {
        let (mut x2, mut m2, mut c2, mut s2, mut pk2) = (xs.clone(), want.clone(), pc, ps, pk);
        let k = c.t.below(n.max(1));
        match kind {
            2 | 3 if n == 0 => continue,
            0 => c2 = c2 + &g_scalar(c),
            1 => s2 = s2 + &g_scalar(c),
            2 => m2[k] = m2[k] + &g_elem(c),
            3 => x2[k] = g_elem(c),
            4 => pk2 = g_elem(c),
            5 if n > 1 => m2.swap(k, (k + 1) % n),
            6 if n > 1 => { m2.swap(k, (k + 1) % n); x2.swap(k, (k + 1) % n); }
            7 => std::mem::swap(&mut c2, &mut s2),
            8 => c2 = zero() - &c2,
            // a proof for the roles of the verifiable mode
            9 => { let (a, b) = o_prove(&nonce, &t, &tk, &xs, &want, 1); c2 = a; s2 = b; }
            _ => continue,
        }
        if x2.iter().any(is_id) || is_id(&pk2) { continue; }
        let Some(p) = mk_proof(&c2, &s2) else { continue };
        let w = match o_tkey(&pk2, info) { Err(e) => Err(e), Ok(k) => if o_ver(&k, &m2, &x2, &c2, &s2, 2) { Ok(()) } else { Err(Error::ProofVerification) } };
        let cl: Vec<_> = (0..n).map(|i| mk_p(&blinds[i], &x2[i])).collect();
        let m: Vec<_> = m2.iter().map(ev).collect();
        let f = fin(&inputs, &cl, &m, &p, pk2).map(|_| ());
        ck!(c, "C05", f == w, "tampered batch (kind {kind}, {n} elements) gave {:?}, the equation says {:?}", f, w);
    }
}
/// the largest batches, on the toy group
fn ck_huge(c: &mut Ctx) {
    if !TOY { return; }
    let n = [65535, 65536, 65537, 65535 + 65536][c.idx as usize % 4];
    if c.idx < 4 { run_vbatch(c, n) } else { run_pbatch(c, n) }
}
/// every challenge (toy group): accepted exactly when the equation holds; and single-bit changes of real proofs
fn ck_verify(c: &mut Ctx) {
    let sk = g_scalar(c); let pk = gen() * &sk;
    let server = VoprfServer::<CS>::new_with_key(&ser_s(&sk)).expect("valid key");
    let x = g_elem(c); let b = g_scalar(c);
    let client = mk_v(&b, &x);
    let mut rng = g_rng(c);
    let m = x * &sk;
    c.rec("sk", &ser_s(&sk)); c.rec("x", &ser_e(&x));
    let nonce = rand_s(&mut rng);
    let (pc, ps) = o_prove(&nonce, &sk, &pk, &[x], &[m], 1);
    let mut cand: Vec<(S, S)> = vec![(pc, ps)];
    if TOY {
        let s = g_scalar(c);
        let mut k = one();
        for _ in 0..249 { cand.push((k, s)); cand.push((k, ps)); cand.push((pc, k)); k = k + &one(); }
    } else {
        for i in 0..ns() { for (w, v) in [(0, &pc), (1, &ps)] {
            let mut y = ser_s(v); y[i] ^= 1 << c.t.below(8);
            if let Some(y) = de_s(&y) { cand.push(if w == 0 { (y, ps) } else { (pc, y) }); }
        } }
        // a simulated proof: any c, s satisfy t2, t3 but not the hash
        for _ in 0..4 { cand.push((g_scalar(c), g_scalar(c))); }
        if NAME == "P521" || NAME == "P384" { cand.truncate(24); }
    }
    for (a, s) in cand {
        let Some(p) = mk_proof(&a, &s) else { continue };
        let ok = o_ver(&pk, &[x], &[m], &a, &s, 1);
        let f = client.finalize(b"in", &ev(&m), &p, server.get_public_key()).map(|_| ());
        ck!(c, "C05", f == if ok { Ok(()) } else { Err(Error::ProofVerification) }, "proof ({:?}, {:?}): got {:?}, the equation says {ok}", ser_s(&a), ser_s(&s), f);
        ck!(c, "C04,C02", !ok || f.is_ok(), "a proof satisfying the equation was rejected");
    }
}

// ---------------------------------------------------------------- lengths
const LENS: &[usize] = &[0, 1, 255, 256, 65533, 65534, 65535, 65536, 65537, 65792, 131071, 131072];
fn ck_len(c: &mut Ctx) {
    let n = LENS.len();
    let i = c.idx as usize;
    let mk = |c: &mut Ctx, l: usize| { let mut v = c.t.bytes(l); if l > 0 { v[0] = 1; } v };
    if i < n { let x = mk(c, LENS[i]); run_oprf(c, &x); let x = mk(c, LENS[i]); run_voprf(c, &x); let x = mk(c, LENS[i]); let y = mk(c, 5); run_poprf(c, &x, Some(&y)); }
    else if i < 2 * n { let x = mk(c, 9); let y = mk(c, LENS[i - n]); run_poprf(c, &x, Some(&y)); }
    else if i < 2 * n + 4 { let x = mk(c, [65535, 65535, 65536, 65536][i - 2 * n]); let y = mk(c, [65535, 65536, 65535, 65536][i - 2 * n]); run_poprf(c, &x, Some(&y)); }
    else {
        // lengths taken from the source's own literals
        let ls: Vec<usize> = c.lits.ints.iter().map(|x| *x as usize).filter(|x| *x <= 140000).collect();
        if ls.is_empty() { return; }
        let l = ls[(i - 2 * n - 4) / 3 % ls.len()].saturating_add((i - 2 * n - 4) % 3).saturating_sub(1);
        let x = mk(c, l); run_oprf(c, &x); run_voprf(c, &x); let y = c.g_bytes(); run_poprf(c, &x, Some(&y)); run_poprf(c, &y, Some(&x));
    }
}

// ---------------------------------------------------------------- keys
fn mode_of(i: usize) -> Mode { [Mode::Oprf, Mode::Voprf, Mode::Poprf][i] }
fn ck_keys(c: &mut Ctx) {
    c.modes = 0x87;
    let mut seed = match c.t.below(5) { 0 => c.t.bytes(ns()), 1 => vec![], _ => c.g_bytes() };
    if TOY && c.t.below(2) == 0 { let k = [0u16, 1, 2, 3, 17, 128, 254, 255, 256][c.t.below(9)]; seed = [b"ZERO", &k.to_be_bytes()[..], &seed].concat(); }
    let info = match c.t.below(10) { 0 => vec![], 1 => { let n = [65534, 65535, 65536, 65537, 131072][c.t.below(5)]; c.t.bytes(n) } _ => c.g_bytes() };
    run_keys(c, &seed, &info);
    // from an RNG
    for m in 0..3 {
        let mut rng = c.t.fork();
        if TOY && c.t.below(2) == 0 { rng.script = vec![]; }
        let mut o = rng.clone();
        let seed = o.bytes(ns());
        let want = o_dk(&seed, &[], m as u8);
        let (got, pk) = match m {
            0 => (OprfServer::<CS>::new(&mut rng).map(|s| s.serialize().to_vec()), None),
            1 => { let s = VoprfServer::<CS>::new(&mut rng); let pk = s.as_ref().ok().map(|s| s.get_public_key()); (s.map(|s| s.serialize().to_vec()), pk) }
            _ => { let s = PoprfServer::<CS>::new(&mut rng); let pk = s.as_ref().ok().map(|s| s.get_public_key()); (s.map(|s| s.serialize().to_vec()), pk) }
        };
        ck!(c, "C16", rng.log == o.log, "mode {m}: new read other RNG bytes than one seed of a scalar's length");
        chk_server(c, m, "C16", &got, pk, &want);
    }
}
fn chk_server(c: &mut Ctx, m: usize, tags: &'static str, got: &Result<Vec<u8>, Error>, pk: Option<E>, want: &Result<S, Error>) {
    match want {
        Err(e) => { ck!(c, tags, got.as_ref().err() == Some(e), "mode {m}: key generation gave {:?} instead of {:?}", got, e); }
        Ok(s) => {
            let exp = if m == 0 { ser_s(s) } else { [ser_s(s), ser_e(&(gen() * s))].concat() };
            ck!(c, tags, got.as_ref() == Ok(&exp), "mode {m}: key pair {:02x?} instead of {:02x?}", got, exp);
            if let Ok(g) = got { ck!(c, "C16", g.len() >= ns() && g[..ns()] != ser_s(&zero())[..], "mode {m}: zero key"); }
            if let Some(pk) = pk { ck!(c, tags, eqe(&pk, &(gen() * s)), "mode {m}: reported public key is not sk * G"); }
        }
    }
}
fn run_keys(c: &mut Ctx, seed: &[u8], info: &[u8]) {
    c.rec("seed", seed); c.rec("info", info);
    for m in 0..3 {
        let want = o_dk(seed, info, m as u8);
        let d = voprf::derive_key::<CS>(seed, info, mode_of(m));
        ck!(c, if info.len() > 65535 { "C08,C13" } else { "C08" }, match (&d, &want) { (Ok(a), Ok(b)) => eqs(a, b), (Err(a), Err(b)) => a == b, _ => false }, "mode {m}: derive_key differs from DeriveKeyPair (error {:?} / {:?})", d.as_ref().err(), want.as_ref().err());
        let (got, pk) = match m {
            0 => (OprfServer::<CS>::new_from_seed(seed, info).map(|s| s.serialize().to_vec()), None),
            1 => { let s = VoprfServer::<CS>::new_from_seed(seed, info); let pk = s.as_ref().ok().map(|s| s.get_public_key()); (s.map(|s| s.serialize().to_vec()), pk) }
            _ => { let s = PoprfServer::<CS>::new_from_seed(seed, info); let pk = s.as_ref().ok().map(|s| s.get_public_key()); (s.map(|s| s.serialize().to_vec()), pk) }
        };
        chk_server(c, m, if info.len() > 65535 { "C08,C16,C13" } else { "C08,C16" }, &got, pk, &want);
    }
}

// ---------------------------------------------------------------- serialization
/// kinds of a type's fields: s(calar) or e(lement)
const TYPES: &[(&str, &str)] = &[("OprfClient", "s"), ("VoprfClient", "se"), ("PoprfClient", "se"), ("OprfServer", "s"), ("VoprfServer", "se"), ("PoprfServer", "se"), ("Proof", "ss"), ("BlindedElement", "e"), ("EvaluationElement", "e")];
fn native(t: usize, b: &[u8]) -> Result<Vec<u8>, Error> {
    match t {
        0 => OprfClient::<CS>::deserialize(b).map(|x| x.serialize().to_vec()),
        1 => VoprfClient::<CS>::deserialize(b).map(|x| x.serialize().to_vec()),
        2 => PoprfClient::<CS>::deserialize(b).map(|x| x.serialize().to_vec()),
        3 => OprfServer::<CS>::deserialize(b).map(|x| x.serialize().to_vec()),
        4 => VoprfServer::<CS>::deserialize(b).map(|x| x.serialize().to_vec()),
        5 => PoprfServer::<CS>::deserialize(b).map(|x| x.serialize().to_vec()),
        6 => Proof::<CS>::deserialize(b).map(|x| x.serialize().to_vec()),
        7 => BlindedElement::<CS>::deserialize(b).map(|x| x.serialize().to_vec()),
        _ => EvaluationElement::<CS>::deserialize(b).map(|x| x.serialize().to_vec()),
    }
}
fn o_native(kinds: &str, b: &[u8]) -> Result<Vec<u8>, Error> {
    let mut out = vec![]; let mut b = b;
    for k in kinds.chars() {
        let n = if k == 's' { ns() } else { ne() };
        if b.len() < n { return Err(Error::Deserialization); }
        let f = &b[..n]; b = &b[n..];
        let ok = if k == 's' { de_s(f).map(|x| ser_s(&x)) } else { de_e(f).map(|x| ser_e(&x)) };
        match ok { Some(f) => out.extend(f), None => return Err(Error::Deserialization) }
    }
    Ok(out)
}
fn ck_ser(c: &mut Ctx) {
    for (t, (name, kinds)) in TYPES.iter().enumerate() {
        let fields: Vec<Vec<u8>> = kinds.chars().map(|k| if k == 's' { ser_s(&g_scalar(c)) } else { ser_e(&g_elem(c)) }).collect();
        let good = fields.concat();
        ck!(c, "C09,C10", native(t, &good).as_ref() == Ok(&good), "{name}: {:02x?} does not round-trip", good);
        let mut cases: Vec<Vec<u8>> = (0..good.len()).map(|n| good[..n].to_vec()).collect();
        for n in [1, 2, ne(), ns(), 200] { let mut v = good.clone(); v.extend(c.t.bytes(n)); cases.push(v); }
        for (i, k) in kinds.chars().enumerate() {
            let odd = if k == 's' { odd_scalars(&de_s(&fields[i]).unwrap()) } else { odd_elems(&de_e(&fields[i]).unwrap()) };
            for o in odd { let mut f = fields.clone(); f[i] = o.clone(); cases.push(f.concat()); f[i].truncate(1); cases.push(f[..=i].concat()); let mut f = fields.clone(); f[i] = o; f.push(vec![0; 80]); cases.push(f.concat()); }
            // swapped kinds
            let mut f = fields.clone(); f[i] = if k == 's' { ser_e(&gen()) } else { ser_s(&one()) }; cases.push(f.concat());
        }
        for _ in 0..12 { let mut v = good.clone(); let i = c.t.below(v.len()); v[i] ^= 1 << c.t.below(8); cases.push(v); }
        for _ in 0..4 { let n = c.t.below(2 * good.len()); cases.push(c.t.bytes(n)); }
        cases.push(vec![]);
        for b in &cases {
            let (got, want) = (native(t, b), o_native(kinds, b));
            ck!(c, "C10", got == want, "{name}::deserialize({:02x?}) gave {:02x?} instead of {:02x?}", b, got, want);
            ck!(c, "C09", got.is_err() || want.is_err() || got == want, "{name}: {:02x?} re-serializes differently", b);
        }
    }
    // raw keys
    let good = ser_s(&g_scalar(c));
    let mut keys: Vec<Vec<u8>> = odd_scalars(&de_s(&good).unwrap());
    for n in 0..=2 * ns() + 2 { let mut v = good.clone(); v.resize(n, 0); keys.push(v); let mut v = vec![0; n.saturating_sub(ns())]; v.extend(&good); v.truncate(n); keys.push(v); if n < ns() { keys.push(good[ns() - n..].to_vec()); } }
    keys.push(good.clone());
    for k in &keys {
        let want = de_s(k).map(|s| ser_s(&s)).ok_or(Error::Deserialization);
        let o = OprfServer::<CS>::new_with_key(k).map(|s| s.serialize()[..ns()].to_vec());
        let v = VoprfServer::<CS>::new_with_key(k);
        let p = PoprfServer::<CS>::new_with_key(k);
        if let (Ok(v), Some(s)) = (&v, de_s(k)) { ck!(c, "C16", eqe(&v.get_public_key(), &(gen() * &s)) && v.serialize()[ns()..] == ser_e(&(gen() * &s))[..], "public key is not sk * G"); }
        if let (Ok(v), Some(s)) = (&p, de_s(k)) { ck!(c, "C16", eqe(&v.get_public_key(), &(gen() * &s)) && v.serialize()[ns()..] == ser_e(&(gen() * &s))[..], "public key is not sk * G"); }
        let v = v.map(|s| s.serialize()[..ns()].to_vec()); let p = p.map(|s| s.serialize()[..ns()].to_vec());
        for (m, g) in [&o, &v, &p].into_iter().enumerate() { ck!(c, "C10,C16", *g == want, "mode {m}: new_with_key({:02x?}) gave {:02x?} instead of {:02x?}", k, g, want); }
    }
    // values made by the protocol
    let i = { let mut i = c.g_bytes(); if bad_input(&i, 0) || bad_input(&i, 1) { i = vec![3]; } i };
    let mut rng = c.t.fork();
    if let Ok(r) = OprfClient::<CS>::blind(&i, &mut rng) {
        ck!(c, "C09", r.state.serialize().to_vec() == ser_s(&r.state.get_blind()) && r.message.serialize().to_vec() == ser_e(&r.message.value()), "OprfClient / BlindedElement layout");
    }
    if let Ok(r) = VoprfClient::<CS>::blind(&i, &mut rng) {
        ck!(c, "C09", r.state.serialize().to_vec() == [r.state.serialize()[..ns()].to_vec(), ser_e(&r.message.value())].concat(), "VoprfClient layout");
        let x = g_elem(c);
        ck!(c, "C09", ev(&x).serialize().to_vec() == ser_e(&x) && be(&x).serialize().to_vec() == ser_e(&x), "element layout");
    }
}

// ---------------------------------------------------------------- serde
fn leaves(v: &serde_json::Value, out: &mut Vec<Vec<u8>>) {
    match v {
        serde_json::Value::Array(a) if !a.is_empty() && a.iter().all(|x| x.is_u64()) => out.push(a.iter().map(|x| x.as_u64().unwrap() as u8).collect()),
        serde_json::Value::Array(a) => for x in a { leaves(x, out) },
        serde_json::Value::Object(o) => for x in o.values() { leaves(x, out) },
        _ => out.push(vec![]),
    }
}
fn arr(b: &[u8]) -> serde_json::Value { serde_json::Value::Array(b.iter().map(|x| (*x).into()).collect()) }
fn key_kind(k: &str) -> char { if k == "blind" || k.contains("scalar") || k.contains("sk") || k.contains("secret") || k.contains("private") { 's' } else { 'e' } }
fn field_ok(k: char, b: &[u8]) -> bool { if k == 's' { de_s(b).is_some() } else { de_e(b).is_some() } }
fn serde_one<T: serde::Serialize + serde::de::DeserializeOwned>(c: &mut Ctx, name: &str, kinds: &str, v: &T, fields: &[Vec<u8>]) {
    let j = serde_json::to_value(v);
    ck!(c, "C11", j.is_ok(), "{name}: serde serialization failed");
    let Ok(j) = j else { return };
    let mut l = vec![]; leaves(&j, &mut l); l.sort();
    let mut w = fields.to_vec(); w.sort();
    ck!(c, "C11", l == w, "{name}: serde bytes {:02x?} instead of the canonical encodings {:02x?}", l, w);
    let again = |j: &serde_json::Value| -> Option<Vec<Vec<u8>>> { let t: T = serde_json::from_value(j.clone()).ok()?; let mut o = vec![]; leaves(&serde_json::to_value(&t).ok()?, &mut o); o.sort(); Some(o) };
    ck!(c, "C11", again(&j).as_ref() == Some(&w), "{name}: serde does not round-trip {}", j);
    let text = serde_json::to_string(v).unwrap();
    ck!(c, "C11", serde_json::from_str::<T>(&text).ok().map(|t| serde_json::to_string(&t).unwrap()) == Some(text), "{name}: serde text does not round-trip");
    // one field at a time: accepted exactly when the native decoder accepts that field
    let odd = |k: char, f: &[u8], c: &mut Ctx| -> Vec<Vec<u8>> {
        let mut o = if k == 's' { odd_scalars(&de_s(f).unwrap()) } else { odd_elems(&de_e(f).unwrap()) };
        for n in [0, 1, f.len() - 1] { o.push(f[..n].to_vec()); }
        let mut x = f.to_vec(); x.push(0); o.push(x);
        for _ in 0..6 { let mut x = f.to_vec(); let i = c.t.below(x.len()); x[i] ^= 1 << c.t.below(8); o.push(x); }
        o.push(if k == 's' { ser_s(&g_scalar(c)) } else { ser_e(&g_elem(c)) });
        o
    };
    if let serde_json::Value::Object(o) = &j {
        ck!(c, "C11", o.len() == kinds.len(), "{name}: {} serde fields", o.len());
        let seq: Vec<serde_json::Value> = fields.iter().map(|f| arr(f)).collect();
        ck!(c, "C11", again(&serde_json::Value::Array(seq)).map_or(true, |x| x == w), "{name}: serde sequence form gives another value");
        for (key, val) in o {
            let k = key_kind(key);
            let mut f = vec![]; leaves(val, &mut f);
            if f.len() != 1 || !field_ok(k, &f[0]) { ck!(c, "C11", false, "{name}.{key}: not a canonical encoding"); continue; }
            for x in odd(k, &f[0], c) {
                let mut j2 = j.clone(); j2[key.as_str()] = arr(&x);
                let got = again(&j2);
                ck!(c, "C11", got.is_some() == field_ok(k, &x), "{name}.{key}: serde {} {:02x?}", if got.is_some() { "accepts" } else { "rejects" }, x);
                let seqj = serde_json::Value::Array(fields.iter().map(|y| if *y == f[0] { arr(&x) } else { arr(y) }).collect());
                if fields.iter().filter(|y| **y == f[0]).count() == 1 {
                    let got = again(&seqj);
                    ck!(c, "C11", got.is_none() || field_ok(k, &x), "{name}.{key}: serde accepts {:02x?} in sequence form", x);
                }
            }
            let mut j2 = j.clone(); j2.as_object_mut().unwrap().remove(key);
            ck!(c, "C11", again(&j2).is_none(), "{name}: serde accepts a missing {key}");
        }
    } else {
        let k = kinds.chars().next().unwrap();
        for x in odd(k, &fields[0], c) {
            // the same nesting around other bytes
            fn sub(j: &serde_json::Value, x: &[u8]) -> serde_json::Value { match j { serde_json::Value::Array(a) if a.len() == 1 && a[0].is_array() => serde_json::Value::Array(vec![sub(&a[0], x)]), _ => arr(x) } }
            let got = again(&sub(&j, &x));
            ck!(c, "C11", got.is_some() == field_ok(k, &x), "{name}: serde {} {:02x?}", if got.is_some() { "accepts" } else { "rejects" }, x);
        }
    }
}
fn same<T: Clone + serde::Serialize>(c: &mut Ctx, tags: &'static str, name: &str, v: &T) {
    let (a, b) = (serde_json::to_string(v).ok(), serde_json::to_string(&v.clone()).ok());
    ck!(c, tags, a == b, "{name}: the clone differs from the original");
}
fn ck_clone(c: &mut Ctx) {
    let (a, b, k) = (g_scalar(c), g_scalar(c), g_scalar(c));
    let e = g_elem(c);
    c.rec("scalars", &[ser_s(&a), ser_s(&b), ser_s(&k)].concat()); c.rec("element", &ser_e(&e));
    let (fa, fe) = (ser_s(&a), ser_e(&e));
    same(c, "C01", "OprfClient", &mk_o(&a));
    same(c, "C02", "VoprfClient", &mk_v(&a, &e));
    same(c, "C03", "PoprfClient", &mk_p(&a, &e));
    same(c, "C01", "OprfServer", &OprfServer::<CS>::deserialize(&fa).unwrap());
    same(c, "C02", "VoprfServer", &VoprfServer::<CS>::deserialize(&[fa.clone(), fe.clone()].concat()).unwrap());
    same(c, "C03", "PoprfServer", &PoprfServer::<CS>::deserialize(&[fa.clone(), fe.clone()].concat()).unwrap());
    if let Some(p) = mk_proof(&a, &b) { same(c, "C02,C03", "Proof", &p); }
    same(c, "C01,C02,C03", "BlindedElement", &be(&e));
    same(c, "C01,C02,C03", "EvaluationElement", &ev(&e));
    let vs = VoprfServer::<CS>::new_with_key(&ser_s(&k)).unwrap();
    let x = [be(&e)];
    let pe = vs.batch_blind_evaluate_prepare(x.iter()).next().unwrap();
    same(c, "C02,C03", "PreparedEvaluationElement", &pe);
    let ps = PoprfServer::<CS>::new_with_key(&ser_s(&k)).unwrap();
    if let Ok(p) = ps.batch_blind_evaluate_prepare(x.iter(), None) { same(c, "C03", "PoprfPreparedTweak", &p.prepared_tweak); }
}
fn ck_serde(c: &mut Ctx) {
    let (a, b, k) = (g_scalar(c), g_scalar(c), g_scalar(c));
    let e = g_elem(c);
    let (fa, fb, fe) = (ser_s(&a), ser_s(&b), ser_e(&e));
    serde_one(c, "OprfClient", "s", &mk_o(&a), &[fa.clone()]);
    serde_one(c, "VoprfClient", "se", &mk_v(&a, &e), &[fa.clone(), fe.clone()]);
    serde_one(c, "PoprfClient", "se", &mk_p(&a, &e), &[fa.clone(), fe.clone()]);
    serde_one(c, "OprfServer", "s", &OprfServer::<CS>::deserialize(&fa).unwrap(), &[fa.clone()]);
    serde_one(c, "VoprfServer", "se", &VoprfServer::<CS>::deserialize(&[fa.clone(), fe.clone()].concat()).unwrap(), &[fa.clone(), fe.clone()]);
    serde_one(c, "PoprfServer", "se", &PoprfServer::<CS>::deserialize(&[fa.clone(), fe.clone()].concat()).unwrap(), &[fa.clone(), fe.clone()]);
    if let Some(p) = mk_proof(&a, &b) { serde_one(c, "Proof", "ss", &p, &[fa.clone(), fb.clone()]); }
    serde_one(c, "BlindedElement", "e", &be(&e), &[fe.clone()]);
    serde_one(c, "EvaluationElement", "e", &ev(&e), &[fe.clone()]);
    // the prepared types have no native form: their fields follow the field codecs
    let vs = VoprfServer::<CS>::new_with_key(&ser_s(&k)).unwrap();
    let x = [be(&e)];
    let pe = vs.batch_blind_evaluate_prepare(x.iter()).next().unwrap();
    serde_one(c, "PreparedEvaluationElement", "e", &pe, &[ser_e(&(e * &k))]);
    let ps = PoprfServer::<CS>::new_with_key(&ser_s(&k)).unwrap();
    if let (Ok(t), Ok(p)) = (o_tweak(&k, None), ps.batch_blind_evaluate_prepare(x.iter(), None)) { serde_one(c, "PoprfPreparedTweak", "s", &p.prepared_tweak, &[ser_s(&t)]); }
}

// ---------------------------------------------------------------- drop
fn image<T>(p: *const T) -> Vec<u8> { (0..std::mem::size_of::<T>()).map(|i| unsafe { std::ptr::read_volatile((p as *const u8).add(i)) }).collect() }
fn wiped<T>(c: &mut Ctx, name: &str, v: T) {
    let mut ok: Vec<[u8; 8]> = vec![[0; 8]];
    for w in image(&ident()).chunks(8).chain(image(&zero()).chunks(8)) { if w.len() == 8 { ok.push(w.try_into().unwrap()); } }
    let mut m = Box::new(std::mem::MaybeUninit::new(v));
    let before = image(m.as_ptr());
    // every other case drops the value while a panic unwinds
    if c.idx % 2 == 1 {
        struct Guard<T>(*mut T);
        impl<T> Drop for Guard<T> { fn drop(&mut self) { unsafe { std::ptr::drop_in_place(self.0) } } }
        let p = m.as_mut_ptr();
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _g = Guard(p); panic!("unwinding") }));
    } else {
        unsafe { std::ptr::drop_in_place(m.as_mut_ptr()) };
    }
    let after = image(m.as_ptr());
    let left: Vec<usize> = after.chunks(8).enumerate().filter(|(i, w)| w.len() == 8 && !ok.iter().any(|o| o == w) && before[i * 8..i * 8 + 8] == **w).map(|(i, _)| i * 8).collect();
    let odd: Vec<usize> = after.chunks(8).enumerate().filter(|(_, w)| w.len() == 8 && !ok.iter().any(|o| o == w)).map(|(i, _)| i * 8).collect();
    ck!(c, "C14", before.iter().any(|x| *x != 0), "{name}: nothing to wipe");
    ck!(c, "C14", left.is_empty(), "{name}: bytes at {:?} of {} survive the drop", left, after.len());
    ck!(c, "C14", odd.is_empty(), "{name}: after the drop, bytes at {:?} are neither zero nor the identity", odd);
}
fn ck_drop(c: &mut Ctx) {
    let mut t = c.t.fork();
    let (a, b, k) = (rand_s(&mut t), rand_s(&mut t), rand_s(&mut t));
    let e = gen() * &rand_s(&mut t);
    let (fa, fb, fe) = (ser_s(&a), ser_s(&b), ser_e(&e));
    let both = [fa.clone(), fe.clone()].concat();
    wiped(c, "OprfClient", mk_o(&a));
    wiped(c, "VoprfClient", mk_v(&a, &e));
    wiped(c, "PoprfClient", mk_p(&a, &e));
    wiped(c, "OprfServer", OprfServer::<CS>::deserialize(&fa).unwrap());
    wiped(c, "VoprfServer", VoprfServer::<CS>::deserialize(&both).unwrap());
    wiped(c, "PoprfServer", PoprfServer::<CS>::deserialize(&both).unwrap());
    wiped(c, "Proof", Proof::<CS>::deserialize(&[fa, fb].concat()).unwrap());
    wiped(c, "BlindedElement", be(&e));
    wiped(c, "EvaluationElement", ev(&e));
    let x = [be(&e)];
    let vs = VoprfServer::<CS>::new_with_key(&ser_s(&k)).unwrap();
    wiped(c, "PreparedEvaluationElement", vs.batch_blind_evaluate_prepare(x.iter()).next().unwrap());
    let ps = PoprfServer::<CS>::new_with_key(&ser_s(&k)).unwrap();
    let info = c.t.bytes(4);
    if let Ok(p) = ps.batch_blind_evaluate_prepare(x.iter(), Some(&info)) { wiped::<PoprfPreparedTweak<CS>>(c, "PoprfPreparedTweak", p.prepared_tweak); }
    // values made by the protocol itself
    if let Ok(r) = VoprfClient::<CS>::blind(b"drop", &mut t) { let ev2 = vs.blind_evaluate(&mut t, &r.message); wiped(c, "VoprfClient", r.state); wiped(c, "BlindedElement", r.message); wiped(c, "Proof", ev2.proof); wiped(c, "EvaluationElement", ev2.message); }
}

// ---------------------------------------------------------------- the Group implementation itself
fn ck_group(c: &mut Ctx) {
    c.modes = 0xff;
    if TOY { return; }
    let m = c.g_bytes(); let d = { let mut d = c.g_bytes(); d.truncate(300); d };
    c.rec("msg", &m); c.rec("dst", &d);
    let cut = |v: &[u8], c: &mut Ctx| -> (Vec<u8>, Vec<u8>) { let i = c.t.below(v.len() + 1); (v[..i].to_vec(), v[i..].to_vec()) };
    let (m1, m2) = cut(&m, c); let (d1, d2) = cut(&d, c);
    let a = <G as Group>::hash_to_curve::<H>(&[&m1, &m2], &[&d1, &d2]);
    let b = <G as Group>::hash_to_scalar::<H>(&[&m1, &m2], &[&d1, &d2]);
    ck!(c, "C07", <G as Group>::hash_to_curve::<H>(&[&m], &[]).is_err() && <G as Group>::hash_to_scalar::<H>(&[&m], &[]).is_err(), "hashing without a tag succeeded");
    if !d.is_empty() {
        ck!(c, "C07,C15", matches!(&a, Ok(x) if eqe(x, &h2c(&m, &d))), "hash_to_curve is not the suite's");
        ck!(c, "C07,C05,C08,C17", matches!(&b, Ok(x) if eqs(x, &h2s(&m, &d))), "hash_to_scalar is not the suite's");
    }
    let (e, s) = (g_elem(c), g_scalar(c));
    ck!(c, "C09,C11", G::serialize_elem(e).to_vec() == ser_e(&e) && G::serialize_scalar(s).to_vec() == ser_s(&s), "serialize is not the canonical encoding");
    ck!(c, "C09", G::serialize_scalar(zero()).to_vec() == ser_s(&zero()) && G::serialize_elem(ident()).len() == ne(), "serialize of zero or the identity");
    ck!(c, "C04,C08,C16,C17", eqe(&G::base_elem(), &gen()), "base_elem is not the generator");
    ck!(c, "C10,C13,C15,C17", is_id(&G::identity_elem()) && bool::from(G::is_identity_elem(ident())) && !bool::from(G::is_identity_elem(e)), "identity test");
    ck!(c, "C08,C10,C16,C17", bool::from(G::is_zero_scalar(zero())) && !bool::from(G::is_zero_scalar(s)), "zero test");
    ck!(c, "C01,C02,C03,C17", eqs(&(G::invert_scalar(s) * &s), &one()), "invert_scalar is not the inverse");
    let mut r = g_rng(c); let mut o = r.clone();
    let x = G::random_scalar(&mut r); let y = rand_s(&mut o);
    ck!(c, "C06,C15", eqs(&x, &y) && r.log == o.log && !is_z(&x), "random_scalar is not one non-zero draw");
    for b in odd_elems(&e).into_iter().chain([ser_e(&e)]) { let g = G::deserialize_elem(&b).map(|x| ser_e(&x)); ck!(c, "C10,C11,C09", g == de_e(&b).map(|x| ser_e(&x)).ok_or(Error::Deserialization), "deserialize_elem({:02x?}) gave {:02x?}", b, g); }
    for b in odd_scalars(&s).into_iter().chain([ser_s(&s)]) { let g = G::deserialize_scalar(&b).map(|x| ser_s(&x)); ck!(c, "C10,C11,C09,C16", g == de_s(&b).map(|x| ser_s(&x)).ok_or(Error::Deserialization), "deserialize_scalar({:02x?}) gave {:02x?}", b, g); }
}

#[allow(unused)] fn unused() { let _: Option<GenericArray<u8, generic_array::typenum::U1>> = None; let _ = H::new(); }
/// name, properties a panic breaks, cases (quick: real, toy), check
pub const CHECKS: &[(&str, &str, u64, u64, fn(&mut Ctx))] = &[
    ("oprf", "C01,C13", 25, 500, ck_oprf),
    ("voprf", "C02,C13", 16, 500, ck_voprf),
    ("poprf", "C03,C13,C17", 16, 800, ck_poprf),
    ("vbatch", "C02,C04,C12", 12, 400, ck_vbatch),
    ("pbatch", "C03,C04,C12", 12, 400, ck_pbatch),
    ("huge", "C12,C04,C02,C03", 0, 8, ck_huge),
    ("verify", "C05", 2, 12, ck_verify),
    ("len", "C13", 28, 160, ck_len),
    ("keys", "C08,C16", 20, 400, ck_keys),
    ("ser", "C09,C10", 8, 60, ck_ser),
    ("serde", "C11", 6, 60, ck_serde),
    ("clone", "C01,C02,C03", 2, 10, ck_clone),
    ("drop", "C14", 6, 60, ck_drop),
    ("group", "C07,C10", 40, 0, ck_group),
];
