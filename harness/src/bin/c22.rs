//! C22: proofs survive serialisation, and malformed bytes are refused.
use ark_bls12_381::{Fq, Fq12, Fq2, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_dh_commitments::identity::{HomomorphicPlaceholderValue, IdentityOutput};
use ark_ec::{pairing::*, AffineRepr, CurveGroup};
use ark_ff::{Field, UniformRand};
use ark_ip_proofs::applications::groth16_aggregation::AggregateProof;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use ark_std::rand::{rngs::StdRng, Rng};
use blake2::{Blake2b, Blake2s};
use digest::Digest;
use ripp_mon::*;

const MODES: [Compress; 2] = [Compress::Yes, Compress::No];

fn mode(m: Compress) -> &'static str {
    match m {
        Compress::Yes => "compressed",
        Compress::No => "uncompressed",
    }
}
fn enc<T: CanonicalSerialize>(t: &T, m: Compress) -> Vec<u8> {
    let mut b = vec![];
    t.serialize_with_mode(&mut b, m).expect("serialise into memory");
    b
}
fn dec<T: CanonicalDeserialize>(b: &[u8], m: Compress, v: Validate) -> Result<T, ark_serialize::SerializationError> {
    T::deserialize_with_mode(b, m, v)
}

/// Everything monitored of one value on the wire; V is the same wire format spelt out in the
/// arithmetic library's own types.
fn wire<T, V>(c: &mut Case, what: &str, t: &T, accept: impl Fn(&T) -> bool)
where
    T: CanonicalSerialize + CanonicalDeserialize,
    V: CanonicalSerialize + CanonicalDeserialize,
{
    c.event(what);
    for m in MODES {
        let b = enc(t, m);
        c.note(mode(m), b.len());
        c.check("announced size is the size", t.serialized_size(m) == b.len());
        c.check("serialising again gives the same bytes", enc(t, m) == b);
        for v in [Validate::Yes, Validate::No] {
            let x: T = c.must("decode what was encoded", || dec(&b, m, v));
            c.check("decoded value encodes to the same bytes", enc(&x, m) == b);
            c.check("decoded value is the value in the other encoding", enc(&x, Compress::No) == enc(t, Compress::No));
            let ok = guarded(|| accept(&x)).unwrap_or(false);
            c.check("the proof that travelled is accepted", ok);
        }
        // a reader is left exactly after the value
        let mut s = b.clone();
        let tail: Vec<u8> = (0..c.rng.gen_range(1..40)).map(|_| c.rng.gen()).collect();
        s.extend(&tail);
        let mut rd = &s[..];
        let x: T = c.must("decode from a longer stream", || T::deserialize_with_mode(&mut rd, m, Validate::No));
        c.check("reader stops after the value", rd == &tail[..] && enc(&x, m) == b);
        // two values in a row
        let mut s = b.clone();
        s.extend(&b);
        let mut rd = &s[..];
        let r = guarded(|| -> Result<(T, T), ark_serialize::SerializationError> {
            Ok((
                T::deserialize_with_mode(&mut rd, m, Validate::No)?,
                T::deserialize_with_mode(&mut rd, m, Validate::No)?,
            ))
        });
        c.check("two values from one stream", matches!(r, Ok(Ok(_))) && rd.is_empty());

        // truncation: refused at every length
        let mut cuts: Vec<usize> = if b.len() <= 700 { (0..b.len()).collect() } else { vec![0, 1, 7, 8, 9, b.len() - 1, b.len() / 2] };
        if b.len() > 700 {
            cuts.extend((0..120).map(|_| c.rng.gen_range(0..b.len())));
        }
        for k in cuts {
            c.must_err("truncated", || dec::<T>(&b[..k], m, Validate::No));
        }
        for _ in 0..2 {
            if b.is_empty() {
                break;
            }
            let k = c.rng.gen_range(0..b.len());
            c.must_err("truncated (validated)", || dec::<T>(&b[..k], m, Validate::Yes));
        }
        // alteration: whatever still decodes consists of group elements
        let n = if c.tier == Tier::Thorough { 40 } else { 10 };
        for _ in 0..n {
            if b.is_empty() {
                break;
            }
            let mut x = b.clone();
            let what = match c.rng.gen_range(0..6) {
                0 => {
                    let k = c.rng.gen_range(0..x.len());
                    x[k] ^= 1 << c.rng.gen_range(0..8);
                    "bit flipped"
                }
                1 => {
                    let k = c.rng.gen_range(0..x.len());
                    x[k] = c.rng.gen();
                    "byte replaced"
                }
                2 => {
                    let k = c.rng.gen_range(0..x.len());
                    let l = (k + c.rng.gen_range(1..100)).min(x.len());
                    x[k..l].iter_mut().for_each(|y| *y = 0);
                    "stretch zeroed"
                }
                3 => {
                    let k = c.rng.gen_range(0..x.len());
                    let l = (k + c.rng.gen_range(1..100)).min(x.len());
                    x[k..l].iter_mut().for_each(|y| *y = 0xff);
                    "stretch of ones"
                }
                4 => {
                    let k = c.rng.gen_range(0..x.len());
                    x.remove(k);
                    "byte dropped"
                }
                _ => {
                    let v: u64 = [u64::MAX, 1 << 40, 1 << 20, 0, 1][c.rng.gen_range(0..5)];
                    for (y, z) in x.iter_mut().zip(v.to_le_bytes()) {
                        *y = z;
                    }
                    "count replaced"
                }
            };
            c.event(&format!("altered: {what}"));
            match guarded(|| dec::<T>(&x, m, Validate::Yes)) {
                Err(p) => violated(format!("decoding altered bytes ({what}, {}) panicked: {p}", mode(m))),
                Ok(Err(_)) => c.event("altered bytes refused"),
                Ok(Ok(y)) => {
                    c.event("altered bytes decoded");
                    let v: V = bridge(&y);
                    c.check("what decodes consists of group elements", v.check().is_ok());
                }
            }
            match guarded(|| dec::<T>(&x, m, Validate::No).is_ok()) {
                Err(p) => violated(format!("decoding altered bytes unchecked ({what}, {}) panicked: {p}", mode(m))),
                Ok(_) => {}
            }
        }
    }
}

fn sizes(c: &mut Case, max: u32) -> usize {
    let i = c.i;
    let m = if c.tier == Tier::Thorough { max + 3 } else { max };
    let n = pow2(i, &mut c.rng, m);
    c.note("n", n);
    n
}

fn gipa<C: Cfg, D: Digest>(c: &mut Case) {
    let n = sizes(c, 3);
    c.note("cfg", C::NAME);
    let s = (shape(&mut c.rng), shape(&mut c.rng));
    let i = Inst::<C>::gipa::<D>(c, n, s);
    c.key(&(i.a.clone(), i.b.clone()));
    let p = c.must("prove", || gipa_prove::<C, D>(&i));
    c.check("a clone is equal", ser(&p.clone()) == ser(&p));
    wire::<_, GView<C>>(c, "GIPAProof", &p, |q| gipa_verify::<C, D>(i.ck(), i.com(), q).unwrap_or(false));
}

fn tipa<C: TCfg, D: Digest>(c: &mut Case) {
    let n = sizes(c, 3);
    c.note("cfg", C::NAME);
    let t = tnontrivial::<C, D>(c, n);
    c.key(&(t.i.a.clone(), t.i.b.clone()));
    let p = c.must("prove", || {
        TArg::<C, D>::prove_with_srs_shift(&t.srs, (&t.i.a, &t.i.b), t.i.ck(), &t.r)
    });
    c.check("a clone is equal", ser(&p.clone()) == ser(&p));
    wire::<_, TView<C>>(c, "TIPAProof", &p, |q| tverify::<C, D>(&t, t.i.com(), q).unwrap_or(false));
}

fn ssm<C: SCfg, V: Flavour<C>, W>(c: &mut Case)
where
    W: CanonicalSerialize + CanonicalDeserialize,
    V::Proof<Blake2b>: CanonicalSerialize + CanonicalDeserialize,
{
    let n = sizes(c, 3);
    c.note("cfg", C::NAME);
    let i = S::<C, V>::nontrivial(c, n);
    c.key(&(i.a.clone(), i.b));
    let p = c.must("prove", || S::<C, V>::prove::<Blake2b>(&i));
    c.check("a clone is equal", ser(&p.clone()) == ser(&p));
    wire::<_, W>(c, if V::NAME == "trusted" { "TIPAWithSSMProof" } else { "GIPAProof over a public vector" }, &p, |q| {
        S::<C, V>::verify::<Blake2b>(&i, i.com(), &i.b, q).unwrap_or(false)
    });
}

fn opening<P: Pairing, T: Pc<P>>(c: &mut Case) {
    let i = c.i;
    let x = pow2(i % 3, &mut c.rng, 2) - 1;
    let y = if T::NAME == "trusted" { c.rng.gen_range(0..6) } else { pow2(i / 3, &mut c.rng, 2) - 1 };
    let i = M::<P, T>::inst(c, x, y);
    c.key(&(i.rows.clone(), i.z));
    let o = c.must("open", || M::<P, T>::open::<Blake2b>(&i));
    wire::<_, Parts<P, T>>(c, "OpeningProof", &o, |q| M::<P, T>::verify::<Blake2b>(&i, &i.e, q).unwrap_or(false));
    // the commitment itself travels
    wire::<_, (PairingOutput<P>, Vec<P::G1>)>(c, "commitment", &(i.com, i.comms.clone()), |q| {
        T::verify::<Blake2b>(&i.vk, &q.0, &i.z, &i.e, &o).unwrap_or(false)
    });
}

fn aggregate<P: Pairing>(c: &mut Case) {
    let n = sizes(c, 2);
    let k = c.rng.gen_range(0..3);
    let b = Batch::<P>::simulated::<Blake2b>(c, n, k);
    c.key(&(b.a.clone(), b.b.clone()));
    let p: AggregateProof<P, Blake2b> = c.must("aggregate", || b.aggregate::<Blake2b>());
    wire::<_, AggView<P>>(c, "AggregateProof", &p, |q| b.verify::<Blake2b>(q).unwrap_or(false));
}

/// The commitment scheme's own wire types.
fn values<P: Pairing>(c: &mut Case) {
    let n = if c.i < 5 { c.i } else { c.rng.gen_range(0..20) };
    c.note("n", n);
    let s = shape(&mut c.rng);
    let (f, g) = (scalars::<Fp<P>>(&mut c.rng, n, s), points::<P::G1>(&mut c.rng, n, s));
    c.key(&(f.clone(), g.clone()));
    let o = IdentityOutput(f.clone());
    wire::<_, Vec<Fp<P>>>(c, "IdentityOutput", &o, |q| *q == o && q.0 == f && q.clone() == *q);
    let o = IdentityOutput(g.clone());
    wire::<_, Vec<P::G1>>(c, "IdentityOutput", &o, |q| *q == o && q.0 == g && q.clone() == *q);
    let h = IdentityOutput(g.iter().map(|_| egh::<P>() * Fp::<P>::rand(&mut c.rng)).collect::<Vec<_>>());
    wire::<_, Vec<PairingOutput<P>>>(c, "IdentityOutput", &h, |q| *q == h);
    wire::<_, ()>(c, "HomomorphicPlaceholderValue", &HomomorphicPlaceholderValue, |q| *q == HomomorphicPlaceholderValue);
    c.check("placeholder takes no space", ser(&HomomorphicPlaceholderValue).is_empty());
}

// --------------------------------------------------------------- elements outside the groups

/// On the curve but outside the subgroup, or not on the curve.
fn bad_g1(r: &mut StdRng, on_curve: bool) -> G1Projective {
    loop {
        let x = Fq::rand(r);
        if on_curve {
            if let Some(p) = G1Affine::get_point_from_x_unchecked(x, r.gen()) {
                if !p.is_in_correct_subgroup_assuming_on_curve() {
                    return p.into();
                }
            }
        } else {
            let p = G1Affine::new_unchecked(x, Fq::rand(r));
            if !p.is_on_curve() {
                return p.into();
            }
        }
    }
}
fn bad_g2(r: &mut StdRng, on_curve: bool) -> G2Projective {
    loop {
        let x = Fq2::rand(r);
        if on_curve {
            if let Some(p) = G2Affine::get_point_from_x_unchecked(x, r.gen()) {
                if !p.is_in_correct_subgroup_assuming_on_curve() {
                    return p.into();
                }
            }
        } else {
            let p = G2Affine::new_unchecked(x, Fq2::rand(r));
            if !p.is_on_curve() {
                return p.into();
            }
        }
    }
}
fn bad_gt(r: &mut StdRng) -> PairingOutput<B381> {
    loop {
        let f = Fq12::rand(r);
        if !f.pow(ark_bls12_381::Fr::characteristic()).eq(&Fq12::ONE) {
            return PairingOutput(f);
        }
    }
}

/// The view with one bad element must not decode as T; it does when nothing is checked.
fn outside<T: CanonicalDeserialize, V: CanonicalSerialize>(c: &mut Case, what: &str, v: &V, on_curve: bool) {
    c.event(what);
    for m in MODES {
        if matches!(m, Compress::Yes) && !on_curve {
            continue; // the compressed form cannot express it
        }
        let b = enc(v, m);
        if guarded(|| dec::<T>(&b, m, Validate::No).is_ok()).unwrap_or(false) {
            c.event("decodes when nothing is checked");
        }
        c.must_err(&format!("{what}, {}", mode(m)), || dec::<T>(&b, m, Validate::Yes));
    }
}

fn foreign(c: &mut Case) {
    type P = B381;
    type D = Blake2b;
    let n = 1 << c.rng.gen_range(1..4);
    let on = c.rng.gen_bool(0.5);
    let mut r = c.fork();
    c.note("on curve", on);
    c.note("n", n);
    match c.i % 7 {
        0 => {
            let i = Inst::<PairCfg<P>>::gipa::<D>(c, n, (Shape::Random, Shape::Random));
            let p = c.must("prove", || gipa_prove::<PairCfg<P>, D>(&i));
            let v: GView<PairCfg<P>> = bridge(&p);
            c.key(&i.a);
            let mut x = v.clone();
            x.1 .0 = bad_g1(&mut r, on);
            outside::<Proof<PairCfg<P>, D>, _>(c, "base message outside G1", &x, on);
            let mut x = v.clone();
            x.1 .1 = bad_g2(&mut r, on);
            outside::<Proof<PairCfg<P>, D>, _>(c, "base message outside G2", &x, on);
            let k = c.rng.gen_range(0..v.0.len());
            let mut x = v.clone();
            match c.rng.gen_range(0..4) {
                0 => x.0[k].0 .0 = bad_gt(&mut r),
                1 => x.0[k].1 .1 = bad_gt(&mut r),
                2 => x.0[k].0 .2 .0[0] = bad_gt(&mut r),
                _ => x.0[k].1 .2 .0[0] = bad_gt(&mut r),
            }
            outside::<Proof<PairCfg<P>, D>, _>(c, "round element outside the target group", &x, true);
        }
        1 => {
            let i = Inst::<ScalarPedCfg<P>>::gipa::<D>(c, n, (Shape::Random, Shape::Random));
            let p = c.must("prove", || gipa_prove::<ScalarPedCfg<P>, D>(&i));
            let v: GView<ScalarPedCfg<P>> = bridge(&p);
            c.key(&i.a);
            let k = c.rng.gen_range(0..v.0.len());
            let mut x = v.clone();
            x.0[k].0 .0 = bad_g2(&mut r, on);
            outside::<Proof<ScalarPedCfg<P>, D>, _>(c, "round element outside G2", &x, on);
            let mut x = v.clone();
            x.0[k].1 .1 = bad_g1(&mut r, on);
            outside::<Proof<ScalarPedCfg<P>, D>, _>(c, "round element outside G1", &x, on);
            let mut x = v.clone();
            x.0[k].1 .2 = bad_g1(&mut r, on);
            outside::<Proof<ScalarPedCfg<P>, D>, _>(c, "product commitment outside G1", &x, on);
            // a scalar that is no canonical field element: the last 32 bytes
            for m in MODES {
                let mut b = enc(&p, m);
                let l = b.len();
                b[l - 32..].iter_mut().for_each(|y| *y = 0xff);
                for v in [Validate::Yes, Validate::No] {
                    c.must_err("scalar beyond the field", || dec::<Proof<ScalarPedCfg<P>, D>>(&b, m, v));
                }
            }
        }
        2 => {
            let t = tnontrivial::<MsmCfg<P>, D>(c, n);
            let p = c.must("prove", || TArg::<MsmCfg<P>, D>::prove_with_srs_shift(&t.srs, (&t.i.a, &t.i.b), t.i.ck(), &t.r));
            let v: TView<MsmCfg<P>> = tview::<MsmCfg<P>, D>(&p);
            c.key(&t.i.a);
            type T = TProof<MsmCfg<P>, D>;
            let mut x = v.clone();
            x.1 .0 = bad_g2(&mut r, on);
            outside::<T, _>(c, "left final key outside G2", &x, on);
            let mut x = v.clone();
            x.1 .1 = bad_g1(&mut r, on);
            outside::<T, _>(c, "right final key outside G1", &x, on);
            let mut x = v.clone();
            x.2 .0 = bad_g2(&mut r, on);
            outside::<T, _>(c, "left key opening outside G2", &x, on);
            let mut x = v.clone();
            x.2 .1 = bad_g1(&mut r, on);
            outside::<T, _>(c, "right key opening outside G1", &x, on);
            let mut x = v.clone();
            x.0 .1 .0 = bad_g1(&mut r, on);
            outside::<T, _>(c, "base message outside G1", &x, on);
        }
        3 => {
            type C = MsmCfg<P>;
            let i = S::<C, Trusted>::nontrivial(c, n);
            let p = c.must("prove", || S::<C, Trusted>::prove::<D>(&i));
            let (v, t) = <Trusted as Flavour<C>>::open::<D>(&p);
            c.key(&i.a);
            type T = <Trusted as Flavour<C>>::Proof<D>;
            outside::<T, _>(c, "left final key outside G2", &(v.clone(), (bad_g2(&mut r, on), t.1)), on);
            outside::<T, _>(c, "left key opening outside G2", &(v.clone(), (t.0, bad_g2(&mut r, on))), on);
            let mut x = v.clone();
            x.1 .0 = bad_g1(&mut r, on);
            outside::<T, _>(c, "base message outside G1", &(x, t), on);
            let mut x = v.clone();
            let k = c.rng.gen_range(0..v.0.len());
            x.0[k].1 .2 .0[0] = bad_g1(&mut r, on);
            outside::<T, _>(c, "round element outside G1", &(x, t), on);
            let mut x = v.clone();
            x.0[k].0 .0 = bad_gt(&mut r);
            outside::<T, _>(c, "round element outside the target group", &(x, t), true);
        }
        4 => {
            let o = M::<P, Structured>::inst(c, n - 1, 3);
            let p = c.must("open", || M::<P, Structured>::open::<D>(&o));
            let v: Parts<P, Structured> = M::<P, Structured>::parts::<D>(&p);
            c.key(&(o.rows.clone(), o.z));
            type T = <Structured as Pc<P>>::Open<D>;
            let mut x = v.clone();
            x.1 = bad_g1(&mut r, on);
            outside::<T, _>(c, "folded row commitment outside G1", &x, on);
            let mut x = v.clone();
            x.2 = bad_g1(&mut r, on);
            outside::<T, _>(c, "opening outside G1", &x, on);
        }
        5 => {
            let o = M::<P, Transparent>::inst(c, n - 1, 3);
            let p = c.must("open", || M::<P, Transparent>::open::<D>(&o));
            let v: Parts<P, Transparent> = M::<P, Transparent>::parts::<D>(&p);
            c.key(&(o.rows.clone(), o.z));
            type T = <Transparent as Pc<P>>::Open<D>;
            let mut x = v.clone();
            x.1 = bad_g1(&mut r, on);
            outside::<T, _>(c, "folded row commitment outside G1", &x, on);
            let mut x = v.clone();
            x.2 .0[0].1 .0 = bad_g1(&mut r, on);
            outside::<T, _>(c, "round element outside G1", &x, on);
        }
        _ => {
            let b = Batch::<P>::simulated::<D>(c, n.min(4), 1);
            let p = c.must("aggregate", || b.aggregate::<D>());
            let v: AggView<P> = bridge(&p);
            c.key(&(b.a.clone(), b.c.clone()));
            type T = AggregateProof<P, D>;
            let mut x = v.clone();
            match c.rng.gen_range(0..4) {
                0 => x.0 .0 = bad_gt(&mut r),
                1 => x.0 .1 = bad_gt(&mut r),
                2 => x.0 .2 = bad_gt(&mut r),
                _ => x.1 .0 = bad_gt(&mut r),
            }
            outside::<T, _>(c, "aggregate element outside the target group", &x, true);
            let mut x = v.clone();
            x.1 .1 = bad_g1(&mut r, on);
            outside::<T, _>(c, "aggregate sum outside G1", &x, on);
        }
    }
    for t in [G1Projective::rand(&mut r).into_affine()] {
        assert!(t.is_on_curve() && !t.is_zero());
    }
}

fn main() {
    main_with(Plan {
        property: "C22",
        rule: "every serialisable proof type at several sizes, both encodings, checked and unchecked decoding; truncations (all for short values), byte alterations, streams with tails, crafted elements off the curve, outside the subgroup and beyond the field; non-trivial: an honest value made the round trip and was judged, distinct by its inputs",
        assumptions: vec![
            "the arithmetic library's own serialisation and subgroup checks are trusted as the reference",
            "polynomial openings and aggregates have serialisation only under the verif-hooks feature: theirs is derived there",
        ],
        required: vec![
            "GIPAProof", "TIPAProof", "TIPAWithSSMProof", "GIPAProof over a public vector", "OpeningProof", "AggregateProof",
            "IdentityOutput", "HomomorphicPlaceholderValue", "altered bytes refused", "altered bytes decoded",
            "decodes when nothing is checked", "scalar beyond the field", "aggregate sum outside G1",
        ],
        workloads: vec![
            wl("gipa-pairing", 6, 60, gipa::<PairCfg<B381>, Blake2b>),
            wl("gipa-msm", 8, 60, gipa::<MsmCfg<B381>, Blake2b>),
            wl("gipa-scalar", 14, 100, gipa::<ScalarCfg<B381>, Blake2s>),
            wl("gipa-pedersen-out", 8, 60, gipa::<ScalarPedCfg<B377>, Blake2b>),
            wl("gipa-afgho-out", 6, 60, gipa::<MsmAfghoCfg<B381>, Blake2b>),
            wl("tipa-pairing", 6, 60, tipa::<PairCfg<B381>, Blake2b>),
            wl("tipa-msm", 6, 60, tipa::<MsmCfg<B377>, Blake2s>),
            wl("tipa-scalar", 10, 80, tipa::<ScalarCfg<B381>, Blake2b>),
            wl("ssm-plain", 10, 80, ssm::<ScalarCfg<B381>, Plain, SView<ScalarCfg<B381>>>),
            wl("ssm-plain-msm", 6, 60, ssm::<MsmCfg<B381>, Plain, SView<MsmCfg<B381>>>),
            wl("ssm-trusted", 8, 80, ssm::<MsmCfg<B381>, Trusted, SumView<B381>>),
            wl("opening-trusted", 8, 80, opening::<B381, Structured>),
            wl("opening-transparent", 8, 80, opening::<B381, Transparent>),
            wl("aggregate", 6, 60, aggregate::<B381>),
            wl("values", 20, 200, values::<B381>),
            wl("values-377", 8, 80, values::<B377>),
            wl("foreign", 28, 280, foreign),
        ],
    })
}
