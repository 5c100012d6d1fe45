//! C06: honest trusted-setup inner-product arguments are always accepted.
use ark_ff::{Field, Zero};
use ark_std::rand::Rng;
use blake2::{Blake2b, Blake2s};
use digest::Digest;
use ripp_mon::*;

/// Faults in both derivations: zero 128-bit challenges and digests that are no field element.
type Dz = FaultD<Blake2b, 60, 60>;

fn honest<C: TCfg, D: Digest>(max_quick: u32, max_thorough: u32) -> impl Fn(&mut Case) {
    move |c| {
        let max = if c.tier == Tier::Thorough { max_thorough } else { max_quick };
        let n = pow2(c.i, &mut c.rng, max);
        one::<C, D>(c, n);
    }
}

fn big<C: TCfg, D: Digest>(quick: &'static [u32], thorough: &'static [u32]) -> impl Fn(&mut Case) {
    move |c| {
        let n = large(c.i, if c.tier == Tier::Thorough { thorough } else { quick });
        c.event("large");
        one::<C, D>(c, n);
    }
}

fn one<C: TCfg, D: Digest>(c: &mut Case, n: usize) {
    let s = (shape(&mut c.rng), shape(&mut c.rng));
    c.note("cfg", C::NAME);
    c.note("n", n);
    c.note("shapes", format!("{s:?}"));
    c.event(C::NAME);
    let (srs, i) = tipa_inst::<C, D>(c, n, s);
    c.key(&(i.a.clone(), i.b.clone()));
    let v = srs.get_verifier_key();
    take_faults();
    let p = c.must("prove", || TArg::<C, D>::prove(&srs, (&i.a, &i.b), i.ck()));
    let (z, ff) = take_faults();
    c.events_n("zero-challenge digests injected", z);
    c.events_n("non-field digests injected", ff);
    c.must_accept("verify", || TArg::<C, D>::verify(&v, &i.ck_t, i.com(), &p));
    c.must_accept("verify a clone with shift one", || {
        TArg::<C, D>::verify_with_srs_shift(&v, &i.ck_t, i.com(), &p.clone(), &F::<C>::ONE)
    });
    // shifted keys
    let r = if c.rng.gen_bool(0.3) {
        let e = edge_scalar::<F<C>>(&mut c.rng);
        if e.is_zero() { -F::<C>::ONE } else { e }
    } else {
        nonzero::<F<C>>(&mut c.rng)
    };
    c.note("r", r);
    let j = shifted_inst::<C>(&i, r);
    let q = c.must("prove_with_srs_shift", || {
        TArg::<C, D>::prove_with_srs_shift(&srs, (&j.a, &j.b), j.ck(), &r)
    });
    c.must_accept("verify_with_srs_shift", || {
        TArg::<C, D>::verify_with_srs_shift(&v, &j.ck_t, j.com(), &q, &r)
    });
    // Rescaling the messages along with the keys keeps the left commitment.
    let pr = powers(r, n);
    let a_r: Vec<ML<C>> = i.a.iter().zip(&pr).map(|(a, r)| scale::<F<C>, _>(a, *r)).collect();
    let k = Inst::<C>::with_keys(a_r, i.b.clone(), (j.ck_a.clone(), i.ck_b.clone(), i.ck_t.clone()));
    c.check("rescaled commitment is unchanged", k.com_a == i.com_a);
    let q = c.must("prove_with_srs_shift (rescaled)", || {
        TArg::<C, D>::prove_with_srs_shift(&srs, (&k.a, &k.b), k.ck(), &r)
    });
    c.must_accept("verify_with_srs_shift (rescaled)", || {
        TArg::<C, D>::verify_with_srs_shift(&v, &k.ck_t, (&i.com_a, &i.com_b, &k.com_t), &q, &r)
    });
}

fn reuse<C: TCfg, D: Digest>(c: &mut Case) {
    let n = 2 << c.rng.gen_range(0..3);
    c.note("cfg", C::NAME);
    c.note("n", n);
    let (srs, i) = tipa_inst::<C, D>(c, n, (Shape::Random, Shape::Random));
    let s = (shape(&mut c.rng), shape(&mut c.rng));
    let (a2, b2) = (C::left(&mut c.rng, n, s.0), C::right(&mut c.rng, n, s.1));
    let j = Inst::<C>::with_keys(a2, b2, (i.ck_a.clone(), i.ck_b.clone(), i.ck_t.clone()));
    c.key(&(i.a.clone(), j.a.clone()));
    let v = srs.get_verifier_key();
    let p = c.must("prove first", || TArg::<C, D>::prove(&srs, (&i.a, &i.b), i.ck()));
    let q = c.must("prove second", || TArg::<C, D>::prove(&srs.clone(), (&j.a, &j.b), j.ck()));
    c.must_accept("verify second", || TArg::<C, D>::verify(&v, &i.ck_t, j.com(), &q));
    c.must_accept("verify first", || TArg::<C, D>::verify(&v.clone(), &i.ck_t, i.com(), &p));
}

fn main() {
    main_with(Plan {
        property: "C06",
        rule: "every power-of-two size from 1 up to the bound, ten vector shapes a side, with and without a shifted left key (random and edge shifts), five instantiations, two curves, a digest injecting zero challenges and non-field outputs; non-trivial: an honest proof was produced and judged, distinct by its messages",
        assumptions: vec!["curve and field arithmetic, polynomial division and the hash functions are trusted"],
        required: vec!["pairing", "msm-g1", "scalar", "scalar-pedersen-out", "msm-g1-afgho-out", "zero-challenge digests injected", "non-field digests injected", "accepted", "large"],
        workloads: vec![
            wl("pairing", 14, 200, honest::<PairCfg<B381>, Blake2b>(4, 7)),
            wl("pairing-377", 6, 60, honest::<PairCfg<B377>, Blake2s>(2, 5)),
            wl("msm", 14, 200, honest::<MsmCfg<B381>, Blake2b>(4, 8)),
            wl("scalar", 24, 300, honest::<ScalarCfg<B381>, Blake2b>(7, 10)),
            wl("scalar-377", 10, 100, honest::<ScalarCfg<B377>, Blake2s>(4, 7)),
            wl("scalar-pedersen-out", 16, 200, honest::<ScalarPedCfg<B381>, Blake2s>(5, 8)),
            wl("msm-afgho-out", 10, 150, honest::<MsmAfghoCfg<B381>, Blake2b>(4, 7)),
            wl("retry-scalar", 40, 400, honest::<ScalarCfg<B381>, Dz>(4, 7)),
            wl("retry-pairing", 8, 80, honest::<PairCfg<B381>, Dz>(2, 5)),
            wl("large-scalar", 3, 12, big::<ScalarCfg<B381>, Blake2b>(&[9, 10, 11], &[9, 10, 11, 12, 13, 14])),
            wl("large-msm", 2, 8, big::<MsmCfg<B381>, Blake2b>(&[9, 10], &[9, 10, 11, 12])),
            wl("large-pairing", 1, 6, big::<PairCfg<B381>, Blake2b>(&[9], &[9, 10, 11])),
            wl("reuse-scalar", 12, 120, reuse::<ScalarCfg<B381>, Blake2b>),
            wl("reuse-pairing", 6, 60, reuse::<PairCfg<B381>, Blake2b>),
            wl("mini-pairing", 320, 2000, honest::<PairCfg<Mini>, Blake2b>(6, 8)),
            wl("mini-msm", 320, 2000, honest::<MsmCfg<Mini>, Blake2b>(7, 9)),
            wl("mini-scalar", 320, 2000, honest::<ScalarCfg<Mini>, Blake2s>(8, 10)),
            wl("mini-retry", 240, 2000, honest::<MsmAfghoCfg<Mini>, Dz>(6, 8)),
            wl("huge-scalar", 2, 6, big::<ScalarCfg<Mini>, Blake2b>(&[17, 16], &[16, 17, 18])),
            wl("huge-msm", 1, 4, big::<MsmCfg<Mini>, Blake2b>(&[16], &[15, 17])),
            wl("huge-pairing", 1, 4, big::<PairCfg<Mini>, Blake2b>(&[13], &[15, 17])),
        ],
    })
}
