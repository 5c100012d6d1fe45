//! C08: honest arguments over the powers of a public scalar are always accepted.
use ark_ff::{Field, UniformRand};
use ark_ip_proofs::tipa::structured_scalar_message::structured_scalar_power;
use ark_std::rand::Rng;
use blake2::{Blake2b, Blake2s};
use digest::Digest;
use ripp_mon::*;

type Dz = FaultD<Blake2b, 60, 60>;

fn honest<C: SCfg, V: Flavour<C>, D: Digest>(mq: u32, mt: u32) -> impl Fn(&mut Case) {
    move |c| {
        let max = if c.tier == Tier::Thorough { mt } else { mq };
        let n = pow2(c.i, &mut c.rng, max);
        one::<C, V, D>(c, n);
    }
}

fn big<C: SCfg, V: Flavour<C>, D: Digest>(quick: &'static [u32], thorough: &'static [u32]) -> impl Fn(&mut Case) {
    move |c| {
        let n = large(c.i, if c.tier == Tier::Thorough { thorough } else { quick });
        c.event("large");
        one::<C, V, D>(c, n);
    }
}

fn one<C: SCfg, V: Flavour<C>, D: Digest>(c: &mut Case, n: usize) {
    let s = shape(&mut c.rng);
    let b = match c.rng.gen_range(0..6) {
        0 => F::<C>::ZERO,
        1 => F::<C>::ONE,
        2 => -F::<C>::ONE,
        3 => edge_scalar(&mut c.rng),
        _ => F::<C>::rand(&mut c.rng),
    };
    c.note("cfg", C::NAME);
    c.note("flavour", V::NAME);
    c.note("n", n);
    c.note("shape", format!("{s:?}"));
    c.note("b", b);
    c.event(&format!("{} {}", V::NAME, C::NAME));
    let i = ssm_inst::<C, V>(c, n, s, b);
    c.key(&(i.a.clone(), i.b));
    c.check("the structured vector is the powers", structured_scalar_power(n, &b) == powers(b, n));
    take_faults();
    let p = c.must("prove", || S::<C, V>::prove::<D>(&i));
    let (z, ff) = take_faults();
    c.events_n("zero-challenge digests injected", z);
    c.events_n("non-field digests injected", ff);
    c.must_accept("verify", || S::<C, V>::verify::<D>(&i, i.com(), &b, &p));
    c.must_accept("verify a clone", || S::<C, V>::verify::<D>(&i, i.com(), &b, &p.clone()));
    // another scalar under the same keys
    let b2 = F::<C>::rand(&mut c.rng);
    let j = ssm_with::<C, V>(i.a.clone(), b2, i.ck_a.clone(), i.ck_t.clone(), i.extra);
    let q = c.must("prove (second scalar)", || S::<C, V>::prove::<D>(&j));
    c.must_accept("verify (second scalar)", || S::<C, V>::verify::<D>(&j, j.com(), &b2, &q));
}

fn main() {
    main_with(Plan {
        property: "C08",
        rule: "every power-of-two size from 1 up to the bound, ten vector shapes, public scalar zero, one, minus one, edge and random, both the transparent and the trusted-setup flavour, two curves, a digest injecting zero challenges and non-field outputs; non-trivial: an honest proof was produced and judged, distinct by its messages and scalar",
        assumptions: vec!["curve and field arithmetic, polynomial division and the hash functions are trusted"],
        required: vec!["transparent scalar", "transparent msm-g1", "trusted scalar", "trusted msm-g1", "transparent msm-g2", "zero-challenge digests injected", "non-field digests injected", "accepted", "large"],
        workloads: vec![
            wl("plain-scalar", 24, 300, honest::<ScalarCfg<B381>, Plain, Blake2b>(8, 11)),
            wl("plain-msm", 14, 200, honest::<MsmCfg<B381>, Plain, Blake2b>(5, 8)),
            wl("plain-msm-g2", 8, 100, honest::<MsmG2Cfg<B381>, Plain, Blake2b>(4, 7)),
            wl("plain-scalar-pedersen", 12, 120, honest::<ScalarPedCfg<B381>, Plain, Blake2s>(5, 8)),
            wl("trusted-scalar", 20, 300, honest::<ScalarCfg<B381>, Trusted, Blake2b>(7, 10)),
            wl("trusted-msm", 14, 200, honest::<MsmCfg<B381>, Trusted, Blake2b>(5, 8)),
            wl("trusted-msm-afgho", 8, 100, honest::<MsmAfghoCfg<B381>, Trusted, Blake2b>(4, 7)),
            wl("trusted-377", 8, 100, honest::<ScalarCfg<B377>, Trusted, Blake2s>(4, 7)),
            wl("large-plain-scalar", 3, 12, big::<ScalarCfg<B381>, Plain, Blake2b>(&[9, 10, 11], &[9, 10, 11, 12, 13, 14])),
            wl("large-trusted-scalar", 3, 12, big::<ScalarCfg<B381>, Trusted, Blake2b>(&[9, 10, 11], &[9, 10, 11, 12, 13, 14])),
            wl("large-trusted-msm", 2, 8, big::<MsmCfg<B381>, Trusted, Blake2b>(&[9, 10], &[9, 10, 11, 12])),
            wl("retry-plain", 30, 300, honest::<ScalarCfg<B381>, Plain, Dz>(5, 8)),
            wl("retry-trusted", 30, 300, honest::<ScalarCfg<B381>, Trusted, Dz>(4, 7)),
            wl("mini-plain", 400, 3000, honest::<MsmCfg<Mini>, Plain, Blake2b>(7, 9)),
            wl("mini-trusted", 400, 3000, honest::<MsmCfg<Mini>, Trusted, Blake2b>(7, 9)),
            wl("mini-scalar", 400, 3000, honest::<ScalarCfg<Mini>, Trusted, Dz>(7, 9)),
            wl("huge-plain-scalar", 2, 6, big::<ScalarCfg<Mini>, Plain, Blake2b>(&[17, 16], &[16, 17, 18])),
            wl("huge-trusted-scalar", 2, 6, big::<ScalarCfg<Mini>, Trusted, Blake2b>(&[17, 16], &[16, 17, 18])),
            wl("huge-trusted-msm", 1, 4, big::<MsmCfg<Mini>, Trusted, Blake2b>(&[16], &[15, 17])),
        ],
    })
}
