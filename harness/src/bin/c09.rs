//! C09: the argument over powers of a public scalar accepts no false statement.
use blake2::{Blake2b, Blake2s};
use digest::Digest;
use ripp_mon::*;

fn all<C: SCfg, V: Flavour<C>, D: Digest>(mq: u32, mt: u32) -> impl Fn(&mut Case) {
    move |c| {
        let max = if c.tier == Tier::Thorough { mt } else { mq };
        let i = c.i / 2;
        let n = pow2(i, &mut c.rng, max);
        at::<C, V, D>(c, n);
    }
}

/// Counts that a byte does not hold.
fn large<C: SCfg, V: Flavour<C>, D: Digest>(c: &mut Case) {
    let n = if c.tier == Tier::Thorough { [512, 1024, 256, 2048][c.i % 4] } else { 512 };
    at::<C, V, D>(c, n);
    c.event("large");
}

/// Counts that two bytes do not hold.
fn huge<C: SCfg, V: Flavour<C>, D: Digest>(c: &mut Case) {
    at::<C, V, D>(c, 1 << 17);
    c.event("huge");
}

fn at<C: SCfg, V: Flavour<C>, D: Digest>(c: &mut Case, n: usize) {
    c.note("cfg", C::NAME);
    c.note("flavour", V::NAME);
    c.note("n", n);
    let i = S::<C, V>::nontrivial(c, n);
    c.note("b", i.b);
    c.key(&(i.a.clone(), i.b));
    c.event(&format!("{} {}", V::NAME, C::NAME));
    S::<C, V>::twice::<D>(c, &i);
    for _ in 0..3 {
        S::<C, V>::other_keys::<D>(c, &i);
        S::<C, V>::unstructured::<D>(c, &i);
    }
    S::<C, V>::statement::<D>(c, &i);
    S::<C, V>::adaptive::<D>(c, &i);
}

fn key(c: &mut Case) {
    c.key_str(&c.i.to_string());
    ssm_adaptive_key::<ScalarCfg<B381>, RecD<Blake2b>>(c);
    ssm_adaptive_key::<ScalarCfg<B377>, RecD<Blake2s>>(c);
    ssm_adaptive_key::<MsmCfg<B381>, RecD<Blake2b>>(c);
}

fn scalar<V: Flavour<ScalarCfg<B381>>>(c: &mut Case) {
    c.key_str(&c.i.to_string());
    S::<ScalarCfg<B381>, V>::adaptive_scalar::<RecD<Blake2b>>(c);
}

fn scalar_msm<V: Flavour<MsmCfg<B381>>>(c: &mut Case) {
    c.key_str(&c.i.to_string());
    S::<MsmCfg<B381>, V>::adaptive_scalar::<RecD<Blake2b>>(c);
}

fn main() {
    main_with(Plan {
        property: "C09",
        rule: "instances of every power-of-two size up to the bound, both flavours; for each, adversarial provers that each leave exactly one of the verifier's conditions unsatisfied (doubled product or commitment, permuted or foreign keys, right vectors that are not the powers of the scalar, other statement, elements, the final key or the scalar itself chosen after the challenges read off the digest); non-trivial: a proof of a false statement was put before the verifier, distinct by the instance",
        assumptions: vec!["a forged proof passes by chance with probability about 2^-120", "the attacks listed are the ones tried: soundness is not proved"],
        required: vec!["transparent scalar", "transparent msm-g1", "trusted scalar", "trusted msm-g1", "rejected:false", "large", "final key chosen after its evidence's point", "adaptive scalar solved", "adaptive scalar other root", "statement's left commitment chosen after the challenges", "statement's product commitment chosen after the challenges"],
        workloads: vec![
            wl("large-plain-scalar", 1, 6, large::<ScalarCfg<B381>, Plain, RecD<Blake2b>>),
            wl("large-trusted-scalar", 1, 6, large::<ScalarCfg<B381>, Trusted, RecD<Blake2b>>),
            wl("huge-plain-scalar", 1, 3, huge::<ScalarCfg<Mini>, Plain, RecD<Blake2b>>),
            wl("huge-trusted-msm", 1, 3, huge::<MsmCfg<Mini>, Trusted, RecD<Blake2b>>),
            wl("plain-scalar", 24, 400, all::<ScalarCfg<B381>, Plain, RecD<Blake2b>>(5, 8)),
            wl("plain-msm", 12, 200, all::<MsmCfg<B381>, Plain, RecD<Blake2b>>(3, 6)),
            wl("plain-msm-g2", 6, 100, all::<MsmG2Cfg<B381>, Plain, RecD<Blake2b>>(3, 5)),
            wl("plain-scalar-pedersen", 10, 150, all::<ScalarPedCfg<B381>, Plain, RecD<Blake2s>>(4, 6)),
            wl("trusted-scalar", 20, 400, all::<ScalarCfg<B381>, Trusted, RecD<Blake2b>>(5, 8)),
            wl("trusted-msm", 12, 200, all::<MsmCfg<B381>, Trusted, RecD<Blake2b>>(3, 6)),
            wl("trusted-msm-afgho", 6, 100, all::<MsmAfghoCfg<B381>, Trusted, RecD<Blake2b>>(3, 5)),
            wl("trusted-377", 6, 100, all::<ScalarCfg<B377>, Trusted, RecD<Blake2s>>(3, 5)),
            wl("adaptive-key", 6, 60, key),
            wl("adaptive-scalar-plain", 6, 60, scalar::<Plain>),
            wl("adaptive-scalar-trusted", 6, 60, scalar::<Trusted>),
            wl("adaptive-scalar-plain-msm", 4, 40, scalar_msm::<Plain>),
            wl("adaptive-scalar-trusted-msm", 4, 40, scalar_msm::<Trusted>),
            wl("mini-plain-scalar", 200, 1500, all::<ScalarCfg<Mini>, Plain, RecD<Blake2b>>(6, 9)),
            wl("mini-plain-msm", 160, 1500, all::<MsmCfg<Mini>, Plain, RecD<Blake2b>>(5, 7)),
            wl("mini-trusted-scalar", 200, 1500, all::<ScalarCfg<Mini>, Trusted, RecD<Blake2b>>(6, 9)),
            wl("mini-trusted-msm", 160, 1500, all::<MsmCfg<Mini>, Trusted, RecD<Blake2b>>(5, 7)),
        ],
    })
}
