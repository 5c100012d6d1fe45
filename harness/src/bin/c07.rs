//! C07: the trusted-setup argument accepts no false statement.
use blake2::{Blake2b, Blake2s};
use digest::Digest;
use ripp_mon::*;

fn all<C: TCfg, D: Digest>(max_quick: u32, max_thorough: u32) -> impl Fn(&mut Case) {
    move |c| {
        let max = if c.tier == Tier::Thorough { max_thorough } else { max_quick };
        let i = c.i / 2;
        let n = pow2(i, &mut c.rng, max);
        at::<C, D>(c, n);
    }
}

/// Counts that a byte does not hold.
fn large<C: TCfg, D: Digest>(c: &mut Case) {
    let n = if c.tier == Tier::Thorough { [512, 1024, 256, 2048][c.i % 4] } else { 512 };
    at::<C, D>(c, n);
    c.event("large");
}

/// Counts that two bytes do not hold.
fn huge<C: TCfg, D: Digest>(c: &mut Case) {
    at::<C, D>(c, 1 << 17);
    c.event("huge");
}

fn at<C: TCfg, D: Digest>(c: &mut Case, n: usize) {
    c.note("cfg", C::NAME);
    c.note("n", n);
    let t = tnontrivial::<C, D>(c, n);
    c.note("r", t.r);
    c.key(&(t.i.a.clone(), t.i.b.clone()));
    c.event(C::NAME);
    t_twice::<C, D>(c, &t);
    for _ in 0..3 {
        t_other_keys::<C, D>(c, &t);
    }
    t_statement::<C, D>(c, &t);
    t_tampered::<C, D>(c, &t);
    t_tampered::<C, D>(c, &t);
    t_adaptive::<C, D>(c, &t);
}

fn shift(c: &mut Case) {
    t_adaptive_shift_built::<RecD<Blake2b>>(c);
    t_adaptive_shift::<ScalarCfg<B381>, RecD<Blake2b>>(c);
    t_adaptive_key::<ScalarCfg<B381>, RecD<Blake2b>>(c);
    t_adaptive_key::<ScalarPedCfg<B377>, RecD<Blake2s>>(c);
    t_adaptive_key::<MsmCfg<B381>, RecD<Blake2b>>(c);
    t_adaptive_key::<PairCfg<B381>, RecD<Blake2b>>(c);
    let i = c.i;
    c.key_str(&i.to_string());
}

fn main() {
    main_with(Plan {
        property: "C07",
        rule: "instances of every power-of-two size up to the bound, with and without a shifted key; for each, adversarial provers that each leave exactly one of the verifier's conditions unsatisfied (doubled product, doubled left or right commitment, keys permuted or foreign with every mix of final keys and evidence, other statement, other shift, other setup, elements, final keys and shift chosen after the challenges read off the digest); non-trivial: a proof of a false statement was put before the verifier, distinct by the instance's messages",
        assumptions: vec!["a forged proof passes by chance with probability about 2^-120", "the attacks listed are the ones tried: soundness is not proved"],
        required: vec!["pairing", "msm-g1", "scalar", "scalar-pedersen-out", "msm-g1-afgho-out", "rejected:false", "large", "adaptive shift by other root tried", "final key chosen after its evidence's point (right)", "statement's left commitment chosen after the challenges"],
        workloads: vec![
            wl("large-scalar", 1, 6, large::<ScalarCfg<B381>, RecD<Blake2b>>),
            wl("huge-scalar", 1, 3, huge::<ScalarCfg<Mini>, RecD<Blake2b>>),
            wl("huge-msm", 1, 3, huge::<MsmCfg<Mini>, RecD<Blake2b>>),
            wl("pairing", 10, 150, all::<PairCfg<B381>, RecD<Blake2b>>(3, 5)),
            wl("msm", 12, 200, all::<MsmCfg<B381>, RecD<Blake2b>>(3, 6)),
            wl("scalar", 30, 500, all::<ScalarCfg<B381>, RecD<Blake2b>>(5, 8)),
            wl("scalar-377", 10, 150, all::<ScalarCfg<B377>, RecD<Blake2s>>(3, 6)),
            wl("scalar-pedersen-out", 16, 250, all::<ScalarPedCfg<B381>, RecD<Blake2s>>(4, 7)),
            wl("msm-afgho-out", 8, 150, all::<MsmAfghoCfg<B381>, RecD<Blake2b>>(3, 5)),
            wl("adaptive-shift", 12, 100, shift),
            wl("mini-pairing", 200, 1500, all::<PairCfg<Mini>, RecD<Blake2b>>(5, 7)),
            wl("mini-msm", 200, 1500, all::<MsmCfg<Mini>, RecD<Blake2b>>(5, 7)),
            wl("mini-scalar", 200, 1500, all::<ScalarCfg<Mini>, RecD<Blake2b>>(6, 9)),
            wl("mini-msm-afgho-out", 120, 1000, all::<MsmAfghoCfg<Mini>, RecD<Blake2b>>(5, 7)),
        ],
    })
}
