//! C04: the inner-product argument accepts no false statement.
use blake2::{Blake2b, Blake2s};
use digest::Digest;
use ripp_mon::*;

fn all<C: Cfg, D: Digest>(max_quick: u32, max_thorough: u32) -> impl Fn(&mut Case) {
    move |c| {
        let max = if c.tier == Tier::Thorough { max_thorough } else { max_quick };
        let i = c.i / 2;
        let n = pow2(i, &mut c.rng, max);
        at::<C, D>(c, n);
    }
}

/// Counts that a byte does not hold.
fn large<C: Cfg, D: Digest>(c: &mut Case) {
    let n = if c.tier == Tier::Thorough { [512, 1024, 256, 2048][c.i % 4] } else { 512 };
    at::<C, D>(c, n);
    c.event("large");
}

/// Counts that two bytes do not hold.
fn huge<C: Cfg, D: Digest>(c: &mut Case) {
    at::<C, D>(c, 1 << 17);
    c.event("huge");
}

fn at<C: Cfg, D: Digest>(c: &mut Case, n: usize) {
    c.note("cfg", C::NAME);
    c.note("n", n);
    let i = nontrivial::<C, D>(c, n);
    c.key(&(i.a.clone(), i.b.clone()));
    c.event(C::NAME);
    twice_ip::<C, D>(c, &i);
    twice_left::<C, D>(c, &i);
    twice_right::<C, D>(c, &i);
    for _ in 0..4 {
        other_keys::<C, D>(c, &i);
    }
    swapped_statement::<C, D>(c, &i);
    tampered_false::<C, D>(c, &i);
    tampered_false::<C, D>(c, &i);
    wrong_length::<C, D>(c, &i);
    for _ in 0..2 {
        adaptive_statement::<C, D>(c, &i);
    }
}

fn main() {
    main_with(Plan {
        property: "C04",
        rule: "instances of every power-of-two size up to the bound; for each, adversarial provers that each leave exactly one of the verifier's conditions unsatisfied (doubled product, doubled left or right commitment, permuted or foreign keys, halves, other statements, statement chosen after the challenges); non-trivial: a proof of a false statement was put before the verifier, distinct by the instance's messages",
        assumptions: vec!["a forged proof passes by chance with probability about 2^-120", "the attacks listed are the ones tried: soundness is not proved"],
        required: vec!["pairing", "msm-g1", "scalar", "scalar-pedersen-out", "msm-g1-afgho-out", "msm-g2", "rejected:false", "large"],
        workloads: vec![
            wl("large-scalar", 1, 6, large::<ScalarCfg<B381>, Blake2b>),
            wl("huge-scalar", 1, 3, huge::<ScalarCfg<Mini>, Blake2b>),
            wl("huge-msm", 1, 3, huge::<MsmCfg<Mini>, Blake2b>),
            wl("pairing", 12, 150, all::<PairCfg<B381>, Blake2b>(3, 5)),
            wl("msm", 16, 200, all::<MsmCfg<B381>, Blake2b>(4, 6)),
            wl("scalar", 40, 500, all::<ScalarCfg<B381>, Blake2b>(5, 8)),
            wl("scalar-377", 12, 150, all::<ScalarCfg<B377>, Blake2s>(3, 6)),
            wl("scalar-pedersen-out", 20, 250, all::<ScalarPedCfg<B381>, Blake2s>(4, 7)),
            wl("msm-afgho-out", 10, 150, all::<MsmAfghoCfg<B381>, Blake2b>(3, 5)),
            wl("msm-g2", 10, 150, all::<MsmG2Cfg<B381>, Blake2b>(3, 5)),
            wl("mini-pairing", 240, 2000, all::<PairCfg<Mini>, Blake2b>(5, 7)),
            wl("mini-msm", 240, 2000, all::<MsmCfg<Mini>, Blake2b>(5, 7)),
            wl("mini-scalar", 240, 2000, all::<ScalarCfg<Mini>, Blake2b>(6, 9)),
            wl("mini-msm-afgho-out", 160, 1000, all::<MsmAfghoCfg<Mini>, Blake2b>(5, 7)),
        ],
    })
}
