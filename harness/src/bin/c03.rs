//! C03: honest inner-product arguments are always accepted.
use ark_dh_commitments::DoublyHomomorphicCommitment as DHC;
use ark_ip_proofs::gipa::*;
use ark_std::rand::Rng;
use blake2::{Blake2b, Blake2s};
use digest::Digest;
use ripp_mon::*;

type Dz = FaultD<Blake2b, 90, 0>;

fn honest<C: Cfg, D: Digest>(max_quick: u32, max_thorough: u32) -> impl Fn(&mut Case) {
    move |c| {
        let max = if c.tier == Tier::Thorough { max_thorough } else { max_quick };
        let n = pow2(c.i, &mut c.rng, max);
        one::<C, D>(c, n);
    }
}

fn big<C: Cfg, D: Digest>(quick: &'static [u32], thorough: &'static [u32]) -> impl Fn(&mut Case) {
    move |c| {
        let n = large(c.i, if c.tier == Tier::Thorough { thorough } else { quick });
        c.event("large");
        one::<C, D>(c, n);
    }
}

fn one<C: Cfg, D: Digest>(c: &mut Case, n: usize) {
    let s = (shape(&mut c.rng), shape(&mut c.rng));
    c.note("cfg", C::NAME);
    c.note("n", n);
    c.note("shapes", format!("{s:?}"));
    let i = Inst::<C>::gipa::<D>(c, n, s);
    c.key(&(i.a.clone(), i.b.clone()));
    c.check(
        "setup gives n keys",
        i.ck_a.len() == n && i.ck_b.len() == n,
    );
    take_faults();
    let p = c.must("prove", || gipa_prove::<C, D>(&i));
    let (z, _) = take_faults();
    c.events_n("zero-challenge digests injected", z);
    c.must_accept("verify", || gipa_verify::<C, D>(i.ck(), i.com(), &p));
    // A second proof of the same statement by the other entry point, and a clone.
    let (q, _aux) = c.must("prove_with_aux", || {
        Arg::<C, D>::prove_with_aux((&i.a, &i.b), (&i.ck_a, &i.ck_b, &[i.ck_t.clone()]))
    });
    c.must_accept("verify of the other entry point", || {
        gipa_verify::<C, D>(i.ck(), i.com(), &q.clone())
    });
    // The verifier keeps no state: asking again gives the same answer.
    c.must_accept("verify again", || gipa_verify::<C, D>(i.ck(), i.com(), &p));
    // The transcript is what folds the statement onto the base messages.
    let (base, _) = c.must("transcript", || {
        GIPA::<C::IP, C::L, C::R, C::T, D>::verify_recursive_challenge_transcript(i.com(), &p)
    });
    let (_, (mb_a, mb_b)) = bridge::<_, GView<C>>(&p);
    let t = naive_msgs::<C>(&[mb_a.clone()], &[mb_b.clone()]);
    let ct = C::T::commit(&[i.ck_t.clone()], &[t]).expect("commit");
    c.check("folded commitment opens to the base product", ct == base.2);
    c.event(C::NAME);
}

/// Structured and repeated inputs: equal keys on both sides, the same vector twice, one key for
/// two statements.
fn reuse<C: Cfg, D: Digest>(c: &mut Case) {
    let n = 1 << c.rng.gen_range(0..4);
    c.note("cfg", C::NAME);
    c.note("n", n);
    let i = Inst::<C>::gipa::<D>(c, n, (Shape::Random, Shape::Random));
    let s = (shape(&mut c.rng), shape(&mut c.rng));
    let (a2, b2) = (C::left(&mut c.rng, n, s.0), C::right(&mut c.rng, n, s.1));
    let j = Inst::<C>::with_keys(a2, b2, (i.ck_a.clone(), i.ck_b.clone(), i.ck_t.clone()));
    c.key(&(i.a.clone(), j.a.clone()));
    let p = c.must("prove first", || gipa_prove::<C, D>(&i));
    let q = c.must("prove second", || gipa_prove::<C, D>(&j));
    c.must_accept("verify second under shared keys", || gipa_verify::<C, D>(i.ck(), j.com(), &q));
    c.must_accept("verify first under shared keys", || gipa_verify::<C, D>(i.ck(), i.com(), &p));
    // repeated key elements are legal keys
    let k = i.ck_a[0].clone();
    let rep = vec![k; n];
    let m = Inst::<C>::with_keys(i.a.clone(), i.b.clone(), (rep, i.ck_b.clone(), i.ck_t.clone()));
    let r = c.must("prove with repeated key", || gipa_prove::<C, D>(&m));
    c.must_accept("verify with repeated key", || gipa_verify::<C, D>(m.ck(), m.com(), &r));
}

fn main() {
    main_with(Plan {
        property: "C03",
        rule: "every power-of-two size up to the bound, ten vector shapes for each side (zero, cancelling halves, edge scalars, unnormalised points), six instantiations on two curves with three digests, one of them injecting zero challenges; non-trivial: an honest proof was produced and judged, distinct by the bytes of its messages",
        assumptions: vec!["curve and field arithmetic and the hash functions are trusted"],
        required: vec!["pairing", "msm-g1", "scalar", "scalar-pedersen-out", "msm-g1-afgho-out", "msm-g2", "zero-challenge digests injected", "accepted", "large"],
        workloads: vec![
            wl("pairing", 22, 300, honest::<PairCfg<B381>, Blake2b>(5, 8)),
            wl("pairing-377", 8, 80, honest::<PairCfg<B377>, Blake2s>(3, 5)),
            wl("msm", 24, 300, honest::<MsmCfg<B381>, Blake2b>(6, 9)),
            wl("scalar", 40, 400, honest::<ScalarCfg<B381>, Blake2b>(8, 11)),
            wl("scalar-377", 16, 150, honest::<ScalarCfg<B377>, Blake2s>(5, 8)),
            wl("scalar-pedersen-out", 30, 300, honest::<ScalarPedCfg<B381>, Blake2s>(6, 9)),
            wl("msm-afgho-out", 20, 200, honest::<MsmAfghoCfg<B381>, Blake2b>(5, 8)),
            wl("msm-g2", 20, 200, honest::<MsmG2Cfg<B381>, Blake2b>(5, 8)),
            wl("retry-scalar", 60, 600, honest::<ScalarCfg<B381>, Dz>(5, 8)),
            wl("retry-msm", 16, 150, honest::<MsmCfg<B381>, Dz>(4, 6)),
            wl("large-scalar", 3, 12, big::<ScalarCfg<B381>, Blake2b>(&[9, 10, 11], &[9, 10, 11, 12, 13, 14])),
            wl("large-msm", 2, 8, big::<MsmCfg<B381>, Blake2b>(&[9, 10], &[9, 10, 11, 12])),
            wl("large-pairing", 1, 6, big::<PairCfg<B381>, Blake2b>(&[9], &[9, 10, 11])),
            wl("reuse-scalar", 20, 200, reuse::<ScalarCfg<B381>, Blake2b>),
            wl("reuse-pairing", 8, 80, reuse::<PairCfg<B381>, Blake2b>),
            wl("reuse-msm", 10, 100, reuse::<MsmCfg<B381>, Blake2b>),
            wl("mini-pairing", 400, 3000, honest::<PairCfg<Mini>, Blake2b>(7, 9)),
            wl("mini-msm", 400, 3000, honest::<MsmCfg<Mini>, Blake2b>(8, 10)),
            wl("mini-scalar", 400, 3000, honest::<ScalarCfg<Mini>, Blake2s>(8, 11)),
            wl("mini-retry", 240, 2000, honest::<MsmAfghoCfg<Mini>, Dz>(6, 8)),
            wl("huge-scalar", 2, 6, big::<ScalarCfg<Mini>, Blake2b>(&[17, 16], &[16, 17, 18])),
            wl("huge-msm", 1, 4, big::<MsmCfg<Mini>, Blake2b>(&[17], &[15, 17])),
            wl("huge-pairing", 1, 4, big::<PairCfg<Mini>, Blake2b>(&[13], &[15, 17])),
        ],
    })
}
