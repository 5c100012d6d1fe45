//! C20: an aggregate verifies only if every aggregated Groth16 proof is valid.
use ark_ec::{pairing::*, AffineRepr, CurveGroup};
use ark_ff::{Field, One, Zero};
use ark_ip_proofs::applications::groth16_aggregation::*;
use ark_std::rand::Rng;
use blake2::{Blake2b, Blake2s};
use digest::Digest;
use ripp_mon::*;

fn batch<P: Pairing, D: Digest>(c: &mut Case, mq: u32, min: usize, kmin: usize) -> Batch<P> {
    let m = if c.tier == Tier::Thorough { mq + 2 } else { mq };
    let i = c.i % 4;
    let n = if mq > 7 { 1 << mq } else { pow2(i, &mut c.rng, m).max(min) };
    let k = c.rng.gen_range(kmin..4);
    c.note("n", n);
    c.note("inputs", k);
    let b = Batch::<P>::simulated::<D>(c, n, k);
    c.key(&(b.a.clone(), b.b.clone(), b.x.clone()));
    b
}

/// The library's own aggregator on a batch with one invalid member.
fn invalid_member<P: Pairing, D: Digest>(c: &mut Case) {
    let b = batch::<P, D>(c, 3, 1, 0);
    invalid_in::<P, D>(c, b);
}

/// Counts that a byte does not hold.
fn invalid_member_large<P: Pairing, D: Digest>(c: &mut Case) {
    let b = batch::<P, D>(c, 8, 1, 1);
    invalid_in::<P, D>(c, b);
    c.event("large");
}

/// Counts that two bytes do not hold.
fn invalid_member_huge<P: Pairing, D: Digest>(c: &mut Case) {
    let b = batch::<P, D>(c, 17, 1, 1);
    invalid_in::<P, D>(c, b);
    c.event("huge");
}

fn invalid_in<P: Pairing, D: Digest>(c: &mut Case, mut b: Batch<P>) {
    let what = b.spoil(c);
    if c.i % 3 == 0 {
        b.cross_check(c);
    }
    let p = c.must("aggregate", || b.aggregate::<D>());
    c.must_reject(&format!("batch with an invalid member ({what})"), || b.verify::<D>(&p));
    // every member invalid
    let mut s = b.clone();
    for j in 0..s.n {
        s.c[j] += nonzero::<Fp<P>>(&mut c.rng);
    }
    let p = c.must("aggregate", || s.aggregate::<D>());
    c.must_reject("batch of invalid members", || s.verify::<D>(&p));
}

/// Errors that cancel in the plain sum, or in a sum with guessable factors.
fn cancelling<P: Pairing, D: Digest>(c: &mut Case) {
    let b = batch::<P, D>(c, 3, 2, 1);
    let n = b.n;
    let (i, mut j) = (c.rng.gen_range(0..n), c.rng.gen_range(0..n));
    if i == j {
        j = (i + 1) % n;
    }
    let t = nonzero::<Fp<P>>(&mut c.rng);
    let two = Fp::<P>::one().double();
    for (what, f) in [("one", Fp::<P>::one()), ("minus one", -Fp::<P>::one()), ("two", two)] {
        let (fi, fj) = (powers(f, n)[i], powers(f, n)[j]);
        let mut s = b.clone();
        s.c[i] += t * fj;
        s.c[j] -= t * fi;
        let p = c.must("aggregate", || s.aggregate::<D>());
        c.must_reject(&format!("errors in c cancelling at {what}"), || s.verify::<D>(&p));
        let mut s = b.clone();
        s.a[i] += t * fj * s.b[j];
        s.a[j] -= t * fi * s.b[i];
        let p = c.must("aggregate", || s.aggregate::<D>());
        c.must_reject(&format!("errors in a cancelling at {what}"), || s.verify::<D>(&p));
        let mut s = b.clone();
        s.x[i][0] += t * fj;
        s.x[j][0] -= t * fi;
        let p = c.must("aggregate", || s.aggregate::<D>());
        c.must_reject(&format!("errors in inputs cancelling at {what}"), || s.verify::<D>(&p));
    }
    // elements of different members exchanged
    let mut s = b.clone();
    s.c.swap(i, j);
    let p = c.must("aggregate", || s.aggregate::<D>());
    c.must_reject("c of two members exchanged", || s.verify::<D>(&p));
    let mut s = b.clone();
    s.b.swap(i, j);
    let p = c.must("aggregate", || s.aggregate::<D>());
    c.must_reject("b of two members exchanged", || s.verify::<D>(&p));
}

/// Aggregators that satisfy two of the three checks by lying to the third.
fn lying<P: Pairing, D: Digest>(c: &mut Case) {
    let mut b = batch::<P, Blake2b>(c, 2, 1, 0);
    b.spoil(c);
    let r = b.randomiser(c);
    let pw = powers(r, b.n);
    let a_r: Vec<Fp<P>> = b.a.iter().zip(&pw).map(|(a, r)| *a * r).collect();
    let (ab, agg) = (ref_scalar(&a_r, &b.b), ref_scalar(&b.c, &pw));
    let honest = || Forge::<P> { a: b.a.clone(), b: b.b.clone(), c: b.c.clone(), ip_ab: ab, agg_c: agg };
    let h = forge_aggregate::<P, D>(c, &b, r, &honest());
    c.must_reject("nothing hidden: equation fails", || b.verify::<D>(&h));
    // the product the equation wants
    let f = Forge { ip_ab: b.want_ab(r, agg), ..honest() };
    let p = forge_aggregate::<P, D>(c, &b, r, &f);
    c.must_reject("product chosen to fit the equation", || b.verify::<D>(&p));
    // the sum the equation wants
    let di = b.trap.delta.inverse().unwrap();
    let f = Forge { agg_c: agg + (ab - b.want_ab(r, agg)) * di, ..honest() };
    let p = forge_aggregate::<P, D>(c, &b, r, &f);
    c.must_reject("sum chosen to fit the equation", || b.verify::<D>(&p));
    // sub-proofs about other vectors than the committed ones
    let j = c.rng.gen_range(0..b.n);
    let miss = b.want_ab(r, agg) - ab;
    let pj = pw[j].inverse().unwrap();
    let mut f = honest();
    f.a[j] += miss * pj * b.b[j].inverse().unwrap();
    f.ip_ab = b.want_ab(r, agg);
    let p = forge_aggregate::<P, D>(c, &b, r, &f);
    c.must_reject("another a under the committed one", || b.verify::<D>(&p));
    let mut f = honest();
    f.b[j] += miss * pj * b.a[j].inverse().unwrap();
    f.ip_ab = b.want_ab(r, agg);
    let p = forge_aggregate::<P, D>(c, &b, r, &f);
    c.must_reject("another b under the committed one", || b.verify::<D>(&p));
    let mut f = honest();
    f.c[j] -= miss * pj * di;
    f.agg_c = ref_scalar(&f.c, &pw);
    let p = forge_aggregate::<P, D>(c, &b, r, &f);
    c.must_reject("another c under the committed one", || b.verify::<D>(&p));
    // the same lies with the sub-proofs of the library's own aggregator
    let hv: AggView<P> = bridge(&h);
    let mut v = hv.clone();
    v.1 .0 = egh::<P>() * b.want_ab(r, agg);
    let p: AggregateProof<P, D> = bridge(&v);
    c.must_reject("product replaced only", || b.verify::<D>(&p));
    let mut v = hv.clone();
    v.1 .1 = g1::<P>() * (agg - miss * di);
    let p: AggregateProof<P, D> = bridge(&v);
    c.must_reject("sum replaced only", || b.verify::<D>(&p));
}

/// One proof element of two members chosen after the randomiser.
fn adaptive<P: Pairing, D: Digest>(c: &mut Case) {
    let b = batch::<P, D>(c, 3, 2, 1);
    let n = b.n;
    let (i, mut j) = (c.rng.gen_range(0..n), c.rng.gen_range(0..n));
    if i == j {
        j = (i + 1) % n;
    }
    let r = b.randomiser(c);
    let pw = powers(r, n);
    let t = nonzero::<Fp<P>>(&mut c.rng);
    let mut s = b.clone();
    s.c[i] += t * pw[j];
    s.c[j] -= t * pw[i];
    let p = c.must("aggregate", || s.aggregate::<Blake2b>());
    c.must_reject("c of two members chosen after the randomiser", || s.verify::<Blake2b>(&p));
    let mut s = b.clone();
    s.a[i] += t * pw[j] * s.b[j];
    s.a[j] -= t * pw[i] * s.b[i];
    let p = c.must("aggregate", || s.aggregate::<Blake2b>());
    c.must_reject("a of two members chosen after the randomiser", || s.verify::<Blake2b>(&p));
    let mut s = b.clone();
    s.b[i] += t * pw[j] * s.a[j];
    s.b[j] -= t * pw[i] * s.a[i];
    let p = c.must("aggregate", || s.aggregate::<Blake2b>());
    c.must_reject("b of two members chosen after the randomiser", || s.verify::<Blake2b>(&p));
    // Public inputs of two members: the randomiser does not depend on them.
    let mut s = b.clone();
    let k = c.rng.gen_range(0..s.x[0].len());
    s.x[i][k] += t * pw[j];
    s.x[j][k] -= t * pw[i];
    s.cross_check(c);
    let p = c.must("aggregate", || s.aggregate::<Blake2b>());
    c.event("inputs of two members chosen after the randomiser");
    if let Ok(Ok(true)) = guarded(|| s.verify::<Blake2b>(&p)) {
        c.finding(
            "groth16-public-inputs-adaptive-combination",
            "an aggregate is accepted for public inputs chosen after the randomiser: inputs of two members shifted by r^j*t and -r^i*t, so that both members are invalid".into(),
        );
    } else {
        c.event("rejected: inputs chosen after the randomiser");
    }
    // The same shift at two different inputs, or with a foreign factor, must not pass.
    let mut s = b.clone();
    s.x[i][k] += t * pw[j];
    s.x[j][k] += t * pw[i];
    let p = c.must("aggregate", || s.aggregate::<Blake2b>());
    c.must_reject("inputs shifted without cancelling", || s.verify::<Blake2b>(&p));
    if n > 2 {
        let mut s = b.clone();
        s.x[i][k] += t * pw[i];
        s.x[j][k] -= t * pw[j];
        let p = c.must("aggregate", || s.aggregate::<Blake2b>());
        c.must_reject("inputs shifted by the wrong powers", || s.verify::<Blake2b>(&p));
    }
}

/// An honest aggregate presented for another statement.
fn statement<P: Pairing, D: Digest>(c: &mut Case) {
    let b = batch::<P, D>(c, 3, 1, 1);
    let n = b.n;
    let k = b.trap.ic.len() - 1;
    let p = c.must("aggregate", || b.aggregate::<D>());
    c.must_accept("verify", || b.verify::<D>(&p));
    let d = nonzero::<Fp<P>>(&mut c.rng);
    let ver = |vk: &ark_groth16::VerifyingKey<P>, x: &Vec<Vec<Fp<P>>>| {
        verify_aggregate_proof::<P, D>(&b.v, vk, x, &p)
    };
    for j in 0..n.min(4) {
        for i in 0..k {
            let mut x = b.x.clone();
            x[j][i] += d;
            c.must_reject("one input changed", || ver(&b.vk, &x));
        }
    }
    let z = vec![vec![Fp::<P>::zero(); k]; n];
    if z != b.x {
        c.must_reject("all inputs zero", || ver(&b.vk, &z));
    }
    if n > 1 {
        let (i, j) = (0, c.rng.gen_range(1..n));
        if b.x[i] != b.x[j] {
            let mut x = b.x.clone();
            x.swap(i, j);
            c.must_reject("inputs of two members exchanged", || ver(&b.vk, &x));
        }
        let mut x = b.x.clone();
        x.pop();
        c.must_reject("one member's inputs missing", || ver(&b.vk, &x));
        let x = b.x[..n / 2].to_vec();
        c.must_reject("half of the inputs", || ver(&b.vk, &x));
    }
    let mut x = b.x.clone();
    x.push(b.x[0].clone());
    c.must_reject("inputs of a member too many", || ver(&b.vk, &x));
    if k > 1 {
        let x: Vec<Vec<Fp<P>>> = b.x.iter().map(|r| r.iter().rev().cloned().collect()).collect();
        if x != b.x {
            c.must_reject("inputs reversed within members", || ver(&b.vk, &x));
        }
    }
    // every element of the verifying key
    let m1 = |x: P::G1Affine| (x.into_group() + g1::<P>() * d).into_affine();
    let m2 = |x: P::G2Affine| (x.into_group() + g2::<P>() * d).into_affine();
    let mut vk = b.vk.clone();
    vk.alpha_g1 = m1(vk.alpha_g1);
    c.must_reject("other alpha", || ver(&vk, &b.x));
    let mut vk = b.vk.clone();
    vk.beta_g2 = m2(vk.beta_g2);
    c.must_reject("other beta", || ver(&vk, &b.x));
    if !ref_total::<P>(&b).is_zero() {
        let mut vk = b.vk.clone();
        vk.gamma_g2 = m2(vk.gamma_g2);
        c.must_reject("other gamma", || ver(&vk, &b.x));
    }
    let mut vk = b.vk.clone();
    vk.delta_g2 = m2(vk.delta_g2);
    c.must_reject("other delta", || ver(&vk, &b.x));
    for i in 0..=k {
        // an input's element only matters where the input is not zero
        if i > 0 && b.x.iter().all(|r| r[i - 1].is_zero()) {
            continue;
        }
        let mut vk = b.vk.clone();
        vk.gamma_abc_g1[i] = m1(vk.gamma_abc_g1[i]);
        c.must_reject("other input element of the key", || ver(&vk, &b.x));
    }
    // another setup
    let mut r = c.fork();
    let srs = c.must("setup", || setup_inner_product::<P, D, _>(&mut r, n));
    let v2 = srs.get_verifier_key();
    if n > 1 {
        c.must_reject("verifier of another setup", || verify_aggregate_proof::<P, D>(&v2, &b.vk, &b.x, &p));
    }
    // parts of an aggregate of other valid proofs, for this batch's spoiled inputs
    let mut s = b.clone();
    s.x[0][0] += d;
    for j in 0..n {
        s.c[j] = s.solve_c(j);
    }
    let q: AggView<P> = bridge(&c.must("aggregate other", || s.aggregate::<D>()));
    let h: AggView<P> = bridge(&p);
    // claim: members of `b` (committed) are valid for the inputs of `s`
    for (what, v) in [
        ("own commitments, product and sum of others", (h.0, q.1, h.2.clone(), h.3.clone())),
        ("own commitments, all else of others", (h.0, q.1, q.2.clone(), q.3.clone())),
        ("own product argument", (h.0, (h.1 .0, q.1 .1), h.2.clone(), q.3.clone())),
        ("own sum argument", (h.0, (q.1 .0, h.1 .1), q.2.clone(), h.3.clone())),
    ] {
        let f: AggregateProof<P, D> = bridge(&v);
        c.must_reject(what, || s.verify::<D>(&f));
    }
    let _ = Fp::<P>::one().square();
}

/// Sum over members of their input combination at a random point; zero would hide gamma.
fn ref_total<P: Pairing>(b: &Batch<P>) -> Fp<P> {
    (0..b.n).map(|j| b.ic(j)).fold(Fp::<P>::zero(), |a, x| a + x)
}

fn main() {
    main_with(Plan {
        property: "C20",
        rule: "simulated batches with known trapdoors: one or all members invalid, errors that cancel at guessable factors, lying aggregators that satisfy all but one check (six ways), proof elements of two members chosen after the randomiser, honest aggregates presented for other inputs, orders, counts, verifying-key elements and setups; validity of members cross-checked with ark-groth16; non-trivial: the claim is false, distinct by members and inputs",
        assumptions: vec!["curve and field arithmetic, ark-groth16, discrete logarithms and the hash functions are trusted", "soundness is refuted by the listed attacks, not proved"],
        required: vec!["rejected:false", "member invalid per ark-groth16", "product chosen to fit the equation", "sum chosen to fit the equation", "another c under the committed one", "c of two members chosen after the randomiser", "inputs of two members chosen after the randomiser", "other input element of the key"],
        workloads: vec![
            wl("invalid-member-large", 1, 3, invalid_member_large::<B381, Blake2b>),
            wl("invalid-member-huge", 1, 3, invalid_member_huge::<Mini, Blake2b>),
            wl("invalid-member", 30, 300, invalid_member::<B381, Blake2b>),
            wl("invalid-member-377", 6, 60, invalid_member::<B377, Blake2s>),
            wl("cancelling", 12, 120, cancelling::<B381, Blake2b>),
            wl("lying", 16, 160, lying::<B381, Blake2b>),
            wl("lying-377", 3, 30, lying::<B377, Blake2b>),
            wl("adaptive", 14, 140, adaptive::<B381, Blake2b>),
            wl("statement", 20, 200, statement::<B381, Blake2b>),
            wl("statement-377", 4, 40, statement::<B377, Blake2s>),
            wl("mini-invalid-member", 400, 3000, invalid_member::<Mini, Blake2b>),
            wl("mini-cancelling", 240, 1000, cancelling::<Mini, Blake2b>),
            wl("mini-lying", 320, 2000, lying::<Mini, Blake2b>),
            wl("mini-adaptive", 240, 1000, adaptive::<Mini, Blake2b>),
            wl("mini-statement", 320, 2000, statement::<Mini, Blake2b>),
        ],
    })
}
