//! C11: honest pairing-product arguments are accepted; the product functions are exact.
use ark_ec::{pairing::*, AffineRepr, CurveGroup};
use ark_ff::Zero;
use ark_sipp::{product_of_pairings, product_of_pairings_with_coeffs, SIPP};
use ark_std::rand::Rng;
use blake2::Blake2s;
use ripp_mon::*;

fn honest<P: Pairing>(maxq: u32, maxt: u32) -> impl Fn(&mut Case) {
    move |c| {
        let max = if c.tier == Tier::Thorough { maxt } else { maxq };
        let i = c.i + 1;
        let n = pow2(i, &mut c.rng, max).max(2);
        let s = (shape(&mut c.rng), shape(&mut c.rng), shape(&mut c.rng));
        c.note("n", n);
        c.note("shapes", format!("{s:?}"));
        let i = Sip::<P>::gen(c, n, s);
        c.key(&(i.a.clone(), i.b.clone(), i.r.clone()));
        if i.v.is_zero() {
            c.event("neutral product");
        }
        if i.a.iter().any(|x| x.is_zero()) || i.b.iter().any(|x| x.is_zero()) {
            c.event("neutral points");
        }
        let v = guarded(|| product_of_pairings_with_coeffs::<P>(&i.a, &i.b, &i.r))
            .unwrap_or_else(|p| violated(format!("product_of_pairings_with_coeffs panicked: {p}")));
        c.check("scaled product equals the true value", v == i.v);
        let p = c.must("prove", || i.prove::<Blake2s>());
        c.check("one round per halving", p.gt_elems().len() == n.trailing_zeros() as usize);
        c.must_accept("verify", || i.verify::<Blake2s>(&p));
        c.must_accept("verify again", || i.verify::<Blake2s>(&p));
    }
}

/// Counts that a byte does not hold.
fn large<P: Pairing>(c: &mut Case) {
    let n = if c.tier == Tier::Thorough { [512, 1024, 2048][c.i % 3] } else { 512 };
    c.note("n", n);
    let i = Sip::<P>::gen(c, n, (Shape::Random, Shape::Random, Shape::Random));
    c.key(&(i.a.clone(), i.b.clone(), i.r.clone()));
    let v = c.must("product", || Ok::<_, ()>(product_of_pairings_with_coeffs::<P>(&i.a, &i.b, &i.r)));
    c.check("scaled product, hundreds of pairs", v == i.v);
    let p = c.must("prove", || i.prove::<Blake2s>());
    c.must_accept("verify", || i.verify::<Blake2s>(&p));
    c.event("large");
}

/// Counts that two bytes do not hold.
fn huge<P: Pairing>(c: &mut Case) {
    let n = 1usize << [17, 16, 18, 15][c.i % 4];
    c.note("n", n);
    let i = Sip::<P>::gen(c, n, (Shape::Random, Shape::Random, Shape::Random));
    c.key(&(i.a.clone(), i.b.clone(), i.r.clone()));
    let v = c.must("product", || Ok::<_, ()>(product_of_pairings_with_coeffs::<P>(&i.a, &i.b, &i.r)));
    c.check("scaled product, very many pairs", v == i.v);
    let p = c.must("prove", || i.prove::<Blake2s>());
    c.must_accept("verify", || i.verify::<Blake2s>(&p));
    c.event("huge");
}

fn reuse(c: &mut Case) {
    let n = 2usize << c.rng.gen_range(0..3);
    c.note("n", n);
    let i = Sip::<B381>::nontrivial(c, n);
    let mut j = i.clone();
    let k = c.rng.gen_range(0..n);
    j.set_a(k, nonzero(&mut c.rng));
    j.v = j.truth();
    c.key(&(i.a.clone(), j.a.clone()));
    let p = c.must("prove first", || i.prove::<Blake2s>());
    let q = c.must("prove second", || SIPP::<B381, Blake2s>::prove(&j.a, &j.b, &j.r, j.v));
    c.must_accept("verify second", || j.verify::<Blake2s>(&q));
    c.must_accept("verify first", || i.verify::<Blake2s>(&p));
}

fn product<P: Pairing>(c: &mut Case) {
    let n = if c.i < 20 {
        c.i
    } else if c.i % 2 == 0 {
        c.rng.gen_range(0..50)
    } else {
        c.pool * c.rng.gen_range(1..6) + c.rng.gen_range(0..2)
    };
    let s = (shape(&mut c.rng), shape(&mut c.rng), shape(&mut c.rng));
    c.note("n", n);
    c.note("shapes", format!("{s:?}"));
    let mut i = Sip::<P>::gen(c, n, s);
    c.key(&(i.a.clone(), i.b.clone(), i.r.clone()));
    let v = guarded(|| product_of_pairings_with_coeffs::<P>(&i.a, &i.b, &i.r))
        .unwrap_or_else(|p| violated(format!("product_of_pairings_with_coeffs panicked: {p}")));
    c.check("scaled product, any length", v == i.v);
    let v = guarded(|| product_of_pairings::<P>(&i.a, &i.b))
        .unwrap_or_else(|p| violated(format!("product_of_pairings panicked: {p}")));
    i.r = vec![1u64.into(); n];
    c.check("plain product, any length", v == i.truth());
    if n <= 4 {
        let (a, b): (Vec<P::G1>, Vec<P::G2>) = (
            i.a.iter().map(|x| (*x).into()).collect(),
            i.b.iter().map(|x| (*x).into()).collect(),
        );
        c.check("plain product, naive pairings", v == ref_pairing::<P>(&a, &b));
    }
    let _ = P::G1::normalize_batch(&[]);
}

fn main() {
    main_with(Plan {
        property: "C11",
        rule: "power-of-two sizes from 2, ten shapes for points (neutral ones included) and scalars, two curves, rayon pools of 1 to 13 threads; product functions over every length 0 to 19 and around multiples of the pool; non-trivial: a proof or product was judged, distinct by its inputs",
        assumptions: vec!["curve, field and pairing arithmetic and the hash are trusted"],
        required: vec!["accepted", "neutral product", "neutral points", "scaled product, any length", "large"],
        workloads: vec![
            wl("honest-381", 40, 500, honest::<B381>(6, 9)),
            wl("honest-377", 20, 250, honest::<B377>(5, 8)),
            wl("large", 1, 6, large::<B381>),
            wl("reuse", 10, 80, reuse),
            wl("product-381", 70, 600, product::<B381>),
            wl("product-377", 40, 300, product::<B377>),
            wl("mini", 800, 5000, honest::<Mini>(8, 10)),
            wl("mini-product", 800, 5000, product::<Mini>),
            wl("huge", 1, 4, huge::<Mini>),
        ],
    })
}
