//! C01: inner products equal their algebraic definition.
use ark_bls12_377::Bls12_377;
use ark_bls12_381::Bls12_381;
use ark_bw6_761::BW6_761;
use ark_ec::{pairing::*, CurveGroup};
use ark_ff::{Field, PrimeField};
use ark_inner_products::*;
use ark_std::rand::Rng;
use ripp_mon::*;

fn len(c: &mut Case) -> usize {
    let big = if c.tier == Tier::Thorough { 600 } else { 160 };
    match c.i {
        // every small length once per workload, then around multiples of the thread count
        i if i < 24 => i,
        i if i % 3 == 0 => {
            let k = c.rng.gen_range(1..9usize) * c.pool;
            (k + c.rng.gen_range(0..3)).saturating_sub(1)
        }
        i if i % 17 == 1 => c.rng.gen_range(40..big),
        _ => c.rng.gen_range(0..40),
    }
}

fn pairing<P: Pairing>(c: &mut Case) {
    let n = len(c);
    let (sa, sb) = (shape(&mut c.rng), shape(&mut c.rng));
    let (a, la) = points_with_logs::<P::G1>(&mut c.rng, n, sa);
    let (b, lb) = points_with_logs::<P::G2>(&mut c.rng, n, sb);
    c.note("n", n);
    c.note("shapes", format!("{sa:?}/{sb:?}"));
    c.key(&(la.clone(), lb.clone()));
    let got = c.must("pairing_ip", || PairingInnerProduct::<P>::inner_product(&a, &b));
    let want = P::pairing(g1::<P>(), g2::<P>()) * ref_scalar(&la, &lb);
    c.check("pairing_ip equals e(g,h)^sum(log*log)", got == want);
    if n <= 6 {
        c.check("pairing_ip equals product of single pairings", got == ref_pairing::<P>(&a, &b));
    }
    let got2 = match guarded(|| cfg_multi_pairing::<P>(&a, &b)) {
        Ok(v) => v,
        Err(p) => violated(format!("cfg_multi_pairing panicked: {p}")),
    };
    c.check("cfg_multi_pairing equals the same", got2 == Some(want));
}

fn msm<G: CurveGroup>(c: &mut Case) {
    let n = len(c);
    let (sa, sb) = (shape(&mut c.rng), shape(&mut c.rng));
    let (a, la) = points_with_logs::<G>(&mut c.rng, n, sa);
    let b: Vec<G::ScalarField> = scalars(&mut c.rng, n, sb);
    c.note("n", n);
    c.note("shapes", format!("{sa:?}/{sb:?}"));
    c.key(&(la.clone(), b.clone()));
    let got = c.must("msm_ip", || MultiexponentiationInnerProduct::<G>::inner_product(&a, &b));
    c.check("msm_ip equals g^sum(log*scalar)", got == G::generator() * ref_scalar(&la, &b));
    c.check("msm_ip equals naive sum", got == ref_msm(&a, &b));
}

/// Scalars of every combination of zero words, few at a time; every bit length.
fn words<G: CurveGroup>(c: &mut Case) {
    let n = 1 + c.i % 4;
    c.note("n", n);
    let bits = G::ScalarField::MODULUS_BIT_SIZE as usize;
    let words = (bits + 63) / 64;
    let (a, la) = points_with_logs::<G>(&mut c.rng, n, Shape::Random);
    let mut all: Vec<Vec<G::ScalarField>> = vec![];
    for mask in 0..1usize << words {
        all.push((0..n).map(|_| word_scalar(&mut c.rng, mask)).collect());
    }
    for k in 0..bits - 1 {
        let t = G::ScalarField::from(2u64).pow([k as u64]);
        all.push((0..n).map(|j| [t, t - G::ScalarField::ONE, -t, t + G::ScalarField::ONE][(c.i / 4 + j) % 4]).collect());
    }
    for b in all {
        c.key(&b);
        let got = c.must("msm_ip", || MultiexponentiationInnerProduct::<G>::inner_product(&a, &b));
        c.check_with("msm_ip of scalars of any words and lengths", got == G::generator() * ref_scalar(&la, &b), || format!("{b:?}"));
    }
}

fn scalar<F: PrimeField>(c: &mut Case) {
    let n = if c.i % 5 == 4 { c.rng.gen_range(0..5000) } else { len(c) };
    let (sa, sb) = (shape(&mut c.rng), shape(&mut c.rng));
    let a: Vec<F> = scalars(&mut c.rng, n, sa);
    let b: Vec<F> = scalars(&mut c.rng, n, sb);
    c.note("n", n);
    c.note("shapes", format!("{sa:?}/{sb:?}"));
    c.key(&(a.clone(), b.clone()));
    let got = c.must("scalar_ip", || ScalarInnerProduct::<F>::inner_product(&a, &b));
    c.check("scalar_ip equals naive sum", got == ref_scalar(&a, &b));
}

fn bilinear<P: Pairing>(c: &mut Case) {
    let n = c.rng.gen_range(1..10);
    let s = shape(&mut c.rng);
    let a: Vec<P::G1> = points(&mut c.rng, n, s);
    let a2: Vec<P::G1> = points(&mut c.rng, n, Shape::Random);
    let b: Vec<P::G2> = points(&mut c.rng, n, Shape::Random);
    let k = nonzero::<P::ScalarField>(&mut c.rng);
    c.note("n", n);
    c.key(&(a.clone(), b.clone()));
    let ip = |x: &[P::G1], y: &[P::G2]| PairingInnerProduct::<P>::inner_product(x, y);
    let ab = c.must("ip", || ip(&a, &b));
    let a2b = c.must("ip", || ip(&a2, &b));
    let sum: Vec<P::G1> = a.iter().zip(&a2).map(|(x, y)| *x + y).collect();
    let sb = c.must("ip", || ip(&sum, &b));
    c.check("additive on the left", sb == ab + a2b);
    let ka: Vec<P::G1> = a.iter().map(|x| *x * k).collect();
    let kb: Vec<P::G2> = b.iter().map(|x| *x * k).collect();
    let l = c.must("ip", || ip(&ka, &b));
    let r = c.must("ip", || ip(&a, &kb));
    c.check("scalars move across", l == ab * k && r == l);
    // the order of the pairs does not matter
    let mut p: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = c.rng.gen_range(0..=i);
        p.swap(i, j);
    }
    let pa: Vec<P::G1> = p.iter().map(|&i| a[i]).collect();
    let pb: Vec<P::G2> = p.iter().map(|&i| b[i]).collect();
    let v = c.must("ip", || ip(&pa, &pb));
    c.check("order of pairs is irrelevant", v == ab);
}

fn mismatch<P: Pairing>(c: &mut Case) {
    let n = c.i % 9;
    let mut m = c.rng.gen_range(0..10usize);
    if m == n {
        m += 1 + c.rng.gen_range(0..8);
    }
    c.note("lengths", format!("{n}/{m}"));
    c.key_str(&format!("{n}/{m}"));
    let a: Vec<P::G1> = points(&mut c.rng, n, Shape::Random);
    let b: Vec<P::G2> = points(&mut c.rng, m, Shape::Random);
    let s: Vec<P::ScalarField> = scalars(&mut c.rng, m, Shape::Random);
    let t: Vec<P::ScalarField> = scalars(&mut c.rng, n, Shape::Random);
    c.must_err("pairing lengths differ", || PairingInnerProduct::<P>::inner_product(&a, &b));
    c.must_err("msm lengths differ", || MultiexponentiationInnerProduct::<P::G1>::inner_product(&a, &s));
    c.must_err("scalar lengths differ", || ScalarInnerProduct::<P::ScalarField>::inner_product(&t, &s));
    // mismatches hidden by padding with neutral elements are still mismatches
    let z = vec![P::G2::default(); m];
    let zs = vec![P::ScalarField::ZERO; m];
    c.must_err("pairing lengths differ (identity)", || PairingInnerProduct::<P>::inner_product(&a, &z));
    c.must_err("msm lengths differ (zero)", || MultiexponentiationInnerProduct::<P::G1>::inner_product(&a, &zs));
}

fn main() {
    main_with(Plan {
        property: "C01",
        rule: "vectors of every length 0..24 and random lengths near multiples of the pool's thread count, ten shapes (zero, cancelling, edge scalars, unnormalised points), three curves, pools of 1 to 13 threads; non-trivial: an inner product was computed and compared with the discrete-log oracle, distinct by the bytes of its inputs",
        assumptions: vec!["field and curve arithmetic of the arkworks crates is trusted (the oracle uses single pairings, scalar multiplication and field operations)"],
        required: vec!["pairing_ip equals e(g,h)^sum(log*log)", "msm_ip equals naive sum", "scalar_ip equals naive sum", "refused:error"],
        workloads: vec![
            wl("pairing-bls12-381", 160, 4000, pairing::<Bls12_381>),
            wl("pairing-bls12-377", 60, 1500, pairing::<Bls12_377>),
            wl("pairing-bw6-761", 26, 300, pairing::<BW6_761>),
            wl("msm-g1", 120, 3000, msm::<<Bls12_381 as Pairing>::G1>),
            wl("msm-g2", 60, 1500, msm::<<Bls12_381 as Pairing>::G2>),
            wl("msm-jubjub", 80, 2000, msm::<ark_ed_on_bls12_381::EdwardsProjective>),
            wl("msm-377-g1", 40, 800, msm::<<Bls12_377 as Pairing>::G1>),
            wl("words-g1", 8, 80, words::<<Bls12_381 as Pairing>::G1>),
            wl("words-g2", 4, 40, words::<<Bls12_377 as Pairing>::G2>),
            wl("words-jubjub", 8, 80, words::<ark_ed_on_bls12_381::EdwardsProjective>),
            wl("scalar", 300, 8000, scalar::<ark_bls12_381::Fr>),
            wl("bilinear", 40, 600, bilinear::<Bls12_381>),
            wl("mismatch-381", 90, 900, mismatch::<Bls12_381>),
            wl("mismatch-377", 27, 200, mismatch::<Bls12_377>),
            wl("pairing-mini", 800, 6000, pairing::<Mini>),
            wl("msm-mini", 800, 6000, msm::<<Mini as Pairing>::G1>),
            wl("scalar-mini", 800, 4000, scalar::<<Mini as Pairing>::ScalarField>),
        ],
    })
}
