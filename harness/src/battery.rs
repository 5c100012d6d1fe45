//! Every operation of the library on generated inputs: named results, for comparison across
//! threads, runs and builds. Depends on nothing of the harness (see battery_ip.rs).
use super::battery_ip::*;
use ark_dh_commitments::{afgho16::*, identity::*, pedersen::*, DoublyHomomorphicCommitment as DHC};
use ark_ec::{pairing::*, CurveGroup, Group};
use ark_ff::{Field, UniformRand, Zero};
use ark_groth16::{Proof, VerifyingKey};
use ark_inner_products::*;
use ark_ip_proofs::applications::{groth16_aggregation::*, poly_commit as pcm, poly_commit::transparent as pct};
use ark_ip_proofs::{gipa::GIPA, tipa::structured_scalar_message::*, tipa::*};
use ark_poly::{univariate::DensePolynomial, DenseUVPolynomial};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_sipp::{product_of_pairings, product_of_pairings_with_coeffs, rng::FiatShamirRng, SIPP};
use ark_std::rand::{rngs::StdRng, Rng, RngCore, SeedableRng};
use blake2::{Blake2b, Blake2s};

type D = Blake2b;
type Fr<P> = <P as Pairing>::ScalarField;

fn re<A: CanonicalSerialize, B: CanonicalDeserialize>(a: &A) -> B {
    let mut b = Vec::new();
    a.serialize_uncompressed(&mut b).unwrap();
    B::deserialize_uncompressed_unchecked(&b[..]).unwrap()
}

fn powers<F: Field>(s: F, n: usize) -> Vec<F> {
    let mut v = vec![F::one()];
    while v.len() < n {
        let l = *v.last().unwrap();
        v.push(l * s);
    }
    v
}

macro_rules! arguments {
    ($out:expr, $r:expr, $n:expr, $name:expr, $P:ty, $IP:ty, $L:ty, $R:ty, $T:ty, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        let t = <$IP>::inner_product(&a, &b).unwrap();
        // transparent
        let (ka, kb, kt) = GIPA::<$IP, $L, $R, $T, D>::setup($r, $n).unwrap();
        put($out, concat!($name, ": keys"), &(ka.clone(), kb.clone()));
        let ca = <$L>::commit(&ka, &a).unwrap();
        let cb = <$R>::commit(&kb, &b).unwrap();
        let ct = <$T>::commit(&[kt.clone()], &[t.clone()]).unwrap();
        put($out, concat!($name, ": commitments"), &(ca.clone(), cb.clone(), ct.clone()));
        let p = GIPA::<$IP, $L, $R, $T, D>::prove((&a, &b, &t), (&ka, &kb, &kt), (&ca, &cb, &ct)).unwrap();
        put($out, concat!($name, ": transparent proof"), &p);
        let v = GIPA::<$IP, $L, $R, $T, D>::verify((&ka, &kb, &kt), (&ca, &cb, &ct), &p).unwrap();
        let w = GIPA::<$IP, $L, $R, $T, D>::verify((&ka, &kb, &kt), (&(ca.clone() + ca.clone() + <$L>::commit(&ka, &a).unwrap()), &cb, &ct), &p).unwrap();
        put($out, concat!($name, ": transparent verdicts"), &(v, w));
        let (_, tr) = GIPA::<$IP, $L, $R, $T, D>::verify_recursive_challenge_transcript((&ca, &cb, &ct), &p).unwrap();
        put($out, concat!($name, ": challenges"), &tr);
        // trusted, with a shift
        let (srs, kt) = TIPA::<$IP, $L, $R, $T, $P, D>::setup($r, $n).unwrap();
        put($out, concat!($name, ": setup"), &(srs.g_alpha_powers.clone(), srs.h_beta_powers.clone(), srs.g_beta, srs.h_alpha));
        let (k1, k2) = srs.get_commitment_keys();
        let s = Fr::<$P>::rand($r);
        let k1: Vec<_> = k1.iter().zip(powers(s.inverse().unwrap(), $n)).map(|(k, f)| *k * f).collect();
        let ca = <$L>::commit(&k1, &a).unwrap();
        let cb = <$R>::commit(&k2, &b).unwrap();
        let p = TIPA::<$IP, $L, $R, $T, $P, D>::prove_with_srs_shift(&srs, (&a, &b), (&k1, &k2, &kt), &s).unwrap();
        put($out, concat!($name, ": trusted proof"), &p);
        let vk = srs.get_verifier_key();
        let v = TIPA::<$IP, $L, $R, $T, $P, D>::verify_with_srs_shift(&vk, &kt, (&ca, &cb, &ct), &p, &s).unwrap();
        let w = TIPA::<$IP, $L, $R, $T, $P, D>::verify(&vk, &kt, (&ca, &cb, &ct), &p).unwrap();
        put($out, concat!($name, ": trusted verdicts"), &(v, w));
    }};
}

macro_rules! powers_arguments {
    ($out:expr, $r:expr, $n:expr, $name:expr, $P:ty, $IP:ty, $L:ty, $T:ty, $a:expr) => {{
        let a = $a;
        let s = Fr::<$P>::rand($r);
        let pw = structured_scalar_power($n, &s);
        put($out, concat!($name, ": powers"), &pw);
        let t = <$IP>::inner_product(&a, &pw).unwrap();
        let ct = <$T>::commit(&[HomomorphicPlaceholderValue], &[t]).unwrap();
        let (k, kt) = GIPAWithSSM::<$IP, $L, $T, D>::setup($r, $n).unwrap();
        let c = <$L>::commit(&k, &a).unwrap();
        let p = GIPAWithSSM::<$IP, $L, $T, D>::prove_with_structured_scalar_message((&a, &pw), (&k, &kt)).unwrap();
        put($out, concat!($name, ": transparent proof for powers"), &p);
        let v = GIPAWithSSM::<$IP, $L, $T, D>::verify_with_structured_scalar_message((&k, &kt), (&c, &ct), &s, &p).unwrap();
        let w = GIPAWithSSM::<$IP, $L, $T, D>::verify_with_structured_scalar_message((&k, &kt), (&c, &ct), &(s + s), &p).unwrap();
        put($out, concat!($name, ": transparent verdicts for powers"), &(v, w));
        let (srs, kt) = TIPAWithSSM::<$IP, $L, $T, $P, D>::setup($r, $n).unwrap();
        let (k, _) = srs.get_commitment_keys();
        let c = <$L>::commit(&k, &a).unwrap();
        let p = TIPAWithSSM::<$IP, $L, $T, $P, D>::prove_with_structured_scalar_message(&srs, (&a, &pw), (&k, &kt)).unwrap();
        put($out, concat!($name, ": trusted proof for powers"), &p);
        let vk = srs.get_verifier_key();
        let v = TIPAWithSSM::<$IP, $L, $T, $P, D>::verify_with_structured_scalar_message(&vk, &kt, (&c, &ct), &s, &p).unwrap();
        let w = TIPAWithSSM::<$IP, $L, $T, $P, D>::verify_with_structured_scalar_message(&vk, &kt, (&c, &ct), &(s + s), &p).unwrap();
        put($out, concat!($name, ": trusted verdicts for powers"), &(v, w));
    }};
}

fn args<P: Pairing>(out: &mut Results, r: &mut StdRng) {
    // one of them where executions are slow
    let only = (small(3) < 3).then(|| r.gen_range(0..5));
    let wanted = |k: usize| only.is_none() || only == Some(k);

    if wanted(0) {
        let n = small(1 << r.gen_range(0..5));
        arguments!(
            out, r, n, "pairing", P, PairingInnerProduct<P>, AFGHOCommitmentG1<P>, AFGHOCommitmentG2<P>,
            IdentityCommitment<PairingOutput<P>, Fr<P>>, some_points::<P::G1>(r, n), some_points::<P::G2>(r, n)
        );
    }
    if wanted(1) {
        let n = small(1 << r.gen_range(0..5));
        arguments!(
            out, r, n, "multi-exponentiation", P, MultiexponentiationInnerProduct<P::G1>, AFGHOCommitmentG1<P>, PedersenCommitment<P::G1>,
            IdentityCommitment<P::G1, Fr<P>>, some_points::<P::G1>(r, n), some_scalars::<Fr<P>>(r, n)
        );
    }
    if wanted(2) {
        let n = small(1 << r.gen_range(0..6));
        arguments!(
            out, r, n, "scalar", P, ScalarInnerProduct<Fr<P>>, PedersenCommitment<P::G2>, PedersenCommitment<P::G1>,
            IdentityCommitment<Fr<P>, Fr<P>>, some_scalars::<Fr<P>>(r, n), some_scalars::<Fr<P>>(r, n)
        );
    }
    if wanted(3) {
        let n = small(1 << r.gen_range(0..5));
        powers_arguments!(
            out, r, n, "multi-exponentiation", P, MultiexponentiationInnerProduct<P::G1>, AFGHOCommitmentG1<P>,
            IdentityCommitment<P::G1, Fr<P>>, some_points::<P::G1>(r, n)
        );
    }
    if wanted(4) {
        let n = small(1 << r.gen_range(0..6));
        powers_arguments!(
            out, r, n, "scalar", P, ScalarInnerProduct<Fr<P>>, PedersenCommitment<P::G2>,
            IdentityCommitment<Fr<P>, Fr<P>>, some_scalars::<Fr<P>>(r, n)
        );
    }
}

fn sipp<P: Pairing>(out: &mut Results, r: &mut StdRng) {
    for n in [small(1 << r.gen_range(1..5)), small(r.gen_range(0..25))] {
        let a = P::G1::normalize_batch(&some_points::<P::G1>(r, n));
        let b = P::G2::normalize_batch(&some_points::<P::G2>(r, n));
        let x: Vec<Fr<P>> = some_scalars(r, n);
        put(out, "pairing product", &product_of_pairings::<P>(&a, &b));
        let v = product_of_pairings_with_coeffs::<P>(&a, &b, &x);
        put(out, "pairing product with scalars", &v);
        if n.is_power_of_two() && n > 1 {
            let p = SIPP::<P, Blake2s>::prove(&a, &b, &x, v).unwrap();
            put(out, "pairing-product proof", &p.gt_elems().to_vec());
            let ok = SIPP::<P, Blake2s>::verify(&a, &b, &x, v, &p).unwrap();
            let no = SIPP::<P, Blake2s>::verify(&a, &b, &x, v + PairingOutput::generator(), &p).unwrap();
            put(out, "pairing-product verdicts", &(ok, no));
        }
    }
    let mut f = FiatShamirRng::<Blake2s>::from_seed(&r.gen::<[u8; 16]>());
    let mut s = vec![0u8; 80];
    f.fill_bytes(&mut s[..37]);
    f.absorb(&r.gen::<[u8; 20]>());
    f.fill_bytes(&mut s[37..]);
    put(out, "Fiat-Shamir stream", &(s, f.next_u64()));
}

fn polys<P: Pairing>(out: &mut Results, r: &mut StdRng) {
    let (pw, v) = pcm::KZG::<P>::setup(r, 12).unwrap();
    let n = small(r.gen_range(0..13));
    let p = DensePolynomial::from_coefficients_vec(some_scalars::<Fr<P>>(r, n));
    let z = Fr::<P>::rand(r);
    let c = pcm::KZG::<P>::commit(&pw, &p).unwrap();
    let w = pcm::KZG::<P>::open(&pw, &p, &z).unwrap();
    put(out, "powers: commitment and opening", &(c, w));
    put(out, "powers: verdict", &pcm::KZG::<P>::verify(&v, &c, &z, &z, &w).unwrap());

    let (x, y) = (small(1 << r.gen_range(0..4)) - 1, small(1 << r.gen_range(0..4)) - 1);
    let rows: Vec<Vec<Fr<P>>> = (0..=x)
        .map(|_| {
            let n = r.gen_range(0..=y + 1);
            DensePolynomial::from_coefficients_vec(some_scalars(r, n)).coeffs
        })
        .collect();
    let z = (Fr::<P>::rand(r), Fr::<P>::rand(r));
    macro_rules! bivariate {
        ($m:ident, $name:expr, $vk:expr) => {{
            type B<P> = $m::BivariatePolynomialCommitment<P, D>;
            let k = B::<P>::setup(r, x, y).unwrap();
            let f: $m::BivariatePolynomial<Fr<P>> = re(&rows);
            let e = f.evaluate(&z);
            put(out, concat!($name, ": value"), &e);
            let (c, cs) = B::<P>::commit(&k, &f).unwrap();
            put(out, concat!($name, ": commitments"), &(c, cs.clone()));
            let o = B::<P>::open(&k, &f, &cs, &z).unwrap();
            put(out, concat!($name, ": opening"), &o);
            let vk = $vk(&k);
            let ok = B::<P>::verify(&vk, &c, &z, &e, &o).unwrap();
            let no = B::<P>::verify(&vk, &c, &z, &(e + e + z.0), &o).unwrap();
            put(out, concat!($name, ": verdicts"), &(ok, no));
        }};
    }
    bivariate!(pcm, "trusted polynomial", |k: &(SRS<P>, Vec<P::G1Affine>)| k.0.get_verifier_key());
    bivariate!(pct, "transparent polynomial", |k: &(Vec<P::G1>, Vec<P::G2>)| k.clone());
    let d = small(r.gen_range(0..80));
    let p = DensePolynomial::from_coefficients_vec(some_scalars::<Fr<P>>(r, d + 1));
    let z = Fr::<P>::rand(r);
    type U<P> = pcm::UnivariatePolynomialCommitment<P, D>;
    let k = U::<P>::setup(r, d).unwrap();
    let (c, cs) = U::<P>::commit(&k, &p).unwrap();
    let o = U::<P>::open(&k, &p, &cs, &z).unwrap();
    put(out, "trusted one-variable opening", &(c, o));
    type W<P> = pct::UnivariatePolynomialCommitment<P, D>;
    let k = W::<P>::setup(r, d).unwrap();
    let (c, cs) = W::<P>::commit(&k, &p).unwrap();
    let o = W::<P>::open(&k, &p, &cs, &z).unwrap();
    put(out, "transparent one-variable opening", &(c, o));
}

fn aggregation<P: Pairing>(out: &mut Results, r: &mut StdRng) {
    let n = small(1 << r.gen_range(0..4));
    let k = r.gen_range(0..3);
    let srs = setup_inner_product::<P, D, _>(r, n).unwrap();
    let (g, h) = (P::G1::generator(), P::G2::generator());
    let t: Vec<Fr<P>> = (0..4).map(|_| Fr::<P>::rand(r)).collect();
    let ic: Vec<Fr<P>> = (0..=k).map(|_| Fr::<P>::rand(r)).collect();
    let vk = VerifyingKey::<P> {
        alpha_g1: (g * t[0]).into_affine(),
        beta_g2: (h * t[1]).into_affine(),
        gamma_g2: (h * t[2]).into_affine(),
        delta_g2: (h * t[3]).into_affine(),
        gamma_abc_g1: ic.iter().map(|x| (g * x).into_affine()).collect(),
    };
    let mut xs = vec![];
    let mut ps = vec![];
    for _ in 0..n {
        let x: Vec<Fr<P>> = some_scalars(r, k);
        let (a, b) = (Fr::<P>::rand(r), Fr::<P>::rand(r));
        let s = x.iter().zip(&ic[1..]).fold(ic[0], |s, (x, i)| s + *x * i);
        let c = (a * b - t[0] * t[1] - s * t[2]) * t[3].inverse().unwrap();
        ps.push(Proof::<P> { a: (g * a).into_affine(), b: (h * b).into_affine(), c: (g * c).into_affine() });
        xs.push(x);
    }
    let p = aggregate_proofs::<P, D>(&srs, &ps).unwrap();
    put(out, "aggregate", &p);
    let v = srs.get_verifier_key();
    let ok = verify_aggregate_proof::<P, D>(&v, &vk, &xs, &p).unwrap();
    let mut bad = vk.clone();
    bad.alpha_g1 = (g * t[1]).into_affine();
    let no = verify_aggregate_proof::<P, D>(&v, &bad, &xs, &p).unwrap();
    put(out, "aggregate verdicts", &(ok, no));
}

/// Calls that fail; whatever they leave behind must not matter.
pub fn failures<P: Pairing>(seed: u64) {
    let mut r = StdRng::seed_from_u64(seed ^ 0xfa11);
    let a: Vec<P::G1> = some_points(&mut r, 3);
    let b: Vec<P::G2> = some_points(&mut r, 4);
    let x: Vec<Fr<P>> = some_scalars(&mut r, 5);
    let quiet = |f: &mut dyn FnMut()| {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    };
    quiet(&mut || {
        let _ = PairingInnerProduct::<P>::inner_product(&a, &b);
        let _ = MultiexponentiationInnerProduct::<P::G1>::inner_product(&a, &x);
        let _ = ScalarInnerProduct::<Fr<P>>::inner_product(&x, &x[1..]);
    });
    type G<P> = GIPA<ScalarInnerProduct<Fr<P>>, PedersenCommitment<<P as Pairing>::G1>, PedersenCommitment<<P as Pairing>::G1>, IdentityCommitment<Fr<P>, Fr<P>>, D>;
    quiet(&mut || {
        let (k, l, t) = G::<P>::setup(&mut r, 5).unwrap();
        let _ = G::<P>::prove_with_aux((&x, &x), (&k, &l, &[t]));
    });
    quiet(&mut || {
        let (a, b) = (P::G1::normalize_batch(&a), P::G2::normalize_batch(&b[..3]));
        let _ = SIPP::<P, Blake2s>::prove(&a, &b, &x[..3], PairingOutput::zero());
    });
    quiet(&mut || {
        let srs = setup_inner_product::<P, D, _>(&mut StdRng::seed_from_u64(seed), 2).unwrap();
        let _ = aggregate_proofs::<P, D>(&srs, &[]);
    });
}

/// Longer vectors than elsewhere: work is split over more threads.
fn long<P: Pairing>(out: &mut Results, r: &mut StdRng) {
    let n = small(r.gen_range(40..120));
    let (a, b): (Vec<P::G1>, Vec<P::G2>) = (some_points(r, n), some_points(r, n));
    let x: Vec<Fr<P>> = some_scalars(r, n);
    put(out, "long pairing inner product", &PairingInnerProduct::<P>::inner_product(&a, &b).unwrap());
    put(out, "long multi-exponentiation", &MultiexponentiationInnerProduct::<P::G1>::inner_product(&a, &x).unwrap());
    let (a, b) = (P::G1::normalize_batch(&a), P::G2::normalize_batch(&b));
    put(out, "long pairing product", &product_of_pairings::<P>(&a, &b));
    put(out, "long pairing product with scalars", &product_of_pairings_with_coeffs::<P>(&a, &b, &x));
    let n = small(1 << r.gen_range(5..7));
    let y: Vec<Fr<P>> = some_scalars(r, 3 * n);
    put(out, "long scalar inner product", &ScalarInnerProduct::<Fr<P>>::inner_product(&y, &y).unwrap());
    let (x, y) = (some_scalars::<Fr<P>>(r, n), some_scalars::<Fr<P>>(r, n));
    arguments!(
        out, r, n, "long scalar", P, ScalarInnerProduct<Fr<P>>, PedersenCommitment<P::G2>, PedersenCommitment<P::G1>,
        IdentityCommitment<Fr<P>, Fr<P>>, x, y
    );
    let n = small(1 << r.gen_range(5..7));
    let (pw, v) = pcm::KZG::<P>::setup(r, n).unwrap();
    let p = DensePolynomial::from_coefficients_vec(some_scalars::<Fr<P>>(r, n + 1));
    let z = Fr::<P>::rand(r);
    let c = pcm::KZG::<P>::commit(&pw, &p).unwrap();
    let w = pcm::KZG::<P>::open(&pw, &p, &z).unwrap();
    put(out, "long powers: commitment and opening", &(c, w));
    put(out, "long powers: verdict", &pcm::KZG::<P>::verify(&v, &c, &z, &z, &w).unwrap());
}

/// Vectors of thousands, over a curve where that is quick.
fn vast<P: Pairing>(out: &mut Results, r: &mut StdRng) {
    let n = r.gen_range(2000..9000);
    let (a, b): (Vec<P::G1>, Vec<P::G2>) = (some_points(r, n), some_points(r, n));
    let x: Vec<Fr<P>> = some_scalars(r, n);
    put(out, "vast pairing inner product", &PairingInnerProduct::<P>::inner_product(&a, &b).unwrap());
    put(out, "vast multi-exponentiation", &MultiexponentiationInnerProduct::<P::G1>::inner_product(&a, &x).unwrap());
    let (a, b) = (P::G1::normalize_batch(&a), P::G2::normalize_batch(&b));
    put(out, "vast pairing product", &product_of_pairings::<P>(&a, &b));
    put(out, "vast pairing product with scalars", &product_of_pairings_with_coeffs::<P>(&a, &b, &x));
    let y: Vec<Fr<P>> = some_scalars(r, 20 * n);
    put(out, "vast scalar inner product", &ScalarInnerProduct::<Fr<P>>::inner_product(&y, &y).unwrap());
    let n = 1 << r.gen_range(10..13);
    let (a, b) = (&a[..n.min(a.len())], &b[..n.min(b.len())]);
    let n = if a.len() == n { n } else { 1024 };
    let (a, b) = (&a[..n], &b[..n]);
    let v = product_of_pairings_with_coeffs::<P>(a, b, &x[..n]);
    let p = SIPP::<P, Blake2s>::prove(a, b, &x[..n], v).unwrap();
    put(out, "vast pairing-product proof", &p.gt_elems().to_vec());
    put(out, "vast pairing-product verdict", &SIPP::<P, Blake2s>::verify(a, b, &x[..n], v, &p).unwrap());
    let g: Vec<P::G1> = a.iter().map(|a| (*a).into()).collect();
    arguments!(
        out, r, n, "vast multi-exponentiation", P, MultiexponentiationInnerProduct<P::G1>, AFGHOCommitmentG1<P>, PedersenCommitment<P::G1>,
        IdentityCommitment<P::G1, Fr<P>>, g, x[..n].to_vec()
    );
    let n = r.gen_range(1000..9000);
    let (pw, v) = pcm::KZG::<P>::setup(r, n).unwrap();
    let p = DensePolynomial::from_coefficients_vec(some_scalars::<Fr<P>>(r, n + 1));
    let z = Fr::<P>::rand(r);
    let c = pcm::KZG::<P>::commit(&pw, &p).unwrap();
    let w = pcm::KZG::<P>::open(&pw, &p, &z).unwrap();
    put(out, "vast powers: commitment and opening", &(c, w));
    put(out, "vast powers: verdict", &pcm::KZG::<P>::verify(&v, &c, &z, &z, &w).unwrap());
}

pub const PARTS: usize = 6;
/// A part that is not for the curves of full size.
pub const VAST: usize = PARTS;

/// One part of the battery.
pub fn part<P: Pairing>(seed: u64, k: usize) -> Results {
    let mut r = StdRng::seed_from_u64(seed ^ (k as u64) << 32);
    let mut out = vec![];
    match k {
        0 => return inner_products::<P>(seed),
        1 => args::<P>(&mut out, &mut r),
        2 => sipp::<P>(&mut out, &mut r),
        3 => polys::<P>(&mut out, &mut r),
        4 => aggregation::<P>(&mut out, &mut r),
        5 => long::<P>(&mut out, &mut r),
        _ => vast::<P>(&mut out, &mut r),
    }
    out
}

/// All parts, or the one asked for, as a table; `name<TAB>hex` per line.
pub fn table<P: Pairing>(seed: u64, k: Option<usize>) -> String {
    let mut s = String::new();
    for k in k.map(|k| k..k + 1).unwrap_or(0..PARTS) {
        for (n, b) in part::<P>(seed, k) {
            s += &format!("{n}\t{}\n", b.iter().map(|x| format!("{x:02x}")).collect::<String>());
        }
    }
    s
}
