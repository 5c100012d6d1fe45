//! Inner products over generated vectors: named results, for comparison across threads and builds.
//! Compiled into the monitors and into the serial builds, so it depends on nothing of the harness.
use ark_ec::{pairing::Pairing, CurveGroup};
use ark_ff::UniformRand;
use ark_inner_products::*;
use ark_serialize::CanonicalSerialize;
use ark_std::rand::{rngs::StdRng, Rng, SeedableRng};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub type Results = Vec<(String, Vec<u8>)>;

/// No vector gets longer than this (a power of two); for executions that are slow.
pub static LONGEST: AtomicUsize = AtomicUsize::new(usize::MAX);
pub fn small(n: usize) -> usize {
    n.min(LONGEST.load(Relaxed))
}

/// Called before each result is recorded.
pub static STEP: std::sync::OnceLock<fn()> = std::sync::OnceLock::new();

pub fn put<T: CanonicalSerialize>(out: &mut Results, name: &str, t: &T) {
    if let Some(f) = STEP.get() {
        f()
    }
    let mut b = Vec::new();
    t.serialize_compressed(&mut b).unwrap();
    out.push((name.to_string(), b));
}

/// Mostly random, sometimes neutral or repeated.
pub fn some_points<G: CurveGroup>(r: &mut StdRng, n: usize) -> Vec<G> {
    let mut v: Vec<G> = Vec::new();
    for i in 0..n {
        let p = match r.gen_range(0..10) {
            0 => G::zero(),
            1 if i > 0 => v[i - 1],
            2 if i > 0 => -v[0],
            _ => G::generator() * G::ScalarField::rand(r),
        };
        v.push(p);
    }
    v
}
pub fn some_scalars<F: ark_ff::PrimeField>(r: &mut StdRng, n: usize) -> Vec<F> {
    (0..n)
        .map(|_| match r.gen_range(0..8) {
            0 => F::zero(),
            1 => -F::one(),
            _ => F::rand(r),
        })
        .collect()
}

pub fn inner_products<P: Pairing>(seed: u64) -> Results {
    let mut r = StdRng::seed_from_u64(seed ^ 0x1b);
    let mut out = vec![];
    for k in 0..4 {
        let n = if k == 0 { r.gen_range(0..3) } else { small(r.gen_range(0..40)) };
        let (a, b): (Vec<P::G1>, Vec<P::G2>) = (some_points(&mut r, n), some_points(&mut r, n));
        let x: Vec<P::ScalarField> = some_scalars(&mut r, n);
        let y: Vec<P::ScalarField> = some_scalars(&mut r, n);
        put(&mut out, "pairing inner product", &PairingInnerProduct::<P>::inner_product(&a, &b).unwrap());
        put(&mut out, "multi-pairing", &cfg_multi_pairing::<P>(&a, &b).unwrap());
        put(&mut out, "multi-exponentiation", &MultiexponentiationInnerProduct::<P::G1>::inner_product(&a, &x).unwrap());
        put(&mut out, "multi-exponentiation, second group", &MultiexponentiationInnerProduct::<P::G2>::inner_product(&b, &y).unwrap());
        put(&mut out, "scalar inner product", &ScalarInnerProduct::<P::ScalarField>::inner_product(&x, &y).unwrap());
        let e = PairingInnerProduct::<P>::inner_product(&a, &[]).is_err();
        put(&mut out, "refusal", &e);
    }
    out
}
