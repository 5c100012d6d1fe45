//! Small shared helpers: wire bridging, instrumented digests, references.
use ark_ec::{pairing::*, CurveGroup, Group};
use ark_ff::{Field, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use digest::{generic_array::GenericArray, FixedOutput, Reset, Update};
use std::cell::RefCell;

pub fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut b = Vec::new();
    t.serialize_uncompressed(&mut b).unwrap();
    b
}

pub fn ser_c<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut b = Vec::new();
    t.serialize_compressed(&mut b).unwrap();
    b
}

/// Moves a value between types of the same wire format (no validity check).
pub fn bridge<A: CanonicalSerialize, B: CanonicalDeserialize>(a: &A) -> B {
    let b = ser(a);
    match B::deserialize_uncompressed_unchecked(&b[..]) {
        Ok(x) => x,
        Err(e) => crate::inconclusive(format!("bridge between proof views failed: {e:?}")),
    }
}

pub fn copy<A: CanonicalSerialize + CanonicalDeserialize>(a: &A) -> A {
    bridge(a)
}

/// Naive references.
pub fn ref_msm<G: CurveGroup>(b: &[G], s: &[G::ScalarField]) -> G {
    let mut acc = G::zero();
    for (x, y) in b.iter().zip(s) {
        acc += x.mul_bigint(y.into_bigint());
    }
    acc
}

pub fn ref_pairing<P: Pairing>(a: &[P::G1], b: &[P::G2]) -> PairingOutput<P> {
    let mut acc = PairingOutput::<P>::zero();
    for (x, y) in a.iter().zip(b) {
        acc += P::pairing(x.into_affine(), y.into_affine());
    }
    acc
}

pub fn ref_scalar<F: Field>(a: &[F], b: &[F]) -> F {
    let mut acc = F::zero();
    for (x, y) in a.iter().zip(b) {
        acc += *x * y;
    }
    acc
}

pub fn powers<F: Field>(s: F, n: usize) -> Vec<F> {
    let mut v = Vec::with_capacity(n);
    let mut c = F::one();
    for _ in 0..n {
        v.push(c);
        c *= s;
    }
    v
}

pub fn g1<P: Pairing>() -> P::G1 {
    P::G1::generator()
}
pub fn g2<P: Pairing>() -> P::G2 {
    P::G2::generator()
}

// ---------------------------------------------------------------- instrumented digests

thread_local! {
    static HASHES: RefCell<(u64, u64)> = const { RefCell::new((0, 0)) };
}

/// Counts digests on this thread; more than the limit is a runaway loop, seen as logical steps.
#[derive(Clone, Default)]
pub struct CountD<D>(D);

pub const HASH_LIMIT: u64 = 20_000;

pub fn hashes_reset() {
    HASHES.with(|h| *h.borrow_mut() = (0, 0));
}
/// (digests computed, bytes absorbed) on this thread since the last reset.
pub fn hashes() -> (u64, u64) {
    HASHES.with(|h| *h.borrow())
}

impl<D: Update> Update for CountD<D> {
    fn update(&mut self, data: impl AsRef<[u8]>) {
        HASHES.with(|h| h.borrow_mut().1 += data.as_ref().len() as u64);
        self.0.update(data)
    }
}
impl<D: Reset> Reset for CountD<D> {
    fn reset(&mut self) {
        self.0.reset()
    }
}
fn count() {
    let n = HASHES.with(|h| {
        let mut h = h.borrow_mut();
        h.0 += 1;
        h.0
    });
    if n > HASH_LIMIT {
        panic!("runaway: more than {HASH_LIMIT} digests in one call");
    }
}
impl<D: FixedOutput> FixedOutput for CountD<D> {
    type OutputSize = D::OutputSize;
    fn finalize_into(self, out: &mut GenericArray<u8, Self::OutputSize>) {
        count();
        self.0.finalize_into(out)
    }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, Self::OutputSize>) {
        count();
        self.0.finalize_into_reset(out)
    }
}

/// A deterministic digest that often yields outputs the challenge derivation must not use as they
/// are: first sixteen bytes zero (a zero 128-bit challenge), and, when `FF`, all bytes 0xff (no
/// canonical field element). The choice depends on the true digest, so that both sides agree and a
/// retry with other input gets another draw.
#[derive(Clone, Default)]
pub struct FaultD<D, const ZERO: u8, const FF: u8>(D);

impl<D: Update, const Z: u8, const F: u8> Update for FaultD<D, Z, F> {
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.0.update(data)
    }
}
impl<D: Reset, const Z: u8, const F: u8> Reset for FaultD<D, Z, F> {
    fn reset(&mut self) {
        self.0.reset()
    }
}
fn corrupt(out: &mut [u8], zero: u8, ff: u8) {
    count();
    let n = out.len();
    let sel = out[n - 1];
    if sel < zero {
        FAULTS.with(|f| f.borrow_mut().0 += 1);
        for b in out[..16].iter_mut() {
            *b = 0;
        }
    } else if sel < zero.saturating_add(ff) {
        FAULTS.with(|f| f.borrow_mut().1 += 1);
        for b in out.iter_mut() {
            *b = 0xff;
        }
    }
}
thread_local! {
    static FAULTS: RefCell<(u64, u64)> = const { RefCell::new((0, 0)) };
}
/// (zero-prefix outputs, all-ones outputs) injected on this thread; resets the counters.
pub fn take_faults() -> (u64, u64) {
    FAULTS.with(|f| std::mem::take(&mut *f.borrow_mut()))
}
impl<D: FixedOutput, const Z: u8, const F: u8> FixedOutput for FaultD<D, Z, F> {
    type OutputSize = D::OutputSize;
    fn finalize_into(self, out: &mut GenericArray<u8, Self::OutputSize>) {
        self.0.finalize_into(out);
        corrupt(out.as_mut_slice(), Z, F);
    }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, Self::OutputSize>) {
        self.0.finalize_into_reset(out);
        corrupt(out.as_mut_slice(), Z, F);
    }
}

/// A generator that counts the bytes drawn from it.
#[derive(Clone)]
pub struct CountRng {
    inner: ark_std::rand::rngs::StdRng,
    pub bytes: u64,
}

impl CountRng {
    pub fn new(seed: u64) -> Self {
        CountRng { inner: ark_std::rand::SeedableRng::seed_from_u64(seed), bytes: 0 }
    }
}

impl ark_std::rand::RngCore for CountRng {
    fn next_u32(&mut self) -> u32 {
        self.bytes += 4;
        self.inner.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.bytes += 8;
        self.inner.next_u64()
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        self.bytes += b.len() as u64;
        self.inner.fill_bytes(b)
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
