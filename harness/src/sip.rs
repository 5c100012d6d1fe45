//! The pairing-product argument: instances with known logarithms, challenges read off the digest.
use crate::*;
use ark_ec::{pairing::*, CurveGroup, Group};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_serialize::CanonicalSerialize;
use ark_sipp::{Proof as SProofG, SIPP};
use ark_std::rand::{Rng, SeedableRng};
use digest::{generic_array::typenum::U32, Digest};

pub type Fr<P> = <P as Pairing>::ScalarField;

pub struct Sip<P: Pairing> {
    pub n: usize,
    pub a: Vec<P::G1Affine>,
    pub b: Vec<P::G2Affine>,
    pub r: Vec<Fr<P>>,
    pub la: Vec<Fr<P>>,
    pub lb: Vec<Fr<P>>,
    pub v: PairingOutput<P>,
}

impl<P: Pairing> Clone for Sip<P> {
    fn clone(&self) -> Self {
        Sip {
            n: self.n,
            a: self.a.clone(),
            b: self.b.clone(),
            r: self.r.clone(),
            la: self.la.clone(),
            lb: self.lb.clone(),
            v: self.v,
        }
    }
}

pub fn egh<P: Pairing>() -> PairingOutput<P> {
    P::pairing(g1::<P>(), g2::<P>())
}

impl<P: Pairing> Sip<P> {
    pub fn gen(c: &mut Case, n: usize, s: (Shape, Shape, Shape)) -> Self {
        let (a, la) = points_with_logs::<P::G1>(&mut c.rng, n, s.0);
        let (b, lb) = points_with_logs::<P::G2>(&mut c.rng, n, s.1);
        let r = scalars(&mut c.rng, n, s.2);
        let mut i = Sip {
            n,
            a: P::G1::normalize_batch(&a),
            b: P::G2::normalize_batch(&b),
            r,
            la,
            lb,
            v: PairingOutput::zero(),
        };
        i.v = i.truth();
        i
    }
    /// The true value, by the logarithms.
    pub fn truth(&self) -> PairingOutput<P> {
        let mut e = Fr::<P>::zero();
        for j in 0..self.n {
            e += self.la[j] * self.lb[j] * self.r[j];
        }
        egh::<P>() * e
    }
    pub fn set_a(&mut self, j: usize, l: Fr<P>) {
        self.la[j] = l;
        self.a[j] = (P::G1::generator() * l).into_affine();
    }
    pub fn set_b(&mut self, j: usize, l: Fr<P>) {
        self.lb[j] = l;
        self.b[j] = (P::G2::generator() * l).into_affine();
    }
    pub fn prove<D: Digest<OutputSize = U32>>(&self) -> Result<SProofG<P>, ()> {
        SIPP::<P, D>::prove(&self.a, &self.b, &self.r, self.v)
    }
    pub fn verify<D: Digest<OutputSize = U32>>(&self, p: &SProofG<P>) -> Result<bool, ()> {
        SIPP::<P, D>::verify(&self.a, &self.b, &self.r, self.v, p)
    }
    /// Random instance with a non-neutral value.
    pub fn nontrivial(c: &mut Case, n: usize) -> Self {
        for _ in 0..20 {
            let s = if c.rng.gen_bool(0.6) { Shape::Random } else { shape(&mut c.rng) };
            let i = Self::gen(c, n, (s, Shape::Random, Shape::Random));
            if !i.v.is_zero() {
                return i;
            }
        }
        inconclusive("no instance with a non-neutral product".into())
    }
    /// The verifier's challenges, from the recorded digests: the last m outputs each reseed.
    pub fn challenges(&self, p: &SProofG<P>) -> Option<Vec<Fr<P>>> {
        take_tape();
        let _ = guarded(|| self.verify::<RecD<blake2::Blake2s>>(p));
        let t = take_tape();
        let m = p.gt_elems().len();
        if t.len() < m || m == 0 {
            return None;
        }
        Some(t[t.len() - m..].iter().map(|d| sip_challenge::<P>(d)).collect())
    }
    /// The factors of the folded vectors for given challenges (first round splits by halves).
    pub fn weights(&self, xs: &[Fr<P>]) -> (Vec<Fr<P>>, Vec<Fr<P>>) {
        let m = xs.len();
        let mut s = vec![Fr::<P>::one(); self.n];
        let mut si = s.clone();
        for (j, x) in xs.iter().enumerate() {
            for i in 0..self.n {
                if i >> (m - 1 - j) & 1 == 1 {
                    s[i] *= x;
                    si[i] *= x.inverse().unwrap();
                }
            }
        }
        (s, si)
    }
}

pub fn sip_challenge<P: Pairing>(digest: &[u8]) -> Fr<P> {
    let mut seed = [0u8; 32];
    seed.copy_from_slice(&digest[..32]);
    let mut r = rand_chacha::ChaChaRng::from_seed(seed);
    u128::rand(&mut r).into()
}

/// Rounds with one element moved.
pub fn moved<P: Pairing>(p: &SProofG<P>, j: usize, side: usize, d: PairingOutput<P>) -> SProofG<P> {
    let mut g = p.gt_elems().to_vec();
    if side == 0 {
        g[j].0 += d;
    } else {
        g[j].1 += d;
    }
    SProofG::from_gt_elems(g)
}

pub fn bytes<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    ser(t)
}
