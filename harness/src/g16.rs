//! Groth16 batches (real and simulated) and adversarial aggregators.
use crate::*;
use ark_dh_commitments::afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2};
use ark_dh_commitments::identity::{HomomorphicPlaceholderValue, IdentityCommitment};
use ark_dh_commitments::DoublyHomomorphicCommitment as DHC;
use ark_ec::{pairing::*, CurveGroup, Group};
use ark_ff::{Field, PrimeField, UniformRand, Zero};
use ark_groth16::{prepare_verifying_key, Groth16, Proof as GProof, VerifyingKey};
use ark_inner_products::*;
use ark_ip_proofs::applications::groth16_aggregation::*;
use ark_ip_proofs::tipa::*;
use ark_relations::{
    lc,
    r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError, Variable},
};
use ark_std::rand::Rng;
use digest::Digest;

/// ((com_a, com_b, com_c), (ip_ab, agg_c), product argument, sum argument)
pub type AggView<P> = (
    (PairingOutput<P>, PairingOutput<P>, PairingOutput<P>),
    (PairingOutput<P>, <P as Pairing>::G1),
    TView<PairCfg<P>>,
    SumView<P>,
);
pub type SumView<P> = (SView<MsmCfg<P>>, (<P as Pairing>::G2, <P as Pairing>::G2));

/// A chain of products: k public inputs, k + 2 hidden factors.
#[derive(Clone)]
pub struct Chain<F: PrimeField> {
    pub k: usize,
    pub w: Option<Vec<F>>,
}
impl<F: PrimeField> Chain<F> {
    pub fn inputs(&self) -> Vec<F> {
        let w = self.w.as_ref().unwrap();
        (0..self.k).map(|i| w[i] * w[i + 1]).collect()
    }
}
impl<F: PrimeField> ConstraintSynthesizer<F> for Chain<F> {
    fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<(), SynthesisError> {
        let e = SynthesisError::AssignmentMissing;
        let mut ws = vec![];
        for i in 0..self.k + 2 {
            let v = self.w.as_ref().map(|w| w[i]);
            ws.push(cs.new_witness_variable(|| v.ok_or(e))?);
        }
        for i in 0..self.k {
            let v = self.w.as_ref().map(|w| w[i] * w[i + 1]);
            let o = cs.new_input_variable(|| v.ok_or(e))?;
            cs.enforce_constraint(lc!() + ws[i], lc!() + ws[i + 1], lc!() + o)?;
        }
        let v = self.w.as_ref().map(|w| w[self.k] * w[self.k + 1]);
        let o = cs.new_witness_variable(|| v.ok_or(e))?;
        cs.enforce_constraint(lc!() + ws[self.k], lc!() + ws[self.k + 1], lc!() + o)?;
        cs.enforce_constraint(lc!() + (F::one(), Variable::One), lc!() + o, lc!() + o)?;
        Ok(())
    }
}

/// Logarithms of a simulated verifying key.
#[derive(Clone)]
pub struct Trap<F> {
    pub alpha: F,
    pub beta: F,
    pub gamma: F,
    pub delta: F,
    pub ic: Vec<F>,
}

#[derive(Clone)]
pub struct Batch<P: Pairing> {
    pub n: usize,
    pub srs: SRS<P>,
    pub v: VerifierSRS<P>,
    pub vk: VerifyingKey<P>,
    pub trap: Trap<Fp<P>>,
    /// logarithms of the proofs' elements
    pub a: Vec<Fp<P>>,
    pub b: Vec<Fp<P>>,
    pub c: Vec<Fp<P>>,
    pub x: Vec<Vec<Fp<P>>>,
}

pub fn groth_ok<P: Pairing>(vk: &VerifyingKey<P>, p: &GProof<P>, x: &[Fp<P>]) -> bool {
    Groth16::<P>::verify_proof(&prepare_verifying_key(vk), p, x).unwrap_or(false)
}

pub fn make_vk<P: Pairing>(t: &Trap<Fp<P>>) -> VerifyingKey<P> {
    VerifyingKey {
        alpha_g1: (g1::<P>() * t.alpha).into_affine(),
        beta_g2: (g2::<P>() * t.beta).into_affine(),
        gamma_g2: (g2::<P>() * t.gamma).into_affine(),
        delta_g2: (g2::<P>() * t.delta).into_affine(),
        gamma_abc_g1: t.ic.iter().map(|x| (g1::<P>() * x).into_affine()).collect(),
    }
}

impl<P: Pairing> Batch<P> {
    /// n valid simulated proofs with k public inputs each.
    pub fn simulated<D: Digest>(c: &mut Case, n: usize, k: usize) -> Self {
        let mut r = c.fork();
        let srs = c.must("setup", || setup_inner_product::<P, D, _>(&mut r, n));
        let v = srs.get_verifier_key();
        let f = |c: &mut Case| nonzero::<Fp<P>>(&mut c.rng);
        let trap = Trap {
            alpha: f(c),
            beta: f(c),
            gamma: f(c),
            delta: f(c),
            ic: (0..=k).map(|_| f(c)).collect(),
        };
        let vk = make_vk::<P>(&trap);
        let x = (0..n)
            .map(|_| {
                let s = shape(&mut c.rng);
                scalars(&mut c.rng, k, s)
            })
            .collect();
        let (a, b): (Vec<_>, Vec<_>) = (0..n).map(|_| (f(c), f(c))).unzip();
        let mut i = Batch { n, srs, v, vk, trap, a, b, c: vec![], x };
        i.c = (0..n).map(|j| i.solve_c(j)).collect();
        i
    }
    pub fn ic(&self, j: usize) -> Fp<P> {
        self.trap.ic[0] + ref_scalar(&self.trap.ic[1..], &self.x[j])
    }
    /// The c that makes proof j valid.
    pub fn solve_c(&self, j: usize) -> Fp<P> {
        let t = &self.trap;
        (self.a[j] * self.b[j] - t.alpha * t.beta - self.ic(j) * t.gamma) * t.delta.inverse().unwrap()
    }
    pub fn valid(&self, j: usize) -> bool {
        self.c[j] == self.solve_c(j)
    }
    pub fn proof(&self, j: usize) -> GProof<P> {
        GProof {
            a: (g1::<P>() * self.a[j]).into_affine(),
            b: (g2::<P>() * self.b[j]).into_affine(),
            c: (g1::<P>() * self.c[j]).into_affine(),
        }
    }
    pub fn proofs(&self) -> Vec<GProof<P>> {
        (0..self.n).map(|j| self.proof(j)).collect()
    }
    pub fn aggregate<D: Digest>(&self) -> Lib<AggregateProof<P, D>> {
        aggregate_proofs::<P, D>(&self.srs, &self.proofs())
    }
    pub fn verify<D: Digest>(&self, p: &AggregateProof<P, D>) -> Lib<bool> {
        verify_aggregate_proof::<P, D>(&self.v, &self.vk, &self.x, p)
    }
    /// Groth16 itself agrees about every member.
    pub fn cross_check(&self, c: &mut Case) {
        for j in 0..self.n {
            if groth_ok(&self.vk, &self.proof(j), &self.x[j]) != self.valid(j) {
                inconclusive(format!("simulator and ark-groth16 disagree on member {j}"));
            }
            c.event(if self.valid(j) { "member valid per ark-groth16" } else { "member invalid per ark-groth16" });
        }
    }
    /// The aggregator's randomiser, recognised among its digests by what it does to agg_c.
    pub fn randomiser(&self, c: &mut Case) -> Fp<P> {
        take_tape();
        let p = c.must("aggregate (recorded)", || self.aggregate::<RecD<blake2::Blake2b>>());
        let tape = take_tape();
        let v: AggView<P> = bridge(&p);
        for d in tape {
            if let Some(r) = Fp::<P>::from_random_bytes(&d) {
                let s = ref_scalar(&self.c, &powers(r, self.n));
                if g1::<P>() * s == v.1 .1 {
                    return r;
                }
            }
        }
        inconclusive("the aggregator's randomiser is none of its digests".into())
    }
    /// The product the verifier's equation wants, given agg_c, as a logarithm.
    pub fn want_ab(&self, r: Fp<P>, agg_c: Fp<P>) -> Fp<P> {
        let t = &self.trap;
        let pw = powers(r, self.n);
        let mut s = agg_c * t.delta;
        for j in 0..self.n {
            s += pw[j] * (t.alpha * t.beta + self.ic(j) * t.gamma);
        }
        s
    }
    /// Changes one member so that it is invalid.
    pub fn spoil(&mut self, c: &mut Case) -> &'static str {
        let j = c.rng.gen_range(0..self.n);
        let d = nonzero::<Fp<P>>(&mut c.rng);
        let k = self.trap.ic.len() - 1;
        let what = match c.rng.gen_range(0..if k > 0 { 5 } else { 4 }) {
            0 => {
                self.a[j] += d;
                "a moved"
            }
            1 => {
                self.b[j] += d;
                "b moved"
            }
            2 => {
                self.c[j] += d;
                "c moved"
            }
            3 => {
                self.c[j] = Fp::<P>::zero();
                "c neutral"
            }
            _ => {
                let i = c.rng.gen_range(0..k);
                self.x[j][i] += d;
                "input changed"
            }
        };
        c.note("spoiled", format!("{what} at {j}"));
        if self.valid(j) {
            inconclusive("spoiling had no effect".into());
        }
        what
    }
}

pub type IdGt<P> = IdentityCommitment<PairingOutput<P>, Fp<P>>;

/// What a lying aggregator claims: commitments are to (a, b, c) of the batch, while the sub-proofs
/// are made for other vectors and outputs; `lies` are made where the full vectors are committed.
pub struct Forge<P: Pairing> {
    pub a: Vec<Fp<P>>,
    pub b: Vec<Fp<P>>,
    pub c: Vec<Fp<P>>,
    pub ip_ab: Fp<P>,
    pub agg_c: Fp<P>,
}

pub fn forge_aggregate<P: Pairing, D: Digest>(
    c: &mut Case,
    i: &Batch<P>,
    r: Fp<P>,
    f: &Forge<P>,
) -> AggregateProof<P, D> {
    let pw = powers(r, i.n);
    let ir = powers(r.inverse().unwrap(), i.n);
    let (ck_1, ck_2) = i.srs.get_commitment_keys();
    let g = |l: &[Fp<P>]| -> Vec<P::G1> { l.iter().map(|x| g1::<P>() * x).collect() };
    let h = |l: &[Fp<P>]| -> Vec<P::G2> { l.iter().map(|x| g2::<P>() * x).collect() };
    let com = |m: &[Fp<P>]| AFGHOCommitmentG1::<P>::commit(&ck_1, &g(m)).expect("commit");
    let (com_a, com_c) = (com(&i.a), com(&i.c));
    let com_b = AFGHOCommitmentG2::<P>::commit(&ck_2, &h(&i.b)).expect("commit");
    let d_a = com_a - com(&f.a);
    let d_b = com_b - AFGHOCommitmentG2::<P>::commit(&ck_2, &h(&f.b)).expect("commit");
    let d_c = com_c - com(&f.c);
    let a_r: Vec<Fp<P>> = f.a.iter().zip(&pw).map(|(a, r)| *a * r).collect();
    let d_ab = egh::<P>() * (f.ip_ab - ref_scalar(&a_r, &f.b));
    let d_agg = g1::<P>() * (f.agg_c - ref_scalar(&f.c, &pw));
    let ck_1_r: Vec<P::G2> = ck_1.iter().zip(&ir).map(|(k, r)| *k * r).collect();
    let ser_nz = |z: bool, b: Vec<u8>| if z { vec![] } else { b };
    set_lie(i.n, ser_nz(d_a.is_zero(), ser(&d_a)), ser_nz(d_b.is_zero(), ser(&d_b)), ser_nz(d_ab.is_zero(), ser(&d_ab)));
    type TAb<P, D> = TIPA<
        FullIP<PairingInnerProduct<P>>,
        FullC<AFGHOCommitmentG1<P>, 0>,
        FullC<AFGHOCommitmentG2<P>, 1>,
        IdGt<P>,
        P,
        D,
    >;
    let (ga, hb) = (g(&a_r), h(&f.b));
    let t_ab = c.must("prove ab (lying)", || {
        TAb::<P, D>::prove_with_srs_shift(&i.srs, (&ga, &hb), (&ck_1_r, &ck_2, &HomomorphicPlaceholderValue), &r)
    });
    set_lie(i.n, ser_nz(d_c.is_zero(), ser(&d_c)), vec![], ser_nz(d_agg.is_zero(), ser(&d_agg)));
    let gc = g(&f.c);
    let ex = (i.srs.clone(), i.v.clone());
    let t_c = c.must("prove c (lying)", || {
        <Trusted as Flavour<MsmCfg<P>>>::prove_as::<
            FullIP<MultiexponentiationInnerProduct<P::G1>>,
            FullC<AFGHOCommitmentG1<P>, 0>,
            D,
        >(&ex, &gc, &pw, (&ck_1, &HomomorphicPlaceholderValue))
    });
    set_lie(0, vec![], vec![], vec![]);
    let v: AggView<P> = (
        (com_a, com_b, com_c),
        (egh::<P>() * f.ip_ab, g1::<P>() * f.agg_c),
        bridge(&t_ab),
        bridge(&t_c),
    );
    bridge(&v)
}

/// Real proofs of the chain circuit.
pub fn real_batch<P: Pairing>(
    c: &mut Case,
    n: usize,
    k: usize,
) -> (VerifyingKey<P>, Vec<GProof<P>>, Vec<Vec<Fp<P>>>) {
    let mut r = c.fork();
    let pk = Groth16::<P>::generate_random_parameters_with_reduction(Chain::<Fp<P>> { k, w: None }, &mut r)
        .unwrap_or_else(|e| inconclusive(format!("groth16 setup: {e:?}")));
    let mut ps: Vec<GProof<P>> = vec![];
    let mut xs: Vec<Vec<Fp<P>>> = vec![];
    for j in 0..n {
        if j > 0 && c.rng.gen_bool(0.2) {
            // the same proof again
            let (p, x) = (ps[j - 1].clone(), xs[j - 1].clone());
            ps.push(p);
            xs.push(x);
            c.event("repeated proof");
            continue;
        }
        let w: Vec<Fp<P>> = (0..k + 2).map(|_| Fp::<P>::rand(&mut c.rng)).collect();
        let ch = Chain { k, w: Some(w) };
        let x = ch.inputs();
        let p = Groth16::<P>::create_random_proof_with_reduction(ch, &pk, &mut r)
            .unwrap_or_else(|e| inconclusive(format!("groth16 prove: {e:?}")));
        if !groth_ok(&pk.vk, &p, &x) {
            inconclusive("ark-groth16 rejects its own proof".into());
        }
        c.event("member valid per ark-groth16");
        ps.push(p);
        xs.push(x);
    }
    (pk.vk, ps, xs)
}

/// Keeps the pairing group in scope for callers that only name the curve.
pub fn gen1<P: Pairing>() -> P::G1 {
    P::G1::generator()
}
