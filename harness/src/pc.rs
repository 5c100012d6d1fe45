//! The two polynomial commitment schemes behind one interface: instances and forged openings.
use crate::*;
use ark_ec::{pairing::*, CurveGroup};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_inner_products::MultiexponentiationInnerProduct;
use ark_ip_proofs::applications::poly_commit::{self as pcm, transparent as pct};
use ark_ip_proofs::tipa::{structured_scalar_message::*, *};
use ark_dh_commitments::identity::{HomomorphicPlaceholderValue, IdentityCommitment, IdentityOutput};
use ark_dh_commitments::{afgho16::AFGHOCommitmentG1, pedersen::PedersenCommitment, DoublyHomomorphicCommitment as DHC};
use ark_inner_products::{InnerProduct, ScalarInnerProduct};
use ark_poly::{univariate::DensePolynomial, DenseUVPolynomial};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_std::rand::{rngs::StdRng, Rng};
use digest::Digest;
use std::marker::PhantomData;

pub type Fp<P> = <P as Pairing>::ScalarField;
pub type Rows<P> = Vec<Vec<Fp<P>>>;
pub type Com<P> = (PairingOutput<P>, Vec<<P as Pairing>::G1>);
pub type Uni<P> = DensePolynomial<Fp<P>>;

/// Rounds and base messages of the second tier (rows folded at x).
pub type Tier2Rounds<P> = Vec<(
    (PairingOutput<P>, Fp<P>, IdentityOutput<<P as Pairing>::G1>),
    (PairingOutput<P>, Fp<P>, IdentityOutput<<P as Pairing>::G1>),
)>;
pub type Tier2View<P> = (Tier2Rounds<P>, (<P as Pairing>::G1, Fp<P>));

pub trait Pc<P: Pairing>: 'static {
    const NAME: &'static str;
    type Ck: Clone;
    type Vk: Clone;
    type Open<D: Digest>: CanonicalSerialize + CanonicalDeserialize;
    /// Second tier of an opening, on the wire.
    type T2: CanonicalSerialize + CanonicalDeserialize + Clone;
    /// First tier of an opening, on the wire.
    type T1: CanonicalSerialize + CanonicalDeserialize + Clone;

    fn setup(r: &mut StdRng, x: usize, y: usize) -> Lib<Self::Ck>;
    fn vk(ck: &Self::Ck) -> Self::Vk;
    fn commit(ck: &Self::Ck, rows: &Rows<P>) -> Lib<Com<P>>;
    fn open<D: Digest>(ck: &Self::Ck, rows: &Rows<P>, comms: &Vec<P::G1>, z: &(Fp<P>, Fp<P>)) -> Lib<Self::Open<D>>;
    fn verify<D: Digest>(vk: &Self::Vk, com: &PairingOutput<P>, z: &(Fp<P>, Fp<P>), e: &Fp<P>, o: &Self::Open<D>) -> Lib<bool>;
    fn evaluate(rows: &Rows<P>, z: &(Fp<P>, Fp<P>)) -> Fp<P>;

    fn usetup(r: &mut StdRng, deg: usize) -> Lib<Self::Ck>;
    fn ucommit(ck: &Self::Ck, p: &Uni<P>) -> Lib<Com<P>>;
    fn uopen<D: Digest>(ck: &Self::Ck, p: &Uni<P>, comms: &Vec<P::G1>, z: &Fp<P>) -> Lib<Self::Open<D>>;
    fn uverify<D: Digest>(vk: &Self::Vk, max: usize, com: &PairingOutput<P>, z: &Fp<P>, e: &Fp<P>, o: &Self::Open<D>) -> Lib<bool>;
    /// (x degree, y degree) of a key.
    fn degrees(ck: &Self::Ck) -> (usize, usize);
    /// The first-tier keys: one element per coefficient of a row.
    fn row_key(ck: &Self::Ck) -> Vec<P::G1>;
    fn x_keys(ck: &Self::Ck) -> Vec<P::G2>;

    /// A second tier for any row commitments, any right vector and any inner product.
    fn tier2<IP, L, D>(ck: &Self::Ck, comms: &[P::G1], m: &[Fp<P>], keys: &[P::G2]) -> Lib<Self::T2>
    where
        D: Digest,
        L: DHC<Scalar = Fp<P>, Message = P::G1, Key = P::G2, Output = PairingOutput<P>> + TIPACompatibleSetup,
        IP: InnerProduct<LeftMessage = P::G1, RightMessage = Fp<P>, Output = P::G1>;
    /// A first tier for any folded row at y; `twice` claims the doubled value.
    fn tier1<D: Digest>(ck: &Self::Ck, row: &[Fp<P>], y: &Fp<P>, twice: bool) -> Lib<Self::T1>;
    fn t1_neutral(t: &Self::T1) -> Self::T1;
}

pub type Parts<P, S> = (<S as Pc<P>>::T2, <P as Pairing>::G1, <S as Pc<P>>::T1);

pub struct Structured;
pub struct Transparent;

type Mipp<P> = MultiexponentiationInnerProduct<<P as Pairing>::G1>;
type IdG<P> = IdentityCommitment<<P as Pairing>::G1, Fp<P>>;
type IdF<P> = IdentityCommitment<Fp<P>, Fp<P>>;

impl<P: Pairing> Pc<P> for Structured {
    const NAME: &'static str = "trusted";
    type Ck = (SRS<P>, Vec<P::G1Affine>);
    type Vk = VerifierSRS<P>;
    type Open<D: Digest> = pcm::OpeningProof<P, D>;
    type T2 = (Tier2View<P>, (P::G2, P::G2));
    type T1 = P::G1;
    fn setup(r: &mut StdRng, x: usize, y: usize) -> Lib<Self::Ck> {
        pcm::BivariatePolynomialCommitment::<P, blake2::Blake2b>::setup(r, x, y)
    }
    fn vk(ck: &Self::Ck) -> Self::Vk {
        ck.0.get_verifier_key()
    }
    fn commit(ck: &Self::Ck, rows: &Rows<P>) -> Lib<Com<P>> {
        pcm::BivariatePolynomialCommitment::<P, blake2::Blake2b>::commit(ck, &bridge(rows))
    }
    fn open<D: Digest>(ck: &Self::Ck, rows: &Rows<P>, comms: &Vec<P::G1>, z: &(Fp<P>, Fp<P>)) -> Lib<Self::Open<D>> {
        pcm::BivariatePolynomialCommitment::<P, D>::open(ck, &bridge(rows), comms, z)
    }
    fn verify<D: Digest>(vk: &Self::Vk, com: &PairingOutput<P>, z: &(Fp<P>, Fp<P>), e: &Fp<P>, o: &Self::Open<D>) -> Lib<bool> {
        pcm::BivariatePolynomialCommitment::<P, D>::verify(vk, com, z, e, o)
    }
    fn evaluate(rows: &Rows<P>, z: &(Fp<P>, Fp<P>)) -> Fp<P> {
        bridge::<_, pcm::BivariatePolynomial<Fp<P>>>(rows).evaluate(z)
    }
    fn usetup(r: &mut StdRng, deg: usize) -> Lib<Self::Ck> {
        pcm::UnivariatePolynomialCommitment::<P, blake2::Blake2b>::setup(r, deg)
    }
    fn ucommit(ck: &Self::Ck, p: &Uni<P>) -> Lib<Com<P>> {
        pcm::UnivariatePolynomialCommitment::<P, blake2::Blake2b>::commit(ck, p)
    }
    fn uopen<D: Digest>(ck: &Self::Ck, p: &Uni<P>, comms: &Vec<P::G1>, z: &Fp<P>) -> Lib<Self::Open<D>> {
        pcm::UnivariatePolynomialCommitment::<P, D>::open(ck, p, comms, z)
    }
    fn uverify<D: Digest>(vk: &Self::Vk, max: usize, com: &PairingOutput<P>, z: &Fp<P>, e: &Fp<P>, o: &Self::Open<D>) -> Lib<bool> {
        pcm::UnivariatePolynomialCommitment::<P, D>::verify(vk, max, com, z, e, o)
    }
    fn degrees(ck: &Self::Ck) -> (usize, usize) {
        (ck.0.h_beta_powers.len() / 2, ck.1.len() - 1)
    }
    fn row_key(ck: &Self::Ck) -> Vec<P::G1> {
        ck.1.iter().map(|g| (*g).into()).collect()
    }
    fn x_keys(ck: &Self::Ck) -> Vec<P::G2> {
        ck.0.get_commitment_keys().0
    }
    fn tier2<IP, L, D>(ck: &Self::Ck, comms: &[P::G1], m: &[Fp<P>], keys: &[P::G2]) -> Lib<Self::T2>
    where
        D: Digest,
        L: DHC<Scalar = Fp<P>, Message = P::G1, Key = P::G2, Output = PairingOutput<P>> + TIPACompatibleSetup,
        IP: InnerProduct<LeftMessage = P::G1, RightMessage = Fp<P>, Output = P::G1>,
    {
        let p = TIPAWithSSM::<IP, L, IdG<P>, P, D>::prove_with_structured_scalar_message(
            &ck.0,
            (comms, m),
            (keys, &HomomorphicPlaceholderValue),
        )?;
        Ok(bridge(&p))
    }
    fn tier1<D: Digest>(ck: &Self::Ck, row: &[Fp<P>], y: &Fp<P>, twice: bool) -> Lib<P::G1> {
        let w = pcm::KZG::<P>::open(&ck.1, &DensePolynomial::from_coefficients_slice(row), y)?;
        Ok(if twice { w + w } else { w })
    }
    fn t1_neutral(_: &P::G1) -> P::G1 {
        P::G1::zero()
    }
}

type T1Rounds<P> = Vec<(
    (<P as Pairing>::G1, Fp<P>, IdentityOutput<Fp<P>>),
    (<P as Pairing>::G1, Fp<P>, IdentityOutput<Fp<P>>),
)>;

impl<P: Pairing> Pc<P> for Transparent {
    const NAME: &'static str = "transparent";
    type Ck = (Vec<P::G1>, Vec<P::G2>);
    type Vk = (Vec<P::G1>, Vec<P::G2>);
    type Open<D: Digest> = pct::OpeningProof<P, D>;
    type T2 = Tier2View<P>;
    type T1 = (T1Rounds<P>, (Fp<P>, Fp<P>));
    fn setup(r: &mut StdRng, x: usize, y: usize) -> Lib<Self::Ck> {
        pct::BivariatePolynomialCommitment::<P, blake2::Blake2b>::setup(r, x, y)
    }
    fn vk(ck: &Self::Ck) -> Self::Vk {
        ck.clone()
    }
    fn commit(ck: &Self::Ck, rows: &Rows<P>) -> Lib<Com<P>> {
        pct::BivariatePolynomialCommitment::<P, blake2::Blake2b>::commit(ck, &bridge(rows))
    }
    fn open<D: Digest>(ck: &Self::Ck, rows: &Rows<P>, comms: &Vec<P::G1>, z: &(Fp<P>, Fp<P>)) -> Lib<Self::Open<D>> {
        pct::BivariatePolynomialCommitment::<P, D>::open(ck, &bridge(rows), comms, z)
    }
    fn verify<D: Digest>(vk: &Self::Vk, com: &PairingOutput<P>, z: &(Fp<P>, Fp<P>), e: &Fp<P>, o: &Self::Open<D>) -> Lib<bool> {
        pct::BivariatePolynomialCommitment::<P, D>::verify(vk, com, z, e, o)
    }
    fn evaluate(rows: &Rows<P>, z: &(Fp<P>, Fp<P>)) -> Fp<P> {
        bridge::<_, pct::BivariatePolynomial<Fp<P>>>(rows).evaluate(z)
    }
    fn usetup(r: &mut StdRng, deg: usize) -> Lib<Self::Ck> {
        pct::UnivariatePolynomialCommitment::<P, blake2::Blake2b>::setup(r, deg)
    }
    fn ucommit(ck: &Self::Ck, p: &Uni<P>) -> Lib<Com<P>> {
        pct::UnivariatePolynomialCommitment::<P, blake2::Blake2b>::commit(ck, p)
    }
    fn uopen<D: Digest>(ck: &Self::Ck, p: &Uni<P>, comms: &Vec<P::G1>, z: &Fp<P>) -> Lib<Self::Open<D>> {
        pct::UnivariatePolynomialCommitment::<P, D>::open(ck, p, comms, z)
    }
    fn uverify<D: Digest>(vk: &Self::Vk, _max: usize, com: &PairingOutput<P>, z: &Fp<P>, e: &Fp<P>, o: &Self::Open<D>) -> Lib<bool> {
        pct::UnivariatePolynomialCommitment::<P, D>::verify(vk, com, z, e, o)
    }
    fn degrees(ck: &Self::Ck) -> (usize, usize) {
        (ck.1.len() - 1, ck.0.len() - 1)
    }
    fn row_key(ck: &Self::Ck) -> Vec<P::G1> {
        ck.0.clone()
    }
    fn x_keys(ck: &Self::Ck) -> Vec<P::G2> {
        ck.1.clone()
    }
    fn tier2<IP, L, D>(_: &Self::Ck, comms: &[P::G1], m: &[Fp<P>], keys: &[P::G2]) -> Lib<Self::T2>
    where
        D: Digest,
        L: DHC<Scalar = Fp<P>, Message = P::G1, Key = P::G2, Output = PairingOutput<P>> + TIPACompatibleSetup,
        IP: InnerProduct<LeftMessage = P::G1, RightMessage = Fp<P>, Output = P::G1>,
    {
        let p = GIPAWithSSM::<IP, L, IdG<P>, D>::prove_with_structured_scalar_message(
            (comms, m),
            (keys, &HomomorphicPlaceholderValue),
        )?;
        Ok(bridge(&p))
    }
    fn tier1<D: Digest>(ck: &Self::Ck, row: &[Fp<P>], y: &Fp<P>, twice: bool) -> Lib<Self::T1> {
        type Ped<P> = PedersenCommitment<<P as Pairing>::G1>;
        let v = (row, &powers(*y, row.len())[..]);
        let k = (&ck.0[..], &HomomorphicPlaceholderValue);
        Ok(if twice {
            bridge(&GIPAWithSSM::<TwiceIP<ScalarInnerProduct<Fp<P>>>, TwiceC<Ped<P>>, IdF<P>, D>::prove_with_structured_scalar_message(v, k)?)
        } else {
            bridge(&GIPAWithSSM::<ScalarInnerProduct<Fp<P>>, Ped<P>, IdF<P>, D>::prove_with_structured_scalar_message(v, k)?)
        })
    }
    fn t1_neutral(t: &Self::T1) -> Self::T1 {
        (t.0.iter().map(|_| Default::default()).collect(), Default::default())
    }
}

// ------------------------------------------------------------------------------- instances

/// Rows without trailing zeros, as the library's polynomials are.
pub fn trim<P: Pairing>(rows: Rows<P>) -> Rows<P> {
    rows.into_iter()
        .map(|mut r| {
            while r.last().map_or(false, |x| x.is_zero()) {
                r.pop();
            }
            r
        })
        .collect()
}

/// Rows of a two-variable polynomial of at most the degrees, of many kinds.
pub fn gen_rows<P: Pairing>(c: &mut Case, x: usize, y: usize) -> Rows<P> {
    let k = c.rng.gen_range(0..9);
    c.note("rows", ["full", "full", "few rows", "short rows", "ragged", "zero", "constant", "one hot", "edge"][k]);
    let full = |c: &mut Case, n: usize| -> Rows<P> {
        let s = shape(&mut c.rng);
        (0..n).map(|_| scalars(&mut c.rng, y + 1, s)).collect()
    };
    let rows = match k {
        0 => (0..=x).map(|_| scalars(&mut c.rng, y + 1, Shape::Random)).collect(),
        1 => full(c, x + 1),
        2 => {
            let n = c.rng.gen_range(0..=x + 1);
            (0..n).map(|_| scalars(&mut c.rng, y + 1, Shape::Random)).collect()
        }
        3 => {
            let n = c.rng.gen_range(0..=y + 1);
            (0..=x).map(|_| scalars(&mut c.rng, n, Shape::Random)).collect()
        }
        4 => (0..=x)
            .map(|_| {
                let n = c.rng.gen_range(0..=y + 1);
                scalars(&mut c.rng, n, Shape::Random)
            })
            .collect(),
        5 => {
            if c.rng.gen_bool(0.5) {
                vec![]
            } else {
                vec![vec![]; x + 1]
            }
        }
        6 => vec![vec![Fp::<P>::rand(&mut c.rng)]],
        7 => {
            let mut r = vec![vec![Fp::<P>::zero(); y + 1]; x + 1];
            let (i, j) = (c.rng.gen_range(0..=x), c.rng.gen_range(0..=y));
            r[i][j] = Fp::<P>::one();
            r
        }
        _ => (0..=x).map(|_| scalars(&mut c.rng, y + 1, Shape::Edge)).collect(),
    };
    trim::<P>(rows)
}

pub fn ref_eval<F: Field>(rows: &[Vec<F>], z: &(F, F)) -> F {
    let mut acc = F::zero();
    for r in rows.iter().rev() {
        acc = acc * z.0 + ref_ueval(r, z.1);
    }
    acc
}
pub fn ref_ueval<F: Field>(r: &[F], y: F) -> F {
    let mut acc = F::zero();
    for c in r.iter().rev() {
        acc = acc * y + c;
    }
    acc
}
/// The row folded at x, as long as the key.
pub fn fold_rows<F: Field>(rows: &[Vec<F>], x: F, len: usize) -> Vec<F> {
    let mut out = vec![F::zero(); len];
    let mut p = F::one();
    for r in rows {
        for (o, c) in out.iter_mut().zip(r) {
            *o += p * c;
        }
        p *= x;
    }
    out
}

pub fn coord<F: ark_ff::PrimeField>(c: &mut Case) -> F {
    if c.rng.gen_bool(0.25) {
        edge_scalar(&mut c.rng)
    } else {
        F::rand(&mut c.rng)
    }
}

/// Mostly random, often one of the points where powers degenerate.
pub fn plain_or_edge<F: ark_ff::PrimeField>(c: &mut Case) -> F {
    match c.rng.gen_range(0..10) {
        0 | 1 => F::zero(),
        2 => F::one(),
        3 => -F::one(),
        _ => nonzero(&mut c.rng),
    }
}

pub struct PcInst<P: Pairing, S: Pc<P>> {
    pub ck: S::Ck,
    pub vk: S::Vk,
    pub x: usize,
    pub y: usize,
    pub rows: Rows<P>,
    pub com: PairingOutput<P>,
    pub comms: Vec<P::G1>,
    pub z: (Fp<P>, Fp<P>),
    pub e: Fp<P>,
}

pub struct M<P, S>(PhantomData<(P, S)>);

impl<P: Pairing, S: Pc<P>> M<P, S> {
    pub fn inst(c: &mut Case, x: usize, y: usize) -> PcInst<P, S> {
        let mut r = c.fork();
        let ck = c.must("setup", || S::setup(&mut r, x, y));
        let d = S::degrees(&ck);
        c.check("keys for exactly the degrees", d == (x, y));
        let rows = gen_rows::<P>(c, x, y);
        let z = (coord(c), coord(c));
        Self::with(c, ck, rows, z)
    }
    pub fn with(c: &mut Case, ck: S::Ck, rows: Rows<P>, z: (Fp<P>, Fp<P>)) -> PcInst<P, S> {
        let (x, y) = S::degrees(&ck);
        let (com, comms) = c.must("commit", || S::commit(&ck, &rows));
        let e = ref_eval(&rows, &z);
        let vk = S::vk(&ck);
        PcInst { ck, vk, x, y, rows, com, comms, z, e }
    }
    pub fn open<D: Digest>(i: &PcInst<P, S>) -> Lib<S::Open<D>> {
        S::open::<D>(&i.ck, &i.rows, &i.comms, &i.z)
    }
    pub fn verify<D: Digest>(i: &PcInst<P, S>, e: &Fp<P>, o: &S::Open<D>) -> Lib<bool> {
        S::verify::<D>(&i.vk, &i.com, &i.z, e, o)
    }
    pub fn parts<D: Digest>(o: &S::Open<D>) -> Parts<P, S> {
        bridge(o)
    }
    pub fn join<D: Digest>(p: &Parts<P, S>) -> S::Open<D> {
        bridge(p)
    }

    /// Degree-one monitors of an honest opening.
    pub fn honest<D: Digest>(c: &mut Case, x: usize, y: usize) {
        c.note("degrees", format!("{x},{y}"));
        c.event(S::NAME);
        let i = Self::inst(c, x, y);
        c.key(&(i.rows.clone(), i.z));
        // commitments by definition
        let key = S::row_key(&i.ck);
        let ok = (0..=x).all(|k| {
            let r = i.rows.get(k).cloned().unwrap_or_default();
            ref_msm(&key[..r.len()], &r) == i.comms[k]
        });
        c.check("row commitments equal their definition", i.comms.len() == x + 1 && ok);
        c.check("commitment equals its definition", ref_pairing::<P>(&i.comms, &S::x_keys(&i.ck)) == i.com);
        let ev = c.must("evaluate", || Ok::<_, ()>(S::evaluate(&i.rows, &i.z)));
        c.check("evaluation is the polynomial's value", ev == i.e);
        let o = c.must("open", || Self::open::<D>(&i));
        c.must_accept("verify", || Self::verify::<D>(&i, &i.e, &o));
        let o2: S::Open<D> = copy(&o);
        c.must_accept("verify after a round trip", || Self::verify::<D>(&i, &i.e, &o2));
        // exactly the value
        let e = i.e + nonzero::<Fp<P>>(&mut c.rng);
        c.must_reject("another value", || Self::verify::<D>(&i, &e, &o));
        // a second polynomial and point under the same keys
        let rows = gen_rows::<P>(c, x, y);
        let z = if c.rng.gen_bool(0.5) { i.z } else { (coord(c), coord(c)) };
        let j = Self::with(c, i.ck.clone(), rows, z);
        let q = c.must("open (second)", || Self::open::<D>(&j));
        c.must_accept("verify (second)", || Self::verify::<D>(&j, &j.e, &q));
        // additivity of the commitments
        let n = i.rows.len().max(j.rows.len());
        let sum: Rows<P> = trim::<P>(
            (0..n)
                .map(|k| {
                    let e = vec![];
                    let (a, b) = (i.rows.get(k).unwrap_or(&e), j.rows.get(k).unwrap_or(&e));
                    (0..a.len().max(b.len()))
                        .map(|t| a.get(t).copied().unwrap_or_default() + b.get(t).copied().unwrap_or_default())
                        .collect()
                })
                .collect(),
        );
        let s = c.must("commit (sum)", || S::commit(&i.ck, &sum));
        c.check("commitments add", s.0 == i.com + j.com);
    }

    pub fn univariate<D: Digest>(c: &mut Case, max: usize, big: bool) {
        c.note("max degree", max);
        c.event(S::NAME);
        let mut r = c.fork();
        let ck = c.must("setup", || S::usetup(&mut r, max));
        let (x, y) = S::degrees(&ck);
        let cap = (x + 1) * (y + 1);
        c.check("setup has room for the degree", cap > max);
        c.note("split", format!("{x},{y}"));
        let n = match c.rng.gen_range(0..6) {
            0 => 0,
            1 => 1,
            2 => c.rng.gen_range(0..=max + 1),
            3 => (y + 1).min(max + 1),
            _ => max + 1,
        };
        let n = if big { max + 1 } else { n };
        let s = if n == max + 1 { Shape::Random } else { shape(&mut c.rng) };
        let p = DensePolynomial::from_coefficients_vec(scalars(&mut c.rng, n, s));
        c.note("degree", p.coeffs.len() as i64 - 1);
        let vk = S::vk(&ck);
        let (com, comms) = c.must("commit", || S::ucommit(&ck, &p));
        let points: Vec<Fp<P>> = if big { vec![coord(c)] } else { vec![coord(c), coord(c)] };
        for z in points {
            c.key(&(p.coeffs.clone(), z));
            let e = ref_ueval(&p.coeffs, z);
            let o = c.must("open", || S::uopen::<D>(&ck, &p, &comms, &z));
            c.must_accept("verify", || S::uverify::<D>(&vk, max, &com, &z, &e, &o));
            let f = e + nonzero::<Fp<P>>(&mut c.rng);
            c.must_reject("another value", || S::uverify::<D>(&vk, max, &com, &z, &f, &o));
            let z2 = z + nonzero::<Fp<P>>(&mut c.rng);
            if ref_ueval(&p.coeffs, z2) != e {
                c.must_reject("another point", || S::uverify::<D>(&vk, max, &com, &z2, &e, &o));
            }
        }
    }

    /// A polynomial and point where rows, folding and value are all non-trivial.
    pub fn rich(c: &mut Case, x: usize, y: usize) -> PcInst<P, S> {
        let mut r = c.fork();
        let ck = c.must("setup", || S::setup(&mut r, x, y));
        for _ in 0..20 {
            let rows: Rows<P> = match c.rng.gen_range(0..10) {
                0..=5 => (0..=x).map(|_| scalars(&mut c.rng, y + 1, Shape::Random)).collect(),
                // every row a constant: the honest first tier is neutral
                6 => (0..=x).map(|_| scalars(&mut c.rng, 1, Shape::Random)).collect(),
                _ => gen_rows::<P>(c, x, y),
            };
            let z = (plain_or_edge(c), plain_or_edge(c));
            if ref_eval(&rows, &z).is_zero() {
                continue;
            }
            return Self::with(c, ck, rows, z);
        }
        inconclusive("no instance with a non-zero value".into())
    }

    pub fn statement<D: Digest>(c: &mut Case, i: &PcInst<P, S>) {
        let o = c.must("open", || Self::open::<D>(i));
        let d: Fp<P> = nonzero(&mut c.rng);
        for (what, e) in [
            ("value plus an offset", i.e + d),
            ("value zero", Fp::<P>::zero()),
            ("value negated", -i.e),
            ("value doubled", i.e + i.e),
            ("value plus one", i.e + Fp::<P>::one()),
        ] {
            if e != i.e {
                c.must_reject(what, || Self::verify::<D>(i, &e, &o));
            }
        }
        // neutral parts, whatever the value claimed
        let h = Self::parts::<D>(&o);
        for (what, p) in [
            ("first tier neutral", (h.0.clone(), h.1, S::t1_neutral(&h.2))),
            ("link neutral", (h.0.clone(), P::G1::zero(), h.2.clone())),
            ("link and first tier neutral", (h.0.clone(), P::G1::zero(), S::t1_neutral(&h.2))),
        ] {
            let q = Self::join::<D>(&p);
            for e in [i.e + d, Fp::<P>::zero(), Fp::<P>::one(), -i.e] {
                if e != i.e {
                    c.must_reject(what, || Self::verify::<D>(i, &e, &q));
                }
            }
        }
        if i.z.0.is_zero() || i.z.1.is_zero() {
            c.event("coordinate zero");
        }
        for (what, z) in [
            ("another x", (i.z.0 + d, i.z.1)),
            ("another y", (i.z.0, i.z.1 + d)),
            ("coordinates swapped", (i.z.1, i.z.0)),
            ("x negated", (-i.z.0, i.z.1)),
            ("y negated", (i.z.0, -i.z.1)),
        ] {
            let v = ref_eval(&i.rows, &z);
            if v != i.e {
                c.must_reject(what, || S::verify::<D>(&i.vk, &i.com, &z, &i.e, &o));
            }
        }
        let mut rows = i.rows.clone();
        let k = c.rng.gen_range(0..rows.len());
        if rows[k].is_empty() {
            rows[k].push(d);
        } else {
            let j = c.rng.gen_range(0..rows[k].len());
            rows[k][j] += d;
        }
        let other = c.must("commit (other)", || S::commit(&i.ck, &trim::<P>(rows)));
        c.must_reject("commitment of another polynomial", || S::verify::<D>(&i.vk, &other.0, &i.z, &i.e, &o));
        c.must_reject("commitment neutral", || S::verify::<D>(&i.vk, &PairingOutput::zero(), &i.z, &i.e, &o));
        c.must_reject("commitment doubled", || S::verify::<D>(&i.vk, &(i.com + i.com), &i.z, &i.e, &o));
        let mut r = c.fork();
        let ck2 = c.must("setup (other)", || S::setup(&mut r, i.x, i.y));
        let (com2, _) = c.must("commit (other keys)", || S::commit(&ck2, &i.rows));
        if com2 == i.com {
            // a constant is committed the same way everywhere
            return;
        }
        c.must_reject("commitment under other keys", || S::verify::<D>(&i.vk, &com2, &i.z, &i.e, &o));
        let vk2 = S::vk(&ck2);
        c.must_reject("another verifier key", || S::verify::<D>(&vk2, &i.com, &i.z, &i.e, &o));
    }

    /// Openings whose tiers come from different provers; each combination breaks another check.
    pub fn mixed<D: Digest>(c: &mut Case, i: &PcInst<P, S>) {
        let rows2: Rows<P> = (0..=i.x).map(|_| scalars(&mut c.rng, i.y + 1, Shape::Random)).collect();
        let e2 = ref_eval(&rows2, &i.z);
        if e2 == i.e {
            return;
        }
        let (_, comms2) = c.must("commit (other)", || S::commit(&i.ck, &rows2));
        let h = Self::parts::<D>(&c.must("open", || Self::open::<D>(i)));
        let f = c.must("open other", || S::open::<D>(&i.ck, &rows2, &comms2, &i.z));
        c.must_reject("opening of another polynomial", || Self::verify::<D>(i, &e2, &f));
        let g = c.must("open other over these rows", || S::open::<D>(&i.ck, &rows2, &i.comms, &i.z));
        c.must_reject("other polynomial over the committed rows", || Self::verify::<D>(i, &e2, &g));
        let f = Self::parts::<D>(&f);
        for (what, p) in [
            ("second tier honest, first tier and link of another", (h.0.clone(), f.1, f.2.clone())),
            ("first tier of another only", (h.0.clone(), h.1, f.2.clone())),
            ("link of another only", (h.0.clone(), f.1, h.2.clone())),
            ("second tier of another only", (f.0.clone(), h.1, h.2.clone())),
            ("first tier honest, rest of another", (f.0.clone(), f.1, h.2.clone())),
            ("link neutral", (h.0.clone(), P::G1::zero(), f.2.clone())),
            ("first tier neutral", (h.0.clone(), h.1, S::t1_neutral(&h.2))),
            ("link and first tier neutral", (h.0.clone(), P::G1::zero(), S::t1_neutral(&h.2))),
        ] {
            let q = Self::join::<D>(&p);
            c.must_reject(what, || Self::verify::<D>(i, &e2, &q));
            if what.contains("neutral") {
                c.must_reject(&format!("{what}, value zero"), || Self::verify::<D>(i, &Fp::<P>::zero(), &q));
            }
        }
        // the opening at another point
        let z2 = (nonzero(&mut c.rng), nonzero(&mut c.rng));
        let w = Self::parts::<D>(&c.must("open elsewhere", || S::open::<D>(&i.ck, &i.rows, &i.comms, &z2)));
        let ew = ref_eval(&i.rows, &z2);
        let q = Self::join::<D>(&w);
        if ew != i.e {
            c.must_reject("opening at another point", || Self::verify::<D>(i, &ew, &q));
        }
        // x from one point, y from the other
        let zx = (z2.0, i.z.1);
        let v = Self::parts::<D>(&c.must("open at another x", || S::open::<D>(&i.ck, &i.rows, &i.comms, &zx)));
        let ev = ref_eval(&i.rows, &zx);
        if ev != i.e {
            let q = Self::join::<D>(&v);
            c.must_reject("opening at another x", || Self::verify::<D>(i, &ev, &q));
            let q = Self::join::<D>(&(h.0.clone(), v.1, v.2.clone()));
            c.must_reject("first tier of another x", || Self::verify::<D>(i, &ev, &q));
        }
        let zy = (i.z.0, z2.1);
        let v = Self::parts::<D>(&c.must("open at another y", || S::open::<D>(&i.ck, &i.rows, &i.comms, &zy)));
        let ev = ref_eval(&i.rows, &zy);
        if ev != i.e {
            let q = Self::join::<D>(&v);
            c.must_reject("opening at another y", || Self::verify::<D>(i, &ev, &q));
        }
    }

    /// Both tiers shifted together, so that only their link or only one tier's base check is wrong.
    pub fn lies<D: Digest>(c: &mut Case, i: &PcInst<P, S>) {
        let h = Self::parts::<D>(&c.must("open", || Self::open::<D>(i)));
        let key = S::row_key(&i.ck);
        let row = fold_rows(&i.rows, i.z.0, i.y + 1);
        let d: Fp<P> = nonzero(&mut c.rng);
        // constant offset: the first tier accepts the shifted row
        let mut row2 = row.clone();
        row2[0] += d;
        let t1 = c.must("first tier", || S::tier1::<D>(&i.ck, &row2, &i.z.1, false));
        let q = Self::join::<D>(&(h.0.clone(), h.1 + key[0] * d, t1.clone()));
        c.must_reject("folded row and value shifted by a constant", || Self::verify::<D>(i, &(i.e + d), &q));
        let q = Self::join::<D>(&(h.0.clone(), h.1, t1));
        c.must_reject("value and first tier shifted, link honest", || Self::verify::<D>(i, &(i.e + d), &q));
        // offset elsewhere in the row
        if i.y > 0 {
            let k = c.rng.gen_range(1..=i.y);
            let mut row3 = row.clone();
            row3[k] += d;
            let t1 = c.must("first tier", || S::tier1::<D>(&i.ck, &row3, &i.z.1, false));
            let e3 = ref_ueval(&row3, i.z.1);
            let q = Self::join::<D>(&(h.0.clone(), h.1 + key[k] * d, t1));
            c.must_reject("folded row shifted in a higher coefficient", || Self::verify::<D>(i, &e3, &q));
        }
        // everything doubled: second tier claims twice the folded row
        let pw = powers(i.z.0, i.x + 1);
        let xk = S::x_keys(&i.ck);
        let t2 = c.must("second tier (doubled)", || {
            S::tier2::<TwiceIP<Mipp<P>>, AFGHOCommitmentG1<P>, D>(&i.ck, &i.comms, &pw, &xk)
        });
        let twice: Vec<Fp<P>> = row.iter().map(|x| *x + x).collect();
        let t1 = c.must("first tier (doubled row)", || S::tier1::<D>(&i.ck, &twice, &i.z.1, false));
        let q = Self::join::<D>(&(t2, h.1 + h.1, t1));
        c.must_reject("value, link and tiers doubled", || Self::verify::<D>(i, &(i.e + i.e), &q));
        // first tier lies about its inner product alone
        let t1 = c.must("first tier (lying)", || S::tier1::<D>(&i.ck, &row, &i.z.1, true));
        let q = Self::join::<D>(&(h.0.clone(), h.1, t1.clone()));
        c.must_reject("first tier doubled, link honest", || Self::verify::<D>(i, &(i.e + i.e), &q));
        let q = Self::join::<D>(&(h.0.clone(), h.1 + h.1, t1));
        c.must_reject("first tier and link doubled", || Self::verify::<D>(i, &(i.e + i.e), &q));
        // second tier over rows committed under other keys, commitment doubled, other rows
        let t2 = c.must("second tier (left doubled)", || {
            S::tier2::<Mipp<P>, TwiceC<AFGHOCommitmentG1<P>>, D>(&i.ck, &i.comms, &pw, &xk)
        });
        let q = Self::join::<D>(&(t2, h.1, h.2.clone()));
        c.must_reject("commitment doubled in the second tier", || {
            S::verify::<D>(&i.vk, &(i.com + i.com), &i.z, &i.e, &q)
        });
        // right vector not the powers of x, first tier matching
        if i.x > 0 {
            let mut m = pw.clone();
            let k = c.rng.gen_range(0..=i.x);
            m[k] += d;
            let t2 = c.must("second tier (not the powers)", || {
                S::tier2::<Mipp<P>, AFGHOCommitmentG1<P>, D>(&i.ck, &i.comms, &m, &xk)
            });
            let mut row4 = vec![Fp::<P>::zero(); i.y + 1];
            for (r, f) in i.rows.iter().zip(&m) {
                for (o, v) in row4.iter_mut().zip(r) {
                    *o += *f * v;
                }
            }
            let e4 = ref_ueval(&row4, i.z.1);
            if e4 != i.e {
                let link = ref_msm(&key, &row4);
                let t1 = c.must("first tier", || S::tier1::<D>(&i.ck, &row4, &i.z.1, false));
                let q = Self::join::<D>(&(t2, link, t1));
                c.must_reject("rows combined by other factors", || Self::verify::<D>(i, &e4, &q));
            }
            // two rows exchanged
            let (a, b) = (c.rng.gen_range(0..=i.x), c.rng.gen_range(0..=i.x));
            let mut rows = i.rows.clone();
            rows.resize(i.x + 1, vec![]);
            rows.swap(a, b);
            let e5 = ref_eval(&rows, &i.z);
            if e5 != i.e {
                let mut comms = i.comms.clone();
                comms.swap(a, b);
                let o = c.must("open permuted", || S::open::<D>(&i.ck, &rows, &comms, &i.z));
                c.must_reject("rows exchanged", || Self::verify::<D>(i, &e5, &o));
                let mut ks = xk.clone();
                ks.swap(a, b);
                let t2 = c.must("second tier (keys exchanged)", || {
                    S::tier2::<Mipp<P>, AFGHOCommitmentG1<P>, D>(&i.ck, &comms, &pw, &ks)
                });
                let ho = Self::parts::<D>(&o);
                let q = Self::join::<D>(&(t2, ho.1, ho.2));
                c.must_reject("rows and keys exchanged", || Self::verify::<D>(i, &e5, &q));
            }
        }
    }
}

pub fn affine_eq<G: CurveGroup>(a: &[G], b: &[G]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y)
}
