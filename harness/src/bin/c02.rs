//! C02: commitments are exact, doubly homomorphic, binding, and refuse wrong lengths.
use ark_dh_commitments::{
    afgho16::*, identity::*, pedersen::PedersenCommitment, random_generators,
    DoublyHomomorphicCommitment as DHC,
};
use ark_ec::{pairing::Pairing, CurveGroup};
use ark_ff::{Field, PrimeField, UniformRand};
use ark_serialize::CanonicalSerialize;
use ark_std::rand::{rngs::StdRng, Rng, SeedableRng};
use ripp_mon::*;
use std::collections::HashSet;
use std::marker::PhantomData;

trait Scheme: 'static {
    const NAME: &'static str;
    type C: DHC;
    fn msg(r: &mut StdRng, n: usize, s: Shape) -> Vec<<Self::C as DHC>::Message>;
    fn key(r: &mut StdRng, n: usize, s: Shape) -> Vec<<Self::C as DHC>::Key>;
    fn reference(
        k: &[<Self::C as DHC>::Key],
        m: &[<Self::C as DHC>::Message],
    ) -> <Self::C as DHC>::Output;
    /// Element of the key that is not fit for a key.
    fn neutral() -> <Self::C as DHC>::Key {
        Default::default()
    }
}
struct A1<P>(PhantomData<P>);
impl<P: Pairing> Scheme for A1<P> {
    const NAME: &'static str = "afgho-g1";
    type C = AFGHOCommitmentG1<P>;
    fn msg(r: &mut StdRng, n: usize, s: Shape) -> Vec<P::G1> {
        points(r, n, s)
    }
    fn key(r: &mut StdRng, n: usize, s: Shape) -> Vec<P::G2> {
        points(r, n, s)
    }
    fn reference(k: &[P::G2], m: &[P::G1]) -> ark_ec::pairing::PairingOutput<P> {
        ref_pairing::<P>(m, k)
    }
}
struct A2<P>(PhantomData<P>);
impl<P: Pairing> Scheme for A2<P> {
    const NAME: &'static str = "afgho-g2";
    type C = AFGHOCommitmentG2<P>;
    fn msg(r: &mut StdRng, n: usize, s: Shape) -> Vec<P::G2> {
        points(r, n, s)
    }
    fn key(r: &mut StdRng, n: usize, s: Shape) -> Vec<P::G1> {
        points(r, n, s)
    }
    fn reference(k: &[P::G1], m: &[P::G2]) -> ark_ec::pairing::PairingOutput<P> {
        ref_pairing::<P>(k, m)
    }
}
struct Ped<G>(PhantomData<G>);
impl<G: CurveGroup> Scheme for Ped<G>
where
    G::ScalarField: PrimeField,
{
    const NAME: &'static str = "pedersen";
    type C = PedersenCommitment<G>;
    fn msg(r: &mut StdRng, n: usize, s: Shape) -> Vec<G::ScalarField> {
        scalars(r, n, s)
    }
    fn key(r: &mut StdRng, n: usize, s: Shape) -> Vec<G> {
        points(r, n, s)
    }
    fn reference(k: &[G], m: &[G::ScalarField]) -> G {
        ref_msm(k, m)
    }
}

fn reps<T: CanonicalSerialize>(v: &[T]) -> HashSet<Vec<u8>> {
    v.iter().map(ser).collect()
}

fn laws<S: Scheme>(maxq: usize, maxt: usize) -> impl Fn(&mut Case) {
    move |c| {
        let max = if c.tier == Tier::Thorough { maxt } else { maxq };
        let n = if c.i <= 4 { c.i + 1 } else { c.rng.gen_range(1..=max) };
        let (s1, s2, sk) = (shape(&mut c.rng), shape(&mut c.rng), shape(&mut c.rng));
        c.note("scheme", S::NAME);
        c.note("n", n);
        c.note("shapes", format!("{s1:?} {s2:?} {sk:?}"));
        c.event(S::NAME);
        let (m1, m2) = (S::msg(&mut c.rng, n, s1), S::msg(&mut c.rng, n, s2));
        let (k1, k2) = (S::key(&mut c.rng, n, sk), S::key(&mut c.rng, n, Shape::Random));
        c.key(&(m1.clone(), k1.clone()));
        type Fr<S> = <<S as Scheme>::C as DHC>::Scalar;
        let f: Fr<S> = if c.rng.gen_bool(0.4) { edge_scalar(&mut c.rng) } else { Fr::<S>::rand(&mut c.rng) };
        let com = |c: &mut Case, k: &[<S::C as DHC>::Key], m: &[<S::C as DHC>::Message]| {
            c.must("commit", || S::C::commit(k, m))
        };
        let c11 = com(c, &k1, &m1);
        c.check("commitment equals its definition", c11 == S::reference(&k1, &m1));
        let ok = com(c, &k1, &m1) == c11;
        c.check("commitment is deterministic", ok);
        let c12 = com(c, &k1, &m2);
        let c21 = com(c, &k2, &m1);
        let msum: Vec<_> = m1.iter().zip(&m2).map(|(a, b)| a.clone() + b.clone()).collect();
        let ksum: Vec<_> = k1.iter().zip(&k2).map(|(a, b)| a.clone() + b.clone()).collect();
        let ok = com(c, &k1, &msum) == c11.clone() + c12.clone();
        c.check("adds with messages", ok);
        let ok = com(c, &ksum, &m1) == c11.clone() + c21.clone();
        c.check("adds with keys", ok);
        let fm: Vec<_> = m1.iter().map(|a| scale::<Fr<S>, _>(a, f)).collect();
        let fk: Vec<_> = k1.iter().map(|a| scale::<Fr<S>, _>(a, f)).collect();
        let fc = scale::<Fr<S>, _>(&c11, f);
        let ok = com(c, &k1, &fm) == fc;
        c.check("scales with messages", ok);
        let ok = com(c, &fk, &m1) == fc;
        c.check("scales with keys", ok);
        // order
        let p = c.rng.gen_range(0..n);
        let (mut mr, mut kr) = (m1.clone(), k1.clone());
        mr.rotate_left(p);
        kr.rotate_left(p);
        let ok = com(c, &kr, &mr) == c11;
        c.check("independent of the order of pairs", ok);
        // verification
        c.must_accept("verify the commitment", || S::C::verify(&k1, &m1, &c11));
        let d = S::C::commit(&k2[..1], &S::msg(&mut c.rng, 1, Shape::Random)).expect("commit");
        let other = c11.clone() + d.clone();
        c.must_reject_total("verify another commitment", || S::C::verify(&k1, &m1, &other));
        if c12 != c11 {
            c.must_reject_total("verify another message", || S::C::verify(&k1, &m2, &c11));
        }
        // one element changed under a proper key
        let j = if c.i % 3 == 0 { n - 1 } else { c.rng.gen_range(0..n) };
        let mut m3 = m1.clone();
        m3[j] = m3[j].clone() + S::msg(&mut c.rng, 1, Shape::Random)[0].clone();
        c.must_reject_total("verify with one element changed", || S::C::verify(&k2, &m3, &c21));
        let mut k3 = k2.clone();
        k3[j] = k3[j].clone() + k2[(j + 1) % n].clone();
        if !scale::<Fr<S>, _>(&m1[j], Fr::<S>::ZERO).eq(&m1[j]) {
            c.must_reject_total("verify with one key changed", || S::C::verify(&k3, &m1, &c21));
        }
        if n > 1 {
            let mut m4 = m1.clone();
            m4.swap(j, (j + 1) % n);
            if m4 != m1 {
                c.must_reject_total("verify with two elements swapped", || S::C::verify(&k2, &m4, &c21));
            }
        }
        // lengths
        let extra = S::msg(&mut c.rng, 1 + c.i % 3, Shape::Random);
        let long: Vec<_> = m1.iter().cloned().chain(extra).collect();
        c.must_err("message longer than the key", || S::C::commit(&k1, &long));
        c.must_err("key longer than the message", || S::C::commit(&k1, &m1[..n - 1]));
        c.must_err("verify, message longer", || S::C::verify(&k1, &long, &c11));
        let zero = S::msg(&mut c.rng, 1, Shape::AllZero);
        let padded: Vec<_> = m1.iter().cloned().chain(zero).collect();
        c.must_err("verify, message padded with a neutral element", || S::C::verify(&k1, &padded, &c11));
        c.must_err("verify, key longer", || S::C::verify(&k1, &m1[..n - 1], &c11));
    }
}

fn setup<S: Scheme>(c: &mut Case) {
    let n = match c.i {
        0 => 0,
        1 => 1,
        _ => c.rng.gen_range(2..70),
    };
    c.note("n", n);
    c.key_str(&format!("{}/{n}/{}", S::NAME, c.i));
    let seed: u64 = c.rng.gen();
    let mut r = StdRng::seed_from_u64(seed);
    let k1 = c.must("setup", || S::C::setup(&mut r, n));
    let k2 = c.must("setup again", || S::C::setup(&mut r, n));
    let mut r = StdRng::seed_from_u64(seed);
    let k3 = c.must("setup, same stream", || S::C::setup(&mut r, n));
    let m = S::msg(&mut c.rng, n, Shape::Random);
    let (c1, c3) = (c.must("commit", || S::C::commit(&k1, &m)), c.must("commit", || S::C::commit(&k3, &m)));
    c.check("same stream, same key", k1 == k3 && c1 == c3);
    c.check("as many keys as asked for", k1.len() == n && k2.len() == n);
    let (a, b) = (reps(&k1), reps(&k2));
    c.check("keys are distinct", a.len() == n && b.len() == n);
    c.check("setups are fresh", a.intersection(&b).count() == 0);
    c.check("no neutral key", !a.contains(&ser(&S::neutral())) && !b.contains(&ser(&S::neutral())));
    // no key is a small multiple of another
    if n > 1 {
        let (x, y) = (c.rng.gen_range(0..n), c.rng.gen_range(0..n));
        if x != y {
            let mut acc = k1[x].clone();
            for _ in 0..8 {
                acc = acc + k1[x].clone();
                c.check("keys are unrelated", acc != k1[y]);
            }
        }
    }
}

fn identity<T, Fr>(mk: impl Fn(&mut StdRng, usize) -> Vec<T> + Send + Sync + 'static) -> impl Fn(&mut Case)
where
    Fr: PrimeField,
    T: DhMsg<Fr>,
{
    move |c| {
        let n = c.i % 9;
        c.note("n", n);
        c.event("identity");
        let (m1, m2) = (mk(&mut c.rng, n), mk(&mut c.rng, n));
        c.key(&m1);
        type C<T, Fr> = IdentityCommitment<T, Fr>;
        let mut r = c.fork();
        let k = c.must("setup", || C::<T, Fr>::setup(&mut r, n));
        c.check("as many keys as asked for", k.len() == n);
        let c1 = c.must("commit", || C::<T, Fr>::commit(&k, &m1));
        let c2 = c.must("commit", || C::<T, Fr>::commit(&k, &m2));
        c.check("the commitment is the message", c1.0 == m1);
        let f = if c.i % 2 == 0 { Fr::rand(&mut c.rng) } else { edge_scalar(&mut c.rng) };
        let sum: Vec<T> = m1.iter().zip(&m2).map(|(a, b)| a.clone() + b.clone()).collect();
        let fm: Vec<T> = m1.iter().map(|a| scale::<Fr, T>(a, f)).collect();
        c.check("adds with messages", (c1.clone() + c2.clone()).0 == sum);
        c.check("scales with messages", scale::<Fr, _>(&c1, f).0 == fm);
        c.must_accept("verify the commitment", || C::<T, Fr>::verify(&k, &m1, &c1));
        if m1 != m2 {
            c.must_reject_total("verify another message", || C::<T, Fr>::verify(&k, &m2, &c1));
        }
        if n > 0 {
            let mut m3 = m1.clone();
            let j = c.rng.gen_range(0..n);
            m3[j] = m3[j].clone() + mk(&mut c.rng, 1)[0].clone();
            if m3 != m1 {
                c.must_reject_total("verify with one element changed", || C::<T, Fr>::verify(&k, &m3, &c1));
            }
            c.must_reject_total("verify a shorter message", || C::<T, Fr>::verify(&k, &m1[..n - 1], &c1));
            let x = HomomorphicPlaceholderValue + HomomorphicPlaceholderValue;
            c.check("placeholder keys are all alike", x == HomomorphicPlaceholderValue);
        }
    }
}
trait DhMsg<Fr: PrimeField>:
    CanonicalSerialize
    + ark_serialize::CanonicalDeserialize
    + Clone
    + Default
    + Eq
    + Send
    + Sync
    + std::ops::Add<Self, Output = Self>
    + std::ops::MulAssign<Fr>
{
}
impl<T, Fr: PrimeField> DhMsg<Fr> for T where
    T: CanonicalSerialize
        + ark_serialize::CanonicalDeserialize
        + Clone
        + Default
        + Eq
        + Send
        + Sync
        + std::ops::Add<T, Output = T>
        + std::ops::MulAssign<Fr>
{
}

fn generators<G: CurveGroup>(c: &mut Case) {
    let n = c.rng.gen_range(0..60);
    c.note("n", n);
    c.key_str(&format!("{n}/{}", c.i));
    let mut r = c.fork();
    let g: Vec<G> = random_generators(&mut r, n);
    c.check("as many generators as asked for", g.len() == n);
    c.check("generators are distinct", reps(&g).len() == n);
    c.check("no neutral generator", g.iter().all(|x| !x.is_zero()));
    let q = G::ScalarField::MODULUS;
    c.check("in the prime-order group", g.iter().take(5).all(|x| x.mul_bigint(q).is_zero()));
}

fn main() {
    type G1 = <B381 as Pairing>::G1;
    type G2 = <B381 as Pairing>::G2;
    type J = ark_ed_on_bls12_381::EdwardsProjective;
    type Fr = <B381 as Pairing>::ScalarField;
    main_with(Plan {
        property: "C02",
        rule: "lengths 1 up to the bound (powers of two and not), ten vector shapes for messages and keys, edge scalars; non-trivial: all laws were evaluated on a commitment, distinct by message and key",
        assumptions: vec!["group, field and pairing arithmetic are trusted"],
        required: vec!["afgho-g1", "afgho-g2", "pedersen", "identity", "adds with keys", "refused:error", "rejected:false", "setups are fresh"],
        workloads: vec![
            wl("afgho-g1", 24, 400, laws::<A1<B381>>(18, 70)),
            wl("afgho-g2", 24, 400, laws::<A2<B381>>(18, 70)),
            wl("afgho-g1-377", 8, 100, laws::<A1<B377>>(9, 30)),
            wl("afgho-g2-377", 8, 100, laws::<A2<B377>>(9, 30)),
            wl("pedersen-g1", 40, 600, laws::<Ped<G1>>(40, 300)),
            wl("pedersen-g2", 20, 300, laws::<Ped<G2>>(20, 120)),
            wl("pedersen-jubjub", 40, 600, laws::<Ped<J>>(40, 300)),
            wl("setup-g1", 10, 60, setup::<A1<B381>>),
            wl("setup-g2", 10, 60, setup::<A2<B381>>),
            wl("setup-pedersen", 10, 60, setup::<Ped<J>>),
            wl("identity-scalar", 30, 200, identity::<Fr, Fr>(|r, n| { let s = shape(r); scalars(r, n, s) })),
            wl("identity-g1", 20, 100, identity::<G1, Fr>(|r, n| { let s = shape(r); points(r, n, s) })),
            wl("generators-g1", 6, 40, generators::<G1>),
            wl("generators-g2", 6, 40, generators::<G2>),
            wl("generators-jubjub", 6, 40, generators::<J>),
            wl("afgho-mini", 800, 4000, laws::<A1<Mini>>(60, 300)),
            wl("pedersen-mini", 800, 4000, laws::<Ped<<Mini as Pairing>::G1>>(60, 300)),
        ],
    })
}
