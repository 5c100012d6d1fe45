//! The argument systems under test as one interface, and adversarial provers built from the
//! repository's own generic prover by plugging in inner products and commitments that lie.
use crate::*;
use ark_dh_commitments::{
    afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
    identity::IdentityCommitment,
    pedersen::PedersenCommitment,
    DoublyHomomorphicCommitment as DHC,
};
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ff::{Field, One};
use ark_inner_products::*;
use ark_ip_proofs::{gipa::*, tipa::*};
use ark_std::rand::{rngs::StdRng, Rng};
use digest::{generic_array::GenericArray, Digest, FixedOutput, Reset, Update};
use std::cell::RefCell;
use std::marker::PhantomData;

pub type B381 = ark_bls12_381::Bls12_381;
pub type B377 = ark_bls12_377::Bls12_377;
pub type Lib<T> = Result<T, Box<dyn std::error::Error>>;

pub type F<C> = <<C as Cfg>::P as Pairing>::ScalarField;
pub type ML<C> = <<C as Cfg>::L as DHC>::Message;
pub type MR<C> = <<C as Cfg>::R as DHC>::Message;
pub type MT<C> = <<C as Cfg>::T as DHC>::Message;
pub type KL<C> = <<C as Cfg>::L as DHC>::Key;
pub type KR<C> = <<C as Cfg>::R as DHC>::Key;
pub type KT<C> = <<C as Cfg>::T as DHC>::Key;
pub type OL<C> = <<C as Cfg>::L as DHC>::Output;
pub type OR<C> = <<C as Cfg>::R as DHC>::Output;
pub type OT<C> = <<C as Cfg>::T as DHC>::Output;
pub type Proof<C, D> =
    GIPAProof<<C as Cfg>::IP, <C as Cfg>::L, <C as Cfg>::R, <C as Cfg>::T, D>;
pub type Arg<C, D> = GIPA<<C as Cfg>::IP, <C as Cfg>::L, <C as Cfg>::R, <C as Cfg>::T, D>;
pub type TArg<C, D> =
    TIPA<<C as Cfg>::IP, <C as Cfg>::L, <C as Cfg>::R, <C as Cfg>::T, <C as Cfg>::P, D>;
pub type TProof<C, D> =
    TIPAProof<<C as Cfg>::IP, <C as Cfg>::L, <C as Cfg>::R, <C as Cfg>::T, <C as Cfg>::P, D>;

/// One instantiation of the inner-product argument.
pub trait Cfg: 'static {
    const NAME: &'static str;
    type P: Pairing;
    type L: DHC<Scalar = <Self::P as Pairing>::ScalarField> + TIPACompatibleSetup;
    type R: DHC<Scalar = <Self::P as Pairing>::ScalarField> + TIPACompatibleSetup;
    type T: DHC<Scalar = <Self::P as Pairing>::ScalarField>;
    type IP: InnerProduct<
        LeftMessage = <Self::L as DHC>::Message,
        RightMessage = <Self::R as DHC>::Message,
        Output = <Self::T as DHC>::Message,
    >;
    fn left(rng: &mut StdRng, n: usize, s: Shape) -> Vec<ML<Self>>;
    fn right(rng: &mut StdRng, n: usize, s: Shape) -> Vec<MR<Self>>;
    fn out(rng: &mut StdRng) -> MT<Self>;
}

/// Configurations whose keys live in G2 (left) and G1 (right): the trusted-setup argument.
pub trait TCfg:
    Cfg<
    L: DHC<Key = <<Self as Cfg>::P as Pairing>::G2>,
    R: DHC<Key = <<Self as Cfg>::P as Pairing>::G1>,
>
{
}
impl<C> TCfg for C where
    C: Cfg<
        L: DHC<Key = <<C as Cfg>::P as Pairing>::G2>,
        R: DHC<Key = <<C as Cfg>::P as Pairing>::G1>,
    >
{
}

pub fn naive_msgs<C: Cfg>(a: &[ML<C>], b: &[MR<C>]) -> MT<C> {
    C::IP::inner_product(a, b).expect("inner product of honest vectors")
}

macro_rules! cfg {
    ($name:ident, $str:expr, $l:ty, $r:ty, $t:ty, $ip:ty, $left:expr, $right:expr, $out:expr) => {
        pub struct $name<P>(PhantomData<P>);
        impl<P: Pairing> Cfg for $name<P> {
            const NAME: &'static str = $str;
            type P = P;
            type L = $l;
            type R = $r;
            type T = $t;
            type IP = $ip;
            fn left(rng: &mut StdRng, n: usize, s: Shape) -> Vec<ML<Self>> {
                $left(rng, n, s)
            }
            fn right(rng: &mut StdRng, n: usize, s: Shape) -> Vec<MR<Self>> {
                $right(rng, n, s)
            }
            fn out(rng: &mut StdRng) -> MT<Self> {
                $out(rng)
            }
        }
    };
}

fn gt<P: Pairing>(rng: &mut StdRng) -> PairingOutput<P> {
    P::pairing(g1::<P>(), g2::<P>()) * nonzero::<P::ScalarField>(rng)
}
fn pt<G: ark_ec::CurveGroup>(rng: &mut StdRng) -> G {
    G::generator() * nonzero::<G::ScalarField>(rng)
}

cfg!(
    PairCfg, "pairing",
    AFGHOCommitmentG1<P>, AFGHOCommitmentG2<P>,
    IdentityCommitment<PairingOutput<P>, P::ScalarField>, PairingInnerProduct<P>,
    points::<P::G1>, points::<P::G2>, gt::<P>
);
cfg!(
    MsmCfg, "msm-g1",
    AFGHOCommitmentG1<P>, PedersenCommitment<P::G1>,
    IdentityCommitment<P::G1, P::ScalarField>, MultiexponentiationInnerProduct<P::G1>,
    points::<P::G1>, scalars::<P::ScalarField>, pt::<P::G1>
);
cfg!(
    ScalarCfg, "scalar",
    PedersenCommitment<P::G2>, PedersenCommitment<P::G1>,
    IdentityCommitment<P::ScalarField, P::ScalarField>, ScalarInnerProduct<P::ScalarField>,
    scalars::<P::ScalarField>, scalars::<P::ScalarField>, nonzero::<P::ScalarField>
);
// The inner product itself hidden in a commitment with a real key.
cfg!(
    ScalarPedCfg, "scalar-pedersen-out",
    PedersenCommitment<P::G2>, PedersenCommitment<P::G1>,
    PedersenCommitment<P::G1>, ScalarInnerProduct<P::ScalarField>,
    scalars::<P::ScalarField>, scalars::<P::ScalarField>, nonzero::<P::ScalarField>
);
cfg!(
    MsmAfghoCfg, "msm-g1-afgho-out",
    AFGHOCommitmentG1<P>, PedersenCommitment<P::G1>,
    AFGHOCommitmentG1<P>, MultiexponentiationInnerProduct<P::G1>,
    points::<P::G1>, scalars::<P::ScalarField>, pt::<P::G1>
);
cfg!(
    MsmG2Cfg, "msm-g2",
    AFGHOCommitmentG2<P>, PedersenCommitment<P::G2>,
    IdentityCommitment<P::G2, P::ScalarField>, MultiexponentiationInnerProduct<P::G2>,
    points::<P::G2>, scalars::<P::ScalarField>, pt::<P::G2>
);

/// An honest instance: messages, keys, commitments.
pub struct Inst<C: Cfg> {
    pub n: usize,
    pub a: Vec<ML<C>>,
    pub b: Vec<MR<C>>,
    pub t: MT<C>,
    pub ck_a: Vec<KL<C>>,
    pub ck_b: Vec<KR<C>>,
    pub ck_t: KT<C>,
    pub com_a: OL<C>,
    pub com_b: OR<C>,
    pub com_t: OT<C>,
}

pub fn commit_all<C: Cfg>(
    a: &[ML<C>],
    b: &[MR<C>],
    t: &MT<C>,
    ck: (&[KL<C>], &[KR<C>], &KT<C>),
) -> (OL<C>, OR<C>, OT<C>) {
    (
        C::L::commit(ck.0, a).expect("commit"),
        C::R::commit(ck.1, b).expect("commit"),
        C::T::commit(&[ck.2.clone()], &[t.clone()]).expect("commit"),
    )
}

impl<C: Cfg> Inst<C> {
    pub fn with_keys(
        a: Vec<ML<C>>,
        b: Vec<MR<C>>,
        ck: (Vec<KL<C>>, Vec<KR<C>>, KT<C>),
    ) -> Self {
        let t = naive_msgs::<C>(&a, &b);
        let (ck_a, ck_b, ck_t) = ck;
        let (com_a, com_b, com_t) = commit_all::<C>(&a, &b, &t, (&ck_a, &ck_b, &ck_t));
        Inst { n: a.len(), a, b, t, ck_a, ck_b, ck_t, com_a, com_b, com_t }
    }
    pub fn gipa<D: Digest>(c: &mut Case, n: usize, s: (Shape, Shape)) -> Self {
        let a = C::left(&mut c.rng, n, s.0);
        let b = C::right(&mut c.rng, n, s.1);
        let mut r = c.fork();
        let ck = c.must("setup", || Arg::<C, D>::setup(&mut r, n));
        Self::with_keys(a, b, ck)
    }
    pub fn ck(&self) -> (&[KL<C>], &[KR<C>], &KT<C>) {
        (&self.ck_a, &self.ck_b, &self.ck_t)
    }
    pub fn com(&self) -> (&OL<C>, &OR<C>, &OT<C>) {
        (&self.com_a, &self.com_b, &self.com_t)
    }
}

pub fn gipa_prove<C: Cfg, D: Digest>(i: &Inst<C>) -> Lib<Proof<C, D>> {
    Arg::<C, D>::prove((&i.a, &i.b, &i.t), i.ck(), i.com())
}

pub fn gipa_verify<C: Cfg, D: Digest>(
    ck: (&[KL<C>], &[KR<C>], &KT<C>),
    com: (&OL<C>, &OR<C>, &OT<C>),
    p: &Proof<C, D>,
) -> Lib<bool> {
    Arg::<C, D>::verify(ck, com, p)
}

/// The pieces of a GIPA proof as serialised: rounds (last round first) and the base messages.
pub type View<L, R, T> = (
    Vec<((<L as DHC>::Output, <R as DHC>::Output, <T as DHC>::Output), (<L as DHC>::Output, <R as DHC>::Output, <T as DHC>::Output))>,
    (<L as DHC>::Message, <R as DHC>::Message),
);
pub type GView<C> = View<<C as Cfg>::L, <C as Cfg>::R, <C as Cfg>::T>;

pub fn neg<F: Field, T: std::ops::MulAssign<F> + Clone>(t: &T) -> T {
    let mut x = t.clone();
    x *= -F::one();
    x
}
pub fn scale<F: Field, T: std::ops::MulAssign<F> + Clone>(t: &T, f: F) -> T {
    let mut x = t.clone();
    x *= f;
    x
}

// ------------------------------------------------------------------ lying building blocks

/// Reports twice the inner product.
#[derive(Clone, Copy)]
pub struct TwiceIP<I>(PhantomData<I>);
impl<I: InnerProduct> InnerProduct for TwiceIP<I>
where
    I::Output: std::ops::Add<Output = I::Output> + Clone,
{
    type LeftMessage = I::LeftMessage;
    type RightMessage = I::RightMessage;
    type Output = I::Output;
    fn inner_product(l: &[I::LeftMessage], r: &[I::RightMessage]) -> Lib<I::Output> {
        let o = I::inner_product(l, r)?;
        Ok(o.clone() + o)
    }
}

/// Commits to twice the message.
#[derive(Clone)]
pub struct TwiceC<C>(PhantomData<C>);
impl<C: DHC> DHC for TwiceC<C> {
    type Scalar = C::Scalar;
    type Message = C::Message;
    type Key = C::Key;
    type Output = C::Output;
    fn setup<R: Rng>(r: &mut R, size: usize) -> Lib<Vec<C::Key>> {
        C::setup(r, size)
    }
    fn commit(k: &[C::Key], m: &[C::Message]) -> Lib<C::Output> {
        let o = C::commit(k, m)?;
        Ok(o.clone() + o)
    }
}
impl<C: TIPACompatibleSetup> TIPACompatibleSetup for TwiceC<C> {}

thread_local! {
    /// Serialised offset and the length at which the lying blocks add it.
    static LIE: RefCell<(usize, Vec<u8>, Vec<u8>, Vec<u8>)> = const { RefCell::new((0, vec![], vec![], vec![])) };
}
/// Which of the three statement components is shifted, at which full length.
pub fn set_lie(n: usize, l: Vec<u8>, r: Vec<u8>, t: Vec<u8>) {
    LIE.with(|x| *x.borrow_mut() = (n, l, r, t));
}
fn lie<T: ark_serialize::CanonicalDeserialize>(n: usize, which: u8) -> Option<T> {
    LIE.with(|x| {
        let x = x.borrow();
        let b = [&x.1, &x.2, &x.3][which as usize];
        (x.0 == n && !b.is_empty()).then(|| T::deserialize_uncompressed_unchecked(&b[..]).unwrap())
    })
}

/// Shifts only the inner product of the full-length vectors: a false statement whose rounds are
/// all honest.
#[derive(Clone, Copy)]
pub struct FullIP<I>(PhantomData<I>);
impl<I: InnerProduct> InnerProduct for FullIP<I>
where
    I::Output: std::ops::Add<Output = I::Output> + ark_serialize::CanonicalDeserialize,
{
    type LeftMessage = I::LeftMessage;
    type RightMessage = I::RightMessage;
    type Output = I::Output;
    fn inner_product(l: &[I::LeftMessage], r: &[I::RightMessage]) -> Lib<I::Output> {
        let o = I::inner_product(l, r)?;
        Ok(match lie::<I::Output>(l.len(), 2) {
            Some(d) => o + d,
            None => o,
        })
    }
}

/// Shifts only the commitment to the full-length vector (`W`: 0 left, 1 right).
#[derive(Clone)]
pub struct FullC<C, const W: u8>(PhantomData<C>);
impl<C: DHC, const W: u8> DHC for FullC<C, W> {
    type Scalar = C::Scalar;
    type Message = C::Message;
    type Key = C::Key;
    type Output = C::Output;
    fn setup<R: Rng>(r: &mut R, size: usize) -> Lib<Vec<C::Key>> {
        C::setup(r, size)
    }
    fn commit(k: &[C::Key], m: &[C::Message]) -> Lib<C::Output> {
        let o = C::commit(k, m)?;
        Ok(match lie::<C::Output>(m.len(), W) {
            Some(d) => o + d,
            None => o,
        })
    }
}
impl<C: TIPACompatibleSetup, const W: u8> TIPACompatibleSetup for FullC<C, W> {}

// ------------------------------------------------------------------ recording digest

thread_local! {
    static TAPE: RefCell<Vec<Vec<u8>>> = const { RefCell::new(vec![]) };
}
/// Digest outputs produced on this thread since the last call.
pub fn take_tape() -> Vec<Vec<u8>> {
    TAPE.with(|t| std::mem::take(&mut *t.borrow_mut()))
}

/// A digest that lets the monitor read every output, in order.
#[derive(Clone, Default)]
pub struct RecD<D>(D);
impl<D: Update> Update for RecD<D> {
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.0.update(data)
    }
}
impl<D: Reset> Reset for RecD<D> {
    fn reset(&mut self) {
        self.0.reset()
    }
}
impl<D: FixedOutput> FixedOutput for RecD<D> {
    type OutputSize = D::OutputSize;
    fn finalize_into(self, out: &mut GenericArray<u8, Self::OutputSize>) {
        self.0.finalize_into(out);
        TAPE.with(|t| t.borrow_mut().push(out.to_vec()));
    }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, Self::OutputSize>) {
        self.0.finalize_into_reset(out);
        TAPE.with(|t| t.borrow_mut().push(out.to_vec()));
    }
}

/// The 128-bit challenge of a digest output.
pub fn chal128<F: Field>(d: &[u8]) -> F {
    let mut b = [0u8; 16];
    b.copy_from_slice(&d[..16]);
    u128::from_be_bytes(b).into()
}

/// Product over challenges (last round first) of 1 + x_i * z^(2^i).
pub fn prod_form<F: Field>(xs: &[F], z: F) -> F {
    let mut p = F::one();
    let mut z = z;
    for x in xs {
        p *= F::one() + *x * z;
        z = z.square();
    }
    p
}

pub fn one<F: One>() -> F {
    F::one()
}

// ------------------------------------------------------------------ trusted-setup instances

pub fn tipa_inst<C: TCfg, D: Digest>(
    c: &mut Case,
    n: usize,
    s: (Shape, Shape),
) -> (SRS<C::P>, Inst<C>) {
    let mut r = c.fork();
    let (srs, ck_t) = c.must("setup", || TArg::<C, D>::setup(&mut r, n));
    let (ck_a, ck_b) = srs.get_commitment_keys();
    c.check("n keys on either side", ck_a.len() == n && ck_b.len() == n);
    let a = C::left(&mut c.rng, n, s.0);
    let b = C::right(&mut c.rng, n, s.1);
    let i = Inst::<C>::with_keys(a, b, (ck_a, ck_b, ck_t));
    (srs, i)
}

/// The same messages under a left key shifted by the powers of 1/r.
pub fn shifted_inst<C: TCfg>(i: &Inst<C>, r: F<C>) -> Inst<C> {
    let pw = powers(r.inverse().unwrap(), i.n);
    let ck_a = i.ck_a.iter().zip(&pw).map(|(k, x)| *k * x).collect();
    Inst::<C>::with_keys(i.a.clone(), i.b.clone(), (ck_a, i.ck_b.clone(), i.ck_t.clone()))
}
