//! Arguments whose right vector is the powers of one public scalar: instances and attacks, for the
//! transparent and the trusted-setup flavour behind one interface.
use crate::*;
use ark_dh_commitments::DoublyHomomorphicCommitment as DHC;
use ark_ec::pairing::Pairing;
use ark_ff::{Field, UniformRand, Zero};
use ark_inner_products::InnerProduct;
use ark_ip_proofs::{gipa::*, tipa::structured_scalar_message::*, tipa::*};
use ark_std::rand::Rng;
use digest::Digest;
use std::marker::PhantomData;

/// Right messages are scalars.
pub trait SCfg: Cfg<R: DHC<Message = <<Self as Cfg>::P as Pairing>::ScalarField>> {}
impl<C> SCfg for C where C: Cfg<R: DHC<Message = <<C as Cfg>::P as Pairing>::ScalarField>> {}

pub type Ph<C> = SSMPlaceholderCommitment<F<C>>;
pub type SProof<C, D> = GIPAProof<<C as Cfg>::IP, <C as Cfg>::L, Ph<C>, <C as Cfg>::T, D>;
pub type SRounds<C> = Vec<((OL<C>, F<C>, OT<C>), (OL<C>, F<C>, OT<C>))>;
pub type SView<C> = (SRounds<C>, (ML<C>, F<C>));

pub struct SInst<C: SCfg, X> {
    pub n: usize,
    pub a: Vec<ML<C>>,
    pub b: F<C>,
    pub t: MT<C>,
    pub ck_a: Vec<KL<C>>,
    pub ck_t: KT<C>,
    pub com_a: OL<C>,
    pub com_t: OT<C>,
    pub extra: X,
}

/// The two flavours.
pub trait Flavour<C: SCfg>: 'static {
    const NAME: &'static str;
    type Extra;
    type Proof<D: Digest>: Clone;
    /// Everything of the proof besides rounds and base messages.
    type Tail: Clone;
    fn setup(c: &mut Case, n: usize) -> (Vec<KL<C>>, KT<C>, Self::Extra);
    /// A prover with inner product and left commitment of the adversary's choice.
    fn prove_as<IP, L, D>(
        x: &Self::Extra,
        a: &[ML<C>],
        m_b: &[F<C>],
        ck: (&[KL<C>], &KT<C>),
    ) -> Lib<Self::Proof<D>>
    where
        D: Digest,
        L: DHC<Scalar = F<C>, Message = ML<C>, Key = KL<C>, Output = OL<C>> + TIPACompatibleSetup,
        IP: InnerProduct<LeftMessage = ML<C>, RightMessage = F<C>, Output = MT<C>>;
    fn verify<D: Digest>(
        x: &Self::Extra,
        ck: (&[KL<C>], &KT<C>),
        com: (&OL<C>, &OT<C>),
        b: &F<C>,
        p: &Self::Proof<D>,
    ) -> Lib<bool>;
    fn open<D: Digest>(p: &Self::Proof<D>) -> (SView<C>, Self::Tail);
    fn close<D: Digest>(v: &SView<C>, t: &Self::Tail) -> Self::Proof<D>;
}

pub struct Plain;
pub struct Trusted;

impl<C: SCfg> Flavour<C> for Plain {
    const NAME: &'static str = "transparent";
    type Extra = ();
    type Proof<D: Digest> = SProof<C, D>;
    type Tail = ();
    fn setup(c: &mut Case, n: usize) -> (Vec<KL<C>>, KT<C>, ()) {
        let mut r = c.fork();
        let (k, t) = c.must("setup", || {
            GIPAWithSSM::<C::IP, C::L, C::T, blake2::Blake2b>::setup(&mut r, n)
        });
        (k, t, ())
    }
    fn prove_as<IP, L, D>(
        _: &(),
        a: &[ML<C>],
        m_b: &[F<C>],
        ck: (&[KL<C>], &KT<C>),
    ) -> Lib<SProof<C, D>>
    where
        D: Digest,
        L: DHC<Scalar = F<C>, Message = ML<C>, Key = KL<C>, Output = OL<C>> + TIPACompatibleSetup,
        IP: InnerProduct<LeftMessage = ML<C>, RightMessage = F<C>, Output = MT<C>>,
    {
        let p = GIPAWithSSM::<IP, L, C::T, D>::prove_with_structured_scalar_message((a, m_b), ck)?;
        Ok(bridge(&p))
    }
    fn verify<D: Digest>(
        _: &(),
        ck: (&[KL<C>], &KT<C>),
        com: (&OL<C>, &OT<C>),
        b: &F<C>,
        p: &SProof<C, D>,
    ) -> Lib<bool> {
        GIPAWithSSM::<C::IP, C::L, C::T, D>::verify_with_structured_scalar_message(ck, com, b, p)
    }
    fn open<D: Digest>(p: &SProof<C, D>) -> (SView<C>, ()) {
        (bridge(p), ())
    }
    fn close<D: Digest>(v: &SView<C>, _: &()) -> SProof<C, D> {
        bridge(v)
    }
}

impl<C: SCfg> Flavour<C> for Trusted
where
    C: Cfg<L: DHC<Key = <<C as Cfg>::P as Pairing>::G2>>,
{
    const NAME: &'static str = "trusted";
    type Extra = (SRS<C::P>, VerifierSRS<C::P>);
    type Proof<D: Digest> = TIPAWithSSMProof<C::IP, C::L, C::T, C::P, D>;
    type Tail = (G2<C>, G2<C>);
    fn setup(c: &mut Case, n: usize) -> (Vec<KL<C>>, KT<C>, Self::Extra) {
        let mut r = c.fork();
        let (srs, t) = c.must("setup", || {
            TIPAWithSSM::<C::IP, C::L, C::T, C::P, blake2::Blake2b>::setup(&mut r, n)
        });
        let v = srs.get_verifier_key();
        (srs.get_commitment_keys().0, t, (srs, v))
    }
    fn prove_as<IP, L, D>(
        x: &Self::Extra,
        a: &[ML<C>],
        m_b: &[F<C>],
        ck: (&[KL<C>], &KT<C>),
    ) -> Lib<Self::Proof<D>>
    where
        D: Digest,
        L: DHC<Scalar = F<C>, Message = ML<C>, Key = KL<C>, Output = OL<C>> + TIPACompatibleSetup,
        IP: InnerProduct<LeftMessage = ML<C>, RightMessage = F<C>, Output = MT<C>>,
    {
        let p = TIPAWithSSM::<IP, L, C::T, C::P, D>::prove_with_structured_scalar_message(
            &x.0,
            (a, m_b),
            ck,
        )?;
        Ok(bridge(&p))
    }
    fn verify<D: Digest>(
        x: &Self::Extra,
        ck: (&[KL<C>], &KT<C>),
        com: (&OL<C>, &OT<C>),
        b: &F<C>,
        p: &Self::Proof<D>,
    ) -> Lib<bool> {
        TIPAWithSSM::<C::IP, C::L, C::T, C::P, D>::verify_with_structured_scalar_message(
            &x.1, ck.1, com, b, p,
        )
    }
    fn open<D: Digest>(p: &Self::Proof<D>) -> (SView<C>, Self::Tail) {
        bridge(p)
    }
    fn close<D: Digest>(v: &SView<C>, t: &Self::Tail) -> Self::Proof<D> {
        bridge(&(v.clone(), *t))
    }
}

/// One flavour of one configuration.
pub struct S<C, V>(PhantomData<(C, V)>);

impl<C: SCfg, X> SInst<C, X> {
    pub fn ck(&self) -> (&[KL<C>], &KT<C>) {
        (&self.ck_a, &self.ck_t)
    }
    pub fn com(&self) -> (&OL<C>, &OT<C>) {
        (&self.com_a, &self.com_t)
    }
}

pub fn ssm_inst<C: SCfg, V: Flavour<C>>(
    c: &mut Case,
    n: usize,
    s: Shape,
    b: F<C>,
) -> SInst<C, V::Extra> {
    let (ck_a, ck_t, extra) = V::setup(c, n);
    c.check("n keys", ck_a.len() == n);
    let a = C::left(&mut c.rng, n, s);
    ssm_with::<C, V>(a, b, ck_a, ck_t, extra)
}

pub fn ssm_with<C: SCfg, V: Flavour<C>>(
    a: Vec<ML<C>>,
    b: F<C>,
    ck_a: Vec<KL<C>>,
    ck_t: KT<C>,
    extra: V::Extra,
) -> SInst<C, V::Extra> {
    let t = naive_msgs::<C>(&a, &powers(b, a.len()));
    let com_a = C::L::commit(&ck_a, &a).expect("commit");
    let com_t = C::T::commit(&[ck_t.clone()], &[t.clone()]).expect("commit");
    SInst { n: a.len(), a, b, t, ck_a, ck_t, com_a, com_t, extra }
}

impl<C: SCfg, V: Flavour<C>> S<C, V> {
    pub fn prove<D: Digest>(i: &SInst<C, V::Extra>) -> Lib<V::Proof<D>> {
        V::prove_as::<C::IP, C::L, D>(&i.extra, &i.a, &structured_scalar_power(i.n, &i.b), i.ck())
    }
    pub fn verify<D: Digest>(
        i: &SInst<C, V::Extra>,
        com: (&OL<C>, &OT<C>),
        b: &F<C>,
        p: &V::Proof<D>,
    ) -> Lib<bool> {
        V::verify::<D>(&i.extra, i.ck(), com, b, p)
    }

    pub fn nontrivial(c: &mut Case, n: usize) -> SInst<C, V::Extra> {
        for _ in 0..20 {
            let s = if c.rng.gen_bool(0.6) { Shape::Random } else { shape(&mut c.rng) };
            let b = if c.rng.gen_bool(0.7) {
                F::<C>::rand(&mut c.rng)
            } else {
                edge_scalar(&mut c.rng)
            };
            let i = ssm_inst::<C, V>(c, n, s, b);
            if i.t != scale::<F<C>, _>(&i.t, F::<C>::ZERO) {
                return i;
            }
        }
        inconclusive("no instance with a non-zero inner product".into())
    }

    pub fn twice<D: Digest>(c: &mut Case, i: &SInst<C, V::Extra>) {
        let pw = powers(i.b, i.n);
        let p = c.must("prove (product doubled)", || {
            V::prove_as::<TwiceIP<C::IP>, C::L, D>(&i.extra, &i.a, &pw, i.ck())
        });
        let com_t = i.com_t.clone() + i.com_t.clone();
        c.must_reject("statement with twice the inner product", || {
            Self::verify::<D>(i, (&i.com_a, &com_t), &i.b, &p)
        });
        let p = c.must("prove (left doubled)", || {
            V::prove_as::<C::IP, TwiceC<C::L>, D>(&i.extra, &i.a, &pw, i.ck())
        });
        let com_a = i.com_a.clone() + i.com_a.clone();
        c.must_reject("statement with twice the left commitment", || {
            Self::verify::<D>(i, (&com_a, &i.com_t), &i.b, &p)
        });
    }

    pub fn other_keys<D: Digest>(c: &mut Case, i: &SInst<C, V::Extra>) {
        let swap = i.n > 1 && c.rng.gen_bool(0.5);
        let (x, mut y) = (c.rng.gen_range(0..i.n), c.rng.gen_range(0..i.n));
        if swap && x == y {
            y = (x + 1) % i.n;
        }
        let mut ka = i.ck_a.clone();
        if swap {
            ka.swap(x, y);
        } else {
            let mut r = c.fork();
            ka[x] = C::L::setup(&mut r, 1).expect("setup").pop().unwrap();
        }
        if swap && i.a[x] == i.a[y] {
            return;
        }
        let com_a = C::L::commit(&ka, &i.a).expect("commit");
        let p = c.must("prove (other keys)", || {
            V::prove_as::<C::IP, C::L, D>(&i.extra, &i.a, &powers(i.b, i.n), (&ka, &i.ck_t))
        });
        let what = if swap { "commitment under permuted keys" } else { "commitment under a foreign key" };
        c.must_reject(what, || Self::verify::<D>(i, (&com_a, &i.com_t), &i.b, &p));
        let h = c.must("prove", || Self::prove::<D>(i));
        let q = V::close::<D>(&V::open::<D>(&p).0, &V::open::<D>(&h).1);
        c.must_reject("foreign rounds with the honest tail", || {
            Self::verify::<D>(i, (&com_a, &i.com_t), &i.b, &q)
        });
    }

    /// The right vector is not the powers of the public scalar.
    pub fn unstructured<D: Digest>(c: &mut Case, i: &SInst<C, V::Extra>) {
        if i.n < 2 {
            // the only vector of length one is (1): another multiple is a false claim
            let m = [F::<C>::from(2u64)];
            let p = c.must("prove", || V::prove_as::<C::IP, C::L, D>(&i.extra, &i.a, &m, i.ck()));
            let com_t = i.com_t.clone() + i.com_t.clone();
            c.must_reject("single element, scalar two", || {
                Self::verify::<D>(i, (&i.com_a, &com_t), &i.b, &p)
            });
            return;
        }
        let k = c.rng.gen_range(0..5);
        let mut m = powers(i.b, i.n);
        match k {
            0 => {
                let j = c.rng.gen_range(0..i.n);
                m[j] = F::<C>::rand(&mut c.rng);
            }
            1 => {
                for x in m.iter_mut().skip(2) {
                    *x = F::<C>::rand(&mut c.rng);
                }
            }
            2 => m.reverse(),
            3 => {
                // powers of the square: right at the ends of no round
                m = powers(i.b.square(), i.n);
            }
            _ => {
                let f = nonzero::<F<C>>(&mut c.rng);
                for x in m.iter_mut() {
                    *x *= f;
                }
            }
        }
        let t = naive_msgs::<C>(&i.a, &m);
        if t == i.t {
            return;
        }
        let com_t = C::T::commit(&[i.ck_t.clone()], &[t]).expect("commit");
        let p = c.must("prove (unstructured)", || {
            V::prove_as::<C::IP, C::L, D>(&i.extra, &i.a, &m, i.ck())
        });
        let what = ["one entry off", "tail arbitrary", "reversed", "powers of the square", "scaled"][k];
        c.must_reject(&format!("right vector not the powers: {what}"), || {
            Self::verify::<D>(i, (&i.com_a, &com_t), &i.b, &p)
        });
        // and with the base message the verifier would want to see
        let (mut v, tail) = V::open::<D>(&p);
        let hv = V::open::<D>(&c.must("prove", || Self::prove::<D>(i))).0;
        v.1 .1 = hv.1 .1;
        let q = V::close::<D>(&v, &tail);
        c.must_reject("right vector not the powers, honest base scalar", || {
            Self::verify::<D>(i, (&i.com_a, &com_t), &i.b, &q)
        });
    }

    pub fn statement<D: Digest>(c: &mut Case, i: &SInst<C, V::Extra>) {
        let p = c.must("prove", || Self::prove::<D>(i));
        let a2 = C::left(&mut c.rng, i.n, Shape::Random);
        let dl = C::L::commit(&i.ck_a, &a2).expect("commit");
        let dt = C::T::commit(&[i.ck_t.clone()], &[C::out(&mut c.rng)]).expect("commit");
        let com_a = i.com_a.clone() + dl;
        let com_t = i.com_t.clone() + dt;
        c.must_reject("honest proof, other left commitment", || {
            Self::verify::<D>(i, (&com_a, &i.com_t), &i.b, &p)
        });
        c.must_reject("honest proof, other product", || {
            Self::verify::<D>(i, (&i.com_a, &com_t), &i.b, &p)
        });
        if i.n > 1 {
            let b2 = match c.rng.gen_range(0..4) {
                0 => -i.b,
                1 => i.b.square(),
                2 => i.b + F::<C>::ONE,
                _ => F::<C>::rand(&mut c.rng),
            };
            if naive_msgs::<C>(&i.a, &powers(b2, i.n)) != i.t {
                c.must_reject("honest proof, other scalar", || {
                    Self::verify::<D>(i, i.com(), &b2, &p)
                });
            }
        }
        // tampered proof of a false product
        let (mut v, tail) = V::open::<D>(&p);
        match c.rng.gen_range(0..3) {
            0 => v.1 .0 = C::left(&mut c.rng, 1, Shape::Random).pop().unwrap(),
            1 => v.1 .0 = Default::default(),
            _ => v.0.clear(),
        }
        let q = V::close::<D>(&v, &tail);
        c.must_reject("false product, tampered proof", || {
            Self::verify::<D>(i, (&i.com_a, &com_t), &i.b, &q)
        });
    }

    /// The statement's commitments, or a round's elements, chosen after the challenges.
    pub fn adaptive<D: Digest>(c: &mut Case, i: &SInst<C, V::Extra>) {
        if i.n < 2 {
            return;
        }
        let m = i.n.trailing_zeros() as usize;
        let left = c.rng.gen_bool(0.5);
        let pw = powers(i.b, i.n);
        let a2 = C::left(&mut c.rng, i.n, Shape::Random);
        let dm = C::out(&mut c.rng);
        let dl = C::L::commit(&i.ck_a, &a2).expect("commit");
        let dt = C::T::commit(&[i.ck_t.clone()], &[dm.clone()]).expect("commit");
        let prove = |c: &mut Case, at: usize| {
            if left {
                set_lie(at, ser(&dl), vec![], vec![]);
            } else {
                set_lie(at, vec![], vec![], ser(&dm));
            }
            let p = c.must("prove (shifted)", || {
                V::prove_as::<FullIP<C::IP>, FullC<C::L, 0>, D>(&i.extra, &i.a, &pw, i.ck())
            });
            set_lie(0, vec![], vec![], vec![]);
            p
        };
        let corrected = |f: F<C>| {
            if left {
                (i.com_a.clone() + scale(&dl, f), i.com_t.clone())
            } else {
                (i.com_a.clone(), i.com_t.clone() + scale(&dt, f))
            }
        };
        let j = c.rng.gen_range(0..m);
        let p = prove(c, 1 << j);
        let name = if left { "left" } else { "product" };
        if let Some(xs) = tape_challenges::<F<C>>(m, || {
            let _ = Self::verify::<D>(i, i.com(), &i.b, &p);
        }) {
            let s = corrected(-(xs[j] + xs[j].inverse().unwrap()));
            c.must_reject(&format!("statement's {name} commitment chosen after the challenges"), || {
                Self::verify::<D>(i, (&s.0, &s.1), &i.b, &p)
            });
        }
        let p = prove(c, i.n);
        let s = corrected(F::<C>::ONE);
        if let Some(xs) = tape_challenges::<F<C>>(m, || {
            let _ = Self::verify::<D>(i, (&s.0, &s.1), &i.b, &p);
        }) {
            for j in 0..m {
                for side in 0..2 {
                    let (mut v, tail) = V::open::<D>(&p);
                    let f = if side == 0 { -xs[j].inverse().unwrap() } else { -xs[j] };
                    let e = if side == 0 { &mut v.0[j].0 } else { &mut v.0[j].1 };
                    if left {
                        e.0 = e.0.clone() + scale(&dl, f);
                    } else {
                        e.2 = e.2.clone() + scale(&dt, f);
                    }
                    let q = V::close::<D>(&v, &tail);
                    c.must_reject(&format!("{name} element of a round chosen after its challenge"), || {
                        Self::verify::<D>(i, (&s.0, &s.1), &i.b, &q)
                    });
                }
            }
        }
    }

    /// The public scalar chosen after the proof. Two elements: the rounds are folded from an
    /// arbitrary right vector, and the scalar solved for. Four: another root of the folded scalar.
    pub fn adaptive_scalar<D: Digest>(c: &mut Case) {
        let b = F::<C>::rand(&mut c.rng);
        let i = ssm_inst::<C, V>(c, 2, Shape::Random, b);
        let m: Vec<F<C>> = vec![nonzero(&mut c.rng), nonzero(&mut c.rng)];
        let t = naive_msgs::<C>(&i.a, &m);
        let com_t = C::T::commit(&[i.ck_t.clone()], &[t.clone()]).expect("commit");
        let p = c.must("prove (unstructured)", || {
            V::prove_as::<C::IP, C::L, D>(&i.extra, &i.a, &m, i.ck())
        });
        for guess in [m[1], b] {
            let Some(xs) = tape_challenges::<F<C>>(1, || {
                let _ = Self::verify::<D>(&i, (&i.com_a, &com_t), &guess, &p);
            }) else {
                continue;
            };
            // m0 + m1/x = 1 + b/x
            let b2 = (m[0] + m[1] * xs[0].inverse().unwrap() - F::<C>::ONE) * xs[0];
            if naive_msgs::<C>(&i.a, &powers(b2, 2)) == t {
                continue;
            }
            c.must_reject("scalar chosen after the challenges (solved)", || {
                Self::verify::<D>(&i, (&i.com_a, &com_t), &b2, &p)
            });
            c.event("adaptive scalar solved");
        }
        for _ in 0..16 {
            let b = F::<C>::rand(&mut c.rng);
            let i = ssm_inst::<C, V>(c, 4, Shape::Random, b);
            let p = c.must("prove", || Self::prove::<D>(&i));
            let Some(xs) = tape_challenges::<F<C>>(2, || {
                let _ = Self::verify::<D>(&i, i.com(), &i.b, &p);
            }) else {
                continue;
            };
            let (p1, p2) = (xs[0].inverse().unwrap(), xs[1].inverse().unwrap());
            // (1 + p1 b)(1 + p2 b^2): divide out the honest root
            let b2 = p1 * p2;
            let b1 = p2 + b2 * b;
            let b0 = p1 + b1 * b;
            let disc = b1.square() - b2 * b0 * F::<C>::from(4u64);
            let Some(s) = disc.sqrt() else { continue };
            let other = (s - b1) * b2.double().inverse().unwrap();
            if other == b || naive_msgs::<C>(&i.a, &powers(other, 4)) == i.t {
                continue;
            }
            c.must_reject("scalar chosen after the proof (other root)", || {
                Self::verify::<D>(&i, i.com(), &other, &p)
            });
            c.event("adaptive scalar other root");
            break;
        }
    }
}

/// A final key chosen after the point its evidence is about: a single element under a setup for
/// more, so that the setup hands out what the evidence needs.
pub fn ssm_adaptive_key<C, D: Digest>(c: &mut Case)
where
    C: SCfg + Cfg<L: DHC<Key = <<C as Cfg>::P as Pairing>::G2>>,
{
    let b = F::<C>::rand(&mut c.rng);
    let i = ssm_inst::<C, Trusted>(c, 4, Shape::Random, b);
    let v = &i.extra.1;
    let a = vec![i.a[0].clone()];
    let t = naive_msgs::<C>(&a, &[F::<C>::ONE]);
    let com_t = C::T::commit(&[i.ck_t.clone()], &[t]).expect("commit");
    let com_a = C::L::commit(&[v.h], &a).expect("commit");
    let view: SView<C> = (vec![], (a[0].clone(), F::<C>::ONE));
    let p = <Trusted as Flavour<C>>::close::<D>(&view, &(v.h, G2::<C>::zero()));
    c.must_accept("single element under a larger setup", || {
        S::<C, Trusted>::verify::<D>(&i, (&com_a, &com_t), &b, &p)
    });
    take_tape();
    let _ = guarded(|| S::<C, Trusted>::verify::<D>(&i, (&com_a, &com_t), &b, &p));
    let Some(kc) = take_tape().last().and_then(|d| F::<C>::from_random_bytes(d)) else { return };
    let f: F<C> = nonzero(&mut c.rng);
    let key = v.h + (i.extra.0.h_beta_powers[1] - v.h * kc) * f;
    let com2 = C::L::commit(&[key], &a).expect("commit");
    if com2 == com_a {
        return;
    }
    let q = <Trusted as Flavour<C>>::close::<D>(&view, &(key, v.h * f));
    c.must_reject("final key chosen after its evidence's point", || {
        S::<C, Trusted>::verify::<D>(&i, (&com2, &com_t), &b, &q)
    });
}

pub fn is_zero<K: Zero>(k: &K) -> bool {
    k.is_zero()
}
