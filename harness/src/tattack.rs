//! Adversarial provers for the trusted-setup argument.
use crate::*;
use ark_dh_commitments::DoublyHomomorphicCommitment as DHC;
use ark_ec::pairing::Pairing;
use ark_ff::{Field, One};
use ark_ip_proofs::tipa::*;
use ark_std::rand::Rng;
use digest::Digest;

pub type G1<C> = <<C as Cfg>::P as Pairing>::G1;
pub type G2<C> = <<C as Cfg>::P as Pairing>::G2;
/// Serialised form of a trusted-setup proof.
pub type TView<C> = (GView<C>, (G2<C>, G1<C>), (G2<C>, G1<C>));

pub fn tview<C: TCfg, D: Digest>(p: &TProof<C, D>) -> TView<C> {
    bridge(p)
}

pub struct TInst<C: TCfg> {
    pub srs: SRS<C::P>,
    pub v: VerifierSRS<C::P>,
    pub i: Inst<C>,
    pub r: F<C>,
}

/// An instance with a non-zero product, under keys shifted by r (one: no shift).
pub fn tnontrivial<C: TCfg, D: Digest>(c: &mut Case, n: usize) -> TInst<C> {
    for _ in 0..20 {
        let s = if c.rng.gen_bool(0.7) {
            (Shape::Random, Shape::Random)
        } else {
            (shape(&mut c.rng), Shape::Random)
        };
        let (srs, i) = tipa_inst::<C, D>(c, n, s);
        let r = if c.rng.gen_bool(0.5) { F::<C>::one() } else { nonzero(&mut c.rng) };
        let i = shifted_inst::<C>(&i, r);
        if i.t != scale::<F<C>, _>(&i.t, F::<C>::ZERO) {
            let v = srs.get_verifier_key();
            return TInst { srs, v, i, r };
        }
    }
    inconclusive("no instance with a non-zero inner product".into())
}

pub fn tverify<C: TCfg, D: Digest>(t: &TInst<C>, com: (&OL<C>, &OR<C>, &OT<C>), p: &TProof<C, D>) -> Lib<bool> {
    if t.r.is_one() {
        TArg::<C, D>::verify(&t.v, &t.i.ck_t, com, p)
    } else {
        TArg::<C, D>::verify_with_srs_shift(&t.v, &t.i.ck_t, com, p, &t.r)
    }
}

macro_rules! tprove {
    ($c:expr, $t:expr, $ip:ty, $l:ty, $r:ty, $tt:ty, $ck:expr) => {{
        let t = $t;
        let p = $c.must("prove (adversarial)", || {
            TIPA::<$ip, $l, $r, $tt, C::P, D>::prove_with_srs_shift(
                &t.srs,
                (&t.i.a, &t.i.b),
                $ck,
                &t.r,
            )
        });
        bridge::<_, TProof<C, D>>(&p)
    }};
}

pub fn t_twice<C: TCfg, D: Digest>(c: &mut Case, t: &TInst<C>) {
    let i = &t.i;
    let p = tprove!(c, t, TwiceIP<C::IP>, C::L, C::R, C::T, i.ck());
    let com_t = i.com_t.clone() + i.com_t.clone();
    c.must_reject("statement with twice the inner product", || {
        tverify::<C, D>(t, (&i.com_a, &i.com_b, &com_t), &p)
    });
    let p = tprove!(c, t, C::IP, TwiceC<C::L>, C::R, C::T, i.ck());
    let com_a = i.com_a.clone() + i.com_a.clone();
    c.must_reject("statement with twice the left commitment", || {
        tverify::<C, D>(t, (&com_a, &i.com_b, &i.com_t), &p)
    });
    let p = tprove!(c, t, C::IP, C::L, TwiceC<C::R>, C::T, i.ck());
    let com_b = i.com_b.clone() + i.com_b.clone();
    c.must_reject("statement with twice the right commitment", || {
        tverify::<C, D>(t, (&i.com_a, &com_b, &i.com_t), &p)
    });
}

pub fn t_other_keys<C: TCfg, D: Digest>(c: &mut Case, t: &TInst<C>) {
    let i = &t.i;
    let left = c.rng.gen_bool(0.5);
    let swap = i.n > 1 && c.rng.gen_bool(0.5);
    let (x, mut y) = (c.rng.gen_range(0..i.n), c.rng.gen_range(0..i.n));
    if swap && x == y {
        y = (x + 1) % i.n;
    }
    let (mut ka, mut kb) = (i.ck_a.clone(), i.ck_b.clone());
    match (left, swap) {
        (true, true) => ka.swap(x, y),
        (true, false) => ka[x] = rand_point(&mut c.rng),
        (false, true) => kb.swap(x, y),
        (false, false) => kb[x] = rand_point(&mut c.rng),
    }
    c.note("keys", format!("left={left} swap={swap} {x},{y}"));
    let j = Inst::<C>::with_keys(i.a.clone(), i.b.clone(), (ka, kb, i.ck_t.clone()));
    if swap && ((left && i.a[x] == i.a[y]) || (!left && i.b[x] == i.b[y])) {
        return;
    }
    let p = tprove!(c, t, C::IP, C::L, C::R, C::T, j.ck());
    let what = match (left, swap) {
        (true, true) => "left commitment under permuted keys",
        (true, false) => "left commitment under a foreign key",
        (false, true) => "right commitment under permuted keys",
        (false, false) => "right commitment under a foreign key",
    };
    c.must_reject(what, || tverify::<C, D>(t, j.com(), &p));
    // With the final keys, or the evidence for them, that the true keys would have had.
    let h = tprove!(c, t, C::IP, C::L, C::R, C::T, i.ck());
    let (pv, hv) = (tview::<C, D>(&p), tview::<C, D>(&h));
    let q: TProof<C, D> = bridge::<TView<C>, _>(&(pv.0.clone(), hv.1, hv.2));
    c.must_reject("foreign rounds with honest final keys", || tverify::<C, D>(t, j.com(), &q));
    let q: TProof<C, D> = bridge::<TView<C>, _>(&(pv.0.clone(), pv.1, hv.2));
    c.must_reject("foreign keys with honest evidence", || tverify::<C, D>(t, j.com(), &q));
    let q: TProof<C, D> = bridge::<TView<C>, _>(&(pv.0, pv.1, Default::default()));
    c.must_reject("foreign keys with neutral evidence", || tverify::<C, D>(t, j.com(), &q));
}

pub fn t_statement<C: TCfg, D: Digest>(c: &mut Case, t: &TInst<C>) {
    let i = &t.i;
    let p = tprove!(c, t, C::IP, C::L, C::R, C::T, i.ck());
    let d = offsets::<C>(c, i);
    let k = c.rng.gen_range(0..4);
    let mut s: Stmt<C> = (i.com_a.clone(), i.com_b.clone(), i.com_t.clone());
    if k == 0 || k == 3 {
        s.0 = s.0 + d.0;
    }
    if k == 1 || k == 3 {
        s.1 = s.1 + d.1;
    }
    if k == 2 || k == 3 {
        s.2 = s.2 + d.2;
    }
    let what = ["left", "right", "product", "all"][k];
    c.must_reject(&format!("honest proof, other statement ({what})"), || {
        tverify::<C, D>(t, refs::<C>(&s), &p)
    });
    if i.n > 1 {
        // The shift is part of the statement.
        let r2 = if t.r.is_one() || c.rng.gen_bool(0.5) { nonzero(&mut c.rng) } else { F::<C>::one() };
        c.must_reject("honest proof, other shift", || {
            TArg::<C, D>::verify_with_srs_shift(&t.v, &i.ck_t, i.com(), &p, &r2)
        });
        c.must_reject("honest proof, negated shift", || {
            TArg::<C, D>::verify_with_srs_shift(&t.v, &i.ck_t, i.com(), &p, &-t.r)
        });
        let mut r = c.fork();
        let (srs2, _) = c.must("setup", || TArg::<C, D>::setup(&mut r, i.n));
        let v2 = srs2.get_verifier_key();
        c.must_reject("honest proof, other setup", || {
            TArg::<C, D>::verify_with_srs_shift(&v2, &i.ck_t, i.com(), &p, &t.r)
        });
    }
}

pub fn t_tampered<C: TCfg, D: Digest>(c: &mut Case, t: &TInst<C>) {
    let i = &t.i;
    let d = offsets::<C>(c, i);
    let com_t = i.com_t.clone() + d.2.clone();
    let p = tprove!(c, t, C::IP, C::L, C::R, C::T, i.ck());
    let (mut g, mut k, mut e) = tview::<C, D>(&p);
    let x = c.rng.gen_range(0..9);
    match x {
        0 => g.1 .0 = C::left(&mut c.rng, 1, Shape::Random).pop().unwrap(),
        1 => g.1 .1 = C::right(&mut c.rng, 1, Shape::Random).pop().unwrap(),
        2 => k.0 = rand_point(&mut c.rng),
        3 => k.1 = rand_point(&mut c.rng),
        4 => e.0 = rand_point(&mut c.rng),
        5 => {
            k = Default::default();
            e = Default::default();
        }
        6 => g.0.clear(),
        7 => {
            g.1 = Default::default();
        }
        _ => {
            if let Some(l) = g.0.first_mut() {
                l.0 .2 = l.0 .2.clone() + d.2;
            }
        }
    }
    let q: TProof<C, D> = bridge::<TView<C>, _>(&(g, k, e));
    c.must_reject("false product, tampered proof", || {
        tverify::<C, D>(t, (&i.com_a, &i.com_b, &com_t), &q)
    });
    // The vector of zeros commits to neutral elements: claim a product for it.
    let z: Stmt<C> = (
        scale::<F<C>, _>(&i.com_a, F::<C>::ZERO),
        i.com_b.clone(),
        i.com_t.clone(),
    );
    if z.0 != i.com_a {
        c.must_reject("product claimed of a neutral commitment", || {
            tverify::<C, D>(t, refs::<C>(&z), &p)
        });
    }
}

/// Challenges of the rounds as the verifier derives them, last round first, read off the digest.
pub fn tape_challenges<K: Field>(m: usize, f: impl FnOnce()) -> Option<Vec<K>> {
    take_tape();
    let _ = guarded(f);
    let t = take_tape();
    if t.len() < m {
        return None;
    }
    let mut xs = Vec::new();
    for d in &t[..m] {
        xs.push(chal128::<K>(d).inverse()?);
    }
    xs.reverse();
    Some(xs)
}

const COMP: [&str; 3] = ["left", "right", "product"];

/// Some round lies by a known offset; the statement, or an element of a round, is corrected once
/// the challenges are known.
pub fn t_adaptive<C: TCfg, D: Digest>(c: &mut Case, t: &TInst<C>) {
    let i = &t.i;
    if i.n < 2 {
        return;
    }
    let m = i.n.trailing_zeros() as usize;
    let which = c.rng.gen_range(0..3);
    let (d, dt) = offsets_msg::<C>(c, i);
    let lie = |at: usize| {
        let e = |k: usize, b: Vec<u8>| if k == which { b } else { vec![] };
        set_lie(at, e(0, ser(&d.0)), e(1, ser(&d.1)), e(2, ser(&dt)));
    };
    // (1) the statement after the challenges
    let j = c.rng.gen_range(0..m);
    lie(1 << j);
    let p = tprove!(c, t, FullIP<C::IP>, FullC<C::L, 0>, FullC<C::R, 1>, C::T, i.ck());
    set_lie(0, vec![], vec![], vec![]);
    if let Some(xs) = tape_challenges::<F<C>>(m, || {
        let _ = tverify::<C, D>(t, i.com(), &p);
    }) {
        let mut s: Stmt<C> = (i.com_a.clone(), i.com_b.clone(), i.com_t.clone());
        add_at::<C>(&mut s, which, &d, -(xs[j] + xs[j].inverse().unwrap()));
        c.note("adaptive", format!("statement {} round {j}", COMP[which]));
        c.must_reject(
            &format!("statement's {} commitment chosen after the challenges", COMP[which]),
            || tverify::<C, D>(t, refs::<C>(&s), &p),
        );
    }
    // (2) a round's element after its challenge
    lie(i.n);
    let p = tprove!(c, t, FullIP<C::IP>, FullC<C::L, 0>, FullC<C::R, 1>, C::T, i.ck());
    set_lie(0, vec![], vec![], vec![]);
    let mut s: Stmt<C> = (i.com_a.clone(), i.com_b.clone(), i.com_t.clone());
    add_at::<C>(&mut s, which, &d, F::<C>::ONE);
    if let Some(xs) = tape_challenges::<F<C>>(m, || {
        let _ = tverify::<C, D>(t, refs::<C>(&s), &p);
    }) {
        for j in 0..m {
            for side in 0..2 {
                let (mut g, k, e) = tview::<C, D>(&p);
                if side == 0 {
                    add_at::<C>(&mut g.0[j].0, which, &d, -xs[j].inverse().unwrap());
                } else {
                    add_at::<C>(&mut g.0[j].1, which, &d, -xs[j]);
                }
                let q: TProof<C, D> = bridge::<TView<C>, _>(&(g, k, e));
                c.must_reject(
                    &format!("{} element of a round chosen after its challenge", COMP[which]),
                    || tverify::<C, D>(t, refs::<C>(&s), &q),
                );
            }
        }
    }
}

/// A final key chosen after the point its evidence is about: a single element under a setup for
/// more, so that the setup hands out what the evidence needs.
pub fn t_adaptive_key<C: TCfg, D: Digest>(c: &mut Case) {
    let (srs, i) = tipa_inst::<C, D>(c, 4, (Shape::Random, Shape::Random));
    let v = srs.get_verifier_key();
    let (a, b) = (vec![i.a[0].clone()], vec![i.b[0].clone()]);
    let one = Inst::<C>::with_keys(a, b, (vec![i.ck_a[0]], vec![i.ck_b[0]], i.ck_t.clone()));
    let r = F::<C>::one();
    let f: F<C> = nonzero(&mut c.rng);
    let base = (one.a[0].clone(), one.b[0].clone());
    for side in 0..3 {
        let start: TView<C> = ((vec![], base.clone()), (v.h, v.g), Default::default());
        let p: TProof<C, D> = bridge(&start);
        if side == 0 {
            c.must_accept("single element under a larger setup", || {
                TArg::<C, D>::verify_with_srs_shift(&v, &one.ck_t, one.com(), &p, &r)
            });
        }
        take_tape();
        let _ = guarded(|| TArg::<C, D>::verify(&v, &one.ck_t, one.com(), &p));
        let Some(kc) = take_tape().last().and_then(|d| F::<C>::from_random_bytes(d)) else { continue };
        let (mut k, mut e) = (start.1, start.2);
        if side != 1 {
            k.0 += (srs.h_beta_powers[1] - v.h * kc) * f;
            e.0 = v.h * f;
        }
        if side != 0 {
            k.1 += (srs.g_alpha_powers[1] - v.g * kc) * f;
            e.1 = v.g * f;
        }
        let j = Inst::<C>::with_keys(one.a.clone(), one.b.clone(), (vec![k.0], vec![k.1], i.ck_t.clone()));
        if j.com_a == one.com_a && j.com_b == one.com_b {
            continue;
        }
        let view: TView<C> = ((vec![], base.clone()), k, e);
        let q: TProof<C, D> = bridge(&view);
        let what = ["left", "right", "both"][side];
        c.must_reject(&format!("final key chosen after its evidence's point ({what})"), || {
            TArg::<C, D>::verify(&v, &i.ck_t, j.com(), &q)
        });
    }
}

/// The shift chosen after the proof. With four elements, the folded key polynomial at the
/// evaluation point, (1 + u/r)(1 + v/r^2), takes its value at other r too; with two, the rounds
/// are built so that some r explains them.
pub fn t_adaptive_shift<C: TCfg, D: Digest>(c: &mut Case)
where
    C: Cfg<L: DHC<Message = F<C>>>,
{
    // (1) four elements, other root
    let mut tried = 0;
    for _ in 0..24 {
        let t = tnontrivial::<C, D>(c, 4);
        let i = &t.i;
        let p = tprove!(c, &t, C::IP, C::L, C::R, C::T, i.ck());
        take_tape();
        let _ = tverify::<C, D>(&t, i.com(), &p);
        let tape = take_tape();
        if tape.len() < 3 {
            continue;
        }
        let xs: Vec<F<C>> = vec![chal128(&tape[1]), chal128(&tape[0])]; // inverses, last first
        let Some(kc) = F::<C>::from_random_bytes(&tape[tape.len() - 1]) else { continue };
        // value = (1 + x0 kc^2 w)(1 + x1 kc^4 w^2) in w = 1/r
        let (p1, p2) = (xs[0] * kc.square(), xs[1] * kc.square().square());
        // cubic p1 p2 w^3 + p2 w^2 + p1 w + 1 - value; divide out (w - w0)
        let w0 = t.r.inverse().unwrap();
        let (a3, a2, a1) = (p1 * p2, p2, p1);
        let b2 = a3;
        let b1 = a2 + b2 * w0;
        let b0 = a1 + b1 * w0;
        let disc = b1.square() - b2 * b0 * F::<C>::from(4u64);
        let Some(s) = disc.sqrt() else { continue };
        let w = (s - b1) * (b2.double()).inverse().unwrap();
        let Some(r2) = w.inverse() else { continue };
        if r2 == t.r {
            continue;
        }
        tried += 1;
        c.must_reject("shift chosen after the proof (other root)", || {
            TArg::<C, D>::verify_with_srs_shift(&t.v, &i.ck_t, i.com(), &p, &r2)
        });
        if tried == 3 {
            break;
        }
    }
    if tried > 0 {
        c.event("adaptive shift by other root tried");
    }
}

pub fn offsets_msg<C: Cfg>(c: &mut Case, i: &Inst<C>) -> (Stmt<C>, MT<C>) {
    let a = C::left(&mut c.rng, i.n, Shape::Random);
    let b = C::right(&mut c.rng, i.n, Shape::Random);
    let t = C::out(&mut c.rng);
    (commit_all::<C>(&a, &b, &t, i.ck()), t)
}

/// Two elements: the rounds are built first, the shift that explains them afterwards. The product
/// claimed is false for that shift.
pub fn t_adaptive_shift_built<D: Digest>(c: &mut Case) {
    use ark_dh_commitments::identity::IdentityOutput;
    type C = ScalarCfg<B381>;
    type K = F<C>;
    let (srs, i) = tipa_inst::<C, D>(c, 2, (Shape::Random, Shape::Random));
    let v = srs.get_verifier_key();
    let mut s = || nonzero::<K>(&mut c.rng);
    let (a0, a1, l0, l1, r1) = (s(), s(), s(), s(), s());
    let (b0, b1) = (i.b[0], i.b[1]);
    let (k0, k1) = (i.ck_a[0], i.ck_a[1]);
    let com: Stmt<C> = (k0 * a0 + k1 * a1, i.com_b, IdentityOutput(vec![a0 * b0 + l0 * b1]));
    let first = (k0 * l0 + k1 * l1, i.ck_b[1] * b0, IdentityOutput(vec![l0 * b0]));
    let second = (k1 * r1, i.ck_b[0] * b1, IdentityOutput(vec![a0 * b1]));
    let rounds = vec![(first, second)];
    let view: TView<C> = ((rounds.clone(), Default::default()), Default::default(), Default::default());
    let p: TProof<C, D> = bridge(&view);
    let Some(xs) = tape_challenges::<K>(1, || {
        let _ = TArg::<C, D>::verify(&v, &i.ck_t, refs::<C>(&com), &p);
    }) else {
        return;
    };
    let x = xs[0];
    let xi = x.inverse().unwrap();
    let f0 = x * l0 + a0;
    let f1 = x * l1 + a1 + xi * r1;
    let r = xi * f0 * f1.inverse().unwrap();
    let ri = r.inverse().unwrap();
    if l0 == a1 * r {
        return;
    }
    let ck = (k0 + k1 * (xi * ri), i.ck_b[0] + i.ck_b[1] * x);
    let base = (f0, b0 + xi * b1);
    let view: TView<C> = ((rounds.clone(), base), ck, Default::default());
    let p: TProof<C, D> = bridge(&view);
    take_tape();
    let _ = guarded(|| TArg::<C, D>::verify_with_srs_shift(&v, &i.ck_t, refs::<C>(&com), &p, &r));
    let tape = take_tape();
    let Some(kc) = tape.last().and_then(|d| K::from_random_bytes(d)) else { return };
    let oa = prove_commitment_key_kzg_opening(&srs.h_beta_powers, &vec![xi], &ri, &kc);
    let ob = prove_commitment_key_kzg_opening(&srs.g_alpha_powers, &vec![x], &K::ONE, &kc);
    let (Ok(oa), Ok(ob)) = (oa, ob) else { return };
    let view: TView<C> = ((rounds, base), ck, (oa, ob));
    let p: TProof<C, D> = bridge(&view);
    c.note("r", r);
    c.must_reject("shift chosen after the challenges (rounds built for it)", || {
        TArg::<C, D>::verify_with_srs_shift(&v, &i.ck_t, refs::<C>(&com), &p, &r)
    });
}
