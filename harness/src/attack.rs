//! Adversarial provers for the inner-product argument. Every attack ends with a statement that is
//! false (or one whose opening the prover cannot know) and a proof; the verifier must not accept.
use crate::*;
use ark_ff::Field;
use ark_ip_proofs::gipa::*;
use ark_std::rand::Rng;
use digest::Digest;

pub type Stmt<C> = (OL<C>, OR<C>, OT<C>);
pub fn refs<C: Cfg>(s: &Stmt<C>) -> (&OL<C>, &OR<C>, &OT<C>) {
    (&s.0, &s.1, &s.2)
}

/// A non-zero offset in each commitment group.
pub fn offsets<C: Cfg>(c: &mut Case, i: &Inst<C>) -> Stmt<C> {
    let a = C::left(&mut c.rng, i.n, Shape::Random);
    let b = C::right(&mut c.rng, i.n, Shape::Random);
    let t = C::out(&mut c.rng);
    commit_all::<C>(&a, &b, &t, i.ck())
}

pub fn nontrivial<C: Cfg, D: Digest>(c: &mut Case, n: usize) -> Inst<C> {
    for _ in 0..20 {
        let s = if c.rng.gen_bool(0.7) {
            (Shape::Random, Shape::Random)
        } else {
            (shape(&mut c.rng), Shape::Random)
        };
        let i = Inst::<C>::gipa::<D>(c, n, s);
        let z = scale::<F<C>, _>(&i.t, F::<C>::ZERO);
        if i.t != z {
            return i;
        }
    }
    inconclusive("no instance with a non-zero inner product".into())
}

pub fn twice_ip<C: Cfg, D: Digest>(c: &mut Case, i: &Inst<C>) {
    let (p, _) = c.must("prove (product doubled)", || {
        GIPA::<TwiceIP<C::IP>, C::L, C::R, C::T, D>::prove_with_aux(
            (&i.a, &i.b),
            (&i.ck_a, &i.ck_b, &[i.ck_t.clone()]),
        )
    });
    let p: Proof<C, D> = bridge(&p);
    let com_t = i.com_t.clone() + i.com_t.clone();
    c.must_reject("statement with twice the inner product", || {
        gipa_verify::<C, D>(i.ck(), (&i.com_a, &i.com_b, &com_t), &p)
    });
}

pub fn twice_left<C: Cfg, D: Digest>(c: &mut Case, i: &Inst<C>) {
    let (p, _) = c.must("prove (left doubled)", || {
        GIPA::<C::IP, TwiceC<C::L>, C::R, C::T, D>::prove_with_aux(
            (&i.a, &i.b),
            (&i.ck_a, &i.ck_b, &[i.ck_t.clone()]),
        )
    });
    let p: Proof<C, D> = bridge(&p);
    let com_a = i.com_a.clone() + i.com_a.clone();
    c.must_reject("statement with twice the left commitment", || {
        gipa_verify::<C, D>(i.ck(), (&com_a, &i.com_b, &i.com_t), &p)
    });
}

pub fn twice_right<C: Cfg, D: Digest>(c: &mut Case, i: &Inst<C>) {
    let (p, _) = c.must("prove (right doubled)", || {
        GIPA::<C::IP, C::L, TwiceC<C::R>, C::T, D>::prove_with_aux(
            (&i.a, &i.b),
            (&i.ck_a, &i.ck_b, &[i.ck_t.clone()]),
        )
    });
    let p: Proof<C, D> = bridge(&p);
    let com_b = i.com_b.clone() + i.com_b.clone();
    c.must_reject("statement with twice the right commitment", || {
        gipa_verify::<C, D>(i.ck(), (&i.com_a, &com_b, &i.com_t), &p)
    });
}

/// The prover works under other keys: two swapped, or one replaced.
pub fn other_keys<C: Cfg, D: Digest>(c: &mut Case, i: &Inst<C>) {
    let left = c.rng.gen_bool(0.5);
    let swap = i.n > 1 && c.rng.gen_bool(0.5);
    let mut r = c.fork();
    let fresh = c.must("setup", || Arg::<C, D>::setup(&mut r, 1));
    let (x, mut y) = (c.rng.gen_range(0..i.n), c.rng.gen_range(0..i.n));
    if swap && x == y {
        y = (x + 1) % i.n;
    }
    let (mut ka, mut kb) = (i.ck_a.clone(), i.ck_b.clone());
    match (left, swap) {
        (true, true) => ka.swap(x, y),
        (true, false) => ka[x] = fresh.0[0].clone(),
        (false, true) => kb.swap(x, y),
        (false, false) => kb[x] = fresh.1[0].clone(),
    }
    c.note("keys", format!("left={left} swap={swap} {x},{y}"));
    let j = Inst::<C>::with_keys(i.a.clone(), i.b.clone(), (ka, kb, i.ck_t.clone()));
    if swap && ((left && i.a[x] == i.a[y]) || (!left && i.b[x] == i.b[y])) {
        return;
    }
    let p = c.must("prove (other keys)", || gipa_prove::<C, D>(&j));
    let what = match (left, swap) {
        (true, true) => "left commitment under permuted keys",
        (true, false) => "left commitment under a foreign key",
        (false, true) => "right commitment under permuted keys",
        (false, false) => "right commitment under a foreign key",
    };
    c.must_reject(what, || gipa_verify::<C, D>(i.ck(), j.com(), &p));
}

/// An honest proof presented for another statement.
pub fn swapped_statement<C: Cfg, D: Digest>(c: &mut Case, i: &Inst<C>) {
    let p = c.must("prove", || gipa_prove::<C, D>(i));
    let d = offsets::<C>(c, i);
    let k = c.rng.gen_range(0..4);
    let mut s: Stmt<C> = (i.com_a.clone(), i.com_b.clone(), i.com_t.clone());
    if k == 0 || k == 3 {
        s.0 = s.0 + d.0;
    }
    if k == 1 || k == 3 {
        s.1 = s.1 + d.1;
    }
    if k == 2 || k == 3 {
        s.2 = s.2 + d.2;
    }
    let what = ["left", "right", "product", "all"][k];
    c.must_reject(&format!("honest proof, other statement ({what})"), || {
        gipa_verify::<C, D>(i.ck(), refs::<C>(&s), &p)
    });
    // The claim "the product is zero" and "the commitments are neutral" in particular.
    let z: Stmt<C> = (
        scale::<F<C>, _>(&i.com_a, F::<C>::ZERO),
        scale::<F<C>, _>(&i.com_b, F::<C>::ZERO),
        scale::<F<C>, _>(&i.com_t, F::<C>::ZERO),
    );
    if z.2 != i.com_t {
        c.must_reject("honest proof, product claimed zero", || {
            gipa_verify::<C, D>(i.ck(), (&i.com_a, &i.com_b, &z.2), &p)
        });
    }
    if z.0 != i.com_a {
        c.must_reject("honest proof, left commitment claimed neutral", || {
            gipa_verify::<C, D>(i.ck(), (&z.0, &i.com_b, &i.com_t), &p)
        });
    }
}

/// One of the base messages, or a round's element, replaced while the statement is false.
pub fn tampered_false<C: Cfg, D: Digest>(c: &mut Case, i: &Inst<C>) {
    let d = offsets::<C>(c, i);
    let com_t = i.com_t.clone() + d.2.clone();
    let p = c.must("prove", || gipa_prove::<C, D>(i));
    let (mut rounds, mut base) = bridge::<_, GView<C>>(&p);
    let k = c.rng.gen_range(0..6);
    match k {
        0 => base.0 = C::left(&mut c.rng, 1, Shape::Random).pop().unwrap(),
        1 => base.1 = C::right(&mut c.rng, 1, Shape::Random).pop().unwrap(),
        2 if !rounds.is_empty() => {
            let j = c.rng.gen_range(0..rounds.len());
            rounds[j].0 .2 = rounds[j].0 .2.clone() + d.2;
        }
        3 if !rounds.is_empty() => {
            let j = c.rng.gen_range(0..rounds.len());
            rounds[j].1 .2 = rounds[j].1 .2.clone() + neg::<F<C>, _>(&d.2);
        }
        4 if !rounds.is_empty() => {
            rounds.pop();
        }
        5 if !rounds.is_empty() => rounds.clear(),
        _ => base.0 = Default::default(),
    }
    let v: GView<C> = (rounds, base);
    let q: Proof<C, D> = bridge(&v);
    c.must_reject("false product, tampered proof", || {
        gipa_verify::<C, D>(i.ck(), (&i.com_a, &i.com_b, &com_t), &q)
    });
}

/// Drops or adds whole rounds: a proof for vectors of another length.
pub fn wrong_length<C: Cfg, D: Digest>(c: &mut Case, i: &Inst<C>) {
    if i.n < 2 {
        return;
    }
    let h = i.n / 2;
    let front = c.rng.gen_bool(0.5);
    let (r, name) = if front { (0..h, "first") } else { (h..i.n, "second") };
    let j = Inst::<C>::with_keys(
        i.a[r.clone()].to_vec(),
        i.b[r.clone()].to_vec(),
        (i.ck_a[r.clone()].to_vec(), i.ck_b[r].to_vec(), i.ck_t.clone()),
    );
    let p = c.must("prove (half)", || gipa_prove::<C, D>(&j));
    let s: Stmt<C> = (i.com_a.clone(), i.com_b.clone(), j.com_t.clone());
    if j.com_t == i.com_t {
        return;
    }
    c.must_reject(&format!("proof of the {name} half for the whole"), || {
        gipa_verify::<C, D>(i.ck(), refs::<C>(&s), &p)
    });
    c.must_reject("proof for a statement over longer keys", || {
        gipa_verify::<C, D>(i.ck(), j.com(), &p)
    });
}

// ------------------------------------------------------------- adaptive attacks (Fiat-Shamir)

/// Offsets in the three commitment groups; the product's message offset is kept aside for the lying
/// inner product, which adds messages and not commitments.
fn lie_offsets<C: Cfg>(c: &mut Case, i: &Inst<C>) -> Stmt<C> {
    let a = C::left(&mut c.rng, i.n, Shape::Random);
    let b = C::right(&mut c.rng, i.n, Shape::Random);
    let t = C::out(&mut c.rng);
    let com = commit_all::<C>(&a, &b, &t, i.ck());
    TMSG.with(|x| *x.borrow_mut() = ser(&t));
    com
}
thread_local! {
    static TMSG: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(vec![]) };
}

/// The adversary's proof: honest except that the component `which` is shifted wherever a vector
/// of length `at` is committed.
fn shift_proof<C: Cfg, D: Digest>(
    c: &mut Case,
    i: &Inst<C>,
    at: usize,
    which: usize,
    d: &Stmt<C>,
) -> Proof<C, D> {
    let e = |k: usize, b: Vec<u8>| if k == which { b } else { vec![] };
    let t = TMSG.with(|x| x.borrow().clone());
    set_lie(at, e(0, ser(&d.0)), e(1, ser(&d.1)), e(2, t));
    let r = c.must("prove (shifted)", || {
        GIPA::<FullIP<C::IP>, FullC<C::L, 0>, FullC<C::R, 1>, C::T, D>::prove_with_aux(
            (&i.a, &i.b),
            (&i.ck_a, &i.ck_b, &[i.ck_t.clone()]),
        )
    });
    set_lie(0, vec![], vec![], vec![]);
    bridge(&r.0)
}

pub fn add_at<C: Cfg>(s: &mut Stmt<C>, which: usize, d: &Stmt<C>, f: F<C>) {
    match which {
        0 => s.0 = s.0.clone() + scale::<F<C>, _>(&d.0, f),
        1 => s.1 = s.1.clone() + scale::<F<C>, _>(&d.1, f),
        _ => s.2 = s.2.clone() + scale::<F<C>, _>(&d.2, f),
    }
}

const COMP: [&str; 3] = ["left", "right", "product"];

/// Picks a statement component after seeing the challenges: some round lies by a known offset and
/// the statement is corrected to match.
pub fn adaptive_statement<C: Cfg, D: Digest>(c: &mut Case, i: &Inst<C>) {
    if i.n < 2 {
        return;
    }
    let m = i.n.trailing_zeros();
    let which = c.rng.gen_range(0..3);
    let j = c.rng.gen_range(0..m) as usize;
    let d = lie_offsets::<C>(c, i);
    let p = shift_proof::<C, D>(c, i, 1 << j, which, &d);
    let (_, xs) = c.must("transcript", || {
        GIPA::<C::IP, C::L, C::R, C::T, D>::verify_recursive_challenge_transcript(i.com(), &p)
    });
    let x = xs[j];
    let mut s: Stmt<C> = (i.com_a.clone(), i.com_b.clone(), i.com_t.clone());
    add_at::<C>(&mut s, which, &d, -(x + x.inverse().unwrap()));
    c.note("adaptive", format!("statement {} round {j}", COMP[which]));
    c.must_reject(
        &format!("statement's {} commitment chosen after the challenges", COMP[which]),
        || gipa_verify::<C, D>(i.ck(), refs::<C>(&s), &p),
    );
}

/// Picks one element of one round after seeing that round's challenge, for a false statement.
pub fn adaptive_round<C: Cfg, D: Digest>(c: &mut Case, i: &Inst<C>) {
    if i.n < 2 {
        return;
    }
    let m = i.n.trailing_zeros() as usize;
    let d = lie_offsets::<C>(c, i);
    for which in 0..3 {
        let p = shift_proof::<C, D>(c, i, i.n, which, &d);
        let mut s: Stmt<C> = (i.com_a.clone(), i.com_b.clone(), i.com_t.clone());
        add_at::<C>(&mut s, which, &d, F::<C>::ONE);
        let (_, xs) = c.must("transcript", || {
            GIPA::<C::IP, C::L, C::R, C::T, D>::verify_recursive_challenge_transcript(
                refs::<C>(&s),
                &p,
            )
        });
        c.must_reject("false statement, honest rounds", || {
            gipa_verify::<C, D>(i.ck(), refs::<C>(&s), &p)
        });
        for j in 0..m {
            for side in 0..2 {
                let (mut rounds, base) = bridge::<_, GView<C>>(&p);
                if side == 0 {
                    add_at::<C>(&mut rounds[j].0, which, &d, -xs[j].inverse().unwrap());
                } else {
                    add_at::<C>(&mut rounds[j].1, which, &d, -xs[j]);
                }
                let q: Proof<C, D> = bridge::<GView<C>, _>(&(rounds, base));
                let what = format!(
                    "{} element of a round's {} message chosen after its challenge",
                    COMP[which],
                    ["first", "second"][side]
                );
                c.must_reject(&what, || gipa_verify::<C, D>(i.ck(), refs::<C>(&s), &q));
            }
        }
    }
}
