//! C10: every challenge depends on the whole statement and all earlier messages.
use ark_ec::{pairing::*, AffineRepr, CurveGroup};
use ark_ff::{One, UniformRand};
use ark_ip_proofs::applications::groth16_aggregation::*;
use ark_std::rand::Rng;
use blake2::{Blake2b, Blake2s};
use digest::Digest;
use ripp_mon::*;
use std::collections::HashSet;

type Tape = HashSet<Vec<u8>>;

/// The digests a call computes, as a set.
fn tape(f: impl FnOnce()) -> Tape {
    take_tape();
    let _ = guarded(f);
    take_tape().into_iter().collect()
}

/// At least `m` digests (challenges) of `new` are none of `old`.
fn changed(c: &mut Case, what: &str, old: &Tape, new: &Tape, m: usize) {
    c.event(&format!("challenges after: {what}"));
    c.events_n("challenges compared", m as u64);
    let d = new.difference(old).count();
    if m > 0 && d < m {
        violated(format!("{what}: only {d} of {m} later challenges changed"));
    }
}
fn same(c: &mut Case, what: &str, p: &Tape, v: &Tape, m: usize) {
    c.events_n("prover and verifier challenges compared", m as u64);
    let d = v.intersection(p).count();
    c.check_with(what, d >= m, || format!("prover and verifier agree on {d} of at least {m} digests"));
}

/// Messages of the rounds, every component of every round moved (last round first on the wire).
macro_rules! rounds {
    ($c:expr, $rounds:expr, $comps:expr, $extra:expr, $old:expr, $d:expr, $run:expr) => {{
        let m = $rounds.len();
        for j in 0..m {
            // wire index j is round m - 1 - j: j + 1 round challenges are still to come
            for side in 0..2usize {
                for k in 0..$comps {
                    let mut r = $rounds.clone();
                    let x = if side == 0 { &mut r[j].0 } else { &mut r[j].1 };
                    match k {
                        0 => x.0 = x.0.clone() + $d.0.clone(),
                        1 => x.2 = x.2.clone() + $d.1.clone(),
                        _ => x.1 = x.1.clone() + $d.2.clone(),
                    }
                    let what = ["left", "product", "right"][k];
                    let side_s = ["first", "second"][side];
                    let t = $run(r);
                    changed($c, &format!("{what} element of a {side_s} message"), &$old, &t, j + 1 + $extra);
                }
            }
            let mut r = $rounds.clone();
            let (a, b) = r[j].clone();
            if ser(&a) != ser(&b) {
                r[j] = (b, a);
                let t = $run(r);
                changed($c, "messages of a round exchanged", &$old, &t, j + 1 + $extra);
            }
        }
        if m > 1 && ser(&$rounds[0]) != ser(&$rounds[m - 1]) {
            let mut r = $rounds.clone();
            r.swap(0, m - 1);
            let t = $run(r);
            changed($c, "first and last round exchanged", &$old, &t, m + $extra);
        }
    }};
}

fn size(c: &mut Case, mq: u32, mt: u32) -> usize {
    let max = if c.tier == Tier::Thorough { mt } else { mq };
    let i = c.i / 2 + 1;
    let n = pow2(i, &mut c.rng, max).max(2);
    c.note("n", n);
    n
}

fn gipa<C: Cfg, D: Digest>(mq: u32, mt: u32) -> impl Fn(&mut Case) {
    move |c| {
        let n = size(c, mq, mt);
        let m = n.trailing_zeros() as usize;
        c.note("cfg", C::NAME);
        c.event(&format!("gipa {}", C::NAME));
        let i = nontrivial::<C, D>(c, n);
        c.key(&(i.a.clone(), i.b.clone()));
        let d = offsets::<C>(c, &i);
        take_tape();
        let p = c.must("prove", || gipa_prove::<C, D>(&i));
        let tp: Tape = take_tape().into_iter().collect();
        let run = |com: (&OL<C>, &OR<C>, &OT<C>), p: &Proof<C, D>| {
            tape(|| {
                let _ = gipa_verify::<C, D>(i.ck(), com, p);
            })
        };
        let old = run(i.com(), &p);
        same(c, "prover and verifier agree", &tp, &old, m);
        for k in 0..3 {
            let mut s: Stmt<C> = (i.com_a.clone(), i.com_b.clone(), i.com_t.clone());
            add_at::<C>(&mut s, k, &d, F::<C>::one());
            let t = run(refs::<C>(&s), &p);
            changed(c, ["left commitment", "right commitment", "product"][k], &old, &t, m);
        }
        let v: GView<C> = bridge(&p);
        let dd = (d.0.clone(), d.2.clone(), d.1.clone());
        rounds!(c, v.0, 3, 0, old, dd, |r| {
            let q: Proof<C, D> = bridge::<GView<C>, _>(&(r, v.1.clone()));
            run(i.com(), &q)
        });
        adaptive_round::<C, D>(c, &i);
        adaptive_statement::<C, D>(c, &i);
    }
}

fn tipa<C: TCfg, D: Digest>(mq: u32, mt: u32) -> impl Fn(&mut Case) {
    move |c| {
        let n = size(c, mq, mt);
        let m = n.trailing_zeros() as usize;
        c.note("cfg", C::NAME);
        c.event(&format!("tipa {}", C::NAME));
        let mut t = tnontrivial::<C, D>(c, n);
        c.key(&(t.i.a.clone(), t.i.b.clone()));
        let d = offsets::<C>(c, &t.i);
        take_tape();
        let p = c.must("prove", || {
            TArg::<C, D>::prove_with_srs_shift(&t.srs, (&t.i.a, &t.i.b), t.i.ck(), &t.r)
        });
        let tp: Tape = take_tape().into_iter().collect();
        let run = |t: &TInst<C>, com: (&OL<C>, &OR<C>, &OT<C>), p: &TProof<C, D>| {
            tape(|| {
                let _ = tverify::<C, D>(t, com, p);
            })
        };
        let old = run(&t, t.i.com(), &p);
        same(c, "prover and verifier agree", &tp, &old, m + 1);
        for k in 0..3 {
            let mut s: Stmt<C> = (t.i.com_a.clone(), t.i.com_b.clone(), t.i.com_t.clone());
            add_at::<C>(&mut s, k, &d, F::<C>::one());
            let tt = run(&t, refs::<C>(&s), &p);
            changed(c, ["left commitment", "right commitment", "product"][k], &old, &tt, m + 1);
        }
        let v = tview::<C, D>(&p);
        let dd = (d.0.clone(), d.2.clone(), d.1.clone());
        rounds!(c, v.0 .0, 3, 1, old, dd, |r| {
            let w: TView<C> = ((r, v.0 .1.clone()), v.1, v.2);
            run(&t, t.i.com(), &bridge(&w))
        });
        // the final keys precede the point their evidence is about
        let mut w = v.clone();
        w.1 .0 += g2::<C::P>();
        let tt = run(&t, t.i.com(), &bridge(&w));
        changed(c, "final left key", &old, &tt, 1);
        let mut w = v.clone();
        w.1 .1 += g1::<C::P>();
        let tt = run(&t, t.i.com(), &bridge(&w));
        changed(c, "final right key", &old, &tt, 1);
        t_adaptive::<C, D>(c, &t);
        t.r += nonzero::<F<C>>(&mut c.rng);
        let tt = run(&t, t.i.com(), &p);
        changed(c, "shift", &old, &tt, m + 1);
    }
}

fn ssm<C: SCfg, V: Flavour<C>, D: Digest>(extra: usize, mq: u32, mt: u32) -> impl Fn(&mut Case) {
    move |c| {
        let n = size(c, mq, mt);
        let m = n.trailing_zeros() as usize;
        c.note("cfg", C::NAME);
        c.event(&format!("powers {} {}", V::NAME, C::NAME));
        let i = S::<C, V>::nontrivial(c, n);
        c.key(&(i.a.clone(), i.b));
        take_tape();
        let p = c.must("prove", || S::<C, V>::prove::<D>(&i));
        let tp: Tape = take_tape().into_iter().collect();
        let run = |com: (&OL<C>, &OT<C>), b: &F<C>, p: &V::Proof<D>| {
            tape(|| {
                let _ = S::<C, V>::verify::<D>(&i, com, b, p);
            })
        };
        let old = run(i.com(), &i.b, &p);
        same(c, "prover and verifier agree", &tp, &old, m + extra);
        // offsets: commitments of one more random message
        let da = C::left(&mut c.rng, n, Shape::Random);
        let x = ssm_with_offsets::<C, V>(&i, da);
        let s = i.com_a.clone() + x.0.clone();
        let t = run((&s, &i.com_t), &i.b, &p);
        changed(c, "left commitment", &old, &t, m + extra);
        let s = i.com_t.clone() + x.1.clone();
        let t = run((&i.com_a, &s), &i.b, &p);
        changed(c, "product", &old, &t, m + extra);
        let b = i.b + nonzero::<F<C>>(&mut c.rng);
        let t = run(i.com(), &b, &p);
        changed(c, "public scalar", &old, &t, m + extra);
        let (v, tail) = V::open::<D>(&p);
        let dd = (x.0.clone(), x.1.clone(), F::<C>::one());
        rounds!(c, v.0, 2, extra, old, dd, |r| {
            let q = V::close::<D>(&(r, v.1.clone()), &tail);
            run(i.com(), &i.b, &q)
        });
        S::<C, V>::adaptive::<D>(c, &i);
    }
}

/// Commitment offsets from another message.
fn ssm_with_offsets<C: SCfg, V: Flavour<C>>(i: &SInst<C, V::Extra>, da: Vec<ML<C>>) -> (OL<C>, OT<C>) {
    use ark_dh_commitments::DoublyHomomorphicCommitment as DHC;
    let t = naive_msgs::<C>(&da, &powers(F::<C>::one() + F::<C>::one(), i.n));
    (
        C::L::commit(&i.ck_a, &da).expect("commit"),
        C::T::commit(&[i.ck_t.clone()], &[t]).expect("commit"),
    )
}

fn tail_key<C: SCfg + Cfg<P = B381>>(c: &mut Case)
where
    Trusted: Flavour<C, Tail = (G2<C>, G2<C>)>,
{
    let n = size(c, 3, 6);
    let i = S::<C, Trusted>::nontrivial(c, n);
    c.key(&(i.a.clone(), i.b));
    let p = c.must("prove", || S::<C, Trusted>::prove::<RecD<Blake2b>>(&i));
    let run = |p: &<Trusted as Flavour<C>>::Proof<RecD<Blake2b>>| {
        tape(|| {
            let _ = S::<C, Trusted>::verify::<RecD<Blake2b>>(&i, i.com(), &i.b, p);
        })
    };
    let old = run(&p);
    let (v, mut tail) = <Trusted as Flavour<C>>::open::<RecD<Blake2b>>(&p);
    tail.0 += g2::<B381>() * F::<C>::rand(&mut c.rng);
    let t = run(&<Trusted as Flavour<C>>::close::<RecD<Blake2b>>(&v, &tail));
    changed(c, "final key (powers)", &old, &t, 1);
}

fn sipp<P: Pairing>(mq: u32, mt: u32) -> impl Fn(&mut Case) {
    move |c| {
        // one size whose statement fills hundreds of kilobytes
        let n = if mq > 7 { 1 << mq } else { size(c, mq, mt) };
        let m = n.trailing_zeros() as usize;
        c.event("sipp");
        let i = Sip::<P>::nontrivial(c, n);
        c.key(&(i.a.clone(), i.b.clone(), i.r.clone()));
        take_tape();
        let p = c.must("prove", || i.prove::<RecD<Blake2s>>());
        let tp: Tape = take_tape().into_iter().collect();
        let run = |i: &Sip<P>, p: &ark_sipp::Proof<P>| {
            tape(|| {
                let _ = i.verify::<RecD<Blake2s>>(p);
            })
        };
        let old = run(&i, &p);
        same(c, "prover and verifier agree", &tp, &old, m);
        let js = [0, n - 1, c.rng.gen_range(0..n)];
        for j in js {
            let mut x = i.clone();
            x.a[j] = (x.a[j].into_group() + g1::<P>()).into_affine();
            let t = run(&x, &p);
            changed(c, "left point", &old, &t, m);
            let mut x = i.clone();
            x.b[j] = (x.b[j].into_group() + g2::<P>()).into_affine();
            let t = run(&x, &p);
            changed(c, "right point", &old, &t, m);
            let mut x = i.clone();
            x.r[j] += Fr::<P>::one();
            let t = run(&x, &p);
            changed(c, "scalar", &old, &t, m);
        }
        let mut x = i.clone();
        x.v += egh::<P>();
        let t = run(&x, &p);
        changed(c, "value", &old, &t, m);
        for j in 0..m {
            for side in 0..2 {
                let q = moved::<P>(&p, j, side, egh::<P>());
                let t = run(&i, &q);
                changed(c, ["first element of a round", "second element of a round"][side], &old, &t, m - j);
            }
            let mut g = p.gt_elems().to_vec();
            if g[j].0 != g[j].1 {
                g[j] = (g[j].1, g[j].0);
                let t = run(&i, &ark_sipp::Proof::from_gt_elems(g));
                changed(c, "elements of a round exchanged", &old, &t, m - j);
            }
        }
        // The prover's challenges likewise.
        let mut x = i.clone();
        x.v += egh::<P>();
        take_tape();
        let _ = guarded(|| x.prove::<RecD<Blake2s>>());
        let t: Tape = take_tape().into_iter().collect();
        changed(c, "value (prover)", &tp, &t, m);
    }
}

fn aggregate<P: Pairing, D: Digest>(c: &mut Case) {
    let n = size(c, 3, 5);
    let m = n.trailing_zeros() as usize;
    c.event("aggregate");
    let b = Batch::<P>::simulated::<D>(c, n, 2);
    c.key(&(b.a.clone(), b.b.clone(), b.x.clone()));
    take_tape();
    let p = c.must("aggregate", || b.aggregate::<D>());
    let tp: Tape = take_tape().into_iter().collect();
    let run = |v: &AggView<P>| {
        let q: AggregateProof<P, D> = bridge(v);
        tape(|| {
            let _ = b.verify::<D>(&q);
        })
    };
    let v: AggView<P> = bridge(&p);
    let old = run(&v);
    let all = 1 + 2 * (m + 1);
    same(c, "prover and verifier agree", &tp, &old, all);
    let e = egh::<P>();
    for k in 0..3 {
        let mut w = v.clone();
        match k {
            0 => w.0 .0 += e,
            1 => w.0 .1 += e,
            _ => w.0 .2 += e,
        }
        let t = run(&w);
        changed(c, ["commitment to a", "commitment to b", "commitment to c"][k], &old, &t, all);
    }
    let mut w = v.clone();
    w.1 .0 += e;
    let t = run(&w);
    changed(c, "aggregate product", &old, &t, m + 1);
    let mut w = v.clone();
    w.1 .1 += g1::<P>();
    let t = run(&w);
    changed(c, "aggregate sum", &old, &t, m + 1);
    // The randomiser separates the commitments: exchanged, all changes.
    let mut w = v.clone();
    w.0 = (v.0 .2, v.0 .1, v.0 .0);
    let t = run(&w);
    changed(c, "commitments exchanged", &old, &t, all);
}

fn poly<P: Pairing, S: Pc<P>, D: Digest>(transparent: bool) -> impl Fn(&mut Case) {
    move |c| {
        let l = if c.tier == Tier::Thorough { 4 } else { 3 };
        let (lx, ly) = (c.rng.gen_range(1..l) as usize, c.rng.gen_range(1..l) as usize);
        c.note("degrees", format!("{},{}", (1 << lx) - 1, (1 << ly) - 1));
        c.event(&format!("polynomial {}", S::NAME));
        let i = M::<P, S>::inst(c, (1 << lx) - 1, (1 << ly) - 1);
        c.key(&(i.rows.clone(), i.z));
        take_tape();
        let o = c.must("open", || M::<P, S>::open::<D>(&i));
        let tp: Tape = take_tape().into_iter().collect();
        let run = |com: &PairingOutput<P>, z: &(Fp<P>, Fp<P>), e: &Fp<P>, o: &S::Open<D>| {
            tape(|| {
                let _ = S::verify::<D>(&i.vk, com, z, e, o);
            })
        };
        let old = run(&i.com, &i.z, &i.e, &o);
        let (t2, t1) = if transparent { (lx, ly) } else { (lx + 1, 0) };
        // Degenerate polynomials may repeat challenges between the tiers; count distinct ones.
        same(c, "prover and verifier agree", &tp, &old, (t2 + t1).min(old.len()));
        let com = i.com + egh::<P>();
        let t = run(&com, &i.z, &i.e, &o);
        changed(c, "polynomial commitment", &old, &t, t2);
        let d = nonzero::<Fp<P>>(&mut c.rng);
        let t = run(&i.com, &(i.z.0 + d, i.z.1), &i.e, &o);
        changed(c, "first coordinate", &old, &t, t2);
        let t = run(&i.com, &(i.z.0, i.z.1 + d), &i.e, &o);
        changed(c, "second coordinate", &old, &t, t1);
        let t = run(&i.com, &i.z, &(i.e + d), &o);
        changed(c, "value", &old, &t, t1);
        let mut q = M::<P, S>::parts::<D>(&o);
        q.1 += g1::<P>();
        let t = run(&i.com, &i.z, &i.e, &M::<P, S>::join::<D>(&q));
        changed(c, "row commitment", &old, &t, t2 + t1);
    }
}

fn main() {
    main_with(Plan {
        property: "C10",
        rule: "honest proofs of all protocols under a recording digest, sizes from two up; every statement component and every component of every round's messages moved (and messages and rounds exchanged) one at a time, the digests of the run compared with the unaltered run; prover's digests compared with the verifier's; elements chosen after their challenge; non-trivial: challenges were compared, distinct by the instance",
        assumptions: vec!["the digest itself is collision-free", "commitment keys are public parameters and are not counted as part of the statement", "group elements are compared by the digests they lead to, not by how they are fed to the hash"],
        required: vec!["gipa pairing", "gipa msm-g1", "gipa scalar", "tipa pairing", "tipa scalar", "powers transparent scalar", "powers trusted msm-g1", "sipp", "aggregate", "polynomial trusted", "polynomial transparent", "challenges after: shift", "challenges after: public scalar", "challenges after: commitment to c"],
        workloads: vec![
            wl("gipa-pairing", 6, 60, gipa::<PairCfg<B381>, RecD<Blake2b>>(3, 4)),
            wl("gipa-msm", 8, 80, gipa::<MsmCfg<B381>, RecD<Blake2b>>(3, 5)),
            wl("gipa-scalar", 16, 200, gipa::<ScalarCfg<B381>, RecD<Blake2b>>(4, 6)),
            wl("gipa-scalar-377", 8, 80, gipa::<ScalarCfg<B377>, RecD<Blake2s>>(3, 5)),
            wl("gipa-scalar-pedersen", 8, 80, gipa::<ScalarPedCfg<B381>, RecD<Blake2s>>(3, 5)),
            wl("gipa-msm-afgho", 4, 60, gipa::<MsmAfghoCfg<B381>, RecD<Blake2b>>(3, 4)),
            wl("tipa-pairing", 6, 60, tipa::<PairCfg<B381>, RecD<Blake2b>>(3, 4)),
            wl("tipa-msm", 6, 60, tipa::<MsmCfg<B381>, RecD<Blake2b>>(3, 4)),
            wl("tipa-scalar", 12, 150, tipa::<ScalarCfg<B381>, RecD<Blake2b>>(4, 6)),
            wl("tipa-scalar-377", 6, 60, tipa::<ScalarCfg<B377>, RecD<Blake2s>>(3, 5)),
            wl("powers-plain-scalar", 10, 120, ssm::<ScalarCfg<B381>, Plain, RecD<Blake2b>>(0, 4, 6)),
            wl("powers-plain-msm", 6, 60, ssm::<MsmCfg<B381>, Plain, RecD<Blake2b>>(0, 3, 5)),
            wl("powers-trusted-scalar", 10, 120, ssm::<ScalarCfg<B381>, Trusted, RecD<Blake2b>>(1, 4, 6)),
            wl("powers-trusted-msm", 6, 60, ssm::<MsmCfg<B381>, Trusted, RecD<Blake2b>>(1, 3, 5)),
            wl("powers-final-key", 6, 40, tail_key::<MsmCfg<B381>>),
            wl("sipp-large", 1, 4, sipp::<B381>(8, 8)),
            wl("sipp", 10, 100, sipp::<B377>(3, 5)),
            wl("sipp-381", 6, 60, sipp::<B381>(3, 5)),
            wl("aggregate", 8, 80, aggregate::<B381, RecD<Blake2b>>),
            wl("polynomial", 8, 80, poly::<B381, Structured, RecD<Blake2b>>(false)),
            wl("polynomial-transparent", 8, 80, poly::<B381, Transparent, RecD<Blake2b>>(true)),
            wl("mini-gipa-pairing", 120, 600, gipa::<PairCfg<Mini>, RecD<Blake2b>>(4, 6)),
            wl("mini-gipa-msm", 120, 600, gipa::<MsmCfg<Mini>, RecD<Blake2b>>(4, 6)),
            wl("mini-tipa-pairing", 120, 600, tipa::<PairCfg<Mini>, RecD<Blake2b>>(4, 6)),
            wl("mini-tipa-scalar", 120, 600, tipa::<ScalarCfg<Mini>, RecD<Blake2b>>(5, 7)),
            wl("mini-powers-plain", 120, 600, ssm::<MsmCfg<Mini>, Plain, RecD<Blake2b>>(0, 4, 6)),
            wl("mini-powers-trusted", 120, 600, ssm::<MsmCfg<Mini>, Trusted, RecD<Blake2b>>(1, 4, 6)),
            wl("mini-sipp", 160, 600, sipp::<Mini>(5, 7)),
            wl("mini-aggregate", 120, 600, aggregate::<Mini, RecD<Blake2b>>),
        ],
    })
}
