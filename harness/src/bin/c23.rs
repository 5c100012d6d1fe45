//! C23: verifiers give a verdict on any decodable proof, in bounded work.
use ark_ec::pairing::Pairing;
use ark_ff::{UniformRand, Zero};
use ark_ip_proofs::applications::{
    groth16_aggregation::verify_aggregate_proof,
    poly_commit::KZG,
};
use ark_serialize::CanonicalSerialize;
use ark_sipp::{Proof as SProofG, SIPP};
use ark_std::rand::{rngs::StdRng, Rng};
use blake2::{Blake2b, Blake2s};
use ripp_mon::*;

#[global_allocator]
static METER: Meter = Meter;

type D = CountD<Blake2b>;
type D32 = CountD<Blake2s>;

/// Bytes a verifier may have live at once besides a multiple of the proof's own size.
const BASE: u64 = 24 << 20;

/// A verdict without panic, in memory and hashing that the proof's size explains.
fn verdict<E>(c: &mut Case, what: &str, rounds: usize, proof: &impl CanonicalSerialize, f: impl FnOnce() -> Result<bool, E>) {
    let size = proof.serialized_size(ark_serialize::Compress::No) as u64;
    c.event(what);
    hashes_reset();
    mem_reset();
    let r = guarded(f);
    let (peak, (h, bytes)) = (mem_peak(), hashes());
    match r {
        Ok(Ok(true)) => c.event("verdict: accepted"),
        Ok(Ok(false)) => c.event("verdict: refused"),
        Ok(Err(_)) => c.event("verdict: error"),
        Err(p) => violated(format!("{what}: no verdict, panicked: {p}")),
    }
    if rounds > 16 {
        c.event("more than sixteen rounds");
    }
    c.check_with("memory in proportion to the proof", peak < BASE + 64 * size, || {
        format!("{peak} bytes live at once for a proof of {size} bytes ({what})")
    });
    c.check_with("digests in proportion to the rounds", h <= 4 * rounds as u64 + 24, || {
        format!("{h} digests for {rounds} rounds ({what})")
    });
    c.check_with("hashed bytes in proportion to the proof", bytes <= (rounds as u64 + 4) * (size + 65536), || {
        format!("{bytes} bytes hashed for a proof of {size} bytes and {rounds} rounds ({what})")
    });
}

/// Rounds as an attacker would send them: wrong number, order, or contents.
fn hostile<R: Clone>(c: &mut Case, v: &mut Vec<R>, other: &[R], neutral: Option<R>) -> String {
    let m = v.len();
    // many rounds are dear: three in ten
    let k = if c.rng.gen_bool(0.3) { 4 } else { [0, 1, 2, 3, 5, 6, 7, 8, 9][c.rng.gen_range(0..9)] };
    let src: Vec<R> = v.iter().chain(other).cloned().collect();
    let fill = |v: &mut Vec<R>, to: usize, r: &mut StdRng| {
        while v.len() < to && !src.is_empty() {
            let x = src[r.gen_range(0..src.len())].clone();
            v.push(x);
        }
        v.truncate(to);
    };
    match k {
        0 => {
            v.clear();
            "no rounds".into()
        }
        1 => {
            v.pop();
            "one round short".into()
        }
        2 => {
            fill(v, m + 1, &mut c.rng);
            "one round over".into()
        }
        3 => {
            let to = c.rng.gen_range(0..12);
            fill(v, to, &mut c.rng);
            format!("{} rounds", v.len())
        }
        4 => {
            let to = c.pick(&[17, 18, 20, 21, 22]);
            fill(v, to, &mut c.rng);
            format!("{} rounds", v.len())
        }
        5 => {
            v.reverse();
            "reversed".into()
        }
        6 => {
            if m > 0 {
                let x = v[0].clone();
                v.iter_mut().for_each(|r| *r = x.clone());
            }
            "one round repeated".into()
        }
        7 => {
            *v = other.to_vec();
            "rounds of another proof".into()
        }
        8 => {
            if let Some(n) = neutral {
                v.iter_mut().for_each(|r| *r = n.clone());
            }
            "neutral rounds".into()
        }
        _ => {
            if let (Some(n), true) = (neutral, m > 0) {
                let j = c.rng.gen_range(0..m);
                v[j] = n;
            }
            "one neutral round".into()
        }
    }
}

fn size(c: &mut Case, max: u32) -> usize {
    let i = c.i;
    let n = pow2(i, &mut c.rng, max);
    c.note("n", n);
    n
}

fn times(c: &Case) -> usize {
    if c.tier == Tier::Thorough {
        8
    } else {
        4
    }
}

fn gipa<C: Cfg>(c: &mut Case) {
    let n = size(c, 4);
    c.note("cfg", C::NAME);
    let i = Inst::<C>::gipa::<D>(c, n, (Shape::Random, Shape::Random));
    let p = c.must("prove", || gipa_prove::<C, D>(&i));
    let n2 = 1 << c.rng.gen_range(0..5);
    let j = Inst::<C>::gipa::<D>(c, n2, (Shape::Random, Shape::Random));
    let q = c.must("prove", || gipa_prove::<C, D>(&j));
    let (v, w): (GView<C>, GView<C>) = (bridge(&p), bridge(&q));
    verdict(c, "GIPA::verify, honest", v.0.len(), &p, || gipa_verify::<C, D>(i.ck(), i.com(), &p));
    for _ in 0..times(c) {
        let mut x = v.clone();
        let how = hostile(c, &mut x.0, &w.0, Some(Default::default()));
        match c.rng.gen_range(0..5) {
            0 => x.1 = Default::default(),
            1 => x.1 = w.1.clone(),
            2 => x.1 .0 = Default::default(),
            _ => {}
        }
        if c.rng.gen_bool(0.2) && !x.0.is_empty() {
            let k = c.rng.gen_range(0..x.0.len());
            // an empty list where the product is sent in clear
            x.0[k].0 .2 = Default::default();
            c.event("product missing in a round");
        }
        c.note("proof", &how);
        c.key(&x);
        let r = x.0.len();
        let y: Proof<C, D> = bridge(&x);
        verdict(c, "GIPA::verify", r, &y, || gipa_verify::<C, D>(i.ck(), i.com(), &y));
        verdict(c, "GIPA::verify_recursive_challenge_transcript", r, &y, || {
            Arg::<C, D>::verify_recursive_challenge_transcript(i.com(), &y).map(|_| true)
        });
        // the statement may come from the attacker too
        let com: (OL<C>, OR<C>, OT<C>) = Default::default();
        verdict(c, "GIPA::verify, neutral commitments", r, &y, || gipa_verify::<C, D>(i.ck(), (&com.0, &com.1, &com.2), &y));
    }
}

fn tipa<C: TCfg>(c: &mut Case) {
    let n = size(c, 3);
    c.note("cfg", C::NAME);
    let t = tnontrivial::<C, D>(c, n);
    let p = c.must("prove", || TArg::<C, D>::prove_with_srs_shift(&t.srs, (&t.i.a, &t.i.b), t.i.ck(), &t.r));
    let n2 = 1 << c.rng.gen_range(0..4);
    let u = tnontrivial::<C, D>(c, n2);
    let q = c.must("prove", || TArg::<C, D>::prove_with_srs_shift(&u.srs, (&u.i.a, &u.i.b), u.i.ck(), &u.r));
    let (v, w) = (tview::<C, D>(&p), tview::<C, D>(&q));
    verdict(c, "TIPA::verify, honest", v.0 .0.len(), &p, || tverify::<C, D>(&t, t.i.com(), &p));
    for _ in 0..times(c) {
        let mut x = v.clone();
        let how = hostile(c, &mut x.0 .0, &w.0 .0, Some(Default::default()));
        match c.rng.gen_range(0..6) {
            0 => x.0 .1 = Default::default(),
            1 => x.1 = Default::default(),
            2 => x.2 = Default::default(),
            3 => x.1 = w.1,
            _ => {}
        }
        c.note("proof", &how);
        c.key(&x);
        let r = x.0 .0.len();
        let y: TProof<C, D> = bridge(&x);
        verdict(c, "TIPA::verify", r, &y, || tverify::<C, D>(&t, t.i.com(), &y));
        let com: (OL<C>, OR<C>, OT<C>) = Default::default();
        verdict(c, "TIPA::verify, neutral commitments", r, &y, || tverify::<C, D>(&t, (&com.0, &com.1, &com.2), &y));
    }
}

fn ssm<C: SCfg, V: Flavour<C>>(c: &mut Case)
where
    V::Proof<D>: CanonicalSerialize,
{
    let n = size(c, 4);
    c.note("cfg", C::NAME);
    let i = S::<C, V>::nontrivial(c, n);
    let p = c.must("prove", || S::<C, V>::prove::<D>(&i));
    let n2 = 1 << c.rng.gen_range(0..4);
    let j = S::<C, V>::nontrivial(c, n2);
    let q = c.must("prove", || S::<C, V>::prove::<D>(&j));
    let ((v, t), (w, t2)) = (V::open::<D>(&p), V::open::<D>(&q));
    for _ in 0..times(c) {
        let mut x = v.clone();
        let how = hostile(c, &mut x.0, &w.0, Some(Default::default()));
        match c.rng.gen_range(0..5) {
            0 => x.1 = Default::default(),
            1 => x.1 = w.1.clone(),
            _ => {}
        }
        c.note("proof", &how);
        c.key(&x);
        let r = x.0.len();
        let y = V::close::<D>(&x, if c.rng.gen_bool(0.7) { &t } else { &t2 });
        let b = if c.rng.gen_bool(0.7) { i.b } else { edge_scalar(&mut c.rng) };
        verdict(c, V::NAME, r, &y, || S::<C, V>::verify::<D>(&i, i.com(), &b, &y));
        let com: (OL<C>, OT<C>) = Default::default();
        verdict(c, "neutral commitments", r, &y, || S::<C, V>::verify::<D>(&i, (&com.0, &com.1), &b, &y));
    }
}

/// The transparent form under keys that are no power of two long: an error.
fn ssm_keys<C: SCfg>(c: &mut Case) {
    let n = c.rng.gen_range(0..20usize);
    c.note("keys", n);
    let i = S::<C, Plain>::nontrivial(c, 4);
    let p = c.must("prove", || S::<C, Plain>::prove::<D>(&i));
    let (k, t, _) = <Plain as Flavour<C>>::setup(c, n);
    c.key(&k);
    verdict(c, "transparent, keys of any number", 2, &p, || {
        <Plain as Flavour<C>>::verify::<D>(&(), (&k, &t), i.com(), &i.b, &p)
    });
}

fn kzg<P: Pairing>(c: &mut Case) {
    let mut r = c.fork();
    let (_, v) = c.must("setup", || KZG::<P>::setup(&mut r, 3));
    for _ in 0..6 {
        let pts = points::<P::G1>(&mut c.rng, 2, if r.gen() { Shape::Small } else { Shape::Random });
        let f = scalars::<Fp<P>>(&mut c.rng, 2, if r.gen() { Shape::Edge } else { Shape::Random });
        c.key(&(pts.clone(), f.clone()));
        verdict(c, "KZG::verify", 0, &pts, || KZG::<P>::verify(&v, &pts[0], &f[0], &f[1], &pts[1]));
    }
}

fn pc_t<P: Pairing>(c: &mut Case) {
    let n = size(c, 3);
    let i = M::<P, Structured>::inst(c, n - 1, 3);
    let o = c.must("open", || M::<P, Structured>::open::<D>(&i));
    let v: Parts<P, Structured> = M::<P, Structured>::parts::<D>(&o);
    let n2 = 1 << c.rng.gen_range(0..4);
    let j = M::<P, Structured>::inst(c, n2 - 1, 2);
    let o2 = c.must("open", || M::<P, Structured>::open::<D>(&j));
    let w: Parts<P, Structured> = M::<P, Structured>::parts::<D>(&o2);
    for _ in 0..times(c) {
        let mut x = v.clone();
        let how = hostile(c, &mut x.0 .0 .0, &w.0 .0 .0, Some(Default::default()));
        match c.rng.gen_range(0..5) {
            0 => x.1 = P::G1::zero(),
            1 => x.2 = w.2,
            2 => x.0 .1 = Default::default(),
            _ => {}
        }
        c.note("proof", &how);
        c.key(&x);
        let r = x.0 .0 .0.len();
        let y = M::<P, Structured>::join::<D>(&x);
        verdict(c, "trusted opening", r, &x, || M::<P, Structured>::verify::<D>(&i, &i.e, &y));
        let z = coord(c);
        let m = c.rng.gen_range(0..2000);
        verdict(c, "trusted opening, one variable", r, &x, || {
            <Structured as Pc<P>>::uverify::<D>(&i.vk, m, &i.com, &z, &i.e, &y)
        });
    }
}

fn pc_p<P: Pairing>(c: &mut Case) {
    let n = size(c, 3);
    let i = M::<P, Transparent>::inst(c, n - 1, 3);
    let o = c.must("open", || M::<P, Transparent>::open::<D>(&i));
    let v: Parts<P, Transparent> = M::<P, Transparent>::parts::<D>(&o);
    let (nx, ny) = (1 << c.rng.gen_range(0..4), 1 << c.rng.gen_range(0..4));
    let j = M::<P, Transparent>::inst(c, nx - 1, ny - 1);
    let o2 = c.must("open", || M::<P, Transparent>::open::<D>(&j));
    let w: Parts<P, Transparent> = M::<P, Transparent>::parts::<D>(&o2);
    for _ in 0..times(c) {
        let mut x = v.clone();
        let mut how = String::new();
        if c.rng.gen_bool(0.6) {
            how += &hostile(c, &mut x.0 .0, &w.0 .0, Some(Default::default()));
            c.event("hostile second tier");
        }
        if c.rng.gen_bool(0.6) {
            how += &hostile(c, &mut x.2 .0, &w.2 .0, Some(Default::default()));
            c.event("hostile first tier");
        }
        if c.rng.gen_bool(0.2) {
            x.1 = P::G1::zero();
        }
        c.note("proof", &how);
        c.key(&x);
        let r = x.0 .0.len() + x.2 .0.len();
        let y = M::<P, Transparent>::join::<D>(&x);
        verdict(c, "transparent opening", r, &x, || M::<P, Transparent>::verify::<D>(&i, &i.e, &y));
        let z = coord(c);
        verdict(c, "transparent opening, one variable", r, &x, || {
            <Transparent as Pc<P>>::uverify::<D>(&i.vk, 0, &i.com, &z, &i.e, &y)
        });
    }
}

fn agg<P: Pairing>(c: &mut Case) {
    let n = size(c, 2);
    let b = Batch::<P>::simulated::<D>(c, n, 1);
    let p = c.must("aggregate", || b.aggregate::<D>());
    let v: AggView<P> = bridge(&p);
    let n2 = 1 << c.rng.gen_range(0..3);
    let b2 = Batch::<P>::simulated::<D>(c, n2, 0);
    let p2 = c.must("aggregate", || b2.aggregate::<D>());
    let w: AggView<P> = bridge(&p2);
    for _ in 0..times(c) {
        let mut x = v.clone();
        let mut how = String::new();
        if c.rng.gen_bool(0.6) {
            how += &hostile(c, &mut x.2 .0 .0, &w.2 .0 .0, Some(Default::default()));
        }
        if c.rng.gen_bool(0.6) {
            how += &hostile(c, &mut x.3 .0 .0, &w.3 .0 .0, Some(Default::default()));
        }
        match c.rng.gen_range(0..6) {
            0 => x.0 = Default::default(),
            1 => x.1 = Default::default(),
            2 => x.2 = w.2.clone(),
            3 => x.3 = w.3.clone(),
            _ => {}
        }
        c.note("proof", &how);
        c.key(&x);
        let r = x.2 .0 .0.len() + x.3 .0 .0.len();
        let y = bridge(&x);
        verdict(c, "aggregate", r, &x, || b.verify::<D>(&y));
    }
}

/// Public inputs of any shape for an honest aggregate.
fn agg_inputs<P: Pairing>(c: &mut Case) {
    let n = size(c, 2);
    let k = c.rng.gen_range(0..4usize);
    c.note("inputs", k);
    let b = Batch::<P>::simulated::<D>(c, n, k);
    let p = c.must("aggregate", || b.aggregate::<D>());
    let v: AggView<P> = bridge(&p);
    let r = v.2 .0 .0.len() + v.3 .0 .0.len();
    let extra = Fp::<P>::rand(&mut c.rng);
    for s in 0..9 {
        let mut x = b.x.clone();
        let j = c.rng.gen_range(0..n);
        let how = match s {
            0 => {
                x.clear();
                "no rows"
            }
            1 => {
                x.pop();
                "a row missing"
            }
            2 => {
                x.push(vec![extra; k]);
                "a row too many"
            }
            3 => {
                x[0].push(extra);
                "first row too long"
            }
            4 => {
                x[j].push(extra);
                "a row too long"
            }
            5 => {
                x[j].pop();
                "a row too short"
            }
            6 => {
                x[0].clear();
                "first row empty"
            }
            7 => {
                x.iter_mut().for_each(|r| r.push(extra));
                "all rows too long"
            }
            _ => {
                x.iter_mut().for_each(|r| r.clear());
                "all rows empty"
            }
        };
        c.note("rows", how);
        c.key(&(x.clone(), b.a.clone()));
        verdict(c, &format!("aggregate, public inputs: {how}"), r, &v, || {
            verify_aggregate_proof::<P, D>(&b.v, &b.vk, &x, &p)
        });
    }
}

fn sipp<P: Pairing>(c: &mut Case) {
    let n = 2 * size(c, 4);
    let i = Sip::<P>::nontrivial(c, n);
    let p = c.must("prove", || i.prove::<D32>());
    let n2 = 2 << c.rng.gen_range(0..4);
    let j = Sip::<P>::nontrivial(c, n2);
    let q = c.must("prove", || j.prove::<D32>());
    for _ in 0..times(c) {
        let mut g = p.gt_elems().to_vec();
        let how = hostile(c, &mut g, q.gt_elems(), Some(Default::default()));
        c.note("proof", &how);
        c.key(&g);
        let y = SProofG::<P>::from_gt_elems(g.clone());
        verdict(c, "SIPP::verify", g.len(), &g, || i.verify::<D32>(&y));
    }
    // statements of any shape
    let (la, lb, lr) = (c.rng.gen_range(0..=n + 1), c.rng.gen_range(0..=n + 1), c.rng.gen_range(0..=n + 1));
    for (la, lb, lr) in [(la, lb, lr), (n, n, lr), (n, lb, n), (la, n, n), (0, 0, 0), (1, 1, 1), (3, 3, 3)] {
        let cut = |l: usize| (0..l).map(|k| k % n).collect::<Vec<_>>();
        let a: Vec<_> = cut(la).into_iter().map(|k| i.a[k]).collect();
        let b: Vec<_> = cut(lb).into_iter().map(|k| i.b[k]).collect();
        let r: Vec<_> = cut(lr).into_iter().map(|k| i.r[k]).collect();
        let m = if c.rng.gen_bool(0.5) { p.gt_elems().len() } else { (la.max(1) as f64).log2() as usize };
        let mut g = p.gt_elems().to_vec();
        g.resize(m, Default::default());
        let y = SProofG::<P>::from_gt_elems(g.clone());
        c.note("lengths", format!("{la},{lb},{lr},{m}"));
        verdict(c, "SIPP::verify, statements of any shape", m, &g, || SIPP::<P, D32>::verify(&a, &b, &r, i.v, &y));
    }
}

fn main() {
    main_with(Plan {
        property: "C23",
        rule: "honest keys; proofs with no, too few, reordered, repeated, foreign, neutral and up to 22 rounds, neutral or foreign base messages and tails, missing products, neutral statements, public inputs and pairing statements of every wrong shape; non-trivial: the verifier was called on such a proof under an allocation meter and a counting digest, distinct by the proof",
        assumptions: vec![
            "group elements are valid (checked decoding is C22)",
            "memory is metered on the calling thread",
            "work besides memory and hashing is not metered",
        ],
        required: vec![
            "GIPA::verify", "TIPA::verify", "transparent", "trusted", "KZG::verify", "trusted opening", "transparent opening",
            "hostile first tier", "hostile second tier", "aggregate", "SIPP::verify", "SIPP::verify, statements of any shape",
            "aggregate, public inputs: no rows", "aggregate, public inputs: a row too long", "more than sixteen rounds",
            "verdict: refused", "verdict: error",
        ],
        workloads: vec![
            wl("gipa-pairing", 10, 120, gipa::<PairCfg<B381>>),
            wl("gipa-msm", 12, 120, gipa::<MsmCfg<B381>>),
            wl("gipa-scalar", 24, 200, gipa::<ScalarCfg<B381>>),
            wl("gipa-pedersen-out", 12, 120, gipa::<ScalarPedCfg<B377>>),
            wl("tipa-pairing", 8, 100, tipa::<PairCfg<B381>>),
            wl("tipa-scalar", 16, 160, tipa::<ScalarCfg<B381>>),
            wl("tipa-msm", 8, 100, tipa::<MsmCfg<B377>>),
            wl("ssm-plain", 20, 200, ssm::<ScalarCfg<B381>, Plain>),
            wl("ssm-plain-msm", 10, 100, ssm::<MsmCfg<B381>, Plain>),
            wl("ssm-keys", 16, 100, ssm_keys::<ScalarCfg<B381>>),
            wl("ssm-trusted", 10, 100, ssm::<MsmCfg<B381>, Trusted>),
            wl("kzg", 6, 60, kzg::<B381>),
            wl("poly-trusted", 10, 100, pc_t::<B381>),
            wl("poly-transparent", 12, 100, pc_p::<B381>),
            wl("aggregate", 10, 100, agg::<B381>),
            wl("aggregate-inputs", 10, 100, agg_inputs::<B381>),
            wl("sipp", 16, 160, sipp::<B381>),
            wl("sipp-377", 8, 80, sipp::<B377>),
            wl("mini-gipa", 200, 1000, gipa::<PairCfg<Mini>>),
            wl("mini-tipa", 200, 1000, tipa::<ScalarCfg<Mini>>),
            wl("mini-ssm", 200, 1000, ssm::<MsmCfg<Mini>, Trusted>),
            wl("mini-kzg", 80, 300, kzg::<Mini>),
            wl("mini-poly-trusted", 160, 600, pc_t::<Mini>),
            wl("mini-poly-transparent", 160, 600, pc_p::<Mini>),
            wl("mini-aggregate", 160, 600, agg::<Mini>),
            wl("mini-sipp", 240, 1000, sipp::<Mini>),
        ],
    })
}
