//! C05: the checked prover and the verifier refuse invalid statements and key shapes.
use ark_ff::Field;
use ark_std::rand::Rng;
use blake2::{Blake2b, Blake2s};
use digest::Digest;
use ripp_mon::*;

fn prove<C: Cfg, D: Digest>(i: &Inst<C>) -> Lib<()> {
    gipa_prove::<C, D>(i).map(|_| ())
}

fn with<C: Cfg>(i: &Inst<C>) -> Inst<C> {
    Inst {
        n: i.n,
        a: i.a.clone(),
        b: i.b.clone(),
        t: i.t.clone(),
        ck_a: i.ck_a.clone(),
        ck_b: i.ck_b.clone(),
        ck_t: i.ck_t.clone(),
        com_a: i.com_a.clone(),
        com_b: i.com_b.clone(),
        com_t: i.com_t.clone(),
    }
}

fn invalid<C: Cfg, D: Digest>(maxq: u32, maxt: u32) -> impl Fn(&mut Case) {
    move |c| {
        let max = if c.tier == Tier::Thorough { maxt } else { maxq };
        let i = c.i;
        let n = pow2(i, &mut c.rng, max);
        c.note("cfg", C::NAME);
        c.note("n", n);
        c.event(C::NAME);
        let i = nontrivial::<C, D>(c, n);
        c.key(&(i.a.clone(), i.b.clone()));
        c.must("prove a true statement", || prove::<C, D>(&i));
        let (d, dt) = offsets_msg::<C>(c, &i);
        // the product
        let mut x = with(&i);
        x.t = x.t + dt.clone();
        c.must_err("prove: wrong product", || prove::<C, D>(&x));
        x.com_t = commit_all::<C>(&x.a, &x.b, &x.t, x.ck()).2;
        c.must_err("prove: wrong product with its own commitment", || prove::<C, D>(&x));
        // commitments
        let mut x = with(&i);
        x.com_a = x.com_a + d.0.clone();
        c.must_err("prove: wrong left commitment", || prove::<C, D>(&x));
        let mut x = with(&i);
        x.com_b = x.com_b + d.1.clone();
        c.must_err("prove: wrong right commitment", || prove::<C, D>(&x));
        let mut x = with(&i);
        x.com_t = x.com_t + d.2.clone();
        c.must_err("prove: wrong product commitment", || prove::<C, D>(&x));
        let mut x = with(&i);
        x.com_a = scale::<F<C>, _>(&x.com_a, -F::<C>::ONE);
        if x.com_a != i.com_a {
            c.must_err("prove: negated left commitment", || prove::<C, D>(&x));
        }
        // messages
        let j = c.rng.gen_range(0..n);
        let mut x = with(&i);
        x.a[j] = x.a[j].clone() + C::left(&mut c.rng, 1, Shape::Random)[0].clone();
        c.must_err("prove: one left message changed", || prove::<C, D>(&x));
        x.t = naive_msgs::<C>(&x.a, &x.b);
        x.com_t = commit_all::<C>(&x.a, &x.b, &x.t, x.ck()).2;
        c.must_err("prove: left vector not the committed one", || prove::<C, D>(&x));
        let mut x = with(&i);
        x.b[j] = x.b[j].clone() + C::right(&mut c.rng, 1, Shape::Random)[0].clone();
        x.t = naive_msgs::<C>(&x.a, &x.b);
        x.com_t = commit_all::<C>(&x.a, &x.b, &x.t, x.ck()).2;
        c.must_err("prove: right vector not the committed one", || prove::<C, D>(&x));
        // lengths of messages and keys
        let cut = c.rng.gen_range(0..n);
        let mut x = with(&i);
        x.a.truncate(cut);
        c.must_err("prove: left vector shorter", || prove::<C, D>(&x));
        let mut x = with(&i);
        x.b.truncate(cut);
        c.must_err("prove: right vector shorter", || prove::<C, D>(&x));
        let mut x = with(&i);
        x.a.extend(C::left(&mut c.rng, 1, Shape::AllZero));
        c.must_err("prove: left vector longer by a neutral element", || prove::<C, D>(&x));
        let mut x = with(&i);
        x.b.extend(C::right(&mut c.rng, n, Shape::AllZero));
        c.must_err("prove: right vector twice as long", || prove::<C, D>(&x));
        let mut x = with(&i);
        x.ck_a.truncate(cut);
        c.must_err("prove: left keys fewer", || prove::<C, D>(&x));
        let mut x = with(&i);
        x.ck_b.truncate(cut);
        c.must_err("prove: right keys fewer", || prove::<C, D>(&x));
        let mut r = c.fork();
        let more = c.must("setup", || Arg::<C, D>::setup(&mut r, n));
        let mut x = with(&i);
        x.ck_a.extend(more.0.clone());
        c.must_err("prove: left keys more", || prove::<C, D>(&x));
        let mut x = with(&i);
        x.ck_b.extend(more.1.clone());
        c.must_err("prove: right keys more", || prove::<C, D>(&x));
        // the verifier's key shapes
        let p = c.must("prove", || gipa_prove::<C, D>(&i));
        let v = |a: &[KL<C>], b: &[KR<C>]| gipa_verify::<C, D>((a, b, &i.ck_t), i.com(), &p);
        let (la, lb): (Vec<_>, Vec<_>) = (
            i.ck_a.iter().chain(&more.0).cloned().collect(),
            i.ck_b.iter().chain(&more.1).cloned().collect(),
        );
        c.must_accept("verify", || v(&la[..n], &lb[..n]));
        c.must_err("verify: right keys twice as many", || v(&la[..n], &lb));
        c.must_err("verify: left keys twice as many", || v(&la, &lb[..n]));
        c.must_err("verify: one right key missing", || v(&la[..n], &lb[..n - 1]));
        c.must_err("verify: no keys", || v(&[], &[]));
        c.must_err("verify: no left keys", || v(&[], &lb[..n]));
        c.must_err("verify: no right keys", || v(&la[..n], &[]));
        if n > 1 {
            c.must_err("verify: one left key more", || v(&la[..n + 1], &lb[..n]));
            c.must_err("verify: one key more on both sides", || v(&la[..n + 1], &lb[..n + 1]));
        }
        if n > 2 {
            c.must_err("verify: one key fewer on both sides", || v(&la[..n - 1], &lb[..n - 1]));
        }
        if n > 4 {
            let k = n / 2 + 1;
            c.must_err("verify: odd number of keys", || v(&la[..k], &lb[..k]));
        }
    }
}

fn not_power<C: Cfg, D: Digest>(c: &mut Case) {
    let sizes = [0usize, 3, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 17, 24];
    let n = sizes[c.i % sizes.len()];
    c.note("cfg", C::NAME);
    c.note("n", n);
    let s = (shape(&mut c.rng), shape(&mut c.rng));
    let i = Inst::<C>::gipa::<D>(c, n, s);
    c.key(&(n as u64, i.a.clone()));
    c.must_err("prove: length no power of two", || prove::<C, D>(&i));
    c.event("lengths that are no power of two");
}

fn main() {
    main_with(Plan {
        property: "C05",
        rule: "true instances of power-of-two sizes, each then made invalid in one way (product, commitments, messages, vector and key lengths, verifier key shapes), and true instances of other sizes; non-trivial: every listed alteration was put to the library, distinct by the instance",
        assumptions: vec!["keys wider than the message are refused by the compressing commitments; the identity commitment has no key"],
        required: vec!["pairing", "msm-g1", "scalar", "scalar-pedersen-out", "msm-g1-afgho-out", "msm-g2", "refused:error", "lengths that are no power of two"],
        workloads: vec![
            wl("pairing", 10, 120, invalid::<PairCfg<B381>, Blake2b>(3, 5)),
            wl("msm", 14, 160, invalid::<MsmCfg<B381>, Blake2b>(4, 6)),
            wl("scalar", 30, 400, invalid::<ScalarCfg<B381>, Blake2b>(5, 8)),
            wl("scalar-377", 10, 100, invalid::<ScalarCfg<B377>, Blake2s>(4, 6)),
            wl("scalar-pedersen-out", 14, 160, invalid::<ScalarPedCfg<B381>, Blake2s>(4, 7)),
            wl("msm-afgho-out", 10, 120, invalid::<MsmAfghoCfg<B381>, Blake2b>(3, 5)),
            wl("msm-g2", 10, 100, invalid::<MsmG2Cfg<B381>, Blake2b>(3, 5)),
            wl("length-scalar", 14, 56, not_power::<ScalarCfg<B381>, Blake2b>),
            wl("length-pairing", 14, 28, not_power::<PairCfg<B381>, Blake2b>),
            wl("length-msm", 14, 28, not_power::<MsmCfg<B381>, Blake2b>),
            wl("mini-pairing", 160, 1000, invalid::<PairCfg<Mini>, Blake2b>(5, 7)),
            wl("mini-msm", 160, 1000, invalid::<MsmCfg<Mini>, Blake2b>(5, 7)),
            wl("mini-scalar", 160, 1000, invalid::<ScalarCfg<Mini>, Blake2b>(6, 9)),
        ],
    })
}
