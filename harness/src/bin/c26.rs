//! C26: inputs that do not fit are refused, never silently truncated.
use ark_dh_commitments::{
    afgho16::*, identity::HomomorphicPlaceholderValue, pedersen::PedersenCommitment,
    DoublyHomomorphicCommitment as DHC,
};
use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup};
use ark_ff::Zero;
use ark_inner_products::*;
use ark_ip_proofs::applications::{groth16_aggregation::*, poly_commit::KZG};
use ark_poly::DenseUVPolynomial;
use ark_sipp::{product_of_pairings, product_of_pairings_with_coeffs, SIPP};
use ark_std::rand::Rng;
use blake2::{Blake2b, Blake2s};
use ripp_mon::*;

type D = Blake2b;

/// Coefficients whose last one counts.
fn poly<P: Pairing>(c: &mut Case, n: usize) -> Vec<Fp<P>> {
    let s = shape(&mut c.rng);
    let mut v: Vec<Fp<P>> = scalars(&mut c.rng, n, s);
    if let Some(l) = v.last_mut() {
        *l = nonzero(&mut c.rng);
    }
    v
}

const DEG: [usize; 16] = [0, 1, 2, 3, 4, 7, 8, 15, 16, 30, 63, 64, 100, 255, 256, 300];

fn univariate<P: Pairing, S: Pc<P>>(c: &mut Case) {
    let d = DEG[c.i % DEG.len()];
    let mut r = c.fork();
    let ck = c.must("setup", || S::usetup(&mut r, d));
    let (x, y) = S::degrees(&ck);
    let cap = (x + 1) * (y + 1);
    c.note("degree", d);
    c.note("room for", cap);
    let z = coord(c);
    // the largest that fits
    let p = Uni::<P>::from_coefficients_vec(poly::<P>(c, cap));
    c.key(&p.coeffs);
    let (com, comms) = c.must("commit to a full polynomial", || S::ucommit(&ck, &p));
    let o = c.must("open a full polynomial", || S::uopen::<D>(&ck, &p, &comms, &z));
    let e = ref_ueval(&p.coeffs, z);
    c.must_accept("full polynomial", || S::uverify::<D>(&S::vk(&ck), d, &com, &z, &e, &o));
    for over in [1, 1 + c.rng.gen_range(0..4), y + 1, cap] {
        let p = Uni::<P>::from_coefficients_vec(poly::<P>(c, cap + over));
        c.key(&p.coeffs);
        c.event("polynomials over the room");
        c.must_refuse("one-variable commit, polynomial too large", || S::ucommit(&ck, &p));
        c.must_refuse("one-variable open, polynomial too large", || S::uopen::<D>(&ck, &p, &comms, &z));
    }
    // only the last coefficient is out of room
    let mut v = vec![Fp::<P>::zero(); cap + 1];
    v[cap] = nonzero(&mut c.rng);
    let p = Uni::<P>::from_coefficients_vec(v);
    c.must_refuse("one-variable commit, one high coefficient", || S::ucommit(&ck, &p));
    c.must_refuse("one-variable open, one high coefficient", || S::uopen::<D>(&ck, &p, &comms, &z));
    let mut more = comms.clone();
    more.push(comms[0]);
    let p = Uni::<P>::from_coefficients_vec(poly::<P>(c, cap));
    c.must_refuse("one-variable open, a row commitment too many", || S::uopen::<D>(&ck, &p, &more, &z));
    c.must_refuse("one-variable open, a row commitment missing", || S::uopen::<D>(&ck, &p, &comms[1..].to_vec(), &z));
}

fn bivariate<P: Pairing, S: Pc<P>>(c: &mut Case) {
    let i = c.i;
    let x = pow2(i, &mut c.rng, 3) - 1;
    // the transparent form also halves the rows
    let y = pow2(c.i / 3, &mut c.rng, 3) - 1;
    c.note("degrees", format!("{x},{y}"));
    let i = M::<P, S>::rich(c, x, y);
    c.key(&(i.rows.clone(), i.z));
    let o = c.must("open", || M::<P, S>::open::<D>(&i));
    c.must_accept("fitting polynomial", || M::<P, S>::verify::<D>(&i, &i.e, &o));
    let full = |c: &mut Case, n: usize, m: usize| -> Rows<P> { (0..n).map(|_| poly::<P>(c, m)).collect() };
    let refuse = |c: &mut Case, what: &str, rows: &Rows<P>, commit: bool| {
        if commit {
            c.must_refuse(&format!("two-variable commit, {what}"), || S::commit(&i.ck, rows));
        }
        c.must_refuse(&format!("two-variable open, {what}"), || S::open::<D>(&i.ck, rows, &i.comms, &i.z));
    };
    let k = 1 + c.rng.gen_range(0..3);
    let rows = full(c, x + 1 + k, y + 1);
    refuse(c, "too many rows", &rows, true);
    let rows = full(c, 2 * (x + 1), y + 1);
    refuse(c, "twice as many rows", &rows, true);
    let mut rows = full(c, x + 2, y + 1);
    for r in rows.iter_mut().take(x + 1) {
        r.clear();
    }
    refuse(c, "only the surplus row counts", &rows, true);
    let k = 1 + c.rng.gen_range(0..3);
    let rows = full(c, x + 1, y + 1 + k);
    refuse(c, "every row too long", &rows, true);
    let mut rows = full(c, x + 1, y + 1);
    let j = c.rng.gen_range(0..=x);
    rows[j] = poly::<P>(c, y + 2);
    c.note("long row", j);
    refuse(c, "one row too long by one", &rows, true);
    let mut rows = vec![vec![]; x + 1];
    rows[j] = vec![Fp::<P>::zero(); y + 1];
    rows[j].push(nonzero(&mut c.rng));
    refuse(c, "one row with one high coefficient", &rows, true);
    // more rows and longer rows, in the same total
    if y > 0 {
        let rows = full(c, 2 * (x + 1), (y + 1) / 2);
        refuse(c, "more but shorter rows", &rows, true);
    }
    if x > 0 {
        let rows = full(c, (x + 1) / 2, 2 * (y + 1));
        refuse(c, "fewer but longer rows", &rows, true);
    }
    let mut more = i.comms.clone();
    more.push(i.comms[0]);
    let cut = c.rng.gen_range(0..=x);
    for (what, cm) in [
        ("a row commitment too many", more),
        ("row commitments twice", [&i.comms[..], &i.comms[..]].concat()),
        ("row commitments missing", i.comms[..cut].to_vec()),
    ] {
        c.must_refuse(&format!("two-variable open, {what}"), || S::open::<D>(&i.ck, &i.rows, &cm, &i.z));
    }
}

fn kzg<P: Pairing>(c: &mut Case) {
    let d = [0usize, 1, 2, 3, 7, 8, 12, 20][c.i % 8];
    c.note("degree", d);
    let mut r = c.fork();
    let (pw, v) = c.must("setup", || KZG::<P>::setup(&mut r, d));
    let z = coord(c);
    let p = Uni::<P>::from_coefficients_vec(poly::<P>(c, d + 1));
    c.key(&p.coeffs);
    let com = c.must("commit", || KZG::<P>::commit(&pw, &p));
    let w = c.must("open", || KZG::<P>::open(&pw, &p, &z));
    c.must_accept("full polynomial", || KZG::<P>::verify(&v, &com, &z, &ref_ueval(&p.coeffs, z), &w));
    for over in [1, 1 + c.rng.gen_range(0..4), d + 1] {
        let p = Uni::<P>::from_coefficients_vec(poly::<P>(c, d + 1 + over));
        c.must_refuse("powers, commit, polynomial too large", || KZG::<P>::commit(&pw, &p));
        c.must_refuse("powers, open, polynomial too large", || KZG::<P>::open(&pw, &p, &z));
    }
}

fn sipp<P: Pairing>(c: &mut Case) {
    let i = c.i;
    let n = pow2(i, &mut c.rng, 4).max(2);
    c.note("n", n);
    let i = Sip::<P>::nontrivial(c, n);
    let j = Sip::<P>::nontrivial(c, n);
    c.key(&(i.a.clone(), i.r.clone()));
    let p = c.must("prove", || i.prove::<Blake2s>());
    c.must_accept("fitting statement", || i.verify::<Blake2s>(&p));
    let cat = |n: usize| {
        (
            [&i.a[..], &j.a[..]].concat()[..n].to_vec(),
            [&i.b[..], &j.b[..]].concat()[..n].to_vec(),
            [&i.r[..], &j.r[..]].concat()[..n].to_vec(),
        )
    };
    let mut lens = vec![(n, n, n + 1), (n, n, 2 * n), (n, n, n - 1), (n, n, 0), (n, n + 1, n), (n, 2 * n, n), (n, n / 2, n), (n + 1, n, n), (2 * n, n, n), (n / 2, n, n)];
    lens.extend([(n / 2, n / 2, n), (2 * n, 2 * n, n), (n, 2 * n, 2 * n), (2 * n, n, 2 * n), (0, n, n), (n, 0, n)]);
    let k = c.rng.gen_range(0..n);
    lens.push((n, n, k));
    for (la, lb, lr) in lens {
        let (a, b, r) = (cat(la).0, cat(lb).1, cat(lr).2);
        let what = format!("lengths against {n}: points {}, points {}, scalars {}", rel(la, n), rel(lb, n), rel(lr, n));
        c.must_refuse(&format!("SIPP prove, {what}"), || SIPP::<P, Blake2s>::prove(&a, &b, &r, i.v));
        c.must_reject(&format!("SIPP verify, {what}"), || SIPP::<P, Blake2s>::verify(&a, &b, &r, i.v, &p));
        // and a claim that is true of the common part
        c.must_refuse(&format!("product with scalars, {what}"), || {
            Ok::<_, ()>(product_of_pairings_with_coeffs::<P>(&a, &b, &r))
        });
        if la != lb {
            c.must_refuse(&format!("product, {what}"), || Ok::<_, ()>(product_of_pairings::<P>(&a, &b)));
        }
    }
    // a proof for the common part must not serve the longer statement
    let h = Sip::<P> { v: i.v, ..i.clone() };
    let (_, _, r) = cat(2 * n);
    c.must_reject("SIPP verify, more scalars than the proof's", || SIPP::<P, Blake2s>::verify(&h.a, &h.b, &r, h.v, &p));
    // all of one length, which is no power of two
    for m in [n + 1, 2 * n - 1, 3 * n / 2] {
        if m.is_power_of_two() {
            continue;
        }
        let (a, b, r) = cat(m);
        let v = product_of_pairings_with_coeffs::<P>(&a, &b, &r);
        c.must_refuse("SIPP prove, length no power of two", || SIPP::<P, Blake2s>::prove(&a, &b, &r, v));
        c.must_reject("SIPP verify, length no power of two", || SIPP::<P, Blake2s>::verify(&a, &b, &r, v, &p));
        c.event("lengths that are no power of two");
    }
    c.must_refuse("SIPP prove, nothing", || SIPP::<P, Blake2s>::prove(&[], &[], &[], i.v));
    c.must_reject("SIPP verify, nothing", || SIPP::<P, Blake2s>::verify(&[], &[], &[], i.v, &p));
}

fn rel(l: usize, n: usize) -> &'static str {
    match l {
        _ if l == n => "as many",
        0 => "none",
        _ if l < n => "fewer",
        _ => "more",
    }
}

fn aggregate<P: Pairing>(c: &mut Case) {
    let i = c.i;
    let n = pow2(i, &mut c.rng, 3);
    let k = c.i % 4;
    c.note("n", n);
    c.note("inputs", k);
    let i = Batch::<P>::simulated::<D>(c, n, k);
    let p = c.must("aggregate", || i.aggregate::<D>());
    c.key(&(i.a.clone(), i.x.clone()));
    c.must_accept("fitting inputs", || i.verify::<D>(&p));
    let ver = |x: &Vec<Vec<Fp<P>>>| verify_aggregate_proof::<P, D>(&i.v, &i.vk, x, &p);
    let extra: Fp<P> = if c.rng.gen_bool(0.5) { Fp::<P>::zero() } else { nonzero(&mut c.rng) };
    for j in [0, n - 1, c.rng.gen_range(0..n)] {
        let mut x = i.x.clone();
        x[j].push(extra);
        c.must_reject("aggregate, a surplus input in one row", || ver(&x));
        if k > 0 {
            let mut x = i.x.clone();
            x[j].pop();
            c.must_reject("aggregate, an input missing in one row", || ver(&x));
            x[j].clear();
            c.must_reject("aggregate, no inputs in one row", || ver(&x));
        }
    }
    let mut x = i.x.clone();
    x.iter_mut().for_each(|r| r.push(extra));
    c.must_reject("aggregate, a surplus input in every row", || ver(&x));
    c.must_reject("aggregate, no rows", || ver(&vec![]));
    c.must_reject("aggregate, a row missing", || ver(&i.x[1..].to_vec()));
    let mut x = i.x.clone();
    x.push(i.x[0].clone());
    c.must_reject("aggregate, a row too many", || ver(&x));
    // verifying keys that do not fit the inputs
    let mut vk = i.vk.clone();
    vk.gamma_abc_g1.push(vk.gamma_abc_g1[0]);
    c.must_reject("aggregate, verifying key with more inputs", || verify_aggregate_proof::<P, D>(&i.v, &vk, &i.x, &p));
    vk.gamma_abc_g1.push(AffineRepr::zero());
    vk.gamma_abc_g1.swap_remove(i.vk.gamma_abc_g1.len());
    c.must_reject("aggregate, verifying key with a neutral input more", || {
        verify_aggregate_proof::<P, D>(&i.v, &vk, &i.x, &p)
    });
    if k > 0 {
        let mut vk = i.vk.clone();
        vk.gamma_abc_g1.pop();
        c.must_reject("aggregate, verifying key with fewer inputs", || verify_aggregate_proof::<P, D>(&i.v, &vk, &i.x, &p));
    }
    // batches that do not fit the setup
    let ps = i.proofs();
    let agg = |q: &[ark_groth16::Proof<P>]| aggregate_proofs::<P, D>(&i.srs, q);
    let twice: Vec<_> = ps.iter().chain(&ps).cloned().collect();
    c.must_refuse("aggregate, no proofs", || agg(&[]));
    c.must_refuse("aggregate, twice as many proofs as the setup serves", || agg(&twice));
    c.must_refuse("aggregate, one proof more than the setup serves", || agg(&twice[..n + 1]));
    if n > 1 {
        c.must_refuse("aggregate, one proof fewer than the setup serves", || agg(&ps[1..]));
        c.must_refuse("aggregate, half as many proofs as the setup serves", || agg(&ps[n / 2..]));
        c.event("batches smaller than the setup");
    }
}

/// Lengths (left, right, left keys, right keys) that differ somewhere.
fn arg<C: Cfg>(c: &mut Case) {
    let i = c.i;
    let n = pow2(i, &mut c.rng, 4);
    c.note("cfg", C::NAME);
    c.note("n", n);
    let i = Inst::<C>::gipa::<D>(c, 2 * n, (Shape::Random, Shape::Random));
    c.key(&(i.a.clone(), i.b.clone()));
    let k = c.rng.gen_range(0..n);
    let mut l = vec![(2 * n, n, n, n), (n, 2 * n, n, n), (n, n, 2 * n, n), (n, n, n, 2 * n), (n, n, 2 * n, 2 * n), (2 * n, 2 * n, n, n)];
    l.extend([(n, n, k, n), (n, n, n, k), (k, n, n, n), (n, k, n, n), (n, n, n + 1, n), (n, n, n, n + 1), (n, n + 1, n, n + 1), (n + 1, n, n + 1, n)]);
    for (a, b, ka, kb) in l {
        let what = format!("left {}, right {}, keys {} and {}", rel(a, n), rel(b, n), rel(ka, n), rel(kb, n));
        c.must_refuse(&format!("argument with parts, {what}"), || {
            Arg::<C, D>::prove_with_aux((&i.a[..a], &i.b[..b]), (&i.ck_a[..ka], &i.ck_b[..kb], &[i.ck_t.clone()]))
        });
        c.must_refuse(&format!("argument, {what}"), || {
            Arg::<C, D>::prove((&i.a[..a], &i.b[..b], &i.t), (&i.ck_a[..ka], &i.ck_b[..kb], &i.ck_t), i.com())
        });
    }
    // lengths equal but no power of two
    let m = [3usize, 5, 6, 7, 12][c.i % 5];
    if m <= 2 * n {
        c.must_refuse("argument with parts, length no power of two", || {
            Arg::<C, D>::prove_with_aux((&i.a[..m], &i.b[..m]), (&i.ck_a[..m], &i.ck_b[..m], &[i.ck_t.clone()]))
        });
        c.event("lengths that are no power of two");
    }
    c.must_refuse("argument with parts, nothing", || {
        Arg::<C, D>::prove_with_aux((&[], &[]), (&[], &[], &[i.ck_t.clone()]))
    });
}

fn targ<C: TCfg>(c: &mut Case) {
    let i = c.i;
    let n = pow2(i, &mut c.rng, 3);
    c.note("cfg", C::NAME);
    c.note("n", n);
    let (srs, i) = tipa_inst::<C, D>(c, 2 * n, (Shape::Random, Shape::Random));
    let (small, _) = tipa_inst::<C, D>(c, n, (Shape::Random, Shape::Random));
    c.key(&(i.a.clone(), i.b.clone()));
    let k = c.rng.gen_range(0..n);
    let mut l = vec![(2 * n, n, n, n), (n, 2 * n, n, n), (n, n, 2 * n, n), (n, n, n, 2 * n), (n, n, 2 * n, 2 * n), (2 * n, 2 * n, n, n)];
    l.extend([(n, n, k, n), (n, n, n, k), (k, n, n, n), (n, k, n, n), (n, n, n + 1, n), (n, n, n, n + 1)]);
    let r = nonzero::<F<C>>(&mut c.rng);
    for (a, b, ka, kb) in l {
        let what = format!("left {}, right {}, keys {} and {}", rel(a, n), rel(b, n), rel(ka, n), rel(kb, n));
        for s in [&srs, &small] {
            c.must_refuse(&format!("trusted argument, {what}"), || {
                TArg::<C, D>::prove_with_srs_shift(s, (&i.a[..a], &i.b[..b]), (&i.ck_a[..ka], &i.ck_b[..kb], &i.ck_t), &r)
            });
        }
    }
    c.must_refuse("trusted argument, setup smaller than the statement", || {
        TArg::<C, D>::prove(&small, (&i.a, &i.b), i.ck())
    });
    c.event("setups smaller than the statement");
}

fn sarg<C: SCfg, V: Flavour<C>>(c: &mut Case) {
    let i = c.i;
    let n = pow2(i, &mut c.rng, 3);
    c.note("cfg", C::NAME);
    c.note("n", n);
    c.event(V::NAME);
    let i = S::<C, V>::nontrivial(c, 2 * n);
    c.key(&i.a);
    let pw = powers(i.b, 2 * n);
    let k = c.rng.gen_range(0..n);
    let l = [(2 * n, n, n), (n, 2 * n, n), (n, n, 2 * n), (2 * n, 2 * n, n), (n, 2 * n, 2 * n), (2 * n, n, 2 * n), (n, n, k), (n, k, n), (k, n, n), (n, n, n + 1), (n, n + 1, n)];
    for (a, b, ka) in l {
        let what = format!("message {}, powers {}, keys {}", rel(a, n), rel(b, n), rel(ka, n));
        c.must_refuse(&format!("scalar-powers argument, {what}"), || {
            V::prove_as::<C::IP, C::L, D>(&i.extra, &i.a[..a], &pw[..b], (&i.ck_a[..ka], &i.ck_t))
        });
    }
    if 2 * n > 3 {
        c.must_refuse("scalar-powers argument, length no power of two", || {
            V::prove_as::<C::IP, C::L, D>(&i.extra, &i.a[..3], &pw[..3], (&i.ck_a[..3], &i.ck_t))
        });
    }
    c.must_refuse("scalar-powers argument, nothing", || V::prove_as::<C::IP, C::L, D>(&i.extra, &[], &[], (&[], &i.ck_t)));
    // the transparent verifier gets all keys: other numbers of them do not fit the proof
    let p = c.must("prove", || S::<C, V>::prove::<D>(&i));
    c.must_accept("fitting keys", || S::<C, V>::verify::<D>(&i, i.com(), &i.b, &p));
    if V::NAME == "transparent" {
        let mut more = i.ck_a.clone();
        more.extend_from_slice(&i.ck_a);
        for m in [0, k, n, 2 * n - 1, 2 * n + 1, 4 * n] {
            c.must_reject("scalar-powers argument, verifier keys of another number", || {
                V::verify::<D>(&i.extra, (&more[..m], &i.ck_t), i.com(), &i.b, &p)
            });
        }
    }
}

fn basics<P: Pairing>(c: &mut Case) {
    let n = 1 + c.rng.gen_range(0..9usize);
    let m = loop {
        let m = c.rng.gen_range(0..12usize);
        if m != n {
            break m;
        }
    };
    c.note("lengths", format!("{n},{m}"));
    let s = if c.rng.gen_bool(0.5) { Shape::AllZero } else { Shape::Random };
    let (a, b): (Vec<P::G1>, Vec<P::G2>) = (points(&mut c.rng, n, s), points(&mut c.rng, m, s));
    let (x, y): (Vec<Fp<P>>, Vec<Fp<P>>) = (scalars(&mut c.rng, n, s), scalars(&mut c.rng, m, s));
    c.key(&(a.clone(), y.clone()));
    c.must_refuse("pairing inner product", || PairingInnerProduct::<P>::inner_product(&a, &b));
    c.must_refuse("multi-pairing", || cfg_multi_pairing::<P>(&a, &b).ok_or(()));
    c.must_refuse("multi-exponentiation", || MultiexponentiationInnerProduct::<P::G1>::inner_product(&a, &y));
    c.must_refuse("multi-exponentiation", || MultiexponentiationInnerProduct::<P::G2>::inner_product(&b, &x));
    c.must_refuse("scalar inner product", || ScalarInnerProduct::<Fp<P>>::inner_product(&x, &y));
    c.must_refuse("commit to left points", || AFGHOCommitmentG1::<P>::commit(&b, &a));
    c.must_refuse("commit to right points", || AFGHOCommitmentG2::<P>::commit(&a, &b));
    c.must_refuse("commit to scalars", || PedersenCommitment::<P::G1>::commit(&a, &y));
    c.must_refuse("verify commitment", || AFGHOCommitmentG1::<P>::verify(&b, &a, &Zero::zero()));
    c.must_refuse("verify commitment", || PedersenCommitment::<P::G2>::verify(&b, &x, &Zero::zero()));
    let aff = (P::G1::normalize_batch(&a), P::G2::normalize_batch(&b));
    c.must_refuse("product", || Ok::<_, ()>(product_of_pairings::<P>(&aff.0, &aff.1)));
    c.must_refuse("product with scalars", || Ok::<_, ()>(product_of_pairings_with_coeffs::<P>(&aff.0, &aff.1, &y)));
    c.must_refuse("product with scalars", || Ok::<_, ()>(product_of_pairings_with_coeffs::<P>(&aff.0, &aff.1, &x)));
    let q = c.rng.gen_range(0..n);
    c.must_refuse("product with fewer scalars", || {
        Ok::<_, ()>(product_of_pairings_with_coeffs::<P>(&aff.0, &vec![P::G2Affine::zero(); n], &x[..q]))
    });
    let _ = HomomorphicPlaceholderValue;
}

fn main() {
    main_with(Plan {
        property: "C26",
        rule: "fitting instances of every entry point that takes several vectors, then each length made to differ in every direction (one fewer, one more, half, double, none), polynomials over the room of a setup by one coefficient, a row, or all, rows too long or too many, public inputs that do not fit; non-trivial: a refusal was demanded, distinct by the instance",
        assumptions: vec!["an error, a panic and, for verifiers, a false verdict all count as refusal (C23 demands verdicts from the verifiers)"],
        required: vec!["polynomials over the room", "lengths that are no power of two", "batches smaller than the setup", "setups smaller than the statement", "transparent", "trusted", "accepted"],
        workloads: vec![
            wl("univariate-trusted", 16, 96, univariate::<B381, Structured>),
            wl("univariate-transparent", 16, 96, univariate::<B381, Transparent>),
            wl("bivariate-trusted", 16, 120, bivariate::<B381, Structured>),
            wl("bivariate-transparent", 16, 120, bivariate::<B381, Transparent>),
            wl("bivariate-377", 3, 30, bivariate::<B377, Structured>),
            wl("powers", 16, 80, kzg::<B381>),
            wl("sipp", 12, 100, sipp::<B381>),
            wl("sipp-377", 6, 40, sipp::<B377>),
            wl("aggregate", 16, 120, aggregate::<B381>),
            wl("aggregate-377", 4, 30, aggregate::<B377>),
            wl("gipa-pairing", 10, 60, arg::<PairCfg<B381>>),
            wl("gipa-msm", 10, 60, arg::<MsmCfg<B381>>),
            wl("gipa-scalar", 15, 100, arg::<ScalarCfg<B381>>),
            wl("gipa-msm-afgho-out", 6, 40, arg::<MsmAfghoCfg<B381>>),
            wl("tipa-pairing", 8, 50, targ::<PairCfg<B381>>),
            wl("tipa-msm", 8, 50, targ::<MsmCfg<B381>>),
            wl("tipa-scalar", 8, 50, targ::<ScalarCfg<B381>>),
            wl("ssm-msm", 8, 60, sarg::<MsmCfg<B381>, Plain>),
            wl("ssm-scalar", 8, 60, sarg::<ScalarCfg<B381>, Plain>),
            wl("ssm-msm-trusted", 8, 60, sarg::<MsmCfg<B381>, Trusted>),
            wl("ssm-scalar-trusted", 8, 60, sarg::<ScalarCfg<B381>, Trusted>),
            wl("basics", 60, 600, basics::<B381>),
            wl("basics-377", 20, 100, basics::<B377>),
            wl("mini-bivariate", 160, 600, bivariate::<Mini, Structured>),
            wl("mini-sipp", 160, 600, sipp::<Mini>),
            wl("mini-aggregate", 160, 600, aggregate::<Mini>),
            wl("mini-gipa", 160, 600, arg::<PairCfg<Mini>>),
            wl("mini-tipa", 160, 600, targ::<MsmCfg<Mini>>),
            wl("mini-ssm", 160, 600, sarg::<MsmCfg<Mini>, Trusted>),
            wl("mini-basics", 240, 1000, basics::<Mini>),
        ],
    })
}
