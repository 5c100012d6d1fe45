//! C21: setups are well-formed, fresh and usable for exactly their size.
use ark_dh_commitments::{random_generators, DoublyHomomorphicCommitment as DHC};
use ark_ec::{pairing::{Pairing, PairingOutput}, CurveGroup};
use ark_ff::{One, UniformRand, Zero};
use ark_ip_proofs::applications::{
    groth16_aggregation::setup_inner_product,
    poly_commit::{self as pcm, transparent as pct},
};
use ark_ip_proofs::gipa::GIPA;
use ark_ip_proofs::tipa::{structured_scalar_message::*, *};
use ark_std::rand::{Rng};
use blake2::Blake2b;
use ripp_mon::*;
use std::marker::PhantomData;

/// Every consecutive pair of the elements has the ratio e(g, up) : e(g, h), by one random combination.
fn ladder<P: Pairing>(c: &mut Case, what: &str, g: &[P::G1], up: P::G2) {
    if g.len() < 2 {
        return;
    }
    let rho: Vec<Fp<P>> = (1..g.len()).map(|_| Fp::<P>::rand(&mut c.rng)).collect();
    let (lo, hi) = (ref_msm(&g[..g.len() - 1], &rho), ref_msm(&g[1..], &rho));
    c.check(what, P::pairing(hi, g2::<P>()) == P::pairing(lo, up));
}
fn ladder2<P: Pairing>(c: &mut Case, what: &str, h: &[P::G2], up: P::G1) {
    if h.len() < 2 {
        return;
    }
    let rho: Vec<Fp<P>> = (1..h.len()).map(|_| Fp::<P>::rand(&mut c.rng)).collect();
    let (lo, hi) = (ref_msm(&h[..h.len() - 1], &rho), ref_msm(&h[1..], &rho));
    c.check(what, P::pairing(g1::<P>(), hi) == P::pairing(up, lo));
}

fn distinct<G: CurveGroup>(c: &mut Case, what: &str, v: &[G]) {
    let mut s: Vec<Vec<u8>> = v.iter().map(ser_c).collect();
    s.sort();
    s.dedup();
    c.check(what, s.len() == v.len() && v.iter().all(|x| !x.is_zero()));
}

/// Structure of powers of two secrets; `one_g` for the setup that has a single left power.
fn structure<P: Pairing>(c: &mut Case, srs: &SRS<P>, g_len: usize, h_len: usize, n: usize) {
    c.check("as many powers as the size needs", srs.g_alpha_powers.len() == g_len && srs.h_beta_powers.len() == h_len);
    c.check("powers start at the generators", srs.g_alpha_powers[0] == g1::<P>() && srs.h_beta_powers[0] == g2::<P>());
    ladder::<P>(c, "left elements are consecutive powers", &srs.g_alpha_powers, srs.h_alpha);
    ladder2::<P>(c, "right elements are consecutive powers", &srs.h_beta_powers, srs.g_beta);
    secrets::<P>(c, &srs.g_beta, &srs.h_alpha);
    if c.i % 3 == 0 {
        relations::<P>(c, srs);
    }
    distinct(c, "left powers distinct and not neutral", &srs.g_alpha_powers);
    distinct(c, "right powers distinct and not neutral", &srs.h_beta_powers);
    let v = srs.get_verifier_key();
    c.check(
        "verifier key is the first powers and the cross elements",
        v.g == srs.g_alpha_powers[0] && v.h == srs.h_beta_powers[0] && v.g_beta == srs.g_beta && v.h_alpha == srs.h_alpha,
    );
    let (ck_1, ck_2) = srs.get_commitment_keys();
    let even1: Vec<_> = (0..n).map(|i| srs.h_beta_powers[2 * i]).collect();
    c.check("left keys are the even right powers, as many as asked for", ck_1 == even1);
    let m = (g_len + 1) / 2;
    let even2: Vec<_> = (0..m).map(|i| srs.g_alpha_powers[2 * i]).collect();
    c.check("right keys are the even left powers", ck_2 == even2);
}

/// No small relation between the powers of the two sides, seen in the target group.
fn relations<P: Pairing>(c: &mut Case, srs: &SRS<P>) {
    let (g, h) = (g1::<P>(), g2::<P>());
    let one = P::pairing(g, h);
    let m = srs.g_alpha_powers.len().min(5);
    let k = srs.h_beta_powers.len().min(5);
    let mut a: Vec<_> = (1..m).map(|i| P::pairing(srs.g_alpha_powers[i], h)).collect();
    let mut b: Vec<_> = (1..k).map(|i| P::pairing(g, srs.h_beta_powers[i])).collect();
    if a.is_empty() {
        a.push(P::pairing(g, srs.h_alpha));
    }
    if b.is_empty() {
        b.push(P::pairing(srs.g_beta, h));
    }
    let small = |d: PairingOutput<P>| (0u64..=8).any(|k| d == one * Fp::<P>::from(k) || d == -(one * Fp::<P>::from(k)));
    for (i, x) in a.iter().enumerate() {
        c.check("a left power is no small scalar", !small(*x));
        for (j, y) in b.iter().enumerate() {
            let ok = !small(*x - y) && !small(*x + y);
            c.check_with("powers of the two sides are unrelated", ok, || format!("left {} right {}", i + 1, j + 1));
            for f in 2u64..=4 {
                let f = Fp::<P>::from(f);
                c.check("powers of the two sides are no small multiples", *x * f != *y && *y * f != *x);
            }
        }
    }
    for y in &b {
        c.check("a right power is no small scalar", !small(*y));
    }
    let cross = P::pairing(srs.g_beta, srs.h_alpha);
    c.check("the secrets' product is no small scalar", !small(cross));
}

/// Neither secret is trivial, and they are not one secret.
fn secrets<P: Pairing>(c: &mut Case, g_beta: &P::G1, h_alpha: &P::G2) {
    let one = P::pairing(g1::<P>(), g2::<P>());
    let (b, a) = (P::pairing(*g_beta, g2::<P>()), P::pairing(g1::<P>(), *h_alpha));
    let prod = P::pairing(*g_beta, *h_alpha);
    c.check("the secrets are neither opposite nor inverse", !(a + b).is_zero() && prod != one && prod != -one);
    c.check("secrets are not zero", !g_beta.is_zero() && !h_alpha.is_zero());
    c.check("secrets are not one", *g_beta != g1::<P>() && *h_alpha != g2::<P>());
    c.check("the two sides have different secrets", P::pairing(*g_beta, g2::<P>()) != P::pairing(g1::<P>(), *h_alpha));
}

fn same_srs<P: Pairing>(a: &SRS<P>, b: &SRS<P>) -> bool {
    a.g_alpha_powers == b.g_alpha_powers && a.h_beta_powers == b.h_beta_powers && a.g_beta == b.g_beta && a.h_alpha == b.h_alpha
}

/// No element besides the generators in common.
fn fresh_srs<P: Pairing>(c: &mut Case, a: &SRS<P>, b: &SRS<P>) {
    let x = |s: &SRS<P>| -> Vec<Vec<u8>> {
        let mut v: Vec<_> = s.g_alpha_powers.iter().skip(1).map(ser_c).collect();
        v.extend(s.h_beta_powers.iter().skip(1).map(ser_c));
        v.push(ser_c(&s.g_beta));
        v.push(ser_c(&s.h_alpha));
        v
    };
    let (a, b) = (x(a), x(b));
    c.check("two setups share no secret element", a.iter().all(|e| !b.contains(e)));
}

/// Secrets made of fewer random bits than this could be searched for.
fn drawn(c: &mut Case, r: &CountRng) {
    let b = r.bytes;
    c.check_with("setup draws at least a seed's worth of randomness", b >= 32, || format!("{b} bytes drawn"));
}

fn size(c: &mut Case, max: usize) -> usize {
    let n = match c.i {
        0..=8 => c.i + 1,
        _ => c.rng.gen_range(1..=max),
    };
    c.note("n", n);
    n
}

/// Two independent streams, and one of them twice.
fn streams(c: &mut Case) -> (CountRng, CountRng, CountRng) {
    let (s, t): (u64, u64) = (c.rng.gen(), c.rng.gen());
    c.note("streams", format!("{s} {t}"));
    (CountRng::new(s), CountRng::new(s), CountRng::new(t))
}

fn trusted<P: Pairing>(c: &mut Case, name: &str, n: usize, f: impl Fn(&mut CountRng) -> Lib<SRS<P>>) {
    c.event(name);
    let (mut r, mut r2, mut q) = streams(c);
    let a = c.must("setup", || f(&mut r));
    drawn(c, &r);
    structure::<P>(c, &a, 2 * n - 1, 2 * n - 1, n);
    let b = c.must("setup again", || f(&mut r2));
    c.check("one stream, one setup", same_srs(&a, &b));
    c.check("one stream, one position after", r.gen::<u64>() == r2.gen::<u64>());
    let d = c.must("setup from another stream", || f(&mut q));
    fresh_srs(c, &a, &d);
    let e = c.must("next setup from the same stream", || f(&mut r));
    fresh_srs(c, &a, &e);
    structure::<P>(c, &e, 2 * n - 1, 2 * n - 1, n);
    c.key(&(a.g_alpha_powers.last().unwrap().into_affine(), n as u64));
}

fn tipa<C: TCfg>(c: &mut Case) {
    let n = size(c, if c.tier == Tier::Thorough { 300 } else { 40 });
    c.note("cfg", C::NAME);
    trusted::<C::P>(c, "TIPA::setup", n, |r| Ok(TArg::<C, Blake2b>::setup(r, n)?.0));
}
fn ssm<C: SCfg + TCfg>(c: &mut Case) {
    let n = size(c, if c.tier == Tier::Thorough { 300 } else { 40 });
    c.note("cfg", C::NAME);
    trusted::<C::P>(c, "TIPAWithSSM::setup", n, |r| {
        Ok(TIPAWithSSM::<C::IP, C::L, C::T, C::P, Blake2b>::setup(r, n)?.0)
    });
}
fn agg<P: Pairing>(c: &mut Case) {
    let n = size(c, if c.tier == Tier::Thorough { 300 } else { 40 });
    trusted::<P>(c, "setup_inner_product", n, |r| setup_inner_product::<P, Blake2b, _>(r, n));
}

fn kzg<P: Pairing>(c: &mut Case) {
    let d = size(c, 60) - 1;
    c.event("KZG::setup");
    let (mut r, mut r2, mut q) = streams(c);
    let (g, v) = c.must("setup", || pcm::KZG::<P>::setup(&mut r, d));
    drawn(c, &r);
    c.check("one power per coefficient", g.len() == d + 1);
    let gp: Vec<P::G1> = g.iter().map(|x| (*x).into()).collect();
    c.check("powers start at the generators", gp[0] == g1::<P>() && v.g == g1::<P>() && v.h == g2::<P>());
    ladder::<P>(c, "elements are consecutive powers", &gp, v.h_alpha);
    distinct(c, "powers distinct and not neutral", &gp);
    secrets::<P>(c, &v.g_beta, &v.h_alpha);
    let (g2_, v2) = c.must("setup again", || pcm::KZG::<P>::setup(&mut r2, d));
    c.check("one stream, one setup", g2_ == g && v2.h_alpha == v.h_alpha && v2.g_beta == v.g_beta);
    let (_, w) = c.must("setup from another stream", || pcm::KZG::<P>::setup(&mut q, d));
    c.check("two setups share no secret element", w.h_alpha != v.h_alpha && w.g_beta != v.g_beta);
    c.key(&(v.h_alpha, d as u64));
}

/// What capacity the setup of a one-variable scheme must have.
fn poly<P: Pairing>(c: &mut Case) {
    let k = c.i % 2;
    let (x, y) = (c.rng.gen_range(0..12), c.rng.gen_range(0..24));
    let deg = c.rng.gen_range(0..if c.tier == Tier::Thorough { 3000 } else { 300 });
    let (mut r, mut r2, mut q) = streams(c);
    let f = |r: &mut CountRng| -> Lib<(SRS<P>, Vec<P::G1Affine>)> {
        if k == 0 {
            pcm::BivariatePolynomialCommitment::<P, Blake2b>::setup(r, x, y)
        } else {
            pcm::UnivariatePolynomialCommitment::<P, Blake2b>::setup(r, deg)
        }
    };
    c.event(["bivariate setup", "univariate setup"][k]);
    c.note("degrees", if k == 0 { format!("{x},{y}") } else { format!("{deg}") });
    let a = c.must("setup", || f(&mut r));
    drawn(c, &r);
    let (gx, gy) = (a.0.h_beta_powers.len() / 2, a.1.len() - 1);
    if k == 0 {
        c.check("the degrees asked for", (gx, gy) == (x, y) && a.0.h_beta_powers.len() == 2 * x + 1);
    } else {
        c.check_with("capacity for the degree asked for", (gx + 1) * (gy + 1) > deg, || format!("{gx},{gy} for {deg}"));
        c.check("row count a power of two", (gx + 1).is_power_of_two());
    }
    structure::<P>(c, &a.0, 1, 2 * gx + 1, gx + 1);
    let rows: Vec<P::G1> = a.1.iter().map(|x| (*x).into()).collect();
    c.check("row powers start at the generator", rows[0] == g1::<P>());
    ladder::<P>(c, "row elements are consecutive powers", &rows, a.0.h_alpha);
    distinct(c, "row powers distinct and not neutral", &rows);
    let b = c.must("setup again", || f(&mut r2));
    c.check("one stream, one setup", same_srs(&a.0, &b.0) && a.1 == b.1);
    let d = c.must("setup from another stream", || f(&mut q));
    fresh_srs(c, &a.0, &d.0);
    c.key(&(a.0.h_alpha, (gx as u64, gy as u64)));
}

/// Setups made of independent elements: no structure may exist, nothing may repeat.
fn random_keys<P: Pairing>(c: &mut Case) {
    let n = size(c, 80);
    let (mut r, mut r2, mut q) = streams(c);
    let k = c.i % 5;
    type Keys<P> = (Vec<<P as Pairing>::G1>, Vec<<P as Pairing>::G2>);
    let f = |r: &mut CountRng| -> Lib<Keys<P>> {
        Ok(match k {
            0 => {
                let (a, b, t) = GIPA::<
                    <PairCfg<P> as Cfg>::IP,
                    <PairCfg<P> as Cfg>::L,
                    <PairCfg<P> as Cfg>::R,
                    <PairCfg<P> as Cfg>::T,
                    Blake2b,
                >::setup(r, n)?;
                let _ = t;
                (b, a)
            }
            1 => {
                let (a, b, t) = Arg::<ScalarPedCfg<P>, Blake2b>::setup(r, n)?;
                let mut b = b;
                b.push(t);
                (b, a)
            }
            2 => {
                let (a, _) = GIPAWithSSM::<
                    <MsmCfg<P> as Cfg>::IP,
                    <MsmCfg<P> as Cfg>::L,
                    <MsmCfg<P> as Cfg>::T,
                    Blake2b,
                >::setup(r, n)?;
                (vec![], a)
            }
            3 => pct::BivariatePolynomialCommitment::<P, Blake2b>::setup(r, n - 1, 2 * n)?,
            _ => (random_generators(r, n), <<PairCfg<P> as Cfg>::L as DHC>::setup(r, n)?),
        })
    };
    c.event(["GIPA::setup", "GIPA::setup with a product key", "GIPAWithSSM::setup", "transparent setup", "generators"][k]);
    let a = c.must("setup", || f(&mut r));
    drawn(c, &r);
    let want = [(n, n), (n + 1, n), (0, n), (2 * n + 1, n), (n, n)][k];
    c.check("as many keys as asked for", (a.0.len(), a.1.len()) == want);
    distinct(c, "left keys distinct and not neutral", &a.0);
    distinct(c, "right keys distinct and not neutral", &a.1);
    // negations and the generators count as known relations too
    let mut all: Vec<P::G1> = a.0.iter().flat_map(|x| [*x, -*x]).collect();
    all.extend([g1::<P>(), -g1::<P>()]);
    distinct(c, "keys unrelated to each other and the generator", &all);
    let mut all: Vec<P::G2> = a.1.iter().flat_map(|x| [*x, -*x]).collect();
    all.extend([g2::<P>(), -g2::<P>()]);
    distinct(c, "keys unrelated to each other and the generator", &all);
    let b = c.must("setup again", || f(&mut r2));
    c.check("one stream, one setup", a == b);
    for (what, mut s) in [("setup from another stream", q.clone()), ("next setup from the same stream", r.clone())] {
        let d = c.must(what, || f(&mut s));
        c.check("two setups share no element", a.0.iter().all(|e| !d.0.contains(e)) && a.1.iter().all(|e| !d.1.contains(e)));
    }
    let _ = q.gen::<u8>();
    c.key(&(a.1.clone(), k as u64));
}

/// One-variable transparent setups have room for their degree.
fn transparent_uni<P: Pairing>(c: &mut Case) {
    let deg = if c.i < 6 { c.i } else { c.rng.gen_range(0..400) };
    c.note("degree", deg);
    c.event("transparent univariate setup");
    let mut r = c.fork();
    let k = c.must("setup", || pct::UnivariatePolynomialCommitment::<P, Blake2b>::setup(&mut r, deg));
    c.check("capacity for the degree asked for", k.0.len() * k.1.len() > deg);
    c.check("sizes are powers of two", k.0.len().is_power_of_two() && k.1.len().is_power_of_two());
    distinct(c, "row keys distinct and not neutral", &k.0);
    distinct(c, "column keys distinct and not neutral", &k.1);
    c.key(&k.0);
}

fn powers_of<G: CurveGroup>(c: &mut Case) {
    let num = match c.i {
        0..=9 => c.i + 1,
        _ => c.rng.gen_range(1..200),
    };
    let g = match c.rng.gen_range(0..4) {
        0 => G::generator(),
        1 => G::zero(),
        _ => G::rand(&mut c.rng),
    };
    let s = match c.rng.gen_range(0..3) {
        0 => edge_scalar::<G::ScalarField>(&mut c.rng),
        _ => G::ScalarField::rand(&mut c.rng),
    };
    c.note("num", num);
    c.note("s", s);
    let v = c.must("structured_generators_scalar_power", || {
        Ok::<_, ()>(structured_generators_scalar_power(num, &g, &s))
    });
    let mut p = G::ScalarField::one();
    let mut ok = v.len() == num;
    for x in &v {
        ok &= *x == g * p;
        p *= s;
    }
    c.check("exactly the multiples by the scalar's powers", ok);
    c.key(&(g, s));
    let w = structured_scalar_power(num, &s);
    c.check("exactly the scalar's powers", w == powers(s, num));
    let _ = PhantomData::<G>;
}

fn main() {
    main_with(Plan {
        property: "C21",
        rule: "all setup entry points at sizes 1 to the bound (also no powers of two), several random streams each, two curves; structure checked by pairings over random combinations of all elements; non-trivial: a setup was produced and its structure judged, distinct by its elements",
        assumptions: vec![
            "curve and field arithmetic and the caller's random generator are trusted",
            "a random combination hides a wrong power with probability about 2^-255",
        ],
        required: vec![
            "TIPA::setup", "TIPAWithSSM::setup", "setup_inner_product", "KZG::setup", "bivariate setup", "univariate setup",
            "GIPA::setup", "GIPA::setup with a product key", "GIPAWithSSM::setup", "transparent setup", "generators",
            "transparent univariate setup", "two setups share no secret element", "powers of the two sides are unrelated", "setup draws at least a seed's worth of randomness",
        ],
        workloads: vec![
            wl("tipa", 24, 200, tipa::<PairCfg<B381>>),
            wl("tipa-377", 8, 60, tipa::<ScalarPedCfg<B377>>),
            wl("tipa-ssm", 20, 160, ssm::<MsmCfg<B381>>),
            wl("tipa-ssm-377", 6, 60, ssm::<ScalarCfg<B377>>),
            wl("aggregation", 20, 160, agg::<B381>),
            wl("kzg", 24, 200, kzg::<B381>),
            wl("kzg-377", 8, 60, kzg::<B377>),
            wl("poly", 24, 200, poly::<B381>),
            wl("poly-377", 6, 60, poly::<B377>),
            wl("random", 25, 200, random_keys::<B381>),
            wl("random-377", 10, 60, random_keys::<B377>),
            wl("transparent-univariate", 16, 100, transparent_uni::<B381>),
            wl("powers-g1", 30, 300, powers_of::<<B381 as Pairing>::G1>),
            wl("powers-g2", 20, 200, powers_of::<<B381 as Pairing>::G2>),
            wl("powers-377", 14, 100, powers_of::<<B377 as Pairing>::G1>),
            wl("mini-powers", 400, 2000, powers_of::<<Mini as Pairing>::G1>),
        ],
    })
}
