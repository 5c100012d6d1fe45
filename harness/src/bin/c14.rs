//! C14: polynomial commitments with trusted powers open exactly to the true values.
use ark_ec::pairing::Pairing;
use ark_ff::{One, UniformRand, Zero};
use ark_ip_proofs::applications::poly_commit::KZG;
use ark_poly::{univariate::DensePolynomial, DenseUVPolynomial};
use ark_std::rand::Rng;
use ripp_mon::*;

type Poly<P> = DensePolynomial<Fp<P>>;

fn gen<P: Pairing>(c: &mut Case, cap: usize) -> Poly<P> {
    let k = c.rng.gen_range(0..6);
    c.note("polynomial", ["full", "full", "any length", "zero", "constant", "shaped"][k]);
    let s = shape(&mut c.rng);
    let co = match k {
        0 | 1 => scalars(&mut c.rng, cap, Shape::Random),
        2 => {
            let n = c.rng.gen_range(0..=cap);
            scalars(&mut c.rng, n, Shape::Random)
        }
        3 => vec![],
        4 => vec![Fp::<P>::rand(&mut c.rng)],
        _ => scalars(&mut c.rng, cap, s),
    };
    DensePolynomial::from_coefficients_vec(co)
}

fn kzg<P: Pairing>(mq: usize, mt: usize) -> impl Fn(&mut Case) {
    move |c| {
        let m = if c.tier == Tier::Thorough { mt } else { mq };
        let deg = if c.i < 10 { c.i } else { c.rng.gen_range(0..=m) };
        c.note("degree", deg);
        let mut r = c.fork();
        let (pw, v) = c.must("setup", || KZG::<P>::setup(&mut r, deg));
        c.check("one power per coefficient", pw.len() == deg + 1);
        let p = gen::<P>(c, deg + 1);
        let q = gen::<P>(c, deg + 1);
        let com = c.must("commit", || KZG::<P>::commit(&pw, &p));
        let coq = c.must("commit", || KZG::<P>::commit(&pw, &q));
        let g: Vec<P::G1> = pw.iter().map(|x| (*x).into()).collect();
        c.check("commitment equals its definition", com == ref_msm(&g, &p.coeffs));
        c.check("commitments add", c_sum::<P>(&pw, &p, &q) == com + coq);
        c.check("commitments distinguish polynomials", (p == q) == (com == coq));
        let mut pts: Vec<Fp<P>> = vec![coord(c), Fp::<P>::zero()];
        // a polynomial with a known root
        let root: Fp<P> = coord(c);
        let mut polys = vec![(p.clone(), com), (q, coq)];
        if deg >= 1 {
            let f = DensePolynomial::from_coefficients_vec(scalars(&mut c.rng, deg, Shape::Random));
            let lin = DensePolynomial::from_coefficients_vec(vec![-root, Fp::<P>::one()]);
            let z = f.naive_mul(&lin);
            let cz = c.must("commit", || KZG::<P>::commit(&pw, &z));
            polys.push((z, cz));
            pts.push(root);
        }
        for (k, (p, com)) in polys.iter().enumerate() {
            for z in pts.iter().skip(k % 2) {
                c.key(&(p.coeffs.clone(), *z));
                let e = ref_ueval(&p.coeffs, *z);
                let o = c.must("open", || KZG::<P>::open(&pw, p, z));
                c.must_accept("verify", || KZG::<P>::verify(&v, com, z, &e, &o));
                if e.is_zero() {
                    c.event("value zero");
                }
                let d: Fp<P> = nonzero(&mut c.rng);
                let gd = g1::<P>() * d;
                for (what, e2) in [("another value", e + d), ("value negated", -e), ("value plus one", e + Fp::<P>::one()), ("value zero", Fp::<P>::zero())] {
                    if e2 != e {
                        c.must_reject(what, || KZG::<P>::verify(&v, com, z, &e2, &o));
                    }
                }
                let z2 = *z + d;
                let e2 = ref_ueval(&p.coeffs, z2);
                if e2 != e {
                    c.must_reject("another point, this value", || KZG::<P>::verify(&v, com, &z2, &e, &o));
                    let o2 = c.must("open elsewhere", || KZG::<P>::open(&pw, p, &z2));
                    c.must_reject("opening and value of another point", || KZG::<P>::verify(&v, com, z, &e2, &o2));
                }
                c.must_reject("commitment moved", || KZG::<P>::verify(&v, &(*com + gd), z, &e, &o));
                c.must_reject("opening moved", || KZG::<P>::verify(&v, com, z, &e, &(o + gd)));
                c.must_reject("value and opening moved", || KZG::<P>::verify(&v, com, z, &(e + d), &(o + gd)));
                c.must_reject("value and opening moved oppositely", || KZG::<P>::verify(&v, com, z, &(e + d), &(o - gd)));
                if o.is_zero() {
                    c.event("neutral opening");
                }
                for e2 in [e + d, Fp::<P>::one(), -e] {
                    if e2 != e {
                        c.must_reject("neutral opening, another value", || KZG::<P>::verify(&v, com, z, &e2, &P::G1::zero()));
                    }
                }
                if !e.is_zero() {
                    c.must_reject("neutral opening for value zero", || KZG::<P>::verify(&v, com, z, &Fp::<P>::zero(), &P::G1::zero()));
                    c.must_reject("value and opening doubled", || KZG::<P>::verify(&v, com, z, &(e + e), &(o + o)));
                    c.must_reject("value and opening negated", || KZG::<P>::verify(&v, com, z, &-e, &-o));
                }
            }
        }
        // another setup
        let mut r = c.fork();
        let (pw2, v2) = c.must("setup", || KZG::<P>::setup(&mut r, deg));
        let (p, com) = &polys[0];
        if p.coeffs.len() > 1 {
            let z = nonzero(&mut c.rng);
            let e = ref_ueval(&p.coeffs, z);
            let o = c.must("open", || KZG::<P>::open(&pw, p, &z));
            c.must_reject("verifier of another setup", || KZG::<P>::verify(&v2, com, &z, &e, &o));
            let com2 = c.must("commit", || KZG::<P>::commit(&pw2, p));
            c.must_reject("commitment of another setup", || KZG::<P>::verify(&v, &com2, &z, &e, &o));
        }
        // more coefficients than powers
        let big = DensePolynomial::from_coefficients_vec(scalars(&mut c.rng, deg + 2, Shape::Random));
        c.must_refuse("commit over capacity", || KZG::<P>::commit(&pw, &big));
        let z = coord(c);
        c.must_refuse("open over capacity", || KZG::<P>::open(&pw, &big, &z));
    }
}

fn c_sum<P: Pairing>(pw: &[P::G1Affine], p: &Poly<P>, q: &Poly<P>) -> P::G1 {
    KZG::<P>::commit(pw, &(p + q)).expect("commit")
}

fn main() {
    main_with(Plan {
        property: "C14",
        rule: "every degree from 0 to 9 and random ones up to the bound, full, short, zero, constant, shaped polynomials and polynomials with a known root, at edge points, zero and roots, on two curves; each honest opening is accepted and twelve altered claims about it are judged; non-trivial: an honest opening was judged, distinct by polynomial and point",
        assumptions: vec!["curve and field arithmetic and polynomial division are trusted"],
        required: vec!["accepted", "rejected:false", "value zero", "value and opening moved", "commit over capacity", "opening and value of another point"],
        workloads: vec![
            wl("kzg", 60, 500, kzg::<B381>(40, 300)),
            wl("kzg-377", 12, 100, kzg::<B377>(16, 100)),
            wl("kzg-mini", 480, 3000, kzg::<Mini>(120, 700)),
        ],
    })
}
