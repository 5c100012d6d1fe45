//! C16: trusted-setup polynomial commitments accept no wrong evaluation.
use ark_ec::pairing::Pairing;
use ark_poly::{univariate::DensePolynomial, DenseUVPolynomial};
use ark_std::rand::Rng;
use blake2::{Blake2b, Blake2s};
use digest::Digest;
use ripp_mon::*;

fn run<P: Pairing, D: Digest>(
    mx: u32,
    m: u32,
    f: impl Fn(&mut Case, &PcInst<P, Structured>),
) -> impl Fn(&mut Case) {
    move |c| {
        let (mx, m) = if c.tier == Tier::Thorough { (mx + 2, m + 2) } else { (mx, m) };
        let i = c.i;
        let x = pow2(i % 6, &mut c.rng, mx) - 1;
        let y = c.rng.gen_range(0..=(1usize << m));
        c.note("degrees", format!("{x},{y}"));
        let i = M::<P, Structured>::rich(c, x, y);
        c.key(&(i.rows.clone(), i.z));
        f(c, &i);
    }
}

/// Widths and heights that a byte does not hold.
fn wide(c: &mut Case) {
    let (x, y) = [(511, 1), (1, 511), (0, 511), (255, 3)][c.i % 4];
    c.note("degrees", format!("{x},{y}"));
    let i = M::<B381, Structured>::rich(c, x, y);
    c.key(&(i.rows.clone(), i.z));
    M::<B381, Structured>::statement::<Blake2b>(c, &i);
    M::<B381, Structured>::mixed::<Blake2b>(c, &i);
    c.event("wide");
}

/// Widths and heights that two bytes do not hold.
fn huge(c: &mut Case) {
    let (x, y) = [(131071, 0), (0, 131071)][c.i % 2];
    c.note("degrees", format!("{x},{y}"));
    let i = M::<Mini, Structured>::rich(c, x, y);
    c.key(&(i.rows.clone(), i.z));
    M::<Mini, Structured>::statement::<Blake2b>(c, &i);
    M::<Mini, Structured>::mixed::<Blake2b>(c, &i);
    c.event("huge");
}

/// The one-variable interface: every part of the statement matters.
fn uni<P: Pairing, D: Digest>(c: &mut Case) {
    type S = Structured;
    let max = [3usize, 8, 15, 30, 64, 100, 255, 300][c.i % 8];
    c.note("max degree", max);
    let mut r = c.fork();
    let ck = c.must("setup", || <S as Pc<P>>::usetup(&mut r, max));
    let vk = <S as Pc<P>>::vk(&ck);
    let co: Vec<Fp<P>> = scalars(&mut c.rng, max + 1, Shape::Random);
    let p = DensePolynomial::from_coefficients_vec(co.clone());
    let z: Fp<P> = nonzero(&mut c.rng);
    c.key(&(co.clone(), z));
    let (com, comms) = c.must("commit", || <S as Pc<P>>::ucommit(&ck, &p));
    let e = ref_ueval(&p.coeffs, z);
    let o = c.must("open", || <S as Pc<P>>::uopen::<D>(&ck, &p, &comms, &z));
    c.must_accept("verify", || <S as Pc<P>>::uverify::<D>(&vk, max, &com, &z, &e, &o));
    // a polynomial that differs in one coefficient
    let k = c.pick(&[0, 1, max / 2, max]);
    let mut co2 = co.clone();
    co2[k] += nonzero::<Fp<P>>(&mut c.rng);
    let p2 = DensePolynomial::from_coefficients_vec(co2);
    let e2 = ref_ueval(&p2.coeffs, z);
    let (com2, comms2) = c.must("commit", || <S as Pc<P>>::ucommit(&ck, &p2));
    c.check("one coefficient changes the commitment", com2 != com);
    let o2 = c.must("open other", || <S as Pc<P>>::uopen::<D>(&ck, &p2, &comms2, &z));
    c.must_reject("opening of another polynomial", || <S as Pc<P>>::uverify::<D>(&vk, max, &com, &z, &e2, &o2));
    let o3 = c.must("open other over these rows", || <S as Pc<P>>::uopen::<D>(&ck, &p2, &comms, &z));
    c.must_reject("other polynomial over the committed rows", || <S as Pc<P>>::uverify::<D>(&vk, max, &com, &z, &e2, &o3));
    c.must_reject("value of another polynomial", || <S as Pc<P>>::uverify::<D>(&vk, max, &com, &z, &e2, &o));
    c.must_reject("commitment of another polynomial", || <S as Pc<P>>::uverify::<D>(&vk, max, &com2, &z, &e, &o));
    let z2: Fp<P> = nonzero(&mut c.rng);
    let ez = ref_ueval(&p.coeffs, z2);
    c.must_reject("another point", || <S as Pc<P>>::uverify::<D>(&vk, max, &com, &z2, &e, &o));
    let o4 = c.must("open elsewhere", || <S as Pc<P>>::uopen::<D>(&ck, &p, &comms, &z2));
    c.must_reject("opening at another point", || <S as Pc<P>>::uverify::<D>(&vk, max, &com, &z, &ez, &o4));
    // p(-z), p(z) with rows reversed, the shifted polynomial x p(x)
    let en = ref_ueval(&p.coeffs, -z);
    let o5 = c.must("open at the negative", || <S as Pc<P>>::uopen::<D>(&ck, &p, &comms, &(-z)));
    c.must_reject("opening at the negative point", || <S as Pc<P>>::uverify::<D>(&vk, max, &com, &z, &en, &o5));
}

fn main() {
    main_with(Plan {
        property: "C16",
        rule: "forged openings for random polynomials and points: altered statement components, tiers of different provers joined, both tiers and their link shifted or doubled together by lying provers, foreign row factors and exchanged rows; non-trivial: the claim is false, distinct by polynomial and point",
        assumptions: vec!["curve and field arithmetic, discrete logarithms and the hash functions are trusted", "soundness is refuted by the listed attacks, not proved"],
        required: vec!["rejected:false", "wide", "coordinate zero", "folded row and value shifted by a constant", "value, link and tiers doubled", "second tier honest, first tier and link of another", "rows exchanged"],
        workloads: vec![
            wl("wide", 2, 8, wide),
            wl("huge", 2, 4, huge),
            wl("statement", 30, 300, run::<B381, Blake2b>(3, 3, |c, i| M::<B381, Structured>::statement::<Blake2b>(c, i))),
            wl("mixed", 30, 300, run::<B381, Blake2b>(3, 3, |c, i| M::<B381, Structured>::mixed::<Blake2b>(c, i))),
            wl("lies", 30, 300, run::<B381, Blake2b>(3, 3, |c, i| M::<B381, Structured>::lies::<Blake2b>(c, i))),
            wl("lies-377", 6, 60, run::<B377, Blake2s>(2, 2, |c, i| M::<B377, Structured>::lies::<Blake2s>(c, i))),
            wl("mixed-377", 4, 60, run::<B377, Blake2s>(2, 2, |c, i| M::<B377, Structured>::mixed::<Blake2s>(c, i))),
            wl("univariate", 16, 120, uni::<B381, Blake2b>),
            wl("mini-statement", 320, 2000, run::<Mini, Blake2b>(4, 4, |c, i| M::<Mini, Structured>::statement::<Blake2b>(c, i))),
            wl("mini-mixed", 320, 2000, run::<Mini, Blake2b>(4, 4, |c, i| M::<Mini, Structured>::mixed::<Blake2b>(c, i))),
            wl("mini-lies", 320, 2000, run::<Mini, Blake2b>(4, 4, |c, i| M::<Mini, Structured>::lies::<Blake2b>(c, i))),
            wl("mini-univariate", 240, 1000, uni::<Mini, Blake2b>),
        ],
    })
}
