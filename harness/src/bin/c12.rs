//! C12: the pairing-product argument accepts no false value.
use ark_ec::pairing::*;
use ark_ff::{Field, Zero};
use ark_sipp::Proof;
use ark_std::rand::Rng;
use blake2::Blake2s;
use ripp_mon::*;

fn gt<P: Pairing>(c: &mut Case) -> PairingOutput<P> {
    egh::<P>() * nonzero::<Fr<P>>(&mut c.rng)
}

fn attacks<P: Pairing>(maxq: u32, maxt: u32) -> impl Fn(&mut Case) {
    move |c| {
        let max = if c.tier == Tier::Thorough { maxt } else { maxq };
        let i = c.i / 2 + 1;
        let n = if max > 8 { 1 << max } else { pow2(i, &mut c.rng, max).max(2) };
        let m = n.trailing_zeros() as usize;
        c.note("n", n);
        let i = Sip::<P>::nontrivial(c, n);
        c.key(&(i.a.clone(), i.b.clone(), i.r.clone()));
        let p = c.must("prove", || i.prove::<Blake2s>());
        let d = gt::<P>(c);
        let verify = |i: &Sip<P>, p: &Proof<P>| i.verify::<Blake2s>(p);

        // other values, honest rounds of the truth and of the claim itself
        let mut vals = vec![("shifted", i.v + d), ("doubled", i.v + i.v), ("negated", -i.v), ("neutral", PairingOutput::zero())];
        let mut unit = i.clone();
        unit.r = vec![1u64.into(); n];
        vals.push(("without scalars", unit.truth()));
        for (name, v) in vals {
            if v == i.v {
                continue;
            }
            let mut f = i.clone();
            f.v = v;
            c.must_reject(&format!("value {name}, proof of the truth"), || verify(&f, &p));
            let q = c.must("prove (false value)", || f.prove::<Blake2s>());
            c.must_reject(&format!("value {name}, honest rounds"), || verify(&f, &q));
        }
        // honest proof, one input changed
        let j = c.rng.gen_range(0..n);
        for k in 0..3 {
            let mut f = i.clone();
            let x = nonzero::<Fr<P>>(&mut c.rng);
            match k {
                0 => f.set_a(j, f.la[j] + x),
                1 => f.set_b(j, f.lb[j] + x),
                _ => f.r[j] += x,
            }
            if f.truth() != f.v {
                let what = ["left point", "right point", "scalar"][k];
                c.must_reject(&format!("one {what} changed, proof of the truth"), || verify(&f, &p));
                let q = c.must("prove (false value)", || f.prove::<Blake2s>());
                c.must_reject(&format!("one {what} changed, honest rounds"), || verify(&f, &q));
            }
        }
        if n > 1 {
            let (x, y) = (j, (j + 1 + c.rng.gen_range(0..n - 1)) % n);
            for k in 0..3 {
                let mut f = i.clone();
                match k {
                    0 => {
                        f.a.swap(x, y);
                        f.la.swap(x, y);
                    }
                    1 => {
                        f.b.swap(x, y);
                        f.lb.swap(x, y);
                    }
                    _ => f.r.swap(x, y),
                }
                if f.truth() != f.v {
                    let q = c.must("prove (false value)", || f.prove::<Blake2s>());
                    c.must_reject("two entries swapped on one side", || verify(&f, &q));
                }
            }
        }
        // altered rounds for a false value
        let mut f = i.clone();
        f.v += d;
        let q = c.must("prove (false value)", || f.prove::<Blake2s>());
        let g = q.gt_elems().to_vec();
        let mut alt: Vec<(&str, Vec<(PairingOutput<P>, PairingOutput<P>)>)> = vec![
            ("neutral rounds", vec![Default::default(); m]),
            ("sides exchanged", g.iter().map(|x| (x.1, x.0)).collect()),
            ("rounds reversed", g.iter().rev().cloned().collect()),
            ("last round dropped", g[..m - 1].to_vec()),
            ("first round dropped", g[1..].to_vec()),
            ("no rounds", vec![]),
        ];
        let mut x = g.clone();
        x.push((gt::<P>(c), gt::<P>(c)));
        alt.push(("a round more", x));
        let mut x = g.clone();
        x[m - 1] = (gt::<P>(c), gt::<P>(c));
        alt.push(("last round arbitrary", x));
        let mut x = g.clone();
        x[0].0 -= d;
        alt.push(("first message less the offset", x));
        for (name, x) in alt {
            c.must_reject(&format!("false value, {name}"), || verify(&f, &Proof::from_gt_elems(x)));
        }
        adaptive(c, &i, &p, d, m);
    }
}

/// Something is chosen after the challenges.
fn adaptive<P: Pairing>(c: &mut Case, i: &Sip<P>, p: &Proof<P>, d: PairingOutput<P>, m: usize) {
    let n = i.n;
    let verify = |i: &Sip<P>, p: &Proof<P>| i.verify::<Blake2s>(p);
    // an element of a round, for a false value with otherwise honest rounds
    let mut f = i.clone();
    f.v += d;
    let q = c.must("prove (false value)", || f.prove::<Blake2s>());
    if let Some(xs) = f.challenges(&q) {
        // The challenges read off the digest must be the ones the verifier uses: the true value
        // and its proof satisfy the verifier's equation, checked through the weights below.
        for j in 0..m {
            for side in 0..2 {
                let k = if side == 0 { -xs[j].inverse().unwrap() } else { -xs[j] };
                let w = moved::<P>(&q, j, side, d * k);
                c.must_reject("element of a round chosen after its challenge", || verify(&f, &w));
            }
        }
        c.event("adaptive rounds tried");
    }
    // the value: a round lies by a known offset, the claim makes up for it
    let j = c.rng.gen_range(0..m);
    let side = c.rng.gen_range(0..2);
    let w = moved::<P>(p, j, side, d);
    if let Some(xs) = i.challenges(&w) {
        let k = if side == 0 { xs[j] } else { xs[j].inverse().unwrap() };
        // Rounds after the lying one must fit the challenges: rebuild them honestly.
        let w = rebuilt::<P>(i, &w, j, side, d, &xs).unwrap_or(w);
        let mut f = i.clone();
        f.v -= d * k;
        c.must_reject("value chosen after the challenges", || verify(&f, &w));
        c.event("adaptive value tried");
    }
    // inputs that keep the folded vectors, but not the product
    if let Some(xs) = i.challenges(p) {
        let (s, si) = i.weights(&xs);
        let (x, y) = (c.rng.gen_range(0..n), c.rng.gen_range(0..n));
        if x == y {
            return;
        }
        let e = nonzero::<Fr<P>>(&mut c.rng);
        let inv = |z: Fr<P>| z.inverse();
        // left points
        if let (true, Some(w)) = (!i.r[x].is_zero(), inv(s[y] * i.r[y])) {
            let mut f = i.clone();
            f.set_a(x, f.la[x] + e);
            f.set_a(y, f.la[y] - e * s[x] * i.r[x] * w);
            if f.truth() != f.v {
                c.must_reject("left points chosen after the challenges", || verify(&f, p));
                c.event("adaptive left points tried");
            }
        }
        if let Some(w) = inv(si[y]) {
            let mut f = i.clone();
            f.set_b(x, f.lb[x] + e);
            f.set_b(y, f.lb[y] - e * si[x] * w);
            if f.truth() != f.v {
                c.must_reject("right points chosen after the challenges", || verify(&f, p));
                c.event("adaptive right points tried");
            }
        }
        if let (true, Some(w)) = (!i.la[x].is_zero(), inv(s[y] * i.la[y])) {
            let mut f = i.clone();
            f.r[x] += e;
            f.r[y] -= e * s[x] * i.la[x] * w;
            if f.truth() != f.v {
                c.must_reject("scalars chosen after the challenges", || verify(&f, p));
                c.event("adaptive scalars tried");
            }
        }
    }
}

/// Rounds after round j recomputed for the challenges that the lie produced (one pass: later
/// challenges move again, so this is exact when the lie sits in the last round).
fn rebuilt<P: Pairing>(
    i: &Sip<P>,
    w: &Proof<P>,
    j: usize,
    side: usize,
    d: PairingOutput<P>,
    _xs: &[Fr<P>],
) -> Option<Proof<P>> {
    let m = w.gt_elems().len();
    let mut g = w.gt_elems().to_vec();
    for k in j + 1..m {
        let cur = i.challenges(&Proof::from_gt_elems(g.clone()))?;
        let z = honest_round::<P>(i, &cur[..k]);
        g[k] = z;
    }
    let _ = (side, d);
    Some(Proof::from_gt_elems(g))
}

/// Messages of round k for the challenges before it, by the logarithms.
fn honest_round<P: Pairing>(i: &Sip<P>, xs: &[Fr<P>]) -> (PairingOutput<P>, PairingOutput<P>) {
    let mut a: Vec<Fr<P>> = i.la.iter().zip(&i.r).map(|(x, y)| *x * y).collect();
    let mut b = i.lb.clone();
    for x in xs {
        let h = a.len() / 2;
        a = (0..h).map(|k| a[k] + a[h + k] * x).collect();
        let xi = x.inverse().unwrap();
        b = (0..h).map(|k| b[k] + b[h + k] * xi).collect();
    }
    let h = a.len() / 2;
    let dot = |p: &[Fr<P>], q: &[Fr<P>]| ref_scalar(p, q);
    (egh::<P>() * dot(&a[h..], &b[..h]), egh::<P>() * dot(&a[..h], &b[h..]))
}

/// The monitor's view of the argument agrees with the code: honest rounds, by the logarithms and
/// the recorded challenges, are the ones the prover sends.
fn oracle<P: Pairing>(c: &mut Case) {
    let n = 2usize << (c.i % 4);
    c.note("n", n);
    let i = Sip::<P>::nontrivial(c, n);
    c.key(&(i.a.clone(), i.b.clone()));
    let p = c.must("prove", || i.prove::<Blake2s>());
    let Some(xs) = i.challenges(&p) else { return };
    let agree = (0..xs.len()).all(|k| honest_round::<P>(&i, &xs[..k]) == p.gt_elems()[k]);
    c.event(if agree { "oracle agrees with the prover" } else { "oracle differs from the prover" });
}

fn main() {
    main_with(Plan {
        property: "C12",
        rule: "true instances of power-of-two sizes; then false values with proofs of the truth, honest rounds of the false claim, altered, exchanged, dropped and added rounds, changed or permuted inputs, and everything chosen after the challenges; non-trivial: a false claim was judged, distinct by the instance",
        assumptions: vec!["a forged proof passes by chance with probability about 2^-120", "the attacks listed are the ones tried: soundness is not proved"],
        required: vec!["rejected:false", "adaptive rounds tried", "adaptive value tried", "adaptive left points tried", "adaptive right points tried", "adaptive scalars tried"],
        workloads: vec![
            wl("large", 1, 4, attacks::<B381>(9, 9)),
            wl("381", 40, 500, attacks::<B381>(4, 6)),
            wl("377", 16, 200, attacks::<B377>(3, 5)),
            wl("oracle", 8, 16, oracle::<B381>),
            wl("mini", 600, 4000, attacks::<Mini>(6, 8)),
            wl("huge", 1, 4, attacks::<Mini>(12, 13)),
        ],
    })
}
