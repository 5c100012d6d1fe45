//! C25: proofs are logarithmic, and trusted-setup verification needs constant-size keys.
use ark_ec::pairing::Pairing;
use ark_ff::Zero;
use ark_ip_proofs::applications::groth16_aggregation::*;
use ark_poly::DenseUVPolynomial;
use ark_serialize::{CanonicalSerialize, Compress};
use ark_std::rand::Rng;
use blake2::{Blake2b, Blake2s};
use ripp_mon::*;

#[global_allocator]
static METER: Meter = Meter;

type D = CountD<Blake2b>;
type D32 = CountD<Blake2s>;

fn log2(n: usize) -> usize {
    n.trailing_zeros() as usize
}

fn sizes(p: &impl CanonicalSerialize) -> (usize, usize) {
    (p.serialized_size(Compress::Yes), p.serialized_size(Compress::No))
}

/// What was seen at each size: (rounds, bytes compressed, bytes uncompressed).
struct Table(Vec<(usize, (usize, usize))>);

impl Table {
    /// Bytes are affine in the number of rounds.
    fn affine(&self, c: &mut Case) {
        let (r0, s0) = self.0[0];
        let (r1, s1) = self.0[1];
        let per = ((s1.0 - s0.0) / (r1 - r0), (s1.1 - s0.1) / (r1 - r0));
        for (r, s) in &self.0 {
            let want = (s0.0 + (r - r0) * per.0, s0.1 + (r - r0) * per.1);
            c.check_with("bytes are constant plus a constant per round", *s == want, || {
                format!("{r} rounds: {s:?} bytes, expected {want:?}")
            });
        }
    }
}

/// Digests and memory of one verification; the result must be acceptance.
fn work<E: std::fmt::Debug>(c: &mut Case, rounds: usize, size: usize, own: bool, f: impl FnOnce() -> Result<bool, E>) {
    hashes_reset();
    mem_reset();
    c.must_accept("verify", f);
    let (peak, (h, bytes)) = (mem_peak(), hashes());
    c.events_n("digests by verifiers", h);
    c.check_with("digests in proportion to the rounds", h <= 4 * rounds as u64 + 24, || {
        format!("{h} digests for {rounds} rounds")
    });
    if own {
        c.check_with("each digest reads no more than the proof", bytes <= (h + 1) * (size as u64 + 4096), || {
            format!("{bytes} bytes in {h} digests for a proof of {size} bytes")
        });
        c.check_with("verifier memory does not grow with the vectors", peak < (4 << 20) + 64 * size as u64, || {
            format!("{peak} bytes live at once for a proof of {size} bytes")
        });
    }
}

/// A verifier given a proof of far more rounds than any setup has: refusing it takes no more than
/// the proof's own size. An evaluation that is linear in the vector would show here.
fn junk<E>(c: &mut Case, rounds: usize, size: usize, f: impl FnOnce() -> Result<bool, E>) {
    hashes_reset();
    mem_reset();
    c.must_reject("proof of very many rounds", f);
    let (peak, (h, _)) = (mem_peak(), hashes());
    c.check_with("digests in proportion to the rounds", h <= 4 * rounds as u64 + 24, || {
        format!("{h} digests for {rounds} rounds")
    });
    c.check_with("verifier memory stays small for very many rounds", peak < (4 << 20) + 64 * size as u64, || {
        format!("{peak} bytes live at once for a proof of {size} bytes and {rounds} rounds")
    });
}

const MANY: usize = 22;

fn max(c: &Case, q: u32) -> u32 {
    if c.tier == Tier::Thorough {
        q + 3
    } else {
        q
    }
}

fn shapes(c: &mut Case) -> (Shape, Shape) {
    (shape(&mut c.rng), shape(&mut c.rng))
}

/// Lists inside the rounds hold exactly one product.
fn gipa<C: Cfg>(q: u32) -> impl Fn(&mut Case) {
    move |c| {
        c.note("cfg", C::NAME);
        c.event("transparent argument");
        let mut t = Table(vec![]);
        for k in 0..=max(c, q) {
            let n = 1 << k;
            let mut seen = vec![];
            for _ in 0..2 {
                let s = shapes(c);
                let i = Inst::<C>::gipa::<D>(c, n, s);
                c.key(&(i.a.clone(), i.b.clone()));
                let p = c.must("prove", || gipa_prove::<C, D>(&i));
                let v: GView<C> = bridge(&p);
                c.check_with("one round per halving", v.0.len() == log2(n), || format!("{} rounds for {n}", v.0.len()));
                // the transparent verifier works on all keys
                work(c, log2(n), sizes(&p).1, false, || gipa_verify::<C, D>(i.ck(), i.com(), &p));
                seen.push(sizes(&p));
            }
            c.check("proofs of one size are equally long", seen[0] == seen[1]);
            t.0.push((log2(n), seen[0]));
        }
        t.affine(c);
    }
}

fn tipa<C: TCfg>(q: u32) -> impl Fn(&mut Case) {
    move |c| {
        c.note("cfg", C::NAME);
        c.event("trusted argument");
        let mut t = Table(vec![]);
        let mut vsize = None;
        for k in 0..=max(c, q) {
            let n = 1 << k;
            let mut seen = vec![];
            for _ in 0..2 {
                let s = shapes(c);
                let (srs, i) = tipa_inst::<C, D>(c, n, s);
                c.key(&(i.a.clone(), i.b.clone()));
                let v = srs.get_verifier_key();
                let vs = sizes(&(v.g, v.h, v.g_beta, v.h_alpha));
                c.check("verifier key has one size", *vsize.get_or_insert(vs) == vs);
                let p = c.must("prove", || TArg::<C, D>::prove(&srs, (&i.a, &i.b), i.ck()));
                let w: TView<C> = tview::<C, D>(&p);
                c.check("one round per halving", w.0 .0.len() == log2(n));
                work(c, log2(n), sizes(&p).1, true, || TArg::<C, D>::verify(&v, &i.ck_t, i.com(), &p));
                if k == 2 {
                    let mut w = w;
                    w.0 .0 = vec![w.0 .0[0].clone(); MANY];
                    let q: TProof<C, D> = bridge(&w);
                    let r = nonzero(&mut c.rng);
                    junk(c, MANY, sizes(&q).1, || TArg::<C, D>::verify(&v, &i.ck_t, i.com(), &q));
                    junk(c, MANY, sizes(&q).1, || TArg::<C, D>::verify_with_srs_shift(&v, &i.ck_t, i.com(), &q, &r));
                }
                seen.push(sizes(&p));
            }
            c.check("proofs of one size are equally long", seen[0] == seen[1]);
            t.0.push((log2(n), seen[0]));
        }
        t.affine(c);
    }
}

fn ssm<C: SCfg, V: Flavour<C>>(q: u32) -> impl Fn(&mut Case)
where
    V::Tail: CanonicalSerialize,
{
    move |c| {
        c.note("cfg", C::NAME);
        c.event(V::NAME);
        let mut t = Table(vec![]);
        for k in 0..=max(c, q) {
            let n = 1 << k;
            let mut seen = vec![];
            for _ in 0..2 {
                let (s, b) = (shape(&mut c.rng), coord(c));
                let i = ssm_inst::<C, V>(c, n, s, b);
                c.key(&(i.a.clone(), b));
                let p = c.must("prove", || S::<C, V>::prove::<D>(&i));
                let o = V::open::<D>(&p);
                c.check("one round per halving", o.0 .0.len() == log2(n));
                let z = sizes(&o);
                if k == 2 && V::NAME == "trusted" {
                    let mut w = o.0.clone();
                    w.0 = vec![w.0[0].clone(); MANY];
                    let q = V::close::<D>(&w, &o.1);
                    let size = sizes(&V::open::<D>(&q)).1;
                    junk(c, MANY, size, || S::<C, V>::verify::<D>(&i, i.com(), &i.b, &q));
                }
                work(c, log2(n), z.1, V::NAME == "trusted", || S::<C, V>::verify::<D>(&i, i.com(), &i.b, &p));
                seen.push(z);
            }
            c.check("proofs of one size are equally long", seen[0] == seen[1]);
            t.0.push((log2(n), seen[0]));
        }
        t.affine(c);
    }
}

fn sipp<P: Pairing>(q: u32) -> impl Fn(&mut Case) {
    move |c| {
        c.event("pairing product");
        for k in 1..=max(c, q) {
            let n = 1 << k;
            let s = (shape(&mut c.rng), shape(&mut c.rng), shape(&mut c.rng));
            let i = Sip::<P>::gen(c, n, s);
            c.key(&(i.a.clone(), i.r.clone()));
            let p = c.must("prove", || i.prove::<D32>());
            c.check("one round per halving", p.gt_elems().len() == log2(n));
            work(c, log2(n), 0, false, || i.verify::<D32>(&p));
        }
    }
}

fn bivariate<P: Pairing>(q: u32) -> impl Fn(&mut Case) {
    move |c| {
        c.event("polynomial openings");
        let (mut ts, mut tt) = (Table(vec![]), Table(vec![]));
        let y = pow2(c.i, &mut c.rng, 4) - 1;
        c.note("row degree", y);
        for k in 0..=max(c, q) {
            let x = (1 << k) - 1;
            let i = M::<P, Structured>::inst(c, x, y);
            c.key(&(i.rows.clone(), i.z));
            let o = c.must("open", || M::<P, Structured>::open::<D>(&i));
            let p: Parts<P, Structured> = M::<P, Structured>::parts::<D>(&o);
            let r = log2(x + 1);
            c.check("trusted: one round per halving of the rows", p.0 .0 .0.len() == r);
            work(c, r, sizes(&o).1, true, || M::<P, Structured>::verify::<D>(&i, &i.e, &o));
            if k == 2 {
                let mut p = p;
                p.0 .0 .0 = vec![p.0 .0 .0[0].clone(); MANY];
                let q = M::<P, Structured>::join::<D>(&p);
                junk(c, MANY, sizes(&q).1, || M::<P, Structured>::verify::<D>(&i, &i.e, &q));
            }
            ts.0.push((r, sizes(&o)));
            let i = M::<P, Transparent>::inst(c, x, y);
            c.key(&(i.rows.clone(), i.z));
            let o = c.must("open", || M::<P, Transparent>::open::<D>(&i));
            let p: Parts<P, Transparent> = M::<P, Transparent>::parts::<D>(&o);
            c.check("transparent: one round per halving of the rows", p.0 .0.len() == r);
            c.check("transparent: one round per halving of a row", p.2 .0.len() == log2(y + 1));
            work(c, r + log2(y + 1), sizes(&o).1, false, || M::<P, Transparent>::verify::<D>(&i, &i.e, &o));
            tt.0.push((r, sizes(&o)));
        }
        ts.affine(c);
        tt.affine(c);
    }
}

/// One-variable openings: the size depends on the setup alone, and keys stay near the square root.
fn univariate<P: Pairing, S: Pc<P>>(c: &mut Case) {
    const DEG: [usize; 14] = [0, 1, 3, 4, 8, 15, 16, 63, 64, 200, 255, 256, 500, 1023];
    let d = DEG[c.i % DEG.len()];
    c.note("degree", d);
    c.event(S::NAME);
    let mut r = c.fork();
    let ck = c.must("setup", || S::usetup(&mut r, d));
    let vk = S::vk(&ck);
    let (x, y) = S::degrees(&ck);
    let root = ((d + 1) as f64).sqrt().ceil() as usize;
    c.check_with("keys stay near the square root of the degree", (x + 1) * (y + 1) <= 4 * root * root && y + 1 <= 32 * root, || {
        format!("degree {d}: {x},{y}")
    });
    let mut seen = vec![];
    for n in [0, 1, d / 2 + 1, d + 1] {
        let s = shape(&mut c.rng);
        let p = Uni::<P>::from_coefficients_vec(scalars(&mut c.rng, n, s));
        c.key(&p.coeffs);
        let (com, comms) = c.must("commit", || S::ucommit(&ck, &p));
        let z = coord(c);
        let o = c.must("open", || S::uopen::<D>(&ck, &p, &comms, &z));
        let (e, rounds) = (ref_ueval(&p.coeffs, z), log2((x + 1).next_power_of_two()) + log2((y + 1).next_power_of_two()));
        work(c, rounds, sizes(&o).1, S::NAME == "trusted", || S::uverify::<D>(&vk, d, &com, &z, &e, &o));
        seen.push(sizes(&o));
    }
    seen.dedup();
    c.check("openings under one setup are equally long", seen.len() == 1);
    // a round is two elements of the target group, plus small parts
    let gt = ark_ec::pairing::PairingOutput::<P>::zero().serialized_size(Compress::No);
    c.check_with("opening is logarithmic", seen[0].1 <= 4 * gt * (log2((d + 2).next_power_of_two()) + 3), || {
        format!("{} bytes for degree {d}", seen[0].1)
    });
}

fn aggregate<P: Pairing>(q: u32) -> impl Fn(&mut Case) {
    move |c| {
        c.event("aggregates");
        let mut t = Table(vec![]);
        for k in 0..=max(c, q) {
            let n = 1 << k;
            let mut seen = vec![];
            for inputs in [0, 1 + c.rng.gen_range(0..4)] {
                let b = Batch::<P>::simulated::<D>(c, n, inputs);
                c.key(&(b.a.clone(), b.x.clone()));
                let p = c.must("aggregate", || b.aggregate::<D>());
                let v: AggView<P> = bridge(&p);
                c.check("one round per halving", v.2 .0 .0.len() == log2(n) && v.3 .0 .0.len() == log2(n));
                work(c, 2 * log2(n), sizes(&p).1, false, || verify_aggregate_proof::<P, D>(&b.v, &b.vk, &b.x, &p));
                if k == 2 {
                    let mut w = v;
                    w.2 .0 .0 = vec![w.2 .0 .0[0].clone(); MANY];
                    w.3 .0 .0 = vec![w.3 .0 .0[0].clone(); MANY];
                    let q: AggregateProof<P, D> = bridge(&w);
                    junk(c, 2 * MANY, sizes(&q).1, || verify_aggregate_proof::<P, D>(&b.v, &b.vk, &b.x, &q));
                }
                seen.push(sizes(&p));
            }
            c.check("proofs of one size are equally long", seen[0] == seen[1]);
            t.0.push((log2(n), seen[0]));
        }
        t.affine(c);
    }
}

fn main() {
    main_with(Plan {
        property: "C25",
        rule: "for every protocol and instantiation, honest statements of every power-of-two size up to the bound, two of each size with unrelated and degenerate contents; rounds counted, bytes measured in both encodings, the verifier's digests and (for verifiers with a constant-size key) memory metered, also on proofs of 22 copied rounds; non-trivial: a proof was measured and accepted, distinct by the statement",
        assumptions: vec!["digests are counted and memory metered on the calling thread", "group operations of the verifiers are not counted"],
        required: vec!["transparent argument", "trusted argument", "transparent", "trusted", "pairing product", "polynomial openings", "aggregates", "accepted", "digests by verifiers", "proof of very many rounds"],
        workloads: vec![
            wl("gipa-pairing", 1, 6, gipa::<PairCfg<B381>>(5)),
            wl("gipa-msm", 2, 8, gipa::<MsmCfg<B381>>(5)),
            wl("gipa-scalar", 3, 12, gipa::<ScalarCfg<B381>>(7)),
            wl("gipa-scalar-pedersen-out", 2, 8, gipa::<ScalarPedCfg<B377>>(6)),
            wl("gipa-msm-g2", 1, 6, gipa::<MsmG2Cfg<B381>>(4)),
            wl("tipa-pairing", 1, 6, tipa::<PairCfg<B381>>(5)),
            wl("tipa-msm", 2, 8, tipa::<MsmCfg<B381>>(5)),
            wl("tipa-scalar", 3, 12, tipa::<ScalarCfg<B381>>(7)),
            wl("tipa-scalar-377", 1, 6, tipa::<ScalarCfg<B377>>(5)),
            wl("ssm-scalar", 3, 12, ssm::<ScalarCfg<B381>, Plain>(7)),
            wl("ssm-msm", 2, 8, ssm::<MsmCfg<B381>, Plain>(5)),
            wl("ssm-scalar-trusted", 3, 12, ssm::<ScalarCfg<B381>, Trusted>(7)),
            wl("ssm-msm-trusted", 2, 8, ssm::<MsmCfg<B381>, Trusted>(5)),
            wl("sipp", 2, 10, sipp::<B381>(6)),
            wl("sipp-377", 1, 6, sipp::<B377>(5)),
            wl("bivariate", 4, 20, bivariate::<B381>(4)),
            wl("univariate-trusted", 14, 42, univariate::<B381, Structured>),
            wl("univariate-transparent", 14, 42, univariate::<B381, Transparent>),
            wl("aggregate", 2, 8, aggregate::<B381>(4)),
            wl("aggregate-377", 1, 4, aggregate::<B377>(3)),
        ],
    })
}
