//! C19: aggregates of valid Groth16 proofs always verify.
use ark_ec::pairing::Pairing;
use ark_ip_proofs::applications::groth16_aggregation::*;
use ark_std::rand::Rng;
use blake2::{Blake2b, Blake2s};
use digest::Digest;
use ripp_mon::*;

/// Half-zero 128-bit challenges and digests that are no field element.
type Dz = FaultD<Blake2b, 60, 60>;

fn simulated<P: Pairing, D: Digest>(mq: u32, mt: u32) -> impl Fn(&mut Case) {
    move |c| {
        let m = if c.tier == Tier::Thorough { mt } else { mq };
        let i = c.i;
        let n = pow2(i, &mut c.rng, m);
        let k = [0, 1, 2, 3, 5, 9][c.rng.gen_range(0..6)];
        c.note("n", n);
        c.note("inputs", k);
        c.event(&format!("batch of {n}"));
        c.event(&format!("{k} inputs"));
        let mut b = Batch::<P>::simulated::<D>(c, n, k);
        // Kinds of batches: all different, one proof repeated, equal inputs, edge elements.
        let kind = c.rng.gen_range(0..5);
        c.note("kind", ["different", "repeated", "equal inputs", "edge elements", "opposite"][kind]);
        for j in 0..n {
            match kind {
                1 => {
                    b.a[j] = b.a[0];
                    b.b[j] = b.b[0];
                    b.x[j] = b.x[0].clone();
                }
                2 => b.x[j] = b.x[0].clone(),
                3 => {
                    b.a[j] = edge_scalar(&mut c.rng);
                    b.b[j] = edge_scalar(&mut c.rng);
                }
                4 if j > 0 => {
                    b.a[j] = -b.a[j - 1];
                    b.b[j] = b.b[0];
                }
                _ => {}
            }
        }
        for j in 0..n {
            b.c[j] = b.solve_c(j);
        }
        c.key(&(b.a.clone(), b.b.clone(), b.x.clone()));
        if c.i % 4 == 0 {
            b.cross_check(c);
        }
        take_faults();
        let p = c.must("aggregate", || b.aggregate::<D>());
        let (z, ff) = take_faults();
        c.events_n("zero-challenge digests injected", z);
        c.events_n("non-field digests injected", ff);
        c.must_accept("verify", || b.verify::<D>(&p));
        let q: AggregateProof<P, D> = copy(&p);
        c.must_accept("verify after a round trip", || b.verify::<D>(&q));
        let q = c.must("aggregate again", || b.aggregate::<D>());
        c.check("aggregation is reproducible", ser(&q) == ser(&p));
        // The members in another order, with their inputs.
        if n > 1 {
            let mut o: Vec<usize> = (0..n).collect();
            for j in (1..n).rev() {
                o.swap(j, c.rng.gen_range(0..=j));
            }
            let mut s = b.clone();
            for (j, t) in o.iter().enumerate() {
                s.a[j] = b.a[*t];
                s.b[j] = b.b[*t];
                s.c[j] = b.c[*t];
                s.x[j] = b.x[*t].clone();
            }
            let q = c.must("aggregate in another order", || s.aggregate::<D>());
            c.must_accept("verify in another order", || s.verify::<D>(&q));
        }
    }
}

/// Counts that a byte does not hold.
fn large<P: Pairing, D: Digest>(c: &mut Case) {
    let n = if c.tier == Tier::Thorough { [256, 512][c.i % 2] } else { 256 };
    c.note("n", n);
    let mut b = Batch::<P>::simulated::<D>(c, n, 2);
    for j in 0..n {
        b.c[j] = b.solve_c(j);
    }
    c.key(&(b.a.clone(), b.b.clone(), b.x.clone()));
    let p = c.must("aggregate", || b.aggregate::<D>());
    c.must_accept("verify", || b.verify::<D>(&p));
    c.event("large");
}

/// Counts that two bytes do not hold.
fn huge<P: Pairing, D: Digest>(c: &mut Case) {
    let n = 1usize << [17, 16, 14, 15][c.i % 4];
    c.note("n", n);
    let mut b = Batch::<P>::simulated::<D>(c, n, 1);
    for j in 0..n {
        b.c[j] = b.solve_c(j);
    }
    c.key(&(b.a.clone(), b.b.clone(), b.x.clone()));
    let p = c.must("aggregate", || b.aggregate::<D>());
    c.must_accept("verify", || b.verify::<D>(&p));
    c.event("huge");
}

fn real<P: Pairing, D: Digest>(mq: u32, mt: u32) -> impl Fn(&mut Case) {
    move |c| {
        let m = if c.tier == Tier::Thorough { mt } else { mq };
        let i = c.i;
        let n = pow2(i, &mut c.rng, m);
        let k = c.rng.gen_range(0..4);
        c.note("n", n);
        c.note("inputs", k);
        let (vk, ps, xs) = real_batch::<P>(c, n, k);
        c.key(&ps);
        let mut r = c.fork();
        let srs = c.must("setup", || setup_inner_product::<P, D, _>(&mut r, n));
        let p = c.must("aggregate", || aggregate_proofs::<P, D>(&srs, &ps));
        let v = srs.get_verifier_key();
        c.must_accept("verify", || verify_aggregate_proof::<P, D>(&v, &vk, &xs, &p));
        c.event("aggregate of real proofs accepted");
    }
}

fn main() {
    main_with(Plan {
        property: "C19",
        rule: "batches of every power-of-two size from 1 up to the bound, 0 to 9 public inputs, simulated valid proofs (different, repeated, equal inputs, edge and neutral elements, opposite) cross-checked with ark-groth16, real proofs of a product-chain circuit, two curves, a digest injecting unusable challenges; non-trivial: an aggregate of valid proofs was judged, distinct by its members and inputs",
        assumptions: vec!["curve and field arithmetic, ark-groth16 and the hash functions are trusted", "the number of proofs equals the setup size, a power of two"],
        required: vec!["accepted", "large", "aggregate of real proofs accepted", "batch of 1", "batch of 8", "0 inputs", "repeated proof", "zero-challenge digests injected", "non-field digests injected"],
        workloads: vec![
            wl("large", 1, 6, large::<B381, Blake2b>),
            wl("simulated", 24, 200, simulated::<B381, Blake2b>(4, 6)),
            wl("simulated-377", 6, 60, simulated::<B377, Blake2s>(2, 4)),
            wl("retry", 16, 150, simulated::<B381, Dz>(2, 4)),
            wl("real", 10, 80, real::<B381, Blake2b>(3, 5)),
            wl("real-377", 4, 40, real::<B377, Blake2s>(2, 4)),
            wl("mini", 480, 3000, simulated::<Mini, Blake2b>(6, 8)),
            wl("mini-real", 80, 300, real::<Mini, Blake2s>(4, 6)),
            wl("huge", 1, 4, huge::<Mini, Blake2b>),
        ],
    })
}
