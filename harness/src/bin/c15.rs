//! C15: honest openings of trusted-setup polynomial commitments verify at the true value.
use ark_std::rand::Rng;
use blake2::{Blake2b, Blake2s};
use digest::Digest;
use ripp_mon::*;

type Dz = FaultD<Blake2b, 60, 60>;

fn bi<P: ark_ec::pairing::Pairing, D: Digest>(mx: u32, mq: u32) -> impl Fn(&mut Case) {
    move |c| {
        let (mx, m) = if c.tier == Tier::Thorough { (mx + 2, mq + 2) } else { (mx, mq) };
        let i = c.i;
        let x = pow2(i, &mut c.rng, mx) - 1;
        let y = if c.i < 2 { 0 } else { c.rng.gen_range(0..=(2usize << m)) };
        take_faults();
        M::<P, Structured>::honest::<D>(c, x, y);
        let (z, ff) = take_faults();
        c.events_n("zero-challenge digests injected", z);
        c.events_n("non-field digests injected", ff);
    }
}

/// Widths and heights that a byte does not hold.
fn wide<P: ark_ec::pairing::Pairing, D: Digest>(c: &mut Case) {
    let (x, y) = [(511, 1), (1, 511), (255, 0), (0, 1023), (511, 0), (3, 255)][c.i % 6];
    M::<P, Structured>::honest::<D>(c, x, y);
    c.event("wide");
}

/// Widths and heights that two bytes do not hold.
fn huge<P: ark_ec::pairing::Pairing, D: Digest>(c: &mut Case) {
    let (x, y) = [(0, 131071), (65535, 1), (1, 65535), (131071, 0), (8191, 15), (2047, 31), (0, 65535), (32767, 3)][c.i % 8];
    M::<P, Structured>::honest::<D>(c, x, y);
    c.event("huge");
}

/// Set degrees around every change of the internal split, and at squares.
const DEGREES: [usize; 24] = [
    0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 48, 62, 63, 64, 99, 127, 200, 255, 256, 288, 350,
];
const BIG: [usize; 8] = [1023, 1024, 2000, 1025, 4095, 4096, 400, 3000];

fn uni<P: ark_ec::pairing::Pairing, D: Digest>(c: &mut Case) {
    let d = DEGREES[c.i % DEGREES.len()];
    let d = if c.i >= DEGREES.len() { d + c.i % 3 } else { d };
    M::<P, Structured>::univariate::<D>(c, d, false);
}

fn uni_big<P: ark_ec::pairing::Pairing, D: Digest>(c: &mut Case) {
    let d = if c.tier == Tier::Thorough && c.i < 2 { [65535, 20000][c.i] } else { BIG[c.i % BIG.len()] };
    M::<P, Structured>::univariate::<D>(c, d, true);
}

fn main() {
    main_with(Plan {
        property: "C15",
        rule: "two-variable setups of every power-of-two width with row degrees from 0, nine kinds of polynomials (full, few rows, short, ragged, zero, constant, one coefficient, edge values), edge and random points; one-variable setups at every change of the internal split, polynomials of every length up to the set degree; two curves and a digest injecting unusable challenges; non-trivial: an honest opening was judged, distinct by polynomial and point",
        assumptions: vec!["curve and field arithmetic, polynomial division and the hash functions are trusted", "the number of rows is a power of two, as the halving needs"],
        required: vec!["accepted", "wide", "commitments add", "zero-challenge digests injected", "non-field digests injected"],
        workloads: vec![
            wl("wide", 2, 12, wide::<B381, Blake2b>),
            wl("bivariate", 40, 300, bi::<B381, Blake2b>(3, 4)),
            wl("bivariate-377", 8, 60, bi::<B377, Blake2s>(2, 2)),
            wl("bivariate-retry", 24, 200, bi::<B381, Dz>(3, 3)),
            wl("univariate", 24, 120, uni::<B381, Blake2b>),
            wl("univariate-377", 6, 40, uni::<B377, Blake2s>),
            wl("univariate-large", 4, 16, uni_big::<B381, Blake2b>),
            wl("mini-bivariate", 400, 3000, bi::<Mini, Blake2b>(5, 5)),
            wl("mini-retry", 240, 2000, bi::<Mini, Dz>(4, 4)),
            wl("mini-univariate", 288, 2000, uni::<Mini, Blake2b>),
            wl("mini-large", 32, 16, uni_big::<Mini, Blake2b>),
            wl("huge", 2, 8, huge::<Mini, Blake2b>),
        ],
    })
}
