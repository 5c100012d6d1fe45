//! Input generation: vectors with the shapes that break inner-product code.
use ark_ec::{CurveGroup, Group};
use ark_ff::PrimeField;
use ark_std::rand::{rngs::StdRng, Rng};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape {
    Random,
    AllZero,
    OneHot,
    FirstHalfZero,
    SecondHalfZero,
    Equal,
    /// second half is the negation of the first: halves cancel
    Cancel,
    /// small values 0, 1, -1, 2
    Small,
    /// values around the modulus, powers of two, single bits
    Edge,
    Sparse,
}

pub const SHAPES: [Shape; 10] = [
    Shape::Random,
    Shape::AllZero,
    Shape::OneHot,
    Shape::FirstHalfZero,
    Shape::SecondHalfZero,
    Shape::Equal,
    Shape::Cancel,
    Shape::Small,
    Shape::Edge,
    Shape::Sparse,
];

/// Mostly random vectors, and every other shape regularly.
pub fn shape(rng: &mut StdRng) -> Shape {
    if rng.gen_bool(0.45) {
        Shape::Random
    } else {
        SHAPES[rng.gen_range(0..SHAPES.len())]
    }
}

pub fn edge_scalar<F: PrimeField>(rng: &mut StdRng) -> F {
    match rng.gen_range(0..11) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => -F::from(2u64),
        4 => F::from(u64::MAX),
        5 => F::from(u128::MAX),
        6 => {
            let e = rng.gen_range(0..F::MODULUS_BIT_SIZE as u64 - 1);
            F::from(2u64).pow([e])
        }
        7 => {
            let e = rng.gen_range(0..F::MODULUS_BIT_SIZE as u64 - 1);
            -F::from(2u64).pow([e])
        }
        8 => F::from(rng.gen::<u64>()),
        _ => {
            let mask = rng.gen();
            word_scalar(rng, mask)
        }
    }
}

/// A scalar whose 64-bit words are zero but for those of the mask, the highest of them small.
pub fn word_scalar<F: PrimeField>(rng: &mut StdRng, mask: usize) -> F {
    let words = (F::MODULUS_BIT_SIZE as usize + 63) / 64;
    let mut b = vec![0u8; words * 8];
    for (i, w) in b.chunks_mut(8).enumerate() {
        if mask >> i & 1 == 1 {
            let x = if i + 1 == words { rng.gen::<u64>() >> 8 } else { rng.gen() };
            w.copy_from_slice(&x.to_le_bytes());
        }
    }
    F::from_le_bytes_mod_order(&b)
}

pub fn scalars<F: PrimeField>(rng: &mut StdRng, n: usize, s: Shape) -> Vec<F> {
    let mut v: Vec<F> = match s {
        Shape::AllZero | Shape::OneHot | Shape::Sparse => vec![F::zero(); n],
        Shape::Equal => vec![F::rand(rng); n],
        Shape::Small => (0..n)
            .map(|_| match rng.gen_range(0..4) {
                0 => F::zero(),
                1 => F::one(),
                2 => -F::one(),
                _ => F::from(2u64),
            })
            .collect(),
        Shape::Edge => (0..n).map(|_| edge_scalar(rng)).collect(),
        _ => (0..n).map(|_| F::rand(rng)).collect(),
    };
    if n == 0 {
        return v;
    }
    match s {
        Shape::OneHot => {
            let k = rng.gen_range(0..n);
            v[k] = F::rand(rng);
        }
        Shape::Sparse => {
            for x in v.iter_mut() {
                if rng.gen_bool(0.3) {
                    *x = F::rand(rng);
                }
            }
        }
        Shape::FirstHalfZero => v[..n / 2].iter_mut().for_each(|x| *x = F::zero()),
        Shape::SecondHalfZero => v[n / 2..].iter_mut().for_each(|x| *x = F::zero()),
        Shape::Cancel => {
            for i in 0..n / 2 {
                v[n / 2 + i] = -v[i];
            }
        }
        _ => {}
    }
    v
}

/// Group elements with known discrete logarithms, in assorted projective representations.
pub fn points_with_logs<G: CurveGroup>(
    rng: &mut StdRng,
    n: usize,
    s: Shape,
) -> (Vec<G>, Vec<G::ScalarField>) {
    let logs: Vec<G::ScalarField> = scalars(rng, n, s);
    let v = logs
        .iter()
        .map(|l| {
            let g = G::generator();
            let p = g * l;
            match rng.gen_range(0..3) {
                // Another representative of the same point: same value, other coordinates.
                0 => {
                    let r = G::rand(rng);
                    (p + r) - r
                }
                1 => G::from(p.into_affine()),
                _ => p,
            }
        })
        .collect();
    (v, logs)
}

pub fn points<G: CurveGroup>(rng: &mut StdRng, n: usize, s: Shape) -> Vec<G> {
    if s == Shape::Random {
        (0..n).map(|_| G::rand(rng)).collect()
    } else {
        points_with_logs::<G>(rng, n, s).0
    }
}

pub fn rand_point<G: Group>(rng: &mut StdRng) -> G {
    G::rand(rng)
}

pub fn nonzero<F: PrimeField>(rng: &mut StdRng) -> F {
    loop {
        let f = F::rand(rng);
        if !f.is_zero() {
            return f;
        }
    }
}

/// A power of two: small ones mostly, with systematic coverage through the case index.
/// The large sizes, one after the other: where widths of counters and tables may change.
pub fn large(i: usize, logs: &[u32]) -> usize {
    1usize << logs[i % logs.len()]
}

pub fn pow2(i: usize, rng: &mut StdRng, max_log: u32) -> usize {
    let k = if i <= max_log as usize {
        i as u32
    } else {
        let r: f64 = rng.gen();
        ((r * r) * (max_log as f64 + 1.0)).floor() as u32
    };
    1usize << k.min(max_log)
}
