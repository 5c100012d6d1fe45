//! C13: the Fiat-Shamir generator's output is determined by its whole history.
use ark_sipp::rng::FiatShamirRng;
use ark_std::rand::{Rng, RngCore};
use blake2::{Blake2b, Blake2s};
use digest::{generic_array::typenum::U32, Digest};
use ripp_mon::*;
use std::collections::HashMap;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Hist {
    seed: Vec<u8>,
    absorbed: Vec<Vec<u8>>,
}

fn make<D: Digest<OutputSize = U32>>(h: &Hist) -> FiatShamirRng<D> {
    let mut r = FiatShamirRng::<D>::from_seed(&h.seed);
    for a in &h.absorbed {
        r.absorb(a);
    }
    r
}

fn out<D: Digest<OutputSize = U32>>(h: &Hist, n: usize) -> Vec<u8> {
    let mut r = make::<D>(h);
    let mut b = vec![0u8; n];
    r.fill_bytes(&mut b);
    b
}

fn bytes(c: &mut Case) -> Vec<u8> {
    let n = match c.rng.gen_range(0..25) {
        6 => c.rng.gen_range(2000..20_000),
        7 => c.rng.gen_range(20_000..300_000),
        0 => 0,
        1 => 1,
        2 => 32,
        3 => c.rng.gen_range(0..200),
        4 => 64,
        5 => c.rng.gen_range(0..2000),
        _ => c.rng.gen_range(0..300),
    };
    let mut v = vec![0u8; n];
    match c.rng.gen_range(0..4) {
        0 => {}
        1 => v.iter_mut().for_each(|x| *x = 0xff),
        _ => c.rng.fill_bytes(&mut v),
    }
    v
}

/// Neighbours of a history that differ from it in one respect.
fn neighbours(c: &mut Case, h: &Hist) -> Vec<(&'static str, Hist)> {
    let mut v = Vec::new();
    let mut add = |n: &'static str, x: Hist| {
        if x != *h {
            v.push((n, x));
        }
    };
    let flip = |c: &mut Case, b: &mut Vec<u8>| {
        if b.is_empty() {
            b.push(0);
        } else {
            // first, last or any byte, any bit
            let k = match c.rng.gen_range(0..3) {
                0 => 0,
                1 => b.len() - 1,
                _ => c.rng.gen_range(0..b.len()),
            };
            b[k] ^= 1 << c.rng.gen_range(0..8);
        }
    };
    let mut x = h.clone();
    flip(c, &mut x.seed);
    add("seed bit", x);
    let mut x = h.clone();
    x.seed.push(0);
    add("seed longer", x);
    let mut x = h.clone();
    x.seed.pop();
    add("seed shorter", x);
    let mut x = h.clone();
    x.absorbed.push(vec![]);
    add("empty string absorbed more", x);
    let mut x = h.clone();
    x.absorbed.push(bytes(c));
    add("string absorbed more", x);
    if !h.absorbed.is_empty() {
        let k = c.rng.gen_range(0..h.absorbed.len());
        let mut x = h.clone();
        flip(c, &mut x.absorbed[k]);
        add("absorbed bit", x);
        let mut x = h.clone();
        flip(c, &mut x.absorbed[0]);
        add("first absorbed bit", x);
        let mut x = h.clone();
        x.absorbed[k].push(0);
        add("absorbed longer", x);
        let mut x = h.clone();
        x.absorbed.remove(k);
        add("absorbed removed", x);
        let mut x = h.clone();
        let d = x.absorbed[k].clone();
        x.absorbed.insert(k, d);
        add("absorbed twice", x);
        let mut x = h.clone();
        x.absorbed.reverse();
        add("absorbed reversed", x);
        // boundaries
        let cut = c.rng.gen_range(0..=h.absorbed[k].len());
        let mut x = h.clone();
        let tail = x.absorbed[k].split_off(cut);
        x.absorbed.insert(k + 1, tail);
        add("absorbed in two parts", x);
        let mut x = h.clone();
        let first = x.absorbed.remove(0);
        x.seed.extend(first);
        add("first string moved to the seed", x);
        let mut x = h.clone();
        let s = std::mem::replace(&mut x.seed, x.absorbed[0].clone());
        x.absorbed[0] = s;
        add("seed and first string exchanged", x);
    }
    if h.absorbed.len() > 1 {
        let k = c.rng.gen_range(0..h.absorbed.len() - 1);
        let mut x = h.clone();
        x.absorbed.swap(k, k + 1);
        add("two absorbed exchanged", x);
        let mut x = h.clone();
        let t = x.absorbed.remove(k + 1);
        x.absorbed[k].extend(t);
        add("two absorbed joined", x);
        let mut x = h.clone();
        let b = x.absorbed[k].pop();
        if let Some(b) = b {
            x.absorbed[k + 1].insert(0, b);
            add("byte moved across a boundary", x);
        }
    }
    v
}

fn history<D: Digest<OutputSize = U32>>(c: &mut Case) {
    let depth = c.i % 7;
    let mut seen: HashMap<Vec<u8>, Hist> = HashMap::new();
    let rounds = if c.tier == Tier::Thorough { 60 } else { 25 };
    for _ in 0..rounds {
        let h = Hist { seed: bytes(c), absorbed: (0..depth).map(|_| bytes(c)).collect() };
        let o = out::<D>(&h, 32);
        c.check("same history, same output", o == out::<D>(&h, 32));
        let mut all = vec![("itself", h.clone())];
        all.extend(neighbours(c, &h));
        for (name, x) in all {
            let y = out::<D>(&x, 32);
            if name != "itself" {
                c.event(name);
                c.check_with("different history, different output", y != o, || format!("{name}: {h:?} / {x:?}"));
            }
            if let Some(z) = seen.get(&y) {
                if *z != x {
                    violated(format!("two histories, one output: {z:?} / {x:?}"));
                }
            }
            seen.insert(y, x);
        }
    }
    c.events_n("distinct histories", seen.len() as u64);
    c.key_str(&format!("{depth}/{}/{}", c.i, seen.len()));
}

/// Reading moves the stream on, and absorbing starts one that reading before does not decide.
fn reading<D: Digest<OutputSize = U32>>(c: &mut Case) {
    let h = Hist { seed: bytes(c), absorbed: vec![bytes(c)] };
    c.key_str(&format!("{h:?}"));
    let long = out::<D>(&h, 4096);
    c.check("no repetition in the stream", {
        let mut s: Vec<&[u8]> = long.chunks(16).collect();
        s.sort();
        s.windows(2).all(|w| w[0] != w[1])
    });
    let ones: u32 = long.iter().map(|b| b.count_ones()).sum();
    c.check("balanced stream", (ones as i64 - 16384).abs() < 1200);
    let mut r = make::<D>(&h);
    let mut words = Vec::new();
    for _ in 0..64 {
        words.extend(r.next_u64().to_le_bytes());
    }
    c.check("64-bit words come off the same stream", words[..] == long[..512]);
    let mut r = make::<D>(&h);
    let mut words = Vec::new();
    for _ in 0..64 {
        words.extend(r.next_u32().to_le_bytes());
    }
    c.check("32-bit words come off the same stream", words[..] == long[..256]);
    let mut r = make::<D>(&h);
    let mut b = vec![0u8; 100];
    let ok = r.try_fill_bytes(&mut b).is_ok();
    c.check("fallible reading reads the same", ok && b[..] == long[..100]);
    // absorb after reading: the stream before must not come back, what is absorbed must matter
    let x = bytes(c);
    let mut y = x.clone();
    y.push(1);
    let k = c.rng.gen_range(0..40);
    let run = |z: &[u8]| {
        let mut r = make::<D>(&h);
        for _ in 0..k {
            r.next_u32();
        }
        r.absorb(z);
        let mut b = vec![0u8; 64];
        r.fill_bytes(&mut b);
        b
    };
    let (p, q, p2) = (run(&x), run(&y), run(&x));
    c.check("deterministic after reading and absorbing", p == p2);
    c.check("absorbed string matters after reading", p != q);
    c.check("absorbing starts a new stream", !long.windows(16).any(|w| w == &p[..16]));
    let mut prev = make::<D>(&h);
    let mut seen = std::collections::HashSet::new();
    for _ in 0..50 {
        prev.absorb(&x);
        c.check("repeated absorbing never returns", seen.insert(prev.next_u64()));
    }
}

fn instances(c: &mut Case) {
    // two generators interleaved do not influence each other
    let (h1, h2) = (
        Hist { seed: bytes(c), absorbed: vec![bytes(c), bytes(c)] },
        Hist { seed: bytes(c), absorbed: vec![bytes(c)] },
    );
    c.key_str(&format!("{h1:?}"));
    let (w1, w2) = (out::<Blake2s>(&h1, 64), out::<Blake2s>(&h2, 64));
    let mut a = FiatShamirRng::<Blake2s>::from_seed(&h1.seed);
    let mut b = FiatShamirRng::<Blake2s>::from_seed(&h2.seed);
    a.absorb(&h1.absorbed[0]);
    b.absorb(&h2.absorbed[0]);
    let mut ob = vec![0u8; 64];
    b.fill_bytes(&mut ob[..32]);
    a.absorb(&h1.absorbed[1]);
    b.fill_bytes(&mut ob[32..]);
    let mut oa = vec![0u8; 64];
    a.fill_bytes(&mut oa);
    c.check("interleaved generators are independent", oa == w1 && ob == w2);
    // different digests give different generators
    type Trunc = Blake2bTrunc;
    let o = out::<Trunc>(&h1, 32);
    c.check("the digest matters", o != w1[..32]);
}

/// Blake2b cut to 32 bytes.
#[derive(Clone, Default)]
struct Blake2bTrunc(Blake2b);
impl digest::Update for Blake2bTrunc {
    fn update(&mut self, d: impl AsRef<[u8]>) {
        digest::Update::update(&mut self.0, d)
    }
}
impl digest::Reset for Blake2bTrunc {
    fn reset(&mut self) {
        digest::Reset::reset(&mut self.0)
    }
}
impl digest::FixedOutput for Blake2bTrunc {
    type OutputSize = U32;
    fn finalize_into(self, o: &mut digest::generic_array::GenericArray<u8, U32>) {
        let f = digest::FixedOutput::finalize_fixed(self.0);
        o.copy_from_slice(&f[..32]);
    }
    fn finalize_into_reset(&mut self, o: &mut digest::generic_array::GenericArray<u8, U32>) {
        let f = digest::FixedOutput::finalize_fixed_reset(&mut self.0);
        o.copy_from_slice(&f[..32]);
    }
}

fn main() {
    main_with(Plan {
        property: "C13",
        rule: "random histories of 0 to 6 absorbed strings (empty, one-byte, 32-byte, long, constant), each compared with neighbours differing in one bit, length, order, boundary or repetition; non-trivial: output compared against all others of the case, distinct by history",
        assumptions: vec!["no history contains the generator's own digests (a seed ending in such a digest can name another history's state)", "two different streams agree in 32 bytes with probability 2^-256"],
        required: vec!["seed bit", "absorbed bit", "first absorbed bit", "absorbed in two parts", "two absorbed exchanged", "two absorbed joined", "empty string absorbed more", "first string moved to the seed", "distinct histories"],
        workloads: vec![
            wl("history-blake2s", 210, 4000, history::<Blake2s>),
            wl("history-blake2b", 70, 1000, history::<Blake2bTrunc>),
            wl("reading", 60, 600, reading::<Blake2s>),
            wl("instances", 40, 300, instances),
        ],
    })
}
