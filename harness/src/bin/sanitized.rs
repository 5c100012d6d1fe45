//! Workload for builds with a sanitizer (driven by c27): the library under varied pools,
//! threads and failures. Prints what it did; the sanitizer's runtime is the monitor.
use ark_bls12_377::Bls12_377;
use ark_bls12_381::Bls12_381;
use ark_ec::pairing::Pairing;
use ark_std::rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use rayon::prelude::*;
use ripp_mon::{battery::*, battery_ip::LONGEST, fnv, lockstep, mini::{Micro, Mini}, PRECONDITION};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Barrier;

#[derive(Clone, Copy, Debug)]
struct Job(u64, bool, usize);

/// The same operations at the same moments, over and over, in threads that share nothing.
fn together<P: Pairing>(r: &mut StdRng, lanes: usize, rounds: usize, part: Option<usize>, fail: bool) -> Vec<u64> {
    let twins = rounds == 1 || r.gen::<bool>();
    let plan: Vec<(u64, usize)> = (0..rounds).map(|k| (r.gen_range(0..1 << 30), part.unwrap_or(k % PARTS))).collect();
    let plans: Vec<_> = (0..lanes as u64)
        .map(|me| {
            // the same numbers in two lanes, others in the rest
            let of = |(k, (seed, part)): (usize, &(u64, usize))| {
                (if twins && me < 2 { *seed } else { seed ^ me }, *part, fail && (me as usize + k) % 4 == 0)
            };
            plan.iter().enumerate().map(of).collect()
        })
        .collect();
    let all = |v: Vec<Result<String, String>>| fnv(v.into_iter().flatten().collect::<String>().as_bytes());
    lockstep::<P>(&plans).into_iter().map(all).collect()
}

impl Job {
    fn run(self) -> u64 {
        let t = if self.1 { table::<Bls12_377>(self.0, Some(self.2)) } else { table::<Bls12_381>(self.0, Some(self.2)) };
        fnv(t.as_bytes())
    }
    fn fail(self) {
        if self.1 {
            failures::<Bls12_377>(self.0)
        } else {
            failures::<Bls12_381>(self.0)
        }
    }
}

fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}

/// Errors made on purpose: the sanitizer must be seen to see them.
fn control(kind: &str) {
    use std::hint::black_box;
    use std::mem::MaybeUninit;
    match kind {
        "address" => {
            let v = black_box(vec![1u8; 24]);
            let p = v.as_ptr();
            drop(v);
            println!("{}", unsafe { *black_box(p) });
        }
        "memory" => {
            let v: Vec<MaybeUninit<u64>> = black_box((0..4).map(|_| MaybeUninit::uninit()).collect());
            let x: u64 = unsafe { std::ptr::read(v.as_ptr() as *const u64) };
            if black_box(x) == 7 {
                println!("seven");
            }
        }
        "thread" => {
            static mut COUNT: u64 = 0;
            let p = pool(4);
            p.install(|| (0..64usize).into_par_iter().with_max_len(1).for_each(|k| unsafe {
                std::thread::sleep(std::time::Duration::from_millis(1));
                let c = std::ptr::addr_of_mut!(COUNT);
                *c = black_box(*c) + k as u64;
            }));
        }
        "none" => (),
        _ => {
            let v = black_box(vec![1u8; 24]);
            println!("{}", unsafe { *v.get_unchecked(black_box(24)) });
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        if m.contains(PRECONDITION) {
            eprintln!("{m}");
        }
    }));
    if let (Some("--control"), Some(k)) = (std::env::args().nth(1).as_deref(), std::env::args().nth(2)) {
        return control(&k);
    }
    let a: Vec<u64> = std::env::args().skip(1).map(|s| s.parse().unwrap()).collect();
    let (seed, mode, part) = (a[0], a[1], a[2] as usize);
    let mut r = StdRng::seed_from_u64(seed);
    let first = Job(r.gen_range(0..1 << 30), r.gen(), part);
    // the same job and one on other inputs, at once
    let mut js = vec![first, first, Job(first.0 ^ 1, first.1, part), Job(first.0, !first.1, r.gen_range(0..PARTS))];
    js.shuffle(&mut r);
    let mut out: Vec<u64> = vec![];
    let threads = r.gen_range(2..7);
    match mode {
        6 => out = together::<Mini>(&mut r, threads.max(3), 36, None, part % 2 == 1),
        // for the interpreter: two lanes, one part
        7 => {
            LONGEST.store(2, Relaxed);
            out = together::<Micro>(&mut r, 2, 1, Some(part), seed % 3 == 0)
        }
        0 => {
            // one pool, shared by threads that start together
            let (p, b) = (pool(threads), Barrier::new(js.len()));
            out = std::thread::scope(|s| {
                let hs: Vec<_> = js
                    .iter()
                    .map(|j| {
                        let (p, b) = (&p, &b);
                        s.spawn(move || {
                            b.wait();
                            p.install(|| j.run())
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
        }
        1 => {
            // threads with pools of their own
            let b = Barrier::new(js.len());
            out = std::thread::scope(|s| {
                let hs: Vec<_> = js
                    .iter()
                    .map(|j| {
                        let (b, n) = (&b, r.gen_range(1..4));
                        s.spawn(move || {
                            let p = pool(n);
                            b.wait();
                            p.install(|| j.run())
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
        }
        5 => {
            // Threads with pools of one thread. Nothing is stolen, so nothing orders these
            // threads but what the library does: a work-stealing pool's own synchronisation
            // would hide most races between them.
            js.push(first);
            js.push(js[0]);
            let b = Barrier::new(js.len());
            out = std::thread::scope(|s| {
                let hs: Vec<_> = js
                    .iter()
                    .map(|j| {
                        let b = &b;
                        s.spawn(move || {
                            let p = pool(1);
                            b.wait();
                            p.install(|| j.run())
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
        }
        2 => {
            // tasks of one parallel iterator
            let p = pool(threads);
            out = p.install(|| js.par_iter().with_max_len(1).map(|j| j.run()).collect());
        }
        3 => {
            // one after another, failed calls between
            let p = pool(threads);
            for j in &js[..2] {
                p.install(|| j.fail());
                out.push(p.install(|| j.run()));
                p.install(|| j.fail());
            }
        }
        _ => {
            // failing calls next to good ones
            let (p, b) = (pool(threads), Barrier::new(js.len()));
            out = std::thread::scope(|s| {
                let hs: Vec<_> = js
                    .iter()
                    .enumerate()
                    .map(|(k, j)| {
                        let (p, b) = (&p, &b);
                        s.spawn(move || {
                            b.wait();
                            if k % 2 == 0 {
                                p.install(|| {
                                    j.fail();
                                    0
                                })
                            } else {
                                p.install(|| j.run())
                            }
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
        }
    }
    let h = out.iter().fold(0u64, |h, x| h.wrapping_mul(31).wrapping_add(*x));
    println!("done {} jobs, {threads} threads, {h:x}", out.len());
}
