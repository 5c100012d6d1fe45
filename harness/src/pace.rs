//! Threads that run the same operations at the same moments, without being ordered: nothing is
//! released and nothing acquired, so that a race detector is not misled by the pacing itself.
use crate::battery::*;
use crate::battery_ip::STEP;
use ark_ec::pairing::Pairing;
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

struct Pace(Vec<AtomicUsize>);
thread_local!(static LANE: RefCell<Option<(Arc<Pace>, usize)>> = const { RefCell::new(None) });

fn step() {
    if cfg!(miri) {
        return;
    }
    LANE.with(|l| {
        let l = l.borrow();
        let Some((p, me)) = &*l else { return };
        let mine = p.0[*me].fetch_add(1, Relaxed) + 1;
        let t = Instant::now();
        while p.0.iter().any(|a| a.load(Relaxed) < mine) && t.elapsed() < Duration::from_millis(20) {
            std::thread::yield_now();
        }
    })
}

/// One lane's plan: parts of the battery with their seeds, and which calls fail first.
pub type Plan = Vec<(u64, usize, bool)>;

/// Runs each plan in a thread with a pool of one thread of its own; a result per part, or its panic.
pub fn lockstep<P: Pairing>(plans: &[Plan]) -> Vec<Vec<Result<String, String>>> {
    let _ = STEP.set(step);
    let pace = Arc::new(Pace(plans.iter().map(|_| AtomicUsize::new(0)).collect()));
    let b = Barrier::new(plans.len());
    std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(me, plan)| {
                let (b, pace) = (&b, pace.clone());
                s.spawn(move || {
                    // the pool's own thread is the one that works
                    rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap().install(|| {
                        LANE.with(|l| *l.borrow_mut() = Some((pace.clone(), me)));
                        b.wait();
                        let out = plan
                            .iter()
                            .map(|(seed, part, fail)| {
                                if *fail {
                                    failures::<P>(*seed);
                                }
                                crate::guarded(|| table::<P>(*seed, Some(*part)))
                            })
                            .collect();
                        // no one waits for a lane that has finished
                        pace.0[me].store(usize::MAX / 2, Relaxed);
                        LANE.with(|l| *l.borrow_mut() = None);
                        out
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}
