//! C24: results do not depend on threads, build of parallelism, or other runs.
use ark_bls12_377::Bls12_377;
use ark_bls12_381::Bls12_381;
use ark_std::rand::{seq::SliceRandom, Rng};
use rayon::prelude::*;
use ripp_mon::battery::*;
use ripp_mon::*;
use std::process::Command;
use std::sync::Barrier;

const CURVES: [&str; 3] = ["bls12-381", "bls12-377", "mini"];

/// A job of the battery: seed, curve, part.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Job(u64, usize, usize);

impl Job {
    fn any(r: &mut impl Rng) -> Job {
        Job(r.gen_range(0..1 << 30), r.gen_range(0..3), r.gen_range(0..PARTS))
    }
    fn run(self) -> String {
        match self.1 {
            0 => table::<Bls12_381>(self.0, Some(self.2)),
            1 => table::<Bls12_377>(self.0, Some(self.2)),
            _ => table::<Mini>(self.0, Some(self.2)),
        }
    }
    fn fail(self) {
        match self.1 {
            0 => failures::<Bls12_381>(self.0),
            1 => failures::<Bls12_377>(self.0),
            _ => failures::<Mini>(self.0),
        }
    }
    /// The result in a process of its own, which does nothing else, with one thread.
    fn alone(self) -> String {
        let me = std::env::current_exe().unwrap();
        spawn(Command::new(me).args(["--battery", &self.0.to_string(), CURVES[self.1], &self.2.to_string()]).env("RAYON_NUM_THREADS", "1"))
    }
    fn name(self) -> String {
        format!("part {} seed {} over {}", self.2, self.0, CURVES[self.1])
    }
}

fn spawn(c: &mut Command) -> String {
    match c.output() {
        Ok(o) if o.status.success() => String::from_utf8(o.stdout).unwrap(),
        Ok(o) => {
            let e = String::from_utf8_lossy(&o.stderr).to_string();
            let at: String = e.lines().filter(|l| l.contains("panicked") || !l.starts_with("note")).take(3).collect::<Vec<_>>().join(" ");
            // The library died on honest inputs.
            violated(format!("{c:?} ended with {}: {at}", o.status))
        }
        Err(e) => inconclusive(format!("{c:?} cannot be run: {e}")),
    }
}

/// Line by line, so that the message names the operation.
fn same(c: &mut Case, what: &str, want: &str, got: &Result<String, String>) {
    match got {
        Err(p) => c.check_with(what, false, || format!("panicked: {p}")),
        Ok(got) => {
            let (w, g): (Vec<_>, Vec<_>) = (want.lines().collect(), got.lines().collect());
            c.events_n("results compared", w.len() as u64);
            for l in w.iter().zip(&g) {
                let n = |l: &str| l.split('\t').next().unwrap().to_string();
                c.check_with(what, l.0 == l.1, || format!("{:?} differs from the reference", n(l.0)));
            }
            c.check(what, w.len() == g.len());
        }
    }
}

fn in_pool<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    let p = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
    guarded(|| p.install(f))
}

fn pools(c: &mut Case) {
    let j = Job(c.rng.gen_range(0..1 << 30), c.i / PARTS % 2, c.i % PARTS);
    in_pools(c, j)
}

/// Thousands of elements: thresholds and splits that short vectors do not reach.
fn vast(c: &mut Case) {
    let j = Job(c.rng.gen_range(0..1 << 30), 2, if c.i % 2 == 0 { VAST } else { c.i / 2 % PARTS });
    in_pools(c, j);
    c.event("vectors of thousands");
    if j.2 == VAST {
        let want = spawn(program("serial").args([&j.0.to_string(), CURVES[j.1], &j.2.to_string()]));
        let got = guarded(|| j.run());
        same(c, "same results without parallelism", &want, &got);
    }
}

/// Many operations at the same moments in threads of their own, on a curve where they take so
/// little time that they meet.
fn in_step(c: &mut Case) {
    let (lanes, rounds) = (c.rng.gen_range(2..7), if c.tier == Tier::Thorough { 60 } else { 24 });
    let (twins, fail): (bool, bool) = (c.rng.gen(), c.rng.gen());
    let plan: Vec<(u64, usize)> = (0..rounds).map(|k| (c.rng.gen_range(0..1 << 30), (k + c.i) % PARTS)).collect();
    let plans: Vec<Vec<(u64, usize, bool)>> = (0..lanes)
        .map(|me| plan.iter().map(|(s, p)| (if twins && me < 2 { *s } else { s ^ me as u64 }, *p, fail && c.rng.gen_bool(0.2))).collect())
        .collect();
    c.note("plan", format!("{lanes} lanes, {rounds} rounds, twins {twins}, failures {fail}"));
    let all: Vec<String> = plans.iter().flatten().map(|(s, p, _)| format!("{s}:{p}")).collect();
    let me = std::env::current_exe().unwrap();
    let want = spawn(Command::new(me).arg("--list-of").args(&all).env("RAYON_NUM_THREADS", "1"));
    let want: Vec<&str> = want.split_terminator("=\n").collect();
    if want.len() != all.len() {
        inconclusive("the reference run is incomplete".to_string())
    }
    c.key_str(&all.concat());
    for (w, g) in want.iter().zip(lockstep::<Mini>(&plans).iter().flatten()) {
        same(c, "same results in step with others", w, g);
    }
    c.event("threads in step");
}

fn in_pools(c: &mut Case, j: Job) {
    c.note("job", j.name());
    let want = j.alone();
    c.key_str(&want);
    let mut sizes = vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16, 32];
    sizes.shuffle(&mut c.rng);
    sizes.truncate(if c.tier == Tier::Thorough { 12 } else { 6 });
    for n in sizes {
        c.event(&format!("pool of {n} threads"));
        let got = in_pool(n, || j.run());
        same(c, &format!("same results in a pool of {n}"), &want, &got);
    }
    // outside any pool that was set up: rayon's own
    let got = std::thread::scope(|s| s.spawn(|| guarded(|| j.run())).join().unwrap());
    same(c, "same results in the default pool", &want, &got);
}

fn jobs(c: &mut Case, n: usize) -> Vec<Job> {
    let mut v: Vec<Job> = (0..n).map(|_| Job::any(&mut c.rng)).collect();
    // the same job, and jobs that share a part, at once
    v[1] = v[0];
    v[2] = Job(v[0].0 ^ 1, v[0].1, v[0].2);
    v.shuffle(&mut c.rng);
    v
}

fn concurrent(c: &mut Case) {
    let mode = c.i % 3;
    let js = jobs(c, 5);
    let want: Vec<String> = js.iter().map(|j| j.alone()).collect();
    c.note("jobs", format!("{js:?}"));
    c.key_str(&want.concat());
    let got: Vec<Result<String, String>> = match mode {
        // threads of the system, each with its pool
        0 => {
            c.event("threads with pools of their own");
            let b = Barrier::new(js.len());
            let n: Vec<usize> = js.iter().map(|_| c.rng.gen_range(1..6)).collect();
            std::thread::scope(|s| {
                let hs: Vec<_> = js.iter().zip(&n).map(|(j, n)| {
                    let b = &b;
                    s.spawn(move || {
                        b.wait();
                        in_pool(*n, || j.run())
                    })
                }).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            })
        }
        // threads of the system sharing a pool
        1 => {
            c.event("threads sharing a pool");
            let p = rayon::ThreadPoolBuilder::new().num_threads(c.rng.gen_range(1..8)).build().unwrap();
            std::thread::scope(|s| {
                let hs: Vec<_> = js.iter().map(|j| {
                    let p = &p;
                    s.spawn(move || guarded(|| p.install(|| j.run())))
                }).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            })
        }
        // tasks of a parallel iterator
        _ => {
            c.event("tasks inside a parallel iterator");
            let p = rayon::ThreadPoolBuilder::new().num_threads(c.rng.gen_range(2..8)).build().unwrap();
            p.install(|| js.par_iter().with_max_len(1).map(|j| guarded(|| j.run())).collect())
        }
    };
    for (w, g) in want.iter().zip(&got) {
        same(c, "same results next to others", w, g);
    }
}

/// Earlier calls, repeated and failed ones included, leave no trace.
fn histories(c: &mut Case) {
    let mut js = jobs(c, 3);
    let want: Vec<String> = js.iter().map(|j| j.alone()).collect();
    c.note("jobs", format!("{js:?}"));
    c.key_str(&want.concat());
    let mut order: Vec<usize> = (0..js.len()).chain(0..js.len()).collect();
    order.shuffle(&mut c.rng);
    for k in order {
        if c.rng.gen_bool(0.5) {
            c.event("failed calls before");
            Job::any(&mut c.rng).fail();
            js[k].fail();
        }
        let got = guarded(|| js[k].run());
        same(c, "same results after others", &want[k], &got);
    }
    js.clear();
}

fn program(name: &str) -> Command {
    let p = std::env::current_exe().unwrap().with_file_name(name);
    if !p.exists() {
        inconclusive(format!("{p:?} was not built"))
    }
    Command::new(p)
}

/// Builds of the library without its parallel feature, run as programs of their own.
fn builds(c: &mut Case) {
    let j = Job(c.rng.gen_range(0..1 << 30), c.i % 3, 0);
    c.note("job", format!("seed {} over {}", j.0, CURVES[j.1]));
    let mut all = String::new();
    for k in 0..PARTS {
        let j = Job(j.0, j.1, k);
        let got = guarded(|| j.run());
        let want = spawn(program("serial").args([&j.0.to_string(), CURVES[j.1], &k.to_string()]));
        same(c, "same results without parallelism", &want, &got);
        all += &want;
    }
    c.event("builds without parallelism compared");
    c.key_str(&all);
    let want = spawn(program("serial-ip").args([&j.0.to_string(), CURVES[j.1]]));
    let got = guarded(|| Job(j.0, j.1, 0).run());
    same(c, "same inner products without parallelism", &want, &got);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| &s[..]) == Some("--battery") {
        let k = CURVES.iter().position(|k| *k == a[3]).unwrap();
        print!("{}", Job(a[2].parse().unwrap(), k, a[4].parse().unwrap()).run());
        return;
    }
    if a.get(1).map(|s| &s[..]) == Some("--list-of") {
        for j in &a[2..] {
            let (s, p) = j.split_once(':').unwrap();
            print!("{}=\n", table::<Mini>(s.parse().unwrap(), Some(p.parse().unwrap())));
        }
        return;
    }
    main_with(Plan {
        property: "C24",
        rule: "one key per case: the results of the reference run, hashed",
        assumptions: vec![
            "the reference is the same operation in a process that does nothing else, with one thread; the serial programs link the same curve and field implementations, built without their parallel features where the library allows",
            "interleavings are those the scheduler produced under varied pools, oversubscription and barriers",
        ],
        required: vec![
            "pool of 1 threads",
            "pool of 8 threads",
            "pool of 32 threads",
            "threads with pools of their own",
            "threads sharing a pool",
            "tasks inside a parallel iterator",
            "failed calls before",
            "vectors of thousands",
            "threads in step",
            "builds without parallelism compared",
        ],
        workloads: vec![
            wl("pools", 24, 240, pools),
            wl("concurrent", 12, 150, concurrent),
            wl("histories", 12, 120, histories),
            wl("vast", 12, 120, vast),
            wl("in-step", 16, 240, in_step),
            wl("builds", 9, 60, builds),
        ],
    })
}
