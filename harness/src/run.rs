//! Runs the workloads of one property, records what the monitors observed, and decides.
use ark_std::rand::{rngs::StdRng, Rng, SeedableRng};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{
    atomic::{AtomicBool, AtomicUsize, Ordering},
    Mutex,
};
use std::time::{Duration, Instant};

/// Payload of a monitor's panic: the property was seen broken.
pub struct Violation(pub String);
/// Payload of a panic that says the case could not be judged (harness trouble).
pub struct Inconclusive(pub String);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Case {
    pub rng: StdRng,
    pub workload: &'static str,
    /// Index of the case in its workload: systematic parameters are derived from it.
    pub i: usize,
    pub tier: Tier,
    /// Number of threads of the rayon pool the case runs in.
    pub pool: usize,
    pub desc: Vec<String>,
    pub events: BTreeMap<String, u64>,
    pub keys: Vec<u64>,
    pub findings: Vec<(String, String)>,
}

impl Case {
    /// A generator of its own, for use inside closures that also report to the case.
    pub fn fork(&mut self) -> StdRng {
        StdRng::seed_from_u64(self.rng.gen())
    }
    pub fn note(&mut self, k: &str, v: impl std::fmt::Display) {
        self.desc.push(format!("{k}={v}"));
    }
    pub fn event(&mut self, k: &str) {
        self.events_n(k, 1)
    }
    pub fn events_n(&mut self, k: &str, n: u64) {
        *self.events.entry(k.to_string()).or_insert(0) += n;
    }
    /// Marks the case as non-trivial under a fingerprint of its inputs.
    pub fn key<T: ark_serialize::CanonicalSerialize>(&mut self, t: &T) {
        let mut b = Vec::new();
        t.serialize_uncompressed(&mut b).unwrap();
        let k = fnv(&b) ^ fnv(self.workload.as_bytes());
        self.keys.push(k);
    }
    pub fn key_str(&mut self, s: &str) {
        let k = fnv(s.as_bytes()) ^ fnv(self.workload.as_bytes());
        self.keys.push(k);
    }
    /// A monitored condition of the property.
    pub fn check(&mut self, what: &str, ok: bool) {
        self.event(what);
        if !ok {
            violated(format!("{what}: condition does not hold"));
        }
    }
    pub fn check_with(&mut self, what: &str, ok: bool, msg: impl FnOnce() -> String) {
        self.event(what);
        if !ok {
            violated(format!("{what}: {}", msg()));
        }
    }
    /// An honest run: the call must return without panic or error, with the value.
    pub fn must<T, E: std::fmt::Debug>(
        &mut self,
        what: &str,
        f: impl FnOnce() -> Result<T, E>,
    ) -> T {
        self.event(what);
        match guarded(f) {
            Ok(Ok(t)) => t,
            Ok(Err(e)) => violated(format!("{what}: returned an error: {e:?}")),
            Err(p) => violated(format!("{what}: panicked: {p}")),
        }
    }
    /// An honest proof: the verifier must accept it.
    pub fn must_accept<E: std::fmt::Debug>(
        &mut self,
        what: &str,
        f: impl FnOnce() -> Result<bool, E>,
    ) {
        let v = self.must(what, f);
        self.event("accepted");
        if !v {
            violated(format!("{what}: an honest proof was rejected"));
        }
    }
    /// A forged or mismatched proof: the verifier must not accept it. A false verdict, an error
    /// and a panic all count as not accepting (totality is a property of its own).
    pub fn must_reject<E>(&mut self, what: &str, f: impl FnOnce() -> Result<bool, E>) {
        self.event(what);
        match guarded(f) {
            Ok(Ok(true)) => violated(format!("{what}: ACCEPTED")),
            Ok(Ok(false)) => self.event("rejected:false"),
            Ok(Err(_)) => self.event("rejected:error"),
            Err(_) => self.event("rejected:panic"),
        }
    }
    /// Like `must_reject`, and moreover with a verdict: no panic.
    pub fn must_reject_total<E>(&mut self, what: &str, f: impl FnOnce() -> Result<bool, E>) {
        self.event(what);
        match guarded(f) {
            Ok(Ok(true)) => violated(format!("{what}: ACCEPTED")),
            Ok(Ok(false)) => self.event("rejected:false"),
            Ok(Err(_)) => self.event("rejected:error"),
            Err(p) => violated(format!("{what}: panicked instead of giving a verdict: {p}")),
        }
    }
    /// The call must be refused: error or panic, but no value.
    pub fn must_refuse<T, E>(&mut self, what: &str, f: impl FnOnce() -> Result<T, E>) {
        self.event(what);
        match guarded(f) {
            Ok(Ok(_)) => violated(format!("{what}: was not refused")),
            Ok(Err(_)) => self.event("refused:error"),
            Err(_) => self.event("refused:panic"),
        }
    }
    /// The call must return an error: neither a value nor a panic.
    pub fn must_err<T, E>(&mut self, what: &str, f: impl FnOnce() -> Result<T, E>) {
        self.event(what);
        match guarded(f) {
            Ok(Ok(_)) => violated(format!("{what}: returned a value instead of an error")),
            Ok(Err(_)) => self.event("refused:error"),
            Err(p) => violated(format!("{what}: panicked instead of returning an error: {p}")),
        }
    }
    /// A genuine defect with a stable signature; judged against the known-findings file.
    pub fn finding(&mut self, sig: &str, msg: String) {
        self.findings.push((sig.to_string(), msg));
    }
    /// Pick an index with systematic coverage over the case index.
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        let k = self.rng.gen_range(0..xs.len());
        xs[k]
    }
}

pub fn violated(msg: String) -> ! {
    resume_unwind(Box::new(Violation(msg)))
}
pub fn inconclusive(msg: String) -> ! {
    resume_unwind(Box::new(Inconclusive(msg)))
}

/// Runs library code; its panic becomes a message, a monitor's verdict passes through.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(p) => {
            if p.is::<Violation>() || p.is::<Inconclusive>() {
                resume_unwind(p)
            }
            Err(panic_text(&p))
        }
    }
}

fn panic_text(p: &Box<dyn Any + Send>) -> String {
    let m = p
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "unknown panic".into());
    let at = LAST.lock().unwrap();
    let loc = at
        .iter()
        .rev()
        .find(|(t, _)| *t == m)
        .map(|(_, l)| l.clone())
        .unwrap_or_default();
    format!("{m} {loc}")
}

static LAST: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

/// How the standard library's checks of unsafe preconditions begin their message.
pub const PRECONDITION: &str = "unsafe precondition(s) violated";

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if m.contains(PRECONDITION) {
            eprintln!("{m}");
        }
        let l = info
            .location()
            .map(|l| format!("at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let mut v = LAST.lock().unwrap();
        v.push((m, l));
        let n = v.len();
        if n > 256 {
            v.drain(..n - 128);
        }
    }));
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Workload {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: Box<dyn Fn(&mut Case) + Send + Sync>,
}

pub fn wl(
    name: &'static str,
    quick: usize,
    thorough: usize,
    f: impl Fn(&mut Case) + Send + Sync + 'static,
) -> Workload {
    Workload {
        name,
        quick,
        thorough,
        f: Box::new(f),
    }
}

pub struct Plan {
    pub property: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    /// Events that must have been observed at least once, or the run is inconclusive.
    pub required: Vec<&'static str>,
    pub workloads: Vec<Workload>,
}

fn env_usize(k: &str) -> Option<usize> {
    std::env::var(k).ok().and_then(|v| v.parse().ok())
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const POOLS: [usize; 12] = [1, 2, 3, 4, 5, 7, 8, 2, 6, 3, 13, 1];

struct Out {
    workload: usize,
    i: usize,
    pool: usize,
    desc: Vec<String>,
    events: BTreeMap<String, u64>,
    keys: Vec<u64>,
    findings: Vec<(String, String)>,
    verdict: Verdict,
    secs: f64,
}

enum Verdict {
    Held,
    Violated(String),
    Inconclusive(String),
}

fn run_case(prop: &str, seed: u64, tier: Tier, w: &Workload, widx: usize, i: usize) -> Out {
    let id = format!("{prop}/{}/{i}/{seed}", w.name);
    let h = fnv(id.as_bytes());
    let pool = POOLS[((h >> 7) as usize) % POOLS.len()];
    let mut case = Case {
        rng: StdRng::seed_from_u64(h),
        workload: w.name,
        i,
        tier,
        pool,
        desc: vec![],
        events: BTreeMap::new(),
        keys: vec![],
        findings: vec![],
    };
    let tp = rayon::ThreadPoolBuilder::new()
        .num_threads(pool)
        .build()
        .expect("thread pool");
    let t0 = Instant::now();
    let r = catch_unwind(AssertUnwindSafe(|| tp.install(|| (w.f)(&mut case))));
    let verdict = match r {
        Ok(()) => Verdict::Held,
        Err(p) => {
            if let Some(v) = p.downcast_ref::<Violation>() {
                Verdict::Violated(v.0.clone())
            } else if let Some(v) = p.downcast_ref::<Inconclusive>() {
                Verdict::Inconclusive(v.0.clone())
            } else {
                // A panic outside every guarded call: an honest setup step died.
                Verdict::Violated(format!("panic in an honest step: {}", panic_text(&p)))
            }
        }
    };
    Out {
        workload: widx,
        i,
        pool,
        desc: case.desc,
        events: case.events,
        keys: case.keys,
        findings: case.findings,
        verdict,
        secs: t0.elapsed().as_secs_f64(),
    }
}

/// Lines `property=<id> signature=<sig> ...` of the known-findings file ("fixed:" lines excluded).
fn known_findings(prop: &str) -> BTreeSet<String> {
    let p = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()) + "/known_findings.txt";
    std::fs::read_to_string(p)
        .unwrap_or_default()
        .lines()
        .filter(|l| l.starts_with(&format!("known: property={prop} ")))
        .filter_map(|l| {
            l.split_whitespace()
                .find_map(|w| w.strip_prefix("signature=").map(|s| s.to_string()))
        })
        .collect()
}

/// Properties that promise an answer from every call.
const ANSWERS: [&str; 9] = ["C03", "C06", "C08", "C11", "C15", "C17", "C19", "C23", "C24"];
/// Ticks of 200 ms without use of the processor (more than IDLE_SLACK clock ticks) that say that
/// every thread sleeps for good: the workloads wait for nothing but each other.
const IDLE_TICKS: u32 = 300;
const IDLE_SLACK: u64 = 20;

/// Clock ticks used by this process and its descendants.
fn cpu_time() -> u64 {
    let stat = |pid: u32| -> Option<(u32, u64)> {
        let t = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
        let f: Vec<&str> = t[t.rfind(')')? + 2..].split(' ').collect();
        let n = |k: usize| f.get(k).and_then(|x| x.parse::<u64>().ok());
        // parent; own time and that of children waited for
        Some((n(1)? as u32, n(11)? + n(12)? + n(13)? + n(14)?))
    };
    let me = std::process::id();
    let mut all: BTreeMap<u32, (u32, u64)> = BTreeMap::new();
    if let Ok(d) = std::fs::read_dir("/proc") {
        for e in d.flatten() {
            if let Some(pid) = e.file_name().to_str().and_then(|s| s.parse::<u32>().ok()) {
                if let Some(s) = stat(pid) {
                    all.insert(pid, s);
                }
            }
        }
    }
    all.iter()
        .filter(|(pid, _)| {
            let mut p = **pid;
            for _ in 0..8 {
                if p == me {
                    return true;
                }
                match all.get(&p) {
                    Some((q, _)) => p = *q,
                    None => return false,
                }
            }
            false
        })
        .map(|(_, s)| s.1)
        .sum()
}

pub fn main_with(plan: Plan) -> ! {
    install_hook();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed = env_usize("VERIF_SEED").unwrap_or(1) as u64;
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let args: Vec<String> = std::env::args().collect();
    let known = known_findings(plan.property);

    if args.len() >= 2 && args[1] == "--list" {
        for w in &plan.workloads {
            println!("{}\t{}", w.name, w.quick);
        }
        std::process::exit(0)
    }

    // Replay of one recorded case: --replay FILE or --case WORKLOAD INDEX SEED
    if args.len() >= 2 && (args[1] == "--replay" || args[1] == "--case") {
        let (wname, i, seed) = if args[1] == "--replay" {
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| {
                t.lines()
                    .find_map(|l| l.strip_prefix(&format!("{k}: ")))
                    .unwrap()
                    .to_string()
            };
            (
                get("workload"),
                get("case").parse::<usize>().unwrap(),
                get("seed").parse::<u64>().unwrap(),
            )
        } else {
            (
                args[2].clone(),
                args[3].parse().unwrap(),
                args.get(4).and_then(|s| s.parse().ok()).unwrap_or(seed),
            )
        };
        let (widx, w) = plan
            .workloads
            .iter()
            .enumerate()
            .find(|(_, w)| w.name == wname)
            .expect("workload");
        let o = run_case(plan.property, seed, tier, w, widx, i);
        println!("case {wname}/{i} seed {seed} pool {}: {}", o.pool, o.desc.join(" "));
        println!("events: {:?}", o.events);
        for (s, m) in &o.findings {
            println!("finding {s}: {m}");
        }
        match o.verdict {
            Verdict::Held => {
                println!("held ({:.2} s)", o.secs);
                std::process::exit(0)
            }
            Verdict::Violated(m) => {
                println!("violated: {m}");
                std::process::exit(1)
            }
            Verdict::Inconclusive(m) => {
                println!("inconclusive: {m}");
                std::process::exit(2)
            }
        }
    }

    let t0 = Instant::now();
    let budget = Duration::from_secs(
        env_usize("VERIF_BUDGET").unwrap_or(match tier {
            Tier::Quick => 240,
            Tier::Thorough => 600,
        }) as u64,
    );
    let workers = env_usize("VERIF_WORKERS").unwrap_or_else(|| {
        std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
    });

    // The queue interleaves the workloads proportionally so that every one is reached early.
    let mut queue: Vec<(usize, usize)> = Vec::new();
    let counts: Vec<usize> = plan
        .workloads
        .iter()
        .map(|w| match tier {
            Tier::Quick => w.quick,
            Tier::Thorough => w.thorough,
        })
        .collect();
    let mut slots: Vec<(f64, usize, usize)> = Vec::new();
    for (w, n) in counts.iter().enumerate() {
        for i in 0..*n {
            slots.push(((i as f64 + 0.5) / *n as f64, w, i));
        }
    }
    slots.sort_by(|a, b| a.partial_cmp(b).unwrap());
    queue.extend(slots.iter().map(|s| (s.1, s.2)));
    let planned = queue.len();

    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let outs: Mutex<Vec<Out>> = Mutex::new(Vec::new());
    let running: Mutex<BTreeMap<usize, (Instant, String)>> = Mutex::new(BTreeMap::new());
    let done = AtomicBool::new(false);

    std::thread::scope(|s| {
        // Generous wall-clock watchdog: its firing is inconclusive, never a violation.
        let (running_r, done_r) = (&running, &done);
        let hang = Duration::from_secs(if tier == Tier::Quick { 400 } else { 700 });
        let prop = plan.property;
        let (root_r, seed_r) = (&root, seed);
        s.spawn(move || {
            let (mut ticks, mut used) = (0u32, cpu_time());
            while !done_r.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                ticks += 1;
                if ticks % 25 == 0 {
                    let now = cpu_time();
                    if now > used + IDLE_SLACK || now < used {
                        (ticks, used) = (0, now);
                    }
                }
                if ticks >= IDLE_TICKS && !running_r.lock().unwrap().is_empty() {
                    let names: Vec<String> = running_r.lock().unwrap().values().map(|x| x.1.clone()).collect();
                    if done_r.load(Ordering::SeqCst) {
                        break;
                    }
                    if ANSWERS.contains(&prop) {
                        let path = format!("{root_r}/replays/{prop}-deadlock-{seed_r}.txt");
                        let _ = std::fs::create_dir_all(format!("{root_r}/replays"));
                        let _ = std::fs::write(&path, format!("property: {prop}\nwhat: all threads sleep while these cases run: {names:?}\n"));
                        println!("VIOLATION property={prop} replay={path}");
                        println!("  deadlock: no thread has used the processor for a minute while these cases run: {names:?}");
                        std::process::exit(1);
                    }
                    println!("INCONCLUSIVE property={prop} deadlock in one of {names:?}");
                    std::process::exit(2);
                }
                for (_, (t, n)) in running_r.lock().unwrap().iter() {
                    if t.elapsed() > hang {
                        println!("INCONCLUSIVE property={prop} case {n} exceeded the watchdog");
                        std::process::exit(2);
                    }
                }
            }
        });
        let hs: Vec<_> = (0..workers)
            .map(|wk| {
                let (next, stop, outs, running, queue, plan) =
                    (&next, &stop, &outs, &running, &queue, &plan);
                s.spawn(move || loop {
                    if stop.load(Ordering::SeqCst) || t0.elapsed() > budget {
                        return;
                    }
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= queue.len() {
                        return;
                    }
                    let (w, i) = queue[k];
                    let name = format!("{}/{}", plan.workloads[w].name, i);
                    running.lock().unwrap().insert(wk, (Instant::now(), name));
                    let o = run_case(plan.property, seed, tier, &plan.workloads[w], w, i);
                    running.lock().unwrap().remove(&wk);
                    if matches!(o.verdict, Verdict::Violated(_)) {
                        stop.store(true, Ordering::SeqCst);
                    }
                    outs.lock().unwrap().push(o);
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, Ordering::SeqCst);
    });

    let outs = outs.into_inner().unwrap();
    let mut events: BTreeMap<String, u64> = BTreeMap::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut per: BTreeMap<&str, usize> = BTreeMap::new();
    let mut pools: BTreeMap<usize, usize> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut slow: Vec<(f64, String)> = Vec::new();
    for o in &outs {
        let name = plan.workloads[o.workload].name;
        for (k, v) in &o.events {
            *events.entry(k.clone()).or_insert(0) += v;
        }
        keys.extend(o.keys.iter());
        let c = per.entry(name).or_insert(0);
        *c += 1;
        if *c <= 2 {
            samples.push(format!("{name}/{} threads={} {}", o.i, o.pool, o.desc.join(" ")));
        }
        *pools.entry(o.pool).or_insert(0) += 1;
        slow.push((o.secs, format!("{name}/{}", o.i)));
    }
    slow.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());

    let mut violations = 0usize;
    let mut inconcl: Vec<String> = Vec::new();
    let rdir = format!("{root}/replays");
    let report = |o: &Out, msg: &str, tag: &str| {
        let _ = std::fs::create_dir_all(&rdir);
        let name = plan.workloads[o.workload].name;
        let path = format!("{rdir}/{}-{name}-{}-{seed}{tag}.txt", plan.property, o.i);
        let body = format!(
            "property: {}\nworkload: {name}\ncase: {}\nseed: {seed}\nthreads: {}\nwhat: {msg}\ninput: {}\nevents: {:?}\nreplay: bash /verif/check.sh {} --replay {path}\n",
            plan.property,
            o.i,
            o.pool,
            o.desc.join(" "),
            o.events,
            plan.property,
        );
        let _ = std::fs::write(&path, body);
        println!("VIOLATION property={} replay={path}", plan.property);
        println!("  {name}/{} threads={} {}", o.i, o.pool, o.desc.join(" "));
        println!("  {msg}");
    };
    let mut seen_known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut reported: BTreeSet<String> = BTreeSet::new();
    for o in &outs {
        for (sig, msg) in &o.findings {
            if known.contains(sig) {
                seen_known.entry(sig.clone()).or_insert((0, msg.clone())).0 += 1;
            } else if reported.insert(sig.clone()) {
                violations += 1;
                report(o, &format!("[{sig}] {msg}"), &format!("-{sig}"));
            }
        }
        match &o.verdict {
            Verdict::Held => {}
            Verdict::Violated(m) => {
                violations += 1;
                report(o, m, "");
            }
            Verdict::Inconclusive(m) => {
                inconcl.push(format!("{}/{}: {m}", plan.workloads[o.workload].name, o.i))
            }
        }
    }
    for (sig, (n, msg)) in &seen_known {
        println!("KNOWN-FINDING: property={} {sig}: {msg} (seen {n} times)", plan.property);
    }
    for (w, n) in plan.workloads.iter().zip(&counts) {
        let got = per.get(w.name).copied().unwrap_or(0);
        if violations == 0 && *n > 0 && got == 0 {
            inconcl.push(format!("workload {} was never reached", w.name));
        }
    }
    if violations == 0 {
        for r in &plan.required {
            if !events.contains_key(*r) {
                inconcl.push(format!("required event {r:?} was never observed"));
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();

    let ev = events
        .iter()
        .map(|(k, v)| format!("{}: {v}", jstr(k)))
        .collect::<Vec<_>>()
        .join(", ");
    let pj = per
        .iter()
        .map(|(k, v)| format!("{}: {v}", jstr(k)))
        .collect::<Vec<_>>()
        .join(", ");
    let po = pools
        .iter()
        .map(|(k, v)| format!("\"{k}\": {v}"))
        .collect::<Vec<_>>()
        .join(", ");
    let sm = samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   ");
    let kf = seen_known
        .iter()
        .map(|(k, (n, _))| format!("{}: {n}", jstr(k)))
        .collect::<Vec<_>>()
        .join(", ");
    let asm = plan
        .assumptions
        .iter()
        .map(|s| jstr(s))
        .collect::<Vec<_>>()
        .join(",\n  ");
    let js = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"planned_cases\": {planned},\n  \"cases_per_workload\": {{{pj}}},\n  \"cases_per_thread_count\": {{{po}}},\n  \"monitor_events\": {{{ev}}},\n  \"known_findings_seen\": {{{kf}}},\n  \"inconclusive_cases\": {},\n  \"samples\": [\n   {sm}\n  ]\n }},\n \"assumptions\": [\n  {asm}\n ],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        jstr(plan.property),
        jstr(if tier == Tier::Quick { "quick" } else { "thorough" }),
        outs.len(),
        keys.len(),
        jstr(plan.rule),
        inconcl.len(),
    );
    let edir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(format!("{edir}/{}.json", plan.property), js).expect("evidence file");

    println!(
        "{}: {} of {planned} cases, {} distinct inputs, {} monitor events, {:.1} s; slowest {:?}",
        plan.property,
        outs.len(),
        keys.len(),
        events.values().sum::<u64>(),
        wall,
        slow.iter().take(3).map(|(s, n)| format!("{n} {s:.1}s")).collect::<Vec<_>>()
    );
    if violations > 0 {
        std::process::exit(1);
    }
    if !inconcl.is_empty() {
        for m in inconcl.iter().take(10) {
            println!("INCONCLUSIVE property={} {m}", plan.property);
        }
        std::process::exit(2);
    }
    println!("held on everything explored: property={}", plan.property);
    std::process::exit(0)
}
