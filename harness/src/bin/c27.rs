//! C27: no execution has a memory error, a data race, an uninitialised read, or keeps resources.
use ark_bls12_377::Bls12_377;
use ark_bls12_381::Bls12_381;
use ark_std::rand::Rng;
use ripp_mon::battery::*;
use ripp_mon::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::Command;
use std::sync::atomic::{AtomicI64, Ordering};

/// Bytes live in the whole process.
struct Count;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::SeqCst);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::SeqCst);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::SeqCst);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Count = Count;

/// What each sanitizer prints when it has seen an error.
const REPORTS: [&str; 7] = [
    "ERROR: AddressSanitizer:",
    "WARNING: ThreadSanitizer:",
    "WARNING: MemorySanitizer:",
    "error: Undefined Behavior:",
    PRECONDITION,
    "double free or corruption",
    "malloc(): ",
];
/// Reports that say the machine was too small, not that the program was wrong.
const RESOURCES: [&str; 4] = ["out of memory", "out-of-memory", "failed to allocate", "stack-overflow"];

fn program(kind: &str, name: &str) -> PathBuf {
    let base = std::env::current_exe().unwrap();
    let target = base.parent().unwrap().parent().unwrap();
    let p = target.join(format!("san-{kind}/x86_64-unknown-linux-gnu/release/{name}"));
    if !p.exists() {
        inconclusive(format!("{p:?} was not built"))
    }
    p
}

/// Runs one program under its sanitizer and judges the sanitizer's reports, nothing else.
fn observe(c: &mut Case, kind: &str, name: &str, args: &[String]) {
    let mut cmd;
    if kind == "interpreter" {
        let target = std::env::current_exe().unwrap();
        let target = target.parent().unwrap().parent().unwrap().join("interpreter");
        let manifest = format!("{}/harness/Cargo.toml", std::env::var("VERIF_ROOT").unwrap_or("/verif".into()));
        let seed = fnv(format!("{args:?}").as_bytes()) % 100_000;
        cmd = Command::new("cargo");
        cmd.args(["miri", "run", "-q", "--offline", "--locked", "--manifest-path", &manifest, "--bin", name, "--target-dir"]);
        cmd.arg(target).arg("--");
        cmd.env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu");
        // The thread pool's queues are built on deferred reclamation, which the aliasing models reject.
        cmd.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-disable-stacked-borrows -Zmiri-seed={seed}"));
    } else {
        cmd = Command::new(program(kind, name));
    }
    let options = "halt_on_error=1:exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:second_deadlock_stack=1:history_size=7";
    cmd.args(args);
    for k in ["ASAN_OPTIONS", "TSAN_OPTIONS", "MSAN_OPTIONS"] {
        cmd.env(k, options);
    }
    let o = match cmd.output() {
        Ok(o) => o,
        Err(e) => inconclusive(format!("{cmd:?} cannot be run: {e}")),
    };
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    let ran = String::from_utf8_lossy(&o.stdout).trim().to_string();
    let tool = if kind == "interpreter" { kind.to_string() } else { format!("{kind} sanitizer") };
    c.note("run", format!("{tool}: {name} {}", args.join(" ")));
    c.event(&format!("runs under the {tool}"));
    if args[0] == "--control" {
        if !REPORTS.iter().any(|k| err.contains(k)) {
            inconclusive(format!("the {tool} did not see an error made on purpose ({})", args[1]))
        }
        c.event(&format!("error made on purpose seen: {kind}, {}", args[1]));
        return;
    }
    let hit = REPORTS.iter().find(|k| err.contains(**k));
    let signal = o.status.signal();
    if let Some(k) = hit {
        if RESOURCES.iter().any(|k| err.contains(k)) {
            inconclusive(format!("{name}: the {tool} ran out of resources"))
        }
        let at = err.find(*k).unwrap();
        let text: Vec<&str> = err[at..].lines().filter(|l| !l.trim().is_empty()).take(14).collect();
        violated(format!("{name} {}: {}", args.join(" "), text.join(" | ")))
    }
    match (o.status.code(), signal) {
        (Some(0), _) => {
            c.event(&format!("{name} finished under the {tool}"));
            c.key_str(&format!("{kind}{name}{args:?}{ran}"));
        }
        (_, Some(s @ (4 | 7 | 11))) => violated(format!("{name} {} under the {tool}: killed by signal {s}", args.join(" "))),
        (Some(77), _) => inconclusive(format!("{name}: status 77 without a report: {err}")),
        (_, Some(s)) => inconclusive(format!("{name} {}: killed by signal {s}", args.join(" "))),
        // A wrong result or a panic is the matter of another property.
        _ => c.event("ended early without a report of the sanitizer"),
    }
}

fn mix(kind: &'static str) -> impl Fn(&mut Case) {
    move |c| {
        let (mode, part) = ([6, 5, 6, 0, 2, 6, 1, 4, 6, 5, 3][c.i % 11], c.i % PARTS);
        let seed: u64 = c.rng.gen_range(0..1 << 40);
        c.event(["threads sharing a pool", "threads with pools of their own", "tasks of a parallel iterator", "failed calls before", "failed calls alongside", "threads with nothing in common", "threads in step on the small curve"][mode]);
        observe(c, kind, "sanitized", &[seed.to_string(), mode.to_string(), part.to_string()]);
    }
}

/// Under the interpreter of undefined behaviour: two threads, short vectors, a schedule by its seed.
fn interpreted(c: &mut Case) {
    let seed: u64 = c.rng.gen_range(0..1 << 40);
    observe(c, "interpreter", "sanitized", &[seed.to_string(), "7".into(), [1, 4, 3, 2, 1, 5, 0][c.i % 7].to_string()]);
}

/// The hostile-input workloads of other properties, under the sanitizers.
fn hostile(c: &mut Case) {
    let kind = ["address", "memory"][c.i % 2];
    let name = ["c23", "c26", "c22"][(c.i / 2) % 3];
    let out = Command::new(program(kind, name)).arg("--list").output().unwrap_or_else(|e| inconclusive(e.to_string()));
    let list: Vec<(String, usize)> = String::from_utf8_lossy(&out.stdout)
        .lines()
        .filter_map(|l| {
            let (n, k) = l.split_once('\t')?;
            Some((n.to_string(), k.parse().ok()?))
        })
        .collect();
    if list.is_empty() {
        inconclusive(format!("{name} lists no workload"))
    }
    let (w, n) = &list[(c.i / 6 + c.i) % list.len()];
    let i = c.rng.gen_range(0..*n);
    let seed: u64 = c.rng.gen_range(0..1 << 40);
    c.event("hostile inputs under a sanitizer");
    observe(c, kind, name, &["--case".into(), w.clone(), i.to_string(), seed.to_string()]);
}

/// The sanitizers work here: they see errors that the harness makes.
fn control(c: &mut Case) {
    for kind in ["address", "thread", "memory"] {
        observe(c, kind, "sanitized", &["--control".into(), kind.into()]);
        observe(c, "interpreter", "sanitized", &["--control".into(), kind.into()]);
        observe(c, kind, "sanitized", &["--control".into(), "precondition".into()]);
    }
}

fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}
fn files() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

const REPS: usize = 14;
const SETTLE: usize = 5;

/// What is live after each of a number of calls, on inputs of one shape.
fn retained_child(seed: u64, part: usize, k: bool) {
    std::panic::set_hook(Box::new(|_| {}));
    let p = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
    let mut v = [(0i64, 0usize, 0usize); REPS];
    for (i, v) in v.iter_mut().enumerate() {
        let s = seed + i as u64;
        p.install(|| {
            // every part of the library, and failing calls
            if k {
                drop(table::<Bls12_377>(s, Some(part)));
                failures::<Bls12_377>(s);
            } else {
                drop(table::<Bls12_381>(s, Some(part)));
                failures::<Bls12_381>(s);
            }
        });
        *v = (LIVE.load(Ordering::SeqCst), tasks(), files());
    }
    for (b, t, f) in v {
        println!("{b} {t} {f}");
    }
}

fn retained(c: &mut Case) {
    let (part, k) = (c.i % PARTS, (c.i + c.i / PARTS) % 2 == 1);
    let seed: u64 = c.rng.gen_range(0..1 << 30);
    c.note("calls", format!("part {part} seed {seed} second curve {k}"));
    let me = std::env::current_exe().unwrap();
    let o = Command::new(me)
        .args(["--retained", &seed.to_string(), &part.to_string(), &(k as u8).to_string()])
        .output()
        .unwrap_or_else(|e| inconclusive(e.to_string()));
    if !o.status.success() {
        c.event("ended early without a measurement");
        return;
    }
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    let v: Vec<Vec<i64>> = t.lines().map(|l| l.split(' ').filter_map(|x| x.parse().ok()).collect()).collect();
    if v.len() != REPS || v.iter().any(|x| x.len() != 3) {
        // something else printed to the standard output
        inconclusive(format!("unreadable measurement: {t}"))
    }
    c.key_str(&format!("{part}{seed}{k}"));
    for (j, what) in ["memory stays live", "threads stay", "files stay open"].iter().enumerate() {
        let xs: Vec<i64> = v[SETTLE..].iter().map(|x| x[j]).collect();
        c.event(&format!("no {what} after the calls"));
        // Growth after every single call, none excepted.
        if xs.windows(2).all(|w| w[1] > w[0]) {
            violated(format!("{what}, more after every call of part {part}: {xs:?}"))
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| &s[..]) == Some("--retained") {
        return retained_child(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4] == "1");
    }
    main_with(Plan {
        property: "C27",
        rule: "one key per finished run under a sanitizer, by its results; one per measurement of retained resources",
        assumptions: vec![
            "the sanitizers instrument the library, its dependencies and the standard library (build-std); they judge the executions that happened, with the interleavings the scheduler produced",
            "the sanitized programs link the same library sources as the other monitors, compiled by the nightly toolchain",
        ],
        required: vec![
            "error made on purpose seen: address, address",
            "error made on purpose seen: thread, thread",
            "error made on purpose seen: memory, memory",
            "error made on purpose seen: address, precondition",
            "error made on purpose seen: interpreter, address",
            "error made on purpose seen: interpreter, thread",
            "error made on purpose seen: interpreter, memory",
            "sanitized finished under the interpreter",
            "sanitized finished under the address sanitizer",
            "sanitized finished under the thread sanitizer",
            "sanitized finished under the memory sanitizer",
            "hostile inputs under a sanitizer",
            "threads sharing a pool",
            "threads with pools of their own",
            "tasks of a parallel iterator",
            "threads with nothing in common",
            "threads in step on the small curve",
            "failed calls alongside",
            "no memory stays live after the calls",
        ],
        workloads: vec![
            wl("control", 1, 1, control),
            wl("interpreted", 7, 56, interpreted),
            wl("thread", 33, 440, mix("thread")),
            wl("address", 12, 180, mix("address")),
            wl("memory", 12, 180, mix("memory")),
            wl("hostile", 30, 360, hostile),
            wl("retained", 6, 60, retained),
        ],
    })
}
