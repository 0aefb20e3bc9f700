//! Runs, searches, minimises, replays and reports. See DESIGN.md ("The machinery").

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};

use crate::tape::{hash_str, mix, Prng};
use crate::world::{self, Tapes};

/// A violated property.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct V {
    /// what kind of violation; the minimiser keeps the class fixed
    pub class: String,
    pub detail: String,
}

/// Error values carry a backtrace in their text; a few frames are enough.
fn trim(d: String) -> String {
    match d.find("Backtrace:") {
        None => d.chars().take(3000).collect(),
        Some(p) => {
            let head: String = d[..p].chars().take(1200).collect();
            let frames: Vec<&str> = d[p..]
                .lines()
                .filter(|l| !l.contains("core::") && !l.contains("alloc::") && !l.contains("std::") && !l.contains("/rustc/"))
                .take(10)
                .collect();
            format!("{head}{}", frames.join("\n"))
        }
    }
}

pub type Res = Result<(), V>;

pub fn v<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, V> {
    Err(V {
        class: class.into(),
        detail: trim(detail.into()),
    })
}

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub run: fn() -> Res,
    pub quick: u64,
    pub quick_secs: u64,
    pub thorough: u64,
    pub thorough_secs: u64,
    pub level: &'static str,
    /// what one evaluated case is and when it counts as non-trivial
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

// ------------------------------------------------------------------ deterministic randomness

thread_local! {
    static ENTROPY: Cell<u64> = const { Cell::new(0x5EED) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IN_RUN: Cell<bool> = const { Cell::new(false) };
}

/// Every consumer of OS randomness in the process (hash seeds, tokio's RNG) is fed from here.
pub fn fill_entropy(buf: *mut u8, len: usize) -> isize {
    let s = ENTROPY.with(|e| e.get());
    let mut p = Prng::new(s);
    for i in 0..len {
        // SAFETY: the caller of getrandom provides len writable bytes.
        unsafe { *buf.add(i) = p.next() as u8 };
    }
    ENTROPY.with(|e| e.set(p.next()));
    len as isize
}

/// # Safety
/// As the system call.
#[cfg(target_arch = "x86_64")]
pub unsafe fn raw_syscall(n: i64, a: [usize; 6]) -> i64 {
    const GETRANDOM: i64 = 318;
    if n == GETRANDOM {
        return fill_entropy(a[0] as *mut u8, a[1]) as i64;
    }
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a[0],
        in("rsi") a[1],
        in("rdx") a[2],
        in("r10") a[3],
        in("r8") a[4],
        in("r9") a[5],
        lateout("rcx") _,
        lateout("r11") _,
    );
    if (-4095..0).contains(&r) {
        extern "C" {
            fn __errno_location() -> *mut i32;
        }
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

#[macro_export]
macro_rules! interpose_getrandom {
    () => {
        /// Takes the place of the C library's getrandom.
        #[no_mangle]
        pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
            $crate::runner::fill_entropy(buf, len)
        }
        #[no_mangle]
        pub extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
            $crate::runner::fill_entropy(buf, len);
            0
        }
        /// Takes the place of the C library's syscall, for those who ask the kernel themselves.
        #[cfg(target_arch = "x86_64")]
        #[no_mangle]
        pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
            $crate::runner::raw_syscall(n, [a, b, c, d, e, f])
        }
    };
}

struct SimRandom;
impl ahash::random_state::RandomSource for SimRandom {
    fn gen_hasher_seed(&self) -> usize {
        let mut b = [0u8; 8];
        fill_entropy(b.as_mut_ptr(), 8);
        usize::from_le_bytes(b)
    }
}

// ------------------------------------------------------------------ one run

#[derive(Clone, Serialize, Deserialize, Default)]
pub struct Outcome {
    pub digest: u64,
    pub sched_sig: u64,
    pub sim_us: u64,
    pub steps: u64,
    pub events: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub violation: Option<V>,
    pub tapes: [Vec<u64>; 3],
    pub log: Vec<String>,
    pub sample: String,
}

fn short(loc: &str) -> String {
    loc.trim_start_matches("/repo/").to_string()
}

pub fn init_process() {
    let _ = ahash::random_state::set_random_source(SimRandom);
    let _ = ahash::RandomState::new();
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let on_run = IN_RUN.with(|r| r.get());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", short(l.file()), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        let loc = if loc.contains("vortex-error/") || loc.contains("/rustc/") || loc.contains("library/") || loc.contains(".cargo/registry") {
            // raised on behalf of a caller: name the caller
            caller_in_repo().unwrap_or(loc)
        } else {
            loc
        };
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((loc, msg));
            }
        });
        if !on_run && std::env::var("VSIM_QUIET").is_err() {
            default(info);
        }
    }));
}

/// The innermost function of the code under test on the stack, by name.
fn caller_in_repo() -> Option<String> {
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    for l in bt.lines() {
        let l = l.trim();
        let Some((n, f)) = l.split_once(": ") else { continue };
        if n.parse::<u32>().is_err() {
            continue;
        }
        if (f.contains("vortex") || f.starts_with("vsim::")) && !f.contains("vortex_error::") && !f.contains("vsim::runner") {
            return Some(f.to_string());
        }
    }
    None
}

/// Makes a thread part of a run: deterministic entropy, quiet panics.
pub fn adopt_thread(entropy: u64) {
    ENTROPY.with(|e| e.set(entropy));
    IN_RUN.with(|r| r.set(true));
}

pub fn take_panic() -> Option<(String, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

/// Executes one run on a fresh thread. The first in a process is preceded by a few others, so that
/// what is set up once per process is the same for all.
pub fn run_one(prop: &Prop, tapes: Tapes, entropy: u64, verbose: bool) -> Outcome {
    static WARM: std::sync::Once = std::sync::Once::new();
    WARM.call_once(|| {
        for k in 0..4 {
            run_on_thread(prop, Tapes::generate(mix(k, 0x3A53)), k, false);
        }
    });
    run_on_thread(prop, tapes, entropy, verbose)
}

fn run_on_thread(prop: &Prop, tapes: Tapes, entropy: u64, verbose: bool) -> Outcome {
    let run = prop.run;
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .name("run".into())
        .spawn(move || {
            ENTROPY.with(|e| e.set(entropy));
            IN_RUN.with(|r| r.set(true));
            world::install(tapes, verbose);
            crate::file::forget_deserializer();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(run));
            let res = match r {
                Ok(r) => r,
                Err(_) => {
                    let (loc, msg) = take_panic().unwrap_or_default();
                    Err(V {
                        class: format!("panic@{}", strip_line(&loc)),
                        detail: trim(format!("panicked at {loc}: {msg}")),
                    })
                }
            };
            let w = world::uninstall();
            Outcome {
                digest: mix(w.digest, hash_str(&res.as_ref().err().map(|v| v.class.clone()).unwrap_or_default())),
                sched_sig: w.sched_sig,
                sim_us: w.now,
                steps: w.steps,
                events: w.events,
                faults: w.faults.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
                probes: w.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
                violation: res.err(),
                tapes: w.tapes.data(),
                log: w.log,
                sample: w.sample,
            }
        })
        .expect("spawn run thread")
        .join()
        .expect("run thread result")
}

/// Line numbers shift with unrelated edits, so they are no part of a violation's class.
pub fn strip_line(loc: &str) -> String {
    match loc.rsplit_once(':') {
        Some((f, l)) if l.parse::<u32>().is_ok() => f.to_string(),
        _ => loc.to_string(),
    }
}

pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(mix(seed, hash_str(prop)), i)
}

// ------------------------------------------------------------------ command line

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1).cloned())
}
fn argn(args: &[String], name: &str, default: u64) -> u64 {
    arg(args, name).and_then(|s| s.parse().ok()).unwrap_or(default)
}

pub fn main(props: &'static [Prop]) {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    init_process();
    match cmd {
        "check" => std::process::exit(check(props, &args)),
        "worker" => worker(props, &args),
        "one" => one(props, &args),
        "attempt" => attempt_server(props),
        "survey" => survey(props, &args),
        "min" => min_one(props, &args),
        "replay" => std::process::exit(replay(props, &args)),
        "determinism" => std::process::exit(determinism(props, &args)),
        "list" => {
            for p in props {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
        }
        _ => {
            eprintln!("usage: check --prop ID [--runs N] [--secs S] | one --prop ID --seed S --index I | replay FILE | determinism --prop ID | list");
            std::process::exit(2);
        }
    }
}

fn find<'a>(props: &'a [Prop], id: &str) -> &'a Prop {
    match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

fn limit_memory() {
    let gb = 10u64 << 30;
    let l = libc::rlimit {
        rlim_cur: gb,
        rlim_max: gb,
    };
    // SAFETY: plain system call on our own process.
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

#[derive(Serialize, Deserialize, Default)]
struct Stats {
    runs: u64,
    sim_us: u64,
    steps: u64,
    events: u64,
    faults: BTreeMap<String, u64>,
    fault_runs: u64,
    probes: BTreeMap<String, u64>,
    sigs: BTreeSet<u64>,
    digests: BTreeSet<u64>,
    nontrivial: u64,
    samples: Vec<String>,
    first_digests: Vec<(u64, u64)>,
}

impl Stats {
    fn add(&mut self, i: u64, o: &Outcome) {
        self.runs += 1;
        self.sim_us += o.sim_us;
        self.steps += o.steps;
        self.events += o.events;
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_insert(0) += v;
        }
        if !o.faults.is_empty() {
            self.fault_runs += 1;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        if self.sigs.len() < 400_000 {
            self.sigs.insert(o.sched_sig);
        }
        if o.probes.contains_key("nontrivial") && self.digests.len() < 400_000 && self.digests.insert(o.digest) {
            self.nontrivial += 1;
            if self.samples.len() < 2 && !o.sample.is_empty() {
                self.samples.push(format!("run {i}: {}", o.sample));
            }
        }
        if i < 12 {
            self.first_digests.push((i, o.digest));
        }
    }
    fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.sim_us += o.sim_us;
        self.steps += o.steps;
        self.events += o.events;
        self.fault_runs += o.fault_runs;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        self.sigs.extend(o.sigs);
        self.digests.extend(o.digests);
        self.nontrivial = self.digests.len() as u64;
        self.samples.extend(o.samples);
        self.first_digests.extend(o.first_digests);
    }
}

fn worker(props: &[Prop], args: &[String]) {
    limit_memory();
    let prop = find(props, &arg(args, "--prop").unwrap_or_default());
    let seed = argn(args, "--seed", 1);
    let start = argn(args, "--start", 0);
    let end = argn(args, "--end", 1);
    let stride = argn(args, "--stride", 1);
    let secs = argn(args, "--secs", 60);
    let out = arg(args, "--out").expect("--out");
    let t0 = Instant::now();
    let mut stats = Stats::default();
    let mut i = start;
    let stdout = std::io::stdout();
    while i < end {
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        {
            let mut o = stdout.lock();
            let _ = writeln!(o, "S {i}");
            let _ = o.flush();
        }
        let rs = run_seed(seed, prop.id, i);
        let o = run_one(prop, Tapes::generate(rs), mix(rs, 9), false);
        stats.add(i, &o);
        if let Some(vi) = &o.violation {
            let rec = Found {
                index: i,
                v: vi.clone(),
                tapes: Some(o.tapes.clone()),
            };
            let mut so = stdout.lock();
            let _ = writeln!(so, "V {}", serde_json::to_string(&rec).expect("json"));
            let _ = so.flush();
            break;
        }
        i += stride;
    }
    std::fs::write(out, serde_json::to_vec(&stats).expect("json")).expect("write stats");
    println!("E");
}

#[derive(Serialize, Deserialize, Clone)]
struct Found {
    index: u64,
    v: V,
    tapes: Option<[Vec<u64>; 3]>,
}

fn one(props: &[Prop], args: &[String]) {
    let prop = find(props, &arg(args, "--prop").unwrap_or_default());
    let seed = argn(args, "--seed", 1);
    let i = argn(args, "--index", 0);
    let rs = run_seed(seed, prop.id, i);
    let o = run_one(prop, Tapes::generate(rs), mix(rs, 9), true);
    print_outcome(&o, args.iter().any(|a| a == "-v"));
}

fn norm(s: &str) -> String {
    let s = s.split("Backtrace:").next().unwrap_or("").replace("scan(", "");
    let mut out = String::new();
    let mut digit = false;
    for c in s.chars() {
        if c.is_ascii_digit() {
            if !digit {
                out.push('#');
            }
            digit = true;
        } else {
            digit = false;
            out.push(if c == '\n' { ' ' } else { c });
        }
        if out.len() > 90 {
            break;
        }
    }
    out
}

/// Development aid: runs many seeds without stopping and groups the violations by kind.
fn survey(props: &'static [Prop], args: &[String]) {
    std::env::set_var("VSIM_QUIET", "1");
    let prop = find(props, &arg(args, "--prop").unwrap_or_default());
    let seed = argn(args, "--seed", 1);
    let runs = argn(args, "--runs", 1000);
    let start = argn(args, "--start", 0);
    let bucket: std::sync::Mutex<BTreeMap<(String, String), (u64, u64, String)>> = Default::default();
    let next = std::sync::atomic::AtomicU64::new(start);
    let bad = std::sync::atomic::AtomicU64::new(0);
    let slow = std::sync::Mutex::new((0u128, 0u64));
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= start + runs {
                    return;
                }
                let rs = run_seed(seed, prop.id, i);
                let t0 = Instant::now();
                let o = run_one(prop, Tapes::generate(rs), mix(rs, 9), false);
                let mut s = slow.lock().expect("lock");
                if t0.elapsed().as_millis() > s.0 {
                    *s = (t0.elapsed().as_millis(), i);
                }
                if let Some(v) = o.violation {
                    bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let mut b = bucket.lock().expect("lock");
                    let e = b.entry((v.class.clone(), norm(&v.detail))).or_insert((0, i, v.detail.clone()));
                    e.0 += 1;
                    if i < e.1 {
                        e.1 = i;
                        e.2 = v.detail;
                    }
                }
            });
        }
    });
    let mut b: Vec<_> = bucket.into_inner().expect("lock").into_iter().collect();
    b.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
    for ((c, n), (k, i, _)) in &b {
        println!("{k:6}  first={i:<6} [{c}] {n}");
    }
    println!("{} of {} runs violate; slowest run {:?}", bad.into_inner(), runs, slow.into_inner().expect("lock"));
}

fn min_one(props: &'static [Prop], args: &[String]) {
    let prop = find(props, &arg(args, "--prop").unwrap_or_default());
    let seed = argn(args, "--seed", 1);
    let i = argn(args, "--index", 0);
    let rs = run_seed(seed, prop.id, i);
    let o = run_one(prop, Tapes::generate(rs), mix(rs, 9), false);
    let Some(v) = o.violation else {
        println!("no violation");
        return;
    };
    let (t, tries) = minimise(prop, mix(rs, 9), o.tapes, &v.class, Duration::from_secs(argn(args, "--secs", 20)));
    println!("{tries} attempts; tapes {:?}", t);
    crate::file::TREE.store(true, std::sync::atomic::Ordering::Relaxed);
    let o = run_one(prop, Tapes::replay(t), mix(rs, 9), true);
    print_outcome(&o, args.iter().any(|a| a == "-v"));
}

fn print_outcome(o: &Outcome, full: bool) {
    if full {
        for l in &o.log {
            println!("{l}");
        }
    }
    println!("sample: {}", o.sample);
    println!("digest={:016x} sig={:016x} sim_us={} steps={} events={}", o.digest, o.sched_sig, o.sim_us, o.steps, o.events);
    println!("faults={:?} probes={:?}", o.faults, o.probes);
    println!("tape lengths: {:?}", o.tapes.iter().map(|t| t.len()).collect::<Vec<_>>());
    match &o.violation {
        Some(v) => println!("violation [{}] {}", v.class, v.detail),
        None => println!("no violation"),
    }
}

// ------------------------------------------------------------------ replay

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    detail: String,
    seed: u64,
    index: u64,
    entropy: u64,
    /// null: crash that left no tape; re-run from the seed
    tapes: Option<[Vec<u64>; 3]>,
    minimised_from: Vec<usize>,
    sample: String,
    trace: Vec<String>,
}

fn replay_tapes(r: &Replay) -> Tapes {
    match &r.tapes {
        Some(t) => Tapes::replay(t.clone()),
        None => Tapes::generate(run_seed(r.seed, &r.property, r.index)),
    }
}

fn replay(props: &[Prop], args: &[String]) -> i32 {
    limit_memory();
    let f = args.get(2).cloned().unwrap_or_default();
    let r: Replay = match std::fs::read(&f).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(r) => r,
        None => {
            eprintln!("cannot read replay file {f}");
            return 2;
        }
    };
    let prop = find(props, &r.property);
    let o = run_one(prop, replay_tapes(&r), r.entropy, true);
    let full = args.iter().any(|a| a == "-v");
    if full {
        for l in &o.log {
            println!("{l}");
        }
    }
    println!("{}", o.sample);
    match &o.violation {
        Some(x) => {
            println!("[{}] {}", x.class, x.detail);
            println!("VIOLATION property={} replay={}", r.property, f);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

// ------------------------------------------------------------------ minimisation

/// Runs candidate tapes in a child process, so that crashes and hangs are results too.
struct AttemptChild {
    child: Child,
    rx: mpsc::Receiver<String>,
}

#[derive(Serialize, Deserialize)]
struct AttemptReq {
    prop: String,
    tapes: [Vec<u64>; 3],
    entropy: u64,
    verbose: bool,
}

fn attempt_server(props: &[Prop]) {
    limit_memory();
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { return };
        let Ok(q) = serde_json::from_str::<AttemptReq>(&line) else { return };
        let prop = find(props, &q.prop);
        let mut o = run_one(prop, Tapes::replay(q.tapes), q.entropy, q.verbose);
        if !q.verbose {
            o.log.clear();
        }
        println!("{}", serde_json::to_string(&o).expect("json"));
    }
}

impl AttemptChild {
    fn spawn() -> Self {
        let exe = std::env::current_exe().expect("exe");
        let mut child = Command::new(exe)
            .arg("attempt")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn attempt child");
        let out = child.stdout.take().expect("stdout");
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        Self { child, rx }
    }
    fn run(&mut self, q: &AttemptReq, limit: Duration) -> Result<Outcome, V> {
        let line = serde_json::to_string(q).expect("json");
        let w = self.child.stdin.as_mut().expect("stdin");
        let sent = writeln!(w, "{line}").and_then(|_| w.flush());
        let r = if sent.is_err() {
            Err(mpsc::RecvTimeoutError::Disconnected)
        } else {
            self.rx.recv_timeout(limit)
        };
        match r {
            Ok(l) => serde_json::from_str(&l).map_err(|e| V {
                class: "machinery".into(),
                detail: e.to_string(),
            }),
            Err(e) => {
                let _ = self.child.kill();
                let st = self.child.wait();
                *self = Self::spawn();
                Err(match e {
                    mpsc::RecvTimeoutError::Timeout => V {
                        class: "hang".into(),
                        detail: format!("no result within {} s", limit.as_secs()),
                    },
                    _ => crash_v(&format!("{st:?}")),
                })
            }
        }
    }
}

impl Drop for AttemptChild {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn crash_v(st: &str) -> V {
    V {
        class: "crash".into(),
        detail: format!("the process died: {st}"),
    }
}

const HANG_SECS: u64 = 60;

fn minimise(prop: &Prop, entropy: u64, tapes: [Vec<u64>; 3], class: &str, budget: Duration) -> ([Vec<u64>; 3], u64) {
    let t0 = Instant::now();
    let mut child = AttemptChild::spawn();
    let mut tries = 0u64;
    let limit = if class == "hang" { Duration::from_secs(10) } else { Duration::from_secs(20) };
    let mut test = |t: &[Vec<u64>; 3]| -> Option<[Vec<u64>; 3]> {
        if t0.elapsed() > budget {
            return None;
        }
        tries += 1;
        let q = AttemptReq {
            prop: prop.id.into(),
            tapes: t.clone(),
            entropy,
            verbose: false,
        };
        match child.run(&q, limit) {
            Ok(o) => o.violation.filter(|v| v.class == class).map(|_| {
                // cut what was never read
                let mut u = t.clone();
                for k in 0..3 {
                    let used = o.tapes[k].len();
                    u[k].truncate(used);
                }
                u
            }),
            Err(v) => (v.class == class).then(|| t.clone()),
        }
    };
    let mut best = tapes;
    // whole tapes to "simplest" first: no faults, then FIFO schedule
    for k in [2usize, 1] {
        let mut t = best.clone();
        t[k].clear();
        if let Some(u) = test(&t) {
            best = u;
        }
    }
    loop {
        let before = best.clone();
        for k in [1usize, 2, 0] {
            // truncate
            let mut cut = best[k].len() / 2;
            while cut > 0 {
                if best[k].len() >= cut {
                    let mut t = best.clone();
                    let n = t[k].len() - cut;
                    t[k].truncate(n);
                    if let Some(u) = test(&t) {
                        best = u;
                        continue;
                    }
                }
                cut /= 2;
            }
            // delete blocks, zero blocks
            let mut size = (best[k].len() / 2).clamp(1, 64);
            loop {
                let mut i = 0;
                while i < best[k].len() {
                    if t0.elapsed() > budget {
                        return (best, tries);
                    }
                    let hi = (i + size).min(best[k].len());
                    if best[k][i..hi].iter().any(|x| *x != 0) {
                        let mut t = best.clone();
                        for x in &mut t[k][i..hi] {
                            *x = 0;
                        }
                        if let Some(u) = test(&t) {
                            best = u;
                            i += size;
                            continue;
                        }
                    }
                    let hi = (i + size).min(best[k].len());
                    if hi > i {
                        let mut t = best.clone();
                        t[k].drain(i..hi);
                        if let Some(u) = test(&t) {
                            best = u;
                            continue;
                        }
                    }
                    i += size;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            // lower single values
            for i in 0..best[k].len() {
                if t0.elapsed() > budget {
                    return (best, tries);
                }
                if i >= best[k].len() {
                    break;
                }
                let mut x = best[k][i];
                while x > 0 {
                    let y = if x > 8 { x / 2 } else { x - 1 };
                    let mut t = best.clone();
                    t[k][i] = y;
                    match test(&t) {
                        Some(u) => {
                            best = u;
                            if i >= best[k].len() {
                                break;
                            }
                            x = best[k][i];
                        }
                        None => break,
                    }
                }
            }
        }
        if best == before || t0.elapsed() > budget {
            return (best, tries);
        }
    }
}

// ------------------------------------------------------------------ check

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

struct Known {
    class_prefix: String,
    text: String,
}

/// Lines "known: property=<id> class=<class> :: text". A violation whose class equals an entry is
/// the listed finding; anything else is a violation.
fn known_findings(id: &str) -> Vec<Known> {
    let p = verif_dir().join("known_findings.txt");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix(&format!("known: property={id} class="))?;
            let (c, t) = rest.split_once(" :: ")?;
            Some(Known {
                class_prefix: c.trim().to_string(),
                text: t.trim().to_string(),
            })
        })
        .collect()
}

fn check(props: &[Prop], args: &[String]) -> i32 {
    let prop = find(props, &arg(args, "--prop").unwrap_or_default());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
    let seed = argn(args, "--seed", seed);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = arg(args, "--tier").unwrap_or(tier);
    let thorough = tier == "thorough";
    let (runs, secs) = if thorough {
        (prop.thorough, prop.thorough_secs)
    } else {
        (prop.quick, prop.quick_secs)
    };
    let runs = argn(args, "--runs", runs);
    let secs = argn(args, "--secs", secs);
    let nworkers = argn(args, "--workers", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8)).min(runs).max(1);
    let t0 = Instant::now();
    let dir = verif_dir();
    let tmp = std::env::temp_dir().join(format!("vsim-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&tmp).expect("scratch directory");
    let exe = std::env::current_exe().expect("exe");

    // known findings are shown first, by directed reproduction through their replay files
    let known = known_findings(prop.id);

    enum Msg {
        Line(u64, String),
        Eof(u64),
    }
    let (tx, rx) = mpsc::channel();
    struct W {
        child: Child,
        last: Option<u64>,
        since: Instant,
        done: bool,
        out: PathBuf,
        start: u64,
    }
    let spawn = |k: u64, start: u64| -> W {
        let out = tmp.join(format!("w{k}-{start}.json"));
        let mut child = Command::new(&exe)
            .args(["worker", "--prop", prop.id, "--seed", &seed.to_string(), "--start", &start.to_string(), "--end", &runs.to_string(), "--stride", &nworkers.to_string(), "--secs", &secs.to_string(), "--out"])
            .arg(&out)
            .stdout(Stdio::piped())
            .stderr(if std::env::var("VSIM_STDERR").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("spawn worker");
        let so = child.stdout.take().expect("stdout");
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines().map_while(Result::ok) {
                if tx.send(Msg::Line(k, l)).is_err() {
                    return;
                }
            }
            let _ = tx.send(Msg::Eof(k));
        });
        W { child, last: None, since: Instant::now(), done: false, out, start }
    };
    let mut ws: Vec<W> = (0..nworkers).map(|k| spawn(k, k)).collect();
    let mut found: Vec<Found> = Vec::new();
    let mut stats = Stats::default();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut stop_at: Option<Instant> = None;
    let mut live = nworkers;
    while live > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(k, l)) => {
                let w = &mut ws[k as usize];
                w.since = Instant::now();
                if let Some(n) = l.strip_prefix("S ") {
                    w.last = n.parse().ok();
                } else if let Some(j) = l.strip_prefix("V ") {
                    if let Ok(f) = serde_json::from_str::<Found>(j) {
                        if known.iter().any(|x| x.class_prefix == f.v.class) {
                            *known_hits.entry(f.v.class.clone()).or_insert(0) += 1;
                        } else {
                            found.push(f);
                        }
                    }
                } else if l == "E" {
                    w.done = true;
                }
            }
            Ok(Msg::Eof(k)) => {
                let elapsed = t0.elapsed().as_secs();
                let w = &mut ws[k as usize];
                let st = w.child.wait();
                live -= 1;
                let mut restart = None;
                if w.done {
                    if let Some(s) = std::fs::read(&w.out).ok().and_then(|b| serde_json::from_slice::<Stats>(&b).ok()) {
                        stats.merge(s);
                    }
                    // stopped at a known finding: carry on behind it
                    if let Some(l) = w.last {
                        if found.is_empty() && l + nworkers < runs && elapsed < secs && !known_hits.is_empty() && w.start <= l {
                            restart = Some(l + nworkers);
                        }
                    }
                } else if stop_at.is_none() {
                    let i = w.last.unwrap_or(w.start);
                    found.push(Found { index: i, v: crash_v(&format!("{st:?}")), tapes: None });
                }
                if let Some(s) = restart {
                    ws[k as usize] = spawn(k, s);
                    live += 1;
                }
            }
            Err(_) => {}
        }
        for w in ws.iter_mut() {
            if !w.done && w.since.elapsed().as_secs() > HANG_SECS && stop_at.is_none() {
                if let Some(i) = w.last {
                    found.push(Found {
                        index: i,
                        v: V { class: "hang".into(), detail: format!("a single run did not finish within {HANG_SECS} s") },
                        tapes: None,
                    });
                    w.since = Instant::now();
                }
            }
        }
        if !found.is_empty() && stop_at.is_none() {
            stop_at = Some(Instant::now() + Duration::from_millis(1500));
        }
        if let Some(s) = stop_at {
            if Instant::now() > s {
                for w in ws.iter_mut() {
                    let _ = w.child.kill();
                }
                stop_at = Some(Instant::now() + Duration::from_secs(3600));
            }
        }
    }
    let search_secs = t0.elapsed().as_secs_f64();

    // determinism: the same seeds again in one other process give the same event digests
    let mut redo = (0u64, 0u64);
    if found.is_empty() {
        let first: BTreeMap<u64, u64> = stats.first_digests.iter().copied().collect();
        let out = Command::new(&exe)
            .args(["determinism", "--prop", prop.id, "--seed", &seed.to_string(), "--runs", &first.len().to_string()])
            .stderr(Stdio::null())
            .output();
        if let Ok(o) = out {
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                if let Some((i, d)) = l.split_once(' ') {
                    if let (Ok(i), Ok(d)) = (i.parse::<u64>(), d.parse::<u64>()) {
                        if let Some(x) = first.get(&i) {
                            redo.0 += 1;
                            if *x != d {
                                redo.1 += 1;
                            }
                        }
                    }
                }
            }
        }
    }

    // lowest index first, tapes preferred
    found.sort_by_key(|f| (f.tapes.is_none(), f.index));
    let mut code = 0;
    let mut replay_path = String::new();
    if let Some(f) = found.first() {
        code = 1;
        let rs = run_seed(seed, prop.id, f.index);
        let entropy = mix(rs, 9);
        let rdir = dir.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let mut child = AttemptChild::spawn();
        let mut from = vec![];
        let mut tapes = f.tapes.clone();
        let budget = Duration::from_secs(if thorough { 120 } else { 40 });
        if let Some(t) = &f.tapes {
            from = t.iter().map(|x| x.len()).collect();
            let (m, _) = minimise(prop, entropy, t.clone(), &f.v.class, budget);
            tapes = Some(m);
        }
        let mut detail = f.v.detail.clone();
        let mut sample = String::new();
        let mut trace = vec![];
        if let Some(t) = &tapes {
            let q = AttemptReq { prop: prop.id.into(), tapes: t.clone(), entropy, verbose: true };
            if let Ok(o) = child.run(&q, Duration::from_secs(HANG_SECS)) {
                if let Some(v) = o.violation {
                    detail = v.detail;
                }
                sample = o.sample;
                trace = o.log;
                trace.truncate(400);
            }
        }
        let r = Replay {
            property: prop.id.into(),
            class: f.v.class.clone(),
            detail: detail.clone(),
            seed,
            index: f.index,
            entropy,
            tapes,
            minimised_from: from,
            sample: sample.clone(),
            trace,
        };
        let name = format!("{}-{}-{}.json", prop.id, seed, f.index);
        let path = rdir.join(name);
        std::fs::write(&path, serde_json::to_vec_pretty(&r).expect("json")).expect("write replay");
        replay_path = path.display().to_string();
        println!("property {} is violated: [{}] {}", prop.id, f.v.class, detail);
        println!("case: {sample}");
        println!("seed={seed} run={} (VERIF_SEED={seed} reproduces the search; the replay file reproduces the run)", f.index);
        if f.v.class != "hang" {
            let st = Command::new(&exe).arg("replay").arg(&path).stdout(Stdio::null()).stderr(Stdio::null()).status();
            let ok = match st {
                Ok(s) => if f.v.class == "crash" { !s.success() } else { s.code() == Some(1) },
                Err(_) => false,
            };
            println!("replay in a fresh process: {}", if ok { "reproduced" } else { "NOT reproduced" });
        }
        println!("VIOLATION property={} replay={}", prop.id, replay_path);
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", prop.id, k.text);
    }

    let hours = search_secs / 3600.0;
    let ev = serde_json::json!({
        "property": prop.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": prop.level,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": found.len(),
        "coverage": {
            "evaluations": stats.runs,
            "distinct_nontrivial": stats.nontrivial,
            "rule": prop.rule,
            "samples": stats.samples.iter().take(4).collect::<Vec<_>>(),
            "runs_planned": runs,
            "runs_per_hour": (stats.runs as f64 / hours.max(1e-9)) as u64,
            "seeds_per_hour": (stats.runs as f64 / hours.max(1e-9)) as u64,
            "simulated_time_s": stats.sim_us as f64 / 1e6,
            "scheduler_steps": stats.steps,
            "recorded_events": stats.events,
            "faults_injected": stats.faults,
            "runs_with_faults": stats.fault_runs,
            "distinct_interleavings": stats.sigs.len(),
            "interleaving_measure": "distinct hashes of the sequence of scheduling decisions (task polled, I/O completion fired) of a run",
            "reached": stats.probes,
            "determinism_rerun": {"runs": redo.0, "digest_mismatches": redo.1},
            "real_components": prop.real,
            "stubbed_components": prop.stub,
            "workers": nworkers,
            "known_finding_hits": known_hits,
            "replay": replay_path,
        },
        "assumptions": prop.assumptions,
    });
    let edir = dir.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    write_atomic(&edir.join(format!("{}.json", prop.id)), &serde_json::to_vec_pretty(&ev).expect("json"));
    let _ = std::fs::remove_dir_all(&tmp);
    if code == 0 {
        println!(
            "property {} held on {} runs ({} distinct non-trivial, {} interleavings, {} faults, {:.1} s)",
            prop.id, stats.runs, stats.nontrivial, stats.sigs.len(), stats.faults.values().sum::<u64>(), search_secs
        );
        if redo.1 > 0 {
            eprintln!("warning: {} of {} re-executed runs had a different event digest", redo.1, redo.0);
        }
        if stats.runs == 0 {
            eprintln!("no run completed");
            return 2;
        }
    }
    code
}

fn write_atomic(p: &Path, b: &[u8]) {
    let t = p.with_extension("tmp");
    std::fs::write(&t, b).expect("write evidence");
    std::fs::rename(&t, p).expect("rename evidence");
}

fn determinism(props: &[Prop], args: &[String]) -> i32 {
    limit_memory();
    let prop = find(props, &arg(args, "--prop").unwrap_or_default());
    let seed = argn(args, "--seed", 1);
    let runs = argn(args, "--runs", 10);
    let mut order: Vec<u64> = (0..runs).collect();
    if args.iter().any(|a| a == "--reverse") {
        order.reverse();
    }
    for i in order {
        let rs = run_seed(seed, prop.id, i);
        let o = run_one(prop, Tapes::generate(rs), mix(rs, 9), true);
        println!("{i} {}", o.digest);
        if let Some(d) = arg(args, "--dump") {
            let _ = std::fs::write(format!("{d}/{i}"), o.log.join("\n"));
        }
    }
    0
}
