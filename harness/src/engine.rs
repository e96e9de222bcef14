//! Property-based testing engine.
//!
//! Every random decision of a generator is one number drawn from a `Src` (a choice tape). A case is
//! therefore fully described by its tape, a failing case is shrunk by shrinking the tape
//! (deleting, zeroing and lowering choices, as Hypothesis does), and a replay file is the tape.
//! Case i of a run is generated from hash(VERIF_SEED, property, i): a run is a pure function of
//! the code and the seed, whatever the number of worker threads.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- choice tape

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub struct Src {
    tape: Vec<u64>,
    replay: bool,
    rng: u64,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: Vec::new(), replay: false, rng: seed, rec: Vec::new() }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, replay: true, rng: 0, rec: Vec::new() }
    }
    /// A number in 0..n; 0 is the simplest choice and what a spent tape yields.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        // a generator that rejects and draws again must not go on for ever on a spent tape
        assert!(self.rec.len() < 4_000_000, "more than 4,000,000 choices in one case");
        let v = if self.replay {
            let i = self.rec.len();
            self.tape.get(i).copied().unwrap_or(0).min(n - 1)
        } else {
            self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
            let r = mix(self.rng);
            ((r as u128 * n as u128) >> 64) as u64
        };
        self.rec.push(v);
        v
    }
    pub fn n(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi, simplest lo
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.n(hi - lo + 1)
    }
    /// true with probability num/den; simplest false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len())]
    }
    /// index chosen with the given weights; simplest is the first
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        w.len() - 1
    }
    /// shuffles the first k places only
    pub fn shuffle_prefix<T>(&mut self, v: &mut [T], k: usize) {
        for i in 0..k.min(v.len()) {
            let j = i + self.n(v.len() - i);
            v.swap(i, j);
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in 0..v.len() {
            let j = i + self.n(v.len() - i);
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- case context

#[derive(Default)]
pub struct Ctx {
    /// human-readable rendering of the case
    pub desc: String,
    pub labels: Vec<&'static str>,
    pub evals: u64,
    pub nontrivial: bool,
    pub excluded: u64,
    pub maxima: Vec<(&'static str, u64)>,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn max(&mut self, k: &'static str, v: u64) {
        self.maxima.push((k, v));
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Ctx) -> Result<(), String>,
}

// ---------------------------------------------------------------- calling the code under test

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static USED: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// The longest call so far.
static SLOWEST_US: AtomicU64 = AtomicU64::new(0);

/// Runs the code under test; a panic in it becomes an Err.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_SUT.with(|c| c.replace(true));
    let lim = LIMIT.with(|l| l.replace(USED.with(|u| u.get()) + MEM_BUDGET));
    let slot = SLOT.with(|s| s.get());
    let outer = slot != usize::MAX && SLOTS[slot].sut_depth.fetch_add(1, SeqCst) == 0;
    if outer {
        SLOTS[slot].sut_seq.fetch_add(1, SeqCst);
    }
    let started = Instant::now();
    let r = catch_unwind(AssertUnwindSafe(f));
    SLOWEST_US.fetch_max(started.elapsed().as_micros() as u64, SeqCst);
    if slot != usize::MAX {
        SLOTS[slot].sut_depth.fetch_sub(1, SeqCst);
    }
    LIMIT.with(|l| l.set(lim));
    IN_SUT.with(|c| c.set(was));
    r.map_err(|_| format!("the code under test panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

/// Memory one call into the code under test may hold on to, far above the few megabytes the largest legitimate one takes.
const MEM_BUDGET: i64 = 1 << 30;
/// CPU seconds one call into the code under test may take; legitimate calls take up to about 2 s
/// (`slowest_call_ms` of the evidence).
const CPU_BUDGET_S: f64 = 60.0;

pub struct CountingAlloc;

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        charge(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = USED.try_with(|u| u.set(u.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        charge(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

fn charge(n: i64) {
    let over = USED
        .try_with(|u| {
            let v = u.get() + n;
            u.set(v);
            n > 0 && LIMIT.try_with(|l| v > l.get()).unwrap_or(false)
        })
        .unwrap_or(false);
    if over {
        LIMIT.with(|l| l.set(i64::MAX));
        let slot = SLOT.with(|s| s.get());
        runaway(slot, "the code under test did not return: it allocated more than 1 GiB in one call");
    }
}

// ---------------------------------------------------------------- worker slots and watchdog

#[allow(clippy::declare_interior_mutable_const)]
const SLOT_INIT: Slot = Slot { case: AtomicU64::new(u64::MAX), sut_depth: AtomicUsize::new(0), sut_seq: AtomicU64::new(0), thread: AtomicU64::new(0) };
struct Slot {
    case: AtomicU64,
    sut_depth: AtomicUsize,
    sut_seq: AtomicU64,
    thread: AtomicU64,
}
static SLOTS: [Slot; 64] = [SLOT_INIT; 64];
static DONE: AtomicBool = AtomicBool::new(false);
static REPORTING: AtomicBool = AtomicBool::new(false);

pub struct RunInfo {
    pub id: &'static str,
    pub seed: u64,
    pub tier: &'static str,
    pub rule: &'static str,
    pub started: Instant,
    pub out_dir: String,
}
static INFO: Mutex<Option<RunInfo>> = Mutex::new(None);
/// tape of the case being shrunk or replayed, when a runaway happens there
static CUR_TAPE: Mutex<Option<Vec<u64>>> = Mutex::new(None);

fn cpu_of(pthread: u64) -> f64 {
    unsafe {
        let mut clk: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(pthread as libc::pthread_t, &mut clk) != 0 {
            return 0.0;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clk, &mut ts) != 0 {
            return 0.0;
        }
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

/// Reports a call that never returns, and ends the process.
fn runaway(slot: usize, why: &str) -> ! {
    if REPORTING.swap(true, SeqCst) {
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
        }
    }
    let case = if slot == usize::MAX { u64::MAX } else { SLOTS[slot].case.load(SeqCst) };
    let g = INFO.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(i) = g.as_ref() {
        let tape = CUR_TAPE.try_lock().ok().and_then(|t| t.clone());
        let path = write_replay(i, case, tape.as_deref(), why, "(unshrunk: the call does not return; replay regenerates the case)");
        write_evidence(i, &Stats { violations: 1, evals: 1, cases: 1, ..Default::default() }, &[]);
        println!("{}", plain(why));
        println!("VIOLATION property={} replay={}", i.id, path);
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}

/// 1 + the slot whose thread ran out of stack inside the code under test.
static OVERFLOWED: AtomicUsize = AtomicUsize::new(0);

/// A fault inside the code under test (its stack is spent: endless recursion) stops the thread; the watchdog reports it.
extern "C" fn on_fault(sig: libc::c_int) {
    let slot = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
    if slot != usize::MAX && SLOTS[slot].sut_depth.load(SeqCst) > 0 {
        OVERFLOWED.store(slot + 1, SeqCst);
        loop {
            unsafe { libc::pause() };
        }
    }
    unsafe {
        libc::signal(sig, libc::SIG_DFL);
        libc::raise(sig);
    }
}

fn watchdog() {
    let mut seen: Vec<(u64, f64)> = vec![(0, 0.0); 64];
    while !DONE.load(SeqCst) {
        std::thread::sleep(std::time::Duration::from_millis(250));
        let o = OVERFLOWED.load(SeqCst);
        if o > 0 {
            runaway(o - 1, "the code under test did not return: it used up 512 MiB of stack, or touched memory that is not there");
        }
        for (i, s) in SLOTS.iter().enumerate() {
            let th = s.thread.load(SeqCst);
            if th == 0 || s.sut_depth.load(SeqCst) == 0 {
                continue;
            }
            let seq = s.sut_seq.load(SeqCst);
            let cpu = cpu_of(th);
            if seen[i].0 != seq {
                seen[i] = (seq, cpu);
            } else if cpu - seen[i].1 > CPU_BUDGET_S && s.sut_seq.load(SeqCst) == seq {
                runaway(i, "the code under test did not return within its CPU budget");
            }
        }
    }
}

// ---------------------------------------------------------------- death of the process in the code under test

/// Bytes this thread holds.
pub fn used() -> i64 {
    USED.with(|u| u.get())
}

/// Set while a case is only generated: a property that may end the process (a sanitizer's report) draws all its
/// choices first and returns when this is set.
pub static GEN_ONLY: AtomicBool = AtomicBool::new(false);
/// File being replayed.
static REPLAYED: Mutex<Option<String>> = Mutex::new(None);

/// To be called where the process is about to end because of what the code under test did: the run goes on
/// as a new process that shrinks the case, trying each candidate in a child process.
pub fn dying() {
    if REPORTING.swap(true, SeqCst) {
        return;
    }
    let g = INFO.lock().unwrap_or_else(|e| e.into_inner());
    let Some(i) = g.as_ref() else { return };
    if let Some(f) = REPLAYED.lock().unwrap_or_else(|e| e.into_inner()).as_ref() {
        println!("VIOLATION property={} replay={}", i.id, f);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(1) }
    }
    let slot = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
    let case = if slot == usize::MAX { u64::MAX } else { SLOTS[slot].case.load(SeqCst) };
    use std::os::unix::process::CommandExt;
    let mut c = std::process::Command::new("/proc/self/exe");
    c.args([i.id, "--seed", &i.seed.to_string(), "--shrink-case", &case.to_string()]).arg(if i.tier == "thorough" { "--thorough" } else { "--quick" });
    let _ = c.exec();
}

/// Shrinks a case that ends the process.
pub fn shrink_case(p: &Prop, o: &Options, case: u64) -> i32 {
    let started = Instant::now();
    *INFO.lock().unwrap() = Some(RunInfo { id: p.id, seed: o.seed, tier: if o.thorough { "thorough" } else { "quick" }, rule: p.rule, started, out_dir: o.out_dir.clone() });
    GEN_ONLY.store(true, SeqCst);
    let (tape, msg, desc, ok) = on_big_stack(63, || {
        let mut src = Src::random(case_seed(p.id, o.seed, case));
        let _ = run_case(p, &mut src, &mut Ctx::default());
        let tape = src.rec;
        let file = format!("{}/work/{}-candidate-{}.json", o.out_dir, p.id, std::process::id());
        let _ = std::fs::create_dir_all(format!("{}/work", o.out_dir));
        let exec = |src: &mut Src, ctx: &mut Ctx| {
            let _ = run_case(p, src, ctx);
            let t = src.rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            std::fs::write(&file, format!("{{\n\"tape\": [{}]\n}}\n", t)).unwrap();
            let r = std::process::Command::new("/proc/self/exe").args([p.id, "--replay", &file]).output().unwrap();
            if r.status.code() == Some(1) {
                let e = String::from_utf8_lossy(&r.stderr);
                let mut m: Vec<&str> = e.lines().filter(|l| l.contains("SUMMARY:") || l.contains("ERROR:")).collect();
                if m.is_empty() {
                    m.push("the code under test ended the process");
                }
                CaseResult::Fail(m.join("\n"))
            } else {
                CaseResult::Pass
            }
        };
        // a first time unshrunk, to tell whether the case by itself shows the failure
        let ok = matches!(exec(&mut Src::replay(tape.clone()), &mut Ctx::default()), CaseResult::Fail(_));
        let r = if ok { shrink(tape, String::new(), &exec) } else { (tape, "the code under test ended the process (see above)".to_string(), String::new()) };
        let _ = std::fs::remove_file(&file);
        (r.0, r.1, r.2, ok)
    });
    let g = INFO.lock().unwrap();
    let i = g.as_ref().unwrap();
    let path = write_replay(i, case, if ok { Some(&tape) } else { None }, &msg, &desc);
    write_evidence(i, &Stats { violations: 1, evals: 1, cases: case.saturating_add(1), ..Default::default() }, p.assumptions);
    println!("case {} (shrunk to {} choices):\n{}\n{}", case, tape.len(), plain(&desc), plain(&msg));
    println!("VIOLATION property={} replay={}", p.id, path);
    DONE.store(true, SeqCst);
    1
}

// ---------------------------------------------------------------- statistics and files

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub samples: Vec<(u64, String)>,
    pub excluded: u64,
    pub violations: u64,
    pub extra: Vec<(String, String)>,
}

impl Stats {
    pub fn absorb(&mut self, c: &Ctx, index: u64) {
        self.cases += 1;
        self.evals += c.evals.max(1);
        self.excluded += c.excluded;
        for l in &c.labels {
            *self.labels.entry(l).or_default() += 1;
        }
        for (k, v) in &c.maxima {
            let e = self.maxima.entry(k).or_default();
            *e = (*e).max(*v);
        }
        if c.nontrivial && self.nontrivial.insert(hash_str(&c.desc)) && c.desc.len() < 1500 {
            self.samples.push((index, c.desc.clone()));
            if self.samples.len() > 24 {
                self.samples.sort_by_key(|s| s.0);
                self.samples.truncate(6);
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.evals += o.evals;
        self.excluded += o.excluded;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_default();
            *e = (*e).max(v);
        }
        self.samples.extend(o.samples);
        self.samples.sort_by_key(|s| s.0);
        self.samples.truncate(6);
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_replay(i: &RunInfo, case: u64, tape: Option<&[u64]>, msg: &str, desc: &str) -> String {
    let dir = format!("{}/replays", i.out_dir);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.json", dir, i.id);
    let tape_s = match tape {
        Some(t) => format!("[{}]", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
        None => "null".to_string(),
    };
    let body = format!(
        "{{\n \"property\": {},\n \"seed\": {},\n \"case\": {},\n \"tape\": {},\n \"numbers\": {:?},\n \"words\": {:?},\n \"message\": {},\n \"input\": {}\n}}\n",
        jstr(i.id),
        i.seed,
        if case == u64::MAX { "null".to_string() } else { case.to_string() },
        tape_s,
        crate::dict::dict().numbers,
        crate::dict::dict().words,
        jstr(msg),
        jstr(desc)
    );
    let _ = std::fs::write(&path, body);
    path
}

pub fn write_evidence(i: &RunInfo, s: &Stats, assumptions: &[&str]) {
    let dir = format!("{}/evidence", i.out_dir);
    let _ = std::fs::create_dir_all(&dir);
    let labels = s.labels.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ");
    let maxima = s.maxima.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ");
    let samples = s.samples.iter().map(|(n, d)| format!("{{\"case\": {}, \"input\": {}}}", n, jstr(d))).collect::<Vec<_>>().join(",\n   ");
    let assumptions = assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", ");
    let mut extra = String::new();
    let _ = write!(extra, ",\n  \"slowest_call_ms\": {}", SLOWEST_US.load(SeqCst) / 1000);
    for (k, v) in &s.extra {
        let _ = write!(extra, ",\n  {}: {}", jstr(k), v);
    }
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"cases_generated\": {},\n  \"distinct_nontrivial\": {},\n  \"excluded_known_finding_shapes\": {},\n  \"rule\": {},\n  \"classes\": {{{}}},\n  \"largest\": {{{}}},\n  \"samples\": [{}]{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        jstr(i.id),
        jstr(i.tier),
        i.seed,
        s.evals,
        s.cases,
        s.nontrivial.len(),
        s.excluded,
        jstr(i.rule),
        labels,
        maxima,
        samples,
        extra,
        assumptions,
        i.started.elapsed().as_secs_f64(),
        s.violations
    );
    let _ = std::fs::write(format!("{}/{}.json", dir, i.id), body);
}

// ---------------------------------------------------------------- running

enum CaseResult {
    Pass,
    Fail(String),
    HarnessPanic(String),
}

/// Printable whatever the case contains.
pub fn plain(s: &str) -> String {
    s.chars().map(|c| if c == '\n' || !c.is_control() { c.to_string() } else { c.escape_default().to_string() }).collect()
}

fn run_case(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    IN_SUT.with(|c| c.set(false));
    match catch_unwind(AssertUnwindSafe(|| (p.run)(src, ctx))) {
        Ok(Ok(())) => CaseResult::Pass,
        Ok(Err(m)) => CaseResult::Fail(m),
        Err(_) => CaseResult::HarnessPanic(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

fn shrink(tape: Vec<u64>, msg: String, exec: &dyn Fn(&mut Src, &mut Ctx) -> CaseResult) -> (Vec<u64>, String, String) {
    let mut best = tape;
    let mut best_msg = msg;
    let mut best_desc = String::new();
    let mut budget = 4000usize;
    let started = Instant::now();
    let attempt = |t: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String, best_desc: &mut String, budget: &mut usize| -> bool {
        if *budget == 0 || started.elapsed().as_secs() > 60 {
            *budget = 0;
            return false;
        }
        *budget -= 1;
        *CUR_TAPE.lock().unwrap() = Some(t.clone());
        let mut src = Src::replay(t);
        let mut ctx = Ctx::default();
        if let CaseResult::Fail(m) = exec(&mut src, &mut ctx) {
            let mut rec = src.rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            if rec.len() < best.len() || (rec.len() == best.len() && rec < *best) || best_desc.is_empty() {
                *best = rec;
                *best_msg = m;
                *best_desc = ctx.desc;
                return true;
            }
        }
        false
    };
    let b = best.clone();
    attempt(b, &mut best, &mut best_msg, &mut best_desc, &mut budget);
    loop {
        let before = best.clone();
        // delete chunks, largest first
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut t = best.clone();
                let e = (i + size).min(t.len());
                t.drain(i..e);
                if !attempt(t, &mut best, &mut best_msg, &mut best_desc, &mut budget) {
                    i += size;
                }
            }
            if size == 1 || budget == 0 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = 8usize;
        loop {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..e].iter_mut().for_each(|x| *x = 0);
                    attempt(t, &mut best, &mut best_msg, &mut best_desc, &mut budget);
                }
                i += size;
            }
            if size == 1 || budget == 0 {
                break;
            }
            size /= 2;
        }
        // lower single choices
        let mut i = 0;
        while i < best.len() && budget > 0 {
            let mut lo = 0u64;
            let mut hi = best[i];
            while lo < hi && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                if attempt(t, &mut best, &mut best_msg, &mut best_desc, &mut budget) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || budget == 0 {
            break;
        }
    }
    *CUR_TAPE.lock().unwrap() = None;
    (best, best_msg, best_desc)
}

fn on_big_stack<T: Send>(slot: usize, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn_scoped(s, move || {
                SLOT.with(|c| c.set(slot));
                SLOTS[slot].thread.store(unsafe { libc::pthread_self() } as u64, SeqCst);
                let r = f();
                SLOTS[slot].thread.store(0, SeqCst);
                r
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| std::process::exit(3))
    })
}

pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{}", info);
        LAST_PANIC.with(|p| *p.borrow_mut() = m.clone());
        if !IN_SUT.with(|c| c.get()) {
            eprintln!("harness panic: {}", m);
        }
    }));
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_fault as extern "C" fn(libc::c_int) as usize;
        a.sa_flags = libc::SA_ONSTACK;
        libc::sigaction(libc::SIGSEGV, &a, std::ptr::null_mut());
        libc::sigaction(libc::SIGBUS, &a, std::ptr::null_mut());
    }
    std::thread::spawn(watchdog);
}

/// A quick run that is this slow (it takes under a minute) stops generating and reports what it covered.
const QUICK_WALL_S: u64 = 600;

pub struct Options {
    pub seed: u64,
    pub thorough: bool,
    pub cases: Option<u64>,
    pub out_dir: String,
}

/// Runs a property; the process exit code.
pub fn run(p: &Prop, o: &Options, known: fn(&str) -> (Vec<String>, Vec<(String, String)>)) -> i32 {
    let total = o.cases.unwrap_or(if o.thorough { p.thorough } else { p.quick });
    let started = Instant::now();
    *INFO.lock().unwrap() = Some(RunInfo { id: p.id, seed: o.seed, tier: if o.thorough { "thorough" } else { "quick" }, rule: p.rule, started, out_dir: o.out_dir.clone() });
    let next = AtomicU64::new(0);
    let first_fail = AtomicU64::new(u64::MAX);
    let fail: Mutex<Option<(u64, Vec<u64>, String)>> = Mutex::new(None);
    let harness_bug: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let stats = Mutex::new(Stats::default());
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    std::thread::scope(|s| {
        for slot in 0..threads {
            let (next, first_fail, fail, harness_bug, stats) = (&next, &first_fail, &fail, &harness_bug, &stats);
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, move || {
                    SLOT.with(|c| c.set(slot));
                    SLOTS[slot].thread.store(unsafe { libc::pthread_self() } as u64, SeqCst);
                    let mut local = Stats::default();
                    loop {
                        if !o.thorough && started.elapsed().as_secs() > QUICK_WALL_S {
                            break;
                        }
                        let i = next.fetch_add(1, SeqCst);
                        if i >= total || i > first_fail.load(SeqCst) || harness_bug.lock().unwrap().is_some() {
                            break;
                        }
                        SLOTS[slot].case.store(i, SeqCst);
                        let mut src = Src::random(case_seed(p.id, o.seed, i));
                        let mut ctx = Ctx::default();
                        match run_case(p, &mut src, &mut ctx) {
                            CaseResult::Pass => {}
                            CaseResult::Fail(m) => {
                                first_fail.fetch_min(i, SeqCst);
                                let mut f = fail.lock().unwrap();
                                if f.as_ref().map_or(true, |f| f.0 > i) {
                                    *f = Some((i, src.rec, m));
                                }
                            }
                            CaseResult::HarnessPanic(m) => {
                                *harness_bug.lock().unwrap() = Some((i, m));
                                break;
                            }
                        }
                        local.absorb(&ctx, i);
                    }
                    SLOTS[slot].case.store(u64::MAX, SeqCst);
                    SLOTS[slot].thread.store(0, SeqCst);
                    stats.lock().unwrap().merge(local);
                })
                .unwrap();
        }
    });
    let mut stats = stats.into_inner().unwrap();
    let fail = fail.into_inner().unwrap();
    if let (Some((i, m)), None) = (harness_bug.into_inner().unwrap(), &fail) {
        eprintln!("check error: case {} of {}: {}", i, p.id, m);
        return 3;
    }
    let mut code = 0;
    if let Some((i, tape, m)) = fail {
        stats.violations = 1;
        SLOTS[63].case.store(i, SeqCst);
        let (tape, msg, desc) = on_big_stack(63, || shrink(tape, m, &|s, c| run_case(p, s, c)));
        let g = INFO.lock().unwrap();
        let path = write_replay(g.as_ref().unwrap(), i, Some(&tape), &msg, &desc);
        println!("case {} (shrunk to {} choices):\n{}\n{}", i, tape.len(), plain(&desc), plain(&msg));
        println!("VIOLATION property={} replay={}", p.id, path);
        code = 1;
    }
    let (known, extra) = if code == 0 { on_big_stack(63, || known(p.id)) } else { (vec![], vec![]) };
    stats.extra = extra;
    for k in known {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    {
        let g = INFO.lock().unwrap();
        write_evidence(g.as_ref().unwrap(), &stats, p.assumptions);
    }
    println!(
        "{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s",
        p.id,
        stats.cases,
        stats.evals,
        stats.nontrivial.len(),
        started.elapsed().as_secs_f64()
    );
    DONE.store(true, SeqCst);
    code
}

/// The seed of case i of a run.
pub fn case_seed(id: &str, seed: u64, i: u64) -> u64 {
    mix(mix(seed ^ hash_str(id)).wrapping_add(i.wrapping_mul(0xD1342543DE82EF95)))
}

/// The case described by a replay file.
pub fn read_replay(id: &str, file: &str) -> Src {
    let text = std::fs::read_to_string(file).expect("replay file");
    let field = |k: &str| -> String {
        let at = text.find(&format!("\"{}\":", k)).expect("field") + k.len() + 3;
        let rest = text[at..].trim_start();
        if let Some(r) = rest.strip_prefix('[') {
            r[..r.find(']').unwrap()].to_string()
        } else {
            rest[..rest.find(|c| c == ',' || c == '\n').unwrap()].to_string()
        }
    };
    if text.contains("\"numbers\":") {
        let list = |k: &str| field(k).split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect::<Vec<_>>();
        crate::dict::preset(list("numbers").iter().filter_map(|x| x.parse().ok()).collect(), list("words").iter().map(|x| x.trim_matches('"').to_string()).collect());
    }
    let tape = field("tape");
    if tape == "null" {
        Src::random(case_seed(id, field("seed").parse().unwrap(), field("case").parse().unwrap()))
    } else {
        Src::replay(tape.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect())
    }
}

/// Replays a file written by a failing run.
pub fn replay(p: &Prop, o: &Options, file: &str) -> i32 {
    let mut src = read_replay(p.id, file);
    let started = Instant::now();
    *INFO.lock().unwrap() = Some(RunInfo { id: p.id, seed: o.seed, tier: "quick", rule: p.rule, started, out_dir: "/tmp/vh-replay".into() });
    *REPLAYED.lock().unwrap() = Some(file.to_string());
    let (r, desc) = on_big_stack(63, || {
        let mut ctx = Ctx::default();
        let r = run_case(p, &mut src, &mut ctx);
        (r, ctx.desc)
    });
    println!("{}", plain(&desc));
    match r {
        CaseResult::Pass => {
            println!("replay: property {} holds on this case", p.id);
            0
        }
        CaseResult::Fail(m) => {
            println!("{}\nVIOLATION property={} replay={}", plain(&m), p.id, file);
            1
        }
        CaseResult::HarnessPanic(m) => {
            eprintln!("check error: {}", m);
            3
        }
    }
}
