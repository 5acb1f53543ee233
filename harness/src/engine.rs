//! Bounded exhaustive exploration of the real implementation.
//!
//! A check is (1) generators, each of which enumerates a finite family of cases completely, and
//! (2) `judge`, which executes the real library on one case and compares it with the reference
//! model. Every case is a byte string, so a violation is replayed by judging that string again.
//!
//! The exploration runs in a child process. Each worker keeps the case it is working on in a
//! shared file mapping, so that when the implementation aborts, overflows its stack or hangs, the
//! parent knows the case, and reports it only if it kills a fresh process again.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::io::Write as _;
use std::os::fd::AsRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0 = hash_bytes(self.0, bytes);
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

pub fn hash_bytes(seed: u64, bytes: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    for c in bytes.chunks(8) {
        let mut v = 0u64;
        for b in c {
            v = v << 8 | u64::from(*b);
        }
        h = (h ^ v ^ ((c.len() as u64) << 59)).wrapping_mul(0x2545_F491_4F6C_DD1D).rotate_left(29);
    }
    h ^ (h >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 {
    (a.rotate_left(25) ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_mul(0xD6E8_FEB8_6659_FD93)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        if self == Tier::Quick {
            quick
        } else {
            thorough
        }
    }
}

/// A part of a generator: enumerates its cases into the sink.
pub type Task = Box<dyn Fn(&mut dyn FnMut(&[u8])) + Send + Sync>;

/// A named, completely enumerated family of cases.
pub struct Family {
    pub name: String,
    pub tasks: Vec<Task>,
}

pub struct Finding {
    pub key: String,
    pub msg: String,
    pub case: Vec<u8>,
}

/// Per-worker state handed to `judge`.
pub struct W {
    /// distinct model states reached / distinct (state, input) edges taken
    pub states: IdSet,
    pub edges: IdSet,
    /// implementation executions compared with the model
    pub traces: u64,
    /// distinct non-trivial cases (fault enumeration)
    pub nontrivial: IdSet,
    pub evals: u64,
    pub found: Vec<(String, String)>,
    pub notes: BTreeMap<String, u64>,
    pub tier: Tier,
}

impl W {
    fn new(tier: Tier) -> Self {
        W {
            states: IdSet::default(),
            edges: IdSet::default(),
            traces: 0,
            nontrivial: IdSet::default(),
            evals: 0,
            found: Vec::new(),
            notes: BTreeMap::new(),
            tier,
        }
    }
    pub fn state(&mut self, s: u64) {
        self.states.insert(s);
    }
    pub fn edge(&mut self, from: u64, label: u64) {
        self.edges.insert(mix(from, label));
    }
    /// Reports that the property fails for the current case. `key` classifies the failure; a
    /// key listed in KNOWN_FINDINGS.txt is a recorded finding, any other is a violation.
    pub fn fail(&mut self, key: &str, msg: impl Into<String>) {
        if self.found.len() < 8 && !self.found.iter().any(|(k, _)| k == key) {
            self.found.push((key.to_string(), msg.into()));
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) {
        if !ok {
            self.fail(key, msg());
        }
    }
    pub fn note(&mut self, what: &str, n: u64) {
        *self.notes.entry(what.to_string()).or_insert(0) += n;
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Level {
    ModelChecking,
    FaultEnumeration,
}

pub struct Check {
    pub id: &'static str,
    pub level: Level,
    /// What states and transitions (or evaluations) are for this check.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: fn(Tier) -> Vec<Family>,
    pub judge: fn(&[u8], &mut W),
    /// worker stack in MiB; 0 = default (256)
    pub stack_mb: usize,
    /// How a case is written in evidence and messages.
    pub show: fn(&[u8]) -> String,
}

pub fn show_bytes(case: &[u8]) -> String {
    let mut s = String::new();
    for b in case.iter().take(160) {
        s.extend(std::ascii::escape_default(*b).map(char::from));
    }
    if case.len() > 160 {
        s.push_str(&format!("...({} bytes)", case.len()));
    }
    s
}

thread_local! {
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}

const SLOT_BYTES: usize = 48 << 20;
const PROT_RW: i32 = 3;
const MAP_SHARED: i32 = 1;
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn malloc_trim(pad: usize) -> i32;
}

/// Current case of a worker, readable after the process died.
struct Slot {
    ptr: *mut u8,
    seq: AtomicU64,
}
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}
impl Slot {
    fn open(path: &Path) -> Slot {
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)
            .expect("slot file");
        f.set_len(SLOT_BYTES as u64).expect("slot size");
        let ptr = unsafe {
            mmap(std::ptr::null_mut(), SLOT_BYTES, PROT_RW, MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(ptr as isize != -1, "mmap failed");
        Slot { ptr, seq: AtomicU64::new(0) }
    }
    fn set(&self, case: &[u8]) {
        let n = case.len().min(SLOT_BYTES - 16);
        unsafe {
            std::ptr::copy_nonoverlapping(case.as_ptr(), self.ptr.add(16), n);
            (self.ptr as *mut u64).write_volatile(n as u64 + 1);
        }
        self.seq.fetch_add(1, Ordering::Relaxed);
    }
    fn clear(&self) {
        unsafe { (self.ptr as *mut u64).write_volatile(0) };
        self.seq.fetch_add(1, Ordering::Relaxed);
    }
}
fn read_slot(path: &Path) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut f = std::fs::File::open(path).ok()?;
    let mut head = [0u8; 16];
    f.read_exact(&mut head).ok()?;
    let n = u64::from_ne_bytes(head[..8].try_into().unwrap());
    if n == 0 {
        return None;
    }
    let mut v = vec![0; n as usize - 1];
    f.read_exact(&mut v).ok()?;
    Some(v)
}

fn root_dir() -> PathBuf {
    std::env::var_os("JJMC_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}
fn out_dir(id: &str) -> PathBuf {
    root_dir().join("out").join(id)
}

fn known_keys(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("known: ") else { continue };
        let Some(rest) = rest.strip_prefix("property=") else { continue };
        let Some((p, rest)) = rest.split_once(' ') else { continue };
        let Some(rest) = rest.strip_prefix("key=") else { continue };
        let Some((k, what)) = rest.split_once(' ') else { continue };
        if p == id {
            v.push((k.to_string(), what.to_string()));
        }
    }
    v
}

fn judge_one(check: &Check, case: &[u8], w: &mut W) {
    w.found.clear();
    let r = catch_unwind(AssertUnwindSafe(|| (check.judge)(case, w)));
    if let Err(p) = r {
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = PANIC_AT.with(|l| l.borrow().clone());
        w.fail("panic", format!("panicked at {at}: {msg}"));
    }
}

fn write_replay(id: &str, n: usize, f: &Finding, show: &str) -> PathBuf {
    let dir = out_dir(id);
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("violation-{n}.case"));
    std::fs::write(&path, &f.case).expect("write replay");
    let _ = std::fs::write(
        dir.join(format!("violation-{n}.txt")),
        format!("property {id}\nkey {}\n{}\ncase {show}\nreplay: ./check.sh {id} --replay {}\n", f.key, f.msg, path.display()),
    );
    path
}

pub fn main(check: Check) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_AT.with(|l| *l.borrow_mut() = at);
    }));
    let args: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    if tier == Tier::Thorough {
        STALL.fetch_max(120, Ordering::Relaxed);
    }
    match args.get(1).map(String::as_str) {
        Some("--replay") => std::process::exit(replay(&check, tier, Path::new(&args[2]))),
        Some("--child") => std::process::exit(child(&check, tier)),
        Some("--count") => {
            for f in (check.families)(tier) {
                let mut n = 0u64;
                for t in &f.tasks {
                    t(&mut |_| n += 1);
                }
                println!("{:<40} tasks {:>6} cases {n}", f.name, f.tasks.len());
            }
            std::process::exit(0)
        }
        _ => {}
    }
    std::process::exit(parent(&check, tier))
}

/// Judges one case in this process. Exit 1 if it violates the property.
fn replay(check: &Check, tier: Tier, path: &Path) -> i32 {
    let case = std::fs::read(path).expect("replay file");
    let known = known_keys(check.id);
    let stack = if check.stack_mb == 0 { 256 } else { check.stack_mb };
    // Ends this process if the case does not terminate.
    std::thread::spawn(|| {
        let limit = STALL.load(Ordering::Relaxed).max(60);
        std::thread::sleep(Duration::from_secs(limit));
        eprintln!("did not terminate within {limit} s");
        std::process::exit(77);
    });
    let found = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(stack << 20)
            .spawn_scoped(s, || {
                let mut w = W::new(tier);
                judge_one(check, &case, &mut w);
                w.found
            })
            .expect("spawn")
            .join()
            .expect("judge")
    });
    let mut rc = 0;
    for (key, msg) in found {
        if known.iter().any(|(k, _)| *k == key) {
            println!("known finding {key}: {msg}");
        } else {
            println!("fails {key}: {msg}\n  case: {}", (check.show)(&case));
            rc = 1;
        }
    }
    if rc == 0 {
        println!("holds for {}", (check.show)(&case));
    }
    rc
}

fn parent(check: &Check, tier: Tier) -> i32 {
    let start = Instant::now();
    let dir = out_dir(check.id);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("out dir");
    let ev = root_dir().join("evidence").join(format!("{}.json", check.id));
    let _ = std::fs::create_dir_all(ev.parent().unwrap());
    let _ = std::fs::remove_file(&ev);
    let exe = std::env::current_exe().expect("exe");
    let status = std::process::Command::new(&exe).arg("--child").status().expect("child");
    let code = status.code();
    let mut rc = 2;
    match code {
        Some(c @ (0 | 1)) => rc = c,
        Some(2) => {}
        _ => {
            // The exploration was killed by the implementation (abort, stack overflow, hang).
            eprintln!("{}: exploration ended with {status}; replaying the cases in flight", check.id);
            let mut n = 0;
            for i in 0..64 {
                let Some(case) = read_slot(&dir.join(format!("slot-{i}"))) else { continue };
                let f = Finding { key: "crash".into(), msg: String::new(), case };
                let path = write_replay(check.id, 900 + i, &f, &(check.show)(&f.case));
                let out = std::process::Command::new(&exe)
                    .arg("--replay")
                    .arg(&path)
                    .output()
                    .expect("replay");
                if out.status.code() == Some(0) {
                    let _ = std::fs::remove_file(&path);
                    continue;
                }
                n += 1;
                println!(
                    "the implementation kills or hangs its process ({}) on {}",
                    out.status,
                    (check.show)(&f.case)
                );
                println!("VIOLATION property={} replay={}", check.id, path.display());
            }
            if n > 0 {
                rc = 1;
                let mut w = W::new(tier);
                w.traces = n;
                w.evals = n;
                write_evidence(check, tier, &w, &[], &[], start.elapsed(), n, false);
            }
        }
    }
    for i in 0..64 {
        let _ = std::fs::remove_file(dir.join(format!("slot-{i}")));
    }
    rc
}

/// Seconds that a case may take (thorough: 120).
pub static STALL: AtomicU64 = AtomicU64::new(30);

struct Shared<'a> {
    families: &'a [Family],
    order: Vec<(usize, usize)>,
    next: AtomicUsize,
    stop: AtomicBool,
    found: Mutex<Vec<Finding>>,
    known: Vec<(String, String)>,
    known_hits: Mutex<BTreeMap<String, (u64, Vec<u8>)>>,
    samples: Mutex<Vec<String>>,
    counts: Vec<AtomicU64>,
}

fn child(check: &Check, tier: Tier) -> i32 {
    let start = Instant::now();
    let _ = unsafe { malloc_trim(0) };
    let dir = out_dir(check.id);
    let _ = std::fs::create_dir_all(&dir);
    let mut families = (check.families)(tier);
    // For profiling only: one family by name.
    if let Ok(only) = std::env::var("JJMC_ONLY") {
        families.retain(|f| f.name.contains(&only));
    }
    let order: Vec<(usize, usize)> = families
        .iter()
        .enumerate()
        .flat_map(|(f, fam)| (0..fam.tasks.len()).map(move |t| (f, t)))
        .collect();
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).min(32);
    let sh = Shared {
        counts: families.iter().map(|_| AtomicU64::new(0)).collect(),
        families: &families,
        order,
        next: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        found: Mutex::new(Vec::new()),
        known: known_keys(check.id),
        known_hits: Mutex::new(BTreeMap::new()),
        samples: Mutex::new(Vec::new()),
    };
    let slots: Vec<Slot> = (0..workers).map(|i| Slot::open(&dir.join(format!("slot-{i}")))).collect();
    let done = AtomicBool::new(false);
    let stack = if check.stack_mb == 0 { 256 } else { check.stack_mb };
    let mut total = W::new(tier);
    std::thread::scope(|s| {
        let (sh, done, slots) = (&sh, &done, &slots);
        // Watchdog: a case that makes no progress for 30 s (`STALL`) is taken to the parent.
        s.spawn(move || {
            let mut last = vec![(0u64, Instant::now()); slots.len()];
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                for (i, sl) in slots.iter().enumerate() {
                    let q = sl.seq.load(Ordering::Relaxed);
                    if q != last[i].0 {
                        last[i] = (q, Instant::now());
                    } else if q != 0 && last[i].1.elapsed() > Duration::from_secs(STALL.load(Ordering::Relaxed)) {
                        let idle = unsafe { (sl.ptr as *const u64).read_volatile() } == 0;
                        if !idle {
                            // Keep only the stuck case for the parent.
                            for (j, o) in slots.iter().enumerate() {
                                if j != i {
                                    unsafe { (o.ptr as *mut u64).write_volatile(0) };
                                }
                            }
                            eprintln!("worker {i} made no progress for {} s", STALL.load(Ordering::Relaxed));
                            std::process::exit(70);
                        }
                    }
                }
            }
        });
        let hs: Vec<_> = slots
            .iter()
            .map(|slot| {
                std::thread::Builder::new()
                    .stack_size(stack << 20)
                    .spawn_scoped(s, move || worker(check, tier, sh, slot))
                    .expect("spawn worker")
            })
            .collect();
        for h in hs {
            let w = h.join().expect("worker");
            total.states.extend(w.states);
            total.edges.extend(w.edges);
            total.nontrivial.extend(w.nontrivial);
            total.traces += w.traces;
            total.evals += w.evals;
            for (k, v) in w.notes {
                *total.notes.entry(k).or_insert(0) += v;
            }
        }
        done.store(true, Ordering::Relaxed);
    });
    let stopped = sh.stop.load(Ordering::Relaxed);
    let mut found = sh.found.into_inner().unwrap();
    // One report per key: the shortest case.
    found.sort_by(|a, b| (&a.key, a.case.len(), &a.case).cmp(&(&b.key, b.case.len(), &b.case)));
    found.dedup_by(|b, a| a.key == b.key);
    for (n, f) in found.iter().enumerate() {
        let show = (check.show)(&f.case);
        let path = write_replay(check.id, n, f, &show);
        println!("{} [{}] {}\n  case: {show}", check.id, f.key, f.msg);
        println!("VIOLATION property={} replay={}", check.id, path.display());
    }
    for (k, (n, case)) in sh.known_hits.into_inner().unwrap() {
        let what = sh.known.iter().find(|(kk, _)| *kk == k).map_or("", |(_, w)| w);
        println!(
            "KNOWN-FINDING: property={} {k}: {what} ({n} cases, e.g. {})",
            check.id,
            (check.show)(&case)
        );
    }
    let counts: Vec<(String, u64)> = families
        .iter()
        .zip(&sh.counts)
        .map(|(f, c)| (f.name.clone(), c.load(Ordering::Relaxed)))
        .collect();
    let samples = sh.samples.into_inner().unwrap();
    write_evidence(check, tier, &total, &counts, &samples, start.elapsed(), found.len() as u64, !stopped);
    println!(
        "{}: {} cases, {} executions compared, {} states, {} transitions, {:.1} s",
        check.id,
        counts.iter().map(|c| c.1).sum::<u64>(),
        total.traces,
        total.states.len(),
        total.edges.len(),
        start.elapsed().as_secs_f32()
    );
    let _ = std::io::stdout().flush();
    i32::from(!found.is_empty())
}

fn worker(check: &Check, tier: Tier, sh: &Shared<'_>, slot: &Slot) -> W {
    let mut w = W::new(tier);
    loop {
        let i = sh.next.fetch_add(1, Ordering::Relaxed);
        if i >= sh.order.len() || sh.stop.load(Ordering::Relaxed) {
            break;
        }
        let (f, t) = sh.order[i];
        let mut n = 0u64;
        let task = &sh.families[f].tasks[t];
        let mut sink = |case: &[u8]| {
            if sh.stop.load(Ordering::Relaxed) {
                return;
            }
            n += 1;
            slot.set(case);
            judge_one(check, case, &mut w);
            if !w.found.is_empty() {
                for (key, msg) in std::mem::take(&mut w.found) {
                    if sh.known.iter().any(|(k, _)| *k == key) {
                        let mut h = sh.known_hits.lock().unwrap();
                        let e = h.entry(key).or_insert((0, case.to_vec()));
                        e.0 += 1;
                        if case.len() < e.1.len() {
                            e.1 = case.to_vec();
                        }
                    } else {
                        let mut v = sh.found.lock().unwrap();
                        v.push(Finding { key, msg, case: case.to_vec() });
                        if v.len() >= 400 {
                            sh.stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
            }
            // A few actual cases of each family for the evidence.
            if n == 7 || n == 1 {
                let mut v = sh.samples.lock().unwrap();
                if v.len() < 24 && v.iter().filter(|x| x.starts_with(&sh.families[f].name)).count() < 3 {
                    v.push(format!("{}: {}", sh.families[f].name, (check.show)(case)));
                }
            }
        };
        task(&mut sink);
        slot.clear();
        sh.counts[f].fetch_add(n, Ordering::Relaxed);
    }
    slot.clear();
    w
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    check: &Check,
    tier: Tier,
    w: &W,
    counts: &[(String, u64)],
    samples: &[String],
    wall: Duration,
    violations: u64,
    complete: bool,
) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let samples = samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
    let fams = counts
        .iter()
        .map(|(n, c)| format!("{}:{c}", json_str(n)))
        .collect::<Vec<_>>()
        .join(",");
    let notes = w.notes.iter().map(|(n, c)| format!("{}:{c}", json_str(n))).collect::<Vec<_>>().join(",");
    let (level, cov) = match check.level {
        Level::ModelChecking => (
            "model_checking",
            format!(
                "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{}",
                w.states.len(),
                w.edges.len(),
                w.traces
            ),
        ),
        Level::FaultEnumeration => (
            "fault_enumeration",
            format!("\"evaluations\":{},\"distinct_nontrivial\":{}", w.evals, w.nontrivial.len()),
        ),
    };
    let assumptions = check.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
    let text = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"{level}\",\"coverage\":{{{cov},\"rule\":{},\"samples\":[{samples}],\"exhaustive\":{complete},\"cases_per_family\":{{{fams}}},\"notes\":{{{notes}}}}},\"assumptions\":[{assumptions}],\"wall_s\":{:.3},\"violations\":{violations}}}\n",
        json_str(check.id),
        json_str(tier.pick("quick", "thorough")),
        json_str(check.rule),
        wall.as_secs_f64()
    );
    let path = root_dir().join("evidence").join(format!("{}.json", check.id));
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    std::fs::write(path, text).expect("write evidence");
}
