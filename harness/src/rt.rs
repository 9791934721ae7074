//! Runtime of the monitors: case scheduling, guarded calls into the code under
//! test, event counters, watchdog, and the report the driver turns into evidence.

use crate::alloc;
use crate::rng::{mix, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering::*};
use std::sync::Mutex;

/// A refutation of the property, with its witness.
#[derive(Debug, Clone)]
pub struct Fail(pub String);
pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::rt::Fail(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::rt::Fail(format!($($a)*))) } };
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Stage {
    pub name: &'static str,
    /// cases at quick and thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Case) -> R,
    /// The stage enumerates a finite space: the count is not scaled.
    pub exhaustive: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub stages: Vec<Stage>,
    /// (event counter, minimum): fewer observed events make the run inconclusive.
    pub floors: Vec<(&'static str, u64)>,
}

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub total: u64,
    pub tier: Tier,
    pub want_sample: bool,
    counters: Vec<(&'static str, u64)>,
    maxes: Vec<(&'static str, u64)>,
    distinct: Vec<u64>,
    samples: Vec<String>,
    evals: Option<u64>,
}

impl Case {
    pub fn count(&mut self, k: &'static str, n: u64) {
        for e in self.counters.iter_mut() {
            if std::ptr::eq(e.0, k) {
                e.1 += n;
                return;
            }
        }
        self.counters.push((k, n));
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        for e in self.maxes.iter_mut() {
            if std::ptr::eq(e.0, k) {
                e.1 = e.1.max(n);
                return;
            }
        }
        self.maxes.push((k, n));
    }
    /// Record a distinct non-trivial execution by the hash of its content.
    pub fn distinct(&mut self, h: u64) {
        self.distinct.push(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.samples.is_empty() {
            let mut s = f();
            if s.len() > 1200 {
                let mut k = 1200;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn evals(&mut self, n: u64) {
        self.evals = Some(self.evals.unwrap_or(0) + n);
    }
}

// ---------------------------------------------------------------- guarded calls

const SLOTS: usize = 64;
#[repr(C)]
struct Slot {
    live: AtomicU64,  // 1 + stage while a case runs
    idx: AtomicU64,
    in_sut: AtomicU64, // 1 while inside the code under test
    op: AtomicU64,    // operation counter
}
static SLOT_BASE: AtomicPtr<Slot> = AtomicPtr::new(std::ptr::null_mut());
static LOCAL_SLOTS: [Slot; SLOTS] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const S: Slot = Slot { live: AtomicU64::new(0), idx: AtomicU64::new(0), in_sut: AtomicU64::new(0), op: AtomicU64::new(0) };
    [S; SLOTS]
};

thread_local! {
    static MY: Cell<usize> = const { Cell::new(usize::MAX) };
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static LAST_PEAK: Cell<usize> = const { Cell::new(0) };
    static CAPB: Cell<isize> = const { Cell::new(1 << 30) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn slot(i: usize) -> &'static Slot {
    let p = SLOT_BASE.load(Relaxed);
    if p.is_null() {
        &LOCAL_SLOTS[i]
    } else {
        unsafe { &*p.add(i) }
    }
}

extern "C" {
    fn _exit(code: i32) -> !;
    #[cfg(not(miri))]
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    #[cfg(not(miri))]
    fn pthread_self() -> usize;
    #[cfg(not(miri))]
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    #[cfg(not(miri))]
    fn clock_gettime(c: i32, ts: *mut [i64; 2]) -> i32;
}

/// Called from the allocator (cap exceeded) or the watchdog: the state of the
/// offending case is in the slot file; the exit code says what happened.
pub fn die_in_sut(code: i32) {
    if code == 86 && !IN_SUT.with(|x| x.get()) {
        return;
    }
    MY.with(|m| {
        if m.get() != usize::MAX {
            slot(m.get()).in_sut.store(code as u64, SeqCst);
        }
    });
    unsafe { _exit(code) }
}

/// Set the allocation cap (bytes above the level at entry) for guarded calls of this thread.
pub fn set_cap(bytes: isize) {
    CAPB.with(|c| c.set(bytes));
}

/// Processor time an operation may take, in multiples of the usual bound, per slot. Calls on
/// values of gigabytes take seconds where they should.
static PATIENCE: [AtomicU64; SLOTS] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const ONE: AtomicU64 = AtomicU64::new(1);
    [ONE; SLOTS]
};
pub fn patient(times: u64) {
    MY.with(|m| {
        if m.get() != usize::MAX {
            PATIENCE[m.get()].store(times, Relaxed);
        }
    });
}

/// Is there room for a case of that many GiB? (Such cases run in the release build only.)
pub fn roomy(gib: u64) -> bool {
    if cfg!(debug_assertions) || cfg!(miri) {
        return false;
    }
    let Ok(s) = std::fs::read_to_string("/proc/meminfo") else { return false };
    let kib: u64 = s.lines().find_map(|l| l.strip_prefix("MemAvailable:")).and_then(|l| l.trim().trim_end_matches("kB").trim().parse().ok()).unwrap_or(0);
    kib >> 20 >= gib
}

/// Run one operation of the code under test. A panic is a refutation of whichever
/// property is being monitored: none of the operations used is allowed to panic.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    let m = MY.with(|m| m.get());
    if m != usize::MAX {
        let s = slot(m);
        s.op.store(s.op.load(Relaxed) + 1, Relaxed);
        s.in_sut.store(1, Relaxed);
    }
    IN_SUT.with(|x| x.set(true));
    let a0 = alloc::begin(CAPB.with(|c| c.get()));
    let r = catch_unwind(AssertUnwindSafe(f));
    let peak = alloc::end(a0);
    IN_SUT.with(|x| x.set(false));
    LAST_PEAK.with(|p| p.set(peak));
    if m != usize::MAX {
        slot(m).in_sut.store(0, Relaxed);
    }
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let msg = PANIC.with(|p| p.borrow().clone());
            Err(Fail(format!("panic in {}: {}", what, msg)))
        }
    }
}

/// Peak bytes allocated above the entry level by the last guarded call.
pub fn last_peak() -> usize {
    LAST_PEAK.with(|p| p.get())
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_SUT.with(|x| x.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        } else {
            old(info)
        }
    }));
}

// ---------------------------------------------------------------- running

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, u64, String)>,
    pub harness_errors: Vec<String>,
    pub stages: Vec<(String, u64, bool, u64)>, // name, planned cases, exhaustive, cases run
}

pub struct Opts {
    pub seed: u64,
    pub tier: Tier,
    pub threads: usize,
    pub slots: Option<String>,
    pub scale_pm: u64, // per mille of the case counts
    pub hang_cpu_s: u64,
    pub only: Option<(usize, u64)>, // replay one case
    /// Wall-clock seconds after which no new case is started.
    pub budget_s: u64,
    /// Nonzero (interpreters): this many cases of each stage, enumerations sampled too,
    /// stages of long cases left out.
    pub sampled: u64,
}

pub fn case_seed(seed: u64, id: &str, stage: &str, idx: u64) -> u64 {
    let h = crate::rng::hash_bytes(seed, id.as_bytes());
    let h = crate::rng::hash_bytes(h, stage.as_bytes());
    mix(h ^ mix(idx))
}

fn run_case(p: &Prop, st: &Stage, si: usize, idx: u64, total: u64, o: &Opts, my: usize) -> (Case, Result<R, String>) {
    let n_samples = 3u64;
    let want = idx == 0 || (total > n_samples && (idx == total / 2 || idx == total - 1));
    let mut c = Case {
        rng: Rng::new(case_seed(o.seed, p.id, st.name, idx)),
        idx,
        total,
        tier: o.tier,
        want_sample: want,
        counters: vec![],
        maxes: vec![],
        distinct: vec![],
        samples: vec![],
        evals: None,
    };
    crate::refproto::fresh_encoder();
    let s = slot(my);
    s.idx.store(idx, Relaxed);
    patient(1);
    s.live.store(1 + si as u64, Relaxed);
    let r = catch_unwind(AssertUnwindSafe(|| (st.run)(&mut c)));
    s.live.store(0, Relaxed);
    let r = match r {
        Ok(r) => Ok(r),
        Err(e) => Err(e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "harness panic".into())),
    };
    (c, r)
}

/// What std gives every thread, unless sanitizer frames need more.
fn stack_size() -> usize {
    std::env::var("VH_STACK_MB").ok().and_then(|s| s.parse().ok()).unwrap_or(2usize) << 20
}

fn merge(rep: &mut Report, c: Case, st: &Stage, r: Result<R, String>, idx: u64) -> bool {
    rep.cases += 1;
    rep.evaluations += c.evals.unwrap_or(1).max(c.distinct.len() as u64);
    for (k, n) in c.counters {
        *rep.counters.entry(k).or_insert(0) += n;
    }
    for (k, n) in c.maxes {
        let e = rep.maxes.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    rep.distinct.extend(c.distinct);
    for s in c.samples {
        rep.samples.push(format!("[{} #{}] {}", st.name, idx, s));
    }
    match r {
        Ok(Ok(())) => true,
        Ok(Err(Fail(m))) => {
            rep.violations.push((st.name.to_string(), idx, m));
            false
        }
        Err(m) => {
            rep.harness_errors.push(format!("{} #{}: {}", st.name, idx, m));
            false
        }
    }
}

#[cfg(not(miri))]
static THREAD_IDS: Mutex<Vec<(usize, i32)>> = Mutex::new(Vec::new());

pub fn run(p: &Prop, o: &Opts) -> Report {
    install_hook();
    #[cfg(not(miri))]
    if let Some(path) = &o.slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("slot file");
        let len = SLOTS * std::mem::size_of::<Slot>();
        f.set_len(len as u64).unwrap();
        let m = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
        if m as isize == -1 {
            panic!("mmap failed");
        }
        SLOT_BASE.store(m as *mut Slot, SeqCst);
        std::mem::forget(f);
    }
    let mut rep = Report::default();
    if let Some((si, idx)) = o.only {
        let st = &p.stages[si];
        let total = count_of(st, o);
        let (c, r) = std::thread::scope(|sc| {
            let h = std::thread::Builder::new().stack_size(stack_size()).spawn_scoped(sc, move || {
                MY.with(|m| m.set(0));
                #[cfg(not(miri))]
                {
                    let mut cid = 0;
                    unsafe { pthread_getcpuclockid(pthread_self(), &mut cid) };
                    THREAD_IDS.lock().unwrap().push((0, cid));
                    watchdog(o.hang_cpu_s);
                }
                run_case(p, st, si, idx, total, o, 0)
            });
            h.expect("spawn").join().expect("case")
        });
        merge(&mut rep, c, st, r, idx);
        return rep;
    }
    #[cfg(not(miri))]
    watchdog(o.hang_cpu_s);
    let stop = AtomicBool::new(false);
    let start = std::time::Instant::now();
    for (si, st) in p.stages.iter().enumerate() {
        let total = count_of(st, o);
        rep.stages.push((st.name.to_string(), total, st.exhaustive && o.sampled == 0, 0));
        let before = rep.cases;
        // A stage may use its share of what is left of the budget, twice over.
        let left = std::time::Duration::from_secs(o.budget_s).saturating_sub(start.elapsed());
        let deadline = std::time::Instant::now() + left.mul_f64((2.0 / (p.stages.len() - si) as f64).min(1.0));
        let next = AtomicU64::new(0);
        let merged = Mutex::new(&mut rep);
        let chunk = (total / (o.threads as u64 * 16)).clamp(1, 256);
        std::thread::scope(|sc| {
            for t in 0..o.threads {
                let (next, stop, merged) = (&next, &stop, &merged);
                std::thread::Builder::new().stack_size(stack_size()).spawn_scoped(sc, move || {
                    MY.with(|m| m.set(t));
                    #[cfg(not(miri))]
                    {
                        let mut cid = 0;
                        unsafe { pthread_getcpuclockid(pthread_self(), &mut cid) };
                        THREAD_IDS.lock().unwrap().push((t, cid));
                    }
                    let mut local = Report::default();
                    'w: while !stop.load(Relaxed) && std::time::Instant::now() < deadline {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= total {
                            break;
                        }
                        for idx in a..(a + chunk).min(total) {
                            let idx = if o.sampled > 0 && st.exhaustive { mix(idx ^ o.seed << 20) % st.quick.max(1) } else { idx };
                            set_cap(1 << 30);
                            let (c, r) = run_case(p, st, si, idx, total, o, t);
                            if !merge(&mut local, c, st, r, idx) {
                                stop.store(true, Relaxed);
                                break 'w;
                            }
                        }
                    }
                    let mut g = merged.lock().unwrap();
                    g.evaluations += local.evaluations;
                    g.cases += local.cases;
                    for (k, n) in local.counters {
                        *g.counters.entry(k).or_insert(0) += n;
                    }
                    for (k, n) in local.maxes {
                        let e = g.maxes.entry(k).or_insert(0);
                        *e = (*e).max(n);
                    }
                    g.distinct.extend(local.distinct);
                    g.samples.extend(local.samples);
                    g.violations.extend(local.violations);
                    g.harness_errors.extend(local.harness_errors);
                    #[cfg(not(miri))]
                    THREAD_IDS.lock().unwrap().retain(|x| x.0 != t);
                }).expect("spawn");
            }
        });
        let run = rep.cases - before;
        rep.stages.last_mut().unwrap().3 = run;
        if stop.load(Relaxed) {
            break;
        }
    }
    rep.samples.sort();
    rep.violations.sort();
    rep
}

pub fn count_of(st: &Stage, o: &Opts) -> u64 {
    let n = match o.tier {
        Tier::Quick => st.quick,
        Tier::Thorough => st.thorough,
    };
    if o.sampled > 0 {
        const LONG: [&str; 20] = ["prefixes", "giant", "many kept", "wide", "huge", "lifetime", "large", "long", "big", "many", "deep", "integers", "strings", "long lists", "many fields", "long life", "rfc", "triples", "three bytes", "random codes"];
        return if LONG.contains(&st.name) { 0 } else { n.min(o.sampled) };
    }
    if st.exhaustive || n == 0 {
        n
    } else {
        (n * o.scale_pm / 1000).max(1)
    }
}

/// A single operation of the code under test that burns this much processor time
/// (ordinary operations take micro- to milliseconds) does not terminate.
#[cfg(not(miri))]
fn watchdog(limit_s: u64) {
    std::thread::spawn(move || {
        let mut seen: BTreeMap<usize, (u64, i64)> = BTreeMap::new();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let ids = THREAD_IDS.lock().unwrap();
            for &(t, cid) in ids.iter() {
                let s = slot(t);
                let op = s.op.load(Relaxed);
                if s.in_sut.load(Relaxed) != 1 {
                    seen.remove(&t);
                    continue;
                }
                let mut ts = [0i64; 2];
                if unsafe { clock_gettime(cid, &mut ts) } != 0 {
                    continue;
                }
                let now = ts[0] * 1000 + ts[1] / 1_000_000;
                match seen.get(&t) {
                    Some(&(o, t0)) if o == op => {
                        if now - t0 > (limit_s * PATIENCE[t].load(Relaxed)) as i64 * 1000 {
                            s.in_sut.store(87, SeqCst);
                            unsafe { _exit(87) }
                        }
                    }
                    _ => {
                        seen.insert(t, (op, now));
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- reporting

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn to_json(p: &Prop, r: &Report) -> String {
    let mut o = String::new();
    o.push_str(&format!("{{\"property\":{},\"rule\":{},\"evaluations\":{},\"cases\":{},\"distinct\":{},", js(p.id), js(p.rule), r.evaluations, r.cases, r.distinct.len()));
    let kv = |m: &BTreeMap<&'static str, u64>| m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    o.push_str(&format!("\"events\":{{{}}},\"maxima\":{{{}}},", kv(&r.counters), kv(&r.maxes)));
    o.push_str(&format!("\"samples\":[{}],", r.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"stages\":[{}],", r.stages.iter().map(|(n, c, e, k)| format!("{{\"name\":{},\"planned\":{},\"exhaustive\":{},\"cases\":{}}}", js(n), c, e, k)).collect::<Vec<_>>().join(",")));
    let short: Vec<String> = p.floors.iter().filter(|(k, n)| r.counters.get(k).copied().unwrap_or(0) < *n).map(|(k, n)| js(&format!("{}: {} < {}", k, r.counters.get(k).copied().unwrap_or(0), n))).collect();
    o.push_str(&format!("\"below_floor\":[{}],", short.join(",")));
    o.push_str(&format!("\"violations\":[{}],", r.violations.iter().map(|(s, i, m)| format!("{{\"stage\":{},\"idx\":{},\"what\":{}}}", js(s), i, js(m))).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"harness_errors\":[{}]}}", r.harness_errors.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    o
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 96 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn show(b: &[u8]) -> String {
    if b.len() <= 60 && b.iter().all(|c| (32..127).contains(c)) {
        format!("\"{}\"", String::from_utf8_lossy(b))
    } else {
        format!("0x{}", hex(b))
    }
}
