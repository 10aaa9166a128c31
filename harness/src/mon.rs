//! The monitor runtime: case scheduling, verdicts, panic attribution, resource meters, watchdogs,
//! evidence.
//!
//! Verdicts are three-valued. A case ends as held, violated (with the case's replayable index),
//! matching a known finding, or inconclusive; nothing but a refuted oracle, a panic raised inside
//! the code under test, a fatal signal in it, or an exceeded resource bound (allocation while a
//! meter is armed, CPU time of one case) becomes a violation.

use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------------------ heap

pub struct Meter;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
    static TOTAL_CAP: Cell<u64> = const { Cell::new(u64::MAX) };
}

static TRACK: AtomicBool = AtomicBool::new(false);
static HELD: AtomicI64 = AtomicI64::new(0);

/// Bytes the whole process holds, relative to the first call.
pub fn held() -> i64 {
    TRACK.store(true, Ordering::SeqCst);
    HELD.load(Ordering::SeqCst)
}

fn on_alloc(n: usize) {
    if TRACK.load(Ordering::Relaxed) {
        HELD.fetch_add(n as i64, Ordering::Relaxed);
    }
    let _ = ARMED.try_with(|a| {
        if a.get() {
            let live = LIVE.get() + n as i64;
            LIVE.set(live);
            if live > PEAK.get() {
                PEAK.set(live);
            }
            TOTAL.set(TOTAL.get() + n as u64);
            COUNT.set(COUNT.get() + 1);
            if live > CAP.get() || TOTAL.get() > TOTAL_CAP.get() {
                ARMED.set(false);
                die(EXIT_MEMORY);
            }
        }
    });
}

fn on_free(n: usize) {
    if TRACK.load(Ordering::Relaxed) {
        HELD.fetch_sub(n as i64, Ordering::Relaxed);
    }
    let _ = ARMED.try_with(|a| {
        if a.get() {
            LIVE.set(LIVE.get() - n as i64);
        }
    });
}

// SAFETY: forwards to the system allocator; the bookkeeping does not allocate.
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        on_alloc(n);
        on_free(l.size());
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Used {
    pub peak: u64,
    pub total: u64,
    pub count: u64,
}

/// Runs `f` with the allocation meter on. If `f` holds more than `cap` bytes at a time, or requests
/// more than `total` bytes over its run, the process
/// ends with `EXIT_MEMORY` (which the supervisor turns into a violation after reproducing it).
pub fn metered<R>(cap: u64, total: u64, f: impl FnOnce() -> R) -> (R, Used) {
    struct Disarm;
    impl Drop for Disarm {
        fn drop(&mut self) {
            ARMED.set(false);
        }
    }
    LIVE.set(0);
    PEAK.set(0);
    TOTAL.set(0);
    COUNT.set(0);
    CAP.set(cap as i64);
    TOTAL_CAP.set(total);
    let guard = Disarm;
    ARMED.set(true);
    let r = f();
    drop(guard);
    let used = Used {
        peak: PEAK.get().max(0) as u64,
        total: TOTAL.get(),
        count: COUNT.get(),
    };
    (r, used)
}

pub const EXIT_MEMORY: i32 = 41;
pub const EXIT_CPU: i32 = 42;

fn die(code: i32) -> ! {
    // SAFETY: plain process exit, no destructors.
    unsafe { libc::_exit(code) }
}

// ------------------------------------------------------------------------------------------ case

#[derive(Debug)]
pub enum Fail {
    Violation(String),
    /// A documented deviation with an exact signature; a violation unless the signature is listed.
    Known {
        sig: &'static str,
        what: String,
    },
    Inconclusive(String),
}

impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::Violation(s)
    }
}

pub type Verdict = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err($crate::mon::Fail::Violation(format!($($a)*)));
        }
    };
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<&'static str, (u64, String)>,
    pub inconclusive: BTreeMap<String, u64>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            let max = k.starts_with("max_");
            let e = self.counters.entry(k).or_default();
            *e = if max { v.max(*e) } else { *e + v };
        }
        self.samples.extend(o.samples);
        for (k, (n, w)) in o.known {
            let e = self.known.entry(k).or_insert((0, w));
            e.0 += n;
        }
        for (k, v) in o.inconclusive {
            *self.inconclusive.entry(k).or_default() += v;
        }
    }
}

pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    pub st: &'a mut Stats,
    /// Description of the case for the report of a violation.
    pub note: String,
}

impl Case<'_> {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(c) = self.st.counters.get_mut(k) {
            *c += n;
        } else {
            self.st.counters.insert(k.to_string(), n);
        }
    }
    /// Tracks the maximum of a quantity.
    pub fn max(&mut self, k: &str, v: u64) {
        let e = self.st.counters.entry(format!("max_{k}")).or_default();
        *e = (*e).max(v);
    }
    /// Marks the case as non-trivial; `h` identifies it.
    pub fn nontrivial(&mut self, h: u64, sample: impl FnOnce() -> String) {
        if self.st.distinct.insert(h) && self.st.samples.len() < 2 {
            let mut s = sample();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.st.samples.push(s);
        }
    }
    pub fn evals(&mut self, n: u64) {
        self.st.evals += n;
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

// ---------------------------------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

static THREAD_PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let armed = ARMED.replace(false);
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".into()
        };
        if msg.contains("unsafe precondition") {
            // The process aborts right behind this.
            eprintln!("{msg} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc.clone(), msg.clone())));
        if std::thread::current()
            .name()
            .is_some_and(|n| n.starts_with("sut-"))
        {
            if let Ok(mut v) = THREAD_PANICS.lock() {
                v.push((loc, msg));
            }
        }
        ARMED.set(armed);
    }));
}

/// Panics recorded on threads that run the code under test (named `sut-*`).
#[allow(dead_code)]
pub fn thread_panics() -> Vec<(String, String)> {
    THREAD_PANICS.lock().map(|v| v.clone()).unwrap_or_default()
}

pub fn is_harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/")
}

/// Calls `f`; a panic raised outside the harness becomes `Err(description)`. A panic of the harness
/// itself is passed on.
pub fn no_panic<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if is_harness_location(&loc) {
                std::panic::resume_unwind(p);
            }
            Err(format!("{what} panicked at {loc}: {msg}"))
        }
    }
}

/// Whether `f` panics (used where a panic is the documented behaviour).
pub fn panics(f: impl FnOnce()) -> bool {
    let r = catch_unwind(AssertUnwindSafe(f)).is_err();
    LAST_PANIC.with(|p| p.borrow_mut().take());
    r
}

// ------------------------------------------------------------------------------- shared status

const SLOTS: usize = 64;
const IDLE: u64 = u64::MAX;

/// One word per worker, in memory shared with the supervisor: the case it is working on.
pub struct Status {
    p: *mut AtomicU64,
}
// SAFETY: only accessed through atomics.
unsafe impl Send for Status {}
unsafe impl Sync for Status {}

impl Status {
    pub fn local() -> Self {
        let v: Vec<AtomicU64> = (0..SLOTS).map(|_| AtomicU64::new(IDLE)).collect();
        Self {
            p: Box::leak(v.into_boxed_slice()).as_mut_ptr(),
        }
    }

    #[cfg(not(miri))]
    pub fn open(path: &std::path::Path, create: bool) -> std::io::Result<Self> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(create)
            .truncate(create)
            .open(path)?;
        let len = SLOTS * 8;
        if create {
            f.set_len(len as u64)?;
        }
        // SAFETY: fresh shared mapping of a file of sufficient length.
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        let s = Self { p: p.cast() };
        if create {
            for i in 0..SLOTS {
                s.set(i, IDLE);
            }
        }
        Ok(s)
    }

    fn set(&self, i: usize, v: u64) {
        // SAFETY: i < SLOTS.
        unsafe { (*self.p.add(i % SLOTS)).store(v, Ordering::SeqCst) }
    }

    pub fn active(&self) -> Vec<u64> {
        (0..SLOTS)
            // SAFETY: i < SLOTS.
            .map(|i| unsafe { (*self.p.add(i)).load(Ordering::SeqCst) })
            .filter(|&v| v != IDLE)
            .collect()
    }
}

// -------------------------------------------------------------------------------------- watchdog

/// CPU-time watch on a thread: a unit of work that burns more than this is non-termination.
/// (Units normally take micro- to milliseconds.) CPU time, not wall-clock time: a loaded machine
/// does not make it run out.
pub const CPU_LIMIT: f64 = 20.0;

struct Watch {
    seq: AtomicU64,
    done: AtomicBool,
    #[cfg(not(miri))]
    clock: libc::clockid_t,
}

static WATCHES: Mutex<Vec<std::sync::Arc<Watch>>> = Mutex::new(Vec::new());

pub struct CpuGuard(std::sync::Arc<Watch>);

/// Puts the calling thread under CPU watch until the guard is dropped.
pub fn cpu_guard() -> CpuGuard {
    #[cfg(not(miri))]
    let clock = {
        let mut c: libc::clockid_t = 0;
        // SAFETY: valid out pointer, calling thread is alive.
        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
        c
    };
    let w = std::sync::Arc::new(Watch {
        seq: AtomicU64::new(0),
        done: AtomicBool::new(false),
        #[cfg(not(miri))]
        clock,
    });
    WATCHES.lock().unwrap().push(w.clone());
    CpuGuard(w)
}

impl CpuGuard {
    pub fn tick(&self) {
        self.0.seq.fetch_add(1, Ordering::SeqCst);
    }
}

impl Drop for CpuGuard {
    fn drop(&mut self) {
        // Under the lock, so that the watchdog does not read the clock of a finished thread.
        let mut w = WATCHES.lock().unwrap_or_else(|e| e.into_inner());
        self.0.done.store(true, Ordering::SeqCst);
        w.retain(|x| !std::sync::Arc::ptr_eq(x, &self.0));
    }
}

#[cfg(not(miri))]
fn start_watchdog() {
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(|| {
            let mut first: std::collections::HashMap<usize, (u64, f64)> = Default::default();
            loop {
                std::thread::sleep(Duration::from_millis(250));
                let w = WATCHES.lock().unwrap_or_else(|e| e.into_inner());
                for x in w.iter() {
                    if x.done.load(Ordering::SeqCst) {
                        continue;
                    }
                    let mut ts = libc::timespec {
                        tv_sec: 0,
                        tv_nsec: 0,
                    };
                    // SAFETY: the thread is alive, its guard drops under the lock we hold.
                    if unsafe { libc::clock_gettime(x.clock, &mut ts) } != 0 {
                        continue;
                    }
                    let cpu = ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9;
                    let seq = x.seq.load(Ordering::SeqCst);
                    let key = std::sync::Arc::as_ptr(x) as usize;
                    let e = first.entry(key).or_insert((seq, cpu));
                    if e.0 != seq || cpu < e.1 {
                        *e = (seq, cpu);
                    } else if cpu - e.1 > CPU_LIMIT {
                        die(EXIT_CPU);
                    }
                }
            }
        })
        .unwrap();
}

// ------------------------------------------------------------------------------------------ runs

#[derive(Clone)]
pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<u64>,
    pub cases: Option<u64>,
    pub threads: usize,
    pub wall_cap: Duration,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// Number of cases in the quick / thorough tier.
    pub quick: u64,
    pub thorough: u64,
    /// 0: one per core.
    pub threads: usize,
    pub run: fn(&mut Case<'_>) -> Verdict,
    /// Counters that have to be non-zero for a run to count as having observed anything.
    pub required: &'static [&'static str],
}

pub struct Outcome {
    pub stats: Stats,
    pub violation: Option<(u64, String, String)>,
    pub harness_error: Option<String>,
    pub wall: f64,
}

pub fn run_prop(p: &Prop, cfg: &Cfg, known: &[(String, String)], status: &Status) -> Outcome {
    install_panic_hook();
    #[cfg(not(miri))]
    start_watchdog();
    let start = Instant::now();
    let n = cfg
        .cases
        .unwrap_or(if cfg.thorough { p.thorough } else { p.quick });
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let merged = Mutex::new(Stats::default());
    let violation: Mutex<Option<(u64, String, String)>> = Mutex::new(None);
    let harness_error: Mutex<Option<String>> = Mutex::new(None);
    let threads = if cfg.only.is_some() {
        1
    } else if p.threads > 0 {
        p.threads.min(cfg.threads)
    } else {
        cfg.threads
    };

    let worker = |slot: usize| {
        let mut st = Stats::default();
        let guard = cpu_guard();
        loop {
            if stop.load(Ordering::SeqCst) || start.elapsed() > cfg.wall_cap {
                break;
            }
            let idx = match cfg.only {
                Some(i) => {
                    if next.fetch_add(1, Ordering::SeqCst) > 0 {
                        break;
                    }
                    i
                }
                None => {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    i
                }
            };
            status.set(slot, idx);
            guard.tick();
            st.evals += 1;
            let mut case = Case {
                rng: Rng::new(cfg.seed, p.id, idx),
                idx,
                thorough: cfg.thorough,
                st: &mut st,
                note: String::new(),
            };
            let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut case)));
            ARMED.set(false);
            let note = std::mem::take(&mut case.note);
            let fail = |msg: String| {
                let mut v = violation.lock().unwrap();
                // The lowest index wins, for a stable report.
                if v.as_ref().is_none_or(|(i, _, _)| idx < *i) {
                    *v = Some((idx, msg, note.clone()));
                }
                stop.store(true, Ordering::SeqCst);
            };
            match r {
                Ok(Ok(())) => {}
                Ok(Err(Fail::Violation(m))) => fail(m),
                Ok(Err(Fail::Known { sig, what })) => {
                    if known.iter().any(|(p2, s)| p2 == p.id && s == sig) {
                        let e = st.known.entry(sig).or_insert((0, what));
                        e.0 += 1;
                    } else {
                        fail(format!("{what} [signature {sig}]"));
                    }
                }
                Ok(Err(Fail::Inconclusive(m))) => {
                    *st.inconclusive.entry(m).or_default() += 1;
                }
                Err(_) => {
                    let (loc, msg) = LAST_PANIC
                        .with(|p| p.borrow_mut().take())
                        .unwrap_or_default();
                    if is_harness_location(&loc) {
                        *harness_error.lock().unwrap() =
                            Some(format!("case {idx}: harness panic at {loc}: {msg} ({note})"));
                        stop.store(true, Ordering::SeqCst);
                    } else {
                        fail(format!("panic at {loc}: {msg}"));
                    }
                }
            }
            status.set(slot, IDLE);
        }
        merged.lock().unwrap().merge(st);
    };

    if threads <= 1 {
        worker(0);
    } else {
        std::thread::scope(|s| {
            for slot in 0..threads {
                let worker = &worker;
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || worker(slot))
                    .unwrap();
            }
        });
    }

    Outcome {
        stats: merged.into_inner().unwrap(),
        violation: violation.into_inner().unwrap(),
        harness_error: harness_error.into_inner().unwrap(),
        wall: start.elapsed().as_secs_f64(),
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ------------------------------------------------------------------------------------------- log

/// A logger that renders every record of the library (so that all formatting code runs) and keeps
/// the lines where a monitor asks for them.
pub struct Sink;

thread_local! {
    static RENDERED: Cell<u64> = const { Cell::new(0) };
}

thread_local! {
    static CAPTURE: RefCell<Option<std::sync::Arc<Mutex<Vec<String>>>>> = const { RefCell::new(None) };
}

/// Keeps what the library logs on the calling thread from now on.
pub fn capture_log(to: std::sync::Arc<Mutex<Vec<String>>>) {
    CAPTURE.with(|c| *c.borrow_mut() = Some(to));
}

impl log::Log for Sink {
    fn enabled(&self, m: &log::Metadata<'_>) -> bool {
        m.target().starts_with("uwuhi")
    }
    fn log(&self, r: &log::Record<'_>) {
        if !self.enabled(r.metadata()) {
            return;
        }
        use std::fmt::Write;
        struct Len(usize);
        impl Write for Len {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                self.0 += s.len();
                Ok(())
            }
        }
        let sink = CAPTURE.try_with(|c| c.borrow().clone()).ok().flatten();
        if let Some(sink) = sink {
            let line = r.args().to_string();
            sink.lock().unwrap_or_else(|e| e.into_inner()).push(line);
        } else {
            let mut l = Len(0);
            let _ = write!(l, "{}", r.args());
        }
        let _ = RENDERED.try_with(|c| c.set(c.get() + 1));
    }
    fn flush(&self) {}
}

pub fn rendered() -> u64 {
    RENDERED.get()
}

pub fn install_logger() {
    static SINK: Sink = Sink;
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Trace);
}
