//! Case runner: parallel exhaustive enumeration, panic capture, hang detection and reporting.
//!
//! A check is a function that enumerates *items* (model states, histories, configurations) and
//! runs *cases* for each of them on the real code. Every case returns `Err(detail)` if the property
//! is violated. The process writes one JSON report; `run.py` turns it into the verdict.

use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

use crate::alloc;

pub type Check = Result<(), String>;

thread_local! {
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Run `f`, returning `None` if it panics.
pub fn attempt<R>(f: impl FnOnce() -> R) -> Option<R> {
    QUIET.with(|q| q.set(q.get() + 1));
    let result = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    result.ok()
}

/// Run `f`, returning the panic message if it panics.
pub fn attempt_msg<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match attempt(f) {
        Some(x) => Ok(x),
        None => Err(LAST.with(|m| m.borrow().clone())),
    }
}

/// Fail the case unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond {
            return Err(format!($($arg)+));
        }
    };
}

/// Fail the case unless both values are equal.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {
        match (&$a, &$b) {
            (a, b) => {
                if !(*a == *b) {
                    return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)+), a, b));
                }
            }
        }
    };
}

#[derive(Default)]
struct Totals {
    states: u64,
    transitions: u64,
    traces: u64,
    cases: u64,
    counters: Vec<(&'static str, u64)>,
    outcomes: HashSet<u64>,
    samples: Vec<(usize, String)>,
    failures: Vec<(usize, String, String)>,
    nfailures: u64,
}

impl Totals {
    fn count(&mut self, name: &'static str, n: u64) {
        for c in &mut self.counters {
            if c.0 == name {
                c.1 += n;
                return;
            }
        }
        self.counters.push((name, n));
    }

    fn merge(&mut self, other: Totals) {
        self.states += other.states;
        self.transitions += other.transitions;
        self.traces += other.traces;
        self.cases += other.cases;
        for (n, c) in other.counters {
            self.count(n, c);
        }
        self.outcomes.extend(other.outcomes);
        self.samples.extend(other.samples);
        self.failures.extend(other.failures);
        self.nfailures += other.nfailures;
    }
}

pub struct Ctx {
    pub thorough: bool,
    pub threads: usize,
    totals: Mutex<Totals>,
    stop: AtomicBool,
    only: Option<String>,
    trace: Option<String>,
    offset: AtomicUsize,
    bounds: Mutex<Vec<(String, String)>>,
    assumptions: Mutex<Vec<String>>,
}

pub struct Worker<'a> {
    ctx: &'a Ctx,
    index: usize,
    item: usize,
    sample_in: usize,
    t: Totals,
    trace: Option<std::fs::File>,
    serial: u64,
}

/// Sign of life of a worker, in a cache line of its own.
#[repr(align(128))]
struct Beat(AtomicU64);

static BEATS: [Beat; 64] = [const { Beat(AtomicU64::new(0)) }; 64];
static ACTIVE: [AtomicBool; 64] = [const { AtomicBool::new(false) }; 64];

impl Worker<'_> {
    /// Run one case. Nothing is formatted unless the case fails, is traced or is sampled.
    #[inline]
    pub fn case(&mut self, desc: impl Fn() -> String, body: impl FnOnce(&mut Self) -> Check) {
        if self.ctx.stop.load(Relaxed) {
            return;
        }

        // So that a first panic does not look like a leaked allocation.
        LAST.with(|m| {
            let mut m = m.borrow_mut();
            if m.is_empty() {
                m.push('-');
            }
        });

        if let Some(only) = &self.ctx.only {
            if *only != desc() {
                return;
            }
        }

        if self.trace.is_some() {
            self.trace_case(desc());
        }

        if self.sample_in > 0 {
            self.sample_in -= 1;
            if self.sample_in == 0 {
                self.t.samples.push((self.item, desc()));
            }
        }

        self.beat();
        self.t.cases += 1;

        QUIET.with(|q| q.set(q.get() + 1));
        let result = catch_unwind(AssertUnwindSafe(|| body(self)));
        QUIET.with(|q| q.set(q.get() - 1));

        let mut result = match result {
            Ok(r) => r,
            Err(_) => Err(format!("unexpected panic: {}", LAST.with(|m| m.borrow().clone()))),
        };

        let errors = alloc::take_errors();
        if errors != 0 && result.is_ok() {
            result = Err(format!("memory error: {}", alloc::describe(errors)));
        }

        if let Err(detail) = result {
            self.fail(desc(), detail);
        }
    }

    #[cold]
    fn trace_case(&mut self, text: String) {
        use std::os::unix::fs::FileExt;
        let mut bytes = text.into_bytes();
        bytes.truncate(4000);
        bytes.resize(4000, b' ');
        let _ = self.trace.as_mut().unwrap().write_all_at(&bytes, 0);
    }

    #[cold]
    fn fail(&mut self, desc: String, detail: String) {
        self.t.nfailures += 1;
        if self.t.failures.len() < 20 {
            self.t.failures.push((self.item, desc, detail));
        }
        if self.t.nfailures >= 40 {
            self.ctx.stop.store(true, Relaxed);
        }
    }

    pub fn stopped(&self) -> bool {
        self.ctx.stop.load(Relaxed)
    }

    pub fn thorough(&self) -> bool {
        self.ctx.thorough
    }

    /// Count a model state.
    pub fn state(&mut self) {
        self.t.states += 1;
    }

    fn beat(&mut self) {
        self.serial += 1;
        BEATS[self.index].0.store(self.serial, Relaxed);
    }

    /// Count an operation applied to a state.
    pub fn step(&mut self) {
        self.beat();
        self.t.transitions += 1;
    }

    pub fn steps(&mut self, n: u64) {
        self.beat();
        self.t.transitions += n;
    }

    /// Count a complete comparison of an implementation result with the model.
    pub fn trace(&mut self) {
        self.t.traces += 1;
    }

    pub fn count(&mut self, name: &'static str) {
        self.t.count(name, 1);
    }

    pub fn count_n(&mut self, name: &'static str, n: u64) {
        self.t.count(name, n);
    }

    /// Record an observed outcome, to report how many distinct ones there were.
    pub fn outcome<H: Hash + ?Sized>(&mut self, value: &H) {
        if self.t.outcomes.len() < 200_000 {
            let mut h = std::hash::DefaultHasher::new();
            value.hash(&mut h);
            self.t.outcomes.insert(h.finish());
        }
    }

    /// A callee that must panic (`None`) was run.
    pub fn expect_panic<R>(&mut self, what: &str, result: Option<R>) -> Check {
        self.step();
        if result.is_some() {
            return Err(format!("{what}: did not panic"));
        }
        self.count("expected_panics");
        Ok(())
    }
}

impl Ctx {
    /// Run `f` for every item, in parallel.
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&mut Worker, &T) + Sync) {
        let next = AtomicUsize::new(0);
        let offset = self.offset.fetch_add(items.len(), Relaxed);
        let step = (items.len() / 3).max(1);

        std::thread::scope(|s| {
            for index in 0..self.threads.min(items.len()).max(1) {
                let (next, f) = (&next, &f);
                let build = std::thread::Builder::new().stack_size(64 << 20);
                let run = move || {
                    let trace = self.trace.as_ref().map(|dir| {
                        std::fs::File::create(format!("{dir}/worker{index}")).expect("trace file")
                    });
                    let mut w = Worker {
                        ctx: self,
                        index,
                        item: 0,
                        sample_in: 0,
                        t: Totals::default(),
                        trace,
                        serial: BEATS[index].0.load(Relaxed),
                    };
                    ACTIVE[index].store(true, Relaxed);
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= items.len() || self.stop.load(Relaxed) {
                            break;
                        }
                        w.item = offset + i;
                        w.sample_in = if i % step == 0 { [1, 20, 77][i / step % 3] } else { 0 };
                        w.serial += 1;
                        BEATS[index].0.store(w.serial, Relaxed);
                        f(&mut w, &items[i]);
                    }
                    ACTIVE[index].store(false, Relaxed);
                    if w.trace.is_some() {
                        w.trace_case(String::new());
                    }
                    self.totals.lock().unwrap().merge(w.t);
                };
                build.spawn_scoped(s, run).expect("thread");
            }
        });
    }

    /// Run `f` once on one worker.
    pub fn one(&self, f: impl Fn(&mut Worker) + Sync) {
        self.par(&[()], |w, _| f(w));
    }

    /// State a bound of the exploration, for the evidence.
    pub fn bound(&self, name: &str, value: impl ToString) {
        self.bounds.lock().unwrap().push((name.into(), value.to_string()));
    }

    pub fn assume(&self, text: &str) {
        self.assumptions.lock().unwrap().push(text.into());
    }
}

fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => write!(r, "\\u{:04x}", c as u32).unwrap(),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

unsafe extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}

/// Entry point of a check binary.
pub fn main(f: fn(&Ctx)) {
    let tier = std::env::args().nth(1).unwrap_or_else(|| "quick".into());
    let out = std::env::var("MC_OUT").ok();
    let threads = std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let hang = std::env::var("MC_HANG").ok().and_then(|x| x.parse().ok()).unwrap_or(60u64);

    unsafe {
        // Address space 20 GiB, no core files.
        let _ = setrlimit(9, &[20 << 30, 20 << 30]);
        let _ = setrlimit(4, &[0, 0]);
    }

    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(other payload)".into()
        };
        let text = match info.location() {
            Some(l) => format!("{msg} at {}:{}", l.file(), l.line()),
            None => msg,
        };
        if QUIET.try_with(|q| q.get()).unwrap_or(0) == 0 {
            eprintln!("panic outside of a case: {text}");
        }
        let _ = LAST.try_with(|m| {
            if let Ok(mut m) = m.try_borrow_mut() {
                *m = text;
            }
        });
    }));

    let ctx = Ctx {
        thorough: tier == "thorough",
        threads,
        totals: Mutex::new(Totals::default()),
        stop: AtomicBool::new(false),
        only: std::env::var("MC_ONLY").ok(),
        trace: std::env::var("MC_TRACE").ok(),
        offset: AtomicUsize::new(0),
        bounds: Mutex::new(Vec::new()),
        assumptions: Mutex::new(Vec::new()),
    };

    // Watchdog: a case that does not end is a verdict of its own.
    std::thread::spawn(move || {
        let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); 64];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for i in 0..64 {
                let beat = BEATS[i].0.load(Relaxed);
                if beat != last[i].0 || !ACTIVE[i].load(Relaxed) {
                    last[i] = (beat, Instant::now());
                } else if last[i].1.elapsed() > Duration::from_secs(hang) {
                    eprintln!("worker {i} hangs");
                    let _ = std::io::stderr().flush();
                    unsafe extern "C" {
                        fn _exit(code: i32) -> !;
                    }
                    unsafe { _exit(71) }
                }
            }
        }
    });

    let start = Instant::now();
    f(&ctx);
    let wall = start.elapsed().as_secs_f64();

    let mut t = ctx.totals.into_inner().unwrap();
    t.samples.sort();
    t.samples.truncate(12);
    t.failures.sort();
    t.counters.sort();

    let mut r = String::from("{");
    write!(
        r,
        "\"states\":{},\"transitions\":{},\"traces\":{},\"cases\":{},\"outcomes\":{},",
        t.states,
        t.transitions,
        t.traces,
        t.cases,
        t.outcomes.len()
    )
    .unwrap();
    write!(r, "\"complete\":{},\"wall\":{wall:.3},\"nfailures\":{},", !ctx.stop.load(Relaxed), t.nfailures)
        .unwrap();
    let list = |v: Vec<String>| format!("[{}]", v.join(","));
    write!(
        r,
        "\"counters\":{{{}}},",
        t.counters.iter().map(|(n, c)| format!("{}:{c}", json(n))).collect::<Vec<_>>().join(",")
    )
    .unwrap();
    write!(
        r,
        "\"bounds\":{{{}}},",
        ctx.bounds
            .into_inner()
            .unwrap()
            .iter()
            .map(|(n, c)| format!("{}:{}", json(n), json(c)))
            .collect::<Vec<_>>()
            .join(",")
    )
    .unwrap();
    write!(
        r,
        "\"assumptions\":{},",
        list(ctx.assumptions.into_inner().unwrap().iter().map(|s| json(s)).collect())
    )
    .unwrap();
    write!(r, "\"samples\":{},", list(t.samples.iter().map(|s| json(&s.1)).collect())).unwrap();
    write!(
        r,
        "\"failures\":{}}}",
        list(
            t.failures
                .iter()
                .map(|f| format!("{{\"case\":{},\"detail\":{}}}", json(&f.1), json(&f.2)))
                .collect()
        )
    )
    .unwrap();

    match out {
        Some(path) => std::fs::write(path, r).expect("write report"),
        None => println!("{r}"),
    }
}
