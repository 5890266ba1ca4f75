//! Per-case context: verdicts, monitor counters, input hash, recording.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Outcome of a monitored case: `Err` describes what the monitor saw.
pub type Verdict = Result<(), String>;

#[derive(Default)]
pub struct Ctx {
    /// What the monitors observed, summed over the cases of this worker.
    pub counters: BTreeMap<&'static str, u64>,
    /// Known findings seen: id -> (count, smallest example).
    pub known: BTreeMap<&'static str, (u64, String)>,
    pub hash: u64,
    pub nontrivial: bool,
    /// When set, `input` is rendered.
    pub record: bool,
    pub input: String,
    pub thorough: bool,
    /// Small cases, for an interpreter.
    pub small: bool,
}

thread_local! {
    static LOC: RefCell<String> = RefCell::new(String::new());
    static CASE: std::cell::Cell<u64> = std::cell::Cell::new(u64::MAX);
    static BUDGET: std::cell::Cell<u64> = std::cell::Cell::new(u64::MAX);
}

/// The largest cases come at fixed numbers, so that each run has its share.
pub fn set_case(c: u64) {
    CASE.with(|x| x.set(c));
}
pub fn rare(n: u64) -> bool {
    CASE.with(|c| c.get() != u64::MAX && c.get() % n == 17)
}
/// How many of them came before.
pub fn rare_count(n: u64) -> u64 {
    CASE.with(|c| c.get() / n)
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LOC.with(|l| *l.borrow_mut() = s);
    }));
}
pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    let m = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
    let m: String = m.chars().take(400).collect();
    format!("panic at {}: {}", LOC.with(|l| l.borrow().clone()), m)
}

/// A logger that renders everything, as any logger in use does, and drops it.
struct Sink;
static SINK: Sink = Sink;
thread_local! {
    static LOGGED: std::cell::Cell<(u64, u64)> = std::cell::Cell::new((0, 0));
}
struct Count(u64);
impl std::fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.bytes().filter(|b| *b != b' ').count() as u64;
        Ok(())
    }
}
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let mut c = Count(0);
        let _ = std::fmt::Write::write_fmt(&mut c, *r.args());
        LOGGED.with(|l| l.set((l.get().0 + 1, l.get().1 + c.0)));
    }
    fn flush(&self) {}
}
pub fn install_logger() {
    log::set_logger(&SINK).unwrap();
    log::set_max_level(log::LevelFilter::Off);
}
/// Collect log output of the code under test, or stop.
pub fn logging(on: bool) {
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}
/// Records and bytes since the last call.
pub fn logged() -> (u64, u64) {
    LOGGED.with(|l| l.replace((0, 0)))
}

impl Ctx {
    pub fn begin(&mut self) {
        self.hash = 0xcbf29ce484222325;
        self.nontrivial = false;
        self.input.clear();
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        debug_assert!(k.starts_with("max_"));
        let e = self.counters.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// Feed the case's input into its identity.
    pub fn feed(&mut self, v: u64) {
        let mut z = self.hash ^ v.wrapping_mul(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
        self.hash = z ^ (z >> 32);
    }
    pub fn input(&mut self, f: impl FnOnce() -> String) {
        if self.record {
            if !self.input.is_empty() {
                self.input.push_str(" ; ");
            }
            self.input.push_str(&f());
        }
    }
    pub fn known(&mut self, id: &'static str, what: impl FnOnce() -> String) {
        let e = self.known.entry(id).or_insert_with(|| (0, String::new()));
        if e.0 == 0 {
            e.1 = what();
        }
        e.0 += 1;
    }
}

/// Run the code under test. A panic inside is something the monitor observed;
/// a panic outside of `sut` is a harness error.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| format!("{what}: {}", panic_text(e)))
}

pub fn distinct(hs: &[u64]) -> usize {
    hs.iter().collect::<BTreeSet<_>>().len()
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
