//! Run context: the recorded choice sequence, event log, counters, gates and
//! live-object accounting of one simulated execution.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub enum Source {
    Random(Rng),
    Replay(Vec<u32>),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub struct GateState {
    pub kind: &'static str,
    pub open: bool,
    pub val: u32,
    pub waker: Option<Waker>,
    pub dropped: bool,
    pub at: Option<u64>,
    pub hang: bool,
    /// never waits for anything
    pub at_once: bool,
}

pub type BoxTask = Pin<Box<dyn Future<Output = ()> + Send>>;

pub struct Inner {
    pub source: Source,
    pub pos: usize,
    pub choices: Vec<u32>,
    pub hash: u64,
    pub nev: u64,
    pub trace: Option<Vec<String>>,
    pub violation: Option<Violation>,
    pub counters: BTreeMap<&'static str, u64>,
    pub gates: Vec<GateState>,
    pub live: BTreeMap<&'static str, i64>,
    pub spawn_q: Vec<(String, BoxTask, bool)>,
    pub now: u64,
    pub draining: bool,
    pub next_id: u64,
    pub expect_panic: u32,
    /// per mille of the steps of user code that panic
    pub panics: u32,
    pub nontrivial: bool,
    /// Every choice is also written here (runs that may kill the process).
    pub tee: Option<std::fs::File>,
}
impl Inner {
    fn record(&mut self, v: u32) {
        self.choices.push(v);
        if let Some(f) = &mut self.tee {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
    }
}

/// The state of a run, and whether its tracing subscriber records events.
pub struct Ctx(pub Mutex<Inner>, pub std::sync::atomic::AtomicBool);

thread_local! {
    static CTX: RefCell<Option<Arc<Ctx>>> = const { RefCell::new(None) };
}

pub fn install(c: Option<Arc<Ctx>>) -> Option<Arc<Ctx>> {
    CTX.with(|x| std::mem::replace(&mut *x.borrow_mut(), c))
}
pub fn try_ctx() -> Option<Arc<Ctx>> {
    CTX.try_with(|x| x.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
}
pub fn ctx() -> Arc<Ctx> {
    try_ctx().expect("no simulation context")
}
impl Ctx {
    pub fn new(source: Source, trace: bool) -> Arc<Ctx> {
        Arc::new(Ctx(Mutex::new(Inner {
            source,
            pos: 0,
            choices: Vec::new(),
            hash: 0xcbf29ce484222325,
            nev: 0,
            trace: if trace { Some(Vec::new()) } else { None },
            violation: None,
            counters: BTreeMap::new(),
            gates: Vec::new(),
            live: BTreeMap::new(),
            spawn_q: Vec::new(),
            now: 0,
            draining: false,
            next_id: 0,
            expect_panic: 0,
            panics: 0,
            nontrivial: false,
            tee: None,
        }), Default::default()))
    }
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        match self.0.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }
}

// ---------------------------------------------------------------- choices

/// Draws a value in `0..n`. Zero is the simplest choice.
pub fn choose(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    let c = ctx();
    let mut g = c.lock();
    let v = match &mut g.source {
        Source::Random(r) => (r.next() % n as u64) as u32,
        Source::Replay(_) => {
            let pos = g.pos;
            match &g.source {
                Source::Replay(v) => v.get(pos).copied().unwrap_or(0).min(n - 1),
                _ => unreachable!(),
            }
        }
    };
    g.pos += 1;
    g.record(v);
    v
}

/// True with probability `pct` percent; false is the simplest choice.
pub fn chance(pct: u32) -> bool {
    if pct == 0 {
        return false;
    }
    if pct >= 100 {
        return true;
    }
    // recorded as 0/1 so that shrinking toggles it directly
    let c = ctx();
    let mut g = c.lock();
    let v = match &mut g.source {
        Source::Random(r) => ((r.next() % 100) < pct as u64) as u32,
        Source::Replay(_) => {
            let pos = g.pos;
            match &g.source {
                Source::Replay(v) => v.get(pos).copied().unwrap_or(0).min(1),
                _ => unreachable!(),
            }
        }
    };
    g.pos += 1;
    g.record(v);
    v == 1
}

pub fn range(lo: u64, hi: u64) -> u64 {
    lo + choose((hi - lo + 1) as u32) as u64
}

/// A value in `lo..=hi` during search; a shrunk sequence may lower it to zero.
pub fn range_free(lo: u64, hi: u64) -> u64 {
    let c = ctx();
    let mut g = c.lock();
    let v = match &mut g.source {
        Source::Random(r) => lo + r.next() % (hi - lo + 1),
        Source::Replay(_) => {
            let pos = g.pos;
            match &g.source {
                Source::Replay(v) => (v.get(pos).copied().unwrap_or(0) as u64).min(hi),
                _ => unreachable!(),
            }
        }
    };
    g.pos += 1;
    g.record(v as u32);
    v
}

/// Now and then a run is made much bigger than usual.
pub fn big() -> bool {
    let b = chance(3);
    if b {
        count("probe.big_run");
    }
    b
}

pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[choose(xs.len() as u32) as usize].clone()
}

/// Index drawn with the given weights (recorded as the index).
pub fn weighted(w: &[u32]) -> usize {
    let total: u64 = w.iter().map(|x| *x as u64).sum();
    if total == 0 {
        return 0;
    }
    let c = ctx();
    let mut g = c.lock();
    let v = match &mut g.source {
        Source::Random(r) => {
            let mut x = r.next() % total;
            let mut i = 0;
            for (j, wj) in w.iter().enumerate() {
                if x < *wj as u64 {
                    i = j;
                    break;
                }
                x -= *wj as u64;
            }
            i as u32
        }
        Source::Replay(_) => {
            let pos = g.pos;
            match &g.source {
                Source::Replay(v) => v.get(pos).copied().unwrap_or(0).min(w.len() as u32 - 1),
                _ => unreachable!(),
            }
        }
    };
    // never return a zero-weight alternative
    let mut i = v as usize;
    if w[i] == 0 {
        i = w.iter().position(|x| *x > 0).unwrap_or(0);
    }
    g.pos += 1;
    g.record(i as u32);
    i
}

// ---------------------------------------------------------------- log, counters, violations

pub fn log_str(s: String) {
    let c = ctx();
    let mut g = c.lock();
    let mut h = g.hash;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= 0xff;
    h = h.wrapping_mul(0x100000001b3);
    g.hash = h;
    g.nev += 1;
    let now = g.now;
    if let Some(t) = &mut g.trace {
        t.push(format!("[{now}ms] {s}"));
    }
    let n = g.nev;
    drop(g);
    if n % EVENT_LIMIT == 0 && !std::thread::panicking() {
        violate("endless", format!("the run does not end: {n} events"));
        std::panic::resume_unwind(Box::new(format!("{INJECTED} endless run")));
    }
}
/// More events than any run of a working tree has.
const EVENT_LIMIT: u64 = 500_000;

#[macro_export]
macro_rules! ev {
    ($($t:tt)*) => { $crate::core::log_str(format!($($t)*)) };
}

pub fn count(name: &'static str) {
    *ctx().lock().counters.entry(name).or_insert(0) += 1;
}
pub fn count_n(name: &'static str, n: u64) {
    *ctx().lock().counters.entry(name).or_insert(0) += n;
}
/// Marks the run as non-trivial for the evidence file.
pub fn nontrivial() {
    ctx().lock().nontrivial = true;
}

pub fn violate(class: impl Into<String>, msg: impl Into<String>) {
    if let Some(c) = try_ctx() {
        let class = class.into();
        let msg = msg.into();
        {
            let mut g = c.lock();
            if g.violation.is_some() {
                return;
            }
            g.violation = Some(Violation { class: class.clone(), msg: msg.clone() });
        }
        log_str(format!("!!! VIOLATION {class}: {msg}"));
    }
}
pub fn violated() -> bool {
    ctx().lock().violation.is_some()
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($t:tt)*) => {
        if !$cond { $crate::core::violate($class, format!($($t)*)); }
    };
}

pub fn now() -> u64 {
    ctx().lock().now
}
pub fn draining() -> bool {
    ctx().lock().draining
}
pub fn fresh_id() -> u64 {
    let c = ctx();
    let mut g = c.lock();
    g.next_id += 1;
    g.next_id
}

/// Suppresses the "unexpected panic" violation while `f` runs.
pub fn expecting_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    ctx().lock().expect_panic += 1;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ctx().lock().expect_panic -= 1;
    r.map_err(panic_text)
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub const INJECTED: &str = "INJECTED-PANIC";

/// A step of user code (a closure, a policy, a service between two layers)
/// that may panic, when the scenario wants that.
pub fn boom(what: &'static str) {
    let p = {
        let c = ctx();
        let g = c.lock();
        if g.draining { 0 } else { g.panics }
    };
    if p > 0 && choose(1000) < p && !violated() {
        count("fault.panic_user_code");
        ev!("{what} panics");
        panic!("{} in {what}", INJECTED);
    }
}

/// Global panic hook: any panic that the simulator did not inject is a
/// violation of whatever property is being checked.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        if msg.starts_with(INJECTED) {
            return;
        }
        // (the number of a background task differs from run to run)
        let msg = if msg.contains("JoinError") { msg.chars().filter(|c| !c.is_ascii_digit()).collect() } else { msg };
        let Some(c) = try_ctx() else {
            eprintln!("panic outside a simulation: {msg} at {:?}", info.location());
            return;
        };
        let mut g = match c.0.try_lock() {
            Ok(g) => g,
            Err(_) => {
                eprintln!("panic inside the simulator: {msg} at {:?}", info.location());
                return;
            }
        };
        if g.expect_panic > 0 {
            return;
        }
        let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        // Panics raised by the harness itself are errors of the check.
        let file = loc.rsplit('/').next().unwrap_or("").to_string();
        let class = if loc.starts_with("src/") {
            format!("HARNESS:panic:{file}")
        } else {
            format!("panic:{file}")
        };
        if g.violation.is_none() {
            let m = format!("{msg} at {loc}:{}", info.location().map(|l| l.line()).unwrap_or(0));
            g.violation = Some(Violation { class: class.clone(), msg: m.clone() });
            drop(g);
            log_str(format!("!!! VIOLATION {class}: {m}"));
        }
    }));
}

// ---------------------------------------------------------------- live-object tokens

/// Counts live objects of one kind.
pub struct Token(&'static str, Arc<Ctx>);
impl Token {
    pub fn new(kind: &'static str) -> Token {
        let c = ctx();
        *c.lock().live.entry(kind).or_insert(0) += 1;
        Token(kind, c)
    }
}
impl Clone for Token {
    fn clone(&self) -> Token {
        *self.1.lock().live.entry(self.0).or_insert(0) += 1;
        Token(self.0, self.1.clone())
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        *self.1.lock().live.entry(self.0).or_insert(0) -= 1;
    }
}
pub fn live(kind: &'static str) -> i64 {
    ctx().lock().live.get(kind).copied().unwrap_or(0)
}

// ---------------------------------------------------------------- gates

/// A point at which simulated code waits for the environment.
pub struct Gate {
    ctx: Arc<Ctx>,
    pub id: usize,
}
#[derive(Clone, Copy, Default, Debug)]
pub struct GateMode {
    /// percent: already open
    pub now: u32,
    /// percent: stays closed until faults stop
    pub hang: u32,
    /// opens at a virtual time in this range of delays (ms)
    pub latency: Option<(u64, u64)>,
}
impl Gate {
    pub fn new(kind: &'static str, mode: GateMode, val: u32) -> Gate {
        let drain = draining();
        let mut open = false;
        let mut at = None;
        let mut hang = false;
        if mode.now >= 100 || chance(mode.now) {
            open = true;
        } else if !drain && chance(mode.hang) {
            hang = true;
            count("fault.hang");
        } else if let Some((lo, hi)) = mode.latency {
            at = Some(now() + range(lo, hi));
            if at == Some(now()) {
                open = true;
                at = None;
            }
        }
        let c = ctx();
        let id = {
            let mut g = c.lock();
            g.gates.push(GateState { kind, open, val, waker: None, dropped: false, at, hang, at_once: mode.now >= 100 });
            g.gates.len() - 1
        };
        Gate { ctx: c, id }
    }
    pub fn open_gate(kind: &'static str, val: u32) -> Gate {
        Gate::new(kind, GateMode { now: 100, ..Default::default() }, val)
    }
    pub fn closed(kind: &'static str, val: u32) -> Gate {
        Gate::new(kind, GateMode::default(), val)
    }
    pub fn is_open(&self) -> bool {
        self.ctx.lock().gates[self.id].open
    }
    pub fn poll(&self, cx: &mut Context<'_>) -> Poll<u32> {
        let mut g = self.ctx.lock();
        let s = &mut g.gates[self.id];
        if s.open {
            let val = s.val;
            if s.at_once {
                return Poll::Ready(val);
            }
            drop(g);
            // like tokio's own leaf futures: nothing happens in a task that
            // has used up its cooperative budget
            match tokio::task::coop::poll_proceed(cx) {
                Poll::Ready(p) => p.made_progress(),
                Poll::Pending => return Poll::Pending,
            }
            Poll::Ready(val)
        } else {
            s.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
    pub fn set_val(&self, v: u32) {
        self.ctx.lock().gates[self.id].val = v;
    }
    pub fn open(&self) {
        open_gate(self.id)
    }
}
impl Drop for Gate {
    fn drop(&mut self) {
        let w = {
            let mut g = self.ctx.lock();
            let s = &mut g.gates[self.id];
            s.dropped = true;
            s.waker.take()
        };
        drop(w);
    }
}
impl Future for Gate {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        Gate::poll(&self, cx)
    }
}

pub fn open_gate(id: usize) {
    let c = ctx();
    let (w, kind) = {
        let mut g = c.lock();
        let s = &mut g.gates[id];
        if s.open {
            return;
        }
        s.open = true;
        (s.waker.take(), s.kind)
    };
    log_str(format!("env: gate {id} ({kind}) opens"));
    if let Some(w) = w {
        w.wake();
    }
}

/// Gates the scheduler may open now.
pub fn closed_gates(include_hung: bool) -> Vec<usize> {
    let c = ctx();
    let g = c.lock();
    g.gates
        .iter()
        .enumerate()
        .filter(|(_, s)| !s.open && !s.dropped && s.at.is_none() && (include_hung || !s.hang))
        .map(|(i, _)| i)
        .collect()
}

/// Earliest virtual time at which a latency gate opens.
pub fn next_gate_time() -> Option<u64> {
    let c = ctx();
    let g = c.lock();
    g.gates.iter().filter(|s| !s.open && !s.dropped).filter_map(|s| s.at).min()
}
pub fn due_gates(t: u64) -> Vec<usize> {
    let c = ctx();
    let g = c.lock();
    g.gates
        .iter()
        .enumerate()
        .filter(|(_, s)| !s.open && !s.dropped && s.at.map_or(false, |a| a <= t))
        .map(|(i, _)| i)
        .collect()
}

/// Queues a task for the executor (e.g. a Buffer worker created while a stack
/// is being built).
pub fn spawn_later(name: impl Into<String>, f: impl Future<Output = ()> + Send + 'static) {
    ctx().lock().spawn_q.push((name.into(), Box::pin(f), true));
}
/// Same for tasks that must finish for the run to be complete.
pub fn spawn_user(name: impl Into<String>, f: impl Future<Output = ()> + Send + 'static) {
    ctx().lock().spawn_q.push((name.into(), Box::pin(f), false));
}

/// Logical time: a counter of everything that happened.
pub fn tick() -> u64 {
    let c = ctx();
    let mut g = c.lock();
    g.nev += 1;
    g.nev
}
