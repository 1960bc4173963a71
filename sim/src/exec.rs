//! The simulated executor: tasks, wakers, virtual time, scheduling loop.

use crate::core::*;
use crate::ev;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

pub type TaskId = usize;

thread_local! {
    static COOP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static HOG: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Now and then in runs under the cooperative budget: does so much within one
/// poll that the budget is used up and the task is woken again at once.
pub fn maybe_hog(cx: &mut Context<'_>) {
    if !draining() && chance(HOG.with(|h| h.get())) {
        count("fault.hog");
        hog(cx);
    }
}
/// The scenario says itself which calls keep busy.
pub fn no_random_hogs() {
    HOG.with(|h| h.set(0));
}
pub fn hog(cx: &mut Context<'_>) {
    for _ in 0..=128 {
        match tokio::task::coop::poll_proceed(cx) {
            Poll::Ready(p) => p.made_progress(),
            Poll::Pending => return,
        }
    }
}

pub struct Flag {
    pub woken: AtomicBool,
    gen: AtomicU64,
    pub wakes: AtomicU64,
}
struct GenWaker {
    flag: Arc<Flag>,
    gen: u64,
    any: bool,
}
impl Wake for GenWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if self.any || self.gen == self.flag.gen.load(SeqCst) {
            self.flag.woken.store(true, SeqCst);
            self.flag.wakes.fetch_add(1, SeqCst);
        }
    }
}

/// A waker whose wake-ups can be observed; in fresh mode only the waker handed
/// out last counts.
pub struct WakeSlot {
    pub flag: Arc<Flag>,
    stable: Option<Waker>,
}
impl WakeSlot {
    pub fn new(fresh: bool) -> Self {
        let flag = Arc::new(Flag {
            woken: AtomicBool::new(true),
            gen: AtomicU64::new(0),
            wakes: AtomicU64::new(0),
        });
        let stable = if fresh {
            None
        } else {
            Some(Waker::from(Arc::new(GenWaker { flag: flag.clone(), gen: 0, any: true })))
        };
        WakeSlot { flag, stable }
    }
    /// Clears the wake flag and returns the waker for the next poll.
    pub fn next(&self) -> Waker {
        self.flag.woken.store(false, SeqCst);
        match &self.stable {
            Some(w) => w.clone(),
            None => {
                let gen = self.flag.gen.fetch_add(1, SeqCst) + 1;
                Waker::from(Arc::new(GenWaker { flag: self.flag.clone(), gen, any: false }))
            }
        }
    }
    pub fn woken(&self) -> bool {
        self.flag.woken.load(SeqCst)
    }
    /// One poll.  In runs under the cooperative budget it may be preceded by
    /// one that comes late in its task's turn.
    pub fn poll_once<T>(&self, mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
        if COOP.with(|c| c.get()) && chance(40) {
            count("fault.coop_budget");
            let left = pick(&[0, 1, 2, 3, 5]);
            let w = self.next();
            let r = with_coop_budget(left, || f(&mut Context::from_waker(&w)));
            if r.is_ready() || !self.woken() {
                return r;
            }
        }
        let w = self.next();
        f(&mut Context::from_waker(&w))
    }
    /// Polls until it is ready or waits. Nothing happens between the polls, so
    /// something that keeps waking itself is spinning.
    pub fn poll<T>(&self, what: &str, mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
        for i in 0..40 {
            let w = self.next();
            let mut cx = Context::from_waker(&w);
            let r = if i < 3 && COOP.with(|c| c.get()) && chance(40) {
                // the task did something else before
                count("fault.coop_budget");
                let left = pick(&[0, 1, 2, 3, 5]);
                with_coop_budget(left, || f(&mut cx))
            } else {
                f(&mut cx)
            };
            if r.is_ready() || !self.woken() || violated() {
                return r;
            }
        }
        violate("spin", format!("while it waits for something else, {what} keeps waking its own task"));
        Poll::Pending
    }
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TState {
    Running,
    Done,
    Dropped,
    Panicked,
}

pub struct Task {
    pub name: String,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    slot: WakeSlot,
    pub state: TState,
    pub polls: u64,
    /// Background services (workers) need not finish for a run to be complete.
    pub daemon: bool,
}

/// Runs `f` as part of a task that has `left` units of tokio's cooperative
/// budget left in this poll (a new poll starts with 128).
pub fn with_coop_budget<R>(left: u32, mut f: impl FnMut() -> R) -> R {
    use tokio::task::coop;
    let local = tokio::task::LocalSet::new();
    let mut out = None;
    {
        let mut body = || {
            let mut cx = Context::from_waker(Waker::noop());
            for _ in left..128 {
                match coop::poll_proceed(&mut cx) {
                    Poll::Ready(p) => p.made_progress(),
                    Poll::Pending => break,
                }
            }
            out = Some(catch_unwind(AssertUnwindSafe(&mut f)));
        };
        let body: &mut dyn FnMut() = &mut body;
        // The task below runs within this function or is dropped in it.
        let body: &'static mut dyn FnMut() = unsafe { std::mem::transmute(body) };
        let mut task = Some(body);
        local.spawn_local(std::future::poll_fn(move |_| {
            if let Some(b) = task.take() {
                b();
            }
            Poll::Ready(())
        }));
        let mut local = std::pin::pin!(local);
        let _ = local.as_mut().poll(&mut Context::from_waker(Waker::noop()));
    }
    match out.expect("the local task did not run") {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    }
}

pub struct Sim {
    /// Polls run under tokio's cooperative budget, and some of them with
    /// little of it left (the task did something else first).
    pub coop: bool,
    pub tasks: Vec<Task>,
    rt: tokio::runtime::Runtime,
    pub fresh: bool,
    pub polls: u64,
    pub steps: u64,
    pub poll_budget: u64,
    pub t0: tokio::time::Instant,
    pub check_hook: Option<Box<dyn FnMut()>>,
}

impl Sim {
    pub fn new() -> Sim {
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .build()
            .unwrap();
        let fresh = chance(50);
        let coop = chance(25);
        HOG.with(|h| h.set(0));
        COOP.with(|c| c.set(coop));
        if coop {
            count("mode.coop");
            HOG.with(|h| h.set(pick(&[0, 0, 10, 50])));
        }
        let t0 = {
            let _g = rt.enter();
            tokio::time::Instant::now()
        };
        Sim {
            coop,
            tasks: Vec::new(),
            rt,
            fresh,
            polls: 0,
            steps: 0,
            poll_budget: 50_000,
            t0,
            check_hook: None,
        }
    }

    pub fn enter<R>(&self, f: impl FnOnce() -> R) -> R {
        let _g = self.rt.enter();
        f()
    }
    pub fn handle(&self) -> tokio::runtime::Handle {
        self.rt.handle().clone()
    }

    pub fn spawn(&mut self, name: impl Into<String>, f: impl Future<Output = ()> + 'static) -> TaskId {
        self.spawn_boxed(name.into(), Box::pin(f))
    }
    fn spawn_boxed(&mut self, name: String, fut: Pin<Box<dyn Future<Output = ()>>>) -> TaskId {
        self.tasks.push(Task {
            name,
            fut: Some(fut),
            slot: WakeSlot::new(self.fresh),
            state: TState::Running,
            polls: 0,
            daemon: false,
        });
        self.tasks.len() - 1
    }
    pub fn spawn_daemon(&mut self, name: impl Into<String>, f: impl Future<Output = ()> + 'static) -> TaskId {
        let id = self.spawn(name, f);
        self.tasks[id].daemon = true;
        id
    }
    /// Moves tasks queued with `spawn_later` into the executor (as daemons).
    pub fn absorb(&mut self) -> Vec<TaskId> {
        let q = std::mem::take(&mut ctx().lock().spawn_q);
        let mut ids = Vec::new();
        for (n, f, daemon) in q {
            let id = self.spawn_boxed(n, f);
            self.tasks[id].daemon = daemon;
            ids.push(id);
        }
        ids
    }

    pub fn running(&self, id: TaskId) -> bool {
        self.tasks[id].state == TState::Running
    }
    pub fn woken_tasks(&self) -> Vec<TaskId> {
        (0..self.tasks.len())
            .filter(|i| self.running(*i) && self.tasks[*i].slot.woken())
            .collect()
    }
    pub fn live_tasks(&self) -> Vec<TaskId> {
        (0..self.tasks.len()).filter(|i| self.running(*i)).collect()
    }
    pub fn unfinished(&self) -> Vec<TaskId> {
        (0..self.tasks.len())
            .filter(|i| self.running(*i) && !self.tasks[*i].daemon)
            .collect()
    }
    pub fn all_done(&self) -> bool {
        self.unfinished().is_empty()
    }

    pub fn poll_task(&mut self, id: TaskId) {
        if !self.running(id) || violated() {
            return;
        }
        self.polls += 1;
        if self.polls > self.poll_budget {
            violate("livelock", format!("more than {} polls; last task {}", self.poll_budget, self.tasks[id].name));
            return;
        }
        let t = &mut self.tasks[id];
        t.polls += 1;
        let waker = t.slot.next();
        ev!("poll {}", t.name);
        let mut fut = t.fut.take().unwrap();
        let _g = self.rt.enter();
        let left = if self.coop && chance(if draining() { 10 } else { 40 }) {
            let left = pick(&[0, 1, 2, 3, 5]);
            ev!("cooperative budget {left}");
            count("fault.coop_budget");
            left
        } else {
            128
        };
        let coop = self.coop;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut cx = Context::from_waker(&waker);
            if coop {
                with_coop_budget(left, || fut.as_mut().poll(&mut cx))
            } else {
                fut.as_mut().poll(&mut cx)
            }
        }));
        match r {
            Ok(Poll::Pending) => {
                self.tasks[id].fut = Some(fut);
            }
            Ok(Poll::Ready(())) => {
                ev!("done {}", self.tasks[id].name);
                self.tasks[id].state = TState::Done;
                let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
            }
            Err(_) => {
                ev!("panicked {}", self.tasks[id].name);
                self.tasks[id].state = TState::Panicked;
                let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
            }
        }
        drop(_g);
        self.after();
    }

    fn after(&mut self) {
        self.absorb();
        if let Some(mut h) = self.check_hook.take() {
            if !violated() {
                h();
            }
            self.check_hook = Some(h);
        }
    }

    /// Panics that were injected, wherever they ended up.
    pub fn panics(&self) -> u64 {
        let c = ctx();
        let g = c.lock();
        g.counters.iter().filter(|(k, _)| k.starts_with("fault.panic")).map(|(_, v)| *v).sum()
    }

    /// Drops a task at its current await point (cancellation / crash).
    pub fn drop_task(&mut self, id: TaskId) {
        if !self.running(id) {
            return;
        }
        ev!("drop task {}", self.tasks[id].name);
        self.tasks[id].state = TState::Dropped;
        let fut = self.tasks[id].fut.take();
        let _g = self.rt.enter();
        let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
        drop(_g);
        self.after();
    }

    pub fn now(&self) -> u64 {
        now()
    }

    fn raw_advance(&mut self, ms: u64) {
        self.rt.block_on(async {
            tokio::time::advance(Duration::from_millis(ms)).await;
        });
        let real = self.enter(|| tokio::time::Instant::now().duration_since(self.t0));
        ctx().lock().now = real.as_millis() as u64;
    }

    pub fn raw_advance_ns(&mut self, ns: u64) {
        self.rt.block_on(async {
            tokio::time::advance(Duration::from_nanos(ns)).await;
        });
        ctx().lock().now = self.nanos() / 1_000_000;
    }

    /// Virtual time in nanoseconds.
    pub fn nanos(&self) -> u64 {
        self.enter(|| tokio::time::Instant::now().duration_since(self.t0)).as_nanos() as u64
    }

    /// Moves virtual time on by less than what is left of this millisecond
    /// (latency gates only look at whole milliseconds).
    pub fn advance_ns(&mut self, ns: u64) {
        let left = 999_999 - self.nanos() % 1_000_000;
        if left > 0 {
            let ns = ns.min(left);
            ev!("time +{ns}ns");
            self.raw_advance_ns(ns);
            self.after();
        }
    }

    /// Advances virtual time, opening latency gates at their instants.
    pub fn advance(&mut self, mut ms: u64) {
        let sub = self.nanos() % 1_000_000;
        if sub > 0 && ms > 0 {
            // back to a whole millisecond
            self.raw_advance_ns(1_000_000 - sub);
            ms -= 1;
            for g in due_gates(now()) {
                open_gate(g);
            }
        }
        let target = now() + ms;
        ev!("time +{ms}ms");
        loop {
            let cur = now();
            let next = next_gate_time().filter(|t| *t <= target).unwrap_or(target);
            if next > cur {
                self.raw_advance(next - cur);
            }
            for g in due_gates(now()) {
                open_gate(g);
            }
            if now() >= target {
                break;
            }
            // let woken tasks observe the instant before time moves on?  No:
            // time moving past an event before a task is polled models a slow
            // node; the caller decides how far to advance.
        }
        self.after();
    }

    /// Lets tasks spawned onto the tokio runtime run.
    pub fn background(&mut self) {
        ev!("run background");
        self.rt.block_on(async {
            tokio::task::yield_now().await;
        });
        self.after();
    }

    /// Polls every woken task, and the background, until nothing is woken.
    pub fn settle(&mut self, with_background: bool) {
        for _ in 0..10_000 {
            if violated() {
                return;
            }
            if with_background {
                self.background();
            }
            let w = self.woken_tasks();
            if w.is_empty() {
                if with_background {
                    self.background();
                    if self.woken_tasks().is_empty() {
                        return;
                    }
                    continue;
                }
                return;
            }
            let start = choose(w.len() as u32) as usize;
            for k in 0..w.len() {
                let id = w[(start + k) % w.len()];
                self.poll_task(id);
            }
        }
        violate("livelock", "tasks keep waking each other without progress");
    }
}

#[derive(Clone, Debug)]
pub struct Drive {
    pub steps: u64,
    pub poll: u32,
    pub spurious: u32,
    pub gate: u32,
    pub advance: u32,
    pub background: u32,
    pub custom: u32,
    pub max_adv: u64,
}
impl Drive {
    /// Swarm-style random weights.
    pub fn random(lo: u64, hi: u64) -> Drive {
        Drive {
            steps: range_free(lo, hi),
            poll: pick(&[30, 60, 10]),
            spurious: pick(&[0, 3, 10]),
            gate: pick(&[12, 30, 4]),
            advance: pick(&[0, 3, 10]),
            background: 0,
            custom: pick(&[8, 20, 3]),
            max_adv: pick(&[1, 10, 50]),
        }
    }
}

impl Sim {
    /// The scheduling loop of the faulty phase. `custom` performs one
    /// scenario-specific action (fault, new client, ...) and returns whether
    /// anything was left to do.
    pub fn drive(&mut self, d: &Drive, custom: &mut dyn FnMut(&mut Sim) -> bool) {
        let mut custom_left = true;
        for _ in 0..d.steps {
            if violated() {
                return;
            }
            self.steps += 1;
            self.absorb();
            let woken = self.woken_tasks();
            let gates = closed_gates(false);
            let unf = self.unfinished();
            if !custom_left && unf.is_empty() && woken.is_empty() {
                return;
            }
            let live = self.live_tasks();
            let w = [
                if woken.is_empty() { 0 } else { d.poll },
                if gates.is_empty() { 0 } else { d.gate },
                if custom_left { d.custom } else { 0 },
                d.advance,
                if live.is_empty() { 0 } else { d.spurious },
                d.background,
            ];
            if w.iter().all(|x| *x == 0) {
                return;
            }
            match weighted(&w) {
                0 => {
                    let id = pick(&woken);
                    self.poll_task(id);
                }
                1 => {
                    let g = pick(&gates);
                    open_gate(g);
                    self.after();
                }
                2 => {
                    custom_left = custom(self);
                    self.after();
                }
                3 => {
                    // bias towards the next scheduled environment event
                    let ms = match next_gate_time() {
                        Some(t) if t > now() && chance(60) => t - now(),
                        _ => 1 + choose(d.max_adv as u32) as u64,
                    };
                    self.advance(ms);
                }
                4 => {
                    let id = pick(&live);
                    count("fault.spurious_poll");
                    self.poll_task(id);
                }
                _ => self.background(),
            }
        }
    }

    /// Faults stop: opens all gates, polls only woken tasks and advances time
    /// up to `horizon` ms. Returns the tasks that are still not finished.
    pub fn drain(&mut self, horizon: u64, quantum: u64, background: bool) -> Vec<TaskId> {
        ev!("--- faults stop ---");
        {
            let c = ctx();
            let mut g = c.lock();
            g.draining = true;
            for s in g.gates.iter_mut() {
                s.hang = false;
            }
        }
        let end = now() + horizon;
        let mut rounds = 0;
        loop {
            if violated() {
                return vec![];
            }
            rounds += 1;
            if rounds > 100_000 {
                violate("livelock", "drain does not terminate");
                return vec![];
            }
            self.settle(background);
            if violated() {
                return vec![];
            }
            let gates = closed_gates(true);
            if self.all_done() && gates.is_empty() {
                return vec![];
            }
            if !gates.is_empty() {
                let g = pick(&gates);
                open_gate(g);
                self.after();
                continue;
            }
            if now() >= end {
                return self.unfinished();
            }
            let step = match next_gate_time() {
                Some(t) if t > now() => (t - now()).min(quantum),
                _ => quantum,
            };
            self.advance(step.max(1));
        }
    }

    /// Drains and reports tasks that cannot finish.
    pub fn drain_or_violate(&mut self, class: &str, horizon: u64, quantum: u64, background: bool) {
        let stuck = self.drain(horizon, quantum, background);
        if !stuck.is_empty() {
            let names: Vec<_> = stuck.iter().map(|i| self.tasks[*i].name.clone()).collect();
            violate(
                class,
                format!("after faults stopped and everything they wait for happened, still pending: {names:?}"),
            );
        }
    }

    /// Drops every remaining task (end of run).
    pub fn drop_all(&mut self) {
        for id in 0..self.tasks.len() {
            self.drop_task(id);
        }
    }
}
