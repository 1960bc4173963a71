//! L01-L04: ConcurrencyLimit and RateLimit.

use crate::client::*;
use crate::core::*;
use crate::exec::*;
use crate::runner::{Prop, Scn};
use crate::svc::*;
use crate::{check, ev};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::sync::{OwnedSemaphorePermit, Semaphore};
use tower::limit::{ConcurrencyLimit, GlobalConcurrencyLimitLayer, RateLimit};
use tower_layer::Layer;
use tower_service::Service;

type Cl = ConcurrencyLimit<SimSvc>;

struct Env {
    leaves: Vec<Sh>,
    roots: Vec<Cl>,
    max: Arc<AtomicU64>,
    h: Hist,
    ccfg: CliCfg,
    next: u32,
    left: u64,
    big: bool,
    sem: Option<Arc<Semaphore>>,
    /// The shared semaphore, when others use it as well.
    outside: Option<Outside>,
}

type Acquire = Pin<Box<dyn Future<Output = Result<OwnedSemaphorePermit, tokio::sync::AcquireError>>>>;
/// Whoever else takes slots from the semaphore, or changes their number.
struct Outside {
    sem: Arc<Semaphore>,
    held: Vec<OwnedSemaphorePermit>,
    wait: Vec<Acquire>,
    n: Arc<AtomicU64>,
    max: Arc<AtomicU64>,
}
impl Outside {
    fn act(&mut self) {
        let max = self.max.load(SeqCst);
        match choose(7) {
            0 if max < 1000 => {
                let k = 1 + choose(2);
                ev!("outside: {k} slots more");
                count("fault.slots_added");
                self.max.fetch_add(k as u64, SeqCst);
                self.sem.add_permits(k as usize);
            }
            1 if max > 1 && !self.held.is_empty() => {
                ev!("outside: a slot is gone for good");
                count("fault.slots_removed");
                self.max.fetch_sub(1, SeqCst);
                self.n.fetch_sub(1, SeqCst);
                self.held.pop().unwrap().forget();
            }
            2 | 3 if !self.held.is_empty() => {
                ev!("outside: gives back a slot");
                let i = choose(self.held.len() as u32) as usize;
                self.n.fetch_sub(1, SeqCst);
                drop(self.held.swap_remove(i));
            }
            4 if !self.wait.is_empty() => {
                ev!("outside: stops waiting");
                let i = choose(self.wait.len() as u32) as usize;
                drop(self.wait.swap_remove(i));
            }
            _ => {
                if self.wait.len() < 2 {
                    self.wait.push(Box::pin(self.sem.clone().acquire_owned()));
                }
                let wk = futures_util::task::noop_waker();
                let mut i = 0;
                while i < self.wait.len() {
                    match self.wait[i].as_mut().poll(&mut Context::from_waker(&wk)) {
                        Poll::Ready(r) => {
                            drop(self.wait.swap_remove(i));
                            if let Ok(p) = r {
                                ev!("outside: takes a slot");
                                count("fault.slot_taken");
                                self.n.fetch_add(1, SeqCst);
                                self.held.push(p);
                            }
                        }
                        Poll::Pending => i += 1,
                    }
                }
            }
        }
    }
    /// Nothing is waited for or held any more, and there is a slot.
    fn end(&mut self) {
        self.n.store(0, SeqCst);
        self.held.clear();
        self.wait.clear();
        if self.max.load(SeqCst) == 0 {
            self.max.store(1, SeqCst);
            self.sem.add_permits(1);
        }
    }
}

fn setup(panics: bool) -> Env {
    let big = big();
    let max = if big { 5 + choose(44) as u64 } else { 1 + choose(4) as u64 };
    // far more than there are callers
    let max = if chance(3) { pick(&[256, 257, 65_536, 65_537, 1 << 32, (1 << 32) + 1, Semaphore::MAX_PERMITS as u64]) } else { max };
    let shared_sem = chance(40);
    let mine = chance(30);
    // none at first
    let max = if mine && chance(15) { 0 } else { max };
    let mut cfg = SvcCfg::random(true);
    cfg.ready_err = pick(&[0, 0, 5]);
    if panics {
        cfg.panic_fut = pick(&[0, 20]);
        cfg.panic_call = pick(&[0, 0, 20]);
    }
    let mut leaves = vec![];
    let mut roots = vec![];
    let mut the_sem = None;
    if shared_sem {
        let names = ["a", "b", "c"];
        let n = 2 + choose(2) as usize;
        match choose(3) {
            0 => {
                let sem = Arc::new(Semaphore::new(max as usize));
                the_sem = Some(sem.clone());
                for name in &names[..n] {
                    let l = shared(name, cfg);
                    roots.push(ConcurrencyLimit::with_semaphore(SimSvc::new(&l), sem.clone()));
                    leaves.push(l);
                }
            }
            k => {
                let layer = if k == 1 && !mine {
                    GlobalConcurrencyLimitLayer::new(max as usize)
                } else {
                    let sem = Arc::new(Semaphore::new(max as usize));
                    the_sem = Some(sem.clone());
                    GlobalConcurrencyLimitLayer::with_semaphore(sem)
                };
                for name in &names[..n] {
                    let l = shared(name, cfg);
                    let layer = layer.clone();
                    roots.push(layer.layer(SimSvc::new(&l)));
                    leaves.push(l);
                }
            }
        }
        ev!("{n} services share {max} slots");
    } else {
        let l = shared("a", cfg);
        roots.push(match if mine { 2 } else { choose(3) } {
            0 => ConcurrencyLimit::new(SimSvc::new(&l), max as usize),
            1 => tower::limit::ConcurrencyLimitLayer::new(max as usize).layer(SimSvc::new(&l)),
            _ => {
                let sem = Arc::new(Semaphore::new(max as usize));
                the_sem = Some(sem.clone());
                ConcurrencyLimit::with_semaphore(SimSvc::new(&l), sem)
            }
        });
        leaves.push(l);
        ev!("max {max}");
    }
    let mut ccfg = CliCfg::random();
    ccfg.strict_ready = true;
    let max = Arc::new(AtomicU64::new(max));
    let outside = the_sem.clone().filter(|_| mine).map(|sem| Outside { sem, held: vec![], wait: vec![], n: Default::default(), max: max.clone() });
    Env { outside, leaves, roots, max, h: hist(), ccfg, next: 0, left: if big { 20 + choose(60) as u64 } else { 2 + choose(6) as u64 }, big, sem: the_sem }
}

impl Env {
    fn add(&mut self, sim: &mut Sim) -> bool {
        if self.left == 0 {
            return false;
        }
        self.left -= 1;
        self.next += 1;
        let c = self.next;
        let i = choose(self.roots.len() as u32) as usize;
        let svc = split(&mut self.roots[i]);
        let mut cc = self.ccfg;
        cc.reqs = 1 + choose(4) as u64;
        sim.spawn(format!("client{c}"), client(self.h.clone(), c, svc, Some(|b: &Cl| b.clone()), cc));
        true
    }
    fn taken(&self) -> Arc<AtomicU64> {
        self.outside.as_ref().map(|o| o.n.clone()).unwrap_or_default()
    }
    fn hook(&self, sim: &mut Sim) {
        if let Some(sem) = &self.sem {
            let weak: Vec<_> = self.leaves.iter().map(Arc::downgrade).collect();
            let (sem, max, n) = (sem.clone(), self.max.clone(), self.taken());
            let f: Arc<dyn Fn() + Send + Sync> = Arc::new(move || {
                let inflight: u64 = weak.iter().filter_map(|l| l.upgrade()).map(|l| lock(&l.leaf).inflight).sum();
                let free = sem.available_permits() as u64;
                count("probe.free_at_drop");
                let max = max.load(SeqCst);
                check!(inflight + free + n.load(SeqCst) <= max, "limit-exceeded", "{free} slots are free while {inflight} response futures exist; the maximum is {max}");
            });
            for l in &self.leaves {
                *lock(&l.at_drop) = Some(f.clone());
            }
        }
        let (leaves, h, max, n) = (self.leaves.clone(), self.h.clone(), self.max.clone(), self.taken());
        sim.check_hook = Some(Box::new(move || {
            let inflight: u64 = leaves.iter().map(|l| lock(&l.leaf).inflight).sum();
            let held = lock(&h).held.max(0) as u64 + n.load(SeqCst);
            let max = max.load(SeqCst);
            check!(
                inflight + held <= max,
                "limit-exceeded",
                "{inflight} responses in flight and {held} held slots exceed the maximum {max}"
            );
            if inflight + held == max {
                count("probe.at_limit");
            }
        }));
    }
    fn run(&mut self, sim: &mut Sim) {
        self.hook(sim);
        self.add(sim);
        let d = if self.big { Drive::random(200, 600) } else { Drive::random(40, 200) };
        let faults = pick(&[0, 10, 40]);
        sim.drive(&d, &mut |sim| {
            if let Some(o) = &mut self.outside {
                if chance(40) {
                    o.act();
                    return true;
                }
            }
            if chance(faults) {
                cancel_random(sim);
                return true;
            }
            self.add(sim)
        });
        while self.add(sim) {}
        if let Some(o) = &mut self.outside {
            o.end();
        }
        sim.drain_or_violate("stuck", 1000, 50, false);
    }
    fn outcomes(&self) {
        let h = lock(&self.h);
        let mut n = 0;
        for r in &h.recs {
            let mut total = 0;
            for l in &self.leaves {
                let l = lock(&l.leaf);
                if l.calls.iter().any(|c| c.req == r.req) {
                    total += 1;
                    check_outcome(&l, r);
                }
            }
            n += total;
            match &r.out {
                Some(Out::Ok { .. }) | Some(Out::Dropped) => {}
                Some(Out::Err(ErrK::Sim(_))) => {}
                o => violate("limit-became-error", format!("req#{} ended with {o:?}", r.req)),
            }
        }
        for (c, k, _, _) in &h.ready_errs {
            check!(matches!(k, ErrK::Sim(e) if e.kind == "ready-err"), "limit-became-error", "client {c}: poll_ready failed with {k:?}");
        }
        drop(h);
        if n >= 3 {
            nontrivial();
        }
    }
    /// After everything ended exactly `max` slots must be available, and a
    /// waiter must be woken when one of them is returned.
    fn capacity_probe(&mut self) {
        ev!("capacity probe");
        let max = self.max.load(SeqCst);
        for l in &self.leaves {
            let mut c = lock(&l.cfg);
            *c = SvcCfg::fast();
        }
        let fresh: Vec<usize> = (0..self.roots.len()).collect();
        let mut hs: Vec<(Cl, WakeSlot)> = vec![];
        // roots themselves may be waiting on failed leaves; use fresh clones
        let most = (max + 2).min(if max > 300 { 20 } else { 400 });
        for _ in 0..most {
            let i = pick(&fresh);
            hs.push((self.roots[i].clone(), WakeSlot::new(true)));
        }
        let mut ready = vec![];
        let mut pend = vec![];
        for (i, (s, w)) in hs.iter_mut().enumerate() {
            let wk = w.next();
            match s.poll_ready(&mut Context::from_waker(&wk)) {
                Poll::Ready(Ok(())) => ready.push(i),
                Poll::Pending => pend.push(i),
                Poll::Ready(Err(e)) => violate("limit-became-error", format!("{e}")),
            }
        }
        check!(
            ready.len() as u64 == max.min(most),
            "capacity-changed",
            "after all requests ended {} of {max} slots are available",
            ready.len()
        );
        if violated() || pend.is_empty() {
            return;
        }
        // hand one slot over
        let r = pick(&ready);
        let how = choose(3);
        match how {
            0 => {
                ev!("drop ready handle {r}");
                let l = self.leaves[0].clone();
                hs[r].0 = ConcurrencyLimit::new(SimSvc::new(&l), 1);
            }
            1 => {
                ev!("call and drop the response future on {r}");
                let f = hs[r].0.call(Req::new(fresh_id()));
                drop(f);
            }
            _ => {
                ev!("call and complete on {r}");
                let f = hs[r].0.call(Req::new(fresh_id()));
                let mut f = Box::pin(f);
                let w = WakeSlot::new(true);
                let wk = w.next();
                let p = std::future::Future::poll(f.as_mut(), &mut Context::from_waker(&wk));
                check!(p.is_ready(), "stuck", "an immediately available response was not returned");
            }
        }
        let woken: Vec<usize> = pend.iter().copied().filter(|i| hs[*i].1.woken()).collect();
        check!(!woken.is_empty(), "waiter-not-woken", "a slot was returned but no waiting handle was woken");
        for i in woken {
            let wk = hs[i].1.next();
            let p = hs[i].0.poll_ready(&mut Context::from_waker(&wk));
            check!(matches!(p, Poll::Ready(Ok(()))), "waiter-not-woken", "a woken handle did not get the returned slot");
        }
    }
}

fn l01(sim: &mut Sim) {
    let mut e = setup(false);
    e.run(sim);
    if violated() {
        return;
    }
    e.outcomes();
}

fn l02(sim: &mut Sim) {
    let mut e = setup(true);
    e.sem = None;
    e.ccfg.linger = pick(&[0, 50]);
    e.ccfg.drop_fut = pick(&[0, 30]);
    e.run(sim);
    if violated() {
        return;
    }
    let panicked = sim.tasks.iter().any(|t| t.state == TState::Panicked);
    if panicked {
        count("probe.task_panicked");
    }
    e.outcomes();
    if !violated() {
        sim.check_hook = None;
        e.capacity_probe();
    }
}

// ---------------------------------------------------------------- rate limit

/// Calls at `ts` (microseconds, sorted) must split into consecutive half-open
/// windows of at least `per`, the first not before `created`, at most `n` in
/// each.
pub fn rate_partition_ok(ts: &[u64], n: usize, per: u64, created: u64) -> bool {
    if ts.is_empty() {
        return true;
    }
    // f[i]: earliest start of a window whose first call is i
    let mut f: Vec<Option<u64>> = vec![None; ts.len()];
    f[0] = Some(created);
    for i in 1..ts.len() {
        let lo = i.saturating_sub(n);
        let mut best: Option<u64> = None;
        for j in lo..i {
            if let Some(fj) = f[j] {
                let s = (fj + per).max(ts[i - 1] + 1);
                if s <= ts[i] {
                    best = Some(best.map_or(s, |b: u64| b.min(s)));
                }
            }
        }
        f[i] = best;
    }
    let lo = ts.len().saturating_sub(n);
    (lo..ts.len()).any(|j| f[j].is_some())
}

fn rate(sim: &mut Sim, strict_inner: bool) {
    let many = big();
    let n = if many { 5 + choose(60) as u64 } else { 1 + choose(4) as u64 };
    let n = if chance(2) { pick(&[256, 257, 65_536, 65_537, 1 << 32, (1 << 32) + 1, u64::MAX]) } else { n };
    let per_us: u64 = match choose(4) {
        0 => 1000 * (1 + choose(30) as u64),
        1 => 1000 * (1 + choose(200) as u64),
        2 => 1500 + 250 * choose(40) as u64,
        _ => 1_000_000,
    };
    // hours, weeks, years, and "n calls, ever"
    const DAY: u64 = 86_400_000_000;
    const FOREVER: u64 = 1 << 60;
    let per_us = if chance(3) { pick(&[3_600_000_000, DAY, 50 * DAY, 400 * DAY, 14_600 * DAY, FOREVER]) } else { per_us };
    let forever = per_us == FOREVER;
    let per = if forever { pick(&[Duration::MAX, Duration::from_secs(u64::MAX / 2)]) } else { Duration::from_micros(per_us) };
    // (no run lasts as long as a period without an end)
    let per_ms = if forever { 100_000 } else { per_us / 1000 + 1 };
    let mut cfg = if strict_inner || chance(50) { SvcCfg::fast() } else { SvcCfg::random(false) };
    cfg.resp = GateMode { now: 100, ..Default::default() };
    let always = cfg.ready.now == 100;
    let leaf = shared("inner", cfg);
    let layer = tower::limit::RateLimitLayer::new(n, per);
    let _sibling;
    if chance(20) {
        // not the first service the layer builds
        _sibling = layer.layer(SimSvc::new(&leaf));
        sim.advance(1 + choose(40) as u64);
    }
    let created = now() * 1000;
    let mut rl = if chance(30) {
        layer.layer(SimSvc::new(&leaf))
    } else if chance(50) {
        tower::ServiceBuilder::new().rate_limit(n, per).service(SimSvc::new(&leaf))
    } else {
        RateLimit::new(SimSvc::new(&leaf), tower::limit::rate::Rate::new(n, per))
    };
    ev!("{n} calls per {per_us} us");
    let slot = WakeSlot::new(sim.fresh);
    let mut last_ready = false;
    let mut calls: Vec<u64> = vec![];
    // deadline (us) by which a rate-limited Pending must turn into a wake-up
    let mut pending_since: Option<u64> = None;
    let mut was_limited = 0u64;
    let ops = if many { range_free(100, 600) } else { range_free(20, 120) };
    let w = [
        pick(&[10, 30]),
        pick(&[10, 20]),
        pick(&[3, 10, 20]),
        5,
    ];
    let only_wake = chance(40);
    let mut first = true;
    for _ in 0..ops {
        if violated() {
            return;
        }
        // (the simulated clock is good for 584 years)
        if now() > 100_000 * DAY / 1000 {
            break;
        }
        match weighted(&w) {
            0 => {
                if only_wake && !slot.woken() && !first && !last_ready {
                    continue;
                }
                first = false;
                let polls0 = lock(&leaf.leaf).ready_polls;
                let r = slot.poll_once(|cx| rl.poll_ready(cx));
                let inner_polled = lock(&leaf.leaf).ready_polls > polls0;
                let t = now() * 1000;
                ev!("poll_ready -> {}", if r.is_pending() { "pending" } else { "ready" });
                match r {
                    Poll::Ready(Ok(())) => {
                        last_ready = true;
                        pending_since = None;
                    }
                    Poll::Ready(Err(e)) => violate("limit-became-error", format!("{e}")),
                    Poll::Pending => {
                        if last_ready && always {
                            violate("readiness-withdrawn", "ready turned into pending without a call".to_string());
                        }
                        last_ready = false;
                        pending_since = Some(t);
                        if always || !inner_polled {
                            was_limited += 1;
                            let recent = calls.iter().filter(|c| **c + per_us + 1000 > t).count() as u64;
                            check!(
                                recent >= n,
                                "limited-too-long",
                                "pending at {t} us although only {recent} of {n} calls happened in the last {per_us} us (calls {:?})",
                                &calls[calls.len().saturating_sub(8)..]
                            );
                        }
                    }
                }
            }
            1 => {
                if last_ready {
                    last_ready = false;
                    let t = now() * 1000;
                    let f = rl.call(Req::new(fresh_id()));
                    drop(f);
                    calls.push(t);
                    check!(
                        lock(&leaf.leaf).calls.len() == calls.len(),
                        "lost-request",
                        "the call did not reach the inner service"
                    );
                    check!(
                        rate_partition_ok(&calls, n as usize, per_us, created),
                        "rate-exceeded",
                        "calls at {:?} us cannot be split into windows of {per_us} us with at most {n} calls",
                        &calls[calls.len().saturating_sub(16)..]
                    );
                }
            }
            2 => {
                let ms = match choose(4) {
                    0 => 1,
                    1 => 1 + choose(per_ms.min(50) as u32) as u64,
                    2 => per_ms,
                    _ => match calls.last() {
                        // just around the end of a window
                        Some(_) if forever => 1_000_000,
                        Some(c) => ((c + per_us) / 1000 + choose(3) as u64).saturating_sub(now() + 1),
                        None => per_ms * 3,
                    },
                };
                sim.advance(ms);
            }
            _ => {
                let g = closed_gates(true);
                if !g.is_empty() {
                    open_gate(pick(&g));
                }
            }
        }
        // wake-up deadline
        if let (Some(_), true) = (pending_since, always) {
            let t = now() * 1000;
            if calls.len() as u64 >= n {
                let oldest = calls[calls.len() - n as usize];
                if t >= oldest + per_us + 1000 && !slot.woken() {
                    violate(
                        "not-woken",
                        format!("the window of the last {n} calls (first at {oldest} us) ended, but the waiting caller was not woken by {t} us"),
                    );
                }
            }
        }
    }
    if forever {
        if was_limited > 0 {
            nontrivial();
            count("probe.limited_forever");
        }
        return;
    }
    // finish: must become usable again on wake-ups alone
    ctx().lock().draining = true;
    for _ in 0..4 {
        for g in closed_gates(true) {
            open_gate(g);
        }
        if last_ready {
            break;
        }
        if slot.woken() || first {
            let wk = slot.next();
            if let Poll::Ready(Ok(())) = rl.poll_ready(&mut Context::from_waker(&wk)) {
                last_ready = true;
                break;
            }
        }
        for g in closed_gates(true) {
            open_gate(g);
        }
        if !slot.woken() {
            sim.advance(per_ms + 1);
        }
    }
    if !violated() && !last_ready {
        // one more poll may be needed when the last event was a call
        let wk = slot.next();
        let mut r = rl.poll_ready(&mut Context::from_waker(&wk));
        for g in closed_gates(true) {
            open_gate(g);
        }
        if r.is_pending() {
            sim.advance(per_ms + 1);
            for g in closed_gates(true) {
                open_gate(g);
            }
            check!(slot.woken(), "not-woken", "no wake-up within a full period after the last call");
            r = rl.poll_ready(&mut Context::from_waker(&wk));
            for g in closed_gates(true) {
                open_gate(g);
            }
            if r.is_pending() {
                r = rl.poll_ready(&mut Context::from_waker(&wk));
            }
        }
        check!(matches!(r, Poll::Ready(Ok(()))), "wedged", "the rate limit never becomes ready again");
    }
    if was_limited > 0 {
        nontrivial();
        count_n("probe.limited_polls", was_limited);
    }
}

fn l03(sim: &mut Sim) {
    rate(sim, false)
}
fn l04(sim: &mut Sim) {
    rate(sim, true)
}

pub fn props() -> Vec<Prop> {
    let real = "tower::limit::concurrency (service, future, layers), tokio Semaphore, tokio-util PollSemaphore";
    let rreal = "tower::limit::rate, tokio Sleep under a paused clock";
    let stub = "inner services, callers, executor and clock";
    vec![
        Prop { id: "L01", quick: 250_000, scns: vec![Scn { name: "limit", weight: 1, run: l01 }], rule: "at least three requests were dispatched", real, stub },
        Prop { id: "L02", quick: 250_000, scns: vec![Scn { name: "slots", weight: 1, run: l02 }], rule: "at least three requests were dispatched", real, stub },
        Prop { id: "L03", quick: 250_000, scns: vec![Scn { name: "rate", weight: 1, run: l03 }], rule: "the limit held back at least one poll", real: rreal, stub },
        Prop { id: "L04", quick: 250_000, scns: vec![Scn { name: "rate-wait", weight: 3, run: l04 }, Scn { name: "rate-wait-mixed", weight: 1, run: l03 }], rule: "the limit held back at least one poll", real: rreal, stub },
    ]
}
