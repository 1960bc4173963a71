//! Scenarios with simulated threads: R03, and the thread parts of B02 and W02.

use crate::client::*;
use crate::core::*;
use crate::exec::*;
use crate::runner::{Prop, Scn};
use crate::svc::*;
use crate::threads::*;
use crate::{check, ev};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tower::buffer::Buffer;
use tower::load::{CompleteOnResponse, Load, PeakEwma};
use tower::retry::budget::{Budget, TpsBudget};
use tower_service::Service;

// ---------------------------------------------------------------- R03

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Deposit,
    Granted,
    Refused,
}
#[derive(Clone, Debug)]
struct Op {
    thread: usize,
    k: K,
    inv: u64,
    resp: u64,
}

/// Is there an order of the operations, consistent with which ended before
/// which began, in which a balance of `b` explains every result?
fn explained(ops: &[Op], b: i64, d: i64, w: i64) -> Option<Vec<usize>> {
    fn go(ops: &[Op], done: u32, b: i64, d: i64, w: i64, seen: &mut std::collections::HashSet<u32>, order: &mut Vec<usize>) -> bool {
        if done == (1u32 << ops.len()) - 1 {
            return true;
        }
        // the balance is a function of the set of operations done
        if !seen.insert(done) {
            return false;
        }
        let first = (0..ops.len()).filter(|i| done & (1 << i) == 0).map(|i| ops[i].resp).min().unwrap();
        for i in 0..ops.len() {
            if done & (1 << i) != 0 || ops[i].inv > first {
                continue;
            }
            let nb = match ops[i].k {
                K::Deposit => b + d,
                K::Granted if b >= w => b - w,
                K::Refused if b < w => b,
                _ => continue,
            };
            order.push(i);
            if go(ops, done | (1 << i), nb, d, w, seen, order) {
                return true;
            }
            order.pop();
        }
        false
    }
    let mut order = vec![];
    go(ops, 0, b, d, w, &mut Default::default(), &mut order).then_some(order)
}

/// The exact balance of a budget in units of `d`, found by using it up.
fn measure(b: &TpsBudget, d: i64, w: i64) -> i64 {
    let mut q = 0;
    while b.withdraw() {
        q += 1;
        if q > 400 {
            return i64::MAX / 2;
        }
    }
    if d == 0 || d >= w {
        return q * w;
    }
    let mut j = 0;
    loop {
        j += 1;
        b.deposit();
        if b.withdraw() || j > 400 {
            break;
        }
    }
    q * w + w - j * d
}

fn r03(sim: &mut Sim) {
    // amounts in units of a deposit (or of a withdrawal above 100%)
    let (pct, d, w) = pick(&[(1.0f32, 1i64, 1i64), (0.5, 1, 2), (0.2, 1, 5), (2.0, 2, 1), (3.0, 3, 1), (0.0, 0, 1)]);
    let reserve = pick(&[0u32, 1, 2]);
    let rounds = 1 + choose(3) as usize;
    let mk = || TpsBudget::new(Duration::from_secs(1), reserve, pct);
    let real = Arc::new(mk());
    // the same history applied one operation at a time
    let twins: Vec<TpsBudget> = (0..=rounds).map(|_| mk()).collect();
    ev!("budget {pct} reserve {reserve}");
    let mut conc = false;
    for round in 0..rounds {
        // a little sequential history
        let pre = range_free(0, 6);
        for _ in 0..pre {
            if chance(70) {
                real.deposit();
                twins[round..].iter().for_each(|t| t.deposit());
            } else {
                let r = real.withdraw();
                for t in &twins[round..] {
                    check!(t.withdraw() == r, "balance-diverged", "a withdrawal after the threads was {r}, but differs without concurrency");
                }
            }
        }
        if violated() {
            return;
        }
        let ms = pick(&[0u64, 50, 100, 120, 250, 1100]);
        if ms > 0 {
            sim.advance(ms);
        }
        let bal = measure(&twins[round], d, w);
        let n = 2 + choose(2) as usize;
        let log: Arc<Mutex<Vec<Op>>> = Default::default();
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for t in 0..n {
            let k = 1 + choose(3);
            let plan: Vec<bool> = (0..k).map(|_| chance(40)).collect();
            let (real, log) = (real.clone(), log.clone());
            bodies.push(Box::new(move || {
                for dep in plan {
                    switch(false);
                    let inv = tick();
                    let k = if dep {
                        real.deposit();
                        K::Deposit
                    } else if real.withdraw() {
                        K::Granted
                    } else {
                        K::Refused
                    };
                    let resp = tick();
                    ev!("thread {t}: {k:?}");
                    lock(&log).push(Op { thread: t, k, inv, resp });
                }
            }));
        }
        ev!("round {round}: balance {bal}, {n} threads");
        run_threads(&sim.handle(), bodies);
        if violated() {
            return;
        }
        let ops = lock(&log).clone();
        for (i, a) in ops.iter().enumerate() {
            conc |= ops[..i].iter().any(|b| a.thread != b.thread && a.inv < b.resp && b.inv < a.resp);
        }
        let grants = ops.iter().filter(|o| o.k == K::Granted).count() as i64;
        let deps = ops.iter().filter(|o| o.k == K::Deposit).count() as i64;
        check!(grants == 0 || grants * w <= bal + deps * d, "overdraft", "{grants} retries granted at {w} each from a balance of {bal} and {deps} deposits of {d}");
        let order = explained(&ops, bal, d, w);
        check!(order.is_some(), "not-linearizable", "no order of {ops:?} explains the results from a balance of {bal} (deposit {d}, withdrawal {w})");
        if violated() {
            return;
        }
        for t in &twins[round + 1..] {
            for i in order.iter().flatten() {
                match ops[*i].k {
                    K::Deposit => t.deposit(),
                    k => check!(t.withdraw() == (k == K::Granted), "balance-diverged", "{ops:?} in the order {order:?} is answered differently without concurrency"),
                }
            }
        }
        count_n("probe.granted", grants as u64);
        count_n("probe.refused", ops.iter().filter(|o| o.k == K::Refused).count() as u64);
    }
    // nothing was lost
    let ms = pick(&[0u64, 90, 300, 950, 1200]);
    if ms > 0 {
        sim.advance(ms);
    }
    let (a, b) = (measure(&real, d, w), measure(&twins[rounds], d, w));
    check!(a == b, "balance-diverged", "after the threads the balance is {a}; the same operations one at a time leave {b}");
    if conc {
        nontrivial();
    }
}

// ---------------------------------------------------------------- B02

struct Flight<S, F> {
    svc: Option<S>,
    slot: WakeSlot,
    fut: Option<Pin<Box<F>>>,
    req: u64,
    client: usize,
    left: u32,
    /// % of response futures dropped
    cancel: u32,
}
type Buf = Buffer<Req, SimFut>;
type BufFut = <Buf as Service<Req>>::Future;
struct BLog {
    /// (client, request or 0, outcome, tick)
    out: Vec<(usize, u64, Out, u64)>,
    sent: Vec<u64>,
    /// request, ticks before and after the call
    span: Vec<(u64, u64, u64)>,
    dropped: Vec<u64>,
}
impl Flight<Buf, BufFut> {
    /// Goes as far as possible; true once nothing is left to do.
    fn step(&mut self, log: &Arc<Mutex<BLog>>) -> bool {
        let w = self.slot.next();
        let mut cx = Context::from_waker(&w);
        loop {
            if self.fut.is_some() && self.cancel > 0 && chance(self.cancel) {
                ev!("client {} drops the response of req#{}", self.client, self.req);
                count("fault.drop_future");
                self.fut = None;
                lock(log).dropped.push(self.req);
                switch(false);
            }
            if let Some(f) = self.fut.as_mut() {
                match f.as_mut().poll(&mut cx) {
                    Poll::Pending => return false,
                    Poll::Ready(r) => {
                        self.fut = None;
                        let o = out_of(r);
                        ev!("client {} req#{} -> {o:?}", self.client, self.req);
                        let t = tick();
                        lock(log).out.push((self.client, self.req, o, t));
                        switch(false);
                        continue;
                    }
                }
            }
            if self.left == 0 {
                self.svc = None;
                return true;
            }
            let Some(s) = self.svc.as_mut() else { return true };
            match s.poll_ready(&mut cx) {
                Poll::Pending => return false,
                Poll::Ready(Err(e)) => {
                    let k = classify(&e);
                    ev!("client {} readiness error {k:?}", self.client);
                    let t = tick();
                    lock(log).out.push((self.client, 0, Out::Err(k), t));
                    self.left -= 1;
                    let c = s.clone();
                    self.svc = Some(c);
                    switch(false);
                }
                Poll::Ready(Ok(())) => {
                    switch(false);
                    self.left -= 1;
                    self.req = fresh_id();
                    ev!("client {} calls with req#{}", self.client, self.req);
                    lock(log).sent.push(self.req);
                    let t0 = tick();
                    let f = s.call(Req::new(self.req));
                    let t1 = tick();
                    lock(log).span.push((self.req, t0, t1));
                    self.fut = Some(Box::pin(f));
                    switch(false);
                }
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum BMode {
    /// nothing fails: order, bound, cancellation
    Live,
    /// the service fails
    Fail,
    /// the worker is dropped
    Kill,
}

fn buffer_threads(sim: &mut Sim, mode: BMode) {
    let ready_err = match mode {
        BMode::Live => 0,
        BMode::Fail => pick(&[20, 50, 100]),
        BMode::Kill => pick(&[0, 0, 20]),
    };
    let cfg = SvcCfg { ready: GateMode { now: 100, ..Default::default() }, ready_err, resp: GateMode { now: 100, ..Default::default() }, ..Default::default() };
    let leaf = shared("inner", cfg);
    let bound = 1 + choose(3) as usize;
    let (b, w) = Buffer::pair(SimSvc::new(&leaf), bound);
    let log = Arc::new(Mutex::new(BLog { out: vec![], sent: vec![], span: vec![], dropped: vec![] }));
    let fresh = chance(50);
    let n = 2 + choose(2) as usize;
    let cancel = if mode != BMode::Kill { pick(&[0, 0, 20]) } else { 0 };
    let clients: Vec<_> = (0..n)
        .map(|i| {
            Arc::new(Mutex::new(Flight { svc: Some(b.clone()), slot: WakeSlot::new(fresh), fut: None, req: 0, client: i, left: 1 + choose(3), cancel }))
        })
        .collect();
    let probe = b.clone();
    drop(b);
    type WorkerSt = Arc<Mutex<(Option<Pin<Box<dyn Future<Output = ()> + Send>>>, WakeSlot)>>;
    let worker: WorkerSt = Arc::new(Mutex::new((Some(Box::pin(w)), WakeSlot::new(fresh))));
    fn step(worker: &WorkerSt) {
        // taken out, so that no lock of the harness is held across a switch
        let (mut f, waker) = {
            let mut g = lock(worker);
            let w = g.1.next();
            (g.0.take(), w)
        };
        let mut cx = Context::from_waker(&waker);
        if let Some(x) = f.as_mut() {
            if x.as_mut().poll(&mut cx).is_ready() {
                ev!("worker ends");
                f = None;
            }
        }
        lock(worker).0 = f;
    }
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    {
        let (worker, polls) = (worker.clone(), if mode == BMode::Kill { choose(5) } else { 1 + choose(6) });
        bodies.push(Box::new(move || {
            for _ in 0..polls {
                switch(false);
                ev!("worker poll");
                step(&worker);
            }
            if mode == BMode::Kill {
                switch(false);
                let f = lock(&worker).0.take();
                if f.is_some() {
                    ev!("worker killed");
                    count("fault.worker_killed");
                }
                drop(f);
            }
        }));
    }
    for c in &clients {
        let (c, log, polls) = (c.clone(), log.clone(), 1 + choose(5));
        bodies.push(Box::new(move || {
            // only this thread uses the flight while the threads run
            let mut f = lock(&c);
            for _ in 0..polls {
                switch(false);
                if f.step(&log) {
                    break;
                }
            }
        }));
    }
    run_threads(&sim.handle(), bodies);
    if violated() {
        return;
    }
    // afterwards everything is polled only when woken, by one thread
    for _ in 0..1000 {
        let mut any = false;
        if lock(&worker).1.woken() && lock(&worker).0.is_some() {
            any = true;
            step(&worker);
        }
        for c in &clients {
            let mut f = lock(c);
            if f.slot.woken() && (f.fut.is_some() || f.left > 0) {
                any = true;
                f.step(&log);
            }
        }
        if !any || violated() {
            break;
        }
    }
    let fail = lock(&leaf.leaf).failed.clone();
    let killed = mode == BMode::Kill;
    for c in &clients {
        let f = lock(c);
        check!(f.fut.is_none() && f.left == 0, "stuck", "client {} still waits (request in flight: {}, calls left: {}) although nothing is left to wake it; service failure {fail:?}", f.client, f.fut.is_some(), f.left);
    }
    if violated() {
        return;
    }
    let l = lock(&leaf.leaf);
    let g = lock(&log);
    let mut early = 0;
    for (c, req, o, _) in &g.out {
        let calls: Vec<_> = l.calls.iter().filter(|x| x.req == *req).collect();
        check!(calls.len() <= 1, "duplicate-dispatch", "req#{req} was dispatched {} times", calls.len());
        match (o, &fail) {
            (Out::Ok { req: r, .. }, _) => {
                early += 1;
                check!(r == req && calls.len() == 1, "swapped-response", "req#{req} got {o:?}")
            }
            (Out::Err(ErrK::Buffered(x)), Some(f)) => {
                check!(x == f, "wrong-error", "client {c} req#{req} failed with {x:?} instead of {f:?}");
                check!(calls.is_empty(), "outcome-replaced", "req#{req} was dispatched but failed with {x:?}");
            }
            (Out::Err(ErrK::BufferClosed), _) if killed => {
                check!(calls.is_empty(), "outcome-replaced", "req#{req} was dispatched but failed because the buffer closed");
            }
            (o, f) => violate("wrong-error", format!("client {c} req#{req} (0: readiness) ended with {o:?}; service failure {f:?}")),
        }
    }
    for r in &g.sent {
        let n = g.out.iter().filter(|o| o.1 == *r).count();
        check!(n + g.dropped.contains(r) as usize == 1, "lost-request", "req#{r} has {n} outcomes");
    }
    // dispatched in the order accepted, as far as the calls did not overlap
    let span = |r: u64| g.span.iter().find(|s| s.0 == r).copied().unwrap_or_default();
    for (i, x) in l.calls.iter().enumerate() {
        for y in &l.calls[i + 1..] {
            let (a, b) = (span(x.req), span(y.req));
            check!(b.2 > a.1, "reordered", "req#{} was dispatched after req#{}, whose call began only when the former had been accepted", y.req, x.req);
        }
    }
    for (r, _, t1) in &g.span {
        // accepted for sure but not dispatched, at that moment
        let queued = g.span.iter().filter(|s| s.2 <= *t1 && !l.calls.iter().any(|c| c.req == s.0 && c.tick <= *t1) && !g.out.iter().any(|o| o.1 == s.0 && o.3 <= *t1) && !g.dropped.contains(&s.0)).count();
        check!(queued <= bound + 1, "bound-exceeded", "{queued} requests wait in a buffer of {bound} after req#{r}");
    }
    if mode == BMode::Live && g.out.len() > 2 {
        nontrivial();
    }
    if killed {
        let early = g.out.iter().filter(|o| matches!(o.2, Out::Ok { .. })).count();
        count_n("probe.answered_before_kill", early as u64);
        nontrivial();
    }
    if fail.is_some() || killed {
        check!(l.calls_after_fail == 0, "used-after-failure", "the failed service was used again");
        count_n("probe.service_failed", fail.is_some() as u64);
        if g.out.len() > 1 {
            nontrivial();
        }
        drop(l);
        let mut p = probe;
        let wk = futures_util::task::noop_waker();
        let mut cx = Context::from_waker(&wk);
        match p.poll_ready(&mut cx) {
            Poll::Ready(Err(e)) => {
                let k = classify(&e);
                check!(Some(&k) == fail.map(ErrK::Buffered).as_ref() || killed && k == ErrK::BufferClosed, "wrong-error", "late poll_ready failed with {k:?}");
            }
            r => violate("late-poll-not-failed", format!("poll_ready after the failure: {:?}", r.map(|r| r.is_ok()))),
        }
    }
    count_n("probe.answered", early);
}

// ---------------------------------------------------------------- W02

fn w02_threads(sim: &mut Sim) {
    let leaf = shared("leaf", SvcCfg { ready: GateMode { now: 100, ..Default::default() }, ..Default::default() });
    let rtt = Duration::from_millis(pick(&[1, 10, 100]));
    let decay = pick(&[1e6, 1e8, 1e10]);
    let mut w = PeakEwma::new(SimSvc::new(&leaf), rtt, decay, CompleteOnResponse::default());
    let n = 2 + choose(3) as usize;
    let mut flights = vec![];
    let wk = futures_util::task::noop_waker();
    let mut cx = Context::from_waker(&wk);
    for _ in 0..n {
        let ms = pick(&[0u64, 1, 5, 30, 200]);
        if ms > 0 {
            sim.advance(ms);
        }
        let _ = w.poll_ready(&mut cx);
        flights.push((Box::pin(w.call(Req::new(fresh_id()))), now()));
    }
    let ms = pick(&[1u64, 5, 30, 200]);
    sim.advance(ms);
    for g in closed_gates(true) {
        open_gate(g);
    }
    // decay up to this instant; from here on only peaks can change the estimate
    let est = {
        let l = crate::scn::load::metric(&w.load());
        l / (n as f64 + 1.0)
    };
    let t = now();
    ev!("estimate {est:.0} with {n} in flight");
    let peak = flights.iter().map(|f| (t - f.1) as f64 * 1e6).fold(est, f64::max);
    let threads = 2 + choose(2) as usize;
    let mut parts: Vec<Vec<_>> = (0..threads).map(|_| vec![]).collect();
    for f in flights {
        let k = choose(threads as u32) as usize;
        parts[k].push(f);
    }
    let busy = parts.iter().filter(|p| !p.is_empty()).count();
    let w = Arc::new(w);
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    let lows: Arc<Mutex<f64>> = Arc::new(Mutex::new(est));
    for p in parts {
        let lows = lows.clone();
        bodies.push(Box::new(move || {
            let wk = futures_util::task::noop_waker();
            let mut cx = Context::from_waker(&wk);
            for (mut f, at) in p {
                switch(false);
                let r = f.as_mut().poll(&mut cx);
                check!(r.is_ready(), "stuck", "a call whose response is available is still pending");
                drop(r);
                drop(f);
                let mut l = lock(&lows);
                *l = l.max((t - at) as f64 * 1e6);
                ev!("observed rtt {} ms", t - at);
            }
        }));
    }
    if chance(50) {
        let (w, lows) = (w.clone(), lows.clone());
        bodies.push(Box::new(move || {
            for _ in 0..2 {
                switch(false);
                let low = *lock(&lows);
                let l = crate::scn::load::metric(&w.load());
                ev!("load {l:.0}");
                check!(l.is_finite() && l >= low * (1.0 - 1e-9), "peak-lost", "load {l} is below the peak {low} observed before");
                check!(l <= peak * (n as f64 + 1.0) * (1.0 + 1e-9), "load-too-high", "load {l} exceeds the peak {peak} times {} requests", n + 1);
            }
        }));
    }
    run_threads(&sim.handle(), bodies);
    if violated() {
        return;
    }
    let end = crate::scn::load::metric(&w.load());
    check!((end - peak).abs() <= peak * 1e-9 + 1.0, "peak-lost", "after all calls completed at one instant the load is {end} ns; the highest of the estimate before and the round-trip times is {peak} ns");
    if busy > 1 {
        nontrivial();
    }
}

// ---------------------------------------------------------------- H02

#[derive(Clone)]
struct Any;
impl tower::hedge::Policy<Req> for Any {
    fn clone_request(&self, r: &Req) -> Option<Req> {
        Some(r.clone())
    }
    fn can_retry(&self, _: &Req) -> bool {
        true
    }
}

/// Requests that end on several threads at once all count.
fn h02_threads(sim: &mut Sim) {
    let leaf = shared("leaf", SvcCfg { ready: GateMode { now: 100, ..Default::default() }, ..Default::default() });
    let period = 1000;
    let n = 2 + choose(5) as usize;
    let lat = pick(&[1u64, 5, 40, 200]);
    let mut svc = tower::hedge::Hedge::new(SimSvc::new(&leaf), Any, n as u64, 0.9, Duration::from_millis(period));
    let wk = futures_util::task::noop_waker();
    let mut cx = Context::from_waker(&wk);
    let mut threads: Vec<Vec<_>> = (0..2 + choose(2)).map(|_| vec![]).collect();
    let start = pick(&[0, 900]);
    sim.advance(start);
    for _ in 0..n {
        let _ = svc.poll_ready(&mut cx);
        let k = choose(threads.len() as u32) as usize;
        threads[k].push(Box::pin(svc.call(Req::new(fresh_id()))));
    }
    let busy = threads.iter().filter(|t| !t.is_empty()).count();
    sim.advance(lat);
    for g in closed_gates(true) {
        open_gate(g);
    }
    let end = now();
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in threads {
        bodies.push(Box::new(move || {
            let wk = futures_util::task::noop_waker();
            let mut cx = Context::from_waker(&wk);
            for mut f in t {
                switch(false);
                let r = f.as_mut().poll(&mut cx);
                check!(matches!(r, Poll::Ready(Ok(_))), "stuck", "a call whose response is available is still pending");
                ev!("a response arrives");
            }
        }));
    }
    run_threads(&sim.handle(), bodies);
    if violated() {
        return;
    }
    // in the following period exactly these latencies count
    let next = (end / period + 1) * period;
    sim.advance(next - end + choose(500) as u64);
    let _ = svc.poll_ready(&mut cx);
    let mut f = Box::pin(svc.call(Req::new(fresh_id())));
    let _ = f.as_mut().poll(&mut cx);
    let n0 = lock(&leaf.leaf).calls.len();
    sim.advance(lat + 2);
    let r = f.as_mut().poll(&mut cx);
    let copies = lock(&leaf.leaf).calls.len() - n0;
    check!(r.is_pending() && copies == 1, "late-hedge", "{n} latencies of {lat} ms were recorded by {busy} threads in the last period, {n} are required, but after {} ms {copies} copies were sent", lat + 2);
    if busy > 1 {
        nontrivial();
    }
}
/// A call during which time goes on, possibly into the next period.
fn h02_moving(sim: &mut Sim) {
    use tokio::time::Instant;
    let leaf = shared("leaf", SvcCfg { ready: GateMode { now: 100, ..Default::default() }, ..Default::default() });
    let period = pick(&[1000u64, 1000, 5000]);
    let n = 1 + choose(5) as usize;
    let lat = pick(&[5u64, 40, 200]);
    let t0 = sim.enter(Instant::now);
    let mut svc = tower::hedge::Hedge::new(SimSvc::new(&leaf), Any, n as u64, 0.9, Duration::from_millis(period));
    let wk = futures_util::task::noop_waker();
    let mut cx = Context::from_waker(&wk);
    let mut futs = vec![];
    for _ in 0..n {
        let _ = svc.poll_ready(&mut cx);
        futs.push(Box::pin(svc.call(Req::new(fresh_id()))));
    }
    sim.advance(lat);
    for g in closed_gates(true) {
        open_gate(g);
    }
    for f in &mut futs {
        let r = f.as_mut().poll(&mut cx);
        check!(matches!(r, Poll::Ready(Ok(_))), "stuck", "a call whose response is available is still pending");
    }
    drop(futs);
    // to the end of the period in which these latencies count
    let left = pick(&[0u64, 1, 29, 31, 300]);
    sim.advance(2 * period - lat - left);
    if left > 0 && chance(50) {
        sim.raw_advance_ns(pick(&[999_999u64, 999_000]));
    }
    let n0 = lock(&leaf.leaf).calls.len();
    let _ = svc.poll_ready(&mut cx);
    let at = move |t: Instant| (t - t0).as_nanos() as u64;
    type Out<F> = Arc<Mutex<Option<(F, u64, u64)>>>;
    let out: Out<_> = Arc::new(Mutex::new(None));
    let o = out.clone();
    run_threads_moving(
        &sim.handle(),
        vec![Box::new(move || {
            let begin = Instant::now();
            let mut f = Box::pin(svc.call(Req::new(fresh_id())));
            let end = Instant::now();
            // the delay may run from the first poll as well
            let _ = f.as_mut().poll(&mut Context::from_waker(&futures_util::task::noop_waker()));
            *lock(&o) = Some((f, at(begin), at(end)));
            drop(svc);
        })],
        pick(&[5, 20, 50]),
    );
    if violated() {
        return;
    }
    let (mut f, begin, end) = lock(&out).take().expect("called");
    ctx().lock().now = sim.nanos() / 1_000_000;
    let p = period * 1_000_000;
    let (first, last) = (begin / p, end / p);
    ev!("called from {begin} to {end} ns: periods {first} to {last}");
    // the latencies count for calls in the second period only
    let may_hedge = first == 1;
    let must_hedge = first == 1 && last == 1;
    let mut copy = None;
    // sleeps are rounded up to milliseconds
    for _ in 0..lat + 5 {
        let r = f.as_mut().poll(&mut cx);
        check!(r.is_pending(), "stuck", "a response although none was sent");
        if lock(&leaf.leaf).calls.len() > n0 + 1 {
            copy = Some(sim.nanos());
            break;
        }
        sim.raw_advance_ns(1_000_000);
        ctx().lock().now = sim.nanos() / 1_000_000;
    }
    check!(!must_hedge || copy.is_some(), "late-hedge", "{n} latencies of {lat} ms were recorded in the last period and {n} are required, but no copy was sent {} ms after the call", lat + 5);
    if let Some(c) = copy {
        check!(may_hedge, "hedged-without-data", "a copy was sent although no latencies were recorded in the last period");
        // whatever instant of the call the decision was made at
        check!(c >= begin + (lat - 1) * 1_000_000, "early-hedge", "the copy was sent {} ns after the call, the latencies of the last period are {lat} ms", c - begin);
        nontrivial();
    }
    if first != last {
        count("probe.period_ends_during_call");
        nontrivial();
    }
}

pub fn h02_moving_scn() -> Scn {
    Scn { name: "hedge-moving", weight: 1, run: h02_moving }
}

/// As `w02_threads`, but time goes on between the steps of the threads.
fn w02_moving(sim: &mut Sim) {
    use tokio::time::Instant;
    let leaf = shared("leaf", SvcCfg { ready: GateMode { now: 100, ..Default::default() }, ..Default::default() });
    let rtt = Duration::from_millis(pick(&[1, 10, 100]));
    let decay = pick(&[1e6, 1e8, 1e10, 1e12]);
    let mut w = PeakEwma::new(SimSvc::new(&leaf), rtt, decay, CompleteOnResponse::default());
    let n = 2 + choose(3) as usize;
    let wk = futures_util::task::noop_waker();
    let mut cx = Context::from_waker(&wk);
    let clock = |s: &Sim| s.enter(Instant::now);
    let mut flights = vec![];
    for _ in 0..n {
        let ms = pick(&[0u64, 1, 5, 30, 200]);
        if ms > 0 {
            sim.advance(ms);
        }
        let _ = w.poll_ready(&mut cx);
        let at = clock(sim);
        flights.push((Box::pin(w.call(Req::new(fresh_id()))), at));
    }
    let ms = pick(&[1u64, 5, 30, 200]);
    sim.advance(ms);
    for g in closed_gates(true) {
        open_gate(g);
    }
    let t0 = clock(sim);
    let est = crate::scn::load::metric(&w.load()) / (n as f64 + 1.0);
    ev!("estimate {est:.0} with {n} in flight");
    let ns = |d: Duration| d.as_secs() as f64 * 1e9 + d.subsec_nanos() as f64;
    let faded = move |(rtt, since): (f64, Instant), at: Instant| rtt * (-ns(at - since) / decay).exp();
    // round trips seen for sure, and when; the longest there can have been
    let seen: Arc<Mutex<Vec<(f64, Instant)>>> = Arc::new(Mutex::new(vec![(est, t0)]));
    let most: Arc<Mutex<f64>> = Arc::new(Mutex::new(est));
    let threads = 2 + choose(2) as usize;
    let mut parts: Vec<Vec<_>> = (0..threads).map(|_| vec![]).collect();
    for f in flights {
        let k = choose(threads as u32) as usize;
        parts[k].push(f);
    }
    let busy = parts.iter().filter(|p| !p.is_empty()).count();
    let w = Arc::new(w);
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for p in parts {
        let (seen, most) = (seen.clone(), most.clone());
        bodies.push(Box::new(move || {
            let wk = futures_util::task::noop_waker();
            let mut cx = Context::from_waker(&wk);
            for (mut f, at) in p {
                switch(false);
                let begin = Instant::now();
                let r = f.as_mut().poll(&mut cx);
                check!(r.is_ready(), "stuck", "a call whose response is available is still pending");
                drop(r);
                drop(f);
                let end = Instant::now();
                lock(&seen).push((ns(begin - at), begin));
                let mut m = lock(&most);
                *m = m.max(ns(end - at));
                ev!("observed rtt {}..{} ns", (begin - at).as_nanos(), (end - at).as_nanos());
            }
        }));
    }
    if chance(50) {
        let (w, seen) = (w.clone(), seen.clone());
        bodies.push(Box::new(move || {
            for _ in 0..3 {
                switch(false);
                let known = lock(&seen).clone();
                let l = crate::scn::load::metric(&w.load());
                let at = Instant::now();
                ev!("load {l:.0}");
                let low = known.iter().map(|s| faded(*s, at)).fold(0.0, f64::max);
                check!(l.is_finite() && l >= low * (1.0 - 1e-9) - 1.0, "peak-lost", "load {l} is below {low}, what is left of the peaks observed before");
            }
        }));
    }
    run_threads_moving(&sim.handle(), bodies, pick(&[5, 20, 50]));
    if violated() {
        return;
    }
    let at = clock(sim);
    let end = crate::scn::load::metric(&w.load());
    let low = lock(&seen).iter().map(|s| faded(*s, at)).fold(0.0, f64::max);
    let most = *lock(&most);
    check!(end >= low * (1.0 - 1e-9) - 1.0, "peak-lost", "after all calls completed the load is {end} ns; {low} ns must be left of the peaks that were observed");
    check!(end <= most * (1.0 + 1e-9) + 1.0, "load-too-high", "after all calls completed the load is {end} ns; no round trip took longer than {most} ns");
    // an idle service's load fades exactly
    if chance(50) {
        let ms = pick(&[1u64, 30, 1000]);
        sim.advance(ms);
        let later = crate::scn::load::metric(&w.load());
        let want = faded((end, at), clock(sim));
        check!((later - want).abs() <= want * 1e-6 + 1.0, "wrong-decay", "{later} ns is left of {end} ns after {ms} ms, expected {want}");
    }
    ctx().lock().now = sim.nanos() / 1_000_000;
    if busy > 1 {
        nontrivial();
    }
}

pub fn w02_moving_scn() -> Scn {
    Scn { name: "peak-ewma-moving", weight: 1, run: w02_moving }
}

pub fn h02_scn() -> Scn {
    Scn { name: "hedge-threads", weight: 1, run: h02_threads }
}

pub fn live_scn() -> Scn {
    Scn { name: "buffer-threads", weight: 1, run: |s| buffer_threads(s, BMode::Live) }
}
pub fn b02_scn() -> Scn {
    Scn { name: "fail-threads", weight: 1, run: |s| buffer_threads(s, BMode::Fail) }
}
pub fn kill_scn() -> Scn {
    Scn { name: "kill-threads", weight: 1, run: |s| buffer_threads(s, BMode::Kill) }
}
pub fn w02_scn() -> Scn {
    Scn { name: "peak-ewma-threads", weight: 1, run: w02_threads }
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "R03",
        quick: 150_000,
        scns: vec![Scn { name: "budget-threads", weight: 1, run: r03 }],
        rule: "operations of different threads overlapped",
        real: "tower::retry::budget::TpsBudget with switch points at its mutex and atomics, tokio paused clock",
        stub: "threads run one at a time under the simulator's scheduler",
    }]
}
