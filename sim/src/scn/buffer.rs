//! B01-B04: Buffer and its worker.

use crate::client::*;
use crate::core::*;
use crate::exec::*;
use crate::runner::{Prop, Scn};
use crate::svc::*;
use crate::{check, ev};
use std::task::Poll;
use tower::buffer::Buffer;
use tower_service::Service;

type Buf = Buffer<Req, SimFut>;

struct Env {
    leaf: Sh,
    h: Hist,
    worker: TaskId,
    bound: u64,
    handle: Option<Buf>,
    next_client: u32,
    clients_left: u64,
    big: bool,
    ccfg: CliCfg,
    /// handles with a reserved slot that wait; none once nobody may wait any more
    parked: std::sync::Arc<std::sync::Mutex<Option<Vec<Buf>>>>,
    parkers: u32,
}

fn setup(sim: &mut Sim, cfg: SvcCfg) -> Env {
    let leaf = shared("inner", cfg);
    let big = big();
    let bound = if big { 5 + choose(44) as u64 } else { 1 + choose(4) as u64 };
    // far more than there are callers
    let bound = if chance(1) { pick(&[256, 257, 1000, 2000, 65_536, 65_537, 1 << 33]) } else { bound };
    let (b, w) = Buffer::pair(SimSvc::new(&leaf), bound as usize);
    let worker = sim.spawn_daemon("worker", w);
    ev!("buffer bound {bound}");
    Env {
        leaf,
        h: hist(),
        worker,
        bound,
        handle: Some(b),
        next_client: 0,
        clients_left: if big { 20 + choose(60) as u64 } else { 1 + choose(6) as u64 },
        big,
        ccfg: CliCfg::random(),
        parked: std::sync::Arc::new(std::sync::Mutex::new(Some(vec![]))),
        parkers: 0,
    }
}

impl Env {
    fn add_client(&mut self, sim: &mut Sim) -> bool {
        if self.clients_left == 0 {
            self.handle = None;
            return false;
        }
        let Some(b) = self.handle.as_mut().map(split) else { return false };
        self.clients_left -= 1;
        self.next_client += 1;
        let c = self.next_client;
        let mut cc = self.ccfg;
        cc.reqs = 1 + choose(4) as u64;
        sim.spawn(format!("client{c}"), client(self.h.clone(), c, b, Some(|b: &Buf| b.clone()), cc));
        true
    }
}

impl Env {
    /// A handle that reserves a slot and keeps it.
    fn park(&mut self, sim: &mut Sim) -> bool {
        let Some(mut b) = self.handle.clone() else { return false };
        self.parkers -= 1;
        let parked = self.parked.clone();
        sim.spawn("parker", async move {
            if std::future::poll_fn(|cx| b.poll_ready(cx)).await.is_ok() {
                ev!("a handle parks with its slot");
                if let Some(p) = &mut *lock(&parked) {
                    p.push(b);
                }
            }
        });
        true
    }
    /// The buffer has failed: so do handles which hold a slot since before.
    fn unpark(&mut self, dead: Option<ErrK>) {
        let p = lock(&self.parked).take().unwrap_or_default();
        let Some(want) = dead else { return };
        for mut b in p {
            count("probe.parked_handle_at_failure");
            let wk = futures_util::task::noop_waker();
            let mut cx = std::task::Context::from_waker(&wk);
            match b.poll_ready(&mut cx) {
                Poll::Ready(Err(e)) => {
                    let k = classify(&e);
                    check!(k == want, "wrong-error", "poll_ready of a handle holding a slot failed with {k:?} instead of {want:?}");
                }
                r => {
                    violate("late-poll-not-failed", format!("poll_ready of a handle holding a slot: {:?}, after the failure", r.map(|r| r.is_ok())));
                    return;
                }
            }
        }
    }
}

/// Requests that may sit in the queue (accepted, not dispatched, not answered).
/// A cancelled request still occupies its slot until the worker discards it,
/// so only the upper bound for live ones is checked.
fn occupancy(leaf: &Leaf, h: &History) -> u64 {
    h.recs
        .iter()
        .filter(|r| r.out.is_none() && !leaf.calls.iter().any(|c| c.req == r.req))
        .count() as u64
}

fn bound_hook(sim: &mut Sim, e: &Env) {
    let (leaf, h, bound) = (e.leaf.clone(), e.h.clone(), e.bound);
    sim.check_hook = Some(Box::new(move || {
        let l = lock(&leaf.leaf);
        let h = lock(&h);
        let q = occupancy(&l, &h) + h.held.max(0) as u64;
        check!(
            q <= bound + 1,
            "bound-exceeded",
            "{q} requests queued or reserved in a buffer with bound {bound} (+1 being dispatched)"
        );
        if q == bound + 1 {
            drop(h);
            drop(l);
            count("probe.full_plus_worker_slot");
        }
    }));
}

fn check_order(e: &Env) {
    let l = lock(&e.leaf.leaf);
    let h = lock(&e.h);
    let mut last = 0u64;
    let mut seen = std::collections::BTreeSet::new();
    for c in &l.calls {
        let Some(i) = h.recs.iter().position(|r| r.req == c.req) else {
            violate("unknown-request", format!("the service saw req#{} that nobody sent", c.req));
            return;
        };
        check!(seen.insert(c.req), "duplicate-dispatch", "req#{} was dispatched twice", c.req);
        let acc = h.recs[i].tick_call;
        check!(acc >= last, "out-of-order", "req#{} was dispatched after a request accepted later", c.req);
        last = last.max(acc);
    }
    for r in &h.recs {
        check_outcome(&l, r);
        let dispatched = l.calls.iter().find(|c| c.req == r.req);
        match &r.out {
            Some(Out::Ok { .. }) | Some(Out::Err(ErrK::Sim(_))) => {
                check!(dispatched.is_some(), "phantom-response", "req#{} was answered but never dispatched", r.req)
            }
            _ => {}
        }
        if let (Some(d), Some(Out::Dropped)) = (dispatched, &r.out) {
            check!(
                d.tick <= r.tick_gone.unwrap_or(u64::MAX),
                "dispatched-after-cancel",
                "req#{} was handed to the service after its response future had been dropped",
                r.req
            );
        }
    }
    // order-independent facts used as probes
    let n = l.calls.len() as u64;
    let dropped = h.recs.iter().filter(|r| r.out == Some(Out::Dropped)).count() as u64;
    drop(h);
    drop(l);
    count_n("probe.dispatched", n);
    count_n("probe.cancelled", dropped);
    if n >= 2 {
        nontrivial();
    }
}

fn drive_env(sim: &mut Sim, e: &mut Env, faults: u32, kill: bool) -> Option<u64> {
    let d = if e.big { Drive::random(200, 600) } else { Drive::random(40, 200) };
    let mut killed = None;
    let worker = e.worker;
    let mut wave = faults > 0 && chance(8);
    sim.drive(&d, &mut |sim| {
        if wave && chance(3) {
            wave = false;
            cancel_wave(sim);
            return true;
        }
        if chance(faults) {
            cancel_random(sim);
            return true;
        }
        if kill && killed.is_none() && chance(15) {
            count("fault.kill_worker");
            killed = Some(tick());
            sim.drop_task(worker);
            return true;
        }
        if e.parkers > 0 && chance(10) {
            return e.park(sim);
        }
        e.add_client(sim) || kill && killed.is_none()
    });
    killed
}

/// Fault-free apart from cancellations: exactly once, FIFO, bound.
fn b01(sim: &mut Sim) {
    let mut cfg = SvcCfg::random(true);
    cfg.ready_err = 0;
    let mut e = setup(sim, cfg);
    e.add_client(sim);
    let faults = pick(&[0, 0, 20]);
    drive_env(sim, &mut e, faults, false);
    while e.add_client(sim) {}
    e.handle = None;
    sim.drain_or_violate("stuck", 1000, 50, false);
    if violated() {
        return;
    }
    check_order(&e);
    let h = lock(&e.h);
    let l = lock(&e.leaf.leaf);
    for r in &h.recs {
        match &r.out {
            Some(Out::Ok { .. }) | Some(Out::Err(ErrK::Sim(_))) | Some(Out::Dropped) => {}
            o => violate("wrong-outcome", format!("req#{} on a healthy buffer ended with {o:?}", r.req)),
        }
        if r.out != Some(Out::Dropped) {
            check!(l.calls.iter().any(|c| c.req == r.req), "lost-request", "req#{} was never dispatched", r.req);
        }
    }
    check!(h.ready_errs.is_empty(), "wrong-outcome", "healthy buffer failed poll_ready: {:?}", h.ready_errs);
    check!(h.withdrawn == 0, "readiness-withdrawn", "a reserved slot was withdrawn");
}

fn b02(sim: &mut Sim) {
    let mut cfg = SvcCfg::random(true);
    cfg.ready_err = pick(&[8, 20, 40]);
    let mut e = setup(sim, cfg);
    e.ccfg.stop_on_err = chance(50);
    e.add_client(sim);
    let faults = pick(&[0, 0, 10]);
    let (leaf, worker) = (e.leaf.clone(), e.worker);
    e.parkers = pick(&[0, 1, 2]);
    drive_env(sim, &mut e, faults, false);
    if violated() {
        return;
    }
    let failed = lock(&leaf.leaf).failed.clone();
    e.unpark(failed.map(ErrK::Buffered));
    while e.clients_left > 0 {
        e.add_client(sim);
    }
    // a handle kept only for probing
    let probe = e.handle.take();
    sim.drain_or_violate("stuck", 1000, 50, false);
    if violated() {
        return;
    }
    check_order(&e);
    let fail = lock(&leaf.leaf).failed.clone();
    if let Some(f) = &fail {
        nontrivial();
        count("probe.service_failed");
        let l = lock(&leaf.leaf);
        check!(l.calls_after_fail == 0, "used-after-failure", "the failed service was polled again {} times", l.calls_after_fail);
        drop(l);
        // every later poll on a fresh clone fails with the same error, at once
        if let Some(p) = &probe {
            for i in 0..2 {
                let mut q = p.clone();
                let (f, h) = (f.clone(), e.h.clone());
                let _ = h;
                sim.spawn(format!("late{i}"), async move {
                    match poll_once(&mut q).await {
                        Poll::Ready(Err(er)) => {
                            let k = classify(&er);
                            check!(k == ErrK::Buffered(f.clone()), "wrong-error", "late poll_ready failed with {k:?} instead of {f:?}");
                        }
                        r => violate("late-poll-not-failed", format!("poll_ready after the failure: {:?}", r.map(|r| r.is_ok()))),
                    }
                });
            }
            sim.settle(false);
        }
    }
    drop(probe);
    let h = lock(&e.h);
    let l = lock(&leaf.leaf);
    for r in &h.recs {
        let dispatched = l.calls.iter().any(|c| c.req == r.req);
        match (&r.out, &fail) {
            (Some(Out::Dropped), _) => {}
            (Some(Out::Ok { .. }), _) | (Some(Out::Err(ErrK::Sim(_))), _) if dispatched => {}
            (Some(Out::Err(ErrK::Buffered(x))), Some(f)) if !dispatched => {
                check!(x == f, "wrong-error", "req#{} failed with {x:?} instead of {f:?}", r.req)
            }
            (o, f) => violate("wrong-outcome", format!("req#{} dispatched={dispatched} ended with {o:?}; service failure {f:?}", r.req)),
        }
    }
    for (c, k, _, _) in &h.ready_errs {
        match &fail {
            Some(f) => check!(*k == ErrK::Buffered(f.clone()), "wrong-error", "client {c}: poll_ready failed with {k:?} instead of {f:?}"),
            None => violate("wrong-outcome", format!("client {c}: poll_ready failed with {k:?} although the service is healthy")),
        }
    }
    drop(l);
    drop(h);
    sim.settle(false);
    check!(!sim.running(worker), "worker-leak", "worker still running after all handles are gone");
}

fn b03(sim: &mut Sim) {
    let mut cfg = SvcCfg::random(true);
    cfg.ready_err = 0;
    cfg.ready.now = pick(&[0, 20, 60]);
    let mut e = setup(sim, cfg);
    e.ccfg.drop_fut = pick(&[0, 20, 40]);
    e.ccfg.hold = pick(&[0, 30, 60]);
    e.ccfg.abandon = pick(&[0, 20]);
    e.ccfg.inline = pick(&[0, 0, 100]);
    e.clients_left += 3;
    bound_hook(sim, &e);
    e.add_client(sim);
    drive_env(sim, &mut e, pick(&[0, 10, 40]), false);
    let probe = e.handle.take();
    e.clients_left = 0;
    sim.drain_or_violate("stuck", 1000, 50, false);
    if violated() {
        return;
    }
    check_order(&e);
    // all clients are gone: full capacity must be available again
    if let Some(p) = probe {
        sim.check_hook = None;
        let bound = e.bound;
        let leaf = e.leaf.clone();
        sim.settle(false);
        // block the service so that requests stay queued
        lock(&leaf.cfg).ready = GateMode { now: 0, hang: 0, latency: None };
        ctx().lock().draining = false;
        let most = (bound + 2).min(if bound > 2000 { 20 } else { 2002 });
        let mut handles: Vec<Buf> = (0..most).map(|_| p.clone()).collect();
        let mut got = 0;
        let slot = WakeSlot::new(true);
        for h in handles.iter_mut() {
            let w = slot.next();
            let mut cx = std::task::Context::from_waker(&w);
            match h.poll_ready(&mut cx) {
                Poll::Ready(Ok(())) => got += 1,
                Poll::Pending => {}
                Poll::Ready(Err(er)) => violate("wrong-outcome", format!("healthy buffer failed: {er}")),
            }
        }
        check!(got == bound.min(most), "capacity-leak", "after all callers ended {got} of {bound} slots could be reserved");
        nontrivial();
    }
}

fn b04_kill(sim: &mut Sim) {
    let mut cfg = SvcCfg::random(true);
    cfg.ready_err = 0;
    let panics = chance(30);
    if panics {
        cfg.panic_call = pick(&[10, 30]);
    }
    let mut e = setup(sim, cfg);
    e.ccfg.stop_on_err = chance(50);
    e.ccfg.hold = pick(&[0, 30, 60]);
    e.add_client(sim);
    let (fp, steps_kill) = (pick(&[0, 0, 10]), !panics);
    e.parkers = pick(&[0, 1, 2]);
    let killed = drive_env(sim, &mut e, fp, steps_kill);
    if violated() {
        return;
    }
    let dead = !sim.running(e.worker);
    e.unpark(dead.then_some(ErrK::BufferClosed));
    let probe = e.handle.clone();
    if !panics && killed.is_none() && sim.running(e.worker) {
        count("fault.kill_worker");
        sim.drop_task(e.worker);
    }
    let probe_before_drain = chance(50);
    if !probe_before_drain {
        drop(probe.clone());
    }
    e.handle = None;
    e.clients_left = 0;
    sim.drain_or_violate("stuck", 1000, 50, false);
    if violated() {
        return;
    }
    check_order(&e);
    let dead = !sim.running(e.worker);
    let h = lock(&e.h);
    let l = lock(&e.leaf.leaf);
    for r in &h.recs {
        let dispatched = l.calls.iter().any(|c| c.req == r.req);
        match &r.out {
            Some(Out::Dropped) => {}
            Some(Out::Ok { .. }) | Some(Out::Err(ErrK::Sim(_))) if dispatched => {}
            Some(Out::Err(ErrK::BufferClosed)) if dead && !dispatched => {
                drop(0);
            }
            o => violate("wrong-outcome", format!("req#{} dispatched={dispatched} ended with {o:?} (worker dead: {dead})", r.req)),
        }
    }
    for (c, k, _, _) in &h.ready_errs {
        check!(dead && *k == ErrK::BufferClosed, "wrong-error", "client {c}: poll_ready failed with {k:?} (worker dead: {dead})");
    }
    let nclosed = h.recs.iter().filter(|r| matches!(r.out, Some(Out::Err(ErrK::BufferClosed)))).count() as u64;
    drop(l);
    drop(h);
    count_n("probe.closed_errors", nclosed);
    if dead {
        nontrivial();
        if let Some(mut p) = probe {
            sim.spawn("late", async move {
                match poll_once(&mut p).await {
                    Poll::Ready(Err(er)) => {
                        let k = classify(&er);
                        check!(k == ErrK::BufferClosed, "wrong-error", "late poll_ready failed with {k:?}");
                    }
                    r => violate("late-poll-not-failed", format!("poll_ready after the worker died: {:?}", r.map(|r| r.is_ok()))),
                }
            });
            sim.settle(false);
        }
    }
}

/// All handles dropped: the worker serves what is still wanted and ends.
fn b04_shutdown(sim: &mut Sim) {
    let mut cfg = SvcCfg::random(false);
    cfg.ready.now = pick(&[0, 20, 60]);
    let mut e = setup(sim, cfg);
    e.ccfg.inline = 0;
    e.add_client(sim);
    drive_env(sim, &mut e, pick(&[0, 10]), false);
    e.handle = None;
    e.clients_left = 0;
    // crash all clients, not their response futures
    if chance(60) {
        for id in sim.unfinished() {
            if sim.tasks[id].name.starts_with("client") {
                count("fault.cancel_task");
                sim.drop_task(id);
            }
        }
    }
    sim.drain_or_violate("stuck", 1000, 50, false);
    if violated() {
        return;
    }
    check_order(&e);
    {
        let h = lock(&e.h);
        let l = lock(&e.leaf.leaf);
        for r in &h.recs {
            if r.out != Some(Out::Dropped) {
                check!(l.calls.iter().any(|c| c.req == r.req), "lost-request", "req#{} was not served at shutdown ({:?})", r.req, r.out);
            }
        }
    }
    check!(!sim.running(e.worker), "worker-leak", "worker still running after all handles are gone and the queue is empty");
    check!(live("svc") == 0, "service-leak", "{} service instances alive after shutdown", live("svc"));
    check!(live("req") == 0, "request-leak", "{} requests alive after shutdown", live("req"));
}

pub fn props() -> Vec<Prop> {
    let real = "tower::buffer (service, worker, future, message, error), tokio mpsc/oneshot, tokio-util PollSender";
    let stub = "the wrapped service, the callers, the executor and clock";
    vec![
        Prop {
            id: "B01",
            quick: 400_000,
            scns: vec![Scn { name: "fifo", weight: 1, run: b01 }],
            rule: "at least two requests reached the wrapped service",
            real,
            stub,
        },
        Prop {
            id: "B02",
            quick: 400_000,
            scns: vec![Scn { name: "fail", weight: 1, run: b02 }],
            rule: "the wrapped service failed during the run, or two requests were dispatched",
            real,
            stub,
        },
        Prop {
            id: "B03",
            quick: 400_000,
            scns: vec![Scn { name: "bound", weight: 1, run: b03 }],
            rule: "the run ended with a capacity probe, or two requests were dispatched",
            real,
            stub,
        },
        Prop {
            id: "B04",
            quick: 400_000,
            scns: vec![
                Scn { name: "kill", weight: 2, run: b04_kill },
                Scn { name: "shutdown", weight: 1, run: b04_shutdown },
            ],
            rule: "the worker died, or two requests were dispatched",
            real,
            stub,
        },
    ]
}
