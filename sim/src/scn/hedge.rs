//! H01 H02: Hedge.

use crate::client::*;
use crate::core::*;
use crate::exec::*;
use crate::runner::{Prop, Scn};
use crate::scn::single::{open_random_gate, Held};
use crate::svc::*;
use crate::{check, ev};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tower::hedge::{Hedge, Policy};
use tower_service::Service;

#[derive(Default)]
struct PLog {
    cloned: Vec<(u64, bool)>,
    asked: Vec<(u64, bool, u64)>,
}
#[derive(Clone)]
struct Pol {
    log: Arc<Mutex<PLog>>,
    clone: u32,
    allow: u32,
}
const COPY: u16 = 5;
impl Policy<Req> for Pol {
    fn clone_request(&self, req: &Req) -> Option<Req> {
        let yes = chance(self.clone);
        ev!("policy: clone_request({req:?}) -> {yes}");
        lock(&self.log).cloned.push((req.id, yes));
        yes.then(|| req.clone().tag(COPY))
    }
    fn can_retry(&self, req: &Req) -> bool {
        let yes = chance(self.allow);
        ev!("policy: can_retry({req:?}) -> {yes}");
        lock(&self.log).asked.push((req.id, yes, now()));
        yes
    }
}

struct F<X> {
    h: Held<X>,
    /// nanoseconds
    t: u64,
    copy_t: u64,
    /// may a copy be sent, and after what delay (low, high)
    plan: Option<(u64, u64)>,
    orig: u64,
    hog: bool,
}

/// Percentile at histogram precision: acceptable range in ms.
fn percentile(v: &[u64], q: f64) -> (u64, u64) {
    if v.is_empty() {
        return (0, 0);
    }
    let mut s = v.to_vec();
    s.sort();
    let x = q * s.len() as f64;
    let at = |k: f64| s[(k.max(1.0) as usize - 1).min(s.len() - 1)];
    let lo = at((x - 1e-4).ceil());
    let hi = at((x + 1e-4).ceil());
    let slack = |x: u64| if x < 2048 { 0 } else { x / 1000 + 1 };
    (lo - slack(lo), hi + slack(hi))
}

fn hedge(sim: &mut Sim, timing: bool) {
    // time scale: seconds, minutes, days
    let k: u64 = if timing && chance(10) { pick(&[60, 1000, 100_000]) } else { 1 };
    let period: u64 = k * pick(&[1000, 100, 10_000]);
    let min: u64 = pick(&[1, 0, 2, 5, 10]);
    let q: f32 = pick(&[0.9, 0.5, 0.99, 1.0, 0.1]);
    let mut cfg = SvcCfg::random(true);
    if timing {
        cfg = SvcCfg { ready: GateMode { now: 100, ..Default::default() }, ..Default::default() };
        cfg.resp = GateMode { now: 10, hang: 0, latency: Some((0, k * pick(&[20, 200, 3000]))) };
        cfg.resp_err = pick(&[0, 10]);
    } else {
        cfg.ready_err = pick(&[0, 0, 3]);
        cfg.resp = GateMode { now: pick(&[0, 30]), hang: pick(&[0, 10]), latency: if chance(60) { Some((0, 100)) } else { None } };
    }
    let instant = cfg.ready.now == 100 && cfg.ready_err == 0;
    let leaf = shared("inner", cfg);
    let log: Arc<Mutex<PLog>> = Default::default();
    let pol = Pol { log: log.clone(), clone: pick(&[100, 80]), allow: pick(&[100, 70]) };
    let dur = Duration::from_millis(period);
    // (window, latency)
    let mut recs: Vec<(i64, u64)> = vec![];
    let mut svc = if chance(50) {
        let mock: Vec<u64> = (0..choose(15)).map(|_| 1 + k * choose(100) as u64).collect();
        ev!("hedge period={period}ms min={min} percentile={q} mock={mock:?}");
        recs.extend(mock.iter().map(|m| (-1, *m)));
        Hedge::new_with_mock_latencies(SimSvc::new(&leaf), pol, min, q, dur, &mock)
    } else {
        ev!("hedge period={period}ms min={min} percentile={q}");
        Hedge::new(SimSvc::new(&leaf), pol, min, q, dur)
    };
    let win = |t: u64| (t / (period * 1_000_000)) as i64;
    let ns = pick(&[0, 0, 30]);
    let slot = WakeSlot::new(true);
    let mut ready = false;
    let mut failed = false;
    let mut futs: Vec<F<_>> = vec![];
    let (mut copies, mut won, mut quiet) = (0u64, 0u64, 0u64);
    let sleepy = pick(&[0, 0, 10]);
    // calls run in tasks that have other things to do in the same poll, or
    // whose original does so much that every poll ends with no budget left
    no_random_hogs();
    let hogs = if sim.coop { pick(&[0, 50, 100]) } else { 0 };
    for _ in 0..range_free(10, if timing { 160 } else { 100 }) {
        if violated() {
            return;
        }
        match weighted(&[15, if timing { 2 } else { 10 }, 12, 25]) {
            0 => {
                if failed || (futs.len() >= if timing { 8 } else { 3 }) {
                    continue;
                }
                if !ready {
                    let w = slot.next();
                    match svc.poll_ready(&mut Context::from_waker(&w)) {
                        Poll::Ready(Ok(())) => ready = true,
                        Poll::Ready(Err(e)) => {
                            check!(sim_err(&e).map_or(false, |e| e.kind == "ready-err"), "wrong-error", "readiness error {e}");
                            failed = true;
                        }
                        Poll::Pending => {}
                    }
                    if !timing {
                        continue;
                    }
                }
                if !ready {
                    continue;
                }
                ready = false;
                let req = fresh_id();
                // reference: latencies of the last complete period
                let t = sim.nanos();
                let vals: Vec<u64> = recs.iter().filter(|r| r.0 == win(t) - 1).map(|r| r.1).collect();
                let n0 = lock(&leaf.leaf).calls.len();
                let f = svc.call(Req::new(req));
                let l = lock(&leaf.leaf);
                check!(l.calls.len() == n0 + 1, "lost-request", "the original of req#{req} was dispatched {} times during call", l.calls.len() - n0);
                let Some(c) = l.calls.last() else { return };
                check!(c.req == req && c.tags.is_empty(), "wrong-request", "the original of req#{req} arrived as {:?}", c);
                let orig = c.call;
                let hog = chance(hogs);
                drop(l);
                if let (true, Some(c)) = (hog, lock(&leaf.leaf).calls.last_mut()) {
                    c.hog = true;
                    count("fault.hog");
                }
                let cloned = lock(&log).cloned.iter().any(|x| x.0 == req && x.1);
                let enough = vals.len() as u64 >= min;
                let plan = (cloned && enough).then(|| percentile(&vals, q as f64));
                ev!("req#{req}: {} latencies in the last period, copy allowed after {plan:?} ms", vals.len());
                if plan.is_none() {
                    quiet += 1;
                }
                futs.push(F { h: Held::new(f, req, sim.fresh), t, copy_t: 0, plan, orig, hog });
            }
            1 => {
                if chance(if failed { 100 } else { 70 }) {
                    open_random_gate();
                }
            }
            2 => {
                if timing && chance(ns) {
                    sim.advance_ns(pick(&[1, 100_000, 500_000, 999_999]));
                    continue;
                }
                let ms = match choose(5) {
                    0 => 1,
                    1 => 1 + k * choose(20) as u64,
                    2 if sleepy > 0 && chance(sleepy) => period * (1 + choose(3) as u64) + choose(5) as u64,
                    3 => {
                        // around the end of a period
                        let left = period - now() % period;
                        if chance(30) && left > 2 {
                            left - 1 + choose(3) as u64
                        } else {
                            1 + k * choose(30) as u64
                        }
                    }
                    _ => match futs.iter().filter_map(|f| f.plan.map(|p| f.t / 1_000_000 + p.0)).filter(|d| *d + 1 >= now()).min() {
                        Some(d) => (d + choose(3) as u64).saturating_sub(now() + 1).max(1),
                        None => 1 + k * choose(50) as u64,
                    },
                };
                sim.advance(ms);
            }
            _ => {
                if futs.is_empty() {
                    continue;
                }
                let k = choose(futs.len() as u32) as usize;
                let (req, orig, t0, plan) = (futs[k].h.req, futs[k].orig, futs[k].t, futs[k].plan);
                if chance(3) {
                    ev!("drop response future req#{req}");
                    drop(futs.remove(k));
                    let l = lock(&leaf.leaf);
                    check!(l.calls.iter().filter(|c| c.req == req).all(|c| c.end.is_some()), "not-cancelled", "a dispatch of req#{req} outlives its response future");
                    continue;
                }
                let open = |call: u64| {
                    let l = lock(&leaf.leaf);
                    l.calls.iter().find(|c| c.call == call).map_or(false, |c| ctx().lock().gates[c.gate].open)
                };
                let copy_of = || lock(&leaf.leaf).calls.iter().find(|c| c.req == req && c.call != orig).map(|c| c.call);
                let t = sim.nanos();
                let spent = (t - t0) as f64 / 1e6;
                let orig_open = open(orig);
                let copy0 = copy_of();
                let copy_open = copy0.map_or(false, |c| open(c));
                let asked0 = lock(&log).asked.iter().filter(|a| a.0 == req).count();
                let left = if sim.coop { pick(&[0, 1, 2, 5, 128, 128]) } else { 128 };
                let r = if sim.coop { futs[k].h.poll_coop(left) } else { futs[k].h.poll() };
                ev!("poll req#{req} {spent} ms after the call (original done: {orig_open}, budget {left}) -> {}", if r.is_ready() { "ready" } else { "pending" });
                // nothing completes with no budget left
                let orig_open = orig_open && left > 0;
                let copy_open = copy_open && left == 128 && !futs[k].hog;
                let copy1 = copy_of();
                let asked: Vec<(u64, bool, u64)> = lock(&log).asked.iter().filter(|a| a.0 == req).cloned().collect();
                let n = lock(&leaf.leaf).calls.iter().filter(|c| c.req == req).count();
                check!(n <= 2, "too-many-copies", "req#{req} was dispatched {n} times");
                check!(asked.len() <= 1, "too-many-copies", "the policy was asked {} times about req#{req}", asked.len());
                if copy0.is_none() && copy1.is_some() {
                    copies += 1;
                    futs[k].copy_t = t;
                    check!(!orig_open, "needless-hedge", "a copy of req#{req} was sent although the original had completed");
                    check!(asked.last().map_or(false, |a| a.1 && a.2 == now()), "unallowed-hedge", "a copy of req#{req} was sent; policy answers: {asked:?}");
                    match plan {
                        None => violate("unallowed-hedge", format!("a copy of req#{req} was sent although it could not be cloned or data was insufficient")),
                        Some((lo, hi)) => {
                            check!(t - t0 >= lo * 1_000_000, "early-hedge", "a copy of req#{req} was sent after {spent} ms, expected delay {lo}..{hi} ms");
                        }
                    }
                    let l = lock(&leaf.leaf);
                    let c = l.calls.iter().find(|c| Some(c.call) == copy1).unwrap();
                    check!(c.tags == vec![COPY], "wrong-request", "the copy of req#{req} arrived as {:?}", c.tags);
                }
                if asked.len() > asked0 {
                    check!(plan.map_or(false, |p| t - t0 >= p.0 * 1_000_000), "early-hedge", "the policy was asked about req#{req} after {spent} ms, plan {plan:?}");
                }
                match r {
                    Poll::Pending => {
                        check!(!orig_open, "response-withheld", "the original of req#{req} has completed");
                        check!(!copy_open, "response-withheld", "the copy of req#{req} has completed");
                        if let (Some((_, hi)), true) = (plan, instant && left > 0) {
                            if t - t0 >= (hi + 1) * 1_000_000 {
                                check!(asked.len() == 1, "late-hedge", "req#{req} is outstanding for {spent} ms, but no copy was tried after {hi} ms");
                                check!(asked.iter().any(|a| a.1) == copy1.is_some(), "late-hedge", "policy answers {asked:?}, copy {copy1:?}");
                            }
                        }
                    }
                    Poll::Ready(r) => {
                        let o = out_of(r);
                        let ready_err = matches!(&o, Out::Err(ErrK::Sim(e)) if e.kind == "ready-err");
                        check!(orig_open || copy1.is_some() || ready_err, "phantom-response", "req#{req} ended with {o:?} but nothing has completed");
                        if ready_err {
                            check!(!orig_open && plan.map_or(false, |p| t - t0 >= p.0 * 1_000_000), "wrong-outcome", "req#{req} ended with {o:?}");
                        } else {
                            let l = lock(&leaf.leaf);
                            let done: Vec<&LeafCall> = l.calls.iter().filter(|c| c.req == req && c.end == Some(true)).collect();
                            check!(done.len() == 1, "phantom-response", "{} dispatches of req#{req} completed", done.len());
                            let Some(c) = done.first() else { return };
                            let fine = match &o {
                                Out::Ok { call, .. } => c.ok && *call == c.call,
                                Out::Err(ErrK::Sim(e)) => !c.ok && e.id == c.call && e.kind == "resp-err",
                                _ => false,
                            };
                            check!(fine, "wrong-outcome", "req#{req} ended with {o:?}, but call#{} (ok={}) completed", c.call, c.ok);
                            if c.ok {
                                let from = if c.call == orig { t0 } else { futs[k].copy_t };
                                let ms = (t - from + 999_999) / 1_000_000;
                                recs.push((win(t), ms));
                                ev!("latency {ms} recorded in period {}", win(t));
                            }
                            if c.call != orig {
                                won += 1;
                            }
                        }
                        drop(futs.remove(k));
                        let l = lock(&leaf.leaf);
                        check!(
                            l.calls.iter().filter(|c| c.req == req).all(|c| c.end.is_some()),
                            "not-cancelled",
                            "the losing dispatch of req#{req} was not cancelled"
                        );
                    }
                }
            }
        }
        for f in &futs {
            if !f.h.was_polled() || f.h.slot.woken() {
                continue;
            }
            let l = lock(&leaf.leaf);
            for c in l.calls.iter().filter(|c| c.req == f.h.req) {
                let open = ctx().lock().gates[c.gate].open;
                check!(!open, "not-woken", "call#{} of req#{} has completed but the caller was not woken", c.call, f.h.req);
            }
            drop(l);
            let asked = lock(&log).asked.iter().any(|a| a.0 == f.h.req);
            if let (Some((_, hi)), true, false) = (f.plan, instant, asked) {
                check!(sim.nanos() - f.t < (hi + 1) * 1_000_000, "not-woken", "the hedge delay of req#{} ({hi} ms) has passed but its task was not woken", f.h.req);
            }
        }
    }
    drop(futs);
    drop(svc);
    if !violated() {
        check!(live("svc") == 0 && live("req") == 0 && live("fut") == 0, "leak", "services {} requests {} futures {} still alive", live("svc"), live("req"), live("fut"));
    }
    if copies > 0 {
        nontrivial();
    }
    count_n("probe.copies", copies);
    count_n("probe.copy_won", won);
    count_n("probe.no_hedge", quiet);
}
fn h01(sim: &mut Sim) {
    hedge(sim, false)
}
fn h02(sim: &mut Sim) {
    hedge(sim, true)
}

pub fn props() -> Vec<Prop> {
    let stub = "policy, inner service, callers, executor and clock";
    let real = "tower::hedge (select, delay, latency, rotating histogram), AsyncFilter, Oneshot, hdrhistogram";
    vec![
        Prop { id: "H01", quick: 250_000, scns: vec![Scn { name: "hedge", weight: 2, run: h01 }, Scn { name: "hedge-timing", weight: 1, run: h02 }], rule: "at least one copy was sent", real, stub },
        Prop { id: "H02", quick: 200_000, scns: vec![Scn { name: "hedge-timing", weight: 1, run: h02 }], rule: "at least one copy was sent", real, stub },
    ]
}
