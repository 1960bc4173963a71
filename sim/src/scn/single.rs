//! D01 T01 F01 E01 K01 N01 G01: one middleware each, full control of its
//! environment.

use crate::client::*;
use crate::core::*;
use crate::exec::*;
use crate::runner::{Prop, Scn};
use crate::svc::*;
use crate::{check, ev};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tower::filter::{AsyncFilter, Filter};
use tower::load_shed::LoadShed;
use tower::reconnect::Reconnect;
use tower::spawn_ready::SpawnReady;
use tower::steer::Steer;
use tower::timeout::Timeout;
use tower::util::FutureService;
use tower::MakeService;
use tower::make::MakeConnection;
use tower_service::Service;

type BoxFut<T> = Pin<Box<dyn Future<Output = T> + Send>>;

/// A response future polled by hand.
pub struct Held<F> {
    pub fut: Pin<Box<F>>,
    pub slot: WakeSlot,
    pub req: u64,
    polled: bool,
}
impl<F: Future> Held<F> {
    pub fn new(f: F, req: u64, fresh: bool) -> Self {
        Held { fut: Box::pin(f), slot: WakeSlot::new(fresh), req, polled: false }
    }
    pub fn was_polled(&self) -> bool {
        self.polled
    }
    pub fn poll(&mut self) -> Poll<F::Output> {
        self.polled = true;
        let Held { fut, slot, .. } = self;
        slot.poll("a future", |cx| fut.as_mut().poll(cx))
    }
    /// One poll with `left` units of the cooperative budget.
    pub fn poll_coop(&mut self, left: u32) -> Poll<F::Output> {
        self.polled = true;
        let w = self.slot.next();
        let mut cx = Context::from_waker(&w);
        with_coop_budget(left, || self.fut.as_mut().poll(&mut cx))
    }
}

pub fn open_random_gate() -> bool {
    let g = closed_gates(true);
    if g.is_empty() {
        return false;
    }
    open_gate(pick(&g));
    true
}

// ---------------------------------------------------------------- D01 LoadShed

fn d01(sim: &mut Sim) {
    let mut cfg = SvcCfg::random(true);
    cfg.ready_err = pick(&[0, 0, 5]);
    cfg.ready.now = pick(&[0, 30, 60, 100]);
    cfg.withdraw = pick(&[0, 0, 30]);
    cfg.break_ready = pick(&[0, 0, 5]);
    let leaf = shared("inner", cfg);
    struct H {
        s: LoadShed<SimSvc>,
        /// inner readiness at the last poll
        last: Option<bool>,
        failed: bool,
        slot: WakeSlot,
    }
    let mk = |s: LoadShed<SimSvc>| H { s, last: None, failed: false, slot: WakeSlot::new(true) };
    let mut hs = vec![mk(LoadShed::new(SimSvc::new(&leaf)))];
    let mut futs: Vec<(Held<_>, bool)> = vec![];
    let (mut shed, mut sent) = (0, 0);
    for _ in 0..range_free(10, 80) {
        if violated() {
            return;
        }
        match weighted(&[20, 20, 10, 10, 2, 2]) {
            0 => {
                let i = choose(hs.len() as u32) as usize;
                let h = &mut hs[i];
                if h.failed {
                    continue;
                }
                let w = h.slot.next();
                // what does the inner service answer?
                let l0 = lock(&leaf.leaf).last_poll;
                let r = h.s.poll_ready(&mut Context::from_waker(&w));
                let l1 = lock(&leaf.leaf).last_poll;
                let inner = if l0.2 == l1.2 { None } else { Some(l1.1) };
                ev!("handle {i}: poll_ready -> {:?} (inner {:?})", r.is_ready(), inner);
                match (&r, inner) {
                    (Poll::Pending, _) => violate("loadshed-waits", "poll_ready returned Pending"),
                    (Poll::Ready(Ok(())), Some(2)) => violate("error-lost", "the inner readiness error was swallowed"),
                    (Poll::Ready(Ok(())), Some(x)) => h.last = Some(x == 1),
                    (Poll::Ready(Ok(())), None) => violate("not-polled", "poll_ready did not ask the inner service"),
                    (Poll::Ready(Err(e)), Some(2)) => {
                        check!(sim_err(e).is_some(), "error-lost", "inner error replaced by {e}");
                        h.failed = true;
                    }
                    (Poll::Ready(Err(e)), _) => violate("spurious-error", format!("{e}")),
                }
            }
            1 => {
                let i = choose(hs.len() as u32) as usize;
                let h = &mut hs[i];
                if h.failed {
                    continue;
                }
                let n0 = lock(&leaf.leaf).calls.len();
                let req = fresh_id();
                let f = h.s.call(Req::new(req));
                let reached = lock(&leaf.leaf).calls.len() - n0;
                let want = h.last == Some(true);
                ev!("handle {i}: call req#{req}, inner was ready: {want}, dispatched: {reached}");
                check!(
                    reached == want as usize,
                    if want { "shed-although-ready" } else { "dispatched-although-not-ready" },
                    "inner readiness at the preceding poll: {:?}, but the request was dispatched {reached} times",
                    h.last
                );
                h.last = None;
                if want {
                    sent += 1;
                } else {
                    shed += 1;
                }
                let mut hf = Held::new(f, req, sim.fresh);
                if !want {
                    match hf.poll() {
                        Poll::Ready(Err(e)) => check!(e.is::<tower::load_shed::error::Overloaded>(), "wrong-error", "shed request failed with {e}"),
                        Poll::Ready(Ok(_)) => violate("phantom-response", "a shed request was answered"),
                        Poll::Pending => violate("loadshed-waits", "a shed request did not fail at once"),
                    }
                } else {
                    futs.push((hf, want));
                }
            }
            2 => {
                open_random_gate();
            }
            3 => {
                if !futs.is_empty() {
                    let k = choose(futs.len() as u32) as usize;
                    if chance(20) {
                        futs.remove(k);
                        continue;
                    }
                    let req = futs[k].0.req;
                    if let Poll::Ready(r) = futs[k].0.poll() {
                        check_resp(&leaf, req, out_of(r));
                        futs.remove(k);
                    }
                }
            }
            4 => {
                if hs.len() < 4 {
                    let i = choose(hs.len() as u32) as usize;
                    ev!("clone handle {i}");
                    let c = hs[i].s.clone();
                    hs.push(mk(c));
                }
            }
            _ => {
                if hs.len() > 1 {
                    let i = choose(hs.len() as u32) as usize;
                    hs.remove(i);
                }
            }
        }
    }
    if shed > 0 && sent > 0 {
        nontrivial();
    }
    count_n("probe.shed", shed);
    count_n("probe.sent", sent);
}

pub fn check_resp(leaf: &Sh, req: u64, o: Out) {
    let l = lock(&leaf.leaf);
    check_outcome(
        &l,
        &Rec { client: 0, req, t_call: 0, tick_call: 0, out: Some(o), t_out: 0, tick_out: 0, tick_gone: None },
    );
}

// ---------------------------------------------------------------- T01 Timeout

fn t01(sim: &mut Sim) {
    let d_us: u64 = match choose(6) {
        0 => 1000 * choose(30) as u64,
        1 => 1000 * (1 + choose(200) as u64),
        2 => 250 * choose(100) as u64,
        3 => 0,
        4 => pick(&[3_600_000_000, 7_200_000_000, 40 * 86_400_000_000, 3 * 365 * 86_400_000_000]),
        _ => u64::MAX / 2,
    };
    let far = d_us >= 3_600_000_000;
    let dur = Duration::from_micros(d_us);
    let mut cfg = SvcCfg::random(true);
    cfg.ready_err = 0;
    cfg.resp = GateMode { now: pick(&[0, 10, 50]), hang: 0, latency: if chance(50) { Some((0, (d_us / 1000 + 2).min(400))) } else { None } };
    let leaf = shared("inner", cfg);
    let mut svc = if chance(50) {
        Timeout::new(SimSvc::new(&leaf), dur)
    } else {
        tower::ServiceBuilder::new().timeout(dur).service(SimSvc::new(&leaf))
    };
    ev!("timeout {d_us} us");
    struct F<X> {
        h: Held<X>,
        tc: u64,
        call: u64,
    }
    let mut futs: Vec<F<_>> = vec![];
    let slot = WakeSlot::new(true);
    let mut ready = false;
    let (mut elapsed, mut passed) = (0, 0);
    let d_ms = d_us / 1000;
    let only_wake = chance(50);
    // calls run in tasks that have other things to do in the same poll, or
    // whose response does so much that every poll ends with no budget left
    no_random_hogs();
    let hogs = if sim.coop { pick(&[0, 50, 100]) } else { 0 };
    for _ in 0..range_free(10, 90) {
        if violated() {
            return;
        }
        match weighted(&[12, 10, 12, 25]) {
            0 => {
                if !ready {
                    let w = slot.next();
                    match svc.poll_ready(&mut Context::from_waker(&w)) {
                        Poll::Ready(Ok(())) => ready = true,
                        Poll::Ready(Err(e)) => violate("spurious-error", format!("{e}")),
                        Poll::Pending => {}
                    }
                } else if futs.len() < 4 {
                    ready = false;
                    let req = fresh_id();
                    let f = svc.call(Req::new(req));
                    let call = lock(&leaf.leaf).calls.last().map(|c| c.call).unwrap_or(0);
                    let hog = chance(hogs);
                    if let (true, Some(c)) = (hog, lock(&leaf.leaf).calls.last_mut()) {
                        c.hog = true;
                        count("fault.hog");
                    }
                    futs.push(F { h: Held::new(f, req, sim.fresh), tc: sim.nanos() / 1000, call });
                }
            }
            1 => {
                open_random_gate();
            }
            2 => {
                let ms = match choose(if far { 6 } else { 4 }) {
                    0 => 1,
                    1 => 1 + choose(30) as u64,
                    4 => pick(&[3_600_000, 86_400_000, 10 * 86_400_000]),
                    5 => pick(&[3_600_000, 365 * 86_400_000, 3 * 365 * 86_400_000]),
                    _ => {
                        // just around a deadline
                        match futs.first() {
                            Some(f) if d_ms < 200_000_000_000 => ((f.tc / 1000 + d_ms) + choose(3) as u64).saturating_sub(now() + 1),
                            _ => 1 + choose(300) as u64,
                        }
                    }
                };
                if chance(10) {
                    sim.advance_ns(1 + choose(800_000) as u64);
                } else {
                    sim.advance(ms);
                }
            }
            _ => {
                if futs.is_empty() {
                    continue;
                }
                let k = choose(futs.len() as u32) as usize;
                if chance(3) {
                    ev!("drop response future req#{}", futs[k].h.req);
                    futs.remove(k);
                    continue;
                }
                if only_wake && futs[k].h.polled && !futs[k].h.slot.woken() {
                    continue;
                }
                let t = sim.nanos() / 1000;
                let (tc, req, call) = (futs[k].tc, futs[k].h.req, futs[k].call);
                let open = {
                    let l = lock(&leaf.leaf);
                    let c = l.calls.iter().find(|c| c.call == call).unwrap();
                    ctx().lock().gates[c.gate].open
                };
                let left = if sim.coop { pick(&[0, 1, 2, 5, 128, 128]) } else { 128 };
                let r = if sim.coop { futs[k].h.poll_coop(left) } else { futs[k].h.poll() };
                ev!("poll req#{req} ({} us after the call, response available: {open}, budget {left}) -> {}", t - tc, if r.is_ready() { "ready" } else { "pending" });
                // with no budget left the response does not complete
                let open = open && left > 0;
                match r {
                    Poll::Pending => {
                        check!(!open, "response-withheld", "the response was available but not returned");
                        check!(
                            left == 0 || t - tc < d_us.saturating_add(1000),
                            "late-timeout",
                            "still pending {} us after the call with a timeout of {d_us} us",
                            t - tc
                        );
                    }
                    Poll::Ready(r) => {
                        let o = out_of(r);
                        match &o {
                            Out::Err(ErrK::Elapsed) => {
                                check!(!open, "response-discarded", "the response was available but the timeout error was returned");
                                check!(t - tc >= d_us, "early-timeout", "timed out after {} us with a timeout of {d_us} us", t - tc);
                                elapsed += 1;
                            }
                            _ => {
                                check!(open, "phantom-response", "an outcome {o:?} appeared although the inner future has not completed");
                                passed += 1;
                            }
                        }
                        check_resp(&leaf, req, o);
                        let f = futs.remove(k);
                        drop(f);
                        let l = lock(&leaf.leaf);
                        let c = l.calls.iter().find(|c| c.call == call).unwrap();
                        check!(c.end.is_some(), "inner-future-leak", "the inner future outlives the response future");
                    }
                }
            }
        }
        // wake-ups
        for f in &futs {
            if !f.h.polled || f.h.slot.woken() {
                continue;
            }
            let t = sim.nanos() / 1000;
            let l = lock(&leaf.leaf);
            let c = l.calls.iter().find(|c| c.call == f.call).unwrap();
            let open = ctx().lock().gates[c.gate].open;
            drop(l);
            check!(!open, "not-woken", "the response of req#{} is available but its task was not woken", f.h.req);
            check!(
                t - f.tc < d_us.saturating_add(1000),
                "not-woken",
                "the timeout of req#{} has passed ({} us) but its task was not woken",
                f.h.req,
                t - f.tc
            );
        }
    }
    if elapsed > 0 {
        nontrivial();
    }
    count_n("probe.elapsed", elapsed);
    count_n("probe.passed", passed);
}

// ---------------------------------------------------------------- F01 Filters

#[derive(Clone, Debug)]
struct Decision {
    req: u64,
    accept: bool,
    /// tick at which the decision became final
    tick: Option<u64>,
}
type Decs = Arc<Mutex<Vec<Decision>>>;

fn filters_setup() -> (Sh, Hist, Decs, CliCfg) {
    let mut cfg = SvcCfg::random(true);
    cfg.ready_err = pick(&[0, 0, 5]);
    let mut cc = CliCfg::random();
    cc.stop_on_err = true;
    (shared("inner", cfg), hist(), Arc::new(Mutex::new(vec![])), cc)
}

fn filters_check(leaf: &Sh, h: &Hist, decs: &Decs, is_async: bool) {
    let l = lock(&leaf.leaf);
    let h = lock(h);
    let d = lock(decs);
    let (mut acc, mut rej) = (0, 0);
    for r in &h.recs {
        check_outcome(&l, r);
        let ds: Vec<&Decision> = d.iter().filter(|x| x.req == r.req).collect();
        check!(ds.len() == 1, "predicate-count", "the predicate saw req#{} {} times", r.req, ds.len());
        let Some(dec) = ds.first() else { return };
        let disp = l.calls.iter().find(|c| c.req == r.req);
        if let Some(c) = disp {
            check!(dec.accept, "rejected-dispatched", "req#{} was rejected but reached the service", r.req);
            check!(c.tags == vec![7], "wrong-request", "the service saw req#{} as {:?}, not as the predicate returned it", r.req, c.tags);
            if is_async {
                check!(
                    dec.tick.map_or(false, |t| t <= c.tick),
                    "dispatched-early",
                    "req#{} was dispatched before its predicate resolved",
                    r.req
                );
            }
            acc += 1;
        }
        match &r.out {
            Some(Out::Dropped) => {}
            Some(Out::Err(ErrK::Sim(e))) if e.kind == "reject" => {
                check!(!dec.accept && e.id == r.req, "wrong-error", "req#{} got {e:?}", r.req);
                rej += 1;
            }
            Some(Out::Ok { .. }) | Some(Out::Err(ErrK::Sim(_))) => {
                check!(disp.is_some(), "phantom-response", "req#{} answered but never dispatched", r.req)
            }
            o => violate("wrong-outcome", format!("req#{} ended with {o:?}", r.req)),
        }
    }
    for (c, k, _, _) in &h.ready_errs {
        check!(matches!(k, ErrK::Sim(e) if e.kind == "ready-err"), "wrong-error", "client {c}: readiness error {k:?}");
    }
    for c in &l.calls {
        check!(h.recs.iter().any(|r| r.req == c.req), "unknown-request", "the service saw req#{} that nobody sent", c.req);
    }
    drop(h);
    drop(l);
    if acc > 0 && rej > 0 {
        nontrivial();
    }
}

pub fn run_clients<S>(sim: &mut Sim, root: S, h: &Hist, cc: CliCfg, n: u32, max_cancel: u32)
where
    S: Service<Req, Response = Resp> + Clone + 'static,
    S::Error: Into<BoxError> + 'static,
    S::Future: Send + 'static,
{
    let mut left = n;
    let mut next = 0;
    let d = Drive::random(30, 160);
    let cancel = pick(&[0, 0, max_cancel]);
    let mut root = Some(root);
    let mut add = |sim: &mut Sim| -> bool {
        if left == 0 {
            root = None;
            return false;
        }
        left -= 1;
        next += 1;
        let mut c = cc;
        c.reqs = 1 + choose(4) as u64;
        let s = split(root.as_mut().unwrap());
        sim.spawn(format!("client{next}"), client(h.clone(), next, s, Some(|s: &S| s.clone()), c));
        true
    };
    add(sim);
    sim.drive(&d, &mut |sim| {
        if chance(cancel) {
            cancel_random(sim);
            return true;
        }
        add(sim)
    });
    while add(sim) {}
    sim.drain_or_violate("stuck", 1000, 50, false);
}

fn f01_sync(sim: &mut Sim) {
    let (leaf, h, decs, cc) = filters_setup();
    let rej = pick(&[20, 50, 0]);
    let d2 = decs.clone();
    let pred = move |r: Req| -> Result<Req, SimErr> {
        let accept = !chance(rej);
        ev!("predicate: req#{} accept={accept}", r.id);
        lock(&d2).push(Decision { req: r.id, accept, tick: Some(tick()) });
        if accept {
            Ok(r.tag(7))
        } else {
            Err(SimErr { kind: "reject", id: r.id })
        }
    };
    let svc = Filter::new(SimSvc::new(&leaf), pred);
    let n = 1 + choose(4);
    run_clients(sim, svc, &h, cc, n, 20);
    if !violated() {
        filters_check(&leaf, &h, &decs, false);
    }
}

fn f01_async(sim: &mut Sim) {
    let (leaf, h, decs, cc) = filters_setup();
    let rej = pick(&[20, 50, 0]);
    let now_pct = pick(&[0, 50, 100]);
    let d2 = decs.clone();
    let pred = move |r: Req| -> BoxFut<Result<Req, SimErr>> {
        let accept = !chance(rej);
        let g = Gate::new("predicate", GateMode { now: now_pct, hang: 3, latency: None }, 0);
        let i = {
            let mut d = lock(&d2);
            d.push(Decision { req: r.id, accept, tick: None });
            d.len() - 1
        };
        let d3 = d2.clone();
        Box::pin(async move {
            g.await;
            ev!("predicate: req#{} accept={accept}", r.id);
            lock(&d3)[i].tick = Some(tick());
            if accept {
                Ok(r.tag(7))
            } else {
                Err(SimErr { kind: "reject", id: r.id })
            }
        })
    };
    let svc = AsyncFilter::new(SimSvc::new(&leaf), pred);
    let n = 1 + choose(4);
    run_clients(sim, svc, &h, cc, n, 20);
    if !violated() {
        filters_check(&leaf, &h, &decs, true);
    }
}

// ---------------------------------------------------------------- E01 Steer

fn e01(sim: &mut Sim) {
    let n = if big() { 5 + choose(60) as usize } else { 1 + choose(4) as usize };
    static NAMES: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    let names = NAMES.get_or_init(|| (0..64).map(|i| &*format!("s{i}").leak()).collect());
    let mut cfg = SvcCfg::random(true);
    cfg.ready_err = pick(&[0, 0, 4]);
    cfg.transient = pick(&[0, 50]);
    let leaves: Vec<Sh> = (0..n).map(|i| shared(names[i], cfg)).collect();
    let picks: Arc<Mutex<Vec<(u64, usize)>>> = Arc::new(Mutex::new(vec![]));
    let p2 = picks.clone();
    let picker = move |r: &Req, svcs: &[SimSvc]| -> usize {
        check!(svcs.len() == n, "services-changed", "the picker saw {} services instead of {n}", svcs.len());
        for (i, s) in svcs.iter().enumerate() {
            check!(s.sh.name == names[i], "services-changed", "the picker saw {} at position {i}", s.sh.name);
            check!(s.is_ready(), "not-all-ready", "Steer accepted req#{} although service {i} had not reported ready since its last call", r.id);
        }
        let k = choose(n as u32) as usize;
        lock(&p2).push((r.id, k));
        ev!("picker: req#{} -> {k}", r.id);
        k
    };
    let steer = Steer::new(leaves.iter().map(SimSvc::new).collect::<Vec<_>>(), picker);
    let h = hist();
    let mut cc = CliCfg::random();
    cc.strict_ready = true;
    cc.after_err = pick(&[0, 50]);
    let k = 1 + choose(4);
    run_clients(sim, steer, &h, cc, k, 20);
    if violated() {
        return;
    }
    let p = lock(&picks);
    let h = lock(&h);
    let mut total = 0;
    for (i, l) in leaves.iter().enumerate() {
        let l = lock(&l.leaf);
        for c in &l.calls {
            total += 1;
            check!(p.contains(&(c.req, i)), "misrouted", "req#{} reached service {i}, picks: {:?}", c.req, p.iter().filter(|x| x.0 == c.req).collect::<Vec<_>>());
        }
    }
    check!(p.len() == h.recs.len(), "picker-count", "{} picks for {} calls", p.len(), h.recs.len());
    for r in &h.recs {
        let Some(&(_, i)) = p.iter().find(|x| x.0 == r.req) else { continue };
        let l = lock(&leaves[i].leaf);
        check!(l.calls.iter().filter(|c| c.req == r.req).count() == 1, "lost-request", "req#{} did not reach the picked service", r.req);
        check_outcome(&l, r);
        match &r.out {
            Some(Out::Dropped) | Some(Out::Ok { .. }) | Some(Out::Err(ErrK::Sim(_))) => {}
            o => violate("wrong-outcome", format!("{o:?}")),
        }
    }
    for (c, k, _, _) in &h.ready_errs {
        check!(matches!(k, ErrK::Sim(e) if e.kind == "ready-err"), "wrong-error", "client {c}: readiness error {k:?}");
    }
    if total > 1 && n > 1 {
        drop(h);
        nontrivial();
    }
}

// ---------------------------------------------------------------- K01 SpawnReady

fn k01(sim: &mut Sim) {
    let mut cfg = SvcCfg::random(true);
    cfg.ready.now = pick(&[0, 30]);
    cfg.ready_err = pick(&[0, 0, 15]);
    cfg.panic_ready = pick(&[0, 0, 0, 15]);
    let leaf = shared("inner", cfg);
    let svc = SimSvc::new(&leaf);
    let inst = svc.inst;
    let mut sr = if chance(50) { SpawnReady::new(svc) } else { tower::ServiceBuilder::new().layer(tower::spawn_ready::SpawnReadyLayer::new()).service(svc) };
    let slot = WakeSlot::new(sim.fresh);
    let rt = sim.handle();
    let alive = move || rt.metrics().num_alive_tasks();
    let mut futs: Vec<Held<_>> = vec![];
    let mut ready = false;
    let mut failed = false;
    let mut waiting = false;
    let mut first = true;
    let only_wake = chance(50);
    let mut served = 0u64;
    let mut bg_waits = 0u64;
    for _ in 0..range_free(10, 80) {
        if violated() {
            return;
        }
        match weighted(&[20, 10, 12, 15, 8]) {
            0 => {
                if failed || (only_wake && waiting && !first && !slot.woken()) {
                    continue;
                }
                first = false;
                let was_ready = ready;
                let r = match expecting_panic(|| slot.poll_once(|cx| Service::<Req>::poll_ready(&mut sr, cx))) {
                    Ok(r) => r,
                    Err(p) => {
                        // the inner service panicked in our own poll: what is
                        // left of this handle is nobody's business
                        check!(p.starts_with(INJECTED), "panic", "{p}");
                        waiting = false;
                        ready = false;
                        failed = true;
                        continue;
                    }
                };
                match r {
                    Poll::Ready(Ok(())) => {
                        ready = true;
                        waiting = false;
                    }
                    Poll::Pending => {
                        check!(!was_ready, "readiness-withdrawn", "ready turned into pending without a call");
                        waiting = true;
                        bg_waits += 1;
                    }
                    Poll::Ready(Err(e)) => {
                        let panicked = e.downcast_ref::<tokio::task::JoinError>().map_or(false, |e| e.is_panic());
                        check!(
                            panicked || matches!(sim_err(&e), Some(SimErr { kind: "ready-err", .. })),
                            "wrong-error",
                            "poll_ready failed with {e}"
                        );
                        check!(!panicked || live("svc") == 0, "phantom-panic", "a panic was reported but the service lives");
                        failed = true;
                        waiting = false;
                    }
                }
                ev!("poll_ready -> ready={ready} waiting={waiting} failed={failed}");
                check!(alive() <= 1, "task-leak", "{} background tasks for one readiness wait", alive());
            }
            1 => {
                if ready {
                    ready = false;
                    let req = fresh_id();
                    let f = Service::<Req>::call(&mut sr, Req::new(req));
                    {
                        let l = lock(&leaf.leaf);
                        let c = l.calls.last();
                        check!(c.map_or(false, |c| c.req == req && c.inst == inst), "lost-request", "the call did not go to the wrapped instance");
                    }
                    futs.push(Held::new(f, req, true));
                    served += 1;
                }
            }
            2 => {
                open_random_gate();
            }
            3 => sim.background(),
            _ => {
                if !futs.is_empty() {
                    let k = choose(futs.len() as u32) as usize;
                    if chance(10) {
                        futs.remove(k);
                        continue;
                    }
                    let req = futs[k].req;
                    if let Poll::Ready(r) = futs[k].poll() {
                        check_resp(&leaf, req, out_of(r));
                        futs.remove(k);
                    }
                }
            }
        }
        let gone = lock(&leaf.leaf).failed.is_some() || cfg.panic_ready > 0;
        check!(live("svc") == 1 || gone && live("svc") == 0, "service-leak", "{} instances of the wrapped service", live("svc"));
    }
    if violated() {
        return;
    }
    // drive to readiness in the background, without any poll of ours
    if waiting {
        ctx().lock().draining = true;
        for _ in 0..60 {
            for g in closed_gates(true) {
                if ctx().lock().gates[g].kind == "ready" {
                    open_gate(g);
                }
            }
            sim.background();
        }
        check!(slot.woken(), "not-woken", "the inner service is ready but the caller was not woken");
        match slot.poll_once(|cx| Service::<Req>::poll_ready(&mut sr, cx)) {
            Poll::Ready(Ok(())) => {}
            Poll::Ready(Err(e)) => check!(
                sim_err(&e).is_some() || cfg.panic_ready > 0 && e.is::<tokio::task::JoinError>(),
                "wrong-error",
                "{e}"
            ),
            Poll::Pending => violate("not-driven", "readiness was not driven in the background"),
        }
        count("probe.background_ready");
    }
    if bg_waits > 0 && served > 0 {
        nontrivial();
    }
}

fn k01_drop(sim: &mut Sim) {
    let mut cfg = SvcCfg::random(false);
    cfg.ready.now = pick(&[0, 30, 60]);
    let leaf = shared("inner", cfg);
    let rt = sim.handle();
    let mut sr = SpawnReady::new(SimSvc::new(&leaf));
    let slot = WakeSlot::new(true);
    let mut ready = false;
    let mut waits = 0u64;
    for _ in 0..range_free(1, 14) {
        match choose(3) {
            0 if ready && chance(70) => {
                ready = false;
                drop(Service::<Req>::call(&mut sr, Req::new(fresh_id())));
            }
            0 => {
                ready = slot.poll_once(|cx| Service::<Req>::poll_ready(&mut sr, cx)).is_ready();
                waits += !ready as u64;
            }
            1 => sim.background(),
            _ => {
                open_random_gate();
            }
        }
    }
    ev!("drop SpawnReady");
    count("fault.drop_handle");
    drop(sr);
    for _ in 0..3 {
        sim.background();
    }
    check!(live("svc") == 0, "service-leak", "the inner service outlives the dropped SpawnReady");
    check!(rt.metrics().num_alive_tasks() == 0, "task-leak", "the background task outlives the dropped SpawnReady");
    if waits > 0 {
        nontrivial();
    }
}

// ---------------------------------------------------------------- N01 Reconnect

pub struct MakerState {
    pub attempts: Vec<(u64, bool, Option<u64>)>, // id, fails, resolved tick
    pub in_progress: u64,
    pub ready: GateMode,
    pub ready_err: u32,
    pub fail: u32,
    pub conn: GateMode,
    pub leaf: Sh,
    pub target: u64,
    pub max_live: i64,
}
impl Clone for SimMaker {
    fn clone(&self) -> Self {
        SimMaker::new(self.st.clone())
    }
}
pub struct SimMaker {
    pub st: Arc<Mutex<MakerState>>,
    gate: Option<Gate>,
    ready: bool,
}
impl SimMaker {
    pub fn new(st: Arc<Mutex<MakerState>>) -> Self {
        SimMaker { st, gate: None, ready: false }
    }
}
pub struct ConnFut {
    st: Arc<Mutex<MakerState>>,
    gate: Gate,
    id: u64,
    done: bool,
}
impl Future for ConnFut {
    type Output = Result<SimSvc, SimErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        check!(!self.done, "future-polled-after-completion", "connect future polled after completion");
        if self.gate.poll(cx).is_pending() {
            return Poll::Pending;
        }
        self.done = true;
        let mut s = lock(&self.st);
        let i = s.attempts.iter().position(|a| a.0 == self.id).unwrap();
        s.attempts[i].2 = Some(tick());
        let fails = s.attempts[i].1 && !draining();
        s.attempts[i].1 = fails;
        if fails {
            count("fault.connect_err");
            ev!("connect attempt {} fails", self.id);
            Poll::Ready(Err(SimErr { kind: "connect-err", id: self.id }))
        } else {
            ev!("connect attempt {} succeeds", self.id);
            let leaf = s.leaf.clone();
            drop(s);
            Poll::Ready(Ok(SimSvc::new(&leaf)))
        }
    }
}
impl Drop for ConnFut {
    fn drop(&mut self) {
        lock(&self.st).in_progress -= 1;
    }
}
impl Service<u64> for SimMaker {
    type Response = SimSvc;
    type Error = SimErr;
    type Future = ConnFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), SimErr>> {
        if self.ready {
            return Poll::Ready(Ok(()));
        }
        let (mode, err) = {
            let s = lock(&self.st);
            (s.ready, s.ready_err)
        };
        if self.gate.is_none() {
            if !draining() && chance(err) {
                count("fault.maker_ready_err");
                return Poll::Ready(Err(SimErr { kind: "maker-err", id: 0 }));
            }
            self.gate = Some(Gate::new("maker", mode, 0));
        }
        if self.gate.as_ref().unwrap().poll(cx).is_pending() {
            return Poll::Pending;
        }
        self.gate = None;
        self.ready = true;
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, target: u64) -> ConnFut {
        check!(self.ready, "call-without-ready", "the connector was called although it was not ready");
        self.ready = false;
        let id = fresh_id();
        let fail = !draining() && chance(lock(&self.st).fail);
        let mode = lock(&self.st).conn;
        let gate = Gate::new("connect", mode, 0);
        let mut s = lock(&self.st);
        check!(target == s.target, "wrong-target", "connecting to {target} instead of {}", s.target);
        check!(s.in_progress == 0, "two-connections", "a second connection attempt was started while one is in progress");
        check!(
            live("conn") == 0,
            "two-connections",
            "a connection attempt was started while a connection is held"
        );
        s.in_progress += 1;
        s.attempts.push((id, fail, None));
        drop(s);
        ev!("connect attempt {id} starts");
        ConnFut { st: self.st.clone(), gate, id, done: false }
    }
}

pub fn conn_leaf(cfg: SvcCfg) -> Sh {
    Arc::new(Shared { name: "conn", cfg: Mutex::new(cfg), leaf: Mutex::new(Leaf::default()), tok: "conn", at_drop: Mutex::new(None) })
}

fn n01(sim: &mut Sim) {
    let mut cfg = SvcCfg::random(true);
    cfg.ready_err = pick(&[0, 10, 30]);
    let leaf = conn_leaf(cfg);
    let target = 40 + choose(5) as u64;
    let st = Arc::new(Mutex::new(MakerState {
        attempts: vec![],
        in_progress: 0,
        ready: GateMode { now: pick(&[100, 50, 0]), ..Default::default() },
        ready_err: pick(&[0, 0, 10]),
        fail: pick(&[0, 30, 60, 100]),
        conn: GateMode { now: pick(&[0, 50, 100]), ..Default::default() },
        leaf: leaf.clone(),
        target,
        max_live: 0,
    }));
    let init = chance(30);
    let mut rc: Reconnect<SimMaker, u64> = if init {
        ev!("with initial connection");
        Reconnect::with_connection(SimSvc::new(&leaf), SimMaker::new(st.clone()), target)
    } else {
        Reconnect::new(SimMaker::new(st.clone()), target)
    };
    let slot = WakeSlot::new(sim.fresh);
    let mut ready = false;
    let mut pending = false;
    let mut unreported: Vec<u64> = vec![];
    let mut seen_attempts = 0usize;
    let mut futs: Vec<Held<_>> = vec![];
    let only_wake = chance(50);
    let repoll = chance(50);
    let (mut dispatched, mut failed) = (0, 0);
    let ops = range_free(15, 100);
    let mut phase_ok = 0;
    for step in 0..ops + 40 {
        if violated() {
            return;
        }
        let recov = step >= ops;
        if step == ops {
            ev!("--- faults stop ---");
            ctx().lock().draining = true;
            for s in ctx().lock().gates.iter_mut() {
                s.hang = false;
            }
            // readiness errors already decided may still show up
        }
        let op = if recov {
            // deterministic progress: open everything, poll when woken, call when ready
            for g in closed_gates(true) {
                open_gate(g);
            }
            if ready {
                1
            } else {
                0
            }
        } else {
            weighted(&[25, 12, 15, 8])
        };
        match op {
            0 => {
                if ready && !repoll {
                    continue;
                }
                if (only_wake || recov) && pending && !slot.woken() {
                    check!(!recov, "not-woken", "everything Reconnect waits for has happened, but its task was not woken");
                    continue;
                }
                let (had, insts0, fail0) = {
                    let l = lock(&leaf.leaf);
                    (live("conn"), l.insts, l.failed.as_ref().map(|e| e.id))
                };
                let r = slot.poll("Reconnect", |cx| Service::<Req>::poll_ready(&mut rc, cx));
                if had == 1 {
                    let l = lock(&leaf.leaf);
                    let failed_now = l.failed.as_ref().map(|e| e.id) != fail0;
                    check!(failed_now || live("conn") == 1 && l.insts == insts0, "connection-dropped", "poll_ready gave up a connection that has not failed");
                }
                {
                    let s = lock(&st);
                    for a in &s.attempts[seen_attempts..] {
                        if a.2.is_some() {
                            seen_attempts += 1;
                            if a.1 {
                                unreported.push(a.0);
                            }
                        } else {
                            break;
                        }
                    }
                }
                ev!("poll_ready -> {}", match &r { Poll::Pending => "pending".into(), Poll::Ready(Ok(())) => "ready".to_string(), Poll::Ready(Err(e)) => format!("error {e}") });
                check!(live("conn") <= 1, "two-connections", "{} connections are held", live("conn"));
                match r {
                    Poll::Ready(Ok(())) => {
                        ready = true;
                        pending = false;
                        check!(
                            live("conn") == 1 || !unreported.is_empty(),
                            "ready-without-connection",
                            "reported ready without a connection and without a failed attempt to report"
                        );
                    }
                    Poll::Pending => {
                        ready = false;
                        pending = true;
                    }
                    Poll::Ready(Err(e)) => {
                        ready = false;
                        pending = false;
                        check!(
                            matches!(sim_err(&e), Some(SimErr { kind: "maker-err", .. })),
                            "wrong-error",
                            "poll_ready failed with {e}"
                        );
                    }
                }
            }
            1 => {
                if !ready {
                    continue;
                }
                ready = false;
                let req = fresh_id();
                let n0 = lock(&leaf.leaf).calls.len();
                let had = live("conn");
                let f = Service::<Req>::call(&mut rc, Req::new(req));
                let reached = lock(&leaf.leaf).calls.len() - n0;
                check!(live("conn") >= had, "connection-dropped", "call gave up a connection that has not failed");
                let mut hf = Held::new(f, req, true);
                if unreported.is_empty() {
                    check!(reached == 1, "lost-request", "a ready Reconnect did not send the request on its connection");
                    dispatched += 1;
                    if recov {
                        phase_ok += 1;
                    }
                    futs.push(hf);
                } else {
                    check!(reached == 0, "failed-attempt-unreported", "the failed attempt was not reported to the next call");
                    match hf.poll() {
                        Poll::Ready(Err(e)) => match sim_err(&e) {
                            Some(SimErr { kind: "connect-err", id }) => {
                                check!(Some(&id) == unreported.last(), "stale-error", "the call failed with the error of attempt {id}, the last failed attempt is {:?}", unreported.last());
                            }
                            _ => violate("wrong-error", format!("{e}")),
                        },
                        Poll::Ready(Ok(_)) => violate("phantom-response", "a request without connection was answered"),
                        Poll::Pending => violate("stuck", "the failed attempt's error is not delivered at once"),
                    }
                    failed += 1;
                    unreported.clear();
                }
            }
            2 => {
                open_random_gate();
            }
            _ => {
                if !futs.is_empty() {
                    let k = choose(futs.len() as u32) as usize;
                    let req = futs[k].req;
                    if let Poll::Ready(r) = futs[k].poll() {
                        check_resp(&leaf, req, out_of(r));
                        futs.remove(k);
                    }
                }
            }
        }
    }
    check!(phase_ok >= 3, "no-recovery", "after the remote end recovered only {phase_ok} requests could be sent in 40 steps");
    let made = lock(&st).attempts.len();
    let ok = lock(&st).attempts.iter().filter(|a| !a.1 && a.2.is_some()).count();
    let fails = lock(&leaf.leaf).insts as usize - 1;
    let _ = fails;
    if ok + init as usize > 1 || failed > 0 {
        nontrivial();
    }
    count_n("probe.attempts", made as u64);
    count_n("probe.dispatched", dispatched);
    count_n("probe.failed_calls", failed);
}

// ---------------------------------------------------------------- G01 FutureService / MakeService

#[derive(Clone)]
struct SvcFut {
    gate: Arc<Gate>,
    leaf: Sh,
    err: bool,
    st: Arc<Mutex<(u64, u64)>>, // built, polls after done
    done: bool,
}
impl Future for SvcFut {
    type Output = Result<SimSvc, SimErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        check!(!self.done, "future-polled-after-completion", "the service future was polled after it resolved");
        if self.gate.poll(cx).is_pending() {
            return Poll::Pending;
        }
        self.done = true;
        lock(&self.st).0 += 1;
        if self.err {
            ev!("service future fails");
            Poll::Ready(Err(SimErr { kind: "future-err", id: 0 }))
        } else {
            ev!("service future resolves");
            Poll::Ready(Ok(SimSvc::new(&self.leaf)))
        }
    }
}

fn g01_future(sim: &mut Sim) {
    let cfg = SvcCfg::random(true);
    let leaf = shared("built", SvcCfg { ready_err: 0, ..cfg });
    let err = chance(20);
    // every clone of the service owns its own copy of the future; wake-ups of
    // the shared gate go to the last poller only, so clones are made of
    // resolved services or get their own gate
    let st = Arc::new(Mutex::new((0u64, 0u64)));
    let h = hist();
    let n = 1 + choose(3);
    let mut cc = CliCfg::random();
    cc.strict_ready = true;
    for c in 0..n {
        let f = SvcFut {
            gate: Arc::new(Gate::new("future", GateMode { now: pick(&[0, 50]), ..Default::default() }, 0)),
            leaf: leaf.clone(),
            err,
            st: st.clone(),
            done: false,
        };
        let svc = if chance(50) { FutureService::new(f) } else { tower::util::future_service::<_, SimSvc, Req, SimErr>(f) };
        cc.reqs = 1 + choose(4) as u64;
        type FS = FutureService<SvcFut, SimSvc>;
        // a clone of an unresolved service is only taken when it is idle
        let dup: Option<fn(&FS) -> FS> = Some(|s| s.clone());
        let mut c2 = cc;
        c2.reclone = 0;
        sim.spawn(format!("client{c}"), client(h.clone(), c, svc, dup, c2));
    }
    let d = Drive::random(20, 120);
    let cancel = pick(&[0, 0, 15]);
    sim.drive(&d, &mut |sim| if chance(cancel) { cancel_random(sim) } else { false });
    sim.drain_or_violate("stuck", 1000, 50, false);
    if violated() {
        return;
    }
    let hh = lock(&h);
    let l = lock(&leaf.leaf);
    for r in &hh.recs {
        check_outcome(&l, r);
        check!(l.calls.iter().any(|c| c.req == r.req), "lost-request", "req#{} did not reach the built service", r.req);
        match &r.out {
            Some(Out::Dropped) | Some(Out::Ok { .. }) | Some(Out::Err(ErrK::Sim(_))) => {}
            o => violate("wrong-outcome", format!("{o:?}")),
        }
    }
    for (c, k, _, _) in &hh.ready_errs {
        check!(matches!(k, ErrK::Sim(e) if e.kind == "future-err") && err, "wrong-error", "client {c}: {k:?}");
    }
    if err {
        check!(l.calls.is_empty(), "phantom-response", "calls reached a service that was never built");
    }
    let built = lock(&st).0;
    check!(built <= n as u64, "built-twice", "{built} services built for {n} futures");
    drop(l);
    drop(hh);
    if built > 0 {
        nontrivial();
    }
}

fn g01_make(sim: &mut Sim) {
    let leaf = conn_leaf(SvcCfg::fast());
    let st = Arc::new(Mutex::new(MakerState {
        attempts: vec![],
        in_progress: 0,
        ready: GateMode { now: pick(&[0, 50]), ..Default::default() },
        ready_err: 0,
        fail: pick(&[0, 30]),
        conn: GateMode { now: pick(&[0, 50]), ..Default::default() },
        leaf: leaf.clone(),
        target: 7,
        max_live: 0,
    }));
    // as_service, into_service, the trait's own methods, MakeConnection, Shared
    let mode = choose(5);
    let mut maker = SimMaker::new(st.clone());
    let slot = WakeSlot::new(true);
    let rounds = 1 + choose(4);
    let mut ok = 0;
    let h = hist();
    let sh = shared("shared", SvcCfg::random(false));
    match mode {
        0..=3 => {
            ev!("{}", ["as_service", "into_service", "make_service", "make_connection"][mode as usize]);
            let mut into = if mode == 1 {
                Some(MakeService::<u64, Req>::into_service(SimMaker::new(st.clone())))
            } else {
                None
            };
            for _ in 0..rounds {
                let n0 = lock(&st).attempts.len();
                // ready
                let mut spins = 0;
                loop {
                    let w = slot.next();
                    let mut cx = Context::from_waker(&w);
                    let r = match &mut into {
                        Some(s) => {
                            if spins == 0 && chance(20) {
                                *s = s.clone();
                            }
                            Service::<u64>::poll_ready(s, &mut cx)
                        }
                        None if mode == 2 => MakeService::<u64, Req>::poll_ready(&mut maker, &mut cx),
                        None if mode == 3 => MakeConnection::<u64>::poll_ready(&mut maker, &mut cx),
                        None => Service::<u64>::poll_ready(&mut MakeService::<u64, Req>::as_service(&mut maker), &mut cx),
                    };
                    match r {
                        Poll::Ready(r) => {
                            check!(r.is_ok(), "wrong-error", "maker readiness");
                            break;
                        }
                        Poll::Pending => {
                            open_random_gate();
                            check!(slot.woken(), "not-woken", "maker ready but not woken");
                        }
                    }
                    spins += 1;
                    if spins > 4 || violated() {
                        violate("stuck", "maker never ready");
                        return;
                    }
                }
                let f = match &mut into {
                    Some(s) => s.call(7),
                    None if mode == 2 => MakeService::<u64, Req>::make_service(&mut maker, 7),
                    None if mode == 3 => MakeConnection::<u64>::make_connection(&mut maker, 7),
                    None => MakeService::<u64, Req>::as_service(&mut maker).call(7),
                };
                check!(lock(&st).attempts.len() == n0 + 1, "maker-call-count", "one make call reached the maker {} times", lock(&st).attempts.len() - n0);
                let mut hf = Held::new(f, 0, true);
                if hf.poll().is_pending() {
                    if chance(20) {
                        continue;
                    }
                    open_random_gate();
                    check!(hf.slot.woken(), "not-woken", "connected but not woken");
                } else {
                    continue;
                }
                match hf.poll() {
                    Poll::Ready(Ok(s)) => {
                        ok += 1;
                        check!(s.sh.name == "conn", "wrong-service", "unexpected service");
                    }
                    Poll::Ready(Err(_)) => {}
                    Poll::Pending => violate("stuck", "connect future still pending"),
                }
            }
        }
        _ => {
            ev!("shared");
            let root = SimSvc::new(&sh);
            let mut shm = tower::make::Shared::new(root);
            for c in 0..rounds {
                let w = slot.next();
                let r = Service::<u64>::poll_ready(&mut shm, &mut Context::from_waker(&w));
                check!(matches!(r, Poll::Ready(Ok(()))), "not-ready", "Shared must always be ready");
                let mut hf = Held::new(Service::<u64>::call(&mut shm, 7), 0, true);
                match hf.poll() {
                    Poll::Ready(Ok(s)) => {
                        ok += 1;
                        let mut cc = CliCfg::random();
                        cc.reqs = 1 + choose(3) as u64;
                        sim.spawn(format!("client{c}"), client(h.clone(), c, s, None, cc));
                    }
                    _ => violate("stuck", "Shared must answer at once"),
                }
            }
            let d = Drive::random(10, 60);
            sim.drive(&d, &mut |_| false);
            sim.drain_or_violate("stuck", 1000, 50, false);
            let l = lock(&sh.leaf);
            for r in &lock(&h).recs {
                check_outcome(&l, r);
                check!(l.calls.iter().any(|c| c.req == r.req), "lost-request", "req#{} lost", r.req);
            }
        }
    }
    if ok > 0 {
        nontrivial();
    }
}

pub fn props() -> Vec<Prop> {
    let stub = "inner services, predicates, connectors, callers, executor and clock";
    vec![
        Prop { id: "D01", quick: 400_000, scns: vec![Scn { name: "loadshed", weight: 1, run: d01 }], rule: "at least one request was shed and one dispatched", real: "tower::load_shed", stub },
        Prop { id: "T01", quick: 400_000, scns: vec![Scn { name: "timeout", weight: 1, run: t01 }], rule: "at least one call timed out", real: "tower::timeout, tokio Sleep under a paused clock", stub },
        Prop {
            id: "F01",
            quick: 300_000,
            scns: vec![Scn { name: "filter", weight: 1, run: f01_sync }, Scn { name: "async-filter", weight: 2, run: f01_async }],
            rule: "at least one request was accepted and one rejected",
            real: "tower::filter",
            stub,
        },
        Prop { id: "E01", quick: 300_000, scns: vec![Scn { name: "steer", weight: 1, run: e01 }], rule: "two or more services and requests", real: "tower::steer", stub },
        Prop {
            id: "K01",
            quick: 300_000,
            scns: vec![Scn { name: "spawn-ready", weight: 2, run: k01 }, Scn { name: "spawn-ready-drop", weight: 1, run: k01_drop }],
            rule: "a background readiness wait happened and a request was served (or the drop scenario had polled the service)",
            real: "tower::spawn_ready, tower::util::ReadyOneshot, tokio task spawn/abort",
            stub,
        },
        Prop { id: "N01", quick: 300_000, scns: vec![Scn { name: "reconnect", weight: 1, run: n01 }], rule: "more than one connection was made or an attempt failed", real: "tower::reconnect", stub },
        Prop {
            id: "G01",
            quick: 300_000,
            scns: vec![Scn { name: "future-service", weight: 2, run: g01_future }, Scn { name: "make-service", weight: 1, run: g01_make }],
            rule: "a service was built",
            real: "tower::util::FutureService, tower::make",
            stub,
        },
    ]
}
