//! W01 W02: load measurement.

use crate::core::*;
use crate::exec::*;
use crate::runner::{Prop, Scn};
use crate::scn::single::open_random_gate;
use crate::svc::*;
use crate::{check, ev};
use futures_core::Stream;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tower::discover::Change;
use tower::load::{
    pending_requests, peak_ewma, CompleteOnResponse, Load, PeakEwma, PeakEwmaDiscover, PendingRequests, PendingRequestsDiscover, TrackCompletion,
};
use tower::limit::rate::Rate;
use tower::limit::{ConcurrencyLimit, RateLimit};
use tower_service::Service;

/// Completion that keeps the handle with the "body".
#[derive(Clone, Copy, Default, Debug)]
pub struct WithBody;
impl<H> TrackCompletion<H, Resp> for WithBody {
    type Output = (Resp, Option<H>);
    fn track_completion(&self, h: H, r: Resp) -> Self::Output {
        (r, Some(h))
    }
}

/// A scripted discovery stream.
pub struct Script<S> {
    pub q: VecDeque<Result<Change<u32, S>, SimErr>>,
}
impl<S> Unpin for Script<S> {}
impl<S> Stream for Script<S> {
    type Item = Result<Change<u32, S>, SimErr>;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        match self.q.pop_front() {
            Some(x) => Poll::Ready(Some(x)),
            None => Poll::Pending,
        }
    }
}

/// The number inside the Debug form of a metric, e.g. `Count(3)`.
pub fn metric(m: &impl std::fmt::Debug) -> f64 {
    let s = format!("{m:?}");
    let a = s.find('(').map(|i| i + 1).unwrap_or(0);
    let b = s.rfind(')').unwrap_or(s.len());
    s[a..b].parse().unwrap_or(f64::NAN)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ph {
    Flying,
    /// completed with an error; the response future is still held
    Failed,
    Body,
    Done,
}

type Fut<O> = Pin<Box<dyn Future<Output = Result<O, SimErr>>>>;

struct Call<O, H> {
    svc: usize,
    sent: u64,
    ph: Ph,
    fut: Option<Fut<O>>,
    body: Option<H>,
    leaf: u64,
}

/// Reference estimate of one PeakEwma.
#[derive(Clone, Debug)]
struct Model {
    est: f64,
    at: u64,
    decay: f64,
}
impl Model {
    /// `now` and `rtt` in nanoseconds
    fn update(&mut self, now: u64, rtt: u64) {
        let rtt = rtt as f64;
        if self.est < rtt {
            self.est = rtt;
        } else {
            let k = (-((now - self.at) as f64) / self.decay).exp();
            self.est = self.est * k + rtt * (1.0 - k);
        }
        self.at = now;
    }
}

/// What the scenario needs from either wrapper.
trait Wrap: Load + Service<Req, Error = SimErr>
where
    Self: Sized,
{
    type H;
    fn split(o: <Self as Service<Req>>::Response) -> (Resp, Option<Self::H>);
}
impl Wrap for PendingRequests<SimSvc, CompleteOnResponse> {
    type H = ();
    fn split(o: Resp) -> (Resp, Option<()>) {
        (o, None)
    }
}
impl Wrap for PendingRequests<SimSvc, WithBody> {
    type H = pending_requests::Handle;
    fn split(o: (Resp, Option<Self::H>)) -> (Resp, Option<Self::H>) {
        o
    }
}
/// The limits report the load of what they wrap.
impl<W: Wrap> Wrap for ConcurrencyLimit<W> {
    type H = W::H;
    fn split(o: W::Response) -> (Resp, Option<W::H>) {
        W::split(o)
    }
}
impl<W: Wrap> Wrap for RateLimit<W> {
    type H = W::H;
    fn split(o: W::Response) -> (Resp, Option<W::H>) {
        W::split(o)
    }
}
impl Wrap for PeakEwma<SimSvc, CompleteOnResponse> {
    type H = ();
    fn split(o: Resp) -> (Resp, Option<()>) {
        (o, None)
    }
}
impl Wrap for PeakEwma<SimSvc, WithBody> {
    type H = peak_ewma::Handle;
    fn split(o: (Resp, Option<Self::H>)) -> (Resp, Option<Self::H>) {
        o
    }
}

fn run<W>(sim: &mut Sim, leaf: &Sh, mut mk: impl FnMut() -> W, body: bool, ewma: Option<(f64, f64)>)
where
    W: Wrap,
    W::Metric: std::fmt::Debug,
    W::Future: 'static,
    <W as Service<Req>>::Response: 'static,
{
    struct S<W> {
        w: W,
        ready: bool,
        slot: WakeSlot,
        model: Model,
    }
    let mut new = |at: u64| S {
        w: mk(),
        ready: false,
        slot: WakeSlot::new(true),
        model: Model { est: ewma.map_or(0.0, |e| e.0), at, decay: ewma.map_or(1.0, |e| e.1) },
    };
    let mut svcs: Vec<Option<S<W>>> = vec![Some(new(sim.nanos()))];
    let mut calls: Vec<Call<<W as Service<Req>>::Response, W::H>> = vec![];
    let cfg_panic = lock(&leaf.cfg).panic_fut > 0;
    let (mut peak, mut maxload) = (0u64, 0usize);
    if chance(3) {
        // many calls at once
        for _ in 0..range_free(30, 400) {
            let Some(s) = svcs[0].as_mut() else { break };
            let wk = s.slot.next();
            if let Poll::Ready(Ok(())) = s.w.poll_ready(&mut Context::from_waker(&wk)) {
                let f: Fut<_> = Box::pin(s.w.call(Req::new(fresh_id())));
                let id = lock(&leaf.leaf).calls.last().map_or(0, |c| c.call);
                calls.push(Call { svc: 0, sent: sim.nanos(), ph: Ph::Flying, fut: Some(f), body: None, leaf: id });
            } else {
                open_random_gate();
            }
        }
        ev!("{} calls at once", calls.len());
    }
    for _ in 0..range_free(10, 120) {
        if violated() {
            return;
        }
        match weighted(&[25, 8, 25, 10, 8, 12, 2]) {
            0 => {
                let i = choose(svcs.len() as u32) as usize;
                let Some(s) = svcs[i].as_mut() else { continue };
                if !s.ready {
                    let wk = s.slot.next();
                    match s.w.poll_ready(&mut Context::from_waker(&wk)) {
                        Poll::Ready(Ok(())) => s.ready = true,
                        Poll::Ready(Err(_)) => {}
                        Poll::Pending => {}
                    }
                }
                if s.ready && chance(80) {
                    s.ready = false;
                    let f: Fut<_> = Box::pin(s.w.call(Req::new(fresh_id())));
                    let id = lock(&leaf.leaf).calls.last().map_or(0, |c| c.call);
                    ev!("service {i}: call#{id}");
                    calls.push(Call { svc: i, sent: sim.nanos(), ph: Ph::Flying, fut: Some(f), body: None, leaf: id });
                }
            }
            1 => {
                open_random_gate();
            }
            2 => {
                let live: Vec<usize> = (0..calls.len()).filter(|k| calls[*k].ph == Ph::Flying).collect();
                if live.is_empty() {
                    continue;
                }
                let k = pick(&live);
                let c = &mut calls[k];
                let wk = futures_util::task::noop_waker();
                let f = c.fut.as_mut().unwrap();
                let r = if cfg_panic { expecting_panic(|| f.as_mut().poll(&mut Context::from_waker(&wk))) } else { Ok(f.as_mut().poll(&mut Context::from_waker(&wk))) };
                let mut ended = false;
                match r {
                    Err(p) => {
                        check!(p.starts_with(INJECTED), "panic", "{p}");
                        ev!("call#{} panicked; its future is dropped", c.leaf);
                        c.fut = None;
                        c.ph = Ph::Done;
                        ended = true;
                    }
                    Ok(Poll::Pending) => {}
                    Ok(Poll::Ready(Err(_))) => {
                        if chance(40) {
                            c.ph = Ph::Failed;
                            ev!("call#{} failed; future kept", c.leaf);
                        } else {
                            ev!("call#{} failed; future dropped", c.leaf);
                            c.fut = None;
                            c.ph = Ph::Done;
                            ended = true;
                        }
                    }
                    Ok(Poll::Ready(Ok(o))) => {
                        let (_r, h) = W::split(o);
                        if body {
                            check!(h.is_some(), "handle-lost", "the completion got no handle");
                        }
                        if body && chance(60) {
                            c.body = h;
                            c.ph = Ph::Body;
                            ev!("call#{} responded; body kept", c.leaf);
                        } else {
                            drop(h);
                            c.ph = Ph::Done;
                            ended = true;
                            ev!("call#{} responded", c.leaf);
                        }
                        // the finished future itself may live on
                        if chance(50) {
                            c.fut = None;
                        }
                    }
                }
                let (svc, sent) = (c.svc, c.sent);
                if ended {
                    if let Some(s) = svcs[svc].as_mut() {
                        s.model.update(sim.nanos(), sim.nanos() - sent);
                    }
                }
            }
            3 => {
                let live: Vec<usize> = (0..calls.len()).filter(|k| calls[*k].ph != Ph::Done || calls[*k].fut.is_some()).collect();
                if live.is_empty() {
                    continue;
                }
                let k = pick(&live);
                let c = &mut calls[k];
                let was = c.ph;
                match c.ph {
                    Ph::Body => {
                        if c.fut.is_some() && chance(50) {
                            ev!("call#{}: finished future dropped, body kept", c.leaf);
                            c.fut = None;
                            continue;
                        }
                        ev!("call#{}: body dropped", c.leaf);
                        c.body = None;
                        c.ph = Ph::Done;
                    }
                    Ph::Done => {
                        c.fut = None;
                        continue;
                    }
                    _ => {
                        ev!("call#{}: future dropped", c.leaf);
                        c.fut = None;
                        c.ph = Ph::Done;
                    }
                }
                let (svc, sent) = (c.svc, c.sent);
                if let Some(s) = svcs[svc].as_mut() {
                    if was == Ph::Failed && ewma.is_some() {
                        // the handle may have been released when the error was
                        // returned or only now; scenario avoids the ambiguity
                    }
                    s.model.update(sim.nanos(), sim.nanos() - sent);
                }
            }
            4 => {
                if chance(60) && svcs.len() < 4 {
                    svcs.push(Some(new(sim.nanos())));
                    ev!("new service {}", svcs.len() - 1);
                } else if chance(20) {
                    let i = choose(svcs.len() as u32) as usize;
                    if i > 0 {
                        ev!("service {i} dropped");
                        svcs[i] = None;
                    }
                }
            }
            5 => {
                // no time may pass while a failed call's handle is in limbo
                if ewma.is_some() && calls.iter().any(|c| c.ph == Ph::Failed) {
                    continue;
                }
                let ms = match choose(if ewma.is_some() { 6 } else { 4 }) {
                    0 => 1,
                    1 => 1 + choose(50) as u64,
                    4 | 5 => {
                        // less than a millisecond
                        sim.advance_ns(1 + choose(400_000) as u64);
                        0
                    }
                    2 => 1 + choose(2000) as u64,
                    _ => pick(&[10_000u64, 100_000, 3_600_000, 100_000_000]),
                };
                if ms > 0 {
                    sim.advance(ms);
                }
            }
            _ => {}
        }
        // ---- the load of every service
        for (i, s) in svcs.iter_mut().enumerate() {
            let Some(s) = s else { continue };
            let sure = calls.iter().filter(|c| c.svc == i && matches!(c.ph, Ph::Flying | Ph::Body)).count();
            let limbo = calls.iter().filter(|c| c.svc == i && c.ph == Ph::Failed).count();
            if ewma.is_none() {
                let l = metric(&s.w.load());
                check!(
                    l >= sure as f64 && l <= (sure + limbo) as f64,
                    "wrong-count",
                    "service {i} reports load {l} with {sure} calls in progress (+{limbo} failed ones not released yet)"
                );
                maxload = maxload.max(sure);
            } else if chance(60) {
                let l = metric(&s.w.load());
                check!(l.is_finite() && l >= 0.0, "not-a-number", "service {i} reports load {l}");
                s.model.update(sim.nanos(), 0);
                // ambiguous only while a failed call's handle is in limbo
                let ok = (0..=limbo).any(|k| {
                    let mut m = s.model.clone();
                    for c in calls.iter().filter(|c| c.svc == i && c.ph == Ph::Failed).take(limbo - k) {
                        m.update(sim.nanos(), sim.nanos() - c.sent);
                    }
                    let want = m.est * (1 + sure + k) as f64;
                    (l - want).abs() <= want.abs() * 1e-7 + 1e-9
                });
                let ok = ok || limbo > 1;
                check!(
                    ok,
                    "wrong-estimate",
                    "service {i} reports load {l}, expected {} x {} (+{limbo} failed ones not released yet)",
                    s.model.est,
                    1 + sure
                );
                if s.model.est > 0.0 {
                    peak += 1;
                }
                maxload = maxload.max(sure);
            }
        }
    }
    // everything released: back to zero
    for c in calls.iter_mut() {
        if c.ph != Ph::Done {
            c.ph = Ph::Done;
            c.fut = None;
            c.body = None;
            let (svc, sent) = (c.svc, c.sent);
            if let Some(s) = svcs[svc].as_mut() {
                s.model.update(sim.nanos(), sim.nanos() - sent);
            }
        }
    }
    if violated() {
        return;
    }
    for (i, s) in svcs.iter().enumerate() {
        let Some(s) = s else { continue };
        let l = metric(&s.w.load());
        if ewma.is_none() {
            check!(l == 0.0, "wrong-count", "service {i} reports load {l} although nothing is in progress");
        } else {
            let mut m = s.model.clone();
            m.update(sim.nanos(), 0);
            check!((l - m.est).abs() <= m.est * 1e-7 + 1e-9, "wrong-estimate", "service {i} reports load {l} although nothing is in progress and the estimate is {}", m.est);
        }
    }
    if maxload > 1 && (ewma.is_none() || peak > 0) {
        nontrivial();
    }
    count_n("probe.max_load", maxload as u64);
}

fn leaf_cfg(ewma: bool) -> Sh {
    let mut cfg = SvcCfg::random(true);
    cfg.ready_err = 0;
    cfg.resp.now = pick(&[0, 30, 60]);
    if chance(40) {
        cfg.resp.latency = Some((0, pick(&[5, 100, 5000])));
    }
    cfg.panic_fut = if ewma { 0 } else { pick(&[0, 0, 10]) };
    shared("inner", cfg)
}

/// A discovery stream fed from outside.
#[derive(Clone)]
struct Feed(Arc<Mutex<VecDeque<Result<Change<u32, SimSvc>, SimErr>>>>);
impl Stream for Feed {
    type Item = Result<Change<u32, SimSvc>, SimErr>;
    fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        match lock(&self.0).pop_front() {
            Some(x) => Poll::Ready(Some(x)),
            None => Poll::Pending,
        }
    }
}

/// Makes services by sending them through one discovery wrapper, with
/// removals, errors and reused keys in between; all have to pass through.
fn discover<S, D>(leaf: &Sh, wrap: impl FnOnce(Feed) -> D) -> impl FnMut() -> S
where
    D: Stream<Item = Result<Change<u32, S>, SimErr>> + Unpin,
{
    let feed = Feed(Arc::new(Mutex::new(VecDeque::new())));
    let mut d = wrap(feed.clone());
    let leaf = leaf.clone();
    move || {
        let key = choose(3);
        while chance(30) {
            let c = match choose(2) {
                0 => Ok(Change::Remove(choose(3))),
                _ => Err(SimErr { kind: "discover", id: choose(100) as u64 }),
            };
            lock(&feed.0).push_back(c);
        }
        let mut want: Vec<String> = lock(&feed.0)
            .iter()
            .map(|c| match c {
                Ok(Change::Remove(k)) => format!("-{k}"),
                Err(e) => format!("!{}", e.id),
                _ => String::new(),
            })
            .collect();
        lock(&feed.0).push_back(Ok(Change::Insert(key, SimSvc::new(&leaf))));
        want.push(format!("+{key}"));
        let wk = futures_util::task::noop_waker();
        let mut cx = Context::from_waker(&wk);
        let mut seen = vec![];
        let mut svc = None;
        while let Poll::Ready(Some(x)) = Pin::new(&mut d).poll_next(&mut cx) {
            seen.push(match x {
                Ok(Change::Insert(k, s)) => {
                    svc = Some(s);
                    format!("+{k}")
                }
                Ok(Change::Remove(k)) => format!("-{k}"),
                Err(e) => format!("!{}", e.id),
            });
        }
        check!(seen == want, "change-lost", "discovery changes {want:?} became {seen:?}");
        svc.unwrap_or_else(|| {
            violate("change-lost", "an inserted service did not come out of the discovery wrapper");
            panic!("{INJECTED}: no service")
        })
    }
}

/// Sometimes puts a (never exhausted) limit around the measured service.
fn limited<W>(sim: &mut Sim, leaf: &Sh, mut mk: impl FnMut() -> W, body: bool, ewma: Option<(f64, f64)>)
where
    W: Wrap,
    W::Metric: std::fmt::Debug,
    W::Future: 'static,
    <W as Service<Req>>::Response: 'static,
    W::H: 'static,
{
    match choose(6) {
        0 => run(sim, leaf, move || ConcurrencyLimit::new(mk(), 1000), body, ewma),
        1 => run(sim, leaf, move || RateLimit::new(mk(), Rate::new(1000, Duration::from_millis(1))), body, ewma),
        _ => run(sim, leaf, mk, body, ewma),
    }
}

fn w01(sim: &mut Sim) {
    let leaf = leaf_cfg(false);
    let l2 = leaf.clone();
    match (chance(40), chance(50)) {
        (true, true) => limited(sim, &leaf, discover(&leaf, |s| PendingRequestsDiscover::new::<Req>(s, WithBody)), true, None),
        (true, false) => {
            limited(sim, &leaf, discover(&leaf, |s| PendingRequestsDiscover::new::<Req>(s, CompleteOnResponse::default())), false, None)
        }
        (false, true) => limited(sim, &leaf, move || PendingRequests::new(SimSvc::new(&l2), WithBody), true, None),
        (false, false) => {
            limited(sim, &leaf, move || PendingRequests::new(SimSvc::new(&l2), CompleteOnResponse::default()), false, None)
        }
    }
}

fn w02(sim: &mut Sim) {
    let leaf = leaf_cfg(true);
    let l2 = leaf.clone();
    let rtt: u64 = pick(&[1, 10, 100, 1000, 30_000, 1001]);
    let decay: u64 = pick(&[1000, 1, 10, 100, 10_000, 600_000, 1500]);
    let (r, d) = (Duration::from_millis(rtt), Duration::from_millis(decay));
    let dn = decay as f64 * 1e6;
    ev!("peak ewma default_rtt={rtt}ms decay={decay}ms");
    let e = Some((rtt as f64 * 1e6, dn));
    match (chance(40), chance(50)) {
        (true, true) => limited(sim, &leaf, discover(&leaf, |s| PeakEwmaDiscover::new::<Req>(s, r, d, WithBody)), true, e),
        (true, false) => {
            limited(sim, &leaf, discover(&leaf, |s| PeakEwmaDiscover::new::<Req>(s, r, d, CompleteOnResponse::default())), false, e)
        }
        (false, true) => limited(sim, &leaf, move || PeakEwma::new(SimSvc::new(&l2), r, dn, WithBody), true, e),
        (false, false) => {
            limited(sim, &leaf, move || PeakEwma::new(SimSvc::new(&l2), r, dn, CompleteOnResponse::default()), false, e)
        }
    }
}

pub fn props() -> Vec<Prop> {
    let stub = "inner services, callers, discovery stream and clock";
    vec![
        Prop { id: "W01", quick: 250_000, scns: vec![Scn { name: "pending-requests", weight: 1, run: w01 }], rule: "two calls were in progress at once", real: "tower::load (pending_requests, completion)", stub },
        Prop { id: "W02", quick: 250_000, scns: vec![Scn { name: "peak-ewma", weight: 1, run: w02 }], rule: "two calls were in progress at once", real: "tower::load (peak_ewma, completion), tokio paused clock", stub },
    ]
}
