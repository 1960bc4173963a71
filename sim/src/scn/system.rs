//! X01: a whole client composed of tower's layers over endpoints that crash,
//! hang, refuse connections, come and go.

use crate::client::*;
use crate::core::*;
use crate::exec::*;
use crate::runner::{Prop, Scn};
use crate::scn::stack::{BoxFut, D, N};
use crate::svc::*;
use crate::{check, ev};
use futures_core::Stream;
use std::collections::{BTreeMap, VecDeque};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tower::balance::p2c::Balance;
use tower::buffer::Buffer;
use tower::discover::Change;
use tower::hedge::Hedge;
use tower::load::{CompleteOnResponse, Constant, Load, PeakEwma, PendingRequests};
use tower::reconnect::Reconnect;
use tower::retry::backoff::{Backoff, ExponentialBackoff, ExponentialBackoffMaker, MakeBackoff};
use tower::retry::budget::{Budget, TpsBudget};
use tower::retry::Policy;
use tower::spawn_ready::SpawnReady;
use tower::util::ServiceExt;
use tower::{service_fn, ServiceBuilder};
use tower_service::Service;

#[derive(Clone)]
struct R;
impl tower::util::rng::Rng for R {
    fn next_u64(&mut self) -> u64 {
        ((choose(1 << 20) as u64) << 44) ^ choose(1 << 30) as u64
    }
}

/// One endpoint: a remote process that accepts connections while it is up.
struct Endpoint {
    key: u32,
    k: usize,
    up: bool,
    /// the network drops everything silently
    hole: bool,
    svc: SvcCfg,
    connect: GateMode,
    refuse: u32,
    conns: Vec<Sh>,
    refused: u64,
    max: u64,
}
type E = Arc<Mutex<Endpoint>>;

impl Endpoint {
    fn inflight(&self) -> u64 {
        self.conns.iter().map(|s| lock(&s.leaf).inflight).sum()
    }
}
/// The process dies: its connections are reset.
fn crash(e: &E) {
    let mut g = lock(e);
    g.up = false;
    ev!("endpoint {} crashes", g.key);
    count("fault.endpoint_crash");
    let mut gates = vec![];
    for s in &g.conns {
        let mut l = lock(&s.leaf);
        l.dead = true;
        for c in &l.calls {
            if c.end.is_none() {
                gates.push(c.gate);
            }
        }
    }
    drop(g);
    for id in gates {
        let open = ctx().lock().gates[id].open;
        if !open {
            open_gate(id);
        }
    }
}

fn connection(e: &E) -> N {
    let (k, rate, spawn) = (lock(e).k, chance(15), chance(15));
    let e2 = e.clone();
    let mk = service_fn(move |_: u8| {
        let e = e2.clone();
        async move {
            let mode = {
                let g = lock(&e);
                GateMode { hang: if g.hole && !draining() { 100 } else { g.connect.hang }, now: if g.hole { 0 } else { g.connect.now }, ..g.connect }
            };
            Gate::new("connect", mode, 0).await;
            let mut g = lock(&e);
            if !g.up || (!draining() && chance(g.refuse)) {
                count("fault.connect_err");
                ev!("endpoint {} refuses a connection", g.key);
                g.refused += 1;
                let e: BoxError = SimErr { kind: "connect-err", id: g.key as u64 }.into();
                return Err(e);
            }
            let sh = shared("conn", if g.hole { SvcCfg { ready: GateMode { hang: 100, ..Default::default() }, ..g.svc } } else { g.svc });
            ev!("endpoint {} accepts connection {}", g.key, g.conns.len());
            count("probe.connected");
            g.conns.push(sh.clone());
            Ok(SimSvc::new(&sh))
        }
    });
    let mk = mk.map_future(|f| Box::pin(f) as BoxFut<Result<SimSvc, BoxError>>);
    let s = Reconnect::new(mk, 0u8);
    let b = ServiceBuilder::new().concurrency_limit(k);
    if spawn {
        N::new(b.service(SpawnReady::new(s)))
    } else if rate {
        N::new(b.rate_limit(4, Duration::from_millis(10)).service(s))
    } else {
        N::new(b.service(s))
    }
}

#[derive(Default)]
struct DiscSt {
    q: VecDeque<Change<u32, N>>,
    waker: Option<Waker>,
}
struct Disc<W> {
    st: Arc<Mutex<DiscSt>>,
    wrap: fn(N) -> W,
}
impl<W> Stream for Disc<W> {
    type Item = Result<Change<u32, W>, SimErr>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut d = lock(&self.st);
        match d.q.pop_front() {
            None => {
                d.waker = Some(cx.waker().clone());
                Poll::Pending
            }
            Some(Change::Insert(k, s)) => {
                ev!("balancer takes insert of {k}");
                Poll::Ready(Some(Ok(Change::Insert(k, (self.wrap)(s)))))
            }
            Some(Change::Remove(k)) => {
                ev!("balancer takes removal of {k}");
                Poll::Ready(Some(Ok(Change::Remove(k))))
            }
        }
    }
}
fn announce(st: &Arc<Mutex<DiscSt>>, c: Change<u32, N>) {
    let w = {
        let mut d = lock(st);
        d.q.push_back(c);
        d.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}

struct Pol {
    left: u32,
    budget: Arc<TpsBudget>,
    back: Arc<Mutex<ExponentialBackoffMaker<R>>>,
    cur: Option<ExponentialBackoff<R>>,
}
impl Clone for Pol {
    fn clone(&self) -> Self {
        Pol { left: self.left, budget: self.budget.clone(), back: self.back.clone(), cur: None }
    }
}
impl Policy<Req, Resp, BoxError> for Pol {
    type Future = tokio::time::Sleep;
    fn retry(&mut self, req: &mut Req, r: &mut Result<Resp, BoxError>) -> Option<Self::Future> {
        if r.is_ok() {
            self.budget.deposit();
            return None;
        }
        if self.left == 0 || !self.budget.withdraw() {
            count("probe.retry_refused");
            return None;
        }
        self.left -= 1;
        count("probe.retry");
        ev!("policy retries req#{}", req.id);
        let back = &self.back;
        Some(self.cur.get_or_insert_with(|| lock(back).make_backoff()).next_backoff())
    }
    fn clone_request(&mut self, req: &Req) -> Option<Req> {
        Some(req.clone())
    }
}
#[derive(Clone)]
struct HPol;
impl tower::hedge::Policy<Req> for HPol {
    fn clone_request(&self, req: &Req) -> Option<Req> {
        Some(req.clone())
    }
    fn can_retry(&self, _: &Req) -> bool {
        true
    }
}

fn balancer<W>(st: &Arc<Mutex<DiscSt>>, wrap: fn(N) -> W, bound: usize, name: &str) -> D
where
    W: Service<Req, Response = Resp> + Load + Send + 'static,
    W::Error: Into<BoxError>,
    W::Future: Send + 'static,
    W::Metric: std::fmt::Debug,
{
    let bal = Balance::<_, Req>::from_rng(Disc { st: st.clone(), wrap }, R);
    let (b, w) = Buffer::pair(N::new(bal), bound);
    spawn_later(name.to_string(), w);
    D::new(b)
}

fn system(sim: &mut Sim) {
    let d: Arc<Mutex<DiscSt>> = Default::default();
    let hedge = chance(30);
    let bound = if hedge { 8 } else { pick(&[1usize, 2, 8]) };
    let mut stack = match choose(3) {
        0 => balancer(&d, |s| Constant::new(s, 1u32), bound, "balance worker"),
        1 => balancer(&d, |s| PendingRequests::new(s, CompleteOnResponse::default()), bound, "balance worker"),
        _ => balancer(&d, |s| PeakEwma::new(s, Duration::from_millis(5), 1e7, CompleteOnResponse::default()), bound, "balance worker"),
    };
    if hedge {
        let h = Hedge::new(stack, HPol, choose(3) as u64, pick(&[0.5, 0.9]), Duration::from_millis(100));
        let (b, w) = Buffer::pair(N::new(h), 8);
        spawn_later("hedge worker".to_string(), w);
        stack = D::new(b);
    }
    let attempt = pick(&[10u64, 20, 40]);
    stack = D::new(ServiceBuilder::new().timeout(Duration::from_millis(attempt)).service(stack));
    let retries = choose(3);
    let min = pick(&[0u64, 1, 5]);
    let back = ExponentialBackoffMaker::new(Duration::from_millis(min), Duration::from_millis(10), pick(&[0.0, 0.5, 1.0]), R).expect("legal");
    if retries > 0 {
        let p = Pol {
            left: retries,
            budget: Arc::new(TpsBudget::new(Duration::from_secs(1), pick(&[1, 10]), pick(&[0.2f32, 0.5, 2.0]))),
            back: Arc::new(Mutex::new(back)),
            cur: None,
        };
        stack = D::new(ServiceBuilder::new().retry(p).service(stack));
    }
    let total = if chance(70) { Some(pick(&[50u64, 100, 200])) } else { None };
    let shed = total.is_some() && chance(40);
    let limit = 1 + choose(4) as usize;
    // with the limit outside, waiting for it is not part of the timed call
    let outside = chance(50);
    if let Some(t) = total {
        let b = ServiceBuilder::new();
        let t = Duration::from_millis(t);
        stack = if outside { D::new(b.concurrency_limit(limit).timeout(t).service(stack)) } else { D::new(b.timeout(t).concurrency_limit(limit).service(stack)) };
    } else {
        stack = D::new(ServiceBuilder::new().concurrency_limit(limit).service(stack));
    }
    if shed {
        stack = D::new(ServiceBuilder::new().load_shed().service(stack));
    }
    ev!("client: shed={shed} limit={limit} total={total:?} retries={retries} hedge={hedge} attempt={attempt} buffer={bound}");

    // endpoints
    let svc = SvcCfg {
        ready: GateMode { now: pick(&[100, 50]), hang: pick(&[0, 0, 10]), latency: Some((0, 5)) },
        ready_err: pick(&[0, 0, 10]),
        resp: GateMode { now: pick(&[100, 50, 20]), hang: pick(&[0, 0, 20]), latency: Some((0, pick(&[5, 30]))) },
        resp_err: pick(&[0, 10, 30]),
        ..Default::default()
    };
    let connect = GateMode { now: pick(&[100, 50]), hang: pick(&[0, 0, 10]), latency: Some((0, 10)) };
    let refuse = pick(&[0, 0, 20]);
    let k = 1 + choose(3) as usize;
    let all: Arc<Mutex<Vec<E>>> = Default::default();
    let mut present: BTreeMap<u32, E> = BTreeMap::new();
    let new_ep = |key: u32| -> E {
        let e: E = Arc::new(Mutex::new(Endpoint { key, k, up: true, hole: false, svc, connect, refuse, conns: vec![], refused: 0, max: 0 }));
        lock(&all).push(e.clone());
        e
    };
    for key in 0..1 + choose(3) {
        let e = new_ep(key);
        announce(&d, Change::Insert(key, connection(&e)));
        present.insert(key, e);
    }
    let all2 = all.clone();
    let h = hist();
    let h2 = h.clone();
    let per_req = (1 + retries as u64) * if hedge { 2 } else { 1 };
    sim.check_hook = Some(Box::new(move || {
        let mut per: BTreeMap<u64, u64> = BTreeMap::new();
        for e in lock(&all2).iter() {
            let mut g = lock(e);
            let n = g.inflight();
            g.max = g.max.max(n);
            check!(n <= g.k as u64, "endpoint-overload", "endpoint {} has {n} requests in flight, its limit is {}", g.key, g.k);
            for s in &g.conns {
                for c in &lock(&s.leaf).calls {
                    *per.entry(c.req).or_default() += 1;
                }
            }
        }
        for (r, n) in per {
            check!(n <= per_req, "too-many-attempts", "req#{r} was sent {n} times, policy allows {per_req}");
            // a request nobody waits for any more
            let _ = &h2;
        }
    }));

    let mut cc = CliCfg::random();
    cc.stop_on_err = true;
    cc.pause = pick(&[0, 10, 40]);
    cc.drop_fut = pick(&[0, 0, 5]);
    let mut left = 1 + choose(4);
    let mut next = 0;
    let prompt = chance(60) && total.is_some();
    let actions = range_free(5, 50);
    let mut todo = actions;
    let (h3, d3) = (h.clone(), d.clone());
    let mut base = stack.clone();
    let crashes = pick(&[0, 10, 25]);
    let churn = pick(&[0, 10, 25]);
    let holes = pick(&[0, 0, 10]);
    let cancel = pick(&[0, 0, 10]);
    let mut act = |sim: &mut Sim| -> bool {
        if todo == 0 {
            return false;
        }
        todo -= 1;
        let w = [30, crashes, crashes, churn, churn, holes, cancel, 5];
        match weighted(&w) {
            0 => {
                if left > 0 {
                    left -= 1;
                    next += 1;
                    let mut c = cc;
                    c.reqs = 2 + choose(6) as u64;
                    sim.spawn(format!("client{next}"), client(h3.clone(), next, split(&mut base), Some(|s: &D| s.clone()), c));
                }
            }
            1 => {
                let v: Vec<_> = present.values().filter(|e| lock(e).up).cloned().collect();
                if !v.is_empty() {
                    crash(&v[choose(v.len() as u32) as usize]);
                }
            }
            2 => {
                let v: Vec<_> = present.values().filter(|e| !lock(e).up).cloned().collect();
                if !v.is_empty() {
                    let mut g = lock(&v[choose(v.len() as u32) as usize]);
                    ev!("endpoint {} restarts", g.key);
                    count("fault.endpoint_restart");
                    g.up = true;
                }
            }
            3 => {
                let key = choose(4);
                count("fault.discovery_insert");
                ev!("discovery announces {key}");
                let e = new_ep(key);
                announce(&d3, Change::Insert(key, connection(&e)));
                present.insert(key, e);
            }
            4 => {
                let key = choose(4);
                count("fault.discovery_remove");
                ev!("discovery withdraws {key}");
                announce(&d3, Change::Remove(key));
                present.remove(&key);
            }
            5 => {
                let v: Vec<_> = present.values().cloned().collect();
                if !v.is_empty() {
                    let mut g = lock(&v[choose(v.len() as u32) as usize]);
                    g.hole = !g.hole;
                    ev!("endpoint {} black hole: {}", g.key, g.hole);
                    count("fault.partition");
                    let hole = g.hole;
                    for s in &g.conns {
                        let mut c = lock(&s.cfg);
                        *c = if hole { SvcCfg { resp: GateMode { hang: 100, ..Default::default() }, ..svc } } else { svc };
                    }
                }
            }
            6 => {
                cancel_random(sim);
            }
            _ => {}
        }
        true
    };
    act(sim);
    if prompt {
        // every node is polled promptly: deadlines must hold to the tick
        let total = total.unwrap();
        for _ in 0..actions * 3 {
            if violated() {
                return;
            }
            sim.steps += 1;
            sim.absorb();
            if chance(40) {
                if !act(sim) && sim.all_done() {
                    break;
                }
            } else if chance(20) {
                let g = closed_gates(false);
                if !g.is_empty() {
                    open_gate(pick(&g));
                }
            } else {
                sim.settle(true);
                let ms = match next_gate_time() {
                    Some(t) if t > now() && chance(50) => t - now(),
                    _ => 1 + choose(30) as u64,
                };
                sim.advance(ms);
                sim.settle(true);
                for r in lock(&h).recs.iter() {
                    let age = now() - r.t_call;
                    check!(r.out.is_some() || age <= total + 1, "deadline-missed", "req#{} is unanswered after {age} ms, its total timeout is {total} ms", r.req);
                }
            }
        }
        // a waiting client may not have had its turn
    } else {
        let mut dr = Drive::random(30, 200);
        dr.background = 8;
        dr.advance = pick(&[5, 15]);
        sim.drive(&dr, &mut |sim| act(sim));
    }
    if violated() {
        return;
    }
    // ------------------------------------------------------------ faults stop
    drop(act);
    ev!("--- faults stop ---");
    let heal = chance(50);
    ctx().lock().draining = true;
    let hung: Vec<usize> = {
        let c = ctx();
        let i = c.lock();
        (0..i.gates.len()).filter(|x| i.gates[*x].hang && !i.gates[*x].open).collect()
    };
    if heal {
        for g in hung {
            open_gate(g);
        }
    }
    for e in lock(&all).iter() {
        let mut g = lock(e);
        g.hole = false;
        if heal {
            g.up = true;
        }
        g.connect = GateMode { now: 50, hang: 0, latency: Some((0, 2)) };
        g.svc = SvcCfg { ready: GateMode { now: 50, hang: 0, latency: Some((0, 1)) }, resp: GateMode { now: 50, hang: 0, latency: Some((0, 2)) }, ..Default::default() };
        for s in &g.conns {
            *lock(&s.cfg) = g.svc;
        }
    }
    if !heal {
        // what was down stays down; replacements appear under fresh keys
        let fresh = new_ep(10);
        {
            let mut g = lock(&fresh);
            g.refuse = 0;
            g.connect = GateMode { now: 50, hang: 0, latency: Some((0, 2)) };
            g.svc = SvcCfg { ready: GateMode { now: 50, hang: 0, latency: Some((0, 1)) }, resp: GateMode { now: 50, hang: 0, latency: Some((0, 2)) }, ..Default::default() };
        }
        for (k, e) in &present {
            if !lock(e).up || chance(30) {
                announce(&d, Change::Remove(*k));
            }
        }
        announce(&d, Change::Insert(10, connection(&fresh)));
    } else if present.is_empty() {
        let fresh = new_ep(10);
        {
            let mut g = lock(&fresh);
            g.refuse = 0;
            g.connect = GateMode { now: 100, ..Default::default() };
            g.svc = SvcCfg::fast();
        }
        announce(&d, Change::Insert(10, connection(&fresh)));
    }
    let drain = |sim: &mut Sim, horizon: u64, class: &str| {
        let end = now() + horizon;
        loop {
            if violated() {
                return;
            }
            sim.settle(true);
            if violated() || sim.all_done() {
                return;
            }
            let g: Vec<usize> = {
                let c = ctx();
                let i = c.lock();
                closed_in(&i, "hold")
            };
            if !g.is_empty() {
                open_gate(pick(&g));
                continue;
            }
            if now() >= end {
                let names: Vec<_> = sim.unfinished().iter().map(|i| sim.tasks[*i].name.clone()).collect();
                violate(class, format!("{horizon} ms after faults stopped still unanswered: {names:?}"));
                return;
            }
            sim.advance(if class == "stuck" { pick(&[1, 5]) } else { 1 });
        }
    };
    drain(sim, 5_000, "stuck");
    if violated() {
        return;
    }
    for _ in 0..10 {
        sim.settle(true);
        sim.advance(2);
    }
    sim.settle(true);
    let failed_before = lock(&h).recs.iter().filter(|r| matches!(r.out, Some(Out::Err(_)))).count();
    // new requests succeed with the same client
    // (load shedding may refuse a request whose task has no budget left)
    sim.coop = false;
    let endpoints = lock(&all).len() as u64;
    let mut bad = vec![];
    for i in 0..8u32 {
        let s = stack.clone();
        let c = CliCfg { reqs: 1, inline: 100, stop_on_err: true, ..Default::default() };
        // (endpoints may be rate limited to 4 requests in 10 ms)
        sim.advance(15);
        sim.settle(true);
        let before = lock(&h).recs.len();
        let t = now();
        sim.spawn(format!("probe{i}"), client(h.clone(), 100 + i, s, None, c));
        drain(sim, 2_000, "not-recovered");
        if violated() {
            return;
        }
        let hh = lock(&h);
        match hh.recs.get(before).and_then(|r| r.out.clone()) {
            Some(Out::Ok { .. }) => {}
            o => bad.push((i, now() - t, o)),
        }
    }
    // an endpoint that had failed reports that once, with the next request
    for (i, _, o) in &bad {
        check!(
            matches!(o, Some(Out::Err(ErrK::Sim(e))) if e.kind == "connect-err" || e.kind == "resp-err"),
            "not-recovered",
            "probe {i} after faults stopped got {o:?}"
        );
    }
    check!(bad.len() as u64 <= endpoints, "not-recovered", "{} of 8 requests failed after faults stopped with {endpoints} endpoints: {bad:?}", bad.len());
    if violated() {
        return;
    }
    // ------------------------------------------------------------ judgement
    let (mut ok, mut errs) = (0, 0);
    {
        let hh = lock(&h);
        let eps = lock(&all);
        let find = |call: u64| -> Option<LeafCall> {
            eps.iter().find_map(|e| lock(e).conns.iter().find_map(|s| lock(&s.leaf).calls.iter().find(|c| c.call == call).cloned()))
        };
        for r in &hh.recs {
            match r.out.as_ref() {
                None => violate("lost-request", format!("req#{} has no outcome", r.req)),
                Some(Out::Ok { req, call, .. }) => {
                    ok += 1;
                    check!(*req == r.req, "swapped-response", "req#{} got the response of req#{req}", r.req);
                    match find(*call) {
                        Some(c) => check!(c.req == r.req && c.ok && c.end == Some(true), "phantom-response", "req#{} got a response of {c:?}", r.req),
                        None => violate("phantom-response", format!("req#{} got a response of unknown call#{call}", r.req)),
                    }
                }
                Some(Out::Err(k)) => {
                    errs += 1;
                    let fine = match k {
                        ErrK::Sim(e) if e.kind == "resp-err" => find(e.id).is_some_and(|c| c.req == r.req && !c.ok),
                        ErrK::Sim(e) if e.kind == "connect-err" => true,
                        ErrK::Elapsed => true,
                        ErrK::Overloaded => shed,
                        _ => false,
                    };
                    check!(fine, "wrong-error", "req#{} failed with {k:?}", r.req);
                    if let (ErrK::Elapsed, Some(t)) = (k, total) {
                        let age = r.t_out - r.t_call;
                        check!(age + 1 >= attempt.min(t), "early-timeout", "req#{} timed out after {age} ms; attempts have {attempt} ms, calls {t} ms", r.req);
                    }
                }
                Some(Out::Dropped) => {}
            }
        }
        for (c, k, _, _) in &hh.ready_errs {
            violate("wrong-error", format!("client {c} got readiness error {k:?} although no layer can fail"));
        }
    }
    if ok > 1 && (errs > 0 || failed_before > 0) {
        nontrivial();
    }
    count_n("probe.answered", ok);
    count_n("probe.failed_request", errs);
    // ------------------------------------------------------------ nothing is left
    drop(stack);
    drop(base);
    drop(d);
    present_drop(&all);
    let end = now() + 5_000;
    loop {
        sim.settle(true);
        let idle = (0..sim.tasks.len()).all(|i| !sim.running(i)) && sim.handle().metrics().num_alive_tasks() == 0;
        if idle || now() >= end || violated() {
            break;
        }
        sim.advance(25);
    }
    for id in 0..sim.tasks.len() {
        check!(!sim.running(id), "worker-leak", "{} does not terminate although all handles and calls are gone", sim.tasks[id].name);
    }
    let alive = sim.handle().metrics().num_alive_tasks();
    check!(alive == 0, "worker-leak", "{alive} background tasks do not terminate although all handles and calls are gone");
    for k in ["svc", "fut", "req"] {
        check!(live(k) == 0, "leak", "{} {k} objects outlive the client", live(k));
    }
}

fn present_drop(all: &Arc<Mutex<Vec<E>>>) {
    lock(all).clear();
}
/// Closed gates of one kind that somebody still waits for.
fn closed_in(i: &Inner, kind: &str) -> Vec<usize> {
    (0..i.gates.len()).filter(|x| !i.gates[*x].open && !i.gates[*x].dropped && (i.gates[*x].kind == kind || i.gates[*x].kind == "linger")).collect()
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "X01",
        quick: 50_000,
        scns: vec![Scn { name: "system", weight: 1, run: system }],
        rule: "requests were answered before and after at least one request had failed",
        real: "LoadShed, ConcurrencyLimit, Timeout, Retry, TpsBudget, ExponentialBackoff, Hedge, Buffer and workers, Balance, ReadyCache, load metrics, SpawnReady, RateLimit, Reconnect, ServiceBuilder, boxing, tokio sync and timers under a paused clock",
        stub: "endpoint processes and their network, discovery source, callers, random source, task executor",
    }]
}
