//! W03: adapters around discovery, and balancers made from a discovery.

use super::single::Held;
use crate::core::*;
use crate::exec::*;
use crate::runner::*;
use crate::svc::*;
use crate::{check, ev};
use futures_core::Stream;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tower::balance::p2c::{MakeBalance, MakeBalanceLayer};
use tower::discover::{Change, ServiceList};
use tower::load::{CompleteOnResponse, Constant, Load, PeakEwmaDiscover, PendingRequestsDiscover};
use tower_layer::Layer;
use tower_service::Service;

#[derive(Clone, Copy, Debug, PartialEq)]
enum It {
    /// key, instance
    Insert(u32, u64),
    Remove(u32),
    Fail(u64),
    End,
}
#[derive(Default)]
struct St {
    q: VecDeque<(It, Option<SimSvc>)>,
    taken: Vec<It>,
    waker: Option<Waker>,
    ended: bool,
}
#[derive(Clone)]
struct Disc(Arc<Mutex<St>>);
impl Disc {
    fn push(&self, it: It, svc: Option<SimSvc>) {
        ev!("discovery has {it:?}");
        let w = {
            let mut s = lock(&self.0);
            s.q.push_back((it, svc));
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
impl Stream for Disc {
    type Item = Result<Change<u32, SimSvc>, SimErr>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut s = lock(&self.0);
        check!(!s.ended, "discovery-polled-after-end", "the discovery was polled again after it had ended");
        if s.ended {
            return Poll::Ready(None);
        }
        // like a channel, it does nothing for a task without budget
        if !s.q.is_empty() {
            match tokio::task::coop::poll_proceed(cx) {
                Poll::Ready(p) => p.made_progress(),
                Poll::Pending => return Poll::Pending,
            }
        }
        let Some((it, svc)) = s.q.pop_front() else {
            s.waker = Some(cx.waker().clone());
            return Poll::Pending;
        };
        s.taken.push(it);
        Poll::Ready(match it {
            It::Insert(k, _) => Some(Ok(Change::Insert(k, svc.unwrap()))),
            It::Remove(k) => Some(Ok(Change::Remove(k))),
            It::Fail(id) => Some(Err(SimErr { kind: "discover", id })),
            It::End => {
                s.ended = true;
                None
            }
        })
    }
}

/// What is known about the load of a service that has `n` calls in flight.
type LoadRule<S> = fn(&mut S, usize) -> Result<(), String>;

struct Ep<S> {
    svc: S,
    inst: u64,
    slot: WakeSlot,
    ready: bool,
}

fn adapter<D, S>(sim: &mut Sim, leaf: &Sh, disc: Disc, wrapped: D, rule: LoadRule<S>)
where
    D: Stream<Item = Result<Change<u32, S>, SimErr>>,
    S: Service<Req, Error = SimErr> + Load,
    S::Response: Into<Resp>,
    S::Future: 'static,
{
    let mut wrapped = Box::pin(wrapped);
    let slot = WakeSlot::new(sim.fresh);
    let mut waiting = false;
    let mut over = false;
    let (mut sent, mut got) = (0u64, 0u64);
    let mut out: Vec<It> = vec![];
    let mut eps: Vec<Ep<S>> = vec![];
    let mut calls: Vec<(u64, Held<S::Future>)> = vec![];
    let mut end_sent = false;
    let burst = pick(&[0, 0, 10]);
    let steps = range_free(10, 80);
    for step in 0..steps {
        if violated() {
            return;
        }
        let last = step + 1 == steps;
        match if last { 1 } else { weighted(&[12, 15, 10, 10, 8, 4]) } {
            0 if !end_sent => {
                let n = if burst > 0 && chance(burst) { range(2, 40) } else { 1 };
                for _ in 0..n {
                    sent += 1;
                    match weighted(&[10, 5, 2, 1]) {
                        0 => {
                            let s = SimSvc::new(leaf);
                            disc.push(It::Insert(choose(4), s.inst), Some(s));
                        }
                        1 => disc.push(It::Remove(choose(4)), None),
                        2 => {
                            count("fault.discover_err");
                            disc.push(It::Fail(fresh_id()), None)
                        }
                        _ => {
                            disc.push(It::End, None);
                            end_sent = true;
                            break;
                        }
                    }
                }
                check!(!waiting || slot.woken(), "not-woken", "the discovery has changes, but who waits for the adapter was not woken");
            }
            1 => {
                // until it is pending, when it matters
                for _ in 0..if last { 3000 } else { 1 } {
                    if over || violated() || (waiting && !slot.woken() && (last || chance(50))) {
                        break;
                    }
                    let before = lock(&disc.0).taken.len();
                    let left = lock(&disc.0).q.len();
                    let r = slot.poll_once(|cx| wrapped.as_mut().poll_next(cx));
                    let taken: Vec<It> = lock(&disc.0).taken[before..].to_vec();
                    let it = match r {
                        Poll::Pending => {
                            waiting = true;
                            check!(left == 0, "change-withheld", "the adapter is pending although the discovery has {left} changes");
                            check!(taken.is_empty(), "change-lost", "the adapter took {taken:?} and yielded nothing");
                            continue;
                        }
                        Poll::Ready(None) => {
                            over = true;
                            It::End
                        }
                        Poll::Ready(Some(Err(e))) => {
                            check!(e.kind == "discover", "wrong-error", "{e:?}");
                            It::Fail(e.id)
                        }
                        Poll::Ready(Some(Ok(Change::Remove(k)))) => It::Remove(k),
                        Poll::Ready(Some(Ok(Change::Insert(k, svc)))) => {
                            let inst = match taken.first() {
                                Some(It::Insert(_, i)) => *i,
                                _ => 0,
                            };
                            let mut ep = Ep { svc, inst, slot: WakeSlot::new(sim.fresh), ready: false };
                            if let Err(m) = rule(&mut ep.svc, 0) {
                                violate("wrong-load", format!("a service that was just inserted: {m}"));
                            }
                            eps.push(ep);
                            It::Insert(k, inst)
                        }
                    };
                    waiting = false;
                    got += 1;
                    ev!("adapter yields {it:?}");
                    out.push(it);
                    check!(taken == [it], "wrong-change", "the discovery yielded {taken:?}, the adapter {it:?}");
                }
            }
            2 if !eps.is_empty() => {
                let i = choose(eps.len() as u32) as usize;
                let e = &mut eps[i];
                if !e.ready {
                    let Ep { svc, slot, .. } = e;
                    match slot.poll_once(|cx| svc.poll_ready(cx)) {
                        Poll::Ready(Ok(())) => e.ready = true,
                        Poll::Ready(Err(er)) => violate("wrong-error", format!("readiness error {er:?}")),
                        Poll::Pending => {}
                    }
                } else {
                    e.ready = false;
                    let req = fresh_id();
                    let n0 = lock(&leaf.leaf).calls.len();
                    let f = e.svc.call(Req::new(req));
                    let l = lock(&leaf.leaf);
                    check!(
                        l.calls.len() == n0 + 1 && l.calls[n0].req == req && l.calls[n0].inst == e.inst,
                        "wrong-service",
                        "the service inserted with instance {} passed req#{req} on as {:?}",
                        e.inst,
                        l.calls.get(n0)
                    );
                    let inst = e.inst;
                    drop(l);
                    calls.push((inst, Held::new(f, req, sim.fresh)));
                }
            }
            3 if !calls.is_empty() => {
                let i = choose(calls.len() as u32) as usize;
                if chance(20) {
                    calls.swap_remove(i);
                } else if let Poll::Ready(r) = calls[i].1.poll() {
                    super::single::check_resp(leaf, calls[i].1.req, match r {
                        Ok(r) => {
                            let r: Resp = r.into();
                            crate::client::Out::Ok { req: r.id, call: r.call, inst: r.inst, tags: r.tags.clone() }
                        }
                        Err(e) => crate::client::Out::Err(crate::client::ErrK::Sim(e)),
                    });
                    calls.swap_remove(i);
                }
            }
            4 => {
                open_random_gate_();
            }
            5 => sim.advance(1 + choose(20) as u64),
            _ => {}
        }
        for e in &mut eps {
            let n = calls.iter().filter(|c| c.0 == e.inst).count();
            if let Err(m) = rule(&mut e.svc, n) {
                violate("wrong-load", format!("service with {n} calls in flight: {m}"));
            }
        }
    }
    if !violated() {
        let left = lock(&disc.0).q.len();
        check!(over || left == 0, "change-withheld", "{left} changes never came out of the adapter");
    }
    drop(eps);
    drop(calls);
    drop(wrapped);
    lock(&disc.0).q.clear();
    if !violated() {
        check!(live("svc") == 0 && live("fut") == 0, "leak", "{} services still alive", live("svc"));
    }
    if got > 1 && sent > 1 {
        nontrivial();
    }
    count_n("probe.changes", got);
}
fn open_random_gate_() {
    super::single::open_random_gate();
}

fn adapters(sim: &mut Sim) {
    let mut cfg = SvcCfg::random(true);
    cfg.ready_err = 0;
    let leaf = shared("ep", cfg);
    let disc = Disc(Arc::new(Mutex::new(St::default())));
    let d = disc.clone();
    let (rtt, decay) = (Duration::from_millis(5), Duration::from_millis(100));
    let done = CompleteOnResponse::default();
    fn pending<S: Load<Metric = tower::load::pending_requests::Count>>(s: &mut S, n: usize) -> Result<(), String> {
        // the number is only shown by its Debug form
        let l = format!("{:?}", s.load());
        (l == format!("Count({n})")).then_some(()).ok_or(format!("load {l}"))
    }
    fn constant<S: Load<Metric = u8>>(s: &mut S, _: usize) -> Result<(), String> {
        let l = s.load();
        (l == 7).then_some(()).ok_or(format!("load {l} instead of the constant 7"))
    }
    fn ewma<S: Load>(s: &mut S, n: usize) -> Result<(), String>
    where
        S::Metric: std::fmt::Debug,
    {
        // (W02 judges the value itself)
        let l = format!("{:?}", s.load());
        (l.starts_with("Cost(") && (n > 0 || !l.contains("NaN"))).then_some(()).ok_or(format!("load {l}"))
    }
    let kind = choose(6);
    ev!("{}", ["PendingRequestsDiscover", "PeakEwmaDiscover", "Constant", "Constant over PendingRequestsDiscover", "PendingRequestsDiscover over Constant", "PeakEwmaDiscover over PendingRequestsDiscover"][kind as usize]);
    match kind {
        0 => adapter(sim, &leaf, disc, PendingRequestsDiscover::new::<Req>(d, done), pending),
        1 => adapter(sim, &leaf, disc, PeakEwmaDiscover::new::<Req>(d, rtt, decay, done), ewma),
        2 => adapter(sim, &leaf, disc, Constant::new(d, 7u8), constant),
        3 => adapter(sim, &leaf, disc, Constant::new(PendingRequestsDiscover::new::<Req>(d, done), 7u8), constant),
        4 => adapter(sim, &leaf, disc, PendingRequestsDiscover::new::<Req>(Constant::new(d, 7u8), done), pending),
        _ => adapter(sim, &leaf, disc, PeakEwmaDiscover::new::<Req>(PendingRequestsDiscover::new::<Req>(d, done), rtt, decay, done), ewma),
    }
}

fn list(sim: &mut Sim) {
    let leaf = shared("ep", SvcCfg::random(true));
    let n = choose(6) as usize;
    let v: Vec<SimSvc> = (0..n).map(|_| SimSvc::new(&leaf)).collect();
    let want: Vec<(usize, u64)> = v.iter().enumerate().map(|(i, s)| (i, s.inst)).collect();
    let mut l = Box::pin(ServiceList::new::<Req>(v));
    let slot = WakeSlot::new(sim.fresh);
    let mut got = vec![];
    loop {
        match slot.poll_once(|cx| l.as_mut().poll_next(cx)) {
            Poll::Pending => {
                violate("change-withheld", "a list is pending".to_string());
                return;
            }
            Poll::Ready(None) => break,
            Poll::Ready(Some(Ok(Change::Insert(k, s)))) => got.push((k, s.inst)),
            Poll::Ready(Some(_)) => {
                violate("wrong-change", "a list of services yields something else than inserts".to_string());
                return;
            }
        }
        if got.len() > n {
            break;
        }
    }
    check!(got == want, "wrong-change", "services {want:?} came out of the list as {got:?}");
    if n > 1 {
        nontrivial();
    }
}

// ------------------------------------------------------------- MakeBalance

#[derive(Clone, Debug)]
struct Made {
    id: u64,
    target: u32,
    gate: usize,
    fails: bool,
    polled: bool,
    done: bool,
}
struct MakerSt {
    ready: GateMode,
    conn: GateMode,
    ready_err: u32,
    fail: u32,
    keys: u32,
    leaf: Sh,
    made: Vec<Made>,
    /// instances made for each call
    insts: Vec<(u64, u64)>,
    /// the maker's readiness as last reported
    last: u8,
}
struct Mk {
    st: Arc<Mutex<MakerSt>>,
    gate: Option<Gate>,
    ready: bool,
}
impl Clone for Mk {
    fn clone(&self) -> Self {
        Mk { st: self.st.clone(), gate: None, ready: false }
    }
}
impl Service<u32> for Mk {
    type Response = Disc;
    type Error = SimErr;
    type Future = MkFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), SimErr>> {
        let mut s = lock(&self.st);
        if self.ready {
            s.last = 1;
            return Poll::Ready(Ok(()));
        }
        if self.gate.is_none() {
            if !draining() && chance(s.ready_err) {
                count("fault.maker_ready_err");
                s.last = 2;
                return Poll::Ready(Err(SimErr { kind: "maker-err", id: 0 }));
            }
            let mode = s.ready;
            self.gate = Some(Gate::new("maker", mode, 0));
        }
        if self.gate.as_ref().unwrap().poll(cx).is_pending() {
            s.last = 0;
            return Poll::Pending;
        }
        self.gate = None;
        self.ready = true;
        s.last = 1;
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, target: u32) -> MkFut {
        check!(self.ready, "call-without-ready", "the maker was called although it was not ready");
        self.ready = false;
        let mut s = lock(&self.st);
        let id = fresh_id();
        let gate = Gate::new("make", s.conn, 0);
        let fails = chance(s.fail);
        ev!("maker call {id} for target {target}, fails={fails}");
        s.made.push(Made { id, target, gate: gate.id, fails, polled: false, done: false });
        MkFut { st: self.st.clone(), gate, id, _t: Token::new("mkfut") }
    }
}
struct MkFut {
    st: Arc<Mutex<MakerSt>>,
    gate: Gate,
    id: u64,
    _t: Token,
}
impl Future for MkFut {
    type Output = Result<Disc, SimErr>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut g = lock(&self.st);
        let s = &mut *g;
        let m = s.made.iter_mut().find(|m| m.id == self.id).unwrap();
        m.polled = true;
        check!(!m.done, "future-polled-after-completion", "the maker's future was polled after it had completed");
        if self.gate.poll(cx).is_pending() {
            return Poll::Pending;
        }
        m.done = true;
        if m.fails {
            count("fault.connect_err");
            return Poll::Ready(Err(SimErr { kind: "connect-err", id: self.id }));
        }
        let d = Disc(Arc::new(Mutex::new(St::default())));
        for k in 0..s.keys {
            let svc = SimSvc::new(&s.leaf);
            s.insts.push((self.id, svc.inst));
            lock(&d.0).q.push_back((It::Insert(k, svc.inst), Some(svc)));
        }
        Poll::Ready(Ok(d))
    }
}
/// `Balance` needs loads.
#[derive(Clone)]
struct WithLoad(Mk);
impl Service<u32> for WithLoad {
    type Response = Constant<Disc, u8>;
    type Error = SimErr;
    type Future = LoadFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), SimErr>> {
        self.0.poll_ready(cx)
    }
    fn call(&mut self, t: u32) -> LoadFut {
        LoadFut(self.0.call(t))
    }
}
struct LoadFut(MkFut);
impl Future for LoadFut {
    type Output = Result<Constant<Disc, u8>, SimErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut self.0).poll(cx).map_ok(|d| Constant::new(d, 1))
    }
}

fn make_balance(sim: &mut Sim) {
    let leaf = shared("ep", SvcCfg::fast());
    let st = Arc::new(Mutex::new(MakerSt {
        ready: GateMode { now: pick(&[50, 0, 100]), ..Default::default() },
        conn: GateMode { now: pick(&[0, 50]), ..Default::default() },
        ready_err: pick(&[0, 0, 10]),
        fail: pick(&[0, 30]),
        // (a balancer made here draws from the system's entropy when it chooses)
        keys: pick(&[1, 0]),
        leaf: leaf.clone(),
        made: vec![],
        insts: vec![],
        last: 0,
    }));
    let mk = WithLoad(Mk { st: st.clone(), gate: None, ready: false });
    let mut mb: MakeBalance<WithLoad, Req> = if chance(50) { MakeBalance::new(mk) } else { MakeBalanceLayer::<WithLoad, Req>::new().layer(mk) };
    let slot = WakeSlot::new(sim.fresh);
    let mut ready = false;
    let mut waiting = false;
    let mut futs: Vec<(u64, u32, Held<_>)> = vec![];
    let mut bals: Vec<(u64, _)> = vec![];
    let mut made = 0;
    let steps = range_free(10, 70);
    for _ in 0..steps {
        if violated() {
            return;
        }
        match weighted(&[14, 10, 14, 8, 2]) {
            0 => {
                if ready {
                    let t = choose(100);
                    let n0 = lock(&st).made.len();
                    let f = mb.call(t);
                    ready = false;
                    let s = lock(&st);
                    check!(s.made.len() == n0 + 1 && s.made[n0].target == t, "wrong-target", "a call with target {t} reached the maker as {:?}", s.made.get(n0));
                    let id = s.made[n0].id;
                    drop(s);
                    futs.push((id, t, Held::new(f, id, sim.fresh)));
                    continue;
                }
                if waiting && !slot.woken() && chance(70) {
                    continue;
                }
                let r = slot.poll_once(|cx| mb.poll_ready(cx));
                waiting = r.is_pending();
                let code = match &r {
                    Poll::Pending => 0,
                    Poll::Ready(Ok(())) => 1,
                    Poll::Ready(Err(e)) => {
                        check!(e.kind == "maker-err", "wrong-error", "{e:?}");
                        2
                    }
                };
                check!(code == lock(&st).last, "wrong-readiness", "MakeBalance reports {code}, its maker {} (0 pending, 1 ready, 2 failed)", lock(&st).last);
                ready = code == 1;
            }
            1 => {
                open_random_gate_();
                if waiting && lock(&st).made.is_empty() && closed_gates(true).is_empty() {
                    check!(slot.woken(), "not-woken", "the maker is ready, but who waits was not woken");
                }
            }
            2 if !futs.is_empty() => {
                let i = choose(futs.len() as u32) as usize;
                if futs[i].2.was_polled() && !futs[i].2.slot.woken() && chance(70) {
                    continue;
                }
                let (id, t) = (futs[i].0, futs[i].1);
                let m0 = lock(&st).made.iter().find(|m| m.id == id).unwrap().clone();
                let open = ctx().lock().gates[m0.gate].open;
                let r = futs[i].2.poll();
                let m = lock(&st).made.iter().find(|m| m.id == id).unwrap().clone();
                match r {
                    Poll::Pending => check!(!open && !m.done, "response-withheld", "the discovery for target {t} is there, the balancer is not"),
                    Poll::Ready(Ok(b)) => {
                        check!(m.done && !m.fails, "phantom-response", "a balancer for target {t} appeared: {m:?}");
                        made += 1;
                        bals.push((id, b));
                        futs.swap_remove(i);
                    }
                    Poll::Ready(Err(e)) => {
                        check!(m.done && m.fails && e.id == id, "wrong-error", "making a balancer for target {t} failed with {e:?}: {m:?}");
                        futs.swap_remove(i);
                    }
                }
            }
            3 if !bals.is_empty() => {
                let i = choose(bals.len() as u32) as usize;
                let (id, b) = &mut bals[i];
                let s = WakeSlot::new(true);
                match s.poll_once(|cx| b.poll_ready(cx)) {
                    Poll::Ready(Ok(())) => {
                        let n0 = lock(&leaf.leaf).calls.len();
                        drop(b.call(Req::new(fresh_id())));
                        let l = lock(&leaf.leaf);
                        let inst = l.calls.get(n0).map_or(0, |c| c.inst);
                        check!(lock(&st).insts.contains(&(*id, inst)), "wrong-service", "a balancer sent a request to instance {inst}, which was not discovered for its target");
                    }
                    Poll::Ready(Err(e)) => violate("wrong-error", format!("the balancer failed: {e}")),
                    Poll::Pending => check!(lock(&st).keys == 0, "never-ready", "the balancer does not get ready with a ready endpoint"),
                }
            }
            4 => match choose(3) {
                0 if !futs.is_empty() => {
                    ev!("drop future");
                    futs.swap_remove(0);
                }
                1 if !bals.is_empty() => {
                    bals.swap_remove(0);
                }
                _ if !ready => {
                    mb = mb.clone();
                    waiting = false;
                }
                _ => {}
            },
            _ => {}
        }
        for f in &futs {
            if f.2.was_polled() && !f.2.slot.woken() {
                let m = lock(&st).made.iter().find(|m| m.id == f.0).unwrap().clone();
                check!(!ctx().lock().gates[m.gate].open, "not-woken", "the discovery for target {} is there, but who waits for the balancer was not woken", f.1);
            }
        }
    }
    drop(futs);
    drop(bals);
    drop(mb);
    if !violated() {
        check!(live("mkfut") == 0 && live("svc") == 0, "leak", "{} futures and {} services still alive", live("mkfut"), live("svc"));
    }
    if made > 0 {
        nontrivial();
    }
    count_n("probe.balancers", made);
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "W03",
        quick: 300_000,
        scns: vec![
            Scn { name: "discover-adapters", weight: 6, run: adapters },
            Scn { name: "service-list", weight: 1, run: list },
            Scn { name: "make-balance", weight: 4, run: make_balance },
        ],
        rule: "two changes went through an adapter, or a balancer was made",
        real: "tower::load (PendingRequestsDiscover, PeakEwmaDiscover, Constant), tower::discover, tower::balance::p2c (MakeBalance, MakeBalanceLayer, Balance)",
        stub: "discovery streams, makers, endpoints and clock",
    }]
}
