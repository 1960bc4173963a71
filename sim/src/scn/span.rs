//! B05: background work stays in the tracing span of the caller it is done for.

use crate::client::*;
use crate::core::*;
use crate::exec::*;
use crate::runner::{Prop, Scn};
use crate::scn::single::open_random_gate;
use crate::svc::*;
use crate::{check, ev};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, Once};
use std::task::{Context, Poll};
use tower::buffer::Buffer;
use tower::spawn_ready::SpawnReady;
use tower_service::Service;
use tracing::instrument::Instrument;
use tracing::span::{Attributes, Id, Record};
use tracing::subscriber::Interest;
use tracing::{Event, Metadata, Span};
use tracing_core::span::Current;

// ---------------------------------------------------------------- subscriber

#[derive(Default)]
struct Tls {
    next: u64,
    meta: BTreeMap<u64, &'static Metadata<'static>>,
    stack: Vec<u64>,
}
thread_local! {
    static TLS: RefCell<Tls> = RefCell::new(Tls::default());
}
fn tls<R: Default>(f: impl FnOnce(&mut Tls) -> R) -> R {
    TLS.try_with(|t| f(&mut t.borrow_mut())).unwrap_or_default()
}
/// The spans a thread is in; ids are those of the current run.
struct Spans;
impl tracing::Subscriber for Spans {
    fn register_callsite(&self, m: &'static Metadata<'static>) -> Interest {
        if m.is_span() {
            Interest::always()
        } else {
            Interest::sometimes()
        }
    }
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        m.is_span() || verbose()
    }
    fn max_level_hint(&self) -> Option<tracing::level_filters::LevelFilter> {
        Some(tracing::level_filters::LevelFilter::TRACE)
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        let n = tls(|t| {
            t.next += 1;
            t.meta.insert(t.next, a.metadata());
            t.next
        });
        Id::from_u64(n.max(1))
    }
    fn record(&self, _: &Id, _: &Record<'_>) {}
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        struct Sink(String);
        impl tracing_core::field::Visit for Sink {
            fn record_debug(&mut self, f: &tracing_core::Field, v: &dyn std::fmt::Debug) {
                use std::fmt::Write;
                let _ = write!(self.0, "{}={v:?}", f.name());
            }
        }
        let mut s = Sink(String::new());
        e.record(&mut s);
        count("env.log_events");
    }
    fn enter(&self, id: &Id) {
        tls(|t| t.stack.push(id.into_u64()))
    }
    fn exit(&self, id: &Id) {
        tls(|t| {
            if let Some(p) = t.stack.iter().rposition(|x| *x == id.into_u64()) {
                t.stack.remove(p);
            }
        })
    }
    fn current_span(&self) -> Current {
        tls(|t| match t.stack.last() {
            Some(id) => Cur(Current::new(Id::from_u64(*id), t.meta[id])),
            None => Cur(Current::none()),
        })
        .0
    }
}
struct Cur(Current);
impl Default for Cur {
    fn default() -> Self {
        Cur(Current::none())
    }
}

fn verbose() -> bool {
    try_ctx().map_or(false, |c| c.1.load(std::sync::atomic::Ordering::Relaxed))
}
/// Installs the subscriber; it formats every event of this run if `events`.
pub fn install_subscriber(events: bool) {
    ctx().1.store(events, std::sync::atomic::Ordering::Relaxed);
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let _ = tracing::subscriber::set_global_default(Spans);
    });
}
fn start() {
    tls(|t| *t = Tls::default());
}
fn current() -> u64 {
    tls(|t| t.stack.last().copied().unwrap_or(0))
}
/// A new span, or none at all.
fn some_span(none: u32) -> (Span, u64) {
    if chance(none) {
        return (Span::none(), 0);
    }
    let s = tracing::error_span!(parent: None, "s");
    let id = s.id().map_or(0, |i| i.into_u64());
    (s, id)
}
fn leak_hook(sim: &mut Sim) {
    sim.check_hook = Some(Box::new(|| {
        let c = current();
        check!(c == 0, "span-leak", "span {c} is still entered after the task that entered it was polled");
    }));
}

// ---------------------------------------------------------------- Buffer

struct Want {
    h: Hist,
    leaf: Sh,
    span: BTreeMap<u64, u64>,
    /// the span the worker itself runs in
    worker: u64,
}
impl Want {
    fn of(&self, req: u64) -> u64 {
        match self.span.get(&req) {
            Some(0) | None => self.worker,
            Some(s) => *s,
        }
    }
}
struct InSpan {
    svc: SimSvc,
    w: Arc<Mutex<Want>>,
}
impl Service<Req> for InSpan {
    type Response = Resp;
    type Error = SimErr;
    type Future = SimFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), SimErr>> {
        {
            let w = lock(&self.w);
            let h = lock(&w.h);
            let l = lock(&w.leaf.leaf);
            let head = h.recs.iter().find(|r| r.out.is_none() && !l.calls.iter().any(|c| c.req == r.req));
            if let Some(r) = head {
                let (got, want) = (current(), w.of(r.req));
                count("probe.span_at_poll_ready");
                check!(got == want, "wrong-span", "the service was polled for req#{} in span {got}, its caller was in {want}", r.req);
            }
        }
        self.svc.poll_ready(cx)
    }
    fn call(&mut self, req: Req) -> SimFut {
        {
            let w = lock(&self.w);
            let (got, want) = (current(), w.of(req.id));
            count("probe.span_at_call");
            check!(got == want, "wrong-span", "req#{} was dispatched in span {got}, its caller was in {want}", req.id);
        }
        self.svc.call(req)
    }
}

fn buffer(sim: &mut Sim) {
    start();
    let mut cfg = SvcCfg::random(true);
    cfg.ready_err = pick(&[0, 0, 5]);
    let leaf = shared("inner", cfg);
    let h = hist();
    let bound = 1 + choose(5) as usize;
    let (ws, wid) = some_span(50);
    let w = Arc::new(Mutex::new(Want { h: h.clone(), leaf: leaf.clone(), span: BTreeMap::new(), worker: wid }));
    let (b, worker) = Buffer::pair(InSpan { svc: SimSvc::new(&leaf), w: w.clone() }, bound);
    sim.spawn_daemon("worker", worker.instrument(ws));
    leak_hook(sim);
    let mut next = 0;
    let mut left = 2 + choose(6);
    let none = pick(&[0, 30]);
    let add = |sim: &mut Sim, next: &mut u32| {
        *next += 1;
        let c = *next;
        let (mut b, h, w) = (b.clone(), h.clone(), w.clone());
        let n = 1 + choose(4);
        let (outer, _) = some_span(50);
        let body = async move {
            for _ in 0..n {
                if std::future::poll_fn(|cx| b.poll_ready(cx)).await.is_err() {
                    return;
                }
                let req = fresh_id();
                let (s, id) = some_span(none);
                let f = {
                    let _e = s.enter();
                    let guard = begin(&h, c, req);
                    // without a span of its own it is sent from the client's
                    let id = if id == 0 { current() } else { id };
                    ev!("req#{req} is sent from span {id}");
                    lock(&w).span.insert(req, id);
                    respond(b.call(Req::new(req)), guard, false)
                };
                if chance(40) {
                    f.await;
                } else {
                    spawn_user(format!("resp req#{req}"), f);
                }
            }
        };
        sim.spawn(format!("client{c}"), body.instrument(outer));
    };
    add(sim, &mut next);
    let faults = pick(&[0, 0, 20]);
    let d = Drive::random(40, 200);
    sim.drive(&d, &mut |sim| {
        if chance(faults) {
            cancel_random(sim);
            return true;
        }
        if left == 0 {
            return false;
        }
        left -= 1;
        add(sim, &mut next);
        true
    });
    sim.drain_or_violate("stuck", 1000, 50, false);
    if violated() {
        return;
    }
    let spans: std::collections::BTreeSet<u64> = {
        let w = lock(&w);
        let l = lock(&leaf.leaf);
        l.calls.iter().map(|c| w.of(c.req)).collect()
    };
    if spans.len() > 1 {
        nontrivial();
    }
}

// ---------------------------------------------------------------- SpawnReady

#[derive(Default)]
struct Wait {
    in_caller: bool,
    caller: u64,
    want: u64,
    background: u64,
}
struct Waited {
    svc: SimSvc,
    w: Arc<Mutex<Wait>>,
}
impl Service<Req> for Waited {
    type Response = Resp;
    type Error = SimErr;
    type Future = SimFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), SimErr>> {
        let got = current();
        {
            let mut w = lock(&self.w);
            if w.in_caller {
                check!(got == w.caller, "wrong-span", "polled by its caller in span {got} instead of {}", w.caller);
            } else {
                w.background += 1;
                check!(got == w.want, "wrong-span", "polled in the background in span {got}; the wait began in {}", w.want);
            }
        }
        let r = self.svc.poll_ready(cx);
        let mut w = lock(&self.w);
        if w.in_caller && r.is_pending() {
            w.want = got;
        }
        r
    }
    fn call(&mut self, req: Req) -> SimFut {
        self.svc.call(req)
    }
}

fn spawn_ready(sim: &mut Sim) {
    start();
    let mut cfg = SvcCfg::random(false);
    cfg.ready.now = pick(&[0, 20, 50]);
    let leaf = shared("inner", cfg);
    let w: Arc<Mutex<Wait>> = Default::default();
    let mut sr = SpawnReady::new(Waited { svc: SimSvc::new(&leaf), w: w.clone() });
    let slot = WakeSlot::new(true);
    let mut ready = false;
    for _ in 0..range_free(10, 60) {
        if violated() {
            return;
        }
        match choose(4) {
            0 if ready => {
                ready = false;
                drop(Service::<Req>::call(&mut sr, Req::new(fresh_id())));
            }
            0 | 1 => {
                let (s, id) = some_span(20);
                ev!("poll_ready in span {id}");
                {
                    let mut w = lock(&w);
                    w.in_caller = true;
                    w.caller = id;
                }
                let wk = slot.next();
                let r = s.in_scope(|| Service::<Req>::poll_ready(&mut sr, &mut Context::from_waker(&wk)));
                lock(&w).in_caller = false;
                match r {
                    Poll::Ready(Ok(())) => ready = true,
                    Poll::Ready(Err(_)) => return,
                    Poll::Pending => ready = false,
                }
            }
            2 => sim.background(),
            _ => {
                open_random_gate();
            }
        }
        let c = current();
        check!(c == 0, "span-leak", "span {c} is still entered");
    }
    if lock(&w).background > 1 {
        nontrivial();
    }
    drop(sr);
    sim.background();
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "B05",
        quick: 150_000,
        scns: vec![
            Scn { name: "buffer-spans", weight: 3, run: buffer },
            Scn { name: "spawn-ready-spans", weight: 1, run: spawn_ready },
        ],
        rule: "requests sent from different spans were dispatched, or a background wait was polled twice",
        real: "tower::buffer (service, worker), tower::spawn_ready, tracing spans and their propagation",
        stub: "tracing subscriber, inner service, callers, executor",
    }]
}
