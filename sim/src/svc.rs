//! Simulated leaf services, requests, responses, errors and contract probes.

use crate::core::*;
use crate::{check, ev};
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tower_service::Service;

pub type BoxError = tower::BoxError;

#[derive(Clone)]
pub struct Req {
    pub id: u64,
    pub tags: Vec<u16>,
    _t: Token,
}
impl Req {
    pub fn new(id: u64) -> Req {
        Req { id, tags: vec![], _t: Token::new("req") }
    }
    pub fn tag(mut self, t: u16) -> Req {
        boom("closure");
        self.tags.push(t);
        self
    }
}
impl fmt::Debug for Req {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "req#{}{:?}", self.id, self.tags)
    }
}

pub struct Resp {
    pub id: u64,
    /// id of the dispatch (leaf call) that produced it
    pub call: u64,
    pub inst: u64,
    pub tags: Vec<u16>,
    _t: Token,
}
impl Resp {
    pub fn new(id: u64, call: u64, inst: u64) -> Resp {
        Resp { id, call, inst, tags: vec![], _t: Token::new("resp") }
    }
    pub fn tag(mut self, t: u16) -> Resp {
        boom("closure");
        self.tags.push(t);
        self
    }
}
impl fmt::Debug for Resp {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "resp(req#{} call#{} svc#{} {:?})", self.id, self.call, self.inst, self.tags)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SimErr {
    pub kind: &'static str,
    pub id: u64,
}
impl fmt::Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}#{}", self.kind, self.id)
    }
}
impl std::error::Error for SimErr {}

/// An error wrapped by a `map_err` layer.
pub struct TagErr(pub u16, pub BoxError);
impl fmt::Debug for TagErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}:{}", self.0, self.1)
    }
}
impl fmt::Display for TagErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}:{}", self.0, self.1)
    }
}
impl std::error::Error for TagErr {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&*self.1)
    }
}

/// Finds a SimErr in an error or its source chain.
pub fn sim_err(e: &BoxError) -> Option<SimErr> {
    let mut cur: Option<&(dyn std::error::Error + 'static)> = Some(&**e);
    while let Some(x) = cur {
        if let Some(s) = x.downcast_ref::<SimErr>() {
            return Some(s.clone());
        }
        cur = x.source();
    }
    None
}

#[derive(Clone, Copy, Debug, Default)]
pub struct SvcCfg {
    pub ready: GateMode,
    pub ready_err: u32,
    /// percent of readiness errors after which the instance works again
    pub transient: u32,
    pub resp: GateMode,
    pub resp_err: u32,
    /// percent of readiness waits that turn out to be only a step
    pub stages: u32,
    /// percent of polls of a ready service that withdraw readiness
    pub withdraw: u32,
    /// percent of polls of a ready service that fail
    pub break_ready: u32,
    /// percent of readiness waits that end in a panic of `poll_ready`
    pub panic_ready: u32,
    /// percent of calls whose future panics when it would complete
    pub panic_fut: u32,
    /// percent of calls that panic inside `call`
    pub panic_call: u32,
}
impl SvcCfg {
    pub fn fast() -> Self {
        SvcCfg {
            ready: GateMode { now: 100, ..Default::default() },
            resp: GateMode { now: 100, ..Default::default() },
            ..Default::default()
        }
    }
    /// Draws a random behaviour profile.
    pub fn random(faults: bool) -> Self {
        let mut c = SvcCfg {
            ready: GateMode { now: pick(&[100, 60, 20, 0]), ..Default::default() },
            resp: GateMode { now: pick(&[60, 100, 20, 0]), ..Default::default() },
            ..Default::default()
        };
        if faults {
            c.stages = pick(&[0, 0, 0, 40]);
            c.ready_err = pick(&[0, 0, 5, 15]);
            c.resp_err = pick(&[0, 10, 40]);
        }
        c
    }
}

#[derive(Clone, Debug)]
pub struct LeafCall {
    pub call: u64,
    pub req: u64,
    pub tags: Vec<u16>,
    pub inst: u64,
    pub t: u64,
    pub tick: u64,
    pub ok: bool,
    /// None while in flight; Some(true) completed, Some(false) dropped
    pub end: Option<bool>,
    pub end_t: u64,
    pub end_tick: u64,
    pub polled: u64,
    pub gate: usize,
    /// keeps busy: every poll that does not complete it uses up the
    /// cooperative budget
    pub hog: bool,
}

#[derive(Default)]
pub struct Leaf {
    pub calls: Vec<LeafCall>,
    pub insts: u64,
    pub inflight: u64,
    pub max_inflight: u64,
    pub failed: Option<SimErr>,
    pub ready_polls: u64,
    pub calls_after_fail: u64,
    /// the connection was reset: calls in flight and later use fail
    pub dead: bool,
    pub last_ready: Vec<(u64, u64)>,
    /// (instance, 0 pending / 1 ready / 2 error, poll number)
    pub last_poll: (u64, u8, u64),
}

pub struct Shared {
    pub name: &'static str,
    pub cfg: Mutex<SvcCfg>,
    pub leaf: Mutex<Leaf>,
    pub tok: &'static str,
    /// runs when a response future is dropped before it completed, while it
    /// still counts as in flight
    pub at_drop: Mutex<Option<Arc<dyn Fn() + Send + Sync>>>,
}
pub type Sh = Arc<Shared>;

pub fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    match m.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}

pub fn shared(name: &'static str, cfg: SvcCfg) -> Sh {
    Arc::new(Shared { name, cfg: Mutex::new(cfg), leaf: Mutex::new(Leaf::default()), tok: "svc", at_drop: Mutex::new(None) })
}

enum St {
    Idle,
    Waiting(Gate),
    Ready,
    Failed(SimErr),
}

pub struct SimSvc {
    pub sh: Sh,
    pub inst: u64,
    st: St,
    tok: Token,
}
impl SimSvc {
    pub fn new(sh: &Sh) -> SimSvc {
        let inst = fresh_id();
        lock(&sh.leaf).insts += 1;
        SimSvc { sh: sh.clone(), inst, st: St::Idle, tok: Token::new(sh.tok) }
    }
    pub fn is_ready(&self) -> bool {
        matches!(self.st, St::Ready)
    }
    /// The readiness gate this instance is waiting on.
    pub fn waiting_on(&self) -> Option<usize> {
        match &self.st {
            St::Waiting(g) => Some(g.id),
            _ => None,
        }
    }
}
impl Clone for SimSvc {
    fn clone(&self) -> SimSvc {
        let inst = fresh_id();
        lock(&self.sh.leaf).insts += 1;
        ev!("{} svc#{} cloned from svc#{}", self.sh.name, inst, self.inst);
        SimSvc { sh: self.sh.clone(), inst, st: St::Idle, tok: self.tok.clone() }
    }
}
impl fmt::Debug for SimSvc {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}#{}", self.sh.name, self.inst)
    }
}
impl Drop for SimSvc {
    fn drop(&mut self) {
        if try_ctx().is_some() && !std::thread::panicking() {
            ev!("{} svc#{} dropped", self.sh.name, self.inst);
        }
    }
}

impl Service<Req> for SimSvc {
    type Response = Resp;
    type Error = SimErr;
    type Future = SimFut;

    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), SimErr>> {
        crate::threads::switch(false);
        let r = self.poll_ready_inner(cx);
        let mut l = lock(&self.sh.leaf);
        l.ready_polls += 1;
        l.last_poll = (
            self.inst,
            match &r {
                Poll::Pending => 0,
                Poll::Ready(Ok(())) => 1,
                Poll::Ready(Err(_)) => 2,
            },
            l.ready_polls,
        );
        r
    }

    fn call(&mut self, req: Req) -> SimFut {
        check!(
            matches!(self.st, St::Ready),
            "call-without-ready",
            "{} svc#{} was called with {:?} but had not reported ready since its last call",
            self.sh.name, self.inst, req
        );
        self.st = St::Idle;
        let cfg = *lock(&self.sh.cfg);
        let call = fresh_id();
        let err = !draining() && chance(cfg.resp_err);
        if err {
            count("fault.resp_err");
        }
        if !draining() && chance(cfg.panic_call) {
            count("fault.panic_call");
            ev!("{} svc#{} call panics", self.sh.name, self.inst);
            panic!("{} in call", INJECTED);
        }
        let panic = !draining() && chance(cfg.panic_fut);
        if panic {
            count("fault.panic_future");
        }
        let gate = Gate::new("resp", cfg.resp, 0);
        count("leaf.call");
        ev!("{} svc#{} call#{} {:?} -> gate {} err={}", self.sh.name, self.inst, call, req, gate.id, err);
        let idx = {
            let mut l = lock(&self.sh.leaf);
            l.inflight += 1;
            l.max_inflight = l.max_inflight.max(l.inflight);
            l.calls.push(LeafCall {
                call,
                req: req.id,
                tags: req.tags.clone(),
                inst: self.inst,
                t: now(),
                tick: tick(),
                ok: !err,
                end: None,
                end_t: 0,
                end_tick: 0,
                polled: 0,
                gate: gate.id,
                hog: false,
            });
            l.calls.len() - 1
        };
        SimFut { sh: self.sh.clone(), idx, gate, req: Some(req), call, inst: self.inst, err, panic, done: false, _t: Token::new("fut") }
    }
}

impl SimSvc {
    fn poll_ready_inner(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), SimErr>> {
        let cfg = *lock(&self.sh.cfg);
        if lock(&self.sh.leaf).dead && !matches!(self.st, St::Failed(_)) {
            let e = SimErr { kind: "ready-err", id: self.inst };
            ev!("{} svc#{} poll_ready: connection reset", self.sh.name, self.inst);
            self.st = St::Failed(e.clone());
            lock(&self.sh.leaf).failed = Some(e.clone());
            return Poll::Ready(Err(e));
        }
        loop {
            match &self.st {
                St::Idle => {
                    let g = Gate::new("ready", cfg.ready, 0);
                    if !draining() && chance(cfg.ready_err) {
                        count("fault.ready_err");
                        g.set_val(1);
                    } else if !draining() && chance(cfg.panic_ready) {
                        g.set_val(2);
                    }
                    self.st = St::Waiting(g);
                }
                St::Waiting(g) => match g.poll(cx) {
                    Poll::Pending => {
                        ev!("{} svc#{} poll_ready: pending", self.sh.name, self.inst);
                        return Poll::Pending;
                    }
                    Poll::Ready(0) if cfg.stages > 0 && chance(cfg.stages) => {
                        // woken, but there is more to wait for
                        count("fault.ready_step");
                        self.st = St::Waiting(Gate::new("ready", cfg.ready, 0));
                    }
                    Poll::Ready(0) => {
                        ev!("{} svc#{} poll_ready: ready", self.sh.name, self.inst);
                        self.st = St::Ready;
                        lock(&self.sh.leaf).last_ready.push((self.inst, now()));
                        return Poll::Ready(Ok(()));
                    }
                    Poll::Ready(2) => {
                        count("fault.panic_ready");
                        ev!("{} svc#{} poll_ready panics", self.sh.name, self.inst);
                        self.st = St::Idle;
                        panic!("{} in poll_ready", INJECTED);
                    }
                    Poll::Ready(_) => {
                        let e = SimErr { kind: "ready-err", id: self.inst };
                        ev!("{} svc#{} poll_ready: error", self.sh.name, self.inst);
                        self.st = St::Failed(e.clone());
                        if cfg.transient > 0 && chance(cfg.transient) {
                            self.st = St::Idle;
                        }
                        lock(&self.sh.leaf).failed = Some(e.clone());
                        return Poll::Ready(Err(e));
                    }
                },
                St::Ready => {
                    if !draining() && chance(cfg.withdraw) {
                        count("fault.withdraw");
                        ev!("{} svc#{} withdraws readiness", self.sh.name, self.inst);
                        self.st = St::Waiting(Gate::closed("ready", 0));
                        continue;
                    }
                    if !draining() && chance(cfg.break_ready) {
                        count("fault.break_ready");
                        let e = SimErr { kind: "ready-err", id: self.inst };
                        ev!("{} svc#{} fails although it was ready", self.sh.name, self.inst);
                        self.st = St::Failed(e.clone());
                        lock(&self.sh.leaf).failed = Some(e);
                        continue;
                    }
                    return Poll::Ready(Ok(()));
                }
                St::Failed(e) => {
                    lock(&self.sh.leaf).calls_after_fail += 1;
                    return Poll::Ready(Err(e.clone()));
                }
            }
        }
    }
}

pub struct SimFut {
    sh: Sh,
    idx: usize,
    gate: Gate,
    req: Option<Req>,
    call: u64,
    inst: u64,
    err: bool,
    panic: bool,
    done: bool,
    _t: Token,
}
impl fmt::Debug for SimFut {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "fut#{}", self.call)
    }
}
impl Future for SimFut {
    type Output = Result<Resp, SimErr>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        check!(!self.done, "future-polled-after-completion", "inner response future of call#{} polled again after completing", self.call);
        lock(&self.sh.leaf).calls[self.idx].polled += 1;
        crate::exec::maybe_hog(cx);
        if self.gate.poll(cx).is_pending() {
            if lock(&self.sh.leaf).calls[self.idx].hog {
                crate::exec::hog(cx);
            }
            return Poll::Pending;
        }
        if self.panic {
            self.panic = false;
            ev!("call#{} future panics", self.call);
            panic!("{} in future", INJECTED);
        }
        self.done = true;
        let t = now();
        {
            let (sh, idx) = (self.sh.clone(), self.idx);
            let mut l = lock(&sh.leaf);
            if l.dead {
                self.err = true;
                l.calls[idx].ok = false;
            }
            l.inflight -= 1;
            l.calls[self.idx].end = Some(true);
            l.calls[self.idx].end_t = t;
            l.calls[self.idx].end_tick = tick();
        }
        ev!("call#{} completes ok={}", self.call, !self.err);
        let req = self.req.take();
        let id = req.as_ref().map(|r| r.id).unwrap_or(0);
        if self.err {
            Poll::Ready(Err(SimErr { kind: "resp-err", id: self.call }))
        } else {
            Poll::Ready(Ok(Resp::new(id, self.call, self.inst)))
        }
    }
}
impl Drop for SimFut {
    fn drop(&mut self) {
        let t = if try_ctx().is_some() { now() } else { 0 };
        if !self.done {
            let f = lock(&self.sh.at_drop).clone();
            if let Some(f) = f {
                f();
            }
        }
        let mut l = lock(&self.sh.leaf);
        if l.calls[self.idx].end.is_none() {
            l.inflight -= 1;
            l.calls[self.idx].end = Some(false);
            l.calls[self.idx].end_t = t;
            if try_ctx().is_some() {
                l.calls[self.idx].end_tick = tick();
            }
            drop(l);
            if try_ctx().is_some() {
                ev!("call#{} dropped before completion", self.call);
            }
        }
    }
}

// ---------------------------------------------------------------- contract probe

/// Sits between two layers of a stack and checks that the layer above uses it
/// according to the `Service` contract.
pub struct Probe<S> {
    pub inner: S,
    name: String,
    ready: bool,
}
impl<S> Probe<S> {
    pub fn new(inner: S, name: String) -> Self {
        Probe { inner, name, ready: false }
    }
}
impl<S: Clone> Clone for Probe<S> {
    fn clone(&self) -> Self {
        Probe { inner: self.inner.clone(), name: self.name.clone(), ready: false }
    }
}
impl<S, R> Service<R> for Probe<S>
where
    S: Service<R>,
{
    type Response = S::Response;
    type Error = S::Error;
    type Future = S::Future;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), S::Error>> {
        boom("poll_ready");
        let r = self.inner.poll_ready(cx);
        boom("poll_ready");
        self.ready = matches!(r, Poll::Ready(Ok(())));
        r
    }
    fn call(&mut self, r: R) -> S::Future {
        boom("call");
        check!(
            self.ready,
            "call-without-ready",
            "the layer above called {} although its last poll_ready did not report ready",
            self.name
        );
        self.ready = false;
        let f = self.inner.call(r);
        boom("call");
        f
    }
}

/// Enough of a transport for `MakeConnection`.
impl tokio::io::AsyncRead for SimSvc {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncWrite for SimSvc {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
