//! Generic simulated callers and the history of what they observed.

use crate::core::*;
use crate::svc::*;
use crate::{check, ev};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use tower_service::Service;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ErrK {
    Sim(SimErr),
    Buffered(SimErr),
    BufferClosed,
    Overloaded,
    Elapsed,
    /// no service behind an `Optional`
    Absent,
    /// error mapped by these `map_err` layers, innermost first
    Tagged(Vec<u16>, Box<ErrK>),
    Other(String),
}
pub fn classify(e: &BoxError) -> ErrK {
    if let Some(t) = e.downcast_ref::<TagErr>() {
        return match classify(&t.1) {
            ErrK::Tagged(mut v, k) => {
                v.push(t.0);
                ErrK::Tagged(v, k)
            }
            k => ErrK::Tagged(vec![t.0], Box::new(k)),
        };
    }
    if let Some(s) = e.downcast_ref::<SimErr>() {
        return ErrK::Sim(s.clone());
    }
    if e.is::<tower::buffer::error::ServiceError>() {
        return match sim_err(e) {
            Some(s) => ErrK::Buffered(s),
            None => ErrK::Other(text(e)),
        };
    }
    if e.is::<tower::buffer::error::Closed>() {
        return ErrK::BufferClosed;
    }
    if e.is::<tower::load_shed::error::Overloaded>() {
        return ErrK::Overloaded;
    }
    if e.is::<tower::timeout::error::Elapsed>() {
        return ErrK::Elapsed;
    }
    if e.is::<tower::util::error::optional::None>() {
        return ErrK::Absent;
    }
    ErrK::Other(text(e))
}
/// (the number of a background task differs from run to run)
fn text(e: &BoxError) -> String {
    let s = e.to_string();
    if s.contains("panicked") {
        s.chars().filter(|c| !c.is_ascii_digit()).collect()
    } else {
        s
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok { req: u64, call: u64, inst: u64, tags: Vec<u16> },
    Err(ErrK),
    Dropped,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub client: u32,
    pub req: u64,
    pub t_call: u64,
    pub tick_call: u64,
    pub out: Option<Out>,
    pub t_out: u64,
    pub tick_out: u64,
    /// tick at which the response future itself was released
    pub tick_gone: Option<u64>,
}

#[derive(Default)]
pub struct History {
    pub recs: Vec<Rec>,
    /// (client, error, tick, a slot was held)
    pub ready_errs: Vec<(u32, ErrK, u64, bool)>,
    pub held: i64,
    pub max_held: i64,
    pub waiting: i64,
    pub withdrawn: u64,
    pub clients_done: u64,
}
pub type Hist = Arc<Mutex<History>>;
pub fn hist() -> Hist {
    Arc::new(Mutex::new(History::default()))
}

#[derive(Clone, Copy, Debug, Default)]
pub struct CliCfg {
    pub reqs: u64,
    /// % waits on an environment gate between ready and call
    pub hold: u32,
    /// % polls readiness again before calling
    pub repoll: u32,
    /// % gives up after becoming ready and continues with a fresh clone
    pub abandon: u32,
    /// % swaps the handle for a clone of itself just before polling
    pub reclone: u32,
    /// % drops the response future without polling it
    pub drop_fut: u32,
    /// % keeps the completed response future alive for a while
    pub linger: u32,
    /// % waits for the response before the next request
    pub inline: u32,
    /// stop at the first readiness error
    pub stop_on_err: bool,
    /// % polls the same handle again after a readiness error
    pub after_err: u32,
    /// readiness must not be withdrawn (S05)
    pub strict_ready: bool,
    /// virtual-time pause between requests
    pub pause: u64,
}
impl CliCfg {
    pub fn random() -> CliCfg {
        CliCfg {
            reqs: 1 + choose(4) as u64,
            hold: pick(&[0, 0, 20, 60]),
            repoll: pick(&[0, 0, 30]),
            abandon: pick(&[0, 0, 10, 30]),
            reclone: pick(&[0, 0, 20]),
            drop_fut: pick(&[0, 0, 10]),
            linger: pick(&[0, 0, 20]),
            inline: pick(&[0, 50, 100]),
            stop_on_err: true,
            after_err: 0,
            strict_ready: false,
            pause: 0,
        }
    }
}

pub struct Held(Hist);
impl Held {
    pub fn new(h: &Hist) -> Held {
        let mut g = lock(h);
        g.held += 1;
        g.max_held = g.max_held.max(g.held);
        Held(h.clone())
    }
}
impl Drop for Held {
    fn drop(&mut self) {
        lock(&self.0).held -= 1;
    }
}

/// Records the end of one response future.
pub struct OutGuard {
    h: Hist,
    i: usize,
}
impl OutGuard {
    pub fn set(&self, o: Out) {
        let mut g = lock(&self.h);
        if g.recs[self.i].out.is_none() {
            ev!("client {} req#{} -> {:?}", g.recs[self.i].client, g.recs[self.i].req, o);
            g.recs[self.i].out = Some(o);
            g.recs[self.i].t_out = now();
            g.recs[self.i].tick_out = tick();
        }
    }
}
impl Drop for OutGuard {
    fn drop(&mut self) {
        if try_ctx().is_none() {
            return;
        }
        self.set(Out::Dropped);
        lock(&self.h).recs[self.i].tick_gone = Some(tick());
    }
}
pub fn begin(h: &Hist, c: u32, req: u64) -> OutGuard {
    let mut g = lock(h);
    ev!("client {c} calls with req#{req}");
    let t = tick();
    g.recs.push(Rec {
        client: c,
        req,
        t_call: now(),
        tick_call: t,
        out: None,
        t_out: 0,
        tick_out: 0,
        tick_gone: None,
    });
    OutGuard { h: h.clone(), i: g.recs.len() - 1 }
}

pub fn out_of<E: Into<BoxError>>(r: Result<Resp, E>) -> Out {
    match r {
        Ok(r) => Out::Ok { req: r.id, call: r.call, inst: r.inst, tags: r.tags.clone() },
        Err(e) => Out::Err(classify(&e.into())),
    }
}

/// Awaits `fut`, recording its outcome. The guard is dropped after the future.
pub async fn respond<F, E>(fut: F, guard: OutGuard, linger: bool)
where
    F: Future<Output = Result<Resp, E>>,
    E: Into<BoxError>,
{
    struct Both<F> {
        fut: Option<Pin<Box<F>>>,
        guard: OutGuard,
    }
    impl<F> Drop for Both<F> {
        fn drop(&mut self) {
            self.fut = None; // before the guard
        }
    }
    let mut b = Both { fut: Some(Box::pin(fut)), guard };
    let r = {
        let f = b.fut.as_mut().unwrap();
        std::future::poll_fn(|cx| f.as_mut().poll(cx)).await
    };
    b.guard.set(out_of(r));
    if linger && !draining() {
        Gate::closed("linger", 0).await;
    }
    drop(b);
}

pub async fn poll_once<S: Service<Req>>(svc: &mut S) -> Poll<Result<(), S::Error>> {
    std::future::poll_fn(|cx| Poll::Ready(svc.poll_ready(cx))).await
}

/// One simulated caller.
/// A clone for somebody else - or the original, the clone staying behind.
pub fn split<S: Clone>(root: &mut S) -> S {
    let c = root.clone();
    if chance(50) {
        std::mem::replace(root, c)
    } else {
        c
    }
}

pub async fn client<S>(h: Hist, c: u32, mut svc: S, dup: Option<fn(&S) -> S>, cfg: CliCfg)
where
    S: Service<Req, Response = Resp> + 'static,
    S::Error: Into<BoxError> + 'static,
    S::Future: Send + 'static,
{
    struct Waiting(Hist);
    impl Drop for Waiting {
        fn drop(&mut self) {
            lock(&self.0).waiting -= 1;
        }
    }
    'req: for _ in 0..cfg.reqs {
        if cfg.pause > 0 && chance(50) {
            let d = range(0, cfg.pause);
            if d > 0 {
                tokio::time::sleep(std::time::Duration::from_millis(d)).await;
            }
        }
        let held = 'ready: loop {
            if let Some(d) = dup {
                if chance(cfg.reclone) {
                    ev!("client {c} continues with a clone");
                    svc = d(&svc);
                }
            }
            let w = {
                lock(&h).waiting += 1;
                Waiting(h.clone())
            };
            let r = std::future::poll_fn(|cx| svc.poll_ready(cx)).await;
            drop(w);
            if let Err(e) = r {
                let k = classify(&e.into());
                ev!("client {c} readiness error {k:?}");
                let t = tick();
                lock(&h).ready_errs.push((c, k, t, false));
                if cfg.after_err > 0 && chance(cfg.after_err) {
                    count("probe.poll_after_error");
                    continue 'ready;
                }
                // a failed instance must be discarded
                match dup {
                    Some(d) if !cfg.stop_on_err => svc = d(&svc),
                    _ => return,
                }
                continue 'req;
            }
            ev!("client {c} ready");
            let held = Held::new(&h);
            if chance(cfg.hold) && !draining() {
                Gate::closed("hold", 0).await;
            }
            let mut again = chance(cfg.repoll);
            while again {
                match poll_once(&mut svc).await {
                    Poll::Ready(Ok(())) => {}
                    Poll::Pending => {
                        ev!("client {c} readiness withdrawn");
                        check!(!cfg.strict_ready, "readiness-withdrawn", "client {c} was told ready, then Pending, without calling in between");
                        lock(&h).withdrawn += 1;
                        drop(held);
                        continue 'ready;
                    }
                    Poll::Ready(Err(e)) => {
                        let k = classify(&e.into());
                        ev!("client {c} readiness error {k:?} after ready");
                        let t = tick();
                        lock(&h).ready_errs.push((c, k, t, true));
                        if cfg.after_err > 0 && chance(cfg.after_err) {
                            count("probe.poll_after_error");
                            drop(held);
                            continue 'ready;
                        }
                        match dup {
                            Some(d) if !cfg.stop_on_err => svc = d(&svc),
                            _ => return,
                        }
                        continue 'req;
                    }
                }
                again = chance(30);
            }
            break held;
        };
        if let Some(d) = dup {
            if chance(cfg.abandon) {
                ev!("client {c} abandons its readiness");
                count("fault.abandon_ready");
                svc = d(&svc);
                drop(held);
                continue;
            }
        }
        let req = fresh_id();
        let guard = begin(&h, c, req);
        let fut = svc.call(Req::new(req));
        drop(held);
        if chance(cfg.drop_fut) {
            count("fault.drop_future");
            drop(fut);
            drop(guard);
            continue;
        }
        let linger = chance(cfg.linger);
        if chance(cfg.inline) {
            respond(fut, guard, linger).await;
        } else {
            spawn_user(format!("resp c{c} req#{req}"), respond(fut, guard, linger));
        }
    }
    lock(&h).clients_done += 1;
}

/// A fault action: cancels one random unfinished non-worker task.
pub fn cancel_random(sim: &mut crate::exec::Sim) -> bool {
    let u = sim.unfinished();
    if u.is_empty() {
        return false;
    }
    let id = pick(&u);
    count("fault.cancel_task");
    sim.drop_task(id);
    true
}

/// Nearly everybody gives up at once.
pub fn cancel_wave(sim: &mut crate::exec::Sim) {
    count("fault.cancel_wave");
    for id in sim.unfinished() {
        if chance(85) {
            sim.drop_task(id);
        }
    }
}

/// Checks that an outcome matches the leaf dispatch of that very request.
pub fn check_outcome(leaf: &Leaf, r: &Rec) {
    let n = leaf.calls.iter().filter(|c| c.req == r.req).count();
    check!(n <= 1, "duplicate-dispatch", "req#{} reached the inner service {n} times", r.req);
    match &r.out {
        Some(Out::Ok { req, call, .. }) => {
            check!(*req == r.req, "swapped-response", "req#{} got the response of req#{req}", r.req);
            match leaf.calls.iter().find(|c| c.call == *call) {
                Some(c) => {
                    check!(c.req == r.req, "swapped-response", "req#{} got the response of call#{call} made for req#{}", r.req, c.req)
                }
                None => violate("phantom-response", format!("req#{} got a response of unknown call#{call}", r.req)),
            }
        }
        Some(Out::Err(ErrK::Sim(e))) if e.kind == "resp-err" => {
            match leaf.calls.iter().find(|c| c.call == e.id) {
                Some(c) => check!(c.req == r.req, "swapped-response", "req#{} got the error of req#{}", r.req, c.req),
                None => violate("phantom-response", format!("req#{} got an error of unknown call#{}", r.req, e.id)),
            }
        }
        _ => {}
    }
}
