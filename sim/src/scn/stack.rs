//! S01-S05: randomly generated stacks of tower middleware.

use crate::client::*;
use crate::core::*;
use crate::exec::*;
use crate::runner::{Prop, Scn};
use crate::scn::load::Script;
use crate::svc::*;
use crate::{check, ev};
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;
use std::time::Duration;
use tower::balance::p2c::Balance;
use tower::buffer::Buffer;
use tower::discover::Change;
use tower::hedge::Hedge;
use tower::limit::GlobalConcurrencyLimitLayer;
use tower::load::{CompleteOnResponse, Constant, PeakEwma, PendingRequests};
use tower::reconnect::Reconnect;
use tower::retry::Policy;
use tower::spawn_ready::SpawnReadyLayer;
use tower::steer::Steer;
use tower::discover::ServiceList;
use tower::layer::layer_fn;
use tower::load::{PeakEwmaDiscover, PendingRequestsDiscover};
use tower::util::{
    AndThen, BoxCloneService, BoxCloneServiceLayer, BoxCloneSyncService, BoxCloneSyncServiceLayer, BoxLayer, BoxService, Either, FutureService, MapErr, MapFuture, MapRequest, MapRequestLayer,
    MapResponse, MapResult, Optional, ServiceExt, Then, UnsyncBoxService,
};
use tower::{service_fn, ServiceBuilder};
use tower_layer::{Layer, Stack};
use tower_service::Service;

pub type BoxFut<T> = Pin<Box<dyn Future<Output = T> + Send>>;
/// A clonable stack.
pub type D = BoxCloneService<Req, Resp, BoxError>;
/// A stack with a single owner.
pub type N = BoxService<Req, Resp, BoxError>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// everything
    All,
    /// every call reaches the inner service at most once
    Once,
    /// nothing withdraws or fails
    Steady,
}

#[derive(Default, Debug)]
pub struct G {
    pub names: Vec<String>,
    pub steady: bool,
    pub once: bool,
    pub tag: u16,
    /// pushed bottom to top
    pub req_tags: Vec<u16>,
    pub resp_tags: Vec<u16>,
    pub err_tags: Vec<u16>,
    pub shed: bool,
    pub timeout: bool,
    pub buffer: bool,
    pub filter: bool,
    pub reconnect: bool,
    pub gated_post: bool,
    /// a step after the response may fail
    pub post_fail: bool,
    pub repeats: bool,
    /// a capacity below that a held handle could exhaust
    pub cap: bool,
    pub bg: bool,
    /// layers that hold several instances
    pub fan: u32,
    /// calls may be given up before they complete
    pub cancels: bool,
    /// a layer waits for a bounded capacity on its own account
    pub waits: bool,
    /// instances of the leaf may fail
    pub fails: bool,
    pub workers: u32,
    /// nothing is behind the outermost layer
    pub none: bool,
}
impl G {
    fn tag(&mut self) -> u16 {
        self.tag += 1;
        self.tag
    }
}

struct R;
impl tower::util::rng::Rng for R {
    fn next_u64(&mut self) -> u64 {
        ((choose(1 << 20) as u64) << 44) ^ choose(1 << 30) as u64
    }
}

#[derive(Clone)]
struct Pol {
    left: u32,
    gate: u32,
}
impl Policy<Req, Resp, BoxError> for Pol {
    type Future = BoxFut<()>;
    fn retry(&mut self, req: &mut Req, r: &mut Result<Resp, BoxError>) -> Option<BoxFut<()>> {
        boom("policy");
        if r.is_ok() || self.left == 0 {
            return None;
        }
        self.left -= 1;
        count("probe.retry");
        ev!("policy retries req#{}", req.id);
        let now = self.gate;
        Some(Box::pin(async move {
            Gate::new("backoff", GateMode { now, ..Default::default() }, 0).await;
        }))
    }
    fn clone_request(&mut self, req: &Req) -> Option<Req> {
        boom("policy");
        Some(req.clone())
    }
}
#[derive(Clone)]
struct HPol;
impl tower::hedge::Policy<Req> for HPol {
    fn clone_request(&self, req: &Req) -> Option<Req> {
        boom("policy");
        if chance(80) {
            Some(req.clone())
        } else {
            None
        }
    }
    fn can_retry(&self, _: &Req) -> bool {
        boom("policy");
        chance(80)
    }
}

fn boxed<S>(g: &G, s: S) -> D
where
    S: Service<Req, Response = Resp> + Clone + Send + 'static,
    S::Error: Into<BoxError>,
    S::Future: Send + 'static,
{
    let n = format!("layer {} ({})", g.names.len(), g.names.last().cloned().unwrap_or_default());
    D::new(Probe::new(s, n).map_err(Into::into))
}
fn nboxed<S>(g: &G, s: S) -> N
where
    S: Service<Req, Response = Resp> + Send + 'static,
    S::Error: Into<BoxError>,
    S::Future: Send + 'static,
{
    let n = format!("layer {} ({})", g.names.len(), g.names.last().cloned().unwrap_or_default());
    N::new(Probe::new(s, n).map_err(Into::into))
}

fn tagger(t: u16) -> MapRequestLayer<impl Fn(Req) -> Req + Clone + Send + Sync + 'static> {
    MapRequestLayer::new(move |r: Req| r.tag(t))
}

macro_rules! tuples {
    ($g:ident, $a:ident, $inner:ident; $($n:literal => ($($x:ident),+);)+) => {
        match choose(17) {
            $($n => {
                // the first one sees the request first
                $(let $x = $g.tag();)+
                let mut v = vec![$($x),+];
                v.reverse();
                $g.req_tags.extend(v);
                boxed($g, ($(tagger($x)),+ ,).layer($inner))
            })+
            _ => boxed($g, ().layer($inner)),
        }
    };
}
/// Tuples of layers of every size.
fn tuple(g: &mut G, _a: u16, inner: D) -> D {
    tuples!(g, a, inner;
        1 => (a);
        2 => (a, b);
        3 => (a, b, c);
        4 => (a, b, c, d);
        5 => (a, b, c, d, e);
        6 => (a, b, c, d, e, f);
        7 => (a, b, c, d, e, f, h);
        8 => (a, b, c, d, e, f, h, i);
        9 => (a, b, c, d, e, f, h, i, j);
        10 => (a, b, c, d, e, f, h, i, j, k);
        11 => (a, b, c, d, e, f, h, i, j, k, l);
        12 => (a, b, c, d, e, f, h, i, j, k, l, m);
        13 => (a, b, c, d, e, f, h, i, j, k, l, m, n);
        14 => (a, b, c, d, e, f, h, i, j, k, l, m, n, o);
        15 => (a, b, c, d, e, f, h, i, j, k, l, m, n, o, p);
        16 => (a, b, c, d, e, f, h, i, j, k, l, m, n, o, p, q);
    )
}

/// How often a step after the response fails.
fn post_fail(g: &mut G) -> u32 {
    let f = if g.steady { 0 } else { pick(&[0, 0, 20]) };
    g.post_fail |= f > 0;
    f
}
fn post(x: Resp, fail: u32, t: u16) -> Result<Resp, BoxError> {
    if !draining() && chance(fail) {
        Err(SimErr { kind: "post-err", id: x.id }.into())
    } else {
        Ok(x.tag(t))
    }
}

/// Lets a service that must stay on its thread into a stack: there is only one.
struct OneThread<T>(T);
unsafe impl<T> Send for OneThread<T> {}
impl<T: Future + Unpin> Future for OneThread<T> {
    type Output = T::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<T::Output> {
        Pin::new(&mut self.0).poll(cx)
    }
}
impl<T: Service<Req>> Service<Req> for OneThread<T>
where
    T::Future: Unpin,
{
    type Response = T::Response;
    type Error = T::Error;
    type Future = OneThread<T::Future>;
    fn poll_ready(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Result<(), T::Error>> {
        self.0.poll_ready(cx)
    }
    fn call(&mut self, r: Req) -> Self::Future {
        OneThread(self.0.call(r))
    }
}

/// Makes the connections of Reconnect, once it is ready to.
struct Connector {
    inner: D,
    now: u32,
    fail: u32,
    gate: Option<Gate>,
    ready: bool,
}
impl Service<u8> for Connector {
    type Response = D;
    type Error = BoxError;
    type Future = BoxFut<Result<D, BoxError>>;
    fn poll_ready(&mut self, cx: &mut std::task::Context<'_>) -> Poll<Result<(), BoxError>> {
        if !self.ready {
            let now = self.now;
            let g = self.gate.get_or_insert_with(|| Gate::new("connector", GateMode { now, ..Default::default() }, 0));
            std::task::ready!(g.poll(cx));
            self.gate = None;
            self.ready = true;
        }
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: u8) -> Self::Future {
        check!(self.ready, "call-without-ready", "the connector was called although it did not report ready");
        self.ready = false;
        let (s, now, fail) = (self.inner.clone(), self.now, self.fail);
        Box::pin(async move {
            Gate::new("connect", GateMode { now, ..Default::default() }, 0).await;
            if !draining() && chance(fail) {
                count("fault.connect_err");
                let e: BoxError = SimErr { kind: "connect-err", id: 0 }.into();
                return Err(e);
            }
            ev!("connected");
            Ok(s)
        })
    }
}

fn buffer(g: &mut G, s: N) -> D {
    g.buffer = true;
    let bound = if chance(50) {
        g.cap = true;
        1 + choose(2) as usize
    } else {
        4096
    };
    let spawned = chance(40);
    g.names.push(format!("buffer({bound}{})", if spawned { ",spawned" } else { "" }));
    if spawned {
        g.bg = true;
        let b = ServiceBuilder::new().buffer::<Req>(bound).service(s);
        boxed(g, b)
    } else {
        let (b, w) = Buffer::pair(s, bound);
        g.workers += 1;
        spawn_later(format!("worker{}", g.workers), w);
        boxed(g, b)
    }
}

/// Adds one layer that keeps the stack clonable.
fn wrap(g: &mut G, inner: D) -> D {
    let holding = !g.cap;
    // The worker of a buffer keeps the readiness it obtained for a request
    // that was cancelled meanwhile, which would starve others waiting for the
    // same capacity.
    let buffers = !(g.waits && g.cancels);
    let w = [
        10, // map_request
        6,  // map_response
        6,  // map_err
        6,  // map_result
        8,  // then
        8,  // and_then
        6,  // map_future
        6,  // boxing
        6,  // either / option
        if buffers { 20 } else { 0 }, // buffer
        20, // concurrency limit
        // (a handle that was shed keeps its place in the queue of a capacity
        // below, which would starve a retry waiting there)
        if g.steady || g.waits { 0 } else { 12 }, // load shed
        if g.cancels { 12 } else { 0 }, // timeout
        12, // filter
        12, // async filter
        10, // oneshot
        if holding && g.fan < 2 { 12 } else { 0 }, // steer
        if g.once { 0 } else { 15 }, // retry
        if buffers { 8 } else { 0 },  // load measurement
        if buffers { 40 } else { 0 }, // a single-owner layer behind a buffer
    ];
    let b = ServiceBuilder::new();
    match weighted(&w) {
        0 => {
            let t = g.tag();
            g.req_tags.push(t);
            g.names.push("map_request".into());
            let f = move |r: Req| r.tag(t);
            match choose(3) {
                0 => boxed(g, b.map_request(f).service(inner)),
                1 => boxed(g, inner.map_request(f)),
                _ => boxed(g, MapRequest::<D, _>::layer(f).layer(inner)),
            }
        }
        1 => {
            let t = g.tag();
            g.resp_tags.push(t);
            g.names.push("map_response".into());
            let f = move |r: Resp| r.tag(t);
            match choose(3) {
                0 => boxed(g, b.map_response(f).service(inner)),
                1 => boxed(g, inner.map_response(f)),
                _ => boxed(g, MapResponse::<D, _>::layer(f).layer(inner)),
            }
        }
        2 => {
            let t = g.tag();
            g.err_tags.push(t);
            g.names.push("map_err".into());
            let f = move |e: BoxError| -> BoxError { Box::new(TagErr(t, e)) };
            match choose(3) {
                0 => boxed(g, b.map_err(f).service(inner)),
                1 => boxed(g, inner.map_err(f)),
                _ => boxed(g, MapErr::<D, _>::layer(f).layer(inner)),
            }
        }
        3 => {
            let t = g.tag();
            g.resp_tags.push(t);
            g.names.push("map_result".into());
            let f = move |r: Result<Resp, BoxError>| r.map(|x| x.tag(t));
            match choose(3) {
                0 => boxed(g, b.map_result(f).service(inner)),
                1 => boxed(g, inner.map_result(f)),
                _ => boxed(g, MapResult::<D, _>::layer(f).layer(inner)),
            }
        }
        4 => {
            let t = g.tag();
            g.resp_tags.push(t);
            g.names.push("then".into());
            let now = pick(&[100, 50]);
            g.gated_post |= now < 100;
            let fail = post_fail(g);
            let f = move |r: Result<Resp, BoxError>| async move {
                if now < 100 {
                    Gate::new("then", GateMode { now, ..Default::default() }, 0).await;
                }
                r.and_then(|x| post(x, fail, t))
            };
            match choose(3) {
                0 => boxed(g, b.then(f).service(inner)),
                1 => boxed(g, inner.then(f)),
                _ => boxed(g, Then::<D, _>::layer(f).layer(inner)),
            }
        }
        5 => {
            let t = g.tag();
            g.resp_tags.push(t);
            g.names.push("and_then".into());
            let now = pick(&[100, 50]);
            g.gated_post |= now < 100;
            let fail = post_fail(g);
            let f = move |r: Resp| async move {
                if now < 100 {
                    Gate::new("and_then", GateMode { now, ..Default::default() }, 0).await;
                }
                post(r, fail, t)
            };
            match choose(3) {
                0 => boxed(g, b.and_then(f).service(inner)),
                1 => boxed(g, inner.and_then(f)),
                _ => boxed(g, AndThen::<D, _>::layer(f).layer(inner)),
            }
        }
        6 => {
            let t = g.tag();
            g.resp_tags.push(t);
            g.names.push("map_future".into());
            let f = move |f: BoxFut<Result<Resp, BoxError>>| async move { f.await.map(|x| x.tag(t)) };
            match choose(3) {
                0 => boxed(g, b.map_future(f).service(inner)),
                1 => boxed(g, inner.map_future(f)),
                _ => boxed(g, MapFuture::<D, _>::layer(f).layer(inner)),
            }
        }
        7 => {
            g.names.push("boxed".into());
            match choose(6) {
                0 => BoxCloneServiceLayer::new(tower_layer::Identity::new()).layer(inner),
                1 => inner.boxed_clone(),
                2 => boxed(g, BoxCloneService::<Req, Resp, BoxError>::layer().layer(inner)),
                3 => b.boxed_clone().service(inner),
                4 => BoxCloneServiceLayer::new(ServiceBuilder::new()).clone().layer(inner),
                _ => {
                    let l = BoxCloneServiceLayer::new(tower_layer::Identity::new());
                    (&l).layer(inner)
                }
            }
        }
        8 => {
            let a = g.tag();
            match choose(8) {
                4 => {
                    g.names.push("tuple".into());
                    tuple(g, a, inner)
                }
                5 => {
                    // the inner one is applied to the request last
                    let i = g.tag();
                    g.names.push("stack".into());
                    g.req_tags.push(i);
                    g.req_tags.push(a);
                    match choose(3) {
                        0 => boxed(g, Stack::new(tagger(i), tagger(a)).layer(inner)),
                        1 => boxed(g, b.layer(tagger(a)).layer(tagger(i)).service(inner)),
                        _ => {
                            let l = b.layer(&tagger(a)).layer((tagger(i),)).into_inner().layer(inner);
                            boxed(g, l)
                        }
                    }
                }
                6 => {
                    g.names.push("layer_fn".into());
                    g.req_tags.push(a);
                    let l = move |s: D| s.map_request(move |r: Req| r.tag(a));
                    if chance(50) {
                        boxed(g, b.layer_fn(l).service(inner))
                    } else {
                        boxed(g, layer_fn(l).layer(inner))
                    }
                }
                7 => {
                    g.names.push("service_fn".into());
                    g.waits |= g.cap;
                    g.req_tags.push(a);
                    // a service made of a function, which waits for the inner one
                    let f = move |r: Req| inner.clone().oneshot(r);
                    boxed(g, b.layer(tagger(a)).service_fn(f))
                }
                0 => {
                    g.names.push("option_layer(some)".into());
                    g.req_tags.push(a);
                    boxed(g, b.option_layer(Some(tagger(a))).service(inner))
                }
                1 => {
                    g.names.push("option_layer(none)".into());
                    let none: Option<tower::util::MapRequestLayer<fn(Req) -> Req>> = None;
                    boxed(g, b.option_layer(none).service(inner))
                }
                2 => {
                    g.names.push("either-left".into());
                    g.req_tags.push(a);
                    let x: Either<_, D> = Either::Left(inner.map_request(move |r: Req| r.tag(a)));
                    boxed(g, x)
                }
                _ => {
                    g.names.push("either-right".into());
                    g.req_tags.push(a);
                    let x: Either<D, _> = Either::Right(inner.map_request(move |r: Req| r.tag(a)));
                    boxed(g, x)
                }
            }
        }
        9 => {
            let n = N::new(inner);
            buffer(g, n)
        }
        10 => {
            g.cap = true;
            let n = 1 + choose(3) as usize;
            if chance(50) {
                g.names.push(format!("concurrency_limit({n})"));
                boxed(g, b.concurrency_limit(n).service(inner))
            } else {
                g.names.push(format!("global_concurrency_limit({n})"));
                boxed(g, GlobalConcurrencyLimitLayer::new(n).layer(inner))
            }
        }
        11 => {
            g.shed = true;
            g.names.push("load_shed".into());
            boxed(g, b.load_shed().service(inner))
        }
        12 => {
            g.timeout = true;
            let d = pick(&[5u64, 20, 60]);
            g.names.push(format!("timeout({d})"));
            boxed(g, b.timeout(Duration::from_millis(d)).service(inner))
        }
        13 => {
            g.filter = true;
            let t = g.tag();
            g.req_tags.push(t);
            g.names.push("filter".into());
            // a rejected request leaves the readiness it had obtained in the
            // handle, so with a bounded capacity below a retry could starve
            let rej = if holding { pick(&[0, 20]) } else { 0 };
            let p = move |r: Req| -> Result<Req, BoxError> {
                if !draining() && chance(rej) {
                    Err(SimErr { kind: "reject", id: r.id }.into())
                } else {
                    Ok(r.tag(t))
                }
            };
            match choose(3) {
                0 => boxed(g, b.filter(p).service(inner)),
                1 => boxed(g, inner.filter(p)),
                _ => boxed(g, tower::filter::Filter::<D, _>::layer(p).layer(inner)),
            }
        }
        14 => {
            g.filter = true;
            let t = g.tag();
            g.req_tags.push(t);
            g.names.push("filter_async".into());
            let rej = pick(&[0, 20]);
            let now = pick(&[100, 50]);
            let p = move |r: Req| {
                Box::pin(async move {
                    Gate::new("predicate", GateMode { now, ..Default::default() }, 0).await;
                    if !draining() && chance(rej) {
                        Err(SimErr { kind: "reject", id: r.id }.into())
                    } else {
                        Ok(r.tag(t))
                    }
                }) as BoxFut<Result<Req, BoxError>>
            };
            match choose(3) {
                0 => boxed(g, b.filter_async(p).service(inner)),
                1 => boxed(g, inner.filter_async(p)),
                _ => boxed(g, tower::filter::AsyncFilterLayer::new(p).layer(inner)),
            }
        }
        15 => {
            // a fresh clone of the stack for every request
            g.waits |= g.cap;
            match choose(3) {
                0 => {
                    g.names.push("oneshot".into());
                    boxed(g, service_fn(move |r: Req| inner.clone().oneshot(r)))
                }
                1 => {
                    g.names.push("ready_oneshot".into());
                    boxed(
                        g,
                        service_fn(move |r: Req| {
                            let s = inner.clone();
                            async move { s.ready_oneshot().await?.call(r).await }
                        }),
                    )
                }
                _ => {
                    g.names.push("ready".into());
                    boxed(
                        g,
                        service_fn(move |r: Req| {
                            let mut s = inner.clone();
                            async move { s.ready().await?.call(r).await }
                        }),
                    )
                }
            }
        }
        16 => {
            g.fan += 1;
            let n = if g.fan == 1 && big() { 10 + choose(30) as usize } else { 1 + choose(3) as usize };
            g.names.push(format!("steer({n})"));
            let mut v = vec![];
            for _ in 1..n {
                v.push(inner.clone());
            }
            v.push(inner);
            boxed(g, Steer::new(v, move |_: &Req, s: &[D]| {
                boom("picker");
                choose(s.len() as u32) as usize
            }))
        }
        17 => {
            g.repeats = true;
            g.waits |= g.cap;
            g.names.push("retry".into());
            let p = Pol { left: 1 + choose(2), gate: pick(&[100, 50]) };
            boxed(g, b.retry(p).service(inner))
        }
        18 => match choose(3) {
            0 => {
                g.names.push("constant-load".into());
                wrap_load(g, Constant::new(inner, 3u32))
            }
            1 => {
                g.names.push("pending-requests".into());
                wrap_load(g, PendingRequests::new(inner, CompleteOnResponse::default()))
            }
            _ => {
                g.names.push("peak-ewma".into());
                wrap_load(g, PeakEwma::new(inner, Duration::from_millis(3), 1e7, CompleteOnResponse::default()))
            }
        },
        _ => {
            let n = single(g, inner);
            buffer(g, n)
        }
    }
}
/// Load wrappers are not clonable: one instance per request.
fn wrap_load<S>(g: &mut G, s: S) -> D
where
    S: Service<Req, Response = Resp, Error = BoxError> + Send + 'static,
    S::Future: Send + 'static,
{
    let n = nboxed(g, s);
    buffer(g, n)
}

/// Adds one layer whose service is not clonable.
fn single(g: &mut G, inner: D) -> N {
    let holding = !g.cap;
    let w = [
        15, // rate limit
        20, // spawn ready
        // (a buffer below could fail for good, and reconnecting to it would
        // never end)
        if g.steady || g.buffer { 0 } else { 20 }, // reconnect
        // (endpoints that fail for good would never be replaced)
        if holding && !g.buffer && !g.fails && g.fan < 2 { 20 } else { 0 }, // balance
        if holding && !g.once && g.cancels { 15 } else { 0 }, // hedge
        10, // future service
        5,  // boxing
    ];
    match weighted(&w) {
        0 => {
            let (n, per) = (1 + choose(3) as u64, pick(&[5u64, 20, 50]));
            g.names.push(format!("rate_limit({n}/{per})"));
            nboxed(g, ServiceBuilder::new().rate_limit(n, Duration::from_millis(per)).service(inner))
        }
        1 => {
            g.bg = true;
            g.names.push("spawn_ready".into());
            nboxed(g, SpawnReadyLayer::new().layer(inner))
        }
        2 => {
            g.reconnect = true;
            g.names.push("reconnect".into());
            let (now, fail) = (pick(&[100, 50]), pick(&[0, 20]));
            let mk = Connector { inner, now, fail, gate: None, ready: false };
            nboxed(g, Reconnect::new(mk, 0u8))
        }
        3 => {
            g.fan += 1;
            let n = 1 + choose(3);
            g.names.push(format!("balance({n})"));
            match choose(6) {
                3 => {
                    let v: Vec<_> = (0..n).map(|_| Constant::new(inner.clone(), choose(3))).collect();
                    nboxed(g, Balance::from_rng(ServiceList::new::<Req>(v), R))
                }
                4 => {
                    let v: Vec<_> = (0..n).map(|_| inner.clone()).collect();
                    let d = PendingRequestsDiscover::new(ServiceList::new::<Req>(v), CompleteOnResponse::default());
                    nboxed(g, Balance::from_rng(d, R))
                }
                5 => {
                    let v: Vec<_> = (0..n).map(|_| inner.clone()).collect();
                    let d = ServiceList::new::<Req>(v);
                    if chance(50) {
                        nboxed(g, Balance::from_rng(Constant::new(d, 7u8), R))
                    } else {
                        let d = PeakEwmaDiscover::new::<Req>(d, Duration::from_millis(5), Duration::from_millis(10), CompleteOnResponse::default());
                        nboxed(g, Balance::from_rng(d, R))
                    }
                }
                0 => {
                    let mut q = std::collections::VecDeque::new();
                    for k in 0..n {
                        q.push_back(Ok(Change::Insert(k, Constant::new(inner.clone(), choose(3)))));
                    }
                    nboxed(g, Balance::from_rng(Script { q }, R))
                }
                1 => {
                    let mut q = std::collections::VecDeque::new();
                    for k in 0..n {
                        q.push_back(Ok(Change::Insert(k, PendingRequests::new(inner.clone(), CompleteOnResponse::default()))));
                    }
                    nboxed(g, Balance::from_rng(Script { q }, R))
                }
                _ => {
                    let mut q = std::collections::VecDeque::new();
                    for k in 0..n {
                        q.push_back(Ok(Change::Insert(k, PeakEwma::new(inner.clone(), Duration::from_millis(5), 1e7, CompleteOnResponse::default()))));
                    }
                    nboxed(g, Balance::from_rng(Script { q }, R))
                }
            }
        }
        4 => {
            g.repeats = true;
            g.names.push("hedge".into());
            let (min, q, period) = (choose(2) as u64, 0.5, Duration::from_millis(100));
            if chance(50) {
                // a delay before the copy
                nboxed(g, Hedge::new_with_mock_latencies(inner, HPol, min, q, period, &[1 + choose(30) as u64]))
            } else {
                nboxed(g, Hedge::new(inner, HPol, min, q, period))
            }
        }
        5 => {
            g.names.push("future_service".into());
            let now = pick(&[100, 50]);
            let f = async move {
                Gate::new("build", GateMode { now, ..Default::default() }, 0).await;
                Ok::<D, BoxError>(inner)
            };
            nboxed(g, FutureService::new(Box::pin(f) as BoxFut<Result<D, BoxError>>))
        }
        _ => {
            g.names.push("box_layer".into());
            match choose(7) {
                0 => BoxLayer::new(tower_layer::Identity::new()).layer(inner),
                1 => inner.boxed(),
                2 => BoxLayer::new(ServiceBuilder::new()).clone().layer(inner),
                3 => ServiceBuilder::new().boxed().service(inner),
                4 => BoxService::layer().layer(inner),
                5 if chance(20) => {
                    g.names.push("optional(none)".into());
                    g.none = true;
                    nboxed(g, Optional::<D>::new::<Req>(None))
                }
                5 => nboxed(g, Optional::new(Some(inner))),
                _ => {
                    let s = if chance(50) { UnsyncBoxService::new(inner) } else { UnsyncBoxService::layer().layer(inner) };
                    nboxed(g, OneThread(s))
                }
            }
        }
    }
}

pub enum Top {
    Shared(D),
    Owned(N),
}

pub fn build(g: &mut G, leaf: &Sh, depth: u32) -> Top {
    g.names.push("leaf".into());
    let svc = SimSvc::new(leaf);
    let mut d = if chance(20) {
        g.names.push("boxed_clone_sync".into());
        let svc = svc.map_err(|e| -> BoxError { e.into() });
        match choose(4) {
            0 => boxed(g, BoxCloneSyncService::new(svc)),
            1 => boxed(g, BoxCloneSyncService::layer().layer(svc)),
            2 => boxed(g, BoxCloneSyncServiceLayer::new(tower_layer::Identity::new()).clone().layer(svc)),
            _ => {
                let t = g.tag();
                g.req_tags.push(t);
                boxed(g, ServiceBuilder::new().layer(tagger(t)).boxed_clone_sync().service(svc))
            }
        }
    } else {
        boxed(g, svc)
    };
    for _ in 0..depth {
        d = wrap(g, d);
    }
    if chance(25) {
        let n = single(g, d);
        return Top::Owned(n);
    }
    Top::Shared(d)
}

fn run(sim: &mut Sim, mode: Mode, kills: bool, probe: bool, panics: bool) {
    let mut cfg = SvcCfg::random(mode != Mode::Steady);
    if mode != Mode::Steady {
        cfg.ready_err = pick(&[0, 0, 0, 3]);
        cfg.withdraw = pick(&[0, 0, 15]);
        cfg.resp.hang = pick(&[0, 0, 20]);
    }
    if chance(40) {
        cfg.resp.latency = Some((0, pick(&[10, 40])));
    }
    if panics {
        cfg.panic_call = pick(&[0, 0, 5]);
        cfg.panic_fut = pick(&[0, 5, 20]);
        cfg.panic_ready = pick(&[0, 0, 5]);
    }
    let leaf = shared("leaf", cfg);
    let mut g = G { steady: mode == Mode::Steady, once: mode == Mode::Once, fails: cfg.ready_err > 0, cancels: chance(70), ..Default::default() };
    let depth = 1 + choose(5);
    let top = build(&mut g, &leaf, depth);
    let mut names = g.names.clone();
    names.reverse();
    ev!("stack: {}", names.join(" > "));
    let h = hist();
    // a cancelled caller's work is gone at once
    let (h2, l2) = (h.clone(), leaf.clone());
    sim.check_hook = Some(Box::new(move || {
        let h = lock(&h2);
        if h.recs.iter().all(|r| r.tick_gone.is_none()) {
            return;
        }
        let l = lock(&l2.leaf);
        for r in h.recs.iter().filter(|r| r.tick_gone.is_some()) {
            for c in l.calls.iter().filter(|c| c.req == r.req) {
                check!(c.end.is_some(), "work-not-cancelled", "the caller of req#{} dropped its future but call#{} is still alive", r.req, c.call);
            }
        }
    }));
    let mut cc = CliCfg::random();
    cc.strict_ready = mode == Mode::Steady;
    cc.stop_on_err = chance(70);
    cc.pause = pick(&[0, 0, 30]);
    if panics {
        ctx().lock().panics = pick(&[0, 2, 10]);
        cc.stop_on_err = true;
    }
    if !g.cancels {
        cc.drop_fut = 0;
    }
    let owned = matches!(top, Top::Owned(_));
    // more callers at once than a worker or queue may want to serve in one go
    let crowd = !owned && chance(2);
    let mut left = if owned { 1 } else if crowd { 33 + choose(40) } else { 1 + choose(4) };
    let patience = if crowd { 300_000 } else { 30_000 };
    let mut top = Some(top);
    let mut next = 0;
    let abrupt = !panics && chance(6);
    let mut d = if abrupt { Drive::random(3, 50) } else { Drive::random(20, 160) };
    d.background = if g.bg { pick(&[5, 20]) } else { 0 };
    d.advance = pick(&[3, 10]);
    let cancel = if g.cancels { pick(&[0, 0, 30]) } else { 0 };
    let kill = if kills && g.cancels && g.workers > 0 { pick(&[0, 0, 0, 4]) } else { 0 };
    let mut killed = 0u64;
    let sync_style = pick(&[0, 0, 50]);
    let mut add = |sim: &mut Sim| -> bool {
        if left == 0 {
            return false;
        }
        left -= 1;
        next += 1;
        let mut c = cc;
        c.reqs = if crowd { 1 } else { 1 + choose(4) as u64 };
        match top.as_mut() {
            Some(Top::Shared(s)) => {
                let s = split(s);
                if chance(sync_style) {
                    sim.spawn(format!("oneshot{next}"), oneshots(h.clone(), next, s, c));
                } else {
                    sim.spawn(format!("client{next}"), client(h.clone(), next, s, Some(|s: &D| s.clone()), c));
                }
            }
            Some(Top::Owned(_)) => {
                let Some(Top::Owned(s)) = top.take() else { return false };
                sim.spawn(format!("client{next}"), client(h.clone(), next, s, None, c));
            }
            None => {}
        }
        true
    };
    let idle = if probe { pick(&[0, 0, 15]) } else { 0 };
    let (h3, l3) = (h.clone(), leaf.clone());
    let quiet = move |sim: &mut Sim| quiescent(sim, &h3, &l3);
    add(sim);
    sim.drive(&d, &mut |sim| {
        if chance(idle) {
            quiet(sim);
            return true;
        }
        if chance(kill) {
            let w: Vec<_> = (0..sim.tasks.len()).filter(|i| sim.running(*i) && sim.tasks[*i].name.starts_with("worker")).collect();
            if !w.is_empty() {
                count("fault.worker_killed");
                killed += 1;
                let id = pick(&w);
                sim.drop_task(id);
                return true;
            }
        }
        if chance(cancel) {
            cancel_random(sim);
            return true;
        }
        add(sim)
    });
    while add(sim) {}
    if crowd && g.cancels && chance(30) {
        sim.drive(&Drive::random(40, 100), &mut |_| false);
        cancel_wave(sim);
    }
    if abrupt {
        // everything is let go of, whatever it is doing
        count("fault.drop_everything");
        sim.absorb();
        for id in sim.unfinished() {
            sim.drop_task(id);
        }
        top = None;
        sim.settle(true);
        let alive = sim.handle().metrics().num_alive_tasks();
        check!(live("fut") == 0, "not-cancelled", "all calls and handles were dropped but {} response futures are still there", live("fut"));
        if !g.buffer {
            check!(alive == 0, "not-cancelled", "all calls and handles were dropped but {alive} background tasks are still there");
            for k in ["svc", "req"] {
                check!(live(k) == 0, "not-cancelled", "all calls and handles were dropped but {} {k} objects are still there", live(k));
            }
        }
        if violated() {
            return;
        }
    }
    if probe && chance(40) {
        // whatever waits for time alone gets it; what the environment owes stays owed
        sim.settle(true);
        sim.advance(pick(&[0, 20, 200, 5_000]));
        quiet(sim);
    }
    sim.drain_or_violate("stuck", patience, 25, true);
    if violated() {
        return;
    }
    // others can use what cancelled callers gave back
    if probe {
        if let Some(Top::Shared(s)) = &top {
            for i in 0..3 {
                let c = CliCfg { reqs: 2, inline: 100, stop_on_err: true, ..Default::default() };
                sim.spawn(format!("probe{i}"), client(h.clone(), 100 + i, s.clone(), None, c));
            }
            sim.drain_or_violate("capacity-lost", 30_000, 25, true);
            if violated() {
                return;
            }
        }
    }
    drop(top);
    // a worker hit by a panic is as dead as one that was killed
    let hit = if panics { sim.panics() } else { 0 };
    if hit > 0 {
        count("probe.panicked");
        if g.bg {
            // (tokio does not say which of its tasks panicked)
            killed += hit;
        }
        killed += (0..sim.tasks.len()).filter(|i| sim.tasks[*i].name.starts_with("worker") && sim.tasks[*i].state == TState::Panicked).count() as u64;
    }
    judge(sim, &g, mode, &leaf, &h, killed, hit);
    if violated() {
        return;
    }
    // nothing outlives the stack
    // (a worker may still have to wait its turn before it drops a request)
    let end = now() + 5_000;
    loop {
        sim.settle(true);
        for g in closed_gates(true) {
            open_gate(g);
        }
        let idle = (0..sim.tasks.len()).all(|i| !sim.running(i)) && sim.handle().metrics().num_alive_tasks() == 0;
        if idle || now() >= end || violated() {
            break;
        }
        sim.advance(25);
    }
    for id in 0..sim.tasks.len() {
        check!(!sim.running(id), "worker-leak", "{} does not terminate although all handles and calls are gone", sim.tasks[id].name);
    }
    sim.settle(true);
    let alive = sim.handle().metrics().num_alive_tasks();
    check!(alive == 0, "worker-leak", "{alive} background tasks do not terminate although all handles and calls are gone");
    for k in ["svc", "fut", "req"] {
        check!(live(k) == 0, "leak", "{} {k} objects outlive the stack", live(k));
    }
}

/// With nothing woken, polling a waiting task cannot get it anywhere: if it
/// does, its wake-up was lost.
fn quiescent(sim: &mut Sim, h: &Hist, leaf: &Sh) {
    let progress = || {
        let h = lock(h);
        let outs = h.recs.iter().filter(|r| r.out.is_some()).count();
        (h.recs.len(), outs, h.ready_errs.len(), h.waiting, h.held, h.clients_done, lock(&leaf.leaf).calls.len())
    };
    sim.settle(true);
    for id in sim.unfinished() {
        if violated() || !sim.woken_tasks().is_empty() {
            return;
        }
        let before = progress();
        count("probe.quiescent_poll");
        let p = std::mem::take(&mut ctx().lock().panics);
        sim.poll_task(id);
        ctx().lock().panics = p;
        let after = progress();
        check!(before == after, "not-woken", "nothing was woken, but when {} was polled it went on (requests, outcomes, readiness errors, waiting, held, done, dispatches: {before:?} -> {after:?})", sim.tasks[id].name);
    }
}

async fn oneshots(h: Hist, c: u32, svc: D, cfg: CliCfg) {
    for _ in 0..cfg.reqs {
        let req = fresh_id();
        let guard = begin(&h, c, req);
        let fut = svc.clone().oneshot(Req::new(req));
        if chance(cfg.inline) {
            respond(fut, guard, false).await;
        } else {
            spawn_user(format!("resp c{c} req#{req}"), respond(fut, guard, false));
        }
    }
}

fn judge(_sim: &mut Sim, g: &G, mode: Mode, leaf: &Sh, h: &Hist, killed: u64, hit: u64) {
    let h = lock(h);
    let l = lock(&leaf.leaf);
    let stack = {
        let mut n = g.names.clone();
        n.reverse();
        n.join(" > ")
    };
    let want_req: Vec<u16> = g.req_tags.iter().rev().cloned().collect();
    for c in &l.calls {
        check!(c.tags == want_req, "wrong-request", "call#{} carried transformations {:?}, configured {want_req:?} in {stack}", c.call, c.tags);
        check!(h.recs.iter().any(|r| r.req == c.req), "phantom-request", "call#{} for req#{} which nobody sent", c.call, c.req);
    }
    let mut answered = 0;
    let allowed = |k: &ErrK, r: Option<&Rec>, ready: bool| -> Result<(), String> {
        let (tags, k) = match k {
            ErrK::Tagged(t, k) => (t.clone(), (**k).clone()),
            k => (vec![], k.clone()),
        };
        let full = tags == g.err_tags;
        if !g.err_tags.ends_with(&tags) {
            return Err(format!("error transformations {tags:?}, configured {:?}", g.err_tags));
        }
        let n = r.map_or(0, |r| l.calls.iter().filter(|c| c.req == r.req).count());
        match &k {
            ErrK::Sim(e) if e.kind == "resp-err" && !ready => {
                let r = r.unwrap();
                match l.calls.iter().find(|c| c.call == e.id) {
                    None => Err("error of an unknown call".into()),
                    Some(c) if c.req != r.req => Err(format!("error of req#{}", c.req)),
                    Some(c) if c.ok => Err("the call succeeded".into()),
                    Some(_) if !full => Err(format!("error transformations {tags:?}, configured {:?}", g.err_tags)),
                    Some(_) => Ok(()),
                }
            }
            ErrK::Sim(e) if e.kind == "ready-err" => l.failed.as_ref().map(|_| ()).ok_or("readiness error without a failure".into()),
            ErrK::Sim(e) if e.kind == "reject" && !ready => {
                if !g.filter || e.id != r.unwrap().req {
                    Err("rejected by another's filter".into())
                } else if n > 0 && !g.repeats {
                    Err("rejected but dispatched".into())
                } else {
                    Ok(())
                }
            }
            ErrK::Sim(e) if e.kind == "post-err" && !ready => {
                let r = r.unwrap();
                if !g.post_fail || e.id != r.req {
                    Err("no step after it failed for this request".into())
                } else {
                    Ok(())
                }
            }
            ErrK::Sim(e) if e.kind == "connect-err" => g.reconnect.then_some(()).ok_or("no reconnect layer".into()),
            ErrK::Buffered(_) => {
                if g.buffer && (l.failed.is_some() || g.reconnect) && (n == 0 || g.repeats) {
                    Ok(())
                } else {
                    Err("buffered error although nothing failed or the request was dispatched".into())
                }
            }
            ErrK::BufferClosed => {
                if g.buffer && killed > 0 && (n == 0 || g.repeats || killed > 0) {
                    Ok(())
                } else {
                    Err("buffer closed although no worker was killed".into())
                }
            }
            // a service failed by a failed worker in a lower buffer
            ErrK::Overloaded => {
                if g.shed && !ready && (n == 0 || g.repeats) {
                    Ok(())
                } else {
                    Err(format!("overloaded, dispatched {n} times, load shed configured: {}", g.shed))
                }
            }
            ErrK::Absent => (g.none && !ready).then_some(()).ok_or("there is a service".into()),
            ErrK::Elapsed => (g.timeout && !ready).then_some(()).ok_or("timeout without a timeout layer".into()),
            k => {
                // an error that passed through two buffers is nested
                if let ErrK::Other(m) = k {
                    if hit > 0 && m.contains("panicked") && g.names.iter().any(|n| n == "spawn_ready") {
                        return Ok(());
                    }
                    if g.buffer && m.contains("buffered service failed") && (l.failed.is_some() || killed > 0) {
                        return Ok(());
                    }
                }
                Err("unknown error".into())
            }
        }
    };
    if g.none {
        count("probe.no_service");
        check!(l.calls.is_empty(), "optional", "a call without a service");
        // nothing outside it
        if g.names.last().is_some_and(|n| n == "optional(none)") {
            check!(
                h.ready_errs.is_empty() && h.recs.iter().all(|r| matches!(&r.out, Some(Out::Dropped | Out::Err(ErrK::Absent)))),
                "optional",
                "a call without a service ended otherwise than with the error that there is none"
            );
        }
    }
    for r in &h.recs {
        let Some(out) = &r.out else {
            violate("lost-request", format!("req#{} has no outcome in {stack}", r.req));
            return;
        };
        let calls: Vec<_> = l.calls.iter().filter(|c| c.req == r.req).collect();
        if !g.repeats {
            check!(calls.len() <= 1, "duplicate-dispatch", "req#{} reached the inner service {} times in {stack}", r.req, calls.len());
        }
        match out {
            Out::Ok { req, call, tags, .. } => {
                answered += 1;
                check!(*req == r.req, "swapped-response", "req#{} got the response of req#{req} in {stack}", r.req);
                match l.calls.iter().find(|c| c.call == *call) {
                    Some(c) => check!(c.req == r.req && c.ok && c.end == Some(true), "phantom-response", "req#{} got {out:?} of call {c:?} in {stack}", r.req),
                    None => violate("phantom-response", format!("req#{} got a response of unknown call#{call}", r.req)),
                }
                check!(*tags == g.resp_tags, "wrong-response", "req#{}: response transformations {tags:?}, configured {:?} in {stack}", r.req, g.resp_tags);
            }
            Out::Err(k) => {
                if let Err(m) = allowed(k, Some(r), false) {
                    violate("wrong-error", format!("req#{} failed with {k:?}: {m}; in {stack}", r.req));
                }
            }
            Out::Dropped => {}
        }
        // the outcome of the dispatch is what the caller gets
        if !g.repeats && *out != Out::Dropped && !(g.gated_post && g.timeout) {
            for c in &calls {
                if c.end != Some(true) {
                    continue;
                }
                let same = match out {
                    Out::Ok { call, .. } => c.ok && *call == c.call,
                    Out::Err(k) => {
                        let k = if let ErrK::Tagged(_, k) = k { k } else { k };
                        match k {
                            ErrK::Sim(e) if e.kind == "post-err" => c.ok && e.id == c.req,
                            ErrK::Sim(e) if e.kind == "resp-err" => !c.ok && e.id == c.call,
                            _ => false,
                        }
                    }
                    Out::Dropped => true,
                };
                check!(same, "outcome-replaced", "call#{} for req#{} completed (ok={}) but its caller got {out:?} in {stack}", c.call, r.req, c.ok);
            }
        }
        if violated() {
            return;
        }
    }
    for (c, k, _, held) in &h.ready_errs {
        if mode == Mode::Steady {
            violate("readiness-error", format!("client {c} got readiness error {k:?} (after ready: {held}) in {stack} although nothing failed"));
        }
        if let Err(m) = allowed(k, None, true) {
            violate("wrong-error", format!("client {c} got readiness error {k:?}: {m}; in {stack}"));
        }
    }
    if answered > 1 && l.calls.len() > 1 {
        nontrivial();
    }
    count_n("probe.answered", answered);
    count_n("probe.withdrawn", h.withdrawn);
    for n in ["buffer", "concurrency", "load_shed", "timeout", "filter", "oneshot", "steer", "retry", "rate_limit", "spawn_ready", "reconnect", "balance", "hedge", "future_service", "boxed", "either", "then"] {
        if g.names.iter().any(|x| x.contains(n)) {
            count(layer_name(n));
        }
    }
}
fn layer_name(n: &'static str) -> &'static str {
    match n {
        "buffer" => "stack.buffer",
        "concurrency" => "stack.concurrency_limit",
        "load_shed" => "stack.load_shed",
        "timeout" => "stack.timeout",
        "filter" => "stack.filter",
        "oneshot" => "stack.oneshot",
        "steer" => "stack.steer",
        "retry" => "stack.retry",
        "rate_limit" => "stack.rate_limit",
        "spawn_ready" => "stack.spawn_ready",
        "reconnect" => "stack.reconnect",
        "balance" => "stack.balance",
        "hedge" => "stack.hedge",
        "future_service" => "stack.future_service",
        "boxed" => "stack.boxed",
        "either" => "stack.either",
        _ => "stack.then",
    }
}

fn s_all(sim: &mut Sim) {
    run(sim, Mode::All, true, true, false)
}
fn s_panic(sim: &mut Sim) {
    let mode = pick(&[Mode::All, Mode::Once]);
    run(sim, mode, false, true, true)
}
fn s_once(sim: &mut Sim) {
    run(sim, Mode::Once, true, false, false)
}
fn s_steady(sim: &mut Sim) {
    run(sim, Mode::Steady, false, false, false)
}

#[allow(dead_code)]
fn _unused(p: Poll<()>) -> bool {
    p.is_ready()
}

pub fn props() -> Vec<Prop> {
    let real = "every tower middleware (random stacks of 1 to 7 layers), ServiceBuilder, boxing, tokio sync and timers under a paused clock";
    let stub = "leaf services, callers, connectors, policies, random source, task executor";
    let rule = "two or more calls were answered through a random stack";
    let a = |w| Scn { name: "stack", weight: w, run: s_all as fn(&mut Sim) };
    let o = |w| Scn { name: "stack-once", weight: w, run: s_once as fn(&mut Sim) };
    let s = |w| Scn { name: "stack-steady", weight: w, run: s_steady as fn(&mut Sim) };
    vec![
        Prop { id: "S01", quick: 500_000, scns: vec![a(3), s(1)], rule, real, stub },
        Prop { id: "S02", quick: 500_000, scns: vec![o(1)], rule, real, stub },
        Prop { id: "S03", quick: 500_000, scns: vec![a(1)], rule, real, stub },
        Prop { id: "S04", quick: 500_000, scns: vec![a(3), s(1)], rule, real, stub },
        Prop {
            id: "S07",
            quick: 400_000,
            scns: vec![Scn { name: "stack-panic", weight: 1, run: s_panic }],
            rule: "two or more calls were answered through a random stack",
            real,
            stub,
        },
        Prop { id: "S05", quick: 500_000, scns: vec![s(1)], rule, real, stub },
    ]
}
