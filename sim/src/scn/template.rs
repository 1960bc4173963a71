//! S06: a layer is a template. A service is driven next to an identical one
//! from a fresh, equal layer, while the first one's layer builds, clones and
//! drops other services that are busy, failing or going away.

use crate::core::*;
use crate::exec::*;
use crate::runner::{Prop, Scn};
use crate::svc::*;
use crate::ev;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tower::buffer::BufferLayer;
use tower::filter::{AsyncFilterLayer, FilterLayer};
use tower::limit::{ConcurrencyLimitLayer, RateLimitLayer};
use tower::load_shed::LoadShedLayer;
use tower::retry::backoff::{Backoff, ExponentialBackoff, ExponentialBackoffMaker, MakeBackoff};
use tower::retry::{Policy, RetryLayer};
use tower::spawn_ready::SpawnReadyLayer;
use tower::timeout::TimeoutLayer;
use tower::util::rng::Rng as TowerRng;
use tower::util::{
    AndThenLayer, BoxCloneService, BoxCloneServiceLayer, BoxCloneSyncService, BoxCloneSyncServiceLayer, BoxLayer, BoxService, MapErrLayer, MapFutureLayer, MapRequestLayer, MapResponseLayer,
    MapResultLayer, ServiceExt, ThenLayer,
};
use tower::ServiceBuilder;
use tower_layer::{layer_fn, Layer};
use tower_service::Service;

type D = BoxCloneSyncService<Req, Resp, BoxError>;
type N = BoxService<Req, Resp, BoxError>;

/// The service below a layer: it does what the scenario tells it, at once, and
/// decides nothing itself.
#[derive(Default)]
struct Ctl {
    ready: bool,
    fail: bool,
    wakers: Vec<Waker>,
    /// by request id, newest dispatch last
    calls: BTreeMap<u64, Vec<Arc<Mutex<Call>>>>,
    log: Vec<String>,
}
#[derive(Default)]
struct Call {
    out: Option<bool>,
    done: bool,
    waker: Option<Waker>,
}
#[derive(Clone)]
struct Leaf {
    ctl: Arc<Mutex<Ctl>>,
}
struct Fut {
    id: u64,
    tags: Vec<u16>,
    ctl: Arc<Mutex<Ctl>>,
    call: Arc<Mutex<Call>>,
}
impl Service<Req> for Leaf {
    type Response = Resp;
    type Error = BoxError;
    type Future = Fut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        let mut c = self.ctl.lock().unwrap();
        if c.fail {
            c.log.push("leaf fails".into());
            return Poll::Ready(Err("leaf failed".into()));
        }
        if c.ready {
            return Poll::Ready(Ok(()));
        }
        c.wakers.push(cx.waker().clone());
        Poll::Pending
    }
    fn call(&mut self, r: Req) -> Fut {
        let mut c = self.ctl.lock().unwrap();
        c.log.push(format!("leaf got req#{} {:?} at {}", r.id, r.tags, now()));
        let call = Arc::new(Mutex::new(Call::default()));
        c.calls.entry(r.id).or_default().push(call.clone());
        Fut { id: r.id, tags: r.tags.clone(), ctl: self.ctl.clone(), call }
    }
}
impl Future for Fut {
    type Output = Result<Resp, BoxError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut c = self.call.lock().unwrap();
        match c.out {
            None => {
                c.waker = Some(cx.waker().clone());
                Poll::Pending
            }
            Some(ok) => {
                c.done = true;
                Poll::Ready(if ok {
                    let mut r = Resp::new(self.id, 0, 0);
                    for t in &self.tags {
                        r = r.tag(*t);
                    }
                    Ok(r)
                } else {
                    Err(format!("leaf refused req#{}", self.id).into())
                })
            }
        }
    }
}
impl Drop for Fut {
    fn drop(&mut self) {
        let mut c = self.call.lock().unwrap();
        if !c.done {
            c.done = true;
            self.ctl.lock().unwrap().log.push(format!("leaf call of req#{} dropped", self.id));
        }
    }
}

#[derive(Clone, Debug)]
enum Kind {
    Limit(usize),
    Buffer(usize),
    Shed,
    Timeout(u64),
    Filter(u64, bool),
    AsyncFilter(u64),
    Retry(u32, u64),
    /// below a buffer, as it can not be cloned
    SpawnReady(usize),
    /// the closure counts how often it ran
    MapReq,
    MapResp,
    MapErr,
    MapResult,
    MapFut,
    Then,
    AndThen,
    LayerFn(usize),
    Opt(bool, usize),
    Builder(usize, u64),
    BoxClone(Box<Kind>),
    BoxCloneSync(Box<Kind>),
    Pair(Box<Kind>, Box<Kind>),
}
fn kind(depth: u32) -> Kind {
    let n = 1 + choose(3) as usize;
    match choose(if depth == 0 { 21 } else { 18 }) {
        0 | 1 => Kind::Limit(n),
        2 | 3 => Kind::Buffer(n),
        4 => Kind::Shed,
        5 => Kind::Timeout(1 + choose(30) as u64),
        6 => Kind::Filter(2 + choose(3) as u64, chance(50)),
        7 => Kind::AsyncFilter(2 + choose(3) as u64),
        8 => Kind::Retry(1 + choose(3), choose(10) as u64),
        9 => Kind::SpawnReady(n),
        10 => Kind::MapReq,
        11 => Kind::MapResp,
        12 => pick(&[Kind::MapErr, Kind::MapResult]),
        13 => pick(&[Kind::Then, Kind::AndThen]),
        14 => Kind::MapFut,
        15 => Kind::LayerFn(n),
        16 => Kind::Opt(chance(70), n),
        17 => Kind::Builder(n, 1 + choose(30) as u64),
        18 => Kind::BoxClone(Box::new(kind(1))),
        19 => Kind::BoxCloneSync(Box::new(kind(1))),
        _ => Kind::Pair(Box::new(kind(1)), Box::new(kind(1))),
    }
}

/// Two background tasks in one stack may run in either order, so a stack has
/// one at most: otherwise it may legally differ from its twin.
fn one_worker(k: Kind, seen: &mut bool) -> Kind {
    match k {
        Kind::Buffer(n) | Kind::SpawnReady(n) | Kind::Builder(n, _) => {
            if std::mem::replace(seen, true) {
                Kind::Limit(n)
            } else {
                k
            }
        }
        Kind::BoxClone(k) => Kind::BoxClone(Box::new(one_worker(*k, seen))),
        Kind::BoxCloneSync(k) => Kind::BoxCloneSync(Box::new(one_worker(*k, seen))),
        Kind::Pair(a, b) => {
            let a = one_worker(*a, seen);
            Kind::Pair(Box::new(a), Box::new(one_worker(*b, seen)))
        }
        k => k,
    }
}

/// The layers under test, with their concrete types hidden.
trait Tpl: Send + Sync {
    fn apply(&self, d: D) -> D;
    fn dup(&self) -> Box<dyn Tpl>;
}
struct T<L>(L);
impl<L> Tpl for T<L>
where
    L: Layer<D> + Clone + Send + Sync + 'static,
    L::Service: Service<Req, Response = Resp> + Clone + Send + Sync + 'static,
    <L::Service as Service<Req>>::Error: Into<BoxError>,
    <L::Service as Service<Req>>::Future: Send + 'static,
{
    fn apply(&self, d: D) -> D {
        D::new(self.0.layer(d).map_err(Into::into))
    }
    fn dup(&self) -> Box<dyn Tpl> {
        Box::new(T(self.0.clone()))
    }
}
/// A template seen as a layer again, to be boxed by tower.
struct L(Box<dyn Tpl>);
impl Clone for L {
    fn clone(&self) -> L {
        L(self.0.dup())
    }
}
impl Layer<D> for L {
    type Service = D;
    fn layer(&self, d: D) -> D {
        self.0.apply(d)
    }
}

#[derive(Clone)]
struct NoRng;
impl TowerRng for NoRng {
    fn next_u64(&mut self) -> u64 {
        0
    }
}
/// Retries a few times, with exponential pauses.
#[derive(Clone)]
struct Pol {
    left: u32,
    back: ExponentialBackoff<NoRng>,
}
impl Policy<Req, Resp, BoxError> for Pol {
    type Future = tokio::time::Sleep;
    fn retry(&mut self, _: &mut Req, r: &mut Result<Resp, BoxError>) -> Option<Self::Future> {
        if r.is_ok() || self.left == 0 {
            return None;
        }
        self.left -= 1;
        Some(self.back.next_backoff())
    }
    fn clone_request(&mut self, r: &Req) -> Option<Req> {
        Some(r.clone())
    }
}
fn counter() -> impl FnMut() -> u16 + Clone + Send + Sync + 'static {
    let mut k = 0u16;
    move || {
        k += 1;
        k
    }
}
fn build(k: &Kind) -> Box<dyn Tpl> {
    match k.clone() {
        Kind::Limit(n) => Box::new(T(ConcurrencyLimitLayer::new(n))),
        Kind::Buffer(n) => Box::new(T(BufferLayer::<Req>::new(n))),
        Kind::Shed => Box::new(T(LoadShedLayer::new())),
        Kind::Timeout(ms) => Box::new(T(TimeoutLayer::new(Duration::from_millis(ms)))),
        Kind::Filter(m, first) => {
            let mut k = u64::from(first);
            Box::new(T(FilterLayer::new(move |r: Req| -> Result<Req, BoxError> {
                k += 1;
                if k % m == 0 {
                    Err("filtered".into())
                } else {
                    Ok(r)
                }
            })))
        }
        Kind::AsyncFilter(m) => {
            let mut k = 0;
            Box::new(T(AsyncFilterLayer::new(move |r: Req| {
                k += 1;
                std::future::ready(if k % m == 0 { Err(BoxError::from("filtered")) } else { Ok(r) })
            })))
        }
        Kind::Retry(left, ms) => {
            let d = Duration::from_millis(ms);
            let back = ExponentialBackoffMaker::new(d, d * 4 + Duration::from_millis(1), 0.0, NoRng).unwrap().make_backoff();
            Box::new(T(RetryLayer::new(Pol { left, back })))
        }
        Kind::SpawnReady(n) => Box::new(T((BufferLayer::<Req>::new(n), SpawnReadyLayer::new()))),
        Kind::MapReq => {
            let mut c = counter();
            Box::new(T(MapRequestLayer::new(move |r: Req| r.tag(c()))))
        }
        Kind::MapResp => {
            let mut c = counter();
            Box::new(T(MapResponseLayer::new(move |r: Resp| r.tag(1000 + c()))))
        }
        Kind::MapErr => Box::new(T(MapErrLayer::new(|e: BoxError| BoxError::from(format!("mapped: {e}"))))),
        Kind::MapResult => Box::new(T(MapResultLayer::new(|r: Result<Resp, BoxError>| r.map(|r| r.tag(2000)).map_err(|e| BoxError::from(format!("result: {e}")))))),
        Kind::MapFut => {
            let mut c = counter();
            Box::new(T(MapFutureLayer::new(move |f: <D as Service<Req>>::Future| {
                let t = 3000 + c();
                async move { f.await.map(|r| r.tag(t)) }
            })))
        }
        Kind::Then => Box::new(T(ThenLayer::new(|r: Result<Resp, BoxError>| async move { r.map(|r| r.tag(4000)) }))),
        Kind::AndThen => Box::new(T(AndThenLayer::new(|r: Resp| async move { Ok::<_, BoxError>(r.tag(5000)) }))),
        Kind::LayerFn(n) => Box::new(T(layer_fn(move |d: D| tower::limit::ConcurrencyLimit::new(d, n)))),
        Kind::Opt(some, n) => Box::new(T(tower::util::option_layer(some.then(|| ConcurrencyLimitLayer::new(n))))),
        Kind::Builder(n, ms) => {
            let mut c = counter();
            Box::new(T(ServiceBuilder::new()
                .map_request(move |r: Req| r.tag(6000 + c()))
                .buffer(n)
                .timeout(Duration::from_millis(ms))
                .concurrency_limit(n)
                .into_inner()))
        }
        Kind::BoxClone(k) => {
            let l: BoxCloneServiceLayer<D, Req, Resp, BoxError> = BoxCloneServiceLayer::new(L(build(&k)));
            Box::new(TC(l))
        }
        Kind::BoxCloneSync(k) => {
            let l: BoxCloneSyncServiceLayer<D, Req, Resp, BoxError> = BoxCloneSyncServiceLayer::new(L(build(&k)));
            Box::new(T(l))
        }
        Kind::Pair(a, b) => Box::new(T((L(build(&a)), L(build(&b))))),
    }
}
/// The product of `BoxCloneServiceLayer` is not `Sync`: kept behind a lock.
struct TC(BoxCloneServiceLayer<D, Req, Resp, BoxError>);
struct Locked(Mutex<BoxCloneService<Req, Resp, BoxError>>);
impl Clone for Locked {
    fn clone(&self) -> Locked {
        Locked(Mutex::new(self.0.lock().unwrap().clone()))
    }
}
impl Service<Req> for Locked {
    type Response = Resp;
    type Error = BoxError;
    type Future = <BoxCloneService<Req, Resp, BoxError> as Service<Req>>::Future;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), BoxError>> {
        self.0.get_mut().unwrap().poll_ready(cx)
    }
    fn call(&mut self, r: Req) -> Self::Future {
        self.0.get_mut().unwrap().call(r)
    }
}
impl Tpl for TC {
    fn apply(&self, d: D) -> D {
        D::new(Locked(Mutex::new(self.0.layer(d))))
    }
    fn dup(&self) -> Box<dyn Tpl> {
        Box::new(TC(self.0.clone()))
    }
}

/// What the top of the stack is: a clonable service, or one with a single
/// owner, from a rate limit or a `BoxLayer`.
#[derive(Clone, Debug)]
enum Top {
    None,
    Rate(u64, u64),
    BoxRate(u64, u64),
    Boxed,
    Spawn,
}
struct Maker {
    layers: Vec<Box<dyn Tpl>>,
    rate: Option<RateLimitLayer>,
    boxed: Option<BoxLayer<D, Req, Resp, BoxError>>,
    spawn: Option<SpawnReadyLayer>,
}
impl Maker {
    fn new(kinds: &[Kind], top: &Top) -> Maker {
        let layers = kinds.iter().map(build).collect();
        let r = |n: u64, ms: u64| RateLimitLayer::new(n, Duration::from_millis(ms));
        let (rate, boxed) = match *top {
            Top::None | Top::Spawn => (None, None),
            Top::Rate(n, ms) => (Some(r(n, ms)), None),
            Top::BoxRate(n, ms) => (None, Some(BoxLayer::new(r(n, ms)))),
            Top::Boxed => (None, Some(BoxLayer::new(LoadShedLayer::new()))),
        };
        Maker { layers, rate, boxed, spawn: matches!(top, Top::Spawn).then(SpawnReadyLayer::new) }
    }
    fn dup(&self) -> Maker {
        Maker { layers: self.layers.iter().map(|l| l.dup()).collect(), rate: self.rate.clone(), boxed: self.boxed.clone(), spawn: self.spawn.clone() }
    }
    fn make(&self) -> World {
        let ctl = Arc::new(Mutex::new(Ctl { ready: true, ..Default::default() }));
        let mut d = D::new(Leaf { ctl: ctl.clone() });
        for l in &self.layers {
            d = l.apply(d);
        }
        let svc = match (&self.rate, &self.boxed) {
            _ if self.spawn.is_some() => Svc::N(N::new(self.spawn.as_ref().unwrap().layer(d))),
            (Some(r), _) => Svc::N(N::new(r.layer(d))),
            (_, Some(b)) => Svc::N(b.layer(d)),
            _ => Svc::D(d),
        };
        World { ctl, handles: vec![Some(Handle { svc, ready: false, slot: WakeSlot::new(false) })], futs: BTreeMap::new(), log: vec![] }
    }
}

enum Svc {
    D(D),
    N(N),
}
struct Handle {
    svc: Svc,
    ready: bool,
    slot: WakeSlot,
}
type RespFut = Pin<Box<dyn Future<Output = Result<Resp, BoxError>> + Send>>;
struct World {
    ctl: Arc<Mutex<Ctl>>,
    handles: Vec<Option<Handle>>,
    futs: BTreeMap<u64, (RespFut, WakeSlot)>,
    log: Vec<String>,
}
/// One step of a world; the same step in two worlds is the same value.
#[derive(Clone, Debug)]
enum Op {
    Ready(usize),
    Call(usize, u64),
    Clone(usize),
    DropHandle(usize),
    DropFut(u64),
    Answer(u64, bool),
    LeafReady(bool),
    LeafFails(bool),
}
impl World {
    /// A step that makes sense now. Decides by what can be seen from outside.
    fn choose(&self) -> Option<Op> {
        let hs: Vec<usize> = (0..self.handles.len()).filter(|i| self.handles[*i].is_some()).collect();
        let h = if hs.is_empty() { None } else { Some(pick(&hs)) };
        Some(match weighted(&[30, 30, 6, 3, 5, 20, 6, 1]) {
            0 => Op::Ready(h?),
            1 => {
                let r: Vec<usize> = hs.into_iter().filter(|i| self.handles[*i].as_ref().is_some_and(|h| h.ready)).collect();
                if r.is_empty() {
                    Op::Ready(h?)
                } else {
                    Op::Call(pick(&r), fresh_id())
                }
            }
            2 if self.handles.len() < 6 && matches!(self.handles[h?].as_ref().unwrap().svc, Svc::D(_)) => Op::Clone(h?),
            3 if chance(30) || self.handles.iter().flatten().count() > 1 => Op::DropHandle(h?),
            4 => {
                let f: Vec<u64> = self.futs.keys().copied().collect();
                if f.is_empty() {
                    return None;
                }
                Op::DropFut(pick(&f))
            }
            5 => {
                let c = self.ctl.lock().unwrap();
                let ids: Vec<u64> = c.calls.iter().filter(|(_, v)| v.iter().any(|c| c.lock().unwrap().out.is_none())).map(|(k, _)| *k).collect();
                if ids.is_empty() {
                    return None;
                }
                Op::Answer(pick(&ids), chance(70))
            }
            6 => Op::LeafReady(chance(60)),
            7 => Op::LeafFails(chance(50)),
            _ => return None,
        })
    }
    fn apply(&mut self, op: &Op) {
        match *op {
            Op::Ready(i) => {
                let Some(Some(h)) = self.handles.get_mut(i) else { return };
                let w = h.slot.next();
                let cx = &mut Context::from_waker(&w);
                let r = match &mut h.svc {
                    Svc::D(s) => s.poll_ready(cx),
                    Svc::N(s) => s.poll_ready(cx),
                };
                h.ready = matches!(r, Poll::Ready(Ok(())));
                self.log.push(format!("handle {i}: {}", match &r {
                    Poll::Pending => "pending".to_string(),
                    Poll::Ready(Ok(())) => "ready".to_string(),
                    Poll::Ready(Err(e)) => format!("failed: {e}"),
                }));
                // a service that failed is not used again
                if matches!(r, Poll::Ready(Err(_))) {
                    self.handles[i] = None;
                }
            }
            Op::Call(i, id) => {
                let Some(Some(h)) = self.handles.get_mut(i) else { return };
                if !h.ready {
                    return;
                }
                h.ready = false;
                let r = Req::new(id);
                let f: RespFut = match &mut h.svc {
                    Svc::D(s) => Box::pin(s.call(r)),
                    Svc::N(s) => Box::pin(s.call(r)),
                };
                self.futs.insert(id, (f, WakeSlot::new(false)));
            }
            Op::Clone(i) => {
                let Some(Some(h)) = self.handles.get(i) else { return };
                let Svc::D(s) = &h.svc else { return };
                let c = Handle { svc: Svc::D(s.clone()), ready: false, slot: WakeSlot::new(false) };
                self.handles.push(Some(c));
            }
            Op::DropHandle(i) => {
                if let Some(h) = self.handles.get_mut(i) {
                    *h = None;
                }
            }
            Op::DropFut(id) => {
                self.futs.remove(&id);
            }
            Op::Answer(id, ok) => {
                let call = {
                    let c = self.ctl.lock().unwrap();
                    c.calls.get(&id).and_then(|v| v.iter().find(|c| c.lock().unwrap().out.is_none()).cloned())
                };
                if let Some(c) = call {
                    let w = {
                        let mut c = c.lock().unwrap();
                        c.out = Some(ok);
                        c.waker.take()
                    };
                    if let Some(w) = w {
                        w.wake();
                    }
                }
            }
            Op::LeafReady(r) => {
                let ws = {
                    let mut c = self.ctl.lock().unwrap();
                    c.ready = r;
                    if r { std::mem::take(&mut c.wakers) } else { vec![] }
                };
                ws.into_iter().for_each(Waker::wake);
            }
            Op::LeafFails(f) => {
                let ws = {
                    let mut c = self.ctl.lock().unwrap();
                    c.fail = f;
                    if f { std::mem::take(&mut c.wakers) } else { vec![] }
                };
                ws.into_iter().for_each(Waker::wake);
            }
        }
    }
    /// Lets everybody who was woken run; true when something did.
    fn run(&mut self) -> bool {
        let ids: Vec<u64> = self.futs.iter().filter(|(_, f)| f.1.woken()).map(|(k, _)| *k).collect();
        let any = !ids.is_empty();
        for id in ids {
            let (f, slot) = self.futs.get_mut(&id).unwrap();
            let w = slot.next();
            if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                self.log.push(match r {
                    Ok(r) => format!("req#{id} -> {} {:?} at {}", r.id, r.tags, now()),
                    Err(e) => format!("req#{id} -> error {e} at {}", now()),
                });
                self.futs.remove(&id);
            }
        }
        any
    }
    /// All that happened, and who is due to be polled.
    fn seen(&mut self) -> Vec<String> {
        let mut v = std::mem::take(&mut self.ctl.lock().unwrap().log);
        v.append(&mut self.log);
        for (i, h) in self.handles.iter().enumerate() {
            if let Some(h) = h {
                v.push(format!("{i}:{}{}", if h.ready { "R" } else { "" }, if h.slot.woken() { "w" } else { "" }));
            }
        }
        v
    }
}
fn settle(sim: &mut Sim, ws: &mut [&mut World]) {
    for _ in 0..200 {
        sim.settle(true);
        let mut any = false;
        for w in ws.iter_mut() {
            any |= w.run();
        }
        if !any {
            return;
        }
    }
    violate("spin", "the services keep waking their own tasks".to_string());
}

fn s06(sim: &mut Sim) {
    let mut background = false;
    let kinds: Vec<Kind> = (0..1 + choose(2)).map(|_| one_worker(kind(0), &mut background)).collect();
    let top = match choose(7) {
        0 => Top::Rate(1 + choose(3) as u64, 1 + choose(30) as u64),
        1 => Top::BoxRate(1 + choose(3) as u64, 1 + choose(30) as u64),
        2 => Top::Boxed,
        3 if !background => Top::Spawn,
        _ => Top::None,
    };
    ev!("layers {kinds:?} {top:?}");
    let mut layer = Some(Maker::new(&kinds, &top));
    let mut dups: Vec<Maker> = vec![];
    let mut others: Vec<World> = vec![];
    let early = choose(3);
    for _ in 0..early {
        others.push(layer.as_ref().unwrap().make());
        if chance(30) {
            let mut all: Vec<&mut World> = others.iter_mut().collect();
            settle(sim, &mut all);
        }
        if chance(50) {
            sim.advance(1 + choose(40) as u64);
        }
    }
    if chance(30) {
        // a clone is as good as the layer itself
        let d = layer.as_ref().unwrap().dup();
        dups.extend(layer.replace(d));
    }
    let mut a = layer.as_ref().unwrap().make();
    // the twin comes from a layer of its own, made now
    let mut b = Maker::new(&kinds, &top).make();
    let steps = if big() { range_free(100, 600) } else { range_free(20, 120) };
    let busy = pick(&[20, 50, 70]);
    let mut mine = 0;
    let mut theirs = 0;
    for _ in 0..steps {
        if violated() {
            return;
        }
        match weighted(&[100 - busy, busy, 10, 3]) {
            0 => {
                let Some(op) = a.choose() else { continue };
                ev!("{op:?}");
                a.apply(&op);
                b.apply(&op);
                mine += 1;
            }
            1 => {
                if others.is_empty() {
                    continue;
                }
                let i = choose(others.len() as u32) as usize;
                let Some(op) = others[i].choose() else { continue };
                ev!("other {i}: {op:?}");
                others[i].apply(&op);
                theirs += 1;
            }
            2 => {
                let ms = 1 + choose(20) as u64;
                sim.advance(ms);
            }
            _ => match choose(5) {
                0 if others.len() < 4 => {
                    if let Some(l) = &layer {
                        others.push(l.make());
                        ev!("layer applied again");
                    }
                }
                1 if others.len() < 4 => {
                    if let Some(l) = dups.last() {
                        others.push(l.make());
                        ev!("clone of the layer applied");
                    }
                }
                2 if !others.is_empty() => {
                    let i = choose(others.len() as u32) as usize;
                    ev!("other {i} dropped");
                    others.remove(i);
                }
                3 => {
                    if let (Some(l), true) = (&layer, dups.len() < 3) {
                        dups.push(l.dup());
                        ev!("layer cloned");
                    }
                }
                4 if chance(30) => {
                    layer = None;
                    ev!("layer dropped");
                }
                _ => {}
            },
        }
        {
            let mut all: Vec<&mut World> = vec![&mut a, &mut b];
            all.extend(others.iter_mut());
            settle(sim, &mut all);
        }
        let (sa, sb) = (a.seen(), b.seen());
        if !sa.is_empty() {
            ev!("{sa:?}");
        }
        if sa != sb {
            violate("interference", format!("a service behaved differently because its layer also built others\n   seen:  {sa:?}\n   alone: {sb:?}"));
            return;
        }
        for o in &mut others {
            o.seen();
        }
    }
    if mine >= 10 && theirs >= 10 {
        nontrivial();
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "S06",
        quick: 60_000,
        scns: vec![Scn { name: "template", weight: 1, run: s06 }],
        rule: "at least ten steps of the service and ten of its siblings",
        real: "every tower layer but the global concurrency limit, and the services they build; ServiceBuilder, layer_fn, option_layer, Box*Layer, tuples of layers",
        stub: "innermost services, callers, executor and clock",
    }]
}
