//! A01 A02: CallAll and CallAllUnordered. M01: the tower-test mock.

use crate::core::*;
use crate::exec::*;
use crate::runner::{Prop, Scn};
use crate::scn::single::{open_random_gate, Held};
use crate::svc::*;
use crate::{check, ev};
use futures_core::Stream;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tower::util::{CallAll, CallAllUnordered, ServiceExt};
use tower_service::Service;
use tower_test::mock::{self, Handle, Mock, SendResponse, Spawn};

// ---------------------------------------------------------------- A01 A02

#[derive(Default)]
struct SrcSt {
    q: VecDeque<Req>,
    end: bool,
    end_seen: bool,
    waker: Option<Waker>,
    taken: Vec<u64>,
}
type SS = Arc<Mutex<SrcSt>>;
struct Src(SS);
impl Stream for Src {
    type Item = Req;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Req>> {
        let mut s = lock(&self.0);
        check!(!s.end_seen, "stream-polled-after-end", "the request stream was polled again after it had ended");
        match s.q.pop_front() {
            Some(r) => {
                ev!("stream yields req#{}", r.id);
                s.taken.push(r.id);
                Poll::Ready(Some(r))
            }
            None if s.end => {
                ev!("stream ends");
                s.end_seen = true;
                Poll::Ready(None)
            }
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

enum CA {
    Ord(Pin<Box<CallAll<SimSvc, Src>>>),
    Un(Pin<Box<CallAllUnordered<SimSvc, Src>>>),
}

fn call_all(start_unordered: bool) {
    let mut cfg = SvcCfg::random(true);
    cfg.ready_err = pick(&[0, 0, 0, 4]);
    cfg.withdraw = pick(&[0, 0, 10]);
    let leaf = shared("inner", cfg);
    let st: SS = Default::default();
    let svc = SimSvc::new(&leaf);
    let inst = svc.inst;
    let convert = !start_unordered || chance(30);
    let mut ca = {
        let direct = chance(30);
        let src = Src(st.clone());
        if start_unordered && !convert {
            Some(CA::Un(Box::pin(if direct { CallAllUnordered::new(svc, src) } else { svc.call_all(src).unordered() })))
        } else {
            Some(CA::Ord(Box::pin(if direct { CallAll::new(svc, src) } else { svc.call_all(src) })))
        }
    };
    let slot = WakeSlot::new(chance(50));
    let mut waiting = false;
    let mut yielded: BTreeSet<u64> = BTreeSet::new(); // call ids
    let mut in_order = 0usize; // calls yielded in order so far
    let mut failed = false;
    let mut done = false;
    let (mut out_of_order, mut conversions) = (0u64, 0u64);
    let big = big();
    let nmax = if big { 40 + choose(100) as usize } else { 1 + choose(12) as usize };
    let mut sent = 0usize;
    let steps = if big { range_free(100, 500) } else { range_free(10, 120) };
    let mut step = 0;
    let take_at = if chance(10) { choose(60) as u64 } else { u64::MAX };
    let drop_at = if chance(10) { choose(60) as u64 } else { u64::MAX };
    loop {
        step += 1;
        if violated() {
            return;
        }
        let drain = step > steps;
        if step == steps + 1 {
            ctx().lock().draining = true;
        }
        if drain {
            let w = {
                let mut s = lock(&st);
                s.end = true;
                s.waker.take()
            };
            if let Some(w) = w {
                w.wake();
            }
            if step % 3 == 0 {
                open_random_gate();
            }
            if done {
                break;
            }
            if step > steps + if big { 3000 } else { 600 } {
                let l = lock(&leaf.leaf);
                violate(
                    "call-all-stuck",
                    format!("the stream ended and all {} calls completed, but the combinator does not end ({} yielded)", l.calls.len(), yielded.len()),
                );
                return;
            }
        }
        if step == take_at && !drain && !done {
            ev!("extract the service");
            let got = match ca.take().unwrap() {
                CA::Ord(mut c) => {
                    if chance(50) {
                        c.as_mut().take_service()
                    } else {
                        (*unpin(c)).into_inner()
                    }
                }
                CA::Un(mut c) => {
                    if chance(50) {
                        c.as_mut().take_service()
                    } else {
                        (*unpin(c)).into_inner()
                    }
                }
            };
            check!(got.inst == inst, "wrong-service", "svc#{} came back instead of svc#{inst}", got.inst);
            check!(live("fut") == 0, "leak", "calls outlive the combinator");
            return;
        }
        if step == drop_at && !drain {
            ev!("drop the combinator");
            ca = None;
            lock(&st).q.clear();
            check!(live("fut") == 0 && live("svc") == 0 && live("req") == 0, "leak", "calls, requests or the service outlive the combinator");
            return;
        }
        let op = if drain { 0 } else { weighted(&[30, 15, 2, 20, if convert { 5 } else { 0 }]) };
        match op {
            0 => {
                if done || (waiting && !slot.woken() && (drain || chance(85))) {
                    continue;
                }
                let calls0 = lock(&leaf.leaf).calls.len();
                ev!("poll");
                let ordered = matches!(ca, Some(CA::Ord(_)));
                let r = slot.poll("CallAll", |cx| match ca.as_mut().unwrap() {
                    CA::Ord(c) => c.as_mut().poll_next(cx),
                    CA::Un(c) => c.as_mut().poll_next(cx),
                });
                waiting = r.is_pending();
                let l = lock(&leaf.leaf);
                let taken = lock(&st).taken.clone();
                for (i, c) in l.calls.iter().enumerate() {
                    check!(taken.get(i) == Some(&c.req), "wrong-dispatch", "call {i} was made for req#{}, the stream gave {taken:?}", c.req);
                }
                check!(!failed || l.calls.len() == calls0, "called-after-failure", "the service was called after its readiness failed");
                match r {
                    Poll::Pending => {
                        ev!("pending");
                    }
                    Poll::Ready(None) => {
                        ev!("end");
                        done = true;
                        let s = lock(&st);
                        check!(s.end_seen || failed, "ended-early", "ended although the request stream has not");
                        check!(
                            yielded.len() == l.calls.len(),
                            "lost-response",
                            "{} calls were made but only {} responses were yielded",
                            l.calls.len(),
                            yielded.len()
                        );
                        check!(failed || l.calls.len() == taken.len(), "lost-request", "the stream gave {taken:?} but {} calls were made", l.calls.len());
                    }
                    Poll::Ready(Some(x)) => {
                        let o = match x {
                            Ok(r) => Ok((r.id, r.call)),
                            Err(e) => Err(e),
                        };
                        ev!("item {o:?}");
                        if let Err(e) = &o {
                            if e.kind == "ready-err" {
                                check!(!failed, "duplicate-error", "the readiness error was yielded twice");
                                check!(l.failed.is_some(), "phantom-error", "a readiness error without a failure");
                                failed = true;
                                continue;
                            }
                        }
                        let (ok, call) = match &o {
                            Ok((_, c)) => (true, *c),
                            Err(e) => (false, e.id),
                        };
                        let Some(i) = l.calls.iter().position(|c| c.call == call) else {
                            violate("phantom-response", format!("{o:?} belongs to no call"));
                            return;
                        };
                        let c = &l.calls[i];
                        check!(c.ok == ok, "wrong-outcome", "call#{call} ended ok={} but {o:?} was yielded", c.ok);
                        if let Ok((id, _)) = &o {
                            check!(*id == c.req, "swapped-response", "call#{call} was for req#{} but {o:?} was yielded", c.req);
                        }
                        check!(yielded.insert(call), "duplicate-response", "call#{call} was yielded twice");
                        if ordered {
                            check!(i == in_order, "out-of-order", "the response of call number {i} was yielded when that of number {in_order} was due");
                        } else if i != in_order {
                            out_of_order += 1;
                        }
                        in_order += 1;
                    }
                }
            }
            1 => {
                let mut s = lock(&st);
                if s.end || sent >= nmax {
                    continue;
                }
                for _ in 0..1 + choose(if big { 60 } else { 3 }) {
                    sent += 1;
                    let r = Req::new(fresh_id());
                    ev!("stream has req#{}", r.id);
                    s.q.push_back(r);
                }
                let w = s.waker.take();
                drop(s);
                if let Some(w) = w {
                    w.wake();
                }
            }
            2 => {
                let w = {
                    let mut s = lock(&st);
                    s.end = true;
                    s.waker.take()
                };
                ev!("stream will end");
                if let Some(w) = w {
                    w.wake();
                }
            }
            3 => {
                open_random_gate();
            }
            _ => {
                // to unordered mode; legal when nothing is in flight
                let idle = lock(&leaf.leaf).calls.len() == yielded.len() && !lock(&st).end_seen && !failed && !done;
                match ca.take().unwrap() {
                    CA::Ord(c) if idle => {
                        ev!("switch to unordered");
                        count("fault.switch_to_unordered");
                        conversions += 1;
                        if lock(&st).taken.len() > lock(&leaf.leaf).calls.len() {
                            count("probe.switch_with_request_taken");
                        }
                        let c = (*unpin(c)).unordered();
                        ca = Some(CA::Un(Box::pin(c)));
                        // a new stream is polled before it is waited on
                        waiting = false;
                    }
                    x => ca = Some(x),
                }
            }
        }
        // ---- nothing to do while pending
        if waiting && !slot.woken() && !violated() {
            let l = lock(&leaf.leaf);
            let s = lock(&st);
            let g = ctx();
            let g = g.lock();
            let mut bad: Option<(&str, String)> = None;
            for (i, c) in l.calls.iter().enumerate() {
                let due = !yielded.contains(&c.call) && (g.gates[c.gate].open || c.end == Some(true));
                if due && (matches!(ca, Some(CA::Un(_))) || i == in_order) {
                    bad = Some(("response-withheld", format!("call#{} has completed but its response is not yielded", c.call)));
                }
            }
            let have = s.taken.len() > l.calls.len();
            if !failed && !have && !s.end_seen && (!s.q.is_empty() || s.end) {
                bad = Some(("not-woken", "the stream has a request or has ended, but the task was not woken".into()));
            }
            if !failed && have && g.gates.iter().any(|x| x.kind == "ready" && !x.dropped && x.open) {
                bad = Some(("not-woken", "the service is ready for the taken request, but the task was not woken".into()));
            }
            if !failed && s.end_seen && l.calls.len() == yielded.len() {
                bad = Some(("call-all-stuck", "everything was yielded and the stream ended".into()));
            }
            drop(g);
            if let Some((c, m)) = bad {
                violate(c, m);
            }
        }
    }
    if violated() {
        return;
    }
    if lock(&leaf.leaf).calls.len() >= 3 {
        nontrivial();
    }
    drop(ca);
    lock(&st).q.clear();
    check!(live("fut") == 0 && live("svc") == 0 && live("req") == 0, "leak", "calls, requests or the service outlive the combinator");
    count_n("probe.calls", lock(&leaf.leaf).calls.len() as u64);
    count_n("probe.out_of_order", out_of_order);
    count_n("probe.conversions", conversions);
}

/// The combinators under test are Unpin-free only because of their queues; a
/// boxed one that has not been polled with borrowed data can be unboxed when
/// its parts are Unpin.
fn unpin<T: Unpin>(p: Pin<Box<T>>) -> Box<T> {
    Pin::into_inner(p)
}

fn a01(_: &mut Sim) {
    call_all(false)
}
fn a02(_: &mut Sim) {
    call_all(true)
}

// ---------------------------------------------------------------- M01

fn mock_kind(e: &BoxError) -> (bool, Option<u64>) {
    (e.is::<mock::error::Closed>(), sim_err(e).map(|x| x.id))
}

enum M {
    Plain(Mock<Req, Resp>),
    Spawned(Spawn<Mock<Req, Resp>>),
}
struct MH {
    m: M,
    slot: WakeSlot,
    can: bool,
    blocked: bool,
}
impl MH {
    fn woken(&self) -> bool {
        match &self.m {
            M::Plain(_) => self.slot.woken(),
            M::Spawned(s) => s.is_woken(),
        }
    }
}

fn m01(sim: &mut Sim) {
    let mut hs: Vec<MH> = vec![];
    let fresh = sim.fresh;
    let mkh = |m: Mock<Req, Resp>| MH { m: if chance(40) { M::Spawned(Spawn::new(m)) } else { M::Plain(m) }, slot: WakeSlot::new(fresh), can: false, blocked: false };
    let (m, h) = if chance(50) {
        let (s, h) = match choose(3) {
            0 => mock::spawn::<Req, Resp>(),
            1 => mock::spawn_with::<Req, Resp, _, _>(|m: Mock<Req, Resp>| m),
            _ => mock::spawn_layer::<Req, Resp, _>(tower_layer::Identity::new()),
        };
        (MH { m: M::Spawned(s), slot: WakeSlot::new(sim.fresh), can: false, blocked: false }, h)
    } else {
        let (m, h) = mock::pair::<Req, Resp>();
        (mkh(m), h)
    };
    hs.push(m);
    let mut handle: Option<Handle<Req, Resp>> = Some(h);
    let clones = chance(60);
    let mut rem = u64::MAX;
    let mut err: Option<u64> = None;
    let mut closed = false;
    let mut sent: VecDeque<u64> = VecDeque::new(); // accepted, not yet received
    let mut responders: Vec<(u64, SendResponse<Resp>)> = vec![];
    let mut futs: Vec<Held<_>> = vec![];
    // request -> what its caller must get: Ok(id), Err(Some(id)) or Err(None)=closed
    let mut due: BTreeMap<u64, Result<u64, Option<u64>>> = BTreeMap::new();
    let (mut accepted, mut blocked_n, mut errs) = (0u64, 0u64, 0u64);
    for _ in 0..range_free(10, 120) {
        if violated() {
            return;
        }
        match weighted(&[25, 20, 12, 12, 15, 6, 3, 1, if clones { 4 } else { 0 }, if clones { 2 } else { 0 }, 3]) {
            0 => {
                if hs.is_empty() {
                    continue;
                }
                let i = choose(hs.len() as u32) as usize;
                let x = &mut hs[i];
                let r = match &mut x.m {
                    M::Plain(m) => {
                        let w = x.slot.next();
                        m.poll_ready(&mut Context::from_waker(&w))
                    }
                    M::Spawned(s) => s.poll_ready(),
                };
                x.blocked = false;
                match &r {
                    Poll::Ready(Err(e)) => {
                        let (c, id) = mock_kind(e);
                        ev!("mock {i}: readiness error closed={c} id={id:?}");
                        if closed {
                            check!(c, "wrong-error", "the handle is gone but poll_ready failed with {e}");
                        } else {
                            check!(id.is_some() && id == err, "wrong-error", "poll_ready failed with {e}, injected {err:?}");
                            err = None;
                            errs += 1;
                        }
                    }
                    Poll::Ready(Ok(())) => {
                        ev!("mock {i}: ready");
                        check!(!closed, "ready-after-close", "poll_ready reports ready although the handle is gone");
                        check!(err.is_none(), "error-lost", "the injected error {err:?} was not returned by poll_ready");
                        check!(x.can || rem > 0, "over-admission", "poll_ready reports ready although no more requests are allowed");
                        x.can = true;
                    }
                    Poll::Pending => {
                        ev!("mock {i}: pending");
                        check!(!closed, "not-served", "poll_ready is pending although the handle is gone");
                        check!(err.is_none(), "error-lost", "the injected error {err:?} was not returned by poll_ready");
                        check!(!x.can, "readiness-withdrawn", "poll_ready is pending after it reported ready");
                        check!(rem == 0, "not-served", "poll_ready is pending although {rem} requests are allowed");
                        x.blocked = true;
                        blocked_n += 1;
                    }
                }
            }
            1 => {
                let can: Vec<usize> = (0..hs.len()).filter(|i| hs[*i].can).collect();
                if can.is_empty() {
                    continue;
                }
                let i = pick(&can);
                let req = fresh_id();
                ev!("mock {i}: call req#{req}");
                let f = match &mut hs[i].m {
                    M::Plain(m) => m.call(Req::new(req)),
                    M::Spawned(s) => s.call(Req::new(req)),
                };
                if closed {
                    due.insert(req, Err(None));
                } else {
                    hs[i].can = false;
                    rem = rem.saturating_sub(1);
                    sent.push_back(req);
                    accepted += 1;
                }
                let mut hf = Held::new(f, req, sim.fresh);
                if closed {
                    match hf.poll() {
                        Poll::Ready(Err(e)) => check!(mock_kind(&e).0, "wrong-error", "a call after the handle went away failed with {e}"),
                        Poll::Ready(Ok(_)) => violate("phantom-response", "a call after the handle went away was answered"),
                        Poll::Pending => violate("not-served", "a call after the handle went away does not resolve"),
                    }
                } else {
                    futs.push(hf);
                }
            }
            2 => {
                let Some(h) = handle.as_mut() else { continue };
                let r = if chance(50) {
                    h.poll_request()
                } else {
                    let w = futures_util::task::noop_waker();
                    let f = h.next_request();
                    let mut f = std::pin::pin!(f);
                    std::future::Future::poll(f.as_mut(), &mut Context::from_waker(&w))
                };
                match r {
                    Poll::Ready(Some((rq, tx))) => {
                        ev!("handle: got req#{}", rq.id);
                        let want = sent.pop_front();
                        check!(want == Some(rq.id), "wrong-request", "the handle received req#{}, expected {want:?}", rq.id);
                        responders.push((rq.id, tx));
                    }
                    Poll::Ready(None) => {
                        check!(hs.is_empty() && sent.is_empty(), "lost-request", "the handle reports the end although {} mocks and {} requests exist", hs.len(), sent.len());
                    }
                    Poll::Pending => {
                        check!(sent.is_empty(), "lost-request", "requests {sent:?} were accepted but the handle does not get them");
                        check!(!hs.is_empty(), "no-end", "all mocks are gone but the handle does not report the end");
                    }
                }
            }
            3 => {
                if responders.is_empty() {
                    continue;
                }
                let i = choose(responders.len() as u32) as usize;
                let (req, tx) = responders.remove(i);
                match choose(3) {
                    0 => {
                        ev!("respond req#{req}");
                        due.insert(req, Ok(req));
                        tx.send_response(Resp::new(req, 0, 0));
                    }
                    1 => {
                        let id = fresh_id();
                        ev!("fail req#{req} with {id}");
                        due.insert(req, Err(Some(id)));
                        tx.send_error(SimErr { kind: "mock", id });
                    }
                    _ => {
                        ev!("drop the responder of req#{req}");
                        count("fault.responder_dropped");
                        due.insert(req, Err(None));
                        drop(tx);
                    }
                }
            }
            4 => {
                if futs.is_empty() {
                    continue;
                }
                let i = choose(futs.len() as u32) as usize;
                if chance(10) {
                    count("fault.drop_future");
                    futs.remove(i);
                    continue;
                }
                let req = futs[i].req;
                match futs[i].poll() {
                    Poll::Pending => check!(!due.contains_key(&req), "not-served", "req#{req} was answered ({:?}) but its future is pending", due[&req]),
                    Poll::Ready(r) => {
                        let got = match &r {
                            Ok(x) => Ok(x.id),
                            Err(e) => {
                                let (c, id) = mock_kind(e);
                                check!(c || id.is_some(), "wrong-error", "req#{req} failed with {e}");
                                Err(id)
                            }
                        };
                        ev!("req#{req} -> {got:?}");
                        check!(due.get(&req) == Some(&got), "wrong-outcome", "req#{req} resolved with {got:?}, expected {:?}", due.get(&req));
                        futs.remove(i);
                    }
                }
            }
            5 => {
                let Some(h) = handle.as_mut() else { continue };
                rem = choose(4) as u64;
                ev!("allow({rem})");
                h.allow(rem);
                if rem > 0 {
                    for (i, x) in hs.iter().enumerate() {
                        check!(!x.blocked || x.woken(), "not-woken", "mock {i} is blocked and {rem} requests were allowed, but it was not woken");
                    }
                }
            }
            6 => {
                let Some(h) = handle.as_mut() else { continue };
                if err.is_some() {
                    continue;
                }
                let id = fresh_id();
                err = Some(id);
                count("fault.mock_error");
                ev!("send_error({id})");
                h.send_error(SimErr { kind: "mock", id });
                for (i, x) in hs.iter().enumerate() {
                    check!(!x.blocked || x.woken(), "not-woken", "mock {i} is blocked and an error was injected, but it was not woken");
                }
            }
            7 => {
                if handle.is_none() {
                    continue;
                }
                ev!("drop the handle");
                count("fault.handle_dropped");
                handle = None;
                closed = true;
                for (i, x) in hs.iter().enumerate() {
                    check!(!x.blocked || x.woken(), "not-woken", "mock {i} is blocked and the handle is gone, but it was not woken");
                }
                for r in sent.drain(..) {
                    due.insert(r, Err(None));
                }
            }
            8 => {
                if hs.is_empty() || hs.len() >= 4 {
                    continue;
                }
                let i = choose(hs.len() as u32) as usize;
                ev!("clone mock {i}");
                let n = match &hs[i].m {
                    M::Plain(m) => mkh(m.clone()),
                    M::Spawned(s) => MH { m: M::Spawned(s.clone()), slot: WakeSlot::new(sim.fresh), can: false, blocked: false },
                };
                hs.push(n);
            }
            9 => {
                if hs.is_empty() {
                    continue;
                }
                let i = choose(hs.len() as u32) as usize;
                ev!("drop mock {i}");
                hs.remove(i);
            }
            _ => {
                // whoever resolved must have been woken
            }
        }
        if violated() {
            return;
        }
        for f in &futs {
            check!(!(f.was_polled() && due.contains_key(&f.req)) || f.slot.woken(), "not-woken", "req#{} was answered but its caller was not woken", f.req);
        }
    }
    if violated() {
        return;
    }
    // everything resolves once the handle side is gone
    drop(handle);
    for (r, _) in &responders {
        due.insert(*r, Err(None));
    }
    drop(responders);
    for r in sent {
        due.insert(r, Err(None));
    }
    for mut f in futs {
        let req = f.req;
        match f.poll() {
            Poll::Pending => violate("not-served", format!("the handle and responders are gone but req#{req} stays pending")),
            Poll::Ready(r) => {
                let got = r.map(|x| x.id).map_err(|e| mock_kind(&e).1);
                check!(due.get(&req) == Some(&got), "wrong-outcome", "req#{req} resolved with {got:?}, expected {:?}", due.get(&req));
            }
        }
    }
    drop(hs);
    check!(live("req") == 0 && live("resp") == 0, "leak", "requests or responses outlive the mock");
    if accepted > 1 && blocked_n > 0 {
        nontrivial();
    }
    count_n("probe.accepted", accepted);
    count_n("probe.blocked", blocked_n);
    count_n("probe.errors", errs);
}

pub fn props() -> Vec<Prop> {
    let real = "tower::util::call_all (common, ordered, unordered), futures-util queues";
    let stub = "request stream, inner service, the polling task";
    vec![
        Prop { id: "A01", quick: 300_000, scns: vec![Scn { name: "call-all", weight: 1, run: a01 }], rule: "at least three calls were made and everything was yielded", real, stub },
        Prop { id: "A02", quick: 300_000, scns: vec![Scn { name: "call-all-unordered", weight: 1, run: a02 }], rule: "at least three calls were made and everything was yielded", real, stub },
        Prop { id: "M01", quick: 300_000, scns: vec![Scn { name: "mock", weight: 1, run: m01 }], rule: "requests were accepted and a mock was blocked", real: "tower_test::mock (mock, future, spawn)", stub: "users of the mock and of its handle" },
    ]
}
