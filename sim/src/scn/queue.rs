//! L05: capacity goes to whoever has waited longest.

use crate::core::*;
use crate::exec::*;
use crate::runner::{Prop, Scn};
use crate::svc::*;
use crate::{check, ev};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use tokio::sync::Semaphore;
use tower::buffer::Buffer;
use tower::limit::{ConcurrencyLimit, GlobalConcurrencyLimitLayer};
use tower_layer::Layer;
use tower_service::Service;

type Lim = ConcurrencyLimit<SimSvc>;
type Buf = Buffer<Req, SimFut>;

enum Svc {
    L(Lim),
    B(Buf),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Idle,
    Waiting,
    /// its turn has come, but it has not been polled yet
    Granted,
    Ready,
}
struct Handle {
    no: u32,
    svc: Svc,
    slot: WakeSlot,
    st: St,
}
type Fut = Pin<Box<dyn Future<Output = Result<Resp, BoxError>>>>;

struct Env {
    free: u64,
    queue: VecDeque<u32>,
    handles: Vec<Handle>,
    handed_over: u64,
    most: usize,
}
impl Env {
    /// A slot comes back.
    fn release(&mut self, why: &str) {
        match self.queue.pop_front() {
            None => self.free += 1,
            Some(no) => {
                let h = self.handles.iter_mut().find(|h| h.no == no).unwrap();
                h.st = St::Granted;
                self.handed_over += 1;
                check!(h.slot.woken(), "next-not-woken", "{why}: handle {no} has waited longest, but it was not woken ({} wait behind it)", self.queue.len());
            }
        }
        if self.queue.len() > self.most {
            self.most = self.queue.len();
        }
    }
    fn poll(&mut self, i: usize) {
        let h = &mut self.handles[i];
        let Handle { slot, svc, .. } = h;
        let r = slot.poll_once(|cx| match svc {
            Svc::L(s) => s.poll_ready(cx).map_err(|e| BoxError::from(e)),
            Svc::B(s) => s.poll_ready(cx),
        });
        let ready = match r {
            Poll::Pending => false,
            Poll::Ready(Ok(())) => true,
            Poll::Ready(Err(e)) => {
                violate("failed", format!("handle {} failed: {e}", h.no));
                return;
            }
        };
        ev!("handle {} ({:?}): {}", h.no, h.st, if ready { "ready" } else { "pending" });
        let (no, st) = (h.no, h.st);
        match (st, ready) {
            (St::Idle, true) => {
                check!(self.free > 0, "overtaken", "handle {no} got a slot at once although none is free; handles {:?} wait for one", self.queue);
                self.free = self.free.saturating_sub(1);
                self.handles[i].st = St::Ready;
            }
            (St::Idle, false) => {
                check!(self.free == 0, "not-granted", "handle {no} has to wait although {} slots are free", self.free);
                self.handles[i].st = St::Waiting;
                self.queue.push_back(no);
            }
            (St::Waiting, true) => {
                violate("overtaken", format!("handle {no} got a slot out of turn; in order of arrival {:?} wait", self.queue));
            }
            (St::Waiting, false) => {}
            (St::Granted, _) => {
                check!(ready, "lost-turn", "handle {no} was woken because its turn had come, but has to wait again");
                self.handles[i].st = St::Ready;
            }
            (St::Ready, _) => check!(ready, "readiness-withdrawn", "handle {no} was ready, but is not any more"),
        }
    }
}

fn l05(sim: &mut Sim) {
    let big = big();
    let max = if big { 1 + choose(40) as usize } else { 1 + choose(4) as usize };
    let mut cfg = SvcCfg::fast();
    cfg.resp = GateMode { now: 0, ..Default::default() };
    let kind = choose(4);
    let leaf = shared("inner", cfg);
    let other = shared("other", cfg);
    let mut worker: Option<Pin<Box<dyn Future<Output = ()>>>> = None;
    let wslot = WakeSlot::new(false);
    let roots: Vec<Svc> = match kind {
        0 => vec![Svc::L(ConcurrencyLimit::new(SimSvc::new(&leaf), max))],
        1 => {
            let s = Arc::new(Semaphore::new(max));
            vec![Svc::L(ConcurrencyLimit::with_semaphore(SimSvc::new(&leaf), s.clone())), Svc::L(ConcurrencyLimit::with_semaphore(SimSvc::new(&other), s))]
        }
        2 => {
            let l = GlobalConcurrencyLimitLayer::new(max);
            vec![Svc::L(l.layer(SimSvc::new(&leaf))), Svc::L(l.clone().layer(SimSvc::new(&other)))]
        }
        _ => {
            let (b, w) = Buffer::pair(SimSvc::new(&leaf), max);
            worker = Some(Box::pin(w));
            vec![Svc::B(b)]
        }
    };
    let buffered = worker.is_some();
    ev!("{} with {max} slots, {} services", if buffered { "buffer" } else { "limit" }, roots.len());
    let mut e = Env { free: max as u64, queue: VecDeque::new(), handles: vec![], handed_over: 0, most: 0 };
    let fresh = sim.fresh;
    let mut no = 0;
    for svc in roots {
        e.handles.push(Handle { no, svc, slot: WakeSlot::new(fresh), st: St::Idle });
        no += 1;
    }
    let mut futs: Vec<(u64, Fut)> = vec![];
    // sent to the worker, not yet taken by it
    let mut queued = 0u64;
    let (lim_h, steps) = if big { (60, range_free(200, 800)) } else { (pick(&[3, 6, 10]), range_free(20, 150)) };
    let w = [pick(&[20, 40]), pick(&[5, 15]), pick(&[5, 15]), pick(&[0, 3]), pick(&[3, 10]), pick(&[2, 10]), 10];
    for _ in 0..steps {
        if violated() {
            return;
        }
        match weighted(&w) {
            0 => {
                // (also without being woken)
                let i = choose(e.handles.len() as u32) as usize;
                e.poll(i);
            }
            1 => {
                let r: Vec<usize> = (0..e.handles.len()).filter(|i| e.handles[*i].st == St::Ready).collect();
                if r.is_empty() {
                    continue;
                }
                let h = &mut e.handles[pick(&r)];
                h.st = St::Idle;
                let id = fresh_id();
                ev!("handle {} calls with req#{id}", h.no);
                let f: Fut = match &mut h.svc {
                    Svc::L(s) => {
                        let f = s.call(Req::new(id));
                        Box::pin(async move { f.await.map_err(|e| BoxError::from(e)) })
                    }
                    Svc::B(s) => Box::pin(s.call(Req::new(id))),
                };
                futs.push((id, f));
                queued += 1;
            }
            2 => {
                // a call ends
                if futs.is_empty() {
                    continue;
                }
                let i = choose(futs.len() as u32) as usize;
                let (id, mut f) = futs.remove(i);
                if !buffered && chance(60) {
                    for g in closed_gates(true) {
                        open_gate(g);
                    }
                    let slot = WakeSlot::new(false);
                    let wk = slot.next();
                    if f.as_mut().poll(&mut Context::from_waker(&wk)).is_pending() {
                        violate("HARNESS:pending", "the inner call had ended");
                    }
                    ev!("req#{id} completed");
                } else {
                    ev!("req#{id} dropped");
                }
                drop(f);
                if !buffered {
                    e.release(&format!("req#{id} ended"));
                }
            }
            3 => {
                if e.handles.len() < 2 {
                    continue;
                }
                let i = choose(e.handles.len() as u32) as usize;
                let h = e.handles.swap_remove(i);
                ev!("handle {} ({:?}) dropped", h.no, h.st);
                let (st, no) = (h.st, h.no);
                drop(h);
                e.queue.retain(|q| *q != no);
                if matches!(st, St::Granted | St::Ready) {
                    e.release(&format!("handle {no} was dropped"));
                }
            }
            4 => {
                if e.handles.len() < lim_h {
                    let i = choose(e.handles.len() as u32) as usize;
                    let svc = match &e.handles[i].svc {
                        Svc::L(s) => Svc::L(s.clone()),
                        Svc::B(s) => Svc::B(s.clone()),
                    };
                    ev!("handle {no} is a clone of {}", e.handles[i].no);
                    e.handles.push(Handle { no, svc, slot: WakeSlot::new(fresh), st: St::Idle });
                    no += 1;
                }
            }
            5 => {
                if let Some(wk) = &mut worker {
                    if wslot.poll_once(|cx| wk.as_mut().poll(cx)).is_ready() {
                        violate("failed", "the worker ended");
                        return;
                    }
                    ev!("worker took {queued} requests");
                    for _ in 0..std::mem::take(&mut queued) {
                        e.release("the worker took a request");
                    }
                }
            }
            _ => {
                // somebody whose turn has come
                let g: Vec<usize> = (0..e.handles.len()).filter(|i| e.handles[*i].st == St::Granted).collect();
                if !g.is_empty() {
                    e.poll(pick(&g));
                }
            }
        }
    }
    if e.handed_over >= 2 && e.most >= 2 {
        nontrivial();
    }
    count_n("probe.handed_over", e.handed_over);
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "L05",
        quick: 150_000,
        scns: vec![Scn { name: "queue", weight: 1, run: l05 }],
        rule: "slots were handed over to waiters at least twice, with two others waiting",
        real: "tower::limit::concurrency, tower::buffer, tokio Semaphore and mpsc, tokio-util PollSemaphore and PollSender",
        stub: "inner services, callers and executor",
    }]
}
