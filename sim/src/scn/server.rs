//! X02: a server that protects itself - bounded concurrency, rate, queue and
//! time in any order of the layers - under overload, stalls and cancellations.

use crate::client::*;
use crate::core::*;
use crate::exec::*;
use crate::runner::{Prop, Scn};
use crate::scn::stack::{D, N};
use crate::svc::*;
use crate::{check, ev};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::Semaphore;
use tower::buffer::Buffer;
use tower::limit::{ConcurrencyLimitLayer, GlobalConcurrencyLimitLayer, RateLimitLayer};
use tower::util::ServiceExt;
use tower::ServiceBuilder;

#[derive(Clone, Copy, PartialEq, Debug)]
enum L {
    Shed,
    Buffer,
    Conc,
    Rate,
    Timeout,
    Filter,
    Spawn,
}

#[derive(Clone, Debug)]
struct Cfg {
    /// outermost first
    layers: Vec<L>,
    limit: usize,
    shared: bool,
    bound: usize,
    num: u64,
    per: u64,
    timeout: u64,
}
impl Cfg {
    fn has(&self, l: L) -> bool {
        self.layers.contains(&l)
    }
    fn at(&self, l: L) -> Option<usize> {
        self.layers.iter().position(|x| *x == l)
    }
    fn random() -> Cfg {
        let mut layers = vec![];
        for (l, p) in [(L::Shed, 50), (L::Buffer, 50), (L::Conc, 80), (L::Rate, 35), (L::Timeout, 70), (L::Filter, 20), (L::Spawn, 15)] {
            if chance(p) {
                let i = choose(layers.len() as u32 + 1) as usize;
                layers.insert(i, l);
            }
        }
        let mut c = Cfg {
            layers,
            limit: if big() { range(6, 300) as usize } else { pick(&[1, 2, 3, 5]) },
            shared: chance(40),
            bound: if big() { range(9, 300) as usize } else { pick(&[1, 2, 3, 4, 8]) },
            num: if big() { range(11, 300) } else { pick(&[1, 2, 4, 10]) },
            per: pick(&[5, 10, 40]),
            timeout: pick(&[5, 20, 50, 100]),
        };
        // a readiness that is prepared in the background is not there at the
        // first poll
        if c.has(L::Shed) || c.shared {
            c.layers.retain(|l| *l != L::Spawn);
        }
        // what has a single owner sits behind a buffer
        for l in [L::Rate, L::Spawn] {
            if let Some(i) = c.at(l) {
                match c.at(L::Buffer) {
                    None => {
                        let j = choose(i as u32 + 1) as usize;
                        c.layers.insert(j, L::Buffer);
                    }
                    Some(j) if j > i => c.layers.swap(i, j),
                    _ => {}
                }
            }
        }
        // (a rejected request leaves what is inside ready and reserved, which
        // must not be something that the holder of another slot waits for)
        if let Some(i) = c.at(L::Filter) {
            let cap = |l: &L| matches!(l, L::Conc | L::Buffer);
            if c.layers[..i].iter().any(cap) && c.layers[i..].iter().any(cap) {
                c.layers.remove(i);
            }
        }
        // (the worker of a buffer, and a rate limit that is waiting, may keep a
        // slot for its next request, which must not be a slot of the others)
        let conc = c.at(L::Conc);
        if !conc.is_some_and(|i| c.at(L::Buffer).is_none_or(|j| j > i)) {
            c.shared = false;
        }
        c
    }
}

enum S {
    Many(D),
    One(N),
}

/// The layers all routes are made with.
struct Layers {
    shared: GlobalConcurrencyLimitLayer,
    own: ConcurrencyLimitLayer,
    rate: RateLimitLayer,
}

fn build(c: &Cfg, leaf: &Sh, ls: &Layers, name: &str) -> D {
    let mut s = S::Many(D::new(SimSvc::new(leaf).map_err(|e: SimErr| -> BoxError { e.into() })));
    for l in c.layers.iter().rev() {
        macro_rules! apply {
            ($b:expr) => {
                match s {
                    S::Many(d) => S::Many(D::new($b.service(d))),
                    S::One(n) => S::One(N::new($b.service(n))),
                }
            };
        }
        let b = ServiceBuilder::new();
        s = match l {
            L::Shed => apply!(b.load_shed()),
            L::Conc if c.shared => apply!(b.layer(ls.shared.clone())),
            L::Conc => apply!(b.layer(ls.own.clone())),
            L::Timeout => apply!(b.timeout(Duration::from_millis(c.timeout))),
            L::Filter => apply!(b.filter(|r: Req| if r.id % 4 == 0 && !draining() { Err(SimErr { kind: "rejected", id: r.id }) } else { Ok(r) })),
            L::Rate => {
                let b = b.layer(ls.rate.clone());
                S::One(match s {
                    S::Many(d) => N::new(b.service(d)),
                    S::One(n) => N::new(b.service(n)),
                })
            }
            L::Spawn => {
                let b = b.layer(tower::spawn_ready::SpawnReadyLayer::new());
                S::One(match s {
                    S::Many(d) => N::new(b.service(d)),
                    S::One(n) => N::new(b.service(n)),
                })
            }
            L::Buffer => {
                let name = format!("{name} worker");
                S::Many(match s {
                    S::Many(d) => {
                        let (b, w) = Buffer::pair(d, c.bound);
                        spawn_later(name, w);
                        D::new(b)
                    }
                    S::One(n) => {
                        let (b, w) = Buffer::pair(n, c.bound);
                        spawn_later(name, w);
                        D::new(b)
                    }
                })
            }
        };
    }
    match s {
        S::Many(d) => d,
        S::One(_) => unreachable!("single-owner layers sit behind a buffer"),
    }
}

fn server(sim: &mut Sim) {
    let c = Cfg::random();
    ev!("server: {c:?}");
    let stalls = chance(50);
    let svc = SvcCfg {
        ready: GateMode { now: if stalls { 50 } else { 100 }, hang: pick(&[0, 0, 10]), latency: Some((0, 10)) },
        resp: GateMode { now: pick(&[50, 20, 0]), hang: pick(&[0, 0, 20]), latency: Some((0, pick(&[5, 30, 200]))) },
        resp_err: pick(&[0, 10]),
        ..Default::default()
    };
    let sem = Arc::new(Semaphore::new(c.limit));
    let routes = if c.shared || chance(25) { 2 } else { 1 };
    let ls = Layers {
        shared: GlobalConcurrencyLimitLayer::with_semaphore(sem.clone()),
        own: ConcurrencyLimitLayer::new(c.limit),
        rate: RateLimitLayer::new(c.num, Duration::from_millis(c.per)),
    };
    let leaves: Vec<Sh> = (0..routes).map(|_| shared("handler", svc)).collect();
    let mut tops: Vec<D> = leaves.iter().enumerate().map(|(i, l)| build(&c, l, &ls, &format!("route{i}"))).collect();
    let h = hist();

    let (leaves2, h2, c2) = (leaves.clone(), h.clone(), c.clone());
    sim.check_hook = Some(Box::new(move || {
        let n: Vec<u64> = leaves2.iter().map(|l| lock(&l.leaf).inflight).collect();
        let most = if c2.shared { n.iter().sum() } else { *n.iter().max().unwrap() };
        check!(!c2.has(L::Conc) || most <= c2.limit as u64, "overload", "{n:?} requests are being handled, the limit is {}", c2.limit);
        for l in &leaves2 {
            let g = lock(&l.leaf);
            let k = 2 * c2.num as usize;
            if let (true, Some(i)) = (c2.has(L::Rate), g.calls.len().checked_sub(k + 1)) {
                let (a, b) = (g.calls[i].t, g.calls[i + k].t);
                check!(b - a >= c2.per, "rate-exceeded", "{} requests were passed on within {} ms, the limit is {} in {} ms", k + 1, b - a, c2.num, c2.per);
            }
        }
        let g = lock(&leaves2[0].leaf);
        if routes == 1 && c2.at(L::Buffer) == Some(0) && !c2.has(L::Shed) && !c2.has(L::Filter) {
            // one more is in the hands of the worker
            let hh = lock(&h2);
            let n = hh.recs.iter().filter(|r| r.out.is_none() && !g.calls.iter().any(|x| x.req == r.req)).count();
            check!(n <= c2.bound + 1, "queue-exceeded", "{n} accepted requests wait, the buffer is bounded to {}", c2.bound);
        }
    }));

    // how long an answer may take once the request is accepted
    let deadline = match (c.at(L::Timeout), c.at(L::Buffer)) {
        (Some(t), Some(b)) if b < t => None,
        (Some(_), _) => Some(c.timeout),
        _ => None,
    };
    let mut cc = CliCfg::random();
    cc.stop_on_err = true;
    cc.pause = pick(&[0, 5, 30]);
    cc.inline = pick(&[100, 50, 0]);
    cc.drop_fut = pick(&[0, 0, 10]);
    let mut left = 2 + choose(if big() { 20 } else { 5 });
    let mut next = 0;
    let actions = range_free(5, 50);
    let mut todo = actions;
    let cancel = pick(&[0, 0, 10]);
    let brown = pick(&[0, 0, 10]);
    let mut down = false;
    let (h3, leaves3) = (h.clone(), leaves.clone());
    let tops2 = &mut tops;
    let mut act = |sim: &mut Sim| -> bool {
        if todo == 0 {
            return false;
        }
        todo -= 1;
        match weighted(&[30, cancel, brown, 10]) {
            0 if left > 0 => {
                left -= 1;
                next += 1;
                let mut k = cc;
                k.reqs = 2 + choose(6) as u64;
                let i = choose(tops2.len() as u32) as usize;
                sim.spawn(format!("client{next}"), client(h3.clone(), next, split(&mut tops2[i]), Some(|s: &D| s.clone()), k));
            }
            1 => {
                // (not a worker)
                let u: Vec<_> = sim.unfinished().into_iter().filter(|i| !sim.tasks[*i].name.ends_with("worker")).collect();
                if !u.is_empty() {
                    count("fault.cancel_task");
                    let id = pick(&u);
                    sim.drop_task(id);
                }
            }
            2 => {
                down = !down;
                ev!("handlers stall: {down}");
                count("fault.stall");
                for l in &leaves3 {
                    *lock(&l.cfg) = if down { SvcCfg { resp: GateMode { hang: 100, ..Default::default() }, ..svc } } else { svc };
                }
            }
            _ => {}
        }
        true
    };
    act(sim);
    if chance(60) {
        // everything is polled promptly: deadlines hold to the tick
        for _ in 0..actions * 3 {
            if violated() {
                return;
            }
            sim.steps += 1;
            sim.absorb();
            if chance(40) {
                if !act(sim) && sim.all_done() {
                    break;
                }
            } else if chance(20) {
                let g = closed_gates(false);
                if !g.is_empty() {
                    open_gate(pick(&g));
                }
            } else {
                sim.settle(true);
                let ms = match next_gate_time() {
                    Some(t) if t > now() && chance(50) => t - now(),
                    _ => 1 + choose(30) as u64,
                };
                sim.advance(ms);
                sim.settle(true);
                if let Some(t) = deadline {
                    for r in lock(&h).recs.iter() {
                        let age = now() - r.t_call;
                        check!(r.out.is_some() || age <= t + 1, "deadline-missed", "req#{} is unanswered after {age} ms, the timeout is {t} ms", r.req);
                    }
                }
            }
        }
    } else {
        let mut dr = Drive::random(30, 200);
        dr.background = 8;
        dr.advance = pick(&[5, 15]);
        sim.drive(&dr, &mut |sim| act(sim));
    }
    drop(act);
    if violated() {
        return;
    }

    // ------------------------------------------------------------ faults stop
    ev!("--- faults stop ---");
    ctx().lock().draining = true;
    // with a timeout even handlers that never answer give their slots back
    let heal = !c.has(L::Timeout) || chance(50);
    let hung: Vec<usize> = {
        let k = ctx();
        let mut i = k.lock();
        let v: Vec<usize> = (0..i.gates.len()).filter(|x| i.gates[*x].at.is_none() && !i.gates[*x].open && !i.gates[*x].dropped && (heal || i.gates[*x].kind != "resp")).collect();
        for x in &v {
            i.gates[*x].hang = false;
        }
        v
    };
    for g in hung {
        open_gate(g);
    }
    let calm = SvcCfg { ready: GateMode { now: 100, ..Default::default() }, resp: GateMode { now: 50, hang: 0, latency: Some((0, 3)) }, ..Default::default() };
    for l in &leaves {
        *lock(&l.cfg) = calm;
    }
    let drain = |sim: &mut Sim, horizon: u64, class: &str| {
        let end = now() + horizon;
        loop {
            if violated() {
                return;
            }
            sim.settle(true);
            if violated() || sim.all_done() {
                return;
            }
            let g: Vec<usize> = {
                let k = ctx();
                let i = k.lock();
                (0..i.gates.len()).filter(|x| !i.gates[*x].open && !i.gates[*x].dropped && ["hold", "linger"].contains(&i.gates[*x].kind)).collect()
            };
            if !g.is_empty() {
                open_gate(pick(&g));
                continue;
            }
            if now() >= end {
                let names: Vec<_> = sim.unfinished().iter().map(|i| sim.tasks[*i].name.clone()).collect();
                violate(class, format!("{horizon} ms after faults stopped still unanswered: {names:?}"));
                return;
            }
            sim.advance(pick(&[1, 5, 20]));
        }
    };
    drain(sim, 20_000, "stuck");
    if violated() {
        return;
    }
    for _ in 0..6 {
        sim.settle(true);
        sim.advance(2);
    }
    sim.settle(true);
    let n: u64 = leaves.iter().map(|l| lock(&l.leaf).inflight).sum();
    check!(n == 0, "slot-leak", "{n} requests are still being handled although nobody waits for any");

    // ------------------------------------------------- the whole capacity is back
    sim.coop = false;
    sim.advance(c.per + 1);
    sim.settle(true);
    let mut m = c.limit;
    if c.has(L::Rate) {
        m = m.min(c.num as usize);
    }
    if c.has(L::Shed) && c.has(L::Buffer) {
        m = m.min(c.bound);
    }
    for l in &leaves {
        *lock(&l.cfg) = SvcCfg { resp: GateMode::default(), ..calm };
    }
    let before = lock(&h).recs.len();
    if !c.shared {
        m *= routes;
    }
    for i in 0..m {
        let k = CliCfg { reqs: 1, inline: 100, stop_on_err: true, ..Default::default() };
        let s = tops[if c.shared { choose(routes as u32) as usize } else { i % routes }].clone();
        sim.spawn(format!("probe{i}"), client(h.clone(), 100 + i as u32, s, None, k));
        if chance(20) {
            sim.settle(true);
        }
    }
    sim.settle(true);
    if violated() {
        return;
    }
    let n: u64 = leaves.iter().map(|l| lock(&l.leaf).inflight).sum();
    check!(n == m as u64, "capacity-lost", "after faults stopped only {n} of {m} requests are handled at once: {:?}", lock(&h).recs[before..].iter().map(|r| r.out.clone()).collect::<Vec<_>>());
    if violated() {
        return;
    }
    for g in closed_gates(true) {
        open_gate(g);
    }
    drain(sim, 100, "not-recovered");
    if violated() {
        return;
    }
    for r in &lock(&h).recs[before..] {
        check!(matches!(r.out, Some(Out::Ok { .. })), "not-recovered", "after faults stopped req#{} got {:?}", r.req, r.out);
    }

    // ------------------------------------------------------------ judgement
    let (mut ok, mut turned) = (0, 0);
    {
        let hh = lock(&h);
        for r in &hh.recs {
            let dispatched = leaves.iter().map(|l| lock(&l.leaf).calls.iter().filter(|x| x.req == r.req).count()).sum::<usize>();
            check!(dispatched <= 1, "duplicate-dispatch", "req#{} was handled {dispatched} times", r.req);
            for l in &leaves {
                let l = lock(&l.leaf);
                if dispatched == 0 || l.calls.iter().any(|x| x.req == r.req) {
                    check_outcome(&l, r);
                    break;
                }
            }
            match &r.out {
                None => violate("lost-request", format!("req#{} has no outcome", r.req)),
                Some(Out::Ok { .. }) => ok += 1,
                Some(Out::Dropped) => {}
                Some(Out::Err(e)) => {
                    let age = r.t_out - r.t_call;
                    let fine = match e {
                        ErrK::Sim(e) if e.kind == "resp-err" => dispatched == 1,
                        ErrK::Sim(e) if e.kind == "rejected" => c.has(L::Filter) && e.id == r.req && dispatched == 0,
                        ErrK::Elapsed => c.has(L::Timeout) && age + 1 >= c.timeout,
                        ErrK::Overloaded => c.has(L::Shed) && dispatched == 0,
                        _ => false,
                    };
                    turned += !matches!(e, ErrK::Sim(_)) as u64;
                    check!(fine, "wrong-error", "req#{} failed with {e:?} after {age} ms, handled {dispatched} times", r.req);
                }
            }
        }
        for (k, e, _, _) in &hh.ready_errs {
            violate("wrong-error", format!("client {k} got readiness error {e:?} although nothing can fail"));
        }
    }
    if ok > 1 && turned > 0 {
        nontrivial();
    }
    count_n("probe.answered", ok);
    count_n("probe.turned_away", turned);

    // ------------------------------------------------------------ nothing is left
    drop(tops);
    let end = now() + 2_000;
    loop {
        sim.settle(true);
        let idle = (0..sim.tasks.len()).all(|i| !sim.running(i)) && sim.handle().metrics().num_alive_tasks() == 0;
        if idle || now() >= end || violated() {
            break;
        }
        sim.advance(25);
    }
    for id in 0..sim.tasks.len() {
        check!(!sim.running(id), "worker-leak", "{} does not terminate although all handles and calls are gone", sim.tasks[id].name);
    }
    for k in ["svc", "fut", "req"] {
        check!(live(k) == 0, "leak", "{} {k} objects outlive the server", live(k));
    }
    check!(sem.available_permits() == c.limit, "slot-leak", "{} of {} slots of the shared limit are free", sem.available_permits(), c.limit);
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "X02",
        quick: 150_000,
        scns: vec![Scn { name: "server", weight: 1, run: server }],
        rule: "requests were answered and some were shed or timed out",
        real: "LoadShed, Buffer and worker, ConcurrencyLimit (own and shared semaphore), RateLimit, Timeout, Filter, SpawnReady in any order, ServiceBuilder, boxing, tokio sync and timers under a paused clock",
        stub: "handlers, callers, task executor",
    }]
}
