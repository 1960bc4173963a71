//! P01 P02 P03: the p2c balancer.

use crate::client::*;
use crate::core::*;
use crate::exec::*;
use crate::runner::{Prop, Scn};
use crate::scn::cache::{Ep, EpL};
use crate::scn::single::{open_random_gate, Held};
use crate::svc::*;
use crate::{check, ev};
use futures_core::Stream;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tower_layer::Layer;
use tower::balance::p2c::{Balance, MakeBalance};
use tower::discover::Change;
use tower::util::rng::Rng as TowerRng;
use tower_service::Service;

enum Item {
    Insert(u32, Ep),
    Remove(u32),
    Fail(u64),
    End,
}
#[derive(Default)]
struct DiscSt {
    q: VecDeque<Item>,
    waker: Option<Waker>,
    ended: bool,
    polls_after_end: u64,
    /// what the balancer has taken out, in order
    taken: Vec<Taken>,
    delivered_err: Option<u64>,
}
#[derive(Clone, Debug)]
enum Taken {
    Insert(u32, u64),
    Remove(u32),
}
type DS = Arc<Mutex<DiscSt>>;
struct Disc(DS);
impl Stream for Disc {
    type Item = Result<Change<u32, Ep>, SimErr>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut d = lock(&self.0);
        if d.ended {
            d.polls_after_end += 1;

            violate("discovery-polled-after-end", "the discovery stream was polled again after it had ended");
            return Poll::Ready(None);
        }
        match d.q.pop_front() {
            None => {
                d.waker = Some(cx.waker().clone());
                Poll::Pending
            }
            Some(Item::Insert(k, e)) => {
                ev!("balancer takes insert of key {k} (svc#{})", e.svc.inst);
                d.taken.push(Taken::Insert(k, e.svc.inst));
                Poll::Ready(Some(Ok(Change::Insert(k, e))))
            }
            Some(Item::Remove(k)) => {
                ev!("balancer takes removal of key {k}");
                d.taken.push(Taken::Remove(k));
                Poll::Ready(Some(Ok(Change::Remove(k))))
            }
            Some(Item::Fail(id)) => {
                ev!("balancer takes a discovery error");
                d.delivered_err = Some(id);
                Poll::Ready(Some(Err(SimErr { kind: "discover", id })))
            }
            Some(Item::End) => {
                ev!("discovery ends");
                d.ended = true;
                Poll::Ready(None)
            }
        }
    }
}

struct R;
impl TowerRng for R {
    fn next_u64(&mut self) -> u64 {
        match choose(4) {
            0 => choose(7) as u64,
            1 => u64::MAX - choose(7) as u64,
            _ => ((choose(1 << 30) as u64) << 34) ^ choose(1 << 30) as u64,
        }
    }
}

#[derive(Clone, Debug)]
enum Cur {
    None,
    /// keys and loads as sampled
    Pair((u32, u64), (u32, u64)),
    Single(u32),
}

struct MakeDisc(Option<Disc>);
impl Service<u32> for MakeDisc {
    type Response = Disc;
    type Error = SimErr;
    type Future = std::future::Ready<Result<Disc, SimErr>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), SimErr>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, t: u32) -> Self::Future {
        check!(t == 7, "wrong-target", "the discovery maker got target {t}");
        std::future::ready(Ok(self.0.take().expect("called twice")))
    }
}

fn balance(sim: &mut Sim) {
    let mut cfg = SvcCfg::random(true);
    cfg.ready.now = pick(&[60, 20, 100, 0]);
    cfg.ready_err = pick(&[0, 5, 15]);
    cfg.withdraw = pick(&[0, 0, 20]);
    cfg.break_ready = pick(&[0, 0, 10]);
    let leaf = shared("ep", cfg);
    let log: EpL = Default::default();
    let ds: DS = Default::default();
    let single = chance(5);
    let big = !single && chance(4);
    let nkeys = if single { 1 } else if big { 20 + choose(40) } else { 1 + choose(5) };
    let mut bal = if single {
        // built by MakeBalance (its random source is never used with one key)
        let mut mk = if chance(50) { MakeBalance::<_, Req>::new(MakeDisc(Some(Disc(ds.clone())))) } else { tower::balance::p2c::MakeBalanceLayer::<MakeDisc, Req>::new().layer(MakeDisc(Some(Disc(ds.clone())))) };
        let wk = futures_util::task::noop_waker();
        let mut cx = Context::from_waker(&wk);
        let _ = mk.poll_ready(&mut cx);
        let mut f = Box::pin(mk.call(7));
        match std::future::Future::poll(f.as_mut(), &mut cx) {
            Poll::Ready(Ok(b)) => b,
            _ => {
                violate("make-failed", "MakeBalance did not produce a balancer");
                return;
            }
        }
    } else {
        Balance::<Disc, Req>::from_rng(Disc(ds.clone()), R)
    };
    let allow_end = chance(25);
    let disc_err = pick(&[0, 0, 5]);
    let slot = WakeSlot::new(sim.fresh);
    let mut waiting = false;
    let mut reported = false; // told ready, not called since
    let mut cur = Cur::None;
    // ---- reference: instance -> key for everything that may be used
    let mut applied = 0usize; // taken changes applied
    let mut current: BTreeMap<u32, u64> = BTreeMap::new(); // newest instance per key
    let mut older: BTreeMap<u32, u64> = BTreeMap::new(); // ready predecessor still usable
    let mut ready: BTreeSet<u64> = BTreeSet::new(); // last known ready
    let mut futs: Vec<Held<_>> = vec![];
    let (mut served, mut pairs, mut churn) = (0u64, 0u64, 0u64);
    let mut last_start = 0;
    let mut end_sent = false;
    let mut dead = false;
    let mut drainphase = false;
    let steps = range_free(10, 140);
    let mut step = 0;
    loop {
        step += 1;
        if violated() {
            return;
        }
        if step > steps && !drainphase {
            // faults stop: the balancer must become ready if an endpoint exists
            drainphase = true;
            ctx().lock().draining = true;
            for g in closed_gates(true) {
                open_gate(g);
            }
            lock(&leaf.cfg).withdraw = 0;
        }
        let op = if drainphase { 0 } else { weighted(&[25, 12, 10, 14, 10, 8]) };
        match op {
            0 => {
                if dead {
                    break;
                }
                // ---- poll_ready
                if waiting && !slot.woken() && (drainphase || chance(70)) {
                    if drainphase {
                        break;
                    }
                    continue;
                }
                last_start = tick();
                let (p0, r0, c0) = {
                    let l = lock(&log);
                    (l.polls.len(), l.reads.len(), lock(&ds).taken.len())
                };
                let _ = c0;
                lock(&ds).delivered_err = None;
                let w = slot.next();
                let r = bal.poll_ready(&mut Context::from_waker(&w));
                // changes taken out of discovery (discovery comes first)
                {
                    let d = lock(&ds);
                    while applied < d.taken.len() {
                        match &d.taken[applied] {
                            Taken::Insert(k, i) => {
                                if let Some(old) = current.insert(*k, *i) {
                                    // a ready predecessor stays usable, a
                                    // waiting one is given up
                                    if ready.contains(&old) {
                                        older.insert(*k, old);
                                    }
                                }
                            }
                            Taken::Remove(k) => {
                                churn += 1;
                                current.remove(k);
                                older.remove(k);
                            }
                        }
                        applied += 1;
                    }
                }
                // readiness answers, in order
                {
                    let l = lock(&log);
                    for (_, i, res) in &l.polls[p0..] {
                        let k = l.key[i];
                        let (is_cur, is_old) = (current.get(&k) == Some(i), older.get(&k) == Some(i));
                        match res {
                            1 => {
                                ready.insert(*i);
                                if is_cur {
                                    older.remove(&k);
                                }
                            }
                            0 => {
                                ready.remove(i);
                                if is_old {
                                    older.remove(&k);
                                }
                            }
                            _ => {
                                ready.remove(i);
                                if is_cur {
                                    current.remove(&k);
                                    // a predecessor that is still ready takes over
                                    if let Some(o) = older.remove(&k) {
                                        current.insert(k, o);
                                    }
                                } else if is_old {
                                    older.remove(&k);
                                }
                            }
                        }
                    }
                }
                // sampling
                let l = lock(&log);
                let reads: Vec<(u32, u64)> = l.reads[r0..].iter().map(|(i, v)| (l.key[i], *v)).collect();
                let usable: BTreeSet<u64> = current.values().chain(older.values()).cloned().filter(|i| ready.contains(i)).collect();
                let derr = lock(&ds).delivered_err;
                let dstate = {
                    let d = lock(&ds);
                    (d.q.len(), d.ended)
                };
                drop(l);
                if reads.len() % 2 == 1 {
                    violate("not-a-pair", format!("loads of {reads:?} were read"));
                }
                for p in reads.chunks(2) {
                    if p.len() == 2 {
                        check!(p[0].0 != p[1].0, "not-a-pair", "the same endpoint {} was sampled twice", p[0].0);
                        pairs += 1;
                    }
                }
                match &r {
                    Poll::Ready(Ok(())) => {
                        ev!("balancer ready");
                        check!(derr.is_none(), "discovery-error-lost", "a discovery error was not reported");
                        check!(dstate.0 == 0 || dstate.1, "stale-endpoints", "ready although {} discovery changes are waiting", dstate.0);
                        check!(!usable.is_empty(), "ready-without-endpoint", "ready although no live endpoint is ready");
                        waiting = false;
                        reported = true;
                        if let [.., a, b] = reads[..] {
                            cur = Cur::Pair(a, b);
                        }
                        if usable.len() == 1 {
                            let l = lock(&log);
                            cur = Cur::Single(l.key[usable.iter().next().unwrap()]);
                        }
                    }
                    Poll::Ready(Err(e)) => {
                        ev!("balancer error {e}");
                        let ok = e.downcast_ref::<tower::balance::error::Discover>().is_some() && sim_err(e).map(|x| x.id) == derr && derr.is_some();
                        check!(ok, "endpoint-failure-fatal", "the balancer failed with {e} (discovery error {derr:?})");
                        waiting = false;
                        reported = false;
                    }
                    Poll::Pending => {
                        ev!("balancer pending");
                        check!(derr.is_none(), "discovery-error-lost", "a discovery error was not reported");
                        check!(
                            usable.is_empty() || slot.woken(),
                            "not-served",
                            "pending although endpoints {usable:?} are ready"
                        );
                        waiting = true;
                        reported = false;
                        cur = Cur::None;
                    }
                }
                if !violated() && matches!(r, Poll::Ready(Ok(()))) {
                    // an endpoint per key, and one more for a key that is being replaced
                    let (lo, hi) = (current.len(), current.len() + older.len());
                    check!(bal.len() >= lo && bal.len() <= hi && bal.is_empty() == (bal.len() == 0), "wrong-len", "len {} (is_empty {}) with {lo} endpoints ({} being replaced)", bal.len(), bal.is_empty(), older.len());
                }
                // dropped endpoints are gone
                if !violated() && !slot.woken() && (r.is_pending() || matches!(r, Poll::Ready(Ok(())))) {
                    let l = lock(&log);
                    let queued: BTreeSet<u64> = lock(&ds).q.iter().filter_map(|x| if let Item::Insert(_, e) = x { Some(e.svc.inst) } else { None }).collect();
                    for a in &l.alive {
                        let k = l.key[a];
                        check!(
                            queued.contains(a) || current.get(&k) == Some(a) || older.get(&k) == Some(a),
                            "endpoint-leak",
                            "svc#{a} (key {k}) failed, was removed or superseded but is still held"
                        );
                    }
                    for i in current.values() {
                        check!(l.alive.contains(i), "endpoint-lost", "svc#{i} is live but was dropped");
                    }
                }
                if drainphase {
                    for g in closed_gates(true) {
                        open_gate(g);
                    }
                    if r.is_ready() && reported {
                        break;
                    }
                    if step > steps + 50 {
                        violate("wedged", "the balancer does not settle");
                        return;
                    }
                }
            }
            1 => {
                if !reported {
                    continue;
                }
                reported = false;
                let req = fresh_id();
                let n0 = lock(&log).calls.len();
                let l0 = {
                    current.values().chain(older.values()).cloned().filter(|i| ready.contains(i)).collect::<BTreeSet<u64>>()
                };
                ev!("call req#{req}");
                let f = bal.call(Req::new(req));
                let calls: Vec<_> = lock(&log).calls[n0..].to_vec();
                check!(calls.len() == 1 && calls[0].1 == req, "wrong-dispatch", "req#{req} was dispatched as {calls:?}");
                let Some((inst, _)) = calls.first().cloned() else { return };
                let l = lock(&log);
                let k = l.key[&inst];
                check!(
                    current.get(&k) == Some(&inst) || older.get(&k) == Some(&inst),
                    "dead-endpoint-used",
                    "req#{req} went to svc#{inst} (key {k}), which was removed, superseded or had failed"
                );
                let fresh = l.polls.iter().rev().find(|p| p.1 == inst).map_or(false, |p| p.2 == 1 && p.0 >= last_start);
                check!(fresh, "stale-readiness", "req#{req} went to svc#{inst}, which did not report ready in the poll that made the balancer ready");
                let ok = match &cur {
                    Cur::None => false,
                    Cur::Single(c) => *c == k,
                    Cur::Pair(a, b) => (a.0 == k && a.1 <= b.1) || (b.0 == k && b.1 <= a.1),
                } || l0.iter().all(|i| *i == inst);
                check!(ok, "not-least-loaded", "req#{req} went to key {k}; the sample was {cur:?}, ready endpoints {l0:?}");
                drop(l);
                // an older instance that was used is replaced by the pending one
                ready.remove(&inst);
                if older.get(&k) == Some(&inst) {
                    older.remove(&k);
                }
                cur = Cur::None;
                served += 1;
                futs.push(Held::new(f, req, sim.fresh));
            }
            2 => {
                if futs.is_empty() {
                    continue;
                }
                let i = choose(futs.len() as u32) as usize;
                if chance(15) {
                    futs.remove(i);
                    continue;
                }
                if let Poll::Ready(r) = futs[i].poll() {
                    let req = futs[i].req;
                    let o = out_of(r);
                    ev!("req#{req} -> {o:?}");
                    let l = lock(&leaf.leaf);
                    check_outcome(&l, &Rec { client: 0, req, t_call: 0, tick_call: 0, out: Some(o), t_out: 0, tick_out: 0, tick_gone: None });
                    drop(l);
                    futs.remove(i);
                }
            }
            3 => {
                // discovery
                if end_sent {
                    continue;
                }
                let burst = if big && chance(60) { 1 + choose(60) } else if chance(10) { 1 + choose(4) } else { 1 };
                let mut w = None;
                for _ in 0..burst {
                    if end_sent {
                        break;
                    }
                    let k = choose(nkeys);
                    let it = if chance(disc_err) {
                        count("fault.discovery_error");
                        Item::Fail(fresh_id())
                    } else if allow_end && chance(10) {
                        count("fault.discovery_end");
                        end_sent = true;
                        Item::End
                    } else if chance(70) {
                        Item::Insert(k, Ep::new(&leaf, &log, k, choose(4) as u64))
                    } else {
                        count("fault.endpoint_removed");
                        Item::Remove(k)
                    };
                    ev!("discovery: {}", match &it {
                        Item::Insert(k, e) => format!("insert key {k} svc#{}", e.svc.inst),
                        Item::Remove(k) => format!("remove key {k}"),
                        Item::Fail(_) => "error".into(),
                        Item::End => "end".into(),
                    });
                    let mut d = lock(&ds);
                    d.q.push_back(it);
                    w = d.waker.take().or(w);
                }
                if let Some(w) = w {
                    w.wake();
                }
            }
            4 => {
                open_random_gate();
            }
            _ => {
                // loads change
                let mut l = lock(&log);
                let ks: Vec<u64> = l.alive.iter().cloned().collect();
                if !ks.is_empty() {
                    let i = pick(&ks);
                    let v = choose(5) as u64;
                    l.load.insert(i, v);
                }
            }
        }
        if violated() {
            return;
        }
        // ---- wake-ups
        if waiting && !slot.woken() {
            let d = lock(&ds);
            check!(d.q.is_empty() || d.ended, "not-woken", "{} discovery changes are available but the waiting caller was not woken", d.q.len());
            drop(d);
            let l = lock(&log);
            for i in current.values() {
                let open = l.gate.get(i).map_or(false, |g| ctx().lock().gates[*g].open);
                check!(!open, "not-woken", "svc#{i} can become ready but the waiting caller was not woken");
            }
        }
        if step > steps + 200 {
            dead = true;
        }
    }
    if violated() {
        return;
    }
    // served if anything is alive
    if drainphase && !reported && !dead {
        let l = lock(&log);
        check!(current.is_empty(), "not-served", "all faults stopped and every endpoint can become ready, but the balancer of {current:?} stays pending; alive {:?}", l.alive);
    }
    drop(futs);
    drop(bal);
    lock(&ds).q.clear();
    check!(live("svc") == 0 && live("fut") == 0, "leak", "{} services outlive the balancer", live("svc"));
    if served > 0 && (pairs > 0 || churn > 0) {
        nontrivial();
    }
    count_n("probe.served", served);
    count_n("probe.pairs", pairs);
    count_n("probe.removals", churn);
}

/// Every pair of ready endpoints is sampled equally often.
fn uniform(_sim: &mut Sim) {
    #[derive(Clone)]
    struct U(Rng);
    impl TowerRng for U {
        fn next_u64(&mut self) -> u64 {
            self.0.next()
        }
    }
    let leaf = shared("ep", SvcCfg::fast());
    let log: EpL = Default::default();
    let ds: DS = Default::default();
    let n = 2 + choose(5) + if chance(10) { 5 + choose(10) } else { 0 };
    let seed = ((choose(1 << 30) as u64) << 32) | choose(1 << 30) as u64;
    let rng: Box<dyn TowerRng + Send + Sync> = match choose(3) {
        0 => Box::new(U(Rng::new(seed))),
        _ => Box::new(crate::scn::retry::hasher_rng(seed)),
    };
    let mut bal = Balance::<Disc, Req>::from_rng(Disc(ds.clone()), rng);
    let distinct_loads = chance(50);
    for k in 0..n {
        lock(&ds).q.push_back(Item::Insert(k, Ep::new(&leaf, &log, k, if distinct_loads { k as u64 } else { 1 })));
    }
    let wk = futures_util::task::noop_waker();
    let mut cx = Context::from_waker(&wk);
    let draws = 1500 * n as usize;
    let mut pairs: BTreeMap<(u32, u32), u64> = BTreeMap::new();
    // the same by how recently the endpoints were used
    let mut recency: Vec<u32> = (0..n).collect();
    let mut ranks: BTreeMap<(u32, u32), u64> = BTreeMap::new();
    for _ in 0..draws {
        let r0 = lock(&log).reads.len();
        if !matches!(bal.poll_ready(&mut cx), Poll::Ready(Ok(()))) {
            violate("not-served", "every endpoint is ready but the balancer is not");
            return;
        }
        let n0 = lock(&log).calls.len();
        drop(bal.call(Req::new(fresh_id())));
        let l = lock(&log);
        let rd: Vec<(u32, u64)> = l.reads[r0..].iter().map(|(i, v)| (l.key[i], *v)).collect();
        let Some((inst, _)) = l.calls.get(n0) else {
            violate("lost-request", "no endpoint was called");
            return;
        };
        let k = l.key[inst];
        if rd.len() != 2 {
            violate("not-a-pair", format!("loads of {rd:?} were read"));
            return;
        }
        let (a, b) = (rd[0], rd[1]);
        check!((a.0 == k && a.1 <= b.1) || (b.0 == k && b.1 <= a.1), "not-least-loaded", "key {k} used, sample {rd:?}");
        *pairs.entry((a.0.min(b.0), a.0.max(b.0))).or_insert(0) += 1;
        let rank = |k: u32| recency.iter().position(|x| *x == k).unwrap() as u32;
        let (ra, rb) = (rank(a.0), rank(b.0));
        *ranks.entry((ra.min(rb), ra.max(rb))).or_insert(0) += 1;
        recency.retain(|x| *x != k);
        recency.push(k);
    }
    chi_square("pairs", n, draws, &pairs);
    chi_square("pairs by recency of use", n, draws, &ranks);
    nontrivial();
}

/// Chi-square over all unordered pairs; the bound is far beyond 1e-15.
fn chi_square(what: &str, n: u32, draws: usize, pairs: &BTreeMap<(u32, u32), u64>) {
    let np = (n * (n - 1) / 2) as f64;
    let e = draws as f64 / np;
    let mut chi = 0.0;
    for a in 0..n {
        for b in a + 1..n {
            let o = pairs.get(&(a, b)).copied().unwrap_or(0) as f64;
            chi += (o - e) * (o - e) / e;
        }
    }
    let dof = np - 1.0;
    let limit = dof + 12.0 * (2.0 * dof).sqrt() + 75.0;
    ev!("{what}: n={n} draws={draws} chi2={chi:.1} limit={limit:.1}");
    check!(chi <= limit, "not-uniform", "{what} of {n} endpoints were sampled {pairs:?} in {draws} draws (chi2 {chi:.1} > {limit:.1})");
}

pub fn props() -> Vec<Prop> {
    let real = "tower::balance::p2c (service, make, layer), tower::ready_cache, sample_floyd2, HasherRng (over a simulated hasher)";
    let stub = "discovery stream, endpoints, loads, random source, the calling task";
    let b = || Scn { name: "balance", weight: 999, run: balance as fn(&mut Sim) };
    vec![
        Prop { id: "P01", quick: 200_000, scns: vec![b()], rule: "requests were served and endpoints sampled or removed", real, stub },
        Prop { id: "P02", quick: 200_000, scns: vec![b(), Scn { name: "uniform", weight: 1, run: uniform }], rule: "requests were served and endpoints sampled or removed", real, stub },
        Prop { id: "P03", quick: 200_000, scns: vec![b()], rule: "requests were served and endpoints sampled or removed", real, stub },
    ]
}
