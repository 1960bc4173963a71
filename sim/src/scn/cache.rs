//! C01 C02: ReadyCache. Also the endpoint wrapper shared with the balancer
//! scenarios.

use crate::core::*;
use crate::exec::*;
use crate::runner::{Prop, Scn};
use crate::scn::single::open_random_gate;
use crate::svc::*;
use crate::{check, ev};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tower::load::Load;
use tower::ready_cache::ReadyCache;
use tower_service::Service;

#[derive(Default)]
pub struct EpLog {
    /// (tick, instance, 0 pending / 1 ready / 2 error)
    pub polls: Vec<(u64, u64, u8)>,
    /// (instance, request)
    pub calls: Vec<(u64, u64)>,
    pub alive: BTreeSet<u64>,
    /// status as last reported: true while ready and not called since
    pub ready: BTreeSet<u64>,
    pub key: BTreeMap<u64, u32>,
    pub load: BTreeMap<u64, u64>,
    pub reads: Vec<(u64, u64)>,
    /// gate the instance is waiting on
    pub gate: BTreeMap<u64, usize>,
}
pub type EpL = Arc<Mutex<EpLog>>;

/// An endpoint: a SimSvc that logs how it is used.
pub struct Ep {
    pub svc: SimSvc,
    pub log: EpL,
}
impl Ep {
    pub fn new(leaf: &Sh, log: &EpL, key: u32, load: u64) -> Ep {
        let svc = SimSvc::new(leaf);
        let mut l = lock(log);
        l.alive.insert(svc.inst);
        l.key.insert(svc.inst, key);
        l.load.insert(svc.inst, load);
        drop(l);
        Ep { svc, log: log.clone() }
    }
}
impl Drop for Ep {
    fn drop(&mut self) {
        lock(&self.log).alive.remove(&self.svc.inst);
    }
}
impl Service<Req> for Ep {
    type Response = Resp;
    type Error = SimErr;
    type Future = SimFut;
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), SimErr>> {
        let r = self.svc.poll_ready(cx);
        let mut l = lock(&self.log);
        let c = match &r {
            Poll::Pending => 0,
            Poll::Ready(Ok(())) => 1,
            Poll::Ready(Err(_)) => 2,
        };
        l.polls.push((tick(), self.svc.inst, c));
        if c == 1 {
            l.ready.insert(self.svc.inst);
        } else {
            l.ready.remove(&self.svc.inst);
        }
        match self.svc.waiting_on() {
            Some(g) => l.gate.insert(self.svc.inst, g),
            None => l.gate.remove(&self.svc.inst),
        };
        r
    }
    fn call(&mut self, req: Req) -> SimFut {
        let mut l = lock(&self.log);
        l.calls.push((self.svc.inst, req.id));
        l.ready.remove(&self.svc.inst);
        drop(l);
        self.svc.call(req)
    }
}
impl Load for Ep {
    type Metric = u64;
    fn load(&self) -> u64 {
        let mut l = lock(&self.log);
        let v = l.load[&self.svc.inst];
        l.reads.push((self.svc.inst, v));
        ev!("load of key {} (svc#{}) is {v}", l.key[&self.svc.inst], self.svc.inst);
        v
    }
}

fn cache(sim: &mut Sim) {
    let mut cfg = SvcCfg::random(true);
    cfg.ready.now = pick(&[0, 20, 60]);
    cfg.ready_err = pick(&[0, 5, 20]);
    cfg.withdraw = pick(&[0, 30]);
    cfg.break_ready = pick(&[0, 10, 30]);
    let leaf = shared("ep", cfg);
    let log: EpL = Default::default();
    let mut cache: ReadyCache<u32, Ep, Req> = ReadyCache::default();
    let big = big();
    let nkeys = if big { 10 + choose(50) } else { 1 + choose(4) };
    // ---- reference
    let mut ready: BTreeMap<u32, u64> = BTreeMap::new();
    let mut pending: BTreeMap<u32, u64> = BTreeMap::new();
    let mut zombies: BTreeSet<u64> = BTreeSet::new(); // evicted or replaced while pending
    // ---- wake-up bookkeeping of the last poll_pending
    let slot = WakeSlot::new(sim.fresh);
    let mut waiting = false;
    let mut watched: BTreeSet<u64> = BTreeSet::new();
    let mut gone_since = false;
    let mut watched_check: Option<(WakeSlot, u64)> = None;
    let mut futs = vec![];
    let (mut evicted, mut served, mut failed) = (0u64, 0u64, 0u64);

    for _ in 0..if big { range_free(60, 300) } else { range_free(10, 120) } {
        if violated() {
            return;
        }
        let key = choose(nkeys);
        let alive0 = lock(&log).alive.clone();
        // services that this operation is entitled to drop
        let mut may_drop: BTreeSet<u64> = zombies.clone();
        match weighted(&[12, 6, 25, 10, 10, 18, 3]) {
            0 => {
                // sometimes many in a row
                let m = if big && chance(30) { 1 + choose(nkeys) } else { 1 };
                for j in 0..m {
                    let key = (key + j) % nkeys;
                    let ep = Ep::new(&leaf, &log, key, 0);
                    let inst = ep.svc.inst;
                    ev!("push key {key} svc#{inst}");
                    if let Some(old) = pending.insert(key, inst) {
                        zombies.insert(old);
                        may_drop.insert(old);
                        gone_since |= watched.contains(&old);
                    }
                    cache.push(key, ep);
                }
            }
            1 => {
                let had = pending.contains_key(&key) || ready.contains_key(&key);
                if let Some(old) = pending.remove(&key) {
                    zombies.insert(old);
                    may_drop.insert(old);
                    gone_since |= watched.contains(&old);
                }
                if let Some(old) = ready.remove(&key) {
                    may_drop.insert(old);
                }
                let r = cache.evict(&key);
                ev!("evict key {key} -> {r}");
                check!(r == had, "wrong-result", "evict({key}) returned {r}, expected {had}");
                evicted += had as u64;
            }
            2 => {
                let n0 = lock(&log).polls.len();
                let w = slot.next();
                let r = cache.poll_pending(&mut Context::from_waker(&w));
                let polls: Vec<_> = lock(&log).polls[n0..].to_vec();
                let mut err = None;
                for (_, inst, res) in &polls {
                    let k = lock(&log).key[inst];
                    if zombies.contains(inst) || pending.get(&k) != Some(inst) {
                        continue;
                    }
                    match res {
                        1 => {
                            pending.remove(&k);
                            if let Some(old) = ready.insert(k, *inst) {
                                may_drop.insert(old);
                            }
                        }
                        2 => {
                            pending.remove(&k);
                            may_drop.insert(*inst);
                            check!(err.is_none(), "failure-lost", "two services failed in one poll_pending");
                            err = Some(k);
                            failed += 1;
                        }
                        _ => {}
                    }
                }
                match &r {
                    Poll::Ready(Err(e)) => {
                        ev!("poll_pending -> failed key {}", e.0);
                        check!(err == Some(e.0), "wrong-failure", "poll_pending reported key {} failed, expected {err:?}", e.0);
                        check!(sim_err(&e.1).map_or(false, |x| x.kind == "ready-err"), "wrong-failure", "failure of key {} reported as {}", e.0, e.1);
                        waiting = false;
                    }
                    _ => {
                        ev!("poll_pending -> {}", if r.is_ready() { "none pending" } else { "pending" });
                        check!(err.is_none(), "failure-lost", "key {err:?} failed but poll_pending did not report it");
                        check!(
                            r.is_ready() == pending.is_empty() || slot.woken(),
                            "wrong-result",
                            "poll_pending ready={} with pending keys {pending:?}",
                            r.is_ready()
                        );
                        if !slot.woken() {
                            // everything evicted must be gone by now
                            let l = lock(&log);
                            for z in &zombies {
                                check!(!l.alive.contains(z), "not-dropped", "svc#{z} was evicted or replaced but still exists after poll_pending");
                            }
                        }
                        waiting = r.is_pending();
                    }
                }
                let l = lock(&log);
                zombies.retain(|z| l.alive.contains(z));
                watched = pending.values().cloned().collect();
                gone_since = false;
                watched_check = None;
            }
            3 | 4 => {
                let by_index = chance(50);
                let n0 = lock(&log).polls.len();
                let s2 = WakeSlot::new(true);
                let w = s2.next();
                let mut cx = Context::from_waker(&w);
                let (k, r) = if by_index {
                    let i = choose(cache.ready_len() as u32 + 1) as usize;
                    let k = cache.get_ready_index(i).map(|(k, _)| *k);
                    (k, cache.check_ready_index(&mut cx, i))
                } else {
                    (Some(key), cache.check_ready(&mut cx, &key))
                };
                let polls: Vec<_> = lock(&log).polls[n0..].to_vec();
                ev!("check_ready key {k:?} -> {:?}", r.as_ref().map_err(|e| e.0));
                let target = k.and_then(|k| ready.get(&k).cloned());
                match (target, k) {
                    (Some(inst), Some(k)) => {
                        let res = polls.iter().rev().find(|p| p.1 == inst).map(|p| p.2);
                        match (&r, res) {
                            (Ok(true), Some(1)) => {}
                            (Ok(false), Some(0)) => {
                                ready.remove(&k);
                                if pending.contains_key(&k) {
                                    may_drop.insert(inst);
                                } else {
                                    pending.insert(k, inst);
                                    watched_check = Some((s2, inst));
                                }
                            }
                            (Err(e), Some(2)) => {
                                check!(e.0 == k, "wrong-failure", "check_ready of {k} reported key {}", e.0);
                                ready.remove(&k);
                                may_drop.insert(inst);
                                failed += 1;
                            }
                            (r, p) => violate("wrong-result", format!("check_ready({k}) returned {:?} but the service answered {p:?}", r.as_ref().map_err(|e| e.0))),
                        }
                    }
                    _ => check!(matches!(r, Ok(false)), "wrong-result", "check_ready of a key that is not ready returned {:?}", r.as_ref().map_err(|e| e.0)),
                }
            }
            5 => {
                if ready.is_empty() {
                    if chance(60) {
                        open_random_gate();
                    }
                } else {
                    let keys: Vec<u32> = ready.keys().cloned().collect();
                    let k = pick(&keys);
                    let inst = ready[&k];
                    let req = fresh_id();
                    let n0 = lock(&log).calls.len();
                    ev!("call key {k}");
                    let f = if chance(50) {
                        cache.call_ready(&k, Req::new(req))
                    } else {
                        let i = cache.get_ready(&k).map_or(0, |x| x.0);
                        cache.call_ready_index(i, Req::new(req))
                    };
                    futs.push(f);
                    let calls: Vec<_> = lock(&log).calls[n0..].to_vec();
                    check!(calls == [(inst, req)], "wrong-service", "req#{req} for key {k} (svc#{inst}) went to {calls:?}");
                    ready.remove(&k);
                    if pending.contains_key(&k) {
                        may_drop.insert(inst);
                    } else {
                        pending.insert(k, inst);
                    }
                    served += 1;
                }
            }
            _ => {
                open_random_gate();
                futs.clear();
            }
        }
        if violated() {
            return;
        }
        // ---- contents
        let got: BTreeMap<u32, u64> = cache.iter_ready().map(|(k, s)| (*k, s.svc.inst)).collect();
        check!(got == ready, "wrong-ready-set", "the ready set is {got:?}, expected {ready:?}");
        check!(cache.ready_len() == ready.len(), "wrong-ready-set", "ready_len {} expected {}", cache.ready_len(), ready.len());
        for k in 0..nkeys {
            check!(cache.pending_contains(&k) == pending.contains_key(&k), "wrong-pending-set", "pending_contains({k}) is {}, expected {:?}", cache.pending_contains(&k), pending.get(&k));
            check!(cache.get_ready(&k).map(|x| x.2.svc.inst) == ready.get(&k).cloned(), "wrong-ready-set", "get_ready({k})");
        }
        for (i, (k, s)) in cache.iter_ready().enumerate() {
            let x = cache.get_ready_index(i).map(|(k, s)| (*k, s.svc.inst));
            check!(x == Some((*k, s.svc.inst)), "wrong-ready-set", "get_ready_index({i}) is {x:?}");
            check!(cache.get_ready(k).map(|x| x.0) == Some(i), "wrong-ready-set", "index of key {k}");
        }
        // the same through the accessors that lend the services mutably
        if !big || chance(10) {
            let m: BTreeMap<u32, u64> = cache.iter_ready_mut().map(|(k, s)| (*k, s.svc.inst)).collect();
            check!(m == ready, "wrong-ready-set", "iter_ready_mut is {m:?}, expected {ready:?}");
            for i in 0..ready.len() + 1 {
                let x = cache.get_ready_index(i).map(|(k, s)| (*k, s.svc.inst));
                let y = cache.get_ready_index_mut(i).map(|(k, s)| (*k, s.svc.inst));
                check!(x == y, "wrong-ready-set", "get_ready_index_mut({i}) is {y:?}, get_ready_index {x:?}");
            }
            for k in 0..nkeys {
                let x = cache.get_ready(&k).map(|(i, k, s)| (i, *k, s.svc.inst));
                let y = cache.get_ready_mut(&k).map(|(i, k, s)| (i, *k, s.svc.inst));
                check!(x == y, "wrong-ready-set", "get_ready_mut({k}) is {y:?}, get_ready {x:?}");
            }
        }
        let p = cache.pending_len();
        check!(
            p >= pending.len() && p <= pending.len() + zombies.len(),
            "wrong-pending-set",
            "pending_len {p} with {} pending and {} evicted services",
            pending.len(),
            zombies.len()
        );
        check!(cache.len() == p + ready.len() && cache.is_empty() == (p + ready.len() == 0), "wrong-len", "len {} is_empty {}", cache.len(), cache.is_empty());
        // ---- lifetime
        let alive = lock(&log).alive.clone();
        for d in alive0.difference(&alive) {
            check!(may_drop.contains(d), "dropped-live-service", "svc#{d} was dropped although it was neither evicted, replaced nor failed");
        }
        for m in ready.values().chain(pending.values()) {
            check!(alive.contains(m), "dropped-live-service", "svc#{m} should still be in the cache");
        }
        for a in &alive {
            check!(
                zombies.contains(a) || ready.values().any(|r| r == a) || pending.values().any(|r| r == a),
                "not-dropped",
                "svc#{a} is no longer part of the cache but still exists"
            );
        }
        // ---- wake-ups
        if waiting && !slot.woken() {
            let l = lock(&log);
            check!(!gone_since, "not-woken", "a pending service was evicted or replaced but the task waiting in poll_pending was not woken");
            for i in &watched {
                if let (Some(g), true) = (l.gate.get(i), pending.values().any(|x| x == i)) {
                    let open = ctx().lock().gates[*g].open;
                    check!(!open, "not-woken", "svc#{i} can make progress but the task waiting in poll_pending was not woken");
                }
            }
        }
        if let Some((s, i)) = &watched_check {
            let l = lock(&log);
            if let Some(g) = l.gate.get(i) {
                let open = ctx().lock().gates[*g].open;
                check!(
                    !open || s.woken() || !pending.values().any(|x| x == i),
                    "not-woken",
                    "svc#{i} became unready in check_ready; it can make progress but the task was not woken"
                );
            }
        }
    }
    drop(cache);
    if !violated() {
        check!(live("svc") == 0, "leak", "{} services outlive the cache", live("svc"));
    }
    if evicted > 0 && served > 0 {
        nontrivial();
    }
    count_n("probe.evicted", evicted);
    count_n("probe.served", served);
    count_n("probe.failed", failed);
}

pub fn props() -> Vec<Prop> {
    let real = "tower::ready_cache, futures FuturesUnordered";
    let stub = "cached services and the task that owns the cache";
    vec![
        Prop { id: "C01", quick: 200_000, scns: vec![Scn { name: "ready-cache", weight: 1, run: cache }], rule: "an eviction and a call happened", real, stub },
        Prop { id: "C02", quick: 200_000, scns: vec![Scn { name: "ready-cache", weight: 1, run: cache }], rule: "an eviction and a call happened", real, stub },
    ]
}
