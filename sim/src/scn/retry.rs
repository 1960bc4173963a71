//! R01 R02 R04: Retry, its budget and its backoff.

use crate::client::*;
use crate::core::*;
use crate::exec::*;
use crate::runner::{Prop, Scn};
use crate::svc::*;
use crate::{check, ev};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tower::retry::backoff::{Backoff, ExponentialBackoffMaker, MakeBackoff};
use tower::retry::budget::{Budget, TpsBudget};
use tower::retry::{Policy, Retry};
use tower::util::rng::{HasherRng, Rng as TowerRng};

// ---------------------------------------------------------------- R01

#[derive(Clone, Debug)]
enum PEv {
    /// clone_request saw these tags; returned these
    Clone { seen: Vec<u16>, ret: Option<Vec<u16>> },
    /// retry() saw the outcome of this attempt
    Consult { nth: u32, call: u64, ok: bool, seen: Vec<u16>, retry: bool, leave: Vec<u16>, rewritten: Option<bool> },
    WaitDone,
}
#[derive(Default)]
struct PLog {
    evs: Vec<(u64, u64, u64, PEv)>, // (tick, req, policy instance, event)
}
#[derive(Clone, Copy)]
struct PCfg {
    retry: u32,
    retry_ok: u32,
    clone: u32,
    modify: u32,
    rewrite: u32,
    cap: u32,
    wait: GateMode,
}
struct Pol {
    inst: u64,
    /// number of consultations this instance (or what it was cloned from) has seen
    seen: u32,
    cfg: PCfg,
    log: Arc<Mutex<PLog>>,
    _t: Token,
}
impl Clone for Pol {
    fn clone(&self) -> Self {
        Pol { inst: fresh_id(), seen: self.seen, cfg: self.cfg, log: self.log.clone(), _t: self._t.clone() }
    }
}
struct PWait {
    g: Gate,
    req: u64,
    inst: u64,
    log: Arc<Mutex<PLog>>,
    done: bool,
}
impl Future for PWait {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        check!(!self.done, "future-polled-after-completion", "the policy's future was polled again after completing");
        match self.g.poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(_) => {
                self.done = true;
                lock(&self.log).evs.push((tick(), self.req, self.inst, PEv::WaitDone));
                Poll::Ready(())
            }
        }
    }
}
impl Policy<Req, Resp, SimErr> for Pol {
    type Future = PWait;
    fn retry(&mut self, req: &mut Req, result: &mut Result<Resp, SimErr>) -> Option<PWait> {
        let nth = self.seen;
        self.seen += 1;
        let (call, ok) = match &*result {
            Ok(r) => (r.call, true),
            Err(e) => (e.id, false),
        };
        let seen = req.tags.clone();
        let want = self.seen <= self.cfg.cap && chance(if ok { self.cfg.retry_ok } else { self.cfg.retry });
        if chance(self.cfg.modify) {
            req.tags.push(2);
        }
        let mut rewritten = None;
        if chance(self.cfg.rewrite) {
            // turns a success into a failure and the other way round
            rewritten = Some(!ok);
            *result = if ok { Err(SimErr { kind: "rewritten", id: call }) } else { Ok(Resp::new(req.id, call, 0).tag(77)) };
        }
        ev!("policy#{} consulted (#{nth}) for req#{} call#{call} ok={ok}: retry={want} rewrite={rewritten:?}", self.inst, req.id);
        lock(&self.log).evs.push((
            tick(),
            req.id,
            self.inst,
            PEv::Consult { nth, call, ok, seen, retry: want, leave: req.tags.clone(), rewritten },
        ));
        want.then(|| PWait { g: Gate::new("policy", self.cfg.wait, 0), req: req.id, inst: self.inst, log: self.log.clone(), done: false })
    }
    fn clone_request(&mut self, req: &Req) -> Option<Req> {
        let ret = chance(self.cfg.clone).then(|| req.clone().tag(1));
        ev!("policy#{} clone_request({:?}) -> {:?}", self.inst, req, ret.as_ref().map(|r| &r.tags));
        lock(&self.log).evs.push((
            tick(),
            req.id,
            self.inst,
            PEv::Clone { seen: req.tags.clone(), ret: ret.as_ref().map(|r| r.tags.clone()) },
        ));
        ret
    }
}

fn r01(sim: &mut Sim) {
    let mut cfg = SvcCfg::random(true);
    cfg.resp_err = pick(&[30, 60, 95]);
    cfg.ready_err = pick(&[0, 0, 0, 4]);
    let leaf = shared("inner", cfg);
    let long = big();
    let pc = PCfg {
        retry: if long { 100 } else { pick(&[90, 60]) },
        retry_ok: pick(&[0, 30]),
        clone: pick(&[100, 90, 50]),
        modify: pick(&[0, 40]),
        rewrite: pick(&[0, 30]),
        cap: if long { 5 + choose(300) } else { 1 + choose(4) },
        wait: GateMode { now: pick(&[0, 50, 100]), hang: pick(&[0, 10]), latency: if chance(30) { Some((0, 20)) } else { None } },
    };
    let log: Arc<Mutex<PLog>> = Default::default();
    let pol = Pol { inst: fresh_id(), seen: 0, cfg: pc, log: log.clone(), _t: Token::new("policy") };
    let h = hist();
    let cc = CliCfg::random();
    let n = 1 + choose(3);
    if chance(50) {
        super::single::run_clients(sim, Retry::new(pol, SimSvc::new(&leaf)), &h, cc, n, 6);
    } else {
        let s = tower::ServiceBuilder::new().retry(pol).service(SimSvc::new(&leaf));
        super::single::run_clients(sim, s, &h, cc, n, 6);
    }
    if violated() {
        return;
    }
    // ---- reference interpreter of the policy's answers
    let l = lock(&leaf.leaf);
    let hh = lock(&h);
    let lg = lock(&log);
    let mut retried = 0;
    for r in &hh.recs {
        #[derive(Debug)]
        enum E<'a> {
            Dispatch(&'a LeafCall),
            Finish(&'a LeafCall),
            Cancel(&'a LeafCall),
            P(u64, &'a PEv),
            Out,
        }
        let mut evs: Vec<(u64, E)> = vec![];
        for c in l.calls.iter().filter(|c| c.req == r.req) {
            evs.push((c.tick, E::Dispatch(c)));
            match c.end {
                Some(true) => evs.push((c.end_tick, E::Finish(c))),
                Some(false) => evs.push((c.end_tick, E::Cancel(c))),
                None => {}
            }
        }
        for (t, _, i, e) in lg.evs.iter().filter(|e| e.1 == r.req) {
            evs.push((*t, E::P(*i, e)));
        }
        if r.out.is_some() {
            evs.push((r.tick_out, E::Out));
        }
        evs.sort_by_key(|e| e.0);
        #[derive(Debug, PartialEq, Clone)]
        enum S {
            Start,
            Cloned,
            Called(u64),
            Finished(u64, bool),
            Waiting,
            Retrying,
            /// the outcome to be returned: (call, ok, rewritten)
            Return(u64, bool, bool),
            Gone,
        }
        let mut st = S::Start;
        let mut cur: Vec<u16> = vec![]; // tags of the request to be dispatched next
        let mut kept: Option<Vec<u16>> = None; // clone kept for a retry
        let mut consults = 0;
        let mut inst = None;
        for (t, e) in &evs {
            let bad = |what: &str| violate("policy-not-followed", format!("req#{}: {what} in state {st:?} at tick {t}", r.req));
            match e {
                E::P(_, PEv::Clone { seen, ret }) => {
                    if st != S::Start && st != S::Retrying {
                        bad("the request was cloned");
                    }
                    check!(*seen == cur, "wrong-request", "req#{}: clone_request saw {seen:?}, expected {cur:?}", r.req);
                    kept = ret.clone();
                    st = S::Cloned;
                }
                E::Dispatch(c) => {
                    if st != S::Cloned {
                        bad(&format!("call#{} was dispatched", c.call));
                    }
                    check!(c.tags == cur, "wrong-request", "req#{}: attempt call#{} carried {:?}, expected {cur:?}", r.req, c.call, c.tags);
                    st = S::Called(c.call);
                }
                E::Finish(c) => {
                    if st != S::Called(c.call) {
                        bad(&format!("call#{} finished", c.call));
                    }
                    st = if kept.is_some() { S::Finished(c.call, c.ok) } else { S::Return(c.call, c.ok, false) };
                }
                E::Cancel(_) => {
                    st = S::Gone;
                }
                E::P(i, PEv::Consult { nth, call, ok, seen, retry, leave, rewritten }) => {
                    if st != S::Finished(*call, *ok) {
                        bad(&format!("the policy was consulted about call#{call} ok={ok}"));
                    }
                    check!(*nth == consults, "stale-policy", "req#{}: consultation {consults} was answered by a policy that has seen {nth} outcomes", r.req);
                    check!(inst.unwrap_or(*i) == *i, "stale-policy", "req#{}: several policy instances were consulted", r.req);
                    inst = Some(*i);
                    consults += 1;
                    check!(Some(seen) == kept.as_ref(), "wrong-request", "req#{}: the policy saw {seen:?}, expected {kept:?}", r.req);
                    kept = Some(leave.clone());
                    st = if *retry {
                        retried += 1;
                        S::Waiting
                    } else {
                        S::Return(*call, rewritten.unwrap_or(*ok), rewritten.is_some())
                    };
                }
                E::P(_, PEv::WaitDone) => {
                    if st != S::Waiting {
                        bad("the policy's future finished");
                    }
                    cur = kept.take().unwrap_or_default();
                    st = S::Retrying;
                }
                E::Out => {
                    match (&st, r.out.as_ref().unwrap()) {
                        (_, Out::Dropped) => {}
                        (S::Return(call, ok, rw), o) => {
                            let fine = match o {
                                Out::Ok { req, call: c, tags, .. } => *ok && req == &r.req && c == call && *rw == tags.contains(&77),
                                Out::Err(ErrK::Sim(e)) => !*ok && e.id == *call && (e.kind == "rewritten") == *rw,
                                _ => false,
                            };
                            check!(fine, "wrong-outcome", "req#{} ended with {o:?}, expected the outcome of call#{call} (ok={ok}, rewritten={rw})", r.req);
                        }
                        (S::Retrying, Out::Err(ErrK::Sim(e))) if e.kind == "ready-err" => {}
                        (_, o) => bad(&format!("the caller got {o:?}")),
                    }
                    st = S::Gone;
                }
            }
            if violated() {
                return;
            }
        }
        if let Some(i) = inst {
            check!(
                !lg.evs.iter().any(|e| e.2 == i && e.1 != r.req),
                "stale-policy",
                "policy#{i} that decided about req#{} was also used for another request",
                r.req
            );
        }
    }
    if retried > 0 {
        nontrivial();
    }
    count_n("probe.retries", retried);
    drop((l, hh, lg));
    check!(live("policy") == 0 && live("req") == 0 && live("fut") == 0, "leak", "policies {} requests {} futures {} still alive", live("policy"), live("req"), live("fut"));
}

// ---------------------------------------------------------------- R02

fn r02(sim: &mut Sim) {
    let ttl_ms: u64 = pick(&[1000, 10_000, 1000, 2000, 5000, 60_000, 1500]);
    let mps: u32 = pick(&[0, 1, 0, 2, 10]);
    let pct: f32 = pick(&[0.5, 1.0, 0.1, 0.2, 0.25, 0.3, 0.6, 0.9, 0.05, 0.0, 1.5, 2.0, 3.0, 10.0, 100.0, 700.0, 1000.0]);
    let (mut ttl_ms, mut mps, mut pct) = (ttl_ms, mps, pct);
    if chance(30) {
        ttl_ms = 1000 + range(0, 59_000);
    }
    if chance(10) {
        mps = pick(&[3, 100, 1_000_000]);
    }
    if chance(30) {
        pct = match choose(3) {
            0 => range_free(1, 1000) as f32 / 1000.0,
            1 => range_free(1000, 20_000) as f32 / 1000.0,
            _ => range_free(1, 10_000) as f32 / 10.0,
        };
    }
    let default = chance(5);
    let b = if default {
        // as documented: 10 retries per second and 20 % within 10 seconds
        (ttl_ms, mps, pct) = (10_000, 10, 0.2);
        TpsBudget::default()
    } else {
        TpsBudget::new(Duration::from_millis(ttl_ms), mps, pct)
    };
    ev!("TpsBudget ttl={ttl_ms}ms min_per_sec={mps} retry_percent={pct}");
    // every retry costs 1; a deposit is worth pct
    let secs = ttl_ms as f64 / 1000.0;
    let res_hi = mps as f64 * secs;
    let res_lo = mps as f64 * secs.floor();
    let p = pct as f64;
    // percentages whose inverse is integral, or which are integral, are exact
    let round = [0.05f32, 0.1, 0.2, 0.25, 0.5, 1.0, 2.0, 10.0, 100.0, 1000.0].contains(&pct);
    let (p_lo, p_hi) = if round {
        let p = (p * 1000.0).round() / 1000.0;
        (p, p)
    } else {
        (p * 0.998, p * 1.002)
    };
    let w = ttl_ms / 10;
    let mut dep: Vec<(u64, u64)> = vec![]; // (time, how many)
    let mut wd: Vec<(u64, u64)> = vec![];
    let (mut granted, mut refused) = (0u64, 0u64);
    let mut many = false;
    let balance = |dep: &Vec<(u64, u64)>, wd: &Vec<(u64, u64)>| -> (f64, f64) {
        let t = now();
        // counts surely / possibly
        let sure = |v: &Vec<(u64, u64)>| v.iter().filter(|x| (t - x.0) * 100 <= ttl_ms * 99).map(|x| x.1).sum::<u64>() as f64;
        let maybe = |v: &Vec<(u64, u64)>| v.iter().filter(|x| (t - x.0) * 100 < ttl_ms * 111).map(|x| x.1).sum::<u64>() as f64;
        (sure(dep) * p_lo + res_lo - maybe(wd), maybe(dep) * p_hi + res_hi - sure(wd))
    };
    let step = pick(&[0u64, 0, 1, 2, 3]);
    for _ in 0..range_free(10, 120) {
        if violated() {
            return;
        }
        match weighted(&[10, 10, 12]) {
            0 => {
                let n = match choose(4) {
                    0 => 1,
                    1 => 1 + choose(5) as u64,
                    2 => 1 + choose(30) as u64,
                    // enough for errors that add up to show
                    _ if chance(8) => (range_free(800, 1600) as f64 / p.clamp(0.05, 10.0)).ceil() as u64,
                    _ => (1.0 / p.max(0.05)).ceil() as u64,
                };
                for _ in 0..n {
                    b.deposit();
                }
                many |= n > 60;
                ev!("{n} deposits");
                dep.push((now(), n));
            }
            1 => {
                let n = 1 + choose(6) as u64;
                let n = if chance(20) { 200 } else { n };
                let n = if many && chance(50) { 2500 } else { n };
                many &= n < 2500;
                for _ in 0..n {
                    let (lo, hi) = balance(&dep, &wd);
                    let ok = b.withdraw();
                    ev!("withdraw -> {ok} (balance between {lo:.3} and {hi:.3})");
                    if ok {
                        check!(hi >= 1.0 - 1e-6, "overdraft", "a retry was granted although the balance is at most {hi:.3} (ttl {ttl_ms}ms, {mps}/s, {pct}, deposits {dep:?}, withdrawals {wd:?}, now {})", now());
                        match wd.last_mut() {
                            Some(l) if l.0 == now() => l.1 += 1,
                            _ => wd.push((now(), 1)),
                        }
                        granted += 1;
                    } else {
                        check!(lo < 1.0 + 1e-6, "refused-although-covered", "a retry was refused although the balance is at least {lo:.3} (ttl {ttl_ms}ms, {mps}/s, {pct}, deposits {dep:?}, withdrawals {wd:?}, now {})", now());
                        refused += 1;
                        break;
                    }
                    if violated() {
                        return;
                    }
                }
            }
            _ => {
                let ms = match if step > 0 { 3 + step as u32 } else { choose(5) } {
                    0 => 1 + choose(w as u32) as u64,
                    1 => w * (1 + choose(3) as u64) + choose(3) as u64 - 1,
                    2 => ttl_ms,
                    3 => w * choose(14) as u64 + choose(w as u32) as u64,
                    4 => w + 1,
                    5 => w - 1,
                    _ => w + w / 2,
                };
                sim.advance(ms.max(1));
            }
        }
    }
    count_n("probe.granted", granted);
    count_n("probe.refused", refused);
    if granted > 0 && refused > 0 {
        nontrivial();
    }
}

// ---------------------------------------------------------------- R04

#[derive(Clone)]
struct SimRng {
    draws: Arc<Mutex<Vec<u64>>>,
}
impl TowerRng for SimRng {
    fn next_u64(&mut self) -> u64 {
        let v = match choose(6) {
            0 => (choose(1 << 16) as u64) << 48 | choose(1 << 16) as u64,
            1 => 0,
            2 => u64::MAX,
            3 => 1 << 63,
            4 => choose(4) as u64,
            _ => u64::MAX - choose(5000) as u64,
        };
        lock(&self.draws).push(v);
        v
    }
}

/// Hashers behind a `HasherRng`: one hands out hostile values, the other one
/// mixes what it is given.
#[derive(Clone)]
enum SimHash {
    Hostile(SimRng),
    Mix(u64),
}
struct SimHasher(SimHash, u64);
impl std::hash::BuildHasher for SimHash {
    type Hasher = SimHasher;
    fn build_hasher(&self) -> SimHasher {
        SimHasher(self.clone(), 0)
    }
}
impl std::hash::Hasher for SimHasher {
    fn finish(&self) -> u64 {
        match &self.0 {
            SimHash::Hostile(r) => r.clone().next_u64(),
            SimHash::Mix(seed) => Rng::new(self.1 ^ seed).next(),
        }
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.1 = Rng::new(self.1.rotate_left(8) ^ *x as u64).next();
        }
    }
}
/// The random source of a balancer or backoff, as tower provides it.
pub fn hasher_rng(seed: u64) -> impl TowerRng + Clone {
    HasherRng::with_hasher(SimHash::Mix(seed))
}

fn r04(sim: &mut Sim) {
    let draws: Arc<Mutex<Vec<u64>>> = Default::default();
    let rng = SimRng { draws: draws.clone() };
    if chance(30) {
        backoffs(sim, draws, HasherRng::with_hasher(SimHash::Hostile(rng)));
    } else {
        backoffs(sim, draws, rng);
    }
}

/// The jitter of a backoff is uniform.
fn jitter(_sim: &mut Sim) {
    let jitter: f64 = pick(&[1.0, 0.5, 0.1, 5.0]);
    let min = Duration::from_micros(1 + choose(5_000_000) as u64);
    let mut bins = vec![0u64; 16];
    let mut total = 0;
    for _ in 0..40 {
        let seed = ((choose(1 << 30) as u64) << 32) | choose(1 << 30) as u64;
        let mut m = ExponentialBackoffMaker::new(min, Duration::from_secs(1 << 40), jitter, hasher_rng(seed)).unwrap();
        let mut b = m.make_backoff();
        for i in 0..24 {
            let t0 = tokio::time::Instant::now();
            let d = (b.next_backoff().deadline() - t0).as_nanos() as f64;
            let base = min.as_nanos() as f64 * (1u64 << i) as f64;
            let f = (d / base - 1.0) / jitter;
            check!(f > -0.01 && f < 1.01, "too-much-jitter", "backoff {i} waits {d} ns: base {base} ns, jitter {jitter}");
            bins[((f * 16.0).max(0.0) as usize).min(15)] += 1;
            total += 1;
        }
    }
    let e = total as f64 / 16.0;
    let chi: f64 = bins.iter().map(|o| (*o as f64 - e) * (*o as f64 - e) / e).sum();
    ev!("jitter bins {bins:?} chi2 {chi:.1}");
    check!(chi < 160.0, "jitter-not-uniform", "{total} jitters fall into the bins {bins:?} (chi2 {chi:.1}, 15 degrees of freedom)");
    nontrivial();
}

/// What is not a legal configuration is refused, and the defaults are legal.
fn configs() {
    let d = Duration::from_millis;
    let (lo, hi) = (1 + choose(1000) as u64, 1 + choose(1000) as u64);
    let (a, b, j) = match choose(6) {
        0 => (d(lo + hi), d(hi), 0.5),
        1 => (d(0), d(0), 0.5),
        2 => (d(lo), d(lo + hi), -0.001 * lo as f64),
        3 => (d(lo), d(lo + hi), 100.0 + 0.001 * lo as f64),
        4 => (d(lo), d(lo + hi), f64::NAN),
        _ => (d(lo), d(lo + hi), f64::INFINITY),
    };
    let r = SimRng { draws: Default::default() };
    check!(ExponentialBackoffMaker::new(a, b, j, r).is_err(), "illegal-config-accepted", "min {a:?} max {b:?} jitter {j} is accepted");
    // (the delays of the default are random; their bounds are not)
    let mut bo = ExponentialBackoffMaker::default().make_backoff();
    for i in 0..12 {
        let t0 = tokio::time::Instant::now();
        let ns = (bo.next_backoff().deadline() - t0).as_nanos();
        let base = 50_000_000u128 << i;
        check!(ns >= base && ns <= base * 2, "out-of-bounds", "default backoff {i} is not between {base} ns and twice that");
    }
}

fn backoffs<R: TowerRng + Clone>(sim: &mut Sim, draws: Arc<Mutex<Vec<u64>>>, rng: R) {
    if chance(2) {
        configs();
        if violated() {
            return;
        }
    }
    let durs: [u128; 14] = [
        1_000_000,
        0,
        50_000_000,
        1,
        1_000_000_000,
        1_500_000_000,
        999_999_999,
        4_294_967_295,
        10_000_000_000,
        3_000_000_001,
        60_000_000_000,
        u64::MAX as u128,
        u64::MAX as u128 * 1_000_000,
        u64::MAX as u128 * 1_000_000_000 + 999_999_999,
    ];
    let mk = |n: u128| Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32);
    let (mut a, mut b) = (pick(&durs[..12]), pick(&durs));
    if chance(50) {
        a = range(0, 3_000) as u128 * 1_000_003;
        b = a + range(0, 1_000_000) as u128 * 1_000_000;
    }
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    if b == 0 {
        return;
    }
    let jitter: f64 = pick(&[0.0, 0.5, 0.99, 1.0, 2.0, 0.001, 10.0, 100.0, 0.1]);
    let (min, max) = (mk(a), mk(b));
    ev!("backoff min={min:?} max={max:?} jitter={jitter}");
    let mut maker = match ExponentialBackoffMaker::new(min, max, jitter, rng) {
        Ok(m) => m,
        Err(e) => {
            violate("legal-config-rejected", format!("{e}"));
            return;
        }
    };
    let mut cur = None;
    for _ in 0..1 + choose(3) {
        let mut bo = match (&cur, chance(30)) {
            (Some(b), true) => {
                ev!("new session from a clone");
                Clone::clone(b)
            }
            _ => {
                ev!("new session from the maker");
                maker.make_backoff()
            }
        };
        let n = range_free(1, 12) + if chance(10) { 30 } else { 0 };
        for i in 0..n as u32 {
            lock(&draws).clear();
            let t0 = tokio::time::Instant::now();
            let mut fut = Box::pin(bo.next_backoff());
            let dl = fut.deadline();
            // reference, in nanoseconds
            let pow = |k: u32| a.saturating_mul(1u128.checked_shl(k.min(100)).unwrap_or(u128::MAX)).min(b);
            // beyond 2^32 the exponent may saturate
            let base_hi = pow(i);
            let base_lo = if i < 32 { base_hi } else { a.saturating_mul(u32::MAX as u128).min(b) };
            let d = dl - t0;
            let dn = d.as_nanos();
            let far = b > 600_000_000_000_000_000; // clamped by the timer itself
            let ds = lock(&draws).clone();
            ev!("backoff {i}: {d:?} with draws {ds:?}");
            check!(dn >= base_lo || far, "below-base", "backoff {i} waits {d:?}, less than its base of {base_lo} ns (min={min:?} max={max:?})");
            check!(dn <= b, "above-max", "backoff {i} waits {d:?}, more than max={max:?}");
            let top = base_hi as f64 * (1.0 + jitter);
            check!(dn as f64 <= top * (1.0 + 1e-9) + 2.0, "too-much-jitter", "backoff {i} waits {d:?}: base {base_hi} ns, jitter {jitter}");
            if jitter == 0.0 {
                check!(dn <= base_hi, "too-much-jitter", "backoff {i} waits {d:?} although the jitter is zero");
            } else if ds.len() == 1 && i < 32 && !far {
                let f = (ds[0] >> 11) as f64 / (1u64 << 53) as f64;
                let want = (base_hi as f64 + f * jitter * base_hi as f64).min(b as f64);
                let err = (dn as f64 - want).abs();
                check!(
                    err <= 2.0 + want * 1e-9,
                    "jitter-not-uniform",
                    "backoff {i} waits {d:?} ({dn} ns); base {base_hi} ns, jitter {jitter}, random factor {f} give {want} ns"
                );
            }
            if violated() {
                return;
            }
            if dn <= 2_000_000_000_000 && chance(40) {
                // completes exactly when the time has passed
                let slot = WakeSlot::new(true);
                let wk = slot.next();
                let mut cx = Context::from_waker(&wk);
                let ms = (dn / 1_000_000) as u64;
                let p = fut.as_mut().poll(&mut cx).is_ready();
                check!(!p || dn < 1_000_000, "early", "the backoff future is done at once");
                if !p {
                    if ms > 1 {
                        sim.advance(ms - 1);
                        check!(!slot.woken(), "early", "woken {} ms into a backoff of {d:?}", ms - 1);
                        check!(fut.as_mut().poll(&mut cx).is_pending(), "early", "done {} ms into a backoff of {d:?}", ms - 1);
                        sim.advance(3);
                    } else {
                        sim.advance(ms + 2);
                    }
                    check!(slot.woken(), "not-woken", "not woken after a backoff of {d:?}");
                    check!(fut.as_mut().poll(&mut cx).is_ready(), "late", "not done after a backoff of {d:?}");
                    count("probe.completed");
                }
            } else if chance(30) {
                sim.advance(1 + choose(1000) as u64);
            }
        }
        cur = Some(bo);
    }
    nontrivial();
}

pub fn props() -> Vec<Prop> {
    let stub = "policy, inner service, callers, executor and clock";
    vec![
        Prop { id: "R01", quick: 250_000, scns: vec![Scn { name: "retry", weight: 1, run: r01 }], rule: "at least one retry happened", real: "tower::retry (service, future, layer)", stub },
        Prop { id: "R02", quick: 150_000, scns: vec![Scn { name: "budget", weight: 1, run: r02 }], rule: "at least one retry was granted and one refused", real: "tower::retry::budget::TpsBudget, tokio paused clock", stub: "callers and clock" },
        Prop { id: "R04", quick: 250_000, scns: vec![Scn { name: "backoff", weight: 999, run: r04 }, Scn { name: "jitter", weight: 1, run: jitter }], rule: "every run", real: "tower::retry::backoff, HasherRng (over a simulated hasher), tokio Sleep under a paused clock", stub: "random source and clock" },
    ]
}
