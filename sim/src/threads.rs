//! Simulated threads: real OS threads of which exactly one runs at a time. At
//! every switch point (hooked mutexes and atomics of tower, and explicit ones
//! of the harness) the scheduler draws which thread goes on.

use crate::core::*;
use crate::ev;
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Condvar, Mutex};

struct St {
    turn: usize,
    alive: Vec<bool>,
    blocked: Vec<bool>,
    abort: bool,
    switches: u64,
}
struct Baton {
    m: Mutex<St>,
    /// one per thread, and one for whoever started them
    cv: Vec<Condvar>,
    /// percentage of the switch points at which time goes on
    moving: u32,
}
thread_local! {
    static ME: RefCell<Option<(Arc<Baton>, usize)>> = const { RefCell::new(None) };
}

fn abort() -> ! {
    resume_unwind(Box::new(format!("{} aborted", INJECTED)));
}

impl Baton {
    fn st(&self) -> std::sync::MutexGuard<'_, St> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// Picks the thread that runs next; `me` is preferred by choice 0.
    fn next(&self, me: Option<usize>) {
        let mut g = self.st();
        let mut cand: Vec<usize> = (0..g.alive.len()).filter(|i| g.alive[*i] && !g.blocked[*i]).collect();
        if cand.is_empty() {
            if g.alive.iter().any(|a| *a) {
                g.abort = true;
                drop(g);
                violate("deadlock", "every thread waits for a lock");
                self.release();
            } else {
                drop(g);
                self.cv.last().unwrap().notify_all();
            }
            return;
        }
        if let Some(m) = me {
            if let Some(p) = cand.iter().position(|x| *x == m) {
                cand.swap(0, p);
            }
        }
        g.switches += 1;
        if g.switches > 20_000 {
            g.abort = true;
            drop(g);
            violate("livelock", "threads switch without end");
            self.release();
            return;
        }
        drop(g);
        let n = pick(&cand);
        if Some(n) == me {
            return;
        }
        ev!("thread {n} runs");
        count("sim.thread_switch");
        self.st().turn = n;
        self.cv[n].notify_one();
    }
    fn release(&self) {
        self.cv.iter().for_each(|c| c.notify_all());
    }
    fn wait(&self, me: usize) {
        let mut g = self.st();
        while g.turn != me && !g.abort {
            g = self.cv[me].wait(g).unwrap_or_else(|e| e.into_inner());
        }
        if g.abort {
            drop(g);
            abort();
        }
    }
}

/// A point at which another thread may run.
pub fn switch(blocked: bool) {
    let me = ME.try_with(|x| x.try_borrow().ok().and_then(|m| m.clone())).ok().flatten();
    let Some((b, me)) = me else {
        if blocked {
            // cannot happen with a single thread, unless it locks twice
            violate("deadlock", "a thread waits for a lock it holds itself");
            abort();
        }
        return;
    };
    if std::thread::panicking() {
        return;
    }
    {
        let mut g = b.st();
        if g.abort {
            drop(g);
            abort();
        }
        if blocked {
            g.blocked[me] = true;
        } else {
            // something may have been released
            g.blocked.iter_mut().for_each(|x| *x = false);
        }
    }
    if b.moving > 0 && chance(b.moving) {
        let ns = pick(&[1u64, 1_000, 1_000_000, 30_000_000, 1_000_000_000]);
        ev!("time +{ns}ns");
        count("sim.time_between_steps");
        let mut f = Box::pin(tokio::time::advance(std::time::Duration::from_nanos(ns)));
        let w = futures_util::task::noop_waker();
        let _ = std::future::Future::poll(f.as_mut(), &mut std::task::Context::from_waker(&w));
    }
    b.next(Some(me));
    b.wait(me);
    b.st().blocked[me] = false;
}

type Job = Box<dyn FnOnce() + Send>;
thread_local! {
    /// Idle OS threads of this runner thread.
    static POOL: RefCell<Vec<Sender<Job>>> = const { RefCell::new(vec![]) };
}
fn on_pool(i: usize, job: Job) {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        while p.len() <= i {
            let (tx, rx) = channel::<Job>();
            std::thread::spawn(move || {
                while let Ok(j) = rx.recv() {
                    j();
                }
            });
            p.push(tx);
        }
        p[i].send(job).expect("pool thread");
    })
}

/// Runs the bodies as simulated threads until all have ended, at one instant.
pub fn run_threads(rt: &tokio::runtime::Handle, bodies: Vec<Job>) {
    run_threads_moving(rt, bodies, 0)
}

/// Time goes on at `moving` percent of the switch points. The simulator's own
/// idea of the time lags behind until it advances time itself.
pub fn run_threads_moving(rt: &tokio::runtime::Handle, bodies: Vec<Job>, moving: u32) {
    let n = bodies.len();
    let b = Arc::new(Baton {
        m: Mutex::new(St { turn: usize::MAX, alive: vec![true; n], blocked: vec![false; n], abort: false, switches: 0 }),
        cv: (0..=n).map(|_| Condvar::new()).collect(),
        moving,
    });
    let c = ctx();
    for (i, f) in bodies.into_iter().enumerate() {
        let (b, c, rt) = (b.clone(), c.clone(), rt.clone());
        on_pool(
            i,
            Box::new(move || {
                install(Some(c));
                ME.with(|x| *x.borrow_mut() = Some((b.clone(), i)));
                {
                    let _g = rt.enter();
                    let _ = catch_unwind(AssertUnwindSafe(|| {
                        b.wait(i);
                        f();
                    }));
                }
                drop(rt);
                ME.with(|x| *x.borrow_mut() = None);
                let abort = {
                    let mut g = b.st();
                    g.alive[i] = false;
                    g.blocked.iter_mut().for_each(|x| *x = false);
                    g.abort
                };
                if abort {
                    install(None);
                    b.release();
                } else {
                    b.next(None);
                    install(None);
                }
            }),
        );
    }
    b.next(None);
    let mut g = b.st();
    while g.alive.iter().any(|a| *a) {
        g = b.cv[n].wait(g).unwrap_or_else(|e| e.into_inner());
    }
    drop(g);
    count_n("sim.threads", n as u64);
}

pub fn install_switch() {
    #[cfg(tower_sim)]
    tower::sim_sync::set_switch(switch);
}
