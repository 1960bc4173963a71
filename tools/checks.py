BUF = "random search over callers, worker polls, cancellations, failures and kills of the real Buffer and Worker"
CHECKS = {
 "B01": (BUF + "; FIFO/exactly-once history check", "Seeded search on one executor thread; not exhaustive."),
 "B02": (BUF + "; every caller's error compared with the injected one", "Seeded search on one executor thread; not exhaustive."),
 "B03": (BUF + "; occupancy invariant after every step and capacity probe at the end", "Seeded search; the slot being dispatched by the worker is allowed on top of the bound, as documented."),
 "B04": (BUF + "; all callers must resolve under a wake-only executor", "Seeded search; worker killed between polls, or panicking inside a poll."),
 "B05": ("random callers in random tracing spans, cancellations and background runs; span of every inner poll and call against the caller that caused it, no span left entered after any task poll", "Seeded search; the tracing subscriber is a recording stand-in."),
 "L01": ("random search over clones, shared semaphores, drops and failures; occupancy invariant after every step", "Seeded search."),
 "L02": ("random search with cancellations and injected panics; capacity and hand-over probe at the end of each run", "Seeded search."),
 "L03": ("random call/poll/advance sequences in virtual time; window-partition dynamic programme over call stamps", "Seeded search; timer granularity 1 ms."),
 "L04": ("random call/poll/advance sequences in virtual time; Pending justified by the recent calls, wake-up deadline", "Seeded search; timer granularity 1 ms tolerated."),
 "L05": ("random polls (also unprompted), calls, completions, cancellations and clones of competing handles of the real ConcurrencyLimit and Buffer; exact FIFO queue model", "Seeded search; inner services always ready, so that only the limit's own capacity is waited for."),
 "D01": ("random handle operations against a reference automaton of the inner readiness", "Seeded search over single-handle and multi-handle histories."),
 "T01": ("random poll/advance/response schedules in virtual time around the deadline", "Seeded search; timer granularity 1 ms tolerated on the late side only."),
 "F01": ("random predicates, callers, cancellations; predicate-decision log compared with the dispatch log", "Seeded search; sync and async filters."),
 "E01": ("random readiness of several services, clones, picker choices; reference routing log", "Seeded search."),
 "K01": ("random polls, background runs, drops and failures; background-task count from the runtime metrics", "Seeded search; the background task is run by tokio's current-thread runtime when the scheduler says so."),
 "N01": ("random connect failures, connection crashes and recoveries; connection automaton", "Seeded search."),
 "G01": ("random resolution, failure, clones and drops of lazily built services; build-once log", "Seeded search."),
 "R01": ("random policies, outcomes, cancellations and readiness of the real Retry; every dispatch and outcome explained by a reference interpreter of the policy's answers", "Seeded search; policies are scripted stand-ins and the shipped budget and backoff."),
 "R02": ("random deposit, withdraw and idle histories in virtual time; grants compared with a sliding-window reference of upper and lower bounds", "Seeded search; the slot granularity of the window (ttl/10) is tolerated."),
 "R04": ("random configurations, sessions and injected random draws in virtual time; completion instants compared with an exact reference", "Seeded search; exact for the first 32 backoffs of a session, beyond that only the bounds."),
 "H01": ("random latencies, policies, readiness and cancellations of the real Hedge in virtual time; dispatch history against the hedge rules", "Seeded search; timer granularity 1 ms tolerated."),
 "H02": ("random latency histories in virtual time; the hedge delay observed for each request compared with the percentile of the recorded latencies", "Seeded search; histogram precision and rotation instants tolerated."),
 "W01": ("random requests, completions, cancellations and drops; the reported load compared with the requests in flight after every step", "Seeded search."),
 "W02": ("random round-trip times and observation instants in virtual time; estimate bracketed by a reference moving average", "Seeded search; floating-point tolerance."),
 "W03": ("scripted discoveries that are pending, fail and end at random under the real adapters (also nested), makers of discoveries under the real MakeBalance; per-poll comparison of what is taken and what is yielded, wake-ups, loads", "Seeded search; MakeBalance makes balancers over at most one endpoint."),
 "C01": ("random readiness, failures, evictions, replacements and calls on the real ReadyCache; reference automaton per key", "Seeded search."),
 "C02": ("random readiness and wake-ups on the real ReadyCache; every pollable endpoint must have been polled or woken", "Seeded search."),
 "P01": ("random discovery changes, readiness, failures and load changes around the real Balance; endpoint liveness reference", "Seeded search; injected random source."),
 "P02": ("random loads and churn around the real Balance with a recording random source; sample log, least-loaded rule, and chi-square uniformity runs", "Seeded search; uniformity is a statistical test with a bound beyond chance."),
 "P03": ("random discovery changes, readiness and failures; wake-up and progress oracle once faults stop", "Seeded search."),
}
STK = "random stacks of tower layers over instrumented leaf services, random clients, clones, cancellations, failures and delays in virtual time; "
CHECKS.update({
 "S01": (STK + "readiness automaton of every leaf and probe instance", "Seeded search over random stacks; combinations that the poll_ready contract itself cannot serve are not generated (listed in DESIGN.md)."),
 "S02": (STK + "dispatch log and per-caller outcome against the transformations of the stack", "Seeded search over random stacks of pass-through layers."),
 "S03": (STK + "live counts of requests, services and futures after drops, and progress of the other callers", "Seeded search over random stacks."),
 "S04": (STK + "wake-only executor with a fresh waker per poll; every task must complete once everything it waits for has happened", "Seeded search over random stacks."),
 "S05": (STK + "repeated polls and delays between ready and call, competing clones", "Seeded search over random stacks."),
 "S06": ("differential runs: one service driven in lockstep with an identical one from a fresh layer while siblings from the same layer are driven, failed and dropped; all that can be observed must be equal after every step", "Seeded search; siblings share nothing but their layers."),
 "S07": (STK + "panics injected in leaf services, between layers, and in closures, policies and pickers; other callers' outcomes, capacity, liveness and leaks", "Seeded search over random stacks."),
 "A01": ("random streams, readiness, completion orders, failures and cancellations of the real CallAll; reference queue", "Seeded search."),
 "A02": ("random streams, readiness, completion orders, failures and cancellations of the real CallAllUnordered; every completed call must have been yielded at quiescence", "Seeded search."),
 "M01": ("random mocks, clones, handle operations, drops and injected errors on the real tower-test Mock; reference queue and admission model", "Seeded search; with several mocks on one handle the admission count is not claimed."),
 "X01": ("random endpoint crashes, restarts, black holes, refused connections, discovery churn and cancellations around a whole client in virtual time; deadlines, per-endpoint concurrency, attempt counts, and recovery probes once faults stop", "Seeded search over random configurations of one client architecture; endpoint processes and network are stubs."),
 "X02": ("random servers of the real protective layers in random order over stalling, hanging and failing handlers in virtual time; bounds after every step, deadlines at promptly polled instants, and a probe of the full capacity once faults stop", "Seeded search over random configurations; combinations in which handles wait for each other by design are not generated."),
})
CHECKS["R03"] = ("random interleavings of simulated threads at every lock and atomic of the real TpsBudget, in virtual time; linearizability against sequentially driven twin budgets", "Seeded search over schedules of 2-4 threads; sequentially consistent memory only.")
CHECKS["B02"] = (BUF + "; every caller's error compared with the injected one; simulated threads read and set the shared error concurrently", CHECKS["B02"][1])
CHECKS["W02"] = (CHECKS["W02"][0] + "; simulated threads complete requests and read the load at one instant", CHECKS["W02"][1])
HOOK_COMMITS = ["dcdef1e51c27863a0697ee1cd215769ece8f319a", "bf8667c4cc489915c83fdb5090ec19517267cc89", "3fc2fcd701a9ff971d4a69da43ff8fd538c61d09"]
