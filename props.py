"""What each check runs. files: scenario sources (scen/), nodes: simulated processes, note: manifest level_note."""
_N = ("Seeded random search over schedules (context switches at every synchronisation operation and at random plain memory accesses), "
      "simulated time and faults of generated workloads of the real code; every clean run is evidence, not proof. Assumes sequentially "
      "consistent atomics (races are judged by happens-before) and a correct C++ library. ")
PROPS = {
    "C01": {"files": ["c01.cpp"], "note": _N + "Oracle: per-task history (executed once, on one thread, FIFO per submitter, inline calls done before return)."},
    "C02": {"files": ["c02.cpp"], "note": _N + "Oracle: run() ends, waiters released, nothing accepted or started after stop, no stale task after reuse, no leaked task."},
    "C03": {"files": ["c03.cpp"], "note": _N + "Oracle: a signal seen ready implies every part of its job has ended; exceptions and results are the job's own; blocking calls return after execution; every signal becomes ready (deadlock detection)."},
    "C04": {"files": ["c04.cpp"], "note": _N + "Oracle: exact model of the connected handlers when all changes happen on the processor's thread; interval rules (connected throughout / disconnected before) when they come from other threads; order per poster, value, thread."},
    "C05": {"files": ["c05.cpp"], "note": _N + "Oracle: return time window against the simulated clock (wall clock jumps included), return value of runOnce*, order/once of the tasks executed meanwhile."},
    "C06": {"files": ["c06.cpp"], "note": _N + "Oracle: interval rules for find/create/routing against the recorded life time of every processor, exactly-once delivery and status messages, deadlock detection."},
    "C07": {"files": ["c07.cpp"], "note": _N + "Oracle: reference model of every timer (state, start number, expiry window) stepped by the operations issued on the processor's thread; earliness and lateness against the simulated system clock, expiry order, stale callbacks, remote stop and destruction."},
    "C08": {"files": ["c08.cpp"], "note": _N + "Oracle: every return of start() is explained by its interval or an overlapping stop/start, bounds on return and expiry times in simulated time (wall clock jumps included), running() against the starts in progress."},
    "C09": {"files": ["c09.cpp"], "note": _N + "Oracle: for every notification and slot, interval rules over the recorded connect/disconnect/reconnect/clear calls (exactly once if connected throughout, never after a disconnection has finished), values, counts, exceptions."},
    "C10": {"files": ["c10.cpp"], "note": _N + "Oracle: no invocation after the end of scope, self-disconnection or death of the owner, right executor thread, waitable invocations once and only if not cancelled, nothing leaked or used after free."},
    "C11": {"files": ["c11.cpp"], "note": _N + "Oracle: the sequence seen by an observer connected all the time is the sequence of states; every other observer, get and reference must fit it (no gap while connected, nothing older last, nothing torn or invented, nothing announced for an equal value); compounds equal their sources once changes stop."},
    "C12": {"files": ["c12.cpp"], "note": _N + "Oracle: every task executed once on a pool thread, never more than the pool size at a time, by priority when one thread is kept busy, nothing running or starting after shutdown, auto-deleted tasks destroyed exactly once and others never, shutdown ends (deadlock detection)."},
    "C13": {"files": ["c13.cpp"], "note": _N + "Oracle: Wing-Gong linearizability check of queue histories against a sequential queue, conservation, mutual exclusion, wake-up within bounded steps."},
    "C14": {"files": ["c14.cpp"], "note": _N + "Oracle: per request: handled once, one outcome, the outcome is the accepted answer to that very request; refusals, broken calls, timeouts and aborts only where a stop, a timeout or an abort explains them; callbacks released."},
    "C15": {"files": ["c15.cpp"], "note": _N + "Oracle: interval rules for every subscriber and every change (given if registered throughout, nothing stale at registration or after a newer value, one order for all, last = current), reads, exact sequence with one setter and removals."},
    "C16": {"files": ["c16.cpp"], "note": _N + "Oracle: interval rules for every subscription and every broadcast (exactly once if registered throughout, never outside, order of successive broadcasts, own payload), counts for signals without attributes, exactly the remaining registrations get the last broadcasts."},
    "C17": {"files": ["c17.cpp"], "note": _N + "Oracle: every observer still registered was last told the true state, none twice in a row, none after it unregistered, every change made one after the other; proxies, status signals, new observers and requests agree with the stub once changes stop; held synchronous requests end; stubs and proxies of one service share it (deadlock and freed memory detection throughout)."},
    "C18": {"quick_s": 75, "files": ["c18.cpp"], "nodes": 5, "note": _N + "Oracle: every delivered buffer equals one that was sent and at most as often, successful sends to a surviving receiver are delivered, start() ends after stop() and only then, the address is freed and served again after a stop or crash, no descriptor left over."},
    "C19": {"files": ["c19.cpp"], "nodes": 8, "quick_s": 100, "note": _N + "Oracle: at most one outcome per request and it is the handler's answer to it, handled at most once, status and signal values published, undamaged and in order per registration; once faults stop, bounded-time recovery of availability, registrations, exactly-once delivery and requests; release of pending calls when the server dies or stops."},
    "C20": {"quick_s": 75, "files": ["c20.cpp"], "nodes": 8, "note": _N + "Oracle: a hostile process writes broken-off, garbage, cut and mutated copies of recorded messages to live servers and clients: no crash, no access outside live memory, no allocation out of relation to the bytes sent, no value reaches a handler that was not sent whole (random mutations of whole messages excepted), everybody else is served undisturbed (a fresh client after random mutations)."},
    "C21": {"files": ["c21.cpp"], "note": _N + "Oracle: level changes, queries and log calls of any threads are linearizable over the set of enabled levels; every delivery is one logged message, whole, once, on the logging thread before its call returns, to the sink of its level."},
}
NA = {
    "C90": "pure single-threaded computation with no schedule, time, I/O or fault to simulate (payload fidelity across processes is judged end to end in C19)",
    "C91": "pure templates over values; nothing nondeterministic for a simulator to control",
    "C92": "pure templates over values; nothing nondeterministic for a simulator to control",
    "C93": "the Windows sources cannot be compiled or executed in this Linux sandbox",
}
