#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the entries stay uniform)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=hook)))
M = "src/common/maf/messaging/"; CS = M + "client-server/"; IM = "include/maf/messaging/"
IT = "include/maf/threading/"; IU = "include/maf/utils/"; UX = "src/platforms/unix/maf/messaging/client-server/ipc/"

prop("C01", "A running processor executes every accepted task exactly once, in order",
 "Every task a processor accepts while it keeps running (execute, executeAsync, waitableExecute, its executors and willExecute wrappers) is executed exactly once, on the thread that runs the processor, never concurrently with another task of it, and tasks handed over by one thread are executed in the order in which that thread handed them over. A task handed over with execute or waitableExecute by the processor's own thread is executed before the call returns.",
 ["schedules", "inputs", "fault_sequences"], "every number of submitting threads, mix of submission calls and interleaving, including failing allocations (a refused task is reported as refused and never runs)",
 "processor_test posts from one or two threads and observes one OS schedule; loss, duplication or reordering of a task needs a specific interleaving of the queue operations.",
 [M + "Processor.cpp", IM + "Processor.h", IT + "ThreadSafeQueue.h", IT + "Lockable.h"],
 [("ThreadSafeQueue push/wait under one lock", IT + "ThreadSafeQueue.h"), ("Processor::run loop and thread-local instance", M + "Processor.cpp")],
 [("pendingExecutions", "tasks accepted and not yet started", M + "Processor.cpp")], ["Processor::execute*", "body of the tasks"])

prop("C02", "Stopping a processor always ends its run and releases everything waiting on it",
 "After stop() is called from any thread, run() (and runFor/runUntil) returns within a bounded number of steps whatever the interleaving with tasks being handed over; no further task starts except one that the run loop had already taken out of the queue, later submissions are refused and none is pending, and every completion signal of a task that will never run becomes ready instead of hanging its waiter. After reuse() and a new run the processor executes new tasks normally and none that were handed over before the stop.",
 ["schedules", "histories"], "every interleaving of stop, submissions, waiters, reuse and rerun, with the processor stopped from outside, from one of its own tasks or from several threads at once",
 "The tests stop an idle processor once; a lost wake-up between the emptiness check and the notification, or a task stranded in a closed queue, needs one particular preemption.",
 [M + "Processor.cpp", IT + "ThreadSafeQueue.h", IM + "ProcessorEx.h"],
 [("ThreadSafeQueue::close/isClosed/reOpen", IT + "ThreadSafeQueue.h"), ("Processor::stop", M + "Processor.cpp"), ("AsyncProcessor::stopAndWait", IM + "ProcessorEx.h")],
 [("closed_", "queue refuses items and wakes its consumer", IT + "ThreadSafeQueue.h")], ["Processor::run return", "CompleteSignal::wait"])

prop("C03", "Completion signals fire exactly when their task is done",
 "A valid completion signal returned by waitableExecute, waitablePost or routing send becomes ready only after the task, or every handler of the message, has finished, becomes ready within bounded steps once the processor has run it, and hands an exception thrown by the task to whoever gets it. waitableExecute of a function with a result returns that function's result, and a blocking executor returns only after its callback was executed.",
 ["schedules", "inputs"], "every interleaving of waiters, the processor thread and other tasks, calls from the processor's own thread included, with and without tasks that throw",
 "Tests wait on a signal under one schedule; readiness before completion is only visible when the waiter is scheduled in between.",
 [M + "Processor.cpp", IM + "Processor.h", IT + "Upcoming.h"],
 [("packaged_task per waitable submission", M + "Processor.cpp"), ("Upcoming", IT + "Upcoming.h")], None, ["CompleteSignal wait/get", "executor->execute"])

prop("C04", "Messages reach exactly the handlers connected for their type, once, in order",
 "A message for which post returned true is handed, while the processor keeps running, exactly once to every handler that is connected for its type when it is processed, on the processor's thread, in posting order per poster, with the value that was posted; post returns true only when a handler is connected, which is also what connected() tells. A handler that was disconnected on the processor's thread (by handle, by type or by connection group) is not invoked afterwards (a disconnection by type takes effect with the next message), a reconnected one is, and handlers of other types are unaffected.",
 ["schedules", "histories"], "every interleaving of posting, connecting, disconnecting and reconnecting threads, handlers that (dis)connect while being notified included",
 "processor_test connects and disconnects from one thread at a time; races between notification and (dis)connection are not reachable deterministically.",
 [M + "Processor.cpp", IM + "Processor.h", IM + "MsgConnectionGroup.h", IU + "SignalSlots.h"],
 [("msgHandlersMap", M + "Processor.cpp"), ("Signal::notify", IU + "SignalSlots.h")], [("msgHandlersMap", "message type to signal of handlers", M + "Processor.cpp")], ["handler invocations", "Processor::post"])

prop("C05", "Timed runs execute what is due and return in time",
 "runFor, runUntil, runOnceFor and runOnceUntil return no earlier than their deadline unless the processor is stopped (or, for the once variants, one task was executed) and no later than a bounded delay after the deadline or the end of the task that was running at the deadline; while they run, tasks are executed as by run(). A task that waits when the run begins is executed even if there is no time at all; runOnce* executes at most one task and returns true exactly when it executed one.",
 ["schedules", "inputs"], "every duration, arrival time of tasks and interleaving, spurious wake-ups and slow threads included",
 "Tests use one real duration and cannot place a task, a stop or a spurious wake-up at the deadline.",
 [M + "Processor.cpp", IT + "ThreadSafeQueue.h"], [("waitUntil with predicate", IT + "ThreadSafeQueue.h"), ("runUntil/runOnceUntil", M + "Processor.cpp")], None, ["return time of runFor/runUntil", "return value of runOnce*"])

prop("C06", "Routing reaches each registered processor once and reports joins and leaves once",
 "Processors created with an id are found by that id until they stop, at most one live processor exists per id even when several threads create it at once, and routing post/send/postToAll/sendToAll deliver the message exactly once to each addressed processor that has a handler for it. Every registered processor that handles status messages at the time is told exactly once that another one became reachable and once that it became unreachable, and no combination of routing calls, handlers that call routing themselves, creations and stops blocks forever.",
 ["schedules", "histories"], "every interleaving of creating, stopping, finding and messaging threads",
 "message_routing_test drives two processors in a fixed order; duplicate ids and lock cycles need concurrent creation and nested routing calls.",
 [M + "Router.cpp", M + "Router.h", M + "Routing.cpp", M + "Processor.cpp"],
 [("Router lock and processor set", M + "Router.cpp"), ("Processor::create/stop join and leave", M + "Processor.cpp")], [("messageprocessors_", "registered processors ordered by id", M + "Router.h")], ["findProcessor", "handler invocations", "ProcessorStatusUpdateMsg"])

prop("C07", "Timers fire on their processor, never early, as often as they should",
 "A started timer's callback runs on the thread of the processor it was started from, never earlier than its interval (measured on the system clock) after start or restart, within a bounded delay afterwards when that thread is free, exactly once for a single-shot timer and again at each interval for a cyclic one, and timers due earlier fire first. Once the timer was stopped or restarted on that thread, the cancelled expiry never fires, and a timer may be stopped, restarted, destroyed or started anew from its own or another timer's callback or while other tasks run; stopping or destroying it from another thread neither hangs nor crashes, and an expiry due well after it does not fire.",
 ["schedules", "inputs", "histories"], "every set of timers, intervals, start/stop/restart/destroy history and slow or delayed processor thread",
 "Timer does not even compile in the tested build; real-clock tests can only sample one history with tolerance.",
 [M + "Timer.cpp", IM + "Timer.h", IM + "SignalTimer.h", M + "Processor.cpp"],
 [("TimerMgr per processor thread", M + "Timer.cpp"), ("records_ ordered by expiry", M + "Timer.cpp")], [("records_", "running timers, next to expire first", M + "Timer.cpp")], ["timeout callbacks", "Timer::running"])

prop("C08", "A SyncTimer ends by timeout or stop, exactly as reported",
 "SyncTimer::start blocks until its interval has elapsed or stop is called from another thread, whichever comes first, and never returns earlier for another reason; it is reported as running exactly while a start is in progress. A stop issued while a start is waiting always releases it within bounded steps, and a start issued while another one waits makes the interval begin anew.",
 ["schedules", "inputs"], "every interval, moment of stop and interleaving, with spurious wake-ups",
 "No test exists for it; a stop lost between the check and the wait or a spurious wake-up cannot be provoked by a unit test.",
 [M + "SyncTimer.cpp", IM + "SyncTimer.h"], [("condition variable wait", M + "SyncTimer.cpp")], None, ["SyncTimer::start return", "SyncTimer::running"])

prop("C09", "Every notification reaches every connected slot exactly once",
 "For the thread-safe signals, each notification invokes every slot that stays connected throughout it exactly once with the notified value, never invokes a slot whose disconnection finished before the notification began, and concurrent notify, connect, disconnect and clear from any threads, and connect, disconnect and clear from inside slots, neither deadlock, nor access freed memory, nor lose a connection (notifying a signal again from inside its own slot, and slots of two signals that use each other's signal, are cyclic connections and excluded). A disconnected slot can be reconnected and then receives later notifications again; a slot that throws does not disturb later notifications.",
 ["schedules", "histories"], "every interleaving of notifying and (dis)connecting threads, slots that connect, disconnect or notify during a notification included",
 "signal_slot_test is single-threaded except one smoke test; iterator invalidation and lost connections need a modification at a chosen point of a notification.",
 [IU + "SignalSlots.h", "include/maf/SignalSlots.h"], [("SignalBase slots list and notify", IU + "SignalSlots.h")], [("slots", "connected slots of a signal", IU + "SignalSlots.h")], ["slot invocations", "Connection::connected"])

prop("C10", "Slot lifetime options keep their promise",
 "A scoped connection disconnects when it goes out of scope, a connection-aware slot that disconnects itself during an invocation is invoked no more, a trackable or executor-bound slot is invoked only while its owner lives and on the executor it was given, and a waitable connection's invocation that was cancelled before it began never runs while one that was not cancelled runs once. Signals (once no notification of theirs is going on), connections and slots may be destroyed in any order and from any thread without access to freed memory.",
 ["schedules", "histories"], "every order of destruction and interleaving of notification with disconnection and expiry of the owner",
 "Lifetime errors show only when destruction lands inside a notification, which tests do not place.",
 [IU + "SignalSlots.h", "include/maf/SignalSlots.h"], [("Connection handles hold weak slots", IU + "SignalSlots.h"), ("waitable/connection-aware slots", IU + "SignalSlots.h")], None, ["slot invocations after disconnect"])

prop("C11", "Observables deliver the latest state and never an older one last",
 "An observable's value is always one that was set, a change made by any thread is announced to every connected observer with a value that was current at or after the change, setting an equal value announces nothing, and when changes stop, the last value each observer was given is the current one. Observers on an executor that keeps the order are included. Compound and derived observables agree with their sources once changes stop.",
 ["schedules", "histories"], "every interleaving of setters, mutators, observers and readers",
 "observable tests are single-threaded (one fails at the baseline); stale-last notifications require two setters interleaved between store and notify.",
 [IU + "Observable.h", IU + "SignalSlots.h", "include/maf/Observable.h"], [("Observable set/notify", IU + "Observable.h")], None, ["observer callbacks", "Observable::get"])

prop("C12", "A thread pool runs each submitted task once and shuts down completely",
 "Each task submitted to a thread pool before its shutdown is executed exactly once by a pool thread, at most the configured number at a time, and in a priority pool a waiting task of higher priority is taken before one of lower priority. Shutdown returns in bounded steps, after it no task is executing or starts, running tasks are told to stop, tasks that were never started are discarded, and a task that asks to be deleted is deleted exactly once, whether it ran or not, and any other never.",
 ["schedules", "histories"], "every interleaving of submissions, workers and shutdown, for stable, dynamic and priority pools of every size",
 "No test covers the pools; a missed wake-up or a task slipping past the shutdown needs a specific preemption.",
 ["src/common/maf/threading/threadpool/StableThreadPool.cpp", "src/common/maf/threading/threadpool/PriorityThreadPool.cpp", "src/common/maf/threading/threadpool/DynamicCountThreadPool.cpp", IT + "ThreadPoolImplBase.h", IT + "Runnable.h"],
 [("task queue and pool threads", IT + "ThreadPoolImplBase.h"), ("shutdown stops running tasks and joins", IT + "ThreadPoolImplBase.h")], None, ["Runnable::run/stop/done", "shutdown return"])

prop("C13", "The blocking queue and lockable containers are linearizable",
 "Operations of the blocking queue by any threads behave as if executed one after another on a sequential queue (FIFO, or highest priority first): each pushed item is popped exactly once or discarded by clear/close, a consumer blocked on an empty queue is woken by a push or by close in bounded steps, timed waits give up only after their time, and nothing is accepted once a close has returned until it is reopened. Critical sections through the lockable and atomic-object wrappers exclude each other.",
 ["schedules", "histories"], "every interleaving of producers, consumers, closers and clearers, spurious wake-ups included",
 "utils tests push and pop from one or two threads under one schedule.",
 [IT + "ThreadSafeQueue.h", IT + "Queue.h", IT + "Lockable.h", IT + "AtomicObject.h", IT + "Locker.h"], [("one lock and one condition", IT + "ThreadSafeQueue.h")], [("closed_", "no items are handed out or accepted", IT + "ThreadSafeQueue.h")], ["push/wait/tryPop/close results"])

prop("C14", "Every in-app request is answered exactly once, to the one who asked",
 "In the in-application client/server, a request sent while the service is available reaches the registered handler exactly once and its caller gets exactly one outcome: the response or error given for that very request, or a release when it is aborted, its provider stops serving or its requester goes away; an asynchronous callback runs on the requester's executor. A request is valid until it is answered or aborted and not afterwards, and its handler is told of an abort exactly once. Synchronous requests return their final response in bounded steps or by their timeout, a second answer to the same request changes nothing, and answers never reach another request.",
 ["schedules", "histories"], "every interleaving of requests, responses (immediate, deferred, from other threads, errors, none), aborts, stop of service and client",
 "stub_proxy_test does not link at the baseline and samples one order; answer/abort/stop races need controlled schedules.",
 [CS + "ServiceRequester.cpp", CS + "ServiceProvider.cpp", CS + "Request.cpp", IM + "client-server/BasicProxy.h", IM + "client-server/BasicStub.h", IM + "client-server/RequestT.h"],
 [("regEntriesMap_ with request ids", CS + "ServiceRequester.h"), ("Request mutex and validity", CS + "Request.cpp")], [("requestsMap_", "unanswered requests of a provider", CS + "ServiceProvider.h")], ["request handler", "response callback", "sendRequest sync return"])

prop("C15", "Status subscribers converge on the provider's latest value",
 "Each requester subscribed to a status of an available in-app service gets the current value once subscribed (perhaps again if told of it twice) and each change after it in the order of the changes, as does every listener on the provider's side, and once changes stop the last value it was given, and what a synchronous or asynchronous get returns, is the provider's current one; a callback that unsubscribed, or whose service has stopped since, is not invoked any more, and callbacks run on the executor of their proxy or stub. Values are never torn, invented or taken from another status.",
 ["schedules", "histories"], "every interleaving of set, subscribe, unsubscribe and get on several requesters, with the service going away and coming back",
 "The test samples one order; the missed-initial-value and stale-cache cases need a set inside a subscription.",
 [CS + "ServiceRequester.cpp", CS + "ServiceProvider.cpp", IM + "client-server/BasicProxy.h", IM + "client-server/BasicStub.h"], [("property cache on both sides", CS + "ServiceProvider.cpp"), ("registration handshake", CS + "ServiceRequester.cpp")], [("propertyMap_", "last value of each status", CS + "ServiceProvider.h")], ["onChangeStatus callbacks", "getStatus"])

prop("C16", "A broadcast signal reaches each current subscriber exactly once, in order",
 "Each signal broadcast by an in-app service is delivered exactly once to every requester callback and provider-side listener registered throughout the broadcast, successive broadcasts in their order, with its own payload and to nobody who unregistered, or whose service stopped, before; callbacks run on the executor of their proxy, and registration or unregistration from any thread at any time leaves exactly the remaining registrations active.",
 ["schedules", "histories"], "every interleaving of broadcasts, registrations and unregistrations on several requesters",
 "The test broadcasts once with a settled registration; register/unregister races are not sampled.",
 [CS + "ServiceRequester.cpp", CS + "ServiceProvider.cpp"], [("regAddresses / regEntries", CS + "ServiceProvider.cpp")], None, ["signal callbacks"])

prop("C17", "Service availability observers converge and pending calls are released",
 "Each service status observer registered at a proxy is told of availability changes in an order that ends with the true state of the service, a requester reports the same state once changes stop, and registering, unregistering, starting, stopping and destroying stubs and proxies from any thread or from inside an observer neither deadlocks nor touches freed memory. When a service becomes unavailable every pending synchronous request to it is released.",
 ["schedules", "histories"], "every interleaving of startServing/stopServing, proxy creation and destruction, observer (un)registration and pending requests",
 "The test starts one service once; state inversions need a start and a stop interleaved with the registration.",
 [CS + "ClientBase.cpp", CS + "ServerBase.cpp", CS + "ServiceRequester.cpp", CS + "itc/Client.cpp", CS + "itc/Server.cpp", CS + "ClientFactory.cpp", CS + "ServerFactory.cpp"], [("status propagation server to client to requester", CS + "ClientBase.cpp")], None, ["onServiceStatusChanged", "serviceStatus"])

prop("C18", "The local IPC transport delivers whole messages unchanged or reports failure",
 "Every buffer handed to the receiver's observer is byte for byte one that a sender sent, at most once; a send reported as successful to a receiver that keeps running is delivered; a send that could not transfer the whole buffer is not reported as a success; and neither side dies or stops serving others because of a peer that crashes, stalls, disconnects or sends a partial message, of interrupted or failing system calls or of short reads and writes. stop() ends the receiver in bounded time whenever it is called, after which its address is free and senders are told there is no receiver, and every descriptor is given back.",
 ["schedules", "fault_sequences", "crash_points", "inputs"], "every interleaving of senders, receiver and stop, every message size, and every sequence of short transfers, EINTR, refused or failed calls and peer crashes at any byte",
 "ipc_sender_receiver_test sends a few messages over a healthy socket.",
 [UX + "LocalIPCBufferReceiverImpl.cpp", UX + "LocalIPCBufferSenderImpl.cpp", UX + "SocketShared.h", CS + "ipc/LocalIPCBufferReceiver.cpp", CS + "ipc/LocalIPCBufferSender.cpp"],
 [("length prefix framing, one connection per message", UX + "LocalIPCBufferSenderImpl.cpp"), ("poll loop over partly received messages", UX + "LocalIPCBufferReceiverImpl.cpp")], [("state_", "receiver life cycle", UX + "LocalIPCBufferReceiverImpl.h")], ["onBytesCome", "send return value"])

prop("C19", "Inter-process services survive crashes and recover",
 "Across processes connected by local IPC, a request gets at most one outcome and that outcome is the provider's answer to that very request, status and signal payloads arrive as sent and in order, and after a server or client process crashes, restarts or stops the survivors keep working: the service is reported unavailable and available again, pending calls are released, and once faults stop new requests are served within a bounded time.",
 ["schedules", "fault_sequences", "crash_points", "histories"], "every interleaving of the threads of two or three processes with a crash, stop or restart at any point and transient system call errors",
 "No test runs the inter-process client/server at all (it does not link at the baseline).",
 [CS + "ipc/LocalIPCClient.cpp", CS + "ipc/LocalIPCServer.cpp", CS + "ipc/LocalIPCMessage.cpp", CS + "ServiceRequester.cpp", CS + "ServiceProvider.cpp", "include/maf/messaging/client-server/ipc/local/IncomingPayload.h"],
 [("server monitoring timer", CS + "ipc/LocalIPCClient.cpp"), ("service status registration", CS + "ipc/LocalIPCServer.cpp")], None, ["proxy callbacks", "service status"])

prop("C20", "Damaged or hostile bytes never crash a process or become a valid message",
 "Whatever bytes arrive on a local IPC address (truncated, bit-flipped, extended, with absurd lengths, or written by a process that died mid-message), the process neither crashes, hangs, reads outside the received bytes nor allocates without relation to them, and a message or parameter cut short is rejected instead of being handed to a handler with made-up values; intact messages that follow are served normally.",
 ["inputs", "fault_sequences", "crash_points"], "every prefix of every message and random damage of them, at the transport and at the message level, amid normal traffic",
 "serialization tests only decode what they encoded.",
 [IU + "serialization/Serializer.h", IU + "serialization/IByteStream.h", CS + "ipc/LocalIPCMessage.cpp", "include/maf/messaging/client-server/ipc/local/IncomingPayload.h", "include/maf/messaging/client-server/ipc/local/ParamTrait.h", UX + "LocalIPCBufferReceiverImpl.cpp"],
 [("stream fail state", IU + "serialization/IByteStream.h"), ("fromBytes", CS + "ipc/LocalIPCMessage.cpp")], None, ["handlers", "process liveness"])

prop("C21", "Log messages reach the configured sink whole, once, and only at enabled levels",
 "enable, disable, changeLogLevels and stopLogging, called by any threads, behave as if executed one after another on the set of enabled levels (enabling a level switches it on and leaves the others alone, disabling it switches only it off). A message logged while its level is enabled is handed exactly once, unchanged and before the call returns, to the sink of its level on the thread that logged it (info, debug and verbose to the out sink; the others to the err sink, which is the out sink unless one was given); one logged while its level is disabled reaches no sink, and a sink that takes locks, logs or switches levels blocks nobody.",
 ["schedules", "histories"], "every interleaving of logging and level-changing threads, every set of levels and way to log (functions and macros), reconfiguration between phases",
 "No test covers logging; a lost level update needs two concurrent changes, a message cut or delivered twice needs concurrent loggers.",
 ["include/maf/logging/Logger.h", "src/common/maf/logging/Logger.cpp"], [("atomic set of levels", "src/common/maf/logging/Logger.cpp"), ("log() formats on the caller's thread", "include/maf/logging/Logger.h")], [("allowedLevels", "enabled levels", "src/common/maf/logging/Logger.cpp")], ["sink invocations", "logging::allowed"])

prop("C90", "Serialization round-trips every supported type",
 "Serializing and deserializing any supported value yields an equal value and consumes exactly the bytes produced.",
 ["inputs"], "every value of every supported type", "Tests sample values.", [IU + "serialization/Serializer.h", IU + "serialization/VariantSerializer.h"], [("Serializer templates", IU + "serialization/Serializer.h")])
prop("C91", "Aggregate comparison and diff agree with member-wise comparison",
 "Generated comparison operators, tuple diff and tuple manipulation agree with comparing the members one by one.",
 ["inputs"], "every aggregate value", "Tests sample values.", [IU + "cppextension/AggregateCompare.h", IU + "cppextension/TupleDiff.h", IU + "cppextension/TupleManip.h"], [("templates", IU + "cppextension/AggregateCompare.h")])
prop("C92", "Dumps and enum names are faithful",
 "Dumping a value prints all its members in order, and converting enumerators to strings and back is the identity.",
 ["inputs"], "every value", "Tests sample values.", [IU + "serialization/Dumper.h", IU + "StringifyableEnum.h"], [("templates", IU + "serialization/Dumper.h")])
prop("C93", "The Windows named pipe transport keeps the same guarantees as the unix one",
 "On Windows the local IPC transport delivers whole messages unchanged or reports failure.",
 ["schedules", "fault_sequences"], "every interleaving and fault", "Not built on this platform.", ["src/platforms/windows/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp"], [("named pipes", "src/platforms/windows/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
