#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so that ids, titles and anchors stay in step)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
T = "tower/src/"
prop("C01", "Readiness protocol: call only after own Ready, never after failure",
 "Whatever sequence of poll_ready, call, clone and drop a well-behaved caller performs on a middleware, the wrapped service instance is called only when that same instance answered Ready(Ok) to its most recent readiness poll and has not been called since. A wrapped service instance that answered a readiness poll with an error is never called or polled again by the middleware's own machinery, and no response future is polled after it completed.",
 ["histories", "schedules", "inputs"], "All caller histories (poll/call/clone/drop/future polls in any order the Service contract permits) and all answers of the wrapped service (Pending, Ready, Err at every step).",
 "Tests drive a mock through one or two fixed scripts per middleware; the obligation is about every interleaving of readiness answers, clones and calls.",
 [T+"util/", T+"limit/", T+"load_shed/mod.rs", T+"timeout/mod.rs", T+"retry/future.rs", T+"buffer/worker.rs", T+"ready_cache/cache.rs", T+"reconnect/mod.rs", T+"hedge/delay.rs", T+"filter/mod.rs", T+"steer/mod.rs", T+"spawn_ready/service.rs", T+"load/"],
 [("clone-and-replace of the ready service", T+"util/and_then.rs, "+T+"util/map_future.rs"), ("poll_ready delegated before call", T+"**")],
 [("inner service", "the wrapped Service instance", "every middleware struct")], ["the wrapped service's poll_ready/call"])
prop("C02", "Combinators are transparent: exactly the configured function, exactly once",
 "map_request, map_response, map_err, map_result, map_future, then, and_then, either, optional, boxed services, service_fn and the forwarding impls for references and boxes pass each request, response and error through unchanged except for applying the configured function exactly once at the documented place: map_response/and_then only to successes, map_err only to errors, then/map_result to both, map_request before the wrapped service. Readiness results (including errors, mapped by map_err) are passed through unchanged.",
 ["inputs", "histories"], "All request, response and error values, all Pending/Ready/Err outcomes of the wrapped service, repeated calls.",
 "Unit tests check a few concrete values for some combinators and none for most.",
 [T+"util/map_request.rs", T+"util/map_response.rs", T+"util/map_err.rs", T+"util/map_result.rs", T+"util/map_future.rs", T+"util/then.rs", T+"util/and_then.rs", T+"util/either.rs", T+"util/optional/", T+"util/boxed/", T+"util/boxed_clone.rs", T+"util/boxed_clone_sync.rs", T+"util/service_fn.rs", "tower-service/src/lib.rs"],
 [("Service::call of each combinator", T+"util/*.rs"), ("forwarding impls", "tower-service/src/lib.rs")], (), ["response future output", "request seen by the wrapped service"])
prop("C03", "Concurrency limit: never more than max requests in flight",
 "At every moment the number of live response futures handed out by a concurrency-limited service, counted over all its clones and over all services sharing its semaphore or global layer, is at most the configured maximum. Capacity is returned exactly when a response future is dropped (whether it completed or not) or when a service that had been readied but not called is dropped; a service reports ready only while it holds capacity for exactly one call, clones never inherit that capacity, and it is not refused while capacity is free.",
 ["histories", "schedules"], "All histories of poll_ready/call/complete/drop/clone over any number of handles, all answers of the wrapped service.",
 "Tests use a limit of 1 or 2 and a handful of scripted interleavings.",
 [T+"limit/concurrency/"], [("permit taken in poll_ready, moved into the response future by call", T+"limit/concurrency/service.rs"), ("permit dropped with the future", T+"limit/concurrency/future.rs"), ("shared semaphore", T+"limit/concurrency/layer.rs")],
 [("permit", "capacity reserved for the next call", T+"limit/concurrency/service.rs")], ["number of live response futures"])
prop("C04", "Rate limit: at most num calls per period",
 "Between the call that opens a period and the end of that period (its start plus the configured duration) a rate-limited service admits at most the configured number of calls, and consecutive periods never overlap. Once the number is used up, poll_ready stays Pending until the period has ended and the caller's task is registered to be woken then; after it ended the service is available again with the full number.",
 ["histories", "inputs", "schedules"], "All rates, all arrival times of polls and calls on a monotone clock, all answers of the wrapped service.",
 "Tests use one rate and a paused clock with three steps.",
 [T+"limit/rate/"], [("period bookkeeping", T+"limit/rate/service.rs")],
 [("until / rem", "end of the current period and calls left in it", T+"limit/rate/service.rs")], ["calls reaching the wrapped service against the clock"], "cfg-guarded access to the private period state for the inductive step")
prop("C05", "Timeout: response wins, otherwise Elapsed at the deadline and not before",
 "A request through the timeout service yields the wrapped service's own result whenever that result is available when the response future is polled, even at or after the deadline. Otherwise it yields the Elapsed error exactly when the configured duration has passed since the call, never before, and while it is pending the task is registered with both the response and the timer.",
 ["inputs", "schedules"], "All durations, all poll times, all outcomes of the wrapped service.",
 "Tests check one duration with one ordering.",
 [T+"timeout/"], [("response polled before timer", T+"timeout/future.rs"), ("timer started in call", T+"timeout/mod.rs")], (), ["response future output against the clock"])
prop("C06", "Load shed: always ready, sheds exactly when the wrapped service is not",
 "The load-shedding service answers every readiness poll immediately: an error if the wrapped service reports one, Ready otherwise. A call is forwarded if and only if the wrapped service reported ready at the last readiness poll and no call was made since; any other call is answered with an Overloaded error without touching the wrapped service, and a clone starts out not ready. Results of forwarded calls are returned unchanged.",
 ["histories", "inputs"], "All interleavings of polls, calls and clones, all answers of the wrapped service.",
 "Tests check two scripted sequences.",
 [T+"load_shed/"], [("is_ready consumed by call", T+"load_shed/mod.rs")], [("is_ready", "wrapped service reported ready and was not called since", T+"load_shed/mod.rs")], ["response future output"])
prop("C07", "Buffer delivers requests once, in order, each response to its own caller",
 "Requests accepted by a buffer are handed to the wrapped service at most once each and in the order they were accepted across all clones of the buffer; a request whose response future was dropped before hand-over is skipped without disturbing the others. Every response future still held resolves to the outcome of its own request, and a live worker with a ready service leaves no accepted request unprocessed.",
 ["schedules", "histories", "fault_sequences"], "All interleavings of handle operations (poll, call, clone, drop), response-future polls and drops, and worker polls, with every answer of the wrapped service.",
 "Tests use a mock with one or two scripted interleavings; cancellation and readiness loss at every point are not covered.",
 [T+"buffer/"], [("worker loop and current_message", T+"buffer/worker.rs"), ("one-shot per request", T+"buffer/service.rs"), ("response future states", T+"buffer/future.rs")],
 [("current_message", "request waiting for the wrapped service to be ready", T+"buffer/worker.rs")], ["order of requests at the wrapped service", "response future outputs"])
prop("C08", "Buffer failure reaches every pending and future request",
 "After the wrapped service fails a readiness poll, the worker never polls or calls it again; every request accepted but not yet handed over resolves to that same error, and every handle's later readiness poll or call fails with it. If the worker goes away without a service failure (shut down, dropped, or cancelled), pending and later requests fail with the Closed error; no response future hangs.",
 ["fault_sequences", "schedules", "histories"], "Failure at every point of every interleaving of callers and worker; worker dropped at every point.",
 "Tests fail the service at one point with one or two queued requests.",
 [T+"buffer/"], [("Worker::failed: publish, close, drain", T+"buffer/worker.rs"), ("get_error_on_closed", T+"buffer/worker.rs")],
 [("failed / handle", "the error shared with every handle", T+"buffer/worker.rs")], ["errors seen by callers"])
prop("C09", "Buffer capacity is bounded and not leaked",
 "With bound b, at any moment the requests accepted and not yet taken by the worker plus the handles that have been told they are ready and have not called number at most b, so at most b further requests can wait beyond the one the worker holds. Capacity comes back when the worker takes a request or when a readied handle is dropped; a handle that was told it is ready can always deliver its request while the worker lives.",
 ["histories", "schedules", "configurations"], "All interleavings over any bound and any number of handles.",
 "Tests check bounds 1 to 3 with scripted order.",
 [T+"buffer/service.rs", T+"buffer/worker.rs", T+"buffer/layer.rs"], [("slot reserved in poll_ready, used by call", T+"buffer/service.rs"), ("channel created with the bound", T+"buffer/service.rs")], (), ["readiness of handles"])
prop("C10", "Retry: the policy decides, with the saved clone of the original request",
 "A retried request is attempted first with the original request; after each attempt the policy sees that attempt's result, and the request is attempted again if and only if the policy asks for it, after the policy's own future completed and the service reported ready, with the clone the policy saved before the previous attempt. If the policy could not clone the request or asks for no retry, the result of the last attempt (as possibly amended by the policy) is returned; a readiness failure before a retry is returned as the error.",
 ["histories", "inputs", "fault_sequences"], "All numbers of attempts, all results, all policy decisions, all Pending points.",
 "Tests script up to three attempts with fixed policies.",
 [T+"retry/future.rs", T+"retry/mod.rs", T+"retry/policy.rs"], [("Called/Waiting/Retrying state machine", T+"retry/future.rs")],
 [("request", "the clone kept for the next attempt", T+"retry/future.rs"), ("state", "current phase of the attempt", T+"retry/future.rs")], ["requests at the wrapped service", "policy calls", "final output"])
prop("C11", "Retry budget: withdrawals never exceed reserve plus recent deposits",
 "A withdrawal from the token-bucket budget succeeds exactly when the reserve (the minimum rate times the time-to-live) plus the deposits minus the withdrawals still being counted cover its cost, and changes nothing when it fails; a deposit is worth the configured percentage of a withdrawal (whose cost is a whole number of units, rounded down). Every deposit and withdrawal is counted for the time-to-live and stops being counted at most one slot (a tenth of it) later, at whatever times the budget is used in between.",
 ["histories", "inputs", "configurations"], "All sequences of deposits and withdrawals at all times, all valid configurations (sequential use).",
 "Tests check a few fixed sequences on one configuration.",
 [T+"retry/budget/"], [("expire / sum / put / try_get", T+"retry/budget/tps_budget.rs"), ("parameter conversion", T+"retry/budget/tps_budget.rs")],
 [("slots, writer, generation", "deposits by slot of a tenth of the ttl", T+"retry/budget/tps_budget.rs")], ["withdraw() results over time"], "cfg-guarded access to the private slots for the inductive step")
prop("C12", "Backoff delays stay within [min, max], grow exponentially, never panic",
 "Every delay produced by the exponential backoff lies between the configured minimum and maximum; without jitter the n-th delay is min times 2^n (the factor stays at 2^32-1 from the 32nd on) capped at max, and jitter only adds to it. The constructor accepts exactly the parameter combinations documented as valid, each backoff made starts from the minimum, and no sequence of calls with any random source panics.",
 ["inputs", "histories", "configurations"], "All minimum/maximum durations, jitter factors, iteration counts and generator outputs.",
 "quickcheck samples random parameters with delays in milliseconds and few iterations.",
 [T+"retry/backoff.rs"], [("base() and jitter()", T+"retry/backoff.rs"), ("parameter validation", T+"retry/backoff.rs")],
 [("iterations", "number of delays already produced", T+"retry/backoff.rs")], ["duration of the returned sleep"])
prop("C13", "Random helpers stay in range and sample distinct indices",
 "For every output of the underlying generator, next_range returns a value in the requested half-open range and next_f64 a value in [0,1); the two indices sampled for power-of-two-choices are distinct, both within bounds, and every pair of distinct indices can be produced. The hashing generator advances its counter at every draw and never panics.",
 ["inputs"], "All 64-bit generator outputs and all ranges and lengths.",
 "quickcheck samples a few hundred inputs, and lengths up to 256 only.",
 [T+"util/rng.rs"], [("next_range, next_f64, sample_floyd2", T+"util/rng.rs")], (), ["returned values"])
prop("C14", "Balancer dispatches to a ready endpoint, the lesser-loaded of two",
 "The balancer reports ready only if an endpoint it has just seen ready is selected, and the next call goes to exactly that endpoint. With two or more ready endpoints and nothing selected yet it draws two distinct ones and selects the one whose load is not greater; with one it selects that one; it is Pending exactly when none is ready, then with the task registered with discovery and every pending endpoint. An endpoint that stops being ready or fails before dispatch is not used, and another is selected.",
 ["histories", "schedules", "inputs"], "All endpoint sets, loads, generator outputs, readiness and failure patterns.",
 "Tests cover one and two endpoints with fixed loads.",
 [T+"balance/p2c/service.rs", T+"util/rng.rs", T+"ready_cache/cache.rs"], [("p2c_ready_index", T+"balance/p2c/service.rs"), ("re-check of the selected endpoint", T+"balance/p2c/service.rs")],
 [("ready_index", "the endpoint selected for the next call", T+"balance/p2c/service.rs")], ["which endpoint receives the request"])
prop("C15", "Balancer follows discovery: removed, replaced and failed endpoints get nothing",
 "Every change announced by discovery before a readiness poll is applied by it: an endpoint that was removed receives no further request, an inserted one becomes eligible once it reports ready, and re-inserting a key replaces the old endpoint once the new one is ready. An endpoint whose readiness poll fails is dropped without failing the balancer or any other endpoint, while an error of the discovery stream itself is returned to the caller; the reported number of endpoints matches.",
 ["histories", "fault_sequences"], "All sequences of insert/remove/end/error events interleaved with readiness answers and calls.",
 "Tests use a fixed list or a channel with two services.",
 [T+"balance/p2c/service.rs", T+"ready_cache/cache.rs"], [("update_pending_from_discover / promote_pending_to_ready", T+"balance/p2c/service.rs")], (), ["which endpoints receive requests", "poll_ready result", "len()"])
prop("C16", "Ready cache: every key is pending or ready as its service says, none is lost",
 "A pushed service is pending until its readiness poll succeeds, then ready until it is called, fails, is replaced or is evicted; after a call it is pending again under the same key, and when it reports an error it is removed and the error returned with its key. At most one ready service exists per key; pushing a key again supersedes a pending one at once and a ready one when the new one becomes ready; evicting removes both and reports whether there was anything to remove, and the lengths reported agree with this.",
 ["histories", "schedules"], "All sequences of push, evict, poll_pending, check_ready, call_ready with all readiness answers.",
 "Tests check six fixed scenarios.",
 [T+"ready_cache/cache.rs"], [("push_pending / poll_pending / check_ready_index / call_ready_index / evict", T+"ready_cache/cache.rs")],
 [("pending, pending_cancel_txs, ready", "the three maps of the cache", T+"ready_cache/cache.rs")], ["public queries of the cache", "which service instance receives a call"])
prop("C17", "Pending-request load equals the requests outstanding",
 "The load reported by a request-counting service equals the number of its calls whose tracking handle is still alive: it rises by one at each call and falls by one when the response completes successfully, otherwise (failed or abandoned) when its future is dropped, or, with custom completion tracking, when the value the handle was attached to is dropped; it never goes below zero. The response itself is passed through unchanged, and discovery wrapping keeps keys and order of changes.",
 ["histories", "schedules"], "All interleavings of calls, completions, failures and drops.",
 "Tests check two requests completed in order.",
 [T+"load/pending_requests.rs", T+"load/completion.rs"], [("reference count held by the handle", T+"load/pending_requests.rs"), ("TrackCompletionFuture", T+"load/completion.rs")],
 [("ref_count", "live handles plus the service itself", T+"load/pending_requests.rs")], ["load()"])
prop("C18", "Peak-EWMA load: peaks raise it at once, otherwise it decays toward the latency",
 "A completed request's latency above the current estimate becomes the estimate immediately; a lower one moves the estimate down to a weighted mean, by the time since the estimate was last updated, that (up to rounding) never leaves the interval between the latency and the old estimate, and with no traffic the estimate only decays. The reported load is the current estimate times the outstanding requests plus one, and is never negative or NaN; a request updates the estimate once, when its tracking handle is dropped (completed, failed or abandoned), not while it is outstanding.",
 ["inputs", "histories"], "All latencies, gaps between observations, decay settings and numbers of outstanding requests.",
 "Tests check three hand-computed points.",
 [T+"load/peak_ewma.rs"], [("RttEstimate::update / decay", T+"load/peak_ewma.rs"), ("Handle drop", T+"load/peak_ewma.rs")],
 [("rtt_ns, update_at", "estimate and time of the last update", T+"load/peak_ewma.rs")], ["load()"], "cfg-guarded access to the private estimator")
prop("C19", "Steer: ready only when all are, each request to the picked service",
 "A steering service reports ready only when every one of its services has reported ready since its own last call, and returns the first error any of them reports; a pending one does not consume the readiness of the others. Each call asks the picker once with the request and the full list, and hands the request to exactly the service at the picked index.",
 ["histories", "inputs"], "All readiness patterns over any number of services, all picks.",
 "Tests check two services and two fixed patterns.",
 [T+"steer/mod.rs"], [("not_ready queue", T+"steer/mod.rs")], [("not_ready", "indices to poll before the next call", T+"steer/mod.rs")], ["services polled and called"])
prop("C20", "Reconnect: rebuilds the connection when it fails and reports connect errors once",
 "The reconnecting service makes a connection when it has none, uses it until its readiness poll fails, then makes a new one in the same poll without reporting that failure. A failed connection attempt is reported as the error of exactly one following call, after which the next readiness poll tries again; calls go only to an established, ready connection, and errors of the maker's own readiness are returned.",
 ["fault_sequences", "histories"], "All sequences of connect successes/failures, readiness failures, calls and Pending points.",
 "Tests cover two fixed sequences.",
 [T+"reconnect/"], [("Idle/Connecting/Connected state machine", T+"reconnect/mod.rs"), ("stored connect error", T+"reconnect/mod.rs")],
 [("state, error", "connection phase and undelivered connect error", T+"reconnect/mod.rs")], ["maker calls, connection calls, results"])
prop("C21", "Hedging: at most one extra attempt, only after the delay, first result wins",
 "Each hedged request reaches the wrapped service once at once, and at most once more: only if the policy could clone it and enough latencies were recorded at call time, only after a delay equal to the chosen latency percentile has passed without a first result, and only if the policy still agrees then. The caller gets the first result to complete, unchanged; an attempt not yet sent when that happens is never sent.",
 ["schedules", "inputs", "histories"], "All completion orders and times of the two attempts, all policies, all recorded latencies.",
 "Tests cover five scripted timings on one latency distribution.",
 [T+"hedge/"], [("Select/ResponseFuture", T+"hedge/select.rs"), ("Delay state machine", T+"hedge/delay.rs"), ("policies over the latency histogram", T+"hedge/mod.rs")],
 [("state", "delaying / waiting for readiness / called", T+"hedge/delay.rs")], ["requests at the wrapped service against the clock", "output"])
prop("C22", "Hedge latencies come from the previous period only",
 "Every latency recorded goes to the period in which it was recorded and is used for decisions exactly during the following period: after one full period the written data become the data read, after two or more idle periods nothing is left, and period boundaries do not drift with the moment of access. Recorded durations are rounded up to whole milliseconds without overflow, and only successful responses are recorded.",
 ["histories", "inputs"], "All times of reads and writes, all periods, all durations.",
 "Tests check three fixed instants with one period.",
 [T+"hedge/rotating_histogram.rs", T+"hedge/latency.rs", T+"hedge/mod.rs"], [("maybe_rotate", T+"hedge/rotating_histogram.rs"), ("millis", T+"hedge/mod.rs")],
 [("read, write, last_rotation", "previous period, current period, its start", T+"hedge/rotating_histogram.rs")], ["hedging decisions"], "cfg-guarded access to the private histogram module")
prop("C23", "Filters: rejected requests never reach the service, accepted ones once",
 "A filter forwards to the wrapped service exactly the requests its predicate accepts, in the form the predicate returned them, once each, and returns the service's result; a rejected request yields the predicate's error and never reaches the service. The asynchronous filter calls the service only after the predicate's future accepted, on the same instance that was reported ready.",
 ["inputs", "histories", "schedules"], "All requests, predicate outcomes (including transforming ones), and Pending points.",
 "Tests check one accepting and one rejecting request.",
 [T+"filter/"], [("Filter::call / AsyncFilter::call", T+"filter/mod.rs"), ("AsyncResponseFuture", T+"filter/future.rs")], (), ["requests at the wrapped service", "output"])
prop("C24", "call_all: every request called once, ordered or unordered results, then end",
 "Draining a stream through call_all calls the service once per item in stream order and only when ready, and yields exactly one result per call: in call order for the ordered variant, in any order for the unordered one. The end is reported only after the request stream ended and every outstanding response was yielded; a readiness error is yielded and no further request is called, and the service can be taken back exactly once.",
 ["schedules", "histories"], "All streams, readiness patterns and completion orders.",
 "Tests use three requests in scripted orders.",
 [T+"util/call_all/"], [("common::CallAll::poll_next", T+"util/call_all/common.rs"), ("Drive impls", T+"util/call_all/ordered.rs, "+T+"util/call_all/unordered.rs")],
 [("curr_req, queue, eof", "request taken and waiting, outstanding responses, end of stream", T+"util/call_all/common.rs")], ["yielded items", "calls"])
prop("C25", "Layers compose in declaration order; builder output equals the manual stack",
 "The layer added to a builder first is the outermost: it sees requests first and responses last, for every builder method, for tuples of layers, for stacked layers and for optional layers (none = transparent). Identity adds nothing, and each builder method wraps with exactly the middleware and parameters named.",
 ["programs", "inputs"], "All stacks of layers and all requests.",
 "Tests check one stack of two layers.",
 ["tower-layer/src/", T+"builder/mod.rs", T+"util/option_layer", T+"util/mod.rs"], [("Stack::layer, tuple impls", "tower-layer/src/stack.rs, tower-layer/src/tuple.rs"), ("ServiceBuilder methods", T+"builder/mod.rs")], (), ["order of transformations of a request and a response"])
prop("C26", "oneshot, ready and spawn-ready make exactly one call on a ready service",
 "oneshot polls the service until it is ready, calls it exactly once with the given request and returns its result, or returns the readiness error without calling; ready hands back the service exactly when it is ready. Spawn-ready drives a not-yet-ready service on a background task, at most one task at a time, hands it back ready or returns its error, and cancels the task when dropped.",
 ["schedules", "histories"], "All readiness sequences (any number of Pending) and outcomes.",
 "Tests check one or two scripted sequences.",
 [T+"util/oneshot.rs", T+"util/ready.rs", T+"spawn_ready/"], [("Oneshot state machine", T+"util/oneshot.rs"), ("SpawnReady::poll_ready", T+"spawn_ready/service.rs")],
 [("state", "not ready / called; service / background future", T+"util/oneshot.rs, "+T+"spawn_ready/service.rs")], ["calls at the wrapped service", "output"])
prop("C27", "Service factories build from exactly the given target and forward faithfully",
 "Adapters over service factories (shared, into/as service, future-service, balancing factory, make-connection) forward the target or the connection future to the factory once and return what it made or its error unchanged; the shared factory yields clones of the given service, and a service still being built is not ready until its future completes, after which requests go to it.",
 ["inputs", "histories", "fault_sequences"], "All targets, outcomes and Pending points.",
 "Tests check one success for two of the adapters.",
 [T+"make/", T+"util/future_service.rs", T+"balance/p2c/make.rs"], [("FutureService::poll_ready", T+"util/future_service.rs"), ("SharedService", T+"make/make_service/shared.rs"), ("MakeFuture", T+"balance/p2c/make.rs")], (), ["targets seen by the factory", "services returned"])
prop("C28", "Discovery adaptors yield each endpoint once with its key and stay faithful",
 "A fixed service list announces each of its services exactly once, under distinct consecutive keys in list order, then ends. Load-measuring and constant-load wrappers of a discovery stream forward every insert, removal, error and end in order with the same keys, wrapping exactly the inserted service.",
 ["inputs", "histories"], "All lists and all sequences of discovery events.",
 "Tests construct one list.",
 [T+"discover/", T+"load/constant.rs", T+"load/pending_requests.rs", T+"load/peak_ewma.rs"], [("ServiceList::poll_next", T+"discover/list.rs"), ("poll_next of the wrappers", T+"load/*.rs")], (), ["yielded changes"])
prop("C29", "No lost wakeups: Pending only with the task registered where progress comes from",
 "Whenever a middleware's poll_ready, response future or stream answers Pending, in that same poll it has registered the current task with at least every source whose event can unblock it (the wrapped service or future, the timer, the semaphore or channel, discovery, a pending endpoint), so no interleaving leaves it stuck while progress is possible.",
 ["schedules", "histories"], "All polls of all middleware in all reachable states, all sources' answers.",
 "Tests run under a mock task and check wakeups in a few spots only.",
 [T+"**"], [("every poll function forwards the task context to what it waits on", T+"**")], (), ["Pending answers against registrations"])
prop("C30", "Mock service (tower-test) hands each request to the tester and back once",
 "The mock service delivers each accepted request to its handle in order, resolves the caller's future with exactly the response or error sent for that request, respects the allowed number of requests when reporting readiness, and reports a dropped handle as an error rather than hanging; a scripted error is delivered to the next readiness poll.",
 ["histories", "schedules"], "All interleavings of mock and handle operations.",
 "The mock is the tool the other tests rely on; its own tests check a few cases.",
 ["tower-test/src/mock/"], [("Mock::poll_ready / call", "tower-test/src/mock/mod.rs"), ("Handle::allow / send_error / poll_request", "tower-test/src/mock/mod.rs")],
 [("can_send, state", "readiness of this handle, allowed requests", "tower-test/src/mock/mod.rs")], ["readiness and outputs of the mock"])
prop("C31", "Budget and buffer stay consistent under truly parallel threads",
 "Concurrent withdrawals and deposits on a shared retry budget from several threads never create budget, and a buffer request sent while the worker fails on another thread either fails to send or receives the error.",
 ["schedules"], "All thread interleavings at instruction granularity.",
 "Tests are single-threaded.",
 [T+"retry/budget/tps_budget.rs", T+"buffer/worker.rs"], [("atomics and mutexes", T+"retry/budget/tps_budget.rs")], (), ["withdraw results", "errors"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
