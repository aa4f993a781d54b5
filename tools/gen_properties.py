#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list, kept as Python for readability)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

T = "tower/src/"
p("C01", "Middleware never calls a service instance that has not reported readiness",
  "Whatever a user does within the service protocol (check readiness, call, clone, cancel, drop), every middleware in the library, and every stack of them, dispatches a request to an inner service instance only after that very instance has reported ready and has not been called since. This covers instances the middleware clones, hands to a background task, caches, picks among, retries on, or builds from a connector or a discovery stream.",
  ["programs", "histories", "schedules"], "All stacks of middlewares, all interleavings of readiness checks, calls, clones, drops, polls, clock advances, and all inner readiness/response/failure behaviours.",
  "The unit tests drive one middleware at a time over a mock that is ready when the test says so; they do not check the protocol at the inner service for clones, retries, re-polls and stacks.",
  ["tower-service/src/lib.rs", T+"limit/concurrency/service.rs", T+"limit/rate/service.rs", T+"buffer/worker.rs", T+"spawn_ready/service.rs", T+"retry/future.rs", T+"retry/mod.rs", T+"hedge/mod.rs", T+"hedge/select.rs", T+"filter/future.rs", T+"steer/mod.rs", T+"balance/p2c/service.rs", T+"ready_cache/cache.rs", T+"reconnect/mod.rs", T+"load_shed/mod.rs", T+"util/mod.rs"],
  [("Service contract", "tower-service/src/lib.rs: Service::poll_ready / Service::call docs"), ("clone-and-replace of the ready service", T+"filter/mod.rs: AsyncFilter::call; util/then.rs, util/and_then.rs"), ("retry awaits readiness", T+"retry/future.rs: State::Retrying"), ("per-index readiness", T+"steer/mod.rs: not_ready")],
  observe=["an instrumented inner service that records, per clone, readiness and calls"])
p("C02", "Reported readiness stays valid until the request is dispatched",
  "Once a middleware or a stack of them has reported ready, every further readiness check before the next call reports ready again (or an error), never pending, and a call made then is accepted without a panic, as long as the services inside it obey the same rule. A balancer or a reconnecting service is exempt only when its endpoints or its connection failed, or endpoints were removed or replaced, in between.",
  ["programs", "histories", "schedules"], "All stacks, all numbers of repeated readiness checks and clock advances between ready and call.",
  "Tests check readiness once or twice and then call; they do not sweep repeated checks across clones, elapsed windows, connection failures and stacks.",
  ["tower-service/src/lib.rs", T+"limit/rate/service.rs", T+"limit/concurrency/service.rs", T+"buffer/service.rs", T+"reconnect/mod.rs", T+"steer/mod.rs", T+"balance/p2c/service.rs", T+"spawn_ready/service.rs", T+"util/future_service.rs", T+"util/either.rs"],
  [("held permit", T+"limit/concurrency/service.rs: poll_ready"), ("window state", T+"limit/rate/service.rs: State"), ("reserved channel slot", T+"buffer/service.rs: poll_ready"), ("stored connect error", T+"reconnect/mod.rs: error")],
  observe=["Service::poll_ready results of the stack"])
p("C03", "No lost wakeups",
  "Whenever a readiness check or a response future of any middleware or stack returned pending and then becomes able to make progress (inner readiness, an inner response, a freed permit or queue slot, a timer, a closed or failed background worker, a discovery change), the task that polled it last is woken. A task that only polls again when woken therefore never stalls, even when earlier polls used a different task.",
  ["programs", "histories", "schedules"], "All stacks, all interleavings of environment events with polls from changing tasks.",
  "Tests mostly poll in a task that they re-poll by hand, so a missing wakeup is invisible; they cover a few wake paths each.",
  ["tower-service/src/lib.rs", T+"buffer/worker.rs", T+"buffer/service.rs", T+"limit/concurrency/service.rs", T+"limit/rate/service.rs", T+"ready_cache/cache.rs", T+"balance/p2c/service.rs", T+"spawn_ready/service.rs", T+"timeout/future.rs", T+"hedge/delay.rs", T+"util/call_all/common.rs"],
  [("waker registration contract", "tower-service/src/lib.rs: poll_ready docs"), ("semaphore close / oneshot", T+"buffer/worker.rs"), ("cancel waker", T+"ready_cache/cache.rs: Cancel")],
  observe=["a fresh waker per poll; at quiescence an un-woken pending operation must still be pending when re-polled"])
p("C04", "Every request gets exactly its own outcome, through any stack",
  "Through every pass-through middleware and every stack of them, each accepted request reaches the inner service exactly once (unless it is shed, filtered, retried, hedged, or cancelled first), and its future yields exactly the response or error that the inner service produced for that request. No outcome is lost, duplicated, swapped between requests or altered, also when errors are wrapped.",
  ["programs", "histories", "schedules"], "All stacks and interleavings of concurrent requests whose inner outcomes arrive in any order.",
  "Tests send one to three requests that complete in order through a single middleware.",
  ["tower-service/src/lib.rs", T+"buffer/future.rs", T+"buffer/worker.rs", T+"limit/concurrency/future.rs", T+"timeout/future.rs", T+"load_shed/future.rs", T+"retry/future.rs", T+"util/either.rs", T+"util/optional/future.rs", T+"spawn_ready/future.rs", T+"balance/p2c/service.rs", T+"steer/mod.rs"],
  [("response futures", "tower/src/*/future.rs"), ("oneshot per message", T+"buffer/message.rs")],
  observe=["unique request and error identifiers compared end to end"])
p("C05", "Cancelling or dropping at any point releases what was held",
  "Dropping a response future, a service handle or a clone at any point of its life releases every permit, queue slot, reservation and inner resource it held and nothing else, so the other users of the stack can always make progress afterwards. Once all handles and futures are gone and the inner services can make progress, every inner service instance and inner response future is dropped too.",
  ["programs", "histories", "crash_points"], "All stacks and all points (before ready, while ready, in flight, completed) at which any future or handle is dropped.",
  "Tests drop futures at a few hand-picked points and for a single middleware.",
  [T+"limit/concurrency/future.rs", T+"limit/concurrency/service.rs", T+"buffer/worker.rs", T+"buffer/service.rs", T+"spawn_ready/service.rs", T+"ready_cache/cache.rs", T+"hedge/select.rs", T+"load/completion.rs"],
  [("permit lives in the response future", T+"limit/concurrency/future.rs: ResponseFuture::_permit"), ("cancelled message skipped", T+"buffer/worker.rs: poll_next_msg"), ("abort on drop", T+"spawn_ready/service.rs: Drop")],
  observe=["a drain phase in which a fresh user must complete; liveness counters of inner instances"])
p("C06", "Concurrency limits bound work exactly and never leak or strand capacity",
  "The number of requests in progress plus reservations held by ready handles never exceeds the configured limit, counted over all clones of a limited service and over all services built from one shared limit. Every completion, failure, cancellation or drop of a reserved handle returns exactly one unit, so a caller is ready whenever fewer units than the limit are in use and nobody else has been granted them, and is woken when a unit is freed.",
  ["histories", "schedules", "inputs"], "All limits, numbers of clones and shared services, and interleavings of ready/call/complete/fail/drop.",
  "Tests cover limit 1 or 2 with two handles and a handful of orders.",
  [T+"limit/concurrency/service.rs", T+"limit/concurrency/future.rs", T+"limit/concurrency/layer.rs"],
  [("semaphore permit", T+"limit/concurrency/service.rs: ConcurrencyLimit::{poll_ready,call,clone}"), ("shared semaphore", T+"limit/concurrency/layer.rs: GlobalConcurrencyLimitLayer")],
  [("permit", "unit held from ready to completion", T+"limit/concurrency/service.rs: ConcurrencyLimit::permit")])
p("C07", "A rate limit admits exactly its quota per window",
  "Every window of the configured period admits at most the configured number of requests, where a window starts with the first request dispatched after the previous window ended or, if callers had to wait for that end, at the readiness check that notices it. Inside a window with quota left, and as soon as the window has ended, callers are ready whenever the inner service is (never delayed longer than the rest of the window), and a waiting caller is woken when the window ends. A rate of nothing or over no time is refused at construction; every other quota and period, however large, works.",
  ["histories", "inputs", "schedules"], "All quotas, periods, and timed sequences of readiness checks, calls and clock advances, including idle gaps and checks exactly at window edges.",
  "Tests exercise two or three fixed timings with quota 1 or 2.",
  [T+"limit/rate/service.rs", T+"limit/rate/rate.rs", T+"limit/rate/layer.rs"],
  [("window state machine", T+"limit/rate/service.rs: State::{Ready,Limited}, poll_ready, call")],
  [("until/rem", "end of the window and quota left", T+"limit/rate/service.rs: State::Ready")])
p("C08", "A timeout fails a request exactly when its deadline passes first",
  "A response or error that the inner service produces before the deadline (the configured duration after dispatch) is delivered unchanged, and one that is available when the future is polled wins even if the deadline has passed by then. Otherwise the future fails with a timeout error at the deadline, never before it and never later than its next poll, and its task is woken at the deadline.",
  ["inputs", "schedules", "histories"], "All durations (including zero), response times, poll times and numbers of concurrent requests.",
  "Tests cover one request and one or two fixed timings.",
  [T+"timeout/mod.rs", T+"timeout/future.rs", T+"timeout/error.rs", T+"timeout/layer.rs"],
  [("inner polled before the timer", T+"timeout/future.rs: ResponseFuture::poll"), ("deadline measured from call", T+"timeout/mod.rs: Timeout::call")])
p("C09", "Load shedding rejects exactly the requests the service is not ready for",
  "A load-shedding service always accepts a request without waiting, dispatches it if its inner service was ready at the last readiness check, and otherwise answers it at once with an overload error without touching the inner service. Errors of the inner service, from readiness or from a request, and responses, pass through unchanged, and a shed request never consumes inner readiness.",
  ["histories", "schedules"], "All sequences of inner readiness changes, readiness checks, calls and clones.",
  "Tests cover one shed and one served request.",
  [T+"load_shed/mod.rs", T+"load_shed/future.rs", T+"load_shed/error.rs"],
  [("is_ready flag", T+"load_shed/mod.rs: LoadShed::{poll_ready,call}")])
p("C10", "A buffer delivers accepted requests once, in order, within its bound",
  "Requests accepted by a buffer, over all of its clones, are dispatched to the wrapped service exactly once each and in the order they were accepted, except that a request whose response future was dropped before dispatch is skipped; each response or error goes to its own caller. Backpressure holds: no more than the configured number of requests (plus the one the worker is currently dispatching) are accepted and undispatched at any time, and capacity is available again as soon as the worker takes a request or a reservation is dropped.",
  ["histories", "schedules"], "All bounds, clones, interleavings of handles and the worker, cancellations, and inner readiness/response orders.",
  "Tests use a bound of one or two and a handful of fixed interleavings.",
  [T+"buffer/service.rs", T+"buffer/worker.rs", T+"buffer/message.rs", T+"buffer/future.rs", T+"buffer/layer.rs"],
  [("bounded channel and slot reservation", T+"buffer/service.rs: poll_ready, call"), ("worker loop", T+"buffer/worker.rs: Worker::poll, poll_next_msg")],
  [("current_message", "request being dispatched", T+"buffer/worker.rs")])
p("C11", "A failed or stopped buffer fails every affected caller and never hangs one",
  "When the wrapped service fails to become ready, that error is delivered to every accepted but undispatched request and to every later request and readiness check on every clone; when the worker is dropped these get a closed error instead; requests already dispatched still get their own outcome. When all handles are dropped, requests already accepted are still dispatched and completed, after which the worker finishes and drops the wrapped service.",
  ["fault_sequences", "crash_points", "schedules"], "All points at which the inner service fails, the worker is dropped or the handles go away, relative to accepted, queued and dispatched requests.",
  "Tests fail the service at one or two points with a single queued request.",
  [T+"buffer/worker.rs", T+"buffer/service.rs", T+"buffer/future.rs", T+"buffer/error.rs"],
  [("failed state broadcast", T+"buffer/worker.rs: Worker::failed, Handle"), ("closed channel detection", T+"buffer/service.rs: poll_ready")])
p("C12", "Background readiness is driven without the caller and handed over intact",
  "A service wrapped to become ready in the background makes progress towards readiness after the first pending readiness check without being polled again by the caller, reports ready exactly when that instance is ready, and dispatches requests to it with responses and errors unchanged. An inner readiness error is reported to the caller, and dropping the wrapper while it is waiting stops the background work and drops the inner service.",
  ["schedules", "fault_sequences", "histories"], "All interleavings of background progress, caller polls, failures and drops.",
  "Tests cover one happy path and one abort.",
  [T+"spawn_ready/service.rs", T+"spawn_ready/future.rs", T+"spawn_ready/layer.rs"],
  [("spawned ready task", T+"spawn_ready/service.rs: Inner::{Service,Future}"), ("abort on drop", T+"spawn_ready/service.rs: Drop")])
p("C13", "Retries follow the policy exactly",
  "After every attempt of a cloneable request the retry policy is consulted once with that attempt's request and outcome; a further attempt is made if and only if the policy answers with a future, only after that future completes and the service is ready again, and with a request cloned by the policy. The caller receives exactly the outcome left by the last consultation (or, for a request the policy cannot clone, the single attempt's outcome with no further attempt), and a readiness failure before a retry is returned as the error.",
  ["histories", "inputs", "schedules"], "All policies (decisions, mutations of request and outcome, delays, un-cloneable requests), outcome sequences, readiness delays, concurrent requests and cancellations.",
  "Tests cover five fixed policies with one or two attempts.",
  [T+"retry/mod.rs", T+"retry/future.rs", T+"retry/policy.rs", T+"retry/layer.rs"],
  [("retry state machine", T+"retry/future.rs: State::{Called,Waiting,Retrying}")])
p("C14", "A retry budget admits no more than its reserve plus its share of deposits",
  "Withdrawals granted by a retry budget never exceed what the configured reserve plus the retry ratio of the deposits seen in the time-to-live window allow, also with many threads using it; a withdrawal is refused only if that allowance is used up (the ratio being rounded to a whole number of deposits per retry, or above one to thousandths of a deposit). A deposit counts for its whole time to live, up to the granularity of one slot (a tenth of it), and no longer than that. A budget with a time to live, ratio or reserve outside the documented bounds cannot be built.",
  ["histories", "inputs", "schedules"], "All ttls, reserves, ratios and timed sequences of deposits and withdrawals, from one or several threads.",
  "Tests use four fixed scripts with a ratio of 0.5 or 1 and coarse waits, single threaded.",
  [T+"retry/budget/tps_budget.rs", T+"retry/budget/mod.rs"],
  [("slotted token bucket", T+"retry/budget/tps_budget.rs: Bucket::{expire,sum,try_get,put}")],
  [("generation", "current slot and its start time", T+"retry/budget/tps_budget.rs: Generation")])
p("C15", "Exponential backoff grows, caps and jitters within its documented range",
  "The n-th delay of an exponential backoff without jitter is the minimum delay doubled n times, capped at the maximum; with jitter it lies between that base delay and the smaller of base times (1 + jitter) and the maximum, and the extra part scales with the random value drawn over that whole range. Construction accepts exactly the parameter sets with min <= max, max > 0 and a finite jitter in 0 to 100, and no accepted configuration, random source or number of iterations panics.",
  ["inputs", "histories", "configurations"], "All minimum and maximum delays, jitter factors, random sources and iteration counts.",
  "The quickcheck tests sample bases in milliseconds and only check that the jitter stays inside its bounds, for one iteration.",
  [T+"retry/backoff.rs"],
  [("base/jitter", T+"retry/backoff.rs: ExponentialBackoff::{base,jitter}, next_backoff"), ("validation", T+"retry/backoff.rs: ExponentialBackoffMaker::new")],
  observe=["deadline of the returned sleep future under a paused clock"])
p("C16", "Hedging duplicates a slow request at the latency percentile, first answer wins",
  "A hedged request is issued at once and, if its response is still pending once the configured percentile of the recorded latencies has elapsed and the policy allows cloning it, issued a second time (at most once, only after enough data points), and the caller gets the first outcome to arrive while the slower attempt is dropped. The percentile is taken over the latencies of successful requests recorded in the previous full period, rotated with the clock.",
  ["histories", "inputs", "schedules"], "All latency histories, percentiles, minimum data points, periods, policies and completion orders.",
  "Tests cover four fixed scenarios with a pre-filled histogram.",
  [T+"hedge/mod.rs", T+"hedge/delay.rs", T+"hedge/select.rs", T+"hedge/latency.rs", T+"hedge/rotating_histogram.rs"],
  [("select/delay composition", T+"hedge/mod.rs: Hedge::new_with_histo, SelectPolicy"), ("rotation", T+"hedge/rotating_histogram.rs: maybe_rotate")])
p("C17", "A ready cache tracks each keyed service's readiness faithfully",
  "A keyed readiness cache moves a pushed service to the ready set exactly when it reports ready, back to pending after a call or when it is found not ready, and drops it on eviction, failure (reported with its key and error) or replacement by a newer service under the same key, which takes over only when it is ready. Keys, lengths and lookups agree with that model at all times, evicted or replaced services are never returned or called again, and no history of operations panics.",
  ["histories", "schedules", "fault_sequences"], "All sequences of push, evict, poll, check and call on shared keys with all readiness and failure patterns.",
  "Four tests cover single-key sequences plus one stress loop without a model.",
  [T+"ready_cache/cache.rs", T+"ready_cache/error.rs"],
  [("pending/ready sets and cancellation", T+"ready_cache/cache.rs: push_pending, poll_pending, check_ready_index, call_ready_index, evict")])
p("C18", "A balancer dispatches to the less loaded of two distinct ready endpoints",
  "Each request through the balancer goes to an endpoint that is currently a member and ready; with one ready endpoint it goes there, and with two or more it goes to one that does not have strictly higher load than every other ready endpoint at selection, both of the two compared endpoints being distinct and chosen uniformly at random. Membership changes between selection and dispatch never bypass that comparison.",
  ["histories", "inputs", "schedules"], "All endpoint sets, load assignments, random sources and interleavings of discovery changes, readiness changes and requests.",
  "Tests use one or two endpoints and a fixed small random sequence.",
  [T+"balance/p2c/service.rs", T+"util/rng.rs", T+"ready_cache/cache.rs"],
  [("two random choices", T+"balance/p2c/service.rs: p2c_ready_index"), ("cached selection", T+"balance/p2c/service.rs: ready_index")],
  [("ready_index", "endpoint selected for the next call", T+"balance/p2c/service.rs: Balance::ready_index")])
p("C19", "A balancer follows discovery: live, failed and removed endpoints",
  "After a readiness check the balancer has processed every discovery change available: inserted endpoints are members, removed ones are dropped and never get another request, a re-inserted key is served by the new endpoint, and endpoints that fail readiness are dropped while the others keep serving. It is ready whenever some member is ready, pending (not failed) with no ready member, wakes on discovery or endpoint changes, keeps serving after discovery ends, and reports a discovery failure as an error.",
  ["histories", "fault_sequences", "schedules"], "All histories of discovery inserts, removes, failures and end of stream, with endpoint readiness and failure patterns.",
  "Tests cover one or two endpoints that become ready or fail once.",
  [T+"balance/p2c/service.rs", T+"balance/p2c/make.rs", T+"balance/p2c/layer.rs", T+"discover/mod.rs", T+"ready_cache/cache.rs"],
  [("drain discovery then promote", T+"balance/p2c/service.rs: update_pending_from_discover, promote_pending_to_ready")])
p("C20", "The random source stays in range and two-choice sampling is uniform",
  "The library's random source produces floats in [0, 1) and integers inside any requested half-open range for every underlying bit pattern, and different generators are seeded differently. Two-choice sampling yields two distinct valid endpoints for every set size and every random source, with each pair equally likely.",
  ["inputs", "configurations"], "All 64-bit outputs of the random source, ranges, and endpoint counts.",
  "Tests sample the default generator and a few ranges; distribution and extreme values are not checked.",
  [T+"util/rng.rs", T+"balance/p2c/service.rs"],
  [("float and range construction", T+"util/rng.rs: Rng::{next_f64,next_range}"), ("Floyd sampling", T+"util/rng.rs: sample_floyd2")])
p("C21", "Pending-request load equals the number of unfinished requests",
  "The load reported by a pending-request counter is exactly the number of requests dispatched through it that are unfinished: neither answered according to the configured completion rule nor failed or dropped. Reporting load changes nothing, and requests and responses pass through unchanged.",
  ["histories", "schedules"], "All interleavings of calls, completions, failures, drops, and completion handles held past the response.",
  "One test of two requests.",
  [T+"load/pending_requests.rs", T+"load/completion.rs"],
  [("reference-counted handle", T+"load/pending_requests.rs: RefCount, Handle"), ("handle carried by the response future", T+"load/completion.rs: TrackCompletionFuture")])
p("C22", "Peak-EWMA load is the decayed peak latency times pending requests",
  "The load reported by the peak-EWMA measure equals the default latency estimate updated, at each completion, by taking a latency above the estimate at once and otherwise moving toward it with weight 1 - e^(-elapsed/decay), decaying over idle time in the same way at observation, and multiplied by the number of requests in progress plus one. It is finite and non-negative, rises with pending requests, and observing it does not change it except through elapsed time.",
  ["histories", "inputs"], "All default latencies, decay times, and timed histories of calls, completions, drops and observations.",
  "Two tests check one decay sequence and approximate equality for a few points.",
  [T+"load/peak_ewma.rs", T+"load/completion.rs"],
  [("estimate update and decay", T+"load/peak_ewma.rs: RttEstimate::{update,decay}"), ("pending factor", T+"load/peak_ewma.rs: Load for PeakEwma")])
p("C23", "A steered request goes to exactly the service its picker chose",
  "A steering service reports ready only when every underlying service has reported ready since it was last called, and then hands each request to exactly the one service whose index the picker returned for that request, leaving the others ready. A readiness error of any underlying service is reported, responses and errors pass unchanged, and a clone behaves as an independent steering service over cloned services.",
  ["histories", "schedules", "inputs"], "All numbers of services, pickers, readiness patterns, clones and request sequences.",
  "Two tests with two or three always-ready services.",
  [T+"steer/mod.rs"],
  [("queue of not-ready indices", T+"steer/mod.rs: Steer::{poll_ready,call,clone}")],
  [("not_ready", "indices that must be polled before ready", T+"steer/mod.rs: Steer::not_ready")])
p("C24", "A reconnecting service keeps one connection and surfaces each failure once",
  "A reconnecting service opens a connection when it has none, uses it for all requests while it stays healthy, and discards it and opens a new one when it fails to become ready. A failure to connect makes it ready and is returned as the error of the next request, exactly once and without starting another attempt before that, after which the next readiness check connects again; the connector is never used without being ready and its own readiness failure is reported directly.",
  ["fault_sequences", "histories", "schedules"], "All sequences of connector readiness, connect outcomes, connection failures, repeated readiness checks and calls.",
  "No test exercises it beyond compilation in this repository.",
  [T+"reconnect/mod.rs", T+"reconnect/future.rs"],
  [("connection state machine", T+"reconnect/mod.rs: State::{Idle,Connecting,Connected}"), ("deferred connect error", T+"reconnect/mod.rs: error")])
p("C25", "Filters pass on exactly what their predicate accepts",
  "A filter dispatches to its inner service exactly the requests its predicate accepts, in the form the predicate returned, and answers the others with the predicate's error without calling the inner service. For an asynchronous predicate the request goes to the same instance whose readiness the caller observed, and concurrent checks do not mix up requests.",
  ["inputs", "histories", "schedules"], "All predicates (accept, rewrite, reject, delays), inner behaviours and interleavings of concurrent requests.",
  "One test with two requests for the asynchronous filter; none for the synchronous one.",
  [T+"filter/mod.rs", T+"filter/future.rs", T+"filter/predicate.rs", T+"filter/layer.rs"],
  [("check then call", T+"filter/mod.rs: Filter::call, AsyncFilter::call"), ("state machine", T+"filter/future.rs: State::{Check,WaitResponse}")])
p("C26", "Layer composition nests services in the documented order",
  "However layers are combined (service builder, stack, tuples of any supported size, optional layers, identity, layer functions, boxed layers) the first layer added is the outermost: it sees a request first and its response last, each layer is applied exactly once, and absent optional layers change nothing. Applying the same composition to several services gives independent, equally composed services, and the builder's named methods equal adding the corresponding layer by hand.",
  ["programs", "inputs"], "All nesting shapes and lengths of layer compositions and all builder methods.",
  "Doc tests show two or three layers; long tuples and mixed nestings are not exercised.",
  ["tower-layer/src/lib.rs", "tower-layer/src/stack.rs", "tower-layer/src/tuple.rs", "tower-layer/src/layer_fn.rs", "tower-layer/src/identity.rs", T+"builder/mod.rs", T+"util/boxed/layer.rs", T+"util/boxed/layer_clone.rs", T+"util/boxed/layer_clone_sync.rs", T+"util/mod.rs"],
  [("Stack", "tower-layer/src/stack.rs: Layer for Stack"), ("tuple impls", "tower-layer/src/tuple.rs"), ("builder", T+"builder/mod.rs: ServiceBuilder::layer")])
p("C27", "Service combinators compute what their closures say, exactly once",
  "Mapping requests, responses, errors, results or futures, chaining with and-then or then, and any composition of these, yields for every request exactly what applying the closures in order to the inner outcome yields; each closure runs exactly once per applicable outcome and never for the other kind. Readiness and readiness errors follow the inner service (with error mapping applied where the combinator documents it).",
  ["programs", "inputs", "histories"], "All compositions of combinators, all inner outcomes and interleavings of concurrent requests.",
  "Doc tests show each combinator once on a happy path.",
  [T+"util/map_request.rs", T+"util/map_response.rs", T+"util/map_err.rs", T+"util/map_result.rs", T+"util/map_future.rs", T+"util/and_then.rs", T+"util/then.rs", T+"util/mod.rs", T+"util/service_fn.rs"],
  [("combinator services", T+"util/mod.rs: ServiceExt")])
p("C28", "Erased, optional, either and shared services behave like the one inside",
  "Boxed (cloneable, sync or not), optional, either-of-two, boxed-in-a-reference and future-resolved services forward readiness, requests, responses and errors of the service they hold unchanged. Cloning a boxed cloneable service gives a handle that is an independent clone of the inner service; an absent optional service is always ready and fails every request with its documented error; a service still being created becomes ready exactly when it has resolved and is itself ready, or reports its creation error.",
  ["programs", "histories", "inputs"], "All wrappings, inner behaviours and sequences of readiness, calls and clones.",
  "Tests check that types compile or run one request.",
  [T+"util/boxed/sync.rs", T+"util/boxed/unsync.rs", T+"util/boxed_clone.rs", T+"util/boxed_clone_sync.rs", T+"util/either.rs", T+"util/optional/mod.rs", T+"util/optional/future.rs", T+"util/future_service.rs", "tower-service/src/lib.rs"],
  [("type erasure", T+"util/boxed*.rs"), ("state machine", T+"util/future_service.rs: State")])
p("C29", "Call-all issues every request of a stream once and yields every outcome",
  "Driving a service over a request stream calls it once per stream item in stream order, each time only when ready, and yields exactly one outcome per call: in request order in ordered mode, and as they complete in unordered mode, ending after the last. A readiness error is yielded once, stops taking new requests, and does not lose the outcomes of requests already issued.",
  ["histories", "schedules", "fault_sequences"], "All streams (including pending items and early end), service readiness patterns, completion orders and error points.",
  "Three tests on short, mostly in-order scripts.",
  [T+"util/call_all/common.rs", T+"util/call_all/ordered.rs", T+"util/call_all/unordered.rs"],
  [("CallAll poll loop", T+"util/call_all/common.rs: CallAll::poll_next"), ("queues", T+"util/call_all/ordered.rs, unordered.rs: Drive")])
p("C30", "One-shot and ready helpers wait for readiness and call exactly once",
  "Awaiting readiness through the helper futures completes exactly when the service is ready or fails with its readiness error, and hands back the same service. A one-shot call waits for readiness, dispatches its request exactly once, and yields exactly that request's outcome or the readiness error, having dropped the service once the request was dispatched.",
  ["histories", "schedules", "fault_sequences"], "All readiness delays, failures, poll schedules and drop points.",
  "One test checks that a one-shot drops its service.",
  [T+"util/oneshot.rs", T+"util/ready.rs", T+"util/mod.rs"],
  [("oneshot state machine", T+"util/oneshot.rs: State::{NotReady,Called,Done}"), ("ReadyOneshot", T+"util/ready.rs")])
p("C31", "Making services: adapters, shared makers and balanced makers are faithful",
  "Viewing a service-of-services as a maker or back, sharing one service as a maker of its clones, and wrapping a maker's endpoints for balancing, forward targets, readiness, services and errors unchanged and make exactly one service per call. A balancing maker resolves to a balancer over exactly the endpoints that discovery made for that target reports.",
  ["inputs", "histories"], "All sequences of make calls, outcomes and readiness patterns.",
  "Only compile-time examples.",
  [T+"make/make_service.rs", T+"make/make_service/shared.rs", T+"make/make_connection.rs", T+"balance/p2c/make.rs", T+"balance/p2c/layer.rs"],
  [("adapters", T+"make/make_service.rs: IntoService, AsService"), ("Shared", T+"make/make_service/shared.rs"), ("MakeBalance", T+"balance/p2c/make.rs: MakeFuture")])
p("C32", "Discovery sources report each endpoint faithfully and in order",
  "A static list of services is reported as one insertion per service with distinct consecutive keys, in order, and then ends. Wrapping a discovery source to attach load measurement (constant, pending-request or peak-EWMA) forwards every insertion (wrapping the service), removal, error and the end of the stream unchanged and in order, and any stream of change results can serve as a discovery source.",
  ["inputs", "histories"], "All lists, change streams, error points and pending points.",
  "No test drives these wrappers over a changing stream.",
  [T+"discover/list.rs", T+"discover/mod.rs", T+"load/constant.rs", T+"load/pending_requests.rs", T+"load/peak_ewma.rs"],
  [("stream adapters", T+"load/*.rs: Discover stream impls"), ("ServiceList", T+"discover/list.rs")])
p("C33", "The mock service pairs requests with the responses a test sends",
  "Each request sent to a mock service is received exactly once by its handle, in order, and the future of that request resolves to exactly the response or error sent for it, or to a closed error if the handle or responder is dropped. The mock is ready exactly while the handle allows requests, and a scripted error is reported on readiness to the right caller; a request sent to a mock that has not reported ready is refused with a panic instead of being delivered.",
  ["histories", "schedules"], "All interleavings of allow/deny, requests, responses, errors and drops.",
  "The crate's tests cover single request scripts.",
  ["tower-test/src/mock/mod.rs", "tower-test/src/mock/spawn.rs", "tower-test/src/mock/future.rs"],
  [("shared state", "tower-test/src/mock/mod.rs: State, Handle, SendResponse"), ("Spawn", "tower-test/src/mock/spawn.rs")])
p("C34", "Buffered and background work runs in the span of the caller it is done for",
  "The readiness checks and the call that a buffer's worker makes for a queued request happen inside the tracing span that was current when the request was handed to the buffer (and in the worker's own context if there was none), never inside the span of another request, whichever of them were cancelled, waited or failed in between. The background readiness work of a spawn-ready service runs in the span of the readiness check that started it. No span is left entered afterwards.",
  ["histories", "schedules"], "All interleavings of requests made in and out of spans, cancellations, readiness delays, failures and worker progress, by hand or spawned.",
  "One test checks a single request in a single span through a spawned buffer.",
  [T+"buffer/worker.rs", T+"buffer/message.rs", T+"buffer/service.rs", T+"spawn_ready/service.rs"],
  [("span captured at call", T+"buffer/service.rs: Buffer::call"), ("span entered for readiness and call", T+"buffer/worker.rs: Worker::poll_next_msg, Worker::poll"), ("background task", T+"spawn_ready/service.rs: SpawnReady::poll_ready")])
p("C35", "A panic inside a wrapped service is contained",
  "When a wrapped service panics in its readiness check, its call or its response future, the panic reaches the caller whose operation triggered it, or ends the background worker that made it, and harms nobody else: the permits, load counts and slots the operation held are returned; when a buffer's worker dies, requests it had already dispatched keep their own outcome, queued and later requests and waiting handles get a closed error and are woken rather than left hanging; a panic in the background readiness work of a spawn-ready service is reported as a readiness error and wakes the caller; the other endpoints of a balancer keep serving.",
  ["histories", "schedules", "fault_sequences"], "All points of a history at which a readiness check, a call or a response future of a wrapped service can panic, with every other caller, clone, request and worker in any state.",
  "No test injects a panic into a wrapped service; what leaks or hangs after one depends on what every other caller was doing.",
  [T+"limit/concurrency/service.rs", T+"limit/concurrency/future.rs", T+"buffer/worker.rs", T+"buffer/service.rs", T+"buffer/future.rs", T+"spawn_ready/service.rs", T+"load/completion.rs", T+"load/pending_requests.rs", T+"load/peak_ewma.rs", T+"balance/p2c/service.rs", T+"ready_cache/cache.rs"],
  [("permit dropped on unwind", T+"limit/concurrency/service.rs: call"), ("channel and oneshots dropped with the worker", T+"buffer/worker.rs, buffer/future.rs"), ("join error", T+"spawn_ready/service.rs: poll_ready"), ("handle dropped on unwind", T+"load/*.rs: call")])
p("C36", "Waiting stacks come to rest",
  "While nothing changes outside (no wake-up from an inner service, no timer, no capacity freed, no discovery change, no user action), the tasks waiting on any middleware or stack of them, and its background tasks, come to rest: they are woken only finitely often, after which no inner service, response or discovery source is polled any more and nobody is woken. A middleware does not spin, wake itself without progress, or keep polling what it wraps.",
  ["programs", "histories", "schedules"], "All stacks and all histories leading to a state in which something is waiting, under drivers that poll exactly the woken tasks.",
  "Tests poll by hand and never look at how often a waiting task is woken or what it polls.",
  [T+"buffer/worker.rs", T+"limit/rate/service.rs", T+"limit/concurrency/service.rs", T+"ready_cache/cache.rs", T+"retry/future.rs", T+"hedge/select.rs", T+"spawn_ready/service.rs", T+"balance/p2c/service.rs", T+"steer/mod.rs", T+"reconnect/mod.rs", T+"timeout/future.rs"],
  [("pending only with a registered waker", T+"*/: poll_ready and poll"), ("pending set and its cancellations", T+"ready_cache/cache.rs: poll_pending")],
  observe=["wakes of every task and polls of every inner service after the last outside change"])
p("C37", "Serving requests does not accumulate memory",
  "Work repeated over and over on any middleware, stack of middleware, ready cache, balancer or call-all stream (requests answered, failed or cancelled, clones made and dropped, endpoints added, replaced, removed or failed, also under fresh keys), with everything brought back to rest in between, does not make the memory in use keep growing: what is held is bounded by the work outstanding, not by the work done.",
  ["programs", "histories"], "All stacks and components and all histories of one round, repeated without bound.",
  "Tests look at values and drops of a few requests; what a structure keeps per request served is invisible to them.",
  [T+"ready_cache/cache.rs", T+"balance/p2c/service.rs", T+"buffer/worker.rs", T+"util/call_all/common.rs", T+"hedge/mod.rs", T+"spawn_ready/service.rs", T+"limit/concurrency/service.rs", T+"retry/future.rs"],
  [("cancellation handles of pending services", T+"ready_cache/cache.rs: pending_cancel_txs"), ("queued responses", T+"util/call_all/: the queues")],
  observe=["bytes allocated by the library after each round of the same history"])
p("C38", "Inspecting a service tells the truth and changes nothing",
  "Looking at a middleware, ready cache or retry budget at any moment (its Debug text and that of its response futures, its get_ref and get_mut accessors, its length and lookup methods, the load reported through a limit) never panics and never changes its later behaviour: the same history gives the same results, wakeups and dispatches as without looking. The accessors give the very inner instance that requests go to, taking the middleware apart gives that instance back and otherwise has the effect of dropping it, and limits report exactly the wrapped service's load. (Observing a PeakEwma load is an update, see C22.)",
  ["histories", "configurations"], "All middleware with Debug or accessors, all histories and all moments of looking.",
  "Tests never print or unwrap a service in the middle of its work.",
  [T+"limit/concurrency/service.rs", T+"limit/rate/service.rs", T+"timeout/mod.rs", T+"filter/mod.rs", T+"retry/mod.rs", T+"retry/budget/tps_budget.rs", T+"ready_cache/cache.rs", T+"util/map_future.rs", T+"balance/p2c/service.rs", T+"buffer/service.rs", T+"hedge/mod.rs"],
  [("accessors", T+"*/: get_ref, get_mut, into_inner"), ("Debug", T+"*/: impl Debug"), ("lookups", T+"ready_cache/cache.rs: len, ready_len, pending_len, get_ready*")],
  observe=["the log of a history with and without looking", "instances given by the accessors and instances called"])
p("C39", "Errors name their cause",
  "Whatever fails in a stack of middleware, the error that reaches the caller, by itself or through its source chain, is exactly the original error with its type, in its place: errors of the inner service, of a predicate, a discovery stream or a connection attempt pass unchanged through every layer; a buffer's ServiceError, a balancer's Discover error and a ready cache's Failed error have the original as their source and tell its text, Failed names the failed key; Elapsed, Overloaded and an optional service's None are reported exactly when that layer itself refused or gave up, as the outermost error of that layer.",
  ["programs", "fault_sequences"], "All stacks, all places where an error can arise, first and later requests.",
  "Tests look at single middleware and mostly only at is_err.",
  [T+"buffer/error.rs", T+"balance/error.rs", T+"ready_cache/error.rs", T+"load_shed/error.rs", T+"timeout/error.rs", T+"util/optional/error.rs", T+"util/", T+"reconnect/mod.rs", T+"filter/mod.rs", T+"hedge/mod.rs"],
  [("error types", T+"*/error.rs: source, Display"), ("conversions into BoxError", T+"*/: poll_ready, future poll")],
  observe=["type and text of each error of the source chain"])
p("C40", "Polling again changes nothing",
  "Polling a waiting readiness check or response future again although nothing woke it, any number of times and with new wakers (or polling the readiness of a service that already reported ready), changes nothing: every later result, dispatch, reservation, timer, place in a queue and wakeup is the same as without it, and the latest waker is the one that is woken.",
  ["histories", "schedules"], "All middleware and stacks of them, all histories, any moment and number of additional polls.",
  "Executors may poll spuriously at any time (join!, select!); tests poll exactly when something is expected to happen.",
  [T+"limit/concurrency/service.rs", T+"limit/rate/service.rs", T+"buffer/service.rs", T+"retry/future.rs", T+"hedge/mod.rs", T+"util/call_all/common.rs", T+"util/oneshot.rs", T+"ready_cache/cache.rs", T+"spawn_ready/service.rs", T+"steer/mod.rs", T+"timeout/future.rs", T+"filter/future.rs"],
  [("readiness checks", T+"*/: poll_ready"), ("response futures", T+"*/: Future::poll")],
  observe=["log of a history with and without additional polls"])
p("C41", "Independent services stay independent",
  "A service does not notice what is done with a service it shares nothing with by contract: a clone of a middleware (other than limits, buffers and budgets meant to be shared), an idle clone made and dropped at any moment, or another service made from the same layer object. Each gives the same results, wakeups and dispatches as it would alone; layer objects hold no state that leaks from one service into the next.",
  ["histories", "schedules"], "All middleware and stacks of them, all interleavings of the histories of the two.",
  "Tests use one service per layer and rarely a clone in the middle of a history.",
  [T+"limit/concurrency/layer.rs", T+"limit/rate/layer.rs", T+"retry/layer.rs", T+"buffer/layer.rs", T+"timeout/layer.rs", T+"filter/layer.rs", T+"load_shed/layer.rs", T+"steer/mod.rs", T+"util/boxed/"],
  [("layers", T+"*/layer.rs: layer"), ("clones", T+"*/: Clone")],
  observe=["log of each service alone and beside the other"])
p("C42", "Those who wait are served in order of arrival",
  "Callers that wait for capacity - a unit of a concurrency limit (its own or one shared by several services) or a place in a buffer - get it in the order in which they began to wait, however often they poll meanwhile and whoever else gives up, cancels a request, is cloned or arrives: nobody who came later becomes ready or is woken while somebody who came earlier still waits and was not woken. A caller that gives up after its turn was granted passes it on to the next in line.",
  ["histories", "schedules"], "All limits and buffers, alone and below wrappers, all histories of waiting, polling, cancelling and releasing.",
  "Starvation needs several waiters and a particular order of polls, which tests do not have.",
  [T+"limit/concurrency/service.rs", T+"limit/concurrency/layer.rs", T+"buffer/service.rs", T+"buffer/worker.rs"],
  [("ConcurrencyLimit::poll_ready", T+"limit/concurrency/service.rs"), ("Buffer::poll_ready", T+"buffer/service.rs")],
  observe=["order in which waiting callers are woken and become ready"])
p("C43", "Only elapsed time matters",
  "What a middleware does depends on time only through the time that passes between events: the same history, with the clock any amount further on when the service is made, or begun any time after it was made (given that nothing recorded before expires in between), gives the same results, wakeups, dispatches, loads and budget decisions at the same relative instants.",
  ["histories", "schedules"], "All middleware and stacks of them, all histories, all offsets in whole milliseconds.",
  "Tests begin at the instant at which the clock starts.",
  [T+"limit/rate/service.rs", T+"timeout/mod.rs", T+"retry/budget/tps_budget.rs", T+"hedge/rotating_histogram.rs", T+"hedge/latency.rs", T+"hedge/delay.rs", T+"load/peak_ewma.rs"],
  [("clock readings", T+"*/: Instant::now, sleep")],
  observe=["log of the same history at another time"])
p("C44", "Middleware with nothing to do is invisible, and laws of combination hold",
  "Putting a middleware anywhere into a stack that is so configured that it never has anything to do (a timeout that never expires, a limit never reached, a filter accepting everything, a policy that never retries or hedges, a combinator with the identity, a load measure, a picker or balancer over one service, an established connection that does not fail, shedding or buffering where everything is always ready) changes nothing that callers or the services inside can tell. Stacking the same middleware twice is the combination of the two: the shorter timeout, the smaller limit outside, one rate, one shedding, all attempts of both retries; what only looks at requests or responses commutes with every other middleware.",
  ["histories", "programs"], "All stacks, places, histories.",
  "Tests try middleware alone over a mock, not inserted into arbitrary stacks.",
  [T+"limit/", T+"timeout/", T+"filter/", T+"retry/", T+"hedge/", T+"util/", T+"load/", T+"steer/mod.rs", T+"balance/p2c/service.rs", T+"reconnect/", T+"load_shed/", T+"spawn_ready/", T+"buffer/"],
  [("all middleware", T+"*/: Service for")],
  observe=["log of a history over a stack and over the one with the middleware put in"])
p("C45", "Requests and responses are let go when they are over",
  "When a request was answered, or its response future was dropped, no middleware still has the request, a copy made of it for a retry or a hedge, its response, or its inner response future: at once where the request stays with its response future, and for a request handed to a buffer's worker as soon as the worker can reach it, whether or not other requests follow, and although the service's handles live on.",
  ["histories", "programs"], "All stacks and histories of calls, answers, cancellations, clones and failures.",
  "Tests look at answers, not at what is still held after them.",
  [T+"buffer/worker.rs", T+"buffer/future.rs", T+"retry/future.rs", T+"hedge/", T+"filter/future.rs", T+"limit/concurrency/future.rs", T+"util/oneshot.rs", T+"load/completion.rs"],
  [("cancelled message dropped", T+"buffer/worker.rs: poll_next_msg"), ("request kept for a retry", T+"retry/future.rs: ResponseFuture::request")],
  observe=["a token in each request, copied with it and passed on to its response"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
