#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the lines stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Every monitored call is counted once, in the right class",
 "Each call of a monitored function is counted exactly once when it ends: as a panic if it panicked, otherwise under the name of its error if it returned one, otherwise as a success, and its duration lands in the matching success or failure times. While calls are in flight the current count equals their number and the high-water mark is the largest number ever in flight; the published function statistics (successes, errors, panics, failures, total and per-error counts) always agree with these counts. Resetting the statistics of an idle function returns all of them to zero.",
 ["histories", "schedules", "inputs"], "every history of starts and ends of calls (returning, failing, panicking), from any number of goroutines in any interleaving, with resets and readers in between",
 "the repository has no test that ends a call with an error or a panic and looks at the counts, and none that runs calls concurrently",
 ["funcstats.go", "ctx.go", "func.go"],
 [("classification and counting of a finished call", "funcstats.go: end"), ("in-flight count and high-water mark", "funcstats.go: start"), ("published statistics", "funcstats.go: Stats"), ("where a task's end is classified", "ctx.go: newSpan (exit closure)"), ("stand-alone observation", "funcstats.go: Observe")],
 ["FuncStats.Current/Highwater/Success/Panics/Errors/SuccessTimes/FailureTimes/Stats"])

prop("C02", "Instrumentation never changes what the monitored code does",
 "Wrapping code in a task or an observation leaves its outcome alone: the error it returns is neither read into something else nor written, a panic continues with the same panic value after it has been recorded, and a call that ends normally does not panic. A task accepts a missing context pointer and a nil context, and the context it hands out keeps the values, deadline and cancellation of the one it was given.",
 ["inputs", "programs", "configurations"], "every returned error, every panic value, every context (nil pointer, nil, plain, cancelled, already carrying a span), with and without observers",
 "tests never let a monitored function panic or return an error and check what the caller sees",
 ["ctx.go", "funcstats.go", "task.go"],
 [("recover, record, panic again", "ctx.go: newSpan (exit closure)"), ("the same for stand-alone statistics", "funcstats.go: Observe"), ("nil contexts", "ctx.go: cleanCtx"), ("context delegation", "span.go: Span.Value and the embedded context")],
 ["return value and panic value seen by the caller of the monitored function", "the context the function body sees"])

prop("C03", "Live spans are visible, finished spans are not",
 "A span that has started and not yet finished is reachable when all live spans are listed, exactly once when nothing else is going on, and a finished span is not. A live span whose parent has finished first is reported as orphaned and is listed as a root; a trace reports as many spans as it has started and not finished.",
 ["histories", "schedules"], "every tree of spans, every order in which parents and children start and finish, and every interleaving of those events with each other and with listings",
 "one test starts a span and looks at it; no test finishes a parent before its child or lists spans concurrently",
 ["span.go", "spanbag.go", "registry.go", "ctx.go", "trace.go"],
 [("children bag", "spanbag.go: Add, Remove, Iterate"), ("orphaning when a parent ends", "ctx.go: newSpan (exit closure); span.go: addChild, orphan"), ("root and orphan tables", "registry.go: rootSpanStart, rootSpanEnd, orphanedSpan, orphanEnd, RootSpans, AllSpans"), ("span count of a trace", "trace.go: incrementSpans, decrementSpans")],
 ["Registry.RootSpans, Registry.AllSpans, Span.Children, Span.Orphaned, Trace.Spans"])

prop("C04", "Spans inherit trace and parent from their context",
 "A task started with a context that carries a span becomes a child of that span on the same trace; a task started with a context that carries none, or whose span was removed, starts a new trace and has no parent. Restarting the trace always begins a new one without a parent, and joining a remote trace puts the span on the given trace with the given parent id and no local parent; in each case the context handed to the body carries the new span.",
 ["inputs", "histories", "configurations"], "every nesting of tasks, remote traces, trace resets and context resets, through derived contexts and context-wrapping observers",
 "tests cover one nested call and the HTTP round trip",
 ["ctx.go", "span.go", "trace.go"],
 [("choice of trace and parent", "ctx.go: newSpan"), ("span lookup", "ctx.go: SpanFromCtx; span.go: Span.Value"), ("remote and reset traces", "ctx.go: RemoteTrace, ResetTrace"), ("removing span information", "ctx.go: resetContext.Value, ResetContextSpan"), ("parent id", "span.go: ParentId")],
 ["Span.Trace, Span.ParentId, Span.Children, SpanFromCtx"])

prop("C05", "Span observers see each span of their trace exactly once",
 "An observer registered on a trace before a span starts and not cancelled until it has finished is told of its start exactly once and of its end exactly once, with the error, the panic flag and the time of the call's end, however many other observers come and go meanwhile. Observers are told in order of registration, latest first, each receiving the context the previous one returned, and the last one's context is the one the body gets; once cancelling has returned, the observer is told nothing about spans that start or end later, and cancelling one never disturbs another.",
 ["histories", "schedules"], "every sequence of registrations, cancellations (also repeated) and spans, from any number of goroutines in any interleaving",
 "tests register one observer; none cancels one or registers several",
 ["trace.go", "ctx.go", "cas_unsafe.go", "cas_safe.go"],
 [("lock-free observer list", "trace.go: ObserveSpansCtx, removeObserver, removeObserverFrom, getObserver"), ("fan-out", "ctx.go: spanObserverTuple.Start, Finish"), ("delivery", "ctx.go: newSpan")],
 ["the observer's Start and Finish calls"])

prop("C06", "Trace watchers see every new trace until cancelled",
 "Each time a trace begins, or is joined from a remote caller, every watcher registered on the registry by then is called with that trace exactly once, before the span that begins or joins it starts, and a watcher whose cancellation has returned is called no more. Registering or cancelling one watcher never affects another.",
 ["histories", "schedules"], "every sequence of registrations, cancellations and new traces, in any interleaving",
 "no test registers more than one watcher or cancels one",
 ["registry.go", "ctx.go"],
 [("watcher table and the published watcher", "registry.go: ObserveTraces, updateWatcher, observeTrace"), ("call on a new trace", "ctx.go: newSpan, RemoteTrace, ResetTrace")],
 ["the watcher callback"])

prop("C07", "Collected spans are exactly the finished descendants of the target",
 "Collecting spans around a piece of work returns the wrapping span followed by every descendant that finished before it (its ancestors in between having finished too), each exactly once with its error, panic flag and end time and each after its parent, and nothing else; without a span in the context the work is simply run. Watching for spans returns the same for the first matching span that starts, or the context's error when the context ends first; the waiting always ends when either happens, and afterwards nothing is left registered on the traces.",
 ["histories", "schedules"], "every tree of spans on every trace, every order of finishing, matching spans racing with each other, cancellation at any point",
 "the collect package has no tests",
 ["collect/collect.go", "collect/ctx.go", "collect/trace.go"],
 [("collector state machine", "collect/collect.go: Start, Finish, Stop, ForceStart, Spans"), ("registration on all traces", "collect/trace.go: ObserveAllTraces"), ("entry points", "collect/ctx.go: CollectSpans, WatchForSpans, FindSpan")],
 ["the returned span lists"])

prop("C08", "A counter always holds the sum, the lowest and the highest value",
 "A counter's current value is the last value set plus all increments minus all decrements since, and its low and high are the least and the greatest value it took since creation or the last reset, no update ever being lost. Reset returns the three values it had and leaves a counter at zero without extremes; its published statistics agree with its state.",
 ["histories", "schedules", "inputs"], "every sequence of operations with every argument, from any number of goroutines",
 "no test exercises a counter",
 ["counter.go"],
 [("update of the extremes", "counter.go: set"), ("operations", "counter.go: Set, Inc, Dec, Reset, High, Low, Current, Stats")],
 ["Counter methods, Counter.Stats"])

prop("C09", "Distribution aggregates are exact",
 "After any sequence of insertions a distribution's count, sum, lowest, highest and most recent value are exactly those of the values inserted since it was created or reset, and its full average is the sum divided by the count. A copy is independent of the original and a reset one behaves like a new one with the same key.",
 ["histories", "inputs"], "every sequence of insertions, copies, queries and resets with every value of the three element types (not-a-number excluded)",
 "no test inserts into a distribution",
 ["intdist.go", "floatdist.go", "durdist.go", "dist.go"],
 [("aggregates", "*dist.go: Insert"), ("average", "*dist.go: FullAverage"), ("copy and reset", "*dist.go: Copy, Reset"), ("published statistics", "*dist.go: Stats")],
 ["Count, Sum, Low, High, Recent, FullAverage, Stats"])

prop("C10", "Quantiles come from values really observed, in order",
 "A distribution's quantiles are interpolated from a sample of the values inserted since it was created or reset: with at most as many insertions as the sample holds they are the exact order statistics, and beyond that every sampled value is one that was inserted, a new value replacing at most one old one and old values giving way to new ones in time. Quantiles never decrease as the fraction grows, at 0 and below give the least sampled value and at 1 and above the greatest, give zero when nothing was inserted, and never panic; querying changes nothing that can be observed.",
 ["histories", "inputs"], "every sequence of insertions, queries, copies and resets with every value (finite and within single precision, in which samples are kept) and every fraction (not-a-number excluded)",
 "no test queries a quantile",
 ["intdist.go", "floatdist.go", "durdist.go", "dist.go"],
 [("reservoir sampling", "*dist.go: Insert"), ("interpolation", "*dist.go: Query"), ("reservoir average", "*dist.go: ReservoirAverage")],
 ["Query, ReservoirAverage, Stats"])

prop("C11", "Meters count every mark and rate them over their window",
 "A meter's total is its initial total (set before the first mark, or by a reset) plus everything marked since, no mark being lost or counted twice and marks of any sign or size being exact; its rate is what was marked within its window of recent intervals divided by the time since that window began, an interval without marks leaving the window alone. A difference meter reports the first meter's total and rate minus the second's, and publishing changes neither.",
 ["histories", "schedules", "inputs"], "every sequence of marks, total changes, resets, passing intervals and readings, in any interleaving with the background ticker",
 "no test exercises a meter; the window advances only every few minutes",
 ["meter.go"],
 [("marks", "meter.go: Mark, Mark64, SetTotal, Reset"), ("window", "meter.go: tick, stats"), ("publication", "meter.go: Rate, Total, Stats; DiffMeter.Stats"), ("background ticker", "meter.go: ticker.register, run")],
 ["Meter.Total, Meter.Rate, Meter.Stats, DiffMeter.Stats"])

prop("C12", "Values and timers lose no observation under concurrency",
 "Every observation made on a value or a timer takes effect exactly once, whatever else runs at the same time, and each publication of a numeric value or timer shows one consistent state: the aggregates of the observations made so far. A timer that is stopped records its elapsed time exactly once, and stopping it again records nothing; boolean values count trues and falses exactly, each observation once, and structure values publish the fields of the latest structure.",
 ["histories", "schedules", "inputs"], "every sequence and interleaving of observations, quantile queries and publications on integer, float, duration, boolean and structure values and timers",
 "no test observes concurrently; the one structure test is sequential",
 ["val.go", "timer.go"],
 [("locked observation", "val.go: Observe methods; timer.go: Stop"), ("publication from a copy", "val.go: Stats methods; timer.go: Stats, Values")],
 ["Stats, Quantile, Values, Stop, Elapsed"])

prop("C13", "Asking twice for the same instrument gives the same instrument",
 "Asking a registry for a scope by name, or a scope for an instrument by kind, name and tags, always returns the one object created for the first request, also when many ask at the same time, and different names or different tag lists give different objects. Asking for a name already used by another kind of instrument panics and leaves the scope usable.",
 ["inputs", "schedules", "histories"], "every name and tag list (separators and escapes included), every kind of instrument, any number of concurrent requests",
 "tests ask for a handful of names from one goroutine",
 ["scope.go", "registry.go"],
 [("double-checked creation", "scope.go: newSource"), ("identity of a name with tags", "scope.go: sourceName, writeSourceNamePart"), ("per-kind accessors", "scope.go: FuncNamed, Meter, IntVal, FloatVal, BoolVal, StructVal, DurationVal, Timer, Counter, DiffMeter, Gauge"), ("scopes", "registry.go: ScopeNamed")],
 ["pointer identity of the returned objects", "the publications of a scope"])

prop("C14", "Publishing statistics covers every instrument, tagged with its scope",
 "Publishing a registry calls back for every statistic of every instrument, gauge and chained source registered in every scope, each exactly once, with the key, field and value the instrument gave and the scope's name added as a tag. Transformers are applied in the order given, to publications through the registry or source they were attached to and to no other; a gauge publishes what its function returns at that time, and registering it again replaces it.",
 ["histories", "configurations", "inputs"], "every set of scopes, instruments, gauges, chains and transformers, in every order of registration, also while others register more",
 "no test publishes more than one scope or uses transformers",
 ["scope.go", "registry.go", "transform.go", "stats.go"],
 [("scope publication", "scope.go: Stats, allNamedSources, Gauge, Chain"), ("registry publication", "registry.go: Stats, Scopes, WithTransformers"), ("transformation", "transform.go: TransformStatSource"), ("collection into a map", "stats.go: Collect"), ("listing functions", "registry.go: Funcs; scope.go: Funcs")],
 ["the callback of Registry.Stats, Scope.Stats, Collect, Registry.Scopes, Registry.Funcs"])

prop("C15", "Tag sets and series keys are immutable values",
 "Adding tags to a tag set or a series key yields a new one holding the old tags with the given ones added or replaced, the last of several with the same key winning, and leaves the original and everything derived from it earlier exactly as it was. An absent tag set acts as an empty one, and what is read from a set (one tag, all tags, their number) always agrees.",
 ["inputs", "histories", "schedules"], "every sequence of derivations from every tag set, with every key and value, shared between goroutines",
 "tests derive one set at a time and do not look at the original again",
 ["tags.go", "stats.go"],
 [("copy on write", "tags.go: SetTags, SetAll, Set"), ("reads", "tags.go: Get, All, Len"), ("keys", "stats.go: WithTag, WithTags")],
 ["TagSet.Get, All, Len, String; SeriesKey.Tags"])

prop("C16", "The text form of a series key is canonical and unambiguous",
 "The text form of a series key is its measurement, then its tags in increasing order of their keys, then, where asked for, the field, with the separators inside the parts escaped. Equal keys always have the same text form, however their tags were added, and two keys that differ in measurement, tags or field have different ones (parts containing a backslash excepted).",
 ["inputs", "schedules"], "every measurement, set of tags and field, also while several goroutines format the same key",
 "tests format a few keys",
 ["tags.go", "stats.go"],
 [("tags in order", "tags.go: writeTags"), ("escaping", "tags.go: writeTag, writeMeasurement"), ("assembly", "stats.go: String, WithField; tags.go: String")],
 ["SeriesKey.String, SeriesKey.WithField, TagSet.String, Collect"])

prop("C17", "Deltas are differences of successive totals of the same series",
 "A delta transformer passes on everything it is given unchanged, and after each total of a series it has seen a total of before it adds that total minus the previous one, under the same key; the first total of a series has no delta. Different series never share a previous total, and the differences of a series add up to its last total minus its first, also when publications run concurrently.",
 ["histories", "schedules", "inputs"], "every sequence of publications of any number of series, in any interleaving",
 "no test uses the delta transformer",
 ["transform.go"],
 [("previous totals", "transform.go: DeltaTransformer.Transform")],
 ["the transformed callback"])

prop("C18", "Trace information survives the trip through HTTP headers",
 "Trace information written to headers and read back is the same: trace id, parent id and sampling for all 64-bit ids, and the allowed baggage entries (free of separators) and no others. Malformed headers never cause a panic and yield no trace or parent id; a request without trace parent is sampled exactly when its trace state asks for it.",
 ["inputs"], "every trace id, parent id, sampling flag, baggage map and allowed list, and every header value",
 "tests use a handful of small ids",
 ["http/info.go"],
 [("writing", "http/info.go: SetHeader"), ("reading", "http/info.go: TraceInfoFromHeader, hexToUint64"), ("from a span", "http/info.go: TraceInfoFromSpan")],
 ["TraceInfoFromHeader, TraceInfo.SetHeader, TraceInfoFromSpan"])

prop("C19", "HTTP tracing is transparent to handlers and clients",
 "A traced handler sees the request it was sent with a span in its context on the trace the headers name, and everything it writes, its status, its headers, its flushes and its panics reach the real response writer unchanged and in order; the span records the request's URI and the status the response had, 200 if none was written. A traced client request is sent once, carries its span's trace information, and returns exactly the response and error of the underlying client, with the span finished either way.",
 ["inputs", "histories", "fault_sequences"], "every sequence of writer calls, every status, writers with and without flushing, failing writers, clients returning errors, any header combination",
 "tests cover one request, one status and a writer that never fails",
 ["http/http.go", "http/server.go", "http/client.go"],
 [("response writer", "http/http.go: Wrap, responseWriterObserver"), ("handler", "http/server.go: ServeHTTP"), ("client", "http/client.go: TraceRequest")],
 ["the wrapped writer, the handler's request, the client's request and response, the span's annotations"])

prop("C20", "Errors are named by the most specific rule, latest handler first",
 "An error is counted under the name given by the most recently added handler that accepts it; if none does, under the name it gives itself; otherwise under the fixed name of its kind (end of file, pipe, buffer, cancellation, timeout, system call, network), and otherwise under the general name. Handlers added at the same time are all kept, handlers are consulted latest first until one accepts and no further, and naming never changes the error.",
 ["inputs", "histories", "schedules"], "every error value, every sequence of handlers accepting or declining, handlers added concurrently with each other and with errors",
 "one test names a few errors without handlers",
 ["error_names.go", "error_names_net.go", "error_names_syscall.go"],
 [("order of rules", "error_names.go: getErrorName"), ("handler list", "error_names.go: AddErrorNameHandler"), ("network errors", "error_names_net.go: getNetErrorName")],
 ["FuncStats.Errors after a failing call"])

prop("C21", "Text and JSON exports are complete and well formed",
 "The JSON exports of spans, functions, statistics and traces are always valid JSON with one element per live span, function, statistic or collected span, each carrying that object's true identity, parents, counts, arguments, annotations, errors and times, whatever text the names and values contain. The text exports show one line or block per object with the same figures, and a write error ends an export and is returned.",
 ["inputs", "histories", "fault_sequences"], "every state of the registry, all names, annotations, arguments and values (not-a-number and infinities included), and writers failing at any point",
 "the exports have no tests",
 ["present/json.go", "present/spans.go", "present/funcs.go", "present/stats.go", "present/trace.go"],
 [("list framing", "present/json.go: listWriter"), ("elements", "present/json.go: formatSpan, formatFinishedSpan, formatFunc, formatDuration"), ("drivers", "present/spans.go, funcs.go, stats.go, trace.go")],
 ["the bytes written"])

prop("C22", "Graph exports are well formed whatever the names contain",
 "The DOT exports of spans and functions are one graph in which every span or function appears as exactly one node and every parent relation as exactly one edge, and no name, argument, annotation or error text can end a label or otherwise alter the graph. The SVG export of a trace is well-formed XML with exactly one bar per collected span, placed by its start and end and coloured by its outcome, also when no time passed.",
 ["inputs", "histories", "fault_sequences"], "every forest of spans and set of functions, all texts, all span times, and writers failing at any point",
 "the exports have no tests",
 ["present/dot.go", "present/spans.go", "present/funcs.go", "present/trace.go"],
 [("label escaping", "present/dot.go: escapeDotLabel"), ("nodes and edges", "present/spans.go: outputDotSpan; present/funcs.go: FuncsDot"), ("drawing", "present/trace.go: SpansToSVG, computeLayoutInformation")],
 ["the bytes written"])

prop("C23", "User callbacks run without internal locks, and locks are always freed",
 "No internal lock is held while the library calls into its user (callbacks, observers, watchers, matchers, transformers, gauges, error handlers, error methods, writers), so such code may call back into the library and never deadlocks (only the keep-alive write and the sampling callback of one waiting trace request run under a lock private to that request). Every operation releases every lock it took, on every path, also when a user callback panics.",
 ["programs", "schedules", "fault_sequences"], "every public operation, every callback it makes, whatever the callback does (calling back, blocking, panicking), in every interleaving",
 "no test calls back into the library from a callback",
 ["registry.go", "scope.go", "span.go", "trace.go", "funcstats.go", "funcset.go", "val.go", "timer.go", "meter.go", "counter.go", "transform.go", "error_names.go", "collect/collect.go", "spinlock.go"],
 [("copy under the lock, call outside it", "all Stats, Iterate, RootSpans, Scopes, Funcs, Children"), ("lock hand-over on every path", "every Lock in the listed files"), ("mutual exclusion of the span lock", "spinlock.go")],
 ["completion of the operation and of every later one"])

prop("C24", "Shared state is only touched under its lock or atomically",
 "All objects that the library hands out may be used from any number of goroutines at once without data races (the raw distributions excepted, which are documented as not safe for that): each piece of shared state is immutable after construction, accessed atomically, or accessed only under its one lock.",
 ["schedules", "programs"], "every pair of operations on the same registry, scope, instrument, function, span, trace, tag set or collector, in every interleaving",
 "tests run on one goroutine",
 ["counter.go", "val.go", "timer.go", "meter.go", "funcstats.go", "funcset.go", "span.go", "trace.go", "registry.go", "scope.go", "tags.go", "transform.go", "error_names.go", "collect/collect.go"],
 [("lock discipline", "the struct comments of the listed files"), ("atomic pointers", "cas_unsafe.go, collect/cas_unsafe.go"), ("span lock", "spinlock.go")],
 ["memory accesses"])

prop("C25", "Ids are distinct and not negative",
 "Generated ids (of traces, spans and functions) are never negative, and ids generated by one process differ from each other for any practical number of requests, also when requested concurrently; two processes start from independent random points.",
 ["histories", "schedules"], "every number and interleaving of requests",
 "no test looks at ids",
 ["id.go"],
 [("counter with an odd stride", "id.go: NewId, init")],
 ["NewId, Span.Id, Trace.Id, Func.Id"])

prop("C26", "The call graph records exactly the callers seen",
 "The callers listed for a function are exactly the functions from whose spans it has been called, and the entry marker if it was ever started without a parent; each is listed once, however often and however concurrently the calls were made.",
 ["histories", "schedules"], "every history of calls from any set of callers, in any interleaving",
 "no test lists callers",
 ["funcset.go", "funcstats.go", "func.go"],
 [("set with a lock-free first element", "funcset.go: Add, Iterate"), ("recording the caller", "funcstats.go: start; ctx.go: newSpan")],
 ["Func.Parents"])

prop("C27", "Monitoring endpoints route, answer and wait correctly",
 "Each documented path of the monitoring endpoint gives its documented presentation with its content type, extra slashes notwithstanding; an unknown path is answered with not found and bad parameters with bad request, never with a panic. A trace request waits for the first span that matches its function pattern or trace id and answers with that trace only; while waiting it keeps the connection alive, a failing keep-alive write ends the wait with that error, and no keep-alive is written once the answer has begun.",
 ["inputs", "schedules", "fault_sequences"], "every path and query, spans starting at any time, keep-alive writes failing or blocking",
 "the endpoint has no tests",
 ["present/path.go", "present/http.go", "present/errs.go", "present/utils.go", "present/trace.go"],
 [("routing", "present/path.go: FromRequest, shift"), ("status codes", "present/errs.go: getStatusCode; present/http.go: ServeHTTP"), ("keep-alive", "present/utils.go: keepAlive, catchPanics")],
 ["FromRequest, HTTP"])

prop("C28", "Environment statistics are registered once each and count pauses once",
 "Registering the environment adds every environment source to the given registry, or to the default one if none is given, so that each is published once per registration; the garbage collection statistics record each observed collection pause at most once, however often and concurrently statistics are published. A source whose system data cannot be read publishes nothing for it and never panics.",
 ["histories", "schedules", "configurations"], "every sequence of publications and collections, from any number of goroutines",
 "tests look at one open-file count and one checksum",
 ["environment/env.go", "environment/runtime.go", "environment/process.go", "environment/os.go", "environment/rusage.go", "environment/proc.go"],
 [("registration", "environment/env.go: Register"), ("pause bookkeeping", "environment/runtime.go: Runtime"), ("checksum computed once", "environment/process.go: processCRC")],
 ["Registry.Stats"])

prop("C30", "Span annotations and arguments are kept faithfully",
 "A span's annotations are exactly those added to it, in order, none lost when several goroutines annotate at once, and what was read earlier does not change. Its arguments are rendered one text per argument, in order, with strings quoted and byte slices in hexadecimal, for arguments of every kind.",
 ["histories", "schedules", "inputs"], "every sequence and interleaving of annotations and readings, every argument list",
 "one test renders a few arguments; none annotates concurrently",
 ["span.go"],
 [("annotation list", "span.go: Annotate, Annotations"), ("arguments", "span.go: Args, interfacesToString")],
 ["Span.Annotations, Span.Args"])

prop("C31", "Trace values behave like a map",
 "Reading a key of a trace returns the value last set for it, or nothing if none was set; reading all returns exactly the keys set with their last values, as a copy that later changes do not affect and whose changes do not affect the trace. This holds for concurrent use.",
 ["histories", "schedules", "inputs"], "every sequence and interleaving of sets and reads, with keys and values of any type",
 "no test sets values concurrently or reads all of them",
 ["trace.go"],
 [("value map", "trace.go: Get, Set, GetAll")],
 ["Trace.Get, Trace.GetAll"])

prop("C32", "Automatically derived names are those of the calling code",
 "A function or task created without a name is named after the function that asked for it, without its package path (methods and closures included), and a scope created without a name after the calling package's full path (with a leading slash where the path has none). A task derived once keeps its name for good, whichever goroutine uses it first.",
 ["programs", "schedules"], "every calling function: plain functions, methods, closures, generic functions, packages with dots and slashes in their path, first use from any goroutine",
 "tests name a few plain functions",
 ["callers.go", "scope.go", "ctx.go", "registry.go"],
 [("frame lookup", "callers.go: callerFunc, callerPackage"), ("name extraction", "callers.go: extractFuncName"), ("depths", "ctx.go: Scope.Task; scope.go: Func; registry.go: Package")],
 ["Func.ShortName, Func.FullName, Scope.Name"])

prop("C33", "Publishing a structure covers each of its numeric fields",
 "Publishing a structure's statistics calls back once for every exported numeric or boolean field, nested structures included, with its value as a number.",
 ["inputs"], "every structure type",
 "one test publishes one structure",
 ["struct.go"],
 [("reflection walk", "struct.go: StatSourceFromStruct")],
 ["StatSourceFromStruct(...).Stats"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
