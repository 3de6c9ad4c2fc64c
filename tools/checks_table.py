MATHF = "floating point addition in running sums is an uninterpreted function (sums are 'the fold of the values in order', exactly what the code computes); float comparison is IEEE"
check("C08", "Every method of Counter is proved against a whole-state contract with the counter's invariant (low <= val <= high once set) under its mutex, for all inputs with 64-bit wrap-around arithmetic.",
      "operation sequences up to length 5 and random ones against a reference, and concurrent histories checked for linearizability under explored schedules.")
check("C09", "Insert, Reset, Copy, FullAverage and Stats of the three distributions are proved against ghost-free whole-state contracts: count, sum, low, high, recent exactly updated, nothing else changed.",
      "random insertion sequences against a reference.", [MATHF])
check("C10", "The reservoir update, the sortedness handling and Query of the three distributions are proved: sampled values are old samples or the inserted value, at most one position changes, results are interpolations between adjacent sorted samples, clamped at the ends.",
      "random sequences against exact order statistics; statistical ageing of the reservoir.", [MATHF, "sort.Sort and the like are modelled: the result is a sorted permutation", "the pseudo-random source returns any value in range"])
check("C11", "Mark, Rate, Total, Reset, SetTotal, Stats, the shared ticker's registration, its endless loop (one round = one contract) and the rotation are proved against contracts over the ring of slices: the sum over slots equals total marks, windows rotate by one.",
      "random mark/tick sequences on a virtual clock against a reference; concurrent marks and ticks under explored schedules.", [MATHF, "time.Sleep is trusted to sleep that long; the loop of the ticker goroutine is proved round by round (Sleep, then every registered meter ticked once)"])
check("C12", "All observation and publication methods of IntVal, FloatVal, BoolVal, StructVal, DurationVal, RawVal and Timer are proved: exactly one insertion per call under the value's lock, one consistent copy published.",
      "random sequences and concurrent histories under explored schedules.", [MATHF])
SCHED = "atomic operations and lock sections are the steps other goroutines can see (sequential consistency, as Go's memory model gives race-free programs)"
check("C01", "start, end, Observe, Stats and the accessors of function statistics are proved against whole-state contracts: one call, one class, the current count and the high-water mark maintained by the retry loop, published figures equal to the stored ones; the exit function of a task is proved to call end exactly once with the call's error, panic flag and elapsed time.",
      "random histories of calls against a reference; concurrent calls under explored schedules.", [SCHED])
check("C02", "The exit function of a task and Observe's are proved, for every error pointer and every panic value, to leave the error alone and to panic on with the same value exactly when the call panicked; Task, RemoteTrace and ResetTrace are proved to substitute a background context for a missing one and to store the new context only where one was given.",
      "panics, errors and contexts of every kind through the public API.", [SCHED, "Span embeds its context, so that deadline and cancellation are delegated by the language"])
check("C03", "addChild, removeChild, orphan, Children, the root and orphan tables, the listing of all spans, the span count of a trace, and the beginning and end of a span in newSpan are proved against contracts over the sets of live spans.",
      "random span forests against a reference; concurrent starts, ends and listings under explored schedules.", [SCHED, "a span is added to its parent once (newSpan is the only caller of addChild)"])
check("C04", "newSpan is proved to choose trace, parent, parent id and context by the rules of the property for every kind of context; Task, RemoteTrace, ResetTrace, SpanFromCtx, Span.Value, ResetContextSpan and the accessors are proved against theirs.",
      "random nestings through the public API.", ["Value of a foreign context is a function of context and key"])
check("C05", "Registration, cancellation and lookup in the lock-free observer list, the fan-out to the observers in order, and the notifications in newSpan and its exit function are proved.",
      "random registration histories against a reference; concurrent ones under explored schedules.", [SCHED])
check("C06", "observeTrace, ObserveTraces and its cancellation are proved against the watcher table; newSpan, RemoteTrace and ResetTrace are proved to report a new or joined trace before the span starts.",
      "random histories against a reference; concurrent ones under explored schedules.", [SCHED])
check("C15", "Every operation on tag sets and series keys is proved to return exactly the updated mapping and to leave its receiver unchanged.",
      "random derivation trees compared with reference maps.")
check("C16", "The writing of measurement, tags in key order, field and escapes is proved character by character against a specification of the text form.",
      "random keys compared with a reference formatter and with each other.", ["sorting is modelled: the result is the sorted permutation"])
check("C17", "Transform is proved: it passes every publication on, and a delta exactly when the series has a previous total, which it replaces by the new one under its lock.",
      "random and concurrent publications against a reference.")
check("C25", "init is proved to choose an odd stride of at least three, NewId to advance the counter by it atomically and to return its upper 63 bits; lemmas prove that an odd stride visits every counter value before repeating one and that neighbouring ids differ.",
      "a million ids from many goroutines.", ["crypto/rand and math/rand return arbitrary values", "two ids further apart can coincide only if the stride's inverse is small, which a random stride makes negligible: this residual probability is not proved"])
check("C26", "Add and Iterate of the caller set and the recording of the caller in start are proved against the set of callers.",
      "random and concurrent call graphs against a reference.", [SCHED])
check("C30", "Annotate and Annotations are proved to append and copy the list of annotations under the span's lock.",
      "the rendering of arguments of every kind (strconv, hex and fmt are outside the verifier's reach) and concurrent annotations.")
check("C31", "Get, Set and GetAll are proved against the mapping of a trace's values under its lock, GetAll returning a fresh copy.",
      "random and concurrent histories against a reference map.")
NA = {"C33": "StatSourceFromStruct walks arbitrary structures with package reflect; no contract within gvc's reach (nor any installed Go verifier) can express reflect's view of a value, and a model of it would not be the code"}
check("C13", "sourceName, newSource, newFunc, ScopeNamed and every method of Scope that hands out an instrument are proved: the same kind, name and tags give the object stored under their unique name, a different kind of object there is refused by a panic, and a new one carries exactly its name and tags.",
      "random and concurrent requests against a reference table; that the unique name is injective in kind, name and tags.", [SCHED])
check("C14", "Stats, Funcs and Scopes of scopes and registries, transformer chains, gauges, chained sources, Collect and the wrappers around the default registry are proved to visit every registered source exactly once, outside the lock, through the transformers in order, with the scope tag added.",
      "random registrations against a reference, concurrently with publication.", [SCHED])
check("C20", "AddErrorNameHandler and the whole of getErrorName with its helpers are proved: handlers latest first until one accepts, then the error's own name, then the table of kinds in order.",
      "errors of every kind, wrapped and not; concurrent registration.", [SCHED, "errors.Is and type assertions against library error types are pure queries on the error"])

check("C18", "hexToUint64, TraceInfoFromHeader, TraceInfoFromSpan and SetHeader are proved: which headers are read and written and with which text, that malformed trace parents give no ids and never panic, and that the baggage read is exactly the last value of each allowed key.",
      "the round trip through the text form (what package fmt writes, strconv parses back) for random and extreme ids, baggage and malformed headers.", ["fmt, strconv and strings are deterministic functions of their arguments; that hexadecimal text parses back to the number is left to the stand-in"])
check("C19", "Wrap, the response observer, TraceHandler, ServeHTTP and TraceRequest are proved: every call is passed on once with its arguments and results, the span begins before and ends after the inner call, trace information is written before the request is sent, and response and error are returned unchanged.",
      "real handlers and clients with panics, flushes and errors.", [SCHED, "a client that reports no error returns a response", "the context made by RemoteTrace or Task carries a span unless an observer replaced it"])
check("C32", "extractFuncName, callerFunc, callerPackage and Package are proved: what is cut out of the frame's function name, and what is answered when there is none.",
      "how deep the frame lies (runtime.Callers is outside the verifier's reach), for plain functions, methods, closures and generic functions, from many goroutines.", ["strings.Split, SplitN and Join are deterministic functions"])

check("C28", "Register, OS, Process, Runtime, Rusage, Proc and their helpers are proved: every source is chained once to the right registry, a source whose data cannot be read publishes nothing for it, and under the captured lock a pause is inserted exactly when the collection count has grown, which is then remembered.",
      "registration and concurrent publication against real system data.", [SCHED, "the system call wrappers of packages os, syscall, runtime and debug return anything", "fewer than 2^62 pauses", "StatSourceFromStruct is trusted (C33)"])
check("C23", "For every function under contract, on every path, it is proved that no internal lock is held where a callback, an observer or any other user code is called, that no lock is taken twice, and that every lock taken is released.",
      "re-entrant and panicking callbacks through the whole public API, under a time limit.", [SCHED, "a deferred release runs also when a callback panics (the language guarantees it)"])
check("C24", "For every function under contract it is proved that each access to a field declared guarded, atomic or immutable holds the lock, is atomic, or happens before the object is shared; the declarations cover the fields of all shared types.",
      "concurrent use of the whole public API under the race detector.", [SCHED])
check("C07", "SpanCollector (Start, Stop, ForceStart, Finish, Done, WatchForSpans, ObserveAllTraces, CollectSpans, FindSpan) is proved: what is gathered under the collector's lock, when gathering begins and ends, the done signal closed once, what callers wait for and which cancelers they run.",
      "the order in which Spans lists the gathered spans (it recurses through a local function variable, outside the verifier's reach), and random and concurrent collections under explored schedules.", [SCHED])
WRITERS = "what a writer, an encoder or package fmt does with its arguments is opaque (any result, any error)"
check("C21", "The list framing, the JSON elements of live and finished spans, functions, statistics and durations, and the text and JSON exports of spans, statistics and traces are proved: which figures go into each element, one element per object, first write error returned, nothing written after it.",
      "valid JSON for every text (encoding/json is outside the verifier's reach), the text export of functions, quantiles, and failing writers.", [WRITERS, "every value in monkit.ObservedQuantiles is a number"])
check("C22", "escapeDotLabel is proved to be an injective image of the text byte by byte in which no byte can end a label; the DOT export of spans is proved to write one node per span with the escaped label and one edge per child, in order, up to the first write error.",
      "the DOT export of functions (nested callbacks over buffers) and the SVG export (templates and a tree of rows), for random forests, texts and times.", [WRITERS])
check("C27", "shift, FromRequest and the functions it returns, the error kinds and status codes, ServeHTTP, TraceQueryJSON, TraceQuerySVG and the watch with keep-alive are proved: which presentation and content type every path leads to, which requests are refused with which error, that the answer starts only after the keep-alive stopped, and that its write error is returned; and the keep-alive itself: its goroutine, round by round, pings only while it holds the mutex and neither stop nor a failed ping came before, cancels the watch on the first failed ping and ends only when told to; stop, once it returns, has ended all pings and returns the ping's error.",
      "the schedules of the keep-alive goroutine, the remote trace page and the matchers, through FromRequest and HTTP.", [SCHED, WRITERS, "url.Values.Get and regular expressions are deterministic functions", "context.WithCancel and time.NewTicker may return anything that is not nil"])
