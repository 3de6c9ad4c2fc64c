From 5132379afdf0560e1488f84caf256e19e6c191a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:20 +0000
Subject: [PATCH 01/14] fix: quantiles of an emptied distribution must not
 report discarded samples

Reset only zeroes Count, so Query on a distribution that was reset and not
yet observed again returned reservoir[0], a sample from before the reset.
---
 distgen.go.m4 | 3 +++
 durdist.go    | 3 +++
 floatdist.go  | 3 +++
 intdist.go    | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/distgen.go.m4 b/distgen.go.m4
index 28e2889..7e5a2c0 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -129,6 +129,9 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 		rlen = int(d.Count)
 	}
 
+	if rlen < 1 {
+		return 0
+	}
 	if rlen < 2 {
 		return _TYPE_`(d.reservoir[0])'
 	}
diff --git a/durdist.go b/durdist.go
index 4d2a281..354021e 100644
--- a/durdist.go
+++ b/durdist.go
@@ -129,6 +129,9 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 		rlen = int(d.Count)
 	}
 
+	if rlen < 1 {
+		return 0
+	}
 	if rlen < 2 {
 		return time.Duration(d.reservoir[0])
 	}
diff --git a/floatdist.go b/floatdist.go
index 359eaa6..f90ccfa 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -128,6 +128,9 @@ func (d *FloatDist) Query(quantile float64) float64 {
 		rlen = int(d.Count)
 	}
 
+	if rlen < 1 {
+		return 0
+	}
 	if rlen < 2 {
 		return float64(d.reservoir[0])
 	}
diff --git a/intdist.go b/intdist.go
index 07817ac..050cc3d 100644
--- a/intdist.go
+++ b/intdist.go
@@ -128,6 +128,9 @@ func (d *IntDist) Query(quantile float64) int64 {
 		rlen = int(d.Count)
 	}
 
+	if rlen < 1 {
+		return 0
+	}
 	if rlen < 2 {
 		return int64(d.reservoir[0])
 	}
-- 
2.43.0


From 7dbd41881263a03f5b32f23f4fcf1636a04eeea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:20 +0000
Subject: [PATCH 02/14] fix: propagate trace and span ids with the top bit set

Ids are parsed as unsigned 64 bit hex but were formatted as signed numbers,
so a negative id produced a traceparent with an extra '-' that the receiving
side rejects.
---
 http/info.go   | 2 +-
 http/server.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/http/info.go b/http/info.go
index 58c4e95..ec192db 100644
--- a/http/info.go
+++ b/http/info.go
@@ -153,7 +153,7 @@ func (r TraceInfo) SetHeader(header HeaderSetter) {
 		sampled = traceSampled
 	}
 	if r.TraceId != nil && r.ParentId != nil {
-		header.Set(traceParentHeader, fmt.Sprintf("00-%016x-%08x-%x", *r.TraceId, *r.ParentId, int(sampled)))
+		header.Set(traceParentHeader, fmt.Sprintf("00-%016x-%08x-%x", uint64(*r.TraceId), uint64(*r.ParentId), int(sampled)))
 	} else if r.Sampled {
 		header.Set(traceStateHeader, orphanSampling)
 	}
diff --git a/http/server.go b/http/server.go
index 861304d..4c8b783 100644
--- a/http/server.go
+++ b/http/server.go
@@ -63,8 +63,8 @@ func (t traceHandler) ServeHTTP(writer http.ResponseWriter, request *http.Reques
 
 	wrapped, statusCode := Wrap(writer)
 	if info.ParentId == nil && info.Sampled {
-		writer.Header().Set(traceIDHeader, fmt.Sprintf("%x", s.Trace().Id()))
-		writer.Header().Set(childIDHeader, fmt.Sprintf("%x", s.Id()))
+		writer.Header().Set(traceIDHeader, fmt.Sprintf("%x", uint64(s.Trace().Id())))
+		writer.Header().Set(childIDHeader, fmt.Sprintf("%x", uint64(s.Id())))
 	}
 	t.handler.ServeHTTP(wrapped, request.WithContext(s))
 
-- 
2.43.0


From 2bfd19fbf4d93ea95387e24615b1a65ebee6b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:20 +0000
Subject: [PATCH 03/14] fix: CollectSpans must unregister its span observer

The collector stayed registered on the trace for the rest of its life.
---
 collect/ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collect/ctx.go b/collect/ctx.go
index ae58acc..1fbe60b 100644
--- a/collect/ctx.go
+++ b/collect/ctx.go
@@ -58,7 +58,7 @@ func CollectSpans(ctx context.Context, work func(ctx context.Context)) (
 	}
 	collector := NewSpanCollector(nil)
 	defer collector.Stop()
-	s.Trace().ObserveSpans(collector)
+	defer s.Trace().ObserveSpans(collector)()
 	f := s.Func()
 	newF := f.Scope().FuncNamed(fmt.Sprintf("%s-TRACED", f.ShortName()))
 	func() {
-- 
2.43.0


From 7428aa87b6d7a7b708224150e5c8bf5b0d68eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:20 +0000
Subject: [PATCH 04/14] fix: do not name errors while holding the function
 stats mutex

Error name handlers and Name methods are user code: one that reads the same
function's stats deadlocked, and one that panicked left the mutex locked.
---
 funcstats.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/funcstats.go b/funcstats.go
index 0d24efc..bcdc211 100644
--- a/funcstats.go
+++ b/funcstats.go
@@ -87,6 +87,11 @@ func (f *FuncStats) start(parent *Func) {
 
 func (f *FuncStats) end(err error, panicked bool, duration time.Duration) {
 	atomic.AddInt64(&f.current, -1)
+	var errname string
+	if err != nil && !panicked {
+		// this calls user code, so it must happen outside of the mutex.
+		errname = getErrorName(err)
+	}
 	f.parentsAndMutex.Lock()
 	if panicked {
 		f.panics += 1
@@ -100,7 +105,7 @@ func (f *FuncStats) end(err error, panicked bool, duration time.Duration) {
 		return
 	}
 	f.failureTimes.Insert(duration)
-	f.errors[getErrorName(err)] += 1
+	f.errors[errname] += 1
 	f.parentsAndMutex.Unlock()
 }
 
-- 
2.43.0


From 10398ba02830161f3b1a970cee9d107ff8dc9eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:06 +0000
Subject: [PATCH 05/14] fix: StatsJSON must not abort on values JSON cannot
 represent

A NaN value (as an empty Counter reports for high and low) made the list
writer fail, truncating the document and losing all remaining values.
---
 present/stats.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/present/stats.go b/present/stats.go
index e9e315a..d69febe 100644
--- a/present/stats.go
+++ b/present/stats.go
@@ -17,6 +17,7 @@ package present
 import (
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -41,7 +42,13 @@ func StatsText(r *monkit.Registry, w io.Writer) (err error) {
 func StatsJSON(r *monkit.Registry, w io.Writer) (err error) {
 	lw := newListWriter(w)
 	r.Stats(func(key monkit.SeriesKey, field string, val float64) {
-		lw.elem([]interface{}{key.Measurement, key.Tags.All(), field, val})
+		var jsval interface{} = val
+		if math.IsNaN(val) || math.IsInf(val, 0) {
+			// JSON has no way to represent these, and failing to encode one value
+			// would lose all of the remaining ones.
+			jsval = nil
+		}
+		lw.elem([]interface{}{key.Measurement, key.Tags.All(), field, jsval})
 	})
 	return lw.done()
 }
-- 
2.43.0


From e2eedd066870f0780a7a956be53e3a2f3bf06c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:06 +0000
Subject: [PATCH 06/14] fix: different names and tags must not share a stat
 source

The scope joined names and tags without escaping, so sources with
different tags (k="a,b=c" and k="a",b="c") were merged, and a source
named like a function in its namespace (func:x) made FuncNamed panic.
---
 scope.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/scope.go b/scope.go
index fba109d..004dc38 100644
--- a/scope.go
+++ b/scope.go
@@ -76,16 +76,33 @@ func sourceName(namespace, name string, tags []SeriesTag) string {
 	var sourceName strings.Builder
 	sourceName.Grow(sourceNameSize)
 	sourceName.WriteString(namespace)
-	sourceName.WriteString(name)
+	writeSourceNamePart(&sourceName, name)
 	for _, tag := range tags {
 		sourceName.WriteByte(',')
-		sourceName.WriteString(tag.Key)
+		writeSourceNamePart(&sourceName, tag.Key)
 		sourceName.WriteByte('=')
-		sourceName.WriteString(tag.Val)
+		writeSourceNamePart(&sourceName, tag.Val)
 	}
 	return sourceName.String()
 }
 
+// writeSourceNamePart writes part to the builder, escaping the separators that
+// sourceName uses, so that different names and tags have different source
+// names.
+func writeSourceNamePart(builder *strings.Builder, part string) {
+	const separators = "\\:,="
+	if !strings.ContainsAny(part, separators) {
+		builder.WriteString(part)
+		return
+	}
+	for i := 0; i < len(part); i++ {
+		if strings.IndexByte(separators, part[i]) >= 0 {
+			builder.WriteByte('\\')
+		}
+		builder.WriteByte(part[i])
+	}
+}
+
 // FuncNamed retrieves or creates a Func named using the given name and
 // SeriesTags. See Func() for automatic name determination.
 //
@@ -264,18 +281,20 @@ func (s *Scope) Counter(name string, tags ...SeriesTag) *Counter {
 func (s *Scope) Gauge(name string, cb func() float64) {
 	type gauge struct{ StatSource }
 
+	sourceName := sourceName("", name, nil)
+
 	// gauges allow overwriting
 	s.mtx.Lock()
 	defer s.mtx.Unlock()
 
-	if source, exists := s.sources[name]; exists {
+	if source, exists := s.sources[sourceName]; exists {
 		if _, ok := source.(gauge); !ok {
 			panic(fmt.Sprintf("%s already used for another stats source: %#v",
 				name, source))
 		}
 	}
 
-	s.sources[name] = gauge{StatSource: StatSourceFunc(
+	s.sources[sourceName] = gauge{StatSource: StatSourceFunc(
 		func(scb func(key SeriesKey, field string, value float64)) {
 			scb(NewSeriesKey(name), "value", cb())
 		}),
-- 
2.43.0


From 405122ffbdf13ebdafd3a583f4568ea2b411e160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:06 +0000
Subject: [PATCH 07/14] fix: SpansToSVG must not divide by zero when no time
 elapsed

---
 present/trace.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/present/trace.go b/present/trace.go
index dcbc720..dc3c39f 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -270,6 +270,10 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 	graphHeight := (barHeight+barSep)*maxRow + 20
 
 	timeToX := func(t time.Time) int {
+		if !maxEnd.After(minStart) {
+			// no time elapsed at all
+			return 0
+		}
 		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) /
 			(maxEnd.UnixNano() - minStart.UnixNano()))
 	}
-- 
2.43.0


From 9d42d9625d0bd4213082b6f483bc23858144f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:06 +0000
Subject: [PATCH 08/14] fix: TagSet must be safe for concurrent use

TagSets are immutable and shared between keys, but String cached its
result without any synchronization.
---
 tags.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tags.go b/tags.go
index d52bcaf..addd181 100644
--- a/tags.go
+++ b/tags.go
@@ -17,6 +17,7 @@ package monkit
 import (
 	"sort"
 	"strings"
+	"sync/atomic"
 )
 
 // SeriesTag is a key/value pair. When used with a measurement name, each set
@@ -33,7 +34,7 @@ func NewSeriesTag(key, val string) SeriesTag {
 // TagSet is an immutible collection of tag, value pairs.
 type TagSet struct {
 	all map[string]string
-	str string // cached string form
+	str atomic.Value // cached string form
 }
 
 // Get returns the value associated with the key.
@@ -99,12 +100,14 @@ func (t *TagSet) String() string {
 	if t == nil {
 		return ""
 	}
-	if t.str == "" {
+	str, ok := t.str.Load().(string)
+	if !ok {
 		var builder strings.Builder
 		t.writeTags(&builder)
-		t.str = builder.String()
+		str = builder.String()
+		t.str.Store(str)
 	}
-	return t.str
+	return str
 }
 
 // writeTags writes the tags in the tag set to the builder.
-- 
2.43.0


From 5c64abda2461c957e90a4c82b2b99a925d22ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:06 +0000
Subject: [PATCH 09/14] fix: record each garbage collection pause once

The last seen collection was never remembered, so every scrape inserted
the most recent pause again, and concurrent scrapes raced on the
distribution.
---
 environment/runtime.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/environment/runtime.go b/environment/runtime.go
index 4b6dfe4..0be3edb 100644
--- a/environment/runtime.go
+++ b/environment/runtime.go
@@ -20,6 +20,7 @@ package environment
 import (
 	"runtime"
 	"runtime/debug"
+	"sync"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -29,6 +30,7 @@ import (
 // other live memory data. Not expected to be called directly, as this
 // StatSource is added by Register.
 func Runtime() monkit.StatSource {
+	var mtx sync.Mutex // protects durDist and lastNumGC
 	durDist := monkit.NewDurationDist(monkit.NewSeriesKey("runtime_gcstats"))
 	lastNumGC := int64(0)
 
@@ -44,10 +46,14 @@ func Runtime() monkit.StatSource {
 		{
 			var stats debug.GCStats
 			debug.ReadGCStats(&stats)
-			if lastNumGC != stats.NumGC && len(stats.Pause) > 0 {
+			mtx.Lock()
+			if stats.NumGC > lastNumGC && len(stats.Pause) > 0 {
 				durDist.Insert(stats.Pause[0])
+				lastNumGC = stats.NumGC
 			}
-			durDist.Stats(cb)
+			dist := durDist.Copy()
+			mtx.Unlock()
+			dist.Stats(cb)
 		}
 	})
 }
-- 
2.43.0


From 299b5936d46e31e779ded73598146d5de2d36ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:04 +0000
Subject: [PATCH 10/14] fix: name scopes after the calling package also when
 the caller is inlined

---
 callers.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/callers.go b/callers.go
index e9cec27..5526ccf 100644
--- a/callers.go
+++ b/callers.go
@@ -25,10 +25,11 @@ func callerPackage(frames int) string {
 		return "unknown"
 	}
 	frame, _ := runtime.CallersFrames(pc[:]).Next()
-	if frame.Func == nil {
+	// frame.Func is nil when the calling function was inlined.
+	if frame.Function == "" {
 		return "unknown"
 	}
-	slash_pieces := strings.Split(frame.Func.Name(), "/")
+	slash_pieces := strings.Split(frame.Function, "/")
 	dot_pieces := strings.SplitN(slash_pieces[len(slash_pieces)-1], ".", 2)
 	return strings.Join(slash_pieces[:len(slash_pieces)-1], "/") + "/" + dot_pieces[0]
 }
-- 
2.43.0


From 3afdf6adb4d8969670247990b2bd21347278fa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:26 +0000
Subject: [PATCH 11/14] fix: Task.Func must not race with the first call of the
 task

---
 ctx.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctx.go b/ctx.go
index d0fad0b..f5c5b8d 100644
--- a/ctx.go
+++ b/ctx.go
@@ -209,11 +209,12 @@ func (s *Scope) Task(tags ...SeriesTag) Task {
 	return Task(func(ctx *context.Context,
 		args ...interface{}) func(*error) {
 		ctx = cleanCtx(ctx)
-		if ctx == &taskSecret && taskArgs(f, args) {
+		if ctx == &taskSecret && taskArgs(loadFunc(&f), args) {
 			return nil
 		}
 		initOnce.Do(func() {
-			f = s.FuncNamed(callerFunc(3), tags...)
+			// atomic, because Task.Func may be loading f at the same time.
+			compareAndSwapFunc(&f, nil, s.FuncNamed(callerFunc(3), tags...))
 		})
 		s, exit := newSpan(*ctx, f, args, nil, nil)
 		if ctx != &unparented {
-- 
2.43.0


From 0e74fc8faad71f49a4186a887e435aa8a5f52036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:46 +0000
Subject: [PATCH 12/14] fix: TraceRequest panicked on sampled requests without
 headers

---
 http/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/client.go b/http/client.go
index aa2db08..a3af8d7 100644
--- a/http/client.go
+++ b/http/client.go
@@ -20,6 +20,10 @@ func TraceRequest(ctx context.Context, scope *monkit.Scope, cl Client, req *http
 
 	s := monkit.SpanFromCtx(ctx)
 	s.Annotate("http.uri", req.URL.String())
+	if req.Header == nil {
+		// http.Client.Do accepts such requests, too
+		req.Header = make(http.Header)
+	}
 	TraceInfoFromSpan(s).SetHeader(req.Header)
 	resp, err = cl.Do(req)
 	if err != nil {
-- 
2.43.0


From f2c3d882183b28c4422951cefaeb27fbead9f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:31 +0000
Subject: [PATCH 13/14] fix: FuncsText lost a write error that occurred while
 listing parents

---
 present/funcs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/present/funcs.go b/present/funcs.go
index 131fb2f..9ccae75 100644
--- a/present/funcs.go
+++ b/present/funcs.go
@@ -153,6 +153,9 @@ func FuncsText(r *monkit.Registry, w io.Writer) (err error) {
 				}
 			}
 		})
+		if err != nil {
+			return
+		}
 		var err_out bytes.Buffer
 		total_errors := int64(0)
 		for errname, count := range f.Errors() {
-- 
2.43.0


From 50f4622be30c2e5b9d45325ab507d2c19283a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:54 +0000
Subject: [PATCH 14/14] fix: keep-alives of trace requests stayed in the
 response buffer

---
 present/path.go  |  9 ++++++---
 present/trace.go |  5 ++++-
 present/utils.go | 28 ++++++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/present/path.go b/present/path.go
index 29f7198..e6209e8 100644
--- a/present/path.go
+++ b/present/path.go
@@ -91,12 +91,12 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 		// wrap all functions with buffering
 		unbuffered := f
 		f = func(w io.Writer) (err error) {
-			buf := bufio.NewWriter(w)
+			buf := bufferedWriter{Writer: bufio.NewWriter(w), dest: w}
 			err = unbuffered(buf)
 			if err != nil {
 				return err
 			}
-			err = buf.Flush()
+			err = buf.Writer.Flush()
 			return err
 		}
 	}()
@@ -226,7 +226,10 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 
 				ctx, stop := keepAlive(context.TODO(), func(context.Context) error {
 					_, err := w.Write([]byte("\n"))
-					return err
+					if err != nil {
+						return err
+					}
+					return flush(w)
 				})
 				defer stop()
 
diff --git a/present/trace.go b/present/trace.go
index dc3c39f..afd26b6 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -435,7 +435,10 @@ func watchForSpansWithKeepalive(ctx context.Context, reg *monkit.Registry, w io.
 
 	ctx, stop := keepAlive(ctx, func(context.Context) error {
 		_, err := w.Write(keepalive)
-		return err
+		if err != nil {
+			return err
+		}
+		return flush(w)
 	})
 	defer stop()
 
diff --git a/present/utils.go b/present/utils.go
index a2d3d7d..e300cb6 100644
--- a/present/utils.go
+++ b/present/utils.go
@@ -15,8 +15,11 @@
 package present
 
 import (
+	"bufio"
 	"context"
 	"fmt"
+	"io"
+	"net/http"
 	"sync"
 	"time"
 )
@@ -100,3 +103,28 @@ func catchPanics(cb func(context.Context) error) func(context.Context) error {
 		return cb(ctx)
 	}
 }
+
+// bufferedWriter buffers writes to dest. Flush makes sure that what has been
+// written so far is really sent, also if dest is an http.ResponseWriter.
+type bufferedWriter struct {
+	*bufio.Writer
+	dest io.Writer
+}
+
+func (b bufferedWriter) Flush() error {
+	if err := b.Writer.Flush(); err != nil {
+		return err
+	}
+	if f, ok := b.dest.(http.Flusher); ok {
+		f.Flush()
+	}
+	return nil
+}
+
+// flush flushes w if it is buffered.
+func flush(w io.Writer) error {
+	if f, ok := w.(interface{ Flush() error }); ok {
+		return f.Flush()
+	}
+	return nil
+}
-- 
2.43.0

