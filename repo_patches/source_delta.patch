From 26173e9c0c30522fd6b71ed8d7baf728eca788b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:09 +0000
Subject: [PATCH 01/24] fix: do not collect from instruments that every reader
 dropped

A synchronous instrument dropped by all readers has no observer; the nil
entry made every later collection of the meter panic.
---
 lightstep/sdk/metric/meter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/meter.go b/lightstep/sdk/metric/meter.go
index 90e877d..b763056 100644
--- a/lightstep/sdk/metric/meter.go
+++ b/lightstep/sdk/metric/meter.go
@@ -173,8 +173,8 @@ func configureInstrument[T any](
 
 	if inst != nil {
 		m.byDesc[desc] = inst
+		*listPtr = append(*listPtr, inst)
 	}
-	*listPtr = append(*listPtr, inst)
 	if err != nil {
 		// Handle instrument creation errors when they're new,
 		// not for repeat entries above.
-- 
2.43.0


From 8edae05f24506d190133d797544d24ab64047c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:09 +0000
Subject: [PATCH 02/24] fix: truncating attributes no longer modifies the
 caller's slice

---
 lightstep/sdk/metric/sdkinstrument/performance.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/sdkinstrument/performance.go b/lightstep/sdk/metric/sdkinstrument/performance.go
index fce29c5..47e2c62 100644
--- a/lightstep/sdk/metric/sdkinstrument/performance.go
+++ b/lightstep/sdk/metric/sdkinstrument/performance.go
@@ -101,14 +101,24 @@ func (p Performance) TruncateAttributes(attrs []attribute.KeyValue) []attribute.
 	if sizeLimit == 0 {
 		return attrs
 	}
+	// The input belongs to the caller, copy before the first modification.
+	copied := false
+	modify := func() {
+		if !copied {
+			attrs = append([]attribute.KeyValue(nil), attrs...)
+			copied = true
+		}
+	}
 	for idx, kv := range attrs {
 		if len(kv.Key) > int(sizeLimit) {
+			modify()
 			attrs[idx].Key = kv.Key[:sizeLimit]
 		}
-		switch attrs[idx].Value.Type() {
+		switch kv.Value.Type() {
 		case attribute.STRING:
 			s := kv.Value.AsString()
 			if len(s) > int(sizeLimit) {
+				modify()
 				attrs[idx].Value = attribute.StringValue(s[:sizeLimit])
 			}
 
@@ -122,6 +132,7 @@ func (p Performance) TruncateAttributes(attrs []attribute.KeyValue) []attribute.
 				}
 			}
 			if any {
+				modify()
 				attrs[idx].Value = attribute.StringSliceValue(ss)
 			}
 		}
-- 
2.43.0


From a73aa20b149bab5ffa4baa5fbda5c34e40a2d5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:09 +0000
Subject: [PATCH 03/24] fix: unregister callbacks under the meter lock without
 in-place edits

A concurrent registration could be lost, and a concurrent collection could
skip one callback or run another twice.
---
 lightstep/sdk/metric/meter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lightstep/sdk/metric/meter.go b/lightstep/sdk/metric/meter.go
index b763056..72a0ef7 100644
--- a/lightstep/sdk/metric/meter.go
+++ b/lightstep/sdk/metric/meter.go
@@ -99,12 +99,18 @@ func (mr *metricRegistration) Unregister() error {
 	}
 
 	mycb := mr.callback
+
+	// The slice may be in use by a concurrent collection, so it is
+	// copied, not modified in place.
+	mr.meter.lock.Lock()
+	defer mr.meter.lock.Unlock()
 	cbs := mr.meter.callbacks
 
 	for i := 0; i < len(cbs); i++ {
 		if mycb == cbs[i] {
-			cbs[i] = cbs[len(cbs)-1]
-			mr.meter.callbacks = cbs[:len(cbs)-1]
+			keep := make([]*asyncstate.Callback, 0, len(cbs)-1)
+			keep = append(keep, cbs[:i]...)
+			mr.meter.callbacks = append(keep, cbs[i+1:]...)
 			break
 		}
 	}
-- 
2.43.0


From a01cdab66f99e6c6b489d905b232d9e1bbcd80a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:09 +0000
Subject: [PATCH 04/24] fix: convert negative int64 numbers to float64
 correctly

---
 lightstep/sdk/metric/number/number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/number/number.go b/lightstep/sdk/metric/number/number.go
index ee4dd61..28d0272 100644
--- a/lightstep/sdk/metric/number/number.go
+++ b/lightstep/sdk/metric/number/number.go
@@ -40,7 +40,7 @@ type Any interface {
 // CoerceToFloat64 converts Number to float64 according to Kind.
 func (n Number) CoerceToFloat64(k Kind) float64 {
 	if k == Int64Kind {
-		return float64(n)
+		return float64(int64(n))
 	}
 	return math.Float64frombits(uint64(n))
 }
-- 
2.43.0


From 2f903bec729a1c6268cd46a26df4103c2829477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:09 +0000
Subject: [PATCH 05/24] fix: export int64 minmaxsumcount min and max as
 numbers, not bit patterns

---
 lightstep/sdk/metric/internal/export/export.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index a226228..dde7b14 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -252,8 +252,8 @@ func copyMMSCPoints(m pmetric.Metric, inM data.Instrument) {
 			dp.SetSum(t.Sum().CoerceToFloat64(number.Int64Kind))
 			dp.SetCount(t.Count())
 			if t.Count() != 0 {
-				dp.SetMax(number.ToFloat64(t.Max()))
-				dp.SetMin(number.ToFloat64(t.Min()))
+				dp.SetMax(t.Max().CoerceToFloat64(number.Int64Kind))
+				dp.SetMin(t.Min().CoerceToFloat64(number.Int64Kind))
 			}
 		case *minmaxsumcount.Float64:
 			dp.SetSum(number.ToFloat64(t.Sum()))
-- 
2.43.0


From c511a0d5568cc877318514827a1e6093eb03d241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:09 +0000
Subject: [PATCH 06/24] fix: order concurrent gauge updates consistently with
 their sequence numbers

A delayed update could replace a newer value with an older sequence number,
after which merging with another series reported a stale value.
---
 lightstep/sdk/metric/aggregator/gauge/gauge.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/metric/aggregator/gauge/gauge.go b/lightstep/sdk/metric/aggregator/gauge/gauge.go
index d2b060c..b97fd82 100644
--- a/lightstep/sdk/metric/aggregator/gauge/gauge.go
+++ b/lightstep/sdk/metric/aggregator/gauge/gauge.go
@@ -138,13 +138,13 @@ func (Methods[N, Traits]) Copy(from, to *State[N, Traits]) {
 }
 
 func (Methods[N, Traits]) Update(state *State[N, Traits], number N) {
-	newSeq := atomic.AddUint64(&sequenceVar, 1)
-
 	state.lock.Lock()
 	defer state.lock.Unlock()
 
+	// The sequence number is taken under the lock so that a later
+	// sequence number is never replaced by an earlier one.
 	state.value = number
-	state.seq = newSeq
+	state.seq = atomic.AddUint64(&sequenceVar, 1)
 }
 
 func (Methods[N, Traits]) Merge(from, to *State[N, Traits]) {
-- 
2.43.0


From 7ce6d487dac99e3566ef459bb6107c1812f4dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:09 +0000
Subject: [PATCH 07/24] fix: an empty metric endpoint disables metrics, as for
 tracing

---
 launcher/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launcher/config.go b/launcher/config.go
index c19ff12..a7b0d74 100644
--- a/launcher/config.go
+++ b/launcher/config.go
@@ -387,7 +387,7 @@ func setupTracing(c Config) (func() error, error) {
 type setupFunc func(Config) (func() error, error)
 
 func setupMetrics(c Config) (func() error, error) {
-	if !c.MetricsEnabled {
+	if !c.MetricsEnabled || c.MetricExporterEndpoint == "" {
 		c.logger.Debugf("metrics are disabled by configuration: no endpoint set")
 		return nil, nil
 	}
-- 
2.43.0


From 870f9081d1fb03fabfcee454f714491ad0e0d1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:48 +0000
Subject: [PATCH 08/24] fix: explicit-bucket histograms for every scale and
 sign

The conversion used by the Prometheus exporter panicked for histograms with
scale <= 0 and lost the count of negative values and of the last bucket.
---
 .../sdk/metric/internal/export/export.go      | 37 +++++++++++++++----
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index dde7b14..98096a0 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -18,6 +18,8 @@ import (
 	"context"
 	"errors"
 
+	"github.com/lightstep/go-expohisto/mapping"
+	"github.com/lightstep/go-expohisto/mapping/exponent"
 	"github.com/lightstep/go-expohisto/mapping/logarithm"
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
@@ -117,7 +119,7 @@ func copyExplicitHistogramPoints(m pmetric.Metric, inM data.Instrument) {
 				dp.SetMin(t.Min().CoerceToFloat64(number.Int64Kind))
 			}
 
-			copyExplicitHistogramBuckets(t.Positive(), t.ZeroCount(), t.Scale(), dp)
+			copyExplicitHistogramBuckets(t.Positive(), t.Negative(), t.ZeroCount(), t.Scale(), dp)
 
 		case *histogram.Float64:
 			dp.SetSum(number.ToFloat64(t.Sum()))
@@ -127,35 +129,51 @@ func copyExplicitHistogramPoints(m pmetric.Metric, inM data.Instrument) {
 				dp.SetMin(number.ToFloat64(t.Min()))
 			}
 
-			copyExplicitHistogramBuckets(t.Positive(), t.ZeroCount(), t.Scale(), dp)
+			copyExplicitHistogramBuckets(t.Positive(), t.Negative(), t.ZeroCount(), t.Scale(), dp)
 		default:
 			panic("unhandled case")
 		}
 	}
 }
 
+// newMapping returns the bucket mapping for any histogram scale.
+func newMapping(scale int32) (mapping.Mapping, error) {
+	if scale <= exponent.MaxScale {
+		return exponent.NewMapping(scale)
+	}
+	return logarithm.NewMapping(scale)
+}
+
 // copyExplicitHistogramBuckets converts a Lightstep exponential histogram to an OTel histogram with
 // explicitly defined buckets.
 func copyExplicitHistogramBuckets(
 	sourcePositiveBuckets aggregation.Buckets,
+	sourceNegativeBuckets aggregation.Buckets,
 	sourceZeroCount uint64,
 	sourceScale int32,
 	dest pmetric.HistogramDataPoint,
 ) {
 	// add the zero bucket in: (-Inf, 0]
+	zeroOrLess := sourceZeroCount
+	for element := uint32(0); element < sourceNegativeBuckets.Len(); element++ {
+		zeroOrLess += sourceNegativeBuckets.At(element)
+	}
 	dest.ExplicitBounds().Append(0)
-	dest.BucketCounts().Append(sourceZeroCount)
+	dest.BucketCounts().Append(zeroOrLess)
+
+	// elements having no finite upper bound: (..., +Inf]
+	overflowCount := uint64(0)
 
 	if sourcePositiveBuckets.Len() > 0 {
 		positiveOffset := sourcePositiveBuckets.Offset()
 		positiveNumElements := int32(sourcePositiveBuckets.Len())
-		mapping, _ := logarithm.NewMapping(sourceScale)
+		mapping, _ := newMapping(sourceScale)
 		leftBound, _ := mapping.LowerBoundary(positiveOffset)
 
 		for element := int32(0); element < positiveNumElements; element++ {
 			index := element + positiveOffset
 
-			rightBound, _ := mapping.LowerBoundary(index + 1)
+			rightBound, err := mapping.LowerBoundary(index + 1)
 
 			// We have to add a bucket to get from zero to the start of the first user-defined bucket.
 			// This has no count.
@@ -164,6 +182,12 @@ func copyExplicitHistogramBuckets(
 				dest.BucketCounts().Append(0)
 			}
 
+			if err != nil {
+				// The last bucket is not bounded by a float64.
+				overflowCount += sourcePositiveBuckets.At(uint32(element))
+				continue
+			}
+
 			dest.ExplicitBounds().Append(rightBound)
 			dest.BucketCounts().Append(sourcePositiveBuckets.At(uint32(element)))
 
@@ -171,8 +195,7 @@ func copyExplicitHistogramBuckets(
 		}
 	}
 
-	// There are no elements in the (..., +Inf] bucket.
-	dest.BucketCounts().Append(0)
+	dest.BucketCounts().Append(overflowCount)
 }
 
 func copyExponentialHistogramPoints(m pmetric.Metric, inM data.Instrument) {
-- 
2.43.0


From 69c5ff2810a40ddbeb8689367641931af02db233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:48 +0000
Subject: [PATCH 09/24] fix: export every span under its own resource and
 instrumentation scope

Spans were grouped by scope name only, ignoring version, schema URL and
resource, and a first span with an empty scope name caused a panic.
---
 .../sdk/trace/exporters/otlp/otelcol/otlp.go  | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index 93a3048..e5e79ff 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -81,17 +81,18 @@ func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 	if len(in) == 0 {
 		return out
 	}
-	rs := out.ResourceSpans().AppendEmpty()
 
-	c.ResourceMap.Get(in[0].Resource()).CopyTo(rs.Resource())
-
-	curName := ""
+	var rs ptrace.ResourceSpans
 	var ss ptrace.ScopeSpans
-	for _, tr := range in {
-		// input is list of ReadOnlySpans. Add spans to the same scopespan
-		// until new scope name is encountered.
-		if ssName := tr.InstrumentationScope().Name; ssName != curName {
-			curName = ssName
+	for idx, tr := range in {
+		// input is list of ReadOnlySpans. Add spans to the same resourcespan
+		// and scopespan until a new resource or scope is encountered.
+		newResource := idx == 0 || !tr.Resource().Equal(in[idx-1].Resource())
+		if newResource {
+			rs = out.ResourceSpans().AppendEmpty()
+			c.ResourceMap.Get(tr.Resource()).CopyTo(rs.Resource())
+		}
+		if newResource || tr.InstrumentationScope() != in[idx-1].InstrumentationScope() {
 			ss = rs.ScopeSpans().AppendEmpty()
 			ss.SetSchemaUrl(tr.InstrumentationScope().SchemaURL)
 			ss.Scope().SetName(tr.InstrumentationScope().Name)
-- 
2.43.0


From ddf962ee188d5f6ccf9a958204d1cfbc1ad3420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:48 +0000
Subject: [PATCH 10/24] fix: apply aggregation hints to every matching view
 clause

The hint was erased by the first matching clause, and a hint to drop the
instrument was ignored when a clause matched.
---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 3bb06c0..4b15610 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -277,16 +277,19 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 			continue
 		}
 
+		// the hint erases itself from the modified description
 		modified, hintAkind, tempo, hintAcfg, defCfg, hinted := v.tryToApplyHint(instrument)
-		instrument = modified // the hint erases itself from the description
 
 		if akind == aggregation.UndefinedKind {
 			akind = hintAkind
 		}
+		if akind == aggregation.DropKind {
+			continue
+		}
 
 		cf := singleBehavior{
-			fromName: instrument.Name,
-			desc:     viewDescriptor(instrument, view),
+			fromName: modified.Name,
+			desc:     viewDescriptor(modified, view),
 			kind:     akind,
 			acfg:     pickAggConfig(hintAcfg, defCfg, view.AggregatorConfig()),
 			tempo:    tempo,
-- 
2.43.0


From 7c75a2d748cbab544cba848ddd8faab7d2b2a39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:48 +0000
Subject: [PATCH 11/24] fix: resolve hinted aggregations to the kind that is
 built

A hinted "sum" became a monotonic sum for every instrument kind, and since
the requested kind never compared equal to the built kind, registering the
same instrument again added duplicate, empty streams and reported conflicts.
---
 .../sdk/metric/internal/viewstate/viewstate.go    | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 4b15610..5ad679c 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -634,11 +634,6 @@ func pickAggConfig(hintCfg, defCfg, viewCfg aggregator.Config) aggregator.Config
 // checkSemanticCompatibility checks whether an instrument /
 // aggregator pairing is well defined.
 func checkSemanticCompatibility(ik sdkinstrument.Kind, behavior *singleBehavior) error {
-	if behavior.hinted {
-		// Anything goes!
-		return nil
-	}
-
 	agg := behavior.kind
 	cat := agg.Category(ik)
 
@@ -654,6 +649,16 @@ func checkSemanticCompatibility(ik sdkinstrument.Kind, behavior *singleBehavior)
 		behavior.kind = agg
 	}
 
+	if behavior.hinted {
+		// Anything goes, provided it can be built.
+		if agg == aggregation.UndefinedKind {
+			behavior.kind = view.StandardAggregationKind(ik)
+		} else if !ik.Synchronous() && cat == aggregation.HistogramCategory {
+			behavior.kind = aggregation.GaugeKind
+		}
+		return nil
+	}
+
 	switch ik {
 	case sdkinstrument.SyncCounter, sdkinstrument.SyncHistogram:
 		switch cat {
-- 
2.43.0


From 2b1fb451e7c846ca6e32e61718ae66bd227391f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:56 +0000
Subject: [PATCH 12/24] fix: no export after the periodic reader is shut down

A flush after, or waiting for, shutdown used the exporter after its
shutdown, and a repeated shutdown repeated the final export.
---
 lightstep/sdk/metric/periodic.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/periodic.go b/lightstep/sdk/metric/periodic.go
index 54fef5d..f09c633 100644
--- a/lightstep/sdk/metric/periodic.go
+++ b/lightstep/sdk/metric/periodic.go
@@ -57,6 +57,9 @@ type PeriodicReader struct {
 	producer Producer
 	stop     context.CancelFunc
 	wait     sync.WaitGroup
+
+	// shutdown is set by the final collection, protected by lock.
+	shutdown bool
 }
 
 type PeriodicReaderOption func(*PeriodicReader)
@@ -138,7 +141,10 @@ func (pr *PeriodicReader) collectWithTimeout(ctx context.Context, method func(co
 func (pr *PeriodicReader) Shutdown(ctx context.Context) error {
 	pr.stop()
 	pr.wait.Wait()
-	return pr.collect(ctx, pr.exporter.ShutdownMetrics)
+	return pr.collect(ctx, func(ctx context.Context, final data.Metrics) error {
+		pr.shutdown = true
+		return pr.exporter.ShutdownMetrics(ctx, final)
+	})
 }
 
 // ForceFlush immediately waits for an existing collection, otherwise
@@ -156,6 +162,11 @@ func (pr *PeriodicReader) collect(ctx context.Context, method func(context.Conte
 	pr.lock.Lock()
 	defer pr.lock.Unlock()
 
+	if pr.shutdown {
+		// The exporter received its final data.
+		return fmt.Errorf("%v: %w", pr, ErrAlreadyShutdown)
+	}
+
 	// The lock ensures that re-use of `pr.data` is successful, it
 	// means that shutdown, flush, and ordinary collection are
 	// exclusive.  Note that shutdown will cancel a concurrent
-- 
2.43.0


From e7eaa37c1be1f160ffb2d6197b7739d779064419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:13 +0000
Subject: [PATCH 13/24] fix: enforce the instrument cardinality limit for
 concurrent new series

---
 .../sdk/metric/internal/syncstate/bykeyvalue.go      | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
index 41b421d..73d781a 100644
--- a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
+++ b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
@@ -219,6 +219,11 @@ func acquireWriteKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, boo
 	inst.lock.Lock()
 	defer inst.lock.Unlock()
 
+	return acquireWriteLockedKV(inst, fp, newRec)
+}
+
+// acquireWriteLockedKV is acquireWriteKV with the lock held.
+func acquireWriteLockedKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, bool) {
 	for oldRec := inst.currentFP[fp]; oldRec != nil; oldRec = oldRec.next {
 
 		if inst.performance.IgnoreCollisions || attributesEqual(oldRec.attrsList, newRec.attrsList) {
@@ -230,6 +235,13 @@ func acquireWriteKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, boo
 		}
 	}
 
+	if fp != overflowAttributesFingerprint && uint32(len(inst.currentFP)) >= inst.performance.InstrumentCardinalityLimit-1 {
+		// The limit was reached after it was tested using the
+		// read lock, use the overflow attributes instead.
+		newRec.computeAttrsUnderLock(pipeline.OverflowAttributes)
+		return acquireWriteLockedKV(inst, overflowAttributesFingerprint, newRec)
+	}
+
 	newRec.next = inst.currentFP[fp]
 	inst.currentFP[fp] = newRec
 	return newRec, true
-- 
2.43.0


From 6b24c7c0bead96b9aa1cf49dc1a3c2c1f81301b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:17 +0000
Subject: [PATCH 14/24] fix: count each measurement once when several view
 clauses share one output

---
 .../sdk/metric/internal/viewstate/viewstate.go   | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 5ad679c..02a9192 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -398,11 +398,25 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 			}
 			conflicts.Add(v.views.Name, c)
 		}
-		compiled = append(compiled, leaf)
+		// Several clauses may resolve to the same output, which
+		// receives each measurement once.
+		if !containsInstrument(compiled, leaf) {
+			compiled = append(compiled, leaf)
+		}
 	}
 	return Combine(instrument, compiled...), conflicts
 }
 
+// containsInstrument returns whether inst is one of the items.
+func containsInstrument(items []Instrument, inst Instrument) bool {
+	for _, item := range items {
+		if item == inst {
+			return true
+		}
+	}
+	return false
+}
+
 // buildView compiles either a synchronous or asynchronous instrument
 // given its behavior and generic number type/traits.
 func buildView[N number.Any, Traits number.Traits[N]](behavior singleBehavior) leafInstrument {
-- 
2.43.0


From 54575815337ef050dfede46b82f1c4f86193767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:39 +0000
Subject: [PATCH 15/24] fix: view clauses without a config use the configured
 default aggregator config

---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 2 +-
 lightstep/sdk/metric/view/views.go                   | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 02a9192..00c583e 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -639,7 +639,7 @@ func equalConfigs(a, b aggregator.Config) bool {
 // pickAggConfig returns the aggregator configuration prescribed by a
 // view clause when it not the default value, otherwise the hinted config.
 func pickAggConfig(hintCfg, defCfg, viewCfg aggregator.Config) aggregator.Config {
-	if viewCfg != defCfg {
+	if viewCfg != (aggregator.Config{}) && viewCfg != defCfg {
 		return viewCfg
 	}
 	return hintCfg
diff --git a/lightstep/sdk/metric/view/views.go b/lightstep/sdk/metric/view/views.go
index 49bd207..0cd7d8b 100644
--- a/lightstep/sdk/metric/view/views.go
+++ b/lightstep/sdk/metric/view/views.go
@@ -107,7 +107,10 @@ func Validate(v *Views) (*Views, error) {
 		clause := &valid.Clauses[i]
 
 		err = v.checkAggregation(err, &clause.aggregation, aggregation.UndefinedKind)
-		err = v.checkAggConfig(err, &clause.acfg)
+		if clause.acfg != (aggregator.Config{}) {
+			// Otherwise, the default settings apply.
+			err = v.checkAggConfig(err, &clause.acfg)
+		}
 
 		if clause.instrumentName != "" && clause.instrumentNameRegexp != nil {
 			err = multierr.Append(err, fmt.Errorf("view has instrument name and regexp matches"))
-- 
2.43.0


From 098d552d781e4736b986b4cfd030efc325f21958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:36 +0000
Subject: [PATCH 16/24] fix: do not report a value for gauges and histograms
 before their first update is collected

---
 .../sdk/metric/internal/viewstate/collectors.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lightstep/sdk/metric/internal/viewstate/collectors.go b/lightstep/sdk/metric/internal/viewstate/collectors.go
index dd2a7b3..5bf34f0 100644
--- a/lightstep/sdk/metric/internal/viewstate/collectors.go
+++ b/lightstep/sdk/metric/internal/viewstate/collectors.go
@@ -32,6 +32,8 @@ type statefulSyncInstrument[N number.Any, Storage any, Methods aggregator.Method
 
 // Collect for synchronous cumulative temporality.
 func (p *statefulSyncInstrument[N, Storage, Methods]) Collect(seq data.Sequence, output *[]data.Instrument) {
+	var methods Methods
+
 	p.instLock.Lock()
 	defer p.instLock.Unlock()
 
@@ -39,6 +41,21 @@ func (p *statefulSyncInstrument[N, Storage, Methods]) Collect(seq data.Sequence,
 
 	for set, entry := range p.data {
 		p.appendPoint(ioutput, set, &entry.storage, aggregation.CumulativeTemporality, seq.Start, seq.Now, false)
+
+		switch methods.Kind() {
+		case aggregation.MonotonicSumKind, aggregation.NonMonotonicSumKind:
+			// Zero is a meaningful sum.
+			continue
+		}
+
+		// The entry may belong to a concurrent first update that
+		// was not collected yet.  There is no value to output.
+		ptsArr := ioutput.Points
+		cpy, _ := methods.ToStorage(ptsArr[len(ptsArr)-1].Aggregation)
+
+		if !methods.HasChange(cpy) {
+			ioutput.Points = ptsArr[0 : len(ptsArr)-1 : cap(ptsArr)]
+		}
 	}
 }
 
-- 
2.43.0


From 66a42a99876d80da0c38482b29d3ad5f281bfe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:26 +0000
Subject: [PATCH 17/24] fix: merging an empty or all-zero histogram keeps the
 output's resolution

The final release of an idle series merges a histogram without non-zero
values; its scale is reported as 0, and the output of every cumulative
histogram was downscaled to 0 although nothing was added to it.
---
 lightstep/sdk/metric/aggregator/histogram/histogram.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lightstep/sdk/metric/aggregator/histogram/histogram.go b/lightstep/sdk/metric/aggregator/histogram/histogram.go
index 27fdeef..8e5827e 100644
--- a/lightstep/sdk/metric/aggregator/histogram/histogram.go
+++ b/lightstep/sdk/metric/aggregator/histogram/histogram.go
@@ -152,6 +152,15 @@ func (Methods[N, Traits]) Copy(from, to *Histogram[N, Traits]) {
 func (Methods[N, Traits]) Merge(from, to *Histogram[N, Traits]) {
 	to.lock.Lock()
 	defer to.lock.Unlock()
+	if zeros := from.Histogram.ZeroCount(); zeros == from.Histogram.Count() {
+		// The scale of a histogram without non-zero values is
+		// reported as 0, and MergeFrom() would needlessly
+		// reduce the resolution of the output to that.
+		if zeros != 0 {
+			to.Histogram.UpdateByIncr(0, zeros)
+		}
+		return
+	}
 	to.Histogram.MergeFrom(&from.Histogram)
 }
 
-- 
2.43.0


From 9cd9e1ae1ee96179e8bb025edc0633bde8414a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:47 +0000
Subject: [PATCH 18/24] fix: export attributes that have no value instead of
 crashing

---
 lightstep/sdk/internal/common.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lightstep/sdk/internal/common.go b/lightstep/sdk/internal/common.go
index bd40754..d059e0a 100644
--- a/lightstep/sdk/internal/common.go
+++ b/lightstep/sdk/internal/common.go
@@ -73,6 +73,9 @@ func CopyAttributes(dest pcommon.Map, src attribute.Set) {
 		inA := iter.Attribute()
 		key := string(inA.Key)
 		switch inA.Value.Type() {
+		case attribute.INVALID:
+			// The attribute has no value.
+			dest.PutEmpty(key)
 		case attribute.BOOL:
 			dest.PutBool(key, inA.Value.AsBool())
 		case attribute.INT64:
-- 
2.43.0


From 485e6242efda35c16dd4d5a05c02b50ed876f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:04 +0000
Subject: [PATCH 19/24] fix: exporting spans leaves their attributes in order

Spans are shared by all exporters of a provider. Reordering the attributes in
place raced with exporters of other span processors, which could see an
attribute twice and another not at all.
---
 lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index e5e79ff..05cd88c 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -24,6 +24,12 @@ import (
 	apitrace "go.opentelemetry.io/otel/trace"
 )
 
+// newSet returns the set of attributes.  The input belongs to a span that
+// other exporters may be reading, NewSet would reorder it.
+func newSet(attrs []attribute.KeyValue) attribute.Set {
+	return attribute.NewSet(append([]attribute.KeyValue(nil), attrs...)...)
+}
+
 func copyEvents(dest ptrace.SpanEventSlice, events []trace.Event) {
 	for _, event := range events {
 		e1 := dest.AppendEmpty()
@@ -31,7 +37,7 @@ func copyEvents(dest ptrace.SpanEventSlice, events []trace.Event) {
 		e1.SetName(event.Name)
 		e1.SetTimestamp(pcommon.NewTimestampFromTime(event.Time))
 
-		internal.CopyAttributes(e1.Attributes(), attribute.NewSet(event.Attributes...))
+		internal.CopyAttributes(e1.Attributes(), newSet(event.Attributes))
 	}
 }
 
@@ -43,7 +49,7 @@ func copyLinks(dest ptrace.SpanLinkSlice, links []trace.Link) {
 		l1.SetTraceID(pcommon.TraceID(link.SpanContext.TraceID()))
 		l1.TraceState().FromRaw(link.SpanContext.TraceState().String())
 
-		internal.CopyAttributes(l1.Attributes(), attribute.NewSet(link.Attributes...))
+		internal.CopyAttributes(l1.Attributes(), newSet(link.Attributes))
 	}
 }
 
@@ -114,7 +120,7 @@ func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 		s.Status().SetCode(translateSpanStatusCode(tr.Status().Code))
 		s.Status().SetMessage(tr.Status().Description)
 
-		internal.CopyAttributes(s.Attributes(), attribute.NewSet(tr.Attributes()...))
+		internal.CopyAttributes(s.Attributes(), newSet(tr.Attributes()))
 		copyEvents(s.Events(), tr.Events())
 		copyLinks(s.Links(), tr.Links())
 	}
-- 
2.43.0


From 1771e25d02468cc6c25a1257c7257e866d33a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:28 +0000
Subject: [PATCH 20/24] fix: explicit histogram bounds stay finite and
 ascending for the largest values

---
 lightstep/sdk/metric/internal/export/export.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index 98096a0..60e6558 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -17,6 +17,7 @@ package export
 import (
 	"context"
 	"errors"
+	"math"
 
 	"github.com/lightstep/go-expohisto/mapping"
 	"github.com/lightstep/go-expohisto/mapping/exponent"
@@ -163,6 +164,7 @@ func copyExplicitHistogramBuckets(
 
 	// elements having no finite upper bound: (..., +Inf]
 	overflowCount := uint64(0)
+	unbounded := false
 
 	if sourcePositiveBuckets.Len() > 0 {
 		positiveOffset := sourcePositiveBuckets.Offset()
@@ -177,13 +179,13 @@ func copyExplicitHistogramBuckets(
 
 			// We have to add a bucket to get from zero to the start of the first user-defined bucket.
 			// This has no count.
-			if element == 0 {
+			if element == 0 && !math.IsInf(leftBound, +1) {
 				dest.ExplicitBounds().Append(leftBound)
 				dest.BucketCounts().Append(0)
 			}
 
-			if err != nil {
-				// The last bucket is not bounded by a float64.
+			if unbounded = unbounded || err != nil || math.IsInf(rightBound, +1); unbounded {
+				// The last buckets are not bounded by a float64.
 				overflowCount += sourcePositiveBuckets.At(uint32(element))
 				continue
 			}
-- 
2.43.0


From 1c5ccf285ff68fe67968372ac232ef5d9b04b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:03 +0000
Subject: [PATCH 21/24] fix: do not count the CPU time of guests twice in host
 metrics

---
 lightstep/instrumentation/host/host.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lightstep/instrumentation/host/host.go b/lightstep/instrumentation/host/host.go
index fe43adc..484c188 100644
--- a/lightstep/instrumentation/host/host.go
+++ b/lightstep/instrumentation/host/host.go
@@ -209,14 +209,13 @@ func (h *host) register() error {
 			obs.ObserveFloat64(hostCPUTime, hostTime.User, AttributeCPUTimeUser...)
 			obs.ObserveFloat64(hostCPUTime, hostTime.System, AttributeCPUTimeSystem...)
 
-			// Note: "other" is the sum of all other known states.
+			// Note: "other" is the sum of all other known states.  The
+			// time of guests is already part of the user and nice time.
 			other := hostTime.Nice +
 				hostTime.Iowait +
 				hostTime.Irq +
 				hostTime.Softirq +
-				hostTime.Steal +
-				hostTime.Guest +
-				hostTime.GuestNice
+				hostTime.Steal
 
 			obs.ObserveFloat64(hostCPUTime, other, AttributeCPUTimeOther...)
 			obs.ObserveFloat64(hostCPUTime, hostTime.Idle, AttributeCPUTimeIdle...)
-- 
2.43.0


From fe6263606cd2e93f476890e594c2c09f67ec4da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:58 +0000
Subject: [PATCH 22/24] fix: report the errors that metric callbacks return

---
 lightstep/sdk/metric/internal/asyncstate/callback.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/asyncstate/callback.go b/lightstep/sdk/metric/internal/asyncstate/callback.go
index 0721957..5e6552d 100644
--- a/lightstep/sdk/metric/internal/asyncstate/callback.go
+++ b/lightstep/sdk/metric/internal/asyncstate/callback.go
@@ -20,6 +20,7 @@ import (
 	"sync"
 
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
+	"go.opentelemetry.io/otel"
 	"go.opentelemetry.io/otel/metric"
 )
 
@@ -77,7 +78,9 @@ func (c *Callback) Run(ctx context.Context, state *State) {
 		callback: c,
 		state:    state,
 	}
-	c.function(ctx, cp)
+	if err := c.function(ctx, cp); err != nil {
+		otel.Handle(err)
+	}
 	cp.invalidate()
 }
 
-- 
2.43.0


From 4ecc2f5c00aa386320590c85eb0e0d711b846702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:44 +0000
Subject: [PATCH 23/24] fix: concurrent readers no longer share one reading of
 the runtime metrics

---
 lightstep/instrumentation/runtime/builtin.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lightstep/instrumentation/runtime/builtin.go b/lightstep/instrumentation/runtime/builtin.go
index a5685de..9294b81 100644
--- a/lightstep/instrumentation/runtime/builtin.go
+++ b/lightstep/instrumentation/runtime/builtin.go
@@ -18,6 +18,7 @@ import (
 	"context"
 	"fmt"
 	"runtime/metrics"
+	"sync"
 
 	"go.opentelemetry.io/otel"
 	"go.opentelemetry.io/otel/metric"
@@ -184,7 +185,14 @@ func (r *builtinRuntime) register(desc *builtinDescriptor) error {
 		})
 	}
 
+	// lock prevents a race between collections by different readers,
+	// which share samples.
+	var lock sync.Mutex
+
 	if _, err := r.meter.RegisterCallback(func(ctx context.Context, obs metric.Observer) error {
+		lock.Lock()
+		defer lock.Unlock()
+
 		r.readFunc(samples)
 
 		for idx, samp := range samples {
-- 
2.43.0


From edac642bbea298a79970c6e38db47a3bb87242c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:51 +0000
Subject: [PATCH 24/24] fix: fingerprints of attributes depend on value types
 and slice order

The instrument cardinality limit counts fingerprints, so attribute sets
that differ only in the order of a slice's elements, in how they add up,
or in the types of values were not limited.
---
 .../metric/internal/syncstate/bykeyvalue.go   | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
index 73d781a..9773f42 100644
--- a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
+++ b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
@@ -35,10 +35,12 @@ func fingerprintAttributes(attrs []attribute.KeyValue) uint64 {
 	return fp
 }
 
-func fingerprintSlice[T any](slice []T, f func(T) uint64) uint64 {
-	var fp uint64
+// fingerprintSlice depends on the type, the number of the items, and
+// their order.
+func fingerprintSlice[T any](typ attribute.Type, slice []T, f func(T) uint64) uint64 {
+	fp := fprint.Mix(uint64(typ), uint64(len(slice)))
 	for _, item := range slice {
-		fp += f(item)
+		fp = fprint.Mix(fp, f(item))
 	}
 	return fp
 }
@@ -46,21 +48,21 @@ func fingerprintSlice[T any](slice []T, f func(T) uint64) uint64 {
 func fingerprintValue(value attribute.Value) uint64 {
 	switch value.Type() {
 	case attribute.BOOL:
-		return fprint.FingerprintBool(value.AsBool())
+		return fprint.Mix(uint64(attribute.BOOL), fprint.FingerprintBool(value.AsBool()))
 	case attribute.INT64:
 		return fprint.FingerprintInt64(value.AsInt64())
 	case attribute.FLOAT64:
-		return fprint.FingerprintFloat64(value.AsFloat64())
+		return fprint.Mix(uint64(attribute.FLOAT64), fprint.FingerprintFloat64(value.AsFloat64()))
 	case attribute.STRING:
 		return fprint.FingerprintString(value.AsString())
 	case attribute.BOOLSLICE:
-		return fingerprintSlice(value.AsBoolSlice(), fprint.FingerprintBool)
+		return fingerprintSlice(attribute.BOOLSLICE, value.AsBoolSlice(), fprint.FingerprintBool)
 	case attribute.INT64SLICE:
-		return fingerprintSlice(value.AsInt64Slice(), fprint.FingerprintInt64)
+		return fingerprintSlice(attribute.INT64SLICE, value.AsInt64Slice(), fprint.FingerprintInt64)
 	case attribute.FLOAT64SLICE:
-		return fingerprintSlice(value.AsFloat64Slice(), fprint.FingerprintFloat64)
+		return fingerprintSlice(attribute.FLOAT64SLICE, value.AsFloat64Slice(), fprint.FingerprintFloat64)
 	case attribute.STRINGSLICE:
-		return fingerprintSlice(value.AsStringSlice(), fprint.FingerprintString)
+		return fingerprintSlice(attribute.STRINGSLICE, value.AsStringSlice(), fprint.FingerprintString)
 	}
 
 	return 0
-- 
2.43.0

