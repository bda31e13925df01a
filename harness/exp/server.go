package main

import (
	"context"
	"encoding/hex"
	"fmt"
	"math"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	metricpb "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	tracepb "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	commonpb "go.opentelemetry.io/proto/otlp/common/v1"
	mpb "go.opentelemetry.io/proto/otlp/metrics/v1"
	tpb "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	_ "google.golang.org/grpc/encoding/gzip"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
)

type M = map[string]any

// mode is what the server does with the requests of a step.
type mode struct {
	code  codes.Code
	delay time.Duration
}

type server struct {
	metricpb.UnimplementedMetricsServiceServer
	addr string
	mu   sync.Mutex
	mode mode
	log  *[]M   // of the current program
	prog string // which its requests carry
	busy int    // requests being handled
}

type traceServer struct {
	tracepb.UnimplementedTraceServiceServer
	*server
}

type encKey struct{}

// comp records the compression of each call.
type comp struct{}

func (comp) TagRPC(ctx context.Context, _ *stats.RPCTagInfo) context.Context {
	return context.WithValue(ctx, encKey{}, new(string))
}
func (comp) HandleRPC(ctx context.Context, s stats.RPCStats) {
	if h, ok := s.(*stats.InHeader); ok {
		if p, ok := ctx.Value(encKey{}).(*string); ok {
			*p = h.Compression
		}
	}
}
func (comp) TagConn(ctx context.Context, _ *stats.ConnTagInfo) context.Context { return ctx }
func (comp) HandleConn(context.Context, stats.ConnStats)                       {}

func newServer() *server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &server{addr: l.Addr().String()}
	g := grpc.NewServer(grpc.StatsHandler(comp{}), grpc.MaxRecvMsgSize(64<<20))
	metricpb.RegisterMetricsServiceServer(g, s)
	tracepb.RegisterTraceServiceServer(g, &traceServer{server: s})
	go g.Serve(l)
	return s
}

func (s *server) setMode(m mode) {
	s.mu.Lock()
	s.mode = m
	s.mu.Unlock()
}

// idle waits until no request is being handled.
func (s *server) idle() {
	for {
		s.mu.Lock()
		b := s.busy
		s.mu.Unlock()
		if b == 0 {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

// start logs the requests of a program, stop ends that.
func (s *server) start(log *[]M, prog string) {
	s.mu.Lock()
	s.log, s.mode, s.prog = log, mode{}, prog
	s.mu.Unlock()
}

func (s *server) stop() {
	s.mu.Lock()
	s.log, s.mode = nil, mode{}
	s.mu.Unlock()
}

func (s *server) handle(ctx context.Context, items []M) error {
	in, _ := metadata.FromIncomingContext(ctx)
	s.mu.Lock()
	if p := in.Get("x-prog"); len(p) != 1 || p[0] != s.prog {
		// A request of an earlier program, which it gave up.
		s.mu.Unlock()
		return nil
	}
	md, log := s.mode, s.log
	s.busy++
	s.mu.Unlock()
	if md.delay > 0 {
		time.Sleep(md.delay)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.busy--
	if md.code != codes.OK {
		return status.Error(md.code, "no")
	}
	if s.log == nil || s.log != log {
		return nil
	}
	hd := M{}
	for _, h := range []string{"lightstep-access-token", "x-a", "x-b"} {
		hd[h] = strings.Join(in.Get(h), "|")
	}
	enc := ""
	if p, ok := ctx.Value(encKey{}).(*string); ok {
		enc = *p
	}
	*s.log = append(*s.log, M{"e": "req", "items": items, "hd": hd, "enc": enc})
	return nil
}

func (s *server) Export(ctx context.Context, req *metricpb.ExportMetricsServiceRequest) (*metricpb.ExportMetricsServiceResponse, error) {
	if err := s.handle(ctx, metricItems(req)); err != nil {
		return nil, err
	}
	return &metricpb.ExportMetricsServiceResponse{}, nil
}

func (s *traceServer) Export(ctx context.Context, req *tracepb.ExportTraceServiceRequest) (*tracepb.ExportTraceServiceResponse, error) {
	if err := s.handle(ctx, spanItems(req)); err != nil {
		return nil, err
	}
	return &tracepb.ExportTraceServiceResponse{}, nil
}

// ---- projection of OTLP ----

func fnum(f float64) string {
	if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
		return strconv.FormatInt(int64(f), 10)
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func anyStr(v *commonpb.AnyValue) string {
	switch x := v.GetValue().(type) {
	case nil:
		return "none"
	case *commonpb.AnyValue_BoolValue:
		return fmt.Sprint("b:", x.BoolValue)
	case *commonpb.AnyValue_IntValue:
		return fmt.Sprint("i:", x.IntValue)
	case *commonpb.AnyValue_DoubleValue:
		return "f:" + strconv.FormatFloat(x.DoubleValue, 'g', -1, 64)
	case *commonpb.AnyValue_StringValue:
		return "s:" + x.StringValue
	case *commonpb.AnyValue_ArrayValue:
		var p []string
		for _, e := range x.ArrayValue.Values {
			p = append(p, anyStr(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	}
	return "?"
}

func pbAttrs(kvs []*commonpb.KeyValue) []M {
	out := []M{}
	for _, kv := range kvs {
		out = append(out, M{"k": kv.Key, "v": anyStr(kv.Value)})
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i]["k"].(string) < out[j]["k"].(string) })
	return out
}

func ns(t uint64) string { return strconv.FormatUint(t, 10) }

func pbBuckets(b *mpb.ExponentialHistogramDataPoint_Buckets) M {
	c := []int{}
	for _, x := range b.GetBucketCounts() {
		c = append(c, int(x))
	}
	return M{"off": int(b.GetOffset()), "c": c}
}

func noBuckets() M { return M{"off": 0, "c": []int{}} }

func noHist() M {
	return M{"sum": "", "count": 0, "min": "", "max": "", "zero": 0, "scale": 0, "pos": noBuckets(), "neg": noBuckets(), "nb": 0}
}

func opt(p *float64) string {
	if p == nil {
		return ""
	}
	return fnum(*p)
}

func tempo(t mpb.AggregationTemporality) string {
	switch t {
	case mpb.AggregationTemporality_AGGREGATION_TEMPORALITY_DELTA:
		return "delta"
	case mpb.AggregationTemporality_AGGREGATION_TEMPORALITY_CUMULATIVE:
		return "cum"
	}
	return "unspecified"
}

func metricItems(req *metricpb.ExportMetricsServiceRequest) []M {
	out := []M{}
	for _, rm := range req.ResourceMetrics {
		for _, sm := range rm.ScopeMetrics {
			for _, m := range sm.Metrics {
				base := func(typ string, attrs []*commonpb.KeyValue, start, end uint64) M {
					return M{"res": pbAttrs(rm.Resource.GetAttributes()), "sc": M{"n": sm.Scope.GetName(), "v": sm.Scope.GetVersion(), "s": sm.SchemaUrl},
						"name": m.Name, "unit": m.Unit, "desc": m.Description, "type": typ, "mono": false, "tempo": "none",
						"attrs": pbAttrs(attrs), "start": ns(start), "end": ns(end), "vt": "none", "v": "", "h": noHist()}
				}
				num := func(it M, dp *mpb.NumberDataPoint) {
					switch v := dp.Value.(type) {
					case *mpb.NumberDataPoint_AsInt:
						it["vt"], it["v"] = "i", strconv.FormatInt(v.AsInt, 10)
					case *mpb.NumberDataPoint_AsDouble:
						it["vt"], it["v"] = "f", fnum(v.AsDouble)
					}
				}
				switch d := m.Data.(type) {
				case *mpb.Metric_Sum:
					for _, dp := range d.Sum.DataPoints {
						it := base("sum", dp.Attributes, dp.StartTimeUnixNano, dp.TimeUnixNano)
						it["mono"], it["tempo"] = d.Sum.IsMonotonic, tempo(d.Sum.AggregationTemporality)
						num(it, dp)
						out = append(out, it)
					}
				case *mpb.Metric_Gauge:
					for _, dp := range d.Gauge.DataPoints {
						it := base("gauge", dp.Attributes, dp.StartTimeUnixNano, dp.TimeUnixNano)
						num(it, dp)
						out = append(out, it)
					}
				case *mpb.Metric_ExponentialHistogram:
					for _, dp := range d.ExponentialHistogram.DataPoints {
						it := base("exphist", dp.Attributes, dp.StartTimeUnixNano, dp.TimeUnixNano)
						it["tempo"] = tempo(d.ExponentialHistogram.AggregationTemporality)
						it["h"] = M{"sum": opt(dp.Sum), "count": int(dp.Count), "min": opt(dp.Min), "max": opt(dp.Max), "zero": int(dp.ZeroCount),
							"scale": int(dp.Scale), "pos": pbBuckets(dp.Positive), "neg": pbBuckets(dp.Negative), "nb": 0}
						out = append(out, it)
					}
				case *mpb.Metric_Histogram:
					for _, dp := range d.Histogram.DataPoints {
						it := base("hist", dp.Attributes, dp.StartTimeUnixNano, dp.TimeUnixNano)
						it["tempo"] = tempo(d.Histogram.AggregationTemporality)
						h := noHist()
						h["sum"], h["count"], h["min"], h["max"] = opt(dp.Sum), int(dp.Count), opt(dp.Min), opt(dp.Max)
						h["nb"] = len(dp.BucketCounts) + len(dp.ExplicitBounds)
						it["h"] = h
						out = append(out, it)
					}
				default:
					out = append(out, base("other", nil, 0, 0))
				}
			}
		}
	}
	return out
}

func spanItems(req *tracepb.ExportTraceServiceRequest) []M {
	out := []M{}
	for _, rs := range req.ResourceSpans {
		for _, ss := range rs.ScopeSpans {
			for _, s := range ss.Spans {
				evs, lks := []M{}, []M{}
				for _, e := range s.Events {
					evs = append(evs, M{"name": e.Name, "t": ns(e.TimeUnixNano), "attrs": pbAttrs(e.Attributes), "drop": int(e.DroppedAttributesCount)})
				}
				for _, l := range s.Links {
					lks = append(lks, M{"tid": hex.EncodeToString(l.TraceId), "sid": hex.EncodeToString(l.SpanId), "ts": l.TraceState,
						"attrs": pbAttrs(l.Attributes), "drop": int(l.DroppedAttributesCount)})
				}
				out = append(out, M{"res": pbAttrs(rs.Resource.GetAttributes()), "sc": M{"n": ss.Scope.GetName(), "v": ss.Scope.GetVersion(), "s": ss.SchemaUrl},
					"name": s.Name, "kind": int(s.Kind), "tid": hex.EncodeToString(s.TraceId), "sid": hex.EncodeToString(s.SpanId), "psid": hex.EncodeToString(s.ParentSpanId),
					"ts": s.TraceState, "start": ns(s.StartTimeUnixNano), "end": ns(s.EndTimeUnixNano),
					"code": statusName(s.Status), "desc": s.Status.GetMessage(),
					"attrs": pbAttrs(s.Attributes), "evs": evs, "lks": lks,
					"da": int(s.DroppedAttributesCount), "de": int(s.DroppedEventsCount), "dl": int(s.DroppedLinksCount)})
			}
		}
	}
	return out
}

func statusName(s *tpb.Status) string {
	switch s.GetCode() {
	case tpb.Status_STATUS_CODE_OK:
		return "ok"
	case tpb.Status_STATUS_CODE_ERROR:
		return "error"
	}
	return "unset"
}
