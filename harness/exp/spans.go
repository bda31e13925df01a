package main

import (
	"context"
	"fmt"
	"go.opentelemetry.io/otel"
	metricnoop "go.opentelemetry.io/otel/metric/noop"
	tracenoop "go.opentelemetry.io/otel/trace/noop"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/trace/exporters/otlp/otelcol"
	otelcodes "go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	"go.opentelemetry.io/otel/trace"
)

func inSpan(s sdktrace.ReadOnlySpan) M {
	evs, lks := []M{}, []M{}
	for _, e := range s.Events() {
		evs = append(evs, M{"name": e.Name, "t": ns(uint64(e.Time.UnixNano())), "attrs": inAttrs(e.Attributes), "drop": e.DroppedAttributeCount})
	}
	id := func(valid bool, s string) string {
		if !valid {
			return ""
		}
		return s
	}
	for _, l := range s.Links() {
		c := l.SpanContext
		lks = append(lks, M{"tid": id(c.HasTraceID(), c.TraceID().String()), "sid": id(c.HasSpanID(), c.SpanID().String()), "ts": c.TraceState().String(),
			"attrs": inAttrs(l.Attributes), "drop": l.DroppedAttributeCount})
	}
	c, p, sc := s.SpanContext(), s.Parent(), s.InstrumentationScope()
	code := "unset"
	switch s.Status().Code {
	case otelcodes.Ok:
		code = "ok"
	case otelcodes.Error:
		code = "error"
	}
	return M{"res": inAttrs(s.Resource().Attributes()), "sc": M{"n": sc.Name, "v": sc.Version, "s": sc.SchemaURL},
		"name": s.Name(), "kind": s.SpanKind().String(), "tid": id(c.HasTraceID(), c.TraceID().String()), "sid": id(c.HasSpanID(), c.SpanID().String()),
		"psid": id(p.HasSpanID(), p.SpanID().String()), "ts": c.TraceState().String(), "start": ns(uint64(s.StartTime().UnixNano())), "end": ns(uint64(s.EndTime().UnixNano())),
		"code": code, "desc": s.Status().Description, "attrs": inAttrs(s.Attributes()), "evs": evs, "lks": lks,
		"da": s.DroppedAttributes(), "de": s.DroppedEvents(), "dl": s.DroppedLinks()}
}

func (w *world) spanContext() trace.SpanContext {
	var c trace.SpanContextConfig
	w.r.Read(c.TraceID[:])
	w.r.Read(c.SpanID[:])
	if w.one(2) {
		c.TraceFlags = trace.FlagsSampled
	}
	c.Remote = w.one(2)
	if w.one(3) {
		ts, err := trace.ParseTraceState(w.pick("a=1", "vendor=x,other=y", "rojo=00f067aa0ba902b7"))
		if err != nil {
			panic(err)
		}
		c.TraceState = ts
	}
	return trace.NewSpanContext(c)
}

func (w *world) traces() {
	w.telemetry()
	hd, hdm := w.headers()
	hd["x-prog"] = w.prog()
	cfg := otelcol.NewConfig(otelcol.WithEndpoint(w.srv.addr), otelcol.WithInsecure(), otelcol.WithHeaders(hd))
	enc := "zstd"
	switch w.r.Intn(4) {
	case 0:
		enc = "gzip"
		otelcol.WithCompressor("gzip")(&cfg)
	case 1:
		enc = ""
		otelcol.WithCompressor("none")(&cfg)
	}
	cfg.SelfMetrics, cfg.SelfSpans = !w.one(4), !w.one(4)
	cfg.Batcher.Timeout = time.Duration(w.r.Intn(6)) * time.Millisecond
	n := w.r.Intn(3)
	w.split = n < 2
	switch n {
	case 0:
		cfg.Batcher.SendBatchSize = uint32(1 + w.r.Intn(4))
		cfg.Batcher.SendBatchMaxSize = cfg.Batcher.SendBatchSize + uint32(w.r.Intn(3))
	case 1:
		cfg.Batcher.SendBatchSize = uint32(1 + w.r.Intn(20))
		cfg.Batcher.SendBatchMaxSize = cfg.Batcher.SendBatchSize + uint32(w.r.Intn(10))
	}
	w.cfg = M{"sig": "traces", "hd": hdm, "enc": enc, "metrics": cfg.SelfMetrics, "spans": cfg.SelfSpans}
	if w.impat = w.one(12); w.impat {
		cfg.Exporter.TimeoutSettings.Timeout = 10 * time.Millisecond
	}
	w.srv.start(&w.ev, w.prog())
	// The providers of the exporter's own telemetry are the global ones or given.
	var opts []func(*otelcol.ExporterOptions)
	if cfg.SelfMetrics && w.one(3) {
		opts = append(opts, otelcol.WithMeterProvider(w.mp))
		otel.SetMeterProvider(metricnoop.NewMeterProvider())
	}
	if cfg.SelfSpans && w.one(3) {
		opts = append(opts, otelcol.WithTracerProvider(w.tp))
		otel.SetTracerProvider(tracenoop.NewTracerProvider())
	}
	exp, err := otelcol.NewExporter(context.Background(), cfg, opts...)
	if err != nil {
		w.emit(M{"e": "fail", "what": err.Error()})
		return
	}
	ress := w.resources()
	if w.one(2) {
		ress = ress[:1]
	}
	scopes := []instrumentation.Scope{{Name: "lib1"}, {Name: "lib1", Version: "v1"}, {Name: "lib2", Version: "v2", SchemaURL: "http://x/1"}, {Name: "lib2", Version: "v2"}, {}}
	if w.split {
		scopes[2].SchemaURL = ""
	}
	base := time.Unix(1700000000, 0)
	at := func() time.Time { return base.Add(time.Duration(w.r.Int63n(1e12))) }
	nth := 0
	batch := func() []sdktrace.ReadOnlySpan {
		var stubs tracetest.SpanStubs
		res, sc := w.r.Intn(len(ress)), w.r.Intn(len(scopes))
		for n := w.r.Intn(7); n > 0; n-- {
			if w.one(3) {
				res = w.r.Intn(len(ress))
			}
			if w.one(3) {
				sc = w.r.Intn(len(scopes))
			}
			nth++
			st := tracetest.SpanStub{Name: fmt.Sprint(w.pick("op", "GET /x", ""), nth), SpanContext: w.spanContext(), SpanKind: trace.SpanKind(w.r.Intn(7)),
				StartTime: at(), EndTime: at(), Attributes: w.attrs(5), Resource: ress[res], InstrumentationScope: scopes[sc]}
			if w.one(2) {
				st.Parent = w.spanContext()
				if w.one(6) {
					st.Parent = st.Parent.WithTraceID(trace.TraceID{})
				}
			}
			switch w.r.Intn(3) {
			case 0:
				st.Status = sdktrace.Status{Code: otelcodes.Error, Description: w.pick("", "boom", "x")}
			case 1:
				st.Status = sdktrace.Status{Code: otelcodes.Ok}
			}
			for k := w.r.Intn(4) - 1; k > 0; k-- {
				e := sdktrace.Event{Name: w.pick("ev", "exception", ""), Attributes: w.attrs(4), Time: at()}
				if w.one(3) {
					e.DroppedAttributeCount = w.r.Intn(5)
				}
				if k < len(st.Events) && w.one(3) {
					e = st.Events[0]
				}
				st.Events = append(st.Events, e)
			}
			for k := w.r.Intn(4) - 1; k > 0; k-- {
				l := sdktrace.Link{SpanContext: w.spanContext(), Attributes: w.attrs(4)}
				switch w.r.Intn(12) {
				case 0:
					l.SpanContext = trace.SpanContext{}
				case 1:
					l.SpanContext = l.SpanContext.WithSpanID(trace.SpanID{})
				case 2:
					l.SpanContext = l.SpanContext.WithTraceID(trace.TraceID{})
				case 3:
					// a link to itself, or twice the same
					l.SpanContext = st.SpanContext
				}
				if w.one(3) {
					l.DroppedAttributeCount = w.r.Intn(5)
				}
				st.Links = append(st.Links, l)
			}
			if w.one(3) {
				st.DroppedAttributes, st.DroppedEvents, st.DroppedLinks = w.r.Intn(4), w.r.Intn(4), w.r.Intn(4)
			}
			stubs = append(stubs, st)
		}
		return stubs.Snapshots()
	}
	w.setMode("ok")
	for n := 1 + w.r.Intn(4); n > 0; n-- {
		if w.one(3) {
			w.setMode(w.pick("ok", "ok", "slow", "error", "timeout", "cancel"))
		}
		var run []func()
		for k := 1 + w.r.Intn(3); k > 0; k-- {
			id := w.calls
			w.calls++
			spans := batch()
			run = append(run, func() {
				ctx, cancel := w.context()
				defer cancel()
				proj := func() []M {
					in := []M{}
					for _, s := range spans {
						in = append(in, inSpan(s))
					}
					return in
				}
				in := proj()
				w.emit(M{"e": "call", "id": id, "in": in})
				err := exp.ExportSpans(ctx, spans)
				w.emit(M{"e": "ret", "id": id, "state": stateOf(err)})
				// the spans are still the caller's
				w.emit(M{"e": "same", "was": in, "is": proj()})
			})
		}
		w.together(run)
		w.srv.idle()
		w.observe("trace")
	}
	w.setMode("ok")
	err = exp.Shutdown(context.Background())
	w.emit(M{"e": "shut", "ok": err == nil})
}
