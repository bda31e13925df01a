package main

import (
	"bufio"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	metricpb "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	tracepb "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	commonpb "go.opentelemetry.io/proto/otlp/common/v1"
	mpb "go.opentelemetry.io/proto/otlp/metrics/v1"
	"google.golang.org/grpc"
	_ "google.golang.org/grpc/encoding/gzip"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/stats"
)

// log is the trace of the program.
type trace struct {
	mu sync.Mutex
	ev []M
}

func (t *trace) emit(m M) {
	t.mu.Lock()
	t.ev = append(t.ev, m)
	t.mu.Unlock()
}

// find waits until an event satisfies f.
func (t *trace) find(f func(M) bool, d time.Duration) bool {
	end := time.Now().Add(d)
	for {
		t.mu.Lock()
		for _, e := range t.ev {
			if f(e) {
				t.mu.Unlock()
				return true
			}
		}
		t.mu.Unlock()
		if time.Now().After(end) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// ---- certificates ----

type certs struct {
	ca   string // PEM
	good tls.Certificate
	bad  tls.Certificate // for another host
}

func newCerts() *certs {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif CA"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	must(err)
	ca, err := x509.ParseCertificate(der)
	must(err)
	leaf := func(n int64, ip net.IP) tls.Certificate {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		t := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
			IPAddresses: []net.IP{ip}, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
		d, err := x509.CreateCertificate(rand.Reader, t, ca, &k.PublicKey, key)
		must(err)
		return tls.Certificate{Certificate: [][]byte{d}, PrivateKey: k}
	}
	return &certs{ca: string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})),
		good: leaf(2, net.IPv4(127, 0, 0, 1)), bad: leaf(3, net.IPv4(127, 9, 9, 9))}
}

func must(err error) {
	if err != nil {
		os.Stderr.WriteString(err.Error() + "\n")
		os.Exit(3)
	}
}

// ---- backend ----

// sniffer accepts plaintext and TLS connections on one port.
type sniffer struct {
	net.Listener
	name string
	tr   *trace
	tls  *tls.Config
	ch   chan net.Conn
}

type secConn struct {
	net.Conn
	r   *bufio.Reader
	sec string
}

func (c *secConn) Read(b []byte) (int, error) { return c.r.Read(b) }

// secAddr carries how the connection is secured to the handlers.
type secAddr struct {
	net.Addr
	sec string
}

func (c *secConn) RemoteAddr() net.Addr { return secAddr{c.Conn.RemoteAddr(), c.sec} }

func (s *sniffer) run() {
	for {
		c, err := s.Listener.Accept()
		if err != nil {
			return
		}
		go func() {
			r := bufio.NewReader(c)
			b, err := r.Peek(1)
			if err != nil {
				c.Close()
				return
			}
			raw := &secConn{Conn: c, r: r, sec: "plain"}
			if b[0] != 0x16 {
				s.tr.emit(M{"e": "conn", "srv": s.name, "sec": "plain", "ok": true})
				s.ch <- raw
				return
			}
			tc := tls.Server(raw, s.tls)
			err = tc.Handshake()
			s.tr.emit(M{"e": "conn", "srv": s.name, "sec": "tls", "ok": err == nil})
			if err != nil {
				c.Close()
				return
			}
			s.ch <- &secConn{Conn: tc, r: bufio.NewReader(tc), sec: "tls"}
		}()
	}
}

func (s *sniffer) Accept() (net.Conn, error) { return <-s.ch, nil }

type backend struct {
	metricpb.UnimplementedMetricsServiceServer
	name, addr string
	tr         *trace
}

type traceBackend struct {
	tracepb.UnimplementedTraceServiceServer
	*backend
}

type encKey struct{}
type comp struct{}

func (comp) TagRPC(ctx context.Context, _ *stats.RPCTagInfo) context.Context {
	return context.WithValue(ctx, encKey{}, new(string))
}
func (comp) HandleRPC(ctx context.Context, s stats.RPCStats) {
	if h, ok := s.(*stats.InHeader); ok {
		if p, ok := ctx.Value(encKey{}).(*string); ok {
			*p = h.Compression
		}
	}
}
func (comp) TagConn(ctx context.Context, _ *stats.ConnTagInfo) context.Context { return ctx }
func (comp) HandleConn(context.Context, stats.ConnStats)                       {}

func newBackend(name string, tr *trace, cert tls.Certificate) *backend {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := &sniffer{Listener: l, name: name, tr: tr, ch: make(chan net.Conn, 16),
		tls: &tls.Config{Certificates: []tls.Certificate{cert}, NextProtos: []string{"h2"}}}
	go s.run()
	b := &backend{name: name, addr: l.Addr().String(), tr: tr}
	g := grpc.NewServer(grpc.StatsHandler(comp{}), grpc.MaxRecvMsgSize(64<<20))
	metricpb.RegisterMetricsServiceServer(g, b)
	tracepb.RegisterTraceServiceServer(g, &traceBackend{backend: b})
	go g.Serve(s)
	return b
}

func (b *backend) req(ctx context.Context, sig string, m M) {
	in, _ := metadata.FromIncomingContext(ctx)
	hd := []M{}
	for _, h := range headerKeys {
		hd = append(hd, M{"k": h, "v": strings.Join(in.Get(h), "|")})
	}
	m["e"], m["srv"], m["sig"], m["hd"], m["sec"], m["enc"] = "req", b.name, sig, hd, "?", ""
	if p, ok := peer.FromContext(ctx); ok {
		if a, ok := p.Addr.(secAddr); ok {
			m["sec"] = a.sec
		}
	}
	if p, ok := ctx.Value(encKey{}).(*string); ok {
		m["enc"] = *p
	}
	b.tr.emit(m)
}

func kvs(in []*commonpb.KeyValue) []M {
	out := []M{}
	for _, kv := range in {
		v := "?"
		if s, ok := kv.Value.GetValue().(*commonpb.AnyValue_StringValue); ok {
			v = s.StringValue
		}
		out = append(out, M{"k": kv.Key, "v": v})
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i]["k"].(string) < out[j]["k"].(string) })
	return out
}

const appScope = "app"

func (b *traceBackend) Export(ctx context.Context, r *tracepb.ExportTraceServiceRequest) (*tracepb.ExportTraceServiceResponse, error) {
	res, names := [][]M{}, []string{}
	for _, rs := range r.ResourceSpans {
		res = append(res, kvs(rs.Resource.GetAttributes()))
		for _, ss := range rs.ScopeSpans {
			for _, s := range ss.Spans {
				if ss.Scope.GetName() == appScope {
					names = append(names, s.Name)
				}
			}
		}
	}
	b.req(ctx, "span", M{"res": res, "spans": names, "items": []M{}, "scopes": []string{}})
	return &tracepb.ExportTraceServiceResponse{}, nil
}

func num(dp *mpb.NumberDataPoint) int {
	if v, ok := dp.Value.(*mpb.NumberDataPoint_AsInt); ok {
		return int(v.AsInt)
	}
	return int(dp.GetAsDouble())
}

func tempo(t mpb.AggregationTemporality) string {
	switch t {
	case mpb.AggregationTemporality_AGGREGATION_TEMPORALITY_DELTA:
		return "delta"
	case mpb.AggregationTemporality_AGGREGATION_TEMPORALITY_CUMULATIVE:
		return "cum"
	}
	return "unspecified"
}

func (b *backend) Export(ctx context.Context, r *metricpb.ExportMetricsServiceRequest) (*metricpb.ExportMetricsServiceResponse, error) {
	res, items := [][]M{}, []M{}
	sc := map[string]bool{}
	for _, rm := range r.ResourceMetrics {
		res = append(res, kvs(rm.Resource.GetAttributes()))
		for _, sm := range rm.ScopeMetrics {
			sc[sm.Scope.GetName()] = true
			if sm.Scope.GetName() != appScope {
				continue
			}
			for _, m := range sm.Metrics {
				switch d := m.Data.(type) {
				case *mpb.Metric_Sum:
					for _, dp := range d.Sum.DataPoints {
						items = append(items, M{"n": m.Name, "type": "sum", "mono": d.Sum.IsMonotonic, "tempo": tempo(d.Sum.AggregationTemporality), "v": num(dp), "cnt": 0})
					}
				case *mpb.Metric_Gauge:
					for _, dp := range d.Gauge.DataPoints {
						items = append(items, M{"n": m.Name, "type": "gauge", "mono": false, "tempo": "none", "v": num(dp), "cnt": 0})
					}
				case *mpb.Metric_ExponentialHistogram:
					for _, dp := range d.ExponentialHistogram.DataPoints {
						items = append(items, M{"n": m.Name, "type": "hist", "mono": false, "tempo": tempo(d.ExponentialHistogram.AggregationTemporality), "v": int(dp.GetSum()), "cnt": int(dp.Count)})
					}
				default:
					items = append(items, M{"n": m.Name, "type": "other", "mono": false, "tempo": "none", "v": 0, "cnt": 0})
				}
			}
		}
	}
	scopes := []string{}
	for _, s := range []string{"otel_launcher_go/host", "otel-launcher-go/runtime", "otel_launcher_go/cputime"} {
		if sc[s] {
			scopes = append(scopes, s)
		}
	}
	b.req(ctx, "metric", M{"res": res, "spans": []string{}, "items": items, "scopes": scopes})
	return &metricpb.ExportMetricsServiceResponse{}, nil
}
