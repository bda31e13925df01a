// peri runs random schedules of provider and periodic reader calls in
// virtual time (testing/synctest) and writes what happened, one program per
// line, for validation against spec/Periodic.tla.
package peri

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	sdk "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/metric"
)

var (
	seed = flag.Int64("seed", 1, "")
	secs = flag.Int("secs", 5, "")
	nmax = flag.Int("n", 1000, "")
	fam  = flag.String("fam", "peri", "")
	outF = flag.String("out", "", "")
)

type M = map[string]any

const inf = 1000000000
const already = 1

type rcfg struct {
	IV    int  `json:"iv"`
	TO    int  `json:"to"`
	Push  bool `json:"push"`
	Delta bool `json:"delta"`
}

type opKey struct{}

type xerr struct{ r, id int }

func (e xerr) Error() string { return fmt.Sprintf("export error %d", e.id) }

type prog struct {
	mu    sync.Mutex // of the log
	start time.Time
	ev    []M
	nk    int // meter keys
	per   int // per provider
	errs  []xerr
	names []string
}

var cur atomic.Pointer[prog]
var progress atomic.Int64

func (p *prog) log(e string, m M) {
	p.mu.Lock()
	defer p.mu.Unlock()
	m["e"] = e
	m["t"] = int(time.Since(p.start) / time.Millisecond)
	p.ev = append(p.ev, m)
}

func (p *prog) newErr(r int) xerr {
	p.mu.Lock()
	defer p.mu.Unlock()
	x := xerr{r, len(p.errs) + 2}
	p.errs = append(p.errs, x)
	return x
}

type handler struct{}

func (handler) Handle(err error) {
	p := cur.Load()
	if p == nil {
		return
	}
	var x xerr
	switch {
	case errors.As(err, &x):
		p.log("herr", M{"r": x.r, "err": x.id})
	case errors.Is(err, sdk.ErrMultipleReaderRegistration):
		r := 0
		for i, n := range p.names {
			if strings.Contains(err.Error(), n) {
				r = i + 1
			}
		}
		p.log("multi", M{"r": r})
	default:
		p.log("other", M{"what": err.Error()})
	}
}

// sums projects collected data: the sum per meter key.
func (p *prog) sums(d data.Metrics) []int {
	out := make([]int, p.nk)
	for _, sc := range d.Scopes {
		var pr, k int
		fmt.Sscanf(sc.Library.Name, "m%d.%d", &pr, &k)
		for _, in := range sc.Instruments {
			for _, pt := range in.Points {
				v := int(number.ToInt64(pt.Aggregation.(aggregation.Sum).Sum()))
				out[(pr-1)*p.per+k-1] += v
			}
		}
	}
	return out
}

// deep is what must not change while an exporter has the data.
func (p *prog) deep(d data.Metrics) any {
	var res []any
	for _, sc := range d.Scopes {
		res = append(res, sc.Library.Name, len(sc.Instruments))
		for _, in := range sc.Instruments {
			res = append(res, in.Descriptor.Name, len(in.Points))
			for _, pt := range in.Points {
				res = append(res, pt.Start, pt.End, pt.Attributes, pt.Temporality, number.ToInt64(pt.Aggregation.(aggregation.Sum).Sum()))
			}
		}
	}
	return res
}

type plan struct {
	dur  int
	obey bool
	fail bool
	gos  int
}

// exporter takes its time, and may heed its context.
type exporter struct {
	p     *prog
	r     int
	name  string
	mu    sync.Mutex
	plans []plan
	n     int
}

func (x *exporter) String() string { return x.name }

func (x *exporter) do(ctx context.Context, kind string, d data.Metrics) error {
	x.mu.Lock()
	pl := x.plans[x.n%len(x.plans)]
	x.n++
	x.mu.Unlock()
	cx := M{"op": 0, "dl": inf, "err": "none"}
	if v, ok := ctx.Value(opKey{}).(int); ok {
		cx["op"] = v
	}
	if dl, ok := ctx.Deadline(); ok {
		cx["dl"] = int(dl.Sub(x.p.start) / time.Millisecond)
	}
	cx["err"] = ctxErr(ctx.Err())
	before := x.p.deep(d)
	x.p.log("xb", M{"r": x.r, "k": kind, "cx": cx, "d": x.p.sums(d), "dur": pl.dur, "obey": pl.obey})
	for i := 0; i < pl.gos; i++ {
		runtime.Gosched()
	}
	how := "slept"
	tm := time.NewTimer(time.Duration(pl.dur) * time.Millisecond)
	if pl.obey {
		select {
		case <-tm.C:
		case <-ctx.Done():
			how = ctxErr(ctx.Err())
		}
		tm.Stop()
	} else {
		<-tm.C
	}
	id := 0
	var err error
	if pl.fail || how != "slept" {
		e := x.p.newErr(x.r)
		id, err = e.id, e
	}
	x.p.log("xe", M{"r": x.r, "k": kind, "how": how, "err": id, "same": reflect.DeepEqual(before, x.p.deep(d))})
	return err
}

func ctxErr(err error) string {
	switch {
	case err == nil:
		return "none"
	case errors.Is(err, context.DeadlineExceeded):
		return "deadline"
	default:
		return "canceled"
	}
}

func (x *exporter) ExportMetrics(ctx context.Context, d data.Metrics) error {
	return x.do(ctx, "export", d)
}
func (x *exporter) ForceFlushMetrics(ctx context.Context, d data.Metrics) error {
	return x.do(ctx, "flush", d)
}
func (x *exporter) ShutdownMetrics(ctx context.Context, d data.Metrics) error {
	return x.do(ctx, "shutdown", d)
}

type step struct {
	t int
	f func()
}

func run(rng *rand.Rand, fam string) M {
	p := &prog{start: time.Now()}
	cur.Store(p)
	defer cur.Store(nil)

	np, nr, per := 1, 1+rng.Intn(2), 2
	manual := 0.15
	if fam == "prov" {
		np, nr, manual = 1+rng.Intn(2), 1+rng.Intn(3), 0.3
	}
	p.per, p.nk = per, per*np
	even := func(lo, hi int) int { return 2 * (lo + rng.Intn(hi-lo+1)) }
	big := rng.Intn(12) == 0 // default interval and timeout
	var rc []rcfg
	var readers []sdk.Reader
	for r := 1; r <= nr; r++ {
		c := rcfg{IV: even(2, 8), Push: rng.Float64() > manual, Delta: rng.Intn(2) == 0}
		ivArg := c.IV
		if big {
			c.IV = even(7000, 20000)
			ivArg = c.IV
			if rng.Intn(2) == 0 {
				c.IV, ivArg = int(sdk.DefaultInterval/time.Millisecond), -rng.Intn(2)
			}
		}
		c.TO = c.IV
		var opts []sdk.PeriodicReaderOption
		if rng.Intn(2) == 0 {
			c.TO = even(1, 6)
			arg := c.TO
			if rng.Intn(6) == 0 {
				c.TO, arg = int(sdk.DefaultTimeout/time.Millisecond), -rng.Intn(2)
			}
			opts = append(opts, sdk.WithTimeout(time.Duration(arg)*time.Millisecond))
		}
		name := fmt.Sprintf("rd%d-x", r)
		p.names = append(p.names, name)
		if c.Push {
			x := &exporter{p: p, r: r, name: name}
			slow := rng.Intn(3)
			for i := 0; i < 24; i++ {
				pl := plan{obey: rng.Intn(3) > 0, fail: rng.Intn(5) == 0, gos: rng.Intn(3)}
				if rng.Intn(3) <= slow {
					pl.dur = even(0, 3+6*slow)
					if big && rng.Intn(3) == 0 {
						pl.dur = even(1000, 30000)
					}
				}
				x.plans = append(x.plans, pl)
			}
			iv := time.Duration(ivArg) * time.Millisecond
			readers = append(readers, sdk.NewPeriodicReader(x, iv, opts...))
		} else {
			c.IV, c.TO = 0, 0
			readers = append(readers, sdk.NewManualReader(name))
		}
		rc = append(rc, c)
	}
	pvr := make([][]int, np)
	for i := range pvr {
		pvr[i] = []int{}
		for r := range readers {
			if np == 1 || rng.Intn(3) > 0 {
				pvr[i] = append(pvr[i], r+1)
			}
		}
		rng.Shuffle(len(pvr[i]), func(a, b int) { pvr[i][a], pvr[i][b] = pvr[i][b], pvr[i][a] })
	}
	provs := make([]*sdk.MeterProvider, np)
	registered := map[int]bool{}
	newProv := func(i int) {
		p.log("pb", M{"p": i + 1})
		var opts []sdk.Option
		for _, r := range pvr[i] {
			opt := view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality {
				if rc[r-1].Delta {
					return aggregation.DeltaTemporality
				}
				return aggregation.CumulativeTemporality
			})
			opts = append(opts, sdk.WithReader(readers[r-1], opt))
			registered[r] = true
		}
		provs[i] = sdk.NewMeterProvider(opts...)
		p.log("pe", M{"p": i + 1})
	}
	newProv(0)

	// handles
	type handle struct{ c metric.Int64Counter }
	var hs []handle
	meter := func(pi, k int) {
		p.log("mb", M{"p": pi + 1, "k": pi*per + k + 1})
		m := provs[pi].Meter(fmt.Sprintf("m%d.%d", pi+1, k+1))
		p.log("me", M{})
		c, err := m.Int64Counter("c")
		if err != nil {
			p.log("other", M{"what": err.Error()})
		}
		hs = append(hs, handle{c})
	}
	meter(0, 0)

	var wg sync.WaitGroup
	opn := 0
	call := func(kind string, pi, r int, dl int, gos int) {
		opn++
		id := opn
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < gos; i++ {
				runtime.Gosched()
			}
			ctx := context.WithValue(context.Background(), opKey{}, id)
			abs := inf
			if dl > 0 {
				at := time.Now().Add(time.Duration(dl) * time.Millisecond)
				abs = int(at.Sub(p.start) / time.Millisecond)
				var cancel context.CancelFunc
				ctx, cancel = context.WithDeadline(ctx, at)
				defer cancel()
			}
			p.log("call", M{"op": id, "k": kind, "p": pi, "r": r, "dl": abs})
			var err error
			switch {
			case pi > 0 && kind == "flush":
				err = provs[pi-1].ForceFlush(ctx)
			case pi > 0:
				err = provs[pi-1].Shutdown(ctx)
			case kind == "flush":
				err = readers[r-1].ForceFlush(ctx)
			default:
				err = readers[r-1].Shutdown(ctx)
			}
			es := []int{}
			if errors.Is(err, sdk.ErrAlreadyShutdown) {
				es = append(es, already)
			}
			p.mu.Lock()
			known := append([]xerr(nil), p.errs...)
			p.mu.Unlock()
			for _, x := range known {
				if errors.Is(err, x) {
					es = append(es, x.id)
				}
			}
			if err != nil && len(es) == 0 {
				es = append(es, -1)
			}
			p.log("ret", M{"op": id, "errs": es})
		}()
	}

	horizon := even(10, 40)
	if big {
		horizon = even(15000, 40000)
	}
	var steps []step
	at := func(t int, f func()) { steps = append(steps, step{t, f}) }
	created := 1
	if np > 1 {
		at(even(0, 8), func() {
			newProv(1)
			created = 2
		})
	}
	for i, n := 0, 2+rng.Intn(10); i < n; i++ {
		v := 1 << rng.Intn(6)
		pick := rng.Intn(100)
		at(even(0, horizon/2)+1, func() {
			h := pick % len(hs)
			if hs[h].c == nil {
				return
			}
			hs[h].c.Add(context.Background(), int64(v))
			p.log("add", M{"h": h + 1, "v": v})
		})
	}
	for i, n := 0, rng.Intn(4); i < n; i++ {
		k, pick := rng.Intn(per), rng.Intn(100)
		at(even(0, horizon/2), func() { meter(pick%created, k) })
	}
	for r := range readers {
		if mr, ok := readers[r].(*sdk.ManualReader); ok {
			for i, n := 0, 1+rng.Intn(4); i < n; i++ {
				at(rng.Intn(horizon+20), func() {
					if mr.Producer != nil {
						p.log("col", M{"r": r + 1, "d": p.sums(mr.Produce(nil))})
					}
				})
			}
		}
	}
	when := func() int {
		if rng.Intn(2) == 0 {
			// at a tick
			r := rng.Intn(nr)
			if rc[r].Push {
				return rc[r].IV * (1 + rng.Intn(1+horizon/rc[r].IV))
			}
		}
		return even(0, horizon/2)
	}
	nops := 1 + rng.Intn(5)
	last := -1
	for i := 0; i < nops; i++ {
		t := when()
		if last >= 0 && rng.Intn(3) == 0 {
			t = last
		}
		last = t
		kind := "flush"
		if rng.Intn(10) < 3 {
			kind = "shutdown"
		}
		dl := 0
		if rng.Intn(3) == 0 {
			dl = even(1, 10)
		}
		direct := rng.Intn(4) == 0
		pick, gos := rng.Intn(100), rng.Intn(3)
		at(t, func() {
			if direct {
				r := pick % nr
				if registered[r+1] {
					call(kind, 0, r+1, dl, gos)
				}
				return
			}
			call(kind, 1+pick%created, 1, dl, gos)
		})
	}
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].t < steps[j].t })
	for _, s := range steps {
		if d := s.t - int(time.Since(p.start)/time.Millisecond); d > 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
		}
		s.f()
	}
	if d := horizon + 2 - int(time.Since(p.start)/time.Millisecond); d > 0 {
		time.Sleep(time.Duration(d) * time.Millisecond)
	}
	// shut down what still runs, and see that nothing happens afterwards
	wg.Wait()
	for i := 0; i < created; i++ {
		call("shutdown", i+1, 1, 0, 0)
		wg.Wait()
	}
	for r := range readers {
		if registered[r+1] && rng.Intn(2) == 0 {
			call([]string{"flush", "shutdown"}[rng.Intn(2)], 0, r+1, 0, 0)
			wg.Wait()
		}
	}
	if off := int(time.Since(p.start)/time.Millisecond) % 2; off == 0 {
		time.Sleep(time.Millisecond)
	}
	if len(hs) > 0 && hs[0].c != nil {
		hs[0].c.Add(context.Background(), 64)
		p.log("add", M{"h": 1, "v": 64})
	}
	time.Sleep(50 * time.Millisecond)
	for r := range readers {
		if mr, ok := readers[r].(*sdk.ManualReader); ok && mr.Producer != nil {
			p.log("col", M{"r": r + 1, "d": p.sums(mr.Produce(nil))})
		}
	}
	p.log("end", M{})
	return M{"cfg": M{"rd": rc, "pv": pvr, "nk": p.nk}, "ev": p.ev}
}

func TestRun(t *testing.T) {
	otel.SetErrorHandler(handler{})
	f, err := os.Create(*outF)
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriter(f)
	enc := json.NewEncoder(w)
	fams := strings.Split(*fam, ",")
	deadline := time.Now().Add(time.Duration(*secs) * time.Second)
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			if n := progress.Load(); n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > 40*time.Second {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "panic: program does not end\n\n%s\n", buf)
				os.Exit(2)
			}
		}
	}()
	n, evs := 0, 0
	for ; n < *nmax && time.Now().Before(deadline); n++ {
		rng := rand.New(rand.NewSource(*seed*1000003 + int64(n)))
		var rec M
		synctest.Test(t, func(t *testing.T) {
			rec = run(rng, fams[n%len(fams)])
		})
		progress.Add(1)
		evs += len(rec["ev"].([]M))
		if err := enc.Encode(rec); err != nil {
			t.Fatal(err)
		}
	}
	w.Flush()
	f.Close()
	fmt.Fprintf(os.Stderr, "{\"programs\":%d,\"events\":%d}\n", n, evs)
}
