package service

import (
	"context"
	"path/filepath"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/samples"
	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/store"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/vmodel"
	"github.com/gernest/requiemdb/internal/vmodel/vsvc"
	"github.com/gernest/requiemdb/internal/vsym"
	collector_logs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

//vsym:model (*github.com/gernest/requiemdb/internal/store.Storage).SaveSamples
func vSaveSamples(s *store.Storage, ctx context.Context, list *samples.List) error {
	return vsvc.Save(list.Items)
}

// vCtx is a context that ends when it is told to.
type vCtx struct {
	context.Context
	done chan struct{}
}

func (c vCtx) Done() <-chan struct{} { return c.done }

func (c vCtx) Err() error {
	select {
	case <-c.done:
		return context.Canceled
	default:
		return nil
	}
}

// vRec is what storage was handed.
type vRec struct {
	id   uint64
	kind int
	tag  uint64
}

func vOf(s *v1.Sample) vRec {
	r := vRec{id: s.Id, kind: -1}
	switch e := s.Data.Data.(type) {
	case *v1.Data_Metrics:
		r.kind, r.tag = 0, uint64(e.Metrics.ResourceMetrics[0].ScopeMetrics[0].Metrics[0].GetGauge().DataPoints[0].TimeUnixNano)
	case *v1.Data_Traces:
		r.kind, r.tag = 1, e.Traces.ResourceSpans[0].ScopeSpans[0].Spans[0].StartTimeUnixNano
	case *v1.Data_Logs:
		r.kind, r.tag = 2, e.Logs.ResourceLogs[0].ScopeLogs[0].LogRecords[0].TimeUnixNano
	}
	return r
}

func vExport(s *Service, kind int, tag uint64) error {
	ctx := context.Background()
	var err error
	switch kind {
	case 0:
		_, err = s.Metrics().Export(ctx, &collector_metrics.ExportMetricsServiceRequest{ResourceMetrics: []*metricsv1.ResourceMetrics{{
			ScopeMetrics: []*metricsv1.ScopeMetrics{{Metrics: []*metricsv1.Metric{{Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{
				DataPoints: []*metricsv1.NumberDataPoint{{TimeUnixNano: tag}},
			}}}}}},
		}}})
	case 1:
		_, err = s.Trace().Export(ctx, &collector_trace.ExportTraceServiceRequest{ResourceSpans: []*tracev1.ResourceSpans{{
			ScopeSpans: []*tracev1.ScopeSpans{{Spans: []*tracev1.Span{{StartTimeUnixNano: tag}}}},
		}}})
	case 2:
		_, err = s.Logs().Export(ctx, &collector_logs.ExportLogsServiceRequest{ResourceLogs: []*logsv1.ResourceLogs{{
			ScopeLogs: []*logsv1.ScopeLogs{{LogRecords: []*logsv1.LogRecord{{TimeUnixNano: tag}}}},
		}}})
	}
	return err
}

// vCount counts records of the kind and payload.
func vCount(l []vRec, kind int, tag uint64) (n uint64) {
	for i := range l {
		x := l[len(l)-1-i]
		n = vsym.IteU64(vsym.And(x.kind == kind, x.tag == tag), n+1, n)
	}
	return
}

// VsymService exports from two goroutines while the service flushes, and
// closes it.
//
//vsym:harness C17 time=150 ttime=500 race=yes hooks=service repeat=200
//vsym:bound two goroutines that export one sample each (thorough: one and two) of any kind with any payload tag, up to two flushes at any point between and during them, one export after they ended, then a shutdown; every interleaving with at most one preemption (thorough: two)
//vsym:assume exports end before the service is closed; the storage itself is decided by C01, C18 and C20
func VsymService() {
	dir := vsym.TempDir()
	db := vmodel.OpenDB(filepath.Join(dir, "db"))
	tr, err := translate.New(db, []byte("5"))
	vsym.Assert(err == nil, "opening fails")
	sq, err := seq.New(db)
	vsym.Assert(err == nil, "opening fails")
	idx := shards.New(filepath.Join(dir, "index"), nil)
	ctx := vCtx{Context: context.Background(), done: make(chan struct{})}

	vsvc.Ticks = make(chan time.Time)
	var got []vRec
	calls := 0
	vsvc.Save = func(l []*v1.Sample) error {
		calls++
		var now []vRec
		for _, s := range l {
			now = append(now, vOf(s))
		}
		vsym.Yield()
		for i, s := range l {
			vsym.Assert(s != nil, "samples are lost while they are saved")
			o := vOf(s)
			vsym.Assert(vsym.And(o.id == now[i].id, vsym.And(o.kind == now[i].kind, o.tag == now[i].tag)), "samples change while they are saved")
		}
		vsym.Assert(len(l) == len(now), "samples change while they are saved")
		got = append(got, now...)
		return nil
	}

	st, err := store.NewStore(db, idx, tr, sq, time.Now)
	vsym.Assert(err == nil, "opening fails")
	st.SaveSamples(ctx, samples.Get())
	if calls == 0 {
		return // what is handed to storage cannot be seen
	}
	svc, err := NewService(ctx, db, tr, sq, idx, time.Now, "", 0)
	vsym.Assert(err == nil, "opening fails")
	vsym.Preempt(vsym.Bound(1, 2))
	svc.Start(ctx)

	var sent []vRec
	n := vsym.Bound(2, 3)
	for i := 0; i <= n; i++ {
		kind := []int{0, 0, 1, 2}[i]
		sent = append(sent, vRec{kind: kind, tag: vsym.U64("tag")})
	}
	vsym.Go(func() {
		for i := 0; i < 1; i++ {
			vsym.Assert(vExport(svc, sent[i].kind, sent[i].tag) == nil, "an export fails")
		}
	})
	vsym.Go(func() {
		for i := 1; i < n; i++ {
			vsym.Assert(vExport(svc, sent[i].kind, sent[i].tag) == nil, "an export fails")
		}
	})
	for i := vsym.Choose("flushes", 3); i > 0; i-- {
		vsvc.Ticks <- time.Time{}
	}
	vsym.Wait()
	vsym.Assert(vExport(svc, sent[n].kind, sent[n].tag) == nil, "an export fails")
	close(ctx.done)
	svc.Close()
	vsym.Preempt(0)
	vsym.Observe("saved", len(got))
	// any payload was saved as often as it was sent
	any := vsym.U64("any")
	for kind := range 3 {
		k, want := vCount(got, kind, any), vCount(sent, kind, any)
		vsym.Assert(k >= want, "an acknowledged export was never handed to storage")
		vsym.Assert(k <= want, "an export was handed to storage twice")
	}
	vsym.Assert(len(got) == len(sent), "storage was handed something that was not exported")
	for i := range got {
		for j := range got[:i] {
			vsym.Assert(got[i].id != got[j].id, "two samples have one id")
			// the id of a sample is its row in the store, which are appended
			vsym.Assert(got[i].id > got[j].id, "a sample is handed to storage after one with a later id")
		}
	}
	idx.Close()
	tr.Close()
	sq.Release()
	db.Close()
}
