// Package vsvc stands between the service and its clock and storage: by models
// when interpreted, by text inserted into copies of the sources when run.
package vsvc

import (
	"context"
	"math/rand/v2"
	"time"

	"go.opentelemetry.io/otel/metric"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
)

// Ticks are the ticks of every ticker.
var Ticks chan time.Time

// Save receives what is handed to storage, when set.
var Save func([]*v1.Sample) error

//vsym:model time.NewTicker
func newTicker(d time.Duration) *time.Ticker { return &time.Ticker{C: Ticks} }

// NewTicker replaces time.NewTicker.
func NewTicker(d time.Duration) *time.Ticker { return newTicker(d) }

//vsym:model time.Tick
func tick(d time.Duration) <-chan time.Time { return Ticks }

// Tick replaces time.Tick.
func Tick(d time.Duration) <-chan time.Time { return tick(d) }

//vsym:model time.After
func after(d time.Duration) <-chan time.Time { return Ticks }

// After replaces time.After.
func After(d time.Duration) <-chan time.Time { return after(d) }

// Pause lets other goroutines run for a moment.
func Pause() {
	if Save != nil {
		time.Sleep(time.Duration(rand.IntN(200)) * time.Microsecond)
	}
}

// ---- instruments that record nothing ----

type provider struct{ metric.MeterProvider }

func (provider) Meter(string, ...metric.MeterOption) metric.Meter { return meter{} }

type meter struct{ metric.Meter }

func (meter) Int64Counter(string, ...metric.Int64CounterOption) (metric.Int64Counter, error) {
	return counter{}, nil
}

type counter struct{ metric.Int64Counter }

func (counter) Add(context.Context, int64, ...metric.AddOption) {}

//vsym:model go.opentelemetry.io/otel.GetMeterProvider
func getMeterProvider() metric.MeterProvider { return provider{} }
