// Package metrics stands in for code.cloudfoundry.org/go-loggregator/metrics
// of a later release (not in this sandbox's module cache): the names the
// repository uses, without Prometheus behind them.
package metrics

import (
	"log"
	"sync"
)

// Counter and Gauge are what the repository's metrics are.
type Counter interface {
	Add(float64)
}

type Gauge interface {
	Add(float64)
	Set(float64)
}

// MetricOption configures a metric's options.
type MetricOption func(*Options)

// Options of a metric.
type Options struct {
	Name, Help  string
	ConstLabels map[string]string
}

// WithMetricTags adds tags.
func WithMetricTags(tags map[string]string) MetricOption {
	return func(o *Options) {
		for k, v := range tags {
			o.ConstLabels[k] = v
		}
	}
}

// WithHelpText sets the help text.
func WithHelpText(help string) MetricOption { return func(o *Options) { o.Help = help } }

// Registry makes metrics.
type Registry struct{}

// RegistryOption configures a registry.
type RegistryOption func(*Registry)

// NewRegistry returns a registry.
func NewRegistry(*log.Logger, ...RegistryOption) *Registry { return &Registry{} }

// WithDefaultTags and WithServer are registry options.
func WithDefaultTags(map[string]string) RegistryOption { return func(*Registry) {} }
func WithServer(int) RegistryOption                    { return func(*Registry) {} }

type value struct {
	mu sync.Mutex
	v  float64
}

func (v *value) Add(d float64) { v.mu.Lock(); v.v += d; v.mu.Unlock() }
func (v *value) Set(d float64) { v.mu.Lock(); v.v = d; v.mu.Unlock() }

// NewCounter and NewGauge return a metric.
func (r *Registry) NewCounter(name string, opts ...MetricOption) Counter { return &value{} }
func (r *Registry) NewGauge(name string, opts ...MetricOption) Gauge     { return &value{} }
