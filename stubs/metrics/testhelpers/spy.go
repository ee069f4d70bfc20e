// Package testhelpers stands in for the package of that name beside metrics.
package testhelpers

import (
	"sort"
	"strings"
	"sync"

	"code.cloudfoundry.org/go-loggregator/metrics"
)

type SpyMetricsRegistry struct {
	mu sync.Mutex
	m  map[string]*SpyMetric
}

type SpyMetric struct {
	mu sync.Mutex
	v  float64
}

func (s *SpyMetric) Add(d float64)  { s.mu.Lock(); s.v += d; s.mu.Unlock() }
func (s *SpyMetric) Set(d float64)  { s.mu.Lock(); s.v = d; s.mu.Unlock() }
func (s *SpyMetric) Value() float64 { s.mu.Lock(); defer s.mu.Unlock(); return s.v }

func NewMetricsRegistry() *SpyMetricsRegistry {
	return &SpyMetricsRegistry{m: map[string]*SpyMetric{}}
}

func key(name string, tags map[string]string) string {
	var ks []string
	for k, v := range tags {
		ks = append(ks, k+"_"+v)
	}
	sort.Strings(ks)
	return name + strings.Join(ks, ",")
}

func (s *SpyMetricsRegistry) add(name string, opts []metrics.MetricOption) *SpyMetric {
	o := &metrics.Options{Name: name, ConstLabels: map[string]string{}}
	for _, f := range opts {
		f(o)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	k := key(name, o.ConstLabels)
	if s.m[k] == nil {
		s.m[k] = &SpyMetric{}
	}
	return s.m[k]
}

func (s *SpyMetricsRegistry) NewCounter(name string, opts ...metrics.MetricOption) metrics.Counter {
	return s.add(name, opts)
}

func (s *SpyMetricsRegistry) NewGauge(name string, opts ...metrics.MetricOption) metrics.Gauge {
	return s.add(name, opts)
}

func (s *SpyMetricsRegistry) GetMetric(name string, tags map[string]string) *SpyMetric {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.m[key(name, tags)]
}

func (s *SpyMetricsRegistry) HasMetric(name string, tags map[string]string) bool {
	return s.GetMetric(name, tags) != nil
}

func (s *SpyMetricsRegistry) GetMetricValue(name string, tags map[string]string) float64 {
	if m := s.GetMetric(name, tags); m != nil {
		return m.Value()
	}
	return -1
}
