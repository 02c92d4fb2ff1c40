// Package testhelpers is a stand-in for go-loggregator's metrics/testhelpers,
// so that log-cache's own tests of the packages that need it run here.
package testhelpers

import (
	"fmt"
	"sort"
	"sync"

	"code.cloudfoundry.org/go-loggregator/metrics"
)

type SpyMetricsRegistry struct {
	mu sync.Mutex
	m  map[string]*SpyMetric
}

type SpyMetric struct {
	mu sync.Mutex
	v  float64
}

func (c *SpyMetric) Add(d float64)  { c.mu.Lock(); c.v += d; c.mu.Unlock() }
func (c *SpyMetric) Set(d float64)  { c.mu.Lock(); c.v = d; c.mu.Unlock() }
func (c *SpyMetric) Value() float64 { c.mu.Lock(); defer c.mu.Unlock(); return c.v }

func NewMetricsRegistry() *SpyMetricsRegistry {
	return &SpyMetricsRegistry{m: map[string]*SpyMetric{}}
}

func key(name string, tags map[string]string) string {
	var ts []string
	for k, v := range tags {
		ts = append(ts, k+"="+v)
	}
	sort.Strings(ts)
	return fmt.Sprint(name, ts)
}

func (s *SpyMetricsRegistry) add(name string, opts []metrics.MetricOption) *SpyMetric {
	tags := map[string]string{}
	for _, o := range opts {
		o(tags)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	m := &SpyMetric{}
	s.m[key(name, tags)] = m
	return m
}
func (s *SpyMetricsRegistry) NewCounter(name string, opts ...metrics.MetricOption) metrics.Counter {
	return s.add(name, opts)
}
func (s *SpyMetricsRegistry) NewGauge(name string, opts ...metrics.MetricOption) metrics.Gauge {
	return s.add(name, opts)
}
func (s *SpyMetricsRegistry) GetMetric(name string, tags map[string]string) *SpyMetric {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.m[key(name, tags)]
}
func (s *SpyMetricsRegistry) HasMetric(name string, tags map[string]string) bool {
	return s.GetMetric(name, tags) != nil
}
func (s *SpyMetricsRegistry) GetMetricValue(name string, tags map[string]string) float64 {
	if m := s.GetMetric(name, tags); m != nil {
		return m.Value()
	}
	return -1
}
