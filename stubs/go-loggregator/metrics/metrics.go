// Package metrics is a stand-in for code.cloudfoundry.org/go-loggregator/metrics,
// which is not available offline. Only the surface log-cache uses is here.
package metrics

import (
	"io"
	"log"
	"net/http"
	"sync"
)

type Counter interface{ Add(float64) }
type Gauge interface {
	Add(float64)
	Set(float64)
}
type MetricOption func(map[string]string)
type RegistryOption func(*Registry)

type Registry struct{}

func NewRegistry(l *log.Logger, opts ...RegistryOption) *Registry { return &Registry{} }
func WithServer(port int) RegistryOption                          { return func(*Registry) {} }
func WithDefaultTags(t map[string]string) RegistryOption          { return func(*Registry) {} }
func WithTLSServer(port int, a, b, c string) RegistryOption       { return func(*Registry) {} }
func (r *Registry) NewCounter(name string, opts ...MetricOption) Counter {
	return &cell{}
}
func (r *Registry) NewGauge(name string, opts ...MetricOption) Gauge { return &cell{} }
func (r *Registry) Port() string                                     { return "0" }
func (r *Registry) Handler() http.Handler                            { return http.NotFoundHandler() }

type cell struct {
	mu sync.Mutex
	v  float64
}

func (c *cell) Add(d float64) { c.mu.Lock(); c.v += d; c.mu.Unlock() }
func (c *cell) Set(d float64) { c.mu.Lock(); c.v = d; c.mu.Unlock() }

func WithMetricTags(t map[string]string) MetricOption {
	return func(m map[string]string) {
		for k, v := range t {
			m[k] = v
		}
	}
}

var _ io.Writer
