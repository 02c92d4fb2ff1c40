package blackbox

import (
	"context"
	"errors"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
	"verif.local/spec"
)

var errDown_ = errors.New("down")

type fakeIngress_ struct {
	send func(context.Context, *logcache_v1.SendRequest) (*logcache_v1.SendResponse, error)
}

func (f fakeIngress_) Send(c context.Context, r *logcache_v1.SendRequest, _ ...grpc.CallOption) (*logcache_v1.SendResponse, error) {
	return f.send(c, r)
}

type fakeUptime_ struct {
	uptime func(context.Context) (int64, error)
}

func (f fakeUptime_) PromQL(c context.Context, q string, opts ...client.PromQLOption) (*logcache_v1.PromQL_InstantQueryResult, error) {
	return nil, errDown_
}
func (f fakeUptime_) LogCacheVMUptime(c context.Context) (int64, error) { return f.uptime(c) }

// ContractMeasuredMetrics: name is an arbitrary metric name.
func ContractMeasuredMetrics(source string, metrics map[string]float64, name string, up int64, unknown, down bool) {
	v, has := metrics[name]
	spec.Invariant(func(out map[string]*loggregator_v2.GaugeValue, seen spec.Visited[string]) bool {
		g, ok := out[name]
		return ok == (has && seen.Has(name)) && (!ok || g != nil && g.Value == v && g.Unit == "%")
	})
	sends := 0
	t0 := time.Now()
	ingress := fakeIngress_{func(ctx context.Context, r *logcache_v1.SendRequest) (*logcache_v1.SendResponse, error) {
		sends++
		d, ok := ctx.Deadline()
		spec.Ensures("sending has a deadline", ok && !d.After(time.Now().Add(10*time.Second)))
		spec.Ensures("the metrics are one gauge", len(r.Envelopes.Batch) == 1)
		e := r.Envelopes.Batch[0]
		spec.Ensures("the gauge carries the source", e.SourceId == source)
		spec.Ensures("the gauge carries the present time", t0.UnixNano() <= e.Timestamp && e.Timestamp <= time.Now().UnixNano())
		g, ok := e.GetGauge().GetMetrics()[name]
		spec.Ensures("the gauge has the metrics that were measured and no others", ok == has)
		if has {
			spec.Ensures("every metric has its value, in percent", g != nil && g.Value == v && g.Unit == "%")
		}
		if down {
			return nil, errDown_
		}
		return &logcache_v1.SendResponse{}, nil
	}}
	EmitMeasuredMetrics(source, ingress, fakeUptime_{func(ctx context.Context) (int64, error) {
		if unknown {
			return -1, errDown_
		}
		return up, nil
	}}, metrics)
	young := !unknown && up >= 0 && up < 600
	spec.Ensures("a young Log Cache is not measured, and nothing is sent without metrics", sends == spec.Ite(young || len(metrics) == 0, 0, 1))
}

// ContractTestMetrics: any number of ticks.
func ContractTestMetrics(source string, interval time.Duration) {
	if spec.Native() {
		interval = interval&0xffff + 1000
	}
	spec.Requires(0 < interval && interval < 1<<50)
	ticks, tries := 0, 0
	last := time.Now()
	pending := false // the last attempt failed
	var stamp int64
	spec.Invariant(func() bool { return !pending || tries == 5 })
	spec.Invariant(func() bool { return !last.After(time.Now()) })
	ingress := fakeIngress_{func(ctx context.Context, r *logcache_v1.SendRequest) (*logcache_v1.SendResponse, error) {
		spec.Ensures("a test metric is one envelope", len(r.Envelopes.Batch) == 1)
		e := r.Envelopes.Batch[0]
		spec.Ensures("test metrics carry the source", e.SourceId == source)
		m := e.GetGauge().GetMetrics()
		g, ok := m[MagicMetricNames()[0]]
		spec.Ensures("a test metric is a gauge of the known name", ok && len(m) == 1 && g != nil)
		_, ok = ctx.Deadline()
		spec.Ensures("sending has a deadline", ok)
		now := time.Now()
		if pending && tries < 5 && e.Timestamp == stamp {
			tries++
		} else {
			spec.Ensures("a failed test metric is sent up to five times", !pending || tries == 5)
			spec.Ensures("test metrics are stamped with the emission they belong to", time.Unix(0, e.Timestamp).Truncate(interval).UnixNano() == e.Timestamp)
			spec.Ensures("test metrics are stamped with the present emission", e.Timestamp <= now.UnixNano() && e.Timestamp > last.Add(-interval).UnixNano())
			tries = 1
			ticks++
		}
		stamp = e.Timestamp
		last = now
		if spec.Native() && ticks > 3 || spec.Any[bool]("the process ends") {
			spec.Exit()
		}
		if spec.Any[bool]("fails") {
			pending = true
			return nil, errDown_
		}
		pending = false
		return &logcache_v1.SendResponse{}, nil
	}}
	StartEmittingTestMetrics(source, interval, ingress)
}

// ContractMeasuredMetricsOverGRPC: without the HTTP interface there is nobody to ask for the uptime.
func ContractMeasuredMetricsOverGRPC(source string, metrics map[string]float64) {
	spec.Requires(len(metrics) > 0)
	sends := 0
	EmitMeasuredMetrics(source, fakeIngress_{func(ctx context.Context, r *logcache_v1.SendRequest) (*logcache_v1.SendResponse, error) {
		sends++
		return &logcache_v1.SendResponse{}, nil
	}}, nil, metrics)
	spec.Ensures("metrics measured over gRPC alone are sent", sends == 1)
}
