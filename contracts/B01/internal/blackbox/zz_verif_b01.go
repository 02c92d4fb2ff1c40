package blackbox

import (
	"context"
	"errors"
	"fmt"
	"log"
	"net/url"
	"strconv"
	"time"

	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

type noOutput_ struct{}

func (noOutput_) Write(p []byte) (int, error) { return len(p), nil }

var quiet_ = log.New(noOutput_{}, "", 0)

type fakeQueries_ struct {
	promQL func(context.Context, string, ...client.PromQLOption) (*logcache_v1.PromQL_InstantQueryResult, error)
	uptime func(context.Context) (int64, error)
}

func (f fakeQueries_) PromQL(c context.Context, q string, opts ...client.PromQLOption) (*logcache_v1.PromQL_InstantQueryResult, error) {
	return f.promQL(c, q, opts...)
}
func (f fakeQueries_) LogCacheVMUptime(c context.Context) (int64, error) { return f.uptime(c) }

// seconds is t as decimal seconds with three places.
func seconds_(t time.Time) string {
	return strconv.FormatFloat(float64(t.UnixNano())/1e9, 'f', 3, 64)
}

type reply_ struct {
	fails  bool
	series []*logcache_v1.PromQL_Series
	other  bool // the reply is no matrix
}

func (r reply_) result() *logcache_v1.PromQL_InstantQueryResult {
	if r.other {
		return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{}}}
	}
	return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{Series: r.series}}}
}

var errDown_ = errors.New("down")

// ContractReliability: windows and emission intervals are whole seconds, as configured.
func ContractReliability(source string, window, emission uint32, sample, lag time.Duration, r reply_) {
	if spec.Native() {
		window, emission = window&0xfff, emission&0xff
	}
	spec.Requires(0 < emission && emission <= window)
	spec.Requires(0 < sample && sample < 1<<50 && 0 <= lag && lag < 1<<50)
	if len(r.series) > 0 {
		spec.Requires(r.series[0] != nil)
		ps := r.series[0].Points
		spec.Requires(spec.Forall(0, len(ps), func(i int) bool { return ps[i] != nil }))
	}
	rc := ReliabilityCalculator{
		SampleInterval:   sample,
		WindowInterval:   time.Duration(window) * time.Second,
		WindowLag:        lag,
		EmissionInterval: time.Duration(emission) * time.Second,
		SourceId:         source,
		InfoLogger:       quiet_,
		ErrorLogger:      quiet_,
	}
	t0 := time.Now()
	calls := 0
	got, err := rc.Calculate(fakeQueries_{promQL: func(ctx context.Context, q string, opts ...client.PromQLOption) (*logcache_v1.PromQL_InstantQueryResult, error) {
		calls++
		spec.Ensures("the query asks for the test metric of the source over the window", q == MagicMetricNames()[0]+`{source_id="`+source+`"}[`+strconv.Itoa(int(window))+`s]`)
		d, ok := ctx.Deadline()
		spec.Ensures("the query has a deadline", ok && !d.After(time.Now().Add(10*time.Second)))
		v := url.Values{}
		for _, o := range opts {
			o(&url.URL{}, v)
		}
		t1 := time.Now()
		spec.Requires(spec.Native() || t0.Equal(t1)) // the query is put together at one instant
		if t0.Add(-lag).Truncate(sample).Equal(t1.Add(-lag).Truncate(sample)) {
			spec.Ensures("the window ends the lag ago, at a sample", v.Get("time") == seconds_(t0.Add(-lag).Truncate(sample)))
		}
		spec.Ensures("nothing else is asked for", len(v) == 1)
		if r.fails {
			return nil, errDown_
		}
		return r.result(), nil
	}})
	spec.Ensures("every test metric is asked for once", calls == len(MagicMetricNames()))
	spec.Ensures("without an answer there is no reliability", (err != nil) == (r.fails || r.other || len(r.series) == 0))
	if err == nil {
		spec.Ensures("reliability is the share of the expected points that were found", got == float64(len(r.series[0].Points))/float64(window/emission))
	}
}

var _ = fmt.Sprint
var _ = ghost.Ctx{}
