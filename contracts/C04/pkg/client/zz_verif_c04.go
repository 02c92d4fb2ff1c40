package client

import (
	"context"
	"errors"
	"net/http"
	"net/url"
	"strconv"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

// readWish is what a caller of Read may ask for.
type readWish_ struct {
	None, HasEnd, HasLimit, Desc, HasName, HasTypes bool
	End                                             int64
	Limit                                           int
	Name                                            string
	T1, T2                                          logcache_v1.EnvelopeType
	Two                                             bool
}

func (w *readWish_) types() []logcache_v1.EnvelopeType {
	if !w.HasTypes {
		return nil
	}
	if w.Two {
		return []logcache_v1.EnvelopeType{w.T1, w.T2}
	}
	return []logcache_v1.EnvelopeType{w.T1}
}

func (w *readWish_) options() []ReadOption {
	if w.None {
		return nil
	}
	return []ReadOption{
		readOpt_(w.HasEnd, WithEndTime(time.Unix(0, w.End))),
		readOpt_(w.HasLimit, WithLimit(w.Limit)),
		readOpt_(w.Desc, WithDescending()),
		readOpt_(w.HasName, WithNameFilter(w.Name)),
		readOpt_(w.HasTypes, WithEnvelopeTypes(w.types()...)),
	}
}

// readOpt is o or an option that changes nothing.
func readOpt_(has bool, o ReadOption) ReadOption {
	if has {
		return o
	}
	return func(*url.URL, url.Values) {}
}

func promOpt_(has bool, o PromQLOption) PromQLOption {
	if has {
		return o
	}
	return func(*url.URL, url.Values) {}
}

func validType_(t logcache_v1.EnvelopeType) bool { return t >= 0 && t <= 5 }

func (w *readWish_) assume() {
	if w.None {
		w.HasEnd, w.HasLimit, w.Desc, w.HasName, w.HasTypes = false, false, false, false, false
	}
	if spec.Native() {
		w.T1, w.T2 = w.T1&3, (w.T2&3)+2
		w.End &= 1<<60 - 1
	}
	spec.Requires(w.End > -1<<60 && w.End < 1<<60 && validType_(w.T1) && validType_(w.T2))
}

var errStop_ = errors.New("stop")

func optional_(q url.Values, key string, has bool, val string) bool {
	if has {
		return only_(q, key, val)
	}
	return only_(q, key)
}

// readRequest: exactly one request, asking for exactly what the caller asked for.
func ContractReadHTTP(addr, version, id string, start int64, w readWish_) {
	w.assume()
	spec.Requires(start > -1<<60 && start < 1<<60)
	addr = serverAddr_(addr)
	u, err := url.Parse(addr)
	spec.Requires(err == nil)
	reads, asked := 0, false
	version = validVersion_(version)
	base := q0_(u)
	c := NewClient(addr, WithHTTPClient(ghost.HTTP{F: func(r *http.Request) (*http.Response, error) {
		sameTarget_(r, u)
		if !asked && r.URL.Path == "/api/v1/info" {
			asked = true
			return respond_(200, infoBody_(version)), nil
		}
		reads++
		q := r.URL.Query()
		spec.Ensures("a read names its source", r.URL.Path == "/api/v1/read/"+id || r.URL.Path == "/v1/read/"+id)
		spec.Ensures("a read starts at the start time", only_(q, "start_time", strconv.FormatInt(start, 10)))
		spec.Ensures("a read ends at the end time", optional_(q, "end_time", w.HasEnd, strconv.FormatInt(w.End, 10)))
		spec.Ensures("a read is limited as asked", optional_(q, "limit", w.HasLimit, strconv.Itoa(w.Limit)))
		spec.Ensures("a read is descending only if asked", optional_(q, "descending", w.Desc, "true"))
		spec.Ensures("a read filters by the name asked for", optional_(q, "name_filter", w.HasName, w.Name))
		switch {
		case !w.HasTypes:
			spec.Ensures("a read filters by the types asked for", only_(q, "envelope_types"))
		case w.Two:
			spec.Ensures("a read filters by the types asked for", only_(q, "envelope_types", w.T1.String(), w.T2.String()))
		default:
			spec.Ensures("a read filters by the types asked for", only_(q, "envelope_types", w.T1.String()))
		}
		return nil, errStop_
	}}))
	spec.Requires(base)
	_, err = c.Read(ghost.Ctx{Mark: callerMark_}, id, time.Unix(0, start), w.options()...)
	spec.Ensures("a read makes one request", reads == 1)
	spec.Ensures("a failed request is reported", err != nil)
}

// q0: the address does not itself carry a query.
func q0_(u *url.URL) bool { return u.RawQuery == "" }

func ContractMetaHTTP(addr, version string) {
	version = validVersion_(version)
	addr = serverAddr_(addr)
	u, err := url.Parse(addr)
	spec.Requires(err == nil)
	calls := 0
	c := NewClient(addr, WithHTTPClient(ghost.HTTP{F: func(r *http.Request) (*http.Response, error) {
		sameTarget_(r, u)
		if r.URL.Path == "/api/v1/info" {
			return respond_(200, infoBody_(version)), nil
		}
		calls++
		spec.Ensures("meta asks for meta", r.URL.Path == "/api/v1/meta" || r.URL.Path == "/v1/meta")
		return nil, errStop_
	}}))
	_, err = c.Meta(ghost.Ctx{Mark: callerMark_})
	spec.Ensures("meta makes one request", calls == 1)
	spec.Ensures("a failed request is reported", err != nil)
}

// promWish is what a caller of a PromQL query may ask for.
type promWish_ struct {
	None, HasTime, HasStart, HasEnd, HasStep bool
	Time, Start, End                         int64
	Step                                     string
}

func (w *promWish_) assume() {
	if w.None {
		w.HasTime, w.HasStart, w.HasEnd, w.HasStep = false, false, false, false
	}
	if spec.Native() {
		w.Time &= 1<<60 - 1
		w.Start &= 1<<60 - 1
		w.End &= 1<<60 - 1
	}
	ok := func(t int64) bool { return t > -1<<60 && t < 1<<60 }
	spec.Requires(ok(w.Time) && ok(w.Start) && ok(w.End))
}

func (w *promWish_) options() []PromQLOption {
	if w.None {
		return nil
	}
	return []PromQLOption{
		promOpt_(w.HasTime, WithPromQLTime(time.Unix(0, w.Time))),
		promOpt_(w.HasStart, WithPromQLStart(time.Unix(0, w.Start))),
		promOpt_(w.HasEnd, WithPromQLEnd(time.Unix(0, w.End))),
		promOpt_(w.HasStep, WithPromQLStep(w.Step)),
	}
}

// seconds is t as decimal seconds with three places.
func seconds_(t int64) string { return strconv.FormatFloat(float64(t)/1e9, 'f', 3, 64) }

func (w *promWish_) check(q url.Values, query string) {
	spec.Ensures("the query text is sent unchanged", only_(q, "query", query))
	spec.Ensures("the query time is sent in seconds", optional_(q, "time", w.HasTime, seconds_(w.Time)))
	spec.Ensures("the range start is sent in seconds", optional_(q, "start", w.HasStart, seconds_(w.Start)))
	spec.Ensures("the range end is sent in seconds", optional_(q, "end", w.HasEnd, seconds_(w.End)))
	spec.Ensures("the step is sent unchanged", optional_(q, "step", w.HasStep, w.Step))
}

func promHTTP_(addr, query, path string, w *promWish_, call func(c *Client, ctx context.Context) error) {
	w.assume()
	addr = serverAddr_(addr)
	u, err := url.Parse(addr)
	spec.Requires(err == nil && q0_(u))
	calls := 0
	c := NewClient(addr, WithHTTPClient(ghost.HTTP{F: func(r *http.Request) (*http.Response, error) {
		calls++
		sameTarget_(r, u)
		spec.Ensures("a query goes to its endpoint", r.URL.Path == path)
		w.check(r.URL.Query(), query)
		return nil, errStop_
	}}))
	err = call(c, ghost.Ctx{Mark: callerMark_})
	spec.Ensures("a query makes one request", calls == 1)
	spec.Ensures("a failed request is reported", err != nil)
}

func ContractPromQLHTTP(addr, query string, w promWish_) {
	promHTTP_(addr, query, "/api/v1/query", &w, func(c *Client, ctx context.Context) error {
		_, err := c.PromQL(ctx, query, w.options()...)
		return err
	})
}

func ContractPromQLRawHTTP(addr, query string, w promWish_) {
	promHTTP_(addr, query, "/api/v1/query", &w, func(c *Client, ctx context.Context) error {
		_, err := c.PromQLRaw(ctx, query, w.options()...)
		return err
	})
}

func ContractPromQLRangeHTTP(addr, query string, w promWish_) {
	promHTTP_(addr, query, "/api/v1/query_range", &w, func(c *Client, ctx context.Context) error {
		_, err := c.PromQLRange(ctx, query, w.options()...)
		return err
	})
}

func ContractPromQLRangeRawHTTP(addr, query string, w promWish_) {
	promHTTP_(addr, query, "/api/v1/query_range", &w, func(c *Client, ctx context.Context) error {
		_, err := c.PromQLRangeRaw(ctx, query, w.options()...)
		return err
	})
}

// ---------- gRPC ----------

func ContractReadGRPC(addr, id string, start int64, w readWish_) {
	w.assume()
	spec.Requires(start > -1<<60 && start < 1<<60)
	calls := 0
	batch := spec.Any[[]*loggregator_v2.Envelope]("batch")
	var fail error
	if spec.Any[bool]("fails") {
		fail = errStop_
	}
	c := viaGRPC_(addr, func(ctx context.Context, method string, req, reply interface{}) error {
		calls++
		spec.Ensures("a read asks the read service", method == "/logcache.v1.Egress/Read")
		in := req.(*logcache_v1.ReadRequest)
		spec.Ensures("requests carry the caller's context", ghost.MarkOf(ctx) == callerMark_)
		spec.Ensures("a read names its source", in.SourceId == id)
		spec.Ensures("a read starts at the start time", in.StartTime == start)
		spec.Ensures("a read ends at the end time", in.EndTime == spec.Ite(w.HasEnd, w.End, 0))
		spec.Ensures("a read is limited as asked", in.Limit == spec.Ite(w.HasLimit, int64(w.Limit), 0))
		spec.Ensures("a read is descending only if asked", in.Descending == w.Desc)
		spec.Ensures("a read filters by the name asked for", in.NameFilter == spec.Ite(w.HasName, w.Name, ""))
		ts := w.types()
		spec.Ensures("a read filters by the types asked for", len(in.EnvelopeTypes) == len(ts))
		for i := range ts {
			spec.Ensures("a read filters by the types asked for", in.EnvelopeTypes[i] == ts[i])
		}
		if fail != nil {
			return fail
		}
		reply.(*logcache_v1.ReadResponse).Envelopes = &loggregator_v2.EnvelopeBatch{Batch: batch}
		return nil
	})
	got, err := c.Read(ghost.Ctx{Mark: callerMark_}, id, time.Unix(0, start), w.options()...)
	spec.Ensures("a read makes one request", calls == 1)
	spec.Ensures("an error is reported, and only an error", (err != nil) == (fail != nil))
	spec.Ensures("a read returns what the server sent", fail != nil || len(got) == len(batch) && spec.Forall(0, len(got), func(i int) bool { return got[i] == batch[i] }))
}

func ContractMetaGRPC(addr string) {
	calls := 0
	want := spec.Any[map[string]*logcache_v1.MetaInfo]("meta")
	var fail error
	if spec.Any[bool]("fails") {
		fail = errStop_
	}
	c := viaGRPC_(addr, func(ctx context.Context, method string, req, reply interface{}) error {
		calls++
		spec.Ensures("a meta request asks the meta service", method == "/logcache.v1.Egress/Meta")
		spec.Ensures("requests carry the caller's context", ghost.MarkOf(ctx) == callerMark_)
		if fail != nil {
			return fail
		}
		reply.(*logcache_v1.MetaResponse).Meta = want
		return nil
	})
	got, err := c.Meta(ghost.Ctx{Mark: callerMark_})
	spec.Ensures("meta makes one request", calls == 1)
	spec.Ensures("an error is reported, and only an error", (err != nil) == (fail != nil))
	spec.Ensures("meta returns what the server sent", fail != nil || spec.MapEq(spec.MapOf(got), spec.MapOf(want)))
}

func ContractPromQLGRPC(addr, query string, w promWish_) {
	w.assume()
	calls := 0
	want := &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{}}}
	var fail error
	if spec.Any[bool]("fails") {
		fail = errStop_
	}
	c := viaGRPC_(addr, func(ctx context.Context, method string, req, reply interface{}) error {
		calls++
		spec.Ensures("a query asks its service", method == "/logcache.v1.PromQLQuerier/InstantQuery")
		in := req.(*logcache_v1.PromQL_InstantQueryRequest)
		spec.Ensures("requests carry the caller's context", ghost.MarkOf(ctx) == callerMark_)
		spec.Ensures("the query text is sent unchanged", in.Query == query)
		spec.Ensures("the query time is sent in seconds", in.Time == spec.Ite(w.HasTime, seconds_(w.Time), ""))
		reply.(*logcache_v1.PromQL_InstantQueryResult).Result = want.Result
		return fail
	})
	got, err := c.PromQL(ghost.Ctx{Mark: callerMark_}, query, w.options()...)
	spec.Ensures("a query makes one request", calls == 1)
	spec.Ensures("an error is reported, and only an error", (err != nil) == (fail != nil))
	spec.Ensures("a query returns what the server sent", fail != nil || got != nil && got.Result == want.Result)
}

func ContractPromQLRangeGRPC(addr, query string, w promWish_) {
	w.assume()
	calls := 0
	want := &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: &logcache_v1.PromQL_Matrix{}}}
	var fail error
	if spec.Any[bool]("fails") {
		fail = errStop_
	}
	c := viaGRPC_(addr, func(ctx context.Context, method string, req, reply interface{}) error {
		calls++
		spec.Ensures("a query asks its service", method == "/logcache.v1.PromQLQuerier/RangeQuery")
		in := req.(*logcache_v1.PromQL_RangeQueryRequest)
		spec.Ensures("requests carry the caller's context", ghost.MarkOf(ctx) == callerMark_)
		spec.Ensures("the query text is sent unchanged", in.Query == query)
		spec.Ensures("the range start is sent in seconds", in.Start == spec.Ite(w.HasStart, seconds_(w.Start), ""))
		spec.Ensures("the range end is sent in seconds", in.End == spec.Ite(w.HasEnd, seconds_(w.End), ""))
		spec.Ensures("the step is sent unchanged", in.Step == spec.Ite(w.HasStep, w.Step, ""))
		reply.(*logcache_v1.PromQL_RangeQueryResult).Result = want.Result
		return fail
	})
	got, err := c.PromQLRange(ghost.Ctx{Mark: callerMark_}, query, w.options()...)
	spec.Ensures("a query makes one request", calls == 1)
	spec.Ensures("an error is reported, and only an error", (err != nil) == (fail != nil))
	spec.Ensures("a query returns what the server sent", fail != nil || got != nil && got.Result == want.Result)
}
