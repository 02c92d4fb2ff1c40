package data_reader

import (
	"context"
	"errors"
	"net/url"
	"strconv"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

type envs_ = []*loggregator_v2.Envelope

const callerMark_ = "caller"

func sameTypes_(got []string, want []logcache_v1.EnvelopeType) bool {
	return len(got) == len(want) && spec.Forall(0, len(want), func(i int) bool { return got[i] == want[i].String() })
}

// A read delivers what a walk over the request's span delivers.
func ContractReadSpan(in *logcache_v1.ReadRequest, k int) {
	spec.Requires(in != nil && in.EnvelopeTypes == nil)
	readSpan_(in, k)
}

func ContractReadSpanOfTypes(in *logcache_v1.ReadRequest, k int) {
	spec.Requires(in != nil && in.EnvelopeTypes != nil)
	readSpan_(in, k)
}

func readSpan_(in *logcache_v1.ReadRequest, k int) {
	spec.Requires(in.StartTime > -1<<60 && in.StartTime < 1<<60 && in.EndTime > -1<<60 && in.EndTime < 1<<60)
	if spec.Native() {
		readSpanNative_(in)
		return
	}
	var all spec.Seq[*loggregator_v2.Envelope]
	var down error
	ctx := ghost.Ctx{Mark: callerMark_, E: &down}
	theReader := func(context.Context, string, time.Time, ...client.ReadOption) (envs_, error) { return nil, nil }
	walks := 0
	spec.Requires(k >= 0)
	ends := func(q url.Values) bool {
		return len(q["end_time"]) == 1 && q["end_time"][0] == strconv.FormatInt(in.EndTime, 10)
	}
	limits := func(q url.Values) bool {
		return len(q["limit"]) == 1 && q["limit"][0] == strconv.FormatInt(in.Limit, 10)
	}
	typed := func(q url.Values, types int) bool {
		return len(q["name_filter"]) == 0 && len(q["descending"]) == 0 &&
			len(q["envelope_types"]) == types && (k >= types || q["envelope_types"][k] == in.EnvelopeTypes[k].String())
	}
	asked := func(q url.Values, types int) bool { return ends(q) && limits(q) && typed(q, types) }
	// the options may be applied in any order
	spec.Invariant(func(q url.Values) bool { return ends(q) && spec.Separate(q["envelope_types"], q["end_time"]) })
	spec.Invariant(func(q url.Values) bool { return limits(q) && spec.Separate(q["envelope_types"], q["limit"]) })
	spec.Invariant(func(q url.Values, i int) bool { return i < len(in.EnvelopeTypes) && typed(q, i+1) })
	spec.Invariant(func(r envs_) bool {
		return len(r) == all.Len() && (k >= len(r) || r[k] == all.At(k))
	})
	// one envelope after the other
	before := 0
	spec.Invariant(func(r envs_, i int) bool {
		return len(r) == before+i+1 && (k >= len(r) || r[k] == all.At(k))
	})
	spec.Invariant(func(r, es envs_) bool {
		return spec.Separate(r, es) && (k < before || k-before >= len(es) || es[k-before] == all.At(k))
	})
	spec.Replace(client.Walk, func(c context.Context, sid string, v client.Visitor, r client.Reader, opts ...client.WalkOption) {
		walks++
		spec.Ensures("the walk is for the asked source", sid == in.SourceId)
		spec.Ensures("the walk inherits the caller's context", ghost.MarkOf(c) == callerMark_)
		stop := errors.New("stop")
		var pe error = stop
		client.Walk(ghost.Ctx{E: &pe}, sid, func(envs_) bool { return true }, func(_ context.Context, _ string, from time.Time, ro ...client.ReadOption) (envs_, error) {
			q := url.Values{}
			for _, o := range ro {
				o(nil, q)
			}
			spec.Ensures("the walk starts at the start of the span", from.UnixNano() == in.StartTime)
			spec.Ensures("reads are up to the end of the span, with the limit and the types asked for and nothing else", asked(q, len(in.EnvelopeTypes)))
			return nil, stop
		}, opts...)
		for spec.Any[bool]("another batch") {
			es := spec.AnyNew[*loggregator_v2.Envelope]("batch")
			before = all.Len()
			all = all.Concat(spec.SeqOf(es))
			spec.Ensures("the walk is never cut short", v(es))
		}
		down = spec.Any[error]("end of the context")
	})
	got, err := NewWalkingDataReader(theReader).Read(ctx, in)
	spec.Ensures("one walk is made", walks == 1)
	spec.Ensures("a read fails exactly when its context has ended", (err != nil) == (down != nil))
	spec.Ensures("the context's error is the one reported", err == down)
	if err != nil {
		spec.Ensures("a failed read gives no data", got == nil)
		return
	}
	b := got.GetEnvelopes().GetBatch()
	spec.Ensures("nothing delivered is lost or repeated", len(b) == all.Len())
	spec.Ensures("everything delivered keeps its place", k >= len(b) || b[k] == all.At(k))
}

// Reads go to the reader it was built with; five failures in a row end a read.
func ContractReadRetries(in *logcache_v1.ReadRequest) {
	spec.Requires(in != nil)
	if spec.Native() {
		return // takes seconds
	}
	var down error
	ctx := ghost.Ctx{Mark: callerMark_, E: &down}
	reads := 0
	spec.Invariant(func(count int) bool { return reads == count && reads >= 0 && reads < 5 && down == nil })
	NewWalkingDataReader(func(c context.Context, sid string, from time.Time, ro ...client.ReadOption) (envs_, error) {
		spec.Ensures("reads are for the asked source", sid == in.SourceId)
		spec.Ensures("reads carry the caller's context", ghost.MarkOf(c) == callerMark_)
		reads++
		if spec.Any[bool]("the context ends") {
			down = errors.New("ended")
		}
		return nil, errors.New("down")
	}).Read(ctx, in)
	spec.Ensures("five failures in a row end a read", down != nil && reads <= 5 || reads == 5)
}

func readSpanNative_(in *logcache_v1.ReadRequest) {
	start, end, page := in.StartTime&0xff, in.EndTime&0x1ff, int(in.Limit&7)+1
	types := in.EnvelopeTypes
	var stored envs_
	t := int64(0)
	for _, s := range spec.Any[[]uint8]("stored") {
		t += int64(s%4) + 1
		stored = append(stored, &loggregator_v2.Envelope{Timestamp: t})
	}
	var down error
	if spec.Any[bool]("the context ends") && spec.Any[bool]("really") {
		down = errors.New("ended")
	}
	ctx := ghost.Ctx{Mark: callerMark_, E: &down}
	reads := 0
	got, err := NewWalkingDataReader(func(c context.Context, sid string, from time.Time, ro ...client.ReadOption) (envs_, error) {
		reads++
		spec.Ensures("reads are for the asked source", sid == in.SourceId)
		spec.Ensures("reads carry the caller's context", ghost.MarkOf(c) == callerMark_)
		q := url.Values{}
		for _, o := range ro {
			o(&url.URL{}, q)
		}
		spec.Ensures("the walk starts at the start of the span", reads > 1 || from.UnixNano() == start)
		spec.Ensures("the walk ends at the end of the span", len(q["end_time"]) == 1 && q["end_time"][0] == strconv.FormatInt(end, 10))
		spec.Ensures("reads have the limit asked for", len(q["limit"]) == 1 && q["limit"][0] == strconv.Itoa(page))
		spec.Ensures("reads are for the types asked for", sameTypes_(q["envelope_types"], types))
		spec.Ensures("reads are not filtered by name and are oldest first", len(q["name_filter"]) == 0 && len(q["descending"]) == 0)
		var r envs_
		for _, e := range stored {
			if e.Timestamp >= from.UnixNano() && len(r) < page {
				r = append(r, e)
			}
		}
		return r, nil
	}).Read(ctx, &logcache_v1.ReadRequest{SourceId: in.SourceId, StartTime: start, EndTime: end, Limit: int64(page), EnvelopeTypes: types})
	spec.Ensures("a read fails exactly when its context has ended", (err != nil) == (down != nil))
	if err != nil {
		spec.Ensures("the context's error is the one reported", err == down)
		spec.Ensures("a failed read gives no data", got == nil)
		return
	}
	var want envs_
	for _, e := range stored {
		if e.Timestamp >= start && e.Timestamp < end {
			want = append(want, e)
		}
	}
	b := got.GetEnvelopes().GetBatch()
	spec.Ensures("nothing delivered is lost or repeated", len(b) == len(want))
	for i := range want {
		spec.Ensures("everything delivered keeps its place", b[i] == want[i])
	}
}
