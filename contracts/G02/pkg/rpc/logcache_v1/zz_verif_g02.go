package logcache_v1

import (
	"context"
	"errors"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strconv"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/grpc-ecosystem/grpc-gateway/runtime"
	"github.com/grpc-ecosystem/grpc-gateway/utilities"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

const callerMark_ = "caller"

// service is a Log Cache that hands every call to a function.
type service_ struct {
	read    func(context.Context, *ReadRequest) (*ReadResponse, error)
	meta    func(context.Context, *MetaRequest) (*MetaResponse, error)
	instant func(context.Context, *PromQL_InstantQueryRequest) (*PromQL_InstantQueryResult, error)
	ranged  func(context.Context, *PromQL_RangeQueryRequest) (*PromQL_RangeQueryResult, error)
}

func (s *service_) Read(c context.Context, r *ReadRequest, _ ...grpc.CallOption) (*ReadResponse, error) {
	return s.read(c, r)
}
func (s *service_) Meta(c context.Context, r *MetaRequest, _ ...grpc.CallOption) (*MetaResponse, error) {
	return s.meta(c, r)
}
func (s *service_) InstantQuery(c context.Context, r *PromQL_InstantQueryRequest, _ ...grpc.CallOption) (*PromQL_InstantQueryResult, error) {
	return s.instant(c, r)
}
func (s *service_) RangeQuery(c context.Context, r *PromQL_RangeQueryRequest, _ ...grpc.CallOption) (*PromQL_RangeQueryResult, error) {
	return s.ranged(c, r)
}

// apiCall describes one request at the API: what becomes of it.
type apiCall_ struct {
	rawQuery string
	path     []string                                               // the parts of the path
	populate func(msg proto.Message, filter *utilities.DoubleArray) // what the query parameters set
	bad      bool                                                   // the query parameters make no sense
	broken   bool                                                   // the headers make no sense
	handled  int
	replied  int
	refused  int
	err      error
	reply    proto.Message
}

// call hands the request to the handler registered for the pattern.
func (a *apiCall_) call(reads bool, which int, s *service_) {
	mux := &runtime.ServeMux{}
	var handlers []runtime.HandlerFunc
	var patterns []runtime.Pattern
	spec.Replace((*runtime.ServeMux).Handle, func(m *runtime.ServeMux, method string, p runtime.Pattern, h runtime.HandlerFunc) {
		spec.Ensures("handlers are registered for GET on the mux given", m == mux && method == "GET")
		handlers = append(handlers, h)
		patterns = append(patterns, p)
	})
	var enc runtime.Marshaler = &runtime.JSONPb{}
	bad, broken := status.Error(codes.InvalidArgument, "bad"), errors.New("broken")
	req := (&http.Request{URL: &url.URL{RawQuery: a.rawQuery}}).WithContext(ghost.Ctx{Mark: callerMark_})
	w := &ghost.Writer{H: http.Header{}}
	spec.Replace(runtime.MarshalerForRequest, func(m *runtime.ServeMux, r *http.Request) (runtime.Marshaler, runtime.Marshaler) {
		spec.Ensures("the encoding is the one asked for", m == mux && r == req)
		return nil, enc
	})
	spec.Replace(runtime.AnnotateContext, func(c context.Context, m *runtime.ServeMux, r *http.Request) (context.Context, error) {
		spec.Ensures("the headers handed on are the request's", m == mux && r == req)
		if a.broken {
			return nil, broken
		}
		return c, nil
	})
	spec.Replace(grpc.Header, func(*map[string][]string) grpc.CallOption { return nil })
	spec.Replace(grpc.Trailer, func(*map[string][]string) grpc.CallOption { return nil })
	spec.Replace(runtime.NewServerMetadataContext, func(c context.Context, _ runtime.ServerMetadata) context.Context { return c })
	spec.Replace((*runtime.ServeMux).GetForwardResponseOptions, func(*runtime.ServeMux) []func(context.Context, http.ResponseWriter, proto.Message) error { return nil })
	spec.Replace(runtime.PopulateQueryParameters, func(msg proto.Message, values url.Values, filter *utilities.DoubleArray) error {
		a.handled++
		spec.Ensures("all of the query is read", values.Encode() == req.URL.Query().Encode())
		if a.bad {
			return errors.New("bad")
		}
		a.populate(msg, filter)
		return nil
	})
	runtime.HTTPError = func(c context.Context, m *runtime.ServeMux, e runtime.Marshaler, rw http.ResponseWriter, r *http.Request, err error) {
		a.refused++
		spec.Ensures("a failure is reported to the one who asked", ghost.MarkOf(c) == callerMark_ && m == mux && e == enc && rw == http.ResponseWriter(w) && r == req)
		switch {
		case a.broken:
			spec.Ensures("the failure reported is the one that happened", err == broken)
		case a.bad:
			spec.Ensures("senseless parameters are the caller's fault", status.Code(err) == codes.InvalidArgument)
		default:
			spec.Ensures("the failure reported is the one that happened", err == a.err && err != nil)
		}
	}
	_ = bad
	spec.Replace(runtime.ForwardResponseMessage, func(c context.Context, m *runtime.ServeMux, e runtime.Marshaler, rw http.ResponseWriter, r *http.Request, msg proto.Message, _ ...func(context.Context, http.ResponseWriter, proto.Message) error) {
		a.replied++
		spec.Ensures("the answer goes to the one who asked", ghost.MarkOf(c) == callerMark_ && m == mux && e == enc && rw == http.ResponseWriter(w) && r == req)
		spec.Ensures("the answer is the service's", msg == a.reply && a.err == nil)
	})
	var err error
	if reads {
		err = RegisterEgressHandlerClient(context.Background(), mux, s)
	} else {
		err = RegisterPromQLQuerierHandlerClient(context.Background(), mux, s)
	}
	spec.Ensures("two calls of the API are registered", err == nil && len(handlers) == 2)
	for i := range handlers {
		params, err := patterns[i].Match(a.path, "")
		spec.Ensures("a path leads to the call of that name and no other", (err == nil) == (i == which))
		if err == nil {
			handlers[i](w, req, params)
		}
	}
	spec.Ensures("every request is answered once", a.replied+a.refused == 1)
	spec.Ensures("a good request gets the answer of the service", (a.replied == 1) == (!a.bad && !a.broken && a.err == nil))
}

func (a *apiCall_) sound() bool { return !a.bad && !a.broken }

// readWish is what a request for a read asks for.
type readWish_ struct {
	From, To, Limit int64
	Types           []EnvelopeType
	Desc            bool
	Filter          string
}

func ContractReadCall(part, rawQuery string, w readWish_, bad, broken bool, reply *ReadResponse, failure error) {
	if spec.Native() {
		nativeRead_(part, w, failure)
		return
	}
	readCall_(part, []string{"api", "v1", "read", part}, rawQuery, &w, bad, broken, reply, failure)
}

// A source id may have slashes.
func ContractReadCallDeep(part, sub, rawQuery string, w readWish_, bad, broken bool, reply *ReadResponse, failure error) {
	if spec.Native() {
		return
	}
	readCall_(part+"/"+sub, []string{"api", "v1", "read", part, sub}, rawQuery, &w, bad, broken, reply, failure)
}

func readCall_(id string, path []string, rawQuery string, w *readWish_, bad, broken bool, reply *ReadResponse, failure error) {
	from, to, limit, types, desc, filter := w.From, w.To, w.Limit, w.Types, w.Desc, w.Filter
	a := &apiCall_{rawQuery: rawQuery, path: path, bad: bad, broken: broken, err: failure, reply: reply}
	a.populate = func(msg proto.Message, f *utilities.DoubleArray) {
		r := msg.(*ReadRequest)
		spec.Ensures("the query cannot name another source", takes_(f, "start_time", "end_time", "limit", "envelope_types", "descending", "name_filter") && f.HasCommonPrefix([]string{"source_id"}))
		r.StartTime, r.EndTime, r.Limit, r.EnvelopeTypes, r.Descending, r.NameFilter = from, to, limit, types, desc, filter
	}
	calls := 0
	a.call(true, 0, &service_{read: func(c context.Context, r *ReadRequest) (*ReadResponse, error) {
		calls++
		spec.Ensures("the service is asked in the context of the request", ghost.MarkOf(c) == callerMark_)
		spec.Ensures("the source asked for is read", r.SourceId == id)
		spec.Ensures("the span asked for is read", r.StartTime == from && r.EndTime == to)
		spec.Ensures("the read is limited and filtered as asked", r.Limit == limit && spec.Same(r.EnvelopeTypes, types) && r.Descending == desc && r.NameFilter == filter)
		return reply, failure
	}})
	spec.Ensures("a sound request asks the service once", calls == 1 || !a.sound() && calls == 0)
}

func ContractMetaCall(rawQuery string, bad, broken bool, reply *MetaResponse, failure error) {
	if spec.Native() {
		nativeMeta_(failure)
		return
	}
	a := &apiCall_{rawQuery: rawQuery, path: []string{"api", "v1", "meta"}, bad: bad, broken: broken, err: failure, reply: reply, populate: func(msg proto.Message, f *utilities.DoubleArray) {}}
	calls := 0
	a.call(true, 1, &service_{meta: func(c context.Context, r *MetaRequest) (*MetaResponse, error) {
		calls++
		spec.Ensures("the service is asked in the context of the request", ghost.MarkOf(c) == callerMark_)
		return reply, failure
	}})
	spec.Ensures("a sound request asks the service once", calls == 1 || !a.sound() && calls == 0)
}

func ContractInstantCall(rawQuery, query, at string, bad, broken bool, reply *PromQL_InstantQueryResult, failure error) {
	if spec.Native() {
		nativeQuery_(false, query, at, "", "", failure)
		return
	}
	a := &apiCall_{rawQuery: rawQuery, path: []string{"api", "v1", "query"}, bad: bad, broken: broken, err: failure, reply: reply, populate: func(msg proto.Message, f *utilities.DoubleArray) {
		r := msg.(*PromQL_InstantQueryRequest)
		spec.Ensures("every parameter of the query counts", takes_(f, "query", "time"))
		r.Query, r.Time = query, at
	}}
	calls := 0
	a.call(false, 0, &service_{instant: func(c context.Context, r *PromQL_InstantQueryRequest) (*PromQL_InstantQueryResult, error) {
		calls++
		spec.Ensures("the service is asked in the context of the request", ghost.MarkOf(c) == callerMark_)
		spec.Ensures("the query asked is the one put", r.Query == query && r.Time == at)
		return reply, failure
	}})
	spec.Ensures("a sound request asks the service once", calls == 1 || !a.sound() && calls == 0)
}

func ContractRangeCall(rawQuery, query, from, to, step string, bad, broken bool, reply *PromQL_RangeQueryResult, failure error) {
	if spec.Native() {
		nativeQuery_(true, query, from, to, step, failure)
		return
	}
	a := &apiCall_{rawQuery: rawQuery, path: []string{"api", "v1", "query_range"}, bad: bad, broken: broken, err: failure, reply: reply, populate: func(msg proto.Message, f *utilities.DoubleArray) {
		r := msg.(*PromQL_RangeQueryRequest)
		spec.Ensures("every parameter of the query counts", takes_(f, "query", "start", "end", "step"))
		r.Query, r.Start, r.End, r.Step = query, from, to, step
	}}
	calls := 0
	a.call(false, 1, &service_{ranged: func(c context.Context, r *PromQL_RangeQueryRequest) (*PromQL_RangeQueryResult, error) {
		calls++
		spec.Ensures("the service is asked in the context of the request", ghost.MarkOf(c) == callerMark_)
		spec.Ensures("the query asked is the one put", r.Query == query && r.Start == from && r.End == to && r.Step == step)
		return reply, failure
	}})
	spec.Ensures("a sound request asks the service once", calls == 1 || !a.sound() && calls == 0)
}

// takes: the filter lets each of the parameters through.
func takes_(f *utilities.DoubleArray, names ...string) bool {
	ok := true
	for _, n := range names {
		ok = ok && !f.HasCommonPrefix([]string{n})
	}
	return ok
}

// On the real code: a whole request through the registered handlers.
func request_(path, rawQuery string, s *service_) *httptest.ResponseRecorder {
	mux := runtime.NewServeMux()
	if RegisterEgressHandlerClient(context.Background(), mux, s) != nil || RegisterPromQLQuerierHandlerClient(context.Background(), mux, s) != nil {
		spec.Ensures("two calls of the API are registered", false)
	}
	req, err := http.NewRequest("GET", "http://gateway"+path+"?"+rawQuery, nil)
	spec.Requires(err == nil)
	w := httptest.NewRecorder()
	mux.ServeHTTP(w, req)
	return w
}

func answered_(w *httptest.ResponseRecorder, calls int, failure error) {
	spec.Ensures("a sound request asks the service once", calls == 1)
	spec.Ensures("a good request gets the answer of the service", (w.Code == 200) == (failure == nil))
}

func nativeRead_(id string, w readWish_, failure error) {
	id = []string{"app", "some/id", "a-b.c", "doppler"}[len(id)%4]
	from, to, limit, types, desc, filter := w.From&0xffff, w.To&0xffff, w.Limit&0xff, w.Types, w.Desc, w.Filter
	q := url.Values{"start_time": {strconv.FormatInt(from, 10)}, "end_time": {strconv.FormatInt(to, 10)}, "limit": {strconv.FormatInt(limit, 10)}, "source_id": {"other"}}
	for i := range types {
		types[i] = types[i] & 3
		q.Add("envelope_types", types[i].String())
	}
	if desc {
		q.Set("descending", "true")
	}
	q.Set("name_filter", filter)
	calls := 0
	path := "/api/v1/read/" + id
	if spec.Any[bool]("escaped") {
		path = strings.Replace(path, "some/id", "some%2Fid", 1)
	}
	rec := request_(path, q.Encode(), &service_{read: func(c context.Context, r *ReadRequest) (*ReadResponse, error) {
		calls++
		spec.Ensures("the source asked for is read", r.SourceId == id)
		spec.Ensures("the span asked for is read", r.StartTime == from && r.EndTime == to)
		spec.Ensures("the read is limited and filtered as asked", r.Limit == limit && len(r.EnvelopeTypes) == len(types) && r.Descending == desc && r.NameFilter == filter)
		for i := range types {
			spec.Ensures("the read is limited and filtered as asked", r.EnvelopeTypes[i] == types[i])
		}
		return &ReadResponse{}, failure
	}})
	answered_(rec, calls, failure)
}

func nativeMeta_(failure error) {
	calls := 0
	answered_(request_("/api/v1/meta", "", &service_{meta: func(c context.Context, r *MetaRequest) (*MetaResponse, error) {
		calls++
		return &MetaResponse{}, failure
	}}), calls, failure)
}

func nativeQuery_(ranged bool, query, from, to, step string, failure error) {
	calls := 0
	var w *httptest.ResponseRecorder
	if ranged {
		w = request_("/api/v1/query_range", url.Values{"query": {query}, "start": {from}, "end": {to}, "step": {step}}.Encode(), &service_{ranged: func(c context.Context, r *PromQL_RangeQueryRequest) (*PromQL_RangeQueryResult, error) {
			calls++
			spec.Ensures("the query asked is the one put", r.Query == query && r.Start == from && r.End == to && r.Step == step)
			return &PromQL_RangeQueryResult{}, failure
		}})
	} else {
		w = request_("/api/v1/query", url.Values{"query": {query}, "time": {from}}.Encode(), &service_{instant: func(c context.Context, r *PromQL_InstantQueryRequest) (*PromQL_InstantQueryResult, error) {
			calls++
			spec.Ensures("the query asked is the one put", r.Query == query && r.Time == from)
			return &PromQL_InstantQueryResult{}, failure
		}})
	}
	answered_(w, calls, failure)
}
