package client

import (
	"context"
	"encoding/json"
	"errors"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/golang/protobuf/jsonpb"
	"github.com/golang/protobuf/proto"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

// outcome is what becomes of the one request under test.
type outcome_ struct {
	fail   bool // the request itself fails
	status int
	junk   bool // the body is no JSON document
	cut    bool // reading the body fails
	body   *ghost.Body
}

func anyOutcome_() *outcome_ {
	o := &outcome_{
		fail:   spec.Any[bool]("the request fails"),
		status: spec.Any[int]("status"),
		junk:   spec.Any[bool]("the body is no JSON"),
	}
	if spec.Native() {
		o.status = []int{200, 200, 200, 201, 204, 302, 400, 401, 404, 500, 503}[spec.Rand.Intn(11)]
	}
	return o
}

// good: the server answered as it should.
func (o *outcome_) good() bool { return !o.fail && o.status == 200 && !o.junk && !o.cut }

// serve makes a client whose first answers are about the version.
func (o *outcome_) serve(info bool, good []byte) *Client {
	data := good
	if o.junk {
		data = spec.Any[[]byte]("junk")
		spec.Requires(spec.Garbage(data))
	}
	o.body = &ghost.Body{Data: data}
	if o.cut {
		o.body.Err = errDown_
	}
	first := info
	addr := serverAddr_(spec.Any[string]("address"))
	_, err := url.Parse(addr)
	spec.Requires(err == nil)
	version := validVersion_(spec.Any[string]("version"))
	return NewClient(addr, WithHTTPClient(ghost.HTTP{F: func(r *http.Request) (*http.Response, error) {
		if first {
			first = false
			return respond_(200, infoBody_(version)), nil
		}
		if o.fail {
			return nil, errDown_
		}
		return &http.Response{StatusCode: o.status, Header: http.Header{}, Body: o.body}, nil
	}}))
}

func (o *outcome_) closed() {
	spec.Ensures("the response body is closed", o.fail || o.body.Closed > 0)
}

func pbJSON_(m proto.Message) []byte {
	s, err := (&jsonpb.Marshaler{}).MarshalToString(m)
	spec.Requires(err == nil)
	return []byte(s)
}

func ContractReadResult(id string) {
	o := anyOutcome_()
	env := &logcache_v1.ReadResponse{}
	n := spec.Any[[]*loggregator_v2.Envelope]("envelopes")
	if spec.Native() {
		n = nil
		for i := spec.Rand.Intn(4); i > 0; i-- {
			n = append(n, &loggregator_v2.Envelope{Timestamp: spec.Any[int64]("timestamp"), SourceId: spec.Any[string]("source")})
		}
	}
	if spec.Any[bool]("a batch is present") {
		env.Envelopes = &loggregator_v2.EnvelopeBatch{Batch: n}
	} else {
		n = nil
	}
	c := o.serve(true, pbJSON_(env))
	got, err := c.Read(ghost.Ctx{}, id, time.Unix(0, 0))
	spec.Ensures("an error is returned exactly when the read failed", (err == nil) == o.good())
	spec.Ensures("a failed read returns no envelopes", err == nil || len(got) == 0)
	if err == nil {
		spec.Ensures("a read returns the envelopes the server sent, in order", len(got) == len(n))
		spec.Ensures("a read returns the envelopes the server sent, in order", spec.Forall(0, len(n), func(i int) bool {
			return got[i].GetTimestamp() == n[i].GetTimestamp() && got[i].GetSourceId() == n[i].GetSourceId()
		}))
	}
	o.closed()
}

func ContractMetaResult() {
	o := anyOutcome_()
	want := map[string]*logcache_v1.MetaInfo{"a": {Count: spec.Any[int64]("count"), Expired: spec.Any[int64]("expired")}}
	if spec.Any[bool]("two sources") {
		want["b"] = &logcache_v1.MetaInfo{OldestTimestamp: spec.Any[int64]("oldest"), NewestTimestamp: spec.Any[int64]("newest")}
	}
	c := o.serve(true, pbJSON_(&logcache_v1.MetaResponse{Meta: want}))
	got, err := c.Meta(ghost.Ctx{})
	spec.Ensures("an error is returned exactly when the request failed", (err == nil) == o.good())
	spec.Ensures("a failed request returns nothing", err == nil || len(got) == 0)
	if err == nil {
		spec.Ensures("meta returns what the server sent", len(got) == len(want))
		spec.Ensures("meta returns what the server sent", spec.ForallKey(func(k string) bool {
			return got[k].GetCount() == want[k].GetCount() && got[k].GetExpired() == want[k].GetExpired() &&
				got[k].GetOldestTimestamp() == want[k].GetOldestTimestamp() && got[k].GetNewestTimestamp() == want[k].GetNewestTimestamp()
		}, got, want))
	}
	o.closed()
}

// the gRPC service answers with an error or a message
func ContractGRPCFailures(id, query string) {
	fail := spec.Any[error]("error")
	spec.Requires(fail != nil)
	c := viaGRPC_("log-cache:8080", func(ctx context.Context, method string, in, out interface{}) error { return fail })
	envs, err := c.Read(ghost.Ctx{}, id, time.Unix(0, 0))
	spec.Ensures("a failed read is reported", errors.Is(err, fail) && len(envs) == 0)
	m, err := c.Meta(ghost.Ctx{})
	spec.Ensures("a failed meta request is reported", errors.Is(err, fail) && len(m) == 0)
	i, err := c.PromQL(ghost.Ctx{}, query)
	spec.Ensures("a failed query is reported", errors.Is(err, fail) && i == nil)
	r, err := c.PromQLRange(ghost.Ctx{}, query)
	spec.Ensures("a failed range query is reported", errors.Is(err, fail) && r == nil)
}

// A reply without a batch is an empty read.
func ContractEmptyGRPCReply(id string) {
	c := viaGRPC_("log-cache:8080", func(ctx context.Context, method string, in, out interface{}) error { return nil })
	envs, err := c.Read(ghost.Ctx{}, id, time.Unix(0, 0))
	spec.Ensures("a reply without envelopes is an empty result", err == nil && len(envs) == 0)
	m, err := c.Meta(ghost.Ctx{})
	spec.Ensures("a reply without sources is an empty result", err == nil && len(m) == 0)
}

func ContractVMUptime(uptime int64) {
	o := anyOutcome_()
	text := strconv.FormatInt(uptime, 10)
	known := true
	if spec.Any[bool]("no uptime") {
		text, known = "", false
	}
	c := o.serve(false, mustJSON_(infoDoc_{VMUptime: text}))
	got, err := c.LogCacheVMUptime(ghost.Ctx{})
	spec.Ensures("an error is returned exactly when the uptime is unknown", (err == nil) == (o.good() && known))
	if err == nil {
		spec.Ensures("the uptime is the one reported", got == uptime)
	}
	o.closed()
}

func ContractVMUptimeGarbled(text string) {
	_, bad := strconv.ParseInt(text, 10, 64)
	spec.Requires(bad != nil)
	o := &outcome_{status: 200}
	c := o.serve(false, mustJSON_(infoDoc_{VMUptime: text}))
	_, err := c.LogCacheVMUptime(ghost.Ctx{})
	spec.Ensures("an uptime that is no number is an error", err != nil)
}

func mustJSON_(v interface{}) []byte {
	b, err := json.Marshal(v)
	spec.Requires(err == nil)
	return b
}

// rawDoc is a PromQL reply as the API serves it.
type rawDoc_ struct {
	Status    string   `json:"status"`
	Data      rawData_ `json:"data"`
	ErrorType string   `json:"errorType,omitempty"`
	Error     string   `json:"error,omitempty"`
}

type rawData_ struct {
	ResultType string          `json:"resultType"`
	Result     json.RawMessage `json:"result,omitempty"`
}

func rawResult_(call func(c *Client) (*PromQLQueryResult, error)) {
	o := anyOutcome_()
	o.cut = spec.Any[bool]("the reply breaks off")
	var d rawDoc_
	d.Status = spec.Any[string]("status")
	d.ErrorType = spec.Any[string]("error type")
	d.Error = spec.Any[string]("error")
	d.Data.ResultType = spec.Any[string]("result type")
	if spec.Native() {
		d.Status, d.ErrorType, d.Error, d.Data.ResultType = ascii_(d.Status), ascii_(d.ErrorType), ascii_(d.Error), ascii_(d.Data.ResultType)
	}
	d.Data.Result = mustJSON_([]string{"a", "b"})
	c := o.serve(false, mustJSON_(d))
	got, err := call(c)
	api := o.status == 200 || o.status == 400 || o.status == 500
	ok := !o.fail && api && !o.junk && !o.cut
	spec.Ensures("a reply of the query API is returned, anything else is an error", (err == nil) == ok)
	o.closed()
	if !ok {
		spec.Ensures("a failed query returns no result", got == nil)
		return
	}
	spec.Ensures("the reply is returned as the server sent it", got.Status == d.Status && got.ErrorType == d.ErrorType && got.Error == d.Error && got.Data.ResultType == d.Data.ResultType)
	spec.Ensures("the result document is returned as the server sent it", string(got.Data.Result) == string(d.Data.Result))
}

func ascii_(s string) string {
	return strings.Map(func(r rune) rune { return 'a' + r&15 }, s)
}

func ContractPromQLRawResult(query string) {
	rawResult_(func(c *Client) (*PromQLQueryResult, error) { return c.PromQLRaw(ghost.Ctx{}, query) })
}

func ContractPromQLRangeRawResult(query string) {
	rawResult_(func(c *Client) (*PromQLQueryResult, error) { return c.PromQLRangeRaw(ghost.Ctx{}, query) })
}

// The decoded forms of the PromQL calls share the marshaler (its own property); here: errors and closing.
func ContractPromQLFailures(query string) {
	o := anyOutcome_()
	spec.Requires(!o.good())
	c := o.serve(false, []byte("{}"))
	if spec.Any[bool]("range") {
		r, err := c.PromQLRange(ghost.Ctx{}, query)
		spec.Ensures("a failed range query is reported", err != nil && r == nil)
	} else {
		r, err := c.PromQL(ghost.Ctx{}, query)
		spec.Ensures("a failed query is reported", err != nil && r == nil)
	}
	o.closed()
}
