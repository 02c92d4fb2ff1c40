package marshaler

import (
	"encoding/json"
	"strconv"
	"strings"

	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"verif.local/spec"
)

// The documents the API serves, written down independently of the code.
type docSample_ struct {
	Metric map[string]string `json:"metric"`
	Value  []interface{}     `json:"value"`
}
type docSeries_ struct {
	Metric map[string]string `json:"metric"`
	Values [][]interface{}   `json:"values"`
}
type docData_ struct {
	Type   string          `json:"resultType"`
	Result json.RawMessage `json:"result"`
}
type docReply_ struct {
	Status string   `json:"status"`
	Data   docData_ `json:"data"`
}

func reply_(kind string, result interface{}) []byte {
	r, err := json.Marshal(result)
	spec.Requires(err == nil)
	d, err := json.Marshal(docReply_{Status: "success", Data: docData_{Type: kind, Result: r}})
	spec.Requires(err == nil)
	return d
}

// isPoint: the list is a time and the text of a value.
func isPoint_(p []interface{}) bool {
	if len(p) != 2 {
		return false
	}
	_, num := p[0].(float64)
	s, str := p[1].(string)
	if !num || !str {
		return false
	}
	_, err := strconv.ParseFloat(s, 64)
	return err == nil
}

func meant_(p []interface{}, time string, value float64) bool {
	t, _ := p[0].(float64)
	s, _ := p[1].(string)
	v, _ := strconv.ParseFloat(s, 64)
	return time == strconv.FormatFloat(t, 'f', 3, 64) && value == v
}

func labels_(got, want map[string]string) bool { return spec.MapEq(spec.MapOf(got), spec.MapOf(want)) }

func decode_(stream bool, data []byte, v interface{}) error {
	if stream {
		return NewPromqlMarshaler(noFallback_{}).NewDecoder(strings.NewReader(string(data))).Decode(v)
	}
	return NewPromqlMarshaler(nil).Unmarshal(data, v)
}

func ContractDecodeScalar(in []interface{}, stream bool) {
	var out logcache_v1.PromQL_InstantQueryResult
	err := decode_(stream, reply_("scalar", in), &out)
	spec.Ensures("a scalar is accepted exactly when it is a time and a value", (err == nil) == isPoint_(in))
	if err != nil {
		spec.Ensures("a refused document changes nothing", out.Result == nil)
		return
	}
	s, ok := out.Result.(*logcache_v1.PromQL_InstantQueryResult_Scalar)
	spec.Ensures("a scalar is decoded as one", ok && s.Scalar != nil)
	spec.Ensures("a scalar keeps its time and value", meant_(in, s.Scalar.Time, s.Scalar.Value))
}

// ContractDecodeVector: k is an arbitrary position.
func ContractDecodeVector(in []docSample_, k int, stream bool) {
	spec.Requires(0 <= k && k < len(in))
	spec.Invariant(func(samples []*logcache_v1.PromQL_Sample) bool {
		return k >= len(samples) || isPoint_(in[k].Value)
	})
	spec.Invariant(func(samples []*logcache_v1.PromQL_Sample) bool {
		return k >= len(samples) || samples[k] != nil && samples[k].Point != nil && meant_(in[k].Value, samples[k].Point.Time, samples[k].Point.Value)
	})
	spec.Invariant(func(samples []*logcache_v1.PromQL_Sample) bool {
		return k >= len(samples) || labels_(samples[k].Metric, in[k].Metric)
	})
	var out logcache_v1.PromQL_InstantQueryResult
	err := decode_(stream, reply_("vector", in), &out)
	if err != nil {
		spec.Ensures("a refused document changes nothing", out.Result == nil)
		return
	}
	spec.Ensures("a sample that is no time and value is refused", isPoint_(in[k].Value))
	v, ok := out.Result.(*logcache_v1.PromQL_InstantQueryResult_Vector)
	spec.Ensures("a vector is decoded as one", ok && v.Vector != nil)
	got := v.Vector.Samples
	spec.Ensures("every sample is decoded, in order", len(got) == len(in))
	spec.Ensures("every sample keeps its time and value", meant_(in[k].Value, got[k].Point.Time, got[k].Point.Value))
	spec.Ensures("every sample keeps its labels", labels_(got[k].Metric, in[k].Metric))
}

func ContractDecodeVectorAccepts(in []docSample_) {
	spec.Requires(spec.Forall(0, len(in), func(i int) bool { return isPoint_(in[i].Value) }))
	var out logcache_v1.PromQL_InstantQueryResult
	spec.Ensures("a vector of times and values is accepted", decode_(false, reply_("vector", in), &out) == nil)
}

// matrixRead gives the invariants of the loops over series and their points,
// for an arbitrary series k and an arbitrary point p of it.
func matrixRead_(in []docSeries_, k, p int) {
	spec.Invariant(func(points []*logcache_v1.PromQL_Point, values [][]interface{}) bool {
		return p >= len(points) || isPoint_(values[p])
	})
	spec.Invariant(func(points []*logcache_v1.PromQL_Point, values [][]interface{}) bool {
		return p >= len(points) || points[p] != nil && meant_(values[p], points[p].Time, points[p].Value)
	})
	spec.Invariant(func(out []*logcache_v1.PromQL_Series) bool {
		return k >= len(out) || isPoint_(in[k].Values[p])
	})
	spec.Invariant(func(out []*logcache_v1.PromQL_Series) bool {
		return k >= len(out) || out[k] != nil && len(out[k].Points) == len(in[k].Values) && labels_(out[k].Metric, in[k].Metric)
	})
	spec.Invariant(func(out []*logcache_v1.PromQL_Series) bool {
		return k >= len(out) || out[k].Points[p] != nil && meant_(in[k].Values[p], out[k].Points[p].Time, out[k].Points[p].Value)
	})
}

func checkMatrix_(m *logcache_v1.PromQL_Matrix, in []docSeries_, k, p int) {
	spec.Ensures("a point that is no time and value is refused", isPoint_(in[k].Values[p]))
	spec.Ensures("a matrix is decoded as one", m != nil)
	got := m.Series
	spec.Ensures("every series is decoded, in order", len(got) == len(in))
	spec.Ensures("every series keeps its labels", labels_(got[k].Metric, in[k].Metric))
	spec.Ensures("every point is decoded, in order", len(got[k].Points) == len(in[k].Values))
	spec.Ensures("every point keeps its time and value", meant_(in[k].Values[p], got[k].Points[p].Time, got[k].Points[p].Value))
}

func ContractDecodeRange(in []docSeries_, k, p int, stream bool) {
	spec.Requires(0 <= k && k < len(in))
	spec.Requires(0 <= p && p < len(in[k].Values))
	matrixRead_(in, k, p)
	var out logcache_v1.PromQL_RangeQueryResult
	err := decode_(stream, reply_("matrix", in), &out)
	if err != nil {
		spec.Ensures("a refused document changes nothing", out.Result == nil)
		return
	}
	v, ok := out.Result.(*logcache_v1.PromQL_RangeQueryResult_Matrix)
	spec.Ensures("a matrix is decoded as one", ok)
	checkMatrix_(v.Matrix, in, k, p)
}

func ContractDecodeMatrix(in []docSeries_, k, p int) {
	spec.Requires(0 <= k && k < len(in))
	spec.Requires(0 <= p && p < len(in[k].Values))
	matrixRead_(in, k, p)
	var out logcache_v1.PromQL_InstantQueryResult
	if decode_(false, reply_("matrix", in), &out) != nil {
		return
	}
	v, ok := out.Result.(*logcache_v1.PromQL_InstantQueryResult_Matrix)
	spec.Ensures("a matrix is decoded as one", ok)
	checkMatrix_(v.Matrix, in, k, p)
}

func ContractDecodeMatrixAccepts(in []docSeries_) {
	spec.Requires(spec.Forall(0, len(in), func(i int) bool {
		vs := in[i].Values
		return spec.Forall(0, len(vs), func(j int) bool { return isPoint_(vs[j]) })
	}))
	var out logcache_v1.PromQL_RangeQueryResult
	spec.Ensures("a matrix of times and values is accepted", decode_(false, reply_("matrix", in), &out) == nil)
}

// ContractDecodeUnknown: a kind of result the query cannot have is refused.
func ContractDecodeUnknown(kind string, in []interface{}, stream bool) {
	var i logcache_v1.PromQL_InstantQueryResult
	if kind != "scalar" && kind != "vector" && kind != "matrix" {
		spec.Ensures("an unknown kind of result is refused", decode_(stream, reply_(kind, in), &i) != nil && i.Result == nil)
	}
	var r logcache_v1.PromQL_RangeQueryResult
	if kind != "matrix" {
		spec.Ensures("a range query result is a matrix", decode_(stream, reply_(kind, in), &r) != nil && r.Result == nil)
	}
}

// ContractDecodeGarbage: what is no JSON is refused.
func ContractDecodeGarbage(data []byte, stream bool) {
	spec.Requires(spec.Garbage(data))
	var i logcache_v1.PromQL_InstantQueryResult
	spec.Ensures("text that is no JSON is refused", decode_(stream, data, &i) != nil && i.Result == nil)
	var r logcache_v1.PromQL_RangeQueryResult
	spec.Ensures("text that is no JSON is refused", decode_(stream, data, &r) != nil && r.Result == nil)
}
