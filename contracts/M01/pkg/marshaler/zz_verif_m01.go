package marshaler

import (
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"

	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/grpc-ecosystem/grpc-gateway/runtime"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

// finite: the text is a time that can be shown as a number.
func finite_(t string) bool {
	f, err := strconv.ParseFloat(t, 64)
	return err == nil && !math.IsNaN(f) && !math.IsInf(f, 0)
}

// shown is the time as the API shows it: seconds with three decimals.
func shown_(t string) string {
	f, _ := strconv.ParseFloat(t, 64)
	return fmt.Sprintf("%.3f", f)
}

func pointShown_(j spec.JSON, p *logcache_v1.PromQL_Point) bool {
	return j.Len() == 2 && j.At(0).Num() == shown_(p.GetTime()) && j.At(1).Str() == strconv.FormatFloat(p.GetValue(), 'f', -1, 64)
}

func labelsShown_(j spec.JSON, m map[string]string) bool {
	return spec.MapEq(j.StrMap(), spec.MapOf(m))
}

func encode_(v interface{}) ([]byte, error) {
	return NewPromqlMarshaler(nil).Marshal(v)
}

func framed_(out []byte) {
	spec.Ensures("the reply ends in a newline", len(out) > 0 && out[len(out)-1] == '\n')
	d := spec.ParseJSON(out)
	spec.Ensures("a result is marked a success", d.Field("status").Str() == "success")
}

func ContractEncodeScalar(t string, value float64) {
	out, err := encode_(&logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: t, Value: value}}})
	spec.Ensures("a scalar is encoded unless its time is no number", (err == nil) == finite_(t))
	if err != nil {
		return
	}
	framed_(out)
	d := spec.ParseJSON(out).Field("data")
	spec.Ensures("a scalar is announced as one", d.Field("resultType").Str() == "scalar")
	spec.Ensures("a scalar is shown as time and value", pointShown_(d.Field("result"), &logcache_v1.PromQL_Point{Time: t, Value: value}))
}

func vector_(in []*logcache_v1.PromQL_Sample) *logcache_v1.PromQL_InstantQueryResult {
	return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Vector{Vector: &logcache_v1.PromQL_Vector{Samples: in}}}
}

// ContractEncodeVector: k is an arbitrary position, so what is shown of it is shown of every one.
func ContractEncodeVector(in []*logcache_v1.PromQL_Sample, k int) {
	spec.Requires(0 <= k && k < len(in))
	shown := func(list spec.JSON, n int) bool {
		return k >= n || finite_(in[k].GetPoint().GetTime()) && spec.Apart(list.At(k).Field("value"), list) &&
			labelsShown_(list.At(k).Field("metric"), in[k].GetMetric()) && pointShown_(list.At(k).Field("value"), in[k].GetPoint())
	}
	spec.Invariant(func(list spec.JSON) bool { return list.Len() >= 0 && shown(list, list.Len()) })
	// one place filled after the other
	spec.Invariant(func(list spec.JSON, n int) bool {
		return list.Len() == len(in) && n >= 0 && n <= len(in) && shown(list, n)
	})
	out, err := encode_(vector_(in))
	if err != nil {
		return
	}
	spec.Ensures("a time that is no number is refused", finite_(in[k].GetPoint().GetTime()))
	framed_(out)
	d := spec.ParseJSON(out).Field("data")
	spec.Ensures("a vector is announced as one", d.Field("resultType").Str() == "vector")
	r := d.Field("result")
	spec.Ensures("every sample is shown, in order", r.Len() == len(in))
	spec.Ensures("every sample is shown, in order", pointShown_(r.At(k).Field("value"), in[k].GetPoint()))
	spec.Ensures("every sample is shown with its labels", labelsShown_(r.At(k).Field("metric"), in[k].GetMetric()))
}

func ContractEncodeVectorAccepts(in []*logcache_v1.PromQL_Sample) {
	spec.Requires(spec.Forall(0, len(in), func(i int) bool { return finite_(in[i].GetPoint().GetTime()) }))
	_, err := encode_(vector_(in))
	spec.Ensures("a vector whose times are numbers is encoded", err == nil)
}

func matrix_(in []*logcache_v1.PromQL_Series) *logcache_v1.PromQL_Matrix {
	return &logcache_v1.PromQL_Matrix{Series: in}
}

// matrixShown gives the invariants of the two loops over series and their points,
// for an arbitrary series k and an arbitrary point p of it.
func matrixShown_(in []*logcache_v1.PromQL_Series, k, p int) {
	// the points of one series
	points := func(list spec.JSON, ps []*logcache_v1.PromQL_Point, n int) bool {
		return p >= n || finite_(ps[p].GetTime()) && pointShown_(list.At(p), ps[p])
	}
	spec.Invariant(func(list spec.JSON, ps []*logcache_v1.PromQL_Point) bool { return points(list, ps, list.Len()) })
	spec.Invariant(func(list spec.JSON) bool { return p >= list.Len() || spec.Recent(list.At(p)) })
	// the series
	shown := func(list spec.JSON, n int) bool {
		return k >= n || spec.Apart(list.At(k).Field("values").At(p), list) && list.At(k).Field("values").Len() == len(in[k].GetPoints()) &&
			labelsShown_(list.At(k).Field("metric"), in[k].GetMetric())
	}
	shownPoint := func(list spec.JSON, n int) bool {
		return (k >= n || list.At(k).Field("values").Len() == len(in[k].GetPoints())) &&
			(k >= n || finite_(in[k].GetPoints()[p].GetTime()) && pointShown_(list.At(k).Field("values").At(p), in[k].GetPoints()[p]))
	}
	spec.Invariant(func(list spec.JSON) bool { return list.Len() >= 0 && shown(list, list.Len()) })
	spec.Invariant(func(list spec.JSON) bool { return shownPoint(list, list.Len()) })
	// one place filled after the other
	spec.Invariant(func(list spec.JSON, n int) bool {
		return list.Len() == len(in) && n >= 0 && n <= len(in) && shown(list, n)
	})
	spec.Invariant(func(list spec.JSON, n int) bool {
		return list.Len() == len(in) && n >= 0 && n <= len(in) && shownPoint(list, n)
	})
}

func checkMatrix_(out []byte, in []*logcache_v1.PromQL_Series, k, p int) {
	spec.Ensures("a time that is no number is refused", finite_(in[k].GetPoints()[p].GetTime()))
	framed_(out)
	d := spec.ParseJSON(out).Field("data")
	spec.Ensures("a matrix is announced as one", d.Field("resultType").Str() == "matrix")
	r := d.Field("result")
	spec.Ensures("every series is shown, in order", r.Len() == len(in))
	spec.Ensures("every series is shown with its labels", labelsShown_(r.At(k).Field("metric"), in[k].GetMetric()))
	spec.Ensures("every point is shown, in order", r.At(k).Field("values").Len() == len(in[k].GetPoints()))
	spec.Ensures("every point is shown, in order", pointShown_(r.At(k).Field("values").At(p), in[k].GetPoints()[p]))
}

func ContractEncodeMatrix(in []*logcache_v1.PromQL_Series, k, p int) {
	spec.Requires(0 <= k && k < len(in))
	spec.Requires(0 <= p && p < len(in[k].GetPoints()))
	matrixShown_(in, k, p)
	out, err := encode_(&logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: matrix_(in)}})
	if err == nil {
		checkMatrix_(out, in, k, p)
	}
}

func ContractEncodeRange(in []*logcache_v1.PromQL_Series, k, p int) {
	spec.Requires(0 <= k && k < len(in))
	spec.Requires(0 <= p && p < len(in[k].GetPoints()))
	matrixShown_(in, k, p)
	out, err := encode_(&logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: matrix_(in)}})
	if err == nil {
		checkMatrix_(out, in, k, p)
	}
}

func ContractEncodeMatrixAccepts(in []*logcache_v1.PromQL_Series) {
	spec.Requires(spec.Forall(0, len(in), func(i int) bool {
		ps := in[i].GetPoints()
		return spec.Forall(0, len(ps), func(j int) bool { return finite_(ps[j].GetTime()) })
	}))
	_, err := encode_(&logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: matrix_(in)}})
	spec.Ensures("a matrix whose times are numbers is encoded", err == nil)
}

// ContractEncodeNothing: a result without entries is an empty list, never null or absent.
func ContractEncodeNothing(kind int) {
	var v interface{}
	name := "matrix"
	switch kind {
	case 0:
		v, name = vector_(nil), "vector"
	case 1:
		v = &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Matrix{Matrix: matrix_(nil)}}
	default:
		v = &logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: matrix_(nil)}}
	}
	out, err := encode_(v)
	spec.Ensures("an empty result is encoded", err == nil)
	if err != nil {
		return
	}
	framed_(out)
	d := spec.ParseJSON(out).Field("data")
	spec.Ensures("an empty result is announced as what it is", d.Field("resultType").Str() == name)
	spec.Ensures("an empty result is an empty list", d.Field("result").Len() == 0)
}

// fallback stands for the gateway's ordinary marshaler.
type fallback_ struct {
	runtime.Marshaler
	given interface{}
	calls int
	out   []byte
	err   error
}

func (f *fallback_) Marshal(v interface{}) ([]byte, error) {
	f.given = v
	f.calls++
	return f.out, f.err
}
func (f *fallback_) Unmarshal(b []byte, v interface{}) error {
	f.given = v
	f.out = b
	f.calls++
	return f.err
}
func (f *fallback_) NewEncoder(w io.Writer) runtime.Encoder {
	return runtime.EncoderFunc(func(v interface{}) error { f.given = v; f.calls++; return f.err })
}
func (f *fallback_) NewDecoder(r io.Reader) runtime.Decoder {
	return runtime.DecoderFunc(func(v interface{}) error { f.given = v; f.calls++; return f.err })
}

// ContractOtherMessages: what is no PromQL result is left to the ordinary marshaler.
func ContractOtherMessages(out []byte) {
	f := &fallback_{out: out}
	if spec.Any[bool]("fails") {
		f.err = errors.New("down")
	}
	m := NewPromqlMarshaler(f)
	before := spec.SeqOf(out)
	msg := &logcache_v1.MetaResponse{}
	var err error
	switch spec.Any[int]("call") {
	case 0:
		var got []byte
		got, err = m.Marshal(msg)
		if err == nil {
			spec.Ensures("other messages are encoded as usual, with a newline", len(got) == before.Len()+1 && got[len(got)-1] == '\n')
			spec.Ensures("other messages are encoded as usual, with a newline", spec.SeqEq(spec.SeqOf(got[:len(got)-1]), before))
		}
	case 1:
		err = m.NewEncoder(&ghost.Writer{}).Encode(msg)
	case 2:
		err = m.Unmarshal(out, msg)
		spec.Ensures("other messages are decoded from the same text", spec.SeqEq(spec.SeqOf(f.out), before))
	default:
		err = m.NewDecoder(strings.NewReader("")).Decode(msg)
	}
	spec.Ensures("other messages go to the ordinary marshaler once", f.calls == 1)
	p, ok := f.given.(*logcache_v1.MetaResponse)
	spec.Ensures("other messages are handed on as they are", ok && p == msg)
	spec.Ensures("its errors are reported", err == f.err)
}

// ContractStreamedScalar: the streaming encoder writes the same document.
func ContractStreamedScalar(t string, value float64) {
	spec.Requires(finite_(t))
	w := &ghost.Writer{}
	err := NewPromqlMarshaler(&fallback_{}).NewEncoder(w).Encode(&logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: t, Value: value}}})
	spec.Ensures("a result is streamed", err == nil)
	framed_(w.Out)
	d := spec.ParseJSON(w.Out).Field("data")
	spec.Ensures("a streamed scalar is announced as one", d.Field("resultType").Str() == "scalar")
	spec.Ensures("a streamed scalar is shown as time and value", pointShown_(d.Field("result"), &logcache_v1.PromQL_Point{Time: t, Value: value}))
}

func ContractStreamedRange(in []*logcache_v1.PromQL_Series, k, p int) {
	spec.Requires(0 <= k && k < len(in))
	spec.Requires(0 <= p && p < len(in[k].GetPoints()))
	matrixShown_(in, k, p)
	w := &ghost.Writer{}
	err := NewPromqlMarshaler(&fallback_{}).NewEncoder(w).Encode(&logcache_v1.PromQL_RangeQueryResult{Result: &logcache_v1.PromQL_RangeQueryResult_Matrix{Matrix: matrix_(in)}})
	if err == nil {
		checkMatrix_(w.Out, in, k, p)
	} else {
		spec.Ensures("nothing is written of a result that cannot be shown", len(w.Out) == 0)
	}
}
