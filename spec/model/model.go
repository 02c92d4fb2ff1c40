// Package model holds the assumed contracts of library functions: the verifier
// executes these bodies in place of the library's. They are never run natively.
package model

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/blang/semver"
	"github.com/golang/protobuf/jsonpb"
	"github.com/golang/protobuf/proto"
	"github.com/grpc-ecosystem/grpc-gateway/runtime"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

// ---------- net/url ----------

const urlFn = "url.String"

// model net/url.Parse
func urlParse(s string) (*url.URL, error) {
	if !spec.Known(urlFn, s) {
		if err := spec.Fn[error]("url.Parse.err", s); err != nil {
			return nil, err
		}
	}
	u := &url.URL{
		Scheme:   spec.Inv[string](urlFn, 0, s),
		Opaque:   spec.Inv[string](urlFn, 1, s),
		Host:     spec.Inv[string](urlFn, 3, s),
		Path:     spec.Inv[string](urlFn, 4, s),
		RawQuery: spec.Inv[string](urlFn, 5, s),
		Fragment: spec.Inv[string](urlFn, 6, s),
	}
	u.User = spec.Inv[*url.Userinfo](urlFn, 2, s)
	return u, nil
}

// model (*net/url.URL).String
func urlString(u *url.URL) string {
	return spec.Fn[string](urlFn, u.Scheme, u.Opaque, u.User, u.Host, u.Path, u.RawQuery, u.Fragment)
}

// model (*net/url.URL).Query
func urlQuery(u *url.URL) url.Values {
	v, _ := url.ParseQuery(u.RawQuery)
	return v
}

// model net/url.UserPassword
func urlUserPassword(name, password string) *url.Userinfo {
	u := new(url.Userinfo)
	spec.Put(u, "userinfo.name", name)
	spec.Put(u, "userinfo.password", password)
	spec.Put(u, "userinfo.has", true)
	return u
}

// model net/url.User
func urlUser(name string) *url.Userinfo {
	u := new(url.Userinfo)
	spec.Put(u, "userinfo.name", name)
	spec.Put(u, "userinfo.has", false)
	return u
}

// model (*net/url.Userinfo).Username
func userinfoUsername(u *url.Userinfo) string {
	if u == nil {
		return ""
	}
	return spec.Of[string](u, "userinfo.name")
}

// model (*net/url.Userinfo).Password
func userinfoPassword(u *url.Userinfo) (string, bool) {
	if u == nil {
		return "", false
	}
	return spec.Of[string](u, "userinfo.password"), spec.Of[bool](u, "userinfo.has")
}

// model (net/url.Values).Get
func valuesGet(v url.Values, key string) string {
	vs := v[key]
	if len(vs) == 0 {
		return ""
	}
	return vs[0]
}

// model (net/url.Values).Set
func valuesSet(v url.Values, key, value string) { v[key] = []string{value} }

// model (net/url.Values).Add
func valuesAdd(v url.Values, key, value string) { v[key] = append(v[key], value) }

// model (net/url.Values).Del
func valuesDel(v url.Values, key string) { delete(v, key) }

// model (net/url.Values).Has
func valuesHas(v url.Values, key string) bool { _, ok := v[key]; return ok }

// ---------- net/http ----------

type nopBody struct{ io.Reader }

func (nopBody) Close() error { return nil }

// model net/http.NewRequest
func httpNewRequest(method, addr string, body io.Reader) (*http.Request, error) {
	return http.NewRequestWithContext(context.Background(), method, addr, body)
}

// model net/http.NewRequestWithContext
func httpNewRequestWithContext(ctx context.Context, method, addr string, body io.Reader) (*http.Request, error) {
	u, err := url.Parse(addr)
	if err != nil {
		return nil, err
	}
	r := &http.Request{Method: method, URL: u, Header: make(http.Header), Host: u.Host, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	if body != nil {
		if c, ok := body.(io.ReadCloser); ok {
			r.Body = c
		} else {
			r.Body = nopBody{body}
		}
	}
	spec.Put[context.Context](r, "request.ctx", ctx)
	return r, nil
}

// model (*net/http.Request).WithContext
func requestWithContext(r *http.Request, ctx context.Context) *http.Request {
	q := new(http.Request)
	*q = *r
	spec.Put[context.Context](q, "request.ctx", ctx)
	return q
}

// model (*net/http.Request).Context
func requestContext(r *http.Request) context.Context {
	return spec.Of[context.Context](r, "request.ctx")
}

// model (net/http.Header).Get
func headerGet(h http.Header, key string) string {
	vs := h[http.CanonicalHeaderKey(key)]
	if len(vs) == 0 {
		return ""
	}
	return vs[0]
}

// model (net/http.Header).Values
func headerValues(h http.Header, key string) []string { return h[http.CanonicalHeaderKey(key)] }

// model (net/http.Header).Set
func headerSet(h http.Header, key, value string) { h[http.CanonicalHeaderKey(key)] = []string{value} }

// model (net/http.Header).Add
func headerAdd(h http.Header, key, value string) {
	k := http.CanonicalHeaderKey(key)
	h[k] = append(h[k], value)
}

// model (net/http.Header).Del
func headerDel(h http.Header, key string) { delete(h, http.CanonicalHeaderKey(key)) }

// model net/http.Error
func httpError(w http.ResponseWriter, msg string, code int) {
	w.Header().Set("Content-Type", "text/plain; charset=utf-8")
	w.WriteHeader(code)
	w.Write([]byte(msg + "\n"))
}

// model (net/http.HandlerFunc).ServeHTTP
func handlerFunc(f http.HandlerFunc, w http.ResponseWriter, r *http.Request) { f(w, r) }

// model (*net/http.ServeMux).HandleFunc
func muxHandleFunc(m *http.ServeMux, pattern string, f func(http.ResponseWriter, *http.Request)) {
	m.Handle(pattern, http.HandlerFunc(f))
}

// model net/http.ServeTLS
func httpServeTLS(l net.Listener, h http.Handler, cert, key string) error {
	return (&http.Server{Handler: h}).ServeTLS(l, cert, key)
}

// ---------- readers and writers ----------

// model strings.NewReader
func stringsNewReader(s string) *strings.Reader {
	r := new(strings.Reader)
	spec.Put(r, "strings.Reader", s)
	return r
}

// model bytes.NewReader
func bytesNewReader(b []byte) *bytes.Reader {
	r := new(bytes.Reader)
	spec.Put(r, "bytes.Reader", string(b))
	return r
}

// model io/ioutil.ReadAll
func ioutilReadAll(r io.Reader) ([]byte, error) { return io.ReadAll(r) }

// model io.ReadAll
func ioReadAll(r io.Reader) ([]byte, error) {
	switch b := r.(type) {
	case *ghost.Body:
		if b.Err != nil {
			return spec.Any[[]byte]("partial body"), b.Err
		}
		return b.Data, nil
	case nopBody:
		return io.ReadAll(b.Reader)
	case *strings.Reader:
		return []byte(spec.Of[string](b, "strings.Reader")), nil
	case *bytes.Reader:
		return []byte(spec.Of[string](b, "bytes.Reader")), nil
	case *bytes.Buffer:
		s := spec.Of[string](b, buffer)
		spec.Put(b, buffer, "")
		return []byte(s), nil
	}
	return spec.Any[[]byte]("read"), spec.Any[error]("read error")
}

// model io/ioutil.NopCloser
func ioutilNopCloser(r io.Reader) io.ReadCloser { return nopBody{r} }

// model io.NopCloser
func ioNopCloser(r io.Reader) io.ReadCloser { return nopBody{r} }

// model io.WriteString
func ioWriteString(w io.Writer, s string) (int, error) { return w.Write([]byte(s)) }

// model io.Copy
func ioCopy(w io.Writer, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	n, werr := w.Write(b)
	if werr != nil {
		err = werr
	}
	return int64(n), err
}

// model fmt.Fprintf
func fmtFprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write([]byte(fmt.Sprintf(format, a...)))
}

// model fmt.Fprint
func fmtFprint(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(fmt.Sprint(a...))) }

// model fmt.Fprintln
func fmtFprintln(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(fmt.Sprint(a...) + "\n"))
}

// model (*os.File).Write
func fileWrite(f *os.File, b []byte) (int, error) { return len(b), nil }

// model (*os.File).WriteString
func fileWriteString(f *os.File, s string) (int, error) { return len(s), nil }

// model io/ioutil.ReadFile
func ioutilReadFile(name string) ([]byte, error) { return os.ReadFile(name) }

const builder = "strings.Builder"

// model (*strings.Builder).WriteString
func builderWriteString(b *strings.Builder, s string) (int, error) {
	spec.Put(b, builder, spec.Of[string](b, builder)+s)
	return len(s), nil
}

// model (*strings.Builder).Write
func builderWrite(b *strings.Builder, p []byte) (int, error) { return b.WriteString(string(p)) }

// model (*strings.Builder).WriteByte
func builderWriteByte(b *strings.Builder, c byte) error {
	b.WriteString(string([]byte{c}))
	return nil
}

// model (*strings.Builder).WriteRune
func builderWriteRune(b *strings.Builder, r rune) (int, error) { return b.WriteString(string(r)) }

// model (*strings.Builder).String
func builderString(b *strings.Builder) string { return spec.Of[string](b, builder) }

// model (*strings.Builder).Len
func builderLen(b *strings.Builder) int { return len(spec.Of[string](b, builder)) }

// model (*strings.Builder).Grow
func builderGrow(b *strings.Builder, n int) {}

// model (*strings.Builder).Reset
func builderReset(b *strings.Builder) { spec.Put(b, builder, "") }

const buffer = "bytes.Buffer"

// model bytes.NewBuffer
func bytesNewBuffer(p []byte) *bytes.Buffer {
	b := new(bytes.Buffer)
	spec.Put(b, buffer, string(p))
	return b
}

// model bytes.NewBufferString
func bytesNewBufferString(s string) *bytes.Buffer {
	b := new(bytes.Buffer)
	spec.Put(b, buffer, s)
	return b
}

// model (*bytes.Buffer).WriteString
func bufferWriteString(b *bytes.Buffer, s string) (int, error) {
	spec.Put(b, buffer, spec.Of[string](b, buffer)+s)
	return len(s), nil
}

// model (*bytes.Buffer).Write
func bufferWrite(b *bytes.Buffer, p []byte) (int, error) { return b.WriteString(string(p)) }

// model (*bytes.Buffer).WriteByte
func bufferWriteByte(b *bytes.Buffer, c byte) error {
	b.WriteString(string([]byte{c}))
	return nil
}

// model (*bytes.Buffer).String
func bufferString(b *bytes.Buffer) string { return spec.Of[string](b, buffer) }

// model (*bytes.Buffer).Bytes
func bufferBytes(b *bytes.Buffer) []byte { return []byte(spec.Of[string](b, buffer)) }

// model (*bytes.Buffer).Len
func bufferLen(b *bytes.Buffer) int { return len(spec.Of[string](b, buffer)) }

// model (*bytes.Buffer).Reset
func bufferReset(b *bytes.Buffer) { spec.Put(b, buffer, "") }

// model (*bytes.Buffer).ReadFrom
func bufferReadFrom(b *bytes.Buffer, r io.Reader) (int64, error) {
	p, err := io.ReadAll(r)
	b.WriteString(string(p))
	return int64(len(p)), err
}

// model sort.Search
func sortSearch(n int, f func(int) bool) int {
	if n <= 0 {
		return 0
	}
	i := spec.Any[int]("search")
	spec.Assume(0 <= i && i <= n)
	if i < n {
		spec.Assume(f(i))
	}
	if i > 0 {
		spec.Assume(!f(i - 1))
	}
	return i
}

// ---------- encoding/json, jsonpb ----------

// the reader behind a decoder, the writer behind an encoder
type jsonEnd struct {
	r io.Reader
	w io.Writer
}

// model encoding/json.NewDecoder
func jsonNewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	spec.Put[io.Reader](d, "json.Decoder", r)
	return d
}

// model (*encoding/json.Decoder).Decode
func jsonDecode(d *json.Decoder, v interface{}) error {
	b, err := io.ReadAll(spec.Of[io.Reader](d, "json.Decoder"))
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

// model encoding/json.NewEncoder
func jsonNewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	spec.Put[io.Writer](e, "json.Encoder", w)
	return e
}

// model (*encoding/json.Encoder).Encode
func jsonEncode(e *json.Encoder, v interface{}) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	_, err = spec.Of[io.Writer](e, "json.Encoder").Write(append(b, '\n'))
	return err
}

// model github.com/golang/protobuf/jsonpb.Unmarshal
func jsonpbUnmarshal(r io.Reader, m proto.Message) error {
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	return jsonpb.UnmarshalString(string(b), m)
}

// ---------- context ----------

type derivedCtx struct {
	context.Context
	canceled *bool
	deadline time.Time
	has      bool
}

func (c derivedCtx) Deadline() (time.Time, bool) {
	d, ok := c.Context.Deadline()
	if !c.has {
		return d, ok
	}
	if ok && d.Before(c.deadline) {
		return d, ok
	}
	return c.deadline, true
}

func (c derivedCtx) Err() error {
	if err := c.Context.Err(); err != nil {
		return err
	}
	if *c.canceled {
		return context.Canceled
	}
	if c.has && !time.Now().Before(c.deadline) {
		return context.DeadlineExceeded
	}
	return nil
}

type rootCtx struct{}

func (rootCtx) Deadline() (time.Time, bool)       { return time.Time{}, false }
func (rootCtx) Done() <-chan struct{}             { return nil }
func (rootCtx) Err() error                        { return nil }
func (rootCtx) Value(key interface{}) interface{} { return nil }

// model context.Background
// model golang.org/x/net/context.Background
func contextBackground() context.Context { return rootCtx{} }

// model context.TODO
// model golang.org/x/net/context.TODO
func contextTODO() context.Context { return rootCtx{} }

// model context.WithTimeout
// model golang.org/x/net/context.WithTimeout
func contextWithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithDeadline(p, time.Now().Add(d))
}

// model context.WithDeadline
// model golang.org/x/net/context.WithDeadline
func contextWithDeadline(p context.Context, d time.Time) (context.Context, context.CancelFunc) {
	done := new(bool)
	return derivedCtx{p, done, d, true}, func() { *done = true }
}

// model context.WithCancel
// model golang.org/x/net/context.WithCancel
func contextWithCancel(p context.Context) (context.Context, context.CancelFunc) {
	done := new(bool)
	return derivedCtx{p, done, time.Time{}, false}, func() { *done = true }
}

// ---------- time ----------

// model time.NewTicker
func timeNewTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic(errors.New("non-positive interval for NewTicker"))
	}
	return &time.Ticker{C: make(chan time.Time, 1)}
}

// model (*time.Ticker).Stop
func tickerStop(t *time.Ticker) {}

// model (*time.Ticker).Reset
func tickerReset(t *time.Ticker, d time.Duration) {}

// ---------- logging, processes ----------

// model log.New
func logNew(w io.Writer, prefix string, flag int) *log.Logger { return new(log.Logger) }

// model log.Fatalf
func logFatalf(format string, v ...interface{}) { spec.Exit() }

// model log.Fatal
func logFatal(v ...interface{}) { spec.Exit() }

// model log.Fatalln
func logFatalln(v ...interface{}) { spec.Exit() }

// model (*log.Logger).Fatalf
func loggerFatalf(l *log.Logger, format string, v ...interface{}) { spec.Exit() }

// model (*log.Logger).Fatal
func loggerFatal(l *log.Logger, v ...interface{}) { spec.Exit() }

// model os.Exit
func osExit(code int) { spec.Exit() }

// ---------- versions ----------

// model github.com/blang/semver.Parse
func semverParse(s string) (semver.Version, error) {
	if err := spec.Fn[error]("semver.err", s); err != nil {
		return semver.Version{}, err
	}
	return spec.Fn[semver.Version]("semver", s), nil
}

// model github.com/golang/protobuf/proto.EnumName
func protoEnumName(m map[int32]string, v int32) string {
	if s, ok := m[v]; ok {
		return s
	}
	return strconv.Itoa(int(v))
}

// ---------- grpc-gateway ----------

type pbDecoder struct{ r io.Reader }

func (d pbDecoder) Decode(v interface{}) error { return jsonpb.Unmarshal(d.r, v.(proto.Message)) }

// model (*github.com/grpc-ecosystem/grpc-gateway/runtime.JSONPb).NewDecoder
func jsonpbNewDecoder(j *runtime.JSONPb, r io.Reader) runtime.Decoder { return pbDecoder{r} }

// model (*github.com/grpc-ecosystem/grpc-gateway/runtime.JSONPb).ContentType
func jsonpbContentType(j *runtime.JSONPb) string { return "application/json" }

// model (github.com/grpc-ecosystem/grpc-gateway/runtime.DecoderFunc).Decode
func decoderFunc(f runtime.DecoderFunc, v interface{}) error { return f(v) }

// model (github.com/grpc-ecosystem/grpc-gateway/runtime.EncoderFunc).Encode
func encoderFunc(f runtime.EncoderFunc, v interface{}) error { return f(v) }

// ---------- the environment ----------

// model os.Getenv
func osGetenv(name string) string { return spec.Fn[string]("environment", name) }

// model time.ParseDuration
func timeParseDuration(s string) (time.Duration, error) {
	if err := spec.Fn[error]("duration.err", s); err != nil {
		return 0, err
	}
	return spec.Fn[time.Duration]("duration", s), nil
}

// model code.cloudfoundry.org/go-envstruct.Load
func envstructLoad(t interface{}) error {
	if envMissing(t) {
		return errors.New("missing required environment variables")
	}
	return envFields(t)
}

// envMissing: some required variable is not set. (The library sets other
// fields before it says so.)
func envMissing(t interface{}) bool {
	missing := false
	n := spec.NumFields(t)
	for i := 0; i < n; i++ {
		name, required := spec.EnvTag(t, i)
		if required {
			missing = spec.Ite(os.Getenv(name) == "", true, missing)
		} else if f := spec.FieldPtr(t, i); f != nil && spec.NumFields(f) >= 0 {
			missing = spec.Ite(envMissing(f), true, missing)
		}
	}
	return missing
}

func envFields(t interface{}) error {
	n := spec.NumFields(t)
	for i := 0; i < n; i++ {
		name, _ := spec.EnvTag(t, i)
		if err := envField(spec.FieldPtr(t, i), name, os.Getenv(name)); err != nil {
			return err
		}
	}
	return nil
}

func envField(field interface{}, name, val string) error {
	if field == nil {
		return nil
	}
	if spec.NumFields(field) >= 0 {
		if name != "" {
			return errors.New("nested struct with env tag")
		}
		return envFields(field)
	}
	switch p := field.(type) {
	case *string:
		*p = spec.Ite(val == "", *p, val)
		return nil
	case *bool:
		*p = spec.Ite(val == "", *p, spec.Ite(val == "true", true, val == "1"))
		return nil
	}
	if val == "" {
		return nil
	}
	switch p := field.(type) {
	case *int:
		v, err := strconv.ParseInt(val, 10, 64)
		if err != nil {
			return err
		}
		*p = int(v)
	case *uint:
		v, err := strconv.ParseUint(val, 10, 64)
		if err != nil {
			return err
		}
		*p = uint(v)
	case *uint16:
		v, err := strconv.ParseUint(val, 10, 64)
		if err != nil {
			return err
		}
		*p = uint16(v)
	case *int64:
		v, err := strconv.ParseInt(val, 10, 64)
		if err != nil {
			return err
		}
		*p = v
	case *time.Duration:
		v, err := time.ParseDuration(val)
		if err != nil {
			return err
		}
		*p = v
	case *[]string:
		parts := strings.Split(val, ",")
		for i := range parts {
			parts[i] = strings.TrimSpace(parts[i])
		}
		*p = parts
	default:
		spec.Unsupported("a field of this type in an environment struct")
	}
	return nil
}

// model code.cloudfoundry.org/go-envstruct.WriteReport
func envstructWriteReport(t interface{}) error { return spec.Any[error]("report") }

// ---------- sync.Map (one goroutine at a time) ----------

// model (*sync.Map).Load
func syncMapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := spec.Inside(m)[k]
	return v, ok
}

// model (*sync.Map).Store
func syncMapStore(m *sync.Map, k, v interface{}) {
	h := spec.Inside(m)
	if h == nil {
		h = map[interface{}]interface{}{}
		spec.SetInside(m, h)
	}
	h[k] = v
}

// model (*sync.Map).Delete
func syncMapDelete(m *sync.Map, k interface{}) { delete(spec.Inside(m), k) }

// model (*sync.Map).LoadOrStore
func syncMapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	if o, ok := spec.Inside(m)[k]; ok {
		return o, true
	}
	m.Store(k, v)
	return v, false
}

// model (*sync.Map).Range
func syncMapRange(m *sync.Map, f func(k, v interface{}) bool) {
	for k, v := range spec.Inside(m) {
		if !f(k, v) {
			break
		}
	}
}

// model (time.Duration).Round
func durationRound(d, m time.Duration) time.Duration {
	if m <= 0 {
		return d
	}
	r := d % m
	if d < 0 {
		r = -r
		if r+r < m {
			return d + r
		}
		if d1 := d - m + r; d1 < d {
			return d1
		}
		return -1 << 63
	}
	if r+r < m {
		return d - r
	}
	if d1 := d + m - r; d1 > d {
		return d1
	}
	return 1<<63 - 1
}
