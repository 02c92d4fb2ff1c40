// Package ghost holds the fakes contracts put at the boundaries of the verified code.
package ghost

import (
	"io"
	"net/http"
	"time"
)

// Body is an HTTP body with known content.
type Body struct {
	Data   []byte
	Err    error // read error, after Data
	Closed int
	off    int
}

func (b *Body) Read(p []byte) (int, error) {
	if b.off < len(b.Data) {
		n := copy(p, b.Data[b.off:])
		b.off += n
		return n, nil
	}
	if b.Err != nil {
		return 0, b.Err
	}
	return 0, io.EOF
}

func (b *Body) Close() error { b.Closed++; return nil }

// HTTP is a client that hands every request to a function.
type HTTP struct {
	F func(r *http.Request) (*http.Response, error)
}

func (h HTTP) Do(r *http.Request) (*http.Response, error) { return h.F(r) }

// Ctx is a context with a given error and a mark to recognise it by.
type Ctx struct {
	E    *error
	Mark string
}

type markKey struct{}

func (c Ctx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c Ctx) Done() <-chan struct{}       { return nil }
func (c Ctx) Err() error {
	if c.E == nil {
		return nil
	}
	return *c.E
}
func (c Ctx) Value(key interface{}) interface{} {
	if _, ok := key.(markKey); ok {
		return c.Mark
	}
	return nil
}

// Valuer is the part of a context Mark needs.
type Valuer interface {
	Value(key interface{}) interface{}
}

// MarkOf is the mark of a context or of the context it is derived from.
func MarkOf(c Valuer) string {
	if c == nil {
		return ""
	}
	s, _ := c.Value(markKey{}).(string)
	return s
}

// Writer is an http.ResponseWriter that records what it is given.
type Writer struct {
	H      http.Header
	Status []int
	Out    []byte
	N      int // calls of Write
	Err    error
}

func (w *Writer) Header() http.Header { return w.H }
func (w *Writer) WriteHeader(c int)   { w.Status = append(w.Status, c) }
func (w *Writer) Write(p []byte) (int, error) {
	w.N++
	if w.Err != nil {
		return 0, w.Err
	}
	if w.N == 1 {
		w.Out = append([]byte(nil), p...)
	} else {
		w.Out = append(append([]byte(nil), w.Out...), p...)
	}
	return len(p), nil
}
