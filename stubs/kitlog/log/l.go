// Package log is a stand-in for github.com/go-kit/kit/log.
package log

type Logger interface {
	Log(keyvals ...interface{}) error
}
type nop struct{}

func (nop) Log(...interface{}) error               { return nil }
func NewNopLogger() Logger                         { return nop{} }
func With(l Logger, keyvals ...interface{}) Logger { return l }
