// Package syslog is a stand-in for github.com/influxdata/go-syslog v2.
package syslog

import (
	"io"
	"time"
)

type Result struct {
	Message Message
	Error   error
}
type ParserListener func(*Result)
type Parser interface {
	Parse(r io.Reader)
	WithListener(ParserListener)
}
type Message interface {
	Valid() bool
	Priority() *uint8
	Version() uint16
	Facility() *uint8
	Severity() *uint8
	Timestamp() *time.Time
	Hostname() *string
	ProcID() *string
	Appname() *string
	MsgID() *string
	Message() *string
	StructuredData() *map[string]map[string]string
}
