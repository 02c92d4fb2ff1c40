// Package octetcounting is a stand-in (no parsing: the listener is driven directly).
package octetcounting

import (
	"io"

	syslog "github.com/influxdata/go-syslog"
)

type parser struct{ l syslog.ParserListener }

func NewParser() syslog.Parser                         { return &parser{} }
func (p *parser) Parse(r io.Reader)                    {}
func (p *parser) WithListener(l syslog.ParserListener) { p.l = l }
