package client

import (
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
)

// verifCtx is a context whose error the contract controls.
type verifCtx_ struct{ err *error }

func (c verifCtx_) Deadline() (time.Time, bool)       { return time.Time{}, false }
func (c verifCtx_) Done() <-chan struct{}             { return nil }
func (c verifCtx_) Err() error                        { return *c.err }
func (c verifCtx_) Value(key interface{}) interface{} { return nil }

type envs_ = []*loggregator_v2.Envelope
