package client

import (
	"context"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"verif.local/spec"
)

// failingReader never produces an envelope; after max reads it stops the run.
func failingReader_(reads *int, max int) Reader {
	return func(c context.Context, sid string, from time.Time, opts ...ReadOption) ([]*loggregator_v2.Envelope, error) {
		spec.Ensures("no more reads than the backoff allows", *reads < max)
		*reads++
		return nil, spec.Any[error]("read error")
	}
}
