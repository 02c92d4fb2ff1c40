package marshaler

import (
	"errors"
	"io"

	"github.com/grpc-ecosystem/grpc-gateway/runtime"
)

// noFallback has no other messages to decode.
type noFallback_ struct{ runtime.Marshaler }

func (noFallback_) NewDecoder(io.Reader) runtime.Decoder {
	return runtime.DecoderFunc(func(interface{}) error { return errors.New("unexpected") })
}
