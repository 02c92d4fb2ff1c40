package client

import (
	"context"

	"google.golang.org/grpc"
	"verif.local/spec"
)

// viaGRPC is a client whose gRPC calls are answered by serve. The connection
// itself is grpc's: assumed to deliver each call to the address dialed.
func viaGRPC_(addr string, serve func(ctx context.Context, method string, in, out interface{}) error) *Client {
	if spec.Native() {
		return NewClient("127.0.0.1:1", WithViaGRPC(grpc.WithInsecure(), grpc.WithUnaryInterceptor(
			func(ctx context.Context, method string, in, out interface{}, cc *grpc.ClientConn, _ grpc.UnaryInvoker, _ ...grpc.CallOption) error {
				cc.Close()
				return serve(ctx, method, in, out)
			})))
	}
	conn := &grpc.ClientConn{}
	spec.Replace(grpc.Dial, func(target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
		spec.Ensures("the connection is to the configured server", target == addr)
		return conn, nil
	})
	spec.Replace((*grpc.ClientConn).Invoke, func(cc *grpc.ClientConn, ctx context.Context, method string, in, out interface{}, opts ...grpc.CallOption) error {
		spec.Ensures("calls go over the connection made", cc == conn)
		return serve(ctx, method, in, out)
	})
	return NewClient(addr, WithViaGRPC())
}
