package gateway

import (
	"context"
	"errors"
	"net"
	"net/http"
	"net/url"
	"strconv"

	"code.cloudfoundry.org/log-cache/pkg/marshaler"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/grpc-ecosystem/grpc-gateway/runtime"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

// Start serves the API and the info document over TLS, and nothing else.
func ContractServe(logCacheAddr, gatewayAddr, cert, key, version string, uptime int64, one bool) {
	if spec.Native() {
		version = []string{"1.4.7", "2.0.0-rc.1+build", "", "dev"}[len(version)%4]
		nativeServe_(version, uptime, one)
		return
	}
	lis := &listener_{gatewayAddr}
	conn := &grpc.ClientConn{}
	api, top := &runtime.ServeMux{}, &http.ServeMux{}
	var secure grpc.DialOption = &option_{what: "secure"}
	var enc runtime.Marshaler
	var fallback *runtime.JSONPb
	prom := &marshaler.PromqlMarshaler{}
	egress, querier := &egressClient_{}, &querierClient_{}
	spec.Replace(logcache_v1.NewEgressClient, func(cc *grpc.ClientConn) logcache_v1.EgressClient {
		spec.Ensures("reads use the connection to Log Cache", cc == conn)
		return egress
	})
	spec.Replace(logcache_v1.NewPromQLQuerierClient, func(cc *grpc.ClientConn) logcache_v1.PromQLQuerierClient {
		spec.Ensures("queries use the connection to Log Cache", cc == conn)
		return querier
	})
	spec.Replace(marshaler.NewPromqlMarshaler, func(m runtime.Marshaler) *marshaler.PromqlMarshaler {
		fallback = m.(*runtime.JSONPb)
		return prom
	})
	listens, dials, reads, queries, serves := 0, 0, 0, 0, 0
	var rest http.Handler
	var info func(http.ResponseWriter, *http.Request)
	spec.Replace(net.Listen, func(network, at string) (net.Listener, error) {
		listens++
		spec.Ensures("the gateway listens on its address", network == "tcp" && at == gatewayAddr)
		if spec.Any[bool]("cannot listen") {
			return nil, errors.New("in use")
		}
		return lis, nil
	})
	spec.Replace(grpc.Dial, func(target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
		dials++
		spec.Ensures("the connection is made to Log Cache, as configured", target == logCacheAddr && len(opts) == 1 && opts[0] == secure)
		if spec.Any[bool]("cannot dial") {
			return nil, errors.New("no")
		}
		return conn, nil
	})
	spec.Replace(runtime.WithMarshalerOption, func(mime string, m runtime.Marshaler) runtime.ServeMuxOption {
		spec.Ensures("every kind of content is encoded the same way", mime == runtime.MIMEWildcard)
		enc = m
		return func(*runtime.ServeMux) {}
	})
	spec.Replace(runtime.NewServeMux, func(...runtime.ServeMuxOption) *runtime.ServeMux { return api })
	spec.Replace(http.NewServeMux, func() *http.ServeMux { return top })
	spec.Replace(logcache_v1.RegisterEgressHandlerClient, func(c context.Context, m *runtime.ServeMux, s logcache_v1.EgressClient) error {
		reads++
		spec.Ensures("reads are served by Log Cache", m == api && s == logcache_v1.EgressClient(egress) && c.Err() == nil)
		return spec.Any[error]("registering reads")
	})
	spec.Replace(logcache_v1.RegisterPromQLQuerierHandlerClient, func(c context.Context, m *runtime.ServeMux, s logcache_v1.PromQLQuerierClient) error {
		queries++
		spec.Ensures("queries are served by Log Cache", m == api && s == logcache_v1.PromQLQuerierClient(querier) && c.Err() == nil)
		return spec.Any[error]("registering queries")
	})
	spec.Replace((*http.ServeMux).Handle, func(m *http.ServeMux, pattern string, h http.Handler) {
		if pattern != "/" {
			spec.Ensures("the info document has its place", m == top && pattern == "/api/v1/info" && info == nil)
			info = h.ServeHTTP
			return
		}
		spec.Ensures("everything else is the API's", m == top && pattern == "/" && rest == nil)
		rest = h
	})
	spec.Replace((*http.Server).ServeTLS, func(s *http.Server, l net.Listener, c, k string) error {
		serves++
		spec.Ensures("the gateway serves where it listens, with its certificate", l == net.Listener(lis) && c == cert && k == key)
		spec.Ensures("the gateway serves the API", s.Handler == http.Handler(top) && rest == http.Handler(api) && reads == 1 && queries == 1 && dials == 1 && listens == 1)
		spec.Ensures("replies are encoded for Prometheus clients", enc == runtime.Marshaler(prom) && fallback.OrigName && fallback.EmitDefaults && !fallback.EnumsAsInts && fallback.Indent == "")
		w := newWriter_()
		info(w, &http.Request{})
		d := spec.ParseJSON(w.Out)
		spec.Ensures("the info document tells version and uptime", d.Field("version").Str() == version && d.Field("vm_uptime").Str() == strconv.FormatInt(uptime, 10))
		return spec.Any[error]("served")
	})
	spec.Requires(spec.Plain(version))
	g := NewGateway(logCacheAddr, gatewayAddr, cert, key, WithGatewayBlock(), WithGatewayLogCacheDialOpts(secure), WithGatewayVersion(version), WithGatewayVMUptimeFn(func() int64 { return uptime }))
	g.Start()
	spec.Ensures("failures are handled by the gateway's own rules", errorsHandled_(g))
	spec.Ensures("the gateway has served", serves == 1 && g.Addr() == gatewayAddr)
}

// errorsHandled: the API's failures end up in the gateway's error handler.
func errorsHandled_(g *Gateway) bool {
	w := newWriter_()
	runtime.HTTPError(ghost.Ctx{}, nil, &encoder_{kind: "application/json"}, w, &http.Request{URL: &url.URL{Path: "/api/v1/query"}}, status.Error(codes.NotFound, "lost"))
	d := spec.ParseJSON(w.Out)
	return len(w.Status) == 1 && w.Status[0] == 404 && d.Field("status").Str() == "error" && d.Field("error").Str() == "lost"
}

func nativeServe_(version string, uptime int64, one bool) {
	startGateway_(version, func() int64 { return uptime })
	source, wantRead, wantQuery := "two", 404, 404
	if one {
		source, wantRead, wantQuery = "one", 200, 200
	}
	code, body := ask_("/api/v1/info")
	spec.Ensures("the info document has its place", code == 200)
	if code == 200 {
		d := spec.ParseJSON([]byte(body))
		spec.Ensures("the info document tells version and uptime", d.Field("version").Str() == version && d.Field("vm_uptime").Str() == strconv.FormatInt(uptime, 10))
	}
	code, body = ask_("/api/v1/read/" + source)
	spec.Ensures("reads are served by Log Cache", code == wantRead && running_.up.asked == source)
	if one && code == 200 {
		e := spec.ParseJSON([]byte(body)).Field("envelopes").Field("batch").At(0)
		spec.Ensures("replies are encoded for Prometheus clients", e.Field("source_id").Str() == "one" && e.Field("timestamp").Str() == "0")
	}
	code, body = ask_("/api/v1/query?query=" + source)
	spec.Ensures("queries are served by Log Cache", code == wantQuery && running_.up.asked == source)
	d := spec.ParseJSON([]byte(body))
	if one {
		spec.Ensures("replies are encoded for Prometheus clients", d.Field("status").Str() == "success" && d.Field("data").Field("resultType").Str() == "scalar")
		return
	}
	spec.Ensures("failures are handled by the gateway's own rules", d.Field("status").Str() == "error" && d.Field("error").Str() == "lost")
}
