package blackbox

import (
	"context"
	"errors"
	"io/ioutil"
	"log"
	"net/http"
	"net/http/httptest"

	logcache_client "code.cloudfoundry.org/log-cache/pkg/client"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
	"verif.local/spec"
)

type dialOption_ struct {
	grpc.DialOption
	n int
}

type someClient_ struct{ logcache_v1.IngressClient }

// Dialling is tried until it works, five times at most.
func ContractIngressClient(addr string) {
	if spec.Native() {
		return
	}
	a, b := &dialOption_{n: 1}, &dialOption_{n: 2}
	conn := &grpc.ClientConn{}
	made := &someClient_{}
	tries, dialled := 0, false
	spec.Replace(grpc.Dial, func(target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
		tries++
		spec.Ensures("the Log Cache dialled is the configured one", target == addr && len(opts) == 2 && opts[0] == grpc.DialOption(a) && opts[1] == grpc.DialOption(b))
		spec.Ensures("dialling ends when it worked, or has failed five times", !dialled && tries <= 5)
		if spec.Any[bool]("cannot dial") {
			return nil, errors.New("down")
		}
		dialled = true
		return conn, nil
	})
	spec.Replace(logcache_v1.NewIngressClient, func(c *grpc.ClientConn) logcache_v1.IngressClient {
		spec.Ensures("metrics are sent over the connection made", c == conn && dialled)
		return made
	})
	got := NewIngressClient(addr, a, b)
	spec.Ensures("there is a client when there is a connection, and only then", dialled && got == logcache_v1.IngressClient(made))
}

func ContractGrpcEgressClient(addr string) {
	if spec.Native() {
		return
	}
	a, b := &dialOption_{n: 1}, &dialOption_{n: 2}
	viaGRPC, clients := 0, 0
	made := &logcache_client.Client{}
	spec.Replace(logcache_client.WithViaGRPC, func(opts ...grpc.DialOption) logcache_client.ClientOption {
		spec.Ensures("the Log Cache is queried with the configured options", len(opts) == 2 && opts[0] == grpc.DialOption(a) && opts[1] == grpc.DialOption(b))
		viaGRPC++
		return nil
	})
	spec.Replace(logcache_client.NewClient, func(target string, opts ...logcache_client.ClientOption) *logcache_client.Client {
		clients++
		spec.Ensures("the configured Log Cache is queried, over gRPC", target == addr && len(opts) == 1 && viaGRPC == 1)
		return made
	})
	got := NewGrpcEgressClient(addr, a, b)
	spec.Ensures("queries use that client", clients == 1 && got == QueryableClient(made))
}

// insecure: the client takes any server's certificate.
func insecure_(c *http.Client) bool {
	if c.Transport == nil {
		return false
	}
	t := c.Transport.(*http.Transport)
	return t.TLSClientConfig != nil && t.TLSClientConfig.InsecureSkipVerify
}

func ContractHTTPEgressClient(addr, uaa, id, secret string, skip bool) {
	http.DefaultClient = &http.Client{}
	if spec.Native() {
		nativeHTTP_(skip)
		return
	}
	oauths, https, clients, plain := 0, 0, 0, 0
	made := &logcache_client.Client{}
	oauth := &logcache_client.Oauth2HTTPClient{}
	spec.Replace(logcache_client.WithOauth2HTTPClient, func(c logcache_client.HTTPClient) logcache_client.Oauth2Option {
		plain++
		h := c.(*http.Client)
		spec.Ensures("certificates are checked unless told not to", insecure_(h) == skip)
		spec.Ensures("no request takes for ever", h.Timeout > 0)
		return nil
	})
	spec.Replace(logcache_client.NewOauth2HTTPClient, func(at, user, password string, opts ...logcache_client.Oauth2Option) *logcache_client.Oauth2HTTPClient {
		oauths++
		spec.Ensures("tokens are those of the configured account", at == uaa && user == id && password == secret && len(opts) == 1 && plain == 1)
		return oauth
	})
	spec.Replace(logcache_client.WithHTTPClient, func(c logcache_client.HTTPClient) logcache_client.ClientOption {
		https++
		spec.Ensures("requests carry a token", c == logcache_client.HTTPClient(oauth) && oauths == 1)
		return nil
	})
	spec.Replace(logcache_client.NewClient, func(target string, opts ...logcache_client.ClientOption) *logcache_client.Client {
		clients++
		spec.Ensures("the configured interface is queried", target == addr && len(opts) == 1 && https == 1)
		return made
	})
	got := NewHttpEgressClient(addr, uaa, id, secret, skip)
	spec.Ensures("queries use that client", clients == 1 && got == QueryableClient(made))
}

// nativeHTTP asks a server whose certificate nobody vouches for.
func nativeHTTP_(skip bool) {
	asked := 0
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		asked++
		w.WriteHeader(500)
	}))
	srv.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	srv.StartTLS()
	defer srv.Close()
	NewHttpEgressClient(srv.URL, srv.URL, "id", "secret", skip).PromQL(context.Background(), "up")
	spec.Ensures("certificates are checked unless told not to", (asked > 0) == skip)
}
