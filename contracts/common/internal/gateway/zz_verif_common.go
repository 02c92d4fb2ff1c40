package gateway

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"io"
	"io/ioutil"
	"math/big"
	"net"
	"net/http"
	"os"
	"time"

	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
	"code.cloudfoundry.org/log-cache/pkg/marshaler"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/grpc-ecosystem/grpc-gateway/runtime"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

const callerMark_ = "caller"

// encoder is a marshaler that may fail.
type encoder_ struct {
	kind string
	fail bool
}

func (e *encoder_) ContentType() string { return e.kind }
func (e *encoder_) Marshal(v interface{}) ([]byte, error) {
	if e.fail {
		return nil, errors.New("cannot encode")
	}
	return json.Marshal(v)
}
func (e *encoder_) Unmarshal([]byte, interface{}) error  { return errors.New("not asked to") }
func (e *encoder_) NewDecoder(io.Reader) runtime.Decoder { return nil }
func (e *encoder_) NewEncoder(io.Writer) runtime.Encoder { return nil }

func newWriter_() *ghost.Writer {
	return &ghost.Writer{H: http.Header{"Trailer": []string{"Grpc-Status"}, "X-Other": []string{"kept"}}}
}

// failure is an error of the API: one with a gRPC status, or any other.
func failure_(isStatus bool, code codes.Code, msg string) error {
	if isStatus {
		return status.Error(code, msg)
	}
	return errors.New(msg)
}

func queryPath_(ranged bool) string {
	if ranged {
		return "/api/v1/query_range"
	}
	return "/api/v1/query"
}

// listener is a listener nobody connects to.
type listener_ struct{ at string }

func (l *listener_) Accept() (net.Conn, error) { return nil, errors.New("closed") }
func (l *listener_) Close() error              { return nil }
func (l *listener_) Addr() net.Addr            { return addr_(l.at) }

// egressClient and querierClient stand for clients of one connection.
type egressClient_ struct{ logcache_v1.EgressClient }
type querierClient_ struct {
	logcache_v1.PromQLQuerierClient
}

// option is a dial option to recognise.
type option_ struct {
	grpc.DialOption
	what string
}

type addr_ string

func (a addr_) Network() string { return "tcp" }
func (a addr_) String() string  { return string(a) }

// started starts a gateway of which only the handlers are looked at: those of
// the API's errors (runtime.HTTPError) and of the info document.
func started_(version string, uptime func() int64) (info func(http.ResponseWriter, *http.Request)) {
	if spec.Native() {
		startGateway_(version, uptime)
		return func(w http.ResponseWriter, _ *http.Request) {
			code, body := ask_("/api/v1/info")
			w.WriteHeader(code)
			io.WriteString(w, body)
		}
	}
	spec.Replace(net.Listen, func(network, at string) (net.Listener, error) { return &listener_{at}, nil })
	spec.Replace(grpc.Dial, func(string, ...grpc.DialOption) (*grpc.ClientConn, error) { return nil, nil })
	spec.Replace(runtime.WithMarshalerOption, func(string, runtime.Marshaler) runtime.ServeMuxOption { return func(*runtime.ServeMux) {} })
	spec.Replace(runtime.NewServeMux, func(...runtime.ServeMuxOption) *runtime.ServeMux { return &runtime.ServeMux{} })
	spec.Replace(http.NewServeMux, func() *http.ServeMux { return &http.ServeMux{} })
	spec.Replace(logcache_v1.NewEgressClient, func(*grpc.ClientConn) logcache_v1.EgressClient { return nil })
	spec.Replace(logcache_v1.NewPromQLQuerierClient, func(*grpc.ClientConn) logcache_v1.PromQLQuerierClient { return nil })
	spec.Replace(marshaler.NewPromqlMarshaler, func(runtime.Marshaler) *marshaler.PromqlMarshaler { return nil })
	spec.Replace(logcache_v1.RegisterEgressHandlerClient, func(context.Context, *runtime.ServeMux, logcache_v1.EgressClient) error { return nil })
	spec.Replace(logcache_v1.RegisterPromQLQuerierHandlerClient, func(context.Context, *runtime.ServeMux, logcache_v1.PromQLQuerierClient) error { return nil })
	spec.Replace((*http.ServeMux).Handle, func(m *http.ServeMux, pattern string, h http.Handler) {
		if pattern == "/api/v1/info" {
			info = h.ServeHTTP
		}
	})
	spec.Replace((*http.Server).ServeTLS, func(s *http.Server, l net.Listener, c, k string) error { return nil })
	NewGateway("", "", "", "", WithGatewayBlock(), WithGatewayVersion(version), WithGatewayVMUptimeFn(uptime)).Start()
	spec.Ensures("there is an info document", info != nil)
	return info
}

// upstream is a Log Cache that knows one source.
type upstream_ struct{ asked string }

func (u *upstream_) Read(c context.Context, r *logcache_v1.ReadRequest) (*logcache_v1.ReadResponse, error) {
	u.asked = r.GetSourceId()
	if u.asked != "one" {
		return nil, status.Error(codes.NotFound, "lost")
	}
	return &logcache_v1.ReadResponse{Envelopes: &loggregator_v2.EnvelopeBatch{Batch: []*loggregator_v2.Envelope{{SourceId: u.asked, InstanceId: "i"}}}}, nil
}

func (u *upstream_) Meta(context.Context, *logcache_v1.MetaRequest) (*logcache_v1.MetaResponse, error) {
	return &logcache_v1.MetaResponse{}, nil
}

func (u *upstream_) InstantQuery(c context.Context, r *logcache_v1.PromQL_InstantQueryRequest) (*logcache_v1.PromQL_InstantQueryResult, error) {
	u.asked = r.GetQuery()
	if u.asked != "one" {
		return nil, status.Error(codes.NotFound, "lost")
	}
	return &logcache_v1.PromQL_InstantQueryResult{Result: &logcache_v1.PromQL_InstantQueryResult_Scalar{Scalar: &logcache_v1.PromQL_Scalar{Time: "1.000", Value: 2}}}, nil
}

func (u *upstream_) RangeQuery(c context.Context, r *logcache_v1.PromQL_RangeQueryRequest) (*logcache_v1.PromQL_RangeQueryResult, error) {
	return nil, status.Error(codes.NotFound, "lost")
}

// instance is a gateway in front of a Log Cache, both on loopback.
type instance_ struct {
	up     upstream_
	g      *Gateway
	client *http.Client
	uptime func() int64
}

var (
	instances_ = map[string]*instance_{}
	running_   *instance_
)

// startGateway has a gateway of the version running.
func startGateway_(version string, uptime func() int64) {
	if running_ = instances_[version]; running_ != nil {
		running_.uptime = uptime
		return
	}
	running_ = &instance_{uptime: uptime}
	instances_[version] = running_
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	srv := grpc.NewServer()
	logcache_v1.RegisterEgressServer(srv, &running_.up)
	logcache_v1.RegisterPromQLQuerierServer(srv, &running_.up)
	go srv.Serve(lis)
	dir, err := ioutil.TempDir("", "verif-g03")
	if err != nil {
		panic(err)
	}
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "gw"}, DNSNames: []string{"gw"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	kder, _ := x509.MarshalECPrivateKey(key)
	certPEM := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	if ioutil.WriteFile(dir+"/cert", certPEM, 0600) != nil || ioutil.WriteFile(dir+"/key", pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kder}), 0600) != nil {
		panic("no scratch files")
	}
	pool := x509.NewCertPool()
	pool.AppendCertsFromPEM(certPEM)
	me := running_
	running_.g = NewGateway(lis.Addr().String(), "127.0.0.1:0", dir+"/cert", dir+"/key", WithGatewayLogCacheDialOpts(grpc.WithInsecure()), WithGatewayVersion(version), WithGatewayVMUptimeFn(func() int64 { return me.uptime() }))
	running_.g.Start()
	running_.client = &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{TLSClientConfig: &tls.Config{RootCAs: pool, ServerName: "gw"}}}
	ask_("/api/v1/info")
	for _, f := range []string{"/cert", "/key"} {
		os.Remove(dir + f)
	}
	os.Remove(dir)
}

func ask_(path string) (int, string) {
	resp, err := running_.client.Get("https://" + running_.g.Addr() + path)
	if err != nil {
		return 0, err.Error()
	}
	defer resp.Body.Close()
	b, _ := ioutil.ReadAll(resp.Body)
	return resp.StatusCode, string(b)
}
