package main

import (
	"errors"
	"os"
	"strings"
	"time"

	"code.cloudfoundry.org/log-cache/internal/blackbox"
	"code.cloudfoundry.org/log-cache/internal/tls"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/naming"
	"verif.local/spec"
)

// environment is what the process finds set.
type environment_ struct {
	emission, sample, window, lag string
	source, grpc                  string
	cf, http, uaa, id, secret     string
	skip                          string
	ca, cert, key                 string
}

// set has the environment hold the value.
func set_(name, value string) {
	if spec.Native() {
		spec.Requires(strings.IndexByte(value, 0) < 0 && os.Setenv(name, value) == nil)
		return
	}
	spec.Requires(os.Getenv(name) == value)
}

func (e *environment_) set() {
	set_("EMISSION_INTERVAL", e.emission)
	set_("SAMPLE_INTERVAL", e.sample)
	set_("WINDOW_INTERVAL", e.window)
	set_("WINDOW_LAG", e.lag)
	set_("SOURCE_ID", e.source)
	set_("CF_BLACKBOX_ENABLED", e.cf)
	set_("DATA_SOURCE_HTTP_ADDR", e.http)
	set_("UAA_ADDR", e.uaa)
	set_("CLIENT_ID", e.id)
	set_("CLIENT_SECRET", e.secret)
	set_("SKIP_TLS_VERIFY", e.skip)
	set_("DATA_SOURCE_GRPC_ADDR", e.grpc)
	set_("CA_PATH", e.ca)
	set_("CERT_PATH", e.cert)
	set_("KEY_PATH", e.key)
}

func duration_(s string) time.Duration {
	d, _ := time.ParseDuration(s)
	return d
}

func isDuration_(s string) bool {
	_, err := time.ParseDuration(s)
	return s != "" && err == nil
}

func yes_(s string) bool { return spec.Ite(s == "true", true, s == "1") }

// complete: everything without a sensible default is set, and means something.
func (e *environment_) complete() bool {
	return isDuration_(e.emission) && isDuration_(e.sample) && isDuration_(e.window) && isDuration_(e.lag) && e.source != "" && e.ca != "" && e.cert != "" && e.key != ""
}

func (e *environment_) grpcAddr() string { return spec.Ite(e.grpc == "", "localhost:8080", e.grpc) }

func ContractBlackboxConfig(e environment_, n int) {
	if spec.Native() {
		ds := []string{"1s", "10m", "1h30m", "1h", "0s", "250ms", "x"}
		fs := []*string{&e.emission, &e.sample, &e.window, &e.lag, &e.source, &e.ca, &e.cert, &e.key}
		for i, p := range fs {
			if i < 4 {
				*p = ds[spec.Rand.Intn(len(ds)-spec.Rand.Intn(2))]
			} else if *p == "" || spec.Rand.Intn(8) > 0 {
				*p = "value" + ds[i-4]
			}
		}
		if spec.Rand.Intn(2) == 0 {
			*fs[spec.Rand.Intn(len(fs))] = ""
		}
		e.cf = []string{"true", "1", "false", "", "yes"}[len(e.cf)%5]
		e.skip = []string{"true", "1", "false", "", "yes"}[len(e.skip)%5]
		hold, hold2 := os.Stdout, os.Stderr
		os.Stdout, _ = os.Open(os.DevNull)
		os.Stderr = os.Stdout
		defer func() { os.Stdout.Close(); os.Stdout, os.Stderr = hold, hold2 }()
	}
	e.set()
	c, err := LoadConfig()
	spec.Ensures("the blackbox has a configuration when the environment is complete, and only then", (err == nil) == e.complete() && (c != nil) == (err == nil))
	if err != nil {
		return
	}
	spec.Ensures("the blackbox measures as configured", c.EmissionInterval == duration_(e.emission) && c.SampleInterval == duration_(e.sample) && c.WindowInterval == duration_(e.window) && c.WindowLag == duration_(e.lag) && c.SourceId == e.source)
	spec.Ensures("the HTTP interface is measured when asked for", c.CfBlackboxEnabled == yes_(e.cf))
	spec.Ensures("the HTTP interface is accessed as configured", c.DataSourceHTTPAddr == e.http && c.UaaAddr == e.uaa && c.ClientID == e.id && c.ClientSecret == e.secret && c.SkipTLSVerify == yes_(e.skip))
	spec.Ensures("the gRPC interface is accessed as configured", c.DataSourceGrpcAddr == e.grpcAddr() && c.TLS == tls.TLS{CAPath: e.ca, CertPath: e.cert, KeyPath: e.key})
}

type marked_ struct {
	credentials.TransportCredentials
}
type option_ struct {
	grpc.DialOption
	what string
}
type ingress_ struct{ logcache_v1.IngressClient }
type egress_ struct {
	blackbox.QueryableClient
	what string
}
type resolver_ struct{ naming.Resolver }
type balancer_ struct{ grpc.Balancer }

// The process measures what the environment says, for as long as it runs.
func ContractBlackboxMain(e environment_) {
	if spec.Native() {
		return
	}
	spec.GoRun()
	e.set()
	spec.Requires(duration_(e.sample) > 0)
	cf := yes_(e.cf)
	secure, secured, balanced := &marked_{}, &option_{what: "secured"}, &option_{what: "balanced"}
	res, bal := &resolver_{}, &balancer_{}
	tlsFails := spec.Any[bool]("unusable TLS files")
	spec.Replace(tls.NewTLSCredentials, func(ca, cert, key, cn string) (credentials.TransportCredentials, error) {
		spec.Ensures("connections are secured with the configured files, to log-cache", ca == e.ca && cert == e.cert && key == e.key && cn == "log-cache")
		if tlsFails {
			return nil, errors.New("unusable")
		}
		return secure, nil
	})
	spec.Replace(naming.NewDNSResolverWithFreq, func(d time.Duration) (naming.Resolver, error) {
		spec.Ensures("names are resolved anew from time to time", d > 0)
		return res, nil
	})
	spec.Replace(grpc.RoundRobin, func(r naming.Resolver) grpc.Balancer {
		spec.Ensures("requests are spread over what the name resolves to", r == naming.Resolver(res))
		return bal
	})
	spec.Replace(grpc.WithBalancer, func(b grpc.Balancer) grpc.DialOption {
		spec.Ensures("requests are spread over what the name resolves to", b == grpc.Balancer(bal))
		return balanced
	})
	spec.Replace(grpc.WithTransportCredentials, func(c credentials.TransportCredentials) grpc.DialOption {
		spec.Ensures("connections use the credentials", c == credentials.TransportCredentials(secure))
		return secured
	})
	in := &ingress_{}
	overGRPC, overHTTP := &egress_{what: "gRPC"}, &egress_{what: "HTTP"}
	secureTo := func(addr string, opts []grpc.DialOption) bool {
		return addr == e.grpcAddr() && len(opts) == 2 && (opts[0] == grpc.DialOption(secured) && opts[1] == grpc.DialOption(balanced) || opts[0] == grpc.DialOption(balanced) && opts[1] == grpc.DialOption(secured))
	}
	spec.Replace(blackbox.NewIngressClient, func(addr string, opts ...grpc.DialOption) logcache_v1.IngressClient {
		spec.Ensures("metrics are sent to the configured Log Cache, securely", secureTo(addr, opts))
		return in
	})
	spec.Replace(blackbox.NewGrpcEgressClient, func(addr string, opts ...grpc.DialOption) blackbox.QueryableClient {
		spec.Ensures("the configured Log Cache is measured, securely", secureTo(addr, opts))
		return overGRPC
	})
	spec.Replace(blackbox.NewHttpEgressClient, func(addr, uaa, id, secret string, skip bool) blackbox.QueryableClient {
		spec.Ensures("the configured HTTP interface is measured, with the configured account", cf && addr == e.http && uaa == e.uaa && id == e.id && secret == e.secret && skip == yes_(e.skip))
		return overHTTP
	})
	emitting := 0
	spec.Replace(blackbox.StartEmittingTestMetrics, func(source string, interval time.Duration, c logcache_v1.IngressClient) {
		emitting++
		spec.Ensures("test metrics are emitted as configured", source == e.source && interval == duration_(e.emission) && c == logcache_v1.IngressClient(in) && emitting == 1)
	})
	spec.Replace(time.NewTicker, func(d time.Duration) *time.Ticker {
		spec.Ensures("samples are taken at the configured interval", d == duration_(e.sample))
		return &time.Ticker{C: make(chan time.Time, 1)}
	})
	var grpcDone, httpDone, grpcFailed, httpFailed bool
	var grpcShare, httpShare float64
	spec.Invariant(func() bool { return !grpcDone && !httpDone })
	spec.Replace(blackbox.ReliabilityCalculator.Calculate, func(rc blackbox.ReliabilityCalculator, c blackbox.QueryableClient) (float64, error) {
		spec.Ensures("reliability is that of the configured measurement", rc.SampleInterval == duration_(e.sample) && rc.WindowInterval == duration_(e.window) && rc.WindowLag == duration_(e.lag) && rc.EmissionInterval == duration_(e.emission) && rc.SourceId == e.source)
		share, failed := spec.Any[float64]("reliability"), spec.Any[bool]("measuring fails")
		if c == blackbox.QueryableClient(overGRPC) {
			spec.Ensures("either interface is measured once a sample", !grpcDone)
			grpcDone, grpcFailed, grpcShare = true, failed, share
		} else {
			spec.Ensures("either interface is measured once a sample", !httpDone && cf && c == blackbox.QueryableClient(overHTTP))
			httpDone, httpFailed, httpShare = true, failed, share
		}
		if failed {
			return share, errors.New("unknown")
		}
		return share, nil
	})
	spec.Replace(blackbox.EmitMeasuredMetrics, func(source string, c logcache_v1.IngressClient, lc blackbox.QueryableClient, m map[string]float64) {
		spec.Ensures("every sample measures what it can", grpcDone && httpDone == cf && emitting == 1)
		spec.Ensures("measurements are sent for the source, to the Log Cache", source == e.source && c == logcache_v1.IngressClient(in))
		spec.Ensures("the HTTP interface tells the uptime, if there is one", cf && lc == blackbox.QueryableClient(overHTTP) || !cf && lc == nil)
		g, hasG := m["blackbox.grpc_reliability"]
		h, hasH := m["blackbox.http_reliability"]
		spec.Ensures("what was measured over gRPC is sent, and what failed is not", hasG == !grpcFailed && (!hasG || g == grpcShare))
		spec.Ensures("what was measured over HTTP is sent, and what failed is not", hasH == (cf && !httpFailed) && (!hasH || h == httpShare))
		n := 0
		if hasG {
			n++
		}
		if hasH {
			n++
		}
		spec.Ensures("nothing else is sent", len(m) == n)
		grpcDone, httpDone = false, false
	})
	main()
	spec.Ensures("the process goes on for ever, or ends for lack of a configuration", false)
}
