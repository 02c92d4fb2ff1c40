package main

import (
	"net/http"
	"os"
	"strconv"
	"strings"

	. "code.cloudfoundry.org/log-cache/internal/gateway"
	"code.cloudfoundry.org/log-cache/internal/tls"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"verif.local/spec"
)

// environment is what the process finds set.
type environment_ struct {
	addr, logCache, cert, key, health string
	ca, tlsCert, tlsKey               string
}

// set has the environment hold the value.
func set_(name, value string) {
	if spec.Native() {
		spec.Requires(strings.IndexByte(value, 0) < 0 && os.Setenv(name, value) == nil)
		return
	}
	spec.Requires(os.Getenv(name) == value)
}

func (e *environment_) set() {
	set_("ADDR", e.addr)
	set_("LOG_CACHE_ADDR", e.logCache)
	set_("PROXY_CERT_PATH", e.cert)
	set_("PROXY_KEY_PATH", e.key)
	set_("HEALTH_PORT", e.health)
	set_("CA_PATH", e.ca)
	set_("CERT_PATH", e.tlsCert)
	set_("KEY_PATH", e.tlsKey)
}

// complete: everything without a sensible default is set, and means something.
func (e *environment_) complete() bool {
	_, err := strconv.ParseInt(e.health, 10, 64)
	return e.addr != "" && e.logCache != "" && e.cert != "" && e.key != "" && e.ca != "" && e.tlsCert != "" && e.tlsKey != "" && (e.health == "" || err == nil)
}

func (e *environment_) port() int {
	if e.health == "" {
		return 6063
	}
	n, _ := strconv.ParseInt(e.health, 10, 64)
	return int(n)
}

func ContractGatewayConfig(e environment_, version string) {
	if spec.Native() {
		fs := []*string{&e.addr, &e.logCache, &e.cert, &e.key, &e.ca, &e.tlsCert, &e.tlsKey}
		for i, f := range fs {
			if *f == "" || spec.Rand.Intn(8) > 0 {
				*f = "value" + strconv.Itoa(i)
			}
		}
		if spec.Rand.Intn(2) == 0 {
			*fs[spec.Rand.Intn(len(fs))] = ""
		}
		if n := len(e.health); n%2 == 0 {
			e.health = []string{strconv.Itoa(n), "", "8085"}[spec.Rand.Intn(3)]
		}
		hold := os.Stdout
		os.Stdout, _ = os.Open(os.DevNull)
		defer func() { os.Stdout.Close(); os.Stdout = hold }()
		hold2 := os.Stderr
		os.Stderr = os.Stdout
		defer func() { os.Stderr = hold2 }()
	}
	e.set()
	buildVersion = version
	c, err := LoadConfig()
	spec.Ensures("the gateway has a configuration when the environment is complete, and only then", (err == nil) == e.complete() && (c != nil) == (err == nil))
	if err != nil {
		return
	}
	spec.Ensures("the gateway listens and connects as configured", c.Addr == e.addr && c.LogCacheAddr == e.logCache && c.HealthPort == e.port())
	spec.Ensures("the gateway's own certificate is the configured one", c.ProxyCertPath == e.cert && c.ProxyKeyPath == e.key)
	spec.Ensures("the connection's files are the configured ones", c.TLS == tls.TLS{CAPath: e.ca, CertPath: e.tlsCert, KeyPath: e.tlsKey})
	spec.Ensures("the gateway knows its version", c.Version == version)
}

// credentialsOption stands for credentials of a connection.
type marked_ struct {
	credentials.TransportCredentials
}
type option_ struct {
	grpc.DialOption
	what string
}

// The process is the gateway that the environment describes.
func ContractGatewayMain(e environment_, version string) {
	if spec.Native() {
		return
	}
	e.set()
	buildVersion = version
	secure := &marked_{}
	secured := &option_{what: "secured"}
	starts := 0
	tlsFails := spec.Any[bool]("unusable TLS files")
	spec.Replace(tls.NewTLSCredentials, func(ca, cert, key, cn string) (credentials.TransportCredentials, error) {
		spec.Ensures("the connection is secured with the configured files, to log-cache", ca == e.ca && cert == e.tlsCert && key == e.tlsKey && cn == "log-cache")
		if tlsFails {
			return nil, http.ErrBodyNotAllowed
		}
		return secure, nil
	})
	spec.Replace(grpc.WithTransportCredentials, func(c credentials.TransportCredentials) grpc.DialOption {
		spec.Ensures("the connection uses the credentials", c == credentials.TransportCredentials(secure))
		return secured
	})
	gw := &Gateway{}
	made, dialOpts, versions := 0, 0, 0
	spec.Replace(WithGatewayLogCacheDialOpts, func(opts ...grpc.DialOption) GatewayOption {
		dialOpts++
		spec.Ensures("the connection is secured", len(opts) == 1 && opts[0] == grpc.DialOption(secured))
		return func(*Gateway) { dialOpts++ }
	})
	spec.Replace(WithGatewayVersion, func(v string) GatewayOption {
		versions++
		spec.Ensures("the gateway tells its version", v == version)
		return func(*Gateway) { versions++ }
	})
	spec.Replace(NewGateway, func(logCache, addr, cert, key string, opts ...GatewayOption) *Gateway {
		made++
		spec.Ensures("the gateway is the one configured", logCache == e.logCache && addr == e.addr && cert == e.cert && key == e.key)
		for _, o := range opts {
			o(gw)
		}
		spec.Ensures("the gateway is secured and knows its version", dialOpts == 2 && versions == 2)
		return gw
	})
	spec.Replace((*Gateway).Start, func(g *Gateway) {
		starts++
		spec.Ensures("one gateway is started", g == gw && made == 1 && starts == 1)
	})
	health := 0
	spec.Replace(http.ListenAndServe, func(at string, h http.Handler) error {
		health++
		spec.Ensures("health is served locally, at the configured port", at == "localhost:"+strconv.Itoa(e.port()) && h == nil && starts == 1)
		return spec.Any[error]("health")
	})
	main()
	spec.Ensures("the gateway runs when the environment is complete, and only then", e.complete() && !tlsFails && starts == 1 && health == 1)
}
