package client

import (
	"encoding/json"
	"errors"
	"net/http"
	"net/url"

	"github.com/blang/semver"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

const callerMark_ = "caller"

var errDown_ = errors.New("down")

// serverAddr keeps the address arbitrary; natively it is a plausible one.
func serverAddr_(addr string) string {
	if spec.Native() {
		return []string{"http://log-cache.example.com:8080", "https://lc", "http://10.0.0.1:8083/some/prefix", "http://lc/?a=b"}[len(addr)%4]
	}
	return addr
}

func respond_(status int, body []byte) *http.Response {
	return &http.Response{StatusCode: status, Header: http.Header{}, Body: &ghost.Body{Data: body}}
}

type infoDoc_ struct {
	Version  string `json:"version"`
	VMUptime string `json:"vm_uptime"`
}

// infoBody is the document the info endpoint serves.
func infoBody_(version string) []byte {
	b, _ := json.Marshal(infoDoc_{Version: version})
	return b
}

// sameTarget: a request goes to the configured server, with the caller's context.
func sameTarget_(r *http.Request, addr *url.URL) {
	spec.Ensures("requests are GETs", r.Method == "GET")
	spec.Ensures("requests go to the configured server", r.URL.Scheme == addr.Scheme && r.URL.Host == addr.Host)
	spec.Ensures("requests carry the caller's context", ghost.MarkOf(r.Context()) == callerMark_)
}

// only: the query has these values for the key and no others.
func only_(q url.Values, key string, vals ...string) bool {
	got := q[key]
	if len(got) != len(vals) {
		return false
	}
	for i := range vals {
		if got[i] != vals[i] {
			return false
		}
	}
	return true
}

// validVersion is a version the server may report.
func validVersion_(v string) string {
	if spec.Native() {
		v = []string{"1.4.7", "2.0.0", "1.99.99", "2.0.1", "3.0.0", "0.0.0", "2.0.0-dev", "2.1.0-rc.1", "10.2.3", "2.0.0+build"}[spec.Rand.Intn(10)]
	}
	_, err := semver.Parse(v)
	spec.Requires(err == nil)
	return v
}
