package auth

import (
	"context"
	"errors"
	"io/ioutil"
	"log"
	"net/http"
	"net/url"

	"code.cloudfoundry.org/go-loggregator/metrics"
	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
	"github.com/gorilla/mux"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

// identity is what the token service says about the token that was shown.
type identity_ struct {
	shown string
	admin bool
	token string
	err   bool
	asked int
}

func (i *identity_) Read(token string) (Oauth2ClientContext, error) {
	i.asked++
	spec.Ensures("the token that came with the request is looked up", token == i.shown)
	if i.err {
		// what comes with an error must not be used
		return Oauth2ClientContext{IsAdmin: true, Token: i.token}, errors.New("no such token")
	}
	return Oauth2ClientContext{IsAdmin: i.admin, Token: i.token}, nil
}

// may: the controller lets the user of this token read this source.
func may_(source, token string) bool { return spec.Fn[bool]("may", source, token) }

type controller_ struct {
	id        *identity_
	available []string
}

func (c *controller_) IsAuthorized(source, token string) bool {
	spec.Ensures("the user's token is asked about", token == c.id.token)
	return may_(source, token)
}

func (c *controller_) AvailableSourceIDs(token string) []string {
	spec.Ensures("the user's own sources are asked for", token == c.id.token || token == c.id.shown)
	return c.available
}

// known is what Log Cache holds.
type known_ struct {
	meta map[string]*logcache_v1.MetaInfo
	err  error
	ctx  string
	n    int
}

func (k *known_) Meta(c context.Context) (map[string]*logcache_v1.MetaInfo, error) {
	k.n++
	k.ctx = ghost.MarkOf(c)
	return k.meta, k.err
}

// names translates app names to source ids.
type names_ struct {
	id      *identity_
	related map[string][]string
	want    []string
}

func (n *names_) GetRelatedSourceIds(apps []string, token string) map[string][]string {
	spec.Ensures("the names in the query are translated, for this user", spec.Same(spec.SeqOf(apps), spec.SeqOf(n.want)) && (token == n.id.shown || token == n.id.token))
	return n.related
}

// next is the handler behind the proxy's checks.
type next_ struct {
	calls int
	got   *http.Request
	query string
}

func (n *next_) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	n.calls++
	n.got = r
	if r != nil && r.URL != nil {
		n.query = r.URL.RawQuery
	}
}

// serve shows a request to the middleware; in the verifier, to the route that
// the router (assumed to match whole paths by pattern) chooses.
func serve_(h http.Handler, routes map[string]func(http.ResponseWriter, *http.Request), pattern string, w http.ResponseWriter, r *http.Request) {
	if spec.Native() {
		h.ServeHTTP(w, r)
		return
	}
	f := routes[pattern]
	spec.Ensures("there is a route for "+pattern, f != nil)
	f(w, r)
}

// router has the routes recorded, and the variables of the path given.
func router_(vars map[string]string) map[string]func(http.ResponseWriter, *http.Request) {
	routes := map[string]func(http.ResponseWriter, *http.Request){}
	spec.Replace(mux.NewRouter, func() *mux.Router { return &mux.Router{} })
	spec.Replace((*mux.Router).HandleFunc, func(_ *mux.Router, p string, f func(http.ResponseWriter, *http.Request)) *mux.Route {
		routes[p] = f
		return &mux.Route{}
	})
	spec.Replace(mux.Vars, func(*http.Request) map[string]string { return vars })
	return routes
}

func request_(path, token string) *http.Request {
	r := &http.Request{Method: "GET", URL: &url.URL{Path: path}, Header: http.Header{}}
	if token != "" {
		r.Header["Authorization"] = []string{token}
	}
	return r
}

// gauge and gauges are metrics nobody reads.
type gauge_ struct{ v float64 }

func (g *gauge_) Set(v float64) { g.v = v }
func (g *gauge_) Add(v float64) { g.v += v }

type gauges_ struct{ metrics.Gauge }

func (gauges_) NewGauge(string, ...metrics.MetricOption) metrics.Gauge { return &gauge_{} }

func silent_() *log.Logger { return log.New(ioutil.Discard, "", 0) }
