package auth

import (
	"errors"
	"net/http"
	"net/url"
	"path"
	"strings"

	"code.cloudfoundry.org/log-cache/internal/promql"
	"verif.local/spec"
	"verif.local/spec/ghost"
)

const (
	readRoute_  = "/api/v1/read/{sourceID:.*}"
	queryRoute_ = "/api/v1/{subpath:query|query_range}"
)

// ContractRead: a read passes to Log Cache, as it is, for administrators and
// for users who may read the source, and is answered 404 for everybody else.
func ContractRead(id *identity_, source string) {
	spec.Requires(id != nil)
	if spec.Native() {
		spec.Requires(!strings.ContainsAny(source, "\x00\n") && path.Clean("/api/v1/read/"+source) == "/api/v1/read/"+source)
	}
	id.asked = 0
	routes := router_(map[string]string{"sourceID": source})
	n := &next_{}
	m := NewCFAuthMiddlewareProvider(id, &controller_{id: id}, &known_{}, nil, &names_{id: id}).Middleware(n)
	w := &ghost.Writer{H: http.Header{}}
	r := request_("/api/v1/read/"+source, id.shown)
	serve_(m, routes, readRoute_, w, r)

	allowed := id.shown != "" && !id.err && (id.admin || may_(source, id.token))
	if !allowed {
		spec.Cover("refused")
		spec.Ensures("a read that is not allowed is not passed on", n.calls == 0)
		spec.Ensures("a read that is not allowed is answered 404", len(w.Status) >= 1 && w.Status[0] == 404)
		spec.Ensures("and with nothing else", len(w.Out) == 0)
		return
	}
	spec.Cover("allowed")
	spec.Ensures("an allowed read is passed on once", n.calls == 1)
	spec.Ensures("an allowed read is passed on as it is", n.got.URL.Path == "/api/v1/read/"+source && n.got.Header.Get("Authorization") == id.shown)
	spec.Ensures("the proxy itself answers nothing", len(w.Status) == 0 && len(w.Out) == 0)
}

// ContractInfo: the info document is for everybody.
func ContractInfo(token string) {
	routes := router_(nil)
	n := &next_{}
	m := NewCFAuthMiddlewareProvider(&identity_{}, &controller_{}, &known_{}, nil, &names_{}).Middleware(n)
	w := &ghost.Writer{H: http.Header{}}
	r := request_("/api/v1/info", token)
	serve_(m, routes, "/api/v1/info", w, r)
	spec.Ensures("a request for the info document is passed on", n.calls == 1 && len(w.Status) == 0)
	spec.Ensures("nothing else has a route", spec.Native() || len(routes) == 4)
}

type question_ struct {
	id      *identity_
	sources []string            // named in the query
	related map[string][]string // what the app names stand for
	noParse bool
	parse   string
	noWrite bool
	ranged  bool
	other   string // another parameter
	at      string // the app name of which expansion
	j, i    int
}

// ask sends the query; sets is what the names in it were replaced by.
func (q *question_) ask(n *next_, w *ghost.Writer) (sets map[string][]string, forwarded url.Values) {
	path := "/api/v1/query"
	if q.ranged {
		path = "/api/v1/query_range"
	}
	text := "metric"
	if spec.Native() {
		text = nativeQuery_(q.sources)
	}
	routes := router_(map[string]string{"subpath": "query"})
	const rewritten = "rewritten"
	spec.Replace(promql.ReplaceSourceIdSets, func(query string, s map[string][]string) (string, error) {
		spec.Ensures("the query that was asked is rewritten", query == text)
		sets = s
		if q.noWrite {
			return "", errors.New("cannot rewrite")
		}
		return rewritten, nil
	})
	extract := func(query string) ([]string, error) {
		spec.Ensures("the query that was asked is looked at", query == text)
		if q.noParse {
			return nil, errors.New(q.parse)
		}
		return q.sources, nil
	}
	m := NewCFAuthMiddlewareProvider(q.id, &controller_{id: q.id}, &known_{}, extract, &names_{id: q.id, related: q.related, want: q.sources}).Middleware(n)
	r := request_(path, q.id.shown)
	r.URL.RawQuery = url.Values{"query": []string{text}, "time": []string{q.other}}.Encode()
	serve_(m, routes, queryRoute_, w, r)
	if n.calls > 0 {
		forwarded, _ = url.ParseQuery(n.query)
		if spec.Native() {
			sets = map[string][]string{}
			ids, _ := promql.ExtractSourceIds(forwarded.Get("query"))
			for _, s := range q.sources {
				sets[s] = ids
			}
		} else {
			spec.Ensures("the rewritten query is passed on", forwarded.Get("query") == rewritten && len(forwarded["query"]) == 1)
		}
	}
	return
}

func nativeQuery_(sources []string) string {
	for _, s := range sources {
		for _, c := range s {
			spec.Requires(c >= 'a' && c <= 'z' || c == '-' || c >= '0' && c <= '9')
		}
		spec.Requires(s != "")
	}
	return `metric{source_id=~"` + strings.Join(sources, "|") + `"}`
}

// ContractQueryRefused: queries are passed on only if everything about them is right.
func ContractQueryRefused(q *question_, k int) {
	spec.Requires(q != nil && q.id != nil)
	spec.Requires(0 <= k && (k < len(q.sources) || len(q.sources) == 0))
	q.noWrite = q.noWrite && !spec.Native()
	q.id.asked = 0
	spec.Requires(len(q.related) >= 0)
	n := &next_{}
	w := &ghost.Writer{H: http.Header{}}
	q.ask(n, w)

	switch {
	case q.id.shown == "":
		spec.Ensures("without a token there is nothing to find", n.calls == 0 && len(w.Status) == 1 && w.Status[0] == 404 && len(w.Out) == 0)
	case q.noParse:
		spec.Ensures("a query that cannot be read is a bad request", n.calls == 0 && len(w.Status) == 1 && w.Status[0] == 400)
	case len(q.sources) == 0:
		spec.Ensures("a query that names no source is a bad request", n.calls == 0 && len(w.Status) == 1 && w.Status[0] == 400)
	case q.id.err || q.related == nil || q.noWrite:
		spec.Ensures("a query of an unknown user, or of names that cannot be looked up or replaced, is not passed on", n.calls == 0 && len(w.Status) == 1 && w.Status[0] == 404 && len(w.Out) == 0)
	default:
		if n.calls == 0 {
			spec.Cover("not authorized")
			spec.Ensures("what is not passed on is not found", len(w.Status) == 1 && w.Status[0] == 404 && len(w.Out) == 0)
			spec.Ensures("administrators' queries are passed on", !q.id.admin)
		} else {
			spec.Cover("passed on")
			spec.Ensures("the proxy itself answers nothing", n.calls == 1 && len(w.Status) == 0 && len(w.Out) == 0)
		}
	}
}

// ContractQueryAuthorized: a user's query that is passed on names only sources the user may read.
func ContractQueryAuthorized(q *question_, k, j int) {
	spec.Requires(q != nil && q.id != nil)
	spec.Requires(0 <= k && k < len(q.sources) && 0 <= j && q.related != nil)
	at := q.sources[k]
	q.noWrite = false
	q.id.asked, q.id.admin = 0, false
	rel, token := q.related, q.id.token
	spec.Invariant(func(out []string) bool { return j >= len(out) || may_(out[j], token) })
	// the names differ, and no two of their expansions share an array
	names := q.sources
	tight := func(m int) bool { return cap(rel[names[m]]) == len(rel[names[m]]) }
	spec.Requires(spec.Forall(0, len(names), func(a int) bool {
		return spec.Forall(0, len(names), func(b int) bool { return a == b || names[a] != names[b] })
	}))
	spec.Requires(spec.Forall(0, len(names), tight))
	spec.Invariant(func(i int) bool { return spec.Forall(i+1, len(names), tight) })
	spec.Invariant(func(i int) bool {
		return i < k || len(rel[at]) > 0 && (j >= len(rel[at]) || may_(rel[at][j], token))
	})
	n := &next_{}
	w := &ghost.Writer{H: http.Header{}}
	sets, form := q.ask(n, w)
	if n.calls == 0 {
		return
	}
	set := sets[at]
	if j < len(set) {
		spec.Cover("a source")
		spec.Ensures("a user's query names only sources the user may read", may_(set[j], token))
	}
	spec.Ensures("every name in it stands for some source", len(set) > 0)
	spec.Ensures("the other parameters are passed on", len(form["time"]) == 1 && form["time"][0] == q.other && len(form) == 2)
}

// ContractQueryAdmin: administrators' queries keep everything.
func ContractQueryAdmin(q *question_, k, i int) {
	spec.Requires(!spec.Native())
	spec.Requires(q != nil && q.id != nil && q.id.shown != "" && !q.id.err && !q.noParse && q.related != nil)
	spec.Requires(0 <= k && k < len(q.sources))
	at := q.sources[k]
	q.noWrite = false
	q.id.asked, q.id.admin = 0, true
	rel, names := q.related, q.sources
	tight := func(m int) bool { return cap(rel[names[m]]) == len(rel[names[m]]) }
	spec.Requires(spec.Forall(0, len(names), func(a int) bool {
		return spec.Forall(0, len(names), func(b int) bool { return a == b || names[a] != names[b] })
	}))
	spec.Requires(spec.Forall(0, len(names), tight))
	all := len(rel[at])
	wanted := at
	spec.Requires(0 <= i && i <= all)
	if i < all {
		wanted = rel[at][i]
	}
	spec.Invariant(func(n int) bool { return spec.Forall(n+1, len(names), tight) })
	spec.Invariant(func(n int) bool {
		return n >= k || len(rel[at]) == all && (i == all || rel[at][i] == wanted)
	})
	spec.Invariant(func(n int) bool { return n < k || len(rel[at]) == all+1 && rel[at][i] == wanted })
	n := &next_{}
	sets, _ := q.ask(n, &ghost.Writer{H: http.Header{}})
	spec.Cover("an administrator")
	spec.Ensures("administrators' queries keep every name and all it stands for", n.calls == 1 && len(sets[at]) == all+1 && sets[at][i] == wanted)
}

// ContractQueryComplete (bounded: a query of one name that stands for two more):
// nothing a user may read is lost.
func ContractQueryComplete(id *identity_, a, b, c string, i int) {
	spec.Requires(id != nil && id.shown != "" && !id.err && !id.admin && 0 <= i && i < 3)
	all := []string{a, b, c}
	q := &question_{id: id, sources: []string{c}, related: map[string][]string{c: {a, b}}}
	if spec.Native() {
		nativeQuery_(all)
	}
	id.asked = 0
	token, wanted := id.token, all[i]
	spec.Requires(may_(wanted, token))
	n := &next_{}
	sets, _ := q.ask(n, &ghost.Writer{H: http.Header{}})
	set := sets[c]
	spec.Cover("passed on")
	spec.Ensures("nothing the user may read is lost from the query", n.calls == 1 && spec.Exists(0, len(set), func(m int) bool { return set[m] == wanted }))
}
