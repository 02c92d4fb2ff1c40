// Package mux is a stand-in for github.com/gorilla/mux: routes of the shape
// log-cache uses (literal text and {name:pattern}, whole-path match).
package mux

import (
	"context"
	"net/http"
	"regexp"
	"strings"
)

type Router struct{ Routes []*Route }
type Route struct {
	Tpl   string
	Re    *regexp.Regexp
	Names []string
	H     func(http.ResponseWriter, *http.Request)
}
type key int

func NewRouter() *Router { return &Router{} }

func (r *Router) HandleFunc(path string, f func(http.ResponseWriter, *http.Request)) *Route {
	var b strings.Builder
	b.WriteString("^")
	var names []string
	for i := 0; i < len(path); {
		if path[i] == '{' {
			j := i + strings.IndexByte(path[i:], '}')
			nm, pat := path[i+1:j], "[^/]+"
			if k := strings.IndexByte(nm, ':'); k >= 0 {
				nm, pat = nm[:k], nm[k+1:]
			}
			names = append(names, nm)
			b.WriteString("(" + pat + ")")
			i = j + 1
			continue
		}
		b.WriteString(regexp.QuoteMeta(path[i : i+1]))
		i++
	}
	b.WriteString("$")
	rt := &Route{Tpl: path, Re: regexp.MustCompile(b.String()), Names: names, H: f}
	r.Routes = append(r.Routes, rt)
	return rt
}

func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	for _, rt := range r.Routes {
		if m := rt.Re.FindStringSubmatch(req.URL.Path); m != nil {
			vars := map[string]string{}
			for i, n := range rt.Names {
				vars[n] = m[i+1]
			}
			rt.H(w, req.WithContext(context.WithValue(req.Context(), key(0), vars)))
			return
		}
	}
	http.NotFound(w, req)
}

func Vars(r *http.Request) map[string]string {
	v, _ := r.Context().Value(key(0)).(map[string]string)
	return v
}
