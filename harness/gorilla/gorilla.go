// Package gorilla holds stand-ins for the two packages that generated Go servers import and
// that are not available here: enough of them, with the documented behaviour, to compile and
// run such servers.
package gorilla

const Mux = `package mux

import (
	"context"
	"net/http"
	"strings"
)

type Route struct {
	segs    []string
	f       http.HandlerFunc
	methods []string
}

func (r *Route) Methods(m ...string) *Route {
	for _, x := range m {
		r.methods = append(r.methods, strings.ToUpper(x))
	}
	return r
}

type Router struct {
	NotFoundHandler http.Handler
	routes          []*Route
}

func NewRouter() *Router { return &Router{} }

func (r *Router) HandleFunc(path string, f func(http.ResponseWriter, *http.Request)) *Route {
	rt := &Route{segs: strings.Split(path, "/"), f: f}
	r.routes = append(r.routes, rt)
	return rt
}

type key int

func Vars(r *http.Request) map[string]string {
	m, _ := r.Context().Value(key(0)).(map[string]string)
	return m
}

func (r *Router) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	segs := strings.Split(q.URL.Path, "/")
	wrongMethod := false
	for _, rt := range r.routes {
		if len(rt.segs) != len(segs) {
			continue
		}
		vars := map[string]string{}
		ok := true
		for i, s := range rt.segs {
			if strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}") && segs[i] != "" {
				vars[s[1:len(s)-1]] = segs[i]
			} else if s != segs[i] {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		for _, m := range rt.methods {
			if m == q.Method {
				rt.f(w, q.WithContext(context.WithValue(q.Context(), key(0), vars)))
				return
			}
		}
		wrongMethod = true
	}
	if wrongMethod {
		w.WriteHeader(405)
		return
	}
	if r.NotFoundHandler != nil {
		r.NotFoundHandler.ServeHTTP(w, q)
		return
	}
	http.NotFound(w, q)
}
`

const Handlers = `package handlers

import (
	"io"
	"net/http"
)

type CORSOption func()

func CombinedLoggingHandler(out io.Writer, h http.Handler) http.Handler { return h }
func CORS(opts ...CORSOption) func(http.Handler) http.Handler {
	return func(h http.Handler) http.Handler { return h }
}
func AllowedOrigins(l []string) CORSOption { return nil }
func AllowedHeaders(l []string) CORSOption { return nil }
func AllowedMethods(l []string) CORSOption { return nil }
`
