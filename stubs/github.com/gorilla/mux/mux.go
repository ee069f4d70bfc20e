// Package mux is a stand-in for github.com/gorilla/mux: routes by path
// templates, as its release 1.7 does without options.
package mux

import (
	"context"
	"fmt"
	"net/http"
	"path"
	"regexp"
	"strings"
)

type Router struct {
	NotFoundHandler http.Handler
	routes          []*Route
}

type Route struct {
	re      *regexp.Regexp
	names   []string
	handler http.Handler
}

func NewRouter() *Router { return &Router{} }

func (r *Router) HandleFunc(tpl string, f func(http.ResponseWriter, *http.Request)) *Route {
	return r.Handle(tpl, http.HandlerFunc(f))
}

func (r *Router) Handle(tpl string, h http.Handler) *Route {
	rt := &Route{handler: h}
	pattern, end := "^", 0
	for end < len(tpl) {
		i := strings.IndexByte(tpl[end:], '{')
		if i < 0 {
			break
		}
		pattern += regexp.QuoteMeta(tpl[end : end+i])
		start := end + i + 1
		level := 1
		for end = start; end < len(tpl) && level > 0; end++ {
			switch tpl[end] {
			case '{':
				level++
			case '}':
				level--
			}
		}
		if level != 0 {
			panic(fmt.Sprintf("mux: unbalanced braces in %q", tpl))
		}
		name, patt, ok := strings.Cut(tpl[start:end-1], ":")
		if !ok {
			patt = "[^/]+"
		}
		if name == "" || patt == "" {
			panic(fmt.Sprintf("mux: missing name or pattern in %q", tpl))
		}
		pattern += fmt.Sprintf("(?P<v%d>%s)", len(rt.names), patt)
		rt.names = append(rt.names, name)
	}
	rt.re = regexp.MustCompile(pattern + regexp.QuoteMeta(tpl[end:]) + "$")
	r.routes = append(r.routes, rt)
	return rt
}

func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	if p := cleanPath(req.URL.Path); p != req.URL.Path {
		u := *req.URL
		u.Path = p
		w.Header().Set("Location", u.String())
		w.WriteHeader(http.StatusMovedPermanently)
		return
	}
	for _, rt := range r.routes {
		m := rt.re.FindStringSubmatchIndex(req.URL.Path)
		if m == nil {
			continue
		}
		vars := map[string]string{}
		for i, name := range rt.names {
			g := 2 * rt.re.SubexpIndex(fmt.Sprintf("v%d", i))
			if m[g] >= 0 {
				vars[name] = req.URL.Path[m[g]:m[g+1]]
			} else {
				vars[name] = ""
			}
		}
		rt.handler.ServeHTTP(w, req.WithContext(context.WithValue(req.Context(), varsKey, vars)))
		return
	}
	h := r.NotFoundHandler
	if h == nil {
		h = http.NotFoundHandler()
	}
	h.ServeHTTP(w, req)
}

type contextKey int

const varsKey contextKey = 0

// Vars gives the variables of the route that req took.
func Vars(req *http.Request) map[string]string {
	vars, _ := req.Context().Value(varsKey).(map[string]string)
	return vars
}

func cleanPath(p string) string {
	if p == "" {
		return "/"
	}
	if p[0] != '/' {
		p = "/" + p
	}
	np := path.Clean(p)
	if p[len(p)-1] == '/' && np != "/" {
		np += "/"
	}
	return np
}
