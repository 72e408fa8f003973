package trace

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/httptrace"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
	"verif/harness/sval"
)

func TestMain(m *testing.M) { pbt.Main(m) }

type obj = map[string]interface{}

func kindOf(sc *sadl.Schema, name string) string {
	for _, td := range sc.Types {
		if td.Name == name {
			return td.Type
		}
	}
	return name
}

// one is an example with what it is for.
type one struct {
	h    *sadl.HttpDef
	name string
	req  obj
	res  obj
	exc  *sadl.HttpExceptionSpec
	err  interface{}
}

var strs = []string{"a", "two words", "a&b=c", "x+y", "50%", "é", "q?z#f", "a/b", "pad==", "{id}", "{name}", "100", "~t;:@"}

func param(c *pbt.C, g *sval.G, typ string) interface{} {
	ts := g.Spec(typ)
	str := func(s string) *string { return &s }
	switch ts.Type {
	case "String":
		return str(sgen.Pick(c.T, "string", strs))
	case "Bool":
		return rapid.Bool().Draw(c.T, "bool")
	case "Array":
		return []interface{}{str("a"), str("b")}
	}
	v := g.Value(ts, 0)
	if p, ok := v.(*string); ok && *p == "" {
		return str("x")
	}
	return v
}

// plain is the value as reading it from JSON gives it.
func plain(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var r interface{}
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	return r
}

// norm is JSON data with numbers compared as numbers.
func norm(v interface{}) interface{} {
	switch x := v.(type) {
	case json.Number:
		r, ok := new(big.Rat).SetString(x.String())
		if !ok {
			return "bad number " + x.String()
		}
		return "number " + r.RatString()
	case []interface{}:
		l := []interface{}{}
		for _, y := range x {
			l = append(l, norm(y))
		}
		return l
	case obj:
		m := obj{}
		for k, y := range x {
			m[k] = norm(y)
		}
		return m
	}
	return v
}

func fromText(s string) (interface{}, error) {
	dec := json.NewDecoder(strings.NewReader(s))
	dec.UseNumber()
	var r interface{}
	if err := dec.Decode(&r); err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, fmt.Errorf("more than one value")
	}
	return norm(r), nil
}

func data(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	r, err := fromText(string(b))
	if err != nil {
		panic(err)
	}
	return r
}

func same(a, b interface{}) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return bytes.Equal(x, y)
}

// text says if s shows the parameter's value.
func shows(s string, v interface{}) bool {
	d := data(v)
	switch x := d.(type) {
	case string:
		if strings.HasPrefix(x, "number ") {
			got, err := fromText(s)
			return err == nil && same(got, d)
		}
		return s == x
	case bool:
		return s == strconv.FormatBool(x)
	}
	got, err := fromText(s)
	return err == nil && same(got, d)
}

func TestP29(t *testing.T) {
	pbt.Run(t, "traces", pbt.Opt{Quick: 4000, Rule: "two or more examples of requests"}, func(c *pbt.C) {
		o := sgen.Options{FieldOpts: true, Constraints: true, FieldAny: true, ItemAny: true, InlineKinds: []string{"Array", "Map", "Enum"}, MinTypes: 2, MaxTypes: 6, UnionBase: true, UnionNamed: true, Http: 4, Comments: true}
		sc := sgen.New(c.T, o)
		g := sval.NewG(c.T, sc).Rich()
		fromJSON := sgen.Bool(c.T, "fromJSON", 30)
		var all []one
		var exs []*sadl.ExampleDef
		add := func(target, name string, v interface{}) interface{} {
			if fromJSON {
				v = plain(v)
			}
			exs = append(exs, &sadl.ExampleDef{Target: target, Name: name, Example: v})
			return v
		}
		for _, h := range sc.Http {
			if sgen.Bool(c.T, "noExpected", 6) {
				h.Expected = nil
			} else if h.Expected != nil && sgen.Bool(c.T, "noContent", 10) {
				h.Expected.Status = rapid.SampledFrom([]int32{204, 304}).Draw(c.T, "empty")
			}
			h.Name = sgen.Pick(c.T, "cap", []string{h.Name, h.Name, sadl.Capitalize(h.Name)})
			used := map[string]bool{}
			for n := rapid.IntRange(0, 3).Draw(c.T, "nexamples"); n > 0; n-- {
				x := one{h: h, req: obj{}}
				x.name = sgen.Pick(c.T, "exname", []string{"first", "second", "good", "bad", "z9", "A"})
				if used[x.name] {
					continue
				}
				used[x.name] = true
				for _, in := range h.Inputs {
					if in.Path || in.Query != "" || in.Header != "" {
						if !in.Path && !in.Required && rapid.Bool().Draw(c.T, "absent") {
							continue
						}
						x.req[in.Name] = param(c, g, in.Type)
					} else if !rapid.Bool().Draw(c.T, "noBody") || in.Required {
						x.req[in.Name] = g.Value(&in.TypeSpec, 0)
					}
				}
				x.req = add(sadl.Capitalize(h.Name)+"Request", x.name, x.req).(obj)
				switch k := rapid.IntRange(0, 5).Draw(c.T, "outcome"); {
				case k == 0:
				case k < 3 && len(h.Exceptions) > 0:
					x.exc = h.Exceptions[rapid.IntRange(0, len(h.Exceptions)-1).Draw(c.T, "exc")]
					// two actions may share an example of the exception
					for _, e := range exs {
						if e.Name == x.name && e.Target == x.exc.Type {
							x.err = e.Example
						}
					}
					if x.err == nil {
						x.err = g.Value(g.Spec(x.exc.Type), 0)
						if x.err == nil {
							x.err = obj{}
						}
						x.err = add(x.exc.Type, x.name, x.err)
					}
				default:
					x.res = obj{}
					if h.Expected != nil {
						for _, out := range h.Expected.Outputs {
							if out.Header == "" {
								x.res[out.Name] = g.Value(&out.TypeSpec, 0)
							} else if rapid.Bool().Draw(c.T, "present") {
								x.res[out.Name] = param(c, g, out.Type)
							}
						}
					}
					x.res = add(sadl.Capitalize(h.Name)+"Response", x.name, x.res).(obj)
				}
				all = append(all, x)
			}
		}
		// an example of an exception belongs to every action that can throw it and has a request of that name
		for i := range all {
			x := &all[i]
			n := 0
			for _, e := range exs {
				if e.Name != x.name {
					continue
				}
				for _, exc := range x.h.Exceptions {
					if exc.Type == e.Target {
						n++
						if x.res == nil && x.exc == nil {
							x.exc, x.err = exc, e.Example
						} else if x.res != nil || x.exc.Type != e.Target {
							n = 99
						}
					}
				}
			}
			if n > 1 {
				c.Skip("an example with two outcomes")
			}
		}
		if sgen.Bool(c.T, "shuffle", 50) {
			// the order of the requests is what counts
			rest := []*sadl.ExampleDef{}
			var reqs []*sadl.ExampleDef
			for _, e := range exs {
				if strings.HasSuffix(e.Target, "Request") {
					reqs = append(reqs, e)
				} else {
					rest = append(rest, e)
				}
			}
			exs = append(rest, reqs...)
		}
		for _, td := range sc.Types {
			if sgen.Bool(c.T, "other", 20) {
				add(td.Name, "unrelated", g.Value(&td.TypeSpec, 0))
			}
		}
		sc.Examples = exs
		c.CaseJSON(sc)
		c.NonTrivial(len(all) >= 2)
		m, err := sadl.NewModel(sc)
		c.Check(err == nil, "the model is refused: %v", err)
		before := pbt.JSON(sc)
		var out string
		t0 := time.Now().Add(-2 * time.Second)
		pbt.NoPanic(c, "tracing", func() { out = pbt.Capture(func() { err = httptrace.Export(m, sadl.NewData()) }) })
		c.Check(err == nil, "tracing fails: %v", err)
		c.Check(pbt.JSON(sc) == before, "the model is changed")
		rest := out
		for i := range all {
			rest = trace(c, sc, &all[i], rest, out, t0)
		}
		c.Check(strings.TrimSpace(rest) == "", "unexpected text: %s", rest)
	})
	pbt.Run(t, "malformed", pbt.Opt{Quick: 300, Rule: "every case"}, func(c *pbt.C) {
		o := sgen.Options{MinTypes: 1, MaxTypes: 4, Http: 3}
		sc := sgen.New(c.T, o)
		if len(sc.Http) == 0 {
			c.Skip("no actions")
		}
		g := sval.NewG(c.T, sc).Rich()
		h := sc.Http[0]
		sc.Examples = []*sadl.ExampleDef{{Target: sadl.Capitalize(h.Name) + "Request", Name: "a", Example: obj{}}}
		bad := &sadl.ExampleDef{Target: sadl.Capitalize(h.Name) + sgen.Pick(c.T, "where", []string{"Request", "Response"}), Name: "a"}
		bad.Example = g.Junk()
		if _, ok := bad.Example.(obj); ok {
			bad.Example = nil
		}
		sc.Examples = append(sc.Examples, bad)
		c.CaseJSON(sc)
		c.NonTrivial(true)
		m, err := sadl.NewModel(sc)
		c.Check(err == nil, "the model is refused: %v", err)
		pbt.NoPanic(c, "tracing", func() { pbt.Capture(func() { err = httptrace.Export(m, sadl.NewData()) }) })
		c.Check(err != nil, "an example that is no object is accepted")
	})
}

// trace reads the trace of x from the text and returns what follows.
func trace(c *pbt.C, sc *sadl.Schema, x *one, text, all string, t0 time.Time) string {
	bad := func(format string, args ...interface{}) {
		c.Fatalf("%s (example %s of %s)\nin:\n%s\nof:\n%s", fmt.Sprintf(format, args...), x.name, x.h.Name, text, all)
	}
	text = strings.TrimLeft(text, "\n")
	line := func() string {
		i := strings.Index(text, "\n")
		if i < 0 {
			bad("the text ends")
		}
		l := text[:i]
		text = text[i+1:]
		return l
	}
	skip := func() []string {
		var l []string
		for strings.HasPrefix(text, "#") {
			l = append(l, line())
		}
		return l
	}
	heads := func() http.Header {
		h := http.Header{}
		for {
			l := line()
			if l == "" {
				return h
			}
			i := strings.Index(l, ": ")
			if i < 0 {
				bad("not a header: %s", l)
			}
			h[l[:i]] = append(h[l[:i]], l[i+2:])
		}
	}
	header := func(h http.Header, name string, v interface{}) {
		got := h[name]
		delete(h, name)
		if v == nil {
			if len(got) > 0 {
				bad("header %s is %v, want none", name, got)
			}
		} else if len(got) != 1 || !shows(got[0], v) {
			bad("header %s is %q, want %v", name, got, data(v))
		}
	}
	head := strings.Join(skip(), "\n")
	if !strings.Contains(head, "# "+x.name+" (action="+x.h.Name+")\n") {
		bad("this is the trace of something else: %s", head)
	}
	if !strings.Contains(head, "Request") {
		bad("no request: %s", head)
	}
	// the request
	l := line()
	if !strings.HasPrefix(l, x.h.Method+" ") || !strings.HasSuffix(l, " HTTP/1.1") || len(l) <= len(x.h.Method)+len("  HTTP/1.1") {
		bad("bad request line: %s", l)
	}
	target := l[len(x.h.Method)+1 : len(l)-len(" HTTP/1.1")]
	if strings.ContainsAny(target, " {}") {
		bad("bad request target: %s", target)
	}
	if strings.HasSuffix(target, "?") || strings.HasSuffix(target, "&") || strings.Contains(target, "&&") || strings.Contains(target, "?&") {
		bad("bad request target: %s", target)
	}
	u, err := url.ParseRequestURI(target)
	if err != nil {
		bad("bad request target: %v", err)
	}
	query, err := url.ParseQuery(u.RawQuery)
	if err != nil {
		bad("bad query: %v", err)
	}
	segs := strings.Split(u.EscapedPath(), "/")
	want := strings.Split(strings.SplitN(x.h.Path, "?", 2)[0], "/")
	if len(segs) != len(want) {
		bad("the path is %s", u.EscapedPath())
	}
	h := heads()
	var body interface{}
	for _, in := range x.h.Inputs {
		v := x.req[in.Name]
		switch {
		case in.Path:
			for i := range want {
				if want[i] == "{"+in.Name+"}" {
					s, err := url.PathUnescape(segs[i])
					if err != nil || !shows(s, v) {
						bad("path parameter %s is %s, want %v", in.Name, segs[i], data(v))
					}
					segs[i] = want[i]
				}
			}
		case in.Query != "":
			got := query[in.Query]
			delete(query, in.Query)
			if v == nil {
				if len(got) > 0 {
					bad("query parameter %s is %q, want none", in.Query, got)
				}
			} else if len(got) != 1 || !shows(got[0], v) {
				bad("query parameter %s is %q, want %v", in.Query, got, data(v))
			}
		case in.Header != "":
			header(h, in.Header, v)
		default:
			body = v
		}
	}
	if strings.Join(segs, "/") != strings.Join(want, "/") {
		bad("the path is %s", u.EscapedPath())
	}
	if len(query) > 0 {
		bad("unexpected query parameters %v", query)
	}
	if a := h["Accept"]; len(a) != 1 || a[0] != "application/json" {
		bad("the Accept header is %v", a)
	}
	delete(h, "Accept")
	delete(h, "Content-Type")
	delete(h, "Content-Length")
	delete(h, "Host")
	if len(h) > 0 {
		bad("unexpected headers %v", h)
	}
	end := "\n#"
	if !strings.HasPrefix(text, "#") {
		i := strings.Index(text, end)
		b := text
		if i >= 0 {
			b, text = text[:i+1], text[i+1:]
		} else {
			text = ""
		}
		checkBody(bad, "request", b, body)
	} else {
		checkBody(bad, "request", "", body)
	}
	if x.res == nil && x.exc == nil {
		if strings.HasPrefix(text, "#   Response") {
			bad("a response without an example")
		}
		return text
	}
	if l := line(); !strings.HasPrefix(l, "#") || !strings.Contains(l, "Response") {
		bad("no response: %s", l)
	}
	status := int32(200)
	if x.h.Expected != nil {
		status = x.h.Expected.Status
	}
	if x.exc != nil {
		status = x.exc.Status
	}
	if l := line(); l != fmt.Sprintf("HTTP/1.1 %d %s", status, http.StatusText(int(status))) {
		bad("the status line is %s, want %d", l, status)
	}
	h = heads()
	body = x.err
	if x.exc == nil && x.h.Expected != nil {
		for _, out := range x.h.Expected.Outputs {
			if out.Header != "" {
				header(h, out.Header, x.res[out.Name])
			} else if status != 204 && status != 304 { // these have no body
				body = x.res[out.Name]
			}
		}
	}
	d := h["Date"]
	delete(h, "Date")
	if len(d) != 1 {
		bad("the Date header is %v", d)
	}
	when, err := time.Parse(http.TimeFormat, d[0])
	if err != nil || when.Before(t0) || when.After(time.Now().Add(2*time.Second)) {
		bad("the Date header is %s, at %s", d[0], time.Now().UTC())
	}
	n := -1
	if cl := h["Content-Length"]; len(cl) == 1 {
		n, _ = strconv.Atoi(cl[0])
	}
	delete(h, "Content-Length")
	if ct := h["Content-Type"]; len(ct) != 1 || !strings.HasPrefix(ct[0], "application/json") {
		bad("the Content-Type header is %v", ct)
	}
	delete(h, "Content-Type")
	if len(h) > 0 {
		bad("unexpected headers %v", h)
	}
	if n < 0 || n > len(text) {
		bad("the content length is %d", n)
	}
	checkBody(bad, "response", text[:n], body)
	return text[n:]
}

func checkBody(bad func(string, ...interface{}), what, text string, want interface{}) {
	if want == nil {
		if strings.TrimSpace(text) != "" {
			bad("the %s body is %s, want none", what, text)
		}
		return
	}
	got, err := fromText(text)
	if err != nil || !same(got, data(want)) {
		bad("the %s body is %q (%v), want %v", what, text, err, data(want))
	}
}
