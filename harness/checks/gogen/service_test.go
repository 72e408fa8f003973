package gogen

import (
	"encoding/json"
	"fmt"
	"go/types"
	"net/url"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"pgregory.net/rapid"
	"verif/harness/gorilla"
	"verif/harness/pbt"
	"verif/harness/sgen"
	"verif/harness/sval"
)

var goParams = []string{"String", "UUID", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Bool", "Timestamp"}

func baseKind(sc *sadl.Schema, name string) string {
	for _, td := range sc.Types {
		if td.Name == name {
			return td.Type
		}
	}
	return name
}

// service draws a model whose actions Go code can express.
func service(c *pbt.C, minActions int) *sadl.Schema {
	o := options()
	o.Http = 4
	var sc *sadl.Schema
	for try := 0; ; try++ {
		sc = goSchema(c, o)
		if len(sc.Http) >= minActions || try > 5 {
			break
		}
	}
	fixExceptions(sc)
	for _, h := range sc.Http {
		h.Name = sgen.Pick(c.T, "cap", []string{h.Name, upper(h.Name)})
		for _, in := range h.Inputs {
			if in.Path || in.Query != "" || in.Header != "" {
				if !sgen.Has(goParams, baseKind(sc, in.Type)) {
					in.Type = sgen.Pick(c.T, "goParam", goParams)
				}
			}
		}
		var l []*sadl.HttpExceptionSpec
		for _, e := range h.Exceptions {
			if e.Status != 304 {
				l = append(l, e)
			}
		}
		h.Exceptions = l
		if h.Expected != nil && sgen.Bool(c.T, "noExpected", 8) {
			h.Expected = nil
			continue
		}
		for _, out := range h.Expected.Outputs {
			if out.Header != "" {
				if sgen.Bool(c.T, "lastmod", 10) && out.Header == "Etag" {
					out.Header = sgen.Pick(c.T, "dateheader", []string{"Last-Modified", "Expires"})
					if !sgen.Has([]string{"Timestamp", "String"}, baseKind(sc, out.Type)) {
						out.Type = "Timestamp"
					}
				}
				if !sgen.Has(goParams, baseKind(sc, out.Type)) {
					out.Type = sgen.Pick(c.T, "goParam", goParams)
				}
			}
		}
	}
	return sc
}

// defaults gives some query parameters a default value.
func defaults(c *pbt.C, sc *sadl.Schema) {
	for _, h := range sc.Http {
		for _, in := range h.Inputs {
			if in.Query == "" || !sgen.Bool(c.T, "default?", 35) {
				continue
			}
			switch baseKind(sc, in.Type) {
			case "String":
				s := sgen.Pick(c.T, "defString", []string{"abc", "two words", `q"uote\`, "é"})
				in.Default = &s
				if rapid.Bool().Draw(c.T, "form") {
					in.Default = s
				}
			case "Int8", "Int16", "Int32", "Int64":
				in.Default = sgen.DecInt(int64(rapid.IntRange(-99, 99).Draw(c.T, "defInt")))
			case "Float32", "Float64":
				in.Default = sgen.Dec(sgen.Pick(c.T, "defFloat", []string{"0.5", "-3.25", "1e9"}))
				if rapid.Bool().Draw(c.T, "form") {
					in.Default = in.Default.(*sadl.Decimal).AsFloat64()
				}
			case "Bool":
				in.Default = rapid.Bool().Draw(c.T, "defBool")
			case "Timestamp":
				ts, err := sadl.ParseTimestamp(sgen.Pick(c.T, "defTime", []string{"2019-02-03T22:48:19.043Z", "2001-01-01T00:00:00.000Z"}))
				if err != nil {
					panic(err)
				}
				in.Default = &ts
				switch rapid.IntRange(0, 3).Draw(c.T, "form") { // what a model built in another way holds
				case 1:
					in.Default = ts.String()
				case 2:
					s := ts.String()
					in.Default = &s
				}
			}
		}
	}
}

func TestP26(t *testing.T) {
	pbt.Run(t, "compiles", pbt.Opt{Quick: 1500, Rule: "two or more actions"}, func(c *pbt.C) {
		sc := service(c, 0)
		defaults(c, sc)
		conf, dir, pkgName, svc := drawConf(c, sc)
		server, client := rapid.Bool().Draw(c.T, "server"), rapid.Bool().Draw(c.T, "client")
		conf.Put("server", server)
		conf.Put("client", client)
		noModel := sgen.Bool(c.T, "noModel", 10)
		if noModel {
			conf.Put("model", false)
		}
		c.CaseJSON(sc)
		c.NonTrivial(len(sc.Http) >= 2 && (server || client))
		c.Class("server=%v client=%v", server, client)
		tmp, clean := pbt.Scratch()
		defer clean()
		files, err := generate(c, sc, tmp, conf)
		c.Check(err == nil, "the generator fails: %v", err)
		var want []string
		if !noModel {
			want = append(want, path.Join(dir, sadl.Uncapitalize(svc)+"_model.go"))
		}
		if server {
			want = append(want, path.Join(dir, sadl.Uncapitalize(svc)+"_server.go"))
		}
		if client {
			want = append(want, path.Join(dir, sadl.Uncapitalize(svc)+"_client.go"))
		}
		c.Check(len(files) == len(want), "files are %v, want %v", pbt.SortedKeys(files), want)
		for _, f := range want {
			c.Check(files[f] != "", "files are %v, want %v", pbt.SortedKeys(files), want)
		}
		checkHeader(c, conf, files)
		if noModel {
			return // the model is in files of the user
		}
		pkg, _, _, err := check(pkgName, files)
		c.Check(err == nil, "the generated code does not compile: %v\n%s", err, clip(fmt.Sprint(files), 6000))
		it := pkg.Scope().Lookup(svc).Type().Underlying().(*types.Interface)
		if server {
			c.Check(pkg.Scope().Lookup("InitServer") != nil, "no function InitServer")
			why := sameFunc(pkg, "InitServer", []string{svc, "string"}, nil)
			c.Check(why == "", "InitServer: %s", why)
		}
		if client {
			o := pkg.Scope().Lookup(svc + "Client")
			c.Check(o != nil, "no type %sClient", svc)
			c.Check(types.Implements(types.NewPointer(o.Type()), it), "%sClient does not implement %s", svc, svc)
			why := sameFunc(pkg, "NewClient", []string{"string"}, []string{"*" + svc + "Client", "error"})
			c.Check(why == "", "NewClient: %s", why)
		}
	})
	pbt.Run(t, "unsupported", pbt.Opt{Quick: 200, Rule: "every case"}, func(c *pbt.C) {
		sc := service(c, 0)
		bad := &sadl.TypeDef{Name: "BadParam"}
		bad.Type = sgen.Pick(c.T, "badtype", []string{"Decimal", "Array", "Map", "Struct", "Enum", "Union", "Bytes"})
		switch bad.Type {
		case "Array":
			bad.Items = "String"
		case "Map":
			bad.Keys, bad.Items = "String", "String"
		case "Struct":
			f := &sadl.StructFieldDef{Name: "a"}
			f.Type = "String"
			bad.Fields = append(bad.Fields, f)
		case "Enum":
			bad.Elements = []*sadl.EnumElementDef{{Symbol: "SomeSymbol"}}
		case "Union":
			v := &sadl.UnionVariantDef{Name: "a"}
			v.Type = "String"
			bad.Variants = append(bad.Variants, v)
		}
		sc.Types = append(sc.Types, bad)
		p := &sadl.HttpParamSpec{}
		p.Name, p.Type = "param", "BadParam"
		h := &sadl.HttpDef{Name: "badAction", Method: "GET", Path: "/bad", Expected: &sadl.HttpExpectedSpec{Status: 200}}
		conf := sadl.NewData()
		where := rapid.IntRange(0, 4).Draw(c.T, "where")
		if where == 4 && (bad.Type == "Struct" || bad.Type == "Union") {
			where = 0
		}
		sides := rapid.IntRange(0, 2).Draw(c.T, "sides")
		conf.Put("server", sides != 1)
		conf.Put("client", sides != 2 || where == 3)
		switch where {
		case 0:
			p.Path, p.Required, h.Path = true, true, "/bad/{param}"
			h.Inputs = append(h.Inputs, p)
		case 1:
			p.Query, h.Path = "param", "/bad?param={param}"
			h.Inputs = append(h.Inputs, p)
		case 2:
			p.Header = "X-Param"
			h.Inputs = append(h.Inputs, p)
		case 3:
			p.Header = "X-Param"
			h.Expected.Outputs = append(h.Expected.Outputs, p)
		case 4:
			h.Exceptions = append(h.Exceptions, &sadl.HttpExceptionSpec{Status: 404, Type: "BadParam"})
		}
		sc.Http = append(sc.Http, h)
		c.CaseJSON(sc)
		c.NonTrivial(true)
		c.Class("%s %d", bad.Type, where)
		tmp, clean := pbt.Scratch()
		defer clean()
		_, err := generate(c, sc, tmp, conf)
		c.Check(err != nil, "a parameter of type %s is accepted", bad.Type)
	})
	pbt.Run(t, "calls", pbt.Opt{Quick: 24, Thorough: 300, Rule: "every case is a batch of eight services with their calls"}, func(c *pbt.C) {
		runCalls(c, 8, false)
	})
	pbt.Run(t, "runtime-calls", pbt.Opt{Quick: 8, Thorough: 100, Rule: "every case is a batch of eight services, generated to use the library, with their calls"}, func(c *pbt.C) {
		runCalls(c, 8, true)
	})
	pbt.Run(t, "repeatable", pbt.Opt{Quick: 200, Rule: "two or more actions"}, func(c *pbt.C) {
		sc := service(c, 1)
		defaults(c, sc)
		c.CaseJSON(sc)
		c.NonTrivial(len(sc.Http) >= 2)
		var first map[string]string
		for i := 0; i < 3; i++ {
			tmp, clean := pbt.Scratch()
			conf := sadl.NewData()
			conf.Put("server", true)
			conf.Put("client", true)
			files, err := generate(c, sc, tmp, conf)
			clean()
			c.Check(err == nil, "the generator fails: %v", err)
			if i == 0 {
				first = files
			} else {
				c.Check(fmt.Sprint(first) == fmt.Sprint(files), "generating twice gives different code")
			}
		}
	})
}

func sameFunc(pkg *types.Package, name string, in, out []string) string {
	o := pkg.Scope().Lookup(name)
	if o == nil {
		return "no such function"
	}
	sig, ok := o.Type().(*types.Signature)
	if !ok {
		return "not a function"
	}
	if sig.Params().Len() != len(in) || out != nil && sig.Results().Len() != len(out) {
		return sig.String()
	}
	for i, e := range in {
		if why := same(pkg, sig.Params().At(i).Type(), e); why != "" {
			return why
		}
	}
	for i, e := range out {
		if why := same(pkg, sig.Results().At(i).Type(), e); why != "" {
			return why
		}
	}
	return ""
}

// ---- end to end

type call struct {
	Svc     int                    `json:"svc"`
	Method  string                 `json:"method"`  // Go method
	Request map[string]interface{} `json:"request"` // as JSON of the request type
	Reply   map[string]interface{} `json:"reply"`   // as JSON of the response type
	Throw   string                 `json:"throw"`   // type of exception to throw, "?" for another error
	Error   interface{}            `json:"error"`   // its JSON
	Raw     *raw                   `json:"raw"`     // send this instead of using the client
}

type raw struct {
	Method string `json:"method"`
	Target string `json:"target"`
	Body   string `json:"body"`
}

type expectCall struct {
	sc *sadl.Schema
	h  *sadl.HttpDef
	e  *sadl.HttpExceptionSpec
	q  *call
	// what is expected
	request map[string]interface{}
	status  int
	base    string
	overlap bool
}

var specialStrings = []string{"a", "two words", "a&b=c", "x+y", "50%", "é", "q?z#f", "semi;colon", `"quoted"`, "~tilde", "100", "true"}
var headerStrings = []string{"a", "two words", "a&b=c", "x,y", "50%", `"abc"`, "W/\"1\"", "100"}

// paramValue draws a value for a parameter, as JSON data.
func paramValue(c *pbt.C, kind string, where string) interface{} {
	switch kind {
	case "String":
		switch where {
		case "path":
			return sgen.Pick(c.T, "pathString", specialStrings)
		case "query":
			return sgen.Pick(c.T, "queryString", append([]string{"", "a/b"}, specialStrings...))
		}
		return sgen.Pick(c.T, "headerString", append([]string{""}, headerStrings...))
	case "UUID":
		if where != "path" && sgen.Bool(c.T, "nouuid", 15) {
			return ""
		}
		return sgen.Pick(c.T, "uuid", sval.GoodUUIDs)
	case "Int8", "Int16", "Int32", "Int64":
		lo, hi := sgen.IntRange(kind)
		return json.Number(fmt.Sprint(rapid.OneOf(rapid.SampledFrom([]int64{0, 1, -1, lo, hi}), rapid.Int64Range(lo, hi)).Draw(c.T, "int")))
	case "Float32":
		return json.Number(sgen.Pick(c.T, "f32", []string{"0", "1.5", "-0.25", "1e10", "3.4e38", "1e-7", "0.1"}))
	case "Float64":
		return json.Number(sgen.Pick(c.T, "f64", []string{"0", "1.5", "-0.1", "1e21", "1.7e308", "5e-324", "123456789.123456789"}))
	case "Bool":
		return rapid.Bool().Draw(c.T, "bool")
	case "Timestamp":
		if where != "path" && sgen.Bool(c.T, "notime", 25) {
			return nil
		}
		return sgen.Pick(c.T, "time", []string{"2019-02-03T22:48:19.043Z", "2020-02-29T00:00:00.000Z", "1999-12-31T23:59:59.900Z", "0123-01-01T00:00:00.000Z"})
	}
	panic(kind)
}

// paramText is what the value looks like on the wire, in a normal form.
func paramText(kind, s string) string {
	switch kind {
	case "Float32":
		f, err := strconv.ParseFloat(s, 32)
		if err != nil {
			return "bad " + s
		}
		return fmt.Sprint(float32(f))
	case "Float64":
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return "bad " + s
		}
		return fmt.Sprint(f)
	case "Timestamp":
		if t, err := time.Parse("Mon, 02 Jan 2006 15:04:05 GMT", s); err == nil {
			return t.Format("2006-01-02T15:04:05.000Z")
		}
		return normTime(s)
	}
	return s
}

func seconds(s string) string { return s[:len("2006-01-02T15:04:05")] + ".000Z" }

func dateHeader(h string) bool { return h == "Last-Modified" || h == "Expires" }

func valueText(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return ""
	case json.Number:
		return x.String()
	}
	return fmt.Sprint(v)
}

func defaultJSON(d interface{}) interface{} {
	switch x := d.(type) {
	case *string:
		return *x
	case *sadl.Decimal:
		return json.Number(x.String())
	case *sadl.Timestamp:
		return x.String()
	}
	return d
}

func runCalls(c *pbt.C, n int, runtime bool) {
	tmp, clean := pbt.Scratch()
	defer clean()
	files := map[string]string{
		"stub/mux/go.mod":      "module github.com/gorilla/mux\n\ngo 1.23\n",
		"stub/mux/mux.go":      gorilla.Mux,
		"stub/handlers/go.mod": "module github.com/gorilla/handlers\n\ngo 1.23\n",
		"stub/handlers/h.go":   gorilla.Handlers,
	}
	imports, impls, table := "", "", "var table = []service{\n"
	var ask []interface{}
	var exp []expectCall
	var desc []string
	for i := 0; i < n; i++ {
		sc := service(c, 1)
		defaults(c, sc)
		pk := fmt.Sprintf("p%d", i)
		conf := sadl.NewData()
		conf.Put("package", pk)
		conf.Put("server", true)
		conf.Put("client", true)
		if runtime {
			conf.Put("runtime", true)
		}
		fs, err := generate(c, sc, filepath.Join(tmp, "gen"), conf)
		c.Check(err == nil, "the generator fails: %v\n%s", err, pbt.JSON(sc))
		for f, s := range fs {
			files[f] = s
		}
		base := sgen.Pick(c.T, "base", []string{"", "/", "/api", "/api/v1/"})
		imports += fmt.Sprintf("\t%s \"genprog/%s\"\n", pk, pk)
		impls += fmt.Sprintf("type impl%d struct{}\n\n", i)
		excs := map[string]bool{}
		for _, h := range sc.Http {
			m := upper(h.Name)
			impls += fmt.Sprintf("func (impl%d) %s(req *%s.%sRequest) (*%s.%sResponse, error) {\n\tres := new(%s.%sResponse)\n\treturn res, serve(%q, req, res)\n}\n\n", i, m, pk, m, pk, m, pk, m, m)
			for _, e := range h.Exceptions {
				excs[e.Type] = true
			}
		}
		table += fmt.Sprintf("\t{\n\t\tserver: func(base string) http.Handler { return %s.InitServer(impl%d{}, base) },\n\t\tclient: func(u string) interface{} { c, err := %s.NewClient(u); if err != nil { panic(err) }; return c },\n\t\tbase: %q,\n\t\texc: map[string]func() error{\n", pk, i, pk, base)
		for _, td := range sc.Types {
			if excs[td.Name] {
				table += fmt.Sprintf("\t\t\t%q: func() error { return new(%s.%s) },\n", td.Name, pk, td.Name)
			}
		}
		table += "\t\t},\n\t},\n"
		desc = append(desc, pbt.JSON(sc))
		g := sval.NewG(c.T, sc).Rich()
		w := &wire{types: g.Types}
		for _, h := range sc.Http {
			for k := 0; k < 3; k++ {
				q := &call{Svc: i, Method: upper(h.Name), Request: map[string]interface{}{}, Reply: map[string]interface{}{}}
				ex := expectCall{sc: sc, h: h, q: q, request: map[string]interface{}{}, status: 200, base: strings.TrimSuffix(base, "/")}
				ok := true
				body := func(name string) interface{} {
					v := g.Value(g.Spec(name), 0)
					if g.Valid(g.Spec(name), v) != "" {
						ok = false
						return nil
					}
					return w.in(g.Spec(name), v)
				}
				for _, in := range h.Inputs {
					where := "body"
					switch {
					case in.Path:
						where = "path"
					case in.Query != "":
						where = "query"
					case in.Header != "":
						where = "header"
					}
					var v interface{}
					if where == "body" {
						v = body(in.Type)
					} else {
						v = paramValue(c, baseKind(sc, in.Type), where)
					}
					if v != nil {
						q.Request[in.Name] = v
						ex.request[in.Name] = v
					}
					if where != "body" && where != "path" && zero(v) && in.Default != nil {
						ex.request[in.Name] = defaultJSON(in.Default)
					}
				}
				if h.Expected != nil {
					ex.status = int(h.Expected.Status)
					for _, out := range h.Expected.Outputs {
						var v interface{}
						if out.Header == "" {
							v = body(out.Type)
						} else {
							v = paramValue(c, baseKind(sc, out.Type), "header")
						}
						if v != nil {
							q.Reply[out.Name] = v
						}
					}
				}
				switch x := rapid.IntRange(0, 9).Draw(c.T, "outcome"); {
				case x < 3 && len(h.Exceptions) > 0:
					ex.e = h.Exceptions[rapid.IntRange(0, len(h.Exceptions)-1).Draw(c.T, "which")]
					q.Throw = ex.e.Type
					q.Error = body(ex.e.Type)
					ex.status = int(ex.e.Status)
				case x == 9:
					q.Throw = "?"
					q.Error = "something else"
					ex.status = 500
				}
				if !ok {
					continue
				}
				ask = append(ask, q)
				exp = append(exp, ex)
			}
			// requests that the client would not send
			for _, in := range h.Inputs {
				if !in.Path && in.Query == "" && in.Header == "" {
					q := &call{Svc: i, Method: upper(h.Name), Raw: &raw{Method: h.Method, Target: strings.TrimSuffix(base, "/") + plainPath(sc, h), Body: "{bad json"}}
					ask = append(ask, q)
					exp = append(exp, expectCall{sc: sc, h: h, q: q, status: 400})
				}
			}
		}
		q := &call{Svc: i, Raw: &raw{Method: "GET", Target: strings.TrimSuffix(base, "/") + "/no/such/path/at/all/here"}}
		ask = append(ask, q)
		exp = append(exp, expectCall{sc: sc, q: q, status: 404})
	}
	table += "}\n"
	files["main.go"] = strings.Replace(serviceMain, "//IMPORTS\n", imports, 1) + impls + table + fmt.Sprintf("\nconst rounds = %d\n", rounds)
	c.Case("%d services, %d calls\n%s", n, len(ask), clip(strings.Join(desc, "\n"), 4000))
	c.NonTrivial(len(ask) > n)
	files["go.mod"] = "module genprog\n\ngo 1.23\n\nrequire (\n\tgithub.com/gorilla/mux v0.0.0\n\tgithub.com/gorilla/handlers v0.0.0\n)\n\nreplace github.com/gorilla/mux => ./stub/mux\n\nreplace github.com/gorilla/handlers => ./stub/handlers\n"
	if runtime {
		mod := files["go.mod"]
		withLibrary(files)
		files["go.mod"] += mod[strings.Index(mod, "\nrequire"):]
	}
	bin := program(c, filepath.Join(tmp, "prog"), files)
	// each call alone, and then several times along with all others
	for i, a := range talk(c, bin, ask, rounds+1) {
		e := exp[i%len(exp)]
		e.overlap = i >= len(exp)
		judge(c, &e, a)
	}
}

func plainPath(sc *sadl.Schema, h *sadl.HttpDef) string {
	p := strings.SplitN(h.Path, "?", 2)[0]
	for _, in := range h.Inputs {
		if in.Path {
			p = strings.ReplaceAll(p, "{"+in.Name+"}", "1")
		}
	}
	return p
}

func judge(c *pbt.C, e *expectCall, a map[string]interface{}) {
	what := jsonText(e.q)
	bad := func(format string, args ...interface{}) {
		when := ""
		if e.overlap {
			when = " (when it overlaps with other calls)"
		}
		c.Fatalf("%s%s\ncall: %s\nanswer: %s\n%s", fmt.Sprintf(format, args...), when, clip(what, 1500), clip(jsonText(a), 2500), pbt.JSON(e.sc))
	}
	w := &wire{types: newGoTypes(e.sc).types}
	status, _ := strconv.Atoi(valueText(a["status"]))
	if status != e.status {
		bad("the status is %d, want %d", status, e.status)
	}
	if e.q.Raw != nil {
		if a["seen"] != nil {
			bad("the implementation was called")
		}
		return
	}
	h := e.h
	// the request on the wire
	if a["wireMethod"] != h.Method {
		bad("the request method is %v, want %s", a["wireMethod"], h.Method)
	}
	u, err := url.Parse(a["wireURL"].(string))
	if err != nil {
		bad("%v", err)
	}
	p := strings.SplitN(h.Path, "?", 2)[0]
	want := e.base
	for i, seg := range strings.Split(p, "/") {
		if i > 0 {
			want += "/"
		}
		if strings.HasPrefix(seg, "{") {
			for _, in := range h.Inputs {
				if in.Path && "{"+in.Name+"}" == seg {
					k := baseKind(e.sc, in.Type)
					seg = paramText(k, valueText(e.q.Request[in.Name]))
					if k == "Float32" || k == "Float64" {
						// any notation of the number
						segs := strings.Split(u.Path, "/")
						at := strings.Count(want, "/")
						if at < len(segs) && paramText(k, segs[at]) == seg {
							seg = segs[at]
						}
					}
				}
			}
		}
		want += seg
	}
	if u.Path != want {
		bad("the request path is %s, want %s", u.Path, want)
	}
	query := u.Query()
	hdr, _ := a["wireHeader"].(map[string]interface{})
	for _, in := range h.Inputs {
		k := baseKind(e.sc, in.Type)
		v := e.q.Request[in.Name]
		switch {
		case in.Path:
		case in.Query != "":
			got, have := query[in.Query]
			delete(query, in.Query)
			if zero(v) {
				if have && paramText(k, got[0]) != paramText(k, valueText(v)) {
					bad("query parameter %s is %v, want none", in.Query, got)
				}
			} else if len(got) != 1 || paramText(k, got[0]) != paramText(k, valueText(v)) {
				bad("query parameter %s is %v, want %v", in.Query, got, v)
			}
		case in.Header != "":
			got, have := hdr[in.Header].(string)
			if zero(v) {
				if have && got != "" && paramText(k, got) != paramText(k, valueText(v)) {
					bad("header %s is %v, want none", in.Header, got)
				}
			} else if paramText(k, got) != paramText(k, valueText(v)) {
				bad("header %s is %v, want %v", in.Header, got, v)
			}
		default:
			if !zero(v) {
				var got interface{}
				dec := json.NewDecoder(strings.NewReader(valueText(a["wireBody"])))
				dec.UseNumber()
				if err := dec.Decode(&got); err != nil {
					bad("the request body is not JSON: %v", err)
				}
				ts := &sadl.TypeSpec{Type: in.Type}
				if !equal(w.norm(ts, got), w.norm(ts, v)) {
					bad("the request body is %s, want %s", jsonText(got), jsonText(v))
				}
				if ct := fmt.Sprint(hdr["Content-Type"]); ct != "application/json" {
					bad("the request's content type is %s", ct)
				}
			}
		}
	}
	if len(query) != 0 {
		bad("unexpected query parameters %v", query)
	}
	// what the implementation sees
	if a["seen"] != e.q.Method {
		bad("the implementation's method %v was called, want %s", a["seen"], e.q.Method)
	}
	reqType := &sadl.TypeSpec{Type: "Struct"}
	for _, in := range h.Inputs {
		reqType.Fields = append(reqType.Fields, &in.StructFieldDef)
	}
	got, wanted := whole(w, reqType, a["request"], false), whole(w, reqType, interface{}(e.request), false)
	if !equal(got, wanted) {
		bad("the implementation gets %s, want %s", jsonText(got), jsonText(wanted))
	}
	// the response on the wire, and as the client gives it
	switch {
	case e.e != nil:
		ts := &sadl.TypeSpec{Type: e.e.Type}
		if h.Method != "HEAD" {
			if !equal(w.norm(ts, a["wireEntity"]), w.norm(ts, e.q.Error)) {
				bad("the response body is %s, want %s", jsonText(a["wireEntity"]), jsonText(e.q.Error))
			}
			if a["errType"] != e.e.Type {
				bad("the client's error is a %v (%v), want %s", a["errType"], a["err"], e.e.Type)
			}
			if t, _ := a["err"].(string); !strings.Contains(t, e.e.Type) {
				bad("the text of the client's error is %q, which does not name %s", t, e.e.Type)
			}
			if !equal(w.norm(ts, a["errValue"]), w.norm(ts, e.q.Error)) {
				bad("the client's error is %s, want %s", jsonText(a["errValue"]), jsonText(e.q.Error))
			}
		}
		if a["err"] == nil {
			bad("the client returns no error")
		}
	case e.q.Throw == "?":
		if a["err"] == nil {
			bad("the client returns no error")
		}
	default:
		if a["err"] != nil {
			bad("the client fails: %v", a["err"])
		}
		resType := &sadl.TypeSpec{Type: "Struct"}
		rh, _ := a["replyHeader"].(map[string]interface{})
		reply := map[string]interface{}{}
		for k, v := range e.q.Reply {
			reply[k] = v
		}
		if h.Expected != nil {
			for _, out := range h.Expected.Outputs {
				resType.Fields = append(resType.Fields, &out.StructFieldDef)
				k := baseKind(e.sc, out.Type)
				v := e.q.Reply[out.Name]
				if out.Header == "" {
					ts := &sadl.TypeSpec{Type: out.Type}
					if !zero(v) && !equal(w.norm(ts, a["wireEntity"]), w.norm(ts, v)) {
						bad("the response body is %s, want %s", jsonText(a["wireEntity"]), jsonText(v))
					}
					continue
				}
				if k == "Timestamp" && v != nil && dateHeader(out.Header) {
					v = seconds(v.(string))
					reply[out.Name] = v
				}
				got, _ := rh[out.Header].(string)
				if v == nil || v == "" {
					if got != "" {
						bad("response header %s is %q, want none", out.Header, got)
					}
				} else if paramText(k, got) != paramText(k, valueText(v)) {
					bad("response header %s is %q, want %v", out.Header, got, v)
				}
				if k == "Timestamp" && v != nil && dateHeader(out.Header) {
					if _, err := time.Parse("Mon, 02 Jan 2006 15:04:05 GMT", got); err != nil {
						bad("response header %s is %q, not an HTTP date", out.Header, got)
					}
				}
			}
		}
		got, wanted := whole(w, resType, a["response"], true), whole(w, resType, interface{}(reply), true)
		if !equal(got, wanted) {
			bad("the client gets %s, want %s", jsonText(got), jsonText(wanted))
		}
	}
}

// whole compares two requests or responses, ignoring the difference between absent and zero fields.
func whole(w *wire, ts *sadl.TypeSpec, v interface{}, response bool) interface{} {
	m, ok := v.(map[string]interface{})
	if !ok {
		return fmt.Sprintf("not an object: %v", v)
	}
	r := map[string]interface{}{}
	for _, f := range ts.Fields {
		x := m[f.Name]
		if n := w.norm(&f.TypeSpec, x); !zero(n) {
			r[f.Name] = n
		}
	}
	for k := range m {
		found := false
		for _, f := range ts.Fields {
			found = found || f.Name == k
		}
		if !found {
			r[k] = "unexpected"
		}
	}
	return r
}

var _ = golang.Export

// rounds is how often all calls are made at the same time.
const rounds = 3

const serviceMain = `package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

//IMPORTS
)

type service struct {
	server func(base string) http.Handler
	client func(url string) interface{}
	base   string
	exc    map[string]func() error
}

type call struct {
	Svc     int
	Method  string
	Request json.RawMessage
	Reply   json.RawMessage
	Throw   string
	Error   json.RawMessage
	Raw     *struct{ Method, Target, Body string }
}

// a call that is under way
type state struct {
	q   *call
	mu  sync.Mutex
	ans map[string]interface{}
	wg  sync.WaitGroup
}

func (s *state) put(k string, v interface{}) {
	s.mu.Lock()
	s.ans[k] = v
	s.mu.Unlock()
}

// the call that each goroutine is busy with, and every call by its number
var busy, calls sync.Map
var number int64
var overlap int32

func goid() string {
	b := make([]byte, 64)
	return strings.Fields(string(b[:runtime.Stack(b, false)]))[1]
}

func serve(method string, req, res interface{}) error {
	v, _ := busy.Load(goid())
	st := v.(*state)
	st.put("seen", method)
	st.put("request", req)
	if b, err := json.Marshal(req); err == nil {
		st.put("request", json.RawMessage(b))
	}
	if atomic.LoadInt32(&overlap) != 0 {
		time.Sleep(time.Duration(rand.Intn(2000)) * time.Microsecond)
	}
	if st.q.Throw == "?" {
		return errors.New("something else")
	}
	if st.q.Throw != "" {
		e := table[st.q.Svc].exc[st.q.Throw]()
		must(json.Unmarshal(st.q.Error, e))
		return e
	}
	return json.Unmarshal(st.q.Reply, res)
}

// tagged marks the requests of a goroutine with the number of its call.
type tagged struct{ http.RoundTripper }

func (t tagged) RoundTrip(r *http.Request) (*http.Response, error) {
	if v, ok := busy.Load(goid()); ok {
		r = r.Clone(r.Context())
		calls.Range(func(n, st interface{}) bool {
			if st == v {
				r.Header["X-Verif-Call"] = []string{n.(string)}
				return false
			}
			return true
		})
	}
	return t.RoundTripper.RoundTrip(r)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type recorder struct {
	http.ResponseWriter
	status int
	body   []byte
}

func (r *recorder) WriteHeader(s int) {
	if r.status == 0 {
		r.status = s
	}
	r.ResponseWriter.WriteHeader(s)
}

func (r *recorder) Write(b []byte) (int, error) {
	if r.status == 0 {
		r.status = 200
	}
	r.body = append(r.body, b...)
	return r.ResponseWriter.Write(b)
}

func flat(h http.Header) map[string]string {
	m := map[string]string{}
	for k, v := range h {
		m[k] = strings.Join(v, "\n")
	}
	return m
}

var servers []*httptest.Server

// ask makes a call, by a given client or one of its own, and gives what became of it.
func ask(q *call, cl reflect.Value) map[string]interface{} {
	st := &state{q: q, ans: map[string]interface{}{}}
	id, n := goid(), fmt.Sprint(atomic.AddInt64(&number, 1))
	busy.Store(id, st)
	calls.Store(n, st)
	url := servers[q.Svc].URL
	if q.Raw != nil {
		r, err := http.NewRequest(q.Raw.Method, url+q.Raw.Target, strings.NewReader(q.Raw.Body))
		must(err)
		res, err := http.DefaultClient.Do(r)
		must(err)
		io.Copy(io.Discard, res.Body)
		res.Body.Close()
	} else {
		if !cl.IsValid() {
			cl = newClient(q.Svc)
		}
		m := cl.MethodByName(q.Method)
		req := reflect.New(m.Type().In(0).Elem())
		must(json.Unmarshal(q.Request, req.Interface()))
		out := m.Call([]reflect.Value{req})
		if err, _ := out[1].Interface().(error); err != nil {
			st.put("err", err.Error())
			t := reflect.TypeOf(err)
			if t.Kind() == reflect.Ptr {
				t = t.Elem()
			}
			st.put("errType", t.Name())
			if b, e := json.Marshal(err); e == nil {
				st.put("errValue", json.RawMessage(b))
			}
		} else {
			st.put("response", out[0].Interface())
		}
	}
	st.wg.Wait()
	busy.Delete(id)
	calls.Delete(n)
	return st.ans
}

func newClient(svc int) reflect.Value {
	return reflect.ValueOf(table[svc].client(servers[svc].URL + strings.TrimSuffix(table[svc].base, "/")))
}

func main() {
	real := http.DefaultTransport.(*http.Transport)
	real.MaxIdleConnsPerHost = 100
	http.DefaultTransport = tagged{real}
	for _, s := range table {
		inner := s.server("http://localhost" + s.base)
		servers = append(servers, httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			n := strings.Join(r.Header["X-Verif-Call"], "")
			delete(r.Header, "X-Verif-Call")
			v, ok := calls.Load(n)
			if !ok {
				fmt.Fprintln(os.Stderr, "a request of an unknown call")
				os.Exit(3)
			}
			st := v.(*state)
			st.wg.Add(1)
			defer st.wg.Done()
			id := goid()
			busy.Store(id, st)
			defer busy.Delete(id)
			b, _ := io.ReadAll(r.Body)
			r.Body = io.NopCloser(strings.NewReader(string(b)))
			st.put("wireMethod", r.Method)
			st.put("wireURL", r.URL.String())
			st.put("wireHeader", flat(r.Header))
			st.put("wireBody", string(b))
			rec := &recorder{ResponseWriter: w}
			inner.ServeHTTP(rec, r)
			st.put("status", rec.status)
			st.put("replyHeader", flat(w.Header()))
			if json.Valid(rec.body) {
				st.put("wireEntity", json.RawMessage(rec.body))
			} else {
				st.put("wireEntity", "not JSON: "+string(rec.body))
			}
		})))
	}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<24)
	var all []*call
	say := func(ans map[string]interface{}) {
		b, err := json.Marshal(ans)
		must(err)
		fmt.Println(string(b))
	}
	for in.Scan() {
		q := new(call)
		must(json.Unmarshal(in.Bytes(), q))
		all = append(all, q)
		say(ask(q, reflect.Value{}))
	}
	// once more, all at the same time, with one client for each server
	var clients []reflect.Value
	for i := range servers {
		clients = append(clients, newClient(i))
	}
	atomic.StoreInt32(&overlap, 1)
	for round := 0; round < rounds; round++ {
		got := make([]map[string]interface{}, len(all))
		var wg sync.WaitGroup
		for i := range all {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				got[i] = ask(all[i], clients[all[i].Svc])
			}(i)
		}
		wg.Wait()
		for _, ans := range got {
			say(ans)
		}
	}
}

`
