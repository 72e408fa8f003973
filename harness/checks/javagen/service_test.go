package javagen

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/boynton/sadl"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
	"verif/harness/sval"
)

var paramKinds = []string{"String", "UUID", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Bool", "Timestamp", "Decimal", "Enum", "UnitValue"}

func kind(sc *sadl.Schema, name string) string {
	for _, td := range sc.Types {
		if td.Name == name {
			return td.Type
		}
	}
	return name
}

// service draws a model whose actions Java code can express.
func service(c *pbt.C, min int) (*sadl.Schema, *setup) {
	o := options()
	o.Http = 4
	var sc *sadl.Schema
	for try := 0; ; try++ {
		sc = schema(c, o)
		if len(sc.Http) >= min || try > 5 {
			break
		}
	}
	simpleTimes(sc)
	s := settings(c, sc)
	fixExceptions(sc, s.sexc)
	fixActions(sc)
	j := newJavaTypes(sc, true)
	param := func(p *sadl.HttpParamSpec) {
		if p.Path || p.Query != "" || p.Header != "" {
			if k := kind(sc, p.Type); !sgen.Has(paramKinds, k) || k == p.Type && (k == "Enum" || k == "UnitValue") {
				p.Type = sgen.Pick(c.T, "param", paramKinds[:11])
			} else if sgen.Bool(c.T, "other type", 40) {
				l := append([]string{}, paramKinds[:11]...)
				for _, td := range sc.Types {
					if sgen.Has(paramKinds, td.Type) {
						l = append(l, td.Name)
					}
				}
				p.TypeSpec = sadl.TypeSpec{Type: sgen.Pick(c.T, "param", l)}
			}
			return
		}
		// timestamps in entities need the annotations of a field
		if n := j.name(&p.TypeSpec, true, ""); strings.Contains(n, "Instant") {
			p.TypeSpec = sadl.TypeSpec{Type: "String"}
		}
		p.Required = true
	}
	for _, h := range sc.Http {
		if n := len(h.Exceptions); n > 0 && sgen.Bool(c.T, "no entity", 20) {
			e := h.Exceptions[rapid.IntRange(0, n-1).Draw(c.T, "which")]
			if st := sgen.Pick(c.T, "empty status", []string{"304", "304", "204"}); kind(sc, e.Type) == "Struct" && (h.Expected == nil || fmt.Sprint(h.Expected.Status) != st) {
				n, _ := strconv.Atoi(st)
				used := false
				for _, x := range h.Exceptions {
					used = used || int(x.Status) == n
				}
				if !used {
					e.Status = int32(n)
				}
			}
		}
		h.Name = sgen.Pick(c.T, "cap", []string{h.Name, upper(h.Name)})
		for _, in := range h.Inputs {
			if in.Header != "" && sgen.Bool(c.T, "optional", 40) {
				in.Required = false
			}
			param(in)
			if n := sgen.Pick(c.T, "odd", []string{"", "", "", "", "req", "res", "target", "response", "config"}); n != "" && !in.Path {
				used := false
				for _, x := range h.Inputs {
					used = used || upper(x.Name) == upper(n)
				}
				if !used {
					h.Path = strings.Replace(h.Path, "={"+in.Name+"}", "={"+n+"}", 1)
					in.Name = n
				}
			}
		}
		if h.Expected == nil || sgen.Bool(c.T, "noExpected", 6) {
			h.Expected = nil
			continue
		}
		for _, out := range h.Expected.Outputs {
			param(out)
			if out.Header != "" && sgen.Bool(c.T, "needed", 30) {
				out.Required = true
			}
		}
	}
	unname(c, sc)
	fixActions(sc)
	return sc, s
}

// defaults gives some parameters a default value.
func defaults(c *pbt.C, sc *sadl.Schema) {
	for _, h := range sc.Http {
		for _, in := range h.Inputs {
			if in.Path || in.Query == "" && in.Header == "" || !sgen.Bool(c.T, "default?", 35) {
				continue
			}
			in.Required = false
			switch kind(sc, in.Type) {
			case "String":
				s := sgen.Pick(c.T, "defString", []string{"abc", "two words", `q"uote\`, "é"})
				in.Default = &s
			case "Int8", "Int16", "Int32", "Int64":
				in.Default = sgen.DecInt(int64(rapid.IntRange(-99, 99).Draw(c.T, "defInt")))
			case "Float32", "Float64", "Decimal":
				in.Default = sgen.Dec(sgen.Pick(c.T, "defFloat", []string{"0.5", "-3.25", "1e9"}))
			case "Bool":
				in.Default = rapid.Bool().Draw(c.T, "defBool")
			case "Timestamp":
				ts, err := sadl.ParseTimestamp(sgen.Pick(c.T, "defTime", []string{"2019-02-03T22:48:19.043Z", "2001-01-01T00:00:00.000Z"}))
				if err != nil {
					panic(err)
				}
				in.Default = &ts
			}
		}
	}
}

func defaultJSON(d interface{}) interface{} {
	switch x := d.(type) {
	case *string:
		return *x
	case *sadl.Decimal:
		return json.Number(x.String())
	case *sadl.Timestamp:
		return x.String()
	}
	return d
}

var specialStrings = []string{"a", "two words", "a&b=c", "x+y", "50%", "é", "q?z#f", "semi;colon", `"quoted"`, "~tilde", "100", "true", "a/b"}
var headerStrings = []string{"a", "two words", "a&b=c", "x,y", "50%", `"abc"`, "W/\"1\"", "100"}

// paramValue draws a value for a parameter, as JSON data.
func paramValue(c *pbt.C, g *sval.G, w *wire, typ string, where string) interface{} {
	ts := g.Spec(typ)
	switch ts.Type {
	case "String":
		if where == "header" {
			return sgen.Pick(c.T, "headerString", headerStrings)
		}
		return sgen.Pick(c.T, "string", specialStrings)
	case "UUID":
		return sgen.Pick(c.T, "uuid", sval.GoodUUIDs)
	case "Int8", "Int16", "Int32", "Int64":
		lo, hi := sgen.IntRange(ts.Type)
		return json.Number(fmt.Sprint(rapid.OneOf(rapid.SampledFrom([]int64{0, 1, -1, lo, hi}), rapid.Int64Range(lo, hi)).Draw(c.T, "int")))
	case "Float32":
		return json.Number(sgen.Pick(c.T, "f32", []string{"0", "1.5", "-0.25", "1e10", "3.4e38", "1e-7", "0.1"}))
	case "Float64":
		return json.Number(sgen.Pick(c.T, "f64", []string{"0", "1.5", "-0.1", "1e21", "1.7e308", "5e-324", "123456789.123456789"}))
	case "Decimal":
		return json.Number(sgen.Pick(c.T, "dec", []string{"0", "1.5", "-0.1", "123456789012345678901234567890.5", "1e3"}))
	case "Bool":
		return rapid.Bool().Draw(c.T, "bool")
	case "Timestamp":
		return sgen.Pick(c.T, "time", []string{"2019-02-03T22:48:19.043Z", "2020-02-29T00:00:00Z", "1999-12-31T23:59:59.900Z", "0123-01-01T00:00:00Z"})
	}
	v := g.Value(ts, 0)
	if g.Valid(ts, v) != "" {
		return nil
	}
	return w.in(ts, v)
}

// normText is the text of a parameter in a normal form.
func (w *wire) normText(typ, s string) interface{} {
	k := typ
	if td := w.types[typ]; td != nil {
		k = td.Type
	}
	switch k {
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		return number(k, s)
	case "Bool":
		return s == "true"
	}
	return w.norm(&sadl.TypeSpec{Type: typ}, s)
}

func TestP28(t *testing.T) {
	pbt.Run(t, "calls", pbt.Opt{Quick: 400, Thorough: 6000, Rule: "two or more calls"}, func(c *pbt.C) {
		sc, s := service(c, 1)
		defaults(c, sc)
		s.conf.Put("server", true)
		s.conf.Put("client", true)
		impl := sgen.Bool(c.T, "impl", 30)
		if impl {
			s.conf.Put("example-implementation", true)
		}
		g := sval.NewG(c.T, sc).Rich()
		w := &wire{types: g.Types}
		var calls []*call
		for _, h := range sc.Http {
			for k := 0; k < 4; k++ {
				if q := drawCall(c, g, w, sc, s, h); q != nil {
					calls = append(calls, q)
				}
			}
		}
		c.CaseJSON(map[string]interface{}{"schema": sc, "conf": s.conf, "calls": calls})
		c.NonTrivial(len(calls) >= 2)
		tmp, clean := pbt.Scratch()
		defer clean()
		files, err := generate(c, sc, tmp, s.conf)
		c.Check(err == nil, "the generator fails: %v", err)
		want := []string{path.Join(pkgPath(s.server), s.service+"Resources"), path.Join(pkgPath(s.cli), s.service+"Client"), path.Join(pkgPath(s.cli), "ClientConfig")}
		if impl {
			want = append(want, "Main", s.service+"Controller")
		}
		for _, f := range want {
			f = path.Join(s.source, f+".java")
			c.Check(files[f] != "", "no file %s in %v", f, pbt.SortedKeys(files))
			delete(files, f)
		}
		checkFiles(c, sc, s, files)
		all := pbt.Files(tmp)
		id, classes := load(c, tmp, all)
		defer free(id)
		m := &model{c: c, sc: sc, s: s, id: id, classes: classes, j: newJavaTypes(sc, s.instants), w: w}
		for _, q := range calls {
			m.call(q)
		}
		if len(calls) >= 2 {
			m.overlap(calls)
		}
	})
	pbt.Run(t, "parts", pbt.Opt{Quick: 80, Thorough: 600, Rule: "one or more actions"}, func(c *pbt.C) {
		// servers and clients alone
		sc, s := service(c, 1)
		server := rapid.Bool().Draw(c.T, "server")
		s.conf.Put("server", server)
		s.conf.Put("client", !server)
		c.CaseJSON(map[string]interface{}{"schema": sc, "conf": s.conf})
		c.NonTrivial(len(sc.Http) >= 1)
		tmp, clean := pbt.Scratch()
		defer clean()
		files, err := generate(c, sc, tmp, s.conf)
		c.Check(err == nil, "the generator fails: %v", err)
		have := func(p string) bool { return files[path.Join(s.source, p+".java")] != "" }
		c.Check(server == have(path.Join(pkgPath(s.server), s.service+"Resources")), "server=%v, and the files are %v", server, pbt.SortedKeys(files))
		c.Check(!server == have(path.Join(pkgPath(s.cli), s.service+"Client")), "server=%v, and the files are %v", server, pbt.SortedKeys(files))
		id, _ := load(c, tmp, files)
		free(id)
	})
	pbt.Run(t, "maven", pbt.Opt{Quick: 100, Thorough: 500, Rule: "every case"}, func(c *pbt.C) {
		sc, s := service(c, 0)
		s.conf.Put("maven", true)
		lombok := rapid.Bool().Draw(c.T, "lombok")
		s.conf.Put("lombok", lombok)
		force := rapid.Bool().Draw(c.T, "force")
		s.conf.Put("force-overwrite", force)
		server := rapid.Bool().Draw(c.T, "server")
		s.conf.Put("server", server)
		old := sgen.Pick(c.T, "there is", []string{"", "<project/>"})
		c.CaseJSON(map[string]interface{}{"schema": sc, "conf": s.conf, "pom.xml": old})
		c.NonTrivial(true)
		tmp, clean := pbt.Scratch()
		defer clean()
		if old != "" {
			if err := os.WriteFile(filepath.Join(tmp, "pom.xml"), []byte(old), 0644); err != nil {
				panic(err)
			}
		}
		files, err := generate(c, sc, tmp, s.conf)
		c.Check(err == nil, "the generator fails: %v", err)
		pom := files["pom.xml"]
		c.Check(server == (files[path.Join(s.source, pkgPath(s.server), s.service+"Resources.java")] != ""), "server=%v, and the files are %v", server, pbt.SortedKeys(files))
		if old != "" && !force {
			c.Check(pom == old, "the pom.xml that was there is now %s", pom)
			return
		}
		var p struct {
			XMLName      xml.Name `xml:"project"`
			GroupID      string   `xml:"groupId"`
			ArtifactID   string   `xml:"artifactId"`
			Name         string   `xml:"name"`
			Dependencies []string `xml:"dependencies>dependency>artifactId"`
		}
		err = xml.Unmarshal([]byte(pom), &p)
		c.Check(err == nil, "pom.xml is not XML: %v\n%s", err, pom)
		c.Check(p.ArtifactID == s.service && p.Name == s.service, "the project is called %q, %q", p.ArtifactID, p.Name)
		if d := s.conf.GetString("domain"); d != "" {
			c.Check(p.GroupID == d, "the group is %q, and the domain %q", p.GroupID, d)
		}
		have := map[string]bool{}
		for _, d := range p.Dependencies {
			have[d] = true
		}
		c.Check(have["jersey-common"] && have["jersey-media-json-jackson"], "the dependencies are %v", p.Dependencies)
		c.Check(have["lombok"] == lombok, "lombok is %v, and the dependencies are %v", lombok, p.Dependencies)
	})
	pbt.Run(t, "repeatable", pbt.Opt{Quick: 150, Rule: "two or more actions"}, func(c *pbt.C) {
		sc, s := service(c, 1)
		defaults(c, sc)
		s.conf.Put("server", true)
		s.conf.Put("client", true)
		s.conf.Put("example-implementation", true)
		c.CaseJSON(map[string]interface{}{"schema": sc, "conf": s.conf})
		c.NonTrivial(len(sc.Http) >= 2)
		var first map[string]string
		for i := 0; i < 3; i++ {
			tmp, clean := pbt.Scratch()
			files, err := generate(c, sc, tmp, s.conf)
			clean()
			c.Check(err == nil, "the generator fails: %v", err)
			if i == 0 {
				first = files
			} else {
				c.Check(equal(first, files), "generating twice gives different code")
			}
		}
	})
	pbt.Run(t, "refused", pbt.Opt{Quick: 150, Rule: "every case"}, func(c *pbt.C) {
		sc, s := service(c, 0)
		s.conf.Put("server", true)
		s.conf.Put("client", true)
		bad := &sadl.TypeDef{Name: "BadParam"}
		h := &sadl.HttpDef{Name: "badAction", Method: "GET", Path: "/bad", Expected: &sadl.HttpExpectedSpec{Status: 200}}
		where := rapid.IntRange(0, 2).Draw(c.T, "where")
		switch where {
		case 0:
			// a header that has no representation
			bad.Type = sgen.Pick(c.T, "badtype", []string{"Array", "Map", "Struct", "Union", "Bytes", "Any"})
			switch bad.Type {
			case "Array":
				bad.Items = "String"
			case "Map":
				bad.Keys, bad.Items = "String", "String"
			case "Struct":
				f := &sadl.StructFieldDef{Name: "a"}
				f.Type = "String"
				bad.Fields = append(bad.Fields, f)
			case "Union":
				v := &sadl.UnionVariantDef{Name: "a"}
				v.Type = "String"
				bad.Variants = append(bad.Variants, v)
			}
			p := &sadl.HttpParamSpec{}
			p.Name, p.Type, p.Header = "param", "BadParam", "X-Param"
			h.Expected.Outputs = append(h.Expected.Outputs, p)
		case 1:
			// something that cannot be thrown
			bad.Type = sgen.Pick(c.T, "badexc", []string{"String", "Int32", "Enum"})
			if bad.Type == "Enum" {
				bad.Elements = []*sadl.EnumElementDef{{Symbol: "ONLY"}}
			}
			h.Exceptions = []*sadl.HttpExceptionSpec{{Type: "BadParam", Status: 400}}
			s.conf.Put("service-exception", false)
		case 2:
			// no name
			bad.Type = "String"
			sc.Name = ""
			s.conf.Put("name", "")
		}
		sc.Types = append(sc.Types, bad)
		sc.Http = append(sc.Http, h)
		c.CaseJSON(map[string]interface{}{"schema": sc, "conf": s.conf})
		c.NonTrivial(true)
		c.Class("%s %d", bad.Type, where)
		tmp, clean := pbt.Scratch()
		defer clean()
		_, err := generate(c, sc, tmp, s.conf)
		c.Check(err != nil, "a service that Java cannot have is accepted")
	})
}

type call struct {
	H       *sadl.HttpDef `json:"-"`
	Action  string
	Request obj
	Reply   obj
	Throw   string
	Error   interface{}
	Status  int
}

func drawCall(c *pbt.C, g *sval.G, w *wire, sc *sadl.Schema, s *setup, h *sadl.HttpDef) *call {
	q := &call{H: h, Action: sadl.Uncapitalize(h.Name), Request: obj{}, Reply: obj{}, Status: 200}
	ok := true
	body := func(ts *sadl.TypeSpec) interface{} {
		v := g.Value(ts, 0)
		if g.Valid(ts, v) != "" || !dense(ts, v) {
			ok = false
			return nil
		}
		if _, isText := v.(*string); isText && kind(sc, ts.Type) == "Any" {
			// JAX-RS sends the text itself, not as JSON
			ok = false
		}
		return w.in(ts, v)
	}
	for _, in := range h.Inputs {
		switch {
		case in.Path:
			q.Request[in.Name] = paramValue(c, g, w, in.Type, "path")
		case in.Query != "" || in.Header != "":
			where := "query"
			if in.Header != "" {
				where = "header"
			}
			if !in.Required && sgen.Bool(c.T, "absent", 30) {
				continue
			}
			q.Request[in.Name] = paramValue(c, g, w, in.Type, where)
		default:
			q.Request[in.Name] = body(&in.TypeSpec)
		}
		if q.Request[in.Name] == nil {
			return nil
		}
	}
	if h.Expected != nil {
		q.Status = int(h.Expected.Status)
		for _, out := range h.Expected.Outputs {
			if out.Header == "" {
				q.Reply[out.Name] = body(&out.TypeSpec)
			} else if out.Required || !sgen.Bool(c.T, "absent", 30) {
				q.Reply[out.Name] = paramValue(c, g, w, out.Type, "header")
			} else {
				continue
			}
			if q.Reply[out.Name] == nil {
				return nil
			}
		}
	}
	switch x := rapid.IntRange(0, 9).Draw(c.T, "outcome"); {
	case x < 4 && len(h.Exceptions) > 0:
		e := h.Exceptions[rapid.IntRange(0, len(h.Exceptions)-1).Draw(c.T, "which")]
		q.Throw = e.Type
		q.Error = body(g.Spec(e.Type))
		q.Status = int(e.Status)
		if !hasEntity(e.Status) {
			q.Error = obj{}
		}
	case x == 9:
		q.Throw = "?"
		q.Status = 500
	}
	if !ok {
		return nil
	}
	return q
}

// question is the call as the Java side takes it.
func (m *model) question(q *call) obj {
	base := strings.TrimSuffix(m.sc.Base, "/")
	o := obj{"op": "call", "id": m.id, "interface": m.s.model + "." + m.s.service, "resource": m.s.server + "." + m.s.service + "Resources",
		"client": m.s.cli + "." + m.s.service + "Client", "target": "http://localhost:8080" + base, "action": q.Action, "arg": q.Request, "reply": q.Reply}
	if m.classes[m.s.model+".Util$InstantConverterProvider"] {
		o["provider"] = m.s.model + ".Util$InstantConverterProvider"
	}
	if q.Throw != "" {
		o["throw"] = q.Throw
		if q.Throw != "?" {
			o["throw"] = m.s.model + "." + upper(q.Throw)
			o["exception"] = q.Error
		}
		if m.s.sexc {
			o["wrapper"] = m.s.model + ".ServiceException"
		}
	}
	return o
}

func (m *model) call(q *call) {
	o := m.question(q)
	m.judge(q, o, ask(o), "")
}

// overlap makes the calls again, from many threads that share a client and a resource.
func (m *model) overlap(calls []*call) {
	var l []obj
	for _, q := range calls {
		l = append(l, m.question(q))
	}
	r := good(m.c, "overlapping calls", obj{"op": "overlap", "id": m.id, "calls": l, "threads": 6, "rounds": 3})
	for i, x := range r["answers"].([]interface{}) {
		for _, a := range x.([]interface{}) {
			m.judge(calls[i], l[i], a.(obj), "when calls overlap, ")
		}
	}
}

// judge compares what the Java side did with what is right.
func (m *model) judge(q *call, o, r obj, when string) {
	c, h, w := m.c, q.H, m.w
	base := strings.TrimSuffix(m.sc.Base, "/")
	bad := func(format string, args ...interface{}) {
		c.Fatalf("%s%s\ncall: %s\nanswer: %s", when, fmt.Sprintf(format, args...), clip(jsonText(o), 2500), clip(jsonText(r), 3500))
	}
	if r["error"] != nil {
		bad("the call fails: %v\n%v", r["error"], r["trace"])
	}
	parse := func(_ *pbt.C, s string) interface{} {
		dec := json.NewDecoder(strings.NewReader(s))
		dec.UseNumber()
		var v interface{}
		if dec.Decode(&v) != nil {
			bad("not JSON: %q", s)
		}
		return v
	}
	// the request on the wire
	sent, _ := r["sent"].(obj)
	if sent == nil {
		bad("nothing was sent")
	}
	if sent["method"] != h.Method {
		bad("the method is %v, want %s", sent["method"], h.Method)
	}
	u, err := url.Parse(sent["url"].(string))
	if err != nil {
		bad("%v", err)
	}
	var segs []string
	for _, x := range strings.Split(u.EscapedPath(), "/") {
		x, _ = url.PathUnescape(x)
		segs = append(segs, x)
	}
	want := strings.Split(base+strings.SplitN(h.Path, "?", 2)[0], "/")
	if len(segs) != len(want) {
		bad("the path is %s, want %s%s", u.EscapedPath(), base, h.Path)
	}
	query := u.Query()
	hdr, _ := sent["headers"].(obj)
	text := func(v interface{}) string {
		if n, ok := v.(json.Number); ok {
			return n.String()
		}
		return fmt.Sprint(v)
	}
	expect := func(what string, p *sadl.HttpParamSpec, got interface{}, have bool, v interface{}) {
		if v == nil {
			if have {
				bad("%s is %v, want none", what, got)
			}
			return
		}
		s, _ := got.(string)
		if !have || !equal(w.normText(p.Type, s), w.normText(p.Type, text(v))) {
			bad("%s is %v, want %v", what, got, v)
		}
	}
	seen := obj{}
	bodies := 0
	for _, in := range h.Inputs {
		v := q.Request[in.Name]
		seen[in.Name] = v
		if v == nil && in.Default != nil {
			seen[in.Name] = defaultJSON(in.Default)
		}
		switch {
		case in.Path:
			found := false
			for i, seg := range want {
				if seg == "{"+in.Name+"}" {
					found = true
					expect("path parameter "+in.Name, in, segs[i], true, v)
					want[i] = segs[i]
				}
			}
			if !found {
				panic("no " + in.Name + " in " + h.Path)
			}
		case in.Query != "":
			l := query[in.Query]
			delete(query, in.Query)
			if len(l) > 1 {
				bad("query parameter %s is %v", in.Query, l)
			}
			expect("query parameter "+in.Query, in, strings.Join(l, ""), len(l) > 0, v)
		case in.Header != "":
			x, have := hdr[in.Header]
			expect("header "+in.Header, in, x, have, v)
		default:
			bodies++
			x, _ := sent["body"].(string)
			got := parse(c, x)
			if !equal(w.norm(&in.TypeSpec, got), w.norm(&in.TypeSpec, tree(v))) {
				bad("the entity is %s, want %s", x, jsonText(v))
			}
		}
	}
	if !equal(segs, want) {
		bad("the path is %s, want %s%s", u.EscapedPath(), base, h.Path)
	}
	if len(query) > 0 {
		bad("unexpected query parameters %v", query)
	}
	// what the implementation sees
	if r["handler"] != q.Action {
		bad("the implementation of %v was called", r["handler"])
	}
	req := &sadl.TypeSpec{Type: "Struct"}
	for _, in := range h.Inputs {
		f := in.StructFieldDef
		req.Fields = append(req.Fields, &f)
	}
	if got, want := w.norm(req, r["request"]), w.norm(req, tree(seen)); !equal(got, want) {
		bad("the implementation sees the request %s, want %s", jsonText(got), jsonText(want))
	}
	// the response on the wire
	rec := r["received"].(obj)
	if st, _ := strconv.Atoi(fmt.Sprint(rec["status"])); st != q.Status {
		bad("the status is %v, want %d", rec["status"], q.Status)
	}
	switch q.Throw {
	case "":
		outs := []*sadl.HttpParamSpec{}
		if h.Expected != nil {
			outs = h.Expected.Outputs
		}
		res := &sadl.TypeSpec{Type: "Struct"}
		rh, _ := rec["headers"].(obj)
		for _, out := range outs {
			f := out.StructFieldDef
			res.Fields = append(res.Fields, &f)
			v := q.Reply[out.Name]
			if out.Header != "" {
				x, have := rh[out.Header]
				expect("response header "+out.Header, out, x, have && x != nil, v)
			} else {
				x, _ := rec["body"].(string)
				if !equal(w.norm(&out.TypeSpec, parse(c, x)), w.norm(&out.TypeSpec, tree(v))) {
					bad("the entity of the response is %s, want %s", x, jsonText(v))
				}
			}
		}
		if r["outcome"] != "reply" {
			bad("the client throws %v: %v\n%v", r["outcome"], r["message"], r["trace"])
		}
		if len(outs) > 0 {
			if got, want := w.norm(res, r["reply"]), w.norm(res, tree(q.Reply)); !equal(got, want) {
				bad("the client returns %s, want %s", jsonText(got), jsonText(want))
			}
		}
	case "?":
		if r["outcome"] == "reply" {
			bad("the client returns a reply when the implementation fails")
		}
	default:
		ts := &sadl.TypeSpec{Type: q.Throw}
		x, _ := rec["body"].(string)
		if !hasEntity(int32(q.Status)) {
			if x != "" {
				bad("the response with status %d has the entity %s", q.Status, x)
			}
		} else if !equal(w.norm(ts, parse(c, x)), w.norm(ts, tree(q.Error))) {
			bad("the entity of the response is %s, want %s", x, jsonText(q.Error))
		}
		class := m.s.model + "." + upper(q.Throw)
		if m.s.sexc {
			if r["entity"] != class {
				bad("the entity of the exception is a %v, want a %s", r["entity"], class)
			}
			class = m.s.model + ".ServiceException"
		}
		if r["outcome"] != class {
			bad("the client throws %v, want %s: %v", r["outcome"], class, r["message"])
		}
		if !hasEntity(int32(q.Status)) {
			return // nothing came with it
		}
		if got, want := w.norm(ts, r["reply"]), w.norm(ts, tree(q.Error)); !equal(got, want) {
			bad("the exception is %s, want %s", jsonText(got), jsonText(want))
		}
	}
}
