package oas

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"
	"github.com/ghodss/yaml"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
	"verif/harness/sval"
)

func TestMain(m *testing.M) { pbt.Main(m) }

type dict = map[string]interface{}

var oasKinds = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "Timestamp", "UUID", "Array", "Map", "Struct", "Enum", "Union"}

func exportOptions() sgen.Options {
	return sgen.Options{
		Kinds: oasKinds, InlineKinds: []string{"Array", "Map", "Enum", "UnitValue", "Struct"},
		FieldAny: true, FieldOpts: true, Constraints: true, Comments: true, LongComments: true, Annotations: true,
		MaxTypes: 7, MaxFields: 5, UnionBase: true, UnionNamed: true, Http: 4, Base: true, Resource: true,
	}
}

// finish fixes up what the generated schema needs to be one the language allows.
func genSchema(c *pbt.C, o sgen.Options) (*sadl.Schema, *sadl.Model) {
	sc := sgen.New(c.T, o)
	for _, td := range sc.Types {
		if td.Type == "Array" && sgen.Bool(c.T, "untyped", 6) {
			td.Items = "Any"
		}
	}
	for _, h := range sc.Http {
		if sgen.Bool(c.T, "tags", 25) {
			if h.Annotations == nil {
				h.Annotations = map[string]string{}
			}
			h.Annotations["x_tags"] = sgen.Pick(c.T, "tagtext", []string{"one", "one,two", "a b,c,d"})
		}
		for _, in := range h.Inputs {
			if in.Query != "" && sgen.Bool(c.T, "qreq", 30) {
				in.Required = true
			}
			if in.Query != "" && in.Type == "String" && sgen.Bool(c.T, "qvals", 30) {
				in.Values = []string{"asc", "desc", "not sorted"}
			}
			if in.Query != "" && in.Type == "Int32" && sgen.Bool(c.T, "qmin", 30) {
				in.Min, in.Max = sgen.DecInt(-1), sgen.DecInt(rapid.Int64Range(0, 500).Draw(c.T, "qmax"))
			}
			if in.Query != "" && sgen.Bool(c.T, "qarr", 15) {
				in.TypeSpec = sadl.TypeSpec{Type: "Array", Items: "String"}
			}
		}
		if len(h.Exceptions) > 0 && sgen.Bool(c.T, "defexc", 25) {
			h.Exceptions[0].Status = 0
		}
		if sgen.Bool(c.T, "baseexc", 10) {
			h.Exceptions = append(h.Exceptions, &sadl.HttpExceptionSpec{Type: "String", Status: 418})
		}
		if sgen.Bool(c.T, "voidexc", 10) {
			h.Exceptions = append(h.Exceptions, &sadl.HttpExceptionSpec{Status: 410, Comment: "gone"})
		}
	}
	if sgen.Bool(c.T, "server", 20) {
		annotate(sc, "x_server", "https://api.example.com/v3")
	}
	if sgen.Bool(c.T, "license", 20) {
		annotate(sc, "x_license_name", "Apache 2.0")
		if sgen.Bool(c.T, "licurl", 50) {
			annotate(sc, "x_license_url", "https://example.com/LICENSE")
		}
	}
	m, err := sadl.NewModel(sc)
	if err != nil {
		c.Fatalf("the generated schema is refused: %v", err)
	}
	return sc, m
}

func annotate(sc *sadl.Schema, k, v string) {
	if sc.Annotations == nil {
		sc.Annotations = map[string]string{}
	}
	sc.Annotations[k] = v
}

func export(c *pbt.C, m *sadl.Model) (dict, error) {
	var doc *openapi.Model
	var err error
	pbt.NoPanic(c, "the OpenAPI export", func() {
		doc, err = openapi.NewGenerator(m, sadl.NewData()).ExportToOAS3()
	})
	if err != nil {
		return nil, err
	}
	return decode(c, sadl.Pretty(doc)), nil
}

func decode(c *pbt.C, text string) dict {
	var d dict
	if err := json.Unmarshal([]byte(text), &d); err != nil {
		c.Fatalf("the document is not JSON: %v\n%s", err, text)
	}
	return d
}

func sub(d dict, keys ...string) dict {
	for _, k := range keys {
		x, _ := d[k].(dict)
		d = x
	}
	return d
}

func text(d dict, k string) string {
	s, _ := d[k].(string)
	return s
}

func list(d dict, k string) []interface{} {
	l, _ := d[k].([]interface{})
	return l
}

// matcher decides whether an OpenAPI schema describes the values of a SADL type.
type matcher struct {
	doc   dict
	types map[string]*sadl.TypeDef
}

func newMatcher(doc dict, sc *sadl.Schema) *matcher {
	m := &matcher{doc: doc, types: map[string]*sadl.TypeDef{}}
	for _, td := range sc.Types {
		m.types[td.Name] = td
	}
	return m
}

const refPrefix = "#/components/schemas/"

func num(f float64) string { return fmt.Sprintf("%v", f) }

// match returns "" or why js does not describe ts. top: js is the definition itself.
func (m *matcher) match(ts *sadl.TypeSpec, js dict, depth int) string {
	if js == nil {
		return "there is no schema for a " + ts.Type
	}
	if depth > 12 {
		return "the schema does not end"
	}
	if ref := text(js, "$ref"); ref != "" {
		if !strings.HasPrefix(ref, refPrefix) {
			return fmt.Sprintf("the reference %q is not to a component", ref)
		}
		n := ref[len(refPrefix):]
		target := sub(m.doc, "components", "schemas", n)
		if target == nil {
			return fmt.Sprintf("the reference %q is dangling", ref)
		}
		if td := m.types[ts.Type]; td != nil {
			if n == ts.Type {
				return ""
			}
			return fmt.Sprintf("the reference is to %s instead of %s", n, ts.Type)
		}
		return m.match(ts, target, depth+1)
	}
	if td := m.types[ts.Type]; td != nil {
		return m.match(&td.TypeSpec, js, depth+1)
	}
	allowed := map[string]bool{"description": true, "example": true, "title": true}
	want := func(k string, v interface{}) string {
		allowed[k] = true
		got, ok := js[k]
		if !ok && v != nil {
			return fmt.Sprintf("%s has no %s, want %v", ts.Type, k, v)
		}
		if v == nil && ok {
			return fmt.Sprintf("%s has %s %v, want none", ts.Type, k, got)
		}
		if !reflect.DeepEqual(got, v) {
			return fmt.Sprintf("%s has %s %v, want %v", ts.Type, k, got, v)
		}
		return ""
	}
	var r []string
	add := func(s string) {
		if s != "" {
			r = append(r, s)
		}
	}
	size := func(lo, hi string) {
		allowed[lo], allowed[hi] = true, true
		if ts.MinSize != nil && *ts.MinSize > 0 {
			add(want(lo, float64(*ts.MinSize)))
		} else if v, ok := js[lo]; ok && v != float64(0) {
			r = append(r, fmt.Sprintf("%s has %s %v, want none", ts.Type, lo, v))
		}
		if ts.MaxSize != nil {
			add(want(hi, float64(*ts.MaxSize)))
		} else {
			add(want(hi, nil))
		}
	}
	limits := func() {
		for _, x := range []struct {
			k string
			d *sadl.Decimal
		}{{"minimum", ts.Min}, {"maximum", ts.Max}} {
			if x.d == nil {
				add(want(x.k, nil))
			} else {
				f, _ := sgen.Rat(x.d).Float64()
				add(want(x.k, f))
			}
		}
	}
	names := func(l []string) {
		allowed["enum"] = true
		var got []string
		for _, e := range list(js, "enum") {
			s, ok := e.(string)
			if !ok {
				r = append(r, fmt.Sprintf("enum member %v is not a string", e))
			}
			got = append(got, s)
		}
		if !sameSet(got, l) {
			r = append(r, fmt.Sprintf("%s has enum %q, want %q", ts.Type, got, l))
		}
	}
	item := func(name string, js dict) {
		if name == "" {
			name = "Any"
		}
		if s := m.match(&sadl.TypeSpec{Type: name}, js, depth+1); s != "" {
			r = append(r, "items: "+s)
		}
	}
	switch ts.Type {
	case "Any":
	case "Bool":
		add(want("type", "boolean"))
	case "Int8", "Int16", "Int32":
		add(want("type", "integer"))
		add(want("format", "int32"))
		limits()
	case "Int64":
		add(want("type", "integer"))
		add(want("format", "int64"))
		limits()
	case "Float32":
		add(want("type", "number"))
		add(want("format", "float"))
		limits()
	case "Float64":
		add(want("type", "number"))
		add(want("format", "double"))
		limits()
	case "Decimal":
		add(want("type", "number"))
		allowed["format"] = true
		if f := text(js, "format"); f != "" && f != "decimal" {
			r = append(r, "Decimal has format "+f)
		}
		limits()
	case "Bytes":
		add(want("type", "string"))
		add(want("format", "byte"))
		for _, k := range []string{"minLength", "maxLength"} {
			allowed[k] = true
		}
	case "Timestamp":
		add(want("type", "string"))
		add(want("format", "date-time"))
	case "UUID":
		add(want("type", "string"))
		allowed["format"] = true
		if f := text(js, "format"); f != "" && f != "uuid" {
			r = append(r, "UUID has format "+f)
		}
	case "UnitValue":
		add(want("type", "string"))
	case "String":
		add(want("type", "string"))
		if ts.Pattern != "" {
			add(want("pattern", ts.Pattern))
		}
		size("minLength", "maxLength")
		if len(ts.Values) > 0 {
			names(ts.Values)
		}
	case "Enum":
		add(want("type", "string"))
		var l []string
		for _, e := range ts.Elements {
			l = append(l, e.Symbol)
		}
		names(l)
	case "Array":
		add(want("type", "array"))
		size("minItems", "maxItems")
		allowed["items"] = true
		if _, ok := js["items"].(dict); !ok {
			r = append(r, "array without items")
		} else {
			item(ts.Items, sub(js, "items"))
		}
	case "Map":
		add(want("type", "object"))
		size("minProperties", "maxProperties")
		allowed["additionalProperties"] = true
		if _, ok := js["additionalProperties"].(dict); !ok {
			r = append(r, "map without additionalProperties")
		} else {
			item(ts.Items, sub(js, "additionalProperties"))
		}
	case "Struct":
		add(want("type", "object"))
		allowed["properties"], allowed["required"] = true, true
		props := sub(js, "properties")
		var req, names []string
		for _, fd := range ts.Fields {
			names = append(names, fd.Name)
			if fd.Required {
				req = append(req, fd.Name)
			}
			p, ok := props[fd.Name].(dict)
			if !ok {
				r = append(r, fmt.Sprintf("field %s is missing", fd.Name))
				continue
			}
			if s := m.match(&fd.TypeSpec, p, depth+1); s != "" {
				r = append(r, fmt.Sprintf("field %s: %s", fd.Name, s))
			}
			if p["$ref"] == nil && fd.Comment != "" && text(p, "description") != fd.Comment {
				r = append(r, fmt.Sprintf("field %s: description %q, want %q", fd.Name, text(p, "description"), fd.Comment))
			}
		}
		if len(props) != len(names) {
			r = append(r, fmt.Sprintf("properties are %v, want %v", keys(props), names))
		}
		var got []string
		for _, x := range list(js, "required") {
			got = append(got, fmt.Sprint(x))
		}
		if !sameSet(got, req) {
			r = append(r, fmt.Sprintf("required is %v, want %v", got, req))
		}
	case "Union":
		allowed["oneOf"] = true
		alts := list(js, "oneOf")
		if len(alts) != len(ts.Variants) {
			r = append(r, fmt.Sprintf("oneOf has %d alternatives, want %d", len(alts), len(ts.Variants)))
		} else {
			used := make([]bool, len(alts))
			for _, v := range ts.Variants {
				why := ""
				found := false
				for i, a := range alts {
					ad, _ := a.(dict)
					if s := m.match(&v.TypeSpec, ad, depth+1); used[i] || s != "" {
						why = s
						continue
					}
					used[i], found = true, true
					break
				}
				if !found {
					r = append(r, fmt.Sprintf("no alternative for variant %s: %s", v.Type, why))
				}
			}
		}
	default:
		r = append(r, "reference to undefined type "+ts.Type)
	}
	for k := range js {
		if !allowed[k] {
			r = append(r, fmt.Sprintf("%s has an unexpected %s: %v", ts.Type, k, js[k]))
		}
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}

func keys(d dict) []string {
	var r []string
	for k := range d {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sameSet(a, b []string) bool {
	x := append([]string(nil), a...)
	y := append([]string(nil), b...)
	sort.Strings(x)
	sort.Strings(y)
	return len(x) == len(y) && (len(x) == 0 || reflect.DeepEqual(x, y))
}

// ---------------------------------------------------------------- P16 types

func TestP16(t *testing.T) {
	pbt.Run(t, "types", pbt.Opt{Quick: 6000, Rule: "three or more types, one of them a struct, array, map or union"}, func(c *pbt.C) {
		o := exportOptions()
		o.Http = 0
		o.MinTypes = 1
		sc, m := genSchema(c, o)
		c.CaseJSON(sc)
		doc, err := export(c, m)
		c.Check(err == nil, "the export fails: %v", err)
		composite := false
		mt := newMatcher(doc, sc)
		schemas := sub(doc, "components", "schemas")
		for _, td := range sc.Types {
			js, _ := schemas[td.Name].(dict)
			c.Check(js != nil, "type %s is missing", td.Name)
			if s := mt.match(&td.TypeSpec, js, 0); s != "" {
				c.Fatalf("type %s: %s", td.Name, s)
			}
			if td.Comment != "" {
				c.Check(text(js, "description") == td.Comment, "type %s: description %q, want %q", td.Name, text(js, "description"), td.Comment)
			}
			composite = composite || sgen.Has([]string{"Struct", "Array", "Map", "Union"}, td.Type)
			c.Class("%s", td.Type)
		}
		c.Check(len(schemas) == len(sc.Types), "the document defines %v", keys(schemas))
		c.NonTrivial(composite && len(sc.Types) >= 3)
	})
	pbt.Run(t, "type-examples", pbt.Opt{Quick: 1500, Rule: "an example for a type"}, func(c *pbt.C) {
		o := exportOptions()
		o.Http = 0
		o.MinTypes = 1
		o.MaxTypes = 4
		sc, _ := genSchema(c, o)
		g := sval.NewG(c.T, sc).Rich()
		want := map[string]interface{}{}
		for _, td := range sc.Types {
			if sgen.Bool(c.T, "example?", 60) {
				v := plain(g.Value(&td.TypeSpec, 0))
				if v == nil {
					continue
				}
				want[td.Name] = v
				sc.Examples = append(sc.Examples, &sadl.ExampleDef{Target: td.Name, Example: v})
			}
		}
		m, err := sadl.NewModel(sc)
		c.Check(err == nil, "refused: %v", err)
		c.CaseJSON(sc)
		c.NonTrivial(len(want) > 0)
		doc, err := export(c, m)
		c.Check(err == nil, "the export fails: %v", err)
		for _, td := range sc.Types {
			got := sub(doc, "components", "schemas", td.Name)["example"]
			c.Check(reflect.DeepEqual(got, want[td.Name]) || empty(got) && empty(want[td.Name]), "example of %s is %v, want %v", td.Name, got, want[td.Name])
		}
	})
	pbt.Run(t, "other-types", pbt.Opt{Quick: 300, Rule: "every case"}, func(c *pbt.C) {
		o := exportOptions()
		o.Http = 0
		o.MinTypes, o.MaxTypes = 1, 2
		o.Kinds = []string{"Bytes", "UnitValue", "Any"}
		sc, m := genSchema(c, o)
		c.CaseJSON(sc)
		c.NonTrivial(true)
		doc, err := export(c, m)
		if err != nil {
			return // refused, which is fine: the format has nothing for these
		}
		mt := newMatcher(doc, sc)
		for _, td := range sc.Types {
			js, _ := sub(doc, "components", "schemas")[td.Name].(dict)
			c.Check(mt.match(&td.TypeSpec, js, 0) == "", "type %s: %s", td.Name, mt.match(&td.TypeSpec, js, 0))
		}
	})
}

func empty(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return true
	case string:
		return x == ""
	}
	return false
}

// plain turns a generated value into what decoding its JSON gives.
func plain(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var r interface{}
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	return r
}

// ---------------------------------------------------------------- P17 operations

func TestP17(t *testing.T) {
	pbt.Run(t, "operations", pbt.Opt{Quick: 5000, Rule: "two or more actions, one of them with parameters and exceptions"}, func(c *pbt.C) {
		o := exportOptions()
		o.MinTypes = 1
		o.MaxTypes = 4
		o.MaxFields = 2
		o.Http = 5
		sc, m := genSchema(c, o)
		if len(sc.Http) > 0 && sgen.Bool(c.T, "noexpected", 8) {
			sc.Http[0].Expected = nil
		}
		c.CaseJSON(sc)
		rich := false
		for _, h := range sc.Http {
			rich = rich || len(h.Inputs) > 0 && len(h.Exceptions) > 0
		}
		c.NonTrivial(rich && len(sc.Http) >= 2)
		doc, err := export(c, m)
		c.Check(err == nil, "the export fails: %v", err)
		checkOperations(c, sc, doc)
	})
	pbt.Run(t, "duplicate-routes", pbt.Opt{Quick: 300, Rule: "every case"}, func(c *pbt.C) {
		o := exportOptions()
		o.MinTypes, o.MaxTypes = 1, 2
		o.Http = 3
		sc, _ := genSchema(c, o)
		if len(sc.Http) == 0 {
			c.Skip()
		}
		h := *sc.Http[rapid.IntRange(0, len(sc.Http)-1).Draw(c.T, "dup")]
		h.Name += "Again"
		sc.Http = append(sc.Http, &h)
		c.CaseJSON(sc)
		c.NonTrivial(true)
		m, err := sadl.NewModel(sc)
		c.Check(err == nil, "refused: %v", err)
		_, err = export(c, m)
		c.Check(err != nil, "two actions share %s %s and one is lost without an error", h.Method, h.Path)
	})
	pbt.Run(t, "operation-examples", pbt.Opt{Quick: 2000, Rule: "an example with a value for a parameter or a body"}, func(c *pbt.C) {
		o := exportOptions()
		o.MinTypes, o.MaxTypes = 1, 3
		o.Http = 4
		sc, _ := genSchema(c, o)
		if len(sc.Http) == 0 {
			c.Skip()
		}
		g := sval.NewG(c.T, sc).Rich()
		// at most one unnamed and two named examples of the request and of the response of an action
		type want struct {
			ex   dict
			name string
		}
		requests, responses := map[string][]want{}, map[string][]want{}
		n := 0
		add := func(h *sadl.HttpDef, kind string, params []*sadl.HttpParamSpec, to map[string][]want) {
			for _, nm := range []string{"", "ex1", "other"} {
				if !sgen.Bool(c.T, "has-"+nm, 40) {
					continue
				}
				ex := dict{}
				for _, p := range params {
					if v := plain(g.Value(&p.TypeSpec, 1)); v != nil && sgen.Bool(c.T, "give", 80) {
						ex[p.Name] = v
						n++
					}
				}
				sc.Examples = append(sc.Examples, &sadl.ExampleDef{Target: sadl.Capitalize(h.Name) + kind, Name: nm, Example: ex})
				to[h.Name] = append(to[h.Name], want{ex, nm})
			}
		}
		for _, h := range sc.Http {
			if sgen.Bool(c.T, "reqs", 60) {
				add(h, "Request", h.Inputs, requests)
			}
			if h.Expected != nil && sgen.Bool(c.T, "resps", 60) {
				add(h, "Response", h.Expected.Outputs, responses)
			}
		}
		c.CaseJSON(sc)
		c.NonTrivial(n > 0)
		m, err := sadl.NewModel(sc)
		c.Check(err == nil, "refused: %v", err)
		doc, err := export(c, m)
		c.Check(err == nil, "the export fails: %v", err)
		check := func(what string, d dict, l []want, param string) {
			named := 0
			unnamed := interface{}(nil)
			for _, w := range l {
				v, ok := w.ex[param]
				if !ok {
					continue
				}
				if w.name == "" {
					unnamed = v
					continue
				}
				named++
				e := sub(d, "examples", w.name)
				c.Check(e != nil, "%s: example %s is lost", what, w.name)
				c.Check(reflect.DeepEqual(e["value"], v) || empty(v) && empty(e["value"]), "%s: example %s is %v, want %v", what, w.name, e["value"], v)
			}
			got := d["example"]
			c.Check(reflect.DeepEqual(got, unnamed) || empty(got) && empty(unnamed), "%s: example is %v, want %v", what, got, unnamed)
			c.Check(len(sub(d, "examples")) == named, "%s: %d examples, want %d", what, len(sub(d, "examples")), named)
		}
		for _, h := range sc.Http {
			op := findOp(sc, doc, h)
			c.Check(op != nil, "operation %s is missing", h.Name)
			for _, in := range h.Inputs {
				where, wire := "query", in.Query
				if in.Path {
					where, wire = "path", in.Name
				} else if in.Header != "" {
					where, wire = "header", in.Header
				}
				if wire == "" {
					check(h.Name+" body", sub(op, "requestBody", "content", "application/json"), requests[h.Name], in.Name)
					continue
				}
				for _, p := range list(op, "parameters") {
					if pd := p.(dict); text(pd, "in") == where && text(pd, "name") == wire {
						check(h.Name+" "+where+" "+wire, pd, requests[h.Name], in.Name)
					}
				}
			}
			if h.Expected == nil {
				continue
			}
			for _, out := range h.Expected.Outputs {
				if out.Header == "" {
					check(h.Name+" response body", sub(op, "responses", fmt.Sprint(h.Expected.Status), "content", "application/json"), responses[h.Name], out.Name)
				}
			}
		}
	})
}

func barePath(sc *sadl.Schema, h *sadl.HttpDef) string {
	p := sc.Base + h.Path
	if i := strings.Index(p, "?"); i >= 0 {
		p = p[:i]
	}
	return p
}

func findOp(sc *sadl.Schema, doc dict, h *sadl.HttpDef) dict {
	return sub(doc, "paths", barePath(sc, h), strings.ToLower(h.Method))
}

func checkOperations(c *pbt.C, sc *sadl.Schema, doc dict) {
	mt := newMatcher(doc, sc)
	nops := 0
	for p, pi := range sub(doc, "paths") {
		pd, _ := pi.(dict)
		c.Check(len(pd) > 0, "path %s has no operation", p)
		for k := range pd {
			if sgen.Has([]string{"get", "put", "post", "delete", "patch", "head", "options"}, k) {
				nops++
			}
		}
	}
	c.Check(nops == len(sc.Http), "the document has %d operations, want %d", nops, len(sc.Http))
	for _, h := range sc.Http {
		op := findOp(sc, doc, h)
		c.Check(op != nil, "operation %s (%s %s) is missing", h.Name, h.Method, h.Path)
		at := h.Name
		c.Check(text(op, "operationId") == h.Name, "%s: operationId %q", at, text(op, "operationId"))
		c.Check(text(op, "summary") == h.Comment, "%s: summary %q, want %q", at, text(op, "summary"), h.Comment)
		var tags, wantTags []string
		for _, x := range list(op, "tags") {
			tags = append(tags, fmt.Sprint(x))
		}
		if h.Resource != "" {
			wantTags = append(wantTags, h.Resource)
		}
		if s := h.Annotations["x_tags"]; s != "" {
			wantTags = append(wantTags, strings.Split(s, ",")...)
		}
		c.Check(len(tags) == len(wantTags) && (len(tags) == 0 || reflect.DeepEqual(tags, wantTags)), "%s: tags %q, want %q", at, tags, wantTags)
		params := map[string]dict{}
		for _, x := range list(op, "parameters") {
			pd, _ := x.(dict)
			k := text(pd, "in") + " " + text(pd, "name")
			c.Check(params[k] == nil, "%s: parameter %s occurs twice", at, k)
			params[k] = pd
		}
		n := 0
		body := dict(nil)
		for _, in := range h.Inputs {
			k := ""
			req := in.Required
			switch {
			case in.Path:
				k = "path " + in.Name
				req = true
			case in.Query != "":
				k = "query " + in.Query
			case in.Header != "":
				k = "header " + in.Header
			}
			if k == "" {
				body = sub(op, "requestBody")
				c.Check(body != nil, "%s: the body %s is missing", at, in.Name)
				c.Check(body["required"] == true, "%s: the body is not required", at)
				c.Check(text(body, "description") == in.Comment, "%s: body description %q, want %q", at, text(body, "description"), in.Comment)
				s := mt.match(&in.TypeSpec, sub(body, "content", "application/json", "schema"), 0)
				c.Check(s == "", "%s: body: %s", at, s)
				continue
			}
			n++
			pd := params[k]
			c.Check(pd != nil, "%s: parameter %q is missing", at, k)
			r, _ := pd["required"].(bool)
			c.Check(r == req, "%s: parameter %q: required is %v, want %v", at, k, r, req)
			c.Check(text(pd, "description") == in.Comment, "%s: parameter %q: description %q, want %q", at, k, text(pd, "description"), in.Comment)
			s := mt.match(&in.TypeSpec, sub(pd, "schema"), 0)
			c.Check(s == "", "%s: parameter %q: %s", at, k, s)
		}
		c.Check(n == len(params), "%s: %d parameters, want %d", at, len(params), n)
		c.Check(body != nil || op["requestBody"] == nil, "%s: unexpected request body", at)
		responses := sub(op, "responses")
		exp := h.Expected
		if exp == nil {
			exp = &sadl.HttpExpectedSpec{Status: 200}
		}
		key := fmt.Sprint(exp.Status)
		resp := sub(responses, key)
		c.Check(resp != nil, "%s: no %s response among %v", at, key, keys(responses))
		if exp.Comment != "" {
			c.Check(text(resp, "description") == exp.Comment, "%s: response description %q, want %q", at, text(resp, "description"), exp.Comment)
		} else {
			c.Check(text(resp, "description") != "", "%s: response without description", at)
		}
		nh := 0
		out := false
		for _, o := range exp.Outputs {
			if o.Header == "" {
				out = true
				s := mt.match(&o.TypeSpec, sub(resp, "content", "application/json", "schema"), 0)
				c.Check(s == "", "%s: response body: %s", at, s)
				continue
			}
			nh++
			hd := sub(resp, "headers", o.Header)
			c.Check(hd != nil, "%s: response header %s is missing", at, o.Header)
			c.Check(text(hd, "description") == o.Comment, "%s: header %s: description %q, want %q", at, o.Header, text(hd, "description"), o.Comment)
			s := mt.match(&o.TypeSpec, sub(hd, "schema"), 0)
			c.Check(s == "", "%s: response header %s: %s", at, o.Header, s)
		}
		c.Check(nh == len(sub(resp, "headers")), "%s: response headers %v, want %d", at, keys(sub(resp, "headers")), nh)
		c.Check(out || len(sub(resp, "content")) == 0, "%s: response with an unexpected body", at)
		for _, e := range h.Exceptions {
			key := fmt.Sprint(e.Status)
			if e.Status == 0 {
				key = "default"
			}
			r := sub(responses, key)
			c.Check(r != nil, "%s: no %s response among %v", at, key, keys(responses))
			if e.Comment != "" {
				c.Check(text(r, "description") == e.Comment, "%s: %s response description %q, want %q", at, key, text(r, "description"), e.Comment)
			} else {
				c.Check(text(r, "description") != "", "%s: %s response without description", at, key)
			}
			if e.Type == "" {
				c.Check(len(sub(r, "content")) == 0, "%s: %s response with an unexpected body", at, key)
				continue
			}
			s := mt.match(&sadl.TypeSpec{Type: e.Type}, sub(r, "content", "application/json", "schema"), 0)
			c.Check(s == "", "%s: %s response: %s", at, key, s)
		}
		c.Check(len(responses) == 1+len(h.Exceptions), "%s: responses %v", at, keys(responses))
	}
}

// ---------------------------------------------------------------- P18 document integrity

func TestP18(t *testing.T) {
	pbt.Run(t, "whole-document", pbt.Opt{Quick: 2500, Rule: "types and actions, with references between them"}, func(c *pbt.C) {
		o := exportOptions()
		sc, m := genSchema(c, o)
		before := pbt.JSON(sc)
		c.Case("%s", before)
		var doc *openapi.Model
		var err error
		pbt.NoPanic(c, "the OpenAPI export", func() { doc, err = openapi.NewGenerator(m, sadl.NewData()).ExportToOAS3() })
		c.Check(err == nil, "the export fails: %v", err)
		js := sadl.Pretty(doc)
		d := decode(c, js)
		refs := 0
		walkRefs(d, func(ref string) {
			refs++
			c.Check(strings.HasPrefix(ref, refPrefix) && sub(d, "components", "schemas", strings.TrimPrefix(ref, refPrefix)) != nil, "the reference %q does not resolve", ref)
		})
		c.NonTrivial(refs > 0 && len(sc.Http) > 0)
		c.Check(strings.HasPrefix(text(d, "openapi"), "3.0."), "openapi version is %q", text(d, "openapi"))
		info := sub(d, "info")
		c.Check(text(info, "title") == sc.Name, "title %q, want %q", text(info, "title"), sc.Name)
		c.Check(text(info, "description") == sc.Comment, "description %q, want %q", text(info, "description"), sc.Comment)
		if sc.Version != "" {
			c.Check(text(info, "version") == sc.Version, "version %q, want %q", text(info, "version"), sc.Version)
		} else {
			c.Check(text(info, "version") != "", "no version")
		}
		c.Check(text(sub(info, "license"), "name") == sc.Annotations["x_license_name"], "license name %q", text(sub(info, "license"), "name"))
		c.Check(text(sub(info, "license"), "url") == sc.Annotations["x_license_url"], "license url %q", text(sub(info, "license"), "url"))
		servers := list(d, "servers")
		if s := sc.Annotations["x_server"]; s != "" {
			found := false
			for _, x := range servers {
				found = found || text(x.(dict), "url") == s
			}
			c.Check(found, "server %q is missing from %v", s, servers)
		}
		// exporting again gives the same text, leaves the model alone, and is what the command prints
		doc2, err := openapi.NewGenerator(m, sadl.NewData()).ExportToOAS3()
		c.Check(err == nil && sadl.Pretty(doc2) == js, "a second export differs (%v)", err)
		c.Check(pbt.JSON(sc) == before, "exporting changes the model")
		out := pbt.Capture(func() { err = openapi.Export(m, sadl.NewData()) })
		c.Check(err == nil && strings.TrimSpace(out) == strings.TrimSpace(js), "the printed document differs (%v)", err)
		// the library's own reader accepts it, in both notations, without loss
		dir, done := pbt.Scratch()
		defer done()
		y, err := yaml.JSONToYAML([]byte(js))
		c.Check(err == nil, "yaml: %v", err)
		for name, data := range map[string]string{"x.json": js, "x.yaml": string(y)} {
			p := filepath.Join(dir, name)
			os.WriteFile(p, []byte(data), 0644)
			back, err := openapi.Load(p)
			c.Check(err == nil, "the exported document cannot be loaded as %s: %v", name, err)
			if d2 := decode(c, sadl.Pretty(back)); !reflect.DeepEqual(d2, d) {
				c.Fatalf("the exported document changes when loaded as %s: %s", name, diff("", d, d2))
			}
			c.Check(openapi.IsValidFile(p), "the exported document is not recognised")
		}
	})
	pbt.Run(t, "together", pbt.Opt{Quick: 60, Rule: "every case"}, func(c *pbt.C) {
		c.NonTrivial(true)
		var ops []func() string
		var all []string
		for i := 0; i < 6; i++ {
			sc, m := genSchema(c, exportOptions())
			all = append(all, pbt.JSON(sc))
			ops = append(ops, func() string {
				doc, err := openapi.NewGenerator(m, sadl.NewData()).ExportToOAS3()
				if err != nil {
					return err.Error()
				}
				return sadl.Pretty(doc)
			})
		}
		c.Case("%s", strings.Join(all, "\n"))
		pbt.Together(c, "the OpenAPI export", ops)
	})
	pbt.Run(t, "other-elements", pbt.Opt{Quick: 1000, Rule: "two or more elements of OpenAPI that the export does not use"}, func(c *pbt.C) {
		_, m := genSchema(c, exportOptions())
		doc, err := openapi.NewGenerator(m, sadl.NewData()).ExportToOAS3()
		c.Check(err == nil, "the export fails: %v", err)
		d := decode(c, sadl.Pretty(doc))
		n := 0
		maybe := func(what string, at dict, k string, v interface{}) {
			if at != nil && sgen.Bool(c.T, what, 30) {
				at[k] = v
				n++
				c.Class("%s", what)
			}
		}
		word := func() string {
			return sgen.Pick(c.T, "word", []string{"alpha", "two words", "é", "http://localhost/x?y=1&z=<2>"})
		}
		var flows dict = dict{"implicit": dict{"authorizationUrl": word(), "scopes": dict{"read": word()}}, "clientCredentials": dict{"tokenUrl": word(), "refreshUrl": word(), "scopes": dict{}}}
		info, _ := d["info"].(dict)
		maybe("terms", info, "termsOfService", word())
		maybe("contact", info, "contact", dict{"name": word(), "url": word(), "email": "a@b.c"})
		maybe("license", info, "license", dict{"name": word(), "url": word()})
		maybe("servers", d, "servers", []interface{}{dict{"url": word(), "description": word(), "variables": dict{"port": dict{"enum": []interface{}{"1", "2"}, "default": "1", "description": word()}}}, dict{"url": word()}})
		maybe("security", d, "security", []interface{}{dict{"key": []interface{}{}}, dict{"oauth": []interface{}{"read", "write"}}})
		maybe("docs", d, "externalDocs", dict{"description": word(), "url": word()})
		comp, _ := d["components"].(dict)
		maybe("schemes", comp, "securitySchemes", dict{"key": dict{"type": "apiKey", "name": word(), "in": "header", "description": word()}, "http": dict{"type": "http", "scheme": "bearer", "bearerFormat": word()}, "oauth": dict{"type": "oauth2", "flows": flows}})
		for _, k := range pbt.SortedKeys(comp) {
			if l, ok := comp["schemas"].(dict); ok && k == "schemas" {
				for _, name := range pbt.SortedKeys(l) {
					x, _ := l[name].(dict)
					maybe("readOnly", x, "readOnly", true)
					maybe("nullable", x, "nullable", true)
					maybe("unique", x, "uniqueItems", true)
					maybe("exclusive", x, "exclusiveMaximum", true)
					maybe("multiple", x, "multipleOf", json.Number("5"))
					maybe("default", x, "default", word())
					maybe("schema docs", x, "externalDocs", dict{"url": word()})
				}
			}
		}
		paths, _ := d["paths"].(dict)
		for _, p := range pbt.SortedKeys(paths) {
			item := paths[p].(dict)
			maybe("path summary", item, "summary", word())
			maybe("path description", item, "description", word())
			maybe("path servers", item, "servers", []interface{}{dict{"url": word()}})
			for _, k := range pbt.SortedKeys(item) {
				op, ok := item[k].(dict)
				if !ok {
					continue
				}
				maybe("deprecated", op, "deprecated", true)
				maybe("op security", op, "security", []interface{}{dict{"key": []interface{}{}}})
				maybe("op servers", op, "servers", []interface{}{dict{"url": word(), "description": word()}})
				for _, x := range list(op, "parameters") {
					maybe("style", x.(dict), "style", "form")
					maybe("explode", x.(dict), "explode", rapid.Bool().Draw(c.T, "exploded"))
					maybe("allow empty", x.(dict), "allowEmptyValue", true)
					maybe("old parameter", x.(dict), "deprecated", true)
					maybe("example", x.(dict), "example", word())
				}
			}
		}
		js := sadl.Pretty(d)
		c.Case("%s", js)
		c.NonTrivial(n >= 2)
		d = decode(c, js)
		dir, done := pbt.Scratch()
		defer done()
		y, err := yaml.JSONToYAML([]byte(js))
		c.Check(err == nil, "yaml: %v", err)
		for name, data := range map[string]string{"x.json": js, "x.yaml": string(y)} {
			p := filepath.Join(dir, name)
			os.WriteFile(p, []byte(data), 0644)
			back, err := openapi.Load(p)
			c.Check(err == nil, "the document cannot be loaded as %s: %v", name, err)
			if d2 := decode(c, sadl.Pretty(back)); !reflect.DeepEqual(d2, d) {
				c.Fatalf("the document changes when loaded as %s: %s", name, diff("", d, d2))
			}
		}
	})
	pbt.Run(t, "bad-documents", pbt.Opt{Quick: 1000, Rule: "every case"}, func(c *pbt.C) {
		o := exportOptions()
		o.MaxTypes, o.Http = 2, 2
		_, m := genSchema(c, o)
		d, err := export(c, m)
		c.Check(err == nil, "the export fails: %v", err)
		data := ""
		kind := sgen.Pick(c.T, "damage", []string{"openapi", "info", "paths", "title", "version", "slash", "license", "notjson", "swagger", "list"})
		switch kind {
		case "openapi", "info", "paths":
			delete(d, kind)
		case "title", "version":
			delete(sub(d, "info"), kind)
		case "slash":
			sub(d, "paths")["items"] = dict{"get": dict{"operationId": "x"}}
		case "license":
			sub(d, "info")["license"] = dict{"url": "http://x"}
		case "swagger":
			delete(d, "openapi")
			d["swagger"] = "2.0"
		case "notjson":
			data = pbt.JSON(d)
			data = data[:rapid.IntRange(0, len(data)-1).Draw(c.T, "cut")]
		case "list":
			data = "[" + pbt.JSON(d) + "]"
		}
		if data == "" && kind != "notjson" {
			data = pbt.JSON(d)
		}
		c.Case("%s: %s", kind, data)
		c.NonTrivial(true)
		dir, done := pbt.Scratch()
		defer done()
		p := filepath.Join(dir, "x.json")
		os.WriteFile(p, []byte(data), 0644)
		_, err = openapi.Load(p)
		c.Check(err != nil, "the damaged document is accepted")
		c.Check(!openapi.IsValidFile(p), "the damaged document is recognised")
		_, err = openapi.Import([]string{p}, sadl.NewData())
		c.Check(err != nil, "the damaged document is imported")
		_, err = openapi.Load(filepath.Join(dir, "missing.json"))
		c.Check(err != nil, "a missing file is accepted")
	})
}

func walkRefs(v interface{}, f func(string)) {
	switch x := v.(type) {
	case dict:
		for k, e := range x {
			if s, ok := e.(string); ok && k == "$ref" {
				f(s)
				continue
			}
			if k == "example" || k == "examples" {
				continue
			}
			walkRefs(e, f)
		}
	case []interface{}:
		for _, e := range x {
			walkRefs(e, f)
		}
	}
}

// diff describes the first difference between two decoded documents.
func diff(path string, a, b interface{}) string {
	if reflect.DeepEqual(a, b) {
		return ""
	}
	da, oka := a.(dict)
	db, okb := b.(dict)
	if oka && okb {
		for _, k := range keys(da) {
			if s := diff(path+"/"+k, da[k], db[k]); s != "" {
				return s
			}
		}
		for _, k := range keys(db) {
			if _, ok := da[k]; !ok {
				return fmt.Sprintf("%s/%s: nothing against %s", path, k, pbt.JSON(db[k]))
			}
		}
	}
	la, oka := a.([]interface{})
	lb, okb := b.([]interface{})
	if oka && okb && len(la) == len(lb) {
		for i := range la {
			if s := diff(fmt.Sprintf("%s/%d", path, i), la[i], lb[i]); s != "" {
				return s
			}
		}
	}
	return fmt.Sprintf("%s: %s against %s", path, pbt.JSON(a), pbt.JSON(b))
}
