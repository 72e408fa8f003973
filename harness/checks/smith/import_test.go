package smith

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/smithy"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
)

// entries is a JSON object that keeps its order.
type entry struct {
	key string
	val interface{}
}
type entries []entry

func (l entries) MarshalJSON() ([]byte, error) {
	var b bytes.Buffer
	b.WriteByte('{')
	for i, e := range l {
		if i > 0 {
			b.WriteByte(',')
		}
		k, _ := json.Marshal(e.key)
		v, err := json.Marshal(e.val)
		if err != nil {
			return nil, err
		}
		b.Write(k)
		b.WriteByte(':')
		b.Write(v)
	}
	b.WriteByte('}')
	return b.Bytes(), nil
}

// asts draws Smithy models together with the schema each describes.
type asts struct {
	t      *rapid.T
	ns     string
	shapes entries
	sc     *sadl.Schema
	kind   map[string]string // of the named shapes
	names  []string
	errors []string // names of the error structures
	custom []string // names of the traits it defines
	status map[string]int32
	docs   map[string]string // of the error structures
}

var simple = []string{"Boolean", "Byte", "Short", "Integer", "Long", "Float", "Double", "BigInteger", "BigDecimal", "String", "Blob", "Timestamp", "Document"}

var fromPrelude = map[string]string{"Boolean": "Bool", "Byte": "Int8", "Short": "Int16", "Integer": "Int32", "Long": "Int64",
	"Float": "Float32", "Double": "Float64", "BigInteger": "Decimal", "BigDecimal": "Decimal", "String": "String", "Blob": "Bytes",
	"Timestamp": "Timestamp", "Document": "Struct", "PrimitiveBoolean": "Bool", "PrimitiveInteger": "Int32", "PrimitiveLong": "Int64", "Unit": "Struct"}

func (g *asts) bool(label string, pct int) bool { return sgen.Bool(g.t, label, pct) }
func (g *asts) pick(label string, l ...string) string {
	return sgen.Pick(g.t, label, l)
}

// target draws a reference: what Smithy calls it, and what SADL does.
func (g *asts) target(kinds ...string) (id, typ string) {
	var l []string
	for _, n := range g.names {
		if len(kinds) == 0 || sgen.Has(kinds, g.kind[n]) {
			l = append(l, n)
		}
	}
	if len(l) > 0 && g.bool("named", 40) {
		n := sgen.Pick(g.t, "name", l)
		return g.ns + "#" + n, n
	}
	var p []string
	for _, s := range simple {
		if len(kinds) == 0 || sgen.Has(kinds, strings.ToLower(s)) {
			p = append(p, s)
		}
	}
	if len(kinds) == 0 && g.bool("primitive", 10) {
		p = []string{"PrimitiveBoolean", "PrimitiveInteger", "PrimitiveLong"}
	}
	s := sgen.Pick(g.t, "simple", p)
	return "smithy.api#" + s, fromPrelude[s]
}

var scalars = []string{"string", "integer", "long", "boolean", "timestamp", "short", "double", "enum"}

// traits collects an object of traits.
type traitList struct{ l entries }

func (t *traitList) add(name string, v interface{}) {
	t.l = append(t.l, entry{"smithy.api#" + name, v})
}

func (g *asts) doc(t *traitList) string {
	if !g.bool("doc", 35) {
		return ""
	}
	s := g.pick("text", "A comment", "Two\nlines", "with \"quotes\" & é", "a {b} <c>")
	if s == "Two\nlines" && g.bool("indented", 50) {
		t.add("documentation", "Two \n    lines")
		return s
	}
	t.add("documentation", s)
	return s
}

func marker(t *rapid.T) interface{} {
	if rapid.Bool().Draw(t, "true") {
		return true // what this library writes
	}
	return obj{} // the Smithy standard
}

// notes draws traits that become annotations.
func (g *asts) notes(t *traitList) map[string]string {
	var m map[string]string
	set := func(k, v string) {
		if m == nil {
			m = map[string]string{}
		}
		m[k] = v
	}
	switch rapid.IntRange(0, 11).Draw(g.t, "note") {
	case 0:
		t.add("tags", []string{"a", "b c"})
		set("x_tags", "a,b c")
	case 1:
		t.add("deprecated", obj{"since": "1.2", "message": "gone"})
		set("x_deprecated", "true")
		set("x_deprecated_message", "gone")
		set("x_deprecated_since", "1.2")
	case 2:
		t.add("deprecated", obj{})
		set("x_deprecated", "true")
	case 3:
		t.add("sensitive", marker(g.t))
	case 4:
		t.add("internal", marker(g.t))
	case 5:
		// traits of its own, and unknown ones, have no place in SADL
		if len(g.custom) > 0 {
			t.l = append(t.l, entry{sgen.Pick(g.t, "custom", g.custom), rapid.SampledFrom([]interface{}{true, "text", 5, obj{"a": "b"}}).Draw(g.t, "applied")})
		} else {
			t.l = append(t.l, entry{g.pick("unknown", "smithy.api#unstable", "other.ns#thing", "aws.api#arn"), obj{"a": "b"}})
		}
	}
	return m
}

func i64(n int64) *int64 { return &n }

func (g *asts) length(t *traitList, ts *sadl.TypeSpec, pct int) {
	if !g.bool("length", pct) {
		return
	}
	m := obj{}
	if rapid.Bool().Draw(g.t, "min?") {
		n := rapid.SampledFrom([]int64{0, 1, 5, 1 << 31}).Draw(g.t, "min")
		m["min"], ts.MinSize = n, i64(n)
	}
	if len(m) == 0 || rapid.Bool().Draw(g.t, "max?") {
		n := rapid.SampledFrom([]int64{0, 5, 64, 1 << 40}).Draw(g.t, "max")
		if ts.MinSize != nil && *ts.MinSize > n {
			n = *ts.MinSize
		}
		m["max"], ts.MaxSize = n, i64(n)
	}
	t.add("length", m)
}

func (g *asts) rng(t *traitList, ts *sadl.TypeSpec, pct int) {
	if !g.bool("range", pct) {
		return
	}
	m := obj{}
	if rapid.Bool().Draw(g.t, "min?") {
		s := g.pick("min", "0", "-10", "1")
		m["min"], ts.Min = json.Number(s), sgen.Dec(s)
	}
	if len(m) == 0 || rapid.Bool().Draw(g.t, "max?") {
		s := g.pick("max", "1", "100", "2.5", "0")
		if strings.HasPrefix(ts.Type, "Int") && s == "2.5" {
			s = "2"
		}
		if s == "0" && ts.Min != nil {
			s = "1"
		}
		m["max"], ts.Max = json.Number(s), sgen.Dec(s)
	}
	t.add("range", m)
}

func (g *asts) member(target string, t traitList) entries {
	e := entries{{"target", target}}
	if len(t.l) > 0 {
		e = append(e, entry{"traits", t.l})
	}
	return e
}

func (g *asts) shape(name, typ string, t traitList, rest ...entry) {
	e := append(entries{{"type", typ}}, rest...)
	if len(t.l) > 0 {
		e = append(e, entry{"traits", t.l})
	}
	g.shapes = append(g.shapes, entry{g.ns + "#" + name, e})
}

var fieldNames = []string{"id", "name", "tags", "owner", "when", "size", "Mode", "x_1"}

func (g *asts) members(max int, f func(name string) entries) entries {
	var r entries
	off := rapid.IntRange(0, len(fieldNames)-1).Draw(g.t, "first")
	for i := rapid.IntRange(0, max).Draw(g.t, "members"); i > 0; i-- {
		n := fieldNames[(off+i)%len(fieldNames)]
		r = append(r, entry{n, f(n)})
	}
	return r
}

func (g *asts) field(td *sadl.TypeDef) func(name string) entries {
	return func(name string) entries {
		var t traitList
		fd := &sadl.StructFieldDef{Name: name, Comment: g.doc(&t)}
		id, typ := g.target()
		fd.Type = typ
		fd.Annotations = g.notes(&t)
		if g.bool("required", 40) {
			fd.Required = true
			t.add("required", marker(g.t))
		}
		if strings.HasPrefix(id, "smithy.api#") {
			switch typ {
			case "String", "Bytes":
				g.length(&t, &fd.TypeSpec, 30)
				if typ == "String" && g.bool("pattern", 20) {
					fd.Pattern = g.pick("re", "^[a-z]+$", "\\d{3}")
					t.add("pattern", fd.Pattern)
				}
			case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
				g.rng(&t, &fd.TypeSpec, 30)
			}
		}
		td.Fields = append(td.Fields, fd)
		return g.member(id, t)
	}
}

func (g *asts) define(name string) {
	td := &sadl.TypeDef{Name: name}
	kind := g.kind[name]
	var t traitList
	td.Comment = g.doc(&t)
	td.Annotations = g.notes(&t)
	note := func(k, v string) {
		if td.Annotations == nil {
			td.Annotations = map[string]string{}
		}
		td.Annotations[k] = v
	}
	var rest []entry
	switch kind {
	case "boolean":
		td.Type = "Bool"
	case "timestamp":
		td.Type = "Timestamp"
		if g.bool("format", 30) {
			t.add("timestampFormat", "date-time")
			note("x_timestampFormat", "date-time")
		}
	case "document":
		td.Type = "Struct"
	case "byte", "short", "integer", "long", "float", "double", "bigInteger", "bigDecimal":
		td.Type = fromPrelude[strings.ToUpper(kind[:1])+kind[1:]]
		if kind == "bigInteger" {
			note("x_integer", "true")
		}
		g.rng(&t, &td.TypeSpec, 50)
	case "string":
		td.Type = "String"
		switch rapid.IntRange(0, 4).Draw(g.t, "string") {
		case 0:
			td.Type = "UUID"
			t.add("pattern", uuidPattern)
		case 1:
			td.Pattern = g.pick("re", "^[a-z]+$", "\\d{3}", "a|\"b\"")
			t.add("pattern", td.Pattern)
		case 2:
			var l []interface{}
			for i := rapid.IntRange(1, 3).Draw(g.t, "values"); i > 0; i-- {
				v := fmt.Sprintf("%s%d", g.pick("value", "v", "a b", "é"), i)
				td.Values = append(td.Values, v)
				l = append(l, obj{"value": v})
			}
			t.add("enum", l)
		default:
			g.length(&t, &td.TypeSpec, 60)
		}
	case "blob":
		td.Type = "Bytes"
		g.length(&t, &td.TypeSpec, 50)
	case "list", "set":
		td.Type = "Array"
		id, typ := g.target()
		td.Items = typ
		rest = append(rest, entry{"member", g.member(id, traitList{})})
		g.length(&t, &td.TypeSpec, 40)
		if kind == "set" {
			note("x_unique", "true")
		} else if g.bool("unique", 20) {
			t.add("uniqueItems", marker(g.t))
			note("x_unique", "true")
		}
	case "map":
		td.Type = "Map"
		kid, ktyp := g.target("string")
		id, typ := g.target()
		td.Keys, td.Items = ktyp, typ
		rest = append(rest, entry{"key", g.member(kid, traitList{})}, entry{"value", g.member(id, traitList{})})
		g.length(&t, &td.TypeSpec, 40)
	case "structure", "error":
		td.Type = "Struct"
		rest = append(rest, entry{"members", g.members(5, g.field(td))})
		if kind == "error" {
			kind = "structure"
			class, status := "client", int32(400)
			if rapid.Bool().Draw(g.t, "server") {
				class, status = "server", 500
			}
			t.add("error", class)
			note("x_error", class)
			if g.bool("httpError", 70) {
				status += rapid.Int32Range(1, 20).Draw(g.t, "status")
				t.add("httpError", status)
				note("x_httpError", fmt.Sprint(status))
			}
			g.status[name] = status
			g.docs[name] = td.Comment
		}
	case "union":
		td.Type = "Union"
		rest = append(rest, entry{"members", g.members(4, func(n string) entries {
			var t traitList
			vd := &sadl.UnionVariantDef{Name: n, Comment: g.doc(&t)}
			id, typ := g.target()
			if g.bool("unit", 10) {
				id, typ = "smithy.api#Unit", "Struct"
			}
			vd.Type = typ
			vd.Annotations = g.notes(&t)
			td.Variants = append(td.Variants, vd)
			return g.member(id, t)
		})})
	case "enum":
		td.Type = "Enum"
		rest = append(rest, entry{"members", g.members(4, func(n string) entries {
			var t traitList
			e := &sadl.EnumElementDef{Symbol: strings.ToUpper(n), Comment: g.doc(&t)}
			e.Annotations = g.notes(&t)
			if g.bool("value", 25) {
				t.add("enumValue", "v "+n)
				if e.Annotations == nil {
					e.Annotations = map[string]string{}
				}
				e.Annotations["x_enumValue"] = "v " + n
			}
			td.Elements = append(td.Elements, e)
			return g.member("smithy.api#Unit", t)
		})})
		ml := rest[0].val.(entries)
		for i := range ml {
			ml[i].key = strings.ToUpper(ml[i].key)
		}
	}
	g.shape(name, kind, t, rest...)
	g.sc.Types = append(g.sc.Types, td)
}

// structure writes an input or output; asType is set if it has to be a type of its own.
func (g *asts) plain(name string) (fields []*sadl.StructFieldDef) {
	td := &sadl.TypeDef{Name: name}
	mem := g.members(4, g.field(td))
	g.shape(name, "structure", traitList{}, entry{"members", mem})
	return td.Fields
}

func (g *asts) operation(i int) {
	name := fmt.Sprintf("%s%d", g.pick("verb", "Get", "Put", "List", "x"), i)
	var t traitList
	comment := g.doc(&t)
	var rest []entry
	ref := func(what, n string) {
		rest = append(rest, entry{what, entries{{"target", g.ns + "#" + n}}})
	}
	in, out := name+"Input", name+"Output"
	errs := func() (l []string) {
		var refs []interface{}
		for _, e := range g.errors {
			if g.bool("throws", 40) {
				l = append(l, e)
				refs = append(refs, obj{"target": g.ns + "#" + e})
			}
		}
		if len(l) > 0 {
			rest = append(rest, entry{"errors", refs})
		}
		return l
	}
	if !g.bool("http", 75) {
		op := &sadl.OperationDef{Name: sadl.Uncapitalize(name), Comment: comment}
		op.Annotations = g.notes(&t)
		switch rapid.IntRange(0, 4).Draw(g.t, "input") {
		case 0:
		case 1:
			rest = append(rest, entry{"input", obj{"target": "smithy.api#Unit"}})
		default:
			for _, f := range g.plain(in) {
				x := &sadl.OperationInput{}
				x.Name, x.Type, x.Required = f.Name, f.Type, f.Required
				op.Inputs = append(op.Inputs, x)
			}
			ref("input", in)
		}
		switch rapid.IntRange(0, 4).Draw(g.t, "output") {
		case 0:
		case 1:
			rest = append(rest, entry{"output", obj{"target": "smithy.api#Unit"}})
		default:
			for _, f := range g.plain(out) {
				op.Outputs = append(op.Outputs, &sadl.OperationOutput{Name: f.Name, TypeSpec: sadl.TypeSpec{Type: f.Type}})
			}
			ref("output", out)
		}
		op.Exceptions = errs()
		g.sc.Operations = append(g.sc.Operations, op)
		g.shape(name, "operation", t, rest...)
		return
	}
	method := g.pick("method", "GET", "PUT", "POST", "DELETE")
	h := &sadl.HttpDef{Name: sadl.Uncapitalize(name), Comment: comment, Method: method, Path: "/" + strings.ToLower(name)}
	h.Annotations = g.notes(&t)
	if g.bool("paginated", 15) {
		pages, l := obj{}, []string{}
		for _, k := range []string{"inputToken", "outputToken", "pageSize", "items"} {
			v := ""
			if rapid.Bool().Draw(g.t, k) {
				v = g.pick("page", "next", "a.b", "n_1")
				pages[k] = v
			}
			l = append(l, k+"="+v)
		}
		t.add("paginated", pages)
		if h.Annotations == nil {
			h.Annotations = map[string]string{}
		}
		h.Annotations["x_paginated"] = strings.Join(l, ",")
	}
	if method == "GET" {
		t.add("readonly", marker(g.t))
	}
	param := func(n string, bind func(t *traitList, p *sadl.HttpParamSpec)) (entries, *sadl.HttpParamSpec) {
		var mt traitList
		p := &sadl.HttpParamSpec{}
		p.Name = n
		id, typ := g.target(scalars...)
		p.Type = typ
		bind(&mt, p)
		if p.Header == "" && p.Query == "" && !p.Path {
			id, p.Type = g.target()
		}
		if p.Path || g.bool("required", 30) {
			p.Required = true
			mt.add("required", marker(g.t))
		}
		g.doc(&mt)
		return g.member(id, mt), p
	}
	qs, payload := "", false
	switch rapid.IntRange(0, 6).Draw(g.t, "input") {
	case 0:
		if rapid.Bool().Draw(g.t, "unit") {
			rest = append(rest, entry{"input", obj{"target": "smithy.api#Unit"}})
		}
	case 1:
		// the body as a whole
		if fields := g.plain(in); len(fields) > 0 {
			g.sc.Types = append(g.sc.Types, &sadl.TypeDef{Name: in, TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: fields}})
			p := &sadl.HttpParamSpec{}
			p.Name, p.Type = "body", in
			h.Inputs = append(h.Inputs, p)
		}
		ref("input", in)
	default:
		only := rapid.IntRange(0, 6).Draw(g.t, "only")
		unbound := rapid.Bool().Draw(g.t, "in the body") // the body is the members without a binding, not a payload
		body := &sadl.TypeDef{Name: sadl.Capitalize(name) + "RequestBody", TypeSpec: sadl.TypeSpec{Type: "Struct"}}
		mem := g.members(5, func(n string) entries {
			how := only
			if only > 2 {
				how = rapid.IntRange(0, 3).Draw(g.t, "binding")
			}
			if unbound && how == 3 && len(h.Inputs) > 0 {
				return g.field(body)(n)
			}
			if unbound && how == 3 {
				how = 2
			}
			if how == 3 && payload {
				how = 1
			}
			e, p := param(n, func(t *traitList, p *sadl.HttpParamSpec) {
				switch how {
				case 0:
					p.Path = true
					t.add("httpLabel", marker(g.t))
					h.Path += "/{" + n + "}"
				case 1:
					p.Query = g.pick("query", n, "q-"+n, strings.ToUpper(n)+"2")
					t.add("httpQuery", p.Query)
					qs += "&" + p.Query + "={" + n + "}"
				case 2:
					p.Header = "X-" + n
					t.add("httpHeader", p.Header)
				default:
					payload = true
					t.add("httpPayload", marker(g.t))
				}
			})
			h.Inputs = append(h.Inputs, p)
			return e
		})
		g.shape(in, "structure", traitList{}, entry{"members", mem})
		ref("input", in)
		h.Inputs = append(h.Inputs, g.bodyOf(body)...)
	}
	code := int32(200)
	http := obj{"method": method, "uri": h.Path}
	if g.bool("code", 60) {
		code = rapid.SampledFrom([]int32{200, 201, 204}).Draw(g.t, "status")
		http["code"] = code
	}
	t.add("http", http)
	if qs != "" {
		h.Path += "?" + qs[1:]
	}
	h.Expected = &sadl.HttpExpectedSpec{Status: code}
	switch rapid.IntRange(0, 4).Draw(g.t, "output") {
	case 0:
		if rapid.Bool().Draw(g.t, "unit") {
			rest = append(rest, entry{"output", obj{"target": "smithy.api#Unit"}})
		}
	case 1:
		if fields := g.plain(out); len(fields) > 0 {
			g.sc.Types = append(g.sc.Types, &sadl.TypeDef{Name: out, TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: fields}})
			p := &sadl.HttpParamSpec{}
			p.Name, p.Type = "body", out
			h.Expected.Outputs = append(h.Expected.Outputs, p)
		}
		ref("output", out)
	default:
		payload := rapid.Bool().Draw(g.t, "no payload")
		unbound := payload && rapid.Bool().Draw(g.t, "in the body")
		body := &sadl.TypeDef{Name: sadl.Capitalize(name) + "ResponseBody", TypeSpec: sadl.TypeSpec{Type: "Struct"}}
		mem := g.members(4, func(n string) entries {
			if unbound && len(h.Expected.Outputs) > 0 && g.bool("no binding", 60) {
				return g.field(body)(n)
			}
			e, p := param(n, func(t *traitList, p *sadl.HttpParamSpec) {
				if !payload {
					payload = true
					t.add("httpPayload", marker(g.t))
				} else {
					p.Header = "X-Out-" + n
					t.add("httpHeader", p.Header)
				}
			})
			h.Expected.Outputs = append(h.Expected.Outputs, p)
			return e
		})
		g.shape(out, "structure", traitList{}, entry{"members", mem})
		ref("output", out)
		h.Expected.Outputs = append(h.Expected.Outputs, g.bodyOf(body)...)
	}
	for _, e := range errs() {
		h.Exceptions = append(h.Exceptions, &sadl.HttpExceptionSpec{Type: e, Status: g.status[e], Comment: g.docs[e]})
	}
	if g.bool("examples", 20) {
		ex := obj{"title": "an example"}
		x := &sadl.ExampleDef{Target: sadl.Capitalize(name) + "Request", Name: "an example"}
		x.Example = obj{"a": "b"}
		ex["input"] = x.Example
		if rapid.Bool().Draw(g.t, "documented") {
			x.Comment = "an explanation"
			ex["documentation"] = x.Comment
		}
		g.sc.Examples = append(g.sc.Examples, x)
		switch {
		case rapid.Bool().Draw(g.t, "has output"):
			y := &sadl.ExampleDef{Target: sadl.Capitalize(name) + "Response", Name: "an example", Example: obj{"c": []interface{}{"d"}}}
			ex["output"] = y.Example
			g.sc.Examples = append(g.sc.Examples, y)
		case len(h.Exceptions) > 0:
			y := &sadl.ExampleDef{Target: h.Exceptions[0].Type, Name: "an example", Example: obj{"e": "f"}}
			ex["error"] = obj{"shapeId": g.ns + "#" + h.Exceptions[0].Type, "content": y.Example}
			g.sc.Examples = append(g.sc.Examples, y)
		}
		t.add("examples", []interface{}{ex})
	}
	g.sc.Http = append(g.sc.Http, h)
	g.shape(name, "operation", t, rest...)
}

// bodyOf is the parameter for the body of the given type, if that has members.
func (g *asts) bodyOf(td *sadl.TypeDef) []*sadl.HttpParamSpec {
	if len(td.Fields) == 0 {
		return nil
	}
	g.sc.Types = append(g.sc.Types, td)
	p := &sadl.HttpParamSpec{}
	p.Name, p.Type = "body", td.Name
	return []*sadl.HttpParamSpec{p}
}

func drawAST(t *rapid.T) *asts {
	g := &asts{t: t, ns: sgen.Pick(t, "ns", []string{"example", "com.example.things"}), sc: &sadl.Schema{Sadl: sadl.Version}, kind: map[string]string{}, status: map[string]int32{}, docs: map[string]string{}}
	kinds := []string{"boolean", "byte", "short", "integer", "long", "float", "double", "bigInteger", "bigDecimal", "string", "blob", "timestamp",
		"document", "list", "set", "map", "structure", "structure", "error", "union", "enum"}
	for i := rapid.IntRange(0, 6).Draw(t, "types"); i > 0; i-- {
		n := fmt.Sprintf("%s%d", g.pick("tname", "Item", "thing", "URL"), i)
		g.kind[n] = sgen.Pick(t, "kind", kinds)
		g.names = append(g.names, n)
		if g.kind[n] == "error" {
			g.errors = append(g.errors, n)
		}
	}
	if g.bool("traits", 20) {
		var dt traitList
		id := g.ns + "#aspect"
		if g.bool("is a trait", 70) {
			dt.add("trait", rapid.SampledFrom([]interface{}{true, obj{}, obj{"selector": "*"}}).Draw(t, "trait"))
		}
		g.shape("aspect", "string", dt)
		td := &sadl.TypeDef{Name: "aspect"}
		td.Type = "String"
		g.sc.Types = append(g.sc.Types, td)
		g.custom = append(g.custom, id)
	}
	for _, n := range g.names {
		g.define(n)
	}
	nops := rapid.IntRange(0, 3).Draw(t, "ops")
	var refs []interface{}
	for i := 0; i < nops; i++ {
		g.operation(i)
		refs = append(refs, obj{"target": g.shapes[len(g.shapes)-1].key})
	}
	if nops > 0 || g.bool("service", 30) {
		var st traitList
		g.sc.Name, g.sc.Version = "TheService", sgen.Pick(t, "version", []string{"1.0", "2021-01-02"})
		g.shape("TheService", "service", st, entry{"version", g.sc.Version}, entry{"operations", refs})
	}
	// the order of the shapes does not matter to what they mean
	if rapid.Bool().Draw(t, "shuffle") {
		g.shapes = rapid.Permutation(g.shapes).Draw(t, "order")
	}
	return g
}

// sorted gives a schema in a form in which the order of its definitions does not show.
func sorted(sc *sadl.Schema) interface{} {
	doc := canon(sc).(obj)
	for _, k := range []string{"types", "http", "operations", "examples"} {
		l, _ := doc[k].([]interface{})
		m := obj{}
		for _, x := range l {
			n := fmt.Sprint(x.(obj)["name"])
			if k == "examples" {
				n += " " + fmt.Sprint(x.(obj)["target"])
			}
			for m[n] != nil {
				n += "+"
			}
			m[n] = x
		}
		doc[k] = m
	}
	if a, ok := doc["annotations"].(obj); ok && len(a) == 0 {
		delete(doc, "annotations")
	}
	return doc
}

func importText(c *pbt.C, text string, conf *sadl.Data) (m *sadl.Model, err error) {
	dir, done := pbt.Scratch()
	defer done()
	path := filepath.Join(dir, "model.json")
	if e := os.WriteFile(path, []byte(text), 0644); e != nil {
		panic(e)
	}
	out := ""
	pbt.NoPanic(c, "Import", func() {
		out = pbt.Capture(func() { m, err = smithy.Import([]string{path}, conf) })
	})
	c.Check(out == "", "the import prints %q to standard output", out)
	return m, err
}

func TestP33(t *testing.T) {
	pbt.Run(t, "models", pbt.Opt{Quick: 3000, Rule: "three or more shapes, or an operation"}, func(c *pbt.C) {
		g := drawAST(c.T)
		doc := entries{{"smithy", g.pick("version", "2", "2.0", "1.0")}}
		conf := sadl.NewData()
		if g.bool("metadata", 30) {
			meta := obj{"origin": "a test"}
			g.sc.Annotations = map[string]string{"x_origin": "a test"}
			if g.bool("base", 30) {
				meta["base"] = "/v1"
				g.sc.Annotations["base"] = "/v1"
			}
			if g.bool("named", 30) {
				meta["name"] = "named"
				g.sc.Name = "named"
			}
			doc = append(doc, entry{"metadata", meta})
		}
		doc = append(doc, entry{"shapes", g.shapes})
		if g.bool("name", 20) {
			g.sc.Name = "chosen"
			conf.Put("name", g.sc.Name)
		}
		if g.bool("namespace", 20) {
			g.sc.Namespace = "chosen.ns"
			conf.Put("namespace", g.sc.Namespace)
		}
		if g.sc.Version != "" && g.bool("services", 15) {
			// one of several services
			doc[len(doc)-1].val = append(g.shapes[:len(g.shapes):len(g.shapes)], entry{g.ns + "#" + g.pick("second", "AService", "ZService"), obj{"type": "service", "version": "77"}})
			conf.Put("service", g.ns+"#TheService")
		}
		text := pbt.JSON(doc)
		c.Case("%s", text)
		c.NonTrivial(len(g.shapes) >= 3 || len(g.sc.Http)+len(g.sc.Operations) > 0)
		want := sorted(g.sc)
		m, err := importText(c, text, conf)
		c.Check(err == nil, "the import fails: %v", err)
		got := sorted(&m.Schema)
		q := &comparer{c: c}
		for _, k := range []string{"types", "http", "operations", "examples"} {
			gm, wm := got.(obj)[k].(obj), want.(obj)[k].(obj)
			q.same("the names of the "+k, strings.Join(pbt.SortedKeys(gm), ", "), strings.Join(pbt.SortedKeys(wm), ", "))
			for _, n := range pbt.SortedKeys(wm) {
				q.same(k+" "+n, gm[n], wm[n])
			}
		}
		q.same("the schema", got, want)
	})
	pbt.Run(t, "mangled", pbt.Opt{Quick: 3000, Rule: "the model is refused"}, func(c *pbt.C) {
		g := drawAST(c.T)
		doc := map[string]interface{}{}
		if err := json.Unmarshal([]byte(pbt.JSON(entries{{"smithy", "2"}, {"shapes", g.shapes}})), &doc); err != nil {
			panic(err)
		}
		at := sgen.Mangle(c.T, doc)
		text := pbt.JSON(doc)
		c.Case("%s\n%s", at, text)
		var m *sadl.Model
		var err error
		pbt.NoPanic(c, "the import", func() { m, err = importText(c, text, sadl.NewData()) })
		c.NonTrivial(err != nil)
		c.Check(err != nil || m != nil, "neither a model nor an error")
	})
	pbt.Run(t, "refused", pbt.Opt{Quick: 600, Rule: "every case"}, func(c *pbt.C) {
		g := drawAST(c.T)
		why := g.pick("why", "dangling member", "dangling input", "dangling error", "no list member", "no map value", "unknown kind", "two services", "two names", "not JSON", "no version")
		extra := func(name string, v interface{}) {
			g.shapes = append(g.shapes, entry{g.ns + "#" + name, v})
		}
		doc := entries{{"smithy", "2"}}
		switch why {
		case "dangling member":
			extra("Extra", obj{"type": "structure", "members": obj{"a": obj{"target": g.ns + "#Nowhere"}}})
		case "dangling input":
			extra("Extra", obj{"type": "operation", g.pick("which", "input", "output"): obj{"target": g.ns + "#Nowhere"}, "traits": obj{"smithy.api#http": obj{"method": "GET", "uri": "/extra"}}})
		case "dangling error":
			extra("Extra", obj{"type": "operation", "errors": []interface{}{obj{"target": g.ns + "#Nowhere"}}, "traits": obj{"smithy.api#http": obj{"method": "GET", "uri": "/extra"}}})
		case "no list member":
			extra("Extra", obj{"type": g.pick("kind", "list", "set")})
		case "no map value":
			extra("Extra", obj{"type": "map", g.pick("half", "key", "value"): obj{"target": "smithy.api#String"}})
		case "unknown kind":
			extra("Extra", obj{"type": g.pick("kind", "Structure", "intArray", "")})
		case "two services":
			extra("S1", obj{"type": "service", "version": "1"})
			extra("S2", obj{"type": "service", "version": "1"})
		case "two names":
			extra("Extra", obj{"type": "string"})
			g.shapes = append(g.shapes, entry{"other.ns#Extra", obj{"type": "integer"}})
		case "no version":
			doc = nil
		}
		text := pbt.JSON(append(doc, entry{"shapes", g.shapes}))
		if why == "not JSON" {
			text = text[:rapid.IntRange(0, len(text)-1).Draw(c.T, "cut")]
		}
		c.Case("%s\n%s", why, text)
		c.Class("%s", why)
		c.NonTrivial(true)
		m, err := importText(c, text, sadl.NewData())
		c.Check(err != nil, "%s: the import succeeds: %s", why, pbt.JSON(m))
	})
}
