// Package smith checks the conversions to and from the Smithy AST.
package smith

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"testing"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/smithy"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
)

func TestMain(m *testing.M) { pbt.Main(m) }

type obj = map[string]interface{}

// canon gives a JSON document in a form that compares numbers by value.
func canon(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return canonText(string(b))
}

func canonText(s string) interface{} {
	d := json.NewDecoder(bytes.NewReader([]byte(s)))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		panic(fmt.Sprintf("not JSON: %v: %s", err, s))
	}
	return numbers(v)
}

func numbers(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		for k := range x {
			x[k] = numbers(x[k])
		}
	case []interface{}:
		for i := range x {
			x[i] = numbers(x[i])
		}
	case json.Number:
		r, ok := new(big.Rat).SetString(x.String())
		if !ok {
			panic("bad number " + x.String())
		}
		return "number " + r.RatString()
	}
	return v
}

var prelude = map[string]string{"Bool": "Boolean", "Int8": "Byte", "Int16": "Short", "Int32": "Integer", "Int64": "Long",
	"Float32": "Float", "Float64": "Double", "Decimal": "BigDecimal", "Bytes": "Blob", "String": "String", "Timestamp": "Timestamp",
	"UUID": "String", "Any": "Document", "Struct": "Document", "": "Document"}

var shapeKind = map[string]string{"Bool": "boolean", "Int8": "byte", "Int16": "short", "Int32": "integer", "Int64": "long",
	"Float32": "float", "Float64": "double", "Decimal": "bigDecimal", "Bytes": "blob", "String": "string", "Timestamp": "timestamp",
	"UUID": "string", "Any": "document"}

const uuidPattern = "([a-f0-9]{8}(-[a-f0-9]{4}){4}[a-f0-9]{8})"

type writer struct{ ns string }

func (w *writer) ref(name string) string {
	if p, ok := prelude[name]; ok {
		return "smithy.api#" + p
	}
	return w.ns + "#" + name
}

func put(m obj, key string, v interface{}) {
	t, _ := m["traits"].(obj)
	if t == nil {
		t = obj{}
		m["traits"] = t
	}
	t["smithy.api#"+key] = v
}

func constraints(m obj, ts *sadl.TypeSpec) {
	if ts.MinSize != nil || ts.MaxSize != nil {
		l := obj{}
		if ts.MinSize != nil {
			l["min"] = *ts.MinSize
		}
		if ts.MaxSize != nil {
			l["max"] = *ts.MaxSize
		}
		put(m, "length", l)
	}
	if ts.Min != nil || ts.Max != nil {
		l := obj{}
		if ts.Min != nil {
			l["min"] = json.Number(ts.Min.String())
		}
		if ts.Max != nil {
			l["max"] = json.Number(ts.Max.String())
		}
		put(m, "range", l)
	}
	if ts.Pattern != "" {
		put(m, "pattern", ts.Pattern)
	}
	if len(ts.Values) > 0 {
		var l []interface{}
		for _, s := range ts.Values {
			l = append(l, obj{"value": s})
		}
		put(m, "enum", l)
	}
}

// shape is what a type should become. A member with "inline" refers to a shape that the export has to name.
func (w *writer) shape(ts *sadl.TypeSpec, annos map[string]string) obj {
	m := obj{"type": shapeKind[ts.Type]}
	switch ts.Type {
	case "UUID":
		put(m, "pattern", uuidPattern)
	case "Array":
		m["type"] = "list"
		if _, ok := annos["x_unique"]; ok {
			m["type"] = "set"
		}
		m["member"] = obj{"target": w.ref(ts.Items)}
	case "Map":
		m["type"] = "map"
		m["key"] = obj{"target": w.ref(ts.Keys)}
		m["value"] = obj{"target": w.ref(ts.Items)}
	case "Enum":
		m["type"] = "enum"
		mem := obj{}
		for _, e := range ts.Elements {
			x := obj{"target": "smithy.api#Unit"}
			if v, ok := e.Annotations["x_enumValue"]; ok {
				put(x, "enumValue", v)
			}
			document(x, e.Comment)
			mem[e.Symbol] = x
		}
		m["members"] = mem
	case "Union":
		m["type"] = "union"
		mem := obj{}
		for _, v := range ts.Variants {
			x := obj{"target": w.ref(v.Type)}
			document(x, v.Comment)
			mem[v.Name] = x
		}
		m["members"] = mem
	case "Struct":
		m["type"] = "structure"
		mem := obj{}
		for _, f := range ts.Fields {
			mem[f.Name] = w.field(f)
		}
		m["members"] = mem
	}
	constraints(m, ts)
	return m
}

func (w *writer) field(f *sadl.StructFieldDef) obj {
	x := obj{}
	switch {
	case f.Type == "Array" || f.Type == "Map" || f.Type == "Enum" || f.Type == "Struct" && len(f.Fields) > 0:
		x["inline"] = w.shape(&f.TypeSpec, f.Annotations)
	default:
		x["target"] = w.ref(f.Type)
		constraints(x, &f.TypeSpec)
		if f.Type == "UUID" {
			delete(x, "traits")
		}
	}
	if f.Required {
		put(x, "required", true)
	}
	document(x, f.Comment)
	return x
}

func document(x obj, comment string) {
	if comment != "" {
		put(x, "documentation", comment)
	}
}

func category(status int32) string {
	switch {
	case status < 200:
		return "informational"
	case status < 300:
		return "success"
	case status < 400:
		return "redirect"
	case status < 500:
		return "client"
	}
	return "server"
}

func (w *writer) expected(sc *sadl.Schema) obj {
	shapes := obj{}
	var ops []interface{}
	for _, td := range sc.Types {
		m := w.shape(&td.TypeSpec, td.Annotations)
		if td.Comment != "" {
			put(m, "documentation", td.Comment)
		}
		if s, ok := td.Annotations["x_tags"]; ok {
			put(m, "tags", strings.Split(s, ","))
		}
		if _, ok := td.Annotations["x_sensitive"]; ok {
			put(m, "sensitive", true)
		}
		if s := td.Annotations["x_deprecated"]; s != "" {
			if i := strings.Index(s, "|"); i >= 0 {
				put(m, "deprecated", obj{"since": s[:i], "message": s[i+1:]})
			} else {
				put(m, "deprecated", obj{"message": s})
			}
		}
		shapes[w.ns+"#"+td.Name] = m
	}
	for _, h := range sc.Http {
		path := sc.Base + h.Path
		if i := strings.Index(path, "?"); i >= 0 {
			path = path[:i]
		}
		op := obj{"type": "operation"}
		put(op, "http", obj{"uri": path, "method": h.Method, "code": h.Expected.Status})
		switch h.Method {
		case "GET":
			put(op, "readonly", true)
		case "PUT", "DELETE":
			put(op, "idempotent", true)
		}
		if h.Comment != "" {
			put(op, "documentation", h.Comment)
		}
		if s, ok := h.Annotations["x_tags"]; ok {
			put(op, "tags", strings.Split(s, ","))
		}
		if s, ok := h.Annotations["x_paginated"]; ok {
			m := obj{}
			for _, kv := range strings.Split(s, ",") {
				i := strings.Index(kv, "=")
				m[kv[:i]] = kv[i+1:]
			}
			put(op, "paginated", m)
		}
		if len(h.Inputs) > 0 {
			mem := obj{}
			for _, in := range h.Inputs {
				x := obj{"target": w.ref(in.Type)}
				if in.Required || in.Path {
					put(x, "required", true)
				}
				binding(x, in)
				document(x, in.Comment)
				mem[in.Name] = x
			}
			op["input"] = obj{"inline": obj{"type": "structure", "members": mem}}
		}
		if len(h.Expected.Outputs) > 0 {
			mem := obj{}
			for _, out := range h.Expected.Outputs {
				x := obj{"target": w.ref(out.Type)}
				if out.Required {
					put(x, "required", true)
				}
				binding(x, out)
				document(x, out.Comment)
				mem[out.Name] = x
			}
			op["output"] = obj{"inline": obj{"type": "structure", "members": mem}}
		}
		if len(h.Exceptions) > 0 {
			var l []interface{}
			for _, e := range h.Exceptions {
				l = append(l, obj{"target": w.ref(e.Type)})
				s := shapes[w.ref(e.Type)].(obj)
				put(s, "httpError", e.Status)
				put(s, "error", category(e.Status))
				if mem, ok := s["members"].(obj); ok && len(mem) == 1 {
					for _, m := range mem {
						t, _ := m.(obj)["target"].(string)
						in, _ := m.(obj)["inline"].(obj)
						if d, ok := shapes[t].(obj); ok && d["type"] == "structure" || in["type"] == "structure" {
							put(m.(obj), "httpPayload", true)
						}
					}
				}
			}
			op["errors"] = l
		}
		id := w.ns + "#" + sadl.Capitalize(h.Name)
		shapes[id] = op
		ops = append(ops, obj{"target": id})
	}
	for _, o := range sc.Operations {
		op := obj{"type": "operation"}
		if o.Comment != "" {
			put(op, "documentation", o.Comment)
		}
		if len(o.Inputs) > 0 {
			mem := obj{}
			for _, in := range o.Inputs {
				x := obj{"target": w.ref(in.Type)}
				if in.Required {
					put(x, "required", true)
				}
				document(x, in.Comment)
				mem[in.Name] = x
			}
			op["input"] = obj{"inline": obj{"type": "structure", "members": mem}}
		}
		if len(o.Outputs) > 0 {
			mem := obj{}
			for _, out := range o.Outputs {
				x := obj{"target": w.ref(out.Type)}
				document(x, out.Comment)
				mem[out.Name] = x
			}
			op["output"] = obj{"inline": obj{"type": "structure", "members": mem}}
		}
		if len(o.Exceptions) > 0 {
			var l []interface{}
			for _, e := range o.Exceptions {
				l = append(l, obj{"target": w.ref(e)})
			}
			op["errors"] = l
		}
		id := w.ns + "#" + sadl.Capitalize(o.Name)
		shapes[id] = op
		ops = append(ops, obj{"target": id})
	}
	if len(ops) > 0 {
		s := obj{"type": "service", "version": sc.Version, "operations": ops}
		if sc.Version == "" {
			s["version"] = "0.0"
		}
		if sc.Comment != "" {
			put(s, "documentation", sc.Comment)
		}
		shapes[w.ns+"#"+sadl.Capitalize(sc.Name)] = s
	}
	return shapes
}

func binding(x obj, p *sadl.HttpParamSpec) {
	switch {
	case p.Path:
		put(x, "httpLabel", true)
	case p.Query != "":
		put(x, "httpQuery", p.Query)
	case p.Header != "":
		put(x, "httpHeader", p.Header)
	default:
		put(x, "httpPayload", true)
	}
}

// compare finds differences between the shapes wanted and those there are, following the references
// to shapes that the export had to find a name for.
type comparer struct {
	c     *pbt.C
	got   obj // all shapes
	inner map[string]bool
}

func without(m obj, drop ...string) obj {
	r := obj{}
	for k, v := range m {
		if !sgen.Has(drop, k) {
			r[k] = v
		}
	}
	return r
}

func traits(v interface{}, drop ...string) obj {
	m, _ := v.(obj)["traits"].(obj)
	r := obj{}
	for k, x := range m {
		if k == "smithy.api#documentation" && x == "" || sgen.Has(drop, strings.TrimPrefix(k, "smithy.api#")) {
			continue
		}
		r[k] = x
	}
	return r
}

func (q *comparer) same(what string, got, want interface{}) {
	q.c.Check(reflect.DeepEqual(got, want), "%s is %s and not %s", what, pbt.JSON(got), pbt.JSON(want))
}

func (q *comparer) ref(what string, got, want interface{}) {
	w := want.(obj)
	g, ok := got.(obj)
	q.c.Check(ok, "%s is missing", what)
	id, _ := g["target"].(string)
	if in, ok := w["inline"]; ok {
		s, ok := q.got[id].(obj)
		q.c.Check(ok, "%s refers to %q, which is not in the model", what, id)
		q.c.Check(!q.inner[id], "%s shares the shape %s with another", what, id)
		q.inner[id] = true
		q.shape(what+" ("+id+")", s, in.(obj), "documentation", "input", "output")
	} else {
		q.same("the target of "+what, id, w["target"])
	}
	q.same("the traits of "+what, traits(g), traits(w))
	q.same("what else "+what+" has", without(g, "target", "traits"), obj{})
}

func (q *comparer) shape(what string, got, want obj, drop ...string) {
	q.same("the kind of "+what, got["type"], want["type"])
	q.same("the traits of "+what, traits(got, drop...), traits(want, drop...))
	for _, k := range []string{"member", "key", "value", "input", "output"} {
		if w, ok := want[k]; ok {
			q.ref("the "+k+" of "+what, got[k], w)
		} else {
			q.c.Check(got[k] == nil, "%s has a %s: %s", what, k, pbt.JSON(got[k]))
		}
	}
	wm, _ := want["members"].(obj)
	gm, _ := got["members"].(obj)
	q.same("the member names of "+what, strings.Join(pbt.SortedKeys(gm), " "), strings.Join(pbt.SortedKeys(wm), " "))
	for _, n := range pbt.SortedKeys(wm) {
		q.ref(what+"."+n, gm[n], wm[n])
	}
	rest := []string{"type", "traits", "member", "key", "value", "input", "output", "members"}
	q.same("what else "+what+" has", without(got, rest...), without(want, rest...))
}

func compare(c *pbt.C, got, want obj) {
	q := &comparer{c: c, got: got, inner: map[string]bool{}}
	for _, id := range pbt.SortedKeys(want) {
		g, ok := got[id].(obj)
		c.Check(ok, "there is no shape %s", id)
		q.shape(id, g, want[id].(obj))
	}
	for _, id := range pbt.SortedKeys(got) {
		_, ok := want[id]
		c.Check(ok || q.inner[id], "there is a shape %s that nothing asks for: %s", id, pbt.JSON(got[id]))
		c.Check(!(ok && q.inner[id]), "the shape %s is a definition's and also an inline type's", id)
	}
}

func options() sgen.Options {
	return sgen.Options{
		Kinds:    []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Array", "Map", "Struct", "Struct", "Enum", "Union", "Any"},
		FieldAny: true, FieldOpts: true, FieldDefault: true, Constraints: true, ItemAny: true, UnionBase: true, UnionNamed: true,
		InlineKinds: []string{"Array", "Map", "Enum", "Struct"}, Comments: true, LongComments: true, Annotations: true,
		FieldScalars: []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID"},
		MinTypes:     1, MaxTypes: 7, MaxFields: 5, Http: 3, Operations: 2, Base: true, MapStringKey: true,
	}
}

func note(c *pbt.C, m *map[string]string, k, v string) {
	n := map[string]string{}
	for a, b := range *m {
		n[a] = b
	}
	n[k] = v
	*m = n
}

// prepare keeps the schema within what Smithy can say: an error is a structure with one status.
func prepare(c *pbt.C, sc *sadl.Schema) {
	kind := map[string]string{}
	for _, td := range sc.Types {
		kind[td.Name] = td.Type
		anno := rapid.IntRange(0, 12).Draw(c.T, "anno") // 10: several
		if anno == 0 || anno == 10 {
			note(c, &td.Annotations, "x_tags", sgen.Pick(c.T, "tags", []string{"a", "a,b", "a,b,c d"}))
		}
		if anno == 1 || anno == 10 {
			note(c, &td.Annotations, "x_sensitive", "")
		}
		if anno == 2 || anno == 10 {
			note(c, &td.Annotations, "x_deprecated", sgen.Pick(c.T, "deprecated", []string{"1.2|use another", "use another", "|no since"}))
		}
		if td.Type == "Array" && (anno == 3 || anno == 10) {
			note(c, &td.Annotations, "x_unique", sgen.Pick(c.T, "unique", []string{"", "true"}))
		}
		for _, e := range td.Elements {
			if sgen.Bool(c.T, "value?", 20) {
				note(c, &e.Annotations, "x_enumValue", sgen.Pick(c.T, "value", []string{"one", "a b", "x/y"}))
			}
		}
	}
	status := map[string]int32{}
	for _, h := range sc.Http {
		var l []*sadl.HttpExceptionSpec
		for _, e := range h.Exceptions {
			if s, ok := status[e.Type]; kind[e.Type] != "Struct" || ok && s != e.Status {
				continue
			}
			status[e.Type] = e.Status
			l = append(l, e)
		}
		h.Exceptions = l
		if sgen.Bool(c.T, "htags", 15) {
			note(c, &h.Annotations, "x_tags", sgen.Pick(c.T, "tags", []string{"a", "a,b"}))
		}
		if sgen.Bool(c.T, "paginated", 10) {
			note(c, &h.Annotations, "x_paginated", sgen.Pick(c.T, "pages", []string{"inputToken=skip,outputToken=next,pageSize=limit,items=list", "inputToken=a", "outputToken=next.of=x,items=all.of.them"}))
		}
	}
	for _, o := range sc.Operations {
		var l []string
		for _, e := range o.Exceptions {
			if kind[e] == "Struct" {
				l = append(l, e)
			}
		}
		o.Exceptions = l
	}
	sc.Name = sgen.Pick(c.T, "model name", []string{"theApi", "TheApi"}) // a name of its own
	sc.Comment = sgen.Comment(c.T, false)
	sc.Version = sgen.Pick(c.T, "version", []string{"", "1", "2.0-beta"})
}

func export(c *pbt.C, sc *sadl.Schema, ns string) (obj, error) {
	m, err := sadl.NewModel(sc)
	c.Check(err == nil, "the schema is refused: %v", err)
	var text string
	pbt.NoPanic(c, "FromSADL", func() {
		ast, e := smithy.FromSADL(m, ns)
		if err = e; err == nil {
			text = sadl.Pretty(ast)
		}
	})
	if err != nil {
		return nil, err
	}
	doc, ok := canonText(text).(obj)
	c.Check(ok, "the AST is %s", text)
	shapes, _ := doc["shapes"].(obj)
	return shapes, nil
}

func TestP32(t *testing.T) {
	pbt.Run(t, "models", pbt.Opt{Quick: 3000, Rule: "the model has a structure or an action"}, func(c *pbt.C) {
		sc := sgen.New(c.T, options())
		prepare(c, sc)
		ns := sgen.Pick(c.T, "ns", []string{"example", "com.example.things"})
		c.CaseJSON(sc)
		before := pbt.JSON(sc)
		want := canon((&writer{ns}).expected(sc)).(obj)
		got, err := export(c, sc, ns)
		c.Check(err == nil, "the export fails: %v", err)
		c.NonTrivial(len(sc.Http) > 0 || strings.Contains(before, `"Struct"`))
		compare(c, got, want)
		again, _ := export(c, sc, ns)
		c.Check(reflect.DeepEqual(again, got), "a second export differs")
		c.Check(pbt.JSON(sc) == before, "the export changes the schema")
	})
	pbt.Run(t, "refused", pbt.Opt{Quick: 600, Rule: "every case"}, func(c *pbt.C) {
		// what Smithy cannot say, or names that are taken, is reported
		sc := sgen.New(c.T, options())
		prepare(c, sc)
		why := sgen.Pick(c.T, "why", []string{"unit value", "unit field", "service name", "operation name", "request name", "response name", "inline name", "unknown error"})
		act := &sadl.HttpDef{Name: "fetchOne", Method: "GET", Path: "/fetch-one?q={q}", Expected: &sadl.HttpExpectedSpec{Status: 200}}
		q := &sadl.HttpParamSpec{Query: "q"}
		q.Name, q.Type = "q", "String"
		act.Inputs = append(act.Inputs, q)
		out := &sadl.HttpParamSpec{}
		out.Name, out.Type = "out", "String"
		act.Expected.Outputs = append(act.Expected.Outputs, out)
		sc.Http = append(sc.Http, act)
		td := &sadl.TypeDef{Name: "Added"}
		td.Type = sgen.Pick(c.T, "kind", []string{"String", "Struct", "Int32"})
		switch why {
		case "unit value":
			td.TypeSpec = sadl.TypeSpec{Type: "UnitValue", Unit: "String", Value: "Decimal"}
		case "unit field":
			f := &sadl.StructFieldDef{Name: "amount"}
			f.TypeSpec = sadl.TypeSpec{Type: "UnitValue", Unit: "String", Value: "Decimal"}
			td.TypeSpec = sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{f}}
		case "service name":
			td.Name = "AddedService"
			sc.Name = sgen.Pick(c.T, "case", []string{"addedService", "AddedService"})
		case "operation name":
			td.Name = "FetchOne"
		case "request name":
			td.Name = "FetchOneRequest"
		case "response name":
			td.Name = "FetchOneResponse"
		case "inline name":
			td.Name = "HolderThings"
			f := &sadl.StructFieldDef{Name: "things"}
			f.TypeSpec = sadl.TypeSpec{Type: "Array", Items: "String"}
			holder := &sadl.TypeDef{Name: "Holder"}
			holder.TypeSpec = sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{f}}
			sc.Types = append(sc.Types, holder)
		case "unknown error":
			act.Exceptions = append(act.Exceptions, &sadl.HttpExceptionSpec{Status: 404, Type: "Nowhere"})
		}
		i := rapid.IntRange(0, len(sc.Types)).Draw(c.T, "at")
		sc.Types = append(sc.Types[:i:i], append([]*sadl.TypeDef{td}, sc.Types[i:]...)...)
		c.Case("%s\n%s", why, pbt.JSON(sc))
		c.Class("%s", why)
		c.NonTrivial(true)
		if _, err := sadl.NewModel(sgen.Clone(sc)); err != nil {
			c.T.Skip("refused by the language: " + err.Error())
		}
		got, err := export(c, sc, "example")
		if why == "inline name" && err == nil {
			// another name for the inline type is as good
			want := canon((&writer{"example"}).expected(sc)).(obj)
			compare(c, got, want)
			return
		}
		c.Check(err != nil, "%s: the export succeeds: %s", why, pbt.JSON(got))
	})
	pbt.Run(t, "printed", pbt.Opt{Quick: 600, Rule: "an action has an input or output"}, printed)
	pbt.Run(t, "examples", pbt.Opt{Quick: 600, Rule: "an action with two or more examples"}, examples)
	pbt.KnownFinding(t, "P32-error-statuses", func() (bool, string) {
		fail := &sadl.TypeDef{Name: "Failure"}
		fail.Type = "Struct"
		sc := &sadl.Schema{Sadl: sadl.Version, Name: "api", Types: []*sadl.TypeDef{fail}}
		for i, status := range []int32{404, 409} {
			sc.Http = append(sc.Http, &sadl.HttpDef{Name: fmt.Sprint("act", i), Method: "GET", Path: fmt.Sprint("/act", i), Expected: &sadl.HttpExpectedSpec{Status: 200},
				Exceptions: []*sadl.HttpExceptionSpec{{Type: "Failure", Status: status}}})
		}
		m, err := sadl.NewModel(sc)
		if err != nil {
			return true, err.Error()
		}
		ast, err := smithy.FromSADL(m, "example")
		if err != nil {
			return false, "" // refused, and not lost
		}
		text := sadl.Pretty(ast)
		return !strings.Contains(text, "404") || !strings.Contains(text, "409"), "only one of the statuses 404 and 409 is in the model"
	})
}

// printed: Export prints the model in the chosen namespace, with the chosen names for inputs and outputs, whatever
// was exported before.
func printed(c *pbt.C) {
	for k := rapid.IntRange(1, 2).Draw(c.T, "exports"); k > 0; k-- {
		sc := sgen.New(c.T, options())
		prepare(c, sc)
		sc.Namespace = sgen.Pick(c.T, "ns", []string{"", "own.space"})
		conf := sadl.NewData()
		ns := sc.Namespace
		if sgen.Bool(c.T, "conf", 30) {
			ns = "chosen.ns"
			conf.Put("namespace", ns)
		}
		if ns == "" {
			ns = "example"
		}
		in, out := "Request", "Response"
		if rapid.Bool().Draw(c.T, "useInputOutput") {
			in, out = "Input", "Output"
			conf.Put("useInputOutput", true)
		}
		serviceName := sc.Name
		if sgen.Bool(c.T, "conf name", 40) {
			conf.Put("name", "chosenName")
			if rapid.Bool().Draw(c.T, "no name") {
				sc.Name, serviceName = "", "chosenName"
			}
		} else if sgen.Bool(c.T, "no name at all", 30) {
			sc.Name, serviceName = "", "Service"
		}
		c.Case("%s\n%s", pbt.JSON(conf), pbt.JSON(sc))
		m, err := sadl.NewModel(sc)
		c.Check(err == nil, "the schema is refused: %v", err)
		text := ""
		pbt.NoPanic(c, "Export", func() {
			text = pbt.Capture(func() { err = smithy.Export(m, "", conf, true) })
		})
		if err != nil {
			// nothing but a clash of names is in the way, and then there is another choice of names
			c.Check(strings.Contains(err.Error(), "already defined"), "the export fails: %v", err)
			c.T.Skip("names clash")
		}
		doc, ok := canonText(text).(obj)
		c.Check(ok, "it prints %s", text)
		shapes, _ := doc["shapes"].(obj)
		for i := 0; i < 3; i++ {
			again := pbt.Capture(func() { err = smithy.Export(m, "", conf, true) })
			c.Check(again == text, "it prints, the second time,\n%s\nand the first\n%s", again, text)
		}
		c.Check(m.Name == sc.Name, "the export changes the name of the model")
		sc.Name = serviceName
		compare(c, shapes, canon((&writer{ns}).expected(sc)).(obj))
		for _, h := range sc.Http {
			_, hasIn := shapes[ns+"#"+sadl.Capitalize(h.Name)+in]
			_, hasOut := shapes[ns+"#"+sadl.Capitalize(h.Name)+out]
			c.NonTrivial(hasIn || hasOut)
			c.Check(hasIn == (len(h.Inputs) > 0), "%s: the input is %s: %v; %s", h.Name, h.Name+in, hasIn, text)
			c.Check(hasOut == (len(h.Expected.Outputs) > 0), "%s: the output is %s: %v; %s", h.Name, h.Name+out, hasOut, text)
		}
	}
}

// examples: the examples of an action go with its operation, input and outcome paired by name.
func examples(c *pbt.C) {
	sc := &sadl.Schema{Sadl: sadl.Version, Name: "api"}
	fail := &sadl.TypeDef{Name: "Failure"}
	f := &sadl.StructFieldDef{Name: "message"}
	f.Type = "String"
	fail.TypeSpec = sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{f}}
	sc.Types = append(sc.Types, fail)
	want := map[string][]interface{}{}
	n := rapid.IntRange(1, 3).Draw(c.T, "actions")
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("act%d", i)
		h := &sadl.HttpDef{Name: name, Method: "POST", Path: "/" + name, Expected: &sadl.HttpExpectedSpec{Status: 200},
			Exceptions: []*sadl.HttpExceptionSpec{{Status: 404, Type: "Failure"}}}
		in := &sadl.HttpParamSpec{Header: "X-In"}
		in.Name, in.Type = "in", "String"
		h.Inputs = append(h.Inputs, in)
		out := &sadl.HttpParamSpec{Header: "X-Out"}
		out.Name, out.Type = "out", "Int32"
		h.Expected.Outputs = append(h.Expected.Outputs, out)
		sc.Http = append(sc.Http, h)
		id := "example#" + sadl.Capitalize(name)
		for j := rapid.IntRange(0, 4).Draw(c.T, "examples"); j > 0; j-- {
			title := fmt.Sprintf("ex%d_%d", i, rapid.IntRange(0, 99).Draw(c.T, "title")*10+j)
			e := obj{"title": title, "input": obj{"in": "x" + title}}
			comment := sgen.Pick(c.T, "comment", []string{"", "A comment"})
			if comment != "" {
				e["documentation"] = comment
			}
			l := []*sadl.ExampleDef{{Target: sadl.Capitalize(name) + "Request", Name: title, Comment: comment, Example: obj{"in": "x" + title}}}
			switch rapid.IntRange(0, 2).Draw(c.T, "outcome") {
			case 0:
				e["output"] = obj{"out": j}
				l = append(l, &sadl.ExampleDef{Target: sadl.Capitalize(name) + "Response", Name: title, Example: obj{"out": j}})
			case 1:
				e["error"] = obj{"shapeId": "example#Failure", "content": obj{"message": title}}
				l = append(l, &sadl.ExampleDef{Target: "Failure", Name: title, Example: obj{"message": title}})
			}
			if len(l) == 2 && rapid.Bool().Draw(c.T, "swap") {
				l[0], l[1] = l[1], l[0]
			}
			sc.Examples = append(sc.Examples, l...)
			want[id] = append(want[id], e)
		}
		c.NonTrivial(len(want[id]) > 1)
	}
	c.CaseJSON(sc)
	first := ""
	for round := 0; round < 3; round++ {
		got, err := export(c, sc, "example")
		c.Check(err == nil, "the export fails: %v", err)
		for _, h := range sc.Http {
			id := "example#" + sadl.Capitalize(h.Name)
			l, _ := traits(got[id])["smithy.api#examples"].([]interface{})
			q := &comparer{c: c}
			wl, _ := canon(want[id]).([]interface{})
			q.same("the examples of "+id, pbt.JSON(l), pbt.JSON(wl))
		}
		if s := pbt.JSON(got); first == "" {
			first = s
		} else {
			c.Check(s == first, "a second export differs")
		}
	}
}
