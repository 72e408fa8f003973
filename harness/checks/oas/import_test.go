package oas

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"
	"github.com/ghodss/yaml"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
)

// docGen draws OpenAPI 3 documents as plain JSON data.
type docGen struct {
	t     *rapid.T
	names []string
	plain bool // only what Swagger 2 can say, too
}

func (g *docGen) pct(label string, n int) bool          { return sgen.Bool(g.t, label, n) }
func (g *docGen) pick(label string, l ...string) string { return sgen.Pick(g.t, label, l) }
func (g *docGen) between(label string, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(g.t, label)
}
func (g *docGen) ref() dict { return dict{"$ref": refPrefix + g.pick("ref", g.names...)} }
func (g *docGen) describe(d dict, pct int) dict {
	if g.pct("descr?", pct) {
		d["description"] = sgen.Comment(g.t, false)
	}
	return d
}

func (g *docGen) scalar(limits bool) dict {
	d := dict{}
	limits = limits && g.pct("limits", 40)
	switch g.pick("scalar", "string", "string", "integer", "number", "boolean") {
	case "string":
		d["type"] = "string"
		switch g.pick("strkind", "plain", "plain", "uuid", "date-time", "byte", "enum", "values", "sized", "pattern") {
		case "uuid":
			d["format"] = "uuid"
		case "date-time":
			d["format"] = "date-time"
		case "byte":
			d["format"] = "byte"
		case "enum":
			if limits {
				d["enum"] = g.distinct("sym", "red", "GREEN", "b2", "N_A", "Two")
			}
		case "values":
			if limits {
				d["enum"] = append(g.distinct("val", "red", "two words", "x-y", "9"), "a/b")
			}
		case "sized":
			if limits {
				if g.pct("min", 60) {
					d["minLength"] = float64(g.between("minl", 1, 9))
				}
				if g.pct("max", 60) {
					d["maxLength"] = float64(g.between("maxl", 0, 99) + 9)
				}
			}
		case "pattern":
			if limits {
				d["pattern"] = sgen.Patterns[g.between("pat", 0, len(sgen.Patterns)-1)].Re
			}
		}
	case "integer":
		d["type"] = "integer"
		if f := g.pick("ifmt", "", "int32", "int64", "int8", "int16"); f != "" {
			d["format"] = f
		}
		g.minmax(d, limits, false)
	case "number":
		d["type"] = "number"
		if f := g.pick("nfmt", "", "float", "double"); f != "" {
			d["format"] = f
		}
		g.minmax(d, limits, true)
	case "boolean":
		d["type"] = "boolean"
	}
	return d
}

func (g *docGen) minmax(d dict, limits, frac bool) {
	if !limits {
		return
	}
	lo := float64(g.between("min", -1000, 1000))
	hi := lo + float64(g.between("span", 0, 1000))
	if frac {
		lo += float64(g.between("frac", 0, 7)) / 8
		hi++
	}
	if g.pct("min?", 60) {
		d["minimum"] = lo
	}
	if g.pct("max?", 60) {
		d["maximum"] = hi
	}
}

func (g *docGen) distinct(label string, l ...string) []interface{} {
	var r []interface{}
	for _, s := range l {
		if g.pct(label+"-"+s, 50) {
			r = append(r, s)
		}
	}
	if r == nil {
		r = append(r, l[0])
	}
	return r
}

func (g *docGen) item() dict {
	if len(g.names) > 0 && g.pct("itemref", 50) {
		return g.ref()
	}
	return g.scalar(false)
}

func (g *docGen) array() dict {
	d := dict{"type": "array", "items": g.item()}
	if g.pct("minItems", 25) {
		d["minItems"] = float64(g.between("mini", 1, 4))
	}
	if g.pct("maxItems", 25) {
		d["maxItems"] = float64(g.between("maxi", 4, 40))
	}
	return d
}

func (g *docGen) mapping() dict {
	d := dict{"type": "object", "additionalProperties": g.item()}
	if g.pct("minp", 15) {
		d["minProperties"] = float64(g.between("minp", 1, 4))
	}
	if g.pct("maxp", 15) {
		d["maxProperties"] = float64(g.between("maxp", 4, 40))
	}
	return d
}

var propWords = []string{"id", "name", "size", "kind", "tags", "value", "firstName", "x", "y2", "count", "is_ok", "total"}

func (g *docGen) object(depth int) dict {
	props := dict{}
	var req []interface{}
	for i := g.between("nprops", 0, 4); i > 0; i-- {
		n := g.pick("prop", propWords...)
		if props[n] != nil {
			continue
		}
		var p dict
		switch k := g.pick("propkind", "scalar", "scalar", "ref", "array", "map", "object"); {
		case k == "ref" && len(g.names) > 0:
			p = g.ref()
		case k == "array":
			p = g.array()
		case k == "map":
			p = g.mapping()
		case k == "object" && depth < 2:
			p = g.object(depth + 1)
		default:
			p = g.scalar(true)
		}
		if p["$ref"] == nil {
			g.describe(p, 30)
		}
		props[n] = p
		if g.pct("req", 40) {
			req = append(req, n)
		}
	}
	d := dict{"type": "object"}
	if len(props) > 0 || g.pct("emptyprops", 50) {
		d["properties"] = props
	}
	if req != nil {
		d["required"] = req
	}
	if len(props) > 0 && g.pct("untyped", 15) {
		delete(d, "type") // its properties say what it is
	}
	return d
}

func (g *docGen) schema(self string) dict {
	var d dict
	switch k := g.pick("kind", "scalar", "scalar", "object", "object", "object", "array", "map", "union", "alias", "any"); {
	case k == "object":
		d = g.object(0)
	case k == "array":
		d = g.array()
	case k == "map":
		d = g.mapping()
	case k == "union" && !g.plain:
		var alts []interface{}
		used := map[string]bool{}
		for i := g.between("nalts", 1, 3); i > 0; i-- {
			n := g.pick("alt", g.names...)
			if !used[n] {
				used[n] = true
				alts = append(alts, dict{"$ref": refPrefix + n})
			}
		}
		d = dict{"oneOf": alts}
	case k == "any":
		d = dict{}
	default:
		d = g.scalar(true)
	}
	return g.describe(d, 40)
}

var compWords = []string{"Item", "Pet", "Order", "Error", "Foo", "Bar", "Name", "Zip", "Money", "Node", "OrderList", "a", "B2"}

func (g *docGen) components(min, max int) dict {
	n := g.between("nschemas", min, max)
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		w := g.pick("comp", compWords...)
		if !used[w] {
			used[w] = true
			g.names = append(g.names, w)
		}
	}
	schemas := dict{}
	for i, n := range g.names {
		if i > 0 && g.pct("alias", 8) {
			// refer to an earlier one: aliases do not form cycles
			schemas[n] = dict{"$ref": refPrefix + g.names[g.between("aliasto", 0, i-1)]}
			continue
		}
		s := g.schema(n)
		if g.pct("example", 15) && s["type"] == "string" && s["enum"] == nil {
			s["example"] = g.pick("extext", "abc", "x y")
		}
		schemas[n] = s
	}
	return schemas
}

func (g *docGen) paramSchema() dict {
	if len(g.names) > 0 && g.pct("pref", 25) && !g.plain {
		return g.ref()
	}
	if g.pct("parr", 15) {
		return dict{"type": "array", "items": g.scalar(false)}
	}
	return g.scalar(true)
}

func (g *docGen) bodySchema() dict {
	if len(g.names) > 0 && g.pct("bref", 70) {
		return g.ref()
	}
	switch g.pick("bkind", "array", "object", "scalar", "map") {
	case "array":
		return g.array()
	case "object":
		return g.object(0)
	case "map":
		return g.mapping()
	}
	return g.scalar(true)
}

func (g *docGen) content(s dict) dict {
	d := dict{"application/json": dict{"schema": s}}
	if g.pct("xml", 10) && !g.plain {
		d["application/xml"] = dict{"schema": dict{"type": "string"}}
	}
	return d
}

func (g *docGen) paths(max int) dict {
	paths := dict{}
	nops := 0
	for i := g.between("npaths", 0, max); i > 0; i-- {
		p := "/" + g.pick("seg", "items", "pets", "v1/orders", "a-b")
		var pathParams []interface{}
		used := map[string]bool{}
		param := func(in, name string) dict {
			used[in+name] = true
			d := dict{"in": in, "name": name, "schema": g.paramSchema()}
			if in == "path" {
				d["required"] = true
			} else if g.pct("preq", 40) {
				d["required"] = true
			}
			return g.describe(d, 30)
		}
		for j := g.between("npp", 0, 2); j > 0; j-- {
			n := g.pick("pp", "id", "pet-id", "y2", "petId", "x_1")
			if used["path"+n] {
				continue
			}
			p += "/{" + n + "}"
			pathParams = append(pathParams, param("path", n))
		}
		if paths[p] != nil {
			continue
		}
		pi := dict{}
		// parameters of the path, which its operations may override
		shared := g.pct("shared", 35)
		if shared {
			l := append([]interface{}{}, pathParams...)
			if g.pct("sharedq", 60) {
				l = append(l, param("query", g.pick("sqp", "limit", "q", "all")))
			}
			if g.pct("sharedh", 40) {
				l = append(l, param("header", g.pick("shp", "X-Token", "Depth", "X-Trace")))
			}
			if len(l) > 0 {
				pi["parameters"] = l
			}
		}
		for _, m := range []string{"get", "put", "post", "delete", "head", "patch", "options"} {
			if !g.pct("m-"+m, 30) {
				continue
			}
			nops++
			op := dict{"operationId": fmt.Sprintf("%s%d", m, nops)}
			if g.pct("summary", 50) {
				op["summary"] = sgen.Comment(g.t, false)
			}
			if n := g.between("ntags", 0, 3); n > 0 {
				var l []interface{}
				for k := 0; k < n; k++ {
					l = append(l, g.pick("tag", "pet", "store", "admin"))
				}
				op["tags"] = l
			}
			var params []interface{}
			if !shared {
				params = append(params, pathParams...)
			} else if len(pathParams) > 0 && g.pct("override", 30) {
				params = append(params, param("path", text(pathParams[0].(dict), "name")))
			}
			for k, v := range used {
				if !strings.HasPrefix(k, "path") && v {
					delete(used, k)
				}
			}
			for j := g.between("nq", 0, 2); j > 0; j-- {
				n := g.pick("qp", "limit", "sort-by", "q", "page2")
				if !used["query"+n] {
					params = append(params, param("query", n))
				}
			}
			for j := g.between("nh", 0, 1); j > 0; j-- {
				n := g.pick("hp", "X-Token", "If-Match", "Depth")
				if !used["header"+n] {
					params = append(params, param("header", n))
				}
			}
			if params != nil {
				op["parameters"] = params
			}
			if (m == "put" || m == "post" || m == "patch") && g.pct("body", 75) {
				b := dict{"content": g.content(g.bodySchema())}
				if g.pct("breq", 70) {
					b["required"] = true
				}
				op["requestBody"] = g.describe(b, 30)
			}
			responses := dict{}
			resp := func(body dict) dict {
				r := dict{"description": sgen.Comment(g.t, false)}
				if body != nil {
					r["content"] = g.content(body)
				}
				return r
			}
			ok := g.pick("ok", "200", "201", "204", "default", "302", "200")
			var body dict
			if ok != "204" && g.pct("okbody", 80) {
				body = g.bodySchema()
			}
			responses[ok] = resp(body)
			if g.pct("headers", 30) {
				hs := dict{}
				for j := g.between("nrh", 1, 2); j > 0; j-- {
					hs[g.pick("rh", "X-Rate", "Etag", "x-next")] = g.describe(dict{"schema": g.scalar(true)}, 40)
				}
				responses[ok].(dict)["headers"] = hs
			}
			if g.pct("ok2", 15) && ok == "200" {
				responses["202"] = resp(nil)
			}
			for _, st := range []string{"400", "404", "500", "default"} {
				if responses[st] != nil || !g.pct("r"+st, 25) {
					continue
				}
				var eb dict
				if len(g.names) > 0 && g.pct("ebody", 80) {
					eb = g.ref()
				}
				responses[st] = resp(eb)
			}
			op["responses"] = responses
			pi[m] = op
		}
		paths[p] = pi
	}
	return paths
}

func (g *docGen) document(maxTypes, maxPaths int) dict {
	doc := dict{"openapi": g.pick("oasver", "3.0.0", "3.0.1"), "info": dict{}}
	info := sub(doc, "info")
	info["title"] = g.pick("title", "petstore", "My_API", "Swagger Petstore", "A: title!")
	info["version"] = g.pick("ver", "1", "1.0.0", "2021-01-02")
	g.describe(info, 50)
	if g.pct("license", 25) {
		info["license"] = dict{"name": "MIT"}
		if g.pct("licurl", 50) {
			sub(info, "license")["url"] = "https://example.com/l"
		}
	}
	schemas := g.components(0, maxTypes)
	if len(schemas) > 0 {
		doc["components"] = dict{"schemas": schemas}
	}
	doc["paths"] = g.paths(maxPaths)
	if g.pct("server", 40) {
		doc["servers"] = []interface{}{dict{"url": "https://api.example.com/v1"}}
	}
	return doc
}

// sharer moves parts of the operations of a document to a place where they can be
// referred to by name, and puts references in their place.
type sharer struct {
	t      *rapid.T
	pct    int
	where  func(kind string) dict // where the definitions of a kind go
	prefix string
	kinds  []string // of these only
	n      int
}

func (sh *sharer) ref(kind string, v interface{}) interface{} {
	ok := false
	for _, k := range sh.kinds {
		ok = ok || k == kind
	}
	if !ok || !sgen.Bool(sh.t, "share-"+kind, sh.pct) {
		return v
	}
	defs := sh.where(kind)
	for name, def := range defs {
		if pbt.JSON(def) == pbt.JSON(v) {
			return dict{"$ref": sh.prefix + kind + "/" + name}
		}
	}
	sh.n++
	name := fmt.Sprintf("%s%d", sgen.Pick(sh.t, "shname", []string{"a", "limit", "Not-Found", "x.y", "T0"}), sh.n)
	defs[name] = v
	if sh.prefix != "#/" && sgen.Bool(sh.t, "shchain", 15) {
		defs["via"+name] = dict{"$ref": sh.prefix + kind + "/" + name}
		name = "via" + name
	}
	return dict{"$ref": sh.prefix + kind + "/" + name}
}

func (sh *sharer) params(d dict) {
	if l := list(d, "parameters"); l != nil {
		var nl []interface{}
		for _, x := range l {
			nl = append(nl, sh.ref("parameters", x))
		}
		d["parameters"] = nl
	}
}

func (sh *sharer) paths(doc dict) {
	for _, p := range keys(sub(doc, "paths")) {
		pi := sub(doc, "paths", p)
		sh.params(pi)
		for _, m := range keys(pi) {
			if m == "parameters" {
				continue
			}
			op := sub(pi, m)
			sh.params(op)
			if op["requestBody"] != nil {
				op["requestBody"] = sh.ref("requestBodies", op["requestBody"])
			}
			rs := sub(op, "responses")
			for _, st := range keys(rs) {
				hs := sub(rs, st, "headers")
				for _, k := range keys(hs) {
					hs[k] = sh.ref("headers", hs[k])
				}
				rs[st] = sh.ref("responses", rs[st])
			}
		}
	}
}

// shared says the same as doc (an OpenAPI 3 document), with some of it by reference.
func shared(c *pbt.C, doc dict) (dict, int) {
	doc = decode(c, pbt.JSON(doc))
	if !sgen.Bool(c.T, "share", 40) {
		return doc, 0
	}
	defs := map[string]dict{}
	sh := &sharer{t: c.T, pct: 20 * rapid.IntRange(1, 4).Draw(c.T, "sharepct"), prefix: "#/components/", kinds: []string{"parameters", "requestBodies", "responses", "headers"}}
	sh.where = func(kind string) dict {
		if defs[kind] == nil {
			defs[kind] = dict{}
		}
		return defs[kind]
	}
	sh.paths(doc)
	for kind, d := range defs {
		if doc["components"] == nil {
			doc["components"] = dict{}
		}
		sub(doc, "components")[kind] = d
	}
	return doc, sh.n
}

// sharedSwagger does that for a Swagger 2 document.
func sharedSwagger(c *pbt.C, doc dict) dict {
	doc = decode(c, pbt.JSON(doc))
	if !sgen.Bool(c.T, "share2", 40) {
		return doc
	}
	sh := &sharer{t: c.T, pct: 20 * rapid.IntRange(1, 4).Draw(c.T, "sharepct2"), prefix: "#/", kinds: []string{"parameters", "responses"}}
	sh.where = func(kind string) dict {
		if doc[kind] == nil {
			doc[kind] = dict{}
		}
		return sub(doc, kind)
	}
	sh.paths(doc)
	return doc
}

// ---- oracle: the SADL type an OpenAPI schema stands for

type imported struct {
	doc dict
}

func (im *imported) resolve(js dict) dict {
	for i := 0; i < 20; i++ {
		ref := text(js, "$ref")
		if ref == "" {
			return js
		}
		js = sub(im.doc, "components", "schemas", strings.TrimPrefix(ref, refPrefix))
	}
	return nil
}

var symbolRe = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9_]*$`)

func i64p(v interface{}) *int64 {
	f, ok := v.(float64)
	if !ok || f == 0 {
		return nil
	}
	n := int64(f)
	return &n
}

func sameInt(a, b *int64) bool {
	return a == nil && b == nil || a != nil && b != nil && *a == *b
}

func showInt(a *int64) string {
	if a == nil {
		return "none"
	}
	return fmt.Sprint(*a)
}

// itemName is the item type expected for an inline item schema.
func itemName(js dict) []string {
	if ref := text(js, "$ref"); ref != "" {
		return []string{strings.TrimPrefix(ref, refPrefix)}
	}
	return baseNames(js)
}

func baseNames(js dict) []string {
	switch text(js, "type") {
	case "boolean":
		return []string{"Bool"}
	case "string":
		switch text(js, "format") {
		case "uuid":
			return []string{"UUID"}
		case "date-time":
			return []string{"Timestamp"}
		case "byte":
			return []string{"Bytes"}
		}
		return []string{"String"}
	case "integer":
		switch text(js, "format") {
		case "int8":
			return []string{"Int8"}
		case "int16":
			return []string{"Int16"}
		case "int32":
			return []string{"Int32"}
		}
		return []string{"Int64"}
	case "number":
		switch text(js, "format") {
		case "float":
			return []string{"Decimal", "Float32", "Float64"}
		case "double":
			return []string{"Decimal", "Float64"}
		}
		return []string{"Decimal"}
	}
	return nil
}

// check returns "" or why ts is not the import of js. param: js is the schema of a parameter.
func (im *imported) check(js dict, ts *sadl.TypeSpec, param bool) string {
	if ref := text(js, "$ref"); ref != "" {
		n := strings.TrimPrefix(ref, refPrefix)
		if ts.Type != n {
			return fmt.Sprintf("type is %s, want %s", ts.Type, n)
		}
		return plainSpec(ts)
	}
	var r []string
	add := func(ok bool, format string, args ...interface{}) {
		if !ok {
			r = append(r, fmt.Sprintf(format, args...))
		}
	}
	rest := sadl.TypeSpec{Type: ts.Type} // what has been accounted for
	kind := text(js, "type")
	if js["oneOf"] != nil {
		kind = "union"
	} else if kind == "object" && js["additionalProperties"] != nil && len(sub(js, "properties")) == 0 {
		kind = "map"
	} else if kind == "" && js["properties"] == nil {
		kind = "any"
	} else if kind == "" {
		kind = "object"
	}
	switch kind {
	case "boolean", "integer", "number", "string":
		if en := list(js, "enum"); en != nil {
			var want []string
			syms := true
			for _, e := range en {
				want = append(want, e.(string))
				syms = syms && symbolRe.MatchString(e.(string))
			}
			var got []string
			if ts.Type == "Enum" {
				add(syms, "an Enum for values that are not symbols: %q", want)
				for _, e := range ts.Elements {
					got = append(got, e.Symbol)
				}
				rest.Elements = ts.Elements
			} else {
				add(ts.Type == "String", "type is %s, want String or Enum", ts.Type)
				add(!syms || param, "symbols %q are not an Enum", want)
				got = ts.Values
				rest.Values = ts.Values
			}
			add(strings.Join(got, "|") == strings.Join(want, "|"), "values are %q, want %q", got, want)
			break
		}
		names := baseNames(js)
		add(sgen.Has(names, ts.Type), "type is %s, want %v", ts.Type, names)
		if kind == "string" && ts.Type == "String" {
			add(ts.Pattern == text(js, "pattern"), "pattern is %q, want %q", ts.Pattern, text(js, "pattern"))
			add(sameInt(ts.MinSize, i64p(js["minLength"])), "minsize is %s, want %v", showInt(ts.MinSize), js["minLength"])
			add(sameInt(ts.MaxSize, i64p(js["maxLength"])), "maxsize is %s, want %v", showInt(ts.MaxSize), js["maxLength"])
			rest.Pattern, rest.MinSize, rest.MaxSize = ts.Pattern, ts.MinSize, ts.MaxSize
		}
		if kind == "integer" || kind == "number" {
			for _, x := range []struct {
				k string
				d *sadl.Decimal
			}{{"minimum", ts.Min}, {"maximum", ts.Max}} {
				w, ok := js[x.k].(float64)
				add(ok == (x.d != nil) && (!ok || x.d.AsFloat64() == w), "%s is %v, want %v", x.k, x.d, js[x.k])
			}
			rest.Min, rest.Max = ts.Min, ts.Max
		}
	case "array":
		add(ts.Type == "Array", "type is %s, want Array", ts.Type)
		names := itemName(sub(js, "items"))
		add(sgen.Has(names, ts.Items), "items are %s, want %v", ts.Items, names)
		add(sameInt(ts.MinSize, i64p(js["minItems"])), "minsize is %s, want %v", showInt(ts.MinSize), js["minItems"])
		add(sameInt(ts.MaxSize, i64p(js["maxItems"])), "maxsize is %s, want %v", showInt(ts.MaxSize), js["maxItems"])
		rest.Items, rest.MinSize, rest.MaxSize = ts.Items, ts.MinSize, ts.MaxSize
	case "map":
		add(ts.Type == "Map", "type is %s, want Map", ts.Type)
		add(ts.Keys == "String", "keys are %s, want String", ts.Keys)
		names := itemName(sub(js, "additionalProperties"))
		add(sgen.Has(names, ts.Items), "items are %s, want %v", ts.Items, names)
		add(sameInt(ts.MinSize, i64p(js["minProperties"])), "minsize is %s, want %v", showInt(ts.MinSize), js["minProperties"])
		add(sameInt(ts.MaxSize, i64p(js["maxProperties"])), "maxsize is %s, want %v", showInt(ts.MaxSize), js["maxProperties"])
		rest.Items, rest.Keys, rest.MinSize, rest.MaxSize = ts.Items, ts.Keys, ts.MinSize, ts.MaxSize
	case "union":
		add(ts.Type == "Union", "type is %s, want Union", ts.Type)
		alts := list(js, "oneOf")
		add(len(alts) == len(ts.Variants), "%d variants, want %d", len(ts.Variants), len(alts))
		if len(alts) == len(ts.Variants) {
			for i, a := range alts {
				s := im.check(a.(dict), &ts.Variants[i].TypeSpec, false)
				add(s == "", "variant %d: %s", i, s)
			}
		}
		rest.Variants = ts.Variants
	case "any":
		add(ts.Type == "Any", "type is %s, want Any", ts.Type)
	case "object":
		add(ts.Type == "Struct", "type is %s, want Struct", ts.Type)
		props := sub(js, "properties")
		req := map[string]bool{}
		for _, x := range list(js, "required") {
			req[x.(string)] = true
		}
		seen := map[string]bool{}
		for _, fd := range ts.Fields {
			p, _ := props[fd.Name].(dict)
			add(p != nil && !seen[fd.Name], "unexpected field %s", fd.Name)
			seen[fd.Name] = true
			if p == nil {
				continue
			}
			s := im.check(p, &fd.TypeSpec, false)
			add(s == "", "field %s: %s", fd.Name, s)
			add(fd.Required == req[fd.Name], "field %s: required is %v, want %v", fd.Name, fd.Required, req[fd.Name])
			add(fd.Comment == text(p, "description"), "field %s: comment %q, want %q", fd.Name, fd.Comment, text(p, "description"))
		}
		add(len(seen) == len(props), "fields are %v, want %v", seen, keys(props))
		rest.Fields = ts.Fields
	default:
		add(false, "oracle: unknown kind %q", kind)
	}
	if len(r) == 0 && pbt.JSON(rest) != pbt.JSON(*ts) {
		r = append(r, fmt.Sprintf("unexpected constraints: %s", pbt.JSON(*ts)))
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}

func plainSpec(ts *sadl.TypeSpec) string {
	if pbt.JSON(*ts) != pbt.JSON(sadl.TypeSpec{Type: ts.Type}) {
		return "unexpected constraints: " + pbt.JSON(*ts)
	}
	return ""
}

func importFile(c *pbt.C, name, data string, f func([]string, *sadl.Data) (*sadl.Model, error)) (*sadl.Model, error) {
	dir, done := pbt.Scratch()
	defer done()
	p := filepath.Join(dir, name)
	os.WriteFile(p, []byte(data), 0644)
	var m *sadl.Model
	var err error
	out := pbt.Capture(func() {
		pbt.NoPanic(c, "the import", func() { m, err = f([]string{p}, sadl.NewData()) })
	})
	c.Check(out == "", "the import writes to the standard output: %q", out)
	return m, err
}

func toYAML(c *pbt.C, js string) string {
	y, err := yaml.JSONToYAML([]byte(js))
	c.Check(err == nil, "yaml: %v", err)
	return string(y)
}

func checkTypes(c *pbt.C, doc dict, sc *sadl.Schema) {
	im := &imported{doc}
	schemas := sub(doc, "components", "schemas")
	seen := map[string]bool{}
	for _, td := range sc.Types {
		js, _ := schemas[td.Name].(dict)
		c.Check(js != nil && !seen[td.Name], "unexpected type %s", td.Name)
		seen[td.Name] = true
		alias := text(js, "$ref") != ""
		js2 := im.resolve(js)
		if s := im.check(js2, &td.TypeSpec, false); s != "" {
			c.Fatalf("type %s: %s", td.Name, s)
		}
		if !alias {
			c.Check(td.Comment == text(js, "description"), "type %s: comment %q, want %q", td.Name, td.Comment, text(js, "description"))
		}
	}
	c.Check(len(seen) == len(schemas), "types are %v, want %v", seen, keys(schemas))
	for n, s := range schemas {
		if ex, ok := s.(dict)["example"]; ok {
			found := false
			for _, e := range sc.Examples {
				found = found || e.Target == n && fmt.Sprint(e.Example) == fmt.Sprint(ex)
			}
			c.Check(found, "the example of %s is lost", n)
		}
	}
}

// ---------------------------------------------------------------- P19 types

func TestP19(t *testing.T) {
	pbt.Run(t, "types", pbt.Opt{Quick: 5000, Rule: "three or more schemas, one of them with references"}, func(c *pbt.C) {
		g := &docGen{t: c.T}
		doc := g.document(7, 0)
		js := pbt.JSON(doc)
		c.Case("%s", js)
		refs := 0
		walkRefs(doc, func(string) { refs++ })
		c.NonTrivial(refs > 0 && len(g.names) >= 3)
		name, data := "some.api.json", js
		if sgen.Bool(c.T, "yaml", 30) {
			name, data = "some.api.yaml", toYAML(c, js)
		}
		m, err := importFile(c, name, data, openapi.Import)
		c.Check(err == nil, "the import fails: %v", err)
		checkTypes(c, doc, &m.Schema)
		checkInfo(c, doc, &m.Schema, "some_api")
	})
	pbt.Run(t, "bad-schemas", pbt.Opt{Quick: 1000, Rule: "every case"}, func(c *pbt.C) {
		g := &docGen{t: c.T}
		doc := g.document(4, 0)
		schemas := sub(doc, "components", "schemas")
		if schemas == nil {
			schemas = dict{}
			doc["components"] = dict{"schemas": schemas}
		}
		var bad dict
		switch sgen.Pick(c.T, "bad", []string{"type", "enum", "alias", "loop", "loop2", "combined"}) {
		case "type":
			bad = dict{"type": sgen.Pick(c.T, "t", []string{"strings", "null", "file", "Int32"})}
		case "enum":
			bad = dict{"type": "string", "enum": []interface{}{"a", float64(1)}}
		case "alias":
			bad = dict{"$ref": refPrefix + "Nowhere"}
		case "loop":
			bad = dict{"$ref": refPrefix + "Broken"}
		case "combined":
			one := dict{"type": "object", "properties": dict{"p": dict{"type": "string"}}}
			switch k := sgen.Pick(c.T, "how", []string{"allOf", "anyOf", "not"}); k {
			case "not":
				bad = dict{k: one}
			default:
				bad = dict{k: []interface{}{one, dict{"type": "object", "properties": dict{"q": dict{"type": "string"}}}}}
			}
			if sgen.Bool(c.T, "typed", 40) {
				bad["type"] = "object"
			}
		case "loop2":
			bad = dict{"$ref": refPrefix + "Broken2"}
			schemas["Broken2"] = dict{"$ref": refPrefix + "Broken"}
		}
		if bad["$ref"] == nil {
			switch sgen.Pick(c.T, "where", []string{"top", "property", "items", "values", "deep"}) {
			case "property":
				bad = dict{"type": "object", "properties": dict{"a": bad, "z": dict{"type": "string"}}}
			case "items":
				bad = dict{"type": "array", "items": bad}
			case "values":
				bad = dict{"type": "object", "additionalProperties": bad}
			case "deep":
				bad = dict{"type": "object", "properties": dict{"a": dict{"type": "object", "properties": dict{"b": bad, "c": dict{"type": "boolean"}}}, "z": dict{"type": "string"}}}
			}
		}
		schemas["Broken"] = bad
		c.CaseJSON(doc)
		c.NonTrivial(true)
		_, err := importFile(c, "x.json", pbt.JSON(doc), openapi.Import)
		c.Check(err != nil, "the document is imported")
	})
}

func checkInfo(c *pbt.C, doc dict, sc *sadl.Schema, file string) {
	info := sub(doc, "info")
	title, descr := text(info, "title"), text(info, "description")
	if symbolRe.MatchString(title) {
		c.Check(sc.Name == title, "name is %q, want %q", sc.Name, title)
		c.Check(sc.Comment == descr, "comment is %q, want %q", sc.Comment, descr)
	} else {
		c.Check(sc.Name == file, "name is %q, want %q", sc.Name, file)
		c.Check(strings.Contains(sc.Comment, title) && strings.Contains(sc.Comment, descr), "comment is %q, want %q and %q", sc.Comment, title, descr)
	}
	c.Check(sc.Version == text(info, "version"), "version is %q, want %q", sc.Version, text(info, "version"))
	c.Check(sc.Annotations["x_license_name"] == text(sub(info, "license"), "name"), "license is %q", sc.Annotations["x_license_name"])
	c.Check(sc.Annotations["x_license_url"] == text(sub(info, "license"), "url"), "license url is %q", sc.Annotations["x_license_url"])
	server := ""
	for _, s := range list(doc, "servers") {
		server = text(s.(dict), "url")
	}
	c.Check(sc.Annotations["x_server"] == server, "server is %q, want %q", sc.Annotations["x_server"], server)
}

// ---------------------------------------------------------------- P20 operations

func ident(s string) string {
	r := ""
	for _, ch := range s {
		if ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || r != "" && ch >= '0' && ch <= '9' {
			r += string(ch)
		}
	}
	return r
}

func checkHttp(c *pbt.C, doc dict, sc *sadl.Schema) {
	im := &imported{doc}
	byName := map[string]*sadl.HttpDef{}
	for _, h := range sc.Http {
		c.Check(byName[h.Name] == nil, "two actions named %s", h.Name)
		byName[h.Name] = h
	}
	n := 0
	for p, pi := range sub(doc, "paths") {
		pd := pi.(dict)
		for method, o := range pd {
			if method == "parameters" {
				continue
			}
			n++
			op := o.(dict)
			at := text(op, "operationId")
			h := byName[at]
			c.Check(h != nil, "operation %s (%s %s) is lost", at, method, p)
			c.Check(h.Method == strings.ToUpper(method), "%s: method is %s", at, h.Method)
			c.Check(h.Comment == text(op, "summary"), "%s: comment %q, want %q", at, h.Comment, text(op, "summary"))
			var tags []string
			for _, x := range list(op, "tags") {
				tags = append(tags, x.(string))
			}
			res, rest := "", ""
			if len(tags) > 0 {
				res, rest = tags[0], strings.Join(tags[1:], ",")
			}
			c.Check(h.Resource == res, "%s: resource %q, want %q", at, h.Resource, res)
			c.Check(h.Annotations["x_tags"] == rest, "%s: x_tags %q, want %q", at, h.Annotations["x_tags"], rest)
			params := append([]interface{}{}, list(op, "parameters")...)
			for _, x := range list(pd, "parameters") {
				over := false
				for _, y := range list(op, "parameters") {
					over = over || text(x.(dict), "in") == text(y.(dict), "in") && text(x.(dict), "name") == text(y.(dict), "name")
				}
				if !over {
					params = append(params, x)
				}
			}
			path := p
			var queries []string
			used := make([]bool, len(h.Inputs))
			for _, x := range params {
				pr := x.(dict)
				id := ident(text(pr, "name"))
				var in *sadl.HttpParamSpec
				for i, cand := range h.Inputs {
					if used[i] || cand.Name != id {
						continue
					}
					if cand.Path == (text(pr, "in") == "path") && (cand.Query != "") == (text(pr, "in") == "query") && (cand.Header != "") == (text(pr, "in") == "header") {
						used[i], in = true, cand
						break
					}
				}
				k := text(pr, "in") + " " + text(pr, "name")
				c.Check(in != nil, "%s: parameter %s is lost", at, k)
				switch text(pr, "in") {
				case "path":
					path = strings.Replace(path, "{"+text(pr, "name")+"}", "{"+id+"}", -1)
				case "query":
					c.Check(in.Query == text(pr, "name"), "%s: query %q, want %q", at, in.Query, text(pr, "name"))
					queries = append(queries, text(pr, "name")+"={"+id+"}")
				case "header":
					c.Check(in.Header == text(pr, "name"), "%s: header %q, want %q", at, in.Header, text(pr, "name"))
				}
				req, _ := pr["required"].(bool)
				c.Check(in.Required == req, "%s: parameter %s: required is %v, want %v", at, k, in.Required, req)
				c.Check(in.Comment == text(pr, "description"), "%s: parameter %s: comment %q, want %q", at, k, in.Comment, text(pr, "description"))
				s := im.check(sub(pr, "schema"), &in.TypeSpec, true)
				c.Check(s == "", "%s: parameter %s: %s", at, k, s)
			}
			gotPath, gotQuery := h.Path, ""
			if i := strings.Index(h.Path, "?"); i >= 0 {
				gotPath, gotQuery = h.Path[:i], h.Path[i+1:]
			}
			c.Check(gotPath == path, "%s: path %q, want %q", at, gotPath, path)
			c.Check(sameSet(strings.FieldsFunc(gotQuery, func(r rune) bool { return r == '&' }), queries), "%s: query %q, want %v", at, gotQuery, queries)
			rb := sub(op, "requestBody")
			for i, in := range h.Inputs {
				if used[i] {
					continue
				}
				c.Check(rb != nil && !in.Path && in.Query == "" && in.Header == "", "%s: unexpected input %s", at, pbt.JSON(in))
				s := im.check(sub(rb, "content", "application/json", "schema"), &in.TypeSpec, false)
				c.Check(s == "", "%s: body: %s", at, s)
				req, _ := rb["required"].(bool)
				c.Check(in.Required == req, "%s: body: required is %v, want %v", at, in.Required, req)
				c.Check(in.Comment == text(rb, "description"), "%s: body: comment %q, want %q", at, in.Comment, text(rb, "description"))
				rb = nil
			}
			c.Check(rb == nil, "%s: the request body is lost", at)
			responses := sub(op, "responses")
			exp := "default"
			for _, k := range keys(responses) {
				if k[0] == '2' || k[0] == '3' {
					exp = k
					break
				}
			}
			c.Check(h.Expected != nil, "%s: no expected response", at)
			want := exp
			if want == "default" {
				want = "200"
			}
			if st := fmt.Sprint(h.Expected.Status); st != want {
				// several successful responses: any of them may be the expected one
				_, ok := responses[st]
				c.Check(ok && st[0] == '2' && want[0] == '2', "%s: expected status %s, want %s", at, st, want)
				exp = st
			}
			resp := sub(responses, exp)
			c.Check(h.Expected.Comment == text(resp, "description"), "%s: response comment %q, want %q", at, h.Expected.Comment, text(resp, "description"))
			bodies, headers := 0, 0
			for _, out := range h.Expected.Outputs {
				if out.Header == "" {
					bodies++
					s := im.check(sub(resp, "content", "application/json", "schema"), &out.TypeSpec, false)
					c.Check(s == "", "%s: response body: %s", at, s)
					continue
				}
				headers++
				hd := sub(resp, "headers", out.Header)
				c.Check(hd != nil, "%s: unexpected response header %s", at, out.Header)
				c.Check(out.Comment == text(hd, "description"), "%s: header %s: comment %q, want %q", at, out.Header, out.Comment, text(hd, "description"))
				s := im.check(sub(hd, "schema"), &out.TypeSpec, false)
				c.Check(s == "", "%s: header %s: %s", at, out.Header, s)
				short := out.Header
				if strings.HasPrefix(strings.ToLower(short), "x-") {
					short = short[2:]
				}
				c.Check(out.Name == ident(short), "%s: header %s is named %q", at, out.Header, out.Name)
			}
			wantBodies := 0
			if sub(resp, "content", "application/json", "schema") != nil {
				wantBodies = 1
			}
			c.Check(bodies == wantBodies, "%s: %d response bodies, want %d", at, bodies, wantBodies)
			c.Check(headers == len(sub(resp, "headers")), "%s: %d response headers, want %v", at, headers, keys(sub(resp, "headers")))
			left := map[string]bool{}
			for k := range responses {
				if k != exp {
					left[k] = true
				}
			}
			for _, e := range h.Exceptions {
				k := fmt.Sprint(e.Status)
				if e.Status == 0 {
					k = "default"
				}
				c.Check(left[k], "%s: unexpected exception %s", at, k)
				delete(left, k)
				r := sub(responses, k)
				c.Check(e.Comment == text(r, "description"), "%s: %s response comment %q, want %q", at, k, e.Comment, text(r, "description"))
				ref := strings.TrimPrefix(text(sub(r, "content", "application/json", "schema"), "$ref"), refPrefix)
				c.Check(e.Type == ref, "%s: %s response type %q, want %q", at, k, e.Type, ref)
			}
			c.Check(len(left) == 0, "%s: responses are lost: %v", at, left)
		}
	}
	c.Check(n == len(sc.Http), "%d actions, want %d", len(sc.Http), n)
}

func TestP20(t *testing.T) {
	pbt.Run(t, "operations", pbt.Opt{Quick: 4000, Rule: "two or more operations"}, func(c *pbt.C) {
		g := &docGen{t: c.T}
		doc := g.document(3, 3)
		written, _ := shared(c, doc)
		js := pbt.JSON(written)
		c.Case("%s", js)
		m, err := importFile(c, "x.json", js, openapi.Import)
		c.Check(err == nil, "the import fails: %v", err)
		c.NonTrivial(len(m.Http) >= 2)
		checkHttp(c, doc, &m.Schema)
	})
	pbt.Run(t, "repeatable-and-loadable", pbt.Opt{Quick: 800, Rule: "two or more types and operations"}, func(c *pbt.C) {
		g := &docGen{t: c.T}
		doc, _ := shared(c, g.document(6, 3))
		js := pbt.JSON(doc)
		c.Case("%s", js)
		m, err := importFile(c, "x.json", js, openapi.Import)
		c.Check(err == nil, "the import fails: %v", err)
		c.NonTrivial(len(m.Http) >= 2 && len(m.Types) >= 2)
		first := pbt.JSON(m.Schema)
		for i := 0; i < 4; i++ {
			m2, err := importFile(c, "x.json", js, openapi.Import)
			c.Check(err == nil && pbt.JSON(m2.Schema) == first, "importing again gives something else (%v)", err)
		}
		m3, err := importFile(c, "x.yaml", toYAML(c, js), openapi.Import)
		c.Check(err == nil && pbt.JSON(m3.Schema) == first, "importing the YAML form gives something else (%v)", err)
		dir, done := pbt.Scratch()
		defer done()
		p := filepath.Join(dir, "m.json")
		os.WriteFile(p, []byte(sadl.Pretty(m.Schema)), 0644)
		back, err := sadl.LoadModel(p)
		c.Check(err == nil, "the imported model cannot be saved and loaded: %v", err)
		c.Check(pbt.JSON(back.Schema) == first, "the imported model changes when saved and loaded")
	})
	pbt.Run(t, "together", pbt.Opt{Quick: 60, Rule: "every case"}, func(c *pbt.C) {
		dir, done := pbt.Scratch()
		defer done()
		c.NonTrivial(true)
		var ops []func() string
		var all []string
		for i := 0; i < 6; i++ {
			g := &docGen{t: c.T}
			doc, _ := shared(c, g.document(5, 2))
			js := pbt.JSON(doc)
			all = append(all, js)
			p := filepath.Join(dir, fmt.Sprintf("d%d.json", i))
			os.WriteFile(p, []byte(js), 0644)
			ops = append(ops, func() string {
				m, err := openapi.Import([]string{p}, sadl.NewData())
				if err != nil {
					return err.Error()
				}
				return pbt.JSON(m.Schema)
			})
		}
		c.Case("%s", strings.Join(all, "\n"))
		pbt.Capture(func() { pbt.Together(c, "the import", ops) })
	})
	pbt.Run(t, "mangled", pbt.Opt{Quick: 3000, Rule: "the document is refused"}, func(c *pbt.C) {
		g := &docGen{t: c.T}
		doc, _ := shared(c, g.document(3, 2))
		doc = decode(c, pbt.JSON(doc))
		at := sgen.Mangle(c.T, doc)
		js := pbt.JSON(doc)
		c.Case("%s\n%s", at, js)
		m, err := importFile(c, "x.json", js, openapi.Import)
		c.NonTrivial(err != nil)
		c.Check(err != nil || m != nil, "neither a model nor an error")
	})
	pbt.Run(t, "bad-operations", pbt.Opt{Quick: 800, Rule: "every case"}, func(c *pbt.C) {
		g := &docGen{t: c.T}
		doc := g.document(3, 2)
		op := dict{"operationId": "broken", "responses": dict{"200": dict{"description": "ok"}}}
		path := "/broken"
		mode := sgen.Pick(c.T, "bad", []string{"cookie", "template", "object", "wildcard", "noresponse", "status", "type", "ref", "ref", "loop"})
		switch mode {
		case "cookie":
			op["parameters"] = []interface{}{dict{"in": "cookie", "name": "c", "schema": dict{"type": "string"}}}
		case "template":
			op["parameters"] = []interface{}{dict{"in": "path", "name": "id", "required": true, "schema": dict{"type": "string"}}}
			path = sgen.Pick(c.T, "tmpl", []string{"/broken", "/broken/{id2}", "/broken/id", "/broken/{Id}"})
		case "object":
			op["parameters"] = []interface{}{dict{"in": "query", "name": "q", "schema": dict{"type": "object"}}}
		case "wildcard":
			sub(op, "responses")["4XX"] = dict{"description": "bad"}
		case "noresponse":
			op["responses"] = dict{"404": dict{"description": "bad"}}
		case "status":
			sub(op, "responses")["teapot"] = dict{"description": "bad"}
		case "ref", "loop":
			kind := sgen.Pick(c.T, "refkind", []string{"parameters", "requestBodies", "responses", "headers"})
			ref := dict{"$ref": "#/components/" + kind + "/nowhere"}
			if mode == "loop" {
				if doc["components"] == nil {
					doc["components"] = dict{}
				}
				sub(doc, "components")[kind] = dict{"nowhere": dict{"$ref": "#/components/" + kind + "/there"}, "there": ref}
			} else if sgen.Bool(c.T, "elsewhere", 30) {
				ref["$ref"] = sgen.Pick(c.T, "where", []string{"other.json#/x", "#/components/schemas/nowhere", "#/nowhere", "nowhere"})
			}
			switch kind {
			case "parameters":
				op["parameters"] = []interface{}{ref}
			case "requestBodies":
				op["requestBody"] = ref
			case "responses":
				sub(op, "responses")[sgen.Pick(c.T, "refst", []string{"200", "404", "default"})] = ref
			case "headers":
				sub(op, "responses", "200")["headers"] = dict{"X-Ref": ref}
			}
		case "type":
			op["parameters"] = []interface{}{dict{"in": "query", "name": "q", "schema": dict{"type": "strings"}}}
		}
		sub(doc, "paths")[path] = dict{sgen.Pick(c.T, "method", []string{"get", "put", "post", "delete"}): op}
		c.CaseJSON(doc)
		c.NonTrivial(true)
		_, err := importFile(c, "x.json", pbt.JSON(doc), openapi.Import)
		c.Check(err != nil, "the document is imported")
	})
}

// ---------------------------------------------------------------- P21 Swagger 2

func toSwaggerSchema(v interface{}) interface{} {
	switch x := v.(type) {
	case dict:
		r := dict{}
		for k, e := range x {
			if s, ok := e.(string); ok && k == "$ref" {
				r[k] = strings.Replace(s, refPrefix, "#/definitions/", 1)
				continue
			}
			r[k] = toSwaggerSchema(e)
		}
		return r
	case []interface{}:
		var r []interface{}
		for _, e := range x {
			r = append(r, toSwaggerSchema(e))
		}
		return r
	}
	return v
}

// toSwagger says the same as doc in Swagger 2.
func toSwagger(c *pbt.C, doc dict) dict {
	d := dict{"swagger": "2.0", "info": doc["info"]}
	for _, s := range list(doc, "servers") {
		u := strings.TrimPrefix(text(s.(dict), "url"), "https://")
		i := strings.Index(u, "/")
		d["host"], d["basePath"] = u[:i], u[i:]
	}
	if s := sub(doc, "components", "schemas"); s != nil {
		d["definitions"] = toSwaggerSchema(s)
	}
	perOp := sgen.Bool(c.T, "perOp", 40)
	if !perOp {
		d["consumes"] = []interface{}{"application/json"}
		d["produces"] = []interface{}{"application/json"}
	} else if sgen.Bool(c.T, "override", 30) {
		d["consumes"] = []interface{}{"application/xml"}
		d["produces"] = []interface{}{"text/plain"}
	}
	paths := dict{}
	for p, pi := range sub(doc, "paths") {
		npi := dict{}
		convert := func(l []interface{}) []interface{} {
			var params []interface{}
			for _, x := range l {
				np := dict{}
				for k, v := range x.(dict) {
					if k == "schema" {
						for k2, v2 := range toSwaggerSchema(v).(dict) {
							np[k2] = v2
						}
					} else {
						np[k] = v
					}
				}
				params = append(params, np)
			}
			return params
		}
		shared := convert(list(pi.(dict), "parameters"))
		ops := 0
		for m := range pi.(dict) {
			if m != "parameters" {
				ops++
			}
		}
		for _, m := range keys(pi.(dict)) {
			if m == "parameters" {
				continue
			}
			op := sub(pi.(dict), m)
			nop := dict{"operationId": op["operationId"]}
			for _, k := range []string{"summary", "tags"} {
				if op[k] != nil {
					nop[k] = op[k]
				}
			}
			if perOp {
				nop["consumes"] = []interface{}{"application/json"}
				nop["produces"] = []interface{}{"application/json"}
			}
			params := convert(list(op, "parameters"))
			if rb := sub(op, "requestBody"); rb != nil {
				np := dict{"in": "body", "name": "body", "schema": toSwaggerSchema(sub(rb, "content", "application/json", "schema"))}
				for _, k := range []string{"required", "description"} {
					if rb[k] != nil {
						np[k] = rb[k]
					}
				}
				if ops == 1 && sgen.Bool(c.T, "sharedbody", 30) {
					shared = append(shared, np)
				} else {
					params = append(params, np)
				}
			}
			if params != nil {
				nop["parameters"] = params
			}
			nr := dict{}
			for st, r := range sub(op, "responses") {
				rd := r.(dict)
				x := dict{"description": rd["description"]}
				if s := sub(rd, "content", "application/json", "schema"); s != nil {
					x["schema"] = toSwaggerSchema(s)
				}
				if hs := sub(rd, "headers"); hs != nil {
					nh := dict{}
					for k, v := range hs {
						hd := dict{}
						for k2, v2 := range toSwaggerSchema(v.(dict)["schema"]).(dict) {
							hd[k2] = v2
						}
						if s := text(v.(dict), "description"); s != "" {
							hd["description"] = s
						}
						nh[k] = hd
					}
					x["headers"] = nh
				}
				nr[st] = x
			}
			nop["responses"] = nr
			npi[m] = nop
		}
		if shared != nil {
			npi["parameters"] = shared
		}
		paths[p] = npi
	}
	d["paths"] = paths
	return d
}

func TestP21(t *testing.T) {
	pbt.Run(t, "same-as-openapi3", pbt.Opt{Quick: 4000, Rule: "two or more operations and types"}, func(c *pbt.C) {
		g := &docGen{t: c.T, plain: true}
		doc := g.document(5, 3)
		for _, s := range sub(doc, "components", "schemas") {
			delete(s.(dict), "example")
		}
		sw := sharedSwagger(c, toSwagger(c, doc))
		js := pbt.JSON(sw)
		c.Case("%s", js)
		base := sgen.Pick(c.T, "file", []string{"api", "some.api", "a.b.c"})
		m3, err := importFile(c, base+".json", pbt.JSON(doc), openapi.Import)
		c.Check(err == nil, "the OpenAPI form is refused: %v", err)
		name, data := base+".json", js
		if sgen.Bool(c.T, "yaml", 30) {
			name, data = base+".yaml", toYAML(c, js)
		}
		m2, err := importFile(c, name, data, openapi.ImportSwagger)
		c.Check(err == nil, "the Swagger form is refused: %v", err)
		c.NonTrivial(len(m2.Http) >= 2 && len(m2.Types) >= 2)
		delete(m2.Annotations, "x_openapi_version")
		delete(m3.Annotations, "x_openapi_version")
		a, b := decode(c, pbt.JSON(m2.Schema)), decode(c, pbt.JSON(m3.Schema))
		if s := diff("", a, b); s != "" {
			c.Fatalf("the Swagger and OpenAPI forms give different models: %s", s)
		}
		checkTypes(c, doc, &m2.Schema)
		checkHttp(c, doc, &m2.Schema)
		checkInfo(c, doc, &m2.Schema, strings.ReplaceAll(base, ".", "_"))
		if sgen.Bool(c.T, "dashes", 10) {
			m4, err := importFile(c, "my-own-"+base+".json", js, openapi.ImportSwagger)
			c.Check(err == nil, "the Swagger form is refused under another name: %v", err)
			checkInfo(c, doc, &m4.Schema, "my_own_"+strings.ReplaceAll(base, ".", "_"))
		}
	})
	pbt.Run(t, "mangled", pbt.Opt{Quick: 3000, Rule: "the document is refused"}, func(c *pbt.C) {
		g := &docGen{t: c.T, plain: true}
		doc := sharedSwagger(c, toSwagger(c, g.document(3, 2)))
		doc = decode(c, pbt.JSON(doc))
		at := sgen.Mangle(c.T, doc)
		js := pbt.JSON(doc)
		c.Case("%s\n%s", at, js)
		m, err := importFile(c, "x.json", js, openapi.ImportSwagger)
		c.NonTrivial(err != nil)
		c.Check(err != nil || m != nil, "neither a model nor an error")
	})
	pbt.Run(t, "tells-them-apart", pbt.Opt{Quick: 400, Rule: "every case"}, func(c *pbt.C) {
		g := &docGen{t: c.T, plain: true}
		doc := g.document(3, 1)
		sw := toSwagger(c, doc)
		c.Case("%s", pbt.JSON(sw))
		c.NonTrivial(true)
		dir, done := pbt.Scratch()
		defer done()
		for _, ext := range []string{".json", ".yaml"} {
			a, b := pbt.JSON(doc), pbt.JSON(sw)
			if ext == ".yaml" {
				a, b = toYAML(c, a), toYAML(c, b)
			}
			p3, p2 := filepath.Join(dir, "three"+ext), filepath.Join(dir, "two"+ext)
			os.WriteFile(p3, []byte(a), 0644)
			os.WriteFile(p2, []byte(b), 0644)
			c.Check(openapi.IsValidFile(p3) && !openapi.IsValidSwaggerFile(p3), "the OpenAPI 3 document is taken for something else")
			c.Check(!openapi.IsValidFile(p2) && openapi.IsValidSwaggerFile(p2), "the Swagger document is taken for something else")
		}
		defs := sub(sw, "definitions")
		if defs == nil {
			defs = dict{}
		}
		combined := dict{"swagger": "2.0", "info": sw["info"], "paths": dict{}, "definitions": defs}
		one := dict{"type": "object", "properties": dict{"p": dict{"type": "string"}}}
		defs["Broken"] = dict{"allOf": []interface{}{one, one}}
		_, cerr := importFile(c, "x.json", pbt.JSON(combined), openapi.ImportSwagger)
		c.Check(cerr != nil, "a Swagger schema with allOf is imported")
		where := sgen.Pick(c.T, "badref", []string{"parameters", "responses"})
		lost := dict{"swagger": "2.0", "info": sw["info"], "paths": dict{"/lost": dict{"get": dict{"operationId": "lost", "responses": dict{"200": dict{"description": "ok"}}}}}}
		ref := dict{"$ref": sgen.Pick(c.T, "badreft", []string{"#/" + where + "/nowhere", "#/definitions/nowhere", "nowhere"})}
		if where == "parameters" {
			sub(lost, "paths", "/lost", sgen.Pick(c.T, "badrefat", []string{"get"}))["parameters"] = []interface{}{ref}
		} else {
			sub(lost, "paths", "/lost", "get", "responses")[sgen.Pick(c.T, "badrefst", []string{"200", "404"})] = ref
		}
		_, lerr := importFile(c, "x.json", pbt.JSON(lost), openapi.ImportSwagger)
		c.Check(lerr != nil, "a Swagger document that refers to a %s that is not there is imported: %s", where, pbt.JSON(lost))
		sw["swagger"] = sgen.Pick(c.T, "ver", []string{"1.2", "3.0", ""})
		p := filepath.Join(dir, "other.json")
		os.WriteFile(p, []byte(pbt.JSON(sw)), 0644)
		_, err := openapi.ImportSwagger([]string{p}, sadl.NewData())
		c.Check(err != nil, "swagger version %v is imported", sw["swagger"])
		_, err = openapi.ImportSwagger([]string{p2(dir), p2(dir)}, sadl.NewData())
		c.Check(err != nil, "two files are imported as one")
		_, err = openapi.ImportSwagger([]string{filepath.Join(dir, "none.json")}, sadl.NewData())
		c.Check(err != nil, "a missing file is imported")
	})
}

func p2(dir string) string { return filepath.Join(dir, "two.json") }
