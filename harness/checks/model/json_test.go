package model

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/boynton/sadl"
	"github.com/ghodss/yaml"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
	"verif/harness/sval"
)

// ---------------------------------------------------------------- P05 model JSON

// The encoder below spells out the documented JSON form of a model, independently of the
// struct tags in the code.

type obj map[string]interface{}

func (o obj) str(k, v string) {
	if v != "" {
		o[k] = v
	}
}

func (o obj) annos(m map[string]string) {
	if len(m) > 0 {
		a := obj{}
		for k, v := range m {
			a[k] = v
		}
		o["annotations"] = a
	}
}

func (o obj) list(k string, l []interface{}) {
	if len(l) > 0 {
		o[k] = l
	}
}

func encSpec(o obj, ts sadl.TypeSpec) obj {
	o["type"] = ts.Type
	o.str("pattern", ts.Pattern)
	o.str("items", ts.Items)
	o.str("keys", ts.Keys)
	o.str("unit", ts.Unit)
	o.str("value", ts.Value)
	o.str("reference", ts.Reference)
	var vals, fields, els, vars []interface{}
	for _, v := range ts.Values {
		vals = append(vals, v)
	}
	o.list("values", vals)
	if ts.MinSize != nil {
		o["minSize"] = json.Number(fmt.Sprint(*ts.MinSize))
	}
	if ts.MaxSize != nil {
		o["maxSize"] = json.Number(fmt.Sprint(*ts.MaxSize))
	}
	if ts.Min != nil {
		o["min"] = json.Number(ts.Min.String())
	}
	if ts.Max != nil {
		o["max"] = json.Number(ts.Max.String())
	}
	for _, f := range ts.Fields {
		fields = append(fields, encField(f))
	}
	o.list("fields", fields)
	for _, e := range ts.Elements {
		x := obj{"symbol": e.Symbol}
		x.str("comment", e.Comment)
		x.annos(e.Annotations)
		els = append(els, x)
	}
	o.list("elements", els)
	for _, v := range ts.Variants {
		x := obj{"name": v.Name}
		x.str("comment", v.Comment)
		x.annos(v.Annotations)
		vars = append(vars, encSpec(x, v.TypeSpec))
	}
	o.list("variants", vars)
	return o
}

func encField(f *sadl.StructFieldDef) obj {
	x := obj{"name": f.Name}
	x.str("comment", f.Comment)
	x.annos(f.Annotations)
	if f.Required {
		x["required"] = true
	}
	if f.Default != nil {
		x["default"] = encValue(f.Default)
	}
	return encSpec(x, f.TypeSpec)
}

func encValue(v interface{}) interface{} {
	switch x := v.(type) {
	case *string:
		return *x
	case string:
		return x
	case *sadl.Decimal:
		return json.Number(x.String())
	case float64:
		return json.Number(new(big.Float).SetFloat64(x).Text('f', -1))
	case bool:
		return x
	case []interface{}:
		r := []interface{}{}
		for _, e := range x {
			r = append(r, encValue(e))
		}
		return r
	case map[string]interface{}:
		r := obj{}
		for k, e := range x {
			r[k] = encValue(e)
		}
		return r
	}
	return nil
}

func encParams(l []*sadl.HttpParamSpec) []interface{} {
	var r []interface{}
	for _, p := range l {
		x := encField(&p.StructFieldDef)
		x.str("header", p.Header)
		x.str("query", p.Query)
		if p.Path {
			x["path"] = true
		}
		r = append(r, x)
	}
	return r
}

func encSchema(s *sadl.Schema) obj {
	o := obj{"sadl": s.Sadl, "name": s.Name}
	o.str("namespace", s.Namespace)
	o.str("version", s.Version)
	o.str("comment", s.Comment)
	o.str("base", s.Base)
	o.annos(s.Annotations)
	var types, exs, ops, https []interface{}
	for _, td := range s.Types {
		x := obj{"name": td.Name}
		x.str("comment", td.Comment)
		x.annos(td.Annotations)
		types = append(types, encSpec(x, td.TypeSpec))
	}
	o.list("types", types)
	for _, e := range s.Examples {
		x := obj{"target": e.Target}
		x.str("name", e.Name)
		x.str("comment", e.Comment)
		x.annos(e.Annotations)
		if e.Example != nil {
			x["example"] = encValue(e.Example)
		}
		exs = append(exs, x)
	}
	o.list("examples", exs)
	for _, op := range s.Operations {
		x := obj{}
		x.str("name", op.Name)
		x.str("comment", op.Comment)
		x.annos(op.Annotations)
		var in, out, ex []interface{}
		for _, i := range op.Inputs {
			in = append(in, encField(&i.StructFieldDef))
		}
		for _, i := range op.Outputs {
			y := obj{"name": i.Name}
			y.str("comment", i.Comment)
			y.annos(i.Annotations)
			out = append(out, encSpec(y, i.TypeSpec))
		}
		for _, e := range op.Exceptions {
			ex = append(ex, e)
		}
		x.list("inputs", in)
		x.list("outputs", out)
		x.list("exceptions", ex)
		ops = append(ops, x)
	}
	o.list("operations", ops)
	for _, h := range s.Http {
		x := obj{"method": h.Method, "path": h.Path}
		x.str("name", h.Name)
		x.str("resource", h.Resource)
		x.str("comment", h.Comment)
		x.annos(h.Annotations)
		x.list("inputs", encParams(h.Inputs))
		if h.Expected != nil {
			y := obj{"status": json.Number(fmt.Sprint(h.Expected.Status))}
			y.str("comment", h.Expected.Comment)
			y.annos(h.Expected.Annotations)
			y.list("outputs", encParams(h.Expected.Outputs))
			x["expected"] = y
		}
		var excs []interface{}
		for _, e := range h.Exceptions {
			y := obj{"type": e.Type, "status": json.Number(fmt.Sprint(e.Status))}
			y.str("comment", e.Comment)
			y.annos(e.Annotations)
			excs = append(excs, y)
		}
		x.list("exceptions", excs)
		https = append(https, x)
	}
	o.list("http", https)
	return o
}

// diff compares decoded JSON, numbers by value.
func diff(path string, want, got interface{}) string {
	switch w := want.(type) {
	case obj:
		return diff(path, map[string]interface{}(w), got)
	case map[string]interface{}:
		g, ok := asMap(got)
		if !ok {
			return fmt.Sprintf("%s: want an object, got %v", path, got)
		}
		var keys []string
		for k := range w {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if _, ok := g[k]; !ok {
				return fmt.Sprintf("%s.%s is missing (want %v)", path, k, w[k])
			}
			if d := diff(path+"."+k, w[k], g[k]); d != "" {
				return d
			}
		}
		for k := range g {
			if _, ok := w[k]; !ok {
				return fmt.Sprintf("%s.%s = %v is unexpected", path, k, g[k])
			}
		}
		return ""
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s: want %d elements, got %v", path, len(w), got)
		}
		for i := range w {
			if d := diff(fmt.Sprintf("%s[%d]", path, i), w[i], g[i]); d != "" {
				return d
			}
		}
		return ""
	case json.Number:
		g, ok := got.(json.Number)
		if !ok {
			return fmt.Sprintf("%s: want number %s, got %#v", path, w, got)
		}
		a, _ := new(big.Rat).SetString(string(w))
		b, _ := new(big.Rat).SetString(string(g))
		if a == nil || b == nil || a.Cmp(b) != 0 {
			return fmt.Sprintf("%s: want %s, got %s", path, w, g)
		}
		return ""
	}
	if want != got {
		return fmt.Sprintf("%s: want %#v, got %#v", path, want, got)
	}
	return ""
}

func asMap(v interface{}) (map[string]interface{}, bool) {
	switch m := v.(type) {
	case obj:
		return m, true
	case map[string]interface{}:
		return m, true
	}
	return nil, false
}

func decode(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	err := d.Decode(&v)
	return v, err
}

// smallValue draws a literal whose numbers fit a float64.
func smallValue(t *rapid.T, depth int) interface{} {
	switch k := rapid.IntRange(0, 6).Draw(t, "vkind"); {
	case k == 0:
		return rapid.Bool().Draw(t, "b")
	case k <= 2:
		return sgen.Dec(fmt.Sprintf("%d", rapid.IntRange(-100000, 100000).Draw(t, "n")))
	case k == 3:
		return sgen.Dec(fmt.Sprintf("%d.5", rapid.IntRange(0, 1000).Draw(t, "n")))
	case k == 4 || depth > 2:
		s := rapid.SampledFrom([]string{"a", "", "two words", "quote \" and \\ slash", "<html> & co", "é"}).Draw(t, "s")
		return &s
	case k == 5:
		a := []interface{}{}
		for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
			a = append(a, smallValue(t, depth+1))
		}
		return a
	}
	m := map[string]interface{}{}
	for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
		m[rapid.SampledFrom([]string{"a", "b", "c", "x-y"}).Draw(t, "k")] = smallValue(t, depth+1)
	}
	return m
}

func drawFullSchema(t *rapid.T) *sadl.Schema {
	sc := sgen.New(t, full)
	for _, td := range sc.Types {
		for _, f := range td.Fields {
			if !f.Required && sgen.Bool(t, "default?", 15) {
				f.Default = smallValue(t, 0)
			}
		}
	}
	for _, h := range sc.Http {
		for _, in := range h.Inputs {
			if in.Query != "" && sgen.Bool(t, "qdefault?", 20) {
				in.Default = smallValue(t, 2)
			}
		}
		if sgen.Bool(t, "noexpected", 10) {
			h.Expected = nil
		}
		for _, e := range h.Exceptions {
			if sgen.Bool(t, "eannos", 20) {
				e.Annotations = map[string]string{"x_foo": "bar"}
			}
		}
	}
	for i := rapid.IntRange(0, 3).Draw(t, "nex"); i > 0; i-- {
		e := &sadl.ExampleDef{Target: "Foo", Name: sgen.Pick(t, "exname", []string{"", "ex1", "second"}), Example: smallValue(t, 0)}
		if sgen.Bool(t, "excomment", 40) {
			e.Comment = sgen.Comment(t, false)
		}
		sc.Examples = append(sc.Examples, e)
	}
	if sgen.Bool(t, "bigmin", 30) && len(sc.Types) > 0 {
		sc.Types[0].Min = sgen.Dec("-123456789012345678901234567890.125")
	}
	return sc
}

func TestP05(t *testing.T) {
	pbt.Run(t, "encode-and-load", pbt.Opt{Quick: 3000, Rule: "at least three types and one http action, operation or example"}, func(c *pbt.C) {
		sc := drawFullSchema(c.T)
		c.CaseJSON(sc)
		c.NonTrivial(len(sc.Types) >= 3 && len(sc.Http)+len(sc.Operations)+len(sc.Examples) > 0)
		want := encSchema(sc)
		m, err := sadl.NewModel(sc)
		c.Check(err == nil, "%v", err)
		text := sadl.Pretty(m)
		got, err := decode([]byte(text))
		c.Check(err == nil, "the model is not encoded as JSON: %v\n%s", err, text)
		if d := diff("", want, got); d != "" {
			c.Fatalf("wrong JSON: %s", d)
		}
		b, err := json.Marshal(m)
		c.Check(err == nil, "%v", err)
		got, _ = decode(b)
		if d := diff("", want, got); d != "" {
			c.Fatalf("wrong compact JSON: %s", d)
		}
		dir, done := pbt.Scratch()
		defer done()
		p := write(dir, "m.json", text)
		back, err := sadl.LoadModel(p)
		c.Check(err == nil && back != nil, "the encoded model cannot be loaded: %v", err)
		if d := diff("", want, encSchemaDecoded(&back.Schema)); d != "" {
			c.Fatalf("after loading: %s", d)
		}
		for _, td := range sc.Types {
			f := back.FindType(td.Name)
			c.Check(f != nil && f.Name == td.Name && f.Type == td.Type, "type %s cannot be found after loading", td.Name)
		}
		for _, h := range sc.Http {
			f := back.FindHttp(h.Name)
			c.Check(f != nil && f.Path == h.Path, "action %s cannot be found after loading", h.Name)
		}
		c.Check(sadl.IsValidFile(p), "the file is not recognised as a model")
		// encoding is a fixed point
		c.Check(pbt.JSON(back) == pbt.JSON(m) && sadl.Equivalent(back, m), "encoding the loaded model gives something else")
	})
	pbt.Run(t, "mangled", pbt.Opt{Quick: 3000, Rule: "the model is refused"}, mangledModel)
	pbt.Run(t, "rejects", pbt.Opt{Quick: 1500, Rule: "every case"}, func(c *pbt.C) {
		o := full
		o.MinTypes = 1
		sc := sgen.New(c.T, o)
		c.NonTrivial(true)
		how := rapid.IntRange(0, 4).Draw(c.T, "how")
		if how == 0 {
			sc.Sadl = ""
		}
		if how == 1 {
			d := *sc.Types[rapid.IntRange(0, len(sc.Types)-1).Draw(c.T, "dup")]
			sc.Types = append(sc.Types, &d)
		}
		b, _ := json.Marshal(sc)
		text := string(b)
		switch how {
		case 2:
			text = text[:rapid.IntRange(0, len(text)-1).Draw(c.T, "cut")]
		case 3:
			text = strings.Replace(text, `"types":[`, `"types":["x",`, 1)
		case 4:
			text = strings.Replace(text, `"name":`, `"name":5,"name2":`, 1)
		}
		c.Case("%d %s", how, text)
		c.Class("how=%d", how)
		dir, done := pbt.Scratch()
		defer done()
		p := write(dir, "m.json", text)
		m, err := sadl.LoadModel(p)
		c.Check(err != nil && m == nil, "an invalid model file is loaded")
		c.Check(!sadl.IsValidFile(p), "an invalid model file is recognised as a model")
		_, err = sadl.LoadModel(p + "x")
		c.Check(err != nil, "a missing file is loaded")
	})
}

func mangledModel(c *pbt.C) {
	sc := drawFullSchema(c.T)
	b, err := json.Marshal(sc)
	c.Check(err == nil, "%v", err)
	doc := map[string]interface{}{}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&doc); err != nil {
		panic(err)
	}
	at := sgen.Mangle(c.T, doc)
	text := pbt.JSON(doc)
	c.Case("%s\n%s", at, text)
	dir, done := pbt.Scratch()
	defer done()
	p := write(dir, "m.json", text)
	var m *sadl.Model
	pbt.NoPanic(c, "loading the model", func() { m, err = sadl.LoadModel(p) })
	c.NonTrivial(err != nil)
	c.Check((err == nil) == (m != nil), "the model is %v and the error %v", m, err)
	if err != nil {
		return
	}
	p2 := write(dir, "m2.json", sadl.Pretty(m))
	back, err := sadl.LoadModel(p2)
	c.Check(err == nil, "the model is loaded, but not when written again: %v", err)
	c.Check(pbt.JSON(back) == pbt.JSON(m), "writing and loading the model changes it")
}

// encSchemaDecoded is encSchema for a schema read back from JSON.
func encSchemaDecoded(s *sadl.Schema) obj { return encSchema(s) }

// ---------------------------------------------------------------- P09 config data

func drawData(t *rapid.T, depth int) map[string]interface{} {
	m := map[string]interface{}{}
	for i := rapid.IntRange(0, 4).Draw(t, "nkeys"); i > 0; i-- {
		k := sgen.Pick(t, "key", dataKeys)
		if depth < 3 && rapid.IntRange(0, 2).Draw(t, "nest") == 0 {
			m[k] = drawData(t, depth+1)
			continue
		}
		m[k] = drawScalar(t)
	}
	return m
}

var dataKeys = []string{"a", "b", "c", "force-overwrite", "name"}

func drawScalar(t *rapid.T) interface{} {
	switch rapid.IntRange(0, 6).Draw(t, "scalar") {
	case 0:
		return rapid.Bool().Draw(t, "b")
	case 1:
		return float64(rapid.IntRange(-1000000, 1000000).Draw(t, "f"))
	case 2:
		return sgen.Pick(t, "s", []string{"", "x", "true", "false", "12", "long text"})
	case 3:
		return []interface{}{"p", "q", float64(3)}[:rapid.IntRange(0, 3).Draw(t, "n")]
	case 4:
		return []interface{}{"p", "q", "r"}[:rapid.IntRange(0, 3).Draw(t, "n")]
	case 5:
		return float64(rapid.IntRange(-1000, 1000).Draw(t, "f")) / 4
	}
	return nil
}

// refGet walks the keys.
func refGet(m map[string]interface{}, keys []string) interface{} {
	var v interface{} = m
	for _, k := range keys {
		mm, ok := v.(map[string]interface{})
		if !ok {
			return nil
		}
		v, ok = mm[k]
		if !ok {
			return nil
		}
	}
	return v
}

func TestP09(t *testing.T) {
	pbt.Run(t, "lookup", pbt.Opt{Quick: 6000, Rule: "a path of two or more keys"}, func(c *pbt.C) {
		raw := drawData(c.T, 0)
		n := rapid.IntRange(1, 4).Draw(c.T, "npath")
		var keys []string
		cur := raw
		for i := 0; i < n; i++ {
			k := sgen.Pick(c.T, "pathkey", dataKeys)
			if cur != nil && len(cur) > 0 && sgen.Bool(c.T, "follow", 70) {
				var ks []string
				for x := range cur {
					ks = append(ks, x)
				}
				sort.Strings(ks)
				k = sgen.Pick(c.T, "existing", ks)
			}
			keys = append(keys, k)
			next, _ := cur[k].(map[string]interface{})
			cur = next
		}
		c.Case("%v in %s", keys, sval.JSON(raw))
		c.NonTrivial(len(keys) > 1)
		want := refGet(raw, keys)
		c.Class("found=%v", want != nil)
		d := sadl.AsData(raw)
		dir, done := pbt.Scratch()
		defer done()
		check := func(how string, d *sadl.Data) {
			eq := func(what string, got, want interface{}) {
				c.Check(sval.JSON(got) == sval.JSON(want), "%s %s%v = %s, want %s", how, what, keys, sval.JSON(got), sval.JSON(want))
			}
			eq("Get", d.Get(keys...), want)
			eq("Has", d.Has(keys...), want != nil)
			s, _ := want.(string)
			eq("GetString", d.GetString(keys...), s)
			f, _ := want.(float64)
			eq("GetFloat64", d.GetFloat64(keys...), f)
			eq("GetInt", d.GetInt(keys...), int(f))
			eq("GetInt64", d.GetInt64(keys...), int64(f))
			b := want != nil
			switch x := want.(type) {
			case bool:
				b = x
			case string:
				b = x != "false"
			}
			eq("GetBool", d.GetBool(keys...), b)
			m, _ := want.(map[string]interface{})
			eq("GetMap", d.GetMap(keys...), m)
			a, _ := want.([]interface{})
			eq("GetArray", d.GetArray(keys...), a)
			eq("GetData", d.GetData(keys...), want)
			c.Check(len(d.GetStringArray(keys...)) == len(a), "GetStringArray%v has %d elements", keys, len(d.GetStringArray(keys...)))
			for i, e := range a {
				es, _ := e.(string)
				c.Check(d.GetStringArray(keys...)[i] == es, "GetStringArray%v[%d]", keys, i)
			}
			if len(keys) == 1 {
				k := keys[0]
				g := &sadl.Generator{Config: d}
				ds, db, di := "dflt", true, 77
				if want != nil {
					ds, db, di = s, b, int(f)
				}
				eq("GetConfigString", g.GetConfigString(k, "dflt"), ds)
				eq("GetConfigBool", g.GetConfigBool(k, true), db)
				eq("GetConfigInt", g.GetConfigInt(k, 77), di)
			}
		}
		check("", d)
		// the same data read from JSON, YAML and a string
		p := write(dir, "c.json", d.String())
		fd, err := sadl.DataFromFile(p)
		c.Check(err == nil, "reading %s: %v", d.String(), err)
		check("from a JSON file:", fd)
		yml, err := yaml.Marshal(raw)
		c.Check(err == nil, "%v", err)
		p = write(dir, "c.yaml", string(yml))
		fd, err = sadl.DataFromFile(p)
		c.Check(err == nil, "reading YAML: %v", err)
		check("from a YAML file:", fd)
		fd, err = sadl.DataFromJsonString(d.String())
		c.Check(err == nil, "reading a string: %v", err)
		check("from a string:", fd)
		c.Check(sadl.DataToFile(d, dir+"/out.json") == nil, "writing failed")
		fd, err = sadl.DataFromFile(dir + "/out.json")
		c.Check(err == nil, "reading what was written: %v", err)
		check("written and read:", fd)
		b, err := json.Marshal(d)
		c.Check(err == nil, "%v", err)
		var jd sadl.Data
		c.Check(json.Unmarshal(b, &jd) == nil, "%s", b)
		check("through JSON:", &jd)
	})
	pbt.Run(t, "put", pbt.Opt{Quick: 2000, Rule: "a key is set more than once"}, func(c *pbt.C) {
		d := sadl.NewData()
		ref := map[string]interface{}{}
		c.Check(d.IsNil(), "new data is not empty")
		var log []string
		for i := rapid.IntRange(1, 8).Draw(c.T, "nops"); i > 0; i-- {
			k, v := sgen.Pick(c.T, "key", dataKeys), drawScalar(c.T)
			_, again := ref[k]
			c.NonTrivial(again)
			log = append(log, fmt.Sprintf("%s=%s", k, sval.JSON(v)))
			d.Put(k, v)
			ref[k] = v
			c.Check(!d.IsNil(), "data is empty after a Put")
			for _, k := range dataKeys {
				c.Check(sval.JSON(d.Get(k)) == sval.JSON(ref[k]), "after %v, %s is %s", log, k, sval.JSON(d.Get(k)))
			}
		}
		c.Case("%v", log)
		c.Check(sval.JSON(d.AsMap()) == sval.JSON(ref), "after %v the data is %s", log, sval.JSON(d.AsMap()))
	})
	pbt.Run(t, "bad-files", pbt.Opt{Quick: 300, Rule: "every case"}, func(c *pbt.C) {
		dir, done := pbt.Scratch()
		defer done()
		bad := sgen.Pick(c.T, "bad", []string{"{", "[1]", "\"x\"", "{\"a\":}", "12"})
		c.Case("%s", bad)
		c.NonTrivial(true)
		_, err := sadl.DataFromFile(write(dir, "x.json", bad))
		c.Check(err != nil, "%s accepted", bad)
		_, err = sadl.DataFromJsonString(bad)
		c.Check(err != nil, "%s accepted", bad)
		_, err = sadl.DataFromFile(write(dir, "x.yaml", sgen.Pick(c.T, "badyaml", []string{"{", "[1]", "12", "a: b: c", "- a"})))
		c.Check(err != nil, "bad YAML accepted")
		_, err = sadl.DataFromFile(dir + "/missing.json")
		c.Check(err != nil && os.IsNotExist(err), "a missing file gives %v", err)
	})
}
