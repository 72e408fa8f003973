package lang

import (
	"encoding/json"
	"strings"

	"github.com/boynton/sadl"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
	"verif/harness/sval"
)

type obj = map[string]interface{}

// gen draws schemas that SADL source can express.
type gen struct {
	c  *pbt.C
	sc *sadl.Schema
	g  *sval.G
}

func (g *gen) bool(label string, pct int) bool { return sgen.Bool(g.c.T, label, pct) }
func (g *gen) pick(label string, l []string) string {
	return sgen.Pick(g.c.T, label, l)
}

var textValues = []string{"", "yes", "some text", "a,b,c", `say "hi"`, `back\slash`, "tab\there", "é", "k=v", "{x}", "// no comment", "/* nor this */", "'"}

func (g *gen) annos(pct int) map[string]string {
	if !g.bool("annos", pct) {
		return nil
	}
	m := map[string]string{}
	for n := rapid.IntRange(1, 3).Draw(g.c.T, "nannos"); n > 0; n-- {
		m[g.pick("akey", []string{"x_tag", "x_foo", "x_meta2", "x_Note", "X_cap"})] = g.pick("aval", textValues)
	}
	return m
}

func (g *gen) comment(pct int) string {
	if !g.bool("comment", pct) {
		return ""
	}
	return sgen.Comment(g.c.T, g.bool("long", 15))
}

// value is a valid value of the type, or nil.
func (g *gen) value(ts *sadl.TypeSpec) interface{} {
	v := g.g.Value(ts, 0)
	if v == nil || g.g.Valid(ts, v) != "" {
		return nil
	}
	return v
}

// inline draws a type that has no name.
func (g *gen) inline(depth int) sadl.TypeSpec {
	var ts sadl.TypeSpec
	ref := func() string {
		l := []string{"String", "Int32", "Bool", "Timestamp", "Decimal", "Any"}
		for _, td := range g.sc.Types {
			l = append(l, td.Name)
		}
		return g.pick("ref", l)
	}
	kinds := []string{"Array", "Map", "Enum", "UnitValue", "String", "Int32", "Decimal", "Bytes", "UUID"}
	if depth == 0 {
		kinds = append(kinds, "Struct", "Union")
	}
	ts.Type = g.pick("inline", kinds)
	size := func() {
		if g.bool("size", 50) {
			lo, hi := int64(rapid.IntRange(0, 3).Draw(g.c.T, "lo")), int64(rapid.IntRange(3, 9).Draw(g.c.T, "hi"))
			if g.bool("min", 60) {
				ts.MinSize = &lo
			}
			if g.bool("max", 60) {
				ts.MaxSize = &hi
			}
		}
	}
	switch ts.Type {
	case "Array":
		ts.Items = ref()
		size()
	case "Map":
		ts.Keys, ts.Items = "String", ref()
		size()
	case "Bytes":
		size()
	case "String":
		switch rapid.IntRange(0, 3).Draw(g.c.T, "str") {
		case 0:
			size()
		case 1:
			ts.Pattern = g.pick("pattern", []string{"^[a-z]+$", "^[0-9]{3}$", `^\d+\.\w*$`, `^"[^"]*"$`, `a\\b`, "^(a|b)?$"})
		case 2:
			ts.Values = []string{g.pick("value", []string{"red", "two words", `"q"`, `\`, "é"}), "x/y"}
		}
	case "Int32", "Decimal":
		if g.bool("min", 60) {
			ts.Min = sgen.DecInt(int64(rapid.IntRange(-9, 3).Draw(g.c.T, "min")))
		}
		if g.bool("max", 60) {
			ts.Max = sgen.DecInt(int64(rapid.IntRange(3, 9).Draw(g.c.T, "max")))
		}
	case "Enum":
		for _, s := range []string{"A", "b2", "C_d", "none"}[:rapid.IntRange(1, 4).Draw(g.c.T, "nsyms")] {
			ts.Elements = append(ts.Elements, &sadl.EnumElementDef{Symbol: s, Comment: g.comment(20), Annotations: g.annos(15)})
		}
	case "UnitValue":
		ts.Value, ts.Unit = g.pick("uv", []string{"Decimal", "Int32", "Float64"}), "String"
	case "Struct":
		for _, s := range []string{"p", "q", "r"}[:rapid.IntRange(0, 3).Draw(g.c.T, "nfields")] {
			f := &sadl.StructFieldDef{Name: s, Comment: g.comment(20), Annotations: g.annos(10), Required: g.bool("req", 30)}
			f.TypeSpec = g.anyType(depth + 1)
			ts.Fields = append(ts.Fields, f)
		}
	case "Union":
		ts.Variants = g.variants(depth + 1)
	}
	return ts
}

func (g *gen) anyType(depth int) sadl.TypeSpec {
	if g.bool("inlined", 40) {
		return g.inline(depth)
	}
	l := []string{"String", "Int32", "Bool", "Timestamp", "Decimal", "Any", "Struct", "UUID", "Int8", "Float64", "Bytes"}
	for _, td := range g.sc.Types {
		l = append(l, td.Name, td.Name)
	}
	return sadl.TypeSpec{Type: g.pick("type", l)}
}

func (g *gen) variants(depth int) []*sadl.UnionVariantDef {
	var l []*sadl.UnionVariantDef
	for _, s := range []string{"v1", "other", "w"}[:rapid.IntRange(1, 3).Draw(g.c.T, "nvariants")] {
		v := &sadl.UnionVariantDef{Name: s, Comment: g.comment(20), Annotations: g.annos(10)}
		v.TypeSpec = g.anyType(depth)
		l = append(l, v)
	}
	return l
}

func (g *gen) dflt(f *sadl.StructFieldDef) {
	if !f.Required && g.bool("default", 25) {
		if v := g.value(&f.TypeSpec); v != nil {
			f.Default = v
		}
	}
}

// schema draws a schema; what SADL source implies is filled in.
func schema(c *pbt.C) *sadl.Schema {
	o := sgen.Options{FieldOpts: true, Constraints: true, FieldAny: true, ItemAny: true, Refs: true, Base: true,
		InlineKinds: []string{"Array", "Map", "Enum", "UnitValue", "Struct"}, MinTypes: 0, MaxTypes: 6, UnionBase: true, UnionNamed: true,
		Http: 3, Operations: 2, Comments: true, LongComments: true, Annotations: true}
	sc := sgen.New(c.T, o)
	g := &gen{c: c, sc: sc, g: sval.NewG(c.T, sc)}
	for _, td := range sc.Types {
		if g.bool("atext", 10) {
			td.Annotations = g.annos(100)
		}
		switch td.Type {
		case "String":
			if td.Pattern != "" && g.bool("pat", 40) {
				td.Pattern = g.pick("pattern", []string{`^\d+\.\w*$`, `^"[^"]*"$`, `a\\b`, "\t|é"})
			}
			if td.Values != nil && g.bool("vals", 40) {
				td.Values = append(td.Values, `"q"`, `\n`, "")
			}
		case "Struct":
			var names []string
			for _, f := range td.Fields {
				if g.bool("retype", 15) {
					f.TypeSpec = g.inline(0)
				}
				if f.Type == "String" || f.Type == "UUID" {
					for _, t := range sc.Types {
						names = append(names, t.Name)
					}
					if g.bool("reference", 10) {
						f.Reference = g.pick("reference", names)
					}
				}
			}
		case "Union":
			if g.bool("variants", 30) {
				td.Variants = g.variants(0)
			}
		}
	}
	used := map[string]bool{}
	for _, h := range sc.Http {
		for _, in := range h.Inputs {
			in.Annotations = g.annos(10)
			switch {
			case in.Path || in.Query == "" && in.Header == "":
				in.Required = true
				if !in.Path && g.bool("inbody", 25) {
					in.TypeSpec = g.inline(0)
				}
			default:
				in.Required = g.bool("required", 30)
				if g.bool("inparam", 20) {
					in.TypeSpec = g.inline(1)
				}
			}
		}
		for _, e := range h.Exceptions {
			e.Annotations = g.annos(10)
			if g.bool("nostatus", 10) {
				e.Status = 0
			}
		}
		if g.bool("noexpect", 10) {
			h.Expected = nil
		} else {
			h.Expected.Annotations = g.annos(10)
			body := h.Expected.Status != 204 && h.Expected.Status != 304
			for _, out := range h.Expected.Outputs {
				out.Annotations = g.annos(10)
				out.Comment = g.comment(15)
				if out.Header == "" {
					out.Required = body
					if g.bool("inout", 20) {
						out.TypeSpec = g.inline(0)
					}
				} else {
					out.Required = g.bool("required", 30)
				}
			}
			if len(h.Expected.Outputs) == 1 && h.Expected.Outputs[0].Header == "" && g.bool("entity", 30) {
				h.Expected.Outputs[0].Name = "entity"
			}
		}
		if n, res := derived(h); ident(n) && !used[n] && g.bool("derived", 25) {
			h.Name, h.Resource = n, res
		} else if g.bool("resource", 10) {
			h.Resource = g.pick("resource", []string{"thing", "items", "Res"})
		}
		if used[h.Name] {
			h.Name += "Z"
			h.Resource = ""
		}
		used[h.Name] = true
	}
	for _, op := range sc.Operations {
		for _, in := range op.Inputs {
			in.Comment = g.comment(20)
			in.Annotations = g.annos(10)
			if g.bool("inop", 20) {
				in.TypeSpec = g.inline(0)
			}
		}
		for _, out := range op.Outputs {
			out.Comment = g.comment(20)
			out.Annotations = g.annos(10)
			if g.bool("inop", 20) {
				out.TypeSpec = g.inline(0)
			}
		}
	}
	// now that no type changes any more
	for _, ts := range structs(sc) {
		for _, f := range ts.Fields {
			g.dflt(f)
		}
	}
	for _, h := range sc.Http {
		for _, in := range h.Inputs {
			g.dflt(&in.StructFieldDef)
		}
	}
	for _, op := range sc.Operations {
		for _, in := range op.Inputs {
			g.dflt(&in.StructFieldDef)
		}
	}
	g.examples()
	return sc
}

func (g *gen) examples() {
	add := func(target string, v interface{}) {
		e := &sadl.ExampleDef{Target: target, Example: v, Comment: g.comment(30)}
		if g.bool("exname", 70) {
			e.Name = g.pick("exname", []string{"first", "second", "ex_3", "G"})
		}
		g.sc.Examples = append(g.sc.Examples, e)
	}
	for _, td := range g.sc.Types {
		if g.bool("example", 15) {
			if v := g.value(&td.TypeSpec); v != nil {
				add(td.Name, v)
			}
		}
		for _, f := range td.Fields {
			if td.Type == "Struct" && g.bool("fexample", 5) {
				if v := g.value(&f.TypeSpec); v != nil {
					add(td.Name+"."+f.Name, v)
				}
			}
		}
	}
	params := func(l []*sadl.HttpParamSpec) obj {
		m := obj{}
		for _, p := range l {
			if p.Required || g.bool("present", 60) {
				v := g.value(&p.TypeSpec)
				if v != nil {
					m[p.Name] = v
				} else if p.Required {
					return nil
				}
			}
		}
		return m
	}
	for _, h := range g.sc.Http {
		if g.bool("request", 30) {
			if v := params(h.Inputs); v != nil {
				add(sadl.Capitalize(h.Name)+"Request", v)
			}
		}
		if h.Expected != nil && g.bool("response", 30) {
			if v := params(h.Expected.Outputs); v != nil {
				add(sadl.Capitalize(h.Name)+"Response", v)
			}
		}
	}
}

// flat is the data as JSON, with comments on one line.
func flat(sc *sadl.Schema) string {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	var v interface{}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	if err := dec.Decode(&v); err != nil {
		panic(err)
	}
	var walk func(x interface{})
	walk = func(x interface{}) {
		switch y := x.(type) {
		case []interface{}:
			for _, z := range y {
				walk(z)
			}
		case obj:
			for k, z := range y {
				if s, ok := z.(string); ok && k == "comment" {
					y[k] = strings.Join(strings.Fields(s), " ")
				} else if k != "example" && k != "default" {
					walk(z)
				}
			}
		}
	}
	walk(v)
	return pbt.JSON(v)
}

// structs are the field lists of the schema.
func structs(sc *sadl.Schema) []*sadl.TypeSpec {
	var l []*sadl.TypeSpec
	var spec func(ts *sadl.TypeSpec)
	spec = func(ts *sadl.TypeSpec) {
		l = append(l, ts)
		for _, f := range ts.Fields {
			spec(&f.TypeSpec)
		}
		for _, v := range ts.Variants {
			spec(&v.TypeSpec)
		}
	}
	for _, td := range sc.Types {
		spec(&td.TypeSpec)
	}
	for _, h := range sc.Http {
		for _, p := range h.Inputs {
			spec(&p.TypeSpec)
		}
		if h.Expected != nil {
			for _, p := range h.Expected.Outputs {
				spec(&p.TypeSpec)
			}
		}
	}
	for _, o := range sc.Operations {
		for _, p := range o.Inputs {
			spec(&p.TypeSpec)
		}
		for _, p := range o.Outputs {
			spec(&p.TypeSpec)
		}
	}
	return l
}
