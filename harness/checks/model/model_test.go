package model

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/boynton/sadl"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
	"verif/harness/sval"
)

func TestMain(m *testing.M) { pbt.Main(m) }

var full = sgen.Options{
	InlineKinds: []string{"Array", "Map", "Enum", "UnitValue", "Struct"}, FieldAny: true, FieldOpts: true, Constraints: true,
	Comments: true, Annotations: true, MaxTypes: 8, Http: 4, Operations: 3, Base: true, Refs: true,
	UnionBase: true, UnionNamed: true, Resource: true,
}

// ---------------------------------------------------------------- P04 name resolution

func TestP04(t *testing.T) {
	pbt.Run(t, "resolve", pbt.Opt{Quick: 3000, Rule: "at least three types and one http action"}, func(c *pbt.C) {
		sc := sgen.New(c.T, full)
		c.CaseJSON(sc)
		c.NonTrivial(len(sc.Types) >= 3 && len(sc.Http) >= 1)
		want := sgen.Clone(sc)
		m, err := sadl.NewModel(sc)
		c.Check(err == nil && m != nil, "a schema with unique names is rejected: %v", err)
		for i, td := range want.Types {
			got := m.FindType(td.Name)
			c.Check(got != nil, "type %s is not found", td.Name)
			c.Check(pbt.JSON(got) == pbt.JSON(td), "looking up type %s gives another definition:\n%s\nwant\n%s", td.Name, pbt.JSON(got), pbt.JSON(td))
			c.Check(m.Types[i].Name == td.Name, "the order of the types changed")
		}
		c.Check(len(m.Types) == len(want.Types) && len(m.Http) == len(want.Http) && len(m.Operations) == len(want.Operations), "definitions were lost")
		for i, h := range want.Http {
			got := m.FindHttp(h.Name)
			c.Check(got != nil, "http action %s is not found", h.Name)
			c.Check(pbt.JSON(got) == pbt.JSON(h), "looking up http action %s gives another definition", h.Name)
			c.Check(m.Http[i].Name == h.Name, "the order of the http actions changed")
		}
		for _, b := range []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UnitValue", "UUID", "Array", "Map", "Struct", "Enum", "Union", "Any"} {
			got := m.FindType(b)
			c.Check(got != nil && got.Name == b && got.Type == b, "base type %s resolves to %s", b, pbt.JSON(got))
		}
		for i := 0; i < 8; i++ {
			n := rapid.StringMatching(`[A-Za-z][A-Za-z0-9_]{0,8}`).Draw(c.T, "unknown")
			if i == 0 && len(sc.Types) > 0 { // a near miss
				n = strings.ToLower(sc.Types[0].Name) + "q"
			}
			if i >= 2 { // names that differ from a defined one in case, length or by a space
				near := []string{"String", "Struct"}
				for _, td := range want.Types {
					near = append(near, td.Name)
				}
				for _, h := range want.Http {
					near = append(near, h.Name)
				}
				n = sgen.Pick(c.T, "near", near)
				switch rapid.IntRange(0, 6).Draw(c.T, "how") {
				case 0:
					n = sadl.Capitalize(n)
				case 1:
					n = sadl.Uncapitalize(n)
				case 2:
					n = strings.ToUpper(n)
				case 3:
					n = strings.ToLower(n)
				case 4:
					n = n[:len(n)-1]
				case 5:
					n = n + sgen.Pick(c.T, "tail", []string{" ", "s", "_", "1"})
				case 6:
					n = " " + n
				}
			}
			known := sgen.Has(sgen.AllKinds, n)
			for _, td := range want.Types {
				known = known || td.Name == n
			}
			c.Check(known || m.FindType(n) == nil, "undefined type %s is found", n)
			hk := false
			for _, h := range want.Http {
				hk = hk || h.Name == n
			}
			c.Check(hk || m.FindHttp(n) == nil, "undefined action %s is found", n)
		}
	})
	pbt.Run(t, "together", pbt.Opt{Quick: 150, Rule: "at least three types and one http action"}, func(c *pbt.C) {
		sc := sgen.New(c.T, full)
		c.CaseJSON(sc)
		c.NonTrivial(len(sc.Types) >= 3 && len(sc.Http) >= 1)
		m, err := sadl.NewModel(sc)
		c.Check(err == nil, "%v", err)
		names := []string{"String", "Nothing", "Union"}
		for _, td := range sc.Types {
			names = append(names, td.Name)
		}
		for _, h := range sc.Http {
			names = append(names, h.Name)
		}
		var ops []func() string
		for _, n := range names {
			ops = append(ops, func() string {
				ts, err := m.FindExampleType(&sadl.ExampleDef{Target: n, Example: "x"})
				return fmt.Sprintln(pbt.JSON(m.FindType(n)), pbt.JSON(m.FindHttp(n)), pbt.JSON(ts), err != nil)
			})
		}
		pbt.Together(c, "looking up", ops)
	})
	pbt.Run(t, "duplicates", pbt.Opt{Quick: 3000, Rule: "every case (each schema has exactly one clash)"}, func(c *pbt.C) {
		o := full
		o.MinTypes = 1
		sc := sgen.New(c.T, o)
		kind := rapid.IntRange(0, 2).Draw(c.T, "clash")
		if kind == 2 && len(sc.Http) == 0 {
			kind = 0
		}
		what := ""
		switch kind {
		case 0:
			what = sc.Types[rapid.IntRange(0, len(sc.Types)-1).Draw(c.T, "dup")].Name
			insertType(c, sc, what)
		case 1:
			what = sgen.Pick(c.T, "base", sgen.AllKinds)
			insertType(c, sc, what)
		case 2:
			h := *sc.Http[rapid.IntRange(0, len(sc.Http)-1).Draw(c.T, "duph")]
			h.Path = "/other"
			h.Method = "DELETE"
			at := rapid.IntRange(0, len(sc.Http)).Draw(c.T, "at")
			sc.Http = append(sc.Http[:at:at], append([]*sadl.HttpDef{&h}, sc.Http[at:]...)...)
			what = h.Name
		}
		c.Case("%d %s\n%s", kind, what, pbt.JSON(sc))
		c.Class("kind=%d", kind)
		c.NonTrivial(true)
		m, err := sadl.NewModel(sc)
		c.Check(err != nil, "two definitions of %q are accepted", what)
		c.Check(m == nil, "a model is returned along with the error %v", err)
		c.Check(strings.Contains(err.Error(), what), "the error does not name %q: %v", what, err)
	})
	pbt.Run(t, "example-targets", pbt.Opt{Quick: 3000, Rule: "the target goes through at least one field or parameter"}, func(c *pbt.C) {
		o := full
		o.Kinds = []string{"Struct", "Struct", "String", "Int32", "Array"}
		o.MinTypes = 2
		o.MinFields = 1
		sc := sgen.New(c.T, o)
		m, err := sadl.NewModel(sc)
		c.Check(err == nil, "%v", err)
		var target string
		var want *sadl.TypeSpec
		bad := ""
		switch rapid.IntRange(0, 3).Draw(c.T, "target") {
		case 0, 1:
			td := sc.Types[rapid.IntRange(0, len(sc.Types)-1).Draw(c.T, "td")]
			target, want = td.Name, &td.TypeSpec
			for want.Type == "Struct" && len(want.Fields) > 0 && sgen.Bool(c.T, "deeper", 75) {
				f := want.Fields[rapid.IntRange(0, len(want.Fields)-1).Draw(c.T, "field")]
				target += "." + f.Name
				want = &f.TypeSpec
			}
		default:
			if len(sc.Http) == 0 {
				target, bad = "NoSuchThing", "undefined"
				break
			}
			h := sc.Http[rapid.IntRange(0, len(sc.Http)-1).Draw(c.T, "http")]
			ps, suffix := h.Inputs, "Request"
			if rapid.Bool().Draw(c.T, "response") {
				ps, suffix = h.Expected.Outputs, "Response"
				if sgen.Bool(c.T, "noResponse", 15) {
					h.Expected, ps = nil, nil
				}
			}
			target = sadl.Capitalize(h.Name) + suffix
			if m.FindType(target) != nil {
				c.Skip("the synthesized name is taken")
			}
			if len(ps) == 0 {
				target, bad = target+".nope", "no such parameter"
				break
			}
			p := ps[rapid.IntRange(0, len(ps)-1).Draw(c.T, "param")]
			target += "." + p.Name
			want = &p.TypeSpec
		}
		if bad == "" && rapid.IntRange(0, 3).Draw(c.T, "spoil") == 0 {
			bad = "unknown last step"
			target += "." + "nosuchfield"
		}
		c.Case("target %s bad=%q\n%s", target, bad, pbt.JSON(sc))
		c.NonTrivial(strings.Contains(target, "."))
		c.Class("bad=%v", bad != "")
		ts, err := m.FindExampleType(&sadl.ExampleDef{Target: target, Name: "e"})
		if bad != "" {
			c.Check(err != nil, "target %s (%s) resolves to %s", target, bad, pbt.JSON(ts))
			return
		}
		c.Check(err == nil && ts != nil, "target %s does not resolve: %v", target, err)
		c.Check(pbt.JSON(ts) == pbt.JSON(want), "target %s resolves to %s, want %s", target, pbt.JSON(ts), pbt.JSON(want))
	})
}

func insertType(c *pbt.C, sc *sadl.Schema, name string) {
	td := &sadl.TypeDef{Name: name, TypeSpec: sadl.TypeSpec{Type: sgen.Pick(c.T, "dupkind", []string{"String", "Int32", "Bool"})}}
	at := rapid.IntRange(0, len(sc.Types)).Draw(c.T, "at")
	sc.Types = append(sc.Types[:at:at], append([]*sadl.TypeDef{td}, sc.Types[at:]...)...)
}

// ---------------------------------------------------------------- P06 value validation

var valueOpts = sgen.Options{
	Kinds:       []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "String", "Timestamp", "UUID", "UnitValue", "Array", "Map", "Struct", "Struct", "Enum", "Union"},
	InlineKinds: []string{"Array", "Map", "Enum", "UnitValue", "Struct"}, FieldOpts: true, Constraints: true,
	MinTypes: 1, MaxTypes: 6, UnionBase: true, UnionNamed: true, ItemAny: true,
}

func TestP06(t *testing.T) {
	run := func(name string, o sgen.Options, quick int) {
		pbt.Run(t, name, pbt.Opt{Quick: quick, Rule: "the value is composite, or the type has constraints"}, func(c *pbt.C) {
			sc := sgen.New(c.T, o)
			g := sval.NewG(c.T, sc)
			td := sc.Types[rapid.IntRange(0, len(sc.Types)-1).Draw(c.T, "subject")]
			v := g.Value(&td.TypeSpec, 0)
			n := rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2}).Draw(c.T, "corruptions")
			for i := 0; i < n; i++ {
				v = g.Corrupt(&td.TypeSpec, v)
			}
			why := g.Valid(&td.TypeSpec, v)
			c.Case("%s := %s\n%s", td.Name, sval.JSON(v), pbt.JSON(sc))
			_, isMap := v.(map[string]interface{})
			_, isArr := v.([]interface{})
			ts := &td.TypeSpec
			c.NonTrivial(isMap || isArr || ts.Min != nil || ts.Max != nil || ts.MinSize != nil || ts.MaxSize != nil || ts.Pattern != "" || ts.Values != nil)
			c.Class("valid=%v", why == "")
			c.Class("kind=%s", td.Type)
			m, err := sadl.NewModel(sc)
			c.Check(err == nil, "%v", err)
			before := sval.JSON(v)
			var e1, e2 error
			pbt.NoPanic(c, "validation", func() {
				e1 = m.Validate("", td.Name, v)
				e2 = m.ValidateAgainstTypeSpec("ctx", &td.TypeSpec, v)
			})
			c.Check((e1 == nil) == (why == ""), "%s as %s: validator says %v, the specification says %q", before, td.Name, e1, why)
			c.Check((e1 == nil) == (e2 == nil), "%s as %s: %v by name but %v by specification", before, td.Name, e1, e2)
			c.Check(sval.JSON(v) == before, "validation changed the value")
			// text and truth values may come as Go values as well as by reference
			var e3 error
			plain := g.Plain(&td.TypeSpec, v, rapid.IntRange(0, 2).Draw(c.T, "representation"))
			pbt.NoPanic(c, "validation", func() { e3 = m.Validate("", td.Name, plain) })
			c.Check((e1 == nil) == (e3 == nil), "%s as %s: %v, but %v with text and truth values by value", before, td.Name, e1, e3)
		})
	}
	run("all-kinds", valueOpts, 8000)
	for _, k := range []string{"number", "text", "collection", "struct", "union-unit"} {
		o := valueOpts
		o.MaxTypes = 3
		switch k {
		case "number":
			o.Kinds = sgen.Numeric
			o.MaxTypes = 1
		case "text":
			o.Kinds = []string{"String", "Enum", "UUID", "Timestamp"}
			o.MaxTypes = 1
		case "collection":
			o.Kinds = []string{"Array", "Map", "String", "Enum", "Int8"}
		case "struct":
			o.Kinds = []string{"Struct", "Struct", "String", "Int16", "Enum"}
		case "union-unit":
			o.Kinds = []string{"Union", "UnitValue", "Enum", "String", "Struct"}
		}
		run(k, o, 3000)
	}
	pbt.Run(t, "together", pbt.Opt{Quick: 300, Rule: "every case"}, func(c *pbt.C) {
		// like the requests that a server validates
		sc := sgen.New(c.T, valueOpts)
		c.CaseJSON(sc)
		c.NonTrivial(true)
		g := sval.NewG(c.T, sc)
		m, err := sadl.NewModel(sc)
		c.Check(err == nil, "%v", err)
		var ops []func() string
		for _, td := range sc.Types {
			for k := 0; k < 3; k++ {
				v := g.Value(&td.TypeSpec, 0)
				if k > 0 {
					v = g.Corrupt(&td.TypeSpec, v)
				}
				want := g.Valid(&td.TypeSpec, v) == ""
				ops = append(ops, func() string {
					if (m.Validate("", td.Name, v) == nil) != want {
						return fmt.Sprintf("%s as a %s: valid should be %v", sval.JSON(v), td.Name, want)
					}
					return ""
				})
			}
		}
		pbt.Together(c, "validation", append(ops, func() string { return "" }))
		for _, op := range ops {
			if s := op(); s != "" {
				c.Fatalf("%s", s)
			}
		}
	})
	pbt.Run(t, "several-models", pbt.Opt{Quick: 500, Rule: "the models disagree on a value"}, func(c *pbt.C) {
		// what one model says about a type is nothing to another one with a type of the same name
		type one struct {
			sc *sadl.Schema
			m  *sadl.Model
			g  *sval.G
		}
		var l []one
		for i := 0; i < 3; i++ {
			o := valueOpts
			o.MaxTypes = 3
			sc := sgen.New(c.T, o)
			for k, td := range sc.Types {
				rename(sc, td.Name, fmt.Sprintf("Same%d", k))
			}
			m, err := sadl.NewModel(sc)
			c.Check(err == nil, "%v", err)
			l = append(l, one{sc, m, sval.NewG(c.T, sc)})
		}
		var vals []interface{}
		for _, x := range l {
			for k := 0; k < 2; k++ {
				td := x.sc.Types[0]
				v := x.g.Value(&td.TypeSpec, 0)
				vals = append(vals, v)
			}
		}
		c.Case("%s\n%s\n%s\n%s", sval.JSON(vals), pbt.JSON(l[0].sc), pbt.JSON(l[1].sc), pbt.JSON(l[2].sc))
		for _, v := range vals {
			n := 0
			for _, x := range l {
				td := x.sc.Types[0]
				why := x.g.Valid(&td.TypeSpec, v)
				var err error
				pbt.NoPanic(c, "validation", func() { err = x.m.Validate("", td.Name, v) })
				c.Check((err == nil) == (why == ""), "%s as %s of %s: validator says %v, the specification says %q", sval.JSON(v), td.Name, pbt.JSON(x.sc), err, why)
				if err == nil {
					n++
				}
			}
			c.NonTrivial(n > 0 && n < len(l))
		}
	})
	pbt.Run(t, "undefined-type", pbt.Opt{Quick: 500, Rule: "every case"}, func(c *pbt.C) {
		sc := sgen.New(c.T, valueOpts)
		g := sval.NewG(c.T, sc)
		v := g.Junk()
		sc.Types = append(sc.Types, &sadl.TypeDef{Name: "Dangling", TypeSpec: sadl.TypeSpec{Type: "NoSuchType"}})
		m, err := sadl.NewModel(sc)
		c.Check(err == nil, "%v", err)
		c.Case("%s", sval.JSON(v))
		c.NonTrivial(true)
		c.Check(m.Validate("", "NoSuchType", v) != nil, "a value of an undefined type is valid")
		c.Check(m.Validate("", "Dangling", v) != nil, "a value of a type defined in terms of an undefined one is valid")
		c.Check(m.ValidateAgainstTypeSpec("", &sadl.TypeSpec{Type: "Array", Items: "NoSuchType"}, []interface{}{v}) != nil, "an array of an undefined type is valid")
		c.Check(m.ValidateAgainstTypeSpec("", &sadl.TypeSpec{Type: "Map", Keys: "String", Items: "NoSuchType"}, map[string]interface{}{"a": v}) != nil, "a map to an undefined type is valid")
	})
}

// ---------------------------------------------------------------- P07 type equivalence

// acyclic returns whether arrays/maps reach themselves only through structs or not at all.
func clones(c *pbt.C, sc *sadl.Schema) *sadl.Schema {
	r := sgen.Clone(sc)
	for _, td := range sgen.Clone(sc).Types {
		td.Name += "Copy"
		r.Types = append(r.Types, td)
	}
	return r
}

func TestP07(t *testing.T) {
	o := valueOpts
	o.Kinds = append(append([]string{}, o.Kinds...), "Bytes", "Any")
	o.UnionNamed = true
	o.Refs = true
	o.MaxTypes = 6
	o.Comments = true
	o.Annotations = true
	pbt.Run(t, "copies-are-equivalent", pbt.Opt{Quick: 4000, Rule: "a definition with constraints, members or references"}, func(c *pbt.C) {
		sc := clones(c, sgen.New(c.T, o))
		n := len(sc.Types) / 2
		i := rapid.IntRange(0, n-1).Draw(c.T, "subject")
		a, b := sc.Types[i], sc.Types[n+i]
		// order is irrelevant for enum symbols and allowed values
		if len(b.Elements) > 1 && rapid.Bool().Draw(c.T, "permute") {
			k := rapid.IntRange(1, len(b.Elements)-1).Draw(c.T, "rot")
			b.Elements = append(append([]*sadl.EnumElementDef{}, b.Elements[k:]...), b.Elements[:k]...)
		}
		if len(b.Values) > 1 && rapid.Bool().Draw(c.T, "permutev") {
			k := rapid.IntRange(1, len(b.Values)-1).Draw(c.T, "rotv")
			b.Values = append(append([]string{}, b.Values[k:]...), b.Values[:k]...)
		}
		if len(b.Variants) > 1 && rapid.Bool().Draw(c.T, "permuteu") {
			k := rapid.IntRange(1, len(b.Variants)-1).Draw(c.T, "rotu")
			b.Variants = append(append([]*sadl.UnionVariantDef{}, b.Variants[k:]...), b.Variants[:k]...)
		}
		// an array or map of copies is still equivalent
		if (b.Type == "Array" || b.Type == "Map") && rapid.Bool().Draw(c.T, "viaCopies") {
			if !sgen.Has(sgen.AllKinds, b.Items) {
				b.Items += "Copy"
			}
			if b.Type == "Map" && !sgen.Has(sgen.AllKinds, b.Keys) {
				b.Keys += "Copy"
			}
		}
		b.Comment = "another comment"
		c.Case("%s ~ %s", pbt.JSON(a), pbt.JSON(b))
		c.Class("kind=%s", a.Type)
		c.NonTrivial(pbt.JSON(a.TypeSpec) != fmt.Sprintf("{\n \"type\": %q\n}", a.Type))
		m, err := sadl.NewModel(sc)
		c.Check(err == nil, "%v", err)
		pbt.NoPanic(c, "comparison", func() {
			c.Check(m.EquivalentTypes(&a.TypeSpec, &a.TypeSpec), "a type is not equivalent to itself")
			c.Check(m.EquivalentTypes(&a.TypeSpec, &b.TypeSpec), "a copy is not equivalent")
			c.Check(m.EquivalentTypes(&b.TypeSpec, &a.TypeSpec), "equivalence is not symmetric")
			c.Check(m.EquivalentTypesByName(a.Name, b.Name), "a copy is not equivalent by name")
			c.Check(m.EquivalentTypesByName(b.Name, a.Name), "equivalence by name is not symmetric")
		})
	})
	pbt.Run(t, "differences-count", pbt.Opt{Quick: 5000, Rule: "every case (each copy has exactly one difference)"}, func(c *pbt.C) {
		sc := clones(c, sgen.New(c.T, o))
		n := len(sc.Types) / 2
		i := rapid.IntRange(0, n-1).Draw(c.T, "subject")
		a, b := sc.Types[i], sc.Types[n+i]
		what := mutateSpec(c, &b.TypeSpec)
		if what == "" {
			c.Skip("nothing to change")
		}
		c.Case("%s: %s vs %s", what, pbt.JSON(a), pbt.JSON(b))
		c.Class("%s", what)
		c.NonTrivial(true)
		m, err := sadl.NewModel(sc)
		c.Check(err == nil, "%v", err)
		pbt.NoPanic(c, "comparison", func() {
			c.Check(!m.EquivalentTypes(&a.TypeSpec, &b.TypeSpec), "types that differ in %s are equivalent", what)
			c.Check(!m.EquivalentTypes(&b.TypeSpec, &a.TypeSpec), "types that differ in %s are equivalent (reversed)", what)
			c.Check(!m.EquivalentTypesByName(a.Name, b.Name), "types that differ in %s are equivalent by name", what)
		})
	})
	pbt.Run(t, "together", pbt.Opt{Quick: 150, Rule: "every case"}, func(c *pbt.C) {
		o2 := o
		o2.MaxTypes = 4
		sc := clones(c, sgen.New(c.T, o2))
		m, err := sadl.NewModel(sc)
		c.Check(err == nil, "%v", err)
		c.CaseJSON(sc)
		c.NonTrivial(true)
		var ops []func() string
		for _, a := range sc.Types {
			for _, b := range sc.Types {
				ops = append(ops, func() string {
					return fmt.Sprintln(a.Name, b.Name, m.EquivalentTypes(&a.TypeSpec, &b.TypeSpec), m.EquivalentTypesByName(a.Name, b.Name))
				})
			}
		}
		pbt.Together(c, "comparison", ops)
	})
	pbt.Run(t, "relation", pbt.Opt{Quick: 1500, Rule: "some two different definitions are equivalent"}, func(c *pbt.C) {
		o2 := o
		o2.MaxTypes = 4
		sc := clones(c, sgen.New(c.T, o2))
		m, err := sadl.NewModel(sc)
		c.Check(err == nil, "%v", err)
		c.CaseJSON(sc)
		n := len(sc.Types)
		eq := make([][]bool, n)
		pbt.NoPanic(c, "comparison", func() {
			for i := range sc.Types {
				eq[i] = make([]bool, n)
				for j := range sc.Types {
					eq[i][j] = m.EquivalentTypes(&sc.Types[i].TypeSpec, &sc.Types[j].TypeSpec)
					if eq[i][j] && i != j {
						c.NonTrivial(true)
					}
				}
			}
		})
		for i := 0; i < n; i++ {
			c.Check(eq[i][i], "%s is not equivalent to itself", sc.Types[i].Name)
			for j := 0; j < n; j++ {
				c.Check(eq[i][j] == eq[j][i], "%s and %s: not symmetric", sc.Types[i].Name, sc.Types[j].Name)
				for k := 0; k < n; k++ {
					c.Check(!(eq[i][j] && eq[j][k]) || eq[i][k], "%s, %s, %s: not transitive", sc.Types[i].Name, sc.Types[j].Name, sc.Types[k].Name)
				}
			}
		}
	})
}

// mutateSpec changes one meaningful attribute and says which ("" if nothing can change).
func mutateSpec(c *pbt.C, ts *sadl.TypeSpec) string {
	i64 := func(n int64) *int64 { return &n }
	size := func() string {
		p := &ts.MinSize
		name := "minsize"
		if rapid.Bool().Draw(c.T, "which") {
			p, name = &ts.MaxSize, "maxsize"
		}
		if *p == nil {
			*p = i64(rapid.Int64Range(0, 50).Draw(c.T, "size"))
		} else if rapid.Bool().Draw(c.T, "drop") {
			*p = nil
		} else {
			*p = i64(**p + 1)
		}
		return name
	}
	switch ts.Type {
	case "String":
		switch rapid.IntRange(0, 4).Draw(c.T, "strmut") {
		case 0:
			ts.Pattern += "x?"
			return "pattern"
		case 1:
			return size()
		case 2:
			if len(ts.Values) > 0 && rapid.Bool().Draw(c.T, "swap") {
				ts.Values[rapid.IntRange(0, len(ts.Values)-1).Draw(c.T, "i")] = "somethingelse"
			} else {
				ts.Values = append(ts.Values, "somethingelse")
			}
			return "values"
		case 3:
			ts.Reference += "Q"
			return "reference"
		default:
			ts.Type = "Int32"
			return "kind"
		}
	case "UUID":
		ts.Reference += "Q"
		return "reference"
	case "Bytes":
		return size()
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		p, name := &ts.Min, "min"
		if rapid.Bool().Draw(c.T, "which") {
			p, name = &ts.Max, "max"
		}
		if *p == nil {
			*p = sgen.DecInt(rapid.Int64Range(-10, 10).Draw(c.T, "lim"))
		} else if rapid.Bool().Draw(c.T, "drop") {
			*p = nil
		} else {
			*p = sgen.Dec((*p).String() + "1")
			if !strings.Contains((*p).String(), ".") {
				*p = sgen.Dec((*p).String() + ".5")
			}
		}
		return name
	case "Array", "Map":
		if rapid.Bool().Draw(c.T, "sz") {
			return size()
		}
		if ts.Type == "Map" && rapid.Bool().Draw(c.T, "keys") {
			ts.Keys = "Enum"
			return "keys"
		}
		if ts.Items == "Bool" {
			ts.Items = "Int8"
		} else {
			// an item type no other type is equivalent to
			ts.Items = "Enum"
		}
		return "items"
	case "UnitValue":
		if rapid.Bool().Draw(c.T, "unit") {
			ts.Unit = "UUID"
			return "unit type"
		}
		if ts.Value == "Int8" {
			ts.Value = "Int16"
		} else {
			ts.Value = "Int8"
		}
		return "value type"
	case "Enum":
		if rapid.Bool().Draw(c.T, "rename") {
			e := *ts.Elements[0]
			e.Symbol += "_OTHER"
			ts.Elements[0] = &e
		} else {
			ts.Elements = append(ts.Elements, &sadl.EnumElementDef{Symbol: "EXTRA_ONE"})
		}
		return "enum symbols"
	case "Union":
		vd := &sadl.UnionVariantDef{Name: "Enum"}
		vd.Type = "Enum"
		if rapid.Bool().Draw(c.T, "renamev") && len(ts.Variants) > 0 {
			v := ts.Variants[rapid.IntRange(0, len(ts.Variants)-1).Draw(c.T, "iv")]
			*vd = *v
			if rapid.Bool().Draw(c.T, "nameOrType") {
				vd.Name += "Other"
			} else {
				vd.TypeSpec = sadl.TypeSpec{Type: "Enum"}
			}
			for i := range ts.Variants {
				if ts.Variants[i] == v {
					ts.Variants[i] = vd
				}
			}
			return "a variant"
		}
		if rapid.Bool().Draw(c.T, "replace") && len(ts.Variants) > 0 {
			ts.Variants[rapid.IntRange(0, len(ts.Variants)-1).Draw(c.T, "i")] = vd
		} else {
			ts.Variants = append(ts.Variants, vd)
		}
		return "variants"
	case "Struct":
		if len(ts.Fields) == 0 || rapid.IntRange(0, 3).Draw(c.T, "addfield") == 0 {
			f := &sadl.StructFieldDef{Name: "extraField"}
			f.Type = "String"
			ts.Fields = append(ts.Fields, f)
			return "number of fields"
		}
		f := ts.Fields[rapid.IntRange(0, len(ts.Fields)-1).Draw(c.T, "f")]
		switch rapid.IntRange(0, 2).Draw(c.T, "fmut") {
		case 0:
			f.Name += "Other"
			return "a field's name"
		case 1:
			f.Required = !f.Required
			return "a field being required"
		}
		if sgen.Has(sgen.AllKinds, f.Type) && f.Type != "Bool" && f.Type != "Timestamp" && f.Type != "Any" {
			if w := mutateSpec(c, &f.TypeSpec); w != "" {
				return "a field's " + w
			}
		}
		if f.Type == "Bool" {
			f.TypeSpec = sadl.TypeSpec{Type: "Timestamp"}
		} else {
			f.TypeSpec = sadl.TypeSpec{Type: "Bool"}
		}
		return "a field's type"
	}
	if ts.Type == "Bool" {
		ts.Type = "Int32"
	} else {
		*ts = sadl.TypeSpec{Type: "Bool"}
	}
	return "kind"
}

// ---------------------------------------------------------------- P08 inline enums

func TestP08(t *testing.T) {
	o := sgen.Options{
		Kinds:        []string{"Struct", "Struct", "Struct", "Enum", "String", "Array"},
		FieldScalars: []string{"String", "Int32"}, InlineKinds: []string{"Enum", "Enum", "Array"},
		Comments: true, Annotations: true, MinTypes: 1, MaxTypes: 6, MaxFields: 6,
	}
	pbt.Run(t, "refactor", pbt.Opt{Quick: 4000, Rule: "at least one inline enum is lifted"}, func(c *pbt.C) {
		sc := sgen.New(c.T, o)
		// provoke clashes: a field whose synthesized type name is taken
		mode := rapid.SampledFrom([]string{"plain", "plain", "same-exists", "other-exists", "two-fields-same", "two-fields-differ"}).Draw(c.T, "mode")
		var els []*sadl.EnumElementDef
		for _, s := range []string{"ONE", "TWO", "THREE"}[:rapid.IntRange(1, 3).Draw(c.T, "nsym")] {
			els = append(els, &sadl.EnumElementDef{Symbol: s})
		}
		mk := func(name, field string, els []*sadl.EnumElementDef) *sadl.TypeDef {
			td := &sadl.TypeDef{Name: name}
			td.Type = "Struct"
			f := &sadl.StructFieldDef{Name: field, Required: rapid.Bool().Draw(c.T, "req")}
			f.Type = "Enum"
			f.Elements = append([]*sadl.EnumElementDef{}, els...)
			td.Fields = append(td.Fields, f)
			return td
		}
		other := append(append([]*sadl.EnumElementDef{}, els...), &sadl.EnumElementDef{Symbol: "EXTRA"})
		add := func(tds ...*sadl.TypeDef) {
			for _, td := range tds {
				at := rapid.IntRange(0, len(sc.Types)).Draw(c.T, "at")
				sc.Types = append(sc.Types[:at:at], append([]*sadl.TypeDef{td}, sc.Types[at:]...)...)
			}
		}
		wantErr := false
		switch mode {
		case "same-exists", "other-exists":
			ex := &sadl.TypeDef{Name: "ZooKeeper"}
			ex.Type = "Enum"
			ex.Elements = els
			if mode == "other-exists" {
				ex.Elements = other
				wantErr = true
			}
			add(ex, mk("Zoo", rapid.SampledFrom([]string{"keeper", "zooKeeper"}).Draw(c.T, "fieldname"), els))
		case "two-fields-same":
			add(mk("Zoo", "keeperKind", els), mk("ZooKeeper", "kind", els))
		case "two-fields-differ":
			add(mk("Zoo", "keeperKind", els), mk("ZooKeeper", "kind", other))
			wantErr = true
		}
		before := sgen.Clone(sc)
		// expected outcome
		names := map[string]bool{}
		for _, td := range before.Types {
			names[td.Name] = true
		}
		lifted := map[string]*sadl.StructFieldDef{}
		for _, td := range before.Types {
			if td.Type == "Struct" {
				for _, f := range td.Fields {
					if f.Type == "Enum" {
						n := synth(td.Name, f.Name)
						if (lifted[n] != nil || names[n]) && !strings.HasPrefix(n, "ZooKeeper") {
							c.Skip("names of random types clash")
						}
						lifted[n] = f
					}
				}
			}
		}
		c.Case("%s\n%s", mode, pbt.JSON(before))
		c.Class("mode=%s", mode)
		c.NonTrivial(len(lifted) > 0)
		m, err := sadl.NewModel(sc)
		c.Check(err == nil, "%v", err)
		err = m.ConvertInlineEnums()
		if wantErr {
			c.Check(err != nil, "two different enums got the same name without an error")
			return
		}
		c.Check(err == nil, "refactoring failed: %v", err)
		check := func() {
			seen := map[string]*sadl.TypeDef{}
			for _, td := range m.Types {
				c.Check(seen[td.Name] == nil, "type %s is defined twice", td.Name)
				seen[td.Name] = td
				c.Check(m.FindType(td.Name) != nil && pbt.JSON(m.FindType(td.Name)) == pbt.JSON(td), "type %s does not resolve to its definition", td.Name)
			}
			newNames := 0
			for n := range lifted {
				if !names[n] {
					newNames++
				}
			}
			c.Check(len(m.Types) == len(before.Types)+newNames, "%d types became %d, want %d", len(before.Types), len(m.Types), len(before.Types)+newNames)
			for i, td := range before.Types {
				got := m.Types[i]
				c.Check(got.Name == td.Name && got.Type == td.Type && got.Comment == td.Comment && len(got.Fields) == len(td.Fields), "type %s changed", td.Name)
				if td.Type != "Struct" {
					c.Check(pbt.JSON(got) == pbt.JSON(td), "type %s changed", td.Name)
					continue
				}
				for j, f := range td.Fields {
					g := got.Fields[j]
					c.Check(g.Name == f.Name && g.Required == f.Required && g.Comment == f.Comment && pbt.JSON(g.Annotations) == pbt.JSON(f.Annotations), "field %s.%s changed: %s", td.Name, f.Name, pbt.JSON(g))
					if f.Type != "Enum" {
						c.Check(pbt.JSON(g) == pbt.JSON(f), "field %s.%s changed", td.Name, f.Name)
						continue
					}
					n := synth(td.Name, f.Name)
					c.Check(g.Type == n && len(g.Elements) == 0, "field %s.%s has type %s, want %s", td.Name, f.Name, pbt.JSON(g.TypeSpec), n)
					e := m.FindType(g.Type)
					c.Check(e != nil && e.Type == "Enum", "%s is not an enum type", g.Type)
					if names[n] || mode == "two-fields-same" {
						c.Check(symbols(e.Elements) == symbols(f.Elements), "enum %s has symbols %s, want %s", n, symbols(e.Elements), symbols(f.Elements))
					} else {
						c.Check(pbt.JSON(e.Elements) == pbt.JSON(f.Elements), "enum %s lost something: %s, want %s", n, pbt.JSON(e.Elements), pbt.JSON(f.Elements))
					}
				}
			}
		}
		check()
		c.Check(m.ConvertInlineEnums() == nil, "refactoring a second time fails")
		check()
		_, err = sadl.NewModel(&m.Schema)
		c.Check(err == nil, "the refactored model is not a valid schema: %v", err)
	})
}

func synth(tname, fname string) string {
	n := strings.ToUpper(fname[:1]) + fname[1:]
	if !strings.HasPrefix(n, tname) {
		n = tname + n
	}
	return n
}

func symbols(l []*sadl.EnumElementDef) string {
	var r []string
	for _, e := range l {
		r = append(r, e.Symbol)
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

// ---------------------------------------------------------------- P10 comment formatting

func TestP10(t *testing.T) {
	pbt.Run(t, "together", pbt.Opt{Quick: 100, Rule: "every case"}, func(c *pbt.C) {
		c.NonTrivial(true)
		var ops []func() string
		var all []string
		for i := 0; i < 8; i++ {
			s, max := sgen.Comment(c.T, true), rapid.IntRange(0, 120).Draw(c.T, "max")
			all = append(all, s)
			ops = append(ops, func() string { return sadl.FormatComment("  ", "// ", s, max, i%2 == 0) })
		}
		c.Case("%s", strings.Join(all, "\n----\n"))
		pbt.Together(c, "formatting", ops)
	})
	pbt.Run(t, "wrap", pbt.Opt{Quick: 6000, Rule: "the text is wrapped or has several lines"}, func(c *pbt.C) {
		indent := strings.Repeat(" ", rapid.IntRange(0, 12).Draw(c.T, "indent"))
		prefix := rapid.SampledFrom([]string{"// ", "# ", "", " * ", "//"}).Draw(c.T, "prefix")
		maxcol := rapid.SampledFrom([]int{0, 10, 40, 76, 80, 100}).Draw(c.T, "maxcol")
		if rapid.Bool().Draw(c.T, "anymax") {
			maxcol = rapid.IntRange(0, 120).Draw(c.T, "max")
		}
		pad := rapid.IntRange(0, 3).Draw(c.T, "pad") == 0
		nl := rapid.SampledFrom([]int{1, 1, 1, 2, 4}).Draw(c.T, "lines")
		var lines []string
		for i := 0; i < nl; i++ {
			l := ""
			if nl == 1 || rapid.IntRange(0, 4).Draw(c.T, "blank") > 0 {
				l = sgen.Comment(c.T, true)
				if rapid.IntRange(0, 3).Draw(c.T, "longword") == 0 {
					l += " " + strings.Repeat("w", rapid.IntRange(1, 130).Draw(c.T, "wlen"))
				}
				if rapid.IntRange(0, 5).Draw(c.T, "unicode") == 0 {
					l += " naïve café"
				}
			}
			lines = append(lines, l)
		}
		comment := strings.Join(lines, "\n")
		c.Case("indent=%d prefix=%q max=%d pad=%v\n%s", len(indent), prefix, maxcol, pad, comment)
		out := sadl.FormatComment(indent, prefix, comment, maxcol, pad)
		checkComment(c, indent, prefix, comment, maxcol, pad, out)
		if prefix == "// " {
			gen := &sadl.Generator{Config: sadl.NewData()}
			c.Check(gen.FormatComment(indent, comment, maxcol, pad) == out, "the generator formats comments differently")
		}
	})
}

func checkComment(c *pbt.C, indent, prefix, comment string, maxcol int, pad bool, out string) {
	c.Check(strings.HasSuffix(out, "\n"), "the last line is not terminated: %q", out)
	got := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	c.NonTrivial(len(got) > 1)
	strip := strings.TrimRight(indent+prefix, " ")
	var text []string
	for _, l := range got {
		if l == "" {
			continue
		}
		c.Check(strings.HasPrefix(l, indent+prefix) || strings.TrimRight(l, " ") == strip || pad && l == indent+strings.Trim(prefix, " ") || prefix == "" && strings.HasPrefix(l, indent), "line %q does not start with %q", l, indent+prefix)
		body := strings.TrimPrefix(strings.TrimPrefix(l, indent), prefix)
		if strings.TrimRight(l, " ") == strip || pad && l == indent+strings.Trim(prefix, " ") {
			body = ""
		}
		text = append(text, body)
	}
	if strings.Contains(comment, "\n") {
		// the lines are kept as they are
		want := strings.Split(comment, "\n")
		var nb, nw []string
		for _, l := range text {
			if l != "" {
				nb = append(nb, l)
			}
		}
		for _, l := range want {
			if l != "" {
				nw = append(nw, l)
			}
		}
		c.Check(strings.Join(nb, "\n") == strings.Join(nw, "\n"), "lines changed:\n%q\nwant\n%q", nb, nw)
		return
	}
	if pad && maxcol > len(indent) && strings.Trim(prefix, " ") != "" {
		// extra padding surrounds the text with an empty comment line
		blank := indent + strings.Trim(prefix, " ")
		c.Check(len(got) > 2 && got[0] == blank && got[len(got)-1] == blank, "the comment is not padded: %q", out)
	}
	c.Check(strings.Join(strings.Fields(strings.Join(text, " ")), " ") == strings.Join(strings.Fields(comment), " "), "words changed: %q, want %q", strings.Join(text, " "), comment)
	if maxcol > len(indent) {
		for _, l := range got {
			if len(l) > maxcol {
				c.Check(len(strings.Fields(strings.TrimPrefix(strings.TrimPrefix(l, indent), prefix))) <= 1, "line %q is longer than %d", l, maxcol)
			}
		}
	}
}

// scratch file helper
func write(dir, name, content string) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, []byte(content), 0644); err != nil {
		panic(err)
	}
	return p
}

// rename gives a type of a schema without actions another name.
func rename(sc *sadl.Schema, from, to string) {
	var spec func(ts *sadl.TypeSpec)
	spec = func(ts *sadl.TypeSpec) {
		for _, s := range []*string{&ts.Type, &ts.Items, &ts.Keys, &ts.Value, &ts.Unit} {
			if *s == from {
				*s = to
			}
		}
		for _, f := range ts.Fields {
			spec(&f.TypeSpec)
		}
		for _, v := range ts.Variants {
			spec(&v.TypeSpec)
		}
	}
	for _, td := range sc.Types {
		if td.Name == from {
			td.Name = to
		}
		spec(&td.TypeSpec)
	}
}
