package oas

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"
	"verif/harness/pbt"
	"verif/harness/sgen"
)

// What survives a trip through OpenAPI: shape renders a type with the distinctions the format
// has no room for left out (the width of small integers and of fractions, key types, unit types,
// the names of simple types that are spelled out where they are items).
type shaper struct {
	types map[string]*sadl.TypeDef
}

func newShaper(sc *sadl.Schema) *shaper {
	s := &shaper{map[string]*sadl.TypeDef{}}
	for _, td := range sc.Types {
		s.types[td.Name] = td
	}
	return s
}

func (s *shaper) item(name string) string {
	if name == "" {
		name = "Any"
	}
	td := s.types[name]
	if td == nil {
		return s.base(name)
	}
	switch td.Type {
	case "Struct", "Enum", "Union", "Array", "Map":
		return name
	}
	return s.base(td.Type)
}

func (s *shaper) base(t string) string {
	switch t {
	case "Int8", "Int16", "Int32":
		return "int"
	case "Int64":
		return "long"
	case "Float32", "Float64", "Decimal":
		return "number"
	case "UUID", "UnitValue", "String":
		return "string"
	case "Timestamp", "Bytes", "Bool", "Any", "Struct", "Array":
		return t
	}
	return "?" + t
}

func dec(d *sadl.Decimal) string {
	if d == nil {
		return "-"
	}
	f, _ := sgen.Rat(d).Float64()
	return fmt.Sprint(f)
}

func size(p *int64) string {
	if p == nil {
		return "-"
	}
	return fmt.Sprint(*p)
}

func minsize(p *int64) string {
	if p == nil || *p == 0 {
		return "-"
	}
	return fmt.Sprint(*p)
}

func (s *shaper) shape(ts *sadl.TypeSpec) string {
	if s.types[ts.Type] != nil {
		return ts.Type
	}
	switch ts.Type {
	case "Struct":
		var l []string
		for _, f := range ts.Fields {
			l = append(l, fmt.Sprintf("%s required=%v %s", f.Name, f.Required, s.shape(&f.TypeSpec)))
		}
		sort.Strings(l)
		return "struct{" + strings.Join(l, "; ") + "}"
	case "Enum":
		var l []string
		for _, e := range ts.Elements {
			l = append(l, e.Symbol)
		}
		sort.Strings(l)
		return "oneof(" + strings.Join(l, ",") + ")"
	case "Array":
		return fmt.Sprintf("array of %s %s..%s", s.item(ts.Items), minsize(ts.MinSize), size(ts.MaxSize))
	case "Map":
		return fmt.Sprintf("map to %s %s..%s", s.item(ts.Items), minsize(ts.MinSize), size(ts.MaxSize))
	case "Union":
		var l []string
		for _, v := range ts.Variants {
			l = append(l, s.shape(&v.TypeSpec))
		}
		sort.Strings(l)
		return "union(" + strings.Join(l, "|") + ")"
	case "String":
		if len(ts.Values) > 0 {
			l := append([]string(nil), ts.Values...)
			sort.Strings(l)
			return "oneof(" + strings.Join(l, ",") + ")"
		}
		return fmt.Sprintf("string %q %s..%s", ts.Pattern, minsize(ts.MinSize), size(ts.MaxSize))
	case "UUID", "UnitValue":
		return `string "" -..-`
	}
	b := s.base(ts.Type)
	if b == "int" || b == "long" || b == "number" {
		return fmt.Sprintf("%s %s..%s", b, dec(ts.Min), dec(ts.Max))
	}
	return b
}

func (s *shaper) action(base string, h *sadl.HttpDef) string {
	var l []string
	p := base + h.Path
	q := ""
	if i := strings.Index(p, "?"); i >= 0 {
		p, q = p[:i], p[i+1:]
	}
	l = append(l, "comment "+h.Comment, "resource "+h.Resource)
	var qs []string
	for _, in := range h.Inputs {
		t := s.shape(&in.TypeSpec)
		switch {
		case in.Path:
			l = append(l, fmt.Sprintf("in path %s: %s %q", in.Name, t, in.Comment))
		case in.Query != "":
			l = append(l, fmt.Sprintf("in query %s: %s required=%v %q", in.Query, t, in.Required, in.Comment))
			qs = append(qs, in.Query)
		case in.Header != "":
			l = append(l, fmt.Sprintf("in header %s: %s required=%v %q", in.Header, t, in.Required, in.Comment))
		default:
			l = append(l, fmt.Sprintf("in body: %s %q", t, in.Comment))
		}
	}
	for _, x := range strings.FieldsFunc(q, func(r rune) bool { return r == '&' }) {
		l = append(l, "template "+x[:strings.Index(x, "=")])
	}
	e := h.Expected
	l = append(l, fmt.Sprintf("expect %d", e.Status))
	if e.Comment != "" {
		l = append(l, "expect comment "+e.Comment)
	}
	for _, o := range e.Outputs {
		if o.Header != "" {
			l = append(l, fmt.Sprintf("out header %s: %s %q", o.Header, s.shape(&o.TypeSpec), o.Comment))
		} else {
			l = append(l, "out body: "+s.shape(&o.TypeSpec))
		}
	}
	for _, x := range h.Exceptions {
		t := ""
		if x.Type != "" {
			t = s.shape(&sadl.TypeSpec{Type: x.Type})
		}
		l = append(l, fmt.Sprintf("except %d %s", x.Status, t))
	}
	sort.Strings(l)
	return h.Method + " " + p + "\n  " + strings.Join(l, "\n  ")
}

func TestP22(t *testing.T) {
	pbt.Run(t, "there-and-back", pbt.Opt{Quick: 4000, Rule: "types and actions"}, func(c *pbt.C) {
		o := exportOptions()
		o.FieldAny = true
		sc, m := genSchema(c, o)
		for _, h := range sc.Http {
			var keep []*sadl.HttpExceptionSpec
			for _, e := range h.Exceptions {
				if e.Type != "String" {
					keep = append(keep, e) // exceptions of base types do not come back
				}
			}
			h.Exceptions = keep
		}
		c.CaseJSON(sc)
		c.NonTrivial(len(sc.Types) > 1 && len(sc.Http) > 0)
		doc, err := openapi.NewGenerator(m, sadl.NewData()).ExportToOAS3()
		c.Check(err == nil, "the export fails: %v", err)
		back, err := importFile(c, "x.json", sadl.Pretty(doc), openapi.Import)
		c.Check(err == nil, "the exported document cannot be imported: %v", err)
		c.Check(back.Name == sc.Name && back.Comment == sc.Comment, "name and comment are %q %q, want %q %q", back.Name, back.Comment, sc.Name, sc.Comment)
		c.Check(sc.Version == "" || back.Version == sc.Version, "version is %q, want %q", back.Version, sc.Version)
		a, b := newShaper(sc), newShaper(&back.Schema)
		c.Check(len(back.Types) == len(sc.Types), "%d types, want %d", len(back.Types), len(sc.Types))
		for _, td := range sc.Types {
			td2 := back.FindType(td.Name)
			c.Check(td2 != nil, "type %s is lost", td.Name)
			s1, s2 := a.shape(&td.TypeSpec), b.shape(&td2.TypeSpec)
			c.Check(s1 == s2, "type %s comes back as\n%s\nwant\n%s", td.Name, s2, s1)
			c.Check(td.Comment == "" || td.Comment == td2.Comment, "type %s: comment comes back as %q, want %q", td.Name, td2.Comment, td.Comment)
			for _, f := range td.Fields {
				for _, f2 := range td2.Fields {
					// next to a reference there is no place for a comment
					if f2.Name == f.Name && f.Comment != "" && a.types[f.Type] == nil {
						c.Check(f2.Comment == f.Comment, "field %s.%s: comment comes back as %q, want %q", td.Name, f.Name, f2.Comment, f.Comment)
					}
				}
			}
		}
		c.Check(len(back.Http) == len(sc.Http), "%d actions, want %d", len(back.Http), len(sc.Http))
		for _, h := range sc.Http {
			var h2 *sadl.HttpDef
			for _, x := range back.Http {
				if x.Name == h.Name {
					h2 = x
				}
			}
			c.Check(h2 != nil, "action %s is lost", h.Name)
			if h.Expected.Comment == "" {
				h2.Expected.Comment = ""
			}
			// tags: the first one is the resource
			tags := strings.FieldsFunc(h.Resource+","+h.Annotations["x_tags"], func(r rune) bool { return r == ',' })
			tags2 := strings.FieldsFunc(h2.Resource+","+h2.Annotations["x_tags"], func(r rune) bool { return r == ',' })
			c.Check(strings.Join(tags, ",") == strings.Join(tags2, ","), "%s: tags %q, want %q", h.Name, tags2, tags)
			x, y := *h, *h2
			x.Resource, y.Resource = "", ""
			s1, s2 := a.action(sc.Base, &x), b.action("", &y)
			c.Check(s1 == s2, "action %s comes back as\n%s\nwant\n%s", h.Name, s2, s1)
		}
	})
	pbt.Run(t, "stable", pbt.Opt{Quick: 1500, Rule: "types and actions"}, func(c *pbt.C) {
		// the first trip spells out simple item types and thereby loses their limits; what has been
		// through the format twice goes through it unchanged from then on
		g := &docGen{t: c.T, plain: true}
		d0 := g.document(5, 2)
		c.CaseJSON(d0)
		m1, err := importFile(c, "x.json", pbt.JSON(d0), openapi.Import)
		c.Check(err == nil, "import: %v", err)
		for _, td := range m1.Types {
			if sgen.Has([]string{"Bytes", "UnitValue", "Any"}, td.Type) {
				c.Skip() // the exporter has no form for definitions of these
			}
		}
		d1, err := export(c, m1)
		c.Check(err == nil, "export: %v", err)
		m2, err := importFile(c, "x.json", pbt.JSON(d1), openapi.Import)
		c.Check(err == nil, "second import: %v", err)
		d2, err := export(c, m2)
		c.Check(err == nil, "second export: %v", err)
		m3, err := importFile(c, "x.json", pbt.JSON(d2), openapi.Import)
		c.Check(err == nil, "third import: %v", err)
		d3, err := export(c, m3)
		c.Check(err == nil, "third export: %v", err)
		c.NonTrivial(len(m1.Types) > 1 && len(m1.Http) > 0)
		strip := func(d dict) dict {
			delete(d, "servers")
			dropDescriptions(d)
			return d
		}
		if s := diff("", strip(d2), strip(d3)); s != "" {
			c.Fatalf("another trip changes the document: %s", s)
		}
		names := map[string]bool{}
		for _, td := range m2.Types {
			names[td.Name] = true
		}
		c.Check(len(names) == len(m1.Types), "types are %v", names)
	})
}

func dropDescriptions(v interface{}) {
	switch x := v.(type) {
	case dict:
		if s, ok := x["description"].(string); ok && s != "" {
			delete(x, "description")
		}
		for _, e := range x {
			dropDescriptions(e)
		}
	case []interface{}:
		for _, e := range x {
			dropDescriptions(e)
		}
	}
}
