package lang

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/boynton/sadl"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
	"verif/harness/sval"
)

// names are the places in the schema where a type is named.
func names(sc *sadl.Schema) []*string {
	var l []*string
	ref := func(s *string) {
		if *s != "" {
			l = append(l, s)
		}
	}
	var spec func(ts *sadl.TypeSpec, name bool)
	spec = func(ts *sadl.TypeSpec, name bool) {
		if name && ts.Fields == nil && ts.Elements == nil && ts.Variants == nil && ts.Items == "" && ts.Value == "" {
			ref(&ts.Type)
		}
		ref(&ts.Items)
		ref(&ts.Keys)
		ref(&ts.Value)
		ref(&ts.Unit)
		ref(&ts.Reference)
		for _, f := range ts.Fields {
			spec(&f.TypeSpec, true)
		}
		for _, v := range ts.Variants {
			spec(&v.TypeSpec, true)
		}
	}
	for _, td := range sc.Types {
		spec(&td.TypeSpec, false)
	}
	for _, h := range sc.Http {
		for _, p := range h.Inputs {
			spec(&p.TypeSpec, true)
		}
		if h.Expected != nil {
			for _, p := range h.Expected.Outputs {
				spec(&p.TypeSpec, true)
			}
		}
		for _, e := range h.Exceptions {
			ref(&e.Type)
		}
	}
	for _, o := range sc.Operations {
		for _, p := range o.Inputs {
			spec(&p.TypeSpec, true)
		}
		for _, p := range o.Outputs {
			spec(&p.TypeSpec, true)
		}
		for i := range o.Exceptions {
			ref(&o.Exceptions[i])
		}
	}
	return l
}

type defect struct {
	name string
	f    func(c *pbt.C, sc *sadl.Schema) bool // false if the schema has no place for it
}

func n(c *pbt.C, k int) int { return rapid.IntRange(0, k-1).Draw(c.T, "which") }

func action(c *pbt.C, sc *sadl.Schema) *sadl.HttpDef {
	if len(sc.Http) == 0 {
		return nil
	}
	return sc.Http[n(c, len(sc.Http))]
}

var defects = []defect{
	{"undefined type", func(c *pbt.C, sc *sadl.Schema) bool {
		l := names(sc)
		if len(l) == 0 {
			return false
		}
		*l[n(c, len(l))] = "Nope"
		return true
	}},
	{"duplicate type", func(c *pbt.C, sc *sadl.Schema) bool {
		if len(sc.Types) == 0 {
			return false
		}
		x := *sc.Types[n(c, len(sc.Types))]
		if sgen.Bool(c.T, "base", 30) {
			x.Name = sgen.Pick(c.T, "base", sadl.BaseTypes)
		}
		sc.Types = append(sc.Types, &x)
		return true
	}},
	{"duplicate action", func(c *pbt.C, sc *sadl.Schema) bool {
		h := action(c, sc)
		if h == nil {
			return false
		}
		x := *h
		x.Path += "/more"
		sc.Http = append(sc.Http, &x)
		n1, r1 := derived(h)
		n2, r2 := derived(&x)
		return n1 == h.Name && r1 == h.Resource == (n2 == x.Name && r2 == x.Resource) || true
	}},
	{"duplicate operation", func(c *pbt.C, sc *sadl.Schema) bool {
		if len(sc.Operations) == 0 {
			return false
		}
		sc.Operations = append(sc.Operations, sc.Operations[n(c, len(sc.Operations))])
		return true
	}},
	{"duplicate exception", func(c *pbt.C, sc *sadl.Schema) bool {
		h := action(c, sc)
		if h == nil || len(h.Exceptions) == 0 {
			return false
		}
		h.Exceptions = append(h.Exceptions, &sadl.HttpExceptionSpec{Type: h.Exceptions[n(c, len(h.Exceptions))].Type, Status: 418})
		return true
	}},
	{"duplicate member", func(c *pbt.C, sc *sadl.Schema) bool {
		var l []*sadl.TypeSpec
		for _, ts := range structs(sc) {
			if len(ts.Fields)+len(ts.Variants)+len(ts.Elements) > 0 {
				l = append(l, ts)
			}
		}
		if len(l) == 0 {
			return false
		}
		ts := l[n(c, len(l))]
		if ts.Fields != nil {
			f := *ts.Fields[n(c, len(ts.Fields))]
			ts.Fields = append(ts.Fields, &f)
		}
		if ts.Variants != nil {
			f := *ts.Variants[n(c, len(ts.Variants))]
			ts.Variants = append(ts.Variants, &f)
		}
		if ts.Elements != nil {
			f := *ts.Elements[n(c, len(ts.Elements))]
			ts.Elements = append(ts.Elements, &f)
		}
		return true
	}},
	{"duplicate parameter", func(c *pbt.C, sc *sadl.Schema) bool {
		h := action(c, sc)
		if h == nil || len(h.Inputs) == 0 {
			return false
		}
		x := *h.Inputs[n(c, len(h.Inputs))]
		h.Inputs = append(h.Inputs, &x)
		return true
	}},
	{"pattern and values", func(c *pbt.C, sc *sadl.Schema) bool {
		for _, ts := range structs(sc) {
			if ts.Type == "String" && (ts.Values != nil || ts.Pattern != "") {
				ts.Values = []string{"a"}
				ts.Pattern = "a"
				return true
			}
		}
		return false
	}},
	{"required with default", func(c *pbt.C, sc *sadl.Schema) bool {
		var l []*sadl.StructFieldDef
		for _, ts := range structs(sc) {
			for _, f := range ts.Fields {
				if f.Default != nil {
					l = append(l, f)
				}
			}
		}
		if len(l) == 0 {
			return false
		}
		l[n(c, len(l))].Required = true
		return true
	}},
	{"invalid default", func(c *pbt.C, sc *sadl.Schema) bool {
		var l []*sadl.StructFieldDef
		for _, ts := range structs(sc) {
			for _, f := range ts.Fields {
				if !f.Required {
					l = append(l, f)
				}
			}
		}
		for _, h := range sc.Http {
			for _, p := range h.Inputs {
				l = append(l, &p.StructFieldDef)
			}
		}
		for _, o := range sc.Operations {
			for _, p := range o.Inputs {
				if !p.Required {
					l = append(l, &p.StructFieldDef)
				}
			}
		}
		if len(l) == 0 {
			return false
		}
		f := l[n(c, len(l))]
		v := wrong(c, sc, &f.TypeSpec)
		if v == nil {
			return false
		}
		f.Default = v
		return true
	}},
	{"invalid example", func(c *pbt.C, sc *sadl.Schema) bool {
		if len(sc.Types) == 0 {
			return false
		}
		td := sc.Types[n(c, len(sc.Types))]
		v := wrong(c, sc, &td.TypeSpec)
		if v == nil {
			return false
		}
		sc.Examples = append(sc.Examples, &sadl.ExampleDef{Target: td.Name, Name: "wrong", Example: v})
		return true
	}},
	{"invalid request or response", func(c *pbt.C, sc *sadl.Schema) bool {
		h := action(c, sc)
		if h == nil {
			return false
		}
		l, suffix := h.Inputs, "Request"
		if sgen.Bool(c.T, "response", 50) {
			suffix = "Response"
			l = nil
			if h.Expected != nil {
				l = h.Expected.Outputs
			}
		}
		g := &gen{c: c, sc: sc, g: sval.NewG(c.T, sc)}
		m := obj{}
		for _, p := range l {
			if v := g.value(&p.TypeSpec); v != nil {
				m[p.Name] = v
			}
		}
		bad := false
		switch rapid.IntRange(0, 2).Draw(c.T, "how") {
		case 0:
			for _, p := range l {
				if p.Required {
					delete(m, p.Name)
					bad = true
				}
			}
		case 1:
			for _, p := range l {
				if v := wrong(c, sc, &p.TypeSpec); v != nil {
					m[p.Name] = v
					bad = true
				}
			}
		case 2:
			sc.Examples = append(sc.Examples, &sadl.ExampleDef{Target: sadl.Capitalize(h.Name) + suffix, Name: "wrong", Example: []interface{}{}})
			return true
		}
		if !bad {
			return false
		}
		sc.Examples = append(sc.Examples, &sadl.ExampleDef{Target: sadl.Capitalize(h.Name) + suffix, Name: "wrong", Example: m})
		return true
	}},
	{"example of nothing", func(c *pbt.C, sc *sadl.Schema) bool {
		t := sgen.Pick(c.T, "target", []string{"Nope", "NopeRequest", "NopeResponse", "Nope.x"})
		for _, td := range sc.Types {
			if td.Type == "Struct" && sgen.Bool(c.T, "field", 50) {
				t = td.Name + ".nope"
			}
		}
		sc.Examples = append(sc.Examples, &sadl.ExampleDef{Target: t, Name: "wrong", Example: true})
		return true
	}},
	{"two bodies", func(c *pbt.C, sc *sadl.Schema) bool {
		h := action(c, sc)
		if h == nil {
			return false
		}
		x := &sadl.HttpParamSpec{}
		x.Name, x.Type = "another", "String"
		if sgen.Bool(c.T, "out", 50) {
			if h.Expected == nil {
				return false
			}
			body := h.Expected.Status == 204 || h.Expected.Status == 304
			for _, p := range h.Expected.Outputs {
				body = body || p.Header == ""
			}
			h.Expected.Outputs = append(h.Expected.Outputs, x)
			return body
		}
		body := h.Method == "GET" || h.Method == "DELETE" || h.Method == "HEAD" || h.Method == "OPTIONS"
		for _, p := range h.Inputs {
			body = body || !p.Path && p.Header == "" && p.Query == ""
		}
		h.Inputs = append(h.Inputs, x)
		return body
	}},
	{"path template", func(c *pbt.C, sc *sadl.Schema) bool {
		h := action(c, sc)
		if h == nil {
			return false
		}
		p := strings.SplitN(h.Path, "?", 2)
		p[0] += sgen.Pick(c.T, "bad", []string{"/{a", "/a}", "/{{a}", "/{a}}", "/{a/b}", "/}a{"})
		h.Path = strings.Join(p, "?")
		if h.Resource != "" {
			h.Name, h.Resource = "some_name", ""
		}
		return true
	}},
	{"base", func(c *pbt.C, sc *sadl.Schema) bool {
		sc.Base = sgen.Pick(c.T, "bad", []string{"v1", "http://x/v1", " /v1"})
		return true
	}},
	{"unit value", func(c *pbt.C, sc *sadl.Schema) bool {
		for _, ts := range structs(sc) {
			if ts.Type == "UnitValue" {
				if sgen.Bool(c.T, "unit", 50) {
					ts.Unit = sgen.Pick(c.T, "bad", []string{"Int32", "Bool", "Array", "Timestamp"})
				} else {
					ts.Value = sgen.Pick(c.T, "bad", []string{"String", "Bool", "Array", "Any", "UUID"})
				}
				return true
			}
		}
		return false
	}},
}

// wrong is a value that is not of the type, or nil.
func wrong(c *pbt.C, sc *sadl.Schema, ts *sadl.TypeSpec) interface{} {
	g := sval.NewG(c.T, sc)
	for i := 0; i < 3; i++ {
		v := g.Value(ts, 0)
		if i < 2 {
			v = g.Corrupt(ts, v)
		} else {
			v = g.Junk()
		}
		if v != nil && g.Valid(ts, v) != "" {
			return v
		}
	}
	return nil
}

// depths is the number of open brackets after each token; whole says if the source can end there.
func open(l []tok) int {
	d := 0
	for _, t := range l {
		switch t.text {
		case "{", "(", "[", "<":
			d++
		case "}", ")", "]", ">":
			d--
		}
	}
	return d
}

var badDirectives = []string{
	"typ Foo String\n", "types Foo Struct {\n}\n", "Foo\n", "http FETCH \"/x\" {\n}\n", "http GET /x {\n}\n", "http GET \"/x\" (wat=1) {\n}\n", "http GET \"/x\"\n",
	"http GET \"/x\" {\n expect\n}\n", "http GET \"/x\" {\n expect ok\n}\n", "http GET \"/x\" {\n expect 200\n expect 201\n}\n", "http GET \"/x\" {\n expect 99999999999\n}\n",
	"http GET \"/x\" {\n except\n}\n", "http GET \"/x\" {\n except 404\n}\n", "http GET \"/x\" {\n expect 200 {\n expect 200\n}\n}\n", "http GET \"/x\" {\n a\n}\n",
	"http GET \"/x?a={a}\" {\n a String String\n}\n", "http GET \"/x?a={a}\" {\n a String (header=1)\n}\n", "http GET \"/x\" {\n} http\n",
	"operation {\n}\n", "operation foo\n", "operation foo {\n nope {\n}\n}\n", "operation foo {\n inputs\n}\n", "operation foo {\n inputs {\n a\n}\n}\n", "operation foo (wat) {\n}\n", "operation foo {\n inputs {\n a String (wat)\n}\n}\n",
	"operation foo {\n outputs {\n a String String\n}\n}\n", "operation foo {\n exceptions {\n 12\n}\n}\n", "operation foo {\n 12\n}\n",
	"type\n", "type Zed\n", "type Zed 12\n", "type Zed Foo2\n", "type Zed String (wat)\n", "type Zed String (pattern=12)\n", "type Zed String (minsize=\"x\")\n", "type Zed String (minsize=1.5)\n", "type Zed Int32 (pattern=\"x\")\n", "type Zed Int32 (min=\"1\")\n",
	"type Zed String String\n", "type Zed Struct {\n x\n}\n", "type Zed Struct {\n x String String\n}\n", "type Zed Struct {\n x String y String\n}\n", "type Zed Struct {\n x String (wat)\n}\n", "type Zed Struct {\n x String (required=1)\n}\n", "type Zed Struct {\n x Int32 (pattern=\"x\")\n}\n",
	"type Zed Struct {\n 12 String\n}\n", "type Zed Struct (wat) {\n}\n", "type Zed Struct {\n} Struct\n", "type Zed Enum {\n 1\n}\n", "type Zed Enum {\n A (wat)\n}\n", "type Zed Enum\n", "type Zed Union\n", "type Zed Union {\n}\n", "type Zed Union<>\n",
	"type Zed Array<String,String>\n", "type Zed Array<>\n", "type Zed Map<String>\n", "type Zed Map<String,String,String>\n", "type Zed UnitValue<Decimal>\n", "type Zed String<String>\n", "type Zed Struct {\n x Array<>\n}\n", "type Zed Array<12>\n", "type Zed String (values=[1])\n", "type Zed String (values=\"a\")\n",
	"example\n", "example String\n", "example String foo\n", "example String \"a\" \"b\"\n", "example Any { a: 1 }\n", "example Any { \"a\" 1 }\n", "example Any { \"a\": }\n", "example Any { 12 }\n", "example Any [ : ]\n", "example Any { \"a\": 1, : }\n", "example String \"\\q\"\n",
	"base\n", "base foo\n", "name\n", "name 12\n", "namespace\n", "namespace a.\n", "namespace 12\n", "version {\n", "version\n", "x_foo 12\n", "x_foo \"a\" \"b\"\n", "include\n", "include foo\n", "include \"/nonexistent/file.sadl\"\n",
	"{\n", "}\n", "\"text\"\n", "12\n", "()\n", "name foo bar\n", "namespace a.b c\n",
}

func TestP14(t *testing.T) {
	refused := func(c *pbt.C, what, src string) {
		_, err := parse(c, src)
		c.Check(err != nil, "accepted, with %s:\n%s", what, src)
	}
	pbt.Run(t, "defects", pbt.Opt{Quick: 6000, Rule: "there is a place for the defect"}, func(c *pbt.C) {
		sc := schema(c)
		d := defects[n(c, len(defects))]
		if !d.f(c, sc) {
			return
		}
		src := render(c.T, sc, sgen0(c))
		c.Case("%s in:\n%s", d.name, src)
		c.Class("%s", d.name)
		c.NonTrivial(true)
		refused(c, "a defect ("+d.name+")", src)
	})
	pbt.Run(t, "syntax", pbt.Opt{Quick: 4000, Rule: "the source has two or more elements"}, func(c *pbt.C) {
		sc := schema(c)
		src := render(c.T, sc, sgen0(c))
		what := ""
		switch rapid.IntRange(0, 2).Draw(c.T, "how") {
		case 0: // something that is in no statement
			l := tokens(src)
			i := rapid.IntRange(0, len(l)).Draw(c.T, "at")
			for i > 0 && strings.HasPrefix(l[i-1].text, "//") {
				i--
			}
			bad := sgen.Pick(c.T, "bad", []string{"!", "@", "%", "^", "&", "|", "~", "`", "'"})
			src = text(l[:i]) + " " + bad + " " + text(l[i:])
			what = "a stray " + bad
		case 1: // cut short
			l := tokens(src)
			var at []int
			for i := range l {
				if open(l[:i]) > 0 {
					at = append(at, i)
				}
			}
			if len(at) == 0 {
				return
			}
			src = text(l[:at[n(c, len(at))]])
			what = "a missing end"
		case 2:
			bad := sgen.Pick(c.T, "bad", badDirectives)
			what = fmt.Sprintf("%q", bad)
			switch n(c, 3) {
			case 0:
				src = bad + src
			case 1:
				src = src + "\n" + bad
			case 2:
				src = src + "\n" + strings.TrimSpace(bad)
			}
		}
		c.Case("%s in:\n%s", what, src)
		c.NonTrivial(elements(sc) >= 2)
		refused(c, what, src)
	})
	pbt.Run(t, "includes", pbt.Opt{Quick: 200, Rule: "every case"}, func(c *pbt.C) {
		dir, clean := pbt.Scratch()
		defer clean()
		k := rapid.IntRange(1, 4).Draw(c.T, "nfiles")
		how := sgen.Pick(c.T, "how", []string{"cycle", "missing", "bad", "duplicate"})
		path := func(i int) string { return filepath.Join(dir, fmt.Sprintf("f%d.sadl", i)) }
		for i := 0; i < k; i++ {
			s := ""
			if i+1 < k {
				s = fmt.Sprintf("include %q\n", path(i+1))
			} else {
				switch how {
				case "cycle":
					s = fmt.Sprintf("include %q\n", path(n(c, k)))
				case "missing":
					s = fmt.Sprintf("include %q\n", path(99))
				case "bad":
					s = sgen.Pick(c.T, "bad", []string{"type Foo Nope\n", "type Foo Struct {\n", "wat\n", "type Foo Array<Nope>\n"})
				case "duplicate":
					s = "type T0 Int32\n"
					if k == 1 {
						s += s
					}
				}
			}
			s += fmt.Sprintf("type T%d String\n", i)
			c.Check(os.WriteFile(path(i), []byte(s), 0644) == nil, "cannot write")
		}
		c.Case("%s in a chain of %d files", how, k)
		c.NonTrivial(true)
		var m *sadl.Model
		var err error
		pbt.NoPanic(c, "parsing", func() { pbt.Capture(func() { m, err = sadl.ParseSadlFile(path(0), sadl.NewData()) }) })
		c.Check(err != nil && m == nil, "accepted: %s in a chain of %d files", how, k)
	})
}

func TestP15(t *testing.T) {
	total := func(c *pbt.C, src string) {
		c.Case("%s", src)
		m, err := parse(c, src)
		m2, err2 := parse(c, src)
		c.Check((err == nil) == (err2 == nil), "refused once, accepted once: %v, %v", err, err2)
		if err == nil {
			c.Class("accepted")
			c.Check(pbt.JSON(m) == pbt.JSON(m2), "the model differs from run to run")
			pbt.NoPanic(c, "writing", func() { pbt.Capture(func() { sadl.DecompileSadl(m) }) })
		} else {
			c.Class("refused")
			c.Check(strings.TrimSpace(err.Error()) != "", "an error without a message")
		}
	}
	pbt.Run(t, "changed", pbt.Opt{Quick: 5000, Rule: "every case"}, func(c *pbt.C) {
		sc := schema(c)
		src := render(c.T, sc, sgen0(c))
		for k := rapid.IntRange(1, 4).Draw(c.T, "rounds"); k > 0; k-- {
			src = mutate(c, src)
		}
		if sgen.Bool(c.T, "cut", 30) && len(src) > 0 {
			src = src[:rapid.IntRange(0, len(src)-1).Draw(c.T, "cut")]
		}
		c.NonTrivial(true)
		total(c, src)
	})
	pbt.Run(t, "prefixes", pbt.Opt{Quick: 250, Rule: "every case"}, func(c *pbt.C) {
		// a text that ends after each of its tokens in turn
		src := render(c.T, schema(c), sgen0(c))
		end := 0
		var ends []int
		for _, t := range tokens(src) {
			end += len(t.text)
			if !t.space {
				ends = append(ends, end)
			}
		}
		from := 0
		if len(ends) > 120 {
			from = rapid.IntRange(0, len(ends)-120).Draw(c.T, "from")
			ends = ends[from : from+120]
		}
		c.NonTrivial(true)
		tail := sgen.Pick(c.T, "tail", []string{"", "", " ", "\n", " //c"})
		for _, end := range ends {
			total(c, src[:end]+tail)
		}
	})
	pbt.Run(t, "soup", pbt.Opt{Quick: 20000, Rule: "ten or more tokens"}, func(c *pbt.C) {
		k := rapid.IntRange(0, 40).Draw(c.T, "ntokens")
		var l []string
		for i := 0; i < k; i++ {
			l = append(l, sgen.Pick(c.T, "soup", soup))
		}
		c.NonTrivial(k >= 10)
		total(c, strings.Join(l, sgen.Pick(c.T, "sep", []string{" ", " ", ""})))
	})
	pbt.Run(t, "text", pbt.Opt{Quick: 3000, Rule: "every case"}, func(c *pbt.C) {
		c.NonTrivial(true)
		total(c, string(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(c.T, "bytes")))
	})
}
