package gql

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"testing"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/graphql"
	"github.com/graphql-go/graphql/language/ast"
	"github.com/graphql-go/graphql/language/lexer"
	"github.com/graphql-go/graphql/language/parser"
	"github.com/graphql-go/graphql/language/source"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
)

func TestMain(m *testing.M) {
	if p := os.Getenv("VERIF_OVERFLOW_PROBE"); p != "" {
		debug.SetMaxStack(32 << 20)
		_, err := graphql.Import([]string{p}, sadl.NewData())
		fmt.Println(err)
		os.Exit(0)
	}
	pbt.Main(m)
}

// probeOverflow imports, in a process of its own, a document that graphql-go recurses for ever on.
func probeOverflow() (bool, string) {
	dir, clean := pbt.Scratch()
	defer clean()
	p := filepath.Join(dir, "a.graphql")
	if err := os.WriteFile(p, []byte("type A { x: Int }\nString\n"), 0644); err != nil {
		panic(err)
	}
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_OVERFLOW_PROBE="+p)
	out, err := cmd.CombinedOutput()
	return err != nil && strings.Contains(string(out), "stack overflow"), "stack overflow"
}

func options() sgen.Options {
	return sgen.Options{
		Kinds: []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "String", "Timestamp", "UUID",
			"Array", "Array", "Struct", "Struct", "Struct", "Struct", "Enum", "Union"},
		FieldScalars: []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "Timestamp", "UUID"},
		InlineKinds:  []string{"Array"}, FieldOpts: true, Constraints: true, Comments: true, LongComments: true, MinTypes: 1, MaxTypes: 8, MinFields: 1, NoReserved: true, Http: 2,
	}
}

// expressible draws a model that GraphQL has room for.
func expressible(c *pbt.C) *sadl.Schema {
	sc := sgen.New(c.T, options())
	var structs []string
	arrays := map[string]*sadl.TypeDef{}
	for _, td := range sc.Types {
		if td.Type == "Struct" {
			structs = append(structs, td.Name)
		}
		if td.Type == "Array" {
			arrays[td.Name] = td
		}
	}
	for _, td := range sc.Types {
		switch td.Type {
		case "Union":
			if len(structs) == 0 {
				td.TypeSpec = sadl.TypeSpec{Type: "Bool"}
				continue
			}
			td.Variants = nil
			for _, s := range structs {
				if len(td.Variants) == 0 || rapid.Bool().Draw(c.T, "variant") {
					v := &sadl.UnionVariantDef{Name: s}
					v.Type = s
					td.Variants = append(td.Variants, v)
				}
			}
		case "Array":
			// no array that contains itself
			seen := map[string]bool{td.Name: true}
			for a := arrays[td.Items]; a != nil; a = arrays[a.Items] {
				if seen[a.Name] {
					td.Items = "String"
					break
				}
				seen[a.Name] = true
			}
		}
		for _, f := range td.Fields {
			f.Comment = ascii(f.Comment)
			if f.Comment != "" && sgen.Bool(c.T, "multiline", 15) {
				f.Comment = strings.Replace(f.Comment, " ", "\n", 1)
			}
		}
	}
	return sc
}

var customNames = map[string][]string{"UUID": {"UUID", "Guid"}, "Timestamp": {"Timestamp", "DateTime"}, "Int64": {"Long", "Int64"}, "Decimal": {"BigDecimal", "Decimal"}}

func drawCustom(c *pbt.C) (*sadl.Data, map[string]string) {
	conf := sadl.NewData()
	custom := map[string]string{}
	if rapid.Bool().Draw(c.T, "custom?") {
		m := map[string]interface{}{}
		for _, k := range []string{"UUID", "Timestamp", "Int64", "Decimal"} {
			if rapid.Bool().Draw(c.T, "custom "+k) {
				custom[k] = sgen.Pick(c.T, "customName", customNames[k])
				m[k] = custom[k]
			}
		}
		conf.Put("custom-scalars", m)
	}
	return conf, custom
}

type mapper struct {
	types  map[string]*sadl.TypeDef
	custom map[string]string
	used   map[string]bool
}

func (m *mapper) scalar(base string) string {
	if n := m.custom[base]; n != "" {
		m.used[n] = true
		return n
	}
	switch base {
	case "Bool":
		return "Boolean"
	case "String", "UUID", "Timestamp":
		return "String"
	case "Int8", "Int16", "Int32":
		return "Int"
	case "Int64", "Float32", "Float64", "Decimal":
		return "Float"
	}
	return ""
}

// ref is the GraphQL type expected for a SADL one.
func (m *mapper) ref(ts *sadl.TypeSpec) string {
	if td := m.types[ts.Type]; td != nil {
		switch td.Type {
		case "Struct", "Enum", "Union":
			return td.Name
		}
		ts = &td.TypeSpec
	}
	if ts.Type == "Array" {
		return "[" + m.ref(&sadl.TypeSpec{Type: ts.Items}) + "!]"
	}
	return m.scalar(ts.Type)
}

func typeText(t ast.Type) string {
	switch x := t.(type) {
	case *ast.Named:
		return x.Name.Value
	case *ast.List:
		return "[" + typeText(x.Type) + "]"
	case *ast.NonNull:
		return typeText(x.Type) + "!"
	}
	return fmt.Sprintf("?%T", t)
}

func parse(src string) (*ast.Document, error) {
	return parser.Parse(parser.ParseParams{Source: &source.Source{Body: []byte(src)}, Options: parser.ParseOptions{NoLocation: true}})
}

func export(c *pbt.C, sc *sadl.Schema, conf *sadl.Data) (string, error) {
	m, err := sadl.NewModel(sgen.Clone(sc))
	c.Check(err == nil, "the model is refused: %v", err)
	var s string
	pbt.NoPanic(c, "the GraphQL exporter", func() { s, err = graphql.FromSadl(m, conf) })
	return s, err
}

func TestP23(t *testing.T) {
	pbt.Run(t, "schema", pbt.Opt{Quick: 6000, Rule: "a struct with two or more fields, and a list or a custom scalar"}, func(c *pbt.C) {
		sc := expressible(c)
		conf, custom := drawCustom(c)
		c.Case("custom scalars %v\n%s", custom, pbt.JSON(sc))
		out, err := export(c, sc, conf)
		c.Check(err == nil, "the exporter fails: %v", err)
		doc, err := parse(out)
		c.Check(err == nil, "the exported schema cannot be parsed: %v\n%s", err, out)
		m := &mapper{types: map[string]*sadl.TypeDef{}, custom: custom, used: map[string]bool{}}
		for _, td := range sc.Types {
			m.types[td.Name] = td
		}
		defs := map[string]ast.Node{}
		for _, d := range doc.Definitions {
			name := ""
			switch x := d.(type) {
			case *ast.ObjectDefinition:
				name = x.Name.Value
			case *ast.EnumDefinition:
				name = x.Name.Value
			case *ast.UnionDefinition:
				name = x.Name.Value
			case *ast.ScalarDefinition:
				name = x.Name.Value
			default:
				c.Fatalf("unexpected definition %s\n%s", d.GetKind(), out)
			}
			c.Check(defs[name] == nil, "%s is defined twice\n%s", name, out)
			defs[name] = d
		}
		lists, wide := false, false
		n := 0
		for _, td := range sc.Types {
			switch td.Type {
			case "Enum":
				n++
				d, ok := defs[td.Name].(*ast.EnumDefinition)
				c.Check(ok, "no enum %s\n%s", td.Name, out)
				var got, want []string
				for _, v := range d.Values {
					got = append(got, v.Name.Value)
				}
				for _, e := range td.Elements {
					want = append(want, e.Symbol)
				}
				c.Check(fmt.Sprint(got) == fmt.Sprint(want), "enum %s has %v, want %v", td.Name, got, want)
			case "Union":
				n++
				d, ok := defs[td.Name].(*ast.UnionDefinition)
				c.Check(ok, "no union %s\n%s", td.Name, out)
				var got, want []string
				for _, v := range d.Types {
					got = append(got, v.Name.Value)
				}
				for _, e := range td.Variants {
					want = append(want, e.Type)
				}
				c.Check(fmt.Sprint(got) == fmt.Sprint(want), "union %s is of %v, want %v", td.Name, got, want)
			case "Struct":
				n++
				wide = wide || len(td.Fields) > 1
				d, ok := defs[td.Name].(*ast.ObjectDefinition)
				c.Check(ok, "no type %s\n%s", td.Name, out)
				c.Check(len(d.Fields) == len(td.Fields), "type %s has %d fields, want %d\n%s", td.Name, len(d.Fields), len(td.Fields), out)
				for i, f := range td.Fields {
					want := m.ref(&f.TypeSpec)
					lists = lists || strings.HasPrefix(want, "[")
					if f.Required {
						want += "!"
					}
					got := typeText(d.Fields[i].Type)
					c.Check(d.Fields[i].Name.Value == f.Name && got == want, "field %d of %s is %s: %s, want %s: %s\n%s", i, td.Name, d.Fields[i].Name.Value, got, f.Name, want, out)
					c.Check(len(d.Fields[i].Arguments) == 0, "field %s.%s has arguments", td.Name, f.Name)
					for _, w := range strings.Fields(f.Comment) {
						c.Check(strings.Contains(out, w), "the word %s of the comment of %s.%s is lost\n%s", w, td.Name, f.Name, out)
					}
				}
			}
		}
		for name := range m.used {
			n++
			_, ok := defs[name].(*ast.ScalarDefinition)
			c.Check(ok, "custom scalar %s is not declared\n%s", name, out)
		}
		c.Check(n == len(defs), "%d definitions, want %d\n%s", len(defs), n, out)
		c.NonTrivial(wide && (lists || len(m.used) > 0))
		again, err := export(c, sc, conf)
		c.Check(err == nil && again == out, "exporting twice gives different schemas")
	})
	pbt.Run(t, "printed", pbt.Opt{Quick: 300, Rule: "two or more types"}, func(c *pbt.C) {
		sc := expressible(c)
		c.CaseJSON(sc)
		c.NonTrivial(len(sc.Types) > 1)
		conf, _ := drawCustom(c)
		want, err := export(c, sc, conf)
		c.Check(err == nil, "the exporter fails: %v", err)
		m, _ := sadl.NewModel(sgen.Clone(sc))
		out := ""
		pbt.NoPanic(c, "Export", func() { out = pbt.Capture(func() { err = graphql.Export(m, conf) }) })
		c.Check(err == nil && strings.TrimSpace(out) == strings.TrimSpace(want), "what is printed differs from the schema: %v\n%s", err, out)
	})
	pbt.Run(t, "exported together", pbt.Opt{Quick: 60, Rule: "every case"}, func(c *pbt.C) {
		c.NonTrivial(true)
		var ops []func() string
		var all []string
		for i := 0; i < 6; i++ {
			sc := expressible(c)
			conf, _ := drawCustom(c)
			m, err := sadl.NewModel(sc)
			c.Check(err == nil, "%v", err)
			all = append(all, pbt.JSON(sc))
			ops = append(ops, func() string {
				s, err := graphql.FromSadl(m, conf)
				return fmt.Sprintln(s, err)
			})
		}
		c.Case("%s", strings.Join(all, "\n----\n"))
		pbt.Capture(func() { pbt.Together(c, "the export", ops) })
	})
	pbt.Run(t, "unsupported", pbt.Opt{Quick: 1500, Rule: "every case"}, func(c *pbt.C) {
		sc := expressible(c)
		td := &sadl.TypeDef{Name: "Unsupported"}
		field := func(ts sadl.TypeSpec) {
			td.Type = "Struct"
			f := &sadl.StructFieldDef{Name: "bad"}
			f.TypeSpec = ts
			td.Fields = append(td.Fields, f)
		}
		k := rapid.IntRange(0, 13).Draw(c.T, "kind")
		switch k {
		case 0:
			td.Type, td.Keys, td.Items = "Map", "String", "String"
		case 1:
			td.Type = "Bytes"
		case 2:
			td.Type = "Any"
		case 3:
			td.Type, td.Value, td.Unit = "UnitValue", "Decimal", "String"
		case 4:
			field(sadl.TypeSpec{Type: "Map", Keys: "String", Items: "String"})
		case 5:
			field(sadl.TypeSpec{Type: "Bytes"})
		case 6:
			field(sadl.TypeSpec{Type: "Any"})
		case 7:
			field(sadl.TypeSpec{Type: "UnitValue", Value: "Decimal", Unit: "String"})
		case 8:
			field(sadl.TypeSpec{Type: "Enum", Elements: []*sadl.EnumElementDef{{Symbol: "a"}}})
		case 9:
			f := &sadl.StructFieldDef{Name: "x"}
			f.Type = "String"
			field(sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{f}})
		case 10:
			field(sadl.TypeSpec{Type: "Array", Items: sgen.Pick(c.T, "items", []string{"Bytes", "Any", "UnitValue", "Struct", "Map"})})
		case 11:
			td.Type = "Union"
			for _, n := range []string{"String", "Int32"} {
				v := &sadl.UnionVariantDef{Name: n}
				v.Type = n
				td.Variants = append(td.Variants, v)
			}
		case 12:
			td.Type, td.Items = "Array", "Unsupported"
			u := &sadl.TypeDef{Name: "Holder"}
			u.Type = "Struct"
			f := &sadl.StructFieldDef{Name: "bad"}
			f.Type = "Unsupported"
			u.Fields = append(u.Fields, f)
			sc.Types = append(sc.Types, u)
		case 13:
			a := &sadl.TypeDef{Name: "BytesList"}
			a.Type, a.Items = "Array", "Bytes"
			sc.Types = append(sc.Types, a)
			field(sadl.TypeSpec{Type: "BytesList"})
		}
		sc.Types = append(sc.Types, td)
		c.CaseJSON(sc)
		c.NonTrivial(true)
		c.Class("%d", k)
		out, err := export(c, sc, sadl.NewData())
		c.Check(err != nil, "accepted:\n%s", out)
	})
	pbt.Run(t, "roundtrip", pbt.Opt{Quick: 2000, Rule: "two or more types that GraphQL names"}, func(c *pbt.C) {
		sc := expressible(c)
		conf := sadl.NewData()
		conf.Put("custom-scalars", map[string]interface{}{"UUID": "UUID", "Timestamp": "Timestamp"})
		c.CaseJSON(sc)
		out, err := export(c, sc, conf)
		c.Check(err == nil, "the exporter fails: %v", err)
		if strings.Contains(out, "[[") {
			return // lists of lists are not imported
		}
		dir, clean := pbt.Scratch()
		defer clean()
		path := filepath.Join(dir, "x.graphql")
		if err := os.WriteFile(path, []byte(out), 0644); err != nil {
			panic(err)
		}
		var m *sadl.Model
		pbt.NoPanic(c, "the GraphQL importer", func() { m, err = graphql.Import([]string{path}, sadl.NewData()) })
		c.Check(err == nil, "the importer refuses the exported schema: %v\n%s", err, out)
		mp := &mapper{types: map[string]*sadl.TypeDef{}, custom: map[string]string{"UUID": "UUID", "Timestamp": "Timestamp"}, used: map[string]bool{}}
		for _, td := range sc.Types {
			mp.types[td.Name] = td
		}
		back := map[string]string{"Boolean": "Bool", "Int": "Int32", "Float": "Float64"}
		n := 1
		for _, td := range sc.Types {
			if td.Type != "Struct" && td.Type != "Enum" && td.Type != "Union" {
				continue
			}
			n++
			g := m.FindType(td.Name)
			c.Check(g != nil && g.Type == td.Type, "type %s comes back as %s", td.Name, pbt.JSON(g))
			c.Check(len(g.Fields) == len(td.Fields) && len(g.Elements) == len(td.Elements) && len(g.Variants) == len(td.Variants), "type %s comes back as %s", td.Name, pbt.JSON(g))
			for i, f := range td.Fields {
				w := mp.ref(&f.TypeSpec)
				want := &sadl.StructFieldDef{Name: f.Name, Required: f.Required}
				if strings.HasPrefix(w, "[") {
					want.Type = "Array"
					want.Items = strings.Trim(w, "[]!")
					if b := back[want.Items]; b != "" {
						want.Items = b
					}
				} else {
					want.Type = w
					if b := back[w]; b != "" {
						want.Type = b
					}
				}
				c.Check(pbt.JSON(g.Fields[i]) == pbt.JSON(want), "field %s.%s comes back as %s, want %s", td.Name, f.Name, pbt.JSON(g.Fields[i]), pbt.JSON(want))
			}
			for i, e := range td.Elements {
				c.Check(g.Elements[i].Symbol == e.Symbol, "symbol %s of %s comes back as %s", e.Symbol, td.Name, g.Elements[i].Symbol)
			}
			for i, v := range td.Variants {
				c.Check(g.Variants[i].Type == v.Type, "variant %s of %s comes back as %s", v.Type, td.Name, g.Variants[i].Type)
			}
		}
		c.Check(len(m.Types) == n, "%d types come back, want %d", len(m.Types), n)
		c.NonTrivial(n > 2)
	})
}

// ---- import

type docGen struct {
	c    *pbt.C
	defs []string // in order
	want []*sadl.TypeDef
}

// ascii leaves out what graphql-go's lexer does not read in comments: it takes byte for character positions there.
func ascii(s string) string { return strings.Replace(s, "é", "e", -1) }

// block makes the text fit for a block string, where quotes may not come three in a row or last.
func block(s string) string {
	s = strings.Replace(s, `"""`, "quotes", -1)
	if strings.HasSuffix(s, `"`) {
		s += " end"
	}
	if strings.HasPrefix(s, `"`) {
		s = "start " + s
	}
	return s
}

// overflows tells whether graphql-go's parser recurses for ever: it takes the names String and BlockString, where a
// definition should start, for descriptions (listed finding P24-string-definition).
func overflows(src string) bool {
	defer func() { recover() }()
	depth := 0
	next := lexer.Lex(source.NewSource(&source.Source{Body: []byte(src)}))
	for pos := 0; ; {
		t, err := next(pos)
		if err != nil || t.Kind == lexer.EOF {
			return false
		}
		switch t.Kind {
		case lexer.BRACE_L:
			depth++
		case lexer.BRACE_R:
			depth--
		case lexer.NAME:
			if depth == 0 && (t.Value == "String" || t.Value == "BlockString") {
				return true
			}
		}
		pos = t.End
	}
}

func (d *docGen) descr(indent string) (src, comment string) {
	switch rapid.IntRange(0, 5).Draw(d.c.T, "descr") {
	case 0:
		s := sgen.Comment(d.c.T, false)
		return indent + `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"` + "\n", s
	case 1:
		s := block(sgen.Comment(d.c.T, false))
		return indent + `"""` + s + `"""` + "\n", s
	case 2:
		a, b := block(sgen.Comment(d.c.T, false)), block(sgen.Comment(d.c.T, false))
		return indent + `"""` + "\n" + indent + a + "\n" + indent + b + "\n" + indent + `"""` + "\n", a + " " + b
	case 3:
		return indent + "# " + ascii(sgen.Comment(d.c.T, false)) + " {\n", ""
	}
	return "", ""
}

func (d *docGen) sep() string {
	return sgen.Pick(d.c.T, "sep", []string{"\n", ",\n", "\n\n"})
}

var fieldWords = []string{"id", "name", "size", "kind", "tags", "firstName", "x", "y2", "type", "input", "query", "_under", "total"}
var typeWords = []string{"Item", "Pet", "Order", "Query2", "Address", "Kind", "Z", "My_Type", "User", "Color"}

func uniq(used map[string]bool, s string) string {
	n := s
	for i := 2; used[n]; i++ {
		n = fmt.Sprintf("%s%d", s, i)
	}
	used[n] = true
	return n
}

func (d *docGen) document() string {
	c := d.c
	used := map[string]bool{"ID": true}
	n := rapid.IntRange(1, 7).Draw(c.T, "ntypes")
	type decl struct{ name, kind string }
	var decls []decl
	var named, structs []string
	for i := 0; i < n; i++ {
		kind := sgen.Pick(c.T, "kind", []string{"Struct", "Struct", "Struct", "Enum", "Union"})
		if kind == "Union" && len(structs) == 0 {
			kind = "Struct"
		}
		name := uniq(used, sgen.Pick(c.T, "tname", typeWords))
		decls = append(decls, decl{name, kind})
		named = append(named, name)
		if kind == "Struct" {
			structs = append(structs, name)
		}
	}
	extra := map[string]bool{}
	scalar := func() (string, string) {
		l := [][2]string{{"String", "String"}, {"Int", "Int32"}, {"Float", "Float64"}, {"Boolean", "Bool"}, {"ID", "ID"}, {"Timestamp", "Timestamp"}, {"UUID", "UUID"}}
		x := l[rapid.IntRange(0, len(l)-1).Draw(c.T, "scalar")]
		if x[0] == "Timestamp" || x[0] == "UUID" {
			extra[x[0]] = true
		}
		return x[0], x[1]
	}
	ref := func() (string, string) {
		if rapid.Bool().Draw(c.T, "named") {
			s := sgen.Pick(c.T, "ref", named)
			return s, s
		}
		return scalar()
	}
	for _, dc := range decls {
		src, comment := d.descr("")
		td := &sadl.TypeDef{Name: dc.name, Comment: comment}
		td.Type = dc.kind
		switch dc.kind {
		case "Struct":
			src += "type " + dc.name
			if extra["interface"] = extra["interface"] || sgen.Bool(c.T, "implements", 15); extra["interface"] && sgen.Bool(c.T, "impl", 50) {
				src += " implements Noded"
			}
			src += " {\n"
			fu := map[string]bool{}
			for k := rapid.IntRange(1, 5).Draw(c.T, "nfields"); k > 0; k-- {
				f := &sadl.StructFieldDef{Name: uniq(fu, sgen.Pick(c.T, "fname", fieldWords))}
				s, comment := d.descr("  ")
				f.Comment = comment
				g, t := ref()
				src += s + "  " + f.Name
				if sgen.Bool(c.T, "args", 15) {
					src += "(first: Int, after: [String!])"
				}
				f.Type = t
				switch rapid.IntRange(0, 4).Draw(c.T, "list") {
				case 0:
					f.Type, f.Items = "Array", t
					g = "[" + g + "]"
				case 1:
					f.Type, f.Items = "Array", t
					g = "[" + g + "!]"
				}
				if rapid.Bool().Draw(c.T, "required") {
					f.Required = true
					g += "!"
				}
				src += ": " + g + d.sep()
				td.Fields = append(td.Fields, f)
			}
			src += "}\n"
		case "Enum":
			src += "enum " + dc.name + " {\n"
			su := map[string]bool{}
			for k := rapid.IntRange(1, 5).Draw(c.T, "nsyms"); k > 0; k-- {
				e := &sadl.EnumElementDef{Symbol: uniq(su, sgen.Pick(c.T, "sym", []string{"RED", "GREEN", "blue", "N_A", "X1", "on"}))}
				s, comment := d.descr("  ")
				e.Comment = comment
				src += s + "  " + e.Symbol + d.sep()
				td.Elements = append(td.Elements, e)
			}
			src += "}\n"
		case "Union":
			src += "union " + dc.name + " = "
			k := rapid.IntRange(1, len(structs)).Draw(c.T, "nvariants")
			perm := rapid.Permutation(structs).Draw(c.T, "variants")[:k]
			for i, s := range perm {
				if i > 0 {
					src += sgen.Pick(c.T, "bar", []string{" | ", "\n  | "})
				}
				src += s
				v := &sadl.UnionVariantDef{Name: s}
				v.Type = s
				td.Variants = append(td.Variants, v)
			}
			src += "\n"
		}
		d.defs = append(d.defs, src)
		d.want = append(d.want, td)
	}
	insert := func(s string) {
		i := rapid.IntRange(0, len(d.defs)).Draw(c.T, "at")
		d.defs = append(d.defs[:i:i], append([]string{s}, d.defs[i:]...)...)
	}
	if extra["interface"] {
		insert("interface Noded {\n  id: ID!\n}\n")
	}
	for _, s := range []string{"Timestamp", "UUID"} {
		if extra[s] {
			insert("scalar " + s + "\n")
		}
	}
	if sgen.Bool(c.T, "input", 20) {
		insert("input NewThing {\n  name: String!\n  size: Int = 3\n}\n")
	}
	if sgen.Bool(c.T, "schema", 30) {
		q := sgen.Pick(c.T, "qname", []string{"Query", "Root"})
		insert("type " + q + " {\n  find(id: ID!): " + named[0] + "\n}\n")
		s := "schema {\n  query: " + q + "\n"
		if rapid.Bool().Draw(c.T, "mutation") {
			insert("type Mut {\n  make(name: String): " + named[0] + "\n}\n")
			s += "  mutation: Mut\n"
		}
		insert(s + "}\n")
	}
	return strings.Join(d.defs, "\n")
}

func importDoc(c *pbt.C, src string, conf *sadl.Data) (*sadl.Model, error) {
	dir, clean := pbt.Scratch()
	defer clean()
	path := filepath.Join(dir, "x.graphql")
	if err := os.WriteFile(path, []byte(src), 0644); err != nil {
		panic(err)
	}
	var m *sadl.Model
	var err error
	pbt.NoPanic(c, "the GraphQL importer", func() { pbt.Capture(func() { m, err = graphql.Import([]string{path}, conf) }) })
	return m, err
}

func TestP24(t *testing.T) {
	pbt.KnownFinding(t, "P24-string-definition", probeOverflow)
	pbt.Run(t, "documents", pbt.Opt{Quick: 6000, Rule: "three or more types"}, func(c *pbt.C) {
		d := &docGen{c: c}
		src := d.document()
		c.Case("%s", src)
		c.NonTrivial(len(d.want) >= 3)
		conf := sadl.NewData()
		name, ns := "", ""
		if rapid.Bool().Draw(c.T, "conf") {
			name, ns = sgen.Pick(c.T, "cname", []string{"svc", "Other"}), sgen.Pick(c.T, "cns", []string{"a.b", "x"})
			conf.Put("name", name)
			conf.Put("namespace", ns)
		}
		m, err := importDoc(c, src, conf)
		c.Check(err == nil, "the importer fails: %v", err)
		if name != "" {
			c.Check(m.Name == name && m.Namespace == ns, "the model is called %s in %s, want %s in %s", m.Name, m.Namespace, name, ns)
		} else {
			c.Check(sadl.IsSymbol(m.Name), "the model is called %q", m.Name)
		}
		got := map[string]*sadl.TypeDef{}
		var order []string
		for _, td := range m.Types {
			c.Check(got[td.Name] == nil, "type %s is there twice", td.Name)
			got[td.Name] = td
			if td.Name != "ID" {
				order = append(order, td.Name)
			}
		}
		id := got["ID"]
		c.Check(id != nil && id.Type == "String", "ID is %s", pbt.JSON(id))
		var wantOrder []string
		for _, w := range d.want {
			g := got[w.Name]
			c.Check(g != nil, "type %s is missing", w.Name)
			c.Check(pbt.JSON(g) == pbt.JSON(w), "type %s is\n%s\nwant\n%s", w.Name, pbt.JSON(g), pbt.JSON(w))
			wantOrder = append(wantOrder, w.Name)
		}
		c.Check(fmt.Sprint(order) == fmt.Sprint(wantOrder), "types are %v, want %v", order, wantOrder)
		again, err := importDoc(c, src, conf)
		c.Check(err == nil && pbt.JSON(again.Schema) == pbt.JSON(m.Schema), "importing twice gives different models")
	})
	pbt.Run(t, "together", pbt.Opt{Quick: 60, Rule: "every case"}, func(c *pbt.C) {
		c.NonTrivial(true)
		dir, done := pbt.Scratch()
		defer done()
		var ops []func() string
		var all []string
		for i := 0; i < 6; i++ {
			d := &docGen{c: c}
			src := d.document()
			all = append(all, src)
			path := filepath.Join(dir, fmt.Sprintf("d%d.graphql", i))
			os.WriteFile(path, []byte(src), 0644)
			ops = append(ops, func() string {
				m, err := graphql.Import([]string{path}, sadl.NewData())
				if err != nil {
					return err.Error()
				}
				return pbt.JSON(m.Schema)
			})
		}
		c.Case("%s", strings.Join(all, "\n----\n"))
		pbt.Capture(func() { pbt.Together(c, "the import", ops) })
	})
	pbt.Run(t, "defects", pbt.Opt{Quick: 3000, Rule: "every case"}, func(c *pbt.C) {
		d := &docGen{c: c}
		src := d.document()
		k := rapid.IntRange(0, 9).Draw(c.T, "defect")
		first := d.want[0].Name
		switch k {
		case 0:
			src += "\ntype Broken {\n  x: [[String]]\n}\n"
		case 1:
			src += "\ntype Broken {\n  x: [[String!]!]!\n}\n"
		case 2:
			src += "\nscalar Money\n"
		case 3:
			src += "\ntype Broken {\n  x: NoSuchType\n}\n"
		case 4:
			src += "\ntype Broken {\n  x: [NoSuchType!]\n}\n"
		case 5:
			src += "\ntype " + first + " {\n  x: Int\n}\n"
		case 6:
			src += "\nextend type " + first + " {\n  zz: Int\n}\n"
		case 7:
			src += "\nunion Broken = NoSuchType | " + first + "\n"
		case 8:
			src += sgen.Pick(c.T, "cut", []string{"\ntype Broken {", "\ntype Broken {\n  x: ", "\ntype Broken {\n  x: [Int", "\nenum Broken {\n  a", "\nunion Broken =", "\ntype"})
		case 9:
			src += "\n" + sgen.Pick(c.T, "junk", []string{"type {", "}", "enum X { 1 }", "type A { x }", "\"unterminated", "directive @a on FIELD"})
		}
		c.Case("%s", src)
		c.Class("%d", k)
		c.NonTrivial(true)
		m, err := importDoc(c, src, sadl.NewData())
		c.Check(err != nil && m == nil, "a defective document is accepted")
	})
	pbt.Run(t, "junk", pbt.Opt{Quick: 3000, Rule: "the text is one edit away from a valid document"}, func(c *pbt.C) {
		src := ""
		if rapid.Bool().Draw(c.T, "random") {
			src = rapid.String().Draw(c.T, "text")
		} else {
			d := &docGen{c: c}
			src = d.document()
			i := rapid.IntRange(0, len(src)).Draw(c.T, "at")
			j := i + rapid.IntRange(0, 6).Draw(c.T, "len")
			if j > len(src) {
				j = len(src)
			}
			src = src[:i] + sgen.Pick(c.T, "put", []string{"", "{", "}", "[", "]", "!", "\"", ":", "|", "x", "type ", "é", "\x00"}) + src[j:]
			c.NonTrivial(true)
		}
		if overflows(src) {
			c.Skip("graphql-go does not end")
		}
		c.Case("%q", src)
		m, err := importDoc(c, src, sadl.NewData())
		c.Check((err == nil) == (m != nil), "model and error are both there, or neither")
		if err == nil {
			_, err := parse(src)
			c.Check(err == nil, "accepted, although it is not GraphQL: %v", err)
		}
	})
	pbt.Run(t, "files", pbt.Opt{Quick: 20, Rule: "every case"}, func(c *pbt.C) {
		dir, clean := pbt.Scratch()
		defer clean()
		p := filepath.Join(dir, "a.graphql")
		if err := os.WriteFile(p, []byte("type A { x: Int }\n"), 0644); err != nil {
			panic(err)
		}
		bad := [][]string{{}, {p, p}, {filepath.Join(dir, "none.graphql")}, {dir}}
		l := bad[rapid.IntRange(0, len(bad)-1).Draw(c.T, "paths")]
		c.Case("%d paths", len(l))
		c.NonTrivial(true)
		m, err := graphql.Import(l, sadl.NewData())
		c.Check(m == nil && err != nil, "accepted")
		for _, n := range []string{"x.graphql", "x.json", "x", ".graphql", "x.graphql.sadl"} {
			c.Check(graphql.IsValidFile(n) == strings.HasSuffix(n, ".graphql"), "IsValidFile(%q) is wrong", n)
		}
	})
}

var _ = sort.Strings
