package gogen

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/boynton/sadl"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
	"verif/harness/sval"
)

// conf draws the settings of the generator and says where the files should be.
func drawConf(c *pbt.C, sc *sadl.Schema) (conf *sadl.Data, dir, pkg, service string) {
	conf = sadl.NewData()
	service = sc.Name
	if sgen.Bool(c.T, "name?", 20) {
		service = "other"
		conf.Put("name", service)
	}
	p := sc.Namespace
	if sgen.Bool(c.T, "package?", 40) {
		p = sgen.Pick(c.T, "package", []string{"foo", "foo.bar", "a.b.c"})
		conf.Put("package", p)
	}
	if p == "" {
		p = "main"
	}
	if sgen.Bool(c.T, "header?", 30) {
		conf.Put("header", sgen.Pick(c.T, "header", []string{"// made by a test", "// made by a test\n", "/*\n * of many lines\n */\n\n"}))
	}
	l := strings.Split(p, ".")
	return conf, path.Join(l...), l[len(l)-1], upper(service)
}

// checkHeader checks that every file starts with the configured header, on lines of its own.
func checkHeader(c *pbt.C, conf *sadl.Data, files map[string]string) {
	header := "//\n// Generated by sadl\n//\n"
	if conf.Has("header") {
		header = strings.TrimSuffix(conf.GetString("header"), "\n") + "\n"
	}
	for f, text := range files {
		c.Check(strings.HasPrefix(text, header+"package "), "%s does not start with the header %q and the package clause:\n%s", f, header, clip(text, 200))
	}
}

func TestP25(t *testing.T) {
	pbt.Run(t, "declarations", pbt.Opt{Quick: 2500, Rule: "three or more types, one of them a struct or union"}, func(c *pbt.C) {
		o := options()
		if rapid.Bool().Draw(c.T, "http") {
			o.Http = 3
		}
		sc := goSchema(c, o)
		fixExceptions(sc)
		conf, dir, pkgName, service := drawConf(c, sc)
		c.CaseJSON(sc)
		rich := false
		for _, td := range sc.Types {
			rich = rich || td.Type == "Struct" || td.Type == "Union"
			c.Class("%s", td.Type)
		}
		c.NonTrivial(rich && len(sc.Types) >= 3)
		tmp, clean := pbt.Scratch()
		defer clean()
		files, err := generate(c, sc, tmp, conf)
		c.Check(err == nil, "the generator fails: %v", err)
		want := path.Join(dir, sadl.Uncapitalize(service)+"_model.go")
		c.Check(len(files) == 1 && files[want] != "", "files are %v, want %s", pbt.SortedKeys(files), want)
		pkg, _, _, err := check(pkgName, files)
		c.Check(err == nil, "the generated code does not compile: %v\n%s", err, clip(files[want], 3000))
		checkHeader(c, conf, files)
		c.Check(pkg.Name() == pkgName, "package is %s, want %s", pkg.Name(), pkgName)
		checkPackage(c, sc, pkg, service)
	})
	pbt.Run(t, "values", pbt.Opt{Quick: 24, Thorough: 300, Rule: "every case is a batch of twelve models with their values"}, func(c *pbt.C) {
		runValues(c, 12, false)
	})
	pbt.Run(t, "runtime-values", pbt.Opt{Quick: 12, Thorough: 80, Rule: "every case is a batch of twelve models, generated to use the library, with their values"}, func(c *pbt.C) {
		runValues(c, 12, true)
	})
	pbt.Run(t, "repeatable", pbt.Opt{Quick: 300, Rule: "three or more types"}, func(c *pbt.C) {
		o := options()
		o.Http = 3
		sc := goSchema(c, o)
		fixExceptions(sc)
		c.CaseJSON(sc)
		c.NonTrivial(len(sc.Types) >= 3)
		var first map[string]string
		for i := 0; i < 3; i++ {
			tmp, clean := pbt.Scratch()
			files, err := generate(c, sc, tmp, sadl.NewData())
			clean()
			c.Check(err == nil, "the generator fails: %v", err)
			if i == 0 {
				first = files
			} else {
				c.Check(fmt.Sprint(first) == fmt.Sprint(files), "generating twice gives different code")
			}
		}
	})
	pbt.Run(t, "unsupported", pbt.Opt{Quick: 150, Rule: "every case"}, func(c *pbt.C) {
		sc := goSchema(c, options())
		where := rapid.IntRange(0, 2).Draw(c.T, "where")
		switch where {
		case 0:
			td := &sadl.TypeDef{Name: "Unsupported"}
			td.Type, td.Value, td.Unit = "UnitValue", "Decimal", "String"
			sc.Types = append(sc.Types, td)
		case 1:
			td := &sadl.TypeDef{Name: "Unsupported"}
			td.Type = "Struct"
			f := &sadl.StructFieldDef{Name: "amount"}
			f.Type, f.Value, f.Unit = "UnitValue", "Decimal", "String"
			td.Fields = append(td.Fields, f)
			sc.Types = append(sc.Types, td)
		case 2:
			td := &sadl.TypeDef{Name: "Unsupported"}
			td.Type, td.Items = "Array", "UnitValue"
			sc.Types = append(sc.Types, td)
		}
		c.CaseJSON(sc)
		c.NonTrivial(true)
		tmp, clean := pbt.Scratch()
		defer clean()
		files, err := generate(c, sc, tmp, sadl.NewData())
		c.Check(err != nil, "a model with a UnitValue is accepted: %v", pbt.SortedKeys(files))
		c.Check(len(files) == 0, "a file is written along with the error %v", err)
	})
	pbt.KnownFinding(t, "P25-enum-symbol-clash", func() (bool, string) {
		mk := func(n string) *sadl.TypeDef {
			td := &sadl.TypeDef{Name: n}
			td.Type = "Enum"
			td.Elements = []*sadl.EnumElementDef{{Symbol: "ON"}, {Symbol: "OFF"}}
			return td
		}
		return compileFails(&sadl.Schema{Name: "svc", Types: []*sadl.TypeDef{mk("Power"), mk("Light")}})
	})
	pbt.KnownFinding(t, "P25-union-zero-variant", func() (bool, string) {
		td := &sadl.TypeDef{Name: "Choice"}
		td.Type = "Union"
		for _, n := range []string{"Int32", "Bool"} {
			v := &sadl.UnionVariantDef{Name: n}
			v.Type = n
			td.Variants = append(td.Variants, v)
		}
		tmp, clean := pbt.Scratch()
		defer clean()
		m, err := sadl.NewModel(&sadl.Schema{Name: "svc", Types: []*sadl.TypeDef{td}})
		if err == nil {
			err = exportGo(m, tmp)
		}
		if err != nil {
			return true, err.Error()
		}
		p, _, _, err := check("main", pbt.Files(tmp))
		if err != nil {
			return true, err.Error()
		}
		st, ok := p.Scope().Lookup("Choice").Type().Underlying().(*types.Struct)
		if !ok {
			return false, ""
		}
		for i := 0; i < st.NumFields(); i++ {
			if _, basic := st.Field(i).Type().(*types.Basic); basic && strings.Contains(st.Tag(i), ",omitempty") {
				return true, "variant " + st.Field(i).Name() + " of value zero is left out of the JSON"
			}
		}
		return false, ""
	})
	pbt.KnownFinding(t, "P25-exception-error-field", func() (bool, string) {
		td := &sadl.TypeDef{Name: "Failure"}
		td.Type = "Struct"
		f := &sadl.StructFieldDef{Name: "error"}
		f.Type = "String"
		td.Fields = []*sadl.StructFieldDef{f}
		h := &sadl.HttpDef{Name: "get", Method: "GET", Path: "/x", Expected: &sadl.HttpExpectedSpec{Status: 200},
			Exceptions: []*sadl.HttpExceptionSpec{{Type: "Failure", Status: 500}}}
		return compileFails(&sadl.Schema{Name: "svc", Types: []*sadl.TypeDef{td}, Http: []*sadl.HttpDef{h}})
	})
}

// fixExceptions keeps only exceptions Go can throw.
func fixExceptions(sc *sadl.Schema) {
	kind := map[string]string{}
	for _, td := range sc.Types {
		kind[td.Name] = td.Type
		// the listed finding P25-exception-error-field
		for _, f := range td.Fields {
			if upper(f.Name) == "Error" {
				kind[td.Name] = ""
			}
		}
		for _, f := range td.Variants {
			if upper(f.Name) == "Error" {
				kind[td.Name] = ""
			}
		}
	}
	for _, h := range sc.Http {
		var l []*sadl.HttpExceptionSpec
		for _, e := range h.Exceptions {
			if kind[e.Type] == "Struct" || kind[e.Type] == "Union" {
				l = append(l, e)
			}
		}
		h.Exceptions = l
	}
}

func checkPackage(c *pbt.C, sc *sadl.Schema, pkg *types.Package, service string) {
	g := newGoTypes(sc)
	lookup := func(name string) types.Type {
		o := pkg.Scope().Lookup(name)
		_, ok := o.(*types.TypeName)
		c.Check(ok, "no Go type %s", name)
		return o.Type()
	}
	enum := func(name string, ts *sadl.TypeSpec) {
		t := lookup(name)
		b, ok := t.Underlying().(*types.Basic)
		c.Check(ok && b.Info()&types.IsInteger != 0, "%s is not an integer type", name)
		seen := map[int64]bool{}
		for _, e := range ts.Elements {
			k, ok := pkg.Scope().Lookup(e.Symbol).(*types.Const)
			c.Check(ok, "no constant %s", e.Symbol)
			c.Check(types.Identical(k.Type(), t), "constant %s is of type %s, want %s", e.Symbol, k.Type(), name)
			n, _ := constant.Int64Val(k.Val())
			c.Check(n != 0 && !seen[n], "constant %s has the value %d of another one, or of none", e.Symbol, n)
			seen[n] = true
		}
	}
	structure := func(name string, fields []*sadl.StructFieldDef) {
		t := lookup(name)
		st, ok := t.Underlying().(*types.Struct)
		c.Check(ok, "%s is not a struct", name)
		c.Check(st.NumFields() == len(fields), "%s has %d fields, want %d", name, st.NumFields(), len(fields))
		for _, f := range fields {
			found := false
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() != upper(f.Name) {
					continue
				}
				found = true
				why := same(pkg, st.Field(i).Type(), g.expr(&f.TypeSpec, name+upper(f.Name)))
				c.Check(why == "", "field %s.%s: %s", name, f.Name, why)
				tag := "json:\"" + f.Name + "\""
				if !f.Required {
					tag = "json:\"" + f.Name + ",omitempty\""
				}
				c.Check(st.Tag(i) == tag, "field %s.%s has the tag %s, want %s", name, f.Name, st.Tag(i), tag)
			}
			c.Check(found, "no field %s in %s", upper(f.Name), name)
			if f.Type == "Enum" {
				enum(name+upper(f.Name), &f.TypeSpec)
			}
		}
	}
	for _, td := range sc.Types {
		switch td.Type {
		case "Struct":
			structure(td.Name, td.Fields)
		case "Enum":
			enum(td.Name, &td.TypeSpec)
		case "Union":
			t := lookup(td.Name)
			st, ok := t.Underlying().(*types.Struct)
			c.Check(ok, "%s is not a struct", td.Name)
			for _, v := range td.Variants {
				found := false
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == upper(v.Name) {
						found = true
						why := same(pkg, st.Field(i).Type(), g.expr(&v.TypeSpec, ""))
						c.Check(why == "", "variant %s.%s: %s", td.Name, v.Name, why)
						c.Check(st.Tag(i) == "json:\""+v.Name+",omitempty\"", "variant %s.%s has the tag %s", td.Name, v.Name, st.Tag(i))
					}
				}
				c.Check(found, "no variant %s in %s", v.Name, td.Name)
				k, ok := pkg.Scope().Lookup(td.Name + "VariantTag" + upper(v.Name)).(*types.Const)
				c.Check(ok, "no tag constant for variant %s of %s", v.Name, td.Name)
				n, _ := constant.Int64Val(k.Val())
				c.Check(n > 0, "the tag of variant %s of %s is %d", v.Name, td.Name, n)
			}
			c.Check(st.NumFields() == len(td.Variants)+1, "%s has %d fields for %d variants", td.Name, st.NumFields(), len(td.Variants))
		default:
			t := lookup(td.Name)
			why := same(pkg, t.Underlying(), g.expr(&td.TypeSpec, ""))
			c.Check(why == "", "type %s: %s", td.Name, why)
		}
	}
	it, ok := lookup(service).Underlying().(*types.Interface)
	c.Check(ok, "%s is not an interface", service)
	c.Check(it.NumMethods() == len(sc.Http), "%s has %d methods for %d actions", service, it.NumMethods(), len(sc.Http))
	errType := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	for _, h := range sc.Http {
		name := upper(h.Name)
		found := false
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == name {
				found = true
				sig := it.Method(i).Type().(*types.Signature)
				ok := sig.Params().Len() == 1 && sig.Results().Len() == 2 &&
					same(pkg, sig.Params().At(0).Type(), "*"+name+"Request") == "" &&
					same(pkg, sig.Results().At(0).Type(), "*"+name+"Response") == "" &&
					same(pkg, sig.Results().At(1).Type(), "error") == ""
				c.Check(ok, "method %s has the signature %s", name, sig)
			}
		}
		c.Check(found, "no method for action %s", h.Name)
		var in, out []*sadl.StructFieldDef
		for _, p := range h.Inputs {
			in = append(in, &p.StructFieldDef)
		}
		if h.Expected != nil {
			for _, p := range h.Expected.Outputs {
				out = append(out, &p.StructFieldDef)
			}
		}
		structure(name+"Request", in)
		structure(name+"Response", out)
		for _, e := range h.Exceptions {
			c.Check(types.Implements(types.NewPointer(lookup(e.Type)), errType), "exception %s is not an error", e.Type)
		}
	}
}

func compileFails(sc *sadl.Schema) (bool, string) {
	var why string
	tmp, clean := pbt.Scratch()
	defer clean()
	m, err := sadl.NewModel(sc)
	if err != nil {
		return true, err.Error()
	}
	err = exportGo(m, tmp)
	if err == nil {
		_, _, _, err = check("main", pbt.Files(tmp))
	}
	if err != nil {
		why = err.Error()
	}
	return err != nil, why
}

// runValues generates n models, compiles them into one program and passes values through.
func runValues(c *pbt.C, n int, runtime bool) {
	type question struct {
		Pkg  int             `json:"pkg"`
		Type string          `json:"type"`
		JSON json.RawMessage `json:"json"`
		Func bool            `json:"func"`
	}
	tmp, clean := pbt.Scratch()
	defer clean()
	files := map[string]string{}
	var ask []interface{}
	type expect struct {
		sc   *sadl.Schema
		ts   *sadl.TypeSpec
		in   interface{}
		name string
		bad  string
		call bool
		ok   bool
		text string
	}
	var exp []expect
	main := "package main\n\nimport (\n\t\"bufio\"\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n"
	table := "var table = []map[string]func() interface{}{\n"
	fns := "var funcs = []map[string]func(string) (string, bool){\n"
	var desc []string
	for i := 0; i < n; i++ {
		o := options()
		if runtime {
			o.Kinds = append(o.Kinds, "UnitValue", "UnitValue")
		}
		sc := goSchema(c, o)
		conf := sadl.NewData()
		if runtime {
			conf.Put("runtime", true)
		}
		pk := fmt.Sprintf("p%d", i)
		conf.Put("package", pk)
		sub := filepath.Join(tmp, "gen")
		fs, err := generate(c, sc, sub, conf)
		c.Check(err == nil, "the generator fails: %v\n%s", err, pbt.JSON(sc))
		for f, s := range fs {
			files[f] = s
		}
		main += fmt.Sprintf("\t%s \"genprog/%s\"\n", pk, pk)
		table += "\t{\n"
		fns += "\t{\n"
		fn := func(name, text string, ok bool, want string) {
			ask = append(ask, question{Pkg: i, Type: name, Func: true, JSON: json.RawMessage(jsonText(text))})
			exp = append(exp, expect{sc: sc, name: name, call: true, in: text, ok: ok, text: want})
		}
		code := ""
		for f, s := range fs {
			if strings.HasPrefix(f, pk+"/") {
				code += s
			}
		}
		if strings.Contains(code, "func DecimalFromString(") {
			fns += fmt.Sprintf("\t\t\"Decimal\": func(s string) (string, bool) { d := %s.DecimalFromString(s); if d == nil { return \"\", false }; return d.String() + fmt.Sprintf(\" %%d %%d %%v\", d.AsInt32(), d.AsInt64(), d.AsFloat64()), true },\n", pk)
			n := rapid.Int32().Draw(c.T, "decInt")
			fn("Decimal", fmt.Sprint(n), true, fmt.Sprintf("%v %d %d %v", big.NewFloat(float64(n)), n, n, float64(n)))
			fn("Decimal", "2.5", true, "2.5 2 2 2.5")
			fn("Decimal", sgen.Pick(c.T, "badDec", []string{"", "x", "1.2.3", "1 2"}), false, "")
		}
		if strings.Contains(code, "func TimestampFromString(") {
			fns += fmt.Sprintf("\t\t\"Timestamp\": func(s string) (string, bool) { d := %s.TimestampFromString(s); if d == nil { return \"\", false }; return d.String(), true },\n", pk)
			sec := rapid.Int64Range(-6e10, 2.5e11).Draw(c.T, "sec")
			ts := time.Unix(sec, rapid.Int64Range(0, 999).Draw(c.T, "ms")*1e6).UTC()
			fn("Timestamp", ts.Format("2006-01-02T15:04:05.000Z"), true, ts.Format("2006-01-02T15:04:05.000Z"))
			fn("Timestamp", ts.Format("Mon, 02 Jan 2006 15:04:05 GMT"), true, ts.Format("2006-01-02T15:04:05.000Z")[:19]+".000Z")
			fn("Timestamp", sgen.Pick(c.T, "badTime", []string{"", "x", "2019-02-30T00:00:00.000Z", "2019-02-20"}), false, "")
		}
		for _, td := range sc.Types {
			switch td.Type {
			case "Int8", "Int16", "Int32", "Int64":
				lo, hi := sgen.IntRange(td.Type)
				n := rapid.OneOf(rapid.SampledFrom([]int64{0, 1, -1, lo, hi}), rapid.Int64Range(lo, hi)).Draw(c.T, "int")
				fns += fmt.Sprintf("\t\t%q: func(s string) (string, bool) { return fmt.Sprint(%s.%sFromString(s)), true },\n", td.Name, pk, td.Name)
				fn(td.Name, fmt.Sprint(n), true, fmt.Sprint(n))
			case "Float32", "Float64":
				x := sgen.Pick(c.T, "float", []string{"0", "1.5", "-0.25", "1e10", "12345.75"})
				f, _ := strconv.ParseFloat(x, 64)
				fns += fmt.Sprintf("\t\t%q: func(s string) (string, bool) { return fmt.Sprint(%s.%sFromString(s)), true },\n", td.Name, pk, td.Name)
				fn(td.Name, x, true, fmt.Sprint(f))
			case "Enum":
				e := td.Elements[rapid.IntRange(0, len(td.Elements)-1).Draw(c.T, "sym")]
				same := "true"
				if upper(e.Symbol) == e.Symbol {
					same = fmt.Sprintf("e == %s.%s", pk, e.Symbol)
				}
				fns += fmt.Sprintf("\t\t%q: func(s string) (string, bool) { var e %s.%s; err := e.UnmarshalText([]byte(s)); return fmt.Sprint(e), err == nil && %s },\n", td.Name, pk, td.Name, same)
				fn(td.Name, enumText(&td.TypeSpec, e.Symbol), true, enumText(&td.TypeSpec, e.Symbol))
			}
		}
		fns += "\t},\n"
		g := sval.NewG(c.T, sc).Rich()
		w := &wire{types: g.Types}
		desc = append(desc, pbt.JSON(sc))
		for _, td := range sc.Types {
			table += fmt.Sprintf("\t\t%q: func() interface{} { return new(%s.%s) },\n", td.Name, pk, td.Name)
			for k := 0; k < 3; k++ {
				v := g.Value(&td.TypeSpec, 0)
				if g.Valid(&td.TypeSpec, v) != "" {
					continue
				}
				in := w.in(&td.TypeSpec, v)
				b, err := json.Marshal(in)
				if err != nil {
					panic(err)
				}
				ask = append(ask, question{i, td.Name, b, false})
				exp = append(exp, expect{sc: sc, ts: &td.TypeSpec, in: in, name: td.Name})
			}
			if td.Type == "Enum" {
				for _, bad := range []string{`"NoSuchSymbol"`, `1`, `{}`} {
					ask = append(ask, question{i, td.Name, json.RawMessage(bad), false})
					exp = append(exp, expect{sc: sc, ts: &td.TypeSpec, name: td.Name, bad: bad})
				}
			}
			if td.Type == "Timestamp" || td.Type == "Decimal" {
				for _, bad := range []string{`"2020-13-01T00:00:00Z x"`, `"1x"`, `{}`, `true`} {
					ask = append(ask, question{i, td.Name, json.RawMessage(bad), false})
					exp = append(exp, expect{sc: sc, ts: &td.TypeSpec, name: td.Name, bad: bad})
				}
			}
		}
		table += "\t},\n"
	}
	table += "}\n"
	table += fns + "}\n"
	main += ")\n\n" + table + `
func main() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<24)
	for in.Scan() {
		var q struct {
			Pkg  int
			Type string
			JSON json.RawMessage
			Func bool
		}
		if err := json.Unmarshal(in.Bytes(), &q); err != nil {
			panic(err)
		}
		ans := map[string]interface{}{}
		var v interface{}
		if !q.Func {
			v = table[q.Pkg][q.Type]()
		}
		if q.Func {
			var s string
			json.Unmarshal(q.JSON, &s)
			ans["text"], ans["ok"] = funcs[q.Pkg][q.Type](s)
		} else if err := json.Unmarshal(q.JSON, v); err != nil {
			ans["error"] = err.Error()
		} else if b, err := json.Marshal(v); err != nil {
			ans["error"] = "encoding: " + err.Error()
		} else {
			ans["value"] = json.RawMessage(b)
		}
		b, err := json.Marshal(ans)
		if err != nil {
			panic(err)
		}
		fmt.Println(string(b))
	}
}
`
	files["main.go"] = main
	sort.Strings(desc)
	c.Case("%d models, %d values\n%s", n, len(ask), clip(strings.Join(desc, "\n"), 4000))
	c.NonTrivial(len(ask) > n)
	prog := filepath.Join(tmp, "prog")
	if runtime {
		withLibrary(files)
	}
	bin := program(c, prog, files)
	for i, a := range talk(c, bin, ask, 1) {
		e := exp[i]
		if e.call {
			c.Check(a["ok"] == e.ok && (!e.ok || a["text"] == e.text), "%q as %s reads as %v (%v), want %v (%v)\n%s", e.in, e.name, a["text"], a["ok"], e.text, e.ok, pbt.JSON(e.sc))
			continue
		}
		if e.bad != "" {
			c.Check(a["error"] != nil, "%s is accepted as a value of %s: %s\n%s", e.bad, e.name, jsonText(a), pbt.JSON(e.sc))
			continue
		}
		c.Check(a["error"] == nil, "%s as %s: %v\n%s", jsonText(e.in), e.name, a["error"], pbt.JSON(e.sc))
		w := &wire{types: newGoTypes(e.sc).types}
		got, want := w.norm(e.ts, a["value"]), w.norm(e.ts, e.in)
		c.Check(equal(got, want), "%s as %s comes back as %s\n(compared: %s with %s)\n%s", jsonText(e.in), e.name, jsonText(a["value"]), jsonText(want), jsonText(got), pbt.JSON(e.sc))
	}
}
