package javagen

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"testing"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/java"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
	"verif/harness/sval"
)

// simpleTimes keeps timestamps where a field's annotations reach them: in fields and in the
// items of the collection a field holds (listed finding P27-nested-times).
func simpleTimes(sc *sadl.Schema) {
	j := newJavaTypes(sc, true)
	ok := func(ts *sadl.TypeSpec) bool {
		n := j.name(ts, false, "Inner")
		if n == "Instant" {
			return true
		}
		n = strings.TrimSuffix(n, ">")
		if strings.HasPrefix(n, "Map<") {
			n = n[strings.Index(n, ",")+1:]
		} else {
			n = strings.TrimPrefix(n, "List<")
		}
		return n == "Instant" || !strings.Contains(n, "Instant")
	}
	var spec func(ts *sadl.TypeSpec)
	spec = func(ts *sadl.TypeSpec) {
		if !ok(ts) {
			if ts.Type == "Array" || ts.Type == "Map" {
				ts.Items = "String"
			} else {
				*ts = sadl.TypeSpec{Type: "String"}
			}
		}
		for _, f := range ts.Fields {
			spec(&f.TypeSpec)
		}
		for _, v := range ts.Variants {
			spec(&v.TypeSpec)
		}
	}
	for _, td := range sc.Types {
		spec(&td.TypeSpec)
	}
	for _, h := range sc.Http {
		for _, p := range h.Inputs {
			spec(&p.TypeSpec)
		}
		if h.Expected != nil {
			for _, p := range h.Expected.Outputs {
				spec(&p.TypeSpec)
			}
		}
	}
}

// throwable says which types are classes of exceptions.
func throwable(sc *sadl.Schema, sexc bool) map[string]bool {
	m := map[string]bool{}
	if !sexc {
		for _, h := range sc.Http {
			for _, e := range h.Exceptions {
				m[e.Type] = true
			}
		}
	}
	return m
}

// fixExceptions keeps only exceptions that can be thrown.
func fixExceptions(sc *sadl.Schema, sexc bool) {
	types := map[string]*sadl.TypeDef{}
	for _, td := range sc.Types {
		types[td.Name] = td
	}
	clash := func(name string, ts *sadl.TypeSpec) bool {
		switch name {
		case "stackTrace", "cause", "suppressed", "localizedMessage", "message":
			return true
		}
		return false
	}
	for _, h := range sc.Http {
		var l []*sadl.HttpExceptionSpec
		for _, e := range h.Exceptions {
			td := types[e.Type]
			ok := td != nil && (td.Type == "Struct" || td.Type == "Union" && hasEntity(e.Status))
			if ok && !sexc {
				for _, f := range td.Fields {
					t := f.Type
					if x := types[t]; x != nil {
						t = x.Type
					}
					ok = ok && (!clash(f.Name, &f.TypeSpec) || f.Name == "message" && t == "String")
				}
				for _, f := range td.Variants {
					ok = ok && !clash(f.Name, &f.TypeSpec)
				}
			}
			if ok {
				l = append(l, e)
			}
		}
		h.Exceptions = l
	}
}

func hasEntity(status int32) bool { return status != 304 && status != 204 }

func isClass(td *sadl.TypeDef) bool {
	switch td.Type {
	case "Struct", "Enum", "Union", "UnitValue":
		return true
	}
	return false
}

// probeShadow generates a class whose inline struct has the name of a type it refers to.
func probeShadow() (bool, string) {
	dir, clean := pbt.Scratch()
	defer clean()
	str := func(name string, fields ...*sadl.StructFieldDef) *sadl.StructFieldDef {
		return &sadl.StructFieldDef{Name: name, TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: fields}}
	}
	field := func(name, typ string) *sadl.StructFieldDef {
		return &sadl.StructFieldDef{Name: name, TypeSpec: sadl.TypeSpec{Type: typ}}
	}
	m, err := sadl.NewModel(&sadl.Schema{Name: "probe", Namespace: "example", Types: []*sadl.TypeDef{
		{Name: "Size", TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{field("width", "Int32")}}},
		{Name: "Holder", TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{str("size", field("inner", "Size"))}}},
	}})
	if err != nil {
		return false, err.Error()
	}
	conf := sadl.NewData()
	conf.Put("package", "foo")
	conf.Put("source", "src")
	pbt.Capture(func() { err = java.Export(m, dir, conf) })
	if err != nil {
		return false, err.Error()
	}
	for n, text := range pbt.Files(dir) {
		if strings.HasSuffix(n, "Holder.java") {
			return strings.Contains(text, "static class Size ") && strings.Contains(text, " Size inner;"), n
		}
	}
	return false, "no class Holder"
}

// probeNestedTimes generates a field whose items are collections of timestamps.
func probeNestedTimes() (bool, string) {
	dir, clean := pbt.Scratch()
	defer clean()
	m, err := sadl.NewModel(&sadl.Schema{Name: "probe", Namespace: "example", Types: []*sadl.TypeDef{
		{Name: "Times", TypeSpec: sadl.TypeSpec{Type: "Array", Items: "Timestamp"}},
		{Name: "Holder", TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{{Name: "days", TypeSpec: sadl.TypeSpec{Type: "Array", Items: "Times"}}}}},
	}})
	if err != nil {
		return false, err.Error()
	}
	conf := sadl.NewData()
	conf.Put("package", "foo")
	conf.Put("source", "src")
	pbt.Capture(func() { err = java.Export(m, dir, conf) })
	if err != nil {
		return false, err.Error()
	}
	for n, text := range pbt.Files(dir) {
		if strings.HasSuffix(n, "Holder.java") {
			return strings.Contains(text, "List<List<Instant>> days") && !strings.Contains(strings.ToLower(text), "sing ="), n
		}
	}
	return false, "no class Holder"
}

func TestP27(t *testing.T) {
	pbt.KnownFinding(t, "P27-nested-times", probeNestedTimes)
	pbt.KnownFinding(t, "P27-inner-class-shadows", probeShadow)
	pbt.Run(t, "model", pbt.Opt{Quick: 500, Thorough: 8000, Rule: "two or more classes, one of them of a struct or union"}, func(c *pbt.C) {
		o := options()
		if rapid.Bool().Draw(c.T, "http") {
			o.Http = 3
		}
		sc := schema(c, o)
		simpleTimes(sc)
		s := settings(c, sc)
		fixExceptions(sc, s.sexc)
		fixActions(sc)
		unname(c, sc)
		fixActions(sc)
		if sgen.Bool(c.T, "no name", 6) {
			// no service, and so no code for the actions
			sc.Name, s.service = "", ""
			s.conf.Put("name", "")
			sc.Http = nil
		}
		g := sval.NewG(c.T, sc).Rich()
		vals := map[string][]interface{}{}
		for _, td := range sc.Types {
			for k := 0; k < 3 && isClass(td); k++ {
				if v := g.Value(&td.TypeSpec, 0); g.Valid(&td.TypeSpec, v) == "" && dense(&td.TypeSpec, v) {
					vals[td.Name] = append(vals[td.Name], v)
				}
			}
		}
		c.CaseJSON(map[string]interface{}{"schema": sc, "conf": s.conf, "values": vals})
		n, rich := 0, false
		for _, td := range sc.Types {
			if isClass(td) {
				n++
			}
			rich = rich || td.Type == "Struct" || td.Type == "Union"
			c.Class("%s", td.Type)
		}
		c.NonTrivial(rich && n >= 2)
		tmp, clean := pbt.Scratch()
		defer clean()
		files, err := generate(c, sc, tmp, s.conf)
		c.Check(err == nil, "the generator fails: %v", err)
		checkFiles(c, sc, s, files)
		id, classes := load(c, tmp, files)
		defer free(id)
		m := &model{c: c, sc: sc, s: s, id: id, classes: classes, j: newJavaTypes(sc, s.instants), w: &wire{types: g.Types}}
		m.declarations()
		for _, td := range sc.Types {
			for _, v := range vals[td.Name] {
				m.value(td, m.w.in(&td.TypeSpec, v))
			}
		}
	})
	pbt.Run(t, "lombok", pbt.Opt{Quick: 100, Thorough: 2000, Rule: "two or more structs"}, func(c *pbt.C) {
		// what Lombok makes of its annotations is not looked at, so the classes have only their fields
		o := options()
		o.Http = 2
		sc := schema(c, o)
		simpleTimes(sc)
		s := settings(c, sc)
		s.lombok, s.immutable = true, false
		s.conf.Put("lombok", true)
		s.conf.Put("immutable", false)
		fixExceptions(sc, s.sexc)
		fixActions(sc)
		c.CaseJSON(map[string]interface{}{"schema": sc, "conf": s.conf})
		n := 0
		for _, td := range sc.Types {
			if td.Type == "Struct" {
				n++
			}
		}
		c.NonTrivial(n >= 2)
		tmp, clean := pbt.Scratch()
		defer clean()
		files, err := generate(c, sc, tmp, s.conf)
		c.Check(err == nil, "the generator fails: %v", err)
		checkFiles(c, sc, s, files)
		exc := throwable(sc, s.sexc)
		for _, td := range sc.Types {
			if td.Type == "Struct" && len(td.Fields) > 0 {
				text := files[path.Join(s.source, pkgPath(s.model), upper(td.Name)+".java")]
				for _, a := range []string{"@Data", "@Builder", "@AllArgsConstructor", "@NoArgsConstructor"} {
					c.Check(strings.Contains(text, "\n"+a) != exc[td.Name], "the class %s (exception: %v) and %s:\n%s", td.Name, exc[td.Name], a, text)
				}
			}
		}
		id, classes := load(c, tmp, files)
		defer free(id)
		m := &model{c: c, sc: sc, s: s, id: id, classes: classes, j: newJavaTypes(sc, s.instants), w: &wire{}}
		m.declarations()
	})
	pbt.Run(t, "repeatable", pbt.Opt{Quick: 200, Rule: "three or more types"}, func(c *pbt.C) {
		o := options()
		o.Http = 3
		sc := schema(c, o)
		s := settings(c, sc)
		fixExceptions(sc, s.sexc)
		fixActions(sc)
		c.CaseJSON(sc)
		c.NonTrivial(len(sc.Types) >= 3)
		var first map[string]string
		for i := 0; i < 3; i++ {
			tmp, clean := pbt.Scratch()
			files, err := generate(c, sc, tmp, s.conf)
			clean()
			c.Check(err == nil, "the generator fails: %v", err)
			if i == 0 {
				first = files
			} else {
				c.Check(equal(first, files), "generating twice gives different code")
			}
		}
	})
	pbt.Run(t, "refused", pbt.Opt{Quick: 150, Rule: "every case"}, func(c *pbt.C) {
		sc := schema(c, options())
		td := &sadl.TypeDef{Name: "Refused"}
		word := sgen.Pick(c.T, "keyword", strings.Fields(`abstract assert boolean break byte case catch char class const continue default do double else
			enum extends final finally float for goto if implements import instanceof int interface long native new package private protected
			public return short static strictfp super switch synchronized this throw throws transient try void volatile while true false null`))
		switch k := rapid.IntRange(0, 3).Draw(c.T, "where"); k {
		case 0:
			td.Type = "Struct"
			f := &sadl.StructFieldDef{Name: word}
			f.Type = "String"
			td.Fields = append(td.Fields, f)
		case 1:
			td.Type = "Enum"
			td.Elements = []*sadl.EnumElementDef{{Symbol: "ok"}, {Symbol: word}}
		case 2:
			td.Type = "Union"
			v := &sadl.UnionVariantDef{Name: word}
			v.Type = "String"
			td.Variants = append(td.Variants, v)
		case 3:
			td.Type, td.Items = "Array", "Refused"
			if rapid.Bool().Draw(c.T, "map") {
				td.Type, td.Keys = "Map", "String"
			}
			u := &sadl.TypeDef{Name: "UsesRefused"}
			u.Type = "Struct"
			f := &sadl.StructFieldDef{Name: "x"}
			f.Type = "Refused"
			u.Fields = append(u.Fields, f)
			sc.Types = append(sc.Types, u)
		}
		sc.Types = append(sc.Types, td)
		c.CaseJSON(sc)
		c.NonTrivial(true)
		tmp, clean := pbt.Scratch()
		defer clean()
		files, err := generate(c, sc, tmp, sadl.NewData())
		c.Check(err != nil, "a type that Java cannot have is accepted: %v", pbt.SortedKeys(files))
	})
}

// fixActions leaves only actions with a name of their own.
func fixActions(sc *sadl.Schema) {
	seen := map[string]bool{}
	var l []*sadl.HttpDef
	for _, h := range sc.Http {
		if h.Name != "" && !seen[upper(h.Name)] {
			seen[upper(h.Name)] = true
			l = append(l, h)
		}
	}
	sc.Http = l
	unshadow(sc)
	for _, h := range sc.Http {
		fix := func(class string, l []*sadl.HttpParamSpec) {
			for _, p := range l {
				distinct(p.Fields, []string{class, upper(p.Name)})
			}
		}
		fix(upper(h.Name)+"Request", h.Inputs)
		if h.Expected != nil {
			fix(upper(h.Name)+"Response", h.Expected.Outputs)
		}
	}
}

// dense: no null inside a collection, which generated values have only where they would get too deep
func dense(ts *sadl.TypeSpec, v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return false
	case []interface{}:
		for _, y := range x {
			if !dense(ts, y) {
				return false
			}
		}
	case obj:
		for _, y := range x {
			if !dense(ts, y) {
				return false
			}
		}
	}
	return true
}

func pkgPath(p string) string { return strings.Replace(p, ".", "/", -1) }

// checkFiles: a file for each class, where its package says, and no other one
func checkFiles(c *pbt.C, sc *sadl.Schema, s *setup, files map[string]string) {
	dir := path.Join(s.source, pkgPath(s.model))
	want := map[string]bool{}
	for _, td := range sc.Types {
		if isClass(td) {
			want[path.Join(dir, upper(td.Name)+".java")] = true
		}
	}
	if s.service != "" {
		want[path.Join(dir, s.service+".java")] = true
	}
	for _, h := range sc.Http {
		want[path.Join(dir, upper(h.Name)+"Request.java")] = true
		want[path.Join(dir, upper(h.Name)+"Response.java")] = true
	}
	if s.sexc {
		want[path.Join(dir, "ServiceException.java")] = true
	}
	for f := range want {
		c.Check(files[f] != "", "no file %s in %v", f, pbt.SortedKeys(files))
	}
	header := "//\n// Generated by sadl\n//\n"
	if s.conf.Has("header") {
		header = strings.TrimSuffix(s.conf.GetString("header"), "\n") + "\n"
	}
	for f, text := range files {
		c.Check(want[f] || f == path.Join(dir, "Util.java") || f == path.Join(dir, "Timestamp.java"), "unexpected file %s", f)
		c.Check(strings.HasPrefix(text, header+"package ") || s.model == "" && strings.HasPrefix(text, header), "%s does not start with the header and the package", f)
	}
}

type model struct {
	c       *pbt.C
	sc      *sadl.Schema
	s       *setup
	id      string
	classes map[string]bool
	j       *javaTypes
	w       *wire
}

func (m *model) describe(class string) obj {
	m.c.Check(m.classes[class], "no class %s", class)
	return good(m.c, "describing "+class, obj{"op": "describe", "id": m.id, "class": class})["class"].(obj)
}

func (m *model) declarations() {
	c := m.c
	exc := throwable(m.sc, m.s.sexc)
	for _, td := range m.sc.Types {
		class := m.s.model + "." + upper(td.Name)
		if !isClass(td) {
			c.Check(!m.classes[class], "a class %s for a %s", class, td.Type)
			continue
		}
		m.class(class, upper(td.Name), &td.TypeSpec, exc[td.Name])
	}
	for _, h := range m.sc.Http {
		in, out := &sadl.TypeSpec{Type: "Struct"}, &sadl.TypeSpec{Type: "Struct"}
		for _, p := range h.Inputs {
			in.Fields = append(in.Fields, &p.StructFieldDef)
		}
		if h.Expected != nil {
			for _, p := range h.Expected.Outputs {
				out.Fields = append(out.Fields, &p.StructFieldDef)
			}
		}
		n := upper(h.Name)
		m.class(m.s.model+"."+n+"Request", n+"Request", in, false)
		m.class(m.s.model+"."+n+"Response", n+"Response", out, false)
	}
	if m.s.service == "" {
		return
	}
	d := m.describe(m.s.model + "." + m.s.service)
	c.Check(d["kind"] == "interface", "the service is not an interface")
	ms := d["methods"].(obj)
	c.Check(len(ms) == len(m.sc.Http), "the interface has the methods %v for %d actions", ms, len(m.sc.Http))
	for _, h := range m.sc.Http {
		n := upper(h.Name)
		sig := sadl.Uncapitalize(h.Name) + "(" + n + "Request)"
		c.Check(ms[sig] == n+"Response", "no method %s in the interface: %v", sig, ms)
	}
}

// class checks the class; name is what its type is called.
func (m *model) class(class, name string, ts *sadl.TypeSpec, exc bool) {
	c := m.c
	d := m.describe(class)
	super := "java.lang.Object"
	if exc {
		super = "java.lang.RuntimeException"
	}
	fields := d["fields"].(obj)
	methods := d["methods"].(obj)
	typeOf := func(f *sadl.StructFieldDef) string {
		return m.j.name(&f.TypeSpec, f.Required, name+"."+upper(f.Name))
	}
	nested := func(f *sadl.StructFieldDef) {
		if f.Type == "Enum" || f.Type == "UnitValue" || f.Type == "Struct" && len(f.Fields) > 0 {
			m.class(class+"$"+upper(f.Name), name+"."+upper(f.Name), &f.TypeSpec, false)
		}
	}
	field := func(f *sadl.StructFieldDef, mod string) {
		x, ok := fields[f.Name].(obj)
		c.Check(ok, "no field %s in %s: %v", f.Name, name, fields)
		c.Check(x["type"] == typeOf(f), "field %s.%s is a %v, want %s", name, f.Name, x["type"], typeOf(f))
		c.Check(x["mod"] == mod, "field %s.%s is %v, want %s", name, f.Name, x["mod"], mod)
		got, want := readAnnos(x["annos"]), m.j.annos(&f.TypeSpec, f.Required)
		c.Check(equal(got, want), "field %s.%s has the annotations %q, want %q", name, f.Name, got, want)
	}
	method := func(ms obj, sig, ret string) {
		c.Check(ms[sig] == ret, "%s has no method %s %s: %v", name, ret, sig, ms)
	}
	switch ts.Type {
	case "Struct":
		c.Check(d["super"] == super, "%s extends %v, want %s", name, d["super"], super)
		c.Check(len(fields) == len(ts.Fields), "%s has the fields %v", name, fields)
		simple := name[strings.LastIndex(name, ".")+1:]
		var bm obj
		if m.s.immutable {
			method(methods, "builder()", name+"."+simple+"Builder")
			method(methods, "toBuilder()", name+"."+simple+"Builder")
			bm = m.describe(class + "$" + simple + "Builder")["methods"].(obj)
			method(bm, "build()", name)
		}
		var all []string
		for _, f := range ts.Fields {
			all = append(all, typeOf(f))
			if m.s.immutable {
				field(f, "private final")
				method(methods, "get"+upper(f.Name)+"()", typeOf(f))
				method(bm, f.Name+"("+typeOf(f)+")", name+"."+simple+"Builder")
			} else {
				field(f, "public")
				if m.s.lombok && !exc {
					nested(f)
					continue
				}
				method(methods, f.Name+"("+typeOf(f)+")", name)
			}
			nested(f)
		}
		ks := fmt.Sprint(d["constructors"])
		if m.s.immutable {
			c.Check(ks == "["+strings.Join(all, ",")+"]", "%s has the constructors %s, want (%s)", name, ks, strings.Join(all, ","))
		}
	case "Union":
		c.Check(d["super"] == super, "%s extends %v, want %s", name, d["super"], super)
		c.Check(len(fields) == len(ts.Variants)+1, "%s has the fields %v", name, fields)
		for _, v := range ts.Variants {
			f := &sadl.StructFieldDef{Name: v.Name, TypeSpec: v.TypeSpec}
			field(f, "public final")
			method(methods, "of"+upper(v.Name)+"("+typeOf(f)+")", name)
			nested(f)
		}
	case "Enum":
		c.Check(d["kind"] == "enum", "%s is not an enum", name)
		try := []string{"NoSuchSymbol", "", strings.ToLower(ts.Elements[0].Symbol) + "x"}
		r := good(c, "enum "+name, obj{"op": "enum", "id": m.id, "class": class, "try": try})
		want := obj{}
		for _, e := range ts.Elements {
			want[e.Symbol] = enumText(ts, e.Symbol)
		}
		c.Check(equal(r["symbols"], want), "enum %s has the values %v, want %v", name, r["symbols"], want)
		for i, ok := range r["accepted"].([]interface{}) {
			bad := true
			for _, w := range want {
				bad = bad && w != try[i]
			}
			c.Check(!bad || ok == false, "enum %s accepts %q: %v", name, try[i], ok)
		}
	case "UnitValue":
		want := obj{
			"value": m.j.name(&sadl.TypeSpec{Type: ts.Value}, true, ""),
			"unit":  m.j.name(&sadl.TypeSpec{Type: ts.Unit}, true, ""),
		}
		got := obj{}
		for n, f := range fields {
			got[n] = f.(obj)["type"]
		}
		c.Check(equal(got, want), "%s has the fields %v, want %v", name, got, want)
	}
}

// value passes a value through the class.
func (m *model) value(td *sadl.TypeDef, in interface{}) {
	c := m.c
	class := m.s.model + "." + upper(td.Name)
	r := good(c, jsonText(in)+" as "+td.Name, obj{"op": "json", "id": m.id, "class": class, "value": in, "setters": td.Type == "Struct" && !m.s.immutable})
	want := m.w.norm(&td.TypeSpec, tree(in))
	same := func(how string, v interface{}) {
		got := m.w.norm(&td.TypeSpec, v)
		c.Check(equal(got, want), "%s as %s comes back as %s %s\n(compared: %s with %s)", jsonText(in), td.Name, jsonText(v), how, jsonText(want), jsonText(got))
	}
	same("", r["value"])
	if td.Type == "Struct" {
		same("from setters", r["rebuilt"])
		if m.s.immutable {
			same("from a copy", r["copy"])
		}
	}
	if m.s.pretty && (td.Type == "Struct" || td.Type == "Union") {
		str, _ := r["string"].(string)
		same("from toString", parse(c, str))
	}
	if td.Type == "Union" {
		for name := range in.(obj) {
			u := good(c, "union "+td.Name, obj{"op": "union", "id": m.id, "class": class, "variant": name, "value": in})
			same("from its factory", u["value"])
			c.Check(fmt.Sprint(u["variants"]) == "["+name+" "+name+"]", "variant %s of %s is %v", name, td.Name, u["variants"])
			var all []string
			for _, v := range td.Variants {
				all = append(all, v.Name)
			}
			got := []string{}
			for _, x := range u["all"].([]interface{}) {
				got = append(got, fmt.Sprint(x))
			}
			sort.Strings(all)
			sort.Strings(got)
			c.Check(equal(all, got), "the variants of %s are %v, want %v", td.Name, got, all)
		}
	}
}
