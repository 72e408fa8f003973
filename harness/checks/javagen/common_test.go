package javagen

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/java"
	"verif/harness/javart"
	"verif/harness/pbt"
	"verif/harness/sgen"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// ---- the Java side: compiler, class loader, data binding and HTTP stand-ins

type jvm struct {
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
	n   int
}

var (
	once    sync.Once
	classes string
	vm      *jvm
)

func startJava() {
	once.Do(func() {
		tmp, err := os.MkdirTemp("", "javart")
		if err != nil {
			panic(err)
		}
		args := []string{"-J-Xmx1g", "-proc:none", "-nowarn", "-d", filepath.Join(tmp, "out")}
		for name, text := range javart.Sources() {
			p := filepath.Join(tmp, "src", name)
			os.MkdirAll(filepath.Dir(p), 0755)
			if err := os.WriteFile(p, []byte(text), 0644); err != nil {
				panic(err)
			}
			args = append(args, p)
		}
		sort.Strings(args[5:])
		out, err := exec.Command("javac", args...).CombinedOutput()
		if err != nil {
			fmt.Fprintf(os.Stderr, "javac: %v\n%s\n", err, out)
			os.Exit(2)
		}
		classes = filepath.Join(tmp, "out")
	})
	if vm != nil {
		return
	}
	cmd := exec.Command("java", "-Xmx2g", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-cp", classes, "rt.Main", classes)
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	cmd.Stderr = io.Discard
	if err := cmd.Start(); err != nil {
		fmt.Fprintf(os.Stderr, "java: %v\n", err)
		os.Exit(2)
	}
	vm = &jvm{in: in, out: bufio.NewReaderSize(o, 1<<20), cmd: cmd}
}

type obj = map[string]interface{}

// ask sends one question to the Java side.
func ask(q obj) obj {
	startJava()
	b, err := json.Marshal(q)
	if err != nil {
		panic(err)
	}
	vm.n++
	var line []byte
	if _, err = vm.in.Write(append(b, '\n')); err == nil {
		line, err = vm.out.ReadBytes('\n')
	}
	if err != nil {
		// the Java side is gone, which no generated code can cause by itself
		fmt.Fprintf(os.Stderr, "the Java process is gone: %v\n", err)
		os.Exit(2)
	}
	dec := json.NewDecoder(strings.NewReader(string(line)))
	dec.UseNumber()
	var r obj
	if err := dec.Decode(&r); err != nil {
		panic(fmt.Sprintf("bad answer %q: %v", line, err))
	}
	return r
}

// good asks and fails the case if the Java side throws.
func good(c *pbt.C, what string, q obj) obj {
	r := ask(q)
	c.Check(r["error"] == nil, "%s: %v\n%v", what, r["error"], r["trace"])
	return r
}

var serial int

// load compiles the directory, and returns its handle and the names of its classes.
func load(c *pbt.C, dir string, files map[string]string) (string, map[string]bool) {
	if vm != nil && vm.n > 20000 {
		// generated classes may pile up
		vm.in.Close()
		vm.cmd.Wait()
		vm = nil
	}
	serial++
	id := fmt.Sprint(serial)
	r := good(c, "compiling", obj{"op": "compile", "id": id, "dir": dir})
	if errs, _ := r["errors"].([]interface{}); len(errs) > 0 {
		src := ""
		for n, s := range files {
			for _, e := range errs {
				if strings.HasPrefix(fmt.Sprint(e), filepath.Base(n)+":") && !strings.Contains(src, "---- "+n) {
					src += "---- " + n + "\n" + s
				}
			}
		}
		free(id)
		c.Fatalf("the generated code does not compile:\n%v\n%s", errs, clip(src, 6000))
	}
	cl := map[string]bool{}
	for _, x := range r["classes"].([]interface{}) {
		cl[x.(string)] = true
	}
	return id, cl
}

func free(id string) { ask(obj{"op": "free", "id": id}) }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

// ---- models and settings

func upper(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

func options() sgen.Options {
	return sgen.Options{
		Kinds: []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "String", "Timestamp", "UUID",
			"Array", "Map", "Struct", "Struct", "Struct", "Enum", "Union", "Any", "UnitValue"},
		InlineKinds: []string{"Array", "Map", "Enum", "Struct", "UnitValue"}, FieldAny: true, ItemAny: true, FieldOpts: true, Constraints: true, Comments: true,
		MinTypes: 1, MaxTypes: 7, UnionBase: true, UnionNamed: true, Base: true,
	}
}

// schema draws a model whose names can be used in Java.
func schema(c *pbt.C, o sgen.Options) *sadl.Schema {
	sc := sgen.New(c.T, o)
	sc.Name = sgen.Pick(c.T, "service", []string{"service", "Svc", "petService"})
	rename := map[string]string{}
	for _, td := range sc.Types {
		if sgen.Bool(c.T, "javaName", 12) {
			n := sgen.Pick(c.T, "javaTypeName", []string{"Size", "Pattern2", "NotFoundException", "Date", "lower", "Form", "Min"})
			if _, used := rename[n]; !used {
				rename[td.Name] = n
				rename[n] = ""
			}
		}
	}
	renameTypes(sc, rename)
	types := map[string]*sadl.TypeDef{}
	for _, td := range sc.Types {
		types[td.Name] = td
	}
	// Java has no names for collections: one may not contain itself other than through a class
	for _, td := range sc.Types {
		if td.Type == "Array" || td.Type == "Map" {
			seen := map[string]bool{}
			for x := td; x != nil && (x.Type == "Array" || x.Type == "Map"); x = types[x.Items] {
				if seen[x.Name] {
					td.Items = "String"
					break
				}
				seen[x.Name] = true
			}
		}
	}
	for _, td := range sc.Types {
		seen := map[string]bool{"Variant": true}
		for _, v := range td.Variants {
			for seen[upper(v.Name)] {
				v.Name += "V"
			}
			seen[upper(v.Name)] = true
		}
		javaFields(c, td.Name, td.Fields)
		javaEnum(c, &td.TypeSpec)
	}
	unshadow(sc)
	return sc
}

func javaEnum(c *pbt.C, ts *sadl.TypeSpec) {
	for i, e := range ts.Elements {
		if sgen.Bool(c.T, "enumValue", 20) {
			if e.Annotations == nil {
				e.Annotations = map[string]string{}
			}
			e.Annotations["x_enumValue"] = fmt.Sprintf([]string{"wire-%d", "on hold/%d", "say \"%d\"", `back\slash%d`, "é%d"}[i%5], i)
		}
	}
}

// javaFields makes the fields ones a Java class can have.
func javaFields(c *pbt.C, class string, l []*sadl.StructFieldDef) {
	for _, f := range l {
		if sgen.Bool(c.T, "javaField", 8) {
			f.Name = sgen.Pick(c.T, "javaFieldName", []string{"xAxis", "URL", "message", "req", "build2", "eTag"})
		}
		javaEnum(c, &f.TypeSpec)
		javaFields(c, "", f.Fields)
	}
	if class != "" {
		distinct(l, []string{upper(class)})
	}
}

// unshadow keeps the classes of inline types from having the name of a type of the model, which they would hide
// within the class around them (listed finding P27-inner-class-shadows).
//
// inlineClasses are the kinds that get a class of their own.
var inlineClasses = []string{"Struct", "Enum", "Union", "UnitValue"}

func unshadow(sc *sadl.Schema) {
	var types []string
	for _, td := range sc.Types {
		types = append(types, upper(td.Name))
	}
	var fields func(l []*sadl.StructFieldDef)
	fields = func(l []*sadl.StructFieldDef) {
		for _, f := range l {
			for sgen.Has(inlineClasses, f.Type) {
				clash := sgen.Has(types, upper(f.Name))
				for _, o := range l {
					clash = clash || o != f && o.Name == f.Name
				}
				if !clash {
					break
				}
				f.Name += "In"
			}
			fields(f.Fields)
		}
	}
	params := func(l []*sadl.HttpParamSpec) {
		for _, p := range l {
			if sgen.Has(inlineClasses, p.Type) && sgen.Has(types, upper(p.Name)) {
				p.TypeSpec, p.Default = sadl.TypeSpec{Type: "String"}, nil
			}
			fields(p.Fields)
		}
	}
	for _, td := range sc.Types {
		fields(td.Fields)
	}
	for _, h := range sc.Http {
		params(h.Inputs)
		if h.Expected != nil {
			params(h.Expected.Outputs)
		}
	}
}

// distinct gives the fields names that differ, also from the classes around them.
func distinct(l []*sadl.StructFieldDef, outer []string) {
	used := map[string]bool{}
	for _, f := range l {
		for used[upper(f.Name)] || sgen.Has(outer, upper(f.Name)) {
			f.Name += "F"
		}
		used[upper(f.Name)] = true
		distinct(f.Fields, append(append([]string{}, outer...), upper(f.Name)))
	}
}

func renameTypes(sc *sadl.Schema, m map[string]string) {
	r := func(s *string) {
		if n := m[*s]; n != "" {
			*s = n
		}
	}
	var spec func(ts *sadl.TypeSpec)
	spec = func(ts *sadl.TypeSpec) {
		r(&ts.Type)
		r(&ts.Items)
		r(&ts.Keys)
		r(&ts.Unit)
		r(&ts.Value)
		for _, f := range ts.Fields {
			spec(&f.TypeSpec)
		}
		for _, v := range ts.Variants {
			if v.Name == v.Type {
				r(&v.Name)
			}
			spec(&v.TypeSpec)
		}
	}
	for _, td := range sc.Types {
		r(&td.Name)
		spec(&td.TypeSpec)
	}
	for _, h := range sc.Http {
		for _, in := range h.Inputs {
			spec(&in.TypeSpec)
		}
		if h.Expected != nil {
			for _, out := range h.Expected.Outputs {
				spec(&out.TypeSpec)
			}
		}
		for _, e := range h.Exceptions {
			r(&e.Type)
		}
	}
}

// unname takes the name of an action away (a model can have one such action). The schema keeps the name that the
// generator gives it: that of the method and the type of the entity.
func unname(c *pbt.C, sc *sadl.Schema) {
	for _, h := range sc.Http {
		if !sgen.Bool(c.T, "unnamed", 12) {
			continue
		}
		typ := "Object"
		if h.Method == "POST" || h.Method == "PUT" {
			for i := len(h.Inputs) - 1; i >= 0; i-- {
				if in := h.Inputs[i]; !in.Path && in.Query == "" && in.Header == "" {
					typ = in.Type
				}
			}
		} else if h.Expected != nil {
			for i := len(h.Expected.Outputs) - 1; i >= 0; i-- {
				if out := h.Expected.Outputs[i]; out.Header == "" {
					typ = out.Type
				}
			}
		}
		name := strings.ToLower(h.Method) + typ
		used := false
		for _, x := range sc.Http {
			used = used || upper(x.Name) == upper(name)
		}
		for _, td := range sc.Types {
			used = used || upper(td.Name) == upper(name)+"Request" || upper(td.Name) == upper(name)+"Response"
		}
		if !used {
			h.Name = name
			h.Annotations = map[string]string{"x_unnamed": ""}
			return
		}
	}
}

type setup struct {
	conf                              *sadl.Data
	source, pkg, model, server, cli   string
	service                           string
	immutable, instants, pretty, sexc bool
	lombok                            bool
}

func settings(c *pbt.C, sc *sadl.Schema) *setup {
	s := &setup{conf: sadl.NewData(), source: "src/main/java", immutable: true, instants: true, service: upper(sc.Name)}
	if sgen.Bool(c.T, "name?", 20) {
		s.service = sgen.Pick(c.T, "name", []string{"Other", "other"})
		s.conf.Put("name", s.service)
		s.service = upper(s.service)
	}
	switch {
	case sgen.Bool(c.T, "package?", 40):
		s.pkg = sgen.Pick(c.T, "package", []string{"foo", "foo.bar", "a.b.c"})
		s.conf.Put("package", s.pkg)
		if sgen.Bool(c.T, "domain?", 30) {
			s.conf.Put("domain", "other.example.com")
		}
	case sc.Namespace == "" || sgen.Bool(c.T, "domain?", 20):
		s.conf.Put("domain", "acme.example.org")
		s.pkg = "org.example.acme"
	default:
		s.pkg = sc.Namespace
	}
	sub := func(key string) string {
		if sgen.Bool(c.T, key+"?", 15) {
			p := sgen.Pick(c.T, key, []string{"zz." + key[:5], s.pkg})
			s.conf.Put(key, p)
			return p
		}
		return s.pkg + "." + strings.Split(key, "-")[0]
	}
	s.model, s.server, s.cli = sub("model-package"), sub("server-package"), sub("client-package")
	if sgen.Bool(c.T, "source?", 15) {
		s.source = "gen/java"
		s.conf.Put("source", s.source)
	}
	flag := func(key string, def bool, pct int) bool {
		if !sgen.Bool(c.T, key+"?", pct) {
			return def
		}
		s.conf.Put(key, !def)
		return !def
	}
	s.immutable = flag("immutable", true, 30)
	s.instants = flag("instants", true, 20)
	s.pretty = flag("json", false, 20)
	s.sexc = flag("service-exception", false, 30)
	if sgen.Bool(c.T, "header?", 20) {
		s.conf.Put("header", sgen.Pick(c.T, "header", []string{"// made by a test", "// made by a test\n", "/*\n * of many lines\n */\n\n"}))
	}
	return s
}

// generate runs the generator and returns the files it wrote, by path relative to dir.
func generate(c *pbt.C, sc *sadl.Schema, dir string, conf *sadl.Data) (map[string]string, error) {
	given := sgen.Clone(sc)
	for _, h := range given.Http {
		if _, ok := h.Annotations["x_unnamed"]; ok {
			h.Name = ""
		}
	}
	m, err := sadl.NewModel(given)
	c.Check(err == nil, "the model is refused: %v", err)
	pbt.NoPanic(c, "the Java generator", func() { pbt.Capture(func() { err = java.Export(m, dir, conf) }) })
	return pbt.Files(dir), err
}

// ---- the Java types expected for SADL ones

type javaTypes struct {
	types    map[string]*sadl.TypeDef
	instants bool
}

func newJavaTypes(sc *sadl.Schema, instants bool) *javaTypes {
	j := &javaTypes{types: map[string]*sadl.TypeDef{}, instants: instants}
	for _, td := range sc.Types {
		j.types[td.Name] = td
	}
	return j
}

var boxed = map[string][2]string{
	"Bool": {"boolean", "Boolean"}, "Int8": {"byte", "Byte"}, "Int16": {"short", "Short"}, "Int32": {"int", "Integer"}, "Int64": {"long", "Long"},
	"Float32": {"float", "Float"}, "Float64": {"double", "Double"},
}

// resolve follows names of types that have no class of their own.
func (j *javaTypes) resolve(ts *sadl.TypeSpec) (*sadl.TypeSpec, string) {
	if td := j.types[ts.Type]; td != nil {
		switch td.Type {
		case "Struct", "Enum", "Union", "UnitValue":
			return &td.TypeSpec, upper(td.Name)
		}
		return &td.TypeSpec, ""
	}
	return ts, ""
}

// name is the Java type of ts; inner is the name of its class if it is defined in place.
func (j *javaTypes) name(ts *sadl.TypeSpec, required bool, inner string) string {
	ts, class := j.resolve(ts)
	if class != "" {
		return class
	}
	if b, ok := boxed[ts.Type]; ok {
		if required {
			return b[0]
		}
		return b[1]
	}
	switch ts.Type {
	case "String", "UUID":
		return ts.Type
	case "Decimal":
		return "BigDecimal"
	case "Bytes":
		return "byte[]"
	case "Any":
		return "Object"
	case "Timestamp":
		if j.instants {
			return "Instant"
		}
		return "Timestamp"
	case "Array":
		return "List<" + j.name(&sadl.TypeSpec{Type: ts.Items}, false, "") + ">"
	case "Map":
		return "Map<" + j.name(&sadl.TypeSpec{Type: ts.Keys}, false, "") + "," + j.name(&sadl.TypeSpec{Type: ts.Items}, false, "") + ">"
	case "Struct":
		if len(ts.Fields) == 0 {
			return "Map<String,Object>"
		}
	}
	return inner
}

// annos are the validation annotations expected on a field.
func (j *javaTypes) annos(ts *sadl.TypeSpec, required bool) []string {
	var l []string
	ts, class := j.resolve(ts)
	prim := false
	if class == "" {
		_, prim = boxed[ts.Type]
	}
	if required && !prim {
		l = append(l, "NotNull{}")
	}
	switch {
	case class != "":
	case ts.Type == "String":
		if ts.Pattern != "" {
			l = append(l, "Pattern{regexp="+ts.Pattern+"}")
		}
		if ts.MinSize != nil || ts.MaxSize != nil {
			lo, hi := int64(0), int64(2147483647)
			if ts.MinSize != nil {
				lo = *ts.MinSize
			}
			if ts.MaxSize != nil {
				hi = *ts.MaxSize
			}
			l = append(l, fmt.Sprintf("Size{max=%d, min=%d}", hi, lo))
		}
	case sgen.Has(sgen.Numeric, ts.Type):
		for _, b := range []struct {
			n string
			d *sadl.Decimal
		}{{"Min", ts.Min}, {"Max", ts.Max}} {
			if b.d != nil {
				l = append(l, b.n+" "+sgen.Rat(b.d).RatString())
			}
		}
	}
	sort.Strings(l)
	return l
}

// readAnnos brings annotations found in a class to the form annos gives.
func readAnnos(v interface{}) []string {
	var l []string
	for _, x := range v.([]interface{}) {
		s := x.(string)
		for _, p := range []string{"Min{value=", "Max{value=", "DecimalMin{inclusive=true, value=", "DecimalMax{inclusive=true, value="} {
			if strings.HasPrefix(s, p) {
				d, err := sadl.ParseDecimal(strings.TrimSuffix(strings.TrimPrefix(s, p), "}"))
				if err == nil {
					n := strings.TrimPrefix(p, "Decimal")[:3]
					s = n + " " + sgen.Rat(d).RatString()
				}
			}
		}
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}

// ---- values on the wire

type wire struct{ types map[string]*sadl.TypeDef }

func enumText(ts *sadl.TypeSpec, sym string) string {
	for _, e := range ts.Elements {
		if e.Symbol == sym {
			if v := e.Annotations["x_enumValue"]; v != "" {
				return v
			}
		}
	}
	return sym
}

func text(v interface{}) (string, bool) {
	switch s := v.(type) {
	case *string:
		return *s, true
	case string:
		return s, true
	}
	return "", false
}

// in returns the JSON data for the value of ts.
func (w *wire) in(ts *sadl.TypeSpec, v interface{}) interface{} {
	if v == nil {
		return nil
	}
	ref := func(n string) *sadl.TypeSpec { return &sadl.TypeSpec{Type: n} }
	switch ts.Type {
	case "Enum":
		s, _ := text(v)
		return enumText(ts, s)
	case "UnitValue":
		s, _ := text(v)
		p := strings.SplitN(s, " ", 2)
		if len(p) == 2 {
			if u, ok := w.in(ref(ts.Unit), p[1]).(string); ok {
				return p[0] + " " + u
			}
		}
		return s
	case "Array":
		l := []interface{}{}
		for _, x := range v.([]interface{}) {
			l = append(l, w.in(ref(ts.Items), x))
		}
		return l
	case "Map":
		m := obj{}
		for k, x := range v.(obj) {
			key, _ := w.in(ref(ts.Keys), k).(string)
			m[key] = w.in(ref(ts.Items), x)
		}
		return m
	case "Struct", "Union":
		m := obj{}
		for k, x := range v.(obj) {
			t := ref("Any")
			for _, f := range ts.Fields {
				if f.Name == k {
					t = &f.TypeSpec
				}
			}
			for _, f := range ts.Variants {
				if f.Name == k {
					t = &f.TypeSpec
				}
			}
			m[k] = w.in(t, x)
		}
		return m
	}
	if td := w.types[ts.Type]; td != nil {
		return w.in(&td.TypeSpec, v)
	}
	switch x := v.(type) {
	case *string:
		return *x
	case *sadl.Decimal:
		return json.Number(x.String())
	case []interface{}:
		return w.in(&sadl.TypeSpec{Type: "Array", Items: "Any"}, x)
	case obj:
		return w.in(&sadl.TypeSpec{Type: "Struct"}, x)
	}
	return v
}

func normTime(s string) string {
	t, err := time.Parse("2006-01-02T15:04:05.999999999Z07:00", s)
	if err != nil {
		return "unreadable " + s
	}
	return t.UTC().Format("2006-01-02T15:04:05.000000Z")
}

func numText(v interface{}) string {
	switch x := v.(type) {
	case json.Number:
		return x.String()
	case string:
		return "string " + x
	}
	return fmt.Sprint(v)
}

func number(typ, s string) interface{} {
	switch typ {
	case "Int8", "Int16", "Int32", "Int64":
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return "bad integer " + s
		}
		return fmt.Sprint(n)
	case "Float32":
		f, err := strconv.ParseFloat(s, 32)
		if err != nil {
			return "bad float " + s
		}
		return fmt.Sprint(float32(f) + 0)
	case "Float64":
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return "bad float " + s
		}
		return fmt.Sprint(f + 0)
	}
	d, err := sadl.ParseDecimal(s)
	if err != nil {
		return "bad decimal " + s
	}
	if d.Sign() == 0 {
		return "decimal 0"
	}
	return "decimal " + d.Text('g', 70)
}

func empty(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return true
	case string:
		return x == ""
	case []interface{}:
		return len(x) == 0
	}
	return false
}

// norm brings JSON data of type ts into a form in which what the generated code gives back must
// be what it was given. Optional fields with empty strings and collections may be left out.
func (w *wire) norm(ts *sadl.TypeSpec, v interface{}) interface{} {
	if v == nil {
		return nil
	}
	ref := func(n string) *sadl.TypeSpec { return &sadl.TypeSpec{Type: n} }
	switch ts.Type {
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		return number(ts.Type, numText(v))
	case "Timestamp":
		s, ok := v.(string)
		if !ok {
			return fmt.Sprintf("not a string: %v", v)
		}
		return "time " + normTime(s)
	case "UUID":
		s, _ := v.(string)
		return strings.ToLower(s)
	case "UnitValue":
		s, _ := v.(string)
		p := strings.SplitN(s, " ", 2)
		if len(p) != 2 {
			return "bad unit value " + s
		}
		vt := ts.Value
		if td := w.types[vt]; td != nil {
			vt = td.Type
		}
		return fmt.Sprint(number(vt, p[0]), " ", p[1])
	case "Array":
		l, ok := v.([]interface{})
		if !ok {
			return fmt.Sprintf("not an array: %v", v)
		}
		r := []interface{}{}
		for _, x := range l {
			r = append(r, w.norm(ref(ts.Items), x))
		}
		return r
	case "Map":
		m, ok := v.(obj)
		if !ok {
			return fmt.Sprintf("not an object: %v", v)
		}
		r := obj{}
		for k, x := range m {
			key := k
			if n, ok := w.norm(ref(ts.Keys), k).(string); ok {
				key = n
			}
			r[key] = w.norm(ref(ts.Items), x)
		}
		return r
	case "Struct", "Union":
		m, ok := v.(obj)
		if !ok {
			return fmt.Sprintf("not an object: %v", v)
		}
		if ts.Type == "Struct" && len(ts.Fields) == 0 {
			return w.norm(ref("Any"), v)
		}
		r := obj{}
		for k, x := range m {
			known := false
			for _, f := range ts.Fields {
				if f.Name == k {
					known = true
					n := w.norm(&f.TypeSpec, x)
					if xm, ok := x.(obj); f.Required || !(empty(x) || ok && w.openMap(&f.TypeSpec) && len(xm) == 0) {
						r[k] = n
					}
				}
			}
			for _, f := range ts.Variants {
				if f.Name == k {
					known = true
					r[k] = w.norm(&f.TypeSpec, x)
				}
			}
			if !known {
				r[k] = fmt.Sprintf("unexpected %v", x)
			}
		}
		return r
	}
	if td := w.types[ts.Type]; td != nil {
		return w.norm(&td.TypeSpec, v)
	}
	switch x := v.(type) {
	case json.Number:
		return number("Float64", x.String())
	case []interface{}:
		return w.norm(&sadl.TypeSpec{Type: "Array", Items: "Any"}, x)
	case obj:
		r := obj{}
		for k, y := range x {
			r[k] = w.norm(ref("Any"), y)
		}
		return r
	}
	return v
}

// openMap: values are maps in Java
func (w *wire) openMap(ts *sadl.TypeSpec) bool {
	if td := w.types[ts.Type]; td != nil {
		return td.Type == "Map" || td.Type == "Any"
	}
	return ts.Type == "Map" || ts.Type == "Any" || ts.Type == "Struct" && len(ts.Fields) == 0
}

func equal(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func jsonText(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// tree is the JSON data v as it is read from text.
func tree(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	var r interface{}
	if err := dec.Decode(&r); err != nil {
		panic(err)
	}
	return r
}

func parse(c *pbt.C, s string) interface{} {
	dec := json.NewDecoder(strings.NewReader(s))
	dec.UseNumber()
	var r interface{}
	c.Check(dec.Decode(&r) == nil, "not JSON: %s", s)
	return r
}
