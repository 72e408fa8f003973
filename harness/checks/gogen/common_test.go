package gogen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"pgregory.net/rapid"
	"verif/harness/gorilla"
	"verif/harness/pbt"
	"verif/harness/sgen"
)

func TestMain(m *testing.M) { pbt.Main(m) }

func dummies(_ ...interface{}) {}

// ---- schemas the generator can express

func options() sgen.Options {
	return sgen.Options{
		Kinds: []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "String", "Timestamp", "UUID",
			"Array", "Map", "Struct", "Struct", "Struct", "Enum", "Union", "Any"},
		InlineKinds: []string{"Array", "Map", "Enum", "Struct"}, FieldAny: true, ItemAny: true, FieldOpts: true, Constraints: true, Comments: true,
		MinTypes: 1, MaxTypes: 7, UnionBase: true, UnionNamed: true, NoReserved: true, Base: true,
	}
}

// goSchema makes the names of a generated schema ones that can live in one Go package: Go
// enum symbols are package-wide constants.
func goSchema(c *pbt.C, o sgen.Options) *sadl.Schema {
	sc := sgen.New(c.T, o)
	sc.Name = sgen.Pick(c.T, "service", []string{"service", "Svc", "petService"})
	n := 0
	enum := func(ts *sadl.TypeSpec) {
		n++
		for i, e := range ts.Elements {
			ne := *e
			ne.Symbol = fmt.Sprintf("%s_%d", e.Symbol, n)
			if sgen.Bool(c.T, "enumValue", 25) {
				if ne.Annotations == nil {
					ne.Annotations = map[string]string{}
				}
				ne.Annotations["x_enumValue"] = fmt.Sprintf([]string{"wire-%d", "on hold/%d", "say \"%d\"", `back\slash%d`, "é%d"}[i%5], i)
			}
			ts.Elements[i] = &ne
		}
	}
	for _, td := range sc.Types {
		if td.Type == "Enum" {
			enum(&td.TypeSpec)
		}
		seen := map[string]bool{}
		for _, v := range td.Variants {
			for seen[upper(v.Name)] || upper(v.Name) == "Variant" {
				v.Name += "V"
			}
			seen[upper(v.Name)] = true
		}
		for _, f := range td.Fields {
			if f.Type == "Enum" {
				enum(&f.TypeSpec)
			}
			noInner(f)
		}
	}
	return sc
}

// noInner replaces enums inside unnamed structs, which have no name to derive a Go name from.
func noInner(f *sadl.StructFieldDef) {
	for _, g := range f.Fields {
		if g.Type == "Enum" {
			g.TypeSpec = sadl.TypeSpec{Type: "String"}
		}
		noInner(g)
	}
}

func newModel(c *pbt.C, sc *sadl.Schema) *sadl.Model {
	m, err := sadl.NewModel(sc)
	c.Check(err == nil, "the model is refused: %v", err)
	return m
}

// generate runs the generator and returns the files it wrote, by path relative to dir.
func generate(c *pbt.C, sc *sadl.Schema, dir string, conf *sadl.Data) (map[string]string, error) {
	m := newModel(c, sgen.Clone(sc))
	var err error
	out := ""
	pbt.NoPanic(c, "the Go generator", func() { out = pbt.Capture(func() { err = golang.Export(m, dir, conf) }) })
	_ = out
	return pbt.Files(dir), err
}

// ---- type checking in process

var fset = token.NewFileSet()
var std = func() types.Importer {
	if g := os.Getenv("VERIF_GOROOT"); g != "" {
		build.Default.GOROOT = g
	}
	build.Default.CgoEnabled = false
	return importer.ForCompiler(fset, "source", nil)
}()
var stubs = map[string]*types.Package{}

type withStubs struct{}

func (w withStubs) Import(path string) (*types.Package, error) {
	src := map[string]string{"github.com/gorilla/mux": gorilla.Mux, "github.com/gorilla/handlers": gorilla.Handlers}[path]
	if src == "" {
		return std.Import(path)
	}
	if p := stubs[path]; p != nil {
		return p, nil
	}
	p, _, _, err := check(path, map[string]string{"a.go": src})
	stubs[path] = p
	return p, err
}

func check(path string, files map[string]string) (*types.Package, *types.Info, []*ast.File, error) {
	var fs []*ast.File
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	fset := token.NewFileSet()
	for _, n := range names {
		f, err := parser.ParseFile(fset, n, files[n], parser.ParseComments)
		if err != nil {
			return nil, nil, nil, err
		}
		fs = append(fs, f)
	}
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: withStubs{}}
	p, err := conf.Check(path, fset, fs, info)
	return p, info, fs, err
}

// ---- the Go type expected for a SADL one, as an expression

type goTypes struct {
	types map[string]*sadl.TypeDef
}

func newGoTypes(sc *sadl.Schema) *goTypes {
	g := &goTypes{types: map[string]*sadl.TypeDef{}}
	for _, td := range sc.Types {
		g.types[td.Name] = td
	}
	return g
}

func (g *goTypes) ref(name string) string { return g.expr(&sadl.TypeSpec{Type: name}, "") }

func (g *goTypes) expr(ts *sadl.TypeSpec, inlineEnum string) string {
	switch ts.Type {
	case "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "String":
		return strings.ToLower(ts.Type)
	case "UUID":
		return "string"
	case "Bytes":
		return "[]byte"
	case "Any":
		return "interface{}"
	case "Decimal", "Timestamp":
		return "*" + ts.Type
	case "Array":
		if ts.Items == "" {
			return "[]interface{}"
		}
		return "[]" + g.ref(ts.Items)
	case "Map":
		if ts.Items == "" {
			return "map[string]interface{}"
		}
		return "map[" + g.ref(ts.Keys) + "]" + g.ref(ts.Items)
	case "Enum":
		return inlineEnum
	case "Struct":
		if len(ts.Fields) == 0 {
			return "map[string]interface{}"
		}
		return "*" + g.fields(ts.Fields, "")
	}
	if td := g.types[ts.Type]; td != nil && (td.Type == "Struct" || td.Type == "Union") {
		return "*" + ts.Type
	}
	return ts.Type
}

func (g *goTypes) fields(l []*sadl.StructFieldDef, owner string) string {
	s := "struct{"
	for _, f := range l {
		s += upper(f.Name) + " " + g.expr(&f.TypeSpec, owner+upper(f.Name)) + " `json:\"" + f.Name
		if !f.Required {
			s += ",omitempty"
		}
		s += "\"`;"
	}
	return s + "}"
}

func upper(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

func same(pkg *types.Package, t types.Type, expr string) string {
	tv, err := types.Eval(token.NewFileSet(), pkg, token.NoPos, expr)
	if err != nil {
		return fmt.Sprintf("%s: %v", expr, err)
	}
	if !types.Identical(types.Unalias(t), types.Unalias(tv.Type)) {
		return fmt.Sprintf("type is %s, want %s", types.TypeString(t, func(*types.Package) string { return "" }), expr)
	}
	return ""
}

// ---- running generated code

// program compiles the files (relative path to content) as one module and returns the binary.
func program(c *pbt.C, dir string, files map[string]string) string {
	if files["go.mod"] == "" {
		files["go.mod"] = "module genprog\n\ngo 1.23\n"
	}
	goroot := os.Getenv("VERIF_GOROOT")
	for n, s := range files {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(s), 0644); err != nil {
			panic(err)
		}
	}
	bin := filepath.Join(dir, "prog.bin")
	goBin := "go"
	if goroot != "" {
		goBin = filepath.Join(goroot, "bin", "go")
	}
	cmd := exec.Command(goBin, "build", "-ldflags=-s -w", "-o", bin, ".")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	out, err := cmd.CombinedOutput()
	c.Check(err == nil, "the generated code does not compile: %v\n%s", err, clip(string(out), 1500))
	return bin
}

// withLibrary lets a program import the library: /repo's module, with the replacements the harness uses.
func withLibrary(files map[string]string) {
	h := os.Getenv("VERIF_HARNESS")
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(h, n))
		if err != nil {
			panic(err)
		}
		files[n] = strings.NewReplacer("module verif/harness", "module genprog", "=> ../", "=> "+filepath.Dir(h)+"/").Replace(string(b))
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

// talk feeds one JSON value per line to a program and returns the lines it answers with, a number of times each.
func talk(c *pbt.C, bin string, lines []interface{}, times int) []map[string]interface{} {
	var in bytes.Buffer
	for _, l := range lines {
		b, err := json.Marshal(l)
		if err != nil {
			panic(err)
		}
		in.Write(b)
		in.WriteByte('\n')
	}
	cmd := exec.Command(bin)
	cmd.Stdin = &in
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	cmd.Env = append(os.Environ(), "TZ=America/Sao_Paulo")
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		c.Check(err == nil, "the program using the generated code fails: %v\n%s", err, clip(errs.String(), 1500))
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		c.Fatalf("the program using the generated code does not end")
	}
	var res []map[string]interface{}
	dec := json.NewDecoder(&out)
	dec.UseNumber()
	for dec.More() {
		var v map[string]interface{}
		if err := dec.Decode(&v); err != nil {
			c.Fatalf("bad answer: %v", err)
		}
		res = append(res, v)
	}
	c.Check(len(res) == times*len(lines), "%d answers to %d questions\n%s", len(res), len(lines), errs.String())
	return res
}

// ---- values on the wire

// wire turns a generated value (see sval) into JSON data as the generated code should accept it,
// and norm into the data it should give back.
type wire struct {
	types map[string]*sadl.TypeDef
}

func enumText(ts *sadl.TypeSpec, sym string) string {
	for _, e := range ts.Elements {
		if e.Symbol == sym {
			if v := e.Annotations["x_enumValue"]; v != "" {
				return v
			}
		}
	}
	return sym
}

func text(v interface{}) (string, bool) {
	switch s := v.(type) {
	case *string:
		return *s, true
	case string:
		return s, true
	}
	return "", false
}

// in returns the JSON data for the value of ts.
func (w *wire) in(ts *sadl.TypeSpec, v interface{}) interface{} {
	switch ts.Type {
	case "Enum":
		s, _ := text(v)
		return enumText(ts, s)
	case "Array":
		l := []interface{}{}
		for _, x := range v.([]interface{}) {
			l = append(l, w.in(&sadl.TypeSpec{Type: ts.Items}, x))
		}
		return l
	case "Map":
		m := map[string]interface{}{}
		for k, x := range v.(map[string]interface{}) {
			key, _ := w.in(&sadl.TypeSpec{Type: ts.Keys}, k).(string)
			m[key] = w.in(&sadl.TypeSpec{Type: ts.Items}, x)
		}
		return m
	case "Struct", "Union":
		m := map[string]interface{}{}
		for k, x := range v.(map[string]interface{}) {
			done := false
			for _, f := range ts.Fields {
				if f.Name == k {
					m[k], done = w.in(&f.TypeSpec, x), true
				}
			}
			for _, f := range ts.Variants {
				if f.Name == k {
					m[k], done = w.in(&f.TypeSpec, x), true
				}
			}
			if !done {
				m[k] = w.in(&sadl.TypeSpec{Type: "Any"}, x)
			}
		}
		return m
	}
	if td := w.types[ts.Type]; td != nil {
		return w.in(&td.TypeSpec, v)
	}
	switch x := v.(type) {
	case *string:
		return *x
	case *sadl.Decimal:
		return json.Number(x.String())
	case []interface{}:
		return w.in(&sadl.TypeSpec{Type: "Array", Items: "Any"}, x)
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, y := range x {
			m[k] = w.in(&sadl.TypeSpec{Type: "Any"}, y)
		}
		return m
	}
	return v
}

var timeLayouts = []string{"2006-01-02T15:04:05.999999999Z07:00", "2006-01-02T15:04:05.999999999Z0700"}

func normTime(s string) string {
	for _, l := range timeLayouts {
		if t, err := time.Parse(l, s); err == nil {
			return t.UTC().Format("2006-01-02T15:04:05.000Z")
		}
	}
	return "unreadable " + s
}

func numText(v interface{}) string {
	switch x := v.(type) {
	case json.Number:
		return x.String()
	case string:
		return x
	}
	return fmt.Sprint(v)
}

func zero(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return true
	case bool:
		return !x
	case string:
		return x == ""
	case json.Number:
		f, err := x.Float64()
		return err == nil && f == 0
	case []interface{}:
		return len(x) == 0
	case map[string]interface{}:
		return len(x) == 0
	}
	return false
}

// byPointer: values of the type are behind a pointer (or interface) in Go, so that only nil is left out.
func (w *wire) byPointer(ts *sadl.TypeSpec) bool {
	switch ts.Type {
	case "Decimal", "Timestamp", "Union", "Any":
		return true
	case "Struct":
		return true
	}
	if td := w.types[ts.Type]; td != nil {
		return w.byPointer(&td.TypeSpec)
	}
	return false
}

// norm brings JSON data of type ts into a normal form in which what the generated code gives
// back must be the same as what it was given.
func (w *wire) norm(ts *sadl.TypeSpec, v interface{}) interface{} {
	if v == nil {
		return nil
	}
	field := func(f *sadl.TypeSpec, required bool, x interface{}, naked bool) (interface{}, bool) {
		n := w.norm(f, x)
		if required {
			return n, true
		}
		if n == nil {
			return nil, false
		}
		if !naked && w.byPointer(f) {
			return n, true
		}
		return n, !zero(x)
	}
	switch ts.Type {
	case "Int8", "Int16", "Int32", "Int64":
		n, err := strconv.ParseInt(numText(v), 10, 64)
		if err != nil {
			return fmt.Sprintf("bad integer %v", v)
		}
		return json.Number(fmt.Sprint(n))
	case "Float32":
		f, err := strconv.ParseFloat(numText(v), 32)
		if err != nil {
			return fmt.Sprintf("bad float %v", v)
		}
		return json.Number(fmt.Sprint(float32(f)))
	case "Float64":
		f, err := strconv.ParseFloat(numText(v), 64)
		if err != nil {
			return fmt.Sprintf("bad float %v", v)
		}
		return json.Number(fmt.Sprint(f))
	case "Decimal":
		d, err := sadl.ParseDecimal(numText(v))
		if err != nil {
			return fmt.Sprintf("bad decimal %v", v)
		}
		return "decimal " + d.Text('g', 74)
	case "UnitValue":
		x, ok := v.(string)
		n, u, two := strings.Cut(x, " ")
		d, err := sadl.ParseDecimal(n)
		if !ok || !two || err != nil {
			return fmt.Sprintf("bad unit value %v", v)
		}
		return "decimal " + d.Text('g', 74) + " of " + u
	case "Timestamp":
		s, ok := v.(string)
		if !ok {
			return fmt.Sprintf("not a string: %v", v)
		}
		return "time " + normTime(s)
	case "Array":
		l, ok := v.([]interface{})
		if !ok {
			return fmt.Sprintf("not an array: %v", v)
		}
		r := []interface{}{}
		for _, x := range l {
			r = append(r, w.norm(&sadl.TypeSpec{Type: ts.Items}, x))
		}
		return r
	case "Map":
		m, ok := v.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("not an object: %v", v)
		}
		r := map[string]interface{}{}
		for k, x := range m {
			r[k] = w.norm(&sadl.TypeSpec{Type: ts.Items}, x)
		}
		return r
	case "Struct":
		m, ok := v.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("not an object: %v", v)
		}
		if len(ts.Fields) == 0 {
			return w.norm(&sadl.TypeSpec{Type: "Any"}, v)
		}
		r := map[string]interface{}{}
		for k, x := range m {
			known := false
			for _, f := range ts.Fields {
				if f.Name == k {
					known = true
					naked := f.Type == "Struct" && len(f.Fields) == 0
					if n, keep := field(&f.TypeSpec, f.Required, x, naked); keep {
						r[k] = n
					}
				}
			}
			if !known {
				r[k] = fmt.Sprintf("unexpected %v", x)
			}
		}
		return r
	case "Union":
		m, ok := v.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("not an object: %v", v)
		}
		r := map[string]interface{}{}
		for k, x := range m {
			known := false
			for _, f := range ts.Variants {
				if f.Name == k {
					known = true
					if n, keep := field(&f.TypeSpec, false, x, false); keep {
						r[k] = n
					}
				}
			}
			if !known {
				r[k] = fmt.Sprintf("unexpected %v", x)
			}
		}
		return r
	}
	if td := w.types[ts.Type]; td != nil {
		return w.norm(&td.TypeSpec, v)
	}
	switch x := v.(type) {
	case json.Number:
		f, _ := x.Float64()
		return json.Number(fmt.Sprint(f))
	case []interface{}:
		return w.norm(&sadl.TypeSpec{Type: "Array", Items: "Any"}, x)
	case map[string]interface{}:
		r := map[string]interface{}{}
		for k, y := range x {
			r[k] = w.norm(&sadl.TypeSpec{Type: "Any"}, y)
		}
		return r
	}
	return v
}

func equal(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func jsonText(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

var _ = rapid.Check

func exportGo(m *sadl.Model, dir string) error {
	var err error
	pbt.Capture(func() { err = golang.Export(m, dir, sadl.NewData()) })
	return err
}
