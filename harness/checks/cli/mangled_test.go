package cli

import (
	"encoding/json"
	"path/filepath"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"github.com/boynton/sadl/graphql"
	"github.com/boynton/sadl/httptrace"
	"github.com/boynton/sadl/java"
	"github.com/boynton/sadl/openapi"
	"github.com/boynton/sadl/smithy"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
)

// exporters are what the command runs for each of its generators.
var exporters = []struct {
	name string
	run  func(m *sadl.Model, dir string) error
}{
	{"golang", func(m *sadl.Model, dir string) error { return golang.Export(m, dir, settings("server", "client")) }},
	{"java", func(m *sadl.Model, dir string) error { return java.Export(m, dir, settings("server", "client")) }},
	{"openapi", func(m *sadl.Model, dir string) error { return openapi.Export(m, settings()) }},
	{"graphql", func(m *sadl.Model, dir string) error { return graphql.Export(m, settings()) }},
	{"smithy", func(m *sadl.Model, dir string) error {
		return smithy.Export(m, filepath.Join(dir, "s"), settings(), false)
	}},
	{"smithy-ast", func(m *sadl.Model, dir string) error {
		return smithy.Export(m, filepath.Join(dir, "s"), settings(), true)
	}},
	{"http-trace", func(m *sadl.Model, dir string) error { return httptrace.Export(m, settings()) }},
	{"sadl", func(m *sadl.Model, dir string) error { sadl.DecompileSadl(m); return nil }},
}

func settings(on ...string) *sadl.Data {
	d := sadl.NewData()
	for _, k := range on {
		d.Put(k, true)
	}
	return d
}

// mangledModel runs every generator on a model that is damaged at one place: it is refused, when it is
// loaded or by the generator, or it is generated; nothing crashes.
func mangledModel(c *pbt.C) {
	sc := sgen.New(c.T, sgen.Options{MinTypes: 1, MaxTypes: 5, Http: 3, Constraints: true, Kinds: []string{"String", "Int32", "Struct", "Struct", "Enum", "Array", "Map", "Union", "UnitValue", "Decimal"}, FieldScalars: []string{"String", "Int32", "Bool"}, RefKinds: []string{"Struct", "String", "Int32"}})
	b, err := json.Marshal(sc)
	must(err)
	doc := map[string]interface{}{}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	must(d.Decode(&doc))
	at := sgen.Mangle(c.T, doc)
	text := pbt.JSON(doc)
	gen := exporters[rapid.IntRange(0, len(exporters)-1).Draw(c.T, "gen")]
	c.Case("%s: %s\n%s", gen.name, at, text)
	dir, done := pbt.Scratch()
	defer done()
	p := filepath.Join(dir, "m.json")
	write(p, text)
	var m *sadl.Model
	pbt.NoPanic(c, "loading the model", func() { m, err = sadl.LoadModel(p) })
	if err != nil {
		c.Class("not loaded")
		return
	}
	c.NonTrivial(true)
	pbt.NoPanic(c, "the "+gen.name+" generator", func() { pbt.Capture(func() { err = gen.run(m, dir) }) })
	if err == nil {
		c.Class("%s: generated", gen.name)
	} else {
		c.Class("%s: refused", gen.name)
	}
}
