// Package cli drives the sadl command as a process and compares it with the library.
package cli

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"github.com/boynton/sadl/graphql"
	"github.com/boynton/sadl/httptrace"
	"github.com/boynton/sadl/java"
	"github.com/boynton/sadl/openapi"
	"github.com/boynton/sadl/smithy"
	"github.com/ghodss/yaml"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
)

var binary string

func TestMain(m *testing.M) {
	os.Setenv("DOMAIN", "example.com")   // the Java generator's default package depends on it
	if os.Getenv("VERIF_GOROOT") == "" { // only built, not run
		os.Exit(m.Run())
	}
	binary = filepath.Join(os.TempDir(), "sadl-command")
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_GOROOT"), "bin", "go"), "build", "-o", binary, "github.com/boynton/sadl/cmd/sadl")
	if alt := os.Getenv("VERIF_MODFILE"); alt != "" {
		cmd.Args = append(cmd.Args[:2:2], append([]string{"-modfile=" + alt}, cmd.Args[2:]...)...)
	}
	cmd.Dir = os.Getenv("VERIF_HARNESS")
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Printf("panic: cannot build the sadl command: %v\n%s\n", err, out)
		os.Exit(2)
	}
	pbt.Main(m)
}

type result struct {
	status      int
	out, errout string
	killed      bool
}

// run executes the command in dir, with a home directory of its own.
func run(dir, home string, args ...string) result {
	cmd := exec.Command(binary, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "HOME="+home)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	killed := !timer.Stop()
	r := result{out: out.String(), errout: errs.String(), killed: killed}
	if err != nil {
		r.status = cmd.ProcessState.ExitCode()
		if r.status == 0 {
			r.status = -1
		}
	}
	return r
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func write(path, text string) {
	must(os.MkdirAll(filepath.Dir(path), 0755))
	must(os.WriteFile(path, []byte(text), 0644))
}

// attempt runs library code; a panic counts as an error.
func attempt(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f()
}

func options() sgen.Options {
	return sgen.Options{Comments: true, Annotations: true, FieldOpts: true, FieldDefault: true, Constraints: true,
		InlineKinds: []string{"Array", "Map", "Enum"}, MinTypes: 1, MaxTypes: 4, MaxFields: 4, Http: 2,
		NoReserved: true, UnionNamed: false, MapStringKey: true}
}

var formats = []string{"sadl", "sadl-json", "openapi-json", "openapi-yaml", "swagger", "graphql", "smithy"}

// describe writes a description in the given format, and returns the file's extension.
func describe(c *pbt.C, format string) (text, ext string) {
	if format == "swagger" {
		return swagger(c.T), ".json"
	}
	o := options()
	switch format {
	case "graphql":
		o.Kinds = []string{"Struct", "Enum"}
		o.InlineKinds = []string{"Array"}
	case "smithy":
		o.Kinds = []string{"Struct", "Enum", "String", "Int32"}
		o.InlineKinds = nil
	case "openapi-json", "openapi-yaml":
		o.Annotations = false
	}
	sc := sgen.New(c.T, o)
	m, err := sadl.NewModel(sgen.Clone(sc))
	must(err)
	err = attempt(func() error {
		switch format {
		case "sadl":
			text, ext = sadl.DecompileSadl(m), ".sadl"
		case "sadl-json":
			text, ext = pbt.JSON(sc), ".json"
		case "graphql":
			s, err := graphql.FromSadl(m, sadl.NewData())
			text, ext = s, ".graphql"
			return err
		case "smithy":
			ast, err := smithy.FromSADL(m, "example.things")
			if err == nil {
				text, ext = sadl.Pretty(ast), ".json"
			}
			return err
		default:
			doc, err := openapi.NewGenerator(m, sadl.NewData()).ExportToOAS3()
			if err != nil {
				return err
			}
			text, ext = sadl.Pretty(doc), ".json"
			if format == "openapi-yaml" {
				b, err := yaml.JSONToYAML([]byte(text))
				must(err)
				text, ext = string(b), ".yaml"
			}
		}
		return nil
	})
	if err != nil {
		c.T.Skip("no description: " + err.Error())
	}
	return text, ext
}

func swagger(t *rapid.T) string {
	defs := map[string]interface{}{}
	var names []string
	for i := rapid.IntRange(1, 3).Draw(t, "defs"); i > 0; i-- {
		n := fmt.Sprintf("Thing%d", i)
		names = append(names, n)
		props := map[string]interface{}{}
		for j := rapid.IntRange(1, 3).Draw(t, "props"); j > 0; j-- {
			props[fmt.Sprintf("f%d", j)] = map[string]interface{}{"type": sgen.Pick(t, "type", []string{"string", "integer", "boolean", "number"})}
		}
		defs[n] = map[string]interface{}{"type": "object", "properties": props}
	}
	paths := map[string]interface{}{}
	for i := rapid.IntRange(0, 2).Draw(t, "paths"); i > 0; i-- {
		paths[fmt.Sprintf("/p%d/{id}", i)] = map[string]interface{}{"get": map[string]interface{}{
			"operationId": fmt.Sprintf("getP%d", i),
			"parameters":  []interface{}{map[string]interface{}{"name": "id", "in": "path", "required": true, "type": "string"}},
			"responses": map[string]interface{}{"200": map[string]interface{}{"description": "ok",
				"schema": map[string]interface{}{"$ref": "#/definitions/" + sgen.Pick(t, "ref", names)}}},
		}}
	}
	return pbt.JSON(map[string]interface{}{"swagger": "2.0", "info": map[string]interface{}{"title": "An API", "version": "1.0"},
		"definitions": defs, "paths": paths})
}

// load is the import the command should do.
func load(format, path string, conf *sadl.Data) (m *sadl.Model, err error) {
	err = attempt(func() (err error) {
		switch format {
		case "sadl":
			m, err = sadl.ParseSadlFile(path, conf)
		case "sadl-json":
			m, err = sadl.LoadModel(path)
		case "openapi-json", "openapi-yaml":
			m, err = openapi.Import([]string{path}, conf)
		case "swagger":
			m, err = openapi.ImportSwagger([]string{path}, conf)
		case "graphql":
			m, err = graphql.Import([]string{path}, conf)
		case "smithy":
			m, err = smithy.Import([]string{path}, conf)
		}
		return err
	})
	return m, err
}

var generators = []string{"", "sadl", "json", "sadl-ast", "openapi", "graphql", "http-trace", "smithy", "smithy-ast",
	"java", "java-model", "java-server", "java-client", "go", "go-model", "go-server", "go-client"}

func section(gen string) string {
	switch {
	case strings.HasPrefix(gen, "java"):
		return "java"
	case strings.HasPrefix(gen, "go"):
		return "go"
	case gen == "":
		return "sadl"
	}
	return gen
}

// produce is the output the command should give.
func produce(m *sadl.Model, gen, dir string, conf *sadl.Data) (out string, err error) {
	out = pbt.Capture(func() {
		err = attempt(func() error {
			switch gen {
			case "", "sadl":
				fmt.Println(sadl.DecompileSadl(m))
			case "json", "sadl-ast":
				fmt.Println(sadl.Pretty(m))
			case "openapi":
				return openapi.Export(m, conf)
			case "graphql":
				return graphql.Export(m, conf)
			case "http-trace":
				return httptrace.Export(m, conf)
			case "smithy", "smithy-ast":
				return smithy.Export(m, dir, conf, gen == "smithy-ast")
			}
			if i := strings.Index(gen, "-"); i > 0 && (gen[i:] == "-server" || gen[i:] == "-client") {
				conf.Put(gen[i+1:], true)
			}
			switch section(gen) {
			case "java":
				return java.Export(m, dir, conf)
			case "go":
				return golang.Export(m, dir, conf)
			}
			return nil
		})
	})
	return out, err
}

// clean removes what legitimately differs between two runs: the trace's date and the random port or path.
var dates = regexp.MustCompile(`(?m)^(.*Date: ).*$`)

func clean(s string, dirs ...string) string {
	for _, d := range dirs {
		s = strings.Replace(s, d, "@DIR@", -1)
	}
	return dates.ReplaceAllString(s, "$1-")
}

func setting(t *rapid.T, gen string) (key string, val interface{}, arg string) {
	bools := map[string][]string{
		"java": {"server", "client", "maven", "lombok", "getters", "immutable", "instants", "example-implementation"},
		"go":   {"server", "client", "runtime"},

		"smithy": {"useInputOutput"}, "smithy-ast": {"useInputOutput"},
	}[gen]
	strs := map[string][][2]string{
		"java":       {{"header", "// a header"}, {"header", "// k=v, and more = more"}, {"package", "com.x.y"}, {"source", "src"}},
		"go":         {{"header", "// a header"}, {"header", "// k=v, and more = more"}, {"package", "pkg2"}},
		"smithy":     {{"namespace", "other.ns"}, {"name", "TheOther"}},
		"smithy-ast": {{"namespace", "other.ns"}, {"name", "TheOther"}},
	}[gen]
	switch {
	case len(bools) > 0 && (len(strs) == 0 || rapid.Bool().Draw(t, "bool")):
		key = sgen.Pick(t, "key", bools)
		switch rapid.IntRange(0, 2).Draw(t, "form") {
		case 0:
			return key, true, key
		case 1:
			return key, "true", key + "=true"
		default:
			return key, "false", key + "=false"
		}
	case len(strs) > 0:
		kv := strs[rapid.IntRange(0, len(strs)-1).Draw(t, "kv")]
		return kv[0], kv[1], kv[0] + "=" + kv[1]
	}
	return "anything", "x=y", "anything=x=y"
}

func TestP31(t *testing.T) {
	pbt.Run(t, "mangled", pbt.Opt{Quick: 5000, Rule: "the damaged model is loaded and given to a generator"}, mangledModel)
	pbt.Run(t, "convert", pbt.Opt{Quick: 700, Rule: "the conversion succeeds and is between different formats"}, func(c *pbt.C) {
		dir, done := pbt.Scratch()
		defer done()
		home := filepath.Join(dir, "home")
		must(os.MkdirAll(home, 0755))
		format := sgen.Pick(c.T, "format", formats)
		text, ext := describe(c, format)
		base := sgen.Pick(c.T, "base", []string{"api", "my_api", "api.v1", "Some-API"})
		rel := filepath.Join(sgen.Pick(c.T, "below", []string{"", "", "v1", "some/where.d"}), base+ext)
		file := filepath.Join(dir, "in", rel)
		write(file, text)
		gen := sgen.Pick(c.T, "gen", generators)

		var args []string
		conf := sadl.NewData()
		name, ns := "", ""
		if sgen.Bool(c.T, "n", 30) {
			name = "chosenName"
			args = append(args, "-n", name)
			conf.Put("name", name)
		}
		if sgen.Bool(c.T, "ns", 30) {
			ns = "chosen.ns"
			args = append(args, "-ns", ns)
			conf.Put("namespace", ns)
		}
		if sgen.Bool(c.T, "b", 8) {
			args = append(args, "-b", "/based")
			conf.Put("base", "/based")
		}
		if format == "smithy" && sgen.Bool(c.T, "s", 15) {
			s := "example.things#" + sgen.Pick(c.T, "service", []string{"TheApi", "Nothing", "Service"})
			args = append(args, "-s", s)
			conf.Put("service", s)
		}
		if gen != "" {
			args = append(args, "-g", gen)
		}
		genConf := map[string]interface{}{}
		confText := ""
		// settings of the configuration file, then of the command line, which win
		if sgen.Bool(c.T, "config", 40) {
			doc := map[string]interface{}{"java": map[string]interface{}{}, "unrelated": map[string]interface{}{"header": "// not this one"}}
			sec := map[string]interface{}{}
			for i := rapid.IntRange(0, 2).Draw(c.T, "settings"); i > 0; i-- {
				k, v, _ := setting(c.T, section(gen))
				if gen == "graphql" {
					scalars := map[string]interface{}{}
					for _, t := range []string{"Int64", "Decimal", "Timestamp", "UUID"} {
						if rapid.Bool().Draw(c.T, t) {
							scalars[t] = sgen.Pick(c.T, "scalar", []string{"Long", "DateTime", "ID"})
						}
					}
					k, v = "custom-scalars", scalars
				}
				if s, ok := v.(string); ok && (s == "true" || s == "false") {
					v = s == "true"
				}
				sec[k], genConf[k] = v, v
			}
			doc[section(gen)] = sec
			b, err := json.Marshal(doc)
			must(err)
			switch rapid.IntRange(0, 2).Draw(c.T, "where") {
			case 0:
				y, err := yaml.JSONToYAML(b)
				must(err)
				write(filepath.Join(home, ".sadl-config.yaml"), string(y))
				confText = "~/.sadl-config.yaml: " + string(y)
			case 1:
				y, err := yaml.JSONToYAML(b)
				must(err)
				write(filepath.Join(dir, "conf.yaml"), string(y))
				write(filepath.Join(home, ".sadl-config.yaml"), section(gen)+":\n  header: // not this one\n  namespace: not.this\n")
				args = append(args, "-c", filepath.Join(dir, "conf.yaml"))
				confText = "conf.yaml: " + string(y)
			default:
				write(filepath.Join(dir, "conf.json"), string(b))
				args = append(args, "-c", filepath.Join(dir, "conf.json"))
				confText = "conf.json: " + string(b)
			}
		}
		for i := rapid.IntRange(0, 2).Draw(c.T, "xs"); i > 0; i-- {
			k, v, a := setting(c.T, section(gen))
			genConf[k] = v
			args = append(args, "-x", a)
		}
		force := sgen.Bool(c.T, "force", 30)
		if force {
			args = append(args, "-f")
		}
		genConf["force-overwrite"] = force
		outDir, refDir := filepath.Join(dir, "out"), filepath.Join(dir, "ref")
		args = append(args, "-o", outDir)
		pre := sgen.Bool(c.T, "existing", 25)
		typ := map[string]string{"sadl-json": "sadl", "openapi-json": "openapi", "openapi-yaml": "openapi"}[format]
		if typ == "" {
			typ = format
		}
		other := ""
		if sgen.Bool(c.T, "type", 25) {
			// only files of this type are read
			args = append(args, "-t", typ)
			if rapid.Bool().Draw(c.T, "other") {
				other = sgen.Pick(c.T, "otherformat", formats)
			}
		}
		asDir := other == "" && sgen.Bool(c.T, "dir", 25)
		switch {
		case other != "" && !strings.HasPrefix(other, strings.Split(format, "-")[0]):
			text2, ext2 := describe(c, other)
			f2 := filepath.Join(dir, "in", "other"+ext2)
			write(f2, text2)
			if rapid.Bool().Draw(c.T, "first") {
				args = append(args, f2, file)
			} else {
				args = append(args, file, f2)
			}
		case asDir:
			write(filepath.Join(dir, "in", "README.md"), "name nothing\n")
			write(filepath.Join(dir, "in", "sub", "data.json"), `{"some": "data"}`)
			args = append(args, filepath.Join(dir, "in"))
		default:
			args = append(args, file)
		}
		c.Case("%s\n--- %s%s\n%s\n%s", strings.Replace(strings.Join(args, " "), dir, "", -1), base, ext, text, confText)
		c.Class("%s to %s", format, gen)

		// what it should do
		m, err := load(format, file, conf)
		want := ""
		if err == nil {
			if name != "" {
				m.Name = name
			}
			if ns != "" {
				m.Namespace = ns
			}
			// an existing file in the way
			if pre {
				probe := filepath.Join(dir, "probe")
				must(os.MkdirAll(probe, 0755))
				m2, err2 := load(format, file, sadl.NewData())
				if err2 == nil {
					m2.Name, m2.Namespace = m.Name, m.Namespace
					produce(m2, gen, probe, sadl.AsData(copyOf(genConf)))
				}
				for _, n := range pbt.SortedKeys(pbt.Files(probe)) {
					if rapid.Bool().Draw(c.T, "keep") {
						write(filepath.Join(outDir, n), "precious")
						write(filepath.Join(refDir, n), "precious")
					}
				}
			}
			want, err = produce(m, gen, refDir, sadl.AsData(copyOf(genConf)))
		}
		got := run(dir, home, args...)
		c.Check(!got.killed, "the command does not end")
		if err != nil {
			c.Check(got.status != 0, "the conversion fails (%v), but the command succeeds and prints\n%s", err, clip(got.out))
			c.Check(strings.TrimSpace(got.out+got.errout) != "", "the command fails without a message (%v)", err)
			return
		}
		c.NonTrivial(typ != section(gen))
		c.Check(got.status == 0, "the command exits with %d: %s%s", got.status, clip(got.out), clip(got.errout))
		g, w := clean(got.out, outDir), clean(want, refDir)
		c.Check(g == w, "the command prints\n%s\nand not\n%s", diff(g, w), "")
		a, b := pbt.Files(outDir), pbt.Files(refDir)
		c.Check(strings.Join(pbt.SortedKeys(a), "\n") == strings.Join(pbt.SortedKeys(b), "\n"), "the command writes the files %v and not %v", pbt.SortedKeys(a), pbt.SortedKeys(b))
		for n := range a {
			c.Check(a[n] == b[n], "the command writes %s\n%s", n, diff(a[n], b[n]))
		}
		c.Check(pbt.Files(filepath.Join(dir, "in"))[rel] == text, "the command changes its input")
	})
	pbt.Run(t, "info", pbt.Opt{Quick: 100, Rule: "every case"}, func(c *pbt.C) {
		// asked about itself, or for nothing, the command converts nothing
		dir, done := pbt.Scratch()
		defer done()
		home, outDir := filepath.Join(dir, "home"), filepath.Join(dir, "out")
		must(os.MkdirAll(home, 0755))
		file := filepath.Join(dir, "api.sadl")
		write(file, "name api\ntype Thing Struct {\n  id String\n}\n")
		var args []string
		if rapid.Bool().Draw(c.T, "gen") {
			args = append(args, "-g", sgen.Pick(c.T, "generator", []string{"go", "java", "sadl", "nothing"}))
		}
		args = append(args, "-o", outDir)
		what := sgen.Pick(c.T, "what", []string{"-v", "-h", "", "-nothing"})
		if what != "" {
			i := 2 * rapid.IntRange(0, len(args)/2).Draw(c.T, "at")
			args = append(args[:i:i], append([]string{what}, args[i:]...)...)
			if rapid.Bool().Draw(c.T, "files") {
				args = append(args, file)
			}
		}
		c.Case("%s", strings.Replace(strings.Join(args, " "), dir, "", -1))
		c.Class("%s", what)
		c.NonTrivial(true)
		got := run(dir, home, args...)
		c.Check(!got.killed, "the command does not end")
		c.Check(len(pbt.Files(outDir)) == 0, "it writes %v", pbt.SortedKeys(pbt.Files(outDir)))
		switch what {
		case "-v":
			c.Check(got.status == 0 && strings.TrimSpace(got.out) == "SADL "+sadl.Version, "-v: %d %q %q", got.status, clip(got.out), clip(got.errout))
		case "":
			c.Check(got.status == 0, "without arguments: %d", got.status)
			fallthrough
		default:
			c.Check(got.out == "", "it prints %q", clip(got.out))
			for _, w := range map[string][]string{"-h": append(generators[1:2:2], "graphql", "java", "http-trace", ".smithy", ".yaml")}[what] {
				c.Check(strings.Contains(got.errout, w), "the help does not mention %s: %s", w, got.errout)
			}
			if what != "-h" {
				for _, w := range []string{"Usage", "-g", "-o", "-x", "-ns"} {
					c.Check(strings.Contains(got.errout, w), "the usage does not mention %s: %s", w, got.errout)
				}
			}
			c.Check(what == "" || got.status != 0 || what == "-h", "%s: it exits with 0", what)
		}
	})
	pbt.Run(t, "refused", pbt.Opt{Quick: 400, Rule: "every case"}, func(c *pbt.C) {
		dir, done := pbt.Scratch()
		defer done()
		home, outDir := filepath.Join(dir, "home"), filepath.Join(dir, "out")
		must(os.MkdirAll(home, 0755))
		format := sgen.Pick(c.T, "format", formats)
		text, ext := describe(c, format)
		file := filepath.Join(dir, "api"+ext)
		write(file, text)
		if _, err := load(format, file, sadl.NewData()); err != nil {
			c.T.Skip("no valid input: " + err.Error())
		}
		gen := sgen.Pick(c.T, "gen", []string{"sadl", "json", "go", "java"})
		args := []string{"-g", gen, "-o", outDir}
		files := []string{file}
		why := sgen.Pick(c.T, "why", []string{"generator", "missing", "extension", "other-json", "corrupt", "mixed", "two", "config", "config-missing", "empty-dir", "type", "version"})
		switch why {
		case "generator":
			args = append(args, "-g", sgen.Pick(c.T, "generator", []string{"golang", "SADL", "java-", "swagger", "oas", "Go", "none"}))
		case "missing":
			files = []string{filepath.Join(dir, "nothing"+sgen.Pick(c.T, "ext", []string{".sadl", ".json", ".yaml", ".graphql", ".txt", ""}))}
		case "extension":
			files = []string{filepath.Join(dir, "api"+sgen.Pick(c.T, "ext", []string{".txt", ".SADL", ".yml", ""}))}
			write(files[0], text)
		case "other-json":
			files = []string{filepath.Join(dir, "other"+sgen.Pick(c.T, "ext", []string{".json", ".yaml"}))}
			write(files[0], sgen.Pick(c.T, "json", []string{"{}", "[]", "null", `"sadl"`, `{"some": "data"}`, `{"openapi": "3.0.0"}`, `{"swagger": "1.2"}`, "{", ""}))
		case "corrupt":
			switch ext {
			case ".json":
				text = text[:len(strings.TrimSpace(text))-1]
			case ".yaml":
				text = "a: [\n" + text
			default:
				text += "\n}{ type\n"
			}
			write(file, text)
		case "mixed":
			other := sgen.Pick(c.T, "otherformat", formats)
			if strings.Split(other, "-")[0] == strings.Split(format, "-")[0] {
				c.T.Skip("same format")
			}
			text2, ext2 := describe(c, other)
			files = append(files, filepath.Join(dir, "other"+ext2))
			write(files[1], text2)
		case "two":
			if format == "smithy" {
				c.T.Skip("several smithy files make one model")
			}
			files = append(files, filepath.Join(dir, "second"+ext))
			write(files[1], text)
		case "config":
			f := filepath.Join(dir, "conf"+sgen.Pick(c.T, "cext", []string{".yaml", ".json"}))
			write(f, "{ a: [\n")
			args = append(args, "-c", f)
		case "config-missing":
			args = append(args, "-c", filepath.Join(dir, "no-conf.yaml"))
		case "empty-dir":
			files = []string{filepath.Join(dir, "empty")}
			write(filepath.Join(dir, "empty", "notes.txt"), "nothing")
		case "type":
			typ := sgen.Pick(c.T, "type", []string{"sadl", "openapi", "swagger", "graphql", "smithy"})
			if strings.HasPrefix(format, typ) {
				c.T.Skip("the right type")
			}
			args = append(args, "-t", typ)
		case "version":
			if format != "sadl-json" {
				c.T.Skip("only for SADL in JSON")
			}
			write(file, strings.Replace(text, `"sadl": "`, `"sidl": "`, 1))
		}
		c.NonTrivial(true)
		c.Class("%s", why)
		args = append(args, files...)
		c.Case("%s: %s\n--- %s\n%s", why, strings.Replace(strings.Join(args, " "), dir, "", -1), filepath.Base(file), text)
		got := run(dir, home, args...)
		c.Check(!got.killed, "the command does not end")
		c.Check(got.status != 0, "%s: the command succeeds and prints\n%s", why, clip(got.out))
		c.Check(!strings.Contains(got.errout, "goroutine 1 ["), "%s: the command crashes\n%s", why, clip(got.errout))
		c.Check(strings.TrimSpace(got.out+got.errout) != "", "%s: the command fails without a message", why)
		if l := pbt.SortedKeys(pbt.Files(outDir)); len(l) > 0 {
			c.Fatalf("%s: the command fails but has written %v", why, l)
		}
	})
}

func copyOf(m map[string]interface{}) map[string]interface{} {
	r := map[string]interface{}{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// diff shows the first place where two texts differ.
func diff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		a, b := "<end>", "<end>"
		if i < len(g) {
			a = g[i]
		}
		if i < len(w) {
			b = w[i]
		}
		if a != b {
			return fmt.Sprintf("line %d is %q and not %q", i+1, clip(a), clip(b))
		}
	}
	return "the same"
}
