package files

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"text/template"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"github.com/boynton/sadl/java"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
)

func TestMain(m *testing.M) { pbt.Main(m) }

var texts = rapid.OneOf(
	rapid.SampledFrom([]string{"", "\n", "package x\n", "a", "{{.}}", "é\x00\xff", "// c\r\n"}),
	rapid.StringN(0, 40, -1),
	rapid.Custom(func(t *rapid.T) string {
		// larger than the buffers in between
		return strings.Repeat(rapid.SampledFrom([]string{"x", "line of text\n", "é"}).Draw(t, "unit"), rapid.IntRange(1, 9000).Draw(t, "times"))
	}),
)

func brief(s string) string {
	if len(s) > 30 {
		return fmt.Sprintf("%q... (%d bytes)", s[:30], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func isDir(p string) bool {
	fi, err := os.Stat(p)
	return err == nil && fi.IsDir()
}

func TestP11(t *testing.T) {
	pbt.Run(t, "history", pbt.Opt{Quick: 3000, Rule: "a file is written to twice, or writing fails"}, func(c *pbt.C) {
		dir, clean := pbt.Scratch()
		defer clean()
		must(os.MkdirAll(filepath.Join(dir, "sub", "deep"), 0755))
		must(os.MkdirAll(filepath.Join(dir, "aDir"), 0755))
		conf := sadl.NewData()
		gen := &sadl.Generator{Config: conf, OutDir: dir}
		disk := map[string]string{} // the model
		if rapid.Bool().Draw(c.T, "pre") {
			must(os.WriteFile(filepath.Join(dir, "a.txt"), []byte("precious"), 0644))
			disk["a.txt"] = "precious"
		}
		force, begun, failed, nontrivial := false, false, false, false
		buf := ""
		var log []string
		names := []string{"a.txt", "b.go", "sub/c", "sub/deep/d.txt"}
		writes := map[string]int{}
		n := rapid.IntRange(1, 14).Draw(c.T, "steps")
		for i := 0; i < n; i++ {
			switch op := rapid.IntRange(0, 9).Draw(c.T, "op"); op {
			case 0, 1, 2, 3:
				name := sgen.Pick(c.T, "name", names)
				text := texts.Draw(c.T, "text")
				log = append(log, fmt.Sprintf("write %s %s", name, brief(text)))
				c.Case("%s", strings.Join(log, "\n"))
				if !failed {
					writes[name]++
					nontrivial = nontrivial || writes[name] > 1
					if _, have := disk[name]; !have || force {
						disk[name] = text
					}
				} else {
					break // what is written after a failure is not specified
				}
				pbt.NoPanic(c, "WriteFile", func() { pbt.Capture(func() { gen.WriteFile(filepath.Join(dir, name), text) }) })
				c.Check(gen.Err == nil, "writing fails: %v", gen.Err)
			case 4:
				force = rapid.Bool().Draw(c.T, "force")
				log = append(log, fmt.Sprintf("force-overwrite %v", force))
				conf.Put("force-overwrite", force)
			case 5:
				log = append(log, "begin")
				gen.Begin()
				if !failed {
					begun, buf = true, ""
				}
			case 6:
				text := texts.Draw(c.T, "text")
				log = append(log, "emit "+brief(text))
				gen.Emit(text)
				if begun && !failed {
					buf += text
				}
			case 7:
				if !begun || failed {
					continue
				}
				a, b := sgen.Pick(c.T, "ta", []string{"x", "", "é", "<&>"}), rapid.IntRange(0, 3).Draw(c.T, "tb")
				log = append(log, fmt.Sprintf("template %q %d", a, b))
				pbt.NoPanic(c, "EmitTemplate", func() {
					gen.EmitTemplate("t", "[{{range .L}}{{f .}};{{end}}{{.A}}]", map[string]interface{}{"A": a, "L": make([]int, b)},
						template.FuncMap{"f": func(n int) string { return "i" }})
				})
				buf += "[" + strings.Repeat("i;", b) + a + "]"
				c.Check(gen.Err == nil, "the template fails: %v", gen.Err)
			case 8:
				log = append(log, "end")
				c.Case("%s", strings.Join(log, "\n"))
				got := gen.End()
				if begun && !failed {
					c.Check(got == buf, "the text is %s, want %s", brief(got), brief(buf))
				}
			case 9:
				if failed || !sgen.Bool(c.T, "fault?", 35) {
					continue
				}
				failed, nontrivial = true, true
				switch k := rapid.IntRange(0, 4).Draw(c.T, "fault"); k {
				case 0:
					log = append(log, "write below a missing directory")
					pbt.Capture(func() { gen.WriteFile(filepath.Join(dir, "missing", "x"), "text") })
					c.Case("%s", strings.Join(log, "\n"))
					c.Check(gen.Err != nil || exists(filepath.Join(dir, "missing", "x")), "no error")
					os.RemoveAll(filepath.Join(dir, "missing"))
				case 1:
					conf.Put("force-overwrite", true)
					log = append(log, "write over a directory")
					pbt.Capture(func() { gen.WriteFile(filepath.Join(dir, "aDir"), "text") })
					c.Case("%s", strings.Join(log, "\n"))
					c.Check(gen.Err != nil, "no error")
					c.Check(isDir(filepath.Join(dir, "aDir")), "the directory is gone")
				case 2:
					conf.Put("force-overwrite", true)
					size := rapid.SampledFrom([]int{1, 100, 4095, 4096, 4097, 70000}).Draw(c.T, "size")
					full := filepath.Join(dir, "full")
					must(os.Symlink("/dev/full", full))
					log = append(log, fmt.Sprintf("write %d bytes to a full device", size))
					text := strings.Repeat("x", size)
					pbt.Capture(func() { gen.WriteFile(full, text) })
					c.Case("%s", strings.Join(log, "\n"))
					if gen.Err == nil {
						fi, err := os.Lstat(full)
						ok := err == nil && fi.Mode().IsRegular()
						if ok {
							b, _ := os.ReadFile(full)
							ok = string(b) == text
						}
						c.Check(ok, "no error although the text was lost")
					}
					os.Remove(full)
				case 3:
					log = append(log, "a template that does not parse")
					pbt.Capture(func() { gen.EmitTemplate("t", "{{range}", nil, nil) })
					c.Case("%s", strings.Join(log, "\n"))
					c.Check(gen.Err != nil, "no error")
				case 4:
					log = append(log, "a template that fails")
					pbt.Capture(func() { gen.EmitTemplate("t", "{{.A.B}}", map[string]interface{}{"A": 1}, nil) })
					c.Case("%s", strings.Join(log, "\n"))
					c.Check(gen.Err != nil, "no error")
				}
				err := gen.Err
				pbt.Capture(func() {
					gen.Emit("more")
					gen.EmitTemplate("t", "more", nil, nil)
					gen.Begin()
					gen.End()
				})
				if err != nil {
					c.Check(gen.Err != nil, "the error is forgotten")
				}
			}
			c.Case("%s", strings.Join(log, "\n"))
			onDisk := pbt.Files(dir)
			c.Check(len(onDisk) == len(disk), "files are %v, want %v", pbt.SortedKeys(onDisk), pbt.SortedKeys(disk))
			for f, want := range disk {
				c.Check(onDisk[f] == want, "%s holds %s, want %s", f, brief(onDisk[f]), brief(want))
			}
			for _, f := range names {
				_, want := disk[f]
				c.Check(gen.FileExists(filepath.Join(dir, f)) == want, "FileExists(%s) is not %v", f, want)
			}
		}
		c.NonTrivial(nontrivial)
	})
	pbt.Run(t, "settings", pbt.Opt{Quick: 2000, Rule: "the key is set"}, func(c *pbt.C) {
		conf := sadl.NewData()
		gen := &sadl.Generator{Config: conf}
		keys := []string{"alpha", "beta", "force-overwrite"}
		set := map[string]interface{}{}
		for _, k := range keys {
			switch rapid.IntRange(0, 3).Draw(c.T, "kind") {
			case 0:
				set[k] = texts.Draw(c.T, "text")
			case 1:
				set[k] = rapid.Bool().Draw(c.T, "bool")
			case 2:
				set[k] = rapid.IntRange(-1000, 1000).Draw(c.T, "int")
			}
			if v, ok := set[k]; ok {
				conf.Put(k, v)
			}
		}
		c.Case("%v", set)
		k := sgen.Pick(c.T, "key", append(keys, "absent"))
		v, have := set[k]
		c.NonTrivial(have)
		defS, defB, defI := texts.Draw(c.T, "ds"), rapid.Bool().Draw(c.T, "db"), rapid.IntRange(-9, 9).Draw(c.T, "di")
		if !have {
			c.Check(gen.GetConfigString(k, defS) == defS, "string setting %s is not the default", k)
			c.Check(gen.GetConfigBool(k, defB) == defB, "bool setting %s is not the default", k)
			c.Check(gen.GetConfigInt(k, defI) == defI, "int setting %s is not the default", k)
			return
		}
		switch x := v.(type) {
		case string:
			c.Check(gen.GetConfigString(k, defS) == x, "setting %s is %q, want %q", k, gen.GetConfigString(k, defS), x)
		case bool:
			c.Check(gen.GetConfigBool(k, defB) == x, "setting %s is not %v", k, x)
		case int:
			c.Check(gen.GetConfigInt(k, defI) == x, "setting %s is %d, want %d", k, gen.GetConfigInt(k, defI), x)
		}
	})
	pbt.Run(t, "exporters", pbt.Opt{Quick: 600, Rule: "a generated file was there before"}, func(c *pbt.C) {
		o := sgen.Options{Kinds: []string{"String", "Int32", "Struct", "Struct", "Enum", "Array"}, Constraints: true, Comments: true, MinTypes: 1, MaxTypes: 4, Http: 2,
			NoReserved: true, HttpBodyKind: []string{"Struct"}, FieldScalars: []string{"String", "Int32", "Bool"}, RefKinds: []string{"Struct", "String", "Int32"}}
		sc := sgen.New(c.T, o)
		sc.Name = "svc"
		sc.Namespace = sgen.Pick(c.T, "ns", []string{"", "a.b", "foo"})
		for i, td := range sc.Types {
			for _, e := range td.Elements {
				e.Symbol = fmt.Sprintf("%s_%d", e.Symbol, i)
			}
		}
		for _, h := range sc.Http {
			for _, in := range h.Inputs {
				if in.Path || in.Query != "" || in.Header != "" {
					in.Type = "String"
				}
			}
			for _, p := range h.Expected.Outputs {
				if p.Header != "" {
					p.Type = "String"
				}
			}
		}
		lang := sgen.Pick(c.T, "language", []string{"go", "java"})
		export := golang.Export
		if lang == "java" {
			export = java.Export
		}
		server := rapid.Bool().Draw(c.T, "server")
		run := func(out string, force bool) error {
			m, err := sadl.NewModel(sgen.Clone(sc))
			c.Check(err == nil, "the model is refused: %v", err)
			conf := sadl.NewData()
			conf.Put("server", server)
			conf.Put("force-overwrite", force)
			pbt.NoPanic(c, "the "+lang+" generator", func() { pbt.Capture(func() { err = export(m, out, conf) }) })
			return err
		}
		c.Case("%s server=%v\n%s", lang, server, pbt.JSON(sc))
		c.Class("%s", lang)
		root, clean := pbt.Scratch()
		defer clean()
		fresh := filepath.Join(root, "fresh")
		must(os.Mkdir(fresh, 0755))
		c.Check(run(fresh, false) == nil, "generating fails")
		want := pbt.Files(fresh)
		c.Check(len(want) > 0, "nothing is generated")
		// the same again where some of the files are already there, and others besides
		out := filepath.Join(root, "out")
		before := map[string]string{}
		put := func(rel, text string) {
			p := filepath.Join(out, rel)
			must(os.MkdirAll(filepath.Dir(p), 0755))
			must(os.WriteFile(p, []byte(text), 0644))
			before[rel] = text
		}
		must(os.MkdirAll(out, 0755))
		put("notes.txt", "mine")
		some := false
		for _, f := range pbt.SortedKeys(want) {
			if rapid.Bool().Draw(c.T, "there") {
				put(f, "edited by hand: "+f)
				some = true
			}
		}
		c.NonTrivial(some)
		force := rapid.Bool().Draw(c.T, "force")
		c.Case("%s server=%v force=%v there=%v\n%s", lang, server, force, pbt.SortedKeys(before), pbt.JSON(sc))
		c.Check(run(out, force) == nil, "generating fails")
		got := pbt.Files(out)
		for f, text := range want {
			w := text
			if old, there := before[f]; there && !force {
				w = old
			}
			c.Check(got[f] == w, "%s holds %s, want %s", f, brief(got[f]), brief(w))
		}
		c.Check(got["notes.txt"] == "mine", "a file that is not generated has changed")
		for f := range got {
			_, a := want[f]
			_, b := before[f]
			c.Check(a || b, "unexpected file %s", f)
		}
		all := pbt.Files(root)
		c.Check(len(all) == len(want)+len(got), "files appear outside the output directory: %v", pbt.SortedKeys(all))
	})
}

func exists(p string) bool {
	_, err := os.Stat(p)
	return err == nil
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
