package lang

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/boynton/sadl"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
)

func TestMain(m *testing.M) { pbt.Main(m) }

func parse(c *pbt.C, src string) (m *sadl.Model, err error) {
	pbt.NoPanic(c, "parsing", func() {
		pbt.Capture(func() { m, err = sadl.ParseSadlString(src, sadl.NewData()) })
	})
	c.Check((m == nil) != (err == nil), "parsing gives a model: %v, an error: %v", m != nil, err)
	return
}

func elements(sc *sadl.Schema) int {
	return len(sc.Types) + len(sc.Http) + len(sc.Operations) + len(sc.Examples)
}

func differ(c *pbt.C, what, got, want, src string) {
	if got != want {
		a, b := strings.Split(got, "\n"), strings.Split(want, "\n")
		for i := range a {
			if i >= len(b) || a[i] != b[i] {
				lo := i - 8
				if lo < 0 {
					lo = 0
				}
				cut := func(l []string) string {
					hi := i + 5
					if hi > len(l) {
						hi = len(l)
					}
					if lo > hi {
						return ""
					}
					return strings.Join(l[lo:hi], "\n")
				}
				c.Fatalf("%s: got\n%s\nwant\n%s\nfor the source\n%s", what, cut(a), cut(b), src)
			}
		}
		c.Fatalf("%s: got\n%s\nwant\n%s\nfor the source\n%s", what, got, want, src)
	}
}

func TestP12(t *testing.T) {
	extensions(t)
	pbt.Run(t, "source", pbt.Opt{Quick: 6000, Rule: "three or more elements"}, func(c *pbt.C) {
		sc := schema(c)
		src := render(c.T, sc, sgen0(c))
		c.Case("%s", src)
		c.NonTrivial(elements(sc) >= 3)
		m, err := parse(c, src)
		c.Check(err == nil, "valid source is refused: %v\nfor the source\n%s", err, src)
		differ(c, "the model is not what the source says", flat(&m.Schema), flat(sc), src)
		for _, td := range sc.Types {
			c.Check(m.FindType(td.Name) != nil, "type %s is not found", td.Name)
		}
		for _, h := range sc.Http {
			c.Check(m.FindHttp(h.Name) != nil, "action %s is not found", h.Name)
		}
	})
	pbt.Run(t, "together", pbt.Opt{Quick: 60, Rule: "every case"}, func(c *pbt.C) {
		c.NonTrivial(true)
		var ops []func() string
		var all []string
		for i := 0; i < 6; i++ {
			src := render(c.T, schema(c), sgen0(c))
			all = append(all, src)
			ops = append(ops, func() string {
				m, err := sadl.ParseSadlString(src, sadl.NewData())
				if err != nil {
					return err.Error()
				}
				return flat(&m.Schema)
			})
		}
		c.Case("%s", strings.Join(all, "\n----\n"))
		pbt.Capture(func() { pbt.Together(c, "parsing", ops) })
	})
	pbt.Run(t, "files", pbt.Opt{Quick: 800, Rule: "every case"}, func(c *pbt.C) {
		sc := schema(c)
		dir, clean := pbt.Scratch()
		defer clean()
		main := filepath.Join(dir, "some_model.sadl")
		conf := sadl.NewData()
		want := *sc
		if sgen.Bool(c.T, "noname", 50) {
			sc.Name = ""
			sc.Comment = ""
			want.Comment = ""
			want.Name = "some_model"
		}
		if sgen.Bool(c.T, "nons", 30) {
			sc.Namespace = ""
			if sc.Name == "" {
				sc.Comment = ""
			}
			want.Namespace = ""
		}
		if sgen.Bool(c.T, "confname", 40) {
			conf.Put("name", "given")
			want.Name = "given"
		}
		if sgen.Bool(c.T, "confns", 40) {
			conf.Put("namespace", "given.ns")
			want.Namespace = "given.ns"
		}
		// some elements are in another file
		var inc sadl.Schema
		inc.Name = "included"
		k := rapid.IntRange(0, len(sc.Types)).Draw(c.T, "ntypes")
		mark := func(a *map[string]string, file string) {
			m := map[string]string{"x_include": file}
			for k, v := range *a {
				m[k] = v
			}
			*a = m
		}
		file := filepath.Join(dir, "other.sadl")
		if sgen.Bool(c.T, "include", 60) {
			inc.Types, sc.Types = sc.Types[:k], sc.Types[k:]
			kh := rapid.IntRange(0, len(sc.Http)).Draw(c.T, "nhttp")
			inc.Http, sc.Http = sc.Http[:kh], sc.Http[kh:]
			ko := rapid.IntRange(0, len(sc.Operations)).Draw(c.T, "nops")
			inc.Operations, sc.Operations = sc.Operations[:ko], sc.Operations[ko:]
			ke := rapid.IntRange(0, len(sc.Examples)).Draw(c.T, "nex")
			inc.Examples, sc.Examples = sc.Examples[:ke], sc.Examples[ke:]
			src := render(c.T, &inc, 5)
			c.Check(os.WriteFile(file, []byte(src), 0644) == nil, "cannot write")
			text := render(c.T, sc, 5)
			// after the directives
			text = fmt.Sprintf("include %q\n", file) + text
			c.Check(os.WriteFile(main, []byte(text), 0644) == nil, "cannot write")
			c.Case("%s\n---- other.sadl\n%s", strings.ReplaceAll(text, dir, "DIR"), src)
			want.Types = nil
			for _, td := range inc.Types {
				x := *td
				mark(&x.Annotations, file)
				want.Types = append(want.Types, &x)
			}
			want.Types = append(want.Types, sc.Types...)
			want.Http = nil
			for _, h := range inc.Http {
				x := *h
				mark(&x.Annotations, file)
				want.Http = append(want.Http, &x)
			}
			want.Http = append(want.Http, sc.Http...)
			want.Operations = nil
			for _, h := range inc.Operations {
				x := *h
				mark(&x.Annotations, file)
				want.Operations = append(want.Operations, &x)
			}
			want.Operations = append(want.Operations, sc.Operations...)
		} else {
			text := render(c.T, sc, 5)
			c.Case("%s", text)
			c.Check(os.WriteFile(main, []byte(text), 0644) == nil, "cannot write")
		}
		c.NonTrivial(true)
		var m *sadl.Model
		var err error
		pbt.NoPanic(c, "parsing", func() { pbt.Capture(func() { m, err = sadl.ParseSadlFile(main, conf) }) })
		c.Check(err == nil && m != nil, "valid source is refused: %v", err)
		differ(c, "the model is not what the source says", flat(&m.Schema), flat(&want), "")
	})
}

// sgen0 draws how unusual the layout is.
func sgen0(c *pbt.C) int {
	return rapid.SampledFrom([]int{0, 3, 10, 30}).Draw(c.T, "noise")
}

func TestP13(t *testing.T) {
	pbt.Run(t, "models", pbt.Opt{Quick: 6000, Rule: "three or more elements"}, func(c *pbt.C) {
		sc := schema(c)
		if sgen.Bool(c.T, "breaks", 20) {
			breakComments(c, sc)
		}
		if sgen.Bool(c.T, "oddname", 20) {
			sc.Name = sgen.Pick(c.T, "oddname", []string{"my-api", "two words", "9lives", `q"q`, "a.b"})
		}
		if sgen.Bool(c.T, "oddns", 10) {
			sc.Namespace = sgen.Pick(c.T, "oddns", []string{"my-api", "com.my-api.x", "a b"})
		}
		c.CaseJSON(sc)
		c.NonTrivial(elements(sc) >= 3)
		roundTrip(c, sc)
	})
	pbt.Run(t, "decompiled together", pbt.Opt{Quick: 60, Rule: "every case"}, func(c *pbt.C) {
		c.NonTrivial(true)
		var ops []func() string
		var all []string
		for i := 0; i < 6; i++ {
			sc := schema(c)
			m, err := sadl.NewModel(sc)
			c.Check(err == nil, "%v", err)
			all = append(all, pbt.JSON(sc))
			ops = append(ops, func() string { return sadl.DecompileSadl(m) })
		}
		c.Case("%s", strings.Join(all, "\n----\n"))
		pbt.Capture(func() { pbt.Together(c, "decompiling", ops) })
	})
	pbt.Run(t, "accepted", pbt.Opt{Quick: 4000, Rule: "the changed source is accepted"}, func(c *pbt.C) {
		sc := schema(c)
		src := mutate(c, render(c.T, sc, sgen0(c)))
		c.Case("%s", src)
		m, err := parse(c, src)
		if err != nil {
			return
		}
		c.NonTrivial(true)
		roundTrip(c, &m.Schema)
	})
}

func roundTrip(c *pbt.C, sc *sadl.Schema) {
	m, err := sadl.NewModel(sc)
	c.Check(err == nil, "the model is refused: %v", err)
	before := pbt.JSON(sc)
	var src, again string
	pbt.NoPanic(c, "writing", func() { pbt.Capture(func() { src = sadl.DecompileSadl(m); again = sadl.DecompileSadl(m) }) })
	c.Check(pbt.JSON(&m.Schema) == before, "the model is changed")
	c.Check(src == again, "the source differs from run to run:\n%s\n----\n%s", src, again)
	m2, err := parse(c, src)
	c.Check(err == nil, "the source is refused: %v\n%s", err, src)
	differ(c, "the source does not say what the model was", flat(&m2.Schema), flat(sc), src)
	// from here on, nothing changes
	pbt.NoPanic(c, "writing", func() { pbt.Capture(func() { src = sadl.DecompileSadl(m2) }) })
	m3, err := parse(c, src)
	c.Check(err == nil, "the source is refused: %v\n%s", err, src)
	pbt.NoPanic(c, "writing", func() { pbt.Capture(func() { again = sadl.DecompileSadl(m3) }) })
	c.Check(src == again, "the source changes:\n%s\n----\n%s", src, again)
}

// breakComments puts line breaks in comments.
func breakComments(c *pbt.C, sc *sadl.Schema) {
	br := func(s *string) {
		if *s != "" && sgen.Bool(c.T, "break", 50) {
			l := strings.Fields(*s)
			*s = strings.Join(l[:len(l)/2], " ") + sgen.Pick(c.T, "br", []string{"\n", "\n\n", " \n  "}) + strings.Join(l[len(l)/2:], " ")
		}
	}
	var spec func(ts *sadl.TypeSpec)
	spec = func(ts *sadl.TypeSpec) {
		for _, f := range ts.Fields {
			br(&f.Comment)
			spec(&f.TypeSpec)
		}
		for _, f := range ts.Variants {
			br(&f.Comment)
			spec(&f.TypeSpec)
		}
		for _, f := range ts.Elements {
			br(&f.Comment)
		}
	}
	br(&sc.Comment)
	for _, td := range sc.Types {
		br(&td.Comment)
		spec(&td.TypeSpec)
	}
	for _, h := range sc.Http {
		br(&h.Comment)
		for _, p := range h.Inputs {
			br(&p.Comment)
		}
		if h.Expected != nil {
			br(&h.Expected.Comment)
			for _, p := range h.Expected.Outputs {
				br(&p.Comment)
			}
		}
		for _, e := range h.Exceptions {
			br(&e.Comment)
		}
	}
	for _, o := range sc.Operations {
		br(&o.Comment)
		for _, p := range o.Inputs {
			br(&p.Comment)
		}
		for _, p := range o.Outputs {
			br(&p.Comment)
		}
	}
	for _, e := range sc.Examples {
		br(&e.Comment)
	}
}

// widgets is an extension of the language: lines that start with a word of its own.
type widgets struct {
	word      string
	got       []string
	validated int
	bad       bool
	sawTypes  int
}

func (w *widgets) Name() string        { return w.word }
func (w *widgets) Result() interface{} { return w.got }
func (w *widgets) Parse(p *sadl.Parser) error {
	comment := p.CurrentComment()
	name, err := p.ExpectIdentifier()
	if err != nil {
		return err
	}
	opts, err := p.ParseOptions(w.word, []string{"minsize"})
	if err != nil {
		return err
	}
	text, err := p.ExpectString()
	if err != nil {
		return err
	}
	comment, err = p.EndOfStatement(comment)
	size := int64(-1)
	if opts.MinSize != nil {
		size = *opts.MinSize
	}
	w.got = append(w.got, fmt.Sprintf("%s %q %d %q", name, text, size, comment))
	return err
}
func (w *widgets) Validate(p *sadl.Parser) error {
	w.validated++
	w.sawTypes = len(p.Model().Types)
	if w.bad {
		return fmt.Errorf("a bad %s", w.word)
	}
	return nil
}

func extensions(t *testing.T) {
	pbt.Run(t, "extensions", pbt.Opt{Quick: 800, Rule: "two or more lines of the extensions"}, func(c *pbt.C) {
		sc := schema(c)
		src := render(c.T, sc, 5)
		var exts []sadl.Extension
		var ws []*widgets
		for _, w := range []string{"widget", "resource", "struct"}[:rapid.IntRange(1, 3).Draw(c.T, "nexts")] {
			x := &widgets{word: w, bad: sgen.Bool(c.T, "bad", 10)}
			ws = append(ws, x)
			exts = append(exts, x)
		}
		want := map[string][]string{}
		bad := false
		total := 0
		extra := ""
		for n := rapid.IntRange(0, 6).Draw(c.T, "nlines"); n > 0; n-- {
			w := ws[rapid.IntRange(0, len(ws)-1).Draw(c.T, "ext")]
			com := sgen.Pick(c.T, "com", []string{"", "one", "two words"})
			after := sgen.Pick(c.T, "after", []string{"", "after"})
			text := sgen.Pick(c.T, "text", []string{"", "x", `q"q`, "// no"})
			if com != "" {
				extra += "// " + com + "\n"
			}
			extra += w.word + " Abc"
			size := -1
			if sgen.Bool(c.T, "size", 40) {
				size = n
				extra += fmt.Sprintf(" (minsize=%d)", n)
			}
			extra += fmt.Sprintf(" %q", text)
			if after != "" {
				extra += " // " + after
			}
			extra += "\n"
			want[w.word] = append(want[w.word], fmt.Sprintf("Abc %q %d %q", text, size, strings.TrimSpace(com+" "+after)))
			total++
		}
		for _, w := range ws {
			bad = bad || w.bad
		}
		if sgen.Bool(c.T, "first", 50) {
			src = extra + src
		} else {
			src = src + "\n" + extra
		}
		c.Case("%s", src)
		c.NonTrivial(total >= 2)
		var m *sadl.Model
		var err error
		pbt.NoPanic(c, "parsing", func() {
			pbt.Capture(func() { m, err = sadl.ParseSadlString(src, sadl.NewData(), exts...) })
		})
		if bad {
			c.Check(err != nil && m == nil, "what an extension refuses is accepted")
			return
		}
		c.Check(err == nil, "refused: %v\n%s", err, src)
		differ(c, "the model is not what the source says", flat(&m.Schema), flat(sc), src)
		for _, w := range ws {
			c.Check(w.validated == 1 && w.sawTypes == len(sc.Types), "%s is validated %d times, with %d types", w.word, w.validated, w.sawTypes)
			got, _ := m.Extensions[w.word].([]string)
			c.Check(fmt.Sprint(got) == fmt.Sprint(want[w.word]), "%s: got %v, want %v", w.word, got, want[w.word])
		}
		if total > 0 {
			_, err := parse(c, src)
			c.Check(err != nil, "the lines of an extension are accepted without it")
		}
	})
}
