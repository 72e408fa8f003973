// Package lang checks the SADL parser and its inverse.
package lang

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/boynton/sadl"
	"pgregory.net/rapid"
	"verif/harness/sgen"
)

// rend writes a schema as SADL source, with a layout of its own choice.
type rend struct {
	t     *rapid.T
	b     strings.Builder
	noise int  // how often the layout is unusual, in percent
	top   bool // in a type definition, not within a field
}

func (r *rend) bool(label string, pct int) bool { return sgen.Bool(r.t, label, pct) }
func (r *rend) odd(label string) bool           { return r.noise > 0 && sgen.Bool(r.t, label, r.noise) }
func (r *rend) w(format string, args ...interface{}) {
	fmt.Fprintf(&r.b, format, args...)
}

// sp is space that may be left out; must is space that may not.
func (r *rend) sp() string {
	if r.odd("sp") {
		return sgen.Pick(r.t, "space", []string{"", " ", "\t", "  ", " /* x */", "/* two\n lines } */", "/**/"})
	}
	return ""
}

func (r *rend) must() string {
	if r.odd("must") {
		return sgen.Pick(r.t, "space", []string{" ", "\t", "  ", " /* type X */ ", "/* y */"})
	}
	return " "
}

// gap is space before a brace or parenthesis.
func (r *rend) gap() string {
	if r.odd("gap") {
		return r.sp()
	}
	return " "
}

// split cuts a comment in n parts, at words.
func (r *rend) split(comment string, n int) []string {
	parts := make([]string, n)
	for i, w := range strings.Fields(comment) {
		k := 0
		if n > 1 {
			if i == 0 {
				k = rapid.IntRange(0, n-1).Draw(r.t, "part")
			} else if k = last(parts); k < n-1 && r.odd("next") {
				k = rapid.IntRange(k, n-1).Draw(r.t, "part")
			}
		}
		if parts[k] != "" {
			parts[k] += " "
		}
		parts[k] += w
	}
	return parts
}

func last(parts []string) int {
	k := 0
	for i, p := range parts {
		if p != "" {
			k = i
		}
	}
	return k
}

// lead writes comment lines.
func (r *rend) lead(comment, indent string) {
	for r.odd("blank") {
		r.w("%s", sgen.Pick(r.t, "blankline", []string{"\n", "//\n", "  \n", "/* block */\n"}))
	}
	var line []string
	flush := func() {
		if len(line) > 0 {
			r.w("%s//%s%s%s\n", indent, sgen.Pick(r.t, "cspace", []string{"", " ", "  "}), strings.Join(line, " "), sgen.Pick(r.t, "cend", []string{"", "", " "}))
		}
		line = nil
	}
	for _, w := range strings.Fields(comment) {
		line = append(line, w)
		if len(line) > 12 || r.odd("cbreak") {
			flush()
		}
	}
	flush()
}

// trail is a comment at the end of a line.
func (r *rend) trail(comment string) string {
	if comment == "" {
		return ""
	}
	return sgen.Pick(r.t, "tspace", []string{" ", "", "\t"}) + "//" + sgen.Pick(r.t, "tspace2", []string{" ", ""}) + comment
}

// eos ends a statement, which may take a comment.
func (r *rend) eos(comment string) {
	if r.odd("semi") {
		r.w("%s;%s", r.sp(), r.sp())
	}
	r.w("%s\n", r.trail(comment))
}

func (r *rend) str(s string) string {
	q := strconv.Quote(s)
	return q
}

// jstr is a string in a literal.
func (r *rend) jstr(s string) string {
	if r.bool("json", 50) {
		b := &strings.Builder{}
		e := json.NewEncoder(b)
		e.SetEscapeHTML(r.bool("html", 30))
		if err := e.Encode(s); err != nil {
			panic(err)
		}
		return strings.TrimSpace(b.String())
	}
	return strconv.Quote(s)
}

func (r *rend) lit(v interface{}) string {
	nl := func() string {
		if r.odd("nl") {
			return sgen.Pick(r.t, "nl", []string{"\n", "\n  ", " ", "/* c */ "})
		}
		return ""
	}
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return fmt.Sprint(x)
	case *string:
		return r.jstr(*x)
	case string:
		return r.jstr(x)
	case *sadl.Decimal:
		return x.String()
	case []interface{}:
		s := "[" + nl()
		for i, y := range x {
			if i > 0 {
				s += "," + nl()
			}
			s += r.lit(y) + nl()
		}
		return s + "]"
	case map[string]interface{}:
		s := "{" + nl()
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if r.odd("reverse") {
			sort.Sort(sort.Reverse(sort.StringSlice(keys)))
		}
		for i, k := range keys {
			if i > 0 {
				s += "," + nl()
			}
			s += r.jstr(k) + r.sp() + ":" + r.sp() + r.lit(x[k]) + nl()
		}
		return s + "}"
	}
	panic(fmt.Sprintf("literal %T", v))
}

func (r *rend) opt(name string) string {
	if r.odd("case") {
		return sgen.Pick(r.t, "case", []string{strings.ToUpper(name), sadl.Capitalize(name), strings.Replace(name, "size", "Size", 1)})
	}
	return name
}

func (r *rend) eq(name, val string) string {
	return r.opt(name) + r.sp() + "=" + r.sp() + val
}

func (r *rend) annos(m map[string]string) []string {
	var l []string
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if m[k] == "" && r.bool("bare", 60) {
			l = append(l, k)
		} else {
			l = append(l, k+r.sp()+"="+r.sp()+r.str(m[k]))
		}
	}
	return l
}

// paren writes a list of options.
func (r *rend) paren(opts []string) {
	if len(opts) == 0 && !r.odd("noopts") {
		return
	}
	if len(opts) > 1 {
		p := rapid.Permutation(opts).Draw(r.t, "order")
		opts = p
	}
	r.w("%s(%s", r.gap(), r.sp())
	for i, o := range opts {
		if i > 0 {
			r.w("%s", sgen.Pick(r.t, "comma", []string{", ", ",", " , ", " "}))
		}
		r.w("%s", o)
	}
	r.w("%s)", r.sp())
}

func (r *rend) constraints(ts *sadl.TypeSpec) []string {
	var l []string
	if ts.Pattern != "" {
		l = append(l, r.eq("pattern", r.str(ts.Pattern)))
	}
	if ts.Values != nil {
		var q []string
		for _, v := range ts.Values {
			q = append(q, r.str(v))
		}
		sep := sgen.Pick(r.t, "vsep", []string{",", ", ", " ", ",\n    "})
		l = append(l, r.eq("values", "["+r.sp()+strings.Join(q, sep)+r.sp()+"]"))
	}
	if ts.MinSize != nil {
		l = append(l, r.eq("minsize", fmt.Sprint(*ts.MinSize)))
	}
	if ts.MaxSize != nil {
		l = append(l, r.eq("maxsize", fmt.Sprint(*ts.MaxSize)))
	}
	if ts.Min != nil {
		l = append(l, r.eq("min", ts.Min.String()))
	}
	if ts.Max != nil {
		l = append(l, r.eq("max", ts.Max.String()))
	}
	if ts.Reference != "" {
		l = append(l, r.eq("reference", ts.Reference))
	}
	return l
}

// spec writes a type, with its options and those given, and up to the end of the statement.
func (r *rend) spec(ts *sadl.TypeSpec, opts []string, annos map[string]string, comment, indent string) {
	block := false
	switch ts.Type {
	case "Struct":
		block = len(ts.Fields) > 0 || r.odd("empty")
	case "Enum":
		block = true
	case "Union":
		block = true
		if !r.bool("braces", 50) {
			block = false
			for _, v := range ts.Variants {
				if v.Name != v.Type || v.Comment != "" || v.Annotations != nil || len(r.constraints(&v.TypeSpec)) > 0 || v.Items != "" || v.Elements != nil || v.Fields != nil || v.Value != "" || v.Variants != nil {
					block = true
				}
			}
		}
	}
	before, after := annos, map[string]string(nil)
	if block && annos != nil {
		before, after = map[string]string{}, map[string]string{}
		for _, k := range sortedKeys(annos) {
			if r.bool("before", 50) {
				before[k] = annos[k]
			} else {
				after[k] = annos[k]
			}
		}
	}
	if !block {
		r.top = indent == "" && opts == nil
		opts = append(append(opts, r.constraints(ts)...), r.annos(annos)...)
		r.w("%s", r.name(ts))
		r.paren(opts)
		r.eos(comment)
		return
	}
	r.w("%s", ts.Type)
	if len(before) > 0 {
		r.paren(r.annos(before))
	}
	c := r.split(comment, 3)
	r.w("%s{%s", r.gap(), r.trail(c[0]))
	in := indent + "\t"
	one := c[0] == "" && r.odd("oneline")
	switch ts.Type {
	case "Struct":
		if !one || len(ts.Fields) == 0 {
			r.w("\n")
		}
		for _, f := range ts.Fields {
			r.field(f, in)
		}
	case "Union":
		if !one || len(ts.Variants) == 0 {
			r.w("\n")
		}
		for _, v := range ts.Variants {
			r.field(&sadl.StructFieldDef{Name: v.Name, Comment: v.Comment, Annotations: v.Annotations, TypeSpec: v.TypeSpec}, in)
		}
	case "Enum":
		if !one {
			r.w("\n")
		}
		for i, e := range ts.Elements {
			c := r.split(e.Comment, 2)
			if i > 0 || !one || c[0] != "" {
				if !strings.HasSuffix(r.b.String(), "\n") && (c[0] != "" || r.odd("leadnl")) {
					r.w("\n")
				}
				if strings.HasSuffix(r.b.String(), "\n") {
					r.lead(c[0], in)
				}
			}
			r.w("%s%s", in, e.Symbol)
			r.paren(r.annos(e.Annotations))
			if c[1] != "" {
				r.w("%s%s\n", sgen.Pick(r.t, "ecomma", []string{"", "", ",", " ;"}), r.trail(c[1]))
			} else {
				r.w("%s", sgen.Pick(r.t, "esep", []string{"\n", "\n", ",\n", ", ", ";\n", " "}))
			}
		}
		r.w("\n")
	}
	if r.odd("blankend") {
		r.w("\n")
	}
	r.w("%s}", indent)
	opts = append(append(opts, r.constraints(ts)...), r.annos(after)...)
	if len(opts) == 0 {
		r.eos(strings.TrimSpace(c[1] + " " + c[2]))
		return
	}
	r.paren(opts)
	r.eos(strings.TrimSpace(c[1] + " " + c[2]))
}

func sortedKeys(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (r *rend) name(ts *sadl.TypeSpec) string {
	c := func() string { return r.sp() + "," + r.sp() }
	switch ts.Type {
	case "Array":
		if ts.Items == "Any" && r.bool("naked", 40) {
			if r.top {
				return sgen.Pick(r.t, "list", []string{"Array", "List"})
			}
			return "Array"
		}
		return sgen.Pick(r.t, "list", []string{"Array", "List"}) + r.sp() + "<" + r.sp() + ts.Items + r.sp() + ">"
	case "Map":
		if ts.Items == "Any" && ts.Keys == "String" && r.bool("naked", 40) {
			return "Map"
		}
		return "Map" + r.sp() + "<" + r.sp() + ts.Keys + c() + ts.Items + r.sp() + ">"
	case "UnitValue":
		if ts.Value == "Decimal" && ts.Unit == "String" && r.bool("naked", 40) {
			return "UnitValue"
		}
		return "UnitValue" + r.sp() + "<" + r.sp() + ts.Value + c() + ts.Unit + r.sp() + ">"
	case "Union":
		var l []string
		for _, v := range ts.Variants {
			l = append(l, v.Type)
		}
		return "Union" + r.sp() + "<" + r.sp() + strings.Join(l, c()) + r.sp() + ">"
	}
	return ts.Type
}

func (r *rend) fieldOpts(f *sadl.StructFieldDef) []string {
	var opts []string
	if f.Required {
		opts = append(opts, r.opt("required"))
	}
	if f.Default != nil {
		opts = append(opts, r.eq("default", r.lit(f.Default)))
	}
	return opts
}

func (r *rend) field(f *sadl.StructFieldDef, indent string) {
	c := r.split(f.Comment, 2)
	if c[0] != "" || r.odd("leadnl") {
		if !strings.HasSuffix(r.b.String(), "\n") {
			r.w("\n")
		}
		r.lead(c[0], indent)
	}
	r.w("%s%s%s", indent, f.Name, r.must())
	r.spec(&f.TypeSpec, r.fieldOpts(f), f.Annotations, c[1], indent)
	if r.odd("blank") {
		r.w("\n")
	}
}

func (r *rend) typedef(td *sadl.TypeDef) {
	c := r.split(td.Comment, 2)
	r.lead(c[0], "")
	r.w("type%s%s%s", r.must(), td.Name, r.must())
	r.spec(&td.TypeSpec, nil, td.Annotations, c[1], "")
}

func (r *rend) param(p *sadl.HttpParamSpec, indent string, implied bool) {
	f := p.StructFieldDef
	if implied && r.bool("implied", 60) {
		f.Required = false
	}
	c := r.split(f.Comment, 2)
	r.lead(c[0], indent)
	r.w("%s%s%s", indent, f.Name, r.must())
	opts := r.fieldOpts(&f)
	if p.Header != "" {
		opts = append(opts, r.eq("header", r.str(p.Header)))
	}
	r.spec(&f.TypeSpec, opts, f.Annotations, c[1], indent)
}

// derived is the name and resource an action gets if it says neither.
func derived(h *sadl.HttpDef) (string, string) {
	path := strings.SplitN(h.Path, "?", 2)[0]
	segs := strings.Split(path, "/")
	for i := len(segs) - 1; i >= 0; i-- {
		if segs[i] != "" && !strings.Contains(segs[i], "{") {
			return strings.ToLower(h.Method) + strings.ToUpper(segs[i][:1]) + segs[i][1:], segs[i]
		}
	}
	return "", ""
}

func (r *rend) http(h *sadl.HttpDef) {
	c := r.split(h.Comment, 3)
	r.lead(c[0], "")
	m := h.Method
	if r.odd("method") {
		m = strings.ToLower(m)
	}
	r.w("http%s%s%s%s", r.must(), m, r.must(), r.str(h.Path))
	opts := r.annos(h.Annotations)
	if n, res := derived(h); n != h.Name || res != h.Resource {
		opts = append(opts, sgen.Pick(r.t, "action", []string{"action", "operation"})+"="+h.Name)
		if h.Resource != "" {
			opts = append(opts, "resource="+h.Resource)
		}
	}
	r.paren(opts)
	r.w("%s{%s\n", r.gap(), r.trail(c[1]))
	if r.odd("blank") {
		r.w("\n")
	}
	type item struct {
		kind int
		i    int
	}
	// inputs, the expected result and exceptions come in any order
	var items []item
	for i := range h.Inputs {
		items = append(items, item{0, i})
	}
	if h.Expected != nil {
		items = append(items, item{1, 0})
	}
	for i := range h.Exceptions {
		items = append(items, item{2, i})
	}
	if r.odd("mix") && len(items) > 1 {
		items = rapid.Permutation(items).Draw(r.t, "items")
		// keep the order within each kind
		n := [3]int{}
		for k := range items {
			items[k].i = n[items[k].kind]
			n[items[k].kind]++
		}
	}
	for _, it := range items {
		switch it.kind {
		case 0:
			in := h.Inputs[it.i]
			r.param(in, "\t", in.Query == "" && in.Header == "")
		case 1:
			r.expected(h.Expected)
		case 2:
			e := h.Exceptions[it.i]
			c := r.split(e.Comment, 2)
			r.lead(c[0], "\t")
			r.w("\texcept%s", r.must())
			if e.Status != 0 {
				r.w("%d%s", e.Status, r.must())
			}
			r.w("%s", e.Type)
			r.paren(r.annos(e.Annotations))
			r.eos(c[1])
		}
	}
	if r.odd("blank") {
		r.w("\n")
	}
	r.w("}")
	r.eos(c[2])
}

func (r *rend) expected(e *sadl.HttpExpectedSpec) {
	c := r.split(e.Comment, 4)
	r.lead(c[0], "\t")
	r.w("\texpect%s%d", r.must(), e.Status)
	r.paren(r.annos(e.Annotations))
	if len(e.Outputs) == 0 && r.bool("nobraces", 50) {
		r.eos(strings.Join(strings.Fields(c[1]+" "+c[2]+" "+c[3]), " "))
		return
	}
	if len(e.Outputs) == 1 {
		o := e.Outputs[0]
		if o.Name == "entity" && o.Header == "" && o.Comment == "" && o.Annotations == nil && o.Items == "" && o.Elements == nil && o.Fields == nil && o.Value == "" && o.Variants == nil && len(r.constraints(&o.TypeSpec)) == 0 {
			r.w("%s%s", r.must(), o.Type)
			r.eos(strings.Join(strings.Fields(c[1]+" "+c[2]+" "+c[3]), " "))
			return
		}
	}
	r.w("%s{%s\n", r.gap(), r.trail(c[1]))
	for _, o := range e.Outputs {
		r.param(o, "\t\t", o.Header == "" && e.Status != 204 && e.Status != 304)
	}
	r.lead(c[2], "\t\t")
	r.w("\t}")
	r.eos(c[3])
}

func (r *rend) operation(op *sadl.OperationDef) {
	r.lead(op.Comment, "")
	r.w("operation%s%s", r.must(), op.Name)
	r.paren(r.annos(op.Annotations))
	r.w("%s{\n", r.gap())
	secs := []int{0, 1, 2}
	if r.odd("secorder") {
		secs = rapid.Permutation(secs).Draw(r.t, "secs")
	}
	for _, s := range secs {
		switch s {
		case 0:
			if len(op.Inputs) > 0 || r.odd("emptysec") {
				r.w("\tinputs%s{\n", r.gap())
				for _, in := range op.Inputs {
					r.field(&in.StructFieldDef, "\t\t")
				}
				r.w("\t}\n")
			}
		case 1:
			if len(op.Outputs) > 0 || r.odd("emptysec") {
				r.w("\toutputs%s{\n", r.gap())
				for _, o := range op.Outputs {
					r.field(&sadl.StructFieldDef{Name: o.Name, Comment: o.Comment, Annotations: o.Annotations, TypeSpec: o.TypeSpec}, "\t\t")
				}
				r.w("\t}\n")
			}
		case 2:
			if len(op.Exceptions) > 0 || r.odd("emptysec") {
				r.w("\texceptions%s{\n", r.gap())
				for _, e := range op.Exceptions {
					r.w("\t\t%s\n", e)
				}
				r.w("\t}\n")
			}
		}
		if r.odd("blank") {
			r.w("\n")
		}
	}
	r.w("}\n")
}

func (r *rend) example(e *sadl.ExampleDef) {
	r.lead(e.Comment, "")
	r.w("example%s%s", r.must(), e.Target)
	if e.Name != "" {
		r.paren([]string{r.eq("name", e.Name)})
	}
	r.w("%s%s", r.must(), r.lit(e.Example))
	r.eos("")
}

func ident(s string) bool {
	for i, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return s != ""
}

// head writes the directives, with the comment of the schema.
func (r *rend) head(sc *sadl.Schema) {
	var ds []string
	word := func(s string) string {
		if ident(s) && r.bool("bare", 60) {
			return s
		}
		return r.str(s)
	}
	if sc.Name != "" {
		ds = append(ds, "name"+r.must()+word(sc.Name))
	}
	if sc.Namespace != "" {
		n := sc.Namespace
		if r.odd("nsquote") {
			n = r.str(n)
		} else if r.odd("nsspace") {
			n = strings.ReplaceAll(n, ".", r.sp()+"."+r.sp())
		}
		ds = append(ds, "namespace"+r.must()+n)
	}
	if sc.Version != "" {
		n := r.str(sc.Version)
		if !strings.Contains(sc.Version, "-") && r.bool("vbare", 40) {
			n = sc.Version
		}
		ds = append(ds, "version"+r.must()+n)
	}
	if sc.Base != "" {
		ds = append(ds, "base"+r.must()+r.str(sc.Base))
	}
	for _, k := range sortedKeys(sc.Annotations) {
		v := sc.Annotations[k]
		switch {
		case v == "" && r.bool("bare", 60):
			ds = append(ds, k)
		default:
			ds = append(ds, k+sgen.Pick(r.t, "anno", []string{" ", "=", " = "})+r.str(v))
		}
	}
	if len(ds) > 1 && r.odd("dorder") {
		ds = rapid.Permutation(ds).Draw(r.t, "directives")
	}
	c := r.split(sc.Comment, 2*len(ds))
	for i, d := range ds {
		r.lead(c[2*i], "")
		r.w("%s", d)
		if r.odd("semi") && !strings.HasPrefix(d, "x_") {
			// a comment after the semicolon would be of the next element
			r.w("%s", r.trail(c[2*i+1]))
			r.w("\n;\n")
		} else {
			r.w("%s\n", r.trail(c[2*i+1]))
		}
	}
	r.w("\n")
}

// render is the source of the schema.
func render(t *rapid.T, sc *sadl.Schema, noise int) string {
	r := &rend{t: t, noise: noise}
	r.head(sc)
	type item struct {
		kind int
		i    int
	}
	var items []item
	for i := range sc.Types {
		items = append(items, item{0, i})
	}
	for i := range sc.Operations {
		items = append(items, item{1, i})
	}
	for i := range sc.Http {
		items = append(items, item{2, i})
	}
	for i := range sc.Examples {
		items = append(items, item{3, i})
	}
	if r.odd("mix") && len(items) > 1 {
		items = rapid.Permutation(items).Draw(t, "elements")
		n := [4]int{}
		for k := range items {
			items[k].i = n[items[k].kind]
			n[items[k].kind]++
		}
	}
	for _, it := range items {
		switch it.kind {
		case 0:
			r.typedef(sc.Types[it.i])
		case 1:
			r.operation(sc.Operations[it.i])
		case 2:
			r.http(sc.Http[it.i])
		case 3:
			r.example(sc.Examples[it.i])
		}
		if r.bool("between", 70) {
			r.w("\n")
		}
	}
	s := r.b.String()
	if r.odd("noeol") {
		s = strings.TrimRight(s, "\n")
	}
	return s
}
