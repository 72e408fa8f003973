// Package sgen generates random SADL schemas, type specifications and values.
package sgen

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/boynton/sadl"
	"pgregory.net/rapid"
)

var Numeric = []string{"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal"}
var Ints = []string{"Int8", "Int16", "Int32", "Int64"}

// Scalars are the base types that stand alone without parameters.
var Scalars = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID"}

func Has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// Options selects the part of the language a check draws from.
type Options struct {
	Kinds        []string // typedef kinds (nil: all)
	FieldScalars []string // base types allowed for fields/items (nil: Scalars)
	InlineKinds  []string // anonymous field types allowed: Array, Map, Enum, UnitValue, Struct (nil: none)
	ItemAny      bool     // items of type Any
	FieldAny     bool     // naked Any / Struct / Array / Map fields
	FieldOpts    bool     // constraints on fields
	FieldDefault bool
	Constraints  bool // constraints on typedefs
	Comments     bool
	LongComments bool
	Annotations  bool
	MinTypes     int
	MaxTypes     int
	MaxFields    int
	MinFields    int
	Http         int // max number of http actions
	Operations   int
	Examples     int
	Base         bool
	Refs         bool // reference="..." options
	Methods      []string
	// restrictions that particular outputs need
	ItemKinds    []string // what Items may refer to: "scalar", "named" (nil: both)
	MapStringKey bool     // only String keys
	UnionBase    bool     // union variants may be base types
	UnionNamed   bool     // union variants may carry names different from their types
	NoUnionSelf  bool
	HttpBodyKind []string // nil: named types of any kind and scalars
	NoReserved   bool     // avoid Go/Java reserved words and predeclared names in identifiers
	Resource     bool
	RefKinds     []string // kinds of named types that may be referred to (nil: all)
}

type S struct {
	T      *rapid.T
	O      Options
	Schema *sadl.Schema
	names  []string
	kind   map[string]string
}

func Bool(t *rapid.T, label string, pct int) bool {
	return rapid.IntRange(0, 99).Draw(t, label) < pct
}

func Pick(t *rapid.T, label string, l []string) string {
	return l[rapid.IntRange(0, len(l)-1).Draw(t, label)]
}

var typeWords = []string{"Item", "Pet", "Order", "Error", "Foo", "Bar", "Name", "Zip", "URLSet", "Account", "A", "Bz", "Money", "Node", "NotFound", "OrderList", "Ticket", "Quux9", "List2", "My_Type"}
var fieldWords = []string{"id", "name", "size", "kind", "tags", "value", "firstName", "x", "y2", "count", "parent", "createdAt", "url", "is_ok", "total", "aB", "body", "data", "note", "owner"}
var symWords = []string{"RED", "GREEN", "BLUE", "one", "Two", "N_A", "ON", "OFF", "NORTH", "X1", "alpha", "beta", "Gamma", "DELTA", "low", "MID"}
var commentWords = strings.Fields("the quick brown fox jumps over a lazy dog while its owner writes specifications for an API; values are kept, always (mostly) up-to-date & checked: 100% sure! see item #4 or RFC-3339 \"quoted\" it's a\\b C:\\users */ /* // `code` <b> $v {0} %s é \"\"\" ''")

func Comment(t *rapid.T, long bool) string {
	max := 8
	if long {
		max = 60
	}
	n := rapid.IntRange(1, max).Draw(t, "nwords")
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, Pick(t, "word", commentWords))
	}
	return strings.Join(w, " ")
}

func (s *S) comment(pct int) string {
	if !s.O.Comments || !Bool(s.T, "hasComment", pct) {
		return ""
	}
	return Comment(s.T, s.O.LongComments && Bool(s.T, "longComment", 30))
}

var annoKeys = []string{"x_tag", "x_foo", "x_meta2", "x_Note"}
var annoVals = []string{"", "yes", "some text", "a,b,c", "1", "k=v", "say \"hi\"", `a\b`, "é <b>&"}

func (s *S) annos(pct int) map[string]string {
	if !s.O.Annotations || !Bool(s.T, "hasAnnos", pct) {
		return nil
	}
	m := map[string]string{}
	n := rapid.IntRange(1, 3).Draw(s.T, "nannos")
	for i := 0; i < n; i++ {
		m[Pick(s.T, "akey", annoKeys)] = Pick(s.T, "aval", annoVals)
	}
	return m
}

func uniq(used map[string]bool, base string) string {
	n := base
	for i := 2; used[n]; i++ {
		n = fmt.Sprintf("%s%d", base, i)
	}
	used[n] = true
	return n
}

func i64(n int64) *int64 { return &n }

func (s *S) sizes(ts *sadl.TypeSpec) {
	lo := int64(-1)
	if Bool(s.T, "minsize?", 40) {
		lo = rapid.Int64Range(0, 5).Draw(s.T, "minsize")
		ts.MinSize = i64(lo)
	}
	if Bool(s.T, "maxsize?", 40) {
		if lo < 0 {
			lo = 0
		}
		ts.MaxSize = i64(lo + rapid.Int64Range(0, 40).Draw(s.T, "maxsize"))
	}
}

// Pattern describes a regular expression with strings inside and outside of it.
type Pattern struct {
	Re      string
	In, Out []string
}

var Patterns = []Pattern{
	{"^[a-z]+$", []string{"a", "abc", "zz"}, []string{"", "A", "a1", "ab c"}},
	{"^[A-Z][a-z0-9]*$", []string{"A", "Ab9"}, []string{"", "a", "AB"}},
	{"^[0-9]{3}$", []string{"123", "000"}, []string{"", "12", "1234", "12a"}},
	{"^(foo|bar)?$", []string{"", "foo", "bar"}, []string{"foobar", "x"}},
	{"^[a-zA-Z_][a-zA-Z_0-9]*$", []string{"x", "a_9", "_"}, []string{"", "9a", "a-b"}},
	{`^\d{2,3}$`, []string{"12", "999"}, []string{"", "1", "1234", "d"}},
	{`^[^"\\]+$`, []string{"a", "x y/z", "'"}, []string{"", "\"", "a\\b"}},
	{`^v\d+\.\d+(<a>&b)?$`, []string{"v1.2", "v10.0<a>&b"}, []string{"", "v1x2", "v1.2<a>"}},
}

func DecInt(n int64) *sadl.Decimal {
	d, err := sadl.ParseDecimal(fmt.Sprint(n))
	if err != nil {
		panic(err)
	}
	return d
}

func Dec(s string) *sadl.Decimal {
	d, err := sadl.ParseDecimal(s)
	if err != nil {
		panic(err)
	}
	return d
}

// numText draws a number literal suitable for the given numeric type.
func NumText(t *rapid.T, typ string) string {
	if Has(Ints, typ) {
		switch rapid.IntRange(0, 3).Draw(t, "nsize") {
		case 0:
			return fmt.Sprint(rapid.Int64Range(-10, 10).Draw(t, "n"))
		case 1:
			return fmt.Sprint(rapid.Int64Range(-128, 127).Draw(t, "n"))
		default:
			lo, hi := IntRange(typ)
			return fmt.Sprint(rapid.Int64Range(lo, hi).Draw(t, "n"))
		}
	}
	switch rapid.IntRange(0, 3).Draw(t, "fsize") {
	case 0:
		return fmt.Sprint(rapid.Int64Range(-10, 10).Draw(t, "n"))
	case 1:
		return fmt.Sprintf("%d.%d", rapid.IntRange(0, 1000).Draw(t, "n"), rapid.IntRange(0, 9999).Draw(t, "frac"))
	case 2:
		return fmt.Sprintf("-%d.%02d", rapid.IntRange(0, 99999).Draw(t, "n"), rapid.IntRange(0, 99).Draw(t, "frac"))
	default:
		return fmt.Sprintf("%d", rapid.Int64Range(-1<<53, 1<<53).Draw(t, "n"))
	}
}

func IntRange(typ string) (int64, int64) {
	switch typ {
	case "Int8":
		return -128, 127
	case "Int16":
		return -32768, 32767
	case "Int32":
		return -1 << 31, 1<<31 - 1
	}
	return -1 << 63, 1<<63 - 1
}

func Rat(d *sadl.Decimal) *big.Rat {
	r, _ := d.AsBigFloat().Rat(nil)
	return r
}

func (s *S) minmax(ts *sadl.TypeSpec) {
	if Bool(s.T, "min?", 40) {
		ts.Min = Dec(NumText(s.T, ts.Type))
	}
	if Bool(s.T, "max?", 40) {
		ts.Max = Dec(NumText(s.T, ts.Type))
	}
	if ts.Min != nil && ts.Max != nil && Rat(ts.Min).Cmp(Rat(ts.Max)) > 0 {
		ts.Min, ts.Max = ts.Max, ts.Min
	}
}

func (s *S) stringOpts(ts *sadl.TypeSpec) {
	switch rapid.IntRange(0, 4).Draw(s.T, "strkind") {
	case 0:
	case 1:
		s.sizes(ts)
	case 2:
		ts.Pattern = Patterns[rapid.IntRange(0, len(Patterns)-1).Draw(s.T, "pattern")].Re
		if Bool(s.T, "pat+size", 20) {
			s.sizes(ts)
		}
	case 3:
		n := rapid.IntRange(1, 8).Draw(s.T, "nvalues")
		used := map[string]bool{}
		for i := 0; i < n; i++ {
			v := Pick(s.T, "value", []string{"red", "green", "blue", "two words", "A", "b-c", "9", "x/y", "say \"hi\"", `back\slash`, "é", "a,b", "<t>&", "$x{0}%s"})
			if !used[v] {
				used[v] = true
				ts.Values = append(ts.Values, v)
			}
		}
	}
}

func (s *S) constrain(ts *sadl.TypeSpec) {
	switch ts.Type {
	case "String":
		s.stringOpts(ts)
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		s.minmax(ts)
	case "Bytes", "Array", "Map":
		s.sizes(ts)
	}
}

func (s *S) enumElements() []*sadl.EnumElementDef {
	n := rapid.IntRange(1, 6).Draw(s.T, "nelements")
	used := map[string]bool{}
	var r []*sadl.EnumElementDef
	for i := 0; i < n; i++ {
		r = append(r, &sadl.EnumElementDef{
			Symbol:      uniq(used, Pick(s.T, "sym", symWords)),
			Comment:     s.comment(25),
			Annotations: s.annos(15),
		})
	}
	return r
}

func (s *S) scalars() []string {
	if s.O.FieldScalars != nil {
		return s.O.FieldScalars
	}
	return Scalars
}

// refs are the named types a reference may go to.
func (s *S) refs() []string {
	if s.O.RefKinds == nil {
		return s.names
	}
	var r []string
	for _, n := range s.names {
		if Has(s.O.RefKinds, s.kind[n]) {
			r = append(r, n)
		}
	}
	return r
}

// TypeRef draws the name of a base scalar or of a named type.
func (s *S) typeRef(label string, kinds []string) string {
	refs := s.refs()
	named := len(refs) > 0 && (kinds == nil || Has(kinds, "named"))
	scalar := kinds == nil || Has(kinds, "scalar")
	if named && (!scalar || Bool(s.T, label+"-named", 55)) {
		return Pick(s.T, label, refs)
	}
	return Pick(s.T, label, s.scalars())
}

func (s *S) itemType() string {
	if s.O.ItemAny && Bool(s.T, "anyitems", 12) {
		return "Any"
	}
	return s.typeRef("items", s.O.ItemKinds)
}

func (s *S) keyType() string {
	if s.O.MapStringKey || Bool(s.T, "strkey", 60) {
		return "String"
	}
	var l []string
	for _, n := range s.names {
		if s.kind[n] == "String" || s.kind[n] == "Enum" || s.kind[n] == "UUID" {
			l = append(l, n)
		}
	}
	if len(l) == 0 {
		return "String"
	}
	return Pick(s.T, "keytype", l)
}

func (s *S) unitParams(ts *sadl.TypeSpec) {
	ts.Value = Pick(s.T, "uvalue", []string{"Decimal", "Int32", "Float64", "Int64"})
	ts.Unit = "String"
	var l []string
	for _, n := range s.names {
		if s.kind[n] == "Enum" || s.kind[n] == "String" {
			l = append(l, n)
		}
	}
	if len(l) > 0 && Bool(s.T, "unitNamed", 60) {
		ts.Unit = Pick(s.T, "unit", l)
	}
}

// FieldSpec draws the type of a field.
func (s *S) fieldSpec(depth int) sadl.TypeSpec {
	ts := sadl.TypeSpec{}
	if len(s.O.InlineKinds) > 0 && Bool(s.T, "inline", 30) {
		k := Pick(s.T, "inlineKind", s.O.InlineKinds)
		if k == "Struct" && depth > 1 {
			k = s.O.InlineKinds[0]
		}
		ts.Type = k
		switch k {
		case "Array":
			ts.Items = s.itemType()
		case "Map":
			ts.Keys = s.keyType()
			ts.Items = s.itemType()
		case "Enum":
			ts.Elements = s.enumElements()
		case "UnitValue":
			s.unitParams(&ts)
		case "Struct":
			ts.Fields = s.fields(depth + 1)
		}
	} else if s.O.FieldAny && Bool(s.T, "anyish", 10) {
		ts.Type = Pick(s.T, "naked", []string{"Any", "Struct"})
	} else {
		ts.Type = s.typeRef("ftype", nil)
	}
	if s.O.FieldOpts && Bool(s.T, "fieldopts", 35) {
		s.constrain(&ts)
	}
	return ts
}

func (s *S) fields(depth int) []*sadl.StructFieldDef {
	min, max := s.O.MinFields, s.O.MaxFields
	if max == 0 {
		max = 5
	}
	if depth > 0 {
		max = 2
		if min == 0 {
			min = 1
		}
	}
	n := rapid.IntRange(min, max).Draw(s.T, "nfields")
	used := map[string]bool{}
	var r []*sadl.StructFieldDef
	for i := 0; i < n; i++ {
		fd := &sadl.StructFieldDef{
			Name:        uniq(used, Pick(s.T, "fname", fieldWords)),
			Required:    Bool(s.T, "required", 40),
			Comment:     s.comment(30),
			Annotations: s.annos(15),
		}
		fd.TypeSpec = s.fieldSpec(depth)
		r = append(r, fd)
	}
	return r
}

func (s *S) typedef(td *sadl.TypeDef) {
	td.Type = s.kind[td.Name]
	td.Comment = s.comment(40)
	td.Annotations = s.annos(20)
	switch td.Type {
	case "Array":
		td.Items = s.itemType()
	case "Map":
		td.Keys = s.keyType()
		td.Items = s.itemType()
	case "Enum":
		td.Elements = s.enumElements()
	case "UnitValue":
		s.unitParams(&td.TypeSpec)
	case "Struct":
		td.Fields = s.fields(0)
	case "Union":
		n := rapid.IntRange(1, 4).Draw(s.T, "nvariants")
		used := map[string]bool{}
		for i := 0; i < n; i++ {
			var vt string
			var cands []string
			for _, nm := range s.refs() {
				if s.O.NoUnionSelf && nm == td.Name {
					continue
				}
				cands = append(cands, nm)
			}
			if len(cands) > 0 && (!s.O.UnionBase || Bool(s.T, "vnamed", 60)) {
				vt = Pick(s.T, "vtype", cands)
			} else {
				vt = Pick(s.T, "vtype", s.scalars())
			}
			name := vt
			if s.O.UnionNamed && Bool(s.T, "vname?", 40) {
				name = Pick(s.T, "vname", fieldWords)
			}
			if used[name] {
				continue
			}
			used[name] = true
			vd := &sadl.UnionVariantDef{Name: name, Comment: s.comment(20), Annotations: s.annos(10)}
			vd.Type = vt
			td.Variants = append(td.Variants, vd)
		}
	}
	if s.O.Constraints && Bool(s.T, "constrain", 60) {
		s.constrain(&td.TypeSpec)
	}
	if s.O.Refs && (td.Type == "String" || td.Type == "UUID") && Bool(s.T, "reference", 20) {
		td.Reference = Pick(s.T, "ref", s.names)
	}
}

// AllKinds are the typedef kinds.
var AllKinds = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "UnitValue", "Array", "Map", "Struct", "Enum", "Union", "Any"}

// New draws a schema.
func New(t *rapid.T, o Options) *sadl.Schema {
	s := &S{T: t, O: o, kind: map[string]string{}}
	s.Schema = &sadl.Schema{Sadl: sadl.Version, Types: make([]*sadl.TypeDef, 0)}
	s.Schema.Name = Pick(t, "modelname", []string{"test", "petstore", "Foo", "my_api"})
	kinds := o.Kinds
	if kinds == nil {
		kinds = AllKinds
	}
	maxT := o.MaxTypes
	if maxT == 0 {
		maxT = 6
	}
	// the numbers that rapid draws are mostly small, and the structured kinds come late: make up for that
	least := o.MinTypes
	if least < maxT/2 && rapid.Bool().Draw(t, "many") {
		least = maxT / 2
	}
	n := rapid.IntRange(least, maxT).Draw(t, "ntypes")
	var structured []string
	for _, k := range kinds {
		switch k {
		case "Struct", "Enum", "Union", "Array", "Map", "UnitValue":
			structured = append(structured, k)
		}
	}
	used := map[string]bool{}
	for _, b := range sadl.BaseTypes {
		used[b] = true
	}
	for i := 0; i < n; i++ {
		nm := uniq(used, Pick(t, "tname", typeWords))
		s.names = append(s.names, nm)
		if len(structured) > 0 && rapid.Bool().Draw(t, "structured") {
			s.kind[nm] = Pick(t, "kind", structured)
		} else {
			s.kind[nm] = Pick(t, "kind", kinds)
		}
	}
	for _, nm := range s.names {
		td := &sadl.TypeDef{Name: nm}
		s.typedef(td)
		s.Schema.Types = append(s.Schema.Types, td)
	}
	if o.Comments {
		s.Schema.Comment = s.comment(30)
	}
	s.Schema.Annotations = s.annos(20)
	if Bool(t, "ns?", 50) {
		s.Schema.Namespace = Pick(t, "ns", []string{"example", "com.example.api", "a.b"})
	}
	if Bool(t, "version?", 50) {
		s.Schema.Version = Pick(t, "version", []string{"1", "1.2", "3.0.1", "2021-01-01"})
	}
	if o.Base && Bool(t, "base?", 40) {
		s.Schema.Base = Pick(t, "base", []string{"/v1", "/api/v2", "/x"})
	}
	if o.Http > 0 {
		s.http()
	}
	if o.Operations > 0 {
		s.operations()
	}
	return s.Schema
}

var pathWords = []string{"items", "pets", "orders", "users", "status", "v", "a-b", "files"}
var headerWords = []string{"X-Foo", "Etag", "If-None-Match", "X-Request-Id", "Location"}
var queryWords = []string{"limit", "skip", "q", "sort_by", "page"}
var DefaultMethods = []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"}

func (s *S) paramType(label string) string {
	// parameters carried in paths, queries and headers: scalars or named scalar types
	var l []string
	for _, n := range s.refs() {
		switch s.kind[n] {
		case "String", "Enum", "Int32", "Int64", "Int16", "UUID", "Timestamp", "Bool", "Float64", "Decimal":
			l = append(l, n)
		}
	}
	if len(l) > 0 && Bool(s.T, label+"-named", 40) {
		return Pick(s.T, label, l)
	}
	var sc []string
	for _, x := range []string{"String", "Int32", "Int64", "Bool", "Timestamp", "UUID", "Int16", "Float64"} {
		if Has(s.scalars(), x) {
			sc = append(sc, x)
		}
	}
	return Pick(s.T, label, sc)
}

func (s *S) bodyType(label string) string {
	var l []string
	for _, n := range s.refs() {
		if s.O.HttpBodyKind == nil || Has(s.O.HttpBodyKind, s.kind[n]) {
			l = append(l, n)
		}
	}
	if len(l) == 0 {
		if s.O.HttpBodyKind != nil {
			return ""
		}
		return Pick(s.T, label, s.scalars())
	}
	return Pick(s.T, label, l)
}

func (s *S) http() {
	methods := s.O.Methods
	if methods == nil {
		methods = DefaultMethods
	}
	n := rapid.IntRange(0, s.O.Http).Draw(s.T, "nhttp")
	used := map[string]bool{}
	usedRoute := map[string]bool{}
	usedRes := map[string]bool{}
	for i := 0; i < n; i++ {
		h := &sadl.HttpDef{Method: Pick(s.T, "method", methods), Comment: s.comment(40), Annotations: s.annos(15)}
		res := Pick(s.T, "resource", pathWords)
		path := "/" + res
		pnames := map[string]bool{}
		np := rapid.IntRange(0, 2).Draw(s.T, "npath")
		for j := 0; j < np; j++ {
			in := &sadl.HttpParamSpec{}
			in.Name = uniq(pnames, Pick(s.T, "pname", fieldWords))
			in.Type = s.paramType("ptype")
			in.Path = true
			in.Required = true
			in.Comment = s.comment(20)
			path += "/{" + in.Name + "}"
			if Bool(s.T, "pseg", 40) {
				path += "/" + Pick(s.T, "seg", pathWords)
			}
			h.Inputs = append(h.Inputs, in)
		}
		rk := h.Method + " " + stripVars(path)
		if usedRoute[rk] {
			path = fmt.Sprintf("/z%d%s", i, path)
			rk = h.Method + " " + stripVars(path)
		}
		usedRoute[rk] = true
		nq := 0
		if h.Method != "OPTIONS" {
			nq = rapid.IntRange(0, 2).Draw(s.T, "nquery")
		}
		qs := ""
		qnames := map[string]bool{}
		for j := 0; j < nq; j++ {
			in := &sadl.HttpParamSpec{}
			in.Query = uniq(qnames, Pick(s.T, "query", queryWords))
			if Bool(s.T, "qsame", 50) && !pnames[in.Query] {
				pnames[in.Query] = true
				in.Name = in.Query
			} else {
				in.Name = uniq(pnames, Pick(s.T, "pname", fieldWords))
			}
			in.Type = s.paramType("qtype")
			in.Comment = s.comment(20)
			if qs == "" {
				qs = "?"
			} else {
				qs += "&"
			}
			qs += in.Query + "={" + in.Name + "}"
			h.Inputs = append(h.Inputs, in)
		}
		h.Path = path + qs
		hnames := map[string]bool{}
		nh := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(s.T, "nhdr")
		for j := 0; j < nh; j++ {
			in := &sadl.HttpParamSpec{}
			in.Name = uniq(pnames, Pick(s.T, "pname", fieldWords))
			in.Header = uniq(hnames, Pick(s.T, "header", headerWords))
			in.Type = s.paramType("htype")
			in.Required = true // the language makes header inputs required
			in.Comment = s.comment(20)
			h.Inputs = append(h.Inputs, in)
		}
		if (h.Method == "POST" || h.Method == "PUT" || h.Method == "PATCH") && Bool(s.T, "body?", 75) {
			in := &sadl.HttpParamSpec{}
			in.Name = uniq(pnames, Pick(s.T, "pname", fieldWords))
			in.Type = s.bodyType("btype")
			in.Comment = s.comment(20)
			if in.Type != "" {
				h.Inputs = append(h.Inputs, in)
			}
		}
		status := rapid.SampledFrom([]int32{200, 201, 202, 204, 304, 200}).Draw(s.T, "status")
		h.Expected = &sadl.HttpExpectedSpec{Status: status, Comment: s.comment(20)}
		onames := map[string]bool{}
		if status != 204 && status != 304 && h.Method != "HEAD" && Bool(s.T, "outbody", 80) {
			out := &sadl.HttpParamSpec{}
			out.Name = uniq(onames, Pick(s.T, "oname", fieldWords))
			out.Type = s.bodyType("otype")
			out.Required = true
			out.Comment = s.comment(20)
			if out.Type != "" {
				h.Expected.Outputs = append(h.Expected.Outputs, out)
			}
		}
		ohn := map[string]bool{}
		for j := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(s.T, "nohdr"); j > 0; j-- {
			out := &sadl.HttpParamSpec{}
			out.Name = uniq(onames, Pick(s.T, "oname", fieldWords))
			out.Header = uniq(ohn, Pick(s.T, "oheader", headerWords))
			out.Type = s.paramType("ohtype")
			h.Expected.Outputs = append(h.Expected.Outputs, out)
		}
		ne := rapid.IntRange(0, 3).Draw(s.T, "nexc")
		usedExc := map[string]bool{}
		usedSt := map[int32]bool{}
		for j := 0; j < ne; j++ {
			et := s.bodyType("etype")
			st := rapid.SampledFrom([]int32{400, 401, 404, 409, 500, 503, 304, 303}).Draw(s.T, "estatus")
			if st < 400 && status >= 300 {
				continue
			}
			if et == "" || usedExc[et] || usedSt[st] || !Has(s.names, et) {
				continue
			}
			usedExc[et] = true
			usedSt[st] = true
			h.Exceptions = append(h.Exceptions, &sadl.HttpExceptionSpec{Type: et, Status: st, Comment: s.comment(20)})
		}
		name := uniq(used, strings.ToLower(Pick(s.T, "verb", []string{"get", "list", "put", "make", "do"}))+sadl.Capitalize(strings.ReplaceAll(res, "-", "")))
		h.Name = name
		if s.O.Resource && Bool(s.T, "res?", 30) {
			h.Resource = uniq(usedRes, Pick(s.T, "resname", typeWords))
		}
		s.Schema.Http = append(s.Schema.Http, h)
	}
}

func stripVars(p string) string {
	r := ""
	in := false
	for _, c := range p {
		if c == '{' {
			in = true
			r += "{}"
		}
		if !in {
			r += string(c)
		}
		if c == '}' {
			in = false
		}
	}
	return r
}

func (s *S) operations() {
	n := rapid.IntRange(0, s.O.Operations).Draw(s.T, "nops")
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		op := &sadl.OperationDef{Name: uniq(used, Pick(s.T, "opname", []string{"create", "lookup", "removeAll", "ping", "swap"})), Comment: s.comment(40), Annotations: s.annos(15)}
		un := map[string]bool{}
		for j := rapid.IntRange(0, 3).Draw(s.T, "nin"); j > 0; j-- {
			in := &sadl.OperationInput{}
			in.Name = uniq(un, Pick(s.T, "iname", fieldWords))
			in.Type = s.typeRef("itype", nil)
			in.Required = Bool(s.T, "ireq", 40)
			op.Inputs = append(op.Inputs, in)
		}
		un = map[string]bool{}
		for j := rapid.IntRange(0, 2).Draw(s.T, "nout"); j > 0; j-- {
			out := &sadl.OperationOutput{}
			out.Name = uniq(un, Pick(s.T, "oname", fieldWords))
			out.Type = s.typeRef("otype", nil)
			op.Outputs = append(op.Outputs, out)
		}
		un = map[string]bool{}
		for j := rapid.IntRange(0, 2).Draw(s.T, "nex"); j > 0 && len(s.names) > 0; j-- {
			e := Pick(s.T, "ex", s.names)
			if !un[e] {
				un[e] = true
				op.Exceptions = append(op.Exceptions, e)
			}
		}
		s.Schema.Operations = append(s.Schema.Operations, op)
	}
}

// Clone makes a deep copy of the schema's type-level data (not of Default/Example values).
func Clone(sc *sadl.Schema) *sadl.Schema {
	r := *sc
	r.Types = nil
	for _, td := range sc.Types {
		c := *td
		c.Annotations = cloneAnnos(td.Annotations)
		c.TypeSpec = CloneSpec(td.TypeSpec)
		r.Types = append(r.Types, &c)
	}
	r.Http = nil
	for _, h := range sc.Http {
		c := *h
		c.Annotations = cloneAnnos(h.Annotations)
		c.Inputs = cloneParams(h.Inputs)
		if h.Expected != nil {
			e := *h.Expected
			e.Annotations = cloneAnnos(e.Annotations)
			e.Outputs = cloneParams(e.Outputs)
			c.Expected = &e
		}
		c.Exceptions = nil
		for _, e := range h.Exceptions {
			x := *e
			x.Annotations = cloneAnnos(e.Annotations)
			c.Exceptions = append(c.Exceptions, &x)
		}
		r.Http = append(r.Http, &c)
	}
	r.Operations = nil
	for _, o := range sc.Operations {
		c := *o
		c.Annotations = cloneAnnos(o.Annotations)
		c.Inputs = nil
		for _, i := range o.Inputs {
			x := *i
			x.TypeSpec = CloneSpec(i.TypeSpec)
			c.Inputs = append(c.Inputs, &x)
		}
		c.Outputs = nil
		for _, i := range o.Outputs {
			x := *i
			x.TypeSpec = CloneSpec(i.TypeSpec)
			c.Outputs = append(c.Outputs, &x)
		}
		c.Exceptions = append([]string(nil), o.Exceptions...)
		r.Operations = append(r.Operations, &c)
	}
	r.Examples = nil
	for _, e := range sc.Examples {
		x := *e
		x.Annotations = cloneAnnos(e.Annotations)
		r.Examples = append(r.Examples, &x)
	}
	r.Annotations = cloneAnnos(sc.Annotations)
	return &r
}

func cloneAnnos(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	r := map[string]string{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func cloneParams(l []*sadl.HttpParamSpec) []*sadl.HttpParamSpec {
	var r []*sadl.HttpParamSpec
	for _, p := range l {
		c := *p
		c.Annotations = cloneAnnos(p.Annotations)
		c.TypeSpec = CloneSpec(p.TypeSpec)
		r = append(r, &c)
	}
	return r
}

func CloneSpec(ts sadl.TypeSpec) sadl.TypeSpec {
	r := ts
	r.Values = append([]string(nil), ts.Values...)
	if ts.MinSize != nil {
		r.MinSize = i64(*ts.MinSize)
	}
	if ts.MaxSize != nil {
		r.MaxSize = i64(*ts.MaxSize)
	}
	if ts.Min != nil {
		r.Min = Dec(ts.Min.String())
	}
	if ts.Max != nil {
		r.Max = Dec(ts.Max.String())
	}
	r.Fields = nil
	for _, f := range ts.Fields {
		c := *f
		c.Annotations = cloneAnnos(f.Annotations)
		c.TypeSpec = CloneSpec(f.TypeSpec)
		r.Fields = append(r.Fields, &c)
	}
	r.Elements = nil
	for _, e := range ts.Elements {
		c := *e
		c.Annotations = cloneAnnos(e.Annotations)
		r.Elements = append(r.Elements, &c)
	}
	r.Variants = nil
	for _, v := range ts.Variants {
		c := *v
		c.Annotations = cloneAnnos(v.Annotations)
		c.TypeSpec = CloneSpec(v.TypeSpec)
		r.Variants = append(r.Variants, &c)
	}
	return r
}
