// Package sval generates values for SADL types and holds a reference validator for them.
// Values have the form the SADL parser gives to literals: *string, *sadl.Decimal, bool,
// []interface{}, map[string]interface{} and nil.
package sval

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"pgregory.net/rapid"
	"verif/harness/sgen"
)

var GoodTimes = []string{"2019-02-03T22:48:19.043Z", "2020-02-29T00:00:00Z", "1999-12-31T23:59:59.9Z", "2021-01-01T01:02:03+00:00"}
var BadTimes = []string{"2019-02-30T22:48:19.043Z", "2020-01-01", "", "yesterday", "2020-13-01T00:00:00Z", "2019-02-03T22:48:19.043+01:00"}
var GoodUUIDs = []string{"1ce437b0-1dd2-11b2-81ef-003ee1be85f9", "00000000-0000-0000-0000-000000000000", "ABCDEF01-2345-6789-abcd-ef0123456789"}
var BadUUIDs = []string{"", "1ce437b0", "1ce437b0-1dd2-11b2-81ef-003ee1be85f", "1ce437b001dd2011b2081ef0003ee1be85f9", "zce437b0-1dd2-11b2-81ef-003ee1be85f9"}

// G generates values over the types of a schema.
type G struct {
	T       *rapid.T
	Types   map[string]*sadl.TypeDef
	Wide    bool // decimals of more digits than a float holds
	Unicode bool // strings of unrestricted types with characters outside ASCII
}

// Rich also draws long decimals and strings outside ASCII.
func (g *G) Rich() *G {
	g.Wide, g.Unicode = true, true
	return g
}

func NewG(t *rapid.T, sc *sadl.Schema) *G {
	g := &G{T: t, Types: map[string]*sadl.TypeDef{}}
	for _, td := range sc.Types {
		g.Types[td.Name] = td
	}
	return g
}

func str(s string) *string { return &s }

func (g *G) pick(label string, l []string) string { return sgen.Pick(g.T, label, l) }

// Spec resolves a type name to a specification.
func (g *G) Spec(name string) *sadl.TypeSpec {
	if td, ok := g.Types[name]; ok {
		return &td.TypeSpec
	}
	return &sadl.TypeSpec{Type: name}
}

func (g *G) letters(n int, free bool) string {
	var b strings.Builder
	wide := g.Unicode && free && rapid.IntRange(0, 3).Draw(g.T, "unicode") == 0
	for i := 0; i < n; i++ {
		if wide {
			b.WriteRune([]rune("é漢ß🎉aü")[rapid.IntRange(0, 5).Draw(g.T, "wch")])
			continue
		}
		b.WriteByte("abcxyzABC 019-_"[rapid.IntRange(0, 14).Draw(g.T, "ch")])
	}
	return b.String()
}

func (g *G) size(ts *sadl.TypeSpec, def int) int {
	lo, hi := 0, def
	if ts.MinSize != nil {
		lo = int(*ts.MinSize)
		if hi < lo {
			hi = lo + def
		}
	}
	if ts.MaxSize != nil && hi > int(*ts.MaxSize) {
		hi = int(*ts.MaxSize)
	}
	if hi < lo {
		hi = lo
	}
	switch rapid.IntRange(0, 3).Draw(g.T, "edge") {
	case 0:
		return lo
	case 1:
		return hi
	}
	return rapid.IntRange(lo, hi).Draw(g.T, "size")
}

func (g *G) number(ts *sadl.TypeSpec) *sadl.Decimal {
	switch rapid.IntRange(0, 5).Draw(g.T, "numedge") {
	case 0:
		if ts.Min != nil {
			return sgen.Dec(ts.Min.String())
		}
		if sgen.Has(sgen.Ints, ts.Type) {
			lo, _ := sgen.IntRange(ts.Type)
			return sgen.DecInt(lo)
		}
	case 1:
		if ts.Max != nil {
			return sgen.Dec(ts.Max.String())
		}
		if sgen.Has(sgen.Ints, ts.Type) {
			_, hi := sgen.IntRange(ts.Type)
			return sgen.DecInt(hi)
		}
	}
	if ts.Min != nil && ts.Max != nil && sgen.Has(sgen.Ints, ts.Type) {
		return sgen.DecInt(rapid.Int64Range(ts.Min.AsInt64(), ts.Max.AsInt64()).Draw(g.T, "within"))
	}
	if ts.Min != nil && ts.Max == nil {
		n := new(big.Rat).Add(sgen.Rat(ts.Min), new(big.Rat).SetInt64(rapid.Int64Range(0, 3).Draw(g.T, "above")))
		return sgen.Dec(n.FloatString(6))
	}
	if ts.Max != nil && ts.Min == nil {
		n := new(big.Rat).Sub(sgen.Rat(ts.Max), new(big.Rat).SetInt64(rapid.Int64Range(0, 3).Draw(g.T, "below")))
		return sgen.Dec(n.FloatString(6))
	}
	if ts.Min != nil {
		n := new(big.Rat).Add(sgen.Rat(ts.Min), sgen.Rat(ts.Max))
		n.Quo(n, big.NewRat(2, 1))
		return sgen.Dec(n.FloatString(6))
	}
	if g.Wide && ts.Type == "Decimal" && rapid.IntRange(0, 2).Draw(g.T, "wide") == 0 {
		return sgen.Dec(rapid.StringMatching(`-?[1-9][0-9]{16,34}(\.[0-9]{1,20}[1-9])?`).Draw(g.T, "digits"))
	}
	return sgen.Dec(sgen.NumText(g.T, ts.Type))
}

func patternOf(re string) *sgen.Pattern {
	for i := range sgen.Patterns {
		if sgen.Patterns[i].Re == re {
			return &sgen.Patterns[i]
		}
	}
	return nil
}

// Value draws a value meant to conform to the specification (the reference validator has
// the last word on whether it does).
func (g *G) Value(ts *sadl.TypeSpec, depth int) interface{} {
	switch ts.Type {
	case "Bool":
		return rapid.Bool().Draw(g.T, "bool")
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		return g.number(ts)
	case "String":
		if len(ts.Values) > 0 {
			return str(g.pick("value", ts.Values))
		}
		if p := patternOf(ts.Pattern); p != nil {
			return str(g.pick("match", p.In))
		}
		return str(g.letters(g.size(ts, 8), ts.MinSize == nil && ts.MaxSize == nil))
	case "Bytes":
		return str("AQID")
	case "Timestamp":
		return str(g.pick("time", GoodTimes))
	case "UUID":
		return str(g.pick("uuid", GoodUUIDs))
	case "Enum":
		return str(ts.Elements[rapid.IntRange(0, len(ts.Elements)-1).Draw(g.T, "sym")].Symbol)
	case "UnitValue":
		n := g.number(g.Spec(ts.Value))
		u, _ := g.Value(g.Spec(ts.Unit), depth+1).(*string)
		if u == nil || *u == "" {
			u = str("USD")
		}
		return str(n.String() + " " + *u)
	case "Array":
		a := make([]interface{}, 0)
		n := g.size(ts, 3)
		if depth > 4 {
			n = 0
			if ts.MinSize != nil {
				n = int(*ts.MinSize)
			}
		}
		for i := 0; i < n; i++ {
			if depth > 6 {
				a = append(a, nil)
				continue
			}
			a = append(a, g.Value(g.Spec(ts.Items), depth+1))
		}
		return a
	case "Map":
		m := map[string]interface{}{}
		n := g.size(ts, 3)
		if depth > 4 {
			n = 0
		}
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("k%d", i)
			if ks := g.Spec(ts.Keys); ks.Type != "String" || ks.Values != nil || ks.Pattern != "" || ks.MinSize != nil || ks.MaxSize != nil {
				if s, ok := g.Value(ks, depth+1).(*string); ok {
					k = *s
				}
			}
			m[k] = g.Value(g.Spec(ts.Items), depth+1)
		}
		return m
	case "Struct":
		m := map[string]interface{}{}
		for _, f := range ts.Fields {
			if f.Required && depth <= 6 || depth <= 4 && rapid.Bool().Draw(g.T, "present") {
				m[f.Name] = g.Value(&f.TypeSpec, depth+1)
			}
		}
		return m
	case "Union":
		m := map[string]interface{}{}
		if depth > 6 || len(ts.Variants) == 0 {
			return m
		}
		v := ts.Variants[rapid.IntRange(0, len(ts.Variants)-1).Draw(g.T, "variant")]
		m[v.Name] = g.Value(&v.TypeSpec, depth+1)
		return m
	case "Any":
		return g.Junk()
	}
	if td, ok := g.Types[ts.Type]; ok {
		return g.Value(&td.TypeSpec, depth)
	}
	return nil
}

// Junk draws an arbitrary value.
func (g *G) Junk() interface{} {
	switch rapid.IntRange(0, 8).Draw(g.T, "junk") {
	case 0:
		return rapid.Bool().Draw(g.T, "b")
	case 1:
		return sgen.Dec(g.pick("num", []string{"0", "1", "-1", "0.5", "3.25", "127", "128", "-129", "32768", "2147483648", "-2147483649", "9223372036854775808", "-9223372036854775809", "1000000000000000000000"}))
	case 2:
		return str(g.pick("s", append(append([]string{"", "a", "RED", "one", "red", "12", "5 USD", "true", "x y", "1 ", " USD", "1.5 kg", "10 one"}, BadTimes...), GoodTimes...)))
	case 3:
		return str(g.pick("s", append(append([]string{"hello world"}, BadUUIDs...), GoodUUIDs...)))
	case 4:
		return []interface{}{}
	case 5:
		return []interface{}{str("a"), sgen.DecInt(5)}
	case 6:
		return map[string]interface{}{}
	case 7:
		return map[string]interface{}{g.pick("k", []string{"id", "name", "zzz", "x"}): str("v")}
	}
	return sgen.DecInt(rapid.Int64Range(-200, 200).Draw(g.T, "n"))
}

// Corrupt returns a copy of v in which one place has been changed. Values below an opaque
// type (Bytes, Any) are left alone; ts directs the walk.
func (g *G) Corrupt(ts *sadl.TypeSpec, v interface{}) interface{} {
	if td, ok := g.Types[ts.Type]; ok {
		return g.Corrupt(&td.TypeSpec, v)
	}
	if ts.Type == "Any" || ts.Type == "Bytes" {
		return v
	}
	here := rapid.IntRange(0, 2).Draw(g.T, "here") == 0
	switch x := v.(type) {
	case []interface{}:
		if ts.Type != "Array" {
			break
		}
		out := append([]interface{}{}, x...)
		switch k := rapid.IntRange(0, 3).Draw(g.T, "acorrupt"); {
		case k == 0 && len(out) > 0:
			return out[:len(out)-1]
		case k == 1:
			return append(out, g.Value(g.Spec(ts.Items), 3))
		case here:
			return g.Junk()
		case len(out) > 0:
			i := rapid.IntRange(0, len(out)-1).Draw(g.T, "at")
			out[i] = g.Corrupt(g.Spec(ts.Items), out[i])
			return out
		}
		return g.Junk()
	case map[string]interface{}:
		out := map[string]interface{}{}
		var keys []string
		for k, e := range x {
			out[k] = e
			keys = append(keys, k)
		}
		sort.Strings(keys)
		switch k := rapid.IntRange(0, 4).Draw(g.T, "mcorrupt"); {
		case k == 0 && len(keys) > 0:
			delete(out, g.pick("drop", keys))
			return out
		case k == 1:
			it := g.Spec("Any")
			if ts.Type == "Map" {
				it = g.Spec(ts.Items)
			}
			if ts.Type == "Union" && len(ts.Variants) > 0 {
				vd := ts.Variants[rapid.IntRange(0, len(ts.Variants)-1).Draw(g.T, "variant2")]
				out[vd.Name] = g.Value(&vd.TypeSpec, 3)
				return out
			}
			out[g.pick("newkey", []string{"zz", "id", "A", "RED", "one", "red", "k9", "size2"})] = g.Value(it, 3)
			return out
		case here:
			return g.Junk()
		case len(keys) > 0:
			key := g.pick("inkey", keys)
			sub := g.Spec("Any")
			switch ts.Type {
			case "Map":
				sub = g.Spec(ts.Items)
			case "Struct":
				for _, f := range ts.Fields {
					if f.Name == key {
						sub = &f.TypeSpec
					}
				}
			case "Union":
				for _, f := range ts.Variants {
					if f.Name == key {
						sub = &f.TypeSpec
					}
				}
			}
			out[key] = g.Corrupt(sub, out[key])
			return out
		}
		return g.Junk()
	case *sadl.Decimal:
		r := sgen.Rat(x)
		switch rapid.IntRange(0, 5).Draw(g.T, "ncorrupt") {
		case 0:
			r.Add(r, big.NewRat(1, 1))
		case 1:
			r.Sub(r, big.NewRat(1, 1))
		case 2:
			r.Add(r, big.NewRat(1, 4))
		case 3:
			if ts.Min != nil {
				r = new(big.Rat).Sub(sgen.Rat(ts.Min), big.NewRat(rapid.Int64Range(0, 1).Draw(g.T, "d"), 1))
			}
		case 4:
			if ts.Max != nil {
				r = new(big.Rat).Add(sgen.Rat(ts.Max), big.NewRat(rapid.Int64Range(0, 1).Draw(g.T, "d"), 1))
			}
		case 5:
			return g.Junk()
		}
		return sgen.Dec(r.FloatString(6))
	case *string:
		if ts.Type == "Timestamp" { // near misses come from the list: the parser is lenient about some spellings
			if rapid.Bool().Draw(g.T, "tcorrupt") {
				return str(g.pick("badtime", BadTimes))
			}
			return g.Junk()
		}
		if ts.Type == "UnitValue" {
			n := strings.Index(*x, " ")
			switch k := rapid.IntRange(0, 3).Draw(g.T, "ucorrupt"); {
			case k == 0 && n > 0:
				num := sgen.NumText(g.T, g.pick("numtype", sgen.Numeric))
				return str(num + (*x)[n:])
			case k == 1 && n > 0:
				return str((*x)[:n+1] + g.pick("unit", []string{"USD", "one", "RED", "", "red", "A"}))
			case k == 2 && n > 0:
				return str((*x)[:n])
			}
			return g.Junk()
		}
		switch rapid.IntRange(0, 5).Draw(g.T, "scorrupt") {
		case 0:
			if len(*x) > 0 {
				return str((*x)[:len(*x)-1])
			}
		case 1:
			return str(*x + g.pick("suffix", []string{"a", "0", " ", "Z"}))
		case 2:
			if p := patternOf(ts.Pattern); p != nil {
				return str(g.pick("nomatch", p.Out))
			}
		case 3:
			return str(strings.ToLower(*x))
		case 4:
			if len(*x) > 1 {
				i := rapid.IntRange(0, len(*x)-1).Draw(g.T, "mid")
				return str((*x)[:i] + (*x)[i+1:])
			}
		}
	}
	return g.Junk()
}

// Valid is the reference validator: "" if v conforms to ts, otherwise the reason.
func (g *G) Valid(ts *sadl.TypeSpec, v interface{}) string {
	switch ts.Type {
	case "Any", "Bytes":
		return ""
	case "Bool":
		if _, ok := v.(bool); ok {
			return ""
		}
		return "not a boolean"
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		d, ok := v.(*sadl.Decimal)
		if !ok {
			return "not a number"
		}
		r := sgen.Rat(d)
		if sgen.Has(sgen.Ints, ts.Type) {
			if !r.IsInt() {
				return "not an integer"
			}
			lo, hi := sgen.IntRange(ts.Type)
			if r.Cmp(new(big.Rat).SetInt64(lo)) < 0 || r.Cmp(new(big.Rat).SetInt64(hi)) > 0 {
				return "outside " + ts.Type
			}
		}
		if ts.Min != nil && r.Cmp(sgen.Rat(ts.Min)) < 0 {
			return "less than min"
		}
		if ts.Max != nil && r.Cmp(sgen.Rat(ts.Max)) > 0 {
			return "greater than max"
		}
		return ""
	case "Array":
		a, ok := v.([]interface{})
		if !ok {
			return "not an array"
		}
		if why := g.sized(ts, len(a)); why != "" {
			return why
		}
		for i, e := range a {
			if why := g.Valid(g.Spec(ts.Items), e); why != "" {
				return fmt.Sprintf("[%d]: %s", i, why)
			}
		}
		return ""
	case "Map":
		m, ok := v.(map[string]interface{})
		if !ok {
			return "not an object"
		}
		if why := g.sized(ts, len(m)); why != "" {
			return why
		}
		for k, e := range m {
			if why := g.Valid(g.Spec(ts.Keys), str(k)); why != "" {
				return fmt.Sprintf("key %q: %s", k, why)
			}
			if why := g.Valid(g.Spec(ts.Items), e); why != "" {
				return fmt.Sprintf("[%q]: %s", k, why)
			}
		}
		return ""
	case "Struct":
		m, ok := v.(map[string]interface{})
		if !ok {
			return "not an object"
		}
		known := map[string]*sadl.StructFieldDef{}
		for _, f := range ts.Fields {
			known[f.Name] = f
			if _, ok := m[f.Name]; !ok && f.Required {
				return "missing required field " + f.Name
			}
		}
		for k, e := range m {
			f, ok := known[k]
			if !ok {
				return "unknown field " + k
			}
			if why := g.Valid(&f.TypeSpec, e); why != "" {
				return k + ": " + why
			}
		}
		return ""
	case "Union":
		m, ok := v.(map[string]interface{})
		if !ok || len(m) != 1 {
			return "not an object with one variant"
		}
		for k, e := range m {
			for _, vd := range ts.Variants {
				if vd.Name == k {
					return g.Valid(&vd.TypeSpec, e)
				}
			}
		}
		return "unknown variant"
	}
	if td, ok := g.Types[ts.Type]; ok {
		return g.Valid(&td.TypeSpec, v)
	}
	sp, ok := v.(*string)
	if !ok {
		return "not a string"
	}
	s := *sp
	switch ts.Type {
	case "String":
		if why := g.sized(ts, len(s)); why != "" {
			return why
		}
		if len(ts.Values) > 0 {
			if !sgen.Has(ts.Values, s) {
				return "not one of the values"
			}
			return ""
		}
		if ts.Pattern != "" && !regexp.MustCompile(ts.Pattern).MatchString(s) {
			return "does not match"
		}
		return ""
	case "Enum":
		for _, e := range ts.Elements {
			if e.Symbol == s {
				return ""
			}
		}
		return "not a symbol of the enum"
	case "Timestamp":
		if !timeRE.MatchString(s) {
			return "not a timestamp"
		}
		if sgen.Has(BadTimes, s) {
			return "no such date"
		}
		return ""
	case "UUID":
		if uuidRE.MatchString(s) {
			return ""
		}
		return "not a UUID"
	case "UnitValue":
		n := strings.Index(s, " ")
		if n < 1 || !numRE.MatchString(s[:n]) {
			return "not a number and a unit"
		}
		if why := g.Valid(g.Spec(ts.Value), sgen.Dec(s[:n])); why != "" {
			return "value: " + why
		}
		if why := g.Valid(g.Spec(ts.Unit), str(s[n+1:])); why != "" {
			return "unit: " + why
		}
		return ""
	}
	return "unknown type " + ts.Type
}

var timeRE = regexp.MustCompile(`^[0-9]{4}-(0[1-9]|1[0-2])-(0[1-9]|[12][0-9]|3[01])T([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\.[0-9]+)?(Z|[+-]00:?00)$`)
var uuidRE = regexp.MustCompile(`^[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}$`)
var numRE = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?$`)

func (g *G) sized(ts *sadl.TypeSpec, n int) string {
	if ts.MinSize != nil && int64(n) < *ts.MinSize {
		return "too small"
	}
	if ts.MaxSize != nil && int64(n) > *ts.MaxSize {
		return "too large"
	}
	return ""
}

// JSON renders a value.
func JSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

// Plain gives the value in another Go representation: text of String, Enum and UUID types
// by value rather than by reference; with mode 1 truth values by reference; with mode 2
// valid UUIDs and timestamps as the library's own types.
func (g *G) Plain(ts *sadl.TypeSpec, v interface{}, mode int) interface{} {
	if td, ok := g.Types[ts.Type]; ok {
		return g.Plain(&td.TypeSpec, v, mode)
	}
	switch x := v.(type) {
	case *string:
		switch ts.Type {
		case "String", "Enum":
			return *x
		case "UUID":
			if mode == 2 && uuidRE.MatchString(*x) {
				return sadl.ParseUUID(*x)
			}
			return *x
		case "Timestamp":
			if mode == 2 {
				if t, err := sadl.ParseTimestamp(*x); err == nil {
					return &t
				}
			}
		}
	case bool:
		if ts.Type == "Bool" && mode == 1 {
			return &x
		}
	case []interface{}:
		if ts.Type == "Array" {
			a := make([]interface{}, 0)
			for _, e := range x {
				a = append(a, g.Plain(g.Spec(ts.Items), e, mode))
			}
			return a
		}
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			m[k] = e
			switch ts.Type {
			case "Map":
				m[k] = g.Plain(g.Spec(ts.Items), e, mode)
			case "Struct":
				for _, f := range ts.Fields {
					if f.Name == k {
						m[k] = g.Plain(&f.TypeSpec, e, mode)
					}
				}
			case "Union":
				for _, f := range ts.Variants {
					if f.Name == k {
						m[k] = g.Plain(&f.TypeSpec, e, mode)
					}
				}
			}
		}
		return m
	}
	return v
}
