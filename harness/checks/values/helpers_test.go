package values

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/boynton/sadl"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
)

// ---------------------------------------------------------------- P30 names, annotations and untyped values

const nameChars = "abyzABYZ0189_-. \t\n$é@[`{/:"

func drawText(t *rapid.T, label string, alphabet string, max int) string {
	rs := []rune(alphabet)
	var b strings.Builder
	for i := rapid.IntRange(0, max).Draw(t, label+"-n"); i > 0; i-- {
		b.WriteRune(rs[rapid.IntRange(0, len(rs)-1).Draw(t, label)])
	}
	return b.String()
}

func swapCase(s string, from, to byte) string {
	if s != "" && s[0] >= from && s[0] <= from+25 {
		return string(s[0]-from+to) + s[1:]
	}
	return s
}

// drawUntyped draws a value as the JSON decoder or the SADL parser would produce it.
func drawUntyped(t *rapid.T, depth int) interface{} {
	n := 12
	if depth > 1 {
		n = 8
	}
	switch rapid.IntRange(0, n).Draw(t, "kind") {
	case 0:
		return nil
	case 1, 2:
		return sgen.Pick(t, "s", []string{"", "true", "false", "False", "a b", "12"})
	case 3:
		s := sgen.Pick(t, "ps", []string{"", "x", "false"})
		return &s
	case 4:
		return rapid.Bool().Draw(t, "b")
	case 5:
		return float64(rapid.IntRange(-4000, 4000).Draw(t, "f")) / 4
	case 6:
		return int32(rapid.IntRange(-4000, 4000).Draw(t, "i32"))
	case 7:
		return rapid.IntRange(-4000, 4000).Draw(t, "i")
	case 8:
		d := sgen.Dec(sgen.Pick(t, "dec", []string{"0", "1.5", "-3", "123456789012345678901234567890"}))
		if rapid.Bool().Draw(t, "decptr") {
			return d
		}
		return *d
	case 9, 10:
		a := []interface{}{}
		strs := rapid.Bool().Draw(t, "strs")
		for i := rapid.IntRange(0, 3).Draw(t, "len"); i > 0; i-- {
			if strs {
				s := sgen.Pick(t, "item", []string{"", "p", "q r"})
				if rapid.Bool().Draw(t, "itemptr") {
					a = append(a, &s)
				} else {
					a = append(a, s)
				}
			} else {
				a = append(a, drawUntyped(t, depth+1))
			}
		}
		return a
	}
	m := map[string]interface{}{}
	for i := rapid.IntRange(0, 3).Draw(t, "len"); i > 0; i-- {
		m[sgen.Pick(t, "key", []string{"a", "b", "c", ""})] = drawUntyped(t, depth+1)
	}
	return m
}

func TestP30(t *testing.T) {
	pbt.Run(t, "names", pbt.Opt{Quick: 6000, Rule: "the text has two or more characters"}, func(c *pbt.C) {
		s := drawText(c.T, "text", nameChars, 6)
		c.Case("%q", s)
		c.NonTrivial(len([]rune(s)) > 1)
		isSym := s != ""
		for i, ch := range s {
			lower, upper, digit := strings.ContainsRune("abcdefghijklmnopqrstuvwxyz", ch), strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZ", ch), strings.ContainsRune("0123456789", ch)
			space := ch == ' ' || ch == '\t' || ch == '\n'
			c.Check(sadl.IsLowercaseLetter(ch) == lower, "IsLowercaseLetter(%q)", ch)
			c.Check(sadl.IsUppercaseLetter(ch) == upper, "IsUppercaseLetter(%q)", ch)
			c.Check(sadl.IsLetter(ch) == (lower || upper), "IsLetter(%q)", ch)
			c.Check(sadl.IsDigit(ch) == digit, "IsDigit(%q)", ch)
			c.Check(sadl.IsWhitespace(ch) == space, "IsWhitespace(%q)", ch)
			c.Check(sadl.IsSymbolChar(ch, true) == (lower || upper), "IsSymbolChar(%q, true)", ch)
			c.Check(sadl.IsSymbolChar(ch, false) == (lower || upper || digit || ch == '_'), "IsSymbolChar(%q, false)", ch)
			if !(lower || upper || i > 0 && (digit || ch == '_')) {
				isSym = false
			}
		}
		c.Class("symbol=%v", isSym)
		c.Check(sadl.IsSymbol(s) == isSym, "IsSymbol(%q) = %v", s, !isSym)
		if s == "" || s[0] < 0x80 {
			c.Check(sadl.Capitalize(s) == swapCase(s, 'a', 'A'), "Capitalize(%q) = %q", s, sadl.Capitalize(s))
			c.Check(sadl.Uncapitalize(s) == swapCase(s, 'A', 'a'), "Uncapitalize(%q) = %q", s, sadl.Uncapitalize(s))
			if s != "" {
				g := &sadl.Generator{Config: sadl.NewData()}
				c.Check(g.Capitalize(s) == swapCase(s, 'a', 'A'), "the generator capitalizes %q as %q", s, g.Capitalize(s))
				c.Check(g.Uncapitalize(s) == swapCase(s, 'A', 'a'), "the generator uncapitalizes %q as %q", s, g.Uncapitalize(s))
			}
		}
	})
	pbt.Run(t, "file-names", pbt.Opt{Quick: 3000, Rule: "the path has a directory or an extension"}, func(c *pbt.C) {
		dir := sgen.Pick(c.T, "dir", []string{"", "/", "a/", "/x/y/", "./", "../", "a.b/", "/v1.2/c/"})
		base := sgen.Pick(c.T, "base", []string{"model", "m", ".hidden", "a.b", "x-1", "..x", "v1.0"})
		ext := sgen.Pick(c.T, "ext", []string{"", ".sadl", ".json", ".x", ".yaml"})
		want := base
		if ext == "" {
			switch base {
			case "a.b":
				want = "a"
			case "v1.0":
				want = "v1"
			case "..x":
				want = "."
			}
		}
		c.Case("%s", dir+base+ext)
		c.NonTrivial(dir != "" || ext != "")
		c.Check(sadl.BaseFileName(dir+base+ext) == want, "BaseFileName(%q) = %q, want %q", dir+base+ext, sadl.BaseFileName(dir+base+ext), want)
	})
	pbt.Run(t, "annotations", pbt.Opt{Quick: 3000, Rule: "two or more annotations"}, func(c *pbt.C) {
		var annos map[string]string
		for i := rapid.IntRange(0, 4).Draw(c.T, "n"); i > 0; i-- {
			if annos == nil {
				annos = map[string]string{}
			}
			annos[sgen.Pick(c.T, "key", []string{"x_a", "x_b", "x_a_b", "x_enumValue", "x_z"})] = sgen.Pick(c.T, "val", []string{"", "true", "false", "v", "a \"q\" b", "back\\slash", "é", "1,2", "a=b", "l1\nl2"})
		}
		c.Case("%q", annos)
		c.NonTrivial(len(annos) > 1)
		for _, k := range []string{"x_a", "x_b", "x_a_b", "x_enumValue", "x_z", "x", ""} {
			want, ok := annos[k]
			if ok && want == "" {
				want = "true"
			}
			c.Check(sadl.GetAnnotation(annos, k) == want, "GetAnnotation(%q) = %q, want %q", k, sadl.GetAnnotation(annos, k), want)
		}
		var l []string
		for k := range annos {
			l = append(l, k)
		}
		sort.Strings(l)
		got := sadl.AnnotationsAsString(annos)
		if len(l) == 0 {
			c.Check(got == "", "no annotations are written as %q", got)
			return
		}
		rest := strings.TrimSpace(got)
		c.Check(strings.HasPrefix(got, " (") && strings.HasSuffix(rest, ")"), "%q is not a parenthesised list", got)
		rest = rest[1 : len(rest)-1]
		seen := map[string]string{}
		for rest != "" {
			n := strings.Index(rest, "=")
			c.Check(n > 0, "%q has no name", got)
			q, err := strconv.QuotedPrefix(rest[n+1:])
			c.Check(err == nil, "%q has no string after %s", got, rest[:n+1])
			v, _ := strconv.Unquote(q)
			seen[rest[:n]] = v
			rest = rest[n+1+len(q):]
			if rest != "" {
				c.Check(strings.HasPrefix(rest, ", "), "%q is not separated by commas", got)
				rest = rest[2:]
			}
		}
		c.Check(reflect.DeepEqual(seen, annos), "%q does not state the annotations", got)
		for i := 0; i < 3; i++ {
			c.Check(sadl.AnnotationsAsString(annos) == got, "the order of %q is not fixed", got)
		}
	})
	pbt.Run(t, "untyped", pbt.Opt{Quick: 8000, Rule: "the value is not null"}, func(c *pbt.C) {
		v := drawUntyped(c.T, 0)
		c.Case("%T %s", v, pbt.JSON(v))
		c.NonTrivial(v != nil)
		c.Class("%T", v)
		var s string
		var b, isArr bool
		var i int
		var i64 int64
		var f float64
		var dec *sadl.Decimal
		var sa []string
		m, _ := v.(map[string]interface{})
		a, isArr := v.([]interface{})
		b = v != nil
		switch x := v.(type) {
		case string:
			s = x
			b = x != "false"
		case *string:
			s = *x
		case bool:
			b = x
		case float64:
			f, i, i64 = x, int(x), int64(x)
		case int32:
			i = int(x)
		case int:
			i = x
		case sadl.Decimal:
			dec = &x
		case *sadl.Decimal:
			dec = x
		}
		if isArr {
			for _, e := range a {
				switch x := e.(type) {
				case string:
					sa = append(sa, x)
				case *string:
					sa = append(sa, *x)
				default:
					sa = nil
					goto done
				}
			}
		done:
		}
		in := map[string]interface{}{"k": v, "other": "o"}
		key := sgen.Pick(c.T, "lookup", []string{"k", "k", "k", "absent"})
		if key == "absent" {
			s, b, i, i64, f, dec, sa, m, a, v = "", false, 0, 0, 0, nil, nil, nil, nil, nil
		}
		eq := func(what string, got, want interface{}) {
			c.Check(reflect.DeepEqual(got, want), "%s of %s = %s, want %s", what, pbt.JSON(v), pbt.JSON(got), pbt.JSON(want))
		}
		eqDec := func(what string, got *sadl.Decimal) {
			c.Check((got == nil) == (dec == nil) && (dec == nil || got.Cmp(&dec.Float) == 0), "%s of %s = %v, want %v", what, pbt.JSON(v), got, dec)
		}
		eq("Get", sadl.Get(in, key), v)
		eq("GetString", sadl.GetString(in, key), s)
		eq("GetBool", sadl.GetBool(in, key), b)
		eq("GetInt", sadl.GetInt(in, key), i)
		eq("GetInt64", sadl.GetInt64(in, key), i64)
		eq("GetArray", sadl.GetArray(in, key), a)
		eq("GetMap", sadl.GetMap(in, key), m)
		eq("GetStringArray", append([]string{}, sadl.GetStringArray(in, key)...), append([]string{}, sa...))
		eqDec("GetDecimal", sadl.GetDecimal(in, key))
		eq("AsString", sadl.AsString(v), s)
		eq("AsBool", sadl.AsBool(v), b)
		eq("AsInt", sadl.AsInt(v), i)
		eq("AsInt64", sadl.AsInt64(v), i64)
		eq("AsFloat64", sadl.AsFloat64(v), f)
		eq("AsArray", sadl.AsArray(v), a)
		eq("AsMap", sadl.AsMap(v), m)
		eqDec("AsDecimal", sadl.AsDecimal(v))
		eq("Get in nothing", sadl.Get(nil, key), nil)
	})
	pbt.Run(t, "printing", pbt.Opt{Quick: 4000, Rule: "a composite value"}, func(c *pbt.C) {
		v, w := drawUntyped(c.T, 0), drawUntyped(c.T, 0)
		if rapid.Bool().Draw(c.T, "same") {
			w = v
		}
		c.Case("%s / %s", pbt.JSON(v), pbt.JSON(w))
		_, isM := v.(map[string]interface{})
		_, isA := v.([]interface{})
		c.NonTrivial(isM || isA)
		ref, err := json.Marshal(v)
		c.Check(err == nil, "%v", err)
		ref2, _ := json.Marshal(w)
		for name, text := range map[string]string{"Pretty": sadl.Pretty(v), "ToString": sadl.ToString(v)} {
			var x interface{}
			c.Check(json.Unmarshal([]byte(text), &x) == nil, "%s(%s) = %q is not JSON", name, ref, text)
			var y interface{}
			json.Unmarshal(ref, &y)
			c.Check(reflect.DeepEqual(x, y), "%s(%s) = %q", name, ref, text)
		}
		c.Check(!strings.HasSuffix(sadl.ToString(v), "\n") && !strings.Contains(sadl.ToString(v), "\n"), "ToString is not one line")
		c.Check(sadl.Equivalent(v, w) == (string(ref) == string(ref2)), "Equivalent(%s, %s)", ref, ref2)
	})
	pbt.Run(t, "together", pbt.Opt{Quick: 150, Rule: "every case"}, func(c *pbt.C) {
		var ops []func() string
		var all []interface{}
		for i := 0; i < 10; i++ {
			v := drawUntyped(c.T, 0)
			all = append(all, v)
			annos := map[string]string{"x_a": fmt.Sprint(i), "x_b": "b"}
			ops = append(ops, func() string {
				return fmt.Sprintln(sadl.Pretty(v), sadl.ToString(v), sadl.Equivalent(v, v), sadl.AnnotationsAsString(annos))
			})
		}
		c.Case("%s", pbt.JSON(all))
		c.NonTrivial(true)
		pbt.Together(c, "printing", ops)
	})
	pbt.Run(t, "kinds", pbt.Opt{Quick: 500, Rule: "a defined type"}, func(c *pbt.C) {
		numeric := map[string]bool{"Int8": true, "Int16": true, "Int32": true, "Int64": true, "Float32": true, "Float64": true, "Decimal": true}
		k := sgen.Pick(c.T, "kind", []string{"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "Bool", "Bytes", "UUID", "Timestamp", "UnitValue", "Array", "Map", "Struct", "Enum", "Union", "Any", "Int", "int8", ""})
		m, err := sadl.NewModel(&sadl.Schema{Name: "x"})
		c.Check(err == nil, "%v", err)
		c.Case("%s", k)
		c.NonTrivial(m.FindType(k) != nil)
		c.Check(m.IsNumericType(&sadl.TypeSpec{Type: k}) == numeric[k], "IsNumericType(%s) = %v", k, !numeric[k])
	})
}
