package values

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/boynton/sadl"
	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// ---------------------------------------------------------------- P01 decimals

type num struct {
	neg  bool
	int_ string
	frac string
	exp  int
	hasE bool
	e    string
}

func digits(t *rapid.T, label string, min, max int) string {
	n := rapid.IntRange(min, max).Draw(t, label+"-n")
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(byte('0' + rapid.IntRange(0, 9).Draw(t, label)))
	}
	return b.String()
}

// drawNum draws a decimal literal of at most 70 significant digits.
func drawNum(t *rapid.T) (string, num) {
	var x num
	x.neg = rapid.Bool().Draw(t, "neg")
	max := rapid.SampledFrom([]int{2, 6, 20, 45}).Draw(t, "len")
	x.int_ = digits(t, "int", 1, max)
	if rapid.Bool().Draw(t, "hasFrac") {
		fm := max
		if fm > 25 {
			fm = 25
		}
		x.frac = digits(t, "frac", 1, fm)
	}
	if rapid.IntRange(0, 3).Draw(t, "hasExp") == 0 {
		x.hasE = true
		x.exp = rapid.IntRange(-40, 40).Draw(t, "exp")
		x.e = rapid.SampledFrom([]string{"e", "E"}).Draw(t, "e")
	}
	s := ""
	if x.neg {
		s = "-"
	}
	s += x.int_
	if x.frac != "" {
		s += "." + x.frac
	}
	if x.hasE {
		s += x.e + strconv.Itoa(x.exp)
	}
	return s, x
}

// exact is the rational value of a literal, computed without the code under test.
func (x num) exact() *big.Rat {
	n, _ := new(big.Int).SetString(x.int_+x.frac, 10)
	r := new(big.Rat).SetInt(n)
	e := x.exp - len(x.frac)
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(e))), nil)
	if e >= 0 {
		r.Mul(r, new(big.Rat).SetInt(p))
	} else {
		r.Quo(r, new(big.Rat).SetInt(p))
	}
	if x.neg {
		r.Neg(r)
	}
	return r
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// plain is the canonical plain notation of the literal.
func (x num) plain() string {
	d := x.int_ + x.frac
	point := len(x.int_) + x.exp
	if point <= 0 {
		d = strings.Repeat("0", 1-point) + d
		point = 1
	}
	for len(d) < point {
		d += "0"
	}
	ip := strings.TrimLeft(d[:point], "0")
	fp := strings.TrimRight(d[point:], "0")
	if ip == "" {
		ip = "0"
	}
	s := ip
	if fp != "" {
		s += "." + fp
	}
	if x.neg {
		s = "-" + s
	}
	return s
}

var jsonNumber = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)

func TestP01(t *testing.T) {
	pbt.Run(t, "text-roundtrip", pbt.Opt{Quick: 4000, Rule: "literal has more than 17 significant digits, a fraction or an exponent"}, func(c *pbt.C) {
		s, x := drawNum(c.T)
		c.Case("%s", s)
		c.NonTrivial(len(x.int_)+len(x.frac) > 17 || x.frac != "" || x.hasE)
		d, err := sadl.ParseDecimal(s)
		c.Check(err == nil && d != nil, "ParseDecimal(%q): %v", s, err)
		c.Check(d.String() == x.plain(), "ParseDecimal(%q).String() = %q, want %q", s, d.String(), x.plain())
		d2, err := sadl.ParseDecimal(d.String())
		c.Check(err == nil, "reparsing %q: %v", d.String(), err)
		c.Check(d.Cmp(d2.AsBigFloat()) == 0, "%q does not survive printing and parsing", s)
		// the stored value is the exact one to within 2^-249 of its size
		ex := x.exact()
		got, _ := d.AsBigFloat().Rat(nil)
		if ex.Sign() == 0 {
			c.Check(got.Sign() == 0, "%q is not zero", s)
			return
		}
		diff := new(big.Rat).Sub(ex, got)
		diff.Quo(diff, ex).Abs(diff)
		eps := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 249))
		c.Check(diff.Cmp(eps) <= 0, "%q is stored with a relative error of %s", s, diff.FloatString(90))
	})
	pbt.Run(t, "together", pbt.Opt{Quick: 150, Rule: "every case"}, func(c *pbt.C) {
		var ops []func() string
		var all []string
		for i := 0; i < 12; i++ {
			s, _ := drawNum(c.T)
			all = append(all, s)
			d, err := sadl.ParseDecimal(s)
			c.Check(err == nil, "ParseDecimal(%q): %v", s, err)
			ops = append(ops, func() string {
				d2, err := sadl.ParseDecimal(s)
				b, err2 := json.Marshal(d)
				var back sadl.Decimal
				err3 := json.Unmarshal(b, &back)
				return fmt.Sprintln(d2, err, string(b), err2, &back, err3, d.AsFloat64(), d.AsInt64(), d.String(), d.Cmp(back.AsBigFloat()))
			})
		}
		c.Case("%s", strings.Join(all, " "))
		c.NonTrivial(true)
		pbt.Together(c, "the use of decimals", ops)
	})
	pbt.Run(t, "json-roundtrip", pbt.Opt{Quick: 3000, Rule: "literal has more than 17 significant digits, a fraction or an exponent"}, func(c *pbt.C) {
		s, x := drawNum(c.T)
		c.Case("%s", s)
		c.NonTrivial(len(x.int_)+len(x.frac) > 17 || x.frac != "" || x.hasE)
		d, err := sadl.ParseDecimal(s)
		c.Check(err == nil, "ParseDecimal(%q): %v", s, err)
		type holder struct {
			V sadl.Decimal   `json:"v"`
			P *sadl.Decimal  `json:"p"`
			L []sadl.Decimal `json:"l"`
		}
		h := holder{V: *d, P: d, L: []sadl.Decimal{*d, *d}}
		b, err := json.Marshal(&h)
		c.Check(err == nil, "marshal: %v", err)
		var raw map[string]json.RawMessage
		c.Check(json.Unmarshal(b, &raw) == nil, "invalid JSON %s", b)
		for _, k := range []string{"v", "p"} {
			c.Check(jsonNumber.Match(raw[k]), "%s is encoded as %s, not as a JSON number", s, raw[k])
			c.Check(string(raw[k]) == x.plain(), "%s is encoded as %s", s, raw[k])
		}
		var back holder
		c.Check(json.Unmarshal(b, &back) == nil, "cannot read back %s", b)
		c.Check(back.V.Cmp(d.AsBigFloat()) == 0 && back.P != nil && back.P.Cmp(d.AsBigFloat()) == 0, "%s became %s / %s", s, &back.V, back.P)
		c.Check(len(back.L) == 2 && back.L[1].Cmp(d.AsBigFloat()) == 0, "list element changed")
		// the literal itself is also readable as JSON if it is a JSON number
		if jsonNumber.MatchString(s) {
			var lit sadl.Decimal
			c.Check(json.Unmarshal([]byte(s), &lit) == nil && lit.Cmp(d.AsBigFloat()) == 0, "JSON %s read as %s", s, &lit)
		}
	})
	pbt.Run(t, "order-and-conversion", pbt.Opt{Quick: 3000, Rule: "the two numbers differ"}, func(c *pbt.C) {
		s1, x1 := drawNum(c.T)
		s2, x2 := drawNum(c.T)
		if rapid.IntRange(0, 3).Draw(c.T, "near") == 0 {
			s2, x2 = s1, x1
			if !x2.hasE {
				s2 += "1"
				if x2.frac == "" {
					x2.int_ += "1"
				} else {
					x2.frac += "1"
				}
			}
		}
		c.Case("%s vs %s", s1, s2)
		d1, _ := sadl.ParseDecimal(s1)
		d2, _ := sadl.ParseDecimal(s2)
		want := x1.exact().Cmp(x2.exact())
		c.NonTrivial(want != 0)
		c.Check(d1.Cmp(d2.AsBigFloat()) == want, "order of %s and %s is %d, want %d", s1, s2, d1.Cmp(d2.AsBigFloat()), want)
		// conversion to machine numbers
		f, _ := strconv.ParseFloat(s1, 64)
		c.Check(d1.AsFloat64() == f, "%s as float64 is %v, want %v", s1, d1.AsFloat64(), f)
		q := new(big.Int).Quo(x1.exact().Num(), x1.exact().Denom())
		if q.IsInt64() {
			c.Check(d1.AsInt64() == q.Int64(), "%s as int64 is %d, want %d", s1, d1.AsInt64(), q.Int64())
			if n := q.Int64(); n >= math.MinInt32 && n <= math.MaxInt32 {
				c.Check(int64(d1.AsInt32()) == n, "%s as int32 is %d, want %d", s1, d1.AsInt32(), n)
			}
		}
	})
	pbt.Run(t, "machine-integers", pbt.Opt{Quick: 1500, Rule: "beyond 32 bits"}, func(c *pbt.C) {
		n := rapid.Int64().Draw(c.T, "n")
		switch rapid.IntRange(0, 5).Draw(c.T, "edge") {
		case 0:
			n = math.MaxInt64 - rapid.Int64Range(0, 3).Draw(c.T, "d")
		case 1:
			n = math.MinInt64 + rapid.Int64Range(0, 3).Draw(c.T, "d")
		case 2:
			n = int64(int32(n))
		}
		c.Case("%d", n)
		c.NonTrivial(n > math.MaxInt32 || n < math.MinInt32)
		d, err := sadl.ParseDecimal(fmt.Sprint(n))
		c.Check(err == nil && d.AsInt64() == n, "%d: %v %v", n, d, err)
		c.Check(d.String() == fmt.Sprint(n), "%d prints as %s", n, d)
		// defaults given as machine integers keep their value; an explicit value wins
		for _, def := range []interface{}{n, int(n)} {
			v := sadl.DecimalValue(nil, def)
			c.Check(v != nil && v.String() == fmt.Sprint(n), "default %T(%d) became %v", def, n, v)
		}
		v32 := sadl.DecimalValue(nil, int32(n))
		c.Check(v32 != nil && v32.String() == fmt.Sprint(int32(n)), "default int32(%d) became %v", int32(n), v32)
		v16 := sadl.DecimalValue(nil, int16(n))
		c.Check(v16 != nil && v16.String() == fmt.Sprint(int16(n)), "default int16 became %v", v16)
		v8 := sadl.DecimalValue(nil, int8(n))
		c.Check(v8 != nil && v8.String() == fmt.Sprint(int8(n)), "default int8 became %v", v8)
		one := sadl.NewDecimal(1)
		w := sadl.DecimalValue(d, one)
		c.Check(w != nil && w.Cmp(d.AsBigFloat()) == 0, "explicit value lost")
		w = sadl.DecimalValue(nil, one)
		c.Check(w != nil && w.AsInt64() == 1, "decimal default lost")
		c.Check(sadl.DecimalValue(nil, nil) == nil, "a default appeared from nowhere")
	})
	pbt.Run(t, "machine-floats", pbt.Opt{Quick: 1500, Rule: "not an integer"}, func(c *pbt.C) {
		f := float64(rapid.Int64Range(-1<<53, 1<<53).Draw(c.T, "mant"))
		f = math.Ldexp(f, rapid.IntRange(-60, 20).Draw(c.T, "shift"))
		if rapid.Bool().Draw(c.T, "small") {
			f = float64(rapid.IntRange(-100000, 100000).Draw(c.T, "k")) / 1000
		}
		if m, _ := math.Frexp(f); math.Abs(m) == 0.5 {
			f = math.Nextafter(f, 2*f) // powers of two: finding P01-power-of-two
		}
		c.Case("%v", f)
		c.NonTrivial(f != math.Trunc(f))
		d := sadl.NewDecimal(f)
		c.Check(d.AsFloat64() == f, "NewDecimal(%v).AsFloat64() = %v", f, d.AsFloat64())
		b, err := json.Marshal(d)
		c.Check(err == nil && jsonNumber.Match(b), "NewDecimal(%v) encodes as %s (%v)", f, b, err)
		var back sadl.Decimal
		c.Check(json.Unmarshal(b, &back) == nil && back.AsFloat64() == f, "%v encoded as %s reads back as %v", f, b, back.AsFloat64())
		v := sadl.DecimalValue(nil, f)
		c.Check(v != nil && v.AsFloat64() == f, "float default became %v", v)
		g := float32(f)
		v = sadl.DecimalValue(nil, g)
		c.Check(v != nil && v.AsFloat64() == float64(g), "float32 default became %v", v)
	})
	pbt.KnownFinding(t, "P01-power-of-two", func() (bool, string) {
		f := math.Ldexp(1, -24)
		b, _ := json.Marshal(sadl.NewDecimal(f))
		var back sadl.Decimal
		err := json.Unmarshal(b, &back)
		return err != nil || back.AsFloat64() != f, fmt.Sprintf("%v -> %s -> %v", f, b, back.AsFloat64())
	})
	pbt.Run(t, "rejects-non-numbers", pbt.Opt{Quick: 2000, Rule: "the text is not empty"}, func(c *pbt.C) {
		var s string
		if rapid.IntRange(0, 4).Draw(c.T, "whole") == 0 {
			s = rapid.SampledFrom([]string{"", "abc", "-", "+", ".", "e5", "1e", "--1", "1 2", "0x1f", "1,000", "1.2.3", "NaN", "Inf", "-Inf", "+Inf", "inf", "infinity", "true", "null", "\"1\"", " 1", "1 ", "1_000"}).Draw(c.T, "bad")
		} else {
			base, _ := drawNum(c.T)
			i := rapid.IntRange(0, len(base)).Draw(c.T, "at")
			ch := rapid.SampledFrom([]string{"x", "_", " ", ",", "'", "\"", "/", "a", "N", "#", "\n", "é"}).Draw(c.T, "junk")
			s = base[:i] + ch + base[i:]
		}
		c.Case("%q", s)
		c.NonTrivial(s != "")
		d, err := sadl.ParseDecimal(s)
		c.Check(err != nil, "ParseDecimal(%q) = %v, want an error", s, d)
		was := sgen.Dec("42.5")
		target := *was
		if err := target.UnmarshalJSON([]byte(s)); err == nil {
			c.Fatalf("JSON %q accepted as %v", s, &target)
		}
		c.Check(target.Cmp(was.AsBigFloat()) == 0, "a failed read changed the value to %v", &target)
	})
}

// ---------------------------------------------------------------- P02 timestamps

var tsForm = regexp.MustCompile(`^[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}\.[0-9]{3}Z$`)

func drawTime(t *rapid.T) time.Time {
	year := rapid.IntRange(1, 9999).Draw(t, "year")
	switch rapid.IntRange(0, 3).Draw(t, "era") {
	case 0:
		year = rapid.IntRange(1970, 2038).Draw(t, "year2")
	case 1:
		year = rapid.IntRange(1900, 2100).Draw(t, "year3")
	}
	month := rapid.IntRange(1, 12).Draw(t, "month")
	day := rapid.IntRange(1, daysIn(year, month)).Draw(t, "day")
	ns := rapid.IntRange(0, 999999999).Draw(t, "ns")
	switch rapid.IntRange(0, 3).Draw(t, "subsec") {
	case 0:
		ns = 0
	case 1:
		ns = rapid.IntRange(0, 999).Draw(t, "ms") * 1000000
	}
	if year == 1 && month == 1 && day == 1 {
		day = 2
	}
	return time.Date(year, time.Month(month), day, rapid.IntRange(0, 23).Draw(t, "h"), rapid.IntRange(0, 59).Draw(t, "m"), rapid.IntRange(0, 59).Draw(t, "s"), ns, time.UTC)
}

func daysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

func text(t time.Time, frac int) string {
	s := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", t.Year(), int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second())
	if frac > 0 {
		s += "." + fmt.Sprintf("%09d", t.Nanosecond())[:frac]
	}
	return s
}

func TestP02(t *testing.T) {
	pbt.Run(t, "print-and-parse", pbt.Opt{Quick: 4000, Rule: "a zone other than UTC, a sub-millisecond part, or a year outside 1900-2100"}, func(c *pbt.C) {
		tm := drawTime(c.T)
		want := tm.Truncate(time.Millisecond)
		off := 0
		if rapid.Bool().Draw(c.T, "zoned") {
			off = rapid.IntRange(-14*4, 14*4).Draw(c.T, "quarters") * 900
		}
		z := tm
		if off != 0 {
			z = tm.In(time.FixedZone("test", off))
		}
		if u := z.Year(); u < 1 || u > 9999 {
			z = tm
			off = 0
		}
		c.Case("%v", z)
		c.NonTrivial(off != 0 || tm.Nanosecond()%1000000 != 0 || tm.Year() < 1900 || tm.Year() > 2100)
		ts := sadl.Timestamp{Time: z}
		s := ts.String()
		c.Check(tsForm.MatchString(s), "%v prints as %q, not in the form YYYY-MM-DDThh:mm:ss.mmmZ", z, s)
		c.Check(s == text(want, 3)+"Z", "%v prints as %q, want %q", z, s, text(want, 3)+"Z")
		back, err := sadl.ParseTimestamp(s)
		c.Check(err == nil, "%q does not parse: %v", s, err)
		c.Check(back.Equal(want), "%v printed as %q parses as %v", z, s, back.Time)
		c.Check(back.String() == s, "printing again gives %q instead of %q", back.String(), s)
		// JSON
		b, err := json.Marshal(map[string]sadl.Timestamp{"t": ts})
		c.Check(err == nil && string(b) == `{"t":"`+s+`"}`, "JSON is %s (%v)", b, err)
		var m map[string]sadl.Timestamp
		c.Check(json.Unmarshal(b, &m) == nil && m["t"].Equal(want), "JSON %s reads back as %v", b, m["t"].Time)
	})
	pbt.Run(t, "together", pbt.Opt{Quick: 150, Rule: "every case"}, func(c *pbt.C) {
		var ops []func() string
		var all []string
		for i := 0; i < 12; i++ {
			ts := sadl.Timestamp{Time: drawTime(c.T)}
			all = append(all, ts.String())
			ops = append(ops, func() string {
				s := ts.String()
				p, err := sadl.ParseTimestamp(s)
				b, err2 := json.Marshal(ts)
				var back sadl.Timestamp
				err3 := json.Unmarshal(b, &back)
				return fmt.Sprintln(s, p, err, string(b), err2, back, err3)
			})
		}
		c.Case("%s", strings.Join(all, " "))
		c.NonTrivial(true)
		pbt.Together(c, "the use of timestamps", ops)
	})
	pbt.Run(t, "utc-spellings", pbt.Opt{Quick: 3000, Rule: "the text has a fraction or a spelled-out UTC offset"}, func(c *pbt.C) {
		tm := drawTime(c.T)
		frac := rapid.SampledFrom([]int{0, 1, 2, 3, 6, 9}).Draw(c.T, "frac")
		zone := rapid.SampledFrom([]string{"Z", "+00:00", "-00:00", "+0000", "-0000"}).Draw(c.T, "zone")
		s := text(tm, frac) + zone
		c.Case("%s", s)
		c.NonTrivial(frac > 0 || zone != "Z")
		want := tm.Truncate(time.Second)
		if frac > 0 {
			unit := time.Second
			for i := 0; i < frac; i++ {
				unit /= 10
			}
			want = tm.Truncate(unit)
		}
		ts, err := sadl.ParseTimestamp(s)
		c.Check(err == nil, "%q: %v", s, err)
		c.Check(ts.Equal(want), "%q parsed as %v, want %v", s, ts.Time, want)
		var j sadl.Timestamp
		c.Check(json.Unmarshal([]byte(`"`+s+`"`), &j) == nil && j.Equal(want), "JSON %q read as %v", s, j.Time)
		c.Check(j.String() == text(want, 3)+"Z", "%q normalises to %q", s, j.String())
	})
	pbt.Run(t, "rejects-bad-text", pbt.Opt{Quick: 3000, Rule: "every case (each is one edit away from a valid timestamp)"}, func(c *pbt.C) {
		tm := drawTime(c.T)
		y, mo, d, h, mi, s := tm.Year(), int(tm.Month()), tm.Day(), tm.Hour(), tm.Minute(), tm.Second()
		zone := "Z"
		mk := func() string { return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d.%03d", y, mo, d, h, mi, s, 7) + zone }
		var bad string
		switch rapid.IntRange(0, 10).Draw(c.T, "how") {
		case 0:
			mo = rapid.SampledFrom([]int{0, 13, 20, 99}).Draw(c.T, "mo")
			bad = mk()
		case 1:
			d = rapid.IntRange(daysIn(y, mo)+1, 40).Draw(c.T, "d")
			bad = mk()
		case 2:
			d = 0
			bad = mk()
		case 3:
			h = rapid.IntRange(24, 99).Draw(c.T, "h")
			bad = mk()
		case 4:
			mi = rapid.IntRange(60, 99).Draw(c.T, "mi")
			bad = mk()
		case 5:
			s = rapid.IntRange(61, 99).Draw(c.T, "s")
			bad = mk()
		case 6:
			zone = rapid.SampledFrom([]string{"+01:00", "-07:00", "+0530", "-0800", "", " UTC", "+00", "z0", "GMT", "+00:01", "ZZ"}).Draw(c.T, "z")
			bad = mk()
		case 7:
			bad = strings.Replace(mk(), "T", " ", 1)
		case 8:
			bad = mk()
			i := rapid.IntRange(0, 18).Draw(c.T, "cut")
			bad = bad[:i]
		case 9:
			bad = mk()
			i := rapid.IntRange(0, len(bad)).Draw(c.T, "at")
			bad = bad[:i] + rapid.SampledFrom([]string{"x", " ", "#", "T", "-"}).Draw(c.T, "junk") + bad[i:]
		case 10:
			bad = rapid.SampledFrom([]string{"", "now", "2020", "20200101T000000Z", "2020-01-01", "12:00:00Z", "1577836800"}).Draw(c.T, "whole")
		}
		c.Case("%q", bad)
		c.NonTrivial(true)
		ts, err := sadl.ParseTimestamp(bad)
		c.Check(err != nil, "ParseTimestamp(%q) = %v, want an error", bad, ts.Time)
		was := sadl.Timestamp{Time: time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)}
		tgt := was
		jb, _ := json.Marshal(bad)
		c.Check(json.Unmarshal(jb, &tgt) != nil, "JSON %s accepted as %v", jb, tgt.Time)
		c.Check(tgt.Equal(was.Time), "a failed read changed the timestamp to %v", tgt.Time)
	})
	pbt.Run(t, "rejects-other-json", pbt.Opt{Quick: 200, Rule: "every case"}, func(c *pbt.C) {
		j := rapid.SampledFrom([]string{"1", "true", "{}", "[]", "1577836800.5", `["2019-02-03T22:48:19.043Z"]`}).Draw(c.T, "json")
		c.Case("%s", j)
		c.NonTrivial(true)
		var ts sadl.Timestamp
		c.Check(json.Unmarshal([]byte(j), &ts) != nil, "JSON %s accepted as a timestamp", j)
	})
}

// ---------------------------------------------------------------- P03 unit values and UUIDs

func drawUnit(t *rapid.T) string {
	switch rapid.IntRange(0, 3).Draw(t, "unitkind") {
	case 0:
		return rapid.SampledFrom([]string{"USD", "EUR", "kg", "m/s", "%", "°C", "per hour", "x"}).Draw(t, "unit")
	case 1:
		return rapid.StringMatching(`[A-Za-z]{1,10}`).Draw(t, "unit")
	case 2:
		return rapid.StringMatching(`[ -~]{1,12}`).Draw(t, "unit")
	}
	s := strings.ToValidUTF8(rapid.StringN(1, 12, -1).Draw(t, "unit"), "u")
	if s == "" {
		return "u"
	}
	return s
}

func TestP03(t *testing.T) {
	pbt.Run(t, "unitvalue-roundtrip", pbt.Opt{Quick: 4000, Rule: "more than 17 digits, or a unit with characters other than letters"}, func(c *pbt.C) {
		s, x := drawNum(c.T)
		unit := drawUnit(c.T)
		c.Case("%s|%q", s, unit)
		c.NonTrivial(len(x.int_)+len(x.frac) > 17 || !regexp.MustCompile(`^[A-Za-z]+$`).MatchString(unit))
		q, err := sadl.ParseUnitValue(s + " " + unit)
		c.Check(err == nil && q != nil, "%q: %v", s+" "+unit, err)
		d, _ := sadl.ParseDecimal(s)
		c.Check(q.Value.Cmp(d.AsBigFloat()) == 0, "value of %q is %v", s+" "+unit, q.Value)
		c.Check(q.Unit == unit, "unit of %q is %q", s+" "+unit, q.Unit)
		sp := strings.Index(q.String(), " ")
		c.Check(sp > 0 && q.String()[sp+1:] == unit, "prints as %q", q.String())
		q2, err := sadl.ParseUnitValue(q.String())
		c.Check(err == nil && q2.Value.Cmp(d.AsBigFloat()) == 0 && q2.Unit == unit, "%q does not survive printing: %v %v", s+" "+unit, q2, err)
		b, err := json.Marshal(map[string]interface{}{"q": q})
		c.Check(err == nil, "cannot encode %q: %v", q.String(), err)
		var str map[string]string
		c.Check(json.Unmarshal(b, &str) == nil && str["q"] == q.String(), "%q is encoded as %s", q.String(), b)
		var back map[string]*sadl.UnitValue
		c.Check(json.Unmarshal(b, &back) == nil, "cannot read back %s", b)
		c.Check(back["q"] != nil && back["q"].Unit == unit && back["q"].Value.Cmp(d.AsBigFloat()) == 0, "%s reads back as %v", b, back["q"])
	})
	pbt.Run(t, "together", pbt.Opt{Quick: 150, Rule: "every case"}, func(c *pbt.C) {
		var ops []func() string
		var all []string
		for i := 0; i < 12; i++ {
			s, _ := drawNum(c.T)
			s += " " + drawUnit(c.T)
			u := rapid.StringMatching(`[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}`).Draw(c.T, "uuid")
			all = append(all, s, u)
			ops = append(ops, func() string {
				q, err := sadl.ParseUnitValue(s)
				b, err2 := json.Marshal(q)
				var back sadl.UnitValue
				err3 := json.Unmarshal(b, &back)
				return fmt.Sprintln(q, err, string(b), err2, &back, err3)
			}, func() string {
				id := sadl.ParseUUID(u)
				var back sadl.UUID
				b, err := json.Marshal(id)
				err2 := json.Unmarshal(b, &back)
				return fmt.Sprintln(id, string(b), err, back, err2)
			})
		}
		c.Case("%s", strings.Join(all, " / "))
		c.NonTrivial(true)
		pbt.Together(c, "the use of unit values and UUIDs", ops)
	})
	pbt.Run(t, "unitvalue-new", pbt.Opt{Quick: 800, Rule: "not an integer"}, func(c *pbt.C) {
		f := float64(rapid.IntRange(-100000, 100000).Draw(c.T, "k")) / 64
		unit := drawUnit(c.T)
		c.Case("%v|%q", f, unit)
		c.NonTrivial(f != math.Trunc(f))
		q := sadl.NewUnitValue(f, unit)
		c.Check(q.Value.AsFloat64() == f && q.Unit == unit, "NewUnitValue(%v,%q) = %v", f, unit, q)
		q2, err := sadl.ParseUnitValue(q.String())
		c.Check(err == nil && q2.Value.AsFloat64() == f && q2.Unit == unit, "%v reads back as %v (%v)", q, q2, err)
	})
	pbt.Run(t, "unitvalue-rejects", pbt.Opt{Quick: 1500, Rule: "the text is not empty"}, func(c *pbt.C) {
		s, _ := drawNum(c.T)
		unit := drawUnit(c.T)
		var bad string
		switch rapid.IntRange(0, 5).Draw(c.T, "how") {
		case 0:
			bad = s
		case 1:
			bad = s + " "
		case 2:
			bad = " " + unit
		case 3:
			bad = "x" + s + " " + unit
		case 4:
			bad = ""
		case 5:
			bad = s + strings.ReplaceAll(unit, " ", "")
			if !strings.ContainsAny(bad, " ") {
				break
			}
			bad = s
		}
		c.Case("%q", bad)
		c.NonTrivial(bad != "")
		q, err := sadl.ParseUnitValue(bad)
		c.Check(err != nil, "ParseUnitValue(%q) = %v, want an error", bad, q)
		jb, _ := json.Marshal(bad)
		tgt := sadl.UnitValue{Value: sgen.Dec("5"), Unit: "USD"}
		c.Check(json.Unmarshal(jb, &tgt) != nil, "JSON %s accepted as %v", jb, &tgt)
		c.Check(tgt.Unit == "USD" && tgt.Value.AsInt64() == 5, "a failed read changed the value to %v", &tgt)
	})
	pbt.Run(t, "uuid", pbt.Opt{Quick: 3000, Rule: "every case"}, func(c *pbt.C) {
		u := rapid.StringMatching(`[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}`).Draw(c.T, "uuid")
		c.NonTrivial(true)
		good := true
		switch rapid.IntRange(0, 4).Draw(c.T, "how") {
		case 1: // remove or add a character
			i := rapid.IntRange(0, len(u)-1).Draw(c.T, "at")
			if rapid.Bool().Draw(c.T, "rm") {
				u = u[:i] + u[i+1:]
			} else {
				u = u[:i] + "0" + u[i:]
			}
			good = false
		case 2: // a hyphen out of place
			i := rapid.SampledFrom([]int{8, 13, 18, 23}).Draw(c.T, "hy")
			u = u[:i] + rapid.SampledFrom([]string{"0", "a", "_", ":", " "}).Draw(c.T, "ch") + u[i+1:]
			good = false
		case 3: // a character that is no hexadecimal digit
			i := rapid.SampledFrom([]int{0, 3, 7, 9, 12, 14, 17, 19, 22, 24, 30, 35}).Draw(c.T, "at")
			u = u[:i] + rapid.SampledFrom([]string{"g", "z", "G", "-", " ", "_", "}"}).Draw(c.T, "ch") + u[i+1:]
			good = false
		}
		c.Case("%q", u)
		c.Class("good=%v", good)
		got := sadl.ParseUUID(u)
		var j sadl.UUID = "was"
		jb, _ := json.Marshal(u)
		err := json.Unmarshal(jb, &j)
		if good {
			c.Check(string(got) == u, "ParseUUID(%q) = %q", u, got)
			c.Check(err == nil && string(j) == u, "JSON %s read as %q (%v)", jb, j, err)
			b, err := json.Marshal(j)
			c.Check(err == nil && string(b) == string(jb), "UUID %q encodes as %s", u, b)
		} else {
			c.Check(got == "", "ParseUUID(%q) = %q, want a rejection", u, got)
			c.Check(err != nil, "JSON %s accepted as a UUID", jb)
			c.Check(j == "was", "a failed read changed the value to %q", j)
		}
	})
}
